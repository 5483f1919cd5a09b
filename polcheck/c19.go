package main

import (
	"go/types"
)

// C19: an update recomputes every vertex from the leaf to the root.

func init() {
	register("C19", "the calls of the recomputation callback reachable from the tree's Put, with the walk that supplies their vertex summarised as a recurrence: each call's vertex is the path's vertex of a level, its index argument is the path element of the same level, its flag holds exactly at the lowest level, its data are the vertex's own key, data and current children, its result becomes the vertex's data on every way through an iteration, levels descend one by one from the leaf's parent and the walk stops only past the root; the leaf's data is stored before, at the end of the path", checkC19)
}

// walkDown is the recurrence that descends along the path.
type walkDown struct {
	name string // of the carried variable
	path *Term
	n    *Term
}

type treeShape struct {
	parent, desc, data, key string
}

func (c *Ctx) treeShape() *treeShape {
	v := c.p.Named("sparse", "Vertex")
	if v == nil {
		c.lose("no type sparse.Vertex")
		return nil
	}
	t := &treeShape{}
	s, ok := v.Underlying().(*types.Struct)
	if !ok {
		c.lose("sparse.Vertex is not a structure")
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch u := f.Type().Underlying().(type) {
		case *types.Pointer:
			if types.Identical(u.Elem(), v) {
				t.parent = f.Name()
			}
		case *types.Map:
			t.desc = f.Name()
		case *types.Interface:
			t.data = f.Name()
		case *types.Basic:
			if u.Kind() == types.String {
				t.key = f.Name()
			}
		}
	}
	if t.parent == "" || t.desc == "" || t.data == "" || t.key == "" {
		c.lose("sparse.Vertex has no parent, children, data or key")
		return nil
	}
	return t
}

// atKey: the map operation's key.
func lookups(t *Term) (m, k *Term) {
	if t.op == "mget" && len(t.args) == 2 {
		return t.args[0], t.args[1]
	}
	return nil, nil
}

// level of the path's vertex x: 0 is the root, n the leaf. nil when x is not recognised.
func (d *walkDown) level(x *Term, ts *treeShape, depth int) *Term {
	if depth > 6 {
		return nil
	}
	switch x.op {
	case "muv", "mu":
		if x.sym == d.name {
			return x.args[0]
		}
		df := muDefs[x.sym]
		if df == nil || df.next == nil || df.self == nil {
			return nil
		}
		l0 := d.level(df.init, ts, depth+1)
		if l0 == nil {
			return nil
		}
		switch {
		case df.next == fld(df.self, ts.parent):
			return subT(l0, x.args[0])
		case df.next == df.self:
			return l0
		}
		return nil
	case "fld":
		if x.sym == ts.parent {
			if l := d.level(x.args[0], ts, depth+1); l != nil {
				return addK(l, -1)
			}
		}
	case "el":
		// collected on the way down
		c, i := x.args[0], x.args[1]
		for c.op == "sub" {
			c, i = c.args[0], add(c.args[1], i)
		}
		if c.op == "lcat" && c.args[2].op == "lit" && len(c.args[2].args) == 1 {
			lv := loopVar(c.sym)
			if l := d.level(c.args[2].args[0], ts, depth+1); l != nil {
				return subst(l, map[*Term]*Term{lv: subT(i, lenOf(c.args[0]))})
			}
		}
		if c.op == "lsto" && c.args[2] == loopVar(c.sym) {
			if l := d.level(c.args[3], ts, depth+1); l != nil {
				return subst(l, map[*Term]*Term{loopVar(c.sym): i})
			}
		}
	case "choice":
		_, alts := choiceAlts(x)
		var r *Term
		for _, a := range alts {
			l := d.level(a, ts, depth+1)
			if l == nil || r != nil && r != l {
				return nil
			}
			r = l
		}
		return r
	}
	return nil
}

func checkC19(c *Ctx) {
	put := c.method("sparse", "Tree", "Put")
	ts := c.treeShape()
	if put == nil || ts == nil {
		return
	}
	f := put.fn
	cb := ""
	if tt := c.p.Named("sparse", "Tree"); tt != nil {
		if s, ok := tt.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if sg, ok := s.Field(i).Type().Underlying().(*types.Signature); ok && sg.Params().Len() == 5 {
					cb = s.Field(i).Name()
				}
			}
		}
	}
	if cb == "" {
		c.lose("no callback that recomputes vertices")
		return
	}
	c.passedOn(put)
	s := c.session()
	args := entryArgs(f)
	if len(args) < 3 {
		c.lose("Put does not take an identifier and data")
		return
	}
	recv, data := args[0], args[2]
	s.call(f, args...)
	site := c.siteOf(f)

	// the leaf
	var leaf *Event
	leafAt := -1
	var calls []*Event
	var callAt []int
	for i, e := range s.in.Events {
		switch e.Kind {
		case "store":
			if len(e.Args) == 2 && e.Args[0].op == "fa" && e.Args[0].sym == ts.data && e.Args[1] == data {
				leaf, leafAt = e, i
			}
		case "callfn":
			if len(e.Args) == 6 && e.Args[0] == fld(recv, cb) {
				calls = append(calls, e)
				callAt = append(callAt, i)
			}
		}
	}
	if !c.oblige(leaf != nil, "leaf", site, "the recorded data is not stored in a vertex") {
		return
	}
	x := leaf.Args[0].args[0]
	if x.op != "mu" && x.op != "muv" || muDefs[x.sym] == nil {
		c.note("the vertex the data is stored in was not recognised: %s", describe(x))
		c.skip("Put's descent")
		return
	}
	df := muDefs[x.sym]
	// the path the descent follows
	var path *Term
	rs := newResolver(s.st.factList())
	steps := alternatives(df.next)
	bySelf := true
	for _, a := range steps {
		m, k := lookups(a)
		if m == nil && (a.op == "struct" || a.op == "obj") {
			// a new vertex: it was entered into the children of the current one
			if a.op == "struct" {
				c.oblige(fld(a, ts.parent) == df.self, "parent", site, "a new vertex does not have the vertex it is entered in as its parent, but "+describe(fld(a, ts.parent)))
			}
			for _, e := range s.in.Events {
				if e.Kind == "mapupd" && len(e.Args) == 3 && len(e.Loops) > 0 && e.Loops[len(e.Loops)-1].sym == df.loop {
					m, k = e.Args[0], e.Args[1]
				}
			}
			c.oblige(m != nil, "linked", site, "a new vertex is not entered into the children of its parent")
		}
		if m == nil {
			continue
		}
		k = stripConv(k)
		if k.op == "el" {
			if path == nil {
				path = k.args[0]
			}
			c.oblige(k.args[0] == path && k.args[1] == loopVar(df.loop), "descent", site, "the descent does not follow the path element by element: "+describe(k))
		}
		if m.op == "fld" && m.sym == ts.desc && m.args[0] != df.self {
			bySelf = false
		}
	}
	c.oblige(bySelf, "descent/own-children", site, "the descent takes a child of another vertex than the current one")
	if path == nil {
		c.note("descent not recognised: %s", describe(df.next))
		c.skip("Put's descent")
		return
	}
	n := lenOf(path)
	d := &walkDown{x.sym, path, n}
	okRoot := true
	for _, a := range alternatives(df.init) {
		if a.op == "fld" && a.args[0] == recv {
			continue
		}
		stored := false
		for _, e := range s.in.Events {
			if e.Kind == "store" && len(e.Args) == 2 && e.Args[0].op == "fa" && e.Args[0].args[0] == recv && e.Args[1] == a {
				stored = true
			}
		}
		okRoot = okRoot && (stored || a.op == "struct")
	}
	c.oblige(okRoot, "descent/root", site, "the descent does not start at the root of the tree")
	c.oblige(same(s.st.factList(), x.args[0], n), "leaf/position", c.eventSite(leaf), "the recorded data is not stored at the end of the path: "+describe(x.args[0])+" steps down instead of "+describe(n))

	if !c.oblige(len(calls) > 0, "recompute", site, "no vertex is recomputed") {
		return
	}
	last := false
	for i, e := range calls {
		st := c.eventSite(e)
		fs := e.St.factList()
		rs = newResolver(fs)
		key, dat, kids, flag, idx := e.Args[1], e.Args[2], e.Args[3], e.Args[4], e.Args[5]
		c.oblige(callAt[i] > leafAt, "order/leaf-first", st, "vertices are recomputed before the leaf is stored")
		// the vertex
		var v *Term
		if dat = rs.head(dat); dat.op == "fld" && dat.sym == ts.data {
			v = dat.args[0]
		}
		key = rs.head(key)
		if v == nil && key.op == "fld" && key.sym == ts.key {
			v = key.args[0]
			if dat.op == "nil" || dat.op == "fld" {
				c.oblige(false, "arguments/data", st, "a vertex is recomputed from other data than its own: "+describe(dat))
			}
		}
		if v == nil {
			c.note("vertex of the callback not recognised: %s", describe(dat))
			continue
		}
		if key.op == "fld" {
			c.oblige(key == fld(v, ts.key), "arguments/key", st, "a vertex is recomputed under the key of another one: "+describe(key))
		} else if len(e.Loops) > 0 {
			lv := e.Loops[len(e.Loops)-1]
			c.oblige(!v.hasFV(lv) || key.hasFV(lv), "arguments/key", st, "all vertices are recomputed under the same key")
		}
		c.oneStep(v, ts, st)
		lvl := d.level(v, ts, 0)
		if lvl == nil {
			c.note("level not recognised: %s", describe(v))
			continue
		}
		// index of the child that changed
		ix := stripConv(rs.head(idx))
		if ix.op == "el" && ix.args[0] == path {
			c.oblige(same(fs, ix.args[1], lvl), "arguments/index", st, "the index given for a vertex is not that of its child on the path: element "+describe(ix.args[1])+" for the vertex of level "+describe(lvl))
		} else if _, isInt := ix.intVal(); isInt {
			c.oblige(false, "arguments/index", st, "the index given for a vertex is constant")
		} else {
			c.note("index not recognised: %s", describe(ix))
		}
		c.children(s, e, ts, v, kids, recv, st)
		c.lowest(s, e, flag, lvl, n, st)
		// the result
		var loop string
		if len(e.Loops) > 0 {
			loop = e.Loops[len(e.Loops)-1].sym
		}
		after := s.st
		if loop != "" {
			after = s.in.latches[loop]
		}
		if after != nil {
			r := s.in.cell(after, fieldAddr(v, ts.data))
			if r == nil {
				c.oblige(false, "result", st, "the result of recomputing a vertex is not stored in it")
			} else {
				all := true
				for _, a := range alternatives(r) {
					if !(a.op == "app" && a.sym == "callfn" && len(a.args) > 0 && a.args[0] == fld(recv, cb)) {
						all = false
					}
				}
				c.oblige(all, "result", st, "a vertex is not recomputed on every way up: its data may stay "+describe(r))
			}
		}
		if loop == "" {
			c.oblige(i == 0 && same(fs, lvl, addK(n, -1)), "order/first", st, "the first vertex recomputed is not the parent of the leaf")
			continue
		}
		lv := loopVar(loop)
		first := subst(lvl, map[*Term]*Term{lv: zeroInt})
		next := subst(lvl, map[*Term]*Term{lv: addK(lv, 1)})
		if i == 0 {
			c.oblige(same(nil, first, addK(n, -1)), "order/first", st, "the first vertex recomputed is not the parent of the leaf but that of level "+describe(first))
		} else {
			prev := d.level(callVertex(calls[i-1], ts), ts, 0)
			c.oblige(prev == nil || len(calls[i-1].Loops) > 0 || same(nil, first, addK(prev, -1)), "order/next", st, "a vertex between two recomputations is left out")
		}
		c.oblige(same(nil, next, addK(lvl, -1)), "order/up", st, "recomputation does not proceed one level up at a time: from "+describe(lvl)+" to "+describe(next))
		if i == len(calls)-1 {
			last = true
			c.reachesRoot(s, loop, v, lvl, n, st)
		}
	}
	c.oblige(last || len(calls) == 0 || len(calls[len(calls)-1].Loops) > 0, "order/root", site, "only a fixed number of vertices is recomputed")
}

// oneStep: a walk over parents does not pass over any on some ways through its body.
func (c *Ctx) oneStep(v *Term, ts *treeShape, site string) {
	df := muDefs[v.sym]
	if v.op != "muv" || df == nil || df.next == nil || df.self == nil {
		return
	}
	for _, a := range alternatives(df.next) {
		n := 0
		for a.op == "fld" && a.sym == ts.parent {
			a = a.args[0]
			n++
		}
		if a == df.self {
			c.oblige(n <= 1, "order/step", site, "the walk up may pass over a vertex")
		}
	}
}

// passedOn: the tree of commitments records through this Put what it was given.
func (c *Ctx) passedOn(put *fnRef) {
	vp := c.method("verkle", "Tree", "Put")
	if vp == nil {
		return
	}
	s := c.session(put.fn)
	args := entryArgs(vp.fn)
	called := calledCell(put.fn.String())
	s.st.mem = s.st.mem.Set(called.id, tFalse)
	s.call(vp.fn, args...)
	n := 0
	for _, e := range s.in.Events {
		if e.Kind != "atomic" || e.Name != put.fn.String() || len(e.Args) < 3 || len(args) < 3 {
			continue
		}
		n++
		d := e.Args[2]
		if d.op == "mkif" {
			d = d.args[0]
		}
		c.oblige(e.Args[1] == args[1], "recorded/identifier", c.eventSite(e), "an amount is recorded under another identifier: "+describe(e.Args[1]))
		c.oblige(d == args[2], "recorded/amount", c.eventSite(e), "another amount is recorded: "+describe(d))
	}
	c.oblige(n == 1, "recorded/once", c.siteOf(vp.fn), "recording an amount does not enter it into the tree exactly once")
	r := s.in.cell(s.st, called)
	c.oblige(r == tTrue, "recorded/always", c.siteOf(vp.fn), "an amount may not be entered into the tree: "+describe(r))
}

func callVertex(e *Event, ts *treeShape) *Term {
	d := newResolver(e.St.factList()).head(e.Args[2])
	if d.op == "fld" && d.sym == ts.data {
		return d.args[0]
	}
	return d
}

// alternatives: the values a conditional may have.
func alternatives(t *Term) []*Term {
	if t.op != "choice" {
		return []*Term{t}
	}
	var r []*Term
	_, alts := choiceAlts(t)
	for _, a := range alts {
		for _, b := range alternatives(a) {
			if !has(r, b) {
				r = append(r, b)
			}
		}
	}
	return r
}

// children: the callback gets the current data of all children of v, each at its index.
func (c *Ctx) children(s *session, e *Event, ts *treeShape, v, kids, recv *Term, site string) {
	q := s.in.seq(e.St, kids)
	fs := e.St.factList()
	bad := ""
	known := false
	var val, idx, base *Term
	switch q.op {
	case "lsto":
		val, idx, base = q.args[3], q.args[2], q.args[0]
	case "lcat":
		if q.args[2].op == "lit" && len(q.args[2].args) == 1 {
			val, idx, base = q.args[2].args[0], add(lenOf(q.args[0]), loopVar(q.sym)), q.args[0]
		}
	}
	if val != nil {
		known = true
		if n := lenOf(q); n.op != "len" || n.args[0] != q {
			if !same(fs, n, fld(recv, "FanOut")) && plainInt(n, recv) {
				bad = "the vector of children has length " + describe(n)
			}
		}
		hit := false
		for _, a := range alternatives(val) {
			if a.op == "nil" || a.op == "fld" && a.sym == ts.data && a.args[0].op == "nil" {
				continue
			}
			if a.op == "el" && base != nil && a.args[0] == base {
				continue
			}
			if a.op != "fld" || a.sym != ts.data {
				known = false
				continue
			}
			m, k := lookups(a.args[0])
			if m == nil {
				known = false
				continue
			}
			hit = true
			if stripConv(k) != stripConv(idx) {
				bad = "the data of child " + describe(k) + " is handed over as that of child " + describe(idx)
			}
			if m.op == "fld" && m.sym == ts.desc && m.args[0] != v {
				bad = "the children handed over are not those of the vertex: " + describe(m)
			}
			if T := q.args[1]; T.op == "len" && T.args[0] != m {
				bad = "not all children are handed over"
			}
		}
		known = known && hit
	}
	if !known && bad == "" {
		c.note("children not recognised: %s", describe(q))
	}
	c.oblige(bad == "", "arguments/children", site, "a vertex is recomputed with wrong children: "+bad)
	// read in the same iteration
	if len(e.Loops) > 0 && kids.op == "slice" && kids.args[0].op == "obj" && known {
		lv := e.Loops[len(e.Loops)-1]
		c.oblige(kids.args[0].hasFV(lv), "arguments/current", site, "the children's data are collected before the level below is recomputed")
		if v.hasFV(lv) && kids.args[0].hasFV(lv) && len(kids.args[0].args) > 0 {
			c.oblige(kids.args[0].args[0] == lv, "arguments/current", site, "the children's data were collected in another iteration")
		}
	}
}

// plainInt: a field of x, a constant or a linear combination of fields of x.
func plainInt(n, x *Term) bool {
	for a := range toLin(n).m {
		if a.op != "fld" || a.args[0] != x {
			return false
		}
	}
	return true
}

// lowest: the flag holds exactly for the leaf's parent.
func (c *Ctx) lowest(s *session, e *Event, flag, lvl, n *Term, site string) {
	fs := e.St.factList()
	low, high := eqInt(lvl, addK(n, -1)), not(eqInt(lvl, addK(n, -1)))
	// a linear predicate over the length of the path and the iteration that holds only sometimes
	undecided := func(t, n *Term) bool {
		if t == tTrue || t == tFalse || !isLinear(t) {
			return false
		}
		x := t
		for x.op == "not" {
			x = x.args[0]
		}
		for a := range toLin(x.args[0]).m {
			if a != n && a.op != "lv" {
				return false
			}
		}
		return true
	}
	truth := func(cond *Term) *Term {
		g := with(fs, cond)
		if refute(relevant(g, []*Term{cond})) {
			return nil
		}
		t := flag
		if t.op == "muv" {
			if d := muDefs[t.sym]; d != nil && d.next != nil {
				k := t.args[0]
				switch {
				case entails(g, eqInt(k, zeroInt)):
					t = d.init
				case entails(g, ge0(addK(k, -1))):
					t = d.next
					if t == d.self {
						t = d.init
					}
				}
			}
		}
		t = newResolver(g).deep(t)
		switch {
		case t == tTrue || t == tFalse:
			return t
		case isPred(t) || isLinear(t):
			if entails(g, t) {
				return tTrue
			}
			if contradicts(g, t) {
				return tFalse
			}
		}
		return t
	}
	if t := truth(low); t != nil {
		c.oblige(t != tFalse && !undecided(t, n), "arguments/lowest", site, "the parent of the leaf may not be treated as holding leaves")
		if t != tTrue && t != tFalse {
			c.note("flag not recognised: %s", describe(t))
		}
	}
	if t := truth(high); t != nil {
		c.oblige(t != tTrue && !undecided(t, n), "arguments/inner", site, "a vertex above the leaf's parent is treated as holding leaves")
	}
}

// reachesRoot: the walk up ends only past the root.
func (c *Ctx) reachesRoot(s *session, loop string, v, lvl, n *Term, site string) {
	fs := s.st.factList()
	lv := loopVar(loop)
	for _, f := range fs {
		if f.op == "all" && f.sym == loop {
			T := f.args[0]
			if T.op != "trip" {
				// a counted loop
				end := subst(lvl, map[*Term]*Term{lv: addK(T, -1)})
				c.oblige(same(fs, end, zeroInt), "order/root", site, "the last vertex recomputed is not the root but that of level "+describe(end))
				return
			}
		}
	}
	trip := mk("trip", loop)
	cur := v
	if v.op == "muv" {
		cur = mk("mu", v.sym, append([]*Term{trip}, v.args[1:]...)...)
	}
	ok := entails(fs, eqTerm(cur, tNil)) || has(fs, eqTerm(cur, tNil))
	if !ok {
		end := subst(lvl, map[*Term]*Term{lv: trip})
		ok = same(fs, end, intT(-1))
	}
	if !ok && v.op != "muv" {
		c.note("end of the walk not recognised")
		return
	}
	c.oblige(ok, "order/root", site, "the walk up may stop before the root was recomputed")
}
