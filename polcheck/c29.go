package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C29: what is recorded under an identifier is what lookups and proofs read back.

func init() {
	register("C29", "recording hands the tree the identifier and the amount it was given on every way out; the lookup's walk is summarised as a recurrence and starts at the root, takes the child of the path's own element at every step and yields what is stored at its end, unchanged; the vertices it yields are, position by position, decoded from the record the database holds under the key of the vertex of that position; the amount reported with a proof is the amount the proof states", checkC29)
}

func checkC29(c *Ctx) {
	sput, sget := c.method("sparse", "Tree", "Put"), c.method("sparse", "Tree", "Get")
	vget := c.method("verkle", "Tree", "Get")
	set, get := c.method("pol", "LiabilitySet", "Set"), c.method("pol", "LiabilitySet", "Get")
	prove := c.method("pol", "LiabilitySet", "ProveLiability")
	ts := c.treeShape()
	if sput == nil || sget == nil || vget == nil || set == nil || get == nil || prove == nil || ts == nil {
		return
	}
	c.recorded(set.fn, sput.fn)
	c.walked(sget.fn, ts)
	c.handedOn(get.fn, sget.fn)
	c.handedOn(vget.fn, sget.fn)
	c.vertices(vget.fn, sget.fn, ts)
	c.stated(prove.fn)
}

// recorded: setting an amount enters it into the tree, under its identifier, on every way out.
func (c *Ctx) recorded(fn, put *ssa.Function) {
	s := c.session(put)
	args := entryArgs(fn)
	called := calledCell(put.String())
	s.st.mem = s.st.mem.Set(called.id, tFalse)
	s.call(fn, args...)
	if len(args) < 3 {
		c.lose("%s does not take an identifier and an amount", shortFn(fn))
		return
	}
	n := 0
	for _, e := range s.in.Events {
		if e.Kind != "atomic" || e.Name != put.String() || len(e.Args) < 3 {
			continue
		}
		n++
		d := e.Args[2]
		if d.op == "mkif" {
			d = d.args[0]
		}
		fs := e.St.factList()
		id := newResolver(fs).head(e.Args[1])
		d = newResolver(fs).head(d)
		g := &agreement{c: c}
		c.oblige(g.of(fs, id, args[1]) != apart, "recorded/identifier", c.eventSite(e), "an amount is recorded under another identifier: "+describe(id))
		c.oblige(!narrows(d), "recorded/width", c.eventSite(e), "an amount passes through a narrower type: "+describe(d))
		c.oblige(g.of(fs, d, args[2]) != apart, "recorded/amount", c.eventSite(e), "another amount is recorded: "+describe(d))
	}
	if !c.oblige(n > 0, "recorded", c.siteOf(fn), "no amount is entered into the tree") || s.st.dead {
		return
	}
	r := s.in.cell(s.st, called)
	if r == tTrue {
		c.oblige(true, "recorded/always", c.siteOf(fn), "")
		return
	}
	// left out for some amounts or identifiers only
	st := s.st.clone()
	st.assume(not(r))
	if st.dead {
		c.oblige(true, "recorded/always", c.siteOf(fn), "")
		return
	}
	for _, f := range saturate(st.factList(), nil) {
		// an amount that is already there need not be recorded again
		if (f.op == "eq0" || f.op == "eq") && occurs(f, args[2]) && !known(f) || f.op == "eq0" && occurs(f, args[2]) && readsTree(f) {
			c.note("recorded/always: %s leaves out an amount that is already there: %s", shortFn(fn), describe(f))
			return
		}
	}
	c.oblige(false, "recorded/always", c.siteOf(fn), "an amount may not be entered into the tree: "+describe(r))
}

// readsTree: made from what a lookup yields.
func readsTree(t *Term) bool {
	r := false
	walkDeep(t, func(x *Term) bool {
		r = r || x.op == "mget" || x.op == "app" && strings.HasPrefix(x.sym, "pred:") || x.op == "ta" || x.op == "app" && strings.HasPrefix(x.sym, "ta:")
		return !r
	})
	return r
}

// narrows: through an integer type that does not hold every amount.
func narrows(t *Term) bool {
	r := false
	walk(t, func(x *Term) bool {
		if x.op == "app" && strings.HasPrefix(x.sym, "conv:") {
			switch strings.TrimPrefix(x.sym, "conv:") {
			case "int32", "uint32", "int16", "uint16", "int8", "uint8":
				r = true
			}
		}
		return !r && x.op != "el" && x.op != "fld" && x.op != "mget" && !(x.op == "app" && (x.sym == "Zr.Int" || strings.HasPrefix(x.sym, "pred:")))
	})
	return r
}

// walked: the lookup follows the path from the root and yields what is stored at its end.
func (c *Ctx) walked(f *ssa.Function, ts *treeShape) {
	r := c.analyse(f)
	fs := r.accepting()
	site := c.siteOf(f)
	if r.dead || len(r.args) < 2 || r.ret.op != "tuple" || len(r.ret.args) < 2 {
		c.lose("lookups never succeed")
		return
	}
	rs := newResolver(fs)
	data := rs.head(r.ret.args[0])
	if data.op == "mkif" {
		data = data.args[0]
	}
	if data.op != "fld" || data.sym != ts.data {
		c.oblige(!known(data) || data.op == "choice", "walk/data", site, "a lookup yields something else than what is recorded: "+describe(data))
		c.note("the value a lookup yields was not recognised: %s", describe(data))
		return
	}
	end := data.args[0]
	x := end
	for x.op == "fld" || x.op == "mget" {
		x = x.args[0]
	}
	df := muDefs[x.sym]
	if x.op != "mu" && x.op != "muv" || df == nil || df.next == nil {
		c.note("the walk of a lookup was not recognised: %s", describe(x))
		return
	}
	init := rs.head(df.init)
	isRoot := init.op == "fld" && init.args[0] == r.args[0]
	c.oblige(isRoot || !known(init), "walk/root", site, "a lookup does not start at the root of the tree: "+describe(init))
	var path *Term
	for _, a := range alternatives(rs.head(df.next)) {
		m, k := lookups(a)
		if m == nil {
			continue
		}
		k = stripConv(k)
		if k.op != "el" {
			if bad := known(k) && len(elemsOf(k)) > 0; bad {
				c.oblige(false, "walk/step", site, "a lookup does not take the child of the path's element: "+describe(k))
				path = elemsOf(k)[0].args[0]
			} else {
				c.note("step of a lookup not recognised: %s", describe(k))
			}
			continue
		}
		path = k.args[0]
		c.oblige(k.args[1] == loopVar(df.loop) || !known(k.args[1]), "walk/step", site, "a lookup does not follow the path element by element: "+describe(k.args[1]))
		c.oblige(m.op != "fld" || m.args[0] == df.self, "walk/own-children", site, "a lookup takes a child of another vertex than the current one: "+describe(m))
	}
	if path == nil {
		c.note("the steps of a lookup were not recognised: %s", describe(df.next))
		return
	}
	if path.op == "app" && path.sym == "callfn" && len(path.args) == 2 {
		id := path.args[1]
		c.oblige((&agreement{c: c}).of(fs, id, r.args[1]) != apart, "walk/identifier", site, "a lookup follows the path of another identifier: "+describe(id))
		fn := path.args[0]
		c.oblige(fn.op != "fld" || fn.args[0] == r.args[0], "walk/mapping", site, "a lookup maps identifiers with a function that is not the tree's: "+describe(fn))
	} else {
		c.note("the path a lookup follows was not recognised: %s", describe(path))
	}
	n := lenOf(path)
	last := (&walkDown{x.sym, path, n}).steps(end, ts)
	if last == nil {
		c.note("the vertex whose data a lookup yields was not recognised: %s", describe(end))
		last = x.args[0]
	}
	c.oblige(same(fs, last, n) || !known(last), "walk/end", site, "a lookup does not yield what is at the end of the path, but after "+describe(last)+" steps")
	// the vertices on the way
	vs := r.in.seq(r.st, rs.head(r.ret.args[1]))
	d := &walkDown{x.sym, path, n}
	g := &agreement{c: c}
	ln := lenOf(vs)
	if isSeq(vs) {
		c.oblige(g.of(fs, ln, n) != apart, "walk/vertices/count", site, "a lookup yields another number of vertices than the path has steps: "+describe(ln))
	}
	at := in("δ")
	h := saturate(with(fs, ge0(at), lt(at, n)), []*Term{at})
	el := newResolver(h).elem(vs, at)
	if el.op == "mkif" {
		el = el.args[0]
	}
	lvl := d.steps(el, ts)
	if lvl == nil {
		c.note("the vertices a lookup yields were not recognised: %s", describe(el))
		return
	}
	c.oblige(same(h, lvl, at) || !known(lvl), "walk/vertices", site, "a lookup yields for a step the vertex of another one: "+describe(lvl))
}

// steps: the level of a vertex, also when it is reached from another one by the path's own step.
func (d *walkDown) steps(x *Term, ts *treeShape) *Term {
	if m, k := lookups(x); m != nil && m.op == "fld" && m.sym == ts.desc {
		l := d.steps(m.args[0], ts)
		k = stripConv(k)
		if l == nil || k.op != "el" || k.args[0] != d.path {
			return nil
		}
		if k.args[1] != l {
			return app("elsewhere", l, k.args[1])
		}
		return addK(l, 1)
	}
	return d.level(x, ts, 0)
}

// elemsOf: elements of sequences, in t.
func elemsOf(t *Term) []*Term {
	var r []*Term
	walk(t, func(x *Term) bool {
		if x.op == "el" {
			r = append(r, x)
			return false
		}
		return true
	})
	return r
}

// handedOn: f yields what the lookup of the same identifier yields.
func (c *Ctx) handedOn(f, lookup *ssa.Function) {
	r := c.analyse(f, lookup)
	fs := r.accepting()
	site := c.siteOf(f)
	if r.dead || r.ret.op != "tuple" {
		c.lose("%s never reports success", shortFn(f))
		return
	}
	for _, e := range r.in.Events {
		if e.Kind != "atomic" || e.Name != lookup.String() || len(e.Args) < 2 {
			continue
		}
		id := newResolver(e.St.factList()).head(e.Args[1])
		want := r.params(func(t types.Type) bool { return typeName(t) == "string" })
		c.oblige(len(want) == 0 || (&agreement{c: c}).of(e.St.factList(), id, want[0]) != apart, shortFn(f)+"/identifier", c.eventSite(e), shortFn(f)+" looks up another identifier: "+describe(id))
	}
	v := newResolver(fs).deep(r.ret.args[0])
	for v.op == "ta" || v.op == "app" && len(v.args) == 1 && len(v.sym) > 3 && v.sym[:3] == "ta:" {
		v = v.args[0]
	}
	c.oblige(!narrows(r.ret.args[0]), shortFn(f)+"/width", site, shortFn(f)+" reports the amount through a narrower type: "+describe(r.ret.args[0]))
	isResult := v.op == "app" && v.sym == "pred:"+lookup.String()+".0"
	c.oblige(isResult || !known(v) || v.op == "choice", shortFn(f)+"/amount", site, shortFn(f)+" reports something else than the recorded amount: "+describe(v))
	if !isResult {
		c.note("%s: the amount was not recognised: %s", shortFn(f), describe(v))
	}
}

// vertices: each is decoded from the record of its own key.
func (c *Ctx) vertices(f, lookup *ssa.Function, ts *treeShape) {
	r := c.analyse(f, lookup)
	fs := r.accepting()
	site := c.siteOf(f)
	if r.dead || r.ret.op != "tuple" {
		return
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		sl, ok := res.At(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		rs := newResolver(fs)
		vs := r.in.seq(r.st, rs.head(r.ret.args[i]))
		at := in("δ")
		h := saturate(with(fs, ge0(at), lt(at, lenOf(vs))), []*Term{at})
		el := newResolver(h).elem(vs, at)
		st := r.st.clone()
		for _, x := range h {
			st.assume(x)
		}
		v := r.in.deep(st, el, sl.Elem(), 0)
		if v.op == "choice" {
			_, as := choiceAlts(v)
			for _, a := range as {
				if a.op == "struct" {
					v = a
				} else {
					c.oblige(!isPath(a) || a.op == "nil", "vertex/current", site, "a vertex that a proof is made from may be one read before: "+describe(a))
				}
			}
		}
		if v.op != "struct" {
			c.note("the vertices %s yields were not recognised: %s", shortFn(f), describe(v))
			return
		}
		names := structNames(deref(sl.Elem()))
		for k, x := range v.args {
			if k < len(names) {
				c.ownRecord(h, at, x, names[k], lookup, ts, site)
			}
		}
	}
}

// ownRecord: a field of the vertex at a position is read from the vertex's own record.
func (c *Ctx) ownRecord(fs []*Term, at, x *Term, name string, lookup *ssa.Function, ts *treeShape, site string) {
	seen := map[*Term]bool{}
	var alts func(t *Term)
	alts = func(t *Term) {
		if t.op == "choice" {
			_, as := choiceAlts(t)
			for _, a := range as {
				alts(a)
			}
			return
		}
		if t.op == "nil" {
			return
		}
		n := 0
		walkDeep(t, func(y *Term) bool {
			if y.op != "mget" || y.args[0].op != "db" {
				return true
			}
			n++
			if !seen[y.args[1]] {
				seen[y.args[1]] = true
				c.ownKey(fs, at, y.args[1], name, lookup, ts, site)
			}
			return false
		})
		if n == 0 {
			c.oblige(!known(t), "vertex/"+name+"/read", site, "the "+name+" of a vertex that a proof is made from is not read from the database: "+describe(t))
		}
	}
	alts(x)
}

func (c *Ctx) ownKey(fs []*Term, at, key *Term, name string, lookup *ssa.Function, ts *treeShape, site string) {
	msg := "the " + name + " of a vertex that a proof is made from is read from the record of another one: "
	k := newResolver(fs).head(key)
	asserted := func(t *Term) *Term {
		for t.op == "ta" || t.op == "mkif" || t.op == "app" && len(t.args) == 1 && len(t.sym) > 3 && t.sym[:3] == "ta:" {
			t = t.args[0]
		}
		return t
	}
	k = asserted(k)
	if k.op != "fld" {
		c.oblige(!known(k), "vertex/"+name+"/key", site, msg+describe(k))
		return
	}
	c.oblige(k.sym == ts.data, "vertex/"+name+"/key", site, msg+describe(k))
	v := asserted(k.args[0])
	if v.op != "el" {
		c.oblige(!known(v), "vertex/"+name+"/vertex", site, msg+describe(v))
		return
	}
	i, b := v.args[1], v.args[0]
	for b.op == "sub" {
		b, i = b.args[0], add(b.args[1], i)
	}
	if b.op != "app" || b.sym != "pred:"+lookup.String()+".1" {
		c.note("vertex/%s: not compared: %s", name, describe(b))
		return
	}
	c.oblige(same(fs, i, at) || !known(i), "vertex/"+name+"/position", site, msg+"that of position "+describe(i))
}

// stated: the amount reported with a proof is the one that the proof states.
func (c *Ctx) stated(f *ssa.Function) {
	parts := c.components()
	s, _, ls, _ := c.setUp(parts)
	if s == nil {
		return
	}
	ret := s.call(f, append([]*Term{ls}, argsByType2(f, map[string]*Term{"string": in("id")})...)...)
	if s.st.dead || ret.op != "tuple" {
		c.lose("%s never returns", shortFn(f))
		return
	}
	res := f.Signature.Results()
	var amount, claim *Term
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		switch {
		case isBoolType(t):
			s.st.assume(ret.args[i])
		case isErrorType(t):
			s.st.assume(eqTerm(ret.args[i], tNil))
		case isIntType(t):
			amount = ret.args[i]
		}
	}
	if s.st.dead {
		c.lose("%s never reports success", shortFn(f))
		return
	}
	fs := settled(saturate(s.st.factList(), nil))
	for i := 0; i < res.Len(); i++ {
		if _, ok := deref(res.At(i).Type()).Underlying().(*types.Struct); ok && claim == nil {
			claim = resolve(fs, s.in.deep(s.st, ret.args[i], res.At(i).Type(), 0))
			claim = integerIn(claim, deref(res.At(i).Type()), 3)
		}
	}
	if amount == nil || claim == nil {
		c.lose("%s reports no amount, or its proof states none", shortFn(f))
		return
	}
	amount, claim = resolve(fs, amount), resolve(fs, claim)
	for _, x := range []*Term{amount, claim} {
		c.oblige(!narrows(x), "stated/width", c.siteOf(f), "an amount passes through a narrower type: "+describe(x))
	}
	g := &agreement{c: c}
	r := g.of(fs, amount, claim)
	if r == unknown {
		c.note("the amount reported with a proof was not compared: %s and %s", describe(amount), describe(claim))
	}
	c.oblige(r != apart, "stated", c.siteOf(f), shortFn(f)+" reports another amount than its proof states: "+g.why)
}

// integerIn: the integer in a structure.
func integerIn(v *Term, t types.Type, depth int) *Term {
	if v.op != "struct" || depth == 0 {
		return nil
	}
	for i, ft := range fieldTypes(t) {
		if i >= len(v.args) {
			break
		}
		if isIntType(ft) {
			return v.args[i]
		}
		if _, ok := deref(ft).Underlying().(*types.Struct); ok {
			if r := integerIn(v.args[i], deref(ft), depth-1); r != nil {
				return r
			}
		}
	}
	return nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
