package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C20: serialising a tree writes every vertex, and a failure is not silent.

func init() {
	register("C20", "the value term of everything written to the output when the serialiser returns normally: one record holding the path and the encoded content of the vertex, announced by its length, and for every descendant (the loop covers the whole map) what the recursive call writes for it, under the path extended by its index; the content handed in for a vertex of the verkle tree is what the database holds under the vertex's key; every write error is tested and stops", checkC20)
}

func checkC20(c *Ctx) {
	ser := c.method("sparse", "Vertex", "Serialize")
	vser := c.method("verkle", "Tree", "Serialize")
	vt := c.p.Named("sparse", "Vertex")
	if ser == nil || vser == nil || vt == nil {
		return
	}
	for _, f := range []*ssa.Function{ser.fn, vser.fn} {
		c.failureRule(f)
		for _, g := range c.ownCallees(f) {
			if g.Pkg != nil && g.Pkg == f.Pkg || g.Parent() != nil {
				c.failureRule(g)
			}
		}
	}
	c.vertexStream(ser.fn, vt)
	c.treeStream(vser.fn, ser.fn)
}

// flatCat: the parts of a concatenation.
func flatCat(t *Term) []*Term {
	switch t.op {
	case "cat":
		return append(flatCat(t.args[0]), flatCat(t.args[1])...)
	case "lcat":
		if n, ok := t.args[1].intVal(); ok && n <= 16 {
			r := flatCat(t.args[0])
			for i := int64(0); i < n; i++ {
				x := subst(t.args[2], map[*Term]*Term{loopVar(t.sym): intT(i)})
				r = append(r, flatCat(newResolver(nil).deep(x))...)
			}
			return r
		}
		return append(flatCat(t.args[0]), t)
	case "lit":
		if len(t.args) == 0 {
			return nil
		}
	}
	return []*Term{t}
}

type streamCheck struct {
	c        *Ctx
	s        *session
	site     string
	kids     string // field of the descendants
	recv     *Term
	out      *Term
	path, fn *Term
	others   []string // fields that lead to other vertices
}

// entryOf: the parameters of a function by role.
func streamParams(f *ssa.Function) (args []*Term, out, path, fn *Term) {
	args = []*Term{in("recv")}
	sig := f.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		a := in("a" + itoa(i))
		args = append(args, a)
		switch u := sig.Params().At(i).Type().Underlying().(type) {
		case *types.Interface:
			if out == nil {
				out = a
			}
		case *types.Basic:
			if u.Kind() == types.String && path == nil {
				path = a
			}
		case *types.Signature:
			if fn == nil {
				fn = a
			}
		}
	}
	return
}

func (c *Ctx) vertexStream(f *ssa.Function, vt *types.Named) {
	args, out, path, fn := streamParams(f)
	if out == nil || path == nil || fn == nil {
		c.lose("%s: output, path or encoder parameter not found", f.Name())
		return
	}
	kids := ""
	var others []string
	if st, ok := vt.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if _, isMap := st.Field(i).Type().Underlying().(*types.Map); isMap {
				kids = st.Field(i).Name()
				others = append(others, kids)
			}
			if p, isPtr := st.Field(i).Type().Underlying().(*types.Pointer); isPtr && types.Identical(p.Elem(), vt) {
				others = append(others, st.Field(i).Name())
			}
		}
	}
	if kids == "" {
		c.note("descendants of a vertex are not a map")
		c.skip("descendants of a vertex")
		return
	}
	s := c.session()
	s.in.streams = true
	s.st.mem = s.st.mem.Set(outCell(out).id, mk("lit", ""))
	ret := s.call(f, args...)
	if s.st.dead {
		c.lose("%s never returns", f.Name())
		return
	}
	fs := s.st.factList()
	if rs := f.Signature.Results(); rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type()) {
		e := ret
		if e.op == "tuple" {
			e = e.args[len(e.args)-1]
		}
		st := s.st.clone()
		st.assume(eqTerm(e, tNil))
		fs = st.factList()
	}
	sc := &streamCheck{c: c, s: s, site: c.siteOf(f), kids: kids, recv: args[0], out: out, path: path, fn: fn, others: others}
	em := s.st.mem.Get(outCell(out).id)
	c.oblige(em != nil && em != mk("lit", ""), "Serialize/record", sc.site, "nothing is written to the output")
	if em == nil {
		return
	}
	sc.ways(fs, newResolver(fs).head(em), 0)
}

// ways: every way the stream can have come about.
func (sc *streamCheck) ways(fs []*Term, t *Term, d int) {
	if t.op == "choice" && d < 6 {
		params, alts := choiceAlts(t)
		for k, a := range alts {
			gs := append(append([]*Term(nil), fs...), edgeFacts(t.sym, params, k)...)
			st := &State{}
			for _, g := range gs {
				st.assume(g)
			}
			for _, g := range fs {
				h := rewrite(g, func(x *Term) *Term {
					if x.op == "choice" && x.sym == t.sym {
						if ps, as := choiceAlts(x); sameTerms(ps, params) && k < len(as) {
							return as[k]
						}
					}
					return x
				})
				if h != g {
					st.assume(h)
				}
			}
			if st.dead {
				continue
			}
			sc.ways(st.factList(), newResolver(st.factList()).head(a), d+1)
		}
		return
	}
	sc.check(fs, flatCat(t))
}

func (sc *streamCheck) isContent(t *Term) bool {
	ok := false
	walk(t, func(x *Term) bool {
		if x.op == "app" && x.sym == "callfn" && len(x.args) > 0 && x.args[0] == sc.fn {
			ok = true
		}
		return !ok
	})
	return ok
}

func (sc *streamCheck) check(fs []*Term, parts []*Term) {
	c := sc.c
	if len(parts) == 0 && entails(fs, eqTerm(sc.recv, tNil)) {
		return
	}
	rec := -1
	for i, p := range parts {
		if p.op != "lcat" && !(p.op == "app" && (hasPrefix(p.sym, "putint:") || hasPrefix(p.sym, "rec:"))) && sc.isContent(p) {
			rec = i
			break
		}
	}
	opaque := false
	for _, p := range parts {
		opaque = opaque || p.op == "mu" || p.op == "muv" || p.op == "choice"
	}
	c.oblige(rec >= 0 || opaque, "Serialize/record", sc.site, "the content of the vertex is not written")
	if rec >= 0 {
		r := parts[rec]
		c.oblige(mentions(r, sc.path), "Serialize/path", sc.site, "the record does not hold the path of the vertex")
		own := false
		walk(r, func(x *Term) bool {
			if x.op == "app" && x.sym == "callfn" && len(x.args) > 1 && x.args[0] == sc.fn && mentions(x.args[1], sc.recv) {
				own = true
				for _, n := range sc.others {
					own = own && !mentionsField(x.args[1], n)
				}
			}
			return !own
		})
		c.oblige(own, "Serialize/content", sc.site, "the record does not hold the content of the vertex itself")
		sc.length(fs, parts, rec)
	}
	sc.descend(fs, parts)
}

func mentionsField(t *Term, name string) bool {
	ok := false
	walk(t, func(x *Term) bool {
		ok = ok || x.op == "fld" && x.sym == name
		return !ok
	})
	return ok
}

// length: the record is announced by its length.
func (sc *streamCheck) length(fs []*Term, parts []*Term, rec int) {
	for i := rec - 1; i >= 0; i-- {
		p := parts[i]
		if p.op == "app" && hasPrefix(p.sym, "putint:") {
			narrow := hasPrefix(p.sym, "putint:8") || hasPrefix(p.sym, "putint:16")
			x := p.args[0]
			for x.op == "app" && hasPrefix(x.sym, "conv:") {
				if w := convWidth(x.sym[5:]); w == 8 || w == 16 {
					narrow = true
				}
				x = x.args[0]
			}
			whole := x == lenOf(parts[rec])
			if !whole {
				// several parts may make up the record
				n := zeroInt
				for _, q := range parts[i+1 : rec+1] {
					n = add(n, lenOf(q))
				}
				whole = entails(fs, eqInt(x, n))
			}
			sc.c.oblige(whole && !narrow, "Serialize/length", sc.site, fmt.Sprintf("the record is announced by %s, not by its length", p))
			return
		}
		if p.op != "lit" {
			sc.c.note("record preceded by %s", short(p))
			return
		}
	}
	sc.c.oblige(false, "Serialize/length", sc.site, "nothing announces the length of the record")
}

// descend: everything below is written too.
func (sc *streamCheck) descend(fs []*Term, parts []*Term) {
	c := sc.c
	kids := fld(sc.recv, sc.kids)
	n := 0
	for _, p := range parts {
		switch p.op {
		case "lcat":
			calls := recCalls(p.args[2])
			if len(calls) == 0 {
				continue
			}
			n++
			sc.skipped(fs, p.args[2], kids)
			sc.child(fs, calls, p.sym, p.args[1], kids)
		case "mu":
			df := muDefs[p.sym]
			if df == nil || df.next == nil {
				continue
			}
			calls := recCalls(df.next)
			if len(calls) == 0 {
				continue
			}
			n++
			// some iterations write nothing
			sc.skipped(fs, df.next, kids)
			sc.child(fs, calls, df.loop, df.trip, kids)
		}
	}
	if n == 0 {
		if entails(fs, eqInt(mapLen(kids), zeroInt)) || entails(fs, eqTerm(kids, tNil)) {
			return
		}
		loops := false
		for _, p := range parts {
			loops = loops || (p.op == "lcat" || p.op == "mu") && mentionsField(p, sc.kids)
		}
		if loops {
			c.note("descendants are written without recursion")
			return
		}
		c.oblige(false, "Serialize/descendants", sc.site, "the descendants of the vertex are not written")
	}
}

// recCalls: what recursive calls write within t.
func recCalls(t *Term) []*Term {
	var r []*Term
	walk(t, func(x *Term) bool {
		if x.op == "app" && hasPrefix(x.sym, "rec:") && !has(r, x) {
			r = append(r, x)
			return false
		}
		return true
	})
	return r
}

// skipped: an iteration writes nothing only where there is nothing to write.
func (sc *streamCheck) skipped(fs []*Term, next, kids *Term) {
	if next.op != "choice" {
		return
	}
	params, alts := choiceAlts(next)
	for k, a := range alts {
		gs := append(append([]*Term(nil), fs...), edgeFacts(next.sym, params, k)...)
		if len(recCalls(a)) > 0 {
			sc.skipped(gs, a, kids)
			continue
		}
		ok := false
		for _, g := range gs {
			// only what is missing may be left out
			if g.op == "eq" && (g.args[0] == tNil && isChild(g.args[1], kids) || g.args[1] == tNil && isChild(g.args[0], kids)) {
				ok = true
			}
			if g.op == "not" && g.args[0].op == "mhas" && g.args[0].args[0] == kids {
				ok = true
			}
		}
		sc.c.oblige(ok, "Serialize/descendants", sc.site, "some descendants are left out")
	}
}

func isChild(t, kids *Term) bool { return t.op == "mget" && t.args[0] == kids }

func (sc *streamCheck) child(fs []*Term, calls []*Term, loop string, count, kids *Term) {
	c := sc.c
	lv := loopVar(loop)
	for _, x := range calls {
		var v, out, path, fn *Term
		for _, a := range x.args {
			switch {
			case v == nil && a == x.args[0]:
				v = a
			case outCell(a) == outCell(sc.out):
				out = a
			case a == sc.fn:
				fn = a
			case path == nil && a != sc.fn:
				path = a
			}
		}
		if !isChild(v, kids) {
			c.oblige(false, "Serialize/descendants", sc.site, fmt.Sprintf("%s is written, not the descendants of the vertex", v))
			continue
		}
		key := v.args[1]
		switch {
		case stripConv(key) == mk("mapkey", "", kids, lv):
			c.oblige(same(fs, count, mapLen(kids)), "Serialize/descendants", sc.site, "the loop stops before all descendants are written")
		case key.op == "el" && key.args[0].op == "app" && key.args[0].sym == "sorted":
			q := key.args[0].args[0]
			ok := q.op == "lcat" && same(fs, count, lenOf(q)) && key.args[1] == lv && same(fs, q.args[1], mapLen(kids))
			c.oblige(ok, "Serialize/descendants", sc.site, "not all descendants are written")
		case same(fs, count, mapLen(kids)):
			c.oblige(false, "Serialize/descendants", sc.site, fmt.Sprintf("only the descendants at the indices below their number are written, by %s", key))
		default:
			c.note("descendants are visited by %s", short(key))
		}
		c.oblige(out != nil, "Serialize/output", sc.site, "descendants are written elsewhere")
		c.oblige(fn != nil, "Serialize/encoder", sc.site, "descendants are encoded differently")
		if path == nil {
			c.oblige(false, "Serialize/childpath", sc.site, "descendants are not given a path")
			continue
		}
		bad := extends(path, sc.path, key)
		c.oblige(bad == "", "Serialize/childpath", sc.site, "path of a descendant: "+bad)
	}
}

// extends: path is base followed by key in a way that determines both. The empty string, or the reason why not.
func extends(path, base, key *Term) string {
	ps := piecesOf(path)
	is := func(p piece, t *Term) bool { return p.t != nil && stripConv(p.t) == stripConv(t) }
	b, k := -1, -1
	for i, p := range ps {
		if is(p, base) {
			b = i
		}
		if is(p, key) {
			k = i
		}
	}
	if b < 0 {
		return "it does not contain the path of the parent"
	}
	if k < 0 {
		lost := true
		for _, p := range ps {
			if p.t != nil && mentions(p.t, key) {
				lost = false
				if l := stripped(p.t); lossy(l) {
					return "it contains only a part of the index"
				}
			}
		}
		if lost {
			return "it does not contain the index"
		}
		return ""
	}
	bad := ""
	walk(path, func(x *Term) bool {
		if lossy(x) && mentions(x, key) {
			bad = "it contains only a part of the index"
		}
		return bad == ""
	})
	if bad != "" {
		return bad
	}
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	sep := func(i int, last bool) bool {
		if i < 0 || i >= len(ps) || ps[i].kind != "str" || ps[i].s == "" {
			return false
		}
		if last {
			return !digit(ps[i].s[len(ps[i].s)-1])
		}
		return !digit(ps[i].s[0])
	}
	if ps[k].kind == "bin" || ps[k].kind == "fix" {
		return ""
	}
	if sep(k-1, true) && k > b || sep(k+1, false) {
		return ""
	}
	return "nothing separates the index from the path before it"
}

func stripped(t *Term) *Term {
	for t.op == "mkif" {
		t = t.args[0]
	}
	return t
}

// treeStream: the verkle tree hands in the stored content of its vertices.
func (c *Ctx) treeStream(f, ser *ssa.Function) {
	s := c.session(ser)
	args, out, _, _ := streamParams(f)
	called := calledCell(ser.String())
	s.st.mem = s.st.mem.Set(called.id, tFalse)
	s.call(f, args...)
	site := c.siteOf(f)
	if s.st.dead || out == nil {
		c.lose("%s never returns", f.Name())
		return
	}
	n := 0
	for _, e := range s.in.Events {
		if e.Kind != "atomic" || e.Name != ser.String() {
			continue
		}
		n++
		fs := e.St.factList()
		v := e.Args[0]
		c.oblige(v.op == "fld" && mentions(v, args[0]) && !mentionsSym(v, "mget", ""), "Tree.Serialize/root", site, fmt.Sprintf("%s is serialised, not the whole tree", v))
		var o, enc *Term
		for _, a := range e.Args[1:] {
			if outCell(a) == outCell(out) {
				o = a
			}
			if a.op == "closure" || a.op == "func" {
				enc = a
			}
		}
		c.oblige(o != nil || mentions(resolve(fs, e.Args[1]), out), "Tree.Serialize/output", site, "the tree is written elsewhere")
		if enc == nil {
			c.note("encoder of vertices is unknown")
			continue
		}
		k := in("k")
		r, ok := s.callTerm(enc, mk("mkif", "string", k))
		if !ok || s.st.dead {
			c.oblige(!ok, "Tree.Serialize/content", site, "encoding a stored vertex never returns")
			continue
		}
		r = newResolver(s.st.factList()).deep(s.in.seq(s.st, r))
		bad := ""
		for _, a := range alternatives(r) {
			if a.op == "nil" || a.op == "lit" {
				bad = "nothing is written for a stored vertex"
			} else if a.op == "mget" && (a.args[0].op != "db" || stripConv(a.args[1]) != k) {
				bad = fmt.Sprintf("%s is written for the vertex stored under %s", a, k)
			} else if a.op != "mget" && !mentionsSym(a, "db", "") {
				bad = fmt.Sprintf("%s is written for a stored vertex, not what the database holds", a)
			}
		}
		c.oblige(bad == "", "Tree.Serialize/content", site, bad)
	}
	if n == 0 {
		c.lose("%s does not serialise the tree", f.Name())
		return
	}
	if s.st.mem.Get(called.id) != tTrue {
		c.note("the tree may be left out")
	}
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
