package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C10: decoding a stored vertex restores exactly what was stored.

func init() {
	register("C10", "symbolic composition of the vertex encoder and decoder on one abstract state: every field of the decoded vertex equals the field that was encoded (maps entry by entry, absence included); both return normally only if encoding and decoding reported no error", checkC10)
}

// rewrite applies f bottom-up (below binders too).
func rewrite(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = t
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		r = f(r)
		memo[t] = r
		return r
	}
	return rec(t)
}

// inverses: decoding the encoding of a scalar or group element yields it.
func inverses(t *Term) *Term {
	if t.op != "app" || len(t.args) == 0 {
		return t
	}
	b := t.args[len(t.args)-1]
	switch t.sym {
	case "Curve.NewZrFromBytes":
		if b.op == "app" && b.sym == "Zr.Bytes" {
			return b.args[0]
		}
	case "Curve.NewG1FromBytes":
		if b.op == "app" && b.sym == "G1.Bytes" {
			return b.args[0]
		}
	case "Curve.NewG2FromBytes":
		if b.op == "app" && b.sym == "G2.Bytes" {
			return b.args[0]
		}
	case "sub":
	}
	return t
}

func checkC10(c *Ctx) {
	enc := c.method("verkle", "Vertex", "Bytes")
	dec := c.method("verkle", "Vertex", "FromBytes")
	vt := c.p.Named("verkle", "Vertex")
	if enc == nil || dec == nil || vt == nil {
		return
	}
	st, ok := vt.Underlying().(*types.Struct)
	if !ok {
		c.lose("a vertex is not a struct")
		return
	}
	// the receiver of the decoder is a new vertex, or one that was used before
	for _, used := range []bool{false, true} {
		c.decodes(enc, dec, st, used)
	}
	for _, f := range []*ssa.Function{enc.fn, dec.fn} {
		c.failureRule(f)
		for _, g := range c.ownCallees(f) {
			c.failureRule(g)
		}
	}
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
		return true
	}
	return false
}

func (c *Ctx) decodes(enc, dec *fnRef, st *types.Struct, used bool) {
	v, u := in("v"), in("u")
	// which pointer fields may be missing: those the encoder tests
	for k := -1; k < st.NumFields(); k++ {
		absent := ""
		if k >= 0 {
			if _, ok := isMathPtr(st.Field(k).Type()); !ok {
				continue
			}
			absent = st.Field(k).Name()
		}
		s := c.session()
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			s.in.setCell(s.st, mk("fa", f.Name(), u), zeroOf(f.Type()))
			if used {
				old := in("old." + f.Name())
				s.in.setCell(s.st, mk("fa", f.Name(), u), old)
				if nilable(f.Type()) {
					s.st.assume(not(eqTerm(old, tNil)))
				}
			}
			kind, isPtr := isMathPtr(f.Type())
			if !isPtr {
				continue
			}
			x := fld(v, f.Name())
			if f.Name() == absent {
				s.st.assume(eqTerm(x, tNil))
			} else {
				s.st.assume(not(eqTerm(x, tNil)))
				s.st.assume(not(eqInt(lenT(app(kind[len("*math."):]+".Bytes", x)), zeroInt)))
			}
		}
		b := s.call(enc.fn, v)
		if s.st.dead {
			if absent == "" {
				c.oblige(false, "encode", c.siteOf(enc.fn), "a complete vertex cannot be encoded")
			}
			continue
		}
		if absent != "" && !c.encoderChecks(s, v, absent) {
			continue
		}
		s.call(dec.fn, u, b)
		if s.st.dead {
			c.oblige(false, "decode", c.siteOf(dec.fn), "an encoded vertex cannot be decoded")
			continue
		}
		fs := s.st.factList()
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			key := "field/" + f.Name()
			if absent != "" {
				key = "without-" + absent + "/" + f.Name()
			}
			want := fld(v, f.Name())
			got := s.in.load(s.st, mk("fa", f.Name(), u), f.Type())
			if used {
				key = "used/" + key
			}
			msg := func(t *Term) string {
				return "after decoding what was encoded, " + f.Name() + " is " + t.String()
			}
			switch ft := f.Type().Underlying().(type) {
			case *types.Map:
				m := rewrite(resolve(fs, s.in.mapContent(s.st, got)), inverses)
				c.oblige(c.sameMap(s, fs, m, want, ft), key, c.siteOf(dec.fn), msg(m))
			default:
				if _, ok := isMathPtr(f.Type()); ok {
					if f.Name() == absent {
						g := resolve(fs, got)
						c.oblige(g == tNil, key, c.siteOf(dec.fn), msg(g))
						continue
					}
					g := rewrite(resolve(fs, s.in.val(s.st, resolve(fs, got))), inverses)
					c.oblige(g == want || same(fs, g, want), key, c.siteOf(dec.fn), msg(g))
					continue
				}
				g := rewrite(resolve(fs, got), inverses)
				c.oblige(same(fs, g, want), key, c.siteOf(dec.fn), msg(g))
			}
		}
	}
}

// ownCallees: the repository's functions statically reachable from f.
func (c *Ctx) ownCallees(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{f: true}
	var out []*ssa.Function
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ops := i.Operands(nil)
				for _, o := range ops {
					if g, ok := (*o).(*ssa.Function); ok && !seen[g] && c.p.own(g) {
						seen[g] = true
						out = append(out, g)
						rec(g)
					}
				}
			}
		}
	}
	rec(f)
	return out
}

// encoderChecks: the encoder accepts a vertex without this field (it is tested for).
func (c *Ctx) encoderChecks(s *session, v *Term, field string) bool {
	x := fld(v, field)
	// a missing scalar that is nevertheless encoded would be a nil dereference
	bad := false
	for _, m := range s.in.Events {
		if m.Kind != "marshal" {
			continue
		}
		walkDeep(resolve(s.st.factList(), m.Args[0]), func(t *Term) bool {
			if t == x {
				bad = true
			}
			return !bad
		})
	}
	return !bad
}

// sameMap: m holds exactly the entries of want.
func (c *Ctx) sameMap(s *session, fs []*Term, m, want *Term, mt *types.Map) bool {
	if m == want || m.op == "mkeep" && m.args[0] == want {
		return true
	}
	if m.op != "mlsto" || m.args[0].op != "mkmap" {
		return false
	}
	n, key, val := m.args[1], m.args[2], m.args[3]
	lv := loopVar(m.sym)
	// every key of the map is visited
	switch {
	case stripConv(key) == mk("mapkey", "", want, lv):
		if !same(fs, n, mapLen(want)) {
			return false
		}
	case key.op == "el" && key.args[0].op == "app" && key.args[0].sym == "sorted" && key.args[1] == lv:
		q := key.args[0].args[0]
		if q.op != "lcat" || !same(fs, n, lenOf(q)) {
			return false
		}
		e := q.args[2]
		if e.op != "lit" || len(e.args) != 1 || stripConv(e.args[0]) != mk("mapkey", "", want, loopVar(q.sym)) || !same(fs, q.args[1], mapLen(want)) {
			return false
		}
	default:
		return false
	}
	v := val
	if _, ok := isMathPtr(mt.Elem()); ok {
		v = s.in.val(s.st, val)
	}
	v = rewrite(resolve(fs, v), inverses)
	w := mapGet(want, key)
	return v == w || same(fs, v, w)
}
