package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C14: the shape of a proof is dictated by the statement. At every accepting return of a verifier the
// length of each vector of its proof is a function of the statement alone; an index, slice bound or
// panic guard that involves proof data is within range on every way that leads to it.

func init() {
	register("C14", "at every accepting return of a verifier the length of each vector of its proof must be determined by the statement (relational: two copies of the facts with distinct proofs entail equal lengths); every index and slice expression over proof data must be in range, and every panic decided by a proof length unreachable, given the facts that hold there", checkC14)
}

type proofShape struct {
	c     *Ctx
	r     *result
	name  string
	site  string
	roots map[*Term]bool
	memo  map[*Term]bool
	acc   []*Term
	given []*Term // what is known of the statement
}

// proofTypes: types whose values a verifier consumes as a proof.
func (c *Ctx) proofTypes(refs []*fnRef) map[string]bool {
	m := map[string]bool{}
	for _, r := range refs {
		if r == nil {
			continue
		}
		for _, p := range r.fn.Params {
			if st := structUnder(p.Type()); st != nil && !isParamType(p.Type()) {
				m[strings.TrimPrefix(typeName(p.Type()), "*")] = true
			}
		}
	}
	return m
}

func structUnder(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

type vector struct {
	t    *Term
	name string
}

// vectorsOf: the vectors of a proof that its own verifier is responsible for.
func vectorsOf(t types.Type, x *Term, name string, stop map[string]bool, depth int) []vector {
	if depth > 3 || mathPtr(t) != "" {
		return nil
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return []vector{{x, name}}
	}
	st := structUnder(t)
	if st == nil || depth > 0 && stop[strings.TrimPrefix(typeName(t), "*")] || isParamType(t) {
		return nil
	}
	var r []vector
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		r = append(r, vectorsOf(f.Type(), fld(x, f.Name()), name+"."+f.Name(), stop, depth+1)...)
	}
	return r
}

// ofProof: x is (part of) a proof.
func (s *proofShape) ofProof(x *Term) bool {
	for (x.op == "el" || x.op == "fld" || x.op == "sub" || x.op == "len" || x.op == "bk" || x.op == "slice") && len(x.args) > 0 {
		if s.roots[x] {
			return true
		}
		x = x.args[0]
	}
	return s.roots[x]
}

// byStatement: the proof has no influence on t.
func (s *proofShape) byStatement(t *Term) bool {
	if v, ok := s.memo[t]; ok {
		return v
	}
	s.memo[t] = true
	v := true
	switch {
	case s.roots[t]:
		v = false
	case t.op == "trip" || t.op == "brk":
		v = s.tripByStatement(t)
	case (t.op == "mu" || t.op == "muv") && muDefs[t.sym] != nil:
		d := muDefs[t.sym]
		v = d.next != nil && s.byStatement(d.next) && (d.init == nil || s.byStatement(d.init)) && s.byStatement(d.trip)
	case t.op == "len" && (t.args[0].op == "mu" || t.args[0].op == "muv") && muDefs[t.args[0].sym] != nil:
		d := muDefs[t.args[0].sym]
		v = d.next != nil && s.byStatement(lenOf(d.next)) && (d.init == nil || s.byStatement(lenOf(d.init)))
	case t.op == "lin":
		for a := range toLin(t).m {
			v = v && s.byStatement(a)
		}
	default:
		for _, a := range t.args {
			v = v && s.byStatement(a)
		}
	}
	s.memo[t] = v
	return v
}

// tripByStatement: the loop ends when a condition on the statement says so.
func (s *proofShape) tripByStatement(t *Term) bool {
	if d := t.args; len(d) > 0 {
		for _, a := range d {
			if !s.byStatement(a) {
				return false
			}
		}
	}
	var ends, runs []*Term
	for _, f := range s.acc {
		if f.op == "all" && f.sym == t.sym && f.args[0] == t {
			lv := loopVar(t.sym)
			b := subst(f.args[1], map[*Term]*Term{lv: t})
			if isLinear(b) && s.byStatement(f.args[1]) {
				runs = append(runs, muOnly(b))
			}
			continue
		}
		if isLinear(f) && mentions(f, t) && s.byStatement(f) {
			ends = append(ends, muOnly(f))
		}
	}
	for _, e := range ends {
		for _, r := range runs {
			if contradicts([]*Term{r}, e) {
				return true
			}
		}
	}
	return false
}

// muOnly: end and running values of a loop-carried cell are written alike.
func muOnly(f *Term) *Term {
	m := map[*Term]*Term{}
	walk(f, func(t *Term) bool {
		if t.op == "muv" {
			m[t] = mk("mu", t.sym, t.args...)
		}
		return true
	})
	if len(m) == 0 {
		return f
	}
	return subst(f, m)
}

func (s *proofShape) facts(fs []*Term) []*Term { return with(fs, s.given...) }

// determined: the facts leave one value of x once the statement is fixed.
func (s *proofShape) determined(fs []*Term, x *Term) bool {
	fs = relevant(fs, []*Term{eqInt(x, in("?"))})
	m := map[*Term]*Term{}
	prime := func(a *Term) {
		if !s.byStatement(a) {
			m[a] = in("′" + fmt.Sprint(a.id))
		}
	}
	for a := range toLin(x).m {
		prime(a)
	}
	for _, f := range fs {
		for f.op == "not" {
			f = f.args[0]
		}
		if f.op == "eq0" || f.op == "ge0" {
			for a := range toLin(f.args[0]).m {
				prime(a)
			}
		}
	}
	two := append([]*Term(nil), fs...)
	for _, f := range fs {
		two = append(two, subst(f, m))
	}
	return entails(two, eqInt(x, subst(x, m)))
}

func checkC14(c *Ctx) {
	eqs, vr, iv := c.method("poe", "Equalities", "Verify"), c.fn("bp", "VerifyRange"), c.fn("bp", "IterativeVerify")
	ipa, sv, lp := c.method("bp", "InnerProductProof", "Verify"), c.method("sum", "Proof", "Verify"), c.method("pol", "LiabilityProof", "Verify")
	eq1, tot := c.method("poe", "Equality", "Verify"), c.method("pol", "TotalProof", "Verify")
	stop := c.proofTypes([]*fnRef{eqs, vr, ipa, sv, lp, eq1, tot})

	type spec struct {
		name   string
		ref    *fnRef
		proof  func(t types.Type) bool
		atomic []*fnRef
	}
	is := func(n string) func(types.Type) bool {
		return func(t types.Type) bool { return strings.TrimPrefix(typeName(t), "*") == n }
	}
	specs := []spec{
		{"liability proof", lp, is("pol.LiabilityProof"), []*fnRef{sv, vr, ipa, iv}},
		{"aggregated equality", eqs, is("poe.AggregatedProof"), []*fnRef{ipa}},
		{"range proof", vr, is("bp.RangeProof"), []*fnRef{ipa, iv}},
		{"iterative reduction", iv, func(t types.Type) bool { return typeName(t) == "[][3]*math.G1" }, nil},
		{"inner product", ipa, is("bp.InnerProductProof"), nil},
	}
	for _, sp := range specs {
		if sp.ref == nil {
			continue
		}
		_, r := c.chalCtx(sp.name, sp.ref, nil, nil, nil, sp.atomic...)
		if r == nil {
			continue
		}
		s := &proofShape{c: c, r: r, name: sp.name, site: c.siteOf(sp.ref.fn), roots: map[*Term]bool{}, memo: map[*Term]bool{}}
		if sp.ref == lp {
			if p := c.pathOf(r); p != nil {
				// a path leads through at least one vertex below the root
				s.given = append(s.given, ge0(addK(mk("len", "", p), -2)))
			}
		}
		if sp.ref == eqs {
			// one position per compared commitment
			e := r.args[0]
			n := mk("len", "", fld(e, "V"))
			for _, f := range []string{"W", "I", "J"} {
				s.given = append(s.given, eqInt(n, mk("len", "", fld(e, f))))
			}
		}
		s.acc = s.facts(r.accepting())
		var vs []vector
		for i, p := range sp.ref.fn.Params {
			if sp.proof(p.Type()) {
				s.roots[r.args[i]] = true
				vs = append(vs, vectorsOf(p.Type(), r.args[i], p.Name(), stop, 0)...)
			}
		}
		if len(vs) == 0 {
			c.skip("%s has no vector", sp.name)
		}
		for _, v := range vs {
			s.tied(v, iv)
		}
		s.events()
	}
}

func (s *proofShape) tied(v vector, iv *fnRef) {
	ok := s.determined(s.acc, mk("len", "", v.t))
	if !ok && iv != nil {
		for _, a := range predsOf(s.acc, funcID(iv.fn)) {
			ok = ok || has(a, v.t)
		}
	}
	s.c.oblige(ok, "tied:"+s.name+":"+v.name, s.site, fmt.Sprintf("%s accepts although the length of %s is not determined by the statement: surplus elements are ignored", s.name, v.name))
}

// involved: the proof has a part in the integer, or in the range of a loop variable it uses.
func (s *proofShape) involved(fs []*Term, xs ...*Term) bool {
	for _, x := range xs {
		for a := range toLin(x).m {
			if s.ofProof(a) {
				return true
			}
			if a.op == "lv" {
				for _, f := range fs {
					if f.op != "ge0" || !mentions(f, a) {
						continue
					}
					l := toLin(f.args[0])
					if l.m[a] < 0 {
						for b := range l.m {
							if s.ofProof(b) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (s *proofShape) events() {
	var guards []*Term
	for _, e := range s.r.in.Events {
		fs := e.St.factList
		site := s.c.p.pos(e.Pos)
		switch e.Kind {
		case "index":
			b, i, n := e.Args[0], e.Args[1], e.Args[2]
			f := s.facts(fs())
			if s.ofProof(b) || s.involved(f, i, n) {
				f = append(f, ge0(n))
				s.c.oblige(entails(f, ge0(i)) && entails(f, lt(i, n)), "index:"+s.name+":"+e.Fn.Name()+":"+short(b), site,
					fmt.Sprintf("%s: nothing ensures that index %s is below the length %s", s.name, i, n))
			}
		case "slice":
			b, lo, hi, n := e.Args[0], e.Args[1], e.Args[2], e.Args[3]
			f := s.facts(fs())
			if s.ofProof(b) || s.involved(f, lo, hi, n) {
				f = append(f, ge0(n))
				s.c.oblige(entails(f, ge0(lo)) && entails(f, le(lo, hi)) && entails(f, le(hi, n)), "slice:"+s.name+":"+e.Fn.Name()+":"+short(b), site,
					fmt.Sprintf("%s: nothing ensures that [%s:%s] is within the length %s", s.name, lo, hi, n))
			}
		case "guard":
			guards = e.Args
		case "panic":
			f := s.facts(fs())
			bad := ""
			if !refute(f) {
				for _, g := range guards {
					walk(g, func(t *Term) bool {
						if t.op == "len" && s.ofProof(t) && bad == "" && !s.determined(f, t) {
							bad = t.String()
						}
						return true
					})
				}
			}
			use := false
			for _, g := range guards {
				walk(g, func(t *Term) bool { use = use || t.op == "len" && s.ofProof(t); return true })
			}
			if use {
				s.c.oblige(bad == "", "panic:"+s.name+":"+e.Fn.Name(), site, fmt.Sprintf("%s: a proof with a different %s makes verification panic", s.name, bad))
			}
		}
	}
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}
