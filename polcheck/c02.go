package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C02: every verifier accepts only if an equation over all of its inputs holds.

func init() {
	register("C02", "equations that hold at every accepting return of each verifier; each proof element, statement part and generator must determine one of them algebraically (not only through a hash), at a generic index of its whole range", checkC02)
}

// leaf is one group element or scalar of an input, with the index ranges it stands for.
type leaf struct {
	t     *Term
	name  string
	conds []*Term
	idx   []*Term
	typ   string
}

func isMathPtr(t types.Type) (string, bool) {
	switch s := typeName(t); s {
	case "*math.G1", "*math.G2", "*math.Gt", "*math.Zr":
		return s, true
	}
	return "", false
}

// leaves enumerates the group elements and scalars reachable in a value of type t.
func leaves(t types.Type, x *Term, name string, depth int) []leaf {
	if s, ok := isMathPtr(t); ok {
		return []leaf{{t: x, name: name, typ: s}}
	}
	if depth > 6 {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if st, ok := u.Elem().Underlying().(*types.Struct); ok {
			return structLeaves(st, x, name, depth)
		}
	case *types.Struct:
		return structLeaves(u, x, name, depth)
	case *types.Slice:
		d := in(fmt.Sprintf("δ%d", depth))
		var r []leaf
		for _, l := range leaves(u.Elem(), mk("el", "", x, d), name+"[·]", depth+1) {
			l.conds = append([]*Term{ge0(d), lt(d, mk("len", "", x))}, l.conds...)
			l.idx = append([]*Term{d}, l.idx...)
			r = append(r, l)
		}
		return r
	case *types.Array:
		var r []leaf
		for i := int64(0); i < u.Len() && i < 8; i++ {
			r = append(r, leaves(u.Elem(), mk("el", "", x, intT(i)), fmt.Sprintf("%s[%d]", name, i), depth+1)...)
		}
		return r
	}
	return nil
}

func structLeaves(st *types.Struct, x *Term, name string, depth int) []leaf {
	var r []leaf
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		r = append(r, leaves(f.Type(), fld(x, f.Name()), name+"."+f.Name(), depth+1)...)
	}
	return r
}

type verifierSpec struct {
	ref    *fnRef
	name   string
	atomic []*fnRef
	params func(r *result) (gens []leaf) // generators and positions that must take part
	axioms func(r *result) []*Term       // documented shape of the statement
	except map[string]bool               // proof elements the statement replaces
}

func ints(t types.Type) bool { return typeName(t) == "int" }

// ppAxioms: documented shape of the vector-commitment parameters.
func ppAxioms(p *Term) []*Term {
	return []*Term{
		eqInt(mk("len", "", fld(p, "G2s")), fld(p, "N")),
		eqInt(mk("len", "", fld(p, "G1s")), mulK(fld(p, "N"), 2)),
		ge0(addK(fld(p, "N"), -1)),
	}
}

func gen(name string, t *Term, conds ...*Term) leaf { return leaf{t: t, name: name, conds: conds} }

// whole: every element of the sequence s.
func whole(name string, s *Term) leaf {
	d := in("δg")
	return leaf{t: mk("el", "", s, d), name: name, conds: []*Term{ge0(d), lt(d, mk("len", "", s))}, idx: []*Term{d}}
}

func (c *Ctx) verifiers() []verifierSpec {
	ppv, ppa := c.fn("pp", "Verify"), c.fn("pp", "VerifyAggregation")
	eqs, eq1 := c.method("poe", "Equalities", "Verify"), c.method("poe", "Equality", "Verify")
	sv, sva := c.method("sum", "Proof", "Verify"), c.method("sum", "Proof", "VerifyAggregated")
	vr, iv := c.fn("bp", "VerifyRange"), c.fn("bp", "IterativeVerify")
	ipa := c.method("bp", "InnerProductProof", "Verify")
	tot := c.method("pol", "TotalProof", "Verify")
	all := []*fnRef{ppv, ppa, eqs, eq1, sv, vr, iv, ipa, tot}
	without := func(x *fnRef) []*fnRef {
		var r []*fnRef
		for _, a := range all {
			if a != nil && x != nil && a.fn != x.fn {
				r = append(r, a)
			}
		}
		return r
	}
	at := func(s *Term, i *Term) *Term { return mk("el", "", s, i) }
	posOf := func(pp, i *Term) *Term { return at(fld(pp, "G2s"), subT(addK(fld(pp, "N"), -1), i)) }
	return []verifierSpec{
		{ref: ppv, name: "opening", atomic: without(ppv), params: func(r *result) []leaf {
			p, i := paramOf(r, "*pp.PP", 0), paramOf(r, "int", 0)
			return []leaf{gen("Gt", fld(p, "Gt"), ppAxioms(p)...), gen("G2s[N-1-i]", posOf(p, i), ppAxioms(p)...)}
		}},
		{ref: ppa, name: "aggregated opening", atomic: without(ppa), params: func(r *result) []leaf {
			p, is := paramOf(r, "*pp.PP", 0), paramOf(r, "[]int", 0)
			d := in("δg")
			return []leaf{gen("Gt", fld(p, "Gt"), ppAxioms(p)...),
				{t: posOf(p, at(is, d)), name: "G2s[N-1-indices[k]]", conds: append(ppAxioms(p), ge0(d), lt(d, mk("len", "", is))), idx: []*Term{d}}}
		}},
		{ref: eqs, name: "aggregated equality", atomic: without(eqs), except: map[string]bool{"a0.IPP.P": true, "a0.IPP.C": true}, params: func(r *result) []leaf {
			e := in("recv")
			P := fld(e, "PP")
			p := fld(P, "PP")
			d := in("δg")
			ax := ppAxioms(p)
			return []leaf{gen("F", fld(P, "F")), whole("G", fld(P, "G")), whole("H", fld(P, "H")),
				gen("G1s[0]", at(fld(p, "G1s"), zeroInt), ax...), gen("G2s[N-1]", at(fld(p, "G2s"), addK(fld(p, "N"), -1)), ax...),
				{t: posOf(p, at(fld(e, "I"), d)), name: "G2s[N-1-I[k]]", conds: append(ppAxioms(p), ge0(d), lt(d, mk("len", "", fld(e, "V")))), idx: []*Term{d}},
				{t: posOf(p, at(fld(e, "J"), d)), name: "G2s[N-1-J[k]]", conds: append(ppAxioms(p), ge0(d), lt(d, mk("len", "", fld(e, "W")))), idx: []*Term{d}},
			}
		}},
		{ref: eq1, name: "equality", atomic: without(eq1), params: func(r *result) []leaf {
			e := in("recv")
			p := fld(fld(e, "PP"), "PP")
			ax := ppAxioms(p)
			return []leaf{gen("G1s[0]", at(fld(p, "G1s"), zeroInt), ax...), gen("G2s[N-1]", at(fld(p, "G2s"), addK(fld(p, "N"), -1)), ax...),
				gen("G2s[N-1-I]", posOf(p, fld(e, "I")), ax...), gen("G2s[N-1-J]", posOf(p, fld(e, "J")), ax...)}
		}},
		{ref: sv, name: "sum argument", atomic: without(sv), except: map[string]bool{"recv.π.P": true, "recv.π.C": true}, params: func(r *result) []leaf {
			p := paramOf(r, "*sum.PP", 0)
			return []leaf{gen("F", fld(p, "F")), gen("U", fld(p, "U")), gen("B", fld(p, "B")), whole("Gs", fld(p, "Gs")), whole("H", fld(p, "H"))}
		}},
		{ref: sva, name: "aggregated sum argument", atomic: without(sva), except: map[string]bool{"recv.π.P": true, "recv.π.C": true}, params: func(r *result) []leaf {
			p := paramOf(r, "*sum.PP", 0)
			return []leaf{gen("F", fld(p, "F")), gen("U", fld(p, "U")), gen("B", fld(p, "B")), whole("Gs", fld(p, "Gs")), whole("H", fld(p, "H"))}
		}},
		{ref: vr, name: "range proof", atomic: without(vr), except: map[string]bool{"a1.Π.P": true, "a1.Π.C": true}, params: func(r *result) []leaf {
			p := paramOf(r, "*bp.RangeProofPublicParams", 0)
			return []leaf{gen("G", fld(p, "G")), gen("H", fld(p, "H")), gen("F", fld(p, "F")), whole("Gs", fld(p, "Gs")), whole("Hs", fld(p, "Hs")), whole("Fs", fld(p, "Fs"))}
		}},
		{ref: iv, name: "iterative reduction", atomic: without(iv), axioms: func(r *result) []*Term {
			// vectors have at least two elements (IsPowerOfTwo rejects shorter ones), so there is a round
			if d := paramOf(r, "[][3]*math.G1", 0); d != nil {
				return []*Term{ge0(addK(mk("len", "", d), -1))}
			}
			return nil
		}, params: func(r *result) []leaf {
			p := paramOf(r, "*bp.PP", 0)
			return []leaf{whole("G", fld(p, "G"))}
		}},
		{ref: ipa, name: "inner product", atomic: without(ipa), params: func(r *result) []leaf {
			p := paramOf(r, "*bp.PP", 0)
			return []leaf{gen("U", fld(p, "U")), whole("G", fld(p, "G")), whole("H", fld(p, "H"))}
		}},
		{ref: tot, name: "total", atomic: without(tot), params: func(r *result) []leaf {
			return []leaf{gen("claimed amount", fld(in("recv"), "Sum"))}
		}},
	}
}

// isParamType: types of public parameters (their parts are listed explicitly per verifier).
func isParamType(t types.Type) bool {
	switch typeName(t) {
	case "*pp.PP", "*sum.PP", "*bp.PP", "*poe.PP", "*bp.RangeProofPublicParams", "*pol.PublicParams":
		return true
	}
	return false
}

// inputLeaves: all group elements and scalars of the proof and the statement.
func inputLeaves(fn *ssa.Function, args []*Term) []leaf {
	var r []leaf
	for i, p := range fn.Params {
		if isParamType(p.Type()) {
			continue
		}
		var ls []leaf
		if st, ok := derefStruct(p.Type()); ok {
			for j := 0; j < st.NumFields(); j++ {
				f := st.Field(j)
				if isParamType(f.Type()) {
					continue
				}
				ls = append(ls, leaves(f.Type(), fld(args[i], f.Name()), args[i].String()+"."+f.Name(), 1)...)
			}
		} else {
			ls = leaves(p.Type(), args[i], args[i].String(), 0)
		}
		r = append(r, ls...)
	}
	return r
}

func derefStruct(t types.Type) (*types.Struct, bool) {
	if _, ok := isMathPtr(t); ok {
		return nil, false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	return st, ok
}

func checkC02(c *Ctx) {
	for _, v := range c.verifiers() {
		if v.ref == nil {
			continue
		}
		var at []*ssa.Function
		for _, a := range v.atomic {
			at = append(at, a.fn)
		}
		r := c.analyse(v.ref.fn, at...)
		fs := r.accepting()
		site := c.siteOf(v.ref.fn)
		if r.dead {
			c.skip("%s verifier never accepts", v.name)
			continue
		}
		if v.axioms != nil {
			fs = append(append([]*Term(nil), fs...), v.axioms(r)...)
		}
		eqs := equationsOf(fs)
		c.oblige(len(eqs) > 0 || hasQuantifiedEq(fs), "C02/"+v.name+"/no-equation", site, "the verifier accepts without having found any equation to hold")
		for _, l := range append(inputLeaves(v.ref.fn, r.args), v.params(r)...) {
			if v.except[l.name] {
				continue
			}
			ok := coveredBySome(fs, l, true)
			c.oblige(ok, "C02/"+v.name+"/"+l.name, site, fmt.Sprintf("%s does not determine (algebraically, over its whole range) any equation the %s verifier requires", l.name, v.name))
		}
	}
}

func hasQuantifiedEq(fs []*Term) bool {
	for _, f := range fs {
		if f.op == "all" {
			if _, ok := asEquation(f.args[1]); ok {
				return true
			}
		}
	}
	return false
}

// coveredBySome: some equation that holds depends on the element, for every index in its range.
func coveredBySome(fs []*Term, l leaf, cut bool) bool {
	g := append(append([]*Term(nil), fs...), l.conds...)
	if refute(relevant(g, l.conds)) {
		return true
	}
	s := saturate(g, l.idx)
	if has(s, tFalse) {
		return true
	}
	q := newQuery(l.t, cut, s)
	var d dnf
	for _, e := range equationsOf(s) {
		for _, t := range e.sides() {
			d = dOr(d, q.cov(t))
			if d.isTrue() {
				return true
			}
		}
	}
	if holds(s, d) {
		return true
	}
	// equations of a loop iteration that is not the one with the element's own index
	for _, f := range s {
		if f.op != "all" {
			continue
		}
		body := f.args[1]
		d = dOr(d, quantCov(q, s, f.sym, f.args[0], body))
	}
	return holds(s, d)
}

// quantCov: an equation required in some iteration depends on the element.
func quantCov(q *query, fs []*Term, loop string, T, body *Term) dnf {
	lv := loopVar(loop)
	switch body.op {
	case "oneof":
		var r dnf
		cands, free := q.candidates(bodyOfOneof(body), lv)
		if free {
			cands = append(cands, zeroInt, addK(T, -1))
		}
		for _, k := range cands {
			rng := inRange(k, T)
			inst := subst(body, map[*Term]*Term{lv: k})
			for _, g := range oneofFacts(inst, append(append([]*Term(nil), fs...), rng...)) {
				if e, ok := asEquation(g); ok {
					for _, t := range e.sides() {
						r = dOr(r, dAnd(dnf{rng}.simp(), q.cov(t)))
					}
				}
			}
		}
		return r
	}
	if e, ok := asEquation(body); ok {
		var r dnf
		for _, t := range e.sides() {
			r = dOr(r, q.exists(lv, T, t))
		}
		return r
	}
	return nil
}

func bodyOfOneof(b *Term) *Term {
	var all []*Term
	if ti := tokens[b.sym]; ti != nil {
		for k := range ti.edges {
			all = append(all, edgeFacts(b.sym, b.args, k)...)
		}
	}
	return mk("tuple", "", all...)
}
