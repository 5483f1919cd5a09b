package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C36: what an honest prover claims is true, and is what the verifier checks.

func init() {
	register("C36", "a prover and then its verifier are analysed in one abstract state, the commitments given to the prover standing for the vectors they commit to; the statement that the verifier hands to a nested verifier is compared, as a polynomial in which sums over the positions of vectors are monomials, with what the witness of the prover's nested argument makes true", checkC36)
}

type honest struct {
	*Ctx
	newIP, proveIP, verifyIP *fnRef
	hash                     *ssa.Function
}

func checkC36(c *Ctx) {
	h := &honest{Ctx: c, newIP: c.fn("bp", "NewInnerProdArgument"), proveIP: c.method("bp", "InnerProdArgument", "Prove"), verifyIP: c.method("bp", "InnerProductProof", "Verify"),
		hash: c.p.Fn("common", "FieldElementFromBytes")}
	if h.newIP == nil || h.proveIP == nil || h.verifyIP == nil {
		return
	}
	h.sum()
	h.sums()
	h.equality()
	h.equalities()
	h.ranges()
}

// trial: a prover, then its verifier, and the algebra of what is known after them.
type trial struct {
	*honest
	name  string
	site  string
	s     *session
	from  int
	a     *algebra
	m     *sums
	given map[*Term]tensor
	// definitions of elements
	each   func(t *Term) (tensor, bool)
	hashes []*Term
	vague  bool
	// what the verifier returns
	verdict *Term
}

func (h *honest) trial(name string, prove, verify *ssa.Function, pargs []*Term, vargs func(ret *Term) []*Term, assume []*Term, atomic ...*ssa.Function) *trial {
	t := &trial{honest: h, name: name, site: h.siteOf(verify), m: &sums{c: h.Ctx}, given: map[*Term]tensor{}}
	t.s = h.session(append(atomic, h.newIP.fn, h.proveIP.fn, h.verifyIP.fn, h.hash)...)
	for _, f := range assume {
		t.s.st.assume(f)
	}
	ret := t.s.call(prove, pargs...)
	if t.s.st.dead {
		h.lose(shortFn(prove) + " never returns")
		return nil
	}
	t.from = len(t.s.in.Events)
	t.verdict = t.s.call(verify, vargs(ret)...)
	h.oblige(true, name+"/verifier-reached", t.site, "")
	return t
}

func (t *trial) events(es []*Event, f *ssa.Function) []*Event {
	return pick(es, func(e *Event) bool { return e.Kind == "atomic" && e.Name == f.String() })
}

func (t *trial) made(f *ssa.Function) []*Event    { return t.events(t.s.in.Events[:t.from], f) }
func (t *trial) checked(f *ssa.Function) []*Event { return t.events(t.s.in.Events[t.from:], f) }

// one call of each.
func (t *trial) pair(prove, verify *ssa.Function) (p, v *Event) {
	ps, vs := t.made(prove), t.checked(verify)
	if len(ps) != 1 || len(vs) != 1 || len(ps[0].Loops)+len(vs[0].Loops) > 0 {
		t.note("%s: %s and %s are not called once each", t.name, shortFn(prove), shortFn(verify))
		return nil, nil
	}
	// what the nested proof says of itself is not used
	var fs []*Term
	for _, f := range vs[0].St.factList() {
		nested := false
		walk(f, func(x *Term) bool {
			nested = nested || x.op == "app" && (x.sym == "pred:"+t.proveIP.fn.String() || x.sym == "pred:"+t.verifyIP.fn.String())
			return !nested
		})
		if !nested {
			fs = append(fs, f)
		}
	}
	t.a = newAlgebra(t.Ctx, saturate(fs, nil))
	return ps[0], vs[0]
}

func (t *trial) arg(e *Event, f *ssa.Function, k int) *Term {
	return t.s.in.deep(e.St, e.Args[k], f.Params[k].Type(), 0)
}

// inner: the sum of the products of the elements.
func (t *trial) inner(g, v *Term, op string) tensor {
	x := t.m.fresh()
	n := lenOf(v)
	b := t.m.under(t.a, ge0(x), lt(x, n))
	return t.m.over(t.a, t.m.nf(b, app(op, elAt(g, x), elAt(v, x))), x, n)
}

func (t *trial) commitment(f, r, g, v *Term) tensor {
	return t.m.plus(t.m.nf(t.a, app("G1.Mul", f, r)), t.inner(g, v, "G1.Mul"), 1)
}

func (t *trial) value(x *Term) tensor {
	return t.m.replace(t.m.nf(t.a, x), func(y *Term) (tensor, bool) {
		if p, ok := t.given[y]; ok {
			return p, ok
		}
		if t.each != nil {
			return t.each(y)
		}
		return nil, false
	})
}

func perPosition(t *Term) bool {
	found := false
	walk(t, func(x *Term) bool {
		found = found || x.op == "in" && (strings.HasPrefix(x.sym, "ι") || strings.HasPrefix(x.sym, "ξ"))
		return !found
	})
	return found
}

// unified: one name for the challenges that the prover and the verifier agree on.
func (t *trial) unified(p tensor) tensor {
	g := &agreement{c: t.Ctx}
	seen := map[*Term]*Term{}
	one := func(x *Term) *Term {
		if y := seen[x]; y != nil {
			return y
		}
		at := -1
		for i, z := range t.hashes {
			k := equal
			if z != x {
				k = g.of(t.a.fs, z, x)
			}
			if k == equal {
				at = i
				break
			}
			if k == unknown {
				t.vague = true
			}
		}
		if at < 0 {
			at = len(t.hashes)
			t.hashes = append(t.hashes, x)
		}
		seen[x] = in("challenge" + itoa(at))
		return seen[x]
	}
	r := tensor{}
	for _, m := range p {
		m = t.m.renamed(m)
		var at []*Term
		for _, x := range m.at {
			sub := map[*Term]*Term{}
			walk(x, func(y *Term) bool {
				if y.op != "app" || y.sym != "pred:"+t.hash.String() && y.sym != "callfn" || perPosition(y) {
					return true
				}
				sub[y] = one(y)
				return false
			})
			if len(sub) > 0 {
				x = subst(x, sub)
			}
			at = append(at, x)
		}
		t.m.add(r, m.k, cancel(at), m.bs)
	}
	return r
}

func (t *trial) say(key string, got, want tensor, msg string) {
	got, want = t.unified(got), t.unified(want)
	k := t.m.compare(t.a, got, want)
	if k == apart && t.vague {
		k, t.m.why = unknown, "challenges that may differ"
	}
	why := ""
	switch k {
	case unknown:
		t.note("%s/%s: not followed: %s", t.name, key, t.m.why)
		if debugOn {
			println("GOT", got.str())
			println("WANT", want.str())
			println("DIFF", t.m.plus(got, want, -1).str(), t.m.bad, t.a.soft, t.a.bad)
		}
	case apart:
		why = ": " + t.m.plus(got, want, -1).str() + " too much"
	}
	t.oblige(k != apart, t.name+"/"+key, t.site, msg+why)
	t.m.bad, t.m.why = false, ""
}

// nestedIP: the statement checked by the nested inner product verifier is what the prover's vectors make true.
func (t *trial) nestedIP() {
	p, v := t.pair(t.newIP.fn, t.verifyIP.fn)
	if p == nil {
		return
	}
	a, b := t.arg(p, t.newIP.fn, 1), t.arg(p, t.newIP.fn, 2)
	st, pp := t.arg(v, t.verifyIP.fn, 0), t.arg(v, t.verifyIP.fn, 1)
	made := t.inner(a, b, "Zr.Mul")
	old := t.each
	t.each = func(y *Term) (tensor, bool) {
		// what the nested prover says it is
		if y.op == "fld" && y.sym == "C" && y.args[0].op == "app" && (y.args[0].sym == "pred:"+t.proveIP.fn.String() || y.args[0].sym == "pred:"+t.newIP.fn.String()) {
			return made, true
		}
		if old != nil {
			return old(y)
		}
		return nil, false
	}
	t.say("product", t.value(fld(st, "C")), made, "the verifier claims another inner product than that of the prover's vectors")
	com := t.m.plus(t.inner(fld(pp, "G"), a, "G1.Mul"), t.inner(fld(pp, "H"), b, "G1.Mul"), 1)
	t.say("vectors", t.value(fld(st, "P")), com, "the verifier's commitment is not one to the prover's vectors")
	t.each = old
}

// vecField: the field of scalars of a struct.
func vecField(T types.Type) string {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if typeName(s.Field(i).Type().Underlying()) == "[]*math.Zr" {
			return s.Field(i).Name()
		}
	}
	return ""
}

func (h *honest) sum() {
	prove, verify := h.fn("sum", "NewArgument"), h.method("sum", "Proof", "Verify")
	if prove == nil || verify == nil || len(prove.fn.Params) != 4 {
		return
	}
	pp, V, v, r := in("pp"), in("V"), in("v"), in("r")
	t := h.trial("sum", prove.fn, verify.fn, []*Term{pp, V, v, r}, func(ret *Term) []*Term { return []*Term{ret.args[1], pp, ret.args[0]} }, nil)
	weights := vecField(prove.fn.Params[0].Type())
	if t == nil || weights == "" {
		return
	}
	if p, _ := t.pair(t.newIP.fn, t.verifyIP.fn); p == nil {
		return
	}
	b := fld(pp, weights)
	t.given[V] = t.commitment(fld(pp, "F"), r, fld(pp, "Gs"), v)
	t.given[fld(pp, "B")] = t.inner(fld(pp, "H"), b, "G1.Mul")
	t.m.assumed = append(t.m.assumed, t.inner(v, b, "Zr.Mul"))
	t.nestedIP()
}

func (h *honest) sums() {
	prove, verify := h.fn("sum", "NewAggregatedArgument"), h.method("sum", "Proof", "VerifyAggregated")
	one, check := h.fn("sum", "NewArgument"), h.method("sum", "Proof", "Verify")
	if prove == nil || verify == nil || one == nil || check == nil || len(prove.fn.Params) != 4 || len(one.fn.Params) != 4 || len(check.fn.Params) != 3 {
		return
	}
	pp, V, v, r := in("pp"), in("V"), in("v"), in("r")
	t := h.trial("sums", prove.fn, verify.fn, []*Term{pp, V, v, r}, func(ret *Term) []*Term { return []*Term{ret, pp, V} },
		[]*Term{eqInt(lenOf(V), lenOf(v)), eqInt(lenOf(V), lenOf(r))}, one.fn, check.fn)
	if t == nil {
		return
	}
	p, e := t.pair(one.fn, check.fn)
	if p == nil {
		return
	}
	t.each = func(y *Term) (tensor, bool) {
		if y.op == "el" && y.args[0] == V {
			return t.commitment(fld(pp, "F"), elAt(r, y.args[1]), fld(pp, "Gs"), elAt(v, y.args[1])), true
		}
		return nil, false
	}
	// the vectors are of one length
	t.m.same = func(x *Term) *Term {
		if x.op == "len" && x.args[0].op == "el" && x.args[0].args[0] == v {
			return lenOf(fld(pp, "Gs"))
		}
		return x
	}
	claim := fld(t.arg(e, check.fn, 2), "V")
	want := t.commitment(fld(pp, "F"), t.arg(p, one.fn, 3), fld(pp, "Gs"), t.arg(p, one.fn, 2))
	t.say("aggregate", t.value(claim), want, "the verifier's aggregated commitment is not one to the prover's aggregated vector")
}

func (h *honest) equalities() {
	prove, verify := h.method("poe", "Equalities", "Prove"), h.method("poe", "Equalities", "Verify")
	if prove == nil || verify == nil {
		return
	}
	open := h.fn("pp", "Open")
	if open == nil || len(open.fn.Params) != 3 {
		return
	}
	e, v, w := in("e"), in("v"), in("w")
	t := h.trial("equalities", prove.fn, verify.fn, []*Term{e, v, w}, func(ret *Term) []*Term { return []*Term{e, ret} }, nil, open.fn)
	if t == nil {
		return
	}
	t.nestedIP()
	t.equations(e, v, w, open.fn)
}

// equations: what the verifier of equalities demands of pairings, for openings of the commitments.
func (t *trial) equations(e, v, w *Term, open *ssa.Function) {
	p, at := t.pair(t.newIP.fn, t.verifyIP.fn)
	if p == nil {
		return
	}
	a, b := t.arg(p, t.newIP.fn, 1), t.arg(p, t.newIP.fn, 2)
	claimed := t.inner(a, b, "Zr.Mul")
	t.each = func(y *Term) (tensor, bool) {
		if y.op == "fld" && y.sym == "C" && y.args[0].op == "app" && y.args[0].sym == "pred:"+t.proveIP.fn.String() {
			return claimed, true
		}
		return nil, false
	}
	t.pairings(at.St.factList(), e, open, map[*Term]*Term{v: fld(e, "V"), w: fld(e, "W")}, false, func(y *Term) (tensor, bool) {
		if y.op == "el" && y.args[0].op == "el" && y.args[0].args[0] == w {
			k := y.args[0].args[1]
			if y.args[1] == elAt(fld(e, "J"), k) {
				return t.m.atomic(elAt(elAt(v, k), elAt(fld(e, "I"), k))), true
			}
		}
		return nil, false
	})
	t.each = nil
}

// pairings: the equations among fs hold where of has what the openings are about, and the compared elements are equal.
func (t *trial) pairings(fs []*Term, e *Term, open *ssa.Function, of map[*Term]*Term, one bool, compared func(y *Term) (tensor, bool)) {
	pp := fld(fld(e, "PP"), "PP")
	n := fld(pp, "N")
	t.m.same = func(x *Term) *Term {
		switch {
		case x.op == "len" && (of[x.args[0]] != nil && one || x.args[0].op == "el" && of[x.args[0].args[0]] != nil):
			return n
		case x == lenOf(fld(pp, "G1s")):
			return addT(n, n)
		case x == lenOf(fld(pp, "G2s")):
			return n
		}
		return x
	}
	var eqs []*Term
	for _, f := range fs {
		if f.op == "app" && f.sym == "Gt.Equals" {
			eqs = append(eqs, f)
		}
	}
	if len(eqs) == 0 {
		t.note("%s/pairings: no equation was found", t.name)
	}
	// they are not to be assumed
	t.m.unassumed = "Gt.Equals"
	var rest []*Term
	for _, f := range t.a.fs {
		if f.op != "app" || f.sym != "Gt.Equals" {
			rest = append(rest, f)
		}
	}
	t.a = newAlgebra(t.Ctx, rest)
	for _, f := range eqs {
		var side [2]tensor
		for i := range side {
			x := t.opening(t.value(f.args[i]), open, pp, of)
			side[i] = t.m.replace(t.powers(x, pp), compared)
		}
		t.say("pairings", side[0], side[1], "the equation between pairings does not hold for the openings of the commitments")
	}
	t.m.same = nil
}

func (h *honest) equality() {
	prove, verify, open := h.method("poe", "Equality", "Prove"), h.method("poe", "Equality", "Verify"), h.fn("pp", "Open")
	if prove == nil || verify == nil || open == nil || len(open.fn.Params) != 3 || len(prove.fn.Params) != 3 {
		return
	}
	e, v, w := in("e"), in("v"), in("w")
	var ret *Term
	t := h.trial("equality", prove.fn, verify.fn, []*Term{e, v, w}, func(r *Term) []*Term { ret = r; return []*Term{e, r} }, nil, open.fn)
	if t == nil || ret == nil {
		return
	}
	st := t.s.st.clone()
	st.assume(eqTerm(t.verdict, tNil))
	if st.dead {
		t.oblige(false, t.name+"/accepts", t.site, "the verifier accepts nothing that the prover returns")
		return
	}
	fs := st.factList()
	t.a = newAlgebra(t.Ctx, saturate(fs, nil))
	t.pairings(fs, e, open.fn, map[*Term]*Term{v: fld(e, "V"), w: fld(e, "W")}, true, func(y *Term) (tensor, bool) {
		if y == elAt(w, fld(e, "J")) {
			return t.m.atomic(elAt(v, fld(e, "I"))), true
		}
		return nil, false
	})
}

// opening: the pairing of an opening with the generator.
func (t *trial) opening(p tensor, open *ssa.Function, pp *Term, of map[*Term]*Term) tensor {
	g2 := generator("GenG2")
	r := tensor{}
	for _, m := range p {
		m = t.m.renamed(m)
		one := t.m.constant(m.k)
		found, i, vec := false, (*Term)(nil), (*Term)(nil)
		var rest []*Term
		for _, x := range m.at {
			y := x
			if y.op == "tget" || y.op == "res" || y.op == "extract" || y.op == "proj" {
				y = y.args[0]
			}
			if !found && y.op == "app" && strings.HasPrefix(y.sym, "pred:"+open.String()) && len(y.args) == 3 {
				found, i, vec = true, y.args[1], y.args[2]
				continue
			}
			rest = append(rest, x)
		}
		if found && contains(rest, []*Term{g2}) && (of[vec] != nil || vec.op == "el" && of[vec.args[0]] != nil) {
			com := of[vec]
			if com == nil {
				com = elAt(of[vec.args[0]], vec.args[1])
			}
			g := elAt(fld(pp, "G2s"), addK(subT(fld(pp, "N"), i), -1))
			q := t.m.plus(t.m.times(t.m.atomic(com), t.m.atomic(g)), t.m.times(t.m.atomic(elAt(vec, i)), t.m.atomic(app("power·", addK(fld(pp, "N"), 1)))), -1)
			one = t.m.times(one, q)
			rest = without(rest, []*Term{g2})
		} else {
			rest = m.at
		}
		for _, x := range rest {
			one = t.m.times(one, t.m.atomic(x))
		}
		for _, n := range one {
			n = t.m.renamed(n)
			t.m.add(r, n.k, n.at, append(append([]bound{}, m.bs...), n.bs...))
		}
	}
	return r
}

// powers: pairings of the generators by what they are powers of.
func (t *trial) powers(p tensor, pp *Term) tensor {
	r := tensor{}
	for _, m := range p {
		var rest []*Term
		var e1, e2 *Term
		for _, x := range m.at {
			x = rewrite(x, t.m.same)
			switch {
			case e1 == nil && e2 == nil && x == fld(pp, "Gt"):
				e1, e2 = intT(0), addK(fld(pp, "N"), 1)
			case e1 == nil && x == generator("GenG1"):
				e1 = intT(0)
			case e2 == nil && x == generator("GenG2"):
				e2 = intT(0)
			case e1 == nil && x.op == "el" && x.args[0] == fld(pp, "G1s"):
				e1 = addK(x.args[1], 1)
			case e2 == nil && x.op == "el" && x.args[0] == fld(pp, "G2s"):
				e2 = addK(x.args[1], 1)
			default:
				rest = append(rest, x)
			}
		}
		if e1 == nil || e2 == nil {
			for _, g := range []struct {
				k *Term
				v string
			}{{e1, "G1s"}, {e2, "G2s"}} {
				if g.k != nil {
					rest = append(rest, elAt(fld(pp, g.v), addK(g.k, -1)))
				}
			}
			t.m.add(r, m.k, rest, m.bs)
			continue
		}
		e := addT(e1, e2)
		e = rewrite(e, t.m.same)
		t.m.add(r, m.k, append(rest, app("power·", e)), m.bs)
	}
	return r
}

func (h *honest) ranges() {
	prove, verify := h.fn("bp", "ProveRange"), h.fn("bp", "VerifyRange")
	reduce, check := h.fn("bp", "IterativeReduce"), h.fn("bp", "IterativeVerify")
	if prove == nil || verify == nil || reduce == nil || check == nil {
		return
	}
	pp, V, v, r := in("pp"), in("V"), in("v"), in("r")
	t := h.trial("range", prove.fn, verify.fn, []*Term{pp, V, v, r}, func(ret *Term) []*Term { return []*Term{pp, ret, V} }, nil, reduce.fn, check.fn)
	if t == nil {
		return
	}
	p, e := t.pair(reduce.fn, check.fn)
	if p == nil {
		return
	}
	t.given[V] = t.commitment(fld(pp, "F"), r, fld(pp, "Gs"), v)
	t.say("reduction", t.value(t.arg(e, check.fn, 1)), t.inner(fld(t.arg(e, check.fn, 0), "G"), t.arg(p, reduce.fn, 1), "G1.Mul"), "the verifier's commitment to be reduced is not one to the prover's vector")
	t.nestedIP()
}
