package main

import (
	"go/types"
	"strings"
)

// C01: what an accepting return of the liability verifier implies, layer by layer.

func init() {
	register("C01", "facts that hold at every accepting return of LiabilityProof.Verify, instantiated at a generic layer: root equalities, hash-chain equalities, the aggregated opening of exactly those digests at the path, sum argument, equality proof, one range proof per layer, leaf opening", checkC01)
}

func subVerifiers(c *Ctx) (vr, ie, va, vg, pv *fnRef) {
	return c.fn("bp", "VerifyRange"), c.method("poe", "Equalities", "Verify"), c.fn("pp", "VerifyAggregation"),
		c.method("sum", "Proof", "VerifyAggregated"), c.fn("pp", "Verify")
}

func isStringFn(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 1 && s.Results().Len() == 1 && typeName(s.Params().At(0).Type()) == "string"
}

type liabilityView struct {
	r       *result
	fs      []*Term
	recv    *Term
	pub     *Term
	path    *Term
	n       *Term
	V, W    *Term
	site    string
	recvTyp types.Type
}

func (c *Ctx) liability(atomicSubs bool) *liabilityView {
	f := c.method("pol", "LiabilityProof", "Verify")
	if f == nil {
		return nil
	}
	vr, ie, va, vg, pv := subVerifiers(c)
	var r *result
	r = c.analyse(f.fn, vr.get(), ie.get(), va.get(), vg.get(), pv.get())
	fs := r.accepting()
	if r.dead {
		c.skip("LiabilityProof.Verify never accepts")
		return nil
	}
	v := &liabilityView{r: r, fs: fs, recv: in("recv"), site: c.siteOf(f.fn)}
	v.pub = paramOf(r, "*pol.PublicParams", 0)
	gs := r.params(func(t types.Type) bool { return typeName(t) == "*math.G1" })
	ids := r.params(func(t types.Type) bool { return typeName(t) == "string" })
	fns := r.params(isStringFn)
	if v.pub == nil || len(gs) != 2 || len(ids) != 1 || len(fns) != 1 {
		c.skip("LiabilityProof.Verify has unexpected parameters")
		return nil
	}
	v.V, v.W = gs[0], gs[1]
	v.path = app("callfn", fns[0], ids[0])
	v.n = mk("len", "", v.path)
	v.recvTyp = f.fn.Params[0].Type()
	return v
}

func checkC01(c *Ctx) {
	v := c.liability(true)
	if v == nil {
		return
	}
	vr, ie, va, vg, pv := subVerifiers(c)
	fs, recv, site, n := v.fs, v.recv, v.site, v.n
	_ = vr
	pathAt := func(d *Term) *Term { return elAt(v.path, d) }
	fV, fW, fD := fld(recv, "V"), fld(recv, "W"), fld(recv, "Digests")
	for _, f := range []string{"V", "W", "Digests", "RangeProofs", "PointProofΣ", "PointProofπ", "SumArgumentProof", "EqualityProof", "LiabilityProof"} {
		if _, ok := hasField(v.recvTyp, f); !ok {
			c.skip("LiabilityProof has no field %s", f)
			return
		}
	}
	// the proof's first commitments are the advertised root
	hasEq := func(fs []*Term, a, b *Term) bool {
		for _, e := range equationsOf(fs) {
			if e.r == nil {
				continue
			}
			if same(fs, e.l, a) && same(fs, e.r, b) || same(fs, e.l, b) && same(fs, e.r, a) {
				return true
			}
		}
		return false
	}
	base := saturate(fs, []*Term{zeroInt, addK(n, -1)})
	c.oblige(hasEq(base, elAt(fV, zeroInt), v.V), "root-V", site, "acceptance does not require the first value commitment to equal the advertised root")
	c.oblige(hasEq(base, elAt(fW, zeroInt), v.W), "root-W", site, "acceptance does not require the first digest commitment to equal the advertised root")

	d := in("δ")
	// for a generic layer d in [lo,hi]
	layer := func(lo, hi *Term, targets func(d *Term) []*Term, goal func(fs []*Term, d *Term) bool) bool {
		// very short paths may make the range empty, which is fine
		return c.forLayer(fs, d, lo, hi, targets, goal)
	}
	around := func(d *Term) []*Term { return []*Term{d, addK(d, -1), addK(d, 1)} }

	chain := func(d *Term, withW bool) func(fs []*Term, d *Term) bool {
		return func(fs []*Term, d *Term) bool {
			dg := elAt(fD, addK(d, -1))
			for _, e := range equationsOf(fs) {
				if e.r == nil {
					continue
				}
				for i, s := range e.sides() {
					if !same(fs, s, dg) {
						continue
					}
					o := e.sides()[1-i]
					if bindsFully(fs, o, elAt(fV, d)) && (!withW || bindsFully(fs, o, elAt(fW, d))) {
						return true
					}
				}
			}
			return false
		}
	}
	c.oblige(layer(intT(1), addK(n, -2), around, chain(d, true)), "hash-chain-inner", site,
		"acceptance does not require, for every inner layer d >= 1, Digests[d-1] to equal the hash of V[d] and W[d]")
	c.oblige(layer(addK(n, -1), addK(n, -1), around, chain(d, false)), "hash-chain-leaf", site,
		"acceptance does not require the last digest to equal the hash of the leaf layer's commitment")

	rp := fld(recv, "RangeProofs")
	c.oblige(layer(zeroInt, addK(n, -1), around, func(fs []*Term, d *Term) bool {
		for _, a := range predsOf(fs, vr.name()) {
			if len(a) >= 3 && same(fs, a[0], fld(v.pub, "RPPP")) && same(fs, a[1], elAt(rp, d)) && same(fs, a[2], elAt(fV, d)) {
				return true
			}
		}
		return false
	}), "range-proof", site, "acceptance does not require the range proof of every layer to verify for that layer's commitment")

	// equality proof
	c.oblige(layer(zeroInt, addK(n, -2), around, func(fs []*Term, d *Term) bool {
		for _, a := range predsOf(fs, ie.name()) {
			if len(a) < 2 || !same(fs, fld(a[0], "PP"), fld(v.pub, "POEPP")) || !same(fs, a[1], fld(recv, "EqualityProof")) {
				continue
			}
			I, J, V, W := fld(a[0], "I"), fld(a[0], "J"), fld(a[0], "V"), fld(a[0], "W")
			for _, k := range seqPositions(fs, V, elAt(fV, d), d, n) {
				r := newResolver(fs)
				at := func(s *Term) *Term { return r.elem(r.head(s), k) }
				pi, fo := pathAt(d), fld(v.pub, "Fanout")
				v0, v1 := elAt(fV, d), elAt(fV, addK(d, 1))
				if same(fs, at(I), pi) && same(fs, at(J), fo) && same(fs, at(V), v0) && same(fs, at(W), v1) ||
					same(fs, at(J), pi) && same(fs, at(I), fo) && same(fs, at(W), v0) && same(fs, at(V), v1) {
					return true
				}
			}
		}
		return false
	}), "equality", site, "acceptance does not require the equality proof to link slot path[d] of layer d with the sum slot of layer d+1, for every layer")

	// aggregated opening of the digest chain
	agg := predsOf(base, va.name())
	okAgg, okIdx, okSigma := false, false, false
	for _, a := range agg {
		if len(a) < 6 || !same(base, a[0], fld(v.pub, "PPPP")) || !sameSeq(c, base, a[2], fW, zeroInt, addK(n, -1)) || !same(base, a[3], fld(recv, "PointProofπ")) || !same(base, a[4], fld(recv, "PointProofΣ")) {
			continue
		}
		okAgg = true
		idx := a[1]
		lenOK := entails(base, eqInt(lenOf(resolve(base, idx)), addK(n, -1)))
		okIdx = okIdx || lenOK && layer(zeroInt, addK(n, -2), around, func(fs []*Term, d *Term) bool {
			r := newResolver(fs)
			return same(fs, r.elem(r.head(idx), d), pathAt(d))
		})
		for _, e := range equationsOf(base) {
			if e.r == nil {
				continue
			}
			for i, s := range e.sides() {
				if !same(base, s, fld(recv, "PointProofΣ")) {
					continue
				}
				o := e.sides()[1-i]
				if layer(zeroInt, addK(n, -2), around, func(fs []*Term, d *Term) bool {
					return newQuery(elAt(fD, d), true, fs).ask(o)
				}) && newQuery(elAt(fW, zeroInt), false, base).ask(o) {
					okSigma = true
				}
			}
		}
	}
	c.oblige(okAgg, "aggregated-opening", site, "acceptance does not require the aggregated opening of the digest commitments to verify")
	if okAgg {
		c.oblige(okIdx, "aggregated-opening-positions", site, "the aggregated opening is not checked at exactly the positions of the path")
		c.oblige(okSigma, "aggregated-opening-digests", site, "the aggregated opening is not required to be of the digests checked against the hash chain")
	}

	okSum := false
	for _, a := range predsOf(base, vg.name()) {
		if len(a) >= 3 && same(base, a[0], fld(recv, "SumArgumentProof")) && same(base, a[1], fld(v.pub, "SAPP")) && sameSeq(c, base, a[2], fV, zeroInt, n) {
			okSum = true
		}
	}
	c.oblige(okSum, "sum-argument", site, "acceptance does not require the sum argument over all layers to verify")

	okLeaf := false
	last := addK(n, -1)
	for _, a := range predsOf(base, pv.name()) {
		if len(a) >= 5 && same(base, a[0], fld(v.pub, "PPPP")) && newQuery(fld(fld(recv, "LiabilityProof"), "Sum"), true, base).ask(a[1]) &&
			same(base, a[2], fld(fld(recv, "LiabilityProof"), "LiabilityProof")) && same(base, a[3], elAt(fV, last)) && same(base, a[4], pathAt(last)) {
			okLeaf = true
		}
	}
	c.oblige(okLeaf, "leaf-opening", site, "acceptance does not require the claimed amount to open the leaf layer's commitment at the last step of the path")

	// whatever the schedule, no failure of a check performed in a goroutine is lost
	if c.startsGoroutine(v.r.fn) {
		sub := &Ctx{p: c.p, id: c.id, funcs: c.funcs, knownHit: c.knownHit}
		sub.goroutinesOf(v.r.fn, map[string]bool{})
		bad := false
		for _, x := range sub.viols {
			for _, k := range []string{"/verdict-after-wait", "/nothing-after-signal", "/goroutine-signals", "/add-before-go", "/counter", "/goroutine-result-received", "/race-with-goroutine", "/race-between-goroutines"} {
				if strings.HasSuffix(x.key, k) {
					bad = true
					c.oblige(false, "schedule"+k, x.site, x.msg)
				}
			}
		}
		if !bad {
			c.oblige(true, "schedule", site, "")
		}
	}
}

// bindsFully: the value o is determined by a hash that absorbs all of p.
func bindsFully(fs []*Term, o, p *Term) bool {
	q := newQuery(p, false, fs)
	q.strict = true
	if !q.ask(o) {
		return false
	}
	found := false
	walkDeep(o, func(t *Term) bool {
		if t.op == "app" && t.sym == "digest" {
			found = true
		}
		return !found
	})
	return found
}

// seqPositions: indices k at which the sequence s may hold the value of the projection p.
func seqPositions(fs []*Term, s, p, d, n *Term) []*Term {
	ks := []*Term{d, addK(d, 1), addK(d, -1), subT(addK(n, -2), d), subT(addK(n, -1), d)}
	return ks
}

// sameSeq: s has n elements, the n elements of t starting at off.
func sameSeq(c *Ctx, fs []*Term, s, t, off, n *Term) bool {
	if same(fs, s, t) {
		return true
	}
	s = resolve(fs, s)
	if !entails(fs, eqInt(lenOf(s), n)) {
		return false
	}
	d := in("δs")
	return c.forLayer(fs, d, zeroInt, addK(n, -1), func(d *Term) []*Term { return []*Term{d} }, func(fs []*Term, d *Term) bool {
		r := newResolver(fs)
		return same(fs, r.elem(r.head(s), d), elAt(t, add(off, d)))
	})
}

// forLayer: the goal holds for every integer d in [lo,hi]; boundary values are split off when the
// generic case is not enough.
func (c *Ctx) forLayer(fs []*Term, d, lo, hi *Term, targets func(d *Term) []*Term, goal func(fs []*Term, d *Term) bool) bool {
	if lo == hi {
		s := saturate(fs, targets(lo))
		return has(s, tFalse) || goal(s, lo)
	}
	try := func(extra ...*Term) bool {
		g := append(append([]*Term(nil), fs...), le(lo, d), le(d, hi))
		g = append(g, extra...)
		if refute(relevant(g, []*Term{le(lo, d), le(d, hi)})) {
			return true
		}
		s := saturate(g, append(targets(d), lo, hi))
		return has(s, tFalse) || goal(s, d)
	}
	if try() {
		return true
	}
	single := func(x *Term) bool {
		g := append(append([]*Term(nil), fs...), le(lo, hi))
		s := saturate(g, targets(x))
		return has(s, tFalse) || goal(s, x)
	}
	// lo, (lo,hi), hi
	return single(lo) && single(hi) && try(lt(lo, d), lt(d, hi))
}
