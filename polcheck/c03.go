package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C03: challenges bind parameters, statement and earlier messages.

func init() {
	register("C03", "every digest occurring in a scalar that is applied to a group element or to another scalar in an equation required for acceptance: the digest must absorb in full, under the facts of the accepting return, the parameters' digest (or all generators), the whole statement and the proof elements sent before", checkC03)
}

// challenge: a digest in a scalar and what the scalar is applied to.
type challenge struct {
	use
	base *Term
	exp  *Term
}

func challengesOf(fs []*Term) []challenge {
	var us []use
	for _, f := range fs {
		us = append(us, use{f, nil})
	}
	var r []challenge
	for _, a := range applications(us) {
		for _, u := range challengesIn(a.exp, a.conds) {
			r = append(r, challenge{use: u, base: a.base, exp: a.exp})
		}
	}
	return r
}

// generatorsOf: all group elements of a parameter set.
func generatorsOf(t types.Type, x *Term, name string) []leaf {
	var r []leaf
	for _, l := range leaves(t, x, name, 0) {
		if l.typ != "*math.Zr" {
			r = append(r, l)
		}
	}
	return r
}

// digestField: the digest carried by a parameter set.
func digestField(t types.Type, x *Term) *leaf {
	for _, f := range []string{"Digest", "digest"} {
		if ft, ok := hasField(t, f); ok && typeName(ft.Underlying()) == "[]byte" {
			d := in("δd")
			s := fld(x, f)
			return &leaf{t: mk("el", "", s, d), name: "digest", conds: []*Term{ge0(d), lt(d, mk("len", "", s))}, idx: []*Term{d}}
		}
	}
	return nil
}

// chalCtx: the challenges of one accepting return.
type chalCtx struct {
	c    *Ctx
	name string
	site string
	fs   []*Term
	all  []challenge
}

// ofBases: challenges applied to (something involving) x.
func (cc *chalCtx) applied(x *Term) []challenge {
	var r []challenge
	for _, ch := range cc.all {
		if about(ch.base, x) {
			r = append(r, ch)
		}
	}
	return r
}

func (cc *chalCtx) exists(role string, chs []challenge) bool {
	return cc.c.oblige(len(chs) > 0, fmt.Sprintf("%s/%s/no-challenge", cc.name, role), cc.site,
		fmt.Sprintf("%s: no hash-derived challenge is applied to %s", cc.name, role))
}

func (cc *chalCtx) binds(role string, chs []challenge, ls ...leaf) {
	for _, l := range ls {
		ok := true
		for _, ch := range dedup(chs) {
			if !boundBy(cc.fs, ch.use, l) {
				ok = false
				break
			}
		}
		cc.c.oblige(ok, fmt.Sprintf("%s/%s/%s", cc.name, role, l.name), cc.site,
			fmt.Sprintf("%s: a challenge applied to %s is derived from a hash that does not absorb %s in full", cc.name, role, l.name))
	}
}

func dedup(chs []challenge) []challenge {
	seen := map[*Term]bool{}
	var r []challenge
	for _, ch := range chs {
		k := mk("tuple", "", append([]*Term{ch.t}, ch.conds...)...)
		if !seen[k] {
			seen[k] = true
			r = append(r, ch)
		}
	}
	return r
}

// params: the challenges bind the digest carried by the parameters or every generator.
func (cc *chalCtx) params(role string, chs []challenge, typ types.Type, x *Term) {
	dl := digestField(typ, x)
	gens := generatorsOf(typ, x, "pp")
	for _, ch := range dedup(chs) {
		one := []challenge{ch}
		all := func(extra ...*Term) bool {
			for _, g := range gens {
				g.conds = with(g.conds, extra...)
				if !boundBy(cc.fs, one[0].use, g) {
					return false
				}
			}
			return len(gens) > 0
		}
		ok := false
		if dl != nil {
			d := *dl
			n := mk("len", "", d.t.args[0])
			d.conds = with(d.conds, ge0(addK(n, -1)))
			ok = boundBy(cc.fs, ch.use, d)
			if ok && mayMentionGens(ch.t, gens) { // recomputed when absent
				ok = all(eqInt(n, zeroInt))
			}
		}
		ok = ok || all()
		cc.c.oblige(ok, fmt.Sprintf("%s/%s/parameters", cc.name, role), cc.site,
			fmt.Sprintf("%s: a challenge applied to %s is derived from a hash that does not absorb the public parameters", cc.name, role))
	}
}

func mayMentionGens(t *Term, gens []leaf) bool {
	// only when the digest is recomputed under a test of the carried one
	found := false
	walkDeep(t, func(x *Term) bool {
		if x.op == "choice" {
			_, alts := choiceAlts(x)
			n, m := 0, 0
			for _, a := range alts {
				hit := false
				for _, g := range gens {
					if stem := stemOf(g.t); a == stem || mentionsDeep(a, stem) {
						hit = true
					}
				}
				if hit {
					n++
				} else {
					m++
				}
			}
			if n > 0 && m > 0 {
				found = true
			}
		}
		return !found
	})
	return found
}

// stemOf: the field of the parameter set a generator is in.
func stemOf(t *Term) *Term {
	for t.op == "el" {
		t = t.args[0]
	}
	return t
}

func mentionsDeep(t, x *Term) bool {
	found := false
	walkDeep(t, func(y *Term) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}

func rootTerm(t *Term) *Term {
	for (t.op == "el" || t.op == "fld") && len(t.args) > 0 {
		t = t.args[0]
	}
	return t
}

// ints: the low n bits of the integer (or of every element of the sequence) are absorbed.
func (cc *chalCtx) ints(role string, chs []challenge, name string, p *Term, n uint) {
	want := uint64(1)<<n - 1
	ok := true
	for _, ch := range dedup(chs) {
		if bitsAbsorbed(ch.t, p)&want != want {
			ok = false
		}
	}
	cc.c.oblige(ok, fmt.Sprintf("%s/%s/%s/bits", cc.name, role, name), cc.site,
		fmt.Sprintf("%s: a challenge applied to %s is derived from a hash that absorbs only part of the integer %s", cc.name, role, name))
}

// whole: the challenges use all bytes of the digests they come from.
func (cc *chalCtx) whole() {
	ok := true
	for _, ch := range cc.all {
		if len(partialDigests(ch.exp, ch.conds)) > 0 {
			ok = false
		}
	}
	cc.c.oblige(ok, cc.name+"/full-digest", cc.site, cc.name+": a challenge uses only part of the digest it is derived from")
	parts := ""
	for _, ch := range cc.all {
		found := ""
		walkDeep(ch.exp, func(x *Term) bool {
			if isHash(x) && parts == "" {
				for _, a := range x.args {
					if parts == "" {
						parts = ambiguous(a)
					}
				}
			}
			if x.op == "app" && x.sym == "overwritten" {
				found = describe(x.args[0])
			}
			return found == ""
		})
		if found != "" {
			cc.c.oblige(false, cc.name+"/overwritten", cc.site, cc.name+": a challenge hashes bytes that a later append to the same slice may have overwritten")
			break
		}
	}
	cc.c.oblige(parts == "", cc.name+"/unambiguous", cc.site, cc.name+": different inputs hash the same bytes: "+parts)
}

func seqLeaf(name string, s *Term) leaf {
	l := whole(name, s)
	return l
}

func (c *Ctx) chalCtx(name string, ref *fnRef, args []*Term, setup func(*Interp, *State), extra []*Term, atomic ...*fnRef) (*chalCtx, *result) {
	if ref == nil {
		return nil, nil
	}
	var at []*ssa.Function
	for _, a := range atomic {
		if a != nil && a.fn != ref.fn {
			at = append(at, a.fn)
		}
	}
	if args == nil {
		args = entryArgs(ref.fn)
	}
	r := c.analyseWith(ref.fn, args, setup, at...)
	fs := r.accepting()
	if r.dead {
		c.skip("%s never accepts", name)
		return nil, nil
	}
	fs = with(fs, extra...)
	cc := &chalCtx{c: c, name: name, site: c.siteOf(ref.fn), fs: fs, all: challengesOf(fs)}
	return cc, r
}

func funcTerm(f *ssa.Function) *Term { return mk("func", funcID(f)) }

func (c *Ctx) fieldType(t types.Type, names ...string) types.Type {
	for _, n := range names {
		ft, ok := hasField(t, n)
		if !ok {
			return nil
		}
		t = ft
	}
	return t
}

func paramType(fn *ssa.Function, i int) types.Type { return fn.Params[i].Type() }

// setROTerm sets the receiver's random oracle.
func setROTerm(ro *Term) func(*Interp, *State) {
	return func(i *Interp, st *State) {
		st.mem = st.mem.Set(mk("fa", "RO", in("recv")).id, ro)
	}
}

func checkC03(c *Ctx) {
	ppv, ppa := c.fn("pp", "Verify"), c.fn("pp", "VerifyAggregation")
	eqs, eq1 := c.method("poe", "Equalities", "Verify"), c.method("poe", "Equality", "Verify")
	sv, sva := c.method("sum", "Proof", "Verify"), c.method("sum", "Proof", "VerifyAggregated")
	vr, iv := c.fn("bp", "VerifyRange"), c.fn("bp", "IterativeVerify")
	ipa := c.method("bp", "InnerProductProof", "Verify")
	lv := c.method("pol", "LiabilityProof", "Verify")
	ppRO, poeRO := c.fn("pp", "RO"), c.fn("poe", "RO")
	if len(c.lost) > 0 {
		return
	}

	// the oracle the equality argument gets from the liability verifier
	ro := c.equalityOracle(lv.fn, eqs.fn, ppv.fn, ppa.fn, eq1.fn, sv.fn, sva.fn, vr.fn, iv.fn, ipa.fn)
	if ro == nil {
		ro = funcTerm(poeRO.fn)
		c.note("oracle of the equality argument not recognised, %s used", shortFn(poeRO.fn))
	}
	// aggregated opening with the package's own oracle
	args := entryArgs(ppa.fn)
	for i, p := range ppa.fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			args[i] = funcTerm(ppRO.fn)
		}
	}
	if cc, r := c.chalCtx("aggregated opening", ppa, args, nil, nil); cc != nil {
		p, cs := paramOf(r, "*pp.PP", 0), paramOf(r, "common.G1v", 0)
		if p != nil && cs != nil {
			chs := cc.applied(cs)
			cc.exists("commitments", chs)
			cc.binds("commitments", chs, seqLeaf("commitments", cs))
			cc.params("commitments", chs, paramT(r, p), p)
			cc.whole()
		}
	}

	// the liability verifier's aggregated opening: also the positions and the committed layers
	if cc, r := c.chalCtx("liability", lv, nil, nil, nil, ppv, eqs, eq1, sv, sva, vr, iv, ipa); cc != nil {
		recv := in("recv")
		pub := paramOf(r, "*pol.PublicParams", 0)
		v := c.pathOf(r)
		if pub != nil && v != nil {
			W, V := fld(recv, "W"), fld(recv, "V")
			chs := cc.applied(W)
			cc.exists("W", chs)
			cc.binds("W", chs, seqLeaf("W", W), seqLeaf("V", V), seqLeaf("path", v))
			cc.ints("W", chs, "path", v, 16)
			if pt := c.fieldType(paramT(r, pub), "PPPP"); pt != nil {
				cc.params("W", chs, pt, fld(pub, "PPPP"))
			}
			cc.whole()
		}
	}

	// equality of two slots
	if cc, r := c.chalCtx("equality", eq1, nil, setROTerm(ro), nil, ppv, ppa, ipa); cc != nil {
		e, pf := in("recv"), r.args[1]
		ls := []leaf{gen("V", fld(e, "V")), gen("W", fld(e, "W")), gen("proof.V", fld(pf, "V")), gen("proof.W", fld(pf, "W")), gen("I", fld(e, "I")), gen("J", fld(e, "J"))}
		cc.exists("proof.V", cc.applied(fld(pf, "V")))
		cc.exists("proof.W", cc.applied(fld(pf, "W")))
		cc.exists("V", cc.applied(fld(e, "V")))
		cc.exists("W", cc.applied(fld(e, "W")))
		cc.binds("any", cc.all, ls...)
		cc.ints("any", cc.all, "I", fld(e, "I"), 16)
		cc.ints("any", cc.all, "J", fld(e, "J"), 16)
		// the combining coefficients come after the answer C
		cc.binds("V", directly(cc.all, fld(e, "V")), gen("proof.C", fld(pf, "C")))
		cc.binds("W", directly(cc.all, fld(e, "W")), gen("proof.C", fld(pf, "C")))
		if t := c.fieldType(paramType(eq1.fn, 0), "PP"); t != nil {
			cc.params("any", cc.all, t, fld(e, "PP"))
		}
		cc.whole()
	}

	// aggregated equalities
	if cc, r := c.chalCtx("aggregated equality", eqs, nil, setROTerm(ro), nil, ppv, ppa, ipa); cc != nil {
		e, pf := in("recv"), r.args[1]
		for _, f := range []string{"Vaggr", "Waggr"} {
			cc.exists("proof."+f, cc.applied(fld(pf, f)))
		}
		cc.exists("V", cc.applied(fld(e, "V")))
		cc.exists("W", cc.applied(fld(e, "W")))
		cc.exists("proof.U", cc.applied(fld(pf, "U")))
		cc.binds("any", cc.all, seqLeaf("proof.Vaggr", fld(pf, "Vaggr")), seqLeaf("proof.Waggr", fld(pf, "Waggr")),
			seqLeaf("V", fld(e, "V")), seqLeaf("W", fld(e, "W")), seqLeaf("I", fld(e, "I")), seqLeaf("J", fld(e, "J")))
		cc.ints("any", cc.all, "I", fld(e, "I"), 16)
		cc.ints("any", cc.all, "J", fld(e, "J"), 16)
		late := append(directly(cc.all, fld(e, "V")), directly(cc.all, fld(e, "W"))...)
		late = append(late, cc.applied(fld(fld(e, "PP"), "H"))...)
		cc.binds("V and W", late, gen("proof.U", fld(pf, "U")), gen("proof.V", fld(pf, "V")))
		if t := c.fieldType(paramType(eqs.fn, 0), "PP"); t != nil {
			cc.params("any", cc.all, t, fld(e, "PP"))
		}
		cc.whole()
	}

	// sum argument
	if cc, r := c.chalCtx("sum argument", sv, nil, nil, nil, ipa); cc != nil {
		pf, p, a := in("recv"), paramOf(r, "*sum.PP", 0), paramOf(r, "*sum.Argument", 0)
		if p != nil && a != nil {
			W := fld(pf, "W")
			chs := cc.applied(W)
			cc.exists("W", chs)
			cc.binds("any", cc.all, gen("W", W), gen("c", fld(pf, "c")), gen("V", fld(a, "V")))
			cc.params("any", cc.all, paramT(r, p), p)
			cc.whole()
		}
	}
	if cc, r := c.chalCtx("aggregated sum argument", sva, nil, nil, nil, sv, ipa); cc != nil {
		p, V := paramOf(r, "*sum.PP", 0), paramOf(r, "common.G1v", 0)
		if p != nil && V != nil {
			chs := cc.applied(V)
			cc.exists("V", chs)
			cc.binds("V", chs, seqLeaf("V", V))
			cc.params("V", chs, paramT(r, p), p)
			cc.whole()
		}
	}

	// range proof
	c.passThrough(iv.fn)
	if cc, r := c.chalCtx("range proof", vr, nil, nil, nil, iv, ipa); cc != nil {
		p, pf, V := paramOf(r, "*bp.RangeProofPublicParams", 0), paramOf(r, "*bp.RangeProof", 0), paramOf(r, "*math.G1", 0)
		if p != nil && pf != nil && V != nil {
			f := func(n string) leaf { return gen("proof."+n, fld(pf, n)) }
			for _, n := range []string{"W", "R", "C1", "C2"} {
				cc.exists("proof."+n, cc.applied(fld(pf, n)))
			}
			cc.exists("Hs", cc.applied(fld(p, "Hs")))
			cc.exists("Fs", cc.applied(fld(p, "Fs")))
			cc.binds("any", cc.all, gen("V", V), f("W"), f("Q"))
			cc.params("any", cc.all, paramT(r, p), p)
			var delta []leaf
			if t := c.fieldType(paramTypeOf(vr.fn, "*bp.RangeProof"), "Δ"); t != nil {
				delta = leaves(t, fld(pf, "Δ"), "proof.Δ", 1)
			}
			second := append(cc.applied(fld(pf, "R")), append(cc.applied(fld(pf, "C1")), cc.applied(fld(pf, "C2"))...)...)
			cc.binds("R, C1 and C2", second, append(delta, f("R"), f("u"), f("C1"), f("C2"))...)
			hs := cc.applied(fld(p, "Hs"))
			cc.binds("Hs", hs, append(delta, f("R"), f("u"))...)
			// powers of the inverse of y0 applied to Fs
			cc.binds("Fs", soleDigest(cc.applied(fld(p, "Fs"))), append(delta, f("R"), f("u"))...)
			cc.whole()
		}
	}

	// iterative reduction
	if cc, r := c.chalCtx("iterative reduction", iv, nil, nil, nil); cc != nil {
		p, V, D := paramOf(r, "*bp.PP", 0), paramOf(r, "*math.G1", 0), paramOf(r, "[][3]*math.G1", 0)
		if p != nil && V != nil && D != nil {
			chs := cc.applied(D)
			cc.exists("Δ", chs)
			cc.exists("G", cc.applied(fld(p, "G")))
			cc.params("any", cc.all, paramT(r, p), p)
			for _, ch := range dedup(chs) {
				k, j := roundOf(ch.base, D)
				if k == nil {
					continue
				}
				_ = j
				at := func(k *Term, j int64) *Term { return elAt(elAt(D, k), intT(j)) }
				g := ground(use{mk("tuple", "", ch.t, k), ch.conds})
				gu, k := use{g.t.args[0], g.conds}, g.t.args[1]
				one := func(name string, l leaf) {
					c.oblige(boundBy(cc.fs, gu, l), cc.name+"/Δ/"+name, cc.site, cc.name+": the challenge of a round does not absorb "+name)
				}
				one("A of the round", leaf{t: at(k, 0), idx: []*Term{k}})
				one("B of the round", leaf{t: at(k, 1), idx: []*Term{k}})
				one("the reduced commitment", leaf{t: V, conds: []*Term{eqInt(k, zeroInt)}, idx: []*Term{k}})
				prev := leaf{t: at(addK(k, -1), 2), conds: []*Term{ge0(addK(k, -1))}, idx: []*Term{k, addK(k, -1)}}
				prevA := leaf{t: at(addK(k, -1), 0), conds: []*Term{ge0(addK(k, -1))}, idx: []*Term{k, addK(k, -1)}}
				c.oblige(boundBy(cc.fs, gu, prev) || boundBy(cc.fs, gu, prevA), cc.name+"/Δ/previous round", cc.site, cc.name+": the challenge of a round does not absorb the previous round")
			}
			cc.whole()
		}
	}

	// inner product
	if cc, r := c.chalCtx("inner product", ipa, nil, nil, nil); cc != nil {
		pf, p := in("recv"), paramOf(r, "*bp.PP", 0)
		if p != nil {
			ls := []leaf{gen("P", fld(pf, "P")), gen("C", fld(pf, "C"))}
			cc.exists("U", cc.applied(fld(p, "U")))
			cc.binds("any", cc.all, ls...)
			cc.params("any", cc.all, paramT(r, p), p)
			LRs := fld(pf, "LRs")
			chs := cc.applied(LRs)
			cc.exists("LRs", chs)
			seen := map[string]bool{}
			for _, ch := range dedupBase(chs) {
				k := indexIn(ch.base, LRs)
				if k == nil {
					continue
				}
				g := ground(use{mk("tuple", "", ch.t, k), ch.conds})
				gu, k := use{g.t.args[0], g.conds}, g.t.args[1]
				partner := addK(k, 1)
				if q, ok := parity(k); ok && q == 1 {
					partner = addK(k, -1)
				}
				seen[k.String()] = true
				one := func(name string, l leaf) {
					c.oblige(boundBy(cc.fs, gu, l), cc.name+"/LRs/"+name, cc.site, cc.name+": the challenge of a round does not absorb "+name)
				}
				one("the element it is applied to", leaf{t: elAt(LRs, k), idx: []*Term{k}})
				one("the other element of the round", leaf{t: elAt(LRs, partner), idx: []*Term{k}})
				j := in("δj")
				first := k
				if q, ok := parity(k); ok && q == 1 {
					first = partner
				}
				one("the earlier rounds", leaf{t: elAt(LRs, j), conds: []*Term{ge0(j), lt(j, first)}, idx: []*Term{j, k}})
			}
			cc.whole()
		}
	}
}

func paramT(r *result, x *Term) types.Type {
	for i, a := range r.args {
		if a == x {
			return r.fn.Params[i].Type()
		}
	}
	return nil
}

func paramTypeOf(fn *ssa.Function, name string) types.Type {
	for _, p := range fn.Params {
		if typeName(p.Type()) == name {
			return p.Type()
		}
	}
	return nil
}

// pathOf: the path an identifier is mapped to.
func (c *Ctx) pathOf(r *result) *Term {
	ids := r.params(func(t types.Type) bool { return typeName(t) == "string" })
	fns := r.params(isStringFn)
	if len(ids) != 1 || len(fns) != 1 {
		return nil
	}
	return app("callfn", fns[0], ids[0])
}

// directly: challenges applied to a sum that x is a term of (not only to x through a nested product).
func directly(chs []challenge, x *Term) []challenge {
	var r []challenge
	for _, ch := range chs {
		if isSummand(ch.base, x, 0) {
			r = append(r, ch)
		}
	}
	return r
}

func isSummand(b, x *Term, d int) bool {
	if d > 20 {
		return false
	}
	if b == x || (b.op == "el" || b.op == "fld") && about(b, x) && !hasMulInside(b) {
		return true
	}
	if b.op == "app" && (b.sym == "G1.Add" || b.sym == "G1.Sub" || b.sym == "G1.Copy") {
		for _, a := range b.args {
			if isSummand(a, x, d+1) {
				return true
			}
		}
	}
	if b.op == "choice" {
		_, alts := choiceAlts(b)
		for _, a := range alts {
			if isSummand(a, x, d+1) {
				return true
			}
		}
	}
	return false
}

func hasMulInside(b *Term) bool {
	found := false
	walkDeep(b, func(t *Term) bool {
		if isMul(t) {
			found = true
		}
		return !found
	})
	return found
}

// soleDigest: challenges whose scalar comes from a single digest.
func soleDigest(chs []challenge) []challenge {
	n := map[*Term]map[*Term]bool{}
	for _, ch := range chs {
		if n[ch.exp] == nil {
			n[ch.exp] = map[*Term]bool{}
		}
		n[ch.exp][ch.t] = true
	}
	var r []challenge
	for _, ch := range chs {
		if len(n[ch.exp]) == 1 {
			r = append(r, ch)
		}
	}
	return r
}

// roundOf: b is element j of round k of D.
func roundOf(b, D *Term) (*Term, int64) {
	if b.op == "el" && b.args[0].op == "el" && b.args[0].args[0] == D {
		if j, ok := b.args[1].intVal(); ok {
			return b.args[0].args[1], j
		}
	}
	return nil, 0
}

func indexIn(b, s *Term) *Term {
	if b.op == "el" && b.args[0] == s {
		return b.args[1]
	}
	return nil
}

// parity of an integer term of the form 2x+c.
func parity(k *Term) (int64, bool) {
	l := toLin(k)
	for _, v := range l.m {
		if v%2 != 0 {
			return 0, false
		}
	}
	return ((l.c % 2) + 2) % 2, true
}

func dedupBase(chs []challenge) []challenge {
	seen := map[[2]*Term]bool{}
	var r []challenge
	for _, ch := range chs {
		k := [2]*Term{ch.t, ch.base}
		if !seen[k] {
			seen[k] = true
			r = append(r, ch)
		}
	}
	return r
}

// passThrough records which results of fn are, whenever it succeeds, one of its parameters.
func (c *Ctx) passThrough(fn *ssa.Function) {
	r := c.analyse(fn)
	fs := r.accepting()
	if r.dead || r.ret.op != "tuple" {
		return
	}
	for i, x := range r.ret.args {
		v := resolve(fs, x)
		for j, a := range r.args {
			if v == a {
				passedThrough[fmt.Sprintf("pred:%s.%d", fn.String(), i)] = j
			}
		}
	}
}
