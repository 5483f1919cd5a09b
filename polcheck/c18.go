package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C18: aggregation coefficients of different positions come from different queries.

func init() {
	register("C18", "for every batch a verifier combines, the scalar applied to position p of the batch in an equation required for acceptance, as a function of p: hash inputs of p and p' ≠ p, of the first position and a later one, and of the two sides of an equality are compared symbolically (position encodings, truncation, identical queries); the position must enter the hash with at least 32 bits, sequences of powers of one challenge must multiply by the challenge at each step, and no alternative of a coefficient may be free of the hash", checkC18)
}

// coefficient: the scalar applied to position pos of a batch.
type coefficient struct {
	of    string
	exp   *Term
	pos   *Term // nil: not a batch
	conds []*Term
}

// element of a vector built by a loop, whatever its length.
func forceElem(t *Term, d int) *Term {
	if d > 12 || t.op != "el" {
		return t
	}
	s, p := t.args[0], t.args[1]
	switch {
	case s.op == "lsto" && s.args[2] == loopVar(s.sym):
		return forceElem(subst(s.args[3], map[*Term]*Term{loopVar(s.sym): p}), d+1)
	case s.op == "lcat" && s.args[2].op == "lit" && len(s.args[2].args) == 1:
		if n, ok := lenOf(s.args[0]).intVal(); ok {
			return forceElem(subst(s.args[2].args[0], map[*Term]*Term{loopVar(s.sym): addK(p, -n)}), d+1)
		}
	case s.op == "sub":
		return forceElem(elAt(s.args[0], add(s.args[1], p)), d+1)
	}
	return t
}

func (k coefficient) resolved(fs []*Term) *Term {
	t := forceElem(newResolver(with(fs, k.conds...)).deep(k.exp), 0)
	for t.op == "app" && (t.sym == "Zr.Mod" || t.sym == "Zr.Copy") && len(t.args) > 0 {
		t = forceElem(t.args[0], 0)
	}
	return t
}

// primed renames the loop variables of a coefficient.
func (k coefficient) primed() coefficient {
	m := map[*Term]*Term{}
	collect := func(t *Term) {
		walk(t, func(x *Term) bool {
			if x.op == "lv" && t.hasFV(x) {
				m[x] = in("κ':" + x.sym)
			}
			return true
		})
	}
	collect(k.exp)
	if k.pos != nil {
		collect(k.pos)
	}
	if len(m) == 0 {
		return k
	}
	r := coefficient{of: k.of, exp: subst(k.exp, m)}
	if k.pos != nil {
		r.pos = subst(k.pos, m)
	}
	for _, c := range k.conds {
		r.conds = append(r.conds, subst(c, m))
	}
	return r
}

// coefficients of the elements of S (or of S itself).
func coefficientsOf(fs []*Term, chs []challenge, name string, S *Term) []coefficient {
	var r []coefficient
	seen := map[[2]*Term]bool{}
	for _, ch := range directly(chs, S) {
		var ps []*Term
		walkDeep(ch.base, func(x *Term) bool {
			if x.op == "el" && x.args[0] == S && !has(ps, x.args[1]) {
				ps = append(ps, x.args[1])
			}
			return true
		})
		if len(ps) > 1 {
			continue
		}
		k := coefficient{of: name, exp: ch.exp, conds: ch.conds}
		if len(ps) == 1 {
			k.pos = ps[0]
		}
		what := k.resolved(fs)
		if d := plainChallenge(what); d != nil {
			what = d
		}
		key := [2]*Term{what, k.pos}
		if !seen[key] {
			seen[key] = true
			r = append(r, k)
		}
	}
	return r
}

// powerOf recognises an element of 1, τ, τ², …: the product of the one before with something fixed.
func powerOf(t *Term) (d *muDef, n *Term, ok bool) {
	if t.op != "mu" && t.op != "muv" {
		return nil, nil, false
	}
	d = muDefs[t.sym]
	if d == nil || d.next == nil || d.self == nil {
		return nil, nil, false
	}
	x := d.next
	for x.op == "app" && (x.sym == "Zr.Mod" || x.sym == "Zr.Copy") && len(x.args) > 0 {
		x = x.args[0]
	}
	if x.op == "app" && (x.sym == "Zr.Mul" || x.sym == "Curve.ModMul") {
		self, digest := false, false
		for _, a := range x.args {
			if a == d.self {
				self = true
			} else if len(challengesIn(a, nil)) > 0 && !a.hasFV(loopVar(d.loop)) {
				digest = true
			}
		}
		return d, t.args[0], self && digest
	}
	return d, t.args[0], false
}

// sameCoefficient compares two resolved coefficients.
func sameCoefficient(fs []*Term, a, b *Term) int {
	if a == b {
		return equal
	}
	for i, x := range []*Term{a, b} {
		if x.op != "choice" {
			continue
		}
		y := []*Term{b, a}[i]
		ps, alts := choiceAlts(x)
		r := apart
		for k, alt := range alts {
			g := with(fs, edgeFacts(x.sym, ps, k)...)
			if refute(relevant(g, nil)) {
				continue
			}
			switch sameCoefficient(g, alt, y) {
			case equal:
				return equal
			case unknown:
				r = unknown
			}
		}
		return r
	}
	for i, x := range []*Term{a, b} {
		if x.op != "el" || x.args[0].op != "cat" {
			continue
		}
		// an element of one of two parts
		y, q := []*Term{b, a}[i], x.args[0]
		l, r := lenOf(q.args[0]), apart
		for k, part := range []*Term{elAt(q.args[0], x.args[1]), elAt(q.args[1], subT(x.args[1], l))} {
			at := lt(x.args[1], l)
			if k == 1 {
				at = not(at)
			}
			g := with(fs, at)
			if refute(relevant(g, nil)) {
				continue
			}
			part = forceElem(newResolver(g).deep(forceElem(part, 0)), 0)
			for part.op == "app" && (part.sym == "Zr.Mod" || part.sym == "Zr.Copy") && len(part.args) > 0 {
				part = forceElem(part.args[0], 0)
			}
			switch sameCoefficient(g, part, y) {
			case equal:
				return equal
			case unknown:
				r = unknown
			}
		}
		return r
	}
	if a.op == b.op && a.sym == b.sym && (a.op == "mu" || a.op == "muv") {
		if d := muDefs[a.sym]; d != nil && d.next != nil && d.self != nil && has(alternatives(d.next), d.self) && a.args[0] != b.args[0] {
			return equal // some steps leave it as it is
		}
	}
	if x, y := memoised(a), memoised(b); x != nil && y != nil {
		// kept in a map: whatever was computed for the same key
		r := intsCompare(fs, x, y)
		if r == unknown && x.op == "el" && y.op == "el" && x.args[0] == y.args[0] && free(x.args[0]) {
			r = equal
		}
		return r
	}
	if da, na, ok := powerOf(a); ok {
		if db, nb, ok := powerOf(b); ok && da == db {
			return intsCompare(fs, na, nb)
		}
		return unknown
	}
	if x, y := plainChallenge(a), plainChallenge(b); x != nil && y != nil {
		return compare(fs, x, y)
	}
	if a.op == "app" && b.op == "app" && a.sym == "Zr.PowMod" && b.sym == "Zr.PowMod" && len(a.args) == 2 && len(b.args) == 2 && a.args[0] == b.args[0] {
		return compare(fs, a.args[1], b.args[1])
	}
	return unknown
}

// memoised: the key of a value read from a map that a loop fills.
func memoised(t *Term) *Term {
	if t.op != "mget" {
		return nil
	}
	m := t.args[0]
	for m.op == "valc" {
		m = m.args[0]
	}
	if m.op != "mu" && m.op != "muv" {
		return nil
	}
	return t.args[1]
}

// free: a vector that is given, whose elements may be equal.
func free(t *Term) bool {
	return t.op == "in" || t.op == "fld" || t.op == "callfn" || t.op == "app" && t.sym == "callfn"
}

// plainChallenge: the digest a scalar is read from, nil when the scalar is computed further.
func plainChallenge(t *Term) *Term {
	if t.op != "app" || t.sym != "Curve.NewZrFromBytes" {
		return nil
	}
	x := challengesIn(t, nil)
	if len(x) != 1 {
		return nil
	}
	return x[0].t
}

// distinct: the coefficients of one batch, taken together, belong to different queries.
func (c *Ctx) distinct(cc *chalCtx, ks []coefficient) {
	for i, a := range ks {
		ta := a.resolved(cc.fs)
		// all alternatives come from the hash
		if _, _, pow := powerOf(ta); !pow {
			fixed, plain := false, true
			for _, x := range alternatives(ta) {
				if x.op == "mget" {
					plain = false // compared below
				} else if len(challengesIn(x, nil)) == 0 {
					fixed = true
				} else if plainChallenge(x) == nil {
					plain = false
				}
			}
			ok := !fixed || !plain
			c.oblige(ok, cc.name+"/"+a.of+"/derived", cc.site, fmt.Sprintf("%s: a coefficient of %s may be a value no hash determines: %s", cc.name, a.of, describe(ta)))
			c.wide(cc, a)
		}
		for j := i; j < len(ks); j++ {
			b := ks[j]
			one := a.of == b.of
			if i == j && (a.pos == nil || !variable(a.pos)) {
				continue
			}
			if one && (a.pos == nil) != (b.pos == nil) {
				continue
			}
			b = b.primed()
			fs := with(with(cc.fs, a.conds...), b.conds...)
			if one && a.pos != nil {
				if a.pos == b.pos {
					continue
				}
				fs = append(fs, not(eqInt(a.pos, b.pos)))
			}
			if refute(relevant(fs, nil)) {
				continue
			}
			tb := b.resolved(cc.fs)
			r := sameCoefficient(fs, ta, tb)
			key := cc.name + "/" + a.of
			msg := fmt.Sprintf("%s: two positions of %s share a coefficient: %s", cc.name, a.of, describe(ta))
			if !one {
				key += "-" + b.of
				msg = fmt.Sprintf("%s: %s and %s share a coefficient: %s and %s", cc.name, a.of, b.of, describe(ta), describe(tb))
			}
			if r == unknown {
				c.note("%s: not compared: %s | %s", key, describe(ta), describe(tb))
			}
			c.oblige(r != equal, key, cc.site, msg)
		}
	}
}

func variable(t *Term) bool {
	r := false
	walk(t, func(x *Term) bool {
		if x.op == "lv" && t.hasFV(x) {
			r = true
		}
		return !r
	})
	return r
}

// wide: the position enters the hash with enough bits.
func (c *Ctx) wide(cc *chalCtx, k coefficient) {
	if k.pos == nil || !variable(k.pos) {
		return
	}
	var lv *Term
	walk(k.pos, func(x *Term) bool {
		if x.op == "lv" && k.pos.hasFV(x) {
			lv = x
		}
		return true
	})
	p := in("δpos")
	// shift so that the position itself is the symbol
	off := subT(k.pos, lv)
	if _, ok := off.intVal(); !ok {
		return
	}
	m := map[*Term]*Term{lv: subT(p, off)}
	t := coefficient{exp: subst(k.exp, m)}
	for _, x := range k.conds {
		t.conds = append(t.conds, subst(x, m))
	}
	ds := challengesIn(t.resolved(cc.fs), nil)
	if len(ds) != 1 {
		return
	}
	bits := bitsAbsorbed(ds[0].t, p)
	if bits == 0 {
		return // encoded in another way, or compared as not different
	}
	c.oblige(bits&0xffffffff == 0xffffffff, cc.name+"/"+k.of+"/width", cc.site, fmt.Sprintf("%s: the queries for %s contain only part of the position", cc.name, k.of))
}

// equalityOracle: the random oracle the liability verifier hands to the equality argument.
func (c *Ctx) equalityOracle(lv *ssa.Function, eqs *ssa.Function, atomic ...*ssa.Function) *Term {
	s := c.session(append(atomic, eqs)...)
	s.call(lv, entryArgs(lv)...)
	name := ""
	if t := typeStruct(eqs.Params[0].Type()); t != nil {
		for i := 0; i < t.NumFields(); i++ {
			if _, ok := t.Field(i).Type().Underlying().(*types.Signature); ok {
				name = t.Field(i).Name()
			}
		}
	}
	var ro *Term
	for _, e := range s.in.Events {
		if e.Kind != "atomic" || e.Name != eqs.String() || len(e.Args) == 0 {
			continue
		}
		x := s.in.load(e.St, fieldAddr(e.Args[0], name), nil)
		if x != nil && (x.op == "func" || x.op == "closure") {
			ro = x
		}
	}
	return ro
}

func typeStruct(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func checkC18(c *Ctx) {
	ppv, ppa := c.fn("pp", "Verify"), c.fn("pp", "VerifyAggregation")
	eqs, eq1 := c.method("poe", "Equalities", "Verify"), c.method("poe", "Equality", "Verify")
	sv, sva := c.method("sum", "Proof", "Verify"), c.method("sum", "Proof", "VerifyAggregated")
	vr, iv := c.fn("bp", "VerifyRange"), c.fn("bp", "IterativeVerify")
	ipa := c.method("bp", "InnerProductProof", "Verify")
	lv := c.method("pol", "LiabilityProof", "Verify")
	ppRO, poeRO := c.fn("pp", "RO"), c.fn("poe", "RO")
	if len(c.lost) > 0 {
		return
	}
	one := func(cc *chalCtx, sides ...coefficientSide) {
		var ks []coefficient
		for _, s := range sides {
			k := coefficientsOf(cc.fs, cc.all, s.name, s.t)
			c.oblige(len(k) > 0, cc.name+"/"+s.name+"/exists", cc.site, fmt.Sprintf("%s: no hash-derived coefficient is applied to %s", cc.name, s.name))
			ks = append(ks, k...)
		}
		c.distinct(cc, ks)
	}

	args := entryArgs(ppa.fn)
	for i, p := range ppa.fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			args[i] = funcTerm(ppRO.fn)
		}
	}
	if cc, r := c.chalCtx("aggregated opening", ppa, args, nil, nil); cc != nil {
		if cs := paramOf(r, "common.G1v", 0); cs != nil {
			one(cc, coefficientSide{"the commitments", cs})
		}
	}
	if cc, _ := c.chalCtx("liability", lv, nil, nil, nil, ppv, eqs, eq1, sv, sva, vr, iv, ipa); cc != nil {
		one(cc, coefficientSide{"W", fld(in("recv"), "W")})
	}
	ro := c.equalityOracle(lv.fn, eqs.fn, ppv.fn, ppa.fn, eq1.fn, sv.fn, sva.fn, vr.fn, iv.fn, ipa.fn)
	if ro == nil {
		ro = funcTerm(poeRO.fn)
		c.note("oracle of the equality argument not recognised, %s used", shortFn(poeRO.fn))
	}
	set := setROTerm(ro)
	e := in("recv")
	if cc, _ := c.chalCtx("equality", eq1, nil, set, nil, ppv, ppa, ipa); cc != nil {
		one(cc, coefficientSide{"V", fld(e, "V")}, coefficientSide{"W", fld(e, "W")})
	}
	if cc, _ := c.chalCtx("aggregated equality", eqs, nil, set, nil, ppv, ppa, ipa); cc != nil {
		one(cc, coefficientSide{"V", fld(e, "V")}, coefficientSide{"W", fld(e, "W")})
	}
	if cc, r := c.chalCtx("aggregated sum argument", sva, nil, nil, nil, sv, ipa); cc != nil {
		if V := paramOf(r, "common.G1v", 0); V != nil {
			one(cc, coefficientSide{"V", V})
		}
	}
}

type coefficientSide struct {
	name string
	t    *Term
}
