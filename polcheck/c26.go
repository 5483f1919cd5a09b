package main

import (
	"strings"
)

// C26: every part of a liability proof is made from what its vertex commits to.

func init() {
	register("C26", "ProveLiability is analysed with its component provers uninterpreted; the witness of each (vector, element by element, and blinding factor) is compared with the fields of the vertex whose commitment the part is about", checkC26)
}

type witnesses struct {
	*agreeRun
	fan *Term
	// what is committed in a vertex, at a position: from the range proof of the vertex
	base, round *Term
	vector      *Term
	loop        *Term
}

func checkC26(c *Ctx) {
	parts := c.components()
	for _, p := range parts {
		if p.verify == nil || p.prove == nil {
			return
		}
	}
	run, pub := c.proven(parts)
	if run == nil {
		return
	}
	w := &witnesses{agreeRun: run, fan: fld(pub, "Fanout")}
	in := run.s.in
	var ranges, sums, eqs, opens, digests []*Event
	for _, e := range in.Events {
		if e.Kind != "atomic" {
			continue
		}
		switch e.Name {
		case parts[0].prove.fn.String():
			ranges = append(ranges, e)
		case parts[1].prove.fn.String():
			eqs = append(eqs, e)
		case parts[2].prove.fn.String():
			sums = append(sums, e)
		case parts[3].prove.fn.String():
			digests = append(digests, e)
		case parts[4].verify.fn.String():
			opens = append(opens, e)
		}
	}
	for _, e := range ranges {
		w.rangeProof(e)
	}
	if w.base == nil {
		c.oblige(true, "range/followed", c.p.pos(parts[0].prove.fn.Pos()), "")
		c.note("no range proof could be followed to a vertex")
		return
	}
	for _, e := range sums {
		fs := w.facts(e)
		w.each(fs, "sum", c.eventSite(e), in.deepArg(e, 1), in.deepArg(e, 2), in.deepArg(e, 3))
	}
	for _, e := range eqs {
		fs := w.facts(e)
		st := resolve(fs, in.deepArg(e, 0))
		f := map[string]*Term{}
		if st.op == "struct" {
			for i, n := range strings.Split(st.sym, ",")[1:] {
				f[n] = st.args[i]
			}
		}
		if f["V"] == nil || f["W"] == nil {
			c.note("equalities not followed")
			continue
		}
		w.each(fs, "equality/V", c.eventSite(e), f["V"], in.deepArg(e, 1), nil)
		w.each(fs, "equality/W", c.eventSite(e), f["W"], in.deepArg(e, 2), nil)
	}
	for _, e := range digests {
		w.digests(w.facts(e), c.eventSite(e), in.deepArg(e, 1), in.deepArg(e, 2))
	}
	for _, e := range opens {
		fs := w.facts(e)
		pf := resolve(fs, in.deepArg(e, 2))
		if pf.op != "app" || pf.sym != "pred:"+parts[4].prove.fn.String()+".1" {
			continue
		}
		w.witness(fs, "opening", c.eventSite(e), in.deepArg(e, 3), pf.args[2], nil)
	}
}

func (w *witnesses) facts(e *Event) []*Term { return settled(saturate(e.St.factList(), nil)) }

// vertex: the vertex of which t is the value commitment.
func (w *witnesses) vertex(t *Term) *Term {
	if t.op == "fld" && t.sym == "V" {
		return t.args[0]
	}
	return nil
}

func (w *witnesses) rangeProof(e *Event) {
	c, in := w.c, w.s.in
	fs := w.facts(e)
	if has(fs, tFalse) {
		return
	}
	site := c.eventSite(e)
	x := w.vertex(resolve(fs, in.deepArg(e, 1)))
	if x == nil || x.op != "el" {
		c.note("range proof not followed to a vertex")
		return
	}
	w.agrees(fs, "range/blinding", site, in.deepArg(e, 3), fld(x, "BlindingFactor"), "the range proof of a vertex is made with another blinding factor than its own")
	v := in.deepArg(e, 2)
	w.agrees(fs, "range/length", site, lenOf(v), addK(w.fan, 1), "the vector of a range proof has another length")
	// a stored value at its own position
	d, h := w.g.round(fs, w.fan)
	if h == nil {
		return
	}
	rs := newResolver(h)
	el := rs.elem(rs.head(v), d)
	if el.op == "el" && isSeq(el.args[0]) {
		c.note("range: vector not followed")
		return
	}
	w.stored(h, "range/value", site, el, x, d)
	last := resolve(fs, newResolver(fs).elem(newResolver(fs).head(v), w.fan))
	w.ofVertex(fs, "range/sum", site, last, x)
	c.oblige(!hasOp(last, "mget"), "range/sum-position", site, "the last position of a vertex's vector holds a child's value instead of the sum")
	if x.args[1].op == "lv" {
		w.base, w.round, w.vector = x.args[0], x.args[1], v
	}
}

// stored: what is at position d is looked up in the vertex under d.
func (w *witnesses) stored(h []*Term, key, site string, t, x, d *Term) {
	n := 0
	walk(t, func(y *Term) bool {
		if y.op == "mget" && len(y.args) == 2 {
			n++
			w.agrees(h, key+"/position", site, y.args[1], d, "a vertex's vector holds at a position what is stored under another")
		}
		return true
	})
	if n == 0 {
		w.c.note("%s: no lookup followed in %s", key, describe(t))
	}
	w.ofVertex(h, key, site, t, x)
}

// ofVertex: every vertex that t is taken from is x.
func (w *witnesses) ofVertex(fs []*Term, key, site string, t, x *Term) {
	w.c.oblige(true, key+"/vertex", site, "")
	walk(t, func(y *Term) bool {
		if y.op == "el" && y.args[0] == x.args[0] {
			w.agrees(fs, key+"/vertex", site, y.args[1], x.args[1], "the witness is taken from another vertex than the commitment")
			return false
		}
		return true
	})
}

// committed: what the vertex commits to at position d, as the range proofs have it.
func (w *witnesses) committed(fs []*Term, x, d *Term) *Term {
	v := subst(w.vector, map[*Term]*Term{w.round: x.args[1]})
	rs := newResolver(fs)
	return rs.elem(rs.head(v), d)
}

// each: the commitments of a list, with their vectors and blinding factors.
func (w *witnesses) each(fs []*Term, key, site string, commitments, vectors, blindings *Term) {
	if has(fs, tFalse) {
		return
	}
	w.g.fresh++
	x := in("δ" + itoa(w.g.fresh) + "·")
	w.g.cases(with(fs, ge0(x), lt(x, lenOf(commitments))), x, []*Term{newResolver(fs).head(commitments)}, func(h []*Term) {
		h = settled(h)
		rs := newResolver(h)
		var r *Term
		if blindings != nil {
			r = rs.elem(rs.head(blindings), x)
		}
		w.witness(h, key, site, rs.elem(rs.head(commitments), x), rs.elem(rs.head(vectors), x), r)
	})
}

// digests: the aggregated openings are of the vectors of digests of the vertices whose digest
// commitments they are about.
func (w *witnesses) digests(fs []*Term, site string, commitments, proofs *Term) {
	if has(fs, tFalse) {
		return
	}
	x, h := w.g.round(fs, lenOf(commitments))
	if h == nil {
		return
	}
	W, one := w.g.nth(h, commitments, x), w.g.nth(h, proofs, x)
	if W.op != "fld" || W.sym != "W" || W.args[0].op != "el" || W.args[0].args[0] != w.base {
		w.c.note("digests: commitment not followed to a vertex: %s", describe(W))
		return
	}
	v := W.args[0]
	if one.op != "app" || !strings.HasPrefix(one.sym, "pred:") || !strings.HasSuffix(one.sym, "pp.Open.1") {
		w.c.note("digests: opening not followed: %s", describe(one))
		return
	}
	vec := one.args[2]
	w.agrees(h, "digests/length", site, lenOf(vec), addK(w.fan, 2), "the vector of digests opened has another length than the one committed to")
	d, g := w.g.round(h, lenOf(vec))
	if g == nil {
		return
	}
	rs := newResolver(g)
	el := rs.elem(rs.head(vec), d)
	if el.op == "el" && isSeq(el.args[0]) {
		w.c.note("digests: vector not followed")
		return
	}
	w.stored(g, "digests/value", site, el, v, d)
}

// witness: the vector and the blinding factor that prove something about a commitment.
func (w *witnesses) witness(fs []*Term, key, site string, V, vec, r *Term) {
	V, vec = resolve(fs, V), resolve(fs, vec)
	if V.op == "app" && strings.HasPrefix(V.sym, "pred:") && strings.HasSuffix(V.sym, ".Commit") && len(V.args) == 2 {
		w.agrees(fs, key+"/padding", site, vec, V.args[1], "the padding is proven for another vector than the one committed to")
		return
	}
	x := w.vertex(V)
	if x == nil || x.op != "el" || x.args[0] != w.base {
		w.c.note("%s: commitment not followed to a vertex: %s", key, V.str(9))
		return
	}
	if isSeq(vec) {
		d, h := w.g.round(fs, addK(w.fan, 1))
		// the sum and the values are told apart
		for i, f := range []*Term{lt(d, w.fan), eqInt(d, w.fan)} {
			g := saturate(with(h, f), []*Term{d})
			if has(g, tFalse) {
				continue
			}
			rs := newResolver(g)
			w.agrees(g, key+"/"+[]string{"value", "sum"}[i], site, rs.elem(rs.head(vec), d), w.committed(g, x, d), "the vector proven differs from the one committed to")
		}
		if r == nil {
			rs := newResolver(fs)
			at := addK(w.fan, 1)
			w.agrees(fs, key+"/length", site, lenOf(vec), addK(w.fan, 2), "the vector proven has another length than the one committed to")
			w.agrees(fs, key+"/blinding", site, rs.elem(rs.head(vec), at), fld(x, "BlindingFactor"), "the vector proven ends with another blinding factor than its vertex's")
		} else {
			w.agrees(fs, key+"/length", site, lenOf(vec), addK(w.fan, 1), "the vector proven has another length than the one committed to")
		}
	} else {
		w.c.note("%s: vector not followed: %s", key, describe(vec))
	}
	if r != nil {
		w.agrees(fs, key+"/blinding", site, r, fld(x, "BlindingFactor"), "another blinding factor is used than the vertex's")
	}
}

func (w *witnesses) agrees(fs []*Term, key, site string, a, b *Term, msg string) {
	w.oblige(fs, key, site, a, b, msg)
}
