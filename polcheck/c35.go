package main

// C35: the vector commitment.

func init() {
	register("C35", "the commitment, the opening at a position, the update and the aggregation are summarised and compared, as sums of one term per position over the elements of the parameters and of the vector, with the scheme's formulas; the facts that hold when a verifier accepts contain the scheme's equation between pairings", checkC35)
}

type scheme struct {
	*Ctx
}

func checkC35(c *Ctx) {
	s := &scheme{c}
	s.commit()
	s.open()
	s.update()
	s.aggregate()
	s.verify()
	s.verifyAggregation()
}

func (s *scheme) say(k int, key, site, msg, why string) {
	if k == unknown {
		s.note("%s: not followed", key)
	}
	if why != "" {
		msg += ": " + why
	}
	s.oblige(k != apart, key, site, msg)
}

func (s *scheme) of(name string, params int) *result {
	f := s.fn("pp", name)
	if f == nil {
		return nil
	}
	r := s.analyse(f.fn)
	if len(r.args) != params {
		s.lose("pp.%s has other parameters", name)
		return nil
	}
	if r.dead {
		s.oblige(false, "pp."+name+"/returns", s.siteOf(f.fn), "pp."+name+" never returns")
		return nil
	}
	return r
}

func (r *result) value(k int) *Term {
	res := r.fn.Signature.Results()
	t := r.ret
	if res.Len() > 1 {
		if t.op != "tuple" {
			return t
		}
		t = t.args[k]
	}
	return r.in.deep(r.st, t, res.At(k).Type(), 0)
}

func (r *result) facts() []*Term { return saturate(r.st.factList(), nil) }

func (s *scheme) commit() {
	r := s.of("Commit", 2)
	if r == nil {
		return
	}
	pp, m := r.args[0], r.args[1]
	k, why := s.sum(r, []*Term{m, fld(pp, "G1s")}, fld(pp, "N"), func(i *Term) *Term {
		return app("G1.Mul", elAt(fld(pp, "G1s"), i), elAt(m, i))
	})
	s.say(k, "commit", s.siteOf(r.fn), "a commitment is not the sum of the generators scaled by the elements of the vector", why)
}

// sum: the result is the sum of each(i) for the positions up to n.
func (s *scheme) sum(r *result, ops []*Term, n *Term, each func(i *Term) *Term) (int, string) {
	fs, v := r.facts(), r.value(0)
	f := &fold{c: s.Ctx, ops: ops, n: n, each: each}
	k, why := f.is(fs, v)
	if k == unknown {
		return s.selection(fs, v, n, each, nil)
	}
	return k, why
}

func (s *scheme) open() {
	r := s.of("Open", 3)
	if r == nil {
		return
	}
	site := s.siteOf(r.fn)
	pp, i, m := r.args[0], r.args[1], r.args[2]
	n := fld(pp, "N")
	fs := r.facts()
	k, why := s.equalValues(fs, r.value(0), elAt(m, i))
	s.say(k, "open/value", site, "an opening states another value than the element of the vector", why)
	each := func(x *Term) *Term {
		return app("G1.Mul", elAt(fld(pp, "G1s"), add(subT(n, i), x)), elAt(m, x))
	}
	res, text := s.selection(fs, r.value(1), n, each, i)
	s.say(res, "open/proof", site, "an opening is not the sum the scheme has for it", text)
}

// selection: v is the sum of each(x) for the positions up to n but one (if any).
func (s *scheme) selection(fs []*Term, v, n *Term, each func(x *Term) *Term, but *Term) (int, string) {
	v = newResolver(fs).head(v)
	points, scalars := comprehensions(v)
	if points == nil {
		return unknown, ""
	}
	one := func(p, q *Term) *Term {
		if q == nil {
			return p
		}
		return app("G1.Mul", p, q)
	}
	f := &fold{c: s.Ctx, ops: []*Term{points}, n: lenOf(points), each: func(x *Term) *Term {
		if scalars == nil {
			return elAt(points, x)
		}
		return one(elAt(points, x), elAt(scalars, x))
	}}
	if k, why := f.is(fs, v); k != equal {
		return k, why
	}
	if k, why := sameLength(fs, points.args[1], n); k != equal {
		return k, why
	}
	x := in("δ")
	h := saturate(with(fs, ge0(x), lt(x, n)), []*Term{x})
	at := func(t *Term) *Term { return subst(t.args[2], map[*Term]*Term{loopVar(t.sym): x}) }
	pieces := []*Term{at(points)}
	if scalars != nil {
		pieces = append(pieces, at(scalars))
	}
	res, text := equal, ""
	splitCases(h, 0, func(h []*Term, ts []*Term) {
		if res == apart {
			return
		}
		none, single := true, true
		for _, p := range ts {
			none = none && p.op == "lit" && len(p.args) == 0
			single = single && p.op == "lit" && len(p.args) == 1
		}
		switch {
		case none:
			if but != nil && entails(h, eqInt(x, but)) {
				return
			}
			a := newAlgebra(s.Ctx, h)
			switch a.decide(a.nf(each(x))) {
			case apart:
				res, text = apart, "a position is left out"
			case unknown:
				res = unknown
			}
		case single:
			if but != nil && !contradicts(h, eqInt(x, but)) {
				res, text = apart, "the position itself takes part"
				return
			}
			v := ts[0].args[0]
			if len(ts) > 1 {
				v = one(v, ts[1].args[0])
			}
			k, w := s.equalValues(h, v, each(x))
			switch k {
			case apart:
				res, text = apart, w
			case unknown:
				res = unknown
			}
		default:
			res = unknown
		}
	}, pieces...)
	return res, text
}

// comprehensions: the selection a sum goes through, or the two of which it multiplies the elements pairwise.
func comprehensions(v *Term) (points, scalars *Term) {
	seen := map[*Term]bool{}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		good := true
		walk(t, func(x *Term) bool {
			if x.op == "app" && x.sym == "G1.Mul" && len(x.args) == 2 {
				p, q := x.args[0], x.args[1]
				if selected(p) != nil && selected(q) != nil && selected(p).sym == selected(q).sym {
					if points == nil {
						points, scalars = selected(p), selected(q)
					}
					good = good && points == selected(p) && scalars == selected(q)
					return false
				}
			}
			if p := selected(x); p != nil {
				if points == nil {
					points = p
				}
				good = good && points == p && scalars == nil
				return false
			}
			if x.op == "mu" && !seen[x] {
				seen[x] = true
				if d := muDefs[x.sym]; d != nil && d.next != nil {
					good = good && ok(d.init) && ok(d.next)
				}
			}
			return true
		})
		return good
	}
	if !ok(v) {
		return nil, nil
	}
	return
}

func selected(t *Term) *Term {
	if t.op == "el" && t.args[0].op == "lcat" && lenOf(t.args[0].args[0]) == zeroInt {
		return t.args[0]
	}
	return nil
}

func (s *scheme) update() {
	r := s.of("Update", 5)
	if r == nil {
		return
	}
	pp, com, m, mi, i := r.args[0], r.args[1], r.args[2], r.args[3], r.args[4]
	v := r.in.deep(r.st, com, r.fn.Params[1].Type(), 0)
	g := elAt(fld(pp, "G1s"), i)
	e := app("G1.Add", app("G1.Sub", com, app("G1.Mul", g, elAt(m, i))), app("G1.Mul", g, mi))
	k, why := s.equalValues(r.facts(), v, e)
	s.say(k, "update", s.siteOf(r.fn), "an update does not exchange the element of its position", why)
}

func (s *scheme) aggregate() {
	r := s.of("Aggregate", 4)
	if r == nil {
		return
	}
	pp, coms, proofs, ro := r.args[0], r.args[1], r.args[2], r.args[3]
	k, why := s.sum(r, []*Term{proofs}, lenOf(proofs), func(i *Term) *Term {
		return app("G1.Mul", elAt(proofs, i), app("callfn", ro, pp, coms, i))
	})
	s.say(k, "aggregate", s.siteOf(r.fn), "an aggregate is not the sum of the proofs with their coefficients", why)
}

func pairing(p, q *Term) *Term {
	c := mk("glob", "pol/common.c")
	return app("Curve.FExp", c, app("Curve.Pairing", c, q, p))
}

// equations: what is equal in the target group when r accepts.
func (r *result) equations() [][2]*Term {
	var out [][2]*Term
	for _, f := range r.accepting() {
		if f.op == "app" && f.sym == "Gt.Equals" {
			out = append(out, [2]*Term{f.args[0], f.args[1]})
		}
		if f.op == "app" && f.sym == "Gt.IsUnity" {
			out = append(out, [2]*Term{f.args[0], app("Gt.Mul", f.args[0], app("Gt.Inverse", f.args[0]))})
		}
	}
	return out
}

func (s *scheme) verify() {
	r := s.of("Verify", 5)
	if r == nil {
		return
	}
	pp, mi, proof, com, i := r.args[0], r.args[1], r.args[2], r.args[3], r.args[4]
	fs := saturate(r.accepting(), nil)
	site := s.siteOf(r.fn)
	left := pairing(com, elAt(fld(pp, "G2s"), addK(subT(subT(fld(pp, "N"), i), zeroInt), -1)))
	right := app("Gt.Mul", pairing(proof, generator("GenG2")), app("Gt.Exp", fld(pp, "Gt"), mi))
	e := app("Gt.Mul", left, app("Gt.Inverse", right))
	best, text := apart, "no equation is checked"
	for _, q := range r.equations() {
		for _, d := range []*Term{app("Gt.Mul", q[0], app("Gt.Inverse", q[1])), app("Gt.Mul", q[1], app("Gt.Inverse", q[0]))} {
			k, why := s.equalIn(fs, d, e)
			if k == equal {
				best = equal
			}
			if k == unknown && best == apart {
				best = unknown
			}
			if best == apart {
				text = why
			}
		}
	}
	if len(r.equations()) == 0 {
		for _, f := range fs {
			if readsWhole(f) || f.op == "app" && f.sym == "Gt.IsUnity" {
				best = unknown
			}
		}
	}
	s.say(best, "verify/equation", site, "an opening is accepted on another equation than the scheme's", text)
	s.refusals(r, "verify", []*Term{ge0(i), lt(i, fld(pp, "N"))}, pp)
}

// equalIn: two values compared without what the facts say of the values compared in them.
func (s *scheme) equalIn(fs []*Term, v, e *Term) (int, string) {
	var gs []*Term
	for _, f := range fs {
		if f.op == "app" && (f.sym == "Gt.Equals" || f.sym == "Gt.IsUnity") {
			continue
		}
		gs = append(gs, f)
	}
	return s.equalValues(gs, v, e)
}

func (s *scheme) verifyAggregation() {
	r := s.of("VerifyAggregation", 6)
	if r == nil {
		return
	}
	pp, idx, coms, proof, sum, ro := r.args[0], r.args[1], r.args[2], r.args[3], r.args[4], r.args[5]
	site := s.siteOf(r.fn)
	var fs []*Term
	for _, f := range saturate(r.accepting(), nil) {
		if f.op != "app" || f.sym != "Gt.Equals" && f.sym != "Gt.IsUnity" {
			fs = append(fs, f)
		}
	}
	right := app("Gt.Mul", pairing(proof, generator("GenG2")), app("Gt.Exp", fld(pp, "Gt"), sum))
	f := &fold{c: s.Ctx, ops: []*Term{coms}, n: lenOf(coms), each: func(i *Term) *Term {
		g := elAt(fld(pp, "G2s"), addK(subT(fld(pp, "N"), elAt(idx, i)), -1))
		return pairing(elAt(coms, i), app("G2.Mul", g, app("callfn", ro, pp, coms, i)))
	}}
	best, text := apart, "no equation is checked"
	for _, q := range r.equations() {
		for k := 0; k < 2; k++ {
			p, w := f.is(fs, q[k])
			u, y := s.equalValues(fs, q[1-k], right)
			switch {
			case p == equal && u == equal:
				best = equal
			case p == unknown && u != apart || u == unknown && p != apart:
				if best == apart {
					best = unknown
				}
			case p == equal || u == equal:
				// one side is the scheme's, and the other is not
				text = w + y
			default:
				// sums moved to the other side
				if best == apart && !(p == apart && u == apart) {
					best = unknown
				}
			}
		}
	}
	s.say(best, "verifyAggregation/equation", site, "an aggregate is accepted on another equation than the scheme's", text)
	s.refusals(r, "verifyAggregation", []*Term{eqInt(lenOf(idx), lenOf(coms)), lt(zeroInt, lenOf(coms))}, pp)
}

// refusals: nothing of the right shape is refused before the equation is looked at.
func (s *scheme) refusals(r *result, key string, shape []*Term, pp *Term) {
	t := newResolver(r.st.factList()).head(r.ret)
	if t.op != "choice" {
		return
	}
	n := fld(pp, "N")
	shape = append(shape, eqInt(lenOf(fld(pp, "G1s")), mulK(n, 2)), eqInt(lenOf(fld(pp, "G2s")), n), lt(zeroInt, n))
	ps, alts := choiceAlts(t)
	var rec func(fs []*Term, t *Term, d int)
	rec = func(fs []*Term, t *Term, d int) {
		if t.op == "choice" && d < 6 {
			ps, alts := choiceAlts(t)
			for k, a := range alts {
				h := saturate(with(fs, edgeFacts(t.sym, ps, k)...), nil)
				if !has(h, tFalse) {
					rec(h, a, d+1)
				}
			}
			return
		}
		if t.op == "nil" {
			return
		}
		seen := false
		for _, f := range fs {
			if f.op == "not" && f.args[0].op == "app" && (f.args[0].sym == "Gt.Equals" || f.args[0].sym == "Gt.IsUnity" || f.args[0].sym == "bytes.Equal") {
				seen = true
			}
			// what is not there
			if f.op == "eq" && (f.args[0].op == "nil" || f.args[1].op == "nil") {
				seen = true
			}
		}
		if seen || noWay(with(fs, shape...), 0) {
			s.oblige(true, key+"/refused", s.siteOf(r.fn), "")
			return
		}
		for _, f := range fs {
			if hasOp(f, "trip") || hasOp(f, "brk") {
				s.note("%s: a refusal was not followed", key)
				return
			}
		}
		s.oblige(false, key+"/refused", s.siteOf(r.fn), "something of the right shape is refused without a look at the equation")
	}
	for k, a := range alts {
		h := saturate(with(r.st.factList(), edgeFacts(t.sym, ps, k)...), nil)
		if !has(h, tFalse) {
			rec(h, a, 0)
		}
	}
}

// noWay: the facts contradict each other, whichever way was taken.
func noWay(fs []*Term, d int) bool {
	if has(fs, tFalse) || refute(fs) {
		return true
	}
	if d > 3 {
		return false
	}
	for i, f := range fs {
		if f.op != "oneof" || tokens[f.sym] == nil {
			continue
		}
		rest := append(append([]*Term{}, fs[:i]...), fs[i+1:]...)
		for k := range tokens[f.sym].edges {
			if !noWay(saturate(with(rest, edgeFacts(f.sym, f.args, k)...), nil), d+1) {
				return false
			}
		}
		return true
	}
	return false
}
