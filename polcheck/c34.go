package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C34: vector operations compute at every position what they are named for.

func init() {
	register("C34", "each vector operation is summarised; the value at a generic position of its result is compared, as a polynomial over the elements of its operands, with the value the operation is named for at that position; sums and products are recurrences whose step is compared with the term of one position, and whose positions are shown to be each position exactly once", checkC34)
}

// vecOp: what an operation computes.
type vecOp struct {
	typ, name string
	// a sequence: its length and element
	n func(a []*Term) *Term
	// conditions under which the element differs
	at func(a []*Term, d *Term) []when
	// a sum of one term per position
	sum     func(a []*Term, i *Term) *Term
	product bool
	// a concatenation of one piece per position
	piece func(a []*Term, i *Term) *Term
	// a plain value
	val func(a []*Term) *Term
	// the receiver is changed
	inPlace bool
}

type when struct {
	cond *Term
	val  *Term
}

func always(v *Term) []when { return []when{{nil, v}} }

func recvLen(a []*Term) *Term { return lenOf(a[0]) }

func scalarT(n *Term) *Term { return app("Curve.NewZrFromInt", mk("glob", "pol/common.c"), n) }

func vecOps() []vecOp {
	zip := func(op string) func(a []*Term, d *Term) []when {
		return func(a []*Term, d *Term) []when { return always(app(op, elAt(a[0], d), elAt(a[1], d))) }
	}
	scale := func(op string) func(a []*Term, d *Term) []when {
		return func(a []*Term, d *Term) []when { return always(app(op, elAt(a[0], d), a[1])) }
	}
	self := func(a []*Term, i *Term) *Term { return elAt(a[0], i) }
	dup := vecOp{n: func(a []*Term) *Term { return a[1] }, at: func(a []*Term, d *Term) []when { return always(elAt(a[0], zeroInt)) }}
	half := func(k int) vecOp {
		return vecOp{
			n:  func(a []*Term) *Term { return app("div", lenOf(a[0]), intT(2)) },
			at: func(a []*Term, d *Term) []when { return always(elAt(a[0], addK(mulK(d, 2), int64(k)))) },
		}
	}
	reversed := vecOp{n: recvLen, at: func(a []*Term, d *Term) []when { return always(elAt(a[0], addK(subT(lenOf(a[0]), d), -1))) }}
	def := func(t, n string, o vecOp) vecOp { o.typ, o.name = t, n; return o }
	one := scalarT(intT(1))
	return []vecOp{
		def("Vec", "Add", vecOp{n: recvLen, at: zip("Zr.Plus")}),
		def("Vec", "Sub", vecOp{n: recvLen, at: func(a []*Term, d *Term) []when {
			return always(app("Zr.Minus", elAt(a[0], d), elAt(a[1], d)))
		}}),
		def("Vec", "HadamardProd", vecOp{n: recvLen, at: zip("Zr.Mul")}),
		def("Vec", "Mul", vecOp{n: recvLen, at: scale("Zr.Mul")}),
		def("Vec", "Evens", half(0)),
		def("Vec", "Odds", half(1)),
		def("Vec", "Reverse", reversed),
		def("Vec", "Concat", vecOp{n: func(a []*Term) *Term { return add(lenOf(a[0]), lenOf(a[1])) },
			at: func(a []*Term, d *Term) []when {
				return []when{{lt(d, lenOf(a[0])), elAt(a[0], d)}, {le(lenOf(a[0]), d), elAt(a[1], subT(d, lenOf(a[0])))}}
			}}),
		def("Vec", "PowBitVec", vecOp{n: recvLen, at: func(a []*Term, d *Term) []when {
			z := eqInt(elAt(a[1], d), zeroInt)
			return []when{{z, one}, {not(z), elAt(a[0], d)}}
		}}),
		def("Vec", "Zero", vecOp{n: recvLen, inPlace: true, at: func(a []*Term, d *Term) []when { return always(scalarT(zeroInt)) }}),
		def("Vec", "Product", vecOp{sum: self, product: true}),
		def("Vec", "InnerProd", vecOp{sum: func(a []*Term, i *Term) *Term { return app("Zr.Mul", elAt(a[0], i), elAt(a[1], i)) }}),
		def("Vec", "Exp", vecOp{sum: func(a []*Term, i *Term) *Term { return app("G1.Mul", elAt(a[1], i), elAt(a[0], i)) }}),
		def("G1v", "Add", vecOp{n: recvLen, at: zip("G1.Add")}),
		def("G1v", "HadamardProd", vecOp{n: recvLen, at: zip("G1.Add")}),
		def("G1v", "Neg", vecOp{n: recvLen, at: func(a []*Term, d *Term) []when {
			return always(app("Gt.Inverse", elAt(a[0], d)))
		}}),
		def("G1v", "Mul", vecOp{n: recvLen, at: scale("G1.Mul")}),
		def("G1v", "MulV", vecOp{n: recvLen, at: zip("G1.Mul")}),
		def("G1v", "Sum", vecOp{sum: self}),
		def("G1v", "Duplicate", dup),
		def("G1v", "Bytes", vecOp{piece: func(a []*Term, i *Term) *Term { return app("G1.Bytes", elAt(a[0], i)) }}),
		def("G1v", "InnerProd", vecOp{sum: func(a []*Term, i *Term) *Term {
			c := mk("glob", "pol/common.c")
			return app("Curve.FExp", c, app("Curve.Pairing", c, elAt(a[1], i), elAt(a[0], i)))
		}}),
		def("G2v", "Add", vecOp{n: recvLen, at: zip("G2.Add")}),
		def("G2v", "Mul", vecOp{n: recvLen, at: scale("G2.Mul")}),
		def("G2v", "Mulv", vecOp{n: recvLen, at: zip("G2.Mul")}),
		def("G2v", "Sum", vecOp{sum: self}),
		def("G2v", "Duplicate", dup),
		def("G2v", "Bytes", vecOp{piece: func(a []*Term, i *Term) *Term { return app("G2.Bytes", elAt(a[0], i)) }}),
		def("", "NegZr", vecOp{val: func(a []*Term) *Term { return app("Zr.Minus", scalarT(zeroInt), a[0]) }}),
		def("", "IntToZr", vecOp{val: func(a []*Term) *Term { return scalarT(a[0]) }}),
		def("", "IntsToZr", vecOp{n: recvLen, at: func(a []*Term, d *Term) []when { return always(scalarT(elAt(a[0], d))) }}),
		def("", "Pow2", vecOp{val: func(a []*Term) *Term { return app("Zr.PowMod", scalarT(intT(2)), scalarT(a[0])) }}),
		def("", "ReverseBits", reversed),
	}
}

func checkC34(c *Ctx) {
	n := 0
	for _, o := range vecOps() {
		var f *ssa.Function
		if o.typ == "" {
			if r := c.p.Fn("common", o.name); r != nil {
				f = r
			}
		} else {
			f = c.p.Method("common", o.typ, o.name)
		}
		if f == nil {
			c.note("no %s.%s", o.typ, o.name)
			continue
		}
		n++
		c.vecOp(f, o)
	}
	if n == 0 {
		c.lose("no vector operation found")
	}
	bits := c.p.Fn("common", "Bits")
	if bits != nil {
		c.bitsOf(bits)
		if f := c.p.Method("common", "Vec", "Bits"); f != nil && len(f.Params) == 2 {
			c.bitsOfAll(f, bits)
		}
	}
	if f := c.p.Fn("common", "PowerSeries"); f != nil && len(f.Params) == 2 {
		c.powers(f)
	}
	if f := c.p.Fn("common", "IsPowerOfTwo"); f != nil && len(f.Params) == 1 {
		c.powerOfTwo(f)
	}
}

// bitsOf: bit k of the number is at position k, and nothing but zeros follows.
func (c *Ctx) bitsOf(f *ssa.Function) {
	r := c.analyse(f)
	name, site := shortFn(f), c.siteOf(f)
	if r.dead || len(r.args) != 2 || f.Signature.Results().Len() != 1 {
		c.note("%s not followed", name)
		return
	}
	fs := saturate(r.st.factList(), nil)
	v := r.in.deep(r.st, r.ret, f.Signature.Results().At(0).Type(), 0)
	n, want := r.args[0], r.args[1]
	res, why := equal, ""
	say := func(k int, w string) {
		if k == apart && res != apart {
			res, why = apart, w
		}
		if k == unknown && res == equal {
			res = unknown
		}
	}
	splitCases(fs, 0, func(fs []*Term, ts []*Term) {
		v := ts[0]
		if contradicts(fs, le(want, lenOf(v))) {
			say(apart, "fewer bits than asked for")
		} else if !entails(fs, le(want, lenOf(v))) {
			say(unknown, "")
		}
		// the number is used up
		var ends []*Term
		for _, g := range fs {
			if g.op != "eq0" {
				continue
			}
			if s := onlyAtom(g.args[0]); s != nil && s.op == "app" && s.sym == "Int.Sign" {
				if m := s.args[0]; m.op == "mu" && c.shifted(m, n) {
					ends = append(ends, m.args[0])
				}
			}
		}
		d := in("δ")
		g := &agreement{c: c}
		g.cases(with(fs, ge0(d), lt(d, lenOf(v))), d, []*Term{v}, func(h []*Term) {
			splitCases(h, 0, func(h []*Term, ts []*Term) {
				x := ts[0]
				over := false
				for _, e := range ends {
					over = over || entails(h, le(e, d))
				}
				for x.op == "app" && (strings.HasPrefix(x.sym, "conv:") && len(x.args) == 1 || x.sym == "bin:&" && len(x.args) == 2) {
					y := x.args[0]
					if x.sym == "bin:&" {
						switch {
						case entails(h, eqInt(x.args[1], intT(1))):
						case entails(h, eqInt(x.args[0], intT(1))):
							y = x.args[1]
						default:
							y = nil
						}
					}
					if y == nil {
						break
					}
					x = y
				}
				switch {
				case x.op == "app" && x.sym == "Int.Bit" && len(x.args) == 2:
					m, at := x.args[0], x.args[1]
					if (m.op == "mu" || m.op == "muv") && c.shifted(m, n) {
						at = add(at, m.args[0])
					} else if !c.whole(m, n) {
						say(unknown, "")
						return
					}
					switch {
					case entails(h, eqInt(at, d)):
					case plainCount(subT(at, d)):
						say(apart, "bit "+describe(at)+" at position "+describe(d))
					default:
						say(unknown, "")
					}
				case c.bitTested(h, d, n, x):
				case entails(h, eqInt(x, zeroInt)):
					if !over && len(ends) == 0 {
						say(unknown, "")
					} else if !over {
						say(apart, "zeros where the number has bits")
					}
				case over:
					say(apart, describe(x)+" follows the bits")
				default:
					say(unknown, "")
				}
			}, newResolver(h).deep(elAt(v, d)))
		})
		if len(ends) == 0 {
			// left before the number is used up
			for _, g := range fs {
				if hasOp(g, "brk") {
					say(apart, "not every bit is written")
				}
			}
		}
	}, newResolver(fs).deep(v))
	if res == unknown {
		c.note("%s/value: not followed", name)
	}
	c.oblige(res != apart, name+"/value", site, name+" yields other bits: "+why)
}

// bitTested: x is a constant, and the facts say that it is what bit d of the number is.
func (c *Ctx) bitTested(fs []*Term, d, n, x *Term) bool {
	v, ok := x.intVal()
	if !ok || v != 0 && v != 1 {
		return false
	}
	for _, g := range fs {
		neg := g.op == "not"
		if neg {
			g = g.args[0]
		}
		if g.op != "eq0" {
			continue
		}
		l := toLin(g.args[0])
		if len(l.m) != 1 {
			continue
		}
		for b, k := range l.m {
			w := -l.c * k
			if b.op != "app" || b.sym != "Int.Bit" || k != 1 && k != -1 || w != 0 && w != 1 {
				continue
			}
			m, at := b.args[0], b.args[1]
			if (m.op == "mu" || m.op == "muv") && c.shifted(m, n) {
				at = add(at, m.args[0])
			} else if !c.whole(m, n) {
				continue
			}
			if (w == v) == !neg && entails(fs, eqInt(at, d)) {
				return true
			}
		}
	}
	return false
}

func onlyAtom(t *Term) *Term {
	l := toLin(t)
	if l.c != 0 || len(l.m) != 1 {
		return nil
	}
	for x := range l.m {
		return x
	}
	return nil
}

// whole: the scalar n as an integer.
func (c *Ctx) whole(t, n *Term) bool {
	return t.op == "app" && t.sym == "Int.SetBytes" && t.args[len(t.args)-1] == app("Zr.Bytes", n)
}

// shifted: the scalar n as an integer, shifted by one position per round.
func (c *Ctx) shifted(m, n *Term) bool {
	d := muDefs[m.sym]
	if d == nil || d.next == nil || len(m.args) != 1 || !c.whole(d.init, n) {
		return false
	}
	t := d.next
	return t.op == "app" && t.sym == "Int.Rsh" && t.args[0] == d.self && t.args[1] == intT(1)
}

// bitsOfAll: the bits of every element, one after the other.
func (c *Ctx) bitsOfAll(f, bits *ssa.Function) {
	r := c.analyse(f, bits)
	name := shortFn(f)
	if r.dead || f.Signature.Results().Len() != 1 {
		return
	}
	fs := saturate(r.st.factList(), nil)
	v := r.in.deep(r.st, r.ret, f.Signature.Results().At(0).Type(), 0)
	k, why := c.pieceByPiece(fs, v, lenOf(r.args[0]), func(i *Term) *Term {
		return app("pred:"+bits.String(), elAt(r.args[0], i), r.args[1])
	})
	if k == unknown {
		c.note("%s/value: not followed: %s", name, describe(v))
	}
	c.oblige(k != apart, name+"/value", c.siteOf(f), name+" does not write the bits of every element: "+why)
}

// powers: the powers of a scalar, from the zeroth.
func (c *Ctx) powers(f *ssa.Function) {
	r := c.analyse(f)
	name, site := shortFn(f), c.siteOf(f)
	if r.dead || f.Signature.Results().Len() != 1 {
		return
	}
	fs := saturate(r.st.factList(), nil)
	v := r.in.deep(r.st, r.ret, f.Signature.Results().At(0).Type(), 0)
	n, x := r.args[0], r.args[1]
	k, why := sameLength(saturate(with(fs, ge0(n)), nil), lenOf(v), n)
	c.oblige(k != apart, name+"/length", site, name+" returns another number of powers: "+why)
	d := in("δ")
	h := saturate(with(fs, ge0(d), lt(d, n)), []*Term{d})
	e := newResolver(h).deep(elAt(v, d))
	acc := in("σ·")
	if s, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
		at := func(h []*Term, d, prev *Term) *Term {
			return r.earlier(h, v, d, s.Elem(), func(j *Term) *Term {
				if prev != nil && entails(h, eqInt(addK(j, 1), d)) {
					return prev
				}
				return nil
			})
		}
		h0 := saturate(with(h, eqInt(d, zeroInt)), []*Term{d})
		h1 := saturate(with(h, lt(zeroInt, d)), []*Term{d})
		pow := app("Zr.PowMod", x, scalarT(d))
		switch first, next := at(h0, d, nil), at(h1, d, acc); {
		case first != nil && next != nil && mentionsDeep(next, acc):
			k, why := c.equalValues(h0, first, scalarT(intT(1)))
			if k != apart {
				if k2, w := c.equalValues(h1, next, app("Zr.Mul", acc, x)); k2 != equal {
					k, why = k2, w
				}
			}
			if k == unknown {
				c.note("%s/value: not followed", name)
			}
			c.oblige(k != apart, name+"/value", site, name+" has another value at some position: "+why)
			return
		case mentionsDeep(e, pow) || e.op == "app" && e.sym == "Zr.PowMod":
			k, why := c.equalValues(h, e, pow)
			c.oblige(k != apart, name+"/value", site, name+" has another value at some position: "+why)
			return
		}
	}
	m := muDefs[e.sym]
	if e.op != "mu" && e.op != "muv" || m == nil || m.next == nil || len(e.args) != 1 || len(m.self.args) != 1 {
		c.note("%s/value: not followed: %s", name, describe(e))
		return
	}
	at := e.args[0]
	if !entails(h, eqInt(at, d)) {
		c.oblige(!plainCount(subT(at, d)), name+"/value", site, name+" has power "+describe(at)+" at position "+describe(d))
		return
	}
	next := subst(subst(m.next, map[*Term]*Term{m.self: acc}), map[*Term]*Term{loopVar(m.loop): d})
	k, why = c.equalValues(fs, m.init, scalarT(intT(1)))
	if k == equal {
		k, why = c.equalValues(h, next, app("Zr.Mul", acc, x))
	}
	if k == unknown {
		c.note("%s/value: not followed", name)
	}
	c.oblige(k != apart, name+"/value", site, name+" has another value at some position: "+why)
}

// powerOfTwo: accepted numbers have one bit, and it is not the lowest.
func (c *Ctx) powerOfTwo(f *ssa.Function) {
	r := c.analyse(f)
	name, site := shortFn(f), c.siteOf(f)
	n := r.args[0]
	t := newResolver(r.st.factList()).head(r.ret)
	if t.op != "choice" {
		c.note("%s/value: not followed", name)
		return
	}
	halves := func(m *Term) bool {
		d := muDefs[m.sym]
		return d != nil && d.init == n && d.next != nil && d.next.op == "app" && d.next.sym == "shr" && d.next.args[0] == d.self && d.next.args[1] == intT(1)
	}
	// the lowest bit of a half-way number
	lowest := func(x *Term) *Term {
		if x.op == "app" && x.sym == "bin:&" && x.args[1] == intT(1) && (x.args[0].op == "mu" || x.args[0].op == "muv") && halves(x.args[0]) {
			return x.args[0]
		}
		return nil
	}
	type evidence struct{ first, only, other, small bool }
	read := func(fs []*Term) evidence {
		var e evidence
		for _, g := range fs {
			neg := g.op == "not"
			if neg {
				g = g.args[0]
			}
			if g.op != "eq0" {
				continue
			}
			l := toLin(g.args[0])
			for x := range l.m {
				if m := lowest(x); m != nil && !neg && len(l.m) == 1 && (l.c == -1 || l.c == 1) && m.op == "mu" {
					e.first = true
				}
				if x.op == "app" && x.sym == "shr" && x.args[1] == intT(1) && x.args[0].op == "mu" && halves(x.args[0]) && len(l.m) == 1 && l.c == 0 {
					if neg {
						e.other = true
					} else {
						e.only = true
					}
				}
			}
		}
		e.small = entails(fs, lt(n, intT(2)))
		return e
	}
	ps, alts := choiceAlts(t)
	var evs []evidence
	var fss [][]*Term
	known := false
	for k := range alts {
		fs := saturate(with(r.st.factList(), edgeFacts(t.sym, ps, k)...), nil)
		e := read(fs)
		evs, fss = append(evs, e), append(fss, fs)
		known = known || alts[k] == tTrue && e.first && e.only && !e.other
	}
	if !known {
		c.note("%s/value: not followed", name)
		return
	}
	for k, a := range alts {
		e := evs[k]
		if has(fss[k], tFalse) || refute(relevant(fss[k], nil)) {
			continue
		}
		switch a {
		case tTrue:
			c.oblige(e.first && e.only && !e.other, name+"/accepted", site, name+" accepts numbers of which it has not seen that they have one bit only")
			c.oblige(contradicts(fss[k], eqInt(n, intT(1))), name+"/one", site, name+" accepts 1")
		}
	}
}

func (c *Ctx) vecOp(f *ssa.Function, o vecOp) {
	r := c.analyse(f)
	name := shortFn(f)
	if r.dead {
		c.oblige(false, name+"/returns", c.siteOf(f), name+" never returns")
		return
	}
	fs := saturate(r.st.factList(), nil)
	resT := f.Signature.Results()
	var v *Term
	switch {
	case o.inPlace:
		v = r.in.deep(r.st, r.args[0], f.Params[0].Type(), 0)
	case resT.Len() == 1:
		v = r.in.deep(r.st, r.ret, resT.At(0).Type(), 0)
	default:
		c.note("%s has another signature", name)
		return
	}
	site := c.siteOf(f)
	say := func(r int, key, msg, why string) {
		if r == unknown {
			c.note("%s/%s: not followed", name, key)
		}
		if why != "" {
			msg += ": " + why
		}
		c.oblige(r != apart, name+"/"+key, site, msg)
	}
	switch {
	case o.val != nil:
		k, why := c.equalValues(fs, v, o.val(r.args))
		say(k, "value", name+" returns another value", why)
	case o.sum != nil:
		ops := r.args
		fd := &fold{c: c, ops: ops, n: lenOf(r.args[0]), each: func(i *Term) *Term { return o.sum(r.args, i) }, mul: o.product}
		k, why := fd.is(fs, v)
		say(k, "value", name+" does not combine every position once", why)
	case o.piece != nil:
		k, why := c.pieceByPiece(fs, v, lenOf(r.args[0]), func(i *Term) *Term { return o.piece(r.args, i) })
		say(k, "value", name+" does not write every element", why)
	default:
		n := o.n(r.args)
		k, why := sameLength(fs, lenOf(v), n)
		say(k, "length", name+" returns a vector of another length", why)
		if k != equal {
			return
		}
		d := in("δ")
		res := equal
		g := &agreement{c: c}
		h := with(fs, ge0(d), lt(d, n))
		g.cases(h, d, []*Term{v}, func(h []*Term) {
			for _, w := range o.at(r.args, d) {
				if res == apart {
					return
				}
				q := h
				if w.cond != nil {
					if contradicts(q, w.cond) {
						continue
					}
					q = with(q, w.cond)
				}
				q = saturate(q, []*Term{d})
				if has(q, tFalse) || refute(relevant(q, nil)) {
					continue
				}
				x := newResolver(q).deep(elAt(v, d))
				if e := r.earlier(q, v, d, elemType(f, o), func(j *Term) *Term {
					// shown for the positions before
					at := o.at(r.args, j)
					if len(at) != 1 || at[0].cond != nil {
						return nil
					}
					return at[0].val
				}); e != nil {
					x = e
				}
				k, y := c.elemEqual(q, x, w.val)
				switch k {
				case apart:
					res, why = apart, y
				case unknown:
					res = unknown
				}
			}
		})
		say(res, "value", name+" has another value at some position", why)
	}
}

func elemType(f *ssa.Function, o vecOp) types.Type {
	t := f.Params[0].Type()
	if !o.inPlace {
		t = f.Signature.Results().At(0).Type()
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return t
}

// pieceByPiece: v is one piece after the other, for the positions up to n.
func (c *Ctx) pieceByPiece(fs []*Term, v, n *Term, piece func(i *Term) *Term) (int, string) {
	v = newResolver(fs).head(v)
	if v.op != "lcat" || lenOf(v.args[0]) != zeroInt {
		return unknown, ""
	}
	if k, why := sameLength(fs, v.args[1], n); k != equal {
		return k, why
	}
	x := in("δ")
	h := saturate(with(fs, ge0(x), lt(x, n)), []*Term{x})
	if has(h, tFalse) {
		return equal, ""
	}
	t := subst(v.args[2], map[*Term]*Term{loopVar(v.sym): x})
	r, why := equal, ""
	splitCases(h, 0, func(h []*Term, ts []*Term) {
		if r == apart {
			return
		}
		e := piece(x)
		if lenOf(ts[0]) == zeroInt && nonEmpty(e) {
			r, why = apart, "an element is left out"
			return
		}
		g := &agreement{c: c}
		switch g.of(h, ts[0], e) {
		case apart:
			r, why = apart, g.why
		case unknown:
			r = unknown
		}
	}, t)
	return r, why
}

// sameLength: two numbers are the same in every case.
func sameLength(fs []*Term, l, n *Term) (int, string) {
	r, why := equal, ""
	splitCases(fs, 0, func(h []*Term, ts []*Term) {
		l := newResolver(h).deep(ts[0])
		switch {
		case r == apart || entails(h, eqInt(l, n)):
		case contradicts(h, eqInt(l, n)) || plainCount(l) && plainCount(n):
			r, why = apart, describe(l)
		default:
			r = unknown
		}
	}, newResolver(fs).deep(l))
	return r, why
}

func (c *Ctx) elemEqual(fs []*Term, v, e *Term) (int, string) {
	if intLike(e) || numeric(e) {
		g := &agreement{c: c}
		return g.of(fs, v, e), g.why
	}
	return c.equalValues(fs, v, e)
}

// earlier: v is written position by position, each from positions before it; the element of v at d with
// prev(j) for what was written at an earlier position j, or nil.
func (r *result) earlier(fs []*Term, v, d *Term, el types.Type, prev func(j *Term) *Term) *Term {
	t := newResolver(fs).head(v)
	for t.op == "valc" || t.op == "sub" && t.args[1] == zeroInt {
		t = t.args[0]
	}
	var x *Term
	var own func(b *Term) bool
	switch t.op {
	case "lsto", "lcat":
		own = func(b *Term) bool { return b.op == t.op && b.sym == t.sym }
		x = newResolver(fs).deep(elAt(v, d))
	case "mu":
		m := muDefs[t.sym]
		if m == nil || m.next == nil || m.self == nil || len(m.self.args) != 1 || m.next.op != "sto" || m.next.args[0] != m.self {
			return nil
		}
		lv := loopVar(m.loop)
		off := subT(m.next.args[1], lv)
		if off.hasFV(lv) {
			return nil
		}
		round := subT(d, off)
		if contradicts(fs, ge0(round)) {
			return r.in.deep(r.st, elAt(m.init, d), el, 0)
		}
		if !entails(fs, ge0(round)) || !entails(fs, lt(round, t.args[0])) {
			return nil
		}
		at := map[*Term]*Term{lv: round}
		x = r.in.deep(r.st, subst(m.next.args[2], at), el, 0)
		self := subst(m.self, at)
		own = func(b *Term) bool { return b == self }
	default:
		return nil
	}
	ok := true
	x = rewrite(x, func(y *Term) *Term {
		b := y
		if b.op != "el" {
			return y
		}
		for b = b.args[0]; b.op == "valc"; {
			b = b.args[0]
		}
		if !own(b) {
			return y
		}
		p := prev(y.args[1])
		if p == nil || !entails(fs, lt(y.args[1], d)) {
			ok = false
			return y
		}
		return p
	})
	walkDeep(x, func(y *Term) bool {
		ok = ok && !own(y)
		return true
	})
	if !ok {
		return nil
	}
	return x
}
