package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values of the scalar field and of the groups as polynomials over what they are made from: addition is
// the group law, a scalar multiple and a pairing are products, and a reduction modulo the group order
// does nothing.

type mono struct {
	k  int64
	at []*Term
}

type poly map[string]*mono

func monoKey(at []*Term) string {
	s := make([]string, len(at))
	for i, a := range at {
		s[i] = strconv.Itoa(a.id)
	}
	return strings.Join(s, "·")
}

func constPoly(k int64) poly {
	p := poly{}
	p.add(k, nil)
	return p
}

func atomPoly(t *Term) poly {
	p := poly{}
	p.add(1, []*Term{t})
	return p
}

func (p poly) add(k int64, at []*Term) {
	at = append([]*Term{}, at...)
	sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
	key := monoKey(at)
	m := p[key]
	if m == nil {
		m = &mono{0, at}
		p[key] = m
	}
	m.k += k
	if m.k == 0 {
		delete(p, key)
	}
}

func (p poly) plus(q poly, k int64) poly {
	r := poly{}
	for _, m := range p {
		r.add(m.k, m.at)
	}
	for _, m := range q {
		r.add(k*m.k, m.at)
	}
	return r
}

func (p poly) times(q poly) poly {
	r := poly{}
	for _, m := range p {
		for _, n := range q {
			r.add(m.k*n.k, append(append([]*Term{}, m.at...), n.at...))
		}
	}
	return r
}

func (p poly) atoms() []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	for _, m := range p {
		for _, a := range m.at {
			if !seen[a] {
				seen[a] = true
				r = append(r, a)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// put replaces an atom by what it equals.
func (p poly) put(a *Term, q poly) poly {
	r := poly{}
	for _, m := range p {
		one := constPoly(m.k)
		for _, x := range m.at {
			if x == a {
				one = one.times(q)
			} else {
				one = one.times(atomPoly(x))
			}
		}
		r = r.plus(one, 1)
	}
	return r
}

func (p poly) str() string {
	var s []string
	for _, m := range p {
		t := strconv.FormatInt(m.k, 10)
		for _, a := range m.at {
			t += "·" + describe(a)
		}
		s = append(s, t)
	}
	sort.Strings(s)
	if len(s) == 0 {
		return "0"
	}
	return strings.Join(s, " + ")
}

// miller marks a pairing before its final exponentiation.
var millerLoop = in("µ·")

type algebra struct {
	c     *Ctx
	fs    []*Term
	rs    *resolver
	same  map[*Term]*Term // atoms and what the facts say they equal
	zeros []poly
	soft  bool // a value was compared in a form that is not followed
	bad   bool
	d     int
}

func newAlgebra(c *Ctx, fs []*Term) *algebra {
	a := &algebra{c: c, fs: fs, rs: newResolver(fs), same: map[*Term]*Term{}}
	for _, f := range fs {
		switch {
		case f.op == "app" && len(f.args) == 2 && (f.sym == "Zr.Equals" || f.sym == "G1.Equals" || f.sym == "G2.Equals" || f.sym == "Gt.Equals"):
			a.zeros = append(a.zeros, a.nf(f.args[0]).plus(a.nf(f.args[1]), -1))
		case f.op == "app" && len(f.args) == 1 && (f.sym == "G1.IsInfinity" || f.sym == "Gt.IsUnity"):
			a.zeros = append(a.zeros, a.nf(f.args[0]))
		case readsWhole(f):
			a.soft = true
			if debugOn {
				println("SOFT", f.str(7))
			}
		}
	}
	a.bad = false
	return a
}

// readsWhole: an equality of a value in another form of it.
func readsWhole(f *Term) bool {
	switch {
	case f.op == "eq" || f.op == "eq0":
	case f.op == "app" && f.sym == "bytes.Equal":
	case f.op == "app" && strings.HasPrefix(f.sym, "pred:"):
		return true
	default:
		return false
	}
	var whole func(t *Term) bool
	whole = func(t *Term) bool {
		switch t.op {
		case "el", "len", "sub":
			return false
		case "app":
			switch t.sym {
			case "Zr.Bytes", "Zr.String", "G1.Bytes", "G1.String", "G2.Bytes", "G2.String", "Gt.Bytes", "Gt.String", "Zr.Int", "Int.Sign", "Int.Cmp", "Int.BitLen", "big.Int.Sign":
				return true
			case "Int.Uint64", "Int.Int64", "Int.Bit", "Int.And", "Int.Rsh", "Int.Mod", "Int.Rem", "Int.Div", "Int.Quo", "Int.TrailingZeroBits", "mod", "div", "shr", "bin:&":
				return false
			}
		}
		for _, x := range t.args {
			if whole(x) {
				return true
			}
		}
		return false
	}
	return whole(f)
}

func (a *algebra) nf(t *Term) poly {
	a.d++
	defer func() { a.d-- }()
	if a.d > 200 {
		a.bad = true
		return atomPoly(t)
	}
	t = stripConv(a.rs.head(t))
	if t.op != "app" {
		return a.atom(t)
	}
	n := len(t.args)
	switch t.sym {
	case "Zr.Plus", "G1.Add", "G2.Add", "Gt.Mul":
		if n == 2 {
			return a.nf(t.args[0]).plus(a.nf(t.args[1]), 1)
		}
	case "G1.Sub", "G2.Sub", "Zr.Minus":
		if n == 2 {
			return a.nf(t.args[0]).plus(a.nf(t.args[1]), -1)
		}
	case "Zr.Mul", "G1.Mul", "G2.Mul", "Gt.Exp":
		if n == 2 {
			return a.nf(t.args[0]).times(a.nf(t.args[1]))
		}
	case "G1.Mul2":
		if n == 4 {
			return a.nf(t.args[0]).times(a.nf(t.args[1])).plus(a.nf(t.args[2]).times(a.nf(t.args[3])), 1)
		}
	case "Gt.Inverse":
		if n == 1 {
			return poly{}.plus(a.nf(t.args[0]), -1)
		}
	case "Zr.Mod":
		if n == 2 && a.isOrder(t.args[1]) {
			return a.nf(t.args[0])
		}
	case "Curve.ModSub", "Curve.ModAdd", "Curve.ModMul":
		if n == 4 && a.isOrder(t.args[3]) {
			x, y := a.nf(t.args[1]), a.nf(t.args[2])
			switch t.sym {
			case "Curve.ModSub":
				return x.plus(y, -1)
			case "Curve.ModAdd":
				return x.plus(y, 1)
			}
			return x.times(y)
		}
	case "Curve.ModNeg":
		if n == 3 && a.isOrder(t.args[2]) {
			return poly{}.plus(a.nf(t.args[1]), -1)
		}
	case "Curve.NewZrFromInt":
		if n == 2 {
			return a.num(t.args[1])
		}
	case "Curve.NewG1", "Curve.NewG2":
	case "Curve.Pairing":
		if n == 3 {
			return a.nf(t.args[1]).times(a.nf(t.args[2])).times(atomPoly(millerLoop))
		}
	case "Curve.Pairing2":
		if n == 5 {
			return a.nf(t.args[1]).times(a.nf(t.args[2])).plus(a.nf(t.args[3]).times(a.nf(t.args[4])), 1).times(atomPoly(millerLoop))
		}
	case "Curve.FExp":
		if n == 2 {
			p := a.nf(t.args[1])
			r := poly{}
			for _, m := range p {
				var rest []*Term
				k := 0
				for _, x := range m.at {
					if x == millerLoop && k == 0 {
						k++
						continue
					}
					rest = append(rest, x)
				}
				if k == 0 {
					a.bad = true
				}
				r.add(m.k, rest)
			}
			return r
		}
	}
	return a.atom(t)
}

func (a *algebra) isOrder(t *Term) bool {
	t = a.rs.head(t)
	return (t.op == "glob" || t.op == "fld") && strings.HasSuffix(t.sym, "GroupOrder")
}

// num: an integer as a scalar.
func (a *algebra) num(t *Term) poly {
	t = stripConv(a.rs.head(t))
	l := toLin(t)
	p := constPoly(l.c)
	if len(l.m) == 0 {
		return p
	}
	for x, k := range l.m {
		if x.op == "choice" || x.op == "mu" {
			a.bad = true
		}
		for _, v := range []int64{0, 1} {
			if entails(a.fs, eqInt(x, intT(v))) {
				p.add(k*v, nil)
				k = 0
				break
			}
		}
		if k != 0 {
			p.add(k, []*Term{app("scalar", x)})
		}
	}
	return p
}

func (a *algebra) atom(t *Term) poly {
	t = a.rs.deep(t)
	if t.op == "fld" && strings.HasPrefix(t.sym, "Gen") {
		if b := t.args[0]; b.op == "glob" || b.op == "el" && b.args[0].op == "glob" {
			return atomPoly(generator(t.sym))
		}
	}
	if (t.op == "glob" || t.op == "in") && a.c.neutral(t) {
		return poly{}
	}
	return atomPoly(t)
}

// generator of a group, by whatever name the package has for the curve.
func generator(name string) *Term { return in("·" + name) }

// neutral: a package-level point that its package initialises to the neutral element.
func (c *Ctx) neutral(t *Term) bool {
	if t.op != "glob" {
		return false
	}
	if c.neutrals == nil {
		c.neutrals = map[*Term]bool{}
	}
	if v, ok := c.neutrals[t]; ok {
		return v
	}
	c.neutrals[t] = false
	for _, pk := range c.p.pkgs {
		for _, m := range pk.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g.RelString(nil) != t.sym {
				continue
			}
			switch typeName(g.Type().(*types.Pointer).Elem()) {
			case "*math.G1", "*math.G2":
			default:
				continue
			}
			f := g.Pkg.Func("init")
			if f == nil || !c.writtenByInit(g) {
				continue
			}
			if x := c.p.initialPoint(f, g); x != nil {
				al := &algebra{c: c, rs: newResolver(nil), same: map[*Term]*Term{}}
				c.neutrals[t] = len(al.nf(x)) == 0 && !al.bad
			}
		}
	}
	return c.neutrals[t]
}

// writtenByInit: assigned while the package is initialised only.
func (c *Ctx) writtenByInit(g *ssa.Global) bool {
	for _, f := range c.p.Functions() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(g) && !strings.HasPrefix(f.Name(), "init") {
					return false
				}
			}
		}
	}
	return true
}

func (p *Program) initialPoint(f *ssa.Function, g *ssa.Global) (v *Term) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	i := NewInterp(p)
	st := &State{}
	for _, pk := range p.pkgs {
		if x, ok := pk.Members["init$guard"].(*ssa.Global); ok {
			st.mem = st.mem.Set(mk("gaddr", x.RelString(nil)).id, boolT(false))
		}
	}
	i.CallFn(nil, st, f, nil, nil, "")
	if st.dead {
		return nil
	}
	return i.val(st, i.load(st, mk("gaddr", g.RelString(nil)), g.Type().(*types.Pointer).Elem()))
}

// firstChoice: an alternative in t that is not one of each round of a loop.
func firstChoice(t *Term) *Term {
	if t.op == "choice" {
		return t
	}
	for i, a := range t.args {
		if binds(t, i) {
			continue
		}
		if x := firstChoice(a); x != nil {
			return x
		}
	}
	return nil
}

func isValueTest(f *Term) bool {
	if f.op == "not" {
		f = f.args[0]
	}
	if f.op != "app" {
		return false
	}
	switch f.sym {
	case "Zr.Equals", "G1.Equals", "G2.Equals", "Gt.Equals", "G1.IsInfinity", "Gt.IsUnity":
		return true
	}
	return false
}

// splitCases follows the alternatives of the values, under the facts each is taken with.
func splitCases(fs []*Term, d int, f func(h []*Term, ts []*Term), ts ...*Term) {
	var x *Term
	for _, t := range ts {
		if x == nil {
			x = firstChoice(t)
		}
	}
	if x == nil && d <= 8 {
		// what is tested
		for _, t := range fs {
			if !isValueTest(t) {
				continue
			}
			if x == nil {
				x = firstChoice(t)
			}
		}
	}
	if x == nil || d > 8 {
		f(fs, ts)
		return
	}
	ps, alts := choiceAlts(x)
	for k, alt := range alts {
		if !edgeOK(fs, x.sym, ps, k) {
			continue
		}
		var gs []*Term
		for _, t := range fs {
			if isValueTest(t) && occurs(t, x) {
				t = subst(t, map[*Term]*Term{x: alt})
			}
			gs = append(gs, t)
		}
		h := saturate(with(gs, edgeFacts(x.sym, ps, k)...), nil)
		if has(h, tFalse) || refute(relevant(h, nil)) {
			continue
		}
		rs := newResolver(h)
		us := make([]*Term, len(ts))
		for i, t := range ts {
			us[i] = rs.deep(subst(t, map[*Term]*Term{x: alt}))
		}
		splitCases(h, d+1, f, us...)
	}
}

// decide: the difference of two values is nothing.
func (a *algebra) decide(p poly) int {
	if len(p) == 0 {
		return equal
	}
	// what the facts say is nothing
	for _, z := range a.zeros {
		ats := z.atoms()
		if len(z) == 1 && len(ats) == 1 {
			for _, m := range z {
				if len(m.at) == 1 {
					p = p.put(ats[0], poly{})
				}
			}
		}
	}
	for _, z := range a.zeros {
		for _, m := range z {
			if len(m.at) == 1 && (m.k == 1 || m.k == -1) {
				rest := poly{}.plus(z, -m.k)
				rest.add(1, m.at)
				once := true
				for _, x := range rest.atoms() {
					once = once && x != m.at[0]
				}
				if q := p.put(m.at[0], rest); once && len(q) == 0 {
					return equal
				}
			}
		}
		if len(p.plus(z, 1)) == 0 || len(p.plus(z, -1)) == 0 {
			return equal
		}
	}
	// elements at one position
	ats := p.atoms()
	for i, x := range ats {
		for _, y := range ats[i+1:] {
			if x.op == "el" && y.op == "el" && x.args[0] == y.args[0] && entails(a.fs, eqInt(x.args[1], y.args[1])) {
				p = p.put(y, atomPoly(x))
			}
		}
	}
	if len(p) == 0 {
		return equal
	}
	if a.soft || a.bad {
		return unknown
	}
	for _, x := range p.atoms() {
		if x.op == "app" && x.sym == "scalar" {
			x = x.args[0]
		}
		if !known(x) {
			return unknown
		}
	}
	return apart
}

// equalValues: v is e, in every case.
func (c *Ctx) equalValues(fs []*Term, v, e *Term) (int, string) {
	r, why := equal, ""
	rs := newResolver(fs)
	splitCases(fs, 0, func(h []*Term, ts []*Term) {
		if r == apart {
			return
		}
		a := newAlgebra(c, h)
		p, q := a.nf(ts[0]), a.nf(ts[1])
		switch a.decide(p.plus(q, -1)) {
		case apart:
			r, why = apart, p.str()+" and not "+q.str()
		case unknown:
			r = unknown
			if debugOn {
				println("UNKNOWN", a.soft, a.bad, ts[0].str(7), "\n  ---", ts[1].str(7))
			}
		}
	}, rs.deep(v), rs.deep(e))
	return r, why
}

// fold: a sum (or product) of one term per position.
type fold struct {
	c    *Ctx
	ops  []*Term // the sequences the positions are in
	n    *Term
	each func(i *Term) *Term
	mul  bool
	num  int
}

type part struct {
	trip, x *Term
	at      []*Term
}

// is: v is the sum of each(i) for the positions up to n.
func (f *fold) is(fs []*Term, v *Term) (int, string) {
	r, why := equal, ""
	splitCases(fs, 0, func(h []*Term, ts []*Term) {
		if r == apart {
			return
		}
		var parts []part
		k, w := f.parts(h, ts[0], &parts, func(t *Term) *Term { return t }, 0)
		if k == equal {
			k, w = f.tile(h, parts)
		}
		switch k {
		case apart:
			r, why = apart, w
		case unknown:
			r = unknown
		}
	}, newResolver(fs).deep(v))
	return r, why
}

func (f *fold) parts(fs []*Term, v *Term, out *[]part, wrap func(*Term) *Term, d int) (int, string) {
	a := newAlgebra(f.c, fs)
	v = a.rs.head(v)
	if v.op == "app" && v.sym == "Zr.Mod" && a.isOrder(v.args[1]) {
		return f.parts(fs, v.args[0], out, wrap, d)
	}
	if v.op == "app" && v.sym == "Curve.FExp" && !f.mul {
		cv := v.args[0]
		return f.parts(fs, v.args[1], out, func(t *Term) *Term { return app("Curve.FExp", cv, wrap(t)) }, d)
	}
	if v.op == "mu" && d < 4 {
		m := muDefs[v.sym]
		if m == nil || m.next == nil || len(m.self.args) != 1 || len(v.args) != 1 {
			return unknown, ""
		}
		if r, w := f.parts(fs, m.init, out, wrap, d+1); r != equal {
			return r, w
		}
		f.num++
		x, acc := in("δ"+itoa(f.num)+"·"), in("σ"+itoa(f.num)+"·")
		self := subst(m.self, map[*Term]*Term{loopVar(m.loop): x})
		t := subst(subst(m.next, map[*Term]*Term{m.self: acc}), map[*Term]*Term{loopVar(m.loop): x})
		t = subst(t, map[*Term]*Term{self: acc})
		h := saturate(with(fs, ge0(x), lt(x, v.args[0])), []*Term{x})
		if has(h, tFalse) {
			return equal, ""
		}
		pr := part{trip: v.args[0], x: x}
		r, w := f.term(h, t, acc, wrap, &pr)
		*out = append(*out, pr)
		return r, w
	}
	if p := a.nf(v); !a.bad && (!f.mul && len(p) == 0 || f.mul && len(p.plus(constPoly(1), -1)) == 0) {
		return equal, ""
	}
	pr := part{}
	r, w := f.term(fs, v, nil, wrap, &pr)
	*out = append(*out, pr)
	return r, w
}

// term: t adds the term of one position to acc.
func (f *fold) term(fs []*Term, t, acc *Term, wrap func(*Term) *Term, pr *part) (int, string) {
	type leaf struct {
		a *algebra
		p poly
	}
	var leaves []leaf
	var cands []*Term
	seen := map[*Term]bool{}
	r, why := equal, ""
	splitCases(fs, 0, func(h []*Term, ts []*Term) {
		a := newAlgebra(f.c, h)
		u := ts[0]
		if acc == nil {
			u = wrap(u)
		}
		p := a.nf(u)
		if acc != nil {
			q, n := poly{}, int64(0)
			for _, m := range p {
				k := 0
				var rest []*Term
				for _, x := range m.at {
					if x == acc {
						k++
						continue
					}
					rest = append(rest, x)
				}
				switch {
				case f.mul && k == 1:
					q.add(m.k, rest)
				case !f.mul && k == 1 && len(rest) == 0:
					n += m.k
				case !f.mul && k == 0:
					q.add(m.k, rest)
				default:
					n = -99
				}
			}
			if !f.mul && n != 1 || n < 0 {
				r, why = unknown, ""
				if !a.bad && !a.soft && n == 0 {
					r, why = apart, "what was added so far is dropped"
				}
				return
			}
			p = q
			if w := wrap(app("·")); w.sym == "Curve.FExp" {
				q = poly{}
				for _, m := range p {
					var rest []*Term
					k := 0
					for _, x := range m.at {
						if x == millerLoop && k == 0 {
							k++
							continue
						}
						rest = append(rest, x)
					}
					if k == 0 {
						a.bad = true
					}
					q.add(m.k, rest)
				}
				p = q
			}
		}
		for _, x := range p.atoms() {
			walk(x, func(y *Term) bool {
				if y.op == "el" {
					for _, o := range f.ops {
						if y.args[0] == o && !seen[y.args[1]] {
							seen[y.args[1]] = true
							cands = append(cands, y.args[1])
						}
					}
				}
				return true
			})
		}
		leaves = append(leaves, leaf{a, p})
	}, t)
	if r != equal {
		return r, why
	}
	if len(leaves) == 0 {
		return equal, ""
	}
	if len(cands) == 0 {
		return unknown, ""
	}
	best, text := apart, ""
	sets := make([][]*Term, 0, len(cands))
	for _, j := range cands {
		sets = append(sets, []*Term{j})
	}
	if len(cands) > 1 && !f.mul {
		for i, j := range cands {
			for _, k := range cands[i+1:] {
				sets = append(sets, []*Term{j, k})
			}
		}
		if len(cands) > 2 {
			sets = append(sets, cands)
		}
		if len(cands) > 3 {
			best = unknown
		}
	}
	for _, js := range sets {
		res := equal
		for _, l := range leaves {
			e := poly{}
			for _, j := range js {
				e = e.plus(l.a.nf(f.each(j)), 1)
			}
			switch l.a.decide(l.p.plus(e, -1)) {
			case apart:
				res = apart
				if text == "" {
					text = l.p.str() + " and not " + e.str()
				}
			case unknown:
				if res == equal {
					res = unknown
				}
			}
			if res == apart {
				break
			}
		}
		if res == equal {
			pr.at = js
			return equal, ""
		}
		if res == unknown {
			best = unknown
		}
	}
	return best, text
}

// tile: every position takes part exactly once.
func (f *fold) tile(fs []*Term, ps []part) (int, string) {
	total := zeroInt
	clear := plainCount(f.n)
	h := fs
	for _, p := range ps {
		if p.trip == nil {
			total = addK(total, int64(len(p.at)))
			continue
		}
		total = add(total, mulK(p.trip, int64(len(p.at))))
		clear = clear && plainCount(p.trip)
		h = with(h, ge0(p.trip))
		// a stride is as long as the positions of a round
		for _, at := range p.at {
			k := toLin(at).m[p.x]
			if k < 0 {
				k = -k
			}
			if k != int64(len(p.at)) {
				return unknown, ""
			}
		}
	}
	bad := unknown
	if clear {
		bad = apart
	}
	if debugOn {
		for _, p := range ps {
			for _, at := range p.at {
				if p.trip != nil {
					println("PART", p.trip.str(6), at.str(6))
				} else {
					println("PART", at.str(6))
				}
			}
		}
		for _, f := range fs {
			println("  F", f.str(6))
		}
	}
	if e := eqInt(total, f.n); !entails(h, e) {
		if contradicts(h, e) {
			bad = apart
		}
		return bad, describe(total) + " positions of " + describe(f.n)
	}
	type place struct {
		p  part
		at *Term
	}
	var all []place
	for _, p := range ps {
		for _, at := range p.at {
			all = append(all, place{p, at})
		}
	}
	for i, p := range all {
		g := h
		if p.p.trip != nil {
			g = with(g, ge0(p.p.x), lt(p.p.x, p.p.trip))
		}
		if !entails(g, ge0(p.at)) || !entails(g, lt(p.at, f.n)) {
			return bad, "a position out of range: " + describe(p.at)
		}
		for _, q := range all[i+1:] {
			k, at := g, q.at
			if q.p.trip != nil {
				x := q.p.x
				if x == p.p.x {
					// another round
					x = in(x.sym + "′")
					at = subst(at, map[*Term]*Term{q.p.x: x})
				}
				k = with(k, ge0(x), lt(x, q.p.trip))
			}
			if q.p.x != nil && q.p.x == p.p.x {
				// positions of one stride have different remainders
				a, b := toLin(p.at), toLin(q.at)
				d := toLin(subT(p.at, q.at))
				n := int64(len(p.p.at))
				if a.m[p.p.x] == b.m[p.p.x] && len(d.m) == 0 && d.c%n != 0 {
					continue
				}
			}
			if !contradicts(k, eqInt(p.at, at)) {
				return bad, "a position twice: " + describe(q.at)
			}
		}
	}
	return equal, ""
}

// plainCount: a number that is read in full.
func plainCount(t *Term) bool {
	ok := true
	for x := range toLin(t).m {
		switch {
		case x.op == "len" || x.op == "in" || x.op == "fld":
		case x.op == "app" && (x.sym == "mod" || x.sym == "min" || x.sym == "max"):
			for _, y := range x.args {
				ok = ok && plainCount(y)
			}
		default:
			ok = false
		}
	}
	return ok
}
