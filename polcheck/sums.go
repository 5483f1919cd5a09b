package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sums: values of the scalar field and of the groups as polynomials in which sums over the positions of
// vectors are monomials, too: each has the positions it sums over, and names of positions do not matter.

type bound struct{ v, n *Term }

type term struct {
	k  int64
	at []*Term
	bs []bound
}

type tensor map[string]*term

type sums struct {
	c    *Ctx
	num  int
	lens []*Term
	// one name for numbers that are assumed to be the same
	same func(n *Term) *Term
	bad  bool
	why  string
	def  func(a *algebra, t *Term) (tensor, bool)
	zs   map[*algebra][]tensor
	// tests whose outcome is not to be assumed
	unassumed string
	// nothing, by assumption
	assumed []tensor
}

func (s *sums) fresh() *Term {
	s.num++
	return in("ξ" + itoa(s.num) + "·")
}

func position(i int) *Term { return in("ι" + itoa(i) + "·") }

func (s *sums) fail(f string, args ...interface{}) {
	if !s.bad {
		s.why = fmt.Sprintf(f, args...)
	}
	s.bad = true
}

// add adds a monomial in its canonical form.
func (s *sums) add(p tensor, k int64, at []*Term, bs []bound) {
	if k == 0 {
		return
	}
	at = cancel(at)
	if len(bs) > 4 {
		s.fail("too many sums")
		return
	}
	best, bestAt, bestBs := "", []*Term(nil), []bound(nil)
	var perm func(done []int, left []int)
	perm = func(done, left []int) {
		if len(left) > 0 {
			for i := range left {
				rest := append(append([]int{}, left[:i]...), left[i+1:]...)
				perm(append(append([]int{}, done...), left[i]), rest)
			}
			return
		}
		m := map[*Term]*Term{}
		var nb []bound
		for i, j := range done {
			m[bs[j].v] = position(i)
			nb = append(nb, bound{position(i), bs[j].n})
		}
		var na []*Term
		for _, x := range at {
			na = append(na, substFree(x, m))
		}
		for i := range nb {
			nb[i].n = substFree(nb[i].n, m)
		}
		sort.Slice(na, func(i, j int) bool { return na[i].id < na[j].id })
		key := monoKey(na)
		for _, b := range nb {
			key += "|" + strconv.Itoa(b.n.id)
		}
		if bestAt == nil && best == "" || key < best {
			best, bestAt, bestBs = key, na, nb
		}
	}
	var all []int
	for i := range bs {
		all = append(all, i)
	}
	perm(nil, all)
	m := p[best]
	if m == nil {
		m = &term{0, bestAt, bestBs}
		p[best] = m
	}
	m.k += k
	if m.k == 0 {
		delete(p, best)
	}
}

func substFree(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return rewrite(t, func(x *Term) *Term {
		if y := m[x]; y != nil {
			return y
		}
		return x
	})
}

func (s *sums) plus(p, q tensor, k int64) tensor {
	r := tensor{}
	for _, m := range p {
		s.add(r, m.k, m.at, m.bs)
	}
	for _, m := range q {
		s.add(r, k*m.k, m.at, m.bs)
	}
	return r
}

// apart: m with positions of its own.
func (s *sums) renamed(m *term) *term {
	if len(m.bs) == 0 {
		return m
	}
	sub := map[*Term]*Term{}
	r := &term{k: m.k}
	for _, b := range m.bs {
		sub[b.v] = s.fresh()
	}
	for _, b := range m.bs {
		r.bs = append(r.bs, bound{sub[b.v], substFree(b.n, sub)})
	}
	for _, x := range m.at {
		r.at = append(r.at, substFree(x, sub))
	}
	return r
}

func (s *sums) times(p, q tensor) tensor {
	r := tensor{}
	for _, m := range p {
		for _, n := range q {
			x, y := s.renamed(m), s.renamed(n)
			s.add(r, x.k*y.k, cancel(append(append([]*Term{}, x.at...), y.at...)), append(append([]bound{}, x.bs...), y.bs...))
		}
	}
	return r
}

// cancel: a factor and its inverse.
func cancel(at []*Term) []*Term {
	for i, x := range at {
		if x.op == "app" && x.sym == "case·" {
			var fs []*Term
			for _, f := range x.args {
				if f != tTrue {
					fs = append(fs, f)
				}
			}
			r := append(append([]*Term{}, at[:i]...), at[i+1:]...)
			more := false
			for j, y := range r {
				if y.op == "app" && y.sym == "case·" {
					fs = merge(fs, y.args)
					r = append(append([]*Term{}, r[:j]...), r[j+1:]...)
					more = true
					break
				}
			}
			if more || len(fs) < len(x.args) || len(fs) == 0 {
				if len(fs) > 0 {
					r = append(r, app("case·", fs...))
				}
				return cancel(r)
			}
		}
		if x.op == "app" && x.sym == "pow·" {
			if k, ok := x.args[1].intVal(); ok && k >= 0 && k <= 8 {
				r := append(append([]*Term{}, at[:i]...), at[i+1:]...)
				for ; k > 0; k-- {
					r = append(r, x.args[0])
				}
				return cancel(r)
			}
		}
	}
	for i, x := range at {
		if x.op != "app" || x.sym != "inverse·" {
			continue
		}
		for j, y := range at {
			if y == x.args[0] {
				var r []*Term
				for k, z := range at {
					if k != i && k != j {
						r = append(r, z)
					}
				}
				return cancel(r)
			}
		}
	}
	return at
}

func (s *sums) atomic(t *Term) tensor {
	r := tensor{}
	s.add(r, 1, []*Term{t}, nil)
	return r
}

func (s *sums) constant(k int64) tensor {
	r := tensor{}
	s.add(r, k, nil, nil)
	return r
}

func (s *sums) from(p poly) tensor {
	r := tensor{}
	for _, m := range p {
		s.add(r, m.k, m.at, nil)
	}
	return r
}

// replace the atoms of p.
func (s *sums) replace(p tensor, f func(t *Term) (tensor, bool)) tensor {
	r := tensor{}
	for _, m := range p {
		m = s.renamed(m)
		one := s.constant(m.k)
		for _, x := range m.at {
			if q, ok := f(x); ok {
				one = s.times(one, q)
			} else {
				one = s.times(one, s.atomic(x))
			}
		}
		for _, n := range one {
			n = s.renamed(n)
			s.add(r, n.k, n.at, append(append([]bound{}, m.bs...), n.bs...))
		}
	}
	return r
}

func (p tensor) str() string {
	var r []string
	for _, m := range p {
		t := strconv.FormatInt(m.k, 10)
		for _, b := range m.bs {
			t += " Σ" + describe(b.v) + "<" + describe(b.n)
		}
		for _, a := range m.at {
			t += " " + describe(a)
		}
		r = append(r, t)
	}
	sort.Strings(r)
	if len(r) == 0 {
		return "0"
	}
	return strings.Join(r, " + ")
}

// length: one name for lengths that are the same.
func (s *sums) length(fs []*Term, n *Term) *Term {
	if s.same != nil {
		n = rewrite(n, s.same)
	}
	for _, m := range s.lens {
		if m == n || entails(fs, eqInt(m, n)) {
			return m
		}
	}
	s.lens = append(s.lens, n)
	return n
}

// over: the sum of p for x up to n.
func (s *sums) over(a *algebra, p tensor, x, n *Term) tensor {
	n = a.rs.head(n)
	if s.same != nil {
		n = rewrite(n, s.same)
	}
	r := tensor{}
	if k, ok := n.intVal(); ok && k >= 0 && k <= 4 {
		for i := int64(0); i < k; i++ {
			r = s.plus(r, s.at(p, x, intT(i)), 1)
		}
		return r
	}
	for _, m := range p {
		m = s.renamed(m)
		if i := theOne(m, x); i != nil {
			fs := with(a.fs, m.cases()...)
			if entails(fs, ge0(i)) && entails(fs, lt(i, n)) {
				r = s.plus(r, s.at(tensor{"": &term{m.k, m.at, m.bs}}, x, i), 1)
				continue
			}
		}
		free := true
		shift, clear := int64(-1), true
		for _, t := range m.at {
			if !occurs(t, x) {
				continue
			}
			free = false
			walk(t, func(y *Term) bool {
				l := lin{}
				if y.op == "lin" {
					l = toLin(y)
				}
				switch {
				case y == x:
					clear = false
				case l.m[x] != 0:
					k := l.m[x]
					if len(l.m) != 1 || k < 1 || l.c < 0 || shift >= 0 && shift != l.c/k {
						clear = false
						return false
					}
					shift = l.c / k
					return false
				}
				return true
			})
		}
		switch {
		case free && !nested(m, x):
			q := s.times(tensor{"": &term{m.k, m.at, m.bs}}, s.from(a.num(n)))
			r = s.plus(r, q, 1)
		case clear && shift > 0 && shift <= 4 && !nested(m, x):
			one := tensor{"": &term{m.k, m.at, m.bs}}
			y := s.fresh()
			q := s.at(one, x, addK(y, -shift))
			for _, t := range q {
				t = s.renamed(t)
				s.add(r, t.k, t.at, append(append([]bound{}, t.bs...), bound{y, s.length(a.fs, addK(n, shift))}))
			}
			for i := int64(0); i < shift; i++ {
				r = s.plus(r, s.at(one, x, intT(i-shift)), -1)
			}
		default:
			y := s.fresh()
			sub := map[*Term]*Term{x: y}
			var at []*Term
			var bs []bound
			for _, t := range m.at {
				at = append(at, substFree(t, sub))
			}
			for _, b := range m.bs {
				bs = append(bs, bound{b.v, substFree(b.n, sub)})
			}
			s.add(r, m.k, at, append(bs, bound{y, s.length(a.fs, n)}))
		}
	}
	return r
}

func merge(fs, gs []*Term) []*Term {
	r := append([]*Term{}, fs...)
	for _, g := range gs {
		if !has(r, g) {
			r = append(r, g)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// cases: what holds where m counts.
func (m *term) cases() []*Term {
	var r []*Term
	for _, t := range m.at {
		if t.op == "app" && t.sym == "case·" {
			r = append(r, t.args...)
		}
	}
	return r
}

// theOne: the only position of x that counts.
func theOne(m *term, x *Term) *Term {
	for _, t := range m.at {
		if t.op != "app" || t.sym != "case·" {
			continue
		}
		for _, f := range t.args {
			if f.op != "eq0" {
				continue
			}
			l := toLin(f.args[0])
			k := l.m[x]
			if k != 1 && k != -1 {
				continue
			}
			// x = -rest/k
			r := lin{c: -l.c * k, m: map[*Term]int64{}}
			for y, c := range l.m {
				if y != x {
					r.m[y] = -c * k
				}
			}
			if i := r.term(); !occurs(i, x) {
				return i
			}
		}
	}
	return nil
}

func nested(m *term, x *Term) bool {
	for _, b := range m.bs {
		if occurs(b.n, x) {
			return true
		}
	}
	return false
}

func (s *sums) at(p tensor, x, i *Term) tensor {
	r := tensor{}
	sub := map[*Term]*Term{x: i}
	for _, m := range p {
		m = s.renamed(m)
		var at []*Term
		var bs []bound
		for _, t := range m.at {
			at = append(at, subst(t, sub))
		}
		for _, b := range m.bs {
			bs = append(bs, bound{b.v, subst(b.n, sub)})
		}
		s.add(r, m.k, at, bs)
	}
	return r
}

func (s *sums) under(a *algebra, fs ...*Term) *algebra {
	return newAlgebra(s.c, saturate(with(a.fs, fs...), nil))
}

// nf: t as a polynomial.
func (s *sums) nf(a *algebra, t *Term) tensor {
	a.d++
	defer func() { a.d-- }()
	if a.d > 120 {
		s.fail("too deep")
		return s.atomic(t)
	}
	t = stripConv(a.rs.head(t))
	n := len(t.args)
	switch t.op {
	case "choice":
		return s.choice(a, t)
	case "mu":
		if p, ok := s.sum(a, t); ok {
			return p
		}
		return s.leaf(a, t)
	case "app":
	default:
		return s.leaf(a, t)
	}
	switch t.sym {
	case "Zr.Plus", "G1.Add", "G2.Add", "Gt.Mul":
		if n == 2 {
			return s.plus(s.nf(a, t.args[0]), s.nf(a, t.args[1]), 1)
		}
	case "G1.Sub", "G2.Sub", "Zr.Minus":
		if n == 2 {
			return s.plus(s.nf(a, t.args[0]), s.nf(a, t.args[1]), -1)
		}
	case "Zr.Mul", "G1.Mul", "G2.Mul", "Gt.Exp":
		if n == 2 {
			return s.times(s.nf(a, t.args[0]), s.nf(a, t.args[1]))
		}
	case "G1.Mul2":
		if n == 4 {
			return s.plus(s.times(s.nf(a, t.args[0]), s.nf(a, t.args[1])), s.times(s.nf(a, t.args[2]), s.nf(a, t.args[3])), 1)
		}
	case "Gt.Inverse":
		if n == 1 {
			return s.plus(tensor{}, s.nf(a, t.args[0]), -1)
		}
	case "Zr.Mod":
		if n == 2 && a.isOrder(t.args[1]) {
			return s.nf(a, t.args[0])
		}
	case "Zr.InvModP":
		if n == 2 && a.isOrder(t.args[1]) {
			p := s.nf(a, t.args[0])
			if len(p) == 1 {
				for _, m := range p {
					if (m.k == 1 || m.k == -1) && len(m.bs) == 0 {
						var at []*Term
						for _, x := range m.at {
							if x.op == "app" && x.sym == "inverse·" {
								at = append(at, x.args[0])
							} else {
								at = append(at, app("inverse·", x))
							}
						}
						r := tensor{}
						s.add(r, m.k, at, nil)
						return r
					}
				}
			}
		}
	case "Curve.ModSub", "Curve.ModAdd", "Curve.ModMul":
		if n == 4 && a.isOrder(t.args[3]) {
			x, y := s.nf(a, t.args[1]), s.nf(a, t.args[2])
			switch t.sym {
			case "Curve.ModSub":
				return s.plus(x, y, -1)
			case "Curve.ModAdd":
				return s.plus(x, y, 1)
			}
			return s.times(x, y)
		}
	case "Curve.ModNeg":
		if n == 3 && a.isOrder(t.args[2]) {
			return s.plus(tensor{}, s.nf(a, t.args[1]), -1)
		}
	case "Curve.NewZrFromInt":
		if n == 2 {
			return s.from(a.num(t.args[1]))
		}
	case "Curve.Pairing":
		if n == 3 {
			return s.times(s.times(s.nf(a, t.args[1]), s.nf(a, t.args[2])), s.atomic(millerLoop))
		}
	case "Curve.FExp":
		if n == 2 {
			r := tensor{}
			for _, m := range s.nf(a, t.args[1]) {
				var rest []*Term
				k := 0
				for _, x := range m.at {
					if x == millerLoop && k == 0 {
						k++
						continue
					}
					rest = append(rest, x)
				}
				if k == 0 {
					s.fail("exponentiation of something else than a pairing")
				}
				s.add(r, m.k, rest, m.bs)
			}
			return r
		}
	}
	return s.leaf(a, t)
}

func (s *sums) leaf(a *algebra, t *Term) tensor {
	if u := a.rs.head(t); u.op == "el" && u.args[0].op == "sto" {
		base, i, v := u.args[0].args[0], u.args[0].args[1], u.args[0].args[2]
		is, rest := eqInt(u.args[1], i), elAt(base, u.args[1])
		switch {
		case is == tTrue || entails(a.fs, is):
			return s.nf(a, v)
		case entails(a.fs, not(is)):
			return s.nf(a, rest)
		}
		b := s.under(a, is)
		b.d = a.d
		if has(b.fs, tFalse) {
			return s.nf(a, rest)
		}
		d := s.plus(s.nf(b, v), s.nf(b, rest), -1)
		if !known(is) {
			s.fail("a position that is not known: %s", is.str(4))
			return s.atomic(t)
		}
		return s.plus(s.nf(a, rest), s.times(s.atomic(app("case·", is)), d), 1)
	}
	u := a.rs.deep(t)
	if u != t && (u.op == "app" || u.op == "choice" || u.op == "mu") {
		return s.nf(a, u)
	}
	p := a.atom(t)
	if len(p) == 1 {
		for _, m := range p {
			if len(m.at) == 1 && s.def != nil {
				if q, ok := s.def(a, m.at[0]); ok {
					return q
				}
			}
		}
	}
	return s.from(p)
}

// choice: the alternative that is right in every case; otherwise each of them in the cases that it is taken in.
func (s *sums) choice(a *algebra, t *Term) tensor {
	ps, alts := choiceAlts(t)
	type leaf struct {
		a    *algebra
		p    tensor
		when []*Term
	}
	var ls []leaf
	for k, alt := range alts {
		if !edgeOK(a.fs, t.sym, ps, k) {
			continue
		}
		when := edgeFacts(t.sym, ps, k)
		h := saturate(with(a.fs, when...), nil)
		if has(h, tFalse) || refute(relevant(h, nil)) {
			continue
		}
		b := newAlgebra(s.c, h)
		b.d = a.d
		ls = append(ls, leaf{b, s.nf(b, alt), when})
	}
	for _, l := range ls {
		good := true
		for _, m := range ls {
			good = good && s.nothing(m.a, s.plus(l.p, m.p, -1))
		}
		if good {
			return l.p
		}
	}
	// what happens at one position is a case of its own
	for i, l := range ls {
		if i > 0 && !hasEq(l.when) && hasEq(ls[0].when) {
			ls[0], ls[i] = ls[i], ls[0]
		}
	}
	r := tensor{}
	for i, l := range ls {
		for _, z := range s.zeros(l.a) {
			if _, _, ok := twins(z); !ok && !single(z) {
				if debugOn {
					println("HARD", z.str())
				}
				s.fail("alternatives with different values: %s", t.str(5))
				return s.atomic(t)
			}
		}
		if i == 0 {
			r = l.p
			continue
		}
		d := s.plus(l.p, ls[0].p, -1)
		if s.nothing(l.a, d) {
			continue
		}
		var when []*Term
		for _, f := range l.when {
			if !known(f) {
				s.fail("alternatives in cases that are not known: %s", t.str(5))
				return s.atomic(t)
			}
			if f.op != "all" {
				when = append(when, f)
			}
		}
		r = s.plus(r, s.times(s.atomic(app("case·", when...)), d), 1)
	}
	if len(ls) == 0 {
		s.fail("no alternative is left")
		return s.atomic(t)
	}
	return r
}

// twins: two atoms are equal.
func twins(z tensor) (x, y *Term, ok bool) {
	if len(z) != 2 {
		return nil, nil, false
	}
	sum := int64(0)
	for _, m := range z {
		if len(m.bs) > 0 || len(m.at) != 1 || m.k != 1 && m.k != -1 {
			return nil, nil, false
		}
		sum += m.k
		if x == nil {
			x = m.at[0]
		} else {
			y = m.at[0]
		}
	}
	if x.id < y.id {
		x, y = y, x
	}
	return x, y, sum == 0
}

func hasEq(fs []*Term) bool {
	for _, f := range fs {
		if f.op == "eq0" {
			return true
		}
	}
	return false
}

// single: one product is nothing.
func single(z tensor) bool {
	for _, m := range z {
		return len(z) == 1 && len(m.bs) == 0
	}
	return true
}

// zeros: what the facts say is nothing.
func (s *sums) zeros(a *algebra) []tensor {
	if z, ok := s.zs[a]; ok {
		return z
	}
	if s.zs == nil {
		s.zs = map[*algebra][]tensor{}
	}
	s.zs[a] = nil
	bad, why := s.bad, s.why
	var r []tensor
	for _, f := range a.fs {
		if f.op != "app" || !isValueTest(f) || f.sym == s.unassumed {
			continue
		}
		s.bad = false
		var p tensor
		// what it says by itself
		var others []*Term
		for _, g := range a.fs {
			if g != f {
				others = append(others, g)
			}
		}
		b := newAlgebra(s.c, others)
		b.d = a.d
		if len(f.args) == 2 {
			p = s.plus(s.nf(b, f.args[0]), s.nf(b, f.args[1]), -1)
		} else {
			p = s.nf(b, f.args[0])
		}
		if !s.bad {
			r = append(r, p)
		}
	}
	s.bad, s.why = bad, why
	s.zs[a] = r
	return r
}

// settle: sums over as many positions as the facts say.
func (s *sums) settle(a *algebra, p tensor) tensor {
	r := tensor{}
	for _, m := range p {
		done := false
		for i, b := range m.bs {
			n := a.rs.head(b.n)
			k, ok := n.intVal()
			for j := int64(0); j <= 2 && !ok; j++ {
				if entails(a.fs, eqInt(n, intT(j))) {
					k, ok = j, true
				}
			}
			if !ok || k < 0 || k > 4 {
				continue
			}
			m := s.renamed(m)
			rest := append(append([]bound{}, m.bs[:i]...), m.bs[i+1:]...)
			q := tensor{}
			for j := int64(0); j < k; j++ {
				q = s.plus(q, s.at(tensor{"": &term{m.k, m.at, rest}}, m.bs[i].v, intT(j)), 1)
			}
			r = s.plus(r, s.settle(a, q), 1)
			done = true
			break
		}
		if !done {
			var bs []bound
			for _, b := range m.bs {
				bs = append(bs, bound{b.v, s.length(a.fs, b.n)})
			}
			s.add(r, m.k, m.at, bs)
		}
	}
	return r
}

// nothing: what the facts say of values makes p vanish.
func (s *sums) nothing(a *algebra, p tensor) bool {
	if len(p) == 0 {
		return true
	}
	p = s.settle(a, p)
	if len(p) == 0 {
		return true
	}
	zs := append(append([]tensor{}, s.zeros(a)...), s.assumed...)
	for _, z := range zs {
		if x, y, ok := twins(z); ok {
			p = s.replace(p, func(t *Term) (tensor, bool) {
				if t == x {
					return s.atomic(y), true
				}
				return nil, false
			})
		}
		if len(z) != 1 {
			continue
		}
		for _, m := range z {
			if len(m.bs) > 0 {
				continue
			}
			r := tensor{}
			for _, n := range p {
				if !contains(n.at, m.at) {
					s.add(r, n.k, n.at, n.bs)
				}
			}
			p = r
		}
	}
	if len(p) == 0 {
		return true
	}
	for _, z := range zs {
		if len(s.plus(p, z, 1)) == 0 || len(s.plus(p, z, -1)) == 0 || s.multiple(p, z) {
			return true
		}
	}
	return false
}

// multiple: p is z times a monomial.
func (s *sums) multiple(p, z tensor) bool {
	if len(z) != len(p) || len(z) == 0 || len(z) > 4 {
		return false
	}
	for _, m := range z {
		for _, n := range p {
			if m.k == 0 || n.k%m.k != 0 || len(m.bs) > 0 || !contains(n.at, m.at) {
				continue
			}
			q := tensor{"": &term{n.k / m.k, without(n.at, m.at), n.bs}}
			if len(s.plus(p, s.times(q, z), -1)) == 0 {
				return true
			}
		}
		break
	}
	return false
}

// without: the factors of x but those of y.
func without(x, y []*Term) []*Term {
	n := map[*Term]int{}
	for _, t := range y {
		n[t]++
	}
	var r []*Term
	for _, t := range x {
		if n[t] > 0 {
			n[t]--
			continue
		}
		r = append(r, t)
	}
	return r
}

// contains: every factor of y is one of x.
func contains(x, y []*Term) bool {
	n := map[*Term]int{}
	for _, t := range x {
		n[t]++
	}
	for _, t := range y {
		n[t]--
		if n[t] < 0 {
			return false
		}
	}
	return true
}

// sum: a value that each round adds to.
func (s *sums) sum(a *algebra, t *Term) (tensor, bool) {
	m := muDefs[t.sym]
	if m == nil || m.next == nil || len(t.args) != 1+len(m.params) {
		return nil, false
	}
	sub := map[*Term]*Term{}
	for i, p := range m.params {
		if t.args[1+i] != p {
			sub[p] = t.args[1+i]
		}
	}
	x, acc := s.fresh(), s.fresh()
	next := subst(subst(m.next, map[*Term]*Term{m.self: acc}), map[*Term]*Term{loopVar(m.loop): x})
	self := subst(m.self, map[*Term]*Term{loopVar(m.loop): x})
	next = subst(next, map[*Term]*Term{self: acc})
	next, init := subst(next, sub), subst(m.init, sub)
	if occurs(next, subst(self, sub)) {
		return nil, false
	}
	n := t.args[0]
	b := s.under(a, ge0(x), lt(x, n))
	b.d = a.d
	if has(b.fs, tFalse) {
		return s.nf(a, init), true
	}
	def := s.def
	p := s.nf(b, next)
	s.def = def
	rest, carried, product := tensor{}, int64(0), tensor{}
	for _, m := range p {
		k := 0
		var at []*Term
		for _, y := range m.at {
			if y == acc {
				k++
				continue
			}
			if occurs(y, acc) {
				return nil, false
			}
			at = append(at, y)
		}
		switch {
		case k == 0:
			s.add(rest, m.k, at, m.bs)
		case k == 1 && len(at) == 0 && len(m.bs) == 0:
			carried += m.k
		case k == 1:
			s.add(product, m.k, at, m.bs)
		default:
			return nil, false
		}
	}
	switch {
	case carried == 1 && len(product) == 0:
		return s.plus(s.nf(a, init), s.over(a, rest, x, n), 1), true
	case carried == 0 && len(rest) == 0 && len(product) == 1:
		for _, q := range product {
			if q.k == 1 && len(q.bs) == 0 && len(q.at) == 1 && !occurs(q.at[0], x) {
				power := app("pow·", q.at[0], n)
				if q.at[0].op == "app" && q.at[0].sym == "inverse·" {
					power = app("inverse·", app("pow·", q.at[0].args[0], n))
				}
				return s.times(s.nf(a, init), s.atomic(power)), true
			}
		}
	}
	return nil, false
}

// anywhere: x whatever the positions are called.
func anywhere(x *Term) *Term {
	return rewrite(x, func(y *Term) *Term {
		if y.op == "in" && (strings.HasPrefix(y.sym, "ι") || strings.HasPrefix(y.sym, "ξ")) {
			return in("ι·")
		}
		return y
	})
}

// compare: p and q are the same.
func (s *sums) compare(a *algebra, p, q tensor) int {
	d := s.plus(p, q, -1)
	if len(d) == 0 || s.nothing(a, d) {
		return equal
	}
	if s.bad || a.soft || a.bad {
		return unknown
	}
	cases := map[*Term]bool{}
	for _, m := range d {
		n := 0
		for _, x := range m.at {
			if x.op == "app" && x.sym == "case·" {
				cases[anywhere(x)] = true
				n++
				continue
			}
			if x.op == "app" && (x.sym == "scalar" || x.sym == "inverse·" || x.sym == "pow·") {
				x = x.args[0]
			}
			if !known(x) {
				if debugOn {
					println("OPAQUE", x.str(6))
				}
				return unknown
			}
		}
		if n > 1 {
			return unknown
		}
	}
	if len(cases) > 1 {
		return unknown
	}
	return apart
}
