package main

import (
	"sort"
	"strconv"
)

// A small linear-arithmetic prover over integer terms (Fourier-Motzkin with integer tightening).
// It is used to compare index ranges; it never sees a program path.

type cons struct {
	c int64
	m map[*Term]int64 // c + Σ m[a]*a >= 0
}

func consOf(l lin) cons { return cons{l.c, l.m} }

// linOf returns the constraints of a fact, or nil when it is not linear.
func linOf(f *Term) []cons {
	switch f.op {
	case "ge0":
		return []cons{consOf(toLin(stripConv(f.args[0])))}
	case "eq0":
		l := toLin(stripConv(f.args[0]))
		return []cons{consOf(l), consOf(lin{m: map[*Term]int64{}}.add(l, -1))}
	case "bool":
		if f == tFalse {
			return []cons{{-1, nil}}
		}
	}
	return nil
}

func isDiseq(f *Term) bool { return f.op == "not" && f.args[0].op == "eq0" }

func isLinear(f *Term) bool {
	return f.op == "ge0" || f.op == "eq0" || isDiseq(f) || f == tFalse || f == tTrue
}

// axioms of an atom
func axioms(a *Term) []cons {
	nonneg := cons{0, map[*Term]int64{a: 1}}
	switch a.op {
	case "len", "trip", "brk", "lv", "mapkey":
		return []cons{nonneg}
	case "app":
		switch a.sym {
		case "div":
			if k, ok := a.args[1].intVal(); ok && k > 0 {
				// k*q <= x <= k*q + k-1 for x >= 0
				x := toLin(stripConv(a.args[0]))
				lo := x.add(lin{m: map[*Term]int64{a: k}}, -1)
				hi := lin{c: k - 1, m: map[*Term]int64{a: k}}.add(x, -1)
				return []cons{consOf(lo), consOf(hi), nonneg}
			}
		case "mod":
			if k, ok := a.args[1].intVal(); ok && k > 0 {
				return []cons{nonneg, {k - 1, map[*Term]int64{a: -1}}}
			}
		case "min":
			if len(a.args) == 2 {
				x := toLin(stripConv(a.args[0])).add(lin{m: map[*Term]int64{a: 1}}, -1)
				y := toLin(stripConv(a.args[1])).add(lin{m: map[*Term]int64{a: 1}}, -1)
				return []cons{consOf(x), consOf(y)}
			}
		case "conv:uint8":
			return []cons{nonneg, {255, map[*Term]int64{a: -1}}}
		case "shr":
			return []cons{nonneg}
		}
	}
	return nil
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (c cons) norm() cons {
	var g int64
	for _, k := range c.m {
		g = gcd(g, k)
	}
	if g <= 1 {
		return c
	}
	r := cons{0, map[*Term]int64{}}
	for a, k := range c.m {
		r.m[a] = k / g
	}
	// floor division
	q := c.c / g
	if c.c%g != 0 && c.c < 0 {
		q--
	}
	r.c = q
	return r
}

// refute: the facts are contradictory.
func refute(facts []*Term) bool {
	var base []cons
	var dis []*Term
	seen := map[*Term]bool{}
	var addAtoms func(c cons)
	addAtoms = func(c cons) {
		for a := range c.m {
			if !seen[a] {
				seen[a] = true
				for _, x := range axioms(a) {
					base = append(base, x)
					addAtoms(x)
				}
			}
		}
	}
	for _, f := range facts {
		if f == tFalse {
			return true
		}
		if isDiseq(f) {
			dis = append(dis, f.args[0].args[0])
			continue
		}
		for _, c := range linOf(f) {
			base = append(base, c)
			addAtoms(c)
		}
	}
	for _, d := range dis {
		addAtoms(consOf(toLin(stripConv(d))))
	}
	// disequalities on atoms that no other constraint mentions cannot matter
	var rel []*Term
	atoms := map[*Term]bool{}
	for _, c := range base {
		for a := range c.m {
			atoms[a] = true
		}
	}
	for _, d := range dis {
		ok := true
		for a := range toLin(stripConv(d)).m {
			if !atoms[a] {
				ok = false
			}
		}
		if ok {
			rel = append(rel, d)
		}
	}
	if len(rel) > 4 {
		rel = rel[len(rel)-4:]
	}
	return refuteSplit(base, rel)
}

func refuteSplit(base []cons, dis []*Term) bool {
	if fm(base) {
		return true
	}
	if len(dis) == 0 {
		return false
	}
	l := toLin(stripConv(dis[0]))
	pos := consOf(l.add(lin{c: 1, m: map[*Term]int64{}}, -1))
	neg := consOf(lin{c: -1, m: map[*Term]int64{}}.add(l, -1))
	return refuteSplit(append(append([]cons(nil), base...), pos), dis[1:]) &&
		refuteSplit(append(append([]cons(nil), base...), neg), dis[1:])
}

func fm(cs []cons) bool {
	dedup := func(cs []cons) ([]cons, bool) {
		best := map[string]int{}
		var r []cons
		for _, c := range cs {
			c = c.norm()
			if len(c.m) == 0 {
				if c.c < 0 {
					return nil, true
				}
				continue
			}
			k := consKey(c)
			if i, ok := best[k]; ok {
				if c.c < r[i].c {
					r[i] = c
				}
				continue
			}
			best[k] = len(r)
			r = append(r, c)
		}
		return r, false
	}
	cs, bad := dedup(cs)
	if bad {
		return true
	}
	for {
		// pick the atom with the cheapest elimination
		pos, neg := map[*Term]int{}, map[*Term]int{}
		var atoms []*Term
		for _, c := range cs {
			for a, k := range c.m {
				if pos[a] == 0 && neg[a] == 0 {
					atoms = append(atoms, a)
				}
				if k > 0 {
					pos[a]++
				} else {
					neg[a]++
				}
			}
		}
		if len(atoms) == 0 {
			return false
		}
		sort.Slice(atoms, func(i, j int) bool {
			x, y := pos[atoms[i]]*neg[atoms[i]], pos[atoms[j]]*neg[atoms[j]]
			if x != y {
				return x < y
			}
			return atoms[i].id < atoms[j].id
		})
		a := atoms[0]
		if pos[a]*neg[a] > 400 {
			return false
		}
		var ps, ns, rest []cons
		for _, c := range cs {
			switch k := c.m[a]; {
			case k > 0:
				ps = append(ps, c)
			case k < 0:
				ns = append(ns, c)
			default:
				rest = append(rest, c)
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				kp, kn := p.m[a], -n.m[a]
				l := lin{c: 0, m: map[*Term]int64{}}.add(lin{p.c, p.m}, kn).add(lin{n.c, n.m}, kp)
				rest = append(rest, consOf(l))
			}
		}
		cs, bad = dedup(rest)
		if bad {
			return true
		}
		if len(cs) > 500 {
			return false
		}
	}
}

func consKey(c cons) string {
	var buf [96]byte
	ids := make([]int, 0, 8)
	for a := range c.m {
		ids = append(ids, a.id)
	}
	sort.Ints(ids)
	b := buf[:0]
	for _, id := range ids {
		b = strconv.AppendInt(b, int64(id), 32)
		b = append(b, ':')
		b = strconv.AppendInt(b, c.m[termList[id]], 32)
		b = append(b, ',')
	}
	return string(b)
}

// relevant keeps the linear facts connected to the goal's atoms.
func relevant(facts []*Term, goal []*Term) []*Term {
	atoms := map[*Term]bool{}
	note := func(f *Term) {
		x := f
		if isDiseq(f) {
			x = f.args[0]
		}
		if len(x.args) == 0 {
			return
		}
		var rec func(t *Term, d int)
		rec = func(t *Term, d int) {
			for a := range toLin(stripConv(t)).m {
				if atoms[a] {
					continue
				}
				atoms[a] = true
				if a.op == "app" && (a.sym == "div" || a.sym == "mod" || a.sym == "min") && d < 4 {
					for _, y := range a.args {
						rec(y, d+1)
					}
				}
			}
		}
		rec(x.args[0], 0)
	}
	for _, g := range goal {
		note(g)
	}
	var r []*Term
	used := map[*Term]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range facts {
			if used[f] || !isLinear(f) || f == tTrue {
				continue
			}
			x := f
			if isDiseq(f) {
				x = f.args[0]
			}
			if len(x.args) == 0 {
				used[f] = true
				r = append(r, f)
				continue
			}
			hit := false
			for a := range toLin(stripConv(x.args[0])).m {
				if atoms[a] {
					hit = true
				}
				if a.op == "app" {
					for _, y := range a.args {
						for b := range toLin(stripConv(y)).m {
							if atoms[b] {
								hit = true
							}
						}
					}
				}
			}
			if hit {
				used[f] = true
				r = append(r, f)
				note(f)
				ch = true
			}
		}
	}
	if len(r) > 80 {
		r = r[:80]
	}
	return r
}

// ---- disjunctions of conjunctions of linear facts ----

type conj []*Term
type dnf []conj

var dTrue = dnf{{}}

func (d dnf) isTrue() bool {
	for _, c := range d {
		if len(c) == 0 {
			return true
		}
	}
	return false
}

const dnfCap = 48

func dOr(a, b dnf) dnf {
	if a.isTrue() || b.isTrue() {
		return dTrue
	}
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	r := append(append(dnf(nil), a...), b...)
	return r.simp()
}

func dAnd(a, b dnf) dnf {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() {
		return a
	}
	var r dnf
	for _, x := range a {
		for _, y := range b {
			r = append(r, append(append(conj(nil), x...), y...))
		}
	}
	return r.simp()
}

func (d dnf) simp() dnf {
	seen := map[string]bool{}
	var r dnf
	for _, c := range d {
		m := map[*Term]bool{}
		var n conj
		bad := false
		for _, f := range c {
			if f == tTrue || m[f] {
				continue
			}
			if f == tFalse || m[not(f)] {
				bad = true
				break
			}
			m[f] = true
			n = append(n, f)
		}
		if bad {
			continue
		}
		sort.Slice(n, func(i, j int) bool { return n[i].id < n[j].id })
		k := ""
		for _, f := range n {
			k += itoa(f.id) + ","
		}
		if !seen[k] {
			seen[k] = true
			r = append(r, n)
		}
	}
	if r.isTrue() {
		return dTrue
	}
	if len(r) > 1 {
		sort.SliceStable(r, func(i, j int) bool { return len(r[i]) < len(r[j]) })
		var k dnf
		for _, c := range r {
			sup := false
			for _, b := range k {
				if subsumes(b, c) {
					sup = true
					break
				}
			}
			if !sup {
				k = append(k, c)
			}
		}
		r = k
	}
	if len(r) > dnfCap {
		r = r[:dnfCap]
	}
	return r
}

// subsumes: every literal of b occurs in c (both sorted by id).
func subsumes(b, c conj) bool {
	i := 0
	for _, f := range c {
		if i < len(b) && b[i] == f {
			i++
		}
	}
	return i == len(b)
}

func lit(f *Term) dnf {
	if f == tTrue {
		return dTrue
	}
	if f == tFalse {
		return nil
	}
	return dnf{{f}}
}

// holds: facts imply d.
func holds(facts []*Term, d dnf) bool {
	if d.isTrue() {
		return true
	}
	var goal []*Term
	for _, c := range d {
		goal = append(goal, c...)
	}
	rel := relevant(facts, goal)
	var dd dnf
	for _, c := range d {
		if len(c) <= 6 && refute(append(append([]*Term(nil), rel...), c...)) {
			continue
		}
		dd = append(dd, c)
	}
	d = dd
	n := 0
	var rec func(fs []*Term, i int) bool
	rec = func(fs []*Term, i int) bool {
		n++
		if n > 600 {
			return false
		}
		if i == len(d) {
			return refute(fs)
		}
		for _, l := range d[i] {
			nf := not(l)
			if has(fs, l) {
				continue // ¬l contradicts
			}
			g := append(append([]*Term(nil), fs...), nf)
			if i < len(d)-1 && len(d[i]) > 1 && refute(g) {
				continue
			}
			if !rec(g, i+1) {
				return false
			}
		}
		return true
	}
	return rec(rel, 0)
}

func has(fs []*Term, f *Term) bool {
	for _, x := range fs {
		if x == f {
			return true
		}
	}
	return false
}

// entails: facts imply the (linear or syntactic) fact f.
func entails(facts []*Term, f *Term) bool {
	if f == tTrue || has(facts, f) {
		return true
	}
	if f.op == "eq0" {
		return holds(facts, lit(ge0(f.args[0]))) && holds(facts, lit(ge0(mulK(f.args[0], -1))))
	}
	if !isLinear(f) {
		return false
	}
	return holds(facts, lit(f))
}

// contradicts: facts imply not f
func contradicts(facts []*Term, f *Term) bool {
	if f == tFalse || has(facts, not(f)) {
		return true
	}
	if !isLinear(f) {
		return false
	}
	if f.op == "eq0" {
		return refute(append(relevant(facts, []*Term{f}), f))
	}
	return refute(append(relevant(facts, []*Term{f}), f))
}

func inRange(k, n *Term) conj { return conj{ge0(k), lt(k, n)} }
