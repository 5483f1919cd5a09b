package main

import (
	"sort"
	"strings"
)

// Challenges: scalars derived from digests, and the elements they are applied to.

// use is an occurrence of a term together with what is known at it (ranges of the loop variables it
// mentions, conditions of the alternatives it is in).
type use struct {
	t     *Term
	conds []*Term
}

// visitor walks terms through comprehensions, fixpoint definitions and alternatives.
type visitor struct {
	seen map[*Term]bool
	stop func(t *Term) bool
	f    func(t *Term, conds []*Term)
}

func visit(t *Term, conds []*Term, stop func(*Term) bool, f func(t *Term, conds []*Term)) {
	v := &visitor{seen: map[*Term]bool{}, stop: stop, f: f}
	v.walk(t, conds)
}

func with(conds []*Term, more ...*Term) []*Term {
	return append(append([]*Term(nil), conds...), more...)
}

func (v *visitor) walk(t *Term, conds []*Term) {
	if v.seen[t] {
		return
	}
	v.seen[t] = true
	if v.stop != nil && v.stop(t) {
		return
	}
	v.f(t, conds)
	switch t.op {
	case "lsto", "mlsto", "lcat", "all":
		lv := loopVar(t.sym)
		T := t.args[1]
		if t.op == "all" {
			T = t.args[0]
		}
		in := with(conds, inRange(lv, T)...)
		for i, a := range t.args {
			if binds(t, i) {
				v.walk(a, in)
			} else {
				v.walk(a, conds)
			}
		}
		return
	case "mu", "muv":
		for _, a := range t.args {
			v.walk(a, conds)
		}
		if d := muDefs[t.sym]; d != nil && d.next != nil {
			sub := map[*Term]*Term{}
			for i, p := range d.params {
				if 1+i < len(t.args) && t.args[1+i] != p {
					sub[p] = t.args[1+i]
				}
			}
			init, next := subst(d.init, sub), subst(d.next, sub)
			v.walk(init, conds)
			T := t.args[0]
			if d.trip != nil {
				T = subst(d.trip, sub)
			}
			v.walk(next, with(conds, inRange(loopVar(d.loop), T)...))
		}
		return
	case "choice":
		params, alts := choiceAlts(t)
		for k, a := range alts {
			v.walk(a, with(conds, linearOnly(edgeFacts(t.sym, params, k))...))
		}
		return
	}
	for _, a := range t.args {
		v.walk(a, conds)
	}
}

func linearOnly(fs []*Term) []*Term {
	var r []*Term
	for _, f := range fs {
		if isLinear(f) && f != tTrue {
			r = append(r, f)
		}
	}
	return r
}

// application: base is raised to (multiplied by) exp.
type application struct {
	base, exp *Term
	conds     []*Term
}

func isMul(t *Term) bool {
	if t.op != "app" || len(t.args) != 2 {
		return false
	}
	switch t.sym {
	case "G1.Mul", "G2.Mul", "Gt.Exp", "Zr.Mul":
		return true
	}
	return false
}

// applications: everything that is multiplied by a scalar in the terms. A scalar on one side of a
// pairing multiplies the other side as well.
func applications(ts []use) []application {
	var r []application
	seen := map[[2]*Term]bool{}
	add := func(b, e *Term, conds []*Term) {
		if !seen[[2]*Term{b, e}] {
			seen[[2]*Term{b, e}] = true
			r = append(r, application{b, e, conds})
		}
	}
	v := &visitor{seen: map[*Term]bool{}}
	v.f = func(t *Term, conds []*Term) {
		if isMul(t) {
			add(t.args[0], t.args[1], conds)
			if t.sym == "Zr.Mul" {
				add(t.args[1], t.args[0], conds)
			}
		}
		if t.op == "app" && t.sym == "Curve.Pairing" && len(t.args) == 3 {
			for k := 1; k <= 2; k++ {
				o := t.args[3-k]
				visit(t.args[k], conds, nil, func(x *Term, cs []*Term) {
					if isMul(x) {
						add(o, x.args[1], cs)
					}
				})
			}
		}
	}
	for _, t := range ts {
		v.walk(t.t, t.conds)
	}
	return r
}

// challengesIn: the outermost digests of a scalar. Results of nested verifications are not looked into.
func challengesIn(e *Term, conds []*Term) []use {
	var r []use
	v := &visitor{seen: map[*Term]bool{}}
	v.stop = func(t *Term) bool {
		if isPred(t) || t.op == "app" && (t.sym == "Curve.HashToG1" || t.sym == "digest") {
			return true
		}
		return false
	}
	// digests are reported where the walk stops
	v.f = func(t *Term, conds []*Term) {
		kids(t, func(a *Term, cs []*Term) {
			if a.op == "app" && a.sym == "digest" {
				r = append(r, use{a, with(conds, cs...)})
			}
		})
	}
	if e.op == "app" && e.sym == "digest" {
		return []use{{e, conds}}
	}
	v.walk(e, conds)
	seen := map[*Term]bool{}
	var u []use
	for _, x := range r {
		if !seen[x.t] {
			seen[x.t] = true
			u = append(u, x)
		}
	}
	return u
}

// kids: the immediate subterms of t with the conditions under which they are evaluated.
func kids(t *Term, f func(a *Term, conds []*Term)) {
	switch t.op {
	case "mu", "muv":
		if d := muDefs[t.sym]; d != nil && d.next != nil {
			sub := map[*Term]*Term{}
			for i, p := range d.params {
				if 1+i < len(t.args) && t.args[1+i] != p {
					sub[p] = t.args[1+i]
				}
			}
			f(subst(d.init, sub), nil)
			T := t.args[0]
			if d.trip != nil {
				T = subst(d.trip, sub)
			}
			f(subst(d.next, sub), inRange(loopVar(d.loop), T))
		}
	case "choice":
		params, alts := choiceAlts(t)
		for k, a := range alts {
			f(a, linearOnly(edgeFacts(t.sym, params, k)))
		}
		return
	}
	for i, a := range t.args {
		if binds(t, i) {
			T := t.args[1]
			if t.op == "all" {
				T = t.args[0]
			}
			f(a, inRange(loopVar(t.sym), T))
		} else {
			f(a, nil)
		}
	}
}

// about: the term b involves (part of) the input sequence or element x.
func about(b, x *Term) bool {
	k := [2]int{b.id, x.id}
	if r, ok := aboutMemo[k]; ok {
		return r
	}
	found := false
	v := &visitor{seen: map[*Term]bool{}}
	v.stop = func(t *Term) bool {
		if t == x {
			found = true
		}
		return found || isPred(t) || t.op == "len" || t.op == "app" && (t.sym == "digest" || t.sym == "Curve.HashToG1")
	}
	v.f = func(*Term, []*Term) {}
	v.walk(b, nil)
	aboutMemo[k] = found
	return found
}

var aboutMemo = map[[2]int]bool{}

// ground replaces the loop variables of a use by fresh constants.
func ground(u use) use {
	vars := map[*Term]bool{}
	collect := func(t *Term) {
		walk(t, func(x *Term) bool {
			if x.op == "lv" && t.hasFV(x) {
				vars[x] = true
			}
			return true
		})
	}
	collect(u.t)
	for _, c := range u.conds {
		collect(c)
	}
	if len(vars) == 0 {
		return u
	}
	m := map[*Term]*Term{}
	for v := range vars {
		m[v] = in("k:" + v.sym)
	}
	g := use{t: subst(u.t, m)}
	for _, c := range u.conds {
		g.conds = append(g.conds, subst(c, m))
	}
	return g
}

// constantsOf: the fresh constants of a grounded use.
func constantsOf(u use) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	walk(u.t, func(x *Term) bool {
		if x.op == "in" && hasPrefix(x.sym, "k:") && !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
		return true
	})
	sort.Slice(r, func(i, j int) bool { return r[i].sym < r[j].sym })
	return r
}

// boundBy: the digest u determines (absorbs in full) the element l, wherever u is evaluated.
func boundBy(fs []*Term, u use, l leaf) bool {
	g := with(with(fs, u.conds...), l.conds...)
	foc := with(u.conds, l.conds...)
	if refute(relevant(g, foc)) {
		return true
	}
	ts := append(append([]*Term(nil), l.idx...), constantsOf(u)...)
	s := saturate(g, ts)
	if has(s, tFalse) {
		return true
	}
	q := newQuery(l.t, false, s)
	q.strict = true
	if q.ask(u.t) {
		return true
	}
	return false
}

// wholeDigest: the scalar uses all 32 bytes of each digest in it.
func partialDigests(e *Term, conds []*Term) []*Term {
	type rng struct{ lo, hi int64 }
	parts := map[*Term][]rng{}
	whole := map[*Term]bool{}
	v := &visitor{seen: map[*Term]bool{}}
	v.stop = func(t *Term) bool {
		return isPred(t) || t.op == "app" && (t.sym == "Curve.HashToG1" || t.sym == "digest")
	}
	isD := func(t *Term) bool { return t.op == "app" && t.sym == "digest" }
	v.f = func(t *Term, conds []*Term) {
		if (t.op == "sub" || t.op == "el") && isD(t.args[0]) {
			o, ok1 := t.args[1].intVal()
			n, ok2 := int64(1), true
			if t.op == "sub" {
				n, ok2 = t.args[2].intVal()
			}
			if ok1 && ok2 {
				parts[t.args[0]] = append(parts[t.args[0]], rng{o, o + n})
			} else {
				whole[t.args[0]] = true
			}
			return
		}
		kids(t, func(a *Term, _ []*Term) {
			if isD(a) {
				whole[a] = true
			}
		})
	}
	v.walk(e, conds)
	var r []*Term
	for d, ps := range parts {
		if whole[d] {
			continue
		}
		var cov [32]bool
		for _, p := range ps {
			for i := p.lo; i < p.hi && i < 32; i++ {
				if i >= 0 {
					cov[i] = true
				}
			}
		}
		for _, c := range cov {
			if !c {
				r = append(r, d)
				break
			}
		}
	}
	return r
}

// ---- integers in digests ----

// isInt: t is the integer p, or an element of the integer sequence p.
func isInt(t, p *Term) bool {
	return t == p || t.op == "el" && mentions(t.args[0], p) && !mentions(t.args[1], p)
}

// bitsOf: which bits of the integer p the (byte or word) term t determines; ok is false when t does
// not involve p. Unknown operators count as determining everything.
func bitsOf(t, p *Term) (uint64, bool) {
	full := ^uint64(0)
	if isInt(t, p) {
		return full, true
	}
	if !mentions(t, p) {
		return 0, false
	}
	switch t.op {
	case "lin":
		return full, true
	case "sub":
		// some bytes of an encoded integer
		e := t.args[0]
		off, ok1 := t.args[1].intVal()
		n, ok2 := t.args[2].intVal()
		w := putWidth(e)
		if w == 0 || !ok1 || !ok2 || off < 0 || n < 0 || off+n > int64(w/8) {
			return full, true
		}
		b, ok := bitsOf(e.args[0], p)
		if !ok {
			return 0, false
		}
		if w < 64 {
			b = lowBits(e.args[0], p, w, b)
		}
		if !isInt(stripConv(e.args[0]), p) {
			return b, true // the bits are shifted
		}
		var mask uint64
		for j := off; j < off+n; j++ {
			at := j
			if strings.HasSuffix(e.sym, ":be") {
				at = int64(w/8) - 1 - j
			}
			mask |= 0xff << uint(8*at)
		}
		return b & mask, true
	case "app":
		switch {
		case hasPrefix(t.sym, "conv:"):
			b, ok := bitsOf(t.args[0], p)
			if !ok {
				return 0, false
			}
			if w := convWidth(t.sym[5:]); w < 64 {
				return lowBits(t.args[0], p, w, b), true
			}
			return b, true
		case t.sym == "shr" || t.sym == "div":
			return highBits(t, p), true
		case t.sym == "bin:&":
			for i := 0; i < 2; i++ {
				if m, ok := t.args[1-i].intVal(); ok {
					if x, ok := bitsOf(t.args[i], p); ok {
						_ = x
						return maskBits(t.args[i], p, uint64(m)), true
					}
				}
			}
			return full, true
		case hasPrefix(t.sym, "putint:"):
			w := putWidth(t)
			b, ok := bitsOf(t.args[0], p)
			if ok && w < 64 {
				b = lowBits(t.args[0], p, w, b)
			}
			return b, ok
		}
	}
	return full, true
}

// putWidth: the bits of an encoded integer, 0 for other terms.
func putWidth(t *Term) int {
	if t.op != "app" || !hasPrefix(t.sym, "putint:") {
		return 0
	}
	w := 0
	for _, c := range t.sym[7:] {
		if c < '0' || c > '9' {
			break
		}
		w = w*10 + int(c-'0')
	}
	return w
}

func convWidth(s string) int {
	switch s {
	case "byte", "uint8", "int8":
		return 8
	case "uint16", "int16":
		return 16
	case "uint32", "int32":
		return 32
	}
	return 64
}

// shiftOf: t = p >> s.
func shiftOf(t, p *Term) (int, bool) {
	s := 0
	for {
		if isInt(t, p) || t.op == "lin" {
			return s, true
		}
		if t.op != "app" {
			return 0, false
		}
		switch {
		case t.sym == "shr":
			n, ok := t.args[1].intVal()
			if !ok {
				return 0, false
			}
			s += int(n)
			t = t.args[0]
		case t.sym == "div":
			n, ok := t.args[1].intVal()
			k := 0
			for ok && n > 1 && n%2 == 0 {
				n /= 2
				k++
			}
			if !ok || n != 1 {
				return 0, false
			}
			s += k
			t = t.args[0]
		case hasPrefix(t.sym, "conv:") && convWidth(t.sym[5:]) == 64:
			t = t.args[0]
		default:
			return 0, false
		}
	}
}

func lowBits(t, p *Term, w int, b uint64) uint64 {
	s, ok := shiftOf(t, p)
	if !ok {
		if t.op == "app" && (hasPrefix(t.sym, "conv:") || t.sym == "bin:&") {
			return b
		}
		return ^uint64(0)
	}
	if s >= 64 {
		return 0
	}
	return (uint64(1)<<uint(w) - 1) << uint(s) & b
}

func highBits(t, p *Term) uint64 {
	s, ok := shiftOf(t, p)
	if !ok || s >= 64 {
		return ^uint64(0)
	}
	return ^uint64(0) << uint(s)
}

func maskBits(t, p *Term, m uint64) uint64 {
	s, ok := shiftOf(t, p)
	if !ok || s >= 64 {
		return ^uint64(0)
	}
	return m << uint(s)
}

// bitsAbsorbed: the bits of the integer p that the digest u determines.
func bitsAbsorbed(u *Term, p *Term) uint64 {
	var bits uint64
	v := &visitor{seen: map[*Term]bool{}}
	v.f = func(t *Term, _ []*Term) {}
	v.stop = func(t *Term) bool {
		if t.op == "app" && (hasPrefix(t.sym, "putint:") || hasPrefix(t.sym, "conv:") || hasPrefix(t.sym, "sprintf:")) ||
			t.op == "sub" && putWidth(t.args[0]) > 0 || t.op == "lin" || isInt(t, p) {
			if b, ok := bitsOf(t, p); ok {
				bits |= b
			}
			return true
		}
		// p in an index position does not make its bits part of the data
		if t.op == "len" {
			return true
		}
		if t.op == "el" || t.op == "fld" {
			v.walk(t.args[0], nil)
			return true
		}
		if t.op == "sub" || t.op == "cpy" {
			return false
		}
		return false
	}
	v.walk(u, nil)
	return bits
}
