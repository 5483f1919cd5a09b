package main

import (
	"strconv"
	"strings"
)

func itoa(n int) string { return strconv.Itoa(n) }

// query asks whether the value of a term depends on one element p of the inputs, for every run that
// satisfies the facts. The answer is the set of index conditions under which it does.
type query struct {
	p      *Term
	anc    []*Term // p and the terms it is a projection of
	cut    bool    // do not look through hashes: algebraic dependence only
	facts  []*Term
	memo   map[string]dnf
	active map[string]bool
	depth  int
	strict bool
}

func newQuery(p *Term, cut bool, facts []*Term) *query {
	q := &query{p: p, cut: cut, facts: facts, memo: map[string]dnf{}, active: map[string]bool{}}
	for t := p; ; {
		q.anc = append(q.anc, t)
		if (t.op == "fld" || t.op == "el" || t.op == "mget") && len(t.args) > 0 {
			t = t.args[0]
			continue
		}
		break
	}
	return q
}

// unify: conditions under which two projection chains denote the same thing.
func unify(a, b *Term) (conj, bool) {
	if a == b {
		return nil, true
	}
	if a.op != b.op {
		return nil, false
	}
	switch a.op {
	case "fld":
		if a.sym != b.sym {
			return nil, false
		}
		return unify(a.args[0], b.args[0])
	case "el":
		c, ok := unify(a.args[0], b.args[0])
		if !ok {
			return nil, false
		}
		e := eqInt(a.args[1], b.args[1])
		if e == tFalse {
			return nil, false
		}
		if e != tTrue {
			if x, ok := congruent(e); ok {
				return append(append(conj(nil), c...), x...), true
			}
			c = append(append(conj(nil), c...), e)
		}
		return c, true
	case "mget":
		c, ok := unify(a.args[0], b.args[0])
		if !ok {
			return nil, false
		}
		e := eqInt(a.args[1], b.args[1])
		if e == tFalse {
			return nil, false
		}
		if e != tTrue {
			c = append(append(conj(nil), c...), e)
		}
		return c, true
	}
	return nil, false
}

// congruent: x[i] = x[j] follows from i = j.
func congruent(e *Term) (conj, bool) {
	if e.op != "eq0" {
		return nil, false
	}
	l := toLin(stripConv(e.args[0]))
	if l.c != 0 || len(l.m) != 2 {
		return nil, false
	}
	var ts []*Term
	sum := int64(0)
	for a, k := range l.m {
		ts = append(ts, a)
		sum += k
	}
	if sum != 0 || ts[0].op != "el" || ts[1].op != "el" {
		return nil, false
	}
	return unify(ts[0], ts[1])
}

func (q *query) ancUnify(t *Term) (dnf, int) {
	if t.op != "el" && t.op != "fld" && t.op != "mget" {
		for i, a := range q.anc {
			if a == t {
				return dTrue, i
			}
		}
		return nil, -1
	}
	for i, a := range q.anc {
		if c, ok := unify(t, a); ok {
			return dnf{c}.simp(), i
		}
	}
	return nil, -1
}

func (q *query) ask(t *Term) bool { return holds(q.facts, q.cov(t)) }

func (q *query) key(t *Term) string {
	k := itoa(t.id)
	if len(q.active) > 0 {
		var ks []string
		for a, on := range q.active {
			if on {
				ks = append(ks, a)
			}
		}
		sortStrings(ks)
		k += "|" + strings.Join(ks, ",")
	}
	return k
}

func (q *query) cov(t *Term) dnf {
	if !q.mayMention(t) {
		return nil
	}
	k := q.key(t)
	if r, ok := q.memo[k]; ok {
		return r
	}
	if q.depth > 400 {
		return dTrue
	}
	q.depth++
	q.memo[k] = nil
	r := q.cov1(t)
	q.depth--
	q.memo[k] = r
	return r
}

// mayMention: cheap over-approximation, looking through fixpoint definitions.
func (q *query) mayMention(t *Term) bool {
	root := q.anc[len(q.anc)-1]
	return mayMention(t, root, q.p)
}

var mentionMemo = map[[2]int]bool{}

func mayMention(t, root, p *Term) bool {
	k := [2]int{t.id, root.id}
	if r, ok := mentionMemo[k]; ok {
		return r
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	shape := root == p && (p.op == "app" || p.op == "choice")
	rec = func(t *Term) bool {
		if t == root || shape && t.op == p.op && t.sym == p.sym {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		if t.op == "mu" || t.op == "muv" {
			if d := muDefs[t.sym]; d != nil && d.next != nil {
				return rec(d.init) || rec(d.next)
			}
		}
		if t.op == "choice" {
			if ti := tokens[t.sym]; ti != nil {
				for _, es := range ti.edges {
					for _, e := range es {
						if rec(e) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	r := rec(t)
	mentionMemo[k] = r
	return r
}

func (q *query) any(ts []*Term) dnf {
	var r dnf
	for _, a := range ts {
		r = dOr(r, q.cov(a))
		if r.isTrue() {
			return dTrue
		}
	}
	return r
}

func (q *query) cov1(t *Term) dnf {
	if d, i := q.ancUnify(t); i >= 0 {
		return d
	}
	switch t.op {
	case "int", "str", "bool", "nil", "len", "uniq", "func", "lv", "in", "glob", "trip", "brk":
		return nil
	case "el":
		return dOr(q.elem(t.args[0], t.args[1]), q.cov(t.args[1]))
	case "fld":
		return q.base(t.args[0])
	case "mget", "mhas":
		return dOr(q.base(t.args[0]), q.cov(t.args[1]))
	case "sub":
		c := t.args[0]
		if d, i := q.ancUnify(c); i > 0 {
			if n := q.anc[i-1]; n.op == "el" {
				k := n.args[1]
				return dAnd(d, dnf{conj{ge0(subT(k, t.args[1])), lt(k, add(t.args[1], t.args[2]))}})
			}
		}
		return q.segment(c, t.args[1], t.args[2])
	case "sto":
		r := q.cov(t.args[2])
		if r.isTrue() {
			return r
		}
		c := t.args[0]
		if d, i := q.ancUnify(c); i > 0 {
			if n := q.anc[i-1]; n.op == "el" {
				return dOr(r, dAnd(d, lit(not(eqInt(n.args[1], t.args[1])))))
			}
		}
		return dOr(r, q.without(c, t.args[1]))
	case "lsto", "mlsto":
		lv := loopVar(t.sym)
		r := q.exists(lv, t.args[1], t.args[3])
		r = dOr(r, q.exists(lv, t.args[1], t.args[2]))
		if t.op == "lsto" && t.args[2] == lv && lenOf(t.args[0]) == t.args[1] {
			return r // entirely overwritten
		}
		return dOr(r, q.cov(t.args[0]))
	case "lcat":
		lv := loopVar(t.sym)
		return dOr(q.exists(lv, t.args[1], t.args[2]), q.cov(t.args[0]))
	case "mkseq":
		return q.cov(t.args[1])
	case "cpy":
		r := q.segment(t.args[2], zeroInt, t.args[3])
		if o, ok := t.args[1].intVal(); ok && o == 0 && lenOf(t.args[0]) == t.args[3] {
			return r
		}
		return dOr(r, q.cov(t.args[0]))
	case "mu":
		return q.mu(t.sym, t.args[0], t.args[1:], t)
	case "muv":
		return q.mu(t.sym, t.args[0], t.args[1:], t)
	case "choice":
		return q.choice(t)
	case "app":
		if t.sym == "digest" || strings.HasPrefix(t.sym, "callfn") {
			if q.cut {
				return nil
			}
		}
		if t.sym == "errorf" || t.sym == "uninit" {
			return nil
		}
		if q.strict && isPred(t) {
			if j, ok := passedThrough[t.sym]; ok && j < len(t.args) {
				return q.cov(t.args[j])
			}
			return nil
		}
	}
	return q.any(t.args)
}

// elem: element i of the sequence c.
func (q *query) elem(c, i *Term) dnf {
	switch c.op {
	case "lsto", "mlsto":
		lv := loopVar(c.sym)
		idx, v := c.args[2], c.args[3]
		if k := solve(idx, i, lv); k != nil {
			m := map[*Term]*Term{lv: k}
			rng := inRange(k, c.args[1])
			hit := dAnd(dnf{rng}.simp(), q.cov(subst(v, m)))
			miss := q.elem(c.args[0], i)
			if len(miss) > 0 {
				miss = dAnd(miss, dOr(lit(not(rng[0])), lit(not(rng[1]))))
			}
			return dOr(hit, miss)
		}
		return dOr(q.exists(lv, c.args[1], v), q.elem(c.args[0], i))
	case "lcat":
		lv := loopVar(c.sym)
		e := c.args[2]
		l0 := lenOf(c.args[0])
		if e.op == "lit" && len(e.args) == 1 {
			k := subT(i, l0)
			hit := dAnd(dnf{inRange(k, c.args[1])}.simp(), q.cov(subst(e.args[0], map[*Term]*Term{lv: k})))
			miss := dAnd(q.elem(c.args[0], i), lit(lt(i, l0)))
			return dOr(hit, miss)
		}
		return dOr(q.exists(lv, c.args[1], e), q.elem(c.args[0], i))
	case "sto", "msto":
		hit := dAnd(lit(eqInt(c.args[1], i)), q.cov(c.args[2]))
		miss := q.elem(c.args[0], i)
		if len(miss) > 0 {
			miss = dAnd(miss, lit(not(eqInt(c.args[1], i))))
		}
		return dOr(hit, miss)
	case "cat":
		l := lenOf(c.args[0])
		return dOr(dAnd(lit(lt(i, l)), q.elem(c.args[0], i)), dAnd(lit(le(l, i)), q.elem(c.args[1], subT(i, l))))
	case "mkseq":
		return q.cov(c.args[1])
	case "sub":
		return q.elem(c.args[0], add(c.args[1], i))
	case "cpy":
		// content below off+n comes from the source
		in := conj{le(c.args[1], i), lt(i, add(c.args[1], c.args[3]))}
		hit := dAnd(dnf{in}.simp(), q.elem(c.args[2], subT(i, c.args[1])))
		miss := q.elem(c.args[0], i)
		if len(miss) > 0 {
			miss = dAnd(miss, dOr(lit(not(in[0])), lit(not(in[1]))))
		}
		return dOr(hit, miss)
	case "lit":
		var r dnf
		for j, a := range c.args {
			r = dOr(r, dAnd(lit(eqInt(i, intT(int64(j)))), q.cov(a)))
		}
		return r
	case "choice":
		return q.choice(mapChoice(c, func(x *Term) *Term { return mk("el", "", x, i) }))
	case "fld", "el", "in":
		t := mk("el", "", c, i)
		if d, j := q.ancUnify(t); j >= 0 {
			return d
		}
		return q.base(c)
	}
	if d, j := q.ancUnify(mk("el", "", c, i)); j >= 0 {
		return d
	}
	return q.base(c)
}

// base: t is projected to a part that is not p or contains p; only a part of p itself counts.
func (q *query) base(t *Term) dnf {
	switch t.op {
	case "in", "fld", "el", "mget":
		root := t
		for root.op == "fld" || root.op == "el" || root.op == "mget" {
			root = root.args[0]
		}
		if root.op != "in" {
			break
		}
		if d, i := q.ancUnify(t); i >= 0 {
			if i == 0 {
				return d
			}
			return nil
		}
		if t.op == "in" {
			return nil
		}
		return q.base(t.args[0])
	}
	return q.cov(t)
}

// segment: elements [off, off+n) of c.
func (q *query) segment(c, off, n *Term) dnf {
	inSeg := func(i *Term) dnf { return dnf{conj{le(off, i), lt(i, add(off, n))}}.simp() }
	switch c.op {
	case "lsto":
		lv := loopVar(c.sym)
		r := q.existsWhere(lv, c.args[1], c.args[3], func(k *Term) dnf {
			return inSeg(subst(c.args[2], map[*Term]*Term{lv: k}))
		})
		if c.args[2] == lv && lenOf(c.args[0]) == c.args[1] {
			return r
		}
		return dOr(r, q.segment(c.args[0], off, n))
	case "lcat":
		lv := loopVar(c.sym)
		if e := c.args[2]; e.op == "lit" && len(e.args) == 1 {
			l0 := lenOf(c.args[0])
			r := q.existsWhere(lv, c.args[1], e, func(k *Term) dnf { return inSeg(add(l0, k)) })
			return dOr(r, q.segment(c.args[0], off, n))
		}
	case "sto":
		return dOr(dAnd(inSeg(c.args[1]), q.cov(c.args[2])), dAnd(q.segment(c.args[0], off, n), dTrue))
	case "lit":
		var r dnf
		for j, a := range c.args {
			r = dOr(r, dAnd(inSeg(intT(int64(j))), q.cov(a)))
		}
		return r
	case "cat":
		l := lenOf(c.args[0])
		return dOr(q.segment(c.args[0], off, n), q.segment(c.args[1], subT(off, l), n))
	case "sub":
		return q.segment(c.args[0], add(c.args[1], off), n)
	case "choice":
		return q.choice(mapChoice(c, func(x *Term) *Term { return mkSub(x, off, n) }))
	case "app":
		if c.sym == "digest" || strings.HasPrefix(c.sym, "putint:") {
			return q.cov(c)
		}
		if q.cut {
			return q.cov(c)
		}
		if d, ok := constDiff(n, lenOf(c)); ok && d == 0 && off == zeroInt {
			return q.cov(c)
		}
		// part of an encoding
		if q.strict {
			return nil
		}
		return q.cov(c)
	case "fld", "el", "in":
		if d, i := q.ancUnify(c); i > 0 {
			if a := q.anc[i-1]; a.op == "el" {
				return dAnd(d, inSeg(a.args[1]))
			}
			return d
		}
	}
	return q.cov(c)
}

// without: the elements of c other than the one at index i.
func (q *query) without(c, i *Term) dnf {
	switch c.op {
	case "lsto":
		lv := loopVar(c.sym)
		r := q.existsWhere(lv, c.args[1], c.args[3], func(k *Term) dnf {
			return lit(not(eqInt(subst(c.args[2], map[*Term]*Term{lv: k}), i)))
		})
		if c.args[2] == lv && lenOf(c.args[0]) == c.args[1] {
			return r
		}
		return dOr(r, q.without(c.args[0], i))
	case "sto":
		var r dnf
		if c.args[1] != i {
			r = dAnd(q.cov(c.args[2]), lit(not(eqInt(c.args[1], i))))
		}
		return dOr(r, q.without(c.args[0], i))
	case "lit":
		var r dnf
		for j, a := range c.args {
			r = dOr(r, dAnd(lit(not(eqInt(i, intT(int64(j))))), q.cov(a)))
		}
		return r
	}
	return q.cov(c)
}

// solve idx(lv) = i for lv.
func solve(idx, i, lv *Term) *Term {
	l := toLin(stripConv(idx))
	k := l.m[lv]
	rest := l.add(lin{m: map[*Term]int64{lv: k}}, -1)
	if rest.term().hasFV(lv) {
		return nil
	}
	switch k {
	case 1:
		return subT(i, rest.term())
	case -1:
		return subT(rest.term(), i)
	case 2:
		d := toLin(subT(i, rest.term()))
		return divExact(d, 2)
	}
	return nil
}

// solveInside: x - y = 0 where both are the same projection at different indices.
func solveInside(t, lv *Term) *Term {
	l := toLin(stripConv(t))
	for a, ka := range l.m {
		if !a.hasFV(lv) {
			continue
		}
		for b, kb := range l.m {
			if b == a || ka+kb != 0 || b.hasFV(lv) {
				continue
			}
			c, ok := unify(a, b)
			if !ok {
				continue
			}
			for _, e := range c {
				le := toLin(stripConv(e.args[0]))
				k := le.m[lv]
				rest := le.add(lin{m: map[*Term]int64{lv: k}}, -1).term()
				if rest.hasFV(lv) {
					continue
				}
				switch k {
				case 1:
					return mulK(rest, -1)
				case -1:
					return rest
				}
			}
		}
	}
	return nil
}

func divExact(l lin, k int64) *Term {
	if l.c%k != 0 {
		return nil
	}
	r := lin{c: l.c / k, m: map[*Term]int64{}}
	for a, x := range l.m {
		if x%k != 0 {
			return nil
		}
		r.m[a] = x / k
	}
	return r.term()
}

func (q *query) exists(lv, T, body *Term) dnf {
	return q.existsWhere(lv, T, body, func(*Term) dnf { return dTrue })
}

// existsWhere: some iteration k in [0,T) has cov(body) and cond(k).
func (q *query) existsWhere(lv, T, body *Term, cond func(k *Term) dnf) dnf {
	if !q.mayMention(body) {
		return nil
	}
	cands, free := q.candidates(body, lv)
	var r dnf
	for _, k := range cands {
		d := dAnd(dnf{inRange(k, T)}.simp(), cond(k))
		if len(d) == 0 {
			continue
		}
		d = dAnd(d, q.cov(subst(body, map[*Term]*Term{lv: k})))
		r = dOr(r, d)
		if r.isTrue() {
			return r
		}
	}
	if len(cands) == 0 || free {
		// the body does not depend on the iteration in a way that selects p
		for _, k := range []*Term{zeroInt, addK(T, -1)} {
			d := q.cov(subst(body, map[*Term]*Term{lv: k}))
			d = dAnd(d, cond(k))
			r = dOr(r, d)
		}
	}
	return r
}

// positions: indices at which a compound sequence may hold (something containing) p.
func (q *query) positions(c *Term, d int) (r []*Term) {
	if d > 12 || !q.mayMention(c) {
		return nil
	}
	for _, a := range q.anc {
		if a.op == "el" {
			if _, ok := unify(c, a.args[0]); ok {
				r = append(r, a.args[1])
			}
		}
	}
	shift := func(ps []*Term, by *Term) {
		for _, x := range ps {
			r = append(r, add(x, by))
		}
	}
	switch c.op {
	case "cat":
		shift(q.positions(c.args[0], d+1), zeroInt)
		shift(q.positions(c.args[1], d+1), lenOf(c.args[0]))
	case "lit":
		for j, a := range c.args {
			if q.mayMention(a) {
				r = append(r, intT(int64(j)))
			}
		}
	case "sub":
		shift(q.positions(c.args[0], d+1), mulK(c.args[1], -1))
	case "cpy":
		shift(q.positions(c.args[0], d+1), zeroInt)
		shift(q.positions(c.args[2], d+1), c.args[1])
	case "sto":
		if q.mayMention(c.args[2]) {
			r = append(r, c.args[1])
		}
		shift(q.positions(c.args[0], d+1), zeroInt)
	case "lsto":
		lv := loopVar(c.sym)
		if q.mayMention(c.args[3]) {
			ks, _ := q.candidates(c.args[3], lv)
			for _, k := range ks {
				r = append(r, subst(c.args[2], map[*Term]*Term{lv: k}))
			}
		}
		shift(q.positions(c.args[0], d+1), zeroInt)
	case "lcat":
		lv := loopVar(c.sym)
		if e := c.args[2]; e.op == "lit" && len(e.args) == 1 && q.mayMention(e) {
			ks, _ := q.candidates(e, lv)
			shift(ks, lenOf(c.args[0]))
		}
		shift(q.positions(c.args[0], d+1), zeroInt)
	}
	if len(r) > 12 {
		r = r[:12]
	}
	return r
}

// candidates: iterations in which the body may touch p.
func (q *query) candidates(body, lv *Term) (ks []*Term, free bool) {
	seen := map[*Term]bool{}
	dup := map[*Term]bool{}
	addK := func(k *Term) {
		if k != nil && !dup[k] && len(ks) < 12 {
			dup[k] = true
			ks = append(ks, k)
		}
	}
	var rec func(t *Term)
	consider := func(t *Term) {
		if (q.p.op == "app" || q.p.op == "choice") && t.op == q.p.op && t.sym == q.p.sym && t.hasFV(lv) {
			addK(matchVar(t, q.p, lv))
		}
		for _, a := range q.anc {
			if c, ok := unify(t, a); ok {
				found := false
				for _, e := range c {
					l := toLin(stripConv(e.args[0]))
					k := l.m[lv]
					rest := l.add(lin{m: map[*Term]int64{lv: k}}, -1).term()
					if k == 0 {
						if x := solveInside(e.args[0], lv); x != nil {
							found = true
							addK(x)
						}
						continue
					}
					if rest.hasFV(lv) {
						continue
					}
					found = true
					switch k {
					case 1:
						addK(mulK(rest, -1))
					case -1:
						addK(rest)
					default:
						if k < 0 {
							rest = mulK(rest, -1)
							k = -k
						}
						if x := divExact(toLin(mulK(rest, -1)), k); x != nil {
							addK(x)
						} else {
							addK(app("div", mulK(rest, -1), intT(k)))
						}
					}
				}
				if !found {
					free = true
				}
				return
			}
		}
	}
	rec = func(t *Term) {
		if seen[t] || !q.mayMention(t) {
			return
		}
		seen[t] = true
		consider(t)
		switch t.op {
		case "el":
			switch t.args[0].op {
			case "cat", "lit", "cpy", "sub", "lcat", "lsto", "sto":
				if t.args[1].hasFV(lv) && !t.args[0].hasFV(lv) {
					for _, pos := range q.positions(t.args[0], 0) {
						addK(solve(t.args[1], pos, lv))
					}
				}
			}
		case "sub":
			// an element of a slice of p's sequence
			if !t.hasFV(lv) {
				break
			}
		case "mu", "muv":
			if d := muDefs[t.sym]; d != nil && d.next != nil && !t.hasFV(lv) {
				free = true
			}
		}
		for _, a := range t.args {
			rec(a)
		}
		if t.op == "mu" || t.op == "muv" {
			if d := muDefs[t.sym]; d != nil && d.next != nil {
				rec(d.init)
				rec(d.next)
			}
		}
	}
	rec(body)
	return
}

// matchVar: a value for lv with which t may become p (a guess: the caller substitutes it).
func matchVar(t, p, lv *Term) *Term {
	if t == p || !t.hasFV(lv) {
		return nil
	}
	if t == lv {
		return p
	}
	if t.op == "lin" {
		if k := solve(t, p, lv); k != nil {
			return k
		}
	}
	if t.op != p.op || t.sym != p.sym || len(t.args) != len(p.args) {
		return nil
	}
	for i := range t.args {
		if k := matchVar(t.args[i], p.args[i], lv); k != nil {
			return k
		}
	}
	return nil
}

func (q *query) choice(t *Term) dnf {
	if t.op != "choice" {
		return q.cov(t)
	}
	params, alts := choiceAlts(t)
	r := dTrue
	for k, a := range alts {
		es := edgeFacts(t.sym, params, k)
		var neg dnf
		dead := false
		for _, e := range es {
			if contradictsCheap(q.facts, e) {
				dead = true
				break
			}
			if isLinear(e) {
				neg = dOr(neg, negLit(e))
			}
			if zeroTest(e) || constTest(e) && len(q.cov(e)) > 0 {
				dead = true
				break
			}
		}
		if dead {
			continue
		}
		d := q.cov(a)
		if !d.isTrue() {
			// the alternative is taken because of a test on p itself
			for _, e := range es {
				if !isLinear(e) && e.op != "oneof" && e.op != "all" && q.valueTest(e) {
					d = dOr(d, q.cov(e))
				}
			}
		}
		r = dAnd(r, dOr(d, neg))
		if len(r) == 0 {
			return nil
		}
	}
	return r
}

func negLit(e *Term) dnf {
	n := not(e)
	return lit(n)
}

func contradictsCheap(facts []*Term, e *Term) bool {
	if has(facts, not(e)) {
		return true
	}
	return false
}

// zeroTest: the edge is taken when a factor is zero or a summand the neutral element.
func zeroTest(e *Term) bool {
	if e.op != "app" {
		return false
	}
	switch e.sym {
	case "G1.IsInfinity", "G2.IsInfinity", "Gt.IsInfinity", "Gt.IsUnity":
		return true
	case "Zr.Equals":
		return isZeroConst(e.args[0]) || isZeroConst(e.args[1])
	}
	return false
}

func isZeroConst(t *Term) bool {
	return t.op == "app" && t.sym == "Curve.NewZrFromInt" && len(t.args) == 2 && t.args[1] == zeroInt
}

// constTest: the edge is taken when a value equals a constant, so it is known there.
func constTest(e *Term) bool {
	return e.op == "app" && e.sym == "Zr.Equals" && (isConstTerm(e.args[0]) || isConstTerm(e.args[1]))
}

func (q *query) valueTest(e *Term) bool { return false }

// isConstTerm: a term without inputs (constants of the curve and literals only).
func isConstTerm(t *Term) bool {
	ok := true
	walk(t, func(x *Term) bool {
		switch x.op {
		case "in", "obj", "lv", "mu", "muv", "choice", "uniq", "db":
			ok = false
		}
		return ok
	})
	return ok
}

// mu: the value of a loop-carried cell after T iterations.
func (q *query) mu(name string, T *Term, params []*Term, t *Term) dnf {
	d := muDefs[name]
	if d == nil || d.next == nil {
		return dTrue // unknown: give the benefit of the doubt
	}
	if q.active[name] {
		return nil
	}
	lv := loopVar(d.loop)
	sub := map[*Term]*Term{}
	for i, p := range d.params {
		if i < len(params) && params[i] != p {
			sub[p] = params[i]
		}
	}
	init, next, self := d.init, d.next, d.self
	if len(sub) > 0 {
		init, next, self = subst(init, sub), subst(next, sub), subst(self, sub)
	}
	r := q.cov(init)
	if T == zeroInt {
		return r
	}
	if len(r) > 0 && !q.persists(next, self) {
		r = dAnd(r, lit(eqInt(T, zeroInt)))
	}
	if r.isTrue() {
		return r
	}
	q.active[name] = true
	x := q.exists(lv, T, next)
	delete(q.active, name)
	return dOr(r, x)
}

var persistMemo = map[[2]int]int{}

// persists: the next value of a cell always depends on all of its current value.
func (q *query) persists(next, self *Term) bool {
	if next == self {
		return true
	}
	k := [2]int{next.id, self.id}
	if v, ok := persistMemo[k]; ok {
		return v == 1
	}
	persistMemo[k] = 1
	ok := dependsOn(q.facts, next, self)
	if !ok {
		persistMemo[k] = 0
	}
	return ok
}

func dependsOn(facts []*Term, next, self *Term) bool {
	if !usedAsSeq(next, self) {
		return newQuery(self, false, nil).ask(next)
	}
	// a sequence: every element of it
	d := in("δp")
	fs := []*Term{ge0(d), lt(d, lenOf(self))}
	loop := self.sym[:indexByte(self.sym, ':')]
	for _, f := range facts {
		if f.op == "all" && f.sym == loop {
			fs = append(fs, f.args[1])
		}
	}
	fs = saturate(fs, nil)
	return newQuery(mk("el", "", self, d), false, fs).ask(next)
}

func indexByte(s string, b byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == b {
			return i
		}
	}
	return len(s)
}

func usedAsSeq(t, self *Term) bool {
	r := false
	walk(t, func(x *Term) bool {
		if (x.op == "el" || x.op == "sub" || x.op == "len") && x.args[0] == self {
			r = true
		}
		return !r
	})
	return r
}

// passedThrough: results of atomic functions that are one of their arguments (symbol -> argument).
var passedThrough = map[string]int{}
