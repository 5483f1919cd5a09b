package main

import (
	"fmt"
	"sort"
	"strings"
)

// State is one abstract program state. All parts are persistent.
type State struct {
	facts  PMap // fact term id -> fact
	mem    PMap // address term id -> value
	counts PMap // call key term id -> int term
	defers *deferred
	dead   bool
}

type deferred struct {
	run  func(st *State)
	key  string
	next *deferred
}

func (s *State) clone() *State { c := *s; return &c }

func (s *State) has(f *Term) bool {
	return f == tTrue || s.facts.Get(f.id) != nil
}

// assume adds the fact f and what follows from it.
func (s *State) assume(f *Term) {
	if s.dead {
		return
	}
	s.addFact(f, 0)
}

func (s *State) addFact(f *Term, depth int) {
	switch {
	case f == tTrue:
		return
	case f == tFalse:
		s.dead = true
		return
	}
	if s.facts.Get(f.id) != nil {
		return
	}
	if s.facts.Get(not(f).id) != nil {
		s.dead = true
		return
	}
	s.facts = s.facts.Set(f.id, f)
	if depth > 40 {
		return
	}
	for _, g := range expandFact(f) {
		s.addFact(g, depth+1)
		if s.dead {
			return
		}
	}
}

var expandMemo = map[*Term][]*Term{}

// expandFact derives the consequences of a fact: which edges of a join must have been taken, what
// every iteration of a loop must have satisfied.
func expandFact(f *Term) []*Term {
	switch f.op {
	case "choice":
		return expandChoice(f, func(a *Term) *Term { return a })
	case "not":
		x := f.args[0]
		switch x.op {
		case "choice":
			return expandChoice(x, not)
		case "eq":
			return expandEq(x, false)
		case "mu":
			return expandMu(x, func(a *Term) *Term { return not(a) })
		case "eq0":
			return expandEq0(x, false)
		}
	case "eq":
		return expandEq(f, true)
	case "eq0":
		return expandEq0(f, true)
	case "ge0":
		// how many errors wait in a channel: none, or some
		if x := onlySplit(f.args[0]); x != nil {
			return expandChoice(x, func(v *Term) *Term {
				g := ge0(subst(f.args[0], map[*Term]*Term{x: v}))
				if g.op == "ge0" {
					l, neg := toLin(g.args[0]), true
					for a, k := range l.m {
						neg = neg && a.op == "len" && k < 0
					}
					if neg && l.c < 0 {
						return tFalse
					}
				}
				return g
			})
		}
	case "mu":
		return expandMu(f, func(a *Term) *Term { return a })
	case "all":
		// a loop over a short literal table: one fact per round
		if n, ok := f.args[0].intVal(); ok && n > 0 && n <= 16 && overLiteral(f.args[1], loopVar(f.sym)) {
			var r []*Term
			for k := int64(0); k < n; k++ {
				r = append(r, subst(f.args[1], map[*Term]*Term{loopVar(f.sym): intT(k)}))
			}
			return r
		}
	}
	return nil
}

// onlySplit is the summand of t that names the two alternatives of a condition, if it is the only choice.
func onlySplit(t *Term) *Term {
	var r *Term
	for x := range toLin(t).m {
		if x.op == "choice" {
			if r != nil {
				return nil
			}
			r = x
		}
	}
	if r != nil && strings.Contains(r.sym, ":split") {
		return r
	}
	return nil
}

// overLiteral: t selects an element of a literal sequence by the loop variable.
func overLiteral(t, lv *Term) bool {
	ok := false
	walk(t, func(x *Term) bool {
		if x.op == "el" && x.args[0].op == "lit" && mentions(x.args[1], lv) {
			ok = true
		}
		return !ok
	})
	return ok
}

func expandEq(x *Term, pos bool) []*Term {
	wrap := func(t *Term) *Term {
		if pos {
			return t
		}
		return not(t)
	}
	for i := 0; i < 2; i++ {
		a, b := x.args[i], x.args[1-i]
		if a.op == "choice" {
			return expandChoice(a, func(v *Term) *Term { return wrap(eqTerm(v, b)) })
		}
	}
	for i := 0; i < 2; i++ {
		a, b := x.args[i], x.args[1-i]
		if a.op == "mu" {
			return expandMu(a, func(v *Term) *Term { return wrap(eqTerm(v, b)) })
		}
	}
	return nil
}

func expandEq0(x *Term, pos bool) []*Term {
	l := toLin(x.args[0])
	for a, k := range l.m {
		if a.op == "choice" {
			rest := l.add(lin{m: map[*Term]int64{a: k}}, -1)
			return expandChoice(a, func(v *Term) *Term {
				e := eqInt(rest.add(toLin(v), k).term(), zeroInt)
				if !pos {
					e = not(e)
				}
				return e
			})
		}
	}
	return nil
}

func expandChoice(c *Term, f func(*Term) *Term) []*Term {
	return expandChoiceOf(c, f, nil)
}

func expandChoiceOf(c *Term, f func(*Term) *Term, possible func(k int) bool) []*Term {
	params, alts := choiceAlts(c)
	var common PMap
	n := 0
	for k, a := range alts {
		if possible != nil && !possible(k) {
			continue
		}
		st := &State{}
		for _, e := range edgeFacts(c.sym, params, k) {
			st.facts = st.facts.Set(e.id, e)
		}
		st.addFact(f(a), 20)
		if st.dead {
			continue
		}
		if n == 0 {
			common = st.facts
		} else {
			common = Intersect(common, st.facts)
		}
		n++
	}
	if n == 0 {
		return []*Term{tFalse}
	}
	var r []*Term
	common.Each(func(_ int, t *Term) { r = append(r, t) })
	return r
}

// expandMu: the final value of a loop-carried cell satisfies f. If f can only hold finally when it
// held in every iteration (sticky flags and error cells), every iteration's facts follow.
func expandMu(m *Term, f func(*Term) *Term) []*Term {
	d := muDefs[m.sym]
	if d == nil || d.next == nil {
		return nil
	}
	st := &State{}
	st.addFact(f(d.next), 20)
	if st.dead {
		// never true after an iteration: no iteration happened
		return nil
	}
	// inductive: f(next) implies f(muv)
	self := f(d.self)
	if !(st.facts.Get(self.id) != nil || self == tTrue) {
		return nil
	}
	sub := map[*Term]*Term{}
	for i, p := range d.params {
		if m.args[1+i] != p {
			sub[p] = m.args[1+i]
		}
	}
	var r []*Term
	st.facts.Each(func(_ int, t *Term) {
		if t.op == "choice" || t == self {
			return
		}
		r = append(r, subst(mkAll(d.loop, d.trip, t), sub))
	})
	if init := f(subst(d.init, sub)); init != tTrue {
		r = append(r, init)
	}
	return r
}

func mkAll(loop string, trip, f *Term) *Term {
	if f == tTrue {
		return tTrue
	}
	return mk("all", loop, trip, f)
}

type muDef struct {
	loop             string
	init, next, self *Term
	trip             *Term
	params           []*Term // loop variables of the enclosing loops
	name             string
	closed           bool
}

var muDefs = map[string]*muDef{}

// join merges states arriving over several edges. tok names the join; params are the enclosing loop
// variables. It returns the merged state (nil if all are dead) and the indices of the live edges.
func (in *Interp) join(tok string, states []*State) (*State, []int, string) {
	var live []int
	for i, s := range states {
		if s != nil && !s.dead {
			live = append(live, i)
		}
	}
	if len(live) == 0 {
		return nil, nil, tok
	}
	if len(live) == 1 {
		return states[live[0]].clone(), live, tok
	}
	params := append([]*Term(nil), in.loops...)
	ti := &tokenInfo{key: tok, params: params, nparams: len(params)}
	common := states[live[0]].facts
	for _, i := range live[1:] {
		common = Intersect(common, states[i].facts)
	}
	interesting := false
	for _, i := range live {
		var fs []*Term
		Diff(common, states[i].facts, func(_ int, a, b *Term) {
			if b != nil {
				fs = append(fs, b)
			}
		})
		sort.Slice(fs, func(a, b int) bool { return fs[a].id < fs[b].id })
		ti.edges = append(ti.edges, fs)
		if len(fs) > 0 {
			interesting = true
		}
	}
	// a token is named by its edges, so that the same join under other facts is another token
	var sig []byte
	for _, fs := range ti.edges {
		for _, f := range fs {
			sig = append(sig, fmt.Sprintf("%d,", f.id)...)
		}
		sig = append(sig, ';')
	}
	for _, p := range params {
		sig = append(sig, fmt.Sprintf("%d,", p.id)...)
	}
	tok = tok + "~" + internCtx("edges:"+string(sig))
	tokens[tok] = ti
	r := states[live[0]].clone()
	r.facts = common
	if interesting {
		o := mk("oneof", tok, params...)
		r.facts = r.facts.Set(o.id, o)
	}
	// memory
	base := states[live[0]].mem
	changed := map[int]bool{}
	for _, i := range live[1:] {
		Diff(base, states[i].mem, func(k int, _, _ *Term) { changed[k] = true })
	}
	var ks []int
	for k := range changed {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		addr := termList[k]
		vals := make([]*Term, len(live))
		var some *Term
		for j, i := range live {
			vals[j] = states[i].mem.Get(k)
			if vals[j] != nil {
				some = vals[j]
			}
		}
		for j := range vals {
			if vals[j] == nil {
				vals[j] = in.initialOr(addr, some)
			}
		}
		r.mem = r.mem.Set(k, mkChoice(tok, params, vals))
	}
	for _, i := range live[1:] {
		Diff(r.counts, states[i].counts, func(k int, a, b *Term) {
			x, y := int64(0), int64(0)
			if a != nil {
				x, _ = a.intVal()
			}
			if b != nil {
				y, _ = b.intVal()
			}
			if y > x {
				r.counts = r.counts.Set(k, b)
			}
		})
		if states[i].defers != r.defers {
			// keep the longer list; a conditional defer is treated as always registered
			if deferLen(states[i].defers) > deferLen(r.defers) {
				r.defers = states[i].defers
			}
		}
	}
	return r, live, tok
}

func deferLen(d *deferred) int {
	n := 0
	for ; d != nil; d = d.next {
		n++
	}
	return n
}

// initialOr: the value of an address not written on this edge. Cells of objects allocated on another
// edge only are irrelevant here and take the other value.
func (in *Interp) initialOr(addr, other *Term) *Term {
	root := addr
	for root.op == "fa" {
		root = root.args[0]
	}
	if root.op == "obj" {
		return other
	}
	return initialOf(addr)
}

func initialOf(addr *Term) *Term {
	switch addr.op {
	case "fa":
		return fld(initialPtr(addr.args[0]), addr.sym)
	case "bk":
		return addr.args[0]
	case "vc":
		return addr.args[0]
	case "gaddr":
		if v := constGlobals[addr.sym]; v != nil && v.op != "app" || v != nil && v.sym == "errorf" {
			return v
		}
		return mk("glob", addr.sym)
	case "mc":
		return addr.args[0]
	}
	return mk("deref", "", addr)
}

// initialPtr: the base term whose projections are the fields behind a pointer.
func initialPtr(p *Term) *Term {
	switch p.op {
	case "fa":
		return fld(initialPtr(p.args[0]), p.sym)
	case "ea":
		return elAt(initialOf(p.args[0]), p.args[1])
	case "gaddr":
		return mk("glob", p.sym)
	}
	return p
}

func (s *State) factList() []*Term {
	var r []*Term
	s.facts.Each(func(_ int, t *Term) { r = append(r, t) })
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

var _ = fmt.Sprint
