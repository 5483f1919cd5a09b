package main

// Reasoning with the facts of an accepting return: instances of quantified facts at a generic index,
// pruning of joins whose other edges contradict the facts, resolution of terms under facts.

// feasible: the facts of a join edge do not contradict fs.
func feasible(fs, edge []*Term) bool {
	var lins []*Term
	for _, e := range edge {
		if e == tFalse || has(fs, not(e)) {
			return false
		}
		if isLinear(e) && e != tTrue {
			lins = append(lins, e)
		}
	}
	if len(lins) == 0 {
		return true
	}
	return !refute(append(relevant(fs, lins), lins...))
}

// edgeOK: edge k of a join is possible under fs, also considering what fs says about values chosen there.
func edgeOK(fs []*Term, tok string, params []*Term, k int) bool {
	if !feasible(fs, edgeFacts(tok, params, k)) {
		return false
	}
	alt := func(t *Term) *Term {
		if t.op != "choice" || t.sym != tok {
			return nil
		}
		ps, as := choiceAlts(t)
		for i := range ps {
			if i >= len(params) || ps[i] != params[i] {
				return nil
			}
		}
		if k < len(as) {
			return as[k]
		}
		return nil
	}
	for _, f := range fs {
		switch f.op {
		case "choice":
			if a := alt(f); a == tFalse {
				return false
			}
		case "not":
			if a := alt(f.args[0]); a == tTrue {
				return false
			}
			if e := f.args[0]; e.op == "eq" {
				for i, x := range e.args {
					if a := alt(x); a != nil && eqTerm(a, e.args[1-i]) == tTrue {
						return false
					}
				}
			}
		case "eq":
			for i, x := range f.args {
				if a := alt(x); a != nil && eqTerm(a, f.args[1-i]) == tFalse {
					return false
				}
			}
		}
	}
	return true
}

// targets: integer terms at which quantified facts are instantiated.
func instances(f *Term, targets []*Term) []*Term {
	lv := loopVar(f.sym)
	seen := map[*Term]bool{}
	var ks []*Term
	addK := func(k *Term) {
		if k != nil && !seen[k] && len(ks) < 24 {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	for _, t := range targets {
		addK(t)
	}
	visited := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if visited[t] || !t.hasFV(lv) {
			return
		}
		visited[t] = true
		if t.op == "el" && t.args[1].hasFV(lv) {
			for _, g := range targets {
				addK(solve(t.args[1], g, lv))
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	body := f.args[1]
	rec(body)
	if body.op == "oneof" {
		if ti := tokens[body.sym]; ti != nil {
			for _, es := range ti.edges {
				for _, e := range es {
					rec(e)
				}
			}
		}
	}
	return ks
}

// saturate extends the facts with the instances of quantified facts at the targets and with what
// follows from joins of which only some edges are possible.
func saturate(fs []*Term, targets []*Term) []*Term {
	st := &State{}
	for _, f := range fs {
		st.facts = st.facts.Set(f.id, f)
	}
	done := map[*Term]bool{}
	for round := 0; round < 6; round++ {
		cur := st.factList()
		before := st.facts.Len()
		for _, f := range cur {
			switch f.op {
			case "all":
				if done[f] {
					continue
				}
				done[f] = true
				lv := loopVar(f.sym)
				for _, k := range instances(f, targets) {
					if k.hasFV(lv) {
						continue
					}
					r := inRange(k, f.args[0])
					if entails(cur, r[0]) && entails(cur, r[1]) {
						st.addFact(subst(f.args[1], map[*Term]*Term{lv: k}), 0)
					}
				}
			case "oneof":
				for _, g := range oneofFacts(f, cur) {
					st.addFact(g, 0)
				}
			case "choice", "not", "eq":
				// a joined value of which only some alternatives are left here
				for _, g := range choiceFacts(f, cur) {
					st.addFact(g, 0)
				}
			}
			if st.dead {
				return append(cur, tFalse)
			}
		}
		if st.facts.Len() == before {
			break
		}
	}
	return st.factList()
}

// choiceFacts: what a fact about a joined value means for the alternatives that the facts leave open.
func choiceFacts(f *Term, cur []*Term) []*Term {
	c, wrap := f, func(a *Term) *Term { return a }
	if f.op == "not" {
		c, wrap = f.args[0], not
	}
	if c.op == "eq" {
		for i := 0; i < 2; i++ {
			if a, b := c.args[i], c.args[1-i]; a.op == "choice" {
				w := wrap
				c, wrap = a, func(v *Term) *Term { return w(eqTerm(v, b)) }
				break
			}
		}
	}
	if c.op != "choice" {
		return nil
	}
	params, alts := choiceAlts(c)
	open := 0
	for k := range alts {
		if edgeOK(cur, c.sym, params, k) {
			open++
		}
	}
	if open == len(alts) {
		return nil // nothing new
	}
	return expandChoiceOf(c, wrap, func(k int) bool { return edgeOK(cur, c.sym, params, k) })
}

func oneofFacts(f *Term, cur []*Term) []*Term {
	ti := tokens[f.sym]
	if ti == nil {
		return nil
	}
	var common []*Term
	n := 0
	for k := range ti.edges {
		es := edgeFacts(f.sym, f.args, k)
		if !edgeOK(cur, f.sym, f.args, k) {
			continue
		}
		if n == 0 {
			common = es
		} else {
			var c []*Term
			for _, e := range common {
				if has(es, e) {
					c = append(c, e)
				}
			}
			common = c
		}
		n++
	}
	if n == 0 {
		return []*Term{tFalse}
	}
	return common
}

// resolver simplifies terms under facts.
type resolver struct {
	fs   []*Term
	memo map[*Term]*Term
	n    int
}

func newResolver(fs []*Term) *resolver { return &resolver{fs: fs, memo: map[*Term]*Term{}} }

func resolve(fs []*Term, t *Term) *Term { return newResolver(fs).deep(t) }

func (r *resolver) inRange(k, T *Term) bool {
	if T.op == "app" && T.sym == "min" && len(T.args) == 2 {
		return r.inRange(k, T.args[0]) && r.inRange(k, T.args[1])
	}
	c := inRange(k, T)
	return entails(r.fs, c[0]) && entails(r.fs, c[1])
}

func (r *resolver) outRange(k, T *Term) bool {
	c := inRange(k, T)
	return holds(r.fs, dOr(lit(not(c[0])), lit(not(c[1]))))
}

// elem reads an element of a sequence under the facts.
func (r *resolver) elem(c, i *Term) *Term {
	for n := 0; n < 60; n++ {
		switch c.op {
		case "lsto":
			lv := loopVar(c.sym)
			k := solve(c.args[2], i, lv)
			if k == nil {
				return elAt(c, i)
			}
			if r.inRange(k, c.args[1]) {
				return r.head(subst(c.args[3], map[*Term]*Term{lv: k}))
			}
			if r.outRange(k, c.args[1]) {
				c = c.args[0]
				continue
			}
			return elAt(c, i)
		case "lcat":
			e := c.args[2]
			l0 := lenOf(c.args[0])
			if r.lt(i, l0) {
				c = c.args[0]
				continue
			}
			if n, ok := lenOf(e).intVal(); ok && n == 1 {
				k := subT(i, l0)
				if r.inRange(k, c.args[1]) {
					return r.head(elAt(subst(e, map[*Term]*Term{loopVar(c.sym): k}), zeroInt))
				}
			}
			return elAt(c, i)
		case "sto":
			e := eqInt(c.args[1], i)
			if entails(r.fs, e) {
				return r.head(c.args[2])
			}
			if contradicts(r.fs, e) {
				c = c.args[0]
				continue
			}
			return elAt(c, i)
		case "cat":
			l0 := lenOf(c.args[0])
			if r.lt(i, l0) {
				c = c.args[0]
				continue
			}
			if entails(r.fs, le(l0, i)) {
				i = subT(i, l0)
				c = c.args[1]
				continue
			}
			return elAt(c, i)
		case "cpy":
			k := subT(i, c.args[1])
			if r.inRange(k, c.args[3]) {
				c, i = c.args[2], k
				continue
			}
			if r.outRange(k, c.args[3]) {
				c = c.args[0]
				continue
			}
			return elAt(c, i)
		case "lit":
			if _, ok := i.intVal(); !ok && len(c.args) <= 4 {
				for k, a := range c.args {
					if entails(r.fs, eqInt(i, intT(int64(k)))) {
						return r.head(a)
					}
				}
			}
			return elAt(c, i)
		case "sub":
			i = add(c.args[1], i)
			c = c.args[0]
			continue
		case "choice":
			return r.head(mapChoice(c, func(x *Term) *Term { return mk("el", "", x, i) }))
		}
		return elAt(c, i)
	}
	return elAt(c, i)
}

func (r *resolver) lt(a, b *Term) bool { return entails(r.fs, lt(a, b)) }

// head resolves the outermost operators.
func (r *resolver) head(t *Term) *Term {
	if r.n > 3000 {
		return t
	}
	r.n++
	switch t.op {
	case "el":
		x := r.elem(r.head(t.args[0]), t.args[1])
		return x
	case "fld":
		b := r.head(t.args[0])
		x := fld(b, t.sym)
		if x != t && x.op == "choice" {
			return r.head(x)
		}
		return x
	case "choice":
		params, alts := choiceAlts(t)
		var res *Term
		for k, a := range alts {
			if !edgeOK(r.fs, t.sym, params, k) {
				continue
			}
			x := r.head(a)
			if res != nil && x != res {
				return t
			}
			res = x
		}
		if res != nil {
			return res
		}
	case "mget":
		m, k := r.head(t.args[0]), t.args[1]
		for m.op == "msto" && m.args[1] != k && has(r.fs, not(eqTerm(m.args[1], k))) {
			m = r.head(m.args[0])
		}
		if m != t.args[0] {
			return mapGet(m, k)
		}
	}
	return t
}

// deep resolves all operators (not below binders).
func (r *resolver) deep(t *Term) *Term {
	if x, ok := r.memo[t]; ok {
		return x
	}
	r.memo[t] = t
	h := r.head(t)
	switch h.op {
	case "choice", "mu", "muv", "all":
		r.memo[t] = h
		return h
	}
	args := make([]*Term, len(h.args))
	ch := false
	for i, a := range h.args {
		args[i] = a
		if !binds(h, i) {
			args[i] = r.deep(a)
		}
		if args[i] != a {
			ch = true
		}
	}
	if ch {
		h = rebuild(h, args)
		h = r.head(h)
	}
	r.memo[t] = h
	return h
}

// same: a and b denote the same value under the facts.
func same(fs []*Term, a, b *Term) bool {
	a, b = resolve(fs, a), resolve(fs, b)
	return sameT(fs, a, b, 0)
}

func sameT(fs []*Term, a, b *Term, d int) bool {
	a, b = stripConv(a), stripConv(b)
	if a == b {
		return true
	}
	if d > 30 {
		return false
	}
	if isIntTerm(a) || isIntTerm(b) {
		if entails(fs, eqInt(a, b)) {
			return true
		}
	}
	if a.op != b.op || a.sym != b.sym || len(a.args) != len(b.args) || len(a.args) == 0 {
		return false
	}
	switch a.op {
	case "choice", "mu", "muv", "lsto", "lcat", "lin":
		return false
	}
	for i := range a.args {
		if !sameT(fs, a.args[i], b.args[i], d+1) {
			return false
		}
	}
	return true
}

func isIntTerm(t *Term) bool { return t.op == "lin" || t.op == "int" || t.op == "len" || t.op == "lv" }

// ---- equations ----

// equation: two values an accepting return has found equal (or a nested verification that succeeded).
type equation struct {
	l, r *Term // r == nil for a nested verification
	fact *Term
}

func equationsOf(fs []*Term) []equation {
	var r []equation
	for _, f := range fs {
		if e, ok := asEquation(f); ok {
			r = append(r, e)
		}
	}
	return r
}

func asEquation(f *Term) (equation, bool) {
	switch f.op {
	case "app":
		switch f.sym {
		case "G1.Equals", "G2.Equals", "Gt.Equals", "Zr.Equals", "bytes.Equal":
			return equation{f.args[0], f.args[1], f}, true
		}
		if len(f.sym) > 5 && f.sym[:5] == "pred:" { // boolean predicate that is true
			return equation{f, nil, f}, true
		}
	case "eq":
		a, b := f.args[0], f.args[1]
		if b.op == "nil" {
			a, b = b, a
		}
		if a.op == "nil" {
			if isPred(b) {
				return equation{b, nil, f}, true
			}
			return equation{}, false
		}
		return equation{a, b, f}, true
	}
	return equation{}, false
}

func isPred(t *Term) bool {
	return t.op == "app" && (hasPrefix(t.sym, "pred:") || hasPrefix(t.sym, "rec:"))
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func (e equation) sides() []*Term {
	if e.r == nil {
		return []*Term{e.l}
	}
	return []*Term{e.l, e.r}
}

// predArgs: the arguments of every nested verification of fn that is known to have succeeded.
func predsOf(fs []*Term, fn string) [][]*Term {
	var r [][]*Term
	for _, e := range equationsOf(fs) {
		if e.r == nil && (e.l.sym == "pred:"+fn || e.l.sym == "pred:"+fn+".err") {
			r = append(r, e.l.args)
		}
	}
	return r
}
