package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: the verifier of every argument derives the challenges of its prover, and hands nested
// verifiers the parameters of the nested provers.

func init() {
	register("C28", "the prover of every argument is analysed and then its verifier on what it returns, in one abstract state with the same parameters and statement: every field element that the verifier derives by hashing, every oracle query and every nested argument's parameters must be, up to renaming of loops, one of the prover's", checkC28)
}

// nestedPair: a verifier called by a verifier, and the prover that its prover calls.
type nestedPair struct {
	verify, prove *ssa.Function
	match         map[int]int
	names         map[int]string
	given         map[int]func(r *challengeRun, p *Event) *Term // parameters that are results of the prover
	inside        map[int]int                                   // parameters with one field, that is a parameter of the prover
}

type argument struct {
	name          string
	prove, verify *fnRef
	atomic        []*ssa.Function
	nested        []nestedPair
	pargs         []*Term
	vargs         func(ret *Term) []*Term
	assume        []*Term
	same          [2]*ssa.Function         // a nested verifier and the nested prover
	results       []int                    // what it returns is among what the prover returned
	returns       map[int]int              // results of the verifier that are results of the prover
	first         func(s *session) []*Term // makes the arguments of the prover
}

func checkC28(c *Ctx) {
	hash := c.p.Fn("common", "FieldElementFromBytes")
	proveRange, verifyRange := c.fn("bp", "ProveRange"), c.fn("bp", "VerifyRange")
	reduce, check := c.fn("bp", "IterativeReduce"), c.fn("bp", "IterativeVerify")
	newIP, proveIP, verifyIP := c.fn("bp", "NewInnerProdArgument"), c.method("bp", "InnerProdArgument", "Prove"), c.method("bp", "InnerProductProof", "Verify")
	proveEqs, verifyEqs := c.method("poe", "Equalities", "Prove"), c.method("poe", "Equalities", "Verify")
	proveEq, verifyEq := c.method("poe", "Equality", "Prove"), c.method("poe", "Equality", "Verify")
	newSums, verifySums := c.fn("sum", "NewAggregatedArgument"), c.method("sum", "Proof", "VerifyAggregated")
	newSum, verifySum := c.fn("sum", "NewArgument"), c.method("sum", "Proof", "Verify")
	aggregate, verifyAgg := c.fn("pp", "Aggregate"), c.fn("pp", "VerifyAggregation")
	open := c.fn("pp", "Open")
	for _, r := range []*fnRef{proveRange, verifyRange, reduce, check, newIP, proveIP, verifyIP, proveEqs, verifyEqs, proveEq, verifyEq, newSums, verifySums, newSum, verifySum, aggregate, verifyAgg, open} {
		if r == nil {
			return
		}
	}
	ip := nestedPair{verifyIP.fn, newIP.fn, map[int]int{1: 0}, map[int]string{1: "parameters"}, nil, nil}
	ips := []*ssa.Function{hash, newIP.fn, proveIP.fn, verifyIP.fn, open.fn}
	result := func(ret *Term, i int) *Term {
		if ret.op == "tuple" && i < len(ret.args) {
			return ret.args[i]
		}
		return ret
	}
	args := []argument{
		{name: "range", prove: proveRange, verify: verifyRange,
			atomic: append([]*ssa.Function{reduce.fn, check.fn}, ips...),
			nested: []nestedPair{ip, {check.fn, reduce.fn, map[int]int{0: 0, 1: 2}, map[int]string{0: "parameters", 1: "commitment"}, nil, nil}},
			pargs:  []*Term{in("pp"), in("V"), in("v"), in("r")},
			vargs:  func(ret *Term) []*Term { return []*Term{in("pp"), ret, in("V")} },
			same:   [2]*ssa.Function{check.fn, reduce.fn}, results: []int{1, 2}},
		{name: "reduction", prove: reduce, verify: check, atomic: ips,
			pargs:   []*Term{in("pp"), in("v"), in("V")},
			vargs:   func(ret *Term) []*Term { return []*Term{in("pp"), in("V"), result(ret, 0), result(ret, 2)} },
			returns: map[int]int{0: 1, 1: 2}},
		{name: "equalities", prove: proveEqs, verify: verifyEqs, atomic: ips, nested: []nestedPair{ip},
			pargs: []*Term{in("e"), in("v"), in("w")},
			vargs: func(ret *Term) []*Term { return []*Term{in("e"), ret} }},
		{name: "equality", prove: proveEq, verify: verifyEq, atomic: ips,
			pargs: []*Term{in("e"), in("v"), in("w")},
			vargs: func(ret *Term) []*Term { return []*Term{in("e"), ret} }},
		{name: "sums", prove: newSums, verify: verifySums,
			atomic: append([]*ssa.Function{newSum.fn, verifySum.fn}, ips...),
			nested: []nestedPair{{verifySum.fn, newSum.fn, map[int]int{1: 0}, map[int]string{1: "parameters"}, nil, map[int]int{2: 1}}},
			pargs:  []*Term{in("pp"), in("V"), in("v"), in("r")},
			vargs:  func(ret *Term) []*Term { return []*Term{ret, in("pp"), in("V")} },
			assume: []*Term{eqInt(lenOf(in("V")), lenOf(in("v")))}},
		{name: "sum", prove: newSum, verify: verifySum, atomic: ips, nested: []nestedPair{ip},
			pargs: []*Term{in("pp"), in("V"), in("v"), in("r")},
			vargs: func(ret *Term) []*Term { return []*Term{result(ret, 1), in("pp"), result(ret, 0)} }},
		{name: "aggregation", prove: aggregate, verify: verifyAgg, atomic: ips,
			pargs:  []*Term{in("pp"), in("C"), in("proofs"), in("RO")},
			vargs:  func(ret *Term) []*Term { return []*Term{in("pp"), in("I"), in("C"), ret, in("sum"), in("RO")} },
			assume: []*Term{eqInt(lenOf(in("I")), lenOf(in("C")))}},
	}
	if p, v := selfCalling(proveIP.fn), selfCalling(verifyIP.fn); p != nil && v != nil {
		if a, ok := c.recursion(p, v, hash); ok {
			args = append(args, a)
		}
		args = append(args, c.innerProduct(newIP, proveIP, verifyIP, p, v, hash)...)
	} else {
		c.note("inner product: not made of a recursive prover and a recursive verifier, not compared")
	}
	for i := range args {
		c.challenges(&args[i])
	}
}

// selfCalling: the function called by f that calls itself.
func selfCalling(f *ssa.Function) *ssa.Function {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			call, ok := i.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil {
				continue
			}
			g := call.Call.StaticCallee()
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if call, ok := i.(*ssa.Call); ok && call.Call.StaticCallee() == g {
						return g
					}
				}
			}
		}
	}
	return nil
}

// recursion: one step of the recursive inner product prover against one of the verifier.
func (c *Ctx) recursion(prove, verify, hash *ssa.Function) (argument, bool) {
	a := argument{name: "inner-product/step", prove: &fnRef{prove}, verify: &fnRef{verify}, atomic: []*ssa.Function{prove, verify, hash}}
	n := nestedPair{verify, prove, map[int]int{}, map[int]string{}, nil, nil}
	from := map[int]int{}
	for i, p := range prove.Params {
		a.pargs = append(a.pargs, in("x"+itoa(i)))
		for j, q := range verify.Params {
			if p.Name() == q.Name() && typeName(p.Type()) == typeName(q.Type()) {
				n.match[j], n.names[j], from[j] = i, p.Name(), i
			}
		}
	}
	res := prove.Signature.Results()
	if res.Len() != 2 || typeName(res.At(0).Type().Underlying()) != "[]*math.G1" || typeName(res.At(1).Type().Underlying()) != "[]*math.Zr" || len(from) == 0 {
		c.note("inner product: the shape of the recursion is not known, not compared")
		return a, false
	}
	pairs, scalars := -1, []int{}
	for j, q := range verify.Params {
		if _, ok := from[j]; ok {
			continue
		}
		switch typeName(q.Type().Underlying()) {
		case "[]*math.G1":
			pairs = j
		case "*math.Zr":
			scalars = append(scalars, j)
		default:
			c.note("inner product: parameter %s of the recursion has no counterpart, not compared", q.Name())
			return a, false
		}
	}
	if pairs < 0 || len(scalars) != 2 {
		c.note("inner product: the shape of the recursion is not known, not compared")
		return a, false
	}
	a.vargs = func(ret *Term) []*Term {
		var r []*Term
		for j := range verify.Params {
			switch i, ok := from[j]; {
			case ok:
				r = append(r, in("x"+itoa(i)))
			case j == pairs:
				r = append(r, ret.args[0])
			default:
				k := 0
				if j == scalars[1] {
					k = 1
				}
				r = append(r, mk("nth", "", ret.args[1], intT(int64(k))))
			}
		}
		return r
	}
	n.given = map[int]func(*challengeRun, *Event) *Term{pairs: func(r *challengeRun, e *Event) *Term { return r.result(e, prove.String()+".0") }}
	for k, j := range scalars {
		at := intT(int64(k))
		n.given[j] = func(r *challengeRun, e *Event) *Term { return mk("el", "", r.result(e, prove.String()+".1"), at) }
	}
	a.nested = []nestedPair{n}
	return a, true
}

// innerProduct: the challenge that precedes the recursion.
func (c *Ctx) innerProduct(mkArg, prove, verify *fnRef, p, v, hash *ssa.Function) []argument {
	n := nestedPair{v, p, map[int]int{}, map[int]string{}, nil, nil}
	for i, x := range p.Params {
		for j, y := range v.Params {
			if x.Name() == y.Name() && typeName(x.Type()) == typeName(y.Type()) {
				n.match[j], n.names[j] = i, x.Name()
			}
		}
	}
	return []argument{{name: "inner-product", prove: prove, verify: verify, atomic: []*ssa.Function{p, v, hash}, nested: []nestedPair{n},
		first: func(s *session) []*Term { return []*Term{s.call(mkArg.fn, in("pp"), in("a"), in("b"))} },
		vargs: func(ret *Term) []*Term { return []*Term{ret, in("pp")} }}}
}

// challenges: a prover, then its verifier.
func (c *Ctx) challenges(a *argument) {
	s := c.session(a.atomic...)
	for _, f := range a.assume {
		s.st.assume(f)
	}
	pargs := a.pargs
	if a.first != nil {
		pargs = a.first(s)
	}
	start := len(s.in.Events)
	ret := s.call(a.prove.fn, pargs...)
	site := c.p.pos(a.verify.fn.Pos())
	if s.st.dead {
		c.lose(shortFn(a.prove.fn) + " never returns")
		return
	}
	from := len(s.in.Events)
	vargs := a.vargs(ret)
	for i, x := range vargs {
		if x.op == "nth" {
			vargs[i] = newResolver(s.st.factList()).elem(s.in.seq(s.st, x.args[0]), x.args[1])
		}
	}
	r := &challengeRun{c: c, s: s, a: a, g: &agreement{c: c}}
	if a.same[0] != nil {
		made := pick(s.in.Events[start:from], func(e *Event) bool { return e.Kind == "atomic" && e.Name == a.same[1].String() })
		if len(made) != 1 || len(made[0].Loops) > 0 {
			c.note("%s: %s is not called once", a.name, shortFn(a.same[1]))
			return
		}
		var rs []*Term
		for _, k := range a.results {
			rs = append(rs, r.result(made[0], a.same[1].String()+"."+itoa(k)))
		}
		s.in.answer = map[string]*Term{a.same[0].String(): mk("tuple", "", append(rs, tNil)...)}
	}
	vret := s.call(a.verify.fn, vargs...)
	ps, vs := s.in.Events[start:from], s.in.Events[from:]
	c.oblige(true, a.name+"/verifier-reached", site, "")
	n := 0
	// hashed to the field
	isHash := func(e *Event) bool {
		return e.Kind == "atomic" && strings.HasSuffix(e.Name, "FieldElementFromBytes")
	}
	// asked of the oracle
	isQuery := func(e *Event) bool {
		return e.Kind == "callfn" && strings.Contains(typeName(e.Instr.(ssa.CallInstruction).Common().Value.Type()), "math.Zr") || e.Kind == "callfn" && strings.Contains(typeName(e.Instr.(ssa.CallInstruction).Common().Value.Type()), "common.Vec")
	}
	for _, e := range vs {
		switch {
		case isHash(e):
			n++
			r.one(e, pick(ps, isHash), nestedPair{match: map[int]int{0: 0}, names: map[int]string{0: "challenge"}}, "derives a challenge that the prover does not")
		case isQuery(e):
			n++
			m, names := map[int]int{}, map[int]string{}
			for k := range e.Args {
				m[k], names[k] = k, "query"
			}
			r.one(e, pick(ps, isQuery), nestedPair{match: m, names: names}, "asks the oracle something that the prover does not")
		}
	}
	// the prover derives nothing else
	for _, e := range ps {
		switch {
		case isHash(e):
			r.back(e, pick(vs, isHash), nestedPair{match: map[int]int{0: 0}, names: map[int]string{0: "challenge"}}, "derives a challenge that the verifier does not")
		case isQuery(e):
			m, names := map[int]int{}, map[int]string{}
			for k := range e.Args {
				m[k], names[k] = k, "query"
			}
			r.back(e, pick(vs, isQuery), nestedPair{match: m, names: names}, "asks the oracle something that the verifier does not")
		}
	}
	for _, p := range a.nested {
		for _, e := range vs {
			if e.Kind != "atomic" || e.Name != p.verify.String() {
				continue
			}
			n++
			name := p.prove.String()
			r.one(e, pick(ps, func(e *Event) bool { return e.Kind == "atomic" && e.Name == name }), p, "hands "+shortFn(p.verify)+" something else than was given to "+shortFn(p.prove))
		}
	}
	r.returned(ret, vret, site)
	if n == 0 {
		c.note("%s: no challenge found in the verifier", a.name)
	}
}

// back compares a call of the prover with those of the verifier.
func (r *challengeRun) back(e *Event, cands []*Event, np nestedPair, msg string) {
	r.prover = true
	r.one(e, cands, np, msg)
	r.prover = false
}

func pick(es []*Event, ok func(*Event) bool) []*Event {
	var r []*Event
	for _, e := range es {
		if ok(e) {
			r = append(r, e)
		}
	}
	return r
}

type challengeRun struct {
	c *Ctx
	s *session
	a *argument
	g *agreement
	// calls of the prover's are looked for among the verifier's
	prover bool
}

// one: some call of the prover's has the same arguments.
func (r *challengeRun) one(e *Event, cands []*Event, np nestedPair, msg string) {
	match, names := np.match, np.names
	fs := settled(saturate(e.St.factList(), nil))
	if has(fs, tFalse) {
		return
	}
	site := r.c.eventSite(e)
	key, who := r.a.name+"/"+shortOf(names), r.a.verify.fn
	if r.prover {
		key, who = r.a.name+"/prover/"+shortOf(names), r.a.prove.fn
	}
	best, why := -1, ""
	for _, p := range cands {
		m := map[*Term]*Term{}
		if len(p.Loops) == len(e.Loops) {
			for i := range p.Loops {
				m[p.Loops[i]] = e.Loops[i]
			}
		}
		res := equal
		r.g.why = ""
		for k, j := range match {
			if k >= len(e.Args) || j >= len(p.Args) {
				res = unknown
				continue
			}
			a := r.s.in.deepArg(e, k)
			b := r.s.in.deepArg(p, j)
			switch r.agree(fs, a, subst(b, m)) {
			case apart:
				res = apart
			case unknown:
				if res != apart {
					res = unknown
				}
			}
		}
		for k, given := range np.given {
			switch r.agree(fs, r.s.in.deepArg(e, k), subst(given(r, p), m)) {
			case apart:
				res = apart
			case unknown:
				if res != apart {
					res = unknown
				}
			}
		}
		for k, j := range np.inside {
			if k >= len(e.Args) || j >= len(p.Args) {
				res = unknown
				continue
			}
			x := r.s.in.deepArg(e, k)
			if x.op == "struct" && len(x.args) == 1 {
				x = x.args[0]
			}
			switch r.agree(fs, x, subst(r.s.in.deepArg(p, j), m)) {
			case apart:
				res = apart
			case unknown:
				if res != apart {
					res = unknown
				}
			}
		}
		if debugOn {
			println("CAND", r.a.name, site, "vs", r.c.eventSite(p), res, r.g.why)
		}
		switch {
		case res == equal:
			r.c.oblige(true, key, site, "")
			return
		case res == unknown:
			best = unknown
		case best != unknown:
			best = apart
			if why == "" {
				why = r.g.why
			}
		}
	}
	switch {
	case best == apart:
		r.c.oblige(false, key, site, shortFn(who)+" "+msg+": "+why)
	case len(cands) == 0:
		r.c.oblige(false, key, site, shortFn(who)+" "+msg)
	default:
		r.c.note("%s: not compared (%s)", key, site)
	}
}

// returned: what the verifier returns when it accepts is what the prover returned.
func (r *challengeRun) returned(ret, vret *Term, site string) {
	c, st := r.c, r.s.st.clone()
	if len(r.a.returns) == 0 || st.dead || vret.op != "tuple" || ret.op != "tuple" {
		return
	}
	res := r.a.verify.fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			st.assume(eqTerm(vret.args[i], tNil))
		}
	}
	fs := settled(saturate(st.factList(), nil))
	if st.dead || has(fs, tFalse) {
		return
	}
	pres := r.a.prove.fn.Signature.Results()
	for i, j := range r.a.returns {
		if i >= len(vret.args) || j >= len(ret.args) {
			continue
		}
		a, b := r.s.in.deep(st, vret.args[i], res.At(i).Type(), 0), r.s.in.deep(st, ret.args[j], pres.At(j).Type(), 0)
		key := r.a.name + "/returned/" + itoa(i)
		r.g.why = ""
		switch r.agree(fs, a, b) {
		case equal:
			c.oblige(true, key, site, "")
		case apart:
			c.oblige(false, key, site, shortFn(r.a.verify.fn)+" returns other values than "+shortFn(r.a.prove.fn)+": "+r.g.why)
		default:
			c.note("%s: not compared", key)
		}
	}
}

func shortOf(names map[int]string) string {
	for _, n := range names {
		if n == "challenge" || n == "query" {
			return n
		}
	}
	return "nested"
}

// result of an atomic call.
func (r *challengeRun) result(e *Event, name string) *Term {
	var args []*Term
	for k := range e.Args {
		args = append(args, r.s.in.deepArg(e, k))
	}
	return app("pred:"+name, args...)
}

func (r *challengeRun) agree(fs []*Term, a, b *Term) int {
	a, b = resolve(fs, a), resolve(fs, b)
	if a.op == "struct" && b.op == "struct" && a.sym == b.sym {
		res := equal
		for i := range a.args {
			switch r.agree(fs, a.args[i], b.args[i]) {
			case apart:
				return apart
			case unknown:
				res = unknown
			}
		}
		return res
	}
	return r.g.of(fs, a, b)
}
