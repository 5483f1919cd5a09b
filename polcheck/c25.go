package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: what a prover proves is what the verifier of it checks.

func init() {
	register("C25", "the verifier is analysed on what the prover returns for the same parameters and statement, in one abstract state: every component verifier is handed the parameters, commitments, positions and oracle that the component's prover was given, element by element", checkC25)
}

// agreeRun is a prover followed by the verifier of its result.
type agreeRun struct {
	c      *Ctx
	s      *session
	from   int // events of the verifier
	g      *agreement
	name   string
	n      int
	nested bool // two functions are being compared
}

// component: a verifier called on a part of a proof, the prover of that part, and which parameter
// of the one is which parameter of the other.
type component struct {
	verify, prove *fnRef
	proof         int // parameter of the verifier that is the proof
	result        string
	match         map[int]int
	names         map[int]string
	value         int // parameter of the verifier that is the opened value
}

func (c *Ctx) components() []component {
	return []component{
		{c.fn("bp", "VerifyRange"), c.fn("bp", "ProveRange"), 1, "", map[int]int{0: 0, 2: 1}, map[int]string{0: "parameters", 2: "commitment"}, 0},
		{c.method("poe", "Equalities", "Verify"), c.method("poe", "Equalities", "Prove"), 1, "", map[int]int{0: 0}, map[int]string{0: "equalities"}, 0},
		{c.method("sum", "Proof", "VerifyAggregated"), c.fn("sum", "NewAggregatedArgument"), 0, "", map[int]int{1: 0, 2: 1}, map[int]string{1: "parameters", 2: "commitments"}, 0},
		{c.fn("pp", "VerifyAggregation"), c.fn("pp", "Aggregate"), 3, "", map[int]int{0: 0, 2: 1, 5: 3}, map[int]string{0: "parameters", 2: "commitments", 5: "oracle"}, 0},
		{c.fn("pp", "Verify"), c.fn("pp", "Open"), 2, ".1", map[int]int{0: 0, 4: 1}, map[int]string{0: "parameters", 4: "position"}, 1},
	}
}

// deepArg is an argument of a call with everything it refers to.
func (in *Interp) deepArg(e *Event, k int) *Term {
	c, ok := e.Instr.(ssa.CallInstruction)
	if !ok {
		return e.Args[k]
	}
	fn := c.Common().StaticCallee()
	if fn == nil {
		if k == 0 {
			return e.Args[k]
		}
		if t := sigParam(c.Common().Signature(), k-1); t != nil {
			return in.deep(e.St, e.Args[k], t, 0)
		}
		return e.Args[k]
	}
	ts := fnParamTypes(fn)
	if k >= len(ts) {
		return e.Args[k]
	}
	return in.deep(e.St, e.Args[k], ts[k], 0)
}

func checkC25(c *Ctx) {
	parts := c.components()
	for _, p := range parts {
		if p.verify == nil || p.prove == nil {
			return
		}
	}
	c.liabilityAgreement(parts)
	c.totalAgreement(parts)
}

// totalAgreement: the total proof opens the position that its verifier checks.
func (c *Ctx) totalAgreement(parts []component) {
	prove, verify := c.method("pol", "LiabilitySet", "ProveTot"), c.method("pol", "TotalProof", "Verify")
	s, pub, ls, _ := c.setUp(parts)
	if s == nil || prove == nil || verify == nil {
		return
	}
	proof := s.call(prove.fn, ls)
	if proof.op == "tuple" {
		proof = proof.args[0]
	}
	if s.st.dead {
		c.lose("ProveTot never returns")
		return
	}
	run := &agreeRun{c: c, s: s, from: len(s.in.Events), g: &agreement{c: c}, name: "total"}
	run.verify(verify.fn, append([]*Term{proof}, argsByType2(verify.fn, map[string]*Term{"*pol.PublicParams": pub})...))
	run.calls(parts)
}

// setUp: a liability set made by the library from given parameters.
func (c *Ctx) setUp(parts []component) (s *session, pub, ls, id2path *Term) {
	mkset, get := c.fn("pol", "NewLiabilitySet"), c.method("verkle", "Tree", "Get")
	if mkset == nil || get == nil {
		return
	}
	atomic := []*ssa.Function{get.fn}
	for _, p := range parts {
		atomic = append(atomic, p.verify.fn, p.prove.fn)
	}
	// hashing to the field is one function
	if f := c.p.Fn("common", "FieldElementFromBytes"); f != nil {
		atomic = append(atomic, f)
	}
	// so is committing to a vector
	if f := c.p.Fn("pp", "Commit"); f != nil {
		atomic = append(atomic, f)
	}
	s = c.session(atomic...)
	pub, id2path = in("pp"), in("id2path")
	fan := fld(pub, "Fanout")
	s.st.assume(eqInt(fld(fld(pub, "PPPP"), "N"), addK(fan, 2)))
	s.st.assume(eqInt(lenOf(fld(fld(pub, "SAPP"), "H")), addK(fan, 1)))
	s.st.assume(lt(zeroInt, fan))
	s.st.assume(lt(fan, intT(1<<16-2)))
	ls = s.call(mkset.fn, argsByType(mkset.fn, map[string]*Term{"*pol.PublicParams": pub, "func": id2path}, "db")...)
	if s.st.dead {
		c.lose("NewLiabilitySet never returns")
		return nil, nil, nil, nil
	}
	return
}

func (c *Ctx) liabilityAgreement(parts []component) {
	if run, _ := c.proven(parts); run != nil {
		run.calls(parts)
	}
}

// proven: a liability proof is made and verified.
func (c *Ctx) proven(parts []component) (*agreeRun, *Term) {
	prove, verify := c.method("pol", "LiabilitySet", "ProveLiability"), c.method("pol", "LiabilityProof", "Verify")
	s, pub, ls, id2path := c.setUp(parts)
	if s == nil || prove == nil || verify == nil {
		return nil, nil
	}
	id := in("id")
	ret := s.call(prove.fn, append([]*Term{ls}, argsByType2(prove.fn, map[string]*Term{"string": id})...)...)
	proof := (*Term)(nil)
	res := prove.fn.Signature.Results()
	for i := 0; i < res.Len() && ret.op == "tuple"; i++ {
		switch typeName(res.At(i).Type()) {
		case "pol.LiabilityProof", "*pol.LiabilityProof":
			proof = ret.args[i]
		case "bool":
			s.st.assume(ret.args[i])
		case "error":
			s.st.assume(eqTerm(ret.args[i], tNil))
		}
	}
	if proof == nil || s.st.dead {
		c.lose("ProveLiability returns no proof")
		return nil, nil
	}
	run := &agreeRun{c: c, s: s, from: len(s.in.Events), g: &agreement{c: c}, name: "liability"}
	vargs := append([]*Term{proof}, argsByType2(verify.fn, map[string]*Term{"*pol.PublicParams": pub, "func": id2path, "string": id})...)
	run.verify(verify.fn, vargs)
	return run, pub
}

// verify: no check that the verifier makes itself fails on what the prover made.
func (r *agreeRun) verify(fn *ssa.Function, args []*Term) {
	c, st := r.c, r.s.st
	old := map[*Term]bool{}
	for _, f := range st.factList() {
		old[f] = true
	}
	key, site := r.name+"/accepted", c.p.pos(fn.Pos())
	ret := r.s.call(fn, args...)
	if !st.dead {
		st = st.clone()
		if ret.op != "tuple" {
			ret = mk("tuple", "", ret)
		}
		res := fn.Signature.Results()
		for i := 0; i < res.Len() && i < len(ret.args); i++ {
			if isErrorType(res.At(i).Type()) {
				st.assume(eqTerm(ret.args[i], tNil))
			}
		}
	}
	fs := saturate(st.factList(), nil)
	if st.dead || has(fs, tFalse) || refute(fs) {
		c.oblige(false, key, site, shortFn(fn)+" never accepts what the prover returns")
		return
	}
	c.oblige(true, key, site, "")
	for _, f := range st.factList() {
		if old[f] {
			continue
		}
		r.checks(fs, f, key+"/equal", site)
	}
}

// checks: an equality that the verifier insists on.
func (r *agreeRun) checks(fs []*Term, f *Term, key, site string) {
	switch {
	case f.op == "all":
		r.n++
		x := in("ε" + itoa(r.n) + "·")
		h := saturate(with(fs, ge0(x), lt(x, f.args[0])), []*Term{x})
		if !has(h, tFalse) {
			r.checks(h, subst(f.args[1], map[*Term]*Term{loopVar(f.sym): x}), key, site)
		}
	case f.op == "app" && (f.sym == "G1.Equals" || f.sym == "Zr.Equals") && len(f.args) == 2:
		a, b := resolve(fs, f.args[0]), resolve(fs, f.args[1])
		if r.stated(a) || r.stated(b) {
			return
		}
		r.oblige(fs, key, site, a, b, "a check of the verifier compares different values")
	}
}

// stated: given to the verifier by its caller.
func (r *agreeRun) stated(t *Term) bool {
	ok := false
	walk(t, func(x *Term) bool {
		ok = ok || x.op == "in" && strings.HasPrefix(x.sym, "x")
		return !ok
	})
	return ok
}

// settled: the facts also with what they imply put in for alternatives.
func settled(fs []*Term) []*Term {
	r := fs
	for _, f := range fs {
		if isLinear(f) && hasOp(f, "choice") {
			if g := resolve(fs, f); g != f && g != tTrue {
				r = with(r, g)
			}
		}
	}
	return r
}

// argsByType: parameters by type, the others named by base.
func argsByType(fn *ssa.Function, m map[string]*Term, base string) []*Term {
	var r []*Term
	for i, p := range fn.Params {
		r = append(r, argOf(p.Type(), m, base+itoa(i)))
	}
	return r
}

// argsByType2: without the receiver.
func argsByType2(fn *ssa.Function, m map[string]*Term) []*Term { return argsByType(fn, m, "x")[1:] }

func argOf(t types.Type, m map[string]*Term, name string) *Term {
	if x := m[typeName(t)]; x != nil {
		return x
	}
	if _, ok := t.Underlying().(*types.Signature); ok && m["func"] != nil {
		return m["func"]
	}
	return in(name)
}

// calls: the arguments of every component verifier against those of the component's prover.
func (r *agreeRun) calls(parts []component) {
	c, in := r.c, r.s.in
	for _, p := range parts {
		n := 0
		for _, e := range in.Events[r.from:] {
			if e.Kind != "atomic" || e.Name != p.verify.fn.String() {
				continue
			}
			n++
			r.part(p, e)
		}
		short := shortFn(p.verify.fn)
		if n == 0 && r.name != "total" {
			c.note("%s: %s is not called", r.name, short)
		}
	}
}

func (r *agreeRun) part(p component, e *Event) {
	c, in := r.c, r.s.in
	site := c.eventSite(e)
	short := shortFn(p.verify.fn)
	fs := settled(saturate(e.St.factList(), nil))
	if has(fs, tFalse) {
		return
	}
	key := r.name + "/" + short
	pf := resolve(fs, in.deepArg(e, p.proof))
	want := "pred:" + p.prove.fn.String() + p.result
	if pf.op != "app" || pf.sym != want {
		if known(pf) {
			c.oblige(false, key+"/proof", site, short+" is given "+describe(pf)+", not what "+shortFn(p.prove.fn)+" returned")
		} else {
			c.note("%s: the proof given to %s was not followed: %s", r.name, short, describe(pf))
		}
		return
	}
	c.oblige(true, key+"/proof", site, "")
	for k := range e.Args {
		j, ok := p.match[k]
		if !ok {
			continue
		}
		v := in.deepArg(e, k)
		r.oblige(fs, key+"/"+strings.ReplaceAll(p.names[k], " ", "-"), site, v, pf.args[j],
			short+" is given other "+p.names[k]+" than "+shortFn(p.prove.fn))
	}
	if p.prove.fn.Name() == "Aggregate" {
		r.opened(fs, key, site, short, in.deepArg(e, 1), pf.args[2])
	}
	if p.value > 0 {
		// the value opened is the one stated, as an integer
		val := resolve(fs, in.deepArg(e, p.value))
		open := app(strings.TrimSuffix(want, p.result)+".0", pf.args...)
		v := val
		for v.op == "app" && v.sym == "Curve.NewZrFromInt" && len(v.args) == 2 {
			v = resolve(fs, v.args[1])
		}
		exp := app("Zr.Int", open)
		if v == val {
			exp = open
		}
		if n := narrowed(v); n != "" {
			c.oblige(false, key+"/value", site, short+" is given the opened value cut to "+n)
		} else if v.op == "choice" || v.op == "mu" {
			c.note("%s: the value given to %s was not followed", r.name, short)
		} else {
			r.oblige(fs, key+"/value", site, v, exp, short+" is given another value than the one that was opened")
		}
	}
}

// nth element of a list. When some rounds of its making add nothing, the others are taken to do so
// in their order.
func (g *agreement) nth(h []*Term, list, x *Term) *Term {
	rs := newResolver(h)
	list = rs.head(list)
	if list.op == "lcat" {
		piece := subst(list.args[2], map[*Term]*Term{loopVar(list.sym): x})
		if piece.op == "choice" {
			_, alts := choiceAlts(piece)
			var full []*Term
			for _, a := range alts {
				if a.op != "lit" || len(a.args) > 0 {
					full = append(full, a)
				}
			}
			if len(full) == 1 && full[0].op == "lit" && len(full[0].args) == 1 {
				return rs.deep(full[0].args[0])
			}
		}
	}
	return rs.deep(rs.elem(list, x))
}

// opened: every position checked is the one at which the aggregated proof opens its vector.
func (r *agreeRun) opened(fs []*Term, key, site, short string, positions, proofs *Term) {
	x, h := r.g.round(fs, lenOf(positions))
	if h == nil {
		return
	}
	rs := newResolver(h)
	pos := rs.deep(rs.elem(rs.head(positions), x))
	one := r.g.nth(h, proofs, x)
	if one.op != "app" || !strings.HasPrefix(one.sym, "pred:") || !strings.HasSuffix(one.sym, "pp.Open.1") {
		r.c.note("%s: openings aggregated not followed: %s", key, describe(one))
		return
	}
	r.oblige(h, key+"/positions", site, pos, one.args[1], short+" checks another position than the one opened")
}

// narrowed: an integer conversion that does not keep every opened value.
func narrowed(t *Term) string {
	r := ""
	walk(t, func(x *Term) bool {
		if x.op == "app" && strings.HasPrefix(x.sym, "conv:") && x.args[0].op == "app" && x.args[0].sym == "Zr.Int" {
			switch n := x.sym[len("conv:"):]; n {
			case "uint8", "uint16", "uint32", "int8", "int16", "int32", "byte", "rune":
				r = n
			}
		}
		return !(x.op == "app" && strings.HasPrefix(x.sym, "pred:"))
	})
	return r
}

// function: two function values, compared by what they return for the same arguments.
func (r *agreeRun) function(fs []*Term, key, site string, a, b *Term, msg string) {
	if r.nested {
		return
	}
	r.nested = true
	defer func() { r.nested = false }()
	apply := func(v *Term) *Term {
		fn := funcTab[v.sym]
		if fn == nil {
			return nil
		}
		var args, free []*Term
		for i := range fn.Params {
			args = append(args, in("φ"+itoa(i)))
		}
		if v.op == "closure" {
			free = v.args
		}
		st := r.s.st.clone()
		ret := r.s.in.CallFn(nil, st, fn, args, free, "")
		if st.dead || fn.Signature.Results().Len() != 1 {
			return nil
		}
		return r.s.in.deep(st, ret, fn.Signature.Results().At(0).Type(), 0)
	}
	x, y := apply(a), apply(b)
	if x == nil || y == nil {
		r.c.note("%s: functions %s and %s not compared", key, a.sym, b.sym)
		return
	}
	r.oblige(fs, key, site, x, y, msg)
}

// oblige: the two agree.
func (r *agreeRun) oblige(fs []*Term, key, site string, a, b *Term, msg string) {
	a, b = resolve(fs, a), resolve(fs, b)
	if a.op == "struct" && b.op == "struct" && a.sym == b.sym {
		for i, n := range strings.Split(a.sym, ",")[1:] {
			if i < len(a.args) {
				r.oblige(fs, key+"."+n, site, a.args[i], b.args[i], msg)
			}
		}
		return
	}
	if (a.op == "closure" || a.op == "func") && (b.op == "closure" || b.op == "func") {
		if a.sym != b.sym || a.op == "func" && a != b {
			r.function(fs, key, site, a, b, msg)
			return
		}
		st := r.s.st
		r.c.oblige(true, key+"/function", site, "")
		for i := range a.args {
			if a.sym == b.sym && i < len(b.args) {
				r.oblige(fs, key+"/captured", site, r.captured(st, a, i), r.captured(st, b, i), msg)
			}
		}
		return
	}
	r.g.why = ""
	switch r.g.of(fs, a, b) {
	case equal:
		r.c.oblige(true, key, site, "")
	case apart:
		r.c.oblige(false, key, site, msg+": "+r.g.why)
	default:
		r.c.note("%s: not compared", key)
	}
}

// captured is the value of the i-th variable a function literal refers to.
func (r *agreeRun) captured(st *State, cl *Term, i int) *Term {
	if f := funcTab[cl.sym]; f != nil && i < len(f.FreeVars) {
		return r.s.in.deep(st, cl.args[i], f.FreeVars[i].Type(), 0)
	}
	return cl.args[i]
}
