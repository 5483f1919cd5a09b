package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: generated parameters hold one commitment key and have the sizes that the proofs need.

func init() {
	register("C27", "GeneratePublicParams is analysed for an arbitrary fan-out and both kinds of identifiers; the generators of the range proofs, the sum argument and the equality argument are compared, position by position, with those of the vector commitment, and the sizes with the fan-out", checkC27)
}

func checkC27(c *Ctx) {
	gen, mk := c.fn("pol", "GeneratePublicParams"), c.fn("pp", "NewPublicParams")
	if gen == nil || mk == nil {
		return
	}
	// the vector commitment's own parameters
	n := in("n")
	s := c.session()
	s.st.assume(lt(zeroInt, n))
	s.st.assume(lt(n, intT(1<<16)))
	key := s.in.deep(s.st, s.call(mk.fn, n), mk.fn.Signature.Results().At(0).Type(), 0)
	g := &agreement{c: c}
	r := &agreeRun{c: c, s: s, g: g, name: "setup"}
	kf := fields(key)
	site := c.p.pos(mk.fn.Pos())
	if kf["N"] == nil || kf["G1s"] == nil || s.st.dead {
		c.lose("NewPublicParams: the result was not followed")
		return
	}
	fs := settled(saturate(s.st.factList(), nil))
	r.oblige(fs, "size/N", site, kf["N"], n, "vector commitment parameters record another size than the one asked for")
	enough := entails(fs, ge0(subT(lenOf(kf["G1s"]), n)))
	if enough || known(resolve(fs, lenOf(kf["G1s"]))) {
		c.oblige(enough, "size/generators", site, "fewer generators than the size of the vectors committed to: "+describe(lenOf(kf["G1s"])))
	} else {
		c.note("number of generators not followed: %s", describe(lenOf(kf["G1s"])))
	}

	atomic := []*ssa.Function{mk.fn}
	var paths []*ssa.Function
	pow2 := c.p.Fn("common", "IsPowerOfTwo")
	if pow2 != nil {
		atomic = append(atomic, pow2)
	}
	for _, name := range []string{"DigitPathLen", "DigitPath", "HexId2PathForFanOut"} {
		if f := c.p.Fn("sparse", name); f != nil {
			atomic = append(atomic, f)
			paths = append(paths, f)
		}
	}
	if f := c.p.Fn("common", "RandGenVec"); f != nil {
		// as many generators as asked for
		s := c.session()
		s.st.assume(ge0(n))
		args := []*Term{n}
		for len(args) < len(f.Params) {
			args = append(args, in("ctx"+itoa(len(args))))
		}
		v := s.in.deep(s.st, s.call(f, args...), f.Signature.Results().At(0).Type(), 0)
		if !s.st.dead && entails(saturate(s.st.factList(), nil), eqInt(lenOf(v), n)) {
			atomic = append(atomic, f)
		}
	}
	for _, dense := range []bool{false, true} {
		c.generated(gen, mk, atomic, paths, pow2, dense)
	}
}

func fields(t *Term) map[string]*Term {
	m := map[string]*Term{}
	if t.op == "struct" {
		for i, n := range strings.Split(t.sym, ",")[1:] {
			if i < len(t.args) {
				m[n] = t.args[i]
			}
		}
	}
	return m
}

func (c *Ctx) generated(gen, newPP *fnRef, atomic, paths []*ssa.Function, pow2 *ssa.Function, dense bool) {
	s := c.session(atomic...)
	fan := in("fan")
	s.st.assume(lt(zeroInt, fan))
	s.st.assume(lt(fan, intT(1<<16-2)))
	kind, name := tFalse, "sparse"
	if dense {
		kind, name = tTrue, "dense"
	}
	args := make([]*Term, len(gen.fn.Params))
	for i, p := range gen.fn.Params {
		args[i] = fan
		if typeName(p.Type()) == "pol.TreeType" {
			args[i] = kind
		}
	}
	ret := s.call(gen.fn, args...)
	if s.st.dead || ret.op != "tuple" || len(ret.args) != 2 {
		c.lose("GeneratePublicParams never returns")
		return
	}
	site := c.p.pos(gen.fn.Pos())
	v := fields(s.in.deep(s.st, ret.args[1], gen.fn.Signature.Results().At(1).Type(), 0))
	sa, rp, poe := fields(v["SAPP"]), fields(v["RPPP"]), fields(v["POEPP"])
	key := v["PPPP"]
	if key == nil || key.op != "app" || key.sym != "pred:"+newPP.fn.String() || sa == nil || rp == nil || poe == nil {
		c.lose("GeneratePublicParams: the vector commitment's parameters were not followed")
		return
	}
	g := &agreement{c: c}
	r := &agreeRun{c: c, s: s, g: g, name: name}
	s.st.assume(ge0(subT(lenOf(fld(key, "G1s")), key.args[0])))
	fs := settled(saturate(s.st.factList(), nil))
	eq := func(k string, a, b *Term, msg string) {
		if a == nil {
			c.note("%s/%s: not found", name, k)
			return
		}
		r.oblige(fs, name+"/"+k, site, a, b, msg)
	}
	one := addK(fan, 1)
	eq("size", key.args[0], addK(fan, 2), "vertex commitments have room for other than the values, the sum and the blinding factor")
	eq("fanout", v["Fanout"], fan, "the parameters record another fan-out")
	if sa["H"] != nil {
		eq("sum/H", counted(lenOf(sa["H"])), one, "the sum argument has another number of generators than the vector has elements")
	}
	eq("equality-key", poe["PP"], key, "the equality argument has another commitment key than the vertices")
	for n, m := range map[string]map[string]*Term{"sum": sa, "range": rp} {
		eq(n+"/blinding", m["F"], mk("el", "", fld(key, "G1s"), one), "blinding factors have another generator than in vertex commitments")
		gs := m["Gs"]
		if gs == nil {
			c.note("%s/%s: no generators found", name, n)
			continue
		}
		eq(n+"/length", lenOf(gs), one, "the vector proven has other than one generator per value and one for the sum")
		x, h := g.round(fs, one)
		if h == nil {
			continue
		}
		rs := newResolver(h)
		r.oblige(h, name+"/"+n+"/generators", site, rs.deep(rs.elem(rs.head(gs), x)), mk("el", "", fld(key, "G1s"), x), "a value has another generator than in vertex commitments")
	}
	// one generator per equality that a path gives rise to
	for _, f := range []string{"G", "H"} {
		if poe[f] == nil {
			continue
		}
		var n *Term
		if dense && len(paths) == 3 {
			n = app("pred:"+paths[0].String(), fan)
		} else if !dense {
			n = mk("mget", "", mk("glob", "pol/sparse.ExpectedHexPathLengthByFanOut"), fan)
		}
		if n == nil {
			continue
		}
		l := resolve(fs, counted(lenOf(poe[f])))
		eachCase(fs, l, 0, func(fs []*Term, l *Term) {
			ok := entails(fs, ge0(addK(subT(l, n), 1)))
			if m := c.longest(n); !ok && m > 0 && atMost(l) < m-1 {
				c.oblige(false, name+"/equality/"+f, site, "fewer generators than the "+itoa(int(m-1))+" equalities along the longest path: "+describe(l))
				return
			}
			if !ok && !g.short(fs, l, n) {
				c.note("%s: number of generators of the equality argument not followed: %s", name, describe(l))
				ok = true
			}
			c.oblige(ok, name+"/equality/"+f, site, "fewer generators than equalities along a path: "+describe(l))
		})
	}
	// padded to a power of two, as the equalities are
	if n := counted(lenOf(poe["G"])); pow2 != nil && poe["G"] != nil {
		asked, ok := false, false
		for _, e := range s.in.Events {
			asked = asked || e.Kind == "atomic" && e.Name == pow2.String()
		}
		for _, f := range fs {
			ok = ok || f.op == "app" && f.sym == "pred:"+pow2.String() && same(fs, f.args[0], n)
		}
		if asked {
			c.oblige(ok, name+"/equality/padding", site, "the number of generators of the equality argument need not be a power of two")
		} else {
			c.note("%s: padding not followed", name)
		}
	}
	made := 0
	for _, e := range s.in.Events {
		if e.Kind == "atomic" && e.Name == newPP.fn.String() {
			made++
		}
	}
	c.oblige(made == 1, name+"/one-key", site, "several commitment keys, with trapdoors of their own, are generated")
	// the identifiers' paths are of the same fan-out
	p := resolve(fs, ret.args[0])
	if p.op == "app" && strings.HasPrefix(p.sym, "pred:") && len(p.args) == 1 {
		eq("paths", p.args[0], fan, "identifiers are mapped to paths of another fan-out")
	}
}

// short: l is n less something, or made from another entry of the table that n is from.
func (g *agreement) short(fs []*Term, l, n *Term) bool {
	if known(l) {
		return true
	}
	lin := toLin(l)
	same, others := false, false
	for a, k := range lin.m {
		switch {
		case a == n && k == 1:
			same = true
		case a.op == "trip" || a.op == "brk":
		case a.op == "mget" && n.op == "mget" && a.args[0] == n.args[0] && g.at(fs, a.args[1], n.args[1], 0) == apart:
			return true
		default:
			others = true
		}
	}
	return same && !others
}

// counted: the number of generators drawn is the number asked for.
func counted(t *Term) *Term {
	if t.op == "len" && t.args[0].op == "app" && t.args[0].sym == "pred:pol/common.RandGenVec" {
		return t.args[0].args[0]
	}
	return t
}

// eachCase: what t is in each case.
func eachCase(fs []*Term, t *Term, d int, f func([]*Term, *Term)) {
	var c *Term
	walk(t, func(x *Term) bool {
		if c == nil && x.op == "choice" {
			c = x
		}
		return c == nil
	})
	if c == nil || d > 6 {
		f(fs, t)
		return
	}
	ps, alts := choiceAlts(c)
	for k, a := range alts {
		if !edgeOK(fs, c.sym, ps, k) {
			continue
		}
		h := saturate(with(fs, edgeFacts(c.sym, ps, k)...), nil)
		if has(h, tFalse) || refute(relevant(h, nil)) {
			continue
		}
		eachCase(h, subst(t, map[*Term]*Term{c: a}), d+1, f)
	}
}

// longest: the greatest entry of a table of constants.
func (c *Ctx) longest(n *Term) int64 {
	if n.op != "mget" || n.args[0].op != "glob" {
		return 0
	}
	max := int64(0)
	for _, pkg := range c.p.prog.AllPackages() {
		init := pkg.Func("init")
		if init == nil {
			continue
		}
		for _, b := range init.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.RelString(nil) != n.args[0].sym || st.Val.Referrers() == nil {
					continue
				}
				for _, u := range *st.Val.Referrers() {
					if u, ok := u.(*ssa.MapUpdate); ok {
						if k, ok := u.Value.(*ssa.Const); ok && k.Int64() > max {
							max = k.Int64()
						}
					}
				}
			}
		}
	}
	return max
}

// atMost: the greatest value that t can have, when it is one of some constants.
func atMost(t *Term) int64 {
	one := func(ts []*Term) int64 {
		r := int64(-1 << 62)
		for _, x := range ts {
			if v := atMost(x); v > r {
				r = v
			}
		}
		return r
	}
	switch {
	case t.op == "int":
		return toLin(t).c
	case t.op == "el" && t.args[0].op == "lit":
		return one(t.args[0].args)
	case t.op == "choice":
		_, alts := choiceAlts(t)
		return one(alts)
	}
	return 1<<62 - 1
}
