package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C13: independent generators come from different hash inputs.

func init() {
	register("C13", "in every parameter set a constructor returns, and in every parameter set an argument assembles for a nested one (with the parameters GeneratePublicParams returns), the generators of different fields and of different positions of a vector are compared: the hash inputs they are derived from differ for all vector lengths and positions (labels, separators and position encodings compared symbolically)", checkC13)
}

// generatorOf strips scalars a generator is multiplied with.
func generatorOf(t *Term) *Term {
	for t.op == "app" && (t.sym == "G1.Mul" || t.sym == "G1.Copy") && len(t.args) > 0 && !isSetupPower(t) {
		t = t.args[0]
	}
	if t.op == "choice" {
		// the value of a conditional that is a fixed element on one side (a skipped term of a sum)
		var u *Term
		_, alts := choiceAlts(t)
		for _, a := range alts {
			g := generatorOf(a)
			if g.op == "glob" {
				continue
			}
			if u != nil && u != g {
				return t
			}
			u = g
		}
		if u != nil {
			return u
		}
	}
	return t
}

// isSetupPower: a fixed generator raised to a power of the setup secret.
func isSetupPower(t *Term) bool {
	if t.op != "app" || t.sym != "G1.Mul" && t.sym != "G2.Mul" || len(t.args) != 2 {
		return false
	}
	b := t.args[0]
	return (b.op == "fld" || b.op == "glob") && mentionsOp(t.args[1], "draw")
}

type member struct {
	field string
	t     *Term   // generic element
	fs    []*Term // range of its position
	pos   *Term
}

func (c *Ctx) members(in *Interp, st *State, p paramSet, suffix string) []member {
	var ms []member
	for _, f := range groupFields(p.typ) {
		if f.group != "G1" {
			continue
		}
		v := p.fieldValue(in, st, f)
		if !f.vec {
			ms = append(ms, member{field: f.name, t: v})
			continue
		}
		d := in1("δ:" + f.name + suffix)
		ms = append(ms, member{field: f.name, t: elAt(v, d), fs: inRange(d, lenOf(v)), pos: d})
	}
	return ms
}

func in1(s string) *Term { return mk("in", s) }

// independent compares all generators of one parameter set.
func (c *Ctx) independent(in *Interp, st *State, p paramSet, key, site string) int {
	fs := st.factList()
	a, b := c.members(in, st, p, ""), c.members(in, st, p, "'")
	n := 0
	for i := range a {
		for j := i; j < len(b); j++ {
			x, y := a[i], b[j]
			g := with(with(fs, x.fs...), y.fs...)
			if i == j {
				if x.pos == nil {
					continue
				}
				// two different positions of one vector
				g = append(g, not(eqInt(x.pos, y.pos)))
			}
			rs := newResolver(g)
			tx, ty := generatorOf(rs.deep(x.t)), generatorOf(rs.deep(y.t))
			if !plainGenerator(tx) || !plainGenerator(ty) {
				if i == j && x.pos == nil || i == j {
					c.note("%s%s/%s: not a plain generator: %s", key, p.path, x.field, describe(tx))
				}
				continue
			}
			n++
			r := compare(g, tx, ty)
			what := x.field + "/" + y.field
			msg := fmt.Sprintf("generators %s and %s of %s are derived from the same hash input: %s", x.field, y.field, p.path, describe(tx))
			if i == j {
				what = x.field
				msg = fmt.Sprintf("different positions of %s of %s are derived from the same hash input: %s", x.field, p.path, describe(tx))
			}
			c.oblige(r != equal, key+p.path+"/"+what, site, msg)
			if r == unknown {
				c.note("%s%s/%s: not compared (%s | %s)", key, p.path, what, describe(tx), describe(ty))
			}
		}
	}
	return n
}

func plainGenerator(t *Term) bool {
	return t.op == "app" && t.sym == "Curve.HashToG1" || isSetupPower(t)
}

func checkC13(c *Ctx) {
	var gpp *ssa.Function
	for _, f := range c.constructors() {
		s := c.session()
		args := entryArgs(f)
		c.positive(s, f, args)
		ret := s.call(f, args...)
		if s.st.dead {
			c.skip("%s never returns", shortFn(f))
			continue
		}
		n := 0
		for i, t := range resultTypes(f) {
			v := resultAt(ret, f, i)
			for _, p := range c.paramSets(s.in, s.st, v, t, "", 0) {
				n += c.independent(s.in, s.st, p, shortFn(f), c.siteOf(f))
			}
		}
		if f.Pkg.Pkg.Name() == "pol" {
			gpp = f
		}
	}
	if gpp == nil {
		c.lose("no constructor of the public parameters in package pol")
		return
	}
	c.nestedSets(gpp, func(s *session, p paramSet, e *Event) {
		c.independent(s.in, e.St, p, shortFn(e.Fn), c.eventSite(e))
	})
}

// positive: integer arguments of constructors are positive.
func (c *Ctx) positive(s *session, f *ssa.Function, args []*Term) {
	for i, p := range f.Params {
		if _, isInt := width(p.Type()); isInt {
			s.st.assume(ge0(subT(args[i], intT(2))))
		}
	}
}

func resultTypes(f *ssa.Function) []types.Type {
	var r []types.Type
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		r = append(r, res.At(i).Type())
	}
	return r
}

func resultAt(ret *Term, f *ssa.Function, i int) *Term {
	if f.Signature.Results().Len() == 1 {
		return ret
	}
	return extract(ret, i)
}

// nestedSets runs every argument on the parameters that gpp returns and visits the parameter sets it
// assembles for nested arguments.
func (c *Ctx) nestedSets(gpp *ssa.Function, visit func(s *session, p paramSet, e *Event)) {
	var subs, tops []*ssa.Function
	for _, f := range c.p.Functions("bench") {
		if f.Pkg == nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || len(f.Params) == 0 {
			continue
		}
		switch f.Pkg.Pkg.Name() {
		case "bp", "sum", "poe":
		default:
			continue
		}
		if c.isConstructor(f) {
			continue
		}
		takes := false
		for _, p := range f.Params {
			if c.isParamSet(p.Type()) || c.holdsParams(p.Type(), 0) {
				takes = true
			}
		}
		if !takes || f.Signature.Recv() != nil && c.isParamSet(f.Params[0].Type()) {
			continue
		}
		tops = append(tops, f)
	}
	// arguments that other arguments are built from
	for _, f := range tops {
		for _, g := range tops {
			if f == g {
				continue
			}
			for _, x := range c.ownCallees(g) {
				if x == f {
					subs = append(subs, f)
				}
			}
		}
	}
	isSub := map[*ssa.Function]bool{}
	for _, f := range subs {
		isSub[f] = true
	}
	s0 := c.session()
	args := entryArgs(gpp)
	c.positive(s0, gpp, args)
	ret := s0.call(gpp, args...)
	var sets []paramSet
	for i, t := range resultTypes(gpp) {
		sets = append(sets, c.paramSets(s0.in, s0.st, resultAt(ret, gpp, i), t, "", 0)...)
	}
	base := s0.st.clone()
	for _, f := range tops {
		s := c.session(subs...)
		s.in.objs = s0.in.objs
		s.st = base.clone()
		var args []*Term
		found := false
		n := 0
		for i, p := range f.Params {
			a := in1(fmt.Sprintf("a%d", n))
			if i == 0 && f.Signature.Recv() != nil {
				a = in1("recv")
			} else {
				n++
			}
			pick := func(t types.Type) *Term {
				for _, q := range sets {
					if types.Identical(q.typ, t) {
						return q.obj
					}
				}
				return nil
			}
			if c.isParamSet(p.Type()) {
				if o := pick(p.Type()); o != nil {
					a = o
					found = true
				}
			} else if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
				if st, ok := pt.Elem().Underlying().(*types.Struct); ok && mathName(pt.Elem()) == "" {
					for k := 0; k < st.NumFields(); k++ {
						if c.isParamSet(st.Field(k).Type()) {
							if o := pick(st.Field(k).Type()); o != nil {
								s.in.setCell(s.st, mk("fa", st.Field(k).Name(), a), o)
								found = true
							}
						}
					}
				}
			}
			args = append(args, a)
		}
		if !found && !isSub[f] {
			continue
		}
		delete(s.in.atomic, f.String())
		s.call(f, args...)
		for _, e := range s.in.Events {
			if e.Kind != "atomic" {
				continue
			}
			callee := c.byName(e.Name)
			if callee == nil {
				continue
			}
			for i, p := range callee.Params {
				if i < len(e.Args) && c.isParamSet(p.Type()) {
					visit(s, paramSet{p.Type(), e.Args[i], "→" + shortFn(callee)}, e)
				}
			}
		}
	}
}

func (c *Ctx) byName(s string) *ssa.Function {
	for _, f := range c.p.Functions() {
		if f.String() == s {
			return f
		}
	}
	return nil
}

func (c *Ctx) isConstructor(f *ssa.Function) bool {
	for _, g := range c.constructors() {
		if f == g {
			return true
		}
	}
	return false
}
