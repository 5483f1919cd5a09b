package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C04: the digest of a parameter set covers the generators in force.

func init() {
	register("C04", "the digest carried by every parameter set a constructor returns, and by every parameter set an argument assembles and hands to code that reads the digest, is compared with the generators in force at that point: a hash that absorbs each of them (a symbolic position of each vector, nested sets included) in full, and is not shortened", checkC04)
}

// genLeaves: the group elements of a parameter set and of the sets nested in it, by value.
func (c *Ctx) genLeaves(in *Interp, st *State, p paramSet, depth int) []leaf {
	var r []leaf
	for _, f := range groupFields(p.typ) {
		v := p.fieldValue(in, st, f)
		name := p.path + "." + f.name
		if !f.vec {
			r = append(r, leaf{t: v, name: name})
			continue
		}
		d := in1(fmt.Sprintf("δ%d%s", depth, f.name))
		r = append(r, leaf{t: elAt(v, d), name: name + "[·]", conds: []*Term{ge0(d), lt(d, lenOf(v))}, idx: []*Term{d}})
	}
	s, ok := p.typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok || depth > 3 {
		return r
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if c.isParamSet(f.Type()) {
			x := in.load(st, fieldAddr(p.obj, f.Name()), f.Type())
			if x.op != "nil" {
				r = append(r, c.genLeaves(in, st, paramSet{f.Type(), x, p.path + "." + f.Name()}, depth+1)...)
			}
		}
	}
	return r
}

func (p paramSet) digest(in *Interp, st *State) *Term {
	f := bytesField(p.typ)
	ft, _ := hasField(p.typ, f)
	return in.deep(st, in.load(st, fieldAddr(p.obj, f), ft), ft, 0)
}

// untouched: the set is an input none of whose fields was replaced.
func (c *Ctx) untouched(in *Interp, st *State, p paramSet) bool {
	if rootTerm(p.obj).op != "in" {
		return false
	}
	for _, f := range groupFields(p.typ) {
		ft, _ := hasField(p.typ, f.name)
		if v := in.load(st, fieldAddr(p.obj, f.name), ft); v != fld(p.obj, f.name) {
			return false
		}
	}
	return true
}

func (c *Ctx) current(in *Interp, st *State, p paramSet, who, site string) {
	d := p.digest(in, st)
	key := who + p.path
	if d.op == "opaque" || d.op == "uniq" {
		c.note("%s: digest not resolved: %s", key, describe(d))
		return
	}
	fs := st.factList()
	short := len(partialDigests(d, nil)) > 0
	seen := map[*Term]bool{}
	walkDeep(d, func(x *Term) bool {
		if short || seen[x] || x.op == "app" && x.sym == "Curve.HashToG1" {
			return false
		}
		seen[x] = true
		if x.op == "app" && x.sym == "digest" {
			for _, a := range x.args {
				short = short || len(partialDigests(a, nil)) > 0
			}
		}
		return true
	})
	c.oblige(!short, key+"/shortened", site, who+": the digest of the parameters is, or is computed from, only a part of a hash")
	for _, l := range c.genLeaves(in, st, p, 0) {
		if l.t.op == "nil" || isConstTerm(l.t) {
			continue // not in use, or the same in every parameter set
		}
		c.oblige(boundBy(fs, use{d, nil}, l), key+"/"+l.name, site,
			fmt.Sprintf("%s: the digest carried by the parameters %s does not cover %s, a generator in force", who, p.path, l.name))
	}
}

// readsDigest: functions that (transitively) read the digest of a parameter set of type t, or keep the set.
func (c *Ctx) readsDigest(f *ssa.Function, t types.Type) bool {
	for _, p := range f.Params {
		if !types.Identical(p.Type(), t) || p.Referrers() == nil {
			continue
		}
		for _, r := range *p.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Val == ssa.Value(p) {
				return true
			}
		}
	}
	name := bytesField(t)
	reads := func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type(), t) {
					continue
				}
				st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				if st.Field(fa.Field).Name() != name || fa.Referrers() == nil {
					continue
				}
				for _, r := range *fa.Referrers() {
					if _, ok := r.(*ssa.UnOp); ok {
						return true
					}
				}
			}
		}
		return false
	}
	if reads(f) {
		return true
	}
	for _, g := range c.ownCallees(f) {
		if reads(g) {
			return true
		}
	}
	return false
}

func checkC04(c *Ctx) {
	var gpp *ssa.Function
	for _, f := range c.constructors() {
		s := c.session()
		args := entryArgs(f)
		c.positive(s, f, args)
		ret := s.call(f, args...)
		if s.st.dead {
			c.skip("%s never returns", shortFn(f))
			continue
		}
		for i, t := range resultTypes(f) {
			v := resultAt(ret, f, i)
			for _, p := range c.paramSets(s.in, s.st, v, t, "", 0) {
				c.current(s.in, s.st, p, shortFn(f), c.siteOf(f))
			}
		}
		if f.Pkg.Pkg.Name() == "pol" {
			gpp = f
		}
	}
	if gpp == nil {
		c.lose("no constructor of the public parameters in package pol")
		return
	}
	type use struct {
		s  *session
		st *State
		p  *Term
		f  *ssa.Function
	}
	seen := map[use]bool{}
	check := func(s *session, e *Event) {
		callee := c.byName(e.Name)
		if callee == nil {
			return
		}
		for i, q := range callee.Params {
			if i >= len(e.Args) || !c.isParamSet(q.Type()) || i == 0 && callee.Signature.Recv() != nil {
				continue
			}
			p := paramSet{q.Type(), e.Args[i], "→" + shortFn(callee)}
			if c.untouched(s.in, e.St, p) || p.obj.op == "choice" || !c.readsDigest(callee, p.typ) || seen[use{s, e.St, p.obj, callee}] {
				continue
			}
			seen[use{s, e.St, p.obj, callee}] = true
			c.current(s.in, e.St, p, shortFn(e.Fn), c.eventSite(e))
		}
	}
	done := map[*session]bool{}
	c.nestedSets(gpp, func(s *session, p paramSet, e *Event) {
		if !done[s] {
			done[s] = true
			for _, e := range s.in.Events {
				if e.Kind == "enter" || e.Kind == "atomic" {
					check(s, e)
				}
			}
		}
	})
}
