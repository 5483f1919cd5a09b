package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Parameter sets: structures holding group elements.

type groupField struct {
	name  string
	vec   bool
	group string // G1, G2, Gt
}

// groupFields: the fields of a structure that are group elements or vectors of them.
func groupFields(t types.Type) []groupField {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || mathName(t) != "" {
		return nil
	}
	var r []groupField
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch g := mathPtr(f.Type()); g {
		case "G1", "G2", "Gt":
			r = append(r, groupField{f.Name(), false, g})
		case "":
			if sl, ok := f.Type().Underlying().(*types.Slice); ok {
				if g := mathPtr(sl.Elem()); g == "G1" || g == "G2" || g == "Gt" {
					r = append(r, groupField{f.Name(), true, g})
				}
			}
		}
	}
	return r
}

// bytesField: the field of a structure holding a byte string (its digest).
func bytesField(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if typeName(s.Field(i).Type()) == "[]byte" {
			return s.Field(i).Name()
		}
	}
	return ""
}

// isParamSet: a pointer to a structure of the repository with group elements and a digest.
func (c *Ctx) isParamSet(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || c.p.pkgs[n.Obj().Pkg().Path()] == nil {
		return false
	}
	return len(groupFields(t)) > 0 && bytesField(t) != ""
}

// paramSets: the parameter sets reachable from a value of type t through fields of structures.
type paramSet struct {
	typ  types.Type
	obj  *Term // the structure
	path string
}

func (c *Ctx) paramSets(in *Interp, st *State, v *Term, t types.Type, path string, depth int) []paramSet {
	var r []paramSet
	if depth > 4 || v == nil || v.op == "nil" {
		return nil
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	if c.isParamSet(t) {
		r = append(r, paramSet{t, v, path})
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok || mathName(p.Elem()) != "" {
		return r
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if fp, ok := f.Type().Underlying().(*types.Pointer); ok {
			if _, ok := fp.Elem().Underlying().(*types.Struct); ok && mathName(fp.Elem()) == "" {
				x := in.load(st, fieldAddr(v, f.Name()), f.Type())
				r = append(r, c.paramSets(in, st, x, f.Type(), path+"."+f.Name(), depth+1)...)
			}
		}
	}
	return r
}

// fieldValue: the value of a group-element field.
func (p paramSet) fieldValue(in *Interp, st *State, f groupField) *Term {
	ft, _ := hasField(p.typ, f.name)
	return in.deep(st, in.load(st, fieldAddr(p.obj, f.name), ft), ft, 0)
}

// constructors: exported functions that return parameter sets.
func (c *Ctx) constructors() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.p.Functions("bench") {
		if f.Pkg == nil || f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || f.Pkg.Pkg.Name() == "main" {
			continue
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if c.holdsParams(res.At(i).Type(), 0) {
				r = append(r, f)
				break
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (c *Ctx) holdsParams(t types.Type, d int) bool {
	if c.isParamSet(t) {
		return true
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok || d > 2 {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || c.p.pkgs[n.Obj().Pkg().Path()] == nil {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	// a structure that consists of parameter sets
	for i := 0; i < s.NumFields(); i++ {
		if c.isParamSet(s.Field(i).Type()) && s.Field(i).Exported() {
			return true
		}
	}
	return false
}
