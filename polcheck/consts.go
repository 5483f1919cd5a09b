package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package-level variables that are constants in all but name: assigned once, when the package is
// initialised, and never through a pointer. Their values are found by running the initialisers abstractly.

var constGlobals map[string]*Term

func (p *Program) loadConstants() {
	constGlobals = nil
	once := map[string]*ssa.Global{}
	for _, pk := range p.pkgs {
		for _, m := range pk.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g.Name() == "init$guard" {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			if g.Object() != nil && g.Object().Exported() && !types.Identical(t, types.Universe.Lookup("error").Type()) {
				continue // may be set by the user
			}
			if constType(t) {
				once[g.RelString(nil)] = g
			}
		}
	}
	if len(once) == 0 {
		return
	}
	for _, f := range p.Functions() {
		isInit := f.Name() == "init" && f.Parent() == nil
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := i.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == *op && x.Val != *op && isInit {
							continue
						}
					}
					delete(once, g.RelString(nil))
				}
			}
		}
	}
	if len(once) == 0 {
		return
	}
	out := map[string]*Term{}
	for _, g := range once {
		f := g.Pkg.Func("init")
		if f == nil {
			continue
		}
		if t := p.initialValue(f, g); t != nil {
			out[g.RelString(nil)] = t
		}
	}
	constGlobals = out
}

func constType(t types.Type) bool {
	if typeName(t) == "*math.Zr" || types.Identical(t, types.Universe.Lookup("error").Type()) {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsString|types.IsBoolean) != 0
}

func (p *Program) initialValue(f *ssa.Function, g *ssa.Global) (v *Term) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	i := NewInterp(p)
	st := &State{}
	for _, pk := range p.pkgs {
		if x, ok := pk.Members["init$guard"].(*ssa.Global); ok {
			st.mem = st.mem.Set(mk("gaddr", x.RelString(nil)).id, boolT(false))
		}
	}
	i.CallFn(nil, st, f, nil, nil, "")
	if st.dead {
		return nil
	}
	a := mk("gaddr", g.RelString(nil))
	t := g.Type().(*types.Pointer).Elem()
	x := i.load(st, a, t)
	if typeName(t) != "*math.Zr" {
		if x.op == "app" && x.sym == "errorf" {
			return app("errorf", mk("str", g.RelString(nil)))
		}
		if _, ok := x.intVal(); ok || x.op == "str" || x == boolT(true) || x == boolT(false) {
			return x
		}
		return nil
	}
	x = i.val(st, x)
	if x.op != "app" || !strings.HasSuffix(x.sym, "NewZrFromInt") {
		return nil
	}
	if _, ok := x.args[len(x.args)-1].intVal(); !ok {
		return nil
	}
	// the curve by the name the package has for it
	m := map[*Term]*Term{}
	for _, mb := range g.Pkg.Members {
		if cg, ok := mb.(*ssa.Global); ok && typeName(cg.Type().(*types.Pointer).Elem()) == "*math.Curve" {
			ca := mk("gaddr", cg.RelString(nil))
			m[i.load(st, ca, cg.Type().(*types.Pointer).Elem())] = initialOf(ca)
		}
	}
	return subst(x, m)
}
