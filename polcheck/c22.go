package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: a verification verdict depends only on parameters, statement and proof.

func init() {
	register("C22", "taint of branch conditions, accepting conditions and error results of every verifier (through all calls): no atom stemming from the clock, a random source, the environment, the scheduler, map iteration order or a package-level variable that is assigned after initialisation; no verifier changes a package-level variable", checkC22)
}

var impureApps = []string{"time.", "math/rand", "crypto/rand", "randbytes", "draw", "os.", "runtime.", "net.", "select", "readbytes"}

// impure: an atom of t that is neither parameter, statement nor proof.
func (c *Ctx) impure(t *Term, mutable map[string]string) string {
	r := ""
	walkDeep(t, func(x *Term) bool {
		if r != "" {
			return false
		}
		switch x.op {
		case "app":
			for _, p := range impureApps {
				if x.sym == p || strings.HasSuffix(p, ".") && strings.HasPrefix(x.sym, p) || strings.HasPrefix(x.sym, p+".") {
					r = x.sym
				}
			}
		case "glob", "gaddr":
			if why, ok := mutable[x.sym]; ok {
				r = "the package-level variable " + x.sym + ", " + why
			}
		case "mapkey":
			r = "the iteration order of a map"
		}
		return r == ""
	})
	return r
}

// mutableGlobals: package-level variables of the library changed outside initialisation.
func (c *Ctx) mutableGlobals() map[string]string {
	out := map[string]string{}
	for _, f := range c.p.Functions() {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Synthetic != "" && strings.Contains(f.Synthetic, "initializer") {
			continue
		}
		if c.onlyOnce(f) {
			continue
		}
		pk := f.Package()
		if pk == nil || pk.Pkg.Name() == "main" || pk.Pkg.Name() == "bench" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if g := globalOf(x.Addr); g != nil {
						out[g.RelString(nil)] = "assigned in " + shortFn(f)
					}
				case *ssa.MapUpdate:
					if u, ok := x.Map.(*ssa.UnOp); ok {
						if g := globalOf(u.X); g != nil {
							out[g.RelString(nil)] = "changed in " + shortFn(f)
						}
					}
				case ssa.CallInstruction:
					cc := x.Common()
					for _, a := range cc.Args {
						g := globalOf(a)
						if g == nil {
							// a pointer kept in a global: methods of synchronised containers change it
							if u, ok := a.(*ssa.UnOp); ok {
								if h := globalOf(u.X); h != nil && changesReceiver(cc) && cc.Args[0] == a {
									out[h.RelString(nil)] = "changed by " + calleeName(cc) + " in " + shortFn(f)
								}
							}
							continue
						}
						if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && cc.Args[0] == a && !changesReceiver(cc) {
							continue
						}
						out[g.RelString(nil)] = "changed by " + calleeName(cc) + " in " + shortFn(f)
					}
					if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						if u, ok := cc.Args[0].(*ssa.UnOp); ok {
							if g := globalOf(u.X); g != nil {
								out[g.RelString(nil)] = "changed in " + shortFn(f)
							}
						}
					}
				}
			}
		}
	}
	return out
}

// onlyOnce: a function that is only run through a sync.Once and does not depend on the call that
// happens to run it.
func (c *Ctx) onlyOnce(f *ssa.Function) bool {
	if len(f.FreeVars) > 0 || len(f.Params) > 0 {
		return false
	}
	if r, ok := c.once[f]; ok {
		return r
	}
	if c.once == nil {
		c.once = map[*ssa.Function]bool{}
	}
	users := []*ssa.Function{f.Parent()}
	if f.Parent() == nil {
		users = c.p.Functions()
	}
	n := 0
	r := true
	for _, u := range users {
		k, ok := runsOnce(u, f)
		n += k
		r = r && ok
	}
	c.once[f] = r && n > 0
	return r && n > 0
}

// runsOnce: the uses of f in u all hand it to a sync.Once; how many there are.
func runsOnce(u, f *ssa.Function) (int, bool) {
	n := 0
	for _, b := range u.Blocks {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				if *o != ssa.Value(f) {
					if m, ok := (*o).(*ssa.MakeClosure); !ok || m.Fn != ssa.Value(f) {
						continue
					}
				}
				if _, ok := i.(*ssa.MakeClosure); ok {
					continue
				}
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					return n, false
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.String() != "(*sync.Once).Do" {
					return n, false
				}
				n++
			}
		}
	}
	return n, true
}

func changesReceiver(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "sync", "sync/atomic":
		n := f.Name()
		return n != "Lock" && n != "Unlock" && n != "RLock" && n != "RUnlock" && n != "Wait"
	}
	return false
}

func globalOf(v ssa.Value) *ssa.Global {
	for d := 0; d < 8; d++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
			if u, ok := v.(*ssa.UnOp); ok {
				v = u.X
			}
		default:
			return nil
		}
	}
	return nil
}

func checkC22(c *Ctx) {
	mutable := c.mutableGlobals()
	var fns []*ssa.Function
	for _, v := range c.verifiers() {
		if v.ref != nil {
			fns = append(fns, v.ref.fn)
		}
	}
	if m := c.method("pol", "LiabilityProof", "Verify"); m != nil {
		fns = append(fns, m.fn)
	}
	if len(fns) == 0 {
		return
	}
	for _, f := range fns {
		r := c.analyse(f)
		for _, e := range r.in.Events {
			switch e.Kind {
			case "if":
				why := c.impure(e.Args[0], mutable)
				if why != "" && !decides(e.Instr) {
					why = ""
				}
				c.oblige(why == "", shortFn(f)+"/branch", c.eventSite(e), fmt.Sprintf("a branch of %s depends on %s", shortFn(f), why))
			case "store", "mapupd", "mapdel", "mutate":
				for root := range r.in.roots(e.Args[0]) {
					if e.Fn != nil && c.onlyOnce(e.Fn) {
						continue
					}
					if root.op == "gaddr" || root.op == "glob" {
						c.oblige(false, shortFn(f)+"/global", c.eventSite(e), shortFn(f)+" changes the package-level variable "+root.sym)
					}
				}
			}
		}
		if r.dead {
			continue
		}
		e := r.ret
		if e.op == "tuple" {
			e = e.args[len(e.args)-1]
		}
		why := ""
		for _, t := range r.accepting() {
			if w := c.impure(t, mutable); w != "" {
				why = w
			}
		}
		c.oblige(why == "", shortFn(f)+"/verdict", c.siteOf(f), fmt.Sprintf("acceptance by %s depends on %s", shortFn(f), why))
	}
}

// decides: one of the arms of a branch ends the function or leaves something behind.
func decides(i ssa.Instruction) bool {
	x, ok := i.(*ssa.If)
	if !ok {
		return true
	}
	b := x.Block()
	reach := func(s *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		m := map[*ssa.BasicBlock]bool{}
		var rec func(s *ssa.BasicBlock)
		rec = func(s *ssa.BasicBlock) {
			if m[s] || s == b {
				return
			}
			m[s] = true
			for _, t := range s.Succs {
				rec(t)
			}
		}
		rec(s)
		return m
	}
	l, r := reach(b.Succs[0]), reach(b.Succs[1])
	for _, p := range []struct{ in, out map[*ssa.BasicBlock]bool }{{l, r}, {r, l}} {
		for s := range p.in {
			if p.out[s] {
				for _, k := range s.Instrs {
					if ph, ok := k.(*ssa.Phi); ok {
						// the merge of both arms
						for _, q := range s.Preds {
							if (l[q] || q == b) && !r[q] || (r[q] || q == b) && !l[q] {
								_ = ph
								return true
							}
						}
					}
				}
				continue
			}
			for _, k := range s.Instrs {
				switch y := k.(type) {
				case *ssa.Store:
					if ia, ok := y.Addr.(*ssa.IndexAddr); !ok || !isLocalArray(ia.X) {
						return true
					}
				case *ssa.Return, *ssa.Panic, *ssa.MapUpdate, *ssa.Go, *ssa.Send:
					return true
				case ssa.CallInstruction:
					f := y.Common().StaticCallee()
					if f == nil || f.Pkg == nil {
						return true
					}
					switch f.Pkg.Pkg.Path() {
					case "fmt", "log", "time":
					default:
						return true
					}
				}
			}
		}
	}
	return false
}
