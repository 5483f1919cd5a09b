package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: no failure is swallowed.

func init() {
	register("C23", "for every call that can report failure (error result, or trailing ok of a conversion or lookup): assuming the failure, walk the control-flow graph with the branch outcomes this implies; every exit reached must be a panic or a return that reports failure, or the failure must have been handed on (stored, sent, passed to a function that stops on it)", checkC23)
}

func checkC23(c *Ctx) {
	n := 0
	for _, f := range c.p.Functions("bench") {
		if f.Pkg != nil && f.Pkg.Pkg.Name() == "bench" || f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			continue
		}
		n += c.failureRule(f)
	}
	if n == 0 {
		c.lose("no call that can fail was found")
	}
}

// failing calls of one function
func (c *Ctx) failureRule(f *ssa.Function) int {
	n := 0
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			kind, idx := c.canFail(ci.Common())
			if kind == "" {
				continue
			}
			n++
			c.analysed(f)
			site := c.p.pos(instrPos(i)) + " " + f.String()
			key := shortFn(f) + "/" + calleeName(ci.Common())
			call, isCall := i.(*ssa.Call)
			if !isCall {
				if _, isDefer := i.(*ssa.Defer); isDefer && !c.ownCallee(ci.Common()) {
					continue
				}
				c.oblige(false, key, site, "the result of "+calleeName(ci.Common())+" is thrown away")
				continue
			}
			var e ssa.Value
			if ci.Common().Signature().Results().Len() == 1 {
				e = call
			} else {
				for _, r := range *call.Referrers() {
					if x, ok := r.(*ssa.Extract); ok && x.Index == idx {
						e = x
					}
				}
			}
			if e == nil || len(realRefs(e)) == 0 {
				c.oblige(false, key, site, "the failure reported by "+calleeName(ci.Common())+" is ignored")
				continue
			}
			w := &failWalk{c: c, fn: f, e: e, kind: kind, seen: map[string]bool{}}
			w.from(b, i)
			c.oblige(w.bad == "", key, site, "when "+calleeName(ci.Common())+" fails, "+w.bad)
		}
	}
	return n
}

func realRefs(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		out = append(out, r)
	}
	return out
}

func instrPos(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	if i.Block() != nil {
		for _, x := range i.Block().Instrs {
			if x.Pos().IsValid() {
				return x.Pos()
			}
		}
	}
	if i.Parent() != nil {
		return i.Parent().Pos()
	}
	return token.NoPos
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return typeName(cc.Value.Type()) + "." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.RelString(nil)
	}
	return "function value of type " + typeName(cc.Value.Type())
}

func (c *Ctx) ownCallee(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	return f != nil && c.p.own(f)
}

// canFail: "err" or "ok" and the index of that result.
func (c *Ctx) canFail(cc *ssa.CallCommon) (string, int) {
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return "", 0
	}
	rs := cc.Signature().Results()
	if rs.Len() == 0 {
		return "", 0
	}
	last := rs.At(rs.Len() - 1).Type()
	if isErrorType(last) {
		// constructors of errors, printing and writes that cannot fail
		f := cc.StaticCallee()
		if f != nil && f.Pkg != nil {
			switch f.Pkg.Pkg.Path() {
			case "fmt":
				if strings.HasPrefix(f.Name(), "Fprint") {
					break
				}
				return "", 0
			case "errors", "bytes", "strings":
				return "", 0
			}
			if !c.p.own(f) && rs.Len() == 1 && f.Signature.Recv() == nil && (strings.Contains(f.Name(), "Errorf") || strings.HasPrefix(f.Name(), "Wrap") || f.Name() == "New") {
				return "", 0
			}
		}
		if cc.IsInvoke() && typeName(cc.Value.Type()) == "hash.Hash" {
			return "", 0
		}
		if f != nil && f.Signature.Recv() != nil {
			switch typeName(f.Signature.Recv().Type()) {
			case "*bytes.Buffer", "*strings.Builder", "*sha256.digest":
				return "", 0
			}
		}
		return "err", rs.Len() - 1
	}
	if isBoolType(last) && rs.Len() >= 2 {
		f := cc.StaticCallee()
		if f != nil {
			if c.p.own(f) || strings.HasPrefix(f.Name(), "SetString") || f.Name() == "Cut" && false {
				return "ok", rs.Len() - 1
			}
		}
	}
	return "", 0
}

// failWalk: the part of a function reachable once a failure was reported.
type failWalk struct {
	c     *Ctx
	fn    *ssa.Function
	e     ssa.Value
	kind  string
	seen  map[string]bool
	bad   string
	steps int
}

type failEnv struct {
	truth  map[ssa.Value]bool      // boolean values known
	failed map[ssa.Value]bool      // values carrying the failure (non-nil error / false)
	cells  map[ssa.Value]bool      // local variables holding the failure
	last   map[ssa.Value]ssa.Value // what was last stored in a local variable
	pass   bool                    // handed on
}

func (e *failEnv) clone() *failEnv {
	n := &failEnv{truth: map[ssa.Value]bool{}, failed: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}, last: map[ssa.Value]ssa.Value{}, pass: e.pass}
	for k, v := range e.last {
		n.last[k] = v
	}
	for k, v := range e.truth {
		n.truth[k] = v
	}
	for k, v := range e.failed {
		n.failed[k] = v
	}
	for k, v := range e.cells {
		n.cells[k] = v
	}
	return n
}

func (w *failWalk) from(b *ssa.BasicBlock, at ssa.Instruction) {
	env := &failEnv{truth: map[ssa.Value]bool{}, failed: map[ssa.Value]bool{w.e: true}, cells: map[ssa.Value]bool{}, last: map[ssa.Value]ssa.Value{}}
	if w.kind == "ok" {
		env.truth[w.e] = false
	}
	start := 0
	for k, i := range b.Instrs {
		if i == at {
			start = k + 1
		}
	}
	w.block(b, start, env)
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

func (w *failWalk) carries(env *failEnv, v ssa.Value) bool {
	for d := 0; d < 6; d++ {
		if env.failed[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return env.cells[x.X]
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (w *failWalk) block(b *ssa.BasicBlock, start int, env *failEnv) {
	w.steps++
	if w.bad != "" || w.steps > 4000 {
		return
	}
	for k := start; k < len(b.Instrs); k++ {
		switch x := b.Instrs[k].(type) {
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				var o ssa.Value
				switch {
				case isNilConst(x.Y):
					o = x.X
				case isNilConst(x.X):
					o = x.Y
				}
				if o != nil && w.carries(env, o) {
					env.truth[x] = x.Op == token.NEQ
				}
				if w.kind == "ok" {
					for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
						if v, known := env.truth[p[0]]; known {
							if kc, ok := p[1].(*ssa.Const); ok && kc.Value != nil && kc.Value.Kind() == constant.Bool {
								env.truth[x] = (v == constant.BoolVal(kc.Value)) == (x.Op == token.EQL)
							}
						}
					}
				}
			}
		case *ssa.UnOp:
			switch x.Op {
			case token.NOT:
				if v, ok := env.truth[x.X]; ok {
					env.truth[x] = !v
				}
			case token.MUL:
				if env.cells[x.X] {
					env.failed[x] = true
					if w.kind == "ok" {
						env.truth[x] = false
					}
				}
			}
		case *ssa.Store:
			if _, local := x.Addr.(*ssa.Alloc); local {
				v := x.Val
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && env.last[u.X] != nil {
					v = env.last[u.X]
				}
				env.last[x.Addr] = v
			}
			if w.carries(env, x.Val) {
				if _, local := x.Addr.(*ssa.Alloc); local {
					env.cells[x.Addr] = true
				} else if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isLocalArray(ia.X) {
					// an argument list
				} else {
					env.pass = true
				}
			} else if env.cells[x.Addr] {
				delete(env.cells, x.Addr)
			}
		case *ssa.Send:
			if w.carries(env, x.X) {
				env.pass = true
			}
		case *ssa.MapUpdate:
			if w.carries(env, x.Value) {
				env.pass = true
			}
		case ssa.CallInstruction:
			cc := x.Common()
			args := append([]ssa.Value(nil), cc.Args...)
			for ai, a := range args {
				if !w.carriesArg(env, a) {
					continue
				}
				f := cc.StaticCallee()
				switch {
				case f != nil && w.c.p.own(f):
					// a helper that stops on the failure
					if v, ok := x.(ssa.Value); ok && hasFailResult(cc.Signature()) {
						env.failed[v] = true
						continue
					}
					h := &failWalk{c: w.c, fn: f, kind: w.kind, seen: map[string]bool{}}
					if ai < len(f.Params) && len(f.Blocks) > 0 {
						henv := &failEnv{truth: map[ssa.Value]bool{}, failed: map[ssa.Value]bool{f.Params[ai]: true}, cells: map[ssa.Value]bool{}, last: map[ssa.Value]ssa.Value{}}
						if w.kind == "ok" {
							henv.truth[f.Params[ai]] = false
						}
						h.e = f.Params[ai]
						h.block(f.Blocks[0], 0, henv)
						if h.bad == "" {
							return // the helper never comes back
						}
					}
				case f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "fmt" || f.Pkg.Pkg.Path() == "errors" || f.Pkg.Pkg.Path() == "log"):
					if v, ok := x.(ssa.Value); ok && isErrorType(cc.Signature().Results().At(max0(cc.Signature().Results().Len()-1)).Type()) && f.Pkg.Pkg.Path() != "log" {
						env.failed[v] = true
					}
				default:
					env.pass = true
				}
			}
			// calls that never return
			if f := cc.StaticCallee(); f != nil {
				if w.c.neverReturns(f) {
					return
				}
			}
		case *ssa.Panic:
			return
		case *ssa.Return:
			w.exit(env, x)
			return
		case *ssa.If:
			if v, known := env.truth[x.Cond]; known {
				if v {
					w.edge(b, b.Succs[0], env)
				} else {
					w.edge(b, b.Succs[1], env)
				}
				return
			}
			w.edge(b, b.Succs[0], env.clone())
			w.edge(b, b.Succs[1], env)
			return
		case *ssa.Jump:
			w.edge(b, b.Succs[0], env)
			return
		}
	}
}

func (w *failWalk) carriesArg(env *failEnv, a ssa.Value) bool {
	if w.carries(env, a) {
		return true
	}
	// variadic: the failure was put into the argument array
	if s, ok := a.(*ssa.Slice); ok {
		if al, ok := s.X.(*ssa.Alloc); ok {
			for _, r := range realRefs(al) {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, q := range realRefs(ia) {
						if st, ok := q.(*ssa.Store); ok && w.carries(env, st.Val) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func hasFailResult(sig *types.Signature) bool {
	rs := sig.Results()
	return rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
}

// neverReturns: every exit of f is a panic (or os.Exit, log.Fatal).
func (c *Ctx) neverReturns(f *ssa.Function) bool {
	if f.Pkg != nil {
		switch f.Pkg.Pkg.Path() + "." + f.Name() {
		case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
			return true
		}
	}
	if !c.p.own(f) || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return false
		}
	}
	return true
}

func (w *failWalk) edge(from, to *ssa.BasicBlock, env *failEnv) {
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
		}
	}
	// phis are evaluated together
	nt, nf := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	var phis []*ssa.Phi
	for _, i := range to.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		if pi < 0 {
			continue
		}
		v := p.Edges[pi]
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			nt[p] = constant.BoolVal(k.Value)
		} else if t, known := env.truth[v]; known {
			nt[p] = t
		}
		if w.carries(env, v) {
			nf[p] = true
		}
	}
	for _, p := range phis {
		delete(env.truth, p)
		delete(env.failed, p)
		if t, ok := nt[p]; ok {
			env.truth[p] = t
		}
		if nf[p] {
			env.failed[p] = true
		}
	}
	key := fmt.Sprint(to.Index, env.pass, len(env.failed), len(env.cells))
	for _, p := range phis {
		t, known := env.truth[p]
		key += fmt.Sprint(known, t, env.failed[p])
	}
	var ls []string
	for a, v := range env.last {
		ls = append(ls, fmt.Sprint(a.Name(), isNilConst(v), w.carries(env, v)))
	}
	sort.Strings(ls)
	key += strings.Join(ls, ",")
	if w.seen[key] {
		return
	}
	w.seen[key] = true
	// a failing call met again in a loop is a new call
	w.block(to, 0, env)
}

func (w *failWalk) exit(env *failEnv, r *ssa.Return) {
	if env.pass {
		return
	}
	rs := w.fn.Signature.Results()
	pos := w.c.p.pos(instrPos(r))
	if rs.Len() == 0 {
		w.bad = "the function goes on and returns normally at " + pos
		return
	}
	v := r.Results[rs.Len()-1]
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && env.last[u.X] != nil {
		v = env.last[u.X]
	}
	lt := rs.At(rs.Len() - 1).Type()
	switch {
	case isErrorType(lt):
		if isNilConst(v) {
			w.bad = "success is returned at " + pos
		}
	case isBoolType(lt):
		if t, known := env.truth[v]; known {
			if t {
				w.bad = "success is returned at " + pos
			}
			return
		}
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && constant.BoolVal(k.Value) {
			w.bad = "success is returned at " + pos
			return
		}
		if k, ok := v.(*ssa.Const); ok && k.Value != nil {
			return
		}
		if !env.failed[v] {
			w.bad = "the result does not depend on it at " + pos
		}
	default:
		for _, x := range r.Results {
			if w.carries(env, x) {
				return
			}
		}
		w.bad = "the function goes on and returns normally at " + pos
	}
}

func isLocalArray(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	_, arr := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	return arr
}
