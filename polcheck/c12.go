package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: the setup secret.

func init() {
	register("C12", "taint of every random draw made while parameters are generated: everything that outlives the call (result, package state, what they point to) and everything printed, logged, written or stored is walked, and a draw may occur there only as the exponent of a group element; the exponents of the published group-one elements are computed symbolically and compared with N+1 for every N; indices at which functions of the package read the group-one powers are compared with the slot of the missing power", checkC12)
}

// secretExposed finds a draw in a value outside the exponent of a group element. It calls visit on the objects met.
func secretExposed(t *Term, visit func(*Term)) *Term {
	seen := map[*Term]bool{}
	var found *Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if found != nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "app":
			switch t.sym {
			case "draw":
				found = t
				return
			case "G1.Mul", "G2.Mul", "Gt.Exp":
				if len(t.args) == 2 {
					rec(t.args[0])
					return
				}
			}
			if isRandomSource(t) {
				found = t
				return
			}
		case "obj", "gaddr":
			visit(t)
		case "mu", "muv":
			if d := muDefs[t.sym]; d != nil && d.next != nil {
				rec(d.init)
				rec(d.next)
			}
		case "choice":
			_, alts := choiceAlts(t)
			for _, a := range alts {
				rec(a)
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return found
}

func isRandomSource(t *Term) bool {
	return t.op == "app" && (strings.HasPrefix(t.sym, "randbytes") || strings.HasPrefix(t.sym, "crypto/rand.") || strings.HasPrefix(t.sym, "math/rand"))
}

// leavesProgram: a library function that passes its arguments on to the outside.
func leavesProgram(name string) bool {
	n := strings.TrimLeft(name, "(*")
	for _, p := range []string{"os.", "io.", "io/", "net.", "net/", "log.", "log/", "bufio.", "syscall.", "runtime/", "testing.", "expvar.", "go.uber.org/"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func argType(instr ssa.Instruction, i int) types.Type {
	if call, ok := instr.(ssa.CallInstruction); ok {
		cc := call.Common()
		if cc.IsInvoke() {
			i--
		}
		if i >= 0 && i < len(cc.Args) {
			return cc.Args[i].Type()
		}
	}
	return nil
}

func baseOf(a *Term) *Term {
	for (a.op == "fa" || a.op == "ea" || a.op == "vc" || a.op == "bk" || a.op == "mc" || a.op == "slice") && len(a.args) > 0 {
		a = a.args[0]
	}
	return a
}

// exposed walks what a call leaves behind: its result and the package state.
func (c *Ctx) exposed(s *session, roots []*Term, from int) (path string, what *Term) {
	cells := map[*Term][]int{}
	s.st.mem.Each(func(k int, v *Term) {
		b := baseOf(termList[k])
		if b.op == "hv" {
			return // not memory of the program
		}
		cells[b] = append(cells[b], k)
	})
	type item struct {
		t    *Term
		path string
	}
	var work []item
	seen := map[*Term]bool{}
	for _, r := range roots {
		work = append(work, item{r, "the result"})
	}
	for b := range cells {
		if b.op != "obj" {
			work = append(work, item{b, describe(b)})
		}
	}
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		push := func(o *Term) {
			if !seen[o] {
				seen[o] = true
				work = append(work, item{o, it.path})
			}
		}
		t := it.t
		if cells[t] != nil {
			seen[t] = true
			for _, k := range cells[t] {
				a, v := termList[k], s.st.mem.Get(k)
				if n := fieldName(a); n == "$buf" || n == "$key" || n == "$db" {
					continue // the state of a hash that nobody can read
				}
				p := it.path
				if n := fieldName(a); n != "" && !strings.HasPrefix(n, "$") {
					p += "." + n
				}
				old := it.path
				it.path = p
				if d := secretExposed(v, push); d != nil {
					return p, d
				}
				it.path = old
			}
			continue
		}
		if d := secretExposed(t, push); d != nil {
			return it.path, d
		}
	}
	return "", nil
}

func fieldName(a *Term) string {
	for a.op == "ea" || a.op == "vc" || a.op == "bk" || a.op == "mc" {
		a = a.args[0]
	}
	if a.op == "fa" {
		return a.sym
	}
	return ""
}

// elements enumerates the elements of a vector with their positions and the range of loop variables.
type element struct {
	t, pos *Term
	fs     []*Term
}

func elements(c *Term) []element {
	var r []element
	var rec func(c, off *Term, fs []*Term)
	rec = func(c, off *Term, fs []*Term) {
		switch c.op {
		case "lit":
			for i, a := range c.args {
				r = append(r, element{a, add(off, intT(int64(i))), fs})
			}
		case "cat":
			rec(c.args[0], off, fs)
			rec(c.args[1], add(off, lenOf(c.args[0])), fs)
		case "lcat":
			rec(c.args[0], off, fs)
			lv := loopVar(c.sym)
			e := c.args[2]
			n, ok := lenOf(e).intVal()
			if ok {
				rec(e, addT(add(off, lenOf(c.args[0])), mulK(lv, n)), with(fs, inRange(lv, c.args[1])...))
			}
		case "sto":
			r = append(r, element{c.args[2], add(off, c.args[1]), fs})
			n := len(r)
			rec(c.args[0], off, fs)
			for i := n; i < len(r); i++ {
				r[i].fs = with(r[i].fs, not(eqInt(r[i].pos, add(off, c.args[1]))))
			}
		case "lsto":
			lv := loopVar(c.sym)
			r = append(r, element{c.args[3], add(off, c.args[2]), with(fs, inRange(lv, c.args[1])...)})
		case "cpy":
			rec(c.args[2], add(off, c.args[1]), fs)
		case "choice":
			_, alts := choiceAlts(c)
			for k, a := range alts {
				p, _ := choiceAlts(c)
				rec(a, off, with(fs, edgeFacts(c.sym, p, k)...))
			}
		}
	}
	rec(c, intT(0), nil)
	// conditional elements
	for n := 0; n < len(r) && len(r) < 200; n++ {
		e := r[n]
		if e.t.op != "choice" {
			continue
		}
		params, alts := choiceAlts(e.t)
		r = append(r[:n], r[n+1:]...)
		n--
		for k, a := range alts {
			r = append(r, element{a, e.pos, with(e.fs, edgeFacts(e.t.sym, params, k)...)})
		}
	}
	return r
}

func addT(a, b *Term) *Term { return add(a, b) }

// power: the exponent of the setup secret in a value (nil if unknown).
func power(t *Term) *Term {
	switch t.op {
	case "fld", "glob":
		return intT(0)
	case "muv":
		// multiplied by the same factor in every iteration
		d := muDefs[t.sym]
		if d == nil || d.next == nil || len(t.args) == 0 || d.next.op != "app" || len(d.next.args) != 2 {
			return nil
		}
		var f *Term
		switch d.next.sym {
		case "Zr.Mul", "G1.Mul", "G2.Mul", "Gt.Exp":
			if d.next.args[0] == d.self {
				f = d.next.args[1]
			} else if d.next.args[1] == d.self && d.next.sym == "Zr.Mul" {
				f = d.next.args[0]
			}
		}
		if f == nil || f.hasFV(loopVar(d.loop)) {
			return nil
		}
		a, b := power(d.init), power(f)
		if a == nil || b == nil {
			return nil
		}
		k, ok := b.intVal()
		if !ok {
			return nil
		}
		return add(a, mulK(t.args[0], k))
	case "app":
		switch t.sym {
		case "draw":
			return intT(1)
		case "G1.Copy", "Zr.Copy", "G2.Copy":
			return power(t.args[0])
		case "G1.Mul", "G2.Mul", "Gt.Exp", "Zr.Mul":
			a, b := power(t.args[0]), power(t.args[1])
			if a == nil || b == nil {
				return nil
			}
			return add(a, b)
		case "Zr.PowMod":
			b := power(t.args[0])
			if b == nil {
				return nil
			}
			k, ok := b.intVal()
			e := t.args[1]
			if !ok || e.op != "app" || e.sym != "Curve.NewZrFromInt" {
				return nil
			}
			return mulK(stripConv(e.args[len(e.args)-1]), k)
		case "Curve.NewZrFromInt":
			if n, ok := t.args[len(t.args)-1].intVal(); ok && n == 1 {
				return intT(0)
			}
		}
	}
	return nil
}

func checkC12(c *Ctx) {
	found := false
	for _, f := range c.constructors() {
		s := c.session()
		args := entryArgs(f)
		c.positive(s, f, args)
		ret := s.call(f, args...)
		if s.st.dead {
			c.skip("%s never returns", shortFn(f))
			continue
		}
		site := c.siteOf(f)
		key := shortFn(f)
		draws := 0
		for _, e := range s.in.Events {
			switch e.Kind {
			case "draw", "rand":
				draws++
			case "print", "panic", "extern", "sync", "dbput", "send", "callfn", "invoke":
				if e.Kind == "extern" && !leavesProgram(e.Name) {
					continue
				}
				bad := false
				for i, a := range e.Args {
					if secretExposed(s.in.deep(e.St, a, argType(e.Instr, i), 0), func(*Term) {}) != nil {
						bad = true
					}
				}
				c.oblige(!bad, key+"/"+e.Kind+" in "+shortFn(e.Fn), c.eventSite(e), "a value drawn while generating parameters is passed to "+e.Kind+" "+e.Name)
			case "write":
				// writes to anything but a hash
				if len(e.Args) > 1 && !isHashObj(s.in, e.Args[0]) {
					c.oblige(secretExposed(e.Args[1], func(*Term) {}) == nil, key+"/write in "+shortFn(e.Fn), c.eventSite(e), "a value drawn while generating parameters is written to "+describe(e.Args[0]))
				}
			}
		}
		path, what := c.exposed(s, []*Term{ret}, 0)
		msg := ""
		if what != nil {
			msg = fmt.Sprintf("a value drawn while generating parameters is kept in %s outside the exponent of a group element", path)
		}
		c.oblige(what == nil, key+"/kept", site, msg)
		if draws == 0 {
			continue
		}
		for i, t := range resultTypes(f) {
			for _, p := range c.paramSets(s.in, s.st, resultAt(ret, f, i), t, "", 0) {
				if c.missingPower(s, f, p) {
					found = true
				}
			}
		}
	}
	if !found {
		c.lose("no parameter set with powers of a drawn secret")
	}
}

func isHashObj(in *Interp, t *Term) bool {
	for t.op == "mkif" {
		t = t.args[0]
	}
	if t.op == "obj" {
		if o := in.objs[t.sym]; o != nil && o.kind == "hash" {
			return true
		}
	}
	return false
}

// missingPower: exponents of the published elements, and the slot that stands in for the missing one.
func (c *Ctx) missingPower(s *session, f *ssa.Function, p paramSet) bool {
	var n *Term // number of committed positions: the size of the group-two vector
	for _, g := range groupFields(p.typ) {
		if g.group == "G2" && g.vec {
			n = lenOf(p.fieldValue(s.in, s.st, g))
		}
	}
	if n == nil {
		return false
	}
	fs := s.st.factList()
	any := false
	for _, g := range groupFields(p.typ) {
		if g.group != "G1" {
			continue
		}
		v := p.fieldValue(s.in, s.st, g)
		es := []element{{v, nil, nil}}
		if g.vec {
			es = elements(v)
		}
		for _, e := range es {
			if e.t.op != "app" || !mentionsOp(e.t, "draw") {
				// the stand-in
				if g.vec && e.pos != nil && (e.t.op == "fld" || e.t.op == "glob") {
					c.openings(s, f, p, g, e)
				}
				continue
			}
			any = true
			x := power(e.t)
			if x == nil {
				c.note("%s%s.%s: exponent not known: %s", shortFn(f), p.path, g.name, describe(e.t))
				continue
			}
			c.oblige(contradicts(with(fs, e.fs...), eqInt(x, add(n, intT(1)))), shortFn(f)+p.path+"/"+g.name, c.siteOf(f),
				fmt.Sprintf("%s%s.%s holds the power with exponent %s, which can be N+1 (N = %s)", shortFn(f), p.path, g.name, describe(x), describe(n)))
		}
	}
	return any
}

// openings: the functions of the package that defines the parameter set do not read the stand-in.
func (c *Ctx) openings(s *session, ctor *ssa.Function, p paramSet, g groupField, hole element) {
	pt, ok := p.typ.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	named, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || named.Obj().Pkg() == nil || ctor.Pkg.Pkg != named.Obj().Pkg() {
		return
	}
	// the integer field that is the slot
	slot := ""
	st := pt.Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		if _, isInt := width(fl.Type()); isInt {
			v := s.in.load(s.st, fieldAddr(p.obj, fl.Name()), fl.Type())
			if v == hole.pos || entails(with(s.st.factList(), hole.fs...), eqInt(v, hole.pos)) {
				slot = fl.Name()
			}
		}
	}
	if slot == "" {
		c.note("%s: no field holds the slot %s", shortFn(ctor), describe(hole.pos))
		return
	}
	for _, f := range c.p.Functions("bench") {
		if f.Pkg == nil || f.Pkg.Pkg != named.Obj().Pkg() || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		var prm *ssa.Parameter
		for _, q := range f.Params {
			if types.Identical(q.Type(), p.typ) {
				prm = q
			}
		}
		if prm == nil {
			continue
		}
		t := c.session()
		args := entryArgs(f)
		var obj *Term
		for i, q := range f.Params {
			if q == prm {
				obj = args[i]
			}
		}
		vt, _ := hasField(p.typ, g.name)
		vec := t.in.load(t.st, fieldAddr(obj, g.name), vt)
		nt, _ := hasField(p.typ, slot)
		n := t.in.load(t.st, fieldAddr(obj, slot), nt)
		t.call(f, args...)
		for _, e := range t.in.Events {
			if e.Kind != "index" || len(e.Args) < 2 || e.Args[0] != vec {
				continue
			}
			if e.Args[1].op == "in" {
				continue // the caller's index
			}
			c.oblige(contradicts(e.St.factList(), eqInt(e.Args[1], n)), shortFn(f)+"/slot", c.eventSite(e),
				fmt.Sprintf("%s reads %s at %s, which can be the slot of the missing power (%s)", shortFn(f), g.name, describe(e.Args[1]), slot))
		}
	}
}
