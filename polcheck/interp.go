package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interp is one symbolic analysis run.
type Interp struct {
	answer  map[string]*Term // results of atomic procedures
	prog    *Program
	loops   []*Term // loop variables of the enclosing loops, outermost first
	nextAt  *Term   // iteration number of Next when a loop header is evaluated at the exit
	dry     int     // >0 while a pass only discovers loop-carried state
	stack   []*frame
	Events  []*Event
	objs    map[string]*objInfo
	atomic  map[string]bool // functions treated as uninterpreted predicates
	Notes   map[string]int  // imprecision notes
	steps   int
	Funcs   map[string]bool // functions analysed
	Calls   int
	maxStep int

	unwind     bool        // explicit panics run what is deferred
	outer      []*deferred // what the callers deferred
	panicking  bool        // a panic is on its way up
	goDepth    int         // >0 while the body of a goroutine is analysed
	streams    bool        // keep what is written to writers
	trackLoads bool        // record an event for every load
	chanCap    map[*Term]*Term
	onCall     func(fr *frame, st *State, fn *ssa.Function, args []*Term, pos token.Pos) // observer
	latches    map[string]*State                                                         // state at the end of an iteration, per loop
}

type objInfo struct {
	id      string
	formal  *Term
	typ     types.Type
	site    string
	aliases []*Term
	pos     token.Pos
	kind    string
	inGo    bool // created by a goroutine
	spare   bool // a slice of it may have room behind its last element
}

// Event is something observable that happened during the analysis.
type Event struct {
	Kind  string // mutate, index, slice, call, go, panic, rand, dbput, dbget, append, gstore, mapupd
	Fn    *ssa.Function
	Instr ssa.Instruction
	Pos   token.Pos
	Name  string
	Args  []*Term
	St    *State
	Loops []*Term
	Ctx   string
	InGo  bool // happens in a goroutine
}

func NewInterp(p *Program) *Interp {
	return &Interp{prog: p, objs: map[string]*objInfo{}, atomic: map[string]bool{}, Notes: map[string]int{}, Funcs: map[string]bool{}, maxStep: 6000000}
}

func (in *Interp) note(s string) { in.Notes[s]++ }

func (in *Interp) event(fr *frame, st *State, kind string, instr ssa.Instruction, name string, args ...*Term) {
	if in.dry > 0 {
		return
	}
	e := &Event{Kind: kind, Name: name, Args: args, St: st.clone(), Loops: append([]*Term(nil), in.loops...), Instr: instr, InGo: in.goDepth > 0}
	if fr != nil {
		e.Fn = fr.fn
		e.Ctx = fr.ctx
	}
	if instr != nil {
		e.Pos = instr.Pos()
	}
	if !e.Pos.IsValid() && instr != nil && instr.Block() != nil {
		for _, x := range instr.Block().Instrs {
			if x.Pos().IsValid() {
				e.Pos = x.Pos()
				break
			}
		}
	}
	in.Events = append(in.Events, e)
}

type frame struct {
	in      *Interp
	fn      *ssa.Function
	ctx     string
	env     map[ssa.Value]*Term
	free    []*Term
	returns []*retState
	rec     []*recEdge
	info    *fnInfo
	depth   int
	hvs     []hvCell
	armed   bool     // a deferred call that recovers was registered
	panics  []*State // states in which a panic may start that is recovered
}

type retState struct {
	st  *State
	res []*Term
}

type recEdge struct {
	st   *State
	args []*Term
}

var ctxIDs = map[string]string{}

func internCtx(s string) string {
	if id, ok := ctxIDs[s]; ok {
		return id
	}
	id := strconv.Itoa(len(ctxIDs))
	ctxIDs[s] = id
	return id
}

func instrKey(i ssa.Instruction) string {
	b := i.Block()
	for n, x := range b.Instrs {
		if x == i {
			return fmt.Sprintf("%d.%d", b.Index, n)
		}
	}
	return "?"
}

func (in *Interp) newObj(ctx, key string, typ types.Type, kind string, pos token.Pos) *Term {
	id := internCtx(ctx + "|" + key)
	t := mk("obj", id, in.loops...)
	if o := in.objs[id]; o == nil || o.formal != t {
		var al []*Term
		if o != nil {
			al = o.aliases
		}
		in.objs[id] = &objInfo{id: id, formal: t, typ: typ, site: ctx + "|" + key, pos: pos, kind: kind, aliases: al, inGo: in.goDepth > 0}
	}
	return t
}

// ---- memory ----

// rootObj returns the object at the root of an address and, if the object is an instance other than
// the current one of an object allocated in a loop, the substitution to its formal cell.
func (in *Interp) formalAddr(addr *Term) (*Term, map[*Term]*Term) {
	root := addr
	for root.op == "fa" {
		root = root.args[0]
	}
	if root.op != "obj" {
		return addr, nil
	}
	o := in.objs[root.sym]
	if o == nil || o.formal == root {
		return addr, nil
	}
	m := map[*Term]*Term{}
	for i, p := range o.formal.args {
		if i < len(root.args) && root.args[i] != p {
			m[p] = root.args[i]
		}
	}
	var re func(a *Term) *Term
	re = func(a *Term) *Term {
		if a.op == "fa" {
			return mk("fa", a.sym, re(a.args[0]))
		}
		return o.formal
	}
	return re(addr), m
}

func (in *Interp) cell(st *State, addr *Term) *Term {
	a, m := in.formalAddr(addr)
	v := st.mem.Get(a.id)
	if v == nil {
		return nil
	}
	if m != nil {
		return subst(v, m)
	}
	return v
}

func (in *Interp) setCell(st *State, addr, v *Term) {
	a, m := in.formalAddr(addr)
	if m != nil {
		in.note("write to another iteration's object")
		old := st.mem.Get(a.id)
		if old == nil {
			old = tUnit
		}
		st.mem = st.mem.Set(a.id, app("weak", old, v))
		return
	}
	st.mem = st.mem.Set(a.id, v)
}

func structNames(t types.Type) []string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var n []string
	for i := 0; i < s.NumFields(); i++ {
		n = append(n, s.Field(i).Name())
	}
	return n
}

func fieldTypes(t types.Type) []types.Type {
	s := t.Underlying().(*types.Struct)
	var n []types.Type
	for i := 0; i < s.NumFields(); i++ {
		n = append(n, s.Field(i).Type())
	}
	return n
}

const mathPkg = "github.com/IBM/mathlib"

// mathName: the short name of a type whose values are mutable mathematical objects, or "".
func mathName(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	switch n.Obj().Pkg().Path() {
	case mathPkg:
		switch n.Obj().Name() {
		case "Zr", "G1", "G2", "Gt":
			return n.Obj().Name()
		}
	case "math/big":
		if n.Obj().Name() == "Int" {
			return "Int"
		}
	case "bytes":
		if n.Obj().Name() == "Buffer" {
			return "Buffer"
		}
	case "strings":
		if n.Obj().Name() == "Builder" {
			return "Buffer"
		}
	}
	return ""
}

func mathPtr(t types.Type) string {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	return mathName(p.Elem())
}

func zeroOf(t types.Type) *Term {
	if n := mathName(t); n != "" {
		if n == "Buffer" {
			return mk("lit", "")
		}
		return app("zero:" + n)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return zeroInt
		case u.Info()&types.IsString != 0:
			return mk("str", "")
		}
		return app("zero:" + u.Name())
	case *types.Struct:
		var args []*Term
		for _, f := range fieldTypes(t) {
			args = append(args, zeroOf(f))
		}
		return mk("struct", ","+strings.Join(structNames(t), ","), args...)
	case *types.Array:
		if u.Len() <= 64 {
			args := make([]*Term, u.Len())
			for i := range args {
				args[i] = zeroOf(u.Elem())
			}
			return mk("lit", "", args...)
		}
		return mk("mkseq", "", intT(u.Len()), zeroOf(u.Elem()))
	case *types.Tuple:
		var args []*Term
		for i := 0; i < u.Len(); i++ {
			args = append(args, zeroOf(u.At(i).Type()))
		}
		return mk("tuple", "", args...)
	}
	return tNil
}

func isPlainStruct(t types.Type) bool {
	if mathName(t) != "" {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (in *Interp) load(st *State, addr *Term, t types.Type) *Term {
	switch addr.op {
	case "choice":
		return mapChoice(addr, func(a *Term) *Term { return in.load(st, a, t) })
	case "nil":
		return app("nilderef")
	case "ea":
		return elAt(in.content(st, addr.args[0]), addr.args[1])
	case "fa":
		if base := addr.args[0]; base.op == "ea" || base.op == "choice" || hasEA(base) {
			if base.op == "choice" {
				return mapChoice(base, func(a *Term) *Term { return in.load(st, mk("fa", addr.sym, a), t) })
			}
			return fld(in.load(st, base, nil), addr.sym)
		}
	}
	if t != nil && isPlainStruct(t) {
		names := structNames(t)
		fts := fieldTypes(t)
		args := make([]*Term, len(names))
		for i := range names {
			args[i] = in.load(st, mk("fa", names[i], addr), fts[i])
		}
		if len(args) == 0 {
			return mk("struct", ",")
		}
		return mkStruct("", names, args)
	}
	if v := in.cell(st, addr); v != nil {
		return v
	}
	if t == nil && addr.op == "obj" {
		if o := in.objs[addr.sym]; o != nil && o.typ != nil && isPlainStruct(o.typ) {
			return in.load(st, addr, o.typ)
		}
	}
	return initialOf2(addr)
}

func initialOf2(addr *Term) *Term {
	switch addr.op {
	case "fa", "gaddr", "bk", "vc", "mc":
		return initialOf(addr)
	case "ea":
		return elAt(initialOf(addr.args[0]), addr.args[1])
	}
	// pointer to an opaque scalar or struct: the pointed-to value is named by the pointer
	return addr
}

func hasEA(a *Term) bool {
	for a.op == "fa" {
		a = a.args[0]
	}
	return a.op == "ea"
}

func (in *Interp) store(fr *frame, st *State, addr, v *Term, t types.Type, instr ssa.Instruction) {
	switch addr.op {
	case "choice":
		params, alts := choiceAlts(addr)
		for k, a := range alts {
			if a.op == "nil" {
				continue
			}
			old := in.load(st, a, t)
			vs := make([]*Term, len(alts))
			for j := range vs {
				vs[j] = old
			}
			vs[k] = v
			in.store(fr, st, a, mkChoice(addr.sym, params, vs), t, instr)
		}
		return
	case "ea":
		c := in.content(st, addr.args[0])
		in.setContent(st, addr.args[0], mkSto(c, addr.args[1], v))
		in.event(fr, st, "store", instr, "elem", addr, v)
		return
	case "fa":
		if base := addr.args[0]; base.op == "ea" || hasEA(base) {
			old := in.load(st, base, nil)
			names := fieldNamesOf(old, addr.sym)
			if names == nil && instr != nil {
				if s, ok := instr.(*ssa.Store); ok {
					if f, ok := s.Addr.(*ssa.FieldAddr); ok {
						names = structNames(f.X.Type().Underlying().(*types.Pointer).Elem())
					}
				}
			}
			in.store(fr, st, base, updStruct(old, addr.sym, v, names), nil, instr)
			return
		} else if base.op == "choice" {
			params, alts := choiceAlts(base)
			var as []*Term
			for _, a := range alts {
				if a.op == "nil" {
					as = append(as, tNil)
				} else {
					as = append(as, mk("fa", addr.sym, a))
				}
			}
			in.store(fr, st, mkChoice(base.sym, params, as), v, t, instr)
			return
		}
	}
	if t != nil && isPlainStruct(t) {
		names, fts := structNames(t), fieldTypes(t)
		for i := range names {
			in.store(fr, st, mk("fa", names[i], addr), fld(v, names[i]), fts[i], instr)
		}
		return
	}
	in.event(fr, st, "store", instr, "cell", addr, v)
	in.setCell(st, addr, v)
}

func fieldNamesOf(v *Term, f string) []string {
	if v.op == "struct" {
		return strings.Split(v.sym, ",")[1:]
	}
	return nil
}

// content of a backing array
func (in *Interp) content(st *State, bk *Term) *Term {
	if bk.op == "choice" {
		return mapChoice(bk, func(a *Term) *Term { return in.content(st, a) })
	}
	if bk.op == "ea" || bk.op == "fa" && hasEA(bk) {
		return in.load(st, bk, nil)
	}
	if v := in.cell(st, bk); v != nil {
		return v
	}
	if bk.op == "bk" && bk.args[0].op == "el" {
		// one of several known slices
		s := bk.args[0]
		if l := s.args[0]; l.op == "lit" && len(l.args) <= 16 {
			args := make([]*Term, len(l.args))
			known := len(args) > 0
			for i, a := range l.args {
				if known = known && sequenceOp[a.op]; known {
					args[i] = in.seq(st, a)
				}
			}
			if known {
				return elAt(mk("lit", "", args...), s.args[1])
			}
		}
	}
	return initialOf2(bk)
}

// sequenceOp: values that stand for their own elements or for a known array.
var sequenceOp = map[string]bool{"slice": true, "nil": true, "choice": true, "mkif": true, "str": true, "app": true, "cat": true, "lit": true, "sub": true}

func (in *Interp) setContent(st *State, bk, c *Term) {
	if bk.op == "ea" { // nested arrays
		outer := in.content(st, bk.args[0])
		in.setContent(st, bk.args[0], mkSto(outer, bk.args[1], c))
		return
	}
	in.setCell(st, bk, c)
}

// sliceParts splits a slice value.
func sliceParts(s *Term) (bk, off, n *Term) {
	switch s.op {
	case "slice":
		return s.args[0], s.args[1], s.args[2]
	case "nil":
		return tNil, zeroInt, zeroInt
	}
	return mk("bk", "", s), zeroInt, lenOf(s)
}

// seq returns the sequence of elements of a slice or string value.
func (in *Interp) seq(st *State, s *Term) *Term {
	switch s.op {
	case "choice":
		return mapChoice(s, func(a *Term) *Term { return in.seq(st, a) })
	case "slice":
		return mkSub(in.content(st, s.args[0]), s.args[1], s.args[2])
	case "nil":
		return mk("lit", "")
	case "mkif":
		return in.seq(st, s.args[0])
	case "str", "app", "cat", "lit", "sub":
		return s
	}
	return in.content(st, mk("bk", "", s))
}

func (in *Interp) newSlice(fr *frame, st *State, key string, elem types.Type, content *Term, pos token.Pos) *Term {
	o := in.newObj(fr.ctx, key, nil, "array", pos)
	st.mem = st.mem.Set(o.id, content)
	return mk("slice", "", o, zeroInt, lenOf(content))
}

// ---- mutable mathematical objects ----

func valKey(p *Term) *Term {
	if p.op == "obj" {
		return p
	}
	return mk("vc", "", p)
}

// val: the current mathematical value behind pointer p.
func (in *Interp) val(st *State, p *Term) *Term {
	switch p.op {
	case "choice":
		return mapChoice(p, func(a *Term) *Term { return in.val(st, a) })
	case "nil":
		return tNil
	case "mkif":
		return in.val(st, p.args[0])
	case "obj":
		if v := in.cell(st, p); v != nil {
			return v
		}
		return app("uninit", p)
	case "fa", "gaddr":
		if v := in.cell(st, p); v != nil {
			return v
		}
	case "el":
		if v := in.cell(st, valKey(p)); v != nil {
			return v
		}
		return elAt(in.valc(st, p.args[0]), p.args[1])
	case "mget":
		if v := in.cell(st, valKey(p)); v != nil {
			return v
		}
		return mapGet(in.valc(st, p.args[0]), p.args[1])
	}
	if v := in.cell(st, valKey(p)); v != nil {
		return v
	}
	if p.op == "glob" {
		if v := constGlobals[p.sym]; v != nil {
			return v
		}
	}
	return p
}

// valc maps a sequence (or map) of pointers to the sequence of values behind them.
func (in *Interp) valc(st *State, c *Term) *Term {
	switch c.op {
	case "lit":
		args := make([]*Term, len(c.args))
		for i, a := range c.args {
			args[i] = in.val(st, a)
		}
		return mk("lit", "", args...)
	case "sto":
		return mkSto(in.valc(st, c.args[0]), c.args[1], in.val(st, c.args[2]))
	case "msto":
		return mk("msto", c.sym, in.valc(st, c.args[0]), c.args[1], in.val(st, c.args[2]))
	case "mkeep":
		return mk("mkeep", "", in.valc(st, c.args[0]), c.args[1])
	case "mkseq":
		return mk("mkseq", "", c.args[0], in.val(st, c.args[1]))
	case "cat":
		return mkCat(in.valc(st, c.args[0]), in.valc(st, c.args[1]))
	case "sub":
		return mkSub(in.valc(st, c.args[0]), c.args[1], c.args[2])
	case "lsto", "mlsto":
		return mk(c.op, c.sym, in.valc(st, c.args[0]), c.args[1], c.args[2], in.val(st, c.args[3]))
	case "lcat":
		return mk("lcat", c.sym, in.valc(st, c.args[0]), c.args[1], in.valc(st, c.args[2]))
	case "cpy":
		return mk("cpy", "", in.valc(st, c.args[0]), c.args[1], in.valc(st, c.args[2]), c.args[3])
	case "choice":
		return mapChoice(c, func(a *Term) *Term { return in.valc(st, a) })
	case "mu", "muv":
		return mkValc(c)
	case "el":
		if l := c.args[0]; l.op == "lit" {
			args := make([]*Term, len(l.args))
			for i, a := range l.args {
				args[i] = in.valc(st, a)
			}
			return elAt(mk("lit", "", args...), c.args[1])
		}
	}
	return c
}

func (in *Interp) setVal(fr *frame, st *State, p, v *Term, instr ssa.Instruction, op string) {
	in.event(fr, st, "mutate", instr, op, p, v)
	in.setVal1(st, p, v)
}

func (in *Interp) setVal1(st *State, p, v *Term) {
	switch p.op {
	case "choice":
		params, alts := choiceAlts(p)
		for k, a := range alts {
			if a.op == "nil" {
				continue
			}
			old := in.val(st, a)
			vs := make([]*Term, len(alts))
			for j := range vs {
				vs[j] = old
			}
			nv := v
			if v.op == "app" && len(v.args) > 0 && v.args[0].op == "choice" && v.args[0].sym == p.sym {
				_, oa := choiceAlts(v.args[0])
				nv = mk("app", v.sym, append([]*Term{oa[k]}, v.args[1:]...)...)
			}
			vs[k] = nv
			in.setVal1(st, a, mkChoice(p.sym, params, vs))
		}
		return
	case "nil":
		return
	}
	in.setCell(st, valKey(p), v)
}

func (in *Interp) newVal(fr *frame, st *State, instr ssa.Instruction, v *Term) *Term {
	o := in.newObj(fr.ctx, instrKey(instr), nil, "math", instr.Pos())
	st.mem = st.mem.Set(o.id, v)
	return o
}

// deep: a memory-independent snapshot of a value, for opaque operations.
func (in *Interp) deep(st *State, t *Term, typ types.Type, depth int) *Term {
	if depth > 6 || typ == nil {
		return t
	}
	if t.op == "choice" {
		return mapChoice(t, func(a *Term) *Term { return in.deep(st, a, typ, depth) })
	}
	if t.op == "mkif" {
		return in.deep(st, t.args[0], in.typeOf(t.sym), depth+1)
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if mathName(u.Elem()) != "" {
			return in.val(st, t)
		}
		if t.op == "nil" {
			return t
		}
		if isPlainStruct(u.Elem()) {
			names, fts := structNames(u.Elem()), fieldTypes(u.Elem())
			touched := t.op == "obj"
			if !touched {
				for _, n := range names {
					if in.cell(st, mk("fa", n, t)) != nil {
						touched = true
					}
				}
			}
			if !touched {
				return t
			}
			args := make([]*Term, len(names))
			for i, n := range names {
				args[i] = in.deep(st, in.load(st, mk("fa", n, t), fts[i]), fts[i], depth+1)
			}
			return mkStruct("", names, args)
		}
		if _, ok := u.Elem().Underlying().(*types.Array); ok {
			return in.content(st, t)
		}
		if t.op == "obj" || t.op == "fa" {
			return in.deep(st, in.load(st, t, u.Elem()), u.Elem(), depth+1)
		}
	case *types.Slice:
		c := in.seq(st, t)
		return in.deepSeq(st, c, u.Elem(), depth)
	case *types.Struct:
		if mathName(typ) != "" {
			return t
		}
		if t.op == "struct" {
			names, fts := structNames(typ), fieldTypes(typ)
			args := make([]*Term, len(names))
			for i, n := range names {
				args[i] = in.deep(st, fld(t, n), fts[i], depth+1)
			}
			return mkStruct("", names, args)
		}
	case *types.Interface:
		if t.op == "obj" {
			if o := in.objs[t.sym]; o != nil && o.kind == "hash" {
				return in.cell(st, t)
			}
		}
	case *types.Map:
		if t.op == "obj" {
			return in.content(st, t)
		}
	}
	return t
}

func (in *Interp) deepSeq(st *State, c *Term, elem types.Type, depth int) *Term {
	if mathPtr(elem) != "" {
		return in.valc(st, c)
	}
	switch elem.Underlying().(type) {
	case *types.Basic:
		return c
	}
	d := func(t *Term) *Term { return in.deep(st, t, elem, depth+1) }
	var rec func(c *Term) *Term
	rec = func(c *Term) *Term {
		switch c.op {
		case "lit":
			args := make([]*Term, len(c.args))
			for i, a := range c.args {
				args[i] = d(a)
			}
			return mk("lit", "", args...)
		case "sto":
			return mkSto(rec(c.args[0]), c.args[1], d(c.args[2]))
		case "mkseq":
			return mk("mkseq", "", c.args[0], d(c.args[1]))
		case "cat":
			return mkCat(rec(c.args[0]), rec(c.args[1]))
		case "sub":
			return mkSub(rec(c.args[0]), c.args[1], c.args[2])
		case "lsto":
			return mk(c.op, c.sym, rec(c.args[0]), c.args[1], c.args[2], d(c.args[3]))
		case "lcat":
			return mk("lcat", c.sym, rec(c.args[0]), c.args[1], rec(c.args[2]))
		case "choice":
			return mapChoice(c, rec)
		}
		return c
	}
	return rec(c)
}

var typeTab = map[string]types.Type{}

func typeKey(t types.Type) string {
	k := types.TypeString(t, nil)
	typeTab[k] = t
	return k
}

func (in *Interp) typeOf(k string) types.Type { return typeTab[k] }

// ---- evaluation of SSA values ----

func (fr *frame) eval(v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return mk("gaddr", x.RelString(nil))
	case *ssa.Function:
		return mk("func", funcID(x))
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				if i < len(fr.free) {
					return fr.free[i]
				}
				return mk("in", "free:"+fr.fn.String()+":"+strconv.Itoa(i))
			}
		}
	case *ssa.Builtin:
		return mk("func", "builtin:"+x.Name())
	}
	if t := fr.env[v]; t != nil {
		return t
	}
	return mk("undef", fr.ctx+":"+v.Name())
}

var funcTab = map[string]*ssa.Function{}

func funcID(f *ssa.Function) string {
	k := f.String()
	if f.Parent() != nil || f.Synthetic != "" {
		k = f.RelString(nil) + "#" + f.Synthetic
	}
	funcTab[k] = f
	return k
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(c.Value))
	case constant.String:
		return mk("str", constant.StringVal(c.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return intT(n)
		}
		return app("bigconst:" + c.Value.ExactString())
	}
	return app("const:" + c.Value.ExactString())
}

// ---- functions ----

// CallFn analyses a call of a function with a body.
func (in *Interp) CallFn(fr *frame, st *State, fn *ssa.Function, args, free []*Term, key string) *Term {
	in.Calls++
	in.Funcs[fn.String()] = true
	depth := 0
	parent := ""
	if fr != nil {
		parent = fr.ctx
		depth = fr.depth + 1
	}
	if depth > 60 {
		in.note("call depth")
		return app("deep:"+fn.String(), args...)
	}
	// context: caller, callee, arguments, how many such calls happened before on this path
	var ids []string
	for _, a := range args {
		ids = append(ids, strconv.Itoa(a.id))
	}
	for _, a := range free {
		ids = append(ids, "f"+strconv.Itoa(a.id))
	}
	ck := mk("str", parent+"/"+fn.RelString(nil)+"("+strings.Join(ids, ",")+")"+loopKey(in.loops))
	n := int64(0)
	if c := st.counts.Get(ck.id); c != nil {
		n, _ = c.intVal()
	}
	st.counts = st.counts.Set(ck.id, intT(n+1))
	ctx := internCtx(ck.sym + "#" + strconv.FormatInt(n, 10))

	f := &frame{in: in, fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}, free: free, info: in.prog.info(fn), depth: depth}
	in.stack = append(in.stack, f)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	saved := st.defers
	st.defers = nil
	in.outer = append(in.outer, saved)
	defer func() { in.outer = in.outer[:len(in.outer)-1] }()
	if f.info.tailRec && !in.atomic[fn.String()] {
		f.runRec(st.clone(), args)
	} else {
		for i, p := range fn.Params {
			f.env[p] = args[i]
		}
		f.runBody(st.clone())
		f.recovered()
	}
	// join the returns
	var states []*State
	for _, r := range f.returns {
		states = append(states, r.st)
	}
	tok := ctx + ":ret"
	js, live, tok := in.join(tok, states)
	if js == nil {
		st.dead = true
		return tUnit
	}
	nres := fn.Signature.Results().Len()
	res := make([]*Term, nres)
	for k := 0; k < nres; k++ {
		var alts []*Term
		for _, i := range live {
			alts = append(alts, f.returns[i].res[k])
		}
		if len(alts) == 1 {
			res[k] = alts[0]
		} else {
			res[k] = mkChoice(tok, append([]*Term(nil), in.loops...), alts)
		}
	}
	*st = *js
	st.defers = saved
	switch nres {
	case 0:
		return tUnit
	case 1:
		return res[0]
	}
	return mk("tuple", "", res...)
}

func loopKey(ls []*Term) string {
	if len(ls) == 0 {
		return ""
	}
	return "@" + ls[len(ls)-1].sym
}

func (f *frame) runBody(st *State) {
	entry := f.fn.Blocks[0]
	f.runRegion(f.info.rpo, entry, []inEdge{{nil, st, nil}}, nil)
}

type inEdge struct {
	from *ssa.BasicBlock
	st   *State
	phis map[*ssa.Phi]*Term // values of the phis of the target, when already evaluated
}

type outEdge struct {
	from, to *ssa.BasicBlock
	st       *State
	phis     map[*ssa.Phi]*Term
}

// runRegion executes the blocks of a region in reverse post-order, starting at start. When header is
// not nil, edges to it are back edges and are returned as latches.
func (f *frame) runRegion(region []*ssa.BasicBlock, start *ssa.BasicBlock, first []inEdge, header *ssa.BasicBlock) (latches, outs []outEdge) {
	inRegion := map[*ssa.BasicBlock]bool{}
	for _, b := range region {
		inRegion[b] = true
	}
	pending := map[*ssa.BasicBlock][]inEdge{}
	pending[start] = first
	done := map[*ssa.BasicBlock]bool{}
	route := func(es []outEdge) {
		for _, e := range es {
			if e.st == nil || e.st.dead {
				continue
			}
			switch {
			case header != nil && e.to == header:
				latches = append(latches, e)
			case !inRegion[e.to]:
				outs = append(outs, e)
			default:
				pending[e.to] = append(pending[e.to], inEdge{e.from, e.st, e.phis})
			}
		}
	}
	for _, b := range region {
		if done[b] {
			continue
		}
		ins := pending[b]
		if len(ins) == 0 {
			continue
		}
		if l := f.info.loops[b]; l != nil && !(header == b) {
			route(f.runLoop(l, ins))
			for x := range l.blocks {
				done[x] = true
			}
			continue
		}
		st := ins[0].st
		if b == start && header == b {
			st = ins[0].st // phis already set by runLoop
		} else {
			st = f.joinInto(b, ins)
			if st == nil {
				continue
			}
		}
		route(f.execBlock(b, st))
	}
	return
}

// joinInto merges the incoming states of b and evaluates its phis.
func (f *frame) joinInto(b *ssa.BasicBlock, ins []inEdge) *State {
	if len(ins) == 1 && ins[0].from == nil {
		return ins[0].st
	}
	idx := func(e inEdge) int {
		for i, p := range b.Preds {
			if p == e.from {
				return i
			}
		}
		return -1
	}
	sort.SliceStable(ins, func(i, j int) bool { return idx(ins[i]) < idx(ins[j]) })
	var states []*State
	for _, e := range ins {
		states = append(states, e.st)
	}
	tok := fmt.Sprintf("%s:b%d", f.ctx, b.Index)
	st, live, tok := f.in.join(tok, states)
	if st == nil {
		return nil
	}
	vals := map[*ssa.Phi]*Term{}
	for _, i := range b.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		var alts []*Term
		for _, k := range live {
			if v := ins[k].phis[phi]; v != nil {
				alts = append(alts, v)
			} else {
				f.sync(ins[k].st)
				alts = append(alts, f.eval(phi.Edges[idx(ins[k])]))
			}
		}
		if len(alts) == 1 {
			vals[phi] = alts[0]
		} else {
			vals[phi] = mkChoice(tok, append([]*Term(nil), f.in.loops...), alts)
		}
	}
	f.sync(st)
	for p, v := range vals {
		f.env[p] = v
	}
	return st
}

// execBlock executes the non-phi instructions of b.
func (f *frame) execBlock(b *ssa.BasicBlock, st *State) []outEdge {
	in := f.in
	for _, i := range b.Instrs {
		in.steps++
		if in.steps > in.maxStep {
			panic("analysis budget exceeded")
		}
		if f.armed && mayPanic(i) {
			f.armed = false
			f.panics = append(f.panics, st.clone())
		}
		switch x := i.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			return []outEdge{{b, b.Succs[0], st, nil}}
		case *ssa.If:
			c := f.eval(x.Cond)
			if c != tTrue && c != tFalse {
				in.event(f, st, "if", x, "", c)
			}
			t, e := st.clone(), st.clone()
			t.assume(c)
			e.assume(not(c))
			var r []outEdge
			if !t.dead {
				r = append(r, outEdge{b, b.Succs[0], t, nil})
			}
			if !e.dead {
				r = append(r, outEdge{b, b.Succs[1], e, nil})
			}
			return r
		case *ssa.Return:
			var res []*Term
			for _, v := range x.Results {
				res = append(res, f.eval(v))
			}
			in.event(f, st, "return", x, "", res...)
			f.returns = append(f.returns, &retState{st, res})
			return nil
		case *ssa.Panic:
			in.event(f, st, "guard", x, "", f.guards(b)...)
			in.event(f, st, "panic", x, "", f.eval(x.X))
			if in.unwind {
				f.unwound(st.clone())
			}
			return nil
		case *ssa.RunDefers:
			for d := st.defers; d != nil; d = d.next {
				st.defers = d.next
				d.run(st)
				if st.dead {
					return nil
				}
			}
			st.defers = nil
		default:
			f.exec(st, i)
			if st.dead {
				return nil
			}
		}
	}
	return nil
}

// recovered: the returns after a panic that a deferred call stopped. What the body did until then is
// what it had done when the first operation that can panic was reached.
func (f *frame) recovered() {
	for _, st := range f.panics {
		f.inPanic(st)
	}
}

func (f *frame) inPanic(st *State) {
	in := f.in
	was := in.panicking
	defer func() { in.panicking = was }()
	in.panicking = true
	for d := st.defers; d != nil; d = d.next {
		st.defers = d.next
		d.run(st)
		if st.dead {
			return
		}
	}
	st.defers = nil
	if in.panicking || f.fn.Recover == nil {
		return
	}
	f.execBlock(f.fn.Recover, st)
}

// unwound: what is deferred runs although the function panics.
func (f *frame) unwound(st *State) {
	in := f.in
	defer func(w bool) { in.unwind = w }(in.unwind)
	in.unwind = false
	for i := len(in.outer); i >= 0; i-- {
		for st.defers != nil {
			d := st.defers
			st.defers = d.next
			d.run(st)
			if st.dead {
				return
			}
		}
		if i > 0 {
			st.defers = in.outer[i-1]
		}
	}
}

// recovers: the deferred call stops panics.
func recovers(c *ssa.CallCommon) bool {
	g := c.StaticCallee()
	if g == nil {
		return false
	}
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if k, ok := i.(*ssa.Call); ok {
				if f, ok := k.Call.Value.(*ssa.Builtin); ok && f.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// mayPanic: the instruction is one at which a malformed input can stop the function.
func mayPanic(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.Panic, *ssa.IndexAddr, *ssa.Index, *ssa.Slice:
		return true
	case *ssa.Call:
		_, builtin := x.Call.Value.(*ssa.Builtin)
		return !builtin
	case *ssa.TypeAssert:
		return !x.CommaOk
	case *ssa.FieldAddr:
		_, local := x.X.(*ssa.Alloc)
		return !local
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch x.X.(type) {
			case *ssa.Alloc, *ssa.FreeVar, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr:
				return false
			}
			return true
		}
	case *ssa.MapUpdate:
		return true
	}
	return false
}

// guards: the conditions that decide directly whether the block runs.
func (f *frame) guards(b *ssa.BasicBlock) []*Term {
	var r []*Term
	seen := map[*ssa.BasicBlock]bool{}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, p := range b.Preds {
			if len(p.Succs) == 1 {
				up(p)
				continue
			}
			if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && (f.env[i.Cond] != nil || isConst(i.Cond)) {
				r = append(r, f.eval(i.Cond))
			}
		}
	}
	up(b)
	return r
}

func width(t types.Type) (bits int, isInt bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32:
		return 32, true
	}
	return 64, true
}

func (f *frame) exec(st *State, i ssa.Instruction) {
	in := f.in
	switch x := i.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		o := in.newObj(f.ctx, instrKey(x), t, "alloc", x.Pos())
		in.initObj(st, o, t)
		f.env[x] = o
	case *ssa.BinOp:
		f.env[x] = f.binop(st, x)
	case *ssa.UnOp:
		f.env[x] = f.unop(st, x)
	case *ssa.Call:
		r := f.call(st, x, &x.Call)
		if !st.dead {
			f.env[x] = r
		}
	case *ssa.Go:
		c := x.Call
		f.goroutine(st, x, &c, func() { f.call(st, x, &c) })
	case *ssa.Defer:
		c := x.Call
		var args []*Term
		fnv := (*Term)(nil)
		if !c.IsInvoke() {
			fnv = f.eval(c.Value)
		} else {
			fnv = f.eval(c.Value)
		}
		for _, a := range c.Args {
			args = append(args, f.eval(a))
		}
		if recovers(&c) {
			inLoop := false
			for _, l := range f.info.loops {
				inLoop = inLoop || l.blocks[x.Block()]
			}
			if inLoop {
				in.note("recovering deferred call in a loop")
			} else {
				f.armed = true
			}
		}
		key := instrKey(x)
		st.defers = &deferred{key: key, next: st.defers, run: func(s *State) {
			f.callWith(s, x, &c, fnv, args)
		}}
	case *ssa.ChangeInterface:
		f.env[x] = f.eval(x.X)
	case *ssa.ChangeType:
		f.env[x] = f.eval(x.X)
	case *ssa.Convert:
		f.env[x] = f.convert(st, x)
	case *ssa.MultiConvert:
		f.env[x] = app("conv", f.eval(x.X))
	case *ssa.Extract:
		t := f.eval(x.Tuple)
		f.env[x] = extract(t, x.Index)
	case *ssa.Field:
		s := x.X.Type().Underlying().(*types.Struct)
		f.env[x] = fld(f.eval(x.X), s.Field(x.Field).Name())
	case *ssa.FieldAddr:
		s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		p := f.eval(x.X)
		n := s.Field(x.Field).Name()
		f.env[x] = fieldAddr(p, n)
	case *ssa.Index:
		c := in.seq(st, f.eval(x.X))
		idx := f.eval(x.Index)
		in.event(f, st, "index", x, "", c, idx, lenOf(c))
		f.env[x] = elAt(c, idx)
	case *ssa.IndexAddr:
		f.env[x] = f.indexAddr(st, x)
	case *ssa.Lookup:
		m := f.eval(x.X)
		k := f.eval(x.Index)
		if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
			c := in.mapContent(st, m)
			g, h := mapGet(c, k), mapHas(c, k)
			if x.CommaOk {
				f.env[x] = mk("tuple", "", g, h)
			} else {
				f.env[x] = g
			}
		} else {
			c := in.seq(st, m)
			in.event(f, st, "index", x, "", c, k, lenOf(c))
			f.env[x] = elAt(c, k)
		}
	case *ssa.MakeChan:
		o := in.newObj(f.ctx, instrKey(x), x.Type(), "chan", x.Pos())
		in.newChan(st, o, x.Type(), f.eval(x.Size))
		f.env[x] = o
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range x.Bindings {
			b = append(b, f.eval(v))
		}
		f.env[x] = mk("closure", funcID(x.Fn.(*ssa.Function)), b...)
	case *ssa.MakeInterface:
		f.env[x] = mk("mkif", typeKey(x.X.Type()), f.eval(x.X))
		if v := f.eval(x.X); v.op == "obj" {
			if o := in.objs[v.sym]; o != nil && (o.kind == "hash") {
				f.env[x] = v
			}
		}
	case *ssa.MakeMap:
		o := in.newObj(f.ctx, instrKey(x), x.Type(), "map", x.Pos())
		st.mem = st.mem.Set(o.id, mk("mkmap", ""))
		f.env[x] = o
	case *ssa.MakeSlice:
		n := stripConv(f.eval(x.Len))
		el := x.Type().Underlying().(*types.Slice).Elem()
		z := zeroOf(el)
		var c *Term
		if k, ok := n.intVal(); ok && k >= 0 && k <= 64 {
			args := make([]*Term, k)
			for j := range args {
				args[j] = z
			}
			c = mk("lit", "", args...)
		} else {
			c = mk("mkseq", "", n, z)
		}
		f.env[x] = in.newSlice(f, st, instrKey(x), el, c, x.Pos())
		if stripConv(f.eval(x.Cap)) != n {
			in.spareCapacity(f.env[x])
		}
	case *ssa.MapUpdate:
		m := f.eval(x.Map)
		k, v := f.eval(x.Key), f.eval(x.Value)
		in.event(f, st, "mapupd", x, "", m, k, v)
		c := in.mapContent(st, m)
		in.setMap(st, m, mk("msto", "", c, stripConv(k), v))
	case *ssa.Next:
		it := f.eval(x.Iter)
		lv := app("iter", it)
		if in.nextAt != nil {
			lv = in.nextAt
		} else if len(in.loops) > 0 {
			lv = in.loops[len(in.loops)-1]
		}
		if it.op == "range" {
			m := it.args[0]
			if x.IsString {
				f.env[x] = mk("tuple", "", lt(lv, lenOf(m)), lv, elAt(m, lv))
			} else {
				key := mk("mapkey", "", m, lv)
				f.env[x] = mk("tuple", "", lt(lv, mk("len", "", m)), key, mapGet(m, key))
			}
		} else {
			f.env[x] = mk("tuple", "", app("next.ok", it), app("next.k", it), app("next.v", it))
		}
	case *ssa.Range:
		v := f.eval(x.X)
		if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
			c := in.mapContent(st, v)
			in.event(f, st, "maprange", x, "", v, c)
			f.env[x] = mk("range", "", c)
		} else {
			f.env[x] = mk("range", "", in.seq(st, v))
		}
	case *ssa.Select:
		f.env[x] = f.selectOf(st, x)
	case *ssa.Send:
		f.sent(st, x, x.Chan.Type(), f.eval(x.Chan), f.eval(x.X))
	case *ssa.Slice:
		f.env[x] = f.slice(st, x)
	case *ssa.SliceToArrayPointer:
		f.env[x] = app("s2a", f.eval(x.X))
	case *ssa.Store:
		t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		a, v := f.eval(x.Addr), f.eval(x.Val)
		if arr, ok := t.Underlying().(*types.Array); ok {
			_ = arr
			in.event(f, st, "store", x, "cell", a, v)
			in.setContent(st, a, v)
			return
		}
		if mathName(t) != "" { // *p = *q
			in.setVal(f, st, a, v, x, "assign")
			return
		}
		in.store(f, st, a, v, t, x)
	case *ssa.TypeAssert:
		f.env[x] = f.typeAssert(st, x)
	default:
		in.note(fmt.Sprintf("instruction %T", i))
		if v, ok := i.(ssa.Value); ok {
			f.env[v] = app("unknown", mk("str", f.ctx+instrKey(i)))
		}
	}
}

func fieldAddr(p *Term, n string) *Term {
	if p.op == "choice" {
		return mapChoice(p, func(a *Term) *Term { return fieldAddr(a, n) })
	}
	if p.op == "nil" {
		return p
	}
	return mk("fa", n, p)
}

func extract(t *Term, i int) *Term {
	switch t.op {
	case "tuple":
		return t.args[i]
	case "choice":
		return mapChoice(t, func(a *Term) *Term { return extract(a, i) })
	}
	return mk("ext", strconv.Itoa(i), t)
}

func (in *Interp) initObj(st *State, o *Term, t types.Type) {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" {
		var z *Term = tNil
		switch n.Obj().Name() {
		case "Bool":
			z = tFalse
		case "Int32", "Int64", "Uint32", "Uint64", "Uintptr":
			z = zeroInt
		}
		st.mem = st.mem.Set(mk("fa", "$v", o).id, z)
	}
	if isPlainStruct(t) {
		names, fts := structNames(t), fieldTypes(t)
		for i := range names {
			in.initObj(st, mk("fa", names[i], o), fts[i])
		}
		return
	}
	st.mem = st.mem.Set(o.id, zeroOf(t))
}

func (in *Interp) mapContent(st *State, m *Term) *Term {
	switch m.op {
	case "nil":
		return mk("mkmap", "")
	case "choice":
		return mapChoice(m, func(a *Term) *Term { return in.mapContent(st, a) })
	case "obj":
		if v := in.cell(st, m); v != nil {
			return v
		}
	}
	if v := in.cell(st, mk("mc", "", m)); v != nil {
		return v
	}
	return m
}

func (in *Interp) setMap(st *State, m, c *Term) {
	switch m.op {
	case "choice":
		params, alts := choiceAlts(m)
		for k, a := range alts {
			old := in.mapContent(st, a)
			nv := c
			if c.op == "msto" && c.args[0].op == "choice" {
				nv = mk("msto", "", old, c.args[1], c.args[2])
			}
			vs := make([]*Term, len(alts))
			for j := range vs {
				vs[j] = old
			}
			vs[k] = nv
			in.setMap(st, a, mkChoice(m.sym, params, vs))
		}
	case "obj":
		in.setCell(st, m, c)
	case "nil":
	default:
		in.setCell(st, mk("mc", "", m), c)
	}
}

func (f *frame) indexAddr(st *State, x *ssa.IndexAddr) *Term {
	in := f.in
	b := f.eval(x.X)
	i := stripConv(f.eval(x.Index))
	if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
		return eaddr(b, i)
	}
	var rec func(b *Term) *Term
	rec = func(b *Term) *Term {
		if b.op == "choice" {
			return mapChoice(b, rec)
		}
		if b.op == "nil" {
			return tNil
		}
		bk, off, _ := sliceParts(b)
		return eaddr(bk, add(off, i))
	}
	in.event(f, st, "index", x, "", b, i, lenOf(b))
	return rec(b)
}

func eaddr(b, i *Term) *Term {
	if b.op == "choice" {
		return mapChoice(b, func(a *Term) *Term { return eaddr(a, i) })
	}
	if b.op == "nil" {
		return b
	}
	return mk("ea", "", b, i)
}

func (f *frame) slice(st *State, x *ssa.Slice) *Term {
	in := f.in
	b := f.eval(x.X)
	lo := zeroInt
	if x.Low != nil {
		lo = stripConv(f.eval(x.Low))
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		arr := u.Elem().Underlying().(*types.Array)
		hi := intT(arr.Len())
		if x.High != nil {
			hi = stripConv(f.eval(x.High))
		}
		in.event(f, st, "slice", x, "", b, lo, hi, intT(arr.Len()))
		return mk("slice", "", b, lo, subT(hi, lo))
	case *types.Basic: // string
		c := in.seq(st, b)
		hi := lenOf(c)
		if x.High != nil {
			hi = stripConv(f.eval(x.High))
		}
		in.event(f, st, "slice", x, "", b, lo, hi, lenOf(c))
		return mkSub(c, lo, subT(hi, lo))
	}
	var rec func(b *Term) *Term
	rec = func(b *Term) *Term {
		if b.op == "choice" {
			return mapChoice(b, rec)
		}
		if b.op == "nil" {
			return b
		}
		bk, off, n := sliceParts(b)
		hi := n
		if x.High != nil {
			hi = stripConv(f.eval(x.High))
		}
		sym := ""
		if x.Max != nil && stripConv(f.eval(x.Max)) == hi {
			sym = "full" // no room behind the last element
		}
		return mk("slice", sym, bk, add(off, lo), subT(hi, lo))
	}
	hi := lenOf(b)
	if x.High != nil {
		hi = stripConv(f.eval(x.High))
	}
	in.event(f, st, "slice", x, "", b, lo, hi, lenOf(b))
	return rec(b)
}

func (f *frame) convert(st *State, x *ssa.Convert) *Term {
	v := f.eval(x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	wf, fi := width(x.X.Type())
	wt, ti := width(x.Type())
	if fi && ti {
		if n, ok := v.intVal(); ok {
			switch {
			case wt == 64:
				return v
			case n >= 0 && n < 1<<uint(wt-1):
				return v
			case n >= 0 && n < 1<<uint(wt) && strings.HasPrefix(to.String(), "uint"):
				return v
			}
		}
		signed := func(t types.Type) bool { return t.(*types.Basic).Info()&types.IsUnsigned == 0 }
		if wt > wf || wt == wf && (wt == 64 || signed(from) == signed(to)) {
			return v
		}
		return mapInts(v, func(t *Term) *Term { return app("conv:"+to.String(), t) })
	}
	fs, isFS := from.(*types.Slice)
	_, isTS := to.(*types.Slice)
	if bt, ok := to.(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		if isFS {
			_ = fs
			return f.in.seq(st, v)
		}
		if fi {
			return app("runestr", v)
		}
		return v
	}
	if bf, ok := from.(*types.Basic); ok && bf.Info()&types.IsString != 0 && isTS {
		return f.in.newSlice(f, st, instrKey(x), nil, strSeq(v), x.Pos())
	}
	return app("conv:"+to.String(), v)
}

func strSeq(v *Term) *Term { return v }

func mapInts(v *Term, g func(*Term) *Term) *Term {
	if v.op == "choice" {
		return mapChoice(v, func(a *Term) *Term { return mapInts(a, g) })
	}
	return g(v)
}

func (f *frame) unop(st *State, x *ssa.UnOp) *Term {
	v := f.eval(x.X)
	switch x.Op {
	case token.MUL:
		if f.in.trackLoads {
			f.in.event(f, st, "load", x, "", v)
		}
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		if mathName(t) != "" {
			return f.in.val(st, v)
		}
		if _, ok := t.Underlying().(*types.Array); ok {
			return f.in.content(st, v)
		}
		return f.in.load(st, v, t)
	case token.NOT:
		return not(v)
	case token.SUB:
		if _, isInt := width(x.Type()); isInt && opaqueInts(v) && !entails(st.factList(), ge0(v)) {
			return app("neg", v) // the least integer has no negation
		}
		return mulK(v, -1)
	case token.ARROW:
		r, ok := f.received(st, x, x.X.Type(), v, x.CommaOk)
		if x.CommaOk {
			return mk("tuple", "", r, ok)
		}
		return r
	}
	return app("un:"+x.Op.String(), v)
}

func (f *frame) binop(st *State, x *ssa.BinOp) *Term {
	a, b := f.eval(x.X), f.eval(x.Y)
	_, isInt := width(x.X.Type())
	isStr := false
	if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		isStr = true
	}
	if isInt {
		switch x.Op {
		case token.ADD:
			return add(a, b)
		case token.SUB:
			return subT(a, b)
		case token.MUL:
			if n, ok := a.intVal(); ok {
				return mulK(b, n)
			}
			if n, ok := b.intVal(); ok {
				return mulK(a, n)
			}
			if a.id > b.id {
				a, b = b, a
			}
			return app("mul", a, b)
		case token.EQL:
			return eqInt(a, b)
		case token.NEQ:
			return not(eqInt(a, b))
		case token.LSS:
			return lt(a, b)
		case token.LEQ:
			return le(a, b)
		case token.GTR:
			return lt(b, a)
		case token.GEQ:
			return le(b, a)
		case token.QUO:
			if n, ok := b.intVal(); ok && n == 1 {
				return a
			}
			return app("div", a, b)
		case token.REM:
			return app("mod", a, b)
		case token.SHR:
			return app("shr", a, b)
		case token.SHL:
			if n, ok := b.intVal(); ok && n < 62 {
				return mulK(a, 1<<uint(n))
			}
			return app("shl", a, b)
		}
		return app("bin:"+x.Op.String(), a, b)
	}
	if isStr {
		sa, sb := f.in.seq(st, a), f.in.seq(st, b)
		switch x.Op {
		case token.ADD:
			return mkCat(sa, sb)
		case token.EQL:
			return eqTerm(sa, sb)
		case token.NEQ:
			return not(eqTerm(sa, sb))
		}
		return app("strcmp:"+x.Op.String(), sa, sb)
	}
	switch x.Op {
	case token.EQL:
		return f.eqVal(st, a, b, x.X.Type())
	case token.NEQ:
		return not(f.eqVal(st, a, b, x.X.Type()))
	}
	return app("bin:"+x.Op.String(), a, b)
}

func (f *frame) eqVal(st *State, a, b *Term, t types.Type) *Term {
	return eqTerm(a, b)
}

func (f *frame) typeAssert(st *State, x *ssa.TypeAssert) *Term {
	v := f.eval(x.X)
	key := typeKey(x.AssertedType)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	var rec func(v *Term) (*Term, *Term)
	rec = func(v *Term) (*Term, *Term) {
		switch v.op {
		case "choice":
			params, alts := choiceAlts(v)
			var a, o []*Term
			for _, alt := range alts {
				x, y := rec(alt)
				a, o = append(a, x), append(o, y)
			}
			return mkChoice(v.sym, params, a), mkChoice(v.sym, params, o)
		case "mkif":
			if toIface {
				return v, tTrue
			}
			if v.sym == key {
				return v.args[0], tTrue
			}
			return zeroOf(x.AssertedType), tFalse
		case "nil":
			return zeroOf(x.AssertedType), tFalse
		}
		if toIface {
			return v, mk("ista", key, v)
		}
		return mk("ta", key, v), mk("ista", key, v)
	}
	val, ok := rec(v)
	if x.CommaOk {
		return mk("tuple", "", val, ok)
	}
	st.assume(ok)
	return val
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }
