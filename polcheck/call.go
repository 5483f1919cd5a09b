package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *frame) call(st *State, instr ssa.Instruction, c *ssa.CallCommon) *Term {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, f.eval(a))
	}
	return f.callWith(st, instr, c, f.eval(c.Value), args)
}

func (f *frame) callWith(st *State, instr ssa.Instruction, c *ssa.CallCommon, fnv *Term, args []*Term) *Term {
	if c.IsInvoke() {
		return f.invoke(st, instr, c, fnv, args)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return f.builtin(st, instr, c, b.Name(), args)
	}
	return f.callValue(st, instr, c, fnv, args)
}

// callValue calls the function denoted by a term.
func (f *frame) callValue(st *State, instr ssa.Instruction, c *ssa.CallCommon, fnv *Term, args []*Term) *Term {
	in := f.in
	switch fnv.op {
	case "func":
		if fn := funcTab[fnv.sym]; fn != nil {
			return f.callStatic(st, instr, fn, args, nil)
		}
	case "closure":
		if fn := funcTab[fnv.sym]; fn != nil {
			return f.callStatic(st, instr, fn, args, fnv.args)
		}
	case "choice":
		params, alts := choiceAlts(fnv)
		var states []*State
		var vals []*Term
		for k, a := range alts {
			s := st.clone()
			for _, e := range edgeFacts(fnv.sym, params, k) {
				s.addFact(e, 0)
			}
			if s.dead {
				continue
			}
			v := f.callValue(s, instr, c, a, args)
			if s.dead {
				continue
			}
			states = append(states, s)
			vals = append(vals, v)
		}
		js, live, tok := in.join(f.ctx+":dyn"+instrKey(instr), states)
		if js == nil {
			st.dead = true
			return tUnit
		}
		*st = *js
		var as []*Term
		for _, i := range live {
			as = append(as, vals[i])
		}
		if len(as) == 1 {
			return as[0]
		}
		return mkChoice(tok, append([]*Term(nil), in.loops...), as)
	case "nil":
		in.event(f, st, "nilcall", instr, "")
		st.dead = true
		return tUnit
	}
	sig := c.Signature()
	deepArgs := []*Term{fnv}
	for i, a := range args {
		deepArgs = append(deepArgs, in.deep(st, a, sigParam(sig, i), 0))
	}
	in.event(f, st, "callfn", instr, "", append([]*Term{fnv}, args...)...)
	return f.opaqueResults(st, instr, sig, "callfn", deepArgs)
}

func sigParam(sig *types.Signature, i int) types.Type {
	if i < sig.Params().Len() {
		return sig.Params().At(i).Type()
	}
	return nil
}

func (f *frame) opaqueResults(st *State, instr ssa.Instruction, sig *types.Signature, name string, args []*Term) *Term {
	n := sig.Results().Len()
	switch n {
	case 0:
		return tUnit
	case 1:
		return app(name, args...)
	}
	var rs []*Term
	for i := 0; i < n; i++ {
		nm := name + "." + strconv.Itoa(i)
		if isErrorType(sig.Results().At(i).Type()) {
			nm = name + ".err"
		}
		rs = append(rs, app(nm, args...))
	}
	return mk("tuple", "", rs...)
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (f *frame) callStatic(st *State, instr ssa.Instruction, fn *ssa.Function, args, free []*Term) *Term {
	in := f.in
	name := fn.String()
	if in.onCall != nil && in.dry == 0 {
		in.onCall(f, st, fn, args, instr.Pos())
	}
	if in.atomic[name] {
		in.event(f, st, "atomic", instr, name, args...)
		if g := calledCell(name); st.mem.Get(g.id) != nil {
			st.mem = st.mem.Set(g.id, tTrue)
		}
		if r := in.answer[name]; r != nil {
			return r
		}
		return f.predicate(st, instr, fn, args)
	}
	if !in.prog.own(fn) {
		return f.extern(st, instr, fn, args)
	}
	if f.fn == fn && f.info.tailRec {
		if cl, ok := instr.(*ssa.Call); ok && isTail(cl) {
			f.rec = append(f.rec, &recEdge{st.clone(), args})
			st.dead = true
			return tUnit
		}
	}
	for _, g := range in.stack {
		if g.fn == fn {
			in.event(f, st, "rec", instr, name, args...)
			f.emitRec(st, fn, args)
			return f.recursive(st, instr, fn, args)
		}
	}
	in.event(f, st, "enter", instr, name, args...)
	return in.CallFn(f, st, fn, args, free, "")
}

// outCell: a ghost cell that holds what was written to a writer; kept only when the session asks for it.
func outCell(w *Term) *Term {
	for w.op == "mkif" {
		w = w.args[0]
	}
	return mk("fa", "$out", w)
}

func (f *frame) emit(st *State, w, data *Term) {
	if !f.in.streams {
		return
	}
	c := outCell(w)
	cur := st.mem.Get(c.id)
	if cur == nil {
		cur = mk("lit", "")
	}
	st.mem = st.mem.Set(c.id, mkCat(cur, data))
}

// emitRec: what a recursive call writes stands for itself.
func (f *frame) emitRec(st *State, fn *ssa.Function, args []*Term) {
	if !f.in.streams {
		return
	}
	for i, t := range fnParamTypes(fn) {
		it, ok := t.Underlying().(*types.Interface)
		if !ok || i >= len(args) {
			continue
		}
		for k := 0; k < it.NumMethods(); k++ {
			if it.Method(k).Name() == "Write" {
				f.emit(st, args[i], app("rec:"+fn.String(), args...))
			}
		}
	}
}

// calledCell: a ghost cell that records whether a function was called on the way to a state. A session
// that wants it sets it to false first.
func calledCell(name string) *Term { return mk("fa", "$called", mk("fn", name)) }

func isTail(c *ssa.Call) bool {
	b := c.Block()
	for i, x := range b.Instrs {
		if x == c {
			return isTailCall(b, i, c)
		}
	}
	return false
}

func fnParamTypes(fn *ssa.Function) []types.Type {
	var ts []types.Type
	for _, p := range fn.Params {
		ts = append(ts, p.Type())
	}
	if len(ts) == 0 && fn.Signature != nil {
		if r := fn.Signature.Recv(); r != nil {
			ts = append(ts, r.Type())
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			ts = append(ts, fn.Signature.Params().At(i).Type())
		}
	}
	return ts
}

// predicate: an uninterpreted call whose results are named by snapshots of its arguments.
func (f *frame) predicate(st *State, instr ssa.Instruction, fn *ssa.Function, args []*Term) *Term {
	ts := fnParamTypes(fn)
	var da []*Term
	for i, a := range args {
		var t types.Type
		if i < len(ts) {
			t = ts[i]
		}
		da = append(da, f.in.deep(st, a, t, 0))
	}
	return f.opaqueResults(st, instr, fn.Signature, "pred:"+fn.String(), da)
}

func (f *frame) recursive(st *State, instr ssa.Instruction, fn *ssa.Function, args []*Term) *Term {
	ts := fnParamTypes(fn)
	var da []*Term
	for i, a := range args {
		var t types.Type
		if i < len(ts) {
			t = ts[i]
		}
		da = append(da, f.in.deep(st, a, t, 0))
	}
	return f.opaqueResults(st, instr, fn.Signature, "rec:"+fn.String(), da)
}

// ---- builtins ----

func (f *frame) builtin(st *State, instr ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) *Term {
	in := f.in
	switch name {
	case "len":
		t := c.Args[0].Type().Underlying()
		if _, ok := t.(*types.Map); ok {
			m := in.mapContent(st, args[0])
			return mapLen(m)
		}
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return lenOf(in.seq(st, args[0]))
		}
		if p, ok := t.(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return intT(a.Len())
			}
		}
		if isErrChan(c.Args[0].Type()) {
			if any := in.chanLen(st, args[0]); any != nil {
				n := lenOf(app("chanlen", any))
				return f.split(st, instrKey(instr), eqTerm(any, tNil))(zeroInt, add(n, intT(1)))
			}
		}
		return lenOf(args[0])
	case "cap":
		return app("cap", args[0])
	case "append":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		a, b := in.seq(st, args[0]), in.seq(st, args[1])
		in.event(f, st, "append", instr, "", args[0], args[1])
		return f.appended(st, args[0], a, b, instrKey(instr), et, instr.Pos())
	case "copy":
		in.event(f, st, "copy", instr, "", args[0], args[1])
		f.copyInto(st, args[0], in.seq(st, args[1]))
		return app("copied", lenOf(args[0]), lenOf(args[1]))
	case "delete":
		in.event(f, st, "mapdel", instr, "", args[0], args[1])
		m := in.mapContent(st, args[0])
		in.setMap(st, args[0], app("mapdel", m, args[1]))
		return tUnit
	case "panic":
		st.dead = true
		return tUnit
	case "recover":
		if in.panicking {
			in.panicking = false
			return mk("mkif", "panic", app("panicvalue", mk("str", f.ctx)))
		}
		return tNil
	case "print", "println", "close", "clear":
		if name == "close" && isErrChan(c.Args[0].Type()) {
			in.setCell(st, closedCell(args[0]), tTrue)
		}
		return tUnit
	case "min", "max":
		if len(args) == 2 {
			return app(name, args[0], args[1])
		}
	case "ssa:wrapnilchk":
		return args[0]
	}
	return app("builtin:"+name, args...)
}

func mapLen(m *Term) *Term {
	switch m.op {
	case "mkmap":
		return zeroInt
	case "choice":
		return mapChoice(m, mapLen)
	}
	return mk("len", "", m)
}

// copyInto: copy(dst, src)
// appended: the result of appending to a slice, a sequence of its own. What the append may overwrite on
// the way, because it happens in the array of the slice, no longer has the content it had: the elements
// behind a shortened view, and the result of an earlier append to the same slice.
func (f *frame) appended(st *State, s, a, b *Term, key string, et types.Type, pos token.Pos) *Term {
	in := f.in
	if s.op == "slice" && s.sym == "" && s.args[0].op == "obj" && lenOf(b) != zeroInt {
		bk, off, n := sliceParts(s)
		end := add(off, n)
		old := in.content(st, bk)
		if l := lenOf(old); l != end && !st.has(ge0(subT(end, l))) {
			in.setContent(st, bk, mk("cpy", "", old, end, app("overwritten", bk), subT(l, end)))
		}
		cell := mk("fa", "$app", bk)
		if prev := in.cell(st, cell); prev != nil && prev.op == "tuple" && prev.args[0] == end {
			if r := prev.args[1]; in.content(st, r) != nil {
				old := in.content(st, r)
				in.setContent(st, r, mk("cpy", "", old, n, app("overwritten", r), subT(lenOf(old), n)))
			}
		}
		res := in.newSlice(f, st, key, et, mkCat(a, b), pos)
		if o := in.objs[bk.sym]; o != nil && o.spare {
			st.mem = st.mem.Set(cell.id, mk("tuple", "", end, res.args[0]))
		}
		in.spareCapacity(res)
		return res
	}
	res := in.newSlice(f, st, key, et, mkCat(a, b), pos)
	in.spareCapacity(res)
	return res
}

// spareCapacity: the array of the slice may be longer than the slice.
func (in *Interp) spareCapacity(s *Term) {
	if o := in.objs[s.args[0].sym]; o != nil {
		o.spare = true
	}
}

func (f *frame) copyInto(st *State, dst, src *Term) {
	in := f.in
	switch dst.op {
	case "choice":
		_, alts := choiceAlts(dst)
		for _, a := range alts {
			f.copyInto(st, a, src) // weak
		}
		in.note("copy into a conditional destination")
		return
	case "nil":
		return
	}
	bk, off, n := sliceParts(dst)
	c := in.content(st, bk)
	m := lenOf(src)
	d, ok := constDiff(m, n)
	k := m
	switch {
	case ok && d >= 0:
		k = n
	case ok:
	default:
		if st.has(ge0(subT(n, m))) {
			k = m
		} else if st.has(ge0(subT(m, n))) {
			k = n
		} else {
			// the shorter of both; treated as the source length when the destination is longer
			k = minT(m, n)
		}
	}
	if k == n && off == zeroInt && lenOf(c) == n {
		in.setContent(st, bk, mkSub(src, zeroInt, n))
		return
	}
	if e, ok := k.intVal(); ok && e == 0 {
		return
	}
	if src.op == "lit" && len(src.args) <= 64 && k == m {
		for i, v := range src.args {
			c = mkSto(c, addK(off, int64(i)), v)
		}
		in.setContent(st, bk, c)
		return
	}
	in.setContent(st, bk, mk("cpy", "", c, off, src, k))
}

// ---- interface methods ----

func (f *frame) invoke(st *State, instr ssa.Instruction, c *ssa.CallCommon, recv *Term, args []*Term) *Term {
	in := f.in
	name := c.Method.Name()
	switch recv.op {
	case "mkif":
		t := in.typeOf(recv.sym)
		if t != nil {
			if fn := in.prog.prog.LookupMethod(t, c.Method.Pkg(), name); fn != nil {
				return f.callStatic(st, instr, fn, append([]*Term{recv.args[0]}, args...), nil)
			}
		}
	case "choice":
		_, alts := choiceAlts(recv)
		var live []*Term
		for _, a := range alts {
			if a.op != "nil" {
				live = append(live, a)
			}
		}
		if len(live) == 1 {
			return f.invoke(st, instr, c, live[0], args)
		}
		params, _ := choiceAlts(recv)
		var states []*State
		var vals []*Term
		for k, a := range alts {
			if a.op == "nil" {
				continue
			}
			s := st.clone()
			for _, e := range edgeFacts(recv.sym, params, k) {
				s.addFact(e, 0)
			}
			if s.dead {
				continue
			}
			v := f.invoke(s, instr, c, a, args)
			states = append(states, s)
			vals = append(vals, v)
		}
		js, liveI, tok := in.join(f.ctx+":inv"+instrKey(instr), states)
		if js == nil {
			st.dead = true
			return tUnit
		}
		*st = *js
		var as []*Term
		for _, i := range liveI {
			as = append(as, vals[i])
		}
		if len(as) == 1 {
			return as[0]
		}
		return mkChoice(tok, append([]*Term(nil), in.loops...), as)
	case "nil":
		in.event(f, st, "nilcall", instr, name)
		st.dead = true
		return tUnit
	case "obj":
		if o := in.objs[recv.sym]; o != nil && o.kind == "hash" {
			return f.hashMethod(st, instr, name, recv, args)
		}
	}
	sig := c.Method.Type().(*types.Signature)
	switch {
	case name == "Get" && isBytesFn(sig, 1, 1):
		in.event(f, st, "dbget", instr, name, recv, in.seq(st, args[0]))
		cell := mk("fa", "$db", recv)
		m := in.cell(st, cell)
		if m == nil {
			m = mk("db", "", recv)
		}
		return mapGet(m, dbKey(in.seq(st, args[0])))
	case name == "Put" && isBytesFn(sig, 2, 0):
		in.event(f, st, "dbput", instr, name, recv, in.seq(st, args[0]), in.seq(st, args[1]))
		cell := mk("fa", "$db", recv)
		m := in.cell(st, cell)
		if m == nil {
			m = mk("db", "", recv)
		}
		st.mem = st.mem.Set(cell.id, mk("msto", "", m, dbKey(in.seq(st, args[0])), in.seq(st, args[1])))
		return tUnit
	case name == "Write" && isBytesFn(sig, 1, 2):
		in.event(f, st, "write", instr, name, recv, in.seq(st, args[0]))
		f.emit(st, recv, in.seq(st, args[0]))
		u := f.unique(instr)
		return mk("tuple", "", app("write.n", u), app("write.err", u))
	}
	deepArgs := []*Term{in.deepAny(st, recv)}
	for i, a := range args {
		deepArgs = append(deepArgs, in.deep(st, a, sigParam(sig, i), 0))
	}
	in.event(f, st, "invoke", instr, name, append([]*Term{recv}, args...)...)
	return f.opaqueResults(st, instr, sig, "invoke:"+name, deepArgs)
}

func (in *Interp) deepAny(st *State, t *Term) *Term { return in.snap(st, t, 0) }

func isBytesFn(sig *types.Signature, np, nr int) bool {
	if sig.Params().Len() != np || sig.Results().Len() != nr {
		return false
	}
	for i := 0; i < np; i++ {
		s, ok := sig.Params().At(i).Type().Underlying().(*types.Slice)
		if !ok {
			return false
		}
		if b, ok := s.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Byte {
			return false
		}
	}
	return true
}

// unique names one execution of an instruction.
func (f *frame) unique(instr ssa.Instruction) *Term {
	return mk("uniq", f.ctx+"."+instrKey(instr), f.in.loops...)
}

// ---- hashes ----

func (f *frame) newHash(st *State, instr ssa.Instruction, key *Term) *Term {
	o := f.in.newObj(f.ctx, instrKey(instr), nil, "hash", instr.Pos())
	st.mem = st.mem.Set(mk("fa", "$key", o).id, key)
	st.mem = st.mem.Set(mk("fa", "$buf", o).id, mk("lit", ""))
	return o
}

func (in *Interp) hashParts(st *State, h *Term) (key, buf *Term) {
	key = in.cell(st, mk("fa", "$key", h))
	buf = in.cell(st, mk("fa", "$buf", h))
	if key == nil {
		key = app("uninit", h)
	}
	if buf == nil {
		buf = app("uninit", h)
	}
	return
}

func (in *Interp) hashState(st *State, h *Term) *Term {
	k, b := in.hashParts(st, h)
	return mk("hst", "", k, b)
}

func (f *frame) hashMethod(st *State, instr ssa.Instruction, name string, h *Term, args []*Term) *Term {
	in := f.in
	key, buf := in.hashParts(st, h)
	bufAddr := mk("fa", "$buf", h)
	switch name {
	case "Write", "WriteString":
		s := in.seq(st, args[0])
		in.setCell(st, bufAddr, mkCat(buf, s))
		return mk("tuple", "", lenOf(s), tNil)
	case "Sum":
		d := app("digest", key, buf)
		in.event(f, st, "digest", instr, "", d)
		if args[0].op == "nil" {
			return in.newSlice(f, st, instrKey(instr), nil, d, instr.Pos())
		}
		return f.appended(st, args[0], in.seq(st, args[0]), d, instrKey(instr), nil, instr.Pos())
	case "Reset":
		in.setCell(st, bufAddr, mk("lit", ""))
		return tUnit
	case "Size":
		return intT(32)
	case "BlockSize":
		return intT(64)
	}
	return app("hash."+name, h)
}

// ---- external functions ----

var mathMut = map[string]bool{
	"Zr.Mod": true, "Zr.InvModP": true, "Zr.Clone": true,
	"G1.Clone": true, "G1.Add": true, "G1.Sub": true,
	"G2.Clone": true, "G2.Add": true, "G2.Sub": true, "G2.Affine": true,
	"Gt.Inverse": true, "Gt.Mul": true,
}

var intPure = map[string]bool{
	"Cmp": true, "CmpAbs": true, "Sign": true, "Bit": true, "BitLen": true, "Int64": true, "Uint64": true, "Bytes": true,
	"String": true, "Text": true, "IsInt64": true, "IsUint64": true, "FillBytes": true, "TrailingZeroBits": true,
	"ProbablyPrime": true, "Append": true, "Format": true, "Bits": true,
}

func (f *frame) math(st *State, instr ssa.Instruction, fn *ssa.Function, typ string, args []*Term) *Term {
	in := f.in
	name := typ + "." + fn.Name()
	ts := fnParamTypes(fn)
	vals := make([]*Term, len(args))
	for i, a := range args {
		var t types.Type
		if i < len(ts) {
			t = ts[i]
		}
		vals[i] = in.deep(st, a, t, 0)
	}
	if mathMut[name] {
		v := mkApp(name, vals...)
		if strings.HasSuffix(name, ".Clone") {
			v = vals[1]
		}
		in.setVal(f, st, args[0], v, instr, name)
		return tUnit
	}
	if name == "Curve.NewRandomZr" {
		in.event(f, st, "draw", instr, name, vals[1])
		return f.newVal1(st, instr, app("draw", f.unique(instr), vals[1]))
	}
	if name == "Curve.Rand" {
		in.event(f, st, "rand", instr, name)
		return mk("tuple", "", app("Curve.Rand", vals[0]), app("Curve.Rand.err", vals[0]))
	}
	return f.results(st, instr, fn.Signature, name, vals)
}

func (f *frame) newVal1(st *State, instr ssa.Instruction, v *Term) *Term {
	return f.in.newVal(f, st, instr, v)
}

// results builds the results of an operator application, allocating objects for mathematical values.
func (f *frame) results(st *State, instr ssa.Instruction, sig *types.Signature, name string, vals []*Term) *Term {
	in := f.in
	n := sig.Results().Len()
	one := func(i int, nm string) *Term {
		t := sig.Results().At(i).Type()
		v := mkApp(nm, vals...)
		if mathPtr(t) != "" {
			o := in.newObj(f.ctx, instrKey(instr)+"."+strconv.Itoa(i), nil, "math", instr.Pos())
			st.mem = st.mem.Set(o.id, v)
			return o
		}
		return v
	}
	switch n {
	case 0:
		return tUnit
	case 1:
		return one(0, name)
	}
	var rs []*Term
	for i := 0; i < n; i++ {
		nm := name
		if isErrorType(sig.Results().At(i).Type()) {
			nm = name + ".err"
		} else if i > 0 {
			nm = name + "." + strconv.Itoa(i)
		}
		rs = append(rs, one(i, nm))
	}
	return mk("tuple", "", rs...)
}

func (f *frame) extern(st *State, instr ssa.Instruction, fn *ssa.Function, args []*Term) *Term {
	in := f.in
	pkg := ""
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	} else if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	name := fn.Name()
	ts := fnParamTypes(fn)
	deepAll := func() []*Term {
		vals := make([]*Term, len(args))
		for i, a := range args {
			var t types.Type
			if i < len(ts) {
				t = ts[i]
			}
			vals[i] = in.deep(st, a, t, 0)
			if vals[i] == a {
				vals[i] = in.snap(st, a, 0)
			}
		}
		return vals
	}
	in.event(f, st, "extern", instr, fn.String(), args...)
	switch pkg {
	case mathPkg:
		if recv != "" {
			return f.math(st, instr, fn, recv, args)
		}
	case "crypto/sha256":
		switch name {
		case "New":
			return f.newHash(st, instr, mk("str", "sha256"))
		case "Sum256":
			d := app("digest", mk("str", "sha256"), in.seq(st, args[0]))
			in.event(f, st, "digest", instr, "", d)
			return d
		}
	case "crypto/hmac":
		switch name {
		case "New":
			return f.newHash(st, instr, mk("hmk", "", in.seq(st, args[1])))
		case "Equal":
			return eqTerm(in.seq(st, args[0]), in.seq(st, args[1]))
		}
	case "bytes", "strings":
		if recv == "Buffer" || recv == "Builder" {
			cur := in.val(st, args[0])
			switch name {
			case "Write", "WriteString":
				s := in.seq(st, args[1])
				in.setVal1(st, args[0], mkCat(cur, s))
				return mk("tuple", "", lenOf(s), tNil)
			case "WriteByte":
				in.setVal1(st, args[0], mkCat(cur, mk("lit", "", args[1])))
				return tNil
			case "Bytes":
				return in.newSlice(f, st, instrKey(instr), nil, cur, instr.Pos())
			case "String":
				return cur
			case "Reset":
				in.setVal1(st, args[0], mk("lit", ""))
				return tUnit
			case "Len":
				return lenOf(cur)
			case "Grow":
				return tUnit
			}
		}
		if pkg == "bytes" && name == "Equal" && recv == "" {
			return eqTerm(in.seq(st, args[0]), in.seq(st, args[1]))
		}
		if pkg == "bytes" && (name == "NewBuffer" || name == "NewBufferString") {
			o := in.newObj(f.ctx, instrKey(instr), nil, "math", instr.Pos())
			st.mem = st.mem.Set(o.id, in.seq(st, args[0]))
			return o
		}
	case "math/big":
		if recv == "Int" {
			if intPure[name] {
				return f.results(st, instr, fn.Signature, "Int."+name, deepAll())
			}
			vals := deepAll()
			if (name == "DivMod" || name == "QuoRem") && len(vals) == 4 {
				ops := map[string][2]string{"DivMod": {"Div", "Mod"}, "QuoRem": {"Quo", "Rem"}}[name]
				in.setVal(f, st, args[0], app("Int."+ops[0], vals[1], vals[2]), instr, "Int."+ops[0])
				in.setVal(f, st, args[3], app("Int."+ops[1], vals[1], vals[2]), instr, "Int."+ops[1])
				return mk("tuple", "", args[0], args[3])
			}
			v := app("Int."+name, vals...)
			if name == "Set" {
				v = vals[1]
			}
			if name == "SetInt64" || name == "SetUint64" || name == "SetBytes" || name == "SetString" || name == "Set" || len(vals) > 1 {
				// the previous value of the receiver is irrelevant
				if name != "Set" {
					v = app("Int."+name, vals[1:]...)
				}
			}
			in.setVal(f, st, args[0], v, instr, "Int."+name)
			switch fn.Signature.Results().Len() {
			case 0:
				return tUnit
			case 1:
				return args[0]
			}
			rs := []*Term{args[0]}
			for i := 1; i < fn.Signature.Results().Len(); i++ {
				if isErrorType(fn.Signature.Results().At(i).Type()) {
					rs = append(rs, app("Int."+name+".err", vals[1:]...))
				} else {
					rs = append(rs, app("Int."+name+".ok", vals[1:]...))
				}
			}
			return mk("tuple", "", rs...)
		}
		return f.results(st, instr, fn.Signature, "big."+name, deepAll())
	case "encoding/binary":
		if name == "Write" && recv == "" && len(args) == 3 {
			data := app("binary", args[2])
			o := args[1].String()
			if x := args[2]; x.op == "mkif" {
				for _, w := range []string{"64", "32", "16"} {
					end := "be"
					if strings.Contains(o, "ittle") || strings.Contains(o, "ative") {
						end = "le"
					}
					if x.sym == "uint"+w || x.sym == "int"+w {
						data = app("putint:"+w+":"+end, x.args[0])
					}
				}
			}
			in.event(f, st, "write", instr, name, args[0], data)
			f.emit(st, args[0], data)
			return app("write.err", f.unique(instr))
		}
		end := "be"
		if strings.Contains(recv, "ittle") || strings.Contains(recv, "ative") {
			end = "le"
		}
		for _, w := range []string{"64", "32", "16"} {
			n, _ := strconv.Atoi(w)
			switch name {
			case "PutUint" + w:
				in.event(f, st, "putint", instr, name, args...)
				f.putAt(st, args[len(args)-2], mk("app", "putint:"+w+":"+end, args[len(args)-1]), int64(n/8))
				return tUnit
			case "AppendUint" + w:
				b := args[len(args)-2]
				return f.appended(st, b, in.seq(st, b), mk("app", "putint:"+w+":"+end, args[len(args)-1]), instrKey(instr), nil, instr.Pos())
			case "Uint" + w:
				s := in.seq(st, args[len(args)-1])
				in.event(f, st, "getint", instr, name, s, intT(int64(n/8)))
				if s.op == "app" && s.sym == "putint:"+w+":"+end {
					return s.args[0]
				}
				if x := bytesOf(s, n/8, end == "be"); x != nil {
					return x
				}
				return app("getint:"+w+":"+end, s)
			}
		}
	case "encoding/asn1":
		switch name {
		case "Marshal", "MarshalWithParams":
			tkey := ""
			v := args[0]
			if v.op == "mkif" {
				tkey = v.sym
			}
			d := in.snap(st, v, 0)
			e := app("asn1:"+tkey, d)
			in.event(f, st, "marshal", instr, name, e)
			return mk("tuple", "", e, app("asn1.err", d))
		case "Unmarshal", "UnmarshalWithParams":
			s := in.seq(st, args[0])
			p := args[1]
			if p.op == "mkif" {
				if pt, ok := in.typeOf(p.sym).Underlying().(*types.Pointer); ok {
					var v *Term
					tk := typeKey(pt.Elem())
					if s.op == "app" && s.sym == "asn1:"+tk {
						v = s.args[0]
					} else {
						v = app("unasn1:"+tk, s)
					}
					f.assign(st, p.args[0], v, pt.Elem(), instr)
				}
			}
			return mk("tuple", "", app("asn1.rest", s), app("unasn1.err", s))
		}
	case "fmt":
		switch name {
		case "Errorf":
			return app("errorf", deepAll()...)
		case "Sprintf", "Sprint", "Sprintln":
			vals := deepAll()
			return app("sprintf:"+name, vals...)
		}
		if strings.HasPrefix(name, "Fprint") || strings.HasPrefix(name, "Print") {
			in.event(f, st, "print", instr, name, deepAll()...)
			if strings.HasPrefix(name, "Fprint") && len(args) > 0 {
				in.event(f, st, "write", instr, name, args[0], app("sprintf:"+name, deepAll()[1:]...))
				f.emit(st, args[0], app("sprintf:S"+name[1:], deepAll()[1:]...))
			}
			u := f.unique(instr)
			return mk("tuple", "", app("write.n", u), app("write.err", u))
		}
	case "errors":
		if name == "New" {
			return app("errorf", deepAll()...)
		}
	case "sync":
		in.event(f, st, "sync", instr, recv+"."+name, args...)
		if recv == "Once" && name == "Do" {
			return f.callValue(st, instr, &ssa.CallCommon{Value: args1(instr)}, args[1], nil)
		}
		if recv == "WaitGroup" && name == "Go" && len(args) == 2 {
			in.bump(st, args[0], intT(1))
			f.goroutine(st, instr, nil, func() {
				f.callClosure(st, instr, args[1])
				in.finished(f, st, instr, args[0])
			})
			return tUnit
		}
		in.synchronise(f, st, instr, recv, name, args)
		if recv == "WaitGroup" || recv == "Mutex" || recv == "RWMutex" {
			if fn.Signature.Results().Len() == 0 {
				return tUnit
			}
		}
	case "sync/atomic":
		in.event(f, st, "sync", instr, recv+"."+name, args...)
		switch {
		case recv != "" && name == "Store":
			in.store(f, st, mk("fa", "$v", args[0]), args[1], nil, instr)
			return tUnit
		case recv != "" && name == "Load":
			v := in.cell(st, mk("fa", "$v", args[0]))
			if v == nil {
				v = zeroOf(fn.Signature.Results().At(0).Type())
				if args[0].op != "obj" && rootOf(args[0]).op != "obj" {
					v = app("atomic.init", args[0])
				}
			}
			return v
		case recv != "" && name == "CompareAndSwap":
			a := mk("fa", "$v", args[0])
			old := in.cell(st, a)
			if old == nil {
				old = tNil
			}
			ok := eqTerm(old, args[1])
			o := app("ite", ok, args[2], old)
			if ok == tTrue {
				o = args[2]
			}
			st.mem = st.mem.Set(a.id, o)
			return ok
		case recv != "" && name == "Add":
			a := mk("fa", "$v", args[0])
			old := in.cell(st, a)
			if old == nil {
				old = zeroInt
			}
			v := add(old, args[1])
			in.store(f, st, a, v, nil, instr)
			return v
		case recv == "" && strings.HasPrefix(name, "Add"):
			v := add(in.load(st, args[0], nil), args[1])
			in.store(f, st, args[0], v, nil, instr)
			return v
		case recv == "" && strings.HasPrefix(name, "Store"):
			in.store(f, st, args[0], args[1], nil, instr)
			return tUnit
		case recv == "" && strings.HasPrefix(name, "Load"):
			return in.load(st, args[0], nil)
		}
	case "time":
		in.event(f, st, "time", instr, name)
		return f.results(st, instr, fn.Signature, "time."+name, append(deepAll(), f.unique(instr)))
	case "math/rand", "math/rand/v2", "crypto/rand":
		in.event(f, st, "rand", instr, pkg+"."+name)
		if pkg == "crypto/rand" && name == "Read" {
			f.overwrite(st, args[0], app("randbytes", f.unique(instr)))
			return mk("tuple", "", lenOf(args[0]), app("rand.Read.err", f.unique(instr)))
		}
		return f.results(st, instr, fn.Signature, pkg+"."+name, append(deepAll(), f.unique(instr)))
	case "io":
		switch name {
		case "ReadFull":
			read := app("readbytes", f.unique(instr), args[0])
			if cryptoSource(args[0]) {
				in.event(f, st, "rand", instr, "crypto/rand.Read")
				read = app("randbytes", f.unique(instr))
			}
			f.overwrite(st, args[1], read)
			return mk("tuple", "", lenOf(args[1]), app("io.ReadFull.err", f.unique(instr)))
		case "WriteString":
			s := in.seq(st, args[1])
			if o := in.objs[args[0].sym]; args[0].op == "obj" && o != nil && o.kind == "hash" {
				return f.hashMethod(st, instr, "Write", args[0], []*Term{args[1]})
			}
			in.event(f, st, "write", instr, name, args[0], s)
			f.emit(st, args[0], s)
			u := f.unique(instr)
			return mk("tuple", "", app("write.n", u), app("write.err", u))
		}
	case "bufio":
		if in.streams {
			u := f.unique(instr)
			switch {
			case name == "NewWriter" || name == "NewWriterSize":
				return app("bufio.NewWriter", u, args[0])
			case recv == "Writer" && (name == "Write" || name == "WriteString"):
				f.emit(st, args[0], in.seq(st, args[1]))
				return mk("tuple", "", app("write.n", u), app("write.err", u))
			case recv == "Writer" && name == "WriteByte":
				f.emit(st, args[0], mk("lit", "", args[1]))
				return app("write.err", u)
			case recv == "Writer" && name == "Flush" && args[0].op == "app" && len(args[0].args) == 2:
				if cur := st.mem.Get(outCell(args[0]).id); cur != nil {
					f.emit(st, args[0].args[1], cur)
					st.mem = st.mem.Set(outCell(args[0]).id, mk("lit", ""))
				}
				return app("write.err", u)
			}
		}
	case "sort", "slices":
		if strings.HasPrefix(name, "S") && len(args) > 0 && fn.Signature.Results().Len() == 0 {
			s := args[0]
			if s.op == "mkif" {
				s = s.args[0]
			}
			if s.op == "slice" {
				c := in.seq(st, s)
				f.overwrite(st, s, app("sorted", c))
			}
			in.event(f, st, "sort", instr, name, s)
			return tUnit
		}
		if pkg == "slices" && name == "Clone" {
			return in.newSlice(f, st, instrKey(instr), nil, in.seq(st, args[0]), instr.Pos())
		}
		if pkg == "slices" && name == "Reverse" {
			c := in.seq(st, args[0])
			f.overwrite(st, args[0], app("reversed", c))
			return tUnit
		}
	case "os":
		if name == "Exit" {
			st.dead = true
			return tUnit
		}
	case "log":
		if strings.HasPrefix(name, "Fatal") || strings.HasPrefix(name, "Panic") {
			st.dead = true
			return tUnit
		}
	case "runtime":
		return f.results(st, instr, fn.Signature, "runtime."+name, deepAll())
	}
	if recv == "Element" && strings.Contains(pkg, "gnark-crypto") {
		content := in.content(st, args[0])
		if args[0].op == "ea" || strings.HasPrefix(args[0].op, "fa") {
			content = in.load(st, args[0], nil)
		}
		switch {
		case name == "ToBigIntRegular" || name == "BigInt":
			v := app("fr."+name, content)
			in.setVal(f, st, args[1], v, instr, "fr."+name)
			return args[1]
		case strings.HasPrefix(name, "Set"):
			vals := deepAll()
			in.setContent(st, args[0], app("fr."+name, vals[1:]...))
			if fn.Signature.Results().Len() > 1 {
				return mk("tuple", "", args[0], app("fr."+name+".err", vals[1:]...))
			}
			return args[0]
		}
		vals := deepAll()
		vals[0] = content
		if fn.Signature.Results().Len() == 1 {
			if _, ok := fn.Signature.Results().At(0).Type().(*types.Pointer); ok {
				in.setContent(st, args[0], app("fr."+name, vals...))
				return args[0]
			}
		}
		return f.results(st, instr, fn.Signature, "fr."+name, vals)
	}
	nm := name
	if recv != "" {
		nm = recv + "." + name
	}
	if pkg != "" {
		nm = pkg + "." + nm
	}
	return f.results(st, instr, fn.Signature, nm, deepAll())
}

func args1(instr ssa.Instruction) ssa.Value {
	if c, ok := instr.(*ssa.Call); ok {
		return c.Call.Args[len(c.Call.Args)-1]
	}
	if c, ok := instr.(ssa.CallInstruction); ok {
		return c.Common().Args[len(c.Common().Args)-1]
	}
	return nil
}

func (f *frame) callClosure(st *State, instr ssa.Instruction, fnv *Term) *Term {
	return f.callValue(st, instr, &ssa.CallCommon{Value: args1(instr)}, fnv, nil)
}

// putAt overwrites the first n bytes of a slice.
func (f *frame) putAt(st *State, dst, v *Term, n int64) {
	in := f.in
	if dst.op == "choice" || dst.op == "nil" {
		in.note("put into a conditional destination")
		return
	}
	bk, off, _ := sliceParts(dst)
	c := in.content(st, bk)
	total := lenOf(c)
	if o, ok := off.intVal(); ok {
		if t, ok := total.intVal(); ok && t >= o+n {
			in.setContent(st, bk, mkCat(mkCat(mkSub(c, zeroInt, off), v), mkSub(c, intT(o+n), intT(t-o-n))))
			return
		}
		in.setContent(st, bk, mkCat(mkCat(mkSub(c, zeroInt, off), v), mkSub(c, intT(o+n), addK(total, -o-n))))
		return
	}
	in.setContent(st, bk, mk("cpy", "", c, off, v, intT(n)))
}

func (f *frame) overwrite(st *State, dst, v *Term) {
	in := f.in
	if dst.op == "choice" || dst.op == "nil" {
		in.note("overwrite of a conditional destination")
		return
	}
	bk, off, n := sliceParts(dst)
	c := in.content(st, bk)
	v = mk("bytesof", "", v, n)
	if off == zeroInt && lenOf(c) == n {
		in.setContent(st, bk, v)
		return
	}
	in.setContent(st, bk, mk("cpy", "", c, off, v, n))
}

// assign stores a snapshot value into memory.
func (f *frame) assign(st *State, p, v *Term, t types.Type, instr ssa.Instruction) {
	if isPlainStruct(t) {
		names, fts := structNames(t), fieldTypes(t)
		for i, n := range names {
			f.in.store(f, st, mk("fa", n, p), fld(v, n), fts[i], instr)
		}
		return
	}
	f.in.store(f, st, p, v, t, instr)
}

var _ = fmt.Sprint
var _ = token.NoPos

// dbKey: all empty keys are the same key.
func dbKey(k *Term) *Term {
	if n, ok := lenOf(k).intVal(); ok && n == 0 {
		return mk("lit", "")
	}
	return k
}

// bytesOf: s is the n-byte encoding of an integer, written out byte by byte.
func bytesOf(s *Term, n int, be bool) *Term {
	if s.op != "lit" || len(s.args) != n {
		return nil
	}
	var x *Term
	for i := range s.args {
		b := s.args[i]
		k := int64(i)
		if be {
			k = int64(n - 1 - i)
		}
		if b.op != "app" || b.sym != "conv:byte" && b.sym != "conv:uint8" || len(b.args) != 1 {
			return nil
		}
		v := b.args[0]
		if k > 0 {
			if v.op != "app" || v.sym != "shr" || len(v.args) != 2 {
				return nil
			}
			if c, ok := v.args[1].intVal(); !ok || c != 8*k {
				return nil
			}
			v = v.args[0]
		}
		if x != nil && stripConv(v) != stripConv(x) {
			return nil
		}
		x = v
	}
	return x
}
