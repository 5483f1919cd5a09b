package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop summarisation: induction variables, element-wise writes, appends and shifting slices get
// closed forms; everything else carried around a loop becomes a fixpoint term (muv / mu).

type slot struct {
	name   string
	typ    types.Type // nil for memory cells
	addr   *Term      // memory cell, nil for phis and parameters
	init   *Term
	mode   string // "raw", "math", "slice"
	obj    *Term  // object standing for a math value or slice
	muv    *Term
	form   *form // closed form, nil when unknown
	fail   bool
	key    string
	cnt    *Term // initial content (slice) or value (math)
	isOpq  bool
	curVal *Term
}

// form: value at the start of iteration k
type form struct {
	kind string // affine, lsto, lcat, mlsto, shift, const
	at   func(k *Term) *Term
	len  func(k *Term) *Term
}

type latchEdge struct {
	st   *State
	next []*Term // per non-cell slot
}

type loopRun struct {
	f      *frame
	L      string
	lv     *Term
	params []*Term
	st0    *State
	slots  []*slot // phis / parameters first, then cells
	nphi   int
	cells  map[int]*slot
	trip   *Term
	latch  *State
	body   func(st *State) ([]latchEdge, []outEdge)
	set    func(i int, v *Term)
	tripOf func() *Term
	outs   []outEdge
	ret0   int
	noIter bool
}

func (r *loopRun) muName(s *slot) string { return r.L + ":" + s.name }

func (r *loopRun) run() {
	in := r.f.in
	r.ret0 = len(r.f.returns)
	r.trip = mk("trip", r.L, r.params...)
	in.loops = append(append([]*Term(nil), r.params...), r.lv)
	defer func() { in.loops = r.params }()
	for i, s := range r.slots {
		r.prepSlot(i, s)
	}
	keys := map[*slot]string{}
	for pass := 0; ; pass++ {
		if pass == 5 {
			// a closed form that is still growing is one in terms of itself
			for _, s := range r.slots {
				if s.form != nil && s.mode == "raw" && s.key != keys[s] {
					s.fail = true
					s.form = nil
				}
			}
		}
		for _, s := range r.slots {
			keys[s] = s.key
		}
		if pass > 12 {
			for _, s := range r.slots {
				if s.form != nil {
					s.fail = true
					s.form = nil
				}
			}
			in.note("loop did not stabilise")
		}
		sig := r.sig()
		in.dry++
		r.once()
		in.dry--
		if r.sig() == sig || pass > 14 {
			break
		}
	}
	r.once()
}

func (r *loopRun) sig() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d;", r.trip.id)
	for _, s := range r.slots {
		fmt.Fprintf(&b, "%s=%s,%s,%v;", s.name, s.mode, s.key, s.fail)
	}
	return b.String()
}

func (r *loopRun) prepSlot(i int, s *slot) {
	in := r.f.in
	s.muv = mk("muv", r.muName(s), append([]*Term{r.lv}, r.params...)...)
	if s.mode == "" {
		s.mode = "raw"
		if s.typ != nil {
			if mathPtr(s.typ) != "" {
				s.mode = "math"
			} else if _, ok := s.typ.Underlying().(*types.Slice); ok {
				s.mode = "slice"
			}
		}
	}
	r.prepMode(s)
	_ = in
}

func (r *loopRun) prepMode(s *slot) {
	in := r.f.in
	switch s.mode {
	case "math":
		s.cnt = in.val(r.st0, s.init)
	case "slice":
		s.cnt = in.seq(r.st0, s.init)
	default:
		s.cnt = s.init
	}
	if s.mode != "raw" && s.obj == nil {
		kind := "math"
		if s.mode == "slice" {
			kind = "array"
		}
		s.obj = in.newObj(r.f.ctx, r.L+":"+s.name, nil, kind, 0)
		in.objs[s.obj.sym].aliases = append(in.objs[s.obj.sym].aliases, s.init)
	}
}

// start gives the value of the slot at the start of iteration κ and installs its contents.
func (r *loopRun) start(st *State, s *slot) *Term {
	return r.value(st, s, r.lv, s.obj, s.muv)
}

func (r *loopRun) value(st *State, s *slot, k, obj, mu *Term) *Term {
	switch s.mode {
	case "math":
		v := mu
		if s.form != nil {
			v = s.form.at(k)
		}
		st.mem = st.mem.Set(obj.id, v)
		return obj
	case "slice":
		if s.form != nil {
			switch s.form.kind {
			case "shift", "const":
				return s.form.at(k)
			}
			c := s.form.at(k)
			st.mem = st.mem.Set(obj.id, c)
			return mk("slice", "", obj, zeroInt, lenOf(c))
		}
		st.mem = st.mem.Set(obj.id, mu)
		return mk("slice", "", obj, zeroInt, lenOf(mu))
	}
	if s.form != nil {
		return s.form.at(k)
	}
	return mu
}

func (r *loopRun) once() {
	f, in := r.f, r.f.in
	f.returns = f.returns[:r.ret0]
	st := r.st0.clone()
	for i, s := range r.slots {
		v := r.start(st, s)
		if s.addr != nil {
			st.mem = st.mem.Set(s.addr.id, v)
		} else {
			r.set(i, v)
		}
	}
	st.addFact(ge0(r.lv), 0)
	begin := st.clone()
	latches, outs := r.body(st)
	r.outs = outs
	r.trip = r.tripOf()
	if len(latches) == 0 {
		r.noIter = true
		r.latch = nil
		return
	}
	r.noIter = false
	var sts []*State
	for _, l := range latches {
		sts = append(sts, l.st)
	}
	js, live, tok := in.join(r.L+":latch", sts)
	if js == nil {
		r.noIter = true
		return
	}
	r.latch = js
	if in.latches == nil {
		in.latches = map[string]*State{}
	}
	in.latches[r.L] = js
	// next values
	nexts := make([]*Term, len(r.slots))
	for i := 0; i < r.nphi; i++ {
		var alts []*Term
		for _, k := range live {
			alts = append(alts, latches[k].next[i])
		}
		if len(alts) == 1 {
			nexts[i] = alts[0]
		} else {
			nexts[i] = mkChoice(tok, append([]*Term(nil), in.loops...), alts)
		}
	}
	// carried cells
	slotObjs := map[int]bool{}
	for _, s := range r.slots {
		if s.obj != nil {
			slotObjs[s.obj.id] = true
		}
	}
	var newCells []*Term
	Diff(begin.mem, js.mem, func(k int, a, b *Term) {
		addr := termList[k]
		if addr.op == "hv" {
			return
		}
		if slotObjs[k] || rootOf(addr).hasFV(r.lv) || addr.hasFV(r.lv) && addr.op != "obj" {
			return
		}
		if r.cells[k] == nil && r.st0.mem.Get(k) == nil && rootOf(addr).op == "obj" && addr.op != "fa" {
			return // allocated in the body
		}
		if r.cells[k] == nil {
			newCells = append(newCells, addr)
		}
	})
	sort.Slice(newCells, func(i, j int) bool { return newCells[i].id < newCells[j].id })
	for i := r.nphi; i < len(r.slots); i++ {
		nexts[i] = js.mem.Get(r.slots[i].addr.id)
	}
	// closed forms of the known slots
	for i, s := range r.slots {
		r.update(i, s, nexts[i], js)
	}
	for _, a := range newCells {
		s := &slot{name: "c" + strconv.Itoa(a.id), addr: a, init: r.st0.mem.Get(a.id)}
		if s.init == nil {
			s.init = initialOf2(a)
		}
		next := js.mem.Get(a.id)
		if next == nil {
			next = s.init
		}
		switch shape(in, next) {
		case "slice":
			s.mode = "slice"
		case "math":
			s.mode = "math"
		default:
			s.mode = "raw"
		}
		if s.mode == "math" && a.op == "obj" && in.objs[a.sym] != nil && in.objs[a.sym].kind == "math" {
			s.mode = "raw"
		}
		r.cells[a.id] = s
		r.slots = append(r.slots, s)
		r.prepSlot(len(r.slots)-1, s)
	}
	// fixpoint definitions
	for i, s := range r.slots {
		if i >= len(nexts) || nexts[i] == nil {
			continue
		}
		d := &muDef{loop: r.L, trip: r.trip, self: s.muv, params: r.params, name: s.name}
		switch s.mode {
		case "math":
			d.init, d.next = s.cnt, in.val(js, nexts[i])
		case "slice":
			d.init, d.next = in.snap(r.st0, s.init, 0), in.snap(js, nexts[i], 0)
		default:
			d.init, d.next = in.snap(r.st0, s.init, 0), in.snap(js, nexts[i], 0)
		}
		if s.form != nil {
			d.closed = true
		}
		muDefs[r.muName(s)] = d
	}
}

func rootOf(a *Term) *Term {
	for a.op == "fa" || a.op == "vc" || a.op == "bk" || a.op == "mc" {
		a = a.args[0]
	}
	return a
}

// shape guesses what kind of pointer-like value a term is.
func shape(in *Interp, t *Term) string {
	switch t.op {
	case "slice":
		return "slice"
	case "obj":
		if o := in.objs[t.sym]; o != nil && o.kind == "math" {
			return "math"
		}
	case "choice":
		_, alts := choiceAlts(t)
		for _, a := range alts {
			if s := shape(in, a); s != "" {
				return s
			}
		}
	}
	return ""
}

func (r *loopRun) update(i int, s *slot, next *Term, js *State) {
	in := r.f.in
	if next == nil {
		next = s.init
	}
	if s.mode == "raw" {
		if sh := shape(in, next); sh != "" && s.form == nil && s.addr != nil && !(s.addr.op == "obj" && in.objs[s.addr.sym] != nil && in.objs[s.addr.sym].kind == "math") && !s.fail {
			if s.obj == nil {
				s.mode = sh
				r.prepMode(s)
				return
			}
		}
	}
	if s.obj != nil && next != s.obj {
		o := in.objs[s.obj.sym]
		if !has(o.aliases, next) {
			o.aliases = append(o.aliases, next)
		}
	}
	if s.fail {
		return
	}
	lv1 := addK(r.lv, 1)
	if s.form != nil {
		ok := false
		switch s.mode {
		case "math":
			ok = in.val(js, next) == s.form.at(lv1)
		case "slice":
			if s.form.kind == "shift" || s.form.kind == "const" {
				ok = next == s.form.at(lv1)
			} else {
				// verify by re-deriving with the fixpoint variable: same step term as before
				nf := r.closeSeq(s, in.seq(js, next), s.form.at(r.lv))
				ok = nf != nil && nf.at(r.lv) == s.form.at(r.lv)
			}
		default:
			switch s.form.kind {
			case "affine", "const":
				ok = next == s.form.at(lv1)
			default:
				nf := r.closeSeq(s, next, s.form.at(r.lv))
				ok = nf != nil && nf.at(r.lv) == s.form.at(r.lv)
				if nf != nil && !ok {
					// the step became more precise
					s.form = nf
					s.key = fmt.Sprint(nf.at(r.lv).id)
					return
				}
			}
		}
		if !ok {
			if s.mode == "slice" && s.form.kind != "shift" && s.form.kind != "const" {
				if nf := r.closeSeq(s, in.seq(js, next), s.form.at(r.lv)); nf != nil {
					s.form = nf
					s.key = fmt.Sprint(nf.at(r.lv).id)
					return
				}
			}
			s.form = nil
			s.fail = true
			s.key = "failed"
		}
		return
	}
	// derive a closed form
	switch s.mode {
	case "math":
		v := in.val(js, next)
		if v == s.muv {
			init := s.cnt
			s.form = &form{kind: "const", at: func(*Term) *Term { return init }}
		}
	case "slice":
		if fm := r.closeShift(s, next, js); fm != nil {
			s.form = fm
		} else {
			s.form = r.closeSeq(s, in.seq(js, next), s.muv)
		}
	default:
		if next == s.muv {
			init := s.init
			s.form = &form{kind: "const", at: func(*Term) *Term { return init }}
		} else if d, ok := constDiff(next, s.muv); ok {
			init := s.init
			s.form = &form{kind: "affine", at: func(k *Term) *Term { return add(init, mulK(k, d)) }}
		} else {
			s.form = r.closeSeq(s, next, s.muv)
		}
	}
	if s.form != nil {
		s.key = fmt.Sprint(s.form.at(r.lv).id)
	}
}

// closeShift recognises next = cur[k:].
func (r *loopRun) closeShift(s *slot, next *Term, js *State) *form {
	if next.op != "slice" || next.args[0] != s.obj {
		return nil
	}
	if js.mem.Get(s.obj.id) != s.muv {
		return nil
	}
	d, ok := next.args[1].intVal()
	if !ok {
		return nil
	}
	if next.args[2] != addK(lenOf(s.muv), -d) {
		return nil
	}
	init := s.init
	if d == 0 {
		return &form{kind: "const", at: func(*Term) *Term { return init }}
	}
	return &form{kind: "shift", at: func(k *Term) *Term { return shiftSlice(init, mulK(k, d)) }}
}

func shiftSlice(s, k *Term) *Term {
	if s.op == "choice" {
		return mapChoice(s, func(a *Term) *Term { return shiftSlice(a, k) })
	}
	bk, off, n := sliceParts(s)
	return mk("slice", "", bk, add(off, k), subT(n, k))
}

// closeSeq: next as a function of the content cur.
func (r *loopRun) closeSeq(s *slot, next, cur *Term) *form {
	cnt := s.cnt
	if next == cur {
		return &form{kind: "const", at: func(*Term) *Term {
			if s.mode == "slice" {
				return s.init
			}
			return cnt
		}}
	}
	mus := r.mus()
	if e := asCat(next, cur); e != nil {
		if mentions(e, s.muv, cur) {
			return nil
		}
		L := r.L
		_ = mus
		return &form{kind: "lcat", at: func(k *Term) *Term {
			if n, ok := k.intVal(); ok && n == 0 {
				return cnt
			} else if ok && n > 0 && n <= 16 && overLiteral(e, r.lv) {
				// an iteration over a literal
				t := cnt
				for i := int64(0); i < n; i++ {
					t = mkCat(t, subst(e, map[*Term]*Term{r.lv: intT(i)}))
				}
				return t
			}
			return mk("lcat", L, cnt, k, e)
		}}
	}
	// element-wise updates
	type upd struct {
		op     string
		idx, v *Term
	}
	var us []upd
	t := next
	for t != cur && (t.op == "sto" || t.op == "msto") {
		us = append(us, upd{t.op, t.args[1], t.args[2]})
		t = t.args[0]
	}
	if t != cur || len(us) == 0 {
		return nil
	}
	L := r.L
	c := cnt
	_ = c
	for i := range us {
		u := &us[i]
		if u.op == "sto" {
			if u.idx.hasFV(r.lv) {
				old := mk("el", "", cur, u.idx)
				old2 := elAt(cur, u.idx)
				m := map[*Term]*Term{old: elAt(cnt, u.idx)}
				if old2 != old && old2.op == "el" {
					m[old2] = elAt(cnt, u.idx)
				}
				u.v = subst(u.v, m)
			}
		} else {
			u.v = subst(u.v, map[*Term]*Term{mk("mkeep", "", cur, u.idx): mk("mkeep", "", cnt, u.idx)})
		}
		if mentions(u.v, s.muv, cur) || mentions(u.idx, s.muv, cur) {
			return nil
		}
		if u.op == "sto" && !u.idx.hasFV(r.lv) && u.v.hasFV(r.lv) && len(us) > 1 {
			return nil
		}
	}
	return &form{kind: "lsto", at: func(k *Term) *Term {
		if n, ok := k.intVal(); ok && n == 0 {
			return cnt
		}
		x := cnt
		for i := len(us) - 1; i >= 0; i-- {
			op := "lsto"
			if us[i].op == "msto" {
				op = "mlsto"
			}
			x = mk(op, L, x, k, us[i].idx, us[i].v)
		}
		return x
	}}
}

func (r *loopRun) mus() []*Term {
	var m []*Term
	for _, s := range r.slots {
		m = append(m, s.muv)
	}
	return m
}

// mentions: t contains one of xs
func mentions(t *Term, xs ...*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		for _, x := range xs {
			if t == x {
				return true
			}
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// asCat: next = cur ++ e
func asCat(next, cur *Term) *Term {
	if next == cur {
		return mk("lit", "")
	}
	switch next.op {
	case "cat":
		if next.args[0] == cur {
			return next.args[1]
		}
		if e := asCat(next.args[0], cur); e != nil {
			return mkCat(e, next.args[1])
		}
	case "choice":
		params, alts := choiceAlts(next)
		var es []*Term
		for _, a := range alts {
			e := asCat(a, cur)
			if e == nil {
				return nil
			}
			es = append(es, e)
		}
		return mkChoice(next.sym, params, es)
	}
	return nil
}

// newFacts: what every iteration established.
func (r *loopRun) newFacts() []*Term {
	if r.latch == nil {
		return nil
	}
	var fs []*Term
	Diff(r.st0.facts, r.latch.facts, func(_ int, a, b *Term) {
		if b != nil && b != ge0(r.lv) && b.op != "oneofX" {
			fs = append(fs, b)
		}
	})
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return fs
}

// exitState: the state after T complete iterations; slot values are installed by the caller via fin.
func (r *loopRun) exitState(T *Term) (*State, []*Term) {
	in := r.f.in
	st := r.st0.clone()
	latch := r.latch
	if n, ok := T.intVal(); ok && n == 0 {
		latch = nil // no iteration
	}
	if latch != nil {
		Diff(r.st0.mem, latch.mem, func(k int, a, b *Term) {
			addr := termList[k]
			if b != nil && (rootOf(addr).hasFV(r.lv) || addr.hasFV(r.lv)) {
				st.mem = st.mem.Set(k, b)
			}
			if b != nil && a == nil && rootOf(addr).op == "obj" && r.cells[k] == nil {
				st.mem = st.mem.Set(k, b)
			}
		})
		st.counts = latch.counts
		if deferLen(latch.defers) > deferLen(st.defers) {
			st.defers = latch.defers
		}
		for _, fct := range r.newFacts() {
			st.addFact(mkAll(r.L, T, fct), 0)
		}
		st.addFact(ge0(T), 0)
	}
	vals := make([]*Term, len(r.slots))
	for i, s := range r.slots {
		mu := mk("mu", r.muName(s), append([]*Term{T}, r.params...)...)
		if latch == nil {
			vals[i] = s.init
		} else {
			var fin *Term
			if s.obj != nil {
				// formal contents at the start of an iteration, and a separate object for the result
				r.value(st, s, r.lv, s.obj, s.muv)
				fin = in.newObj(r.f.ctx, r.L+":"+s.name+":fin", nil, in.objs[s.obj.sym].kind, 0)
				in.objs[fin.sym].aliases = in.objs[s.obj.sym].aliases
			}
			vals[i] = r.value(st, s, T, fin, mu)
		}
		if s.addr != nil {
			st.mem = st.mem.Set(s.addr.id, vals[i])
		}
	}
	return st, vals
}

// close replaces the loop variable in what leaves the loop in the middle of an iteration.
func (r *loopRun) closeState(st *State, k *Term) *State {
	sub := newSubst(map[*Term]*Term{r.lv: k})
	n := st.clone()
	n.facts = PMap{}
	st.facts.Each(func(_ int, t *Term) {
		u := sub(t)
		n.facts = n.facts.Set(u.id, u)
	})
	st.mem.Each(func(id int, v *Term) {
		addr := termList[id]
		if rootOf(addr).hasFV(r.lv) && rootOf(addr).op == "obj" {
			return
		}
		if v.hasFV(r.lv) {
			n.mem = n.mem.Set(id, sub(v))
		}
	})
	for _, fct := range r.newFacts() {
		n.addFact(mkAll(r.L, k, fct), 0)
	}
	n.dead = false
	return n
}

// hvCell keeps the value of a loop header's instruction per exit edge.
type hvCell struct {
	v    ssa.Value
	cell *Term
}

func (f *frame) sync(st *State) {
	for _, hv := range f.hvs {
		if t := st.mem.Get(hv.cell.id); t != nil {
			f.env[hv.v] = t
		}
	}
}

// ---- loops ----

func (f *frame) runLoop(l *loop, ins []inEdge) []outEdge {
	in := f.in
	h := l.header
	st0 := f.joinInto(h, ins)
	if st0 == nil {
		return nil
	}
	L := internCtx(f.ctx + "|loop|" + strconv.Itoa(h.Index) + loopKey(in.loops))
	r := &loopRun{f: f, L: L, lv: loopVar(L), params: in.loops, st0: st0, cells: map[int]*slot{}}
	var phis []*ssa.Phi
	for _, i := range h.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		r.slots = append(r.slots, &slot{name: phi.Name(), typ: phi.Type(), init: f.env[phi]})
	}
	r.nphi = len(phis)
	r.set = func(i int, v *Term) { f.env[phis[i]] = v }
	r.body = func(st *State) ([]latchEdge, []outEdge) {
		lat, outs := f.runRegion(l.rpo, h, []inEdge{{nil, st, nil}}, h)
		var les []latchEdge
		for _, e := range lat {
			le := latchEdge{st: e.st}
			for _, phi := range phis {
				for pi, p := range h.Preds {
					if p == e.from {
						le.next = append(le.next, f.eval(phi.Edges[pi]))
						break
					}
				}
			}
			les = append(les, le)
		}
		return les, outs
	}
	r.tripOf = func() *Term { return f.tripCount(l, r) }
	r.run()
	// what leaves in the middle of an iteration
	brk := mk("brk", r.L, r.params...)
	if r.noIter {
		brk = zeroInt
	}
	sub := newSubst(map[*Term]*Term{r.lv: brk})
	var result []outEdge
	hasHeaderExit := false
	for _, e := range r.outs {
		if e.from == h {
			hasHeaderExit = true
			continue
		}
		ph := map[*ssa.Phi]*Term{}
		if e.phis != nil {
			for p, v := range e.phis {
				ph[p] = sub(v)
			}
		} else {
			f.edgePhis(e.from, e.to, func(p *ssa.Phi, v *Term) { ph[p] = sub(v) })
		}
		result = append(result, outEdge{e.from, e.to, r.closeState(e.st, brk), ph})
	}
	for i := r.ret0; i < len(f.returns); i++ {
		rs := f.returns[i]
		ns := r.closeState(rs.st, brk)
		var res []*Term
		for _, v := range rs.res {
			res = append(res, sub(v))
		}
		f.returns[i] = &retState{ns, res}
	}
	// values defined in the loop and used after it: those of the body are only seen on the edges that
	// leave in the middle; those of the header have a value per exit, kept in the state of each edge
	for b := range l.blocks {
		if b == h && hasHeaderExit {
			continue
		}
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				if t := f.env[v]; t != nil && t.hasFV(r.lv) {
					f.env[v] = sub(t)
				}
			}
		}
	}
	if !hasHeaderExit {
		return result
	}
	var hvs []hvCell
	if len(result) > 0 {
		for _, i := range h.Instrs {
			v, ok := i.(ssa.Value)
			if !ok || v.Referrers() == nil || f.env[v] == nil {
				continue
			}
			outside := false
			for _, u := range *v.Referrers() {
				if u.Block() != nil && !l.blocks[u.Block()] {
					outside = true
				}
			}
			if outside {
				hvs = append(hvs, hvCell{v, mk("hv", f.ctx+"."+v.Name(), in.loops...)})
			}
		}
		for _, hv := range hvs {
			for _, e := range result {
				x := sub(f.env[hv.v])
				e.st.mem = e.st.mem.Set(hv.cell.id, x)
			}
		}
		f.hvs = append(f.hvs, hvs...)
	}
	// normal exit through the header after T iterations
	st, vals := r.exitState(r.trip)
	for i, phi := range phis {
		f.env[phi] = vals[i]
	}
	saved := in.nextAt
	in.nextAt = r.trip
	outs := f.execBlock(h, st)
	in.nextAt = saved
	found := false
	for _, e := range outs {
		if l.blocks[e.to] {
			continue
		}
		found = true
		for _, hv := range hvs {
			e.st.mem = e.st.mem.Set(hv.cell.id, f.env[hv.v])
		}
		ph := map[*ssa.Phi]*Term{}
		f.edgePhis(e.from, e.to, func(p *ssa.Phi, v *Term) { ph[p] = v })
		result = append(result, outEdge{e.from, e.to, e.st, ph})
	}
	if !found {
		in.note("loop exit lost")
		for _, s := range h.Succs {
			if !l.blocks[s] {
				ph := map[*ssa.Phi]*Term{}
				for _, hv := range hvs {
					st.mem = st.mem.Set(hv.cell.id, f.env[hv.v])
				}
				f.edgePhis(h, s, func(p *ssa.Phi, v *Term) { ph[p] = v })
				result = append(result, outEdge{h, s, st, ph})
			}
		}
	}
	return result
}

func (f *frame) edgePhis(from, to *ssa.BasicBlock, g func(*ssa.Phi, *Term)) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	for _, i := range to.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if idx >= 0 {
			g(phi, f.eval(phi.Edges[idx]))
		}
	}
}

// tripCount derives the number of iterations from the condition in the loop header.
func (f *frame) tripCount(l *loop, r *loopRun) *Term {
	opaque := mk("trip", r.L, r.params...)
	h := l.header
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return opaque
	}
	in0, in1 := l.blocks[h.Succs[0]], l.blocks[h.Succs[1]]
	if in0 == in1 {
		return opaque
	}
	c := f.eval(last.Cond)
	if !in0 {
		c = not(c)
	}
	return tripFrom(c, r.lv, opaque)
}

func tripFrom(c, lv, opaque *Term) *Term {
	switch c.op {
	case "ge0":
		x := toLin(c.args[0])
		b, has := x.m[lv]
		rest := x.add(lin{m: map[*Term]int64{lv: b}}, -1)
		if !has || b >= 0 || rest.term().hasFV(lv) {
			return opaque
		}
		a := rest.term()
		if hasMuv(a, lv) {
			return opaque
		}
		if b == -1 {
			return addK(a, 1)
		}
		if n, ok := a.intVal(); ok && n >= 0 {
			return intT(n/(-b) + 1)
		}
		return divT(addK(a, -b), -b)
	case "not":
		if c.args[0].op == "eq0" {
			x := toLin(c.args[0].args[0])
			b := x.m[lv]
			rest := x.add(lin{m: map[*Term]int64{lv: b}}, -1).term()
			if rest.hasFV(lv) || hasMuv(rest, lv) {
				return opaque
			}
			switch b {
			case 1:
				return mulK(rest, -1)
			case -1:
				return rest
			}
		}
	}
	return opaque
}

// divT: floor(a/k) for a constant k
func divT(a *Term, k int64) *Term {
	l := toLin(a)
	ok := l.c%k == 0
	for _, x := range l.m {
		if x%k != 0 {
			ok = false
		}
	}
	if ok {
		r := lin{c: l.c / k, m: map[*Term]int64{}}
		for t, x := range l.m {
			r.m[t] = x / k
		}
		return r.term()
	}
	return app("div", a, intT(k))
}

func hasMuv(t, lv *Term) bool {
	found := false
	walk(t, func(x *Term) bool {
		if x.op == "muv" && len(x.args) > 0 && x.args[0] == lv {
			found = true
		}
		return !found
	})
	return found
}

// walk visits the subterms of t once each; g returns whether to descend.
func walk(t *Term, g func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !g(t) {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

// ---- tail recursion ----

func (f *frame) runRec(st0 *State, args []*Term) {
	in := f.in
	L := internCtx(f.ctx + "|rec|" + loopKey(in.loops))
	r := &loopRun{f: f, L: L, lv: loopVar(L), params: in.loops, st0: st0, cells: map[int]*slot{}}
	for i, p := range f.fn.Params {
		r.slots = append(r.slots, &slot{name: fmt.Sprintf("p%d", i), typ: p.Type(), init: args[i]})
	}
	r.nphi = len(r.slots)
	r.set = func(i int, v *Term) { f.env[f.fn.Params[i]] = v }
	r.body = func(st *State) ([]latchEdge, []outEdge) {
		f.rec = nil
		f.runBody(st)
		var les []latchEdge
		for _, e := range f.rec {
			les = append(les, latchEdge{st: e.st, next: e.args})
		}
		return les, nil
	}
	trip := mk("trip", L, in.loops...)
	r.tripOf = func() *Term { return trip }
	r.run()
	k := trip
	if r.noIter {
		k = zeroInt
	}
	sub := newSubst(map[*Term]*Term{r.lv: k})
	for i := r.ret0; i < len(f.returns); i++ {
		rs := f.returns[i]
		ns := r.closeState(rs.st, k)
		var res []*Term
		for _, v := range rs.res {
			res = append(res, sub(v))
		}
		f.returns[i] = &retState{ns, res}
	}
}

// snap: a memory-independent snapshot of a value, guided by the shape of the term.
func (in *Interp) snap(st *State, t *Term, depth int) *Term {
	if depth > 8 || t == nil {
		return t
	}
	switch t.op {
	case "choice":
		return mapChoice(t, func(a *Term) *Term { return in.snap(st, a, depth) })
	case "obj":
		o := in.objs[t.sym]
		if o == nil {
			return t
		}
		switch o.kind {
		case "math":
			return in.val(st, t)
		case "array", "map", "chan":
			if c := in.cell(st, t); c != nil {
				return in.snapSeq(st, c, depth+1)
			}
		case "hash":
			return in.hashState(st, t)
		default:
			if o.typ != nil && isPlainStruct(o.typ) {
				names, fts := structNames(o.typ), fieldTypes(o.typ)
				args := make([]*Term, len(names))
				for i, n := range names {
					args[i] = in.snap(st, in.load(st, mk("fa", n, t), fts[i]), depth+1)
				}
				return mkStruct("", names, args)
			}
			if c := in.cell(st, t); c != nil {
				return in.snap(st, c, depth+1)
			}
		}
		return t
	case "slice":
		return in.snapSeq(st, in.seq(st, t), depth+1)
	case "struct":
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = in.snap(st, a, depth+1)
		}
		return mk("struct", t.sym, args...)
	case "tuple":
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = in.snap(st, a, depth+1)
		}
		return mk("tuple", "", args...)
	case "mkif":
		return in.snap(st, t.args[0], depth)
	case "fld", "in", "el", "mget":
		if v := in.cell(st, valKey(t)); v != nil {
			return v
		}
		if c := in.cell(st, mk("bk", "", t)); c != nil {
			return in.snapSeq(st, c, depth+1)
		}
		if c := in.cell(st, mk("mc", "", t)); c != nil {
			return in.snapSeq(st, c, depth+1)
		}
	}
	return t
}

func (in *Interp) snapSeq(st *State, c *Term, depth int) *Term {
	d := func(t *Term) *Term { return in.snap(st, t, depth) }
	var rec func(c *Term) *Term
	rec = func(c *Term) *Term {
		switch c.op {
		case "lit":
			args := make([]*Term, len(c.args))
			for i, a := range c.args {
				args[i] = d(a)
			}
			return mk("lit", "", args...)
		case "sto":
			return mkSto(rec(c.args[0]), c.args[1], d(c.args[2]))
		case "msto":
			return mk("msto", "", rec(c.args[0]), c.args[1], d(c.args[2]))
		case "mkseq":
			return mk("mkseq", "", c.args[0], d(c.args[1]))
		case "cat":
			return mkCat(rec(c.args[0]), rec(c.args[1]))
		case "sub":
			return mkSub(rec(c.args[0]), c.args[1], c.args[2])
		case "lsto", "mlsto":
			return mk(c.op, c.sym, rec(c.args[0]), c.args[1], c.args[2], d(c.args[3]))
		case "lcat":
			return mk("lcat", c.sym, rec(c.args[0]), c.args[1], rec(c.args[2]))
		case "choice":
			return mapChoice(c, rec)
		}
		return c
	}
	return rec(c)
}
