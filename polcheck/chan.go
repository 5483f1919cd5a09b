package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channels that carry errors. Besides its content, such a channel has a cell $any: nil while nothing
// was sent, afterwards an error that was sent. A receive finds an error exactly if $any is one; it
// leaves $any as it is (a receiver that drains the channel sees the same answer again).

func anyCell(ch *Term) *Term { return mk("fa", "$any", ch) }

// takenCell counts the values received.
func takenCell(ch *Term) *Term { return mk("fa", "$taken", ch) }

func closedCell(ch *Term) *Term { return mk("fa", "$closed", ch) }

func isErrChan(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	return ok && types.Identical(c.Elem(), types.Universe.Lookup("error").Type())
}

func (in *Interp) newChan(st *State, o *Term, t types.Type, size *Term) {
	st.mem = st.mem.Set(o.id, mk("lit", ""))
	if in.chanCap == nil {
		in.chanCap = map[*Term]*Term{}
	}
	in.chanCap[o] = stripConv(size)
	if isErrChan(t) {
		in.setCell(st, anyCell(o), tNil)
		in.setCell(st, takenCell(o), zeroInt)
	}
}

// split analyses nothing twice: it names the two alternatives of cond, for a value that differs.
func (f *frame) split(st *State, key string, cond *Term) func(yes, no *Term) *Term {
	if entails(st.factList(), cond) || cond == tTrue {
		return func(y, _ *Term) *Term { return y }
	}
	if entails(st.factList(), not(cond)) || cond == tFalse {
		return func(_, n *Term) *Term { return n }
	}
	a, b := st.clone(), st.clone()
	a.assume(cond)
	b.assume(not(cond))
	js, live, tok := f.in.join(f.ctx+":split"+key, []*State{a, b})
	if js == nil {
		st.dead = true
		return func(y, _ *Term) *Term { return y }
	}
	*st = *js
	params := append([]*Term(nil), f.in.loops...)
	return func(y, n *Term) *Term {
		alts := []*Term{y, n}
		if len(live) == 1 {
			return alts[live[0]]
		}
		return mkChoice(tok, params, alts)
	}
}

// sent records what a send leaves behind.
func (f *frame) sent(st *State, instr ssa.Instruction, t types.Type, ch, v *Term) {
	in := f.in
	in.event(f, st, "send", instr, "", ch, v)
	in.mark(st, sigCell, ghostDone)
	in.mark(st, mk("fa", "$wg", ch), ghostPend)
	c := in.content(st, ch)
	in.setContent(st, ch, mkCat(c, mk("lit", "", v)))
	if isErrChan(t) && in.cell(st, anyCell(ch)) != nil {
		if entails(st.factList(), not(eqTerm(v, tNil))) {
			in.setCell(st, anyCell(ch), v)
		} else {
			in.setCell(st, anyCell(ch), app("mixed", ch, v))
		}
	}
}

// received is the value and the second result of a receive.
func (f *frame) received(st *State, instr ssa.Instruction, t types.Type, ch *Term, commaOK bool) (v, ok *Term) {
	in := f.in
	c := in.content(st, ch)
	in.event(f, st, "recv", instr, "", ch)
	if in.goDepth == 0 {
		in.setCell(st, mk("fa", "$wg", ch), ghostNone)
	}
	v = app("recv", ch, c, mk("str", f.ctx+instrKey(instr)))
	ok = app("recv.ok", v)
	if !isErrChan(t) || in.goDepth > 0 {
		return v, ok
	}
	any := in.cell(st, anyCell(ch))
	if any == nil {
		return v, ok
	}
	mixed := mentionsOp(any, "mixed")
	if !mixed {
		return any, not(eqTerm(any, tNil))
	}
	if n := in.cell(st, takenCell(ch)); n != nil {
		if commaOK {
			if in.cell(st, closedCell(ch)) != tTrue {
				return v, ok
			}
			ok = lt(n, lenOf(c))
		}
		in.setCell(st, takenCell(ch), add(n, intT(1)))
		return elAt(c, n), ok
	}
	return v, ok
}

// chanLen is the number of values waiting in a channel of errors, nil if nothing is known.
func (in *Interp) chanLen(st *State, ch *Term) *Term {
	if any := in.cell(st, anyCell(ch)); any != nil && !mentionsOp(any, "mixed") {
		return any
	}
	return nil
}

// selectOf is a select statement.
func (f *frame) selectOf(st *State, x *ssa.Select) *Term {
	in := f.in
	opaque := func() *Term {
		in.note("select")
		var rs []*Term
		for j := 0; j < x.Type().(*types.Tuple).Len(); j++ {
			rs = append(rs, app("select", mk("str", f.ctx+instrKey(x)), intT(int64(j))))
		}
		return mk("tuple", "", rs...)
	}
	if len(x.States) != 1 || x.Blocking {
		return opaque()
	}
	s := x.States[0]
	ch := f.eval(s.Chan)
	if s.Dir == types.SendOnly {
		in.event(f, st, "trysend", x, "", ch, f.eval(s.Send))
	}
	if !isErrChan(s.Chan.Type()) || in.cell(st, anyCell(ch)) == nil {
		return opaque()
	}
	any := in.cell(st, anyCell(ch))
	if mentionsOp(any, "mixed") {
		return opaque()
	}
	if s.Dir == types.SendOnly {
		v := f.eval(s.Send)
		size := in.chanCap[ch]
		if size == nil || size == zeroInt {
			// nobody needs to be waiting: the value may be dropped
			return mk("tuple", "", intT(-1), tFalse)
		}
		// sent unless the channel is full, and then something was sent before
		f.sent(st, x, s.Chan.Type(), ch, v)
		return mk("tuple", "", app("trysend", mk("str", f.ctx+instrKey(x)), ch), tFalse)
	}
	v, ok := f.received(st, x, s.Chan.Type(), ch, true)
	pick := f.split(st, instrKey(x), ok)
	return mk("tuple", "", pick(zeroInt, intT(-1)), ok, v)
}

// channels: what a goroutine reports over a channel arrives, and its report never keeps it from ending.
func (c *Ctx) channels(r *result, name string, runs []*goRun) {
	in := r.in
	for _, g := range runs {
		for i := g.from; i < g.to; i++ {
			e := in.Events[i]
			if e.Kind != "send" && e.Kind != "trysend" {
				continue
			}
			size := in.chanCap[e.Args[0]]
			if size == nil {
				continue
			}
			if e.Kind == "trysend" {
				c.oblige(size != zeroInt, name+"/report-dropped", c.eventSite(e),
					"the goroutine drops its report when nobody waits for it: the channel has no buffer")
				continue
			}
			if _, ok := e.Instr.(*ssa.Select); ok || g.wg == nil || in.receivedBeside(g, e.Args[0]) {
				continue
			}
			// read after the wait only: every report needs a place in the buffer
			room := true
			if len(g.ev.Loops) > 0 {
				k := g.ev.Loops[len(g.ev.Loops)-1]
				room = !isSum(size) || entails(g.ev.St.factList(), lt(k, size))
			} else if n, ok := size.intVal(); ok {
				room = n > 0
			}
			c.oblige(room, name+"/report-has-room", c.eventSite(e),
				"the goroutine may wait for ever for a place in the channel, which is read after the wait only: capacity "+describe(size))
		}
	}
}

// receivedBeside: something receives from the channel while the goroutine may run.
func (in *Interp) receivedBeside(g *goRun, ch *Term) bool {
	for _, e := range in.Events {
		if e.Kind != "recv" || e.Args[0] != ch {
			continue
		}
		if e.InGo || in.ghost(e.St, mk("fa", "$wg", g.wg)) != ghostNone {
			return true
		}
	}
	return false
}

// isSum: a linear term over lengths and inputs.
func isSum(t *Term) bool {
	ok := true
	walkDeep(t, func(x *Term) bool {
		switch x.op {
		case "mu", "muv", "choice", "app", "weak":
			ok = false
		}
		return ok && x.op != "len"
	})
	return ok
}
