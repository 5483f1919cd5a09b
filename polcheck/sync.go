package main

import (
	"golang.org/x/tools/go/ssa"
)

// Goroutines, wait groups and locks. The body of a goroutine is analysed at the place where it is
// started; ghost cells record what the rest of the program knows about it:
//
//	fa($wg, w)   "pending" while a goroutine that signals w may still run, "none" after w.Wait
//	fa($cnt, w)  the counter of w
//	$sig         whether the goroutine being analysed has signalled its end
//	$lock        the lock held

var (
	sigCell   = mk("gaddr", "$sig")
	lockCell  = mk("gaddr", "$lock")
	ghostNone = mk("str", "none")
	ghostPend = mk("str", "pending")
	ghostDone = mk("str", "done")
)

func (in *Interp) ghost(st *State, a *Term) *Term {
	if v := in.cell(st, a); v != nil && v != initialOf2(a) {
		return v
	}
	return ghostNone
}

func (in *Interp) mark(st *State, cell, v *Term) {
	if in.goDepth > 0 {
		in.setCell(st, cell, v)
	}
}

func (in *Interp) bump(st *State, wg, n *Term) {
	a := mk("fa", "$cnt", wg)
	in.setCell(st, a, add(in.count(st, wg), n))
}

func (f *frame) goroutine(st *State, instr ssa.Instruction, c *ssa.CallCommon, run func()) {
	in := f.in
	var args []*Term
	if c != nil {
		args = append(args, f.eval(c.Value))
		for _, a := range c.Args {
			args = append(args, f.eval(a))
		}
	}
	in.event(f, st, "go", instr, "", args...)
	sig, lock := in.ghost(st, sigCell), in.ghost(st, lockCell)
	in.setCell(st, sigCell, ghostNone)
	in.setCell(st, lockCell, ghostNone)
	in.goDepth++
	run()
	in.goDepth--
	if st.dead {
		return
	}
	in.event(f, st, "goend", instr, "", in.ghost(st, sigCell), in.ghost(st, lockCell))
	in.setCell(st, sigCell, sig)
	in.setCell(st, lockCell, lock)
}

// count: the counter of a wait group; a wait group starts at zero.
func (in *Interp) count(st *State, wg *Term) *Term {
	a := mk("fa", "$cnt", wg)
	v := in.cell(st, a)
	if v == nil {
		return zeroInt
	}
	return subst(v, map[*Term]*Term{initialOf2(a): zeroInt})
}

// finished: Done of a wait group.
func (in *Interp) finished(f *frame, st *State, instr ssa.Instruction, wg *Term) {
	in.bump(st, wg, intT(-1))
	in.event(f, st, "wgdone", instr, "", wg, in.count(st, wg))
	if in.goDepth > 0 {
		in.setCell(st, mk("fa", "$wg", wg), ghostPend)
		in.setCell(st, sigCell, ghostDone)
	}
}

func (in *Interp) synchronise(f *frame, st *State, instr ssa.Instruction, recv, name string, args []*Term) {
	if len(args) == 0 {
		return
	}
	switch recv {
	case "WaitGroup":
		switch name {
		case "Add":
			in.bump(st, args[0], stripConv(args[1]))
			in.event(f, st, "wgadd", instr, "", args[0], args[1])
		case "Done":
			in.finished(f, st, instr, args[0])
		case "Wait":
			in.event(f, st, "wgwait", instr, "", args[0], in.count(st, args[0]))
			if in.goDepth == 0 {
				in.setCell(st, mk("fa", "$wg", args[0]), ghostNone)
			}
		}
	case "Mutex", "RWMutex":
		switch name {
		case "Lock", "RLock":
			in.setCell(st, lockCell, args[0])
		case "Unlock", "RUnlock":
			in.setCell(st, lockCell, ghostNone)
		}
	}
}
