package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// session analyses several calls one after the other on the same abstract state.
type session struct {
	c  *Ctx
	in *Interp
	st *State
	n  int
}

func (c *Ctx) session(atomic ...*ssa.Function) *session {
	s := &session{c: c, in: NewInterp(c.p), st: &State{}}
	for _, f := range atomic {
		if f != nil {
			s.in.atomic[f.String()] = true
		}
	}
	return s
}

func (s *session) call(fn *ssa.Function, args ...*Term) *Term {
	s.c.analysed(fn)
	s.n++
	r := s.in.CallFn(nil, s.st, fn, args, nil, "")
	for f := range s.in.Funcs {
		s.c.funcs[f] = true
	}
	return r
}

// events since the n-th.
func (s *session) since(n int, kinds ...string) []*Event {
	var r []*Event
	for _, e := range s.in.Events[n:] {
		for _, k := range kinds {
			if e.Kind == k {
				r = append(r, e)
			}
		}
	}
	return r
}

// dbTypes: the repository's own implementations of the database interface (package bench excluded).
func (c *Ctx) dbTypes() (gets, puts []*ssa.Function) {
	for _, f := range c.p.Functions("bench") {
		sig := f.Signature
		if sig.Recv() == nil || f.Parent() != nil {
			continue
		}
		if f.Pkg == nil || f.Pkg.Pkg.Name() == "bench" {
			continue
		}
		np, nr := sig.Params().Len(), sig.Results().Len()
		bytes := func(t types.Type) bool { return typeName(t) == "[]byte" }
		switch {
		case f.Name() == "Get" && np == 1 && nr == 1 && bytes(sig.Params().At(0).Type()) && bytes(sig.Results().At(0).Type()):
			gets = append(gets, f)
		case f.Name() == "Put" && np == 2 && nr == 0 && bytes(sig.Params().At(0).Type()) && bytes(sig.Params().At(1).Type()):
			puts = append(puts, f)
		}
	}
	return
}
