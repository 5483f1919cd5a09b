package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C05: operations leave what they are given unchanged.

func init() {
	register("C05", "every in-place change of a scalar, group element, field, element or map entry during the operation must reach only objects the operation itself created (access-path roots of the target, through aliases, alternatives and loop-carried pointers)", checkC05)
}

// roots: the inputs and globals a pointer, address, slice or map may belong to.
func (in *Interp) roots(t *Term) map[*Term]bool {
	r := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "in", "glob", "gaddr":
			r[t] = true
		case "obj":
			if o := in.objs[t.sym]; o != nil {
				for _, a := range o.aliases {
					rec(a)
				}
			}
		case "choice":
			_, alts := choiceAlts(t)
			for _, a := range alts {
				rec(a)
			}
		case "mu", "muv":
			if d := muDefs[t.sym]; d != nil && d.next != nil {
				rec(d.init)
				rec(d.next)
			}
			for _, a := range t.args[1:] {
				rec(a)
			}
		case "el", "mget", "sub", "slice", "ea", "fld", "fa", "mkif", "vc", "bk", "mc", "valc":
			if len(t.args) > 0 {
				rec(t.args[0])
			}
		case "lit", "cat", "tuple", "struct":
			for _, a := range t.args {
				rec(a)
			}
		case "sto", "msto":
			rec(t.args[0])
			rec(t.args[2])
		case "lsto", "mlsto":
			rec(t.args[0])
			rec(t.args[3])
		case "lcat":
			rec(t.args[0])
			rec(t.args[2])
		case "cpy":
			rec(t.args[0])
			rec(t.args[2])
		case "mkseq":
			rec(t.args[1])
		case "mkeep":
			rec(t.args[0])
		}
	}
	rec(t)
	return r
}

// effect is a change of something that was not created by the analysed operation.
type effect struct {
	ev   *Event
	root *Term
	what string
}

// foreignEffects: the changes an analysis run makes to its inputs and to globals.
func (c *Ctx) foreignEffects(r *result) []effect {
	var out []effect
	add := func(e *Event, target *Term, what string) {
		for root := range r.in.roots(target) {
			out = append(out, effect{e, root, what})
		}
	}
	for _, e := range r.in.Events {
		switch e.Kind {
		case "mutate":
			add(e, e.Args[0], "changes in place ("+e.Name+") "+describe(e.Args[0]))
		case "store":
			if lazyFill(r.in, e) {
				continue
			}
			if e.Args[0].op == "gaddr" && e.Fn != nil && c.onlyOnce(e.Fn) {
				continue // a package variable set by its initialiser, which happens to run late
			}
			add(e, e.Args[0], "assigns to "+describe(e.Args[0]))
		case "mapupd", "mapdel":
			add(e, e.Args[0], "changes the map "+describe(e.Args[0]))
		case "copy":
			add(e, e.Args[0], "copies into "+describe(e.Args[0]))
		case "sort":
			add(e, e.Args[0], "reorders "+describe(e.Args[0]))
		case "putint":
			add(e, e.Args[0], "writes into "+describe(e.Args[0]))
		case "append":
			// appending to a shortened view overwrites the elements behind it
			for _, s := range appendBases(e.Args[0]) {
				if s.op != "slice" {
					// the room behind the last element may belong to another slice, or be used by another thread
					if !nothing(r.in, e) {
						add(e, s, "appends to "+describe(s)+", in its array when there is room")
					}
					continue
				}
				bk, off, n := sliceParts(s)
				full := lenOf(initialOf2(bk))
				if bk.op == "bk" && s.sym != "full" && !nothing(r.in, e) {
					// an input up to its last element: as above
					add(e, bk, "appends to a view of "+describe(bk)+", in its array when there is room")
					continue
				}
				if s.sym == "full" || entails(e.St.factList(), ge0(subT(add2(off, n), full))) {
					continue
				}
				add(e, bk, "appends to a shortened view of "+describe(bk))
			}
		}
	}
	return out
}

// appendBases: the slices, other than results of the operation itself, an append may extend in place.
func appendBases(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "slice", "in", "fld", "el", "mget", "glob":
			out = append(out, t)
		case "choice":
			_, alts := choiceAlts(t)
			for _, a := range alts {
				rec(a)
			}
		case "mu", "muv":
			if d := muDefs[t.sym]; d != nil && d.next != nil {
				rec(d.init)
				rec(d.next)
			}
		}
	}
	rec(t)
	return out
}

// nothing: the append adds no element.
func nothing(in *Interp, e *Event) bool {
	return entails(e.St.factList(), eqInt(lenOf(in.seq(e.St, e.Args[1])), zeroInt))
}

func add2(a, b *Term) *Term { return add(a, b) }

// lazyFill: a field that is still empty gets its value (a cache of something derived).
func lazyFill(in *Interp, e *Event) bool {
	a := e.Args[0]
	if a.op != "fa" {
		return false
	}
	if st, ok := e.Instr.(*ssa.Store); ok {
		if _, isMap := st.Val.Type().Underlying().(*types.Map); isMap {
			return false
		}
	}
	old := in.cell(e.St, a)
	if old == nil {
		old = initialOf(a)
	}
	if old == nil {
		return false
	}
	fs := e.St.factList()
	return has(fs, eqTerm(old, tNil)) || entails(fs, eqInt(lenOf(old), zeroInt))
}

func describe(t *Term) string {
	s := t.String()
	if r := []rune(s); len(r) > 80 {
		s = string(r[:80]) + "…"
	}
	return s
}

func (c *Ctx) eventSite(e *Event) string {
	return c.p.pos(e.Pos) + " " + e.Fn.String()
}

// pureOps: the operations that must not change what they are given.
func (c *Ctx) pureOps() []*ssa.Function {
	var r []*ssa.Function
	for _, tn := range []string{"Vec", "G1v", "G2v"} {
		n := c.p.Named("common", tn)
		if n == nil {
			c.lose("no type common.%s", tn)
			continue
		}
		for i := 0; i < n.NumMethods(); i++ {
			if m := n.Method(i); m.Exported() && m.Name() != "Zero" { // Zero is defined to overwrite
				if f := c.p.Method("common", tn, m.Name()); f != nil {
					r = append(r, f)
				}
			}
		}
	}
	add := func(f *fnRef) {
		if f != nil {
			r = append(r, f.fn)
		}
	}
	for _, n := range []string{"NegZr", "PowerSeries", "Bits", "BitsBigEndian", "FieldElementFromBytes", "HashToG1"} {
		if f := c.p.Fn("common", n); f != nil {
			r = append(r, f)
		}
	}
	for _, n := range []string{"Commit", "Open", "Verify", "Aggregate", "VerifyAggregation", "RO"} {
		add(c.fn("pp", n))
	}
	for _, n := range []string{"NewAggregatedArgument", "NewArgument", "NewCommitment"} {
		add(c.fn("sum", n))
	}
	add(c.method("sum", "Proof", "Verify"))
	add(c.method("sum", "Proof", "VerifyAggregated"))
	for _, n := range []string{"ProveRange", "VerifyRange", "IterativeReduce", "IterativeVerify", "NewInnerProdArgument"} {
		add(c.fn("bp", n))
	}
	add(c.method("bp", "InnerProdArgument", "Prove"))
	add(c.method("bp", "InnerProductProof", "Verify"))
	for _, t := range []string{"Equalities", "Equality"} {
		add(c.method("poe", t, "Prove"))
		add(c.method("poe", t, "Verify"))
	}
	add(c.fn("poe", "RO"))
	add(c.method("pol", "LiabilityProof", "Verify"))
	add(c.method("pol", "TotalProof", "Verify"))
	add(c.method("pol", "LiabilitySet", "ProveLiability"))
	add(c.method("pol", "LiabilitySet", "ProveTot"))
	add(c.method("pol", "LiabilitySet", "Root"))
	add(c.method("pol", "LiabilitySet", "Get"))
	add(c.method("verkle", "Vertices", "SumArgument"))
	add(c.method("verkle", "Vertex", "Values"))
	add(c.method("verkle", "Vertex", "Bytes"))
	add(c.method("verkle", "Vertex", "Digest"))
	return r
}

func checkC05(c *Ctx) {
	for _, f := range c.pureOps() {
		r := c.analyse(f)
		seen := map[*Event]bool{}
		bad := map[*Event]effect{}
		for _, e := range c.foreignEffects(r) {
			bad[e.ev] = e
		}
		for _, e := range r.in.Events {
			switch e.Kind {
			case "mutate", "store", "mapupd", "mapdel", "copy", "sort", "append", "putint":
			default:
				continue
			}
			if seen[e] {
				continue
			}
			seen[e] = true
			b, isBad := bad[e]
			msg := ""
			if isBad {
				msg = fmt.Sprintf("%s %s, reachable from %s", shortFn(f), b.what, describe(b.root))
			}
			c.oblige(!isBad, fmt.Sprintf("%s/%s", shortFn(f), e.Kind), c.eventSite(e), msg)
		}
		if len(seen) == 0 {
			c.oblige(true, shortFn(f)+"/no-writes", c.siteOf(f), "")
		}
	}
}
