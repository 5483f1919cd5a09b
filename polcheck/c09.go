package main

import (
	"fmt"
	"go/types"
)

// C09: negative amounts are never recorded or accepted.

func init() {
	register("C09", "sign facts: every effect of recording a liability (assignment, map update, database write) and its normal return are reachable only when the amount is non-negative; every accepting return of the proof verifiers implies that each claimed amount of the proof is non-negative, and so does the return of the total prover for the total", checkC09)
}

// signedFields: access paths of the signed integer fields of a proof type.
func signedFields(t types.Type, base *Term, depth int) []*Term {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 3 || mathName(t) != "" {
		return nil
	}
	var out []*Term
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		x := fld(base, s.Field(i).Name())
		if b, ok := ft.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 {
				out = append(out, x)
			}
			continue
		}
		out = append(out, signedFields(ft, x, depth+1)...)
	}
	return out
}

func checkC09(c *Ctx) {
	for _, tn := range []string{"TotalProof", "LiabilityProof"} {
		m := c.method("pol", tn, "Verify")
		if m == nil {
			continue
		}
		r := c.analyse(m.fn)
		fs := r.accepting()
		if r.dead {
			continue
		}
		fields := signedFields(m.fn.Params[0].Type(), r.args[0], 0)
		if len(fields) == 0 {
			c.lose("no amount in %s", tn)
		}
		for _, f := range fields {
			c.oblige(entails(fs, ge0(f)), tn+"/"+f.String(), c.siteOf(m.fn), "a proof whose "+f.String()+" is negative can be accepted")
		}
	}
	// the total that is proved: the conversion of a sum of 64 bits wraps around
	if m := c.method("pol", "LiabilitySet", "ProveTot"); m != nil {
		r := c.analyse(m.fn)
		if !r.dead {
			fs := r.st.factList()
			ret, rt := r.ret, m.fn.Signature.Results().At(0).Type()
			if p, ok := rt.Underlying().(*types.Pointer); ok {
				ret, rt = r.in.val(r.st, ret), p.Elem()
			}
			fields := signedFields(rt, ret, 0)
			if len(fields) == 0 {
				c.lose("no amount in a total proof")
			}
			for _, f := range fields {
				c.oblige((entails(fs, ge0(f)) || entails(fs, ge0(resolve(fs, f)))), "ProveTot/total", c.siteOf(m.fn), "the total that is proved may be negative: "+f.String())
			}
		}
	}
	set := c.method("pol", "LiabilitySet", "Set")
	if set == nil {
		return
	}
	r := c.analyseWith(set.fn, entryArgs(set.fn), func(in *Interp, _ *State) { in.unwind = true })
	var amount []*Term
	for i, p := range set.fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			amount = append(amount, r.args[i])
		}
	}
	if len(amount) != 1 {
		c.lose("Set does not take one amount")
		return
	}
	a := amount[0]
	n := 0
	for _, e := range r.in.Events {
		switch e.Kind {
		case "dbput", "mapupd", "mapdel", "mutate", "go":
		case "store":
			// objects the call itself creates are not the tree
			if len(r.in.roots(e.Args[0])) == 0 {
				continue
			}
		default:
			continue
		}
		n++
		c.oblige(entails(e.St.factList(), ge0(a)), "Set/"+e.Kind, c.eventSite(e), fmt.Sprintf("%s happens although the amount may be negative", e.Kind))
	}
	if n == 0 {
		c.lose("Set has no effect")
	}
	c.oblige(r.dead || entails(r.st.factList(), ge0(a)), "Set/return", c.siteOf(set.fn), "recording a negative amount is not refused")
}
