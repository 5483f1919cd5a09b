package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C16: element-wise vector operations.

func init() {
	register("C16", "length facts that hold whenever a binary vector operation returns normally, and dependence of its result on every position of both operands, each at its own position", checkC16)
}

// isVector: a slice of scalars or group elements.
func isVector(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = isMathPtr(s.Elem())
	return ok
}

// isOperand: a vector, or a sequence of numbers selecting from one.
func isOperand(t types.Type) bool {
	if isVector(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func lenT(s *Term) *Term { return lenOf(s) }

func checkC16(c *Ctx) {
	var fns []*ssa.Function
	for _, tn := range []string{"Vec", "G1v", "G2v"} {
		n := c.p.Named("common", tn)
		if n == nil {
			c.lose("no type common.%s", tn)
			continue
		}
		for i := 0; i < n.NumMethods(); i++ {
			m := n.Method(i)
			if !m.Exported() {
				continue
			}
			if f := c.p.Method("common", tn, m.Name()); f != nil {
				fns = append(fns, f)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	n := 0
	for _, f := range fns {
		var ops []int
		for i, p := range f.Params {
			if i == 0 || isOperand(p.Type()) {
				ops = append(ops, i)
			}
		}
		if len(ops) != 2 || !isOperand(f.Params[0].Type()) {
			continue
		}
		n++
		c.elementwise(f, ops[0], ops[1])
	}
	if n == 0 {
		c.lose("no binary vector operation found")
	}
	// aggregation of openings: one proof per commitment
	if r := c.fn("pp", "Aggregate"); r != nil {
		var ops []int
		for i, p := range r.fn.Params {
			if isVector(p.Type()) {
				ops = append(ops, i)
			}
		}
		if len(ops) == 2 {
			res := c.analyse(r.fn)
			c.sameLength(res, ops[0], ops[1])
		}
	}
	if r := c.fn("pp", "Commit"); r != nil {
		res := c.analyse(r.fn)
		if p, m := paramOf(res, "*pp.PP", 0), paramOf(res, "common.Vec", 0); p != nil && m != nil {
			fs := res.st.factList()
			c.oblige(res.dead || entails(fs, eqInt(lenT(m), fld(p, "N"))), "pp.Commit/length", c.siteOf(r.fn),
				"a vector whose length is not the one of the parameters is committed to")
		}
	}
}

func (c *Ctx) sameLength(r *result, i, j int) bool {
	a, b := r.args[i], r.args[j]
	name := shortFn(r.fn)
	fs := r.st.factList()
	g := eqInt(lenT(a), lenT(b))
	return c.oblige(r.dead || entails(fs, g), name+"/length", c.siteOf(r.fn), name+" does not refuse operands of different lengths")
}

func shortFn(f *ssa.Function) string {
	return f.RelString(nil)
}

func (c *Ctx) elementwise(f *ssa.Function, i, j int) {
	r := c.analyse(f)
	if r.dead {
		return
	}
	a, b := r.args[i], r.args[j]
	res := r.ret
	resT := f.Signature.Results()
	if resT.Len() != 1 {
		return
	}
	fs := r.st.factList()
	name := shortFn(f)
	isSeq := isVector(resT.At(0).Type())
	var seq *Term
	if isSeq {
		seq = r.in.deep(r.st, res, resT.At(0).Type(), 0)
		// concatenations are not element-wise
		if n := lenOf(seq); same(fs, n, add(lenT(a), lenT(b))) && !entails(fs, eqInt(lenT(a), lenT(b))) {
			d := in("δ")
			for k, o := range []*Term{a, b} {
				at := d
				if k == 1 {
					at = add(d, lenT(a))
				}
				g := with(fs, ge0(d), lt(d, lenT(o)))
				q := newQuery(elAt(o, d), false, g)
				c.oblige(q.ask(elAt(seq, at)), name+"/operand"+itoa(k), c.siteOf(f), name+" does not keep every element at its place")
			}
			return
		}
	}
	c.sameLength(r, i, j)
	d := in("δ")
	val := res
	if isSeq {
		c.oblige(entails(fs, eqInt(lenOf(seq), lenT(a))), name+"/result-length", c.siteOf(f), name+" returns a vector of another length")
		val = elAt(seq, d)
	} else if _, ok := isMathPtr(resT.At(0).Type()); ok {
		val = r.in.deep(r.st, res, resT.At(0).Type(), 0)
	}
	val = newResolver(saturate(with(fs, ge0(d), lt(d, lenT(a))), []*Term{d})).head(val)
	for k, o := range []*Term{a, b} {
		g := with(fs, ge0(d), lt(d, lenT(o)))
		g = saturate(g, []*Term{d})
		q := newQuery(elAt(o, d), false, g)
		ok := q.ask(val)
		if !ok {
			// an element may be left out where the other operand says so
			ok = c.skippable(q, val)
		}
		if !ok && !isVector(r.fn.Params[[]int{i, j}[k]].Type()) {
			ok = selects(val, o, d)
		}
		c.oblige(ok, name+"/operand"+itoa(k), c.siteOf(f), name+" does not use every position of its operands")
	}
	if !isSeq {
		// products pair elements of one position
		ok := true
		visit(val, fs, nil, func(t *Term, conds []*Term) {
			if t.op != "app" {
				return
			}
			var x, y *Term
			for _, e := range t.args {
				if k := indexIn(e, a); k != nil {
					x = k
				}
				if k := indexIn(e, b); k != nil {
					y = k
				}
			}
			if x != nil && y != nil && !entails(conds, eqInt(x, y)) {
				ok = false
			}
		})
		c.oblige(ok, name+"/pairing", c.siteOf(f), name+" combines elements of different positions")
	}
	if isSeq {
		// no other position takes part
		e := in("ε")
		for k, o := range []*Term{a, b} {
			g := with(fs, ge0(d), lt(d, lenT(o)), ge0(e), lt(e, lenT(o)), not(eqInt(d, e)))
			q := newQuery(elAt(o, e), false, g)
			c.oblige(!q.ask(val), name+"/position"+itoa(k), c.siteOf(f), name+" combines elements of different positions")
		}
	}
}

// skippable: every alternative of the value that ignores the element is a constant chosen by a test of
// one of the operands' elements.
func (c *Ctx) skippable(q *query, val *Term) bool {
	if val.op != "choice" {
		return false
	}
	params, alts := choiceAlts(val)
	any := false
	for k, a := range alts {
		es := edgeFacts(val.sym, params, k)
		s := with(q.facts, es...)
		qq := newQuery(q.p, q.cut, s)
		if qq.ask(a) {
			any = true
			continue
		}
		dep := false
		for _, e := range es {
			if !isLinear(e) {
				dep = true
			}
			walk(e, func(x *Term) bool {
				if x.op == "el" {
					dep = true
				}
				return true
			})
		}
		if !dep || !isConstTerm(a) && !isConstant(a) {
			return false
		}
	}
	return any
}

// selects: which value is taken depends on element d of the sequence o.
func selects(val, o, d *Term) bool {
	if val.op != "choice" {
		return false
	}
	params, alts := choiceAlts(val)
	for k := range alts {
		hit := false
		for _, e := range edgeFacts(val.sym, params, k) {
			if mentions(e, elAt(o, d)) {
				hit = true
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

func isConstant(t *Term) bool {
	ok := true
	walkDeep(t, func(x *Term) bool {
		if x.op == "in" {
			ok = false
		}
		return ok
	})
	return ok
}
