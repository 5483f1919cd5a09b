package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: a stored vertex commits to what it stores.

func init() {
	register("C06", "value analysis of vertex updates: the commitment of the vertex written to the database is decomposed into generator times scalar; for a generic slot the scalar is compared with what the vertex stores for that slot (value or digest of the child, sum, blinding factor, zero), the sum with the stored values, stored values and digests with the child's current record, and the vertex is written under its own key on every way out; created and extended vertices, above leaves and above vertices", checkC06)
}

func checkC06(c *Ctx) {
	for _, r := range c.updateRuns() {
		if r.s.st.dead {
			c.lose("%s never returns", shortFn(r.upd))
			continue
		}
		(&vertexCheck{c: c, r: r, s: r.s}).check()
	}
}

// vertexCheck compares a stored vertex with its commitments.
type vertexCheck struct {
	c *Ctx
	r *updateRun
	s *session

	w    storedVertex
	key  string
	site string
	n    *Term   // number of slots
	fs   []*Term // facts where the vertex is stored
	own  *Term   // record stored under the vertex's own key
	rec  *Term   // record that is written

	sum, blind, values, digests *Term
	canon                       map[*Term]*Term // maps of pointers to maps of values
	zrT                         types.Type
}

var tAbsent = app("absent")

func (v *vertexCheck) check() {
	c, r := v.c, v.r
	v.key = "vertex/" + r.label()
	ws := r.stored()
	if len(ws) == 0 {
		c.lose("the vertex that %s stores is not found", shortFn(r.upd))
		return
	}
	// written on every way out, under the vertex's own key
	w := ws[len(ws)-1]
	v.w, v.site = w, c.eventSite(w.ev)
	cell := v.s.in.cell(v.s.st, mk("fa", "$db", w.put.Args[0]))
	ok := cell != nil && cell.op == "msto" && cell.args[1] == dbKey(v.s.in.seq(v.s.st, r.key)) && cell.args[2] == w.put.Args[2]
	c.oblige(ok && len(ws) == 1, v.key+"/written", v.site, "the updated vertex is not written to the database under its own key on every way out")
	ret := r.ret
	for ret.op == "mkif" {
		ret = ret.args[0]
	}
	c.oblige(stripConv(ret) == r.key, v.key+"/key", v.site, "the update does not hand the key of the vertex to its parent: "+describe(ret))

	if r.pp == nil {
		c.lose("public parameters of the tree")
		return
	}
	v.n = v.s.in.load(w.ev.St, fieldAddr(r.pp, "N"), types.Typ[types.Int])
	v.fs = w.ev.St.factList()
	v.rec = w.put.Args[2]
	var V, W *Term
	var raw []*Term
	v.canon = map[*Term]*Term{}
	for _, fl := range fieldTypesOf(w.typ) {
		x := func() *Term { return w.field(v.s, fl.Name(), fl.Type()) }
		switch {
		case mathPtr(fl.Type()) == "Zr" && fl.Name() == "BlindingFactor":
			v.blind, v.zrT = x(), fl.Type()
		case mathPtr(fl.Type()) == "Zr":
			v.sum = x()
		case mathPtr(fl.Type()) == "G1" && fl.Name() == "V":
			V = x()
		case mathPtr(fl.Type()) == "G1" && fl.Name() == "W":
			W = x()
		default:
			if _, ok := fl.Type().Underlying().(*types.Map); ok {
				m := v.s.in.content(w.ev.St, v.s.in.load(w.ev.St, fieldAddr(w.obj, fl.Name()), fl.Type()))
				raw = append(raw, m)
				v.canon[m] = v.s.in.valc(w.ev.St, m)
				if fl.Name() == "Digests" {
					v.digests = v.s.in.valc(w.ev.St, m)
				} else {
					v.values = v.s.in.valc(w.ev.St, m)
				}
			}
		}
	}
	if v.blind == nil || v.sum == nil || V == nil || W == nil || v.values == nil || v.digests == nil {
		c.lose("fields of %s", w.typ)
		return
	}
	for _, x := range []*Term{V, v.sum, v.blind} {
		c.oblige(occurs(v.rec, x), v.key+"/record", v.site, "what is written to the database is not the updated vertex: "+describe(x))
	}
	for _, m := range raw {
		if m.op != "mkmap" {
			c.oblige(occurs(v.rec, m), v.key+"/record", v.site, "what is written to the database is not the updated vertex: "+describe(m))
		}
	}
	if !r.create {
		// what is assumed of the vertex that is extended: entries at child slots only, of values and digests alike
		v.own = v.baseOf(v.values)
		if v.own != nil {
			for k := int64(1); k <= 2; k++ {
				v.fs = append(v.fs, not(mapHas(v.own, add(v.n, intT(-k)))))
			}
		}
		v.fs = append(v.fs, inRange(r.index, add(v.n, intT(-2)))...)
	}
	v.commitment("V", V, v.values, v.sum, v.blind)
	if !r.leaves {
		zero := app("Curve.NewZrFromInt", in("c"), zeroInt)
		v.commitment("W", W, v.digests, zero, zero)
	}
	v.entries()
	v.total()
}

func occurs(t, x *Term) bool {
	r := false
	walkDeep(t, func(y *Term) bool {
		if y == x {
			r = true
		}
		return !r
	})
	return r
}

// baseOf: the map decoded from the vertex's own record that the map extends.
func (v *vertexCheck) baseOf(m *Term) *Term {
	for m.op == "msto" {
		m = m.args[0]
	}
	if m.op != "mlsto" && m.op != "fld" && m.op != "app" {
		return nil
	}
	if len(v.recordsIn(m)) == 1 && v.recordsIn(m)[0] == dbKey(v.s.in.seq(v.s.st, v.r.key)) {
		return m
	}
	return nil
}

// recordsIn: keys of the database records a term is made of.
func (v *vertexCheck) recordsIn(t *Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	walkDeep(t, func(x *Term) bool {
		if x.op == "mget" {
			b := x.args[0]
			for b.op == "msto" {
				b = b.args[0]
			}
			if b.op == "db" {
				if !seen[x.args[1]] {
					seen[x.args[1]] = true
					r = append(r, x.args[1])
				}
				return false
			}
		}
		return true
	})
	return r
}

// mapAt: what a map holds for a key: absent, a value, a choice of these, or mget for a map of which
// nothing is known.
func (v *vertexCheck) mapAt(fs []*Term, m, j *Term) *Term {
	m = newResolver(fs).head(m)
	switch m.op {
	case "mkmap":
		return tAbsent
	case "msto":
		e := eqInt(stripConv(m.args[1]), j)
		if entails(fs, e) {
			return v.kept(fs, m.args[2])
		}
		if contradicts(fs, e) {
			return v.mapAt(fs, m.args[0], j)
		}
	case "mlsto":
		lv := loopVar(m.sym)
		if k := solve(stripConv(m.args[2]), j, lv); k != nil {
			g := newResolver(fs)
			if g.inRange(k, m.args[1]) {
				return v.kept(fs, subst(m.args[3], map[*Term]*Term{lv: k}))
			}
			if g.outRange(k, m.args[1]) {
				return v.mapAt(fs, m.args[0], j)
			}
		}
	case "choice":
		return mapChoice(m, func(x *Term) *Term { return v.mapAt(fs, x, j) })
	}
	return mk("mget", "", m, j)
}

func (v *vertexCheck) kept(fs []*Term, x *Term) *Term {
	switch x.op {
	case "mkeep":
		return v.mapAt(fs, x.args[0], x.args[1])
	case "choice":
		return mapChoice(x, func(y *Term) *Term { return v.kept(fs, y) })
	}
	return v.s.in.deep(v.w.ev.St, x, v.zrT, 0)
}

// mapOf: the map of values for a map of pointers.
func (v *vertexCheck) mapOf(m *Term) *Term {
	if c := v.canon[m]; c != nil {
		return c
	}
	return m
}

// presence: the fact that a map of which nothing is known has an entry (values and digests of one record alike).
func (v *vertexCheck) presence(m, j *Term) *Term {
	if v.own != nil && v.baseOf(m) == m {
		m = v.own
	}
	return mk("mhas", "", m, j)
}

// norm rewrites facts on the presence of map entries.
func (v *vertexCheck) norm(fs []*Term, f *Term) *Term {
	if f.op == "not" {
		return not(v.norm(fs, f.args[0]))
	}
	var m, k *Term
	nonnil := false
	switch {
	case f.op == "mhas":
		m, k = f.args[0], f.args[1]
	case f.op == "eq" && (f.args[0] == tNil || f.args[1] == tNil):
		x := f.args[0]
		if x == tNil {
			x = f.args[1]
		}
		if x.op != "mget" || !isMapTerm(x.args[0]) {
			return f
		}
		m, k, nonnil = x.args[0], x.args[1], true
	default:
		return f
	}
	x := v.mapAt(fs, m, stripConv(k))
	var p *Term
	switch {
	case x == tAbsent:
		p = tFalse
	case x.op == "mget":
		p = v.presence(x.args[0], x.args[1])
	case x.op == "choice":
		return f
	default:
		p = tTrue
	}
	if nonnil {
		return not(p)
	}
	return p
}

func isMapTerm(m *Term) bool {
	for m.op == "msto" {
		m = m.args[0]
	}
	return m.op != "db"
}

// impossible: the facts more contradict fs.
func impossible(fs, more []*Term) bool {
	var lins []*Term
	for _, f := range more {
		if f == tFalse || has(fs, not(f)) || has(more, not(f)) {
			return true
		}
		if isLinear(f) && f != tTrue {
			lins = append(lins, f)
		}
	}
	return len(lins) > 0 && refute(append(relevant(fs, lins), lins...))
}

// split continues with every feasible alternative of a choice.
func (v *vertexCheck) split(fs []*Term, ch *Term, terms []*Term, f func(fs, terms []*Term) string) string {
	params, alts := choiceAlts(ch)
	for k := range alts {
		if !edgeOK(fs, ch.sym, params, k) {
			continue
		}
		nfs := append([]*Term(nil), fs...)
		dead := false
		for _, e := range edgeFacts(ch.sym, params, k) {
			g := v.norm(fs, e)
			if g == tFalse || has(nfs, not(g)) {
				dead = true
			}
			nfs = append(nfs, e, g)
		}
		if dead || impossible(fs, nfs[len(fs):]) {
			continue
		}
		nt := make([]*Term, len(terms))
		for i, t := range terms {
			nt[i] = decide(t, ch.sym, params, k)
		}
		if why := f(nfs, nt); why != "" {
			return why
		}
	}
	return ""
}

// decide replaces the choices of a token by the alternative taken.
func decide(t *Term, tok string, params []*Term, k int) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if t.op == "choice" && t.sym == tok {
			ps, as := choiceAlts(t)
			same := len(ps) == len(params)
			for i := range ps {
				if same && ps[i] != params[i] {
					same = false
				}
			}
			if same && k < len(as) {
				r = rec(as[k])
				memo[t] = r
				return r
			}
		}
		switch t.op {
		case "mu", "muv", "all", "lsto", "lcat", "mlsto":
		default:
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			if ch {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// slot: the scalar x equals what is expected for a slot ("" or what is wrong).
func (v *vertexCheck) slot(fs []*Term, x, e *Term, d int) string {
	if d > 12 {
		return ""
	}
	x = v.value(fs, x)
	if x == e {
		return ""
	}
	switch {
	case x.op == "choice":
		return v.split(fs, x, []*Term{x, e}, func(fs, t []*Term) string { return v.slot(fs, t[0], t[1], d+1) })
	case e.op == "choice":
		return v.split(fs, e, []*Term{x, e}, func(fs, t []*Term) string { return v.slot(fs, t[0], t[1], d+1) })
	case e.op == "mget" && isMapTerm(e.args[0]):
		p := v.presence(e.args[0], e.args[1])
		if !has(fs, not(p)) && !has(fs, p) {
			if why := v.slot(with(fs, p), x, e, d+1); why != "" {
				return why
			}
			return v.slot(with(fs, not(p)), x, tAbsent, d+1)
		}
		if has(fs, not(p)) {
			e = tAbsent
		}
	}
	if e == tAbsent {
		if isZeroConst(x) || x.op == "mget" && x.args[0].op == "mkmap" {
			return ""
		}
		return "the vertex stores nothing, committed is " + describe(x)
	}
	if isZeroConst(x) && isZeroConst(e) || same(fs, x, e) {
		return ""
	}
	if x.op == "mget" && e.op == "mget" && same(fs, x.args[0], e.args[0]) && entails(fs, eqInt(stripConv(x.args[1]), stripConv(e.args[1]))) {
		return ""
	}
	return "the vertex stores " + describe(e) + ", committed is " + describe(x)
}

// value resolves a scalar, reading maps.
func (v *vertexCheck) value(fs []*Term, x *Term) *Term {
	x = resolve(fs, x)
	if x.op == "el" && x.args[0].op == "lsto" {
		// a vector filled by going over the map
		c := x.args[0]
		lv := loopVar(c.sym)
		if i := stripConv(c.args[2]); i.op == "mapkey" && len(i.args) == 2 && i.args[1] == lv {
			m := v.mapOf(i.args[0])
			got := v.mapAt(fs, m, x.args[1])
			if y := c.args[3]; y.op == "mget" && v.mapOf(y.args[0]) == m && stripConv(y.args[1]) == i {
				switch {
				case got == tAbsent:
					return v.value(fs, elAt(c.args[0], x.args[1]))
				case got.op == "mget" && isMapTerm(got.args[0]):
					p := v.presence(got.args[0], got.args[1])
					if has(fs, p) {
						return got
					}
					if has(fs, not(p)) {
						return v.value(fs, elAt(c.args[0], x.args[1]))
					}
				default:
					return got
				}
			}
		}
	}
	if x.op == "mget" && isMapTerm(x.args[0]) {
		y := v.mapAt(fs, x.args[0], stripConv(x.args[1]))
		if y != tAbsent {
			return y
		}
		return app("Curve.NewZrFromInt", in("nil"), tNil)
	}
	return x
}

// part of a sum that depends on the slot.
type slotPart struct {
	x     *Term   // scalar
	conds []*Term // when the part counts
	at    *Term   // the slot it counts for, if there is only one
}

// atSlot: the summands that count for slot j.
func (v *vertexCheck) atSlot(parts []slotPart, fs []*Term, expected func(fs []*Term, j *Term) *Term) string {
	j := in("slot")
	e := expected(fs, j)
	// none applies
	fs0 := fs
	var none func(i int, fs []*Term) string
	none = func(i int, fs []*Term) string {
		if impossible(fs0, fs[len(fs0):]) {
			return ""
		}
		if i == len(parts) {
			return v.slot(fs, app("Curve.NewZrFromInt", in("c"), zeroInt), e, 0)
		}
		for _, f := range parts[i].conds {
			g := v.norm(fs, not(f))
			if g == tFalse || has(fs, not(g)) || has(fs, f) {
				continue
			}
			if why := none(i+1, with(fs, not(f), g)); why != "" {
				return "no summand: " + why
			}
		}
		return ""
	}
	if why := none(0, fs); why != "" {
		return why
	}
	for i, p := range parts {
		nfs := append([]*Term(nil), fs...)
		dead := false
		for _, f := range p.conds {
			g := v.norm(fs, f)
			if g == tFalse || has(nfs, not(g)) {
				dead = true
			}
			nfs = append(nfs, f, g)
		}
		if dead || impossible(fs, nfs[len(fs):]) {
			continue
		}
		for j := i + 1; j < len(parts); j++ {
			if !impossible(fs, append(append([]*Term(nil), nfs[len(fs):]...), parts[j].conds...)) {
				return "two summands for one slot"
			}
		}
		e := e
		if p.at != nil {
			// facts and expectation at that slot
			s := map[*Term]*Term{j: p.at}
			for i, f := range nfs {
				nfs[i] = substIn(f, s)
			}
			e = expected(nfs, p.at)
		}
		if why := v.slot(nfs, p.x, e, 0); why != "" {
			return why
		}
	}
	return ""
}

// substIn replaces an input by a value.
func substIn(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// nonzero drops the conditions that only skip a part that adds nothing.
func (v *vertexCheck) nonzero(p slotPart) slotPart {
	var keep []*Term
	x := resolve(v.fs, p.x)
	for _, f := range p.conds {
		if f.op == "not" {
			g := f.args[0]
			if g.op == "app" && g.sym == "Zr.Equals" {
				a, b := resolve(v.fs, g.args[0]), resolve(v.fs, g.args[1])
				if isZeroConst(a) && b == x || isZeroConst(b) && a == x {
					continue
				}
			}
			if g.op == "app" && g.sym == "G1.IsInfinity" && (occurs(g, p.x) || occurs(g, x)) {
				continue
			}
		}
		keep = append(keep, f)
	}
	p.conds = keep
	return p
}

// generatorAt: position of a generator of the public parameters.
func (v *vertexCheck) generatorAt(base *Term) *Term {
	// an element of a copy that was not copied is nil, and nothing can be computed with it
	for base.op == "el" && base.args[0].op == "cpy" {
		c := base.args[0]
		if c.args[0].op != "mkseq" || c.args[0].args[1] != tNil {
			break
		}
		base = elAt(c.args[2], subT(base.args[1], c.args[1]))
	}
	if base.op == "el" && base.args[0] == fld(v.r.pp, "G1s") {
		return base.args[1]
	}
	return nil
}

func (v *vertexCheck) commitment(name string, C, m, sum, blind *Term) {
	c := v.c
	j := in("slot")
	fs0 := len(v.fs)
	fs := with(v.fs, inRange(j, v.n)...)
	var parts []slotPart
	for _, sm := range summands(v.fs, C) {
		p := v.generatorAt(sm.base)
		if p == nil || len(sm.factors) != 1 || len(sm.lvs) > 1 {
			c.oblige(false, v.key+"/"+name, v.site, fmt.Sprintf("%s is not a commitment with the public parameters: summand %s", name, describe(sm.base)))
			return
		}
		part := slotPart{x: sm.factors[0]}
		if len(sm.lvs) == 0 {
			part.conds = with(sm.fs[fs0:], eqInt(p, j))
			part.at = p
		} else {
			k := solve(p, j, sm.lvs[0])
			if k == nil {
				c.lose("%s: generator %s", v.key, describe(p))
				return
			}
			s := map[*Term]*Term{sm.lvs[0]: k}
			part.x = subst(part.x, s)
			for _, f := range sm.fs[fs0:] {
				part.conds = append(part.conds, subst(f, s))
			}
		}
		parts = append(parts, v.nonzero(part))
	}
	last, prev := add(v.n, intT(-1)), add(v.n, intT(-2))
	type kase struct {
		what string
		f    []*Term
		e    func(fs []*Term, j *Term) *Term
	}
	kases := []kase{
		{"last slot", []*Term{eqInt(j, last)}, func([]*Term, *Term) *Term { return blind }},
		{"slot after the last child", []*Term{eqInt(j, prev)}, func([]*Term, *Term) *Term { return sum }},
	}
	child := inRange(j, prev)
	at := func(fs []*Term, j *Term) *Term { return v.mapAt(fs, m, j) }
	if v.r.create {
		kases = append(kases, kase{"child slot", child, at})
	} else {
		i := v.r.index
		if v.own != nil {
			for k := range kases {
				kases[k].f = append(kases[k].f, not(mapHas(v.own, j)))
			}
		}
		kases = append(kases,
			kase{"slot of the updated child", with(child, eqInt(j, i)), at},
			kase{"slot before the updated child", with(child, lt(j, i)), at},
			kase{"slot after the updated child", with(child, lt(i, j)), at})
	}
	for _, k := range kases {
		kfs := with(fs, k.f...)
		why := v.atSlot(parts, kfs, k.e)
		c.oblige(why == "", v.key+"/"+name+"/"+k.what, v.site, fmt.Sprintf("%s of the stored vertex, %s: %s", name, k.what, why))
	}
}

// entries: stored values and digests are those of the current children, at child slots only.
func (v *vertexCheck) entries() {
	c := v.c
	j := in("slot")
	type kase struct {
		what string
		f    []*Term
	}
	child := inRange(j, add(v.n, intT(-2)))
	kases := []kase{{"child", child}}
	if !v.r.create {
		kases = []kase{{"updated child", with(child, eqInt(j, v.r.index))}, {"other child", with(child, not(eqInt(j, v.r.index)))}}
	}
	for _, k := range kases {
		fs := with(v.fs, k.f...)
		val, dig := v.mapAt(fs, v.values, j), v.mapAt(fs, v.digests, j)
		other := k.what == "other child"
		if v.r.leaves {
			dig = tAbsent
		}
		why := v.entry(fs, val, dig, j, other, 0)
		c.oblige(why == "", v.key+"/entries/"+k.what, v.site, "entry of the stored vertex for its "+k.what+": "+why)
	}
	for _, k := range []int64{-1, -2} {
		x := add(v.n, intT(k))
		for _, m := range []*Term{v.values, v.digests} {
			e := v.mapAt(v.fs, m, x)
			ok := e == tAbsent || e.op == "mget" && has(v.fs, not(v.presence(e.args[0], e.args[1])))
			c.oblige(ok, v.key+"/entries/extra", v.site, "the stored vertex has an entry for a slot that belongs to no child")
		}
	}
}

func (v *vertexCheck) entry(fs []*Term, val, dig, j *Term, other bool, d int) string {
	if d > 12 {
		return ""
	}
	for _, x := range []*Term{val, dig} {
		if x.op == "choice" && (x == val || !hashed(x)) {
			return v.split(fs, x, []*Term{val, dig}, func(fs, t []*Term) string { return v.entry(fs, t[0], t[1], j, other, d+1) })
		}
	}
	if other {
		for _, x := range []*Term{val, dig} {
			if v.r.leaves && x == dig {
				continue
			}
			if x.op != "mget" || v.baseOf(x.args[0]) != x.args[0] {
				return "it is not what was stored before but " + describe(x)
			}
		}
		return ""
	}
	if val == tAbsent {
		if dig != tAbsent {
			return "it has a digest but no value"
		}
		// only where there is no child
		if !has(fs, eqTerm(elAt(v.desc(), j), tNil)) {
			return "there is none for an existing child"
		}
		return ""
	}
	child := elAt(v.desc(), j)
	if v.r.leaves {
		if val.op == "app" && strings.HasPrefix(val.sym, "Curve.NewZr") {
			n := stripConv(val.args[len(val.args)-1])
			if n.op == "ta" && entailsEl(fs, n.args[0], child) {
				return ""
			}
		}
		return "the value is not the leaf's amount but " + describe(val)
	}
	want := func(x *Term) string {
		rs := v.recordsIn(x)
		if len(rs) != 1 {
			return "it is not made of the child's record: " + describe(x)
		}
		k := stripConv(rs[0])
		if k.op == "ta" {
			k = k.args[0]
		}
		if !entailsEl(fs, k, child) {
			return "it belongs to another record: " + describe(rs[0])
		}
		return ""
	}
	if why := want(val); why != "" {
		return why
	}
	f := v.recordField(v.sum)
	if y := val; f == "" || y.op != "app" || !strings.HasPrefix(y.sym, "Curve.NewZrFromBytes") || y.args[len(y.args)-1].op != "fld" || y.args[len(y.args)-1].sym != f {
		return "the value is not the sum of the child but " + describe(val)
	}
	if dig == tAbsent {
		return "it has a value but no digest"
	}
	if why := want(dig); why != "" {
		return "digest: " + why
	}
	if !hashed(dig) {
		return "the digest is not a digest: " + describe(dig)
	}
	return ""
}

func (v *vertexCheck) desc() *Term { return v.s.in.seq(v.s.st, v.r.desc) }

// entailsEl: both are the same element.
func entailsEl(fs []*Term, a, b *Term) bool {
	a, b = stripConv(a), stripConv(b)
	if a == b {
		return true
	}
	return a.op == "el" && b.op == "el" && a.args[0] == b.args[0] && entails(fs, eqInt(stripConv(a.args[1]), stripConv(b.args[1])))
}

func hashed(t *Term) bool {
	r := false
	walkDeep(t, func(x *Term) bool {
		if x.op == "app" && x.sym == "digest" || x.op == "digest" {
			r = true
		}
		return !r
	})
	return r
}

// recordField: the field of the written record that holds a scalar.
func (v *vertexCheck) recordField(x *Term) string {
	d := v.rec
	if d.op == "app" && strings.HasPrefix(d.sym, "asn1:") {
		d = d.args[0]
	}
	if d.op != "struct" {
		return ""
	}
	for _, n := range strings.Split(strings.TrimPrefix(d.sym, ","), ",") {
		if y := fld(d, n); y.op == "app" && y.sym == "Zr.Bytes" && y.args[0] == x {
			return n
		}
	}
	return ""
}

// addend of a scalar.
type addend struct {
	neg bool
	t   *Term
	fs  []*Term
	lvs []*Term
}

// addends decomposes a scalar sum; choices are kept.
func addends(fs []*Term, t *Term) []addend {
	var out []addend
	var rec func(t *Term, neg bool, fs, lvs []*Term, d int)
	rec = func(t *Term, neg bool, fs, lvs []*Term, d int) {
		t = resolve(fs, t)
		if d < 30 && t.op == "app" {
			switch t.sym {
			case "Curve.ModAdd":
				rec(t.args[1], neg, fs, lvs, d+1)
				rec(t.args[2], neg, fs, lvs, d+1)
				return
			case "Curve.ModSub":
				rec(t.args[1], neg, fs, lvs, d+1)
				rec(t.args[2], !neg, fs, lvs, d+1)
				return
			case "Curve.ModNeg":
				rec(t.args[1], !neg, fs, lvs, d+1)
				return
			case "Zr.Plus":
				rec(t.args[0], neg, fs, lvs, d+1)
				rec(t.args[1], neg, fs, lvs, d+1)
				return
			case "Zr.Copy", "Zr.Mod":
				rec(t.args[0], neg, fs, lvs, d+1)
				return
			}
		}
		if d < 30 && t.op == "mu" {
			if df := muDefs[t.sym]; df != nil && df.next != nil {
				nexts := []*Term{df.next}
				var params []*Term
				if df.next.op == "choice" {
					params, nexts = choiceAlts(df.next)
				}
				m := map[*Term]*Term{}
				for i, p := range df.params {
					if 1+i < len(t.args) {
						m[p] = t.args[1+i]
					}
				}
				lv := loopVar(df.loop)
				in := with(fs, inRange(lv, t.args[0])...)
				type part struct {
					a  addend
					fs []*Term
				}
				var parts []part
				ok := true
				for k, x := range nexts {
					if x == df.self {
						continue
					}
					got := 0
					for _, a := range addends(nil, x) {
						if a.t == df.self && !a.neg && len(a.lvs) == 0 {
							got++
							continue
						}
						if a.t.hasFV(df.self) || occurs(a.t, df.self) {
							ok = false
						}
						nfs := in
						if params != nil {
							for _, f := range edgeFacts(df.next.sym, params, k) {
								nfs = with(nfs, subst(f, m))
							}
						}
						parts = append(parts, part{a, nfs})
					}
					if got != 1 {
						ok = false
					}
				}
				if ok {
					rec(subst(df.init, m), neg, fs, lvs, d+1)
					for _, p := range parts {
						nfs := p.fs
						for _, f := range p.a.fs {
							nfs = with(nfs, subst(f, m))
						}
						rec(subst(p.a.t, m), neg != p.a.neg, nfs, with(with(lvs, lv), p.a.lvs...), d+1)
					}
					return
				}
			}
		}
		out = append(out, addend{neg, t, fs, lvs})
	}
	rec(t, false, fs, nil, 0)
	return out
}

// total: the stored sum is the sum of the stored values.
func (v *vertexCheck) total() {
	c := v.c
	as := addends(v.fs, v.sum)
	loops := false
	for _, a := range as {
		if len(a.lvs) > 0 {
			loops = true
		}
	}
	var why string
	switch {
	case loops:
		why = v.totalAll(as)
	case v.r.create:
		why = "it is not made of the values of all children: " + describe(v.sum)
	default:
		why = v.totalDelta(v.fs, as, 0)
	}
	c.oblige(why == "", v.key+"/sum", v.site, "sum of the stored vertex: "+why)
}

// totalAll: the sum of the values of all slots.
func (v *vertexCheck) totalAll(as []addend) string {
	j := in("slot")
	prev := add(v.n, intT(-2))
	fs := with(v.fs, inRange(j, prev)...)
	n0 := len(v.fs)
	var parts []slotPart
	for _, a := range as {
		if isZeroConst(a.t) && len(a.lvs) == 0 {
			continue
		}
		if a.neg || len(a.lvs) > 1 {
			return "it has the summand " + describe(a.t)
		}
		p := v.slotOf(a.t)
		if p == nil && len(a.lvs) == 1 {
			// conditional summands that belong to no slot
			if isZeroConst(a.t) {
				continue
			}
			return "it has a summand that belongs to no child: " + describe(a.t)
		}
		if p == nil {
			return "it has the summand " + describe(a.t)
		}
		part := slotPart{x: a.t}
		if p.op == "mapkey" && len(a.lvs) == 1 && p.args[1] == a.lvs[0] {
			// going over the entries of the map
			m := v.mapOf(p.args[0])
			if m != v.values && v.mapAt(fs, m, j) != v.mapAt(fs, v.values, j) {
				return "it is the sum of another map: " + describe(m)
			}
			if !(a.t.op == "mget" && stripConv(a.t.args[1]) == p) {
				return "it has the summand " + describe(a.t)
			}
			if len(parts) == 0 && len(as) <= 2 {
				return ""
			}
			return ""
		}
		if len(a.lvs) == 0 {
			part.conds = with(a.fs[n0:], eqInt(p, j))
			part.at = p
		} else {
			k := solve(p, j, a.lvs[0])
			if k == nil {
				return "it has the summand " + describe(a.t)
			}
			s := map[*Term]*Term{a.lvs[0]: k}
			part.x = subst(a.t, s)
			for _, f := range a.fs[n0:] {
				part.conds = append(part.conds, subst(f, s))
			}
		}
		parts = append(parts, v.nonzero(part))
	}
	cases := [][]*Term{fs}
	if !v.r.create {
		i := v.r.index
		cases = [][]*Term{with(fs, eqInt(j, i)), with(fs, lt(j, i)), with(fs, lt(i, j))}
	}
	for _, k := range cases {
		if why := v.atSlot(parts, k, func(fs []*Term, j *Term) *Term { return v.mapAt(fs, v.values, j) }); why != "" {
			return why
		}
	}
	return ""
}

// slotOf: the slot a scalar belongs to.
func (v *vertexCheck) slotOf(t *Term) *Term {
	var r *Term
	d := v.desc()
	walkDeep(t, func(x *Term) bool {
		if r != nil {
			return false
		}
		switch {
		case x.op == "el" && x.args[0] == d:
			r = stripConv(x.args[1])
		case x.op == "mget" && isMapTerm(x.args[0]):
			r = stripConv(x.args[1])
		}
		return r == nil
	})
	return r
}

// totalDelta: the sum stored before, plus the new value, minus the one it replaces.
func (v *vertexCheck) totalDelta(fs []*Term, as []addend, d int) string {
	if d > 12 {
		return ""
	}
	var pos, neg []*Term
	for k, a := range as {
		t := v.value(fs, a.t)
		if t.op == "choice" && !hashed(t) {
			terms := make([]*Term, len(as))
			for i, b := range as {
				terms[i] = b.t
			}
			terms[k] = t
			return v.split(fs, t, terms, func(fs, ts []*Term) string {
				var nas []addend
				for i, b := range as {
					for _, x := range addends(fs, ts[i]) {
						x.neg = x.neg != b.neg
						nas = append(nas, x)
					}
				}
				return v.totalDelta(fs, nas, d+1)
			})
		}
		if isZeroConst(t) {
			continue
		}
		if a.neg {
			neg = append(neg, t)
		} else {
			pos = append(pos, t)
		}
	}
	j := v.r.index
	val := v.mapAt(with(fs, eqInt(j, j)), v.values, j)
	f := v.recordField(v.sum)
	isOwn := func(t *Term) bool {
		rs := v.recordsIn(t)
		return len(rs) == 1 && rs[0] == dbKey(v.s.in.seq(v.s.st, v.r.key)) && t.op == "app" && strings.HasPrefix(t.sym, "Curve.NewZrFromBytes") && t.args[len(t.args)-1].op == "fld" && t.args[len(t.args)-1].sym == f
	}
	isOld := func(t *Term) bool {
		return t.op == "mget" && v.baseOf(t.args[0]) == t.args[0] && v.baseOf(v.values) == t.args[0] && entails(fs, eqInt(stripConv(t.args[1]), j))
	}
	take := func(list *[]*Term, ok func(*Term) bool) bool {
		for i, t := range *list {
			if ok(t) {
				*list = append(append([]*Term(nil), (*list)[:i]...), (*list)[i+1:]...)
				return true
			}
		}
		return false
	}
	if !take(&pos, isOwn) {
		return "the sum stored before does not count"
	}
	if !take(&pos, func(t *Term) bool { return t == val || same(fs, t, val) }) {
		return "the new value " + describe(val) + " does not count"
	}
	absent := false
	if b := v.baseOf(v.values); b != nil {
		absent = has(fs, not(v.presence(b, j)))
	}
	if !take(&neg, isOld) && !absent {
		return "the value that is replaced is not subtracted"
	}
	if len(pos)+len(neg) > 0 {
		return "it has further summands: " + describe(append(pos, neg...)[0])
	}
	return ""
}

// updateRun is one symbolic vertex update.
type updateRun struct {
	s              *session
	leaves, create bool
	args           []*Term
	upd            *ssa.Function
	key, node      *Term
	desc, index    *Term
	tree           *Term
	pp             *Term
	writes         []*Event // encoding of the vertex that is written: enter events of the encoder
	from           int
	ret            *Term
}

// updateRuns analyses the vertex update callback of a tree: inner vertices and vertices above leaves,
// created and extended.
func (c *Ctx) updateRuns() []*updateRun {
	ctor := c.p.Fn("verkle", "NewVerkleTree")
	if ctor == nil {
		c.lose("no verkle.NewVerkleTree")
		return nil
	}
	var runs []*updateRun
	for k := 0; k < 4; k++ {
		s := c.session()
		args := entryArgs(ctor)
		tree := s.call(ctor, args...)
		if s.st.dead {
			c.lose("verkle.NewVerkleTree never returns")
			return nil
		}
		// the tree of plain vertices and its callback
		var upd *Term
		tt := ctor.Signature.Results().At(0).Type()
		for _, f := range fieldTypesOf(tt) {
			p, ok := f.Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			for _, g := range fieldTypesOf(p) {
				if sig, ok := g.Type().Underlying().(*types.Signature); ok && sig.Params().Len() == 5 {
					inner := s.in.load(s.st, fieldAddr(tree, f.Name()), f.Type())
					upd = s.in.load(s.st, fieldAddr(inner, g.Name()), g.Type())
				}
			}
		}
		fn := updFn(upd)
		if fn == nil {
			c.lose("the vertex update callback of verkle.NewVerkleTree is not found")
			return nil
		}
		r := &updateRun{s: s, leaves: k&1 != 0, create: k&2 != 0, upd: fn, tree: tree}
		r.args = entryArgsOf(upd)
		for i, a := range r.args {
			t := updParam(upd, i)
			switch {
			case isBoolType(t):
				r.args[i] = boolT(r.leaves)
			case typeName(t) == "string":
				r.key = a
			case isIntType(t):
				r.index = a
			default:
				if _, ok := t.Underlying().(*types.Slice); ok {
					r.desc = a
				} else if _, ok := t.Underlying().(*types.Interface); ok {
					if r.create {
						r.args[i] = tNil
					} else {
						s.st.assume(not(eqTerm(a, tNil)))
					}
					r.node = r.args[i]
				}
			}
		}
		// the public parameters of the tree are any
		for _, f := range fieldTypesOf(tt) {
			if typeName(f.Type()) == "*pp.PP" {
				r.pp = in("PP")
				s.st.assume(not(eqTerm(r.pp, tNil)))
				s.in.setCell(s.st, fieldAddr(tree, f.Name()), r.pp)
			}
		}
		r.from = len(s.in.Events)
		ret, _ := s.callTerm(upd, r.args...)
		r.ret = ret
		runs = append(runs, r)
	}
	return runs
}

func (r *updateRun) label() string {
	k := "inner"
	if r.leaves {
		k = "leaves"
	}
	if r.create {
		return k + "/created"
	}
	return k + "/extended"
}

// storedVertex is a vertex at the point where it is encoded for the database.
type storedVertex struct {
	ev  *Event
	obj *Term
	typ types.Type
	put *Event
}

func (w storedVertex) field(s *session, name string, t types.Type) *Term {
	return s.in.deep(w.ev.St, s.in.load(w.ev.St, fieldAddr(w.obj, name), t), t, 0)
}

// stored: the vertices whose encoding is written to the database.
func (r *updateRun) stored() []storedVertex {
	var out []storedVertex
	var last *storedVertex
	for _, e := range r.s.in.Events[r.from:] {
		switch e.Kind {
		case "enter":
			f := r.s.c.byName(e.Name)
			if f == nil || f.Signature.Recv() == nil || len(f.Params) != 1 || f.Signature.Results().Len() != 1 || typeName(f.Signature.Results().At(0).Type()) != "[]byte" {
				continue
			}
			p, ok := f.Params[0].Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			if _, ok := p.Elem().Underlying().(*types.Struct); ok && len(groupFields(p)) > 0 {
				last = &storedVertex{e, e.Args[0], p, nil}
			}
		case "dbput":
			if last != nil {
				last.put = e
				out = append(out, *last)
				last = nil
			}
		}
	}
	return out
}

// keepsFrom: a value that was decoded from a field of the record stored under the vertex's own key.
func (r *updateRun) keepsFrom(t *Term, field string) bool {
	ok, any := true, false
	walk(t, func(x *Term) bool {
		switch x.op {
		case "mget":
			k := x.args[1]
			if k == r.key || r.s.in.seq(r.s.st, r.key) == k {
				any = true
				return false
			}
			ok = false
		case "mu", "muv", "choice", "el":
			ok = false
		case "app":
			if x.sym == "draw" || x.sym == "digest" || strings.HasPrefix(x.sym, "Curve.Mod") || x.sym == "Zr.Plus" || x.sym == "Zr.Mul" {
				ok = false
			}
		case "in":
			ok = false
		}
		return ok
	})
	return ok && any
}

func isIntType(t types.Type) bool { _, ok := width(t); return ok }

func fieldTypesOf(t types.Type) []*types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, s.Field(i))
	}
	return r
}
