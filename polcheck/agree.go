package main

import (
	"sort"
	"strings"
)

// Agreement of two values computed in different places of the program: equal, apart (the two differ
// for some input: both are known functions of the inputs and not the same one), or unknown.

// renaming relates the loops and joins of one computation to those of another.
type renaming struct {
	fs    []*Term
	to    map[string]string
	from  map[string]string
	mus   map[[2]*Term]bool
	trips map[[2]string]int // 1 being decided, 2 equal, 3 not
	depth int
}

func newRenaming(fs []*Term) *renaming {
	return &renaming{fs: fs, to: map[string]string{}, from: map[string]string{}, mus: map[[2]*Term]bool{}, trips: map[[2]string]int{}}
}

func (r *renaming) bind(a, b string) bool {
	x, okA := r.to[a]
	y, okB := r.from[b]
	if okA || okB {
		return okA && okB && x == b && y == a
	}
	r.to[a], r.from[b] = b, a
	return true
}

// eq: a and b are the same up to the names of loops and joins.
func (r *renaming) eq(a, b *Term) bool {
	if a == b && len(a.fv) == 0 {
		return true
	}
	if a.op != b.op || len(a.args) != len(b.args) || r.depth > 200 {
		return false
	}
	r.depth++
	defer func() { r.depth-- }()
	switch a.op {
	case "lv", "brk":
		return r.sameLoop(a.sym, b.sym) && r.all(a.args, b.args)
	case "trip":
		return r.tripEq(a.sym, b.sym) && r.all(a.args, b.args)
	case "lcat", "lsto", "mlsto", "all":
		return r.sameLoop(a.sym, b.sym) && r.all(a.args, b.args)
	case "choice":
		pa, aa := choiceAlts(a)
		pb, ab := choiceAlts(b)
		if len(pa) != len(pb) || !r.all(pa, pb) || !r.all(aa, ab) {
			return false
		}
		if a.sym == b.sym {
			return true
		}
		for k := range aa {
			if !r.sets(edgeFacts(a.sym, pa, k), edgeFacts(b.sym, pb, k)) {
				return false
			}
		}
		return true
	case "oneof":
		ta, tb := tokens[a.sym], tokens[b.sym]
		if !r.all(a.args, b.args) || ta == nil || tb == nil || len(ta.edges) != len(tb.edges) {
			return false
		}
		for k := range ta.edges {
			if a.sym != b.sym && !r.sets(edgeFacts(a.sym, a.args, k), edgeFacts(b.sym, b.args, k)) {
				return false
			}
		}
		return true
	case "mu", "muv":
		if !r.all(a.args, b.args) {
			return false
		}
		if a.sym == b.sym {
			return true
		}
		da, db := muDefs[a.sym], muDefs[b.sym]
		if da == nil || db == nil || da.next == nil || db.next == nil {
			return false
		}
		key := [2]*Term{da.self, db.self}
		if r.mus[key] {
			return true
		}
		r.mus[key] = true
		return r.sameLoop(da.loop, db.loop) && r.eq(da.init, db.init) && r.eq(da.next, db.next)
	case "lin":
		return r.linear(a, b)
	}
	return a.sym == b.sym && r.all(a.args, b.args)
}

func (r *renaming) sameLoop(a, b string) bool { return a == b || r.bind(a, b) }

func (r *renaming) all(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !r.eq(a[i], b[i]) {
			return false
		}
	}
	return true
}

// linear: the same coefficients for the same atoms.
func (r *renaming) linear(a, b *Term) bool {
	la, lb := toLin(a), toLin(b)
	if la.c != lb.c || len(la.m) != len(lb.m) {
		return false
	}
	used := map[*Term]bool{}
	var atoms []*Term
	for x := range la.m {
		atoms = append(atoms, x)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	for _, x := range atoms {
		found := false
		for y, k := range lb.m {
			if !used[y] && k == la.m[x] && r.try(x, y) {
				used[y], found = true, true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// try undoes what a failed comparison has assumed.
func (r *renaming) try(a, b *Term) bool {
	to, from, mus := r.to, r.from, r.mus
	r.to, r.from, r.mus = copyMap(to), copyMap(from), copyMap(mus)
	if r.eq(a, b) {
		return true
	}
	r.to, r.from, r.mus = to, from, mus
	return false
}

func copyMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (r *renaming) sets(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	used := map[int]bool{}
	for _, x := range a {
		found := false
		for j, y := range b {
			if !used[j] && r.try(x, y) {
				used[j], found = true, true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// tripEq: two loops without a closed number of rounds go on under the same condition.
func (r *renaming) tripEq(a, b string) bool {
	if a == b {
		return true
	}
	k := [2]string{a, b}
	if r.trips[k] != 0 {
		return r.trips[k] < 3
	}
	r.trips[k] = 1
	about := func(l string) (bodies, exits []*Term) {
		for _, f := range r.fs {
			switch {
			case f.op == "all" && f.sym == l:
				bodies = append(bodies, f.args[1])
			case f.op == "choice" || f.op == "oneof" || f.op == "not" && f.args[0].op == "choice":
			case f.op == "ge0" || f.op == "eq0" || isDiseq(f):
				if mentionsSym(f, "trip", l) {
					exits = append(exits, f)
				}
			}
		}
		return
	}
	ba, ea := about(a)
	bb, eb := about(b)
	ok := r.bind(a, b) && len(ba) > 0 && r.sets(ba, bb) && r.sets(ea, eb)
	if debugOn && !ok {
		println("trips", a, b)
		for _, x := range append(append(ba, nil), ea...) {
			if x != nil {
				println("  A", x.str(12))
			}
		}
		for _, x := range append(append(bb, nil), eb...) {
			if x != nil {
				println("  B", x.str(12))
			}
		}
	}
	r.trips[k] = 3
	if ok {
		r.trips[k] = 2
	}
	return ok
}

// known: a function of the inputs that the analysis has fully read.
func known(t *Term) bool {
	ok := true
	walk(t, func(x *Term) bool {
		switch x.op {
		case "mu", "muv", "choice", "weak", "brk", "trip", "obj", "panicvalue":
			ok = false
		case "app":
			if strings.HasPrefix(x.sym, "recv") || strings.HasPrefix(x.sym, "select") || strings.HasPrefix(x.sym, "iter") || strings.HasPrefix(x.sym, "next.") || x.sym == "mixed" || strings.HasPrefix(x.sym, "un:") {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// isPath: an access path into the inputs, a draw or the result of an uninterpreted call.
func isPath(t *Term) bool {
	for {
		switch t.op {
		case "in", "glob", "gaddr":
			return true
		case "fld", "el", "mget":
			if t.args[0].op == "lsto" || t.args[0].op == "lcat" || t.args[0].op == "cat" || t.args[0].op == "sto" || t.args[0].op == "msto" || t.args[0].op == "mlsto" || t.args[0].op == "cpy" {
				return false
			}
			t = t.args[0]
		case "app":
			return strings.HasPrefix(t.sym, "pred:") || t.sym == "draw" || t.sym == "callfn"
		default:
			return false
		}
	}
}

// injective operators: different arguments give different results (hashing included).
func injective(sym string) bool {
	switch sym {
	case "digest", "Curve.HashToG1", "Curve.NewZrFromInt", "G1.Bytes", "G2.Bytes", "Gt.Bytes", "Zr.Bytes", "callfn", "Zr.Int":
		return true
	}
	return strings.HasPrefix(sym, "pred:")
}

// cancels: different results when exactly one argument differs.
func cancels(sym string) bool {
	switch sym {
	case "Zr.Plus", "Zr.Sub", "Zr.Mul", "G1.Add", "G1.Sub", "G1.Mul", "Zr.Mod", "G2.Add", "G2.Mul", "Zr.PowMod":
		return true
	}
	return false
}

// factor replaces what the two have in common by an unknown of its own.
func factor(fs []*Term, a, b *Term) (*Term, *Term) {
	opaque := func(t *Term) bool {
		return t.op == "app" && (strings.HasPrefix(t.sym, "pred:") || t.sym == "callfn" || t.sym == "digest")
	}
	collect := func(t *Term) []*Term {
		var r []*Term
		walk(t, func(x *Term) bool {
			if opaque(x) {
				r = append(r, x)
				return false
			}
			return true
		})
		return r
	}
	ma, mb := map[*Term]*Term{}, map[*Term]*Term{}
	xs, ys := collect(a), collect(b)
	// a result that only one of the two is made from is some value
	alone := func(ts, others []*Term, m map[*Term]*Term, mark string) {
		for i, x := range ts {
			ok := true
			for _, y := range others {
				ok = ok && y.sym != x.sym
			}
			if ok {
				m[x] = in(mark + itoa(i))
			}
		}
	}
	alone(xs, ys, ma, "≠a")
	alone(ys, xs, mb, "≠b")
	if len(ma) > 0 && len(mb) > 0 {
		// results of different procedures may be the same for a reason of theirs
		return mk("obj", "≠a"), mk("obj", "≠b")
	}
	for i, x := range xs {
		for _, y := range ys {
			if ma[x] == nil && (mb[y] == nil) && (x == y || newRenaming(fs).eq(x, y)) {
				ma[x] = in("≡" + itoa(i))
				mb[y] = ma[x]
			}
		}
	}
	return subst(a, ma), subst(b, mb)
}

// folds: two accumulations with the same number of rounds.
func (g *agreement) folds(fs []*Term, a, b *Term, d int) int {
	da, db := muDefs[a.sym], muDefs[b.sym]
	if da == nil || db == nil || da.next == nil || db.next == nil || len(da.self.args) != 1 || len(db.self.args) != 1 {
		return g.lost(a, b)
	}
	n := g.at(fs, a.args[0], b.args[0], d+1)
	if n != equal || g.at(fs, da.init, db.init, d+1) != equal {
		g.why = ""
		return g.lost(a, b)
	}
	g.fresh++
	x, acc := in("δ"+itoa(g.fresh)+"·"), in("σ"+itoa(g.fresh)+"·")
	at := func(m *muDef, t *Term) *Term { return subst(t, map[*Term]*Term{loopVar(m.loop): x}) }
	one := func(m *muDef) *Term {
		t := at(m, subst(m.next, map[*Term]*Term{m.self: acc}))
		// one may be made from the other
		return subst(t, map[*Term]*Term{at(da, da.self): acc, at(db, db.self): acc})
	}
	h := saturate(with(fs, ge0(x), lt(x, a.args[0])), []*Term{x})
	if has(h, tFalse) {
		return equal
	}
	rs := newResolver(h)
	p, q := one(da), one(db)
	p, q = rs.deep(p), rs.deep(q)
	same := map[*Term]*Term{at(da, da.self): acc, at(db, db.self): acc}
	p, q = subst(p, same), subst(q, same)
	// other accumulations in a round are the same one
	if !within(musOf(p), musOf(q)) || !within(musOf(q), musOf(p)) {
		return g.lost(a, b)
	}
	why := g.why
	r := g.at(h, p, q, d+1)
	if r == equal || !summed(p, acc) || !summed(q, acc) {
		return r
	}
	// the order of summands does not matter
	was := g.why
	g.why = why
	back := rs.deep(subst(q, map[*Term]*Term{x: addK(subT(a.args[0], x), -1)}))
	if g.at(h, p, back, d+1) == equal {
		return equal
	}
	g.why = was
	return r
}

// summed: something is added to acc.
func summed(t, acc *Term) bool {
	if t.op != "app" || len(t.args) < 2 {
		return false
	}
	switch t.sym {
	case "G1.Add", "Zr.Plus", "G1.Sub":
		return (t.args[0] == acc) != (t.args[1] == acc)
	}
	return false
}

func musOf(t *Term) map[*Term]bool {
	r := map[*Term]bool{}
	walk(t, func(x *Term) bool {
		if x.op == "mu" || x.op == "muv" {
			r[x] = true
		}
		return true
	})
	return r
}

func within(a, b map[*Term]bool) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func hasOp(t *Term, op string) bool {
	r := false
	walk(t, func(x *Term) bool { r = r || x.op == op; return !r })
	return r
}

type agreement struct {
	c     *Ctx
	fresh int
	steps int
	memo  map[[2]*Term]int
	// wild: the two are computed by different formulas on purpose
	wild func(a, b *Term) bool
	why  string
}

func (g *agreement) of(fs []*Term, a, b *Term) int { g.steps = 0; return g.at(fs, a, b, 0) }

func (g *agreement) apart(a, b *Term) int {
	if g.why == "" {
		g.why = describe(a) + " and " + describe(b)
	}
	return apart
}

func (g *agreement) at(fs []*Term, a, b *Term, d int) int {
	a, b = stripConv(a), stripConv(b)
	if a == b {
		return equal
	}
	g.steps++
	if d > 40 || g.steps > 4000 {
		return unknown
	}
	rs := newResolver(fs)
	a, b = stripConv(rs.head(a)), stripConv(rs.head(b))
	if a == b || newRenaming(fs).eq(a, b) {
		return equal
	}
	if g.wild != nil && g.wild(a, b) {
		return equal
	}
	// alternatives
	if a.op == "choice" && b.op == "choice" && d < 20 {
		if r := g.branches(fs, a, b, d); r != unknown {
			return r
		}
	}
	for i, x := range []*Term{a, b} {
		if x.op != "choice" {
			continue
		}
		y := []*Term{b, a}[i]
		ps, alts := choiceAlts(x)
		r, seen := equal, false
		for k, alt := range alts {
			if !edgeOK(fs, x.sym, ps, k) {
				continue
			}
			h := saturate(with(fs, edgeFacts(x.sym, ps, k)...), nil)
			if has(h, tFalse) || refute(relevant(h, nil)) {
				continue
			}
			seen = true
			p, q := alt, y
			if i == 1 {
				p, q = y, alt
			}
			switch g.at(h, p, q, d+1) {
			case apart:
				return apart
			case unknown:
				r = unknown
			}
		}
		if !seen {
			return unknown
		}
		return r
	}
	if isSeq(a) || isSeq(b) {
		return g.seqs(fs, a, b, d)
	}
	if a.op == "el" && b.op == "el" && !intLike(a) {
		if p, q := g.at(fs, a.args[0], b.args[0], d+1), g.at(fs, a.args[1], b.args[1], d+1); p != unknown && q != unknown && (p == equal || q == equal) {
			if p == apart || q == apart {
				g.why = ""
				return g.apart(a, b)
			}
			return equal
		}
	}
	if numeric(a) && numeric(b) || intLike(a) || intLike(b) {
		e := eqInt(a, b)
		switch {
		case entails(fs, e):
			return equal
		case contradicts(fs, e):
			return g.apart(a, b)
		}
		ra, rb := rs.deep(a), rs.deep(b)
		if entails(fs, eqInt(ra, rb)) || newRenaming(fs).eq(ra, rb) {
			return equal
		}
		if g.lengths(fs, ra, rb, d) {
			return equal
		}
		if xa, xb := factor(fs, ra, rb); known(xa) && known(xb) {
			if xa == xb {
				return equal
			}
			return g.apart(ra, rb)
		}
		return g.lost(ra, rb)
	}
	if a.op == b.op && a.sym == b.sym && len(a.args) == len(b.args) && len(a.args) > 0 {
		switch a.op {
		case "mu", "muv":
			return g.lost(a, b)
		}
		if a.op == "app" && a.sym == "digest" && len(a.args) == 2 && a.args[0] == b.args[0] {
			r := g.at(fs, a.args[1], b.args[1], d+1)
			if r == unknown {
				sa, sb := map[string]bool{}, map[string]bool{}
				if sources(rs, a.args[1], sa) && sources(rs, b.args[1], sb) && !sameKeys(sa, sb) {
					return g.apart(a, b)
				}
			}
			return r
		}
		r, n := equal, 0
		for i := range a.args {
			switch g.at(fs, a.args[i], b.args[i], d+1) {
			case apart:
				if a.op == "app" && !injective(a.sym) && !cancels(a.sym) {
					g.why = ""
					return unknown
				}
				if a.op != "app" || injective(a.sym) {
					return apart
				}
				n++
			case unknown:
				r = unknown
			}
		}
		if n == 1 && r == equal {
			return apart
		}
		if n > 0 {
			g.why = ""
			return unknown
		}
		return r
	}
	if (a.op == "mu" || a.op == "muv") && (b.op == "mu" || b.op == "muv") && len(a.args) == 1 && len(b.args) == 1 {
		return g.folds(fs, a, b, d)
	}
	ra, rb := rs.deep(a), rs.deep(b)
	if ra != a || rb != b {
		return g.at(fs, ra, rb, d+1)
	}
	xa, xb := factor(fs, a, b)
	if known(xa) && known(xb) && xa != xb && (isPath(xa) || isPath(xb) || a.op == "nil" || b.op == "nil" || xa.op == "app" && xb.op == "app") {
		return g.apart(a, b)
	}
	return g.lost(a, b)
}

// branches: alternatives under conditions that agree.
func (g *agreement) branches(fs []*Term, a, b *Term, d int) int {
	pa, aa := choiceAlts(a)
	pb, ab := choiceAlts(b)
	if len(aa) != len(ab) || a.sym == b.sym && len(pa) != len(pb) {
		return unknown
	}
	why := g.why
	for k := range aa {
		ea, eb := edgeFacts(a.sym, pa, k), edgeFacts(b.sym, pb, k)
		for _, f := range eb {
			if has(fs, f) || has(ea, f) {
				continue
			}
			found := false
			for _, e := range ea {
				if g.sameFact(fs, e, f, d) {
					found = true
					break
				}
			}
			if !found {
				g.why = why
				return unknown
			}
		}
	}
	g.why = why
	r := equal
	for k := range aa {
		h := saturate(with(fs, append(edgeFacts(a.sym, pa, k), edgeFacts(b.sym, pb, k)...)...), nil)
		if has(h, tFalse) {
			continue
		}
		switch g.at(h, aa[k], ab[k], d+1) {
		case apart:
			return apart
		case unknown:
			r = unknown
		}
	}
	return r
}

// sameFact: a test of values that agree.
func (g *agreement) sameFact(fs []*Term, a, b *Term, d int) bool {
	if a == b || newRenaming(fs).eq(a, b) {
		return true
	}
	if a.op != b.op || a.sym != b.sym || len(a.args) != len(b.args) || len(a.args) == 0 || isLinear(a) {
		return false
	}
	for i := range a.args {
		x, y := a.args[i], b.args[i]
		if x.op == "not" || x.op == "eq" {
			if !g.sameFact(fs, x, y, d+1) {
				return false
			}
		} else if g.at(fs, x, y, d+1) != equal {
			return false
		}
	}
	return true
}

// intLike: certainly an integer.
func intLike(t *Term) bool {
	switch t.op {
	case "int", "lin", "len", "lv", "trip":
		return true
	}
	return false
}

func (g *agreement) lost(a, b *Term) int {
	if debugOn {
		println("LOST", a.str(7), "\n  ---", b.str(7))
	}
	return unknown
}

func isSeq(t *Term) bool {
	switch t.op {
	case "lsto", "lcat", "cat", "sto", "cpy", "mkseq", "lit", "sub":
		return true
	}
	return false
}

// bounds: positions at which the shape of a sequence changes.
func bounds(fs []*Term, t *Term, at *Term, out map[*Term]bool) {
	switch t.op {
	case "lcat":
		out[lenOf(t.args[0])] = true
		bounds(fs, t.args[0], at, out)
	case "cat":
		l := lenOf(t.args[0])
		out[l] = true
		bounds(fs, t.args[0], at, out)
		sub := map[*Term]bool{}
		bounds(fs, t.args[1], at, sub)
		for x := range sub {
			out[add(x, l)] = true
		}
	case "lsto":
		// the range of positions it stores at, for steps of one
		lv := loopVar(t.sym)
		if slopeIn(t.args[2], lv) == 1 {
			lo := subst(t.args[2], map[*Term]*Term{lv: zeroInt})
			out[lo] = true
			out[add(lo, t.args[1])] = true
		}
		bounds(fs, t.args[0], at, out)
	case "sto":
		out[t.args[1]] = true
		out[addK(t.args[1], 1)] = true
		bounds(fs, t.args[0], at, out)
	case "cpy":
		out[t.args[1]] = true
		out[add(t.args[1], t.args[3])] = true
		bounds(fs, t.args[0], at, out)
		sub := map[*Term]bool{}
		bounds(fs, t.args[2], at, sub)
		for x := range sub {
			out[add(x, t.args[1])] = true
		}
	case "sub":
		sub := map[*Term]bool{}
		bounds(fs, t.args[0], at, sub)
		for x := range sub {
			out[subT(x, t.args[1])] = true
		}
	case "lit":
		if len(t.args) <= 4 {
			for i := range t.args {
				out[intT(int64(i))] = true
			}
		}
	}
}

// sources: what the pieces of a transcript are taken from.
func sources(rs *resolver, t *Term, out map[string]bool) bool {
	t = rs.head(t)
	switch t.op {
	case "cat":
		return sources(rs, t.args[0], out) && sources(rs, t.args[1], out)
	case "lcat":
		return sources(rs, t.args[0], out) && sources(rs, t.args[2], out)
	case "lit":
		for _, a := range t.args {
			if !sources(rs, a, out) {
				return false
			}
		}
		return true
	case "in":
		out[t.sym] = true
		return true
	case "str", "int", "lv":
		return true
	case "fld", "el", "sub":
		return sources(rs, t.args[0], out)
	case "glob":
		return true
	case "app":
		switch {
		case strings.HasPrefix(t.sym, "pred:") && t.sym != "pred:pol/common.FieldElementFromBytes":
			out[t.sym] = true
			return true
		case t.sym == "callfn":
			for _, a := range t.args {
				if !sources(rs, a, out) {
					return false
				}
			}
			return true
		case strings.HasSuffix(t.sym, ".Bytes"), strings.HasPrefix(t.sym, "conv:"), strings.HasPrefix(t.sym, "putint:"), t.sym == "shr":
			return sources(rs, t.args[0], out)
		case t.sym == "digest":
			return sources(rs, t.args[1], out)
		case strings.HasPrefix(t.sym, "pred:"):
			return sources(rs, t.args[0], out)
		}
	}
	return false
}

func sameKeys(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// pieces: sequences put together in the same way, compared piece by piece.
func (g *agreement) pieces(fs []*Term, a, b *Term, d int) int {
	why := g.why
	switch {
	case a.op == "cat" && b.op == "cat":
		p, q := g.at(fs, a.args[0], b.args[0], d+1), g.at(fs, a.args[1], b.args[1], d+1)
		if p == equal && q == equal {
			return equal
		}
		// the common part has the same length
		if p == equal && q == apart || q == equal && p == apart {
			return apart
		}
	case a.op == "lcat" && b.op == "lcat":
		p, q := g.at(fs, a.args[0], b.args[0], d+1), g.at(fs, a.args[1], b.args[1], d+1)
		if p == equal && q == apart && nonEmpty(a.args[2]) && g.samePiece(fs, a, b, d) {
			return apart // one has more of the pieces
		}
		if p != equal || q != equal {
			break
		}
		x, h := g.round(fs, a.args[1])
		if h == nil {
			return equal
		}
		at := func(t *Term) *Term { return subst(t.args[2], map[*Term]*Term{loopVar(t.sym): x}) }
		switch g.at(h, at(a), at(b), d+1) {
		case equal:
			return equal
		case apart:
			// pieces of one length in every round do not make up for each other
			if g.at(h, lenOf(at(a)), lenOf(at(b)), d+1) == equal {
				return apart
			}
		}
	}
	g.why = why
	return unknown
}

// nonEmpty: a piece that certainly has a byte.
func nonEmpty(t *Term) bool {
	switch t.op {
	case "lit":
		return len(t.args) > 0
	case "cat":
		return nonEmpty(t.args[0]) || nonEmpty(t.args[1])
	case "app":
		switch t.sym {
		case "G1.Bytes", "G2.Bytes", "Gt.Bytes", "Zr.Bytes", "digest":
			return true
		}
		return strings.HasPrefix(t.sym, "putint:")
	}
	return false
}

// samePiece: the pieces of the two loops are as long as each other, whatever the position.
func (g *agreement) samePiece(fs []*Term, a, b *Term, d int) bool {
	g.fresh++
	x := in("δ" + itoa(g.fresh) + "·")
	at := func(t *Term) *Term { return subst(t.args[2], map[*Term]*Term{loopVar(t.sym): x}) }
	why := g.why
	p, q := at(a), at(b)
	ok := p == q || p.op == "app" && q.op == "app" && p.sym == q.sym && nonEmpty(p) || g.at(fs, lenOf(p), lenOf(q), d+1) == equal
	g.why = why
	return ok
}

// round is an arbitrary round of a loop with n of them, and what is known in it.
func (g *agreement) round(fs []*Term, n *Term) (*Term, []*Term) {
	g.fresh++
	x := in("δ" + itoa(g.fresh) + "·")
	h := saturate(with(fs, ge0(x), lt(x, n)), []*Term{x})
	if has(h, tFalse) {
		return x, nil
	}
	return x, h
}

// lengths: a and b are equal because the sequences whose lengths they are made of are as long.
func (g *agreement) lengths(fs []*Term, a, b *Term, d int) bool {
	la, lb := toLin(a), toLin(b)
	m := map[*Term]*Term{}
	for x, k := range la.m {
		if lb.m[x] == k {
			continue
		}
		found := false
		for y, l := range lb.m {
			if l == k && la.m[y] != l && m[y] == nil && x.op == "len" && y.op == "len" && g.lenEq(fs, x.args[0], y.args[0], d+1) {
				m[y], found = x, true
				break
			}
		}
		if !found {
			return false
		}
	}
	return len(m) > 0 && entails(fs, eqInt(a, subst(b, m)))
}

func (g *agreement) lenEq(fs []*Term, a, b *Term, d int) bool {
	why := g.why
	defer func() { g.why = why }()
	if d > 40 {
		return false
	}
	if a.op == "lcat" && b.op == "lcat" {
		if g.at(fs, lenOf(a.args[0]), lenOf(b.args[0]), d+1) != equal || g.at(fs, a.args[1], b.args[1], d+1) != equal {
			return false
		}
		x, h := g.round(fs, a.args[1])
		at := func(t *Term) *Term { return lenOf(subst(t.args[2], map[*Term]*Term{loopVar(t.sym): x})) }
		return h == nil || g.at(h, at(a), at(b), d+1) == equal
	}
	return g.at(fs, a, b, d+1) == equal
}

// seqs compares two sequences element by element.
func (g *agreement) seqs(fs []*Term, a, b *Term, d int) int {
	switch r := g.pieces(fs, a, b, d); r {
	case equal, apart:
		return r
	}
	la, lb := lenOf(a), lenOf(b)
	switch g.at(fs, la, lb, d+1) {
	case apart:
		return apart
	case unknown:
		return unknown
	}
	fs = with(fs, eqInt(la, lb))
	g.fresh++
	x := in("δ" + itoa(g.fresh) + "·")
	r := equal
	g.cases(with(fs, ge0(x), lt(x, la)), x, []*Term{a, b}, func(h []*Term) {
		if r == apart {
			return
		}
		rs := newResolver(h)
		p, q := rs.elem(rs.head(a), x), rs.elem(rs.head(b), x)
		one := unknown
		if p.op == "el" && isSeq(p.args[0]) || q.op == "el" && isSeq(q.args[0]) {
			g.lost(p, q)
		} else {
			one = g.at(h, p, q, d+1)
		}
		if one != equal {
			r = one
		}
	})
	return r
}

// cases: a position in the sequences, in each of the stretches they are made of.
func (g *agreement) cases(fs []*Term, x *Term, seqs []*Term, f func(h []*Term)) {
	bs := map[*Term]bool{}
	for _, s := range seqs {
		bounds(fs, s, x, bs)
	}
	var cuts []*Term
	for t := range bs {
		if t != zeroInt {
			cuts = append(cuts, t)
		}
	}
	sort.Slice(cuts, func(i, j int) bool { return cuts[i].id < cuts[j].id })
	if len(cuts) > 8 {
		cuts = cuts[:8]
	}
	var rec func(h []*Term, k int)
	rec = func(h []*Term, k int) {
		if refute(relevant(h, []*Term{ge0(x)})) {
			return
		}
		if k < len(cuts) {
			rec(with(h, lt(x, cuts[k])), k+1)
			rec(with(h, le(cuts[k], x)), k+1)
			return
		}
		h = saturate(h, []*Term{x})
		if !has(h, tFalse) {
			f(h)
		}
	}
	rec(fs, 0)
}
