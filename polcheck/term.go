package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed value term.
type Term struct {
	id   int
	op   string
	sym  string
	args []*Term
	fv   []int // ids of the lv terms occurring in it, sorted
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

func mk(op, sym string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(sym)
	for _, a := range args {
		b.WriteByte(0)
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t := termTab[k]; t != nil {
		return t
	}
	t := &Term{id: len(termList), op: op, sym: sym, args: append([]*Term(nil), args...)}
	switch op {
	case "lv":
		t.fv = []int{t.id}
	default:
		var fv []int
		for _, a := range args {
			fv = unionInts(fv, a.fv)
		}
		t.fv = fv
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func unionInts(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	sub := true
	for _, x := range b {
		i := sort.SearchInts(a, x)
		if i == len(a) || a[i] != x {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	var r []int
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (t *Term) hasFV(lv *Term) bool {
	i := sort.SearchInts(t.fv, lv.id)
	return i < len(t.fv) && t.fv[i] == lv.id
}

func app(name string, args ...*Term) *Term { return mk("app", name, args...) }
func in(name string) *Term                 { return mk("in", name) }

var (
	tNil   = mk("nil", "")
	tTrue  = mk("bool", "true")
	tFalse = mk("bool", "false")
	tUnit  = mk("unit", "")
)

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// ---- linear integer terms ----

type lin struct {
	c int64
	m map[*Term]int64
}

func intT(n int64) *Term { return mk("int", strconv.FormatInt(n, 10)) }

func (t *Term) intVal() (int64, bool) {
	if t.op != "int" {
		return 0, false
	}
	n, err := strconv.ParseInt(t.sym, 10, 64)
	return n, err == nil
}

func toLin(t *Term) lin {
	switch t.op {
	case "int":
		n, _ := t.intVal()
		return lin{c: n, m: map[*Term]int64{}}
	case "lin":
		parts := strings.Split(t.sym, ",")
		l := lin{m: map[*Term]int64{}}
		l.c, _ = strconv.ParseInt(parts[0], 10, 64)
		for i, a := range t.args {
			k, _ := strconv.ParseInt(parts[i+1], 10, 64)
			l.m[a] = k
		}
		return l
	}
	return lin{m: map[*Term]int64{t: 1}}
}

func (l lin) term() *Term {
	var atoms []*Term
	for a, k := range l.m {
		if k != 0 {
			atoms = append(atoms, a)
		}
	}
	if len(atoms) == 0 {
		return intT(l.c)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && l.c == 0 && l.m[atoms[0]] == 1 {
		return atoms[0]
	}
	s := strconv.FormatInt(l.c, 10)
	for _, a := range atoms {
		s += "," + strconv.FormatInt(l.m[a], 10)
	}
	return mk("lin", s, atoms...)
}

func (l lin) add(o lin, k int64) lin {
	r := lin{c: l.c + k*o.c, m: map[*Term]int64{}}
	for a, x := range l.m {
		r.m[a] = x
	}
	for a, x := range o.m {
		r.m[a] += k * x
		if r.m[a] == 0 {
			delete(r.m, a)
		}
	}
	return r
}

func add(a, b *Term) *Term        { return toLin(a).add(toLin(b), 1).term() }
func subT(a, b *Term) *Term       { return toLin(a).add(toLin(b), -1).term() }
func addK(a *Term, k int64) *Term { return add(a, intT(k)) }
func mulK(a *Term, k int64) *Term {
	return lin{m: map[*Term]int64{}}.add(toLin(a), k).term()
}
func constDiff(a, b *Term) (int64, bool) {
	l := toLin(a).add(toLin(b), -1)
	if len(l.m) == 0 {
		return l.c, true
	}
	return 0, false
}

// stripConv removes integer conversions of 16 bits and more (the analysed code indexes with uint16;
// fan-outs, path digits and vector positions are assumed to fit).
func stripConv(t *Term) *Term {
	switch t.op {
	case "app":
		switch t.sym {
		case "conv:uint16", "conv:uint32":
			return stripConv(t.args[0])
		}
	case "lin":
		l := toLin(t)
		r := lin{c: l.c, m: map[*Term]int64{}}
		for a, k := range l.m {
			r = r.add(toLin(stripConv(a)), k)
		}
		return r.term()
	}
	return t
}

// ge0(x): x >= 0
func ge0(x *Term) *Term {
	x = stripConv(x)
	l := toLin(x)
	if len(l.m) == 0 {
		return boolT(l.c >= 0)
	}
	return mk("ge0", "", x)
}
func lt(a, b *Term) *Term { return ge0(addK(subT(b, a), -1)) }
func le(a, b *Term) *Term { return ge0(subT(b, a)) }

// eqInt(a,b): integer equality
func eqInt(a, b *Term) *Term {
	l := toLin(stripConv(subT(a, b)))
	if len(l.m) == 0 {
		return boolT(l.c == 0)
	}
	t := l.term()
	// canonical sign: coefficient of the smallest atom positive
	var first *Term
	for x := range l.m {
		if first == nil || x.id < first.id {
			first = x
		}
	}
	if l.m[first] < 0 {
		t = mulK(t, -1)
	}
	return mk("eq0", "", t)
}

func not(t *Term) *Term {
	switch t.op {
	case "bool":
		return boolT(t == tFalse)
	case "not":
		return t.args[0]
	case "ge0":
		return ge0(addK(mulK(t.args[0], -1), -1))
	}
	return mk("not", "", t)
}

// nilness of a term: 1 nil, -1 definitely not nil, 0 unknown
func nilness(t *Term) int {
	switch t.op {
	case "nil":
		return 1
	case "obj", "fa", "ea", "slice", "closure", "func", "mkif", "struct", "lit", "sto", "cat", "mkmap", "msto":
		return -1
	case "app":
		switch t.sym {
		case "errorf":
			return -1
		}
	}
	return 0
}

func eqTerm(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == "nil" || b.op == "nil" {
		x := a
		if a.op == "nil" {
			x = b
		}
		switch nilness(x) {
		case 1:
			return tTrue
		case -1:
			return tFalse
		}
	}
	if a.op == "bool" && b.op == "bool" || a.op == "str" && b.op == "str" {
		return tFalse // distinct constants
	}
	if a.op == "bool" {
		a, b = b, a
	}
	if b == tTrue {
		return a
	}
	if b == tFalse {
		return not(a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", a, b)
}

// ---- projections ----

func fld(b *Term, f string) *Term {
	switch b.op {
	case "struct":
		names := strings.Split(b.sym, ",")
		for i, n := range names[1:] {
			if n == f {
				return b.args[i]
			}
		}
	case "choice":
		return mapChoice(b, func(x *Term) *Term { return fld(x, f) })
	}
	return mk("fld", f, b)
}

func updStruct(b *Term, f string, v *Term, names []string) *Term {
	var args []*Term
	for _, n := range names {
		if n == f {
			args = append(args, v)
		} else {
			args = append(args, fld(b, n))
		}
	}
	return mkStruct("", names, args)
}

func mkStruct(typ string, names []string, args []*Term) *Term {
	// struct whose fields are all projections of one base is that base
	if len(args) > 0 && args[0].op == "fld" {
		base := args[0].args[0]
		all := true
		for i, a := range args {
			if a.op != "fld" || a.args[0] != base || a.sym != names[i] {
				all = false
				break
			}
		}
		if all {
			return base
		}
	}
	return mk("struct", ","+strings.Join(names, ","), args...)
}

// choice(J, params..., alts...): value selected by the control-flow join J
type tokenInfo struct {
	key     string
	params  []*Term
	edges   [][]*Term // facts that hold on each incoming edge (beyond the common ones)
	nparams int
}

var tokens = map[string]*tokenInfo{}

func mkChoice(tok string, params []*Term, alts []*Term) *Term {
	// a nested choice of the same token takes the same alternative
	for k, a := range alts {
		if a.op != "choice" || a.sym != tok {
			continue
		}
		ps, as := choiceAlts(a)
		if len(as) != len(alts) || len(ps) != len(params) {
			continue
		}
		eq := true
		for i := range ps {
			eq = eq && ps[i] == params[i]
		}
		if eq && as[k] != a {
			alts = append([]*Term(nil), alts...)
			alts[k] = as[k]
		}
	}
	same := true
	for _, a := range alts[1:] {
		if a != alts[0] {
			same = false
			break
		}
	}
	if same {
		return alts[0]
	}
	// merge element-wise updates: choice(sto(c,i,a), sto(c,i,b)) = sto(c,i,choice(a,b)); sto vs c likewise
	if r := mergeStores(tok, params, alts); r != nil {
		return r
	}
	return mk("choice", tok, append(append([]*Term(nil), params...), alts...)...)
}

func mergeStores(tok string, params, alts []*Term) *Term {
	var base, idx *Term
	var op, sym string
	for _, a := range alts {
		if a.op == "sto" || a.op == "msto" {
			base, idx, op, sym = a.args[0], a.args[1], a.op, a.sym
			break
		}
	}
	if base == nil {
		return nil
	}
	var vals []*Term
	for _, a := range alts {
		switch {
		case a.op == op && a.args[0] == base && a.args[1] == idx:
			vals = append(vals, a.args[2])
		case a == base && op == "sto":
			vals = append(vals, elAt(base, idx))
		case a == base && op == "msto":
			vals = append(vals, mk("mkeep", "", base, idx))
		default:
			return nil
		}
	}
	v := mkChoice(tok, params, vals)
	if op == "sto" {
		return mkSto(base, idx, v)
	}
	return mk(op, sym, base, idx, v)
}

func choiceAlts(t *Term) (params, alts []*Term) {
	n := tokens[t.sym].nparams
	return t.args[:n], t.args[n:]
}

func mapChoice(t *Term, f func(*Term) *Term) *Term {
	params, alts := choiceAlts(t)
	r := make([]*Term, len(alts))
	for i, a := range alts {
		r[i] = f(a)
	}
	return mkChoice(t.sym, params, r)
}

// edgeFacts returns the facts of the k-th edge of the join of a choice term.
func edgeFacts(tok string, params []*Term, k int) []*Term {
	ti := tokens[tok]
	if ti == nil || k >= len(ti.edges) {
		return nil
	}
	fs := ti.edges[k]
	same := true
	for i := range params {
		if params[i] != ti.params[i] {
			same = false
		}
	}
	if same {
		return fs
	}
	m := map[*Term]*Term{}
	for i := range params {
		m[ti.params[i]] = params[i]
	}
	r := make([]*Term, len(fs))
	for i, f := range fs {
		r[i] = subst(f, m)
	}
	return r
}

// ---- sequences ----

func lenOf(t *Term) *Term {
	switch t.op {
	case "nil":
		return intT(0)
	case "slice":
		return t.args[2]
	case "lit":
		return intT(int64(len(t.args)))
	case "mkseq":
		return t.args[0]
	case "sto":
		return lenOf(t.args[0])
	case "lsto":
		return lenOf(t.args[0])
	case "cpy":
		return lenOf(t.args[0])
	case "valc":
		if t.args[0].op != "mu" && t.args[0].op != "muv" {
			return lenOf(t.args[0])
		}
		return lenOf(t.args[0])
	case "cat":
		return add(lenOf(t.args[0]), lenOf(t.args[1]))
	case "lcat":
		e := lenOf(t.args[2])
		if k, ok := e.intVal(); ok {
			return add(lenOf(t.args[0]), mulK(t.args[1], k))
		}
	case "sub":
		return t.args[2]
	case "str":
		return intT(int64(len(t.sym)))
	case "choice":
		return mapChoice(t, lenOf)
	case "app":
		switch t.sym {
		case "digest":
			return intT(32)
		}
		if strings.HasPrefix(t.sym, "putint:") {
			n, _ := strconv.Atoi(strings.Split(t.sym, ":")[1])
			return intT(int64(n / 8))
		}
	}
	return mk("len", "", t)
}

func mkSto(c, i, v *Term) *Term {
	i = stripConv(i)
	if c.op == "sto" && c.args[1] == i {
		return mkSto(c.args[0], i, v)
	}
	if n, ok := i.intVal(); ok && c.op == "lit" && n >= 0 && int(n) < len(c.args) {
		args := append([]*Term(nil), c.args...)
		args[n] = v
		return mk("lit", "", args...)
	}
	return mk("sto", "", c, i, v)
}

func mkCat(a, b *Term) *Term {
	if a.op == "nil" || a.op == "lit" && len(a.args) == 0 {
		return b
	}
	if b.op == "nil" || b.op == "lit" && len(b.args) == 0 {
		return a
	}
	if a.op == "lit" && b.op == "lit" && len(a.args)+len(b.args) <= 256 {
		return mk("lit", "", append(append([]*Term(nil), a.args...), b.args...)...)
	}
	if a.op == "cat" && a.args[1].op == "lit" && b.op == "lit" && len(a.args[1].args)+len(b.args) <= 256 {
		return mk("cat", "", a.args[0], mkCat(a.args[1], b))
	}
	if b.op == "cat" {
		return mkCat(mkCat(a, b.args[0]), b.args[1])
	}
	return mk("cat", "", a, b)
}

func mkSub(c, off, n *Term) *Term {
	if o, ok := off.intVal(); ok && o == 0 && lenOf(c) == n {
		return c
	}
	if c.op == "nil" {
		return c
	}
	if c.op == "sub" {
		return mkSub(c.args[0], add(c.args[1], off), n)
	}
	if c.op == "lit" {
		o, ok1 := off.intVal()
		k, ok2 := n.intVal()
		if ok1 && ok2 && o >= 0 && k >= 0 && int(o+k) <= len(c.args) {
			return mk("lit", "", c.args[o:o+k]...)
		}
	}
	return mk("sub", "", c, off, n)
}

var zeroInt = intT(0)

// elAt reads element i of sequence c, resolving updates and comprehensions where that is certain.
func elAt(c, i *Term) *Term {
	i = stripConv(i)
	switch c.op {
	case "lit":
		if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(c.args) {
			return c.args[n]
		}
	case "sto":
		if c.args[1] == i {
			return c.args[2]
		}
		if d, ok := constDiff(c.args[1], i); ok && d != 0 {
			return elAt(c.args[0], i)
		}
	case "mkseq":
		return c.args[1]
	case "sub":
		return elAt(c.args[0], add(c.args[1], i))
	case "cat":
		l := lenOf(c.args[0])
		if d, ok := constDiff(i, l); ok {
			if d >= 0 {
				return elAt(c.args[1], intT(d))
			}
			if d < 0 {
				return elAt(c.args[0], i)
			}
		}
	case "lsto":
		// init, T, idx, v
		lv := loopVar(c.sym)
		if d, ok := constDiff(c.args[2], lv); ok {
			k := addK(i, -d)
			if d == 0 && c.args[0].op == "mkseq" && (c.args[0].args[0] == c.args[1]) {
				return subst(c.args[3], map[*Term]*Term{lv: k})
			}
			if dd, ok := constDiff(k, intT(0)); ok && dd < 0 {
				return elAt(c.args[0], i)
			}
			if dd, ok := constDiff(k, c.args[1]); ok && dd >= 0 {
				return elAt(c.args[0], i)
			}
		}
	case "lcat":
		lv := loopVar(c.sym)
		e := c.args[2]
		if e.op == "lit" && len(e.args) == 1 {
			l0 := lenOf(c.args[0])
			if n, ok := l0.intVal(); ok && n == 0 {
				return subst(e.args[0], map[*Term]*Term{lv: i})
			}
			if d, ok := constDiff(i, l0); ok && d < 0 {
				return elAt(c.args[0], i)
			}
			if d, ok := constDiff(i, lenOf(c)); ok && d >= 0 {
				break
			}
			if !i.hasFV(lv) {
				// unresolved
			}
		}
	case "cpy":
		// c, off, src, n
		if o, ok := c.args[1].intVal(); ok && o == 0 {
			if lenOf(c.args[0]) == c.args[3] {
				return elAt(c.args[2], i)
			}
			if d, ok := constDiff(i, c.args[3]); ok && d >= 0 {
				return elAt(c.args[0], i)
			}
			if d, ok := constDiff(i, c.args[3]); ok && d < 0 {
				return elAt(c.args[2], i)
			}
		}
	case "choice":
		return mapChoice(c, func(x *Term) *Term { return elAt(x, i) })
	case "valc":
	}
	return mk("el", "", c, i)
}

func loopVar(l string) *Term { return mk("lv", l) }

// ---- maps ----

// keepMap resolves "unchanged" alternatives of a conditional map update.
func keepMap(v *Term, keep func(m, k *Term) *Term, val func(*Term) *Term) *Term {
	switch v.op {
	case "mkeep":
		return keep(v.args[0], v.args[1])
	case "choice":
		if hasKeep(v) {
			return mapChoice(v, func(x *Term) *Term { return keepMap(x, keep, val) })
		}
	}
	return val(v)
}

func hasKeep(t *Term) bool {
	if t.op == "mkeep" {
		return true
	}
	if t.op == "choice" {
		_, alts := choiceAlts(t)
		for _, a := range alts {
			if hasKeep(a) {
				return true
			}
		}
	}
	return false
}

func mapGet(m, k *Term) *Term {
	k = stripConv(k)
	switch m.op {
	case "msto":
		if m.args[1] == k {
			return keepMap(m.args[2], mapGet, func(v *Term) *Term { return v })
		}
		if d, ok := constDiff(m.args[1], k); ok && d != 0 {
			return mapGet(m.args[0], k)
		}
	case "choice":
		return mapChoice(m, func(x *Term) *Term { return mapGet(x, k) })
	}
	return mk("mget", "", m, k)
}

func mapHas(m, k *Term) *Term {
	k = stripConv(k)
	switch m.op {
	case "mkmap":
		return tFalse
	case "msto":
		if m.args[1] == k {
			return keepMap(m.args[2], mapHas, func(*Term) *Term { return tTrue })
		}
		if d, ok := constDiff(m.args[1], k); ok && d != 0 {
			return mapHas(m.args[0], k)
		}
	case "choice":
		return mapChoice(m, func(x *Term) *Term { return mapHas(x, k) })
	}
	return mk("mhas", "", m, k)
}

func mkValc(c *Term) *Term { return mk("valc", "", c) }

// ---- rebuilding and substitution ----

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "lin":
		l := toLin(t)
		r := lin{c: l.c, m: map[*Term]int64{}}
		for i, a := range t.args {
			r = r.add(toLin(args[i]), l.m[a])
		}
		return r.term()
	case "ge0":
		return ge0(args[0])
	case "eq0":
		return eqInt(args[0], zeroInt)
	case "not":
		return not(args[0])
	case "eq":
		return eqTerm(args[0], args[1])
	case "fld":
		return fld(args[0], t.sym)
	case "el":
		return elAt(args[0], args[1])
	case "len":
		return lenOf(args[0])
	case "sto":
		return mkSto(args[0], args[1], args[2])
	case "cat":
		return mkCat(args[0], args[1])
	case "sub":
		return mkSub(args[0], args[1], args[2])
	case "mget":
		return mapGet(args[0], args[1])
	case "mhas":
		return mapHas(args[0], args[1])
	case "choice":
		n := tokens[t.sym].nparams
		return mkChoice(t.sym, args[:n], args[n:])
	case "struct":
		return mk("struct", t.sym, args...)
	case "valc":
		return mkValc(args[0])
	case "muv":
		if args[0].op != "lv" || args[0].sym != strings.SplitN(t.sym, ":", 2)[0] {
			return mk("mu", t.sym, args...)
		}
	case "ext":
		if args[0].op == "tuple" || args[0].op == "choice" {
			n, _ := strconv.Atoi(t.sym)
			return extract(args[0], n)
		}
	case "app":
		return mkApp(t.sym, args...)
	}
	return mk(t.op, t.sym, args...)
}

// mkApp builds an operator application with the few algebraic simplifications the analysis uses.
func mkApp(name string, args ...*Term) *Term {
	switch name {
	case "G1.Equals", "Zr.Equals", "Gt.Equals", "G2.Equals":
		if args[0] == args[1] {
			return tTrue
		}
		if args[0].id > args[1].id {
			args = []*Term{args[1], args[0]}
		}
	case "G1.Copy", "G2.Copy", "Zr.Copy":
		return args[0]
	}
	return mk("app", name, args...)
}

func subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return newSubst(m)(t)
}

func newSubst(m map[*Term]*Term) func(*Term) *Term {
	memo := map[*Term]*Term{}
	var keys []int
	for k := range m {
		if k.op == "lv" {
			keys = append(keys, k.id)
		} else {
			keys = nil
			break
		}
	}
	sort.Ints(keys)
	onlyLV := len(keys) == len(m)
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if onlyLV {
			hit := false
			for _, k := range keys {
				i := sort.SearchInts(t.fv, k)
				if i < len(t.fv) && t.fv[i] == k {
					hit = true
					break
				}
			}
			if !hit {
				return t
			}
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			// the bound variable of a comprehension is not free in its body
			args[i] = a
			if binds(t, i) && boundIn(t, m) {
				mm := map[*Term]*Term{}
				for k, v := range m {
					if k.op == "lv" && k.sym == t.sym {
						continue
					}
					mm[k] = v
				}
				args[i] = subst(a, mm)
			} else {
				args[i] = rec(a)
			}
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec
}

func binds(t *Term, i int) bool {
	switch t.op {
	case "lsto":
		return i >= 2
	case "mlsto":
		return i >= 2
	case "lcat":
		return i == 2
	case "all":
		return i == 1
	}
	return false
}

func boundIn(t *Term, m map[*Term]*Term) bool {
	for k := range m {
		if k.op == "lv" && k.sym == t.sym {
			return true
		}
	}
	return false
}

// ---- printing ----

func (t *Term) String() string { return t.str(7) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d == 0 && len(t.args) > 0 {
		return "…"
	}
	as := func(args []*Term) string {
		var s []string
		for _, a := range args {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case "int":
		return t.sym
	case "str":
		return strconv.Quote(t.sym)
	case "bool":
		return t.sym
	case "nil":
		return "nil"
	case "in", "glob", "func":
		return t.sym
	case "lv":
		return "κ" + t.sym
	case "fld":
		return t.args[0].str(d) + "." + t.sym
	case "el":
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + "]"
	case "len":
		return "len(" + t.args[0].str(d-1) + ")"
	case "lin":
		l := toLin(t)
		var s []string
		for _, a := range t.args {
			k := l.m[a]
			x := a.str(d - 1)
			switch k {
			case 1:
				s = append(s, "+"+x)
			case -1:
				s = append(s, "-"+x)
			default:
				s = append(s, fmt.Sprintf("%+d*%s", k, x))
			}
		}
		if l.c != 0 {
			s = append(s, fmt.Sprintf("%+d", l.c))
		}
		return "(" + strings.TrimPrefix(strings.Join(s, ""), "+") + ")"
	case "ge0":
		return t.args[0].str(d-1) + ">=0"
	case "eq0":
		return t.args[0].str(d-1) + "==0"
	case "not":
		return "!(" + t.args[0].str(d-1) + ")"
	case "eq":
		return "(" + t.args[0].str(d-1) + " == " + t.args[1].str(d-1) + ")"
	case "choice":
		n := tokens[t.sym].nparams
		return "choice" + t.sym + "{" + as(t.args[n:]) + "}"
	case "app":
		return t.sym + "(" + as(t.args) + ")"
	case "struct":
		names := strings.Split(t.sym, ",")[1:]
		var s []string
		for i, n := range names {
			if i >= len(t.args) {
				break
			}
			s = append(s, n+":"+t.args[i].str(d-1))
		}
		return "{" + strings.Join(s, ", ") + "}"
	}
	return t.op + ":" + t.sym + "(" + as(t.args) + ")"
}

// walkDeep visits a term, looking through fixpoint definitions.
func walkDeep(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		if t.op == "mu" || t.op == "muv" {
			if d := muDefs[t.sym]; d != nil && d.next != nil {
				rec(d.init)
				rec(d.next)
			}
		}
	}
	rec(t)
}

// minT: the smaller of two lengths.
func minT(a, b *Term) *Term {
	nonneg := func(t *Term) bool {
		l := toLin(t)
		if l.c < 0 {
			return false
		}
		for x, k := range l.m {
			if k < 0 || x.op != "len" {
				return false
			}
		}
		return true
	}
	if nonneg(subT(b, a)) {
		return a
	}
	if nonneg(subT(a, b)) {
		return b
	}
	return app("min", a, b)
}
