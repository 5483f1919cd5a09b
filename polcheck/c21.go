package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: results do not depend on the iteration order of maps.

func init() {
	register("C21", "in every function from which a map iteration or the decoding of a list emitted in map order is reached: the value terms that are hashed, committed to, stored, returned or left in arguments hold no sequence built in iteration order (unless sorted), no value that the last or first iteration decides, and no accumulation by an operation that does not commute; what is put at a place the key determines is accepted; lists of a database record may be in map order, everything read back from them is held to the same rule", checkC21)
}

type orderCheck struct {
	c     *Ctx
	lists map[string]string // "type.field" of records emitted in map order: the iteration
	memo  map[*Term]string
	depth int
}

func checkC21(c *Ctx) {
	o := &orderCheck{c: c, lists: map[string]string{}, memo: map[*Term]string{}}
	roots := o.roots()
	if len(roots) == 0 {
		c.note("no iteration over a map")
		c.oblige(true, "none", "", "")
		return
	}
	// first the lists that are emitted in map order
	var ss []*session
	var rets []*Term
	var argss [][]*Term
	for _, f := range roots {
		s := c.session()
		s.in.streams = true
		args := o.args(f)
		r := s.call(f, args...)
		ss, rets, argss = append(ss, s), append(rets, r), append(argss, args)
		for _, e := range s.in.Events {
			if e.Kind == "marshal" {
				o.emitted(e)
			}
		}
	}
	o.memo = map[*Term]string{}
	for i, f := range roots {
		o.function(f, ss[i], rets[i], argss[i])
	}
	var ls []string
	for l := range o.lists {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	c.note("lists in map order: %s", strings.Join(ls, ", "))
}

func (o *orderCheck) args(f *ssa.Function) []*Term {
	var args []*Term
	for i := range f.Params {
		switch {
		case f.Signature.Recv() != nil && i == 0:
			args = append(args, in("recv"))
		case f.Signature.Recv() != nil:
			args = append(args, in("a"+itoa(i-1)))
		default:
			args = append(args, in("a"+itoa(i)))
		}
	}
	return args
}

// roots: functions from which an iteration over a map or the decoding of a record is reached.
func (o *orderCheck) roots() []*ssa.Function {
	direct := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	all := o.c.p.Functions("bench")
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Range:
					if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
						direct[f] = true
					}
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil && g.Pkg != nil {
						n := g.Pkg.Pkg.Path() + "." + g.Name()
						if n == "encoding/asn1.Unmarshal" || n == "maps.Keys" || n == "maps.Values" || n == "maps.All" {
							direct[f] = true
						}
						if g.Origin() != nil && g.Origin().Pkg != nil && g.Origin().Pkg.Pkg.Path() == "maps" {
							direct[f] = true
						}
					}
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
					if m, ok := (*op).(*ssa.MakeClosure); ok {
						if g, ok := m.Fn.(*ssa.Function); ok {
							callers[g] = append(callers[g], f)
						}
					}
				}
			}
		}
		if f.Parent() != nil {
			callers[f] = append(callers[f], f.Parent())
		}
	}
	reach := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if reach[f] {
			return
		}
		reach[f] = true
		for _, g := range callers[f] {
			up(g)
		}
	}
	for f := range direct {
		up(f)
	}
	var r []*ssa.Function
	for _, f := range all {
		if reach[f] && f.Parent() == nil && f.Synthetic == "" {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// emitted notes the lists of a record that are in map order.
func (o *orderCheck) emitted(e *Event) {
	t := e.Args[0]
	if t.op != "app" || len(t.args) == 0 || t.args[0].op != "struct" {
		return
	}
	typ := strings.TrimPrefix(t.sym, "asn1:")
	for _, n := range structFields(t.args[0]) {
		if o.sens(fld(t.args[0], n)) != "" {
			k, by := typ+"."+n, o.source(fld(t.args[0], n))
			if old, ok := o.lists[k]; ok && old != by {
				by = k
			}
			o.lists[k] = by
		}
	}
}

// record: an encoded record of which only the lists that may be are in map order.
func (o *orderCheck) record(t *Term) bool {
	return t.op == "app" && strings.HasPrefix(t.sym, "asn1:") && len(t.args) > 0 && t.args[0].op == "struct"
}

// list: a decoded list that was emitted in map order.
func (o *orderCheck) list(t *Term) bool {
	return t.op == "fld" && t.args[0].op == "app" && strings.HasPrefix(t.args[0].sym, "unasn1:") && o.lists[strings.TrimPrefix(t.args[0].sym, "unasn1:")+"."+t.sym] != ""
}

// source: what the order of an unordered sequence comes from; places in two sequences correspond only if
// they were made by the same iteration.
func (o *orderCheck) source(t *Term) string {
	switch {
	case o.list(t):
		return t.args[0].String() + "/" + o.lists[strings.TrimPrefix(t.args[0].sym, "unasn1:")+"."+t.sym]
	case t.op == "lcat" && o.unordered(t) && !o.unordered(t.args[0]), t.op == "lsto":
		// the iteration may itself be over another unordered sequence
		if ss := o.sources(t.args[len(t.args)-1], loopVar(t.sym)); len(ss) == 1 {
			for k := range ss {
				if k != "" {
					return k
				}
			}
		}
		return "loop " + t.sym
	}
	return t.String()
}

// sources: what the place of the iteration lv in t stands for.
func (o *orderCheck) sources(t, lv *Term) map[string]bool {
	r := map[string]bool{}
	walk(t, func(x *Term) bool {
		switch x.op {
		case "mapkey":
			if x.args[1] == lv {
				r["loop "+lv.sym] = true
			}
		case "el":
			if x.args[1] == lv && o.unordered(x.args[0]) {
				r[o.source(x.args[0])] = true
			}
		}
		return true
	})
	return r
}

func (o *orderCheck) mixed(lv *Term, ts ...*Term) string {
	r := map[string]bool{}
	for _, t := range ts {
		for k := range o.sources(t, lv) {
			r[k] = true
		}
	}
	if len(r) > 1 {
		return "entries at the same place of two sequences in map order"
	}
	return ""
}

// pos: t depends on where in an unordered sequence the iteration lv is.
func (o *orderCheck) pos(t, lv *Term) bool {
	ok := false
	walk(t, func(x *Term) bool {
		if ok {
			return false
		}
		switch x.op {
		case "mapkey":
			ok = x.args[1] == lv
		case "el":
			ok = x.args[1] == lv && o.unordered(x.args[0])
		case "muv":
			// carried over the same iterations
			if df := muDefs[x.sym]; df != nil && df.next != nil && x.args[0] == lv && x != df.self {
				ok = o.pos(df.next, loopVar(df.loop))
			}
		}
		return !ok
	})
	return ok
}

// unordered: a sequence whose order is that of an iteration over a map.
func (o *orderCheck) unordered(t *Term) bool {
	switch {
	case o.list(t):
		return true
	case t.op == "lcat":
		return o.pos(t.args[2], loopVar(t.sym)) || o.unordered(t.args[0])
	case t.op == "lsto":
		lv := loopVar(t.sym)
		return !o.pos(t.args[2], lv) && o.pos(t.args[3], lv)
	case t.op == "app" && (strings.HasPrefix(t.sym, "maps.") || strings.HasPrefix(t.sym, "slices.Collect")):
		return true
	case t.op == "cat" || t.op == "sub" || t.op == "cpy":
		for _, a := range t.args {
			if o.unordered(a) {
				return true
			}
		}
	case t.op == "choice":
		for _, a := range alternatives(t) {
			if a != t && o.unordered(a) {
				return true
			}
		}
	}
	return false
}

// sens: what in t depends on the order of an iteration, "" if nothing does.
func (o *orderCheck) sens(t *Term) string {
	if r, ok := o.memo[t]; ok {
		return r
	}
	o.memo[t] = ""
	if o.depth > 400 {
		return ""
	}
	o.depth++
	r := o.sens1(t)
	o.depth--
	o.memo[t] = r
	return r
}

func (o *orderCheck) sens1(t *Term) string {
	args := t.args
	switch t.op {
	case "app":
		if t.sym == "sorted" && len(args) > 0 && o.unordered(args[0]) {
			// the elements themselves must not depend on the order
			if q := args[0]; q.op == "lcat" {
				return first(o.sens(q.args[0]), o.sens(q.args[2]))
			}
			return ""
		}
		if strings.HasPrefix(t.sym, "slices.Sorted") || t.sym == "len" {
			return ""
		}
		if o.unordered(t) {
			return "a sequence in map order"
		}
	case "len":
		return ""
	case "fld":
		if o.list(t) {
			return "a list in map order"
		}
	case "el":
		if o.unordered(args[0]) {
			if args[1].op == "lv" {
				return o.sens(args[1])
			}
			return fmt.Sprintf("element %s of a sequence in map order", args[1])
		}
	case "mapkey":
		if args[1].op != "lv" {
			return "the key at which an iteration over a map stopped"
		}
		return o.sens(args[0])
	case "lcat":
		lv := loopVar(t.sym)
		if o.pos(args[2], lv) {
			return "a sequence in map order"
		}
	case "lsto":
		lv := loopVar(t.sym)
		if r := o.mixed(lv, args[2], args[3]); r != "" {
			return r
		}
		if !o.pos(args[2], lv) && o.pos(args[3], lv) {
			if args[2] == lv {
				return "a sequence in map order"
			}
			return "a value set in every iteration over a map, the last one wins"
		}
		if o.pos(args[2], lv) && o.clash(args[2]) && o.pos(args[3], lv) {
			return "entries of a map that may share a place"
		}
	case "mlsto":
		lv := loopVar(t.sym)
		if r := o.mixed(lv, args[2], args[3]); r != "" {
			return r
		}
		if !o.pos(args[2], lv) && o.pos(args[3], lv) {
			return "a value set in every iteration over a map, the last one wins"
		}
		if o.pos(args[2], lv) && o.clash(args[2]) && o.pos(args[3], lv) {
			return "entries of a map that may share a key"
		}
	case "mu", "muv":
		df := muDefs[t.sym]
		if df == nil || df.next == nil {
			break
		}
		if t.op == "muv" && t != df.self {
			// within the loop: a running value
		}
		lv := loopVar(df.loop)
		if o.pos(df.next, lv) {
			if r := o.carried(df, lv); r != "" {
				return r
			}
		}
		return first(o.sensOrNil(df.init), o.sens(df.next))
	}
	for _, a := range args {
		if r := o.sens(a); r != "" {
			return r
		}
	}
	return ""
}

func (o *orderCheck) sensOrNil(t *Term) string {
	if t == nil {
		return ""
	}
	return o.sens(t)
}

func first(rs ...string) string {
	for _, r := range rs {
		if r != "" {
			return r
		}
	}
	return ""
}

// clash: different keys may be put at the same place.
func (o *orderCheck) clash(t *Term) bool {
	r := false
	walk(t, func(x *Term) bool {
		if lossy(x) {
			r = true
		}
		return !r
	})
	return r
}

var commuting = map[string]bool{"Curve.ModAdd": true, "Zr.Plus": true, "Curve.ModMul": true, "Zr.Mul": true, "G1.Add": true, "G2.Add": true, "Gt.Mul": true, "Int.Add": true, "Int.Mul": true, "Int.And": true, "Int.Or": true, "Int.Xor": true, "G1.Sub": true, "Curve.ModSub": true, "Zr.Minus": true, "Int.Sub": true}

// carried: a value carried from one iteration over a map to the next is the same in any order.
func (o *orderCheck) carried(df *muDef, lv *Term) string {
	bad := o.mixed(lv, df.next)
	fixed := map[*Term]bool{}
	for _, a := range alternatives(df.next) {
		switch {
		case a == df.self:
		case !o.pos(a, lv) && !mentions(a, df.self):
			fixed[a] = true
		case !o.pos(a, lv):
		case o.accumulates(a, df.self, ""):
		default:
			bad = "a value that depends on the order in which a map is gone through: " + short(a)
		}
	}
	if len(fixed) > 1 {
		bad = "a value that the last matching entry of a map decides"
	}
	return bad
}

// class: operations of the same class may be mixed.
func class(sym string) string {
	if strings.HasSuffix(sym, "Mul") {
		return "mul"
	}
	if strings.HasPrefix(sym, "Int.") && !strings.HasSuffix(sym, "Add") && !strings.HasSuffix(sym, "Sub") {
		return sym
	}
	return "add"
}

func (o *orderCheck) accumulates(t, self *Term, cl string) bool {
	if t == self {
		return true
	}
	free := func(x *Term) bool { return !mentions(x, self) }
	switch {
	case t.op == "lin":
		if cl != "" && cl != "add" {
			return false
		}
		l := toLin(t)
		for a, k := range l.m {
			if a == self {
				if k != 1 {
					return false
				}
			} else if !free(a) {
				return false
			}
		}
		return l.m[self] != 0
	case t.op == "app" && commuting[t.sym]:
		if cl != "" && cl != class(t.sym) {
			return false
		}
		n := 0
		for i, x := range t.args {
			if free(x) {
				continue
			}
			n++
			if (strings.HasSuffix(t.sym, "Sub") || strings.HasSuffix(t.sym, "Minus")) && i != 0 && !(strings.HasPrefix(t.sym, "Curve.") && i == 1) {
				return false
			}
			if !o.accumulates(x, self, class(t.sym)) {
				return false
			}
		}
		return n == 1
	case t.op == "app" && (t.sym == "max" || t.sym == "min" || strings.HasPrefix(t.sym, "bin:")):
		return true
	case t.op == "choice":
		for _, a := range alternatives(t) {
			if !o.accumulates(a, self, cl) {
				return false
			}
		}
		return true
	case t.op == "and" || t.op == "or":
		return true
	case t.op == "msto":
		// put under the key of the entry
		return o.accumulates(t.args[0], self, cl) && free(t.args[2])
	case t.op == "sto":
		return o.accumulates(t.args[0], self, cl) && free(t.args[2]) && !t.args[1].isInt()
	}
	return false
}

func (t *Term) isInt() bool { _, ok := t.intVal(); return ok }

func (o *orderCheck) function(f *ssa.Function, s *session, ret *Term, args []*Term) {
	c := o.c
	name := shortFn(f)
	site := c.siteOf(f)
	if s.st.dead && len(s.in.Events) == 0 {
		return
	}
	fs := s.st.factList()
	report := func(kind, site, why string) {
		c.oblige(why == "", name+"/"+kind, site, kind+" depends on "+why)
	}
	// what is returned
	if !s.st.dead && ret != nil && ret.op != "unit" && o.visible(f) {
		for i, x := range resultParts(ret) {
			t := s.in.deep(s.st, x, resultTypeAt(f, i), 0)
			if isErr(f, i) {
				continue
			}
			report("result", site, o.parts(newResolver(fs).deep(t)))
		}
	}
	for _, e := range s.in.Events {
		switch e.Kind {
		case "digest":
			if len(e.Args) > 0 {
				report("digest", c.eventSite(e), first(o.sens(e.Args[0]), o.rawRecord(e.Args[0])))
			}
		case "dbput":
			if len(e.Args) > 2 {
				report("record", c.eventSite(e), first(o.sens(e.Args[1]), o.parts(e.Args[2])))
			}
		case "store", "mutate", "mapupd":
			if len(e.Args) == 0 || s.st.dead {
				continue
			}
			root := baseOfAddr(e.Args[0])
			if root == nil || root.op != "in" && root.op != "glob" && root.op != "gaddr" {
				continue
			}
			if e.Kind == "store" && e.Args[0].op == "fa" && !hasLoopVar(e.Args[0]) {
				v := s.in.load(s.st, e.Args[0], nil)
				report("argument", c.eventSite(e), o.parts(s.in.deep(s.st, v, storedType(e), 0)))
			}
		case "callfn":
			call, ok := e.Instr.(ssa.CallInstruction)
			for i, a := range e.Args {
				t := a
				if ok && i > 0 && e.St != nil && i-1 < len(call.Common().Args) {
					t = s.in.deep(e.St, a, call.Common().Args[i-1].Type(), 0)
				}
				report("callback", c.eventSite(e), o.sens(t))
			}
		}
	}
}

// parts: like sens, but the lists of a record may be in map order.
func (o *orderCheck) parts(t *Term) string {
	if o.record(t) {
		typ := strings.TrimPrefix(t.sym, "asn1:")
		for _, n := range structFields(t.args[0]) {
			if o.lists[typ+"."+n] == "" {
				if r := o.sens(fld(t.args[0], n)); r != "" {
					return r
				}
			}
		}
		return ""
	}
	if t.op == "choice" {
		for _, a := range alternatives(t) {
			if a != t {
				if r := o.parts(a); r != "" {
					return r
				}
			}
		}
		return ""
	}
	return o.sens(t)
}

// rawRecord: the bytes of a database record are used as they are.
func (o *orderCheck) rawRecord(t *Term) string {
	if len(o.lists) == 0 {
		return ""
	}
	r := ""
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if r != "" || d > 60 {
			return
		}
		if t.op == "app" && strings.HasPrefix(t.sym, "unasn1") {
			return
		}
		if t.op == "mget" && database(t.args[0]) {
			r = "the bytes of a database record, whose lists are in map order"
			return
		}
		for _, a := range t.args {
			rec(a, d+1)
		}
	}
	rec(t, 0)
	return r
}

// database: a state of a database.
func database(t *Term) bool {
	switch t.op {
	case "db":
		return true
	case "msto", "mlsto", "mkeep":
		return database(t.args[0])
	case "choice":
		for _, a := range alternatives(t) {
			if a != t && database(a) {
				return true
			}
		}
	case "mu", "muv":
		df := muDefs[t.sym]
		return df != nil && df.init != nil && database(df.init)
	}
	return false
}

// visible: the result of f is not only used within its package.
func (o *orderCheck) visible(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported()
}

func resultParts(t *Term) []*Term {
	if t.op == "tuple" {
		return t.args
	}
	return []*Term{t}
}

func resultTypeAt(f *ssa.Function, i int) types.Type {
	if rs := f.Signature.Results(); i < rs.Len() {
		return rs.At(i).Type()
	}
	return nil
}

func isErr(f *ssa.Function, i int) bool {
	t := resultTypeAt(f, i)
	return t != nil && isErrorType(t)
}

func storedType(e *Event) types.Type {
	if st, ok := e.Instr.(*ssa.Store); ok {
		return st.Val.Type()
	}
	return nil
}

func hasLoopVar(t *Term) bool {
	r := false
	walk(t, func(x *Term) bool {
		r = r || x.op == "lv"
		return !r
	})
	return r
}

// baseOfAddr: what an address is a part of.
func baseOfAddr(t *Term) *Term {
	for {
		switch t.op {
		case "fa", "ea", "fld", "el", "mget", "slice", "sub", "mkif", "ta":
			t = t.args[0]
		default:
			return t
		}
	}
}

func structFields(t *Term) []string {
	var r []string
	for _, n := range strings.Split(t.sym, ",") {
		if n != "" {
			r = append(r, n)
		}
	}
	return r
}
