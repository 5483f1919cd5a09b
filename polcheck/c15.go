package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: goroutines are awaited, free of races, and parallelism changes nothing.

func init() {
	register("C15", "every goroutine reachable from an exported operation signals its end on each of its paths as the last thing it does, and is awaited before each return of the operation; the accesses of a goroutine and of what may run beside it (other instances of it, other goroutines, the starting function until it waits) conflict only under a common lock, through atomics, or at addresses distinct per instance; the operations performed with and without parallelism are the same", checkC15)
}

// goRoots: exported functions of the library from which a goroutine is started.
func (c *Ctx) goRoots() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.p.Functions("bench") {
		if f.Pkg == nil || f.Pkg.Pkg.Name() == "main" || f.Parent() != nil || f.Synthetic != "" || f.Name() == "init" {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if c.startsGoroutine(f) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (c *Ctx) startsGoroutine(f *ssa.Function) bool {
	for _, g := range append(c.ownCallees(f), f) {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Go:
					return true
				case *ssa.Call:
					if s := x.Call.StaticCallee(); s != nil && s.String() == "(*sync.WaitGroup).Go" {
						return true
					}
				}
			}
		}
	}
	return false
}

// heavy: functions of the proof packages, left uninterpreted while the goroutines are analysed.
func (c *Ctx) heavy(root *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.p.Functions("bench") {
		if f.Pkg == nil || f.Pkg == root.Pkg || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		switch f.Pkg.Pkg.Name() {
		case "bp", "sum", "poe", "pp":
			if !c.startsGoroutine(f) {
				r = append(r, f)
			}
		}
	}
	return r
}

// access is one access to memory.
type access struct {
	addr  *Term // address, backing array, pointer or map
	write bool
	ev    *Event
	at    int
	lock  *Term
	whole bool // the whole object behind addr
}

// goRun is one go statement in one calling context.
type goRun struct {
	ev       *Event
	from, to int
	wg       *Term
	chans    []*Term
	acc      []access
	atomics  map[*Term]bool
}

func rootAddr(a *Term) *Term {
	for {
		switch a.op {
		case "fa", "ea", "bk", "vc", "mc", "valc", "slice", "sub", "mkif":
			if len(a.args) == 0 {
				return a
			}
			a = a.args[0]
		default:
			return a
		}
	}
}

func internalAddr(a *Term) bool {
	for a.op == "fa" || a.op == "ea" {
		if strings.HasPrefix(a.sym, "$") {
			return true
		}
		a = a.args[0]
	}
	return a.op == "gaddr" && strings.HasPrefix(a.sym, "$")
}

// reach: the objects reachable from a value in a state.
func (in *Interp) reach(st *State, t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	cells := map[string][]*Term{}
	st.mem.Each(func(k int, v *Term) {
		a := termList[k]
		r := rootAddr(a)
		if r.op == "obj" {
			cells[r.sym] = append(cells[r.sym], v)
		}
	})
	var rec func(t *Term)
	rec = func(t *Term) {
		walkDeep(t, func(x *Term) bool {
			if x.op != "obj" || seen[x] {
				return !seen[x]
			}
			seen[x] = true
			out[x] = true
			for _, v := range cells[x.sym] {
				rec(v)
			}
			return true
		})
	}
	rec(t)
	return out
}

func checkC15(c *Ctx) {
	roots := c.goRoots()
	if len(roots) == 0 {
		c.oblige(true, "no-goroutines", "library packages", "")
		return
	}
	done := map[string]bool{}
	for _, f := range roots {
		c.goroutinesOf(f, done)
	}
}

// accesses of one event.
func (c *Ctx) accessesOf(in *Interp, e *Event, at int) []access {
	lock := in.ghost(e.St, lockCell)
	mk1 := func(a *Term, w, whole bool) access {
		return access{addr: a, write: w, ev: e, at: at, lock: lock, whole: whole}
	}
	var r []access
	switch e.Kind {
	case "load":
		if !internalAddr(e.Args[0]) {
			r = append(r, mk1(e.Args[0], false, false))
		}
	case "store":
		if !internalAddr(e.Args[0]) {
			r = append(r, mk1(e.Args[0], true, false))
		}
	case "mutate":
		r = append(r, mk1(e.Args[0], true, true))
	case "mapupd", "mapdel", "copy", "sort", "putint":
		r = append(r, mk1(e.Args[0], true, true))
	case "append":
		for _, s := range appendBases(e.Args[0]) {
			bk, off, n := sliceParts(s)
			switch {
			case s.op != "slice":
				if !nothing(in, e) {
					r = append(r, mk1(bk, true, true))
				}
			case s.sym == "full":
			case !entails(e.St.factList(), ge0(subT(add(off, n), lenOf(initialOf2(bk))))):
				r = append(r, mk1(bk, true, true))
			}
		}
	case "atomic", "extern":
		if e.Kind == "extern" && (strings.HasPrefix(e.Name, "(*sync") || strings.HasPrefix(e.Name, "sync")) {
			return nil
		}
		for _, a := range e.Args {
			for o := range in.reach(e.St, a) {
				r = append(r, mk1(o, false, true))
			}
		}
	}
	return r
}

// sameMem: may the two accesses touch the same memory in the same iteration of the loops?
func sameMem(a, b access) bool {
	ra, rb := rootAddr(a.addr), rootAddr(b.addr)
	if ra.op == "choice" || rb.op == "choice" {
		return false
	}
	if ra.op != rb.op || ra.sym != rb.sym {
		return false
	}
	if ra.op != "obj" && ra != rb {
		return false
	}
	if a.whole || b.whole {
		return true
	}
	// cell by cell: one path of fields and elements is a prefix of the other
	pa, pb := pathOf(a.addr), pathOf(b.addr)
	for i := 0; i < len(pa) && i < len(pb); i++ {
		if pa[i] != pb[i] && !(strings.HasPrefix(pa[i], "[") && strings.HasPrefix(pb[i], "[")) {
			return false
		}
	}
	return true
}

func pathOf(a *Term) []string {
	var r []string
	for {
		switch a.op {
		case "fa":
			r = append([]string{"." + a.sym}, r...)
		case "ea":
			r = append([]string{"[]"}, r...)
		case "bk", "vc", "mc", "valc":
		default:
			return r
		}
		a = a.args[0]
	}
}

// elemIndex: the index of the outermost element access in an address.
func elemIndex(a *Term) *Term {
	var ix *Term
	for {
		switch a.op {
		case "ea":
			ix = a.args[1]
		case "fa", "bk", "vc", "mc", "valc":
		default:
			return ix
		}
		a = a.args[0]
	}
}

func slopeIn(t, k *Term) int64 {
	if t == nil || k == nil {
		return 0
	}
	d := subT(subst(t, map[*Term]*Term{k: add(k, intT(1))}), t)
	if v, ok := d.intVal(); ok {
		return v
	}
	return 0
}

func (c *Ctx) goroutinesOf(f *ssa.Function, done map[string]bool) {
	r := c.analyseWith(f, entryArgs(f), func(i *Interp, _ *State) { i.trackLoads = true }, c.heavy(f)...)
	in := r.in
	var runs []*goRun
	var stack []*goRun
	for i, e := range in.Events {
		switch e.Kind {
		case "go":
			g := &goRun{ev: e, from: i, to: len(in.Events), atomics: map[*Term]bool{}}
			runs = append(runs, g)
			stack = append(stack, g)
		case "goend":
			if len(stack) > 0 {
				stack[len(stack)-1].to = i
				stack = stack[:len(stack)-1]
			}
		}
		for _, g := range stack {
			switch e.Kind {
			case "wgdone":
				g.wg = e.Args[0]
			case "send":
				g.chans = append(g.chans, e.Args[0])
			case "sync":
				if strings.HasPrefix(e.Name, "Value.") || strings.HasPrefix(e.Name, "Bool.") || strings.HasPrefix(e.Name, "Pointer.") || strings.HasPrefix(e.Name, "Int") || strings.HasPrefix(e.Name, "Uint") {
					if !strings.HasSuffix(e.Name, ".Load") {
						g.atomics[e.Args[0]] = true
					}
				}
			}
			g.acc = append(g.acc, c.accessesOf(in, e, i)...)
		}
	}
	if len(runs) == 0 {
		c.skip("%s: no goroutine was reached by the analysis", shortFn(f))
		return
	}
	// goroutines sitting in code that the analysis does not reach
	name := shortFn(f)
	wgs := map[*Term]bool{}
	for _, g := range runs {
		site := c.eventSite(g.ev)
		end := (*Event)(nil)
		if g.to < len(in.Events) {
			end = in.Events[g.to]
		}
		if end == nil {
			c.skip("%s: the goroutine at %s never ends", name, site)
			continue
		}
		if g.wg != nil {
			wgs[g.wg] = true
		} else {
			for _, ch := range g.chans {
				wgs[ch] = true
			}
		}
		// every path of the goroutine signals its end
		c.oblige(end.Args[0] == ghostDone, name+"/goroutine-signals", site,
			"a path through the goroutine neither calls Done nor sends a result: it is not awaited, or the wait never ends")
		c.oblige(end.Args[1] == ghostNone, name+"/goroutine-releases-lock", site, "a path through the goroutine ends with the lock still held")
		if g.wg == nil && len(g.chans) > 0 {
			got := false
			for _, e := range in.Events {
				if e.Kind == "recv" && !e.InGo {
					for _, ch := range g.chans {
						if rootAddr(e.Args[0]) == rootAddr(ch) || e.Args[0].op == ch.op {
							got = true
						}
					}
				}
			}
			c.oblige(got, name+"/goroutine-result-received", site, "nothing receives what the goroutine sends")
		}
		// nothing shared is touched after the signal
		for i := g.from; i < g.to; i++ {
			e := in.Events[i]
			late := in.ghost(e.St, sigCell) != ghostNone
			for _, a := range c.accessesOf(in, e, i) {
				if !a.write || in.ownedByGo(a.addr) {
					continue
				}
				c.oblige(!late || g.wg == nil, name+"/nothing-after-signal", c.eventSite(e),
					"the goroutine changes "+describe(a.addr)+" after it has signalled its end")
			}
			if e.Kind == "sync" && !strings.Contains(e.Name, "WaitGroup") && !strings.HasSuffix(e.Name, "nlock") && g.wg != nil {
				c.oblige(!late, name+"/nothing-after-signal", c.eventSite(e), "the goroutine uses "+e.Name+" after it has signalled its end")
			}
			if e.Kind == "wgadd" && !in.ownedByGo(e.Args[0]) {
				c.oblige(false, name+"/add-before-go", c.eventSite(e), "the wait group is increased by the goroutine itself, Wait may return before it starts")
			}
		}
	}
	c.counters(r, name)
	c.awaited(r, name, wgs)
	c.channels(r, name, runs)
	c.conflicts(r, name, runs)
	c.verdictAfterWait(r, name, runs)
	c.scheduleOrder(r, name, runs)
	for _, g := range runs {
		c.callees(r, g, done)
	}
	c.bothModes(f, name)
}

// ownedByGo: memory that only this goroutine can reach when it is created.
func (in *Interp) ownedByGo(a *Term) bool {
	root := rootAddr(a)
	if root.op == "choice" {
		_, alts := choiceAlts(root)
		for _, x := range alts {
			if x.op != "nil" && !in.ownedByGo(x) {
				return false
			}
		}
		return true
	}
	if root.op != "obj" {
		return false
	}
	o := in.objs[root.sym]
	return o != nil && o.inGo
}

// counters: the counter of a wait group never goes below zero and is zero when the wait is over.
func (c *Ctx) counters(r *result, name string) {
	linear := func(t *Term) bool {
		ok := true
		walkDeep(t, func(x *Term) bool {
			switch x.op {
			case "mu", "muv", "choice", "app", "weak":
				ok = false
			}
			return ok
		})
		return ok
	}
	for _, e := range r.in.Events {
		switch e.Kind {
		case "wgdone":
			cnt := e.Args[1]
			if cnt == nil {
				continue
			}
			cnt = resolve(e.St.factList(), cnt)
			k, isC := cnt.intVal()
			bad := isC && k < 0
			if !isC && linear(cnt) {
				bad = !entails(e.St.factList(), ge0(cnt))
			}
			if !bad && !isC {
				first, ok := firstTime(cnt)
				k, isC := subst(first, map[*Term]*Term{initialOf2(mk("fa", "$cnt", e.Args[0])): zeroInt}).intVal()
				for _, l := range e.Loops {
					ok = ok && !entails(e.St.factList(), ge0(subT(l, intT(1))))
				}
				bad = ok && isC && k < 0
			}
			c.oblige(!bad, name+"/counter", c.eventSite(e), "Done without a matching Add: the counter is "+describe(cnt))
		case "wgwait":
			cnt := resolve(e.St.factList(), e.Args[1])
			k, isC := cnt.intVal()
			bad := isC && k != 0
			if !isC && linear(cnt) {
				bad = !entails(e.St.factList(), ge0(mulK(cnt, -1)))
			}
			c.oblige(!bad, name+"/counter", c.eventSite(e), "the wait never ends or ends early: the counter is "+describe(cnt)+" when every started goroutine has finished")
		}
	}
}

// firstTime: the value in the first iteration of the loops it is carried by.
func firstTime(t *Term) (*Term, bool) {
	m := map[*Term]*Term{}
	walkDeep(t, func(x *Term) bool {
		if x.op == "mu" || x.op == "muv" {
			if d := muDefs[x.sym]; d != nil && d.init != nil {
				m[x] = d.init
			}
			return false
		}
		return true
	})
	if len(m) == 0 {
		return t, false
	}
	return subst(t, m), true
}

// awaited: at every return of the operation no goroutine may still run.
func (c *Ctx) awaited(r *result, name string, wgs map[*Term]bool) {
	for _, e := range r.in.Events {
		if e.Kind != "return" || e.Fn != r.fn || e.InGo {
			continue
		}
		for wg := range wgs {
			v := r.in.ghost(e.St, mk("fa", "$wg", wg))
			if v != ghostNone {
				v = resolve(e.St.factList(), v)
			}
			c.oblige(v == ghostNone, name+"/awaited", c.eventSite(e), "returns while goroutines started by the call may still run")
		}
	}
}

// perInstance: distinct instances of the goroutine started in the loop have distinct addresses here.
func (in *Interp) perInstance(g *goRun, a *Term, fs []*Term) bool {
	if len(g.ev.Loops) == 0 {
		return false
	}
	k := g.ev.Loops[len(g.ev.Loops)-1]
	if root := rootAddr(a); root.op == "obj" {
		for _, x := range root.args {
			if x == k {
				return true
			}
		}
	}
	if ix := elemIndex(a); ix != nil && slopeIn(resolve(fs, ix), k) != 0 {
		return true
	}
	return false
}

func heldBoth(a, b access) bool {
	return a.lock != ghostNone && a.lock == b.lock
}

func (c *Ctx) conflicts(r *result, name string, runs []*goRun) {
	in := r.in
	isFormal := func(a *Term) bool { // inputs: changing them at all is C05's business
		root := rootAddr(a)
		return root.op != "obj" && root.op != "gaddr" && root.op != "glob"
	}
	for gi, g := range runs {
		// against other instances of the same goroutine
		for _, a := range g.acc {
			if !a.write || in.ownedByGo(a.addr) || isFormal(a.addr) {
				continue
			}
			ok := a.lock != ghostNone || len(g.ev.Loops) == 0 || in.perInstance(g, a.addr, a.ev.St.factList())
			c.oblige(ok, name+"/race-between-goroutines", c.eventSite(a.ev),
				"several goroutines change "+describe(a.addr)+" at the same time without a lock")
		}
		// against other goroutines
		for _, h := range runs[gi+1:] {
			if g.wg == nil || h.from < g.to || in.ghost(h.ev.St, mk("fa", "$wg", g.wg)) == ghostNone {
				continue
			}
			for _, a := range g.acc {
				for _, b := range h.acc {
					if !a.write && !b.write || in.ownedByGo(a.addr) || in.ownedByGo(b.addr) || isFormal(a.addr) || !sameMem(a, b) || heldBoth(a, b) {
						continue
					}
					if pa, pb := elemIndex(a.addr), elemIndex(b.addr); pa != nil && pb != nil && pa == pb && in.perInstance(g, a.addr, nil) && exclusive(g.ev.St, h.ev.St) {
						continue
					}
					if exclusive(g.ev.St, h.ev.St) {
						continue
					}
					c.oblige(false, name+"/race-between-goroutines", c.eventSite(b.ev),
						"two goroutines access "+describe(b.addr)+" at the same time without a common lock")
				}
			}
		}
		// against the starting function
		if g.wg == nil {
			continue
		}
		n := 0
		for i, e := range in.Events {
			if e.InGo {
				continue
			}
			if in.ghost(e.St, mk("fa", "$wg", g.wg)) == ghostNone {
				continue
			}
			for _, m := range c.accessesOf(in, e, i) {
				if isFormal(m.addr) {
					continue
				}
				n++
				for _, a := range g.acc {
					if !a.write && !m.write || in.ownedByGo(a.addr) || !sameMem(a, m) || heldBoth(a, m) {
						continue
					}
					// same iteration, before the goroutine is started
					if i < g.from && inLoopsOf(e, g.ev) && in.sameInstance(g, a.addr, m.addr) {
						continue
					}
					if ia, im := elemIndex(a.addr), elemIndex(m.addr); ia != nil && im != nil && ia != im && !a.whole && !m.whole && len(g.ev.Loops) > 0 {
						k := g.ev.Loops[len(g.ev.Loops)-1]
						s := slopeIn(ia, k)
						if d, ok := subT(im, ia).intVal(); ok && s != 0 && d*s > 0 && inLoopsOf(e, g.ev) {
							continue // an element whose goroutine has not been started yet
						}
					}
					c.oblige(false, name+"/race-with-goroutine", c.eventSite(e),
						fmt.Sprintf("accesses %s while the goroutine started at %s may %s it", describe(m.addr), c.p.pos(g.ev.Pos), verb(a.write)))
				}
			}
		}
		c.oblige(true, name+"/race-with-goroutine", fmt.Sprintf("%s (%d accesses beside it)", c.eventSite(g.ev), n), "")
	}
}

func verb(w bool) string {
	if w {
		return "change"
	}
	return "read"
}

// exclusive: the two states lie on different alternatives.
func exclusive(a, b *State) bool {
	fa := map[*Term]bool{}
	for _, x := range a.factList() {
		fa[x] = true
	}
	for _, y := range b.factList() {
		if fa[not(y)] {
			return true
		}
	}
	return false
}

// inLoopsOf: e happens in the same iteration of the loop that starts g.
func inLoopsOf(e, g *Event) bool {
	if len(e.Loops) < len(g.Loops) {
		return false
	}
	for i, k := range g.Loops {
		if e.Loops[i] != k {
			return false
		}
	}
	return true
}

// sameInstance: an address that belongs to one iteration of the loop only.
func (in *Interp) sameInstance(g *goRun, a, m *Term) bool {
	if !in.perInstance(g, a, nil) {
		return false
	}
	if elemIndex(a) != nil && elemIndex(m) != nil && elemIndex(a) != elemIndex(m) {
		return false
	}
	return in.perInstance(g, m, nil)
}

// verdictAfterWait: an atomic that goroutines set is read after the wait before the operation succeeds.
func (c *Ctx) verdictAfterWait(r *result, name string, runs []*goRun) {
	in := r.in
	for _, g := range runs {
		if g.wg == nil {
			continue
		}
		for a := range g.atomics {
			late := false
			var last *Event
			for _, e := range in.Events {
				if e.Kind == "sync" && !e.InGo && strings.HasSuffix(e.Name, ".Load") && e.Args[0] == a {
					last = e
					v := resolve(e.St.factList(), in.ghost(e.St, mk("fa", "$wg", g.wg)))
					if v == ghostNone {
						late = true
					}
				}
			}
			site := c.eventSite(g.ev)
			if last != nil {
				site = c.eventSite(last)
			}
			c.oblige(late, name+"/verdict-after-wait", site, "what the goroutines report in "+describe(a)+" is not read after they have finished")
		}
	}
}

// scheduleOrder: results of goroutines are not put in the order in which the goroutines finish.
func (c *Ctx) scheduleOrder(r *result, name string, runs []*goRun) {
	in := r.in
	for _, g := range runs {
		if len(g.ev.Loops) == 0 {
			continue
		}
		k := g.ev.Loops[len(g.ev.Loops)-1]
		for i := g.from; i < g.to; i++ {
			e := in.Events[i]
			if e.Kind != "append" || e.Instr == nil {
				continue
			}
			call, ok := e.Instr.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if !isResultSlice(call.Common().Args[0].Type()) {
				continue
			}
			// is the appended slice shared? it is stored outside afterwards
			for j := i + 1; j < g.to; j++ {
				s := in.Events[j]
				if s.Kind == "store" && !in.ownedByGo(s.Args[0]) && elemIndex(s.Args[0]) == nil && sharedSlice(s.Args[1]) {
					c.oblige(in.perInstance(g, s.Args[0], nil), name+"/schedule-order", c.eventSite(e),
						"results are appended in the order in which the goroutines finish")
				}
			}
		}
		for _, e := range in.Events {
			if e.InGo || (e.Kind != "store" && e.Kind != "append") || len(e.Args) < 2 {
				continue
			}
			v := e.Args[1]
			if e.Kind == "store" {
				if ix := elemIndex(e.Args[0]); ix == nil || mentionsOp(ix, "recv") {
					continue
				}
				if u, ok := e.Instr.(*ssa.Store); !ok || !isResultElem(u.Val.Type()) {
					continue
				}
			} else {
				call, ok := e.Instr.(ssa.CallInstruction)
				if !ok || !isResultSlice(call.Common().Args[0].Type()) {
					continue
				}
			}
			for _, ch := range g.chans {
				if deepMentions(ch, k) {
					continue
				}
				bad := false
				walkDeep(v, func(x *Term) bool {
					if x.op == "app" && x.sym == "recv" && x.args[0] == ch {
						bad = true
					}
					return !bad
				})
				if v.op == "slice" {
					walkDeep(in.seq(e.St, v), func(x *Term) bool {
						if x.op == "app" && x.sym == "recv" && x.args[0] == ch {
							bad = true
						}
						return !bad
					})
				}
				c.oblige(!bad, name+"/schedule-order", c.eventSite(e), "results are stored in the order in which the goroutines finish")
			}
		}
	}
}

func mentionsOp(t *Term, name string) bool {
	r := false
	walkDeep(t, func(x *Term) bool {
		if x.op == "app" && x.sym == name {
			r = true
		}
		return !r
	})
	return r
}

func sharedSlice(v *Term) bool {
	return v.op == "slice" || v.op == "choice" || v.op == "mu" || v.op == "muv"
}

func isResultElem(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func isResultSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isResultElem(s.Elem())
}

// callees: what the goroutine calls changes nothing shared, not even to remember a result.
func (c *Ctx) callees(r *result, g *goRun, done map[string]bool) {
	for i := g.from; i < g.to; i++ {
		e := r.in.Events[i]
		if e.Kind != "atomic" || done[e.Name] {
			continue
		}
		done[e.Name] = true
		var fn *ssa.Function
		for _, f := range c.p.Functions() {
			if f.String() == e.Name {
				fn = f
			}
		}
		if fn == nil {
			continue
		}
		q := c.analyse(fn)
		n := 0
		for _, x := range q.in.Events {
			var target *Term
			switch x.Kind {
			case "store", "mutate", "mapupd", "mapdel", "copy", "sort", "putint":
				target = x.Args[0]
			default:
				continue
			}
			n++
			locked := q.in.ghost(x.St, lockCell) != ghostNone
			roots := q.in.roots(target)
			for root := range roots {
				c.oblige(locked || internalAddr(target), shortFn(fn)+"/race-between-goroutines", c.eventSite(x),
					fmt.Sprintf("%s runs in several goroutines and changes %s, reachable from %s", shortFn(fn), describe(target), describe(root)))
			}
		}
		c.oblige(true, shortFn(fn)+"/race-between-goroutines", fmt.Sprintf("%s (%d writes)", c.siteOf(fn), n), "")
	}
}

var objNum = regexp.MustCompile(`obj(:|\$|#)?[0-9]+`)

// bothModes: the same operations on the same values whether goroutines are used or not.
func (c *Ctx) bothModes(f *ssa.Function, name string) {
	var flags []*Term
	r := c.analyse(f, c.heavy(f)...)
	seen := map[*Term]bool{}
	for _, e := range r.in.Events {
		if e.Kind != "go" {
			continue
		}
		for _, x := range e.St.factList() {
			walkDeep(x, func(y *Term) bool {
				if (y.op == "glob" || y.op == "gaddr") && !seen[y] && c.isBoolGlobal(y) {
					seen[y] = true
					flags = append(flags, y)
				}
				return true
			})
		}
	}
	for _, fl := range flags {
		evs := map[bool]map[string][]*Event{true: {}, false: {}}
		ops := func(val bool) map[string]string {
			q := c.analyseWith(f, entryArgs(f), func(i *Interp, st *State) {
				if val {
					st.assume(fl)
				} else {
					st.assume(not(fl))
				}
			}, c.heavy(f)...)
			out := map[string]string{}
			for _, e := range q.in.Events {
				if e.Kind != "atomic" {
					continue
				}
				var b strings.Builder
				b.WriteString(shortName(e.Name))
				for _, a := range e.Args {
					t := q.in.deep(e.St, a, nil, 0)
					t = resolve(e.St.factList(), t)
					b.WriteString(" " + objNum.ReplaceAllString(t.String(), "obj"))
				}
				out[b.String()] = c.eventSite(e)
				evs[val][b.String()] = append(evs[val][b.String()], e)
			}
			return out
		}
		on, off := ops(true), ops(false)
		cmp := func(a, b map[string]string, mode string) {
			for k, site := range a {
				_, ok := b[k]
				if len(k) > 160 {
					k = k[:160] + "…"
				}
				c.oblige(ok, name+"/both-modes", site, "performed only "+mode+": "+k)
			}
		}
		cmp(on, off, "with parallelism")
		cmp(off, on, "without parallelism")
		// for the same elements
		for k, as := range evs[true] {
			bs := evs[false][k]
			if len(as) != 1 || len(bs) != 1 || len(as[0].Loops) == 0 {
				continue
			}
			for i, e := range []*Event{as[0], bs[0]} {
				o := []*Event{bs[0], as[0]}[i]
				mode := []string{"with", "without"}[i]
				ofs := o.St.factList()
				for _, f := range e.St.factList() {
					if f.op != "ge0" && f.op != "eq0" && f.op != "not" || !f.hasFV(e.Loops[len(e.Loops)-1]) || !isLinear(f) || computedIn(f) {
						continue
					}
					c.oblige(entails(ofs, f), name+"/both-modes", c.eventSite(e), fmt.Sprintf("%s is performed %s parallelism only where %s", shortName(e.Name), mode, describe(f)))
				}
			}
		}
	}
}

// computedIn: mentions values that depend on how the loop is executed.
func computedIn(f *Term) bool {
	r := false
	walk(f, func(t *Term) bool {
		r = r || t.op == "mu" || t.op == "muv" || t.op == "choice"
		return !r
	})
	return r
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (c *Ctx) isBoolGlobal(t *Term) bool {
	for _, p := range c.p.pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && (g.RelString(nil) == t.sym || g.String() == t.sym) {
				pt, ok := g.Type().Underlying().(*types.Pointer)
				return ok && isBoolType(pt.Elem())
			}
		}
	}
	return false
}
