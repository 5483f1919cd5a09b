package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: masks.

func init() {
	register("C11", "provenance of random scalars: group elements that provers, vertex updates and setup produce are decomposed into base times scalar summands; every element of a proof has a mask that is a fresh draw from the cryptographic source, announcements consist of draws alone on every base not carrying a secret, draws of different positions, bases and elements are distinct for all positions, responses that depend on a secret depend on a draw, a new vertex draws its blinding factor, setup powers are powers of a draw, and no draw stays in state that outlives the call", checkC11)
}

// summand of a group element: base times the product of factors, for every value of the loop variables.
type summand struct {
	base    *Term
	factors []*Term
	fs      []*Term
	lvs     []*Term
}

// summands decomposes a group element.
func summands(fs []*Term, t *Term) []summand {
	var out []summand
	var rec func(t *Term, factors, fs, lvs []*Term, d int)
	rec = func(t *Term, factors, fs, lvs []*Term, d int) {
		if d > 40 {
			out = append(out, summand{t, factors, fs, lvs})
			return
		}
		t = newResolver(fs).deep(t)
		switch t.op {
		case "app":
			switch t.sym {
			case "G1.Add", "G1.Sub":
				rec(t.args[0], factors, fs, lvs, d+1)
				rec(t.args[1], factors, fs, lvs, d+1)
				return
			case "G1.Copy":
				rec(t.args[0], factors, fs, lvs, d+1)
				return
			case "G1.Mul":
				rec(t.args[0], with(factors, t.args[1]), fs, lvs, d+1)
				return
			}
		case "mu":
			df := muDefs[t.sym]
			if df == nil || df.next == nil {
				break
			}
			// the terms added in an iteration (none if a term is skipped)
			nexts := []*Term{df.next}
			if df.next.op == "choice" {
				_, nexts = choiceAlts(df.next)
			}
			var added []*Term
			ok := true
			at := 0
			for i, x := range nexts {
				switch {
				case x == df.self:
				case x.op == "app" && (x.sym == "G1.Add" || x.sym == "G1.Sub") && x.args[0] == df.self:
					added = append(added, x.args[1])
					at = i
				case x.op == "app" && x.sym == "G1.Add" && x.args[1] == df.self:
					added = append(added, x.args[0])
					at = i
				default:
					ok = false
				}
			}
			if ok && len(added) == 1 {
				m := map[*Term]*Term{}
				for i, p := range df.params {
					if 1+i < len(t.args) {
						m[p] = t.args[1+i]
					}
				}
				lv := loopVar(df.loop)
				rec(subst(df.init, m), factors, fs, lvs, d+1)
				in := with(fs, inRange(lv, t.args[0])...)
				if df.next.op == "choice" {
					params, _ := choiceAlts(df.next)
					for _, f := range edgeFacts(df.next.sym, params, at) {
						in = append(in, subst(f, m))
					}
				}
				rec(subst(added[0], m), factors, in, with(lvs, lv), d+1)
				return
			}
		case "choice":
			// a term that is skipped or replaced by a fixed element under a condition
			params, alts := choiceAlts(t)
			n, k := 0, 0
			for i, a := range alts {
				if a.op != "glob" {
					n++
					k = i
				}
			}
			if n == 1 {
				rec(alts[k], factors, with(fs, edgeFacts(t.sym, params, k)...), lvs, d+1)
				return
			}
		}
		out = append(out, summand{t, factors, fs, lvs})
	}
	rec(t, nil, fs, nil, 0)
	return out
}

// random: the term is made of draws alone (constants and arithmetic apart).
func random(t *Term) bool {
	ok, any := true, false
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		switch t.op {
		case "fld", "el":
			b := t
			for b.op == "fld" || b.op == "el" {
				b = b.args[0]
			}
			ok = ok && b.op == "glob"
			return
		case "in", "mget", "db", "muv", "mu", "obj":
			ok = false
			return
		case "choice":
			_, alts := choiceAlts(t)
			for _, a := range alts {
				if !random(a) {
					ok = false
				}
			}
			any = true
			return
		case "app":
			switch {
			case t.sym == "draw":
				any = true
				return
			case strings.HasPrefix(t.sym, "randbytes"):
				any = true
				return
			case t.sym == "digest" || strings.HasPrefix(t.sym, "callfn"):
				ok = false
				return
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return ok && any
}

// drawsIn: identities of the draws that occur in a term outside hashes.
func drawsIn(t *Term) []*Term {
	var r []*Term
	openWalk(t, func(x *Term) {
		if x.op == "app" && (x.sym == "draw" || strings.HasPrefix(x.sym, "randbytes")) && len(x.args) > 0 {
			r = append(r, x.args[0])
		}
	})
	return r
}

// openWalk visits the parts of a term that are not behind a hash or an oracle.
func openWalk(t *Term, f func(*Term)) {
	walkDeep(t, func(x *Term) bool {
		if x.op == "len" || x.op == "app" && (x.sym == "digest" || strings.HasPrefix(x.sym, "callfn") || x.sym == "G1.Bytes") {
			return false
		}
		f(x)
		return true
	})
}

func challenged(t *Term) bool {
	r := false
	walkDeep(t, func(x *Term) bool {
		if x.op == "app" && (x.sym == "digest" || strings.HasPrefix(x.sym, "callfn")) {
			r = true
		}
		return !r
	})
	return r
}

// secretInputs: the scalars and vectors a prover is given.
func secretInputs(f *ssa.Function, args []*Term) map[*Term]bool {
	m := map[*Term]bool{}
	for i, p := range f.Params {
		t := p.Type()
		for {
			s, ok := t.Underlying().(*types.Slice)
			if !ok {
				break
			}
			t = s.Elem()
		}
		if mathPtr(t) == "Zr" {
			m[args[i]] = true
		}
	}
	return m
}

func dependsOnSecret(t *Term, secrets map[*Term]bool) bool {
	r := false
	openWalk(t, func(x *Term) {
		if secrets[x] {
			r = true
		}
	})
	return r
}

// sameDraw: can two draws be one and the same? fs relates the loop variables.
func sameDraw(fs []*Term, a, b *Term) bool {
	if a.op != b.op || a.sym != b.sym || len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if contradicts(fs, eqInt(a.args[i], b.args[i])) {
			return false
		}
	}
	return true
}

// mask of an element: a summand with a random factor.
type mask struct {
	base, draw *Term
	fs         []*Term
	lvs        []*Term
	sum        int // the summand it belongs to
}

type proofElem struct {
	name     string
	pos      *Term
	sums     []summand
	masks    []mask
	announce bool // independent of challenges
	pure     bool // independent of secrets
}

func rename(ts []*Term, lvs []*Term) ([]*Term, map[*Term]*Term) {
	m := map[*Term]*Term{}
	for _, l := range lvs {
		m[l] = loopVar(l.sym + "'")
	}
	r := make([]*Term, len(ts))
	for i, t := range ts {
		r[i] = subst(t, m)
	}
	return r, m
}

func freeLVs(ts ...*Term) []*Term {
	seen := map[int]bool{}
	var r []*Term
	for _, t := range ts {
		for _, v := range t.fv {
			if !seen[v] {
				seen[v] = true
				r = append(r, termList[v])
			}
		}
	}
	return r
}

// provers: functions that produce proofs, by the exported names users call.
var provers = []struct{ pkg, recv, name string }{
	{"bp", "", "ProveRange"},
	{"sum", "", "NewArgument"},
	{"poe", "Equalities", "Prove"},
	{"poe", "Equality", "Prove"},
}

func checkC11(c *Ctx) {
	for _, p := range provers {
		var f *ssa.Function
		if p.recv == "" {
			f = c.p.Fn(p.pkg, p.name)
		} else {
			f = c.p.Method(p.pkg, p.recv, p.name)
		}
		if f == nil {
			c.lose("no %s.%s %s", p.pkg, p.recv, p.name)
			continue
		}
		c.proverMasks(f)
	}
	c.vertexMasks()
	c.setupMasks()
	c.randomVectors()
}

// sources: every draw of a run comes from the cryptographic source.
func (c *Ctx) sources(s *session, key string) {
	for _, e := range s.in.Events {
		if e.Kind != "draw" || len(e.Args) == 0 {
			continue
		}
		c.oblige(cryptoSource(e.Args[0]), key+"/source in "+shortFn(e.Fn), c.eventSite(e), "a random scalar is drawn from "+describe(e.Args[0]))
	}
}

func cryptoSource(t *Term) bool {
	good, bad := false, false
	walkDeep(t, func(x *Term) bool {
		if x.op == "glob" && strings.Contains(x.sym, "crypto/rand") || x.op == "app" && (x.sym == "Curve.Rand" || strings.HasPrefix(x.sym, "crypto/rand")) {
			good = true
			return false
		}
		s := x.sym
		if strings.Contains(s, "math/rand") || strings.Contains(s, "bytes.NewReader") || strings.Contains(s, "bytes.NewBuffer") || strings.Contains(s, "strings.NewReader") || strings.Contains(s, "MultiReader") {
			bad = true
		}
		return true
	})
	return good && !bad
}

func (c *Ctx) proverMasks(f *ssa.Function) {
	s := c.session()
	args := entryArgs(f)
	secrets := secretInputs(f, args)
	ret := s.call(f, args...)
	key, site := shortFn(f), c.siteOf(f)
	if s.st.dead {
		c.lose("%s never returns", key)
		return
	}
	c.sources(s, key)
	path, what := c.exposed(s, nil, 0)
	c.oblige(what == nil, key+"/kept", site, "a random draw is kept in "+path+" after the proof is made")
	inputs := map[*Term]bool{}
	for _, a := range args {
		inputs[a] = true
	}
	fs := s.st.factList()
	for i, t := range resultTypes(f) {
		v := resultAt(ret, f, i)
		var elems []*proofElem
		for _, g := range groupFields(t) {
			if g.group != "G1" {
				continue
			}
			x := paramSet{t, v, ""}.fieldValue(s.in, s.st, g)
			if inputs[x] || x.op == "fld" && inputs[x.args[0]] {
				continue // part of the statement
			}
			es := []element{{x, nil, nil}}
			if g.vec {
				es = elements(x)
			}
			for _, e := range es {
				if e.t.op == "nil" {
					continue
				}
				pe := &proofElem{name: g.name, pos: e.pos, announce: true, pure: true}
				pe.sums = summands(with(fs, e.fs...), e.t)
				for _, m := range pe.sums {
					for _, x := range m.factors {
						if challenged(x) {
							pe.announce = false
						}
						if dependsOnSecret(x, secrets) {
							pe.pure = false
						}
					}
				}
				c.masksOf(pe, e, fs, secrets)
				elems = append(elems, pe)
			}
		}
		c.elementMasks(key, site, fs, elems)
		// responses
		for _, fl := range fieldTypesOf(t) {
			if mathPtr(fl.Type()) != "Zr" {
				continue
			}
			x := s.in.deep(s.st, s.in.load(s.st, fieldAddr(v, fl.Name()), fl.Type()), fl.Type(), 0)
			if !dependsOnSecret(x, secrets) {
				continue
			}
			c.oblige(len(drawsIn(x)) > 0, key+"/"+fl.Name(), site, fmt.Sprintf("%s of the proof depends on a secret and on no random draw: %s", fl.Name(), describe(x)))
		}
	}
	// vectors handed to the inner-product and reduction arguments
	for _, e := range s.in.Events {
		if e.Kind != "enter" {
			continue
		}
		g := c.byName(e.Name)
		if g == nil || g.Object() == nil || !g.Object().Exported() || g.Pkg == nil || g.Pkg.Pkg.Name() != "bp" || g.Signature.Recv() != nil || e.InGo {
			continue
		}
		if c.recursive(g) {
			continue
		}
		for i, p := range g.Params {
			sl, ok := p.Type().Underlying().(*types.Slice)
			if !ok || mathPtr(sl.Elem()) != "Zr" || i >= len(e.Args) {
				continue
			}
			v := s.in.deep(e.St, e.Args[i], p.Type(), 0)
			efs := e.St.factList()
			for _, el := range elements(v) {
				x := newResolver(with(efs, el.fs...)).deep(el.t)
				if !dependsOnSecret(x, secrets) {
					continue
				}
				ds := drawsIn(x)
				ok := len(ds) > 0
				msg := fmt.Sprintf("an element of the vector passed to %s depends on a secret and on no random draw: %s", shortFn(g), describe(x))
				if ok && el.pos != nil && len(el.pos.fv) > 0 {
					// some draw belongs to the position
					own := false
					for _, d := range ds {
						if len(d.fv) > 0 {
							own = true
						}
					}
					openWalk(x, func(y *Term) {
						if y.op == "el" || y.op == "choice" || y.op == "mu" || y.op == "muv" {
							own = true // not resolved
						}
					})
					// a selected element of an input is no reason to believe that
					if !own || ownOnlyInputs(x, ds) {
						ok = false
						msg = fmt.Sprintf("the elements of the vector passed to %s share one random draw: %s", shortFn(g), describe(x))
					}
				}
				c.oblige(ok, key+"→"+shortFn(g)+"/"+p.Name(), c.eventSite(e), msg)
			}
		}
	}
}

// ownOnlyInputs: all draws are the same for every position, and nothing but inputs is indexed by it.
func ownOnlyInputs(x *Term, ds []*Term) bool {
	for _, d := range ds {
		if len(d.fv) > 0 {
			return false
		}
	}
	r := true
	openWalk(x, func(y *Term) {
		switch y.op {
		case "choice", "mu", "muv":
			r = false
		case "el":
			b := y.args[0]
			for b.op == "el" || b.op == "fld" || b.op == "sub" {
				b = b.args[0]
			}
			if b.op != "in" && !(b.op == "app" && strings.HasPrefix(b.sym, "callfn")) {
				r = false
			}
		}
	})
	return r
}

func (c *Ctx) recursive(f *ssa.Function) bool {
	for _, g := range c.ownCallees(f) {
		if g == f {
			return true
		}
	}
	return false
}

func (c *Ctx) masksOf(pe *proofElem, e element, fs []*Term, secrets map[*Term]bool) {
	for i, m := range pe.sums {
		ok := true
		var scalars []*Term
		for _, x := range m.factors {
			switch {
			case random(x):
				scalars = append(scalars, x)
			case dependsOnSecret(x, secrets) || len(drawsIn(x)) > 0:
				ok = false
			case !challenged(x) && !isSmallConst(x):
				// any other public factor
			}
		}
		if !ok || len(scalars) == 0 {
			continue
		}
		// a scalar that is selected by a condition is one of several draws
		for _, a := range drawAlts(m.fs, scalars[len(scalars)-1], 0) {
			pe.masks = append(pe.masks, mask{m.base, a.draw, a.fs, m.lvs, i})
		}
	}
}

type drawAlt struct {
	draw *Term
	fs   []*Term
}

// drawAlts: the draws a random scalar can be, each with the facts under which it is.
func drawAlts(fs []*Term, x *Term, depth int) []drawAlt {
	var ch *Term
	openWalk(x, func(y *Term) {
		if ch == nil && y.op == "choice" {
			ch = y
		}
	})
	var out []drawAlt
	if ch != nil && depth < 4 {
		params, alts := choiceAlts(ch)
		for k, a := range alts {
			g := with(fs, edgeFacts(ch.sym, params, k)...)
			if contradicts(g, boolT(true)) {
				continue
			}
			out = append(out, drawAlts(g, subst(x, map[*Term]*Term{ch: a}), depth+1)...)
		}
		if len(out) > 0 {
			return out
		}
	}
	var d *Term
	for _, u := range drawsIn(x) {
		d = u
	}
	if d != nil {
		out = append(out, drawAlt{d, fs})
	}
	return out
}

func isSmallConst(t *Term) bool { return t.op == "app" && t.sym == "Curve.NewZrFromInt" }

func (c *Ctx) elementMasks(key, site string, fs []*Term, elems []*proofElem) {
	for _, x := range elems {
		k := key + "/" + x.name
		c.oblige(len(x.masks) > 0, k, site, fmt.Sprintf("element %s of the proof has no summand with a fresh random scalar", x.name))
		if len(x.masks) == 0 {
			continue
		}
		if !x.announce {
			continue
		}
		if x.pure {
			for _, m := range x.sums {
				ok := false
				for _, fc := range m.factors {
					if random(fc) {
						ok = true
					}
				}
				c.oblige(ok, k+"/pure", site, fmt.Sprintf("announcement %s has a summand without a random scalar: %s", x.name, describe(m.base)))
			}
		}
		// one element: all draws differ, at every position
		for i, a := range x.masks {
			for j := i; j < len(x.masks); j++ {
				b := x.masks[j]
				if i == j && len(a.lvs) == 0 {
					continue
				}
				ren, m := rename(append([]*Term{b.draw}, b.fs...), b.lvs)
				g := with(with(fs, a.fs...), ren[1:]...)
				if i == j {
					g = append(g, not(eqInt(a.lvs[len(a.lvs)-1], m[a.lvs[len(a.lvs)-1]])))
				}
				c.oblige(!sameDraw(g, a.draw, ren[0]), k+"/distinct", site, fmt.Sprintf("one random scalar is used for two bases of %s: %s and %s", x.name, describe(a.base), describe(b.base)))
			}
		}
		// positions of a vector
		if x.pos != nil && len(x.pos.fv) > 0 {
			lvs := freeLVs(x.pos)
			for _, a := range x.masks {
				for _, b := range x.masks {
					ren, m := rename(append([]*Term{b.draw, x.pos}, b.fs...), append(append([]*Term{}, b.lvs...), lvs...))
					g := with(with(fs, a.fs...), ren[2:]...)
					g = append(g, not(eqInt(x.pos, ren[1])))
					_ = m
					c.oblige(!sameDraw(g, a.draw, ren[0]), k+"/positions", site, fmt.Sprintf("two positions of %s use one random scalar", x.name))
				}
			}
		}
	}
	// different elements: never the same draw on the same base, and every announcement has one of its own
	for i, x := range elems {
		// the summands all of whose draws are not shared
		used, unshared := map[int]bool{}, map[int]bool{}
		for _, a := range x.masks {
			shared := false
			for j, y := range elems {
				if i == j {
					continue
				}
				for _, b := range y.masks {
					lvs := append(append([]*Term{}, b.lvs...), freeLVs(b.draw, b.base)...)
					ren, _ := rename(append([]*Term{b.draw, b.base}, b.fs...), lvs)
					g := with(with(fs, a.fs...), ren[2:]...)
					if !sameDraw(g, a.draw, ren[0]) {
						continue
					}
					if y.announce {
						shared = true
					}
					if j > i {
						c.oblige(!sameBase(a, b), key+"/"+x.name+"/"+y.name, site, fmt.Sprintf("%s and %s carry the same random scalar on the same base %s", x.name, y.name, describe(a.base)))
					}
				}
			}
			if shared {
				used[a.sum] = true
			} else {
				unshared[a.sum] = true
			}
		}
		own := false
		for k := range unshared {
			own = own || !used[k]
		}
		// masks that are draws alone, without challenges, belong to one element
		blind := false
		for _, m := range x.sums {
			all := len(m.factors) > 0
			for _, fc := range m.factors {
				if !random(fc) {
					all = false
				}
			}
			if all {
				blind = true
			}
		}
		if (x.announce || blind) && len(x.masks) > 0 {
			c.oblige(own, key+"/"+x.name+"/own", site, fmt.Sprintf("every random scalar of %s is also used in another element of the proof", x.name))
		}
	}
}

// sameBase: the bases agree at the positions at which the draws do.
func sameBase(a, b mask) bool {
	m := map[*Term]*Term{}
	la, lb := freeLVs(a.draw), freeLVs(b.draw)
	if len(la) == 1 && len(lb) == 1 {
		for i := range a.draw.args {
			if i < len(b.draw.args) {
				if k := solve(b.draw.args[i], a.draw.args[i], lb[0]); k != nil {
					m[lb[0]] = k
				}
			}
		}
	}
	return a.base == subst(b.base, m)
}

// vertexMasks: a vertex that is created draws its blinding factor, one that is updated keeps it (or draws a new one).
func (c *Ctx) vertexMasks() {
	for _, r := range c.updateRuns() {
		key := "vertex/" + r.label()
		s := r.s
		c.sources(s, key)
		if s.st.dead {
			c.lose("%s never returns", shortFn(r.upd))
			continue
		}
		path, what := c.exposed(s, []*Term{r.tree}, r.from)
		c.oblige(what == nil, key+"/kept", c.siteOf(r.upd), "a random draw is kept in "+path+" after the update")
		saw := false
		for _, w := range r.stored() {
			saw = true
			var drawn, kept bool
			for _, fl := range fieldTypesOf(w.typ) {
				if mathPtr(fl.Type()) != "Zr" {
					continue
				}
				x := newResolver(w.ev.St.factList()).deep(w.field(s, fl.Name(), fl.Type()))
				if random(x) {
					drawn = true
				}
				if r.keepsFrom(x, fl.Name()) {
					kept = true
				}
			}
			c.oblige(drawn || !r.create && kept, key, c.eventSite(w.ev), "the stored vertex has no freshly drawn blinding factor")
		}
		if !saw {
			c.lose("the vertex that %s stores is not found", shortFn(r.upd))
		}
	}
}

// setupMasks: setup powers are powers of one draw.
func (c *Ctx) setupMasks() {
	for _, f := range c.constructors() {
		hasG2 := false
		for _, t := range resultTypes(f) {
			for _, g := range groupFields(t) {
				if g.group == "G2" && g.vec {
					hasG2 = true
				}
			}
		}
		if !hasG2 {
			continue
		}
		s := c.session()
		args := entryArgs(f)
		c.positive(s, f, args)
		ret := s.call(f, args...)
		key := shortFn(f)
		c.sources(s, key)
		path, what := c.exposed(s, nil, 0)
		c.oblige(what == nil, key+"/kept", c.siteOf(f), "the random draw is kept in "+path)
		for i, t := range resultTypes(f) {
			p := paramSet{t, resultAt(ret, f, i), ""}
			for _, g := range groupFields(t) {
				v := p.fieldValue(s.in, s.st, g)
				es := []element{{v, nil, nil}}
				if g.vec {
					es = elements(v)
				}
				for _, e := range es {
					if e.t.op != "app" || len(e.t.args) != 2 || e.t.sym != "G1.Mul" && e.t.sym != "G2.Mul" && e.t.sym != "Gt.Exp" {
						continue
					}
					x := newResolver(with(s.st.factList(), e.fs...)).deep(e.t.args[1])
					opaque := false
					openWalk(x, func(y *Term) {
						if y.op == "el" || y.op == "mget" || y.op == "muv" || y.op == "mu" {
							opaque = true
						}
					})
					c.oblige(opaque || len(drawsIn(x)) > 0 && !mixed(x), key+"/"+g.name, c.siteOf(f), fmt.Sprintf("an element of %s is a power of a value that is not drawn: %s", g.name, describe(x)))
				}
			}
		}
	}
}

// mixed: a conditional value one side of which is not random.
func mixed(t *Term) bool {
	r := false
	openWalk(t, func(x *Term) {
		if x.op == "choice" {
			some, all := false, true
			_, alts := choiceAlts(x)
			for _, a := range alts {
				if len(drawsIn(a)) > 0 {
					some = true
				} else {
					all = false
				}
			}
			if some && !all {
				r = true
			}
		}
	})
	return r
}

// randomVectors: exported functions that return vectors of draws draw every element anew.
func (c *Ctx) randomVectors() {
	for _, f := range c.p.Functions("bench") {
		if f.Pkg == nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 {
			continue
		}
		t := f.Signature.Results().At(0).Type()
		sl, ok := t.Underlying().(*types.Slice)
		if !ok || mathPtr(sl.Elem()) != "Zr" || !c.draws(f) {
			continue
		}
		s := c.session()
		ret := s.call(f, entryArgs(f)...)
		if s.st.dead {
			continue
		}
		key, site := shortFn(f), c.siteOf(f)
		c.sources(s, key)
		path, what := c.exposed(s, nil, 0)
		c.oblige(what == nil, key+"/kept", site, "a random draw is kept in "+path)
		fs := s.st.factList()
		for _, e := range elements(s.in.deep(s.st, ret, t, 0)) {
			if e.t.op == "nil" {
				continue
			}
			x := newResolver(with(fs, e.fs...)).deep(e.t)
			c.oblige(random(x), key+"/random", site, "an element of the vector is not a fresh draw: "+describe(x))
			for _, d := range drawsIn(x) {
				if len(e.pos.fv) == 0 {
					continue
				}
				ren, _ := rename(append([]*Term{d, e.pos}, e.fs...), freeLVs(e.pos))
				g := append(with(with(fs, e.fs...), ren[2:]...), not(eqInt(e.pos, ren[1])))
				c.oblige(!sameDraw(g, d, ren[0]), key+"/positions", site, "two positions of the vector hold the same draw")
			}
		}
	}
}

// draws: the function itself draws random scalars.
func (c *Ctx) draws(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil && g.Name() == "NewRandomZr" {
					return true
				}
			}
		}
	}
	return false
}

func dbgSum(a string) {
	p, _ := LoadProgram(dbgRepo())
	c := &Ctx{p: p, funcs: map[string]bool{}}
	f := findFn(p, a)
	s := c.session()
	ret := s.call(f, entryArgs(f)...)
	for i, t := range resultTypes(f) {
		v := resultAt(ret, f, i)
		for _, g := range groupFields(t) {
			x := paramSet{t, v, ""}.fieldValue(s.in, s.st, g)
			es := []element{{x, nil, nil}}
			if g.vec {
				es = elements(x)
			}
			for _, e := range es {
				fmt.Println("--", g.name, e.pos)
				for _, m := range summands(with(s.st.factList(), e.fs...), e.t) {
					fmt.Println("    ", m.base, " * ", m.factors, m.lvs)
				}
			}
		}
	}
}
