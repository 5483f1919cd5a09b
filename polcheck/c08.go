package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: an identifier is mapped to the complete positional expansion of its number to the base of the
// fan-out, of a length that depends on the fan-out only, and only well-formed identifiers are mapped.

func init() {
	register("C08", "for every function from a fan-out to an identifier map: each step of the path that may be returned is zero or a remainder modulo the fan-out of the number left over by the previous step; the facts at the return determine the path length from the fan-out alone, end the expansion, prove the whole identifier parsed without sign or foreign characters, and the parsed text is the identifier itself", checkC08)
}

// pathMaps: exported functions from a fan-out to a map from identifiers to paths.
func (c *Ctx) pathMaps() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.p.Functions("bench") {
		sig := f.Signature
		if f.Parent() != nil || sig.Recv() != nil || f.Object() == nil || !f.Object().Exported() || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
			continue
		}
		if _, isInt := width(sig.Params().At(0).Type()); isInt && isStringFn(sig.Results().At(0).Type()) {
			r = append(r, f)
		}
	}
	return r
}

type pathRun struct {
	c        *Ctx
	s        *session
	name     string
	site     string
	fan, id  *Term
	ret, seq *Term
	fs       []*Term
	sh       *proofShape
	off      int64 // steps beyond the power found last
}

func checkC08(c *Ctx) {
	maps := c.pathMaps()
	if len(maps) == 0 {
		c.skip("no identifier map")
	}
	for _, f := range maps {
		s := c.session()
		fan, id := in("a0"), in("id")
		clo := s.call(f, fan)
		if s.st.dead {
			c.skip("%s never returns", f.Name())
			continue
		}
		ret, ok := s.callTerm(clo, id)
		if !ok || s.st.dead {
			c.note("%s returns an unknown function", f.Name())
			c.skip("%s returns an unknown function", f.Name())
			continue
		}
		p := &pathRun{c: c, s: s, name: f.Name(), site: c.siteOf(f), fan: fan, id: id, ret: ret, fs: s.st.factList()}
		p.sh = &proofShape{c: c, roots: map[*Term]bool{id: true}, memo: map[*Term]bool{}, acc: p.fs}
		p.seq = newResolver(p.fs).head(s.in.seq(s.st, ret))
		p.check()
	}
}

// stepsOf: the values a step of the path can have; false when some of them are unknown.
func (p *pathRun) stepsOf(t *Term, d int) ([]*Term, bool) {
	if d > 12 {
		return nil, false
	}
	all := func(ts ...*Term) ([]*Term, bool) {
		var r []*Term
		ok := true
		for _, x := range ts {
			y, k := p.stepsOf(x, d+1)
			r, ok = append(r, y...), ok && k
		}
		return r, ok
	}
	switch t.op {
	case "nil":
		return nil, true
	case "lit":
		return append([]*Term(nil), t.args...), true
	case "cat":
		return all(t.args...)
	case "lcat":
		return all(t.args[0], t.args[2])
	case "sto":
		r, ok := all(t.args[0])
		return append(r, t.args[2]), ok
	case "lsto":
		r, ok := all(t.args[0])
		return append(r, t.args[3]), ok
	case "mkseq":
		return []*Term{zeroInt}, true
	case "cpy":
		return all(t.args...)
	case "sub":
		return all(t.args[0])
	case "choice":
		_, alts := choiceAlts(t)
		return all(alts...)
	case "mu", "muv":
		if df := muDefs[t.sym]; df != nil && df.next != nil {
			var ts []*Term
			for _, a := range append(alternatives(df.next), df.init) {
				if a != nil && a != df.self {
					ts = append(ts, a)
				}
			}
			return all(ts...)
		}
	}
	return nil, false
}

// small strips conversions that keep a value below the fan-out.
func small(t *Term) *Term {
	for {
		switch {
		case t.op == "app" && hasPrefix(t.sym, "conv:") && len(t.args) == 1:
			t = t.args[0]
		case t.op == "app" && (t.sym == "Int.Int64" || t.sym == "Int.Uint64") && len(t.args) == 1:
			t = t.args[0]
		default:
			return t
		}
	}
}

// isFan: the fan-out, as an integer of any type.
func (p *pathRun) isFan(t *Term) bool {
	for t.op == "app" && len(t.args) >= 1 && (hasPrefix(t.sym, "conv:") || t.sym == "big.NewInt" || t.sym == "Int.SetInt64" || t.sym == "Int.SetUint64") {
		t = t.args[len(t.args)-1]
	}
	return t == p.fan
}

// remainder: t is x modulo the fan-out.
func (p *pathRun) remainder(t *Term) (x *Term, ok bool) {
	t = small(t)
	if t.op == "app" && len(t.args) >= 2 && (t.sym == "mod" || t.sym == "Int.Mod" || t.sym == "Int.Rem") && p.isFan(t.args[1]) {
		return t.args[0], true
	}
	if t.op == "mod" && p.isFan(t.args[1]) {
		return t.args[0], true
	}
	return nil, false
}

func (p *pathRun) quotient(t, x *Term) bool {
	t = small(t)
	if len(t.args) < 2 || !p.isFan(t.args[1]) {
		return false
	}
	return t.args[0] == x && (t.op == "div" || t.op == "app" && (t.sym == "div" || t.sym == "Int.Div" || t.sym == "Int.Quo"))
}

func (p *pathRun) key(k string) string { return p.name + "/" + k }

func (p *pathRun) check() {
	c := p.c
	steps, ok := p.stepsOf(p.seq, 0)
	if !ok {
		c.note("%s: path %s not understood", p.name, short(p.seq))
		c.skip("%s: steps of the path", p.name)
	}
	n := lenOf(p.seq)
	if n.op == "choice" {
		// padded when shorter: an expansion that is not padded is no longer than that, see fits
		var rest []*Term
		for _, a := range alternatives(n) {
			if a.op != "trip" {
				rest = append(rest, a)
			}
		}
		if len(rest) == 1 && len(alternatives(n)) == 2 {
			n = rest[0]
		}
	}
	c.oblige(p.sh.determined(p.fs, n), p.key("length"), p.site, fmt.Sprintf("%s: the length %s of the path depends on the identifier", p.name, n))
	p.expected(n)
	var nums []*Term
	for _, x := range steps {
		if k, isInt := small(x).intVal(); isInt && k == 0 {
			continue
		}
		num, isRem := p.remainder(x)
		below := isRem || entails(p.fs, lt(x, p.fan)) && entails(p.fs, ge0(x))
		c.oblige(below, p.key("step"), p.site, fmt.Sprintf("%s: nothing keeps the step %s below the fan-out", p.name, x))
		if isRem {
			nums = append(nums, num)
		}
	}
	seen := map[*Term]bool{}
	for _, num := range nums {
		if !seen[num] {
			seen[num] = true
			p.number(num, n)
		}
	}
	if len(nums) == 0 && ok {
		c.oblige(false, p.key("expansion"), p.site, p.name+": the path is not computed from the identifier's number")
	}
}

// number: what the digits are taken from is the number left over, the first being the identifier's.
func (p *pathRun) number(num, n *Term) {
	c := p.c
	if num.op != "mu" && num.op != "muv" || muDefs[num.sym] == nil {
		c.note("%s: digits are taken from %s", p.name, short(num))
		return
	}
	d := muDefs[num.sym]
	if d.next == nil || d.init == nil {
		c.note("%s: digits are taken from an unknown number", p.name)
		return
	}
	for _, a := range alternatives(d.next) {
		c.oblige(p.quotient(a, d.self), p.key("expansion"), p.site, fmt.Sprintf("%s: after a step is taken the number goes on as %s, not as the quotient by the fan-out", p.name, a))
	}
	ended := p.ended(num.sym, d) || !mentionsSym(n, "trip", d.trip.sym) && entails(p.fs, le(n, d.trip))
	p.parsed(d.init, n, ended)
}

// ended: the expansion stops only when nothing is left.
func (p *pathRun) ended(sym string, d *muDef) bool {
	end := mk("mu", sym, append([]*Term{d.trip}, d.params...)...)
	var fs []*Term
	for _, f := range p.fs {
		for fs = append(fs, f); f.op == "all"; fs = append(fs, f) {
			f = f.args[1]
		}
	}
	for _, g := range fs {
		if !mentionsSym(g, "mu", sym) {
			continue
		}
		if g.op == "ge0" || g.op == "eq0" {
			l := toLin(g.args[0])
			if len(l.m) == 1 {
				for a, k := range l.m {
					// x <= 0 for an unsigned x, x == 0
					if sameMu(a, end) && l.c == 0 && (g.op == "eq0" || k < 0) {
						return true
					}
					if a.op == "app" && (a.sym == "Int.Cmp" || a.sym == "Int.CmpAbs") && sameMu(a.args[0], end) && isBigZero(a.args[1]) && l.c == 0 && (g.op == "eq0" || k < 0) {
						return true
					}
					if a.op == "app" && (a.sym == "Int.Sign" || a.sym == "Int.BitLen") && sameMu(a.args[0], end) && l.c == 0 && (g.op == "eq0" || k < 0) {
						return true
					}
				}
			}
		}
	}
	return false
}

func sameMu(a, b *Term) bool { return a.op == "mu" && a.sym == b.sym }

func isBigZero(t *Term) bool {
	return t.op == "app" && t.sym == "big.NewInt" && len(t.args) == 1 && t.args[0] == zeroInt
}

func mentionsSym(t *Term, op, sym string) bool {
	ok := false
	walk(t, func(x *Term) bool {
		ok = ok || x.op == op && x.sym == sym
		return !ok
	})
	return ok
}

// parsed: the number is the whole identifier's, written without sign or foreign characters.
func (p *pathRun) parsed(num, n *Term, ended bool) {
	c := p.c
	num = small(num)
	var text *Term
	dec, strict, base := false, false, ""
	switch {
	case num.op == "app" && hasPrefix(num.sym, "strconv.Parse") && len(num.args) == 3:
		text, base = num.args[0], num.args[1].String()
		strict = hasPrefix(num.sym, "strconv.ParseUint")
	case num.op == "app" && hasPrefix(num.sym, "strconv.Atoi"):
		text, base = num.args[0], "10"
	case num.op == "app" && num.sym == "Int.SetString" && len(num.args) >= 2:
		text, base = num.args[len(num.args)-2], num.args[len(num.args)-1].String()
	case num.op == "mu" && muDefs[num.sym] != nil && mentionsDeep(num, p.id):
		// digits read one by one
		text, base = p.id, "10"
		c.note("%s: the number is read by hand", p.name)
	default:
		altered := false
		for _, op := range []string{"div", "mod", "and", "or", "xor", "shl", "shr", "lin", "mul", "Int.Div", "Int.Quo", "Int.Mod", "Int.Rem", "Int.And", "Int.Rsh", "Int.Lsh", "Int.Add", "Int.Sub", "Int.Mul"} {
			altered = altered || num.op == op || num.op == "app" && num.sym == op
		}
		parsing := false
		walkDeep(num, func(t *Term) bool {
			parsing = parsing || t.op == "app" && (hasPrefix(t.sym, "strconv.") || t.sym == "Int.SetString")
			return !parsing
		})
		if altered && parsing {
			c.oblige(false, p.key("number"), p.site, fmt.Sprintf("%s: the path is that of %s, not of the identifier's number", p.name, num))
			return
		}
		c.note("%s: number %s is not recognised", p.name, short(num))
		return
	}
	c.oblige(base == "10" || base == "16", p.key("radix"), p.site, fmt.Sprintf("%s: identifiers are read to the base %s, which admits prefixes and separators", p.name, base))
	dec = base == "10"
	if num.op == "app" {
		ok := false
		for _, f := range p.fs {
			walk(f, func(t *Term) bool {
				if t.op == "app" && has(t.args, text) {
					switch t.sym {
					case num.sym + ".err", strings.TrimSuffix(num.sym, ".0") + ".err":
						ok = ok || entails(p.fs, eqTerm(t, tNil))
					case num.sym + ".ok":
						ok = ok || entails(p.fs, t)
					}
				}
				return !ok
			})
		}
		c.oblige(ok, p.key("refusal"), p.site, p.name+": an identifier that cannot be parsed is mapped all the same")
	}
	// the text is the identifier
	from := []*Term{text}
	if (text.op == "mu" || text.op == "muv") && muDefs[text.sym] != nil && muDefs[text.sym].next != nil {
		d := muDefs[text.sym]
		from = append(alternatives(d.next), d.init)
		for i, a := range from {
			if a == d.self || a == nil {
				from[i] = p.id
			}
		}
	}
	for _, t := range from {
		same := t == p.id
		if t.op == "app" && len(t.args) == 1 && (t.sym == "strings.ToLower" || t.sym == "strings.ToUpper") {
			same = t.args[0] == p.id
		}
		key := "rewrite"
		if isRehash(t) {
			key = "rehash"
		}
		c.oblige(same, p.key(key), p.site, fmt.Sprintf("%s: the path of an identifier may be that of another one, %s", p.name, t))
	}
	if !strict {
		c.oblige(p.unsigned(text) || p.unsigned(p.id), p.key("sign"), p.site, p.name+": a signed identifier is mapped like the unsigned one")
	}
	if dec {
		ln := mk("len", "", p.id)
		digits := int64(-1)
		for k := int64(1); k <= 18; k++ {
			if entails(p.fs, le(ln, intT(k))) {
				digits = k
				break
			}
		}
		c.oblige(digits > 0 && entails(p.fs, ge0(addK(ln, -digits))), p.key("digits"), p.site, p.name+": decimal identifiers of any length are mapped")
		if digits > 0 {
			p.fits(n, digits, ended)
		}
	}
	if base == "10" || base == "16" {
		c.oblige(ended, p.key("whole"), p.site, p.name+": the expansion may stop before the whole number is used")
	}
}

// isRehash: t is the written form of a digest.
func isRehash(t *Term) bool {
	for t.op == "app" && len(t.args) == 1 {
		t = t.args[0]
	}
	return t.op == "digest" || t.op == "app" && hasPrefix(t.sym, "digest")
}

// unsigned: the first character is no sign, on every way to the return.
func (p *pathRun) unsigned(text *Term) bool {
	first := mk("el", "", text, zeroInt)
	no := func(ch int64) bool {
		return entails(p.fs, not(eqInt(first, intT(ch))))
	}
	if no('-') && no('+') {
		return true
	}
	for _, f := range p.fs {
		ok := false
		walk(f, func(t *Term) bool {
			switch {
			case t.op == "app" && (hasPrefix(t.sym, "strings.") || hasPrefix(t.sym, "regexp.") || hasPrefix(t.sym, "encoding/hex.") || hasPrefix(t.sym, "hex.") || hasPrefix(t.sym, "unicode.")) && mentions(t, text):
				ok = true
			case t.op == "el" && t.args[0] == text && f.op == "all":
				ok = true
			case t.op == "sub" && t.args[0] == text && f.op == "not":
				ok = true
			}
			return !ok
		})
		if ok {
			return true
		}
	}
	return false
}

// powerFact: the facts say that base^n is above (or not below) 10^e.
func (p *pathRun) powerFact(n *Term, base func(t *Term) bool) (e int64, found bool) {
	p.off = 0
	for _, f := range p.fs {
		if f.op != "ge0" {
			continue
		}
		l := toLin(f.args[0])
		if len(l.m) != 1 {
			continue
		}
		for a, k := range l.m {
			if a.op != "app" || a.sym != "Int.Cmp" || k < 0 || l.c > 0 || a.args[0].op != "app" || a.args[0].sym != "Int.Exp" || a.args[1].op != "app" || a.args[1].sym != "Int.Exp" {
				continue
			}
			pow, lim := a.args[0], a.args[1]
			ten, ok1 := bigConst(lim.args[0])
			x, ok2 := bigConst(lim.args[1])
			if !base(pow.args[0]) || !ok1 || !ok2 || ten != 10 {
				continue
			}
			ex := pow.args[1]
			if ex.op == "app" && ex.sym == "big.NewInt" {
				ex = ex.args[0]
			}
			if d := toLin(subT(n, ex)); len(d.m) == 0 && d.c != 0 {
				p.off = d.c
				continue
			}
			if entails(p.fs, eqInt(ex, n)) {
				return x, true
			}
		}
	}
	return 0, false
}

func bigConst(t *Term) (int64, bool) {
	for t.op == "app" && len(t.args) >= 1 && (t.sym == "big.NewInt" || t.sym == "Int.SetInt64" || t.sym == "Int.SetUint64") {
		t = t.args[len(t.args)-1]
	}
	return t.intVal()
}

// fits: every number of that many digits has at most n digits to the base of the fan-out.
func (p *pathRun) fits(n *Term, digits int64, ended bool) {
	e, found := p.powerFact(n, p.isFan)
	if !found {
		p.c.note("%s: no bound of the numbers by a power of the fan-out is found", p.name)
		if ended {
			return
		}
	}
	p.c.oblige(found && e >= digits, p.key("fits"), p.site, fmt.Sprintf("%s: identifiers have %d digits but the path length %s only covers numbers below 10^%d", p.name, digits, n, e))
}

// expected: the length is the one the rest of the system is told for this fan-out.
func (p *pathRun) expected(n *Term) {
	c := p.c
	f := c.p.Fn("sparse", "DigitPathLen")
	// a length looked up in a table by the fan-out
	byTable := false
	for _, x := range append([]*Term{n}, p.fs...) {
		walk(x, func(t *Term) bool {
			if t.op == "mget" && p.isFan(t.args[1]) && entails(p.fs, eqInt(n, t)) {
				byTable = true
			}
			return !byTable
		})
	}
	if byTable || f == nil {
		c.oblige(true, p.key("expected"), p.site, "")
		return
	}
	m := p.s.call(f, p.fan)
	fs := p.s.st.factList()
	old := p.fs
	p.fs = fs
	e1, ok1 := p.powerFact(n, p.isFan)
	off := p.off
	e2, ok2 := p.powerFact(m, p.isFan)
	p.fs = old
	if entails(fs, eqInt(n, m)) {
		c.oblige(true, p.key("expected"), p.site, "")
		return
	}
	if !ok1 || !ok2 {
		if ok2 && off != 0 {
			c.oblige(false, p.key("expected"), p.site, fmt.Sprintf("%s: paths have %d steps more than DigitPathLen", p.name, off))
			return
		}
		if _, other := p.powerFact(n, func(t *Term) bool { return !p.isFan(t) }); ok2 && other {
			c.oblige(false, p.key("expected"), p.site, p.name+": the length of paths is for another fan-out")
			return
		}
		c.note("%s: length %s could not be compared with DigitPathLen", p.name, n)
		return
	}
	c.oblige(e1 == e2, p.key("expected"), p.site, fmt.Sprintf("%s: paths cover 10^%d numbers, DigitPathLen is for 10^%d", p.name, e1, e2))
}
