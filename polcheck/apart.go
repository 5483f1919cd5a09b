package main

import (
	"strconv"
	"strings"
)

// Are two values different for all assignments that satisfy the facts? Hashes and encodings are taken to be
// injective, everything the analysis does not know is left open.

const (
	unknown = iota
	apart
	equal
)

type piece struct {
	kind string // "str", "dec" (decimal integer), "bin" (fixed-width integer), "fix" (fixed-length value), "any"
	s    string
	t    *Term
	w    int
}

// piecesOf splits a byte string into literal text, numbers and other parts.
func piecesOf(t *Term) []piece {
	var out []piece
	add := func(p piece) {
		if p.kind == "str" && len(out) > 0 && out[len(out)-1].kind == "str" {
			out[len(out)-1].s += p.s
			return
		}
		if p.kind == "str" && p.s == "" {
			return
		}
		out = append(out, p)
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		switch {
		case t.op == "str":
			add(piece{kind: "str", s: strOf(t)})
		case t.op == "cat":
			rec(t.args[0])
			rec(t.args[1])
		case t.op == "lit":
			var b []byte
			for _, a := range t.args {
				n, ok := a.intVal()
				if !ok {
					// byte-wise contents
					add(piece{kind: "fix", t: t, w: len(t.args)})
					return
				}
				b = append(b, byte(n))
			}
			add(piece{kind: "str", s: string(b)})
		case t.op == "lcat":
			// the part before the loop, then whatever the loop appends
			rec(t.args[0])
			a := append([]*Term{mk("lit", "")}, t.args[1:]...)
			add(piece{kind: "any", t: mk("lcat", t.sym, a...)})
		case t.op == "mkif":
			rec(t.args[0])
		case t.op == "app" && strings.HasPrefix(t.sym, "conv:") && len(t.args) == 1:
			rec(t.args[0])
		case t.op == "app" && t.sym == "digest":
			add(piece{kind: "fix", t: t, w: 32})
		case t.op == "app" && strings.HasPrefix(t.sym, "putint:"):
			add(piece{kind: "bin", t: t, w: 1})
		case t.op == "app" && (strings.HasSuffix(t.sym, "strconv.Itoa") || strings.HasSuffix(t.sym, "strconv.FormatInt") || strings.HasSuffix(t.sym, "strconv.FormatUint")):
			add(piece{kind: "dec", t: t.args[0]})
		case t.op == "app" && strings.HasPrefix(t.sym, "sprintf:") && len(t.args) >= 1:
			args := t.args[1:]
			if len(t.args) == 2 && t.args[1].op == "lit" {
				args = t.args[1].args
			}
			if t.sym != "sprintf:Sprintf" {
				args = t.args
				if len(t.args) == 1 && t.args[0].op == "lit" {
					args = t.args[0].args
				}
				for _, a := range args {
					add(formatted(a, 'v'))
				}
				return
			}
			if t.args[0].op != "str" {
				add(piece{kind: "any", t: t})
				return
			}
			f := strOf(t.args[0])
			k := 0
			for i := 0; i < len(f); i++ {
				if f[i] != '%' || i+1 >= len(f) {
					add(piece{kind: "str", s: f[i : i+1]})
					continue
				}
				i++
				if f[i] == '%' {
					add(piece{kind: "str", s: "%"})
					continue
				}
				cut, prec, padded := false, 0, false
				for i < len(f) && strings.IndexByte("0123456789.+-# ", f[i]) >= 0 {
					if cut && f[i] >= '0' && f[i] <= '9' {
						prec = 10*prec + int(f[i]-'0')
					}
					padded = padded || f[i] == '0'
					cut = cut || f[i] == '.'
					i++
				}
				if k >= len(args) || i >= len(f) {
					add(piece{kind: "str", s: "%!"})
					continue
				}
				if a := stripped(args[k]); !cut && (f[i] == 's' || f[i] == 'v') && a.op != "lit" && (isText(a) && a.op != "app" || a.op == "app" && hasPrefix(a.sym, "sprintf:")) {
					rec(a)
					k++
					continue
				}
				q := formatted(args[k], f[i])
				if q.kind == "dec" && padded {
					q.w = 1
				}
				if cut && q.kind == "str" && (f[i] == 's' || f[i] == 'v') && len(q.s) > prec {
					q.s = q.s[:prec]
				}
				if cut && q.kind == "any" {
					q.t = app("cut", q.t) // a precision shortens text
				}
				add(q)
				k++
			}
			for ; k < len(args); k++ { // surplus arguments are printed as well
				add(piece{kind: "str", s: "%!(EXTRA "})
				add(formatted(args[k], 'v'))
			}
		case t.op == "sub" && len(t.args) == 3 && t.args[2] == zeroInt:
			// nothing
		case t.op == "sub" && len(t.args) == 3:
			// a few bytes of a hash, or a part of a text that leaves out a fraction of it
			if n, ok := t.args[2].intVal(); ok && n <= 8 && ofHash(t.args[0], t.args[1], n) {
				add(piece{kind: "cut", t: t, w: int(n)})
				return
			}
			if n := t.args[2]; n.op == "app" && (n.sym == "div" || n.sym == "shr") && n.args[0] == lenOf(t.args[0]) {
				add(piece{kind: "cut", t: n, w: -1})
				return
			}
			add(piece{kind: "any", t: t})
		default:
			add(piece{kind: "any", t: t})
		}
	}
	rec(t)
	return out
}

func formatted(a *Term, verb byte) piece {
	for a.op == "mkif" {
		a = a.args[0]
	}
	if a.op == "str" && (verb == 's' || verb == 'v') {
		return piece{kind: "str", s: strOf(a)}
	}
	if a.op == "str" {
		return piece{kind: "str", s: string(verb) + strconv.Quote(strOf(a))}
	}
	switch verb {
	case 'd', 'v', 'x', 'X', 'o', 'b':
		if numeric(a) {
			return piece{kind: "dec", t: a}
		}
	}
	return piece{kind: "any", t: a}
}

func numeric(a *Term) bool {
	switch a.op {
	case "int", "lin", "lv", "len":
		return true
	case "in":
		return true
	case "app":
		return strings.HasPrefix(a.sym, "conv:") || a.sym == "mod" || a.sym == "div" || a.sym == "shr" || strings.HasPrefix(a.sym, "bin:")
	case "el":
		return true
	}
	return false
}

// ofHash: the n bytes from at lie in one hash.
func ofHash(t, at *Term, n int64) bool {
	k, ok := at.intVal()
	if !ok {
		return false
	}
	for _, p := range piecesOf(t) {
		if p.kind != "fix" || p.w <= 0 {
			return false
		}
		if k < int64(p.w) {
			return p.t.op == "app" && p.t.sym == "digest" && k+n <= int64(p.w)
		}
		k -= int64(p.w)
	}
	return false
}

func isHash(t *Term) bool { return t.op == "app" && t.sym == "digest" }

func strOf(t *Term) string { return t.sym }

// lossy: an integer operation that maps different values to the same one.
func lossy(t *Term) bool {
	if t.op != "app" {
		return false
	}
	switch {
	case t.sym == "mod" || t.sym == "div" || t.sym == "shr" || t.sym == "bin:&" || t.sym == "min":
		return true
	case strings.HasPrefix(t.sym, "bin:&^") || t.sym == "bin:|":
		return true
	case strings.HasPrefix(t.sym, "conv:") && len(t.args) == 1:
		w := convWidth(t.sym[5:])
		return w == 8 || w == 16 || w == 32 && shifted(t.args[0])
	}
	return false
}

// shifted: a multiple of a large constant, whose high bits a conversion loses.
func shifted(t *Term) bool {
	if t.op == "app" && t.sym == "shl" && len(t.args) == 2 {
		n, ok := t.args[1].intVal()
		return ok && n >= 8
	}
	r := false
	for _, m := range toLin(t).m {
		if m >= 256 || m <= -256 {
			r = true
		}
	}
	return r
}

func intsCompare(fs []*Term, a, b *Term) int {
	if a == b {
		return equal
	}
	if sa, sb := kept(fs, a), kept(fs, b); sa != a || sb != b {
		return intsCompare(fs, sa, sb)
	}
	same := lossy(a) && lossy(b) && a.sym == b.sym
	if same && strings.HasPrefix(a.sym, "conv:") {
		return equal
	}
	if contradicts(fs, eqInt(a, b)) {
		return apart
	}
	if same {
		return equal
	}
	if isLinear(eqInt(a, b)) && !opaqueInts(a) && !opaqueInts(b) {
		return equal
	}
	return unknown
}

// putCompare compares the integers two fixed-width encodings keep.
func putCompare(fs []*Term, a, b *Term) int {
	x, y := a.args[0], b.args[0]
	if w := putWidth(a); x != y && w > 0 && w < 64 && shifted(x) && shifted(y) {
		return equal
	}
	return intsCompare(fs, x, y)
}

// kept strips conversions that keep every value.
func kept(fs []*Term, t *Term) *Term {
	for t.op == "app" && strings.HasPrefix(t.sym, "conv:") && len(t.args) == 1 && (convWidth(t.sym[5:]) == 64 || convWidth(t.sym[5:]) == 32 && !shifted(t.args[0]) || fits(fs, t)) {
		t = t.args[0]
	}
	return t
}

// fits: a conversion that keeps every value its operand can have.
func fits(fs []*Term, t *Term) bool {
	if !strings.HasPrefix(t.sym, "conv:") || len(t.args) != 1 {
		return false
	}
	w := convWidth(t.sym[5:])
	return w > 0 && w < 63 && contradicts(fs, ge0(subT(t.args[0], intT(1<<uint(w)))))
}

func opaqueInts(t *Term) bool {
	r := false
	walk(t, func(x *Term) bool {
		switch x.op {
		case "app", "mu", "muv", "choice", "el", "fld":
			r = true
		case "len": // of something that is given
			g := x.args[0]
			for g.op == "fld" {
				g = g.args[0]
			}
			return g.op != "in"
		}
		return !r
	})
	return r
}

// compare decides whether two values are apart, equal (for some assignment), or unknown.
func compare(fs []*Term, a, b *Term) int {
	return compareN(fs, a, b, 0)
}

func compareN(fs []*Term, a, b *Term, d int) int {
	if a == b {
		return equal
	}
	if d > 30 {
		return unknown
	}
	if a.op == "choice" || b.op == "choice" {
		return unknown
	}
	if a.op == "app" && b.op == "app" {
		if a.sym == b.sym && len(a.args) == len(b.args) {
			if x, y := plainChallenge(a), plainChallenge(b); x != nil && y != nil {
				return compareN(fs, x, y, d+1)
			}
			switch {
			case a.sym == "digest" || a.sym == "Curve.HashToG1" || a.sym == "G1.Mul" || a.sym == "G2.Mul" || a.sym == "Gt.Exp" || a.sym == "Zr.PowMod" || a.sym == "Curve.NewZrFromInt" || a.sym == "G1.Bytes" || a.sym == "Zr.Bytes" || a.sym == "Curve.NewZrFromBytes":
				return compareAll(fs, a.args, b.args, d)
			case strings.HasPrefix(a.sym, "sprintf:") || strings.HasPrefix(a.sym, "conv:string") || strings.HasPrefix(a.sym, "conv:[]byte"):
				return comparePieces(fs, piecesOf(a), piecesOf(b), d)
			case strings.HasPrefix(a.sym, "putint:"):
				return putCompare(fs, a, b)
			}
		} else {
			// a generator drawn from the hash and a power of a fixed generator
			ga, gb := a.sym == "Curve.HashToG1", b.sym == "Curve.HashToG1"
			if ga != gb {
				return apart
			}
		}
	}
	if isText(a) && isText(b) {
		return comparePieces(fs, piecesOf(a), piecesOf(b), d)
	}
	if numeric(a) && numeric(b) {
		return intsCompare(fs, a, b)
	}
	return unknown
}

func isText(t *Term) bool {
	switch t.op {
	case "str", "cat", "lit", "lcat":
		return true
	case "sub":
		return len(t.args) > 0 && isText(t.args[0])
	case "app":
		return t.sym == "digest" || strings.HasPrefix(t.sym, "sprintf:") || strings.HasPrefix(t.sym, "putint:") || strings.HasPrefix(t.sym, "conv:string") || strings.HasPrefix(t.sym, "conv:[]byte")
	}
	return false
}

func compareAll(fs []*Term, a, b []*Term, d int) int {
	r := equal
	for i := range a {
		switch compareN(fs, a[i], b[i], d+1) {
		case apart:
			return apart
		case unknown:
			r = unknown
		}
	}
	return r
}

func comparePieces(fs []*Term, a, b []piece, d int) int {
	// common beginning
	for len(a) > 0 && len(b) > 0 {
		x, y := a[0], b[0]
		if x.kind == "str" && y.kind == "str" {
			n := 0
			for n < len(x.s) && n < len(y.s) && x.s[n] == y.s[n] {
				n++
			}
			if n < len(x.s) && n < len(y.s) {
				return apart
			}
			a, b = a[1:], b[1:]
			if n < len(x.s) {
				a = append([]piece{{kind: "str", s: x.s[n:]}}, a...)
			}
			if n < len(y.s) {
				b = append([]piece{{kind: "str", s: y.s[n:]}}, b...)
			}
			continue
		}
		if x.kind == y.kind && x.t == y.t && x.kind != "any" {
			a, b = a[1:], b[1:]
			continue
		}
		if x.kind == "any" && y.kind == "any" && x.t == y.t {
			a, b = a[1:], b[1:]
			continue
		}
		break
	}
	if len(a) == 0 && len(b) == 0 {
		return equal
	}
	if len(a) == 0 || len(b) == 0 {
		rest := a
		if len(a) == 0 {
			rest = b
		}
		for _, p := range rest {
			if p.kind != "any" {
				return apart // longer
			}
		}
		return unknown
	}
	x, y := a[0], b[0]
	switch {
	case x.kind == "dec" && y.kind == "dec":
		// followed by the end or by something that is no digit: the numbers are compared
		if endsNumber(a[1:]) && endsNumber(b[1:]) {
			switch intsCompare(fs, x.t, y.t) {
			case apart:
				return apart
			case equal:
				return comparePieces(fs, a[1:], b[1:], d)
			}
		}
		return unknown
	case x.kind == "cut" && y.kind == "cut" && x.w == y.w:
		return comparePieces(fs, a[1:], b[1:], d)
	case x.kind == "bin" && y.kind == "bin" && x.t.sym == y.t.sym:
		switch putCompare(fs, x.t, y.t) {
		case apart:
			return apart
		case equal:
			return comparePieces(fs, a[1:], b[1:], d)
		}
		return unknown
	case x.kind == "fix" && y.kind == "fix" && x.w == y.w:
		switch compareN(fs, x.t, y.t, d+1) {
		case apart:
			return apart
		case equal:
			return comparePieces(fs, a[1:], b[1:], d)
		default:
			if comparePieces(fs, a[1:], b[1:], d) == apart {
				return apart
			}
		}
		return unknown
	case x.kind == "str" && y.kind == "dec" || x.kind == "dec" && y.kind == "str":
		if x.kind == "dec" {
			x, y, a, b = y, x, b, a
		}
		k := 0
		for k < len(x.s) && k < 9 && x.s[k] >= '0' && x.s[k] <= '9' {
			k++
		}
		if k == 0 {
			return apart
		}
		if k < len(x.s) {
			// the number is the literal's digits
			n, _ := strconv.ParseInt(x.s[:k], 10, 64)
			if !endsNumber(b[1:]) {
				return unknown
			}
			if contradicts(fs, eqInt(y.t, intT(n))) {
				return apart
			}
			return comparePieces(fs, append([]piece{{kind: "str", s: x.s[k:]}}, a[1:]...), b[1:], d)
		}
		if len(a) == 1 {
			n, _ := strconv.ParseInt(x.s, 10, 64)
			if !endsNumber(b[1:]) {
				return unknown
			}
			if contradicts(fs, eqInt(y.t, intT(n))) || len(b) > 1 {
				return apart
			}
			return equal
		}
		if a[1].kind == "dec" && len(b) == 1 && len(a) == 2 {
			return equal // a label that ends in digits is continued by the number
		}
		return unknown
	}
	return unknown
}

func endsNumber(r []piece) bool {
	return len(r) == 0 || r[0].kind == "str" && (r[0].s[0] < '0' || r[0].s[0] > '9')
}

// ambiguous: a part of the byte string t whose ends cannot be told from the bytes: numbers in text form that
// follow each other without a separator, items of a loop whose lengths depend on the data and are not marked.
func ambiguous(t *Term) string {
	r := ""
	walkDeep(t, func(x *Term) bool {
		if r != "" {
			return false
		}
		switch x.op {
		case "cat", "lit":
			ps := piecesOf(x)
			for i := 1; i < len(ps); i++ {
				if bareNumber(ps[i-1]) && bareNumber(ps[i]) {
					r = "numbers written one after the other: " + x.str(6)
				}
			}
		case "lcat":
			r = ambiguousItems(x)
		}
		return r == ""
	})
	return r
}

func bareNumber(p piece) bool {
	if p.kind != "dec" || p.w != 0 {
		return false
	}
	_, k := p.t.intVal()
	return !k
}

func ambiguousItems(x *Term) string {
	item := x.args[2]
	if item.op == "choice" {
		params, alts := choiceAlts(item)
		for i := range alts {
			for j := 0; j < i; j++ {
				n, ok1 := lenOf(alts[i]).intVal()
				m, ok2 := lenOf(alts[j]).intVal()
				if !ok1 || !ok2 || n == m || n == 0 || m == 0 || marked(alts[i], alts[j]) {
					continue
				}
				for _, k := range []int{i, j} {
					for _, f := range edgeFacts(item.sym, params, k) {
						if dataOf(f) {
							return "items of " + itoa(int(n)) + " and " + itoa(int(m)) + " bytes, depending on the data: " + x.str(6)
						}
					}
				}
			}
		}
		return ""
	}
	ps := piecesOf(item)
	if len(ps) > 0 && bareNumber(ps[0]) && bareNumber(ps[len(ps)-1]) {
		if n, ok := x.args[0].intVal(); !ok || n > 1 {
			return "numbers written one after the other: " + x.str(6)
		}
	}
	return ""
}

// marked: the items begin with different constants.
func marked(a, b *Term) bool {
	first := func(t *Term) (int64, bool) {
		switch t.op {
		case "lit":
			if len(t.args) > 0 {
				return t.args[0].intVal()
			}
		case "cat":
			for _, p := range piecesOf(t) {
				if p.kind == "str" && p.s != "" {
					return int64(p.s[0]), true
				}
				if p.kind == "fix" && p.t.op == "lit" && len(p.t.args) > 0 {
					return p.t.args[0].intVal()
				}
				break
			}
		}
		return 0, false
	}
	x, ok1 := first(a)
	y, ok2 := first(b)
	return ok1 && ok2 && x != y
}

// dataOf: the condition is about an element of a sequence or the content of a field, not only a position.
func dataOf(f *Term) bool {
	hit := false
	walkDeep(f, func(y *Term) bool {
		hit = hit || y.op == "el"
		return !hit && y.op != "len"
	})
	return hit
}
