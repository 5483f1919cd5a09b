package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx collects the obligations of one check.
type Ctx struct {
	p          *Program
	id         string
	rule       string
	obligs     int
	discharged int
	viols      []violation
	samples    []string
	notes      []string
	skipped    []string
	lost       []string       // anchors that were not found: the property is undecided
	neutrals   map[*Term]bool // package-level points that are the neutral element
	once       map[*ssa.Function]bool
	funcs      map[string]bool
	known      []knownFinding
	knownHit   map[string]string
}

type violation struct {
	key  string // stable identification: rule + construct
	site string
	msg  string
}

type knownFinding struct {
	property, key, what string
}

// oblige records one obligation. key identifies it, site is the construct, msg what is wrong if not ok.
func (c *Ctx) oblige(ok bool, key, site, msg string) bool {
	c.obligs++
	if ok {
		c.discharged++
		if len(c.samples) < 40 {
			c.samples = append(c.samples, fmt.Sprintf("%s [%s]", key, site))
		}
		return true
	}
	for _, v := range c.viols {
		if v.key == key && v.site == site {
			return false
		}
	}
	c.viols = append(c.viols, violation{key, site, msg})
	return false
}

func (c *Ctx) skip(format string, a ...interface{}) {
	c.skipped = append(c.skipped, fmt.Sprintf(format, a...))
}

func (c *Ctx) lose(format string, a ...interface{}) {
	c.lost = append(c.lost, fmt.Sprintf(format, a...))
}

func (c *Ctx) note(format string, a ...interface{}) {
	if len(c.notes) < 60 {
		c.notes = append(c.notes, fmt.Sprintf(format, a...))
	}
}

func (c *Ctx) analysed(fn *ssa.Function) {
	if fn != nil {
		c.funcs[fn.String()] = true
	}
}

func (c *Ctx) siteOf(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return c.p.pos(fn.Pos()) + " " + fn.String()
}

type checkDef struct {
	id   string
	rule string
	run  func(c *Ctx)
}

var checkDefs []checkDef

func register(id, rule string, run func(c *Ctx)) {
	checkDefs = append(checkDefs, checkDef{id, rule, run})
}

func verifDir() string {
	if d := os.Getenv("POLCHECK_VERIF"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(d, "known-findings.txt")); err == nil {
			return d
		}
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("POLCHECK_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadKnown(dir, id string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<key> -- <what>
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		key, what, _ := strings.Cut(rest, " -- ")
		r = append(r, knownFinding{id, strings.TrimSpace(key), what})
	}
	return r
}

func runCheck(id string) int {
	var def *checkDef
	for i := range checkDefs {
		if checkDefs[i].id == id {
			def = &checkDefs[i]
		}
	}
	if def == nil {
		fmt.Println("no such check:", id)
		return 2
	}
	t0 := time.Now()
	c := &Ctx{id: id, rule: def.rule, funcs: map[string]bool{}, knownHit: map[string]string{}}
	dir := verifDir()
	c.known = loadKnown(dir, id)
	p, err := LoadProgram(repoDir())
	if err != nil {
		fmt.Println("cannot load the program:", err)
		return 2
	}
	c.p = p
	func() {
		defer func() {
			if r := recover(); r != nil && os.Getenv("POLCHECK_PANIC") == "" {
				c.lost = append(c.lost, fmt.Sprintf("the analysis stopped early: %v", r))
			} else if r != nil {
				panic(r)
			}
		}()
		def.run(c)
	}()
	sort.SliceStable(c.viols, func(i, j int) bool { return c.viols[i].key+c.viols[i].site < c.viols[j].key+c.viols[j].site })
	var left []violation
	for _, v := range c.viols {
		hit := false
		for _, k := range c.known {
			if k.key == v.key {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, k.what, v.site)
				hit = true
				break
			}
		}
		if !hit {
			left = append(left, v)
		}
	}
	c.writeEvidence(dir, left, time.Since(t0).Seconds())
	for _, s := range c.skipped {
		fmt.Println("not checked:", s)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions analysed\n", id, c.obligs, c.discharged, len(c.funcs))
	if len(left) == 0 {
		for _, s := range c.lost {
			fmt.Println("UNDECIDED:", s)
		}
		if len(c.lost) > 0 || c.obligs == 0 {
			return 2
		}
		return 0
	}
	replay := filepath.Join(dir, "evidence", id+".replay.txt")
	var b strings.Builder
	for _, v := range left {
		fmt.Fprintf(&b, "%s\n  at %s\n  %s\n", v.key, v.site, v.msg)
		fmt.Printf("  %s\n    at %s\n    %s\n", v.key, v.site, v.msg)
	}
	os.WriteFile(replay, []byte(b.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

func (c *Ctx) writeEvidence(dir string, left []violation, wall float64) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var vs []string
	for _, v := range left {
		vs = append(vs, v.key+" at "+v.site+": "+v.msg)
	}
	ev := map[string]interface{}{
		"property": c.id,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]interface{}{
			"explanation":        "static analysis of the SSA form of /repo; every obligation is decided from the source on this run. Rule: " + c.rule,
			"obligations":        c.obligs,
			"discharged":         c.discharged,
			"functions_analysed": fns,
			"samples":            c.samples,
			"not_checked":        append(append([]string(nil), c.skipped...), c.lost...),
			"notes":              c.notes,
			"violated":           vs,
		},
		"assumptions": assumptions,
		"wall_s":      wall,
		"violations":  len(left),
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, "evidence", c.id+".json"), append(b, '\n'), 0o644)
}

var assumptions = []string{
	"the math library (IBM/mathlib, gnark-crypto), the Go standard library and the compiler behave as documented; their functions are modelled by a table of effects",
	"integer conversions to 16 bits and more do not lose values used as indices (fan-outs, path digits, vector positions)",
}

// ---- analysis helpers ----

type result struct {
	in   *Interp
	st   *State
	ret  *Term
	fn   *ssa.Function
	args []*Term
	acc  []*Term // facts at accepting returns
	dead bool
}

// analyse interprets fn on symbolic arguments; the functions in atomic are left uninterpreted.
func (c *Ctx) analyse(fn *ssa.Function, atomic ...*ssa.Function) *result {
	return c.analyseWith(fn, entryArgs(fn), nil, atomic...)
}

func (c *Ctx) analyseWith(fn *ssa.Function, args []*Term, setup func(*Interp, *State), atomic ...*ssa.Function) *result {
	c.analysed(fn)
	i := NewInterp(c.p)
	for _, f := range atomic {
		if f != nil && f != fn {
			i.atomic[f.String()] = true
		}
	}
	st := &State{}
	if setup != nil {
		setup(i, st)
	}
	r := &result{in: i, st: st, fn: fn, args: args}
	r.ret = i.CallFn(nil, st, fn, args, nil, "")
	r.dead = st.dead
	for f := range i.Funcs {
		c.funcs[f] = true
	}
	for n := range i.Notes {
		c.note("%s: %s", fn.Name(), n)
	}
	return r
}

// accepting: the facts of every return of fn whose error result is nil (bool result true).
func (r *result) accepting() []*Term {
	if r.acc != nil || r.dead {
		return r.acc
	}
	e := r.ret
	if e.op == "tuple" {
		e = e.args[len(e.args)-1]
	}
	sig := r.fn.Signature.Results()
	st := r.st.clone()
	if sig.Len() > 0 && isBoolType(sig.At(sig.Len()-1).Type()) {
		st.assume(e)
	} else {
		st.assume(eqTerm(e, tNil))
	}
	if st.dead {
		r.dead = true
		return nil
	}
	r.acc = st.factList()
	return r.acc
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// param returns the entry term of the parameter with the given type string (n-th of that type).
func (r *result) params(match func(t types.Type) bool) []*Term {
	var out []*Term
	for i, p := range r.fn.Params {
		if match(p.Type()) {
			out = append(out, r.args[i])
		}
	}
	return out
}

func typeIs(p *Program, s string) func(types.Type) bool {
	return func(t types.Type) bool { return typeName(t) == s }
}

// typeName: short type name, package-qualified by package name.
func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func paramOf(r *result, tname string, n int) *Term {
	ps := r.params(func(t types.Type) bool { return typeName(t) == tname || typeName(t.Underlying()) == tname })
	if n < len(ps) {
		return ps[n]
	}
	return nil
}

// hasField: does the struct type behind t have field f?
func hasField(t types.Type, f string) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return s.Field(i).Type(), true
		}
	}
	return nil, false
}

type fnRef struct{ fn *ssa.Function }

func (f *fnRef) get() *ssa.Function {
	if f == nil {
		return nil
	}
	return f.fn
}

func (f *fnRef) name() string {
	if f == nil || f.fn == nil {
		return "?"
	}
	return f.fn.String()
}

func (c *Ctx) fn(pkg, name string) *fnRef {
	if f := c.p.Fn(pkg, name); f != nil {
		return &fnRef{f}
	}
	c.lose("no function %s.%s", pkg, name)
	return nil
}

func (c *Ctx) method(pkg, typ, name string) *fnRef {
	if f := c.p.Method(pkg, typ, name); f != nil {
		return &fnRef{f}
	}
	c.lose("no method %s.%s.%s", pkg, typ, name)
	return nil
}
