package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func entryArgs(fn *ssa.Function) []*Term {
	var args []*Term
	n := 0
	for i := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil {
			args = append(args, in("recv"))
			continue
		}
		args = append(args, in(fmt.Sprintf("a%d", n)))
		n++
	}
	return args
}

func findFn(p *Program, s string) *ssa.Function {
	for _, f := range p.Functions() {
		if strings.HasSuffix(f.String(), s) {
			return f
		}
	}
	return nil
}

func dumpMain(a []string) {
	p, err := LoadProgram(repoDir())
	if err != nil {
		fmt.Println(err)
		return
	}
	fn := findFn(p, a[0])
	if fn == nil {
		fmt.Println("no function")
		for _, f := range p.Functions() {
			fmt.Println(f)
		}
		return
	}
	i := NewInterp(p)
	for _, x := range a[1:] {
		if f := findFn(p, x); f != nil {
			i.atomic[f.String()] = true
		}
	}
	st := &State{}
	r := i.CallFn(nil, st, fn, entryArgs(fn), nil, "")
	fmt.Println("steps", i.steps, "terms", len(termList), "events", len(i.Events))
	fmt.Println("result:", r)
	fmt.Println("dead:", st.dead)
	for _, f := range st.factList() {
		fmt.Println("FACT", f)
	}
	if r.op == "tuple" || true {
		e := r
		if r.op == "tuple" {
			e = r.args[len(r.args)-1]
		}
		st.assume(eqTerm(e, tNil))
		fmt.Println("---- accepting; dead", st.dead)
		for _, f := range st.factList() {
			fmt.Println("FACT", f)
		}
	}
	if tk := os.Getenv("DUMPTOK"); tk != "" { // debugging aid: the edges of one join
		if ti := tokens[tk]; ti != nil {
			for k, fs := range ti.edges {
				fmt.Println("EDGE", k)
				for _, x := range fs {
					fmt.Println("   ", x)
				}
			}
		}
	}
	if os.Getenv("DUMPEV") != "" {
		for _, e := range i.Events {
			fmt.Println("EVENT", e.Kind, e.Name, p.pos(e.Pos), e.Loops, e.St != nil)
			for _, a := range e.Args {
				fmt.Println("      ", a)
			}
		}
	}
	fmt.Println(i.Notes)
}
