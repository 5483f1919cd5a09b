package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func exploreChallenges(p *Program) {
	c := &Ctx{p: p, id: "X", funcs: map[string]bool{}, knownHit: map[string]string{}}
	for _, v := range c.verifiers() {
		var at []*ssa.Function
		for _, a := range v.atomic {
			at = append(at, a.fn)
		}
		r := c.analyse(v.ref.fn, at...)
		fs := r.accepting()
		fmt.Println("=====", v.name)
		var us []use
		for _, f := range fs {
			us = append(us, use{f, nil})
		}
		for _, a := range applications(us) {
			cs := challengesIn(a.exp, a.conds)
			fmt.Printf("  base %s\n    exp %s\n", a.base.str(4), a.exp.str(4))
			for _, d := range cs {
				fmt.Printf("      dig %s  | %v\n", d.t.str(9), d.conds)
			}
		}
	}
}
