package main

import "fmt"

func dbgUpd2() {
	p, _ := LoadProgram(dbgRepo())
	c := &Ctx{p: p, funcs: map[string]bool{}}
	for _, r := range c.updateRuns() {
		fmt.Println("== ", r.label())
		for _, w := range r.stored() {
			for _, g := range groupFields(w.typ) {
				var x *Term
				for _, fl := range fieldTypesOf(w.typ) {
					if fl.Name() == g.name {
						x = w.field(r.s, g.name, fl.Type())
					}
				}
				fmt.Println("--", g.name)
				for _, m := range summands(w.ev.St.factList(), x) {
					fmt.Println("    ", m.base, " * ", m.factors, m.lvs)
				}
			}
		}
	}
}
