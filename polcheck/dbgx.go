package main

import (
	"fmt"
	"os"
)

func dbgDeep(a []string) {
	p, _ := LoadProgram(dbgRepo())
	fn := findFn(p, a[0])
	i := NewInterp(p)
	st := &State{}
	r := i.CallFn(nil, st, fn, entryArgs(fn), nil, "")
	d := i.deep(st, r, fn.Signature.Results().At(fn.Signature.Results().Len()-1).Type(), 0)
	if r.op == "tuple" {
		d = i.deep(st, r.args[len(r.args)-1], fn.Signature.Results().At(len(r.args)-1).Type(), 0)
	}
	fmt.Println(d)
}

func dbgRepo() string {
	if d := os.Getenv("POLCHECK_REPO"); d != "" {
		return d
	}
	return "/repo"
}
