package main

import (
	"fmt"
	"os"
)

func main() {
	a := os.Args[1:]
	switch {
	case len(a) >= 2 && a[0] == "dump":
		dumpMain(a[1:])
	case len(a) == 1 && a[0] == "upd":
		dbgUpd2()
	case len(a) == 2 && a[0] == "sum":
		dbgSum(a[1])
	case len(a) == 2 && a[0] == "deep":
		dbgDeep(a[1:])
	case len(a) == 2 && a[0] == "check":
		x := runCheck(a[1])
		stopProf()
		os.Exit(x)
	case len(a) == 1 && a[0] == "explore":
		p, err := LoadProgram(repoDir())
		if err != nil {
			panic(err)
		}
		exploreChallenges(p)
	case len(a) == 1 && a[0] == "list":
		for _, d := range checkDefs {
			fmt.Println(d.id, d.rule)
		}
	default:
		fmt.Println("usage: polcheck check <property> | list | dump <function>")
		os.Exit(2)
	}
}
