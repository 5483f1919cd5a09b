package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C17: reading and proving never change the liability set.

func init() {
	register("C17", "read operations contain no database write and no assignment reaching the tree, the vertices or the liability set; a found result implies that a descendant existed at every step of the path, and a proof implies a found result for the same identifier", checkC17)
}

func checkC17(c *Ctx) {
	var reads []*ssa.Function
	add := func(f *fnRef) {
		if f != nil {
			reads = append(reads, f.fn)
		}
	}
	add(c.method("pol", "LiabilitySet", "Root"))
	add(c.method("pol", "LiabilitySet", "Get"))
	add(c.method("pol", "LiabilitySet", "ProveTot"))
	add(c.method("pol", "LiabilitySet", "ProveLiability"))
	add(c.method("verkle", "Tree", "Get"))
	add(c.method("verkle", "Tree", "Serialize"))
	add(c.method("sparse", "Tree", "Get"))
	gets, _ := c.dbTypes()
	for _, f := range reads {
		r := c.analyse(f)
		n := 0
		for _, e := range r.in.Events {
			if e.Kind == "dbput" {
				c.oblige(false, shortFn(f)+"/dbput", c.eventSite(e), shortFn(f)+" writes to the database")
				n++
			}
		}
		bad := map[*Event]effect{}
		for _, e := range c.foreignEffects(r) {
			bad[e.ev] = e
		}
		for _, e := range r.in.Events {
			switch e.Kind {
			case "mutate", "store", "mapupd", "mapdel", "copy", "sort", "append":
			default:
				continue
			}
			b, isBad := bad[e]
			msg := ""
			if isBad {
				msg = fmt.Sprintf("%s %s, reachable from %s", shortFn(f), b.what, describe(b.root))
			}
			c.oblige(!isBad, shortFn(f)+"/"+e.Kind, c.eventSite(e), msg)
		}
		c.oblige(n == 0, shortFn(f)+"/no-database-write", c.siteOf(f), "")
	}
	// database wrappers: reading forwards no write
	for _, f := range gets {
		r := c.analyse(f)
		ok := true
		for _, e := range r.in.Events {
			if e.Kind == "dbput" {
				ok = false
			}
		}
		c.oblige(ok, shortFn(f)+"/no-database-write", c.siteOf(f), shortFn(f)+" writes to the database while reading")
	}

	// absence
	sg := c.method("sparse", "Tree", "Get")
	vg := c.method("verkle", "Tree", "Get")
	lg := c.method("pol", "LiabilitySet", "Get")
	pl := c.method("pol", "LiabilitySet", "ProveLiability")
	if sg == nil || vg == nil || lg == nil || pl == nil {
		return
	}
	r := c.analyse(sg.fn)
	fs := r.accepting()
	if !r.dead {
		path := app("callfn", fld(in("recv"), "ID2Path"), r.args[1])
		c.oblige(existsAlong(fs, path), "lookup/every-step", c.siteOf(sg.fn), "a lookup can report success although a descendant on the path does not exist")
	} else {
		c.skip("lookups never succeed")
	}
	for _, x := range []struct{ outer, inner *fnRef }{{vg, sg}, {lg, vg}, {pl, vg}} {
		r := c.analyse(x.outer.fn, x.inner.fn)
		fs := r.accepting()
		if r.dead {
			c.skip("%s never reports success", shortFn(x.outer.fn))
			continue
		}
		id := r.params(func(t types.Type) bool { return typeName(t) == "string" })
		ok := false
		for _, f := range fs {
			if f.op == "app" && f.sym == "pred:"+x.inner.fn.String()+".2" && len(id) == 1 {
				for _, a := range f.args {
					if a == id[0] {
						ok = true
					}
				}
			}
		}
		c.oblige(ok, shortFn(x.outer.fn)+"/absence", c.siteOf(x.outer.fn), shortFn(x.outer.fn)+" can report success although the lookup of the same identifier did not succeed")
	}
}

// existsAlong: every iteration over the path found a descendant at the path's own step.
func existsAlong(fs []*Term, path *Term) bool {
	for _, f := range fs {
		if f.op != "all" {
			continue
		}
		lv := loopVar(f.sym)
		if !entails(fs, eqInt(f.args[0], mk("len", "", path))) {
			continue
		}
		b := f.args[1]
		step := elAt(path, lv)
		hit := false
		switch b.op {
		case "mhas":
			hit = sameStep(b.args[1], step)
		case "not":
			if b.args[0].op == "eq" {
				for _, a := range b.args[0].args {
					if a.op == "mget" && sameStep(a.args[1], step) {
						hit = true
					}
				}
			}
		}
		if hit {
			return true
		}
	}
	return false
}

func sameStep(k, step *Term) bool { return stripConv(k) == stripConv(step) }
