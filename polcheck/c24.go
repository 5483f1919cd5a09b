package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C24: distinct vertices of a tree have distinct keys.

func init() {
	register("C24", "for every vertex the tree's Put hangs below another one: the value term of its key extends the key of its parent (as a recurrence along the path, or read from the parent) by the complete index in a way that can be split again, the recurrence starts from a constant, the index is the one the vertex is found under, and the key of an existing vertex is not assigned", checkC24)
}

func checkC24(c *Ctx) {
	put := c.method("sparse", "Tree", "Put")
	ts := c.treeShape()
	if put == nil || ts == nil {
		return
	}
	s := c.session()
	args := []*Term{in("recv")}
	for i := 0; i < put.fn.Signature.Params().Len(); i++ {
		args = append(args, in("a"+itoa(i)))
	}
	s.call(put.fn, args...)
	site := c.siteOf(put.fn)
	n := 0
	made := map[*Term]bool{}
	for _, e := range s.in.Events {
		if e.Kind != "mapupd" || len(e.Args) < 3 || e.Args[2].op != "obj" {
			continue
		}
		o := s.in.objs[e.Args[2].sym]
		if o == nil || o.typ == nil || typeName(o.typ) != "sparse.Vertex" && typeName(o.typ) != "pol/sparse.Vertex" {
			continue
		}
		n++
		made[e.Args[2]] = true
		c.oblige(true, "Put/vertex", c.eventSite(e), "")
		c.vertexKey(s, e, ts, site)
	}
	if n == 0 {
		c.lose("no vertex is created by %s", put.fn.Name())
		return
	}
	for _, e := range s.in.Events {
		if e.Kind != "store" || len(e.Args) < 2 || e.Args[0].op != "fa" || e.Args[0].sym != ts.key {
			continue
		}
		v := e.Args[0].args[0]
		if v.op == "obj" {
			continue // created here: what it holds when it is hung into the tree is what counts
		}
		if typ := c.ownerOf(e); typ != "" && typ != "Vertex" {
			continue
		}
		c.oblige(false, "Put/rename", c.eventSite(e), fmt.Sprintf("the key of the existing vertex %s becomes %s", v, e.Args[1]))
	}
}

// ownerOf: the type of the structure whose field is stored.
func (c *Ctx) ownerOf(e *Event) string {
	st, ok := e.Instr.(*ssa.Store)
	if !ok {
		return ""
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (c *Ctx) vertexKey(s *session, e *Event, ts *treeShape, site string) {
	v, idx := e.Args[2], e.Args[1]
	site = c.eventSite(e)
	fs := e.St.factList()
	key := newResolver(fs).head(s.in.load(e.St, fieldAddr(v, ts.key), nil))
	parent := newResolver(fs).head(s.in.load(e.St, fieldAddr(v, ts.parent), nil))
	c.keyForm(fs, e, key, parent, idx, ts, site, 0)
}

// keyForm checks one form the key of the vertex hung in by e may have.
func (c *Ctx) keyForm(fs []*Term, e *Event, key, parent, idx *Term, ts *treeShape, site string, d int) {
	if key.op == "choice" && d < 4 {
		params, alts := choiceAlts(key)
		for k, a := range alts {
			gs := append(append([]*Term(nil), fs...), edgeFacts(key.sym, params, k)...)
			if !impossible(gs, nil) {
				c.keyForm(gs, e, a, parent, idx, ts, site, d+1)
			}
		}
		return
	}
	if key.op == "mu" && d < 4 {
		// built by a loop over the path up to here: look at its last iteration
		if df := muDefs[key.sym]; df != nil && df.next != nil && df.self != nil && entails(fs, ge0(addK(key.args[0], -1))) {
			last := addK(key.args[0], -1)
			m := map[*Term]*Term{loopVar(df.loop): last, df.self: mk("mu", key.sym, append([]*Term{last}, key.args[1:]...)...)}
			for i, p := range df.params {
				if i+1 < len(key.args) {
					m[p] = key.args[i+1]
				}
			}
			c.keyForm(fs, e, newResolver(fs).deep(subst(df.next, m)), parent, idx, ts, site, d+1)
			return
		}
	}
	// what the key is made of besides the index
	var base *Term
	for _, p := range piecesOf(key) {
		if p.t == nil || p.kind != "any" {
			continue
		}
		switch t := p.t; {
		case t.op == "mu" || t.op == "muv" || t.op == "lcat" || t.op == "fld" && t.sym == ts.key:
			base = t
		case base == nil && !mentions(t, idx) && t.op != "choice" && t.op != "app":
			base = t
		}
	}
	if base == nil {
		lost := true
		walk(key, func(t *Term) bool {
			if t.op == "lcat" || t.op == "mu" || t.op == "muv" {
				lost = t.op != "lcat" && muDefs[t.sym] != nil && muDefs[t.sym].init.op == "str"
			}
			return true
		})
		if !lost {
			c.note("key %s of a new vertex is not recognised", short(key))
			return
		}
		c.oblige(false, "Put/key", site, fmt.Sprintf("the key %s does not depend on where the parent is", key))
		return
	}
	bad := extends(key, base, idx)
	c.oblige(bad == "", "Put/key", site, fmt.Sprintf("key %s of a vertex: %s", key, bad))
	switch {
	case base == fld(parent, ts.key) || base.op == "fld" && base.sym == ts.key:
		c.oblige(sameVertex(base.args[0], parent, e, ts), "Put/parent", site, fmt.Sprintf("the key extends %s, which is not the key of the parent %s", base, parent))
	case base.op == "lcat":
		// text appended once per level
		whole := base
		walk(key, func(t *Term) bool {
			if t.op == "lcat" && t.sym == base.sym {
				whole = t
			}
			return whole == base
		})
		next := mkCat(base, base.args[2])
		if base.args[1] == loopVar(base.sym) {
			bad := extends(next, base, idx)
			c.oblige(bad == "", "Put/prefix", site, fmt.Sprintf("prefix %s of the keys below: %s", next, bad))
		} else {
			c.note("key prefix %s", short(base))
		}
		c.oblige(constantText(whole.args[0]), "Put/root", site, fmt.Sprintf("the keys of a tree start with %s, which differs between updates", whole.args[0]))
	case base.op == "mu" || base.op == "muv":
		df := muDefs[base.sym]
		if df == nil || df.next == nil || df.init == nil || df.self == nil {
			c.note("key prefix %s", short(base))
			return
		}
		m := map[*Term]*Term{loopVar(df.loop): base.args[0], df.self: base}
		for i, p := range df.params {
			if i+1 < len(base.args) {
				m[p] = base.args[i+1]
			}
		}
		for _, a := range alternatives(df.next) {
			a = subst(a, m)
			if a == base {
				c.oblige(false, "Put/prefix", site, "the prefix of the keys of a level is not extended on every way to the level below it")
				continue
			}
			bad := extends(a, base, subst(idx, m))
			c.oblige(bad == "", "Put/prefix", site, fmt.Sprintf("prefix %s of the keys below: %s", a, bad))
		}
		c.oblige(constantText(df.init), "Put/root", site, fmt.Sprintf("the keys of a tree start with %s, which differs between updates", df.init))
	default:
		c.note("key prefix %s", short(base))
	}
}

// constantText: the same for every update of a tree.
func constantText(t *Term) bool {
	ok := true
	walk(t, func(x *Term) bool {
		if x.op == "in" && x != in("recv") || x.op == "app" && (x.sym == "callfn" || hasPrefix(x.sym, "draw")) {
			ok = false
		}
		return ok
	})
	return ok
}

// sameVertex: the map the vertex is hung into is the parent's.
func sameVertex(v, parent *Term, e *Event, ts *treeShape) bool {
	return v == parent || mentions(e.Args[0], v)
}
