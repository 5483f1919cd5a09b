package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C07: root and total always reflect the latest update.

func init() {
	register("C07", "symbolic execution-free composition: after a liability set was created and its root and total were read, storing new bytes v under the root's key through the store the tree updates write to makes Root and ProveTot functions of v alone (no earlier database content or cached value remains in their results); every database wrapper returns what was last stored and forwards every write", checkC07)
}

// callTerm calls a function value.
func (s *session) callTerm(fv *Term, args ...*Term) (*Term, bool) {
	if fv == nil || fv.op != "func" && fv.op != "closure" {
		return nil, false
	}
	fn := funcTab[fv.sym]
	if fn == nil {
		return nil, false
	}
	s.n++
	r := s.in.CallFn(nil, s.st, fn, args, fv.args, "s"+itoa(s.n))
	for f := range s.in.Funcs {
		s.c.funcs[f] = true
	}
	return r, true
}

// fieldOfType: the only field of struct type t whose type is named want.
func fieldOfType(t types.Type, want string) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	r := ""
	for i := 0; i < s.NumFields(); i++ {
		if typeName(s.Field(i).Type()) == want {
			if r != "" {
				return ""
			}
			r = s.Field(i).Name()
		}
	}
	return r
}

// dbContentIn: database contents and cached values from before that a value still depends on.
func dbContentIn(ts ...*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		walkDeep(t, func(x *Term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if x.op == "mget" || x.op == "mhas" {
				isDB := false
				b := x.args[0]
				for b.op == "msto" {
					b = b.args[0]
				}
				walkDeep(b, func(y *Term) bool {
					if y.op == "db" {
						isDB = true
					}
					return !isDB
				})
				if isDB {
					out = append(out, x)
				}
			}
			return true
		})
	}
	return out
}

func deepMentions(t, x *Term) bool {
	hit := false
	walkDeep(t, func(y *Term) bool {
		if y == x {
			hit = true
		}
		return !hit
	})
	return hit
}

func checkC07(c *Ctx) {
	c.wrappers()
	c.rootFresh()
}

// wrappers: each implementation of the database interface that stores something itself.
func (c *Ctx) wrappers() {
	gets, puts := c.dbTypes()
	for _, g := range gets {
		var p *ssa.Function
		for _, q := range puts {
			if types.Identical(q.Signature.Recv().Type(), g.Signature.Recv().Type()) {
				p = q
			}
		}
		if p == nil {
			continue
		}
		recv, k, k2, v := in("recv"), in("k"), in("k2"), in("v")
		for _, empty := range []bool{true, false} {
			for _, before := range []string{"", "read", "write"} {
				s := c.session()
				s.st.assume(not(eqInt(lenT(v), zeroInt)))
				if empty {
					s.st.assume(eqInt(lenT(k), zeroInt))
				} else {
					s.st.assume(not(eqInt(lenT(k), zeroInt)))
				}
				what := "a key"
				if empty {
					what = "the empty key"
				}
				switch before {
				case "read":
					s.call(g, recv, k)
				case "write":
					s.st.assume(not(eqInt(lenT(in("v0")), zeroInt)))
					s.call(p, recv, k, in("v0"))
				}
				n := len(s.in.Events)
				s.call(p, recv, k, v)
				if s.st.dead {
					c.oblige(false, shortFn(p)+"/store", c.siteOf(p), "storing under "+what+" fails")
					continue
				}
				fw := false
				for _, e := range s.since(n, "dbput") {
					if e.Args[1] == s.in.seq(s.st, k) && e.Args[2] == s.in.seq(s.st, v) {
						fw = true
					}
				}
				if len(s.innerDB(g)) > 0 {
					c.oblige(fw, shortFn(p)+"/forwards", c.siteOf(p), "what is stored under "+what+" is not forwarded to the underlying database")
				}
				r := s.call(g, recv, k)
				c.oblige(s.st.dead || s.in.seq(s.st, r) == s.in.seq(s.st, v) || c.mentionsOnly(s, r, v), shortFn(g)+"/last-written", c.siteOf(g), "reading "+what+" after storing does not return what was stored but "+s.in.seq(s.st, r).String())
			}
		}
		// nothing else than the root's own key decides what is read as the root
		for _, write := range []bool{true, false} {
			s := c.session()
			s.fresh(g, recv)
			s.st.assume(eqInt(lenT(k), zeroInt))
			s.st.assume(not(eqInt(lenT(k2), zeroInt)))
			s.st.assume(not(eqInt(lenT(v), zeroInt)))
			if write {
				s.call(p, recv, k2, v)
			} else {
				s.call(g, recv, k2)
			}
			r := s.call(g, recv, k)
			if s.st.dead {
				continue
			}
			var bad *Term
			for _, a := range s.leaves(s.in.seq(s.st, r)) {
				if a == v || a.op == "mget" && a.args[1] == k2 {
					bad = a
				}
			}
			c.oblige(bad == nil, shortFn(g)+"/key", c.siteOf(g), "what is read under the empty key can be what belongs to another key")
		}
		// a write elsewhere does not disturb the root
		s := c.session()
		s.st.assume(eqInt(lenT(k), zeroInt))
		s.st.assume(not(eqInt(lenT(k2), zeroInt)))
		s.st.assume(not(eqInt(lenT(v), zeroInt)))
		s.st.assume(not(eqTerm(k, k2)))
		s.call(p, recv, k, v)
		s.call(p, recv, k2, in("w"))
		r := s.call(g, recv, k)
		bad := false
		if !s.st.dead {
			for _, a := range s.leaves(s.in.seq(s.st, r)) {
				bad = bad || a == in("w")
			}
		}
		c.oblige(!bad, shortFn(g)+"/other-key", c.siteOf(g), "storing under another key changes what is read under the empty key")
	}
}

// fresh: the receiver's fields other than the wrapped database are empty.
func (s *session) fresh(g *ssa.Function, recv *Term) {
	t := g.Signature.Recv().Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if _, ok := ft.Underlying().(*types.Interface); !ok {
			s.in.setCell(s.st, mk("fa", st.Field(i).Name(), recv), zeroOf(ft))
		}
	}
}

// leaves: the alternatives of a value that the facts do not exclude.
func (s *session) leaves(t *Term) []*Term {
	fs := s.st.factList()
	rs := newResolver(fs)
	var out []*Term
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		t = rs.head(t)
		if t.op == "choice" && d < 8 {
			_, alts := choiceAlts(t)
			for _, a := range alts {
				rec(a, d+1)
			}
			return
		}
		out = append(out, t)
	}
	rec(t, 0)
	return out
}

// innerDB: fields of the wrapper that hold another database.
func (s *session) innerDB(g *ssa.Function) []string {
	var r []string
	t := g.Signature.Recv().Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Interface); ok {
			r = append(r, st.Field(i).Name())
		}
	}
	return r
}

// mentionsOnly: r is determined by v (all alternatives that are still possible equal v).
func (c *Ctx) mentionsOnly(s *session, r, v *Term) bool {
	fs := s.st.factList()
	return same(fs, s.in.seq(s.st, r), s.in.seq(s.st, v))
}

func (c *Ctx) rootFresh() {
	mkLS := c.fn("pol", "NewLiabilitySet")
	root := c.method("pol", "LiabilitySet", "Root")
	tot := c.method("pol", "LiabilitySet", "ProveTot")
	put := c.method("sparse", "Tree", "Put")
	if mkLS == nil || root == nil || tot == nil || put == nil {
		return
	}
	s := c.session()
	ls := s.call(mkLS.fn, entryArgs(mkLS.fn)...)
	lsT := mkLS.fn.Signature.Results().At(0).Type()
	vt := fieldOfType(lsT, "*verkle.Tree")
	tv := c.p.Named("verkle", "Tree")
	if tv == nil || vt == "" {
		c.lose("no verkle tree in the liability set")
		return
	}
	st := fieldOfType(tv, "*sparse.Tree")
	tree := s.in.load(s.st, mk("fa", vt, ls), nil)
	sp := s.in.load(s.st, mk("fa", st, tree), nil)
	upd := s.in.load(s.st, mk("fa", "UpdateInnerVertex", sp), nil)

	// where updates are written: the receiver of the outermost write
	store := c.storeOfUpdates(s, upd)
	if store == nil {
		c.lose("no database write found in the vertex update")
		return
	}
	// the root vertex and its key
	rootKey := c.rootKey(put.fn)
	if rootKey == nil {
		c.lose("the key of a new root is unknown")
		return
	}
	rv := in("root")
	s.in.setCell(s.st, mk("fa", "Root", sp), rv)
	s.st.assume(not(eqTerm(rv, tNil)))
	s.in.setCell(s.st, mk("fa", "Data", rv), mk("mkif", "string", rootKey))
	typeTab["string"] = types.Typ[types.String]
	// fill whatever is cached
	s.call(root.fn, ls)
	s.call(tot.fn, ls)
	if s.st.dead {
		c.lose("reading the root fails")
		return
	}
	v := in("v")
	s.st.assume(not(eqInt(lenT(v), zeroInt)))
	keyBytes := s.in.newSlice(&frame{in: s.in, ctx: "session"}, s.st, "rk", types.Typ[types.Byte], rootKey, 0)
	c.storeInto(s, store, keyBytes, v)
	r := s.call(root.fn, ls)
	t := s.call(tot.fn, ls)
	if s.st.dead {
		c.oblige(false, "Root/after-update", c.siteOf(root.fn), "reading the root after an update fails")
		return
	}
	vs := s.in.seq(s.st, v)
	check := func(f *ssa.Function, val *Term, key string) {
		d := s.in.deep(s.st, val, nil, 0)
		old := dbContentIn(d)
		msg := ""
		if len(old) > 0 {
			msg = shortFn(f) + " still depends on what was stored before the last update: " + old[0].String()
		}
		c.oblige(len(old) == 0, key+"/stale", c.siteOf(f), msg)
		c.oblige(deepMentions(d, vs), key+"/latest", c.siteOf(f), shortFn(f)+" does not depend on the root vertex written last")
	}
	names := []string{"V", "W"}
	for i := 0; i < root.fn.Signature.Results().Len(); i++ {
		x := extract(r, i)
		x = s.in.val(s.st, x)
		n := "result"
		if i < 2 {
			n = names[i]
		}
		check(root.fn, x, "Root/"+n)
	}
	rt := tot.fn.Signature.Results().At(0).Type()
	stt, ok := rt.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < stt.NumFields(); i++ {
		x := fld(t, stt.Field(i).Name())
		if _, ok := isMathPtr(stt.Field(i).Type()); ok {
			x = s.in.val(s.st, x)
		}
		check(tot.fn, x, "ProveTot/"+stt.Field(i).Name())
	}
}

// storeOfUpdates: the database value that vertex updates write to (the outermost one), and the
// obligations that a vertex is stored under its own key and that this key is what is returned.
func (c *Ctx) storeOfUpdates(s *session, upd *Term) *Term {
	keep := s.st
	defer func() { s.st = keep }()
	var store *Term
	_, puts := c.dbTypes()
	isPut := map[string]bool{}
	for _, p := range puts {
		isPut[p.String()] = true
	}
	for k := 0; k < 4; k++ {
		leaves, emptyKey := tTrue, k&2 != 0
		if k&1 != 0 {
			leaves = tFalse
		}
		s.st = keep.clone()
		n := len(s.in.Events)
		args := entryArgsOf(upd)
		if args == nil {
			return nil
		}
		var key *Term
		for i, a := range args {
			t := updParam(upd, i)
			if isBoolType(t) {
				args[i] = leaves
			}
			if typeName(t) == "string" {
				key = a
			}
		}
		r, ok := s.callTerm(upd, args...)
		if !ok {
			return nil
		}
		// the outermost write decides where updates go
		first := true
		depth := ""
		nput := 0
		for _, e := range s.in.Events[n:] {
			outer := e.Kind == "dbput" || e.Kind == "enter" && isPut[e.Name]
			if !outer {
				continue
			}
			if depth != "" && len(e.Ctx) > len(depth) && e.Ctx[:len(depth)] == depth {
				continue
			}
			if e.Kind == "enter" {
				depth = e.Ctx
			}
			nput++
			if first {
				first = false
				if store != nil && store != e.Args[0] {
					c.oblige(false, "updates/one-store", c.eventSite(e), "vertices of different layers are written to different stores")
				}
				store = e.Args[0]
			}
			if key != nil {
				c.oblige(same(e.St.factList(), s.in.seq(e.St, e.Args[1]), s.in.seq(e.St, key)), "updates/key", c.eventSite(e), "a vertex is not stored under its own key")
			}
		}
		if key != nil && store != nil && !s.st.dead {
			kb := s.in.newSlice(&frame{in: s.in, ctx: "session"}, s.st, "uk", types.Typ[types.Byte], s.in.seq(s.st, key), 0)
			if emptyKey {
				s.st.assume(eqTerm(key, mk("str", "")))
				s.st.assume(eqInt(lenT(key), zeroInt))
			} else {
				s.st.assume(not(eqTerm(key, mk("str", ""))))
				s.st.assume(not(eqInt(lenT(key), zeroInt)))
			}
			if now := c.readFrom(s, store, kb); now != nil && !s.st.dead {
				ok := true
				for _, a := range s.leaves(s.in.seq(s.st, now)) {
					b := a
					if b.op != "mget" {
						continue
					}
					b = b.args[0]
					for b.op == "msto" {
						b = b.args[0]
					}
					if b.op == "db" {
						ok = false
					}
				}
				c.oblige(ok, "updates/written", "vertex update", "an update can finish without storing the vertex")
			}
		}
		if key != nil && !s.st.dead {
			ok := r.op == "mkif" && same(s.st.factList(), r.args[0], key)
			if r.op == "choice" {
				ok = true
				_, alts := choiceAlts(r)
				for _, a := range alts {
					if a.op != "mkif" || a.args[0] != key {
						ok = false
					}
				}
			}
			c.oblige(ok, "updates/data", "vertex update", "the data kept for a vertex is not the key it is stored under")
		}
	}
	return store
}

func updFn(upd *Term) *ssa.Function {
	if upd == nil || upd.op != "func" && upd.op != "closure" {
		return nil
	}
	return funcTab[upd.sym]
}

func updParam(upd *Term, i int) types.Type {
	return updFn(upd).Params[i].Type()
}

func entryArgsOf(upd *Term) []*Term {
	f := updFn(upd)
	if f == nil {
		return nil
	}
	args := entryArgs(f)
	for i := range args {
		args[i] = in("u" + itoa(i))
	}
	return args
}

// rootKey: the key of the root vertex of a tree that was empty.
func (c *Ctx) rootKey(put *ssa.Function) *Term {
	vn := c.p.Named("sparse", "Vertex")
	if vn == nil {
		return nil
	}
	kf := fieldOfType(vn, "string")
	if kf == "" {
		return nil
	}
	r := c.analyseWith(put, entryArgs(put), func(in *Interp, st *State) {
		st.assume(eqTerm(fld(mk("in", "recv"), "Root"), tNil))
	})
	if r.dead {
		return nil
	}
	root := r.in.load(r.st, mk("fa", "Root", mk("in", "recv")), nil)
	if root.op != "obj" {
		return nil
	}
	return r.in.load(r.st, mk("fa", kf, root), nil)
}

// storeInto writes v under key k to the given store.
func (c *Ctx) storeInto(s *session, store, k, v *Term) {
	_, puts := c.dbTypes()
	if o := s.in.objs[store.sym]; store.op == "obj" && o != nil {
		for _, p := range puts {
			t := p.Signature.Recv().Type()
			if q, ok := t.Underlying().(*types.Pointer); ok && types.Identical(q.Elem(), o.typ) {
				s.call(p, store, k, v)
				return
			}
		}
	}
	cell := mk("fa", "$db", store)
	m := s.in.cell(s.st, cell)
	if m == nil {
		m = mk("db", "", store)
	}
	s.st.mem = s.st.mem.Set(cell.id, mk("msto", "", m, dbKey(s.in.seq(s.st, k)), s.in.seq(s.st, v)))
}

func (c *Ctx) readFrom(s *session, store, k *Term) *Term {
	gets, _ := c.dbTypes()
	if o := s.in.objs[store.sym]; store.op == "obj" && o != nil {
		for _, g := range gets {
			t := g.Signature.Recv().Type()
			if q, ok := t.Underlying().(*types.Pointer); ok && types.Identical(q.Elem(), o.typ) {
				return s.call(g, store, k)
			}
		}
	}
	m := s.in.cell(s.st, mk("fa", "$db", store))
	if m == nil {
		return nil
	}
	return mapGet(m, dbKey(s.in.seq(s.st, k)))
}
