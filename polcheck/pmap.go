package main

// Persistent map from int keys to *Term: a 16-way trie with structural sharing, so
// copying abstract states is free and differences between states are cheap.

type pnode struct {
	kids [16]*pnode
	key  int
	val  *Term
	leaf bool
}

type PMap struct {
	root *pnode
	n    int
}

const pmDepth = 6 // 24 bits of key

func (m PMap) Get(k int) *Term {
	n := m.root
	for d := 0; d < pmDepth && n != nil; d++ {
		n = n.kids[(k>>(4*d))&15]
	}
	if n == nil {
		return nil
	}
	return n.val
}

func (m PMap) Set(k int, v *Term) PMap {
	if m.Get(k) == v {
		return m
	}
	return PMap{root: pset(m.root, k, v, 0)}
}

func pset(n *pnode, k int, v *Term, d int) *pnode {
	if d == pmDepth {
		return &pnode{key: k, val: v, leaf: true}
	}
	c := &pnode{}
	if n != nil {
		*c = *n
	}
	i := (k >> (4 * d)) & 15
	c.kids[i] = pset(c.kids[i], k, v, d+1)
	return c
}

// Each calls f for every entry (values may be nil when deleted; those are skipped).
func (m PMap) Each(f func(k int, v *Term)) { peach(m.root, f) }

func peach(n *pnode, f func(int, *Term)) {
	if n == nil {
		return
	}
	if n.leaf {
		if n.val != nil {
			f(n.key, n.val)
		}
		return
	}
	for _, c := range n.kids {
		peach(c, f)
	}
}

// Diff calls f for every key whose value differs between a and b.
func Diff(a, b PMap, f func(k int, va, vb *Term)) { pdiff(a.root, b.root, f) }

func pdiff(a, b *pnode, f func(int, *Term, *Term)) {
	if a == b {
		return
	}
	if a == nil || b == nil || a.leaf || b.leaf {
		if a != nil && b != nil && a.leaf && b.leaf {
			if a.val != b.val {
				f(a.key, a.val, b.val)
			}
			return
		}
		if a == nil && b.leaf {
			if b.val != nil {
				f(b.key, nil, b.val)
			}
			return
		}
		if b == nil && a.leaf {
			if a.val != nil {
				f(a.key, a.val, nil)
			}
			return
		}
		if a == nil {
			for _, c := range b.kids {
				pdiff(nil, c, f)
			}
			return
		}
		for _, c := range a.kids {
			pdiff(c, nil, f)
		}
		return
	}
	for i := range a.kids {
		pdiff(a.kids[i], b.kids[i], f)
	}
}

// Intersect keeps the entries equal in a and b.
func Intersect(a, b PMap) PMap {
	r := a
	Diff(a, b, func(k int, va, vb *Term) {
		if va != nil {
			r = r.Set(k, nil)
		}
	})
	return r
}

// Len counts the entries.
func (m PMap) Len() int {
	n := 0
	m.Each(func(int, *Term) { n++ })
	return n
}
