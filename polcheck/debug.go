package main

import "os"
import "runtime/pprof"

func init() {
	if f := os.Getenv("POLPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
}
func stopProf() { pprof.StopCPUProfile() }

var debugOn = os.Getenv("POLDEBUG") != ""

func traceCov(q *query, t *Term, d int) {
	if d > 12 {
		return
	}
	r := q.cov(t)
	if !r.isTrue() {
		return
	}
	println(d, t.op, t.sym)
	for _, a := range t.args {
		traceCov(q, a, d+1)
	}
	if t.op == "choice" {
		params, alts := choiceAlts(t)
		for k := range alts {
			println("  edge", k, q.cov(alts[k]).isTrue())
			for _, e := range edgeFacts(t.sym, params, k) {
				println("     ", e.String())
			}
		}
	}
}

func debugCov(fs []*Term, l leaf) {
	g := append(append([]*Term(nil), fs...), l.conds...)
	s := saturate(g, l.idx)
	for _, f := range s {
		println("FACT", f.String())
	}
	q := newQuery(l.t, true, s)
	var all dnf
	for _, e := range equationsOf(s) {
		println("EQ", e.fact.String())
		for _, t := range e.sides() {
			d := q.cov(t)
			all = dOr(all, d)
			for _, c := range d {
				println("  CONJ")
				for _, f := range c {
					println("     ", f.String())
				}
			}
		}
	}
}
