package main

import (
	"strings"
)

// panicked finds the first operation whose record shows a panic.
func panicked(r *result) *Violation {
	for i, x := range r.x {
		for _, id := range x.order {
			if k := strings.Index(x.log[id], "PANIC "); k >= 0 {
				o := findOp(r.e.plan, id)
				if o != nil && o.K == "cb" {
					continue
				}
				kind := "?"
				if o != nil {
					kind = o.K
				}
				s := x.log[id][k:]
				if len(s) > 200 {
					s = s[:200]
				}
				return &Violation{"panic", i, id, kind + ": " + s}
			}
		}
	}
	return nil
}

func init() {
	// ------------------------------------------------------------ C17
	reg("C17", func(g *gen, p *Plan) {
		r := g.r
		n := 1
		if r.P(0.25) {
			n = r.Range(2, 3)
		}
		for t := 0; t < n; t++ {
			w := wAll(wCreate, wMutate, wCombine, wRead, wRelease)
			switch r.N(4) {
			case 0: // decode, change, encode
				w = wAll(wMutate, map[string]int{"dec": 8, "enc": 12, "snapenc": 8, "read": 6})
			case 1: // failed loads and what comes after them
				w = wAll(wMutate, wRelease, map[string]int{"dec": 4, "load": 20, "unmarshal": 4, "enc": 8, "read": 8, "clone": 2})
			case 2: // combinations
				w = wAll(wCombine, wCombine, wCombine, wMutate, map[string]int{"dec": 8, "enc": 6, "equal": 6, "read": 4, "free": 3})
			}
			pr := mkProf(slotsTo(2+r.N(2)), w)
			pr.share = true
			pr.damage = []float64{0, 0.1, 0.4}[r.N(3)]
			p.Tasks = append(p.Tasks, TaskPlan{Ops: g.program(r.Range(3, 20), pr)})
		}
	}, func(p *Plan) *Violation {
		m := 0
		for _, t := range p.Tasks {
			for _, o := range t.Ops {
				if len(o.D) > m {
					m = len(o.D)
				}
			}
		}
		r := runWorld(p, runOpt{only: -1, race: true})
		if v := panicked(r); v != nil {
			return v
		}
		return failViol(r.fail)
	}, "random programs over all document operations, formats, value kinds and memory, with failed loads, recycled memory and other tasks in between; no operation may panic, loop or allocate without bound; non-trivial: at least five operations ran")
}
