package main

import (
	"fmt"
	"slices"
)

// ---------------------------------------------------------------- memory kept by the library (C27)

const (
	memFirst = 40  // repetitions of every program
	memLong  = 480 // repetitions that confirm growth
	memEvery = 8   // which are measured every so often
)

// grows: the largest value of each of k equal stretches is larger than that of the stretch before,
// and the last step is not much smaller than the first.
func grows(m []int64, k int) bool {
	n := len(m) / k
	var w []int64
	for i := 0; i < k; i++ {
		x := m[i*n]
		for _, y := range m[i*n : (i+1)*n] {
			x = max(x, y)
		}
		if i > 0 && x <= w[i-1] {
			return false
		}
		w = append(w, x)
	}
	return w[k-1]-w[k-2] >= (w[2]-w[1])/2
}

func init() {
	reg("C27", func(g *gen, p *Plan) {
		r := g.r
		p.Pool.Drop, p.Pool.Miss = 0, 0
		if p.Pool.Mode == "rand" {
			p.Pool.Mode = "lifo"
		}
		// 0: everything is released or dropped; the value in slot 0 lives on and is 1: cleared, 2: loaded,
		// 3: used without a cache, its content staying of one size
		p.X = []int{0, 0, 0, 1, 2, 3}[r.N(6)]
		p.Pool.Cap = []int{2, 4, 8}[r.N(3)]
		if r.P(0.5) && p.X != 3 {
			g.sticky = append(g.sticky, itMark)
		}
		if p.X != 3 {
			g.itText = []float64{0, 0.3, 0.8}[r.N(3)]
		}
		w := wAll(wCreate, wMutate, wCombine, wRead, wRelease)
		switch r.N(5) {
		case 2: // small and large documents, one inside the other
			w = map[string]int{"dec": 10, "new": 6, "attach": 12, "setkey": 2, "remkey": 2, "free": 4, "clear": 1, "extract": 1}
		case 0:
			w = wAll(wRead, map[string]int{"dec": 20, "load": 10, "enc": 10, "tostd": 6})
		case 1:
			w = wAll(wCreate, wMutate, wCombine, wCombine)
		}
		pr := mkProf(slotsTo(3), w)
		pr.damage = []float64{0, 0.1, 0.5}[r.N(3)]
		pr.cached = []float64{0.5, 0.95}[r.N(2)]
		ops := g.program(r.Range(1, 9), pr)
		if p.X > 0 {
			var keep []Op
			once := false
			if p.X == 3 {
				o := g.op("dec", pr)
				o.A, o.X, o.Tag = 0, o.X&^4, "once"
				keep = append(keep, o)
			} else if r.P(0.6) { // one value for all repetitions
				once = true
				o := g.op([]string{"new", "dec"}[r.N(2)], pr)
				o.A, o.Tag = 0, "once"
				if o.K == "dec" {
					o.X |= 4
				} else {
					o.X = 15 + r.N(2) // a cached object or array
				}
				keep = append(keep, o)
			}
			for _, o := range ops {
				if o.A == 0 && (o.K == "free" || (p.X == 3 || once) && (o.K == "drop" || o.K == "new" || o.K == "newfrom" || o.K == "dec")) {
					continue
				}
				if o.B == 0 && (o.K == "clone" || o.K == "attach") {
					continue
				}
				keep = append(keep, o)
			}
			ops = keep
			switch p.X {
			case 1:
				if r.P(0.4) {
					ops = append(ops, Op{ID: g.id(), K: "empty", A: 0, X: r.N(2)})
				}
				ops = append(ops, Op{ID: g.id(), K: "clear", A: 0})
			case 2:
				o := g.op("load", pr)
				o.A, o.P = 0, nil
				ops = append(ops, o)
			}
		}
		if r.P(0.3) { // one value inside another that is released with it
			b := g.op([]string{"new", "dec"}[r.N(2)], pr)
			a := g.op("dec", pr)
			b.A, a.A = 1, 2
			a.X |= 4
			at := g.op("attach", pr)
			at.A, at.B = 2, 1
			at.P = []int{r.N(4), r.N(4)}[:r.N(3)]
			ops = append(ops, b, a, at)
		}
		for s := 0; s < 3; s++ {
			if (s > 0 || p.X == 0) && r.P(0.85) {
				ops = append(ops, Op{ID: g.id(), K: "free", A: s})
			}
		}
		p.Tasks = []TaskPlan{{Ops: ops}}
	}, func(p *Plan) *Violation {
		if len(p.Tasks) == 0 || len(p.Tasks[0].Ops) == 0 {
			return nil
		}
		r := runWorld(p, runOpt{only: -1, seq: true, repeat: memFirst})
		if r.fail != nil || len(r.x[0].mem) < memFirst || !grows(r.x[0].mem, 5) {
			return nil
		}
		if s := r.x[0].size; len(s) == memFirst && slices.Max(s[memFirst/2:]) > slices.Max(s[:memFirst/2]) {
			return nil // the content grows
		}
		r = runWorld(p, runOpt{only: -1, seq: true, repeat: memLong})
		m := r.x[0].mem
		if r.fail != nil || len(m) < memLong/memEvery || !grows(m, 4) || !grows(m, 12) {
			return nil
		}
		return &Violation{"grows", 0, -1, fmt.Sprintf("the library keeps %d bytes alive after %d repetitions of the program, %d after %d, %d after %d, and so on, though every value was released or dropped", m[len(m)/4-1], memLong/4, m[len(m)/2-1], memLong/2, m[len(m)-1], memLong)}
	}, "a program repeated 40 times with keys, texts and documents of its own each time, every value released, dropped or cleared at the end; memory reachable from the library's variables and recycler is measured after each repetition, growth is confirmed over 480; non-trivial: memory was recycled")
}
