package main

import (
	"encoding/json"
	"time"

	"verifsim/rt"
)

// lastTrace: the decisions of the last world that ran under the plan's own schedule.
var lastTrace []rt.Decision

// safeCheck runs the property's check; trouble of the harness itself is not a violation.
func safeCheck(p *Plan) (v *Violation, trouble string) { return safeCheckBy(p, props[p.Prop].check) }

func safeCheckBy(p *Plan, check func(*Plan) *Violation) (v *Violation, trouble string) {
	defer func() {
		if r := recover(); r != nil {
			v = nil
			trouble = panicText(r)
			if he, ok := r.(harnessError); ok {
				trouble = string(he)
			}
		}
	}()
	return check(p), ""
}

// checkOf: a plan that kills its process is run in another one.
func checkOf(p *Plan, kind string) func(*Plan) *Violation {
	if kind == "killed" && !isDeep(p) {
		return inChild
	}
	return props[p.Prop].check
}

type shrinker struct {
	best  *Plan
	kind  string
	until time.Time
	tries int
}

// try adopts q if it still shows the same kind of violation.
func (s *shrinker) try(q *Plan) bool {
	if time.Now().After(s.until) {
		return false
	}
	s.tries++
	v, trouble := safeCheckBy(q, checkOf(q, s.kind))
	if trouble != "" || v == nil || v.Kind != s.kind {
		return false
	}
	q.Violation = v
	s.best = q
	return true
}

// mut tries one change of a copy of the best plan.
func (s *shrinker) mut(f func(q *Plan) bool) bool {
	q := s.best.clone()
	q.Violation = nil
	if !f(q) {
		return false
	}
	return s.try(q)
}

// list minimises a list: get returns its length, cut removes [lo,hi).
func (s *shrinker) list(get func(q *Plan) int, cut func(q *Plan, lo, hi int)) bool {
	any := false
	for step := get(s.best); step >= 1; step /= 2 {
		for lo := 0; lo < get(s.best); {
			hi := lo + step
			if n := get(s.best); hi > n {
				hi = n
			}
			if s.mut(func(q *Plan) bool { cut(q, lo, hi); return true }) {
				any = true
			} else {
				lo += step
			}
			if time.Now().After(s.until) {
				return any
			}
		}
	}
	return any
}

func cutOps(ops []Op, lo, hi int) []Op {
	return append(append([]Op(nil), ops[:lo]...), ops[hi:]...)
}

// ops visits every operation list of a plan.
func opLists(p *Plan) []*[]Op {
	l := []*[]Op{&p.Setup}
	for i := range p.Tasks {
		l = append(l, &p.Tasks[i].Ops)
	}
	for _, q := range l[:len(l):len(l)] {
		for i := range *q {
			if len((*q)[i].Sub) > 0 {
				l = append(l, &(*q)[i].Sub)
			}
		}
	}
	return l
}

func shrink(p *Plan, v *Violation, limit time.Duration) (*Plan, int) {
	s := &shrinker{best: p, kind: v.Kind, until: time.Now().Add(limit)}
	p.Violation = v
	// the schedule becomes a list of decisions
	if s.mut(func(q *Plan) bool { q.Sched = rt.SchedCfg{Mode: rt.ModeSeq}; return p.Sched.Mode != rt.ModeSeq }) {
	} else {
		lastTrace = nil
		safeCheck(p)
		tr := append([]rt.Decision(nil), lastTrace...)
		s.mut(func(q *Plan) bool { q.Sched = rt.SchedCfg{Mode: rt.ModeReplay, Decisions: tr}; return len(tr) > 0 })
	}
	for round := 0; round < 4; round++ {
		changed := false
		for i := range s.best.Tasks {
			if s.mut(func(q *Plan) bool { n := len(q.Tasks[i].Ops); q.Tasks[i].Ops = nil; return n > 0 }) {
				changed = true
			}
		}
		for li := 0; li < len(opLists(s.best)); li++ {
			i := li
			ok := s.list(func(q *Plan) int {
				if l := opLists(q); i < len(l) {
					return len(*l[i])
				}
				return 0
			}, func(q *Plan, lo, hi int) {
				l := opLists(q)[i]
				*l = cutOps(*l, lo, hi)
			})
			changed = changed || ok
		}
		if s.list(func(q *Plan) int { return len(q.Faults) }, func(q *Plan, lo, hi int) { q.Faults = append(q.Faults[:lo:lo], q.Faults[hi:]...) }) {
			changed = true
		}
		if s.best.Sched.Mode == rt.ModeReplay {
			if s.list(func(q *Plan) int { return len(q.Sched.Decisions) }, func(q *Plan, lo, hi int) {
				q.Sched.Decisions = append(q.Sched.Decisions[:lo:lo], q.Sched.Decisions[hi:]...)
			}) {
				changed = true
			}
			s.mut(func(q *Plan) bool { q.Sched = rt.SchedCfg{Mode: rt.ModeSeq}; return true })
		}
		for _, f := range []func(q *Plan) bool{
			func(q *Plan) bool { c := q.IgnoreCase; q.IgnoreCase = false; return c },
			func(q *Plan) bool { c := q.Pool.Drop; q.Pool.Drop = 0; return c != 0 },
			func(q *Plan) bool { c := q.Pool.Miss; q.Pool.Miss = 0; return c != 0 },
			func(q *Plan) bool { c := q.Pool.Mode; q.Pool.Mode = "lifo"; return c != "lifo" },
			func(q *Plan) bool { c := q.Clock.Mode; q.Clock.Mode = "fixed"; return c != "fixed" },
			func(q *Plan) bool { c := q.Clock2.Mode; q.Clock2.Mode = "fixed"; return c != "fixed" && c != "" },
		} {
			if s.mut(f) {
				changed = true
			}
		}
		// arguments and documents
		for li := range opLists(s.best) {
			for oi := 0; oi < len(*opLists(s.best)[li]); oi++ {
				at := func(q *Plan) *Op { return &(*opLists(q)[li])[oi] }
				for _, f := range []func(o *Op) bool{
					func(o *Op) bool { c := len(o.P); o.P = nil; return c > 0 },
					func(o *Op) bool { c := len(o.Q); o.Q = nil; return c > 0 },
					func(o *Op) bool { c := o.S; o.S = "s"; return len(c) > 1 },
					func(o *Op) bool { c := o.I; o.I = 0; return c != 0 && o.K != "prefix" },
					func(o *Op) bool { c := o.F; o.F = 0; return c != 0 },
					func(o *Op) bool {
						c := o.X & 8
						o.X &^= 8
						return c != 0 && (o.K == "dec" || o.K == "load" || o.K == "hostile")
					},
				} {
					if s.mut(func(q *Plan) bool { return f(at(q)) }) {
						changed = true
					}
				}
				if len(at(s.best).D) > 0 {
					if s.list(func(q *Plan) int { return len(at(q).D) }, func(q *Plan, lo, hi int) {
						o := at(q)
						o.D = append(append([]byte(nil), o.D[:lo]...), o.D[hi:]...)
					}) {
						changed = true
					}
				}
			}
		}
		var names []string
		for n := range s.best.Files {
			names = append(names, n)
		}
		sortStrings(names)
		for _, n := range names {
			if s.mut(func(q *Plan) bool { delete(q.Files, n); return true }) {
				changed = true
				continue
			}
			for s.mut(func(q *Plan) bool { b := q.Files[n]; q.Files[n] = b[:len(b)/2]; return len(b) > 0 }) {
				changed = true
			}
		}
		if !changed || time.Now().After(s.until) {
			break
		}
	}
	return s.best, s.tries
}

func planJSON(p *Plan) []byte {
	b, err := json.MarshalIndent(p, "", " ")
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}
