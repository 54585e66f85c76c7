package main

import (
	"fmt"

	dx "github.com/suiyunonghen/dxsvalue"

	"verifsim/rt"
	simos "verifsim/shim/os"
)

type result struct {
	w     *rt.World
	e     *env
	x     []*exec
	fail  *rt.Failure
	viol  *Violation
	trace []rt.Decision
	fs    *simos.System
}

// tally collects what a worker's runs did.
type tally struct {
	Plans, Worlds, Steps, Switches int
	SimNS                          int64
	Counts                         map[string]int
	Inter                          map[uint64]bool
	Shapes                         map[uint64]bool
	PoolHit, PoolMiss, PoolForced  int
	PoolDrop                       int
	ClockReads, ClockJumps         int
	Blocks, Crashes                int
	MainSwitches                   int
	MainInter                      uint64
	Digest                         uint64
}

func newTally() *tally {
	return &tally{Counts: map[string]int{}, Inter: map[uint64]bool{}, Shapes: map[uint64]bool{}}
}

var tl = newTally()

func (t *tally) add(w *rt.World) {
	t.Worlds++
	t.Steps += w.Stats.Steps
	t.Switches += w.Stats.Switches
	t.PoolHit += w.Stats.PoolHit
	t.PoolMiss += w.Stats.PoolMiss
	t.PoolForced += w.Stats.PoolForced
	t.PoolDrop += w.Stats.PoolDrop
	t.ClockReads += w.Stats.ClockReads
	t.ClockJumps += w.Stats.ClockJumps
	t.Blocks += w.Stats.Blocks
	if w.Crashed {
		t.Crashes++
	}
	d := w.Now - w.Cfg.Clock.Start
	if d < 0 {
		d = -d
	}
	t.SimNS += d + int64(w.Stats.Steps)*100
	for k, v := range w.Stats.Counts {
		t.Counts[k] += v
	}
	if len(t.Inter) < 2_000_000 && w.Stats.Switches > 1 {
		t.Inter[w.Stats.Interleave] = true
	}
}

func mkConsts(e *env) {
	for t := dx.VT_NULL; t <= dx.VT_INF; t++ {
		c := dx.NewValue(t)
		e.consts = append(e.consts, c)
		if e.opt.consts {
			e.cbase = append(e.cbase, snap(c, snapEnc))
		}
	}
}

// runWorld executes the plan once.
func runWorld(p *Plan, opt runOpt) *result {
	rt.ResetGlobals()
	dx.IgnoreCase = p.IgnoreCase
	cfg := rt.Config{Seed: p.Seed, MapSeed: opt.mapSeed, Sched: p.Sched, Pool: p.Pool, Clock: p.Clock, OpLimit: opt.opLimit, MaxLen: opt.maxLen}
	if cfg.OpLimit == 0 {
		cfg.OpLimit = 3_000_000 + 60*p.bytes()
	}
	if opt.pool != nil {
		cfg.Pool = *opt.pool
	}
	if opt.clock != nil {
		cfg.Clock = *opt.clock
	}
	if opt.seq {
		cfg.Sched = rt.SchedCfg{Mode: rt.ModeSeq}
	}
	e := &env{plan: p, opt: opt}
	e.fs = opt.keepFS
	if e.fs == nil {
		e.fs = simos.NewSystem()
		for n, b := range p.Files {
			e.fs.Put(n, b)
		}
	}
	e.fs.Faults = p.Faults
	rt.Outside(func() { mkConsts(e) })
	r := &result{e: e, fs: e.fs}
	if len(p.Setup) > 0 {
		sc := cfg
		sc.Sched = rt.SchedCfg{Mode: rt.ModeSeq}
		w := rt.NewWorld(sc)
		w.FS = e.fs
		x := newExec(e, 99)
		w.AddTask("setup", x, func() { x.run(p.Setup) })
		w.Run()
		tl.add(w)
		if w.Fail != nil {
			r.fail, r.w = w.Fail, w
			return r
		}
		for _, v := range x.slots {
			if v != nil {
				e.shared = append(e.shared, v)
			}
		}
		if len(e.shared) == 0 {
			e.shared = append(e.shared, dx.NewValue(dx.VT_Object))
		}
	}
	cfg.Race = opt.race
	w := rt.NewWorld(cfg)
	w.FS = e.fs
	for i := range p.Tasks {
		x := newExec(e, i)
		r.x = append(r.x, x)
		ops := p.Tasks[i].Ops
		if opt.only >= 0 && i != opt.only {
			ops = nil
		}
		f := func() { x.run(ops) }
		if opt.repeat > 0 {
			f = func() { x.again(ops, opt.repeat) }
		}
		w.AddTask(fmt.Sprint("task", i), x, f)
	}
	w.Run()
	tl.add(w)
	r.w, r.fail, r.viol, r.trace = w, w.Fail, e.viol, w.Trace
	if !opt.seq {
		lastTrace = w.Trace
		tl.MainSwitches += w.Stats.Switches
		tl.MainInter = rt.Mix(tl.MainInter, w.Stats.Interleave)
	}
	if digesting {
		r.digest()
	}
	if w.Fail != nil && w.Fail.Kind == "harness" {
		panic(harnessError(w.Fail.Msg))
	}
	return r
}

func newExec(e *env, id int) *exec {
	return &exec{e: e, id: id, log: map[int]string{}, cbRan: map[int]bool{}, marks: map[int]string{}}
}

// sharedFail: a failure that takes two tasks, whatever a single one may do.
func sharedFail(f *rt.Failure) bool { return f.Kind == "deadlock" || f.Kind == "race" }

// failViol turns a simulator-level failure into a violation.
func failViol(f *rt.Failure) *Violation {
	if f == nil {
		return nil
	}
	return &Violation{Kind: f.Kind, Task: f.Task, Op: f.Op, Msg: f.Msg}
}

func findOp(p *Plan, id int) *Op {
	var rec func(ops []Op) *Op
	rec = func(ops []Op) *Op {
		for i := range ops {
			if ops[i].ID == id {
				return &ops[i]
			}
			if s := rec(ops[i].Sub); s != nil {
				return s
			}
		}
		return nil
	}
	if o := rec(p.Setup); o != nil {
		return o
	}
	for _, t := range p.Tasks {
		if o := rec(t.Ops); o != nil {
			return o
		}
	}
	return nil
}

// compareLogs reports the first operation on which two executions of task t differ.
func compareLogs(p *Plan, t int, a, b *exec, kind, why string, want func(o *Op) bool) *Violation {
	for _, id := range b.order {
		o := findOp(p, id)
		if o == nil || want != nil && !want(o) {
			continue
		}
		la, ok := a.log[id]
		if !ok {
			return &Violation{kind, t, id, fmt.Sprintf("task %d operation %d (%s) did not run; %s", t, id, o.K, why)}
		}
		if la != b.log[id] {
			return &Violation{kind, t, id, fmt.Sprintf("task %d operation %d (%s): %s: %s", t, id, o.K, why, diffAt(la, b.log[id]))}
		}
	}
	return nil
}

// digesting: runs add everything they observed to tl.Digest (determinism check).
var digesting, digestDump bool

func (r *result) digest() {
	h := tl.Digest
	add := func(s string) {
		f := uint64(14695981039346656037)
		for i := 0; i < len(s); i++ {
			f = (f ^ uint64(s[i])) * 1099511628211
		}
		h = rt.Mix(h, f)
		if digestDump {
			fmt.Printf("  %s\n", s)
		}
	}
	if digestDump {
		fmt.Println("world", r.w.Stats.Interleave, r.w.Stats.Steps, r.w.Stats.PoolHit, r.w.Stats.PoolMiss, r.w.Now)
	}
	h = rt.Mix(h, r.w.Stats.Interleave)
	h = rt.Mix(h, uint64(r.w.Stats.Steps))
	h = rt.Mix(h, uint64(r.w.Stats.PoolHit)<<32|uint64(r.w.Stats.PoolMiss))
	h = rt.Mix(h, uint64(r.w.Now))
	if r.fail != nil {
		add(r.fail.Kind + r.fail.Msg)
	}
	if r.viol != nil {
		add(r.viol.Kind + r.viol.Msg)
	}
	for _, x := range r.x {
		for _, id := range x.order {
			h = rt.Mix(h, uint64(id))
			add(x.log[id])
		}
	}
	tl.Digest = h
}

func (t *tally) merge(o *tally) {
	t.Plans += o.Plans
	t.Worlds += o.Worlds
	t.Steps += o.Steps
	t.Switches += o.Switches
	t.SimNS += o.SimNS
	t.PoolHit += o.PoolHit
	t.PoolMiss += o.PoolMiss
	t.PoolForced += o.PoolForced
	t.PoolDrop += o.PoolDrop
	t.ClockReads += o.ClockReads
	t.ClockJumps += o.ClockJumps
	t.Blocks += o.Blocks
	t.Crashes += o.Crashes
	for k, v := range o.Counts {
		t.Counts[k] += v
	}
	for k := range o.Inter {
		if len(t.Inter) < 3_000_000 {
			t.Inter[k] = true
		}
	}
	for k := range o.Shapes {
		if len(t.Shapes) < 3_000_000 {
			t.Shapes[k] = true
		}
	}
}
