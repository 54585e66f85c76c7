// Package rt is the runtime of the deterministic simulator.
//
// Every task (caller goroutine of the system under test, or goroutine started by it) is a real
// goroutine, but exactly one of them runs at any moment: a task runs until the scheduler takes the
// baton away at one of the yield points, which the instrumenter put before every statement of the
// code under test, and which the shims have at every synchronisation or I/O call. Who runs next is
// decided here, from the seed (search) or from a recorded list of decisions (replay).
package rt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"unsafe"
)

// ---------------------------------------------------------------- PRNG

type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand {
	r := &Rand{s: seed*0x9E3779B97F4A7C15 + 0x1234567}
	r.U64()
	return r
}

func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }
func (r *Rand) P(p float64) bool     { return float64(r.U64()>>11)/(1<<53) < p }
func (r *Rand) Fork(k uint64) *Rand  { return NewRand(r.U64() ^ k*0xD1B54A32D192ED03) }

func Mix(a, b uint64) uint64 {
	z := a ^ (b+0x9E3779B97F4A7C15+(a<<6)+(a>>2))*0xff51afd7ed558ccd
	z ^= z >> 32
	return z
}

// ---------------------------------------------------------------- configuration

// Decision: at the given local position of task T, the baton goes to task To.
type Decision struct {
	T    int `json:"t"`
	Op   int `json:"op"`
	Step int `json:"st"`
	To   int `json:"to"`
}

const (
	ModeSeq    = "seq"    // run each task to completion, in id order
	ModeWalk   = "walk"   // preempt after geometrically distributed numbers of statements
	ModePCT    = "pct"    // random priorities, a few priority change points
	ModeOps    = "ops"    // switch only between operations
	ModeSync   = "sync"   // switch mostly around synchronisation / pool / I/O points
	ModeReplay = "replay" // follow Decisions exactly
)

type SchedCfg struct {
	Mode      string     `json:"mode"`
	Seed      uint64     `json:"seed"`
	Mean      int        `json:"mean,omitempty"`   // walk: mean statements between preemptions
	Depth     int        `json:"depth,omitempty"`  // pct: change points
	Length    int        `json:"length,omitempty"` // pct: estimated length in statements
	Hot       bool       `json:"hot,omitempty"`    // sync, walk: writes through pointers attract switches
	Decisions []Decision `json:"decisions,omitempty"`
}

type PoolCfg struct {
	Mode string  `json:"mode"` // lifo fifo rand miss
	Drop float64 `json:"drop"` // probability that Put drops the item (GC)
	Miss float64 `json:"miss"` // probability that Get misses though items are there
	Seed uint64  `json:"seed"`
	Cap  int     `json:"cap,omitempty"` // the collector drops what is idle beyond this number of items
}

type ClockCfg struct {
	Start int64   `json:"start"` // unix nanoseconds
	Seed  uint64  `json:"seed"`
	Mode  string  `json:"mode"` // fixed, tick, jumpy, back
	Jumps []int64 `json:"jumps,omitempty"`
}

type Config struct {
	Seed    uint64
	MapSeed uint64 // changes the order of map iteration only
	Sched   SchedCfg
	Pool    PoolCfg
	Clock   ClockCfg
	OpLimit int  // statements one operation may execute before it counts as hung
	MaxLen  int  // largest make() size (elements) allowed; 0 = unlimited
	Race    bool // report accesses that nothing orders
}

// ---------------------------------------------------------------- world

type taskState uint8

const (
	stRunnable taskState = iota
	stBlocked
	stDone
)

type Task struct {
	ID       int
	Name     string
	Internal bool
	Rng      *Rand
	UserData any

	wake      chan struct{}
	state     taskState
	cond      func() bool
	why       string
	op        int
	step      int // statements in the current op
	total     int // statements of the current op already added to Stats.Steps
	nextStop  int
	prio      int
	unwinding bool
	replay    map[[2]int]int // (op,step) -> to
	stops     []int          // sorted replay stops in the current op
	waiting   bool           // harness-level fault bookkeeping
	vc        []uint32       // happens-before
}

func (t *Task) Op() int   { return t.op }
func (t *Task) Step() int { return t.step }

type Stats struct {
	Steps      int
	Switches   int
	Interleave uint64 // hash over the sequence of switches (from, site, to)
	PoolHit    int
	PoolMiss   int
	PoolForced int // misses although items were available
	PoolDrop   int
	ClockReads int
	ClockJumps int
	Blocks     int
	LargeMake  int
	Counts     map[string]int
}

type Failure struct {
	Kind string // hang, deadlock, alloc, fatal
	Msg  string
	Task int
	Op   int
}

type World struct {
	Cfg      Config
	Tasks    []*Task
	live     []*Task // those not done yet
	Stats    Stats
	Trace    []Decision
	Fail     *Failure
	Crashed  bool
	Now      int64
	FS       any // owned by the os shim
	aborting bool
	running  bool
	srng     *Rand
	prng     *Rand
	crng     *Rand
	done     chan struct{}
	changes  []int // pct change points (global steps)
	lowPrio  int
	all      Clock
	atom     map[unsafe.Pointer]*Clock
	shadow   map[unsafe.Pointer]*cell
	chans    map[unsafe.Pointer]*chanQ
}

var (
	cur     *Task
	world   *World
	epoch   uint64   = 1
	Hits    []uint32 // statement coverage by site
	lastLoc uint32
)

func Epoch() uint64  { return epoch }
func Cur() *Task     { return cur }
func W() *World      { return world }
func Active() bool   { return cur != nil }
func NewEpoch()      { epoch++ }
func SetSites(n int) { Hits = make([]uint32, n+1) }

func NewWorld(cfg Config) *World {
	if cfg.OpLimit == 0 {
		cfg.OpLimit = 2_000_000
	}
	w := &World{Cfg: cfg, done: make(chan struct{}), Now: cfg.Clock.Start}
	w.srng = NewRand(cfg.Sched.Seed ^ 0xA5A5)
	w.prng = NewRand(cfg.Pool.Seed ^ 0x5A5A)
	w.crng = NewRand(cfg.Clock.Seed ^ 0x3C3C)
	w.Stats.Counts = map[string]int{}
	return w
}

func (w *World) Count(k string) { w.Stats.Counts[k]++ }

// Count counts a fault or probe that fired in the current world.
func Count(k string) {
	if world != nil {
		world.Stats.Counts[k]++
	}
}

// Add counts n of them.
func Add(k string, n int) {
	if world != nil {
		world.Stats.Counts[k] += n
	}
}

// enter makes a task one of the world's.
func (w *World) enter(t *Task) {
	t.prio = 1000 + w.srng.N(1_000_000)
	if w.Cfg.Race {
		t.vc = make([]uint32, t.ID+1)
		if cur != nil { // started by another task
			join(&t.vc, cur.vc)
			cur.vc[cur.ID]++
		}
		t.vc[t.ID] = 1
	}
	w.Tasks = append(w.Tasks, t)
	w.live = append(w.live, t)
	if w.Cfg.Sched.Mode == ModeReplay {
		t.replay = map[[2]int]int{}
		for _, d := range w.Cfg.Sched.Decisions {
			if d.T == t.ID {
				t.replay[[2]int{d.Op, d.Step}] = d.To
			}
		}
	}
	t.setStops()
}

func (w *World) newTask(name string, f func(), internal bool) *Task {
	t := &Task{ID: len(w.Tasks), Name: name, Internal: internal, wake: make(chan struct{}, 1)}
	t.Rng = NewRand(Mix(w.Cfg.Seed, uint64(t.ID)+77))
	t.op = -1
	w.enter(t)
	go func() {
		<-t.wake
		defer func() {
			w := world
			t.state = stDone
			for i, o := range w.live {
				if o == t {
					w.live = append(w.live[:i:i], w.live[i+1:]...)
					break
				}
			}
			if !t.unwinding {
				if r := recover(); r != nil {
					// a panic of a goroutine started by the code under test would end the process
					if internal {
						w.fail("fatal", fmt.Sprintf("panic in a background goroutine: %v", r), t)
					} else {
						w.fail("harness", fmt.Sprintf("panic in the harness: %v\n%s", r, debug.Stack()), t)
					}
				}
			}
			w.taskDone(t)
		}()
		f()
	}()
	return t
}

// AddTask adds a task before Run.
func (w *World) AddTask(name string, ud any, f func()) *Task {
	t := w.newTask(name, f, false)
	t.UserData = ud
	return t
}

// Run executes all tasks to completion (or failure).
func (w *World) Run() {
	if len(w.Tasks) == 0 {
		return
	}
	w.adopt()
	if booting {
		booting = false
		for _, f := range initGo {
			w.newTask("init", f, true)
		}
	}
	world, lastLoc = w, 0
	w.running = true
	if w.Cfg.Sched.Mode == ModePCT {
		n := w.Cfg.Sched.Length
		if n < 10 {
			n = 10
		}
		for i := 0; i < w.Cfg.Sched.Depth; i++ {
			w.changes = append(w.changes, 1+w.srng.N(n))
		}
		sort.Ints(w.changes)
		w.lowPrio = 500
	}
	first := w.pick(nil)
	w.note(nil, first)
	w.handoff(first)
	<-w.done
	cur = nil
	w.running = false
	world = nil
	if len(w.live) > 0 {
		left = w
	}
}

func (w *World) handoff(t *Task) {
	cur = t
	t.wake <- struct{}{}
}

func (w *World) fail(kind, msg string, t *Task) {
	if w.Fail == nil {
		w.Fail = &Failure{Kind: kind, Msg: msg, Task: t.ID, Op: t.op}
	}
	w.aborting = true
}

// Crash kills every task at once (a process crash); only the simulated disk survives.
func Crash() {
	w := world
	w.Crashed = true
	w.aborting = true
	w.unwindSelf()
}

func (w *World) unwindSelf() {
	t := cur
	t.unwinding = true
	runtime.Goexit()
}

// taskDone: called on the goroutine of t as its last action, still holding the baton.
func (w *World) taskDone(t *Task) {
	t.step++ // its own position in the trace
	w.account(t)
	if w.aborting {
		for _, o := range w.live {
			if o.state != stDone {
				w.handoff(o) // it unwinds itself when it wakes up
				return
			}
		}
		cur = nil
		close(w.done)
		return
	}
	n := w.pick(t)
	if n == nil {
		if !w.alive() {
			w.finish()
			return
		}
		w.deadlock(t)
		w.taskDone(t)
		return
	}
	w.note(t, n)
	w.handoff(n)
}

func (w *World) alive() bool {
	for _, o := range w.live {
		if !o.Internal {
			return true
		}
	}
	return false
}

// finish ends the run when nothing but background goroutines that wait is left.
func (w *World) finish() {
	cur = nil
	close(w.done)
}

// initGo are the goroutines that the initialisation of the code under test starts: each process has
// them from its first world on.
var (
	initGo  []func()
	booting bool
)

// left is the last world if background goroutines that wait survived its run. The next world of the
// same process takes them over.
var left *World

func (w *World) adopt() {
	from := left
	if from == nil {
		return
	}
	left = nil
	w.chans = from.chans
	for _, t := range from.live {
		t.ID = len(w.Tasks)
		t.Rng = NewRand(Mix(w.Cfg.Seed, uint64(t.ID)+77))
		t.op, t.step, t.total = -1, 0, 0
		w.enter(t)
	}
}

// endProcess kills them.
func endProcess() {
	if left == nil {
		return
	}
	w := NewWorld(Config{})
	w.adopt()
	w.aborting = true
	world = w
	w.handoff(w.live[0])
	<-w.done
	cur, world = nil, nil
}

// Outside runs f as the only task of a world of its own, if it is not called by a task: for calls of
// the harness into the code under test before or after a run.
func Outside(f func()) *Failure {
	if cur != nil {
		f()
		return nil
	}
	w := NewWorld(Config{OpLimit: 1 << 30, Sched: SchedCfg{Mode: ModeSeq}, Clock: ClockCfg{Start: 1_600_000_000_123_456_789, Mode: "fixed"}})
	w.AddTask("outside", nil, f)
	w.Run()
	return w.Fail
}

func (w *World) deadlock(t *Task) {
	l := w.blockedList()
	w.fail("deadlock", "every remaining task is blocked: "+l, t)
}

func (w *World) blockedList() string {
	s := ""
	for _, o := range w.live {
		if o.state == stBlocked {
			s += fmt.Sprintf("[task %d waits for %s]", o.ID, o.why)
		}
	}
	return s
}

func (w *World) runnable() []*Task {
	var r []*Task
	for _, o := range w.live {
		// what a blocked task waits for may be gone again by the time it is picked, so it stays blocked until then
		if o.state == stRunnable || o.state == stBlocked && o.cond() {
			r = append(r, o)
		}
	}
	return r
}

// pick chooses who runs next; from is the task giving up the baton (nil at the start).
// A nil result means that nobody can run.
func (w *World) pick(from *Task) *Task {
	r := w.runnable()
	if len(r) == 0 {
		return nil
	}
	switch w.Cfg.Sched.Mode {
	case ModeSeq:
		return r[0]
	case ModeReplay:
		op, st, id := -2, 0, -1
		if from != nil {
			op, st, id = from.op, from.step, from.ID
		}
		if from != nil {
			if to, ok := from.replay[[2]int{op, st}]; ok {
				for _, t := range r {
					if t.ID == to {
						return t
					}
				}
			}
		} else {
			for _, d := range w.Cfg.Sched.Decisions {
				if d.T == id && d.Op == op && d.Step == st {
					for _, t := range r {
						if t.ID == d.To {
							return t
						}
					}
				}
			}
		}
		if from != nil && from.state == stRunnable {
			return from
		}
		return r[0]
	case ModePCT:
		best := r[0]
		for _, t := range r[1:] {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	}
	return r[w.srng.N(len(r))]
}

func (w *World) note(from, to *Task) {
	d := Decision{T: -1, Op: -2, To: to.ID}
	if from != nil {
		d.T, d.Op, d.Step = from.ID, from.op, from.step
	}
	if from == to {
		return
	}
	w.Stats.Switches++
	w.Stats.Interleave = Mix(Mix(w.Stats.Interleave, uint64(lastLoc)), uint64(to.ID)<<8|uint64(d.T&0xff))
	w.Trace = append(w.Trace, d)
}

// setStops computes the next statement count at which Y must look up.
func (t *Task) setStops() {
	w := world
	if w == nil {
		t.nextStop = 1
		return
	}
	lim := w.Cfg.OpLimit
	n := lim
	switch w.Cfg.Sched.Mode {
	case ModeWalk:
		n = t.step + 1 + w.geo(w.Cfg.Sched.Mean)
	case ModeSync:
		n = t.step + 1 + w.geo(20000)
	case ModePCT:
		if len(w.changes) > 0 {
			d := w.changes[0] - w.Stats.Steps
			if d < 1 {
				d = 1
			}
			n = t.step + d
		}
	case ModeReplay:
		n = lim
		for k := range t.replay {
			if k[0] == t.op && k[1] > t.step && k[1] < n {
				n = k[1]
			}
		}
	}
	if n > lim {
		n = lim
	}
	if n <= t.step {
		n = t.step + 1
	}
	t.nextStop = n
}

func (w *World) geo(mean int) int {
	if mean <= 1 {
		return w.srng.N(2)
	}
	// cheap heavy-tailed interval around the mean
	switch w.srng.N(4) {
	case 0:
		return w.srng.N(mean/4 + 1)
	case 1, 2:
		return w.srng.N(2*mean + 1)
	}
	return w.srng.N(mean + 1)
}

// Y is the yield point before every statement of the code under test.
func Y(site uint32) {
	t := cur
	if t == nil {
		return
	}
	Hits[site]++
	t.step++
	if t.step < t.nextStop {
		return
	}
	lastLoc = site
	yslow(t)
}

// YG is the yield point before a statement that uses a package variable which somebody changes.
func YG(site uint32) { hot(site, 2, 5) }

// YW is the yield point before a statement that writes through a pointer, field or element; in
// schedules with Hot set it is treated like YG.
func YW(site uint32) {
	if world != nil && world.Cfg.Sched.Hot {
		hot(site, 3, 8)
		return
	}
	Y(site)
}

func hot(site uint32, sync, walk int) {
	t := cur
	if t == nil {
		return
	}
	Hits[site]++
	t.step++
	if t.step >= t.nextStop {
		lastLoc = site
		yslow(t)
		return
	}
	w := world
	if w.aborting || t.unwinding {
		return
	}
	n := 0
	switch w.Cfg.Sched.Mode {
	case ModeSync:
		n = sync
	case ModeWalk:
		n = walk
	default:
		return
	}
	switch w.srng.N(n) {
	case 0: // now
		lastLoc = site
		w.account(t)
		w.yield(t)
	case 1: // soon after
		if s := t.step + 1 + w.srng.N(3); s < t.nextStop {
			t.nextStop = s
		}
	}
}

// YS is the yield point of the shims (synchronisation, pool, clock and I/O calls).
func YS(kind uint32) {
	t := cur
	if t == nil {
		return
	}
	t.step++
	w := world
	lastLoc = 1<<24 | kind
	if w.aborting {
		yslow(t)
		return
	}
	switch w.Cfg.Sched.Mode {
	case ModeSync:
		if w.srng.N(2) == 0 {
			w.account(t)
			w.yield(t)
			return
		}
	case ModeWalk:
		if w.srng.N(6) == 0 {
			w.account(t)
			w.yield(t)
			return
		}
	}
	if t.step >= t.nextStop {
		yslow(t)
	}
}

// account moves the statements since the last look-up into the global count.
func (w *World) account(t *Task) {
	if d := t.step - (t.total); d > 0 {
		w.Stats.Steps += d
		t.total = t.step
	}
}

func yslow(t *Task) {
	w := world
	if t.unwinding {
		t.nextStop = 1 << 30
		return
	}
	if w.aborting {
		w.unwindSelf()
	}
	w.account(t)
	if t.step >= w.Cfg.OpLimit {
		w.fail("hang", fmt.Sprintf("operation did not finish within %d statements", w.Cfg.OpLimit), t)
		w.unwindSelf()
	}
	if w.Cfg.Sched.Mode == ModePCT {
		for len(w.changes) > 0 && w.Stats.Steps >= w.changes[0] {
			w.changes = w.changes[1:]
			w.lowPrio--
			t.prio = w.lowPrio
		}
	}
	if w.Cfg.Sched.Mode == ModeSeq || w.Cfg.Sched.Mode == ModeOps {
		t.setStops()
		return
	}
	w.yield(t)
}

func (w *World) yield(t *Task) {
	n := w.pick(t)
	if n == nil || n == t {
		t.setStops()
		return
	}
	w.note(t, n)
	w.handoff(n)
	<-t.wake
	if w.aborting {
		w.unwindSelf()
	}
	t.setStops()
}

// OpBegin marks an operation boundary of the current task: always a possible switch point.
func OpBegin(op int) {
	t := cur
	if t == nil {
		return
	}
	w := world
	w.account(t)
	t.op, t.step, t.total = op, 0, 0
	lastLoc = 1<<25 | uint32(op)
	if w.aborting {
		w.unwindSelf()
	}
	switch w.Cfg.Sched.Mode {
	case ModeSeq:
		t.setStops()
	case ModePCT, ModeReplay, ModeOps:
		w.yield(t)
	default:
		if w.srng.N(3) == 0 {
			w.yield(t)
		} else {
			t.setStops()
		}
	}
}

// Block suspends the current task until cond holds.
func Block(why string, cond func() bool) {
	t := cur
	if t == nil {
		if !cond() {
			panic("rt: blocking call outside the simulation: " + why)
		}
		return
	}
	w := world
	if t.unwinding {
		return
	}
	if cond() {
		return
	}
	w.Stats.Blocks++
	t.step++
	t.state, t.cond, t.why = stBlocked, cond, why
	lastLoc = 1 << 26
	w.account(t)
	n := w.pick(t)
	switch {
	case n == nil && t.Internal && !w.alive():
		// only background goroutines are left, and none can go on: the run is over
		w.finish()
		<-t.wake
	case n == nil:
		w.deadlock(t)
		t.state = stRunnable
		w.unwindSelf()
	case n != t:
		w.note(t, n)
		w.handoff(n)
		<-t.wake
	}
	w = world // not the one of before, if the task was adopted
	t.state = stRunnable
	if w.aborting {
		w.unwindSelf()
	}
	t.setStops()
}

// Unwinding tells shims that the current task is being killed: they must not block.
func Unwinding() bool { return cur != nil && cur.unwinding }

// Go replaces the go statement in the code under test.
func Go(f func()) {
	t := cur
	if t == nil {
		if saved {
			panic("rt: goroutine started outside the simulation")
		}
		initGo = append(initGo, f)
		return
	}
	w := world
	if len(w.live) > 1000 {
		w.fail("fatal", "more than 1000 goroutines alive", t)
		w.unwindSelf()
	}
	w.newTask("go", f, true).UserData = t.UserData
	YS(1)
}

// Alloc is put around the size arguments of make.
func Alloc[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	if cur != nil && world.Cfg.MaxLen > 0 && uint64(n) > uint64(world.Cfg.MaxLen) && int64(n) > 0 {
		world.Stats.LargeMake++
		world.fail("alloc", fmt.Sprintf("make called for %d elements", uint64(n)), cur)
		world.unwindSelf()
	}
	return n
}

// ---------------------------------------------------------------- pool decisions (sync shim)

// PoolGet decides which of n stored items a Get returns (-1: miss).
func PoolGet(n int) int {
	w := world
	if w == nil {
		return n - 1
	}
	if n == 0 {
		w.Stats.PoolMiss++
		return -1
	}
	c := &w.Cfg.Pool
	if c.Mode == "miss" || (c.Miss > 0 && w.prng.P(c.Miss)) {
		w.Stats.PoolForced++
		return -1
	}
	w.Stats.PoolHit++
	switch c.Mode {
	case "fifo":
		return 0
	case "rand":
		return w.prng.N(n)
	}
	return n - 1
}

// PoolPut decides whether a Put keeps the item.
func PoolPut() bool {
	w := world
	if w == nil {
		return true
	}
	c := &w.Cfg.Pool
	if c.Drop > 0 && w.prng.P(c.Drop) {
		w.Stats.PoolDrop++
		return false
	}
	return true
}

// PoolTrim says how many idle items are dropped now.
func PoolTrim(n int) int {
	if w := world; w != nil && w.Cfg.Pool.Cap > 0 && n > w.Cfg.Pool.Cap {
		w.Stats.PoolDrop += n - w.Cfg.Pool.Cap
		return n - w.Cfg.Pool.Cap
	}
	return 0
}

// ---------------------------------------------------------------- clock (time shim)

// bootClock is the time at which package variables are initialised.
var bootClock = func() (n int64) {
	n = 1_600_000_000_123_456_789
	fmt.Sscan(os.Getenv("DST_BOOT"), &n)
	return
}()

// ClockNow reads the simulated wall clock, in unix nanoseconds.
func ClockNow() int64 {
	w := world
	if w == nil {
		return bootClock
	}
	w.Stats.ClockReads++
	switch w.Cfg.Clock.Mode {
	case "fixed":
	case "tick":
		w.Now += int64(w.crng.N(2_000_000_000))
	case "jumpy":
		if w.crng.N(2) == 0 {
			w.Stats.ClockJumps++
			w.Now += int64(w.crng.N(4_000_000_000_000)) - 1_000_000_000_000
		}
		w.Now += int64(w.crng.N(1_000_000_000))
	case "back":
		w.Stats.ClockJumps++
		w.Now -= int64(w.crng.N(90_000)) * 1_000_000_000
		w.Now += int64(w.crng.N(1_000_000_000))
	}
	return w.Now
}

// Sleep advances the simulated clock; other tasks may run meanwhile.
func Sleep(ns int64) {
	if world == nil || cur == nil {
		return
	}
	world.Now += ns
	YS(2)
}
