package rt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Happens-before tracking. Statements are atomic in the simulation, so two unordered accesses to a
// map (on which Go aborts the process) or to a value of several words (which another goroutine can
// see half written) would look harmless; they are reported here instead. Ordering comes from the
// shims: locks, once, wait groups, pools (per item), sync.Map (per key), atomics (per address), the
// start of goroutines and, as one object, all channels.

// Clock is the vector clock that a synchronisation object carries.
type Clock struct {
	v  []uint32
	ep uint64
}

func join(a *[]uint32, b []uint32) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

// Acquire orders everything released to c before what the current task does next.
func Acquire(c *Clock) {
	if t := cur; t != nil && world.Cfg.Race && c.ep == epoch {
		join(&t.vc, c.v)
	}
}

// Release makes what the current task did so far visible to those who acquire c later.
func Release(c *Clock) {
	t := cur
	if t == nil || !world.Cfg.Race {
		return
	}
	if c.ep != epoch {
		c.v, c.ep = nil, epoch
	}
	join(&c.v, t.vc)
	t.vc[t.ID]++
}

// Sync does both on a clock that belongs to the whole world (channels, select).
func Sync() {
	if cur != nil && world.Cfg.Race {
		Acquire(&world.all)
		Release(&world.all)
	}
}

// SyncAt is an atomic operation on an address.
func SyncAt(p unsafe.Pointer) {
	if cur == nil || !world.Cfg.Race {
		return
	}
	c := world.atom[p]
	if c == nil {
		if world.atom == nil {
			world.atom = map[unsafe.Pointer]*Clock{}
		}
		c = new(Clock)
		world.atom[p] = c
	}
	Acquire(c)
	Release(c)
}

type access struct {
	task, op int
	at       uint32 // the task's own clock
	site     uint32
}

type cell struct {
	w     access
	wrote bool
	r     []access // the last read of each task
}

func (t *Task) sees(a access) bool {
	return a.task == t.ID || a.task < len(t.vc) && t.vc[a.task] >= a.at
}

// SiteName is set by the harness.
var SiteName = func(site uint32) string { return fmt.Sprint("site ", site) }

func touch(p unsafe.Pointer, write bool, what string, site uint32) {
	t, w := cur, world
	if t.unwinding || w.aborting {
		return
	}
	if w.shadow == nil {
		w.shadow = map[unsafe.Pointer]*cell{}
	}
	c := w.shadow[p]
	if c == nil {
		c = new(cell)
		w.shadow[p] = c
	}
	me := access{t.ID, t.op, t.vc[t.ID], site}
	if c.wrote && !t.sees(c.w) {
		w.race(c.w, true, me, write, what)
	}
	if !write {
		for i := range c.r {
			if c.r[i].task == t.ID {
				c.r[i] = me
				return
			}
		}
		c.r = append(c.r, me)
		return
	}
	for _, a := range c.r {
		if !t.sees(a) {
			w.race(a, false, me, true, what)
		}
	}
	c.w, c.wrote, c.r = me, true, c.r[:0]
}

func (w *World) race(a access, aw bool, b access, bw bool, what string) {
	k := map[bool]string{true: "writes", false: "reads"}
	w.fail("race", fmt.Sprintf("task %d (operation %d) %s %s at %s while task %d (operation %d) %s it at %s: nothing orders the two",
		b.task, b.op, k[bw], what, SiteName(b.site), a.task, a.op, k[aw], SiteName(a.site)), cur)
	w.unwindSelf()
}

// A is an access to the variable at p; AF to the field at an offset of *p; write is 0 or 1.
func A(p unsafe.Pointer, write int, what string, site uint32) {
	if cur != nil && world.Cfg.Race {
		touch(p, write != 0, what, site)
	}
}
func AF(p unsafe.Pointer, off uintptr, write int, what string, site uint32) {
	if cur != nil && world.Cfg.Race && p != nil {
		touch(unsafe.Add(p, off), write != 0, what, site)
	}
}

// AM is an access to the content of a map; AMF to that of the map in a field.
func AM(m any, write int, what string, site uint32) {
	if cur != nil && world.Cfg.Race {
		if p := reflect.ValueOf(m).UnsafePointer(); p != nil {
			touch(p, write != 0, what, site)
		}
	}
}
func AMF(p unsafe.Pointer, off uintptr, write int, what string, site uint32) {
	if cur != nil && world.Cfg.Race && p != nil {
		if m := *(*unsafe.Pointer)(unsafe.Add(p, off)); m != nil {
			touch(m, write != 0, what, site)
		}
	}
}
