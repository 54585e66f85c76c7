// Package sync replaces the standard library's sync in the code under test. Blocking is decided by
// the simulator's scheduler, Pool by its seeded pool faults; every call is a possible switch point.
package sync

import (
	"fmt"
	"sort"
	"verifsim/rt"
)

type Locker interface {
	Lock()
	Unlock()
}

type ep struct{ e uint64 }

func (p *ep) stale() bool {
	if p.e != rt.Epoch() {
		p.e = rt.Epoch()
		return true
	}
	return false
}

// ---------------------------------------------------------------- Mutex

type Mutex struct {
	ep     ep
	locked bool
	c      rt.Clock
}

func (m *Mutex) fresh() {
	if m.ep.stale() {
		m.locked = false
	}
}
func (m *Mutex) Lock() {
	m.fresh()
	rt.YS(10)
	rt.Block("mutex", func() bool { return !m.locked })
	m.locked = true
	rt.Acquire(&m.c)
}
func (m *Mutex) TryLock() bool {
	m.fresh()
	rt.YS(11)
	if m.locked {
		return false
	}
	m.locked = true
	rt.Acquire(&m.c)
	return true
}
func (m *Mutex) Unlock() {
	m.fresh()
	if !m.locked {
		if rt.Unwinding() {
			return
		}
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	rt.Release(&m.c)
	rt.YS(12)
}

// ---------------------------------------------------------------- RWMutex

type RWMutex struct {
	ep      ep
	w       bool
	waiting int
	r       int
	cw, cr  rt.Clock
}

func (m *RWMutex) fresh() {
	if m.ep.stale() {
		m.w, m.r, m.waiting = false, 0, 0
	}
}
func (m *RWMutex) Lock() {
	m.fresh()
	rt.YS(13)
	m.waiting++
	rt.Block("write lock", func() bool { return !m.w && m.r == 0 })
	m.waiting--
	m.w = true
	rt.Acquire(&m.cw)
	rt.Acquire(&m.cr)
}
func (m *RWMutex) TryLock() bool {
	m.fresh()
	rt.YS(13)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	rt.Acquire(&m.cw)
	rt.Acquire(&m.cr)
	return true
}
func (m *RWMutex) Unlock() {
	m.fresh()
	if !m.w {
		if rt.Unwinding() {
			return
		}
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	rt.Release(&m.cw)
	rt.YS(14)
}

// RLock waits behind a waiting writer, as the real one does: a recursive read lock can deadlock.
func (m *RWMutex) RLock() {
	m.fresh()
	rt.YS(15)
	rt.Block("read lock", func() bool { return !m.w && m.waiting == 0 })
	m.r++
	rt.Acquire(&m.cw)
}
func (m *RWMutex) TryRLock() bool {
	m.fresh()
	rt.YS(15)
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	rt.Acquire(&m.cw)
	return true
}
func (m *RWMutex) RUnlock() {
	m.fresh()
	if m.r <= 0 {
		if rt.Unwinding() {
			return
		}
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	rt.Release(&m.cr)
	rt.YS(16)
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// ---------------------------------------------------------------- WaitGroup, Cond, Once

type WaitGroup struct {
	ep ep
	n  int
	at uint64 // how often the counter reached zero
	c  rt.Clock
}

func (g *WaitGroup) fresh() {
	if g.ep.stale() {
		g.n = 0
	}
}
func (g *WaitGroup) Add(d int) {
	g.fresh()
	g.n += d
	rt.Release(&g.c)
	if d != 0 && g.n == 0 {
		g.at++
	}
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	rt.YS(17)
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	g.fresh()
	rt.YS(18)
	at := g.at
	rt.Block("wait group", func() bool { return g.n == 0 || g.at != at })
	rt.Acquire(&g.c)
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go(func() { defer g.Done(); f() })
}

type Cond struct {
	L    Locker
	ep   ep
	gen  uint64
	wait []*bool
	c    rt.Clock
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) fresh() {
	if c.ep.stale() {
		c.wait = nil
	}
}
func (c *Cond) Wait() {
	c.fresh()
	ok := new(bool)
	c.wait = append(c.wait, ok)
	c.L.Unlock()
	rt.Block("condition", func() bool { return *ok })
	rt.Acquire(&c.c)
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.fresh()
	rt.Release(&c.c)
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
	rt.YS(19)
}
func (c *Cond) Broadcast() {
	c.fresh()
	rt.Release(&c.c)
	for _, w := range c.wait {
		*w = true
	}
	c.wait = nil
	rt.YS(19)
}

type Once struct {
	ep      ep
	done    bool
	running bool
	c       rt.Clock
}

func (o *Once) Do(f func()) {
	if o.ep.stale() {
		o.done, o.running = false, false
	}
	rt.YS(20)
	if o.done {
		rt.Acquire(&o.c)
		return
	}
	if o.running {
		rt.Block("once", func() bool { return o.done })
		rt.Acquire(&o.c)
		return
	}
	o.running = true
	defer func() { rt.Release(&o.c); o.done, o.running = true, false }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// ---------------------------------------------------------------- Pool

type Pool struct {
	New   func() any
	ep    ep
	items []any
	c     []*rt.Clock // of the items
}

func (p *Pool) fresh() {
	if p.ep.stale() {
		p.items, p.c = nil, nil
	}
}

// SimLive lists what the pool keeps alive.
func (p *Pool) SimLive() []any {
	if p.ep.e != rt.Epoch() {
		return nil
	}
	return p.items
}
func (p *Pool) Get() any {
	p.fresh()
	rt.YS(21)
	i := rt.PoolGet(len(p.items))
	if i >= 0 && i < len(p.items) {
		x := p.items[i]
		rt.Acquire(p.c[i])
		p.c = append(p.c[:i:i], p.c[i+1:]...)
		p.items = append(p.items[:i:i], p.items[i+1:]...)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	p.fresh()
	if x == nil {
		return
	}
	if rt.PoolPut() {
		p.items = append(p.items, x)
		c := new(rt.Clock)
		rt.Release(c)
		p.c = append(p.c, c)
		if k := rt.PoolTrim(len(p.items)); k > 0 {
			p.items = append([]any(nil), p.items[k:]...)
			p.c = append([]*rt.Clock(nil), p.c[k:]...)
		}
	}
	rt.YS(22)
}

// ---------------------------------------------------------------- Map

type Map struct {
	ep   ep
	m    map[any]any
	keys []any
	c    map[any]*rt.Clock
}

// clock is the clock of a key.
func (m *Map) clock(k any) *rt.Clock {
	c := m.c[k]
	if c == nil {
		if m.c == nil {
			m.c = map[any]*rt.Clock{}
		}
		c = new(rt.Clock)
		m.c[k] = c
	}
	return c
}
func (m *Map) both(k any) {
	c := m.clock(k)
	rt.Acquire(c)
	rt.Release(c)
}

func (m *Map) fresh() {
	if m.ep.stale() {
		m.m, m.keys, m.c = nil, nil, nil
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
}

// SimLive lists what the map keeps alive.
func (m *Map) SimLive() []any {
	if m.ep.e != rt.Epoch() {
		return nil
	}
	var l []any
	for _, k := range m.keys {
		l = append(l, k, m.m[k])
	}
	return l
}
func (m *Map) Load(k any) (any, bool) {
	m.fresh()
	rt.YS(23)
	rt.Acquire(m.clock(k))
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i := range m.keys {
			if m.keys[i] == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}
func (m *Map) Store(k, v any) {
	m.fresh()
	rt.YS(24)
	m.both(k)
	m.set(k, v)
	rt.YS(24)
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.fresh()
	rt.YS(25)
	m.both(k)
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.fresh()
	rt.YS(26)
	m.both(k)
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.fresh()
	rt.YS(27)
	m.both(k)
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.fresh()
	rt.YS(27)
	m.both(k)
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = new
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.fresh()
	rt.YS(27)
	m.both(k)
	if o, ok := m.m[k]; ok && o == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.fresh()
	rt.YS(28)
	ks := append([]any(nil), m.keys...)
	if t := rt.Cur(); t != nil {
		for i := len(ks) - 1; i > 0; i-- {
			j := t.Rng.N(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	} else {
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	}
	for _, k := range ks {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		rt.Acquire(m.clock(k))
		if !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() {
	m.fresh()
	rt.YS(29)
	for _, k := range m.keys {
		m.both(k)
	}
	m.m, m.keys = map[any]any{}, nil
}
