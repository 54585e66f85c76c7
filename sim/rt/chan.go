package rt

import (
	"reflect"
	"runtime"
	"unsafe"
)

// Channels of the code under test stay real channels, but no operation on one ever blocks a goroutine:
// each is a case of a (possibly single) select that is polled by the scheduler. What an unbuffered
// channel needs beyond that, a rendezvous, is kept in queues of the world.

type chanQ struct{ recv, send []*chanWait }

// selBox is one select that waits; the first partner to come fires it.
type selBox struct {
	fired int
	v     any
	ok    bool
}

type chanWait struct {
	box *selBox
	idx int
	v   any // to be sent
}

func (w *World) chanq(p unsafe.Pointer) *chanQ {
	q := w.chans[p]
	if q == nil {
		if w.chans == nil {
			w.chans = map[unsafe.Pointer]*chanQ{}
		}
		q = new(chanQ)
		w.chans[p] = q
	}
	return q
}

func popWait(l *[]*chanWait, not *selBox) *chanWait {
	for i := 0; i < len(*l); i++ {
		c := (*l)[i]
		if c.box.fired >= 0 {
			*l = append((*l)[:i], (*l)[i+1:]...)
			i--
			continue
		}
		if c.box == not {
			continue
		}
		*l = append((*l)[:i], (*l)[i+1:]...)
		return c
	}
	return nil
}

type chanCase interface {
	try(self *selBox) bool
	wait(box *selBox, idx int)
	fire(box *selBox)
	real() reflect.SelectCase
	got(v reflect.Value, ok bool)
}

// RecvCase and SendCase are the cases of a select.
type RecvCase[T any] struct {
	c  <-chan T
	p  unsafe.Pointer
	v  T
	ok bool
}

func (r *RecvCase[T]) V() T           { return r.v }
func (r *RecvCase[T]) V2() (T, bool)  { return r.v, r.ok }
func (r *RecvCase[T]) fire(b *selBox) { r.v, _ = b.v.(T); r.ok = b.ok }
func (r *RecvCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}
func (r *RecvCase[T]) got(v reflect.Value, ok bool) {
	if ok {
		r.v, _ = v.Interface().(T)
	}
	r.ok = ok
}
func (r *RecvCase[T]) wait(b *selBox, i int) {
	if r.c != nil && cap(r.c) == 0 {
		q := world.chanq(r.p)
		q.recv = append(q.recv, &chanWait{box: b, idx: i})
	}
}
func (r *RecvCase[T]) try(self *selBox) bool {
	if r.c == nil {
		return false
	}
	if cap(r.c) == 0 {
		if s := popWait(&world.chanq(r.p).send, self); s != nil {
			s.box.fired = s.idx
			r.v, _ = s.v.(T)
			r.ok = true
			return true
		}
	}
	select {
	case r.v, r.ok = <-r.c:
		return true
	default:
	}
	return false
}

type SendCase[T any] struct {
	c chan<- T
	p unsafe.Pointer
	v T
}

func (s *SendCase[T]) fire(*selBox)                 {}
func (s *SendCase[T]) got(v reflect.Value, ok bool) {}
func (s *SendCase[T]) real() reflect.SelectCase {
	v := reflect.New(reflect.TypeOf((*T)(nil)).Elem()).Elem()
	if x := reflect.ValueOf(s.v); x.IsValid() {
		v.Set(x)
	}
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: v}
}
func (s *SendCase[T]) wait(b *selBox, i int) {
	if s.c != nil && cap(s.c) == 0 {
		q := world.chanq(s.p)
		q.send = append(q.send, &chanWait{box: b, idx: i, v: s.v})
	}
}
func (s *SendCase[T]) try(self *selBox) bool {
	if s.c == nil {
		return false
	}
	if cap(s.c) == 0 {
		if r := popWait(&world.chanq(s.p).recv, self); r != nil {
			r.box.fired, r.box.v, r.box.ok = r.idx, s.v, true
			return true
		}
	}
	select {
	case s.c <- s.v: // panics if it is closed
		return true
	default:
	}
	return false
}

func CRecv[C ~chan T | ~<-chan T, T any](c C) *RecvCase[T] {
	return &RecvCase[T]{c: (<-chan T)(c), p: *(*unsafe.Pointer)(unsafe.Pointer(&c))}
}
func CSend[C ~chan T | ~chan<- T, T any](c C, v T) *SendCase[T] {
	return &SendCase[T]{c: (chan<- T)(c), p: *(*unsafe.Pointer)(unsafe.Pointer(&c)), v: v}
}

// Select does one of the cases and says which; -1 is the default case.
func Select(def bool, cases ...chanCase) int {
	if cur == nil {
		var rc []reflect.SelectCase
		for _, c := range cases {
			rc = append(rc, c.real())
		}
		if def {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1
		}
		cases[i].got(v, ok)
		return i
	}
	YS(3)
	if cur.unwinding {
		return -1
	}
	Sync()
	from := 0
	if len(cases) > 1 {
		from = world.prng.N(len(cases)) // which of several ready cases is taken
	}
	for n := range cases {
		if i := (from + n) % len(cases); cases[i].try(nil) {
			Sync()
			return i
		}
	}
	if def {
		return -1
	}
	box := &selBox{fired: -1}
	for i, c := range cases {
		c.wait(box, i)
	}
	mine, broken := -1, any(nil)
	Block("channel", func() bool {
		if mine >= 0 || box.fired >= 0 || broken != nil {
			return true
		}
		for n := range cases {
			i := (from + n) % len(cases)
			func() {
				defer func() {
					if broken = recover(); broken != nil { // sent on a closed channel
						box.fired = i
					}
				}()
				if cases[i].try(box) {
					mine, box.fired = i, i
				}
			}()
			if box.fired >= 0 {
				return true
			}
		}
		return false
	})
	if cur != nil && cur.unwinding {
		return -1
	}
	if broken != nil {
		panic(broken)
	}
	Sync()
	if mine >= 0 {
		return mine
	}
	cases[box.fired].fire(box)
	return box.fired
}

// Unreachable ends a select that has no default case, when the task is being killed.
func Unreachable() string {
	if Unwinding() {
		runtime.Goexit()
	}
	return "rt: select without a case"
}

// Recv, Recv2 and Send replace channel operations outside select.
func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	r := CRecv[C, T](c)
	Select(false, r)
	return r.v
}
func Recv2[C ~chan T | ~<-chan T, T any](c C) (T, bool) {
	r := CRecv[C, T](c)
	Select(false, r)
	return r.v, r.ok
}
func Send[C ~chan T | ~chan<- T, T any](c C, v T) { Select(false, CSend[C, T](c, v)) }

// GoCall replaces go f(args...) ; slice tells that the last argument is the whole variadic one.
func GoCall(f any, slice bool, args ...any) {
	fv := reflect.ValueOf(f)
	t := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if t.IsVariadic() && !slice && i >= t.NumIn()-1 {
			pt = t.In(t.NumIn() - 1).Elem()
		} else {
			pt = t.In(i)
		}
		v := reflect.ValueOf(a)
		if !v.IsValid() {
			v = reflect.Zero(pt)
		} else if !v.Type().AssignableTo(pt) {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	Go(func() {
		if slice {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	})
}
