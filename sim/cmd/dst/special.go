package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"reflect"

	dx "github.com/suiyunonghen/dxsvalue"

	ht1p "verifsim/ht1/ht"
	ht2p "verifsim/ht2/ht"
	"verifsim/rt"
	simos "verifsim/shim/os"
)

// ---------------------------------------------------------------- files (C06, C07, C08)

func (x *exec) firedHere(o *Op) []simos.Fault {
	var r []simos.Fault
	for _, f := range x.e.fs.Fired {
		if f.Task == x.id && f.Op == o.ID {
			r = append(r, f)
		}
	}
	return r
}

func hard(fs []simos.Fault, calls ...string) bool {
	for _, f := range fs {
		if f.Kind == "short" || f.Kind == "grow" || f.Kind == "growws" || f.Kind == "statlie" {
			continue
		}
		for _, c := range calls {
			if f.Call == c {
				return true
			}
		}
	}
	return false
}

func stripBOM(b []byte) []byte {
	if len(b) > 2 && b[0] == 0xEF && b[1] == 0xBB && b[2] == 0xBF {
		return b[3:]
	}
	return b
}

func (x *exec) fileOp(o *Op) string {
	fs := x.e.fs
	switch o.K {
	case "readfile", "loadfile", "binfile":
		_, exists := fs.Get(o.N)
		var err error
		var v *dx.DxValue
		var got []byte
		p := try(func() {
			switch o.K {
			case "readfile":
				got, err = dx.ReadFile(o.N)
			case "loadfile":
				f, c, _ := fmtOf(o.X)
				switch f {
				case fJSON:
					v, err = dx.NewValueFromJsonFile(o.N, c)
				case fMsgPack:
					v, err = dx.NewValueFromMsgPackFile(o.N, c)
				default:
					v, err = dx.NewValueFromYamlFile(o.N, c)
				}
				x.set(o.A, v)
			case "binfile":
				v = dx.NewValue(dx.VT_Binary)
				if o.X&1 == 1 {
					v = dx.NewValue(dx.VT_ExBinary)
					v.SetExtType(byte(o.I))
				}
				err = v.SetBinaryFromFile(o.N)
				got = v.Binary()
				x.set(o.A, v)
			}
		})
		now, _ := fs.Get(o.N)
		fired := x.firedHere(o)
		res := errText(err) + p
		if x.e.opt.skipFileOracle() {
			return res
		}
		ioFailed := !exists || hard(fired, "open", "read")
		statFailed := hard(fired, "stat")
		switch {
		case p != "":
			x.e.report("load-panic", x.id, o.ID, "%s of %s: %s", o.K, o.N, p)
		case ioFailed && err == nil:
			x.e.report("load-error-lost", x.id, o.ID, "%s of %s reported success although the file system failed (%v)", o.K, o.N, fired)
		case ioFailed && (v != nil && o.K == "loadfile"):
			x.e.report("load-partial", x.id, o.ID, "%s returned a value together with an error", o.K)
		case ioFailed && o.K == "binfile" && len(got) > 0:
			x.e.report("load-partial", x.id, o.ID, "%s stored %d bytes although reading failed", o.K, len(got))
		case !ioFailed:
			if o.K == "loadfile" {
				f, c, _ := fmtOf(o.X)
				doc := now
				if f != fMsgPack {
					doc = stripBOM(doc)
				}
				rv, rerr := decodeNew(f, append([]byte(nil), doc...), c, false)
				want, have := errText(rerr), errText(err)
				if rerr == nil {
					want += snap(rv, snapLight)
				}
				if err == nil {
					have += snap(v, snapLight)
				}
				if want != have && !(statFailed && err != nil) {
					x.e.report("load-differs", x.id, o.ID, "%s of a file of %d bytes (%v) differs from decoding its bytes: %s", o.K, len(now), fired, diffAt(have, want))
				}
			} else {
				if err != nil && !statFailed {
					x.e.report("load-false-error", x.id, o.ID, "%s reported %s although no read failed (%v)", o.K, errText(err), fired)
				}
				if err == nil && !bytes.Equal(got, now) {
					x.e.report("load-differs", x.id, o.ID, "%s of a file of %d bytes gave %d bytes (%v): %s", o.K, len(now), len(got), fired, diffAt(string(got), string(now)))
				}
			}
		}
		if v != nil && err == nil {
			res += snap(v, snapLight)
		}
		return res + hex.EncodeToString(got)
	case "savefile", "savebin":
		v := walk(x.slot(o.A), o.P)
		if v == nil {
			return "-"
		}
		var want []byte
		bom, format := o.X&1 == 1, o.X&2 == 2
		if o.K == "savebin" {
			if t := v.Type(); t != dx.VT_Binary && t != dx.VT_ExBinary {
				return "-"
			}
			want = append(want, v.Binary()...)
		} else {
			if bom {
				want = append(want, 0xEF, 0xBB, 0xBF)
			}
			if format {
				want = append(want, dx.Value2FormatJson(v, dx.JSE_OnlyAnsiChar, false, nil)...)
			} else {
				want = append(want, dx.Value2Json(v, dx.JSE_OnlyAnsiChar, false, nil)...)
			}
		}
		var err error
		p := try(func() {
			if o.K == "savebin" {
				err = v.SaveBinaryToFile(o.N)
			} else {
				err = dx.Value2File(v, o.N, bom, format)
			}
		})
		fired := x.firedHere(o)
		got, ok := fs.Get(o.N)
		failed := hard(fired, "open", "write", "close", "sync", "rename", "remove")
		if x.e.opt.skipFileOracle() {
			return errText(err) + p
		}
		switch {
		case p != "":
			x.e.report("save-panic", x.id, o.ID, "%s: %s", o.K, p)
		case failed && err == nil:
			x.e.report("save-error-lost", x.id, o.ID, "%s reported success although %v failed (file has %d of %d bytes)", o.K, fired, len(got), len(want))
		case !failed && err != nil:
			x.e.report("save-false-error", x.id, o.ID, "%s reported %s although nothing failed", o.K, errText(err))
		case err == nil && (!ok || !bytes.Equal(got, want)):
			x.e.report("save-incomplete", x.id, o.ID, "%s reported success but the file differs from the encoding (%d versus %d bytes): %s", o.K, len(got), len(want), diffAt(string(got), string(want)))
		}
		return errText(err)
	}
	return ""
}

func (o runOpt) skipFileOracle() bool { return o.tailProbe }

// ---------------------------------------------------------------- handler registration (C12)

type ht0 int64
type ht1 int32
type ht2 int

type hrec struct {
	A0 ht0
	B0 ht1
	C0 ht2
	A1 ht0
	P  int
	B1 ht1
	C1 ht2
	In struct {
		A2 ht0
		C2 ht2
	}
	A3 ht0
	A4 []ht0
	B4 []ht1
	Rs []struct{ C5 ht2 }
	D0 ht1p.T
	E0 ht2p.T
	D1 ht1p.T
	PA *ht0
	S  hs
	PS *hs
	L  []hx
	Ss []hs
	LP []*ht0
}

type hs struct{ V int64 }
type hx int64

// htypes: types that contain, point to or are named like one another are different types to the registry.
var htypes = []reflect.Type{reflect.TypeOf(ht0(0)), reflect.TypeOf(ht1(0)), reflect.TypeOf(ht2(0)), reflect.TypeOf(ht1p.T(0)), reflect.TypeOf(ht2p.T(0)),
	reflect.TypeOf((*ht0)(nil)), reflect.TypeOf(hs{}), reflect.TypeOf((*hs)(nil)), reflect.TypeOf([]hx{})}

// mark leaves n in a field of any of these types.
func mark(f reflect.Value, n int64) {
	switch f.Kind() {
	case reflect.Pointer:
		f.Set(reflect.New(f.Type().Elem()))
		mark(f.Elem(), n)
	case reflect.Struct:
		mark(f.Field(0), n)
	case reflect.Slice:
		f.Set(reflect.MakeSlice(f.Type(), 1, 1))
		mark(f.Index(0), n)
	default:
		f.SetInt(n)
	}
}

// marked is what mark left, what was converted, or 0.
func marked(f reflect.Value) int64 {
	switch f.Kind() {
	case reflect.Pointer:
		if f.IsNil() {
			return 0
		}
		return marked(f.Elem())
	case reflect.Struct:
		return marked(f.Field(0))
	case reflect.Slice:
		if f.Len() != 1 {
			return int64(-f.Len())
		}
		return marked(f.Index(0))
	}
	return f.Int()
}

const marker = 1_000_000

type conv struct {
	start int64
	seen  []event
}

type regIn struct {
	Type  int
	Write bool
	Val   int64
}

var hdoc = []byte(`{"A0":1,"B0":2,"C0":3,"A1":4,"P":5,"B1":6,"C1":7,"In":{"A2":8,"C2":9},"A3":10,"A4":[11,12],"B4":[13],"Rs":[{"C5":14}],"D0":15,"E0":16,"D1":17,"PA":18,"S":{"V":19},"PS":{"V":20},"L":[21],"Ss":[{"V":22}],"LP":[23]}`)

func (x *exec) histOp(o *Op) string {
	e := x.e
	if o.K == "reghist" {
		ty := o.X % len(htypes)
		id := o.I
		call := e.now()
		if id == 0 {
			dx.RegisterTypeMapFunc(htypes[ty], nil)
		} else {
			dx.RegisterTypeMapFunc(htypes[ty], func(f reflect.Value, v *dx.DxValue) {
				t := rt.Cur()
				cx := t.UserData.(*exec)
				c := cx.conv()
				if c == nil {
					cx.e.report("handler-called-elsewhere", cx.id, -1, "handler %d called outside a conversion", id)
					return
				}
				if f.Type() != htypes[ty] {
					cx.e.report("wrong-type-handler", cx.id, t.Op(), "handler %d registered for %v was called for a field of %v", id, htypes[ty], f.Type())
				}
				n := cx.e.now()
				c.seen = append(c.seen, event{task: cx.id, op: t.Op(), call: c.start, ret: n, in: regIn{ty, false, 0}, out: id})
				mark(f, marker+id)
			})
		}
		e.events = append(e.events, event{task: x.id, op: o.ID, call: call, ret: e.now(), in: regIn{ty, true, id}})
		return ""
	}
	v, err := dx.NewValueFromJson(hdoc, o.X&1 == 1, false)
	if err != nil {
		panic(harnessError("conversion document: " + err.Error()))
	}
	var h hrec
	start := e.now()
	c := &conv{start: start}
	x.cv = c
	ok := v.ToStdValue(&h, false)
	x.cv = nil
	end := e.now()
	if o.X&1 == 1 {
		dx.FreeValue(v)
	}
	if !ok {
		e.report("conversion-failed", x.id, o.ID, "conversion reported failure")
	}
	e.events = append(e.events, c.seen...)
	if h.P != 5 {
		e.report("field-wrong", x.id, o.ID, "a field without handler got %d instead of 5", h.P)
	}
	fields := []struct {
		t    int
		v, d int64
		name string
	}{{0, int64(h.A0), 1, "A0"}, {1, int64(h.B0), 2, "B0"}, {2, int64(h.C0), 3, "C0"}, {0, int64(h.A1), 4, "A1"}, {1, int64(h.B1), 6, "B1"}, {2, int64(h.C1), 7, "C1"}, {0, int64(h.In.A2), 8, "In.A2"}, {2, int64(h.In.C2), 9, "In.C2"}, {0, int64(h.A3), 10, "A3"}, {3, int64(h.D0), 15, "D0"}, {4, int64(h.E0), 16, "E0"}, {3, int64(h.D1), 17, "D1"}}
	for i, f := range []any{&h.PA, &h.S, &h.PS, &h.L, &h.Ss, &h.LP} {
		g := fields[0]
		g.t, g.v, g.d, g.name = []int{5, 6, 7, 8, 6, 5}[i], marked(reflect.ValueOf(f).Elem()), []int64{0, 19, 0, 21, 22, 0}[i], []string{"PA", "S", "PS", "L", "Ss[0]", "LP[0]"}[i]
		fields = append(fields, g)
	}
	if len(h.Ss) != 1 || len(h.LP) != 1 || len(h.A4) != 2 || len(h.B4) != 1 || len(h.Rs) != 1 {
		e.report("field-wrong", x.id, o.ID, "slice fields got %d, %d, %d, %d and %d elements instead of 2, 1, 1, 1 and 1", len(h.A4), len(h.B4), len(h.Rs), len(h.Ss), len(h.LP))
		return ""
	}
	for i, v := range []int64{int64(h.A4[0]), int64(h.A4[1]), int64(h.B4[0]), int64(h.Rs[0].C5)} {
		f := fields[0]
		f.t, f.v, f.d, f.name = []int{0, 0, 1, 2}[i], v, int64(11+i), []string{"A4[0]", "A4[1]", "B4[0]", "Rs[0].C5"}[i]
		fields = append(fields, f)
	}
	calls := 0
	for _, f := range fields {
		switch {
		case f.v > marker:
			calls++
			found := false
			for _, s := range c.seen {
				if s.in.(regIn).Type == f.t && s.out.(int64) == f.v-marker {
					found = true
				}
			}
			if !found {
				e.report("field-wrong", x.id, o.ID, "field %s carries the mark of handler %d, which was not called for it", f.name, f.v-marker)
			}
		case f.v == f.d:
			e.events = append(e.events, event{task: x.id, op: o.ID, call: start, ret: end, in: regIn{f.t, false, 0}, out: int64(0)})
		default:
			e.report("field-wrong", x.id, o.ID, "field %s got %d instead of %d", f.name, f.v, f.d)
		}
	}
	if calls != len(c.seen) {
		e.report("field-wrong", x.id, o.ID, "%d handler calls for %d handled fields", len(c.seen), calls)
	}
	return ""
}

func (x *exec) conv() *conv { return x.cv }

// ---------------------------------------------------------------- callbacks (C16)

type cbPanic struct{ op int }

// cbError and cbRuntimeError panic the way Go's own errors do
type cbError struct{ op int }

func (e *cbError) Error() string { return fmt.Sprint("callback error ", e.op) }

type cbRuntimeError struct{ cbError }

func (e *cbRuntimeError) RuntimeError() {}

// newPanic makes a value to panic with; code that recovers may treat errors,
// texts and the panics of package reflect differently from anything else
func newPanic(o *Op) any {
	rt.Count("fault:callback-panic")
	switch o.ID % 7 {
	case 1:
		return &cbError{o.ID}
	case 2:
		return &cbRuntimeError{cbError{o.ID}}
	case 3:
		return &reflect.ValueError{Method: "callback", Kind: reflect.Func}
	case 4:
		return fmt.Sprint("callback ", o.ID)
	case 5:
		return o.ID
	case 6:
		return io.EOF
	}
	return &cbPanic{o.ID}
}

type cbMar struct{ f func(*dx.DxValue) }

func (m cbMar) EncodeToDxValue(dest *dx.DxValue) { m.f(dest) }

type cbUnm struct{ f func(*dx.DxValue) }

func (m *cbUnm) DecodeFromDxValue(from *dx.DxValue) {
	if m != nil {
		m.f(from)
	}
}

type ct0 int64
type ct1 int64
type ct2 int64
type crec0 struct {
	Name string
	H    ct0
	A    ct0
}
type crecU struct {
	Name string
	U    *cbUnm
	A    []*cbUnm
}
type crec1 struct {
	Name string
	H    ct1
	A    ct1
}
type crec2 struct {
	Name string
	H    ct2
	A    ct2
}

var ctypes = []reflect.Type{reflect.TypeOf(ct0(0)), reflect.TypeOf(ct1(0)), reflect.TypeOf(ct2(0))}

func (x *exec) callback(o *Op, n, bn *dx.DxValue) string {
	calls := 0
	over := false // a handler stays registered after this call; it does nothing then
	var thrown any
	body := func(given *dx.DxValue) {
		if over {
			return
		}
		calls++
		if calls != 1+int(o.I>>1&1) { // the first or second call acts
			return
		}
		rt.Count("callback")
		snap(given, snapLight)
		x.cbRan[o.ID] = true
		cur := rt.Cur()
		op := cur.Op()
		_ = op
		for i := range o.Sub {
			x.step(&o.Sub[i])
		}
		if o.I&1 == 1 {
			thrown = newPanic(o)
			panic(thrown)
		}
	}
	var got any
	act := body
	run := func(body func(*dx.DxValue)) {
		defer func() {
			if rt.Unwinding() {
				return
			}
			got = recover()
			if he, ok := got.(harnessError); ok {
				panic(he)
			}
		}()
		switch o.X % 7 {
		case 0:
			if bn != nil {
				n.MergeWith(bn, func(k string, old, nw *dx.DxValue) dx.MergeOp {
					body(nw)
					return dx.MergeOp(o.X / 7 % 3)
				})
			}
		case 1:
			n.Visit(func(k string, v *dx.DxValue) bool {
				body(v)
				return true
			})
		case 2:
			n.SetValue(cbMar{func(d *dx.DxValue) { body(d) }})
		case 3:
			n.ToStdValue(&cbUnm{body}, o.X/7%2 == 0)
		case 4:
			ty := x.id % 3
			dx.RegisterTypeMapFunc(ctypes[ty], func(f reflect.Value, v *dx.DxValue) { body(v) })
			switch ty {
			case 0:
				n.ToStdValue(&crec0{}, true)
			case 1:
				n.ToStdValue(&crec1{}, true)
			case 2:
				n.ToStdValue(&crec2{}, true)
			}
		case 5:
			n.SetKeyvalue("cb", cbMar{func(d *dx.DxValue) { body(d) }}, nil)
			n.SetIndexvalue(0, map[string]interface{}{"q": cbMar{func(d *dx.DxValue) { body(d) }}}, nil)
		case 6:
			n.ToStdValue(&crecU{U: &cbUnm{body}, A: []*cbUnm{{body}, {body}}}, true)
		}
	}
	// a burst of calls whose callback panics at once; the last of them must
	// reach the callback exactly as the first one did
	first := false
	for i := 0; i < int(o.F); i++ {
		hit := false
		run(func(*dx.DxValue) {
			if !hit && !over {
				hit = true
				thrown = newPanic(o)
				panic(thrown)
			}
		})
		if hit && got != thrown {
			x.e.report("panic-changed", x.id, o.ID, "the callback panicked, the caller saw %v", got)
		}
		if i == 0 {
			first = hit
		} else if first && !hit {
			x.e.report("callback-lost", x.id, o.ID, "call %d of a burst whose callbacks panic no longer reaches the callback (the caller saw %v)", i+1, got)
		}
		got, thrown = nil, nil
	}
	run(act)
	over = true
	if thrown != nil && got != thrown {
		x.e.report("panic-changed", x.id, o.ID, "the callback panicked, the caller saw %v", got)
	}
	if thrown == nil && got != nil && o.X%7 != 4 && o.X%7 != 6 && o.X%7 != 5 {
		x.e.report("panic-invented", x.id, o.ID, "the callback did not panic, the caller saw %s", panicText(got))
	}
	return fmt.Sprint(calls > 0)
}
