package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/suiyunonghen/DxCommonLib"
	dx "github.com/suiyunonghen/dxsvalue"

	"verifsim/rt"
	simos "verifsim/shim/os"
)

const nSlots = 6

const scribbles = "{\"x\":9}]\x00\xff\x81*&\n"

type buffer struct {
	op    int
	full  []byte // what was passed, including the bytes behind its length
	n     int
	orig  []byte
	dirty bool // scribbled by the caller
	share bool
}

type held struct {
	op   int
	what string
	s    string
	b    []byte
	e    error
	copy string
}

func (h *held) now() string {
	switch {
	case h.e != nil:
		t := ""
		if p := try(func() { t = h.e.Error() }); p != "" {
			return p
		}
		return t
	case h.b != nil:
		return string(h.b)
	}
	return h.s
}

type event struct {
	task, op int
	call     int64
	ret      int64
	in       any
	out      any
}

// env is what the tasks of one world share.
type env struct {
	plan   *Plan
	shared []*dx.DxValue
	clock  int64 // event counter for histories
	events []event
	fs     *simos.System
	opt    runOpt
	viol   *Violation
	consts []*dx.DxValue
	cbase  []string
	serial int64
}

func (e *env) now() int64 { e.clock++; return e.clock }

func (e *env) report(kind string, task, op int, format string, a ...any) {
	if e.viol == nil {
		e.viol = &Violation{Kind: kind, Task: task, Op: op, Msg: fmt.Sprintf(format, a...)}
	}
}

// exec runs the program of one task.
type exec struct {
	e     *env
	id    int
	slots [nSlots]*dx.DxValue
	log   map[int]string
	order []int
	bufs  []*buffer
	held  []held
	gos   []goThing // Go values handed to the library by copying
	cv    *conv
	cbRan map[int]bool
	marks map[int]string

	mod      [nSlots]*mnode // C23: the model of every value held
	got      *dx.DxValue    // node returned by the last operation
	gotPaths []string       // merge callbacks of the last operation
	mem      []int64        // C27: what was reachable after each repetition
	size     []int          // and the size of the live value
}

type goThing struct {
	op  int
	val any
}

type runOpt struct {
	skip      func(o *Op) bool // operations left out
	scribble  bool             // C09: scribble operations do something
	hold      bool             // C15: keep and compare every output
	consts    bool             // C03: check the constants after every operation
	bufs      bool             // C09: check input buffers after every operation
	nopanic   string           // panics of operations with this tag are violations ("*": all)
	pool      *rt.PoolCfg
	clock     *rt.ClockCfg
	only      int // -1: all tasks
	seq       bool
	opLimit   int
	maxLen    int
	history   bool
	cbFlat    map[int]bool // C16: callbacks do not run; the sub-operations of these run outside
	keepFS    *simos.System
	noval     bool // C04: a failed decode must not return a value
	tailProbe bool
	mapSeed   uint64
	model     bool // C23, C25: run the reference model as well
	repeat    int  // C27: how often the program runs
	race      bool // accesses that nothing orders are failures
}

func (x *exec) out(o *Op, s string) {
	if old, ok := x.log[o.ID]; ok {
		s = old + "|" + s
	} else {
		x.order = append(x.order, o.ID)
	}
	x.log[o.ID] = s
}

func (x *exec) run(ops []Op) {
	for i := range ops {
		o := &ops[i]
		if x.e.opt.skip != nil && x.e.opt.skip(o) {
			continue
		}
		rt.OpBegin(o.ID)
		x.step(o)
	}
}

// again runs the program n times, each time with values, texts and documents of its own, and
// measures after each what the library keeps alive.
func (x *exec) again(ops []Op, n int) {
	for k := 0; k < n; k++ {
		its := fmt.Sprintf("it%04d", k)
		itt := fmt.Sprintf("%02d:%02d:%02d", k/3600, k/60%60, k%60)
		now := make([]Op, 0, len(ops))
		for _, o := range ops {
			if o.Tag == "once" && k > 0 {
				continue
			}
			o.N = strings.ReplaceAll(o.N, itMark, its)
			o.S = strings.ReplaceAll(o.S, itMark, its)
			o.D = bytes.ReplaceAll(o.D, []byte(itMark), []byte(its))
			o.S = strings.ReplaceAll(o.S, itTime, itt)
			o.D = bytes.ReplaceAll(o.D, []byte(itTime), []byte(itt))
			now = append(now, o)
		}
		live := x.slots[0]
		y := newExec(x.e, x.id)
		y.slots[0] = live
		y.run(now)
		for i := range y.slots {
			if i > 0 || x.e.plan.X == 0 {
				y.slots[i] = nil
			}
		}
		x.slots[0] = y.slots[0]
		if n > memFirst && k%memEvery != 0 {
			continue
		}
		m := rt.Retained(x.slots[0])
		if x.e.plan.X == 3 && x.slots[0] != nil {
			if x.slots[0].ValueCache() != nil {
				return // what a live value took from its cache stays there
			}
			x.size = append(x.size, len(snap(x.slots[0], snapLight)))
		}
		x.mem = append(x.mem, m)
		if k+1 == 2*memFirst/5 || k+1 == 3*memFirst/5 {
			if s := memFirst / 5; slices.Max(x.mem[k+1-s:]) <= slices.Max(x.mem[k+1-2*s:k+1-s]) {
				return
			}
		}
	}
}

// itMark stands for the number of the repetition.
const itMark = "it0000"

// itTime stands for a time of day made from it.
const itTime = "20:00:00"

func (x *exec) step(o *Op) {
	var res string
	// what the program set stays set: nobody else may turn it over meanwhile
	setting := dx.IgnoreCase != x.e.plan.IgnoreCase
	p := try(func() {
		if x.e.opt.model {
			res = x.mstep(o)
		} else {
			res = x.do(o)
		}
	})
	if p != "" {
		res += p
		if np := x.e.opt.nopanic; (np == "*" || np != "" && np == o.Tag) && o.K != "cb" {
			x.e.report("panic", x.id, o.ID, "%s %s", o.K, p)
		}
	}
	if setting {
		res += " (IgnoreCase is not what was set)"
	}
	x.out(o, res)
	if x.e.opt.model {
		if p != "" { // a panic is C17's business
			x.mod = [nSlots]*mnode{}
		}
		x.agree(o)
	}
	x.after(o)
}

func (x *exec) after(o *Op) {
	if x.e.opt.bufs {
		for _, b := range x.bufs {
			if !b.dirty && !bytes.Equal(b.full, b.orig) {
				x.e.report("input-written", x.id, o.ID, "operation %d (%s) wrote into the input buffer of operation %d: %s", o.ID, o.K, b.op, diffAt(string(b.full), string(b.orig)))
			}
		}
	}
	if x.e.opt.hold {
		if len(x.held) > 0 {
			rt.Count("probe:held")
		}
		for i := range x.held {
			h := &x.held[i]
			if h.e == nil && h.b == nil && h.s == h.copy {
				continue
			}
			if now := h.now(); now != h.copy {
				x.e.report("output-changed", x.id, o.ID, "%s of operation %d changed after operation %d (%s): %s", h.what, h.op, o.ID, o.K, diffAt(now, h.copy))
			}
		}
	}
	if x.e.opt.consts {
		x.checkConsts(o)
	}
}

func (x *exec) checkConsts(o *Op) {
	for i, c := range x.e.consts {
		if s := snap(c, snapEnc); s != x.e.cbase[i] {
			x.e.report("constant-changed", x.id, o.ID, "constant %d changed by operation %d (%s): %s", i, o.ID, o.K, diffAt(s, x.e.cbase[i]))
		}
	}
}

func (x *exec) holdS(o *Op, what, s string) string {
	if x.e.opt.hold && len(x.held) < 120 {
		x.held = append(x.held, held{op: o.ID, what: what, s: s, copy: strings.Clone(s)})
	}
	return s
}
func (x *exec) holdB(o *Op, what string, b []byte) []byte {
	if x.e.opt.hold && b != nil && len(x.held) < 120 {
		x.held = append(x.held, held{op: o.ID, what: what, b: b, copy: string(b)})
	}
	return b
}

func (x *exec) holdE(o *Op, err error) {
	if x.e.opt.hold && err != nil && len(x.held) < 120 {
		h := held{op: o.ID, what: "error text", e: err}
		h.copy = strings.Clone(h.now())
		x.held = append(x.held, h)
		x.holdS(o, "error text", h.now())
	}
}

func walk(v *dx.DxValue, p []int) *dx.DxValue {
	for _, i := range p {
		if v == nil {
			return nil
		}
		n := v.Count()
		if n == 0 {
			return v
		}
		c := v.ValueByIndex(((i % n) + n) % n)
		if c == nil {
			return v
		}
		v = c
	}
	return v
}

func (x *exec) slot(i int) *dx.DxValue {
	if i >= 100 { // shared values
		return x.e.shared[(i-100)%len(x.e.shared)]
	}
	return x.slots[((i%nSlots)+nSlots)%nSlots]
}
func (x *exec) set(i int, v *dx.DxValue) { x.slots[((i%nSlots)+nSlots)%nSlots] = v }

// input copies a document into a buffer of its own with a guarded tail.
func (x *exec) input(o *Op, doc []byte, share bool) []byte {
	full := make([]byte, len(doc)+24)
	copy(full, doc)
	for i := len(doc); i < len(full); i++ {
		full[i] = 0xC3
	}
	b := &buffer{op: o.ID, full: full, n: len(doc), orig: append([]byte(nil), full...), share: share}
	x.bufs = append(x.bufs, b)
	if o.ID%3 == 0 { // no spare capacity
		return full[:len(doc):len(doc)]
	}
	return full[:len(doc)]
}

const (
	fJSON = iota
	fMsgPack
	fBson
	fYaml
)

func decodeNew(f int, b []byte, cached, share bool) (v *dx.DxValue, err error) {
	switch f {
	case fJSON:
		return dx.NewValueFromJson(b, cached, share)
	case fMsgPack:
		return dx.NewValueFromMsgPack(b, cached, share)
	case fBson:
		return dx.NewValueFromBson(b, cached, share)
	}
	return dx.NewValueFromYaml(b, cached)
}

func loadInto(v *dx.DxValue, f int, b []byte, share bool) error {
	switch f {
	case fJSON:
		return v.LoadFromJson(b, share)
	case fMsgPack:
		return v.LoadFromMsgPack(b, share)
	case fBson:
		return v.LoadFromBson(b, share)
	}
	return v.LoadFromYaml(b)
}

// X of decoding operations: format | cached<<2 | share<<3
func fmtOf(x int) (f int, cached, share bool) { return x & 3, x&4 != 0, x&8 != 0 }

func newValue(x int) *dx.DxValue {
	tp := dx.ValueType(x % 15)
	switch (x / 15) % 4 {
	case 0:
		return dx.NewValue(tp)
	case 1:
		return dx.NewCacheValue(tp)
	case 2:
		return dx.NewObject(x/60%2 == 0)
	}
	return dx.NewArray(x/60%2 == 0)
}

func (x *exec) do(o *Op) string {
	A := x.slot(o.A)
	switch o.K {
	case "new":
		x.set(o.A, newValue(o.X))
		return snap(x.slot(o.A), snapLight)
	case "newfrom":
		x.set(o.A, dx.NewValueFrom(x.std(o), o.B&1 == 1))
		return snap(x.slot(o.A), snapLight)
	case "dec":
		f, c, sh := fmtOf(o.X)
		v, err := decodeNew(f, x.input(o, o.D, sh), c, sh)
		et := errText(err)
		x.holdE(o, err)
		if err != nil {
			rt.Count("probe:decode-failed")
			if v != nil && x.e.opt.noval {
				x.e.report("value-with-error", x.id, o.ID, "the decoder returned a value together with %s", et)
			}
			return et
		}
		x.set(o.A, v)
		return snap(v, snapLight)
	case "scribble":
		// the caller reuses its buffers
		if x.e.opt.scribble {
			for _, b := range x.bufs {
				if !b.share && !b.dirty {
					b.dirty = true
					for i := range b.full {
						b.full[i] = scribbles[(i+o.X)%len(scribbles)]
					}
				}
			}
			for _, g := range x.gos {
				ruin(g.val)
			}
			x.gos = nil
			rt.Count("fault:buffer-overwritten")
		}
		return ""
	case "churn":
		return x.churn(o)
	case "failburst":
		// the same damaged document again and again
		f, cached, share := fmtOf(o.X)
		for i := 0; i < int(o.I); i++ {
			v, err := decodeNew(f, x.input(o, o.D, share), cached, share)
			if err == nil {
				dx.FreeValue(v)
				return "whole"
			}
			x.bufs = x.bufs[:len(x.bufs)-1]
			rt.Count("probe:decode-failed")
		}
		return ""
	case "reg":
		regHandler(x, o)
		return ""
	case "renew":
		// an emptied value, or (reference) a new one
		if A == nil || A.ReadOnly() {
			x.set(o.A, newValue(o.X))
		} else {
			if o.I&1 == 1 {
				A.Clear()
			}
			A.Reset(newValue(o.X).Type())
			if o.I&2 == 2 {
				A.Clear()
			}
		}
		return snap(x.slot(o.A), snapEnc)
	case "deep":
		q := *o
		q.D = o.deepDoc()
		return x.hostile(&q)
	case "hostile":
		return x.hostile(o)
	case "prefix":
		return x.prefix(o)
	case "cb":
		if x.e.opt.cbFlat != nil {
			if x.e.opt.cbFlat[o.ID] {
				for i := range o.Sub {
					x.step(&o.Sub[i])
				}
			}
			return ""
		}
	case "mapbuild":
		return x.mapBuild(o)
	case "reghist", "convhist":
		return x.histOp(o)
	case "readfile", "loadfile", "binfile", "savefile", "savebin":
		return x.fileOp(o)
	}
	if strings.HasPrefix(o.K, "const") {
		A = x.e.consts[o.X%len(x.e.consts)]
	}
	if A == nil {
		return "-"
	}
	n := walk(A, o.P)
	if n == nil {
		return "-"
	}
	B := x.slot(o.B)
	if o.B == o.A {
		B = nil
	}
	bn := walk(B, o.Q)
	switch o.K {
	case "clone", "copyfrom", "addfrom", "setvalv", "merge", "attach":
		if size(A, 0)+size(B, 0) > 300 {
			return "big"
		}
	}
	cache := A.ValueCache()
	if o.I&1 == 1 {
		cache = nil
	}
	switch o.K {
	case "load":
		f, _, sh := fmtOf(o.X)
		for i := 1; i < int(o.F) && rt.Cur().Step() < churnSteps; i++ { // many times over
			loadInto(n, f, x.input(o, o.D, sh), sh)
			x.bufs = x.bufs[:len(x.bufs)-1]
			rt.Count("probe:again")
		}
		err := loadInto(n, f, x.input(o, o.D, sh), sh)
		x.holdE(o, err)
		r := errText(err)
		if r != "ok" {
			rt.Count("probe:decode-failed")
		}
		return r
	case "unmarshal":
		err := dx.Unmarshal(x.input(o, o.D, false), n)
		x.holdE(o, err)
		return errText(err)
	case "free":
		x.set(o.A, nil)
		dx.FreeValue(A)
		return ""
	case "drop":
		x.set(o.A, nil)
		return ""
	case "clear":
		n.Clear()
	case "reset":
		n.Reset(dx.ValueType(o.X % 15))
	case "setint":
		n.SetInt(o.I)
	case "setstr":
		n.SetString(o.S)
	case "setdbl":
		n.SetDouble(o.F)
	case "setflt":
		n.SetFloat(float32(o.F))
	case "setbool":
		n.SetBool(o.X&1 == 1)
	case "settime":
		n.SetTime(time.Unix(1_000_000_000+o.I%2_000_000_000, 0).UTC())
	case "setdelphi":
		n.SetDelphiTime(DxCommonLib.TDateTime(25569 + float64(o.I%40000) + 0.25))
	case "setbin":
		n.SetBinary(x.goBytes(o), o.X&1 == 0)
	case "setext":
		n.SetExtType(byte(o.X))
	case "setval":
		n.SetValue(x.std(o))
	case "setkey":
		c := n.SetKey(o.N, dx.ValueType(o.X%15))
		x.got = c
		x.found(o, n, c)
		through(o, c)
		return snap(c, snapLight)
	case "setkeyc":
		c := n.SetKeyCached(o.N, dx.ValueType(o.X%15), cache)
		x.got = c
		x.found(o, n, c)
		through(o, c)
		return snap(c, snapLight)
	case "setidx":
		c := n.SetIndex(int(o.I), dx.ValueType(o.X%15))
		x.got = c
		through(o, c)
		return snap(c, snapLight)
	case "setidxc":
		c := n.SetIndexCached(int(o.I>>1), dx.ValueType(o.X%15), cache)
		x.got = c
		through(o, c)
		return snap(c, snapLight)
	case "insert":
		c := n.InsertValue(int(o.I), dx.ValueType(o.X%15))
		x.got = c
		through(o, c)
		return snap(c, snapLight)
	case "append":
		c := n.Append(dx.ValueType(o.X % 15))
		x.got = c
		through(o, c)
		return snap(c, snapLight)
	case "keyscalar":
		switch o.X % 7 {
		case 0:
			n.SetKeyInt(o.N, o.I)
			if got := n.AsInt64(o.N, o.I+1); got != o.I && x.e.opt.model && !n.ReadOnly() && n.Type() == dx.VT_Object {
				x.e.report("model", x.id, o.ID, "SetKeyInt(%.40q, %d), then AsInt64 gives %d", o.N, o.I, got)
			}
		case 1:
			n.SetKeyString(o.N, o.S)
		case 2:
			n.SetKeyDouble(o.N, o.F)
		case 3:
			n.SetKeyFloat(o.N, float32(o.F))
		case 4:
			n.SetKeyBool(o.N, o.I&1 == 1)
		case 5:
			n.SetKeyTime(o.N, time.Unix(1_000_000_000+o.I%2_000_000_000, 0).UTC())
		case 6:
			n.SetKeyvalue(o.N, x.std(o), cache)
		}
	case "sweep":
		sweep(n, o, o.X&1 == 1, 0)
	case "idxscalar":
		switch o.X % 7 {
		case 0:
			n.SetIndexInt(o.B, o.I)
		case 1:
			n.SetIndexString(o.B, o.S)
		case 2:
			n.SetIndexDouble(o.B, o.F)
		case 3:
			n.SetIndexFloat(o.B, float32(o.F))
		case 4:
			n.SetIndexBool(o.B, o.I&1 == 1)
		case 5:
			n.SetIndexTime(o.B, time.Unix(1_000_000_000+o.I%2_000_000_000, 0).UTC())
		case 6:
			n.SetIndexvalue(o.B, x.std(o), cache)
		}
	case "force":
		c := n.ForcePath(dx.ValueType(o.X%15), strings.Split(o.N, "/")...)
		x.got = c
		through(o, c)
		return snap(c, snapLight)
	case "attach":
		if B == nil {
			return "-"
		}
		x.set(o.B, nil)
		switch o.X % 4 {
		case 0:
			n.SetKeyValue(o.N, B)
		case 1:
			n.SetIndexValue(int(o.I), B)
		case 2:
			n.SetKeyvalue(o.N, B, nil)
		case 3:
			n.SetIndexvalue(int(o.I), B, nil)
		}
	case "attachconst":
		c := dx.NewValue(dx.VT_NULL + dx.ValueType(o.X%5))
		if o.I&2 == 2 {
			n.SetKeyValue(o.N, c)
		} else {
			n.SetIndexValue(int(o.I), c)
		}
	case "remkey":
		n.RemoveKey(o.N)
	case "remidx":
		n.RemoveIndex(int(o.I))
	case "empty": // remove every member, one by one
		for i := n.Count() - 1; i >= 0; i-- {
			if o.X&1 == 1 && n.DataType == dx.VT_Object {
				n.RemoveKey(n.KeyNameByIndex(i))
			} else {
				n.RemoveIndex(i)
			}
		}
	case "descend": // goes on with a node inside the document
		if n == nil || n.ReadOnly() {
			n = dx.NewValue(dx.VT_Int)
		} else if n != x.slot(o.A) {
			rt.Count("probe:descended")
		}
		x.set(o.A, n)
		return ""
	case "extract":
		x.got = n.ExtractValue(o.N)
		return snap(x.got, snapLight)
	case "clone":
		if o.A == o.B {
			return "-"
		}
		c := n.Clone(o.X&1 == 1)
		x.got = c
		x.set(o.B, c)
		return snap(c, snapLight)
	case "copyfrom":
		if bn == nil {
			return "-"
		}
		n.CopyFrom(bn, cache)
	case "addfrom":
		if bn == nil {
			return "-"
		}
		if n.Type() != bn.Type() {
			return "-"
		}
		n.AddFrom(bn, cache)
	case "setvalv":
		if bn == nil {
			return "-"
		}
		if o.X&1 == 0 {
			n.SetValue(bn)
		} else {
			n.SetValue(*bn)
		}
	case "merge":
		if bn == nil {
			return "-"
		}
		var f dx.MergeFunc
		paths := ""
		if o.X%8 != 3 {
			f = func(k string, old, nw *dx.DxValue) dx.MergeOp {
				paths += x.holdS(o, "merge path", k) + ";"
				if x.e.opt.model {
					x.gotPaths = append(x.gotPaths, k+" "+absOf(old, 0).String()+" "+absOf(nw, 0).String())
				}
				return mergePolicy(o.X%8, o.I, k)
			}
		}
		n.MergeWith(bn, f)
		return paths
	case "mark":
		x.marks[o.A] = snap(n, snapEnc)
		return x.marks[o.A]
	case "same":
		s := snap(n, snapEnc)
		if m, ok := x.marks[o.A]; ok && s != m {
			x.e.report("changed", x.id, o.ID, "the value in slot %d changed although nothing was done to it: %s", o.A, diffAt(s, m))
		}
		x.equalNoPanic(o)
		return s
	case "copy":
		return x.copyOp(o, n)
	case "snap":
		return snap(n, snapLight)
	case "snapenc":
		return snap(n, snapEnc)
	case "enc":
		return x.encode(o, n)
	case "reread":
		return x.reread(o, n)
	case "read":
		return x.read(o, n)
	case "lookall":
		var b strings.Builder
		left := 80
		lookAll(&b, n, int(o.I), &left, 0)
		return b.String()
	case "visits":
		return x.visits(o, n)
	case "equal":
		if bn == nil {
			return "-"
		}
		return strconv.FormatBool(n.Equal(bn)) + strconv.FormatBool(bn.Equal(n))
	case "tostd":
		return x.tostd(o, n)
	case "putgo":
		return x.putGo(o, n)
	case "fresh":
		return x.fresh(o, n)
	case "look":
		return x.look(o, n)
	case "peek":
		return x.peek(o, n)
	case "cb":
		return x.callback(o, n, bn)
	default:
		if strings.HasPrefix(o.K, "const") {
			rt.Count("probe:constant-write")
			q := *o
			q.K = o.K[5:]
			save := x.slots[nSlots-1]
			x.slots[nSlots-1] = A
			q.A, q.P, q.X = nSlots-1, nil, int(o.I)
			r := x.do(&q)
			x.slots[nSlots-1] = save
			return r
		}
		panic(harnessError("unknown operation " + o.K))
	}
	return ""
}

// size counts nodes, up to a limit.
func size(v *dx.DxValue, depth int) int {
	if v == nil {
		return 0
	}
	if depth > 25 {
		return 1000
	}
	n := 1
	for i, c := 0, v.Count(); i < c && n < 1000; i++ {
		n += size(v.ValueByIndex(i), depth+1)
	}
	return n
}

func (x *exec) goBytes(o *Op) []byte {
	b := append(make([]byte, 0, len(o.D)+8), o.D...)
	if o.X&1 == 0 { // copied by the library
		x.gos = append(x.gos, goThing{o.ID, b})
	}
	return b
}

func (x *exec) encode(o *Op, n *dx.DxValue) string {
	var dst []byte
	if o.I > 0 { // caller-supplied buffer: length, spare capacity
		l, c := int(o.I%37), int(o.I/37%300)
		if o.I >= 20000 && o.I < 100000 {
			l = int(o.I) - 16000
		}
		dst = make([]byte, l, l+c)
		for i := range dst {
			dst[i] = byte('A' + i%26)
		}
	}
	if o.I < 0 {
		dst = make([]byte, 0, int(-o.I%64))
	}
	pre := string(dst)
	var b []byte
	st := dx.JsonEscapeStyle(o.X / 8 % 3)
	esc := o.X/24%2 == 1
	es := ""
	enc := func(d []byte) []byte {
		switch o.X % 8 {
		case 0:
			return dx.Value2Json(n, st, esc, d)
		case 1:
			return dx.Value2FormatJson(n, st, esc, d)
		case 2:
			return dx.Value2MsgPack(n, d)
		case 3:
			r, err := dx.Value2Bson(n, d)
			es = errText(err)
			return r
		case 4:
			return n.ToJson(esc, st, esc, d)
		case 5:
			return n.ToMsgPack(d)
		case 6:
			return n.ToBson(d)
		}
		var r []byte
		var err error
		if o.X/48%2 == 0 {
			r, err = dx.Marshal(n)
		} else {
			r, err = dx.Marshal(*n)
		}
		es = errText(err)
		if d == nil {
			return r
		}
		return append(d, r...)
	}
	b = enc(dst)
	x.holdB(o, "encoding", b)
	if x.e.opt.hold && pre != "" && (es == "" || es == "ok") {
		plain := enc(nil)
		if !strings.HasPrefix(string(b), pre) || string(b[len(pre):]) != string(plain) {
			x.e.report("not-appended", x.id, o.ID, "encoding into a buffer with %d bytes and capacity %d gave something else than buffer+encoding: %s", len(pre), cap(dst), diffAt(string(b), pre+string(plain)))
		}
		if string(dst) != pre {
			x.e.report("not-appended", x.id, o.ID, "encoding changed the bytes already in the buffer")
		}
	}
	return es + hex.EncodeToString(b)
}

// read calls one group of accessors.
func (x *exec) read(o *Op, n *dx.DxValue) string {
	fbits := func(f float64) string { return strconv.FormatUint(math.Float64bits(f), 16) }
	paths := strings.Split(o.N, "/")
	hs := func(s string) string { return strconv.Quote(x.holdS(o, "string", s)) }
	switch o.X % 16 {
	case 0:
		return hs(n.String())
	case 1:
		return hs(n.AsString(o.N, "def")) + hs(n.StringByName(o.N, "d")) + hs(n.StringByPath("d", paths...))
	case 2:
		return fmt.Sprint(n.AsInt(o.N, -9), n.AsInt64(o.N, -9), n.IntByName(o.N, -9), n.IntByPath(-9, paths...))
	case 3:
		return fbits(n.AsDouble(o.N, -9)) + fbits(float64(n.AsFloat(o.N, -9))) + fbits(n.DoubleByPath(-9, paths...)) + fbits(float64(n.FloatByName(o.N, 1))) + fbits(float64(n.FloatByPath(2, paths...))) + fbits(n.DoubleByName(o.N, 3))
	case 4:
		return fmt.Sprint(n.AsBool(o.N, true), n.BoolByName(o.N, false), n.BoolByPath(true, paths...))
	case 5:
		return fbits(float64(n.AsDateTime(o.N, -3))) + n.GoTimeByPath(time.Unix(5, 0), paths...).UTC().String() + n.TimeByName(o.N, time.Unix(6, 0)).UTC().String() + fbits(float64(n.DateTimeByPath(4, paths...)))
	case 6:
		return fmt.Sprint(n.AsDuration(3, o.N), n.DurationByName(4, o.N), n.DurationByPath(5, paths...))
	case 7:
		return snap(n.ValueByName(o.N), snapLight) + snap(n.Find(o.N), snapLight)
	case 8:
		return snap(n.ValueByPath(paths...), snapLight)
	case 9:
		i := int(o.I)
		return fmt.Sprint(n.IntByIndex(i, -9), n.BoolByIndex(i, true)) + hs(n.StringByIndex(i, "def")) + fbits(float64(n.FloatByIndex(i, 3))) + fbits(n.DoubleByIndex(i, 4))
	case 10:
		k, c := n.Items(int(o.I))
		return hs(k) + hs(n.KeyNameByIndex(int(o.I))) + snap(c, snapLight)
	case 11:
		r := ""
		n.Visit(func(k string, c *dx.DxValue) bool {
			r += hs(k) + snap(c, snapLight) + ","
			return len(r) < 4000
		})
		return r
	case 12:
		return fmt.Sprint(typeNo(n), n.ExtType, n.BinExtType(), n.BinLen(), n.Count(), n.ReadOnly()) + hex.EncodeToString(n.Binary())
	case 13:
		return fmt.Sprint(n.Int(), n.Bool(), n.Duration(9)) + fbits(n.Double()) + fbits(float64(n.Float())) + fbits(float64(n.DateTime())) + n.GoTime().UTC().String()
	case 14:
		r := ""
		for i := 0; i < n.Count(); i++ {
			r += hs(n.KeyNameByIndex(i))
		}
		return r
	}
	return snap(n, snapLight)
}

// brief shows a node without its children.
func brief(v *dx.DxValue) string {
	if v == nil {
		return "-"
	}
	if v.Type() == dx.VT_Object || v.Type() == dx.VT_Array {
		return strconv.Itoa(typeNo(v)) + "#" + strconv.Itoa(v.Count())
	}
	return strconv.Itoa(typeNo(v)) + ":" + v.String()
}

// lookAll looks up every member below a node by its own key, or in other case, and every element by its number.
func lookAll(b *strings.Builder, v *dx.DxValue, how int, left *int, depth int) {
	if v == nil || depth > 12 {
		return
	}
	c := v.Count()
	for j := 0; j < c && *left > 0; j++ {
		*left--
		i := j
		if how&1 == 1 {
			i = c - 1 - j
		}
		k := strconv.Itoa(i)
		if v.Type() == dx.VT_Object {
			k = v.KeyNameByIndex(i)
			switch {
			case how&2 == 2 && j&1 == 1:
				k = strings.ToUpper(k)
			case how&4 == 4 && j&1 == 1:
				k = strings.ToLower(k)
			}
		}
		n := v.ValueByName(k)
		b.WriteString(brief(n))
		b.WriteByte(',')
		lookAll(b, n, how, left, depth+1)
	}
}

// visits visits a node partially, then from inside a visitor, some of these visits ending early.
func (x *exec) visits(o *Op, n *dx.DxValue) string {
	var b strings.Builder
	stop := int(o.I)
	part := func(v *dx.DxValue, m int) {
		i := 0
		v.Visit(func(k string, c *dx.DxValue) bool {
			b.WriteString(strconv.Quote(k) + brief(c) + ",")
			i++
			return i < m
		})
		b.WriteByte(';')
	}
	part(n, stop+1)
	budget := 60
	var in func(v *dx.DxValue, depth int)
	in = func(v *dx.DxValue, depth int) {
		i := 0
		v.Visit(func(k string, c *dx.DxValue) bool {
			i++
			budget--
			b.WriteString(strconv.Quote(k) + brief(c) + "(")
			if c != nil && budget > 0 {
				switch (i + int(o.X)) % 3 {
				case 0:
					part(c, 30)
				case 1:
					part(n, stop+1)
				}
				if depth < 4 {
					in(c, depth+1)
				}
			}
			b.WriteString(")" + strconv.Quote(k) + brief(c))
			return budget > 0
		})
	}
	in(n, 0)
	return b.String()
}

func canon(v any) string {
	var b strings.Builder
	canonR(&b, v, 0)
	return b.String()
}

func canonR(b *strings.Builder, v any, d int) {
	if d > 30 {
		b.WriteString("...")
		return
	}
	switch t := v.(type) {
	case nil:
		b.WriteString("nil")
	case map[string]interface{}:
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteString("{")
		for _, k := range ks {
			b.WriteString(strconv.Quote(k) + ":")
			canonR(b, t[k], d+1)
			b.WriteString(",")
		}
		b.WriteString("}")
	case []interface{}:
		b.WriteString("[")
		for _, e := range t {
			canonR(b, e, d+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case float64:
		b.WriteString("f" + strconv.FormatUint(math.Float64bits(t), 16))
	case float32:
		b.WriteString("f" + strconv.FormatUint(uint64(math.Float32bits(t)), 16))
	case time.Time:
		b.WriteString(t.UTC().String())
	default:
		fmt.Fprintf(b, "%T:%v", v, v)
	}
}

func (x *exec) tostd(o *Op, n *dx.DxValue) string {
	ic := o.I&1 == 1
	switch o.X % 16 {
	case 0:
		m := map[string]interface{}{}
		r := n.ToStdValue(m, ic)
		return fmt.Sprint(r) + canon(m)
	case 1:
		m := map[string]string{}
		r := n.ToStdValue(m, ic)
		s := ""
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s += x.holdS(o, "map key", k) + "=" + x.holdS(o, "map value", m[k]) + ";"
		}
		return fmt.Sprint(r) + s
	case 2:
		var s string
		r := n.ToStdValue(&s, ic)
		return fmt.Sprint(r) + x.holdS(o, "string", s)
	case 3:
		var i int64
		var j int8
		r := n.ToStdValue(&i, ic)
		n.ToStdValue(&j, ic)
		var k int16
		var l int32
		var m int
		var u8 uint8
		var u16 uint16
		var u32 uint32
		var u64 uint64
		var u uint
		for _, d := range []any{&k, &l, &m, &u8, &u16, &u32, &u64, &u} {
			n.ToStdValue(d, ic)
		}
		return fmt.Sprint(r, i, j, k, l, m, u8, u16, u32, u64, u)
	case 4:
		var f float64
		var g float32
		r := n.ToStdValue(&f, ic)
		n.ToStdValue(&g, ic)
		return fmt.Sprint(r, math.Float64bits(f), math.Float32bits(g))
	case 5:
		var b []byte
		r := n.ToStdValue(&b, ic)
		return fmt.Sprint(r) + hex.EncodeToString(b)
	case 6:
		var t time.Time
		r := n.ToStdValue(&t, ic)
		return fmt.Sprint(r) + t.UTC().String()
	case 7:
		var b bool
		r := n.ToStdValue(&b, ic)
		return fmt.Sprint(r, b)
	case 8:
		var s rec
		r := n.ToStdValue(&s, ic)
		return fmt.Sprint(r) + s.text(x, o)
	case 9:
		a := make([]interface{}, 0, 4)
		r := n.ToStdValue(a, ic)
		b := make([]string, 1, 5)
		r2 := n.ToStdValue(b, ic)
		return fmt.Sprint(r, r2, b[:cap(b)]) + canon(a[:cap(a)])
	case 10:
		var u unm
		r := n.ToStdValue(&u, ic)
		return fmt.Sprint(r) + u.got
	case 11:
		if o.I&4 == 4 {
			var s rec1
			r := n.ToStdValue(&s, ic)
			return fmt.Sprint(r, s.A)
		}
	}
	if o.X%16 >= 14 {
		// Targets that have been used before: slices with length and spare capacity.
		var s recT
		if o.I&2 == 2 {
			s.List = make([]time.Time, 1, 2+o.I&4)
			s.Names = make([]hndB, 0, 3)
			s.A = make([]hndA, 2, 2)
			s.B = make([]string, 1, 4+o.I&8)
			s.Subs = make([]recMap, 1, 3)
			s.F = make([]float64, 3, 9)
			s.Sub.B = make([]uint32, 0, 1)
		}
		r := n.ToStdValue(&s, ic)
		return fmt.Sprint(r) + s.text(x, o)
	}
	if o.X%16 >= 12 {
		var s recS
		s.Name = &unm{"-"}
		r := n.ToStdValue(&s, ic)
		return fmt.Sprint(r) + s.text(x, o)
	}
	var s recMap
	r := n.ToStdValue(&s, ic)
	return fmt.Sprint(r) + fmt.Sprint(s.Name, s.Age, s.B)
}

// rec, recMap: struct targets and sources.
type rec struct {
	Name, A, Key0 string
	Age, B        int
	F, Key1       float64
	Ok            bool
	List          []int
	Names         []string
	Sub           struct {
		X    int
		Name string
	}
	Subs []struct {
		Name string
		A    int
	}
	H  hndA
	Hb hndB
}

func (s *rec) text(x *exec, o *Op) string {
	x.holdS(o, "struct field", s.Name)
	x.holdS(o, "struct field", s.A)
	return fmt.Sprint(s.Name, "|", s.A, "|", s.Key0, "|", s.Age, s.B, math.Float64bits(s.F), math.Float64bits(s.Key1), s.Ok, s.List, len(s.Names), s.Names, s.Sub, s.Subs, s.H, s.Hb)
}

type rec1 struct{ A string }

type recMap struct {
	Name string
	Age  int
	B    bool
}

// recS has slices of everything; fields carry the key names that documents use.
type recS struct {
	A    []int8
	B    []float32
	C    []bool
	List [][]string
	F    []uint16
	Sub  struct {
		Name []string
		T    time.Time
		X    uint8
		Sub  struct{ A, B string }
	}
	Subs []recMap
	Name *unm
	Age  uint32
	Ok   []hndC
	Key0 time.Time
	Key1 []time.Duration
	H    float32
}

// recT has slices of times, of handled types and of structs.
type recT struct {
	List  []time.Time
	Names []hndB
	A     []hndA
	B     []string
	Subs  []recMap
	F     []float64
	Sub   struct {
		A []time.Time
		B []uint32
		X []hndA
	}
	Age uint8
}

func (s *recT) text(x *exec, o *Op) string {
	for _, n := range s.B {
		x.holdS(o, "slice element", n)
	}
	t := fmt.Sprint(s.Names, s.A, len(s.B), s.B, s.Subs, s.F, s.Sub.B, s.Sub.X, s.Age)
	for _, e := range append(append([]time.Time{}, s.List...), s.Sub.A...) {
		t += e.UTC().String()
	}
	return t
}

type hndC string

func (s *recS) text(x *exec, o *Op) string {
	for _, n := range s.Sub.Name {
		x.holdS(o, "slice element", n)
	}
	for _, l := range s.List {
		for _, n := range l {
			x.holdS(o, "slice element", n)
		}
	}
	return fmt.Sprint(s.A, s.B, s.C, s.List, s.F, s.Sub.Name, s.Sub.X, s.Sub.Sub, s.Subs, s.Age, s.Ok, s.Key1, math.Float32bits(s.H)) + s.Sub.T.UTC().String() + s.Key0.UTC().String() + s.Name.got
}

type hndA int64
type hndB string

type unm struct{ got string }

func (u *unm) DecodeFromDxValue(from *dx.DxValue) { u.got = snap(from, snapLight) }

type mar struct {
	N int
	S string
}

func (m mar) EncodeToDxValue(dest *dx.DxValue) {
	dest.Reset(dx.VT_Object)
	dest.SetKeyInt("n", int64(m.N))
	dest.SetKeyString("s", m.S)
}

// std builds a Go value to hand to the library.
func (x *exec) std(o *Op) any {
	v := stdValue(int(o.F), o.I, o.S, o.D)
	switch v.(type) {
	case []byte, map[string]interface{}, map[string]string, map[string]int, []interface{}, []string, *[]byte, *map[string]interface{}, *map[string]string, *map[string]int, *[]interface{}, *[]string, recP, map[string][]int, [][]string, []map[string]interface{}, map[string]map[string]string, *recP, map[string][]byte, map[string]*string, map[string]*recMap:
		x.gos = append(x.gos, goThing{o.ID, v})
	}
	return v
}

func stdValue(k int, i int64, s string, d []byte) any {
	if k < 0 {
		k = -k
	}
	switch k % nStd {
	case 0:
		return int(i)
	case 1:
		return int8(i)
	case 2:
		return uint16(i)
	case 3:
		return uint64(i)
	case 4:
		return &i
	case 5:
		return s
	case 6:
		return i&1 == 1
	case 7:
		b := i&1 == 1
		return &b
	case 8:
		return time.Unix(1_000_000_000+i%2_000_000_000, 0).UTC()
	case 9:
		return float32(i) / 4
	case 10:
		return float64(i) / 8
	case 11:
		return append([]byte(nil), d...)
	case 12:
		return map[string]interface{}{"a": int(i), "b": s, "c": i&1 == 1, "Name": s, "d": map[string]interface{}{"x": s, "y": []interface{}{1, s, nil}}, "bin": append([]byte(nil), d...)}
	case 13:
		return map[string]string{"a": s, "b\"q": "x" + s, "Name": s}
	case 14:
		return map[string]int{"a": int(i), "b": 2, "Age": 3}
	case 15:
		return []interface{}{int(i), s, true, nil, map[string]interface{}{"k": s}, []string{s, "z"}, append([]byte(nil), d...)}
	case 16:
		return []string{s, "b", "c" + s}
	case 17:
		return &[]string{s, "b"}
	case 18:
		return rec{Name: s, A: "a", Age: int(i), F: float64(i), Ok: true, List: []int{1, int(i)}, Names: []string{s}}
	case 19:
		return &recMap{Name: s, Age: int(i), B: i&1 == 1}
	case 20:
		return mar{int(i), s}
	case 21:
		return map[string]int64{"a": i, "b": 7}
	case 22:
		return map[string]bool{"t": true, "f": i&1 == 1}
	case 23:
		return []recMap{{s, int(i), true}, {"q", 1, false}}
	case 24:
		return nil
	case 25:
		return map[string]interface{}{"m": mar{1, s}, "t": time.Unix(1_500_000_000, 0).UTC(), "n": nil, "deep": map[string]interface{}{"deeper": map[string]string{"k": s}}}
	case 26:
		return []int64{i, 2, 3}
	case 27:
		return map[string]float64{"a": float64(i) / 3}
	case 28:
		return map[string]*recMap{"p": {s, int(i), true}}
	case 30:
		v := int(i)
		return &v
	case 31:
		v := int8(i)
		return &v
	case 32:
		v := int16(i)
		return &v
	case 33:
		v := int32(i)
		return &v
	case 34:
		v := uint8(i)
		return &v
	case 35:
		v := uint16(i)
		return &v
	case 36:
		v := uint32(i)
		return &v
	case 37:
		v := uint64(i)
		return &v
	case 38:
		v := uint(i)
		return &v
	case 39:
		return []any{int16(i), int32(i), uint8(i), uint32(i), uint(i), int64(i), hndA(i), hndB(s)}
	case 40:
		v := time.Unix(1_000_000_000+i%2_000_000_000, 0).UTC()
		return &v
	case 41:
		v := float32(i) / 4
		return &v
	case 42:
		v := float64(i) / 8
		return &v
	case 43:
		v := append([]byte(nil), d...)
		return &v
	case 44:
		return &map[string]interface{}{"a": int(i), "b": s, "n\"m": map[string]string{"k": s}, "bin": append([]byte(nil), d...)}
	case 45:
		return &map[string]string{"a": s, "b": "x" + s}
	case 46:
		return &map[string]int{"a": int(i), "b": 2}
	case 47:
		return &[]interface{}{int(i), s, []interface{}{s, append([]byte(nil), d...)}, map[string]int{"q": int(i)}}
	case 48:
		n, t := int(i), time.Unix(1_000_000_000+i%2_000_000_000, 0).UTC()
		return recP{P: &n, S: &s, T: t, TP: &t, M: mar{2, s}, B: append([]byte(nil), d...), L: []string{s, "l"}, F: float32(i) / 2, In: recMap{s, 3, true}, IP: &recMap{"ip" + s, 4, false}, Any: map[string]interface{}{"x": s, "y": []string{s}}, Mp: map[string]string{"k": s}}
	case 49:
		return map[string]time.Time{"t": time.Unix(1_000_000_000+i%2_000_000_000, 0).UTC()}
	case 50:
		return map[string]uint16{"u": uint16(i), "v": 7}
	case 51:
		return map[string]mar{"m": {int(i), s}}
	case 52:
		return map[string]float32{"f": float32(i) / 2}
	case 53:
		return map[hndB]hndB{hndB("hk" + s): hndB(s), "z": "zz"}
	case 54:
		return []*recMap{{s, int(i), true}, nil, {"q" + s, 1, false}}
	case 55:
		return [][]string{{s, "a"}, nil, {}, {"b" + s}}
	case 56:
		return map[string][]int{"l": {1, int(i)}, "e": nil}
	case 57:
		return []time.Time{time.Unix(1_000_000_000+i%2_000_000_000, 0).UTC()}
	case 58:
		return []mar{{int(i), s}, {2, "q"}}
	case 59:
		return []map[string]interface{}{{"a": s}, {"b": []byte(s)}, nil}
	case 60:
		return map[string]map[string]string{"x": {"y": s}, "z": {}}
	case 62:
		return recP{S: &s, L: []string{s}, Mp: map[string]string{"k": s}}
	case 63:
		return &recP{TP: &time.Time{}, Any: []interface{}{s, nil, map[string]string{"q": s}}}
	case 64:
		return map[string]*recMap{"p": {s, int(i), true}, "nil": nil}
	case 65:
		return map[string]*string{"p": &s, "nil": nil}
	case 66:
		return recU{uint8(i), uint16(i), uint32(i), uint(i), int8(i), []uint16{uint16(i)}, s, hndA(i), hndB(s)}
	case 67:
		return []recU{{A: 1, S: s}, {U: uint(i)}}
	case 68:
		return map[string][]byte{"bin": append([]byte(nil), d...), "e": nil}
	case 69:
		return map[string]hndA{"h": hndA(i), "g": 2}
	case 70:
		return map[string]interface{}{"rec": recP{L: []string{s}}, "u": &recU{S: s}, "p": (*recMap)(nil), "s": []*recMap{nil, {s, 1, true}}, "m": map[string]int64{"i": i}}
	case 71:
		return struct{}{}
	case 72:
		return []any{int32(i), uint32(i), int16(i), uint8(i), uint64(i), uint(i), int64(i)}[uint64(i)%7]
	}
	return []interface{}{}
}

const nStd = 73

// recU has unsigned fields and fields of handled types.
type recU struct {
	A  uint8
	B  uint16
	C  uint32
	U  uint
	I  int8
	L  []uint16
	S  string
	H  hndA
	Hb hndB
}

type recP struct {
	P   *int
	S   *string
	T   time.Time
	TP  *time.Time
	M   mar
	B   []byte
	L   []string
	F   float32
	In  recMap
	IP  *recMap
	Any interface{}
	Mp  map[string]string
}

// ruin overwrites Go values which the library had to copy.
func ruin(v any) {
	if r := reflect.ValueOf(v); r.Kind() == reflect.Map && r.IsNil() {
		return
	}
	switch t := v.(type) {
	case []byte:
		for i := range t {
			t[i] = 0xEE
		}
	case *[]byte:
		ruin(*t)
	case *map[string]interface{}:
		ruin(*t)
	case *map[string]string:
		ruin(*t)
	case *map[string]int:
		ruin(*t)
	case *[]interface{}:
		ruin(*t)
	case *[]string:
		ruin(*t)
	case recP:
		ruin(t.B)
		ruin(t.L)
		ruin(t.Mp)
		ruin(t.Any)
		if t.P != nil {
			*t.P = -77
		}
		if t.S != nil {
			*t.S = "RUINED"
		}
		if t.IP != nil {
			t.IP.Name = "RUINED"
		}
	case *recP:
		ruin(*t)
	case map[string][]byte:
		for _, b := range t {
			ruin(b)
		}
		t["ruined"] = nil
	case map[string]*string:
		for k, p := range t {
			if p != nil {
				*p = "RUINED"
			}
			t[k] = nil
		}
	case map[string]*recMap:
		for k, p := range t {
			if p != nil {
				p.Name = "RUINED"
			}
			t[k] = nil
		}
	case map[string][]int:
		for _, l := range t {
			for i := range l {
				l[i] = -77
			}
		}
		t["ruined"] = nil
	case map[string]map[string]string:
		for _, m := range t {
			ruin(m)
		}
	case [][]string:
		for i := range t {
			ruin(t[i])
			t[i] = nil
		}
	case []map[string]interface{}:
		for i := range t {
			if t[i] != nil {
				ruin(t[i])
			}
			t[i] = nil
		}
	case map[string]interface{}:
		for k, e := range t {
			ruin(e)
			t[k] = "RUINED"
		}
		t["ruined"] = 1
	case map[string]string:
		for k := range t {
			t[k] = "RUINED"
		}
		t["ruined"] = "1"
	case map[string]int:
		for k := range t {
			t[k] = -77
		}
	case []interface{}:
		for i := range t {
			ruin(t[i])
			t[i] = "RUINED"
		}
	case []string:
		for i := range t {
			t[i] = "RUINED"
		}
	}
}

var (
	typeA = reflect.TypeOf(hndA(0))
	typeB = reflect.TypeOf(hndB(""))
)

func regHandler(x *exec, o *Op) {
	tp := typeA
	if o.X&1 == 1 {
		tp = typeB
	}
	tag := o.I
	dx.RegisterTypeMapFunc(tp, func(f reflect.Value, v *dx.DxValue) {
		if f.Kind() == reflect.String {
			f.SetString(fmt.Sprint("h", tag, ":") + v.String())
		} else {
			f.SetInt(tag*1000 + v.Int()%1000)
		}
	})
}

// sweep writes another scalar into every scalar below n in place.
func sweep(n *dx.DxValue, o *Op, deep bool, d int) {
	for i := n.Count() - 1; i >= 0; i-- {
		c := n.ValueByIndex(i)
		switch {
		case c.Type() <= dx.VT_Array:
			if deep && d < 8 {
				sweep(c, o, deep, d+1)
			}
		case o.X>>1 == 0:
			c.SetString(o.S)
		case o.X>>1 == 1:
			c.SetDouble(o.F + float64(i))
		case o.X>>1 == 2:
			c.SetBool(i&1 == 0)
		case o.X>>1 == 3:
			c.Clear()
		default:
			c.SetInt(o.I + int64(i))
		}
	}
}

// churnSteps is where a churn or reread stops, well below the limit that counts as a hang.
const churnSteps = 600_000

// churn decodes, uses and releases the same document many times over; each time must give what the first time gave.
func (x *exec) churn(o *Op) string {
	f, cached, share := fmtOf(o.X)
	one := func() string {
		v, err := decodeNew(f, x.input(o, o.D, share), cached, share)
		if err != nil {
			x.bufs = x.bufs[:len(x.bufs)-1]
			return errText(err)
		}
		r := snap(v, snapLight)
		switch o.X >> 4 % 8 {
		case 1:
			r += string(dx.Value2Json(v, dx.JSE_OnlyAnsiChar, true, nil))
		case 2:
			r += string(dx.Value2MsgPack(v, nil))
		case 3:
			b, err := dx.Value2Bson(v, nil)
			r += string(b) + errText(err)
		case 4:
			r += v.String()
		case 5:
			r += string(dx.Value2FormatJson(v, dx.JSE_NoEscape, false, nil))
		case 6:
			c := v.Clone(cached)
			r += snap(c, snapLight)
			dx.FreeValue(c)
		case 7:
			v.SetKeyvalue("again", map[string]interface{}{"x": int(o.I), "y": "text"}, v.ValueCache())
			v.SetKey("list", dx.VT_Array).SetIndexString(0, "e")
			r += snap(v, snapLight)
		}
		dx.FreeValue(v)
		x.bufs = x.bufs[:len(x.bufs)-1]
		return r
	}
	first := one()
	for i := 1; i < int(o.I) && rt.Cur().Step() < churnSteps; i++ {
		if r := one(); r != first {
			x.e.report("again-differs", x.id, o.ID, "the same document, decoded, used and released %d times, gives something else than the first time: %s", i+1, diffAt(r, first))
			break
		}
		rt.Count("probe:again")
	}
	return first
}

// reread reads the same value in the same way many times over.
func (x *exec) reread(o *Op, n *dx.DxValue) string {
	one := func() string {
		switch o.X % 8 {
		case 0:
			return snap(n, snapLight)
		case 1:
			return string(dx.Value2Json(n, dx.JSE_OnlyAnsiChar, true, nil))
		case 2:
			return string(dx.Value2MsgPack(n, nil))
		case 3:
			b, err := dx.Value2Bson(n, nil)
			return string(b) + errText(err)
		case 4:
			return n.String()
		case 5:
			return string(dx.Value2FormatJson(n, dx.JSE_NoEscape, false, nil))
		case 6:
			return string(dx.Value2Json(n, dx.JSE_AllEscape, true, nil)) + n.StringByName(o.N, "-") + n.StringByPath("-", o.N, o.N)
		}
		c := n.Clone(o.I&1 == 0)
		r := snap(c, snapLight)
		dx.FreeValue(c)
		return r
	}
	m := 40_000/(size(n, 0)*60+20) + 2
	if m > int(o.I) {
		m = int(o.I)
	}
	first := one()
	for i := 1; i < m && rt.Cur().Step() < churnSteps; i++ {
		if r := one(); r != first {
			x.e.report("again-differs", x.id, o.ID, "the same value, read %d times, gives something else than the first time: %s", i+1, diffAt(r, first))
			break
		}
		rt.Count("probe:again")
	}
	return first
}

// through writes through the node that a call returned.
func through(o *Op, c *dx.DxValue) {
	if o.F == 0 || c == nil {
		return
	}
	switch i := int(o.F); i % 4 {
	case 0:
		c.SetKeyInt("t", int64(i))
	case 1:
		c.SetInt(int64(i))
	case 2:
		c.SetString(fmt.Sprint("t", i))
	case 3:
		c.SetDouble(o.F / 4)
	}
}

// found: the node that SetKey returned is the one that a lookup finds.
func (x *exec) found(o *Op, n, c *dx.DxValue) {
	if !x.e.opt.model || n.ReadOnly() || n.Type() != dx.VT_Object {
		return
	}
	if n.ValueByName(o.N) != c || n.ValueByPath(o.N) != c || n.Find(o.N) != c {
		x.e.report("model", x.id, o.ID, "%s(%.40q) returned a node that a lookup of that name does not find", o.K, o.N)
	}
}
