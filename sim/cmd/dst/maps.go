package main

import (
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"

	"verifsim/rt"
)

// ---------------------------------------------------------------- values built from Go maps (C18)

// mapKeys: no two are equal when case is ignored.
var mapKeys = []string{"a", "b", "c", "Name", "k\"q", "t\\u", "t\\u0041", "line\nkey", "", "0", "1", "-1", "键", "n/m", "Sub", "x", "longer key with spaces", "ключ", "1.5", "\\", "a.b"}

type mk struct{ r *rt.Rand }

type namedMap map[string]interface{}
type namedList []interface{}
type named interface{ Name() string }

func (h hndB) Name() string { return string(h) }

func (g mk) keys() []string {
	n := g.r.N(7)
	big := g.r.P(0.04)
	if big {
		n = g.r.Range(8, 40)
	}
	seen := map[string]bool{}
	var ks []string
	for len(ks) < n {
		k := mapKeys[g.r.N(len(mapKeys))]
		if big || g.r.P(0.2) {
			k = "key" + strconv.Itoa(g.r.N(100))
		}
		if !seen[k] {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	return ks
}

func (g mk) str() string {
	return []string{"", "x", "some text", "q\"uote", "back\\slash", "1", "true", "Ünï", "tab\tnew\nline", strings.Repeat("z", 70)}[g.r.N(10)]
}

func (g mk) int() int64 {
	return []int64{0, 1, -1, 42, 255, 65536, 1 << 40, -1 << 50, int64(g.r.N(1000))}[g.r.N(9)]
}

// value makes one entry of a map[string]interface{}.
func (g mk) value(d int) any {
	r := g.r
	if d < 3 && r.P(0.3) {
		return g.mapv(d + 1)
	}
	i := g.int()
	s := g.str()
	switch r.N(33) {
	case 0:
		return nil
	case 31, 32: // the same thing twice
		q := g.value(d + 1)
		if r.P(0.3) {
			return [][]interface{}{{q}, {q, i}}
		}
		return []interface{}{q, q}
	case 29:
		return namedList{nil, s, g.value(d + 1)}
	case 1:
		return int(i)
	case 2:
		return i
	case 3:
		return uint16(i)
	case 4:
		return float64(i) / 4
	case 5:
		return float32(int16(i)) / 4
	case 6, 7:
		return s
	case 8:
		return i&1 == 0
	case 9:
		return time.Unix(1_000_000_000+(i&0xffffff), 0).UTC()
	case 10:
		return []byte(s)
	case 11:
		return []interface{}{s, nil, int(i), g.value(d + 1)}
	case 12:
		return []string{s, "y"}
	case 13:
		return mar{int(i), s}
	case 14:
		return recMap{s, int(i), true}
	case 15:
		return &recMap{s, int(i), false}
	case 16:
		return (*recMap)(nil)
	case 17:
		return complex(1, 2) // not representable
	case 18:
		return &s
	case 19:
		b := i&1 == 0
		return &b
	case 20:
		return hndB(s)
	case 21:
		return []int64{i, 2}
	case 22:
		return uint8(i)
	case 23:
		return &i
	case 24:
		return []interface{}{}
	case 25:
		return struct{ M map[string]int }{map[string]int{"p": 1, "q": int(i), "r": 3}}
	case 26:
		return []map[string]string{{"u": s, "v": "w", "w": "x"}, nil}
	case 27:
		return [2]int{1, 2} // arrays are not representable
	case 28:
		return time.Duration(i)
	}
	return int8(i)
}

// fill makes a map, now and then with the same content (the same pointer, the same slice) under several keys.
func fill[V any](r *rt.Rand, ks []string, f func() V) map[string]V {
	m := map[string]V{}
	var last V
	same := r.P(0.15)
	for i, k := range ks {
		if i == 0 || !same || r.P(0.5) {
			last = f()
		}
		m[k] = last
	}
	return m
}

// fillP makes a map whose keys are pointers to strings, sometimes with the nil pointer among them.
func fillP[K ~string, V any](r *rt.Rand, ks []string, f func() V) map[*K]V {
	m := map[*K]V{}
	for _, k := range ks {
		n := K(k)
		m[&n] = f()
	}
	if r.P(0.2) {
		m[nil] = f()
	}
	return m
}

// mapv makes a map with at least one of the supported kinds of entries.
func (g mk) mapv(d int) any {
	ks := g.keys()
	s := g.str
	switch g.r.N(32) {
	case 0:
		return fill(g.r, ks, s)
	case 1:
		return fill(g.r, ks, func() int { return int(g.int()) })
	case 2:
		return fill(g.r, ks, func() bool { return g.r.P(0.5) })
	case 3:
		return fill(g.r, ks, func() float64 { return float64(g.int()) / 8 })
	case 4:
		return fill(g.r, ks, func() float32 { return float32(int16(g.int())) / 8 })
	case 5:
		return fill(g.r, ks, func() uint32 { return uint32(g.int()) })
	case 6:
		return fill(g.r, ks, func() []string { return []string{g.str(), "l"} })
	case 7:
		return fill(g.r, ks, func() map[string]string { return map[string]string{"x": g.str(), "y": g.str(), "z": "z"} })
	case 8:
		return fill(g.r, ks, func() *recMap {
			if g.r.P(0.3) {
				return nil
			}
			return &recMap{g.str(), int(g.int()), true}
		})
	case 9:
		return fill(g.r, ks, func() mar { return mar{int(g.int()), g.str()} })
	case 10:
		return fill(g.r, ks, func() time.Time { return time.Unix(1_000_000_000+(g.int()&0xffffff), 0).UTC() })
	case 11:
		m := map[hndB]hndA{}
		for _, k := range ks {
			m[hndB(k)] = hndA(g.int())
		}
		return m
	case 12:
		m := fill(g.r, ks, s)
		return &m
	case 13:
		m := fill(g.r, ks, func() int { return int(g.int()) })
		return &m
	case 14:
		m := fill(g.r, ks, func() any { return g.value(d + 1) })
		return &m
	case 15:
		return fill(g.r, ks, func() []byte { return []byte(g.str()) })
	case 16:
		return fill(g.r, ks, func() map[string]interface{} { return fill(g.r, g.keys(), func() any { return g.value(d + 2) }) })
	case 17:
		return fill(g.r, ks, func() recMap { return recMap{g.str(), int(g.int()), true} })
	case 18, 19:
		m := namedMap(fill(g.r, ks, func() any { return g.value(d + 1) }))
		if g.r.P(0.3) {
			return &m
		}
		return m
	case 20:
		m := map[hndB]any{}
		for _, k := range ks {
			m[hndB(k)] = g.value(d + 1)
		}
		return m
	case 21:
		return fill(g.r, ks, func() named {
			if g.r.P(0.3) {
				return nil
			}
			return hndB(g.str())
		})
	case 22:
		return fill(g.r, ks, func() namedList { return namedList{g.str(), nil, g.value(d + 1)} })
	case 23:
		return fillP[string](g.r, ks, func() int { return int(g.int()) })
	case 24:
		return fillP[string](g.r, ks, func() any { return g.value(d + 1) })
	case 25:
		m := fillP[hndB](g.r, ks, s)
		if g.r.P(0.5) {
			return &m
		}
		return m
	case 26:
		return fillP[string](g.r, ks, func() map[string]string { return map[string]string{"x": g.str(), "y": g.str(), "z": "z"} })
	}
	return fill(g.r, ks, func() any { return g.value(d + 1) })
}

// sorted brings the members of every object into the order of their names.
func (m *mnode) sorted() *mnode {
	if m == nil {
		return nil
	}
	for _, c := range m.ch {
		c.sorted()
	}
	if m.t == dx.VT_Object {
		ix := make([]int, len(m.keys))
		for i := range ix {
			ix[i] = i
		}
		sort.SliceStable(ix, func(a, b int) bool { return m.keys[ix[a]] < m.keys[ix[b]] })
		var ks []string
		var ch []*mnode
		for _, i := range ix {
			ks, ch = append(ks, m.keys[i]), append(ch, m.ch[i])
		}
		m.keys, m.ch = ks, ch
	}
	return m
}

// mapBuild makes a value from a Go map and compares its members with those of values made from each entry alone.
func (x *exec) mapBuild(o *Op) string {
	g := mk{rt.NewRand(uint64(o.I))}
	v := g.mapv(0)
	rv := reflect.ValueOf(v)
	ptr := rv.Kind() == reflect.Ptr
	if ptr {
		rv = rv.Elem()
	}
	A := x.slot(o.A)
	var n *dx.DxValue
	fresh := "fresh-" + strconv.Itoa(o.ID)
	switch {
	case o.X%6 == 0 || A == nil || A.ReadOnly():
		n = dx.NewValueFrom(v, o.X/6&1 == 1)
		x.set(o.A, n)
	case o.X%6 <= 2 || A.Type() > dx.VT_Array:
		A.SetValue(v)
		n = A
	default:
		c := A.ValueCache()
		if o.X/6&1 == 1 {
			c = nil
		}
		if A.Type() == dx.VT_Array {
			A.SetIndexvalue(A.Count(), v, c)
		} else {
			A.SetKeyvalue(fresh, v, c)
		}
		if cnt := A.Count(); cnt > 0 {
			n = A.ValueByIndex(cnt - 1)
		}
	}
	rt.Add("probe:map-entries", rv.Len())
	got := absOf(n, 0).sorted()
	var want []string
	exp := &mnode{t: dx.VT_Object}
	mks := rv.MapKeys()
	sort.Slice(mks, func(i, j int) bool { return rt.KeyText(mks[i].Interface()) < rt.KeyText(mks[j].Interface()) })
	for _, k := range mks {
		one := reflect.MakeMap(rv.Type())
		one.SetMapIndex(k, rv.MapIndex(k))
		var arg any = one.Interface()
		if ptr {
			pp := reflect.New(rv.Type())
			pp.Elem().Set(one)
			arg = pp.Interface()
		}
		e := absOf(dx.NewValueFrom(arg, false), 0)
		name := k
		if k.Kind() == reflect.Pointer {
			rt.Count("probe:pointer-key")
			name = k.Elem() // the zero Value for the nil pointer
		}
		if n := len(e.keys); n > 1 || n == 1 && (!name.IsValid() || e.keys[0] != name.String()) {
			x.e.report("renamed", x.id, o.ID, "a value made from a %T with the only key %q has the members %q", v, rt.KeyText(k.Interface()), e.keys)
		}
		exp.keys, exp.ch = append(exp.keys, e.keys...), append(exp.ch, e.ch...)
		want = append(want, rt.KeyText(k.Interface()))
	}
	exp.sorted()
	if a, b := got.String(), exp.String(); a != b {
		sort.Strings(want)
		x.e.report("map-entries", x.id, o.ID, "a value made from a %T with the keys %q does not hold what its entries give one by one: %s", v, want, diffAt(a, b))
	}
	text := got.String()
	if o.X/12&1 == 1 {
		x.apart(o, n)
	}
	return text
}

// apart writes everything below each member of n in turn: the other members must not change.
func (x *exec) apart(o *Op, n *dx.DxValue) {
	if n == nil || n.Type() > dx.VT_Array || n.Count() < 2 || n.Count() > 40 || size(n, 0) > 120 {
		return
	}
	rt.Count("probe:apart")
	type mem struct {
		name string
		i    int
	}
	var ms []mem
	for i := 0; i < n.Count(); i++ {
		name, _ := n.Items(i)
		ms = append(ms, mem{name, i})
	}
	sort.SliceStable(ms, func(a, b int) bool { return ms[a].name < ms[b].name })
	for j, m := range ms {
		pre := absOf(n, 0)
		c := n.ValueByIndex(m.i)
		if c.Type() <= dx.VT_Array {
			sweep(c, &Op{X: 9, I: int64(7700 + j)}, true, 0)
			if c.Type() == dx.VT_Array {
				c.SetIndexInt(c.Count(), int64(j))
			} else {
				c.SetKeyInt("apart", int64(j))
			}
		} else {
			c.SetInt(int64(7700 + j))
		}
		post := absOf(n, 0)
		if len(post.ch) != len(pre.ch) {
			x.e.report("not-apart", x.id, o.ID, "changing the content of member %q changed the number of members from %d to %d", m.name, len(pre.ch), len(post.ch))
			return
		}
		for i := range pre.ch {
			if i == m.i {
				continue
			}
			if a, b := post.ch[i].String(), pre.ch[i].String(); a != b {
				x.e.report("not-apart", x.id, o.ID, "changing the content of member %q (%d) changed member %d as well (now versus before): %s", m.name, m.i, i, diffAt(a, b))
				return
			}
		}
	}
}

// ---------------------------------------------------------------- Go values stored over old content (C19)

// container makes a Go map, slice or struct.
func (g mk) container(s string, d []byte) any {
	if g.r.P(0.5) {
		return g.mapv(0)
	}
	for {
		v := stdValue(g.r.N(nStd), g.int(), s, d)
		r := reflect.ValueOf(v)
		if r.Kind() == reflect.Ptr && !r.IsNil() {
			r = r.Elem()
		}
		switch v.(type) {
		case dx.DxValueMarshaler, time.Time, *time.Time:
			continue
		}
		switch r.Kind() {
		case reflect.Map, reflect.Slice, reflect.Struct:
			return v
		}
	}
}

// holes makes a container of the same type and nearly the same shape: some entries missing, nil or moved.
func (g mk) holes(v any) any {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Pointer:
		if rv.IsNil() || rv.Elem().Kind() == reflect.Struct {
			return v
		}
		w := reflect.ValueOf(g.holes(rv.Elem().Interface()))
		if w.Type() != rv.Type().Elem() {
			return v
		}
		p := reflect.New(w.Type())
		p.Elem().Set(w)
		return p.Interface()
	case reflect.Slice:
		w := reflect.MakeSlice(rv.Type(), 0, rv.Len())
		for i := 0; i < rv.Len(); i++ {
			e := rv.Index(i)
			switch {
			case g.r.P(0.3):
				e = reflect.Zero(e.Type())
			case g.r.P(0.2):
				e = rv.Index(g.r.N(rv.Len()))
			}
			w = reflect.Append(w, e)
		}
		if g.r.P(0.2) {
			w = w.Slice(0, g.r.N(w.Len()+1))
		}
		return w.Interface()
	case reflect.Map:
		w := reflect.MakeMap(rv.Type())
		mks := rv.MapKeys()
		sort.Slice(mks, func(i, j int) bool { return rt.KeyText(mks[i].Interface()) < rt.KeyText(mks[j].Interface()) })
		for _, k := range mks {
			e := rv.MapIndex(k)
			switch {
			case g.r.P(0.3):
				continue
			case g.r.P(0.3):
				e = reflect.Zero(e.Type())
			case g.r.P(0.2):
				e = rv.MapIndex(mks[g.r.N(len(mks))])
			}
			w.SetMapIndex(k, e)
		}
		return w.Interface()
	}
	return v
}

// putGo stores a Go map, slice or struct somewhere in a used document and compares the place with the same in a new one.
func (x *exec) putGo(o *Op, n *dx.DxValue) string {
	if n.ReadOnly() || size(n, 0) > 300 {
		return "-"
	}
	g := mk{rt.NewRand(uint64(o.I))}
	v := g.container(o.S, o.D)
	var c *dx.ValueCache
	if o.X/6&1 == 1 {
		c = x.slot(o.A).ValueCache()
	}
	if o.B == 1 { // something of the same shape is already there
		switch {
		case o.X%6 > 3 || n.Type() > dx.VT_Array:
			n.SetValue(v)
		case n.Type() == dx.VT_Object && o.X%6 > 0 && n.Count() > 0:
			n.SetKeyvalue(n.KeyNameByIndex(o.X/12%n.Count()), v, c)
		case n.Type() == dx.VT_Object:
			n.SetKeyvalue(o.N, v, c)
		default:
			n.SetIndexvalue(o.X/12%(n.Count()+2)-1, v, c)
		}
		v = g.holes(v)
		rt.Count("probe:same-shape")
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(modelUnknown); !is {
				panic(r)
			}
		}
	}()
	pre := absOf(n, 0)
	var fresh *dx.DxValue
	place := -1
	what := "SetValue"
	cnt := n.Count()
	switch {
	case o.X%6 <= 3 && n.Type() == dx.VT_Object:
		k := o.N
		if cnt > 0 && o.X%6 > 0 {
			k = n.KeyNameByIndex(o.X / 12 % cnt)
		}
		place = pre.find(k)
		if place < 0 {
			place = cnt
		}
		f := dx.NewObject(false)
		f.SetKeyvalue("k", v, f.ValueCache())
		fresh = f.ValueByName("k")
		n.SetKeyvalue(k, v, c)
		what = "SetKeyvalue"
		if place == cnt && fresh != nil {
			pre.keys, pre.ch = append(pre.keys, k), append(pre.ch, nil)
		}
	case o.X%6 <= 3 && n.Type() == dx.VT_Array:
		place = o.X/12%(cnt+2) - 1
		f := dx.NewArray(false)
		f.SetIndexvalue(0, v, f.ValueCache())
		fresh = f.ValueByIndex(0)
		n.SetIndexvalue(place, v, c)
		what = "SetIndexvalue"
		if place < 0 {
			place = cnt
		}
		if place == cnt && fresh != nil {
			pre.ch = append(pre.ch, nil)
		}
	default:
		f := dx.NewObject(false)
		f.SetKeyInt("left", 1)
		f.SetValue(v)
		n.SetValue(v)
		if f.Count() != 1 || f.KeyNameByIndex(0) != "left" {
			fresh = f
		}
	}
	if fresh == nil {
		return "not representable"
	}
	rt.Count("probe:stored")
	if place >= 0 && place < cnt {
		rt.Count("probe:replaced")
	}
	want := absOf(fresh, 0).sorted()
	got := absOf(n, 0)
	if place < 0 {
		got.sorted()
		pre = want
	} else {
		pre.ch[place] = want
		if place < len(got.ch) {
			got.ch[place].sorted()
		}
	}
	if a, b := got.String(), pre.String(); a != b {
		x.e.report("stored-over", x.id, o.ID, "%s of a %T at place %d of a used document differs from storing it in a new one (used versus new): %s", what, v, place, diffAt(a, b))
	}
	if o.I>>40&3 == 0 {
		if place >= 0 && o.I>>42&1 == 0 {
			n = n.ValueByIndex(place)
		}
		x.apart(o, n)
	}
	return ""
}

func init() {
	reg("C18", func(g *gen, p *Plan) {
		r := g.r
		n := 1
		if r.P(0.3) {
			n = r.Range(2, 3)
		}
		for t := 0; t < n; t++ {
			pr := mkProf(slotsTo(2), wAll(wCreate, wMutate, wRelease, map[string]int{"clone": 2, "snapenc": 1}))
			pr.damage = 0.1
			var ops []Op
			for i, m := 0, r.Range(1, 6); i < m; i++ {
				if r.P(0.5) {
					ops = append(ops, g.program(r.N(5), pr)...)
				}
				ops = append(ops, Op{ID: g.id(), K: "mapbuild", A: r.N(2), X: r.N(36), I: int64(r.U64() >> 1)})
			}
			p.Tasks = append(p.Tasks, TaskPlan{Ops: ops})
		}
		p.X = int(r.U64() >> 2)
	}, func(p *Plan) *Violation {
		a := runWorld(p, runOpt{only: -1})
		if a.viol != nil {
			return a.viol
		}
		b := runWorld(p, runOpt{only: -1, seq: true, mapSeed: uint64(p.X) | 1})
		if b.viol != nil {
			return b.viol
		}
		if a.fail != nil || b.fail != nil {
			return nil
		}
		for i := range p.Tasks {
			if v := compareLogs(p, i, a.x[i], b.x[i], "map-order", "with the entries of Go maps delivered in another order it gives", func(o *Op) bool { return o.K == "mapbuild" }); v != nil {
				return v
			}
		}
		return nil
	}, "values built from random Go maps (20 map types, nested, with entries that cannot be represented) at random places of recycled documents, under two seeded map iteration orders; compared with values built from each entry alone and with each other; non-trivial: a map had at least two entries")
	reg("C19", func(g *gen, p *Plan) {
		r := g.r
		n := 1
		if r.P(0.3) {
			n = r.Range(2, 3)
		}
		for t := 0; t < n; t++ {
			pr := mkProf(slotsTo(2), wAll(wCreate, wMutate, wRelease, wCombine, map[string]int{"snapenc": 1, "dec": 4}))
			pr.damage = 0.1
			var ops []Op
			for i, m := 0, r.Range(1, 8); i < m; i++ {
				if r.P(0.5) {
					ops = append(ops, g.program(r.N(5), pr)...)
				}
				if r.P(0.4) {
					o := g.op("dec", pr)
					o.A = r.N(2)
					ops = append(ops, o)
				}
				ops = append(ops, Op{ID: g.id(), K: "putgo", A: r.N(2), B: r.N(2), P: g.path(r.N(4)), X: r.N(6 * 2 * 12), N: g.key(), S: g.goStr(), D: g.bin(), I: int64(r.U64() >> 1)})
			}
			p.Tasks = append(p.Tasks, TaskPlan{Ops: ops})
		}
	}, func(p *Plan) *Violation { return runWorld(p, runOpt{only: -1}).viol }, "Go maps, slices and structs of all kinds stored over the content of used documents on recycled memory; the place is compared with the same call on a new document, everything beside it with what was there; non-trivial: something was replaced")
}
