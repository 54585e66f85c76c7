package main

import (
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/suiyunonghen/DxCommonLib"
	dx "github.com/suiyunonghen/dxsvalue"

	"verifsim/rt"
)

// The reference model of a document: what C23 and C25 refine the library against. A document is a tree of nodes; an
// object is an ordered list of named members, an array an ordered list. The model knows nothing about memory, caches,
// escaped names or who else is running. Which nodes are shared constants is read off the library (observed, not predicted).
type mnode struct {
	t    dx.ValueType
	ext  uint8
	ro   bool
	bits uint64 // Int, Float, Double, DateTime
	s    string // String, RawString (unescaped), Binary, ExBinary (with its type byte in front)
	keys []string
	ch   []*mnode
}

// absOf reads a document through the public interface.
func absOf(v *dx.DxValue, d int) *mnode {
	m := &mnode{t: v.Type(), ext: v.ExtType, ro: v.ReadOnly()}
	if d > 60 {
		panic(modelUnknown("too deep"))
	}
	switch m.t {
	case dx.VT_Object, dx.VT_Array:
		for i, n := 0, v.Count(); i < n; i++ {
			k, c := v.Items(i)
			if c == nil {
				panic(modelUnknown("nil member"))
			}
			m.ch = append(m.ch, absOf(c, d+1))
			if m.t == dx.VT_Object {
				m.keys = append(m.keys, k)
			}
		}
	case dx.VT_Int:
		m.bits = uint64(v.Int())
	case dx.VT_Double, dx.VT_DateTime:
		m.bits = math.Float64bits(v.Double())
	case dx.VT_Float:
		m.bits = uint64(math.Float32bits(v.Float()))
	case dx.VT_String, dx.VT_RawString:
		m.s = v.String()
	case dx.VT_Binary:
		m.s = string(v.Binary())
	case dx.VT_ExBinary:
		m.s = string([]byte{v.BinExtType()}) + string(v.Binary())
	}
	return m
}

type modelUnknown string

func (m *mnode) dump(b *strings.Builder, d int) {
	if m == nil {
		b.WriteString("nil")
		return
	}
	if d > 64 {
		b.WriteString("...")
		return
	}
	b.WriteString("T" + strconv.Itoa(int(m.t)))
	if m.ext != 0 {
		b.WriteString("x" + strconv.Itoa(int(m.ext)))
	}
	switch m.t {
	case dx.VT_Object, dx.VT_Array:
		b.WriteString("{")
		for i, c := range m.ch {
			if m.t == dx.VT_Object {
				b.WriteString(strconv.Quote(m.keys[i]) + ":")
			}
			c.dump(b, d+1)
			b.WriteString(",")
		}
		b.WriteString("}")
	case dx.VT_Int, dx.VT_Float, dx.VT_Double, dx.VT_DateTime:
		b.WriteString("(" + strconv.FormatUint(m.bits, 16) + ")")
	case dx.VT_String, dx.VT_RawString:
		b.WriteString(strconv.Quote(m.s))
	case dx.VT_Binary, dx.VT_ExBinary:
		if m.t == dx.VT_ExBinary && m.s == "\x00" { // no type and no data
			b.WriteString("b")
			break
		}
		b.WriteString("b" + hex.EncodeToString([]byte(m.s)))
	}
}

func (m *mnode) String() string { var b strings.Builder; m.dump(&b, 0); return b.String() }

// copyRO takes over which nodes are constants.
func (m *mnode) copyRO(r *mnode) {
	m.ro = r.ro
	for i := range m.ch {
		if i < len(r.ch) {
			m.ch[i].copyRO(r.ch[i])
		}
	}
}

func (m *mnode) dup() *mnode {
	c := *m
	c.keys = append([]string(nil), m.keys...)
	c.ch = nil
	for _, e := range m.ch {
		c.ch = append(c.ch, e.dup())
	}
	return &c
}

func msize(m *mnode, depth int) int {
	if m == nil {
		return 0
	}
	if depth > 25 {
		return 1000
	}
	n := 1
	for i := 0; i < len(m.ch) && n < 1000; i++ {
		n += msize(m.ch[i], depth+1)
	}
	return n
}

func mwalk(m *mnode, p []int) *mnode {
	for _, i := range p {
		if m == nil {
			return nil
		}
		n := len(m.ch)
		if n == 0 {
			return m
		}
		m = m.ch[((i%n)+n)%n]
	}
	return m
}

func sameKey(a, b string) bool { return a == b || dx.IgnoreCase && strings.EqualFold(a, b) }

// find is the index of a member; an object with several matching members is outside the model.
func (m *mnode) find(name string) int {
	r := -1
	for i, k := range m.keys {
		if sameKey(k, name) {
			if r >= 0 {
				panic(modelUnknown("ambiguous key"))
			}
			r = i
		}
	}
	return r
}

// byName is the member that a lookup shows.
func (m *mnode) byName(name string) *mnode {
	switch m.t {
	case dx.VT_Object:
		if i := m.find(name); i >= 0 {
			return m.ch[i]
		}
	case dx.VT_Array:
		if i := int(DxCommonLib.StrToIntDef(name, -1)); i >= 0 && i < len(m.ch) {
			return m.ch[i]
		}
	}
	return nil
}

func (m *mnode) reset(t dx.ValueType) {
	if m.ro {
		return
	}
	*m = mnode{t: t}
}

func mnew(t dx.ValueType) *mnode { return &mnode{t: t} }

func (m *mnode) setScalar(t dx.ValueType, bits uint64, s string) {
	if m.ro {
		return
	}
	keep := m.t == t
	if t == dx.VT_Double || t == dx.VT_DateTime { // either keeps its type
		if m.t == dx.VT_Double || m.t == dx.VT_DateTime {
			t, keep = m.t, true
		}
	}
	if !keep {
		m.reset(t)
	}
	m.bits, m.s = bits, s
}

func (m *mnode) setKey(name string, t dx.ValueType) *mnode {
	if m.ro {
		return mnew(t)
	}
	if m.t == dx.VT_Array {
		if i := DxCommonLib.StrToIntDef(name, -1); i != -1 {
			return m.setIdx(int(i), t)
		}
	}
	if m.t != dx.VT_Object {
		m.reset(dx.VT_Object)
	}
	if i := m.find(name); i >= 0 {
		c := m.ch[i]
		if c.ro {
			c = mnew(t)
			m.ch[i] = c
		} else if c.t != t {
			c.reset(t)
		}
		return c
	}
	c := mnew(t)
	m.keys, m.ch = append(m.keys, name), append(m.ch, c)
	return c
}

func (m *mnode) putKey(name string, c *mnode) {
	if m.ro {
		return
	}
	if m.t == dx.VT_Array {
		if i := DxCommonLib.StrToIntDef(name, -1); i != -1 {
			m.putIdx(int(i), c)
			return
		}
	}
	if m.t != dx.VT_Object {
		m.reset(dx.VT_Object)
	}
	if i := m.find(name); i >= 0 {
		m.ch[i] = c
		return
	}
	m.keys, m.ch = append(m.keys, name), append(m.ch, c)
}

func (m *mnode) setIdx(i int, t dx.ValueType) *mnode {
	if m.ro {
		return mnew(t)
	}
	if m.t != dx.VT_Array {
		m.reset(dx.VT_Array)
	}
	if i >= 0 && i < len(m.ch) {
		c := m.ch[i]
		if c.t != t {
			if c.ro {
				c = mnew(t)
				m.ch[i] = c
			} else {
				c.reset(t)
			}
		}
		return c
	}
	c := mnew(t)
	m.ch = append(m.ch, c)
	return c
}

func (m *mnode) putIdx(i int, c *mnode) {
	if m.ro {
		return
	}
	if m.t != dx.VT_Array {
		m.reset(dx.VT_Array)
	}
	if i >= 0 && i < len(m.ch) {
		m.ch[i] = c
	} else {
		m.ch = append(m.ch, c)
	}
}

func (m *mnode) insert(i int, t dx.ValueType) *mnode {
	if m.ro {
		c := mnew(t)
		c.ro = t >= dx.VT_NULL
		return c
	}
	if m.t != dx.VT_Array {
		m.reset(dx.VT_Array)
	}
	if i < 0 {
		i = 0
	}
	if i > len(m.ch) {
		i = len(m.ch)
	}
	c := mnew(t)
	c.ro = t >= dx.VT_NULL // the shared constant
	m.ch = append(m.ch[:i:i], append([]*mnode{c}, m.ch[i:]...)...)
	return c
}

func (m *mnode) removeAt(i int) *mnode {
	c := m.ch[i]
	m.ch = append(m.ch[:i:i], m.ch[i+1:]...)
	if m.t == dx.VT_Object {
		m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
	}
	return c
}

func (m *mnode) removeKey(name string) *mnode {
	if m.t != dx.VT_Object {
		return nil
	}
	if i := m.find(name); i >= 0 {
		return m.removeAt(i)
	}
	return nil
}

func (m *mnode) force(t dx.ValueType, paths []string) *mnode {
	cur := m
	var llast, last *mnode
	l := len(paths)
	for i := 0; i < l-1; i++ {
		key := paths[i]
		if last != nil {
			llast = last
		}
		last = cur
		cur = cur.byName(key)
		if cur != nil && cur.t <= dx.VT_Array {
			continue
		}
		switch {
		case last.t == dx.VT_Array:
			if idx := DxCommonLib.StrToIntDef(key, -1); idx < 0 {
				last.reset(dx.VT_Object)
				cur = last.setKey(key, dx.VT_Object)
			} else {
				cur = last.setIdx(int(idx), dx.VT_Object)
			}
		case last.t == dx.VT_Object:
			cur = last.setKey(key, dx.VT_Object)
		case last.ro:
			if llast == nil {
				last = nil
				cur = mnew(dx.VT_Object)
				continue
			}
			last = llast.setKey(paths[i-1], dx.VT_Object)
			cur = last.setKey(key, dx.VT_Object)
		default:
			last.reset(dx.VT_Object)
			cur = last.setKey(key, dx.VT_Object)
		}
	}
	if l > 0 {
		return cur.setKey(paths[l-1], t)
	}
	return cur
}

func (m *mnode) num() float64 {
	switch m.t {
	case dx.VT_Int:
		return float64(int64(m.bits))
	case dx.VT_Float:
		return float64(math.Float32frombits(uint32(m.bits)))
	}
	return math.Float64frombits(m.bits)
}

// mEqual: 1 equal, 0 different, -1 not decided by the model (texts held in different forms).
func mEqual(a, b *mnode) int {
	if a.t != b.t {
		str := func(t dx.ValueType) bool { return t == dx.VT_String || t == dx.VT_RawString }
		if str(a.t) && str(b.t) {
			if a.s == b.s {
				return 1
			}
			if strings.EqualFold(a.s, b.s) {
				return -1
			}
			return 0
		}
		if a.t >= dx.VT_Int && a.t <= dx.VT_Double && b.t >= dx.VT_Int && b.t <= dx.VT_Double {
			if a.num() == b.num() {
				return 1
			}
		}
		return 0
	}
	eq := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	switch a.t {
	case dx.VT_RawString:
		if a.s == b.s {
			return -1
		}
		return 0
	case dx.VT_ExBinary:
		if len(a.s) < 2 && len(b.s) < 2 && strings.Trim(a.s+b.s, "\x00") == "" {
			return -1 // without data and type: which of the two forms the library holds cannot be seen
		}
		return eq(a.s == b.s)
	case dx.VT_String, dx.VT_Binary:
		return eq(a.s == b.s)
	case dx.VT_Int, dx.VT_Float, dx.VT_Double, dx.VT_DateTime:
		if a.bits != b.bits && a.num() == b.num() || a.num() != a.num() {
			return -1 // zeros of different sign, not-a-number
		}
		return eq(a.bits == b.bits)
	case dx.VT_Object, dx.VT_Array:
		if len(a.ch) != len(b.ch) {
			return 0
		}
		r := 1
		for i := range a.ch {
			if a.t == dx.VT_Object && a.keys[i] != b.keys[i] {
				return 0
			}
			switch mEqual(a.ch[i], b.ch[i]) {
			case 0:
				return 0
			case -1:
				r = -1
			}
		}
		return r
	}
	return 1
}

// mergePolicy decides what a merge callback answers for a path.
func mergePolicy(x int, i int64, path string) dx.MergeOp {
	if x < 4 {
		return dx.MergeOp(x % 4)
	}
	h := fnv.New32a()
	h.Write([]byte(path))
	return dx.MergeOp((uint64(h.Sum32()) + uint64(i)) % 3)
}

func (m *mnode) mergeInto(path string, from *mnode, f func(path string, old, nw *mnode) dx.MergeOp) {
	if m.t == dx.VT_Array {
		var add []*mnode
		for _, e := range from.ch {
			found := false
			for _, h := range m.ch {
				switch mEqual(e, h) {
				case 1:
					found = true
				case -1:
					panic(modelUnknown("equality"))
				}
				if found {
					break
				}
			}
			if !found {
				add = append(add, e.dup())
			}
		}
		m.ch = append(m.ch, add...)
		return
	}
	for i, e := range from.ch {
		k := from.keys[i]
		j := m.find(k)
		from.find(k)
		if j < 0 {
			m.putKey(k, e.dup())
			continue
		}
		p := k
		if path != "" {
			p = path + "/" + k
		}
		old := m.ch[j]
		switch f(p, old, e) {
		case dx.MO_Normal:
			switch {
			case old.t == dx.VT_Object && e.t == dx.VT_Object:
				old.mergeInto(p, e, f)
			case old.t == dx.VT_Array && e.t == dx.VT_Array:
				old.mergeInto(p, e, f)
			case old.t <= dx.VT_Array:
			default:
				m.ch[j] = &mnode{t: dx.VT_Array, ch: []*mnode{old.dup(), e.dup()}}
			}
		case dx.MO_Replace:
			m.ch[j] = e.dup()
		}
	}
}

// ---------------------------------------------------------------- running both

// expectation: what the model says about an operation's result.
type expect struct {
	node  *mnode // the node that the call returns or finds
	check bool
	paths []string
}

func (x *exec) mslot(i int) **mnode { return &x.mod[((i%nSlots)+nSlots)%nSlots] }

// predict applies o to the model; ok is false when the model does not cover o: the slot is then read off the library.
func (x *exec) predict(o *Op) (ex expect, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(modelUnknown); !is {
				panic(r)
			}
			ok = false
		}
		if !ok {
			rt.Count("model:resync")
			*x.mslot(o.A) = nil
		} else {
			rt.Count("model:" + o.K)
		}
	}()
	pa := x.mslot(o.A)
	A := *pa
	switch o.K {
	case "new":
		switch (o.X / 15) % 4 {
		case 0, 1:
			*pa = mnew(dx.ValueType(o.X % 15))
		case 2:
			*pa = mnew(dx.VT_Object)
		default:
			*pa = mnew(dx.VT_Array)
		}
		return ex, true
	case "dec", "newfrom":
		return ex, false
	}
	if x.slot(o.A) == nil {
		return ex, true
	}
	if A == nil {
		return ex, false
	}
	n := mwalk(A, o.P)
	pb := x.mslot(o.B)
	B := *pb
	realB := x.slot(o.B)
	if o.A == o.B {
		B, realB = nil, nil
	}
	bn := mwalk(B, o.Q)
	switch o.K {
	case "clone", "copyfrom", "addfrom", "setvalv", "merge", "attach":
		if B == nil && realB != nil {
			if o.K == "attach" {
				*pb = nil
			}
			return ex, false
		}
		if msize(A, 0)+msize(B, 0) > 300 {
			return ex, true
		}
	}
	bits := math.Float64bits
	ret := func(c *mnode) (expect, bool) {
		if c != nil && o.F != 0 && throughOps[o.K] { // as through()
			switch i := int(o.F); i % 4 {
			case 0:
				c.setKey("t", dx.VT_Int).setScalar(dx.VT_Int, uint64(i), "")
			case 1:
				c.setScalar(dx.VT_Int, uint64(i), "")
			case 2:
				c.setScalar(dx.VT_String, 0, fmt.Sprint("t", i))
			case 3:
				c.setScalar(dx.VT_Double, math.Float64bits(o.F/4), "")
			}
		}
		return expect{node: c, check: true}, true
	}
	tm := time.Unix(1_000_000_000+o.I%2_000_000_000, 0).UTC()
	switch o.K {
	case "snap", "snapenc", "enc", "tostd", "scribble", "read", "churn", "reread", "lookall", "visits":
		return ex, true
	case "free", "drop":
		*pa = nil
		return ex, true
	case "clear":
		if !n.ro {
			*n = mnode{t: n.t}
		}
	case "reset":
		n.reset(dx.ValueType(o.X % 15))
	case "setint":
		n.setScalar(dx.VT_Int, uint64(o.I), "")
	case "setstr":
		n.setScalar(dx.VT_String, 0, o.S)
	case "setdbl":
		n.setScalar(dx.VT_Double, bits(o.F), "")
	case "setflt":
		n.setScalar(dx.VT_Float, uint64(math.Float32bits(float32(o.F))), "")
	case "setbool":
		n.reset(dx.VT_False - dx.ValueType(o.X&1))
	case "settime":
		if n.t != dx.VT_Double {
			n.setScalar(dx.VT_DateTime, bits(float64(DxCommonLib.Time2DelphiTime(tm))), "")
		} else {
			n.bits = bits(float64(DxCommonLib.Time2DelphiTime(tm)))
		}
	case "setdelphi":
		n.setScalar(dx.VT_DateTime, bits(25569+float64(o.I%40000)+0.25), "")
	case "setbin":
		switch n.t {
		case dx.VT_Binary:
			n.s = string(o.D)
		case dx.VT_ExBinary:
			return ex, false
		}
	case "setext":
		if n.t == dx.VT_ExBinary {
			return ex, false
		}
	case "setkey", "setkeyc":
		return ret(n.setKey(o.N, dx.ValueType(o.X%15)))
	case "setidx":
		return ret(n.setIdx(int(o.I), dx.ValueType(o.X%15)))
	case "setidxc":
		return ret(n.setIdx(int(o.I>>1), dx.ValueType(o.X%15)))
	case "insert":
		return ret(n.insert(int(o.I), dx.ValueType(o.X%15)))
	case "append":
		return ret(n.insert(math.MaxInt32, dx.ValueType(o.X%15)))
	case "keyscalar":
		switch o.X % 7 {
		case 0:
			n.setKey(o.N, dx.VT_Int).setScalar(dx.VT_Int, uint64(o.I), "")
		case 1:
			n.setKey(o.N, dx.VT_String).setScalar(dx.VT_String, 0, o.S)
		case 2:
			n.setKey(o.N, dx.VT_Double).setScalar(dx.VT_Double, bits(o.F), "")
		case 3:
			n.setKey(o.N, dx.VT_Float).setScalar(dx.VT_Float, uint64(math.Float32bits(float32(o.F))), "")
		case 4:
			n.putKey(o.N, &mnode{t: dx.VT_False - dx.ValueType(o.I&1)})
		case 5:
			n.setKey(o.N, dx.VT_DateTime).setScalar(dx.VT_DateTime, bits(float64(DxCommonLib.Time2DelphiTime(tm))), "")
		default:
			return ex, false
		}
	case "sweep":
		n.sweep(o, o.X&1 == 1, 0)
	case "idxscalar":
		switch o.X % 7 {
		case 0:
			n.setIdx(o.B, dx.VT_Int).setScalar(dx.VT_Int, uint64(o.I), "")
		case 1:
			n.setIdx(o.B, dx.VT_String).setScalar(dx.VT_String, 0, o.S)
		case 2:
			n.setIdx(o.B, dx.VT_Double).setScalar(dx.VT_Double, bits(o.F), "")
		case 3:
			n.setIdx(o.B, dx.VT_Float).setScalar(dx.VT_Float, uint64(math.Float32bits(float32(o.F))), "")
		case 4:
			n.setIdx(o.B, dx.VT_False-dx.ValueType(o.I&1))
		case 5:
			n.setIdx(o.B, dx.VT_DateTime).setScalar(dx.VT_DateTime, bits(float64(DxCommonLib.Time2DelphiTime(tm))), "")
		default:
			return ex, false
		}
	case "force":
		return ret(n.force(dx.ValueType(o.X%15), strings.Split(o.N, "/")))
	case "attach":
		if B == nil {
			return ex, true
		}
		*pb = nil
		if o.X%2 == 0 {
			n.putKey(o.N, B)
		} else {
			n.putIdx(int(o.I), B)
		}
	case "attachconst":
		c := mnew(dx.VT_NULL + dx.ValueType(o.X%5))
		if o.I&2 == 2 {
			n.putKey(o.N, c)
		} else {
			n.putIdx(int(o.I), c)
		}
	case "remkey":
		n.removeKey(o.N)
	case "remidx":
		if n.t == dx.VT_Array && o.I >= 0 && int(o.I) < len(n.ch) {
			n.removeAt(int(o.I))
		}
	case "extract":
		return ret(n.removeKey(o.N))
	case "clone":
		if o.A == o.B {
			return ex, true
		}
		c := n.dup()
		*pb = c
		return ret(c)
	case "copyfrom", "setvalv":
		if bn == nil {
			return ex, true
		}
		if !n.ro {
			ro := n.ro
			*n = *bn.dup()
			n.ro = ro
		}
	case "addfrom":
		if bn == nil || n.t != bn.t {
			return ex, true
		}
		if !n.ro && (n.t == dx.VT_Object || n.t == dx.VT_Array) {
			c := bn.dup()
			n.keys, n.ch = append(n.keys, c.keys...), append(n.ch, c.ch...)
		}
	case "merge":
		if bn == nil || n.t != bn.t || n.t > dx.VT_Array {
			return ex, true
		}
		n.mergeInto("", bn, func(p string, old, nw *mnode) dx.MergeOp {
			if o.X%8 == 3 {
				return dx.MO_Normal
			}
			ex.paths = append(ex.paths, p+" "+old.String()+" "+nw.String())
			return mergePolicy(o.X%8, o.I, p)
		})
		ex.check = true
		return ex, true
	case "equal":
		if bn == nil {
			return ex, true
		}
		ex.node, ex.check = &mnode{bits: uint64(mEqual(n, bn) + 1)}, true
		return ex, true
	case "look", "peek":
		return ex, true
	default:
		return ex, false
	}
	return ex, true
}

// agree compares every value the task holds with the model.
func (x *exec) agree(o *Op) {
	for i := range x.mod {
		v := x.slots[i]
		m := x.mod[i]
		if v == nil {
			if m != nil {
				x.e.report("model", x.id, o.ID, "after operation %d (%s): the model has a value in slot %d, the library has none", o.ID, o.K, i)
			}
			x.mod[i] = nil
			continue
		}
		var r *mnode
		unknown := false
		p := try(func() {
			defer func() {
				if e := recover(); e != nil {
					if _, is := e.(modelUnknown); !is {
						panic(e)
					}
					unknown = true
				}
			}()
			r = absOf(v, 0)
		})
		if p != "" || unknown {
			x.mod[i] = nil
			continue
		}
		if m == nil {
			x.mod[i] = r
			continue
		}
		if a, b := r.String(), m.String(); a != b {
			x.e.report("model", x.id, o.ID, "after operation %d (%s) the document in slot %d is not what the document model gives (library versus model): %s", o.ID, o.K, i, diffAt(a, b))
			x.mod[i] = r
			continue
		}
		m.copyRO(r)
	}
}

// mstep runs one operation on the library and on the model.
func (x *exec) mstep(o *Op) string {
	ex, ok := x.predict(o)
	x.got, x.gotPaths = nil, nil
	res := x.do(o)
	if ok && ex.check {
		switch o.K {
		case "equal":
			if w := int(ex.node.bits) - 1; w >= 0 && res != "-" {
				want := strings.Repeat(strconv.FormatBool(w == 1), 2)
				if res != want {
					x.e.report("model", x.id, o.ID, "comparing gave %s, the documents are: equal %v", res, w == 1)
				}
			}
		case "merge":
			if a, b := strings.Join(x.gotPaths, ";"), strings.Join(ex.paths, ";"); a != b {
				x.e.report("model", x.id, o.ID, "the merge callback was called with other paths or values (library versus model): %s", diffAt(a, b))
			}
		default:
			if (x.got == nil) != (ex.node == nil) {
				x.e.report("model", x.id, o.ID, "%s returned a node: %v, the model does: %v", o.K, x.got != nil, ex.node != nil)
			} else if x.got != nil {
				r := absOf(x.got, 0)
				if a, b := r.String(), ex.node.String(); a != b {
					x.e.report("model", x.id, o.ID, "%s returned another node (library versus model): %s", o.K, diffAt(a, b))
				}
			}
		}
	}
	return res
}

// look compares every way of finding something with the model.
func (x *exec) look(o *Op, n *dx.DxValue) string {
	root := *x.mslot(o.A)
	m := mwalk(root, o.P)
	if m == nil {
		return ""
	}
	bad := func(format string, a ...any) { x.e.report("model", x.id, o.ID, "lookup: "+format, a...) }
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(modelUnknown); !is {
				panic(r)
			}
		}
	}()
	same := func(what string, v *dx.DxValue, want *mnode) {
		if (v == nil) != (want == nil) {
			bad("%s found something: %v, the model does: %v", what, v != nil, want != nil)
		} else if v != nil {
			if a, b := absOf(v, 0).String(), want.String(); a != b {
				bad("%s found another node (library versus model): %s", what, diffAt(a, b))
			}
		}
	}
	// by index, in order, by visiting
	if n.Count() != len(m.ch) {
		bad("Count is %d, the model has %d", n.Count(), len(m.ch))
		return ""
	}
	at := func(i int) *mnode {
		if i >= 0 && i < len(m.ch) {
			return m.ch[i]
		}
		return nil
	}
	key := func(i int) string {
		if i >= 0 && i < len(m.keys) {
			return m.keys[i]
		}
		return ""
	}
	for i := -1; i <= len(m.ch); i++ {
		same("ValueByIndex", n.ValueByIndex(i), at(i))
		k, c := n.Items(i)
		same("Items", c, at(i))
		if k != key(i) || n.KeyNameByIndex(i) != key(i) {
			bad("key %d is %q / %q, the model has %q", i, k, n.KeyNameByIndex(i), key(i))
		}
	}
	for i := -1; i <= len(m.ch); i++ {
		wi, ws, wb, wd, wf := -987, "def!", o.I&1 == 1, -5.25, float32(-5.25)
		gi, gs, gb, gd, gf := n.IntByIndex(i, wi), n.StringByIndex(i, ws), n.BoolByIndex(i, wb), n.DoubleByIndex(i, wd), n.FloatByIndex(i, wf)
		if c := n.ValueByIndex(i); c != nil {
			wi, ws, wb, wd, wf = int(c.Int()), c.String(), c.Bool(), c.Double(), c.Float()
		}
		if gi != wi || gs != ws || gb != wb || math.Float64bits(gd) != math.Float64bits(wd) || math.Float32bits(gf) != math.Float32bits(wf) {
			bad("accessors by index gave %d, %q, %v, %v, %v at %d, the member itself %d, %q, %v, %v, %v", gi, gs, gb, gd, gf, i, wi, ws, wb, wd, wf)
		}
	}
	stop := max(int(o.I), 0)
	calls := 0
	n.Visit(func(k string, c *dx.DxValue) bool {
		if calls < len(m.ch) {
			same("Visit", c, m.ch[calls])
			if k != key(calls) {
				bad("Visit showed key %q, the model has %q", k, key(calls))
			}
		}
		calls++
		return calls <= stop
	})
	want := len(m.ch)
	if want > stop+1 {
		want = stop + 1
	}
	if calls != want {
		bad("Visit made %d calls, the model %d", calls, want)
	}
	// by name
	names := append([]string(nil), m.keys...)
	if len(names) > 6 {
		names = names[:6]
	}
	for _, k := range m.keys {
		names = append(names, strings.ToUpper(k), strings.ToLower(k))
		if len(names) > 12 {
			break
		}
	}
	names = append(names, o.N, "", strconv.Itoa(int(o.I)))
	sort.Strings(names)
	for _, k := range names {
		w := m.byName(k)
		same("ValueByName", n.ValueByName(k), w)
		same("Find", n.Find(k), w)
		x.typed(o, n, []string{k}, w, bad)
	}
	// by path
	paths := strings.Split(o.N, "/")
	if o.I&1 == 0 { // a path that exists
		paths = nil
		for c, d := m, 0; len(c.ch) > 0 && d < 4; d++ {
			i := (int(o.I) + d*7 + len(o.N)) % len(c.ch)
			if i < 0 {
				i = -i
			}
			if c.t == dx.VT_Object {
				paths = append(paths, c.keys[i])
			} else {
				paths = append(paths, strconv.Itoa(i))
			}
			c = c.ch[i]
		}
	}
	w := m
	for _, k := range paths {
		if w = w.byName(k); w == nil {
			break
		}
	}
	same("ValueByPath", n.ValueByPath(paths...), w)
	x.typed(o, n, paths, w, bad)
	return ""
}

func (n *mnode) sweep(o *Op, deep bool, d int) {
	for i, c := range n.ch {
		switch {
		case c.t <= dx.VT_Array:
			if deep && d < 8 {
				c.sweep(o, deep, d+1)
			}
		case o.X>>1 == 0:
			c.setScalar(dx.VT_String, 0, o.S)
		case o.X>>1 == 1:
			c.setScalar(dx.VT_Double, math.Float64bits(o.F+float64(i)), "")
		case o.X>>1 == 2:
			c.reset(dx.VT_False - dx.ValueType(1-i&1))
		case o.X>>1 == 3:
			if !c.ro {
				*c = mnode{t: c.t}
			}
		default:
			c.setScalar(dx.VT_Int, uint64(o.I+int64(i)), "")
		}
	}
}

// peek makes a single lookup, so that what an earlier call left behind is not covered up by the next.
func (x *exec) peek(o *Op, n *dx.DxValue) string {
	m := mwalk(*x.mslot(o.A), o.P)
	if m == nil {
		return ""
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(modelUnknown); !is {
				panic(r)
			}
		}
	}()
	bad := func(format string, a ...any) { x.e.report("model", x.id, o.ID, "lookup: "+format, a...) }
	ks := strings.Split(o.N, "/")
	i := int(o.I)
	if o.X&1 == 1 && len(m.ch) > 0 {
		i = (i + 3) % len(m.ch)
		if m.t == dx.VT_Object {
			ks[0] = m.keys[i]
		} else {
			ks[0] = strconv.Itoa(i)
		}
	}
	k := ks[0]
	var at *mnode
	key := ""
	if i >= 0 && i < len(m.ch) {
		at = m.ch[i]
		if m.t == dx.VT_Object {
			key = m.keys[i]
		}
	}
	var v *dx.DxValue
	want := at
	switch o.X >> 1 {
	case 0, 1:
		want = m.byName(k)
		v = n.ValueByName(k)
	case 2:
		want = m.byName(k)
		v = n.Find(k)
	case 3:
		v = n.ValueByIndex(i)
	case 4:
		var kk string
		kk, v = n.Items(i)
		if kk != key {
			bad("Items gave the key %q, the model %q", kk, key)
		}
	case 5:
		want = m
		for _, k := range ks {
			if want = want.byName(k); want == nil {
				break
			}
		}
		v = n.ValueByPath(ks...)
	case 6:
		x.typed(o, n, ks[:1], m.byName(k), bad)
		return ""
	default:
		if kk := n.KeyNameByIndex(i); kk != key {
			bad("KeyNameByIndex gave %q, the model %q", kk, key)
		}
		return ""
	}
	if (v == nil) != (want == nil) {
		bad("found something: %v, the model does: %v", v != nil, want != nil)
	} else if v != nil {
		if a, b := absOf(v, 0).String(), want.String(); a != b {
			bad("found another node (library versus model): %s", diffAt(a, b))
		}
	}
	return ""
}

// typed: the accessors with a default agree with the node that the model finds.
func (x *exec) typed(o *Op, n *dx.DxValue, paths []string, w *mnode, bad func(string, ...any)) {
	const di, df = -987, -5.25
	dt := time.Unix(77, 0)
	gi, gs, gd, gf := n.IntByPath(di, paths...), n.StringByPath("def!", paths...), n.DoubleByPath(df, paths...), n.FloatByPath(df, paths...)
	gb, gnb := n.BoolByPath(true, paths...), n.BoolByPath(false, paths...)
	ge, gt, gdu := n.DateTimeByPath(df, paths...), n.GoTimeByPath(dt, paths...), n.DurationByPath(di, paths...)
	if len(paths) == 1 {
		k := paths[0]
		if int64(n.AsInt(k, di)) != gi || n.AsInt64(k, di) != gi || int64(n.IntByName(k, di)) != gi || n.AsString(k, "def!") != gs || n.StringByName(k, "def!") != gs ||
			math.Float64bits(n.AsDouble(k, df)) != math.Float64bits(gd) || math.Float64bits(n.DoubleByName(k, df)) != math.Float64bits(gd) || math.Float32bits(n.AsFloat(k, df)) != math.Float32bits(gf) || math.Float32bits(n.FloatByName(k, df)) != math.Float32bits(gf) ||
			n.AsBool(k, true) != gb || n.BoolByName(k, false) != gnb || !n.TimeByName(k, dt).Equal(gt) || n.DurationByName(di, k) != gdu || n.AsDuration(di, k) != gdu || math.Float64bits(float64(n.AsDateTime(k, df))) != math.Float64bits(float64(ge)) {
			bad("accessors by name and by path differ for %q", k)
		}
	}
	if w == nil {
		if gi != di || gs != "def!" || gd != df || gf != df || !gb || gnb || ge != df || !gt.Equal(dt) || gdu != di {
			bad("accessors for the missing %q did not all give the default", paths)
		}
		return
	}
	if gb != gnb {
		bad("BoolByPath gave the default for the existing %q", paths)
	}
	okI, okD, okS := true, true, true
	switch w.t {
	case dx.VT_Int:
		okI, okD, okS = gi == int64(w.bits), gd == float64(int64(w.bits)), gs == strconv.FormatInt(int64(w.bits), 10)
	case dx.VT_Double, dx.VT_DateTime:
		okD = math.Float64bits(gd) == w.bits
		okI = gi == int64(math.Float64frombits(w.bits)) || math.Abs(gd) > 9e18 || gd != gd
	case dx.VT_Float:
		okD = math.Float32bits(gf) == uint32(w.bits)
	case dx.VT_String, dx.VT_RawString:
		okS = gs == w.s
	case dx.VT_True:
		okI, okD, okS = gi == 1 && gb, gd == 1, gs == "true"
	case dx.VT_False:
		okI, okD, okS = gi == 0 && !gb, gd == 0, gs == "false"
	case dx.VT_NULL:
		okI, okS = gi == 0 && !gb, gs == "null"
	}
	if !okI || !okD || !okS {
		bad("accessors for %q gave %d, %v, %q; the model has %s", paths, gi, gd, gs, w.String())
	}
}

func init() {
	gen := func(merge bool) func(g *gen, p *Plan) {
		return func(g *gen, p *Plan) {
			r := g.r
			n := 1
			if r.P(0.1) {
				g.flat = true
			}
			if r.P(0.3) {
				n = r.Range(2, 3)
			}
			for t := 0; t < n; t++ {
				w := wAll(wMutate, wMutate, wRelease, map[string]int{"new": 4, "newfrom": 1, "dec": 6, "look": 7, "peek": 5, "equal": 2, "snapenc": 1, "enc": 2, "read": 1, "tostd": 1}, wCombine)
				w["load"], w["unmarshal"], w["setval"] = 2, 0, 1
				switch {
				case merge:
					w = wAll(wRelease, map[string]int{"dec": 6, "merge": 12, "clone": 3, "new": 1, "keyscalar": 5, "setkey": 4, "setidx": 2, "append": 2, "remkey": 2, "look": 2, "equal": 2, "enc": 1, "read": 1, "load": 1, "attach": 1})
				case g.flat && r.P(0.7): // by name or by index, in one wide container
					w = map[string]int{"dec": 1, "look": 2, "peek": 3}
					ks := []string{"keyscalar", "remkey", "attachconst", "setkey", "setkeyc", "extract", "sweep", "snapenc"}
					if r.P(0.3) {
						ks = []string{"idxscalar", "remidx", "attachconst", "setidx", "setidxc", "insert", "append", "sweep", "snapenc"}
					}
					for _, k := range ks {
						if r.P(0.6) {
							w[k] = 5
						}
					}
				case r.P(0.25): // few kinds, many of them
					w = map[string]int{"new": 2, "dec": 3, "look": 4, "peek": 4, "free": 2}
					for i, m := 0, r.Range(2, 5); i < m; i++ {
						for k := 0; ; k++ {
							c := opOrder[r.N(len(opOrder))]
							if wMutate[c] > 0 || wCombine[c] > 0 {
								w[c] += 5
								break
							}
						}
					}
				}
				pr := mkProf(slotsTo(2+r.N(2)), w)
				if g.flat && !merge {
					pr = mkProf([]int{0}, w)
				}
				pr.share = r.P(0.5)
				pr.damage = []float64{0, 0.1, 0.3}[r.N(3)]
				m := r.Range(4, 22)
				if g.flat {
					m += r.N(20)
				}
				ops := g.program(m, pr)
				if !merge { // single lookups of the place before and after a change
					var all []Op
					for _, o := range ops {
						peek := func() {
							q := g.op("peek", pr)
							q.A, q.P = o.A, o.P
							if o.N != "" && r.P(0.8) {
								q.N, q.X = o.N, q.X&^1
							}
							all = append(all, q)
						}
						touch := wMutate[o.K] > 0 || wCombine[o.K] > 0
						if touch && r.P(0.3) {
							peek()
						}
						all = append(all, o)
						if touch && r.P(0.4) {
							peek()
						}
					}
					ops = all
				}
				if merge {
					for i, m := 0, r.Range(1, 3); i < m; i++ {
						at := r.N(len(ops) + 1)
						ops = append(ops[:at:at], append(g.mergePair(pr), ops[at:]...)...)
					}
					for i := range ops {
						if ops[i].K == "merge" && r.P(0.7) {
							ops[i].X, ops[i].I = 4+r.N(4), int64(r.N(3))
						}
					}
				}
				p.Tasks = append(p.Tasks, TaskPlan{Ops: ops})
			}
		}
	}
	check := func(p *Plan) *Violation {
		r := runWorld(p, runOpt{only: -1, model: true, race: true})
		if r.viol != nil {
			return r.viol
		}
		if r.fail != nil && sharedFail(r.fail) {
			return failViol(r.fail)
		}
		return nil
	}
	reg("C23", gen(false), check, "random programs over lookup and mutation run on the library and on a reference model (ordered members, plain lists), on recycled memory, with failed loads and other tasks in between; every value the task holds compared with the model after every operation, every lookup with the model's; non-trivial: at least five operations were predicted")
	reg("C25", gen(true), check, "merges of related documents under per-path policies, run on the library and on the reference model; result, callback paths and callback values compared; non-trivial: a merge was predicted")
}

var _ = fmt.Sprint

var throughOps = map[string]bool{"setkey": true, "setkeyc": true, "setidx": true, "setidxc": true, "insert": true, "append": true, "force": true}
