package main

import (
	"bytes"
	"math"
	"strings"

	"github.com/suiyunonghen/DxCommonLib"
	dx "github.com/suiyunonghen/dxsvalue"

	"verifsim/rt"
)

// ---------------------------------------------------------------- output depends on content only (C28)

// plainText: nobody needs to escape it, so whether it is held escaped cannot matter.
func plainText(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte(" _.:,+-", c) >= 0) {
			return false
		}
	}
	return true
}

// rebuildable: the content can be built again through the public interface, node by node. raw: nothing in this process
// came from JSON, so that keys cannot be held escaped and may hold anything.
func (m *mnode) rebuildable(raw bool) bool {
	switch m.t {
	case dx.VT_RawString:
		return plainText(m.s)
	case dx.VT_ExBinary:
		return len(m.s) > 1
	}
	for i, c := range m.ch {
		if m.t == dx.VT_Object {
			if !raw && !plainText(m.keys[i]) {
				return false
			}
			for _, k := range m.keys[:i] {
				if sameKey(k, m.keys[i]) {
					return false
				}
			}
		}
		if !c.rebuildable(raw) {
			return false
		}
	}
	return true
}

// noJSON: no operation of the plan decodes JSON.
func noJSON(p *Plan) bool {
	if p.X&1 == 0 {
		return false
	}
	for _, t := range p.Tasks {
		for _, o := range t.Ops {
			if (o.K == "dec" || o.K == "load" || o.K == "churn") && o.X&3 == fJSON || o.K == "unmarshal" {
				return false
			}
		}
	}
	return true
}

// put gives the new node v, already of type m.t, the content of m.
func (m *mnode) put(v *dx.DxValue, c *dx.ValueCache) {
	if v.ReadOnly() {
		return
	}
	switch m.t {
	case dx.VT_Object:
		for i, e := range m.ch {
			if e.ro {
				v.SetKeyValue(m.keys[i], dx.NewValue(e.t))
			} else {
				e.put(v.SetKeyCached(m.keys[i], e.t, c), c)
			}
		}
	case dx.VT_Array:
		for i, e := range m.ch {
			if e.ro {
				v.SetIndexValue(i, dx.NewValue(e.t))
			} else {
				e.put(v.SetIndexCached(i, e.t, c), c)
			}
		}
	case dx.VT_Int:
		v.SetInt(int64(m.bits))
	case dx.VT_Double:
		v.SetDouble(math.Float64frombits(m.bits))
	case dx.VT_DateTime:
		v.SetDelphiTime(DxCommonLib.TDateTime(math.Float64frombits(m.bits)))
	case dx.VT_Float:
		v.SetFloat(math.Float32frombits(uint32(m.bits)))
	case dx.VT_String, dx.VT_RawString:
		v.SetString(m.s)
	case dx.VT_Binary:
		v.SetBinary([]byte(m.s), true)
	case dx.VT_ExBinary:
		v.SetExtType(m.s[0])
		v.SetBinary([]byte(m.s[1:]), true)
	}
	v.ExtType = m.ext
}

// rebuild makes a new document with this content.
func (m *mnode) rebuild(cached bool) *dx.DxValue {
	if m.ro {
		return dx.NewValue(m.t)
	}
	var v *dx.DxValue
	switch {
	case m.t >= dx.VT_NULL: // not one of the shared values
		v = dx.NewValue(dx.VT_Int)
		v.Reset(m.t)
	case cached:
		v = dx.NewCacheValue(m.t)
	default:
		v = dx.NewValue(m.t)
	}
	m.put(v, v.ValueCache())
	return v
}

// fresh compares what n shows with what a new document of the same content shows.
func (x *exec) fresh(o *Op, n *dx.DxValue) string {
	var m *mnode
	if p := try(func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(modelUnknown); !is {
					panic(r)
				}
				m = nil
			}
		}()
		m = absOf(n, 0)
	}); p != "" || m == nil || !m.rebuildable(noJSON(x.e.plan)) || msize(m, 0) > 300 {
		rt.Count("probe:not-rebuilt")
		return ""
	}
	w := m.rebuild(o.B&1 == 1)
	if o.B&2 == 2 {
		w = w.Clone(o.B&4 == 4)
	}
	rt.Count("probe:rebuilt")
	show := func(v *dx.DxValue) (out [4]string) {
		q := *o
		// one kind of output first, in its own right, then the others
		q.X = int(o.I & 0xff)
		if p := try(func() { out[0] = x.encode(&q, v) }); p != "" {
			out[0] = p
		}
		q.X = int(o.I >> 8 & 0xff)
		q = noHandled(q)
		q.K = "tostd"
		q = noHandled(q)
		if p := try(func() { out[1] = x.tostd(&q, v) }); p != "" {
			out[1] = p
		}
		q.X = int(o.I >> 16 & 0xff)
		if q.X%16 == 12 { // shows whether it is one of the shared values, which is not content
			q.X++
		}
		q.I = o.I >> 24
		if p := try(func() { out[2] = x.read(&q, v) }); p != "" {
			out[2] = p
		}
		out[3] = snap(v, snapEnc)
		return out
	}
	a, b := show(n), show(w)
	for i, what := range []string{"its encoding", "its conversion to Go data", "a lookup in it", "what it shows"} {
		if a[i] != b[i] {
			x.e.report("stale", x.id, o.ID, "%s is not that of a new document with the same content (this versus new): %s", what, diffAt(a[i], b[i]))
			break
		}
	}
	if o.B&1 == 1 && !w.ReadOnly() {
		dx.FreeValue(w)
	}
	return ""
}

func init() {
	reg("C28", func(g *gen, p *Plan) {
		r := g.r
		n := 1
		if r.P(0.3) {
			n = r.Range(2, 3)
		}
		for i, m := 0, r.Range(2, 6); i < m; i++ {
			g.sticky = append(g.sticky, []string{"a", "b", "c", "Name", "Age", "List", "Sub", "x", "id", "0", "1"}[r.N(11)])
		}
		g.escapes = 0.02
		if r.P(0.25) { // nothing comes from JSON: keys and texts may hold what JSON has to escape
			p.X, g.noJSON, g.escapes = 1, true, 0.25
			for i, m := 0, r.Range(2, 5); i < m; i++ {
				g.sticky = append(g.sticky, []string{"é", "键", "k\"q", "line\nkey", "a/b", "t\\u", "x\ty", "it's", "\u2028", "100%", "\x01"}[r.N(11)])
			}
		}
		for t := 0; t < n; t++ {
			w := wAll(wMutate, wMutate, wRelease, wCombine, map[string]int{"new": 4, "newfrom": 2, "dec": 6, "load": 3, "setval": 2, "read": 2, "tostd": 3, "enc": 5, "snapenc": 3, "equal": 1})
			if r.P(0.3) {
				w = map[string]int{"new": 2, "dec": 4, "enc": 6, "tostd": 2, "read": 2, "snapenc": 1, "free": 2}
				for i, m := 0, r.Range(2, 5); i < m; i++ {
					for {
						c := opOrder[r.N(len(opOrder))]
						if wMutate[c] > 0 || wCombine[c] > 0 {
							w[c] += 5
							break
						}
					}
				}
			}
			pr := mkProf(slotsTo(2+r.N(2)), w)
			pr.share = r.P(0.3)
			pr.damage = []float64{0, 0.1, 0.3}[r.N(3)]
			var ops []Op
			for _, o := range g.program(r.Range(3, 20), pr) {
				if (!g.noJSON || o.X&3 == fJSON) && bytes.ContainsAny(o.D, "\\%") {
					continue // plain text could be held in an escaped form
				}
				o = noHandled(o)
				look := func(pre float64) { // the place itself or the document around it
					if !r.P(pre) {
						return
					}
					q := Op{ID: g.id(), K: "fresh", A: o.A, B: r.N(8), I: int64(r.U64() >> 1), N: g.key()}
					if r.P(0.3) {
						q.K, q.X, q.I = "enc", r.N(96), 0
					}
					if r.P(0.5) {
						q.P = o.P
					}
					ops = append(ops, q)
				}
				touch := wMutate[o.K] > 0 || wCombine[o.K] > 0 || o.K == "load"
				if touch {
					look(0.3)
				}
				ops = append(ops, o)
				if touch {
					look(0.5)
				}
			}
			for _, s := range pr.slots {
				ops = append(ops, Op{ID: g.id(), K: "fresh", A: s, B: r.N(8), I: int64(r.U64() >> 1), N: g.key()})
			}
			p.Tasks = append(p.Tasks, TaskPlan{Ops: ops})
		}
	}, func(p *Plan) *Violation {
		r := runWorld(p, runOpt{only: -1, race: true})
		if r.viol != nil {
			return r.viol
		}
		if r.fail != nil && sharedFail(r.fail) {
			return failViol(r.fail)
		}
		return nil
	}, "random programs over changing, loading, encoding, printing and converting; at random moments what a value shows (every encoding, text, lookup and conversion) is compared with what a new document of the same content, built node by node with or without a cache, shows; non-trivial: a value that has been changed was compared")
}
