package rt

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
)

// Ent is one entry of a map being ranged over by the code under test.
type Ent[K comparable, V any] struct {
	K K
	V V
	m map[K]V
}

// Gone tells whether the entry was deleted since the range started.
func (e Ent[K, V]) Gone() bool { _, ok := e.m[e.K]; return !ok }

// KeyText is what keys are sorted by: for a pointer, what it points to (addresses differ from run to run).
func KeyText(k any) string {
	if v := reflect.ValueOf(k); v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return "nil"
		}
		return "*" + fmt.Sprint(v.Elem().Interface())
	}
	return fmt.Sprint(k)
}

// order is the seeded permutation for a range over these keys. It depends on the run, the operation and
// the keys only, not on what the task did before.
func order(keys []string) []int {
	n := len(keys)
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if t := cur; t != nil && n > 1 {
		h := fnv.New64a()
		for _, k := range keys {
			h.Write([]byte(k))
			h.Write([]byte{0})
		}
		r := NewRand(Mix(world.Cfg.Seed^world.Cfg.MapSeed^h.Sum64(), uint64(t.op)))
		for i := n - 1; i > 0; i-- {
			j := r.N(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	return p
}

// Ents replaces range over a map: a seeded order instead of the runtime's random one.
func Ents[M ~map[K]V, K comparable, V any](m M) []Ent[K, V] {
	es := make([]Ent[K, V], 0, len(m))
	for k, v := range m {
		es = append(es, Ent[K, V]{k, v, m})
	}
	ks := make([]string, len(es))
	sort.Slice(es, func(i, j int) bool { return KeyText(es[i].K) < KeyText(es[j].K) })
	for i := range es {
		ks[i] = KeyText(es[i].K)
	}
	out := make([]Ent[K, V], len(es))
	for i, j := range order(ks) {
		out[i] = es[j]
	}
	return out
}

// MapKeys replaces reflect.Value.MapKeys.
func MapKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	sort.Slice(ks, func(i, j int) bool { return KeyText(ks[i].Interface()) < KeyText(ks[j].Interface()) })
	ss := make([]string, len(ks))
	for i := range ks {
		ss[i] = KeyText(ks[i].Interface())
	}
	out := make([]reflect.Value, len(ks))
	for i, j := range order(ss) {
		out[i] = ks[j]
	}
	return out
}

// MapIter replaces *reflect.MapIter.
type MapIter struct {
	m  reflect.Value
	ks []reflect.Value
	i  int
}

func MapRange(v reflect.Value) *MapIter  { return &MapIter{m: v, ks: MapKeys(v), i: -1} }
func (it *MapIter) Next() bool           { it.i++; return it.i < len(it.ks) }
func (it *MapIter) Key() reflect.Value   { return it.ks[it.i] }
func (it *MapIter) Value() reflect.Value { return it.m.MapIndex(it.ks[it.i]) }
