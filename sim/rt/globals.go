package rt

import (
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// The package-level variables of the code under test are registered by generated code, so that a run
// can start from the state the process had after initialisation, whatever earlier runs did.

type global struct {
	name string
	v    reflect.Value // addressable
}

var (
	globals  []global
	restores []func()
	saved    bool
)

func RegisterGlobal(name string, p any) {
	globals = append(globals, global{name, reflect.ValueOf(p).Elem()})
}

type saver struct {
	seen map[unsafe.Pointer]bool
	out  []func()
}

func writable(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func isShim(t reflect.Type) bool { return strings.HasPrefix(t.PkgPath(), "verifsim/shim/sync") }
func isSUT(t reflect.Type) bool {
	return t.PkgPath() == "" || strings.Contains(t.PkgPath(), "dxsvalue") || strings.HasPrefix(t.PkgPath(), "bytes") || strings.HasPrefix(t.PkgPath(), "verifsim/shim")
}

// save records closures which restore the memory at v (addressable) to what it is now.
func (s *saver) save(v reflect.Value, depth int) {
	if depth > 20 {
		return
	}
	t := v.Type()
	if isShim(t) {
		return // reset by epoch
	}
	v = writable(v)
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			s.save(v.Field(i), depth+1)
		}
	case reflect.Array:
		if t.Elem().Kind() <= reflect.Complex128 || t.Elem().Kind() == reflect.String {
			old := reflect.New(t).Elem()
			old.Set(v)
			s.out = append(s.out, func() { v.Set(old) })
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.save(v.Index(i), depth+1)
		}
	case reflect.Pointer:
		old := reflect.New(t).Elem()
		old.Set(v)
		s.out = append(s.out, func() { v.Set(old) })
		if !v.IsNil() && isSUT(t.Elem()) {
			p := v.UnsafePointer()
			if !s.seen[p] {
				s.seen[p] = true
				s.save(v.Elem(), depth+1)
			}
		}
	case reflect.Slice:
		old := reflect.New(t).Elem()
		old.Set(v)
		s.out = append(s.out, func() { v.Set(old) })
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		p := v.UnsafePointer()
		if s.seen[p] {
			return
		}
		s.seen[p] = true
		full := v.Slice3(0, v.Cap(), v.Cap())
		if k := t.Elem().Kind(); k <= reflect.Complex128 || k == reflect.String {
			cp := reflect.MakeSlice(t, full.Len(), full.Len())
			reflect.Copy(cp, full)
			s.out = append(s.out, func() { reflect.Copy(full, cp) })
			return
		}
		for i := 0; i < full.Len(); i++ {
			s.save(full.Index(i), depth+1)
		}
	case reflect.Map:
		old := reflect.New(t).Elem()
		old.Set(v)
		if v.IsNil() {
			s.out = append(s.out, func() { v.Set(old) })
			return
		}
		var ks, vs []reflect.Value
		it := v.MapRange()
		for it.Next() {
			ks, vs = append(ks, it.Key()), append(vs, it.Value())
		}
		s.out = append(s.out, func() {
			v.Set(old)
			v.Clear()
			for i := range ks {
				v.SetMapIndex(ks[i], vs[i])
			}
		})
	case reflect.Chan:
		old := reflect.New(t).Elem()
		old.Set(v)
		var held []reflect.Value
		if !v.IsNil() && v.Cap() > 0 && t.ChanDir() == reflect.BothDir {
			for {
				x, ok := v.TryRecv()
				if !ok {
					break
				}
				held = append(held, x)
			}
			for _, x := range held {
				v.TrySend(x)
			}
		}
		s.out = append(s.out, func() {
			v.Set(old)
			if v.IsNil() || t.ChanDir() != reflect.BothDir {
				return
			}
			// the content it had; a new channel if a run has closed it
			fresh := false
			for {
				x, ok := v.TryRecv()
				if !ok {
					fresh = x.IsValid()
					break
				}
			}
			if fresh {
				old = reflect.MakeChan(t, v.Cap())
				v.Set(old)
			}
			for _, x := range held {
				v.TrySend(x)
			}
		})
	default:
		old := reflect.New(t).Elem()
		old.Set(v)
		s.out = append(s.out, func() { v.Set(old) })
	}
}

// SaveGlobals remembers the state after initialisation; ResetGlobals goes back to it.
func SaveGlobals() {
	sort.Slice(globals, func(i, j int) bool { return globals[i].name < globals[j].name })
	s := &saver{seen: map[unsafe.Pointer]bool{}}
	for _, g := range globals {
		s.save(g.v, 0)
	}
	restores = s.out
	saved = true
}

func ResetGlobals() {
	if !saved {
		panic("rt: ResetGlobals before SaveGlobals")
	}
	endProcess()
	booting = true
	epoch++
	for _, f := range restores {
		f()
	}
}

func GlobalCount() int { return len(globals) }
