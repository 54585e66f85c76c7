package rt

import (
	"reflect"
	"strings"
	"unsafe"
)

// Retained measures, without the runtime, the memory that the package-level variables of the code
// under test (recyclers and registries included) and the given roots keep reachable.
func Retained(roots ...any) int64 {
	w := &walker{seen: map[walkKey]bool{}}
	for _, g := range globals {
		w.walk(g.v, 0)
	}
	for _, r := range roots {
		w.walk(reflect.ValueOf(r), 0)
	}
	return w.n
}

type walkKey struct {
	p unsafe.Pointer
	n int
	t reflect.Type
}

type walker struct {
	seen map[walkKey]bool
	n    int64
}

func (w *walker) first(p unsafe.Pointer, n int, t reflect.Type) bool {
	k := walkKey{p, n, t}
	if w.seen[k] {
		return false
	}
	w.seen[k] = true
	return true
}

type liver interface{ SimLive() []any }

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !flat(t.Field(i).Type) {
				return false
			}
		}
		return true
	case reflect.Array:
		return flat(t.Elem())
	}
	return t.Kind() <= reflect.Complex128
}

// walk counts what v points to; v itself belongs to its holder.
func (w *walker) walk(v reflect.Value, depth int) {
	if !v.IsValid() {
		return
	}
	t := v.Type()
	if isShim(t) && v.CanAddr() {
		if l, ok := reflect.NewAt(t, unsafe.Pointer(v.UnsafeAddr())).Interface().(liver); ok {
			for _, x := range l.SimLive() {
				w.n += 16
				w.walk(reflect.ValueOf(x), depth+1)
			}
		}
		return
	}
	if t.PkgPath() == "sync/atomic" && v.CanAddr() {
		if m := reflect.NewAt(t, unsafe.Pointer(v.UnsafeAddr())).MethodByName("Load"); m.IsValid() {
			w.walk(m.Call(nil)[0], depth+1)
		}
		return
	}
	if strings.HasPrefix(t.PkgPath(), "reflect") || strings.HasPrefix(t.PkgPath(), "internal/") || strings.HasPrefix(t.PkgPath(), "verifsim/rt") {
		return
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			w.walk(v.Field(i), depth)
		}
	case reflect.Array:
		if !flat(t.Elem()) {
			for i := 0; i < v.Len(); i++ {
				w.walk(v.Index(i), depth)
			}
		}
	case reflect.Pointer:
		if v.IsNil() || !w.first(v.UnsafePointer(), 0, t) {
			return
		}
		w.n += int64(t.Elem().Size())
		w.walk(v.Elem(), depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			e := v.Elem()
			if e.Kind() != reflect.Pointer {
				w.n += int64(e.Type().Size())
			}
			w.walk(e, depth+1)
		}
	case reflect.String:
		if n := v.Len(); n > 0 && w.first(unsafe.Pointer(unsafe.StringData(v.String())), n, t) {
			w.n += int64(n)
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 || !w.first(v.UnsafePointer(), v.Cap(), t) {
			return
		}
		w.n += int64(v.Cap()) * int64(t.Elem().Size())
		if flat(t.Elem()) {
			return
		}
		// what lies between the length and the capacity is kept as well
		for i := 0; i < v.Cap(); i++ {
			w.walk(reflect.NewAt(t.Elem(), unsafe.Add(v.UnsafePointer(), uintptr(i)*t.Elem().Size())).Elem(), depth+1)
		}
	case reflect.Map:
		if v.IsNil() || !w.first(v.UnsafePointer(), 0, t) {
			return
		}
		w.n += int64(v.Len()) * int64(t.Key().Size()+t.Elem().Size())
		it := v.MapRange()
		for it.Next() {
			w.walk(it.Key(), depth+1)
			w.walk(it.Value(), depth+1)
		}
	case reflect.Chan:
		if !v.IsNil() {
			w.n += int64(v.Cap()) * int64(t.Elem().Size())
		}
	}
}
