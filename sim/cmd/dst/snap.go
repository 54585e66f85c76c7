package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"runtime"
	"strconv"
	"strings"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"

	"verifsim/rt"
)

// try runs f; a panic of the code under test becomes text.
func try(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				panic(he)
			}
			p = panicText(r)
		}
	}()
	f()
	return ""
}

type harnessError string

func panicText(r any) string {
	switch e := r.(type) {
	case runtime.Error:
		return "PANIC " + e.Error()
	case error:
		return "PANIC " + e.Error()
	}
	return fmt.Sprintf("PANIC %v", r)
}

const (
	snapLight = iota // structure and scalars
	snapEnc          // plus all encodings of the root
)

type snapper struct {
	b     strings.Builder
	nodes int
	bad   string // first panic
}

func (s *snapper) try(what string, f func()) {
	if p := try(f); p != "" {
		s.b.WriteString("<" + what + " " + p + ">")
		if s.bad == "" {
			s.bad = what + ": " + p
		}
	}
}

// snap writes down everything the public interface shows of v.
func snap(v *dx.DxValue, mode int) string { s, _ := snapBad(v, mode); return s }

func snapBad(v *dx.DxValue, mode int) (string, string) {
	var s snapper
	s.node(v, 0)
	if mode == snapEnc && v != nil {
		for _, st := range []dx.JsonEscapeStyle{dx.JSE_NoEscape, dx.JSE_AllEscape, dx.JSE_OnlyAnsiChar} {
			s.try("Value2Json", func() {
				s.b.WriteString("\nJ" + strconv.Itoa(int(st)) + " " + string(dx.Value2Json(v, st, st == dx.JSE_AllEscape, nil)))
			})
		}
		s.try("Value2FormatJson", func() { s.b.WriteString("\nF " + string(dx.Value2FormatJson(v, dx.JSE_OnlyAnsiChar, false, nil))) })
		s.try("Value2FormatJson", func() { s.b.WriteString("\nF0 " + string(dx.Value2FormatJson(v, dx.JSE_NoEscape, true, nil))) })
		s.try("Value2MsgPack", func() { s.b.WriteString("\nM " + hex.EncodeToString(dx.Value2MsgPack(v, nil))) })
		s.try("Value2Bson", func() {
			b, err := dx.Value2Bson(v, nil)
			s.b.WriteString("\nB " + hex.EncodeToString(b) + " " + errText(err))
		})
		s.try("ToBson", func() { s.b.WriteString("\nB2 " + hex.EncodeToString(v.ToBson(nil))) })
		s.try("String", func() { s.b.WriteString("\nS " + v.String()) })
	}
	return s.b.String(), s.bad
}

// typeNo: whether text is held escaped or unescaped is not observable behaviour.
func typeNo(v *dx.DxValue) int {
	t := v.Type()
	if t == dx.VT_RawString {
		t = dx.VT_String
	}
	return int(t)
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	t := ""
	if p := try(func() { t = err.Error() }); p != "" {
		return "ERRTEXT-" + p
	}
	return "err:" + t
}

func (s *snapper) node(v *dx.DxValue, depth int) {
	s.nodes++
	if v == nil {
		s.b.WriteString("nil")
		return
	}
	if depth > 60 || s.nodes > 6000 {
		s.b.WriteString("...")
		return
	}
	t := v.Type()
	s.b.WriteString("T" + strconv.Itoa(typeNo(v)))
	if v.ExtType != 0 {
		s.b.WriteString("x" + strconv.Itoa(int(v.ExtType)))
	}
	switch t {
	case dx.VT_Object, dx.VT_Array:
		n := v.Count()
		s.b.WriteString("#" + strconv.Itoa(n) + "{")
		for i := 0; i < n; i++ {
			s.try("Items", func() {
				k, c := v.Items(i)
				if t == dx.VT_Object {
					s.b.WriteString(strconv.Quote(k))
					if k2 := v.KeyNameByIndex(i); k2 != k {
						s.b.WriteString("/" + strconv.Quote(k2))
					}
					s.b.WriteString(":")
				}
				if c2 := v.ValueByIndex(i); c2 != c {
					s.b.WriteString("<ValueByIndex differs>")
				}
				s.node(c, depth+1)
			})
			s.b.WriteString(",")
		}
		s.b.WriteString("}")
		s.try("Visit", func() {
			m := 0
			v.Visit(func(k string, c *dx.DxValue) bool { m++; return true })
			if m != n {
				s.b.WriteString("<Visit " + strconv.Itoa(m) + ">")
			}
		})
		// nothing else may shine through a container
		if bl := v.BinLen(); bl != 0 || len(v.Binary()) != 0 || v.BinExtType() != 0 {
			s.b.WriteString("<bin>")
		}
		s.try("scalars", func() {
			if v.Int() != 0 || v.Double() != 0 || v.Float() != 0 || v.Bool() {
				s.b.WriteString("<scalar>")
			}
		})
		return
	}
	if t == dx.VT_DateTime {
		rt.Count("probe:date")
	}
	s.try("scalars", func() {
		s.b.WriteString("(" + strconv.FormatInt(v.Int(), 10))
		s.b.WriteString(" " + strconv.FormatUint(math.Float64bits(v.Double()), 16))
		s.b.WriteString(" " + strconv.FormatUint(uint64(math.Float32bits(v.Float())), 16))
		if v.Bool() {
			s.b.WriteString(" t")
		}
		s.b.WriteString(" " + strconv.FormatUint(math.Float64bits(float64(v.DateTime())), 16))
		if d := v.Duration(7); d != 7 {
			s.b.WriteString(" d" + strconv.FormatInt(int64(d), 10))
		}
		s.b.WriteString(")")
	})
	switch t {
	case dx.VT_Int, dx.VT_Float, dx.VT_Double, dx.VT_DateTime, dx.VT_String, dx.VT_RawString:
		s.try("GoTime", func() {
			if g := v.GoTime(); !g.IsZero() {
				s.b.WriteString("g" + g.UTC().Format(time.RFC3339Nano))
			}
		})
	}
	s.try("String", func() { s.b.WriteString(strconv.Quote(v.String())) })
	if bl := v.BinLen(); bl != 0 || len(v.Binary()) != 0 || v.BinExtType() != 0 {
		s.b.WriteString("b" + strconv.Itoa(bl) + ":" + strconv.Itoa(int(v.BinExtType())) + ":" + hex.EncodeToString(v.Binary()))
	}
	if v.Count() != 0 {
		s.b.WriteString("<count>")
	}
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 40
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 80
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at byte %d: %q versus %q", i, cut(a), cut(b))
}
