package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"

	"verifsim/rt"
)

// ---------------------------------------------------------------- document trees

type tkind uint8

const (
	tNull tkind = iota
	tTrue
	tFalse
	tInt
	tDbl
	tStr
	tBin
	tExt
	tDate
	tObj
	tArr
	tNaN
)

type tnode struct {
	k    tkind
	i    int64
	f    float64
	s    string
	b    []byte
	ext  byte
	keys []string
	ch   []*tnode
}

type gen struct {
	r      *rt.Rand
	nextID int
	// document shape
	budget   int
	sticky   []string // keys that this plan prefers
	escapes  float64  // probability that a string has characters that JSON escapes
	dates    float64
	bins     float64
	itText   float64 // C27: share of texts that differ from repetition to repetition
	wildYaml bool    // aliases of anchors that are still open, undefined or defined twice
	wide     float64 // share of MsgPack texts in a longer form than necessary
	noJSON   bool    // no document is JSON
	hostile  bool    // array indexes in BSON are not always what they should be
	stamps   bool    // half of the integers in BSON are timestamps
	only     int     // 1+format of all documents; 0: any
	big      bool    // now and then many members or elements, and indexes to match
	hugeN    int     // how many of them are left
	huge     bool    // now and then very long texts and binaries, long arrays, deep nesting
	churn    bool    // one document decoded, used and released hundreds of times somewhere
	flat     bool    // documents are one wide object or array, and operations go there
}

func newGen(r *rt.Rand) *gen {
	g := &gen{r: r, nextID: 1, budget: 12, escapes: 0.25, dates: 0.08, bins: 0.15, wide: 0.08, big: r.P(0.06), huge: r.P(0.02)}
	if g.huge {
		g.hugeN = r.Range(1, 4)
	}
	if g.big || g.huge {
		g.flat = r.P(0.35)
	}
	g.churn = r.P(0.012)
	return g
}

var keyPool = []string{"a", "b", "c", "Name", "name", "Age", "k\"q", "A", "List", "F", "H", "Hb", "Sub", "x", "Key0", "Key1", "键", "t\\u", "line\nkey", "B", "Ok", "Names", "0", "1", "id", "Subs", "n/m"}

// oddKeys: keys that a careless comparison, case folding or number parsing confuses.
var oddKeys = [][]string{
	{"[x", "{x", "]", "}", "^a", "~a"}, {"@", "`", "a@", "a`"}, {"k_1", "k\x7f1", "K_1"}, {"É", "é", "È", "E", "ÉA"},
	{"Ж", "ж", "Ц", "ц"}, {"K", "k", "\u212a"}, {"ſ", "s", "S", "ss", "ß"}, {"a ", " a", "a", "A "}, {"İ", "i", "ı", "I"},
	{"0", "00", "+0", "-0", "0x0"}, {"1", "01", "+1", "1.0", "1e0", " 1", "-1"},
	{"18446744073709551616", "18446744073709551617", "4294967296", "4294967297", "9223372036854775808", "99999999999999999999", "0", "1"},
	{"aa", "ab", "aA", "Aa", "AB", "a"}, {"", " ", "a"}, {"ab/c", "ab", "c", "a"}, {"Aa", "BB", "AaAa", "BBBB", "AaBB"},
	{"null", "true", "Null", "nil"}, {"%41", "A", "%", "%4", "50%20x"}, {"a.b", "a", "b"}, {"éa", "éb", "e\u0301", "é"},
}

func (g *gen) key() string {
	if len(g.sticky) > 0 && g.r.P(0.7) {
		return g.sticky[g.r.N(len(g.sticky))]
	}
	if g.flat && g.r.P(0.75) {
		return "key" + strconv.Itoa(g.r.N(70))
	}
	if g.r.P(0.03) { // keys of every length class of the binary formats
		n := []int{31, 32, 33, 40, 64, 200, 255, 256, 300}[g.r.N(9)]
		return strings.Repeat(string(rune('a'+g.r.N(3))), n)
	}
	if g.r.P(0.06) || g.big && g.r.P(0.4) {
		return "key" + strconv.Itoa(g.r.N(40))
	}
	if g.r.P(0.03) {
		ks := oddKeys[g.r.N(len(oddKeys))]
		return ks[g.r.N(len(ks))]
	}
	return keyPool[g.r.N(len(keyPool))]
}

var words = []string{"alpha", "beta", "x", "true", "false", "12", "3.5", "-7", "1h30m", "hello world", "2021-03-04 05:06:07", "2020-12-31T23:59:59Z", "2019/01/02 03:04:05", "z", "Ünïcödé", "中文字", "日", "😀", "nan", "null", "ab cd", "0", "k", "50%20off", "%41", "100%"}

// times: texts that some date or time notation could claim.
var times = []string{"2021-03-04 05:06:07", "2020-12-31T23:59:59Z", "2020-12-31T23:59:59.123Z", "2020-12-31T23:59:59+08:00", "2020-12-31T23:59:59.5-07:00", "2019/01/02 03:04:05", "2019/1/2 3:4:5", "2019-1-2", "2019-01-02", "2019/01/02", "20190102", "20190102030405", "03:04:05", "3:04", "23:59", "23:59:59.999", "11:30 PM", "3:04PM", "01-02 15:04:05", "01/02", "12-31", "Jan 2", "Jan 2 15:04:05", "02 Jan 06 15:04 MST", "Mon Jan  2 15:04:05 2006", "Mon, 02 Jan 2006 15:04:05 GMT", "Monday", "2006", "2021-03", "2021-W10", "1616161616", "1616161616161", "1616161616.5", "now", "NOW", "Now()", "today", "Today", "yesterday", "tomorrow", "+1h", "-30m", "90s", "1h30m", "1.5h", "1 day ago", "date", "/Date(0)/", "/Date(1616161616161)/", "/Date(1616161616161+0800)/", "Date(1616161616161)", "/Date(-62135596800000)/", "/Date()/", "/Date(now)/", "5:06", "2021-03-04 05:06", "2021-03-04T05:06", "0000-00-00 00:00:00", "12/25/2020", "25.12.2020", "2021年3月4日"}

func (g *gen) str() string {
	r := g.r
	if r.P(g.dates) {
		return times[r.N(len(times))]
	}
	if g.hugeN > 0 && r.P(0.1) {
		return strings.Repeat(string(rune('a'+r.N(26))), g.hugeLen())
	}
	switch r.N(14) {
	case 0:
		return ""
	case 1:
		n := []int{31, 32, 33, 63, 255, 256, 300}[r.N(7)]
		return strings.Repeat(string(rune('a'+r.N(26))), n)
	case 2:
		b := make([]byte, r.N(40))
		for i := range b {
			b[i] = byte('a' + r.N(26))
		}
		return string(b)
	}
	if r.P(g.itText) {
		return []string{itMark, itMark, itMark, "2021-03-04T" + itTime + "Z", "2021-03-04 " + itTime, "2021/03/04 " + itTime}[r.N(6)]
	}
	s := words[r.N(len(words))]
	if r.P(0.4) {
		s += strconv.Itoa(r.N(1000))
	}
	if r.P(g.escapes) {
		esc := []string{"\"", "\\", "\n", "\t", "/", "\r", "\b", "\f", "\x01", "é", "中", "\u2028", "\\n", "\\\"", "\\\\"}
		k := r.Range(1, 3)
		for i := 0; i < k; i++ {
			p := r.N(len(s) + 1)
			s = s[:p] + esc[r.N(len(esc))] + s[p:]
		}
	}
	return s
}

// hugeLen: around the limits of the length classes of the formats and of usual buffer sizes.
func (g *gen) hugeLen() int {
	r := g.r
	g.hugeN--
	if r.P(0.5) || g.hugeN > 0 {
		return []int{512, 1000, 1024, 2048, 4096, 8192}[r.N(6)] + r.N(5) - 2
	}
	return []int{16384, 32768, 65536, 65536, 70000}[r.N(5)] + r.N(5) - 2
}

func (g *gen) bin() []byte {
	r := g.r
	if g.hugeN > 0 && r.P(0.2) {
		return bytes.Repeat([]byte{byte(r.U64()), byte(r.U64())}, g.hugeLen()/2)
	}
	n := []int{0, 1, 2, 3, 4, 5, 8, 11, 12, 13, 16, 17, 31, 32, 60, 255, 256, 300}[r.N(18)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

func (g *gen) int() int64 {
	r := g.r
	switch r.N(8) {
	case 0:
		return int64(r.N(128))
	case 1:
		return -int64(r.N(40))
	case 2:
		return int64(r.N(70000))
	case 3:
		return int64(r.U64() >> 1)
	case 4:
		return -int64(r.U64() >> 2)
	case 5:
		return int64(uint32(r.U64()))
	case 6:
		return []int64{0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, -32, -33}[r.N(19)]
	}
	return int64(r.N(10))
}

func (g *gen) flt() float64 {
	r := g.r
	switch r.N(4) {
	case 0:
		return float64(r.N(2000)-1000) / 8
	case 1:
		return float64(r.N(1000000)) / 1000
	case 2:
		return []float64{0, -0.5, 1e10, 1e-7, 123456.789, -1}[r.N(6)]
	}
	return float64(r.N(100))
}

func (g *gen) scalar() *tnode {
	r := g.r
	if r.P(g.dates) {
		return &tnode{k: tDate, i: int64(r.N(4_000_000_000))}
	}
	if r.P(g.bins) {
		if r.P(0.35) {
			return &tnode{k: tExt, ext: byte(r.N(120)), b: g.bin()}
		}
		return &tnode{k: tBin, b: g.bin()}
	}
	switch r.N(10) {
	case 0:
		return &tnode{k: tNull}
	case 1:
		return &tnode{k: tTrue}
	case 2:
		return &tnode{k: tFalse}
	case 3, 4:
		return &tnode{k: tInt, i: g.int()}
	case 5:
		return &tnode{k: tDbl, f: g.flt()}
	case 6:
		if r.P(0.1) {
			return &tnode{k: tNaN, i: int64(r.N(2))}
		}
	}
	return &tnode{k: tStr, s: g.str()}
}

func (g *gen) tree(depth int) *tnode {
	r := g.r
	g.budget--
	if depth > 0 && (g.budget <= 0 || depth > 6 || r.P(0.5)) {
		return g.scalar()
	}
	if g.huge && depth == 0 && r.P(0.25) {
		if r.P(0.3) {
			return g.chain(r.Range(51, 150))
		}
		return g.chain(r.Range(8, 50))
	}
	n := r.N(5)
	if r.P(0.06) {
		n = r.Range(6, 20)
	}
	if g.huge && depth <= 1 && r.P(0.2) {
		n = r.Range(70, 300)
		g.budget = r.N(10)
	}
	if g.big && depth <= 1 && r.P(0.4) {
		n = r.Range(16, 70)
		g.budget = r.N(20)
	}
	if g.flat && depth == 0 && r.P(0.8) {
		n = r.Range(25, 90)
		g.budget = r.N(10)
	}
	child := func() *tnode { return g.tree(depth + 1) }
	if r.P(0.05) || n > 8 && r.P(0.4) { // all of them alike
		c := r.N(8)
		child = func() *tnode { return g.likeScalar(c) }
	}
	if r.P(0.55) || depth == 0 && !g.flat && r.P(0.5) {
		t := &tnode{k: tObj}
		for i := 0; i < n; i++ {
			k := g.key()
			if n > 8 {
				k = fmt.Sprint("key", i)
			}
			dup := false
			for _, o := range t.keys {
				if o == k {
					dup = true
				}
			}
			if dup && (len(g.sticky) > 0 && g.r.P(0.8) || !r.P(0.1)) {
				continue
			}
			t.keys = append(t.keys, k)
			t.ch = append(t.ch, child())
		}
		return t
	}
	t := &tnode{k: tArr}
	for i := 0; i < n; i++ {
		t.ch = append(t.ch, child())
	}
	return t
}

// likeScalar: scalars of class c.
func (g *gen) likeScalar(c int) *tnode {
	switch c {
	case 0:
		return &tnode{k: tInt, i: g.int()}
	case 1:
		return &tnode{k: tDbl, f: g.flt()}
	case 2:
		if g.r.P(0.5) {
			return &tnode{k: tDbl, f: g.flt()}
		}
		return &tnode{k: tInt, i: int64(g.r.N(200) - 60)}
	case 3:
		return &tnode{k: []tkind{tTrue, tFalse}[g.r.N(2)]}
	case 4:
		return &tnode{k: tDate, i: int64(g.r.N(4_000_000_000))}
	case 5:
		return &tnode{k: tStr, s: words[g.r.N(len(words))]}
	case 6:
		return &tnode{k: tInt, i: int64(g.r.N(100))}
	}
	return &tnode{k: tStr, s: g.str()}
}

// chain: n levels of nesting.
func (g *gen) chain(n int) *tnode {
	r := g.r
	t := &tnode{k: tObj}
	if r.P(0.4) {
		t.k = tArr
	}
	for i, at, m := 0, r.N(2), r.Range(1, 2); i < m; i++ {
		c := g.scalar()
		if n > 0 && i == at%m {
			c = g.chain(n - 1)
		}
		if t.k == tObj {
			t.keys = append(t.keys, fmt.Sprint(keyPool[r.N(6)], i))
		}
		t.ch = append(t.ch, c)
	}
	return t
}

func (g *gen) size() {
	switch g.r.N(10) {
	case 0:
		g.budget = 1
	case 1:
		g.budget = 40
	case 2:
		g.budget = 90
	default:
		g.budget = g.r.Range(3, 18)
	}
}

// ---------------------------------------------------------------- renderers

func (g *gen) ws(b []byte) []byte {
	if g.r.P(0.15) {
		return append(b, " \n\t\r"[g.r.N(4)])
	}
	return b
}

func (g *gen) jstr(b []byte, s string) []byte {
	r := g.r
	b = append(b, '"')
	for _, c := range s {
		switch {
		case c == '"':
			b = append(b, '\\', '"')
		case c == '\\':
			b = append(b, '\\', '\\')
		case c == '\n':
			b = append(b, '\\', 'n')
		case c == '\t':
			b = append(b, '\\', 't')
		case c == '\r':
			b = append(b, '\\', 'r')
		case c == '\b':
			b = append(b, '\\', 'b')
		case c == '\f':
			b = append(b, '\\', 'f')
		case c < 0x20 || c > 127 && c < 0x10000 && r.P(0.3) || c < 128 && g.escapes > 0.05 && r.P(0.01):
			b = append(b, fmt.Sprintf("\\u%04x", c)...)
		case c == '/' && r.P(0.3):
			b = append(b, '\\', '/')
		default:
			b = append(b, string(c)...)
		}
	}
	return append(b, '"')
}

func (g *gen) json(b []byte, t *tnode) []byte {
	r := g.r
	switch t.k {
	case tNull:
		return append(b, "null"...)
	case tTrue:
		return append(b, "true"...)
	case tFalse:
		return append(b, "false"...)
	case tNaN:
		return append(b, []string{"nan", "inf"}[t.i%2]...)
	case tInt:
		return strconv.AppendInt(b, t.i, 10)
	case tDbl:
		if r.P(0.1) {
			return strconv.AppendFloat(b, t.f, 'e', -1, 64)
		}
		return strconv.AppendFloat(b, t.f, 'f', -1, 64)
	case tStr:
		return g.jstr(b, t.s)
	case tBin, tExt:
		return g.jstr(b, fmt.Sprintf("%x", t.b))
	case tDate:
		if r.P(0.7) {
			if r.P(0.2) {
				return g.jstr(b, times[r.N(len(times))])
			}
			f := []string{"\"/Date(%d)/\"", "\"/Date(%d+0800)/\"", "\"\\/Date(%d)\\/\"", "\"Date(%d)\""}[r.N(4)]
			return append(b, fmt.Sprintf(f, t.i*1000+int64(r.N(1000)))...)
		}
		return append(b, fmt.Sprintf("\"20%02d-%02d-%02d %02d:%02d:%02d\"", r.N(60), r.Range(1, 12), r.Range(1, 28), r.N(24), r.N(60), r.N(60))...)
	case tObj:
		b = append(b, '{')
		for i, c := range t.ch {
			if i > 0 {
				b = append(b, ',')
			}
			b = g.ws(b)
			b = g.jstr(b, t.keys[i])
			b = g.ws(b)
			b = append(b, ':')
			b = g.ws(b)
			b = g.json(b, c)
			b = g.ws(b)
		}
		return append(b, '}')
	}
	b = append(b, '[')
	for i, c := range t.ch {
		if i > 0 {
			b = append(b, ',')
		}
		b = g.ws(b)
		b = g.json(b, c)
		b = g.ws(b)
	}
	return append(b, ']')
}

func (g *gen) mpStr(b []byte, s string) []byte {
	n := len(s)
	if n < 256 && g.r.P(g.wide) { // a longer form than necessary
		switch g.r.N(3) {
		case 0:
			b = append(b, 0xd9, byte(n))
		case 1:
			b = append(b, 0xda, 0, byte(n))
		case 2:
			b = append(b, 0xdb, 0, 0, 0, byte(n))
		}
		return append(b, s...)
	}
	switch {
	case n < 32:
		b = append(b, 0xa0|byte(n))
	case n < 256:
		b = append(b, 0xd9, byte(n))
	case n < 65536:
		b = append(b, 0xda, byte(n>>8), byte(n))
	default:
		b = append(b, 0xdb, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	return append(b, s...)
}

func (g *gen) msgpack(b []byte, t *tnode) []byte {
	r := g.r
	be := binary.BigEndian
	switch t.k {
	case tNull, tNaN:
		return append(b, 0xc0)
	case tTrue:
		return append(b, 0xc3)
	case tFalse:
		return append(b, 0xc2)
	case tInt:
		v := t.i
		switch {
		case r.P(0.05):
			b = append(b, 0xd3)
			return be.AppendUint64(b, uint64(v))
		case v >= 0 && v < 128 || v < 0 && v >= -32:
			return append(b, byte(v))
		case v >= 0 && v < 256:
			return append(b, 0xcc, byte(v))
		case v >= -128 && v < 128:
			return append(b, 0xd0, byte(v))
		case v >= 0 && v < 65536:
			return be.AppendUint16(append(b, 0xcd), uint16(v))
		case v >= -32768 && v < 32768:
			return be.AppendUint16(append(b, 0xd1), uint16(v))
		case v >= 0 && v <= math.MaxUint32:
			return be.AppendUint32(append(b, 0xce), uint32(v))
		case v >= math.MinInt32 && v < 0:
			return be.AppendUint32(append(b, 0xd2), uint32(v))
		case v >= 0:
			return be.AppendUint64(append(b, 0xcf), uint64(v))
		}
		return be.AppendUint64(append(b, 0xd3), uint64(v))
	case tDbl:
		if r.P(0.4) {
			return be.AppendUint32(append(b, 0xca), math.Float32bits(float32(t.f)))
		}
		return be.AppendUint64(append(b, 0xcb), math.Float64bits(t.f))
	case tStr:
		return g.mpStr(b, t.s)
	case tBin:
		n := len(t.b)
		if n < 256 && r.P(0.8) {
			b = append(b, 0xc4, byte(n))
		} else if n < 65536 && r.P(0.8) {
			b = append(b, 0xc5, byte(n>>8), byte(n))
		} else {
			b = be.AppendUint32(append(b, 0xc6), uint32(n))
		}
		return append(b, t.b...)
	case tExt:
		switch n := len(t.b); n {
		case 1, 2, 4, 8, 16:
			b = append(b, map[int]byte{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}[n], t.ext)
		default:
			if n < 256 {
				b = append(b, 0xc7, byte(n), t.ext)
			} else if n < 65536 {
				b = append(b, 0xc8, byte(n>>8), byte(n), t.ext)
			} else {
				b = append(be.AppendUint32(append(b, 0xc9), uint32(n)), t.ext)
			}
		}
		return append(b, t.b...)
	case tDate:
		switch r.N(3) {
		case 0:
			return be.AppendUint32(append(b, 0xd6, 0xff), uint32(t.i))
		case 1:
			return be.AppendUint64(append(b, 0xd7, 0xff), uint64(r.N(999))*1_000_000<<34|uint64(t.i))
		}
		b = be.AppendUint32(append(b, 0xc7, 12, 0xff), uint32(r.N(999))*1_000_000)
		return be.AppendUint64(b, uint64(t.i))
	case tObj:
		n := len(t.ch)
		if n < 16 && r.P(0.9) {
			b = append(b, 0x80|byte(n))
		} else if r.P(0.8) {
			b = append(b, 0xde, byte(n>>8), byte(n))
		} else {
			b = be.AppendUint32(append(b, 0xdf), uint32(n))
		}
		for i, c := range t.ch {
			b = g.mpStr(b, t.keys[i])
			b = g.msgpack(b, c)
		}
		return b
	}
	n := len(t.ch)
	if n < 16 && r.P(0.9) {
		b = append(b, 0x90|byte(n))
	} else if r.P(0.8) {
		b = append(b, 0xdc, byte(n>>8), byte(n))
	} else {
		b = be.AppendUint32(append(b, 0xdd), uint32(n))
	}
	for _, c := range t.ch {
		b = g.msgpack(b, c)
	}
	return b
}

var hostileIdx = []string{"7", "99", "40000", "3000000", "99999999", "2147483647", "2147483648", "9223372036854775807", "18446744073709551616", "-1", "-2", "-9999999", "01", "+1", " 1", "1 ", "1e7", "0x7fffff", "", "0", "0.5", "a"}

func (g *gen) bson(b []byte, t *tnode) []byte {
	start := len(b)
	b = append(b, 0, 0, 0, 0)
	for i, c := range t.ch {
		k := strconv.Itoa(i)
		if t.k == tObj {
			k = t.keys[i]
		} else if g.hostile && g.r.P(0.3) {
			k = hostileIdx[g.r.N(len(hostileIdx))]
		}
		b = g.bsonElem(b, k, c)
	}
	b = append(b, 0)
	binary.LittleEndian.PutUint32(b[start:], uint32(len(b)-start))
	return b
}

func (g *gen) bsonElem(b []byte, k string, t *tnode) []byte {
	r := g.r
	le := binary.LittleEndian
	head := func(tp byte) { b = append(append(append(b, tp), k...), 0) }
	switch t.k {
	case tNull, tNaN:
		if r.P(0.2) {
			head([]byte{0x06, 0xff, 0x7f}[r.N(3)])
		} else {
			head(0x0a)
		}
	case tTrue, tFalse:
		head(0x08)
		v := byte(0)
		if t.k == tTrue {
			v = 1
		}
		b = append(b, v)
	case tInt:
		if g.stamps && r.P(0.5) {
			head(0x11)
			return le.AppendUint64(b, uint64(t.i))
		}
		if t.i >= 0 && t.i <= math.MaxInt32 {
			head(0x10)
			return le.AppendUint32(b, uint32(t.i))
		}
		if r.P(0.1) {
			head(0x11) // timestamp
		} else {
			head(0x12)
		}
		b = le.AppendUint64(b, uint64(t.i))
	case tDbl:
		head(0x01)
		b = le.AppendUint64(b, math.Float64bits(t.f))
	case tStr:
		head(0x02)
		b = le.AppendUint32(b, uint32(len(t.s)+1))
		b = append(append(b, t.s...), 0)
	case tBin, tExt:
		switch {
		case len(t.b) == 12:
			head(0x07)
			return append(b, t.b...)
		case len(t.b) == 16:
			head(0x13)
			return append(b, t.b...)
		}
		head(0x05)
		if t.k == tExt {
			b = le.AppendUint32(b, uint32(len(t.b)))
			st := []byte{0, 1, 3, 4, 5, 0x80}[r.N(6)]
			b = append(append(b, st), t.b...)
		} else {
			b = le.AppendUint32(b, uint32(len(t.b)+4))
			b = append(b, 2)
			b = le.AppendUint32(b, uint32(len(t.b)))
			b = append(b, t.b...)
		}
	case tDate:
		head(0x09)
		b = le.AppendUint64(b, uint64(t.i*1000+int64(r.N(1000))))
	case tObj:
		head(0x03)
		b = g.bson(b, t)
	case tArr:
		head(0x04)
		b = g.bson(b, t)
	}
	return b
}

func (g *gen) yscalar(t *tnode) string {
	switch t.k {
	case tNull, tNaN:
		return "null"
	case tTrue:
		return "true"
	case tFalse:
		return "false"
	case tInt:
		return strconv.FormatInt(t.i, 10)
	case tDbl:
		return strconv.FormatFloat(t.f, 'f', -1, 64)
	case tDate:
		return times[int(t.i)%len(times)]
	}
	if t.k == tStr && strings.ContainsAny(t.s, "0123456789") && !strings.ContainsAny(t.s, "#%\n") && !strings.Contains(t.s, ": ") && !strings.HasSuffix(t.s, ":") && strings.TrimSpace(t.s) != "" && t.s[0] >= '0' && t.s[0] <= '9' {
		return t.s
	}
	s := strings.Map(func(c rune) rune {
		if c < 0x20 || c == ':' || c == '#' || c == '%' {
			return '_'
		}
		return c
	}, t.s)
	if strings.TrimSpace(s) == "" {
		return "empty"
	}
	return s
}

func ykey(k string) string {
	return strings.Map(func(c rune) rune {
		if c < 0x20 || c == ':' || c == '#' {
			return '_'
		}
		return c
	}, k)
}

type yctx struct {
	b       []byte
	anchors []string
	aliases int
	nl      string
	open    []string
}

// alias picks the name of an alias.
func (g *gen) alias(y *yctx) string {
	r := g.r
	if g.wildYaml {
		switch {
		case len(y.open) > 0 && r.P(0.4):
			return y.open[r.N(len(y.open))]
		case r.P(0.15):
			return fmt.Sprint("an", r.N(4))
		}
	}
	if len(y.anchors) == 0 {
		return "an0"
	}
	return y.anchors[r.N(len(y.anchors))]
}

func (g *gen) aliasOK(y *yctx) bool {
	return y.aliases < 3 && (len(y.anchors) > 0 || g.wildYaml && (len(y.open) > 0 || g.r.P(0.1)))
}

func (g *gen) yaml(t *tnode) []byte {
	y := &yctx{nl: "\n"}
	if g.r.P(0.15) {
		y.nl = "\r\n"
	}
	if g.r.P(0.1) {
		y.b = append(y.b, "# comment"+y.nl...)
	}
	g.yblock(y, t, 0)
	if g.r.P(0.2) && len(y.b) > 0 {
		y.b = y.b[:len(y.b)-1]
	}
	return y.b
}

func (g *gen) yblock(y *yctx, t *tnode, ind int) {
	r := g.r
	sp := strings.Repeat(" ", ind)
	for i, c := range t.ch {
		if r.P(0.05) {
			y.b = append(y.b, sp+"# note"+y.nl...)
		}
		if r.P(0.03) {
			y.b = append(y.b, y.nl...)
		}
		head := sp + "- "
		if t.k == tObj {
			head = sp + ykey(t.keys[i]) + ": "
		}
		if c.k == tObj || c.k == tArr {
			if len(c.ch) == 0 {
				y.b = append(y.b, head+"none"+y.nl...)
				continue
			}
			if t.k == tArr {
				if c.k == tObj && len(c.ch[0].ch) > 0 && r.P(0.5) { // - key: and a block of its own
					y.b = append(y.b, head+ykey(c.keys[0])+":"+y.nl...)
					g.yblock(y, c.ch[0], ind+4)
					if len(c.ch) > 1 {
						g.yblock(y, &tnode{k: tObj, keys: c.keys[1:], ch: c.ch[1:]}, ind+2)
					}
				} else if c.k == tObj && c.ch[0].k < tObj { // - key: value
					y.b = append(y.b, head+ykey(c.keys[0])+": "+g.yscalar(c.ch[0])+y.nl...)
					if len(c.ch) > 1 {
						g.yblock(y, &tnode{k: tObj, keys: c.keys[1:], ch: c.ch[1:]}, ind+2)
					}
				} else {
					y.b = append(y.b, sp+"-"+y.nl...)
					g.yblock(y, c, ind+2)
				}
				continue
			}
			if r.P(0.15) && len(y.anchors)+len(y.open) < 3 {
				a := fmt.Sprint("an", len(y.anchors)+len(y.open))
				if r.P(g.itText) {
					a += itMark
				}
				y.b = append(y.b, head+"&"+a+y.nl...)
				y.open = append(y.open, a)
				g.yblock(y, c, ind+2)
				y.open = y.open[:len(y.open)-1]
				y.anchors = append(y.anchors, a)
				continue
			}
			y.b = append(y.b, strings.TrimRight(head, " ")+y.nl...)
			if c.k == tObj && g.aliasOK(y) && r.P(0.4) {
				y.aliases++
				y.b = append(y.b, sp+"  <<: *"+g.alias(y)+y.nl...)
			}
			g.yblock(y, c, ind+2)
			continue
		}
		v := g.yscalar(c)
		if r.P(0.05) && len(y.anchors) < 3 {
			a := fmt.Sprint("an", len(y.anchors))
			if r.P(g.itText) {
				a += itMark
			}
			if r.P(0.1) { // an anchor of an anchor is a text
				v = "&b " + v
			}
			v = "&" + a + " " + v
			y.anchors = append(y.anchors, a)
		} else if g.aliasOK(y) && r.P(0.1) {
			y.aliases++
			v = "*" + g.alias(y)
		}
		if r.P(0.04) {
			v += " # c"
		}
		y.b = append(y.b, head+v+y.nl...)
		if c.k == tStr && r.P(0.04) {
			y.b = append(y.b, sp+"    "+[]string{"more text", ": more", "- more", "a: more"}[r.N(4)]+y.nl...)
		}
	}
}

// doc renders a random document in format f.
func (g *gen) doc(f int) []byte {
	g.size()
	return g.docOf(f, g.rootTree(f))
}

func (g *gen) rootTree(f int) *tnode {
	var t *tnode
	for {
		t = g.tree(0)
		if f == fJSON && g.r.P(0.06) || f == fMsgPack && g.r.P(0.12) {
			t = g.scalar()
		}
		if f == fBson && t.k != tObj {
			t = &tnode{k: tObj, keys: []string{g.key()}, ch: []*tnode{t}}
		}
		if f == fYaml && len(t.ch) == 0 {
			g.size()
			continue
		}
		return t
	}
}

func (g *gen) docOf(f int, t *tnode) []byte {
	switch f {
	case fJSON:
		b := g.json(nil, t)
		return b
	case fMsgPack:
		return g.msgpack(nil, t)
	case fBson:
		return g.bson(nil, t)
	}
	return g.yaml(t)
}

// ---------------------------------------------------------------- damage

var damageKinds = []string{"flip", "byte", "cut", "drop", "insert", "dup", "splice", "length", "token", "swap"}

var tokens = []string{"{", "}", "[", "]", "\"", "\\", ":", ",", "\\\"", "\\u", "\\u12", "-", "&", "*", "<<", "<<: *", ": ", "\n", "\r\n", "  ", " ", "- ", "-", "#", " #", "nan", "inf", "nul", "tru", "fals", "1e", "-", "+", ".", "\x00", "\xff", "\xc1", "\xd6\xff", "\xc7\xff", "\xdf\xff\xff\xff\xff", "\xdd\xff\xff\xff\xff", "\xdb\xff\xff\xff\xff", "\xc6\xff\xff\xff\xff", "\xc9\xff\xff\xff\xff", "\xff\xff\xff\x7f", "\xff\xff\xff\xff", "\x00\x00\x00\x00", "\x04", "\x03", "\x05", "/Date(", ")/", "\"/Date(-", "&a", "*a", "k:", ":", "\xc7\x00\xff", "\xc7\x03\xff", "\xc8\x00\x0c\xff", "\xd4\xff", "\x80", "\x90", "\xde", "\xdc"}

// damage applies 1..n storage/transport faults to a copy of b.
func (g *gen) damage(b []byte, other []byte, kinds map[string]int) []byte {
	r := g.r
	b = append([]byte(nil), b...)
	n := 1
	if r.P(0.3) {
		n = r.Range(2, 5)
	}
	for i := 0; i < n; i++ {
		k := damageKinds[r.N(len(damageKinds))]
		if len(b) == 0 && k != "insert" && k != "token" {
			k = "insert"
		}
		if kinds != nil {
			kinds[k]++
		}
		switch k {
		case "flip":
			b[r.N(len(b))] ^= 1 << r.N(8)
		case "byte":
			b[r.N(len(b))] = byte(r.U64())
		case "cut":
			b = b[:r.N(len(b))]
		case "drop":
			p := r.N(len(b))
			q := p + 1 + r.N(4)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:p], b[q:]...)
		case "insert":
			p := r.N(len(b) + 1)
			ins := make([]byte, 1+r.N(3))
			for j := range ins {
				ins[j] = byte(r.U64())
			}
			b = append(b[:p:p], append(ins, b[p:]...)...)
		case "dup":
			p := r.N(len(b))
			q := p + 1 + r.N(8)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:q:q], b[p:]...)
		case "splice":
			if len(other) > 0 {
				b = append(b[:r.N(len(b)):len(b)], other[r.N(len(other)):]...)
			}
		case "length":
			// overwrite 1, 2 or 4 bytes by an extreme or off-by-one number
			p := r.N(len(b))
			w := []int{1, 2, 4}[r.N(3)]
			mode := r.N(5)
			for j := 0; j < w && p+j < len(b); j++ {
				switch mode {
				case 0:
					b[p+j] = 0xff
				case 1:
					b[p+j] = 0
				case 2:
					b[p+j]++
					j = w
				case 3:
					b[p+j]--
					j = w
				case 4:
					b[p+j] = 0x7f
				}
			}
		case "token":
			p := r.N(len(b) + 1)
			t := tokens[r.N(len(tokens))]
			q := p
			if r.P(0.5) {
				q = p + len(t)
				if q > len(b) {
					q = len(b)
				}
			}
			b = append(b[:p:p], append([]byte(t), b[q:]...)...)
		case "swap":
			p, q := r.N(len(b)), r.N(len(b))
			b[p], b[q] = b[q], b[p]
		}
	}
	if len(b) > 4000 {
		b = b[:4000]
	}
	return b
}

// ---------------------------------------------------------------- programs

type prof struct {
	slots  []int // slots the program may use
	share  bool  // decodes may share their buffer
	damage float64
	cached float64
	w      map[string]int
	kinds  []string
	total  int
}

func mkProf(slots []int, w map[string]int) *prof {
	p := &prof{slots: slots, w: w, cached: 0.7}
	for _, k := range opOrder {
		if w[k] > 0 {
			p.kinds = append(p.kinds, k)
			p.total += w[k]
		}
	}
	for k := range w {
		ok := false
		for _, o := range opOrder {
			ok = ok || o == k
		}
		if !ok {
			panic("unknown op " + k)
		}
	}
	return p
}

var opOrder = []string{"new", "newfrom", "dec", "load", "unmarshal", "free", "drop", "clear", "reset", "setint", "setstr", "setdbl", "setflt", "setbool", "settime", "setdelphi", "setbin", "setext", "setval", "setkey", "setkeyc", "setidx", "setidxc", "insert", "append", "keyscalar", "idxscalar", "force", "sweep", "attach", "attachconst", "remkey", "remidx", "extract", "clone", "copyfrom", "addfrom", "setvalv", "merge", "snap", "snapenc", "enc", "read", "lookall", "visits", "equal", "tostd", "scribble", "cb", "look", "peek"}

func with(m map[string]int, kv ...any) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		r[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		r[kv[i].(string)] = kv[i+1].(int)
	}
	return r
}

var wMutate = map[string]int{"clear": 2, "reset": 2, "setint": 2, "setstr": 2, "setdbl": 1, "setflt": 1, "setbool": 1, "settime": 1, "setdelphi": 1, "setbin": 2, "setext": 1, "setval": 3, "setkey": 3, "setkeyc": 3, "setidx": 2, "setidxc": 2, "insert": 2, "append": 2, "keyscalar": 5, "idxscalar": 3, "force": 2, "sweep": 1, "attachconst": 1, "remkey": 2, "remidx": 1, "extract": 1, "load": 4, "unmarshal": 1}
var wCreate = map[string]int{"new": 3, "newfrom": 3, "dec": 8}
var wCombine = map[string]int{"attach": 2, "clone": 2, "copyfrom": 2, "addfrom": 1, "setvalv": 1, "merge": 2}
var wRead = map[string]int{"snap": 3, "snapenc": 2, "enc": 4, "read": 6, "lookall": 2, "visits": 1, "equal": 1, "tostd": 3}
var wRelease = map[string]int{"free": 5, "drop": 1}

func wAll(ms ...map[string]int) map[string]int {
	r := map[string]int{}
	for _, m := range ms {
		for k, v := range m {
			r[k] += v
		}
	}
	return r
}

// through: what is written through the node that a call returns; 0: nothing.
func (g *gen) through() float64 {
	if g.r.P(0.75) {
		return 0
	}
	return float64(g.r.Range(1, 400))
}

// idx is an index from -low on, most often below n.
func (g *gen) idx(n, low int) int64 {
	if g.flat && g.r.P(0.7) {
		return int64(g.r.N(75))
	}
	if g.big && g.r.P(0.4) {
		return int64(g.r.N(48))
	}
	return int64(g.r.N(n) - low)
}

func (g *gen) id() int { g.nextID++; return g.nextID - 1 }

func (g *gen) path(max int) []int {
	n := g.r.N(max + 1)
	var p []int
	for i := 0; i < n; i++ {
		p = append(p, int(g.idx(7, 0)))
	}
	return p
}

func (g *gen) fmtX(pr *prof) int {
	x := []int{fJSON, fJSON, fMsgPack, fBson, fYaml, fMsgPack}[g.r.N(6)]
	if g.only > 0 {
		x = g.only - 1
	}
	if g.noJSON && x == fJSON {
		x = fMsgPack
	}
	if g.r.P(pr.cached) {
		x |= 4
	}
	if pr.share && g.r.P(0.4) {
		x |= 8
	}
	return x
}

func (g *gen) anyDoc(x int, pr *prof) []byte {
	d := g.doc(x & 3)
	if g.r.P(pr.damage) {
		d = g.damage(d, g.doc(x&3), nil)
	}
	return d
}

func (g *gen) goStr() string { return strings.ReplaceAll(g.str(), "%", "_") }

func (g *gen) op(k string, pr *prof) Op {
	r := g.r
	sl := func() int { return pr.slots[r.N(len(pr.slots))] }
	o := Op{ID: g.id(), K: k, A: sl()}
	switch k {
	case "new":
		o.X = r.N(120)
		if r.P(0.6) {
			o.X = 15 + []int{0, 1}[r.N(2)]
		}
	case "dec":
		o.X = g.fmtX(pr)
		o.D = g.anyDoc(o.X, pr)
	case "load":
		o.X = g.fmtX(pr)
		o.D = g.anyDoc(o.X, pr)
		if r.P(0.4) {
			o.P = g.path(2)
		}
	case "unmarshal":
		o.D = g.anyDoc([]int{fJSON, fMsgPack}[r.N(2)], pr)
	case "free", "drop":
	default:
		o.P = g.path(3)
		if r.P(0.45) || g.flat && r.P(0.8) {
			o.P = nil
		}
	}
	switch k {
	case "newfrom", "setval":
		o.F, o.I, o.S, o.D, o.B = float64(r.N(nStd)), int64(r.N(1000)), g.goStr(), g.bin(), r.N(2)
	case "reset":
		o.X = r.N(15)
	case "setint":
		o.I = g.int()
	case "setstr":
		o.S = g.goStr()
	case "setdbl", "setflt":
		o.F = g.flt()
	case "setbool":
		o.X = r.N(2)
	case "settime", "setdelphi":
		o.I = int64(r.N(2_000_000_000))
	case "setbin":
		o.D, o.X = g.bin(), r.N(2)
	case "setext":
		o.X = r.N(256)
	case "setkey", "setkeyc":
		o.N, o.X, o.I = g.key(), r.N(15), int64(r.N(2))
		o.F = g.through()
	case "setidx", "setidxc", "insert":
		o.I, o.X = g.idx(8, 2), r.N(15)
		o.F = g.through()
	case "append":
		o.X = r.N(15)
		o.F = g.through()
	case "keyscalar":
		o.N, o.X, o.I, o.S, o.F, o.D = g.key(), r.N(7), g.int(), g.goStr(), g.flt(), g.bin()
		if o.X == 6 {
			o.F = float64(r.N(nStd))
			o.I = int64(r.N(1000))
		}
	case "idxscalar":
		o.B, o.X, o.I, o.S, o.F, o.D = int(g.idx(8, 2)), r.N(7), g.int(), g.goStr(), g.flt(), g.bin()
		if o.X == 6 {
			o.F = float64(r.N(nStd))
			o.I = int64(r.N(1000))
		}
	case "force":
		n := r.Range(1, 3)
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, strings.ReplaceAll(g.key(), "/", ""))
		}
		o.N, o.X = strings.Join(ps, "/"), r.N(15)
		o.F = g.through()
	case "sweep":
		o.X, o.I, o.S, o.F = r.N(16), int64(r.N(1000)), g.goStr(), g.flt()
	case "attach":
		o.B, o.N, o.I, o.X = sl(), g.key(), g.idx(6, 1), r.N(4)
	case "attachconst":
		o.N, o.I, o.X = g.key(), g.idx(8, 0), r.N(5)
	case "remkey", "extract":
		o.N = g.key()
	case "remidx":
		o.I = g.idx(8, 1)
	case "clone":
		o.B, o.X = sl(), r.N(2)
	case "copyfrom", "addfrom", "setvalv":
		o.B, o.Q, o.I, o.X = sl(), g.path(2), int64(r.N(2)), r.N(2)
		if k == "addfrom" {
			o.Tag = "sametype"
		}
	case "merge":
		o.B, o.X = sl(), r.N(4)
		if r.P(0.6) {
			o.P = nil
		}
	case "enc":
		o.X = r.N(96)
		if r.P(0.4) {
			o.I = int64(r.N(20000)) - 30
			if r.P(0.06) { // a long way into a buffer
				o.I = 20000 + int64(r.N([]int{400, 20000, 70000}[r.N(3)]))
			}
		}
	case "read":
		o.X, o.I = r.N(16), g.idx(6, 1)
		o.N = g.key()
		if r.P(0.3) {
			o.N += "/" + g.key()
		}
		if r.P(0.2) {
			o.N = strconv.Itoa(r.N(4))
		}
	case "lookall":
		o.I = int64(r.N(8))
	case "visits":
		o.I, o.X = int64(r.N(4)), r.N(3)
	case "equal":
		o.B, o.Q = sl(), g.path(1)
	case "tostd":
		o.X, o.I = r.N(16), int64(r.N(16))
	case "scribble":
		o.X = r.N(16)
	case "peek":
		o.I, o.X = g.idx(6, 1), r.N(16)
		o.N = g.key()
		if r.P(0.3) {
			o.N += "/" + g.key()
		}
	case "look":
		o.I = g.idx(6, 1)
		o.N = g.key()
		if r.P(0.4) {
			o.N += "/" + g.key()
		}
	}
	return o
}

func (g *gen) pickKind(pr *prof) string {
	n := g.r.N(pr.total)
	for _, k := range pr.kinds {
		if n -= pr.w[k]; n < 0 {
			return k
		}
	}
	return pr.kinds[0]
}

// program makes n operations; it starts by filling a slot or two.
func (g *gen) program(n int, pr *prof) []Op {
	var ops []Op
	if pr.w["dec"] > 0 {
		ops = append(ops, g.op("dec", pr))
	}
	for len(ops) < n {
		if pr.w["merge"] > 0 && pr.w["dec"] > 0 && len(pr.slots) > 1 && g.r.P(0.04) {
			ops = append(ops, g.mergePair(pr)...)
			continue
		}
		ops = append(ops, g.op(g.pickKind(pr), pr))
	}
	if g.churn {
		g.churn = false
		at := g.r.N(len(ops) + 1)
		ops = append(ops[:at:at], append([]Op{g.churnOp(pr)}, ops[at:]...)...)
	}
	return ops
}

// churnOp: the counts lie around the sizes that counters, small caches and free lists have.
func (g *gen) churnOp(pr *prof) Op {
	r := g.r
	if r.P(0.35) {
		o := g.op("reread", pr)
		o.X, o.I, o.N = r.N(8), int64(r.Range(20, 400)), g.key()
		return o
	}
	g.budget = r.Range(2, 12)
	o := Op{ID: g.id(), K: "churn", X: g.fmtX(pr) | r.N(8)<<4}
	if r.P(0.7) {
		o.X |= 4
	}
	o.D = g.doc(o.X & 3)
	for try := 0; len(o.D) > 300 && try < 5; try++ {
		g.budget = 2
		o.D = g.doc(o.X & 3)
	}
	n := []int{20, 70, 140, 300, 1100}[r.N(5)]
	if m := 60_000/(len(o.D)+20) + 2; n > m {
		n = m
	}
	o.I = int64(r.Range(n/2, n))
	return o
}

// mergePair decodes two related documents and merges them once or twice.
func (g *gen) mergePair(pr *prof) []Op {
	r := g.r
	var ops []Op
	a := pr.slots[0]
	b := pr.slots[len(pr.slots)-1]
	g.size()
	t := g.tree(0)
	for try := 0; try < 4 && (t.k != tObj || len(t.ch) == 0); try++ {
		g.size()
		t = g.tree(0)
	}
	f := r.N(3)
	for _, s := range []int{a, b} {
		if t.k != tObj {
			f = r.N(2)
		}
		if g.noJSON && f == fJSON {
			f = fMsgPack
		}
		ops = append(ops, Op{ID: g.id(), K: "dec", A: s, X: f | r.N(2)<<2, D: g.docOf(f, t)})
		t = g.vary(t, 0)
	}
	for i, n := 0, r.Range(1, 2); i < n; i++ {
		ops = append(ops, Op{ID: g.id(), K: "merge", A: a, B: b, X: r.N(4)})
		a, b = b, a
	}
	return ops
}

// vary copies a tree with some scalars changed, members dropped and added.
func (g *gen) vary(t *tnode, d int) *tnode {
	r := g.r
	if t.k != tObj && t.k != tArr {
		if r.P(0.4) {
			g.budget = 3
			return g.tree(1)
		}
		return t
	}
	c := &tnode{k: t.k}
	for i, e := range t.ch {
		if r.P(0.15) {
			continue
		}
		c.ch = append(c.ch, g.vary(e, d+1))
		if t.k == tObj {
			c.keys = append(c.keys, t.keys[i])
		}
	}
	if r.P(0.3) {
		g.budget = 3
		c.ch = append(c.ch, g.tree(1))
		if t.k == tObj {
			c.keys = append(c.keys, g.key())
		}
	}
	return c
}

// ---------------------------------------------------------------- schedules, pools, clocks

func (g *gen) sched(est int) rt.SchedCfg {
	r := g.r
	c := rt.SchedCfg{Seed: r.U64()}
	switch r.N(10) {
	case 0, 1, 2:
		c.Mode, c.Mean = rt.ModeWalk, []int{2, 5, 12, 30, 80, 300, 1500}[r.N(7)]
	case 3, 4, 5:
		c.Mode, c.Depth, c.Length = rt.ModePCT, r.Range(1, 6), est
	case 6, 7:
		c.Mode = rt.ModeSync
	default:
		c.Mode = rt.ModeOps
	}
	c.Hot = r.P(0.3)
	return c
}

func (g *gen) pool() rt.PoolCfg {
	r := g.r
	c := rt.PoolCfg{Seed: r.U64(), Mode: []string{"lifo", "lifo", "fifo", "rand"}[r.N(4)]}
	if r.P(0.3) {
		c.Drop = 0.3
	}
	if r.P(0.3) {
		c.Miss = 0.3
	}
	return c
}

func (g *gen) clock() rt.ClockCfg {
	r := g.r
	return rt.ClockCfg{Seed: r.U64(), Start: int64(r.N(7_000_000_000))*1_000_000_000 + int64(r.N(1_000_000_000)), Mode: []string{"fixed", "tick", "jumpy", "back"}[r.N(4)]}
}
