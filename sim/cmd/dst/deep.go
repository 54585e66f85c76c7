package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	osexec "os/exec"
	"regexp"
)

// ---------------------------------------------------------------- very deep nesting (C05)

// Exhausting the stack ends a Go process at once: such documents are decoded by a process of their own, which runs the
// same simulated world.

// genDeep: a unit that opens one or more levels, many times, and then nothing, something, or the matching ends.
func genDeep(g *gen) Op {
	r := g.r
	f := r.N(3)
	o := Op{ID: g.id(), K: "deep", X: f | r.N(2)<<2 | r.N(2)<<3, I: int64(r.N(6)), B: r.N(15)}
	n := 0
	for i, m := 0, r.Range(1, 3); i < m; i++ {
		switch f {
		case fJSON:
			n = 9_000_000
			u := []string{"[", `{"a":`, " [", `[1,`, `{"":`}[r.N(5)]
			o.D = append(o.D, u...)
			if u[0] == '{' {
				o.N = "}" + o.N
			} else {
				o.N = "]" + o.N
			}
		case fMsgPack:
			n = 3_000_000
			o.D = append(o.D, []string{"\x91", "\x81\xa1a", "\xdc\x00\x01", "\xdd\x00\x00\x00\x01", "\xde\x00\x01\xa0", "\xdf\x00\x00\x00\x01\xa1b", "\x92\xc0"}[r.N(7)]...)
		case fBson:
			n = 4_000_000
			o.D = append(o.D, []byte{3, 4}[r.N(2)])
		}
	}
	if f == fJSON && r.P(0.5) {
		o.N = ""
	}
	if r.P(0.3) {
		o.S = []string{"1", "\xc0", "\"", "x"}[r.N(4)]
	}
	o.Q = []int{n / len(o.D)}
	return o
}

func (o *Op) deepDoc() []byte {
	if len(o.Q) == 0 || len(o.D) == 0 {
		return nil
	}
	n := o.Q[0]
	if o.X&3 != fBson {
		b := bytes.Repeat(o.D, n)
		b = append(b, o.S...)
		return append(b, bytes.Repeat([]byte(o.N), n)...)
	}
	n *= len(o.D)
	const open = 4 + 1 + 2 // length, type, key
	size := n*(open+1) + 5
	b := make([]byte, size)
	for i := 0; i < n; i++ {
		at := i * open
		binary.LittleEndian.PutUint32(b[at:], uint32(size-i*(open+1)))
		b[at+4], b[at+5] = o.D[i%len(o.D)], '0'
	}
	binary.LittleEndian.PutUint32(b[n*open:], 5)
	return b
}

func isDeep(p *Plan) bool {
	for _, t := range p.Tasks {
		for _, o := range t.Ops {
			if o.K == "deep" {
				return true
			}
		}
	}
	return false
}

var fatal = regexp.MustCompile(`(?m)^fatal error: .*$`)

// afterDeath makes a violation of the plan during which a worker died, if it kills a process of its own as well.
func afterDeath(exe, id, zone string, seed uint64, text string) *Plan {
	if !fatal.MatchString(text) {
		return nil
	}
	p := generate(id, seed)
	p.Zone = zone
	v, trouble := safeCheckBy(p, inChild)
	if trouble != "" || v == nil || v.Kind != "killed" {
		return nil
	}
	p.Violation = v
	return p
}

// inChild runs the check of p in a process of its own.
func inChild(p *Plan) *Violation {
	b, err := json.Marshal(p)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	exe, err := os.Executable()
	if err != nil {
		panic(harnessError(err.Error()))
	}
	c := osexec.Command(exe, "child")
	if p.Zone != "" {
		c.Env = workerEnv(p.Zone)
	}
	c.Stdin = bytes.NewReader(b)
	var out, errs bytes.Buffer
	c.Stdout, c.Stderr = &out, &errs
	if isDeep(p) {
		tl.Counts["fault:deep-nesting"]++
	}
	if err := c.Run(); err != nil {
		if m := fatal.FindString(errs.String()); m != "" && (m != "fatal error: runtime: out of memory" || !isDeep(p)) {
			if isDeep(p) {
				return &Violation{"killed", 0, p.Tasks[0].Ops[0].ID, "the process dies while decoding a deeply nested document: " + m}
			}
			return &Violation{"killed", 0, -1, "the whole process dies: " + m}
		}
		panic(harnessError(fmt.Sprintf("child: %v %.500s", err, errs.String())))
	}
	var v *Violation
	if err := json.Unmarshal(out.Bytes(), &v); err != nil {
		panic(harnessError("child: " + err.Error()))
	}
	return v
}

var childMode bool

func cmdChild() {
	childMode = true
	b, err := io.ReadAll(os.Stdin)
	var p Plan
	if err == nil {
		err = json.Unmarshal(b, &p)
	}
	if err != nil {
		die(2, "%v", err)
	}
	v, trouble := safeCheck(&p)
	if trouble != "" {
		die(2, "%s", trouble)
	}
	b, _ = json.Marshal(v)
	os.Stdout.Write(b)
}
