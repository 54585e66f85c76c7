package main

import (
	"unicode/utf8"

	"encoding/json"
	"os"

	simos "verifsim/shim/os"

	"verifsim/rt"
)

// Op is one operation of a task's program. ID is unique in the plan and survives minimisation.
type Op struct {
	ID  int     `json:"id"`
	K   string  `json:"k"`
	A   int     `json:"a,omitempty"` // slot
	B   int     `json:"b,omitempty"` // second slot
	P   []int   `json:"p,omitempty"` // path of child indices from the root in slot A
	Q   []int   `json:"q,omitempty"` // path in slot B
	N   string  `json:"n,omitempty"` // key / file name
	S   string  `json:"s,omitempty"`
	I   int64   `json:"i,omitempty"`
	F   float64 `json:"f,omitempty"`
	D   []byte  `json:"d,omitempty"` // document
	X   int     `json:"x,omitempty"` // variant
	Sub []Op    `json:"sub,omitempty"`
	Tag string  `json:"tag,omitempty"`
}

type opJSON Op

// opBytes: names and texts that are not UTF-8 survive JSON.
type opBytes struct {
	opJSON
	NB []byte `json:"nb,omitempty"`
	SB []byte `json:"sb,omitempty"`
}

func (o Op) MarshalJSON() ([]byte, error) {
	j := opBytes{opJSON: opJSON(o)}
	if !utf8.ValidString(o.N) {
		j.N, j.NB = "", []byte(o.N)
	}
	if !utf8.ValidString(o.S) {
		j.S, j.SB = "", []byte(o.S)
	}
	return json.Marshal(j)
}

func (o *Op) UnmarshalJSON(b []byte) error {
	var j opBytes
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	*o = Op(j.opJSON)
	if j.NB != nil {
		o.N = string(j.NB)
	}
	if j.SB != nil {
		o.S = string(j.SB)
	}
	return nil
}

type TaskPlan struct {
	Ops []Op `json:"ops"`
}

// Plan is one simulated execution: programs, faults, schedule, recycler, clock.
type Plan struct {
	Prop       string            `json:"prop"`
	Seed       uint64            `json:"seed"`
	IgnoreCase bool              `json:"ignore_case,omitempty"`
	Setup      []Op              `json:"setup,omitempty"`
	Tasks      []TaskPlan        `json:"tasks"`
	Faults     []simos.Fault     `json:"faults,omitempty"`
	Files      map[string][]byte `json:"files,omitempty"`
	Sched      rt.SchedCfg       `json:"sched"`
	Pool       rt.PoolCfg        `json:"pool"`
	Clock      rt.ClockCfg       `json:"clock"`
	Clock2     rt.ClockCfg       `json:"clock2"`
	X          int               `json:"x,omitempty"`
	Boot       int               `json:"boot,omitempty"` // C11: compared with a process started at that moment (boots)
	Zone       string            `json:"zone,omitempty"` // TZ of the process
	Violation  *Violation        `json:"violation,omitempty"`
}

type Violation struct {
	Kind string `json:"kind"`
	Task int    `json:"task"`
	Op   int    `json:"op"`
	Msg  string `json:"msg"`
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	var q Plan
	if err := json.Unmarshal(b, &q); err != nil {
		panic(err)
	}
	return &q
}

func loadPlan(name string) (*Plan, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	var p Plan
	if err := json.Unmarshal(b, &p); err != nil {
		return nil, err
	}
	return &p, nil
}

// bytes: the size of all documents and files.
func (p *Plan) bytes() int {
	n := 0
	for _, b := range p.Files {
		n += len(b)
	}
	for _, l := range opLists(p) {
		for _, o := range *l {
			n += len(o.D) + len(o.S)
		}
	}
	return n
}

func (p *Plan) numOps() int {
	n := len(p.Setup)
	for _, t := range p.Tasks {
		n += len(t.Ops)
		for _, o := range t.Ops {
			n += len(o.Sub)
		}
	}
	return n
}
