package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"strings"

	"github.com/anishathalye/porcupine"
	dx "github.com/suiyunonghen/dxsvalue"

	"verifsim/rt"
	simos "verifsim/shim/os"
)

// equalNoPanic: comparing a copy with its source must work also when they have become different.
func (x *exec) equalNoPanic(o *Op) {
	a, b := x.slots[0], x.slots[1]
	if a == nil || b == nil {
		return
	}
	if p := try(func() { a.Equal(b); b.Equal(a) }); p != "" {
		x.e.report("copy-not-equal", x.id, o.ID, "comparing the copy with its changed source: %s", p)
	}
}

type prop struct {
	id    string
	gen   func(g *gen, p *Plan)
	check func(p *Plan) *Violation
	rule  string
}

var props = map[string]*prop{}

func reg(id string, gen func(g *gen, p *Plan), check func(p *Plan) *Violation, rule string) {
	props[id] = &prop{id, gen, check, rule}
}

// generate makes the plan of one seed.
func generate(id string, seed uint64) *Plan {
	r := rt.NewRand(rt.Mix(seed, uint64(id[1])<<8|uint64(id[2])))
	g := newGen(r)
	if r.P(0.15) {
		g.escapes = 0.7
	}
	if r.P(0.15) {
		g.dates = 0.4
	}
	if r.P(0.15) {
		g.bins = 0.5
	}
	g.wildYaml = r.P(0.2)
	odd := false
	if r.P(0.35) {
		if odd = r.P(0.2); odd {
			g.sticky = append(g.sticky, oddKeys[r.N(len(oddKeys))]...)
		}
		for i, n := 0, r.Range(1, 4); i < n && !odd; i++ {
			g.sticky = append(g.sticky, keyPool[r.N(len(keyPool))])
		}
	}
	if r.P(0.15) {
		g.only = 1 + r.N(4)
	}
	p := &Plan{Prop: id, Seed: seed, Zone: os.Getenv("TZ"), Pool: g.pool(), Clock: g.clock()}
	if id != "C11" {
		p.Clock.Mode = "fixed" // the clock is C11's business
	}
	p.IgnoreCase = r.P(0.2) || odd && r.P(0.5)
	p.Sched = g.sched([]int{200, 800, 2500, 8000, 25000}[r.N(5)])
	switch id {
	case "C12": // short programs: fine-grained schedules
		if r.P(0.5) {
			p.Sched.Mode = rt.ModeSync
		} else if r.P(0.5) {
			p.Sched.Mode, p.Sched.Mean = rt.ModeWalk, []int{2, 4, 8, 20, 60}[r.N(5)]
		}
	case "C10":
		p.Sched.Hot = r.P(0.6)
	case "C01":
		if p.Sched.Mode == rt.ModeOps && r.P(0.5) {
			p.Sched.Mode = rt.ModeSync
		}
	}
	props[id].gen(g, p)
	return p
}

var fresh = rt.PoolCfg{Mode: "miss"}

func seqOpt() runOpt { return runOpt{only: -1, seq: true} }

// soloCompare: every task of r must have seen what it sees alone.
func soloCompare(p *Plan, r *result, kind, why string, want func(t int, o *Op) bool, skip func(o *Op) bool, tweak func(o *runOpt)) *Violation {
	for i := range p.Tasks {
		if len(p.Tasks[i].Ops) == 0 {
			continue
		}
		opt := runOpt{only: i, seq: true, skip: skip}
		if tweak != nil {
			tweak(&opt)
		}
		solo := runWorld(p, opt)
		if solo.fail != nil {
			return nil // a call that does not finish by itself is another property's business
		}
		if v := compareLogs(p, i, r.x[i], solo.x[i], kind, why, func(o *Op) bool { return want == nil || want(i, o) }); v != nil {
			return v
		}
	}
	return nil
}

// soloFails: does some task fail on its own?
func soloFails(p *Plan) bool {
	for i := range p.Tasks {
		if runWorld(p, runOpt{only: i, seq: true}).fail != nil {
			return true
		}
	}
	return false
}

func slotsTo(n int) []int {
	var s []int
	for i := 0; i < n; i++ {
		s = append(s, i)
	}
	return s
}

func init() {
	// ------------------------------------------------------------ C01
	reg("C01", func(g *gen, p *Plan) {
		r := g.r
		n := 2
		if r.P(0.35) {
			n = r.Range(3, 4)
		}
		w := wAll(wCreate, wMutate, wCombine, wRead, wRelease)
		switch r.N(4) {
		case 0: // decode/encode/release traffic
			w = wAll(wCreate, wRead, wRelease, wRelease)
		case 1:
			w = wAll(wCreate, wMutate, wRelease, map[string]int{"snap": 6, "enc": 4, "tostd": 6})
		}
		for i := 0; i < n; i++ {
			pr := mkProf(slotsTo(3), w)
			pr.damage = 0.12
			pr.share = true
			k := r.Range(3, 9)
			if r.P(0.3) {
				k = r.Range(10, 22)
			}
			ops := g.program(k, pr)
			p.Tasks = append(p.Tasks, TaskPlan{Ops: ops})
		}
		if r.P(0.2) { // the same program everywhere
			for i := 1; i < n; i++ {
				c := p.clone().Tasks[0].Ops
				for j := range c {
					c[j].ID = g.id()
				}
				p.Tasks[i].Ops = c
			}
		}
	}, func(p *Plan) *Violation {
		r := runWorld(p, runOpt{only: -1, race: true})
		if r.fail != nil {
			if r.fail.Kind == "hang" || soloFails(p) {
				if soloFails(p) {
					return nil
				}
			}
			return failViol(r.fail)
		}
		return soloCompare(p, r, "interference", "alone it sees something else", nil, nil, nil)
	}, "2-4 tasks with random programs on values of their own under a random schedule; non-trivial: at least two task switches inside the run")

	// ------------------------------------------------------------ C02
	reg("C02", func(g *gen, p *Plan) {
		r := g.r
		dw := wAll(wCreate, wMutate, wCombine, wRelease, wRelease, map[string]int{"snap": 2, "enc": 1})
		mw := wAll(wCreate, wMutate, wCombine, wRelease, wRead, map[string]int{"snapenc": 4, "new": 4})
		p.X = r.N(3)
		if p.X == 1 { // the same value emptied and used again
			pr := mkProf([]int{0}, wAll(wMutate, map[string]int{"read": 1, "enc": 1}))
			pr.damage = 0.15
			o := g.op("dec", pr)
			o.Tag = "dirty"
			p.Tasks = []TaskPlan{{Ops: []Op{o}}}
			for i, n := 0, r.Range(1, 8); i < n; i++ {
				o := g.op(g.pickKind(pr), pr)
				o.Tag = "dirty"
				p.Tasks[0].Ops = append(p.Tasks[0].Ops, o)
			}
			p.Tasks[0].Ops = append(p.Tasks[0].Ops, Op{ID: g.id(), K: "renew", A: 0, X: 15 + r.N(10), I: int64(r.Range(1, 3))})
			mp := mkProf([]int{0, 0, 1}, wAll(wMutate, wRead, map[string]int{"snapenc": 4}))
			for i, n := 0, r.Range(1, 8); i < n; i++ {
				o := g.op(g.pickKind(mp), mp)
				p.Tasks[0].Ops = append(p.Tasks[0].Ops, o)
			}
			p.Tasks[0].Ops = append(p.Tasks[0].Ops, Op{ID: g.id(), K: "snapenc", A: 0})
			return
		}
		if r.P(0.35) { // one decoder: what does a decode leave behind for the next one?
			g.only = 1 + r.N(4)
			g.wildYaml = r.P(0.5)
			lw := map[string]int{"dec": 6, "free": 3, "load": 2, "new": 1, "enc": 1}
			pr := mkProf(slotsTo(2), lw)
			pr.damage, pr.cached = 0.5, 0.9
			d := g.program(r.Range(1, 5), pr)
			for i := 0; i < 2; i++ {
				d = append(d, Op{ID: g.id(), K: "free", A: i})
			}
			mp := mkProf([]int{0}, map[string]int{"dec": 4, "free": 1, "snapenc": 2})
			mp.damage, mp.cached = 0.1, 0.9
			if r.P(0.2) { // a document that only makes sense after another one
				mp.damage = 0.6
			}
			p.Tasks = []TaskPlan{{Ops: d}, {Ops: g.program(r.Range(1, 4), mp)}}
			return
		}
		pr := mkProf(slotsTo(3), dw)
		pr.damage, pr.cached = 0.15, 0.9
		mp := mkProf(slotsTo(3), mw)
		mp.damage, mp.cached = 0.05, 0.9
		d := g.program(r.Range(2, 12), pr)
		for i := 0; i < 3; i++ {
			d = append(d, Op{ID: g.id(), K: "free", A: i})
		}
		p.Tasks = []TaskPlan{{Ops: d}, {Ops: g.program(r.Range(2, 12), mp)}}
	}, func(p *Plan) *Violation {
		why := "with fresh memory it sees something else"
		if p.X == 1 {
			a := runWorld(p, seqOpt())
			b := runWorld(p, runOpt{only: -1, seq: true, pool: &fresh, skip: func(o *Op) bool { return o.Tag == "dirty" }})
			if a.fail != nil || b.fail != nil {
				if b.fail == nil && dirtyDone(p, a) {
					return failViol(a.fail)
				}
				return nil
			}
			return compareLogs(p, 0, a.x[0], b.x[0], "stale", why, func(o *Op) bool { return o.Tag != "dirty" })
		}
		a := runWorld(p, runOpt{only: -1, seq: p.X == 0})
		b := runWorld(p, runOpt{only: 1, seq: true, pool: &fresh})
		if a.fail != nil || b.fail != nil {
			if b.fail == nil && a.fail.Task == 1 {
				return failViol(a.fail)
			}
			return nil
		}
		return compareLogs(p, 1, a.x[1], b.x[1], "stale", why, nil)
	}, "a program that fills and releases (or clears) values, then a measured program from recycled memory, compared operation by operation with fresh memory; non-trivial: a measured allocation was served from recycled memory")

	// ------------------------------------------------------------ C03
	constKinds := []string{"clear", "reset", "setint", "setstr", "setdbl", "setflt", "setbool", "settime", "setdelphi", "setbin", "setext", "setval", "setkey", "setkeyc", "setidx", "setidxc", "insert", "append", "keyscalar", "idxscalar", "force", "attach", "attachconst", "remkey", "remidx", "extract", "load", "unmarshal", "free", "copyfrom", "addfrom", "setvalv", "merge", "clone"}
	reg("C03", func(g *gen, p *Plan) {
		r := g.r
		n := r.Range(1, 3)
		for i := 0; i < n; i++ {
			pr := mkProf(slotsTo(3), wAll(wCreate, wMutate, wCombine, wRelease, map[string]int{"snap": 3, "enc": 2, "merge": 3}))
			pr.damage = 0.1
			var ops []Op
			ops = append(ops, g.constDoc(0), g.constDoc(1))
			for k, m := 0, r.Range(2, 8); k < m; k++ {
				if i < 2 && r.P(0.5) {
					kind := constKinds[r.N(len(constKinds))]
					o := g.op(kind, pr)
					o.K = "const" + kind
					o.I = int64(r.N(60))
					o.X = r.N(5)
					o.A = nSlots - 1
					o.Tag = "const"
					ops = append(ops, o)
				} else {
					o := g.op(g.pickKind(pr), pr)
					if r.P(0.6) && len(o.P) == 0 && o.K != "free" {
						o.P = []int{r.N(8)}
					}
					ops = append(ops, o)
				}
			}
			ops = append(ops, Op{ID: g.id(), K: "snap", A: 0}, Op{ID: g.id(), K: "snap", A: 1})
			p.Tasks = append(p.Tasks, TaskPlan{Ops: ops})
		}
	}, func(p *Plan) *Violation {
		r := runWorld(p, runOpt{only: -1, consts: true, race: true})
		if r.viol != nil {
			return r.viol
		}
		if r.fail != nil {
			if soloFails(p) {
				return nil
			}
			return failViol(r.fail)
		}
		// other documents must not see anything of it
		return soloCompare(p, r, "constant-leak", "without the writes through shared constants it sees something else",
			func(t int, o *Op) bool { return o.Tag != "const" && o.B < 100 }, func(o *Op) bool { return o.Tag == "const" && !constMoves(o) }, func(o *runOpt) { o.consts = true })
	}, "tasks writing through shared constants (directly and inside documents), all five constants compared after every operation, other operations compared with a run without the writes; non-trivial: at least one write through a constant")

	// ------------------------------------------------------------ C04
	reg("C04", func(g *gen, p *Plan) {
		r := g.r
		n := r.Range(1, 3)
		for i := 0; i < n; i++ {
			pr := mkProf(slotsTo(3), wAll(wCreate, wMutate, wCombine, wRead, wRelease))
			pr.damage = 0
			ops := g.program(r.Range(3, 10), pr)
			fp := mkProf([]int{4, 5}, wAll(wRead, map[string]int{"load": 10, "unmarshal": 2, "dec": 8, "new": 1, "clear": 1, "free": 3, "clone": 1, "keyscalar": 1, "setkey": 1, "append": 1, "reset": 1}))
			fp.damage, fp.share = 0.85, true
			var res []Op
			for _, o := range ops {
				res = append(res, o)
				if r.P(0.5) {
					for k, m := 0, r.Range(1, 4); k < m; k++ {
						f := g.op(g.pickKind(fp), fp)
						f.Tag = "fail"
						res = append(res, f)
					}
				}
				if r.P(0.02) { // what one failure leaves behind adds up
					f := r.N(4)
					g.size()
					g.budget = r.Range(1, 6)
					d := g.damage(g.doc(f), nil, nil)
					if len(d) < 400 {
						res = append(res, Op{ID: g.id(), K: "failburst", Tag: "fail", X: f | r.N(4)<<2, D: d, I: int64(r.Range(1, []int{20, 150, 300}[r.N(3)]))})
					}
				}
			}
			p.Tasks = append(p.Tasks, TaskPlan{Ops: res})
		}
	}, func(p *Plan) *Violation {
		r := runWorld(p, runOpt{only: -1, nopanic: "fail", noval: true})
		if r.viol != nil {
			return r.viol
		}
		skip := func(o *Op) bool { return o.Tag == "fail" }
		if r.fail != nil {
			for i := range p.Tasks {
				if runWorld(p, runOpt{only: i, seq: true, skip: skip}).fail != nil {
					return nil
				}
			}
			return failViol(r.fail)
		}
		return soloCompare(p, r, "failed-decode-effect", "without the failing decodes it sees something else",
			func(t int, o *Op) bool { return o.Tag != "fail" }, skip, nil)
	}, "programs in which decodes and loads of damaged documents are interspersed, compared with the same programs without them; the failed targets are read, encoded, reloaded and released; non-trivial: at least one decode failed")

	// ------------------------------------------------------------ C05
	reg("C05", func(g *gen, p *Plan) {
		r := g.r
		t := TaskPlan{}
		if r.N(8000) == 0 {
			p.Tasks = []TaskPlan{{Ops: []Op{genDeep(g)}}}
			return
		}
		for i, n := 0, r.Range(1, 6); i < n; i++ {
			x := []int{fJSON, fMsgPack, fBson, fYaml}[r.N(4)] | r.N(2)<<2 | r.N(2)<<3
			g.hostile = x&3 == fBson && r.P(0.2)
			d := g.doc(x & 3)
			how := r.N(12)
			if g.hostile && r.P(0.6) {
				how = 1
			}
			g.hostile = false
			switch how {
			case 0: // all kinds of cuts
				d = d[:r.N(len(d)+1)]
			case 1: // intact
			case 2: // noise
				d = make([]byte, r.N(24))
				for j := range d {
					d[j] = byte(r.U64())
				}
			case 3: // only tokens
				d = nil
				for j, m := 0, r.Range(1, 10); j < m; j++ {
					d = append(d, tokens[r.N(len(tokens))]...)
				}
			case 4: // another format's document
				d = g.damage(g.doc(r.N(4)), d, nil)
			default:
				d = g.damage(d, g.doc(x&3), nil)
			}
			t.Ops = append(t.Ops, Op{ID: g.id(), K: "hostile", X: x, D: d, I: int64(r.N(6)), B: r.N(15)})
		}
		p.Tasks = []TaskPlan{t}
	}, func(p *Plan) *Violation {
		m := 0
		for _, o := range p.Tasks[0].Ops {
			if len(o.D) > m {
				m = len(o.D)
			}
			if o.K == "deep" {
				m = len(o.deepDoc())
			}
		}
		if isDeep(p) && !childMode {
			return inChild(p)
		}
		r := runWorld(p, runOpt{only: -1, seq: true, opLimit: 4_000_000 + 3000*m, maxLen: 4096 + 64*m})
		if r.viol != nil {
			return r.viol
		}
		return failViol(r.fail)
	}, "valid documents in the four formats damaged by 1-5 storage/transport faults (and cuts, noise, token soup, BSON arrays with hostile indexes), decoded through every entry point, results traversed, printed, encoded, copied and released; non-trivial: the damaged bytes differ from a valid document")

	// ------------------------------------------------------------ C06
	reg("C06", func(g *gen, p *Plan) {
		r := g.r
		p.X = r.N(4)
		p.Files = map[string][]byte{}
		if p.X != 0 { // every prefix of a document
			t := TaskPlan{}
			for i, n := 0, r.Range(1, 3); i < n; i++ {
				f := r.N(3)
				g.size()
				if g.budget > 40 {
					g.budget = 40
				}
				tr := g.rootTree(f)
				if f == fJSON && tr.k != tObj && tr.k != tArr {
					tr = &tnode{k: tArr, ch: []*tnode{tr}}
				}
				t.Ops = append(t.Ops, Op{ID: g.id(), K: "prefix", X: f | r.N(2)<<2 | r.N(2)<<3, D: g.docOf(f, tr), I: int64(r.U64() >> 1), B: r.N(4)})
			}
			p.Tasks = []TaskPlan{t}
			return
		}
		// a crash while saving
		pr := mkProf([]int{0}, wCreate)
		dec := g.op("dec", pr)
		if r.P(0.6) {
			old := g.docOf(fJSON, &tnode{k: tObj, keys: []string{"old"}, ch: []*tnode{g.tree(0)}})
			p.Files["f"] = old
		}
		sv := Op{ID: g.id(), K: "savefile", N: "f", A: 0, X: r.N(4)}
		dec.X, dec.A = dec.X&4, 0
		for {
			g.size()
			tr := g.tree(0)
			dec.D = g.docOf(fJSON, tr)
			if len(dec.D) > 2 {
				break
			}
		}
		p.Tasks = []TaskPlan{{Ops: []Op{dec, sv}}}
		call := []string{"write", "write", "write", "open", "close", "sync", "rename"}[r.N(7)]
		p.Faults = []simos.Fault{{Task: 0, Op: sv.ID, Call: call, Nth: r.N(3), Kind: "crash", Arg: r.N(len(dec.D) + 8)}}
		p.Seed = r.U64()
	}, checkC06, "every prefix (all cuts up to 200 bytes, sampled beyond) of generated JSON/MsgPack/BSON documents through several entry points; saves crashed inside open/write/close, every kept prefix and zero-filled tail of the file reloaded; non-trivial: document of at least 3 bytes")

	// ------------------------------------------------------------ C07
	reg("C07", func(g *gen, p *Plan) {
		r := g.r
		p.Files = map[string][]byte{}
		for i := 0; i < 3; i++ {
			p.Files[fmt.Sprint("f", i)] = g.fileContent()
		}
		n := r.Range(1, 2)
		for t := 0; t < n; t++ {
			var tp TaskPlan
			for i, m := 0, r.Range(1, 5); i < m; i++ {
				o := Op{ID: g.id(), K: []string{"readfile", "loadfile", "loadfile", "binfile"}[r.N(4)], A: r.N(3), N: fmt.Sprint("f", r.N(4)), X: r.N(8), I: int64(r.N(256))}
				if o.K == "loadfile" {
					o.X = []int{fJSON, fMsgPack, fYaml}[r.N(3)] | r.N(2)<<2
					if r.P(0.8) { // a document of that format, possibly with a byte order mark
						o.N = fmt.Sprint("d", o.ID)
						d := g.doc(o.X & 3)
						if o.X&3 == fJSON && r.P(0.3) {
							for len(d) < 600 {
								d = append(d, ' ')
							}
						}
						if o.X&3 != fMsgPack && r.P(0.3) {
							d = append([]byte{0xEF, 0xBB, 0xBF}, d...)
						}
						p.Files[o.N] = d
					}
				}
				tp.Ops = append(tp.Ops, o)
				size := len(p.Files[o.N])
				for k, fn := 0, r.N(4); k < fn; k++ {
					f := simos.Fault{Task: t, Op: o.ID}
					switch r.N(8) {
					case 0, 1, 2:
						f.Call, f.Kind, f.Nth, f.Arg = "read", "short", r.N(4), 1+r.N(600)
						if r.P(0.4) {
							f.Nth = -1
							if size > 0 {
								f.Arg = 1 + r.N(size)
							}
							if size/f.Arg > 60 {
								f.Arg = size/60 + 1
							}
						}
					case 3:
						f.Call, f.Kind, f.Nth = "read", "eio", r.N(5)
					case 4:
						f.Call, f.Kind = "open", []string{"eacces", "emfile", "eio", "enoent"}[r.N(4)]
					case 5:
						f.Call, f.Kind, f.Arg = "stat", "statlie", []int{0, 1, size / 2, size + 1, size * 2, 100000, 511, 512}[r.N(8)]
						if r.P(0.3) {
							f.Kind = "eio"
						}
					case 6:
						f.Call, f.Kind, f.Nth, f.Arg = "read", "grow", r.N(4), 1+r.N(700)
						if o.K == "loadfile" {
							f.Kind = "growws"
							if o.X&3 == fMsgPack {
								f.Kind = "grow"
							}
						}
					case 7:
						f.Call, f.Kind = "close", "eio"
					}
					p.Faults = append(p.Faults, f)
				}
			}
			p.Tasks = append(p.Tasks, tp)
		}
		if n > 1 { // files that grow are private to a task
			for i := range p.Faults {
				if strings.HasPrefix(p.Faults[i].Kind, "grow") {
					p.Faults[i].Kind, p.Faults[i].Arg = "short", 1+p.Faults[i].Arg%500
				}
			}
		}
	}, checkFiles, "file loads through every entry point under short reads, read/open/stat/close errors, wrong sizes and growth; non-trivial: at least one injected fault fired")

	// ------------------------------------------------------------ C08
	reg("C08", func(g *gen, p *Plan) {
		r := g.r
		p.Files = map[string][]byte{}
		for i := 0; i < 3; i++ {
			if r.P(0.6) {
				p.Files[fmt.Sprint("f", i)] = g.fileContent()
			}
		}
		n := r.Range(1, 2)
		for t := 0; t < n; t++ {
			pr := mkProf([]int{0}, wCreate)
			tp := TaskPlan{Ops: []Op{g.op("dec", pr), {ID: g.id(), K: "new", A: 1, X: 8 + 15*r.N(2) + r.N(2)}}}
			tp.Ops = append(tp.Ops, Op{ID: g.id(), K: "setext", A: 1, X: r.N(256)}, Op{ID: g.id(), K: "setbin", A: 1, D: g.bigBin(), X: r.N(2)})
			for i, m := 0, r.Range(1, 4); i < m; i++ {
				o := Op{ID: g.id(), K: "savefile", A: 0, N: fmt.Sprint("f", t, r.N(2)), X: r.N(4)}
				if n == 1 {
					o.N = fmt.Sprint("f", r.N(3))
				}
				if r.P(0.4) {
					o.K, o.A = "savebin", 1
				} else if r.P(0.3) {
					o.P = g.path(2)
				}
				tp.Ops = append(tp.Ops, o)
				for k, fn := 0, r.N(3); k < fn; k++ {
					f := simos.Fault{Task: t, Op: o.ID}
					switch r.N(6) {
					case 0, 1, 2:
						f.Call, f.Kind, f.Nth, f.Arg = "write", []string{"enospc", "eio", "edquot"}[r.N(3)], r.N(3), r.N(300)
						if r.P(0.3) {
							f.Arg = 0
						}
						if r.P(0.5) {
							f.Nth = 0
						}
					case 3:
						f.Call, f.Kind = "open", []string{"eacces", "emfile", "eio", "enospc"}[r.N(4)]
					default:
						f.Call, f.Kind, f.Arg = "close", []string{"enospc", "eio", "edquot"}[r.N(3)], r.N(50)
					}
					p.Faults = append(p.Faults, f)
				}
				if r.P(0.3) {
					tp.Ops = append(tp.Ops, g.op("keyscalar", pr))
				}
			}
			p.Tasks = append(p.Tasks, tp)
		}
	}, checkFiles, "saves of values and binaries over existing or missing files with failing opens, partial/failing writes and failing closes; non-trivial: at least one injected fault fired")

	// ------------------------------------------------------------ C09
	reg("C09", func(g *gen, p *Plan) {
		r := g.r
		n := 1
		if r.P(0.3) {
			n = 2
		}
		for t := 0; t < n; t++ {
			pr := mkProf(slotsTo(3), wAll(wCreate, wMutate, wCombine, wRead, wRelease, map[string]int{"setbin": 5, "setext": 3, "load": 4, "dec": 6, "unmarshal": 2}))
			pr.damage, pr.share = 0.05, true
			ops := g.program(r.Range(2, 10), pr)
			var res []Op
			for _, o := range ops {
				res = append(res, o)
				if r.P(0.08) { // a binary that takes over Go bytes
					q := g.op("setval", pr)
					q.F = []float64{11, 43}[r.N(2)]
					q.D = g.bigBin()
					res = append(res, Op{ID: g.id(), K: "reset", A: q.A, P: q.P, X: 8}, q)
				}
				if r.P(0.35) {
					res = append(res, Op{ID: g.id(), K: "scribble", X: r.N(16)})
				}
			}
			res = append(res, Op{ID: g.id(), K: "scribble"})
			for i := 0; i < 3; i++ {
				res = append(res, Op{ID: g.id(), K: "snapenc", A: i})
			}
			p.Tasks = append(p.Tasks, TaskPlan{Ops: res})
		}
	}, func(p *Plan) *Violation {
		a := runWorld(p, runOpt{only: -1, bufs: true})
		if a.viol != nil {
			return a.viol
		}
		if a.fail != nil {
			return nil
		}
		b := runWorld(p, runOpt{only: -1, bufs: true, scribble: true})
		if b.viol != nil {
			return b.viol
		}
		if b.fail != nil {
			return failViol(b.fail)
		}
		for i := range p.Tasks {
			if v := compareLogs(p, i, b.x[i], a.x[i], "buffer-dependence", "without the caller overwriting its buffers it sees something else", nil); v != nil {
				return v
			}
		}
		return nil
	}, "programs whose caller overwrites its input buffers and Go values at random moments, compared with the same programs without it; every input buffer (shared ones included) compared after every operation; non-trivial: a buffer was overwritten while values decoded from it were alive")

	// ------------------------------------------------------------ C10
	reg("C10", func(g *gen, p *Plan) {
		r := g.r
		if r.P(0.5) {
			g.escapes = 0.7
		}
		pr := mkProf(slotsTo(3), wAll(wCreate, wMutate, wCombine, map[string]int{"dec": 12}))
		pr.share = true
		p.Setup = g.program(r.Range(1, 5), pr)
		look := r.P(0.2) // many lookups at the same time, fine-grained
		if look {
			if r.P(0.5) {
				p.Sched.Mode, p.Sched.Mean = rt.ModeWalk, []int{3, 8, 20, 60}[r.N(4)]
			}
			o := g.op("remkey", mkProf([]int{0, 1}, map[string]int{"remkey": 1}))
			o.P, o.N = nil, "no such key"
			if r.P(0.5) {
				p.Setup = append(p.Setup, o)
			}
		}
		n := r.Range(2, 4)
		for t := 0; t < n; t++ {
			rp := mkProf([]int{100, 101, 102}, wAll(wRead, wRead, map[string]int{"clone": 1}))
			if look {
				rp = mkProf([]int{100, 101}, map[string]int{"lookall": 4, "read": 3, "visits": 1})
			}
			own := mkProf([]int{0, 1}, map[string]int{"copyfrom": 1, "addfrom": 1, "merge": 1, "setvalv": 1, "equal": 1})
			var ops []Op
			if r.P(0.3) {
				ops = append(ops, g.op("dec", mkProf([]int{0}, wCreate)))
			}
			for i, m := 0, r.Range(1, 6); i < m; i++ {
				if r.P(0.2) {
					o := g.op(g.pickKind(own), own)
					o.B = 100 + r.N(3)
					ops = append(ops, o)
					continue
				}
				o := g.op(g.pickKind(rp), rp)
				switch o.K {
				case "clone":
					o.B = r.N(2)
				case "equal":
					o.B = []int{0, 100, 101, 102}[r.N(4)]
				}
				ops = append(ops, o)
			}
			for i := 0; i < 2; i++ {
				ops = append(ops, Op{ID: g.id(), K: "snap", A: i})
			}
			p.Tasks = append(p.Tasks, TaskPlan{Ops: ops})
		}
	}, func(p *Plan) *Violation {
		r := runWorld(p, runOpt{only: -1, race: true})
		if r.fail != nil {
			if soloFails(p) {
				return nil
			}
			return failViol(r.fail)
		}
		after := sharedSnap(r)
		base := runWorld(p, runOpt{only: 999, seq: true})
		if base.fail != nil {
			return nil
		}
		want := sharedSnap(base)
		if v := soloCompare(p, r, "reader-interference", "as the only reader it sees something else", nil, nil, nil); v != nil {
			return v
		}
		if after != want {
			return &Violation{"changed-by-reading", -1, -1, "the value is different after having been read: " + diffAt(after, want)}
		}
		// one reader must not change what a later one sees
		return nil
	}, "2-4 tasks reading the same values under random schedules, each compared with being the only reader, the values compared with never having been read; non-trivial: at least two task switches")

	// ------------------------------------------------------------ C11
	reg("C11", func(g *gen, p *Plan) {
		r := g.r
		g.dates = 0.35
		if r.P(0.5) {
			g.dates = 0.7
		}
		p.Clock2 = g.clock()
		if r.P(0.3) {
			p.Clock2.Start = p.Clock.Start/1_000_000_000*1_000_000_000 + int64(r.N(1_000_000_000))
		}
		pr := mkProf(slotsTo(3), wAll(wCreate, wRead, wRelease, map[string]int{"dec": 8, "load": 4, "unmarshal": 2, "settime": 2, "keyscalar": 2, "snapenc": 4, "copyfrom": 1, "setval": 2}))
		pr.share = true
		n := 1
		if r.P(0.2) {
			n = 2
		}
		for t := 0; t < n; t++ {
			p.Tasks = append(p.Tasks, TaskPlan{Ops: g.program(r.Range(2, 9), pr)})
		}
		if r.P(0.06) {
			p.Boot = 1 + r.N(len(boots))
		}
	}, func(p *Plan) *Violation {
		a := runWorld(p, runOpt{only: -1, seq: true})
		b := runWorld(p, runOpt{only: -1, seq: true, clock: &p.Clock2})
		if p.Boot > 0 && a.fail == nil && b.fail == nil {
			if v := compareBoot(p, a); v != nil {
				return v
			}
		}
		if a.fail != nil || b.fail != nil {
			if a.fail == nil {
				return failViol(b.fail)
			}
			if b.fail == nil {
				return failViol(a.fail)
			}
			return nil
		}
		for i := range p.Tasks {
			if v := compareLogs(p, i, b.x[i], a.x[i], "clock-dependence", "under another clock it sees something else", nil); v != nil {
				return v
			}
		}
		return nil
	}, "date-heavy programs run under two different simulated clocks (fixed, ticking, jumping, running backwards) and compared operation by operation, a part of them also with a process that was started years before or after; non-trivial: the clock was read or a date was decoded")

	// ------------------------------------------------------------ C12
	reg("C12", func(g *gen, p *Plan) {
		r := g.r
		n := r.Range(2, 4)
		next := int64(1)
		groups := [][]int{{0, 1, 2}, {3, 4}, {0, 5}, {6, 7}, {8, 6, 5}} // same names, a type and the pointer to it
		grp := -1
		if r.P(0.4) {
			grp = r.N(len(groups))
		}
		ty := func() int {
			c := groups[[]int{0, 0, 0, 0, 1, 1, 2, 3, 4}[r.N(9)]]
			if grp >= 0 {
				c = groups[grp]
			}
			return c[r.N(len(c))]
		}
		mk := func(writer bool, m int) []Op {
			var ops []Op
			for i := 0; i < m; i++ {
				if writer && r.P(0.75) || r.P(0.2) {
					o := Op{ID: g.id(), K: "reghist", X: ty(), I: next}
					next++
					if r.P(0.15) {
						o.I = 0
					}
					ops = append(ops, o)
				} else {
					ops = append(ops, Op{ID: g.id(), K: "convhist", X: r.N(2)})
				}
			}
			return ops
		}
		if r.P(0.6) {
			p.Setup = mk(true, r.Range(1, 4))
		}
		for t := 0; t < n; t++ {
			p.Tasks = append(p.Tasks, TaskPlan{Ops: mk(r.P(0.5), r.Range(1, 5))})
		}
	}, checkC12, "2-4 tasks registering handlers for nine types (same-named, pointers, structs, slices) and converting structs; the recorded history checked by porcupine against one atomic register per type; non-trivial: a registration overlaps a conversion")

	// ------------------------------------------------------------ C13
	reg("C13", func(g *gen, p *Plan) {
		r := g.r
		base := Op{ID: g.id(), K: "new", A: 0, X: []int{0, 15, 15, 16, 2 + 15, 4 + 15, 8 + 15, 9 + 15, 1, 5 + 15, 7 + 15}[r.N(11)]}
		if r.P(0.3) { // decoded roots have arenas of their own
			base = g.op("dec", mkProf([]int{0}, wCreate))
			base.Tag = ""
		}
		ops := []Op{base}
		pr := mkProf([]int{0}, wAll(wMutate, map[string]int{"load": 14, "read": 2, "snapenc": 1}))
		pr.damage, pr.share = 0.3, true
		// a second value to copy from
		src := g.op("dec", mkProf([]int{1}, wCreate))
		ops = append(ops, src)
		for i, n := 0, r.Range(1, 7); i < n; i++ {
			o := g.op(g.pickKind(pr), pr)
			if r.P(0.15) {
				o = g.op([]string{"copyfrom", "merge"}[r.N(2)], pr)
				o.A, o.B = 0, 1
			}
			o.Tag = "dirty"
			if o.K == "load" && len(o.D) < 200 && r.P(0.04) {
				o.F = float64(r.Range(20, 300))
			}
			ops = append(ops, o)
		}
		if r.P(0.25) { // the value that is loaded is a node inside a used document
			ops[0] = Op{ID: g.id(), K: "new", A: 0}
			d := g.op("dec", mkProf([]int{0}, wCreate))
			d.Tag = "dirty"
			ops = append(ops[:1:1], append([]Op{d}, ops[1:]...)...)
			dn := Op{ID: g.id(), K: "descend", A: 0, P: g.path(2), Tag: "dirty"}
			if len(dn.P) == 0 {
				dn.P = []int{int(g.idx(5, 0))}
			}
			if r.P(0.3) { // a scalar inside a BSON document, timestamps too
				t := &tnode{k: tObj}
				for i, n := 0, r.Range(1, 4); i < n; i++ {
					t.keys, t.ch = append(t.keys, fmt.Sprint("k", i)), append(t.ch, g.scalar())
					if r.P(0.4) {
						t.ch[i] = &tnode{k: tInt, i: g.int()}
					}
				}
				g.stamps = true
				ops[1].D, ops[1].X = g.docOf(fBson, t), fBson|r.N(2)<<2
				g.stamps = false
				dn.P = []int{r.N(len(t.ch))}
			}
			ops = append(ops, dn)
			if r.P(0.3) {
				o := g.op(g.pickKind(pr), pr)
				o.Tag = "dirty"
				ops = append(ops, o)
			}
		}
		lp := mkProf([]int{0}, map[string]int{"load": 1})
		lp.share, lp.damage = true, 0.1
		for i, n := 0, r.Range(1, 2); i < n; i++ {
			ld := g.op("load", lp)
			ld.P = nil
			if ld.X&3 < fBson && r.P(0.2) { // a scalar
				f := ld.X & 3
				g.size()
				ld.D = g.docOf(f, g.scalar())
			}
			ld.Tag = "meas"
			ops = append(ops, ld)
			ops = append(ops, Op{ID: g.id(), K: "snapenc", A: 0, Tag: "meas"})
			if r.P(0.3) {
				ops = append(ops, g.op("read", lp), g.op("enc", lp))
			}
		}
		p.Tasks = []TaskPlan{{Ops: ops}}
	}, checkC13, "a value with a random history (including failed loads) loads a document; compared with a new value loading it; non-trivial: the load succeeded")

	// ------------------------------------------------------------ C14
	reg("C14", func(g *gen, p *Plan) {
		r := g.r
		p.X = r.N(3)
		if r.P(0.05) {
			g.flat = true
		}
		mk := func() []Op { // slot 0: source, slot 1: copy
			pr := mkProf([]int{0}, wMutate)
			pr.share = true
			ops := []Op{g.op("dec", pr)}
			for i, n := 0, r.N(4); i < n; i++ {
				ops = append(ops, g.op(g.pickKind(pr), pr))
			}
			c := Op{ID: g.id(), K: "copy", A: 0, B: 1, X: r.N(13), I: int64(r.N(4))}
			if r.P(0.4) {
				c.P = g.path(2)
			}
			return append(ops, c)
		}
		if p.X == 2 { // source and copy in different tasks
			p.Setup = mk()
			for t := 0; t < 2; t++ {
				pr := mkProf([]int{100 + t}, wAll(wMutate, map[string]int{"snapenc": 6, "enc": 2, "read": 2}))
				pr.share = true
				tp := TaskPlan{}
				for i, n := 0, r.Range(1, 6); i < n; i++ {
					tp.Ops = append(tp.Ops, g.op(g.pickKind(pr), pr))
					if r.P(0.08) {
						tp.Ops = append(tp.Ops, g.op("sweep", pr))
					}
				}
				tp.Ops = append(tp.Ops, Op{ID: g.id(), K: "snapenc", A: 100 + t})
				p.Tasks = append(p.Tasks, tp)
			}
			return
		}
		ops := mk()
		ops = append(ops, Op{ID: g.id(), K: "mark", A: 0}, Op{ID: g.id(), K: "mark", A: 1})
		victim, other := 1, 0
		if r.P(0.5) {
			victim, other = 0, 1
		}
		pr := mkProf([]int{other}, wAll(wMutate, map[string]int{"free": 2, "snapenc": 1}))
		pr.share = true
		noise := mkProf([]int{3, 4}, wAll(wCreate, wMutate, wRelease))
		for i, n := 0, r.Range(1, 6); i < n; i++ {
			if i == 0 && g.churn {
				ops = append(ops, g.churnOp(pr))
			} else if i == 0 && r.P(0.2) {
				ops = append(ops, g.op("sweep", pr))
			} else if r.P(0.3) {
				ops = append(ops, g.op(g.pickKind(noise), noise))
			} else {
				ops = append(ops, g.op(g.pickKind(pr), pr))
			}
			ops = append(ops, Op{ID: g.id(), K: "same", A: victim})
		}
		p.Tasks = []TaskPlan{{Ops: ops}}
	}, checkC14, "a random value is copied by every copying call, compared with its source, then one side is changed, cleared, loaded or released (memory recycled by other values) while the other is compared; or both live in different tasks; non-trivial: the copied value is not empty")

	// ------------------------------------------------------------ C15
	reg("C15", func(g *gen, p *Plan) {
		r := g.r
		n := 1
		if r.P(0.4) {
			n = 2
		}
		for t := 0; t < n; t++ {
			pr := mkProf(slotsTo(3), wAll(wCreate, wMutate, wCombine, wRead, wRead, wRelease))
			pr.damage = 0.1
			ops := g.program(r.Range(3, 14), pr)
			if r.P(0.2) { // paths handed to merge callbacks are output, too
				ops = append(ops, g.mergePair(pr)...)
				ops = append(ops, g.program(r.Range(1, 4), pr)...)
				ops = append(ops, g.mergePair(pr)...)
			}
			if r.P(0.5) { // the caller reuses its buffers
				var res []Op
				for _, o := range ops {
					res = append(res, o)
					if r.P(0.3) {
						res = append(res, Op{ID: g.id(), K: "scribble", X: r.N(16)})
					}
				}
				ops = res
			}
			p.Tasks = append(p.Tasks, TaskPlan{Ops: ops})
		}
	}, func(p *Plan) *Violation {
		r := runWorld(p, runOpt{only: -1, hold: true, race: true, scribble: true})
		if r.viol != nil {
			return r.viol
		}
		// what tasks hold must also survive what the other task did last
		for _, x := range r.x {
			for _, h := range x.held {
				now := h.now()
				if now != h.copy {
					return &Violation{"output-changed", x.id, h.op, fmt.Sprintf("%s of operation %d changed later: %s", h.what, h.op, diffAt(now, h.copy))}
				}
			}
		}
		if r.fail != nil && sharedFail(r.fail) {
			return failViol(r.fail)
		}
		return nil
	}, "programs keeping every encoding, string and error text they were given and comparing all of them after every later operation of any task; encodings into supplied buffers compared with buffer+encoding; non-trivial: something was kept while later operations ran")

	// ------------------------------------------------------------ C16
	reg("C16", func(g *gen, p *Plan) {
		r := g.r
		n := r.Range(1, 3)
		for t := 0; t < n; t++ {
			w := wAll(wCreate, wRead, wRelease, map[string]int{"keyscalar": 2, "merge": 1, "clone": 1, "load": 2})
			pr := mkProf([]int{2, 3, 4}, w)
			pr.damage = 0.05
			ops := []Op{g.cbDoc(0), g.cbDoc(1)}
			for i, m := 0, r.Range(1, 4); i < m; i++ {
				o := Op{ID: g.id(), K: "cb", A: 0, B: 1, X: r.N(42), I: int64(r.N(4))}
				if r.P(0.2) {
					o.P = []int{r.N(4)}
				}
				if r.P(0.15) { // first a burst of panicking callbacks
					o.F = float64(r.Range(1, []int{4, 20, 80, 300}[r.N(4)]))
				}
				for k, sn := 0, r.Range(1, 4); k < sn; k++ {
					var s Op
					if r.P(0.25) {
						s = Op{ID: g.id(), K: "reg", X: r.N(2), I: int64(r.N(9))}
					} else {
						s = g.op(g.pickKind(pr), pr)
					}
					o.Sub = append(o.Sub, noHandled(s))
				}
				ops = append(ops, o)
				for k, sn := 0, r.N(4); k < sn; k++ {
					ops = append(ops, noHandled(g.op(g.pickKind(pr), pr)))
				}
				if r.P(0.3) {
					ops = append(ops, g.cbDoc(r.N(2)))
				}
			}
			ops = append(ops, Op{ID: g.id(), K: "reg", X: 0}, noHandled(g.op("dec", pr)))
			p.Tasks = append(p.Tasks, TaskPlan{Ops: ops})
		}
	}, func(p *Plan) *Violation {
		r := runWorld(p, runOpt{only: -1, race: true})
		if r.viol != nil {
			return r.viol
		}
		flat := map[int]bool{}
		for _, x := range r.x {
			for k := range x.cbRan {
				flat[k] = true
			}
		}
		if r.fail != nil {
			if sharedFail(r.fail) {
				return failViol(r.fail)
			}
			return nil
		}
		return soloCompare(p, r, "callback-effect", "without callbacks in between it sees something else",
			func(t int, o *Op) bool { return o.A >= 2 && o.K != "cb" }, nil, func(o *runOpt) { o.cbFlat = flat })
	}, "callbacks (merge, visit, marshal, unmarshal, type handler) that re-enter the library and/or panic, compared with the same operations without callbacks; non-trivial: a callback ran")
}

// constMoves: a constant operation that also moves the task's own slot content.
func constMoves(o *Op) bool { return o.K == "constattach" || o.K == "constclone" }

func noHandled(o Op) Op {
	if o.K == "tostd" && (o.X%16 == 8 || o.X%16 >= 14) {
		o.X = 1
	}
	return o
}

func dirtyDone(p *Plan, r *result) bool {
	o := findOp(p, r.fail.Op)
	return o != nil && o.Tag != "dirty"
}

func sharedSnap(r *result) string {
	s := ""
	f := rt.Outside(func() {
		for _, v := range r.e.shared {
			s += snap(v, snapEnc) + "\n"
		}
	})
	if f != nil {
		s += f.Msg
	}
	return s
}

// constDoc: a document full of shared constants.
func (g *gen) constDoc(slot int) Op {
	r := g.r
	g.size()
	t := &tnode{k: tObj}
	for i, n := 0, r.Range(2, 6); i < n; i++ {
		c := &tnode{k: []tkind{tNull, tTrue, tFalse, tNaN, tNull, tTrue}[r.N(6)]}
		if r.P(0.2) {
			c = &tnode{k: tArr, ch: []*tnode{{k: tTrue}, {k: tNull}, {k: tFalse}}}
		}
		t.keys = append(t.keys, keyPool[i])
		t.ch = append(t.ch, c)
	}
	f := r.N(2)
	return Op{ID: g.id(), K: "dec", A: slot, X: f | r.N(2)<<2, D: g.docOf(f, t)}
}

func (g *gen) cbDoc(slot int) Op {
	r := g.r
	t := &tnode{k: tObj}
	for i, n := 0, r.Range(2, 5); i < n; i++ {
		t.keys = append(t.keys, []string{"Name", "H", "A", "U", "a", "b"}[(i+r.N(2))%6])
		g.budget = 3
		t.ch = append(t.ch, g.tree(1))
	}
	if r.P(0.2) {
		t = &tnode{k: tArr, ch: t.ch}
	}
	f := r.N(2)
	return Op{ID: g.id(), K: "dec", A: slot, X: f | r.N(2)<<2, D: g.docOf(f, t)}
}

func (g *gen) fileContent() []byte {
	r := g.r
	n := []int{0, 1, 2, 3, 10, 100, 510, 511, 512, 513, 514, 600, 1023, 1024, 1025, 1500, 3000, 5000}[r.N(18)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	if r.P(0.2) && n >= 3 {
		copy(b, "\xEF\xBB\xBF")
	}
	return b
}

func (g *gen) bigBin() []byte {
	if g.r.P(0.3) {
		return g.fileContent()
	}
	return g.bin()
}

// ---------------------------------------------------------------- C05

func (x *exec) hostile(o *Op) string {
	f, cached, share := fmtOf(o.X)
	bad := func(kind, format string, a ...any) {
		x.e.report(kind, x.id, o.ID, "format %d entry %d: "+format, append([]any{f, o.I}, a...)...)
	}
	in := x.input(o, o.D, share)
	var v *dx.DxValue
	var err error
	p := try(func() {
		switch o.I {
		case 2:
			v = dx.NewValue(dx.ValueType(o.B % 10))
			err = loadInto(v, f, in, share)
		case 3:
			x.e.fs.Put("h", in)
			switch f {
			case fJSON:
				v, err = dx.NewValueFromJsonFile("h", cached)
			case fMsgPack:
				v, err = dx.NewValueFromMsgPackFile("h", cached)
			case fBson:
				v, err = decodeNew(f, in, cached, share)
			default:
				v, err = dx.NewValueFromYamlFile("h", cached)
			}
		case 4:
			v = dx.NewCacheValue(dx.ValueType(o.B % 10))
			if f == fJSON {
				err = dx.Unmarshal(in, v)
			} else {
				err = loadInto(v, f, in, share)
			}
		default:
			v, err = decodeNew(f, in, cached, share)
		}
	})
	if p != "" {
		bad("decode-panic", "%s", p)
		return p
	}
	if err != nil {
		rt.Count("decode-error")
		if t := errText(err); strings.HasPrefix(t, "ERRTEXT-") {
			bad("error-text-panic", "%s", t)
		}
		return "err"
	}
	rt.Count("decode-ok")
	if v == nil {
		if f != fYaml {
			bad("no-result", "neither a value nor an error")
		}
		return "nil"
	}
	if o.K == "deep" { // what takes no more than linear time
		for i, f := range []func(){func() { dx.Value2MsgPack(v, nil) }, func() { v.Clone(true) }, func() { dx.FreeValue(v) }} {
			if p := try(f); p != "" {
				bad("result-panic", "%d: %s", i, p)
			}
		}
		return "ok"
	}
	if _, b := snapBad(v, snapEnc); b != "" {
		bad("result-panic", "%s", b)
	}
	for _, c := range []bool{true, false} {
		if p := try(func() {
			w := v.Clone(c)
			snap(w, snapLight)
			dx.FreeValue(w)
		}); p != "" {
			bad("result-panic", "Clone: %s", p)
		}
	}
	if p := try(func() { v.ToStdValue(map[string]interface{}{}, false) }); p != "" {
		bad("result-panic", "ToStdValue: %s", p)
	}
	if p := try(func() { v.Equal(v) }); p != "" {
		bad("result-panic", "Equal: %s", p)
	}
	if p := try(func() { dx.FreeValue(v) }); p != "" {
		bad("result-panic", "FreeValue: %s", p)
	}
	return "ok"
}

// ---------------------------------------------------------------- C06

func (x *exec) prefix(o *Op) string {
	f, cached, share := fmtOf(o.X)
	decode := func(d []byte) (v *dx.DxValue, err error) {
		in := append(make([]byte, 0, len(d)+16), d...)
		// what lies behind the end of a buffer is not part of the document
		copy(in[len(d):cap(in)], o.D[len(d):])
		switch o.B {
		case 1:
			v = dx.NewCacheValue(dx.VT_Object)
			return v, loadInto(v, f, in, share)
		case 2:
			if f != fBson {
				x.e.fs.Put("h", d)
				if f == fJSON {
					return dx.NewValueFromJsonFile("h", cached)
				}
				return dx.NewValueFromMsgPackFile("h", cached)
			}
		}
		return decodeNew(f, in, cached, share)
	}
	full := ""
	if p := try(func() {
		v, err := decode(o.D)
		full = errText(err)
		if err == nil && v == nil {
			full = "nil"
		}
	}); p != "" || full != "ok" {
		rt.Count("document-rejected")
		return "rejected " + full + p
	}
	r := rt.NewRand(uint64(o.I))
	for k := 1; k < len(o.D); k++ {
		if len(o.D) > 200 && k > 60 && k < len(o.D)-40 && !r.P(60/float64(len(o.D))) {
			continue
		}
		rt.Count("fault:cut")
		p := try(func() {
			v, err := decode(o.D[:k])
			if err == nil {
				x.e.report("prefix-accepted", x.id, o.ID, "the first %d of %d bytes of a document (format %d) were accepted: %.200s", k, len(o.D), f, snap(v, snapLight))
			}
		})
		if p != "" {
			rt.Count("prefix-panic") // C05
		}
	}
	return "ok"
}

func checkC06(p *Plan) *Violation {
	r := runWorld(p, runOpt{only: -1, seq: true, tailProbe: true})
	if r.viol != nil {
		return r.viol
	}
	if p.X != 0 {
		return nil
	}
	if r.fail != nil {
		return nil
	}
	// what a complete save of the same value gives
	q := p.clone()
	q.Faults = nil
	ref := runWorld(q, runOpt{only: -1, seq: true, tailProbe: true})
	if ref.fail != nil {
		return nil
	}
	if len(p.Tasks) == 0 || len(p.Tasks[0].Ops) == 0 {
		return nil
	}
	save := p.Tasks[0].Ops[len(p.Tasks[0].Ops)-1]
	whole, ok := ref.fs.Get("f")
	if !ok || save.K != "savefile" {
		return nil
	}
	type state struct {
		what string
		b    []byte
		gone bool
	}
	left, has := r.fs.Get("f")
	states := []state{{"the file after the crash", left, !has}}
	rnd := rt.NewRand(p.Seed ^ 0xC06)
	if has {
		for i := 0; i < 6; i++ { // data that never reached the disk
			k := rnd.N(len(left) + 1)
			states = append(states, state{fmt.Sprintf("the first %d bytes the disk kept", k), left[:k], false})
			z := append(append([]byte(nil), left[:k]...), make([]byte, len(left)-k)...)
			if k < len(left) {
				states = append(states, state{fmt.Sprintf("the file with only the first %d bytes on disk and zeroes behind", k), z, false})
			}
		}
	}
	load := func(b []byte) (s string, err error) {
		w := rt.NewWorld(rt.Config{OpLimit: 3_000_000, Pool: fresh})
		fs := simos.NewSystem()
		fs.Put("f", b)
		w.FS = fs
		w.AddTask("reload", nil, func() {
			p := try(func() {
				var v *dx.DxValue
				v, err = dx.NewValueFromJsonFile("f", false)
				if err == nil {
					s = snap(v, snapLight)
				}
			})
			if p != "" {
				err = fmt.Errorf("%s", p)
			}
		})
		w.Run()
		tl.add(w)
		if w.Fail != nil && err == nil {
			err = fmt.Errorf("%s", w.Fail.Msg)
		}
		return
	}
	newDoc, newErr := load(whole)
	oldDoc, oldErr := "", error(nil)
	old, hadOld := p.Files["f"]
	if hadOld {
		oldDoc, oldErr = load(old)
	}
	for _, s := range states {
		if s.gone {
			continue
		}
		tl.Counts["fault:reload-after-crash"]++
		got, err := load(s.b)
		if err != nil || newErr == nil && got == newDoc || hadOld && oldErr == nil && got == oldDoc {
			continue
		}
		return &Violation{"part-accepted", 0, save.ID, fmt.Sprintf("%s (%d of %d bytes) loads without error as something that was never saved: %.200s", s.what, len(s.b), len(whole), got)}
	}
	return nil
}

// ---------------------------------------------------------------- C07, C08

func checkFiles(p *Plan) *Violation {
	r := runWorld(p, runOpt{only: -1})
	if r.viol != nil {
		return r.viol
	}
	if r.fail != nil {
		return failViol(r.fail)
	}
	if r.fs.Open != 0 {
		return &Violation{"file-left-open", -1, -1, fmt.Sprintf("%d files are still open after all calls returned", r.fs.Open)}
	}
	return nil
}

// ---------------------------------------------------------------- C12

var regModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := make([][]porcupine.Operation, len(htypes))
		for _, o := range h {
			t := o.Input.(regIn).Type
			m[t] = append(m[t], o)
		}
		return m
	},
	Init: func() any { return int64(0) },
	Step: func(st, in, out any) (bool, any) {
		i := in.(regIn)
		if i.Write {
			return true, i.Val
		}
		return out.(int64) == st.(int64), st
	},
	Equal: func(a, b any) bool { return a == b },
}

func checkC12(p *Plan) *Violation {
	r := runWorld(p, runOpt{only: -1, history: true, race: true})
	if r.viol != nil {
		return r.viol
	}
	if r.fail != nil {
		return failViol(r.fail)
	}
	var h []porcupine.Operation
	// Uses of the same handler during the same conversion share one operation, the one that ends first: wherever it can be
	// placed, the others can be placed as well.
	type useKey struct {
		task, op, ty int
		out          any
	}
	first := map[useKey]int64{}
	for _, e := range r.e.events {
		if i := e.in.(regIn); !i.Write {
			k := useKey{e.task, e.op, i.Type, e.out}
			if t, ok := first[k]; !ok || e.ret < t {
				first[k] = e.ret
			}
		}
	}
	for _, e := range r.e.events {
		if i := e.in.(regIn); !i.Write {
			k := useKey{e.task, e.op, i.Type, e.out}
			if t, ok := first[k]; !ok || e.ret != t {
				continue
			}
			delete(first, k)
		}
		out := e.out
		if out == nil {
			out = int64(0)
		}
		h = append(h, porcupine.Operation{ClientId: e.task, Input: e.in, Call: e.call, Output: out, Return: e.ret})
	}
	for _, a := range r.e.events {
		for _, b := range r.e.events {
			if a.in.(regIn).Write && !b.in.(regIn).Write && a.task != b.task && a.call < b.ret && b.call < a.ret {
				tl.Counts["probe:overlap"]++
			}
		}
	}
	if porcupine.CheckOperations(regModel, h) {
		return nil
	}
	s := ""
	for _, e := range r.e.events {
		i := e.in.(regIn)
		if i.Write {
			s += fmt.Sprintf(" [%d,%d] task %d registers %d for type %d;", e.call, e.ret, e.task, i.Val, i.Type)
		} else {
			s += fmt.Sprintf(" [%d,%d] task %d uses %v for type %d;", e.call, e.ret, e.task, e.out, i.Type)
		}
	}
	return &Violation{"not-linearizable", -1, -1, "no order of the registrations explains which handlers were used:" + s}
}

// ---------------------------------------------------------------- C13

func checkC13(p *Plan) *Violation {
	a := runWorld(p, seqOpt())
	b := runWorld(p, runOpt{only: -1, seq: true, pool: &fresh, skip: func(o *Op) bool { return o.Tag == "dirty" }})
	if a.fail != nil || b.fail != nil {
		if b.fail == nil && dirtyDone(p, a) {
			return failViol(a.fail)
		}
		return nil
	}
	// content is compared only after a load that succeeded
	good := false
	for _, o := range p.Tasks[0].Ops {
		if o.Tag == "dirty" || o.K == "new" || o.K == "dec" {
			continue
		}
		la, lb := a.x[0].log[o.ID], b.x[0].log[o.ID]
		if o.K == "load" {
			if blankDoc(&o) { // nothing to load: the value may stay as it was
				good = false
				continue
			}
			good = lb == "ok"
			if good {
				tl.Counts["probe:loaded"]++
			}
		} else if !good {
			continue
		}
		if la != lb {
			return &Violation{"load-differs", 0, o.ID, fmt.Sprintf("operation %d (%s) on a used value differs from a new one: %s", o.ID, o.K, diffAt(la, lb))}
		}
	}
	return nil
}

// blankDoc tells whether the document of a load holds no value at all.
func blankDoc(o *Op) bool {
	f, _, _ := fmtOf(o.X)
	if f == 1 || f == 2 {
		return len(o.D) == 0
	}
	for _, l := range strings.Split(string(o.D), "\n") {
		l = strings.TrimSpace(l)
		if l != "" && !(f == 3 && (l[0] == '#' || strings.HasPrefix(l, "---"))) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C14

// copyOp makes a copy of n in slot B by one of the copying calls.
func (x *exec) copyOp(o *Op, n *dx.DxValue) string {
	if size(n, 0) > 300 {
		return "big"
	}
	var c *dx.DxValue
	container := n.Type() == dx.VT_Object || n.Type() == dx.VT_Array
	switch o.X % 13 {
	case 0:
		c = n.Clone(false)
	case 1:
		c = n.Clone(true)
	case 2:
		c = dx.NewValue(dx.ValueType(o.I % 2))
		c.CopyFrom(n, nil)
	case 3:
		c = dx.NewCacheValue(dx.ValueType(o.I % 2))
		c.CopyFrom(n, c.ValueCache())
	case 4:
		c = dx.NewCacheValue(dx.VT_Int)
		c.SetValue(n)
	case 5:
		c = dx.NewValueFrom(n, o.I&1 == 1)
	case 6: // into a used value
		c = dx.NewCacheValue(dx.VT_Object)
		c.SetKeyInt("left", 5)
		c.SetKeyString("over", "x\\n")
		c.CopyFrom(n, c.ValueCache())
	case 7:
		if !container {
			c = n.Clone(true)
		} else {
			c = dx.NewCacheValue(n.Type())
			c.AddFrom(n, c.ValueCache())
		}
	case 8: // into a value without a cache
		if !container {
			c = n.Clone(false)
		} else {
			c = dx.NewValue(n.Type())
			c.AddFrom(n, nil)
		}
	case 9: // into a used value without a cache
		c = dx.NewValue([]dx.ValueType{dx.VT_Binary, dx.VT_String, dx.VT_Array, dx.VT_DateTime}[o.I%4])
		c.SetBinary([]byte("left over"), true)
		if o.I%4 == 2 {
			c.SetIndexString(0, "left")
		}
		c.CopyFrom(n, nil)
	case 10:
		if !container {
			c = n.Clone(true)
		} else {
			c = dx.NewCacheValue(n.Type())
			c.AddFrom(n, nil)
		}
	case 11: // by a merge into an empty value
		if n.Type() != dx.VT_Array { // (a merge writes the keys of an object anew)
			c = n.Clone(o.I&1 == 1)
			break
		}
		if c = dx.NewValue(n.Type()); o.I&1 == 1 {
			c = dx.NewCacheValue(n.Type())
		}
		c.MergeWith(n, nil)
	case 12:
		c = dx.NewValue(dx.ValueType(o.I % 3))
		c.SetValue(*n)
	}
	x.set(o.B, c)
	if n.Count() > 0 || n.BinLen() > 0 {
		rt.Count("probe:copied")
	}
	a, b := snap(n, snapEnc), snap(c, snapEnc)
	if a != b {
		x.e.report("copy-differs", x.id, o.ID, "the copy (call %d) is not equal to its source: %s", o.X%13, diffAt(b, a))
	}
	if p := try(func() {
		if !hasNaN(n, 0) && (!n.Equal(c) || !c.Equal(n)) {
			x.e.report("copy-not-equal", x.id, o.ID, "Equal says that the copy (call %d) differs from its source", o.X%13)
		}
	}); p != "" {
		x.e.report("copy-not-equal", x.id, o.ID, "Equal of copy and source: %s", p)
	}
	return a
}

func hasNaN(v *dx.DxValue, d int) bool {
	if v == nil || d > 30 {
		return false
	}
	if t := v.Type(); t == dx.VT_NAN {
		return true
	}
	if f := v.Double(); f != f {
		return true
	}
	for i := 0; i < v.Count(); i++ {
		if hasNaN(v.ValueByIndex(i), d+1) {
			return true
		}
	}
	return false
}

func checkC14(p *Plan) *Violation {
	r := runWorld(p, runOpt{only: -1, race: true})
	if r.e.viol != nil {
		return r.e.viol
	}
	if r.fail != nil {
		if sharedFail(r.fail) && (p.X != 2 || len(r.e.shared) >= 2) {
			return failViol(r.fail)
		}
		return nil
	}
	if p.X != 2 {
		return nil
	}
	if len(r.e.shared) < 2 {
		return nil
	}
	return soloCompare(p, r, "copy-dependent", "without the other task working on its copy it sees something else", nil, nil, nil)
}

var _ = binary.LittleEndian
