// Command dst is the deterministic simulator of dxsvalue.
//
//	dst check PROP            search (VERIF_SEED, VERIF_TIER), minimise, report; writes the evidence file
//	dst replay FILE           run one replay file
//	dst one PROP SEED         run one seed and show what happened
//	dst tally PROP N [BASE]   run N seeds in this process (development)
//	dst worker ...            used by check
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	osexec "os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/rt"
)

func sortStrings(s []string) { sort.Strings(s) }

func die(code int, format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(code)
}

func main() {
	if len(os.Args) < 2 {
		die(2, "usage: dst check|replay|one|tally ...")
	}
	rt.SaveGlobals()
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "minimise":
		cmdMinimise()
	case "child":
		cmdChild()
	case "peer":
		cmdPeer()
	case "worker":
		cmdWorker(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2])
	case "one":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		p := generate(os.Args[2], seed)
		fmt.Printf("%s", planJSON(p))
		v, trouble := safeCheck(p)
		if trouble != "" {
			die(2, "TROUBLE %s", trouble)
		}
		fmt.Printf("%+v\n", v)
		if v != nil && len(os.Args) > 4 {
			q, n := shrink(p, v, 20*time.Second)
			fmt.Printf("minimised in %d runs:\n%s", n, planJSON(q))
		}
	case "digest": // digest PROP SEED [WARMUP]: everything one seed observes (to track down nondeterminism)
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		if len(os.Args) > 4 {
			n, _ := strconv.Atoi(os.Args[4])
			for i := 0; i < n; i++ {
				tl = newTally()
				safeCheck(generate(os.Args[2], uint64(i)))
			}
		}
		digestDump = true
		fmt.Println(digestOf(os.Args[2], seed))
	case "panics":
		cmdPanics(os.Args[2:])
	case "tally":
		cmdTally(os.Args[2:])
	default:
		die(2, "unknown command %s", os.Args[1])
	}
}

func cmdTally(a []string) {
	id := a[0]
	n, _ := strconv.Atoi(a[1])
	base := 0
	if len(a) > 2 {
		base, _ = strconv.Atoi(a[2])
	}
	kinds := map[string]int{}
	t := time.Now()
	nt := 0
	total := newTally()
	for i := 0; i < n; i++ {
		p := generate(id, uint64(base+i))
		tl = newTally()
		v, trouble := safeCheck(p)
		if nontrivial(p, tl) {
			nt++
		}
		total.merge(tl)
		if trouble != "" {
			v = &Violation{Kind: "TROUBLE", Msg: trouble}
		}
		if v != nil {
			kinds[v.Kind]++
			if kinds[v.Kind] < 4 {
				fmt.Printf("seed %d: %+v\n", base+i, *v)
			}
		}
	}
	fmt.Println(id, n, time.Since(t), kinds, "nontrivial", nt, total.Counts, total.Worlds, total.Steps, len(total.Inter), "pool", total.PoolHit, total.PoolMiss)
}

// ---------------------------------------------------------------- worker

type workerOut struct {
	T         *tally
	Nontriv   int
	Distinct  []uint64 // hashes of non-trivial executions
	Hits      []uint32
	Digests   map[string]uint64 // seed -> digest of the first plans
	Viol      *Plan
	ViolSeed  uint64
	Trouble   string
	Samples   []string
	Kept      map[string]int
	WallS     float64
	Known     []string
	Inter     int
	FirstSeed uint64
}

const probeSeeds = 24

// seedOf: the k-th seed of worker w.
func seedOf(base uint64, w, nw, k int) uint64 {
	return rt.Mix(base, 0xD57)&^0xffffffff | uint64(k*nw+w)
}

func digestOf(id string, seed uint64) uint64 {
	digesting = true
	defer func() { digesting = false }()
	keep := tl
	tl = newTally()
	p := generate(id, seed)
	v, trouble := safeCheck(p)
	d := tl.Digest
	if v != nil {
		d = rt.Mix(d, uint64(len(v.Kind)+len(v.Msg)))
	}
	if trouble != "" {
		d = rt.Mix(d, 1)
	}
	tl = keep
	return d
}

func planHash(p *Plan) uint64 {
	q := *p
	q.Seed = 0
	b, _ := json.Marshal(&q)
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

func cmdWorker(a []string) {
	fl := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fl.String("p", "", "")
	base := fl.Uint64("base", 1, "")
	w := fl.Int("w", 0, "")
	nw := fl.Int("nw", 1, "")
	secs := fl.Float64("secs", 10, "")
	max := fl.Int("max", 1<<30, "")
	out := fl.String("o", "", "")
	fl.Parse(a)
	o := &workerOut{T: newTally(), Digests: map[string]uint64{}, Kept: map[string]int{}, FirstSeed: seedOf(*base, *w, *nw, 0)}
	start := time.Now()
	limit := time.Duration(*secs * float64(time.Second))
	distinct := map[uint64]bool{}
	at, err := os.Create(*out + ".seed")
	if err != nil {
		die(2, "worker: %v", err)
	}
	var b8 [8]byte
	looked, stop := start, filepath.Join(filepath.Dir(*out), "stop")
	stopped := false
	for k := 0; k < *max; k++ {
		if k > 0 && time.Since(start) > limit {
			break
		}
		if time.Since(looked) > 200*time.Millisecond { // another worker has found a violation
			looked = time.Now()
			if _, err := os.Stat(stop); err == nil {
				stopped = true
				break
			}
		}
		seed := seedOf(*base, *w, *nw, k)
		binary.LittleEndian.PutUint64(b8[:], seed)
		at.WriteAt(b8[:], 0)
		p := generate(*id, seed)
		if k < 2 && *w == 0 {
			o.Samples = append(o.Samples, describe(p))
		}
		tl = newTally()
		tl.Plans = 1
		v, trouble := safeCheck(p)
		if trouble != "" {
			o.Trouble = fmt.Sprintf("seed %d: %s", seed, trouble)
			break
		}
		if v != nil {
			o.Viol, o.ViolSeed = p, seed
			p.Violation = v
			o.T.merge(tl)
			break
		}
		if nontrivial(p, tl) {
			o.Nontriv++
			if len(distinct) < 1_500_000 {
				distinct[rt.Mix(planHash(p), tl.MainInter)] = true
			}
		}
		o.T.merge(tl)
	}
	if o.Trouble == "" && o.Viol == nil && !stopped {
		// determinism: the first seeds of this worker and of the one beside it (which has the same time zone)
		for k := 0; k < probeSeeds; k++ {
			for _, x := range []int{*w, (*w ^ 1) % *nw} {
				s := seedOf(*base, x, *nw, k)
				d := digestOf(*id, s)
				key := strconv.FormatUint(s, 10)
				if old, ok := o.Digests[key]; ok && old != d {
					o.Trouble = "nondeterminism: seed " + key
				}
				o.Digests[key] = d
			}
		}
	}
	for h := range distinct {
		o.Distinct = append(o.Distinct, h)
	}
	o.Hits = rt.Hits
	o.WallS = time.Since(start).Seconds()
	o.Inter = len(o.T.Inter)
	b, err := json.Marshal(o)
	if err != nil {
		die(2, "worker: %v", err)
	}
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		die(2, "worker: %v", err)
	}
}

// describe writes a plan in one line.
func describe(p *Plan) string {
	var b strings.Builder
	var ops func(l []Op)
	ops = func(l []Op) {
		for i, o := range l {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(o.K)
			if len(o.D) > 0 {
				d := o.D
				if len(d) > 48 {
					d = d[:48]
				}
				fmt.Fprintf(&b, "%q", d)
			}
			if len(o.Sub) > 0 {
				b.WriteString("(")
				ops(o.Sub)
				b.WriteString(")")
			}
		}
	}
	fmt.Fprintf(&b, "seed %d sched %s pool %s/drop %.1f/miss %.1f clock %s", p.Seed, p.Sched.Mode, p.Pool.Mode, p.Pool.Drop, p.Pool.Miss, p.Clock.Mode)
	if len(p.Setup) > 0 {
		b.WriteString(" setup: ")
		ops(p.Setup)
	}
	for i, t := range p.Tasks {
		fmt.Fprintf(&b, " task %d: ", i)
		ops(t.Ops)
	}
	for _, f := range p.Faults {
		fmt.Fprintf(&b, " fault %s/%s op %d nth %d arg %d", f.Call, f.Kind, f.Op, f.Nth, f.Arg)
	}
	return b.String()
}

// ---------------------------------------------------------------- check

func envInt(k string, d uint64) uint64 {
	if s := os.Getenv(k); s != "" {
		if n, err := strconv.ParseUint(s, 10, 64); err == nil {
			return n
		}
		// any other text is a seed as well
		h := uint64(7)
		for _, c := range []byte(s) {
			h = h*131 + uint64(c)
		}
		return h >> 12
	}
	return d
}

type known struct{ prop, kind, what string }

func cmdCheck(a []string) {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	verif := fl.String("verif", "/verif", "")
	secs := fl.Float64("secs", 0, "")
	nw := fl.Int("nw", 8, "")
	sites := fl.String("sites", "", "directory with the tables of instrumented statements")
	if len(a) < 1 || props[a[0]] == nil {
		die(2, "unknown property")
	}
	id := a[0]
	fl.Parse(a[1:])
	seed := envInt("VERIF_SEED", 1)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if *secs == 0 {
		*secs = 30
		if tier == "thorough" {
			*secs = 600
		}
	}
	start := time.Now()
	fmt.Printf("dst: property %s tier %s seed %d\n", id, tier, seed)
	exe, err := os.Executable()
	if err != nil {
		die(2, "%v", err)
	}
	tmp, err := os.MkdirTemp("", "dst")
	if err != nil {
		die(2, "%v", err)
	}
	defer os.RemoveAll(tmp)
	outs := make([]*workerOut, *nw)
	errs := make([]error, *nw)
	var wg sync.WaitGroup
	for w := 0; w < *nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			outs[w], errs[w] = runWorker(exe, filepath.Join(tmp, fmt.Sprint(w)), id, seed, w, *nw, *secs)
			if errs[w] == nil && outs[w].Viol != nil {
				time.Sleep(time.Second)
				os.WriteFile(filepath.Join(tmp, "stop"), nil, 0o644)
			}
		}(w)
	}
	wg.Wait()
	for w, e := range errs {
		if e != nil {
			os.RemoveAll(tmp)
			die(2, "dst: worker %d: %v", w, e)
		}
	}
	for w, o := range outs {
		if o.Trouble != "" {
			os.RemoveAll(tmp)
			die(2, "dst: worker %d: %s", w, o.Trouble)
		}
	}
	probes := 0
	dig := map[string]uint64{}
	for _, o := range outs {
		for k, d := range o.Digests {
			if old, ok := dig[k]; ok {
				probes++
				if old != d {
					os.RemoveAll(tmp)
					die(2, "dst: seed %s ran differently in two processes", k)
				}
			}
			dig[k] = d
		}
	}
	// the violation with the shortest plan is minimised and replayed in a fresh process
	var bad *Plan
	n := 0
	for _, o := range outs {
		if o.Viol != nil {
			n++
			if bad == nil || o.Viol.numOps() < bad.numOps() {
				bad = o.Viol
			}
		}
	}
	replay := ""
	if bad != nil {
		dir := filepath.Join(*verif, "replays")
		os.MkdirAll(dir, 0o755)
		orig := bad.clone()
		small, tries, err := minimise(exe, bad)
		if err != nil {
			os.RemoveAll(tmp)
			die(2, "dst: the violation found at seed %d does not show up again (%v): %+v", bad.Seed, err, orig.Violation)
		}
		v := small.Violation
		replay = filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, seed))
		ok := false
		for _, c := range []*Plan{small, orig} {
			if err := os.WriteFile(replay, planJSON(c), 0o644); err != nil {
				die(2, "dst: %v", err)
			}
			cmd := osexec.Command(exe, "replay", replay)
			cmd.Env = workerEnv(c.Zone)
			b, _ := cmd.CombinedOutput()
			if cmd.ProcessState.ExitCode() == 1 && bytes.Contains(b, []byte("REPRODUCED")) {
				ok = true
				v = c.Violation
				break
			}
		}
		if !ok {
			os.RemoveAll(tmp)
			die(2, "dst: the violation does not replay in a fresh process: %+v", v)
		}
		fmt.Printf("dst: %s (seed %d, minimised from %d to %d operations in %d runs)\n", v.Kind, bad.Seed, orig.numOps(), small.numOps(), tries)
		fmt.Printf("dst: task %d operation %d: %s\n", v.Task, v.Op, v.Msg)
	}
	writeEvidence(*verif, *sites, id, tier, seed, outs, probes, n, time.Since(start))
	os.RemoveAll(tmp)
	if replay != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		os.Exit(1)
	}
	t := newTally()
	for _, o := range outs {
		t.Plans += o.T.Plans
		t.Worlds += o.T.Worlds
	}
	fmt.Printf("dst: %s held on %d plans (%d simulated executions) in %.0f s\n", id, t.Plans, t.Worlds, time.Since(start).Seconds())
}

// zones of the workers, by pairs. The zone is fixed when a process starts, as in a real one.
var zones = []string{"UTC", "America/New_York", "Asia/Shanghai", "Australia/Lord_Howe"}

func workerEnv(zone string) []string {
	var e []string
	for _, s := range os.Environ() {
		if !strings.HasPrefix(s, "GOMAXPROCS=") && !strings.HasPrefix(s, "GOGC=") && !strings.HasPrefix(s, "TZ=") {
			e = append(e, s)
		}
	}
	return append(e, "GOMAXPROCS=1", "GOGC=300", "TZ="+zone)
}

func runWorker(exe, out, id string, seed uint64, w, nw int, secs float64) (*workerOut, error) {
	cmd := osexec.Command(exe, "worker", "-p", id, "-base", fmt.Sprint(seed), "-w", fmt.Sprint(w), "-nw", fmt.Sprint(nw), "-secs", fmt.Sprint(secs), "-o", out)
	cmd.Env = workerEnv(zones[w/2%len(zones)])
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	t := time.AfterFunc(time.Duration((secs+150)*float64(time.Second)), func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	if err != nil {
		s := b.String()
		if at, e := os.ReadFile(out + ".seed"); e == nil && len(at) == 8 {
			if p := afterDeath(exe, id, zones[w/2%len(zones)], binary.LittleEndian.Uint64(at), s); p != nil {
				return &workerOut{T: newTally(), Viol: p, ViolSeed: p.Seed}, nil
			}
		}
		if len(s) > 3000 {
			s = s[:3000]
		}
		return nil, fmt.Errorf("%v: %s", err, s)
	}
	f, err := os.Open(out)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	o := &workerOut{}
	if err := json.NewDecoder(bufio.NewReader(f)).Decode(o); err != nil {
		return nil, err
	}
	return o, nil
}

// minimise shrinks a violating plan in a process of its own.
func minimise(exe string, p *Plan) (*Plan, int, error) {
	c := osexec.Command(exe, "minimise")
	c.Env = workerEnv(p.Zone)
	c.Stdin = bytes.NewReader(planJSON(p))
	var out, errs bytes.Buffer
	c.Stdout, c.Stderr = &out, &errs
	if err := c.Run(); err != nil {
		return nil, 0, fmt.Errorf("%v: %.2000s", err, errs.String())
	}
	var m minimised
	if err := json.Unmarshal(out.Bytes(), &m); err != nil {
		return nil, 0, err
	}
	return m.Plan, m.Tries, nil
}

type minimised struct {
	Plan  *Plan
	Tries int
}

func cmdMinimise() {
	var p Plan
	b, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(b, &p)
	}
	if err != nil {
		die(2, "%v", err)
	}
	kind := ""
	if p.Violation != nil {
		kind = p.Violation.Kind
	}
	p.Violation = nil
	v, trouble := safeCheckBy(&p, checkOf(&p, kind))
	if trouble != "" || v == nil {
		die(2, "no violation %s", trouble)
	}
	q, n := shrink(&p, v, 45*time.Second)
	b, err = json.Marshal(minimised{q, n})
	if err != nil {
		die(2, "%v", err)
	}
	os.Stdout.Write(b)
}

// ---------------------------------------------------------------- replay

func cmdReplay(name string) {
	p, err := loadPlan(name)
	if err != nil {
		die(2, "%v", err)
	}
	if p.Zone != os.Getenv("TZ") && p.Zone != "" { // the zone of a process is fixed when it starts
		exe, err := os.Executable()
		if err != nil {
			die(2, "%v", err)
		}
		c := osexec.Command(exe, "replay", name)
		c.Env, c.Stdout, c.Stderr = workerEnv(p.Zone), os.Stdout, os.Stderr
		if c.Run() != nil {
			os.Exit(c.ProcessState.ExitCode())
		}
		return
	}
	if props[p.Prop] == nil {
		die(2, "no property %s", p.Prop)
	}
	want := p.Violation
	p.Violation = nil
	kind := ""
	if want != nil {
		kind = want.Kind
	}
	v, trouble := safeCheckBy(p, checkOf(p, kind))
	if trouble != "" {
		die(2, "TROUBLE %s", trouble)
	}
	fmt.Println(describe(p))
	for _, d := range p.Sched.Decisions {
		fmt.Printf("schedule: in task %d operation %d after %d steps -> task %d\n", d.T, d.Op, d.Step, d.To)
	}
	if v == nil {
		fmt.Println("no violation")
		return
	}
	fmt.Printf("%s: task %d operation %d: %s\n", v.Kind, v.Task, v.Op, v.Msg)
	if want != nil && want.Kind == v.Kind && want.Msg == v.Msg {
		fmt.Println("REPRODUCED")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.Prop, name)
	os.Exit(1)
}

// ---------------------------------------------------------------- evidence

func loadSites(dir string) (names []string, base int) {
	b, err := os.ReadFile(filepath.Join(dir, "sites2.json"))
	if err != nil {
		return nil, 0
	}
	var s struct {
		Base  int      `json:"base"`
		Sites []string `json:"sites"`
	}
	json.Unmarshal(b, &s)
	return s.Sites, s.Base
}

func init() {
	rt.SiteName = func(site uint32) string {
		if exe, err := os.Executable(); err == nil {
			if names, base := loadSites(filepath.Dir(exe)); int(site) > base && int(site)-base <= len(names) {
				return names[int(site)-base-1]
			}
		}
		return fmt.Sprint("site ", site)
	}
}

func writeEvidence(verif, sites, id, tier string, seed uint64, outs []*workerOut, probes, violations int, wall time.Duration) {
	t := newTally()
	distinct := map[uint64]bool{}
	nontriv, inter := 0, 0
	var samples []string
	var hits []uint64
	search := 0.0
	for _, o := range outs {
		o.T.Shapes = nil
		inter += 0
		t.merge(o.T)
		nontriv += o.Nontriv
		for _, h := range o.Distinct {
			distinct[h] = true
		}
		samples = append(samples, o.Samples...)
		for i, h := range o.Hits {
			for len(hits) <= i {
				hits = append(hits, 0)
			}
			hits[i] += uint64(h)
		}
		if o.WallS > search {
			search = o.WallS
		}
	}
	faults, probesHit := map[string]int{}, map[string]int{}
	for k, v := range t.Counts {
		if strings.HasPrefix(k, "fault:") {
			faults[k[6:]] = v
		} else {
			probesHit[k] = v
		}
	}
	if t.PoolForced > 0 {
		faults["recycler-miss"] = t.PoolForced
	}
	if t.PoolDrop > 0 {
		faults["recycler-drop"] = t.PoolDrop
	}
	if t.ClockJumps > 0 {
		faults["clock-jump"] = t.ClockJumps
	}
	if t.Crashes > 0 {
		faults["process-crash"] = t.Crashes
	}
	if t.Switches > 0 {
		faults["preemption"] = t.Switches
	}
	cov := map[string]any{
		"evaluations":             t.Plans,
		"distinct_nontrivial":     len(distinct),
		"rule":                    props[id].rule + "; distinct: different plan (programs, documents, faults, pool, clock) or different interleaving",
		"samples":                 samples,
		"simulated_executions":    t.Worlds,
		"plans_per_hour":          int(float64(t.Plans) / search * 3600),
		"executions_per_hour":     int(float64(t.Worlds) / search * 3600),
		"statements_executed":     t.Steps,
		"simulated_time_s":        float64(t.SimNS) / 1e9,
		"simulated_time_note":     "100 ns per executed statement plus what the simulated clock was moved",
		"faults_injected":         faults,
		"probes":                  probesHit,
		"task_switches":           t.Switches,
		"distinct_interleavings":  len(t.Inter),
		"interleaving_measure":    "hash over the sequence of (statement, from task, to task) of all switches of one execution with more than one switch",
		"recycler":                map[string]int{"hits": t.PoolHit, "misses": t.PoolMiss},
		"clock_reads":             t.ClockReads,
		"blocked_waits":           t.Blocks,
		"determinism_seeds_rerun": probes,
		"real_code":               []string{"every .go file of the dxsvalue package in /repo (instrumented copy)", "DxCommonLib strfuncs.go and delphi_time.go (instrumented copy)"},
		"stubbed":                 []string{"goroutine scheduling", "sync (Pool, Mutex, RWMutex, Once, WaitGroup, Map, Cond, atomic)", "time.Now and timers", "os and ioutil file access (in-memory disk)", "map iteration order"},
	}
	if names, base := loadSites(sites); names != nil {
		reached := 0
		byFile := map[string][2]int{}
		for i, n := range names {
			f := n[:strings.LastIndexByte(n, ':')]
			c := byFile[f]
			c[1]++
			if j := base + i + 1; j < len(hits) && hits[j] > 0 {
				reached++
				c[0]++
			}
			byFile[f] = c
		}
		fs := map[string]string{}
		for f, c := range byFile {
			fs[f] = fmt.Sprintf("%d/%d", c[0], c[1])
		}
		cov["statements_reached"] = fmt.Sprintf("%d of %d in dxsvalue", reached, len(names))
		cov["statements_reached_by_file"] = fs
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{"statements are atomic with respect to each other (interleavings inside one Go statement and weak memory effects are not simulated)", "the search samples schedules, faults and programs; it does not enumerate them"},
		"wall_s":      wall.Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		die(2, "dst: %v", err)
	}
}

// nontrivial: did the plan exercise what its rule says?
func nontrivial(p *Plan, t *tally) bool {
	switch p.Prop {
	case "C01", "C10":
		return t.MainSwitches >= 2
	case "C02":
		return p.X == 1 || t.PoolHit > 0
	case "C03":
		return t.Counts["probe:constant-write"] > 0
	case "C04":
		return t.Counts["probe:decode-failed"] > 0
	case "C05":
		return t.Counts["decode-error"]+t.Counts["decode-ok"] > 0
	case "C06":
		return t.Counts["fault:cut"] > 2 || t.Crashes > 0
	case "C07", "C08":
		for k := range t.Counts {
			if strings.HasPrefix(k, "fault:") {
				return true
			}
		}
		return false
	case "C09":
		return t.Counts["fault:buffer-overwritten"] > 0
	case "C11":
		return t.ClockReads > 0 || t.Counts["probe:date"] > 0
	case "C12":
		return t.Counts["probe:overlap"] > 0
	case "C13":
		return t.Counts["probe:loaded"] > 0
	case "C14":
		return t.Counts["probe:copied"] > 0
	case "C15":
		return t.Counts["probe:held"] > 0
	case "C16":
		return t.Counts["callback"] > 0
	case "C17":
		return p.numOps() >= 5
	case "C18":
		return t.Counts["probe:map-entries"] >= 2
	case "C19":
		return t.Counts["probe:replaced"] > 0
	case "C23":
		n := 0
		for k, c := range t.Counts {
			if strings.HasPrefix(k, "model:") && k != "model:resync" {
				n += c
			}
		}
		return n >= 5
	case "C28":
		return t.Counts["probe:rebuilt"] > 0
	case "C27":
		return t.PoolHit > 20
	case "C25":
		return t.Counts["model:merge"] > 0
	}
	return true
}
