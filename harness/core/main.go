package core

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	sim "github.com/iand/starbow/internal/zzvsim"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(2)
}

// Main is the entry point of the instrumented program.
func Main(starbow func()) {
	StarbowMain = starbow
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		die("usage: check|worker|replay|hashes")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	n := fs.Int("n", 0, "")
	wall := fs.Float64("wall", 0, "")
	out := fs.String("out", "", "")
	verif := fs.String("verif", "/verif", "")
	scratch := fs.String("scratch", "", "")
	workers := fs.Int("workers", 8, "")
	known := fs.String("known", "", "")
	file := fs.String("file", "", "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "replay":
		replayFile(*file)
		return
	}
	p := props[*prop]
	if p == nil {
		die("unknown property %q", *prop)
	}
	switch os.Args[1] {
	case "worker":
		worker(p, *seed, *tier, *from, *step, *n, *wall, *out, *known)
	case "hashes":
		hot := calibrate(p, *seed, *tier == "thorough")
		for i := *from; i < *from+*n; i += *step {
			sc, sd, st := makeCase(p, *seed, i, *tier == "thorough", hot)
			r, v, broken := Execute(p, sc, sd, st, nil, false, false)
			fmt.Printf("%d %016x %v %q\n", i, r.hash, v, broken)
			// and the recorded schedule replays to the same execution
			r2, v2, _ := Execute(p, sc, sd, st, r.Recs, true, false)
			if r2.hash != r.hash || (v == nil) != (v2 == nil) {
				fmt.Printf("%d REPLAY DIFFERS %016x\n", i, r2.hash)
				a, _, _ := Execute(p, sc, sd, st, nil, false, true)
				b, _, _ := Execute(p, sc, sd, st, r.Recs, true, true)
				for x := 0; x < len(a.Logs) || x < len(b.Logs); x++ {
					if x >= len(a.Logs) || x >= len(b.Logs) || a.Logs[x] != b.Logs[x] {
						fmt.Println(strings.Join(a.Logs[x:], "\n  first "))
						fmt.Println(strings.Join(b.Logs[x:], "\n  replay "))
						break
					}
				}
				for k := range r.Recs {
					a, b := r.Recs[k].Trace, r2.Recs[k].Trace
					for j := 0; j < len(a) || j < len(b); j++ {
						if j >= len(a) || j >= len(b) || a[j] != b[j] {
							fmt.Printf("  simulation %d: decision %d of %d/%d differs\n", k, j, len(a), len(b))
							for x := j - 2; x < j+3; x++ {
								if x >= 0 && x < len(a) {
									fmt.Printf("    first  %+v\n", a[x])
								}
								if x >= 0 && x < len(b) {
									fmt.Printf("    replay %+v\n", b[x])
								}
							}
							break
						}
					}
				}
			}
		}
	case "case":
		hot := calibrate(p, *seed, *tier == "thorough")
		sc, sd, st := makeCase(p, *seed, *from, *tier == "thorough", hot)
		r, v, broken := Execute(p, sc, sd, st, nil, false, true)
		b, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(b), st, v, broken)
		for _, l := range r.Logs {
			fmt.Println(l)
		}
	case "check":
		check(p, *seed, *tier, *n, *wall, *verif, *scratch, *workers)
	default:
		die("unknown mode")
	}
}

// calibrate finds which scheduling sites this property's workload reaches, by a
// fixed set of runs.
var calibrating func(i int)

func calibrate(p *Prop, base uint64, thorough bool) []int32 {
	runs := 12
	if v, err := strconv.Atoi(os.Getenv("VERIF_CALIB")); err == nil {
		runs = v // an earlier process got stuck in the run after these
	}
	for i := 0; i < runs; i++ {
		if calibrating != nil {
			calibrating(i)
		}
		sc, sd, st := makeCase(p, base, 1_000_000_000+i, thorough, nil)
		Execute(p, sc, sd, st, nil, false, false)
	}
	var hot []int32
	for i := 1; i < len(sim.Seen); i++ {
		if sim.Seen[i] != 0 {
			hot = append(hot, int32(i))
		}
	}
	return hot
}

type sample struct {
	Index    int              `json:"run_index"`
	Seed     uint64           `json:"run_seed"`
	Strategy sim.Strategy     `json:"strategy"`
	Scenario json.RawMessage  `json:"scenario"`
	Schedule string           `json:"schedule"`
	Faults   map[string]int64 `json:"faults_fired,omitempty"`
	Steps    int64            `json:"steps"`
}

type workerOut struct {
	Runs, NonTrivial int64
	Steps, Switches  int64
	Preempts, Events int64
	SimNanos         int64
	Faults, Probes   map[string]int64
	Strategies       map[string]int64
	Sites            []int
	Pairs            int
	MaxSteps         int64
	Samples          []sample
	KnownSeen        map[string]int64
	KnownMsg         map[string]string
	Violation        *Case
	Broken           string
	Stuck            int // 1 + index of a run that blocked outside the simulator; -1-i: calibration run i
	Wall             float64
	Hashes           int
	PairList         []uint64
}

func add(dst *map[string]int64, src map[string]int64) {
	if *dst == nil {
		*dst = map[string]int64{}
	}
	for k, v := range src {
		(*dst)[k] += v
	}
}

func hashString(r *Run) string { return fmt.Sprintf("%016x", r.hash) }

func buildCase(p *Prop, base uint64, tier string, index int, sd uint64, st sim.Strategy, sc interface{}, recs []SimRec, v *Violation) *Case {
	b, _ := json.Marshal(sc)
	return &Case{Property: p.ID, Class: v.Class, Message: v.Msg, BaseSeed: base, Index: index, Seed: sd, Strat: st, Scenario: b, Sims: recs, Tier: tier}
}

func worker(p *Prop, base uint64, tier string, from, step, n int, wall float64, out, known string) {
	runtime.GOMAXPROCS(2)
	knownSet := map[string]bool{}
	for _, k := range strings.Split(known, "\x1f") {
		if k != "" {
			knownSet[k] = true
		}
	}
	start := time.Now()
	thorough := tier == "thorough"
	var o workerOut
	hashes := map[uint64]struct{}{}
	const idle = -1 << 40
	current, began := int64(idle), int64(0) // the run in progress, for the watchdog
	go func() {
		for {
			time.Sleep(time.Second)
			i, b := atomic.LoadInt64(&current), atomic.LoadInt64(&began)
			if i != idle && time.Since(start).Nanoseconds()-b > stuckAfter.Nanoseconds() && i == atomic.LoadInt64(&current) {
				// The code under test blocks on something that is not simulated.
				// The run decides nothing; another process goes on after it.
				o.Stuck = int(i) + 1
				if i < 0 {
					o.Stuck = int(i)
				}
				writeOut(&o, start, hashes, out)
				os.Exit(stuckExit)
			}
		}
	}()
	running := func(i int64) {
		atomic.StoreInt64(&began, time.Since(start).Nanoseconds())
		atomic.StoreInt64(&current, i)
	}
	calibrating = func(i int) { running(int64(-1 - i)) }
	hot := calibrate(p, base, thorough)
	for i := range sim.Seen {
		sim.Seen[i] = 0
	}
	o.KnownSeen = map[string]int64{}
	o.KnownMsg = map[string]string{}
	o.Strategies = map[string]int64{}
	for i := from; i < n; i += step {
		running(int64(i))
		if wall > 0 && time.Since(start).Seconds() > wall {
			break
		}
		sc, sd, st := makeCase(p, base, i, thorough, hot)
		r, v, broken := Execute(p, sc, sd, st, nil, false, false)
		o.Runs++
		o.Steps += r.Stats.Steps
		o.Switches += r.Stats.Switches
		o.Preempts += r.Stats.Preempts
		o.Events += r.Stats.Events
		o.SimNanos += r.Stats.SimNanos
		o.Strategies[st.Kind]++
		if r.Stats.Steps > o.MaxSteps {
			o.MaxSteps = r.Stats.Steps
		}
		add(&o.Faults, r.Stats.Faults)
		add(&o.Probes, r.Probes)
		if r.NonTriv {
			o.NonTrivial++
			if len(hashes) < 3_000_000 {
				hashes[r.hash] = struct{}{}
			}
		}
		if broken != "" {
			o.Broken = fmt.Sprintf("run %d seed %d: %s", i, sd, broken)
			break
		}
		if len(o.Samples) < 2 && r.NonTriv && (i/step)%7 == 3 {
			b, _ := json.Marshal(sc)
			if len(b) < 6000 {
				var sb strings.Builder
				for _, rec := range r.Recs {
					for j, w := range rec.Trace {
						if j >= 12 {
							fmt.Fprintf(&sb, "... (%d decisions)", len(rec.Trace))
							break
						}
						fmt.Fprintf(&sb, "%s@%d->%s ", w.T, w.S, w.N)
					}
				}
				o.Samples = append(o.Samples, sample{i, sd, st, b, sb.String(), r.Stats.Faults, r.Stats.Steps})
			}
		}
		if v != nil {
			if knownSet[v.Class] {
				o.KnownSeen[v.Class]++
				if o.KnownMsg[v.Class] == "" {
					o.KnownMsg[v.Class] = v.Msg
				}
				continue
			}
			o.Violation = buildCase(p, base, tier, i, sd, st, sc, r.Recs, v)
			o.Violation.Hash = hashString(r)
			o.Violation.Warm = from + 1
			o.Violation.WarmStep = step
			break
		}
	}
	running(idle)
	writeOut(&o, start, hashes, out)
}

// A run that has not ended after stuckAfter of real time is given up (the
// longest take seconds); a worker process is replaced at most maxStuck times.
const (
	stuckAfter = 30 * time.Second
	stuckExit  = 4
	maxStuck   = 3
)

func writeOut(o *workerOut, start time.Time, hashes map[uint64]struct{}, out string) {
	for i := 1; i < len(sim.Seen); i++ {
		if sim.Seen[i] != 0 {
			o.Sites = append(o.Sites, i)
		}
	}
	o.Pairs = len(sim.Pairs)
	for k := range sim.Pairs {
		if len(o.PairList) < 200000 {
			o.PairList = append(o.PairList, k)
		}
	}
	o.Wall = time.Since(start).Seconds()
	f, err := os.Create(out + ".hashes")
	if err != nil {
		die("%v", err)
	}
	bw := bufio.NewWriter(f)
	for h := range hashes {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], h)
		bw.Write(b[:])
	}
	bw.Flush()
	f.Close()
	b, err := json.Marshal(o)
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(out+".tmp", b, 0o644); err != nil {
		die("%v", err)
	}
	os.Rename(out+".tmp", out)
}

// ---------------------------------------------------------------- check

type knownFinding struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	What     string `json:"what"`
}

func loadKnown(verif, prop string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if err != nil {
		die("known-findings.json: %v", err)
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		die("known-findings.json: %v", err)
	}
	var out []knownFinding
	for _, k := range f.Findings {
		if k.Property == prop {
			out = append(out, k)
		}
	}
	return out
}

func check(p *Prop, seed uint64, tier string, n int, wall float64, verif, scratch string, workers int) {
	start := time.Now()
	if n == 0 {
		n = p.Quick
		if tier == "thorough" {
			n = 2_000_000_000
		}
	}
	if wall == 0 {
		wall = 90
		if tier == "thorough" {
			wall = 600
		}
	}
	known := loadKnown(verif, p.ID)
	var kc []string
	for _, k := range known {
		kc = append(kc, k.Class)
	}
	exe, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	fmt.Printf("property=%s VERIF_SEED=%d tier=%s workers=%d runs<=%d wall<=%.0fs\n", p.ID, seed, tier, workers, n, wall)
	var outs []string
	cmds := make([]*exec.Cmd, workers)
	fails := make([]string, workers)
	var mu sync.Mutex
	found := false
	var wg sync.WaitGroup
	timedOut := false
	stuck := 0
	// launch starts worker w at run from; the caller holds mu or is alone.
	launch := func(w, from int) string {
		out := filepath.Join(scratch, fmt.Sprintf("w%d-%d.json", w, len(outs)))
		left := wall - time.Since(start).Seconds()
		if left < 1 {
			left = 1
		}
		outs = append(outs, out)
		cmds[w] = exec.Command(exe, "worker", "-prop", p.ID, "-seed", fmt.Sprint(seed), "-tier", tier, "-from", fmt.Sprint(from), "-step", fmt.Sprint(workers),
			"-n", fmt.Sprint(n), "-wall", fmt.Sprint(left), "-out", out, "-known", strings.Join(kc, "\x1f"))
		cmds[w].Stderr = os.Stderr
		if err := cmds[w].Start(); err != nil {
			die("%v", err)
		}
		return out
	}
	first := make([]string, workers)
	for w := range first {
		first[w] = launch(w, w)
	}
	timer := time.AfterFunc(time.Duration((wall+120)*float64(time.Second)), func() {
		mu.Lock()
		timedOut = true
		for _, c := range cmds {
			c.Process.Kill()
		}
		mu.Unlock()
	})
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd, out := cmds[w], first[w]
			for again := 0; ; again++ {
				err := cmd.Wait()
				mu.Lock()
				var o workerOut
				if b, rerr := os.ReadFile(out); rerr == nil {
					json.Unmarshal(b, &o)
				}
				if o.Stuck != 0 {
					stuck++
					from := o.Stuck - 1 + workers
					if o.Stuck < 0 {
						os.Setenv("VERIF_CALIB", strconv.Itoa(-1-o.Stuck))
						from = w
					}
					if again < maxStuck && !found && !timedOut && time.Since(start).Seconds() < wall {
						out = launch(w, from)
						cmd = cmds[w]
						mu.Unlock()
						continue
					}
				} else if err != nil && !found {
					fails[w] = err.Error()
				}
				if o.Violation != nil && !found {
					found = true
					for x, c := range cmds {
						if x != w {
							c.Process.Kill()
						}
					}
				}
				mu.Unlock()
				return
			}
		}()
	}
	wg.Wait()
	timer.Stop()
	var t workerOut
	hashes := map[uint64]struct{}{}
	sites := map[int]bool{}
	pairs := map[uint64]struct{}{}
	t.KnownSeen = map[string]int64{}
	t.KnownMsg = map[string]string{}
	var viol *Case
	for w, out := range outs {
		b, err := os.ReadFile(out)
		if err != nil {
			continue
		}
		var o workerOut
		if err := json.Unmarshal(b, &o); err != nil {
			die("worker output: %v", err)
		}
		t.Runs += o.Runs
		t.NonTrivial += o.NonTrivial
		t.Steps += o.Steps
		t.Switches += o.Switches
		t.Preempts += o.Preempts
		t.Events += o.Events
		t.SimNanos += o.SimNanos
		if o.MaxSteps > t.MaxSteps {
			t.MaxSteps = o.MaxSteps
		}
		add(&t.Faults, o.Faults)
		add(&t.Probes, o.Probes)
		add(&t.Strategies, o.Strategies)
		add(&t.KnownSeen, o.KnownSeen)
		for k, m := range o.KnownMsg {
			if t.KnownMsg[k] == "" {
				t.KnownMsg[k] = m
			}
		}
		for _, s := range o.Sites {
			sites[s] = true
		}
		for _, k := range o.PairList {
			pairs[k] = struct{}{}
		}
		t.Samples = append(t.Samples, o.Samples...)
		if o.Broken != "" {
			die("worker %d: %s", w, o.Broken)
		}
		if o.Violation != nil && (viol == nil || o.Violation.Index < viol.Index) {
			viol = o.Violation
		}
		if f, err := os.Open(out + ".hashes"); err == nil {
			br := bufio.NewReader(f)
			var b [8]byte
			for {
				if _, err := io.ReadFull(br, b[:]); err != nil {
					break
				}
				hashes[binary.LittleEndian.Uint64(b[:])] = struct{}{}
			}
			f.Close()
		}
	}
	if viol == nil {
		if timedOut {
			die("workers did not finish within %.0f s", wall+120)
		}
		for w, f := range fails {
			if f != "" {
				die("worker %d failed: %s", w, f)
			}
		}
		if stuck > 0 {
			fmt.Printf("%d runs given up: the code blocked outside the simulator for %v\n", stuck, stuckAfter)
			if t.Runs < int64(stuck)*20 {
				die("too few runs ended: %d", t.Runs)
			}
		}
		for _, k := range p.Need {
			if t.Probes[k] == 0 && t.Faults[k] == 0 {
				die("vacuous: %q never happened in %d runs", k, t.Runs)
			}
		}
	}
	searchWall := time.Since(start).Seconds()
	if len(t.Samples) > 4 {
		t.Samples = t.Samples[:4]
	}
	nv := 0
	replayPath := ""
	if viol != nil {
		nv = 1
		replayPath = report(p, viol, verif, exe)
	}
	fault := map[string]int64{}
	for k, v := range t.Faults {
		fault[k] = v
	}
	perHour := 0.0
	if searchWall > 0 {
		perHour = float64(t.Runs) / searchWall * 3600
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": time.Since(start).Seconds(), "violations": nv,
		"coverage": map[string]interface{}{
			"evaluations":               t.Runs,
			"distinct_nontrivial":       len(hashes),
			"rule":                      p.Rule,
			"samples":                   t.Samples,
			"simulated_runs_per_hour":   int64(perHour),
			"nontrivial_runs":           t.NonTrivial,
			"runs_given_up":             stuck,
			"simulated_seconds":         float64(t.SimNanos) / 1e9,
			"scheduling_steps":          t.Steps,
			"context_switches":          t.Switches,
			"preemptions":               t.Preempts,
			"timed_events":              t.Events,
			"max_steps_in_a_run":        t.MaxSteps,
			"faults_injected":           fault,
			"conditions_reached":        t.Probes,
			"strategies":                t.Strategies,
			"scheduling_sites_reached":  len(sites),
			"scheduling_sites_total":    len(sim.SiteNames) - 1,
			"distinct_preemption_pairs": len(pairs),
			"components_real":           p.Real,
			"components_stubbed":        p.Stub,
			"known_findings_seen":       t.KnownSeen,
			"search_wall_s":             searchWall,
		},
		"assumptions": []string{
			"sequentially consistent memory: one memory operation at a time, interleaved at statement and memory-operation granularity",
			"one run seed is one execution: schedule, network, clock, map order, faults and workload are drawn from it",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	for _, k := range known {
		if t.KnownSeen[k.Class] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs; e.g. %s)\n", p.ID, k.What, t.KnownSeen[k.Class], oneLine(t.KnownMsg[k.Class]))
		}
	}
	fmt.Printf("%d runs (%d distinct non-trivial executions), %d preemptions, %.1f simulated s, %d/%d sites, %.1f s wall\n", t.Runs, len(hashes), t.Preempts, float64(t.SimNanos)/1e9, len(sites), len(sim.SiteNames)-1, searchWall)
	fk := make([]string, 0)
	for k, v := range t.Faults {
		fk = append(fk, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(fk)
	fmt.Println("faults:", strings.Join(fk, " "))
	if viol != nil {
		fmt.Printf("%s: %s\n", viol.Class, oneLine(viol.Message))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayPath)
		os.Exit(1)
	}
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// report minimises a violation, writes its replay file and confirms that a
// fresh process reproduces it exactly.
func report(p *Prop, c *Case, verif, exe string) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", p.ID, c.BaseSeed, c.Index))
	write := func(c *Case) {
		b, err := json.MarshalIndent(c, "", " ")
		if err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			die("%v", err)
		}
	}
	confirm := func() bool {
		out, err := exec.Command(exe, "replay", "-file", path).CombinedOutput()
		ee, ok := err.(*exec.ExitError)
		if !(ok && ee.ExitCode() == 1) {
			fmt.Printf("replay in a fresh process: %v: %s\n", err, oneLine(string(out)))
			return false
		}
		return true
	}
	sc, err := p.Decode(c.Scenario)
	if err != nil {
		die("%v", err)
	}
	warm, warmStep := c.Warm, c.WarmStep
	c.Warm, c.WarmStep = 0, 0
	r, v, broken := Execute(p, sc, c.Seed, c.Strat, c.Sims, true, false)
	if broken == "" && v != nil && v.Class == c.Class {
		_ = r
		best, recs, notes := minimise(p, sc, c.Seed, c.Strat, &Run{Recs: c.Sims}, c.Class, 40*time.Second)
		r, v, broken := Execute(p, best, c.Seed, c.Strat, recs, true, true)
		if broken == "" && v != nil && v.Class == c.Class {
			m := *c
			b, _ := json.Marshal(best)
			m.Scenario = b
			m.Message = v.Msg
			for i := range recs {
				if i < len(r.Recs) {
					recs[i].LogHash = r.Recs[i].LogHash
				}
			}
			m.Sims = recs
			m.Hash = hashString(r)
			m.Minimal = true
			m.Notes = notes
			m.History = r.Logs
			write(&m)
			if confirm() {
				*c = m
				return path
			}
		}
		// not reproducible once minimised: keep the run as recorded
		r, v, broken = Execute(p, sc, c.Seed, c.Strat, c.Sims, true, true)
		if broken == "" && v != nil && v.Class == c.Class {
			c.Hash = hashString(r)
			c.History = r.Logs
			write(c)
			if confirm() {
				return path
			}
		}
	}
	// depends on what the process did before: replay the whole stripe
	c.Warm, c.WarmStep = warm, warmStep
	c.Notes = append(c.Notes, "the violation depends on runs made earlier in the same process; the replay repeats them")
	write(c)
	if !confirm() {
		c.Notes = append(c.Notes, "NOT CONFIRMED by a fresh process")
		write(c)
		die("violation %s (%s) at run %d did not reproduce in a fresh process; file %s", c.Class, oneLine(c.Message), c.Index, path)
	}
	return path
}

func replayFile(path string) {
	runtime.GOMAXPROCS(2)
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		die("%v", err)
	}
	p := props[c.Property]
	if p == nil {
		die("unknown property %q", c.Property)
	}
	var r *Run
	var v *Violation
	var broken string
	if c.Warm > 0 {
		hot := calibrate(p, c.BaseSeed, c.Tier == "thorough")
		for i := c.Warm - 1; i <= c.Index; i += c.WarmStep {
			sc, sd, st := makeCase(p, c.BaseSeed, i, c.Tier == "thorough", hot)
			r, v, broken = Execute(p, sc, sd, st, nil, false, i == c.Index)
		}
	} else {
		sc, err := p.Decode(c.Scenario)
		if err != nil {
			die("%v", err)
		}
		r, v, broken = Execute(p, sc, c.Seed, c.Strat, c.Sims, true, true)
	}
	if broken != "" {
		die("%s", broken)
	}
	if v == nil {
		fmt.Println("no violation: the property holds on this execution")
		return
	}
	for _, l := range r.Logs {
		fmt.Println(l)
	}
	fmt.Printf("%s: %s\n", v.Class, v.Msg)
	if v.Class != c.Class || hashString(r) != c.Hash {
		fmt.Printf("differs from the recorded execution: class %s hash %s, recorded %s %s\n", v.Class, hashString(r), c.Class, c.Hash)
		os.Exit(4)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, path)
	os.Exit(1)
}
