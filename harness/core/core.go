// Package core runs properties under the simulator: seeded search, recording,
// minimisation, replay and evidence.
package core

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	sim "github.com/iand/starbow/internal/zzvsim"
)

// StarbowMain is the program's own main function.
var StarbowMain func()

type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

func V(class, f string, a ...interface{}) *Violation {
	return &Violation{Class: class, Msg: printable(fmt.Sprintf(f, a...))}
}

// printable escapes what is not text.
func printable(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		if c == utf8.RuneError && n == 1 || !unicode.IsPrint(c) {
			for _, x := range []byte(s[i : i+n]) {
				fmt.Fprintf(&b, "\\x%02x", x)
			}
		} else {
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	return b.String()
}

// Prop is one property's workload, oracle and shrinker.
type Prop struct {
	ID     string
	Quick  int // runs in the quick tier
	Gen    func(r *sim.RNG, thorough bool) interface{}
	Decode func(b []byte) (interface{}, error)
	Run    func(r *Run, sc interface{}) *Violation
	Shrink func(sc interface{}) []interface{}
	Rule   string   // what makes a run non-trivial
	Real   []string // components that ran the repository's code
	Stub   []string // components that ran a stand-in
	// Probes that must be non-zero over a batch for it to mean anything.
	Need []string
	// Every n-th run is made with Fixed instead of Gen, if set.
	Fixed      []interface{}
	FixedEvery int
}

var props = map[string]*Prop{}

func Register(p *Prop) { props[p.ID] = p }

// SimRec is what one simulation inside a run recorded.
type SimRec struct {
	Label   string       `json:"label"`
	Seed    uint64       `json:"seed"`
	Strat   sim.Strategy `json:"strategy"`
	Trace   []sim.Switch `json:"schedule"`
	LogHash string       `json:"log_hash,omitempty"`
}

// Run is one execution of a scenario.
type Run struct {
	seed     uint64
	strat    sim.Strategy
	replay   []SimRec // nil: search
	isReplay bool
	KeepLog  bool
	Recs     []SimRec
	Logs     []string
	hash     uint64
	sched    uint64
	Stats    sim.Stats
	Over     bool
	NonTriv  bool
	Probes   map[string]int64
	Extra    int64 // steps beyond the usual limit that a large workload may take
}

const maxSteps = 30_000_000

// Sim starts the run's next simulation. If explored is false the schedule is
// serial and only what the program itself draws is random.
func (r *Run) Sim(label string, explored bool) *sim.Sim {
	i := len(r.Recs)
	st := r.strat
	seed := r.seed*1000003 + uint64(i)*7919
	if !explored {
		st = sim.Strategy{Kind: "serial", Chunk: 64, SliceCap: 100000}
	}
	var tr []sim.Switch
	if r.isReplay && i < len(r.replay) {
		tr = r.replay[i].Trace
		st = r.replay[i].Strat
		seed = r.replay[i].Seed
	}
	s := sim.New(seed, st, maxSteps+r.Extra, tr, r.isReplay)
	s.KeepLog = r.KeepLog
	r.Recs = append(r.Recs, SimRec{Label: label, Seed: seed, Strat: st})
	return s
}

// OwnSim is a simulation that is repeated from its seed alone: its decisions are
// not kept. Only the first three of a run count for its identity.
func (r *Run) OwnSim(label string) *sim.Sim {
	i := len(r.Recs)
	st := r.strat
	seed := r.seed*1000003 + uint64(i)*7919
	if r.isReplay && i < len(r.replay) {
		st = r.replay[i].Strat
		seed = r.replay[i].Seed
	}
	s := sim.New(seed, st, maxSteps+r.Extra, nil, false)
	s.Forget = true
	r.Recs = append(r.Recs, SimRec{Label: label, Seed: seed, Strat: st})
	return s
}

// DoneOwn is Done for OwnSim.
func (r *Run) DoneOwn(s *sim.Sim) {
	s.Trace = nil
	if len(s.Log) > 400 {
		s.Log = s.Log[len(s.Log)-400:]
	}
	h, sc := r.hash, r.sched
	r.Done(s)
	if len(r.Recs) > 3 {
		r.hash, r.sched = h, sc // whether it is run depends on what is measured
	}
}

// Done closes the simulation and collects what it recorded.
func (r *Run) Done(s *sim.Sim) {
	rec := &r.Recs[len(r.Recs)-1]
	rec.Trace = s.Trace
	rec.LogHash = fmt.Sprintf("%016x", s.LogHash())
	r.hash = r.hash*1099511628211 ^ s.LogHash()
	r.sched = r.sched*1099511628211 ^ s.ScheduleHash()
	if r.KeepLog {
		r.Logs = append(r.Logs, "--- "+rec.Label)
		r.Logs = append(r.Logs, s.Log...)
	}
	a, b := &r.Stats, &s.Stats
	a.Steps += b.Steps
	a.Switches += b.Switches
	a.Preempts += b.Preempts
	a.Events += b.Events
	a.SimNanos += b.SimNanos
	for k, v := range b.Faults {
		if a.Faults == nil {
			a.Faults = map[string]int64{}
		}
		a.Faults[k] += v
	}
	for k, v := range b.Probes {
		r.Probe(k, v)
	}
	if s.Over {
		r.Over = true
	}
	s.Close()
}

func (r *Run) Probe(k string, n int64) {
	if r.Probes == nil {
		r.Probes = map[string]int64{}
	}
	r.Probes[k] += n
}

// Execute runs a scenario once.
func Execute(p *Prop, sc interface{}, seed uint64, strat sim.Strategy, replay []SimRec, isReplay, keepLog bool) (r *Run, v *Violation, broken string) {
	r = &Run{seed: seed, strat: strat, replay: replay, isReplay: isReplay, KeepLog: keepLog}
	func() {
		defer func() {
			if x := recover(); x != nil {
				st := string(debug.Stack())
				if s := sim.Active(); s != nil {
					s.Close()
				}
				if where := repoFrame(st); where != "" {
					v = V("crash", "the code under test panicked: %v (in %s)", x, where)
				} else {
					broken = fmt.Sprintf("harness panic: %v\n%s", x, st)
				}
			}
		}()
		v = p.Run(r, sc)
	}()
	return
}

// repoFrame reports the innermost frame of the repository's own code, if it is
// inside the harness's innermost frame.
func repoFrame(stack string) string {
	seenPanic := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "/zzharness/") {
			return ""
		}
		if strings.Contains(l, "iand/starbow/internal/") && !strings.Contains(l, "/zzvsim") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return ""
}

// RepoFrame is repoFrame for tasks' stacks.
func RepoFrame(stack string) string { return repoFrame(stack) }

// ---------------------------------------------------------------- strategies

func logUniform(r *sim.RNG, lo, hi int) int {
	n := 0
	for x := lo; x < hi; x *= 2 {
		n++
	}
	b := lo << uint(r.Intn(n+1))
	if b > hi {
		b = hi
	}
	return b + r.Intn(b)
}

// GenStrategy draws how a run is scheduled.
func GenStrategy(r *sim.RNG, hotSites []int32) sim.Strategy {
	chunks := []int{1, 3, 8, 8, 16, 64, 1024}
	caps := []int64{400, 1500, 6000}
	times := []float64{0, 0, 0.02, 0.1, 0.3}
	st := sim.Strategy{Chunk: chunks[r.Intn(len(chunks))], SliceCap: caps[r.Intn(len(caps))], TimeP: times[r.Intn(len(times))]}
	st.TimeMax = []int64{1e6, 1e9, 30e9, 120e9}[r.Intn(4)]
	x := r.Float()
	switch {
	case x < 0.33:
		gaps := []int{1, 2, 3, 5, 8, 15, 40, 120, 400}
		st.Kind, st.Gap = "walk", gaps[r.Intn(len(gaps))]
	case x < 0.63:
		st.Kind, st.Depth, st.Horizon = "pct", r.Range(1, 5), logUniform(r, 100, 20000)
	case x < 0.94 && len(hotSites) > 0:
		ps := []float64{0.03, 0.1, 0.3, 0.7, 1}
		st.Kind, st.HotP = "hot", ps[r.Intn(len(ps))]
		for i := r.Range(1, 6); i > 0; i-- {
			st.Hot = append(st.Hot, hotSites[r.Intn(len(hotSites))])
		}
	default:
		st.Kind = "serial"
	}
	return st
}

// ---------------------------------------------------------------- cases

// Case is a recorded failing run: the replay file.
type Case struct {
	Property string          `json:"property"`
	Class    string          `json:"class"`
	Message  string          `json:"message"`
	BaseSeed uint64          `json:"verif_seed"`
	Index    int             `json:"run_index"`
	Seed     uint64          `json:"run_seed"`
	Strat    sim.Strategy    `json:"strategy"`
	Scenario json.RawMessage `json:"scenario"`
	Sims     []SimRec        `json:"simulations"`
	Hash     string          `json:"execution_hash"`
	Minimal  bool            `json:"minimised"`
	Warm     int             `json:"replay_after_runs_from,omitempty"` // 1+first run index to execute before (process history)
	WarmStep int             `json:"replay_run_step,omitempty"`
	Tier     string          `json:"tier"`
	History  []string        `json:"history,omitempty"`
	Notes    []string        `json:"notes,omitempty"`
}

func caseSeed(base uint64, prop string, index int) uint64 {
	h := uint64(14695981039346656037)
	for _, b := range []byte(prop) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	r := sim.NewRNG(h ^ base*0x9e3779b97f4a7c15 ^ uint64(index)*0xd6e8feb86659fd93)
	return r.U64()
}

func cloneScenario(p *Prop, sc interface{}) interface{} {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	c, err := p.Decode(b)
	if err != nil {
		panic(err)
	}
	return c
}

// makeCase builds run number index.
func makeCase(p *Prop, base uint64, index int, thorough bool, hot []int32) (sc interface{}, seed uint64, st sim.Strategy) {
	seed = caseSeed(base, p.ID, index)
	r := sim.NewRNG(seed)
	if p.FixedEvery > 0 && index%p.FixedEvery == 0 && len(p.Fixed) > 0 {
		sc = cloneScenario(p, p.Fixed[(index/p.FixedEvery)%len(p.Fixed)])
	} else {
		sc = p.Gen(r, thorough)
	}
	st = GenStrategy(sim.NewRNG(seed^0xabcdef), hot)
	return
}

// ---------------------------------------------------------------- minimise

func minimise(p *Prop, sc interface{}, seed uint64, st sim.Strategy, first *Run, class string, budget time.Duration) (interface{}, []SimRec, []string) {
	deadline := time.Now().Add(budget)
	best, bestRecs := sc, first.Recs
	var notes []string
	runs, accepted := 0, 0
	attempt := func(c interface{}, recs []SimRec) (*Run, bool) {
		runs++
		r, v, broken := Execute(p, c, seed, st, recs, true, false)
		return r, broken == "" && v != nil && v.Class == class
	}
	if p.Shrink != nil {
		for progress := true; progress && time.Now().Before(deadline); {
			progress = false
			for _, c := range p.Shrink(best) {
				if time.Now().After(deadline) {
					break
				}
				c = cloneScenario(p, c)
				r, ok := attempt(c, bestRecs)
				for j := 0; !ok && j < 25 && time.Now().Before(deadline); j++ {
					runs++
					var v *Violation
					var broken string
					s2 := st
					if j%3 == 2 {
						s2 = GenStrategy(sim.NewRNG(seed+uint64(j)*77+uint64(runs)), s2.Hot)
						s2.Chunk = st.Chunk
					}
					r, v, broken = Execute(p, c, seed+uint64(j)*31+1, s2, nil, false, false)
					ok = broken == "" && v != nil && v.Class == class
				}
				if ok {
					best, bestRecs = c, r.Recs
					accepted++
					progress = true
					break
				}
			}
		}
	}
	before := 0
	for _, s := range bestRecs {
		before += len(s.Trace)
	}
	// drop scheduling decisions: what is left out follows the default (go on
	// with the running task, else the lowest-numbered one)
	if _, ok := attempt(best, bestRecs); ok {
		for k := range bestRecs {
			tr := bestRecs[k].Trace
			try := func(t []sim.Switch) bool {
				c := append([]SimRec(nil), bestRecs...)
				c[k].Trace = t
				_, ok := attempt(best, c)
				return ok
			}
			if len(tr) == 0 {
				continue
			}
			if try([]sim.Switch{}) {
				tr = []sim.Switch{}
			}
			for size := (len(tr) + 1) / 2; size >= 1 && time.Now().Before(deadline); {
				removed := false
				for i := 0; i < len(tr) && time.Now().Before(deadline); {
					e := i + size
					if e > len(tr) {
						e = len(tr)
					}
					t := append(append([]sim.Switch{}, tr[:i]...), tr[e:]...)
					if try(t) {
						tr = t
						removed = true
					} else {
						i = e
					}
				}
				if size == 1 && !removed {
					break
				}
				if size > 1 {
					size /= 2
				} else if !removed {
					break
				}
			}
			bestRecs[k].Trace = tr
		}
	} else {
		notes = append(notes, "schedule kept as recorded: its replay gives another violation class")
	}
	after := 0
	for _, s := range bestRecs {
		after += len(s.Trace)
	}
	notes = append(notes, fmt.Sprintf("minimised in %d runs: %d scenario reductions, %d of %d scheduling decisions kept", runs, accepted, after, before))
	return best, bestRecs, notes
}
