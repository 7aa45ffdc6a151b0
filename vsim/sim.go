// Package zzvsim is the deterministic simulator the instrumented repository
// runs on: cooperative tasks (coroutines), a seeded scheduler that decides
// every interleaving, a discrete-event clock, and stand-ins for the parts of
// the standard library through which nondeterminism enters a program.
//
// One Sim runs at a time in a process, on one OS thread at a time. Every choice
// is drawn from the Sim's PRNG and logged as a Switch, so that a run is a pure
// function of (scenario, seed) and can be repeated from (scenario, switches).
package zzvsim

import (
	"container/heap"
	"fmt"
	"hash/fnv"
	"iter"
	"net/http"
	"runtime/debug"
	"sort"
	"time"
)

// ---------------------------------------------------------------- PRNG

type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{s: seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *RNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *RNG) Float() float64        { return float64(r.U64()>>11) / (1 << 53) }
func (r *RNG) Chance(p float64) bool { return r.Float() < p }
func (r *RNG) Range(lo, hi int) int  { return lo + r.Intn(hi-lo+1) }

// ---------------------------------------------------------------- tasks

const (
	stRunnable = iota
	stBlocked
	stDone
)

type killed struct{}

// Exit is the panic value that stands for the process exiting.
type Exit struct {
	Code int
	Msg  string
}

type Task struct {
	Name     string
	id       int
	fn       func()
	next     func() (struct{}, bool)
	stop     func()
	yield    func(struct{}) bool
	state    int
	ready    func() bool
	what     string
	steps    int64 // local steps, the coordinate of every preemption
	stopAt   int64
	slice    int64 // steps at start of the current slice
	prio     int64
	killed   bool
	quiet    bool  // no preemption, see Quiet
	loud     int64 // when that ends at the latest
	spawned  int
	Daemon   bool
	Panic    interface{}
	Stack    string
	preSite  int32
	spins    uint // slices used up
	gave     bool // gave up the processor voluntarily
	freezeAt int64
	thaw     func() bool // set: the task will be frozen until it reports true
	frozen   bool
}

func (t *Task) Done() bool { return t.state == stDone }

// Switch is one scheduling decision: after task T had executed S local steps
// (for the Kth decision taken at that point) choice N was made. P marks a
// preemption of a task that could have continued. N is a task name, or "@" for
// letting simulated time advance to the next event.
type Switch struct {
	T string `json:"t"`
	S int64  `json:"s"`
	K int    `json:"k,omitempty"`
	N string `json:"n"`
	P bool   `json:"p,omitempty"`
}

type event struct {
	at  int64
	seq uint64
	fn  func()
}
type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x interface{}) { *h = append(*h, x.(*event)) }
func (h *eventHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Strategy selects how the scheduler explores.
type Strategy struct {
	Kind     string  `json:"kind"` // walk, pct, hot, serial
	Gap      int     `json:"gap,omitempty"`
	Depth    int     `json:"depth,omitempty"`
	Horizon  int     `json:"horizon,omitempty"`
	Hot      []int32 `json:"hot,omitempty"`
	HotP     float64 `json:"hotp,omitempty"`
	TimeP    float64 `json:"timep,omitempty"`   // chance of advancing the clock although tasks can run
	TimeMax  int64   `json:"timemax,omitempty"` // by at most that much: how long a task that can run may be held up
	Chunk    int     `json:"chunk"`             // granularity in bytes of simulated memory copies
	SliceCap int64   `json:"slice"`             // a task running this long without a switch is put last
}

type Stats struct {
	Steps, Switches, Preempts, Events int64
	Faults                            map[string]int64
	Probes                            map[string]int64
	SimNanos                          int64
}

type Sim struct {
	rng      *RNG // schedule choices
	data     *RNG // values handed to the program (math/rand, map order, ...)
	strat    Strategy
	tasks    []*Task
	byName   map[string]*Task
	events   eventHeap
	evSeq    uint64
	now      int64
	ClockOff int64 // added to the wall clock the program sees
	steps    int64
	maxStep  int64
	changes  []int64 // pct change points, in global steps
	lowPrio  int64
	hotPre   int

	replay  bool
	rswitch map[string]map[int64][]Switch // task -> steps -> decisions
	rstops  map[string][]int64

	Trace     []Switch
	histSeq   int64
	last      *Task
	lastK     int
	Stats     Stats
	Over      bool // step budget exhausted
	stopping  bool
	exit      *Exit
	logHash   uint64
	schedHash uint64
	Log       []string
	KeepLog   bool
	Timers    int  // timers of the code under test that are running
	Forget    bool // keep no record of decisions

	ListenErr error // net.Listen fails with it
	listeners map[string]*simListener
	sig       sigState
	chans     map[uintptr]*chanState
	scratch   []*Task
	spawned   int
	nDone     int // tasks done since the list was last cleared of them
}

var (
	cur  *Task
	sim  *Sim
	hot  []bool
	Seen []byte
	// Pairs collects (site at which a task was preempted, site at which the task
	// run instead continues).
	Pairs = map[uint64]struct{}{}
)

// ---------------------------------------------------------------- package state

type resetFn struct {
	pkg, ord int
	fn       func()
}

var resets []resetFn
var resetsSorted bool

// OnReset registers the re-initialisation of a package-level variable.
func OnReset(pkg, ord int, fn func()) { resets = append(resets, resetFn{pkg, ord, fn}) }

func resetGlobals() {
	if !resetsSorted {
		sort.SliceStable(resets, func(i, j int) bool {
			a, b := resets[i], resets[j]
			if a.pkg != b.pkg {
				return a.pkg < b.pkg
			}
			return a.ord < b.ord
		})
		resetsSorted = true
	}
	DefaultServeMux = http.NewServeMux()
	for _, r := range resets {
		r.fn()
	}
}

// Zero resets a variable without initialiser.
func Zero[T any](p *T) { var z T; *p = z }

// Active reports the running simulation.
func Active() *Sim { return sim }

func initSites() {
	if len(Seen) < len(SiteNames)+1 {
		Seen = make([]byte, len(SiteNames)+1)
		hot = make([]bool, len(SiteNames)+1)
	}
}

// New prepares a simulation. If trace is non-nil the schedule is replayed from it.
func New(seed uint64, strat Strategy, maxSteps int64, trace []Switch, replay bool) *Sim {
	initSites()
	for i := range hot {
		hot[i] = false
	}
	initRNG = NewRNG(seed ^ 0x1217)
	initLead = time.Duration(1 + NewRNG(seed^0x71fe).Intn(1_000_000))
	sim = nil
	resetGlobals()
	s := &Sim{rng: NewRNG(seed ^ 0x5ced), data: NewRNG(seed ^ 0xda7a), strat: strat, byName: map[string]*Task{}, maxStep: maxSteps, listeners: map[string]*simListener{}, chans: map[uintptr]*chanState{}}
	s.Stats.Faults = map[string]int64{}
	s.Stats.Probes = map[string]int64{}
	if s.strat.SliceCap == 0 {
		s.strat.SliceCap = 20000
	}
	if s.strat.Chunk == 0 {
		s.strat.Chunk = 8
	}
	s.replay = replay
	if replay {
		s.rswitch = map[string]map[int64][]Switch{}
		s.rstops = map[string][]int64{}
		for _, w := range trace {
			m := s.rswitch[w.T]
			if m == nil {
				m = map[int64][]Switch{}
				s.rswitch[w.T] = m
			}
			m[w.S] = append(m[w.S], w)
			if w.P {
				s.rstops[w.T] = append(s.rstops[w.T], w.S)
			}
		}
		for _, l := range s.rstops {
			sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		}
	} else {
		switch strat.Kind {
		case "pct":
			for i := 0; i < strat.Depth; i++ {
				s.changes = append(s.changes, int64(s.rng.Intn(strat.Horizon)+1))
			}
			sortInt64(s.changes)
		case "hot":
			for _, h := range strat.Hot {
				if int(h) < len(hot) {
					hot[h] = true
				}
			}
		}
	}
	sim = s
	return s
}

func sortInt64(a []int64) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// Spawn creates a task. Names must be stable across runs; duplicates get a suffix.
func (s *Sim) Spawn(name string, fn func()) *Task {
	base := name
	for i := 2; s.byName[name] != nil; i++ {
		name = fmt.Sprintf("%s~%d", base, i)
	}
	t := &Task{Name: name, id: s.spawned, fn: fn}
	s.spawned++
	if !s.replay {
		t.prio = int64(s.rng.U64()>>2) | 1<<62
	}
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killed); ok {
					return
				}
				if e, ok := r.(Exit); ok {
					s.exit = &e
					return
				}
				t.Panic = r
				t.Stack = string(debug.Stack())
			}
		}()
		fn()
	})
	s.tasks = append(s.tasks, t)
	s.byName[name] = t
	t.setStop(s)
	return t
}

// Freeze stalls the current task, n of its steps from now, until thaw reports
// true or nothing else can run.
func (s *Sim) Freeze(n int, thaw func() bool) {
	t := cur
	t.freezeAt, t.thaw = t.steps+int64(n), thaw
	sl := t.slice
	t.setStop(s)
	t.slice = sl
}

// Unfreeze cancels a stall that has not begun.
func (s *Sim) Unfreeze() { cur.thaw = nil }

// setStop decides when the task is looked at next.
func (t *Task) setStop(s *Sim) {
	t.setSchedStop(s)
	if t.thaw != nil && t.freezeAt < t.stopAt {
		t.stopAt = t.freezeAt
	}
}

func (t *Task) setSchedStop(s *Sim) {
	t.slice = t.steps
	if s.replay {
		t.stopAt = t.steps + s.strat.SliceCap*4
		l := s.rstops[t.Name]
		if i := sort.Search(len(l), func(i int) bool { return l[i] > t.steps }); i < len(l) && l[i] < t.stopAt {
			t.stopAt = l[i]
		}
		return
	}
	t.stopAt = t.steps + s.strat.SliceCap>>t.spins
	switch s.strat.Kind {
	case "walk":
		g := int64(1 + s.rng.Intn(2*s.strat.Gap))
		if t.steps+g < t.stopAt {
			t.stopAt = t.steps + g
		}
	case "pct":
		for len(s.changes) > 0 && s.changes[0] <= s.steps {
			s.changes = s.changes[1:]
		}
		if len(s.changes) > 0 {
			g := s.changes[0] - s.steps
			if t.steps+g < t.stopAt {
				t.stopAt = t.steps + g
			}
		}
	}
}

// Yield is called by instrumented code before every statement and every
// synchronisation operation.
func Yield(site int32) {
	t := cur
	if t == nil {
		return
	}
	t.steps++
	Seen[site] = 1
	if t.steps >= t.stopAt || hot[site] {
		slow(t, site)
	}
}

// Quiet runs fn without letting other tasks run in between, unless it blocks.
func Quiet(fn func()) {
	t := cur
	if t == nil || t.quiet {
		fn()
		return
	}
	old := t.stopAt
	t.quiet, t.loud = true, t.steps+20_000_000
	t.stopAt = t.loud
	defer func() { t.quiet, t.stopAt = false, old }()
	fn()
}

// Y is a yield point in harness code.
func Y() { Yield(0) }

func slow(t *Task, site int32) {
	s := sim
	if t.killed {
		panic(killed{})
	}
	if t.quiet {
		if t.steps < t.loud {
			t.stopAt = t.loud
			return
		}
		t.quiet = false // it spins
	}
	if t.thaw != nil && t.steps >= t.freezeAt {
		s.Fault("stalled-in-call")
		t.frozen, t.state, t.ready, t.what = true, stBlocked, t.thaw, "stalled"
		t.thaw = nil
		t.suspend(false)
		return
	}
	if s.replay {
		if ds := s.rswitch[t.Name]; ds != nil {
			if l := ds[t.steps]; len(l) > 0 && l[0].P {
				t.preSite = site
				t.suspend(true)
				return
			}
		}
		if t.steps-t.slice > s.strat.SliceCap*3 {
			// unrecorded spin: force progress of others (deterministic)
			t.suspend(true)
			return
		}
		if t.steps >= t.stopAt {
			sl := t.slice
			t.setStop(s)
			t.slice = sl
		}
		return
	}
	sliceOver := t.steps-t.slice >= s.strat.SliceCap>>t.spins
	if sliceOver && t.spins < 4 {
		t.spins++ // perhaps it waits for another task: let that run more often
	}
	pre := sliceOver
	switch s.strat.Kind {
	case "walk":
		if t.steps >= t.stopAt {
			pre = true
		}
	case "pct":
		if t.steps >= t.stopAt {
			pre = true
		}
		if pre {
			s.lowPrio--
			t.prio = s.lowPrio + 1<<40
		}
	case "hot":
		if sliceOver {
			s.lowPrio--
			t.prio = s.lowPrio + 1<<40
		} else if p := s.strat.HotP; s.rng.Chance(p) && (s.hotPre < 1000 || s.rng.Chance(0.02)) {
			pre = true
			s.hotPre++
			if s.rng.Chance(0.7) {
				s.lowPrio--
				t.prio = s.lowPrio + 1<<40
			}
		}
	}
	if !pre {
		if t.steps >= t.stopAt {
			sl := t.slice
			t.setStop(s)
			t.slice = sl
		}
		return
	}
	t.preSite = site
	t.suspend(true)
}

// suspend hands control to the scheduler.
func (t *Task) suspend(pre bool) {
	if t.killed {
		panic(killed{})
	}
	sim.lastPre(t, pre)
	if !t.yield(struct{}{}) || t.killed {
		t.killed = true
		panic(killed{})
	}
}

func (s *Sim) lastPre(t *Task, pre bool) {
	if pre {
		s.Stats.Preempts++
	}
}

// Block suspends the current task until ready reports true. ready is polled by
// the scheduler and must not have effects other than completing the operation.
func Block(what string, ready func() bool) {
	t := cur
	if t == nil {
		if !ready() {
			panic("zzvsim: blocking outside a simulated task: " + what)
		}
		return
	}
	if t.killed {
		panic(killed{})
	}
	t.steps++
	t.state = stBlocked
	t.ready = ready
	t.what = what
	t.suspend(false)
}

// Gosched gives up the processor.
func Gosched() {
	t := cur
	if t == nil {
		return
	}
	t.steps++
	s := sim
	if !s.replay {
		if s.strat.Kind == "pct" || s.strat.Kind == "hot" {
			s.lowPrio--
			t.prio = s.lowPrio + 1<<40
		}
	}
	t.state = stBlocked
	t.ready = func() bool { return true }
	t.what = "gosched"
	t.gave = true
	t.suspend(false)
}

// After schedules fn at now+d (simulated).
func (s *Sim) After(d int64, fn func()) *event {
	if d < 0 {
		d = 0
	}
	s.evSeq++
	e := &event{at: s.now + d, seq: s.evSeq, fn: fn}
	if e.at < s.now {
		return e // further away than the clock can tell
	}
	heap.Push(&s.events, e)
	return e
}

func (s *Sim) Now() int64 { return s.now }

// Seq returns the next global history sequence number.
func (s *Sim) Seq() int64 { s.histSeq++; return s.histSeq }

// Logf appends to the event log, which determinism checks compare. It draws no
// randomness and reads no clock.
func (s *Sim) Logf(f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	h := fnv.New64a()
	var b [8]byte
	for i := 0; i < 8; i++ {
		b[i] = byte(s.logHash >> (8 * i))
	}
	h.Write(b[:])
	h.Write([]byte(m))
	s.logHash = h.Sum64()
	if s.KeepLog {
		s.Log = append(s.Log, fmt.Sprintf("[%d %dns] %s", s.histSeq, s.now, m))
	}
}

// LogHash identifies the execution: it covers the log and every scheduling decision.
func (s *Sim) LogHash() uint64 { return s.schedHash ^ s.logHash*31 }

// ScheduleHash identifies the interleaving.
func (s *Sim) ScheduleHash() uint64 { return s.schedHash }

func mixHash(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	return h ^ h>>33
}

func (s *Sim) Fault(kind string) { s.Stats.Faults[kind]++ }
func (s *Sim) Probe(kind string) { s.Stats.Probes[kind]++ }

// Result of Run.
type Result struct {
	Stuck   []string // essential tasks that can never continue
	Over    bool     // step budget exhausted
	Exit    *Exit
	Panics  []*Task
	Running string
}

// Run schedules until done reports true (checked between slices), nothing can
// happen any more, or the step budget is exhausted.
func (s *Sim) Run(done func() bool) Result {
	var res Result
	for {
		if s.exit != nil || done() {
			break
		}
		if s.steps > s.maxStep {
			s.Over = true
			res.Over = true
			if s.last != nil {
				res.Running = s.last.Name
			}
			break
		}
		for len(s.events) > 0 && s.events[0].at <= s.now {
			s.fire()
		}
		for _, t := range s.tasks {
			if t.state == stBlocked && t.ready() {
				t.state = stRunnable
				t.ready = nil
				t.frozen = false
			}
		}
		t := s.choose()
		if t == nil {
			if len(s.events) > 0 {
				continue // choose advanced the clock
			}
			idle := true
			for _, t := range s.tasks {
				if t.state == stRunnable {
					idle = false
				}
				if t.state == stBlocked && t.ready() {
					t.state = stRunnable
					t.ready = nil
					idle = false
				}
			}
			for _, t := range s.tasks {
				if idle && t.state == stBlocked && t.frozen {
					t.state, t.ready, t.frozen = stRunnable, nil, false
					idle = false
				}
			}
			if !idle {
				continue
			}
			for _, t := range s.tasks {
				if t.state == stBlocked && !t.Daemon {
					res.Stuck = append(res.Stuck, t.Name+": "+t.what)
				}
			}
			break
		}
		s.resume(t)
	}
	if s.last != nil && s.last.state == stRunnable {
		// the run ended right after this preemption
		s.Trace = append(s.Trace, Switch{T: s.last.Name, S: s.last.steps, K: s.lastK, N: "$", P: true})
	}
	if s.exit != nil {
		res.Exit = s.exit
	}
	for _, t := range s.tasks {
		if t.Panic != nil {
			res.Panics = append(res.Panics, t)
		}
	}
	return res
}

func (s *Sim) fire() {
	e := heap.Pop(&s.events).(*event)
	if e.at > s.now {
		s.Stats.SimNanos += e.at - s.now
		s.now = e.at
	}
	s.Stats.Events++
	if e.fn != nil {
		e.fn()
	}
}

func (s *Sim) resume(t *Task) {
	s.last = t
	s.lastK = 0
	s.now += 1000
	s.Stats.SimNanos += 1000
	s.Stats.Switches++
	t.setStop(s)
	t.gave = false
	before := t.steps
	cur = t
	_, more := t.next()
	cur = nil
	s.steps += t.steps - before + 1
	s.Stats.Steps += t.steps - before
	if !more {
		t.state = stDone
		t.steps++ // a coordinate of its own for the decision that follows
		s.nDone++
		if s.nDone > 256 && s.nDone > len(s.tasks)/2 {
			s.sweep()
		}
	}
}

// sweep drops tasks that are done from the list.
func (s *Sim) sweep() {
	l := make([]*Task, 0, len(s.tasks)-s.nDone+16)
	for _, t := range s.tasks {
		if t.state != stDone || t.Panic != nil {
			l = append(l, t)
		}
	}
	s.tasks, s.nDone = l, 0
}

// maxFrozen is the longest time that passes in one step while a task is stalled
// in a call.
const maxFrozen = 20e9

// choose picks the next task, or returns nil after advancing the clock (or when
// nothing can run).
func (s *Sim) choose() *Task {
	runnable := s.scratch[:0]
	for _, t := range s.tasks {
		if t.state == stRunnable {
			runnable = append(runnable, t)
		}
	}
	s.scratch = runnable
	n := len(runnable)
	if n == 0 {
		if len(s.events) > 0 {
			if s.events[0].at-s.now > maxFrozen {
				for _, t := range s.tasks {
					if t.state == stBlocked && t.frozen {
						t.state, t.ready, t.frozen = stRunnable, nil, false
						return nil
					}
				}
			}
			s.fire()
		}
		return nil
	}
	lastName, lastSteps := "", int64(0)
	lastRunnable := false
	if s.last != nil {
		lastName, lastSteps = s.last.Name, s.last.steps
		lastRunnable = s.last.state == stRunnable
	}
	k := s.lastK
	s.lastK++
	var pick *Task
	timeChoice := false
	if s.replay {
		var d *Switch
		if l := s.rswitch[lastName][lastSteps]; l != nil {
			for i := range l {
				if l[i].K == k {
					d = &l[i]
				}
			}
		}
		if d != nil {
			if d.N == "@" {
				timeChoice = len(s.events) > 0
			} else if t := s.byName[d.N]; t != nil && t.state == stRunnable {
				pick = t
			}
		}
		if pick == nil && !timeChoice {
			if lastRunnable && !s.last.gave && s.last.steps-s.last.slice <= s.strat.SliceCap*3 {
				pick = s.last
			} else {
				// lowest id, after the last one if that has been spinning
				pick = runnable[0]
				if lastRunnable {
					for i := 0; i < n; i++ {
						if runnable[i] == s.last {
							pick = runnable[(i+1)%n]
						}
					}
				}
			}
		}
	} else {
		if len(s.events) > 0 && s.rng.Chance(s.strat.TimeP) && s.events[0].at-s.now <= s.strat.TimeMax {
			timeChoice = true
		} else {
			switch s.strat.Kind {
			case "pct", "hot":
				pick = runnable[0]
				for i := 1; i < n; i++ {
					if runnable[i].prio > pick.prio {
						pick = runnable[i]
					}
				}
			case "serial":
				pick = runnable[0]
				if lastRunnable && !s.last.gave && s.last.steps-s.last.slice < s.strat.SliceCap>>s.last.spins {
					pick = s.last
				} else if lastRunnable {
					for i := 0; i < n; i++ {
						if runnable[i] == s.last {
							pick = runnable[(i+1)%n]
						}
					}
				}
			default:
				pick = runnable[s.rng.Intn(n)]
			}
		}
	}
	nm := "@"
	if !timeChoice {
		nm = pick.Name
	}
	if !s.Forget {
		s.Trace = append(s.Trace, Switch{T: lastName, S: lastSteps, K: k, N: nm, P: lastRunnable && k == 0})
	}
	pid := uint64(0)
	if !timeChoice {
		pid = uint64(pick.id) + 1
	}
	lid := uint64(0)
	if s.last != nil {
		lid = uint64(s.last.id) + 1
	}
	s.schedHash = mixHash(mixHash(s.schedHash, lid<<48^uint64(lastSteps)<<8^uint64(k)), pid)
	if lastRunnable && k == 0 && !timeChoice && pick != s.last && !s.Forget {
		Pairs[uint64(s.last.preSite)<<32|uint64(pick.preSite)] = struct{}{}
	}
	if timeChoice {
		s.fire()
		return nil
	}
	return pick
}

// Close kills every task that has not finished and detaches the simulation.
func (s *Sim) Close() {
	s.stopping = true
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state != stDone {
			t.killed = true
			cur = t
			t.stop()
			cur = nil
			t.state = stDone
		}
	}
	sim = nil
}

func (s *Sim) Tasks() []*Task         { return s.tasks }
func (s *Sim) Task(name string) *Task { return s.byName[name] }
func (s *Sim) Steps() int64           { return s.steps }

// Current returns the running task's name.
func Current() string {
	if cur == nil {
		return ""
	}
	return cur.Name
}
