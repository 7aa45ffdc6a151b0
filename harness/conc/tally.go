package conc

import (
	"fmt"

	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/zzharness/core"
	sim "github.com/iand/starbow/internal/zzvsim"
)

// Tally is a workload of very many increments.
type Tally struct {
	Seed  uint64   `json:"seed"`
	Tasks int      `json:"tasks"`
	N     int      `json:"n"` // increments per task
	Keys  []uint64 `json:"keys"`
	Reads int      `json:"reads"` // percentage of reads
}

func genTally(r *sim.RNG, l int) *Tally {
	n := r.Range(1, 6)
	if n > l {
		n = l
	}
	t := &Tally{Seed: r.U64(), Tasks: r.Range(1, 5), N: pickInt(r, []int{10, 40, 130, 300}), Keys: keyset(r, l, n), Reads: pickInt(r, []int{5, 20, 50})}
	if r.Chance(0.01) {
		t.N = 66_000
		t.Tasks, t.Reads = 1, 1
	}
	return t
}

func shrinkTally(s *Scenario) []interface{} {
	var out []interface{}
	with := func(f func(t *Tally)) {
		c, t := *s, *s.Tally
		t.Keys = append([]uint64(nil), t.Keys...)
		f(&t)
		c.Tally = &t
		out = append(out, &c)
	}
	if s.Tally.Tasks > 1 {
		with(func(t *Tally) { t.Tasks-- })
	}
	if s.Tally.N > 1 {
		with(func(t *Tally) { t.N /= 2 })
		with(func(t *Tally) { t.N-- })
	}
	for i := range s.Tally.Keys {
		i := i
		if len(s.Tally.Keys) > 1 {
			with(func(t *Tally) { t.Keys = append(t.Keys[:i], t.Keys[i+1:]...) })
		}
	}
	return out
}

// runTally checks that every read lies between the increments completed before
// it began and those begun before it ended, and never goes backwards.
func runTally(r *core.Run, l int, t *Tally) *core.Violation {
	m := incmap.New(l)
	r.Extra = int64(t.Tasks*t.N) * 300
	s := r.Sim("tally", true)
	begun := make([]uint64, len(t.Keys))
	done := make([]uint64, len(t.Keys))
	seen := make([]uint64, len(t.Keys)) // greatest total read by a completed read
	has := make([]bool, len(t.Keys))
	var bad *core.Violation
	fail := func(f string, a ...interface{}) {
		if bad == nil {
			bad = core.V("total", f, a...)
		}
	}
	get := func(i int) {
		lo, floor, was := done[i], seen[i], has[i]
		v, ok := m.Get(t.Keys[i])
		switch {
		case !ok && (was || lo > 0):
			fail("key %d is not found although %d had been counted (found before: %v)", t.Keys[i], lo, was)
		case ok && begun[i] == 0:
			fail("key %d is found although never incremented", t.Keys[i])
		case ok && (v < lo || v > begun[i]):
			fail("key %d reads %d, but increments totalling %d had been made before and %d begun by the end (table of %d)", t.Keys[i], v, lo, begun[i], l)
		case ok && v < floor:
			fail("key %d reads %d after %d", t.Keys[i], v, floor)
		}
		if ok {
			has[i] = true
			if v > seen[i] {
				seen[i] = v
			}
		}
	}
	left := t.Tasks
	for k := 0; k < t.Tasks; k++ {
		k := k
		s.Spawn(fmt.Sprintf("t%d", k), func() {
			g := sim.NewRNG(t.Seed + uint64(k))
			for n := 0; n < t.N && bad == nil; n++ {
				i := g.Intn(len(t.Keys))
				if g.Intn(100) < t.Reads {
					get(i)
				}
				d := uint64(1)
				if g.Chance(0.3) {
					d = g.U64()>>(32+uint(g.Intn(30))) | 1
				}
				begun[i] += d
				if m.Inc(t.Keys[i], d) {
					done[i] += d
				} else {
					fail("no room for key %d in a table of %d although only %d keys are used", t.Keys[i], l, len(t.Keys))
				}
				if n%50 == 0 {
					s.Logf("t%d %d", k, n)
				}
			}
			left--
		})
	}
	fin := false
	s.Spawn("fin", func() {
		sim.Block("the others", func() bool { return left == 0 })
		for i := range t.Keys {
			if begun[i] > 0 {
				get(i)
			}
		}
		fin = true
	})
	res := s.Run(func() bool { return fin })
	r.Done(s)
	if len(res.Panics) > 0 {
		p := res.Panics[0]
		if w := core.RepoFrame(p.Stack); w != "" {
			return core.V("panic", "task %s panicked: %v (in %s)", p.Name, p.Panic, w)
		}
		panic(fmt.Sprintf("harness task %s: %v\n%s", p.Name, p.Panic, p.Stack))
	}
	if res.Over {
		return core.V("hang", "no progress: step budget exhausted with %s running", res.Running)
	}
	if !fin {
		return core.V("hang", "nothing can run any more but these wait: %v", res.Stuck)
	}
	r.Probe("long-tallies", 1)
	r.NonTriv = r.NonTriv || t.Tasks > 1
	return bad
}
