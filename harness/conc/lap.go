package conc

import (
	"fmt"
	"sort"

	"github.com/iand/starbow/internal/zzharness/core"
	sim "github.com/iand/starbow/internal/zzvsim"
)

// Lap is a workload in which readers stall in the middle of their calls while
// one writer completes very many.
type Lap struct {
	Seed  uint64 `json:"seed"`
	N     int    `json:"n"`     // writes during a stall
	Stall []int  `json:"stall"` // per read: the step of the call at which it stalls
	Reads int    `json:"reads"` // readers
	Extra int    `json:"extra"` // writes after that before the writer waits for the stalled read
	Puts  int    `json:"puts"`  // every so many writes is of the other kind
}

func genLap(r *sim.RNG, steps, max int) *Lap {
	l := &Lap{Seed: r.U64(), N: pickInt(r, []int{1, 2, 4, 8, 16, 32, 64, 64, 127, 128, 128, 128, 129, 255, 256, 256, 512}), Reads: 1, Extra: pickInt(r, []int{0, 0, 0, 0, 1, 2, 20})}
	if r.Chance(0.04) {
		l.N = pickInt(r, []int{1024, 4096, 16384, 32768, 65536})
	}
	if l.N > max {
		l.N = pickInt(r, []int{max, max / 2})
	}
	if r.Chance(0.2) {
		l.Reads = r.Range(2, 3)
	}
	n := r.Range(1, 3)
	if l.N > 600 {
		n = 1
	}
	for i := 0; i < n; i++ {
		l.Stall = append(l.Stall, r.Range(1, steps))
	}
	l.Puts = pickInt(r, []int{0, 0, 2, 3})
	return l
}

func shrinkLap(s *Scenario) []interface{} {
	var out []interface{}
	with := func(f func(l *Lap)) {
		c, l := *s, *s.Lap
		l.Stall = append([]int(nil), l.Stall...)
		f(&l)
		c.Lap = &l
		out = append(out, &c)
	}
	for i := range s.Lap.Stall {
		i := i
		if len(s.Lap.Stall) > 1 {
			with(func(l *Lap) { l.Stall = append(l.Stall[:i], l.Stall[i+1:]...) })
		}
	}
	if s.Lap.Reads > 1 {
		with(func(l *Lap) { l.Reads = 1 })
	}
	if s.Lap.Puts > 0 {
		with(func(l *Lap) { l.Puts = 0 })
	}
	if s.Lap.N > 1 {
		with(func(l *Lap) { l.N /= 2 })
		with(func(l *Lap) { l.N-- })
	}
	return out
}

// runLap checks a register with one writer: every read returns a value that was
// current at some moment of the call, and reads never go backwards. first is the
// value before any write. write returns the value seen ("" if it does not look)
// and the value left.
func runLap(r *core.Run, lap *Lap, first string, read func() string, write func(i int) (saw, left string, err error)) *core.Violation {
	s0 := 64
	if len(first) > s0 {
		s0 = len(first)
	}
	r.Extra = int64(lap.N+lap.Extra) * int64(len(lap.Stall)*lap.Reads) * int64(400+40*s0)
	s := r.Sim("laps", true)
	type rec struct {
		inv, ret int64
		val, saw string
	}
	writes := []rec{{0, 0, first, ""}}
	var reads []rec
	done, stalled, left := 0, 0, lap.Reads
	var bad *core.Violation
	goal := 0
	for k := 0; k < lap.Reads; k++ {
		k := k
		s.Spawn(fmt.Sprintf("r%d", k), func() {
			for _, n := range lap.Stall {
				from, limit := done, s.Steps()+int64(lap.N)*5000+100000
				n += k * 3
				stalled++
				if from+lap.N > goal {
					goal = from + lap.N
				}
				s.Freeze(n, func() bool { return done-from >= lap.N || s.Steps() > limit })
				c := rec{inv: s.Seq()}
				c.val = read()
				c.ret = s.Seq()
				s.Unfreeze()
				stalled--
				reads = append(reads, c)
				s.Logf("read %d [%d,%d] %s", k, c.inv, c.ret, short(c.val))
			}
			left--
		})
	}
	fin := false
	s.Spawn("w", func() {
		for left > 0 {
			if done >= goal && stalled == 0 {
				sim.Block("readers", func() bool { return left == 0 || stalled > 0 })
				continue
			}
			if done >= goal+lap.Extra {
				sim.Block("stalled reads", func() bool { return stalled == 0 || done < goal+lap.Extra })
				continue
			}
			c := rec{inv: s.Seq()}
			var err error
			c.saw, c.val, err = write(done + 1)
			c.ret = s.Seq()
			if err != nil && bad == nil {
				bad = core.V("wrong-result", "update %d: error %v although the function succeeded", done+1, err)
			}
			writes = append(writes, c)
			done++
			if done%16 == 0 {
				s.Logf("%d writes", done)
			}
		}
		fin = true
	})
	res := s.Run(func() bool { return fin })
	r.Done(s)
	if len(res.Panics) > 0 {
		t := res.Panics[0]
		if w := core.RepoFrame(t.Stack); w != "" {
			return core.V("panic", "task %s panicked: %v (in %s)", t.Name, t.Panic, w)
		}
		panic(fmt.Sprintf("harness task %s: %v\n%s", t.Name, t.Panic, t.Stack))
	}
	if res.Over {
		return core.V("hang", "no progress: step budget exhausted with %s running", res.Running)
	}
	if !fin {
		return core.V("hang", "nothing can run any more but these wait: %v", res.Stuck)
	}
	if bad != nil {
		return bad
	}
	r.Probe("stalled-reads", int64(len(reads)))
	r.NonTriv = true
	index := map[string]int{}
	for i, w := range writes {
		if i > 0 && w.saw != "" && w.saw != writes[i-1].val {
			return core.V("not-linearizable", "update %d of %d by the only writer saw %s, not what the one before left: %s", i, len(writes)-1, short(w.saw), short(writes[i-1].val))
		}
		index[w.val] = i
	}
	sort.Slice(reads, func(i, j int) bool { return reads[i].ret < reads[j].ret })
	for i, c := range reads {
		x, ok := index[c.val]
		if !ok {
			return core.V("torn", "a read [%d,%d] stalled while %d updates were made and returned a value none of them left: %x", c.inv, c.ret, lap.N, c.val)
		}
		if writes[x].inv > c.ret || (x+1 < len(writes) && writes[x+1].ret < c.inv) {
			return core.V("not-linearizable", "a read [%d,%d] returned the value of update %d [%d,%d], which was not current then", c.inv, c.ret, x, writes[x].inv, writes[x].ret)
		}
		for _, b := range reads[:i] {
			if b.ret < c.inv && index[b.val] > x {
				return core.V("not-linearizable", "a read [%d,%d] returned update %d after an earlier read [%d,%d] had returned update %d", c.inv, c.ret, x, b.inv, b.ret, index[b.val])
			}
		}
	}
	return nil
}
