package conc

import (
	"bytes"
	"fmt"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/seqlock"
	"github.com/iand/starbow/internal/zzharness/core"
	sim "github.com/iand/starbow/internal/zzvsim"
)

// keys probed before a key is given up: the documented bound of linear probing
const probes = 11

func init() {
	registerBufmap()
	registerIncmap()
	registerSeqlock()
}

func geometry(r *sim.RNG) int {
	switch r.Intn(4) {
	case 0:
		return r.Range(1, 4)
	case 1:
		return r.Range(5, 14)
	case 2:
		return r.Range(15, 40)
	}
	return pickInt(r, []int{1, 2, 10, 11, 12, 16, 17, 64, 101})
}

func shape(r *sim.RNG, thorough bool) (tasks, ops int) {
	tasks, ops = r.Range(2, 4), r.Range(1, 5)
	if r.Chance(0.15) {
		tasks, ops = r.Range(2, 6), r.Range(3, 8)
	}
	return
}

func limit(calls []*call) bool { return len(calls) > 48 }

// ---------------------------------------------------------------- C14

func dawdle(n int) {
	for ; n > 0; n-- {
		sim.Y()
	}
}

func registerBufmap() {
	gen := func(r *sim.RNG, th bool) interface{} {
		sc := &Scenario{L: geometry(r), S: r.Range(1, 40), Final: r.Range(1, 2)}
		if r.Chance(0.012) {
			sc.Lap = genLap(r, pickInt(r, []int{20, 60, 150}), 65536)
			sc.S = r.Range(9, 40)
			return sc
		}
		if r.Chance(0.01) {
			sc.S = pickInt(r, []int{64, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 9999})
			sc.L = r.Range(1, 14)
		}
		nk := r.Range(1, 4)
		if r.Chance(0.25) {
			nk = r.Range(2, 16)
		}
		if r.Chance(0.3) {
			nk = 1
		}
		ks := keyset(r, sc.L, nk)
		op := func(w float64) Op {
			o := Op{Key: ks[r.Intn(len(ks))], Gap: pickInt(r, []int{0, 0, 0, 1, 3, 10})}
			if r.Chance(0.02) {
				o.Key = 0
			}
			if r.Chance(w) {
				o.Kind = "upd"
				if r.Chance(0.2) {
					o.Kind = []string{"fail", "fail", "mess"}[r.Intn(3)]
				}
				o.Hold = pickInt(r, []int{0, 0, 1, 4, 30})
			} else {
				o.Kind, o.Pad = "get", pickInt(r, []int{0, 0, 0, 1, 7})
			}
			return o
		}
		for i := pickInt(r, []int{0, 0, 1, 2, 8, 14}); i > 0; i-- {
			sc.Init = append(sc.Init, op(0.95))
		}
		nt, no := shape(r, th)
		for t := 0; t < nt; t++ {
			w := pickInt(r, []int{0, 20, 50, 80, 100})
			var l []Op
			for i := 0; i < no; i++ {
				l = append(l, op(float64(w)/100))
			}
			sc.Tasks = append(sc.Tasks, l)
		}
		return sc
	}
	run := func(r *core.Run, x interface{}) *core.Violation {
		sc := x.(*Scenario)
		var m *bufmap.Map
		var ks []uint64
		seenK := map[uint64]bool{}
		for _, l := range append([][]Op{sc.Init}, sc.Tasks...) {
			for _, o := range l {
				if !seenK[o.Key] {
					seenK[o.Key] = true
					ks = append(ks, o.Key)
				}
			}
		}
		m = bufmap.New(sc.L, sc.S)
		if sc.Lap != nil {
			k := sc.Lap.Seed%uint64(4*sc.L) + 1
			if sc.Lap.Seed%3 == 0 {
				k = sc.Lap.Seed
			}
			return runLap(r, sc.Lap, "absent", func() string {
				buf := make([]byte, sc.S)
				if m.Get(k, buf) {
					return string(buf)
				}
				return "absent"
			}, func(i int) (saw, left string, err error) {
				if sc.Lap.Puts > 0 && i%sc.Lap.Puts == 0 {
					m.Update(k, func(data []byte, init bool) error { return errFail })
				}
				out := make([]byte, sc.S)
				err = m.Update(k, func(data []byte, init bool) error {
					saw = string(data)
					if init {
						saw = "absent"
					}
					next(data, uint64(i), out)
					copy(data, out)
					return nil
				})
				return saw, string(out), err
			})
		}
		calls, v := execute(r, sc, func(s *sim.Sim, c *call) {
			switch c.op.Kind {
			case "get":
				buf := bytes.Repeat([]byte{0xEE}, sc.S+c.op.Pad)
				c.found = m.Get(c.op.Key, buf)
				if c.found {
					c.got = string(buf[:sc.S])
					s.Probe("get-found")
				} else {
					s.Probe("get-not-found")
				}
				for _, b := range buf[sc.S:] {
					if b != 0xEE {
						c.note = fmt.Sprintf("wrote more than the %d bytes of a record: %x", sc.S, buf)
					}
				}
			case "upd", "fail", "mess":
				c.err = m.Update(c.op.Key, func(data []byte, init bool) error {
					c.ran++
					c.init = init
					if len(data) != sc.S {
						c.note = fmt.Sprintf("the function got %d bytes", len(data))
						return nil
					}
					prev := append([]byte(nil), data...)
					c.got = string(prev)
					dawdle(c.op.Hold)
					if c.op.Kind == "fail" {
						c.left = c.got
						return errFail
					}
					out := make([]byte, sc.S)
					if init {
						prev = nil
					}
					next(prev, uint64(c.id), out)
					n := len(out)
					if c.op.Kind == "mess" {
						n = c.id * 37 % (n + 1)
					}
					for i := 0; i < n; i++ {
						data[i] = out[i]
						if i%4 == 1 {
							sim.Y()
						}
					}
					c.left = string(data)
					if c.op.Kind == "mess" {
						return errFail
					}
					return nil
				})
			}
		}, ks)
		if v != nil {
			return v
		}
		writes := func(o *call) bool { return o.op.Kind != "get" }
		keys, m2 := byKey(calls)
		for _, k := range keys {
			cs := m2[k]
			var hist []*call
			for _, c := range cs {
				if k == 0 {
					if c.found || c.ran > 0 || (writes(c) && c.err == nil) {
						return core.V("reserved-key", "%v: the reserved key is accepted", c)
					}
					continue
				}
				if !writes(c) {
					hist = append(hist, c)
					continue
				}
				if c.ran == 0 {
					// refused
					if c.err == nil {
						return core.V("lost-update", "%v: success although the function was never called", c)
					}
					r.Probe("out-of-slots", 1)
					lim := probes
					if sc.L < lim {
						lim = sc.L
					}
					if n := rivals(calls, c, writes); n < lim {
						return core.V("refused", "%v: no slot in a table of %d although only %d other keys were ever written", c, sc.L, n)
					}
					for _, o := range cs {
						if writes(o) && o.ran > 0 && o.ret < c.inv {
							return core.V("refused", "%v: no slot although %v had one before", c, o)
						}
					}
					continue
				}
				if c.op.Kind != "upd" && c.err != errFail {
					return core.V("wrong-result", "%v: the function's error is not reported", c)
				}
				if c.op.Kind == "upd" && c.err != nil {
					return core.V("wrong-result", "%v: error although the function succeeded", c)
				}
				if c.op.Kind != "upd" {
					r.Probe("failed-update", 1)
				}
				hist = append(hist, c)
			}
			if limit(hist) {
				r.Probe("skipped-long", 1)
				continue
			}
			// state: "" is not found, else "+" and the record. What a failing
			// function left of the record stays or is undone, as a whole.
			if !linearize(hist, "", func(st string, c *call) []string {
				same := []string{st}
				if c.op.Kind == "get" {
					if c.found == (st != "") && (!c.found || c.got == st[1:]) {
						return same
					}
					return nil
				}
				if c.init != (st == "") || (st != "" && c.got != st[1:]) {
					return nil
				}
				if c.op.Kind == "upd" {
					return []string{"+" + c.left}
				}
				if c.op.Kind == "mess" && st != "" {
					return []string{st, "+" + c.left}
				}
				return same
			}) {
				return core.V("not-linearizable", "no order of the calls on key %d explains them (table of %d records of %d bytes): %s", k, sc.L, sc.S, explain(cs))
			}
		}
		return nil
	}
	core.Register(&core.Prop{ID: "C14", Quick: 600000, Gen: gen, Decode: decode, Run: run, Shrink: shrink,
		Rule: "a run is non-trivial if two calls overlapped; distinct means a distinct hash of all scheduling decisions and the recorded history",
		Real: []string{"internal/bufmap (instrumented at every statement, atomic operation and memory copy)"},
		Stub: []string{"callers and update functions: workload tasks of the harness", "sync.Mutex: the simulator's, with the same contract", "sync/atomic: executed as one step"},
		Need: []string{"overlapping-calls", "get-found", "get-not-found", "out-of-slots", "failed-update", "stalled-reads"}})
}

// ---------------------------------------------------------------- C15

func registerIncmap() {
	gen := func(r *sim.RNG, th bool) interface{} {
		sc := &Scenario{L: geometry(r), Final: r.Range(1, 2)}
		if r.Chance(0.01) {
			sc.Tally = genTally(r, sc.L)
			return sc
		}
		nk := r.Range(1, 4)
		if r.Chance(0.35) {
			nk = r.Range(2, 18)
		}
		ks := keyset(r, sc.L, nk)
		bit := 0
		op := func(w float64) Op {
			o := Op{Key: ks[r.Intn(len(ks))], Gap: pickInt(r, []int{0, 0, 0, 1, 3})}
			if r.Chance(0.02) {
				o.Key = 0
			}
			if r.Chance(w) {
				o.Kind = "inc"
				o.D = 1 << uint(bit%64)
				bit++
				if r.Chance(0.1) {
					o.D = uint64(r.Intn(3))
				}
				if r.Chance(0.05) {
					o.D = r.U64()
				}
			} else {
				o.Kind = "get"
			}
			return o
		}
		for i := pickInt(r, []int{0, 0, 1, 2, 8, 14}); i > 0; i-- {
			sc.Init = append(sc.Init, op(0.95))
		}
		nt, no := shape(r, th)
		for t := 0; t < nt; t++ {
			w := pickInt(r, []int{0, 20, 50, 80, 100})
			var l []Op
			for i := 0; i < no; i++ {
				l = append(l, op(float64(w)/100))
			}
			sc.Tasks = append(sc.Tasks, l)
		}
		return sc
	}
	run := func(r *core.Run, x interface{}) *core.Violation {
		sc := x.(*Scenario)
		if sc.Tally != nil {
			return runTally(r, sc.L, sc.Tally)
		}
		m := incmap.New(sc.L)
		var ks []uint64
		seenK := map[uint64]bool{}
		for _, l := range append([][]Op{sc.Init}, sc.Tasks...) {
			for _, o := range l {
				if !seenK[o.Key] {
					seenK[o.Key] = true
					ks = append(ks, o.Key)
				}
			}
		}
		calls, v := execute(r, sc, func(s *sim.Sim, c *call) {
			switch c.op.Kind {
			case "get":
				c.val, c.found = m.Get(c.op.Key)
				c.got = fmt.Sprint(c.val)
				if c.found {
					s.Probe("get-found")
				} else {
					s.Probe("get-not-found")
				}
			case "inc":
				c.found = m.Inc(c.op.Key, c.op.D)
			}
		}, ks)
		if v != nil {
			return v
		}
		writes := func(o *call) bool { return o.op.Kind == "inc" }
		keys, m2 := byKey(calls)
		for _, k := range keys {
			cs := m2[k]
			var hist []*call
			for _, c := range cs {
				if k == 0 {
					if c.found {
						return core.V("reserved-key", "%v: the reserved key is accepted", c)
					}
					continue
				}
				if writes(c) && !c.found {
					r.Probe("out-of-slots", 1)
					lim := probes
					if sc.L < lim {
						lim = sc.L
					}
					if n := rivals(calls, c, writes); n < lim {
						return core.V("refused", "%v: no room in a table of %d although only %d other keys were ever incremented", c, sc.L, n)
					}
					for _, o := range cs {
						if writes(o) && o.found && o.ret < c.inv {
							return core.V("refused", "%v: no room although %v had some before", c, o)
						}
					}
					continue
				}
				if c.op.Kind == "get" && c.found {
					begun := false
					for _, o := range cs {
						if writes(o) && o.inv < c.ret {
							begun = true
						}
					}
					if !begun {
						return core.V("phantom", "%v: found although never incremented", c)
					}
				}
				hist = append(hist, c)
			}
			if limit(hist) {
				r.Probe("skipped-long", 1)
				continue
			}
			// state: "" before the first increment, else the total
			if !linearize(hist, "", func(st string, c *call) []string {
				var sum uint64
				if st != "" {
					fmt.Sscan(st, &sum)
				}
				if c.op.Kind == "inc" {
					return []string{fmt.Sprint(sum + c.op.D)}
				}
				// the claim of a slot shows before the first increment does
				if c.found && c.val != sum || !c.found && st != "" {
					return nil
				}
				return []string{st}
			}) {
				return core.V("not-linearizable", "no order of the calls on key %d explains them (table of %d): %s", k, sc.L, explain(cs))
			}
		}
		return nil
	}
	core.Register(&core.Prop{ID: "C15", Quick: 600000, Gen: gen, Decode: decode, Run: run, Shrink: shrink,
		Rule: "a run is non-trivial if two calls overlapped; distinct means a distinct hash of all scheduling decisions and the recorded history",
		Real: []string{"internal/incmap (instrumented at every statement and atomic operation)"},
		Stub: []string{"callers: workload tasks of the harness", "sync/atomic: executed as one step"},
		Need: []string{"overlapping-calls", "get-found", "get-not-found", "out-of-slots", "long-tallies"}})
}

// ---------------------------------------------------------------- C16

func registerSeqlock() {
	gen := func(r *sim.RNG, th bool) interface{} {
		sc := &Scenario{Final: r.Range(1, 2)}
		if r.Chance(0.006) {
			sc.Lap = genLap(r, pickInt(r, []int{20, 150, 1100}), 256)
			return sc
		}
		op := func(w float64) Op {
			o := Op{Kind: "get", Gap: pickInt(r, []int{0, 0, 0, 1, 3, 10})}
			if r.Chance(w) {
				o.Kind = []string{"put", "upd", "upd", "fail"}[r.Intn(4)]
				o.Hold = pickInt(r, []int{0, 0, 1, 4, 30})
			}
			return o
		}
		for i := r.Intn(3); i > 0; i-- {
			sc.Init = append(sc.Init, op(1))
		}
		nt, no := shape(r, th)
		for t := 0; t < nt; t++ {
			w := pickInt(r, []int{0, 20, 50, 80, 100})
			var l []Op
			for i := 0; i < no; i++ {
				l = append(l, op(float64(w)/100))
			}
			sc.Tasks = append(sc.Tasks, l)
		}
		return sc
	}
	run := func(r *core.Run, x interface{}) *core.Violation {
		sc := x.(*Scenario)
		l := seqlock.New()
		if sc.Lap != nil {
			return runLap(r, sc.Lap, string(make([]byte, 1024)), func() string {
				b := l.Get()
				return string(b[:])
			}, func(i int) (saw, left string, err error) {
				var b [1024]byte
				if sc.Lap.Puts > 0 && i%sc.Lap.Puts == 0 {
					next(nil, uint64(i), b[:])
					l.Put(b)
					return "", string(b[:]), nil
				}
				err = l.Update(func(data []byte) error {
					saw = string(data)
					next(data, uint64(i), b[:])
					copy(data, b[:])
					return nil
				})
				return saw, string(b[:]), err
			})
		}
		calls, v := execute(r, sc, func(s *sim.Sim, c *call) {
			switch c.op.Kind {
			case "get":
				b := l.Get()
				c.got = string(b[:])
				c.found = true
			case "put":
				var b [1024]byte
				next(nil, uint64(c.id), b[:])
				c.left = string(b[:])
				l.Put(b)
			case "upd", "fail":
				c.err = l.Update(func(data []byte) error {
					c.ran++
					if len(data) != 1024 {
						c.note = fmt.Sprintf("the function got %d bytes", len(data))
						return nil
					}
					prev := append([]byte(nil), data...)
					c.got = string(prev)
					dawdle(c.op.Hold)
					out := make([]byte, len(data))
					next(prev, uint64(c.id), out)
					n := len(out)
					if c.op.Kind == "fail" {
						n = c.id * 37 % (n + 1) // fails half way
					}
					for i := 0; i < n; i++ {
						data[i] = out[i]
						if i%256 == 17 {
							sim.Y()
						}
					}
					c.left = string(out)
					if c.op.Kind == "fail" {
						return errFail
					}
					return nil
				})
			}
		}, []uint64{0})
		if v != nil {
			return v
		}
		for _, c := range calls {
			if c.op.Kind == "fail" {
				r.Probe("failed-update", 1)
				if c.err != errFail {
					return core.V("wrong-result", "%v: the function's error is not reported", c)
				}
			}
			if c.op.Kind == "upd" {
				if c.err != nil {
					return core.V("wrong-result", "%v: error although the function succeeded", c)
				}
				if c.ran == 0 {
					return core.V("lost-update", "%v: success although the function was never called", c)
				}
			}
		}
		if limit(calls) {
			r.Probe("skipped-long", 1)
			return nil
		}
		// complete values
		complete := map[string]bool{string(make([]byte, 1024)): true}
		for _, c := range calls {
			if c.op.Kind == "put" || c.op.Kind == "upd" {
				complete[c.left] = true
			}
		}
		for _, c := range calls {
			if c.got != "" && !complete[c.got] {
				return core.V("torn", "%v: saw a value no call ever left: %s", c, explain(calls))
			}
		}
		if !linearize(calls, string(make([]byte, 1024)), func(st string, c *call) []string {
			if c.op.Kind != "put" && c.got != "" && c.got != st {
				return nil
			}
			if c.op.Kind == "put" || c.op.Kind == "upd" {
				return []string{c.left}
			}
			return []string{st}
		}) {
			return core.V("not-linearizable", "no order of the calls explains them: %s", explain(calls))
		}
		return nil
	}
	core.Register(&core.Prop{ID: "C16", Quick: 250000, Gen: gen, Decode: decode, Run: run, Shrink: shrink,
		Rule: "a run is non-trivial if two calls overlapped; distinct means a distinct hash of all scheduling decisions and the recorded history",
		Real: []string{"internal/seqlock (instrumented at every statement, atomic operation and memory copy)"},
		Stub: []string{"callers and update functions: workload tasks of the harness", "sync.Mutex: the simulator's, with the same contract", "sync/atomic: executed as one step"},
		Need: []string{"overlapping-calls", "failed-update", "stalled-reads"}})
}
