// Package conc drives the concurrent containers directly: many tasks call one
// map or register under the simulator's schedules, every call and what it saw
// is recorded, and the history is checked for a linearization.
package conc

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/iand/starbow/internal/zzharness/core"
	sim "github.com/iand/starbow/internal/zzvsim"
)

// Op is one call.
type Op struct {
	Kind string `json:"op"` // get, upd, fail (leaves everything as it was), mess (fails half way), put, inc
	Key  uint64 `json:"key,omitempty"`
	D    uint64 `json:"d,omitempty"`    // amount, or identity of the value written
	Hold int    `json:"hold,omitempty"` // how long an update function dawdles
	Pad  int    `json:"pad,omitempty"`  // extra room in the reader's buffer
	Gap  int    `json:"gap,omitempty"`  // yields before the call
}

type Scenario struct {
	L     int    `json:"slots,omitempty"`
	S     int    `json:"size,omitempty"`
	Init  []Op   `json:"init,omitempty"` // before the others start
	Tasks [][]Op `json:"tasks"`
	Final int    `json:"final,omitempty"` // how often every key is read at the end
	Lap   *Lap   `json:"lap,omitempty"`   // instead of the above
	Tally *Tally `json:"tally,omitempty"` // instead of the above
}

func decode(b []byte) (interface{}, error) {
	var s Scenario
	err := json.Unmarshal(b, &s)
	return &s, err
}

// call is what happened.
type call struct {
	op       *Op
	task     string
	id       int
	inv, ret int64
	found    bool
	got      string // bytes read, or what an update function saw last
	left     string // what the function left
	init     bool   // what the function was told
	ran      int    // calls of the function
	err      error
	val      uint64
	note     string // local oddity found at once
}

func (c *call) String() string {
	s := fmt.Sprintf("%s #%d %s key=%d [%d,%d]", c.task, c.id, c.op.Kind, c.op.Key, c.inv, c.ret)
	switch c.op.Kind {
	case "get":
		s += fmt.Sprintf(" -> %v %s", c.found, short(c.got))
	case "upd", "fail", "mess":
		s += fmt.Sprintf(" init=%v saw %s left %s err=%v", c.init, short(c.got), short(c.left), c.err)
	}
	if c.op.Kind == "inc" {
		s += fmt.Sprintf(" %d -> %v", c.op.D, c.found)
	}
	return s
}

func short(b string) string {
	if len(b) > 12 {
		return fmt.Sprintf("%x..", b[:12])
	}
	return fmt.Sprintf("%x", b)
}

var errFail = errors.New("the update function failed")

// next is the record an update leaves: every byte depends on the record before
// and on which update it is.
func next(prev []byte, id uint64, out []byte) {
	h := uint64(14695981039346656037) ^ id*0x9e3779b97f4a7c15
	for _, b := range prev {
		h = (h ^ uint64(b)) * 1099511628211
	}
	r := sim.NewRNG(h)
	var w [8]byte
	for i := range out {
		if i%8 == 0 {
			binary.LittleEndian.PutUint64(w[:], r.U64())
		}
		out[i] = w[i%8]
	}
}

func execute(r *core.Run, sc *Scenario, d func(s *sim.Sim, c *call), keys []uint64) ([]*call, *core.Violation) {
	s := r.Sim("history", true)
	var calls []*call
	open := 0
	one := func(task string, op *Op) {
		for i := 0; i < op.Gap; i++ {
			sim.Y()
		}
		c := &call{op: op, task: task, id: len(calls) + 1}
		calls = append(calls, c)
		c.inv = s.Seq()
		open++
		if open > 1 {
			s.Probe("overlapping-calls")
		}
		d(s, c)
		open--
		c.ret = s.Seq()
		s.Logf("%v", c)
	}
	left := len(sc.Tasks)
	ready := false
	s.Spawn("init", func() {
		for i := range sc.Init {
			one("init", &sc.Init[i])
		}
		ready = true
	})
	for ti := range sc.Tasks {
		ti := ti
		s.Spawn(fmt.Sprintf("t%d", ti), func() {
			sim.Block("start", func() bool { return ready })
			for i := range sc.Tasks[ti] {
				one(fmt.Sprintf("t%d", ti), &sc.Tasks[ti][i])
			}
			left--
		})
	}
	done := false
	s.Spawn("fin", func() {
		sim.Block("the others", func() bool { return left == 0 })
		for n := 0; n < sc.Final; n++ {
			for _, k := range keys {
				one("fin", &Op{Kind: "get", Key: k})
			}
		}
		done = true
	})
	res := s.Run(func() bool { return done })
	r.Done(s)
	if len(res.Panics) > 0 {
		t := res.Panics[0]
		if w := core.RepoFrame(t.Stack); w != "" {
			return calls, core.V("panic", "task %s panicked: %v (in %s)", t.Name, t.Panic, w)
		}
		panic(fmt.Sprintf("harness task %s: %v\n%s", t.Name, t.Panic, t.Stack))
	}
	if res.Over {
		return calls, core.V("hang", "no progress: step budget exhausted with %s running", res.Running)
	}
	if !done {
		return calls, core.V("hang", "nothing can run any more but these wait: %s", strings.Join(res.Stuck, "; "))
	}
	if r.Probes["overlapping-calls"] > 0 {
		r.NonTriv = true
	}
	for _, c := range calls {
		if c.note != "" {
			return calls, core.V("wrong-result", "%v: %s", c, c.note)
		}
	}
	return calls, nil
}

func byKey(calls []*call) ([]uint64, map[uint64][]*call) {
	m := map[uint64][]*call{}
	var ks []uint64
	for _, c := range calls {
		if m[c.op.Key] == nil {
			ks = append(ks, c.op.Key)
		}
		m[c.op.Key] = append(m[c.op.Key], c)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks, m
}

// linearize searches a single order of calls, consistent with real time, that
// the sequential model accepts. step reports the states a call may leave when it happens in a
// state: none if it cannot.
func linearize(calls []*call, start string, step func(st string, c *call) []string) bool {
	n := len(calls)
	if n > 60 {
		panic("history too long")
	}
	type key struct {
		mask uint64
		st   string
	}
	seen := map[key]bool{}
	full := uint64(1)<<uint(n) - 1
	var rec func(mask uint64, st string) bool
	rec = func(mask uint64, st string) bool {
		if mask == full {
			return true
		}
		k := key{mask, st}
		if seen[k] {
			return false
		}
		seen[k] = true
		first := int64(1) << 62
		for i, c := range calls {
			if mask&(1<<uint(i)) == 0 && c.ret < first {
				first = c.ret
			}
		}
		for i, c := range calls {
			if mask&(1<<uint(i)) != 0 || c.inv > first {
				continue
			}
			for _, st2 := range step(st, c) {
				if rec(mask|1<<uint(i), st2) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, start)
}

// explain lists a history, the reads of which may be the culprits.
func explain(calls []*call) string {
	var l []string
	for _, c := range calls {
		l = append(l, c.String())
	}
	return strings.Join(l, "; ")
}

func (sc *Scenario) ops() int {
	n := len(sc.Init)
	for _, t := range sc.Tasks {
		n += len(t)
	}
	return n
}

func shrink(x interface{}) []interface{} {
	s := x.(*Scenario)
	if s.Lap != nil {
		return shrinkLap(s)
	}
	if s.Tally != nil {
		return shrinkTally(s)
	}
	var out []interface{}
	clone := func() *Scenario {
		c := *s
		c.Init = append([]Op(nil), s.Init...)
		c.Tasks = nil
		for _, t := range s.Tasks {
			c.Tasks = append(c.Tasks, append([]Op(nil), t...))
		}
		return &c
	}
	for i := range s.Tasks {
		c := clone()
		c.Tasks = append(c.Tasks[:i], c.Tasks[i+1:]...)
		out = append(out, c)
	}
	if len(s.Init) > 0 {
		c := clone()
		c.Init = nil
		out = append(out, c)
	}
	for i := range s.Init {
		c := clone()
		c.Init = append(c.Init[:i], c.Init[i+1:]...)
		out = append(out, c)
	}
	for i := range s.Tasks {
		for j := range s.Tasks[i] {
			c := clone()
			c.Tasks[i] = append(c.Tasks[i][:j], c.Tasks[i][j+1:]...)
			out = append(out, c)
		}
	}
	if s.Final > 0 {
		c := clone()
		c.Final--
		out = append(out, c)
	}
	for i := range s.Tasks {
		for j := range s.Tasks[i] {
			if o := s.Tasks[i][j]; o.Hold+o.Gap+o.Pad > 0 {
				c := clone()
				c.Tasks[i][j].Hold, c.Tasks[i][j].Gap, c.Tasks[i][j].Pad = 0, 0, 0
				out = append(out, c)
			}
		}
	}
	return out
}

func pickInt(r *sim.RNG, l []int) int { return l[r.Intn(len(l))] }

// keyset draws keys with collisions in a table of l slots.
func keyset(r *sim.RNG, l, n int) []uint64 {
	seen := map[uint64]bool{0: true}
	var ks []uint64
	base := uint64(r.Intn(l) + 1)
	for tries := 0; len(ks) < n && tries < 200; tries++ {
		var k uint64
		x := r.Intn(6)
		if x == 5 && len(ks) == 0 {
			x = 4
		}
		switch x {
		case 0: // same home slot
			k = base + uint64(r.Intn(8))*uint64(l)
		case 1: // neighbours
			k = base + uint64(r.Intn(3))
		case 2:
			k = uint64(r.Intn(3*l) + 1)
		case 3: // the end of the table
			k = uint64(l)*uint64(r.Range(1, 3)) - uint64(r.Intn(2))
		case 4:
			k = r.U64()
			if r.Chance(0.3) {
				k = ^uint64(0) - uint64(r.Intn(4))
			}
		case 5: // partly the same as another
			k = ks[r.Intn(len(ks))]
			switch r.Intn(5) {
			case 0:
				k ^= uint64(r.Range(1, 7)) << 32
			case 1:
				k ^= uint64(r.Range(1, 7)) << uint(r.Intn(62))
			case 2:
				k = k<<32 | k>>32
			case 3: // same home slot, same low bits
				k += uint64(l) << uint(pickInt(r, []int{8, 16, 20, 32, 48}))
			case 4:
				k += uint64(l) * uint64(r.Range(1, 1<<30))
			}
		}
		if !seen[k] {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	return ks
}

// room reports how many other keys may hold a slot when c returned.
func rivals(calls []*call, c *call, writes func(o *call) bool) int {
	m := map[uint64]bool{}
	for _, o := range calls {
		if writes(o) && o.op.Key != c.op.Key && o.op.Key != 0 && o.inv < c.ret {
			m[o.op.Key] = true
		}
	}
	return len(m)
}
