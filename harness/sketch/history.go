package sketch

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"

	"github.com/iand/starbow/internal/summary/stat64"
	"github.com/iand/starbow/internal/zzharness/core"
	sim "github.com/iand/starbow/internal/zzvsim"
)

// ---------------------------------------------------------------- C23
//
// Histories: several sketches live side by side, in memory of their own or in
// one shared buffer, each used by its own task. They are updated, asked, reset,
// written to checkpoints that may fail half way, lost in crashes, restored from
// the last checkpoint that was completed and attached again to their bytes.

// HSketch is one sketch of a history.
type HSketch struct {
	Spec  Spec  `json:"sketch"`
	Arena bool  `json:"shared_buffer,omitempty"`
	Tail  int   `json:"tail,omitempty"` // it is given this many bytes more than it needs
	Ops   []HOp `json:"ops"`
	Later []HOp `json:"later,omitempty"` // after the whole process was started again; the first is the restore
}

// HOp is one step in the life of a sketch.
type HOp struct {
	Kind string  `json:"op"`
	A    int     `json:"a,omitempty"`
	B    int     `json:"b,omitempty"`
	N    int     `json:"n,omitempty"` // how many at once, if not a few
	St   *Stream `json:"stream,omitempty"`
}

type HistScenario struct {
	Sketches []HSketch `json:"sketches"`
	Gap      int       `json:"gap"` // bytes between the sketches in the shared buffer
	Par      bool      `json:"parallel"`
}

// model is what a sketch should hold.
type model struct {
	vals  []uint8
	items map[int]bool
	nums  []float64
}

func newModel(sp Spec) *model {
	m := &model{items: map[int]bool{}}
	if sp.Type == "bits" {
		m.vals = make([]uint8, sp.N)
	}
	return m
}

func (m *model) copy() *model {
	c := &model{vals: append([]uint8(nil), m.vals...), items: map[int]bool{}, nums: append([]float64(nil), m.nums...)}
	for k := range m.items {
		c.items[k] = true
	}
	return c
}

func (m *model) sorted() []int {
	var l []int
	for k := range m.items {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

// holder is a sketch in use.
type holder struct {
	s     *sim.Sim
	h     HSketch
	name  string
	b     *box
	st    stat64.Summary
	m     *model
	mem   []byte // its part of the shared buffer
	room  []byte // what it is attached to: mem and the tail
	sp    Spec   // what it is now
	loose bool   // it no longer lives in its part of the shared buffer
	grew  bool   // it may have used all it was given
	file  []byte // the last complete checkpoint
	saved *model
	fsp   Spec // of what
	n     int  // operations done
	v     *core.Violation
}

func (h *holder) fail(class, f string, a ...interface{}) {
	if h.v == nil {
		h.v = core.V(class, "%s after %d steps: %s", h.name, h.n, fmt.Sprintf(f, a...))
	}
}

func (h *holder) stat() bool { return h.h.Spec.Type == "stat" }

func size(sp Spec) int {
	if sp.Type == "stat" {
		return stat64.Len()
	}
	sp.Adds = 0
	return build(sp).Len()
}

// create makes the sketch anew, empty.
func (h *holder) create() {
	sp := h.h.Spec
	sp.Adds = 0
	h.sp, h.loose = sp, false
	h.m = newModel(sp)
	if h.stat() {
		h.st = stat64.New()
		if h.h.Arena {
			for i := range h.mem {
				h.mem[i] = 0xC3 // whatever was there
			}
			h.st = stat64.WithBytes(h.room)
			h.st.Reset()
		}
		return
	}
	h.b = build(sp)
	if h.h.Arena {
		data, err := h.b.bytes()
		if err != nil || len(data) != len(h.mem) {
			h.fail("write-failed", "writing to memory gives %d of %d bytes, %v", len(data), len(h.mem), err)
			return
		}
		copy(h.mem, data)
		h.attach()
	}
}

func (h *holder) attach() {
	if h.stat() {
		h.st = stat64.WithBytes(h.room)
		return
	}
	b, err := view(h.h.Spec.Type, h.room)
	if err != nil {
		h.fail("intact-refused", "WithBytes of its own bytes fails: %v", err)
		return
	}
	b.spec = h.sp
	h.b = b
}

func (h *holder) item(i int) []byte { return item(h.h.Spec.Seed, i) }

func number(seed uint64, i int) float64 {
	r := sim.NewRNG(seed + uint64(i)*104729)
	if far := seed / 4 % 6; seed%4 == 1 && far > 0 {
		// close to each other, far from zero: 1e5 to 1e9
		return math.Pow(10, float64(far+4)) + float64(r.Intn(641)-320)/64
	}
	v := float64(r.Intn(2000001) - 1000000)
	switch r.Intn(4) {
	case 0:
		v /= 64
	case 1:
		v = float64(r.Intn(7) - 3)
	}
	return v
}

func (h *holder) do(op HOp) {
	sp := h.sp
	h.n++
	h.s.Logf("%s %s %d %d", h.name, op.Kind, op.A, op.B)
	switch op.Kind {
	case "add":
		switch {
		case sp.Type == "stat":
			v := number(sp.Seed, op.A)
			h.st.Update(v)
			h.m.nums = append(h.m.nums, v)
		case sp.Type == "bits":
			if sp.N == 0 {
				return
			}
			x, max := op.A%sp.N, 1<<uint(sp.W)-1
			h.b.bits.Set(x, uint8(op.B))
			v := op.B & 255
			if v > max {
				v = max
			}
			h.m.vals[x] = uint8(v)
			h.near(x)
		case sp.Type == "bloom":
			h.b.bl.Add(h.item(op.A))
			h.m.items[op.A] = true
			if !h.b.bl.Has(h.item(op.A)) {
				h.fail("missing-item", "item %q is not there right after it was added", h.item(op.A))
			}
		default:
			h.b.hl.Add(h.item(op.A))
			h.m.items[op.A] = true
		}
	case "more": // increments, or many additions at once
		switch {
		case sp.Type == "stat":
			var vs []float64
			n := op.B % 40
			if op.N > 0 {
				n = op.N
			}
			for i := 0; i < n; i++ {
				vs = append(vs, number(sp.Seed, op.A+i))
			}
			keep := append([]float64(nil), vs...)
			if op.N == 0 {
				h.st.UpdateMulti(vs)
			} else {
				sim.Quiet(func() {
					if op.B&1 == 0 {
						h.st.UpdateMulti(vs)
						return
					}
					for _, v := range vs {
						h.st.Update(v)
					}
				})
			}
			h.m.nums = append(h.m.nums, keep...)
		case sp.Type == "bits":
			if sp.N == 0 {
				return
			}
			x, max := op.A%sp.N, 1<<uint(sp.W)-1
			h.b.bits.IncN(x, uint8(op.B))
			v := int(h.m.vals[x]) + op.B&255
			if v > max {
				v = max
			}
			h.m.vals[x] = uint8(v)
			h.near(x)
		default:
			for i := 0; i < op.B%120; i++ {
				if sp.Type == "bloom" {
					h.b.bl.Add(h.item(op.A + i))
				} else {
					h.b.hl.Add(h.item(op.A + i))
				}
				h.m.items[op.A+i] = true
			}
		}
	case "ask":
		h.look(op.B%4 > 0)
	case "reset":
		if h.stat() {
			h.st.Reset()
		} else {
			h.b.Reset()
		}
		h.m = newModel(sp)
	case "save":
		h.save(op)
	case "crash":
		h.s.Fault("crash")
		h.b, h.st = nil, nil
		h.restore(op)
	case "remap":
		if h.h.Arena && !h.loose {
			h.s.Fault("attached-again")
			h.attach()
		}
	case "load":
		h.load(op)
	}
}

// load reads another sketch of its kind, of any size, into the one in use.
func (h *holder) load(op HOp) {
	if h.stat() {
		return
	}
	sp := h.sp
	switch op.B & 7 {
	case 0, 1:
	case 2:
		sp.N++
	case 3:
		sp.N = 2*sp.N + 3
	case 4:
		sp.N = sp.N/2 + 1
	default:
		sp.N = 1 + op.A%300
	}
	if sp.N > 6000 {
		sp.N = 1
	}
	if sp.Type == "hll" {
		sp.N = 0
		sp.W = 4 + op.B/8%6
	} else if sp.W > 0 && op.B&8 != 0 {
		sp.W = 1 + op.B/16%8
	}
	m := newModel(sp)
	var file []byte
	var err error
	sim.Quiet(func() {
		o := build(sp)
		for i := 0; i < op.A%50; i++ {
			switch {
			case sp.Type == "bits" && sp.N > 0:
				x, v := (op.A+i*i)%sp.N, (op.B+i)&(1<<uint(sp.W)-1)
				o.bits.Set(x, uint8(v))
				m.vals[x] = uint8(v)
			case sp.Type == "bloom":
				o.bl.Add(h.item(op.A + i))
				m.items[op.A+i] = true
			case sp.Type == "hll":
				o.hl.Add(h.item(op.A + i))
				m.items[op.A+i] = true
			}
		}
		file, err = o.bytes()
	})
	if err != nil {
		h.fail("write-failed", "writing to memory fails: %v", err)
		return
	}
	was, err := h.b.bytes()
	if err != nil {
		h.fail("write-failed", "writing to memory fails: %v", err)
		return
	}
	st := *op.St
	if st.At > len(file) {
		st.At = len(file)
	}
	if st.Fault == "end" && st.At >= len(file) {
		st.Fault = ""
	}
	h.grew = h.grew || h.h.Arena && !h.loose
	_, err = h.b.ReadFrom(newSource(h.s, file, st))
	if err == nil && st.Fault != "" {
		h.fail("error-swallowed", "reading from a stream that fails (%s at byte %d of %d) reports success", st.Fault, st.At, len(file))
		return
	}
	if err != nil && st.Fault == "" {
		h.fail("intact-refused", "%d intact bytes cannot be read into it: %v", len(file), err)
		return
	}
	if err != nil {
		// it is as it was or completely replaced
		now, e := h.b.bytes()
		if e == nil && bytes.Equal(now, was) && !bytes.Equal(was, file) {
			h.s.Probe("load-failed")
			return
		}
		if e != nil || !bytes.Equal(now, file) {
			h.fail("half-replaced", "after reading into it failed (%v) it writes %x, neither what it was (%x) nor what was read (%x)", err, clip(now), clip(was), clip(file))
			return
		}
	}
	h.s.Probe("loaded")
	h.sp, h.m, h.b.spec = sp, m, sp
	h.loose = h.h.Arena
}

// save writes a checkpoint; only a complete one replaces the last.
func (h *holder) save(op HOp) {
	if h.stat() {
		h.file, h.saved, h.fsp = append([]byte(nil), h.st...), h.m.copy(), h.sp
		h.file = h.file[:stat64.Len()]
		return
	}
	w := &sink{s: h.s, st: *op.St}
	n, err := h.b.WriteTo(w)
	if n != int64(len(w.got)) {
		h.fail("wrong-count", "WriteTo reports %d bytes of %d (%v)", n, len(w.got), err)
	}
	if err == nil {
		if w.bad {
			h.fail("error-swallowed", "a checkpoint failed after %d bytes but WriteTo reports success", len(w.got))
		}
		h.file, h.saved, h.fsp = w.got, h.m.copy(), h.sp
		h.s.Probe("checkpoint")
	} else {
		if !w.bad {
			h.fail("write-failed", "WriteTo a working stream fails: %v", err)
		}
		h.s.Probe("checkpoint-failed")
	}
}

// restore brings the sketch back after its process has died.
func (h *holder) restore(op HOp) {
	if h.file == nil {
		h.create()
		return
	}
	h.s.Probe("restored")
	h.sp, h.loose = h.fsp, false
	if h.h.Arena && len(h.file) != len(h.mem) {
		h.loose = true // there is no room for it any more
	} else if h.h.Arena {
		copy(h.mem, h.file)
		h.attach()
		h.m = h.saved.copy()
		return
	}
	if h.stat() {
		h.st = stat64.WithBytes(append([]byte(nil), h.file...))
		h.m = h.saved.copy()
		return
	}
	for try := 0; ; try++ {
		b := empty(h.sp.Type)
		b.spec = h.sp
		st := Stream{Plan: op.St.Plan, With: op.St.With}
		if try == 0 {
			st = *op.St
			if st.At > len(h.file) {
				st.At = len(h.file)
			}
			if st.Fault == "end" && st.At >= len(h.file) {
				st.Fault = ""
			}
		}
		_, err := b.ReadFrom(newSource(h.s, h.file, st))
		if st.Fault != "" {
			if err == nil {
				h.fail("error-swallowed", "restoring from a stream that fails (%s at byte %d of %d) reports success", st.Fault, st.At, len(h.file))
				return
			}
			continue
		}
		if err != nil {
			h.fail("intact-refused", "a complete checkpoint of %d bytes cannot be read: %v", len(h.file), err)
			return
		}
		h.b = b
		h.m = h.saved.copy()
		return
	}
}

// near compares a bucket and those around it with the model.
func (h *holder) near(x int) {
	for i := x - 9; i <= x+9; i++ {
		if i >= 0 && i < len(h.m.vals) {
			if v := h.b.bits.Get(i); v != h.m.vals[i] {
				h.fail("wrong-bucket", "bucket %d of %d holds %d instead of %d after bucket %d was changed", i, len(h.m.vals), v, h.m.vals[i], x)
				return
			}
		}
	}
}

func close64(a, b, scale float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*(math.Abs(scale)+math.Abs(b))
}

// look verifies the sketch, with or without others running meanwhile.
func (h *holder) look(quiet bool) {
	if quiet {
		sim.Quiet(h.verify)
	} else {
		h.verify()
	}
}

// verify compares everything the sketch can tell with the model.
func (h *holder) verify() {
	sp := h.sp
	if h.v != nil {
		return
	}
	if h.stat() {
		h.verifyStat()
		return
	}
	before, err := h.b.bytes()
	if err != nil {
		h.fail("write-failed", "writing to memory fails: %v", err)
		return
	}
	if h.b.Len() != len(before) {
		h.fail("not-equivalent", "it says it needs %d bytes but writes %d", h.b.Len(), len(before))
	}
	switch sp.Type {
	case "bits":
		b := h.b.bits
		var count [256]int
		for i, v := range h.m.vals {
			count[v]++
			if g := b.Get(i); g != v {
				h.fail("wrong-bucket", "bucket %d of %d holds %d instead of %d", i, sp.N, g, v)
				return
			}
		}
		if b.Count() != sp.N || int(b.Width()) != sp.W || int(b.Max()) != 1<<uint(sp.W)-1 {
			h.fail("wrong-shape", "%d buckets of %d bits (up to %d) instead of %d of %d", b.Count(), b.Width(), b.Max(), sp.N, sp.W)
		}
		for v := 0; v < 256; v++ {
			if v > 3 && v < 1<<uint(sp.W)-2 && count[v] == 0 {
				continue
			}
			if v >= 1<<uint(sp.W)+1 && v != 255 {
				continue
			}
			if g := b.CountN(uint8(v)); g != count[v] {
				h.fail("wrong-count", "CountN(%d) says %d instead of %d", v, g, count[v])
				return
			}
		}
	case "bloom":
		for _, i := range h.m.sorted() {
			if !h.b.bl.Has(h.item(i)) {
				h.fail("missing-item", "item %q of the %d added is not there", h.item(i), len(h.m.items))
				return
			}
		}
	case "hll":
		n := distinct(h)
		lo, hi := core.CardinalityRange(n, sp.W)
		if g := float64(h.b.hl.Count()); n == 0 && g != 0 || g < lo || g > hi {
			h.fail("inaccurate", "it counts %v of %d distinct items (precision %d; expected %.1f to %.1f)", g, n, sp.W, lo, hi)
		}
	}
	if sp.Type != "bits" {
		// as if every item had been added once, in order, to a new one
		q := sp
		q.Adds = 0
		var a string
		var want []byte
		var err error
		sim.Quiet(func() {
			ref := build(q)
			for _, i := range h.m.sorted() {
				if sp.Type == "bloom" {
					ref.bl.Add(h.item(i))
				} else {
					ref.hl.Add(h.item(i))
				}
			}
			a = ref.ask()
			want, err = ref.bytes()
		})
		if c := h.b.ask(); a != c {
			h.fail("not-equivalent", "it answers %s; a new one given the same %d items answers %s", c, len(h.m.items), a)
			return
		}
		if err != nil || !bytes.Equal(want, before) {
			h.fail("not-equivalent", "it writes %x; a new one given the same %d items writes %x (%v)", clip(before), len(h.m.items), clip(want), err)
			return
		}
	} else {
		h.b.ask()
	}
	after, err := h.b.bytes()
	if err != nil || !bytes.Equal(before, after) {
		h.fail("asking-changes", "asking changed it: it writes %x instead of %x (%v)", clip(after), clip(before), err)
		return
	}
	if h.h.Arena && !h.loose && !bytes.Equal(h.mem, after) {
		h.fail("view-detached", "the bytes it is attached to are %x but it writes %x", clip(h.mem), clip(after))
	}
}

// distinct counts the different items (two numbers can name the same one).
func distinct(h *holder) int {
	seen := map[string]bool{}
	for i := range h.m.items {
		seen[string(h.item(i))] = true
	}
	return len(seen)
}

func (h *holder) verifyStat() {
	n := len(h.m.nums)
	var sum, abs float64
	for _, v := range h.m.nums {
		sum += v // exact: multiples of 1/64
		abs += math.Abs(v)
	}
	if h.st.Count() != uint64(n) {
		h.fail("wrong-statistic", "count is %d instead of %d", h.st.Count(), n)
		return
	}
	if !close64(h.st.Sum(), sum, abs) {
		h.fail("wrong-statistic", "sum is %v instead of %v (%d values)", h.st.Sum(), sum, n)
	}
	mean := 0.0
	if n > 0 {
		mean = sum / float64(n)
		if !close64(h.st.Mean(), mean, abs/float64(n)) {
			h.fail("wrong-statistic", "mean is %v instead of %v (%d values)", h.st.Mean(), mean, n)
		}
	}
	if n >= 2 {
		var ss, big float64
		for _, v := range h.m.nums {
			ss += (v - mean) * (v - mean)
			big = math.Max(big, math.Abs(v))
		}
		// rounding of a stable one-pass algorithm
		const u = 1.2e-16
		v, k := ss/float64(n-1), float64(n)
		tol := 1e-10*v + 32*k*u*math.Sqrt(v)*big + 8*k*k*u*u*big*big
		if g := h.st.Variance(); math.IsNaN(g) || math.Abs(g-v) > tol {
			h.fail("wrong-statistic", "variance is %v instead of %v (%d values)", g, v, n)
		}
	}
	if h.st.Len() != stat64.Len() {
		h.fail("wrong-shape", "it says it needs %d bytes", h.st.Len())
	}
}

func genHistory(r *sim.RNG, th bool) interface{} {
	sc := &HistScenario{Gap: pickInt(r, []int{0, 0, 1, 2, 7, 16}), Par: r.Chance(0.75)}
	arena := r.Chance(0.6)
	again := r.Chance(0.25)
	like := r.Chance(0.4) // all of one kind: package state would be shared
	var first Spec
	for i := pickInt(r, []int{1, 2, 2, 3, 4}); i > 0; i-- {
		sp := genSpec(r, false)
		if r.Chance(0.12) {
			sp = Spec{Type: "stat", Seed: r.U64() >> 16}
		}
		if len(sc.Sketches) == 0 {
			first = sp
		} else if like {
			seed := sp.Seed
			sp = first
			if r.Chance(0.5) {
				sp.Seed = seed
			}
		}
		sp.Adds = 0
		if sp.Type == "bits" && sp.N > 3000 {
			sp.N = r.Range(1, 3000)
		}
		if sp.Type == "bloom" && sp.N > 3000 {
			sp.N = r.Range(1, 3000)
		}
		if sp.Type == "hll" && sp.W > 8 && (sp.W > 11 || r.Chance(0.7)) {
			sp.W = r.Range(4, 8)
		}
		h := HSketch{Spec: sp, Arena: arena && r.Chance(0.9)}
		if h.Arena && r.Chance(0.2) {
			h.Tail = r.Range(1, 12)
		}
		n := r.Range(3, 25)
		if th && r.Chance(0.2) {
			n = r.Range(20, 120)
		}
		universe := pickInt(r, []int{3, 20, 100, 1000, 100000})
		hot := r.Chance(0.3)
		gen := func() HOp {
			op := HOp{A: r.Intn(universe), B: r.Intn(256)}
			if r.Chance(0.5) {
				op.B >>= uint(r.Intn(8))
			}
			if hot && sp.N > 4 {
				op.A = sp.N - 1 - r.Intn(4)
			}
			switch x := r.Intn(100); {
			case x < 38:
				op.Kind = "add"
			case x < 66:
				op.Kind = "more"
			case x < 76:
				op.Kind = "ask"
			case x < 80:
				op.Kind = "reset"
			case x < 88:
				op.Kind = "save"
			case x < 94:
				op.Kind = "crash"
			case x < 97:
				op.Kind = "remap"
			default:
				op.Kind = "load"
			}
			if op.Kind == "more" && sp.Type == "stat" && r.Chance(0.01) {
				op.N = pickInt(r, []int{256, 1000, 4096, 65535, 70000})
			}
			if op.Kind == "save" {
				st := genStream(r, 12+sizeOfAny(sp), []string{"", "", "error"})
				op.St = &st
			}
			if op.Kind == "crash" || op.Kind == "load" {
				st := genStream(r, 12+sizeOfAny(sp), []string{"", "", "", "error", "end", "extra"})
				op.St = &st
			}
			return op
		}
		for j := 0; j < n; j++ {
			h.Ops = append(h.Ops, gen())
		}
		if again {
			st := genStream(r, 12+sizeOfAny(sp), []string{"", "", "", "error", "end"})
			h.Later = append(h.Later, HOp{Kind: "crash", St: &st})
			if r.Chance(0.7) { // what comes last before it is kept
				st := Stream{Plan: []int{1 << 20}}
				h.Ops = append(h.Ops, HOp{Kind: "save", St: &st})
			}
			for j := r.Range(0, 12); j > 0; j-- {
				op := gen()
				if r.Chance(0.5) && len(h.Ops) > 0 { // the same again
					if o := h.Ops[r.Intn(len(h.Ops))]; o.Kind == "add" || o.Kind == "more" {
						op = o
					}
				}
				h.Later = append(h.Later, op)
			}
		}
		sc.Sketches = append(sc.Sketches, h)
	}
	return sc
}

func sizeOfAny(sp Spec) int {
	if sp.Type == "stat" {
		return 32
	}
	return sizeOf(sp)
}

const canary = 0xA5

func runHistory(r *core.Run, x interface{}) *core.Violation {
	sc := x.(*HistScenario)
	gap := sc.Gap
	var hs []*holder
	arenaLen := gap + 16
	for i, h := range sc.Sketches {
		hs = append(hs, &holder{h: h, name: fmt.Sprintf("%s sketch %d", h.Spec.Type, i)})
		if h.Arena {
			arenaLen += size(h.Spec) + h.Tail + gap
		}
	}
	arena := bytes.Repeat([]byte{canary}, arenaLen)
	at := gap
	for _, h := range hs {
		if h.h.Arena {
			n := size(h.h.Spec)
			h.mem = arena[at : at+n : at+n]
			h.room = arena[at : at+n+h.h.Tail]
			at += n + h.h.Tail + gap
		}
	}
	outside := func() string {
		at := 0
		check := func(to int) string {
			for ; at < to; at++ {
				if arena[at] != canary {
					return fmt.Sprintf("byte %d of the shared buffer, which belongs to no sketch, was changed to %#x", at, arena[at])
				}
			}
			return ""
		}
		at0 := gap
		for _, h := range hs {
			if h.h.Arena {
				if m := check(at0); m != "" {
					return m
				}
				at = at0 + len(h.mem)
				at0 = at + h.h.Tail + gap
				if h.grew {
					at += h.h.Tail
				}
			}
		}
		return check(len(arena))
	}
	r.NonTriv = len(hs) > 1 || len(hs[0].h.Ops) > 5
	life := func(s *sim.Sim, h *holder, ops []HOp) {
		h.s = s
		if h.m == nil {
			h.create()
		}
		for _, op := range ops {
			if h.v != nil {
				return
			}
			h.do(op)
		}
		h.n++
		h.look(len(ops) > 8 || sizeOfAny(h.h.Spec) > 200)
	}
	run := func(label string, ops func(h *holder) []HOp) *core.Violation {
		var others []func(s *sim.Sim)
		if sc.Par {
			for _, h := range hs[1:] {
				h := h
				others = append(others, func(s *sim.Sim) { life(s, h, ops(h)) })
			}
		}
		v := inTask(r, label, func(s *sim.Sim) *core.Violation {
			life(s, hs[0], ops(hs[0]))
			if !sc.Par {
				// one after the other, then each is looked at again
				for _, h := range hs[1:] {
					life(s, h, ops(h))
				}
				for _, h := range hs {
					h.look(true)
				}
			}
			return nil
		}, others...)
		if v != nil {
			return v
		}
		for _, h := range hs {
			if h.v != nil {
				return h.v
			}
		}
		if m := outside(); m != "" {
			return core.V("out-of-bounds", "%s", m)
		}
		return nil
	}
	if v := run("history", func(h *holder) []HOp { return h.h.Ops }); v != nil {
		return v
	}
	later := false
	for _, h := range hs {
		if len(h.h.Later) > 0 {
			later = true
			if h.h.Later[0].Kind != "crash" {
				return nil
			}
		}
	}
	if later {
		// the process ends, with all that is not in a checkpoint
		for i := range arena {
			arena[i] = canary
		}
		for _, h := range hs {
			if len(h.h.Later) == 0 {
				h.m = nil
			}
			h.b, h.st = nil, nil
		}
		r.Probe("process-started-again", 1)
		if v := run("started again", func(h *holder) []HOp { return h.h.Later }); v != nil {
			return v
		}
	}
	if sc.Par && !later {
		// nothing that happened to the others since has touched it
		return inTask(r, "afterwards", func(s *sim.Sim) *core.Violation {
			for _, h := range hs {
				h.s = s
				h.look(true)
				if h.v != nil {
					return h.v
				}
			}
			return nil
		})
	}
	return nil
}

func shrinkHistory(x interface{}) []interface{} {
	s := x.(*HistScenario)
	var out []interface{}
	clone := func() *HistScenario {
		c := *s
		c.Sketches = append([]HSketch(nil), s.Sketches...)
		return &c
	}
	if len(s.Sketches) > 1 {
		for i := range s.Sketches {
			c := *s
			c.Sketches = append(append([]HSketch(nil), s.Sketches[:i]...), s.Sketches[i+1:]...)
			out = append(out, &c)
		}
	}
	if s.Par {
		c := clone()
		c.Par = false
		out = append(out, c)
	}
	for i, h := range s.Sketches {
		set := func(f func(h *HSketch)) {
			c := clone()
			f(&c.Sketches[i])
			out = append(out, c)
		}
		n := len(h.Ops)
		for w := n / 2; w >= 1; w /= 2 {
			for a := 0; a+w <= n; a += w {
				ops := append(append([]HOp(nil), h.Ops[:a]...), h.Ops[a+w:]...)
				set(func(h *HSketch) { h.Ops = ops })
			}
		}
		for j := len(h.Later) - 1; j >= 1; j-- {
			ops := append(append([]HOp(nil), h.Later[:j]...), h.Later[j+1:]...)
			set(func(h *HSketch) { h.Later = ops })
		}
		if len(h.Later) > 0 {
			set(func(h *HSketch) { h.Later = nil })
		}
		for j, op := range h.Ops {
			change := func(o HOp) {
				ops := append([]HOp(nil), h.Ops...)
				ops[j] = o
				set(func(h *HSketch) { h.Ops = ops })
			}
			if op.St != nil && (len(op.St.Plan) > 1 || op.St.Fault != "") {
				o := op
				o.St = &Stream{Plan: []int{1 << 20}}
				change(o)
			}
			if op.N > 0 {
				o := op
				o.N /= 2
				change(o)
				o = op
				o.N--
				change(o)
			}
			if op.Kind == "more" && op.B > 1 {
				o := op
				o.B /= 2
				change(o)
			}
		}
		if h.Arena {
			set(func(h *HSketch) { h.Arena = false })
		}
		if h.Tail > 0 {
			set(func(h *HSketch) { h.Tail = 0 })
		}
		for _, sp := range shrinkSpec(h.Spec) {
			sp := sp
			set(func(h *HSketch) { h.Spec = sp })
		}
	}
	return out
}

func registerHistory() {
	core.Register(&core.Prop{ID: "C23", Quick: 60000, Gen: genHistory,
		Decode: func(b []byte) (interface{}, error) {
			var s HistScenario
			err := json.Unmarshal(b, &s)
			return &s, err
		},
		Run: runHistory, Shrink: shrinkHistory,
		Rule: "a run is non-trivial if it has two sketches or more than five steps; distinct means a distinct hash of all scheduling decisions and steps",
		Real: []string{"internal/bitbucket", "internal/summary/bloom", "internal/summary/hll", "internal/summary/stat64", "internal/hash/fnv"},
		Stub: []string{"checkpoint storage: simulated streams with scripted pieces and faults; complete checkpoints survive a crash"},
		Need: []string{"crash", "restored", "checkpoint", "checkpoint-failed", "loaded", "load-failed", "attached-again", "process-started-again", "write-error", "read-error", "early-end"}})
}
