// Package sketch drives the serialization of the sketches over simulated
// streams and storage that split, stall, fail, truncate and damage data.
package sketch

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzharness/core"
	sim "github.com/iand/starbow/internal/zzvsim"
)

func init() {
	registerStreams()
	registerDamage()
	registerHistory()
}

// Spec says how to make a sketch.
type Spec struct {
	Type string `json:"type"` // bits, bloom, hll
	N    int    `json:"n"`    // buckets, bits, or 0
	W    int    `json:"w"`    // width, hash functions, or precision
	Adds int    `json:"adds"`
	Seed uint64 `json:"seed"`
}

// sketch is what the three have in common.
type sketch interface {
	WriteTo(w io.Writer) (int64, error)
	ReadFrom(r io.Reader) (int64, error)
	Len() int
	Reset()
}

type box struct {
	sketch
	spec Spec
	bits *bitbucket.BitBucket
	bl   *bloom.Bloom
	hl   *hll.Counter
}

func empty(t string) *box {
	b := &box{spec: Spec{Type: t}}
	switch t {
	case "bits":
		b.bits = &bitbucket.BitBucket{}
		b.sketch = b.bits
	case "bloom":
		b.bl = &bloom.Bloom{}
		b.sketch = b.bl
	case "hll":
		b.hl = &hll.Counter{}
		b.sketch = b.hl
	default:
		panic("harness: type " + t)
	}
	return b
}

func build(sp Spec) *box {
	b := empty(sp.Type)
	b.spec = sp
	switch sp.Type {
	case "bits":
		*b.bits = bitbucket.New(sp.N, uint8(sp.W))
	case "bloom":
		if sp.W == 0 {
			*b.bl = bloom.New(sp.N, 0.05)
		} else if sp.W < 0 {
			*b.bl = bloom.New(sp.N, math.Pow(10, float64(sp.W)))
		} else {
			*b.bl = bloom.NewBits(sp.N, uint8(sp.W))
		}
	case "hll":
		*b.hl = hll.New(uint8(sp.W))
	}
	for i := 0; i < sp.Adds; i++ {
		b.add(sp.Seed, i)
	}
	return b
}

func view(t string, buf []byte) (*box, error) {
	b := empty(t)
	var err error
	switch t {
	case "bits":
		*b.bits, err = bitbucket.WithBytes(buf)
	case "bloom":
		*b.bl, err = bloom.WithBytes(buf)
	case "hll":
		*b.hl, err = hll.WithBytes(buf)
	}
	return b, err
}

func item(seed uint64, i int) []byte {
	r := sim.NewRNG(seed + uint64(i)*7919)
	if seed%3 == 0 {
		return []byte(fmt.Sprintf("item-%d", i))
	}
	if seed%3 == 1 && i%16 == 0 {
		// odd ones
		switch k := int(seed/3+uint64(i/16)) % 8; k {
		case 0, 1, 2:
			return []byte{}
		case 3, 4, 5:
			return make([]byte, k-2)
		case 6:
			return bytes.Repeat([]byte("x"), 1+i)
		}
	}
	return []byte(fmt.Sprintf("%x", r.U64()>>uint(r.Intn(40))))
}

func (b *box) add(seed uint64, i int) {
	it := item(seed, i)
	switch {
	case b.bits != nil:
		n := b.bits.Count()
		if n == 0 {
			return
		}
		r := sim.NewRNG(seed ^ uint64(i)*31)
		x, v := r.Intn(n), uint8(r.U64())
		if r.Chance(0.5) {
			v >>= uint(r.Intn(8))
		}
		if r.Chance(0.5) {
			b.bits.Set(x, v)
		} else {
			b.bits.IncN(x, v)
		}
	case b.bl != nil:
		b.bl.Add(it)
	case b.hl != nil:
		b.hl.Add(it)
	}
}

// ask queries everything that can be queried.
func (b *box) ask() string {
	var s strings.Builder
	switch {
	case b.bits != nil:
		n := b.bits.Count()
		fmt.Fprintf(&s, "n=%d w=%d max=%d len=%d zeros=%d ones=%d full=%d:", n, b.bits.Width(), b.bits.Max(), b.bits.Len(), b.bits.CountN(0), b.bits.CountN(1), b.bits.CountN(b.bits.Max()))
		step := 1 + n/4096
		for i := 0; i < n; i += step {
			fmt.Fprintf(&s, "%x,", b.bits.Get(i))
		}
	case b.bl != nil:
		fmt.Fprintf(&s, "len=%d count=%d rate=%v:", b.bl.Len(), b.bl.Count(), b.bl.ErrorRate())
		for i := 0; i < 40; i++ {
			fmt.Fprintf(&s, "%v,", b.bl.Has([]byte(fmt.Sprintf("probe%d", i))))
		}
	case b.hl != nil:
		fmt.Fprintf(&s, "len=%d count=%d linear=%d harmonic=%d poisson=%d", b.hl.Len(), b.hl.Count(), b.hl.LinearCount(), b.hl.HarmonicCount(), b.hl.PoissonCount())
	}
	return s.String()
}

func (b *box) bytes() ([]byte, error) {
	var w bytes.Buffer
	n, err := b.WriteTo(&w)
	if err == nil && n != int64(w.Len()) {
		return nil, fmt.Errorf("reports %d bytes written instead of %d", n, w.Len())
	}
	return w.Bytes(), err
}

// missing finds an added item the sketch does not know.
func (b *box) missing(sp Spec) string {
	if b.bl == nil {
		return ""
	}
	for i := 0; i < sp.Adds; i++ {
		if !b.bl.Has(item(sp.Seed, i)) {
			return string(item(sp.Seed, i))
		}
	}
	return ""
}

func genSpec(r *sim.RNG, thorough bool) Spec {
	sp := Spec{Type: []string{"bits", "bloom", "hll"}[r.Intn(3)], Seed: r.U64() >> 16, Adds: pickInt(r, []int{0, 1, 2, 5, 20, 100, 300})}
	switch sp.Type {
	case "bits":
		sp.W = r.Range(1, 8)
		sp.N = pickInt(r, []int{0, 1, 2, 3, r.Range(1, 40), r.Range(1, 40), r.Range(40, 300), 4096, r.Range(500, 9000)})
	case "bloom":
		sp.N = pickInt(r, []int{1, 2, 3, r.Range(1, 40), r.Range(40, 300), 256, 1024, r.Range(500, 9000)})
		sp.W = r.Range(1, 12)
		if r.Chance(0.2) {
			sp.W, sp.N = 0, r.Range(1, 500)
			if r.Chance(0.4) {
				sp.W = -r.Range(1, 12)
			}
		} else if r.Chance(0.2) {
			sp.W = pickInt(r, []int{13, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255})
		}
	case "hll":
		sp.W = pickInt(r, []int{4, 4, 5, 6, 7, 8, 9, 10, 11})
		if r.Chance(0.003) {
			sp.W = r.Range(12, 17)
		} else if thorough && r.Chance(0.05) {
			sp.W = r.Range(12, 15)
		}
	}
	return sp
}

func pickInt(r *sim.RNG, l []int) int { return l[r.Intn(len(l))] }

// ---------------------------------------------------------------- streams

var errStream = errors.New("the stream failed")

// Stream is how a simulated stream behaves.
type Stream struct {
	Plan    []int  `json:"plan"`             // sizes of the pieces; 0 is an empty read
	Fault   string `json:"fault,omitempty"`  // error, end (early), extra
	At      int    `json:"at,omitempty"`     // at which byte, or how many extra ones
	With    bool   `json:"with,omitempty"`   // the end (or error) comes together with the last bytes
	EOFLike string `json:"reason,omitempty"` // which error
	Late    bool   `json:"late,omitempty"`   // writes: the write that reaches the byte fails, too
	Once    bool   `json:"once,omitempty"`   // writes: after the failure the stream works again
}

var errKinds = map[string]error{"": errStream, "closed": io.ErrClosedPipe, "unexpected": io.ErrUnexpectedEOF, "progress": io.ErrNoProgress, "short": io.ErrShortWrite, "shortbuf": io.ErrShortBuffer}

func genStream(r *sim.RNG, size int, kinds []string) Stream {
	var st Stream
	switch r.Intn(5) {
	case 0:
		st.Plan = []int{1 << 20}
	case 1:
		st.Plan = []int{1}
	case 2:
		st.Plan = []int{pickInt(r, []int{0, 1, 2, 3}), pickInt(r, []int{2, 5, 9, 10, 11, 12, 512, 1 << 20})}
	default:
		for i := r.Range(1, 6); i > 0; i-- {
			st.Plan = append(st.Plan, pickInt(r, []int{0, 0, 1, 1, 2, 3, 7, 10, 12, 64, 1000, 1 << 20}))
		}
		st.Plan = append(st.Plan, r.Range(1, 20))
	}
	st.With = r.Chance(0.5)
	st.Fault = kinds[r.Intn(len(kinds))]
	edge := []int{0, 1, 2, 3, 9, 10, 11, 12, 13, size, size, size - 1, size - 2, r.Intn(size + 1), r.Intn(size + 1)}
	switch st.Fault {
	case "error", "end":
		st.At = pickInt(r, edge)
		if st.At < 0 {
			st.At = 0
		}
		if st.At > size || (st.Fault == "end" && st.At >= size) {
			st.At = size - 1
		}
		if st.Fault == "error" {
			st.EOFLike = []string{"", "", "", "closed", "unexpected", "progress", "shortbuf"}[r.Intn(7)]
		}
	case "extra":
		st.At = pickInt(r, []int{1, 1, 2, 10, 12, 600, 5000})
	}
	return st
}

// source is a simulated reader.
type source struct {
	s     *sim.Sim
	data  []byte
	pos   int
	i     int
	st    Stream
	limit int
	end   error
}

func newSource(s *sim.Sim, data []byte, st Stream) *source {
	f := &source{s: s, data: data, st: st, limit: len(data), end: io.EOF}
	switch st.Fault {
	case "error":
		f.limit, f.end = st.At, errKinds[st.EOFLike]
	case "end":
		f.limit = st.At
	case "extra":
		x := append([]byte(nil), data...)
		for i := 0; i < st.At; i++ {
			x = append(x, byte(i*7))
		}
		f.data, f.limit = x, len(x)
	}
	if f.limit > len(f.data) {
		f.limit = len(f.data)
	}
	return f
}

func (f *source) Read(p []byte) (int, error) {
	sim.Y()
	n := f.st.Plan[f.i%len(f.st.Plan)]
	f.i++
	if len(p) == 0 {
		return 0, nil
	}
	if n == 0 {
		f.s.Fault("empty-read")
		return 0, nil
	}
	if n < len(p) && f.limit-f.pos > n {
		f.s.Fault("short-read")
	}
	if n > len(p) {
		n = len(p)
	}
	if n > f.limit-f.pos {
		n = f.limit - f.pos
	}
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.pos == f.limit && (n == 0 || f.st.With) {
		if f.end != io.EOF {
			f.s.Fault("read-error")
		} else if f.st.Fault == "end" {
			f.s.Fault("early-end")
		}
		if n > 0 {
			f.s.Fault("end-with-data")
		}
		f.s.Logf("read %d: %v", n, f.end)
		return n, f.end
	}
	f.s.Logf("read %d", n)
	return n, nil
}

// sink is a simulated writer.
type sink struct {
	s   *sim.Sim
	got []byte
	st  Stream
	bad bool
}

func (f *sink) Write(p []byte) (int, error) {
	sim.Y()
	over := len(f.got) + len(p) - f.st.At
	if f.st.Late {
		over++
	}
	if f.st.Fault == "error" && (f.bad && !f.st.Once || !f.bad && over > 0) {
		n := 0
		if !f.bad {
			n = f.st.At - len(f.got)
			if !f.st.With {
				n = 0 // all or nothing
			}
		}
		f.bad = true
		f.got = append(f.got, p[:n]...)
		f.s.Fault("write-error")
		if n > 0 {
			f.s.Fault("short-write")
		}
		f.s.Logf("write %d of %d: error", n, len(p))
		return n, errKinds[f.st.EOFLike]
	}
	f.got = append(f.got, p...)
	f.s.Logf("write %d", len(p))
	return len(p), nil
}

// link carries bytes from a writing to a reading task.
type link struct {
	s      *sim.Sim
	buf    []byte
	cap    int
	sent   int // bytes accepted
	taken  int
	st     Stream
	i      int
	closed bool
	end    error
	broken bool
	gone   bool // nobody reads any more
}

func (l *link) Write(p []byte) (int, error) {
	n := 0
	for n < len(p) {
		if l.st.Fault != "" && l.sent == l.st.At {
			l.broken = true
			l.s.Fault("link-" + l.st.Fault)
			l.close()
			return n, errStream
		}
		if l.gone {
			return n, io.ErrClosedPipe
		}
		sim.Block("room", func() bool { return len(l.buf) < l.cap || l.gone })
		if l.gone {
			continue
		}
		m := l.cap - len(l.buf)
		if m > len(p)-n {
			m = len(p) - n
		}
		if l.st.Fault != "" && l.sent+m > l.st.At {
			m = l.st.At - l.sent
		}
		l.buf = append(l.buf, p[n:n+m]...)
		n += m
		l.sent += m
		l.s.Logf("link +%d", m)
		sim.Y()
	}
	return n, nil
}

func (l *link) close() {
	if l.closed {
		return
	}
	l.closed = true
	l.end = io.EOF
	if l.st.Fault == "error" && l.broken {
		l.end = errStream
	}
}

func (l *link) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	sim.Block("data", func() bool { return len(l.buf) > 0 || l.closed })
	n := l.st.Plan[l.i%len(l.st.Plan)]
	l.i++
	if n > len(p) {
		n = len(p)
	}
	if n > len(l.buf) {
		n = len(l.buf)
	}
	copy(p, l.buf[:n])
	l.buf = l.buf[n:]
	l.taken += n
	l.s.Logf("link -%d", n)
	if len(l.buf) == 0 && l.closed && (n == 0 || l.st.With) {
		return n, l.end
	}
	return n, nil
}

// ---------------------------------------------------------------- C17

// extra steps that a large sketch may take
func (sp *Spec) extra() int64 {
	if sp.Type == "hll" && sp.W > 11 {
		return 5000 << uint(sp.W)
	}
	return 0
}

type StreamScenario struct {
	Spec  Spec   `json:"sketch"`
	Mode  string `json:"mode"` // read, write, view, link
	Prior *Spec  `json:"prior,omitempty"`
	St    Stream `json:"stream"`
	Cap   int    `json:"cap,omitempty"`
	More  int    `json:"more"`
	Tail  int    `json:"tail,omitempty"`
}

func inTask(r *core.Run, label string, fn func(s *sim.Sim) *core.Violation, others ...func(s *sim.Sim)) *core.Violation {
	s := r.Sim(label, len(others) > 0)
	var v *core.Violation
	done := 0
	s.Spawn("main", func() { v = fn(s); done++ })
	for i, o := range others {
		o := o
		s.Spawn(fmt.Sprintf("peer%d", i), func() { o(s); done++ })
	}
	res := s.Run(func() bool { return done == 1+len(others) })
	r.Done(s)
	if len(res.Panics) > 0 {
		t := res.Panics[0]
		if w := core.RepoFrame(t.Stack); w != "" {
			return core.V("crash", "panic: %v (in %s)", t.Panic, w)
		}
		panic(fmt.Sprintf("harness task %s: %v\n%s", t.Name, t.Panic, t.Stack))
	}
	if res.Over || done != 1+len(others) {
		return core.V("hang", "no progress: %s %v", res.Running, res.Stuck)
	}
	return v
}

// same compares a restored sketch with the original, and goes on using both.
func same(orig, got *box, sp Spec, want []byte, more int) *core.Violation {
	b, err := got.bytes()
	if err != nil {
		return core.V("not-equivalent", "the restored sketch cannot be written: %v", err)
	}
	if !bytes.Equal(b, want) {
		return core.V("not-equivalent", "the restored sketch writes other bytes: %x instead of %x", clip(b), clip(want))
	}
	if got.Len() != len(want) {
		return core.V("not-equivalent", "the restored sketch says it needs %d bytes instead of %d", got.Len(), len(want))
	}
	if a, c := orig.ask(), got.ask(); a != c {
		return core.V("not-equivalent", "the restored sketch answers %s instead of %s", a, c)
	}
	if m := got.missing(sp); m != "" {
		return core.V("missing-item", "the restored filter does not have the added item %q", m)
	}
	for i := 0; i < more; i++ {
		orig.add(sp.Seed+77, i)
		got.add(sp.Seed+77, i)
	}
	if more > 0 {
		a, err1 := orig.bytes()
		c, err2 := got.bytes()
		if err1 != nil || err2 != nil || !bytes.Equal(a, c) {
			return core.V("not-equivalent", "after the same %d further updates the restored sketch differs: %x instead of %x (%v %v)", more, clip(c), clip(a), err1, err2)
		}
		if a, c := orig.ask(), got.ask(); a != c {
			return core.V("not-equivalent", "after the same %d further updates the restored sketch answers %s instead of %s", more, c, a)
		}
	}
	return nil
}

// receiver checks the sketch into which a read failed: as it was, or replaced,
// and working.
func receiver(orig, got *box, sc *StreamScenario, data []byte) *core.Violation {
	b, err := got.bytes()
	if err != nil {
		return core.V("receiver-damaged", "after a failed read the receiving sketch cannot be written: %v", err)
	}
	sp, ref := *sc.Prior, build(*sc.Prior)
	old, err := ref.bytes()
	if err != nil {
		return core.V("write-failed", "writing to memory fails: %v", err)
	}
	want := old
	if !bytes.Equal(b, old) {
		if !bytes.Equal(b, data) {
			return core.V("receiver-damaged", "after a failed read the receiving sketch is neither as it was nor as read: it writes %x instead of %x or %x", clip(b), clip(old), clip(data))
		}
		sp, ref, want = sc.Spec, build(sc.Spec), data
	}
	if v := same(ref, got, sp, want, sc.More); v != nil {
		return core.V("receiver-damaged", "after a failed read: %s", v.Msg)
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

func registerStreams() {
	gen := func(r *sim.RNG, th bool) interface{} {
		sc := &StreamScenario{Spec: genSpec(r, th), Mode: []string{"read", "read", "read", "write", "view", "link"}[r.Intn(6)], More: pickInt(r, []int{0, 1, 5, 40})}
		size := sizeOf(sc.Spec)
		switch sc.Mode {
		case "read":
			sc.St = genStream(r, size, []string{"", "", "error", "end", "extra"})
			if r.Chance(0.4) {
				q := Spec{}
				for q.Type != sc.Spec.Type {
					q = genSpec(r, false)
				}
				sc.Prior = &q
			}
		case "write":
			sc.St = genStream(r, size, []string{"", "error", "error"})
			if sc.St.Fault == "error" {
				sc.St.Late, sc.St.Once = r.Chance(0.2), r.Chance(0.2)
				if r.Chance(0.2) {
					sc.St.EOFLike = "short"
				}
			}
		case "view":
			sc.St = genStream(r, size, []string{"", "end"})
			sc.Tail = pickInt(r, []int{0, 0, 1, 9})
		case "link":
			sc.St = genStream(r, size, []string{"", "", "error", "end"})
			for i, p := range sc.St.Plan {
				if p == 0 {
					sc.St.Plan[i] = 1
				}
			}
			if sc.St.At >= size {
				sc.St.At = size - 1
			}
			sc.Cap = pickInt(r, []int{1, 2, 10, 64, 4096})
		}
		return sc
	}
	run := func(r *core.Run, x interface{}) *core.Violation {
		sc := x.(*StreamScenario)
		if r.Extra = sc.Spec.extra(); sc.Prior != nil {
			r.Extra += sc.Prior.extra()
		}
		return inTaskStreams(r, sc)
	}
	core.Register(&core.Prop{ID: "C17", Quick: 120000, Gen: gen,
		Decode: func(b []byte) (interface{}, error) {
			var s StreamScenario
			err := json.Unmarshal(b, &s)
			return &s, err
		},
		Run: run, Shrink: shrinkStreams,
		Rule: "a run is non-trivial if the data crossed the stream in more than one piece or the stream failed; distinct means a distinct hash of all scheduling decisions and stream operations",
		Real: []string{"internal/bitbucket", "internal/summary/bloom", "internal/summary/hll", "internal/hash/fnv"},
		Stub: []string{"readers, writers and links: simulated streams with scripted pieces and faults"},
		Need: []string{"short-read", "empty-read", "read-error", "early-end", "end-with-data", "write-error", "short-write", "link-error", "link-end", "intact-transfer", "extra-data"}})
}

// sizeOf is the number of bytes the sketch serializes to, worked out from the
// documented layout and not from the code.
func sizeOf(sp Spec) int {
	switch sp.Type {
	case "bits":
		return 10 + (sp.N*sp.W+7)/8
	case "bloom":
		if sp.W <= 0 {
			return 40 // about
		}
		return 12 + (sp.N+7)/8
	}
	return 12 + ((6<<uint(sp.W))+7)/8
}

func inTaskStreams(r *core.Run, sc *StreamScenario) *core.Violation {
	sp := sc.Spec
	if sc.Mode == "link" {
		return runLink(r, sc)
	}
	return inTask(r, sc.Mode, func(s *sim.Sim) *core.Violation {
		orig := build(sp)
		data, err := orig.bytes()
		if err != nil {
			return core.V("write-failed", "writing to memory fails: %v", err)
		}
		if orig.Len() != len(data) {
			return core.V("not-equivalent", "the sketch says it needs %d bytes but writes %d", orig.Len(), len(data))
		}
		s.Logf("sketch %s %x", sp.Type, data)
		st := sc.St
		switch sc.Mode {
		case "read":
			if (st.Fault == "error" || st.Fault == "end") && st.At > len(data) {
				st.At = len(data)
			}
			if st.Fault == "end" && st.At >= len(data) {
				st.Fault = ""
			}
			got := empty(sp.Type)
			if sc.Prior != nil {
				got = build(*sc.Prior)
			}
			src := newSource(s, data, st)
			n, err := got.ReadFrom(src)
			s.Logf("ReadFrom %d %v", n, err)
			if n != int64(src.pos) {
				return core.V("wrong-count", "ReadFrom reports %d bytes but took %d (of %d, error %v)", n, src.pos, len(data), err)
			}
			if err != nil && st.Fault != "" && sc.Prior != nil {
				if v := receiver(orig, got, sc, data); v != nil {
					return v
				}
			}
			switch st.Fault {
			case "error":
				if err == nil {
					return core.V("error-swallowed", "the stream failed after %d of %d bytes but ReadFrom reports success", st.At, len(data))
				}
				if !errors.Is(err, errKinds[st.EOFLike]) {
					return core.V("error-changed", "the stream failed after %d of %d bytes with %q but ReadFrom reports %q", st.At, len(data), errKinds[st.EOFLike], err)
				}
				r.NonTriv = true
				return nil
			case "end":
				if err == nil {
					return core.V("truncation-accepted", "the stream ended after %d of %d bytes but ReadFrom reports success", st.At, len(data))
				}
				r.NonTriv = true
				return nil
			case "extra":
				s.Probe("extra-data")
				if err == nil {
					return core.V("extra-accepted", "the stream carried %d extra bytes but ReadFrom reports success", st.At)
				}
				r.NonTriv = true
				return nil
			}
			if err != nil {
				return core.V("intact-refused", "ReadFrom of an intact stream of %d bytes fails after %d: %v", len(data), n, err)
			}
			if src.i > 2 {
				r.NonTriv = true
			}
			s.Probe("intact-transfer")
			return same(orig, got, sp, data, sc.More)
		case "write":
			w := &sink{s: s, st: st}
			n, err := orig.WriteTo(w)
			s.Logf("WriteTo %d %v", n, err)
			if n != int64(len(w.got)) {
				return core.V("wrong-count", "WriteTo reports %d bytes but %d were accepted (of %d, error %v)", n, len(w.got), len(data), err)
			}
			if !bytes.HasPrefix(data, w.got) {
				return core.V("wrong-bytes", "WriteTo wrote other bytes than before: %x instead of %x", clip(w.got), clip(data))
			}
			if w.bad {
				r.NonTriv = true
				if err == nil {
					return core.V("error-swallowed", "the stream failed after %d of %d bytes but WriteTo reports success", len(w.got), len(data))
				}
				if !errors.Is(err, errKinds[st.EOFLike]) {
					return core.V("error-changed", "the stream failed with %q but WriteTo reports %q", errKinds[st.EOFLike], err)
				}
			} else {
				if err != nil {
					return core.V("write-failed", "WriteTo a working stream fails: %v", err)
				}
				if len(w.got) != len(data) {
					return core.V("lost-write", "WriteTo reports success but wrote %d of %d bytes", len(w.got), len(data))
				}
			}
			// and the sketch is as it was
			again, err := orig.bytes()
			if err != nil || !bytes.Equal(again, data) {
				return core.V("not-equivalent", "after a write the sketch writes other bytes: %x instead of %x (%v)", clip(again), clip(data), err)
			}
			return same(build(sp), orig, sp, data, sc.More)
		case "view":
			n := len(data)
			if st.Fault == "end" && st.At < n {
				n = st.At
				got, err := view(sp.Type, append([]byte(nil), data[:n]...))
				_ = got
				if err == nil {
					return core.V("truncation-accepted", "WithBytes accepts %d of %d bytes", n, len(data))
				}
				r.NonTriv = true
				s.Fault("early-end")
				return nil
			}
			buf := append(append([]byte(nil), data...), bytes.Repeat([]byte{0xA5}, sc.Tail+16)...)
			got, err := view(sp.Type, buf[:len(data)+sc.Tail])
			if err != nil {
				return core.V("intact-refused", "WithBytes of intact data fails: %v", err)
			}
			r.NonTriv = sc.More > 0
			if v := same(orig, got, sp, data, sc.More); v != nil {
				return v
			}
			if a, _ := orig.bytes(); !bytes.Equal(a, buf[:len(data)]) {
				return core.V("view-detached", "updates through WithBytes did not reach the bytes: %x instead of %x", clip(buf[:len(data)]), clip(a))
			}
			for _, b := range buf[len(data):] {
				if b != 0xA5 {
					return core.V("out-of-bounds", "updates through WithBytes wrote beyond the sketch")
				}
			}
		}
		return nil
	})
}

func runLink(r *core.Run, sc *StreamScenario) *core.Violation {
	sp := sc.Spec
	var l *link
	var orig *box
	var data []byte
	var werr error
	var wn int64
	st := sc.St
	ready, finished := false, false
	r.NonTriv = true
	return inTask(r, "link", func(s *sim.Sim) *core.Violation {
		orig = build(sp)
		var err error
		data, err = orig.bytes()
		if err != nil {
			return core.V("write-failed", "writing to memory fails: %v", err)
		}
		if st.At >= len(data) {
			st.At = len(data) - 1
		}
		l = &link{s: s, st: st, cap: sc.Cap}
		ready = true
		got := empty(sp.Type)
		n, err := got.ReadFrom(l)
		l.gone = true
		s.Logf("ReadFrom %d %v", n, err)
		if n != int64(l.taken) {
			return core.V("wrong-count", "ReadFrom reports %d bytes but took %d (error %v)", n, l.taken, err)
		}
		if st.Fault != "" {
			if err == nil {
				return core.V("truncation-accepted", "the sender failed after %d of %d bytes but ReadFrom reports success", st.At, len(data))
			}
			if st.Fault == "error" && !errors.Is(err, errStream) {
				return core.V("error-changed", "the link failed with %q but ReadFrom reports %q", errStream, err)
			}
			sim.Block("the sender", func() bool { return finished })
			if werr == nil {
				return core.V("error-swallowed", "the link failed after %d of %d bytes but WriteTo reports success", st.At, len(data))
			}
			if wn != int64(l.sent) {
				return core.V("wrong-count", "WriteTo reports %d bytes but %d were accepted", wn, l.sent)
			}
			return nil
		}
		if err != nil {
			return core.V("intact-refused", "ReadFrom of an intact link fails after %d of %d bytes: %v", n, len(data), err)
		}
		sim.Block("the sender", func() bool { return finished })
		if werr != nil || wn != int64(len(data)) {
			return core.V("write-failed", "WriteTo a working link: %d of %d bytes, %v", wn, len(data), werr)
		}
		s.Probe("intact-transfer")
		return same(orig, got, sp, data, sc.More)
	}, func(s *sim.Sim) {
		sim.Block("the link", func() bool { return ready })
		wn, werr = orig.WriteTo(l)
		l.close()
		finished = true
	})
}

func shrinkSpec(sp Spec) []Spec {
	var out []Spec
	if sp.Adds > 0 {
		a, b := sp, sp
		a.Adds /= 2
		b.Adds--
		out = append(out, a, b)
	}
	if sp.Type == "hll" && sp.W > 4 {
		a := sp
		a.W--
		out = append(out, a)
	}
	if sp.Type != "hll" && sp.N > 1 {
		a, b := sp, sp
		a.N /= 2
		b.N--
		out = append(out, a, b)
	}
	return out
}

func shrinkStreams(x interface{}) []interface{} {
	s := x.(*StreamScenario)
	var out []interface{}
	add := func(f func(c *StreamScenario)) {
		c := *s
		c.St.Plan = append([]int(nil), s.St.Plan...)
		f(&c)
		out = append(out, &c)
	}
	if len(s.St.Plan) > 1 {
		add(func(c *StreamScenario) { c.St.Plan = []int{1 << 20} })
		add(func(c *StreamScenario) { c.St.Plan = []int{1} })
		for i := range s.St.Plan {
			i := i
			rest := append(append([]int(nil), s.St.Plan[:i]...), s.St.Plan[i+1:]...)
			ok := false
			for _, p := range rest {
				ok = ok || p > 0
			}
			if ok {
				add(func(c *StreamScenario) { c.St.Plan = rest })
			}
		}
	}
	if s.Prior != nil {
		add(func(c *StreamScenario) { c.Prior = nil })
	}
	if s.More > 0 {
		add(func(c *StreamScenario) { c.More = 0 })
		add(func(c *StreamScenario) { c.More = s.More / 2 })
	}
	for _, sp := range shrinkSpec(s.Spec) {
		sp := sp
		add(func(c *StreamScenario) {
			c.Spec = sp
			if m := sizeOf(sp); (c.St.Fault == "end" || c.St.Fault == "error") && c.St.At >= sizeOf(s.Spec)-2 {
				c.St.At = m - (sizeOf(s.Spec) - c.St.At)
				if c.St.At < 0 {
					c.St.At = 0
				}
			}
		})
	}
	if s.St.Fault == "extra" && s.St.At > 1 {
		add(func(c *StreamScenario) { c.St.At = 1 })
	}
	return out
}

// ---------------------------------------------------------------- C18

// Damage is one thing that happened to the stored bytes.
type Damage struct {
	Kind string `json:"kind"`
	At   int    `json:"at"`
	N    int    `json:"n,omitempty"`
	V    uint64 `json:"v,omitempty"`
}

type DamageScenario struct {
	Spec  Spec     `json:"sketch"`
	As    string   `json:"as"`   // type it is read as
	Mode  string   `json:"mode"` // read, view
	Prior *Spec    `json:"prior,omitempty"`
	Dmg   []Damage `json:"damage"`
	Plan  []int    `json:"plan"`
	More  int      `json:"more"`
}

func (d Damage) apply(b []byte) []byte {
	at := d.At
	if at > len(b) {
		at = len(b)
	}
	end := at + d.N
	if end > len(b) {
		end = len(b)
	}
	switch d.Kind {
	case "flip":
		if at < len(b) {
			b[at] ^= 1 << (d.V % 8)
		}
	case "set":
		if at < len(b) {
			b[at] = byte(d.V)
		}
	case "set64": // a number overwritten
		for i := 0; i < 8 && at+i < len(b); i++ {
			b[at+i] = byte(d.V >> (8 * uint(i)))
		}
	case "zero":
		for i := at; i < end; i++ {
			b[i] = 0
		}
	case "fill":
		for i := at; i < end; i++ {
			b[i] = 0xff
		}
	case "regs": // every 6-bit register the same
		for i := 12; i+2 < len(b); i += 3 {
			x := uint32(d.V%64) * 0x41041
			b[i], b[i+1], b[i+2] = byte(x>>16), byte(x>>8), byte(x)
		}
	case "cut":
		b = b[:at]
	case "lose":
		b = append(b[:at:at], b[end:]...)
	case "dup":
		b = append(append(append([]byte(nil), b[:end]...), b[at:end]...), b[end:]...)
	case "insert":
		x := append([]byte(nil), b[:at]...)
		r := sim.NewRNG(d.V)
		for i := 0; i < d.N; i++ {
			x = append(x, byte(r.U64()))
		}
		b = append(x, b[at:]...)
	case "swap": // two blocks change places
		if end+d.N <= len(b) {
			x := append([]byte(nil), b[at:end]...)
			copy(b[at:end], b[end:end+d.N])
			copy(b[end:end+d.N], x)
		}
	case "garbage":
		r := sim.NewRNG(d.V)
		b = make([]byte, d.N)
		for i := range b {
			b[i] = byte(r.U64())
		}
		for i := range b {
			if i < 12 && r.Chance(0.6) {
				b[i] = byte(r.Intn(9))
			}
			if i >= 5 && i < 12 && r.Chance(0.7) {
				b[i] = 0
			}
		}
	}
	return b
}

func genDamage(r *sim.RNG, size int) Damage {
	d := Damage{Kind: []string{"flip", "flip", "flip", "set", "set", "set64", "zero", "fill", "cut", "lose", "dup", "insert", "swap"}[r.Intn(13)], V: r.U64()}
	d.At = r.Intn(size + 1)
	if r.Chance(0.65) {
		d.At = r.Intn(13)
	} else if r.Chance(0.2) {
		d.At = size - r.Intn(4)
	}
	if d.At < 0 {
		d.At = 0
	}
	d.N = pickInt(r, []int{1, 1, 2, 3, 8, 10, 12, 64, 512})
	if d.Kind == "set" {
		d.V = uint64(pickInt(r, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 18, 19, 32, 63, 64, 65, 127, 128, 255, r.Intn(256)}))
	}
	if d.Kind == "set64" {
		d.At = pickInt(r, []int{2, 4, 2, 4, d.At})
		switch r.Intn(5) {
		case 0:
			d.V = uint64(r.Intn(300))
		case 1:
			d.V = 1 << uint(r.Intn(64))
		case 2:
			d.V = ^uint64(0) - uint64(r.Intn(20))
		case 3:
			d.V = 1<<63 + uint64(r.Intn(100)) - 50
		case 4: // products with the width that wrap around to something small
			w := uint64(r.Range(1, 8))
			d.V = (^uint64(0))/w + uint64(r.Intn(40)) - 10
		}
	}
	return d
}

const base = 512 << 10 // memory always granted

func registerDamage() {
	gen := func(r *sim.RNG, th bool) interface{} {
		sc := &DamageScenario{Spec: genSpec(r, th), Mode: []string{"read", "view"}[r.Intn(2)], More: pickInt(r, []int{0, 3, 30})}
		if sc.Spec.N > 3000 {
			sc.Spec.N = r.Range(1, 3000)
		}
		sc.As = sc.Spec.Type
		if r.Chance(0.05) {
			sc.As = []string{"bits", "bloom", "hll"}[r.Intn(3)]
		}
		size := sizeOf(sc.Spec)
		for i := pickInt(r, []int{1, 1, 1, 2, 2, 3, 5}); i > 0; i-- {
			sc.Dmg = append(sc.Dmg, genDamage(r, size))
		}
		if sc.Spec.Type == "hll" && r.Chance(0.1) {
			d := Damage{Kind: "regs", V: uint64(r.Intn(64))}
			if r.Chance(0.5) {
				d.V = uint64(64-sc.Spec.W) + uint64(r.Intn(3)) // about the greatest rank
			}
			sc.Dmg = append([]Damage{d}, sc.Dmg[:r.Intn(2)]...)
		}
		if sc.Mode == "read" && r.Chance(0.3) {
			q := Spec{}
			for q.Type != sc.As {
				q = genSpec(r, false)
			}
			if q.N > 3000 {
				q.N = 3000
			}
			sc.Prior = &q
		}
		if r.Chance(0.1) {
			sc.Dmg = []Damage{{Kind: "garbage", N: pickInt(r, []int{0, 1, 2, 9, 10, 11, 12, 13, 20, 60, 200}), V: r.U64()}}
		}
		sc.Plan = []int{1 << 20}
		if r.Chance(0.4) {
			sc.Plan = []int{r.Range(1, 30), r.Range(1, 600)}
		}
		return sc
	}
	run := func(r *core.Run, x interface{}) *core.Violation {
		sc := x.(*DamageScenario)
		r.Extra = sc.Spec.extra()
		return inTask(r, "damage", func(s *sim.Sim) *core.Violation {
			orig := build(sc.Spec)
			data, err := orig.bytes()
			if err != nil {
				return core.V("write-failed", "writing to memory fails: %v", err)
			}
			b := append([]byte(nil), data...)
			for _, d := range sc.Dmg {
				b = d.apply(b)
				s.Fault("damage-" + d.Kind)
			}
			if bytes.Equal(b, data) && sc.As == sc.Spec.Type {
				return nil
			}
			r.NonTriv = true
			backing := append(append([]byte(nil), b...), bytes.Repeat([]byte{0xA5}, 16)...)
			buf := backing[:len(b)]
			in := fmt.Sprintf("%d bytes %x read as %s", len(b), clip(b), sc.As)
			allow := int64(base) + 32*int64(len(b))
			old := sim.AllocLimit
			s.Logf("input %s %x", in, b)
			var got *box
			claimed := int64(-1)
			rec := empty(sc.As)
			for try := 0; try < 3 && (try == 0 || claimed > allow); try++ {
				if sc.Prior != nil {
					rec = build(*sc.Prior)
				}
				var m0, m1 runtime.MemStats
				runtime.ReadMemStats(&m0)
				func() {
					defer func() { sim.AllocLimit = old }()
					sim.AllocLimit = allow
					if sc.Mode == "view" {
						got, err = view(sc.As, buf)
					} else {
						got = rec
						_, err = got.ReadFrom(newSource(s, b, Stream{Plan: sc.Plan}))
					}
				}()
				runtime.ReadMemStats(&m1)
				if n := int64(m1.TotalAlloc - m0.TotalAlloc); try == 0 || n < claimed {
					claimed = n
				}
			}
			s.Logf("%s: %v", sc.Mode, err)
			if claimed > allow {
				return core.V("storage-claimed", "reading %s claimed more than %d bytes of memory", in, allow)
			}
			if err != nil {
				s.Probe("damage-refused")
				if sc.Prior != nil {
					// the receiver still works
					got.ask()
					for i := 0; i < sc.More; i++ {
						got.add(sc.Spec.Seed+5, i)
					}
					got.ask()
					if _, err := got.bytes(); err != nil {
						return core.V("receiver-damaged", "%s: refused, but then the receiving sketch cannot be written: %v", in, err)
					}
				}
				return nil
			}
			s.Probe("damage-accepted")
			want := b
			if sc.Mode == "view" {
				if l := got.Len(); l > len(b) || l < 0 {
					return core.V("not-equivalent", "%s: accepted but says it needs %d bytes", in, l)
				} else {
					want = b[:l]
				}
			}
			a1 := got.ask()
			w, err := got.bytes()
			if err != nil || !bytes.Equal(w, want) {
				return core.V("not-equivalent", "%s: accepted but writes back %x (%v)", in, clip(w), err)
			}
			if a2 := got.ask(); a2 != a1 {
				return core.V("not-equivalent", "%s: accepted but answers differently the second time", in)
			}
			for i := 0; i < sc.More; i++ {
				got.add(sc.Spec.Seed+5, i)
			}
			a3 := got.ask()
			w, err = got.bytes()
			if err != nil {
				return core.V("not-equivalent", "%s: accepted but cannot be written after updates: %v", in, err)
			}
			re := empty(sc.As)
			if _, err := re.ReadFrom(bytes.NewReader(w)); err != nil {
				return core.V("not-equivalent", "%s: accepted but what it writes after updates is refused: %v", in, err)
			}
			if re.ask() != a3 {
				return core.V("not-equivalent", "%s: accepted but differs after updates, a write and a read", in)
			}
			if sc.Mode == "view" {
				if !bytes.Equal(backing[len(b):], bytes.Repeat([]byte{0xA5}, 16)) || !bytes.Equal(backing[len(want):len(b)], b[len(want):]) {
					return core.V("out-of-bounds", "%s: updates wrote beyond the sketch", in)
				}
			}
			got.Reset()
			got.ask()
			return nil
		})
	}
	core.Register(&core.Prop{ID: "C18", Quick: 300000, Gen: gen,
		Decode: func(b []byte) (interface{}, error) {
			var s DamageScenario
			err := json.Unmarshal(b, &s)
			return &s, err
		},
		Run: run,
		Shrink: func(x interface{}) []interface{} {
			s := x.(*DamageScenario)
			var out []interface{}
			for i := range s.Dmg {
				c := *s
				c.Dmg = append(append([]Damage(nil), s.Dmg[:i]...), s.Dmg[i+1:]...)
				out = append(out, &c)
			}
			for _, sp := range shrinkSpec(s.Spec) {
				c := *s
				c.Spec = sp
				out = append(out, &c)
			}
			if s.More > 0 {
				c := *s
				c.More /= 2
				out = append(out, &c)
			}
			if s.Prior != nil {
				c := *s
				c.Prior = nil
				out = append(out, &c)
			}
			if len(s.Plan) > 1 {
				c := *s
				c.Plan = []int{1 << 20}
				out = append(out, &c)
			}
			for i, d := range s.Dmg {
				if d.N > 1 {
					c := *s
					c.Dmg = append([]Damage(nil), s.Dmg...)
					c.Dmg[i].N /= 2
					out = append(out, &c)
				}
			}
			return out
		},
		Rule: "a run is non-trivial if the bytes read differ from the bytes written; distinct means a distinct hash of the execution",
		Real: []string{"internal/bitbucket", "internal/summary/bloom", "internal/summary/hll", "internal/hash/fnv"},
		Stub: []string{"storage: bytes held and damaged by the harness", "memory: single allocations of computed size beyond a bound fail, total allocation is metered"},
		Need: []string{"damage-refused", "damage-accepted", "damage-flip", "damage-cut", "damage-set64", "damage-insert"}})
}
