package e2e

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzharness/core"
	sim "github.com/iand/starbow/internal/zzvsim"
)

// ---------------------------------------------------------------- C04

// UniqSpec describes a large set of values to count, uploaded with repeats, in
// some order, by several clients.
type UniqSpec struct {
	Family string `json:"family"`
	N      int    `json:"n"`
	From   int    `json:"from"`
	P      int    `json:"p"`
	Dup    int    `json:"dup"`    // percentage of repeated values
	Order  int    `json:"order"`  // 0 ascending, 1 descending, 2 shuffled
	Per    int    `json:"per"`    // values per upload
	Absent int    `json:"absent"` // percentage of further observations without the field
	NCl    int    `json:"clients"`
	Seed   uint64 `json:"seed"`
	Runs   int    `json:"runs,omitempty"` // number of disjoint sets, each given to its own counter
}

var families = []string{"int", "padded", "prefix", "suffix", "ip", "code", "hexrand", "path", "float", "date", "bit"}

// familyValue is the i-th member of a family of identifiers; all differ.
func familyValue(f string, i int, seed uint64) string {
	switch f {
	case "int":
		return strconv.Itoa(i)
	case "padded":
		return fmt.Sprintf("%08d", i)
	case "prefix":
		return fmt.Sprintf("user-%d", i)
	case "suffix":
		return fmt.Sprintf("%d@example.com", i)
	case "ip":
		return fmt.Sprintf("10.%d.%d.%d", (i>>16)&255, (i>>8)&255, i&255)
	case "code":
		b := []byte{'A' + byte(i/676%26), 'A' + byte(i/26%26), 'A' + byte(i%26)}
		if i >= 17576 {
			return string(b) + strconv.Itoa(i/17576)
		}
		return string(b)
	case "hexrand":
		r := sim.NewRNG(seed + uint64(i)*77)
		return fmt.Sprintf("%016x%x", r.U64(), i)
	case "path":
		return fmt.Sprintf("/a/%d/b/%d", i/50, i%50)
	case "float":
		return strconv.FormatFloat(float64(i)/8, 'f', -1, 64)
	case "date":
		return fmt.Sprintf("2024-%02d-%02dT%02d:00", i/672%12+1, i/24%28+1, i%24) + suffix(i/8064)
	case "tricky":
		return trickyValue(i, seed)
	case "none":
		return "" // the only one there is
	case "bit":
		return strings.Repeat("0", i%40) + "1" + strings.Repeat("0", i/40)
	}
	return "v" + strconv.Itoa(i)
}

// trickyValue gives values that are easily taken for each other.
func trickyValue(i int, seed uint64) string {
	r := sim.NewRNG(seed)
	base := pick(r, []string{"a", "Ab", "10", "1.5", "same value", "é", "x\x00", "0", "true"})
	long := []int{8, 16, 32, 63, 64, 65, 127, 128, 255, 256, 257, 511, 1023, 1024, 4095, 5000}
	fs := []func(j int) string{
		func(j int) string { return base + strings.Repeat(" ", j) },
		func(j int) string { return strings.Repeat(" ", j) + base },
		func(j int) string { return base + strings.Repeat("\x00", j) },
		func(j int) string { return base + strings.Repeat("0", j) },
		func(j int) string { return strings.Repeat("0", j) + base },
		func(j int) string { return base + strings.Repeat("=", j) },
		func(j int) string { // letters' case
			b := []byte("abcdefgh")
			for k := range b {
				if j>>uint(k)&1 != 0 {
					b[k] -= 32
				}
			}
			return string(b)
		},
		func(j int) string { return strings.Repeat("p", long[j%len(long)]) + string(rune('A'+j/len(long))) },
		func(j int) string {
			return strings.Repeat("p", long[j%len(long)]-8) + string(rune('A'+j/len(long))) + "ssssssss"
		},
		func(j int) string { return string(rune('A'+j/len(long))) + strings.Repeat("p", long[j%len(long)]) },
		func(j int) string { return strings.Repeat("ab", 1+j) },
		func(j int) string {
			return base + []string{"", "\u0301", "\u200b", ".", ",", ";", "'", "\"", "\\", "/", "+", "-", "%20", "\x7f", "\x0b", "\xa0", "\u00a0"}[j%17] + strings.Repeat("~", j/17)
		},
		func(j int) string { return string([]byte{byte(32 + j%224)}) + strings.Repeat("z", j/224) },
	}
	if r.Chance(0.3) {
		base = ""
	}
	f := fs[r.Intn(len(fs))]
	return f(i % 250)
}

func suffix(n int) string {
	if n == 0 {
		return ""
	}
	return "." + strconv.Itoa(n)
}

const absentValue = "\x00absent\x00"

func (u *UniqSpec) expand(sc *Scenario) [][]Req {
	r := sim.NewRNG(u.Seed)
	var vals []string
	for i := 0; i < u.N; i++ {
		vals = append(vals, familyValue(u.Family, u.From+i, u.Seed))
	}
	switch u.Order {
	case 1:
		for i, j := 0, len(vals)-1; i < j; i, j = i+1, j-1 {
			vals[i], vals[j] = vals[j], vals[i]
		}
	case 2:
		for i := len(vals) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			vals[i], vals[j] = vals[j], vals[i]
		}
	}
	var all []string
	for i, v := range vals {
		all = append(all, v)
		if r.Intn(100) < u.Dup {
			all = append(all, vals[r.Intn(i+1)])
		}
	}
	for i := 0; i < len(all); i++ {
		if r.Intn(100) < u.Absent {
			all = append(all[:i], append([]string{absentValue}, all[i:]...)...)
			i++
		}
	}
	clients := make([][]Req, u.NCl)
	for i := 0; len(all) > 0; i++ {
		n := u.Per
		if n > len(all) {
			n = len(all)
		}
		q := Req{Kind: "upload", CT: "text/plain"}
		for _, v := range all[:n] {
			row := RowDef{ID: -1, TS: "5", FVs: []FV{{F: "k", V: "a"}}}
			if v != absentValue {
				row.FVs = append(row.FVs, FV{F: "u", V: v})
			}
			q.Rows = append(q.Rows, row)
		}
		q.Delim = usableDelim(delimTest(q.Rows))
		all = all[n:]
		clients[i%u.NCl] = append(clients[i%u.NCl], q)
	}
	return clients
}

func uniqScenario(r *sim.RNG, thorough bool) *Scenario {
	u := &UniqSpec{Family: pick(r, families), P: r.Range(4, 12), Dup: pickInt(r, []int{0, 0, 10, 60}), Order: r.Intn(3), Absent: pickInt(r, []int{0, 0, 20}), NCl: r.Range(1, 3), Seed: r.U64()}
	if r.Chance(0.5) {
		u.P = r.Range(4, 8)
	}
	m := 1 << uint(u.P)
	max := 700
	if thorough && r.Chance(0.3) {
		max = 6000
	}
	u.N = r.Range(1, 2*m)
	if r.Chance(0.4) {
		u.N = r.Range(m, 8*m)
	}
	if u.N > max {
		u.N = r.Range(max/2, max)
	}
	if r.Chance(0.3) {
		// few values, told apart reliably
		u.P = r.Range(9, 18)
		u.N = r.Range(2, 60)
		if r.Chance(0.6) {
			u.Family = "tricky"
			u.N = r.Range(2, 16)
			if r.Chance(0.1) {
				u.Family, u.N = "none", 1
			}
		}
	}
	u.From = pickInt(r, []int{0, 1, 1, 100, 1000, 99990})
	u.Per = pickInt(r, []int{1, 7, 40, 300})
	if u.N > 300 && u.Per < 40 {
		u.Per = 40
	}
	sc := &Scenario{Final: true, Mode: "unique", Uniq: u, Colls: []CollDef{{Name: "col0", Keys: []string{"k"}, Count: r.Chance(0.7), Slots: r.Range(1, 20),
		Fields: []FieldDef{{F: "u", M: []MeasureDef{{"uniquecount", u.P}}}}}}}
	if r.Chance(0.3) {
		// neighbours in the record
		sc.Colls[0].Fields = append([]FieldDef{{F: "w", M: []MeasureDef{{"uniquecount", r.Range(4, 6)}}}}, sc.Colls[0].Fields...)
	}
	return sc
}

// estimatorScenario gives many disjoint sets of one size to counters of one
// precision: their estimates must be right on average and spread no wider than
// HyperLogLog's.
func estimatorScenario(r *sim.RNG) *Scenario {
	u := &UniqSpec{Family: pick(r, []string{"int", "padded", "prefix", "suffix", "ip", "hexrand", "path", "float"}), P: r.Range(4, 13), Seed: r.U64(), From: pickInt(r, []int{0, 1, 100000})}
	if r.Chance(0.5) {
		u.P = r.Range(4, 7)
	} else if r.Chance(0.3) {
		u.P = r.Range(14, 18)
	}
	m := 1 << uint(u.P)
	u.N = m * pickInt(r, []int{4, 5, 6, 8, 10, 12, 16, 24, 40, 80, 200, 400, 800, 2400, 8000}) / 4
	if u.N > 65_000 {
		u.N = 65_000
	}
	u.Runs = 400_000 / u.N
	if u.Runs > 4000 {
		u.Runs = 4000
	}
	if u.Runs < 16 {
		u.Runs = 16
	}
	return &Scenario{Mode: "estimator", Uniq: u}
}

func estimator(r *core.Run, sc *Scenario) *core.Violation {
	u := sc.Uniq
	r.Extra = int64(u.N) * int64(u.Runs) * 1000
	s := r.Sim("estimator", false)
	n, sum, sq, worst := float64(u.N), 0.0, 0.0, 0.0
	s.Spawn("estimator", func() {
		for i := 0; i < u.Runs; i++ {
			k := hll.New(uint8(u.P))
			for j := 0; j < u.N; j++ {
				k.Add([]byte(familyValue(u.Family, u.From+i*u.N+j, u.Seed)))
			}
			e := float64(k.Count())/n - 1
			s.Logf("set %d: estimate off by %.4f", i, e)
			sum += e
			sq += e * e
			worst = math.Max(worst, math.Abs(e))
		}
	})
	res := s.Run(func() bool { return false })
	r.Done(s)
	for _, t := range res.Panics {
		return core.V("panic", "counter panicked: %v", t.Panic)
	}
	if res.Over {
		return core.V("hang", "counting does not end")
	}
	r.Probe("estimator-sets", int64(u.Runs))
	r.NonTriv = true
	k := float64(u.Runs)
	se := 1.04 / math.Sqrt(math.Exp2(float64(u.P)))
	bias, rmse := sum/k, math.Sqrt(sq/k)
	if math.Abs(bias) > 0.012+5*se/math.Sqrt(k) {
		return core.V("unique", "estimates for %d sets of %d values (%s) at precision %d are off by %+.1f%% on average; standard error %.1f%%", u.Runs, u.N, u.Family, u.P, 100*bias, 100*se)
	}
	if rmse > se*(1.25+4/math.Sqrt(k)) {
		return core.V("unique", "estimates for %d sets of %d values (%s) at precision %d err by %.1f%% (root mean square); standard error %.1f%%", u.Runs, u.N, u.Family, u.P, 100*rmse, 100*se)
	}
	return nil
}

func registerUnique() {
	p4 := prof(func(p *profile) {
		p.fields = [2]int{2, 3}
		p.absentP = 0.3
		p.rows = [2]int{1, 8}
		p.queryP = 0.15
		p.keyVals = [2]int{1, 2}
	})
	want := cls(general, content, "unique", "missing-measure", "query-refused", "refused")
	core.Register(&core.Prop{
		ID: "C04", Quick: 30000,
		Gen: func(r *sim.RNG, th bool) interface{} {
			if r.Chance(0.003) {
				return estimatorScenario(r)
			}
			if r.Chance(0.35) {
				return uniqScenario(r, th)
			}
			return generate(r, big(th, r, p4))
		},
		Decode: decode,
		Run: func(r *core.Run, x interface{}) *core.Violation {
			sc := x.(*Scenario)
			if sc.Uniq == nil {
				return runStd(r, sc, want)
			}
			if sc.Mode == "estimator" {
				return estimator(r, sc)
			}
			cl := sc.Uniq.expand(sc)
			h := run(r, "large set", true, sc, cl)
			h.probe(r)
			r.Probe("large-set", 1)
			r.Probe("large-set-values", int64(sc.Uniq.N))
			r.NonTriv = true
			return h.check().first(want)
		},
		Shrink: func(x interface{}) []interface{} {
			s := x.(*Scenario)
			if s.Uniq == nil {
				return shrink(x)
			}
			var out []interface{}
			try := func(f func(u *UniqSpec)) {
				c, u := *s, *s.Uniq
				f(&u)
				if u != *s.Uniq && u.N > 0 {
					c.Uniq = &u
					out = append(out, &c)
				}
			}
			if s.Mode == "estimator" {
				try(func(u *UniqSpec) { u.Runs = u.Runs * 3 / 4 })
				try(func(u *UniqSpec) { u.From = 0 })
				return out
			}
			try(func(u *UniqSpec) { u.N /= 2 })
			try(func(u *UniqSpec) { u.N = u.N * 3 / 4 })
			try(func(u *UniqSpec) { u.N-- })
			try(func(u *UniqSpec) { u.NCl = 1 })
			try(func(u *UniqSpec) { u.Dup = 0 })
			try(func(u *UniqSpec) { u.Absent = 0 })
			try(func(u *UniqSpec) { u.Order = 0 })
			try(func(u *UniqSpec) { u.Per = 300 })
			return out
		},
		Rule: ruleConc + "; or a large set of values was uploaded and its unique count compared",
		Real: realParts, Stub: stubParts, Need: []string{"upload-acknowledged", "query-with-values", "overlapping-requests", "large-set", "estimator-sets"},
	})
}

// ---------------------------------------------------------------- C13

func registerSignals() {
	p := prof(func(p *profile) {
		p.clients = [2]int{1, 3}
		p.reqs = [2]int{1, 3}
		p.demoP = 0.7
		p.rows = [2]int{1, 3}
		p.clockP = 0.05
		p.rawP = 0.05
		p.faultP, p.faults = 0.2, []string{"rst", "fin", "rstafter", "stall", "stall"}
	})
	want := cls("process-died", "hang", "panic", "no-answer", "garbled", "refused", "query-refused", "wrong-status", "signal-lost", "lost-row", "value")
	core.Register(&core.Prop{
		ID: "C13", Quick: 80000,
		Gen: func(r *sim.RNG, th bool) interface{} {
			sc := generate(r, big(th, r, p))
			for i := range sc.Clients {
				if r.Chance(0.7) && len(sc.Clients[i]) > 0 {
					sc.Clients[i][0].Think = 0 // as soon as the server listens
				}
			}
			if r.Chance(0.04) {
				sc.Listen = []string{"in use", "no permission", "no files"}[r.Intn(3)]
				sc.Final = false
				sc.Repeat = 0
				sc.Mode = "signals"
				for i := range sc.Clients {
					if len(sc.Clients[i]) > 1 {
						sc.Clients[i] = sc.Clients[i][:1]
					}
				}
				return sc
			}
			if r.Chance(0.15) {
				return sc // no signal: answers from the first moment
			}
			sc.Final = false
			sc.Repeat = 0
			sc.Mode = "signals"
			n := pickInt(r, []int{1, 1, 1, 2, 2, 3, 5})
			at := int64(0)
			switch r.Intn(4) {
			case 0:
				at = int64(r.Range(0, 8)) * 1000 // while it starts
			case 1:
				at = int64(r.Range(0, 60)) * 1000
			case 2:
				at = int64(r.Range(0, 600)) * 1000
			case 3:
				at = int64(r.Range(1, 100_000)) * ms
			}
			for i := 0; i < n; i++ {
				sc.Signals = append(sc.Signals, at)
				sc.SigKind = append(sc.SigKind, r.Intn(2))
				at += []int64{0, 1000, 3000, 20_000, 5 * ms}[r.Intn(5)]
			}
			return sc
		},
		Decode: decode,
		Run: func(r *core.Run, x interface{}) *core.Violation {
			sc := x.(*Scenario)
			h := run(r, "history", true, sc, sc.Clients)
			h.probe(r)
			if sc.Listen != "" {
				r.NonTriv = true
				if h.res.Exit != nil {
					return nil
				}
				if h.mainEnd == 0 {
					return core.V("listen-failure", "the server could not listen (%s) but goes on running: %v", sc.Listen, h.res.Stuck)
				}
				if !sc.Demo && h.serveErr == nil {
					return core.V("listen-failure", "the server could not listen (%s) but Serve reports no error", sc.Listen)
				}
				return nil
			}
			if len(h.sigs) > 0 {
				r.NonTriv = true
				r.Probe("signal-sent", 1)
			}
			c := h.check()
			if len(h.sigs) > 0 && h.mainEnd == 0 && h.died == 0 && h.res.Exit == nil {
				var l []string
				for _, s := range h.sigs {
					l = append(l, fmt.Sprintf("%dns: %s", s.at, s.what))
				}
				c.fail("signal-lost", "the server goes on although it was sent %d terminating signals (%s)", len(h.sigs), strings.Join(l, ", "))
			}
			if len(sc.Signals) > 0 && len(h.sigs) == 0 && h.mainEnd == 0 && !h.res.Over {
				c.fail("hang", "harness: no signal was sent")
			}
			return c.first(want)
		},
		Shrink: shrink, Rule: "a run is non-trivial if a signal was sent, or at least two requests overlapped and an observation was acknowledged; distinct means a distinct hash of all scheduling decisions and the recorded history",
		Real: realParts, Stub: stubParts, Need: []string{"listen-error", "signal-sent", "signal-delivered", "signal-default", "upload-acknowledged", "query-with-values"},
	})
}
