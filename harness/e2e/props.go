package e2e

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/zzharness/core"
	sim "github.com/iand/starbow/internal/zzvsim"
)

// classes every property over the HTTP interface reports: nothing it states can
// be relied on when these happen
var general = []string{"process-died", "hang", "panic", "no-answer", "garbled"}

// sums over the same observations that cannot be read off
var content = []string{"lost-row", "duplicate-row", "foreign-row", "misrouted-row", "phantom", "prefix", "torn-row", "unsent-row", "refused-row-applied"}

func cls(lists ...interface{}) map[string]bool {
	m := map[string]bool{}
	for _, l := range lists {
		switch x := l.(type) {
		case string:
			m[x] = true
		case []string:
			for _, s := range x {
				m[s] = true
			}
		}
	}
	return m
}

func (c *checker) first(want map[string]bool) *core.Violation {
	for _, v := range c.out {
		if want[v.Class] {
			return v
		}
	}
	return nil
}

var realParts = []string{"starbow main or server.Server (listener setup, handlers, parsing)", "collation", "storage", "bufmap", "seqlock", "query", "summary/hll", "summary/stat64", "bitbucket", "hash/fnv", "net/http request and body parsing", "net/http ServeMux", "bufio", "mime"}
var stubParts = []string{"TCP listener and connections", "net/http.Server's per-connection loop (context cancellation, answer)", "os/signal", "sync, sync/atomic scheduling", "clock and timers", "logger output"}

// std registers a property decided on one simulated history.
func std(id string, quick int, want map[string]bool, gen func(r *sim.RNG, thorough bool) *Scenario, need []string, rule string) {
	core.Register(&core.Prop{
		ID: id, Quick: quick,
		Gen: func(r *sim.RNG, thorough bool) interface{} {
			if r.Chance(marathons) {
				return marathonScenario(r, thorough)
			}
			return gen(r, thorough)
		},
		Decode: decode,
		Run: func(r *core.Run, x interface{}) *core.Violation {
			sc := x.(*Scenario)
			return runStd(r, sc, want)
		},
		Shrink: shrink, Rule: rule, Real: realParts, Stub: stubParts, Need: need,
	})
}

// the share of runs that are marathons
const marathons = 0.005

func runStd(r *core.Run, sc *Scenario, want map[string]bool) *core.Violation {
	if sc.Bulk != nil {
		r.Probe("large-workload", 1)
		r.Probe("large-workload-observations", int64(sc.Bulk.N))
	}
	h := run(r, "history", true, sc, sc.expand())
	h.probe(r)
	return h.check().first(want)
}

const ruleConc = "a run is non-trivial if at least two requests overlapped in simulated time and at least one observation was acknowledged; distinct means a distinct hash of all scheduling decisions and the recorded history"

// probe records which conditions the history reached.
func (h *history) probe(r *core.Run) {
	over := 0
	for i, a := range h.recs {
		switch {
		case a.ok() && a.req.Kind == "upload":
			r.Probe("upload-acknowledged", 1)
		case a.answered() && a.req.Kind == "upload":
			r.Probe("upload-refused", 1)
		case a.ok() && a.req.Kind == "query":
			if strings.Contains(a.body, ")=") {
				r.Probe("query-with-values", 1)
			} else {
				r.Probe("query-empty", 1)
			}
		case a.gone:
			r.Probe("request-abandoned", 1)
		case a.answered() && !a.ok():
			r.Probe("request-refused", 1)
		}
		for _, b := range h.recs[:i] {
			if a.ret > 0 && b.ret > 0 && a.inv < b.ret && b.inv < a.ret {
				over++
			}
		}
	}
	ack := false
	for _, a := range h.recs {
		if a.req.Kind == "upload" && a.ok() && len(a.req.Rows) > 0 {
			ack = true
		}
	}
	if over > 0 {
		r.Probe("overlapping-requests", int64(over))
	}
	r.NonTriv = (over > 0 || len(h.sigs) > 0) && ack
}

// lib shares a profile with small changes.
func prof(f func(p *profile)) profile {
	p := base()
	f(&p)
	return p
}

func big(thorough bool, r *sim.RNG, p profile) profile {
	if thorough && r.Chance(0.3) {
		p.clients[1] += 3
		p.reqs[1] += 3
		p.rows[1] += 4
		p.keyVals[1] += 2
	}
	return p
}

func init() {
	// C01: exactly once / at most once
	p1 := prof(func(p *profile) {
		p.faultP, p.faults = 0.25, []string{"rst", "fin", "stall", "stallresume", "rstafter", "rstafter", "finafter", "finafter"}
		p.badP = 0.06
		p.rows = [2]int{1, 5}
		p.queryP = 0.25
		p.colls = [2]int{1, 3}
	})
	std("C01", 60000, cls(general, content, "false-success", "bad-accepted", "refused", "query-refused", "snapshot", "value"),
		func(r *sim.RNG, th bool) *Scenario {
			if r.Chance(0.02) {
				return bulkScenario(r, th, r.Chance(0.3))
			}
			sc := generate(r, big(th, r, p1))
			if r.Chance(0.05) {
				longLine(r, sc)
			}
			if r.Chance(0.08) {
				for i := range sc.Colls {
					sc.Colls[i].Slots = r.Range(1, 4)
				}
			}
			return sc
		},
		[]string{"upload-acknowledged", "upload-refused", "request-abandoned", "overlapping-requests", "reset-mid-request", "cancel-by-close", "context-cancelled"}, ruleConc)

	// C02: snapshots
	p2 := prof(func(p *profile) {
		p.clients = [2]int{2, 5}
		p.keyVals = [2]int{1, 2}
		p.queryP = 0.55
		p.splitP, p.gapP = 0.1, 0.1
		p.colls = [2]int{1, 2}
		p.badP = 0.02
	})
	std("C02", 60000, cls(general, content, "snapshot", "value", "backwards", "not-serial", "missing-measure", "query-refused", "refused", "unique"),
		func(r *sim.RNG, th bool) *Scenario {
			if r.Chance(0.05) {
				return lapScenario(r)
			}
			return generate(r, big(th, r, p2))
		},
		[]string{"upload-acknowledged", "query-with-values", "query-empty", "overlapping-requests"}, ruleConc)

	// C03: precise measures
	p3 := prof(func(p *profile) {
		p.fields = [2]int{1, 3}
		p.absentP = 0.35
		p.queryP = 0.12
		p.rows = [2]int{1, 6}
		p.demoP = 0.15
	})
	std("C03", 60000, cls(general, content, "value", "missing-measure", "query-refused", "refused"),
		func(r *sim.RNG, th bool) *Scenario {
			if r.Chance(0.03) {
				return bulkScenario(r, th, false)
			}
			return generate(r, big(th, r, p3))
		},
		[]string{"upload-acknowledged", "query-with-values", "overlapping-requests"}, ruleConc)

	// C05: routing
	p5 := prof(func(p *profile) {
		p.colls = [2]int{1, 3}
		p.keyVals = [2]int{2, 4}
		p.multiKeyP = 0.4
		p.queryP = 0.3
		p.bigSlotsP = 0.1
	})
	core.Register(&core.Prop{
		ID: "C05", Quick: 50000,
		Gen: func(r *sim.RNG, th bool) interface{} {
			if r.Chance(0.02) {
				return concatScenario(r)
			}
			return generate(r, big(th, r, p5))
		},
		Decode: decode,
		Run: func(r *core.Run, x interface{}) *core.Violation {
			sc := x.(*Scenario)
			want := cls(general, content, "value", "snapshot", "refused", "query-refused", "missing-measure", "unique")
			v := runStd(r, sc, want)
			if v != nil && sc.Mode == "concat" {
				return concatClass(r, sc, v, want)
			}
			return v
		},
		Shrink: shrink, Rule: ruleConc, Real: realParts, Stub: stubParts,
		Need:  []string{"upload-acknowledged", "query-with-values", "query-empty", "overlapping-requests"},
		Fixed: []interface{}{concatScenario(sim.NewRNG(5))}, FixedEvery: 400,
	})

	// C06: torn observations
	p6 := prof(func(p *profile) {
		p.clients = [2]int{1, 3}
		p.faultP, p.faults = 0.75, []string{"rst", "rst", "fin", "fin", "fin", "stall"}
		p.rows = [2]int{1, 4}
		p.splitP = 0.6
		p.queryP = 0.15
		p.gapP = 0.3
	})
	std("C06", 60000, cls(general, content, "false-success", "value", "snapshot", "query-refused", "refused", "unique"),
		func(r *sim.RNG, th bool) *Scenario {
			if r.Chance(0.03) {
				return bulkScenario(r, th, true)
			}
			sc := generate(r, big(th, r, p6))
			if r.Chance(0.03) {
				longLine(r, sc)
			}
			return sc
		},
		[]string{"upload-acknowledged", "upload-refused", "request-abandoned", "reset-mid-request", "close-mid-request"}, "a run is non-trivial if an upload was cut or another request overlapped it and at least one observation was acknowledged; distinct means a distinct hash of all scheduling decisions and the recorded history")

	// C07: refused observations
	p7 := prof(func(p *profile) {
		p.badP = 0.3
		p.rawP = 0.12
		p.keyVals = [2]int{1, 2}
		p.fields = [2]int{1, 3}
		p.queryP = 0.2
		p.reqs = [2]int{2, 5}
	})
	std("C07", 60000, cls(general, content, "bad-accepted", "value", "snapshot", "refused", "query-refused", "missing-measure", "unique", "wrong-status"),
		func(r *sim.RNG, th bool) *Scenario {
			sc := generate(r, big(th, r, p7))
			if r.Chance(0.1) {
				longLine(r, sc)
			}
			return sc
		},
		[]string{"upload-acknowledged", "upload-refused", "query-with-values", "overlapping-requests"}, ruleConc)

	// C08: full tables
	p8 := prof(func(p *profile) {
		p.clients = [2]int{2, 4}
		p.reqs = [2]int{2, 6}
		p.rows = [2]int{1, 3}
		p.keyVals = [2]int{4, 9}
		p.queryP = 0.25
		p.multiKeyP = 0.1
		p.badP = 0.05
		p.demoP = 0
		p.fields = [2]int{0, 1}
		p.splitP, p.gapP = 0.1, 0.1
	})
	std("C08", 60000, cls(general, content, "refused", "value", "snapshot", "query-refused", "bad-accepted"),
		func(r *sim.RNG, th bool) *Scenario {
			sc := generate(r, big(th, r, p8))
			for i := range sc.Colls {
				sc.Colls[i].Slots = r.Range(1, 9)
				if r.Chance(0.1) {
					sc.Colls[i].Slots = r.Range(10, 20)
				}
			}
			return sc
		},
		[]string{"upload-acknowledged", "upload-refused", "query-with-values", "query-empty", "overlapping-requests"}, ruleConc)

	// C09: progress
	p9 := prof(func(p *profile) {
		p.clients = [2]int{2, 5}
		p.reqs = [2]int{1, 5}
		p.faultP, p.faults = 0.4, []string{"stall", "stall", "stallresume", "rst", "fin", "rstafter", "finafter"}
		p.badP = 0.12
		p.rawP = 0.06
		p.keyVals = [2]int{1, 2}
	})
	std("C09", 60000, cls(general, "refused", "query-refused", "wrong-status"),
		func(r *sim.RNG, th bool) *Scenario {
			sc := generate(r, big(th, r, p9))
			if r.Chance(0.15) {
				slowest(r, sc)
			}
			if r.Chance(0.02) {
				crowd(r, sc)
			}
			if r.Chance(0.25) && !sc.Demo {
				for i := range sc.Colls {
					sc.Colls[i].Slots = r.Range(1, 3) // full tables
				}
			}
			if r.Chance(0.03) {
				longLine(r, sc)
			}
			return sc
		},
		[]string{"upload-acknowledged", "upload-refused", "request-abandoned", "stall", "overlapping-requests", "context-cancelled"}, ruleConc)

	// C25: caches on the way
	p25 := prof(func(p *profile) {
		p.keyVals = [2]int{1, 2}
		p.queryP = 0.5
		p.reqs = [2]int{2, 6}
		p.rows = [2]int{1, 3}
		p.splitP, p.gapP = 0.1, 0.3
		p.badP = 0.02
		p.clockP = 0.2
		p.multiKeyP = 0.1
		p.faultP, p.faults = 0.05, []string{"rst", "rstafter", "finafter"}
	})
	std("C25", 50000, cls(general, content, "snapshot", "value", "backwards", "not-serial", "missing-measure", "query-refused", "refused", "unique"),
		func(r *sim.RNG, th bool) *Scenario {
			sc := generate(r, big(th, r, p25))
			throughCaches(r, sc)
			return sc
		},
		[]string{"upload-acknowledged", "query-with-values", "query-empty", "overlapping-requests", "sent-through-cache"}, ruleConc)

	// C12: identical answers
	p12 := prof(func(p *profile) {
		p.fields = [2]int{1, 3}
		p.queryP = 0.5
		p.absentP = 0.25
	})
	core.Register(&core.Prop{
		ID: "C12", Quick: 45000,
		Gen: func(r *sim.RNG, th bool) interface{} {
			if r.Chance(marathons) {
				return marathonScenario(r, th)
			}
			sc := generate(r, big(th, r, p12))
			sc.Repeat = r.Range(2, 3)
			// repeat some queries within the workload as well
			for i := range sc.Clients {
				for j := range sc.Clients[i] {
					if q := sc.Clients[i][j]; q.Kind == "query" && r.Chance(0.4) {
						q.Method = pick(r, []string{"GET", "POST"})
						k := r.Intn(len(sc.Clients))
						sc.Clients[k] = append(sc.Clients[k], q)
					}
				}
			}
			return sc
		},
		Decode: decode,
		Run: func(r *core.Run, x interface{}) *core.Violation {
			sc := x.(*Scenario)
			h := run(r, "history", true, sc, sc.expand())
			h.probe(r)
			c := h.check()
			c.identical(r)
			return c.first(cls(general, "missing-measure", "query-refused", "differs"))
		},
		Shrink: shrink, Rule: ruleConc, Real: realParts, Stub: stubParts,
		Need: []string{"upload-acknowledged", "query-with-values", "comparable-answers", "overlapping-requests"},
	})

	registerDifferential()
	registerUnique()
	registerSignals()
	registerSoak()
}

// identical compares answers to the same question between which nothing was
// added to the key.
func (c *checker) identical(r *core.Run) {
	h := c.h
	type k struct {
		coll int
		text string
	}
	by := map[k][]*rec{}
	var order []k
	for _, a := range h.recs {
		if a.req.Kind == "query" && a.ok() {
			x := k{a.req.Coll, queryText(a.req.Sel, a.req.Crit)}
			if by[x] == nil {
				order = append(order, x)
			}
			by[x] = append(by[x], a)
		}
	}
	for _, x := range order {
		l := by[x]
		d := &h.colls[x.coll]
		key, ok := d.keyFromCrit(l[0].req.Crit)
		for i, a := range l {
			for _, b := range l[i+1:] {
				lo, hi := a.inv, b.ret
				if b.inv < lo {
					lo = b.inv
				}
				if a.ret > hi {
					hi = a.ret
				}
				if ok && h.touched(x.coll, key, lo, hi) {
					continue
				}
				r.Probe("comparable-answers", 1)
				if a.body != b.body || a.status != b.status {
					c.fail("differs", "%s and %s asked %s the same (%s) and nothing was added to the key between, but the answers differ: %q and %q", a.name(), b.name(), d.Name, x.text, a.body, b.body)
				}
			}
		}
	}
}

// touched reports whether any upload that may have added to the key overlapped
// the interval.
func (h *history) touched(ci int, key string, lo, hi int64) bool {
	for _, u := range h.recs {
		if u.req.Kind != "upload" || u.inv > hi {
			continue
		}
		if u.ret > 0 && u.ret < lo {
			continue
		}
		for i := range u.req.Rows {
			if k, ok := h.colls[ci].keyOf(&u.req.Rows[i]); ok && k == key {
				return true
			}
		}
	}
	return false
}

// longLine puts one long line into an upload. Tens of kilobytes must be
// accepted; longer lines may be refused, but not ignored.
func longLine(r *sim.RNG, sc *Scenario) {
	for i := range sc.Clients {
		for j := range sc.Clients[i] {
			q := &sc.Clients[i][j]
			if q.Kind != "upload" || len(q.Rows) == 0 || q.Chunked {
				continue
			}
			k := r.Intn(len(q.Rows))
			if q.Rows[k].Raw != "" {
				continue
			}
			n := pickInt(r, []int{5000, 5000, 9_000, 17_000, 33_000, 60_000})
			if r.Chance(0.5) {
				n = pickInt(r, []int{64_000, 66_000, 200_000})
				q.Rows[k].Opt = true
			}
			q.Rows[k].FVs = append(q.Rows[k].FVs, FV{F: "pad", V: strings.Repeat("p", n)})
			if len(q.Rows[k].line("|")) > 64_000 {
				q.Rows[k].Opt = true
			}
			q.Segs, q.Gaps = nil, nil
			return
		}
	}
}

// slowest makes some client send very slowly, header and all.
func slowest(r *sim.RNG, sc *Scenario) {
	cl := sc.Clients[r.Intn(len(sc.Clients))]
	if len(cl) == 0 {
		return
	}
	q := &cl[r.Intn(len(cl))]
	q.Segs = []int{pickInt(r, []int{7, 20, 40, 100})}
	q.Gaps = []int64{[]int64{900 * ms, 5_500 * ms, 31_000 * ms, 125_000 * ms, 700_000 * ms, 4000_000 * ms}[r.Intn(6)]}
}

// crowd adds many clients that stall in the middle of their uploads, before the
// others start and until they are done.
func crowd(r *sim.RNG, sc *Scenario) {
	if sc.Demo {
		return
	}
	var key []FV
	for _, k := range sc.Colls[0].Keys {
		key = append(key, FV{F: k, V: "crowd"})
	}
	n := pickInt(r, []int{10, 20, 40, 70, 140, 280})
	for i := 0; i < n; i++ {
		q := Req{Kind: "upload", CT: "text/plain", Delim: "\t"}
		for j := r.Range(1, 3); j > 0; j-- {
			q.Rows = append(q.Rows, RowDef{ID: -1, TS: "1", FVs: []FV{{F: "crowd", V: strconv.Itoa(i)}}})
		}
		if r.Chance(0.1) {
			q = Req{Kind: "query", Coll: 0, Sel: sc.Colls[0].measures(), Crit: key, Method: "GET", ViaURL: true}
		}
		q.Fault = pick(r, []string{"stall", "stall", "stall", "stallresume"})
		w := q.wire(sc.Colls)
		q.At = len(w.bytes) - r.Range(1, 8)
		if r.Chance(0.2) {
			q.At = r.Intn(len(w.bytes))
		}
		sc.Clients = append(sc.Clients, []Req{q})
	}
	for i := range sc.Clients[:len(sc.Clients)-n] {
		if l := sc.Clients[i]; len(l) > 0 && r.Chance(0.8) {
			l[0].Think = 50 * ms
		}
	}
}

// ---------------------------------------------------------------- C05's known finding

// concatScenario uses two key fields whose values join to the same text: the
// documented defect that names and values are hashed without delimiters.
func concatScenario(r *sim.RNG) *Scenario {
	m := []MeasureDef{{N: "sum"}, {N: "max"}}
	sc := &Scenario{Final: true, Mode: "concat", Colls: []CollDef{{Name: "col0", Keys: []string{"k", "k2"}, Count: true, Slots: 100, Fields: []FieldDef{{F: "id", M: m}}}}}
	pairs := [][2][2]string{{{"1k2", "x"}, {"1", "k2x"}}, {{"a", "bk2c"}, {"ak2b", "c"}}, {{"uk2", ""}, {"u", "k2"}}}
	p := pairs[r.Intn(2)]
	for i, kv := range p {
		row := RowDef{ID: i, TS: "1", FVs: []FV{{F: "k", V: kv[0]}, {F: "k2", V: kv[1]}, {F: "id", V: strconv.FormatInt(weight(i), 10)}}}
		sc.Clients = append(sc.Clients, []Req{{Kind: "upload", Rows: []RowDef{row}, Delim: "\t", CT: "text/plain"}})
	}
	return sc
}

const concatFinding = "key-concatenation"

// concatClass decides whether what was seen is exactly the known finding: the
// history is right once the two tuples are taken to be one key.
func concatClass(r *core.Run, sc *Scenario, v *core.Violation, want map[string]bool) *core.Violation {
	c2 := *sc
	c2.Mode = "concat-merged"
	h := run(r, "the same with joined keys in the model", true, &c2, c2.Clients)
	c := &checker{h: h}
	_ = c
	// what the joined key must show: both observations, under either name
	total := float64(0)
	n := 0
	for _, cl := range sc.Clients {
		for _, q := range cl {
			if q.Kind == "upload" {
				for _, row := range q.Rows {
					total += float64(weight(row.ID))
					n++
				}
			}
		}
	}
	for _, a := range h.recs {
		if a.final {
			ans := parseAnswer(a.body, len(a.req.Crit))
			if !a.ok() || ans.vals["sum(id)"] != total || ans.vals["count(*)"] != float64(n) {
				return v
			}
		}
	}
	return core.V(concatFinding, "%s", v.Msg)
}

// ---------------------------------------------------------------- differential

type outcome struct {
	vals  map[string]string // final query -> answer
	order []string
}

func (h *history) finals() outcome {
	o := outcome{vals: map[string]string{}}
	for _, a := range h.recs {
		if a.final && a.req.Kind == "query" {
			k := fmt.Sprintf("%s %s", h.colls[a.req.Coll].Name, queryText(a.req.Sel, a.req.Crit))
			if _, ok := o.vals[k]; !ok {
				o.order = append(o.order, k)
			}
			o.vals[k] = fmt.Sprintf("%d %s", a.status, a.body)
		}
	}
	return o
}

func compare(a, b outcome, class, what string) *core.Violation {
	keys := append([]string(nil), a.order...)
	for _, k := range b.order {
		if _, ok := a.vals[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if a.vals[k] != b.vals[k] {
			return core.V(class, "%s: %s answers %q in one run and %q in the other", what, k, a.vals[k], b.vals[k])
		}
	}
	return nil
}

// matters reports whether a collation uses a field of that name.
func (sc *Scenario) matters(name string) bool {
	for _, c := range sc.Colls {
		for _, k := range c.Keys {
			if k == name {
				return true
			}
		}
		for _, f := range c.Fields {
			if f.F == name {
				return true
			}
		}
	}
	return false
}

// repack divides the same observations, in the same order, differently.
func repack(r *sim.RNG, sc *Scenario, reqs []Req) []Req {
	var rows []RowDef
	for _, q := range reqs {
		rows = append(rows, q.Rows...)
	}
	g := &gen{r: r, p: base(), sc: sc}
	var out []Req
	for len(rows) > 0 {
		n := r.Range(1, len(rows))
		if r.Chance(0.5) {
			n = r.Range(1, 3)
			if n > len(rows) {
				n = len(rows)
			}
		}
		q := Req{Kind: "upload"}
		for _, row := range rows[:n] {
			row.FVs = append([]FV(nil), row.FVs...)
			for i := len(row.FVs) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				row.FVs[i], row.FVs[j] = row.FVs[j], row.FVs[i]
			}
			for r.Chance(0.12) {
				// an empty field
				j := r.Intn(len(row.FVs) + 1)
				row.FVs = append(row.FVs[:j], append([]FV{{B: true}}, row.FVs[j:]...)...)
			}
			if r.Chance(0.3) {
				x := FV{F: pick(r, []string{"noise", "zz", "ide", "kk", "K", "n.1", ""}), V: g.text()}
				j := r.Intn(len(row.FVs) + 1)
				if !sc.matters(x.F) {
					row.FVs = append(row.FVs[:j], append([]FV{x}, row.FVs[j:]...)...)
				}
			}
			q.Rows = append(q.Rows, row)
		}
		g.pack(&q)
		g.transport(&q)
		g.dress(&q)
		out = append(out, q)
		rows = rows[n:]
	}
	return out
}

func registerDifferential() {
	onlyUploads := prof(func(p *profile) {
		p.clients = [2]int{1, 1}
		p.reqs = [2]int{2, 6}
		p.rows = [2]int{1, 6}
		p.queryP = 0
		p.fields = [2]int{1, 3}
		p.demoP = 0.15
		p.clockP = 0
	})
	core.Register(&core.Prop{
		ID: "C10", Quick: 24000,
		Gen: func(r *sim.RNG, th bool) interface{} {
			if r.Chance(0.03) {
				sc := bulkScenario(r, th, false)
				sc.Clients, sc.Bulk.NCl = nil, 1
				return sc
			}
			p := onlyUploads
			if th && r.Chance(0.3) {
				p.reqs[1], p.rows[1] = 10, 12
			}
			sc := generate(r, p)
			sc.Mode = "packaging"
			sc.Clients = sc.Clients[:1]
			sc.Variant = repack(r, sc, sc.Clients[0])
			// concurrent deliveries of the same observations, each client its part
			return sc
		},
		Decode: decode,
		Run: func(r *core.Run, x interface{}) *core.Violation {
			sc := x.(*Scenario)
			want := cls(general, content, "value", "refused", "query-refused", "missing-measure", "unique")
			if sc.Bulk != nil {
				return bulkPackaging(r, sc, want)
			}
			var canon []Req
			for _, q := range sc.Clients[0] {
				for _, row := range q.Rows {
					l := []RowDef{row}
					canon = append(canon, Req{Kind: "upload", Rows: l, Delim: usableDelim(delimTest(l)), CT: "text/plain"})
				}
			}
			var outs []outcome
			for i, reqs := range [][]Req{canon, sc.Clients[0], sc.Variant} {
				h := run(r, []string{"one observation per upload", "packaged", "packaged differently"}[i], true, sc, [][]Req{reqs})
				h.probe(r)
				if v := h.check().first(want); v != nil {
					return v
				}
				outs = append(outs, h.finals())
			}
			r.NonTriv = true
			if v := compare(outs[0], outs[1], "packaging", "the same observations packaged differently"); v != nil {
				return v
			}
			return compare(outs[0], outs[2], "packaging", "the same observations packaged differently")
		},
		Shrink: shrinkVariant, Rule: "every run compares three executions with different packaging, delivery and schedule; distinct means a distinct hash of all scheduling decisions and histories",
		Real: realParts, Stub: stubParts, Need: []string{"upload-acknowledged", "query-with-values", "split-delivery"},
	})

	clocky := prof(func(p *profile) {
		p.clockP = 1
		p.gapP = 0.5
		p.queryP = 0.15
		p.rows = [2]int{1, 5}
		p.fields = [2]int{1, 3}
	})
	core.Register(&core.Prop{
		ID: "C11", Quick: 40000,
		Gen: func(r *sim.RNG, th bool) interface{} {
			if r.Chance(0.5) {
				sc := generate(r, big(th, r, clocky))
				retime(r, sc.Clients)
				return sc
			}
			p := onlyUploads
			p.clockP = 1
			p.gapP = 0.4
			sc := generate(r, p)
			sc.Mode = "clock"
			sc.Clients = sc.Clients[:1]
			moreClock(r, sc)
			for _, q := range sc.Clients[0] {
				q.Rows = append([]RowDef(nil), q.Rows...)
				sc.Variant = append(sc.Variant, q)
			}
			retime(r, [][]Req{sc.Variant})
			return sc
		},
		Decode: decode,
		Run: func(r *core.Run, x interface{}) *core.Violation {
			sc := x.(*Scenario)
			want := cls(general, content, "value", "snapshot", "refused", "query-refused", "missing-measure", "unique", "backwards", "not-serial")
			if sc.Mode != "clock" {
				return runStd(r, sc, want)
			}
			steady := *sc
			steady.Clock = nil
			a := run(r, "steady clock", true, &steady, steady.Clients)
			b := run(r, "jumping clock, other timestamps", true, sc, [][]Req{sc.Variant})
			for _, h := range []*history{a, b} {
				h.probe(r)
				if v := h.check().first(want); v != nil {
					return v
				}
			}
			r.NonTriv = true
			return compare(a.finals(), b.finals(), "clock", "the same observations with other timestamps and a jumping clock")
		},
		Shrink: shrinkVariant, Rule: ruleConc + "; half of the runs compare two executions that differ only in clock and timestamps",
		Real: realParts, Stub: stubParts, Need: []string{"upload-acknowledged", "query-with-values", "clock-jump"},
	})

	// C19: queries change nothing
	p19 := prof(func(p *profile) {
		p.clients = [2]int{1, 1}
		p.reqs = [2]int{2, 6}
		p.rows = [2]int{1, 4}
		p.queryP = 0
		p.keyVals = [2]int{1, 4}
		p.demoP = 0.05
		p.bigSlotsP = 0.1
	})
	q19 := prof(func(p *profile) {
		p.reqs = [2]int{1, 6}
	})
	core.Register(&core.Prop{
		ID: "C19", Quick: 40000,
		Gen: func(r *sim.RNG, th bool) interface{} {
			sc := generate(r, big(th, r, p19))
			if len(sc.Clients) > 1 {
				sc.Clients = sc.Clients[:1]
			}
			sc.Mode = "queries"
			g := &gen{r: r, p: q19, sc: sc, vals: map[string][]string{}, next: maxIDs}
			g.naming()
			g.vals["country"], g.vals["tz"] = keyPool, keyPool
			for i := range sc.Colls {
				for _, f := range sc.Colls[i].Keys {
					g.vals[f] = keyPool // mostly keys never observed
				}
			}
			// tables with exactly the room the uploads need
			if !sc.Demo && r.Chance(0.6) {
				keys := keysOf(sc.Colls, sc.Clients)
				for i := range sc.Colls {
					if n := len(keys[i]); n > 0 && n <= 8 {
						sc.Colls[i].Slots = n
					}
				}
			}
			for i := r.Range(3, 12); i > 0; i-- {
				var q Req
				if r.Chance(0.3) {
					q = g.raw()
				} else {
					q = g.query()
					// keys that are observed, sometimes
					if r.Chance(0.4) && len(sc.Clients[0]) > 0 {
						up := sc.Clients[0][r.Intn(len(sc.Clients[0]))]
						if len(up.Rows) > 0 {
							row := up.Rows[r.Intn(len(up.Rows))]
							for k := range q.Crit {
								if v, ok := row.get(q.Crit[k].F); ok {
									q.Crit[k].V = v
								}
							}
						}
					}
					if r.Chance(0.15) {
						q.Crit = q.Crit[:0]
						q.Crit = append(q.Crit, FV{F: "nokey", V: "x"})
					}
				}
				g.transport(&q)
				if r.Chance(0.2) {
					q.Fault = pick(r, []string{"rstafter", "finafter", "rst"})
					q.At = r.Intn(60)
				}
				sc.Extra = append(sc.Extra, q)
			}
			return sc
		},
		Decode: decode,
		Run: func(r *core.Run, x interface{}) *core.Violation {
			sc := x.(*Scenario)
			want := cls(general, content, "value", "snapshot", "refused", "query-refused", "missing-measure", "wrong-status", "unique")
			a := run(r, "uploads alone", true, sc, sc.Clients)
			half := len(sc.Extra) / 2
			// the queried keys are asked for at the end of both runs
			b := run(r, "uploads and queries", true, sc, append(append([][]Req{}, sc.Clients...), sc.Extra[:half], sc.Extra[half:]))
			for _, h := range []*history{a, b} {
				h.probe(r)
				if v := h.check().first(want); v != nil {
					return v
				}
			}
			fa, fb := a.finals(), b.finals()
			// keys only the queries named
			for k := range fb.vals {
				if _, ok := fa.vals[k]; !ok {
					delete(fb.vals, k)
				}
			}
			fb.order = nil
			return compare(fa, fb, "query-effect", "the same uploads with and without queries")
		},
		Shrink: shrink, Rule: ruleConc + "; every run compares the uploads alone with the uploads and queries together",
		Real: realParts, Stub: stubParts, Need: []string{"upload-acknowledged", "query-with-values", "query-empty", "overlapping-requests", "request-refused"},
	})
}

// moreClock adds clock jumps that fall between the uploads.
func moreClock(r *sim.RNG, sc *Scenario) {
	for i := r.Range(1, 4); i > 0; i-- {
		at := int64(r.Range(0, 400)) * 1000
		if r.Chance(0.5) {
			at = int64(r.Range(0, 100)) * 500 * ms
		}
		sc.Clock = append(sc.Clock, ClockStep{At: at, Delta: []int64{-1, 1, -3600_000 * ms, 3600_000 * ms, -90 * 86400_000 * ms, 90 * 86400_000 * ms}[r.Intn(6)]})
	}
}

// retime gives observations unusual timestamps.
func retime(r *sim.RNG, clients [][]Req) {
	pool := []string{"0", "1", "0000000000000000089", "010", "00000000000000000001", "1500000000000000", "9223372036854775807", "1700000000000000", "4102444800000000", "253402300800000000", "9223372036854775", "1"}
	same := pick(r, pool)
	all := r.Chance(0.3)
	for i := range clients {
		for j := range clients[i] {
			for k := range clients[i][j].Rows {
				row := &clients[i][j].Rows[k]
				if row.Raw != "" {
					continue
				}
				if all {
					row.TS = same
				} else if r.Chance(0.7) {
					row.TS = pick(r, pool)
				} else {
					row.TS = strconv.FormatUint(r.U64()>>uint(1+r.Intn(60)), 10)
				}
			}
		}
	}
}

// shrinkVariant drops whole observations from both packagings.
func shrinkVariant(x interface{}) []interface{} {
	s := x.(*Scenario)
	if s.Mode == "" || s.Bulk != nil {
		return shrink(x)
	}
	var out []interface{}
	n := 0
	for _, q := range s.Clients[0] {
		n += len(q.Rows)
	}
	cut := func(reqs []Req, i int) []Req {
		var o []Req
		k := 0
		for _, q := range reqs {
			var rows []RowDef
			for _, row := range q.Rows {
				if k != i {
					rows = append(rows, row)
				}
				k++
			}
			q.Rows = rows
			if len(rows) > 0 {
				o = append(o, q)
			}
		}
		return o
	}
	for i := 0; i < n && n > 1; i++ {
		c := *s
		c.Clients = [][]Req{cut(s.Clients[0], i)}
		c.Variant = cut(s.Variant, i)
		out = append(out, &c)
	}
	for _, y := range shrink(x) {
		m := 0
		for _, q := range y.(*Scenario).Clients[0] {
			m += len(q.Rows)
		}
		if m == n {
			out = append(out, y)
		}
	}
	return out
}
