package e2e

import (
	"fmt"
	"strconv"
	"strings"

	sim "github.com/iand/starbow/internal/zzvsim"
)

// MarathonSpec describes very many small requests for many keys, by which the
// server meets counts of requests, keys and different queries that short
// workloads do not reach.
type MarathonSpec struct {
	Seed uint64 `json:"seed"`
	N    int    `json:"n"` // requests
	NCl  int    `json:"clients"`
	Keys int    `json:"keys"`
	Up   int    `json:"up"`   // percentage of uploads
	Odd  int    `json:"odd"`  // percentage of refused requests
	Kind int    `json:"kind"` // of refused requests: 0 all, else only one of them
	Cut  int    `json:"cut"`  // percentage of requests that meet a fault
	Keep bool   `json:"keep"` // clients keep their connections
	Held int    `json:"held"` // clients that stop in the middle of an upload while the others go on
	New  bool   `json:"new"`  // keys in order of appearance, each used for a while
}

// how many kinds of refused requests there are
const oddKinds = 8

func (m *MarathonSpec) expand(sc *Scenario) [][]Req {
	r := sim.NewRNG(m.Seed)
	g := &gen{r: r, p: base(), sc: sc, kf: []string{"k"}, vals: map[string][]string{"k": {"key0", "key1"}}}
	g.p.faultP, g.p.faults = 1, []string{"rst", "fin", "rstafter", "finafter", "rst", "fin", "stall"}
	b := &BulkSpec{Vals: pick(r, bulkKinds), Absent: 10}
	clients := make([][]Req, m.NCl)
	for i := 0; i < m.N; i++ {
		k := r.Intn(m.Keys)
		if m.New {
			// the newest keys, and some old ones
			k = i * m.Keys / m.N
			if r.Chance(0.4) {
				k = r.Intn(k + 1)
			}
		}
		key := "key" + strconv.Itoa(k)
		var q Req
		switch {
		case r.Intn(100) < m.Odd:
			kind := m.Kind
			if kind == 0 {
				kind = r.Range(1, oddKinds)
			}
			row := RowDef{ID: -1, TS: "1", FVs: []FV{{F: "k", V: key}, {F: "a", V: "1"}}}
			q = Req{Kind: "upload", Delim: "\t", CT: "text/plain"}
			switch kind {
			case 1:
				row.FVs[1].V = "x" + strconv.Itoa(i)
				q.Rows = []RowDef{row}
			case 2:
				q.Rows = []RowDef{g.bad(RowDef{ID: -1})}
			case 3: // refused after something was recorded
				q.Rows = []RowDef{row, row, g.bad(RowDef{ID: -1}), row}[r.Intn(3):]
			case 4:
				if row.FVs = append(row.FVs, FV{F: "pad", V: strings.Repeat("p", 70_000)}); r.Chance(0.8) {
					row.FVs[2].V = row.FVs[2].V[:4_000]
					row.FVs[1].V = ""
				}
				row.Opt = len(row.FVs[2].V) > 60_000
				q.Rows = []RowDef{row}
			case 5:
				q = Req{Kind: "raw", Raw: fmt.Sprintf("GET /collation/c%d?q=select+count(*)+where+k%%3D'a' HTTP/1.1\r\nHost: x\r\n\r\n", i), Want: 404}
			case 6:
				q = Req{Kind: "raw", Raw: fmt.Sprintf("GET /collation/col0?q=select+count(*)+%d HTTP/1.1\r\nHost: x\r\n\r\n", i), Want: 4}
			case 7:
				q = *fullQuery(sc.Colls, 0, "none"+strconv.Itoa(i))
				q.Method, q.ViaURL = "GET", true
			case 8:
				q = g.odd()
			}
		case r.Intn(100) < m.Up:
			q = Req{Kind: "upload", Delim: "\t", CT: "text/plain"}
			for n := pickInt(r, []int{1, 1, 1, 2, 3}); n > 0; n-- {
				row := RowDef{ID: -1, TS: strconv.Itoa(1_600_000_000_000_000 + i), FVs: []FV{{F: "k", V: key}}}
				if r.Intn(100) >= b.Absent {
					row.FVs = append(row.FVs, FV{F: "a", V: b.value(r, i)})
				}
				if r.Intn(100) >= b.Absent {
					row.FVs = append(row.FVs, FV{F: "u", V: "u" + strconv.Itoa(r.Intn(40))})
				}
				q.Rows = append(q.Rows, row)
				if r.Chance(0.5) {
					key = "key" + strconv.Itoa(r.Intn(m.Keys))
				}
			}
			if r.Chance(0.3) {
				g.pack(&q)
			}
		default:
			ci := r.Intn(len(sc.Colls))
			q = *fullQuery(sc.Colls, ci, key)
			q.Method, q.ViaURL = pick(r, []string{"GET", "GET", "GET", "POST"}), true
			q.Style = pickInt(r, []int{0, 0, 0, r.Intn(64)})
			if r.Chance(0.3) {
				for i := len(q.Sel) - 1; i > 0; i-- {
					j := r.Intn(i + 1)
					q.Sel[i], q.Sel[j] = q.Sel[j], q.Sel[i]
				}
			}
		}
		q.Keep = m.Keep
		if r.Intn(100) < m.Cut && q.Kind != "raw" {
			g.fault(&q)
		}
		if r.Chance(0.05) {
			q.Think = []int64{1000, 1 * ms, 1100 * ms, 61_000 * ms}[r.Intn(4)]
		}
		c := i % m.NCl
		clients[c] = append(clients[c], q)
	}
	for c := 0; c < m.Held; c++ {
		q := Req{Kind: "upload", Delim: "\t", CT: "text/plain", Fault: pick(r, []string{"stall", "stallresume"})}
		for i := r.Range(1, 3); i > 0; i-- {
			q.Rows = append(q.Rows, RowDef{ID: -1, TS: "5", FVs: []FV{{F: "k", V: "key" + strconv.Itoa(r.Intn(m.Keys))}, {F: "u", V: "h" + strconv.Itoa(c)}}})
		}
		if r.Chance(0.5) {
			g.pack(&q)
		}
		w := q.wire(sc.Colls)
		q.At = len(w.bytes) - r.Intn(40)
		clients = append(clients, []Req{q})
	}
	return clients
}

func marathonScenario(r *sim.RNG, thorough bool) *Scenario {
	m := &MarathonSpec{Seed: r.U64(), N: r.Range(150, 420), NCl: r.Range(1, 3), Keys: pickInt(r, []int{3, 40, 150, 300}), Up: r.Range(20, 70),
		Odd: pickInt(r, []int{0, 5, 30, 80, 80}), Kind: pickInt(r, []int{0, 0, r.Range(1, oddKinds)}), Cut: pickInt(r, []int{0, 0, 0, 10, 50}), Held: pickInt(r, []int{0, 0, 1, 1, 3, 12, 40}), Keep: r.Chance(0.5), New: r.Chance(0.4)}
	if r.Chance(0.15) {
		m.N, m.Keys = r.Range(1050, 1300), pickInt(r, []int{3, 40, 600})
	}
	g := &gen{r: r, p: base()}
	sc := &Scenario{Final: true, Mode: "marathon", Marathon: m, Repeat: 1}
	c := CollDef{Name: "col0", Keys: []string{"k"}, Count: true, Slots: pickInt(r, []int{1000, 5000, 4999}), Fields: []FieldDef{{F: "a", M: g.measures(true)}}}
	if r.Chance(0.5) {
		c.Fields = append(c.Fields, FieldDef{F: "u", M: []MeasureDef{{"uniquecount", r.Range(4, 8)}}})
	}
	sc.Colls = []CollDef{c}
	if r.Chance(0.3) {
		d := c
		d.Name, d.Fields = "col1", []FieldDef{{F: "a", M: g.measures(false)}}
		sc.Colls = append(sc.Colls, d)
	}
	return sc
}

func shrinkMarathon(s *Scenario) []interface{} {
	var out []interface{}
	try := func(f func(u *MarathonSpec)) {
		c, u := *s, *s.Marathon
		f(&u)
		if u != *s.Marathon && u.N > 0 {
			c.Marathon = &u
			out = append(out, &c)
		}
	}
	try(func(u *MarathonSpec) { u.N /= 2 })
	try(func(u *MarathonSpec) { u.N = u.N * 3 / 4 })
	try(func(u *MarathonSpec) { u.N = u.N * 15 / 16 })
	try(func(u *MarathonSpec) { u.N-- })
	try(func(u *MarathonSpec) { u.NCl = 1 })
	try(func(u *MarathonSpec) { u.Odd = 0 })
	try(func(u *MarathonSpec) { u.Cut = 0 })
	try(func(u *MarathonSpec) { u.Held = 0 })
	try(func(u *MarathonSpec) { u.Held = 1 })
	try(func(u *MarathonSpec) { u.Held /= 2 })
	try(func(u *MarathonSpec) { u.Keep = false })
	try(func(u *MarathonSpec) { u.Keys = 1 })
	return out
}
