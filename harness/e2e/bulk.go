package e2e

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/zzharness/core"
	sim "github.com/iand/starbow/internal/zzvsim"
)

// BulkSpec describes a large number of plain observations: more of them on one
// key, longer bodies and more equal lines than the decodable workloads can
// have. Content is drawn from Seed, packaging from Pack.
type BulkSpec struct {
	Seed   uint64 `json:"seed"`
	Pack   uint64 `json:"pack"`
	N      int    `json:"n"`
	Keys   int    `json:"keys"`
	NCl    int    `json:"clients"`
	Per    int    `json:"per"`           // observations per upload
	Vals   string `json:"vals"`          // kind of values
	Pad    int    `json:"pad"`           // padding per observation, up to
	Same   int    `json:"same"`          // percentage of lines that repeat the line before
	TS     int    `json:"ts"`            // 0 random, 1 all the same, 2 ascending, 3 descending
	Absent int    `json:"absent"`        // percentage of observations without a field
	Var    bool   `json:"var,omitempty"` // vary the packaging
	Cut    int    `json:"cut,omitempty"` // the last upload is cut at that thousandth of its body
	Fault  string `json:"fault,omitempty"`
}

var bulkKinds = []string{"one", "small", "small", "offset", "mixed", "const", "negative", "sign", "decimal"}

func (b *BulkSpec) value(r *sim.RNG, i int) string {
	switch b.Vals {
	case "one":
		return "1"
	case "small":
		return strconv.Itoa(r.Range(0, 9))
	case "offset":
		return strconv.Itoa(1_000_000_000 + r.Range(0, 9))
	case "const":
		return "1234567.25"
	case "negative":
		return strconv.Itoa(-r.Range(1, 1000))
	case "sign":
		if i%2 == 0 {
			return strconv.Itoa(r.Range(1, 1000))
		}
		return strconv.Itoa(-r.Range(1, 1000))
	case "decimal":
		return strconv.FormatFloat(float64(r.Range(-100000, 100000))/1000, 'f', 3, 64)
	}
	switch r.Intn(4) {
	case 0:
		return pick(r, numTexts)
	case 1:
		return strconv.FormatFloat(float64(r.Range(-4000, 4000))/64, 'e', -1, 64)
	case 2:
		return strconv.Itoa(r.Range(-1_000_000, 1_000_000))
	}
	return strconv.FormatFloat(float64(r.Range(1, 1000))*1e-6, 'g', -1, 64)
}

func (b *BulkSpec) rows() []RowDef {
	r := sim.NewRNG(b.Seed)
	var rows []RowDef
	base := 1_600_000_000_000_000
	for i := 0; i < b.N; i++ {
		if len(rows) > 0 && r.Intn(100) < b.Same {
			rows = append(rows, rows[len(rows)-1])
			continue
		}
		row := RowDef{ID: -1}
		switch b.TS {
		case 0:
			row.TS = strconv.Itoa(r.Range(1, 2_000_000_000))
		case 1:
			row.TS = strconv.Itoa(base)
		case 2:
			row.TS = strconv.Itoa(base + i)
		case 3:
			row.TS = strconv.Itoa(base - i)
		}
		row.FVs = append(row.FVs, FV{F: "k", V: fmt.Sprintf("key%d", r.Intn(b.Keys))})
		if r.Intn(100) >= b.Absent {
			row.FVs = append(row.FVs, FV{F: "a", V: b.value(r, i)})
		}
		if r.Intn(100) >= b.Absent {
			row.FVs = append(row.FVs, FV{F: "u", V: "u" + strconv.Itoa(r.Intn(40))})
		}
		if b.Pad > 0 && r.Chance(0.7) {
			n := r.Range(1, b.Pad)
			row.FVs = append(row.FVs, FV{F: "pad", V: strings.Repeat("p", n)})
			if r.Chance(0.5) {
				j := r.Intn(len(row.FVs))
				row.FVs[j], row.FVs[len(row.FVs)-1] = row.FVs[len(row.FVs)-1], row.FVs[j]
			}
		}
		rows = append(rows, row)
	}
	return rows
}

func (b *BulkSpec) expand(sc *Scenario) [][]Req {
	rows := b.rows()
	r := sim.NewRNG(b.Pack)
	g := &gen{r: r, p: base(), sc: sc}
	clients := make([][]Req, b.NCl)
	for i := 0; len(rows) > 0; i++ {
		n := b.Per
		if n > len(rows) {
			n = len(rows)
		}
		q := Req{Kind: "upload", Delim: "\t", CT: "text/plain", Rows: rows[:n]}
		if b.Var {
			g.pack(&q)
			if b.N*b.Pad > 20_000_000 {
				// forms may be limited to ten megabytes
				q.CT, q.Chunked, q.Frames = "application/octet-stream", false, nil
			}
			if r.Chance(0.3) {
				q.Segs = []int{pickInt(r, []int{1000, 4096, 1460, 65536})}
			}
		} else if b.Per > 20 && r.Chance(0.3) {
			q.Segs = []int{pickInt(r, []int{1000, 4096, 1460, 65536})}
		}
		for j := range q.Frames {
			q.Frames[j] = q.Frames[j]*64 + j
		}
		rows = rows[n:]
		clients[i%b.NCl] = append(clients[i%b.NCl], q)
	}
	if b.Cut > 0 {
		// in the last upload of the first client
		l := clients[0]
		q := &l[len(l)-1]
		w := q.wire(sc.Colls)
		q.Fault = b.Fault
		q.At = len(w.bytes) * b.Cut / 1000
		if q.At >= len(w.bytes) {
			q.At = len(w.bytes) - 1
		}
	}
	return clients
}

func (sc *Scenario) expand() [][]Req {
	switch {
	case sc.Bulk != nil:
		return append(sc.Bulk.expand(sc), sc.Clients...)
	case sc.Marathon != nil:
		return sc.Marathon.expand(sc)
	case sc.Uniq != nil:
		return sc.Uniq.expand(sc)
	}
	return sc.Clients
}

// bulkScenario draws a large workload. cut: uploads may be cut.
func bulkScenario(r *sim.RNG, thorough, cut bool) *Scenario {
	b := &BulkSpec{Seed: r.U64(), Pack: r.U64(), Vals: pick(r, bulkKinds), Keys: pickInt(r, []int{1, 1, 2, 5}), NCl: r.Range(1, 3),
		TS: r.Intn(4), Absent: pickInt(r, []int{0, 0, 20, 50}), Same: pickInt(r, []int{0, 30, 60})}
	switch r.Intn(10) {
	default:
		b.N = r.Range(10, 120)
	case 0, 1, 2:
		b.N = r.Range(200, 800)
	case 3:
		b.N = r.Range(20, 150)
		b.Pad = pickInt(r, []int{100, 3000, 30000}) // bodies of up to megabytes
	}
	if r.Chance(0.01) || thorough && r.Chance(0.01) {
		b.N, b.Pad = r.Range(66_000, 70_000), 0
		b.Keys, b.NCl, b.Absent = 1, 1, 0
	}
	huge := r.Chance(0.01)
	if huge { // one body of ten megabytes
		b.N, b.Pad = r.Range(420, 560), 60_000
	}
	b.Per = pickInt(r, []int{1, 3, 20, 200, 1000})
	if b.N > 200 && b.Per < 20 {
		b.Per = 20
	}
	if b.N > 10_000 {
		b.Per = r.Range(10_000, b.N)
	}
	if b.N*b.Pad > 100_000 && (huge || r.Chance(0.7)) {
		b.Per = b.N
	}
	if cut {
		b.NCl = 1
		b.Cut, b.Fault = r.Range(1, 999), pick(r, []string{"fin", "rst", "fin"})
	}
	g := &gen{r: r, p: base()}
	sc := &Scenario{Final: true, Mode: "bulk", Bulk: b, Repeat: 1}
	c := CollDef{Name: "col0", Keys: []string{"k"}, Count: true, Slots: pickInt(r, []int{5, 8, 11, 40}),
		Fields: []FieldDef{{F: "a", M: g.measures(true)}}}
	if r.Chance(0.5) {
		c.Fields = append(c.Fields, FieldDef{F: "u", M: []MeasureDef{{"uniquecount", r.Range(4, 10)}}})
	}
	if r.Chance(0.2) {
		c.Fields = append(c.Fields, FieldDef{F: "k", M: []MeasureDef{{"uniquecount", 5}}})
	}
	sc.Colls = []CollDef{c}
	if r.Chance(0.2) {
		d := c
		d.Name, d.Fields = "col1", []FieldDef{{F: "a", M: g.measures(false)}}
		sc.Colls = append(sc.Colls, d)
	}
	// a client that keeps asking
	if r.Chance(0.4) && b.N < 1000 {
		var l []Req
		for i := r.Range(1, 8); i > 0; i-- {
			ci := r.Intn(len(sc.Colls))
			q := *fullQuery(sc.Colls, ci, fmt.Sprintf("key%d", r.Intn(b.Keys)))
			q.Method, q.ViaURL = "GET", true
			q.Think = []int64{0, 1000, 50_000, 1 * ms}[r.Intn(4)]
			l = append(l, q)
		}
		sc.Clients = append(sc.Clients, l)
	}
	return sc
}

// shrinkBulk proposes smaller bulk workloads.
func shrinkBulk(s *Scenario) []interface{} {
	var out []interface{}
	try := func(f func(u *BulkSpec)) {
		c, u := *s, *s.Bulk
		f(&u)
		if u != *s.Bulk && u.N > 0 && u.Per > 0 {
			c.Bulk = &u
			out = append(out, &c)
		}
	}
	for i := range s.Clients {
		c := *s
		c.Clients = append(append([][]Req{}, s.Clients[:i]...), s.Clients[i+1:]...)
		out = append(out, &c)
	}
	try(func(u *BulkSpec) { u.N /= 2 })
	try(func(u *BulkSpec) { u.N = u.N * 3 / 4 })
	try(func(u *BulkSpec) { u.N = u.N * 15 / 16 })
	try(func(u *BulkSpec) { u.N-- })
	try(func(u *BulkSpec) { u.NCl = 1 })
	try(func(u *BulkSpec) { u.Keys = 1 })
	try(func(u *BulkSpec) { u.Absent = 0 })
	try(func(u *BulkSpec) { u.Pad = 0 })
	try(func(u *BulkSpec) { u.Same = 0 })
	try(func(u *BulkSpec) { u.TS = 0 })
	try(func(u *BulkSpec) { u.Per = u.N })
	try(func(u *BulkSpec) { u.Vals = "one" })
	return out
}

// bulkPackaging compares two packagings of the same large workload.
func bulkPackaging(r *core.Run, sc *Scenario, want map[string]bool) *core.Violation {
	var outs []outcome
	for i := 0; i < 2; i++ {
		b := *sc.Bulk
		if i == 1 {
			b.Pack, b.Var = b.Pack+1, true
			b.Per = 1 + int(sim.NewRNG(b.Pack).U64()%uint64(b.N))
			if b.Per < b.N/40 {
				b.Per = b.N / 40
			}
		}
		c := *sc
		c.Bulk = &b
		h := run(r, []string{"packaged", "packaged differently"}[i], true, &c, c.expand())
		h.probe(r)
		if v := h.check().first(want); v != nil {
			return v
		}
		outs = append(outs, h.finals())
	}
	r.NonTriv = true
	return compare(outs[0], outs[1], "packaging", "the same observations packaged differently")
}

// lapScenario draws a workload in which queries of a key stall inside the
// server while one client's uploads to that key go on.
func lapScenario(r *sim.RNG) *Scenario {
	g := &gen{r: r, p: base()}
	c := CollDef{Name: "col0", Keys: []string{"k"}, Count: true, Slots: pickInt(r, []int{1, 5, 8, 11, 40}), Fields: []FieldDef{{F: "a", M: g.measures(true)}}}
	if r.Chance(0.2) {
		c.Fields = append(c.Fields, FieldDef{F: "u", M: []MeasureDef{{"uniquecount", r.Range(4, 8)}}})
	}
	sc := &Scenario{Final: true, Repeat: 1, Mode: "lap", Colls: []CollDef{c}}
	b := &BulkSpec{Seed: r.U64(), Vals: pick(r, bulkKinds), Keys: 1}
	n := pickInt(r, []int{1, 2, 4, 8, 32, 64, 64, 127, 128, 128, 128, 128, 129, 255, 256})
	k := r.Range(1, 3)
	b.N = n*k + 4
	rows := b.rows()
	up := func(n int) Req {
		q := Req{Kind: "upload", Delim: "\t", CT: "text/plain", Rows: rows[:n]}
		rows = rows[n:]
		return q
	}
	a := []Req{up(r.Range(1, 4))}
	var l []Req
	for i := 0; i < k; i++ {
		q := *fullQuery(sc.Colls, 0, "key0")
		q.Method, q.ViaURL = "GET", true
		q.Stall, q.Until = r.Range(100, 2500), 1
		q.Gate = i == 0
		l = append(l, q)
		u := up(n)
		u.Gate = true
		a = append(a, u)
	}
	l[0].Think, l[0].Gate = 10*ms, false
	sc.Clients = [][]Req{a, l}
	return sc
}
