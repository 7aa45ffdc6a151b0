package e2e

import (
	"fmt"
	"net/url"
	"strconv"
	"strings"

	sim "github.com/iand/starbow/internal/zzvsim"
)

// profile shapes generated workloads.
type profile struct {
	clients    [2]int
	reqs       [2]int
	rows       [2]int
	colls      [2]int
	keyVals    [2]int  // distinct values per key field
	queryP     float64 // chance that a request is a query
	faultP     float64 // chance that a request meets a fault
	faults     []string
	badP       float64 // chance that a row is malformed or invalid
	rawP       float64 // chance of a malformed or odd request
	packVar    bool    // vary content types, delimiters, framing
	splitP     float64 // chance that delivery is split
	gapP       float64
	multiKeyP  float64
	demoP      float64
	clockP     float64
	fields     [2]int
	absentP    float64 // chance that a measured field is absent from a row
	slotsTight bool
	firstBad   float64
	bigSlotsP  float64
	fatP       float64 // chance that rows carry long padding
	stallP     float64 // chance that server threads stall
	keepP      float64 // chance that clients keep their connections
}

func base() profile {
	return profile{clients: [2]int{2, 4}, reqs: [2]int{1, 4}, rows: [2]int{1, 4}, colls: [2]int{1, 2}, keyVals: [2]int{1, 3}, queryP: 0.4,
		packVar: true, splitP: 0.3, gapP: 0.2, multiKeyP: 0.25, demoP: 0.05, clockP: 0.1, fields: [2]int{0, 3}, absentP: 0.2, bigSlotsP: 0.2, fatP: 0.1, stallP: 0.04, keepP: 0.2}
}

var keyPool = []string{"a\x00b", "\x00", "a\x00", "\xff\xfe", "tab\there", " a", "a ", "a,b", "a|b", "a;b", "no where to go", "select x where y", "it is (sum)", "100%", "a&b+c", "日本", "a", "A", "Zz", "b", "c", "GB", "FR", "zz", "x1", "x2", "é", "0", "00", "long-value-with-many-characters-0123456789", "a b", "=", "a=b", "%2B", "%41", "+"}

const maxIDs = 46

type gen struct {
	r    *sim.RNG
	p    profile
	sc   *Scenario
	next int
	vals map[string][]string // key field -> values
	wide int                 // greatest number of further fields in rows
	fat  int                 // greatest length of padding in rows
	ts   string              // timestamp of every row, if not empty
	kf   []string            // names of key fields
	df   []string            // names of data fields
}

func pick(r *sim.RNG, l []string) string { return l[r.Intn(len(l))] }

func (g *gen) between(x [2]int) int { return g.r.Range(x[0], x[1]) }

var numTexts = []string{"0", "1", "-1", "2.5", "-2.5", "100", "1e3", "-1.5e2", "+7", "007", ".5", "5.", "0.125", "-0.0625", "12345.678", "-99999", "3.0000001", "1E-3", "010", "-010", "0100.5", "-08", "00", "1E+2", "9007199254740991", "1e-9", "-0", "+0.5"}

func (g *gen) num() string {
	switch g.r.Intn(4) {
	case 0:
		return pick(g.r, numTexts)
	case 1:
		return strconv.Itoa(g.r.Range(-1000, 1000))
	case 2:
		return strconv.FormatFloat(float64(g.r.Range(-4000, 4000))/8, 'g', -1, 64)
	}
	// all of one sign, so that initial zeros show
	if g.r.Chance(0.5) {
		return strconv.Itoa(-g.r.Range(1, 50))
	}
	return strconv.Itoa(g.r.Range(1, 50))
}

var measureNames = []string{"sum", "mean", "var", "max", "min", "uniquecount"}

func (g *gen) measures(sumToo bool) []MeasureDef {
	perm := []int{0, 1, 2, 3, 4, 5}
	for i := len(perm) - 1; i > 0; i-- {
		j := g.r.Intn(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	n := g.r.Range(1, 6)
	var out []MeasureDef
	has := false
	for _, i := range perm[:n] {
		m := MeasureDef{N: measureNames[i]}
		if m.N == "uniquecount" {
			m.P = g.r.Range(4, 8)
		}
		if m.N == "sum" {
			has = true
		}
		out = append(out, m)
	}
	if sumToo && !has {
		out = append(out, MeasureDef{N: "sum"})
		j := g.r.Intn(len(out))
		out[j], out[len(out)-1] = out[len(out)-1], out[j]
	}
	return out
}

// Key fields after the first have names that do not overlap themselves or
// occur in any value, so that the known finding of C05 cannot happen by chance.
var keyFirst = []string{"k", "K", "kk", "A", "user_id", "ts", "data", "é", "*", "k[0]"}
var keyRest = []string{"k2", "k3", "geo.country", "user-id", "ключ", "@tag", "time:zone"}
var dataPool = []string{"a", "b", "c", "A", "a.b", "height_cm", "Größe", "x-1", "aa", "id2", "sum", "a#b"}

// naming chooses the names of fields.
func (g *gen) naming() {
	g.kf, g.df = []string{"k", "k2", "k3"}, []string{"a", "b", "c"}
	if g.p.fields[1] > 3 {
		g.df = append(append([]string{}, dataPool[:3]...), dataPool[4:]...)
		return
	}
	if g.r.Chance(0.65) {
		return
	}
	g.kf[0] = pick(g.r, keyFirst)
	i := g.r.Intn(len(keyRest))
	g.kf[1], g.kf[2] = keyRest[i], keyRest[(i+1+g.r.Intn(len(keyRest)-1))%len(keyRest)]
	g.df = nil
	for len(g.df) < 3 {
		if f := pick(g.r, dataPool); !contains(g.df, f) && f != g.kf[0] {
			g.df = append(g.df, f)
		}
	}
}

// decoy is a name that differs a little from a name that matters.
func (g *gen) decoy(f string) string {
	r := g.r
	var d string
	switch rs := []rune(f); r.Intn(7) {
	case 0:
		d = strings.ToUpper(f)
	case 1:
		d = strings.ToLower(f)
	case 2:
		d = f + string(rs[:1])
	case 3:
		d = f + "x"
	case 4:
		d = string(rs[:len(rs)-1])
	case 5:
		d = "x" + f
	case 6:
		d = strings.Title(f)
	}
	if d == "" || d == f || d == "id" || contains(g.kf, d) || contains(g.df, d) {
		d = f + f + "_"
	}
	return d
}

// near adds values that differ little from the first.
func (g *gen) near(l []string) []string {
	base := pick(g.r, keyPool)
	if g.r.Chance(0.4) {
		base = strings.Repeat(pick(g.r, []string{"p", "long/", "0"}), g.r.Range(8, pickInt(g.r, []int{70, 70, 70, 70, 70, 70, 70, 70, 70, 1100}))) + base
	}
	variants := []string{strings.ToUpper(base), strings.ToLower(base), strings.Title(base), base + "0", "0" + base, base + base, base + "=", base + ".", base + "s", "=" + base, base + " ", " " + base, base + "\u0301", "+" + base, base + ".0"}
	want := len(l)
	l = []string{base}
	for len(l) < want {
		if v := pick(g.r, variants); !contains(l, v) {
			l = append(l, v)
		}
	}
	return l
}

func (g *gen) collection(i int) CollDef {
	c := CollDef{Name: fmt.Sprintf("col%d", i), Count: !g.r.Chance(0.1)}
	if i > 0 && g.r.Chance(0.15) {
		c.Name = pick(g.r, []string{"my.coll-1", "COL0", "ünï", "a b", "c%41"}) + strconv.Itoa(i)
	}
	if i == 0 || g.r.Chance(0.6) {
		c.Keys = []string{g.kf[0]}
	} else {
		c.Keys = []string{pick(g.r, g.kf)}
	}
	if g.r.Chance(g.p.multiKeyP) {
		if c.Keys[0] == g.kf[0] {
			c.Keys = append(c.Keys, g.kf[1])
		} else {
			c.Keys = append(c.Keys, g.kf[0])
		}
		if g.r.Chance(0.3) {
			// three keys, each at most once
			for _, f := range g.kf {
				if f != c.Keys[0] && f != c.Keys[1] {
					c.Keys = append(c.Keys, f)
				}
			}
		}
	}
	nf := g.between(g.p.fields)
	names := append([]string(nil), g.df...)
	pos := g.r.Intn(nf + 1)
	for j := 0; j <= nf; j++ {
		if j == pos {
			c.Fields = append(c.Fields, FieldDef{F: "id", M: g.measures(true)})
			continue
		}
		x := g.r.Intn(len(names))
		c.Fields = append(c.Fields, FieldDef{F: names[x], M: g.measures(false)})
		names = append(names[:x], names[x+1:]...)
	}
	if g.r.Chance(0.12) {
		c.Split = g.r.Range(1, 3)
	}
	return c
}

func (g *gen) setup() {
	g.naming()
	if !g.sc.Demo {
		n := g.between(g.p.colls)
		for i := 0; i < n; i++ {
			g.sc.Colls = append(g.sc.Colls, g.collection(i))
		}
	}
	g.vals = map[string][]string{}
	for _, f := range append([]string{"country", "tz"}, g.kf...) {
		n := g.between(g.p.keyVals)
		var l []string
		for len(l) < n {
			v := pick(g.r, keyPool)
			if !contains(l, v) {
				l = append(l, v)
			}
		}
		if n <= 9 && g.r.Chance(0.3) {
			l = g.near(l)
		}
		if len(l) >= 2 && g.r.Chance(0.04) {
			// their FNV-1 hashes after "k" agree in the low half, or in the high half
			x := [][2]string{{"3cc0a", "942a8"}, {"3cc08", "942aa"}, {"3db0a", "991a8"}, {"e215f", "100109"}, {"106e", "1098"}, {"1069", "109d"}, {"1000", "1001"}}[g.r.Intn(7)]
			l[0], l[1] = x[0], x[1]
		}
		g.vals[f] = l
	}
}

func containsSel(l []Sel, s Sel) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// slots sizes the tables so that all keys fit (or does not, in C08).
func (g *gen) slots() {
	keys := keysOf(g.sc.Colls, g.sc.Clients)
	for i := range g.sc.Colls {
		n := len(keys[i])
		if n == 0 {
			n = 1
		}
		switch {
		case g.r.Chance(g.p.bigSlotsP) && n <= 8:
			g.sc.Colls[i].Slots = g.r.Range(n, 200)
		case n <= 8:
			g.sc.Colls[i].Slots = g.r.Range(n, 11)
			if g.r.Chance(0.5) && n <= 8 {
				g.sc.Colls[i].Slots = n
			}
			if g.sc.Colls[i].Slots > 8 && n > 8 {
				g.sc.Colls[i].Slots = 200
			}
		default:
			g.sc.Colls[i].Slots = 4000
		}
	}
}

func (g *gen) row() RowDef {
	r := g.r
	row := RowDef{ID: -1, TS: strconv.Itoa(r.Range(1, 2_000_000_000))}
	if g.ts != "" && !r.Chance(0.1) {
		row.TS = g.ts
	}
	if g.sc.Demo {
		return g.demoRow(row)
	}
	for _, k := range g.kf {
		need := false
		for i := range g.sc.Colls {
			if contains(g.sc.Colls[i].Keys, k) {
				need = true
			}
		}
		if need && !r.Chance(0.12) {
			row.FVs = append(row.FVs, FV{F: k, V: pick(r, g.vals[k])})
		} else if need && r.Chance(0.4) {
			row.FVs = append(row.FVs, FV{F: g.decoy(k), V: pick(r, g.vals[k])})
		} else if !need && r.Chance(0.1) {
			row.FVs = append(row.FVs, FV{F: k, V: "other"})
		}
	}
	for _, f := range g.df {
		num, meas := false, false
		for i := range g.sc.Colls {
			if fd := g.sc.Colls[i].field(f); fd != nil {
				meas = true
				for _, m := range fd.M {
					if continuous(m.N) {
						num = true
					}
				}
			}
		}
		if (!meas && r.Chance(0.8)) || r.Chance(g.p.absentP) {
			continue
		}
		if num {
			row.FVs = append(row.FVs, FV{F: f, V: g.num()})
		} else {
			row.FVs = append(row.FVs, FV{F: f, V: g.text()})
		}
	}
	if g.next < maxIDs {
		row.ID = g.next
		g.next++
		row.FVs = append(row.FVs, FV{F: "id", V: strconv.FormatInt(weight(row.ID), 10)})
	} else {
		// no identities left: let it belong to no record
		var keep []FV
		for _, x := range row.FVs {
			if !contains(g.kf, x.F) {
				keep = append(keep, x)
			}
		}
		row.FVs = keep
	}
	if r.Chance(0.15) {
		row.FVs = append(row.FVs, FV{F: "noise", V: g.text()})
	}
	if r.Chance(0.05) {
		row.FVs = append(row.FVs, FV{F: "flag", B: true})
	}
	if r.Chance(0.12) {
		d := FV{F: g.decoy(pick(r, []string{g.kf[0], g.kf[1], g.df[0], g.df[1], "id"})), V: g.num()}
		if r.Chance(0.4) {
			d.V = g.text()
		}
		if _, dup := row.get(d.F); !dup {
			row.FVs = append(row.FVs, d)
		}
	}
	if r.Chance(0.04) {
		// a field without a name
		x := FV{F: "", V: pick(r, []string{"", "x", "1", "="})}
		if r.Chance(0.5) {
			x = FV{B: true}
		}
		row.FVs = append(row.FVs, x)
	}
	if g.wide > 0 && r.Chance(0.3) {
		for i := r.Range(1, g.wide); i > 0; i-- {
			row.FVs = append(row.FVs, FV{F: "w" + strconv.Itoa(i), V: strconv.Itoa(r.Intn(100))})
		}
	}
	if g.fat > 0 && r.Chance(0.4) {
		row.FVs = append(row.FVs, FV{F: "pad", V: strings.Repeat("x", r.Range(1, g.fat))})
	}
	// order of fields
	for i := len(row.FVs) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		row.FVs[i], row.FVs[j] = row.FVs[j], row.FVs[i]
	}
	if r.Chance(0.4) {
		// id last: a truncated line then shows as another id
		for i := range row.FVs {
			if row.FVs[i].F == "id" {
				x := row.FVs[i]
				row.FVs = append(append(append([]FV{}, row.FVs[:i]...), row.FVs[i+1:]...), x)
				break
			}
		}
	}
	return row
}

func (g *gen) text() string {
	n := g.r.Range(1, 6)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[g.r.Intn(36)]
	}
	if g.r.Chance(0.2) {
		return pick(g.r, []string{"", "v", "w", "same", "Same", "a=b", "=x", "100%", "a+b", "日本", "\"q\"", "it's", "a=b=", "same0", "same ", " same", "\tsame", "same.", "sam\x00e", "same\x00", "%20", "%2B", "%0A1", "%09x", "+", "\x00", "\xff", "\xfe", "0", "00", "0.0", "-0", strings.Repeat("y", 300) + "1", strings.Repeat("y", 300) + "2", strings.Repeat("y", 1500) + "1", strings.Repeat("y", 1500) + "2", strings.Repeat("y", 64) + "1", strings.Repeat("y", 64) + "2"})
	}
	return string(b)
}

func (g *gen) demoRow(row RowDef) RowDef {
	r := g.r
	if !r.Chance(0.1) {
		row.FVs = append(row.FVs, FV{F: "country", V: pick(r, g.vals["country"])})
	}
	if !r.Chance(0.1) {
		row.FVs = append(row.FVs, FV{F: "tz", V: pick(r, g.vals["tz"])})
	}
	if !r.Chance(0.2) {
		row.FVs = append(row.FVs, FV{F: "iata", V: g.text()})
	}
	if !r.Chance(0.2) {
		row.FVs = append(row.FVs, FV{F: "height", V: g.num()})
	}
	return row
}

// bad turns a row into one that must be refused.
func (g *gen) bad(row RowDef) RowDef {
	r := g.r
	// not a number where one is measured
	for try := 0; try < 3; try++ {
		var cand []int
		for i, x := range row.FVs {
			for ci := range g.sc.Colls {
				if fd := g.sc.Colls[ci].field(x.F); fd != nil {
					for _, m := range fd.M {
						if continuous(m.N) {
							cand = append(cand, i)
						}
					}
				}
			}
		}
		if len(cand) > 0 && r.Chance(0.75) {
			i := cand[r.Intn(len(cand))]
			row.FVs = append([]FV(nil), row.FVs...)
			if row.FVs[i].F == "id" && row.ID >= 0 {
				// keep the identity visible: refuse through another field if possible
				if try < 2 {
					continue
				}
			}
			row.FVs[i].V = pick(r, []string{"", "abc", "1x", "--1", "1,5", "0x", "1e", " 1", "1e999", "-2e308"})
			return row
		}
	}
	id := row.ID
	row.Bad = true
	w := ""
	if id >= 0 {
		w = "id=" + strconv.FormatInt(weight(id), 10)
	}
	k := ""
	if len(g.vals[g.kf[0]]) > 0 {
		k = g.kf[0] + "=" + g.vals[g.kf[0]][0]
	}
	rest := "\t" + k + "\t" + w
	switch r.Intn(6) {
	case 0:
		row.Raw = "nots" + rest // no timestamp
	case 1:
		row.Raw = rest // starts with the delimiter
	case 2:
		row.Raw = "99999999999999999999" + rest // out of range
	case 3:
		row.Raw = "-5" + rest
	case 4:
		row.Raw = " 12" + rest
	case 5:
		row.Raw = k + "\t12\t" + w
		if row.Raw[0] >= '0' && row.Raw[0] <= '9' {
			row.Raw = "x" + row.Raw
		}
	}
	return row
}

var delims = []string{"\t", "\t", "|", ",", ";", " ", "&", "\t", "|", ":", "!", "~", "0x01", "0x00", "0x1f", "0x7f", "0x80", "0xc3", "0xfe", "0xff", "0x0b", "\"", "%", "+", "a"}
var ctypes = []string{"text/plain", "application/octet-stream", "", "application/x-www-form-urlencoded", "text/plain; charset=utf-8", "Text/Plain", "APPLICATION/OCTET-STREAM; x=y", "Application/X-WWW-Form-Urlencoded; charset=UTF-8"}

func delimTest(rows []RowDef) func(string) bool {
	return func(d string) bool {
		b := rawDelim(d)
		for i := range rows {
			for _, x := range rows[i].FVs {
				if strings.Contains(x.F, b) || strings.Contains(x.V, b) {
					return false
				}
			}
		}
		return true
	}
}

// usable delimiters must not occur in any field of the rows.
func (g *gen) delim(rows []RowDef) string {
	usable := delimTest(rows)
	for try := 0; try < 5; try++ {
		if d := pick(g.r, delims); usable(d) {
			return d
		}
	}
	return usableDelim(usable)
}

func usableDelim(usable func(string) bool) string {
	for _, d := range delims {
		if usable(d) {
			return d
		}
	}
	for b := 1; b < 256; b++ {
		d := fmt.Sprintf("0x%02x", b)
		if b != 10 && b != 13 && b != '=' && (b < '0' || b > '9') && usable(d) {
			return d
		}
	}
	panic("harness: no usable delimiter")
}

func (g *gen) pack(q *Req) {
	r := g.r
	q.Delim = g.delim(q.Rows)
	q.CT = "text/plain"
	if !g.p.packVar {
		return
	}
	q.CT = pick(r, ctypes)
	if r.Chance(0.2) {
		q.EOL = "\r\n"
	}
	q.NoEOL = r.Chance(0.4)
	q.EndCR = q.NoEOL && r.Chance(0.15)
	if r.Chance(0.35) {
		q.Chunked = true
		for i := r.Range(1, 3); i > 0; i-- {
			q.Frames = append(q.Frames, pickInt(r, []int{1, 2, 7, 16, 64, 500}))
		}
	}
}

func pickInt(r *sim.RNG, l []int) int { return l[r.Intn(len(l))] }

// logUniform draws from lo..hi, the logarithm evenly.
func logUniform(r *sim.RNG, lo, hi int) int {
	n := 0
	for x := lo; x < hi; x *= 2 {
		n++
	}
	x := lo << uint(r.Intn(n+1))
	x += r.Intn(x)
	if x > hi {
		x = hi
	}
	return x
}

func (g *gen) transport(q *Req) {
	r := g.r
	if r.Chance(g.p.splitP) {
		for i := r.Range(1, 3); i > 0; i-- {
			q.Segs = append(q.Segs, pickInt(r, []int{1, 3, 17, 60, 100, 200, 1000, 4096}))
		}
	}
	if r.Chance(g.p.gapP) {
		for i := r.Range(1, 3); i > 0; i-- {
			q.Gaps = append(q.Gaps, []int64{0, 1000, 1 * ms, 500 * ms, 40_000 * ms}[r.Intn(5)])
		}
	}
	if r.Chance(g.p.gapP) {
		q.Think = []int64{1000, 20_000, 1 * ms, 3000 * ms}[r.Intn(4)]
	}
}

func (g *gen) upload() Req {
	q := Req{Kind: "upload"}
	n := g.between(g.p.rows)
	for i := 0; i < n; i++ {
		row := g.row()
		if g.r.Chance(g.p.badP) {
			row = g.bad(row)
		}
		q.Rows = append(q.Rows, row)
	}
	g.pack(&q)
	g.transport(&q)
	g.dress(&q)
	return q
}

var harmless = []string{
	"User-Agent: curl/7.68.0", "Accept: */*", "Accept-Encoding: identity", "Cookie: a=1; b=2", "X-Forwarded-For: 10.0.0.1, 10.0.0.2",
	"Cache-Control: no-cache", "Pragma: no-cache", "If-None-Match: \"x\"", "Content-Language: en", "Referer: http://x/collation/col0",
	"Origin: http://y", "X-Request-Id: 1", "Connection: keep-alive", "Accept-Language: de", "X-Empty:", "Date: Tue, 01 Jan 2030 00:00:00 GMT",
	"Authorization: Basic eDp5", "X-Long: " + longHeader, "Accept: text/plain;q=0.5, application/json", "TE: trailers",
}

var longHeader = strings.Repeat("h", 6000)

// dress makes a request look different without meaning anything else.
func (g *gen) dress(q *Req) {
	r := g.r
	if r.Chance(0.06) {
		for i := r.Range(1, 4); i > 0; i-- {
			h := pick(r, harmless)
			for _, l := range q.Hdr {
				if l == h {
					h = ""
				}
			}
			if h != "" {
				q.Hdr = append(q.Hdr, h)
			}
		}
	}
	if q.Kind != "upload" {
		q.Old = r.Chance(0.01)
		return
	}
	if r.Chance(0.03) {
		q.Tail = pick(r, []string{"?", "?src=web", "?data=&q=1", "?src=%2F&v=2"})
	}
	q.Expect = r.Chance(0.04)
	q.Old = !q.Chunked && !q.Expect && r.Chance(0.01)
}

func (g *gen) query() Req {
	r := g.r
	colls := g.sc.Colls
	if g.sc.Demo {
		colls = demoColls()
	}
	q := Req{Kind: "query", Coll: r.Intn(len(colls))}
	c := &colls[q.Coll]
	for _, k := range c.Keys {
		q.Crit = append(q.Crit, FV{F: k, V: pick(r, g.vals[k])})
	}
	all := c.measures()
	if r.Chance(0.75) {
		q.Sel = all
	} else {
		for _, m := range all {
			if r.Chance(0.5) || m == (Sel{"sum", "id"}) {
				q.Sel = append(q.Sel, m)
			}
		}
		if len(q.Sel) == 0 {
			q.Sel = all[:1]
		}
		for i := len(q.Sel) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			q.Sel[i], q.Sel[j] = q.Sel[j], q.Sel[i]
		}
	}
	if r.Chance(0.1) {
		q.Sel = append(append([]Sel{}, q.Sel...), Sel{"sum", "nosuch"})
	}
	if r.Chance(0.12) {
		// measures that are not declared, on fields that are or not
		sel := append([]Sel{}, q.Sel...)
		if r.Chance(0.3) {
			sel = nil
		}
		for i := r.Range(1, 6); i > 0; i-- {
			f := pick(r, []string{"id", "nosuch", "*", g.kf[0], g.df[0], g.df[1]})
			s := Sel{pick(r, []string{"sum", "mean", "var", "max", "min", "uniquecount", "median", "Sum", "total"}), f}
			if s.F != "*" && containsSel(all, s) || containsSel(sel, s) {
				continue
			}
			sel = append(sel, s)
		}
		if len(sel) > 0 {
			q.Sel = sel
		}
	}
	if r.Chance(0.04) {
		q.More = pick(r, []string{"data=1%09k%3Da%09id%3D1", "data=x", "r=1&s=2", "data=1%7Ck%3DA%7Ck2%3Dx%7Cid%3D1%0A2%7Ck%3DA"})
	}
	if r.Chance(0.01) {
		q.Crit = append(q.Crit, FV{F: "pad_", V: strings.Repeat("z", pickInt(r, []int{300, 5000, 20000}))})
	}
	if r.Chance(0.3) {
		q.Style = r.Intn(64)
	}
	if r.Chance(0.3) {
		// criteria in another order, among others
		if r.Chance(0.5) {
			q.Crit = append(q.Crit, FV{F: g.decoy(pick(r, c.Keys)), V: pick(r, keyPool)})
		}
		for i := len(q.Crit) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			q.Crit[i], q.Crit[j] = q.Crit[j], q.Crit[i]
		}
		if r.Chance(0.2) {
			// a key field missing
			i := r.Intn(len(q.Crit))
			q.Crit = append(append([]FV{}, q.Crit[:i]...), q.Crit[i+1:]...)
			if len(q.Crit) == 0 {
				q.Crit = []FV{{F: g.decoy(c.Keys[0]), V: pick(r, g.vals[c.Keys[0]])}}
			}
		}
	}
	q.Method = pick(r, []string{"GET", "GET", "POST"})
	q.ViaURL = q.Method == "GET" || r.Chance(0.3)
	g.transport(&q)
	g.dress(&q)
	return q
}

var rawRequests = []Req{
	{Kind: "raw", Raw: "GET /obs HTTP/1.1\r\nHost: x\r\n\r\n", Want: 4},
	{Kind: "raw", Raw: "PUT /obs HTTP/1.1\r\nHost: x\r\nContent-Length: 3\r\n\r\n1\tk", Want: 4},
	{Kind: "raw", Raw: "DELETE /collation/col0 HTTP/1.1\r\nHost: x\r\n\r\n", Want: 4},
	{Kind: "raw", Raw: "GET /collation/col0?q=nonsense HTTP/1.1\r\nHost: x\r\n\r\n", Want: 4},
	{Kind: "raw", Raw: "GET /collation/col0 HTTP/1.1\r\nHost: x\r\n\r\n", Want: 4},
	{Kind: "raw", Raw: "GET /collation/col0?q=select+count(*) HTTP/1.1\r\nHost: x\r\n\r\n", Want: 4},
	{Kind: "raw", Raw: "GET /collation/nosuch?q=select+count(*)+where+k%3D'a' HTTP/1.1\r\nHost: x\r\n\r\n", Want: 404},
	{Kind: "raw", Raw: "GET /collation/ HTTP/1.1\r\nHost: x\r\n\r\n", Want: 4},
	{Kind: "raw", Raw: "GET /collation/a/b HTTP/1.1\r\nHost: x\r\n\r\n", Want: 4},
	{Kind: "raw", Raw: "GET /nothing HTTP/1.1\r\nHost: x\r\n\r\n", Want: 404},
	{Kind: "raw", Raw: "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 12\r\n\r\n1\tk=a\tid=1\r\n", Want: 4},
	{Kind: "raw", Raw: "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Type: ;;\r\nContent-Length: 11\r\n\r\n1\tk=a\tid=1\n", Want: 4},
	{Kind: "raw", Raw: "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 3\r\n\r\nx=y", Want: 4},
	{Kind: "raw", Raw: "GET /collation/col0?q=select+count(*)+where+nokey%3D'a' HTTP/1.1\r\nHost: x\r\n\r\n", Want: 200},
}

// raw makes a request that is neither a valid upload nor a valid query.
func (g *gen) raw() Req {
	if g.sc.Demo || g.r.Chance(0.6) {
		return g.odd()
	}
	return rawRequests[g.r.Intn(len(rawRequests))]
}

// odd makes a request that carries observations which would be recorded if it
// were an upload, but is none.
func (g *gen) odd() Req {
	r := g.r
	colls := g.sc.Colls
	if g.sc.Demo {
		colls = demoColls()
	}
	c := &colls[r.Intn(len(colls))]
	var lines []string
	for i := r.Range(1, 3); i > 0; i-- {
		l := "1"
		for _, k := range c.Keys {
			v := pick(r, keyPool)
			if len(g.vals[k]) > 0 {
				v = pick(r, g.vals[k])
			}
			l += "\t" + k + "=" + v
		}
		lines = append(lines, l+"\tid=1\theight=1\tiata=x")
	}
	rows := strings.Join(lines, "\n") + "\n"
	good := "q=" + url.QueryEscape(spell([]Sel{{"count", "*"}}, []FV{{F: c.Keys[0], V: "a"}}, r.Intn(16)))
	bad := pick(r, []string{"q=", "q=nonsense", "q=" + url.QueryEscape("select count(*)"), "q=" + url.QueryEscape(lines[0]), "x=1"})
	path := "/collation/" + url.PathEscape(c.Name)
	form := "application/x-www-form-urlencoded"
	data := "data=" + url.QueryEscape(rows)
	ct, body := "", rows
	switch r.Intn(4) {
	case 0:
		ct, body = form, data
	case 1:
		ct = "text/plain"
	case 2:
		ct = "application/octet-stream"
	}
	q := Req{Kind: "raw", Want: 4}
	method := "POST"
	switch r.Intn(11) {
	case 0: // a query that is missing
	case 1: // or malformed
		if ct == form {
			if r.Chance(0.5) {
				body = bad + "&" + data
			} else {
				body = data + "&" + bad
			}
		} else {
			path += "?" + bad
		}
	case 2: // a query beside the observations
		path += "?" + good
		q.Want = 200
	case 3:
		method = pick(r, []string{"PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"})
		path += "?" + good
	case 4:
		path = pick(r, []string{"/obs/", "/obs/x", "/", "/Obs", "/observations", "/collation/", "/collation/nosuch", "/collation/nosuch?" + good, path + "/", path + "/obs"})
	case 5:
		path = "/obs"
		ct = pick(r, []string{"application/json", "text/html", "text/plainer", "text", "application/octet-streams", "text/csv", "application/x-www-form-urlencode", "image/png", "text/plain/x"})
		body = pick(r, []string{rows, data})
	case 6:
		path = "/obs"
		method = pick(r, []string{"GET", "PUT", "PATCH", "DELETE", "HEAD"})
		if r.Chance(0.4) {
			path += "?" + data
		}
	case 7: // observations under another name
		path, ct = "/obs", form
		body = pick(r, []string{"Data", "data2", "datum", "q", "rows"}) + "=" + url.QueryEscape(rows)
	case 8:
		path += "?" + good
		method = "GET"
		q.Want = 200
	case 9, 10:
		// a collation with nearly the same name
		l := []string{strings.ToUpper(c.Name), strings.ToLower(c.Name), strings.Title(c.Name), c.Name + "x", c.Name + " ", " " + c.Name, "x" + c.Name, c.Name + "0", c.Name + "\x00", c.Name + c.Name, c.Name + "*", "*", c.Name + "=", c.Name[:len(c.Name)-1], c.Name[1:]}
		name := pick(r, l)
		for i := range colls {
			if colls[i].Name == name || name == "" {
				name = c.Name + "~~"
			}
		}
		path = "/collation/" + url.PathEscape(name) + "?" + good
		method = pick(r, []string{"GET", "GET", "POST"})
		q.Want = 404
	}
	h := method + " " + path + " HTTP/1.1\r\nHost: x\r\n"
	if ct != "" {
		h += "Content-Type: " + ct + "\r\n"
	}
	q.Raw = h + "Content-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n" + body
	return q
}

func (g *gen) fault(q *Req) {
	r := g.r
	if len(g.p.faults) == 0 || !r.Chance(g.p.faultP) {
		return
	}
	f := pick(r, g.p.faults)
	if q.Kind != "upload" && (f == "fin" || f == "stallresume") && r.Chance(0.5) {
		return
	}
	colls := g.sc.Colls
	if g.sc.Demo {
		colls = demoColls()
	}
	w := q.wire(colls)
	switch f {
	case "rst", "fin", "stall", "stallresume":
		q.Fault = f
		q.At = r.Intn(len(w.bytes) + 1)
		if len(w.rowEnd) > 0 && r.Chance(0.75) {
			// inside the body, often close to the end of an observation
			e := w.rowEnd[r.Intn(len(w.rowEnd))]
			q.At = e + r.Range(-6, 2)
			if q.At < 0 {
				q.At = 0
			}
			if q.At > len(w.bytes) {
				q.At = len(w.bytes)
			}
		}
		if f == "fin" && q.At == len(w.bytes) {
			q.Fault = "finafter"
		}
	case "rstafter", "finafter":
		q.Fault = f
		q.After = []int64{0, 0, 1000, 5000, 20_000, 100_000}[r.Intn(6)]
	}
}

func generate(r *sim.RNG, p profile) *Scenario {
	g := &gen{r: r, p: p, sc: &Scenario{Final: true}}
	g.sc.Demo = r.Chance(p.demoP)
	if r.Chance(p.fatP) {
		g.fat = pickInt(r, []int{200, 1500, 5000})
	}
	if r.Chance(0.02) {
		g.wide = pickInt(r, []int{9, 20, 40, 70, 140, 300})
	}
	if r.Chance(0.25) {
		g.ts = pick(r, []string{"1", "1600000000000000", "0"})
	}
	if r.Chance(0.05) {
		// out of the ordinary in one way
		switch r.Intn(5) {
		case 0:
			g.p.clients = [2]int{6, 16}
			g.p.reqs = [2]int{1, 2}
		case 1:
			g.p.colls = [2]int{3, 6}
		case 2:
			g.p.fields = [2]int{4, 8}
		case 3:
			g.p.keyVals = [2]int{10, 20}
		case 4:
			g.p.rows = [2]int{8, 20}
		}
	}
	p = g.p
	g.setup()
	nc := g.between(p.clients)
	for i := 0; i < nc; i++ {
		var reqs []Req
		for j := g.between(p.reqs); j > 0; j-- {
			var q Req
			switch {
			case r.Chance(p.rawP):
				q = g.raw()
				g.transport(&q)
			case r.Chance(p.queryP):
				q = g.query()
			default:
				q = g.upload()
			}
			reqs = append(reqs, q)
		}
		g.sc.Clients = append(g.sc.Clients, reqs)
	}
	if !g.sc.Demo {
		g.slots()
	}
	for i := range g.sc.Clients {
		for j := range g.sc.Clients[i] {
			g.fault(&g.sc.Clients[i][j])
		}
	}
	if r.Chance(p.stallP) {
		for i := r.Range(1, 2); i > 0; i-- {
			l := g.sc.Clients[r.Intn(len(g.sc.Clients))]
			if len(l) > 0 {
				q := &l[r.Intn(len(l))]
				q.Stall, q.Until = logUniform(r, 1, 4000), r.Range(1, 4)
			}
		}
	}
	if r.Chance(p.keepP) {
		for _, l := range g.sc.Clients {
			if r.Chance(0.7) {
				for j := range l {
					l[j].Keep = r.Chance(0.9)
				}
			}
		}
	}
	if r.Chance(p.clockP) {
		for i := r.Range(1, 3); i > 0; i-- {
			g.sc.Clock = append(g.sc.Clock, ClockStep{At: int64(r.Range(0, 300)) * 1000, Delta: []int64{-86400_000 * ms, 86400_000 * ms, -1 * ms, 40 * 365 * 86400_000 * ms, -60 * 365 * 86400_000 * ms}[r.Intn(5)]})
		}
	}
	g.sc.Repeat = 1
	return g.sc
}

// shrink proposes smaller scenarios.
func shrink(x interface{}) []interface{} {
	s := x.(*Scenario)
	if s.Bulk != nil {
		return shrinkBulk(s)
	}
	if s.Marathon != nil {
		return shrinkMarathon(s)
	}
	var out []interface{}
	clone := func() *Scenario {
		c := *s
		c.Clients = make([][]Req, len(s.Clients))
		for i := range s.Clients {
			c.Clients[i] = append([]Req(nil), s.Clients[i]...)
			for j := range c.Clients[i] {
				c.Clients[i][j].Rows = append([]RowDef(nil), s.Clients[i][j].Rows...)
			}
		}
		c.Colls = append([]CollDef(nil), s.Colls...)
		for i := range c.Colls {
			c.Colls[i].Fields = append([]FieldDef(nil), s.Colls[i].Fields...)
		}
		c.Clock = append([]ClockStep(nil), s.Clock...)
		c.Signals = append([]int64(nil), s.Signals...)
		c.SigKind = append([]int(nil), s.SigKind...)
		c.Variant = append([]Req(nil), s.Variant...)
		c.Extra = append([]Req(nil), s.Extra...)
		return &c
	}
	for i := range s.Clients {
		if len(s.Clients) > 1 {
			c := clone()
			c.Clients = append(c.Clients[:i], c.Clients[i+1:]...)
			out = append(out, c)
		}
	}
	for i := range s.Clients {
		for j := range s.Clients[i] {
			c := clone()
			c.Clients[i] = append(c.Clients[i][:j], c.Clients[i][j+1:]...)
			out = append(out, c)
		}
	}
	for i := range s.Extra {
		c := clone()
		c.Extra = append(c.Extra[:i], c.Extra[i+1:]...)
		out = append(out, c)
	}
	if s.Mode == "" && len(s.Colls) > 1 {
		for i := range s.Colls {
			used := false
			for _, cl := range s.Clients {
				for _, q := range cl {
					if q.Kind == "query" && q.Coll == i {
						used = true
					}
				}
			}
			if used {
				continue
			}
			c := clone()
			c.Colls = append(c.Colls[:i], c.Colls[i+1:]...)
			for a := range c.Clients {
				for b := range c.Clients[a] {
					if c.Clients[a][b].Coll > i {
						c.Clients[a][b].Coll--
					}
				}
			}
			out = append(out, c)
		}
	}
	for i := range s.Clients {
		for j := range s.Clients[i] {
			q := &s.Clients[i][j]
			if s.Mode == "" || s.Mode == "lap" && len(q.Rows) < 40 {
				for k := range q.Rows {
					if len(q.Rows) > 1 {
						c := clone()
						cq := &c.Clients[i][j]
						cq.Rows = append(cq.Rows[:k], cq.Rows[k+1:]...)
						out = append(out, c)
					}
				}
			}
			if q.Fault != "" {
				c := clone()
				c.Clients[i][j].Fault = ""
				out = append(out, c)
			}
			if q.Stall > 0 {
				c := clone()
				c.Clients[i][j].Stall, c.Clients[i][j].Until = 0, 0
				out = append(out, c)
			}
			if q.Keep {
				c := clone()
				c.Clients[i][j].Keep = false
				out = append(out, c)
			}
			if len(q.Hdr) > 0 || q.Tail != "" || q.Old {
				c := clone()
				c.Clients[i][j].Hdr, c.Clients[i][j].Tail, c.Clients[i][j].Old = nil, "", false
				out = append(out, c)
			}
			if q.Cache > 0 {
				c := clone()
				c.Clients[i][j].Cache = 0
				out = append(out, c)
			}
			if q.Expect {
				c := clone()
				c.Clients[i][j].Expect = false
				out = append(out, c)
			}
			if len(q.Segs)+len(q.Gaps) > 0 || q.Think > 0 {
				c := clone()
				c.Clients[i][j].Segs, c.Clients[i][j].Gaps, c.Clients[i][j].Think = nil, nil, 0
				out = append(out, c)
			}
			if q.Kind == "upload" && s.Mode == "" && (q.Chunked || q.CT != "text/plain" || q.EOL != "" || q.NoEOL || q.EndCR) && q.Fault == "" {
				c := clone()
				cq := &c.Clients[i][j]
				cq.Chunked, cq.CT, cq.EOL, cq.NoEOL, cq.EndCR = false, "text/plain", "", false, false
				out = append(out, c)
			}
			if q.Kind == "query" && s.Mode == "" && (q.Method != "GET" || len(q.Sel) > 2) {
				c := clone()
				cq := &c.Clients[i][j]
				cq.Method, cq.ViaURL = "GET", true
				out = append(out, c)
			}
		}
	}
	for i := range s.Clock {
		c := clone()
		c.Clock = append(c.Clock[:i], c.Clock[i+1:]...)
		out = append(out, c)
	}
	for i := range s.Signals {
		if len(s.Signals) > 1 {
			c := clone()
			c.Signals = append(c.Signals[:i], c.Signals[i+1:]...)
			if i < len(c.SigKind) {
				c.SigKind = append(c.SigKind[:i], c.SigKind[i+1:]...)
			}
			out = append(out, c)
		}
	}
	for i := range s.Colls {
		if s.Colls[i].Split > 0 {
			c := clone()
			c.Colls[i].Split = 0
			out = append(out, c)
		}
	}
	if s.Mode == "" {
		for i := range s.Colls {
			for j := range s.Colls[i].Fields {
				if s.Colls[i].Fields[j].F != "id" {
					c := clone()
					c.Colls[i].Fields = append(c.Colls[i].Fields[:j], c.Colls[i].Fields[j+1:]...)
					for a := range c.Clients {
						for b := range c.Clients[a] {
							if q := &c.Clients[a][b]; q.Kind == "query" && q.Coll == i {
								q.Sel = c.Colls[i].measures()
							}
						}
					}
					out = append(out, c)
				}
			}
		}
	}
	return out
}
