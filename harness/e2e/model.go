// Package e2e runs the whole server — listener, HTTP handling, parsing,
// storage, collations — under the simulator with several clients, and decides
// the properties that are stated over its HTTP interface.
package e2e

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/storage"
)

// ---------------------------------------------------------------- scenario

type MeasureDef struct {
	N string `json:"n"`
	P int    `json:"p,omitempty"`
}

type FieldDef struct {
	F string       `json:"f"`
	M []MeasureDef `json:"m"`
}

type CollDef struct {
	Name   string     `json:"name"`
	Keys   []string   `json:"keys"`
	Count  bool       `json:"count"`
	Fields []FieldDef `json:"fields"`
	Slots  int        `json:"slots"`
	Split  int        `json:"split,omitempty"` // after that many measures, a field's others are declared in another place
}

type FV struct {
	F string `json:"f"`
	V string `json:"v"`
	B bool   `json:"bare,omitempty"` // no equals sign
}

// MarshalJSON keeps bytes that are not UTF-8.
func (x FV) MarshalJSON() ([]byte, error) {
	type plain FV
	p := struct {
		plain
		Hex string `json:"hex,omitempty"`
	}{plain: plain(x)}
	if !utf8.ValidString(x.V) {
		p.Hex, p.V = hex.EncodeToString([]byte(x.V)), ""
	}
	return json.Marshal(p)
}

func (x *FV) UnmarshalJSON(b []byte) error {
	type plain FV
	p := struct {
		plain
		Hex string `json:"hex,omitempty"`
	}{}
	if err := json.Unmarshal(b, &p); err != nil {
		return err
	}
	*x = FV(p.plain)
	if p.Hex != "" {
		v, err := hex.DecodeString(p.Hex)
		if err != nil {
			return err
		}
		x.V = string(v)
	}
	return nil
}

// RowDef is one observation. ID >= 0 gives it a weight under the field "id".
type RowDef struct {
	ID  int    `json:"id"`
	TS  string `json:"ts"`
	FVs []FV   `json:"fvs"`
	Raw string `json:"raw,omitempty"` // a malformed line, sent as it is
	Bad bool   `json:"bad,omitempty"` // malformed: must be refused by the server
	Opt bool   `json:"opt,omitempty"` // so long that the server may refuse it
}

// Req is one request of a client.
type Req struct {
	Kind  string `json:"kind"` // upload, query, raw
	Think int64  `json:"think,omitempty"`

	Rows    []RowDef `json:"rows,omitempty"`
	Delim   string   `json:"delim,omitempty"`
	EOL     string   `json:"eol,omitempty"`
	NoEOL   bool     `json:"noeol,omitempty"` // last line not terminated
	EndCR   bool     `json:"endcr,omitempty"` // or only by a carriage return
	CT      string   `json:"ct,omitempty"`
	Chunked bool     `json:"chunked,omitempty"`
	Frames  []int    `json:"frames,omitempty"` // chunk sizes
	Expect  bool     `json:"expect,omitempty"` // the body is sent once the server asks for it, or after a second
	Hdr     []string `json:"hdr,omitempty"`    // header lines that change nothing
	Tail    string   `json:"tail,omitempty"`   // of the path of an upload
	Old     bool     `json:"old,omitempty"`    // HTTP/1.0
	Host    string   `json:"host,omitempty"`
	Cache   int      `json:"cache,omitempty"` // sent through an HTTP cache: 1 the common one, 2 the client's own

	Coll   int    `json:"coll,omitempty"`
	Crit   []FV   `json:"crit,omitempty"`
	Sel    []Sel  `json:"sel,omitempty"`
	Method string `json:"method,omitempty"`
	ViaURL bool   `json:"viaurl,omitempty"`
	Style  int    `json:"style,omitempty"`  // spelling of the query
	More   string `json:"more,omitempty"`   // further form fields, escaped
	Raw    string `json:"rawreq,omitempty"` // complete request, for odd ones
	Want   int    `json:"want,omitempty"`   // expected status of a raw request; 4 means any 4xx

	Segs  []int   `json:"segs,omitempty"`  // sizes in which bytes reach the server (cycled); empty: at once
	Gaps  []int64 `json:"gaps,omitempty"`  // delay before each segment (cycled)
	Fault string  `json:"fault,omitempty"` // rst fin stall stallresume rstafter finafter
	At    int     `json:"at,omitempty"`    // byte position of the fault
	After int64   `json:"after,omitempty"` // delay of rstafter/finafter
	Stall int     `json:"stall,omitempty"` // step of its handling at which the server's thread stalls
	Until int     `json:"until,omitempty"` // until that many other requests are done
	Keep  bool    `json:"keep,omitempty"`  // on the client's previous connection if that is still open
	Gate  bool    `json:"gate,omitempty"`  // sent once another request's thread stalls
}

type Sel struct {
	M string `json:"m"`
	F string `json:"f"`
}

type ClockStep struct {
	At    int64 `json:"at"`
	Delta int64 `json:"delta"`
}

type Scenario struct {
	Demo     bool          `json:"demo,omitempty"`
	Colls    []CollDef     `json:"colls"`
	Clients  [][]Req       `json:"clients"`
	Clock    []ClockStep   `json:"clock,omitempty"`
	Final    bool          `json:"final"`            // query every key at the end
	Repeat   int           `json:"repeat,omitempty"` // repeat final queries
	Signals  []int64       `json:"signals,omitempty"`
	Listen   string        `json:"listen_fails,omitempty"` // why
	SigKind  []int         `json:"sigkind,omitempty"`
	Life     int64         `json:"life,omitempty"` // for how long caches use answers when nothing is said about it
	Mode     string        `json:"mode,omitempty"`
	Perm     []int         `json:"perm,omitempty"`
	Variant  []Req         `json:"variant,omitempty"`  // alternative packaging (C10, C11)
	Extra    []Req         `json:"extra,omitempty"`    // queries interleaved in the second run (C19)
	Uniq     *UniqSpec     `json:"uniq,omitempty"`     // large set of values (C04)
	Bulk     *BulkSpec     `json:"bulk,omitempty"`     // large number of observations
	Marathon *MarathonSpec `json:"marathon,omitempty"` // very many small requests
	Soak     *SoakSpec     `json:"soak,omitempty"`     // endless traffic (C24)
}

func decode(b []byte) (interface{}, error) {
	s := &Scenario{}
	err := json.Unmarshal(b, s)
	return s, err
}

// weight of row id: distinct powers of two with fixed signs, so that the sum of
// any set of rows identifies the set.
func weight(id int) int64 {
	w := int64(1) << uint(id)
	if id%3 == 1 {
		w = -w
	}
	return w
}

// decodeSet finds the set of ids whose weights sum to v.
func decodeSet(v float64) (map[int]bool, bool) {
	if math.IsNaN(v) || math.IsInf(v, 0) || math.Abs(v-math.Round(v)) > 0.05 || math.Abs(v) > 1<<52 {
		return nil, false
	}
	v = math.Round(v)
	x := int64(v)
	set := map[int]bool{}
	for i := 0; i < 50 && x != 0; i++ {
		if x&1 != 0 {
			set[i] = true
			if weight(i) > 0 {
				x--
			} else {
				x++
			}
		}
		x /= 2
	}
	return set, x == 0
}

func (r *RowDef) get(f string) (string, bool) {
	for _, x := range r.FVs {
		if x.F == f {
			return x.V, true
		}
	}
	return "", false
}

// line renders the observation.
func (r *RowDef) line(delim string) string {
	if r.Raw != "" {
		return r.Raw
	}
	var sb strings.Builder
	sb.WriteString(r.TS)
	for _, x := range r.FVs {
		sb.WriteString(delim)
		sb.WriteString(x.F)
		if !x.B {
			sb.WriteString("=")
			sb.WriteString(x.V)
		}
	}
	return sb.String()
}

// keyOf reports the key values of the row in a collation.
func (c *CollDef) keyOf(r *RowDef) (string, bool) {
	if r.Bad {
		return "", false
	}
	var ks []string
	for _, k := range c.Keys {
		v, ok := r.get(k)
		if !ok {
			return "", false
		}
		ks = append(ks, v)
	}
	return strings.Join(ks, keySep), true
}

// keySep separates the values of a key in the model; no value contains it.
const keySep = "\x1e\x1f"

// keyFromCrit is keyOf for query criteria.
func (c *CollDef) keyFromCrit(crit []FV) (string, bool) {
	r := RowDef{FVs: crit}
	return c.keyOf(&r)
}

func (c *CollDef) field(f string) *FieldDef {
	for i := range c.Fields {
		if c.Fields[i].F == f {
			return &c.Fields[i]
		}
	}
	return nil
}

func continuous(m string) bool { return m != "uniquecount" }

// invalid reports whether the collation must refuse the row: it measures a
// field as a number that the row does not give as one.
func (c *CollDef) invalid(r *RowDef) bool {
	if _, ok := c.keyOf(r); !ok {
		return false
	}
	for _, x := range r.FVs {
		if fd := c.field(x.F); fd != nil {
			cont := false
			for _, m := range fd.M {
				if continuous(m.N) {
					cont = true
				}
			}
			if cont {
				if _, err := strconv.ParseFloat(x.V, 64); err != nil {
					return true
				}
			}
		}
	}
	return false
}

// measures lists everything the collation can be asked.
func (c *CollDef) measures() []Sel {
	var out []Sel
	if c.Count {
		out = append(out, Sel{"count", "*"})
	}
	for _, f := range c.Fields {
		for _, m := range f.M {
			out = append(out, Sel{m.N, f.F})
		}
	}
	return out
}

func (c *CollDef) decodable() bool {
	f := c.field("id")
	if f == nil {
		return false
	}
	for _, m := range f.M {
		if m.N == "sum" {
			return true
		}
	}
	return false
}

// declared lists the measures of the fields the way the schema declares them.
func (c *CollDef) declared() []FieldDef {
	if c.Split == 0 {
		return c.Fields
	}
	var a, b []FieldDef
	for _, f := range c.Fields {
		if len(f.M) > c.Split {
			b = append(b, FieldDef{F: f.F, M: f.M[c.Split:]})
			f.M = f.M[:c.Split]
		}
		a = append(a, f)
	}
	return append(a, b...)
}

func (c *CollDef) schema() collation.Schema {
	s := collation.Schema{Name: c.Name}
	for _, k := range c.Keys {
		s.Keys = append(s.Keys, collation.KeySpec{Field: collation.FieldSpec{Pattern: k}})
	}
	if c.Count {
		s.RecordMeasures = []collation.RowMeasure{collation.Count{}}
	}
	for _, f := range c.declared() {
		ms := collation.MeasureSpec{Field: collation.FieldSpec{Pattern: f.F}}
		for _, m := range f.M {
			switch m.N {
			case "sum":
				ms.Measures = append(ms.Measures, collation.Sum{})
			case "mean":
				ms.Measures = append(ms.Measures, collation.Mean{})
			case "var":
				ms.Measures = append(ms.Measures, collation.Variance{})
			case "max":
				ms.Measures = append(ms.Measures, collation.Max{})
			case "min":
				ms.Measures = append(ms.Measures, collation.Min{})
			case "uniquecount":
				ms.Measures = append(ms.Measures, collation.Cardinality{Precision: m.P})
			}
		}
		s.Measures = append(s.Measures, ms)
	}
	return s
}

func buildServer(colls []CollDef) *server.Server {
	s := server.New()
	for i := range colls {
		sch := colls[i].schema()
		coll, err := sch.Compile()
		if err != nil {
			panic(fmt.Sprintf("harness: compile: %v", err))
		}
		s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(colls[i].Slots, coll.Size()), Collator: coll})
	}
	return s
}

// demoColls describes the collations the program sets up itself.
func demoColls() []CollDef {
	return []CollDef{
		{Name: "country", Keys: []string{"country"}, Count: true, Slots: 5000, Fields: []FieldDef{
			{F: "height", M: []MeasureDef{{N: "mean"}, {N: "sum"}, {N: "var"}, {N: "max"}, {N: "min"}}},
			{F: "iata", M: []MeasureDef{{"uniquecount", 10}}},
		}},
		{Name: "tz", Keys: []string{"tz"}, Count: true, Slots: 5000, Fields: []FieldDef{
			{F: "country", M: []MeasureDef{{"uniquecount", 8}}},
			{F: "height", M: []MeasureDef{{"uniquecount", 8}}},
		}},
	}
}

// ---------------------------------------------------------------- wire

type wire struct {
	bytes  []byte
	rowEnd []int // offset just past each row's content
}

func (q *Req) wire(colls []CollDef) wire {
	switch q.Kind {
	case "upload":
		return q.uploadWire()
	case "query":
		s := spell(q.Sel, q.Crit, q.Style)
		name := colls[q.Coll].Name
		path := "/collation/" + url.PathEscape(name)
		if q.Style&16 != 0 {
			path = fmt.Sprintf("/collation/%%%02X", name[0]) + url.PathEscape(name[1:])
		}
		enc := url.QueryEscape(s)
		if q.Style&32 != 0 {
			enc = strings.Replace(enc, "+", "%20", -1)
		}
		if q.Method == "POST" && !q.ViaURL {
			body := "q=" + enc + q.more()
			return wire{bytes: []byte("POST " + path + q.proto() + q.hdr() + "Content-Type: application/x-www-form-urlencoded\r\nContent-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n" + body)}
		}
		m := q.Method
		if m == "" {
			m = "GET"
		}
		h := ""
		if m == "POST" {
			h = "Content-Length: 0\r\n"
		}
		return wire{bytes: []byte(m + " " + path + "?q=" + enc + q.more() + q.proto() + q.hdr() + h + "\r\n")}
	}
	return wire{bytes: []byte(q.Raw)}
}

func (q *Req) proto() string {
	h := q.Host
	if h == "" {
		h = "x"
	}
	if q.Old {
		return " HTTP/1.0\r\nHost: " + h + "\r\n"
	}
	return " HTTP/1.1\r\nHost: " + h + "\r\n"
}

func (q *Req) hdr() string {
	h := ""
	for _, l := range q.Hdr {
		h += l + "\r\n"
	}
	return h
}

func (q *Req) more() string {
	if q.More == "" {
		return ""
	}
	return "&" + q.More
}

func queryText(sel []Sel, crit []FV) string { return spell(sel, crit, 0) }

// spell writes a query in one of the ways that mean the same.
func spell(sel []Sel, crit []FV, style int) string {
	var a, b []string
	for _, s := range sel {
		a = append(a, s.M+"("+s.F+")")
	}
	for _, c := range crit {
		b = append(b, c.F+"='"+c.V+"'")
	}
	s, w, comma, and, sp := "select", "where", ", ", " and ", " "
	if style&1 != 0 {
		s, w = "SELECT", "Where"
	}
	if style&2 != 0 {
		comma = ","
	}
	if style&4 != 0 {
		and = " AND "
	}
	if style&8 != 0 {
		sp = "  "
	}
	return s + sp + strings.Join(a, comma) + sp + w + sp + strings.Join(b, and)
}

// rawDelim is the delimiter itself: 0xHH stands for any byte.
func rawDelim(d string) string {
	if d == "" {
		return "\t"
	}
	if strings.HasPrefix(d, "0x") {
		if n, err := strconv.ParseUint(d[2:], 16, 8); err == nil {
			return string([]byte{byte(n)})
		}
	}
	return d
}

func (q *Req) uploadWire() wire {
	eol := q.EOL
	if eol == "" {
		eol = "\n"
	}
	delim := rawDelim(q.Delim)
	form := strings.HasPrefix(strings.ToLower(q.CT), "application/x-www-form-urlencoded")
	esc := func(s string) string {
		if form {
			return url.QueryEscape(s)
		}
		return s
	}
	var bb strings.Builder
	if form {
		bb.WriteString("data=")
	}
	var ends []int
	for i := range q.Rows {
		bb.WriteString(esc(q.Rows[i].line(delim)))
		ends = append(ends, bb.Len())
		if i < len(q.Rows)-1 || !q.NoEOL {
			bb.WriteString(esc(eol))
		} else if q.EndCR {
			bb.WriteString(esc("\r"))
		}
	}
	if form {
		bb.WriteString(q.more())
	}
	body := bb.String()
	h := "POST /obs" + q.Tail + q.proto() + q.hdr()
	if q.Expect {
		h += "Expect: 100-continue\r\n"
	}
	if q.CT != "" {
		h += "Content-Type: " + q.CT + "\r\n"
	}
	w := wire{}
	if !q.Chunked {
		h += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n"
		w.bytes = []byte(h + body)
		for _, e := range ends {
			w.rowEnd = append(w.rowEnd, len(h)+e)
		}
		return w
	}
	h += "Transfer-Encoding: chunked\r\n\r\n"
	out := []byte(h)
	pos, k, ri := 0, 0, 0
	for pos < len(body) {
		n := len(body) - pos
		if len(q.Frames) > 0 {
			if f := q.Frames[k%len(q.Frames)]; f > 0 && f < n {
				n = f
			}
		}
		k++
		out = append(out, []byte(strconv.FormatInt(int64(n), 16)+"\r\n")...)
		for ri < len(ends) && ends[ri] <= pos+n {
			w.rowEnd = append(w.rowEnd, len(out)+ends[ri]-pos)
			ri++
		}
		out = append(out, body[pos:pos+n]...)
		out = append(out, "\r\n"...)
		pos += n
	}
	for ri < len(ends) {
		w.rowEnd = append(w.rowEnd, len(out))
		ri++
	}
	w.bytes = append(out, "0\r\n\r\n"...)
	return w
}

// ---------------------------------------------------------------- answers

type answer struct {
	raw    string
	vals   map[string]float64 // "sum(id)" -> value
	order  []string
	dup    bool
	broken string
}

// parseAnswer reads the measure lines of a query answer.
func parseAnswer(body string, ncrit int) answer {
	a := answer{raw: body, vals: map[string]float64{}}
	lines := strings.Split(body, "\n")
	if len(lines) > 0 && lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for i, l := range lines {
		if i < ncrit {
			continue // echoed criteria
		}
		e := strings.LastIndex(l, ")=")
		if e < 0 {
			a.broken = "unexpected line " + strconv.Quote(l)
			continue
		}
		name, val := l[:e+1], l[e+2:]
		v, err := strconv.ParseFloat(val, 64)
		if err != nil {
			a.broken = "unreadable value in " + strconv.Quote(l)
			continue
		}
		if _, ok := a.vals[name]; ok {
			a.dup = true
		}
		a.vals[name] = v
		a.order = append(a.order, name)
	}
	return a
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
