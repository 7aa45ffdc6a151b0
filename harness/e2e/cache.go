package e2e

import (
	sim "github.com/iand/starbow/internal/zzvsim"
	"net/http"
	"strconv"
	"strings"
	"time"
)

// An HTTP cache between clients and the server, as lax as RFC 9111 allows: it
// keeps every answer it may keep, reuses it for as long as it may (Scenario.
// Life if the server does not say), and asks again whether a kept answer still
// holds if it was given the means to.
type cache struct {
	shared bool
	kept   map[string]*keptAnswer
}

type keptAnswer struct {
	status int
	body   string
	header http.Header
	hdr    string // the request's further header lines
	until  int64  // simulated time up to which it may be used without asking
}

func (e *engine) cacheFor(ci int, q *Req) *cache {
	name, shared := "", true
	if q.Cache == 2 { // the client's own
		name, shared = strconv.Itoa(ci), false
	}
	c := e.caches[name]
	if c == nil {
		c = &cache{shared: shared, kept: map[string]*keptAnswer{}}
		if e.caches == nil {
			e.caches = map[string]*cache{}
		}
		e.caches[name] = c
	}
	return c
}

// cacheable requests are plain GET queries.
func (q *Req) cacheable(w wire) (uri string, again bool, ok bool) {
	if q.Cache == 0 || q.Kind != "query" || q.Fault != "" || q.Old {
		return "", false, false
	}
	line := string(w.bytes)
	line = line[:strings.Index(line, "\r\n")]
	f := strings.Split(line, " ")
	if f[0] != "GET" {
		return "", false, false
	}
	for _, h := range q.Hdr {
		switch l := strings.ToLower(h); {
		case strings.HasPrefix(l, "if-"), strings.HasPrefix(l, "authorization:"), strings.HasPrefix(l, "range:"):
			return "", false, false
		case strings.HasPrefix(l, "cache-control:"), strings.HasPrefix(l, "pragma:"):
			again = true
		}
	}
	return f[1], again, true
}

// directives of a Cache-Control header
func directives(h http.Header) map[string]string {
	m := map[string]string{}
	for _, v := range h["Cache-Control"] {
		for _, d := range strings.Split(v, ",") {
			d = strings.TrimSpace(d)
			val := ""
			if i := strings.IndexByte(d, '='); i >= 0 {
				d, val = d[:i], strings.Trim(strings.TrimSpace(d[i+1:]), `"`)
			}
			if d != "" {
				m[strings.ToLower(strings.TrimSpace(d))] = val
			}
		}
	}
	return m
}

// storable lists the statuses that may be kept although nothing says for how long.
var storable = map[int]bool{200: true, 203: true, 204: true, 300: true, 301: true, 404: true, 405: true, 410: true, 414: true, 501: true}

// life is how long the answer may be used without asking; negative: not at all.
func (c *cache) life(h http.Header, status int, dflt int64) int64 {
	d := directives(h)
	_, noStore := d["no-store"]
	_, private := d["private"]
	if noStore || private && c.shared || !storable[status] || h.Get("Vary") == "*" {
		return -1
	}
	if fields, ok := d["no-cache"]; ok && fields == "" {
		return 0 // with fields it is about these only
	}
	for _, k := range []string{"s-maxage", "max-age"} {
		if v, ok := d[k]; ok && (k != "s-maxage" || c.shared) {
			n, err := strconv.ParseInt(v, 10, 32)
			if err != nil || n < 0 {
				n = 0
			}
			return n * 1000 * ms
		}
	}
	if x, ok := h["Expires"]; ok {
		t, err := http.ParseTime(strings.Join(x, ","))
		at, err2 := http.ParseTime(h.Get("Date"))
		if err != nil || err2 != nil || !t.After(at) {
			return 0
		}
		return int64(t.Sub(at) / time.Nanosecond)
	}
	return dflt
}

func (e *engine) keep(c *cache, uri string, q *Req, r *rec) {
	l := c.life(r.header, r.status, e.h.sc.Life)
	if l < 0 {
		return
	}
	c.kept[uri] = &keptAnswer{status: r.status, body: r.body, header: r.header.Clone(), hdr: q.hdr(), until: e.s.Now() + l}
}

// ask is what is sent along to find out whether the kept answer still holds.
func (k *keptAnswer) ask() string {
	h := ""
	if t := k.header.Get("Etag"); t != "" {
		h += "If-None-Match: " + t + "\r\n"
	}
	if t := k.header.Get("Last-Modified"); t != "" {
		h += "If-Modified-Since: " + t + "\r\n"
	}
	return h
}

// throughCaches has most queries sent through caches, the same ones again and
// again.
func throughCaches(r *sim.RNG, sc *Scenario) {
	sc.Life = []int64{1, 1000, 60_000, 3600_000, 86400_000}[r.Intn(5)] * ms
	sc.Repeat = r.Range(1, 2)
	var seen []Req
	own := r.Chance(0.5)
	for i := range sc.Clients {
		for j := range sc.Clients[i] {
			q := &sc.Clients[i][j]
			if q.Kind != "query" {
				continue
			}
			if len(seen) > 0 && r.Chance(0.7) {
				old := seen[r.Intn(len(seen))]
				q.Coll, q.Crit, q.Sel, q.Style, q.More = old.Coll, old.Crit, old.Sel, old.Style, old.More
			} else {
				seen = append(seen, *q)
			}
			if r.Chance(0.1) {
				continue
			}
			q.Method, q.ViaURL = "GET", true
			q.Cache = 1
			if own && r.Chance(0.4) {
				q.Cache = 2
			}
			if r.Chance(0.3) {
				q.Think = []int64{1, 500, 1500, 61_000}[r.Intn(4)] * ms
			}
		}
	}
}
