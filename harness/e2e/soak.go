package e2e

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/zzharness/core"
	sim "github.com/iand/starbow/internal/zzvsim"
)

// C24: what the server holds does not grow with the traffic it has seen. The
// same endless mixture of requests is cut off after N and after 2N requests;
// what is left behind — memory reachable once everything has calmed down, and
// tasks still there — must be the same.

// SoakSpec describes the mixture.
type SoakSpec struct {
	N     int      `json:"n"` // requests in the shorter run
	NCl   int      `json:"clients"`
	Kinds []string `json:"kinds"` // what the requests are, with multiplicity
	Seed  uint64   `json:"seed"`
	Rows  int      `json:"rows"`
	Fat   int      `json:"fat"`  // size of the values
	Keep  float64  `json:"keep"` // how often a connection is kept
	Delay int64    `json:"delay"`
	Hdr   int      `json:"hdr,omitempty"` // which headers every request has with a value of its own
}

// headers that may have any value
var soakHeaders = []string{
	"User-Agent: a/%s", "Cookie: s=%s", "X-Forwarded-For: %s", "Referer: http://x/%s", "Authorization: Bearer %s", "If-None-Match: \"%s\"", "X-Request-Id: %s",
	"Accept: x/%s", "Origin: http://%s", "X-%s: 1", "Accept-Language: %s", "Via: 1.1 %s", "Traceparent: 00-%s-01", "X-Real-Ip: %s", "Content-Language: %s", "Host: %s",
}

var soakKinds = []string{
	"accepted", "accepted", "new-key", "new-key", "refused-row", "cut", "half-closed", "cancelled", "form", "media", "no-data",
	"query", "query", "other-key", "other-collation", "other-measure", "no-key", "malformed", "query-abandoned", "odd", "silent", "garbage",
	"slow", "stalled", "lengths", "lengths", "method",
}

func soakScenario(r *sim.RNG, thorough bool) *Scenario {
	u := &SoakSpec{N: 400, NCl: pickInt(r, []int{1, 2, 4, 8}), Seed: r.U64(), Rows: pickInt(r, []int{1, 1, 3, 8}), Fat: pickInt(r, []int{1, 10, 40, 120}), Keep: []float64{0, 0.3, 0.9, 1}[r.Intn(4)], Delay: []int64{0, 0, 1000, 20_000}[r.Intn(4)]}
	for i := r.Range(1, 4); i > 0; i-- {
		u.Kinds = append(u.Kinds, pick(r, soakKinds))
	}
	switch {
	case r.Chance(0.25):
		u.Hdr = 1<<uint(len(soakHeaders)) - 1
	case r.Chance(0.25):
		u.Hdr = 1 << uint(r.Intn(len(soakHeaders)))
	}
	if thorough && r.Chance(0.3) {
		u.N *= 2
	}
	sc := &Scenario{Mode: "soak", Soak: u}
	ms := []MeasureDef{{N: "sum"}, {N: "mean"}, {N: "var"}, {N: "max"}, {N: "min"}}
	for i := r.Range(1, 3); i > 0; i-- {
		d := CollDef{Name: "col" + strconv.Itoa(i), Keys: []string{"k"}, Count: r.Chance(0.7), Slots: pickInt(r, []int{2, 8, 40}), Fields: []FieldDef{{F: "v", M: ms[:r.Range(1, len(ms))]}}}
		if r.Chance(0.3) {
			d.Keys = append(d.Keys, "k2")
		}
		if r.Chance(0.6) {
			d.Fields = append(d.Fields, FieldDef{F: "u", M: []MeasureDef{{"uniquecount", r.Range(4, 7)}}})
		}
		sc.Colls = append(sc.Colls, d)
	}
	return sc
}

// soakReq makes request i of client ci.
func soakReq(sc *Scenario, ci, i int) Req {
	u := sc.Soak
	r := sim.NewRNG(u.Seed + uint64(ci)*1_000_003 + uint64(i)*7919)
	kind := u.Kinds[r.Intn(len(u.Kinds))]
	unique := fmt.Sprintf("%x", r.U64())
	fill := strings.Repeat("y", u.Fat) + unique
	host, hdr := "x", []string(nil)
	for j, h := range soakHeaders {
		if u.Hdr>>uint(j)&1 != 0 {
			if h = fmt.Sprintf(h, unique); strings.HasPrefix(h, "Host: ") {
				host = h[6:]
			} else {
				hdr = append(hdr, h)
			}
		}
	}
	nth := i*u.NCl + ci
	ks := []string{"a", "b"} // observed from the beginning
	c := &sc.Colls[r.Intn(len(sc.Colls))]
	for j := range sc.Colls {
		if c == &sc.Colls[j] {
			ci = j
		}
	}
	row := func(k string) RowDef {
		fvs := []FV{{F: "k", V: k}, {F: "k2", V: "z"}, {F: "v", V: strconv.Itoa(r.Intn(1000))}, {F: "u", V: strconv.Itoa(r.Intn(50)) + fill}}
		if r.Chance(0.5) {
			fvs = append(fvs, FV{F: "f" + unique, V: fill})
		}
		return RowDef{ID: -1, TS: strconv.Itoa(1 + r.Intn(1_000_000_000)), FVs: fvs}
	}
	q := Req{Kind: "upload", CT: "text/plain", Delim: "|", Keep: r.Chance(u.Keep), Host: host, Hdr: hdr}
	for j := 0; j < 1+r.Intn(u.Rows); j++ {
		q.Rows = append(q.Rows, row(pick(r, ks)))
	}
	query := func() {
		q.Kind, q.Rows, q.Coll = "query", nil, ci
		q.Method, q.ViaURL = pick(r, []string{"GET", "POST"}), r.Chance(0.5)
		q.Sel = append(q.Sel, c.measures()...)
		q.Crit = []FV{{F: "k", V: pick(r, ks)}}
		if len(c.Keys) > 1 {
			q.Crit = append(q.Crit, FV{F: "k2", V: "z"})
		}
		q.Style = r.Intn(64)
	}
	raw := func(s string) {
		h := "Host: " + host + "\r\n"
		for _, l := range hdr {
			h += l + "\r\n"
		}
		q = Req{Kind: "raw", Raw: strings.Replace(s, "Host: x\r\n", h, 1), Want: 4, Keep: q.Keep}
	}
	post := func(ct, body string) {
		raw("POST /obs HTTP/1.1\r\nHost: x\r\nContent-Type: " + ct + "\r\nContent-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n" + body)
	}
	fault := func(f string) {
		w := q.wire(sc.Colls)
		q.Fault, q.At = f, r.Intn(len(w.bytes))
		if n := len(w.rowEnd); n > 0 && r.Chance(0.7) {
			q.At = w.rowEnd[r.Intn(n)] - r.Intn(3)
		}
	}
	switch kind {
	case "accepted":
	case "new-key":
		for j := range q.Rows {
			q.Rows[j].FVs[0].V = unique + strconv.Itoa(j)
		}
	case "refused-row":
		j := r.Intn(len(q.Rows))
		q.Rows[j].Bad = true
		q.Rows[j].Raw = pick(r, []string{"x|" + fill, "1|k=a|k2=z|v=" + fill, "99999999999999999999|" + fill})
	case "cut":
		fault("rst")
	case "half-closed":
		fault("fin")
	case "cancelled":
		q.Fault, q.After = pick(r, []string{"rstafter", "finafter"}), []int64{0, 0, 1000, 10_000, 100_000}[r.Intn(5)]
	case "form":
		q.CT = "application/x-www-form-urlencoded"
	case "media":
		post("text/"+unique, fill)
	case "no-data":
		post("application/x-www-form-urlencoded", "d"+unique+"="+fill)
	case "query":
		query()
	case "other-key":
		query()
		q.Crit[0].V = fill
	case "other-collation":
		raw("GET /collation/" + fill + "?q=select+count(*)+where+k%3D'a' HTTP/1.1\r\nHost: x\r\n\r\n")
	case "other-measure":
		query()
		q.Sel = append(q.Sel, Sel{M: "m" + unique, F: "v"}, Sel{M: "max", F: fill})
	case "no-key":
		query()
		q.Crit[0].F = fill
	case "malformed":
		raw("GET /collation/" + c.Name + "?q=" + fill + " HTTP/1.1\r\nHost: x\r\n\r\n")
	case "query-abandoned":
		query()
		if r.Chance(0.5) {
			fault("rst")
		} else {
			q.Fault, q.After = "rstafter", []int64{0, 0, 1000, 10_000}[r.Intn(4)]
		}
	case "odd":
		raw(pick(r, []string{"PUT", "DELETE", "GET", "HEAD"}) + " /obs?x=" + fill + " HTTP/1.1\r\nHost: x\r\n\r\n")
	case "method":
		raw("M" + unique + " " + pick(r, []string{"/obs", "/collation/" + c.Name, "/"}) + " HTTP/1.1\r\nHost: x\r\n\r\n")
	case "lengths": // a length no other one has
		q.Rows = q.Rows[:1]
		q.Rows[0].FVs = append(q.Rows[0].FVs[:2:2], FV{F: "pad", V: strings.Repeat("p", nth)})
	case "silent":
		q.Fault, q.At = "rst", 0
	case "garbage":
		raw(fill + "\r\n\r\n")
		q.Keep = false
	case "slow":
		w := q.wire(sc.Colls)
		q.Segs, q.Gaps = []int{len(w.bytes)/2 + 1}, []int64{[]int64{20, 700, 70_000}[r.Intn(3)] * ms}
	case "stalled":
		fault("rst")
		q.Segs, q.Gaps = []int{q.At/2 + 1}, []int64{[]int64{20, 700, 70_000, 700_000}[r.Intn(4)] * ms}
	}
	if u.Delay > 0 {
		q.Think = int64(r.Intn(int(u.Delay)))
	}
	return q
}

type soakResult struct {
	heap  int64
	tasks int
	left  []string
	v     *core.Violation
}

func heapInUse() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// soak runs the first n requests and measures what is left of them. All that
// the simulation itself needed is gone by then.
func soak(r *core.Run, sc *Scenario, n int) soakResult {
	var srv *server.Server
	res := soakResult{}
	r.Extra = int64(n) * 40_000
	base := int64(0)
	func() {
		s := r.OwnSim(fmt.Sprintf("%d requests", n))
		base = heapInUse()
		e := &engine{s: s, h: &history{sc: sc, colls: sc.Colls}, conns: map[int]*sim.Conn{}}
		h := e.h
		e.srvMain = s.Spawn("main", func() {
			srv = buildServer(sc.Colls)
			srv.Serve()
			h.mainEnd = s.Seq()
		})
		e.srvMain.Daemon = true
		u := sc.Soak
		e.pending = u.NCl
		answered := 0
		for ci := 0; ci < u.NCl; ci++ {
			ci := ci
			s.Spawn(fmt.Sprintf("c%d", ci), func() {
				sim.Block("server to listen", func() bool { return s.Listening() || h.mainEnd > 0 })
				for i := 0; i < n/u.NCl; i++ {
					q := soakReq(sc, ci, i)
					if q.Think > 0 {
						sim.Sleep(dur(q.Think))
					}
					x := e.request(ci, i, &q, false)
					if x.answered() {
						answered++
					} else if !x.gone && !x.halfclosed && res.v == nil {
						res.v = core.V("no-answer", "%s got no answer; %s", x.name(), x.panicked)
					}
					h.recs = h.recs[:0]
					if c := x.conn; c != nil && e.conns[ci] != c && !c.Closed() {
						// no crowd of connections the server has not looked at
						if !x.gone {
							c.Fin()
						}
						late := s.Now() + 10_000*ms
						s.After(10_000*ms, func() {})
						sim.Block("the server to close", func() bool { return c.Closed() || s.Now() >= late })
					}
				}
				if c := e.conns[ci]; c != nil {
					c.Fin()
					delete(e.conns, ci)
				}
				e.pending--
			})
		}
		over := false
		s.Spawn("fin", func() {
			sim.Block("clients to finish", func() bool { return e.pending == 0 })
			sim.Sleep(dur(2 * 3_600_000 * ms))
			over = true
		})
		out := s.Run(func() bool { return over })
		for _, t := range s.Tasks() {
			if t.Panic != nil && res.v == nil {
				res.v = core.V("panic", "task %s panicked: %v", t.Name, t.Panic)
			}
			if !t.Done() && t.Name != "main" && t.Name != "fin" {
				res.tasks++
				if len(res.left) < 3 {
					res.left = append(res.left, t.Name)
				}
			}
		}
		res.tasks += s.Timers
		switch {
		case res.v != nil:
		case h.mainEnd > 0:
			res.v = core.V("process-died", "the server stopped by itself")
		case out.Over || !over:
			res.v = core.V("hang", "the requests were not all answered")
		}
		r.Probe("soak-requests", int64(n))
		r.Probe("soak-answered", int64(answered))
		r.DoneOwn(s)
	}()
	res.heap = heapInUse() - base
	runtime.KeepAlive(srv)
	return res
}

func registerSoak() {
	core.Register(&core.Prop{
		ID: "C24", Quick: 1200,
		Gen:    func(r *sim.RNG, th bool) interface{} { return soakScenario(r, th) },
		Decode: decode,
		Run: func(r *core.Run, x interface{}) *core.Violation {
			sc := x.(*Scenario)
			n := sc.Soak.N
			warmUp()
			if v := soak(r, sc, 60).v; v != nil { // what is allocated once
				return v
			}
			r.NonTriv = true
			// If it grows, make sure that it goes on growing: a store of limited size
			// is filled at some time.
			var at [7]soakResult
			times := []int{1, 2, 4, 8, 32, 64, 128}
			if n > 400 {
				times = []int{1, 2, 4, 8, 16, 32, 64}
			}
			per, last := int64(0), 0.0
			what := strings.Join(sc.Soak.Kinds, ", ")
			for i := range at {
				at[i] = soak(r, sc, n*times[i])
				if at[i].v != nil {
					return at[i].v
				}
				if i == 0 {
					continue
				}
				more := n * (times[i] - times[i-1])
				dm, dt := at[i].heap-at[i-1].heap, at[i].tasks-at[i-1].tasks
				if dm < int64(1000+more) && dt < 2<<uint(i) {
					return nil
				}
				if i >= 3 && dt >= 2<<uint(i) {
					return core.V("tasks-left", "%d requests (%s) leave %d tasks and timers behind, %d leave %d: %v", n*times[i-1], what, at[i-1].tasks, n*times[i], at[i].tasks, at[i].left)
				}
				rate := float64(dm) / float64(more)
				if i >= 5 && rate < 0.6*last {
					return nil // a store of limited size, nearly full
				}
				if i == 5 && rate > 0.85*last {
					break // growing steadily
				}
				last = rate
				per = dm / int64(more) / 8 * 8
				if i >= 2 && dm > 8<<20 {
					break
				}
			}
			return core.V("memory-left", "what the server holds grows by %d bytes or more with every request (%s)", per, what)
		},
		Shrink: func(x interface{}) []interface{} {
			s := x.(*Scenario)
			var out []interface{}
			try := func(f func(c *Scenario, u *SoakSpec)) {
				c, u := *s, *s.Soak
				c.Soak = &u
				f(&c, &u)
				out = append(out, &c)
			}
			for i := range s.Soak.Kinds {
				if len(s.Soak.Kinds) > 1 {
					i := i
					try(func(c *Scenario, u *SoakSpec) {
						u.Kinds = append(append([]string(nil), u.Kinds[:i]...), u.Kinds[i+1:]...)
					})
				}
			}
			if s.Soak.NCl > 1 {
				try(func(c *Scenario, u *SoakSpec) { u.NCl = 1 })
			}
			if s.Soak.Hdr != 0 {
				try(func(c *Scenario, u *SoakSpec) { u.Hdr = 0 })
				for b := 1; b <= s.Soak.Hdr; b <<= 1 {
					if b := b; s.Soak.Hdr&b != 0 && s.Soak.Hdr != b {
						try(func(c *Scenario, u *SoakSpec) { u.Hdr = b })
					}
				}
			}
			if s.Soak.Rows > 1 {
				try(func(c *Scenario, u *SoakSpec) { u.Rows = 1 })
			}
			if len(s.Colls) > 1 {
				try(func(c *Scenario, u *SoakSpec) { c.Colls = c.Colls[:1] })
			}
			return out
		},
		Rule: "every run compares what is left after N, and after 2N requests of the same mixture; distinct means a distinct hash of all scheduling decisions and the recorded history",
		Real: realParts, Stub: stubParts, Need: []string{"soak-requests", "soak-answered", "reset-mid-request", "close-mid-request", "cancel-by-reset", "connection-reused"},
	})
}

var warmed bool

// warmUp has the runtime make more goroutines than any run has at one time: it
// keeps what it once allocated for them.
func warmUp() {
	if warmed {
		return
	}
	warmed = true
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for i := 0; i < 20_000; i++ {
		wg.Add(1)
		go func() { wg.Done(); <-stop }()
	}
	wg.Wait()
	close(stop)
	for runtime.NumGoroutine() > 1000 {
		runtime.Gosched()
	}
}
