package e2e

import (
	"fmt"
	"net/http"
	"strings"
	"syscall"
	"time"

	"github.com/iand/starbow/internal/zzharness/core"
	sim "github.com/iand/starbow/internal/zzvsim"
)

const (
	ms = int64(1_000_000)
	// simulated time after which a client that has been waiting for an answer
	// (with nothing left that could delay it) counts as unanswered
	patience = 3600 * 1000 * ms
)

// record of one request
type rec struct {
	client, idx int
	req         *Req
	inv, ret    int64 // history stamps; ret 0: never answered
	status      int
	body        string
	header      http.Header
	panicked    string
	refusedConn bool // nothing listens
	complete    bool // all bytes of the request were delivered
	gone        bool // the client reset the connection or left
	halfclosed  bool
	delivered   int
	endAt       int64   // stamp at which the last byte was delivered
	rowAt       []int64 // stamps at which the rows were completely delivered
	final       bool
	conn        *sim.Conn
	reused      bool // sent on the connection of the request before
	done        bool
}

func (r *rec) ok() bool { return r.ret > 0 && r.status >= 200 && r.status < 300 }
func (r *rec) name() string {
	return fmt.Sprintf("client %d request %d (%s)", r.client, r.idx, r.req.Kind)
}
func (r *rec) faulted() bool  { return r.req.Fault != "" }
func (r *rec) answered() bool { return r.ret > 0 }

type history struct {
	sc     *Scenario
	colls  []CollDef
	recs   []*rec
	res    sim.Result
	events []string
	// signals
	sigs      []sigRec
	mainEnd   int64 // stamp at which main returned (0: still running)
	mainPanic string
	serveErr  error // what Serve returned
	listenAt  int64
	died      int64 // killed by the default action of a signal
	hungMain  bool
	steps     int64
}

type sigRec struct {
	at, stamp int64
	what      string
	before    bool // main was still running
}

type engine struct {
	s       *sim.Sim
	h       *history
	pending int // clients still running
	stalled int // clients waiting for the others
	done    int // requests done
	frozen  int // requests whose server thread stalls
	srvMain *sim.Task
	finalOn bool
	conns   map[int]*sim.Conn // connections kept open, by client
	caches  map[string]*cache
	dead    bool
}

// run executes the scenario's clients against the server.
func run(r *core.Run, label string, explored bool, sc *Scenario, clients [][]Req) *history {
	r.Extra = 0
	for _, l := range clients {
		if len(l) > 50 {
			r.Extra += int64(len(l)) * 8000
		}
		for i := range l {
			r.Extra += int64(len(l[i].Rows)) * 4000
		}
	}
	s := r.Sim(label, explored)
	e := &engine{s: s, h: &history{sc: sc}, conns: map[int]*sim.Conn{}}
	h := e.h
	if sc.Demo {
		h.colls = demoColls()
	} else {
		h.colls = sc.Colls
	}
	e.srvMain = s.Spawn("main", func() {
		if sc.Demo {
			core.StarbowMain()
		} else {
			srv := buildServer(h.colls)
			h.serveErr = srv.Serve()
		}
		h.mainEnd = s.Seq()
		s.Logf("main returned")
	})
	e.srvMain.Daemon = true
	switch sc.Listen {
	case "in use":
		s.ListenErr = syscall.EADDRINUSE
	case "no permission":
		s.ListenErr = syscall.EACCES
	case "no files":
		s.ListenErr = syscall.EMFILE
	}
	for _, c := range sc.Clock {
		c := c
		s.After(c.At, func() {
			s.ClockOff += c.Delta
			s.Fault("clock-jump")
			s.Logf("clock %+d", c.Delta)
		})
	}
	for i, at := range sc.Signals {
		i, at := i, at
		s.After(at, func() {
			sig := syscall.SIGINT
			if i < len(sc.SigKind) && sc.SigKind[i] == 1 {
				sig = syscall.SIGTERM
			}
			if h.mainEnd > 0 || h.died > 0 {
				return
			}
			what := s.Kill(sig)
			s.Fault("signal-" + what)
			s.Logf("signal %v: %s", sig, what)
			h.sigs = append(h.sigs, sigRec{at: s.Now(), stamp: s.Seq(), what: what, before: true})
			if what == "default" {
				h.died = s.Seq()
				e.dead = true
			}
		})
	}
	e.pending = len(clients)
	for ci := range clients {
		ci := ci
		s.Spawn(fmt.Sprintf("c%d", ci), func() { e.client(ci, clients[ci]) })
	}
	finished := false
	if sc.Final {
		s.Spawn("fin", func() {
			sim.Block("clients to finish", func() bool { return e.pending == 0 })
			e.finals(len(clients), clients)
			finished = true
		})
	}
	h.res = s.Run(func() bool {
		if e.dead {
			return true
		}
		if sc.Signals != nil || sc.Listen != "" {
			return h.mainEnd > 0 // else until nothing can happen any more
		}
		if sc.Final {
			return finished
		}
		return e.pending == 0
	})
	h.steps = s.Steps()
	for _, t := range s.Tasks() {
		if t.Panic != nil {
			s.Logf("task %s panicked: %v", t.Name, t.Panic)
		}
	}
	r.Done(s)
	return h
}

func (e *engine) client(ci int, reqs []Req) {
	s := e.s
	sim.Block("server to listen", func() bool { return s.Listening() || e.h.mainEnd > 0 })
	for i := range reqs {
		q := &reqs[i]
		if q.Think > 0 {
			sim.Sleep(dur(q.Think))
		}
		if q.Gate {
			sim.Block("a stalled thread", func() bool { return e.frozen > 0 || e.pending <= 1 })
		}
		e.request(ci, i, q, false)
	}
	if c := e.conns[ci]; c != nil {
		c.Fin()
		delete(e.conns, ci)
	}
	e.pending--
}

func (e *engine) request(ci, idx int, q *Req, final bool) *rec {
	s := e.s
	r := &rec{client: ci, idx: idx, req: q, final: final}
	e.h.recs = append(e.h.recs, r)
	w := q.wire(e.h.colls)
	r.rowAt = make([]int64, len(w.rowEnd))
	sim.Y()
	r.inv = s.Seq()
	var asked *keptAnswer
	uri, again, cached := q.cacheable(w)
	var store *cache
	if cached {
		store = e.cacheFor(ci, q)
		s.Fault("sent-through-cache")
		if k := store.kept[uri]; k != nil && (k.header.Get("Vary") == "" || k.hdr == q.hdr()) {
			if s.Now() < k.until && !again {
				s.Fault("answered-by-cache")
				r.status, r.body, r.header = k.status, k.body, k.header
				r.complete, r.done = true, true
				r.ret = s.Seq()
				r.endAt = r.ret
				s.Logf("%d.%d %s answered by the cache: %d %q", ci, idx, q.Kind, r.status, r.body)
				return r
			}
			s.Fault("kept-answer-checked")
			if h := k.ask(); h != "" {
				asked = k
				w.bytes = append(w.bytes[:len(w.bytes)-2:len(w.bytes)-2], h+"\r\n"...)
			}
		}
	}
	conn := e.conns[ci]
	if conn != nil && q.Keep && !final && !conn.Closed() {
		conn.Resp = nil
		conn.StallAt, conn.Thaw, conn.Asked = 0, nil, false
		r.reused = true
		s.Logf("%d.%d %s sent on %s", ci, idx, q.Kind, conn.Name)
	} else {
		if conn != nil {
			conn.Fin()
		}
		conn = s.Dial(fmt.Sprintf("c%d.%d", ci, idx))
		s.Logf("%d.%d %s sent", ci, idx, q.Kind)
		if conn != nil {
			conn.Keep = q.Keep
		}
	}
	delete(e.conns, ci)
	if conn == nil {
		r.refusedConn = true
		r.done = true
		return r
	}
	r.conn = conn
	if q.Stall > 0 {
		from, limit, froze := e.done, s.Steps()+3_000_000, false
		conn.StallAt = q.Stall
		conn.Thaw = func() bool {
			if !froze {
				froze = true
				e.frozen++
			}
			return e.done-from >= q.Until || s.Steps() > limit
		}
		defer func() {
			if froze {
				e.frozen--
			}
		}()
	}
	defer func() {
		e.done++
		if conn.Keep && conn.Resp != nil && conn.Resp.Panic == "" && !r.gone && !r.halfclosed {
			e.conns[ci] = conn
		}
	}()
	limit := len(w.bytes)
	fault := q.Fault
	if fault == "rst" || fault == "fin" || fault == "stall" || fault == "stallresume" {
		if q.At < limit {
			limit = q.At
		}
	}
	send := func(to int) bool {
		k := 0
		for r.delivered < to {
			if len(q.Gaps) > 0 {
				if g := q.Gaps[k%len(q.Gaps)]; g > 0 {
					sim.Sleep(dur(g))
				} else {
					sim.Y()
				}
			} else {
				sim.Y()
			}
			n := to - r.delivered
			if len(q.Segs) > 0 {
				if x := q.Segs[k%len(q.Segs)]; x > 0 && x < n {
					n = x
				}
			}
			k++
			if conn.Resp != nil || conn.Closed() {
				return false // answered early; stop sending
			}
			conn.Deliver(w.bytes[r.delivered : r.delivered+n])
			if n < to-r.delivered || len(q.Segs) > 0 {
				s.Fault("split-delivery")
			}
			r.delivered += n
			st := s.Seq()
			for i, re := range w.rowEnd {
				if r.rowAt[i] == 0 && re <= r.delivered {
					r.rowAt[i] = st
				}
			}
		}
		return true
	}
	if h := strings.Index(string(w.bytes), "\r\n\r\n") + 4; q.Expect && h <= limit && send(h) {
		s.Fault("body-held-back")
		waited := false
		s.After(1000*ms, func() { waited = true })
		sim.Block("being asked for the body", func() bool {
			return waited || conn.Asked || conn.Resp != nil || conn.Closed() || e.h.mainEnd > 0
		})
		if conn.Asked {
			s.Probe("asked-for-the-body")
		}
	}
	send(limit)
	if r.delivered == len(w.bytes) {
		r.complete = true
		r.endAt = s.Seq()
	}
	if conn.Resp == nil {
		switch fault {
		case "rst":
			sim.Y()
			if conn.Resp == nil {
				conn.Reset()
				s.Fault("reset-mid-request")
				s.Logf("%d.%d reset after %d/%d bytes", ci, idx, r.delivered, len(w.bytes))
				r.gone = true
				r.done = true
				return r
			}
		case "fin":
			sim.Y()
			if conn.Resp == nil {
				conn.Fin()
				s.Fault("close-mid-request")
				s.Logf("%d.%d half-close after %d/%d bytes", ci, idx, r.delivered, len(w.bytes))
				r.halfclosed = true
			}
		case "stall", "stallresume":
			s.Fault("stall")
			s.Logf("%d.%d stalls after %d/%d bytes", ci, idx, r.delivered, len(w.bytes))
			e.stalled++
			sim.Block("everybody else", func() bool {
				if conn.Resp != nil || conn.Closed() || e.h.mainEnd > 0 {
					return true
				}
				// a server that was told to stop cannot wait for it
				return e.pending <= e.stalled && !(fault == "stall" && len(e.h.sc.Signals) > 0)
			})
			e.stalled--
			if conn.Resp == nil && !conn.Closed() {
				if fault == "stall" {
					conn.Reset()
					s.Logf("%d.%d gives up", ci, idx)
					r.gone = true
					r.done = true
					return r
				}
				s.Logf("%d.%d resumes", ci, idx)
				send(len(w.bytes))
				if r.delivered == len(w.bytes) {
					r.complete = true
					r.endAt = s.Seq()
				}
			}
		case "rstafter", "finafter":
			if q.After > 0 {
				sim.Sleep(dur(q.After))
			} else {
				sim.Y()
			}
			if conn.Resp == nil {
				if fault == "rstafter" {
					conn.Reset()
					s.Fault("cancel-by-reset")
					s.Logf("%d.%d reset while waiting", ci, idx)
					r.gone = true
					r.done = true
					return r
				}
				conn.Fin()
				s.Fault("cancel-by-close")
				s.Logf("%d.%d half-close while waiting", ci, idx)
				r.halfclosed = true
			}
		}
	}
	sim.Block(fmt.Sprintf("answer to %d.%d %s", ci, idx, q.Kind), func() bool { return conn.Resp != nil || conn.Closed() || e.h.mainEnd > 0 })
	if conn.Resp != nil {
		if conn.Resp.Panic != "" {
			r.panicked = conn.Resp.Panic
			s.Logf("%d.%d dropped: handler panicked: %v", ci, idx, r.panicked)
		} else {
			r.status = conn.Resp.Status
			r.body = string(conn.Resp.Body)
			r.header = conn.Resp.Header
			if store != nil {
				if asked != nil && r.status == 304 {
					s.Fault("kept-answer-confirmed")
					r.status, r.body = asked.status, asked.body
					hd := asked.header.Clone()
					for k, v := range r.header {
						hd[k] = v
					}
					r.header = hd
				}
				e.keep(store, uri, q, r)
			}
			r.ret = s.Seq()
			s.Logf("%d.%d answered %d %q", ci, idx, r.status, r.body)
		}
	} else {
		s.Logf("%d.%d connection closed without answer", ci, idx)
	}
	r.done = true
	return r
}

// keysOf lists every key any row or query of the scenario names, per collation.
func keysOf(colls []CollDef, clients [][]Req) [][]string {
	out := make([][]string, len(colls))
	for ci := range colls {
		seen := map[string]bool{}
		add := func(k string) {
			if !seen[k] {
				seen[k] = true
				out[ci] = append(out[ci], k)
			}
		}
		for _, c := range clients {
			for qi := range c {
				for ri := range c[qi].Rows {
					if k, ok := colls[ci].keyOf(&c[qi].Rows[ri]); ok {
						add(k)
					}
				}
				if c[qi].Kind == "query" && c[qi].Coll == ci {
					if k, ok := colls[ci].keyFromCrit(c[qi].Crit); ok {
						add(k)
					}
				}
			}
		}
	}
	return out
}

func fullQuery(colls []CollDef, ci int, key string) *Req {
	c := &colls[ci]
	q := &Req{Kind: "query", Coll: ci, Sel: c.measures()}
	for i, v := range strings.Split(key, keySep) {
		q.Crit = append(q.Crit, FV{F: c.Keys[i], V: v})
	}
	return q
}

func (e *engine) finals(ci int, clients [][]Req) {
	n := 0
	rep := e.h.sc.Repeat
	if rep == 0 {
		rep = 1
	}
	for ; rep > 0; rep-- {
		for c, keys := range keysOf(e.h.colls, clients) {
			for _, k := range keys {
				q := fullQuery(e.h.colls, c, k)
				if e.h.sc.Life > 0 {
					q.Cache = 1
				}
				e.request(ci, n, q, true)
				n++
			}
		}
	}
}

func dur(n int64) time.Duration { return time.Duration(n) }
