package zzvsim

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- listener

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

type simListener struct {
	addr   string
	queue  []*Conn
	last   *Conn // accepted last
	closed bool
}

var errClosed = errors.New("use of closed network connection")

func Listen(network, addr string) (net.Listener, error) {
	Yield(0)
	if sim.listeners[addr] != nil && !sim.listeners[addr].closed {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: simAddr(addr), Err: syscall.EADDRINUSE}
	}
	if sim.ListenErr != nil {
		sim.Fault("listen-error")
		return nil, &net.OpError{Op: "listen", Net: network, Addr: simAddr(addr), Err: sim.ListenErr}
	}
	l := &simListener{addr: addr}
	sim.listeners[addr] = l
	sim.Logf("listen %s", addr)
	return l, nil
}

// ListenConfig stands for net.ListenConfig.
type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

func (lc *ListenConfig) Listen(ctx context.Context, network, addr string) (net.Listener, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return Listen(network, addr)
}

func (l *simListener) Accept() (net.Conn, error) {
	Yield(0)
	for len(l.queue) == 0 {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: errClosed}
		}
		Block("accept", func() bool { return len(l.queue) > 0 || l.closed })
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	l.last = c
	return c, nil
}
func (l *simListener) Close() error {
	l.closed = true
	for _, c := range l.queue {
		c.Reset()
	}
	l.queue = nil
	return nil
}
func (l *simListener) Addr() net.Addr { return simAddr(l.addr) }

// Listening reports whether anything accepts connections.
func (s *Sim) Listening() bool {
	for _, l := range s.listeners {
		if !l.closed {
			return true
		}
	}
	return false
}

// Dial connects a client to the only listener there is; nil if there is none.
func (s *Sim) Dial(name string) *Conn {
	var l *simListener
	for _, x := range s.listeners { // at most one
		if !x.closed {
			l = x
		}
	}
	if l == nil {
		return nil
	}
	c := &Conn{Name: name}
	l.queue = append(l.queue, c)
	return c
}

// ---------------------------------------------------------------- connection

// Conn is both ends of one simulated connection. The client side is driven by
// the harness (Deliver, Fin, Reset), the server side is a net.Conn.
type Conn struct {
	Name   string
	segs   [][]byte // delivered and unread, in segments
	fin    bool     // client closed its sending side
	rst    bool     // connection reset
	Resp   *Response
	closed bool // server side closed
	out    bytes.Buffer
	rdl    int64 // read deadline
	wdl    int64 // write deadline
	Got    int   // bytes read by the server
	Asked  bool  // the server has told the client to go on sending (100 Continue)
	Keep   bool  // the client may send further requests once it has its answer
	Served int   // requests answered on the connection
	idle   bool  // waiting for the first byte of a request
	// the server's side stalls at that step of handling the request
	StallAt int
	Thaw    func() bool
}

type Response struct {
	Status int
	Header http.Header
	Body   []byte
	Panic  string // the handler panicked: the connection was dropped without an answer
}

func (c *Conn) Deliver(b []byte) {
	if len(b) > 0 && !c.rst {
		c.segs = append(c.segs, append([]byte(nil), b...))
	}
}

// Closed reports whether the server closed its side.
func (c *Conn) Closed() bool { return c.closed }
func (c *Conn) Fin()         { c.fin = true }
func (c *Conn) Reset()       { c.rst = true; c.segs = nil }

func (c *Conn) Read(p []byte) (int, error) {
	Yield(0)
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: errClosed}
		}
		if c.rst {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
		}
		if len(c.segs) > 0 {
			n := copy(p, c.segs[0])
			if n == len(c.segs[0]) {
				c.segs = c.segs[1:]
			} else {
				c.segs[0] = c.segs[0][n:]
			}
			c.Got += n
			return n, nil
		}
		if c.fin {
			return 0, io.EOF
		}
		if c.rdl > 0 && sim.now >= c.rdl {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		Block("read from "+c.Name, func() bool {
			return c.closed || c.rst || len(c.segs) > 0 || c.fin || (c.rdl > 0 && sim.now >= c.rdl)
		})
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	Yield(0)
	if c.rst || c.closed {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
	}
	return c.out.Write(p)
}
func (c *Conn) Close() error         { c.closed = true; return nil }
func (c *Conn) LocalAddr() net.Addr  { return simAddr("server") }
func (c *Conn) RemoteAddr() net.Addr { return simAddr(c.Name) }
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.wdl = 0
	if !t.IsZero() {
		if c.wdl = sim.now + int64(t.Sub(TimeNow())); c.wdl <= 0 {
			c.wdl = 1
		}
	}
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	if t.IsZero() {
		c.rdl = 0
		return nil
	}
	c.setReadDeadlineAt(sim.now + int64(t.Sub(TimeNow())))
	return nil
}

func (c *Conn) setReadDeadlineAt(at int64) {
	c.rdl = at
	if c.rdl <= 0 {
		c.rdl = 1
	}
	d := at - sim.now
	if d < 0 {
		d = 0
	}
	sim.After(d, func() {})
}

// ---------------------------------------------------------------- http server

// HTTPServer stands for http.Server. Requests are parsed and bodies decoded by
// the real net/http code from the bytes of a simulated connection; connection
// handling around the handler follows net/http's documented behaviour.
type HTTPServer struct {
	Addr                         string
	Handler                      http.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	TLSNextProto                 map[string]func(*http.Server, *tls.Conn, http.Handler)
	ConnState                    func(net.Conn, http.ConnState)
	ErrorLog                     *log.Logger
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(ctx context.Context, c net.Conn) context.Context

	ls       []net.Listener
	conns    []*Conn
	shutdown bool
	noKeep   bool
	active   int
	onShut   []func()
}

func (s *HTTPServer) ListenAndServe() error {
	a := s.Addr
	if a == "" {
		a = ":http"
	}
	l, err := Listen("tcp", a)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

func HTTPListenAndServe(addr string, h http.Handler) error {
	return (&HTTPServer{Addr: addr, Handler: h}).ListenAndServe()
}
func HTTPServe(l net.Listener, h http.Handler) error { return (&HTTPServer{Handler: h}).Serve(l) }

func (s *HTTPServer) Serve(l net.Listener) error {
	if s.shutdown {
		return http.ErrServerClosed
	}
	s.ls = append(s.ls, l)
	base := context.Background()
	if s.BaseContext != nil {
		base = s.BaseContext(l)
	}
	for {
		nc, err := l.Accept()
		if err != nil {
			if s.shutdown {
				return http.ErrServerClosed
			}
			if te, ok := err.(interface{ Temporary() bool }); ok && te.Temporary() {
				Sleep(5 * time.Millisecond)
				continue
			}
			return err
		}
		ctx := base
		if s.ConnContext != nil {
			ctx = s.ConnContext(ctx, nc)
		}
		c, ok := nc.(*Conn)
		if !ok {
			// a listener of the program wraps the connection
			for _, x := range sim.listeners {
				if x.last != nil && x.last.RemoteAddr() == nc.RemoteAddr() {
					c = x.last
				}
			}
		}
		s.active++
		s.conns = append(s.conns, c)
		if s.ConnState != nil {
			s.ConnState(nc, http.StateNew)
		}
		t := sim.Spawn("srv:"+c.Name, func() { s.serveConn(ctx, nc, c) })
		t.Daemon = true
	}
}

func (s *HTTPServer) Close() error {
	s.shutdown = true
	for _, l := range s.ls {
		l.Close()
	}
	return nil
}

func (s *HTTPServer) RegisterOnShutdown(f func()) { s.onShut = append(s.onShut, f) }
func (s *HTTPServer) SetKeepAlivesEnabled(v bool) { s.noKeep = !v }
func (s *HTTPServer) Shutdown(ctx context.Context) error {
	s.Close()
	for _, f := range s.onShut {
		Go(f)
	}
	if s.active > 0 {
		Block("http shutdown", func() bool {
			for _, c := range s.conns {
				if c.idle && len(c.segs) == 0 {
					c.closed = true
				}
			}
			if s.active == 0 {
				return true
			}
			return ctx.Err() != nil
		})
	}
	return ctx.Err()
}

type bodyTrack struct {
	mu     Mutex // like the one in net/http's body, but one the simulator knows
	rc     io.ReadCloser
	onEOF  func()
	eof    bool
	expect *Conn // whose client waits to be asked for the body
}

func (b *bodyTrack) Read(p []byte) (int, error) {
	b.mu.Lock()
	if c := b.expect; c != nil && !c.Asked {
		c.Asked = true
		sim.Probe("continue")
	}
	n, err := b.rc.Read(p)
	b.mu.Unlock()
	if err == io.EOF && !b.eof {
		b.eof = true
		b.onEOF()
	}
	return n, err
}
func (b *bodyTrack) Close() error {
	b.mu.Lock()
	err := b.rc.Close()
	b.mu.Unlock()
	return err
}

type respWriter struct {
	c      *Conn
	h      http.Header
	status int
	sent   http.Header
	body   bytes.Buffer

	timedOut bool

	req      *http.Request
	track    *bodyTrack // the request's body, nil if it has none
	buffered int
	flushed  bool
	duplex   bool
	hangUp   bool // the connection cannot be used for another request
}

// as net/http's
const bufferBeforeChunking = 2048

// headerOut is called when the first bytes of the answer leave the server:
// net/http then reads the rest of the request, which the handler can no longer
// read.
func (w *respWriter) headerOut() {
	if w.flushed || w.c == nil {
		return
	}
	w.flushed = true
	b := w.track
	if b == nil || w.duplex || b.eof || w.req.Close || w.sent.Get("Connection") == "close" {
		return
	}
	if b.expect != nil && !b.expect.Asked {
		w.hangUp = true
		return
	}
	_, err := io.CopyN(io.Discard, b, maxPostHandlerReadBytes+1)
	if err == io.EOF {
		sim.Probe("rest-of-body-discarded")
		b.Close()
	} else {
		w.hangUp = true
	}
}

func (w *respWriter) Header() http.Header { return w.h }
func (w *respWriter) WriteHeader(code int) {
	if w.status == 0 {
		w.status = code
		w.sent = w.h.Clone()
	}
}
func (w *respWriter) Write(p []byte) (int, error) {
	Yield(0)
	if w.status == 0 {
		w.WriteHeader(200)
	}
	if w.timedOut {
		return 0, http.ErrHandlerTimeout
	}
	if w.c != nil && w.c.rst {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
	}
	if w.buffered += len(p); w.buffered > bufferBeforeChunking {
		w.headerOut()
	}
	return w.body.Write(p)
}
func (w *respWriter) WriteString(p string) (int, error) { return w.Write([]byte(p)) }
func (w *respWriter) Flush() {
	if w.status == 0 {
		w.WriteHeader(200)
	}
	w.headerOut()
}

// as net/http does before it gives up reusing a connection
const maxPostHandlerReadBytes = 256 << 10

func (s *HTTPServer) serveConn(ctx context.Context, nc net.Conn, c *Conn) {
	state := func(st http.ConnState) {
		if s.ConnState != nil {
			s.ConnState(nc, st)
		}
	}
	defer func() {
		s.active--
		for i, x := range s.conns {
			if x == c {
				s.conns = append(append([]*Conn(nil), s.conns[:i]...), s.conns[i+1:]...)
				break
			}
		}
	}()
	defer func() {
		nc.Close()
		c.closed = true
		state(http.StateClosed)
	}()
	limit := int64(http.DefaultMaxHeaderBytes)
	if s.MaxHeaderBytes > 0 {
		limit = int64(s.MaxHeaderBytes)
	}
	lr := &io.LimitedReader{R: nc}
	br := bufio.NewReader(lr)
	for first := true; ; first = false {
		lr.N = limit + 4096
		if !first {
			// wait for the next request
			d := s.IdleTimeout
			if d == 0 {
				d = s.ReadTimeout
			}
			if d > 0 {
				c.SetReadDeadline(TimeNow().Add(d))
			} else {
				c.SetReadDeadline(time.Time{})
			}
			c.idle = true
			_, err := br.Peek(1)
			c.idle = false
			if err != nil {
				return
			}
			state(http.StateActive)
			sim.Probe("connection-reused")
		}
		if !s.serveRequest(ctx, c, lr, br, first, state) {
			return
		}
		state(http.StateIdle)
	}
}

// serveRequest serves one request and reports whether the connection stays open.
// what http.ResponseController and older code ask of a response writer

func (w *respWriter) FlushError() error { w.Flush(); return nil }
func (w *respWriter) SetReadDeadline(t time.Time) error {
	if w.c == nil {
		return http.ErrNotSupported
	}
	return w.c.SetReadDeadline(t)
}
func (w *respWriter) SetWriteDeadline(t time.Time) error {
	if w.c == nil {
		return http.ErrNotSupported
	}
	return w.c.SetWriteDeadline(t)
}
func (w *respWriter) EnableFullDuplex() error { w.duplex = true; return nil }
func (w *respWriter) CloseNotify() <-chan bool {
	ch := make(chan bool, 1)
	if c := w.c; c != nil {
		t := sim.Spawn("closenotify:"+c.Name, func() {
			Block("close of "+c.Name, func() bool { return c.fin || c.rst || c.closed || c.Resp != nil })
			if c.fin || c.rst {
				trySend(ch, true)
			}
		})
		t.Daemon = true
	}
	return ch
}

// TimeoutHandler stands for http.TimeoutHandler.
func TimeoutHandler(h http.Handler, dt time.Duration, msg string) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		ctx, cancel := WithTimeout(r.Context(), dt)
		defer cancel()
		r = r.WithContext(ctx)
		in := &respWriter{h: http.Header{}}
		done := false
		var pan interface{}
		Go(func() {
			defer func() {
				if p := recover(); p != nil {
					switch x := p.(type) {
					case killed, Exit:
						panic(x)
					}
					pan = p
				}
				done = true
			}()
			h.ServeHTTP(in, r)
		})
		Block("http timeout", func() bool { return done || ctx.Err() != nil })
		if done {
			if pan != nil {
				panic(pan)
			}
			for k, v := range in.h {
				w.Header()[k] = v
			}
			if in.status != 0 {
				w.WriteHeader(in.status)
			}
			w.Write(in.body.Bytes())
			return
		}
		in.timedOut = true
		w.WriteHeader(http.StatusServiceUnavailable)
		if ctx.Err() == context.DeadlineExceeded {
			if msg == "" {
				msg = "<html><head><title>Timeout</title></head><body><h1>Timeout</h1></body></html>"
			}
			io.WriteString(w, msg)
		}
	})
}

func (s *HTTPServer) serveRequest(ctx context.Context, c *Conn, lr *io.LimitedReader, br *bufio.Reader, first bool, state func(http.ConnState)) bool {
	// deadlines and limits as net/http sets them
	start := sim.now
	if d := s.ReadHeaderTimeout; d > 0 {
		c.SetReadDeadline(TimeNow().Add(d))
	} else if s.ReadTimeout > 0 {
		c.SetReadDeadline(TimeNow().Add(s.ReadTimeout))
	} else if !first {
		c.SetReadDeadline(time.Time{})
	}
	req, err := http.ReadRequest(br)
	if err != nil {
		ne, _ := err.(net.Error)
		switch {
		case lr.N <= 0:
			c.Resp = &Response{Status: 431, Header: http.Header{}}
		case c.rst || c.fin || c.closed || ne != nil && ne.Timeout():
		default:
			c.Resp = &Response{Status: 400, Header: http.Header{}}
		}
		return false
	}
	if first {
		state(http.StateActive)
	}
	lr.N = 1<<63 - 1
	if s.ReadHeaderTimeout > 0 {
		if s.ReadTimeout > 0 {
			c.setReadDeadlineAt(start + int64(s.ReadTimeout))
		} else {
			c.SetReadDeadline(time.Time{})
		}
	}
	c.wdl = 0
	if s.WriteTimeout > 0 {
		c.wdl = sim.now + int64(s.WriteTimeout)
	}
	req.RemoteAddr = c.Name
	ctx, cancel := context.WithCancel(context.WithValue(ctx, http.LocalAddrContextKey, c.LocalAddr()))
	defer cancel()
	req = req.WithContext(ctx)
	finished := false
	defer func() { finished = true }()
	// once the request has been read completely the server notices a closed or
	// reset connection and cancels the request's context
	watch := func() {
		t := sim.Spawn("watch:"+c.Name, func() {
			Block("watch "+c.Name, func() bool { return finished || c.fin || c.rst })
			if !finished {
				sim.Probe("context-cancelled")
				cancel()
			}
		})
		t.Daemon = true
	}
	var body *bodyTrack
	if req.Body == nil || req.Body == http.NoBody {
		watch()
	} else {
		body = &bodyTrack{rc: req.Body, onEOF: watch}
		if req.ProtoAtLeast(1, 1) && strings.EqualFold(strings.TrimSpace(req.Header.Get("Expect")), "100-continue") {
			body.expect = c
		}
		req.Body = body
	}
	w := &respWriter{c: c, h: http.Header{}, req: req, track: body}
	resp := &Response{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case killed, Exit:
					panic(x)
				}
				resp.Panic = fmt.Sprintf("%v", r)
				if cur != nil {
					cur.Stack = string(debug.Stack())
				}
			}
		}()
		h := s.Handler
		if h == nil {
			h = DefaultServeMux
		}
		if c.StallAt > 0 {
			sim.Freeze(c.StallAt, c.Thaw)
		}
		h.ServeHTTP(w, req)
	}()
	sim.Unfreeze()
	keep := false
	if resp.Panic == "" {
		if w.status == 0 {
			w.WriteHeader(200)
		}
		keep = c.Keep && !s.noKeep && !s.shutdown && !req.Close && !w.hangUp && w.sent.Get("Connection") != "close"
		if keep && body != nil && body.expect != nil && !c.Asked {
			keep = false // the client may or may not send the body yet
		}
		if keep && body != nil && !body.eof {
			// a small rest of the body is read so that the connection can be reused
			_, err := io.CopyN(io.Discard, body, maxPostHandlerReadBytes+1)
			keep = err == io.EOF
		}
		resp.Status = w.status
		resp.Header = w.sent
		if req.Method != http.MethodHead {
			resp.Body = append([]byte(nil), w.body.Bytes()...)
		}
	}
	finished = true
	if c.wdl > 0 && sim.now >= c.wdl {
		return false // the answer cannot be written any more
	}
	if !keep {
		c.closed = true
	}
	c.Served++
	c.Resp = resp
	return keep
}

// Do runs one request directly through a handler, without a connection.
func Do(h http.Handler, req *http.Request) *Response {
	w := &respWriter{h: http.Header{}}
	h.ServeHTTP(w, req)
	if w.status == 0 {
		w.WriteHeader(200)
	}
	return &Response{Status: w.status, Header: w.sent, Body: w.body.Bytes()}
}

// ---------------------------------------------------------------- signals

type sigReg struct {
	ch   chan<- os.Signal
	sigs []os.Signal // empty: all
}

type sigState struct {
	regs    []*sigReg
	ignored map[os.Signal]bool
}

func SignalNotify(ch chan<- os.Signal, sigs ...os.Signal) {
	Yield(0)
	sim.sig.regs = append(sim.sig.regs, &sigReg{ch, sigs})
	Yield(0)
}
func SignalStop(ch chan<- os.Signal) {
	Yield(0)
	var o []*sigReg
	for _, r := range sim.sig.regs {
		if r.ch != ch {
			o = append(o, r)
		}
	}
	sim.sig.regs = o
}
func SignalIgnore(sigs ...os.Signal) {
	Yield(0)
	if sim.sig.ignored == nil {
		sim.sig.ignored = map[os.Signal]bool{}
	}
	for _, s := range sigs {
		sim.sig.ignored[s] = true
	}
}
func SignalReset(sigs ...os.Signal) { Yield(0); sim.sig.regs = nil; sim.sig.ignored = nil }

func SignalNotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	SignalNotify(ch, sigs...)
	Go(func() {
		Select(false, RecvCase(ch), RecvCase(ctx.Done()))
		cancel()
	})
	return ctx, func() { cancel(); SignalStop(ch) }
}

// Kill delivers a signal to the simulated process as the os/signal package
// documents: to every registered channel without blocking, or with the default
// action if none is registered. It reports "default" if the process dies of it,
// "delivered", "dropped" or "ignored".
func (s *Sim) Kill(sig os.Signal) string {
	matched, delivered := false, false
	for _, r := range s.sig.regs {
		want := len(r.sigs) == 0
		for _, x := range r.sigs {
			if x == sig {
				want = true
			}
		}
		if !want {
			continue
		}
		matched = true
		if trySend(r.ch, sig) {
			delivered = true
		}
	}
	if matched {
		if delivered {
			return "delivered"
		}
		return "dropped"
	}
	if s.sig.ignored[sig] {
		return "ignored"
	}
	return "default"
}
