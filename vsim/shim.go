package zzvsim

import (
	"context"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"time"
)

// ---------------------------------------------------------------- memory

// P is a yield point placed around the first operand of an atomic operation.
func P[T any](site int32, p T) T { Yield(site); return p }

// Yv is a yield point between computing a value and storing it.
func Yv[T any](site int32, v T) T { Yield(site); return v }

// Copy stands for the copy builtin: memory is moved in chunks with a yield
// point between them, as another processor would observe it.
func Copy[D ~[]E, S ~[]E, E any](site int32, dst D, src S) int {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	if cur == nil || n == 0 {
		return copy(dst, src)
	}
	c := sim.strat.Chunk
	if overlaps(dst, src) {
		Yield(site)
		return copy(dst, src)
	}
	for i := 0; i < n; i += c {
		Yield(site)
		e := i + c
		if e > n {
			e = n
		}
		copy(dst[i:e], src[i:e])
	}
	return n
}

func overlaps[E any](a, b []E) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	a0 := reflect.ValueOf(a).Pointer()
	b0 := reflect.ValueOf(b).Pointer()
	sz := reflect.TypeOf(a).Elem().Size()
	return a0 < b0+sz*uintptr(len(b)) && b0 < a0+sz*uintptr(len(a))
}

// Append stands for append(a, b...) of byte slices.
func Append[D ~[]byte, S ~[]byte](site int32, a D, b S) D {
	if cur == nil || len(b) == 0 {
		return append(a, b...)
	}
	tmp := make([]byte, len(b))
	Copy(site, tmp, b)
	return append(a, tmp...)
}

// CopyStr stands for copy(dst, string).
func CopyStr(site int32, dst []byte, src string) int { return Copy(site, dst, []byte(src)) }

// ---------------------------------------------------------------- sync

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	Yield(0)
	for m.locked {
		Block("mutex", func() bool { return !m.locked })
	}
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	Yield(0)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	Yield(0)
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
}

type RWMutex struct {
	w     bool
	r     int
	waitW int
}

func (m *RWMutex) Lock() {
	Yield(0)
	m.waitW++
	for m.w || m.r > 0 {
		Block("rwmutex write", func() bool { return !m.w && m.r == 0 })
	}
	m.waitW--
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	Yield(0)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	Yield(0)
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	Yield(0)
	for m.w || m.waitW > 0 {
		Block("rwmutex read", func() bool { return !m.w && m.waitW == 0 })
	}
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	Yield(0)
	if m.w || m.waitW > 0 {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	Yield(0)
	if m.r == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Locker interface {
	Lock()
	Unlock()
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	Yield(0)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	Yield(0)
	for w.n > 0 {
		Block("waitgroup", func() bool { return w.n == 0 })
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	Yield(0)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	o := new(Once)
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	o := new(Once)
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type Cond struct {
	L    Locker
	seq  int
	wake int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	me := c.seq
	c.seq++
	c.L.Unlock()
	Block("cond", func() bool { return c.wake > me })
	c.L.Lock()
}
func (c *Cond) Signal() {
	Yield(0)
	if c.wake < c.seq {
		c.wake++
	}
}
func (c *Cond) Broadcast() { Yield(0); c.wake = c.seq }

// Pool behaves as sync.Pool may: it hands back a stored item or not, by choice.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	Yield(0)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items[n-1] = nil
		p.items = p.items[:n-1]
		if sim == nil || sim.data.Chance(0.9) {
			return x
		}
		// it fell to the garbage collector
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	Yield(0)
	if x != nil && len(p.items) < 64 {
		p.items = append(p.items, x)
	}
}

// Map stands for sync.Map.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) { Yield(0); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v interface{})                 { m.Swap(k, v) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	Yield(0)
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	o, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return o, ok
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	Yield(0)
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	Yield(0)
	o, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i := range m.keys {
			if m.keys[i] == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return o, ok
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	Yield(0)
	if c, ok := m.m[k]; ok && c == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	Yield(0)
	if c, ok := m.m[k]; ok && c == o {
		m.Delete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	Yield(0)
	ks := append([]interface{}(nil), m.keys...)
	if sim != nil {
		for i := len(ks) - 1; i > 0; i-- {
			j := sim.data.Intn(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	for _, k := range ks {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- goroutines

func Go(f func()) {
	if sim == nil {
		panic("zzvsim: go statement outside a simulation")
	}
	parent := cur
	name := "?"
	if parent != nil {
		parent.spawned++
		name = fmt.Sprintf("%s/g%d", parent.Name, parent.spawned)
	}
	t := sim.Spawn(name, f)
	t.Daemon = true
	Yield(0)
}

// GoCall is the go statement: f and args are evaluated now, the call happens in
// a new task.
func GoCall(f interface{}, args ...interface{}) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(pt) && v.Type().ConvertibleTo(pt) {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	Go(func() { fv.Call(in) })
}

// ---------------------------------------------------------------- channels

// Unbuffered channels cannot rendezvous between coroutines of one thread, so
// hand-offs go through this table; buffered traffic uses the real channel.
type chanState struct {
	senders []*waiter // blocked senders (unbuffered)
	recvs   []*waiter // blocked receivers
}

type waiter struct {
	val  interface{}
	ok   bool
	done bool // completed by the other side
	gone bool // withdrawn (select chose another case)
	sel  *selState
}

type selState struct{ fired int }

func chState(ch interface{}) *chanState {
	p := reflect.ValueOf(ch).Pointer()
	c := sim.chans[p]
	if c == nil {
		c = &chanState{}
		sim.chans[p] = c
	}
	return c
}

func (w *waiter) live() bool { return !w.done && !w.gone && (w.sel == nil || w.sel.fired < 0) }

func prune(l []*waiter) []*waiter {
	o := l[:0]
	for _, w := range l {
		if w.live() {
			o = append(o, w)
		}
	}
	return o
}

func tryRecv[T any](ch <-chan T) (v T, ok, success bool) {
	select {
	case v, ok = <-ch:
		if ok || true {
			// a blocked sender can now place its value in the freed buffer slot
			success = true
			return
		}
	default:
	}
	if ch == nil || sim == nil {
		return
	}
	cs := chState(ch)
	cs.senders = prune(cs.senders)
	if cap(ch) == 0 && len(cs.senders) > 0 {
		w := cs.senders[0]
		cs.senders = cs.senders[1:]
		w.complete()
		v, _ = w.val.(T)
		return v, true, true
	}
	return
}

func (w *waiter) complete() {
	w.done = true
}

func trySend[T any](ch chan<- T, v T) (sent bool) {
	if ch == nil {
		return false
	}
	if cap(ch) == 0 {
		// detect closed channels: a send must panic
		if sim != nil {
			cs := chState(ch)
			cs.recvs = prune(cs.recvs)
			if len(cs.recvs) > 0 {
				w := cs.recvs[0]
				cs.recvs = cs.recvs[1:]
				w.val = v
				w.ok = true
				w.complete()
				return true
			}
		}
		select {
		case ch <- v: // closed (panics) or a real receiver
			return true
		default:
			return false
		}
	}
	select {
	case ch <- v:
		return true
	default:
		return false
	}
}

func Recv2[T any](ch <-chan T) (T, bool) {
	Yield(0)
	if v, ok, s := tryRecv(ch); s {
		return v, ok
	}
	var rv T
	var rok bool
	if ch == nil {
		Block("receive on nil channel", func() bool { return false })
	}
	w := &waiter{}
	cs := chState(ch)
	cs.recvs = append(cs.recvs, w)
	Block("channel receive", func() bool {
		if w.done {
			rv, _ = w.val.(T)
			rok = w.ok
			return true
		}
		if v, ok, s := tryRecv(ch); s {
			w.gone = true
			rv, rok = v, ok
			return true
		}
		return false
	})
	return rv, rok
}

func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

func Send[T any](ch chan<- T, v T) {
	Yield(0)
	if trySend(ch, v) {
		return
	}
	if ch == nil {
		Block("send on nil channel", func() bool { return false })
	}
	w := &waiter{val: v}
	if cap(ch) == 0 {
		cs := chState(ch)
		cs.senders = append(cs.senders, w)
	}
	Block("channel send", func() bool {
		if w.done {
			return true
		}
		if trySend(ch, v) {
			w.gone = true
			return true
		}
		return false
	})
}

// SendTo is Send in a form that lets the value convert to the element type.
func SendTo[T any](ch chan<- T) func(v T) { return func(v T) { Send(ch, v) } }

// SendCaseTo is SendCase in that form.
func SendCaseTo[T any](ch chan<- T) func(v T) *SendC {
	return func(v T) *SendC { return SendCase(ch, v) }
}

func CloseChan[T any](ch chan<- T) { Yield(0); close(ch) }

// Case is one communication of a select statement.
type Case struct {
	try func() bool
	reg func(*selState) *waiter
	fin func(*waiter)
}

type RecvC[T any] struct {
	Case
	V  T
	OK bool
}

func RecvCase[T any](ch <-chan T) *RecvC[T] {
	r := &RecvC[T]{}
	r.try = func() bool {
		v, ok, s := tryRecv(ch)
		if s {
			r.V, r.OK = v, ok
		}
		return s
	}
	r.reg = func(ss *selState) *waiter {
		if ch == nil {
			return nil
		}
		w := &waiter{sel: ss}
		cs := chState(ch)
		cs.recvs = append(cs.recvs, w)
		return w
	}
	r.fin = func(w *waiter) { r.V, _ = w.val.(T); r.OK = w.ok }
	return r
}

func (r *RecvC[T]) c() *Case { return &r.Case }

type SendC struct{ Case }

func (r *SendC) c() *Case { return &r.Case }

func SendCase[T any](ch chan<- T, v T) *SendC {
	r := &SendC{}
	r.try = func() bool { return trySend(ch, v) }
	r.reg = func(ss *selState) *waiter {
		if ch == nil || cap(ch) != 0 {
			return nil
		}
		w := &waiter{sel: ss, val: v}
		cs := chState(ch)
		cs.senders = append(cs.senders, w)
		return w
	}
	r.fin = func(w *waiter) {}
	return r
}

type caser interface{ c() *Case }

// Select performs a select statement and reports the chosen case, -1 for default.
func Select(hasDefault bool, cases ...caser) int {
	Yield(0)
	order := make([]int, len(cases))
	for i := range order {
		order[i] = i
	}
	if sim != nil {
		for i := len(order) - 1; i > 0; i-- {
			j := sim.data.Intn(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	for _, i := range order {
		if cases[i].c().try() {
			return i
		}
	}
	if hasDefault {
		return -1
	}
	ss := &selState{fired: -1}
	ws := make([]*waiter, len(cases))
	for _, i := range order {
		ws[i] = cases[i].c().reg(ss)
	}
	res := -1
	Block("select", func() bool {
		for _, i := range order {
			if ws[i] != nil && ws[i].done {
				cases[i].c().fin(ws[i])
				res = i
				ss.fired = i
				return true
			}
		}
		for _, i := range order {
			// withdraw own offers while trying, so a select cannot meet itself
			ss.fired = i
			if cases[i].c().try() {
				res = i
				return true
			}
			ss.fired = -1
		}
		return false
	})
	return res
}

// ---------------------------------------------------------------- maps

type Item[K comparable, V any] struct {
	m map[K]V
	K K
}

func (i Item[K, V]) Live() bool { _, ok := i.m[i.K]; return ok }
func (i Item[K, V]) V() V       { return i.m[i.K] }

// MapItems is the order in which a range over m visits it: a permutation drawn
// from the simulation's PRNG.
func MapItems[M ~map[K]V, K comparable, V any](m M) []Item[K, V] {
	type ks struct {
		k K
		s string
	}
	l := make([]ks, 0, len(m))
	for k := range m {
		l = append(l, ks{k, fmt.Sprintf("%T%v", k, k)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
	if sim != nil && len(l) > 1 {
		for i := len(l) - 1; i > 0; i-- {
			j := sim.data.Intn(i + 1)
			l[i], l[j] = l[j], l[i]
		}
		sim.Probe("map-order-drawn")
	}
	out := make([]Item[K, V], len(l))
	for i := range l {
		out[i] = Item[K, V]{m, l[i].k}
	}
	return out
}

// ---------------------------------------------------------------- time

var base = time.Date(2020, 6, 30, 12, 0, 0, 0, time.UTC)

func TimeNow() time.Time {
	if sim == nil {
		return base.Add(-initLead) // package-level variables are initialised first
	}
	return base.Add(time.Duration(sim.now + sim.ClockOff))
}
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func Sleep(d time.Duration) {
	if sim == nil || cur == nil {
		return
	}
	done := false
	sim.After(int64(d), func() { done = true })
	Block("sleep", func() bool { return done })
}

type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	on *bool
}

func (t *Timer) start(d time.Duration) {
	on := true
	t.on = &on
	sm := sim
	sm.Timers++
	sim.After(int64(d), func() {
		if !on {
			return
		}
		on = false
		sm.Timers--
		if t.f != nil {
			f := t.f
			sim.Spawn("timer", f).Daemon = true
			return
		}
		select {
		case t.c <- TimeNow():
		default:
		}
	})
}
func (t *Timer) Stop() bool {
	Yield(0)
	was := *t.on
	*t.on = false
	if was {
		sim.Timers--
	}
	return was
}
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}
func TimeAfter(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	stop bool
	gen  int
}

func (t *Ticker) run(c chan time.Time, d time.Duration) {
	t.gen++
	g := t.gen
	var tick func()
	tick = func() {
		if t.stop || g != t.gen {
			return
		}
		select {
		case c <- TimeNow():
		default:
		}
		sim.After(int64(d), tick)
	}
	sim.After(int64(d), tick)
}
func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c}
	sim.Timers++
	t.run(c, d)
	return t
}
func (t *Ticker) Stop() {
	if !t.stop {
		sim.Timers--
	}
	t.stop = true
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

func WithTimeout(ctx context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(ctx, d, nil)
}
func WithDeadline(ctx context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(ctx, d.Sub(TimeNow()), nil)
}
func WithDeadlineCause(ctx context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(ctx, d.Sub(TimeNow()), cause)
}
func WithTimeoutCause(ctx context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	c, cancel := context.WithCancelCause(ctx)
	t := &timeoutCtx{Context: c, at: TimeNow().Add(d)}
	if p, ok := ctx.Deadline(); ok && p.Before(t.at) {
		t.at = p
	}
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	expire := func() {
		if c.Err() == nil {
			t.expired = true
			cancel(cause)
		}
	}
	switch {
	case d <= 0:
		expire()
	case sim != nil:
		sm, on := sim, true
		sm.Timers++
		off := func() {
			if on {
				sm.Timers--
			}
			on = false
		}
		sim.After(int64(d), func() {
			off()
			expire()
		})
		return t, func() {
			off()
			cancel(nil)
		}
	}
	return t, func() { cancel(nil) }
}

type timeoutCtx struct {
	context.Context
	at      time.Time
	expired bool
}

func (t *timeoutCtx) Deadline() (time.Time, bool) { return t.at, true }
func (t *timeoutCtx) Err() error {
	if t.expired {
		return context.DeadlineExceeded
	}
	return t.Context.Err()
}

// ContextAfterFunc stands for context.AfterFunc.
func ContextAfterFunc(ctx context.Context, f func()) func() bool {
	stopped, ran := false, false
	Go(func() {
		Block("context to end", func() bool { return stopped || ctx.Err() != nil })
		if !stopped {
			ran = true
			f()
		}
	})
	return func() bool {
		if ran || stopped {
			return false
		}
		stopped = true
		return true
	}
}

// ---------------------------------------------------------------- process

// Stderr and Stdout are where the program's own output goes: nowhere.
var Stderr = devnull()
var Stdout = devnull()

func devnull() *os.File {
	f, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		return os.Stderr
	}
	return f
}

func OsExit(code int)                      { panic(Exit{Code: code}) }
func Fatal(v ...interface{})               { panic(Exit{1, fmt.Sprint(v...)}) }
func Fatalf(f string, v ...interface{})    { panic(Exit{1, fmt.Sprintf(f, v...)}) }
func LogPrint(v ...interface{})            {}
func LogPrintf(f string, v ...interface{}) {}

func FmtPrint(v ...interface{}) (int, error)            { return len(fmt.Sprint(v...)), nil }
func FmtPrintf(f string, v ...interface{}) (int, error) { return len(fmt.Sprintf(f, v...)), nil }
func Getpid() int                                       { return 4242 }
func NumTasks() int {
	n := 1
	if sim != nil {
		for _, t := range sim.tasks {
			if t.state != stDone {
				n++
			}
		}
	}
	return n
}

// math/rand
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	RandShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, RandIntn(i+1))
	}
}
func RandRead(p []byte) (int, error) { return RandReader.Read(p) }
func RandInt() int                   { return int(rd() >> 1) }
func RandInt63() int64               { return int64(rd() >> 1) }
func RandIntn(n int) int             { return int(rd() % uint64(n)) }
func RandInt63n(n int64) int64       { return int64(rd() % uint64(n)) }
func RandInt31n(n int32) int32       { return int32(rd() % uint64(n)) }
func RandInt31() int32               { return int32(rd() >> 33) }
func RandUint32N(n uint32) uint32    { return uint32(rd() % uint64(n)) }
func RandUint64N(n uint64) uint64    { return rd() % n }
func RandUintN(n uint) uint          { return uint(rd() % uint64(n)) }
func RandFloat32() float32           { return float32(rd()>>40) / (1 << 24) }
func RandUint32() uint32             { return uint32(rd()) }
func RandUint64() uint64             { return rd() }
func RandFloat64() float64           { return float64(rd()>>11) / (1 << 53) }
func RandSeed(int64)                 {}

var initLead time.Duration

var initRNG *RNG // what package-level variables are initialised with

func rd() uint64 {
	if sim == nil {
		if initRNG == nil {
			return 42
		}
		return initRNG.U64()
	}
	return sim.data.U64()
}

type randReader struct{}

func (randReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(rd())
	}
	return len(p), nil
}

var RandReader io.Reader = randReader{}

// ---------------------------------------------------------------- io.Pipe

type pipe struct {
	data   []byte
	wDone  bool // the reader has consumed the pending write
	have   bool
	rerr   error
	werr   error
	writer Mutex
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) { p := &pipe{}; return &PipeReader{p}, &PipeWriter{p} }

func (r *PipeReader) Read(b []byte) (int, error) {
	Yield(0)
	p := r.p
	ready := func() bool { return p.have || p.rerr != nil || p.werr != nil }
	if !ready() {
		Block("pipe read", ready)
	}
	if p.rerr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.have {
		n := copy(b, p.data)
		p.data = p.data[n:]
		if len(p.data) == 0 {
			p.have = false
		}
		return n, nil
	}
	return 0, p.werr
}
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	return nil
}
func (w *PipeWriter) Write(b []byte) (int, error) {
	Yield(0)
	p := w.p
	p.writer.Lock()
	defer p.writer.Unlock()
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.data, p.have = b, true
	ready := func() bool { return !p.have || p.rerr != nil }
	if !ready() {
		Block("pipe write", ready)
	}
	if p.have {
		n := len(b) - len(p.data)
		p.have = false
		return n, p.rerr
	}
	return len(b), nil
}
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	if w.p.werr == nil {
		w.p.werr = err
	}
	return nil
}

// ---------------------------------------------------------------- allocation

// AllocLimit is the largest single allocation of computed size that succeeds.
var AllocLimit int64 = 4 << 30

// Alloc stands for the size of an allocation of n elements.
func Alloc[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](size int64, n T) T {
	if size > 0 && n > 0 && uint64(n) > uint64(AllocLimit/size) {
		panic(fmt.Sprintf("out of memory: allocation of %d elements of %d bytes", n, size))
	}
	return n
}
