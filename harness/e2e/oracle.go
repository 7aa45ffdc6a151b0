package e2e

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzharness/core"
)

// rowInfo is one observation as one collation sees it.
type rowInfo struct {
	row     *RowDef
	rec     *rec
	idx     int // position in its upload
	key     string
	matches bool
	invalid bool
}

type snap struct {
	rec *rec
	key string
	set map[int]bool
	ans answer
}

type checker struct {
	h    *history
	out  []*core.Violation
	rows []map[int]*rowInfo // per collation: id -> row
	// uploads per collation in order: rec -> its matching rows in order
	perUp []map[*rec][]*rowInfo
	snaps [][]*snap
	// undecodable answers that gave a count
	counts []countAt
}

type countAt struct {
	ci  int
	key string
	n   float64
	rec *rec
}

func (c *checker) fail(class, f string, a ...interface{}) {
	c.out = append(c.out, core.V(class, f, a...))
}

// check decides everything the recorded history says about the system.
func (h *history) check() *checker {
	c := &checker{h: h}
	c.process()
	c.index()
	for _, r := range h.recs {
		c.status(r)
	}
	for ci := range h.colls {
		c.coll(ci)
	}
	return c
}

func (c *checker) process() {
	h := c.h
	if h.res.Exit != nil {
		c.fail("process-died", "the server process exited: code %d %s", h.res.Exit.Code, h.res.Exit.Msg)
	}
	for _, t := range h.res.Panics {
		c.fail("process-died", "task %s panicked: %v (in %s)", t.Name, t.Panic, core.RepoFrame(t.Stack))
	}
	if h.mainEnd > 0 && len(h.sigs) == 0 {
		c.fail("process-died", "main returned without a signal")
	}
	if h.res.Over {
		var w []string
		for _, r := range h.recs {
			if !r.done {
				w = append(w, r.name())
			}
		}
		c.fail("hang", "no progress: step budget exhausted with %s running; unanswered: %s", h.res.Running, strings.Join(w, ", "))
	}
	if len(h.res.Stuck) > 0 && h.sc.Signals == nil {
		c.fail("hang", "nothing can run any more but these wait: %s", strings.Join(h.res.Stuck, "; "))
	}
}

func (c *checker) index() {
	for ci := range c.h.colls {
		m := map[int]*rowInfo{}
		pu := map[*rec][]*rowInfo{}
		for _, r := range c.h.recs {
			if r.req.Kind != "upload" {
				continue
			}
			for i := range r.req.Rows {
				row := &r.req.Rows[i]
				ri := &rowInfo{row: row, rec: r, idx: i}
				ri.key, ri.matches = c.h.colls[ci].keyOf(row)
				ri.invalid = row.Bad || c.h.colls[ci].invalid(row)
				if row.ID >= 0 {
					m[row.ID] = ri
				}
				pu[r] = append(pu[r], ri)
			}
		}
		c.rows = append(c.rows, m)
		c.perUp = append(c.perUp, pu)
	}
	c.snaps = make([][]*snap, len(c.h.colls))
}

// refusable reports whether the server may refuse a valid upload for lack of room.
func (c *checker) refusable(r *rec) bool {
	for ci := range c.h.colls {
		d := &c.h.colls[ci]
		keys := map[string]bool{}
		mine := map[string]bool{}
		for _, x := range c.h.recs {
			if x.req.Kind != "upload" {
				continue
			}
			for i := range x.req.Rows {
				k, ok := d.keyOf(&x.req.Rows[i])
				if !ok {
					continue
				}
				if x == r {
					mine[k] = true
				}
				// only what was sent before the refusal can have taken a place
				if r.ret == 0 || x.inv < r.ret {
					keys[k] = true
				}
			}
		}
		if len(mine) == 0 {
			continue
		}
		limit := d.Slots
		if limit > 8 {
			limit = 8
		}
		if len(keys) <= limit {
			continue
		}
		// some key of this upload may be new; a key accepted before is never refused
		for k := range mine {
			if !c.acceptedBefore(ci, k, r.inv) {
				return true
			}
		}
	}
	return false
}

func (c *checker) acceptedBefore(ci int, key string, stamp int64) bool {
	for _, x := range c.h.recs {
		if x.req.Kind == "upload" && x.ok() && x.ret < stamp {
			for i := range x.req.Rows {
				if k, ok := c.h.colls[ci].keyOf(&x.req.Rows[i]); ok && k == key {
					return true
				}
			}
		}
	}
	return false
}

func (c *checker) status(r *rec) {
	if len(c.h.sigs) > 0 && r.panicked == "" && !r.answered() && (!r.refusedConn || r.inv > c.h.sigs[0].stamp) {
		return // the process was told to stop: requests need no answer any more
	}
	if r.panicked != "" {
		c.fail("panic", "%s: handler panicked, connection dropped: %s", r.name(), r.panicked)
		return
	}
	if r.refusedConn {
		c.fail("no-answer", "%s: connection refused", r.name())
		return
	}
	if !r.done {
		return // reported as hang
	}
	if r.gone {
		return
	}
	if !r.answered() {
		if r.complete {
			c.fail("no-answer", "%s: connection closed without an answer", r.name())
		}
		return
	}
	switch r.req.Kind {
	case "upload":
		bad, opt := false, false
		for i := range r.req.Rows {
			if r.req.Rows[i].Bad {
				bad = true
			}
			if r.req.Rows[i].Opt {
				opt = true
			}
			for ci := range c.h.colls {
				if c.h.colls[ci].invalid(&r.req.Rows[i]) {
					bad = true
				}
			}
		}
		if !r.complete && r.ok() {
			c.fail("false-success", "%s: answered %d although only %d bytes of it were sent", r.name(), r.status, r.delivered)
		}
		if bad && r.ok() {
			c.fail("bad-accepted", "%s: answered %d although it contains an observation that cannot be applied", r.name(), r.status)
		}
		if !bad && !opt && r.complete && !r.ok() && !r.halfclosed && !c.refusable(r) {
			c.fail("refused", "%s: valid upload answered %d %q", r.name(), r.status, strings.TrimSpace(r.body))
		}
	case "query":
		if r.complete && !r.ok() && !r.halfclosed {
			c.fail("query-refused", "%s: valid query answered %d %q", r.name(), r.status, strings.TrimSpace(r.body))
		}
	case "raw":
		if r.complete && !r.halfclosed && r.req.Want != 0 {
			if r.req.Want == 4 {
				if r.status < 400 || r.status > 499 {
					c.fail("wrong-status", "%s: answered %d, expected a client error: %q", r.name(), r.status, r.req.Raw)
				}
			} else if r.req.Want == 45 {
				if r.status < 400 {
					c.fail("wrong-status", "%s: answered %d, expected an error: %q", r.name(), r.status, r.req.Raw)
				}
			} else if r.status != r.req.Want {
				c.fail("wrong-status", "%s: answered %d, expected %d: %q", r.name(), r.status, r.req.Want, r.req.Raw)
			}
		}
	}
}

func idList(s map[int]bool) string {
	var l []int
	for i := range s {
		l = append(l, i)
	}
	sort.Ints(l)
	return fmt.Sprint(l)
}

func subset(a, b map[int]bool) bool {
	for i := range a {
		if !b[i] {
			return false
		}
	}
	return true
}

func pretty(key string) string { return strings.ReplaceAll(key, keySep, "/") }

func (c *checker) coll(ci int) {
	d := &c.h.colls[ci]
	var known []string
	for _, r := range c.h.recs {
		if r.req.Kind != "query" || r.req.Coll != ci || !r.ok() {
			continue
		}
		key, ok := d.keyFromCrit(r.req.Crit)
		a := parseAnswer(r.body, len(r.req.Crit))
		where := fmt.Sprintf("%s of %s[%s]", r.name(), d.Name, pretty(key))
		if a.broken != "" {
			c.fail("garbled", "%s: %s in %q", where, a.broken, r.body)
			continue
		}
		if !ok {
			if len(a.vals) > 0 {
				c.fail("phantom", "%s: the key is not given, yet the answer has statistics: %q", where, r.body)
			}
			continue
		}
		asked := map[string]bool{}
		for _, s := range r.req.Sel {
			asked[s.M+"("+s.F+")"] = true
		}
		if a.dup && len(asked) == len(r.req.Sel) {
			c.fail("missing-measure", "%s: a measure is answered twice: %q", where, r.body)
		}
		for m := range a.vals {
			if !asked[m] {
				c.fail("missing-measure", "%s: answered %s, which was not asked: %q", where, m, r.body)
			}
		}
		if !d.decodable() || !asked["sum(id)"] {
			c.undecodable(ci, r, key, a, where)
			continue
		}
		sp := &snap{rec: r, key: key, ans: a}
		v, has := a.vals["sum(id)"]
		if len(a.vals) == 0 {
			sp.set = map[int]bool{}
		} else if !has {
			c.fail("missing-measure", "%s: sum(id) is missing: %q", where, r.body)
			continue
		} else {
			set, ok := decodeSet(v)
			if !ok {
				c.fail("foreign-row", "%s: sum(id)=%v is not the sum of any set of observations: %q", where, v, r.body)
				continue
			}
			sp.set = set
		}
		if c.snapshot(ci, sp, where) {
			c.snaps[ci] = append(c.snaps[ci], sp)
		}
	}
	_ = known
	c.order(ci)
}

// snapshot checks one answer on its own.
func (c *checker) snapshot(ci int, sp *snap, where string) bool {
	d := &c.h.colls[ci]
	r := sp.rec
	okAll := true
	for _, id := range ints(sp.set) {
		ri := c.rows[ci][id]
		switch {
		case ri == nil:
			c.fail("foreign-row", "%s: reflects observation %d, which does not exist (set %s): %q", where, id, idList(sp.set), r.body)
			okAll = false
		case ri.invalid:
			c.fail("refused-row-applied", "%s: reflects observation %d, which had to be refused: %q", where, id, r.body)
			okAll = false
		case !ri.matches || ri.key != sp.key:
			c.fail("misrouted-row", "%s: reflects observation %d, which belongs to %q: %q", where, id, pretty(ri.key), r.body)
			okAll = false
		case ri.rec.rowAt[ri.idx] == 0:
			c.fail("torn-row", "%s: reflects observation %d, which was not received completely: %q", where, id, r.body)
			okAll = false
		case ri.rec.rowAt[ri.idx] > r.ret:
			c.fail("unsent-row", "%s: reflects observation %d, sent only after the answer: %q", where, id, r.body)
			okAll = false
		}
	}
	if !okAll {
		return false
	}
	// acknowledged before the query was sent
	for _, id := range rowIDs(c.rows[ci]) {
		ri := c.rows[ci][id]
		if !ri.matches || ri.invalid || ri.key != sp.key {
			continue
		}
		if ri.rec.ok() && ri.rec.ret < r.inv && !sp.set[id] {
			c.fail("lost-row", "%s: lacks observation %d, whose upload had been acknowledged (reflects %s): %q", where, id, idList(sp.set), r.body)
			okAll = false
		}
		// one order of uploads consistent with real time
		if sp.set[id] {
			for _, id2 := range rowIDs(c.rows[ci]) {
				r2 := c.rows[ci][id2]
				if r2.matches && !r2.invalid && r2.key == sp.key && r2.rec.ok() && r2.rec.ret < ri.rec.inv && !sp.set[id2] {
					c.fail("lost-row", "%s: reflects observation %d but not %d, acknowledged before %d was sent: %q", where, id, id2, id, r.body)
					okAll = false
				}
			}
		}
	}
	// prefix of each upload, within this key
	for _, up := range c.h.recs {
		rows := c.perUp[ci][up]
		stop := -1
		for _, ri := range rows {
			if ri.invalid && (ri.row.Bad || ri.matches) && stop < 0 {
				stop = ri.idx
			}
			if !ri.matches || ri.invalid || ri.key != sp.key || ri.row.ID < 0 {
				continue
			}
			if sp.set[ri.row.ID] && stop >= 0 {
				c.fail("prefix", "%s: reflects observation %d, which follows one in the same upload that could not be applied: %q", where, ri.row.ID, r.body)
				okAll = false
			}
			if !sp.set[ri.row.ID] && stop < 0 {
				stop = ri.idx
			}
		}
	}
	if len(sp.set) == 0 {
		if len(sp.ans.vals) > 0 {
			c.fail("phantom", "%s: the key has no observations, yet the answer has statistics: %q", where, r.body)
		}
		return okAll
	}
	var rows []*RowDef
	for _, id := range ints(sp.set) {
		rows = append(rows, c.rows[ci][id].row)
	}
	cls := "value"
	if !r.final {
		cls = "snapshot"
	}
	c.values(d, rows, r, sp.ans, where+" reflecting "+idList(sp.set), cls)
	return okAll
}

func ints(s map[int]bool) []int {
	var l []int
	for i := range s {
		l = append(l, i)
	}
	sort.Ints(l)
	return l
}

func rowIDs(m map[int]*rowInfo) []int {
	var l []int
	for i := range m {
		l = append(l, i)
	}
	sort.Ints(l)
	return l
}

// values compares every measure of an answer with the value computed from rows.
func (c *checker) values(d *CollDef, rows []*RowDef, r *rec, a answer, where, class string) {
	for _, s := range r.req.Sel {
		name := s.M + "(" + s.F + ")"
		if s.F == "*" {
			if s.M != "count" || !d.Count {
				continue
			}
			v, ok := a.vals[name]
			if !ok {
				c.fail("missing-measure", "%s: %s is missing: %q", where, name, r.body)
			} else if v != float64(len(rows)) {
				cl := class
				if class == "value" && v > float64(len(rows)) {
					cl = "duplicate-row"
				}
				c.fail(cl, "%s: count(*)=%v but %d observations are reflected: %q", where, v, len(rows), r.body)
			}
			continue
		}
		fd := d.field(s.F)
		if fd == nil {
			continue
		}
		var md *MeasureDef
		for i := range fd.M {
			if fd.M[i].N == s.M {
				md = &fd.M[i]
			}
		}
		if md == nil {
			continue
		}
		var texts []string
		var nums []float64
		for _, row := range rows {
			if t, ok := row.get(s.F); ok {
				texts = append(texts, t)
				if continuous(s.M) {
					x, err := strconv.ParseFloat(t, 64)
					if err != nil {
						c.fail(class, "%s: field %s of an applied observation is not a number: %q", where, s.F, t)
						return
					}
					nums = append(nums, x)
				}
			}
		}
		v, ok := a.vals[name]
		if !ok {
			if len(texts) > 0 {
				c.fail("missing-measure", "%s: %s is missing although the field was observed: %q", where, name, r.body)
			}
			continue
		}
		if !continuous(s.M) {
			want, lo, hi := uniqueReference(texts, md.P)
			if v != want {
				c.fail("unique", "%s: %s=%v, but a counter given each of the %d values once reports %v: %q", where, name, v, distinct(texts), want, r.body)
			} else if v < lo || v > hi {
				c.fail("unique", "%s: %s=%v for %d distinct values, outside [%.1f,%.1f] (precision %d): %q", where, name, v, distinct(texts), lo, hi, md.P, r.body)
			}
			continue
		}
		if len(nums) == 0 {
			if s.M == "sum" && v != 0 {
				c.fail(class, "%s: sum of a field never observed is %v: %q", where, v, r.body)
			}
			continue
		}
		want, tol, any := numReference(s.M, nums)
		if any {
			continue
		}
		if math.IsNaN(v) || math.Abs(v-want) > tol {
			c.fail(class, "%s: %s=%v, expected %v: %q", where, name, v, want, r.body)
		}
	}
}

// numReference computes a precise measure directly.
func numReference(m string, xs []float64) (want, tol float64, any bool) {
	sum, maxAbs := 0.0, 0.0
	lo, hi := xs[0], xs[0]
	comp := 0.0
	for _, x := range xs {
		y := x - comp
		t := sum + y
		comp = (t - sum) - y
		sum = t
		maxAbs = math.Max(maxAbs, math.Abs(x))
		lo, hi = math.Min(lo, x), math.Max(hi, x)
	}
	n := float64(len(xs))
	mean := sum / n
	switch m {
	case "sum":
		return sum, 1e-12 * maxAbs * n, false
	case "mean":
		return mean, 1e-11 * maxAbs, false
	case "max":
		return hi, 0, false
	case "min":
		return lo, 0, false
	case "var":
		if len(xs) < 2 {
			return 0, 0, true
		}
		ss := 0.0
		for _, x := range xs {
			ss += (x - mean) * (x - mean)
		}
		// rounding of a stable one-pass algorithm
		const u = 1.2e-16
		v := ss / (n - 1)
		return v, 1e-10*v + 16*n*u*math.Sqrt(v)*maxAbs + 4*n*n*u*u*maxAbs*maxAbs, false
	}
	return 0, 0, true
}

func distinct(l []string) int {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return len(m)
}

// uniqueReference is the estimate of a fresh counter given each distinct value
// once, and the range a HyperLogLog estimate of that precision stays in.
func uniqueReference(texts []string, p int) (want, lo, hi float64) {
	seen := map[string]bool{}
	k := hll.New(uint8(p))
	for _, t := range texts {
		if !seen[t] {
			seen[t] = true
			k.Add([]byte(t))
		}
	}
	want = float64(k.Count())
	lo, hi = core.CardinalityRange(len(seen), p)
	return
}

// order checks answers against each other: one single order of each key's
// observations, never going backwards, and prefixes of uploads across keys.
func (c *checker) order(ci int) {
	l := c.snaps[ci]
	for i, a := range l {
		for j, b := range l {
			if i == j {
				continue
			}
			if a.key == b.key {
				if a.rec.ret < b.rec.inv && !subset(a.set, b.set) {
					c.fail("backwards", "%s: an answer reflecting %s was followed by one reflecting %s (key %s)", c.h.colls[ci].Name, idList(a.set), idList(b.set), pretty(a.key))
				} else if i < j && !subset(a.set, b.set) && !subset(b.set, a.set) {
					c.fail("not-serial", "%s: answers reflecting %s and %s fit no single order (key %s)", c.h.colls[ci].Name, idList(a.set), idList(b.set), pretty(a.key))
				}
				continue
			}
			if a.rec.ret >= b.rec.inv {
				continue
			}
			// a was answered before b was asked: what a shows of an upload implies
			// everything before it in that upload
			for _, id := range ints(a.set) {
				ri := c.rows[ci][id]
				for _, rj := range c.perUp[ci][ri.rec] {
					if rj.idx < ri.idx && rj.matches && !rj.invalid && rj.key == b.key && rj.row.ID >= 0 && !b.set[rj.row.ID] {
						c.fail("prefix", "%s: observation %d was visible, but %d, earlier in the same upload, was not visible afterwards (key %s)", c.h.colls[ci].Name, id, rj.row.ID, pretty(b.key))
					}
					if rj.idx < ri.idx && rj.invalid && (rj.row.Bad || rj.matches) {
						c.fail("prefix", "%s: observation %d is visible although an earlier one in its upload could not be applied", c.h.colls[ci].Name, id)
					}
				}
			}
		}
	}
}

// undecodable checks an answer whose set of observations cannot be read off:
// the count lies between what must and what may be there, and if both agree all
// values must match.
func (c *checker) undecodable(ci int, r *rec, key string, a answer, where string) {
	d := &c.h.colls[ci]
	var must, may, open []*RowDef
	opens := 0
	for _, up := range c.h.recs {
		acked, part, stop := up.ok() && up.ret < r.inv, false, false
		for _, ri := range c.perUp[ci][up] {
			if ri.invalid && (ri.row.Bad || ri.matches) {
				stop = true // nothing after it may be applied
			}
			if stop || !ri.matches || ri.invalid || ri.key != key {
				continue
			}
			if acked {
				must = append(must, ri.row)
			}
			if ri.rec.rowAt[ri.idx] > 0 && ri.rec.rowAt[ri.idx] < r.ret {
				may = append(may, ri.row)
				if !acked {
					open = append(open, ri.row)
					part = true
				}
			}
		}
		if part {
			opens++
		}
	}
	if len(may) == 0 {
		if len(a.vals) > 0 {
			c.fail("phantom", "%s: nothing was observed, yet the answer has statistics: %q", where, r.body)
		}
		return
	}
	if len(a.vals) == 0 {
		if len(must) > 0 {
			for _, s := range r.req.Sel {
				for _, m := range d.measures() {
					if s == m {
						c.fail("lost-row", "%s: no statistics although %d observations had been acknowledged", where, len(must))
						return
					}
				}
			}
		}
		return
	}
	if v, ok := a.vals["count(*)"]; ok {
		if v < float64(len(must)) {
			c.fail("lost-row", "%s: count(*)=%v although %d observations had been acknowledged: %q", where, v, len(must), r.body)
			return
		}
		if v > float64(len(may)) {
			c.fail("duplicate-row", "%s: count(*)=%v although only %d observations had been sent: %q", where, v, len(may), r.body)
			return
		}
		for _, o := range c.counts {
			if o.ci == ci && o.key == key && (o.rec.ret < r.inv && o.n > v || r.ret < o.rec.inv && o.n < v) {
				c.fail("backwards", "%s: count(*)=%v but an answer on its other side in time, %s, gave %v: %q", where, v, o.rec.name(), o.n, r.body)
				return
			}
		}
		c.counts = append(c.counts, countAt{ci, key, v, r})
	}
	if len(must) == len(may) {
		c.values(d, must, r, a, where, "value")
	} else if v, ok := a.vals["count(*)"]; ok && opens == 1 && v == math.Trunc(v) {
		// the only upload not acknowledged has contributed its first observations
		k := int(v) - len(must)
		rows := append(append([]*RowDef{}, must...), open[:k]...)
		if k > 0 {
			where += fmt.Sprintf(" after the first %d of an unfinished upload", k)
		}
		c.values(d, rows, r, a, where, "snapshot")
	}
}
