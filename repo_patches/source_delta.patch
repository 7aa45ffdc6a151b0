From 68687ab803e27f11c50695897daca9f6edb07d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 01/14] fix: bufmap.Get reads exactly the slot's own bytes

The upper bound of the copied range was x*(s+1) instead of (x+1)*s, so
slot 0 always read as empty, slots below the stride were cut short and
later ones ran into (or past) their neighbours.
---
 internal/bufmap/bufmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 080c5fd..4dffa9c 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -73,7 +73,7 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 		}
 
 		// Get a copy of the data
-		copy(buf, m.values[x*m.s:x*(m.s+1)])
+		copy(buf, m.values[x*m.s:(x+1)*m.s])
 
 		// Check that the data was not updated during the copy
 		seq2 := atomic.LoadUint32(&s.seq)
-- 
2.43.0


From 33abac251e6791f881e239035bfa0064dceda044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 02/14] fix: bufmap knows whether a record has ever been
 written

Whether a record is new was guessed from probing: a key placed after
others was new for ever, and of two writers creating the same key
neither or both could be told so. A slot claimed by an update that then
failed was found by Get, and so was the reserved key 0. Keep a flag per
slot instead, set with the first successful update.
---
 internal/bufmap/bufmap.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 4dffa9c..c4238ea 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -38,6 +38,7 @@ func New(l, s int) *Map {
 type slot struct {
 	key uint64 // key occupying this slot
 	seq uint32 // monotonically increasing write counter
+	set uint32 // 1 once an update of the record has succeeded
 	mu  sync.Mutex
 }
 
@@ -47,6 +48,11 @@ const maxReprobe = 10
 // Get atomically reads a buffer value stored against key k into buffer buf.
 // The return value will be false if the key could not be found in the map.
 func (m *Map) Get(k uint64, buf []byte) bool {
+	// 0 indicates an empty slot, it is never a valid key
+	if k == 0 {
+		return false
+	}
+
 	// Locate the correct slot
 	x := -1
 	i := 0
@@ -65,6 +71,7 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 
 	// Read the buffer from the slot using the seqlock
 	s := &m.keys[x]
+	set := false
 	for {
 		seq1 := atomic.LoadUint32(&s.seq)
 		// Is a writer currently writing?
@@ -73,6 +80,7 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 		}
 
 		// Get a copy of the data
+		set = atomic.LoadUint32(&s.set) != 0
 		copy(buf, m.values[x*m.s:(x+1)*m.s])
 
 		// Check that the data was not updated during the copy
@@ -84,7 +92,8 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 		}
 	}
 
-	return true
+	// The slot may have been claimed without a successful update yet
+	return set
 }
 
 // Update finds the buffer stored against key k and atomically updates it with
@@ -100,7 +109,6 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	}
 	x := -1
 	i := 0
-	init := false
 	for {
 		x = m.pos(k, i)
 
@@ -109,9 +117,6 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 		if kexist == k {
 			break
 		}
-		// Signal that the is a new value
-		init = true
-
 		// Is it an empty slot?
 		if kexist == 0 {
 			// Try and store key into slot
@@ -143,7 +148,12 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	// Notify readers that we are writing
 	atomic.AddUint32(&s.seq, 1)
 
+	// The value is new until an update of it has succeeded
+	init := atomic.LoadUint32(&s.set) == 0
 	err := fn(m.values[x*m.s:(x+1)*m.s], init)
+	if err == nil && init {
+		atomic.StoreUint32(&s.set, 1)
+	}
 
 	// Notify readers that we are done
 	atomic.AddUint32(&s.seq, 1)
-- 
2.43.0


From 942a64442805eca3ad7b3f4337fe1a97c85e92c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 03/14] fix: measures of a field absent from a record's first
 row

Max, Min and Cardinality initialised their state only with the row that
creates the record. If that row lacked the field, the maximum and minimum
later started from 0 and unique counts failed for ever with an
incompatible version. Each now knows whether its own state is set.
---
 internal/collation/measure.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index 030ac8e..e205658 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -143,19 +143,20 @@ type Max struct{}
 
 var _ ContinuousInput = Max{}
 
-func (Max) Size() int { return 8 }
+func (Max) Size() int { return 9 } // value and a byte that is set once there is one
 
 func (Max) Name() string { return "max" }
 
 func (Max) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
-		if !init {
+		if !init && buf[8] != 0 {
 			c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
 			if c >= v {
 				return nil
 			}
 		}
 		binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
+		buf[8] = 1
 		return nil
 	}
 }
@@ -172,19 +173,20 @@ type Min struct{}
 
 var _ ContinuousInput = Min{}
 
-func (Min) Size() int { return 8 }
+func (Min) Size() int { return 9 } // value and a byte that is set once there is one
 
 func (Min) Name() string { return "min" }
 
 func (Min) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
-		if !init {
+		if !init && buf[8] != 0 {
 			c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
 			if c <= v {
 				return nil
 			}
 		}
 		binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
+		buf[8] = 1
 		return nil
 	}
 }
@@ -234,7 +236,8 @@ var _ ContinuousOutput = Cardinality{}
 func (c Cardinality) DiscWriter() DiscWriterFunc {
 	return func(buf []byte, init bool, v []byte) error {
 
-		if init {
+		// The record may have been created by a row that lacks the field
+		if init || buf[0] == 0 {
 			s := hll.New(uint8(c.Precision))
 			s.Add(v)
 
@@ -255,6 +258,9 @@ func (c Cardinality) DiscWriter() DiscWriterFunc {
 
 func (c Cardinality) ContReader() ContReaderFunc {
 	return func(buf []byte) (float64, error) {
+		if buf[0] == 0 {
+			return 0, nil // the field has not been observed yet
+		}
 		s, err := hll.WithBytes(buf)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From 259c292f1c15443cc52bde1613724790e46c9bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 04/14] fix: a row with an unusable value changes nothing

Collator.Update counted the row and updated other fields before it found
a value that is not a number, so that the record was left changed by a
row whose upload was answered with an error.
---
 internal/collation/schema.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/collation/schema.go b/internal/collation/schema.go
index a7f6caf..c52f40e 100644
--- a/internal/collation/schema.go
+++ b/internal/collation/schema.go
@@ -160,6 +160,15 @@ type Collator struct {
 // their state. If an error is returned then the buffer may be in an
 // inconsistent state and should not be used further.
 func (c Collator) Update(r Row, buf []byte, init bool) error {
+	// Refuse the row before any measure has been updated
+	for _, fv := range r.Data {
+		if _, exists := c.contWriters[string(fv.F)]; exists {
+			if _, err := strconv.ParseFloat(string(fv.V), 64); err != nil {
+				return err
+			}
+		}
+	}
+
 	// Update measures that operate on the row
 	for _, w := range c.writers {
 		if err := w.Update(buf, init); err != nil {
-- 
2.43.0


From a0584dff2e65f2ca197bca40a3997085eb49967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 05/14] fix: an upload that fails while it is read records no
 torn row

When the connection broke in the middle of a line, the scanner handed out
what there was of it as the last line, and it was recorded as if it had
been received completely: a cut timestamp, value or key.
---
 internal/server/server.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index a4c386f..2868b52 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -166,7 +166,9 @@ func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req
 	}
 
 	now := time.Now()
-	sc := bufio.NewScanner(r)
+	br := &bodyReader{r: r}
+	sc := bufio.NewScanner(br)
+	sc.Split(br.scanLines)
 	for sc.Scan() {
 
 		// Check whether context has been cancelled
@@ -196,6 +198,29 @@ func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req
 	}
 }
 
+// bodyReader remembers the error that ended reading early, if any.
+type bodyReader struct {
+	r   io.Reader
+	err error
+}
+
+func (b *bodyReader) Read(p []byte) (int, error) {
+	n, err := b.r.Read(p)
+	if err != nil && err != io.EOF {
+		b.err = err
+	}
+	return n, err
+}
+
+// scanLines is bufio.ScanLines, but leaves out a last line that was cut short
+// because the body could not be read to its end.
+func (b *bodyReader) scanLines(data []byte, atEOF bool) (int, []byte, error) {
+	if atEOF && b.err != nil && bytes.IndexByte(data, '\n') < 0 {
+		return 0, nil, b.err
+	}
+	return bufio.ScanLines(data, atEOF)
+}
+
 func contentType(req *http.Request) (string, error) {
 	ct := req.Header.Get("Content-Type")
 	if ct == "" {
-- 
2.43.0


From ef7e83d25600427fe2e6c0203deec3e8abc2fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 06/14] fix: a cancelled upload is not answered with success

A client that had closed its sending side got an implicit 200 although
the rest of its rows had been dropped when the request was cancelled.
---
 internal/server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/server/server.go b/internal/server/server.go
index 2868b52..7db128b 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -174,6 +174,7 @@ func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req
 		// Check whether context has been cancelled
 		select {
 		case <-ctx.Done():
+			http.Error(w, ctx.Err().Error(), http.StatusInternalServerError)
 			return
 		default:
 		}
-- 
2.43.0


From a11890dc49cb62fb73a6d08125af71ddd80c150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 07/14] fix: a terminating signal is not lost while the server
 starts to wait

signal.Notify does not block: with an unbuffered channel a signal that
arrives between Notify and the receive is dropped, and the process does
not stop.
---
 internal/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 7db128b..1ffae10 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -83,7 +83,7 @@ func (s *Server) Serve() error {
 
 // waitSignal blocks waiting for operating system signals
 func (s *Server) waitSignal() {
-	ch := make(chan os.Signal)
+	ch := make(chan os.Signal, 1)
 	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
 
 signalloop:
-- 
2.43.0


From 344558bc611f22b4bce139ee4d5a6e69845d7dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 08/14] fix: a query's measures are answered in the order asked

The parser ranged over a map, so the same query over the same data gave
its lines in a different order each time.
---
 internal/query/rough.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index c98b613..abe5806 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -23,17 +23,21 @@ func RoughParse(in string) (collation.Query, error) {
 	}
 
 	fields := map[string][][]byte{}
+	order := []string{} // fields in order of first appearance
 
 	selections := selectRe.FindAllStringSubmatch(parts[1], -1)
 	for _, s := range selections {
 		if len(s) != 3 {
 			return q, fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
 		}
+		if _, found := fields[string(s[2])]; !found {
+			order = append(order, s[2])
+		}
 		fields[string(s[2])] = append(fields[string(s[2])], []byte(s[1]))
 	}
 
-	for f, vs := range fields {
-		q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(f), M: vs})
+	for _, f := range order {
+		q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(f), M: fields[f]})
 	}
 
 	wheres := whereRe.FindAllStringSubmatch(parts[2], -1)
-- 
2.43.0


From 4a2c1acb79d46d7a705d77ac178c6b632985956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 09/14] fix: incmap does not find the reserved key 0

Get(0) matched the first empty slot it probed and reported found.
---
 internal/incmap/incmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/incmap/incmap.go b/internal/incmap/incmap.go
index 1244064..96a0bf8 100644
--- a/internal/incmap/incmap.go
+++ b/internal/incmap/incmap.go
@@ -74,6 +74,10 @@ func (m *Map) Inc(k uint64, d uint64) bool {
 // Get retrieves the value stored against key k. The second return
 // value will be false if the key could not be found in the map.
 func (m *Map) Get(k uint64) (uint64, bool) {
+	// 0 indicates an empty slot, it is never a valid key
+	if k == 0 {
+		return 0, false
+	}
 
 	x := -1
 	i := 0
-- 
2.43.0


From 370e6d3d968a9f42ebca95ba1deae499fa4df191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 10/14] fix: hll estimates the cardinality of similar items
 correctly

The register was selected by the high bits of a plain FNV-1 hash, which
short or similar items barely change: 1315 distinct airport codes were
estimated as 38.
---
 internal/summary/hll/hll.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index d2b299d..97564ec 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -89,7 +89,7 @@ type Counter struct {
 }
 
 func (c *Counter) Add(v []byte) {
-	h := fnv.Sum64(v)
+	h := mix(fnv.Sum64(v))
 	idx := int((h & c.mask) >> (64 - c.p))
 
 	// Count leading zeros - there are faster ways to do this
@@ -107,6 +107,19 @@ func (c *Counter) Add(v []byte) {
 	}
 }
 
+// mix spreads the entropy of an FNV hash over all its bits. The high bits, which
+// select the register, hardly depend on the last bytes of the input otherwise,
+// so that similar items fall into few registers. This is the finalizer of
+// MurmurHash3.
+func mix(h uint64) uint64 {
+	h ^= h >> 33
+	h *= 0xff51afd7ed558ccd
+	h ^= h >> 33
+	h *= 0xc4ceb9fe1a85ec53
+	h ^= h >> 33
+	return h
+}
+
 // Count returns an estimate of the number of distinct items that have been added to the counter.
 func (c *Counter) Count() int64 {
 	h := 0.0
-- 
2.43.0


From 174c52d77875b6edfd2977b1cf19e1186115413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 11/14] fix: the end of a serialized sketch is checked the same
 for every reader

---
 internal/bitbucket/bitbucket.go | 7 +++++--
 internal/summary/bloom/bloom.go | 7 -------
 internal/summary/hll/hll.go     | 7 -------
 3 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index 80969ad..564fe47 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -209,12 +209,15 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
-	if err != io.EOF {
+	if n1 > 0 {
 		// Unexpected trailing data
 		return int64(n), io.ErrShortBuffer
 	}
+	if err != io.EOF {
+		return int64(n), err
+	}
 
 	return int64(n), nil
 }
diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 762843a..8307b70 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -179,13 +179,6 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 	}
 	b.m = b.bits.Count()
 
-	n1, err := r.Read(buf[:])
-	n += n1
-	if err != io.EOF {
-		// Unexpected trailing data
-		return int64(n), io.ErrShortBuffer
-	}
-
 	return int64(n), nil
 }
 
diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index 97564ec..e33a651 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -311,13 +311,6 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
-	n1, err := r.Read(buf[:])
-	n += n1
-	if err != io.EOF {
-		// Unexpected trailing data
-		return int64(n), io.ErrShortBuffer
-	}
-
 	return int64(n), nil
 }
 
-- 
2.43.0


From e3d76b19424e61e9fffabe09a1ab738147c25d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 12/14] fix: sketches refuse damaged headers instead of
 crashing

---
 internal/bitbucket/bitbucket.go | 47 +++++++++++++++++++++++++--------
 internal/summary/bloom/bloom.go | 27 ++++++++++++++++---
 internal/summary/hll/hll.go     | 26 +++++++++++++++---
 3 files changed, 82 insertions(+), 18 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index 564fe47..1e1ca13 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -5,6 +5,7 @@
 package bitbucket
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
@@ -17,6 +18,7 @@ const (
 
 var ErrIncompatibleVersion = errors.New("bitbucket: incompatible version")
 var ErrUnsupportedWidth = errors.New("bitbucket: requested bucket width exceeds maximum of 8")
+var ErrInvalidHeader = errors.New("bitbucket: invalid header")
 
 // A BitBucket is a collection of buckets capable of storing values from zero
 // up to maximum specified by the configured number of bits.
@@ -53,15 +55,13 @@ func WithBytes(buf []byte) (BitBucket, error) {
 		return BitBucket{}, ErrIncompatibleVersion
 	}
 
-	w := buf[1]
-	if w > 8 {
-		return BitBucket{}, ErrUnsupportedWidth
+	n, w, err := parseSize(buf[1:hdrLen])
+	if err != nil {
+		return BitBucket{}, err
 	}
 
-	n := int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
-
 	buflen := length(n, w)
-	if len(buf) < hdrLen+buflen {
+	if len(buf)-hdrLen < buflen {
 		return BitBucket{}, io.ErrShortBuffer
 	}
 
@@ -72,6 +72,24 @@ func WithBytes(buf []byte) (BitBucket, error) {
 	}, nil
 }
 
+// parseSize reads the width and number of buckets from the header bytes that
+// follow the version, refusing values no bit bucket could have been written with.
+func parseSize(buf []byte) (n int, w uint8, err error) {
+	const maxInt = int(^uint(0) >> 1)
+
+	w = buf[0]
+	if w > 8 {
+		return 0, 0, ErrUnsupportedWidth
+	}
+
+	un := binary.LittleEndian.Uint64(buf[1:])
+	if un > uint64(maxInt/8-hdrLen) || (w == 0 && un > 0) {
+		return 0, 0, ErrInvalidHeader
+	}
+
+	return int(un), w, nil
+}
+
 // length calculates the length of byte slice needed to accommodate n buckets of w bits
 func length(n int, w uint8) int {
 	return (n*int(w) + 7) / 8
@@ -196,12 +214,15 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	b.w = buf[1]
-	b.n = int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
-	b.data = make([]byte, length(b.n, b.w))
+	bn, bw, err := parseSize(buf[1:])
+	if err != nil {
+		return int64(n), err
+	}
 
-	n0, err := io.ReadFull(r, b.data)
-	n += n0
+	// The header may be damaged, so only make room for data that really arrives.
+	var data bytes.Buffer
+	n0, err := io.CopyN(&data, r, int64(length(bn, bw)))
+	n += int(n0)
 	if err != nil {
 		if err == io.EOF {
 			return int64(n), io.ErrUnexpectedEOF
@@ -209,6 +230,10 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
+	b.n = bn
+	b.w = bw
+	b.data = data.Bytes()
+
 	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
 	if n1 > 0 {
diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 8307b70..aa7f0c9 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -19,6 +19,7 @@ const (
 )
 
 var ErrIncompatibleVersion = errors.New("bloom: incompatible version")
+var ErrInvalidHeader = errors.New("bloom: invalid header")
 
 // Bloom is a bloom filter which can be used to probabilisticly test whether an item is a
 // member of a set. False positives are possible but false negatives are not.
@@ -40,6 +41,10 @@ func New(n int, p float64) Bloom {
 // the bloom filter will mutate buf. The layout of the byte buffer must match
 // the layout used by the WriteTo method.
 func WithBytes(buf []byte) (Bloom, error) {
+	if len(buf) < hdrLen {
+		return Bloom{}, io.ErrShortBuffer
+	}
+
 	version := buf[0]
 	if version != Version {
 		return Bloom{}, ErrIncompatibleVersion
@@ -50,6 +55,9 @@ func WithBytes(buf []byte) (Bloom, error) {
 	if err != nil {
 		return Bloom{}, err
 	}
+	if !validBits(bits) {
+		return Bloom{}, ErrInvalidHeader
+	}
 
 	return Bloom{
 		m:    bits.Count(),
@@ -58,6 +66,11 @@ func WithBytes(buf []byte) (Bloom, error) {
 	}, nil
 }
 
+// validBits reports whether bits can be the bits of a bloom filter.
+func validBits(bits bitbucket.BitBucket) bool {
+	return bits.Count() > 0 && bits.Width() == 1
+}
+
 func mk(n int, p float64) (int, uint8) {
 	m := int(math.Ceil(-float64(n) * math.Log(p) / (math.Ln2 * math.Ln2)))
 	kraw := math.Ceil(math.Ln2 * float64(m) / float64(n))
@@ -166,10 +179,10 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	b.k = buf[1]
-	b.bits = bitbucket.BitBucket{}
+	k := buf[1]
+	var bits bitbucket.BitBucket
 
-	n0, err := b.bits.ReadFrom(r)
+	n0, err := bits.ReadFrom(r)
 	n += int(n0)
 	if err != nil {
 		if err == io.EOF {
@@ -177,7 +190,13 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 		}
 		return int64(n), err
 	}
-	b.m = b.bits.Count()
+	if !validBits(bits) {
+		return int64(n), ErrInvalidHeader
+	}
+
+	b.k = k
+	b.bits = bits
+	b.m = bits.Count()
 
 	return int64(n), nil
 }
diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index e33a651..3dc4062 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -20,6 +20,7 @@ const (
 )
 
 var ErrIncompatibleVersion = errors.New("hll: incompatible version")
+var ErrInvalidPrecision = errors.New("hll: invalid precision")
 
 // New creates a new hyperloglog counter with the specified precision. p must be in the range [4,18]
 func New(p uint8) Counter {
@@ -41,6 +42,10 @@ func New(p uint8) Counter {
 // writes to the counter will mutate buf. The layout of the byte buffer
 // must match the layout used by the WriteTo method.
 func WithBytes(buf []byte) (Counter, error) {
+	if len(buf) < hdrLen {
+		return Counter{}, io.ErrShortBuffer
+	}
+
 	version := buf[0]
 	if version != Version {
 		return Counter{}, ErrIncompatibleVersion
@@ -51,6 +56,9 @@ func WithBytes(buf []byte) (Counter, error) {
 	if err != nil {
 		return Counter{}, err
 	}
+	if !validParams(p, bits) {
+		return Counter{}, ErrInvalidPrecision
+	}
 
 	c := Counter{
 		p:    p,
@@ -60,6 +68,11 @@ func WithBytes(buf []byte) (Counter, error) {
 	return c, nil
 }
 
+// validParams reports whether bits can hold the registers of a counter with precision p.
+func validParams(p uint8, bits bitbucket.BitBucket) bool {
+	return p >= 4 && p <= 18 && bits.Count() == 1<<p && bits.Width() == 6
+}
+
 func (c *Counter) initParams() {
 	m := int(1 << uint(c.p))
 
@@ -299,10 +312,10 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	c.p = buf[1]
-	c.initParams()
+	p := buf[1]
+	var bits bitbucket.BitBucket
 
-	n0, err := c.bits.ReadFrom(r)
+	n0, err := bits.ReadFrom(r)
 	n += int(n0)
 	if err != nil {
 		if err == io.EOF {
@@ -310,6 +323,13 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		}
 		return int64(n), err
 	}
+	if !validParams(p, bits) {
+		return int64(n), ErrInvalidPrecision
+	}
+
+	c.p = p
+	c.bits = bits
+	c.initParams()
 
 	return int64(n), nil
 }
-- 
2.43.0


From 5c513904731c6063150ead42a0a9c0e91bb49cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 13/14] fix: a query finds key values that end in an equals
 sign

---
 internal/query/rough.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index abe5806..2814b58 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -10,7 +10,7 @@ import (
 var (
 	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+)\s+where\s+(.+)\s*$`)
 	selectRe = regexp.MustCompile(`([^,\s]+)\(([^,\s]+)\)`)
-	whereRe  = regexp.MustCompile(`(\S+)='([^']+)'`)
+	whereRe  = regexp.MustCompile(`([^\s=]+)='([^']+)'`)
 )
 
 // RoughParse is a quick and dirty query parser that uses regular expressions.
-- 
2.43.0


From 7e1a0a7b23559f3c2dd51bb2eac49ea78e7aebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:14 +0000
Subject: [PATCH 14/14] fix: a query finds key values that contain the word
 where

---
 internal/query/rough.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index 2814b58..1283c2a 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -8,7 +8,7 @@ import (
 )
 
 var (
-	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+)\s+where\s+(.+)\s*$`)
+	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+?)\s+where\s+(.+)\s*$`)
 	selectRe = regexp.MustCompile(`([^,\s]+)\(([^,\s]+)\)`)
 	whereRe  = regexp.MustCompile(`([^\s=]+)='([^']+)'`)
 )
-- 
2.43.0

