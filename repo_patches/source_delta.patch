From 02f4415e407d838ff959d216fca895e3379fdde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 01/52] fix: LRU lookups refresh the recency of the entry they
 return

---
 utils/caches/lru.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index dd3e596..206b51b 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -64,10 +64,10 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 
 	i, exists := this.heap.index[k]
 	if exists {
-		entry := this.heap.list[i]
-		entry.last = time.Now()
+		this.heap.list[i].last = time.Now() // in place, so the entry really becomes the most recent
+		val := this.heap.list[i].val
 		heap.Fix(this.heap, i)
-		return entry.val, HIT, nil
+		return val, HIT, nil
 	}
 
 	// TODO(oha): this is wrong, we shouldn't hold a lock onMiss
-- 
2.43.0


From c5a88180a9f63350d18844065dec082c7894c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 02/52] fix: LRU.String reads the cache state under its lock

---
 utils/caches/lru.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index 206b51b..03b6626 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -98,6 +98,9 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 }
 
 func (this *LRU[K, V]) String() string {
+	this.l.Lock()
+	defer this.l.Unlock()
+
 	if len(this.heap.list) == 0 {
 		return fmt.Sprintf("LRU{%d/%d, empty}", this.curSize, this.MaxSize)
 	}
-- 
2.43.0


From 36b5f17fb683a4f19e06bb86535738dd7331a9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 03/52] fix: RequestCache never fetches again while a
 concurrent fetch result is still fresh

---
 utils/caches/request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/caches/request.go b/utils/caches/request.go
index 227c5c3..dd78fae 100644
--- a/utils/caches/request.go
+++ b/utils/caches/request.go
@@ -44,8 +44,8 @@ func (this *RequestCache[K, V]) Request(c ctx.C, key K) (V, HitMiss, error) {
 	defer e.m.Unlock()
 
 	//log.Debugf(c, "ReqCache[%v] %v expired %v ago", key, hit, time.Since(e.expire))
-	// not a miss, and not expired
-	if hit != MISS && time.Until(e.expire) >= 0 {
+	// not expired (a new entry has no expiration yet; whoever locks it first does the fetch)
+	if time.Until(e.expire) >= 0 {
 		if e.err != nil {
 			return e.V, HIT, e.err
 		} else {
-- 
2.43.0


From 8820a579f7e045e4445ee9ccca58d345113e3d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 04/52] fix: Counter.Print reads the counter under its lock

---
 utils/prom/counter.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index caf75da..30a859f 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -52,11 +52,14 @@ func (this *Counter) Print(w io.Writer) error {
 				}
 			}
 		}
+		v.m.Lock()
+		sum := v.sum
+		v.m.Unlock()
 		if l == "" {
-			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.sum)
+			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, sum)
 			return err
 		} else {
-			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.sum)
+			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, sum)
 			return err
 		}
 	})
-- 
2.43.0


From fbc4d9b4b01763c349afbfbec8cd4e1945021659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 05/52] fix: sync.Map iteration accepts nil interface keys and
 values

---
 utils/sync/map.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/sync/map.go b/utils/sync/map.go
index 8ec73ce..03058e4 100644
--- a/utils/sync/map.go
+++ b/utils/sync/map.go
@@ -91,7 +91,9 @@ func (this *Map[K, V]) Store(key K, val V) {
 
 func (this *Map[K, V]) Range(f func(key K, val V) bool) {
 	this.m.Range(func(key, val any) bool {
-		return f(key.(K), val.(V))
+		k, _ := key.(K) // nil interfaces have no dynamic type to assert: they are the zero value
+		v, _ := val.(V)
+		return f(k, v)
 	})
 }
 
@@ -99,7 +101,9 @@ func (this *Map[K, V]) Range(f func(key K, val V) bool) {
 func (this *Map[K, V]) RangeErr(f func(key K, val V) error) error {
 	var err error
 	this.m.Range(func(key, val any) bool {
-		err = f(key.(K), val.(V))
+		k, _ := key.(K) // as in Range()
+		v, _ := val.(V)
+		err = f(k, v)
 		return err == nil
 	})
 	return err
-- 
2.43.0


From d161e0daf7d6de05c0e8cd57bcef3e576aa3cee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 06/52] fix: equal enc.Map values render equally, whatever the
 map iteration order

---
 enc/map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/map.go b/enc/map.go
index 5c84ba2..e790bfd 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -35,6 +36,7 @@ func (this Map) String() string {
 	for k, v := range this {
 		p = append(p, fmt.Sprintf("%q:%s", k, v))
 	}
+	sort.Strings(p) // same content, same text
 	return "{" + strings.Join(p, ", ") + "}"
 }
 
@@ -43,6 +45,7 @@ func (this Map) GoString() string {
 	for k, v := range this {
 		p = append(p, fmt.Sprintf("%q:%s", k, v))
 	}
+	sort.Strings(p) // same content, same text (it is used to compare nodes)
 	return "enc.Map{" + strings.Join(p, ", ") + "}"
 }
 
-- 
2.43.0


From f8f3ad74ed6b23849f2d773ba0fb3ff32901cc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 07/52] fix: a storage filter without a literal matches a
 missing field instead of panicking

---
 storage/keyvalue.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/storage/keyvalue.go b/storage/keyvalue.go
index 9fc0d51..866d20e 100644
--- a/storage/keyvalue.go
+++ b/storage/keyvalue.go
@@ -100,12 +100,16 @@ func (this Filter) Check(c ctx.C, val enc.Map) (bool, error) {
 	if v == nil {
 		v = enc.Nil{}
 	}
-	log.Debugf(c, "Check(%q %q %v)", v, this.Cmp, this.Val)
+	lit := this.Val
+	if lit == nil { // same as a missing field
+		lit = enc.Nil{}
+	}
+	log.Debugf(c, "Check(%q %q %v)", v, this.Cmp, lit)
 	switch this.Cmp {
 	case Equal:
-		return v.GoString() == this.Val.GoString(), nil
+		return v.GoString() == lit.GoString(), nil
 	case NotEqual:
-		return v.GoString() != this.Val.GoString(), nil
+		return v.GoString() != lit.GoString(), nil
 	default:
 		return false, ctx.NewErrorf(c, "unsupported cmp operator: %q", this.Cmp)
 	}
-- 
2.43.0


From 66d761ef74a549c7de0ce98008b7fc9dcf91129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 08/52] fix: metric label values only use the escapes of the
 exposition format

---
 utils/prom/labels.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/prom/labels.go b/utils/prom/labels.go
index 66760a0..5b1e466 100644
--- a/utils/prom/labels.go
+++ b/utils/prom/labels.go
@@ -2,8 +2,12 @@ package prom
 
 import (
 	"fmt"
+	"strings"
 )
 
+// the only escape sequences known to the exposition format
+var labelEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`)
+
 // returns a list of labels comma separated
 func stringify(keys []string, vals []string) string {
 	if len(keys) != len(vals) {
@@ -11,7 +15,7 @@ func stringify(keys []string, vals []string) string {
 	}
 	s := ""
 	for i := 0; i < len(keys); i++ {
-		s += fmt.Sprintf(",%s=%q", keys[i], vals[i])
+		s += fmt.Sprintf(",%s=\"%s\"", keys[i], labelEscaper.Replace(vals[i]))
 	}
 	if s == "" {
 		return ""
-- 
2.43.0


From 7ba54a09c7786af3f217f30518674d8f810cff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 09/52] fix: a histogram exposed before its first observation
 does not panic

---
 utils/prom/histogram.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index e16d811..ba4867d 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -74,6 +74,9 @@ func (this *Histogram) Print(name string, w io.Writer) (err error) {
 func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (err error) {
 	this.m.Lock()
 	defer this.m.Unlock()
+	for len(this.buckets) < len(le) { // registered but not observed yet
+		this.buckets = append(this.buckets, 0)
+	}
 	if labels == "" {
 		for i, le := range le {
 			b := this.buckets[i]
-- 
2.43.0


From 99d8ed4a5bdf54886dff7e6c9188dfa176e3577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:29 +0000
Subject: [PATCH 10/52] fix: taking a hold while somebody waits for the
 shutdown to be done does not panic

sync.WaitGroup panics when Add is called while a previous Wait is still returning.
---
 shutdown/shutdown.go | 45 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/shutdown/shutdown.go b/shutdown/shutdown.go
index 2aab1ac..d1156b7 100644
--- a/shutdown/shutdown.go
+++ b/shutdown/shutdown.go
@@ -18,8 +18,11 @@ type shutter struct {
 	ch   chan struct{}
 	ch5  chan struct{}
 	once sync.Once
+	m    sync.Mutex
 	// active services holding the shutdown to complete
-	wg sync.WaitGroup
+	holds int
+	// closed when the last hold is released, nil unless somebody is waiting for it
+	idle chan struct{}
 }
 
 var shutdowner = newShutter()
@@ -54,25 +57,47 @@ func (this *shutter) started5Sec() <-chan struct{} {
 
 // returns a channel that will close when the shutdown has completed
 func (this *shutter) done() <-chan struct{} {
-	ch := make(chan struct{})
-	go func() {
-		this.wg.Wait()
-		close(ch)
-	}()
+	this.m.Lock()
+	defer this.m.Unlock()
+	if this.idle == nil {
+		this.idle = make(chan struct{})
+	}
+	ch := this.idle
+	this.checkIdle()
 	return ch
 }
 
+// wake up whoever is waiting if there are no holds, needs the lock
+func (this *shutter) checkIdle() {
+	if this.holds == 0 && this.idle != nil {
+		close(this.idle)
+		this.idle = nil
+	}
+}
+
 // prevent the shutdown to complete until released
 func (this *shutter) hold() ReleaseFn {
-	this.wg.Add(1)
-	return this.wg.Done
+	this.m.Lock()
+	defer this.m.Unlock()
+	this.holds++
+	var once sync.Once
+	return func() {
+		once.Do(this.release)
+	}
+}
+
+func (this *shutter) release() {
+	this.m.Lock()
+	defer this.m.Unlock()
+	this.holds--
+	this.checkIdle()
 }
 
 // prevents the shutdown to complete until released, and also wait for the shutdown to start
 func (this *shutter) holdAndWait() ReleaseFn {
-	this.wg.Add(1)
+	release := this.hold()
 	<-this.ch
-	return this.wg.Done
+	return release
 }
 
 // setup signals and wait for the shutdown to complete
-- 
2.43.0


From 5078339feb205cb1ccbfdb7bd766cfff096e15bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:55 +0000
Subject: [PATCH 11/52] fix: sibling spans get different tracking ids

The step counter was incremented on a copy of the context.
---
 ctx/span.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctx/span.go b/ctx/span.go
index 401c379..ee68440 100644
--- a/ctx/span.go
+++ b/ctx/span.go
@@ -18,7 +18,7 @@ func WithTracking(c C, suggest string) C {
 	if suggest == "" {
 		suggest = uuid.NewString()
 	}
-	return trackingCtx{
+	return &trackingCtx{
 		C:    WithTag(c, "tracking-id", suggest),
 		ID:   suggest,
 		Last: 0,
@@ -38,7 +38,7 @@ func GetTracking(c C) string {
 
 type trackingNext struct{}
 
-func (c trackingCtx) Value(k any) any {
+func (c *trackingCtx) Value(k any) any {
 	switch k.(type) {
 	case trackingNext:
 		step := atomic.AddInt32(&c.Last, 1)
-- 
2.43.0


From 482546f8970524b1f096352f056dfb2a59339f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 12/52] fix: attaching a logger or a helper to a context does
 not change its parent

The configuration found in the parent was modified in place.
---
 ctx/log/log.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index ea64de9..6f58bd7 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -75,9 +75,9 @@ func wrapSlogLogger(l *slog.Logger) LogFunc {
 // Returns a new context with the custom LogFunc attached,
 // but without handling of tags and Loggable arguments.
 func WithLogFunc(c ctx.C, l LogFunc) ctx.C {
-	conf := extractConfig(c)
+	conf := *extractConfig(c)
 	conf.logFunc = l
-	return withConfig(c, conf)
+	return withConfig(c, &conf)
 }
 
 // Returns a new context with the specified helper func attached,
@@ -85,9 +85,9 @@ func WithLogFunc(c ctx.C, l LogFunc) ctx.C {
 // Useful for tests if you do logging with the t.Logf func (wrapped in a LogFunc),
 // and add the t.Helper func with this - ensuring that the relevant src line is logged.
 func WithHelper(c ctx.C, h func()) ctx.C {
-	conf := extractConfig(c)
+	conf := *extractConfig(c)
 	conf.helper = h
-	return withConfig(c, conf)
+	return withConfig(c, &conf)
 }
 
 // Creates a slog JSON logger with a certain default configuration, with the default minimum log level of debug
-- 
2.43.0


From 2cfff385171631b70d968e647bf26b09cc33308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:57 +0000
Subject: [PATCH 13/52] fix: logging does not overwrite the caller's arguments

Loggable arguments were replaced in the slice the caller passed.
---
 ctx/log/log.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index 6f58bd7..31d0089 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -175,6 +175,7 @@ func extractConfig(c ctx.C) *config {
 }
 
 func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
+	args = append([]any{}, args...) // the arguments belong to the caller
 	errs := []map[string]any{}
 	for i := 0; i < len(args); i++ {
 		switch arg := args[i].(type) {
-- 
2.43.0


From b08f967e365f05934f941b447704bb26cea4b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:00 +0000
Subject: [PATCH 14/52] fix: a decoded ctx.JSON does not share the buffer of
 the decoder

encoding/json requires UnmarshalJSON to copy the data it keeps.
---
 ctx/error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctx/error.go b/ctx/error.go
index 641767d..33a8d2a 100644
--- a/ctx/error.go
+++ b/ctx/error.go
@@ -81,7 +81,7 @@ func (this JSON) MarshalJSON() ([]byte, error) {
 	return this, nil
 }
 func (this *JSON) UnmarshalJSON(j []byte) error {
-	*this = j
+	*this = append(JSON(nil), j...) // the decoder reuses its buffer
 	return nil
 }
 func (this JSON) String() string {
-- 
2.43.0


From 33c9cfd0aad30433d6ecc0a81c1e2978cdeeadc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:32 +0000
Subject: [PATCH 15/52] fix: ReadAll keeps the data a reader returns together
 with an error

---
 utils/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/io.go b/utils/io.go
index c822cb1..bbd81a2 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -21,11 +21,11 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 		buf := make([]byte, 8192)
 		for c.Err() == nil {
 			ct, err := r.Read(buf)
+			_, _ = out.Write(buf[0:ct]) // a reader may return data and an error together
 			if err != nil {
 				ch <- err
 				return
 			}
-			_, _ = out.Write(buf[0:ct])
 			//log.Printf("read %d bytes...", ct)
 		}
 	}()
-- 
2.43.0


From bcc159156be56695ec16be3fdab9e32cf2507315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:35 +0000
Subject: [PATCH 16/52] fix: ReadAll does not share its buffer with the reader
 it gave up on

---
 utils/io.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/io.go b/utils/io.go
index bbd81a2..fce1449 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"bytes"
 	"io"
+	"sync"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -11,6 +12,7 @@ import (
 // Note: it uses an internal go-routine, which will block on read
 // If the close function is passed, it will be called when read is exhausted.
 func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
+	var m sync.Mutex // after a timeout, the go-routine may still be reading
 	out := bytes.Buffer{}
 	ch := make(chan error, 1)
 	if close != nil {
@@ -21,7 +23,9 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 		buf := make([]byte, 8192)
 		for c.Err() == nil {
 			ct, err := r.Read(buf)
+			m.Lock()
 			_, _ = out.Write(buf[0:ct]) // a reader may return data and an error together
+			m.Unlock()
 			if err != nil {
 				ch <- err
 				return
@@ -31,7 +35,9 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 	}()
 	select {
 	case <-c.Done():
-		return out.Bytes(), ctx.NewErrorf(c, "timeout: %w", c.Err())
+		m.Lock()
+		defer m.Unlock()
+		return bytes.Clone(out.Bytes()), ctx.NewErrorf(c, "timeout: %w", c.Err())
 	case err := <-ch:
 		if err == io.EOF {
 			return out.Bytes(), nil
-- 
2.43.0


From 19164893a11b10d568323f0f4123bb39be1405b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:00 +0000
Subject: [PATCH 17/52] fix: a malformed API request body is answered with 400

---
 http/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/api.go b/http/api.go
index 69f2ef4..4631503 100644
--- a/http/api.go
+++ b/http/api.go
@@ -33,7 +33,7 @@ func (s *Server) RegisterAPI(c ctx.C, obj Doable) (*openapi.PathItem, error) {
 		if r.Body != nil {
 			err := req.ReadFrom(c, bytes.NewBuffer(in))
 			if err != nil {
-				return nil, ctx.NewErrorf(c, "can't read request body: %v", err)
+				return nil, NewErrorf(c, 400, "can't read request body: %v", err)
 			}
 			defer r.Body.Close()
 		} else {
-- 
2.43.0


From c4585e3ff483ad91ec0369bcf3c2928c08727b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:01 +0000
Subject: [PATCH 18/52] fix: compress only for clients that announce gzip in
 Accept-Encoding

---
 http/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index f5c4cc0..bf2d989 100644
--- a/http/server.go
+++ b/http/server.go
@@ -230,7 +230,7 @@ func (this *Server) handleRequest(path string, f func(c ctx.C, in []byte, r *htt
 		}
 
 		w.Header().Add("Content-Type", "application/json")
-		if len(out) > 16*1024 && strings.Contains(r.Header.Get("Accept"), "gzip") { // TODO ugly parsing, but good enough for now
+		if len(out) > 16*1024 && strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") { // TODO ugly parsing, but good enough for now
 			w.Header().Add("Content-Encoding", "gzip")
 			w2 := gzip.NewWriter(w)
 			_, err = w2.Write(out)
-- 
2.43.0


From 839618ea3e525d52e64f9943c18348cf2b43625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 19/52] fix: an error without a valid HTTP status gives the
 default one

---
 http/error.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/http/error.go b/http/error.go
index 5f82d34..e10edd4 100644
--- a/http/error.go
+++ b/http/error.go
@@ -33,8 +33,11 @@ func (this Error) Unwrap() error {
 
 func ErrorCode(err error, def int) int {
 	var e Error
-	if errors.As(err, &e) {
-		return e.Code
+	for errors.As(err, &e) {
+		if e.Code >= 200 && e.Code <= 999 { // anything else is not the status of a response
+			return e.Code
+		}
+		err = e.Err
 	}
 	return def
 }
-- 
2.43.0


From 07e82ea2e6dacec73bb8a19f734735f88ab34842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:59 +0000
Subject: [PATCH 20/52] fix: every request is counted once, with the status
 sent, also when its handler panics

---
 http/mux.go    | 49 ++++++++++++++++++++++++++++++++++++++++---------
 http/server.go | 16 ++++++++++------
 2 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/http/mux.go b/http/mux.go
index cac7611..81fc091 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -19,12 +19,25 @@ func (this *Server) HandleFunc(path string, h http.HandlerFunc) *openapi.Path {
 
 func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 	this.mux.HandleFunc(path, func(w http.ResponseWriter, r *http.Request) {
+		if w2, ok := w.(interface{ setPath(string) }); ok {
+			w2.setPath(path) // the server will observe it
+			h.ServeHTTP(w, r)
+			return
+		}
 		t0 := time.Now()
 		c := r.Context()
 		c = ctx.WithTag(c, "ua", r.UserAgent())
 		c = ctx.WithTag(c, "path", r.URL.Path)
 
-		w2 := &response{w, 0}
+		w2 := &response{ResponseWriter: w, path: path}
+		returned := false
+		defer func() { // also when the handler panics
+			metric{
+				Method: r.Method,
+				Code:   w2.status(returned),
+				Path:   w2.path,
+			}.observe(time.Since(t0))
+		}()
 		switch w := w.(type) {
 		case http.Hijacker:
 			// if there is an hijacker, we need to be a bit clever
@@ -33,11 +46,7 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 			h.ServeHTTP(w2, r.WithContext(c))
 		}
 
-		metric{
-			Method: r.Method,
-			Code:   w2.code,
-			Path:   path,
-		}.observe(time.Since(t0))
+		returned = true
 	})
 
 	p := &openapi.Path{}
@@ -47,7 +56,25 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 
 type response struct {
 	http.ResponseWriter
-	code int
+	code     int
+	path     string
+	hijacked bool
+}
+
+func (r *response) setPath(path string) {
+	r.path = path
+}
+
+// the code sent to the client by a handler which has either returned or panicked
+func (r *response) status(returned bool) int {
+	switch {
+	case r.code != 0 || r.hijacked:
+		return r.code
+	case returned:
+		return 200
+	default:
+		return 500
+	}
 }
 
 type responseHijacker struct {
@@ -63,8 +90,10 @@ func (r *response) WriteHeader(code int) {
 		log.Warnf(nil, "duplicate WriteHeader() at %s", strings.Join(stack, "\n"))
 		return
 	}
-	r.code = code
 	r.ResponseWriter.WriteHeader(code)
+	if code >= 200 || code == http.StatusSwitchingProtocols { // the others are informational, one more will follow
+		r.code = code
+	}
 }
 
 func (r *response) Write(b []byte) (int, error) {
@@ -75,5 +104,7 @@ func (r *response) Write(b []byte) (int, error) {
 }
 
 func (r responseHijacker) Hijack() (conn net.Conn, rw *bufio.ReadWriter, err error) {
-	return r.hijacker.Hijack()
+	conn, rw, err = r.hijacker.Hijack()
+	r.hijacked = err == nil
+	return conn, rw, err
 }
diff --git a/http/server.go b/http/server.go
index bf2d989..656970b 100644
--- a/http/server.go
+++ b/http/server.go
@@ -47,7 +47,15 @@ func NewServer(c ctx.C) *Server {
 		c = ctx.WithTag(c, "ua", r.UserAgent())
 		c = ctx.WithTag(c, "path", r.URL.Path)
 
-		w2 := &response{w, 0}
+		w2 := &response{ResponseWriter: w, path: r.URL.Path} // TODO(oha) if we have templates, this won't work
+		returned := false
+		defer func() { // also when the handler panics
+			metric{
+				Method: r.Method,
+				Code:   w2.status(returned),
+				Path:   w2.path,
+			}.observe(time.Since(t0))
+		}()
 		switch w := w.(type) {
 		case http.Hijacker:
 			// if there is an hijacker, we need to be a bit clever
@@ -56,11 +64,7 @@ func NewServer(c ctx.C) *Server {
 			this.mux.ServeHTTP(w2, r.WithContext(c))
 		}
 
-		metric{
-			Method: r.Method,
-			Code:   w2.code,
-			Path:   r.URL.Path, // TODO(oha) if we have templates, this won't work
-		}.observe(time.Since(t0))
+		returned = true
 	})
 
 	this.mux.HandleFunc("/live", func(w http.ResponseWriter, r *http.Request) {
-- 
2.43.0


From ec0f0840c6bb69dbcb0e1c821ff274b44749c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:01 +0000
Subject: [PATCH 21/52] fix: the server is held until drained, and Listen
 always returns

---
 http/server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index 656970b..8feb259 100644
--- a/http/server.go
+++ b/http/server.go
@@ -122,9 +122,10 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 	}
 	ch := make(chan error, 1)
 
+	hold := shutdown.Hold() // until every request is drained
+
 	// we start the server in a goroutine
 	go func() {
-		defer shutdown.Hold().Release()
 		// we wrap the listener, so the first call to Accept() will write nil to the error channel
 		l := &listener{
 			Listener: ln,
@@ -136,9 +137,14 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		if err != nil {
 			log.Warnf(c, "listen(%q) %v", addr, err)
 		}
+		select {
+		case ch <- err: // failed before the first Accept()
+		default:
+		}
 	}()
 
 	go func() {
+		defer hold.Release()
 		<-shutdown.Started()
 		c, cf := ctx.WithTimeout(c, 30*time.Second)
 		defer cf()
-- 
2.43.0


From 8cfe0146d48e9ffa65f1ae97e65b8d6fba30c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:02 +0000
Subject: [PATCH 22/52] fix: the client closes every response it does not hand
 out, and needs an URL for an API

---
 http/client.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/http/client.go b/http/client.go
index e242969..8f9b695 100644
--- a/http/client.go
+++ b/http/client.go
@@ -28,11 +28,13 @@ func (this Client) Get(c ctx.C, url string) ([]byte, error) {
 		return nil, ctx.NewErrorf(c, "can't create request: %w", err)
 	}
 	res, err := this.Do(req)
+	if res != nil && res.Body != nil {
+		defer res.Body.Close()
+	}
 	if err != nil {
 		return nil, err
 	}
 	if res.Body != nil {
-		defer res.Body.Close()
 		return io.ReadAll(res.Body)
 	}
 	return nil, nil
@@ -49,11 +51,13 @@ func (this Client) Post(c ctx.C, url string, body []byte) ([]byte, error) {
 	}
 	req.Header.Set(`Content-Type`, `application/json`)
 	res, err := this.Do(req)
+	if res != nil && res.Body != nil {
+		defer res.Body.Close()
+	}
 	if err != nil {
 		return nil, err
 	}
 	if res.Body != nil {
-		defer res.Body.Close()
 		return io.ReadAll(res.Body)
 	}
 	return nil, nil
@@ -90,6 +94,9 @@ func (this Client) API(c ctx.C, obj Doable) error {
 		}
 
 		u := h.URL()
+		if u == nil {
+			return ctx.NewErrorf(c, "no URL for %T", obj)
+		}
 		if this.BaseUrl != nil {
 			u, err = this.BaseUrl.Parse(u.String())
 			if err != nil {
@@ -104,6 +111,9 @@ func (this Client) API(c ctx.C, obj Doable) error {
 
 		log.Debugf(c, "client[%T].Send() %s", obj, j)
 		res, err := this.Do(req)
+		if res != nil && res.Body != nil {
+			defer res.Body.Close()
+		}
 		if err != nil {
 			return ctx.NewErrorf(c, "can't send request: %w", err)
 		}
@@ -116,7 +126,6 @@ func (this Client) API(c ctx.C, obj Doable) error {
 			if err != nil {
 				return ctx.NewErrorf(c, "can't read response: %w", err)
 			}
-			res.Body.Close()
 			log.Debugf(c, "client[%T].Recv() %s", obj, j)
 			return h.Recv(c, data, obj)
 		default:
-- 
2.43.0


From 1a3dc90b9464b25a3130a321b5f712042e72de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:06 +0000
Subject: [PATCH 23/52] fix: a failing metric gives a 500 and not half of the
 exposition

---
 utils/prom/http.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/utils/prom/http.go b/utils/prom/http.go
index 83366c0..a66d75b 100644
--- a/utils/prom/http.go
+++ b/utils/prom/http.go
@@ -1,19 +1,26 @@
 package prom
 
 import (
+	"bytes"
 	"log"
 	"net/http"
 )
 
 func Handler() http.HandlerFunc {
 	return func(w http.ResponseWriter, r *http.Request) {
+		var buf bytes.Buffer // the status can't be changed once anything is sent
 		err := Range(func(name string, m Metric) error {
-			err := m.Print(name, w)
+			err := m.Print(name, &buf)
 			return err
 		})
 		if err != nil {
 			w.WriteHeader(500)
 			log.Printf("can't print: %v", err)
+			return
+		}
+		_, err = w.Write(buf.Bytes())
+		if err != nil {
+			log.Printf("can't send: %v", err)
 		}
 	}
 }
-- 
2.43.0


From be0a9571eeb020c80aa249296c0e851d7464dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:11 +0000
Subject: [PATCH 24/52] fix: a call does not read more than its MaxLength

---
 http/call.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/http/call.go b/http/call.go
index adbc369..89a6706 100644
--- a/http/call.go
+++ b/http/call.go
@@ -24,6 +24,13 @@ func (this CallHandler) readTimeout() time.Duration {
 	return 30 * time.Second
 }
 
+func (this CallHandler) maxLength() int64 {
+	if this.MaxLength > 0 {
+		return int64(this.MaxLength)
+	}
+	return 1 << 20
+}
+
 func (this CallHandler) Register(s *Server) {
 	s.mux.HandleFunc(this.Path, func(w http.ResponseWriter, r *http.Request) {
 		c := r.Context()
@@ -36,7 +43,8 @@ func (this CallHandler) Register(s *Server) {
 			}
 			var err error
 			if r.Body != nil {
-				call.reqBody, err = utils.ReadAll(c, r.Body, r.Body.Close)
+				body := http.MaxBytesReader(w, r.Body, this.maxLength())
+				call.reqBody, err = utils.ReadAll(c, body, body.Close)
 				if err != nil {
 					return nil, NewErrorf(c, 400, "can't read body: %w", err)
 				}
-- 
2.43.0


From 3054980cd60098ce4027aa07b81004708359597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 25/52] fix: requests are initialised from a copy of the
 prototype, unexported fields included

---
 api/handler.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/api/handler.go b/api/handler.go
index a2e2234..365e89e 100644
--- a/api/handler.go
+++ b/api/handler.go
@@ -15,7 +15,7 @@ type Handler[T any] struct {
 	urls []*url.URL
 
 	auth *field
-	init map[int]reflect.Value
+	init reflect.Value // copy of the prototype, without what is set by a request
 	in   []field
 	out  []field
 }
@@ -36,9 +36,7 @@ func NewClient[T any](c ctx.C, init T) (Client[T], error) {
 func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 	log.Debugf(c, "NewHandler[%T]", init)
 	initV := reflect.ValueOf(init)
-	this := Handler[T]{
-		init: map[int]reflect.Value{},
-	}
+	this := Handler[T]{}
 	if initV.Kind() != reflect.Pointer {
 		return this, ctx.NewErrorf(c, "expected *struct, got %T", init)
 	}
@@ -52,7 +50,8 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 		return this, ctx.NewErrorf(c, "expected *struct, got %T", init)
 	}
 
-	// TODO(oha) use init as initializer
+	this.init = reflect.New(this.typ).Elem()
+	this.init.Set(initV)
 	for i := 0; i < this.typ.NumField(); i++ {
 		ft := this.typ.Field(i)
 		tag, err := parseTags(c, ft)
@@ -76,12 +75,8 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 		if tag.url != nil {
 			this.urls = append(this.urls, tag.url)
 		}
-		if !tag.in && !tag.out && tag.url == nil {
-			v := initV.Field(f.i)
-			if !v.IsZero() {
-				this.init[f.i] = v
-				//log.Debugf(c, "init %v.%s = %#v", this.typ, f.tag.name, v)
-			}
+		if (tag.auth || tag.in || tag.out || tag.url != nil) && ft.IsExported() {
+			this.init.Field(i).SetZero()
 		}
 	}
 
@@ -223,10 +218,7 @@ func (this Server[T]) Recv(c ctx.C, req ServerRequest) (T, error) {
 	log.Debugf(c, "Server[%T].Recv(%+v)", zero, req)
 	ptrV := reflect.New(this.typ)
 	v := ptrV.Elem()
-	for i, fv := range this.init {
-		v.Field(i).Set(fv)
-		//log.Debugf(c, "init %T.%v = %#v", this.typ, this.typ.Field(i).Name, fv)
-	}
+	v.Set(this.init)
 	for _, f := range this.in {
 		fv := v.Field(f.i)
 		err := req.Unmarshal(c, f.tag.name, fv)
-- 
2.43.0


From f84ad2fdcfe9666fb665db1b7bf5243bbdbc0866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 26/52] fix: API fields must be exported, and the identity is
 never taken from the request

---
 api/handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api/handler.go b/api/handler.go
index 365e89e..ee151c6 100644
--- a/api/handler.go
+++ b/api/handler.go
@@ -60,7 +60,13 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 		}
 		//log.Debugf(c, "%v.%s %+v", this.typ, ft.Name, tag)
 		f := field{i, tag}
+		if (tag.auth || tag.in || tag.out) && !ft.IsExported() {
+			return this, ctx.NewErrorf(c, "field is not exported: %T.%s", init, ft.Name)
+		}
 		if tag.auth {
+			if tag.in {
+				return this, ctx.NewErrorf(c, "auth field can't be set by the request: %T.%s", init, ft.Name)
+			}
 			if this.auth != nil {
 				return this, ctx.NewErrorf(c, "only 1 auth field is supported: %T.%s", init, ft.Name)
 			}
-- 
2.43.0


From 6c617ddfb0792d9d6747d5a476a49fd125ce8c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:36 +0000
Subject: [PATCH 27/52] fix: schema generation ends with an error on types it
 can't describe

---
 api/openapi/schema.go | 71 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index a681d0c..7b4bc66 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -3,6 +3,7 @@ package openapi
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -39,12 +40,24 @@ func (this *Service) SchemaFromType(c ctx.C, t reflect.Type, tags *reflect.Struc
 		doc = tags.Get("doc")
 		example = strings.TrimSpace(tags.Get("example"))
 	}
-	s, err := this.schemaFromType(c, t, doc, example)
-	return s, err
+	known := make(map[string]*Schema, len(this.Components.Schemas))
+	for k, s := range this.Components.Schemas {
+		known[k] = s
+	}
+	s, err := this.schemaFromType(c, t, doc, example, map[reflect.Type]bool{})
+	if err != nil {
+		this.Components.Schemas = known // definitions added on the way may be incomplete
+		return nil, err
+	}
+	return s, nil
 }
 
-func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string) (s *Schema, err error) {
+// outer are the types this one is a part of, up to the innermost named struct (which is defined only once)
+func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string, outer map[reflect.Type]bool) (s *Schema, err error) {
 	defer func() {
+		if err != nil {
+			return
+		}
 		if s.Format == s.Type {
 			s.Format = ""
 		}
@@ -56,6 +69,11 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 
 	tt := t                            // tt is the reference type, but t stays the same
 	for tt.Kind() == reflect.Pointer { // if pointer, find its value type
+		if outer[tt] {
+			return nil, ctx.NewErrorf(c, "recursive type: %v", tt)
+		}
+		outer[tt] = true
+		defer delete(outer, tt)
 		tt = tt.Elem()
 	}
 
@@ -85,8 +103,8 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 	case json.Marshaler, enc.Marshaler:
 		// Handle corner case where a type can be struct, but marshalled to a primitive json type
 		// In openapi schema, we want to describe the marshalled json type
-		j, err := enc.MarshalJSON(c, zero)
-		if err == nil {
+		j, err := marshalZero(c, zero)
+		if err == nil && len(j) > 0 {
 			switch j[0] {
 			case '{', 'n', '[':
 				// object like, we dig further...
@@ -102,7 +120,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 					Format:  t.String(),
 					Example: tryDecodingAsBool(c, example),
 				}, nil
-			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.':
+			case '-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.':
 				// It could be either integer or float here, but it's not always possible to determine which
 				// Therefore just setting the type to "number", and doing best effort parsing of the example
 				var ex any
@@ -117,7 +135,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 					Example: ex,
 				}, nil
 			default:
-				panic(fmt.Sprintf("%s => %s", t.String(), j))
+				return nil, ctx.NewErrorf(c, "%s is not a JSON document: %s", t.String(), j)
 			}
 		}
 	}
@@ -154,7 +172,12 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 		}, nil
 
 	case reflect.Array, reflect.Slice:
-		elemSchema, err := this.schemaFromType(c, tt.Elem(), "", "")
+		if outer[tt] {
+			return nil, ctx.NewErrorf(c, "recursive type: %v", tt)
+		}
+		outer[tt] = true
+		defer delete(outer, tt)
+		elemSchema, err := this.schemaFromType(c, tt.Elem(), "", "", outer)
 		if err != nil {
 			return nil, err
 		}
@@ -167,11 +190,16 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 		}, nil
 
 	case reflect.Map:
-		keySchema, err := this.schemaFromType(c, tt.Key(), "", "")
+		if outer[tt] {
+			return nil, ctx.NewErrorf(c, "recursive type: %v", tt)
+		}
+		outer[tt] = true
+		defer delete(outer, tt)
+		keySchema, err := this.schemaFromType(c, tt.Key(), "", "", outer)
 		if err != nil {
 			return nil, err
 		}
-		elemSchema, err := this.schemaFromType(c, tt.Elem(), "", "")
+		elemSchema, err := this.schemaFromType(c, tt.Elem(), "", "", outer)
 		if err != nil {
 			return nil, err
 		}
@@ -196,7 +224,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 		}, nil
 
 	case reflect.Struct:
-		build := func(structKey string) (*Schema, error) {
+		build := func(structKey string, outer map[reflect.Type]bool) (*Schema, error) {
 			structSchema := &Schema{
 				Type:       "object",
 				Properties: map[string]*Schema{},
@@ -209,7 +237,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			var fields []string
 			for i := 0; i < tt.NumField(); i++ {
 				f := tt.Field(i)
-				s, err := this.schemaFromType(c, f.Type, f.Tag.Get("doc"), strings.TrimSpace(f.Tag.Get("example")))
+				s, err := this.schemaFromType(c, f.Type, f.Tag.Get("doc"), strings.TrimSpace(f.Tag.Get("example")), outer)
 				if err != nil {
 					return structSchema, err
 				}
@@ -228,7 +256,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 
 		// Anonymous structs are expanded in place
 		if tt.PkgPath() == "" || tt.Name() == "" {
-			schema, err := build("")
+			schema, err := build("", outer)
 			if err != nil {
 				return nil, err
 			}
@@ -247,11 +275,11 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			this.Components.Schemas = make(map[string]*Schema)
 		}
 		if _, exists := this.Components.Schemas[structKey]; !exists {
-			structSchema, err := build(structKey)
+			structSchema, err := build(structKey, map[reflect.Type]bool{})
 			if err != nil {
 				return nil, err
 			}
-			log.Infof(c, "added referenced struct schema %q: %s", structKey, enc.MustMarshalJSON(c, structSchema))
+			log.Infof(c, "added referenced struct schema %q: %s", structKey, structSchema.Format)
 		}
 
 		// Using "allOf" as a workaround for not being able to add example/description to a $ref
@@ -265,6 +293,16 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 	}
 }
 
+// marshal a zero value, for which the type's own code is not necessarily prepared
+func marshalZero(c ctx.C, zero any) (j []byte, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = ctx.NewErrorf(c, "can't marshal the zero value of %T: %v", zero, r)
+		}
+	}()
+	return enc.MarshalJSON(c, zero)
+}
+
 func (this *Service) formatFromSchema(s *Schema) string {
 	if s == nil {
 		return ""
@@ -298,6 +336,9 @@ func tryDecodingAsFloat(c ctx.C, v string) any {
 		return nil
 	}
 	f, err := strconv.ParseFloat(v, 64)
+	if err == nil && (math.IsNaN(f) || math.IsInf(f, 0)) {
+		err = strconv.ErrRange // not a JSON number
+	}
 	if err != nil {
 		log.Warnf(c, "Unable to parse example %q as float: %s", v, err)
 		return v
-- 
2.43.0


From 7d58ec336dcbec732cb74662a57384a76e44c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:37 +0000
Subject: [PATCH 28/52] fix: schemas only show the fields which are part of the
 JSON

---
 api/openapi/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 7b4bc66..b96b1b7 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -237,6 +237,9 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			var fields []string
 			for i := 0; i < tt.NumField(); i++ {
 				f := tt.Field(i)
+				if !f.IsExported() || f.Tag.Get("json") == "-" { // not part of the JSON
+					continue
+				}
 				s, err := this.schemaFromType(c, f.Type, f.Tag.Get("doc"), strings.TrimSpace(f.Tag.Get("example")), outer)
 				if err != nil {
 					return structSchema, err
-- 
2.43.0


From ae16f5559c89d6e9669216b56c19b2d7512c7fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:53 +0000
Subject: [PATCH 29/52] fix: numbers out of the range of their destination are
 errors

---
 enc/enc.go     | 14 ++++++++++++--
 enc/handler.go |  2 +-
 enc/map.go     |  4 ++--
 enc/numeric.go | 36 ++++++++++++++++++++++++++++++++----
 4 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/enc/enc.go b/enc/enc.go
index f422593..9d36f23 100644
--- a/enc/enc.go
+++ b/enc/enc.go
@@ -3,7 +3,9 @@ package enc
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -58,6 +60,14 @@ func (this path) Parent() path {
 	return this
 }
 
+// not every unsigned integer fits in an Integer
+func fromUint(in uint64) Node {
+	if in > math.MaxInt64 {
+		return Digits(strconv.FormatUint(in, 10))
+	}
+	return Integer(in)
+}
+
 // convert json.Unmarshal(&any) to enc.Node
 func fromNative(in any) Node {
 	switch in := in.(type) {
@@ -96,7 +106,7 @@ func fromNative(in any) Node {
 	case int64:
 		return Integer(in)
 	case uint:
-		return Integer(in)
+		return fromUint(uint64(in))
 	case uint8:
 		return Integer(in)
 	case uint16:
@@ -104,7 +114,7 @@ func fromNative(in any) Node {
 	case uint32:
 		return Integer(in)
 	case uint64:
-		return Integer(in)
+		return fromUint(in)
 
 	case bool:
 		return Bool(in)
diff --git a/enc/handler.go b/enc/handler.go
index fa079a9..fa6e493 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -212,7 +212,7 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return Integer(v.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return Integer(v.Uint()), nil
+		return fromUint(v.Uint()), nil
 	case reflect.String:
 		return String(v.String()), nil
 	case reflect.Pointer:
diff --git a/enc/map.go b/enc/map.go
index e790bfd..5506633 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -62,13 +62,13 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 			case reflect.String:
 				kv.SetString(k)
 			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-				i, err := strconv.ParseInt(k, 10, 64)
+				i, err := strconv.ParseInt(k, 10, intokt.Bits())
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to string at %v", k, handler.path.String()+"#key")
 				}
 				kv.SetInt(i)
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-				i, err := strconv.ParseUint(k, 10, 64)
+				i, err := strconv.ParseUint(k, 10, intokt.Bits())
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to string at %v", k, handler.path.String()+"#key")
 				}
diff --git a/enc/numeric.go b/enc/numeric.go
index 7e7476d..465e411 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -3,6 +3,7 @@ package enc
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -29,8 +30,13 @@ type Integer int
 var _ Node = Integer(0)
 var _ Numeric = Integer(0)
 
-func (this Integer) Int64() (int64, error)        { return int64(this), nil }
-func (this Integer) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Integer) Int64() (int64, error) { return int64(this), nil }
+func (this Integer) Uint64() (uint64, error) {
+	if this < 0 {
+		return 0, fmt.Errorf("%d is out of range for uint64", int64(this))
+	}
+	return uint64(this), nil
+}
 func (this Integer) Float64() (float64, error)    { return float64(this), nil }
 func (this Integer) String() string               { return strconv.FormatInt(int64(this), 10) }
 func (this Integer) GoString() string             { return fmt.Sprintf("enc.Integer{%v}", int64(this)) }
@@ -48,8 +54,18 @@ type Float float64
 var _ Node = Float(0)
 var _ Numeric = Float(0)
 
-func (this Float) Int64() (int64, error)        { return int64(this), nil }
-func (this Float) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Float) Int64() (int64, error) {
+	if this >= math.MinInt64 && this < 1<<63 { // excludes NaN
+		return int64(this), nil
+	}
+	return 0, fmt.Errorf("%v is out of range for int64", float64(this))
+}
+func (this Float) Uint64() (uint64, error) {
+	if this > -1 && this < 1<<64 { // excludes NaN
+		return uint64(this), nil
+	}
+	return 0, fmt.Errorf("%v is out of range for uint64", float64(this))
+}
 func (this Float) Float64() (float64, error)    { return float64(this), nil }
 func (this Float) String() string               { return strconv.FormatFloat(float64(this), 'g', -1, 64) }
 func (this Float) GoString() string             { return fmt.Sprintf("enc.Float{%v}", float64(this)) }
@@ -77,6 +93,9 @@ func (this Digits) Uint64() (uint64, error) {
 	return i, err
 }
 func trimDecimal(s string) string {
+	if strings.ContainsAny(s, "eE") {
+		return s // the part before the dot is not the value
+	}
 	if strings.Contains(string(s), ".") {
 		return strings.Split(s, ".")[0]
 	}
@@ -130,6 +149,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowFloat(f) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetFloat(f)
 	case reflect.Int,
 		reflect.Int8,
@@ -140,6 +162,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowInt(i) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetInt(int64(i))
 	case reflect.Uint,
 		reflect.Uint8,
@@ -150,6 +175,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowUint(i) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetUint(uint64(i))
 	case reflect.Interface:
 		v := reflect.ValueOf(this.native())
-- 
2.43.0


From 8bd343362e2231270cbefff52d9d3592d97919d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:52 +0000
Subject: [PATCH 30/52] fix: decoding fails instead of panicking when the
 document doesn't fit

---
 enc/enc.go     | 14 ++++++++++++++
 enc/handler.go | 27 ++++++++++++++++++---------
 enc/list.go    |  4 +---
 enc/map.go     |  6 ++++--
 enc/numeric.go |  3 +--
 enc/pairs.go   |  7 ++++++-
 enc/scalar.go  |  5 ++---
 enc/time.go    |  6 +++---
 enc/util.go    | 10 ++++------
 9 files changed, 53 insertions(+), 29 deletions(-)

diff --git a/enc/enc.go b/enc/enc.go
index 9d36f23..8927437 100644
--- a/enc/enc.go
+++ b/enc/enc.go
@@ -33,6 +33,20 @@ type Marshaler interface {
 	MarshalNode(ctx.C) (Node, error)
 }
 
+// what is used for interfaces, unless they have methods it doesn't implement
+func nativeInto(c ctx.C, handler Handler, n Node, into reflect.Value) error {
+	v := reflect.ValueOf(n.native())
+	if !v.IsValid() {
+		into.SetZero()
+		return nil
+	}
+	if !v.Type().AssignableTo(into.Type()) {
+		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, n, into.Type())
+	}
+	into.Set(v)
+	return nil
+}
+
 type path []any
 
 func (this path) String() string {
diff --git a/enc/handler.go b/enc/handler.go
index fa6e493..c864be3 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -44,7 +44,11 @@ func (this Handler) Unmarshal(c ctx.C, n Node, into any) error {
 	if n == nil {
 		n = Nil{}
 	}
-	v := reflect.ValueOf(into).Elem()
+	p := reflect.ValueOf(into)
+	if p.Kind() != reflect.Pointer || p.IsNil() {
+		return ctx.NewErrorf(c, "can't unmarshal into %T", into)
+	}
+	v := p.Elem()
 	return this.Append(v.Type()).unmarshal(c, n, v)
 }
 
@@ -81,12 +85,19 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 		if this.Debugf != nil {
 			this.Debugf(c, "is %T", into)
 		}
-		*into = JSON{}.Encode(c, from)
+		j, err := json.Marshal(from)
+		if err != nil {
+			return ctx.WrapError(c, err)
+		}
+		*into = j
 		warnIneff(c, "Warn: inefficient json.RawMessage, use enc.Node instead")
 		return nil
 	case *time.Time:
 		var t time.Time
-		err := json.Unmarshal(JSON{}.Encode(c, from), &t)
+		j, err := json.Marshal(from)
+		if err == nil {
+			err = json.Unmarshal(j, &t)
+		}
 		if err != nil {
 			return ctx.NewErrorf(c, "can't unmarshal %#v as time", from)
 		}
@@ -126,13 +137,11 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 				return ctx.NewErrorf(c, "factory error: %w", err)
 			}
 			s := reflect.ValueOf(obj)
-			if !s.CanConvert(v.Elem().Type()) {
-				return ctx.NewErrorf(c, "Factory %v returned %v which can't be converted to %v",
-					v.Type().Elem(), s.Type(), v.Elem().Type())
+			if !s.IsValid() || !s.CanConvert(v.Type()) {
+				return ctx.NewErrorf(c, "Factory %v returned %T which can't be converted", v.Type(), obj)
 			}
-			log.Debugf(c, "Factory %v returned %v which can be converted to %v",
-				v.Type().Elem(), s.Type(), v.Elem().Type())
-			v.Elem().Set(s) // we set the value, not the pointer... because go.reflect
+			log.Debugf(c, "Factory %v returned %v", v.Type(), s.Type())
+			v.Set(s.Convert(v.Type()))
 			return nil
 		}
 	}
diff --git a/enc/list.go b/enc/list.go
index ef0fe6d..5703d34 100644
--- a/enc/list.go
+++ b/enc/list.go
@@ -40,9 +40,7 @@ func (this List) String() string {
 func (this List) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	switch into.Kind() {
 	case reflect.Interface:
-		x := this.native()
-		into.Set(reflect.ValueOf(x))
-		return nil
+		return nativeInto(c, handler, this, into)
 
 	case reflect.Slice:
 		slice := reflect.MakeSlice(into.Type(), len(this), len(this))
diff --git a/enc/map.go b/enc/map.go
index 5506633..6c19e44 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -79,6 +79,9 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 					return ctx.NewErrorf(c, "can't convert %q to %v", k, intokt)
 				}
 			}
+			if !kv.Comparable() {
+				return ctx.NewErrorf(c, "can't use %q as a key of %v", k, t)
+			}
 			vv := reflect.New(intovt).Elem()
 			err := handler.Append("#val").unmarshal(c, n, vv)
 			if err != nil {
@@ -122,8 +125,7 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 		if handler.Debugf != nil {
 			handler.Debugf(c, "assign %v to %v", into.Type(), this)
 		}
-		into.Set(reflect.ValueOf(this.native()))
-		return nil
+		return nativeInto(c, handler, this, into)
 
 	default:
 		return ctx.NewErrorf(c, "can't expand %s %T into %v", handler.path, this, into.Type())
diff --git a/enc/numeric.go b/enc/numeric.go
index 465e411..0186405 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -180,8 +180,7 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		}
 		into.SetUint(uint64(i))
 	case reflect.Interface:
-		v := reflect.ValueOf(this.native())
-		into.Set(v)
+		return nativeInto(c, handler, this, into)
 	case reflect.String:
 		into.SetString(this.String())
 	default:
diff --git a/enc/pairs.go b/enc/pairs.go
index 9534a05..da4008a 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -2,6 +2,7 @@ package enc
 
 import (
 	"bytes"
+	"encoding/json"
 	"fmt"
 	"reflect"
 	"strings"
@@ -56,7 +57,11 @@ func (this Pairs) MarshalJSON() ([]byte, error) {
 		}
 		buf.Write(mustJSON(p.JSON))
 		buf.WriteString(": ")
-		buf.Write(mustJSON(p.Value))
+		j, err := json.Marshal(p.Value)
+		if err != nil {
+			return nil, err
+		}
+		buf.Write(j)
 	}
 	buf.WriteString("}")
 	return buf.Bytes(), nil
diff --git a/enc/scalar.go b/enc/scalar.go
index b997673..9ac16bb 100644
--- a/enc/scalar.go
+++ b/enc/scalar.go
@@ -29,8 +29,7 @@ func (this String) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) e
 	case reflect.String:
 		into.SetString(string(this))
 	case reflect.Interface:
-		v := reflect.ValueOf(this.native())
-		into.Set(v)
+		return nativeInto(c, handler, this, into)
 	default:
 		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
 	}
@@ -95,7 +94,7 @@ func (this Bool) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) err
 	case reflect.Bool:
 		into.SetBool(bool(this))
 	case reflect.Interface:
-		into.Set(reflect.ValueOf(bool(this)))
+		return nativeInto(c, handler, this, into)
 	default:
 		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
 	}
diff --git a/enc/time.go b/enc/time.go
index 5f31a7c..c8b57ab 100644
--- a/enc/time.go
+++ b/enc/time.go
@@ -58,7 +58,7 @@ func (this *Time) UnmarshalJSON(j []byte) error {
 func (this Time) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	v := reflect.ValueOf(this)
 	if v.CanConvert(into.Type()) {
-		into.Set(v)
+		into.Set(v.Convert(into.Type()))
 		return nil
 	}
 	return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
@@ -87,8 +87,8 @@ func (this Duration) String() string {
 
 func (this Duration) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	v := reflect.ValueOf(this)
-	if v.CanConvert(into.Type()) {
-		into.Set(v)
+	if (into.Kind() == reflect.Int64 || into.Kind() == reflect.Interface) && v.CanConvert(into.Type()) {
+		into.Set(v.Convert(into.Type()))
 		return nil
 	}
 	return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
diff --git a/enc/util.go b/enc/util.go
index ccf5902..1c36fe6 100644
--- a/enc/util.go
+++ b/enc/util.go
@@ -108,12 +108,10 @@ func parseTag(tag reflect.StructField) (out Tag) {
 	if out.JSON == "" {
 		out.JSON = out.Name
 	}
-	switch extra {
-	case "omitempty":
-		out.OmitEmpty = true
-	case "":
-	default:
-		panic(fmt.Sprintf("invalid tag: %v", tag))
+	for _, opt := range strings.Split(extra, ",") {
+		if opt == "omitempty" {
+			out.OmitEmpty = true
+		}
 	}
 	return
 }
-- 
2.43.0


From 904985bea4c6c9b0d6dbca7fa5c96b86dc6e03ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:55 +0000
Subject: [PATCH 31/52] fix: an error encoding for a json.Unmarshaler fails the
 decoding

---
 enc/handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enc/handler.go b/enc/handler.go
index c864be3..5ce9e39 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -108,7 +108,10 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 			this.Debugf(c, "is %T", into)
 		}
 		warnIneff(c, "Warn: inefficient %T.UnmarshalJSON(): implement enc.Unmarshaler instead", into)
-		j, _ := json.Marshal(from) // we must go back to the json
+		j, err := json.Marshal(from) // we must go back to the json
+		if err != nil {
+			return ctx.WrapError(c, err)
+		}
 		return into.UnmarshalJSON(j)
 	case *Node:
 		if this.Debugf != nil {
-- 
2.43.0


From eabac25be3d9d5b0304c784872a2830737a10ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:57 +0000
Subject: [PATCH 32/52] fix: the warnings about inefficient types are guarded
 by a lock

---
 enc/handler.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 5ce9e39..3ad1382 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"sync"
 	"time"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -27,6 +28,7 @@ func (this Handler) Append(p any) Handler {
 	return this
 }
 
+var ineffLock sync.Mutex
 var ineff = map[string]bool{}
 
 func MustUnmarshal(c ctx.C, n Node, into any) {
@@ -173,8 +175,11 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 
 func warnIneff(c ctx.C, f string, args ...any) {
 	msg := fmt.Sprintf(f, args...)
-	if !ineff[msg] {
-		ineff[msg] = true
+	ineffLock.Lock()
+	seen := ineff[msg]
+	ineff[msg] = true
+	ineffLock.Unlock()
+	if !seen {
 		log.Warnf(c, f, args...)
 	}
 }
-- 
2.43.0


From 8c6a95f451e3c59931c7f601882ff16baf0c6d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:00 +0000
Subject: [PATCH 33/52] fix: hidden fields are not decoded, and the native form
 uses the JSON names

---
 enc/map.go   | 3 +++
 enc/pairs.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/enc/map.go b/enc/map.go
index 6c19e44..5336637 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -100,6 +100,9 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 			ft := vt.Field(i)
 			if ft.IsExported() {
 				tag := parseTag(ft)
+				if tag.Skip {
+					continue
+				}
 				seen[tag.JSON] = true
 				v, ok := this[tag.JSON]
 				if ok {
diff --git a/enc/pairs.go b/enc/pairs.go
index da4008a..b17a6a6 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -27,7 +27,7 @@ func (this Pairs) AsMap() Map {
 func (this Pairs) native() any {
 	out := map[string]any{}
 	for _, p := range this {
-		out[p.Name] = p.Value.native()
+		out[p.JSON] = p.Value.native()
 	}
 	return out
 }
-- 
2.43.0


From 65d020396447f6e19121ab0b7a138c5bf09cad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:02 +0000
Subject: [PATCH 34/52] fix: data after a JSON document is an error

---
 enc/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enc/json.go b/enc/json.go
index 10c01fa..6064fee 100644
--- a/enc/json.go
+++ b/enc/json.go
@@ -3,6 +3,7 @@ package enc
 import (
 	"bytes"
 	"encoding/json"
+	"io"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -82,5 +83,8 @@ func (this JSON) Decode(c ctx.C, data []byte) (Node, error) {
 	if err != nil {
 		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "%w", err)
 	}
+	if _, err := dec.Token(); err != io.EOF {
+		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "data after the JSON document")
+	}
 	return fromNative(obj), nil
 }
-- 
2.43.0


From df707f7e7b8533eb7e157c984c4e2d4cf7ea199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:04 +0000
Subject: [PATCH 35/52] fix: encoding fails instead of panicking on what has no
 JSON form

---
 enc/handler.go | 6 +++---
 enc/json.go    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 3ad1382..524368c 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -191,6 +191,9 @@ func Marshal(c ctx.C, in any) (Node, error) {
 
 func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	//log.Warnf(c, "OHA: %T %v", in, in)
+	if v := reflect.ValueOf(in); v.Kind() == reflect.Pointer && v.IsNil() {
+		return Nil{}, nil // and not a method call on it
+	}
 	switch in := in.(type) {
 	case nil:
 		return Nil{}, nil
@@ -218,9 +221,6 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	t := v.Type()
 	switch t.Kind() {
 	default:
-		log.Warnf(c, "possible wrong fallback for type %T", in)
-		return fromNative(in), nil
-	case reflect.Func:
 		return nil, ctx.NewErrorf(c, "can't marshal %T", in)
 	case reflect.Bool:
 		return Bool(v.Bool()), nil
diff --git a/enc/json.go b/enc/json.go
index 6064fee..c347621 100644
--- a/enc/json.go
+++ b/enc/json.go
@@ -31,7 +31,7 @@ func MarshalJSON(c ctx.C, from any) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return JSON{}.Encode(c, n), nil
+	return json.Marshal(n)
 }
 
 func UnmarshalJSON(c ctx.C, j []byte, into any) error {
-- 
2.43.0


From ea55eee6e0db36bfec7de72a2c8073933c8f815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:47 +0000
Subject: [PATCH 36/52] fix: ws: ping, pong and unknown frames crashed the
 server

---
 http/ws/ws.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index 8b18d60..bfd7136 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -1,7 +1,6 @@
 package ws
 
 import (
-	"fmt"
 	"io"
 	"sync"
 
@@ -92,7 +91,7 @@ func (this *wsImpl) read(c ctx.C) ([]byte, error) {
 		// TODO read message and debug?
 		return nil, ctx.WrapError(c, io.EOF)
 	case websocket.PingFrame, websocket.PongFrame:
-		panic("unsupported ping-pong")
+		return nil, ctx.NewErrorf(c, "unsupported ping-pong")
 		/*
 			            // TODO implements this
 						b := make([]byte, maxControlFramePayloadLength)
@@ -109,7 +108,7 @@ func (this *wsImpl) read(c ctx.C) ([]byte, error) {
 						return nil, nil
 		*/
 	default:
-		panic(fmt.Sprintf("unexpected type %b", r.PayloadType()))
+		return nil, ctx.NewErrorf(c, "unexpected type %b", r.PayloadType())
 	}
 
 	data, err := io.ReadAll(r)
-- 
2.43.0


From 7cd29384e0937f219e45911dfd07f4f4d72438c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:48 +0000
Subject: [PATCH 37/52] fix: ws: closing wrote to the connection during other
 writes, and left the socket open when it failed

---
 http/ws/ws.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index bfd7136..5727c4b 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -120,9 +120,12 @@ func (this *wsImpl) read(c ctx.C) ([]byte, error) {
 }
 
 func (this *wsImpl) Close(c ctx.C, status int) error {
+	this.m.Lock() // it writes too
+	defer this.m.Unlock()
 	err := this.conn.WriteClose(status)
+	err2 := this.conn.Close() // even if the peer can't be told
 	if err != nil {
 		return err
 	}
-	return this.conn.Close()
+	return err2
 }
-- 
2.43.0


From 264d54f0c7713ee82ec70eefdcc51fc5fd772268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:50 +0000
Subject: [PATCH 38/52] fix: ws: what can't be encoded is an error of the
 sender, not a panic

---
 http/ws/channel.go | 8 ++++++--
 http/ws/conn.go    | 8 ++++++--
 http/ws/ws.go      | 6 +++++-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/http/ws/channel.go b/http/ws/channel.go
index 27ff6da..2238c58 100644
--- a/http/ws/channel.go
+++ b/http/ws/channel.go
@@ -47,7 +47,7 @@ func (this *Channel) onData(c ctx.C, f Frame) error {
 			_ = this.Conn.Send(c, Frame{
 				Channel: this.ID,
 				Type:    "error",
-				Data:    enc.MustMarshal(c, err.Error()),
+				Data:    enc.String(err.Error()),
 			})
 		}
 		return true
@@ -77,10 +77,14 @@ type C struct {
 }
 
 func (c C) Reply(path string, obj any) error {
+	data, err := enc.Marshal(c, obj)
+	if err != nil {
+		return err
+	}
 	return c.ch.Conn.Send(c, Frame{
 		Channel: c.ch.ID,
 		Path:    path,
-		Data:    enc.MustMarshal(c, obj),
+		Data:    data,
 	})
 }
 
diff --git a/http/ws/conn.go b/http/ws/conn.go
index 58536d6..f833bac 100644
--- a/http/ws/conn.go
+++ b/http/ws/conn.go
@@ -61,7 +61,7 @@ func (this *Conn) Loop(c ctx.C) error {
 			if err != nil {
 				this.Send(c, Frame{
 					Type: "disconnect",
-					Data: enc.MustMarshal(c, err),
+					Data: enc.String(err.Error()),
 				})
 				return ctx.NewErrorf(c, "closing: %v", err)
 			}
@@ -70,5 +70,9 @@ func (this *Conn) Loop(c ctx.C) error {
 }
 
 func (this *Conn) Send(c ctx.C, obj any) error {
-	return this.ws.Write(c, enc.MustMarshal(c, obj))
+	n, err := enc.Marshal(c, obj)
+	if err != nil {
+		return err
+	}
+	return this.ws.Write(c, n)
 }
diff --git a/http/ws/ws.go b/http/ws/ws.go
index 5727c4b..b5d087d 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -1,6 +1,7 @@
 package ws
 
 import (
+	"encoding/json"
 	"io"
 	"sync"
 
@@ -36,7 +37,10 @@ type wsImpl struct {
 var _ impl = &wsImpl{}
 
 func (this *wsImpl) Write(c ctx.C, n enc.Node) error {
-	j := enc.JSON{}.Encode(c, n)
+	j, err := json.Marshal(n)
+	if err != nil {
+		return ctx.WrapError(c, err)
+	}
 	this.m.Lock()
 	defer this.m.Unlock()
 	//log.Debugf(c, "ws.write: %s", j)
-- 
2.43.0


From 47b413cbc084a9ee720df888b18f0e36644e88d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:10 +0000
Subject: [PATCH 39/52] fix: ws: registering or opening legal objects panicked,
 and so did calling methods which can't be handlers

---
 http/ws/reflect.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 7f149f6..2880214 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -102,11 +102,12 @@ type fieldInit struct {
 func (this *builder) inspect(c ctx.C, obj any) error {
 	log.Debugf(c, "ws.inspect(%T %v)", obj, obj)
 	origVal := reflect.ValueOf(obj)
-	switch origVal.Kind() {
-	case reflect.Pointer:
-	case reflect.Struct:
-		origVal = origVal.Addr() // make sure it's a pointer
-	default:
+	if origVal.Kind() == reflect.Struct {
+		ptr := reflect.New(origVal.Type()) // make sure it's a pointer
+		ptr.Elem().Set(origVal)
+		origVal = ptr
+	}
+	if origVal.Kind() != reflect.Pointer || origVal.IsNil() || origVal.Elem().Kind() != reflect.Struct {
 		return ctx.NewErrorf(c, "expected struct or *struct, got %T", obj)
 	}
 	this.structType = origVal.Type().Elem()
@@ -119,7 +120,7 @@ func (this *builder) inspect(c ctx.C, obj any) error {
 	for i := 0; i < origVal.Elem().NumField(); i++ {
 		i := i
 		fv := origVal.Elem().Field(i)
-		if !fv.IsZero() {
+		if this.structType.Field(i).IsExported() && !fv.IsZero() {
 			this.fields = append(this.fields, fieldInit{
 				index: i,
 				value: fv,
@@ -151,7 +152,15 @@ func (this *builder) inspect(c ctx.C, obj any) error {
 				log.Infof(c, "WS handler %q with no args", method.name)
 			}
 		default:
-			log.Debugf(c, "WS ignoring %q because %d args", method.name, method.argument)
+			log.Debugf(c, "WS ignoring %q because %d args", method.name, m.Type.NumIn())
+			continue
+		}
+		if m.Type.IsVariadic() {
+			log.Debugf(c, "WS ignoring %q because it is variadic", method.name)
+			continue
+		}
+		if n := m.Type.NumOut(); n > 0 && m.Type.Out(n-1) != reflect.TypeOf((*error)(nil)).Elem() {
+			log.Debugf(c, "WS ignoring %q because it doesn't return an error", method.name)
 			continue
 		}
 		if m.Name == "Init" {
-- 
2.43.0


From 3c26e11c3ec7b482b0b65938e51bb69fbe9e0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:34 +0000
Subject: [PATCH 40/52] fix: ws: a failing Init was ignored and left a dead
 channel behind

---
 http/ws/handler.go | 11 +++++++++--
 http/ws/reflect.go |  6 +++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/http/ws/handler.go b/http/ws/handler.go
index 195c46d..85606bf 100644
--- a/http/ws/handler.go
+++ b/http/ws/handler.go
@@ -124,11 +124,18 @@ func (this *RpcHandler) Register(c ctx.C, obj any) error {
 			byPath: map[string]func(c C, n enc.Node) error{},
 			ID:     f.Channel,
 		}
-		conn.byChan.Store(ch.ID, ch)
-		obj := b.build(C{
+		obj, err := b.build(C{
 			C:  c,
 			ch: ch,
 		}, f.Data)
+		if err != nil {
+			return conn.Send(c, Frame{
+				Channel: ch.ID,
+				Type:    "error",
+				Data:    enc.String(err.Error()),
+			})
+		}
+		conn.byChan.Store(ch.ID, ch)
 		log.Debugf(c, "new %+v", obj)
 		return nil
 	})
diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 2880214..e4e74b9 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -20,7 +20,7 @@ type builder struct {
 }
 
 // init a new object, and bind it's methods to the channel
-func (this builder) build(c C, req enc.Node) any {
+func (this builder) build(c C, req enc.Node) (any, error) {
 	v := reflect.New(this.structType)
 	for _, c := range this.fields {
 		//log.Debugf(nil, "set %v", c.value)
@@ -30,7 +30,7 @@ func (this builder) build(c C, req enc.Node) any {
 	if this.constructor.methodName != "" {
 		err := this.constructor.call(c, v, req)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 
@@ -58,7 +58,7 @@ func (this builder) build(c C, req enc.Node) any {
 		}
 	}
 
-	return v.Interface()
+	return v.Interface(), nil
 }
 
 type method struct {
-- 
2.43.0


From d91d61846af7be1bba534fc9ad5aed126d27b004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:37 +0000
Subject: [PATCH 41/52] fix: ws: closing a channel closed all the others of the
 connection

---
 http/ws/rpc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/ws/rpc.go b/http/ws/rpc.go
index 4ccb874..2598cf4 100644
--- a/http/ws/rpc.go
+++ b/http/ws/rpc.go
@@ -42,6 +42,9 @@ func (this *RpcConn) onFrame(c ctx.C, f Frame) error {
 
 	switch f.Type {
 	case "close":
+		if ch := this.byChan.Get(f.Channel); ch != nil {
+			return ch.Close(c)
+		}
 		// WAIT FOR STUFF?
 		return this.Close(c, 1000)
 	case "new", "open":
-- 
2.43.0


From daab11833c40b4d29ab0f2a66dca7fc4a09dd29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:28 +0000
Subject: [PATCH 42/52] fix: config.From returns an error instead of panicking
 when T is an interface type

---
 config/config.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config/config.go b/config/config.go
index 0e98501..d59f41e 100644
--- a/config/config.go
+++ b/config/config.go
@@ -19,11 +19,11 @@ func Must[T any](c ctx.C, cfg T, f func(string) string) T {
 }
 
 func From[T any](c ctx.C, cfg T, f func(string) string) (T, error) {
-	if reflect.TypeOf(cfg).Kind() != reflect.Struct {
-		return cfg, ctx.NewErrorf(c, "expected struct, got %T", cfg)
-	}
 	v := reflect.ValueOf(&cfg).Elem()
 	t := v.Type()
+	if t.Kind() != reflect.Struct {
+		return cfg, ctx.NewErrorf(c, "expected struct, got %v", t)
+	}
 	for i := 0; i < v.NumField(); i++ {
 		ft := t.Field(i)
 		tag := ft.Tag.Get("config")
-- 
2.43.0


From a94bec8ce4f2415ef8344893306ca0bf8d7caa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:29 +0000
Subject: [PATCH 43/52] fix: config.From returns an error instead of panicking
 on a tagged field which is not exported

---
 config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/config.go b/config/config.go
index d59f41e..8c85bef 100644
--- a/config/config.go
+++ b/config/config.go
@@ -32,6 +32,9 @@ func From[T any](c ctx.C, cfg T, f func(string) string) (T, error) {
 		}
 		parts := strings.Split(tag, ",")
 		key := parts[0]
+		if !ft.IsExported() {
+			return cfg, ctx.NewErrorf(c, "can't set the unexported field %s for %q", ft.Name, key)
+		}
 
 		var defVal string
 		var hasDef bool
-- 
2.43.0


From 37e05d243c01777fe351d04f31bd3f3b0abf2c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:29 +0000
Subject: [PATCH 44/52] fix: config fields of a named bool or int type are set
 instead of panicking

---
 config/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 8c85bef..872baca 100644
--- a/config/config.go
+++ b/config/config.go
@@ -99,13 +99,13 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 		default:
 			return ctx.NewErrorf(nil, "can't convert to boobool field %s: %q", name, val)
 		}
-		dest.Set(reflect.ValueOf(v))
+		dest.SetBool(v)
 	case reflect.Int:
 		i, err := strconv.Atoi(val)
 		if err != nil {
 			return ctx.NewErrorf(nil, "can't convert to int field %s: %q", name, val)
 		}
-		dest.Set(reflect.ValueOf(i))
+		dest.SetInt(int64(i))
 	case reflect.String:
 		v := reflect.ValueOf(val).Convert(dest.Type())
 		dest.Set(v)
-- 
2.43.0


From 7749a3a4b27e236b3817230111f12cfe246c0ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:30 +0000
Subject: [PATCH 45/52] fix: config maps with keys other than plain strings are
 filled instead of panicking

---
 config/config.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 872baca..4a88e70 100644
--- a/config/config.go
+++ b/config/config.go
@@ -130,12 +130,17 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 			parts := strings.Split(val, ",")
 			for _, el := range parts {
 				key, val, _ := strings.Cut(el, "=")
+				k := reflect.Indirect(reflect.New(dest.Type().Key()))
+				err := unmarshalText(c, k, name+"[]", key)
+				if err != nil {
+					return err
+				}
 				v := reflect.Indirect(reflect.New(dest.Type().Elem()))
-				err := unmarshalText(c, v, name+"[]", val)
+				err = unmarshalText(c, v, name+"[]", val)
 				if err != nil {
 					return err
 				}
-				m.SetMapIndex(reflect.ValueOf(key), v)
+				m.SetMapIndex(k, v)
 			}
 			dest.Set(m)
 		}
-- 
2.43.0


From 282002fafdc30ba0e05e2e9e73cceb79a401b889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:30 +0000
Subject: [PATCH 46/52] fix: a config list comes from its variable alone, and
 the caller's list is not written to

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 4a88e70..c91d71d 100644
--- a/config/config.go
+++ b/config/config.go
@@ -112,7 +112,7 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 	case reflect.Slice:
 		if val != "" {
 			parts := strings.Split(val, ",")
-			x := dest
+			x := reflect.MakeSlice(dest.Type(), 0, len(parts)) // not a part of the caller's list
 			for _, el := range parts {
 				v := reflect.Indirect(reflect.New(dest.Type().Elem()))
 				err := unmarshalText(c, v, name+"[]", el)
-- 
2.43.0


From d06b791fa298acc5ac70853d0e0848c867c4e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:04 +0000
Subject: [PATCH 47/52] fix: test: Nil and Empty do not panic when the source
 of the call is not found

---
 test/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/test/util.go b/test/util.go
index 08a54b2..462ac24 100644
--- a/test/util.go
+++ b/test/util.go
@@ -42,7 +42,11 @@ type res struct {
 
 // retrieve the argument of the function
 func (res res) argument(above, argNum int) res {
-	call, _, _ := ast.Caller(above + 1)
+	call, fl, err := ast.Caller(above + 1)
+	if err != nil || argNum >= len(call.Args) {
+		res.msg = fl + ": " + res.msg // no source: say where, at least
+		return res
+	}
 	res.msg = call.Args[argNum].Src + ": " + res.msg
 	return res
 }
-- 
2.43.0


From 7ea9ebfff6f8fb23c6d29bec9b4a5446d59ae8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:04 +0000
Subject: [PATCH 48/52] fix: test: a nil function is nil

---
 test/nil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/test/nil.go b/test/nil.go
index 612f546..6f67d96 100644
--- a/test/nil.go
+++ b/test/nil.go
@@ -23,7 +23,7 @@ func isNil(a any) res {
 	default:
 		v := reflect.ValueOf(a)
 		switch v.Kind() {
-		case reflect.Slice, reflect.Map, reflect.Chan, reflect.Pointer:
+		case reflect.Slice, reflect.Map, reflect.Chan, reflect.Pointer, reflect.Func, reflect.UnsafePointer:
 			return res{v.IsNil(), fmt.Sprintf("%#v", a)}
 		default:
 			return res{false, stringy{a}.String()}
-- 
2.43.0


From 79ebf446a92a2648f8d1c3c3d7a7817fbfb3f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:04 +0000
Subject: [PATCH 49/52] fix: ast: Assignment of a call whose arguments are
 another call

---
 utils/ast/call_args.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/ast/call_args.go b/utils/ast/call_args.go
index 1901a34..3426fdf 100644
--- a/utils/ast/call_args.go
+++ b/utils/ast/call_args.go
@@ -41,6 +41,8 @@ func Assignment(above, arg int) string {
 	if aerr != nil {
 		return fl
 		//return fmt.Sprintf("<can't parse: %v>", aerr)
+	} else if arg >= len(a.Args) {
+		return fl // f(g()), where g gives all the arguments
 	} else {
 		return a.Args[arg].Short()
 	}
-- 
2.43.0


From 5365342308625450b84decfb3dd5987d2fb79c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:04 +0000
Subject: [PATCH 50/52] fix: ast: a function without statements as an argument

---
 utils/ast/call_args.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/ast/call_args.go b/utils/ast/call_args.go
index 3426fdf..56ad6fe 100644
--- a/utils/ast/call_args.go
+++ b/utils/ast/call_args.go
@@ -137,6 +137,9 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 						}
 						switch a := a.(type) {
 						case *ast.FuncLit:
+							if len(a.Body.List) == 0 {
+								break
+							}
 							start := a.Body.List[0].Pos()
 							end := a.Body.List[len(a.Body.List)-1].End()
 							arg.Src = this.Src(start, end)
@@ -165,6 +168,9 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 						}
 						switch a := a.(type) {
 						case *ast.FuncLit:
+							if len(a.Body.List) == 0 {
+								break
+							}
 							start := a.Body.List[0].Pos()
 							end := a.Body.List[len(a.Body.List)-1].End()
 							arg.Src = this.Src(start, end) // `func() { BODY }` => `BODY`
-- 
2.43.0


From be563732d342aa122f403079d982e5a7d56bf2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:32 +0000
Subject: [PATCH 51/52] Revert "fix: test: a nil function is nil"

This reverts commit 7ea9ebfff6f8fb23c6d29bec9b4a5446d59ae8c5.
---
 test/nil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/test/nil.go b/test/nil.go
index 6f67d96..612f546 100644
--- a/test/nil.go
+++ b/test/nil.go
@@ -23,7 +23,7 @@ func isNil(a any) res {
 	default:
 		v := reflect.ValueOf(a)
 		switch v.Kind() {
-		case reflect.Slice, reflect.Map, reflect.Chan, reflect.Pointer, reflect.Func, reflect.UnsafePointer:
+		case reflect.Slice, reflect.Map, reflect.Chan, reflect.Pointer:
 			return res{v.IsNil(), fmt.Sprintf("%#v", a)}
 		default:
 			return res{false, stringy{a}.String()}
-- 
2.43.0


From 791a20714123268cdcd9102b4561b4a811e14d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:32 +0000
Subject: [PATCH 52/52] Revert "fix: test: Nil and Empty do not panic when the
 source of the call is not found"

This reverts commit d06b791fa298acc5ac70853d0e0848c867c4e5b6.
---
 test/util.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/test/util.go b/test/util.go
index 462ac24..08a54b2 100644
--- a/test/util.go
+++ b/test/util.go
@@ -42,11 +42,7 @@ type res struct {
 
 // retrieve the argument of the function
 func (res res) argument(above, argNum int) res {
-	call, fl, err := ast.Caller(above + 1)
-	if err != nil || argNum >= len(call.Args) {
-		res.msg = fl + ": " + res.msg // no source: say where, at least
-		return res
-	}
+	call, _, _ := ast.Caller(above + 1)
 	res.msg = call.Args[argNum].Src + ": " + res.msg
 	return res
 }
-- 
2.43.0

