From 1abf4df8c0db81ce28740ff71fb7b41d246f6906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 01/13] fix: publish the empty map in Map.Clear atomically

Clear overwrote the atomic.Value with a plain assignment, which races with
the lock-free readers.
---
 xsync/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsync/map.go b/xsync/map.go
index eedd84f..08431af 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -417,7 +417,7 @@ func (m *Map) Delete(key interface{}) {
 // Clear clears all elements.
 func (m *Map) Clear() {
 	m.mu.Lock()
-	m.read = atomic.Value{}
+	m.read.Store(readOnly{})
 	m.dirty = nil
 	m.misses = 0
 	m.mu.Unlock()
-- 
2.43.0


From e2fb4bffe66fa586e3a59f89ace1b97fe0a72194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 02/13] fix: recompute in Map.ComputeIfPresent when the entry
 changed meanwhile

The value computed from an outdated entry overwrote concurrent updates.
---
 xsync/map.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index 08431af..d62c434 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -357,29 +357,22 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 }
 
 func (e *entry) tryComputeIfPresent(key interface{}, computeFunc func(key, value interface{}) interface{}) (actual interface{}, exist, ok bool) {
-	p := atomic.LoadPointer(&e.p)
-	if p == expunged {
-		return nil, false, false
-	}
-	if p == nil {
-		return nil, false, true
-	}
-	i := computeFunc(key, *(*interface{})(p))
-	ic := i
-
 	for {
-		if atomic.CompareAndSwapPointer(&e.p, p, unsafe.Pointer(&ic)) {
-			return i, true, true
-		}
-		p = atomic.LoadPointer(&e.p)
+		p := atomic.LoadPointer(&e.p)
 		if p == expunged {
 			return nil, false, false
 		}
 		if p == nil {
-			return nil, false, false
+			return nil, false, true
+		}
+		// The value must be computed again from the current one whenever the
+		// entry has changed in the meantime, otherwise that change would be lost.
+		i := computeFunc(key, *(*interface{})(p))
+		ic := i
+		if atomic.CompareAndSwapPointer(&e.p, p, unsafe.Pointer(&ic)) {
+			return i, true, true
 		}
 	}
-
 }
 
 // ---------------------------
-- 
2.43.0


From a0fa8068f7bbb9a4c3165d5c11293ba1f639e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 03/13] fix: release the map's lock when a compute function
 panics

---
 xsync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index d62c434..8f291b6 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -275,6 +275,7 @@ func (m *Map) ComputeIfAbsent(key interface{}, computeFunc func(key interface{})
 		}
 	}
 	m.mu.Lock()
+	defer m.mu.Unlock()
 	read, _ = m.read.Load().(readOnly)
 	if e, ok := read.m[key]; ok {
 		if e.unexpungeLocked() {
@@ -295,7 +296,6 @@ func (m *Map) ComputeIfAbsent(key interface{}, computeFunc func(key interface{})
 		m.dirty[key] = newEntry(value)
 		actual, loaded = value, false
 	}
-	m.mu.Unlock()
 	return actual, loaded
 }
 
@@ -340,6 +340,7 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 		}
 	}
 	m.mu.Lock()
+	defer m.mu.Unlock()
 	read, _ = m.read.Load().(readOnly)
 	if e, ok := read.m[key]; ok {
 		if e.unexpungeLocked() {
@@ -352,7 +353,6 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 	} else {
 		actual, exist = nil, false
 	}
-	m.mu.Unlock()
 	return actual, exist
 }
 
-- 
2.43.0


From 574182076f0473aac7b82593b3f5cd47a80d14ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 04/13] fix: keep ResourceManager consistent across remove,
 failed creation and close

A Get that joined a call already running could return a resource removed
before it began, or repeat a failure already reported; a Get overlapping
or following Close wrote to a nil map and leaked the new resource.
---
 xsync/resourcemanager.go | 82 ++++++++++++++++++++++++++++++----------
 1 file changed, 62 insertions(+), 20 deletions(-)

diff --git a/xsync/resourcemanager.go b/xsync/resourcemanager.go
index fecea48..22befdc 100644
--- a/xsync/resourcemanager.go
+++ b/xsync/resourcemanager.go
@@ -17,22 +17,31 @@
 package xsync
 
 import (
+	"errors"
 	"github.com/chenquan/go-pkg/xerror"
 	"golang.org/x/sync/singleflight"
 	"io"
 	"sync"
 )
 
+// errResourceManagerClosed is returned by Get once the manager is closed.
+var errResourceManagerClosed = errors.New("resource manager is closed")
+
+// resourceEntry identifies one creation of a resource.
+type resourceEntry struct {
+	resource io.Closer
+}
+
 // ResourceManager is a resource manager.
 type ResourceManager struct {
 	rw           sync.RWMutex
-	resources    map[string]io.Closer
+	resources    map[string]*resourceEntry
 	singleFlight singleflight.Group
 }
 
 // NewResourceManager returns a ResourceManager.
 func NewResourceManager() *ResourceManager {
-	return &ResourceManager{resources: map[string]io.Closer{}}
+	return &ResourceManager{resources: map[string]*resourceEntry{}}
 }
 
 // Close the manager.
@@ -41,8 +50,8 @@ func (m *ResourceManager) Close() error {
 	m.rw.Lock()
 
 	var be xerror.BatchError
-	for _, resource := range m.resources {
-		if err := resource.Close(); err != nil {
+	for _, entry := range m.resources {
+		if err := entry.resource.Close(); err != nil {
 			be.Add(err)
 		}
 	}
@@ -54,31 +63,64 @@ func (m *ResourceManager) Close() error {
 
 // Get returns the resource associated with given key.
 func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.Closer, error) {
-	val, err, _ := m.singleFlight.Do(key, func() (interface{}, error) {
-
-		m.rw.RLock()
-		resource, ok := m.resources[key]
-		m.rw.RUnlock()
-		if ok {
-			return resource, nil
-		}
-
-		resource, err := create()
+	for {
+		own := false
+		val, err, _ := m.singleFlight.Do(key, func() (interface{}, error) {
+			own = true
+			return m.getOrCreate(key, create)
+		})
 		if err != nil {
 			return nil, err
 		}
 
-		m.rw.Lock()
-		m.resources[key] = resource
-		m.rw.Unlock()
+		entry := val.(*resourceEntry)
+		// The result of a call made by another goroutine may have been removed before this
+		// call began.
+		if own || m.current(key, entry) {
+			return entry.resource, nil
+		}
+	}
+}
 
-		return resource, nil
-	})
+func (m *ResourceManager) getOrCreate(key string, create func() (io.Closer, error)) (*resourceEntry, error) {
+	m.rw.RLock()
+	entry, ok := m.resources[key]
+	closed := m.resources == nil
+	m.rw.RUnlock()
+	if ok {
+		return entry, nil
+	}
+	if closed {
+		return nil, errResourceManagerClosed
+	}
+
+	resource, err := create()
 	if err != nil {
+		// A call that begins from now on must not share this failure.
+		m.singleFlight.Forget(key)
 		return nil, err
 	}
 
-	return val.(io.Closer), nil
+	entry = &resourceEntry{resource: resource}
+	m.rw.Lock()
+	if closed = m.resources == nil; !closed {
+		m.resources[key] = entry
+	}
+	m.rw.Unlock()
+	if closed {
+		// Nobody would ever close the new resource.
+		_ = resource.Close()
+		return nil, errResourceManagerClosed
+	}
+
+	return entry, nil
+}
+
+// current reports whether entry is still the resource of the key.
+func (m *ResourceManager) current(key string, entry *resourceEntry) bool {
+	m.rw.RLock()
+	defer m.rw.RUnlock()
+	return m.resources[key] == entry
 }
 
 // Remove the resource associated with given key and return it if existed.
-- 
2.43.0


From 8e2ecda26dc237584f31f65eab2d3486dde96a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 05/13] fix: let xonce.Value refuse later writes of any type

A write of a value whose dynamic type differs from the stored one, or of
nil, panicked instead of reporting false (or storing).
---
 xonce/value.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xonce/value.go b/xonce/value.go
index d7357f1..2744656 100644
--- a/xonce/value.go
+++ b/xonce/value.go
@@ -25,6 +25,11 @@ type Value struct {
 	v atomic.Value
 }
 
+// holder gives every stored value, nil included, the same concrete type.
+type holder struct {
+	v interface{}
+}
+
 // NewValue returns a Value.
 func NewValue() *Value {
 	return &Value{}
@@ -32,10 +37,11 @@ func NewValue() *Value {
 
 // Write writes a v.
 func (val *Value) Write(v interface{}) (success bool) {
-	return val.v.CompareAndSwap(nil, v)
+	return val.v.CompareAndSwap(nil, holder{v: v})
 }
 
 // Value return a v.
 func (val *Value) Value() interface{} {
-	return val.v.Load()
+	h, _ := val.v.Load().(holder)
+	return h.v
 }
-- 
2.43.0


From 8422a40083add61444c8985e3530df932e774d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 06/13] fix: let barriers return once their context is done

A write or read already blocked on the channel stayed blocked forever after
the context was done, and a read of a closed channel reported success.
---
 xbarrier/readbarrier.go  | 8 +++++++-
 xbarrier/writebarrier.go | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/xbarrier/readbarrier.go b/xbarrier/readbarrier.go
index 3cbaa7c..7e16eca 100644
--- a/xbarrier/readbarrier.go
+++ b/xbarrier/readbarrier.go
@@ -41,6 +41,12 @@ func (r *ReadBarrier) Read() (val interface{}, success bool) {
 	case <-r.ctx.Done():
 		return nil, false
 	default:
-		return <-r.readChannel, true
+	}
+
+	select {
+	case <-r.ctx.Done():
+		return nil, false
+	case val, success = <-r.readChannel:
+		return
 	}
 }
diff --git a/xbarrier/writebarrier.go b/xbarrier/writebarrier.go
index d5f7d0d..911d9e7 100644
--- a/xbarrier/writebarrier.go
+++ b/xbarrier/writebarrier.go
@@ -46,7 +46,12 @@ func (w *WriteBarrier) Write(v interface{}) (success bool) {
 	case <-w.ctx.Done():
 		return
 	default:
-		w.writeChannel <- v
+	}
+
+	select {
+	case <-w.ctx.Done():
+		return
+	case w.writeChannel <- v:
 		return true
 	}
 }
-- 
2.43.0


From 336ecf78e0e828395ec04aed6dfbdbdc716ef15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 07/13] fix: stop a cancelled parallel map cleanly

The output was closed while map functions could still write to it, an item
taken after the context was done could be mapped, and the generator was
left blocked forever.
---
 xmapreduce/xmapreduce.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xmapreduce/xmapreduce.go b/xmapreduce/xmapreduce.go
index 7cf6d5d..82fe0a0 100644
--- a/xmapreduce/xmapreduce.go
+++ b/xmapreduce/xmapreduce.go
@@ -91,6 +91,8 @@ func doMap(ctx context.Context, mapFunc MapFunc, source <-chan interface{}, coll
 	waitGroup := sync.WaitGroup{}
 
 	defer func() {
+		// release the generator, nobody takes its items any more
+		go drain(source)
 		waitGroup.Wait()
 		close(collector)
 	}()
@@ -105,8 +107,13 @@ func doMap(ctx context.Context, mapFunc MapFunc, source <-chan interface{}, coll
 			if !ok {
 				return
 			}
+			if ctx.Err() != nil {
+				return
+			}
 			waitGroup.Add(1)
-			worker.Run(ctx, func() {
+			// not with ctx: a map function that is still running may write, so the collector
+			// must stay open until it returns.
+			worker.Run(context.Background(), func() {
 				mapFunc(item, writer)
 			}, func() {
 				waitGroup.Done()
@@ -114,3 +121,8 @@ func doMap(ctx context.Context, mapFunc MapFunc, source <-chan interface{}, coll
 		}
 	}
 }
+
+func drain(source <-chan interface{}) {
+	for range source {
+	}
+}
-- 
2.43.0


From e122281bcff90651324017a9006cbfa17baeb1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 08/13] fix: binary codec reads whole values from short reads
 and refuses byte strings the length prefix cannot hold

---
 xbinary/xbinary.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index 4d6b273..a673971 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"github.com/chenquan/go-pkg/xbytes"
 	"io"
+	"math"
 )
 
 var (
@@ -28,6 +29,15 @@ var (
 	ErrInvalidLength = errors.New("invalid length error")
 )
 
+// readFull fills data from r, however r fragments the bytes.
+func readFull(r io.Reader, data []byte) error {
+	_, err := io.ReadFull(r, data)
+	if err == io.ErrUnexpectedEOF {
+		return ErrInvalidLength
+	}
+	return err
+}
+
 // WriteUint16 writes unit16.
 func WriteUint16(w io.Writer, i uint16) error {
 	data := xbytes.MallocSize(2)
@@ -45,13 +55,9 @@ func ReadUint16(r io.Reader) (uint16, error) {
 	data := xbytes.MallocSize(2)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
-	if err != nil {
+	if err := readFull(r, data); err != nil {
 		return 0, err
 	}
-	if n < 2 {
-		return 0, ErrInvalidLength
-	}
 	return binary.BigEndian.Uint16(data), nil
 }
 
@@ -76,8 +82,7 @@ func ReadBool(r io.Reader) (bool, error) {
 	b := xbytes.MallocSize(1)
 	defer xbytes.Free(b)
 
-	_, err := r.Read(b)
-	if err != nil {
+	if err := readFull(r, b); err != nil {
 		return false, err
 	}
 	return b[0] == 1, nil
@@ -90,13 +95,9 @@ func ReadUint32(r io.Reader) (uint32, error) {
 	data := xbytes.MallocSize(4)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
-	if err != nil {
+	if err := readFull(r, data); err != nil {
 		return 0, err
 	}
-	if n < 4 {
-		return 0, ErrInvalidLength
-	}
 	return binary.BigEndian.Uint32(data), nil
 }
 
@@ -119,6 +120,10 @@ func WriteUint32(w io.Writer, i uint32) error {
 
 // WriteBytes writes bytes.
 func WriteBytes(w io.Writer, s []byte) (err error) {
+	// the length must fit in the two-byte prefix
+	if len(s) > math.MaxUint16 {
+		return ErrInvalidLength
+	}
 	// length
 	err = WriteUint16(w, uint16(len(s)))
 	if err == nil {
-- 
2.43.0


From 8e4be7f1bf196ce0827616b01ac998cd1833cc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 09/13] fix: pooled buffered readers and writers are at least
 as big as requested and never the caller's own

---
 xio/buffer.go | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/xio/buffer.go b/xio/buffer.go
index 13a6b34..d846ad8 100644
--- a/xio/buffer.go
+++ b/xio/buffer.go
@@ -22,6 +22,9 @@ import (
 	"sync"
 )
 
+// defaultSize is the size of a buffer when no size is given.
+const defaultSize = 4096
+
 var (
 	bufReaderPool = &sync.Pool{}
 	bufWriterPool = &sync.Pool{}
@@ -30,21 +33,22 @@ var (
 // GetBufferReaderSize returns a bufio.Reader.
 func GetBufferReaderSize(r io.Reader, size int) *bufio.Reader {
 	if v := bufReaderPool.Get(); v != nil {
-		br := v.(*bufio.Reader)
-		br.Reset(r)
-		return br
+		// A recycled reader smaller than requested is dropped.
+		if br := v.(*bufio.Reader); br.Size() >= size {
+			br.Reset(r)
+			return br
+		}
 	}
-	return bufio.NewReaderSize(r, size)
+	// NewReaderSize would return r itself when r is a big enough *bufio.Reader,
+	// and the caller's reader would end up in the pool.
+	br := bufio.NewReaderSize(nil, size)
+	br.Reset(r)
+	return br
 }
 
 // GetBufferReader returns a bufio.Reader.
 func GetBufferReader(r io.Reader) *bufio.Reader {
-	if v := bufReaderPool.Get(); v != nil {
-		br := v.(*bufio.Reader)
-		br.Reset(r)
-		return br
-	}
-	return bufio.NewReader(r)
+	return GetBufferReaderSize(r, defaultSize)
 }
 
 // PutBufferReader recycles a bufio.Reader.
@@ -58,21 +62,22 @@ func PutBufferReader(r *bufio.Reader) {
 // GetBufferWriterSize returns a bufio.Writer.
 func GetBufferWriterSize(w io.Writer, size int) *bufio.Writer {
 	if v := bufWriterPool.Get(); v != nil {
-		bw := v.(*bufio.Writer)
-		bw.Reset(w)
-		return bw
+		// A recycled writer smaller than requested is dropped.
+		if bw := v.(*bufio.Writer); bw.Size() >= size {
+			bw.Reset(w)
+			return bw
+		}
 	}
-	return bufio.NewWriterSize(w, size)
+	// NewWriterSize would return w itself when w is a big enough *bufio.Writer,
+	// and the caller's writer would end up in the pool.
+	bw := bufio.NewWriterSize(nil, size)
+	bw.Reset(w)
+	return bw
 }
 
 // GetBufferWriter returns a bufio.Writer.
 func GetBufferWriter(w io.Writer) *bufio.Writer {
-	if v := bufWriterPool.Get(); v != nil {
-		bw := v.(*bufio.Writer)
-		bw.Reset(w)
-		return bw
-	}
-	return bufio.NewWriter(w)
+	return GetBufferWriterSize(w, defaultSize)
 }
 
 // PutBufferWriter recycles a bufio.Writer.
-- 
2.43.0


From 0525848195f884d3879021c5c4d8e7a6fba1ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 10/13] fix: close the peeked stream when the action panics

---
 xstream/xstream.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index dbcda1a..eee93b0 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -589,11 +589,13 @@ func (s *Stream) FindLast() (result interface{}, err error) {
 func (s *Stream) Peek(f ForEachFunc) *Stream {
 	source := make(chan interface{})
 	startGoroutine(func() {
+		// close the stream even if f panics
+		defer close(source)
+
 		for item := range s.source {
 			source <- item
 			f(item)
 		}
-		close(source)
 	})
 
 	return Range(source)
-- 
2.43.0


From 1384524e393284a608930f616e83ad96636817fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 11/13] fix: FlatMap passes nil elements to its function

---
 xstream/xstream.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index eee93b0..053e07b 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -456,7 +456,8 @@ func (s *Stream) FlatMap(fn MapFunc, opts ...Option) *Stream {
 			for _, x := range v {
 				pipe <- fn(x)
 			}
-		case interface{}:
+		default:
+			// not "case interface{}", which would drop nil elements
 			pipe <- fn(v)
 		}
 	}, opts...)
-- 
2.43.0


From 5d9bed27371f4cfb6a0f36479f02264e74650bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 12/13] fix: Do reports a nil panic of the function instead of
 waiting forever

---
 xtask/do.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/xtask/do.go b/xtask/do.go
index 82a0c00..d678777 100644
--- a/xtask/do.go
+++ b/xtask/do.go
@@ -40,13 +40,24 @@ func Do(ctx context.Context, do func() error, deferFunc func()) (err error) {
 	panicChan := make(chan interface{}, 1)
 
 	go func() {
-		defer func() {
-			if r := recover(); r != nil {
-				panicChan <- fmt.Sprintf("%+v\n\n%s", r, strings.TrimSpace(string(debug.Stack())))
-			}
+		var p interface{}
+		panicked := true
+
+		func() {
+			defer func() {
+				if panicked {
+					p = fmt.Sprintf("%+v\n\n%s", recover(), strings.TrimSpace(string(debug.Stack())))
+				}
+			}()
+
+			doneChan <- do()
+			panicked = false
 		}()
 
-		doneChan <- do()
+		// not reached when do ends its goroutine with runtime.Goexit
+		if panicked {
+			panicChan <- p
+		}
 	}()
 
 	select {
-- 
2.43.0


From 6ca0de57bd21280a21ea9af59fd505cd8f28cf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 13/13] fix: Tail and SplitSteam with n far beyond the stream's
 length

Both allocated n elements up front in the background, where the failure
was lost: Tail delivered nothing and SplitSteam never closed its stream.
---
 xstream/ring.go    | 11 ++++++++---
 xstream/xstream.go | 27 ++++++++++++++++-----------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/xstream/ring.go b/xstream/ring.go
index 9359931..22a5c11 100644
--- a/xstream/ring.go
+++ b/xstream/ring.go
@@ -18,18 +18,23 @@ package xstream
 
 type ring struct {
 	elements []interface{}
+	size     int
 	index    int
 }
 
-// newRing returns a ring object with the given size n.
+// newRing returns a ring object with the given size n. The ring grows up to that size as elements are added.
 func newRing(n uint) *ring {
-	return &ring{elements: make([]interface{}, n)}
+	return &ring{size: int(n)}
 }
 
 // add adds v into r.
 func (r *ring) add(v interface{}) {
 
-	r.elements[r.index%len(r.elements)] = v
+	if len(r.elements) < r.size {
+		r.elements = append(r.elements, v)
+	} else {
+		r.elements[r.index%len(r.elements)] = v
+	}
 	r.index++
 }
 
diff --git a/xstream/xstream.go b/xstream/xstream.go
index 053e07b..34f75d8 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -217,20 +217,25 @@ func (s *Stream) SplitSteam(n int) *Stream {
 	}
 	source := make(chan interface{})
 	startGoroutine(func() {
-		var chunkSource = make(chan interface{}, n)
+		// a chunk may hold fewer than n elements: its channel is made when its size is known
+		var chunk []interface{}
+		emit := func() {
+			chunkSource := make(chan interface{}, len(chunk))
+			for _, item := range chunk {
+				chunkSource <- item
+			}
+			close(chunkSource)
+			source <- Range(chunkSource)
+			chunk = chunk[:0]
+		}
 		for item := range s.source {
-			chunkSource <- item
-			if len(chunkSource) == n {
-
-				source <- Range(chunkSource)
-				close(chunkSource)
-
-				chunkSource = make(chan interface{}, n)
+			chunk = append(chunk, item)
+			if len(chunk) == n {
+				emit()
 			}
 		}
-		if len(chunkSource) != 0 {
-			source <- Range(chunkSource)
-			close(chunkSource)
+		if len(chunk) != 0 {
+			emit()
 		}
 		close(source)
 	})
-- 
2.43.0

