From fae60593e07ef59b43870357c51f41f0746418fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:34 +0000
Subject: [PATCH 01/32] fix: UBufFrom: use the whole capacity of the wrapped
 slice

The buffer advertises cap(data) bytes but kept len(data), so writing past
the length of the given slice panicked.
---
 ubuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ubuf.go b/ubuf.go
index b9a7598..aeb2016 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -105,7 +105,7 @@ func UBufFromWithHeadReserved(data []byte, reserved int) *UBuf {
 		writerIndex: reserved,
 		data: &uBufData{
 			refCount: 1,
-			bytes:    data,
+			bytes:    data[:capacity],
 		},
 		copyOnWrite: false,
 	}
-- 
2.43.0


From 3442e678d09f72509e07e59e3ac08a4dfab7031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:34 +0000
Subject: [PATCH 02/32] fix: UBuf: resolve copy-on-write before moving the
 writer index in head writes

A head write on a shared copy-on-write buffer copied the range
[readerIndex:writerIndex] after writerIndex was moved below readerIndex
and panicked.
---
 ubuf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ubuf.go b/ubuf.go
index aeb2016..b1e47d6 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -568,6 +568,9 @@ func (ub *UBuf) writeHead(dataSize int, fn func() error) error {
 		return errors.New("UBuf Head room is not enouth")
 	}
 
+	// must be done before writerIndex is moved below
+	ub.resolveCopyOnWriteIfNeed()
+
 	// all the writes are from writerIndex
 	// backup the writerIndex first
 	oldWriterIndex := ub.writerIndex
-- 
2.43.0


From cd15e8cf8462372a9277f80a240b324e32528bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:34 +0000
Subject: [PATCH 03/32] fix: UBuf: release the shared data only after copying
 it

Dropping the reference first let another goroutine, now the only owner,
overwrite the data in place while it was being copied.
---
 ubuf.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index b1e47d6..93f1829 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -175,9 +175,6 @@ func (ub *UBuf) resolveCopyOnWriteIfNeed() {
 
 	// buffer data is referenced by some snapshot(s)
 
-	// decrease the count
-	atomic.AddInt32(&ub.data.refCount, -1)
-
 	// make buffer data copy
 	data := &uBufData{
 		refCount: 1,
@@ -187,6 +184,10 @@ func (ub *UBuf) resolveCopyOnWriteIfNeed() {
 	fmt.Println("make COW")
 	copy(data.bytes[ub.readerIndex:ub.writerIndex], ub.data.bytes[ub.readerIndex:ub.writerIndex])
 
+	// decrease the count, after the copy is made: from now on the
+	// last remaining owner may overwrite the data in place
+	atomic.AddInt32(&ub.data.refCount, -1)
+
 	// update
 	ub.data = data
 }
-- 
2.43.0


From af053f23d505d1b70669b2b2e0d964e2f042e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:34 +0000
Subject: [PATCH 04/32] fix: UBuf: ReadFrom and WriteTo account for bytes moved
 together with an error

Bytes a reader returns along with an error were dropped, and bytes a
writer accepted before failing stayed in the buffer.
---
 ubuf.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index 93f1829..2f5ef90 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -353,13 +353,10 @@ func (ub *UBuf) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	written, err := w.Write(ub.data.bytes[ub.readerIndex:ub.writerIndex])
-	if err != nil {
-		return int64(written), err
-	}
 
 	ub.readerIndex += written
 
-	return int64(written), nil
+	return int64(written), err
 }
 
 // WriteU16 writes uint16 data into data space
@@ -473,13 +470,10 @@ func (ub *UBuf) ReadFrom(r io.Reader) (n int64, err error) {
 	ub.resolveCopyOnWriteIfNeed()
 
 	length, err := r.Read(ub.data.bytes[ub.writerIndex:])
-	if err != nil {
-		return 0, err
-	}
 
 	ub.writerIndex += length
 
-	return int64(length), nil
+	return int64(length), err
 }
 
 // ReadU16 returns uint16 data or error
-- 
2.43.0


From 764bca7b160292a8afb56ce719afb0eb7ba7f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:57 +0000
Subject: [PATCH 05/32] fix: Filter, Forwarder: do not call a nil function
 before the given ones

---
 proc_filter.go    | 2 +-
 proc_forwarder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc_filter.go b/proc_filter.go
index 3d6f4ad..486fdcb 100644
--- a/proc_filter.go
+++ b/proc_filter.go
@@ -18,7 +18,7 @@ type Filter struct {
 func NewFilter(filterFn ...FilterFn) DataProcessor {
 	filter := &Filter{
 		ProcBase:  NewProcBaseInstance("Filter"),
-		filterFn:  make([]FilterFn, 1),
+		filterFn:  make([]FilterFn, 0),
 		txCounter: 0,
 		rxCounter: 0,
 	}
diff --git a/proc_forwarder.go b/proc_forwarder.go
index dfe1199..b68ac3d 100644
--- a/proc_forwarder.go
+++ b/proc_forwarder.go
@@ -18,7 +18,7 @@ type Forwarder struct {
 func NewForwarder(forwardFn ...ForwardFn) DataProcessor {
 	fwd := &Forwarder{
 		ProcBase:  NewProcBaseInstance("Forwarder"),
-		forwardFn: make([]ForwardFn, 1),
+		forwardFn: make([]ForwardFn, 0),
 		txCounter: 0,
 		rxCounter: 0,
 	}
-- 
2.43.0


From 8f3066b6b9ee9eddd4d656237f8c65e8c2044cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:57 +0000
Subject: [PATCH 06/32] fix: ProcBase, FeatBase: chained setters return the
 object they are called on

---
 feat_base.go | 1 +
 proc_base.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/feat_base.go b/feat_base.go
index 14bafe3..524d8a0 100644
--- a/feat_base.go
+++ b/feat_base.go
@@ -26,6 +26,7 @@ func NewFeatBaseInstance(name string) FeatBase {
 // NewFeatBase return a new instance that meets for Feature interface
 func NewFeatBase() Feature {
 	base := NewFeatBaseInstance("FeatBase")
+	base.where = &base
 	return &base
 }
 
diff --git a/proc_base.go b/proc_base.go
index 6c71649..b32ab8a 100644
--- a/proc_base.go
+++ b/proc_base.go
@@ -35,6 +35,7 @@ func NewProcBaseInstance(name string) ProcBase {
 // NewProcBase return a new instance that meets for DataProcessor interface
 func NewProcBase() DataProcessor {
 	base := NewProcBaseInstance("ProcBase")
+	base.where = &base
 	return &base
 }
 
-- 
2.43.0


From 0757bcd4aca43ce0f26fb0cd1612fb686022586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:57 +0000
Subject: [PATCH 07/32] fix: GOBCodec, GenericCodec: a truncated message ends
 with EOF instead of spinning

---
 proc_codec_generic.go |  2 +-
 proc_codec_gob.go     |  2 +-
 ubuf.go               | 18 ++++++++++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/proc_codec_generic.go b/proc_codec_generic.go
index a7e45e2..b14bc55 100644
--- a/proc_codec_generic.go
+++ b/proc_codec_generic.go
@@ -83,7 +83,7 @@ func (gc *GenericCodec) OnLowerData(context Context) {
 			return
 		}
 
-		message, err := gc.decoder(ub)
+		message, err := gc.decoder(&ubufReader{ub})
 		if err != nil {
 			fmt.Println("GenericCodec: encode error:", err)
 			return
diff --git a/proc_codec_gob.go b/proc_codec_gob.go
index f344732..5d307ec 100644
--- a/proc_codec_gob.go
+++ b/proc_codec_gob.go
@@ -58,7 +58,7 @@ func (g *GOBCodec) OnLowerData(context Context) {
 		}
 
 		objectItf := reflect.New(g.objectType).Interface()
-		err := gob.NewDecoder(ub).Decode(objectItf)
+		err := gob.NewDecoder(&ubufReader{ub}).Decode(objectItf)
 		if err != nil {
 			fmt.Println("GOBCodec: gob encode error:", err)
 			return
diff --git a/ubuf.go b/ubuf.go
index 2f5ef90..66a5944 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -638,3 +638,21 @@ func (ub *UBuf) WriteHeadU32LE(value uint32) error {
 func (ub *UBuf) WriteHeadU64LE(value uint64) error {
 	return ub.writeHead(8, func() error { return ub.WriteU64LE(value) })
 }
+
+// ubufReader reads a UBuf as a stream which ends with io.EOF,
+// so that a decoder does not wait for data that never comes
+type ubufReader struct {
+	*UBuf
+}
+
+// Read ...
+func (r *ubufReader) Read(p []byte) (n int, err error) {
+	left := r.ReadableLength()
+	if len(p) > 0 && left <= 0 {
+		return 0, io.EOF
+	}
+	if len(p) > left {
+		p = p[:left]
+	}
+	return r.UBuf.Read(p)
+}
-- 
2.43.0


From 46ae255916704bd8b1308eb9dfb33039820358b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 08/32] fix: FrameDecoder: pass sent references down instead of
 calling the upper layer

---
 proc_frame_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 0666121..10e5c0c 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -36,7 +36,7 @@ func (frm *FrameDecoder) GetOverhead() int {
 // OnUpperData ...
 func (frm *FrameDecoder) OnUpperData(context Context) {
 	if context.GetConnection().UseReference() {
-		frm.upper.OnUpperData(context)
+		frm.lower.OnUpperData(context)
 		return
 	}
 
-- 
2.43.0


From 87dd7c16285693bf18629bed1cbe165551934c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:15 +0000
Subject: [PATCH 09/32] fix: FrameDecoder, Heartbeat, StatCounter,
 LoadBalancer: tolerate data which names no connection

---
 proc_frame_decoder.go | 4 ++--
 proc_heartbeat.go     | 4 ++--
 proc_load_balancer.go | 4 ++--
 proc_stat_counter.go  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 10e5c0c..b484abf 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -35,7 +35,7 @@ func (frm *FrameDecoder) GetOverhead() int {
 
 // OnUpperData ...
 func (frm *FrameDecoder) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if context.GetConnection() != nil && context.GetConnection().UseReference() {
 		frm.lower.OnUpperData(context)
 		return
 	}
@@ -168,7 +168,7 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 
 // OnLowerData ...
 func (frm *FrameDecoder) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if context.GetConnection() != nil && context.GetConnection().UseReference() {
 		frm.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 3b9a55d..685e350 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -93,7 +93,7 @@ func (hb *Heartbeat) GetOverhead() int {
 
 // OnUpperData ...
 func (hb *Heartbeat) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if context.GetConnection() != nil && context.GetConnection().UseReference() {
 		hb.lower.OnUpperData(context)
 		return
 	}
@@ -110,7 +110,7 @@ func (hb *Heartbeat) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (hb *Heartbeat) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if context.GetConnection() != nil && context.GetConnection().UseReference() {
 		hb.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_load_balancer.go b/proc_load_balancer.go
index cad6075..7073c75 100644
--- a/proc_load_balancer.go
+++ b/proc_load_balancer.go
@@ -37,7 +37,7 @@ func (lb *LoadBalancer) GetOverhead() int {
 
 // OnUpperData ...
 func (lb *LoadBalancer) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if context.GetConnection() != nil && context.GetConnection().UseReference() {
 		lb.lower.OnUpperData(context)
 		return
 	}
@@ -59,7 +59,7 @@ func (lb *LoadBalancer) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (lb *LoadBalancer) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if context.GetConnection() != nil && context.GetConnection().UseReference() {
 		lb.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 6cb5643..238814f 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -41,7 +41,7 @@ func (hb *StatCounter) GetOverhead() int {
 
 // OnUpperData ...
 func (sc *StatCounter) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if context.GetConnection() != nil && context.GetConnection().UseReference() {
 		sc.lower.OnUpperData(context)
 		return
 	}
@@ -107,7 +107,7 @@ func (sc *StatCounter) show(context Context) {
 
 // OnLowerData ...
 func (sc *StatCounter) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if context.GetConnection() != nil && context.GetConnection().UseReference() {
 		sc.upper.OnLowerData(context)
 		return
 	}
-- 
2.43.0


From fca2e4c9ab1fba775100a530f82ee3091c5bb444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:15 +0000
Subject: [PATCH 10/32] fix: FrameDecoder, Heartbeat, StatCounter: do not send
 a message whose header does not fit

---
 proc_frame_decoder.go | 5 ++++-
 proc_heartbeat.go     | 5 ++++-
 proc_stat_counter.go  | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index b484abf..54feaf7 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -47,7 +47,10 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 		}
 
 		// add frame length in head space
-		ub.WriteHeadU32BE(uint32(ub.ReadableLength()))
+		err := ub.WriteHeadU32BE(uint32(ub.ReadableLength()))
+		if err != nil {
+			return
+		}
 	}
 
 	frm.lower.OnUpperData(context)
diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 685e350..9e4f2a8 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -103,7 +103,10 @@ func (hb *Heartbeat) OnUpperData(context Context) {
 		return
 	}
 
-	ub.WriteHeadByte(HeartbeatUplayerMessageTag)
+	err := ub.WriteHeadByte(HeartbeatUplayerMessageTag)
+	if err != nil {
+		return
+	}
 
 	hb.lower.OnUpperData(context)
 }
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 238814f..06e8556 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -56,7 +56,10 @@ func (sc *StatCounter) OnUpperData(context Context) {
 		// fmt.Println("StatCounter: txCounter:", sc.txCounter)
 	}
 
-	ub.WriteHeadByte(StatCounterUplayerMessageTag)
+	err := ub.WriteHeadByte(StatCounterUplayerMessageTag)
+	if err != nil {
+		return
+	}
 
 	sc.lower.OnUpperData(context)
 }
-- 
2.43.0


From 8f3f165da115f06fd14775c457c29212c68623e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:49 +0000
Subject: [PATCH 11/32] fix: FrameDecoder: a frame is complete only when its
 header and payload are there

---
 proc_frame_decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 54feaf7..2ddba57 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -80,7 +80,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 			return
 		}
 
-		actuallyLength := uint32(ub.ReadableLength())
+		actuallyLength := uint32(ub.ReadableLength() - FrameLengthFieldSizeInByte)
 
 		// not a complete frame, cache the data
 		if expectedLength > actuallyLength {
@@ -143,7 +143,7 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 			return
 		}
 
-		if cachedLength < int(expectedLength) {
+		if cachedLength-FrameLengthFieldSizeInByte < int(expectedLength) {
 			// wait for more data
 			return
 		}
-- 
2.43.0


From 35a316aee79987d3f933c79a5eb9326b2a070525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:49 +0000
Subject: [PATCH 12/32] fix: FrameDecoder: received frames keep head space, and
 may be empty

---
 proc_frame_decoder.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 2ddba57..67d5369 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -56,6 +56,13 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 	frm.lower.OnUpperData(context)
 }
 
+// allocFrame returns a buffer for a received frame, the head space is
+// reserved because the frame may be sent back by uplayer
+func (frm *FrameDecoder) allocFrame(length int) *UBuf {
+	overhead := frm.ustack.GetOverhead()
+	return UBufAllocWithHeadReserved(overhead+length, overhead)
+}
+
 // handleCurrentData ...
 func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 	// if there is data in cache, put current data into cache
@@ -100,7 +107,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 
 		// here: expectedLength < actuallyLength
 		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
+		newUbuf := frm.allocFrame(int(expectedLength))
 
 		// drop size-field-data by dummy reading
 		ub.ReadU32BE()
@@ -149,7 +156,7 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 		}
 
 		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
+		newUbuf := frm.allocFrame(int(expectedLength))
 
 		// drop size-field-data by dummy reading
 		frm.cache.ReadU32BE()
-- 
2.43.0


From 4fc4ae5e4306a02cc005d29b68f7a2083f8deafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:49 +0000
Subject: [PATCH 13/32] fix: FrameDecoder: reassemble the frames of each
 connection separately

---
 proc_frame_decoder.go | 79 +++++++++++++++++++++++++++++++------------
 1 file changed, 58 insertions(+), 21 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 67d5369..c2061b8 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -7,6 +7,7 @@ package ustack
 import (
 	"fmt"
 	"io"
+	"sync"
 )
 
 const FrameLengthFieldSizeInByte int = 4
@@ -15,7 +16,8 @@ const FrameLengthFieldSizeInByte int = 4
 type FrameDecoder struct {
 	ProcBase
 	cacheCapacity int
-	cache         *UBuf
+	mutex         sync.Mutex
+	caches        map[TransportConnection]*UBuf
 }
 
 // NewFrameDecoder ...
@@ -23,7 +25,7 @@ func NewFrameDecoder() DataProcessor {
 	frm := &FrameDecoder{
 		ProcBase:      NewProcBaseInstance("FrameDecoder"),
 		cacheCapacity: 1024,
-		cache:         nil,
+		caches:        make(map[TransportConnection]*UBuf, 16),
 	}
 	return frm.ProcBase.SetWhere(frm)
 }
@@ -63,11 +65,28 @@ func (frm *FrameDecoder) allocFrame(length int) *UBuf {
 	return UBufAllocWithHeadReserved(overhead+length, overhead)
 }
 
+// getCache returns the cache of the connection,
+// or nil if the connection was closed and its cache is gone
+func (frm *FrameDecoder) getCache(connection TransportConnection) *UBuf {
+	frm.mutex.Lock()
+	defer frm.mutex.Unlock()
+
+	cache, ok := frm.caches[connection]
+	if !ok {
+		if connection != nil && connection.Closed() {
+			return nil
+		}
+		cache = UBufAlloc(frm.cacheCapacity)
+		frm.caches[connection] = cache
+	}
+	return cache
+}
+
 // handleCurrentData ...
-func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
+func (frm *FrameDecoder) handleCurrentData(context Context, cache *UBuf, ub *UBuf) {
 	// if there is data in cache, put current data into cache
-	if frm.cache.ReadableLength() > 0 {
-		frm.cache.ReadFrom(ub)
+	if cache.ReadableLength() > 0 {
+		cache.ReadFrom(ub)
 		return
 	}
 
@@ -76,14 +95,14 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 	for {
 		// very less data, cache the data
 		if ub.ReadableLength() < FrameLengthFieldSizeInByte {
-			frm.cache.ReadFrom(ub)
+			cache.ReadFrom(ub)
 			return
 		}
 
 		expectedLength, err := ub.PeekU32BE()
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
@@ -91,7 +110,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 
 		// not a complete frame, cache the data
 		if expectedLength > actuallyLength {
-			frm.cache.ReadFrom(ub)
+			cache.ReadFrom(ub)
 			return
 		}
 
@@ -116,7 +135,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 		_, err = io.CopyN(newUbuf, ub, int64(expectedLength))
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
@@ -128,13 +147,13 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 }
 
 // handleCachedData ...
-func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
+func (frm *FrameDecoder) handleCachedData(context Context, cache *UBuf, ub *UBuf) {
 	// handle as much as possiable with loop
 	for {
-		cachedLength := frm.cache.ReadableLength()
+		cachedLength := cache.ReadableLength()
 
 		if cachedLength == 0 {
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
@@ -143,10 +162,10 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 			return
 		}
 
-		expectedLength, err := frm.cache.PeekU32BE()
+		expectedLength, err := cache.PeekU32BE()
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
@@ -159,13 +178,13 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 		newUbuf := frm.allocFrame(int(expectedLength))
 
 		// drop size-field-data by dummy reading
-		frm.cache.ReadU32BE()
+		cache.ReadU32BE()
 
 		// fill the new buffer for uplayer
-		_, err = io.CopyN(newUbuf, frm.cache, int64(expectedLength))
+		_, err = io.CopyN(newUbuf, cache, int64(expectedLength))
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
@@ -189,16 +208,36 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 	}
 
 	if frm.enable {
+		cache := frm.getCache(context.GetConnection())
+		if cache == nil {
+			return
+		}
+
 		// handle current received data
-		frm.handleCurrentData(context, ub)
+		frm.handleCurrentData(context, cache, ub)
 
 		// handle history cached data
-		frm.handleCachedData(context, ub)
+		frm.handleCachedData(context, cache, ub)
 	} else {
 		frm.upper.OnLowerData(context)
 	}
 }
 
+// OnEvent ...
+func (frm *FrameDecoder) OnEvent(event Event) {
+	if event.Type == UStackEventConnectionClosed {
+		connection, ok := event.Data.(TransportConnection)
+		if !ok {
+			return
+		}
+
+		frm.mutex.Lock()
+		defer frm.mutex.Unlock()
+
+		delete(frm.caches, connection)
+	}
+}
+
 // Run ...
 func (frm *FrameDecoder) Run() DataProcessor {
 	cacheCapacity, exists := OptionParseInt(frm.GetOption("CacheCapacity"), 2*frm.ustack.GetMTU())
@@ -209,7 +248,5 @@ func (frm *FrameDecoder) Run() DataProcessor {
 		fmt.Println("FrameDecoder: option CacheCapacity:", frm.cacheCapacity)
 	}
 
-	frm.cache = UBufAlloc(frm.cacheCapacity)
-
 	return frm
 }
-- 
2.43.0


From 7dfc59b46e898df7df8719c9082ddb8ad0f031ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:49 +0000
Subject: [PATCH 14/32] fix: FrameDecoder: do not lose data when the cache has
 no room at its end

---
 proc_frame_decoder.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index c2061b8..3298d13 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -150,6 +150,15 @@ func (frm *FrameDecoder) handleCurrentData(context Context, cache *UBuf, ub *UBu
 func (frm *FrameDecoder) handleCachedData(context Context, cache *UBuf, ub *UBuf) {
 	// handle as much as possiable with loop
 	for {
+		// put the data that did not fit before into cache
+		if ub.ReadableLength() > 0 {
+			cached := make([]byte, cache.ReadableLength())
+			cache.Read(cached)
+			cache.Reset()
+			cache.Write(cached)
+			cache.ReadFrom(ub)
+		}
+
 		cachedLength := cache.ReadableLength()
 
 		if cachedLength == 0 {
@@ -169,6 +178,12 @@ func (frm *FrameDecoder) handleCachedData(context Context, cache *UBuf, ub *UBuf
 			return
 		}
 
+		if int(expectedLength) > cache.Capacity()-FrameLengthFieldSizeInByte {
+			// the frame can never be completed, discard it
+			cache.Reset()
+			return
+		}
+
 		if cachedLength-FrameLengthFieldSizeInByte < int(expectedLength) {
 			// wait for more data
 			return
@@ -213,11 +228,15 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 			return
 		}
 
+		hasCachedData := cache.ReadableLength() > 0
+
 		// handle current received data
 		frm.handleCurrentData(context, cache, ub)
 
 		// handle history cached data
-		frm.handleCachedData(context, cache, ub)
+		if hasCachedData {
+			frm.handleCachedData(context, cache, ub)
+		}
 	} else {
 		frm.upper.OnLowerData(context)
 	}
@@ -242,6 +261,11 @@ func (frm *FrameDecoder) OnEvent(event Event) {
 func (frm *FrameDecoder) Run() DataProcessor {
 	cacheCapacity, exists := OptionParseInt(frm.GetOption("CacheCapacity"), 2*frm.ustack.GetMTU())
 
+	// the biggest frame must fit
+	if cacheCapacity < frm.ustack.GetMTU() {
+		cacheCapacity = frm.ustack.GetMTU()
+	}
+
 	frm.cacheCapacity = cacheCapacity
 
 	if exists {
-- 
2.43.0


From c267fc0bdea32d9654e6b1f1ed222b9e1d165d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:54 +0000
Subject: [PATCH 15/32] fix: LowerDeck: publish the closed event of a
 connection once, after its new event

---
 proc_lowerdeck.go | 61 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index fb8b912..e464f05 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -4,25 +4,75 @@
 
 package ustack
 
-import "fmt"
+import (
+	"fmt"
+	"sync"
+)
+
+// states of a connection
+const (
+	connectionAnnouncing int = iota
+	connectionAnnounced
+	connectionClosedInAnnouncing
+)
 
 // LowerDeck manages transports
 type LowerDeck struct {
 	ProcBase
+	mutex       sync.Mutex
+	connections map[TransportConnection]int
 }
 
 // NewLowerDeck returns a new instance
 func NewLowerDeck() DataProcessor {
 	ld := &LowerDeck{
-		NewProcBaseInstance("LowerDeck"),
+		ProcBase:    NewProcBaseInstance("LowerDeck"),
+		connections: make(map[TransportConnection]int, 16),
 	}
 	return ld.ProcBase.SetWhere(ld)
 }
 
+func (ld *LowerDeck) openConnection(c TransportConnection) {
+	ld.mutex.Lock()
+	ld.connections[c] = connectionAnnouncing
+	ld.mutex.Unlock()
+
+	// publish event
+	ld.ustack.PublishEvent(Event{
+		Type:   UStackEventNewConnection,
+		Source: ld,
+		Data:   c,
+	})
+
+	ld.mutex.Lock()
+	closed := ld.connections[c] == connectionClosedInAnnouncing
+	ld.connections[c] = connectionAnnounced
+	ld.mutex.Unlock()
+
+	if closed {
+		ld.closeConnection(c)
+	}
+}
+
 func (ld *LowerDeck) closeConnection(c TransportConnection) {
 	// close first
 	c.Close()
 
+	// the closed event is published only once, and after the new event
+	ld.mutex.Lock()
+	state, ok := ld.connections[c]
+	if ok && state != connectionAnnounced {
+		ld.connections[c] = connectionClosedInAnnouncing
+		ok = false
+	} else {
+		delete(ld.connections, c)
+	}
+	ld.mutex.Unlock()
+
+	if !ok {
+		return
+	}
+
 	// publish event
 	ld.ustack.PublishEvent(Event{
 		Type:   UStackEventConnectionClosed,
@@ -48,12 +98,7 @@ func (ld *LowerDeck) acceptTransport(tp Transport) {
 
 			fmt.Println("New connection:", connection.GetName(), "on transport:", tp.GetName())
 
-			// publish event
-			ld.ustack.PublishEvent(Event{
-				Type:   UStackEventNewConnection,
-				Source: ld,
-				Data:   connection,
-			})
+			ld.openConnection(connection)
 
 			// New routine to continue receive data from connection
 			go func() {
-- 
2.43.0


From aa1bcd9b025bcf3cab17e4fc4b420ad83bf3072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:54 +0000
Subject: [PATCH 16/32] fix: UpperDeck: check and register an endpoint under
 one lock, and let its sender see its own stop

---
 proc_upperdeck.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index d889fd8..ecd5af0 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -16,9 +16,6 @@ type UpperDeck struct {
 }
 
 func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
-	ud.Lock()
-	defer ud.Unlock()
-
 	for endpoint := range ud.endpoints {
 		if endpoint == ep || endpoint.GetSession() == ep.GetSession() {
 			return true
@@ -29,14 +26,15 @@ func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
 
 // accpetEndpoint ...
 func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
+	ud.Lock()
+	defer ud.Unlock()
+
 	if ud.existsEndpoint(ep) {
 		return
 	}
 
-	ud.Lock()
-	defer ud.Unlock()
-
-	ud.endpoints[ep] = make(chan bool, 1)
+	stopchan := make(chan bool, 1)
+	ud.endpoints[ep] = stopchan
 
 	session := ep.GetSession()
 	txchan := ep.GetTxChannel()
@@ -47,10 +45,8 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	go func() {
 		for {
 			select {
-			case stop := <-ud.endpoints[ep]:
-				if stop {
-					return
-				}
+			case <-stopchan:
+				return
 			case epd := <-txchan:
 				destinationSession := session
 				if epd.HasDestinationSession() {
@@ -74,7 +70,6 @@ func (ud *UpperDeck) deleteEndpoint(ep EndPoint) {
 
 	ch, ok := ud.endpoints[ep]
 	if ok {
-		ch <- true
 		close(ch)
 		delete(ud.endpoints, ep)
 	}
-- 
2.43.0


From 5e554a8d91e63be5830fa75fe69eb4bbec519d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:55 +0000
Subject: [PATCH 17/32] fix: UpperDeck: an endpoint added again waits for its
 previous sender to end

---
 proc_upperdeck.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index ecd5af0..570b95a 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -13,6 +13,8 @@ type UpperDeck struct {
 	ProcBase
 	sync.Mutex
 	endpoints map[EndPoint]chan bool
+	// closed when the last sender of the endpoint has ended
+	senders map[EndPoint]chan bool
 }
 
 func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
@@ -36,6 +38,10 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	stopchan := make(chan bool, 1)
 	ud.endpoints[ep] = stopchan
 
+	previous := ud.senders[ep]
+	ended := make(chan bool)
+	ud.senders[ep] = ended
+
 	session := ep.GetSession()
 	txchan := ep.GetTxChannel()
 	lower := ud.lower
@@ -43,6 +49,13 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	// create routinue for each endpoint
 	// read data from endpoint and pass it to lower
 	go func() {
+		defer ud.endSender(ep, ended)
+
+		// the endpoint was deleted and added again, keep the sending order
+		if previous != nil {
+			<-previous
+		}
+
 		for {
 			select {
 			case <-stopchan:
@@ -63,6 +76,17 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	}()
 }
 
+// endSender ...
+func (ud *UpperDeck) endSender(ep EndPoint, ended chan bool) {
+	ud.Lock()
+	defer ud.Unlock()
+
+	close(ended)
+	if ud.senders[ep] == ended {
+		delete(ud.senders, ep)
+	}
+}
+
 // deleteTransport ...
 func (ud *UpperDeck) deleteEndpoint(ep EndPoint) {
 	ud.Lock()
@@ -92,6 +116,7 @@ func NewUpperDeck() DataProcessor {
 	ud := &UpperDeck{
 		ProcBase:  NewProcBaseInstance("UpperDeck"),
 		endpoints: make(map[EndPoint]chan bool, 1),
+		senders:   make(map[EndPoint]chan bool, 1),
 	}
 	return ud.ProcBase.SetWhere(ud)
 }
-- 
2.43.0


From d65a2f22b27f432bce261a5710767d94968c9eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:55 +0000
Subject: [PATCH 18/32] fix: UpperDeck: a deleted endpoint does not block the
 connection

---
 proc_upperdeck.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index 570b95a..f4dc7a7 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -99,16 +99,16 @@ func (ud *UpperDeck) deleteEndpoint(ep EndPoint) {
 	}
 }
 
-func (ud *UpperDeck) findEndPoint(session int) EndPoint {
+func (ud *UpperDeck) findEndPoint(session int) (EndPoint, chan bool) {
 	ud.Lock()
 	defer ud.Unlock()
 
-	for ep := range ud.endpoints {
+	for ep, stopchan := range ud.endpoints {
 		if ep.GetSession() == session {
-			return ep
+			return ep, stopchan
 		}
 	}
-	return nil
+	return nil, nil
 }
 
 // NewUpperDeck returns a new instance
@@ -131,11 +131,15 @@ func (ud *UpperDeck) OnLowerData(context Context) {
 	// the default is 0 if seesion is not enabled
 	session, _ := OptionParseInt(context.GetOption("session"), 0)
 
-	ep := ud.findEndPoint(session)
+	ep, stopchan := ud.findEndPoint(session)
 	if ep != nil {
-		ep.GetRxChannel() <- NewEndPointData().
+		select {
+		case ep.GetRxChannel() <- NewEndPointData().
 			SetConnection(context.GetConnection()).
-			SetData(message)
+			SetData(message):
+		case <-stopchan:
+			// nobody reads any more, do not block other endpoints
+		}
 	}
 }
 
-- 
2.43.0


From 1e7f428b171fb801b52c188f0503cfa0c41b3f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:54 +0000
Subject: [PATCH 19/32] fix: UStack: guard the endpoint, transport and listener
 lists against concurrent and nested changes

---
 ustack_default.go | 125 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 96 insertions(+), 29 deletions(-)

diff --git a/ustack_default.go b/ustack_default.go
index 01a87c6..1cb184c 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -4,7 +4,10 @@
 
 package ustack
 
-import "fmt"
+import (
+	"fmt"
+	"sync"
+)
 
 const (
 	defaultMTU int = 2048
@@ -88,6 +91,10 @@ type DefaultUStack struct {
 	overhead   int
 	lowerDeck  DataProcessor
 	listeners  []func(Event)
+	// protects endpoints, transports, listeners and changing
+	mutex sync.Mutex
+	// endpoints and transports which are just being added or deleted
+	changing map[interface{}]bool
 }
 
 // NewUStack ...
@@ -104,6 +111,7 @@ func NewUStack() UStack {
 		overhead:   0,
 		lowerDeck:  nil,
 		listeners:  nil,
+		changing:   make(map[interface{}]bool),
 	}
 }
 
@@ -191,13 +199,33 @@ func (u *DefaultUStack) GetFeatures() []Feature {
 	return u.features
 }
 
+// beginChange returns false if the endpoint or transport is already
+// in the wanted state or is just being changed
+func (u *DefaultUStack) beginChange(object interface{}, wanted bool) bool {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
+	exists := false
+	for _, endpoint := range u.endpoints {
+		exists = exists || endpoint == object
+	}
+	for _, transport := range u.transports {
+		exists = exists || transport == object
+	}
+
+	if exists == wanted || u.changing[object] {
+		return false
+	}
+
+	u.changing[object] = true
+	return true
+}
+
 // AddEndPoint ...
 func (u *DefaultUStack) AddEndPoint(ep EndPoint) UStack {
-	for _, endpoint := range u.endpoints {
-		if endpoint == ep {
-			// was added
-			return u
-		}
+	if !u.beginChange(ep, true) {
+		// was added
+		return u
 	}
 
 	u.PublishEvent(Event{
@@ -206,34 +234,50 @@ func (u *DefaultUStack) AddEndPoint(ep EndPoint) UStack {
 		Data:   ep,
 	})
 
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	u.endpoints = append(u.endpoints, ep)
+	delete(u.changing, ep)
 	return u
 }
 
 // DeleteEndPoint ...
 func (u *DefaultUStack) DeleteEndPoint(ep EndPoint) UStack {
+	if !u.beginChange(ep, false) {
+		// was deleted
+		return u
+	}
+
+	u.PublishEvent(Event{
+		Type:   UStackEventEndpointDeleted,
+		Source: u,
+		Data:   ep,
+	})
+
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	for i, endpoint := range u.endpoints {
 		if endpoint != ep {
 			continue
 		}
 
-		u.PublishEvent(Event{
-			Type:   UStackEventEndpointDeleted,
-			Source: u,
-			Data:   ep,
-		})
-
-		// delete
-		u.endpoints = append(u.endpoints[:i], u.endpoints[i+1:]...)
+		// delete, the old list may be in use
+		u.endpoints = append(append([]EndPoint{}, u.endpoints[:i]...), u.endpoints[i+1:]...)
 
 		break
 	}
 
+	delete(u.changing, ep)
 	return u
 }
 
 // GetEndPoint ...
 func (u *DefaultUStack) GetEndPoint() []EndPoint {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	return u.endpoints
 }
 
@@ -255,11 +299,9 @@ func (u *DefaultUStack) GetMTU() int {
 
 // AddTransport ...
 func (u *DefaultUStack) AddTransport(tp Transport) UStack {
-	for _, transport := range u.transports {
-		if transport == tp {
-			// was added
-			return u
-		}
+	if !u.beginChange(tp, true) {
+		// was added
+		return u
 	}
 
 	u.PublishEvent(Event{
@@ -268,49 +310,74 @@ func (u *DefaultUStack) AddTransport(tp Transport) UStack {
 		Data:   tp,
 	})
 
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	u.transports = append(u.transports, tp)
+	delete(u.changing, tp)
 	return u
 }
 
 // DeleteTransport ...
 func (u *DefaultUStack) DeleteTransport(tp Transport) UStack {
+	if !u.beginChange(tp, false) {
+		// was deleted
+		return u
+	}
+
+	u.mutex.Lock()
+
 	for i, transport := range u.transports {
 		if transport != tp {
 			continue
 		}
 
-		// delete
-		u.transports = append(u.transports[:i], u.transports[i+1:]...)
-
-		u.PublishEvent(Event{
-			Type:   UStackEventTransportDeleted,
-			Source: u,
-			Data:   tp,
-		})
+		// delete, the old list may be in use
+		u.transports = append(append([]Transport{}, u.transports[:i]...), u.transports[i+1:]...)
 
 		break
 	}
 
+	delete(u.changing, tp)
+	u.mutex.Unlock()
+
+	u.PublishEvent(Event{
+		Type:   UStackEventTransportDeleted,
+		Source: u,
+		Data:   tp,
+	})
+
 	return u
 }
 
 // GetTransport ...
 func (u *DefaultUStack) GetTransport() []Transport {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	return u.transports
 }
 
 // SetEventListener ...
 func (u *DefaultUStack) SetEventListener(listener func(Event)) UStack {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	u.listeners = append(u.listeners, listener)
 	return u
 }
 
 // PublishEvent ...
 func (u *DefaultUStack) PublishEvent(event Event) UStack {
-	for _, listener := range u.listeners {
+	u.mutex.Lock()
+	listeners := u.listeners
+	endpoints := u.endpoints
+	u.mutex.Unlock()
+
+	for _, listener := range listeners {
 		listener(event)
 	}
-	for _, endpoint := range u.endpoints {
+	for _, endpoint := range endpoints {
 		endpoint.OnEvent(event)
 	}
 	if u.upperDeck != nil {
-- 
2.43.0


From 2da178f20d2e781829f8787a58bb658e166a3f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:28 +0000
Subject: [PATCH 20/32] fix: TCPTransport, UDSTransport: stopping is safe at
 any moment and does not affect a later run

---
 tran_tcp.go  | 116 ++++++++++++++++++++++++++++++++++---------------
 tran_unix.go | 119 ++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 161 insertions(+), 74 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index ea70b73..885a935 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -98,6 +98,7 @@ type TCPTransport struct {
 	forServer   bool
 	connections []TransportConnection
 	next        chan TransportConnection
+	stopped     chan struct{}
 	// for server
 	listener net.Listener
 	// for client
@@ -135,19 +136,7 @@ func (t *TCPTransport) parseOptions() {
 func (t *TCPTransport) doInit() {
 	t.connections = make([]TransportConnection, 0)
 	t.next = make(chan TransportConnection, 16)
-}
-
-// saveConnections ...
-func (t *TCPTransport) saveConnection(tc TransportConnection) {
-	t.Lock()
-	defer t.Unlock()
-
-	for _, c := range t.connections {
-		if c == tc {
-			return
-		}
-	}
-	t.connections = append(t.connections, tc)
+	t.stopped = make(chan struct{})
 }
 
 // dropConnections ...
@@ -157,8 +146,37 @@ func (t *TCPTransport) dropConnections() {
 	}
 }
 
+// isCurrent checks if the run which was started with the channel is still going on
+func (t *TCPTransport) isCurrent(stopped chan struct{}) bool {
+	return t.isRunning && t.stopped == stopped
+}
+
+// handOver gives a connection to NextConnection, or closes it if the run was stopped
+func (t *TCPTransport) handOver(tc TransportConnection, next chan TransportConnection, stopped chan struct{}) {
+	t.Lock()
+	if !t.isCurrent(stopped) {
+		t.Unlock()
+		tc.Close()
+		return
+	}
+	t.connections = append(t.connections, tc)
+	t.Unlock()
+
+	select {
+	case next <- tc:
+	case <-stopped:
+	}
+}
+
 // accept ...
-func (t *TCPTransport) accept() {
+func (t *TCPTransport) accept(next chan TransportConnection, stopped chan struct{}) {
+	t.Lock()
+
+	if !t.isCurrent(stopped) {
+		t.Unlock()
+		return
+	}
+
 	listener, err := net.Listen("tcp", t.address)
 	if err != nil {
 		log.Fatal(err)
@@ -166,44 +184,55 @@ func (t *TCPTransport) accept() {
 
 	t.listener = listener
 
+	t.Unlock()
+
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := t.listener.Accept()
+		conn, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		t.next <- NewTCPTransportConnection(
-			next.RemoteAddr().String(),
-			next)
+		t.handOver(NewTCPTransportConnection(
+			conn.RemoteAddr().String(),
+			conn), next, stopped)
 	}
 
-	t.Stop()
+	t.stop(stopped)
 }
 
 // connect ...
-func (t *TCPTransport) connect() {
+func (t *TCPTransport) connect(next chan TransportConnection, stopped chan struct{}) {
+	t.Lock()
+	maxRetryCount := t.maxRetryCount
+	retryIntervalInSecond := t.retryIntervalInSecond
+	t.Unlock()
+
 	fmt.Println("Dial server ...")
 
-	for i := 0; i < t.maxRetryCount; i++ {
+	for i := 0; i < maxRetryCount; i++ {
 		connection, err := net.DialTimeout("tcp", t.address, time.Second)
 
 		if connection != nil && err == nil {
-			t.next <- NewTCPTransportConnection(
+			t.handOver(NewTCPTransportConnection(
 				connection.RemoteAddr().String(),
-				connection)
+				connection), next, stopped)
 			return
 		}
 
 		fmt.Println(err, "retry", i)
 
-		time.Sleep(time.Second * time.Duration(t.retryIntervalInSecond))
+		select {
+		case <-time.After(time.Second * time.Duration(retryIntervalInSecond)):
+		case <-stopped:
+			return
+		}
 	}
 
 	fmt.Println("Timeout to connect server")
 
-	t.Stop()
+	t.stop(stopped)
 }
 
 // ForServer ...
@@ -244,9 +273,17 @@ func (t *TCPTransport) GetAddress() string {
 
 // NextConnection ...
 func (t *TCPTransport) NextConnection() TransportConnection {
-	next := <-t.next
-	t.saveConnection(next)
-	return next
+	t.Lock()
+	nextchan := t.next
+	stopped := t.stopped
+	t.Unlock()
+
+	select {
+	case next := <-nextchan:
+		return next
+	case <-stopped:
+		return nil
+	}
 }
 
 // Run ...
@@ -264,20 +301,31 @@ func (t *TCPTransport) Run() Transport {
 	t.doInit()
 
 	if t.forServer {
-		go t.accept()
+		go t.accept(t.next, t.stopped)
 	} else {
-		go t.connect()
+		go t.connect(t.next, t.stopped)
 	}
 	return t
 }
 
 // Stop ...
 func (t *TCPTransport) Stop() Transport {
+	t.Lock()
+	stopped := t.stopped
+	t.Unlock()
+
+	t.stop(stopped)
+
+	return t
+}
+
+// stop ends the run which was started with the channel
+func (t *TCPTransport) stop(stopped chan struct{}) {
 	t.Lock()
 	defer t.Unlock()
 
-	if !t.isRunning {
-		return t
+	if !t.isCurrent(stopped) {
+		return
 	}
 
 	if t.listener != nil {
@@ -285,11 +333,9 @@ func (t *TCPTransport) Stop() Transport {
 		t.listener = nil
 	}
 
-	close(t.next)
+	close(t.stopped)
 
 	t.dropConnections()
 
 	t.isRunning = false
-
-	return t
 }
diff --git a/tran_unix.go b/tran_unix.go
index d1b5369..4cf4992 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -99,6 +99,7 @@ type UDSTransport struct {
 	forServer   bool
 	connections []TransportConnection
 	next        chan TransportConnection
+	stopped     chan struct{}
 	// for server
 	listener net.Listener
 	// for client
@@ -136,34 +137,47 @@ func (uds *UDSTransport) parseOptions() {
 func (uds *UDSTransport) doInit() {
 	uds.connections = make([]TransportConnection, 0)
 	uds.next = make(chan TransportConnection, 16)
+	uds.stopped = make(chan struct{})
 }
 
-// saveConnections ...
-func (uds *UDSTransport) saveConnection(tc TransportConnection) {
-	if tc == nil {
-		return
+// dropConnections ...
+func (uds *UDSTransport) dropConnections() {
+	for _, c := range uds.connections {
+		c.Close()
 	}
+}
 
-	uds.Lock()
-	defer uds.Unlock()
+// isCurrent checks if the run which was started with the channel is still going on
+func (uds *UDSTransport) isCurrent(stopped chan struct{}) bool {
+	return uds.isRunning && uds.stopped == stopped
+}
 
-	for _, c := range uds.connections {
-		if c == tc {
-			return
-		}
+// handOver gives a connection to NextConnection, or closes it if the run was stopped
+func (uds *UDSTransport) handOver(tc TransportConnection, next chan TransportConnection, stopped chan struct{}) {
+	uds.Lock()
+	if !uds.isCurrent(stopped) {
+		uds.Unlock()
+		tc.Close()
+		return
 	}
 	uds.connections = append(uds.connections, tc)
-}
+	uds.Unlock()
 
-// dropConnections ...
-func (uds *UDSTransport) dropConnections() {
-	for _, c := range uds.connections {
-		c.Close()
+	select {
+	case next <- tc:
+	case <-stopped:
 	}
 }
 
 // accept ...
-func (uds *UDSTransport) accept() {
+func (uds *UDSTransport) accept(next chan TransportConnection, stopped chan struct{}) {
+	uds.Lock()
+
+	if !uds.isCurrent(stopped) {
+		uds.Unlock()
+		return
+	}
+
 	os.Remove(uds.filename)
 
 	listener, err := net.Listen("unix", uds.filename)
@@ -171,47 +185,56 @@ func (uds *UDSTransport) accept() {
 		log.Fatal(err)
 	}
 
-	defer os.Remove(uds.filename)
-
 	uds.listener = listener
 
+	uds.Unlock()
+
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := uds.listener.Accept()
+		conn, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		uds.next <- NewUDSTransportConnection(
-			next.RemoteAddr().String(),
-			next)
+		uds.handOver(NewUDSTransportConnection(
+			conn.RemoteAddr().String(),
+			conn), next, stopped)
 	}
 
-	uds.Stop()
+	uds.stop(stopped)
 }
 
 // connect ...
-func (uds *UDSTransport) connect() {
+func (uds *UDSTransport) connect(next chan TransportConnection, stopped chan struct{}) {
+	uds.Lock()
+	maxRetryCount := uds.maxRetryCount
+	retryIntervalInSecond := uds.retryIntervalInSecond
+	uds.Unlock()
+
 	fmt.Println("Dial server ...")
 
-	for i := 0; i < uds.maxRetryCount; i++ {
+	for i := 0; i < maxRetryCount; i++ {
 		connection, err := net.DialTimeout("unix", uds.filename, time.Second)
 
 		if connection != nil && err == nil {
-			uds.next <- NewUDSTransportConnection(
+			uds.handOver(NewUDSTransportConnection(
 				connection.RemoteAddr().String(),
-				connection)
+				connection), next, stopped)
 			return
 		}
 
 		fmt.Println(err, "retry", i+1)
 
-		time.Sleep(time.Second * time.Duration(uds.retryIntervalInSecond))
+		select {
+		case <-time.After(time.Second * time.Duration(retryIntervalInSecond)):
+		case <-stopped:
+			return
+		}
 	}
 
 	fmt.Println("Timeout to connect server")
-	uds.Stop()
+	uds.stop(stopped)
 }
 
 // ForServer ...
@@ -252,9 +275,17 @@ func (uds *UDSTransport) GetAddress() string {
 
 // NextConnection ...
 func (uds *UDSTransport) NextConnection() TransportConnection {
-	next := <-uds.next
-	uds.saveConnection(next)
-	return next
+	uds.Lock()
+	nextchan := uds.next
+	stopped := uds.stopped
+	uds.Unlock()
+
+	select {
+	case next := <-nextchan:
+		return next
+	case <-stopped:
+		return nil
+	}
 }
 
 // Run ...
@@ -272,32 +303,42 @@ func (uds *UDSTransport) Run() Transport {
 	uds.doInit()
 
 	if uds.forServer {
-		go uds.accept()
+		go uds.accept(uds.next, uds.stopped)
 	} else {
-		go uds.connect()
+		go uds.connect(uds.next, uds.stopped)
 	}
 	return uds
 }
 
 // Stop ...
 func (uds *UDSTransport) Stop() Transport {
+	uds.Lock()
+	stopped := uds.stopped
+	uds.Unlock()
+
+	uds.stop(stopped)
+
+	return uds
+}
+
+// stop ends the run which was started with the channel
+func (uds *UDSTransport) stop(stopped chan struct{}) {
 	uds.Lock()
 	defer uds.Unlock()
 
-	if !uds.isRunning {
-		return uds
+	if !uds.isCurrent(stopped) {
+		return
 	}
 
 	if uds.listener != nil {
 		uds.listener.Close()
 		uds.listener = nil
+		os.Remove(uds.filename)
 	}
 
-	close(uds.next)
+	close(uds.stopped)
 
 	uds.dropConnections()
 
 	uds.isRunning = false
-
-	return uds
 }
-- 
2.43.0


From ac6007b97cfe3733b5d0a5a3bd8ea60dcc7a0fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:12 +0000
Subject: [PATCH 21/32] fix: ReferenceTransport: stop works, at any moment, and
 ends the waits

---
 tran_reference.go | 67 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/tran_reference.go b/tran_reference.go
index e1ebfe2..de23c94 100644
--- a/tran_reference.go
+++ b/tran_reference.go
@@ -48,20 +48,14 @@ func newReferenceChannel(size int) *referenceChannel {
 	}
 }
 
-// deleteReferenceChannel ...
-func deleteReferenceChannel(smc *referenceChannel) {
-	if smc != nil {
-		close(smc.serverTxClientRx)
-		close(smc.serverRxClientTx)
-	}
-}
-
 // ReferenceTransportConnection ...
 type ReferenceTransportConnection struct {
 	name      string
 	forServer bool
 	closed    bool
 	channel   *referenceChannel
+	once      sync.Once
+	done      chan struct{}
 }
 
 // NewReferenceTransportConnection ...
@@ -75,6 +69,7 @@ func NewReferenceTransportConnection(
 		forServer: forServer,
 		closed:    false,
 		channel:   channel,
+		done:      make(chan struct{}),
 	}
 }
 
@@ -107,13 +102,17 @@ func (c *ReferenceTransportConnection) GetReference() (p interface{}, err error)
 
 	var data interface{}
 
+	rx := c.channel.serverTxClientRx
 	if c.forServer {
-		data = <-c.channel.serverRxClientTx
-	} else {
-		data = <-c.channel.serverTxClientRx
+		rx = c.channel.serverRxClientTx
 	}
 
-	return data, nil
+	select {
+	case data = <-rx:
+		return data, nil
+	case <-c.done:
+		return nil, errors.New("GetReference: connection is closed")
+	}
 }
 
 // SetReference ...
@@ -127,18 +126,23 @@ func (c *ReferenceTransportConnection) SetReference(p interface{}) error {
 		return errors.New("SetReference: null input")
 	}
 
+	tx := c.channel.serverRxClientTx
 	if c.forServer {
-		c.channel.serverTxClientRx <- p
-	} else {
-		c.channel.serverRxClientTx <- p
+		tx = c.channel.serverTxClientRx
 	}
 
-	return nil
+	select {
+	case tx <- p:
+		return nil
+	case <-c.done:
+		return errors.New("SetReference: connection is closed")
+	}
 }
 
 // Close ...
 func (c *ReferenceTransportConnection) Close() {
 	c.closed = true
+	c.once.Do(func() { close(c.done) })
 }
 
 // Closed ...
@@ -156,6 +160,7 @@ type ReferenceTransport struct {
 	forServer  bool
 	connection TransportConnection
 	next       chan TransportConnection
+	stopped    chan struct{}
 	queueSize  int
 }
 
@@ -219,9 +224,17 @@ func (sm *ReferenceTransport) GetAddress() string {
 
 // NextConnection ...
 func (sm *ReferenceTransport) NextConnection() TransportConnection {
-	next := <-sm.next
-	sm.connection = next
-	return sm.connection
+	sm.Lock()
+	nextchan := sm.next
+	stopped := sm.stopped
+	sm.Unlock()
+
+	select {
+	case next := <-nextchan:
+		return next
+	case <-stopped:
+		return nil
+	}
 }
 
 // Two Transports(Client side and Server side) should use the same
@@ -239,6 +252,8 @@ func (sm *ReferenceTransport) Run() Transport {
 		return sm
 	}
 
+	sm.isRunning = true
+
 	sm.parseOptions()
 
 	mutex.Lock()
@@ -253,7 +268,14 @@ func (sm *ReferenceTransport) Run() Transport {
 
 	ch.refCount++
 
-	sm.next <- NewReferenceTransportConnection(sm.name, sm.forServer, ch)
+	sm.connection = NewReferenceTransportConnection(sm.name, sm.forServer, ch)
+	sm.stopped = make(chan struct{})
+	// drop the connection of previous run if nobody took it
+	select {
+	case <-sm.next:
+	default:
+	}
+	sm.next <- sm.connection
 
 	mutex.Unlock()
 
@@ -269,6 +291,10 @@ func (sm *ReferenceTransport) Stop() Transport {
 		return sm
 	}
 
+	sm.isRunning = false
+
+	close(sm.stopped)
+
 	sm.connection.Close()
 
 	mutex.Lock()
@@ -279,7 +305,6 @@ func (sm *ReferenceTransport) Stop() Transport {
 
 		if ch.refCount == 0 {
 			delete(chans, sm.address)
-			deleteReferenceChannel(ch)
 		}
 	}
 
-- 
2.43.0


From b7dfcfbe66bca4f6384d2b714e93e22cb55d61a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:12 +0000
Subject: [PATCH 22/32] fix: EndPoint: at most one goroutine passes data to the
 listener

---
 endp_default.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/endp_default.go b/endp_default.go
index 67ca2aa..d94d4c6 100644
--- a/endp_default.go
+++ b/endp_default.go
@@ -4,6 +4,8 @@
 
 package ustack
 
+import "sync"
+
 // DefaultEndPointData ...
 type DefaultEndPointData struct {
 	connection            TransportConnection
@@ -76,19 +78,24 @@ type DefaultEndPoint struct {
 	eventListener func(EndPoint, Event)
 	dataListener  func(EndPoint, EndPointData)
 	inAutoReceive bool
+	// protects dataListener and inAutoReceive
+	mutex sync.Mutex
 }
 
 // autoReceive ...
 func (ep *DefaultEndPoint) autoReceive() {
-	if ep.dataListener != nil {
-		ep.inAutoReceive = true
-		for epd := range ep.rxChannel {
-			if ep.dataListener == nil {
-				ep.inAutoReceive = false
-				return
-			}
-			ep.dataListener(ep, epd)
+	for epd := range ep.rxChannel {
+		ep.mutex.Lock()
+		listener := ep.dataListener
+		if listener == nil {
+			ep.inAutoReceive = false
+		}
+		ep.mutex.Unlock()
+
+		if listener == nil {
+			return
 		}
+		listener(ep, epd)
 	}
 }
 
@@ -113,8 +120,12 @@ func (ep *DefaultEndPoint) SetEventListener(listener func(EndPoint, Event)) EndP
 
 // SetDataListener ...
 func (ep *DefaultEndPoint) SetDataListener(listener func(EndPoint, EndPointData)) EndPoint {
+	ep.mutex.Lock()
+	defer ep.mutex.Unlock()
+
 	ep.dataListener = listener
-	if !ep.inAutoReceive {
+	if listener != nil && !ep.inAutoReceive {
+		ep.inAutoReceive = true
 		go ep.autoReceive()
 	}
 	return ep
-- 
2.43.0


From c3043e199a9f40a8c0371baaf4aed2d323796d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:12 +0000
Subject: [PATCH 23/32] fix: StatCounter: count with atomic operations

---
 proc_stat_counter.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 06e8556..bbef7c8 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -6,6 +6,7 @@ package ustack
 
 import (
 	"fmt"
+	"sync/atomic"
 	"time"
 )
 
@@ -52,7 +53,7 @@ func (sc *StatCounter) OnUpperData(context Context) {
 	}
 
 	if sc.enable {
-		sc.txCounter++
+		atomic.AddUint64(&sc.txCounter, 1)
 		// fmt.Println("StatCounter: txCounter:", sc.txCounter)
 	}
 
@@ -86,8 +87,8 @@ func (sc *StatCounter) response(context Context) {
 
 	ub.WriteHeadByte(StatCounterSelfMessageResTag)
 
-	ub.WriteU64BE(sc.txCounter)
-	ub.WriteU64BE(sc.rxCounter)
+	ub.WriteU64BE(atomic.LoadUint64(&sc.txCounter))
+	ub.WriteU64BE(atomic.LoadUint64(&sc.rxCounter))
 
 	ub.Write([]byte(sc.ustack.GetName()))
 
@@ -137,7 +138,7 @@ func (sc *StatCounter) OnLowerData(context Context) {
 			sc.show(context)
 			return
 		} else {
-			sc.rxCounter++
+			atomic.AddUint64(&sc.rxCounter, 1)
 			// fmt.Println("StatCounter: rxCounter:", sc.rxCounter)
 		}
 	}
-- 
2.43.0


From e05eab5f01d2f6ef915d0a078df6109e4a5361cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:13 +0000
Subject: [PATCH 24/32] fix: Heartbeat, StatCounter: do not close reference
 connections by sending them no reference

---
 proc_heartbeat.go    | 5 +++++
 proc_stat_counter.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 9e4f2a8..9eda7ee 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -144,6 +144,11 @@ func (hb *Heartbeat) OnEvent(event Event) {
 		interval := hb.intervalInSecond
 		connection := event.Data.(TransportConnection)
 
+		// a heartbeat can not be sent as reference
+		if connection.UseReference() {
+			return
+		}
+
 		hb.updateMonitor(connection)
 
 		go func() {
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index bbef7c8..d9f7301 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -157,6 +157,11 @@ func (sc *StatCounter) OnEvent(event Event) {
 
 		connection := event.Data.(TransportConnection)
 
+		// a request can not be sent as reference
+		if connection.UseReference() {
+			return
+		}
+
 		go func() {
 			for {
 				if connection.Closed() {
-- 
2.43.0


From 1d45097607335fbc5d5349a54770f7cd3af80e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:13 +0000
Subject: [PATCH 25/32] fix: Heartbeat: a closed connection is not reported as
 lost

---
 proc_heartbeat.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 9eda7ee..4a2c198 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -66,6 +66,11 @@ func (hb *Heartbeat) check() {
 	}
 
 	for connection, lastTime := range hb.monitors {
+		if connection.Closed() {
+			delete(hb.monitors, connection)
+			continue
+		}
+
 		if int(time.Since(lastTime).Seconds()) < hb.timeoutInSecond {
 			continue
 		}
-- 
2.43.0


From 5e5fa6bd35881adbc6bd4d1364645206975bfd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:13 +0000
Subject: [PATCH 26/32] fix: Heartbeat: publish lost events without holding the
 lock

---
 proc_heartbeat.go | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 4a2c198..a9e80e0 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -58,12 +58,27 @@ func (hb *Heartbeat) deleteMonitor(connection TransportConnection) {
 
 // deleteMonitor ...
 func (hb *Heartbeat) check() {
+	for _, connection := range hb.takeLost() {
+		fmt.Println("Heartbeat: connection", connection.GetName(), "lost")
+
+		if hb.closeOnLost {
+			connection.Close()
+		}
+
+		hb.ustack.PublishEvent(Event{
+			Type:   UStackEventHeartbeatLost,
+			Source: hb,
+			Data:   connection,
+		})
+	}
+}
+
+// takeLost removes lost connections from the monitors and returns them
+func (hb *Heartbeat) takeLost() []TransportConnection {
 	hb.mutex.Lock()
 	defer hb.mutex.Unlock()
 
-	if len(hb.monitors) == 0 {
-		return
-	}
+	var lost []TransportConnection
 
 	for connection, lastTime := range hb.monitors {
 		if connection.Closed() {
@@ -75,20 +90,12 @@ func (hb *Heartbeat) check() {
 			continue
 		}
 
-		fmt.Println("Heartbeat: connection", connection.GetName(), "lost")
-
 		delete(hb.monitors, connection)
 
-		if hb.closeOnLost {
-			connection.Close()
-		}
-
-		hb.ustack.PublishEvent(Event{
-			Type:   UStackEventHeartbeatLost,
-			Source: hb,
-			Data:   connection,
-		})
+		lost = append(lost, connection)
 	}
+
+	return lost
 }
 
 // GetOverhead returns the overhead
-- 
2.43.0


From b341270456ce6e053b8db0e076952811c8fa3ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:31 +0000
Subject: [PATCH 27/32] fix: a deleted transport can not be added again before
 it was stopped

---
 ustack_default.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ustack_default.go b/ustack_default.go
index 1cb184c..2ca804b 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -338,7 +338,6 @@ func (u *DefaultUStack) DeleteTransport(tp Transport) UStack {
 		break
 	}
 
-	delete(u.changing, tp)
 	u.mutex.Unlock()
 
 	u.PublishEvent(Event{
@@ -347,6 +346,10 @@ func (u *DefaultUStack) DeleteTransport(tp Transport) UStack {
 		Data:   tp,
 	})
 
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
+	delete(u.changing, tp)
 	return u
 }
 
-- 
2.43.0


From cc11a046c2243d62327ee5d526595bfe8e39976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:12 +0000
Subject: [PATCH 28/32] fix: UDSTransport: stopping does not remove the socket
 file of an address set meanwhile

---
 tran_unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tran_unix.go b/tran_unix.go
index 4cf4992..225d4bd 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -331,9 +331,9 @@ func (uds *UDSTransport) stop(stopped chan struct{}) {
 	}
 
 	if uds.listener != nil {
+		// this removes the socket file too
 		uds.listener.Close()
 		uds.listener = nil
-		os.Remove(uds.filename)
 	}
 
 	close(uds.stopped)
-- 
2.43.0


From 633db9d0536efeadf32fbd0af031bb065ec3a52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:12 +0000
Subject: [PATCH 29/32] fix: ReferenceTransport: stopping releases the address
 it was started with

---
 tran_reference.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tran_reference.go b/tran_reference.go
index de23c94..afc9734 100644
--- a/tran_reference.go
+++ b/tran_reference.go
@@ -156,6 +156,7 @@ type ReferenceTransport struct {
 	options map[string]interface{}
 	sync.Mutex
 	address    string
+	runAddress string
 	isRunning  bool
 	forServer  bool
 	connection TransportConnection
@@ -258,12 +259,15 @@ func (sm *ReferenceTransport) Run() Transport {
 
 	mutex.Lock()
 
+	// the address may be changed before stop
+	sm.runAddress = sm.address
+
 	// check if some Transport have created
-	ch, ok := chans[sm.address]
+	ch, ok := chans[sm.runAddress]
 	if !ok {
 		// not found, create new one
 		ch = newReferenceChannel(sm.queueSize)
-		chans[sm.address] = ch
+		chans[sm.runAddress] = ch
 	}
 
 	ch.refCount++
@@ -299,12 +303,12 @@ func (sm *ReferenceTransport) Stop() Transport {
 
 	mutex.Lock()
 
-	ch, ok := chans[sm.address]
+	ch, ok := chans[sm.runAddress]
 	if ok {
 		ch.refCount--
 
 		if ch.refCount == 0 {
-			delete(chans, sm.address)
+			delete(chans, sm.runAddress)
 		}
 	}
 
-- 
2.43.0


From b2439eda7e6126a21ff64a8f1130421cc296ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:42 +0000
Subject: [PATCH 30/32] fix: UpperDeck: an endpoint sends with the session it
 was given last

---
 proc_upperdeck.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index f4dc7a7..226fa69 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -42,7 +42,6 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	ended := make(chan bool)
 	ud.senders[ep] = ended
 
-	session := ep.GetSession()
 	txchan := ep.GetTxChannel()
 	lower := ud.lower
 
@@ -61,7 +60,8 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 			case <-stopchan:
 				return
 			case epd := <-txchan:
-				destinationSession := session
+				// the session may have been changed
+				destinationSession := ep.GetSession()
 				if epd.HasDestinationSession() {
 					destinationSession = epd.GetDestinationSession()
 				}
-- 
2.43.0


From 733882dafc4d831d5de76aea3c3cd4285727cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:16 +0000
Subject: [PATCH 31/32] fix: StatCounter: a disabled counter does not deliver
 collect requests and responses upward

---
 proc_stat_counter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index d9f7301..00d2718 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -141,6 +141,9 @@ func (sc *StatCounter) OnLowerData(context Context) {
 			atomic.AddUint64(&sc.rxCounter, 1)
 			// fmt.Println("StatCounter: rxCounter:", sc.rxCounter)
 		}
+	} else if tag == StatCounterSelfMessageReqTag || tag == StatCounterSelfMessageResTag {
+		// not a message of the uplayer
+		return
 	}
 
 	sc.upper.OnLowerData(context)
-- 
2.43.0


From e54df1f74216e6bdda499bb724378b2df4bc1b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:34 +0000
Subject: [PATCH 32/32] fix: LowerDeck: data that is read together with an
 error is delivered before closing

---
 proc_lowerdeck.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index e464f05..c65f652 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -118,7 +118,7 @@ func (ld *LowerDeck) acceptTransport(tp Transport) {
 						ub := UBufAlloc(ld.ustack.GetMTU())
 
 						n, err := ub.ReadFrom(connection)
-						if n == 0 || err != nil {
+						if n == 0 {
 							ld.closeConnection(connection)
 							return
 						}
@@ -127,6 +127,11 @@ func (ld *LowerDeck) acceptTransport(tp Transport) {
 							NewUStackContext().
 								SetConnection(connection).
 								SetBuffer(ub))
+						// the last data may come together with an error
+						if err != nil {
+							ld.closeConnection(connection)
+							return
+						}
 					}
 				}
 			}()
-- 
2.43.0

