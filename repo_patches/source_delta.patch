From 37bfe9b6e1c7c9837aaa6634563d9c970c21f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 01/35] fix: serialize insertion of new keys

Concurrent Set/StoreItem of keys which are not stored yet lost items, linked them
out of order or twice, and paniced on splitting a bucket. Look up again and add
under a mutex. Get and update of a stored key don't take it.
---
 map.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/map.go b/map.go
index ce5b69c..ca36e98 100644
--- a/map.go
+++ b/map.go
@@ -53,6 +53,7 @@ type Map struct {
 
 	modeForBucket SearchMode
 	mu            sync.Mutex
+	muInsert      sync.Mutex // serialize adding new items. lookup and update don't take it
 	levels        [16]atomic.Value
 
 	ItemFn func() MapItem
@@ -609,6 +610,15 @@ func (h *Map) Set(key, value interface{}) bool {
 		}
 	}
 
+	// an other goroutine may have added the key or may be adding near it.
+	if !h.isEmbededItemInBucket {
+		h.muInsert.Lock()
+		defer h.muInsert.Unlock()
+		if item, bucket, found = h._loadItem(0, 0, key); found {
+			return h._update(item, value)
+		}
+	}
+
 	var s *SampleItem
 	useDump := false
 
@@ -713,6 +723,14 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	if !h.isEmbededItemInBucket {
+		h.muInsert.Lock()
+		defer h.muInsert.Unlock()
+		if oitem, bucket, found = h._loadItem(k, conflict, nil); found {
+			return h._update(oitem, item.Value())
+		}
+	}
+
 	return h._set(k, conflict, bucket, item)
 }
 
-- 
2.43.0


From 4b9b6e773af864af6cc7772e521d40ab9a7b7d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 02/35] fix: do not start lookup from a bucket under
 construction

Get running while an other goroutine splits a bucket could pick the new bucket
before it is linked: stored key was reported as not found, or nil pointer was
dereferenced.
---
 map.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index ca36e98..4c393c5 100644
--- a/map.go
+++ b/map.go
@@ -1685,7 +1685,8 @@ func (h *Map) FindBucket(reverse uint64) (b *bucket) {
 
 func (h *Map) findBucket(reverse uint64) (b *bucket) {
 
-	return h._findBucket(reverse, false, false)
+	// bucket on splitting is not connected yet. should not start to search from it.
+	return h._findBucket(reverse, false, !h.isEmbededItemInBucket)
 }
 
 func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy bool) (b *bucket) {
@@ -1830,7 +1831,7 @@ func (h *Map) bucketFromPool(reverse uint64, opts ...cOptFn) (b *bucket, onOk fu
 				}
 			}
 			lCur.LevelHead.InsertBefore(&downLevels[0].LevelHead)
-			downLevels[0].state = bucketStateInit
+			downLevels[0].state = bucketStateActive // alias of b
 			// if idx != 0 && !h.isEmbededItemInBucket {
 			// 	h.add2(b.head(), &b.downLevels[0].dummy)
 			// }
-- 
2.43.0


From 53802ba2fe369c43900a020d6dc4083ac0f5a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 03/35] fix: keep a reference of items for gc

Items which are not in a pool are referred only by relative address of the item
list, so garbage collector frees them while they are stored in the map.
---
 map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/map.go b/map.go
index 4c393c5..a359410 100644
--- a/map.go
+++ b/map.go
@@ -50,6 +50,7 @@ type Map struct {
 	maxPerBucket int
 	head         *elist_head.ListHead
 	tail         *elist_head.ListHead
+	items        []MapItem // keep reference of item. link of list is relative address, which gc ignores.
 
 	modeForBucket SearchMode
 	mu            sync.Mutex
@@ -693,6 +694,7 @@ func (h *Map) Set(key, value interface{}) bool {
 		}
 	} else {
 		s = &SampleItem{}
+		h.items = append(h.items, s)
 	}
 
 	s.K = key.(string)
@@ -729,6 +731,7 @@ func (h *Map) StoreItem(item MapItem) bool {
 		if oitem, bucket, found = h._loadItem(k, conflict, nil); found {
 			return h._update(oitem, item.Value())
 		}
+		h.items = append(h.items, item)
 	}
 
 	return h._set(k, conflict, bucket, item)
-- 
2.43.0


From cf40a23567aa191bd4b2b57a3bf498b16c48a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 04/35] fix: do not move items on expanding pool

Items were copied to a new slice while other goroutines read, traverse or update
them: updates were lost, traversal followed broken links, and an item got by
LoadItem() was no longer in the map. Add a new slice to the chain of pools.
---
 pool2.go | 68 +++++++-------------------------------------------------
 1 file changed, 8 insertions(+), 60 deletions(-)

diff --git a/pool2.go b/pool2.go
index 5a7cbe6..f5a4881 100644
--- a/pool2.go
+++ b/pool2.go
@@ -288,76 +288,24 @@ func (sp *samepleItemPool) _expand() (*samepleItemPool, error) {
 	sp.mu.Lock()
 	defer sp.mu.Unlock()
 
+	if nsp := sp.DirectNext(); nsp.DirectNext() != nsp {
+		return samepleItemPoolFromListHead(nsp), nil
+	}
+
 	olen := len(sp.items)
 	empty := elist_head.ListHead{}
 	if sp.items[olen-1].ListHead == empty {
 		Log(LogError, "last item must not be empty")
 	}
 
+	// items of sp are in use by reader, updater and item list. must not move them.
 	nPool := &samepleItemPool{}
-	_ = nPool
-	var e error
-	var pOpts []list_head.TravOpt
-	var next *list_head.ListHead
-	a := samepleItemPool{}
-	if sp.ListHead == a.ListHead {
-		goto NO_DELETE
-	}
-	next = sp.Next()
-	pOpts = list_head.DefaultModeTraverse.Option(list_head.WaitNoM())
-	e = sp.MarkForDelete()
-	if e != nil {
-		return nil, EPoolAlreadyDeleted
-	}
-NO_DELETE:
-
 	elist_head.InitAsEmpty(&nPool.freeHead, &nPool.freeTail)
-
-	nCap := PoolCap(len(sp.items))
-
-	nPool.items = make([]SampleItem, 0, nCap)
-	nPool.items = append(nPool.items, sp.items...)
-
-	// for debugging
-	var outers []unsafe.Pointer
-	var b strings.Builder
-	if IsDebug() {
-		outers = elist_head.OuterPtrs(
-			unsafe.Pointer(&sp.items[0]),
-			unsafe.Pointer(&sp.items[len(sp.items)-1]),
-			unsafe.Pointer(&nPool.items[0]),
-			int(SampleItemSize),
-			int(SampleItemOffsetOf))
-		sp.DumpExpandInfo(&b, outers, "B:rewrite reverse=0x%x\n", &sp.items[0].reverse)
-	}
-
-	err := elist_head.RepaireSliceAfterCopy(
-		unsafe.Pointer(&sp.items[0]),
-		unsafe.Pointer(&sp.items[len(sp.items)-1]),
-		unsafe.Pointer(&nPool.items[0]),
-		int(SampleItemSize),
-		int(SampleItemOffsetOf))
-
-	if err != nil {
-		return nil, EPoolExpandFail
-	}
-
-	// for debugging
-	if IsDebug() {
-		sp.DumpExpandInfo(&b, outers, "A:rewrite reverse=0x%x\n", &sp.items[0].reverse)
-		fmt.Println(b.String())
-	}
-
+	nPool.items = make([]SampleItem, 0, PoolCap(len(sp.items)))
 	nPool.Init()
 
-	//FIXME: check
-	next.InsertBefore(&nPool.ListHead)
-	list_head.DefaultModeTraverse.Option(pOpts...)
-	if ok, _ := sp.IsSafety(); ok {
-		sp.Init()
-	} else {
-		sp.IsSafety()
-		Log(LogWarn, "old sampleItem pool is not safety")
+	if _, err := sp.DirectNext().InsertBefore(&nPool.ListHead); err != nil {
+		return nil, EPoolExpandFail
 	}
 	return nPool, nil
 }
-- 
2.43.0


From 2fee38c85db7c8754e85346044a1a9c8b8b590d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 05/35] fix: find all of keys having the same hash

Only the item nearest to the bucket was compared with conflict, so an other key
of the same hash could be stored but not be found, updated nor deleted.
---
 map.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index a359410..3c2bb42 100644
--- a/map.go
+++ b/map.go
@@ -459,7 +459,10 @@ func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 		}
 		return nil, false
 	}
-	if e.PtrMapHead().reverse != bits.Reverse64(k) || e.PtrMapHead().conflict != conflict {
+	if e.PtrMapHead().reverse != bits.Reverse64(k) {
+		return nil, false
+	}
+	if e = selectByConflict(e, conflict); e == nil {
 		return nil, false
 	}
 	return e.(MapItem), true
@@ -499,7 +502,7 @@ func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 	if ereverse := atomic.LoadUint64(&e.PtrMapHead().reverse); ereverse != bits.Reverse64(k) {
 		return nil, bucket, false
 	}
-	if econflict := atomic.LoadUint64(&e.PtrMapHead().conflict); econflict != conflict {
+	if e = selectByConflict(e, conflict); e == nil {
 		return nil, bucket, false
 	}
 
@@ -507,6 +510,25 @@ func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 
 }
 
+// selectByConflict ... items of same hash are placed side by side. select the item by conflict.
+func selectByConflict(e HMapEntry, conflict uint64) HMapEntry {
+	start := e.PtrMapHead()
+	if start.conflict == conflict {
+		return e
+	}
+	for cur := start.NextWithNil(); cur != nil && cur.reverse == start.reverse; cur = cur.NextWithNil() {
+		if !cur.IsIgnored() && cur.conflict == conflict {
+			return e.HmapEntryFromListHead(cur.PtrListHead())
+		}
+	}
+	for cur := start.PrevtWithNil(); cur != nil && cur.reverse == start.reverse; cur = cur.PrevtWithNil() {
+		if !cur.IsIgnored() && cur.conflict == conflict {
+			return e.HmapEntryFromListHead(cur.PtrListHead())
+		}
+	}
+	return nil
+}
+
 func (h *Map) notHaveBuckets() bool {
 	return h.tailBucket.Next().Prev().Empty()
 }
-- 
2.43.0


From 9f38472e144c49b212adf2a42421bbdb8962afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 06/35] fix: find a key whose reversed hash is on the boundary
 of buckets

The key equal to the reverse of a bucket was placed behind the dummy of the bucket
but searched before it, and the largest one was refused by the order check.
---
 map.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/map.go b/map.go
index 3c2bb42..0af0bcb 100644
--- a/map.go
+++ b/map.go
@@ -983,6 +983,9 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 		if !e.PtrListHead().IsSingle() {
 			Log(LogWarn, "add2: element for insertion  is not single ")
 		}
+		if e.PtrMapHead().IsDummy() && e.PtrMapHead().reverse == ehead.PtrMapHead().reverse {
+			return true
+		}
 		return e.PtrMapHead().reverse < ehead.PtrMapHead().reverse
 	}, ignoreBucketEntry(false))
 	if !e.PtrListHead().IsSingle() {
@@ -1045,7 +1048,7 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 
 		return true
 	}
-	if opt != nil && opt.bucket != nil && opt.bucket.entry(h) != nil {
+	if opt != nil && opt.bucket != nil && e.PtrMapHead().reverse != ^uint64(0) && opt.bucket.entry(h) != nil {
 		// pos, _ = h.find(start, func(ehead HMapEntry) bool {
 		// 	return e.PtrMapHead().reverse < ehead.PtrMapHead().reverse
 		// }, ignoreBucketEntry(false))
@@ -1072,7 +1075,7 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 		return e.PtrMapHead().reverse < ehead.PtrMapHead().reverse
 	}, ignoreBucketEntry(false))
 
-	inserBeforeWithCheck(h.tail.Prev(), e.PtrListHead())
+	h.tail.InsertBefore(e.PtrListHead())
 	return true
 }
 
@@ -1518,7 +1521,8 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 		lbNext = lbCur.NextOnLevel()
 	}
 
-	if lbNext.reverse < reverseNoMask {
+	// items having the same reverse as bucket are behind of dummy of bucket
+	if lbNext.reverse <= reverseNoMask {
 		result := lbNext.entry(h)
 
 		// FIXME: why fail to get
-- 
2.43.0


From fe8bdb35ae26e13246494fddb31c65ea44cf8553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 07/35] fix: StoreItem() of SampleItem without ItemFn option

Items were interpreted as entryHMap unless Set() had been called before, so
Get(), LoadItem() and Range() after StoreItem() returned garbage or crashed.
---
 map.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/map.go b/map.go
index 0af0bcb..9fc9d08 100644
--- a/map.go
+++ b/map.go
@@ -722,11 +722,7 @@ func (h *Map) Set(key, value interface{}) bool {
 	s.K = key.(string)
 	s.SetValue(value)
 
-	if _, ok := h.ItemFn().(*SampleItem); !ok {
-		ItemFn(func() MapItem {
-			return EmptySampleHMapEntry
-		})(h)
-	}
+	h.useSampleItem()
 
 	k, conflict := KeyToHash(s.K)
 	if h.isEmbededItemInBucket {
@@ -738,6 +734,15 @@ func (h *Map) Set(key, value interface{}) bool {
 	return h._set(k, conflict, bucket, s)
 }
 
+// useSampleItem ... set ItemFn() for SampleItem.
+func (h *Map) useSampleItem() {
+	if _, ok := h.ItemFn().(*SampleItem); !ok {
+		ItemFn(func() MapItem {
+			return EmptySampleHMapEntry
+		})(h)
+	}
+}
+
 // StoreItem ... set key/value item with embedded-linked-list
 func (h *Map) StoreItem(item MapItem) bool {
 	k, conflict := item.KeyHash()
@@ -755,6 +760,9 @@ func (h *Map) StoreItem(item MapItem) bool {
 		}
 		h.items = append(h.items, item)
 	}
+	if _, ok := item.(*SampleItem); ok {
+		h.useSampleItem()
+	}
 
 	return h._set(k, conflict, bucket, item)
 }
-- 
2.43.0


From 311293721078cfd312f17546c625f5aff78e4f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 08/35] fix: search option shared by all of maps

Searches turned ignoring dummy items on and off in a global variable, so insertions
into two independent maps by two goroutines lost keys or paniced.
---
 map.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/map.go b/map.go
index 9fc9d08..9c17871 100644
--- a/map.go
+++ b/map.go
@@ -790,14 +790,7 @@ func (h *Map) each(start *elist_head.ListHead, fn func(key, value interface{}))
 // must renename to find
 func (h *Map) find(start *elist_head.ListHead, cond func(HMapEntry) bool, opts ...searchArg) (result HMapEntry, cnt int) {
 
-	conf := sharedSearchOpt(nil)
-	previous := conf.Options(opts...)
-	defer func() {
-		if previous != nil {
-			conf.Options(previous)
-			sharedSearchOpt(conf)
-		}
-	}()
+	conf := newSearchOpt(opts...)
 	cnt = 0
 	var e MapItem
 	if start.Empty() {
@@ -1392,6 +1385,14 @@ type searchOpt struct {
 	sync.Mutex
 }
 
+// newSearchOpt ... option for a search. it must not be shared with other searches.
+func newSearchOpt(opts ...searchArg) *searchOpt {
+	o := &searchOpt{}
+	o._ignoreBucketEntry.Store(true)
+	o.Options(opts...)
+	return o
+}
+
 func sharedSearchOpt(setter *searchOpt) *searchOpt {
 
 	if setter != nil {
@@ -1427,14 +1428,7 @@ func (o *searchOpt) Options(opts ...searchArg) (previous searchArg) {
 }
 func (h *Map) SearchKey(k uint64, opts ...searchArg) HMapEntry {
 
-	conf := sharedSearchOpt(nil)
-	previous := conf.Options(opts...)
-	defer func() {
-		if previous != nil {
-			conf.Options(previous)
-			sharedSearchOpt(conf)
-		}
-	}()
+	conf := newSearchOpt(opts...)
 	return h.searchKey(k, conf.ignoreBucketEntry())
 
 }
-- 
2.43.0


From 6d9393d3cc5fed5cccd4257fdb5657ed5ddc0034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 09/35] fix: Len() counts deleted keys, concurrent Delete() of
 a key succeed twice

Delete() of an item type which has no access to the state of MapHead had no effect
too.
---
 map.go     |  6 +++++-
 maphead.go | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 9c17871..5b57f5b 100644
--- a/map.go
+++ b/map.go
@@ -1599,10 +1599,11 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 func (h *Map) Delete(key interface{}) bool {
 
 	item, ok := h.LoadItem(key)
-	if !ok {
+	if !ok || !item.PtrMapHead().markDeleted() {
 		return false
 	}
 	item.Delete()
+	h.AddLen(-1)
 	return true
 
 }
@@ -1639,6 +1640,9 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 	if pool == nil {
 		return false
 	}
+	if item.PtrMapHead().markDeleted() {
+		h.AddLen(-1)
+	}
 	item.Delete()
 
 	pOpts := elist_head.SharedTrav(list_head.WaitNoM())
diff --git a/maphead.go b/maphead.go
index 267a390..85d2865 100644
--- a/maphead.go
+++ b/maphead.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"math/bits"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/kazu/elist_head"
@@ -41,6 +42,19 @@ func (mh *MapHead) IsDeleted() bool {
 	return mh.state&mapIsDeleted > 0
 }
 
+// markDeleted ... set the deleted state. false if it is already deleted.
+func (mh *MapHead) markDeleted() bool {
+	for {
+		state := atomic.LoadUint32((*uint32)(&mh.state))
+		if state&uint32(mapIsDeleted) > 0 {
+			return false
+		}
+		if atomic.CompareAndSwapUint32((*uint32)(&mh.state), state, state|uint32(mapIsDeleted)) {
+			return true
+		}
+	}
+}
+
 func (mh *MapHead) ConflictInHamp() uint64 {
 	return mh.conflict
 }
-- 
2.43.0


From e926b4195debd1ff8c949e39a3613a3197ad0733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 10/35] fix: backward search miss item under insertion

---
 map.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/map.go b/map.go
index 5b57f5b..7583e56 100644
--- a/map.go
+++ b/map.go
@@ -1577,17 +1577,19 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 			DebugStats[CntSearchEntry]++
 			h.mu.Unlock()
 		}
-		curReverse := cur.reverse
-		if ignoreBucketEnry && cur.IsIgnored() {
+		if cur.reverse >= reverseNoMask {
 			continue
 		}
-		if curReverse > reverseNoMask {
-			continue
-		}
-		if curReverse == reverseNoMask {
-			return result.HmapEntryFromListHead(cur.PtrListHead())
+		// next of prev item is linked earlier than prev of next item on insertion.
+		// only forward search find item under insertion.
+		for ; cur != nil && cur.reverse <= reverseNoMask; cur = cur.NextWithNil() {
+			if ignoreBucketEnry && cur.IsIgnored() {
+				continue
+			}
+			if cur.reverse == reverseNoMask {
+				return result.HmapEntryFromListHead(cur.PtrListHead())
+			}
 		}
-
 		return nil
 
 	}
-- 
2.43.0


From 476e5737af9ff99d453592090116940941fa0337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 11/35] fix: ItemFn is switched by first Set() while another
 goroutine look up

---
 map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 7583e56..047f352 100644
--- a/map.go
+++ b/map.go
@@ -176,7 +176,7 @@ func NewHMap(opts ...OptHMap) *Map {
 	elist_head.InitAsEmpty(hmap.head, hmap.tail)
 
 	hmap.modeForBucket = NestedSearchForBucket
-	hmap.ItemFn = func() MapItem { return emptyEntryHMap }
+	hmap.ItemFn = func() MapItem { return EmptySampleHMapEntry }
 	hmap.isEmbededItemInBucket = false
 
 	hmap.Options(opts...)
-- 
2.43.0


From 28766e1f67fe481b9bb73c1789318abe3bf002ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 12/35] fix: DumpEntry() read user's item as SampleItem

---
 map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/map.go b/map.go
index 047f352..cdce4db 100644
--- a/map.go
+++ b/map.go
@@ -1156,6 +1156,9 @@ func (h *Map) DumpEntry(w io.Writer) {
 		//e = e.HmapEntryFromListHead(cur)
 		mhead := EmptyMapHead.FromListHead(cur).(*MapHead)
 		e := fromMapHead(mhead)
+		if !mhead.IsDummy() {
+			e = h.ItemFn().HmapEntryFromListHead(cur).(MapItem)
+		}
 
 		var ekey interface{}
 		ekey = e.Key()
-- 
2.43.0


From 161f9767bccbf5f857e3a1ec0c6f1e0a25fecdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 13/35] fix: publish lower level buckets by atomic operation

---
 map.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index cdce4db..7714135 100644
--- a/map.go
+++ b/map.go
@@ -15,6 +15,7 @@ import (
 	"sync"
 	"sync/atomic"
 	"syscall"
+	"unsafe"
 
 	"github.com/kazu/elist_head"
 	"github.com/kazu/loncha"
@@ -1875,7 +1876,12 @@ func (h *Map) bucketFromPool(reverse uint64, opts ...cOptFn) (b *bucket, onOk fu
 			// if idx != 0 && !h.isEmbededItemInBucket {
 			// 	h.add2(b.head(), &b.downLevels[0].dummy)
 			// }
-			b.downLevels = downLevels
+
+			// lookup reads it without lock. cap must be set last.
+			downs, nDowns := b.ptrDownLevels(), (*bucketSlice)(unsafe.Pointer(&downLevels))
+			atomic.StorePointer(&downs.data, nDowns.data)
+			atomic_util.StoreInt(&downs.len, nDowns.len)
+			atomic_util.StoreInt(&downs.cap, nDowns.cap)
 		} else if len(b.downLevels) == 0 {
 			if !recoverBucketWithOutInit {
 				goto RETRY_INITIALIZE
-- 
2.43.0


From 9573dc94908f8395575062a2dcf0f3b56dfe6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 14/35] fix: Set() panics if type of value is changed

---
 sample_hmap_entry.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index d006d7a..31b8cd3 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -52,15 +52,30 @@ func (s *SampleItem) Key() interface{} {
 	return s.K
 }
 
+// sampleValue ... atomic.Value accepts only values of the same type.
+type sampleValue struct {
+	v interface{}
+}
+
 func (s *SampleItem) Value() interface{} {
-	return s.V.Load()
+	v := s.V.Load()
+	if sv, ok := v.(sampleValue); ok {
+		return sv.v
+	}
+	return v
 }
 
 func (s *SampleItem) SetValue(v interface{}) bool {
 	if v == nil {
 		return false
 	}
-	s.V.Store(v)
+	old := s.V.Load()
+	if _, ok := old.(sampleValue); old != nil && !ok {
+		// V is set by user directly
+		s.V.Store(v)
+		return true
+	}
+	s.V.Store(sampleValue{v: v})
 	return true
 }
 
-- 
2.43.0


From 75a3e0749769346f59cbbbe36073e51968c0ef81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:04 +0000
Subject: [PATCH 15/35] fix: RMap loses updates and deletes, returns wrong
 value, and panics

---
 rmap/rmap.go | 241 ++++++++++++++++++++-------------------------------
 1 file changed, 95 insertions(+), 146 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index 0e8a59b..8368f30 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -14,16 +14,24 @@ type baseMap struct {
 	onNewStores []func(smap.MapItem)
 
 	misses int
+	len    int64
 }
 
 type RMap struct {
 	baseMap
 	limit int
-	dirty *smap.Map
 }
 
+// readKey ... hash of key
+type readKey struct {
+	k        uint64
+	conflict uint64
+}
+
+// readMap ... never changed after it is stored to RMap.read
 type readMap struct {
-	m       map[uint64]atomic.Value
+	m       map[readKey]*smap.SampleItem
+	dirty   *smap.Map
 	amended bool // include dirty map
 }
 
@@ -32,7 +40,7 @@ func New() (rmap *RMap) {
 	rmap = &RMap{
 		limit: 1000,
 	}
-	rmap.initDirty()
+	rmap.read.Store(&readMap{dirty: newDirty()})
 
 	return rmap
 
@@ -51,62 +59,66 @@ func (m *RMap) Set(key string, v interface{}) bool {
 	return m.Set2(k, conflict, key, v)
 }
 
-func (m *RMap) getDirtyEntry(k, conflict uint64) (e smap.MapItem) {
+func (m *RMap) load() *readMap {
+	return m.read.Load().(*readMap)
+}
+
+// get ... find item not deleted. all of items of older dirty are in m.
+func (r *readMap) get(k, conflict uint64) *smap.SampleItem {
+	if e, ok := r.m[readKey{k, conflict}]; ok && !e.IsDeleted() {
+		return e
+	}
+	if r.amended {
+		return r.getDirtyEntry(k, conflict)
+	}
+	return nil
+}
 
-	e, ok := m.dirty.LoadItemByHash(k, conflict)
+func (r *readMap) getDirtyEntry(k, conflict uint64) *smap.SampleItem {
 
-	if !ok || e == nil {
+	item, ok := r.dirty.LoadItemByHash(k, conflict)
+	if !ok || item == nil {
 		return nil
 	}
+	e, _ := item.(*smap.SampleItem)
 	return e
 
 }
 
-func (m *RMap) getDirty(k, conflict uint64) (v interface{}, ok bool) {
-
-	e := m.getDirtyEntry(k, conflict)
-	return e.Value(), true
-}
-
 func (m *RMap) Set2(k, conflict uint64, kstr string, v interface{}) bool {
-	read, succ := m.read.Load().(*readMap)
-	if !succ {
-		m.read.Store(&readMap{})
-		read, succ = m.read.Load().(*readMap)
-	}
 
 	ensure := func(item smap.MapItem) {
 		for _, fn := range m.onNewStores {
 			fn(item)
 		}
 	}
-	if e, ok := read.store2(k, conflict, kstr, v); ok {
+	if e := m.load().get(k, conflict); e != nil {
+		e.SetValue(v)
 		defer ensure(e)
 		return true
 	}
 
-	_, ok := read.m[k]
-	if !ok {
-		e := m.getDirtyEntry(k, conflict)
-		if e != nil {
-			ok = true
-			e.SetValue(v)
-		}
-	}
-	if !ok && !read.amended {
-		m.storeReadFromDirty(true)
-	}
-
-	if !ok {
-		e := smap.NewSampleItem(kstr, v)
-		e.Init()
-		m.dirty.StoreItem(e)
+	m.Lock()
+	defer m.Unlock()
 
-		if len(read.m) == 0 {
-			m.storeReadFromDirty(true)
-		}
+	read := m.load()
+	e := read.get(k, conflict)
+	if e != nil {
+		e.SetValue(v)
 		defer ensure(e)
+		return true
+	}
+
+	if !read.amended {
+		read = &readMap{m: read.m, dirty: read.dirty, amended: true}
+		m.read.Store(read)
 	}
+	e = smap.NewSampleItem(kstr, v)
+	e.Init()
+	read.dirty.StoreItem(e)
+	atomic.AddInt64(&m.len, 1)
+	defer ensure(e)
+
 	return true
 }
 
@@ -130,9 +142,8 @@ func (m *RMap) Set2(k, conflict uint64, kstr string, v interface{}) bool {
 
 func (m *RMap) isNotRestoreRead() bool {
 
-	read := m.read.Load().(*readMap)
-	return m.misses <= len(read.m) && m.misses < int(m.dirty.Len())
-	//return m.misses < int(m.dirty.len)
+	read := m.load()
+	return m.misses <= len(read.m) && m.misses < int(read.dirty.Len())
 
 }
 
@@ -141,7 +152,7 @@ func (m *RMap) missLocked() {
 	if m.isNotRestoreRead() {
 		return
 	}
-	m.storeReadFromDirty(false)
+	m.storeReadFromDirty()
 	m.misses = 0
 }
 
@@ -152,135 +163,73 @@ func (m *RMap) Get(key string) (v interface{}, ok bool) {
 
 func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 
-	read := m.read.Load().(*readMap)
-	av, ok := read.m[k]
-	var e *smap.SampleItem
-	if ok {
-		e, ok = av.Load().(*smap.SampleItem)
-		if e.MapHead.ConflictInHamp() != conflict {
-			ok = false
-		} else {
-			v = e.V
-		}
+	read := m.load()
+	if e, found := read.m[readKey{k, conflict}]; found && !e.IsDeleted() {
+		return e.Value(), true
+	}
+	if !read.amended {
+		return nil, false
 	}
+	e := read.getDirtyEntry(k, conflict)
 
-	if !ok && read.amended {
-		// m.Lock()
-		// defer m.Unlock()
-		read := m.read.Load().(*readMap)
-		av, ok = read.m[k]
-		if !ok && read.amended {
-			v, ok = m.getDirty(k, conflict)
-			m.missLocked()
-		}
+	m.Lock()
+	m.missLocked()
+	m.Unlock()
+
+	if e == nil {
+		return nil, false
 	}
-	return
+	return e.Value(), true
 }
 
 func (m *RMap) Delete(key string) bool {
 	k, conflict := smap.KeyToHash(key)
 
-	read, _ := m.read.Load().(*readMap)
-	av, ok := read.m[k]
-	if !ok && read.amended {
-		m.Lock()
-		defer m.Unlock()
-		read, _ := m.read.Load().(*readMap)
-		if !ok && read.amended {
-			// av, ok = m.dirty[k]
-			// delete(m.dirty, k)
-			e := m.getDirtyEntry(k, conflict)
-			if e != nil {
-				m.dirty.AddLen(-1)
-				e.Delete()
-			}
-
-			m.missLocked()
-		}
-	}
-
-	if ok {
-		ohead := av.Load().(*smap.SampleItem)
-		//ohead.conflict = conflict
-		return av.CompareAndSwap(ohead, nil)
+	m.Lock()
+	defer m.Unlock()
 
+	e := m.load().get(k, conflict)
+	if e == nil {
+		return false
 	}
-	return false
+	e.Delete()
+	atomic.AddInt64(&m.len, -1)
+	return true
 }
+
 func (m *RMap) Len() int {
-	return int(m.dirty.Len())
+	return int(atomic.LoadInt64(&m.len))
 }
 
-func (m *RMap) storeReadFromDirty(amended bool) {
-
-	m.Lock()
-	defer m.Unlock()
-
-	for {
-		oread, _ := m.read.Load().(*readMap)
-
-		nread := &readMap{
-			m:       map[uint64]atomic.Value{},
-			amended: amended,
-		}
+// storeReadFromDirty ... move items of dirty to read. require lock.
+func (m *RMap) storeReadFromDirty() {
 
-		//MENTION: not require copy oread ?
-		for k, a := range oread.m {
-			_, ok := a.Load().(*smap.SampleItem)
-			if !ok {
-				continue
-			}
-			nread.m[k] = a
-		}
-		m.dirty.RangeItem(func(item smap.MapItem) bool {
-			e, ok := item.(*smap.SampleItem)
-			if ok {
-				a := atomic.Value{}
-				a.Store(e)
-				nread.m[e.KeyInHmap()] = a
-
-			}
-
-			return true
-		})
+	oread := m.load()
+	nread := &readMap{
+		m:     map[readKey]*smap.SampleItem{},
+		dirty: newDirty(),
+	}
 
-		if len(nread.m) == 0 {
-			break
+	for k, e := range oread.m {
+		if !e.IsDeleted() {
+			nread.m[k] = e
 		}
-		if len(oread.m) == 0 {
-			nread.amended = true
-		}
-		if m.read.CompareAndSwap(oread, nread) {
-			m.Unlock()
-			m.initDirty()
-			m.Lock()
-			break
-		}
-		_ = "???"
 	}
+	oread.dirty.RangeItem(func(item smap.MapItem) bool {
+		if e, ok := item.(*smap.SampleItem); ok {
+			nread.m[readKey{e.KeyInHmap(), e.ConflictInHamp()}] = e
+		}
+		return true
+	})
+	m.read.Store(nread)
 }
 
-func (m *RMap) initDirty() {
+func newDirty() *smap.Map {
 
-	m.dirty = smap.New(
+	return smap.New(
 		smap.BucketMode(smap.CombineSearch),
 		smap.MaxPefBucket(16),
 		smap.ItemFn(func() skiplistmap.MapItem {
 			return skiplistmap.EmptySampleHMapEntry
 		}))
 }
-
-func (r *readMap) store2(k, conflict uint64, kstr string, v interface{}) (smap.MapItem, bool) {
-	ov, ok := r.m[k]
-	if !ok {
-		return nil, ok
-	}
-	ohead := ov.Load().(*smap.SampleItem)
-	item := smap.NewSampleItem(kstr, v)
-	item.PtrListHead().Init()
-	item.Setup()
-
-	ok = ov.CompareAndSwap(ohead, item)
-	return item, ok
-
-}
-- 
2.43.0


From 112b55858fc185af7d81197dd3891e4726f9fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 16/35] fix: an item deleted from map cannot be stored again

---
 map.go     | 28 ++++++++++++++++++++++++++++
 maphead.go | 13 +++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/map.go b/map.go
index 7714135..13c79ce 100644
--- a/map.go
+++ b/map.go
@@ -759,6 +759,10 @@ func (h *Map) StoreItem(item MapItem) bool {
 		if oitem, bucket, found = h._loadItem(k, conflict, nil); found {
 			return h._update(oitem, item.Value())
 		}
+		if item.PtrMapHead().IsDeleted() && !item.PtrListHead().IsSingle() {
+			return h.restoreItem(bucket, item)
+		}
+		item.PtrMapHead().unmarkDeleted()
 		h.items = append(h.items, item)
 	}
 	if _, ok := item.(*SampleItem); ok {
@@ -768,6 +772,30 @@ func (h *Map) StoreItem(item MapItem) bool {
 	return h._set(k, conflict, bucket, item)
 }
 
+// restoreItem ... store deleted item again. deleted item is still linked, it cannot be linked twice.
+func (h *Map) restoreItem(bucket *bucket, item MapItem) bool {
+	mhead := item.PtrMapHead()
+	e := h.searchBybucket(bucket, mhead.reverse, false)
+	if e == nil {
+		return false
+	}
+	found := false
+	for cur := e.PtrMapHead(); cur != nil && cur.reverse == mhead.reverse && !found; cur = cur.NextWithNil() {
+		found = cur == mhead
+	}
+	for cur := e.PtrMapHead(); cur != nil && cur.reverse == mhead.reverse && !found; cur = cur.PrevtWithNil() {
+		found = cur == mhead
+	}
+	// linked to an other map
+	if !found {
+		return false
+	}
+	if mhead.unmarkDeleted() {
+		h.AddLen(1)
+	}
+	return true
+}
+
 func (h *Map) eachEntry(start *elist_head.ListHead, fn func(*entryHMap)) {
 	for cur := start; !cur.Empty(); cur = cur.Next() {
 		e := entryHMapFromListHead(cur)
diff --git a/maphead.go b/maphead.go
index 85d2865..8b67d03 100644
--- a/maphead.go
+++ b/maphead.go
@@ -55,6 +55,19 @@ func (mh *MapHead) markDeleted() bool {
 	}
 }
 
+// unmarkDeleted ... reset the deleted state. false if it is not deleted.
+func (mh *MapHead) unmarkDeleted() bool {
+	for {
+		state := atomic.LoadUint32((*uint32)(&mh.state))
+		if state&uint32(mapIsDeleted) == 0 {
+			return false
+		}
+		if atomic.CompareAndSwapUint32((*uint32)(&mh.state), state, state&^uint32(mapIsDeleted)) {
+			return true
+		}
+	}
+}
+
 func (mh *MapHead) ConflictInHamp() uint64 {
 	return mh.conflict
 }
-- 
2.43.0


From ef79be5c833ceb6aed9b3e8f93db1c7a4f4b354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 17/35] fix: Len() is wrong if Delete() of item panics

---
 map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 13c79ce..621a4ed 100644
--- a/map.go
+++ b/map.go
@@ -1636,8 +1636,8 @@ func (h *Map) Delete(key interface{}) bool {
 	if !ok || !item.PtrMapHead().markDeleted() {
 		return false
 	}
-	item.Delete()
 	h.AddLen(-1)
+	item.Delete()
 	return true
 
 }
-- 
2.43.0


From d9f26e5f6cd7ab5d7a2d8f2e38fef7d30362e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 18/35] fix: concurrent map writes of DebugStats by two maps

---
 debug.go | 12 ++++++++++++
 item.go  |  4 +---
 map.go   | 16 ++++------------
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/debug.go b/debug.go
index 3d0b82c..e82f9e6 100644
--- a/debug.go
+++ b/debug.go
@@ -3,6 +3,7 @@ package skiplistmap
 import (
 	"fmt"
 	"io"
+	"sync"
 )
 
 type statKey byte
@@ -11,7 +12,18 @@ var EnableStats bool = false
 
 var DebugStats map[statKey]int = map[statKey]int{}
 
+// DebugStats is shared by all maps. lock of map cannot guard it.
+var statMu sync.Mutex
+
+func countStat(k statKey) {
+	statMu.Lock()
+	DebugStats[k]++
+	statMu.Unlock()
+}
+
 func ResetStats() {
+	statMu.Lock()
+	defer statMu.Unlock()
 	DebugStats = map[statKey]int{}
 }
 
diff --git a/item.go b/item.go
index 5892576..75fbf92 100644
--- a/item.go
+++ b/item.go
@@ -111,9 +111,7 @@ func CondOfFind(reverse uint64, l sync.Locker) CondOfFinder {
 	return func(ehead *entryHMap) bool {
 
 		if EnableStats {
-			l.Lock()
-			DebugStats[CntSearchEntry]++
-			l.Unlock()
+			countStat(CntSearchEntry)
 		}
 		return reverse <= ehead.reverse
 	}
diff --git a/map.go b/map.go
index 621a4ed..8419c6e 100644
--- a/map.go
+++ b/map.go
@@ -449,9 +449,7 @@ var Failreverse uint64 = 0
 
 func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 	if EnableStats {
-		h.mu.Lock()
-		DebugStats[CntOfGet]++
-		h.mu.Unlock()
+		countStat(CntOfGet)
 	}
 	e := h.searchKey(k, true)
 	if e == nil {
@@ -473,9 +471,7 @@ func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 
 	if EnableStats {
-		h.mu.Lock()
-		DebugStats[CntOfGet]++
-		h.mu.Unlock()
+		countStat(CntOfGet)
 	}
 	var bucket *bucket
 	var reverse uint64
@@ -1584,9 +1580,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 
 			pCur = cur
 			if EnableStats && ignoreBucketEnry {
-				h.mu.Lock()
-				DebugStats[CntReverseSearch]++
-				h.mu.Unlock()
+				countStat(CntReverseSearch)
 			}
 			if ignoreBucketEnry && cur.IsIgnored() {
 				continue
@@ -1605,9 +1599,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 	result := lbNext.entry(h)
 	for cur := result.PtrMapHead(); cur != nil; cur = cur.PrevtWithNil() {
 		if EnableStats && ignoreBucketEnry {
-			h.mu.Lock()
-			DebugStats[CntSearchEntry]++
-			h.mu.Unlock()
+			countStat(CntSearchEntry)
 		}
 		if cur.reverse >= reverseNoMask {
 			continue
-- 
2.43.0


From 7dcfd1a370ae883c7cb7538254cb05d4b291f985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 19/35] fix: items in pool are freed if pool of populated map
 is disabled

---
 map.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 8419c6e..860b1e8 100644
--- a/map.go
+++ b/map.go
@@ -60,7 +60,8 @@ type Map struct {
 
 	ItemFn func() MapItem
 
-	pooler *Pool
+	pooler       *Pool
+	unusedPooler *Pool // keep reference of items in pool after disabling pool
 
 	isEmbededItemInBucket bool
 }
@@ -124,7 +125,12 @@ func ItemFn(fn func() MapItem) OptHMap {
 func UsePool(enable bool) OptHMap {
 	return func(h *Map) OptHMap {
 		if !enable {
+			if h.pooler != nil {
+				h.unusedPooler = h.pooler
+			}
 			h.pooler = nil
+		} else if h.pooler == nil && h.unusedPooler != nil {
+			h.pooler = h.unusedPooler
 		} else if h.pooler == nil {
 			h.pooler = newPool()
 			h.pooler.startMgr()
-- 
2.43.0


From 8ba6fb08e25cda8f8f9b5f4c32ce0af668fe21cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:07 +0000
Subject: [PATCH 20/35] fix: runtime crashes by pointer to free object,
 computed from end of level list

end of level list was own object. bucketFromLevelHead() of it is a pointer
to unrelated object, which may be free. gc throws if it finds such pointer
on the stack.
---
 map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 860b1e8..f448b34 100644
--- a/map.go
+++ b/map.go
@@ -1329,7 +1329,10 @@ func (h *Map) initLevels() {
 	for i := range h.levels {
 		b := newBucket()
 		b.setLevel(int32(i) + 1)
-		b.LevelHead.InitAsEmpty()
+		// end of list is in bucket, too. bucketFromLevelHead() is called with it.
+		end := &bucket{}
+		end.Init()
+		list_head.InitAsEmpty(&b.LevelHead, &end.LevelHead)
 		h.levels[i].Store(b)
 	}
 }
-- 
2.43.0


From e023fa8919db9428c236259cc8e9d362f657f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 21/35] fix: runtime crashes by pointer to free object, if list
 head of item is not at usual offset

dummy of bucket was converted to item of ItemFn, and item of ItemFn to entryHMap.
if offset of list head is different, the result points to outside of the object.
gc throws if such pointer on the stack is in a free object.
---
 bucket.go |  2 +-
 map.go    | 34 ++++++++++++++++++++--------------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/bucket.go b/bucket.go
index 8118a01..82097b8 100644
--- a/bucket.go
+++ b/bucket.go
@@ -279,7 +279,7 @@ func (b *bucket) entry(h *Map) (e HMapEntry) {
 	}
 	head := b.head()
 	if !head.Empty() {
-		return h.ItemFn().HmapEntryFromListHead(head)
+		return h.entryFromListHead(head)
 	}
 	result := b.NextEntry()
 	if result == nil {
diff --git a/map.go b/map.go
index f448b34..a49645c 100644
--- a/map.go
+++ b/map.go
@@ -401,18 +401,18 @@ SKIP_FETCH_BUCKET:
 	}, ignoreBucketEntry(false))
 	_ = cnt
 
-	var pEntry HMapEntry
+	var pEntry *MapHead
 	var tStart *elist_head.ListHead
 	if entry != nil {
-		pEntry = entry.Prev()
+		pEntry = mapheadFromLListHead(entry.PtrListHead().DirectPrev())
 		erk := entry.PtrMapHead().reverse
-		prk := pEntry.PtrMapHead().reverse
+		prk := pEntry.reverse
 		rk := bits.Reverse64(k)
 		_, _, _ = erk, prk, rk
 
 		if entry.PtrMapHead().reverse < bits.Reverse64(k) {
 			tStart = entry.PtrListHead()
-		} else if pEntry.PtrMapHead().reverse < bits.Reverse64(k) {
+		} else if pEntry.reverse < bits.Reverse64(k) {
 			tStart = pEntry.PtrListHead()
 		} else {
 			Log(LogDebug, "hash key == reverse hash key")
@@ -818,17 +818,26 @@ func (h *Map) each(start *elist_head.ListHead, fn func(key, value interface{}))
 	return
 }
 
+// entryFromListHead ... entry of list element. dummy of bucket is not an item of ItemFn.
+// offset of list in item may be different. pointer to outside of dummy/item must not be made.
+func (h *Map) entryFromListHead(head *elist_head.ListHead) HMapEntry {
+	if mapheadFromLListHead(head).IsDummy() {
+		return entryHMapFromListHead(head)
+	}
+	return h.ItemFn().HmapEntryFromListHead(head)
+}
+
 // must renename to find
 func (h *Map) find(start *elist_head.ListHead, cond func(HMapEntry) bool, opts ...searchArg) (result HMapEntry, cnt int) {
 
 	conf := newSearchOpt(opts...)
 	cnt = 0
-	var e MapItem
+	var e HMapEntry
 	if start.Empty() {
 		return
 	}
 	for cur := start; cur != cur.Next(); cur = cur.Next() {
-		e = entryHMapFromListHead(cur)
+		e = h.entryFromListHead(cur)
 
 		if conf.ignoreBucketEntry() && e.PtrMapHead().IsIgnored() {
 			continue
@@ -850,7 +859,7 @@ func (h *Map) makeBucket(ocur *elist_head.ListHead, back int) (err error) {
 	cur := ocur
 	cur = cur.Prev()
 
-	e := entryHMapFromListHead(cur)
+	e := mapheadFromLListHead(cur)
 	cBucket := h.searchBucket(bits.Reverse64(e.reverse))
 	if cBucket == nil || cBucket.reverse > e.reverse {
 		return ErrBucketNotFound
@@ -925,7 +934,7 @@ func (h *Map) makeBucket(ocur *elist_head.ListHead, back int) (err error) {
 
 	for cur := cBucket.head().Prev().Next(); !cur.Empty(); cur = cur.Next() {
 		b._len++
-		e := entryHMapFromListHead(cur)
+		e := mapheadFromLListHead(cur)
 		if e.reverse > b.reverse {
 			break
 		}
@@ -1186,10 +1195,7 @@ func (h *Map) DumpEntry(w io.Writer) {
 		//var e HMapEntry
 		//e = e.HmapEntryFromListHead(cur)
 		mhead := EmptyMapHead.FromListHead(cur).(*MapHead)
-		e := fromMapHead(mhead)
-		if !mhead.IsDummy() {
-			e = h.ItemFn().HmapEntryFromListHead(cur).(MapItem)
-		}
+		e := h.entryFromListHead(cur).(MapItem)
 
 		var ekey interface{}
 		ekey = e.Key()
@@ -1599,7 +1605,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 				continue
 			}
 			if curReverse == reverseNoMask {
-				return result.HmapEntryFromListHead(cur.PtrListHead())
+				return h.entryFromListHead(cur.PtrListHead())
 			}
 			return nil
 		}
@@ -1620,7 +1626,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 				continue
 			}
 			if cur.reverse == reverseNoMask {
-				return result.HmapEntryFromListHead(cur.PtrListHead())
+				return h.entryFromListHead(cur.PtrListHead())
 			}
 		}
 		return nil
-- 
2.43.0


From 17d726af96aad66172abafacfe1a18c548ab8aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 22/35] fix: lookup reads freed items, if it is last use of map
 and hashes collide

links of items are relative address, which gc ignores. compiler doesn't keep h
until end of selectByConflict().
---
 map.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index a49645c..e75917b 100644
--- a/map.go
+++ b/map.go
@@ -10,6 +10,7 @@ import (
 	"math/bits"
 	"os"
 	"os/signal"
+	"runtime"
 	"sort"
 	"strings"
 	"sync"
@@ -467,7 +468,9 @@ func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 	if e.PtrMapHead().reverse != bits.Reverse64(k) {
 		return nil, false
 	}
-	if e = selectByConflict(e, conflict); e == nil {
+	e = selectByConflict(e, conflict)
+	runtime.KeepAlive(h) // links of items are relative address. items of h must not be freed yet.
+	if e == nil {
 		return nil, false
 	}
 	return e.(MapItem), true
@@ -505,7 +508,9 @@ func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 	if ereverse := atomic.LoadUint64(&e.PtrMapHead().reverse); ereverse != bits.Reverse64(k) {
 		return nil, bucket, false
 	}
-	if e = selectByConflict(e, conflict); e == nil {
+	e = selectByConflict(e, conflict)
+	runtime.KeepAlive(h) // links of items are relative address. items of h must not be freed yet.
+	if e == nil {
 		return nil, bucket, false
 	}
 
-- 
2.43.0


From 6fff86668ac1d12d10afe020236367063b3749ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:46 +0000
Subject: [PATCH 23/35] fix: runtime crashes by pointer to free object, if hash
 of new key is 0

previous element of the first dummy is head of list. head was own object,
pointer computed from it was in unrelated object.
---
 map.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index e75917b..b77e466 100644
--- a/map.go
+++ b/map.go
@@ -179,8 +179,9 @@ func NewHMap(opts ...OptHMap) *Map {
 	hmap.tailBucket = topBucket.Next()
 	hmap.headBucket = topBucket.Prev()
 
-	hmap.head = &elist_head.ListHead{}
-	hmap.tail = &elist_head.ListHead{}
+	// both ends of list are in entry, too. mapheadFromLListHead() may be called with them.
+	hmap.head = (&entryHMap{}).PtrListHead()
+	hmap.tail = (&entryHMap{}).PtrListHead()
 	elist_head.InitAsEmpty(hmap.head, hmap.tail)
 
 	hmap.modeForBucket = NestedSearchForBucket
-- 
2.43.0


From ff2d8168db23803e3865c560faf59fe9bfd65278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 24/35] fix: split of bucket with embedded pool leaves bucket
 without pool when all items are on one side

---
 map_embedded.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index 0012d26..0267577 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -69,6 +69,12 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	if newReverse&1 > 0 {
 		newReverse++
 	}
+	// all items are on the same side of newReverse. bucket cannot be split here.
+	idx, err := bucket.itemPool().findIdx(newReverse)
+	if err != nil || idx == 0 {
+		return err
+	}
+
 	b := h.bucketFromPoolEmbedded(newReverse)
 	if b == nil {
 		return ErrBucketAllocatedFail
@@ -83,11 +89,6 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	b.LevelHead.Init()
 	b.initItemPool()
 
-	idx, err := bucket.itemPool().findIdx(newReverse)
-	if err != nil || idx == 0 {
-		return err
-	}
-
 	olen := len(bucket.itemPool().items)
 	nPool, err2 := bucket.itemPool()._split(idx, false)
 	_ = err2
-- 
2.43.0


From 63e1ba9d16d3e2fc097d7f5e5d861e6c63dcca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:13 +0000
Subject: [PATCH 25/35] fix: links of temporary list are freed by gc when pool
 of bucket is expanded

---
 map_embedded.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index 0267577..8ed268a 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -616,13 +616,11 @@ func (sp *samepleItemPool) expand(mu sync.Locker) (unlocker, error) {
 
 func nextListHeadOfSampleItem() elist_head.ListHead {
 
-	list := elist_head.NewEmptyList()
-
+	// link is relative address. all elements of list must be in one object, or gc may free a part of list.
 	items := make([]SampleItem, 3)
 
-	list.Tail().InsertBefore(items[2].PtrListHead())
+	elist_head.InitAsEmpty(items[0].PtrListHead(), items[2].PtrListHead())
 	items[2].InsertBefore(items[1].PtrListHead())
-	items[1].InsertBefore(items[0].PtrListHead())
 
 	return items[1].ListHead
 }
-- 
2.43.0


From 6425883242fc71a8bba3615bdcc6726652a8ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:15 +0000
Subject: [PATCH 26/35] fix: undo of UseEmbeddedPool sets UsePool

---
 map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map.go b/map.go
index b77e466..a49846e 100644
--- a/map.go
+++ b/map.go
@@ -149,7 +149,7 @@ func UseEmbeddedPool(enable bool) OptHMap {
 			UsePool(false)(h)
 		}
 
-		return UsePool(old)
+		return UseEmbeddedPool(old)
 	}
 }
 
-- 
2.43.0


From 3ef383e52b7fdf46f5f23d9fce699cab0114229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:18 +0000
Subject: [PATCH 27/35] fix: deleted items break order of pool of bucket

---
 map_embedded.go | 48 ++++++++++++++++--------------------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index 8ed268a..acde0bc 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -31,15 +31,17 @@ func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucket
 	l := items.Len()
 
 	idx := sort.Search(l, func(i int) bool {
-		item := items._at(i, true, true)
+		item := items._at(i, true, false)
 		if item == nil {
 			return true
 		}
 		return atomic.LoadUint64(&item.reverse) >= reverseNoMask
 		//return items.reverseAt(i) >= reverseNoMask
 	})
-	if idx < l && items.reverseAt(idx) == reverseNoMask {
-		return items._at(idx, true, true)
+	for ; idx < l && items.reverseAt(idx) == reverseNoMask; idx++ {
+		if item := items._at(idx, true, false); !item.IsIgnored() {
+			return item
+		}
 	}
 
 	a := bucket.toBase().prevAsB()
@@ -260,8 +262,8 @@ func (sp *samepleItemPool) state4get(reverse uint64, tail int, len int, cap int)
 	}
 
 	items := sp.itemSlice(false)
-	last := items._at(tail, false, true)
-	if atomic.LoadUint64(&last.reverse) < reverse {
+	last := items._at(tail, false, false)
+	if atomic.LoadUint64(&last.reverse) <= reverse {
 		return getLargest
 	}
 
@@ -273,11 +275,11 @@ func (sp *samepleItemPool) bsearchFromFreeList(reverse uint64, tail int) (int, b
 
 	items := sp.ptrItems()
 
-	idx := sort.Search(tail, func(i int) bool {
+	idx := sort.Search(tail+1, func(i int) bool {
 		item := items._at(i, true, false)
 		return atomic.LoadUint64(&item.reverse) > reverse
 	})
-	if idx <= 1 || idx > tail {
+	if idx == 0 {
 		return -1, false
 	}
 	mItem := items._at(idx-1, true, false)
@@ -348,10 +350,8 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 
 	for i := 0; i < olen; i++ {
 		//for i := range sp.items {
-		if sp.items[i].IsIgnored() {
-			continue
-		}
-		if sp.items[i].reverse < reverse {
+		// deleted item keeps position, too.
+		if sp.items[i].reverse <= reverse {
 			continue
 		}
 		if i == olen-1 {
@@ -446,24 +446,11 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 //go:norace
 func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapItem, nPool *samepleItemPool, fn unlocker) {
 
-	lastActiveIdx := -1
-
 	items := *sp.ptrItems()
 	olen := items.Len()
 	ocap := items.Cap()
-
-	for i := olen - 1; i >= 0; i-- {
-		pItem := items.at(i)
-		if pItem == nil {
-			continue
-		}
-		item := *pItem
-		if item.IsIgnored() {
-			continue
-		}
-		lastActiveIdx = i
-		break
-	}
+	// items are sorted with deleted items.
+	lastIdx := olen - 1
 
 	defer func() {
 		if new == nil {
@@ -473,8 +460,8 @@ func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapIte
 	}()
 
 	// for debug
-	//lastgets = append(lastgets, sp.state4get(reverse, lastActiveIdx))
-	switch sp.state4get(reverse, lastActiveIdx, olen, ocap) {
+	//lastgets = append(lastgets, sp.state4get(reverse, lastIdx))
+	switch sp.state4get(reverse, lastIdx, olen, ocap) {
 	case getEmpty, getLargest:
 		nmu := mu
 		new, nPool, fn = sp.appendLast(nmu)
@@ -507,7 +494,7 @@ func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapIte
 			mu.Unlock()
 		}
 
-		idx, found := sp.bsearchFromFreeList(reverse, lastActiveIdx)
+		idx, found := sp.bsearchFromFreeList(reverse, lastIdx)
 		if !found {
 			goto RETRY
 		}
@@ -628,9 +615,6 @@ func nextListHeadOfSampleItem() elist_head.ListHead {
 func (sp *samepleItemPool) findIdx(reverse uint64) (int, error) {
 
 	for i := range sp.items {
-		if sp.items[i].IsIgnored() {
-			continue
-		}
 		if reverse <= sp.items[i].reverse {
 			return i, nil
 		}
-- 
2.43.0


From 2aa7da3a90b20be4b8094a5d2c3e19a6be6f0a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:20 +0000
Subject: [PATCH 28/35] fix: lock and value of reused item in pool of bucket

---
 map_embedded.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index acde0bc..21ac134 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -15,7 +15,6 @@ import (
 	"github.com/kazu/elist_head"
 	list_head "github.com/kazu/loncha/lista_encabezado"
 	"github.com/kazu/skiplistmap/atomic_util"
-	"github.com/lk4d4/trylock"
 )
 
 func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucketEnry bool) HMapEntry {
@@ -489,9 +488,9 @@ func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapIte
 		new, nPool, _ = sp.getWithFn(reverse, nil)
 		return new, nPool, fn
 	case foundFree:
-		if mu != nil && !mu.(*trylock.Mutex).TryLock() {
+		if mu != nil {
 			mu.Lock()
-			mu.Unlock()
+			fn = lazyUnlock
 		}
 
 		idx, found := sp.bsearchFromFreeList(reverse, lastIdx)
@@ -518,17 +517,22 @@ func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapIte
 			atomic.StoreUint64(&new.PtrMapHead().reverse, oReverse)
 			goto RETRY
 		}
+		pOpts := elist_head.SharedTrav(list_head.WaitNoM())
+		new.(*SampleItem).V = atomic.Value{}
 		new.PtrListHead().MarkForDelete()
-		if mu != nil {
-			fn = lazyUnlock
-		}
+		elist_head.SharedTrav(pOpts...)
 		return new, nil, fn
 	}
 
 	return sp.insertToPool(reverse, mu)
 
 RETRY:
-	return sp.getWithFn(reverse, mu)
+	// mu is already locked.
+	if fn == nil {
+		return sp.getWithFn(reverse, mu)
+	}
+	new, nPool, _ = sp.getWithFn(reverse, nil)
+	return new, nPool, fn
 
 }
 
-- 
2.43.0


From 18db1c70b69ff4b502ab37c00393c7d2768a9155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 29/35] fix: Purge and StoreItem break pool of bucket

---
 map.go | 94 +++++++++-------------------------------------------------
 1 file changed, 14 insertions(+), 80 deletions(-)

diff --git a/map.go b/map.go
index a49846e..bd26c21 100644
--- a/map.go
+++ b/map.go
@@ -22,7 +22,6 @@ import (
 	"github.com/kazu/loncha"
 	list_head "github.com/kazu/loncha/lista_encabezado"
 	"github.com/kazu/skiplistmap/atomic_util"
-	"github.com/lk4d4/trylock"
 )
 
 //const cntOfHampBucket = 32
@@ -593,22 +592,6 @@ func (h *Map) LoadItemByHash(k uint64, conflict uint64) (item MapItem, success b
 	return
 }
 
-func (h *Map) loadItem(k uint64, conflict uint64, key interface{}) (item MapItem, bucket *bucket, lock *trylock.Mutex, found bool) {
-
-	for {
-		item, bucket, found = h._loadItem(0, 0, key)
-		if !found {
-			break
-		}
-		if bucket.muPool.TryLock() {
-			//defer bucket.muPool.Unlock()
-			lock = &bucket.muPool
-			break
-		}
-	}
-	return
-}
-
 func (h *Map) _loadItem(k uint64, conflict uint64, key interface{}) (MapItem, *bucket, bool) {
 	//return h._get(k, conflict)
 	if key == nil {
@@ -754,6 +737,10 @@ func (h *Map) useSampleItem() {
 
 // StoreItem ... set key/value item with embedded-linked-list
 func (h *Map) StoreItem(item MapItem) bool {
+	// item is in pool of bucket
+	if h.isEmbededItemInBucket {
+		return h.Set(item.Key(), item.Value())
+	}
 	k, conflict := item.KeyHash()
 
 	oitem, bucket, found := h._loadItem(k, conflict, nil)
@@ -761,18 +748,16 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
-	if !h.isEmbededItemInBucket {
-		h.muInsert.Lock()
-		defer h.muInsert.Unlock()
-		if oitem, bucket, found = h._loadItem(k, conflict, nil); found {
-			return h._update(oitem, item.Value())
-		}
-		if item.PtrMapHead().IsDeleted() && !item.PtrListHead().IsSingle() {
-			return h.restoreItem(bucket, item)
-		}
-		item.PtrMapHead().unmarkDeleted()
-		h.items = append(h.items, item)
+	h.muInsert.Lock()
+	defer h.muInsert.Unlock()
+	if oitem, bucket, found = h._loadItem(k, conflict, nil); found {
+		return h._update(oitem, item.Value())
+	}
+	if item.PtrMapHead().IsDeleted() && !item.PtrListHead().IsSingle() {
+		return h.restoreItem(bucket, item)
 	}
+	item.PtrMapHead().unmarkDeleted()
+	h.items = append(h.items, item)
 	if _, ok := item.(*SampleItem); ok {
 		h.useSampleItem()
 	}
@@ -1657,61 +1642,10 @@ func (h *Map) Delete(key interface{}) bool {
 
 //Purge ... key/value entry from map.
 func (h *Map) Purge(key interface{}) bool {
-	if h.isEmbededItemInBucket {
-		return h.purgeInEmbedded(key)
-	}
+	// in embedded mode, item must stay in pool until it is reused. items of pool are linked in order of pool.
 	return h.Delete(key)
 }
 
-func (h *Map) purgeInEmbedded(key interface{}) bool {
-	var item MapItem
-	var bucket *bucket
-	var found bool
-	var lock *trylock.Mutex
-	_, _, _, _ = item, bucket, lock, found
-
-	item, bucket, lock, found = h.loadItem(0, 0, key)
-	if lock != nil {
-		defer lock.Unlock()
-	}
-	if !found {
-		return false
-	}
-
-	// remove item
-	// 1. item status to remove
-	// 2. purge from linked-list
-	// 3. insert free list ( keep pointer order ?)
-
-	pool := bucket.itemPool()
-	if pool == nil {
-		return false
-	}
-	if item.PtrMapHead().markDeleted() {
-		h.AddLen(-1)
-	}
-	item.Delete()
-
-	pOpts := elist_head.SharedTrav(list_head.WaitNoM())
-	item.PtrListHead().MarkForDelete()
-	elist_head.SharedTrav(pOpts...)
-	item.PtrListHead().Init()
-
-	pItems := pool.ptrItems()
-	len := pItems.Len()
-	if item.PtrListHead() == &pItems._at(len-1, true, false).ListHead &&
-		atomic_util.CompareAndSwapInt(&pItems.len, len, len-1) {
-		pool.shrinkLen()
-		return true
-	}
-
-	err := pool.PushWithOrder(item.(*SampleItem))
-	if err != nil {
-		return false
-	}
-	return true
-}
-
 // RangeItem ... calls f sequentially for each key and value present in the map.
 // called ordre is reverse key order
 func (h *Map) RangeItem(f func(MapItem) bool) {
-- 
2.43.0


From 52fc5705ca7b935686623c4796e5a7dcb97a3ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:26 +0000
Subject: [PATCH 30/35] fix: bucket with embedded pool is found before it is
 connected

---
 map.go          | 14 +++++---------
 map_embedded.go |  4 ++++
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/map.go b/map.go
index bd26c21..94ba2f4 100644
--- a/map.go
+++ b/map.go
@@ -1702,7 +1702,7 @@ func (h *Map) FindBucket(reverse uint64) (b *bucket) {
 func (h *Map) findBucket(reverse uint64) (b *bucket) {
 
 	// bucket on splitting is not connected yet. should not start to search from it.
-	return h._findBucket(reverse, false, !h.isEmbededItemInBucket)
+	return h._findBucket(reverse, false, true)
 }
 
 func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy bool) (b *bucket) {
@@ -1740,19 +1740,15 @@ func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy b
 		}
 		var bucketDowns *bucketSlice
 		bucketDowns = b.ptrDownLevels()
-		if bucketDowns == nil || atomic_util.LoadInt(&bucketDowns.cap) == 0 {
+		// first of downLevels is under initialization, if len is 0.
+		if bucketDowns == nil || atomic_util.LoadInt(&bucketDowns.cap) == 0 || atomic_util.LoadInt(&bucketDowns.len) == 0 {
 			break
 		}
 
-		for {
-			if atomic_util.LoadInt(&bucketDowns.len) > 0 {
-				break
-			}
-		}
-
 		idx := int((reverse >> (4 * (16 - l))) & 0xf)
 		if atomic_util.LoadInt(&bucketDowns.len) <= idx ||
-			bucketDowns.at(idx).level() == 0 {
+			bucketDowns.at(idx).level() == 0 ||
+			h.isEmbededItemInBucket && ignoreNoInitDummy && atomic.LoadUint32(&bucketDowns.at(idx).state) != bucketStateActive {
 
 			nidx := idx
 			if downlen := atomic_util.LoadInt(&bucketDowns.len); nidx > downlen-1 {
diff --git a/map_embedded.go b/map_embedded.go
index 21ac134..895229c 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -124,6 +124,8 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 		Log(LogWarn, "bucket.LevelHead is pointed to self")
 	}
 
+	atomic.StoreUint32(&b.state, bucketStateActive)
+
 	if int(b.len()) > h.maxPerBucket {
 		h.makeBucket2(b)
 	} else if int(bucket.len()) > h.maxPerBucket {
@@ -168,6 +170,7 @@ func (h *Map) bucketFromPoolEmbedded(reverse uint64) (b *bucket) {
 			firstDown.setItemPoolFn = func(p *samepleItemPool) {
 				b.setItemPool(p)
 			}
+			firstDown.state = bucketStateActive
 
 			lCur := h.levelBucket(l)
 			if lCur.LevelHead.Empty() {
@@ -203,6 +206,7 @@ func (h *Map) bucketFromPoolEmbedded(reverse uint64) (b *bucket) {
 			if l != level {
 				Log(LogWarn, "not collected already inited")
 			}
+			atomic.StoreUint32(&downs.at(idx).state, bucketStateInit)
 			downs.at(idx).setLevel(b.level() + 1)
 			downs.at(idx).reverse = b.reverse | (uint64(idx) << (4 * (16 - l)))
 			b = downs.at(idx)
-- 
2.43.0


From f8859dbaf02f5ce13766e2668fd2ebfbfb46f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:29 +0000
Subject: [PATCH 31/35] fix: items of pool of bucket are moved while they are
 read

---
 map.go          | 99 ++++++++++++++++++++++++++++++++++---------------
 map_embedded.go | 60 ++++++++++++++++++++++++++++++
 2 files changed, 129 insertions(+), 30 deletions(-)

diff --git a/map.go b/map.go
index 94ba2f4..9a391f3 100644
--- a/map.go
+++ b/map.go
@@ -458,6 +458,11 @@ func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 	if EnableStats {
 		countStat(CntOfGet)
 	}
+	if h.isEmbededItemInBucket {
+		item, bucket, found := h.searchWithLock(k, conflict)
+		bucket.muPool.Unlock()
+		return item, found
+	}
 	e := h.searchKey(k, true)
 	if e == nil {
 		if Failreverse == 0 {
@@ -487,17 +492,15 @@ func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 	var e HMapEntry
 
 	if h.isEmbededItemInBucket {
-		reverse = bits.Reverse64(k)
-		bucket = h.findBucket(reverse)
-		e = h.bsearchBybucket(bucket, reverse, true)
-
-	} else {
+		item, bucket, found := h.searchWithLock(k, conflict)
+		bucket.muPool.Unlock()
+		return item, bucket, found
+	}
+	bucket, reverse = h.searchBucket4update(k)
+	if bucket.head() == nil {
 		bucket, reverse = h.searchBucket4update(k)
-		if !h.isEmbededItemInBucket && bucket.head() == nil {
-			bucket, reverse = h.searchBucket4update(k)
-		}
-		e = h.searchBybucket(bucket, reverse, true)
 	}
+	e = h.searchBybucket(bucket, reverse, true)
 
 	if e == nil {
 		if Failreverse == 0 {
@@ -565,6 +568,9 @@ func (h *Map) searchBucket(k uint64) (result *bucket) {
 
 // Get ... return the value for a key, if not found, ok is false
 func (h *Map) Get(key interface{}) (value interface{}, ok bool) {
+	if h.isEmbededItemInBucket {
+		return h.GetByHash(KeyToHash(key))
+	}
 	item, ok := h._get(KeyToHash(key))
 	if !ok {
 		return nil, false
@@ -573,6 +579,14 @@ func (h *Map) Get(key interface{}) (value interface{}, ok bool) {
 }
 
 func (h *Map) GetByHash(hash, conflict uint64) (value interface{}, ok bool) {
+	if h.isEmbededItemInBucket {
+		item, bucket, ok := h.searchWithLock(hash, conflict)
+		defer bucket.muPool.Unlock()
+		if !ok {
+			return nil, false
+		}
+		return item.Value(), ok
+	}
 	item, ok := h._get(hash, conflict)
 	if !ok {
 		return nil, false
@@ -611,27 +625,28 @@ func (h *Map) Set(key, value interface{}) bool {
 	var bucket *bucket
 	var found bool
 
-	for {
-		item, bucket, found = h._loadItem(0, 0, key)
-		if !found {
-			break
-		}
-		if !h.isEmbededItemInBucket {
-			return h._update(item, value)
-		}
-		if bucket.muPool.TryLock() {
+	if h.isEmbededItemInBucket {
+		item, bucket, found = h.searchWithLock(KeyToHash(key))
+		if found {
 			defer bucket.muPool.Unlock()
 			return h._update(item, value)
 		}
+		bucket.muPool.Unlock()
+	} else if item, bucket, found = h._loadItem(0, 0, key); found {
+		return h._update(item, value)
 	}
 
 	// an other goroutine may have added the key or may be adding near it.
-	if !h.isEmbededItemInBucket {
-		h.muInsert.Lock()
-		defer h.muInsert.Unlock()
-		if item, bucket, found = h._loadItem(0, 0, key); found {
-			return h._update(item, value)
-		}
+	h.muInsert.Lock()
+	defer h.muInsert.Unlock()
+	if h.isEmbededItemInBucket {
+		item, bucket, found = h.searchWithLock(KeyToHash(key))
+		defer bucket.muPool.Unlock()
+	} else {
+		item, bucket, found = h._loadItem(0, 0, key)
+	}
+	if found {
+		return h._update(item, value)
 	}
 
 	var s *SampleItem
@@ -647,15 +662,12 @@ func (h *Map) Set(key, value interface{}) bool {
 	}
 
 	if h.isEmbededItemInBucket {
-		k, conflict := KeyToHash(key)
+		k, conflict := KeyToHash(key.(string))
 		var nPool *samepleItemPool
 
 		//lastgets = nil
 		oPool := bucket.itemPool()
-		item, nPool, fn := oPool.getWithFn(bits.Reverse64(k), &bucket.muPool)
-		if fn != nil {
-			defer fn(&bucket.muPool)
-		}
+		item, nPool, _ := oPool.getWithFn(bits.Reverse64(k), nil)
 
 		s = item.(*SampleItem)
 		if nPool != nil {
@@ -1182,6 +1194,10 @@ func (h *Map) DumpBucketPerLevel(w io.Writer) {
 func (h *Map) DumpEntry(w io.Writer) {
 	var b strings.Builder
 
+	// items are moved and reused by insertion
+	if h.isEmbededItemInBucket {
+		h.muInsert.Lock()
+	}
 	for cur := h.head.Prev().Next(); !cur.Empty(); cur = cur.Next() {
 		//var e HMapEntry
 		//e = e.HmapEntryFromListHead(cur)
@@ -1193,6 +1209,9 @@ func (h *Map) DumpEntry(w io.Writer) {
 		fmt.Fprintf(&b, "  entryHMap{key: %+10v, k: 0x%16x, reverse: 0x%16x), conflict: 0x%x, cur: %p, prev: %p, next: %p}\n",
 			ekey, bits.Reverse64(mhead.reverse), mhead.reverse, mhead.conflict, mhead.PtrListHead(), mhead.PtrListHead().DirectPrev(), mhead.PtrListHead().DirectNext())
 	}
+	if h.isEmbededItemInBucket {
+		h.muInsert.Unlock()
+	}
 
 	if w == nil {
 		os.Stdout.WriteString(b.String())
@@ -1630,7 +1649,15 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 //Delete ... set nil to the key of MapItem. cannot Get entry
 func (h *Map) Delete(key interface{}) bool {
 
-	item, ok := h.LoadItem(key)
+	var item MapItem
+	var ok bool
+	if h.isEmbededItemInBucket {
+		var bucket *bucket
+		item, bucket, ok = h.searchWithLock(KeyToHash(key))
+		defer bucket.muPool.Unlock()
+	} else {
+		item, ok = h.LoadItem(key)
+	}
 	if !ok || !item.PtrMapHead().markDeleted() {
 		return false
 	}
@@ -1649,6 +1676,12 @@ func (h *Map) Purge(key interface{}) bool {
 // RangeItem ... calls f sequentially for each key and value present in the map.
 // called ordre is reverse key order
 func (h *Map) RangeItem(f func(MapItem) bool) {
+	if h.isEmbededItemInBucket {
+		h.rangeInEmbedded(func(item MapItem, _, _ interface{}) bool {
+			return f(item)
+		})
+		return
+	}
 
 	oldConfs := list_head.DefaultModeTraverse.Option(list_head.WaitNoM())
 	defer list_head.DefaultModeTraverse.Option(oldConfs...)
@@ -1669,6 +1702,12 @@ func (h *Map) RangeItem(f func(MapItem) bool) {
 // order is reverse key order
 func (h *Map) Range(f func(key, value interface{}) bool) {
 
+	if h.isEmbededItemInBucket {
+		h.rangeInEmbedded(func(_ MapItem, key, value interface{}) bool {
+			return f(key, value)
+		})
+		return
+	}
 	h.RangeItem(func(item MapItem) bool {
 		return f(item.Key(), item.Value())
 	})
diff --git a/map_embedded.go b/map_embedded.go
index 895229c..9f7f1ee 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -6,6 +6,7 @@ package skiplistmap
 import (
 	"fmt"
 	"math/bits"
+	"runtime"
 	"sort"
 	"strings"
 	"sync"
@@ -52,6 +53,63 @@ func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucket
 	return nil
 }
 
+// lockBucket ... lock the bucket of reverse. the bucket may be split before it is locked.
+func (h *Map) lockBucket(reverse uint64) *bucket {
+	for {
+		b := h.findBucket(reverse).toBase()
+		b.muPool.Lock()
+		if h.findBucket(reverse).toBase() == b {
+			return b
+		}
+		b.muPool.Unlock()
+	}
+}
+
+// searchWithLock ... search item and keep its bucket locked.
+// items of bucket may be moved or reused, if the bucket is not locked.
+func (h *Map) searchWithLock(k, conflict uint64) (item MapItem, bucket *bucket, found bool) {
+	reverse := bits.Reverse64(k)
+	bucket = h.lockBucket(reverse)
+	e := h.bsearchBybucket(bucket, reverse, true)
+	if e == nil || e.PtrMapHead().reverse != reverse {
+		return nil, bucket, false
+	}
+	e = selectByConflict(e, conflict)
+	runtime.KeepAlive(h) // links of items and buckets are relative address.
+	if e == nil {
+		return nil, bucket, false
+	}
+	return e.(MapItem), bucket, true
+}
+
+// rangeInEmbedded ... calls f for each item in order of reverse.
+// items of bucket may be moved or reused, if the bucket is not locked. f is called after unlock.
+func (h *Map) rangeInEmbedded(f func(item MapItem, key, value interface{}) bool) {
+	type entry struct {
+		item       *SampleItem
+		key, value interface{}
+	}
+	for reverse := uint64(0); reverse != ^uint64(0); {
+		b := h.lockBucket(reverse)
+		items := b.itemPool().ptrItems()
+		entries := make([]entry, 0, items.Len())
+		for i := 0; i < items.Len(); i++ {
+			if item := items.at(i); !item.IsIgnored() {
+				entries = append(entries, entry{item, item.Key(), item.Value()})
+			}
+		}
+		reverse = b._prevAsB(false).reverse
+		b.muPool.Unlock()
+		runtime.KeepAlive(h) // links of items and buckets are relative address.
+
+		for _, e := range entries {
+			if !f(e.item, e.key, e.value) {
+				return
+			}
+		}
+	}
+}
+
 func (h *Map) searchKeyFromEmbeddedPool(k uint64, ignoreBucketEnry bool) HMapEntry {
 	rev := bits.Reverse64(k)
 	//return h.searchByEmbeddedbucket(h.findBucket(rev), rev, ignoreBucketEnry)
@@ -89,6 +147,8 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	b.Init()
 	b.LevelHead.Init()
 	b.initItemPool()
+	b.muPool.Lock()
+	defer b.muPool.Unlock()
 
 	olen := len(bucket.itemPool().items)
 	nPool, err2 := bucket.itemPool()._split(idx, false)
-- 
2.43.0


From 138a2d58e9ed60538f3bdf260e2f40affd80bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:11 +0000
Subject: [PATCH 32/35] fix: an item stored again while its deletion is not
 finished was deleted once more

---
 map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 9a391f3..ada57be 100644
--- a/map.go
+++ b/map.go
@@ -1662,7 +1662,10 @@ func (h *Map) Delete(key interface{}) bool {
 		return false
 	}
 	h.AddLen(-1)
-	item.Delete()
+	// Delete() of SampleItem only marks item again. item may be already stored again by other goroutine.
+	if _, ok := item.(*SampleItem); !ok {
+		item.Delete()
+	}
 	return true
 
 }
-- 
2.43.0


From c247e8aec549451afea19ab8b1ae4140d3f61f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 33/35] fix: value and key of item made by NewEntryMap are torn
 or lost, if it is updated or deleted while it is read

---
 item.go | 17 +++++++++++------
 map.go  |  8 +++++---
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/item.go b/item.go
index 75fbf92..8b60719 100644
--- a/item.go
+++ b/item.go
@@ -6,6 +6,7 @@ package skiplistmap
 
 import (
 	"sync"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/kazu/elist_head"
@@ -13,7 +14,7 @@ import (
 
 type entryHMap struct {
 	key   interface{}
-	value interface{}
+	value unsafe.Pointer // *interface{}. it is updated while it is read
 
 	MapHead
 }
@@ -21,7 +22,7 @@ type entryHMap struct {
 func NewEntryMap(key, value interface{}) *entryHMap {
 	return &entryHMap{
 		key:   key,
-		value: value,
+		value: unsafe.Pointer(&value),
 	}
 }
 
@@ -52,11 +53,15 @@ func (s *entryHMap) Key() interface{} {
 }
 
 func (s *entryHMap) Value() interface{} {
-	return s.value
+	v := (*interface{})(atomic.LoadPointer(&s.value))
+	if v == nil {
+		return nil
+	}
+	return *v
 }
 
 func (s *entryHMap) SetValue(v interface{}) bool {
-	s.value = v
+	atomic.StorePointer(&s.value, unsafe.Pointer(&v))
 	return true
 }
 
@@ -78,8 +83,8 @@ func (s *entryHMap) Offset() uintptr {
 }
 
 func (s *entryHMap) Delete() {
-	s.key = nil
-	s.MapHead.state |= mapIsDeleted
+	// key must be kept. it is read by other goroutine, and item may be stored again.
+	s.markDeleted()
 }
 
 func (s *entryHMap) KeyHash() (uint64, uint64) {
diff --git a/map.go b/map.go
index ada57be..0d2db47 100644
--- a/map.go
+++ b/map.go
@@ -816,7 +816,7 @@ func (h *Map) each(start *elist_head.ListHead, fn func(key, value interface{}))
 
 	for cur := start; !cur.Empty(); cur = cur.Next() {
 		e := entryHMapFromListHead(cur)
-		fn(e.key, e.value)
+		fn(e.key, e.Value())
 	}
 	return
 }
@@ -1662,8 +1662,10 @@ func (h *Map) Delete(key interface{}) bool {
 		return false
 	}
 	h.AddLen(-1)
-	// Delete() of SampleItem only marks item again. item may be already stored again by other goroutine.
-	if _, ok := item.(*SampleItem); !ok {
+	switch item.(type) {
+	case *SampleItem, *entryHMap:
+		// Delete() only marks item again. item may be already stored again by other goroutine.
+	default:
 		item.Delete()
 	}
 	return true
-- 
2.43.0


From f5fcc53446b125629f60551efd2c2750c107d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 34/35] fix: CombineSearch2 starts lookup from far bucket, if
 next bucket of level is far away

---
 map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 0d2db47..9e0185a 100644
--- a/map.go
+++ b/map.go
@@ -1573,7 +1573,10 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 	lbNext := lbCur
 
 	if h.modeForBucket == CombineSearch2 && lbCur.reverse > reverseNoMask {
-		lbNext = lbCur.NextOnLevel()
+		// next bucket of the level may be far away. there may be buckets of other levels between.
+		if next := lbCur.NextOnLevel(); nearUint64(next.reverse, lbCur.reverse, reverseNoMask) == next.reverse {
+			lbNext = next
+		}
 	}
 
 	// items having the same reverse as bucket are behind of dummy of bucket
-- 
2.43.0


From 43dc563e3ff92b9ed19c9b60f44c36bc79c7f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:53 +0000
Subject: [PATCH 35/35] fix: buckets of keys with near hashes were not split,
 and lookup walked through all of them

makeBucket() set length of new bucket to count of items before it, and subtracted count of cBucket from
cBucket. length of splitted bucket did not match items of it, and bucket was splitted only after many
insertions, if hashes of keys are near (ex. numeric keys shifted to left). a lookup among 4000 such keys
compared 2000 items.
---
 map.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/map.go b/map.go
index 9e0185a..b769a23 100644
--- a/map.go
+++ b/map.go
@@ -434,6 +434,8 @@ SKIP_FETCH_BUCKET:
 		//btable._validateItemsNear()
 	}
 	atomic.AddInt64(&h.len, 1)
+	// first of downLevels is an alias of its parent.
+	btable = btable.toBase()
 	if btable.level() > 0 {
 		atomic.AddInt32(&btable._len, 1)
 	}
@@ -892,6 +894,10 @@ func (h *Map) makeBucket(ocur *elist_head.ListHead, back int) (err error) {
 	} else {
 		newReverse = halfUint64(cBucket.reverse, nextBucket.reverse)
 	}
+	// bucket cannot be split any more.
+	if newReverse <= cBucket.reverse || newReverse >= nextBucket.reverse {
+		return ErrBucketAlreadyExit
+	}
 
 	b, onOk := h.bucketFromPool(newReverse, useOnOk(true))
 	if onOk == nil {
@@ -935,15 +941,21 @@ func (h *Map) makeBucket(ocur *elist_head.ListHead, back int) (err error) {
 	b.Init()
 	b.LevelHead.Init()
 
-	for cur := cBucket.head().Prev().Next(); !cur.Empty(); cur = cur.Next() {
-		b._len++
+	// b takes items of cBucket from its reverse on.
+	cLen, bLen := int32(0), int32(0)
+	for cur := cBucket.head().Next(); !cur.Empty(); cur = cur.Next() {
 		e := mapheadFromLListHead(cur)
-		if e.reverse > b.reverse {
+		if e.IsDummy() {
 			break
 		}
+		if e.reverse < b.reverse {
+			cLen++
+		} else {
+			bLen++
+		}
 	}
-
-	atomic.AddInt32(&cBucket._len, -b._len)
+	atomic.StoreInt32(&cBucket._len, cLen)
+	atomic.StoreInt32(&b._len, bLen)
 	err = h.addBucket(b)
 	if err != nil {
 		Log(LogWarn, "fail addBucket() e=%+v\n", err)
-- 
2.43.0

