From a905b40a6413b08c826b5668f573a205000a142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 01/44] fix: Insert looped forever with a split size below 4

---
 list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 08a3ee9..65bc069 100644
--- a/list.go
+++ b/list.go
@@ -1573,7 +1573,8 @@ func (l *List) insert(ctx context.Context, bs blobstore.Store, e Elements, segs
 	store := blobstore.StoreWithSet(bs, l.Set)
 
 	// Limit single inserts to inserting max into each segment.
-	var wantLimit = (l.SplitSize / 4) * len(l.index.Segments)
+	// Round up, so the limit is never 0.
+	var wantLimit = ((l.SplitSize + 3) / 4) * len(l.index.Segments)
 	if wantLimit > 100000 {
 		wantLimit = 100000
 	}
-- 
2.43.0


From 145221147d9c7fbf6babdb047ecd5c481c55146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 02/44] fix: UpdateElements reported previous ranks relative to
 the segment

The previous rank was counted from the start of the segment instead of the
list, and FromBottom was never filled.
---
 list.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 65bc069..e36c3bd 100644
--- a/list.go
+++ b/list.go
@@ -1286,6 +1286,9 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		mu.Unlock()
 	}
 
+	// Offsets of the segments before the update, for the previous ranks.
+	offsets, total := scores.topOffsets()
+
 	// segmentScoresLoad loads a score by index.
 	var segmentScoresLoad func(segIdx int) *lockedSegment
 	segmentScoresLoad = func(segIdx int) *lockedSegment {
@@ -1376,11 +1379,12 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				}
 				if results {
 					// Record rank of old element.
-					rank, err := scores.findRanked(ctx, store, ss, eid, 0, 0)
+					rank, err := scores.findRanked(ctx, store, ss, eid, offsets[segIdx], 0)
 					if err != nil {
 						log.Info(ctx, "Could not find element", "error", err.Error())
 						continue
 					}
+					rank.CalculateFromBottom(total)
 					withLock(func() {
 						oldRank[eid] = rank
 					})
-- 
2.43.0


From 980b431a5604648651600ebe1316f8f050ba30e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 03/44] fix: UpdateElements removed the payload when none was
 given

A nil payload means do not update. It was kept by neither of the two update paths.
---
 list.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/list.go b/list.go
index e36c3bd..e8e9505 100644
--- a/list.go
+++ b/list.go
@@ -1241,6 +1241,7 @@ func (l *List) getElements(ctx context.Context, bs blobstore.Store, ids []Elemen
 
 // UpdateElements will update or add elements to the list.
 // Elements should be deduplicated when provided.
+// If the payload of an element is nil an existing payload is kept.
 // Concurrent calls to UpdateElements with the same elements can result in duplicate entries in the list.
 // If results are not requested, the returned slice will always be empty.
 func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Elements, radius int, results bool) (RankedElements, error) {
@@ -1323,6 +1324,18 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		return ss
 	}
 
+	// payloadOf returns the current payload of an element, if any.
+	payloadOf := func(ss *lockedSegment, id ElementID) []byte {
+		if ss == nil {
+			return nil
+		}
+		prev, err := ss.elements.Find(id)
+		if err != nil {
+			return nil
+		}
+		return prev.Payload
+	}
+
 	// Use if returning early.
 	unlockAll := func() {
 		for _, ls := range segmentsIdx {
@@ -1430,6 +1443,9 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 			// Existing element: Check if we should update index.
 			if existing.TieBreaker == uint32(scoreDstSeg.seg.ID) {
 				// We are in same segment, simply update score element.
+				if elem.Payload == nil {
+					elem.Payload = payloadOf(scoreDstSeg, elem.ID)
+				}
 				_, err = scoreDstSeg.elements.Update(elem)
 				if err != nil {
 					log.Error(ctx, "Could not update existing score", "error", err.Error())
@@ -1437,6 +1453,15 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				continue
 			}
 
+			// Find the old scores segment.
+			scores.SegmentsLock.RLock()
+			eSid := scores.idx[SegmentID(existing.TieBreaker)]
+			scores.SegmentsLock.RUnlock()
+			rem := segmentScoresLoad(eSid)
+			if elem.Payload == nil {
+				elem.Payload = payloadOf(rem, elem.ID)
+			}
+
 			// Add element. It should be new to this segment.
 			_, err = scoreDstSeg.elements.Add(elem)
 			if err != nil {
@@ -1452,10 +1477,6 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 			}
 
 			// Remove from old scores segment
-			scores.SegmentsLock.RLock()
-			eSid := scores.idx[SegmentID(existing.TieBreaker)]
-			scores.SegmentsLock.RUnlock()
-			rem := segmentScoresLoad(eSid)
 			if rem != nil {
 				err := rem.elements.Delete(elem.ID)
 				if err != nil {
-- 
2.43.0


From 6a91f35d0e8b7de54eab3c7c77df3ae81335a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 04/44] fix: GetElements and UpdateElements returned elements
 in random order

Results were grouped by segment in the order the segments were loaded.
---
 segments.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/segments.go b/segments.go
index 71ddfd1..0325d31 100644
--- a/segments.go
+++ b/segments.go
@@ -914,6 +914,7 @@ func (s *Segments) topRankOf(segIdx int) (n int) {
 
 // FindElements returns elements with the supplied indices.
 // Not found errors are logged, but not fatal.
+// Results are sorted by rank.
 // Caller must hold s.scores read lock.
 func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids IndexElements, radius int) ([]RankedElement, error) {
 	if len(ids.Elements) == 0 {
@@ -960,6 +961,9 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 	for e := range resch {
 		res = append(res, e...)
 	}
+	sort.Slice(res, func(i, j int) bool {
+		return res[i].FromTop < res[j].FromTop
+	})
 	return res, nil
 }
 
-- 
2.43.0


From ab49f573f06fddbbc2e2976cc534b0030497d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 05/44] fix: elements with the maximum update time could be
 lost

An element at the minimum of a segment with Updated=math.MaxUint32 was in no segment.
---
 segment.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/segment.go b/segment.go
index a4b9613..5b3c08b 100644
--- a/segment.go
+++ b/segment.go
@@ -118,11 +118,10 @@ func (s *Segment) FilterIdx(e Elements) (start, end int) {
 	if start == -1 {
 		return 0, 0
 	}
-	endE := &Element{Score: s.Min, TieBreaker: s.MinTie, Updated: math.MaxUint32}
-	// Find first element that is below endE
+	// Find first element that is below the minimum
 	end = len(e)
 	for i, elem := range e[start:] {
-		if !elem.aboveP(endE) {
+		if elem.Score < s.Min || (elem.Score == s.Min && elem.TieBreaker < s.MinTie) {
 			end = i + start
 			break
 		}
-- 
2.43.0


From 2a921ee886b65d52b1c73d6432f9f90454e63e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:52 +0000
Subject: [PATCH 06/44] fix: GetPercentile panicked on an empty list or empty
 last segment

Callers already expect nil when there is no element.
---
 list.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/list.go b/list.go
index e8e9505..a7bec9e 100644
--- a/list.go
+++ b/list.go
@@ -1753,6 +1753,7 @@ func (l *List) GetRankScoreAsc(ctx context.Context, bs blobstore.Store, score ui
 
 // GetPercentile returns the element at a given percentile.
 // The percentile must be normalized to 0->1.
+// If the list is empty nil is returned.
 func (l *List) GetPercentile(ctx context.Context, bs blobstore.Store, percentile float64, radius int) (*RankedElement, error) {
 	if percentile > 1 {
 		percentile = 1
@@ -1772,10 +1773,17 @@ func (l *List) GetPercentile(ctx context.Context, bs blobstore.Store, percentile
 
 	store := blobstore.StoreWithSet(bs, set)
 	segOffs, total := segs.scores.topOffsets()
+	if total == 0 {
+		return nil, nil
+	}
 	var bTotal = &big.Float{}
 	bTotal = bTotal.SetInt(big.NewInt(int64(total)))
 	bTotal = bTotal.Mul(bTotal, big.NewFloat(percentile))
 	wantOff, _ := bTotal.Int64()
+	if wantOff >= int64(total) {
+		// The last segments can be empty.
+		wantOff = int64(total) - 1
+	}
 	for i, segOff := range segOffs {
 		if wantOff < int64(segOff) {
 			e, err := segs.scores.getElementIndex(ctx, store, i-1, int(wantOff)-segOffs[i-1], segOffs[i-1], radius)
-- 
2.43.0


From 3d292d770b601394347422dab3e9a7ca9f10dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 07/44] fix: using a list after it was deleted caused a nil
 dereference

The splitter could for instance take down the process when a list that had
requested a split was deleted.
---
 list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/list.go b/list.go
index a7bec9e..0400b89 100644
--- a/list.go
+++ b/list.go
@@ -390,6 +390,11 @@ func (l *List) loadSegments(ctx context.Context, bs blobstore.Store, fl loadFlag
 			}
 		}
 	}
+	if s.scores == nil || s.index == nil {
+		// The list has been deleted.
+		s.unlock()
+		return nil, blobstore.ErrBlobNotFound
+	}
 	l.updateSegments(ctx, &s)
 	// Return read only if that was what was requested.
 	if readOnly {
-- 
2.43.0


From c36b88096cc6a905efe4fe77bca3a2fd6356b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 08/44] fix: a failed element save left wrong counts and
 modified cached elements

Also do not leave the segments locked if the index is out of range.
---
 segments.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/segments.go b/segments.go
index 0325d31..bfa9708 100644
--- a/segments.go
+++ b/segments.go
@@ -276,19 +276,24 @@ func (s *Segments) replaceSegment(ctx context.Context, bs blobstore.WithSet, ls
 		ls.seg.loader = &elementLoader{}
 	}
 
+	err := ls.saveElements(ctx, bs, ls.elements)
+	if err != nil {
+		// The cached elements may have been modified.
+		if s.cache != nil {
+			s.cache.Remove(ls.seg.cacheID())
+		}
+		return err
+	}
+
 	s.SegmentsLock.Lock()
-	ls.seg.elementsUpdated(ls.elements)
 	if ls.index >= len(s.Segments) || ls.index < 0 {
+		s.SegmentsLock.Unlock()
 		return fmt.Errorf("internal error: locked segment index (%d) out of range (0:%d)", ls.index, len(s.Segments))
 	}
+	ls.seg.elementsUpdated(ls.elements)
 	s.Segments[ls.index] = *ls.seg
 	s.SegmentsLock.Unlock()
 
-	err := ls.saveElements(ctx, bs, ls.elements)
-	if err != nil {
-		return err
-	}
-
 	if s.cache != nil {
 		s.cache.Add(ls.seg.cacheID(), ls.elements)
 	}
-- 
2.43.0


From e9157b55ef561a5c084fcb144b3f683639243b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:44 +0000
Subject: [PATCH 09/44] fix: readers and updates could deadlock on segment
 locks

Reading neighbors kept a segment locked while waiting for the next one, and an
update locked its segments in random order. Segments are now always locked in
order. Reading from a score and reading statistics locked the same segment or
list twice, which deadlocks when a writer is waiting.

Also return an error from updates when a score segment cannot be loaded,
instead of silently leaving out elements.
---
 list.go     | 141 +++++++++++++++++++++--------------------
 segments.go | 176 +++++++++++++++++++++++++++++++++++++---------------
 2 files changed, 199 insertions(+), 118 deletions(-)

diff --git a/list.go b/list.go
index 0400b89..fa212c6 100644
--- a/list.go
+++ b/list.go
@@ -1041,13 +1041,13 @@ func (l *List) Stats(ctx context.Context, bs blobstore.Store, elements bool) (*L
 		res.CachePct = 100 * float64(res.CacheHits) / float64(res.CacheMisses+res.CacheHits)
 	}
 	if elements {
-		es, err := l.GetRankTop(ctx, bs, 0, 1)
+		es, err := l.getRankTop(ctx, bs, 0, 1, segs)
 		if err == nil && len(es) > 0 {
 			top := RankedElement{Element: es[0]}
 			top.CalculateFromBottom(res.Elements)
 			res.Top = &top
 		}
-		es, err = l.GetRankBottom(ctx, bs, 0, 1)
+		es, err = l.getRankBottom(ctx, bs, 0, 1, segs)
 		if err == nil && len(es) > 0 {
 			bottom := RankedElement{Element: es[0], FromTop: res.Elements - 1}
 			res.Bottom = &bottom
@@ -1280,7 +1280,6 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 	existingIdx := make(map[ElementID]Element)
 	// Contains all segments with previous score values.
 	segmentScores := make(map[int]*lockedSegment)
-	segmentScoresWait := make(map[int]chan struct{})
 	// Contains all segments with previous score values.
 	oldRank := make(map[ElementID]*RankedElement)
 
@@ -1295,40 +1294,6 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 	// Offsets of the segments before the update, for the previous ranks.
 	offsets, total := scores.topOffsets()
 
-	// segmentScoresLoad loads a score by index.
-	var segmentScoresLoad func(segIdx int) *lockedSegment
-	segmentScoresLoad = func(segIdx int) *lockedSegment {
-		mu.Lock()
-		ss, ok := segmentScores[segIdx]
-		if !ok {
-			// Check if we are loading it.
-			if ch := segmentScoresWait[segIdx]; ch != nil {
-				// Yes, wait for load to finish.
-				mu.Unlock()
-				<-ch
-				return segmentScoresLoad(segIdx)
-			}
-			ch := make(chan struct{})
-			segmentScoresWait[segIdx] = ch
-			defer close(ch)
-			mu.Unlock()
-			var err error
-			ss, err = scores.elementFullIdx(ctx, store, segIdx, false)
-			if err != nil {
-				log.Error(ctx, "Could not load score segment", "error", err.Error())
-				mu.Lock()
-				delete(segmentScoresWait, segIdx)
-				mu.Unlock()
-				return nil
-			}
-			mu.Lock()
-			segmentScores[segIdx] = ss
-			delete(segmentScoresWait, segIdx)
-		}
-		mu.Unlock()
-		return ss
-	}
-
 	// payloadOf returns the current payload of an element, if any.
 	payloadOf := func(ss *lockedSegment, id ElementID) []byte {
 		if ss == nil {
@@ -1386,27 +1351,6 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				withLock(func() {
 					existingIdx[eid] = *existing
 				})
-
-				// Load the existing scores segment.
-				scores.SegmentsLock.RLock()
-				segIdx := scores.idx[SegmentID(existing.TieBreaker)]
-				scores.SegmentsLock.RUnlock()
-				ss := segmentScoresLoad(segIdx)
-				if ss == nil {
-					continue
-				}
-				if results {
-					// Record rank of old element.
-					rank, err := scores.findRanked(ctx, store, ss, eid, offsets[segIdx], 0)
-					if err != nil {
-						log.Info(ctx, "Could not find element", "error", err.Error())
-						continue
-					}
-					rank.CalculateFromBottom(total)
-					withLock(func() {
-						oldRank[eid] = rank
-					})
-				}
 			}
 		}(e)
 	}
@@ -1416,13 +1360,79 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		unlockAll()
 		return nil, err
 	}
+
 	// Split incoming elements to get destination score segments.
-	for sidx, elems := range scores.splitElementsIdx(elems) {
-		// The element should end up in this segment
-		scoreDstSeg := segmentScoresLoad(sidx)
-		if scoreDstSeg == nil {
-			continue
+	scoresDst := scores.splitElementsIdx(elems)
+
+	// Lock all score segments that contains existing elements or should receive elements.
+	// Segments must be locked in order.
+	need := make([]int, 0, len(scoresDst)+len(existingIdx))
+	for segIdx := range scoresDst {
+		need = append(need, segIdx)
+	}
+	scores.SegmentsLock.RLock()
+	for _, existing := range existingIdx {
+		if segIdx, ok := scores.idx[SegmentID(existing.TieBreaker)]; ok {
+			need = append(need, segIdx)
 		}
+	}
+	scores.SegmentsLock.RUnlock()
+	sort.Ints(need)
+	for _, segIdx := range need {
+		if segmentScores[segIdx] == nil {
+			segmentScores[segIdx] = scores.lockSegment(ctx, segIdx, false)
+		}
+	}
+
+	// Load them.
+	errs = make(chan error, 1)
+	for _, ls := range segmentScores {
+		wg.Add(1)
+		go func(ls *lockedSegment) {
+			defer wg.Done()
+			err := scores.loadLocked(ctx, store, ls)
+			if err != nil {
+				errs <- err
+			}
+		}(ls)
+	}
+	err = waitErr(ctx, errs, &wg)
+	if err != nil {
+		unlockAll()
+		return nil, err
+	}
+
+	// existingScores returns the score segment of an existing element.
+	existingScores := func(existing Element) *lockedSegment {
+		scores.SegmentsLock.RLock()
+		defer scores.SegmentsLock.RUnlock()
+		segIdx, ok := scores.idx[SegmentID(existing.TieBreaker)]
+		if !ok {
+			return nil
+		}
+		return segmentScores[segIdx]
+	}
+
+	if results {
+		// Record rank of old elements.
+		for eid, existing := range existingIdx {
+			ss := existingScores(existing)
+			if ss == nil {
+				continue
+			}
+			rank, err := scores.findRanked(ctx, []*lockedSegment{ss}, ss.index, eid, offsets[ss.index], 0)
+			if err != nil {
+				log.Info(ctx, "Could not find element", "error", err.Error())
+				continue
+			}
+			rank.CalculateFromBottom(total)
+			oldRank[eid] = rank
+		}
+	}
+
+	for sidx, elems := range scoresDst {
+		// The element should end up in this segment
+		scoreDstSeg := segmentScores[sidx]
 
 		// Check if element have changed from another segment
 		for _, elem := range elems {
@@ -1459,10 +1469,7 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 			}
 
 			// Find the old scores segment.
-			scores.SegmentsLock.RLock()
-			eSid := scores.idx[SegmentID(existing.TieBreaker)]
-			scores.SegmentsLock.RUnlock()
-			rem := segmentScoresLoad(eSid)
+			rem := existingScores(existing)
 			if elem.Payload == nil {
 				elem.Payload = payloadOf(rem, elem.ID)
 			}
diff --git a/segments.go b/segments.go
index bfa9708..2ad85f8 100644
--- a/segments.go
+++ b/segments.go
@@ -193,9 +193,22 @@ func (s *Segments) elementFullIdx(ctx context.Context, bs blobstore.WithSet, i i
 	// 4B. Wait for others loading it.
 	// 5. Return segment elements with lock.
 
+	ls = s.lockSegment(ctx, i, readOnly)
+	err = s.loadLocked(ctx, bs, ls)
+	if err != nil {
+		ls.unlock()
+		return nil, err
+	}
+	return ls, nil
+}
+
+// lockSegment returns a locked segment by index, without any elements.
+// Caller must hold segments lock (to pin index).
+// When locking more than one segment they must be locked in order of index.
+func (s *Segments) lockSegment(ctx context.Context, i int, readOnly bool) *lockedSegment {
 	const debugLocks = false
 
-	ls = &lockedSegment{index: i, readOnly: readOnly}
+	ls := &lockedSegment{index: i, readOnly: readOnly}
 	seg := &s.Segments[i]
 	lock := &seg.loader.Mu
 	if readOnly {
@@ -234,28 +247,93 @@ func (s *Segments) elementFullIdx(ctx context.Context, bs blobstore.WithSet, i i
 		}
 	}
 	ls.seg = seg
+	return ls
+}
 
+// loadLocked loads the elements of a locked segment.
+// The segment remains locked if an error is returned.
+func (s *Segments) loadLocked(ctx context.Context, bs blobstore.WithSet, ls *lockedSegment) (err error) {
+	seg := ls.seg
 	if s.cache != nil {
 		v, ok := s.cache.Get(seg.cacheID())
 		if ok {
 			ls.elements, ok = v.(Elements)
 			if ok {
 				atomic.AddUint64(&s.cacheHits, 1)
-				return ls, nil
+				return nil
 			}
 		}
 		atomic.AddUint64(&s.cacheMisses, 1)
 	}
 
-	ls.elements, err = seg.loadElements(ctx, bs, readOnly)
+	ls.elements, err = seg.loadElements(ctx, bs, ls.readOnly)
 	if err != nil {
-		ls.unlock()
-		return nil, err
+		return err
 	}
 	if s.cache != nil {
 		s.cache.Add(seg.cacheID(), ls.elements)
 	}
-	return ls, nil
+	return nil
+}
+
+// lockAround read locks a segment and the segments around it that are needed
+// to find the neighbors within the radius of any element in the segment.
+// Segments are returned in order of index.
+// Caller must hold segments lock (to pin index).
+func (s *Segments) lockAround(ctx context.Context, bs blobstore.WithSet, segIdx, radius int) ([]*lockedSegment, error) {
+	lo, hi := segIdx, segIdx
+	if radius > 0 {
+		// Estimate the segments needed.
+		s.SegmentsLock.RLock()
+		for n := 0; lo > 0 && n < radius; n += s.Segments[lo].N {
+			lo--
+		}
+		for n := 0; hi < len(s.Segments)-1 && n < radius; n += s.Segments[hi].N {
+			hi++
+		}
+		s.SegmentsLock.RUnlock()
+	}
+	for {
+		locked := make([]*lockedSegment, 0, hi-lo+1)
+		for i := lo; i <= hi; i++ {
+			ls, err := s.elementFullIdx(ctx, bs, i, true)
+			if err != nil {
+				unlockAll(locked)
+				return nil, err
+			}
+			locked = append(locked, ls)
+		}
+		// Check that there was enough, they could have been updated.
+		above, below := 0, 0
+		for _, ls := range locked {
+			if ls.index < segIdx {
+				above += len(ls.elements)
+			}
+			if ls.index > segIdx {
+				below += len(ls.elements)
+			}
+		}
+		missing := false
+		if above < radius && lo > 0 {
+			lo--
+			missing = true
+		}
+		if below < radius && hi < len(s.Segments)-1 {
+			hi++
+			missing = true
+		}
+		if !missing {
+			return locked, nil
+		}
+		unlockAll(locked)
+	}
+}
+
+// unlockAll unlocks all the provided segments.
+func unlockAll(locked []*lockedSegment) {
+	for _, ls := range locked {
+		ls.unlock()
+	}
 }
 
 type lockedSegment struct {
@@ -938,15 +1016,15 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 	for segIdx, id := range split {
 		go func(segIdx int, ids []ElementID) {
 			defer wg.Done()
-			ls, err := s.elementFullIdx(ctx, bs, segIdx, true)
+			around, err := s.lockAround(ctx, bs, segIdx, radius)
 			if err != nil {
 				errch <- err
 				return
 			}
-			defer ls.unlock()
+			defer unlockAll(around)
 			var res []RankedElement
 			for _, id := range ids {
-				re, err := s.findRanked(ctx, bs, ls, id, offsets[segIdx], radius)
+				re, err := s.findRanked(ctx, around, segIdx, id, offsets[segIdx], radius)
 				if err != nil {
 					// We ignore not found elements.
 					continue
@@ -975,16 +1053,20 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 // getElementIndex returns element the element at supplied index in supplied segment.
 // Must hold Read Lock
 func (s *Segments) getElementIndex(ctx context.Context, bs blobstore.WithSet, segIdx, elementOff, offset, radius int) (*RankedElement, error) {
-	ls, err := s.elementFullIdx(ctx, bs, segIdx, true)
+	around, err := s.lockAround(ctx, bs, segIdx, radius)
 	if err != nil {
 		return nil, err
 	}
-	defer ls.unlock()
+	defer unlockAll(around)
 
+	ls := around[segIdx-around[0].index]
 	if elementOff >= len(ls.elements) {
 		elementOff = len(ls.elements) - 1
 	}
-	re, err := s.findRanked(ctx, bs, ls, ls.elements[elementOff].ID, offset, radius)
+	if elementOff < 0 {
+		return nil, ErrNotFound
+	}
+	re, err := s.findRanked(ctx, around, segIdx, ls.elements[elementOff].ID, offset, radius)
 	if err != nil {
 		return nil, err
 	}
@@ -992,8 +1074,12 @@ func (s *Segments) getElementIndex(ctx context.Context, bs blobstore.WithSet, se
 }
 
 // findRanked returns ranked element.
-// caller must hold segment read lock and element read lock for supplied segment.
-func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *lockedSegment, id ElementID, offset, radius int) (*RankedElement, error) {
+// The element must be in the segment with index segIdx.
+// Neighbors are only returned from the supplied segments, which must be in order of index.
+// caller must hold segment read lock and element read lock for supplied segments.
+func (s *Segments) findRanked(ctx context.Context, around []*lockedSegment, segIdx int, id ElementID, offset, radius int) (*RankedElement, error) {
+	cur := segIdx - around[0].index
+	ls := around[cur]
 	eidx, err := ls.elements.FindIdx(id)
 	if err != nil {
 		//log.Info(ctx, "Unable to find element", "error", err, "segment_id", seg.ID, "element_id", id, "looking_in", seg)
@@ -1010,53 +1096,38 @@ func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *loc
 	if radius <= 0 {
 		return &r, nil
 	}
-	segIdx := ls.index
 
 	// Below
 	func() {
-		bidx, bLS, bsegIdx := eidx, ls, segIdx
+		bidx, bcur := eidx, cur
 		for i := 1; i < radius+1; i++ {
 			bidx++
-			for bidx == len(bLS.elements) {
-				// Load next
-				bsegIdx++
-				if bsegIdx == len(s.Segments) {
-					return
-				}
-				ls, err := s.elementFullIdx(ctx, bs, bsegIdx, true)
-				if err != nil {
-					log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", bsegIdx)
+			for bidx == len(around[bcur].elements) {
+				// Use next
+				bcur++
+				if bcur == len(around) {
 					return
 				}
-				defer ls.unlock()
-				bLS = ls
 				bidx = 0
 			}
-			r.Below = append(r.Below, bLS.elements[bidx])
+			r.Below = append(r.Below, around[bcur].elements[bidx])
 		}
 	}()
 
 	// Above
 	func() {
-		aidx, aLS, asegIdx := eidx, ls, segIdx
+		aidx, acur := eidx, cur
 		for i := 1; i < radius+1; i++ {
 			aidx--
 			for aidx < 0 {
-				// Load previous
-				asegIdx--
-				if asegIdx == -1 {
-					return
-				}
-				ls, err := s.elementFullIdx(ctx, bs, asegIdx, true)
-				if err != nil {
-					log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", asegIdx)
+				// Use previous
+				acur--
+				if acur == -1 {
 					return
 				}
-				aLS = ls
-				aidx = len(aLS.elements) - 1
-				defer ls.unlock()
+				aidx = len(around[acur].elements) - 1
 			}
-			r.Above = append(r.Above, aLS.elements[aidx])
+			r.Above = append(r.Above, around[acur].elements[aidx])
 		}
 	}()
 
@@ -1073,24 +1144,27 @@ func (s *Segments) getElementsFromScore(ctx context.Context, bs blobstore.WithSe
 		return nil, err
 	}
 
-	defer ls.unlock()
-	seg := ls.seg
+	// Start with the elements from this segment.
+	n := len(ls.elements)
+	first := n
 	for i, elem := range ls.elements {
 		if elem.Score <= score {
-			e, err := s.getElementsOffset(ctx, bs, segIdx, i, elements)
-			if err != nil {
-				return nil, err
-			}
-			return e.Ranked(i, seg.N), nil
+			first = i
+			break
 		}
 	}
+	res := append(make(Elements, 0, n-first), ls.elements[first:]...)
+	ls.unlock()
+	if len(res) >= elements {
+		return res[:elements].Ranked(first, n), nil
+	}
 
-	// Return first of next segment.
-	e, err := s.getElementsOffset(ctx, bs, segIdx+1, 0, elements)
+	// Add from next segments.
+	e, err := s.getElementsOffset(ctx, bs, segIdx+1, 0, elements-len(res))
 	if err != nil {
 		return nil, err
 	}
-	return e.Ranked(seg.N, seg.N), nil
+	return append(res, e...).Ranked(first, n), nil
 }
 
 // getElementsOffset returns elements from a specific segment+element offset.
-- 
2.43.0


From 48642239ab59084277216f44f3da3ca7342fd168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 10/44] fix: failed saves were only logged by update, delete
 and clone

The caller was told that the elements were stored.
---
 list.go     | 14 ++++++++++++--
 segments.go |  7 ++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/list.go b/list.go
index fa212c6..c861870 100644
--- a/list.go
+++ b/list.go
@@ -541,7 +541,7 @@ func (l *List) cloneElements(ctx context.Context, bs blobstore.Store, org *List)
 		}
 		err = newSegments.scores.replaceSegment(ctx, bsDst, dst)
 		if err != nil {
-			log.Error(ctx, err.Error())
+			return err
 		}
 	}
 	dstIdx.Sort()
@@ -1498,10 +1498,13 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		}
 	}
 
+	// All segments are saved, even if some fail, so they are unlocked.
+	var saveErr error
 	for _, ls := range segmentsIdx {
 		err := index.replaceSegment(ctx, store, ls)
 		if err != nil {
 			log.Error(ctx, "Error saving updated index elements", "error", err.Error())
+			saveErr = err
 		}
 	}
 
@@ -1509,9 +1512,16 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		err := scores.replaceSegment(ctx, store, ls)
 		if err != nil {
 			log.Error(ctx, "Error saving updated score elements", "error", err.Error())
+			saveErr = err
+		}
+	}
+	if saveErr != nil {
+		err = l.saveSegments(ctx, bs, segs)
+		if err != nil {
+			log.Error(ctx, "Error saving segments", "error", err.Error())
 		}
+		return nil, saveErr
 	}
-	wg.Wait()
 	l.checkSanity(ctx, bs, "update", segs)
 
 	// Get updated when everything is said and done.
diff --git a/segments.go b/segments.go
index 2ad85f8..e555acf 100644
--- a/segments.go
+++ b/segments.go
@@ -527,7 +527,11 @@ func (s *Segments) DeleteElements(ctx context.Context, bs blobstore.WithSet, e E
 				log.Info(ctx, "Did not find all elements", "left", len(toDelete)-ndeleted)
 			}
 			ls.elements = ls.elements[:wrtto]
-			s.replaceSegment(ctx, bs, ls)
+			err = s.replaceSegment(ctx, bs, ls)
+			if err != nil {
+				errC <- err
+				return
+			}
 			if withIdx {
 				deleted.Sort()
 				idxC <- deleted
@@ -622,6 +626,7 @@ func (s *Segments) Insert(ctx context.Context, bs blobstore.WithSet, in Elements
 			err = s.replaceSegment(ctx, bs, ls)
 			if err != nil {
 				errC <- err
+				return
 			}
 			if withIdx {
 				idxC <- e.ElementIDs(seg.ID)
-- 
2.43.0


From a7a2113da4426d19bcd06cdf66046928d9fc34e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 11/44] fix: populate and reindex deleted the old content
 before the new was stored

---
 list.go | 65 ++++++++++++++++++++++++++++++---------------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/list.go b/list.go
index c861870..d963b47 100644
--- a/list.go
+++ b/list.go
@@ -465,9 +465,6 @@ func (l *List) saveSegments(ctx context.Context, bs blobstore.Store, s *segments
 	if s == nil {
 		return errors.New("no segments provided")
 	}
-	if !s.readOnly {
-		l.updateSegments(ctx, s)
-	}
 	l.RLock()
 	set := l.Set
 	l.RUnlock()
@@ -488,6 +485,10 @@ func (l *List) saveSegments(ctx context.Context, bs blobstore.Store, s *segments
 	} else {
 		log.Info(ctx, "index not loaded, cannot save")
 	}
+	// Only use the segments when they are stored.
+	if !s.readOnly {
+		l.updateSegments(ctx, s)
+	}
 	return nil
 }
 
@@ -760,28 +761,23 @@ func (l *List) reindex(ctx context.Context, bs blobstore.Store, segs *segments)
 		return err
 	}
 
-	// Save index.
-	err = newIdx.Save(ctx, store)
+	// Save and replace
+	oldIdx := segs.index
+	segs.index = newIdx
+	err = l.saveSegments(ctx, bs, segs)
 	if err != nil {
 		log.Error(ctx, "Saving new index:", "err", err)
+		segs.index = oldIdx
 		return err
 	}
 
 	// Delete old
-	err = segs.index.Delete(ctx, store)
+	err = oldIdx.Delete(ctx, store)
 	if err != nil {
 		// We will survive, but want to know
 		log.Error(ctx, "Deleting index:", "err", err)
 	}
 
-	// Replace
-	segs.index = newIdx
-	err = l.saveSegments(ctx, bs, segs)
-	if err != nil {
-		segs.unlock()
-		return err
-	}
-
 	return nil
 }
 
@@ -892,17 +888,19 @@ func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, seg
 	ctx = log.WithFn(ctx, "list_id", l.ID)
 	store := blobstore.StoreWithSet(bs, l.Set)
 
-	l.RLock()
-	hasValid := (!l.Scores.Unset() || !l.Index.Unset()) && segs != nil
-	l.RUnlock()
-	if hasValid {
-		err := l.deleteAll(ctx, bs, segs)
-		if err != nil {
-			return segs, err
-		}
+	if segs != nil && (segs.readOnly || !segs.updateLocked) {
+		return segs, errors.New("populate: readonly segments or segments without update lock provided")
+	}
+	// The existing content is deleted when the new is stored.
+	var old segments
+	if segs != nil {
+		old.scores, old.index = segs.scores, segs.index
 	}
 	if len(e) == 0 {
 		segs, err := l.initEmptyList(ctx, bs, segs)
+		if err == nil {
+			l.deleteSegments(ctx, store, &old)
+		}
 		return segs, err
 	}
 
@@ -955,7 +953,7 @@ func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, seg
 	split = ids.SplitSize(wantSize)
 	idx, err := NewSegmentsElements(ctx, store, split, nil)
 	if err != nil {
-		segs.unlock()
+		l.Unlock()
 		return segs, err
 	}
 	idx.cache = l.cache
@@ -963,17 +961,16 @@ func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, seg
 	l.Unlock()
 
 	if len(deferred) > 0 {
-		l.updateSegments(ctx, segs)
 		err = l.insert(ctx, bs, deferred, segs)
 		if err != nil {
 			return segs, err
 		}
 	}
-	l.updateSegments(ctx, segs)
 	err = l.saveSegments(ctx, bs, segs)
 	if err != nil {
 		return segs, err
 	}
+	l.deleteSegments(ctx, store, &old)
 	// verify will queue merge/split if needed.
 	return segs, l.verify(ctx, bs, segs)
 }
@@ -1151,6 +1148,17 @@ func (l *List) deleteAll(ctx context.Context, bs blobstore.Store, segs *segments
 	defer l.Unlock()
 
 	store := blobstore.StoreWithSet(bs, l.Set)
+	l.deleteSegments(ctx, store, segs)
+	l.scores = nil
+	l.index = nil
+	l.Index = ""
+	l.Scores = ""
+	return nil
+}
+
+// deleteSegments deletes all stored content of the provided segments.
+// Errors are logged.
+func (l *List) deleteSegments(ctx context.Context, store blobstore.WithSet, segs *segments) {
 	if segs.scores != nil {
 		err := segs.scores.Delete(ctx, store)
 		if err != nil {
@@ -1163,11 +1171,6 @@ func (l *List) deleteAll(ctx context.Context, bs blobstore.Store, segs *segments
 			log.Error(ctx, "Error Deleting Index", "error", err)
 		}
 	}
-	l.scores = nil
-	l.index = nil
-	l.Index = ""
-	l.Scores = ""
-	return nil
 }
 
 // getIndexElements looks up elements in the index.
@@ -1621,7 +1624,7 @@ func (l *List) insert(ctx context.Context, bs blobstore.Store, e Elements, segs
 
 	// Limit single inserts to inserting max into each segment.
 	// Round up, so the limit is never 0.
-	var wantLimit = ((l.SplitSize + 3) / 4) * len(l.index.Segments)
+	var wantLimit = ((l.SplitSize + 3) / 4) * len(segs.index.Segments)
 	if wantLimit > 100000 {
 		wantLimit = 100000
 	}
-- 
2.43.0


From d7b6f16130f13253d028843eabcc886e84eb3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 12/44] fix: repair and delete relied on the index, repair
 dropped unreadable segments and modified cached elements

---
 list.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/list.go b/list.go
index d963b47..9a34b91 100644
--- a/list.go
+++ b/list.go
@@ -280,6 +280,10 @@ const (
 
 	// Opposite of segsLockUpdates. Specified for code clarity.
 	segsAllowUpdates
+
+	// Return an empty index if it cannot be loaded instead of reindexing.
+	// Must be used with segsWritable and the list must be replaced or deleted.
+	segsIgnoreIndex
 )
 
 // segments is a structure that controls access to "scores" and "index" *Segments.
@@ -382,6 +386,11 @@ func (l *List) loadSegments(ctx context.Context, bs blobstore.Store, fl loadFlag
 			nindex := NewSegments(0, false)
 			nindex.IsIndex = true
 			s.index = nindex
+			if fl&segsIgnoreIndex != 0 {
+				// Keep ID, so the index is deleted with the segments.
+				nindex.ID = l.Index
+				return &s, nil
+			}
 
 			err := l.reindex(ctx, bs, &s)
 			if err != nil {
@@ -496,7 +505,8 @@ func (l *List) saveSegments(ctx context.Context, bs blobstore.Store, s *segments
 func (l *List) cloneElements(ctx context.Context, bs blobstore.Store, org *List) error {
 	ctx = log.WithFn(ctx)
 	// Ensure segments are loaded.
-	oSegs, err := org.loadSegments(ctx, bs, segsReadOnly|segsAllowUpdates)
+	// We want a consistent view of the elements.
+	oSegs, err := org.loadSegments(ctx, bs, segsReadOnly|segsLockUpdates)
 	if err != nil {
 		return fmt.Errorf("loading segments: %v", err)
 	}
@@ -600,10 +610,10 @@ func (l *List) verify(ctx context.Context, bs blobstore.Store, segs *segments) e
 			return fmt.Errorf("Index Segments ID not set on list.")
 		}
 		if segs.scores.ID != l.Scores {
-			return fmt.Errorf("Scores Segments ID mismatch. List: %v, Segments:%v", l.Scores, l.scores.ID)
+			return fmt.Errorf("Scores Segments ID mismatch. List: %v, Segments:%v", l.Scores, segs.scores.ID)
 		}
 		if segs.index.ID != l.Index {
-			return IndexError(fmt.Errorf("Index Segments ID mismatch. List: %v, Segments:%v", l.Index, l.index.ID))
+			return IndexError(fmt.Errorf("Index Segments ID mismatch. List: %v, Segments:%v", l.Index, segs.index.ID))
 		}
 		if segs.scores.IsIndex {
 			return fmt.Errorf("Score Segments was marked as index.")
@@ -654,7 +664,7 @@ func (l *List) verify(ctx context.Context, bs blobstore.Store, segs *segments) e
 	psegn = lMergeSize
 	for i := range segs.index.Segments {
 		segs.index.SegmentsLock.RLock()
-		seg := &l.index.Segments[i]
+		seg := &segs.index.Segments[i]
 		segs.index.SegmentsLock.RUnlock()
 		if seg.Parent != lIndex {
 			return IndexError(fmt.Errorf("Index Segment %d Parent ID mismatch. List: %v, Segment:%v", i, lIndex, seg.Parent))
@@ -1122,7 +1132,7 @@ func (l *List) ReleaseSegments(ctx context.Context) {
 func (l *List) DeleteAll(ctx context.Context, bs blobstore.Store) error {
 	ctx = log.WithFn(ctx)
 	// Ensure segments are loaded.
-	segs, err := l.loadSegments(ctx, bs, segsWritable|segsLockUpdates)
+	segs, err := l.loadSegments(ctx, bs, segsWritable|segsLockUpdates|segsIgnoreIndex)
 	if err != nil {
 		log.Error(ctx, "Error loading segments for delete", "err", err)
 		// Ignore, we are deleting anyway.
@@ -1846,14 +1856,13 @@ func (l *List) checkSanity(ctx context.Context, bs blobstore.Store, after string
 // Repair will repair the list.
 // So far this is fairly brutally done by loading all segments and recreating scores and indexes.
 func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool) error {
-	store := blobstore.StoreWithSet(bs, l.Set)
-	stats, _ := l.Stats(ctx, bs, false)
-
 	l.RLock()
+	store := blobstore.StoreWithSet(bs, l.Set)
 	ctx = log.WithValues(ctx, "list_id", l.ID)
 	l.RUnlock()
 
-	segs, err := l.loadSegments(ctx, bs, segsWritable|segsLockUpdates)
+	// The index is rebuilt, so we do not need it to be valid.
+	segs, err := l.loadSegments(ctx, bs, segsWritable|segsLockUpdates|segsIgnoreIndex)
 	if err != nil {
 		if (err == blobstore.ErrBlobNotFound && l.scores == nil) || (clearIfErr && l.scores == nil) {
 			log.Logger(ctx).Error("Repair: Could not load segments. list cleared", "list_id", l.ID)
@@ -1875,15 +1884,21 @@ func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool)
 	l.Lock()
 	segs.scores.SegmentsLock.Lock()
 	segments := segs.scores.Segments
-	allElements := make(Elements, 0, stats.Elements)
+	var allElements Elements
 	for i := range segments {
 		seg, err := segs.scores.elementFullIdx(ctx, store, i, true)
 		if err != nil {
 			log.Error(ctx, "Repair: Error loading elements", "error", err)
-			continue
+			if clearIfErr {
+				continue
+			}
+			segs.scores.SegmentsLock.Unlock()
+			l.Unlock()
+			return err
 		}
 
-		elems := seg.elements
+		// Elements may be cached, so we cannot modify them.
+		elems := seg.elements.Clone(false)
 		if elems.Deduplicate() {
 			log.Info(ctx, "Elements de-duplicated", "before_elems", len(seg.elements), "after_elems", len(elems), "segment_id", seg.seg.ID)
 		}
-- 
2.43.0


From f7b997864dee2e8731fb0f1e42ba554847df4926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 13/44] fix: a failed split or merge lost elements or left
 wrong partitions

---
 list.go     | 49 +++++++++++++++++++++++++++++++------------------
 segments.go | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 70 insertions(+), 18 deletions(-)

diff --git a/list.go b/list.go
index 9a34b91..55b88c9 100644
--- a/list.go
+++ b/list.go
@@ -2176,6 +2176,9 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 	// We must retain both lists for update.
 	updated := false
 
+	// On errors we stop, but save what was done so far.
+	var splitErr error
+
 	for i := 0; i < len(scores.Segments); i++ {
 		seg := &scores.Segments[i]
 		if seg.N < splitSize {
@@ -2191,6 +2194,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 					return nil
 				}
 				// Yes, we should merge with previous.
+				before := scores.segmentsCopy()
 				ls, err := scores.elementFullIdx(ctx, store, i, false)
 				if err != nil {
 					return err
@@ -2205,6 +2209,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 				ch := scores.mergeWithNext(ctx, lsp, ls)
 				err = scores.replaceSegment(ctx, store, lsp)
 				if err != nil {
+					scores.restoreSegments(before)
 					return err
 				}
 				err = ls.seg.deleteElements(ctx, store)
@@ -2219,12 +2224,14 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			}()
 			if err != nil {
 				log.Error(ctx, "Score merge returned error", "error", err.Error(), "seg_id", seg.ID, "seg_idx", i)
-				return err
+				splitErr = err
+				break
 			}
 			continue
 		}
 		// Split
 		err := func() error {
+			before := scores.segmentsCopy()
 			ls, err := scores.elementFullIdx(ctx, store, i, false)
 			if err != nil {
 				return err
@@ -2235,12 +2242,9 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 				return nil
 			}
 			// Save changed segments
-			err = scores.replaceSegment(ctx, store, ls)
-			if err != nil {
-				return err
-			}
-			err = scores.replaceSegment(ctx, store, newSeg)
+			err = scores.replaceSplit(ctx, store, ls, newSeg)
 			if err != nil {
+				scores.restoreSegments(before)
 				return err
 			}
 			updIdx = append(updIdx, ch...)
@@ -2251,7 +2255,8 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 		}()
 		if err != nil {
 			log.Error(ctx, "Score split returned error", "error", err.Error(), "seg_id", seg.ID, "seg_idx", i)
-			return err
+			splitErr = err
+			break
 		}
 	}
 	if updated {
@@ -2263,7 +2268,9 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 	err := index.updateIndexElements(ctx, store, updIdx)
 	if err != nil {
 		log.Error(ctx, "Index update returned error", "error", err.Error())
-		return err
+		if splitErr == nil {
+			splitErr = err
+		}
 	}
 	err = scores.Verify(ctx, store)
 	if err != nil {
@@ -2275,7 +2282,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 	}
 
 	// Now check if indexes should be merged/split.
-	for i := 0; i < len(index.Segments); i++ {
+	for i := 0; splitErr == nil && i < len(index.Segments); i++ {
 		seg := &index.Segments[i]
 		if seg.N < splitSize {
 			// Check if we should merge
@@ -2287,6 +2294,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 					return nil
 				}
 				// Yes, we should merge with previous.
+				before := index.segmentsCopy()
 				ls, err := index.elementFullIdx(ctx, store, i, false)
 				if err != nil {
 					return err
@@ -2301,6 +2309,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 				_ = index.mergeWithNext(ctx, lsp, ls)
 				err = index.replaceSegment(ctx, store, lsp)
 				if err != nil {
+					index.restoreSegments(before)
 					return err
 				}
 				err = ls.seg.deleteElements(ctx, store)
@@ -2315,12 +2324,14 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			}()
 			if err != nil {
 				log.Error(ctx, "Index merge returned error", "error", err.Error(), "seg_id", seg.ID, "seg_idx", i)
-				return err
+				splitErr = err
+				break
 			}
 			continue
 		}
 		// Split segment
 		err := func() error {
+			before := index.segmentsCopy()
 			ls, err := index.elementFullIdx(ctx, store, i, false)
 			if err != nil {
 				return err
@@ -2334,29 +2345,31 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			}
 
 			// Save updated segments.
-			err = index.replaceSegment(ctx, store, newSeg)
-			if err != nil {
-				return err
-			}
-			err = index.replaceSegment(ctx, store, ls)
+			err = index.replaceSplit(ctx, store, ls, newSeg)
 			if err != nil {
+				index.restoreSegments(before)
 				return err
 			}
 			return nil
 		}()
 		if err != nil {
 			log.Error(ctx, "Index merge returned error", "error", err.Error(), "seg_id", seg.ID, "seg_idx", i)
-			return err
+			splitErr = err
+			break
 		}
 		i++
 		updated = true
 	}
 	if !updated {
-		return nil
+		return splitErr
 	}
 
 	// invalidate index
 	index.idx = nil
 
-	return l.saveSegments(ctx, bs, segs)
+	err = l.saveSegments(ctx, bs, segs)
+	if splitErr != nil {
+		return splitErr
+	}
+	return err
 }
diff --git a/segments.go b/segments.go
index e555acf..aed9078 100644
--- a/segments.go
+++ b/segments.go
@@ -380,6 +380,45 @@ func (s *Segments) replaceSegment(ctx context.Context, bs blobstore.WithSet, ls
 	return nil
 }
 
+// replaceSplit saves a segment that has been split and the new segment
+// containing the last part of it. Both are unlocked.
+// The new segment is saved first, so elements are always stored in one of them.
+// If an error is returned the caller must restore the segments.
+func (s *Segments) replaceSplit(ctx context.Context, bs blobstore.WithSet, ls, newSeg *lockedSegment) error {
+	err := s.replaceSegment(ctx, bs, newSeg)
+	if err != nil {
+		ls.unlock()
+		return err
+	}
+	err = s.replaceSegment(ctx, bs, ls)
+	if err != nil {
+		if s.cache != nil {
+			s.cache.Remove(newSeg.seg.cacheID())
+		}
+		err2 := newSeg.seg.deleteElements(ctx, bs)
+		if err2 != nil {
+			log.Info(ctx, "deleteElements returned error", "error", err2.Error())
+		}
+	}
+	return err
+}
+
+// segmentsCopy returns a copy of the current segments.
+func (s *Segments) segmentsCopy() []Segment {
+	s.SegmentsLock.RLock()
+	defer s.SegmentsLock.RUnlock()
+	return append(make([]Segment, 0, len(s.Segments)), s.Segments...)
+}
+
+// restoreSegments restores segments to those returned by segmentsCopy.
+// Caller must hold segments lock for writing.
+func (s *Segments) restoreSegments(segs []Segment) {
+	s.SegmentsLock.Lock()
+	s.Segments = segs
+	s.idx = nil
+	s.SegmentsLock.Unlock()
+}
+
 // newLockedSegment creates a new locked segment with the content of the provided segment.
 // The segment is added to s, but not saved.
 func (s *Segments) newLockedSegment(ctx context.Context, bs blobstore.WithSet, seg *Segment) *lockedSegment {
-- 
2.43.0


From e5973dbf510ce2dce395351c77ed89b0b771383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 14/44] fix: Deduplicate kept the lowest score on equal update
 time, SplitSize(0) divided by zero

---
 elements.go |  5 ++++-
 lists.go    | 33 +++++++++++++++++++++++----------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/elements.go b/elements.go
index 6f4c8ab..70092da 100644
--- a/elements.go
+++ b/elements.go
@@ -85,7 +85,7 @@ func (l *Elements) Deduplicate() (changed bool) {
 		j := i
 		// If updated time equal, use highest score
 		if prev.Updated == e.Updated {
-			if prev.Score > e.Score {
+			if prev.Score < e.Score {
 				j = i - 1
 			}
 		} else {
@@ -386,6 +386,9 @@ func (l *Elements) Delete(id ElementID) error {
 
 // SplitSize will split the elements into a slice of elements.
 func (l Elements) SplitSize(inEach int) []Elements {
+	if inEach < 1 {
+		inEach = 1
+	}
 	if len(l) <= inEach {
 		return []Elements{l}
 	}
diff --git a/lists.go b/lists.go
index 7be2d7d..18bf141 100644
--- a/lists.go
+++ b/lists.go
@@ -96,9 +96,11 @@ func (l Lists) Save(ctx context.Context, w io.Writer) error {
 	wm.ReplaceWriter(wc)
 
 	c := compressionNone
+	var enc *zstd.Encoder
 	if compressLists {
 		c = compressionZstd
-		enc, err := zstd.NewWriter(wc)
+		var err error
+		enc, err = zstd.NewWriter(wc)
 		if err != nil {
 			return err
 		}
@@ -138,11 +140,15 @@ func (l Lists) Save(ctx context.Context, w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	wm.Flush()
-	return nil
+	err = msg.Flush()
+	if err != nil || enc == nil {
+		return err
+	}
+	return enc.Close()
 }
 
 // Load the lists. Overwrites all existing lists.
+// If an error is returned the existing lists are unchanged.
 func (l *Lists) Load(ctx context.Context, bs blobstore.Store, b []byte) error {
 	var lazyLoad []func()
 	if len(b) == 0 {
@@ -181,7 +187,10 @@ func (l *Lists) Load(ctx context.Context, bs blobstore.Store, b []byte) error {
 		return ErrVersionMismatch
 	}
 	n := 0
-	l.lists = &sync.Map{}
+	if l.lists == nil {
+		l.lists = &sync.Map{}
+	}
+	loaded := Lists{lists: &sync.Map{}, cache: l.cache, manager: l.manager}
 	msg := rm.Reader()
 	t, err := msg.NextType()
 	for t != msgp.BoolType && err == nil {
@@ -190,7 +199,7 @@ func (l *Lists) Load(ctx context.Context, bs blobstore.Store, b []byte) error {
 		if err != nil {
 			return err
 		}
-		l.Add(lst)
+		loaded.Add(lst)
 		n++
 
 		t, err = msg.NextType()
@@ -211,6 +220,10 @@ func (l *Lists) Load(ctx context.Context, bs blobstore.Store, b []byte) error {
 			})
 		}
 	}
+	if err != nil {
+		return err
+	}
+	l.lists = loaded.lists
 	log.Info(ctx, "Loaded lists", "list count", n, "size", len(b), "duration", time.Since(start))
 	if len(lazyLoad) > 0 {
 		go func() {
@@ -222,7 +235,7 @@ func (l *Lists) Load(ctx context.Context, bs blobstore.Store, b []byte) error {
 			log.Info(ctx, "Finished loading segments", "list count", len(lazyLoad), "duration", time.Since(start))
 		}()
 	}
-	return err
+	return nil
 }
 
 // Exists returns the ids that exist.
@@ -442,10 +455,10 @@ func (l *Lists) SortedIDsBefore(to ListID, n int) ([]*List, PageInfo) {
 					}
 					return true
 				}
-				s = append(s, string(id))
-				if id < firstElement {
+				if len(s) == 0 || id < firstElement {
 					firstElement = id
 				}
+				s = append(s, string(id))
 			} else {
 				page.After++
 			}
@@ -455,8 +468,8 @@ func (l *Lists) SortedIDsBefore(to ListID, n int) ([]*List, PageInfo) {
 	s.Sort()
 	if cropOne {
 		if len(s) > 1 {
-			page.After++
-			s = s[:1]
+			page.Before++
+			s = s[1:]
 		}
 	}
 	res := make([]*List, 0, len(s))
-- 
2.43.0


From 6ca09769d11ac3c1372c4a2bab687bc9019ad014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 15/44] fix: catalogue paging backwards, failed saves and
 failed loads

---
 lists.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lists.go b/lists.go
index 18bf141..b3f699f 100644
--- a/lists.go
+++ b/lists.go
@@ -105,7 +105,11 @@ func (l Lists) Save(ctx context.Context, w io.Writer) error {
 			return err
 		}
 		wm.ReplaceWriter(enc)
-		defer enc.Close()
+		defer func() {
+			if enc != nil {
+				enc.Close()
+			}
+		}()
 	}
 	_, err := wc.Write([]byte{c})
 	if err != nil {
@@ -144,7 +148,9 @@ func (l Lists) Save(ctx context.Context, w io.Writer) error {
 	if err != nil || enc == nil {
 		return err
 	}
-	return enc.Close()
+	e := enc
+	enc = nil
+	return e.Close()
 }
 
 // Load the lists. Overwrites all existing lists.
-- 
2.43.0


From ef7c62d169094e47c31b05c0a1792690ff9a618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 16/44] fix: a split that failed after storing one half could
 lose elements

---
 list.go     | 24 ++++++++++--------------
 segments.go | 41 ++++++++++++++++++++++++++++-------------
 2 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/list.go b/list.go
index 55b88c9..3bbdcc6 100644
--- a/list.go
+++ b/list.go
@@ -2236,22 +2236,21 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			if err != nil {
 				return err
 			}
+			org := ls.elements
 			ch, newSeg := scores.splitIdx(ctx, ls)
 			if ch == nil && newSeg == nil {
 				ls.unlock()
 				return nil
 			}
 			// Save changed segments
-			err = scores.replaceSplit(ctx, store, ls, newSeg)
-			if err != nil {
-				scores.restoreSegments(before)
-				return err
+			split, err := scores.replaceSplit(ctx, store, ls, newSeg, before, org)
+			if split {
+				updIdx = append(updIdx, ch...)
+				updated = true
 			}
-			updIdx = append(updIdx, ch...)
-			updated = true
 			// Skip inserted
 			i++
-			return nil
+			return err
 		}()
 		if err != nil {
 			log.Error(ctx, "Score split returned error", "error", err.Error(), "seg_id", seg.ID, "seg_idx", i)
@@ -2338,6 +2337,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			}
 
 			// Split segment
+			org := ls.elements
 			_, newSeg := index.splitIdx(ctx, ls)
 			if newSeg == nil {
 				ls.unlock()
@@ -2345,12 +2345,9 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			}
 
 			// Save updated segments.
-			err = index.replaceSplit(ctx, store, ls, newSeg)
-			if err != nil {
-				index.restoreSegments(before)
-				return err
-			}
-			return nil
+			split, err := index.replaceSplit(ctx, store, ls, newSeg, before, org)
+			updated = updated || split
+			return err
 		}()
 		if err != nil {
 			log.Error(ctx, "Index merge returned error", "error", err.Error(), "seg_id", seg.ID, "seg_idx", i)
@@ -2358,7 +2355,6 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			break
 		}
 		i++
-		updated = true
 	}
 	if !updated {
 		return splitErr
diff --git a/segments.go b/segments.go
index aed9078..4313503 100644
--- a/segments.go
+++ b/segments.go
@@ -383,24 +383,39 @@ func (s *Segments) replaceSegment(ctx context.Context, bs blobstore.WithSet, ls
 // replaceSplit saves a segment that has been split and the new segment
 // containing the last part of it. Both are unlocked.
 // The new segment is saved first, so elements are always stored in one of them.
-// If an error is returned the caller must restore the segments.
-func (s *Segments) replaceSplit(ctx context.Context, bs blobstore.WithSet, ls, newSeg *lockedSegment) error {
-	err := s.replaceSegment(ctx, bs, newSeg)
+// The segments and elements before splitting must be provided.
+// Unless split is returned the previous segments have been restored.
+// Caller must hold segments lock for writing.
+func (s *Segments) replaceSplit(ctx context.Context, bs blobstore.WithSet, ls, newSeg *lockedSegment, before []Segment, org Elements) (split bool, err error) {
+	err = s.replaceSegment(ctx, bs, newSeg)
 	if err != nil {
 		ls.unlock()
-		return err
+		s.restoreSegments(before)
+		return false, err
 	}
 	err = s.replaceSegment(ctx, bs, ls)
-	if err != nil {
-		if s.cache != nil {
-			s.cache.Remove(newSeg.seg.cacheID())
-		}
-		err2 := newSeg.seg.deleteElements(ctx, bs)
-		if err2 != nil {
-			log.Info(ctx, "deleteElements returned error", "error", err2.Error())
-		}
+	if err == nil {
+		return true, nil
+	}
+	// We do not know what was stored, so write the previous content back.
+	err2 := ls.saveElements(ctx, bs, org)
+	if err2 != nil {
+		// Keep the new segment, at worst elements are stored in both.
+		log.Error(ctx, "Unable to restore segment", "error", err2.Error(), "seg_id", ls.seg.ID)
+		s.SegmentsLock.Lock()
+		s.Segments[ls.index] = *ls.seg
+		s.SegmentsLock.Unlock()
+		return true, err
+	}
+	if s.cache != nil {
+		s.cache.Remove(newSeg.seg.cacheID())
+	}
+	err2 = newSeg.seg.deleteElements(ctx, bs)
+	if err2 != nil {
+		log.Info(ctx, "deleteElements returned error", "error", err2.Error())
 	}
-	return err
+	s.restoreSegments(before)
+	return false, err
 }
 
 // segmentsCopy returns a copy of the current segments.
-- 
2.43.0


From f482935e37d539f1af2eb48bc0de2f3336336914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 17/44] fix: damaged stored data could panic or exhaust memory
 when decoded

---
 backup/restore.go | 11 ++++++++++-
 list.go           | 21 ++++++++++++---------
 lists.go          |  2 +-
 msgppool.go       | 21 +++++++++++++++++++++
 segment.go        |  4 +++-
 segments.go       |  4 +++-
 6 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/backup/restore.go b/backup/restore.go
index 9fd485e..3f7bf5f 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -5,7 +5,9 @@ package backup
 // See LICENSE file for license details
 
 import (
+	"bytes"
 	"context"
+	"io"
 
 	"github.com/Vivino/rankdb"
 	"github.com/Vivino/rankdb/log"
@@ -76,10 +78,17 @@ func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
 		dstLstID := rankdb.ListID(ri.ListIDPrefix + listID + ri.ListIDSuffix)
 		log.Info(ctx, "Restoring list", "list_id", listID, "dest_list_id", dstLstID)
 
-		b, err := msg.ReadBytes(nil)
+		// Size may be damaged, so only allocate what we can read.
+		size, err := msg.ReadBytesHeader()
 		if err != nil {
 			return nil, err
 		}
+		var buf bytes.Buffer
+		_, err = io.CopyN(&buf, msg, int64(size))
+		if err != nil {
+			return nil, err
+		}
+		b := buf.Bytes()
 		if _, ok := ri.DB.Lists.ByID(dstLstID); ok {
 			if !ri.Replace {
 				res.Skipped++
diff --git a/list.go b/list.go
index 3bbdcc6..c627c82 100644
--- a/list.go
+++ b/list.go
@@ -1949,12 +1949,11 @@ func (l *List) Backup(ctx context.Context, bs blobstore.Store, w *WriterMsgp) er
 	}
 	scores.SegmentsLock.RLock()
 	err = scores.EncodeMsg(w.Writer())
+	segs := len(scores.Segments)
+	scores.SegmentsLock.RUnlock()
 	if err != nil {
 		return err
 	}
-
-	segs := len(scores.Segments)
-	scores.SegmentsLock.RUnlock()
 	if err := w.SetVersion(segmentVersion); err != nil {
 		return err
 	}
@@ -1997,7 +1996,7 @@ func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache
 		log.Error(ctx, "RestoreList: backupVersion mismatch")
 		return nil, ErrVersionMismatch
 	}
-	err := l.DecodeMsg(r.Reader())
+	err := r.DecodeNext(l)
 	if err != nil {
 		return nil, err
 	}
@@ -2013,7 +2012,7 @@ func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache
 		log.Error(ctx, "RestoreList: segmentsVersion mismatch")
 		return nil, ErrVersionMismatch
 	}
-	err = s.DecodeMsg(r.Reader())
+	err = r.DecodeNext(&s)
 	if err != nil {
 		return nil, err
 	}
@@ -2034,11 +2033,13 @@ func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache
 	if err != nil {
 		return nil, err
 	}
-	s.Segments = make([]Segment, segs)
+	if segs != len(s.Segments) {
+		return nil, fmt.Errorf("RestoreList: got %d segments, expected %d", segs, len(s.Segments))
+	}
 	for i := range s.Segments {
 		var seg Segment
 		// First decode segment.
-		err = seg.DecodeMsg(r.Reader())
+		err = r.DecodeNext(&seg)
 		if err != nil {
 			return nil, err
 		}
@@ -2046,15 +2047,17 @@ func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache
 		// decode elements
 		ls := lockedSegment{
 			seg:      &seg,
-			elements: make(Elements, 0, seg.N),
 			index:    i,
 			readOnly: false,
 			unlock:   func() {},
 		}
-		err = ls.elements.DecodeMsg(r.Reader())
+		err = r.DecodeNext(&ls.elements)
 		if err != nil {
 			return nil, err
 		}
+		if len(ls.elements) != seg.N {
+			return nil, fmt.Errorf("RestoreList: got %d elements in segment, expected %d", len(ls.elements), seg.N)
+		}
 		// Override segment id
 		seg.Parent = s.ID
 		err := s.replaceSegment(ctx, store, &ls)
diff --git a/lists.go b/lists.go
index b3f699f..94fbaf9 100644
--- a/lists.go
+++ b/lists.go
@@ -201,7 +201,7 @@ func (l *Lists) Load(ctx context.Context, bs blobstore.Store, b []byte) error {
 	t, err := msg.NextType()
 	for t != msgp.BoolType && err == nil {
 		lst := newList(l.cache, l.manager)
-		err = lst.DecodeMsg(msg)
+		err = rm.DecodeNext(lst)
 		if err != nil {
 			return err
 		}
diff --git a/msgppool.go b/msgppool.go
index 1f12153..aef5205 100644
--- a/msgppool.go
+++ b/msgppool.go
@@ -117,6 +117,27 @@ func (w ReaderMsgp) GetVersion() (v uint8) {
 	return b
 }
 
+// DecodeNext will decode the next object to v.
+// Memory use is bounded by the size of the input,
+// no matter the collection sizes it claims to contain.
+func (w ReaderMsgp) DecodeNext(v msgp.Unmarshaler) error {
+	var buf bytes.Buffer
+	_, err := w.r.CopyNext(&buf)
+	if err != nil {
+		return err
+	}
+	_, err = v.UnmarshalMsg(buf.Bytes())
+	return err
+}
+
+// checkMsgp returns an error if b doesn't contain a complete object.
+// This should be done before decoding collections from storage,
+// since these are allocated with the size they claim to have.
+func checkMsgp(b []byte) error {
+	_, err := msgp.Skip(b)
+	return err
+}
+
 // MsgpGetVersion reads the version and returns it from a byte slice.
 func MsgpGetVersion(in []byte) (b []byte, v uint8) {
 	v, in, err := msgp.ReadUint8Bytes(in)
diff --git a/segment.go b/segment.go
index 5b3c08b..3cb7154 100644
--- a/segment.go
+++ b/segment.go
@@ -210,7 +210,9 @@ func (s *Segment) loadElements(ctx context.Context, store blobstore.WithSet, rea
 	if b, v = MsgpGetVersion(b); v != elementsVersion {
 		return nil, ErrVersionMismatch
 	}
-	e = make(Elements, 0, s.N)
+	if err = checkMsgp(b); err != nil {
+		return nil, err
+	}
 	_, err = e.UnmarshalMsg(b)
 	forReader = e
 	if !readOnly {
diff --git a/segments.go b/segments.go
index 4313503..f2c5859 100644
--- a/segments.go
+++ b/segments.go
@@ -1006,7 +1006,9 @@ func (s SegmentsID) Load(ctx context.Context, store blobstore.WithSet, cache Cac
 	case 1:
 		return nil, errors.New("deprecated v1 found")
 	case segmentsVersion:
-		b, err = segs.UnmarshalMsg(b)
+		if err = checkMsgp(b); err == nil {
+			b, err = segs.UnmarshalMsg(b)
+		}
 	default:
 		return nil, ErrVersionMismatch
 	}
-- 
2.43.0


From f7036b873eab4856acf3b42e6546eda32cde4510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 18/44] fix: backup jobs reported lists that were not stored,
 failed restores panicked and lost the replaced list

---
 backup/job.go     | 57 ++++++++++++++++++++++++++++++++++++++---------
 backup/restore.go | 26 ++++++++++++++++-----
 list.go           | 10 +++++++--
 3 files changed, 75 insertions(+), 18 deletions(-)

diff --git a/backup/job.go b/backup/job.go
index 8018529..233e1b3 100644
--- a/backup/job.go
+++ b/backup/job.go
@@ -38,11 +38,24 @@ func (id ID) Status() *Status {
 		return nil
 	}
 	job.mu.Lock()
+	defer job.mu.Unlock()
+	// The job may still be updating the maps.
 	status := job.status
-	job.mu.Unlock()
+	status.Custom = copyMap(job.status.Custom)
+	status.Errors = copyMap(job.status.Errors)
+	status.Success = append(make([]string, 0, len(job.status.Success)), job.status.Success...)
 	return &status
 }
 
+// copyMap returns a copy of the map.
+func copyMap(m map[string]string) map[string]string {
+	dst := make(map[string]string, len(m))
+	for k, v := range m {
+		dst[k] = v
+	}
+	return dst
+}
+
 // Status returns the status of the jobState with the id.
 // Returns nil if the jobState cannot be found.
 func (id ID) Cancel() {
@@ -79,6 +92,20 @@ type jobState struct {
 	mu     sync.Mutex
 }
 
+// failed records an error that affects all lists of the backup.
+func (j *jobState) failed(lists rankdb.ListIDs, what string, err error) {
+	j.mu.Lock()
+	defer j.mu.Unlock()
+	j.status.Errors[what] = err.Error()
+	j.status.ListsDone = 0
+	j.status.Success = j.status.Success[:0]
+	for _, id := range lists {
+		if _, ok := j.status.Errors[string(id)]; !ok {
+			j.status.Errors[string(id)] = err.Error()
+		}
+	}
+}
+
 type Status struct {
 	// Custom information provided by backup
 	Custom map[string]string
@@ -163,9 +190,7 @@ func (req Request) Start(bg context.Context) ID {
 			if req.ErrCh != nil {
 				err := <-req.ErrCh
 				if err != nil {
-					job.mu.Lock()
-					job.status.Errors["delayed_error"] = err.Error()
-					job.mu.Unlock()
+					job.failed(req.Lists, "delayed_error", err)
 				}
 			}
 			wc.mu.Lock()
@@ -183,19 +208,32 @@ func (req Request) Start(bg context.Context) ID {
 		msg := rankdb.NewWriterMsg()
 		dst, err := job.dst.Save(ctx)
 		if err != nil {
-			job.status.Errors["saver"] = err.Error()
+			job.failed(req.Lists, "saver", err)
 			return
 		}
-		defer dst.Close()
 		wc.w = dst
 		zw, err := zstd.NewWriter(&wc)
 		if err != nil {
-			job.status.Errors["compress"] = err.Error()
+			dst.Close()
+			job.failed(req.Lists, "compress", err)
 			return
 		}
-		defer zw.Close()
 		msg.ReplaceWriter(zw)
-		defer msg.Close()
+		defer func() {
+			// The backup is only complete if everything has been written.
+			err := msg.Writer().Flush()
+			msg.Close()
+			if cerr := zw.Close(); err == nil {
+				err = cerr
+			}
+			if cerr := dst.Close(); err == nil {
+				err = cerr
+			}
+			if err != nil {
+				log.Error(ctx, "Backup could not be written", "error", err.Error())
+				job.failed(req.Lists, "finalizing", err)
+			}
+		}()
 		db := job.db
 
 		// The stream is just a collection of lists one after another.
@@ -240,7 +278,6 @@ func (req Request) Start(bg context.Context) ID {
 			job.status.Errors["finalizing"] = err.Error()
 			job.mu.Unlock()
 		}
-		msg.Flush()
 	}()
 
 	log.Info(ctx, "Backup started")
diff --git a/backup/restore.go b/backup/restore.go
index 3f7bf5f..0503ff1 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -8,6 +8,7 @@ import (
 	"bytes"
 	"context"
 	"io"
+	"io/ioutil"
 
 	"github.com/Vivino/rankdb"
 	"github.com/Vivino/rankdb/log"
@@ -64,6 +65,11 @@ func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
 		}
 		if !more {
 			log.Info(ctx, "Reached end of backup set")
+			// Read until the end, so the checksum of the content is checked.
+			_, err = io.Copy(ioutil.Discard, msg)
+			if err != nil {
+				return nil, err
+			}
 			break
 		}
 		v := msgr.GetVersion()
@@ -89,26 +95,34 @@ func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
 			return nil, err
 		}
 		b := buf.Bytes()
+		replace := false
 		if _, ok := ri.DB.Lists.ByID(dstLstID); ok {
 			if !ri.Replace {
 				res.Skipped++
 				// We have already consumed the body, so we can safely continue.
 				continue
 			}
-			// List will be shortly unavailable.
-			err := ri.DB.DeleteList(ctx, dstLstID)
-			if err != nil {
-				log.Error(ctx, "Error Deleting List", "list_id", dstLstID, "error", err.Error())
-				// Restore it anyway.
-			}
+			replace = true
 		}
 
 		lst, err := rankdb.RestoreList(ctx, db.Storage, rankdb.NewReaderMsgp(b), ri.Cache, &dstLstID)
 		if err != nil {
+			if res.Failed == nil {
+				res.Failed = make(map[string]string)
+			}
 			res.Failed[string(dstLstID)] = err.Error()
 			log.Error(ctx, "Error Restoring List", "list_id", dstLstID, "error", err.Error())
 			continue
 		}
+		if replace {
+			// The existing list is only deleted when we have a replacement.
+			// List will be shortly unavailable.
+			err := ri.DB.DeleteList(ctx, dstLstID)
+			if err != nil {
+				log.Error(ctx, "Error Deleting List", "list_id", dstLstID, "error", err.Error())
+				// Restore it anyway.
+			}
+		}
 		db.Lists.Add(lst)
 		res.Restored++
 	}
diff --git a/list.go b/list.go
index c627c82..328c6dc 100644
--- a/list.go
+++ b/list.go
@@ -1990,13 +1990,13 @@ func (l *List) Backup(ctx context.Context, bs blobstore.Store, w *WriterMsgp) er
 // RestoreList will restore a list.
 // If "newID" is provided, the list is saved with its new new and segments are given new ids.
 // Otherwise the exact same list is restored.
-func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache, newID *ListID) (*List, error) {
+func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache, newID *ListID) (lst *List, err error) {
 	l := newList(c, nil)
 	if r.GetVersion() != backupVersion {
 		log.Error(ctx, "RestoreList: backupVersion mismatch")
 		return nil, ErrVersionMismatch
 	}
-	err := r.DecodeNext(l)
+	err = r.DecodeNext(l)
 	if err != nil {
 		return nil, err
 	}
@@ -2027,6 +2027,12 @@ func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache
 		s.ID = SegmentsID(RandString(8))
 		l.Scores = s.ID
 		l.Index = ""
+		defer func() {
+			// Nothing will refer to the segments if we fail.
+			if err != nil {
+				_ = s.Delete(ctx, store)
+			}
+		}()
 	}
 	// Read expected segment count
 	segs, err := r.Reader().ReadInt()
-- 
2.43.0


From 0ffdeb9c0102451019d4b479477e90e4771f7349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:59 +0000
Subject: [PATCH 19/44] fix: a backup to another server was reported as stored
 when the server refused it

---
 backup/server/rankdb.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/backup/server/rankdb.go b/backup/server/rankdb.go
index 61fb397..db49d16 100644
--- a/backup/server/rankdb.go
+++ b/backup/server/rankdb.go
@@ -50,11 +50,11 @@ func (r *RankDB) Save(ctx context.Context) (io.WriteCloser, error) {
 		return nil, err
 	}
 	req = req.WithContext(ctx)
-	b := bodyWriter{req: req, c: r.c}
+	b := bodyWriter{req: req, c: r.c, done: make(chan struct{})}
 	b.r, b.w = io.Pipe()
 	log.Info(ctx, "Created pipe for writing", "full_path", b.req.URL.String())
 	go b.Transfer(ctx)
-	return b.w, nil
+	return &b, nil
 }
 
 // bodyWriter provides transfer from the pipe writer to the body of the request.
@@ -67,21 +67,40 @@ type bodyWriter struct {
 	c *client.Client
 	// request to which the body is written.
 	req *http.Request
+	// done is closed when the transfer has ended and err is set.
+	done chan struct{}
+	err  error
+}
+
+// Write backup data to the request body.
+func (b *bodyWriter) Write(p []byte) (int, error) {
+	return b.w.Write(p)
+}
+
+// Close ends the request body and returns whether the
+// destination server accepted the backup.
+func (b *bodyWriter) Close() error {
+	_ = b.w.Close()
+	<-b.done
+	return b.err
 }
 
 // Transfer the body after executing the request.
 // Errors are logged, and the pipe will be closed with an error if any occurs.
 func (b *bodyWriter) Transfer(ctx context.Context) {
 	log.Info(ctx, "Starting tranfer to destination server", "full_path", b.req.URL.String())
+	defer close(b.done)
 	b.req.Body = b.r
 	resp, err := b.c.Do(ctx, b.req)
 	if err != nil {
 		log.Error(ctx, "Backup transfer failed", "error", err)
+		b.err = err
 		_ = b.r.CloseWithError(err)
 		return
 	}
 	if resp.StatusCode != http.StatusOK {
 		err := decodeError(ctx, resp, b.c)
+		b.err = err
 		log.Error(ctx, "Backup transfer failed", "error", err)
 		_ = b.r.CloseWithError(err)
 		return
-- 
2.43.0


From c231aa0d010906b3efb7ae40b421298000258d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 20/44] fix: a stored partition table without partitions
 crashed the server

---
 segments.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/segments.go b/segments.go
index f2c5859..80dfbf8 100644
--- a/segments.go
+++ b/segments.go
@@ -1016,6 +1016,10 @@ func (s SegmentsID) Load(ctx context.Context, store blobstore.WithSet, cache Cac
 		log.Info(ctx, "Got err:", "error", err, "length", len(b))
 		return nil, err
 	}
+	if len(segs.Segments) == 0 {
+		// There is always at least one segment.
+		return nil, errors.New("no segments found")
+	}
 	segs.cache = cache
 	for i := range segs.Segments {
 		segs.Segments[i].loader = &elementLoader{}
-- 
2.43.0


From 9d1a4d4b52fbd9c907ae31f0f9d2ba7fd0d30a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:01 +0000
Subject: [PATCH 21/44] fix: sorting 25000 or more elements with equal scores
 never ended

---
 elements.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elements.go b/elements.go
index 70092da..981fa21 100644
--- a/elements.go
+++ b/elements.go
@@ -131,7 +131,8 @@ func (l *Elements) Sort() (changed bool) {
 	// Split + sort
 	split := l.SplitSize(2500)
 	for i, s := range split {
-		s.Sort()
+		// Elements with equal score and tiebreaker are not split, so s may still be big.
+		sort.Slice(s, s.Sorter())
 		split[i] = s
 	}
 
-- 
2.43.0


From 499dd34f027d87ada0961568f9887715484813b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 22/44] fix: an unreadable catalogue without a backup was
 treated as a fresh store

---
 manager.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/manager.go b/manager.go
index 701c451..5ccc4e8 100644
--- a/manager.go
+++ b/manager.go
@@ -175,10 +175,14 @@ func (m *Manager) LoadLists(ctx context.Context, cache Cache) error {
 	}
 	// Load backup.
 	log.Error(ctx, "Unable to load master list, loading from backup", "error", err.Error())
-	blob, err = m.Backup.Get(ctx, backupListStorageKey)
-	if err != nil {
+	blob, berr := m.Backup.Get(ctx, backupListStorageKey)
+	if berr == blobstore.ErrBlobNotFound {
+		// Only return that lists could not be found if there is no master list either.
 		return err
 	}
+	if berr != nil {
+		return berr
+	}
 	return m.Lists.Load(ctx, m.Storage, blob)
 }
 
-- 
2.43.0


From 8e770c278f285b4483da6ca307d513070d8c04dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 23/44] fix: damage at the end of a stored catalogue was not
 noticed

---
 lists.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lists.go b/lists.go
index 94fbaf9..d0da058 100644
--- a/lists.go
+++ b/lists.go
@@ -10,6 +10,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"sort"
 	"sync"
 	"time"
@@ -229,6 +230,11 @@ func (l *Lists) Load(ctx context.Context, bs blobstore.Store, b []byte) error {
 	if err != nil {
 		return err
 	}
+	// Read until the end, so the checksum of the content is checked.
+	_, err = io.Copy(ioutil.Discard, msg)
+	if err != nil {
+		return err
+	}
 	l.lists = loaded.lists
 	log.Info(ctx, "Loaded lists", "list count", n, "size", len(b), "duration", time.Since(start))
 	if len(lazyLoad) > 0 {
-- 
2.43.0


From 6e2dba9d3dbeb3ec68036dc192c98c1bb48e5a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 24/44] fix: a server failing to load its catalogue saved an
 empty one over it

---
 api/rankdb.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/api/rankdb.go b/api/rankdb.go
index e9c41d3..1783d55 100644
--- a/api/rankdb.go
+++ b/api/rankdb.go
@@ -259,6 +259,13 @@ func StartServer(ctx context.Context, confData io.Reader, lr *logrus.Logger) err
 		log.Info(ctx, "Creating new lists")
 		err = db.NewLists(cache)
 	}
+	if err != nil {
+		// Do not start saver, so existing lists are not overwritten.
+		for i := range closeStores {
+			defer closeStores[i]()
+		}
+		return err
+	}
 	db.StartIntervalSaver(ctx, config.SaveEvery.Duration, shutdown.Second("List saver"))
 	db.StartListPruner(ctx, config.PruneEvery.Duration, shutdown.First("List pruner"))
 	db.StartListSplitter(ctx, store, shutdown.First("List Splitter"))
-- 
2.43.0


From 4f686710979edc83551b593984814d365a5c8f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:52 +0000
Subject: [PATCH 25/44] fix: a percentile could be not found while elements
 were moved concurrently

---
 list.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 328c6dc..68594f3 100644
--- a/list.go
+++ b/list.go
@@ -1796,8 +1796,19 @@ func (l *List) GetPercentile(ctx context.Context, bs blobstore.Store, percentile
 	if percentile < 0 {
 		percentile = 0
 	}
+	e, err := l.getPercentile(ctx, bs, percentile, radius, segsReadOnly|segsAllowUpdates)
+	if err == ErrNotFound {
+		// The elements may have been moved by a concurrent update.
+		e, err = l.getPercentile(ctx, bs, percentile, radius, segsReadOnly|segsLockUpdates)
+	}
+	return e, err
+}
+
+// getPercentile returns the element at a given percentile.
+// The percentile must be between 0 and 1.
+func (l *List) getPercentile(ctx context.Context, bs blobstore.Store, percentile float64, radius int, fl loadFlags) (*RankedElement, error) {
 	// Ensure segments are loaded.
-	segs, err := l.loadSegments(ctx, bs, segsReadOnly|segsAllowUpdates)
+	segs, err := l.loadSegments(ctx, bs, fl)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2b4cc5d656d45483ae84e6ac733ed442f6767e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:14 +0000
Subject: [PATCH 26/44] fix: failed restore of a replaced list deleted elements
 of the existing list

---
 list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/list.go b/list.go
index 68594f3..30b3e53 100644
--- a/list.go
+++ b/list.go
@@ -2038,6 +2038,10 @@ func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache
 		s.ID = SegmentsID(RandString(8))
 		l.Scores = s.ID
 		l.Index = ""
+		// The original segments may still be in use.
+		for i := range s.Segments {
+			s.Segments[i].Parent = s.ID
+		}
 		defer func() {
 			// Nothing will refer to the segments if we fail.
 			if err != nil {
-- 
2.43.0


From 2ea0c97a9d9e4131cdc686c66a218a938524e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 27/44] fix: retry store leaked permanent errors into the
 defaults and panicked on uncomparable errors

---
 blobstore/retry.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/blobstore/retry.go b/blobstore/retry.go
index 87fcaf2..3426ed7 100644
--- a/blobstore/retry.go
+++ b/blobstore/retry.go
@@ -6,6 +6,7 @@ package blobstore
 
 import (
 	"context"
+	"reflect"
 	"time"
 
 	"github.com/cenkalti/backoff"
@@ -84,7 +85,7 @@ func (l RetryOpt) PermanentErr(errs ...error) RetryStoreOption {
 		}
 		for _, err := range errs {
 			if err != nil {
-				o.permanent[err] = struct{}{}
+				perm[err] = struct{}{}
 			}
 		}
 		o.permanent = perm
@@ -183,8 +184,11 @@ func (r *RetryStore) Delete(ctx context.Context, set, key string) error {
 // opErr checks if an error is permanent or the context is cancelled
 // and returns a permanent error if so.
 func (r *RetryStore) opErr(ctx context.Context, err error) error {
-	if _, ok := r.permanent[err]; ok {
-		return backoff.Permanent(err)
+	// Errors that cannot be compared cannot be looked up.
+	if reflect.TypeOf(err).Comparable() {
+		if _, ok := r.permanent[err]; ok {
+			return backoff.Permanent(err)
+		}
 	}
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From 88dca89503ad48ed29b5d0b8c68e4f4a8aa45575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 28/44] fix: memory store returned its internal buffer and
 mixed up sets and keys containing slashes

---
 blobstore/memstore/memstore.go | 42 ++++++++++++++++------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/blobstore/memstore/memstore.go b/blobstore/memstore/memstore.go
index cf6c51b..2136e4f 100644
--- a/blobstore/memstore/memstore.go
+++ b/blobstore/memstore/memstore.go
@@ -8,7 +8,6 @@ import (
 	"context"
 	"fmt"
 	"sort"
-	"strings"
 	"sync"
 
 	"github.com/Vivino/rankdb/blobstore"
@@ -18,32 +17,29 @@ import (
 // NewMemStore returns a new MemBlobStore
 func NewMemStore() *MemBlobStore {
 	return &MemBlobStore{
-		blobs:   make(map[string][]byte),
-		reads:   make(map[string]int),
-		writes:  make(map[string]int),
-		deletes: make(map[string]int),
+		blobs:   make(map[blobKey][]byte),
+		reads:   make(map[blobKey]int),
+		writes:  make(map[blobKey]int),
+		deletes: make(map[blobKey]int),
 	}
 }
 
 type MemBlobStore struct {
 	blobsMu sync.Mutex
-	blobs   map[string][]byte
-	reads   map[string]int
-	writes  map[string]int
-	deletes map[string]int
+	blobs   map[blobKey][]byte
+	reads   map[blobKey]int
+	writes  map[blobKey]int
+	deletes map[blobKey]int
 	debug   bool
 }
 
-func toKey(set, key string) string {
-	return set + "/" + key
+// blobKey identifies a blob.
+type blobKey struct {
+	set, key string
 }
 
-func splitKey(k string) (set, key string) {
-	s := strings.Split(k, "/")
-	if len(s) != 2 {
-		panic(fmt.Errorf("len != 2, was %d", len(s)))
-	}
-	return s[0], s[1]
+func toKey(set, key string) blobKey {
+	return blobKey{set: set, key: key}
 }
 
 func (m *MemBlobStore) Get(ctx context.Context, set, key string) ([]byte, error) {
@@ -57,7 +53,10 @@ func (m *MemBlobStore) Get(ctx context.Context, set, key string) ([]byte, error)
 	if !ok {
 		return nil, blobstore.ErrBlobNotFound
 	}
-	return blob, nil
+	// Copy, so the caller can modify it.
+	dst := make([]byte, len(blob))
+	copy(dst, blob)
+	return dst, nil
 }
 
 func (m *MemBlobStore) Set(ctx context.Context, set, key string, val []byte) error {
@@ -93,7 +92,7 @@ func (m *MemBlobStore) Delete(ctx context.Context, set, key string) error {
 func (m *MemBlobStore) Usage(set string) (blobs, size int) {
 	m.blobsMu.Lock()
 	for k, v := range m.blobs {
-		if strings.HasPrefix(k, toKey(set, "")) {
+		if k.set == set {
 			size += len(v)
 			blobs++
 		}
@@ -106,9 +105,8 @@ func (m *MemBlobStore) Dir(set string) []string {
 	var res []string
 	m.blobsMu.Lock()
 	for k, v := range m.blobs {
-		s, key := splitKey(k)
-		if set == s {
-			res = append(res, fmt.Sprintf("%s: %d bytes [r:%d, w:%d, d:%d]", key, len(v), m.reads[k], m.writes[k], m.deletes[k]))
+		if set == k.set {
+			res = append(res, fmt.Sprintf("%s: %d bytes [r:%d, w:%d, d:%d]", k.key, len(v), m.reads[k], m.writes[k], m.deletes[k]))
 		}
 	}
 	m.blobsMu.Unlock()
-- 
2.43.0


From ab785c823abedacb157f2e2c223181df974e83f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:07 +0000
Subject: [PATCH 29/44] fix: max size store mixed parts of two blobs after a
 failed write, ignored failing deletes and trusted damaged headers

---
 blobstore/maxsize.go | 63 +++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index 1ec61e5..028fae1 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -46,7 +46,7 @@ func NewMaxSizeStore(store Store, maxSize int) (*MaxSizeStore, error) {
 }
 
 func mapKey(set, key string) string {
-	return set + `/\` + key
+	return strconv.Itoa(len(set)) + `/` + set + `/\` + key
 }
 
 func extKey(key string, n int) string {
@@ -73,18 +73,18 @@ func (r *MaxSizeStore) Get(ctx context.Context, set, key string) ([]byte, error)
 		return nil, err
 	}
 	n, size := binary.Uvarint(b)
-	if size < 1 {
+	if size < 1 || n >= math.MaxUint16 {
 		return nil, errors.New("corrupt blob")
 	}
 	b = b[size:]
 	if n == 0 {
-		r.mu.Lock()
-		delete(r.parts, mapKey(set, key))
-		r.mu.Unlock()
 		return b, nil
 	}
 	r.mu.Lock()
-	r.parts[mapKey(set, key)] = int(n + 1)
+	// There may be more parts if deleting them failed.
+	if int(n+1) > r.parts[mapKey(set, key)] {
+		r.parts[mapKey(set, key)] = int(n + 1)
+	}
 	r.mu.Unlock()
 	for i := 0; i < int(n); i++ {
 		b2, err := r.store.Get(ctx, set, extKey(key, i))
@@ -114,12 +114,16 @@ func (r *MaxSizeStore) Set(ctx context.Context, set, key string, b []byte) error
 	// Since we are saving it is extremely likely a load has previously been done.
 	r.mu.Lock()
 	prev := r.parts[mapKey(set, key)]
+	if total > prev && total > 1 {
+		// If we fail, some of these may have been stored.
+		r.parts[mapKey(set, key)] = total
+	}
 	r.mu.Unlock()
-	for i := total; i < prev; i++ {
-		kkey := extKey(key, i-1)
-		err := r.store.Delete(ctx, set, kkey)
+	if total > 1 {
+		// Never combine the parts of two blobs, so the first part is removed until all others are stored.
+		err := r.store.Delete(ctx, set, key)
 		if err != nil {
-			log.Error(ctx, "Error deleting extra segments", "error", err, "key", kkey, "set", set)
+			return err
 		}
 	}
 
@@ -128,27 +132,41 @@ func (r *MaxSizeStore) Set(ctx context.Context, set, key string, b []byte) error
 	copy(b2, buf[:s])
 	copy(b2[s:], b)
 
-	for i := 0; i < total; i++ {
+	// Store the first part last.
+	for i := total - 1; i >= 0; i-- {
 		kkey := key
 		if i > 0 {
 			kkey = extKey(key, i-1)
 		}
-		l := r.maxsize
-		if l > len(b2) {
-			l = len(b2)
+		start, end := i*r.maxsize, (i+1)*r.maxsize
+		if end > len(b2) {
+			end = len(b2)
 		}
-		b = b2[:l]
-		err := r.store.Set(ctx, set, kkey, b)
+		if start > end {
+			start = end
+		}
+		err := r.store.Set(ctx, set, kkey, b2[start:end])
 		if err != nil {
 			return err
 		}
-		b2 = b2[l:]
+	}
+	keep := total
+	for i := prev - 1; i >= total; i-- {
+		kkey := extKey(key, i-1)
+		err := r.store.Delete(ctx, set, kkey)
+		if err != nil {
+			log.Error(ctx, "Error deleting extra segments", "error", err, "key", kkey, "set", set)
+			if keep == total {
+				// Delete next time.
+				keep = i + 1
+			}
+		}
 	}
 	r.mu.Lock()
-	if total == 1 {
+	if keep == 1 {
 		delete(r.parts, mapKey(set, key))
 	} else {
-		r.parts[mapKey(set, key)] = total
+		r.parts[mapKey(set, key)] = keep
 	}
 	r.mu.Unlock()
 	return nil
@@ -163,12 +181,15 @@ func (r *MaxSizeStore) Delete(ctx context.Context, set, key string) error {
 
 	if n == 0 {
 		b, err := r.store.Get(ctx, set, key)
-		if err != nil {
+		if err == ErrBlobNotFound {
 			return nil
 		}
+		if err != nil {
+			return err
+		}
 		var size int
 		n, size = binary.Uvarint(b)
-		if size < 1 {
+		if size < 1 || n >= math.MaxUint16 {
 			n = 0
 		}
 		n++
-- 
2.43.0


From d8841c3ad835cab6f9c22cd8bceb05ed3ebee8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:43 +0000
Subject: [PATCH 30/44] fix: badger store lost queued writes of failed flushes,
 mixed up sets containing slashes and showed old values during deletes

---
 blobstore/badgerstore/badger.go | 67 +++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/blobstore/badgerstore/badger.go b/blobstore/badgerstore/badger.go
index 931a489..8b7ba93 100644
--- a/blobstore/badgerstore/badger.go
+++ b/blobstore/badgerstore/badger.go
@@ -6,7 +6,9 @@ package badgerstore
 
 import (
 	"context"
+	"encoding/hex"
 	"fmt"
+	"strings"
 	"sync"
 
 	"github.com/Vivino/rankdb/blobstore"
@@ -16,6 +18,9 @@ import (
 
 const queueSize = 100
 
+// maxQueuedKey is the longest key that is queued.
+const maxQueuedKey = 1 << 10
+
 // New returns a new BadgerStore with the provided options.
 func New(opts badger.Options) (*BadgerStore, error) {
 	db, err := badger.Open(opts)
@@ -43,16 +48,21 @@ func (b *BadgerStore) Close() error {
 	err := b.flush()
 	err2 := b.db.Close()
 	if err != nil {
-		return err2
+		return err
 	}
-	return err
+	return err2
 }
 
 func (b *BadgerStore) key(set, key string) []byte {
-	return []byte(set + "/" + key)
+	return []byte(b.keyString(set, key))
 }
 
 func (b *BadgerStore) keyString(set, key string) string {
+	// Sets must not contain the separator or the prefix reserved by Badger.
+	if strings.Contains(set, "/") || strings.HasPrefix(set, "!badger!") {
+		// Without a separator this cannot collide with keys of other sets.
+		return hex.EncodeToString([]byte(set)) + ":" + hex.EncodeToString([]byte(key))
+	}
 	return set + "/" + key
 }
 
@@ -86,24 +96,35 @@ func (b *BadgerStore) Get(ctx context.Context, set, key string) ([]byte, error)
 
 func (b *BadgerStore) flush() error {
 	txn := b.db.NewTransaction(true)
+	var added []string
+	commit := func() error {
+		err := txn.Commit()
+		if err != nil {
+			return err
+		}
+		for _, k := range added {
+			delete(b.queue, k)
+		}
+		added = added[:0]
+		return nil
+	}
 	for k, v := range b.queue {
-		if err := txn.Set([]byte(k), v); err == badger.ErrTxnTooBig {
-			err = txn.Commit()
-			txn = b.db.NewTransaction(true)
-			err = txn.Set([]byte(k), v)
+		err := txn.Set([]byte(k), v)
+		if err == badger.ErrTxnTooBig {
+			err = commit()
 			if err != nil {
-				txn.Discard()
 				return err
 			}
-			delete(b.queue, k)
-		} else if err == nil {
-			delete(b.queue, k)
-		} else {
+			txn = b.db.NewTransaction(true)
+			err = txn.Set([]byte(k), v)
+		}
+		if err != nil {
 			txn.Discard()
 			return err
 		}
+		added = append(added, k)
 	}
-	return txn.Commit()
+	return commit()
 }
 
 func (b *BadgerStore) Set(ctx context.Context, set, key string, val []byte) error {
@@ -112,6 +133,16 @@ func (b *BadgerStore) Set(ctx context.Context, set, key string, val []byte) erro
 	copy(dst, val)
 	b.mu.Lock()
 	defer b.mu.Unlock()
+	if len(cKey) > maxQueuedKey || len(dst) > blobstore.MaxSize {
+		// Do not queue entries that may be refused.
+		err := b.db.Update(func(tx *badger.Txn) error {
+			return tx.Set([]byte(cKey), dst)
+		})
+		if err == nil {
+			delete(b.queue, cKey)
+		}
+		return err
+	}
 	b.queue[cKey] = dst
 	if len(b.queue) >= queueSize {
 		return b.flush()
@@ -120,16 +151,20 @@ func (b *BadgerStore) Set(ctx context.Context, set, key string, val []byte) erro
 }
 
 func (b *BadgerStore) Delete(ctx context.Context, set, key string) error {
+	// Keep lock, so an older value isn't visible.
 	b.mu.Lock()
-	delete(b.queue, b.keyString(set, key))
-	b.mu.Unlock()
-	return b.db.Update(func(tx *badger.Txn) error {
+	defer b.mu.Unlock()
+	err := b.db.Update(func(tx *badger.Txn) error {
 		err := tx.Delete(b.key(set, key))
 		if err == badger.ErrKeyNotFound {
 			err = nil
 		}
 		return err
 	})
+	if err == nil {
+		delete(b.queue, b.keyString(set, key))
+	}
+	return err
 }
 
 // BadgerLogger converts a logger on a context to a Badger logger.
-- 
2.43.0


From 82567ee539831e1c640bcddc1a868f84c73c3546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 31/44] fix: lazy saver lost failed saves, could save old
 values last, mixed up keys with slashes and hung writes racing shutdown

---
 blobstore/lazysaver.go | 107 ++++++++++++++++++++++++++++++++---------
 1 file changed, 83 insertions(+), 24 deletions(-)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index 72a71ba..cfa72b3 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -24,7 +24,8 @@ type LazySaver struct {
 	mu           sync.RWMutex
 	tokens       chan struct{}
 	cache        *list.List
-	cacheIdx     map[string]*list.Element
+	cacheIdx     map[lazyID]*list.Element
+	inFlight     map[lazyID]struct{}
 	itemAdded    chan struct{}
 	savech       chan *list.Element
 	shuttingDown bool
@@ -73,8 +74,12 @@ type updateItemRequest struct {
 	seen     time.Time
 	token    struct{}
 	saving   bool
+	failed   int
 }
 
+// maxSaveAttempts is the number of times saving an item is attempted before it is dropped.
+const maxSaveAttempts = 5
+
 type lazySaveOption func(*lazySaveOptions) error
 
 type lazySaveOptions struct {
@@ -176,7 +181,8 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 		lazySaveOptions: defaultLazySaveOptions,
 		store:           store,
 		cache:           list.New(),
-		cacheIdx:        make(map[string]*list.Element),
+		cacheIdx:        make(map[lazyID]*list.Element),
+		inFlight:        make(map[lazyID]struct{}),
 		itemAdded:       make(chan struct{}, 1),
 		savech:          make(chan *list.Element),
 		shutdownCh:      make(chan struct{}, 0),
@@ -238,6 +244,11 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 		// Copy b, so caller is free to re-use.
 		b = append(getDataBufferChunk(len(b)), b...)
 		l.mu.Lock()
+		if l.shuttingDown {
+			// Nothing would save it.
+			l.mu.Unlock()
+			return ErrShuttingDown
+		}
 		e, ok := l.cacheIdx[lazyKey(set, key)]
 		if ok {
 			// First update cache, since we have it.
@@ -249,6 +260,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 				// Old buffer can go into the pool. We have lock.
 				putDataBufferChunk(v.b)
 				v.b = b
+				v.failed = 0
 				e.Value = v
 				l.mu.Unlock()
 				return nil
@@ -268,6 +280,11 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 		// First update cache, if we have it.
 		r := updateItemRequest{ctx: ctx, set: set, key: key, seen: time.Now()}
 		l.mu.Lock()
+		if l.shuttingDown {
+			// Nothing would save it.
+			l.mu.Unlock()
+			return ErrShuttingDown
+		}
 		e, ok := l.cacheIdx[lazyKey(set, key)]
 		if ok {
 			if l.verbose {
@@ -278,6 +295,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 				// Old buffer can go into the pool. We have lock.
 				putDataBufferChunk(v.b)
 				v.b = nil
+				v.failed = 0
 				e.Value = v
 				l.mu.Unlock()
 				return nil
@@ -312,6 +330,11 @@ func (l *LazySaver) add(r updateItemRequest) {
 	e := l.cache.PushBack(r)
 	l.cacheIdx[lazyKey(r.set, r.key)] = e
 	l.mu.Unlock()
+	l.signal()
+}
+
+// signal the request handler that items should be checked.
+func (l *LazySaver) signal() {
 	select {
 	case l.itemAdded <- struct{}{}:
 		if l.verbose {
@@ -324,8 +347,20 @@ func (l *LazySaver) add(r updateItemRequest) {
 	}
 }
 
+// canSave returns whether the item can be sent to a saver.
+// Only one item with the same key must be saved at the time, so an old value isn't saved last.
+// caller must hold l.mu.
+func (l *LazySaver) canSave(v updateItemRequest) bool {
+	if v.saving {
+		return false
+	}
+	_, ok := l.inFlight[lazyKey(v.set, v.key)]
+	return !ok
+}
+
 // saveFront will send oldest element to saver.
-// Returns the approximate number of elements in the queue.
+// Returns the approximate number of elements in the queue,
+// or 0 if no element could be sent.
 func (l *LazySaver) saveFront() int {
 	l.mu.Lock()
 	e := l.cache.Front()
@@ -335,7 +370,7 @@ func (l *LazySaver) saveFront() int {
 			return 0
 		}
 		v := e.Value.(updateItemRequest)
-		if !v.saving {
+		if l.canSave(v) {
 			break
 		}
 		e = e.Next()
@@ -343,6 +378,7 @@ func (l *LazySaver) saveFront() int {
 	n := l.cache.Len()
 	v := e.Value.(updateItemRequest)
 	v.saving = true
+	l.inFlight[lazyKey(v.set, v.key)] = struct{}{}
 	e.Value = v
 	l.mu.Unlock()
 	l.savech <- e
@@ -366,22 +402,18 @@ func (l *LazySaver) requestHandler() {
 			l.logger.Info("Cycling saver")
 		}
 		if l.shuttingDown {
-			e := l.cache.Front()
-			for {
-				if e == nil {
-					l.mu.RUnlock()
-					return
-				}
-				if !e.Value.(updateItemRequest).saving {
-					break
-				}
-				e = e.Next()
+			if l.cache.Len() == 0 {
+				l.mu.RUnlock()
+				return
 			}
 			if l.verbose {
 				l.logger.Info("Flushing front item", "queued", l.cache.Len())
 			}
 			l.mu.RUnlock()
-			l.saveFront()
+			if l.saveFront() == 0 {
+				// Wait for savers.
+				<-l.itemAdded
+			}
 			continue
 		}
 		if l.cache.Len() > opts.flushItems {
@@ -389,7 +421,13 @@ func (l *LazySaver) requestHandler() {
 				l.logger.Info("Flushing front item ( > flushItems)", "queued", l.cache.Len())
 			}
 			l.mu.RUnlock()
-			l.saveFront()
+			if l.saveFront() == 0 {
+				// Wait for savers or shutdown.
+				select {
+				case <-l.itemAdded:
+				case <-shutdownCh:
+				}
+			}
 			continue
 		}
 		next := l.cache.Front()
@@ -397,7 +435,7 @@ func (l *LazySaver) requestHandler() {
 			if next == nil {
 				break
 			}
-			if v := next.Value.(updateItemRequest); !v.saving {
+			if v := next.Value.(updateItemRequest); l.canSave(v) {
 				nextIn := time.Until(v.seen.Add(l.maxTime))
 				if nextIn <= time.Nanosecond {
 					nextIn = time.Nanosecond
@@ -501,19 +539,35 @@ func (l *LazySaver) startSaver(n int) {
 			}
 			return true
 		}()
-		_ = ok
-		// Now remove from cache
-		tokens <- v.token
 		l.mu.Lock()
-		l.cache.Remove(e)
 		lk := lazyKey(v.set, v.key)
-		if found := l.cacheIdx[lk]; e == found {
+		delete(l.inFlight, lk)
+		newest := l.cacheIdx[lk] == e
+		if !ok && newest {
+			v.failed++
+			if v.failed < maxSaveAttempts {
+				// Keep it, so it isn't lost, and try again later.
+				v.saving = false
+				v.seen = time.Now()
+				e.Value = v
+				l.cache.MoveToBack(e)
+				l.mu.Unlock()
+				l.signal()
+				continue
+			}
+			log.Error(ctxb, "Unable to save blob, dropping it", "set", v.set, "key", v.key)
+		}
+		// Now remove from cache
+		l.cache.Remove(e)
+		if newest {
 			delete(l.cacheIdx, lk)
 		}
 		if dataDone != nil {
 			putDataBufferChunk(dataDone)
 		}
 		l.mu.Unlock()
+		l.signal()
+		tokens <- v.token
 	}
 }
 
@@ -635,8 +689,13 @@ func (l *LazySaver) Delete(ctx context.Context, set, key string) error {
 	return fn(ctx, set, key)
 }
 
-func lazyKey(set, key string) string {
-	return set + "/" + key
+// lazyID identifies an item.
+type lazyID struct {
+	set, key string
+}
+
+func lazyKey(set, key string) lazyID {
+	return lazyID{set: set, key: key}
 }
 
 var (
-- 
2.43.0


From fcae14715ea0775698f12a88c3aa8f31e6afafa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:37 +0000
Subject: [PATCH 32/44] fix: damaged compressed catalogues and backups could
 allocate up to 1 GB

---
 backup/restore.go | 6 +++++-
 lists.go          | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/backup/restore.go b/backup/restore.go
index 0503ff1..d16ac44 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -15,6 +15,10 @@ import (
 	"github.com/klauspost/compress/zstd"
 )
 
+// maxWindow limits the memory allocated when data is damaged.
+// Backups are written with a window of 4MB.
+const maxWindow = 32 << 20
+
 // RestoreInfo contains restoration info.
 type RestoreInfo struct {
 	// Source to read the data.
@@ -48,7 +52,7 @@ func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
 		return nil, err
 	}
 	defer r.Close()
-	zr, err := zstd.NewReader(r)
+	zr, err := zstd.NewReader(r, zstd.WithDecoderMaxMemory(maxWindow))
 	if err != nil {
 		return nil, err
 	}
diff --git a/lists.go b/lists.go
index d0da058..4521aef 100644
--- a/lists.go
+++ b/lists.go
@@ -23,6 +23,10 @@ import (
 	"github.com/tinylib/msgp/msgp"
 )
 
+// maxZstdWindow limits the memory allocated when data is damaged.
+// Lists are written with a window of 4MB.
+const maxZstdWindow = 32 << 20
+
 // Lists contains an id indexed
 type Lists struct {
 	lists *sync.Map
@@ -171,7 +175,7 @@ func (l *Lists) Load(ctx context.Context, bs blobstore.Store, b []byte) error {
 		case compressionNone:
 			rm = NewReaderMsgp(b)
 		case compressionZstd:
-			dec, err := zstd.NewReader(bytes.NewBuffer(b))
+			dec, err := zstd.NewReader(bytes.NewReader(b), zstd.WithDecoderMaxMemory(maxZstdWindow))
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 88a6ebc35b0a9d45f5e685735bbf6afb89e24ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:37 +0000
Subject: [PATCH 33/44] fix: retried delete of a large blob left parts when the
 first attempt failed

---
 blobstore/maxsize.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index 028fae1..48f425c 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -193,6 +193,12 @@ func (r *MaxSizeStore) Delete(ctx context.Context, set, key string) error {
 			n = 0
 		}
 		n++
+		if n > 1 {
+			// If we fail, there may still be parts.
+			r.mu.Lock()
+			r.parts[mapKey(set, key)] = int(n)
+			r.mu.Unlock()
+		}
 	}
 	for i := 0; i < int(n); i++ {
 		kkey := key
-- 
2.43.0


From 60a661e777b561f2a9326ab34ef3313ff10efcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 34/44] fix: neighbours above an element were returned nearest
 first with the ranks of the opposite order

---
 api/morph/elements.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/api/morph/elements.go b/api/morph/elements.go
index b9a5112..7cf2634 100644
--- a/api/morph/elements.go
+++ b/api/morph/elements.go
@@ -56,7 +56,7 @@ func (r RankedElement) Full(id rankdb.ListID) *app.RankdbElementFull {
 		Below app.RankdbElementCollection `form:"below,omitempty" json:"below,omitempty" yaml:"below,omitempty" xml:"below,omitempty"`
 	}{
 		Below: Elements{In: in.Below}.ToRanked(in.FromTop+1, in.FromBottom-1, id),
-		Above: Elements{In: in.Above}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
+		Above: Elements{In: reversed(in.Above)}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
 	}
 
 	return &app.RankdbElementFull{
@@ -110,7 +110,7 @@ func (r RankedElement) FullUpdate(id rankdb.ListID) *app.RankdbElementFullUpdate
 		Below app.RankdbElementCollection `form:"below,omitempty" json:"below,omitempty" yaml:"below,omitempty" xml:"below,omitempty"`
 	}{
 		Below: Elements{In: in.Below}.ToRanked(in.FromTop+1, in.FromBottom-1, id),
-		Above: Elements{In: in.Above}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
+		Above: Elements{In: reversed(in.Above)}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
 	}
 
 	return &app.RankdbElementFullUpdate{
@@ -162,6 +162,17 @@ type Elements struct {
 	In []rankdb.Element
 }
 
+// reversed returns the elements in opposite order.
+// The elements above an element are supplied nearest first,
+// but are returned best first, ending with the nearest.
+func reversed(in []rankdb.Element) []rankdb.Element {
+	res := make([]rankdb.Element, len(in))
+	for i, e := range in {
+		res[len(in)-1-i] = e
+	}
+	return res
+}
+
 func (e Elements) ToRanked(firstFromTop, firstFromBottom int, id rankdb.ListID) []*app.RankdbElement {
 	in := e.In
 	var res []*app.RankdbElement
-- 
2.43.0


From f053f0538b67cf04cedec6b651367a7842a99393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 35/44] fix: a JSON null payload replaced the stored payload
 instead of leaving it

---
 api/morph/elements.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/morph/elements.go b/api/morph/elements.go
index 7cf2634..c5aea8a 100644
--- a/api/morph/elements.go
+++ b/api/morph/elements.go
@@ -213,6 +213,10 @@ func (a ApiElements) Elements() rankdb.Elements {
 			Score:   in.Score,
 			Payload: []byte(in.Payload),
 		}
+		if string(in.Payload) == "null" {
+			// null means no payload, or no update of it.
+			elem.Payload = nil
+		}
 		if in.TieBreaker != nil {
 			elem.TieBreaker = *in.TieBreaker
 		}
-- 
2.43.0


From d7d179562e58cf716f92b97486604e4fe044081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 36/44] fix: all_in_sets was ignored without match_metadata, so
 verify, reindex and backup of a set worked on every list

---
 api/multilist.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/api/multilist.go b/api/multilist.go
index a0ab575..6df8443 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -51,9 +51,7 @@ func (c *MultilistController) Create(ctx *app.CreateMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
 	if err := HasAccessToList(ctx, lists...); err != nil {
 		return ctx.Unauthorized(err)
@@ -197,9 +195,7 @@ func (c *MultilistController) Put(ctx *app.PutMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
 	if err := HasAccessToList(ctx, lists...); err != nil {
 		return ctx.Unauthorized(err)
@@ -242,11 +238,9 @@ func (c *MultilistController) Verify(ctx *app.VerifyMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata)+len(ctx.Payload.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
@@ -308,11 +302,9 @@ func (c *MultilistController) Reindex(ctx *app.ReindexMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata)+len(ctx.Payload.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
@@ -343,11 +335,9 @@ func (c *MultilistController) Backup(ctx *app.BackupMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists.Lists}.IDs()
-	if len(ctx.Payload.Lists.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.Lists.MatchMetadata, ctx.Payload.Lists.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.Lists.MatchMetadata, ctx.Payload.Lists.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists.Lists)+len(ctx.Payload.Lists.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists.Lists)+len(ctx.Payload.Lists.MatchMetadata)+len(ctx.Payload.Lists.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
-- 
2.43.0


From c5fae68330eb25a70c2d9f031d0e0865a508a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 37/44] fix: cloning a list with unusable sizes was answered as
 an internal error

---
 api/lists.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/lists.go b/api/lists.go
index 2aba814..87fa6c8 100644
--- a/api/lists.go
+++ b/api/lists.go
@@ -349,7 +349,7 @@ func (c *ListsController) Clone(ctx *app.CloneListsContext) error {
 		opts...,
 	)
 	if err != nil {
-		return err
+		return ctx.BadRequest(err)
 	}
 
 	// Add to manager
-- 
2.43.0


From d0f6e084716715c5a8b45d61d976d181242208b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 38/44] fix: a multi-list operation cancelled by its caller
 panicked instead of reporting the lists it did not reach

---
 api/multilist.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/multilist.go b/api/multilist.go
index 6df8443..6f60a6c 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -469,7 +469,11 @@ func onEveryList(ctx context.Context, lists rankdb.ListIDs, limit int, fn func(l
 	}
 	for i, id := range lists {
 		if err := ctx.Err(); err != nil {
-			return nil
+			mu.Lock()
+			results.Errors[string(id)] = err.Error()
+			mu.Unlock()
+			wg.Done()
+			continue
 		}
 		if limit > 0 {
 			<-tokens
-- 
2.43.0


From e7645c30292dab3b8c50902f8cbad7daa5b50b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:26 +0000
Subject: [PATCH 39/44] fix: the documentation endpoint served files outside
 its directories, without a token

---
 api/static.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/api/static.go b/api/static.go
index 3a44710..890942e 100644
--- a/api/static.go
+++ b/api/static.go
@@ -5,9 +5,17 @@ package api
 // See LICENSE file for license details
 
 import (
+	"net/http"
+	"os"
+	"path/filepath"
+	"strings"
+
 	"github.com/goadesign/goa"
 )
 
+// staticDirs are the directories the static resource serves.
+var staticDirs = []string{"api/public/swagger", "api/swagger"}
+
 // StaticController implements the static resource.
 type StaticController struct {
 	*goa.Controller
@@ -15,5 +23,21 @@ type StaticController struct {
 
 // NewStaticController creates a static controller.
 func NewStaticController(service *goa.Service) *StaticController {
-	return &StaticController{Controller: service.NewController("StaticController")}
+	c := &StaticController{Controller: service.NewController("StaticController")}
+	c.FileSystem = func(dir string) http.FileSystem { return staticFS(dir) }
+	return c
+}
+
+// staticFS opens files in the directory, if they are in one of staticDirs.
+// The directory includes the path of the request, which may contain "..".
+type staticFS string
+
+func (s staticFS) Open(name string) (http.File, error) {
+	file := filepath.ToSlash(filepath.Join(string(s), name))
+	for _, dir := range staticDirs {
+		if file == dir || strings.HasPrefix(file, dir+"/") {
+			return http.Dir(s).Open(name)
+		}
+	}
+	return nil, os.ErrNotExist
 }
-- 
2.43.0


From d6f54ed28117a05318305c32fe739ef5365d12a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 40/44] fix: token limits in another form than a string were
 ignored, giving access to everything

---
 api/jwt.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/api/jwt.go b/api/jwt.go
index eb4bc7a..e264ead 100644
--- a/api/jwt.go
+++ b/api/jwt.go
@@ -90,7 +90,11 @@ func HasAccessToList(ctx context.Context, ids ...rankdb.ListID) error {
 	if !ok {
 		return goajwt.ErrJWTError("unsupported claims shape")
 	}
-	if val, ok := claims["only_lists"].(string); ok {
+	if claim, ok := claims["only_lists"]; ok {
+		val, ok := claim.(string)
+		if !ok {
+			return goajwt.ErrJWTError("only_lists must be a string")
+		}
 		// Check all ids
 		for _, id := range ids {
 			ok := false
@@ -120,7 +124,11 @@ func HasAccessToElement(ctx context.Context, ids ...rankdb.ElementID) error {
 	if !ok {
 		return goajwt.ErrJWTError("unsupported claims shape")
 	}
-	if val, ok := claims["only_elements"].(string); ok {
+	if claim, ok := claims["only_elements"]; ok {
+		val, ok := claim.(string)
+		if !ok {
+			return goajwt.ErrJWTError("only_elements must be a string")
+		}
 		lists := strings.Split(val, ",")
 		for _, id := range ids {
 			ok := false
-- 
2.43.0


From dadbf3521d3d775a60cd227bd916ae520d9787e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 41/44] fix: null elements in a request crashed its decoding,
 and updates of several elements accepted elements without id or score

---
 api/app/controllers.go | 20 ++++++++++++++------
 api/app/user_types.go  | 20 ++++++++++++--------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/api/app/controllers.go b/api/app/controllers.go
index e405afb..5ee2f96 100644
--- a/api/app/controllers.go
+++ b/api/app/controllers.go
@@ -316,14 +316,22 @@ func unmarshalPutElementsPayload(ctx context.Context, service *goa.Service, req
 
 // unmarshalPutMultiElementsPayload unmarshals the request body into the context request data Payload field.
 func unmarshalPutMultiElementsPayload(ctx context.Context, service *goa.Service, req *http.Request) error {
-	var payload PutMultiElementsPayload
-	if err := service.DecodeRequest(req, &payload); err != nil {
+	// Decode the private type, so missing attributes are found.
+	var elems []*element
+	if err := service.DecodeRequest(req, &elems); err != nil {
 		return err
 	}
-	if err := payload.Validate(); err != nil {
-		// Initialize payload with private data structure so it can be logged
-		goa.ContextRequest(ctx).Payload = payload
-		return err
+	payload := make(PutMultiElementsPayload, len(elems))
+	for i, e := range elems {
+		if e == nil {
+			return goa.InvalidAttributeTypeError(`request[*]`, nil, "Element")
+		}
+		if err := e.Validate(); err != nil {
+			// Initialize payload with private data structure so it can be logged
+			goa.ContextRequest(ctx).Payload = elems
+			return err
+		}
+		payload[i] = e.Publicize()
 	}
 	goa.ContextRequest(ctx).Payload = payload
 	return nil
diff --git a/api/app/user_types.go b/api/app/user_types.go
index 3b8d656..9fab278 100644
--- a/api/app/user_types.go
+++ b/api/app/user_types.go
@@ -194,10 +194,12 @@ type listPayloadQL struct {
 // Validate validates the listPayloadQL type instance.
 func (ut *listPayloadQL) Validate() (err error) {
 	for _, e := range ut.Payload {
-		if e != nil {
-			if err2 := e.Validate(); err2 != nil {
-				err = goa.MergeErrors(err, err2)
-			}
+		if e == nil {
+			err = goa.MergeErrors(err, goa.InvalidAttributeTypeError(`request.payload[*]`, nil, "Element"))
+			continue
+		}
+		if err2 := e.Validate(); err2 != nil {
+			err = goa.MergeErrors(err, err2)
 		}
 	}
 	return
@@ -456,10 +458,12 @@ func (ut *rankList) Validate() (err error) {
 		}
 	}
 	for _, e := range ut.Populate {
-		if e != nil {
-			if err2 := e.Validate(); err2 != nil {
-				err = goa.MergeErrors(err, err2)
-			}
+		if e == nil {
+			err = goa.MergeErrors(err, goa.InvalidAttributeTypeError(`request.populate[*]`, nil, "Element"))
+			continue
+		}
+		if err2 := e.Validate(); err2 != nil {
+			err = goa.MergeErrors(err, err2)
 		}
 	}
 	if ut.Set != nil {
-- 
2.43.0


From 131aed8ce02d845eb334a99e9f6258f57a54d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 42/44] fix: percentile NaN panicked

---
 api/lists.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/lists.go b/api/lists.go
index 87fa6c8..4ca6a01 100644
--- a/api/lists.go
+++ b/api/lists.go
@@ -5,6 +5,7 @@ package api
 // See LICENSE file for license details
 
 import (
+	"math"
 	"strconv"
 	"time"
 
@@ -131,7 +132,7 @@ func (c *ListsController) GetPercentile(ctx *app.GetPercentileListsContext) erro
 		return ctx.NotFound(goa.ErrNotFound("not_found", "list_id", ctx.ListID))
 	}
 	percentile := float64(50.0)
-	if fromTop, err2 := strconv.ParseFloat(ctx.FromTop, 64); err2 == nil {
+	if fromTop, err2 := strconv.ParseFloat(ctx.FromTop, 64); err2 == nil && !math.IsNaN(fromTop) {
 		percentile = fromTop
 	} else {
 		return ctx.BadRequest(goa.InvalidParamTypeError("from_top", ctx.FromTop, "number"))
-- 
2.43.0


From c9c041f5c2b262e9a37e48ca66d7dc91a142dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 43/44] fix: msgpack requests could store payloads that are not
 JSON, which then failed every JSON read

---
 api/app/user_types.go | 3 +++
 api/morph/elements.go | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/app/user_types.go b/api/app/user_types.go
index 9fab278..014293d 100644
--- a/api/app/user_types.go
+++ b/api/app/user_types.go
@@ -123,6 +123,9 @@ func (ut *element) Validate() (err error) {
 			err = goa.MergeErrors(err, goa.InvalidRangeError(`request.tie_breaker`, *ut.TieBreaker, 4294967295, false))
 		}
 	}
+	if len(ut.Payload) > 0 && !json.Valid(ut.Payload) {
+		err = goa.MergeErrors(err, goa.InvalidAttributeTypeError(`request.payload`, string(ut.Payload), "JSON"))
+	}
 	return
 }
 
diff --git a/api/morph/elements.go b/api/morph/elements.go
index c5aea8a..043da5b 100644
--- a/api/morph/elements.go
+++ b/api/morph/elements.go
@@ -1,6 +1,7 @@
 package morph
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"strconv"
@@ -213,7 +214,7 @@ func (a ApiElements) Elements() rankdb.Elements {
 			Score:   in.Score,
 			Payload: []byte(in.Payload),
 		}
-		if string(in.Payload) == "null" {
+		if p := bytes.TrimSpace(in.Payload); len(p) == 0 || string(p) == "null" {
 			// null means no payload, or no update of it.
 			elem.Payload = nil
 		}
-- 
2.43.0


From 7ce17513658d74ecea3d978f38cec53d04cc1968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 44/44] fix: lists that failed to restore on the destination
 server were reported as backed up

---
 backup/job.go           | 29 +++++++++++++++++++++++++++++
 backup/server/rankdb.go | 40 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 68 insertions(+), 1 deletion(-)

diff --git a/backup/job.go b/backup/job.go
index 233e1b3..1a4077a 100644
--- a/backup/job.go
+++ b/backup/job.go
@@ -106,6 +106,31 @@ func (j *jobState) failed(lists rankdb.ListIDs, what string, err error) {
 	}
 }
 
+// listErrors can be returned by the destination when it is closed
+// to indicate that only some lists could not be stored.
+type listErrors interface {
+	error
+	// ListErrors returns errors indexed by list ID.
+	ListErrors() map[string]string
+}
+
+// failedLists records errors from the destination on separate lists.
+func (j *jobState) failedLists(errs map[string]string) {
+	j.mu.Lock()
+	defer j.mu.Unlock()
+	for id, err := range errs {
+		j.status.Errors[id] = err
+	}
+	success := j.status.Success[:0]
+	for _, id := range j.status.Success {
+		if _, failed := errs[id]; !failed {
+			success = append(success, id)
+		}
+	}
+	j.status.Success = success
+	j.status.ListsDone = len(success)
+}
+
 type Status struct {
 	// Custom information provided by backup
 	Custom map[string]string
@@ -231,6 +256,10 @@ func (req Request) Start(bg context.Context) ID {
 			}
 			if err != nil {
 				log.Error(ctx, "Backup could not be written", "error", err.Error())
+				if lerr, ok := err.(listErrors); ok {
+					job.failedLists(lerr.ListErrors())
+					return
+				}
 				job.failed(req.Lists, "finalizing", err)
 			}
 		}()
diff --git a/backup/server/rankdb.go b/backup/server/rankdb.go
index db49d16..f750ca2 100644
--- a/backup/server/rankdb.go
+++ b/backup/server/rankdb.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"io/ioutil"
 	"net/http"
+	"strings"
 
 	"github.com/Vivino/rankdb/api/client"
 	"github.com/Vivino/rankdb/log"
@@ -51,6 +52,12 @@ func (r *RankDB) Save(ctx context.Context) (io.WriteCloser, error) {
 	}
 	req = req.WithContext(ctx)
 	b := bodyWriter{req: req, c: r.c, done: make(chan struct{})}
+	if r.ListIDPrefix != nil {
+		b.prefix = *r.ListIDPrefix
+	}
+	if r.ListIDSuffix != nil {
+		b.suffix = *r.ListIDSuffix
+	}
 	b.r, b.w = io.Pipe()
 	log.Info(ctx, "Created pipe for writing", "full_path", b.req.URL.String())
 	go b.Transfer(ctx)
@@ -70,6 +77,22 @@ type bodyWriter struct {
 	// done is closed when the transfer has ended and err is set.
 	done chan struct{}
 	err  error
+	// prefix and suffix of lists on the destination.
+	prefix, suffix string
+}
+
+// restoreErrors are the errors of lists that could not be restored on the destination server.
+// Indexed by the list IDs on this server.
+type restoreErrors map[string]string
+
+// Error implements the error interface.
+func (r restoreErrors) Error() string {
+	return fmt.Sprintf("destination server could not restore %d lists", len(r))
+}
+
+// ListErrors returns the error of each list.
+func (r restoreErrors) ListErrors() map[string]string {
+	return r
 }
 
 // Write backup data to the request body.
@@ -107,8 +130,23 @@ func (b *bodyWriter) Transfer(ctx context.Context) {
 	}
 	log.Info(ctx, "Destination server returned ok", "full_path", b.req.URL.String())
 	b.r.Close()
+	defer resp.Body.Close()
+	res, err := b.c.DecodeRankdbRestoreresult(resp)
 	io.Copy(ioutil.Discard, resp.Body)
-	resp.Body.Close()
+	if err != nil {
+		log.Error(ctx, "Unable to decode result", "decode_error", err)
+		return
+	}
+	if len(res.Errors) == 0 {
+		return
+	}
+	errs := make(restoreErrors, len(res.Errors))
+	for id, err := range res.Errors {
+		id = strings.TrimSuffix(strings.TrimPrefix(id, b.prefix), b.suffix)
+		errs[id] = err
+	}
+	log.Error(ctx, "Destination server failed to restore lists", "errors", res.Errors)
+	b.err = errs
 }
 
 // decodeError will decode an error response.
-- 
2.43.0

