From 4f7c7de153cff771b91e0c20016024953952bfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 01/64] fix: default scan and query lower bound skipped rows
 that sort before the zero record

---
 index.go    |  4 ++++
 query.go    |  2 +-
 selector.go | 11 +++++++++++
 table.go    |  4 ++--
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/index.go b/index.go
index e4d2f52..2fcaea6 100644
--- a/index.go
+++ b/index.go
@@ -188,6 +188,10 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 		lowerBound := encodeIndexKey(table, sel.Point(), idx, keyBufferPool.Get()[:0])
 		upperBound := keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0])
 
+		if _, ok := selector.(*selectorAll[T]); ok {
+			lowerBound = lowerBound[:_KeyPrefixSplitIndex(lowerBound)]
+		}
+
 		releaseBuffers := func() {
 			keyBufferPool.Put(lowerBound[:0])
 			keyBufferPool.Put(upperBound[:0])
diff --git a/query.go b/query.go
index 4ebdf88..039deff 100644
--- a/query.go
+++ b/query.go
@@ -44,7 +44,7 @@ func newQuery[T any](t *_table[T], i *Index[T]) Query[T] {
 	return Query[T]{
 		table:         t,
 		index:         i,
-		indexSelector: NewSelectorPoint[T](utils.MakeNew[T]()),
+		indexSelector: newSelectorAll[T](utils.MakeNew[T]()),
 		afterSelector: utils.MakeNew[T](),
 		filterFunc:    nil,
 		orderLessFunc: nil,
diff --git a/selector.go b/selector.go
index f05fe5c..6e558ec 100644
--- a/selector.go
+++ b/selector.go
@@ -70,6 +70,17 @@ func (s *selectorPoint[T]) SetPoint(p T) {
 	s.point = p
 }
 
+// selectorAll selects all rows of the index partition its point belongs to.
+// Unlike the plain point selector it does not start at the row described by
+// the point, so rows that sort before it aren't skipped.
+type selectorAll[T any] struct {
+	selectorPoint[T]
+}
+
+func newSelectorAll[T any](point T) Selector[T] {
+	return &selectorAll[T]{selectorPoint: selectorPoint[T]{point: point}}
+}
+
 type selectorPoints[T any] struct {
 	points []T
 }
diff --git a/table.go b/table.go
index 2a25b0a..6aad03d 100644
--- a/table.go
+++ b/table.go
@@ -998,7 +998,7 @@ func (t *_table[T]) Query() Query[T] {
 }
 
 func (t *_table[T]) Scan(ctx context.Context, tr *[]T, reverse bool, optBatch ...Batch) error {
-	return t.ScanIndex(ctx, t.primaryIndex, NewSelectorPoint(t.valueEmpty), tr, reverse, optBatch...)
+	return t.ScanIndex(ctx, t.primaryIndex, newSelectorAll(t.valueEmpty), tr, reverse, optBatch...)
 }
 
 func (t *_table[T]) ScanIndex(ctx context.Context, i *Index[T], s Selector[T], tr *[]T, reverse bool, optBatch ...Batch) error {
@@ -1013,7 +1013,7 @@ func (t *_table[T]) ScanIndex(ctx context.Context, i *Index[T], s Selector[T], t
 }
 
 func (t *_table[T]) ScanForEach(ctx context.Context, f func(keyBytes KeyBytes, l Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-	return t.ScanIndexForEach(ctx, t.primaryIndex, NewSelectorPoint(t.valueEmpty), f, reverse, optBatch...)
+	return t.ScanIndexForEach(ctx, t.primaryIndex, newSelectorAll(t.valueEmpty), f, reverse, optBatch...)
 }
 
 func (t *_table[T]) ScanIndexForEach(ctx context.Context, idx *Index[T], s Selector[T], f func(keyBytes KeyBytes, t Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-- 
2.43.0


From 0acecc05f4120873c2573f95d9a612695836ed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 02/64] fix: Upsert folded the wrong records when a primary key
 repeats in one call

---
 table.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/table.go b/table.go
index 6aad03d..1fb31be 100644
--- a/table.go
+++ b/table.go
@@ -729,10 +729,8 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 
 			// apply conficts recursively if duplicate exist
 			for i < len(keys)-1 && t.keyDuplicate(i+1, keys) {
-				oldTr = tr
 				i++
-				tr = onConflict(oldTr, trs[i])
-				continue
+				tr = onConflict(tr, trs[keyOrder[i]])
 			}
 
 			// serialize
-- 
2.43.0


From f6877d5d0d3e70267383e86b2da9ef8ebc4d2864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 03/64] fix: keep the order of repeated primary keys so that
 the last record of a call wins

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 1fb31be..0c35749 100644
--- a/table.go
+++ b/table.go
@@ -1193,7 +1193,7 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 
 func (t *_table[T]) sortKeys(keys [][]byte) []int {
 	keyOrder := utils.ArrayN(len(keys))
-	sort.Sort(&utils.SortShim{
+	sort.Stable(&utils.SortShim{
 		Length: len(keys),
 		SwapFn: func(i, j int) {
 			keys[i], keys[j] = keys[j], keys[i]
-- 
2.43.0


From 2fce59e4294d87b12785f3d9161f91e924b73dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 04/64] fix: decode the stored record of every updated row into
 a fresh object

---
 table.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/table.go b/table.go
index 0c35749..23acfe5 100644
--- a/table.go
+++ b/table.go
@@ -494,9 +494,6 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
 	}
 
-	// reusable object
-	var oldTr T
-
 	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
 		// keys
 		keys := t.keysExternal(trs, keysBuffer)
@@ -530,6 +527,7 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
+			var oldTr T
 			err := t.serializer.Deserialize(iter.Value(), &oldTr)
 			if err != nil {
 				return err
@@ -679,9 +677,6 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
 	}
 
-	// reusable object
-	var oldTr T
-
 	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
 		// keys
 		keys := t.keysExternal(trs, keysBuffer)
@@ -711,6 +706,7 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 
 			// old record
 			var (
+				oldTr    T
 				isUpdate bool
 				err      error
 			)
-- 
2.43.0


From 2a075d471d84cc4d001ef8858387f97761d6ec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 05/64] fix: keySuccessor kept trailing 0xFF bytes and overshot
 into the next index partition

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 23acfe5..8086bde 100644
--- a/table.go
+++ b/table.go
@@ -1263,7 +1263,7 @@ func keySuccessor(src, dst []byte) []byte {
 	for i := len(src) - 1; i >= 0; i-- {
 		if dst[i] != 0xFF {
 			dst[i]++
-			return dst
+			return dst[:i+1]
 		}
 	}
 	return dst
-- 
2.43.0


From d032c6e809fca47e0b1215212d75658155a126aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 06/64] fix: DESC order of the minimal int16, int32 and int64
 sorted it first instead of last

---
 index.go | 16 ++++++++++++++++
 keys.go  | 11 +++++++++++
 2 files changed, 27 insertions(+)

diff --git a/index.go b/index.go
index 2fcaea6..6c53e50 100644
--- a/index.go
+++ b/index.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"fmt"
+	"math"
 	"math/big"
 	"sort"
 
@@ -28,6 +29,11 @@ type IndexOrder struct {
 
 func (o IndexOrder) OrderInt64(i int64, orderType IndexOrderType) IndexOrder {
 	if orderType == IndexOrderTypeDESC {
+		if i == math.MinInt64 {
+			// -i doesn't fit in int64
+			o.KeyBuilder = o.KeyBuilder.addIntMinNegatedField(8)
+			return o
+		}
 		i = -i
 	}
 
@@ -37,6 +43,11 @@ func (o IndexOrder) OrderInt64(i int64, orderType IndexOrderType) IndexOrder {
 
 func (o IndexOrder) OrderInt32(i int32, orderType IndexOrderType) IndexOrder {
 	if orderType == IndexOrderTypeDESC {
+		if i == math.MinInt32 {
+			// -i doesn't fit in int32
+			o.KeyBuilder = o.KeyBuilder.addIntMinNegatedField(4)
+			return o
+		}
 		i = -i
 	}
 
@@ -46,6 +57,11 @@ func (o IndexOrder) OrderInt32(i int32, orderType IndexOrderType) IndexOrder {
 
 func (o IndexOrder) OrderInt16(i int16, orderType IndexOrderType) IndexOrder {
 	if orderType == IndexOrderTypeDESC {
+		if i == math.MinInt16 {
+			// -i doesn't fit in int16
+			o.KeyBuilder = o.KeyBuilder.addIntMinNegatedField(2)
+			return o
+		}
 		i = -i
 	}
 
diff --git a/keys.go b/keys.go
index c87f146..51dee19 100644
--- a/keys.go
+++ b/keys.go
@@ -68,6 +68,17 @@ func (b KeyBuilder) AddInt16Field(i int16) KeyBuilder {
 	return bt
 }
 
+// addIntMinNegatedField adds the negation of the minimal value of the signed
+// integer of given size, that is the value one above its maximum.
+func (b KeyBuilder) addIntMinNegatedField(size int) KeyBuilder {
+	bt := b.putFieldID()
+	bt.buff = append(bt.buff, 0x02, 0x80)
+	for i := 1; i < size; i++ {
+		bt.buff = append(bt.buff, 0x00)
+	}
+	return bt
+}
+
 func (b KeyBuilder) AddUint64Field(i uint64) KeyBuilder {
 	bt := b.putFieldID()
 	bt.buff = append(bt.buff, []byte{0, 0, 0, 0, 0, 0, 0, 0}...)
-- 
2.43.0


From d0bcf7b229dbfa1c7e26eb79bbe539c5fda8ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 07/64] fix: OrderBytes DESC inverted the bytes of the caller's
 record in place

---
 index.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/index.go b/index.go
index 6c53e50..b322fce 100644
--- a/index.go
+++ b/index.go
@@ -107,9 +107,11 @@ func (o IndexOrder) OrderByte(b byte, orderType IndexOrderType) IndexOrder {
 
 func (o IndexOrder) OrderBytes(b []byte, orderType IndexOrderType) IndexOrder {
 	if orderType == IndexOrderTypeDESC {
+		inverted := make([]byte, len(b))
 		for i := 0; i < len(b); i++ {
-			b[i] = ^b[i]
+			inverted[i] = ^b[i]
 		}
+		b = inverted
 	}
 
 	o.KeyBuilder = o.KeyBuilder.AddBytesField(b)
-- 
2.43.0


From 5e27e4c8de834e1db59c8fc495de552e0aaa89af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 08/64] fix: Delete by primary key left the index entries of
 the record behind

---
 table.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 8086bde..40bd305 100644
--- a/table.go
+++ b/table.go
@@ -3,6 +3,7 @@ package bond
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"reflect"
 	"sort"
@@ -579,8 +580,9 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 	t.mutex.RUnlock()
 
 	var (
-		batch         Batch
-		externalBatch = len(optBatch) > 0 && optBatch[0] != nil
+		batch          Batch
+		batchReadWrite Batch
+		externalBatch  = len(optBatch) > 0 && optBatch[0] != nil
 	)
 
 	if externalBatch {
@@ -590,6 +592,10 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 		defer batch.Close()
 	}
 
+	if batch.Type() == BatchTypeReadWrite {
+		batchReadWrite = batch
+	}
+
 	var (
 		keyBuffer      = t.db.getKeyBufferPool().Get()[:0]
 		indexKeyBuffer = t.db.getKeyBufferPool().Get()[:0]
@@ -607,6 +613,30 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 		// data key
 		var key = t.key(tr, keyBuffer[:0])
 
+		// delete index keys of the stored record, the passed record may
+		// have only the primary key set
+		if len(indexes) > 0 {
+			data, closer, err := t.db.Get(key, batchReadWrite)
+			if err != nil && !errors.Is(err, pebble.ErrNotFound) {
+				return err
+			}
+
+			if err == nil {
+				var storedTr T
+				err = t.serializer.Deserialize(data, &storedTr)
+				_ = closer.Close()
+
+				for _, idx := range indexes {
+					if err != nil {
+						break
+					}
+					if err := idx.OnDelete(t, storedTr, batch, indexKeyBuffer[:0]); err != nil {
+						return err
+					}
+				}
+			}
+		}
+
 		// delete
 		err := batch.Delete(key, Sync)
 		if err != nil {
-- 
2.43.0


From 91752a0d5f598099aeb41065900e9f38b6f48045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 09/64] fix: AddIndex with a duplicate IndexID left the table
 locked and the indexes partly added

---
 table.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/table.go b/table.go
index 40bd305..7b92b51 100644
--- a/table.go
+++ b/table.go
@@ -247,19 +247,30 @@ func (t *_table[T]) Serializer() Serializer[*T] {
 }
 
 func (t *_table[T]) AddIndex(idxs []*Index[T], reIndex ...bool) error {
+	if err := t.addIndex(idxs); err != nil {
+		return err
+	}
+
+	if len(reIndex) > 0 && reIndex[0] {
+		return t.ReIndex(idxs)
+	}
+	return nil
+}
+
+func (t *_table[T]) addIndex(idxs []*Index[T]) error {
 	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
+	newIndexes := make(map[IndexID]*Index[T])
+	maps.Copy(newIndexes, t.secondaryIndexes)
 	for _, idx := range idxs {
-		_, ok := t.secondaryIndexes[idx.IndexID]
+		_, ok := newIndexes[idx.IndexID]
 		if ok {
 			return fmt.Errorf("found duplicate IndexID %d", idx.IndexID)
 		}
-		t.secondaryIndexes[idx.IndexID] = idx
-	}
-	t.mutex.Unlock()
-
-	if len(reIndex) > 0 && reIndex[0] {
-		return t.ReIndex(idxs)
+		newIndexes[idx.IndexID] = idx
 	}
+	t.secondaryIndexes = newIndexes
 	return nil
 }
 
-- 
2.43.0


From fa5d9cd0d06623c5dce3fbce80e09fa77cbab5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 10/64] fix: ReIndex of the index with ID 255 did not drop the
 old index entries

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 7b92b51..6662413 100644
--- a/table.go
+++ b/table.go
@@ -280,7 +280,7 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 		idxsMap[idx.IndexID] = idx
 		err := t.db.DeleteRange(
 			[]byte{byte(t.id), byte(idx.IndexID)},
-			[]byte{byte(t.id), byte(idx.IndexID + 1)}, Sync)
+			[]byte{byte(t.id), byte(idx.IndexID), 0xFF, 0xFF, 0xFF, 0xFF}, Sync)
 		if err != nil {
 			return fmt.Errorf("failed to delete index: %w", err)
 		}
-- 
2.43.0


From 00d63c56a5a10f80240ec4c3f038fac07f44d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 11/64] fix: ReIndex leaked its iterator when a record failed
 to decode

---
 table.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 6662413..cd5d9fb 100644
--- a/table.go
+++ b/table.go
@@ -297,6 +297,7 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 			UpperBound: prefixSuccessor,
 		},
 	})
+	defer iter.Close()
 
 	batch := t.db.Batch(BatchTypeWriteOnly)
 	defer func() {
@@ -342,8 +343,6 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 		return fmt.Errorf("failed to commit reindex batch: %w", err)
 	}
 
-	_ = iter.Close()
-
 	return nil
 }
 
-- 
2.43.0


From 11c86a4b50c899967621ea38927dcb0ab6d353be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 12/64] fix: primary keys repeated across internal chunks of
 one write were not detected

---
 table.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index cd5d9fb..7edf105 100644
--- a/table.go
+++ b/table.go
@@ -361,7 +361,7 @@ func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) erro
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -475,7 +475,7 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -687,7 +687,7 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -1309,6 +1309,16 @@ func keySuccessor(src, dst []byte) []byte {
 	return dst
 }
 
+// internalBatchType returns the type of the batch that write of given number
+// of rows needs. The rows are processed in chunks, and the later chunks need
+// to read what the earlier ones have written.
+func internalBatchType(numOfRows int) BatchType {
+	if numOfRows > persistentBatchSize {
+		return BatchTypeReadWrite
+	}
+	return BatchTypeWriteOnly
+}
+
 func batched[T any](items []T, batchSize int, f func(batch []T) error) error {
 	batchNum := 0
 	itemsLen := len(items)
-- 
2.43.0


From d95f2482ef1c146bcbc31d9750c842cadf8a9929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 13/64] fix: Index.Iter panicked when given a nil batch

---
 index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.go b/index.go
index b322fce..1413b68 100644
--- a/index.go
+++ b/index.go
@@ -193,7 +193,7 @@ func (idx *Index[T]) Name() string {
 // Iter returns an iterator for the index.
 func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batch) Iterator {
 	var iterConstructor Iterationer = table.DB()
-	if len(optBatch) > 0 {
+	if len(optBatch) > 0 && optBatch[0] != nil {
 		iterConstructor = optBatch[0]
 	}
 
-- 
2.43.0


From 1c80251b37768c6e4cc64d9106ecc6098b1a39c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 14/64] fix: upper end of ranges and points included rows above
 the last selected key

---
 index.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index.go b/index.go
index 1413b68..21cd3aa 100644
--- a/index.go
+++ b/index.go
@@ -230,7 +230,7 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 			lowerBound := encodeIndexKey(table, point, idx, keyBufferPool.Get()[:0])
 			upperBound := keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0])
 			if idx.IndexID == PrimaryIndexID {
-				upperBound = keySuccessor(lowerBound, upperBound[:0])
+				upperBound = append(append(upperBound[:0], lowerBound...), 0x00)
 			}
 
 			releaseBuffers := func() {
@@ -254,7 +254,7 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 
 		lowerBound := encodeIndexKey(table, low, idx, keyBufferPool.Get()[:0])
 		upperBound := encodeIndexKey(table, up, idx, keyBufferPool.Get()[:0])
-		upperBound = keySuccessor(upperBound, nil)
+		upperBound = append(upperBound, 0x00)
 
 		releaseBuffers := func() {
 			keyBufferPool.Put(lowerBound[:0])
@@ -277,7 +277,7 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 
 			lowerBound := encodeIndexKey(table, low, idx, keyBufferPool.Get()[:0])
 			upperBound := encodeIndexKey(table, up, idx, keyBufferPool.Get()[:0])
-			upperBound = keySuccessor(upperBound, nil)
+			upperBound = append(upperBound, 0x00)
 
 			releaseBuffers := func() {
 				keyBufferPool.Put(lowerBound[:0])
-- 
2.43.0


From cea5d5f58f12b07803821d1bd4ec2dbd62cc8020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 15/64] fix: selectors with no points or ranges panicked
 instead of selecting nothing

---
 iter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/iter.go b/iter.go
index d6ded27..5ddf6d0 100644
--- a/iter.go
+++ b/iter.go
@@ -77,7 +77,12 @@ type _iteratorMulti struct {
 	iterator           Iterator
 }
 
-func newIteratorMulti(itc Iterationer, opts []*IterOptions) *_iteratorMulti {
+func newIteratorMulti(itc Iterationer, opts []*IterOptions) Iterator {
+	// nothing is selected
+	if len(opts) == 0 {
+		return errIterator{}
+	}
+
 	return &_iteratorMulti{
 		iteratorOptions:      opts,
 		iteratorOptionsIndex: 0,
-- 
2.43.0


From 2c2be5adbe42266b40e2c150299500fa6ba364a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 16/64] fix: queries derived from a common intersect query
 overwrote each other

---
 query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query.go b/query.go
index 039deff..e57d3e4 100644
--- a/query.go
+++ b/query.go
@@ -148,7 +148,7 @@ func (q Query[T]) Execute(ctx context.Context, r *[]T, optBatch ...Batch) error
 }
 
 func (q Query[T]) Intersects(queries ...Query[T]) Query[T] {
-	q.intersects = append(q.intersects, queries...)
+	q.intersects = append(q.intersects[:len(q.intersects):len(q.intersects)], queries...)
 	return q
 }
 
-- 
2.43.0


From 9dc537fa4988d5347ccbdd663c30e7a89aa4f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 17/64] fix: index scan looped forever or skipped rows unless
 Get was called exactly once per row

---
 table.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 7edf105..5aae444 100644
--- a/table.go
+++ b/table.go
@@ -1155,11 +1155,14 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 			return t.valueNil, fmt.Errorf("get failed to deserialize: %w", err)
 		}
 
-		prefetchedValuesIndex++
 		return rtr, nil
 	}
 
 	prefetchAndGetValue := func() (T, error) {
+		if prefetchedValues != nil {
+			return getPrefetchedValue()
+		}
+
 		// prefetch the required data keys.
 		nextBuff := multiKeyBuffer
 		for it.Valid() {
@@ -1204,7 +1207,7 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		}
 
 		// iterate from prefetched entire if exists.
-		for prefetchedValuesIndex < len(prefetchedValues) {
+		for prefetchedValuesIndex = 1; prefetchedValuesIndex < len(prefetchedValues); prefetchedValuesIndex++ {
 			cont, err = f(indexKeys[prefetchedValuesIndex], Lazy[T]{GetFunc: getPrefetchedValue})
 			if !cont || err != nil {
 				_ = it.Close()
-- 
2.43.0


From 1032b39bd1033450a6e83d444b62c2a8146dacfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 18/64] fix: key passed to the index scan callback changed once
 Get was called

---
 table.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 5aae444..767ae49 100644
--- a/table.go
+++ b/table.go
@@ -1137,6 +1137,9 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 	defer t.db.getMultiKeyBufferPool().Put(multiKeyBuffer[:0])
 	defer t.db.putValueArray(valuesBuffer)
 
+	rowKey := t.db.getKeyBufferPool().Get()[:0]
+	defer func() { t.db.getKeyBufferPool().Put(rowKey[:0]) }()
+
 	var prefetchedValues [][]byte
 	var prefetchedValuesIndex int
 
@@ -1200,7 +1203,10 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		default:
 		}
 
-		cont, err := f(it.Key(), Lazy[T]{GetFunc: prefetchAndGetValue})
+		// prefetch moves the iterator, so the key needs to be copied
+		rowKey = append(rowKey[:0], it.Key()...)
+
+		cont, err := f(rowKey, Lazy[T]{GetFunc: prefetchAndGetValue})
 		if !cont || err != nil {
 			_ = it.Close()
 			return err
-- 
2.43.0


From 972cdebdb2043e9777b334828d2248aa37bf17bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 19/64] fix: concurrent adds to one bloom filter bucket lost
 keys

---
 bloom/bloom_filter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 9993299..f78ef8b 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -81,13 +81,19 @@ func (b *BloomFilter) Add(_ context.Context, key []byte) {
 	defer b.mutex.RUnlock()
 
 	bucket := b.buckets[b.hash(key)]
+	bucket.mutex.Lock()
+	defer bucket.mutex.Unlock()
 	bucket.hasChanges = !bucket.filter.TestOrAdd(key) || bucket.hasChanges
 }
 
 func (b *BloomFilter) MayContain(_ context.Context, key []byte) bool {
 	b.mutex.RLock()
 	defer b.mutex.RUnlock()
-	return b.buckets[b.hash(key)].filter.Test(key)
+
+	bucket := b.buckets[b.hash(key)]
+	bucket.mutex.RLock()
+	defer bucket.mutex.RUnlock()
+	return bucket.filter.Test(key)
 }
 
 func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
-- 
2.43.0


From d9d859579651b9e809c70f5d6ab97d036c8c3825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 20/64] fix: Dump with indexes leaked an iterator

---
 bond.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bond.go b/bond.go
index 7e49f6f..e1c8104 100644
--- a/bond.go
+++ b/bond.go
@@ -503,6 +503,7 @@ func (db *_db) getIndexIDS(tableID TableID) []IndexID {
 	indexIDS := []IndexID{}
 
 	itr := db.Iter(&IterOptions{})
+	defer itr.Close()
 	for {
 		if !itr.SeekGE(prefix) {
 			break
-- 
2.43.0


From acb4d6bf0511f93eb9d10aa69e2aef665ae2d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 21/64] fix: Restore picked up tables with a common ID prefix
 and misread paths containing "index"

---
 bond.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bond.go b/bond.go
index e1c8104..e707f2c 100644
--- a/bond.go
+++ b/bond.go
@@ -471,9 +471,11 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 			return nil
 		}
 		// filter only relevant tables.
+		dir := filepath.Base(filepath.Dir(path))
 		filter := true
 		for _, table := range tables {
-			if strings.Contains(path, fmt.Sprintf("table_%d", table)) {
+			tableDir := fmt.Sprintf("table_%d", table)
+			if dir == tableDir || strings.HasPrefix(dir, tableDir+"_index_") {
 				filter = false
 				break
 			}
@@ -483,7 +485,7 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 			return nil
 		}
 
-		if !strings.Contains(path, "index") {
+		if !strings.Contains(dir, "index") {
 			ssts = append(ssts, path)
 			return nil
 		}
-- 
2.43.0


From 49b7c3936728085158fde24fd9d06ee71c16d598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 22/64] fix: closing a batch called OnCommitted callbacks
 instead of OnClose ones

---
 batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batch.go b/batch.go
index eb73032..15376cf 100644
--- a/batch.go
+++ b/batch.go
@@ -202,7 +202,7 @@ func (b *_batch) notifyOnError(err error) {
 }
 
 func (b *_batch) notifyOnClose() {
-	for _, f := range b.onCommittedCallbacks {
+	for _, f := range b.onClose {
 		f(b)
 	}
 }
-- 
2.43.0


From 06769a12f164faad208e63421d91571bf9163e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 23/64] fix: a batch that failed to apply called its
 OnCommitted callbacks

---
 batch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batch.go b/batch.go
index 15376cf..3f78517 100644
--- a/batch.go
+++ b/batch.go
@@ -121,13 +121,14 @@ func (b *_batch) Apply(batch Batch, opt WriteOptions) error {
 	if err != nil {
 		return err
 	}
-	defer innerBatch.notifyOnCommitted()
 
 	err = b.Batch.Apply(innerBatch.Batch, pebbleWriteOptions(opt))
 	if err != nil {
 		innerBatch.notifyOnError(err)
 		return err
 	}
+
+	innerBatch.notifyOnCommitted()
 	return nil
 }
 
-- 
2.43.0


From e2ffa87a82948a5341c11dab4956656f11dc78df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 24/64] fix: TableAnyScanner ignored the batch in callback
 scans

---
 table_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table_utils.go b/table_utils.go
index 2f7cfa1..0571551 100644
--- a/table_utils.go
+++ b/table_utils.go
@@ -81,7 +81,7 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 						return l.Get()
 					},
 				})
-			}, reverse)
+			}, reverse, optBatch...)
 		},
 		scanIndexForEach: func(ctx context.Context, i *Index[any], s Selector[any], f func(keyBytes KeyBytes, t Lazy[any]) (bool, error), reverse bool, optBatch ...Batch) error {
 			iAny := NewIndex[T](IndexOptions[T]{
@@ -110,7 +110,7 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 						return l.Get()
 					},
 				})
-			}, reverse)
+			}, reverse, optBatch...)
 		},
 	}
 }
-- 
2.43.0


From a1b4ccf1241e93aef82b4b47de12ba48cc5838e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 25/64] fix: pooled buffers of msgpack serializers kept the
 previously serialized record

---
 serializers/msgp.go     | 1 +
 serializers/msgp_gen.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/serializers/msgp.go b/serializers/msgp.go
index 0921dd7..980adb9 100644
--- a/serializers/msgp.go
+++ b/serializers/msgp.go
@@ -75,6 +75,7 @@ func (m *MsgpackSerializer) getBuffer() bytes.Buffer {
 
 func (m *MsgpackSerializer) freeBuffer(buffer bytes.Buffer) {
 	if m.Buffer != nil {
+		buffer.Reset()
 		m.Buffer.Put(buffer)
 	}
 }
diff --git a/serializers/msgp_gen.go b/serializers/msgp_gen.go
index a7cca1d..74eea43 100644
--- a/serializers/msgp_gen.go
+++ b/serializers/msgp_gen.go
@@ -88,6 +88,7 @@ func (m *MsgpackGenSerializer) getBuffer() bytes.Buffer {
 
 func (m *MsgpackGenSerializer) freeBuffer(buffer bytes.Buffer) {
 	if m.Buffer != nil {
+		buffer.Reset()
 		m.Buffer.Put(buffer)
 	}
 }
-- 
2.43.0


From 6463a7b44db8b7277664a05b5e4f71a9a5fe04dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 26/64] fix: intersect query read the records outside of the
 given batch

---
 query.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/query.go b/query.go
index e57d3e4..bcaec85 100644
--- a/query.go
+++ b/query.go
@@ -324,7 +324,12 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	}
 
 	// get data
-	values, err := q.table.get(keys, nil, make([][]byte, len(keys)), true)
+	var batch Batch
+	if len(optBatch) > 0 {
+		batch = optBatch[0]
+	}
+
+	values, err := q.table.get(keys, batch, make([][]byte, len(keys)), true)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 09a27b1ef263e60ced3d770acd52acd48271136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 27/64] fix: intersect query with After ignored offset and
 limit

---
 query.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/query.go b/query.go
index bcaec85..6148556 100644
--- a/query.go
+++ b/query.go
@@ -372,24 +372,22 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		}
 	}
 
-	if hasFilter || hasSort {
-		// offset
-		if hasOffset && !offsetApplied {
-			if int(q.offset) >= len(records) {
-				records = make([]T, 0)
-			} else {
-				records = records[q.offset:]
-			}
+	// offset
+	if hasOffset && !offsetApplied {
+		if int(q.offset) >= len(records) {
+			records = make([]T, 0)
+		} else {
+			records = records[q.offset:]
 		}
+	}
 
-		// limit
-		if hasLimit && !limitApplied {
-			lastIndex := q.limit
-			if int(lastIndex) >= len(records) {
-				lastIndex = uint64(len(records))
-			}
-			records = records[:lastIndex]
+	// limit
+	if hasLimit && !limitApplied {
+		lastIndex := q.limit
+		if int(lastIndex) >= len(records) {
+			lastIndex = uint64(len(records))
 		}
+		records = records[:lastIndex]
 	}
 
 	return records, nil
-- 
2.43.0


From c3d3ac881396777bcf4686a4ffcf6d3fde806909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 28/64] fix: intersect query ignored Reverse

---
 query.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/query.go b/query.go
index 6148556..89bee34 100644
--- a/query.go
+++ b/query.go
@@ -302,6 +302,12 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		return nil, err
 	}
 
+	if q.reverse {
+		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
+			keys[i], keys[j] = keys[j], keys[i]
+		}
+	}
+
 	// apply offset & limit early
 	if !hasFilter && !hasSort && !hasAfter {
 		if hasOffset {
-- 
2.43.0


From c120dfe6ce6b5d9a6c839249fe94c1d9bbdf5599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 29/64] fix: query with large offset or limit panicked or
 returned too few rows

---
 query.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/query.go b/query.go
index 89bee34..1dc1a41 100644
--- a/query.go
+++ b/query.go
@@ -226,7 +226,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 		// check if we need to iterate further
 		if !hasSort && hasLimit {
 			limitApplied = true
-			next = count < q.offset+q.limit
+			next = count < q.offset || count-q.offset < q.limit
 		}
 
 		return next, nil
@@ -260,7 +260,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 
 	// offset
 	if hasOffset && !offsetApplied {
-		if int(q.offset) >= len(records) {
+		if q.offset >= uint64(len(records)) {
 			records = make([]T, 0)
 		} else {
 			records = records[q.offset:]
@@ -270,7 +270,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 	// limit
 	if hasLimit && !limitApplied {
 		lastIndex := q.limit
-		if int(lastIndex) >= len(records) {
+		if lastIndex >= uint64(len(records)) {
 			lastIndex = uint64(len(records))
 		}
 		records = records[:lastIndex]
@@ -312,7 +312,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	if !hasFilter && !hasSort && !hasAfter {
 		if hasOffset {
 			offsetApplied = true
-			if int(q.offset) >= len(keys) {
+			if q.offset >= uint64(len(keys)) {
 				return make([]T, 0), nil
 			} else {
 				keys = keys[q.offset:]
@@ -322,7 +322,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		if hasLimit {
 			limitApplied = true
 			lastIndex := q.limit
-			if int(lastIndex) >= len(keys) {
+			if lastIndex >= uint64(len(keys)) {
 				lastIndex = uint64(len(keys))
 			}
 			keys = keys[:lastIndex]
@@ -380,7 +380,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 
 	// offset
 	if hasOffset && !offsetApplied {
-		if int(q.offset) >= len(records) {
+		if q.offset >= uint64(len(records)) {
 			records = make([]T, 0)
 		} else {
 			records = records[q.offset:]
@@ -390,7 +390,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	// limit
 	if hasLimit && !limitApplied {
 		lastIndex := q.limit
-		if int(lastIndex) >= len(records) {
+		if lastIndex >= uint64(len(records)) {
 			lastIndex = uint64(len(records))
 		}
 		records = records[:lastIndex]
-- 
2.43.0


From cf91c86b64177359b395efd557ee2ce43db65390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:25 +0000
Subject: [PATCH 30/64] fix: After returned wrong rows with Reverse, and with
 points or ranges out of key order

---
 query.go | 102 +++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 80 insertions(+), 22 deletions(-)

diff --git a/query.go b/query.go
index 1dc1a41..0ab2be7 100644
--- a/query.go
+++ b/query.go
@@ -182,19 +182,16 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 	skippedFirstRow := false
 	err := q.table.ScanIndexForEach(ctx, q.index, selector, func(key KeyBytes, lazy Lazy[T]) (bool, error) {
 		if q.isAfter && !hasSort && !skippedFirstRow {
-			skippedFirstRow = true
 			afterApplied = true
 
 			keyBuffer := q.table.db.getKeyBufferPool().Get()
 			defer q.table.db.getKeyBufferPool().Put(keyBuffer)
 
-			rowIdxKey := key.ToKey()
-			selIdxKey := KeyBytes(encodeIndexKey[T](q.table, q.afterSelector, q.index, keyBuffer[:0])).ToKey()
-			if bytes.Compare(selIdxKey.Index, rowIdxKey.Index) == 0 &&
-				bytes.Compare(selIdxKey.IndexOrder, rowIdxKey.IndexOrder) == 0 &&
-				bytes.Compare(selIdxKey.PrimaryKey, rowIdxKey.PrimaryKey) == 0 {
+			afterKey := KeyBytes(encodeIndexKey[T](q.table, q.afterSelector, q.index, keyBuffer[:0]))
+			if q.isBeforeOrAtAfterRow(key, afterKey) {
 				return true, nil
 			}
+			skippedFirstRow = true
 		}
 
 		// check if can apply offset in here
@@ -436,43 +433,104 @@ func (q Query[T]) selectors() []Selector[T] {
 	return sels
 }
 
+// isBeforeOrAtAfterRow returns true if the row with given index key is the row
+// passed to After, or one of those that the reversed scan goes through before it.
+func (q Query[T]) isBeforeOrAtAfterRow(key, afterKey KeyBytes) bool {
+	if bytes.Equal(key, afterKey) {
+		return true
+	}
+
+	if !q.reverse || !q.isScannedFromPartitionEnd() {
+		return false
+	}
+
+	return bytes.Equal(key.Index(), afterKey.Index()) && bytes.Compare(key, afterKey) > 0
+}
+
+// isScannedFromPartitionEnd returns true if the reversed scan of the index selector
+// starts at the end of the index partition.
+func (q Query[T]) isScannedFromPartitionEnd() bool {
+	switch q.indexSelector.Type() {
+	case SelectorTypePoint:
+		return true
+	case SelectorTypePoints:
+		return q.index.IndexID != PrimaryIndexID
+	default:
+		return false
+	}
+}
+
 func (q Query[T]) selectorWithAfter() (Selector[T], error) {
 	switch q.indexSelector.Type() {
 	case SelectorTypePoint:
+		if q.reverse {
+			return q.indexSelector, nil
+		}
 		return NewSelectorPoint(q.afterSelector), nil
 	case SelectorTypePoints:
-		afterKey := encodeIndexKey[T](q.table, q.afterSelector, q.index, []byte{})
+		afterKey := KeyBytes(encodeIndexKey[T](q.table, q.afterSelector, q.index, []byte{}))
+
+		points := q.indexSelector.(SelectorPoints[T]).Points()
+		for i, pnt := range points {
+			pntKey := KeyBytes(encodeIndexKey[T](q.table, pnt, q.index, []byte{}))
 
+			// point of the primary index selects one row, and point of the secondary
+			// index selects the rows of the index partition
+			if q.index.IndexID == PrimaryIndexID && !bytes.Equal(afterKey, pntKey) ||
+				!bytes.Equal(afterKey.Index(), pntKey.Index()) {
+				continue
+			}
+
+			if q.reverse {
+				return NewSelectorPoints(points[:i+1]...), nil
+			}
+			return NewSelectorPoints(append([]T{q.afterSelector}, points[i+1:]...)...), nil
+		}
+
+		// the row isn't selected by any of the points
 		var newPoints []T
-		pntsSelector := q.indexSelector.(SelectorPoints[T])
-		for _, pnt := range pntsSelector.Points() {
+		for _, pnt := range points {
 			pntKey := encodeIndexKey[T](q.table, pnt, q.index, []byte{})
-			if bytes.Compare(afterKey, pntKey) < 0 {
+			if bytes.Compare(pntKey, afterKey) > 0 != q.reverse {
 				newPoints = append(newPoints, pnt)
-			} else if bytes.Compare(afterKey, pntKey) >= 0 &&
-				bytes.Compare(afterKey[:_KeyPrefixSplitIndex(afterKey)], pntKey[:_KeyPrefixSplitIndex(pntKey)]) == 0 {
-				newPoints = append(newPoints, q.afterSelector)
 			}
 		}
 		return NewSelectorPoints(newPoints...), nil
 	case SelectorTypeRange:
-		rngSelector := q.indexSelector.(SelectorRange[T])
-
-		_, upper := rngSelector.Range()
+		lower, upper := q.indexSelector.(SelectorRange[T]).Range()
+		if q.reverse {
+			return NewSelectorRange(lower, q.afterSelector), nil
+		}
 		return NewSelectorRange(q.afterSelector, upper), nil
 	case SelectorTypeRanges:
 		afterKey := encodeIndexKey[T](q.table, q.afterSelector, q.index, []byte{})
 
-		var newRanges [][]T
-		rngsSelector := q.indexSelector.(SelectorRanges[T])
-		for _, rng := range rngsSelector.Ranges() {
+		ranges := q.indexSelector.(SelectorRanges[T]).Ranges()
+		for i, rng := range ranges {
 			lowerKey := encodeIndexKey[T](q.table, rng[0], q.index, []byte{})
 			upperKey := encodeIndexKey[T](q.table, rng[1], q.index, []byte{})
 
-			if bytes.Compare(afterKey, lowerKey) < 0 {
-				newRanges = append(newRanges, rng)
-			} else if bytes.Compare(afterKey, lowerKey) >= 0 && bytes.Compare(afterKey, upperKey) <= 0 {
+			if bytes.Compare(afterKey, lowerKey) < 0 || bytes.Compare(afterKey, upperKey) > 0 {
+				continue
+			}
+
+			var newRanges [][]T
+			if q.reverse {
+				newRanges = append(newRanges, ranges[:i]...)
+				newRanges = append(newRanges, []T{rng[0], q.afterSelector})
+			} else {
 				newRanges = append(newRanges, []T{q.afterSelector, rng[1]})
+				newRanges = append(newRanges, ranges[i+1:]...)
+			}
+			return NewSelectorRanges(newRanges...), nil
+		}
+
+		// the row isn't selected by any of the ranges
+		var newRanges [][]T
+		for _, rng := range ranges {
+			lowerKey := encodeIndexKey[T](q.table, rng[0], q.index, []byte{})
+			if bytes.Compare(lowerKey, afterKey) > 0 != q.reverse {
+				newRanges = append(newRanges, rng)
 			}
 		}
 		return NewSelectorRanges(newRanges...), nil
-- 
2.43.0


From 714257137b41817c520bf0c9afab2b01edcc9399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 31/64] fix: KeyDecode panicked on key prefixes

---
 keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keys.go b/keys.go
index 51dee19..2936c23 100644
--- a/keys.go
+++ b/keys.go
@@ -286,6 +286,10 @@ func KeyDecode(keyBytes []byte) Key {
 	_, _ = buff.Read(indexOrder)
 
 	primaryKeyLen := len(keyBytes) - int(indexLen) - int(indexOrderLen) - 10
+	if primaryKeyLen < 0 {
+		// key prefix, it has neither index order nor primary key
+		primaryKeyLen = 0
+	}
 	primaryKey := make([]byte, primaryKeyLen)
 	_, _ = buff.Read(primaryKey)
 
-- 
2.43.0


From ced19a6e1553772530f71a1c0eda431826357b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 32/64] fix: FilterFSStorer DeleteRange ignored the end of the
 range and different keys shared a file

---
 filters/filter_fs_storer.go | 96 +++++++++++++++++++++++++++----------
 1 file changed, 72 insertions(+), 24 deletions(-)

diff --git a/filters/filter_fs_storer.go b/filters/filter_fs_storer.go
index ca8f547..309ee32 100644
--- a/filters/filter_fs_storer.go
+++ b/filters/filter_fs_storer.go
@@ -2,28 +2,25 @@ package filters
 
 import (
 	"bytes"
+	"encoding/hex"
 	"io"
-	"io/fs"
 	"os"
 	"path"
-	"regexp"
+	"strings"
 
 	"github.com/go-bond/bond"
 )
 
 type FilterFSStorer struct {
-	path          string
-	noASCIIRegexp *regexp.Regexp
+	path string
 }
 
 func NewFSFilterStorer(path string) *FilterFSStorer {
-	return &FilterFSStorer{path: path, noASCIIRegexp: regexp.MustCompile("[^A-Za-z0-9_.]")}
+	return &FilterFSStorer{path: path}
 }
 
 func (f *FilterFSStorer) Get(key []byte, batch ...bond.Batch) (data []byte, closer io.Closer, err error) {
-	filePath := f.prepareFilePath(f.path, string(key))
-
-	data, err = os.ReadFile(filePath)
+	data, err = os.ReadFile(f.prepareFilePath(key))
 	if err != nil {
 		return nil, nil, err
 	}
@@ -31,9 +28,7 @@ func (f *FilterFSStorer) Get(key []byte, batch ...bond.Batch) (data []byte, clos
 }
 
 func (f *FilterFSStorer) Set(key []byte, value []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
-	filePath := f.prepareFilePath(f.path, string(key))
-
-	err := os.WriteFile(filePath, value, 0660)
+	err := os.WriteFile(f.prepareFilePath(key), value, 0660)
 	if err != nil {
 		return err
 	}
@@ -41,24 +36,77 @@ func (f *FilterFSStorer) Set(key []byte, value []byte, opt bond.WriteOptions, ba
 }
 
 func (f *FilterFSStorer) DeleteRange(start []byte, end []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
-	startFile := []byte(f.prepareFilePath("", string(start)))
+	entries, err := os.ReadDir(f.path)
+	if err != nil {
+		return err
+	}
+
+	for _, entry := range entries {
+		if entry.IsDir() {
+			continue
+		}
 
-	dirFS := os.DirFS(f.path)
-	err := fs.WalkDir(dirFS, ".", func(filePath string, d fs.DirEntry, err error) error {
-		if bytes.Compare([]byte(filePath), startFile) >= 0 {
-			return os.Remove(path.Join(f.path, filePath))
+		key, ok := decodeFileName(entry.Name())
+		if !ok || bytes.Compare(key, start) < 0 || bytes.Compare(key, end) >= 0 {
+			continue
 		}
-		return nil
-	})
 
-	return err
+		if err = os.Remove(path.Join(f.path, entry.Name())); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
-func (f *FilterFSStorer) prepareFilePath(root, fileName string) string {
-	return path.Join(
-		root,
-		f.noASCIIRegexp.ReplaceAllLiteralString(fileName, ""),
-	)
+func (f *FilterFSStorer) prepareFilePath(key []byte) string {
+	return path.Join(f.path, encodeFileName(key))
+}
+
+// encodeFileName gives every key a file name of its own: bytes that are not
+// safe in a file name are written as %XX.
+func encodeFileName(key []byte) string {
+	if len(key) == 0 {
+		return "%"
+	}
+
+	var name strings.Builder
+	for _, c := range key {
+		switch {
+		case c >= 'A' && c <= 'Z', c >= 'a' && c <= 'z', c >= '0' && c <= '9', c == '_':
+			name.WriteByte(c)
+		case c == '.' && string(key) != "." && string(key) != "..":
+			name.WriteByte(c)
+		default:
+			name.WriteByte('%')
+			name.WriteString(strings.ToUpper(hex.EncodeToString([]byte{c})))
+		}
+	}
+	return name.String()
+}
+
+// decodeFileName returns the key of a file name made by encodeFileName.
+func decodeFileName(name string) (key []byte, ok bool) {
+	if name == "%" {
+		return []byte{}, true
+	}
+
+	for i := 0; i < len(name); i++ {
+		if name[i] != '%' {
+			key = append(key, name[i])
+			continue
+		}
+
+		if i+2 >= len(name) {
+			return nil, false
+		}
+		c, err := hex.DecodeString(name[i+1 : i+3])
+		if err != nil {
+			return nil, false
+		}
+		key = append(key, c...)
+		i += 2
+	}
+	return key, encodeFileName(key) == name
 }
 
 var _ bond.FilterStorer = &FilterFSStorer{}
-- 
2.43.0


From 04633c6fde16cde8aa3f89ea9cbc12e21b983c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 33/64] fix: bloom filter Load leaked the value of the bucket
 number

---
 bloom/bloom_filter.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index f78ef8b..24fa1d8 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -103,10 +103,14 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 	var keyBuff [1024]byte
 
 	bucketNum, bucketNumCloser, err := store.Get(buildBucketNumKey(keyBuff[:0], b.keyPrefix))
-	if err != nil || (err == nil && binary.BigEndian.Uint64(bucketNum) != uint64(b.numOfBuckets)) {
-		if err == nil {
-			_ = bucketNumCloser.Close()
-		}
+	if err != nil {
+		return fmt.Errorf("configuration changed")
+	}
+
+	storedNumOfBuckets := binary.BigEndian.Uint64(bucketNum)
+	_ = bucketNumCloser.Close()
+
+	if storedNumOfBuckets != uint64(b.numOfBuckets) {
 		return fmt.Errorf("configuration changed")
 	}
 
@@ -119,17 +123,19 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 		filter := bloom.New(0, 0)
 		zr, err := zstd.NewReader(bytes.NewBuffer(data))
 		if err != nil {
+			_ = closer.Close()
 			return err
 		}
 
 		_, err = filter.ReadFrom(zr)
-		if err != nil {
-			return err
-		}
 
 		zr.Close()
 		_ = closer.Close()
 
+		if err != nil {
+			return err
+		}
+
 		err = bucket.filter.Merge(filter)
 		if err != nil {
 			return fmt.Errorf("configuration changed: %w", err)
-- 
2.43.0


From fb401f10cc3d71a9c6c8cc19714710aa8d94c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 34/64] fix: Dump looked up the indexes outside its snapshot

---
 bond.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bond.go b/bond.go
index e707f2c..60036bd 100644
--- a/bond.go
+++ b/bond.go
@@ -414,7 +414,11 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 			continue
 		}
 		// write all the index data to sst file.
-		indexes := db.getIndexIDS(tableID)
+		indexItr, err := snapshot.NewIter(&pebble.IterOptions{})
+		if err != nil {
+			return err
+		}
+		indexes := indexIDSFromIter(indexItr, tableID)
 		for _, index := range indexes {
 			indexPath := filepath.Join(path, fmt.Sprintf("table_%d_index_%d", tableID, index))
 			if err := os.Mkdir(indexPath, 0755); err != nil {
@@ -501,10 +505,14 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 }
 
 func (db *_db) getIndexIDS(tableID TableID) []IndexID {
+	return indexIDSFromIter(db.Iter(&IterOptions{}), tableID)
+}
+
+// indexIDSFromIter finds the indexes of the table that have entries, and closes the iterator.
+func indexIDSFromIter(itr Iterator, tableID TableID) []IndexID {
 	prefix := []byte{byte(tableID), 1}
 	indexIDS := []IndexID{}
 
-	itr := db.Iter(&IterOptions{})
 	defer itr.Close()
 	for {
 		if !itr.SeekGE(prefix) {
-- 
2.43.0


From c3a5b33fdaa6384d5db743176b42ee51bac4e1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 35/64] fix: Dump took a failed read for the end of the table

---
 bond.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bond.go b/bond.go
index 60036bd..d95b0c3 100644
--- a/bond.go
+++ b/bond.go
@@ -565,6 +565,10 @@ func iteratorToSST(itr Iterator, path string) error {
 			writer = sstable.NewWriter(objstorageprovider.NewFileWritable(file), opts)
 		}
 	}
+	if err := itr.Error(); err != nil {
+		_ = writer.Close()
+		return err
+	}
 	return writer.Close()
 }
 
-- 
2.43.0


From 4647c5598bac7a72ad0e9e28b4b8c554f6a8e259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 36/64] fix: multi-part and intersect reads took failed reads
 for the end of the data

---
 index.go |  8 ++++++--
 iter.go  | 12 +++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/index.go b/index.go
index 21cd3aa..ca4a525 100644
--- a/index.go
+++ b/index.go
@@ -389,7 +389,9 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 
 		intersectKeysMap[utils.BytesToString(KeyBytes(it.Key()).ToDataKeyBytes([]byte{}))] = struct{}{}
 	}
-	_ = it.Close()
+	if err := it.Close(); err != nil {
+		return nil, err
+	}
 
 	for i, idx2 := range indexes {
 		it = idx2.Iter(table, sels[i], optBatch...)
@@ -406,7 +408,9 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 				tempKeysMap[key] = struct{}{}
 			}
 		}
-		_ = it.Close()
+		if err := it.Close(); err != nil {
+			return nil, err
+		}
 
 		intersectKeysMap = tempKeysMap
 		tempKeysMap = map[string]struct{}{}
diff --git a/iter.go b/iter.go
index 5ddf6d0..ee3e67f 100644
--- a/iter.go
+++ b/iter.go
@@ -100,6 +100,9 @@ func (it *_iteratorMulti) First() bool {
 		if it.iterator.First() {
 			return true
 		}
+		if it.iterator.Error() != nil {
+			return false
+		}
 	}
 	return false
 }
@@ -113,13 +116,16 @@ func (it *_iteratorMulti) Last() bool {
 		if it.iterator.Last() {
 			return true
 		}
+		if it.iterator.Error() != nil {
+			return false
+		}
 	}
 	return false
 }
 
 func (it *_iteratorMulti) Prev() bool {
 	for !it.iterator.Prev() {
-		if it.iteratorOptionsIndex == 0 {
+		if it.iteratorOptionsIndex == 0 || it.iterator.Error() != nil {
 			return false
 		}
 
@@ -136,7 +142,7 @@ func (it *_iteratorMulti) Prev() bool {
 
 func (it *_iteratorMulti) Next() bool {
 	for !it.iterator.Next() {
-		if it.iteratorOptionsIndex == len(it.iteratorOptions)-1 {
+		if it.iteratorOptionsIndex == len(it.iteratorOptions)-1 || it.iterator.Error() != nil {
 			return false
 		}
 
@@ -253,7 +259,7 @@ func (e errIterator) Value() []byte {
 }
 
 func (e errIterator) Close() error {
-	return nil
+	return e.err
 }
 
 var _ Iterator = (*errIterator)(nil)
-- 
2.43.0


From 1e62ea87d1562ae2bc5fd2a129b1d807e41c8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 37/64] fix: table reads and existence checks took failed reads
 for missing rows

---
 table.go | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/table.go b/table.go
index 767ae49..703c330 100644
--- a/table.go
+++ b/table.go
@@ -338,7 +338,12 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 		}
 	}
 
-	err := batch.Commit(Sync)
+	err := iter.Error()
+	if err != nil {
+		return fmt.Errorf("failed to read during reindexing: %w", err)
+	}
+
+	err = batch.Commit(Sync)
 	if err != nil {
 		return fmt.Errorf("failed to commit reindex batch: %w", err)
 	}
@@ -414,7 +419,15 @@ func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) erro
 			}
 
 			// check if exist
-			if t.keyDuplicate(i, keys) || t.exist(key, batch, iter) {
+			exist := t.keyDuplicate(i, keys)
+			if !exist {
+				var err error
+				exist, err = t.exist(key, batch, iter)
+				if err != nil {
+					return err
+				}
+			}
+			if exist {
 				return fmt.Errorf("record: %x already exist", key[_KeyPrefixSplitIndex(key):])
 			}
 
@@ -535,6 +548,9 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 			}
 
 			if !iter.SeekGE(key) || !bytes.Equal(iter.Key(), key) {
+				if err := iter.Error(); err != nil {
+					return err
+				}
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
@@ -750,12 +766,15 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 				isUpdate bool
 				err      error
 			)
-			if t.exist(key, batch, iter) {
+			isUpdate, err = t.exist(key, batch, iter)
+			if err != nil {
+				return err
+			}
+			if isUpdate {
 				err := t.serializer.Deserialize(iter.Value(), &oldTr)
 				if err != nil {
 					return err
 				}
-				isUpdate = true
 			}
 
 			// handle upsert
@@ -849,9 +868,9 @@ func (t *_table[T]) Exist(tr T, optBatch ...Batch) bool {
 	return true
 }
 
-func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) bool {
+func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) (bool, error) {
 	if t.filter != nil && !t.filter.MayContain(context.Background(), key) {
-		return false
+		return false, nil
 	}
 
 	if iter == nil {
@@ -864,7 +883,10 @@ func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) bool {
 		defer iter.Close()
 	}
 
-	return iter.SeekGE(key) && bytes.Equal(iter.Key(), key)
+	if iter.SeekGE(key) && bytes.Equal(iter.Key(), key) {
+		return true, nil
+	}
+	return false, iter.Error()
 }
 
 func (t *_table[T]) GetPoint(ctx context.Context, in T, optBatch ...Batch) (T, error) {
@@ -904,7 +926,10 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 
 		record, closer, err := t.db.Get(key, batch)
 		if err != nil {
-			return nil, ErrNotFound
+			if errors.Is(err, pebble.ErrNotFound) {
+				return nil, ErrNotFound
+			}
+			return nil, err
 		}
 		defer closer.Close()
 
@@ -999,6 +1024,10 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 		}
 
 		if !iter.SeekGE(keys[i]) || !bytes.Equal(iter.Key(), keys[i]) {
+			if err := iter.Error(); err != nil {
+				return nil, err
+			}
+
 			if errorOnNotExist {
 				return nil, ErrNotFound
 			} else {
-- 
2.43.0


From fd1983c029f30516e08abd49262fb1f79daefa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 38/64] fix: Dump skipped indexes when reading failed

---
 bond.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bond.go b/bond.go
index d95b0c3..6ed93c8 100644
--- a/bond.go
+++ b/bond.go
@@ -419,6 +419,9 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 			return err
 		}
 		indexes := indexIDSFromIter(indexItr, tableID)
+		if err := indexItr.Close(); err != nil {
+			return err
+		}
 		for _, index := range indexes {
 			indexPath := filepath.Join(path, fmt.Sprintf("table_%d_index_%d", tableID, index))
 			if err := os.Mkdir(indexPath, 0755); err != nil {
@@ -505,15 +508,16 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 }
 
 func (db *_db) getIndexIDS(tableID TableID) []IndexID {
-	return indexIDSFromIter(db.Iter(&IterOptions{}), tableID)
+	itr := db.Iter(&IterOptions{})
+	defer itr.Close()
+	return indexIDSFromIter(itr, tableID)
 }
 
-// indexIDSFromIter finds the indexes of the table that have entries, and closes the iterator.
+// indexIDSFromIter finds the indexes of the table that have entries.
 func indexIDSFromIter(itr Iterator, tableID TableID) []IndexID {
 	prefix := []byte{byte(tableID), 1}
 	indexIDS := []IndexID{}
 
-	defer itr.Close()
 	for {
 		if !itr.SeekGE(prefix) {
 			break
-- 
2.43.0


From 8e2339c57d6a945a64a679f2eb406546a6d1038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 39/64] fix: queries failed or mixed states when rows were
 written while they ran

---
 index.go | 18 ++++++++++++------
 iter.go  | 53 +++++++++++++++++++++++++++++++++++++++++++++++++----
 query.go | 13 ++++++-------
 table.go | 21 ++++++++++-----------
 4 files changed, 77 insertions(+), 28 deletions(-)

diff --git a/index.go b/index.go
index ca4a525..478505d 100644
--- a/index.go
+++ b/index.go
@@ -192,11 +192,10 @@ func (idx *Index[T]) Name() string {
 
 // Iter returns an iterator for the index.
 func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batch) Iterator {
-	var iterConstructor Iterationer = table.DB()
-	if len(optBatch) > 0 && optBatch[0] != nil {
-		iterConstructor = optBatch[0]
-	}
+	return idx.iter(table, selector, iterSource(table.DB(), optBatch...))
+}
 
+func (idx *Index[T]) iter(table Table[T], selector Selector[T], iterConstructor Iterationer) Iterator {
 	keyBufferPool := table.DB().getKeyBufferPool()
 
 	switch selector.Type() {
@@ -375,10 +374,17 @@ func (idx *Index[T]) OnDelete(table Table[T], tr T, batch Batch, buffs ...[]byte
 }
 
 func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector[T], indexes []*Index[T], sels []Selector[T], optBatch ...Batch) ([][]byte, error) {
+	view := newIterView(iterSource(table.DB(), optBatch...))
+	defer view.Close()
+
+	return idx.intersect(ctx, table, sel, indexes, sels, view)
+}
+
+func (idx *Index[T]) intersect(ctx context.Context, table Table[T], sel Selector[T], indexes []*Index[T], sels []Selector[T], view *_iterView) ([][]byte, error) {
 	tempKeysMap := map[string]struct{}{}
 	intersectKeysMap := map[string]struct{}{}
 
-	it := idx.Iter(table, sel, optBatch...)
+	it := idx.iter(table, sel, view)
 	for it.First(); it.Valid(); it.Next() {
 		select {
 		case <-ctx.Done():
@@ -394,7 +400,7 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 	}
 
 	for i, idx2 := range indexes {
-		it = idx2.Iter(table, sels[i], optBatch...)
+		it = idx2.iter(table, sels[i], view)
 		for it.First(); it.Valid(); it.Next() {
 			select {
 			case <-ctx.Done():
diff --git a/iter.go b/iter.go
index ee3e67f..a98594b 100644
--- a/iter.go
+++ b/iter.go
@@ -69,11 +69,51 @@ func (it *_iterator) Close() error {
 	return it.Iterator.Close()
 }
 
+// iterSource is the batch if there is one, otherwise the database.
+func iterSource(db DB, optBatch ...Batch) Iterationer {
+	if len(optBatch) > 0 && optBatch[0] != nil {
+		return optBatch[0]
+	}
+	return db
+}
+
+// _iterView creates iterators which all read the same state of the database or
+// batch, no matter what is written in the meantime.
+type _iterView struct {
+	source Iterationer
+	base   Iterator
+}
+
+func newIterView(source Iterationer) *_iterView {
+	return &_iterView{source: source, base: source.Iter(&IterOptions{})}
+}
+
+func (v *_iterView) Iter(opt *IterOptions, _ ...Batch) Iterator {
+	if base, ok := v.base.(*_iterator); ok {
+		if pebbleIterator, ok := base.Iterator.(*pebble.Iterator); ok {
+			return newIterator(&_bondIterConstructor{pebbleConstructor: _pebbleIterCloner{pebbleIterator}}, opt)
+		}
+	}
+	return v.source.Iter(opt)
+}
+
+func (v *_iterView) Close() error {
+	return v.base.Close()
+}
+
+type _pebbleIterCloner struct {
+	*pebble.Iterator
+}
+
+func (c _pebbleIterCloner) NewIter(opts *pebble.IterOptions) (*pebble.Iterator, error) {
+	return c.Clone(pebble.CloneOptions{IterOptions: opts})
+}
+
 type _iteratorMulti struct {
 	iteratorOptions      []*IterOptions
 	iteratorOptionsIndex int
 
-	iteratorConstuctor Iterationer
+	iteratorConstuctor *_iterView
 	iterator           Iterator
 }
 
@@ -83,11 +123,12 @@ func newIteratorMulti(itc Iterationer, opts []*IterOptions) Iterator {
 		return errIterator{}
 	}
 
+	view := newIterView(itc)
 	return &_iteratorMulti{
 		iteratorOptions:      opts,
 		iteratorOptionsIndex: 0,
-		iteratorConstuctor:   itc,
-		iterator:             itc.Iter(childIteratorOptions(opts[0])),
+		iteratorConstuctor:   view,
+		iterator:             view.Iter(childIteratorOptions(opts[0])),
 	}
 }
 
@@ -198,7 +239,11 @@ func (it *_iteratorMulti) Close() error {
 		}
 	}()
 
-	return it.iterator.Close()
+	err := it.iterator.Close()
+	if viewErr := it.iteratorConstuctor.Close(); err == nil {
+		err = viewErr
+	}
+	return err
 }
 
 func childIteratorOptions(opt *IterOptions) *IterOptions {
diff --git a/query.go b/query.go
index 0ab2be7..f11ecd8 100644
--- a/query.go
+++ b/query.go
@@ -294,7 +294,11 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		return nil, err
 	}
 
-	keys, err := q.index.Intersect(ctx, q.table, q.indexSelector, q.indexes(), q.selectors(), optBatch...)
+	// all parts and the rows are read from the same state
+	view := newIterView(iterSource(q.table.db, optBatch...))
+	defer view.Close()
+
+	keys, err := q.index.intersect(ctx, q.table, q.indexSelector, q.indexes(), q.selectors(), view)
 	if err != nil {
 		return nil, err
 	}
@@ -327,12 +331,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	}
 
 	// get data
-	var batch Batch
-	if len(optBatch) > 0 {
-		batch = optBatch[0]
-	}
-
-	values, err := q.table.get(keys, batch, make([][]byte, len(keys)), true)
+	values, err := q.table.get(keys, view, make([][]byte, len(keys)), true)
 	if err != nil {
 		return nil, err
 	}
diff --git a/table.go b/table.go
index 703c330..c7a3a8e 100644
--- a/table.go
+++ b/table.go
@@ -954,7 +954,7 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 		err := batched[T](selPoints, len(selPoints), func(selPoints []T) error {
 			keys := t.keysExternal(selPoints, keyArray)
 
-			values, err := t.get(keys, batch, valueArray, false)
+			values, err := t.get(keys, iterSource(t.db, batch), valueArray, false)
 			if err != nil {
 				return err
 			}
@@ -997,7 +997,7 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 	}
 }
 
-func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotExist bool) ([][]byte, error) {
+func (t *_table[T]) get(keys [][]byte, source Iterationer, values [][]byte, errorOnNotExist bool) ([][]byte, error) {
 	if len(keys) == 0 {
 		return [][]byte{}, nil
 	}
@@ -1005,12 +1005,12 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 	// sort keys so we get data from db efficiently
 	originalOrder := t.sortKeys(keys)
 
-	iter := t.db.Iter(&IterOptions{
+	iter := source.Iter(&IterOptions{
 		IterOptions: pebble.IterOptions{
 			LowerBound: keys[0],
 			UpperBound: t.dataKeySpaceEnd,
 		},
-	}, batch)
+	})
 	defer iter.Close()
 
 	for i := 0; i < len(keys); i++ {
@@ -1134,7 +1134,11 @@ func (t *_table[T]) scanForEachPrimaryIndex(ctx context.Context, idx *Index[T],
 }
 
 func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T], s Selector[T], f func(keyBytes KeyBytes, t Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-	it := idx.Iter(t, s, optBatch...)
+	// the index and the rows it refers to are read from the same state
+	view := newIterView(iterSource(t.db, optBatch...))
+	defer view.Close()
+
+	it := idx.iter(t, s, view)
 
 	first := func() bool {
 		if reverse {
@@ -1152,11 +1156,6 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		}
 	}
 
-	var batch Batch
-	if len(optBatch) > 0 {
-		batch = optBatch[0]
-	}
-
 	keys := t.db.getBytesArrayPool().Get()[:0]
 	indexKeys := t.db.getBytesArrayPool().Get()[:0]
 	multiKeyBuffer := t.db.getMultiKeyBufferPool().Get()[:0]
@@ -1216,7 +1215,7 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		}
 
 		var err error
-		prefetchedValues, err = t.get(keys, batch, valuesBuffer, true)
+		prefetchedValues, err = t.get(keys, view, valuesBuffer, true)
 		if err != nil {
 			return t.valueNil, err
 		}
-- 
2.43.0


From ca34c0734cf2c70b4f4be1efcdd076207fe17852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 40/64] fix: Dump that failed left exports running on a
 released snapshot

---
 bond.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bond.go b/bond.go
index 6ed93c8..9a05dde 100644
--- a/bond.go
+++ b/bond.go
@@ -389,6 +389,8 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 	defer snapshot.Close()
 
 	grp := new(errgroup.Group)
+	// a dump that fails must not leave exports running behind.
+	defer func() { _ = grp.Wait() }()
 	// write all the table data to the sst file.
 	for _, tableID := range tables {
 		tablePath := filepath.Join(path, fmt.Sprintf("table_%d", tableID))
-- 
2.43.0


From 39a0b5f8250bb4aba2a95c14f7c085d5ef91a9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 41/64] fix: Open that refused the data version kept the
 database locked

---
 bond.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bond.go b/bond.go
index 9a05dde..61822a9 100644
--- a/bond.go
+++ b/bond.go
@@ -220,12 +220,14 @@ func Open(dirname string, opts *Options) (DB, error) {
 		}, DefaultNumberOfPreAllocBytesArrays),
 	}
 
-	if db.Version() == 0 {
+	if version := db.Version(); version == 0 {
 		if err := db.initVersion(); err != nil {
+			_ = pdb.Close()
 			return nil, err
 		}
-	} else if db.Version() != BOND_DB_DATA_VERSION {
-		return nil, fmt.Errorf("bond db version is %d but expecting %d", db.Version(), BOND_DB_DATA_VERSION)
+	} else if version != BOND_DB_DATA_VERSION {
+		_ = pdb.Close()
+		return nil, fmt.Errorf("bond db version is %d but expecting %d", version, BOND_DB_DATA_VERSION)
 	}
 
 	return db, nil
-- 
2.43.0


From ed6f0174acba93cfddb5f4b50218e657ee589334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 42/64] fix: inspect crashed on selectors and cursors of tables
 of structs

---
 inspect/inspect.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 65db218..9507771 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -91,7 +91,7 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 
 	if indexInfo.Name() != bond.PrimaryIndexName {
 		indexValue := reflect.ValueOf(indexInfo)
-		indexSelectorValue := utils.MakeValue(tableInfo.EntryType())
+		indexSelectorValue := makeEntry(tableInfo.EntryType())
 		err = setFields(indexSelectorValue, indexSelector)
 		if err != nil {
 			return nil, err
@@ -144,7 +144,7 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 	}
 
 	if after != nil {
-		afterValue := utils.MakeValue(tableInfo.EntryType())
+		afterValue := makeEntry(tableInfo.EntryType())
 		err = setFields(afterValue, after)
 		if err != nil {
 			return nil, err
@@ -205,6 +205,15 @@ func (in *inspect) findTableAndIndexInfo(table string, index string) (bond.Table
 	return tableInfo, indexInfo, nil
 }
 
+// makeEntry makes an empty entry, which is not a pointer unless the entry type is one.
+func makeEntry(entryType reflect.Type) reflect.Value {
+	entry := utils.MakeValue(entryType)
+	if entryType.Kind() != reflect.Ptr {
+		entry = entry.Elem()
+	}
+	return entry
+}
+
 func setFields(val reflect.Value, toSet map[string]interface{}) error {
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
-- 
2.43.0


From 58e2b5e6bf0b660be70da50c93aab2fd4adeed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 43/64] fix: inspect ignored the selector of a query on the
 primary index

---
 inspect/inspect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 9507771..19757e1 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -89,7 +89,7 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 	}
 	queryEvalFuncType := queryValue.Interface().(queryEvalTypeFuncInterface).CondFuncType()
 
-	if indexInfo.Name() != bond.PrimaryIndexName {
+	if indexInfo.Name() != bond.PrimaryIndexName || len(indexSelector) > 0 {
 		indexValue := reflect.ValueOf(indexInfo)
 		indexSelectorValue := makeEntry(tableInfo.EntryType())
 		err = setFields(indexSelectorValue, indexSelector)
-- 
2.43.0


From 9b2dac3d089b626e902c267dc93d04ba52c4ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 44/64] fix: inspect crashed on nil, renamed and differently
 typed fields and changed numbers it could not convert

---
 inspect/inspect.go | 71 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 14 deletions(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 19757e1..7d18985 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"reflect"
+	"strings"
 
 	"github.com/fatih/structs"
 	"github.com/go-bond/bond"
@@ -113,13 +114,12 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 				fv := reflect.ValueOf(filterInterface)
 				if rowInterface, ok := row[filterField]; ok {
 					rv := reflect.ValueOf(rowInterface)
-					if fv.Kind() != rv.Kind() {
-						if fv.CanConvert(rv.Type()) {
-							filterInterface = fv.Convert(rv.Type()).Interface()
-						} else {
+					if rv.IsValid() {
+						if fv, ok = convertValue(fv, rv.Type()); !ok {
 							ret = false
 							break
 						}
+						filterInterface = fv.Interface()
 					}
 
 					if !reflect.DeepEqual(filterInterface, rowInterface) {
@@ -220,20 +220,15 @@ func setFields(val reflect.Value, toSet map[string]interface{}) error {
 	}
 
 	for fieldNameToSet, valueToSetInterface := range toSet {
-		fields := structs.Map(val.Interface())
-		if _, ok := fields[fieldNameToSet]; ok {
+		if vv, ok := fieldByName(val, fieldNameToSet); ok {
 			vt := reflect.ValueOf(valueToSetInterface)
-			vv := val.FieldByName(fieldNameToSet)
 
-			if vt.Kind() != vv.Kind() {
-				if vt.CanConvert(vv.Type()) {
-					vt = vt.Convert(vv.Type())
-				} else {
-					return fmt.Errorf("field type mismatch %s != %s", vt.Kind().String(), vv.Kind().String())
-				}
+			converted, ok := convertValue(vt, vv.Type())
+			if !ok {
+				return fmt.Errorf("field type mismatch %s != %s", vt.Kind().String(), vv.Kind().String())
 			}
 
-			vv.Set(vt)
+			vv.Set(converted)
 		} else {
 			return fmt.Errorf("field '%s' not found", fieldNameToSet)
 		}
@@ -241,3 +236,51 @@ func setFields(val reflect.Value, toSet map[string]interface{}) error {
 
 	return nil
 }
+
+// fieldByName returns the field that structs.Map lists under the name.
+func fieldByName(val reflect.Value, name string) (reflect.Value, bool) {
+	for i := 0; i < val.NumField(); i++ {
+		field := val.Type().Field(i)
+		fieldName, _, _ := strings.Cut(field.Tag.Get(structs.DefaultTagName), ",")
+		if fieldName == "" {
+			fieldName = field.Name
+		}
+		if field.IsExported() && fieldName != "-" && fieldName == name {
+			return val.Field(i), true
+		}
+	}
+	return reflect.Value{}, false
+}
+
+// convertValue converts v to type t. It refuses conversions that do not keep the
+// value: nil to a type without nil, numbers to text, numbers out of range.
+func convertValue(v reflect.Value, t reflect.Type) (reflect.Value, bool) {
+	if !v.IsValid() {
+		switch t.Kind() {
+		case reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+			return reflect.Zero(t), true
+		}
+		return reflect.Value{}, false
+	}
+	if v.Type().AssignableTo(t) {
+		return v.Convert(t), true
+	}
+	if isNumber(v.Kind()) != isNumber(t.Kind()) || !v.CanConvert(t) {
+		return reflect.Value{}, false
+	}
+	converted := v.Convert(t)
+	if isNumber(t.Kind()) && t.Kind() != reflect.Float32 {
+		if isNegative(v) != isNegative(converted) || !reflect.DeepEqual(converted.Convert(v.Type()).Interface(), v.Interface()) {
+			return reflect.Value{}, false
+		}
+	}
+	return converted, true
+}
+
+func isNumber(k reflect.Kind) bool {
+	return k >= reflect.Int && k <= reflect.Float64
+}
+
+func isNegative(v reflect.Value) bool {
+	return v.CanInt() && v.Int() < 0 || v.CanFloat() && v.Float() < 0
+}
-- 
2.43.0


From cf2cfa83730ab3abaf8071c404b559af63d5111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 45/64] fix: remote inspect queries ignored their context

---
 inspect/inspect_handler_client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inspect/inspect_handler_client.go b/inspect/inspect_handler_client.go
index fb5db8c..3dc603b 100644
--- a/inspect/inspect_handler_client.go
+++ b/inspect/inspect_handler_client.go
@@ -150,6 +150,7 @@ func (i *inspectClient) Query(ctx context.Context, table string, index string, i
 	}
 
 	resp, err := i.client.R().
+		SetContext(ctx).
 		SetHeaders(i.headers).
 		SetBody(rqData).
 		Post(i.queryURL)
-- 
2.43.0


From 9bb5e37bf34835207a47c5ca4440f83d70cdc7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 46/64] fix: Clear of a bloom filter marks all buckets as not
 written, so that the next Save is complete

---
 bloom/bloom_filter.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 24fa1d8..dafbbbb 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -199,6 +199,14 @@ func (b *BloomFilter) Save(_ context.Context, store bond.FilterStorer) error {
 }
 
 func (b *BloomFilter) Clear(_ context.Context, store bond.FilterStorer) error {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+
+	// whatever was loaded from the store has to be written again
+	for _, bucket := range b.buckets {
+		bucket.hasBeenWritten = false
+	}
+
 	end := make([]byte, len(b.keyPrefix))
 	copy(end, b.keyPrefix)
 	end[len(end)-1]++
-- 
2.43.0


From 5c0012ae776adc950e09c62a37655a0b3630c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 47/64] fix: bond-cli ended successfully when its command
 failed

---
 cmd/bond-cli/bond-cli.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/bond-cli/bond-cli.go b/cmd/bond-cli/bond-cli.go
index 39bf89a..148a2d3 100644
--- a/cmd/bond-cli/bond-cli.go
+++ b/cmd/bond-cli/bond-cli.go
@@ -21,5 +21,6 @@ func main() {
 
 	if err := app.Run(os.Args); err != nil {
 		_, _ = fmt.Fprintf(os.Stderr, "[Error] %s\n", err.Error())
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 1ef12bad7d746a671a706a0a9c3e5a85cba0fc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 48/64] fix: bond-cli took table IDs out of range for other
 tables

---
 cmd/bond-cli/dump.go    | 23 +++++++++++++++++++----
 cmd/bond-cli/restore.go |  8 ++++----
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/cmd/bond-cli/dump.go b/cmd/bond-cli/dump.go
index 03c27f2..069e636 100644
--- a/cmd/bond-cli/dump.go
+++ b/cmd/bond-cli/dump.go
@@ -1,6 +1,9 @@
 package main
 
 import (
+	"fmt"
+	"math"
+
 	"github.com/go-bond/bond"
 	"github.com/urfave/cli/v2"
 )
@@ -42,15 +45,27 @@ func init() {
 			_FlagExportTables,
 		},
 		Action: func(ctx *cli.Context) error {
-			db, err := bond.Open(ctx.String("bond-dir"), nil)
+			tables, err := tableIDs(ctx)
 			if err != nil {
 				return err
 			}
-			var tables []bond.TableID
-			for _, id := range ctx.IntSlice("tables") {
-				tables = append(tables, bond.TableID(id))
+			db, err := bond.Open(ctx.String("bond-dir"), nil)
+			if err != nil {
+				return err
 			}
 			return db.Dump(ctx.Context, ctx.String("dir"), tables, ctx.Bool("with-index"))
 		},
 	}
 }
+
+// tableIDs returns the tables the command was called for.
+func tableIDs(ctx *cli.Context) ([]bond.TableID, error) {
+	var tables []bond.TableID
+	for _, id := range ctx.IntSlice("tables") {
+		if id < 0 || id > math.MaxUint8 {
+			return nil, fmt.Errorf("table id %d is out of range", id)
+		}
+		tables = append(tables, bond.TableID(id))
+	}
+	return tables, nil
+}
diff --git a/cmd/bond-cli/restore.go b/cmd/bond-cli/restore.go
index 77283b9..1c47fa5 100644
--- a/cmd/bond-cli/restore.go
+++ b/cmd/bond-cli/restore.go
@@ -18,13 +18,13 @@ func init() {
 			_FlagExportTables,
 		},
 		Action: func(ctx *cli.Context) error {
-			db, err := bond.Open(ctx.String("bond-dir"), nil)
+			tables, err := tableIDs(ctx)
 			if err != nil {
 				return err
 			}
-			var tables []bond.TableID
-			for _, id := range ctx.IntSlice("tables") {
-				tables = append(tables, bond.TableID(id))
+			db, err := bond.Open(ctx.String("bond-dir"), nil)
+			if err != nil {
+				return err
 			}
 			return db.Restore(ctx.Context, ctx.String("dir"), tables, ctx.Bool("with-index"))
 		},
-- 
2.43.0


From 3540f95467fb355e7448e690e1ee8e03f80fc3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 49/64] fix: a panic inside WithSync left the batch locked

---
 sync.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index 0627966..135f687 100644
--- a/sync.go
+++ b/sync.go
@@ -19,7 +19,7 @@ func NewSyncBatch(batch Batch) *SyncBatch {
 
 func (s *SyncBatch) WithSync(f func(batch Batch) error) error {
 	s.mu.Lock()
-	err := f(s.batch)
-	s.mu.Unlock()
-	return err
+	defer s.mu.Unlock()
+
+	return f(s.batch)
 }
-- 
2.43.0


From d4a149b03c2b577c1421aca3aa41be085b3603d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:16 +0000
Subject: [PATCH 50/64] fix: upsert conflict functions may change the stored
 record they are given

With records held by pointer, a conflict function that merges into the old
record and returns it left the index entries of the stored record behind:
they were computed from the changed one.
---
 table.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index c7a3a8e..4d983eb 100644
--- a/table.go
+++ b/table.go
@@ -779,7 +779,18 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 
 			// handle upsert
 			if isUpdate {
-				tr = onConflict(oldTr, tr)
+				conflictTr := oldTr
+				if len(indexes) > 0 {
+					// onConflict may change the record it is given, but
+					// the stored one is needed to update the indexes
+					var copyTr T
+					err := t.serializer.Deserialize(iter.Value(), &copyTr)
+					if err != nil {
+						return err
+					}
+					conflictTr = copyTr
+				}
+				tr = onConflict(conflictTr, tr)
 			}
 
 			// apply conficts recursively if duplicate exist
-- 
2.43.0


From f6363c01035cb7ec754c800067ca85ceb9c1aecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:39 +0000
Subject: [PATCH 51/64] fix: a number sequence repeated numbers after the clock
 stepped back

---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 33b980f..5b27d84 100644
--- a/helpers.go
+++ b/helpers.go
@@ -27,7 +27,7 @@ func (n *NumberSequence) Next() (uint64, error) {
 	defer n.mutex.Unlock()
 
 	nextId := uint64(time.Now().Unix() << NumberSequenceBitShift)
-	if n.lastId&NumberSequenceTimestampMask == nextId&NumberSequenceTimestampMask {
+	if n.lastId&NumberSequenceTimestampMask >= nextId&NumberSequenceTimestampMask {
 		if n.lastId&NumberSequenceSequenceNumberMask == NumberSequenceSequenceNumberMask {
 			return math.MaxUint64, fmt.Errorf("sequence number overflow")
 		}
-- 
2.43.0


From 3f359cb831e343f9eaf0844e3b357b62a75f4ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:29 +0000
Subject: [PATCH 52/64] fix: restore skipped what it found behind symbolic
 links

---
 bond.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/bond.go b/bond.go
index 61822a9..efc8e87 100644
--- a/bond.go
+++ b/bond.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"io/fs"
 	"math"
 	"os"
 	"path/filepath"
@@ -474,15 +473,14 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 
 	// ingest the required sst file.
 	ssts := []string{}
-	err = filepath.Walk(path, func(path string, info fs.FileInfo, err error) error {
-		if info.IsDir() {
-			return nil
-		}
-		if filepath.Ext(path) != ".sst" {
-			return nil
-		}
+	// the directories are listed by their names, as any of them may be a link.
+	dirs, err := os.ReadDir(path)
+	if err != nil {
+		return err
+	}
+	for _, entry := range dirs {
 		// filter only relevant tables.
-		dir := filepath.Base(filepath.Dir(path))
+		dir := entry.Name()
 		filter := true
 		for _, table := range tables {
 			tableDir := fmt.Sprintf("table_%d", table)
@@ -492,21 +490,23 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 			}
 		}
 
-		if filter {
-			return nil
+		if filter || entry.Type().IsRegular() {
+			continue
 		}
 
-		if !strings.Contains(dir, "index") {
-			ssts = append(ssts, path)
-			return nil
+		if strings.Contains(dir, "index") && !withIndex {
+			continue
 		}
-		if withIndex {
-			ssts = append(ssts, path)
+
+		files, err := os.ReadDir(filepath.Join(path, dir))
+		if err != nil {
+			return err
+		}
+		for _, file := range files {
+			if filepath.Ext(file.Name()) == ".sst" {
+				ssts = append(ssts, filepath.Join(path, dir, file.Name()))
+			}
 		}
-		return nil
-	})
-	if err != nil {
-		return err
 	}
 	return db.pebble.Ingest(ssts)
 }
-- 
2.43.0


From 11af5af3a475fd158582a382ddad5e899268a198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:50 +0000
Subject: [PATCH 53/64] fix: an open that failed left its format version in the
 new database's directory

---
 bond.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bond.go b/bond.go
index efc8e87..e1d8c8d 100644
--- a/bond.go
+++ b/bond.go
@@ -168,7 +168,8 @@ func Open(dirname string, opts *Options) (DB, error) {
 		return nil, err
 	}
 
-	if err != nil && os.IsNotExist(err) {
+	newVersionFile := err != nil && os.IsNotExist(err)
+	if newVersionFile {
 		// create version for to check invariant in the
 		// next open.
 		if err := os.WriteFile(pebbelVersionPath,
@@ -192,6 +193,10 @@ func Open(dirname string, opts *Options) (DB, error) {
 
 	pdb, err := pebble.Open(dirname, opts.PebbleOptions)
 	if err != nil {
+		if newVersionFile {
+			// the database doesn't have this version.
+			_ = os.Remove(pebbelVersionPath)
+		}
 		return nil, err
 	}
 
-- 
2.43.0


From 8bd84d86e000ddf555d7dfe13bdcb65172931200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:08 +0000
Subject: [PATCH 54/64] fix: an open that could not read the data version took
 the database for a new one

---
 bond.go    |  5 ++++-
 version.go | 19 ++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/bond.go b/bond.go
index e1d8c8d..9706ee6 100644
--- a/bond.go
+++ b/bond.go
@@ -224,7 +224,10 @@ func Open(dirname string, opts *Options) (DB, error) {
 		}, DefaultNumberOfPreAllocBytesArrays),
 	}
 
-	if version := db.Version(); version == 0 {
+	if version, err := db.version(); err != nil {
+		_ = pdb.Close()
+		return nil, err
+	} else if version == 0 {
 		if err := db.initVersion(); err != nil {
 			_ = pdb.Close()
 			return nil, err
diff --git a/version.go b/version.go
index f8f4db1..1f755e0 100644
--- a/version.go
+++ b/version.go
@@ -1,6 +1,7 @@
 package bond
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -13,19 +14,27 @@ const (
 )
 
 func (db *_db) Version() int {
+	ver, _ := db.version()
+	return ver
+}
+
+// version returns 0 if the database has no version yet.
+func (db *_db) version() (int, error) {
 	value, closer, err := db.pebble.Get(bondDataVersionKey())
-	if err != nil {
-		return 0
+	if errors.Is(err, pebble.ErrNotFound) {
+		return 0, nil
+	} else if err != nil {
+		return 0, err
 	}
 	defer func() { _ = closer.Close() }()
 
 	ver, _ := strconv.ParseInt(string(value), 10, 32)
-	return int(ver)
+	return int(ver), nil
 }
 
 func (db *_db) initVersion() error {
-	if db.Version() > 0 {
-		return nil
+	if current, err := db.version(); err != nil || current > 0 {
+		return err
 	}
 	ver := fmt.Sprintf("%d", BOND_DB_DATA_VERSION)
 	return db.pebble.Set(bondDataVersionKey(), []byte(ver), pebble.Sync)
-- 
2.43.0


From 9144987d89560cb727d93b690c251e1cc4df372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:04 +0000
Subject: [PATCH 55/64] fix: a migration to an older format version recorded
 that version for newer data

---
 bond.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bond.go b/bond.go
index 9706ee6..c1a2dd6 100644
--- a/bond.go
+++ b/bond.go
@@ -628,6 +628,10 @@ func MigratePebbleFormatVersion(dir string, upgradeVersion uint64) error {
 	}
 	defer db.Close()
 
+	if version := db.FormatMajorVersion(); version > opt.FormatMajorVersion {
+		return fmt.Errorf("the pebble version can't be changed from %d to the older %d", version, upgradeVersion)
+	}
+
 	versionFile, err := os.OpenFile(filepath.Join(dir, "bond", PebbleFormatFile), os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
 	if err != nil {
 		return err
-- 
2.43.0


From 27bc18dfd971fd57c3cfa70d45e4b8d6d9151a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:52 +0000
Subject: [PATCH 56/64] fix: bond-cli dumped a database that does not exist

---
 cmd/bond-cli/dump.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/bond-cli/dump.go b/cmd/bond-cli/dump.go
index 069e636..a495516 100644
--- a/cmd/bond-cli/dump.go
+++ b/cmd/bond-cli/dump.go
@@ -49,7 +49,10 @@ func init() {
 			if err != nil {
 				return err
 			}
-			db, err := bond.Open(ctx.String("bond-dir"), nil)
+			// a database that isn't there has nothing to dump.
+			opts := bond.DefaultOptions()
+			opts.PebbleOptions.ErrorIfNotExists = true
+			db, err := bond.Open(ctx.String("bond-dir"), opts)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From df17a87e8a6aeee2e10bc393800daa9f80efd4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:18 +0000
Subject: [PATCH 57/64] fix: inspect over HTTP rounded integers beyond 2^53

---
 inspect/inspect.go                |  6 +++
 inspect/inspect_cli.go            |  6 +--
 inspect/inspect_handler.go        | 12 ++---
 inspect/inspect_handler_client.go |  9 +++-
 inspect/inspect_json.go           | 78 +++++++++++++++++++++++++++++++
 5 files changed, 100 insertions(+), 11 deletions(-)
 create mode 100644 inspect/inspect_json.go

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 7d18985..9f00aaa 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -2,6 +2,7 @@ package inspect
 
 import (
 	"context"
+	"encoding/json"
 	"fmt"
 	"reflect"
 	"strings"
@@ -262,6 +263,11 @@ func convertValue(v reflect.Value, t reflect.Type) (reflect.Value, bool) {
 		}
 		return reflect.Value{}, false
 	}
+	if number, ok := v.Interface().(json.Number); ok && v.Type() != t {
+		if v, ok = numberValue(number, t.Kind()); !ok {
+			return reflect.Value{}, false
+		}
+	}
 	if v.Type().AssignableTo(t) {
 		return v.Convert(t), true
 	}
diff --git a/inspect/inspect_cli.go b/inspect/inspect_cli.go
index ed0fcf5..07465c0 100644
--- a/inspect/inspect_cli.go
+++ b/inspect/inspect_cli.go
@@ -192,7 +192,7 @@ func NewInspectCLI(init func(path string) (Inspect, error)) *cli.Command {
 						context.Background(), time.Now().Add(ctx.Duration(_FlagDeadline.Name)))
 					defer cancel()
 
-					var indexSelector map[string]interface{}
+					var indexSelector jsonFields
 					if indexSelectorStr := ctx.String(_FlagIndexSelector.Name); indexSelectorStr != "" {
 						err = json.Unmarshal([]byte(indexSelectorStr), &indexSelector)
 						if err != nil {
@@ -200,7 +200,7 @@ func NewInspectCLI(init func(path string) (Inspect, error)) *cli.Command {
 						}
 					}
 
-					var filter map[string]interface{}
+					var filter jsonFields
 					if filterStr := ctx.String(_FlagFilter.Name); filterStr != "" {
 						err = json.Unmarshal([]byte(filterStr), &filter)
 						if err != nil {
@@ -208,7 +208,7 @@ func NewInspectCLI(init func(path string) (Inspect, error)) *cli.Command {
 						}
 					}
 
-					var after map[string]interface{}
+					var after jsonFields
 					if afterStr := ctx.String(_FlagAfter.Name); afterStr != "" {
 						err = json.Unmarshal([]byte(afterStr), &after)
 						if err != nil {
diff --git a/inspect/inspect_handler.go b/inspect/inspect_handler.go
index ee0ba20..9b5d6ad 100644
--- a/inspect/inspect_handler.go
+++ b/inspect/inspect_handler.go
@@ -177,12 +177,12 @@ func buildEntryFieldsHandler(inspect Inspect) http.HandlerFunc {
 }
 
 type requestQuery struct {
-	Table         string                 `json:"table"`
-	Index         string                 `json:"index"`
-	IndexSelector map[string]interface{} `json:"indexSelector"`
-	Filter        map[string]interface{} `json:"filter"`
-	Limit         uint64                 `json:"limit"`
-	After         map[string]interface{} `json:"after"`
+	Table         string     `json:"table"`
+	Index         string     `json:"index"`
+	IndexSelector jsonFields `json:"indexSelector"`
+	Filter        jsonFields `json:"filter"`
+	Limit         uint64     `json:"limit"`
+	After         jsonFields `json:"after"`
 }
 
 func buildQueryHandler(inspect Inspect) http.HandlerFunc {
diff --git a/inspect/inspect_handler_client.go b/inspect/inspect_handler_client.go
index 3dc603b..4b4f4dd 100644
--- a/inspect/inspect_handler_client.go
+++ b/inspect/inspect_handler_client.go
@@ -168,11 +168,16 @@ func (i *inspectClient) Query(ctx context.Context, table string, index string, i
 		return nil, fmt.Errorf("request failed with status(%s), reason: %s", resp.Status(), respErr.Error)
 	}
 
-	var result []map[string]interface{}
-	err = json.Unmarshal(resp.Body(), &result)
+	var entries []jsonFields
+	err = json.Unmarshal(resp.Body(), &entries)
 	if err != nil {
 		return nil, err
 	}
 
+	result := make([]map[string]interface{}, 0, len(entries))
+	for _, entry := range entries {
+		result = append(result, entry.result())
+	}
+
 	return result, nil
 }
diff --git a/inspect/inspect_json.go b/inspect/inspect_json.go
new file mode 100644
index 0000000..a43f1ce
--- /dev/null
+++ b/inspect/inspect_json.go
@@ -0,0 +1,78 @@
+package inspect
+
+import (
+	"bytes"
+	"encoding/json"
+	"reflect"
+	"strconv"
+)
+
+const maxExactFloat = 1 << 53
+
+// jsonFields are the fields of an entry read from JSON. Numbers are kept as they are
+// written until the type of the field is known, because float64 rounds large integers.
+type jsonFields map[string]interface{}
+
+func (f *jsonFields) UnmarshalJSON(data []byte) error {
+	var raw map[string]json.RawMessage
+	err := json.Unmarshal(data, &raw)
+	if err != nil || raw == nil {
+		*f = nil
+		return err
+	}
+
+	fields := make(jsonFields, len(raw))
+	for name, fieldData := range raw {
+		var value interface{}
+		err = json.Unmarshal(fieldData, &value)
+		if err != nil {
+			return err
+		}
+
+		if _, ok := value.(float64); ok {
+			value = json.Number(bytes.TrimSpace(fieldData))
+		}
+		fields[name] = value
+	}
+
+	*f = fields
+	return nil
+}
+
+// result returns the fields with numbers as float64, but for the integers that float64
+// may have to round.
+func (f jsonFields) result() map[string]interface{} {
+	for name, value := range f {
+		if number, ok := value.(json.Number); ok {
+			f[name] = numberInterface(number)
+		}
+	}
+	return f
+}
+
+func numberInterface(number json.Number) interface{} {
+	if i, err := strconv.ParseInt(number.String(), 10, 64); err == nil && (i > maxExactFloat || i < -maxExactFloat) {
+		return i
+	}
+	if u, err := strconv.ParseUint(number.String(), 10, 64); err == nil && u > maxExactFloat {
+		return u
+	}
+	f, _ := number.Float64()
+	return f
+}
+
+// numberValue returns the number for a field of given kind.
+func numberValue(number json.Number, kind reflect.Kind) (reflect.Value, bool) {
+	if kind >= reflect.Int && kind <= reflect.Int64 {
+		if i, err := strconv.ParseInt(number.String(), 10, 64); err == nil {
+			return reflect.ValueOf(i), true
+		}
+	}
+	if kind >= reflect.Uint && kind <= reflect.Uintptr {
+		if u, err := strconv.ParseUint(number.String(), 10, 64); err == nil {
+			return reflect.ValueOf(u), true
+		}
+	}
+	f, err := number.Float64()
+	return reflect.ValueOf(f), err == nil
+}
-- 
2.43.0


From edc723b269039c4b603c5c3e4aeca272b6792e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:18 +0000
Subject: [PATCH 58/64] fix: the inspect command refused headers with = in
 their value

---
 inspect/inspect_cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inspect/inspect_cli.go b/inspect/inspect_cli.go
index 07465c0..b2fad34 100644
--- a/inspect/inspect_cli.go
+++ b/inspect/inspect_cli.go
@@ -93,7 +93,7 @@ func NewInspectCLI(init func(path string) (Inspect, error)) *cli.Command {
 
 				headers := make(map[string]string)
 				for _, s := range headersStr {
-					header := strings.Split(s, "=")
+					header := strings.SplitN(s, "=", 2)
 					if len(header) != 2 {
 						return fmt.Errorf("invalid header: %s", s)
 					}
-- 
2.43.0


From 1979910d1246ef1959d1f84f96b143d0af46d2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:22 +0000
Subject: [PATCH 59/64] fix: scans kept their iterators open when a callback
 panicked

---
 iter.go  | 19 +++++++++++++++++++
 table.go |  6 ++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/iter.go b/iter.go
index a98594b..93b2cc2 100644
--- a/iter.go
+++ b/iter.go
@@ -69,6 +69,25 @@ func (it *_iterator) Close() error {
 	return it.Iterator.Close()
 }
 
+// _closeOnceIterator is an iterator that may be closed more than once.
+type _closeOnceIterator struct {
+	Iterator
+	closed bool
+	err    error
+}
+
+func newCloseOnceIterator(it Iterator) *_closeOnceIterator {
+	return &_closeOnceIterator{Iterator: it}
+}
+
+func (it *_closeOnceIterator) Close() error {
+	if !it.closed {
+		it.closed = true
+		it.err = it.Iterator.Close()
+	}
+	return it.err
+}
+
 // iterSource is the batch if there is one, otherwise the database.
 func iterSource(db DB, optBatch ...Batch) Iterationer {
 	if len(optBatch) > 0 && optBatch[0] != nil {
diff --git a/table.go b/table.go
index 4d983eb..3b6c7ef 100644
--- a/table.go
+++ b/table.go
@@ -1099,7 +1099,8 @@ func (t *_table[T]) ScanIndexForEach(ctx context.Context, idx *Index[T], s Selec
 }
 
 func (t *_table[T]) scanForEachPrimaryIndex(ctx context.Context, idx *Index[T], s Selector[T], f func(keyBytes KeyBytes, t Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-	it := idx.Iter(t, s, optBatch...)
+	it := newCloseOnceIterator(idx.Iter(t, s, optBatch...))
+	defer it.Close() // also when the callback panics
 
 	first := func() bool {
 		if reverse {
@@ -1149,7 +1150,8 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 	view := newIterView(iterSource(t.db, optBatch...))
 	defer view.Close()
 
-	it := idx.iter(t, s, view)
+	it := newCloseOnceIterator(idx.iter(t, s, view))
+	defer it.Close() // also when the callback panics
 
 	first := func() bool {
 		if reverse {
-- 
2.43.0


From 9797e9985582af00f169314772b4d04a4709293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:43 +0000
Subject: [PATCH 60/64] fix: migrating a directory without a database created
 one

---
 bond.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bond.go b/bond.go
index c1a2dd6..a44d8cd 100644
--- a/bond.go
+++ b/bond.go
@@ -615,6 +615,7 @@ func PebbleFormatVersion(dir string) (uint64, error) {
 func MigratePebbleFormatVersion(dir string, upgradeVersion uint64) error {
 	opt := DefaultPebbleOptions()
 	opt.FormatMajorVersion = pebble.FormatMajorVersion(upgradeVersion)
+	opt.ErrorIfNotExists = true
 
 	// expand the path if it is not absolute
 	dir, err := filepath.Abs(dir)
-- 
2.43.0


From d3961f2bd75aaba5878d68c51aab4c89c74981eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:13 +0000
Subject: [PATCH 61/64] fix: a bloom filter wrote behind the key prefix it was
 given

---
 bloom/bloom_filter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index dafbbbb..1646094 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -221,13 +221,15 @@ func (b *BloomFilter) hash(key []byte) int {
 
 func buildKey(buff []byte, keyPrefix []byte, bucketNo int) []byte {
 	buffer := bytes.NewBuffer(buff)
-	_, _ = buffer.Write(append(keyPrefix, []byte(fmt.Sprintf("%d", bucketNo))...))
+	_, _ = buffer.Write(keyPrefix)
+	_, _ = buffer.WriteString(fmt.Sprintf("%d", bucketNo))
 	return buffer.Bytes()
 }
 
 func buildBucketNumKey(buff []byte, keyPrefix []byte) []byte {
 	buffer := bytes.NewBuffer(buff)
-	_, _ = buffer.Write(append(keyPrefix, []byte("bn")...))
+	_, _ = buffer.Write(keyPrefix)
+	_, _ = buffer.WriteString("bn")
 	return buffer.Bytes()
 }
 
-- 
2.43.0


From de309d0975195399a084f1b8ff35fe185932213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:59 +0000
Subject: [PATCH 62/64] fix: default options left goroutines behind when a
 database was closed

---
 options.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/options.go b/options.go
index fc9d98a..bb56385 100644
--- a/options.go
+++ b/options.go
@@ -36,14 +36,11 @@ func DefaultPebbleOptions() *pebble.Options {
 	// and set the value to 80%. We should also record this value on /status
 	var maxOpenFileLimit = 5_000
 
+	// every database has a table cache of its own, which is closed with it
 	pCache := pebble.NewCache(256 << 20) // 256 MB
-	defer pCache.Unref()
-
-	pTableCache := pebble.NewTableCache(pCache, runtime.GOMAXPROCS(0), maxOpenFileLimit)
 
 	opts := &pebble.Options{
 		Cache:                       pCache,
-		TableCache:                  pTableCache,
 		FS:                          vfs.Default,
 		Comparer:                    DefaultKeyComparer(),
 		L0CompactionThreshold:       2,
-- 
2.43.0


From eab5d60736c93e19805ed91d233df805fd4b7c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:59 +0000
Subject: [PATCH 63/64] fix: a bloom filter panicked when a stored value was
 cut short

---
 bloom/bloom_filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 1646094..b6d6097 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -107,10 +107,11 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 		return fmt.Errorf("configuration changed")
 	}
 
-	storedNumOfBuckets := binary.BigEndian.Uint64(bucketNum)
+	// a value of another length was cut in the middle of a write
+	configurationMatches := len(bucketNum) == 8 && binary.BigEndian.Uint64(bucketNum) == uint64(b.numOfBuckets)
 	_ = bucketNumCloser.Close()
 
-	if storedNumOfBuckets != uint64(b.numOfBuckets) {
+	if !configurationMatches {
 		return fmt.Errorf("configuration changed")
 	}
 
-- 
2.43.0


From 679ac8d9dcbd79d811c980a81f993ce5c06b84c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:24 +0000
Subject: [PATCH 64/64] fix: an index with the ID of the primary index
 destroyed the rows when built

---
 table.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 3b6c7ef..f3c4822 100644
--- a/table.go
+++ b/table.go
@@ -265,7 +265,7 @@ func (t *_table[T]) addIndex(idxs []*Index[T]) error {
 	maps.Copy(newIndexes, t.secondaryIndexes)
 	for _, idx := range idxs {
 		_, ok := newIndexes[idx.IndexID]
-		if ok {
+		if ok || idx.IndexID == PrimaryIndexID {
 			return fmt.Errorf("found duplicate IndexID %d", idx.IndexID)
 		}
 		newIndexes[idx.IndexID] = idx
@@ -275,6 +275,13 @@ func (t *_table[T]) addIndex(idxs []*Index[T]) error {
 }
 
 func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
+	for _, idx := range idxs {
+		if idx.IndexID == PrimaryIndexID {
+			// its entries are the rows
+			return fmt.Errorf("the primary index can't be reindexed")
+		}
+	}
+
 	idxsMap := make(map[IndexID]*Index[T])
 	for _, idx := range idxs {
 		idxsMap[idx.IndexID] = idx
-- 
2.43.0

