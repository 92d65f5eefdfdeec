From 297893bfd0e40311f873304c302181e6be20de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 01/33] fix: kll partition boundaries no longer alter the
 cached sorted view

---
 kll/items_sketch_sorted_view.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/kll/items_sketch_sorted_view.go b/kll/items_sketch_sorted_view.go
index 95fee90..3161e75 100644
--- a/kll/items_sketch_sorted_view.go
+++ b/kll/items_sketch_sorted_view.go
@@ -19,6 +19,7 @@ package kll
 
 import (
 	"errors"
+	"slices"
 	"sort"
 
 	"github.com/apache/datasketches-go/common"
@@ -181,10 +182,14 @@ func (s *ItemsSketchSortedView[C]) GetPartitionBoundaries(numEquallySized int, i
 	if s.totalN == 0 {
 		return nil, errors.New("empty sketch")
 	}
-	s.cumWeights[0] = 1
-	s.cumWeights[len(s.cumWeights)-1] = int64(s.totalN)
-	s.quantiles[0] = s.minItem
-	s.quantiles[len(s.quantiles)-1] = s.maxItem
+	// Adjust a copy: this view keeps answering rank and quantile queries.
+	view := *s
+	view.quantiles = slices.Clone(s.quantiles)
+	view.cumWeights = slices.Clone(s.cumWeights)
+	view.cumWeights[0] = 1
+	view.cumWeights[len(view.cumWeights)-1] = int64(view.totalN)
+	view.quantiles[0] = view.minItem
+	view.quantiles[len(view.quantiles)-1] = view.maxItem
 
 	evSpNormRanks, err := evenlySpacedDoubles(0, 1.0, numEquallySized+1)
 	if err != nil {
@@ -193,13 +198,13 @@ func (s *ItemsSketchSortedView[C]) GetPartitionBoundaries(numEquallySized int, i
 	evSpQuantiles := make([]C, len(evSpNormRanks))
 	evSpNatRanks := make([]int64, len(evSpNormRanks))
 	for i := 0; i < len(evSpNormRanks); i++ {
-		index, err := s.getQuantileIndex(evSpNormRanks[i], inclusive)
+		index, err := view.getQuantileIndex(evSpNormRanks[i], inclusive)
 		if err != nil {
 			return nil, err
 		}
 
-		evSpQuantiles[i] = s.quantiles[index]
-		evSpNatRanks[i] = s.cumWeights[index]
+		evSpQuantiles[i] = view.quantiles[index]
+		evSpNatRanks[i] = view.cumWeights[index]
 	}
 	return newItemsSketchPartitionBoundaries[C](s.totalN, evSpQuantiles, evSpNatRanks, evSpNormRanks, s.maxItem, s.minItem, inclusive)
 }
-- 
2.43.0


From 3616b069c49ad7c03907d9e2568d7fd0db15fd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 02/33] fix: HashInt32SliceMurmur3 hashes every int and no
 longer sign-extends

---
 internal/murmur3.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/murmur3.go b/internal/murmur3.go
index 9b00be2..ce48551 100644
--- a/internal/murmur3.go
+++ b/internal/murmur3.go
@@ -71,8 +71,8 @@ func HashInt32SliceMurmur3(key []int32, offsetInts int, lengthInts int, seed uin
 
 	// Process the 128-bit blocks (the body) into the hash
 	for i := 0; i < nblocks; i++ {
-		k1 := uint64(key[offsetInts+(i<<2)])   //offsetInts + 0, 4, 8, ...
-		k2 := uint64(key[offsetInts+(i<<2)+2]) //offsetInts + 2, 6, 10, ...
+		k1 := getUint64FromInts(key, offsetInts+(i<<2), 2)   //offsetInts + 0, 4, 8, ...
+		k2 := getUint64FromInts(key, offsetInts+(i<<2)+2, 2) //offsetInts + 2, 6, 10, ...
 		hashState.blockMix128(k1, k2)
 	}
 
@@ -84,11 +84,11 @@ func HashInt32SliceMurmur3(key []int32, offsetInts int, lengthInts int, seed uin
 	k1 := uint64(0)
 	k2 := uint64(0)
 	if rem > 2 {
-		k1 = uint64(key[offsetInts+tail]) //k2 -> whole; k1 -> partial
-		k2 = uint64(key[offsetInts+tail+2])
+		k1 = getUint64FromInts(key, offsetInts+tail, 2) //k1 -> whole; k2 -> partial
+		k2 = getUint64FromInts(key, offsetInts+tail+2, rem-2)
 	} else {
 		if rem != 0 {
-			k1 = uint64(key[offsetInts+tail]) //k1 -> whole(2), partial(1) or 0; k2 == 0
+			k1 = getUint64FromInts(key, offsetInts+tail, rem) //k1 -> whole(2), partial(1) or 0; k2 == 0
 		}
 	}
 
@@ -166,6 +166,15 @@ func getUint64(bArr []byte, index int, rem int) uint64 {
 	return out
 }
 
+// getUint64FromInts packs up to two int32 values, little-endian, into a uint64.
+func getUint64FromInts(key []int32, index int, rem int) uint64 {
+	var out uint64
+	for i := rem - 1; i >= 0; i-- { //i= 1,0
+		out ^= uint64(uint32(key[index+i])) << uint(i*32) //equivalent to |=
+	}
+	return out
+}
+
 func mixK1(k1 uint64) uint64 {
 	k1 *= C1
 	k1 = (k1 << 31) | (k1 >> (64 - 31))
-- 
2.43.0


From 32a073a8a80197c9fee979daa72cae52bffee30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 03/33] fix: theta and tuple string updates hash all UTF-8
 bytes with reference MurmurHash3

---
 theta/hashtable.go | 2 +-
 tuple/hashtable.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/theta/hashtable.go b/theta/hashtable.go
index c161244..7a990c5 100644
--- a/theta/hashtable.go
+++ b/theta/hashtable.go
@@ -104,7 +104,7 @@ func (t *Hashtable) Copy() *Hashtable {
 // HashStringAndScreen computes the hash of string and checks if it passes theta threshold
 func (t *Hashtable) HashStringAndScreen(data string) (uint64, error) {
 	t.isEmpty = false
-	h1, _ := internal.HashCharSliceMurmur3([]byte(data), 0, len(data), t.seed)
+	h1, _ := internal.HashByteArrMurmur3([]byte(data), 0, len(data), t.seed)
 	hash := h1 >> 1
 	if hash >= t.theta {
 		return 0, ErrHashExceedsTheta
diff --git a/tuple/hashtable.go b/tuple/hashtable.go
index 8c139a0..b477417 100644
--- a/tuple/hashtable.go
+++ b/tuple/hashtable.go
@@ -107,7 +107,7 @@ func newHashtable[S Summary](lgCurSize, lgNomSize uint8, rf theta.ResizeFactor,
 // HashStringAndScreen computes the hash of string and checks if it passes theta threshold
 func (t *hashtable[S]) HashStringAndScreen(data string) (uint64, error) {
 	t.isEmpty = false
-	h1, _ := internal.HashCharSliceMurmur3([]byte(data), 0, len(data), t.seed)
+	h1, _ := internal.HashByteArrMurmur3([]byte(data), 0, len(data), t.seed)
 	hash := h1 >> 1
 	if hash >= t.theta {
 		return 0, ErrHashExceedsTheta
-- 
2.43.0


From bea97fce63a130c317fc947fe159f22e36b1e78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 04/33] fix: NewCountMinSketch rejects numHashes < 1 and cannot
 overflow the size limit

---
 count/count_min_sketch.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 30dd99d..cd197e9 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -47,7 +47,10 @@ func NewCountMinSketch(numHashes int8, numBuckets int32, seed int64) (*CountMinS
 		return nil, errors.New("using fewer than 3 buckets incurs relative error greater than 1.0")
 	}
 
-	if numBuckets*int32(numHashes) >= 1<<30 {
+	if numHashes < 1 {
+		return nil, errors.New("at least one hash function is required")
+	}
+	if int64(numBuckets)*int64(numHashes) >= 1<<30 {
 		return nil, errors.New("these parameters generate a sketch that exceeds 2^30 elements")
 	}
 
-- 
2.43.0


From d614921dc94473511b3a960e6c8fd5a6a1ef2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 05/33] fix: CountMinSketch.Deserialize checks the seed hash
 and the number of counters

---
 count/count_min_sketch.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index cd197e9..a9b7a80 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -335,6 +335,14 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 		return nil, err
 	}
 
+	expectedSeedHash, err := internal.ComputeSeedHash(seed)
+	if err != nil {
+		return nil, err
+	}
+	if seedHash != expectedSeedHash {
+		return nil, errors.New("incompatible seed hashes")
+	}
+
 	cms, err := NewCountMinSketch(numHashes, numBuckets, seed)
 	if err != nil {
 		return nil, err
@@ -352,15 +360,16 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 	}
 	cms.totalWeight = totalWeight
 
+	if r.Len() != 8*len(cms.sketchSlice) {
+		return nil, errors.New("unexpected number of serialized counters")
+	}
 	var w int64
-	var i int
-	for r.Len() > 0 {
+	for i := range cms.sketchSlice {
 		err = binary.Read(r, binary.LittleEndian, &w)
 		if err != nil {
 			return nil, err
 		}
 		cms.sketchSlice[i] = w
-		i++
 	}
 
 	return cms, nil
-- 
2.43.0


From 90bf2d6249e43525d1a804d566eef24f4a9527f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 06/33] fix: bloom filter hash loops terminate for 65535 hash
 functions

---
 filters/bloom_filter.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/filters/bloom_filter.go b/filters/bloom_filter.go
index 78a21cd..cfd2f0e 100644
--- a/filters/bloom_filter.go
+++ b/filters/bloom_filter.go
@@ -202,8 +202,8 @@ func (bf *bloomFilterImpl) getHashIndex(h0, h1 uint64, i uint16) uint64 {
 
 // internalUpdate updates the filter with pre-computed hash values.
 func (bf *bloomFilterImpl) internalUpdate(h0, h1 uint64) {
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := uint32(1); i <= uint32(bf.numHashes); i++ {
+		idx := bf.getHashIndex(h0, h1, uint16(i))
 		if !getBit(bf.bitArray, idx) {
 			setBit(bf.bitArray, idx)
 			bf.numBitsSet++
@@ -217,8 +217,8 @@ func (bf *bloomFilterImpl) internalQuery(h0, h1 uint64) bool {
 	if bf.IsEmpty() {
 		return false
 	}
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := uint32(1); i <= uint32(bf.numHashes); i++ {
+		idx := bf.getHashIndex(h0, h1, uint16(i))
 		if !getBit(bf.bitArray, idx) {
 			return false
 		}
@@ -231,8 +231,8 @@ func (bf *bloomFilterImpl) internalQuery(h0, h1 uint64) bool {
 func (bf *bloomFilterImpl) internalQueryAndUpdate(h0, h1 uint64) bool {
 	valueExists := true
 	newBitsSet := uint64(0)
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := uint32(1); i <= uint32(bf.numHashes); i++ {
+		idx := bf.getHashIndex(h0, h1, uint16(i))
 		wasSet := getAndSetBit(bf.bitArray, idx)
 		valueExists = valueExists && wasSet
 		if !wasSet {
-- 
2.43.0


From 0ee7707c6eff8a910f93173bf8156c3bc7839fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 07/33] fix: NewBloomFilterFromSlice rejects empty bit arrays
 and checks the size before allocating

---
 filters/bloom_filter_builder.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/filters/bloom_filter_builder.go b/filters/bloom_filter_builder.go
index 9eb0374..080705b 100644
--- a/filters/bloom_filter_builder.go
+++ b/filters/bloom_filter_builder.go
@@ -219,6 +219,13 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 	}
 
 	// Calculate capacity
+	if bitArrayLength == 0 {
+		return nil, fmt.Errorf("bit array length must be positive")
+	}
+	if !isEmpty && uint64(len(bytes)) != preambleBytes+uint64(bitArrayLength)*8 {
+		return nil, fmt.Errorf("non-empty filter size mismatch: got %d bytes, expected %d", len(bytes), preambleBytes+uint64(bitArrayLength)*8)
+	}
+
 	capacityBits := uint64(bitArrayLength) * 64
 
 	// Create filter structure
@@ -240,11 +247,6 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 	}
 
 	// Handle non-empty filter
-	expectedSize := preambleBytes + int(bitArrayLength)*8
-	if len(bytes) != expectedSize {
-		return nil, fmt.Errorf("non-empty filter size mismatch: got %d bytes, expected %d", len(bytes), expectedSize)
-	}
-
 	// Extract num bits set
 	numBitsSet := extractNumBitsSet(bytes)
 	if numBitsSet == dirtyBitsValue {
-- 
2.43.0


From 2979a64d7911c703d11327744b6a73f0d10eca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 08/33] fix: let a reservoir without an allocated array grow

UpdateFromRaw can leave the union with a sketch whose data slice has
capacity 0; growing it computed a size of 0 << rf and failed the update.
---
 sampling/reservoir_items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index e9b3711..71c411e 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -131,7 +131,7 @@ func (s *ReservoirItemsSketch[T]) Update(item T) error {
 }
 
 func (s *ReservoirItemsSketch[T]) growReservoir() {
-	adjustedSize := adjustedSamplingAllocationSize(s.k, cap(s.data)<<int(s.rf))
+	adjustedSize := adjustedSamplingAllocationSize(s.k, max(cap(s.data), 1)<<int(s.rf))
 	s.data = slices.Grow(s.data, adjustedSize)
 }
 
-- 
2.43.0


From ebd1f35041280f853f57f94a6f5682849b0b1936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 09/33] fix: reject a non-empty reservoir image shorter than
 its preamble

The item count was read past the end of the slice.
---
 sampling/reservoir_items_sketch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index 71c411e..fe2c276 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -437,6 +437,9 @@ func NewReservoirItemsSketchFromSlice[T any](data []byte, serde common.ItemSketc
 	isEmpty := (flags & flagEmpty) != 0
 	n := 0
 	if !isEmpty {
+		if len(data) < internal.FamilyEnum.ReservoirItems.MaxPreLongs*8 {
+			return nil, errors.New("data too short for non-empty sketch")
+		}
 		n = int(binary.LittleEndian.Uint64(data[8:]))
 	}
 
-- 
2.43.0


From a4916f510262dc198113ed2506804eee864bd8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 10/33] fix: let a reservoir union without a sketch be reset

Reset dereferenced the gadget, which is nil until the first update.
---
 sampling/reservoir_items_union.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index eb85ade..401efe6 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -265,7 +265,9 @@ func (u *ReservoirItemsUnion[T]) MaxK() int {
 
 // Reset clears the union.
 func (u *ReservoirItemsUnion[T]) Reset() {
-	u.gadget.Reset()
+	if u.gadget != nil {
+		u.gadget.Reset()
+	}
 }
 
 // String returns a human-readable summary of the union.
-- 
2.43.0


From 6084cb799cd8ec806738eae902245f46696e9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 11/33] fix: reject truncated images of numbers instead of
 panicking

---
 common/item_sketch_double.go | 6 +++++-
 common/item_sketch_float.go  | 6 +++++-
 common/item_sketch_long.go   | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/common/item_sketch_double.go b/common/item_sketch_double.go
index 8462fb6..44b74f5 100644
--- a/common/item_sketch_double.go
+++ b/common/item_sketch_double.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 
 	"github.com/twmb/murmur3"
@@ -71,9 +72,12 @@ func (f ItemSketchDoubleSerDe) SerializeManyToSlice(item []float64) []byte {
 }
 
 func (f ItemSketchDoubleSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes int, numItems int) ([]float64, error) {
-	if numItems == 0 {
+	if numItems <= 0 {
 		return []float64{}, nil
 	}
+	if !checkBounds(offsetBytes, 0, len(mem)) || numItems > (len(mem)-offsetBytes)/8 {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]float64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, math.Float64frombits(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_float.go b/common/item_sketch_float.go
index eae77a9..5299a8d 100644
--- a/common/item_sketch_float.go
+++ b/common/item_sketch_float.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 )
 
@@ -63,9 +64,12 @@ func (s ItemSketchFloatSerDe) SerializeManyToSlice(items []float32) []byte {
 }
 
 func (s ItemSketchFloatSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes int, numItems int) ([]float32, error) {
-	if numItems == 0 {
+	if numItems <= 0 {
 		return []float32{}, nil
 	}
+	if !checkBounds(offsetBytes, 0, len(mem)) || numItems > (len(mem)-offsetBytes)/4 {
+		return nil, errors.New("offset out of bounds")
+	}
 
 	array := make([]float32, 0, numItems)
 	for i := 0; i < numItems; i++ {
diff --git a/common/item_sketch_long.go b/common/item_sketch_long.go
index c4c5d11..69b7665 100644
--- a/common/item_sketch_long.go
+++ b/common/item_sketch_long.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 
 	"github.com/twmb/murmur3"
 )
@@ -70,9 +71,12 @@ func (f ItemSketchLongSerDe) SerializeManyToSlice(item []int64) []byte {
 }
 
 func (f ItemSketchLongSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes int, numItems int) ([]int64, error) {
-	if numItems == 0 {
+	if numItems <= 0 {
 		return []int64{}, nil
 	}
+	if !checkBounds(offsetBytes, 0, len(mem)) || numItems > (len(mem)-offsetBytes)/8 {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]int64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, int64(binary.LittleEndian.Uint64(mem[offsetBytes:])))
-- 
2.43.0


From a4ec9d3797f6c4f25b7b90f44927fec7d7053eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 12/33] fix: check the sizes in an image of strings before
 allocating

---
 common/item_sketch_string.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/item_sketch_string.go b/common/item_sketch_string.go
index 19a5539..70d1e48 100644
--- a/common/item_sketch_string.go
+++ b/common/item_sketch_string.go
@@ -117,6 +117,9 @@ func (f ItemSketchStringSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes
 	if numItems <= 0 {
 		return []string{}, nil
 	}
+	if !checkBounds(offsetBytes, 0, len(mem)) || numItems > (len(mem)-offsetBytes)/4 {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]string, numItems)
 	offset := offsetBytes
 	intSize := 4
@@ -127,10 +130,10 @@ func (f ItemSketchStringSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes
 		}
 		strLength := int(binary.LittleEndian.Uint32(mem[offset:]))
 		offset += intSize
-		utf8Bytes := make([]byte, strLength)
 		if !checkBounds(offset, strLength, memCap) {
 			return nil, errors.New("offset out of bounds")
 		}
+		utf8Bytes := make([]byte, strLength)
 		copy(utf8Bytes, mem[offset:offset+strLength])
 		offset += strLength
 		array[i] = string(utf8Bytes)
-- 
2.43.0


From 5956b1355158f5e6eac9f9ba50c19b9025c37e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 13/33] fix: reject a compressed theta image with an invalid
 entry width or count size

---
 theta/decoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/theta/decoder.go b/theta/decoder.go
index b24deca..5d747a0 100644
--- a/theta/decoder.go
+++ b/theta/decoder.go
@@ -168,6 +168,9 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 	}
 
 	numEntriesBytes := bytes[compactSketchV4NumEntriesBytesByte]
+	if numEntriesBytes > 4 {
+		return compactSketchData{}, fmt.Errorf("invalid number of bytes for the number of entries: %d", numEntriesBytes)
+	}
 	dataOffsetBytes := compactSketchV4PackedDataExactByte
 	if hasTheta {
 		dataOffsetBytes = compactSketchV4PackedDataEstByte
@@ -185,6 +188,9 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 	dataOffsetBytes += int(numEntriesBytes)
 
 	entryBits := bytes[compactSketchV4EntryBitsByte]
+	if entryBits < 1 || entryBits > 63 {
+		return compactSketchData{}, fmt.Errorf("invalid number of bits per entry: %d", entryBits)
+	}
 	expectedBits := uint64(entryBits) * uint64(numEntries)
 	expectedSize := dataOffsetBytes + int(wholeBytesToHoldBits(expectedBits))
 
-- 
2.43.0


From 9fcd3ae8bbac8d35aa6e754b15daa875e7f6b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 14/33] fix: reject theta images of versions 1 to 3 shorter
 than their preamble

---
 theta/decoder.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/theta/decoder.go b/theta/decoder.go
index 5d747a0..2b3ab74 100644
--- a/theta/decoder.go
+++ b/theta/decoder.go
@@ -260,6 +260,9 @@ func decodeVersion3(bytes []byte, seed uint64) (compactSketchData, error) {
 		}, nil
 	}
 
+	if err := validateMemorySize(bytes, 16); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	entriesStartU64 := compactSketchEntriesExactU64
 	if hasTheta {
@@ -309,6 +312,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:      bytes,
 		}, nil
 	case 2:
+		if err := validateMemorySize(bytes, 16); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		if numEntries == 0 {
 			return compactSketchData{
@@ -338,6 +344,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:           bytes,
 		}, nil
 	case 3:
+		if err := validateMemorySize(bytes, 24); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
@@ -380,6 +389,9 @@ func decodeVersion1(bytes []byte, seed uint64) (compactSketchData, error) {
 		return compactSketchData{}, err
 	}
 
+	if err := validateMemorySize(bytes, 24); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
-- 
2.43.0


From 44736d7d188be0fe60e80634b44359635ad734ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:47 +0000
Subject: [PATCH 15/33] fix: keep negative items in the text image of a longs
 frequency sketch

---
 frequencies/reverse_purge_long_hash_map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frequencies/reverse_purge_long_hash_map.go b/frequencies/reverse_purge_long_hash_map.go
index dbf18f8..7a357f7 100644
--- a/frequencies/reverse_purge_long_hash_map.go
+++ b/frequencies/reverse_purge_long_hash_map.go
@@ -288,15 +288,15 @@ func deserializeFromStringArray(tokens []string) (*reversePurgeLongHashMap, erro
 	}
 	j := 2 + ignore
 	for i := 0; i < int(numActive); i++ {
-		key, err := strconv.ParseUint(tokens[j], 10, 64)
+		key, err := strconv.ParseInt(tokens[j], 10, 64)
 		if err != nil {
 			return nil, err
 		}
-		value, err := strconv.ParseUint(tokens[j+1], 10, 64)
+		value, err := strconv.ParseInt(tokens[j+1], 10, 64)
 		if err != nil {
 			return nil, err
 		}
-		err = hashMap.adjustOrPutValue(int64(key), int64(value))
+		err = hashMap.adjustOrPutValue(key, value)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 4e239f3078f0e0523c10fadfd1c6ce477dbd920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:56 +0000
Subject: [PATCH 16/33] fix: a frequency sketch whose items were all purged is
 not empty

---
 frequencies/items_sketch.go | 5 +++--
 frequencies/longs_sketch.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index ee2c9c0..1911dc7 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -323,9 +323,10 @@ func (i *ItemsSketch[C]) GetStreamLength() int64 {
 	return i.streamWeight
 }
 
-// IsEmpty returns true if this sketch is empty.
+// IsEmpty returns true if this sketch is empty. A sketch whose items have all been purged is not
+// empty: it still carries the stream weight and the maximum error.
 func (i *ItemsSketch[C]) IsEmpty() bool {
-	return i.GetNumActiveItems() == 0
+	return i.GetNumActiveItems() == 0 && i.streamWeight == 0
 }
 
 // Update this sketch with an item and a frequency count of one.
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 7c0c924..9f743ad 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -391,9 +391,10 @@ func (s *LongsSketch) GetStreamLength() int64 {
 	return s.streamWeight
 }
 
-// IsEmpty returns true if this sketch is empty
+// IsEmpty returns true if this sketch is empty. A sketch whose items have all been purged is not
+// empty: it still carries the stream weight and the maximum error.
 func (s *LongsSketch) IsEmpty() bool {
-	return s.GetNumActiveItems() == 0
+	return s.GetNumActiveItems() == 0 && s.streamWeight == 0
 }
 
 // Update this sketch with an item and a frequency count of one.
-- 
2.43.0


From cb0b9a44cf77a72b308dd7051f92e0a97b79653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:56 +0000
Subject: [PATCH 17/33] fix: reject a one-long frequency image that is not
 flagged empty

---
 frequencies/items_sketch.go | 2 +-
 frequencies/longs_sketch.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 1911dc7..6007874 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -137,7 +137,7 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 	if familyID != actFamID {
 		return nil, fmt.Errorf("possible corruption: familyID must be %d: %d", actFamID, familyID)
 	}
-	if empty && !preLongsEq1 { //Byte 5 and Byte 0
+	if empty != preLongsEq1 { //Byte 5 and Byte 0
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
 	if empty {
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 9f743ad..6ae5f23 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -124,7 +124,7 @@ func NewLongsSketchFromSlice(slc []byte) (*LongsSketch, error) {
 	if familyID != actFamID {
 		return nil, fmt.Errorf("possible Corruption: FamilyID must be %d: %d", actFamID, familyID)
 	}
-	if empty && !preLongsEq1 {
+	if empty != preLongsEq1 {
 		return nil, fmt.Errorf("possible Corruption: Empty Flag set incorrectly: %t", preLongsEq1)
 	}
 	if empty {
-- 
2.43.0


From 0c1f5b64d7785b10063fefc67a5bc14ce654dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:56 +0000
Subject: [PATCH 18/33] fix: size the purge sample of an items frequency sketch
 by its real map size

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 6007874..e6936d4 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -70,7 +70,7 @@ func NewFrequencyItemsSketch[C comparable](lgMaxMapSize int, lgCurMapSize int, h
 		return nil, err
 	}
 	curMapCap := hashMap.getCapacity()
-	maxMapCap := int(float64(uint64(1)<<lgMaxMapSize) * reversePurgeItemHashMapLoadFactor)
+	maxMapCap := int(float64(uint64(1)<<lgMaxMapSz) * reversePurgeItemHashMapLoadFactor)
 	offset := int64(0)
 	sampleSize := min(_SAMPLE_SIZE, maxMapCap)
 
-- 
2.43.0


From 3af2e9747752de3731fcfba9acb3c05a0a0fcb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:56 +0000
Subject: [PATCH 19/33] fix: keep the maximum map size of an empty items
 frequency image

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index e6936d4..73eec14 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -141,7 +141,7 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
 	if empty {
-		return NewFrequencyItemsSketchWithMaxMapSize[C](1<<_LG_MIN_MAP_SIZE, hasher, serde)
+		return NewFrequencyItemsSketch[C](lgMaxMapSize, _LG_MIN_MAP_SIZE, hasher, serde)
 	}
 	// Get full preamble
 	preArr := make([]int64, preLongs)
-- 
2.43.0


From 1aaeede7f514f6ce527ed18b2c52f8e42eea160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 20/33] fix: compute KLL level capacities without overflow for
 k of 32768 and more

---
 kll/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index af96371..c3dede4 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -1021,7 +1021,7 @@ func intCapAux(k uint16, depth uint8) uint32 {
 }
 
 func intCapAuxAux(k uint16, depth uint8) uint32 {
-	twok := uint64(k << 1)                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
+	twok := uint64(k) << 1                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
 	tmp := (twok << depth) / powersOfThree[depth] //2k* (2/3)^depth. 2k also keeps the fraction larger.
 	result := (tmp + 1) >> 1                      // (tmp + 1)/2. If odd, round up. This guarantees an integer.
 	if result <= uint64(k) {
-- 
2.43.0


From 09ea14d8a4a575d2ed7c0fef32a27b64e66cfcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 21/33] fix: reset the minimum k of a KLL sketch

---
 kll/items_sketch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index c3dede4..5bf3aaf 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -476,6 +476,7 @@ func (s *ItemsSketch[C]) Merge(other *ItemsSketch[C]) {
 // Reset this sketch to the empty state.
 func (s *ItemsSketch[C]) Reset() {
 	s.n = 0
+	s.minK = s.k
 	s.isLevelZeroSorted = false
 	s.numLevels = 1
 	s.levels = []uint32{uint32(s.k), uint32(s.k)}
-- 
2.43.0


From e27b78862aeeffd463aed8f83aa496558f59e629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 22/33] fix: write an empty string extreme or single item of a
 KLL sketch in full

---
 kll/items_sketch.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 5bf3aaf..dbb68ae 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -642,8 +642,8 @@ func (s *ItemsSketch[C]) getMinMaxSizeBytes() int {
 }
 
 func (s *ItemsSketch[C]) getMinMaxByteArr() []byte {
-	minBytes := s.serde.SerializeOneToSlice(s.minItem)
-	maxBytes := s.serde.SerializeOneToSlice(s.maxItem)
+	minBytes := s.serde.SerializeManyToSlice([]C{s.minItem})
+	maxBytes := s.serde.SerializeManyToSlice([]C{s.maxItem})
 	minMaxBytes := make([]byte, len(minBytes)+len(maxBytes))
 	copy(minMaxBytes, minBytes)
 	copy(minMaxBytes[len(minBytes):], maxBytes)
@@ -663,7 +663,7 @@ func (s *ItemsSketch[C]) getSingleItemByteArr() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return s.serde.SerializeOneToSlice(v), nil
+	return s.serde.SerializeManyToSlice([]C{v}), nil
 }
 
 func (s *ItemsSketch[C]) getSingleItem() (C, error) {
-- 
2.43.0


From 97bc6d2decda77f38dbcafedb40848c26b6b5c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:24 +0000
Subject: [PATCH 23/33] fix: reject an m that a KLL sketch cannot use or read
 back

---
 kll/items_sketch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index dbb68ae..e9e7e50 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -86,6 +86,9 @@ func NewKllItemsSketch[C comparable](k uint16, m uint8, compareFn common.Compare
 	if k < _MIN_K || k > _MAX_K {
 		return nil, fmt.Errorf("k must be >= %d and <= %d: %d", _MIN_K, _MAX_K, k)
 	}
+	if err := checkM(m); err != nil {
+		return nil, err
+	}
 	if compareFn == nil {
 		return nil, fmt.Errorf("no compare function provided")
 	}
-- 
2.43.0


From 2780918626d693ae01a7d68ded0f47f94e5b9cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:03 +0000
Subject: [PATCH 24/33] fix: copy summaries that a tuple union or intersection
 keeps or returns

A union or intersection stored the summary of its first operand itself, so
combining it with the next operand changed the first operand, and a union
handed out its own summaries, so a result changed with later updates.
---
 tuple/arrayofnumbers_intersection.go |  2 +-
 tuple/arrayofnumbers_union.go        | 12 +++++++++---
 tuple/intersection.go                |  2 +-
 tuple/union.go                       | 12 +++++++++---
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/tuple/arrayofnumbers_intersection.go b/tuple/arrayofnumbers_intersection.go
index 45f1668..f84df63 100644
--- a/tuple/arrayofnumbers_intersection.go
+++ b/tuple/arrayofnumbers_intersection.go
@@ -120,7 +120,7 @@ func (i *ArrayOfNumbersSketchIntersection[V]) Update(sketch ArrayOfNumbersSketch
 
 			i.hashtable.Insert(idx, entry[*ArrayOfNumbersSummary[V]]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: summary.Clone().(*ArrayOfNumbersSummary[V]),
 			})
 		}
 
diff --git a/tuple/arrayofnumbers_union.go b/tuple/arrayofnumbers_union.go
index 8d5cc36..dd0e5db 100644
--- a/tuple/arrayofnumbers_union.go
+++ b/tuple/arrayofnumbers_union.go
@@ -115,7 +115,7 @@ func (u *ArrayOfNumbersSketchUnion[V]) Update(sketch ArrayOfNumbersSketch[V]) er
 				if err == ErrKeyNotFound {
 					u.hashtable.Insert(index, entry[*ArrayOfNumbersSummary[V]]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: summary.Clone().(*ArrayOfNumbersSummary[V]),
 					})
 					continue
 				}
@@ -153,13 +153,19 @@ func (u *ArrayOfNumbersSketchUnion[V]) Result(ordered bool) (*ArrayOfNumbersComp
 	if u.theta >= u.hashtable.theta {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 {
-				entries = append(entries, e)
+				entries = append(entries, entry[*ArrayOfNumbersSummary[V]]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(*ArrayOfNumbersSummary[V]),
+				})
 			}
 		}
 	} else {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 && e.Hash < thetaVal {
-				entries = append(entries, e)
+				entries = append(entries, entry[*ArrayOfNumbersSummary[V]]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(*ArrayOfNumbersSummary[V]),
+				})
 			}
 		}
 	}
diff --git a/tuple/intersection.go b/tuple/intersection.go
index d11360b..41d567d 100644
--- a/tuple/intersection.go
+++ b/tuple/intersection.go
@@ -157,7 +157,7 @@ func (i *Intersection[S]) Update(sketch Sketch[S]) error {
 
 			i.hashtable.Insert(idx, entry[S]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: summary.Clone().(S),
 			})
 		}
 
diff --git a/tuple/union.go b/tuple/union.go
index b2468d4..778a4d3 100644
--- a/tuple/union.go
+++ b/tuple/union.go
@@ -203,7 +203,7 @@ func (u *Union[S]) Update(sketch Sketch[S]) error {
 				if err == ErrKeyNotFound {
 					u.hashtable.Insert(index, entry[S]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: summary.Clone().(S),
 					})
 					continue
 				}
@@ -245,13 +245,19 @@ func (u *Union[S]) Result(ordered bool) (*CompactSketch[S], error) {
 	if u.theta >= u.hashtable.theta {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 {
-				entries = append(entries, e)
+				entries = append(entries, entry[S]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(S),
+				})
 			}
 		}
 	} else {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 && e.Hash < thetaVal {
-				entries = append(entries, e)
+				entries = append(entries, entry[S]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(S),
+				})
 			}
 		}
 	}
-- 
2.43.0


From 5f1722b84f9f838edc9ddf8157439b8b4a395351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:22 +0000
Subject: [PATCH 25/33] fix: req: start a new sketch without a minimum and
 maximum, so a merge into it takes the source's

---
 req/sketch.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/req/sketch.go b/req/sketch.go
index 8d5c866..b53a983 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -74,6 +74,8 @@ func NewSketch(options ...SketchOptionFunc) (*Sketch, error) {
 	sk := &Sketch{
 		k:                      defaultK,
 		isHighRankAccuracyMode: true,
+		minItem:                float32(math.NaN()),
+		maxItem:                float32(math.NaN()),
 	}
 	for _, option := range options {
 		option(sk)
-- 
2.43.0


From 7dc74d0905bd021b7452d70493a61303cf8bac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:41 +0000
Subject: [PATCH 26/33] fix: tdigest: keep quantiles within the extremes and
 non-decreasing in rank, and reject a NaN rank

---
 tdigest/double.go | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 30eaf7a..0e9cc34 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -350,17 +350,12 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 	if d.IsEmpty() {
 		return 0, ErrEmpty
 	}
-	if rank < 0.0 || rank > 1.0 {
+	if !(rank >= 0.0 && rank <= 1.0) { // also NaN
 		return 0, ErrInvalidRank
 	}
 
 	d.compress() // side effect
 
-	if len(d.centroids) == 1 {
-		return d.centroids[0].mean, nil
-	}
-
-	// at least 2 centroids
 	weight := rank * float64(d.centroidsWeight)
 	if weight < 1 {
 		return d.min, nil
@@ -371,12 +366,13 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 
 	firstWeight := float64(d.centroids[0].weight)
 	if firstWeight > 1 && weight < firstWeight/2.0 {
-		return d.min + (weight-1.0)/(firstWeight/2.0-1.0)*(d.centroids[0].mean-d.min), nil
+		return interpolate(d.min, d.centroids[0].mean, (weight-1.0)/(firstWeight/2.0-1.0)), nil
 	}
 
 	lastWeight := float64(d.centroids[len(d.centroids)-1].weight)
-	if lastWeight > 1 && float64(d.centroidsWeight)-weight <= lastWeight/2.0 {
-		return d.max + (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
+	if lastWeight > 1 && float64(d.centroidsWeight)-weight < lastWeight/2.0 {
+		w := weight - (float64(d.centroidsWeight) - lastWeight/2.0)
+		return interpolate(d.centroids[len(d.centroids)-1].mean, d.max, w/(lastWeight/2.0-1.0)), nil
 	}
 
 	// interpolate between extremes
@@ -399,16 +395,14 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 				}
 				rightWeight = 0.5
 			}
-			w1 := weight - weightSoFar - leftWeight
-			w2 := weightSoFar + dw - weight - rightWeight
-			return weightedAverage(d.centroids[i].mean, w1, d.centroids[i+1].mean, w2), nil
+			w := weight - weightSoFar - leftWeight
+			return interpolate(d.centroids[i].mean, d.centroids[i+1].mean, w/(dw-leftWeight-rightWeight)), nil
 		}
 		weightSoFar += dw
 	}
 
-	w1 := weight - float64(d.centroidsWeight) - float64(d.centroids[len(d.centroids)-1].weight)/2.0
-	w2 := float64(d.centroids[len(d.centroids)-1].weight)/2.0 - w1
-	return weightedAverage(d.centroids[len(d.centroids)-1].mean, w1, d.max, w2), nil
+	// the middle of the last centroid
+	return d.centroids[len(d.centroids)-1].mean, nil
 }
 
 // PMF returns an approximation to the Probability Mass Function (PMF)
@@ -560,6 +554,12 @@ func (d *Double) isSingleValue() bool {
 	return d.TotalWeight() == 1
 }
 
-func weightedAverage(x1, w1, x2, w2 float64) float64 {
-	return (x1*w1 + x2*w2) / (w1 + w2)
+// interpolate returns the value at the given fraction of the way from x1 to x2 (x1 <= x2).
+// It never leaves [x1, x2] and never decreases as the fraction grows.
+func interpolate(x1, x2, fraction float64) float64 {
+	x := x1 + (x2-x1)*fraction
+	if math.IsInf(x2-x1, 0) {
+		x = x1*(1-fraction) + x2*fraction
+	}
+	return min(max(x, x1), x2)
 }
-- 
2.43.0


From 11f85536b1f906c9acefb13b72d750f9ef88f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:41 +0000
Subject: [PATCH 27/33] fix: tdigest: keep ranks non-decreasing in value and
 free of overflow

---
 tdigest/double.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 0e9cc34..41e003a 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -288,7 +288,9 @@ func (d *Double) Rank(value float64) (float64, error) {
 			if value == d.min {
 				return 0.5 / float64(d.centroidsWeight), nil
 			}
-			return (1.0 + (value-d.min)/(firstMean-d.min)*(float64(d.centroids[0].weight)/2.0-1.0)) / float64(d.centroidsWeight), nil
+			half := float64(d.centroids[0].weight) / 2.0
+			below := min(1.0, half)
+			return (below + fraction(value, d.min, firstMean)*(half-below)) / float64(d.centroidsWeight), nil
 		}
 		return 0, nil // should never happen
 	}
@@ -300,7 +302,9 @@ func (d *Double) Rank(value float64) (float64, error) {
 			if value == d.max {
 				return 1.0 - 0.5/float64(d.centroidsWeight), nil
 			}
-			return 1.0 - ((1.0 + (d.max-value)/(d.max-lastMean)*(float64(d.centroids[len(d.centroids)-1].weight)/2.0-1.0)) / float64(d.centroidsWeight)), nil
+			half := float64(d.centroids[len(d.centroids)-1].weight) / 2.0
+			above := min(1.0, half)
+			return (float64(d.centroidsWeight) - (above + fraction(-value, -d.max, -lastMean)*(half-above))) / float64(d.centroidsWeight), nil
 		}
 		return 1, nil // should never happen
 	}
@@ -340,7 +344,7 @@ func (d *Double) Rank(value float64) (float64, error) {
 	weightDelta += float64(d.centroids[upperIdx].weight) / 2.0
 
 	if d.centroids[upperIdx].mean-d.centroids[lowerIdx].mean > 0 {
-		return (weightBelow + weightDelta*(value-d.centroids[lowerIdx].mean)/(d.centroids[upperIdx].mean-d.centroids[lowerIdx].mean)) / float64(d.centroidsWeight), nil
+		return (weightBelow + weightDelta*fraction(value, d.centroids[lowerIdx].mean, d.centroids[upperIdx].mean)) / float64(d.centroidsWeight), nil
 	}
 	return (weightBelow + weightDelta/2.0) / float64(d.centroidsWeight), nil
 }
@@ -554,6 +558,14 @@ func (d *Double) isSingleValue() bool {
 	return d.TotalWeight() == 1
 }
 
+// fraction returns how far v (lo <= v <= hi, lo < hi) is on the way from lo to hi.
+func fraction(v, lo, hi float64) float64 {
+	if math.IsInf(hi-lo, 0) {
+		return (v/2 - lo/2) / (hi/2 - lo/2)
+	}
+	return (v - lo) / (hi - lo)
+}
+
 // interpolate returns the value at the given fraction of the way from x1 to x2 (x1 <= x2).
 // It never leaves [x1, x2] and never decreases as the fraction grows.
 func interpolate(x1, x2, fraction float64) float64 {
-- 
2.43.0


From 2f34f4687b7824a09a4c4c6b98f4896a2e606d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:50 +0000
Subject: [PATCH 28/33] fix: tdigest: merge the minimum and maximum of the
 source

---
 tdigest/double.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tdigest/double.go b/tdigest/double.go
index 41e003a..9ccc405 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -213,6 +213,8 @@ func (d *Double) Merge(other *Double) error {
 	}
 	tmp = append(tmp, other.centroids...)
 
+	d.min = min(d.min, other.min)
+	d.max = max(d.max, other.max)
 	d.merge(tmp, uint64(len(d.buffer))+other.TotalWeight())
 
 	return nil
-- 
2.43.0


From 929db3c73789a29ae8d454609b470afb27329294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:51 +0000
Subject: [PATCH 29/33] fix: tdigest: keep the mean of a combined centroid
 finite and between the two means

---
 tdigest/double.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 9ccc405..7a475bb 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -74,7 +74,15 @@ type doublePrecisionCentroid struct {
 
 func (c *doublePrecisionCentroid) add(other doublePrecisionCentroid) {
 	c.weight += other.weight
-	c.mean += (other.mean - c.mean) * float64(other.weight) / float64(c.weight)
+	x1, x2, f := c.mean, other.mean, float64(other.weight)/float64(c.weight)
+	delta := (x2 - x1) * float64(other.weight) / float64(c.weight)
+	if math.IsInf(delta, 0) {
+		c.mean = x1*(1-f) + x2*f
+	} else {
+		c.mean += delta
+	}
+	// rounding must not move the mean out of order
+	c.mean = max(min(x1, x2), min(max(x1, x2), c.mean))
 }
 
 // scaleFunction is equivalent of K_2 (default) in the Java implementation mentioned below
-- 
2.43.0


From fb3cf7ab2d9ad72a36caf25aba29f613d1fdddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:52 +0000
Subject: [PATCH 30/33] fix: tdigest: reject a NaN maximum or mean when
 decoding from a reader

---
 tdigest/double_decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 4ab952a..1cd28b4 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -140,7 +140,7 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 	maxVal := math.Float64frombits(maxValBytes)
-	if err := validateNaN(minVal, "max"); err != nil {
+	if err := validateNaN(maxVal, "max"); err != nil {
 		return nil, err
 	}
 
@@ -315,7 +315,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		if err := validateInf(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
-		if err := validateNaN(float64(weight), "centroid mean"); err != nil {
+		if err := validateNaN(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From 78b5614ed3066b8876df1214b0db23761ff94531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:33 +0000
Subject: [PATCH 31/33] fix: HLL sketches must not share the registers of the
 image they were read from

---
 hll/hll_array.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hll/hll_array.go b/hll/hll_array.go
index 521eb16..c0c09e7 100644
--- a/hll/hll_array.go
+++ b/hll/hll_array.go
@@ -317,5 +317,6 @@ func (a *hllArrayImpl) extractCommonHll(byteArr []byte) {
 	a.putNumAtCurMin(extractNumAtCurMin(byteArr))
 	a.putRebuildCurMinNumKxQFlag(extractRebuildCurMinNumKxQFlag(byteArr))
 
-	a.hllByteArr = byteArr[hllByteArrStart : hllByteArrStart+len(a.hllByteArr)]
+	// the caller keeps byteArr, so the registers are copied out of it
+	copy(a.hllByteArr, byteArr[hllByteArrStart:hllByteArrStart+len(a.hllByteArr)])
 }
-- 
2.43.0


From 9ae7885849d6f616093c0ca7ba04d9f18b49d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:33 +0000
Subject: [PATCH 32/33] fix: HLL_4 must accept any number of exceptions

---
 hll/aux_hash_map.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hll/aux_hash_map.go b/hll/aux_hash_map.go
index 75e0480..aacbe1b 100644
--- a/hll/aux_hash_map.go
+++ b/hll/aux_hash_map.go
@@ -195,9 +195,6 @@ func (a *auxHashMap) growAuxSpace() error {
 // Continues searching.
 // If the probe comes back to original index, return an error.
 func findAuxHashMap(auxArr []int, lgAuxArrInts int, lgConfigK int, slotNo int) (int, error) {
-	if lgAuxArrInts >= lgConfigK {
-		return 0, fmt.Errorf("lgAuxArrInts >= lgConfigK")
-	}
 	auxArrMask := (1 << lgAuxArrInts) - 1
 	configKMask := (1 << lgConfigK) - 1
 	probe := slotNo & auxArrMask
-- 
2.43.0


From 69f60b99b797bbf64e4993497552f7fff897e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:33 +0000
Subject: [PATCH 33/33] fix: the HLL union must fold its registers before
 merging a sketch of smaller K

---
 hll/union.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/hll/union.go b/hll/union.go
index 24491c2..cbf6209 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -242,7 +242,7 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 	}
 
 	if srcLgK < gdgtLgK {
-		bit3 = 0
+		bit3 = 8
 	}
 
 	if srcLgK > u.lgMaxK {
@@ -286,7 +286,14 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		}
 	case 12: //src <= max, src <  gdt, gdtHLL, gdtHeap
 		{ //Action: downsample gdt to srcLgK, forward HLL merge w/autofold, ooof=True
-			return nil, fmt.Errorf("not implemented case 12")
+			tgt := newHllSketchState(downsampleHll8(gadgetC.sketch.(*hll8ArrayImpl), srcLgK))
+			err := mergeHlltoHLLmode(source, tgt, srcLgK, srcLgK)
+			if err != nil {
+				return nil, err
+			}
+			tgtC := tgt.(*hllSketchState)
+			tgtC.sketch.putOutOfOrder(true)
+			return tgtC.sketch, nil
 		}
 	case 6, 14:
 		// case 6: src <= max, src >= gdt, gdtEmpty, gdtHeap
@@ -307,6 +314,16 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 	}
 }
 
+// downsampleHll8 returns src folded to the smaller lgConfigK. Its curMin, numAtCurMin and KxQ
+// are left to be rebuilt.
+func downsampleHll8(src *hll8ArrayImpl, lgConfigK int) hllArray {
+	tgt := newHll8Array(lgConfigK).(*hll8ArrayImpl)
+	for slotNo := range src.hllByteArr {
+		tgt.updateSlotNoKxQ(slotNo&tgt.slotNoMask, src.getSlotValue(slotNo))
+	}
+	return tgt
+}
+
 func checkRebuildCurMinNumKxQ(sketch HllSketch) error {
 	sketchImpl := sketch.(*hllSketchState).sketch
 	curMode := sketch.GetCurMode()
-- 
2.43.0

