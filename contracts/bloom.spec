package filters
defaultprops P06

// bit i of the array a (from offset o)
function hasbit(a arr<uint64>, o int, i uint64) bool
axiom hasbitDef(a arr<uint64>, o int, i uint64)
  trigger hasbit(a, o, i)
  ensures hasbit(a, o, i) == ((a[o + (i >> 6)] >> (i & 63)) & 1 == 1)
  why definition
// number of bits set in the first n words
function pcs(a arr<uint64>, o int, n int) math
axiom pcs0(a arr<uint64>, o int)
  trigger pcs(a, o, 0)
  ensures pcs(a, o, 0) == 0
  why definition
axiom pcsS(a arr<uint64>, o int, n int)
  trigger pcs(a, o, n+1)
  ensures n >= 0 ==> pcs(a, o, n+1) == pcs(a, o, n) + popcount(a[o+n])
  why definition
lemma popZero(x uint64)
  mode bv
  ensures (popcount(x) == 0) == (x == 0)
lemma wordZero(a arr<uint64>, o int, i uint64)
  mode bv
  requires a[o + (i >> 6)] == 0
  use hasbitDef
  ensures !hasbit(a, o, i)
lemma pcsNonneg(a arr<uint64>, o int, n int)
  induction n
  trigger pcs(a, o, n)
  use pcs0
  apply n > 0 ==> pcsS(a, o, n-1)
  apply n > 0 ==> pcsNonneg(a, o, n-1)
  requires n >= 0
  ensures 0 <= pcs(a, o, n) && pcs(a, o, n) <= 64 * n
// no bits counted: every word is zero
lemma pcsZero(a arr<uint64>, o int, n int, k int)
  induction n
  requires 0 <= k && k < n && pcs(a, o, n) == 0
  apply pcsS(a, o, n-1)
  apply pcsNonneg(a, o, n-1)
  apply popZero(a[o+n-1])
  apply k < n-1 ==> pcsZero(a, o, n-1, k)
  ensures popcount(a[o+k]) == 0

define inArr(array, index) = 0 <= index && index >> 6 < len(array)
func getBit
  mode bv
  requires (index >> 6) < len(array)
  use hasbitDef
  ensures @bit result == hasbit(arr(array), off(array), index)
func setBit
  mode bv
  requires (index >> 6) < len(array)
  modifies array[*]
  use hasbitDef
  ensures @set hasbit(arr(array), off(array), index)
  ensures @others forall j uint64 {hasbit(arr(array), off(array), j)}: (j >> 6) < len(array) && j != index ==> hasbit(arr(array), off(array), j) == hasbit(old(arr(array)), off(array), j)
func getAndSetBit
  mode bv
  requires (index >> 6) < len(array)
  modifies array[*]
  use hasbitDef
  ensures @old result == hasbit(old(arr(array)), off(array), index)
  ensures @set hasbit(arr(array), off(array), index)
  ensures @others forall j uint64 {hasbit(arr(array), off(array), j)}: (j >> 6) < len(array) && j != index ==> hasbit(arr(array), off(array), j) == hasbit(old(arr(array)), off(array), j)
func clearBit
  mode bv
  requires (index >> 6) < len(array)
  modifies array[*]
  use hasbitDef
  ensures @clear !hasbit(arr(array), off(array), index)
  ensures @others forall j uint64 {hasbit(arr(array), off(array), j)}: (j >> 6) < len(array) && j != index ==> hasbit(arr(array), off(array), j) == hasbit(old(arr(array)), off(array), j)

func countBitsSet
  use pcs0
  loop 1 invariant count == pcs(arr(array), off(array), rangepos) && 0 <= rangepos && rangepos <= len(array)
  loop 1 apply pcsS(arr(array), off(array), rangepos)
  loop 1 apply pcsNonneg(arr(array), off(array), rangepos)
  ensures @count result == pcs(arr(array), off(array), len(array))

lemma orBit(a arr<uint64>, p int, b arr<uint64>, q int, c arr<uint64>, i uint64)
  mode bv
  use hasbitDef
  requires c[p + (i >> 6)] == a[p + (i >> 6)] | b[q + (i >> 6)]
  ensures hasbit(c, p, i) == (hasbit(a, p, i) || hasbit(b, q, i))
lemma andBit(a arr<uint64>, p int, b arr<uint64>, q int, c arr<uint64>, i uint64)
  mode bv
  use hasbitDef
  requires c[p + (i >> 6)] == a[p + (i >> 6)] & b[q + (i >> 6)]
  ensures hasbit(c, p, i) == (hasbit(a, p, i) && hasbit(b, q, i))
lemma notBit(a arr<uint64>, p int, c arr<uint64>, i uint64)
  mode bv
  use hasbitDef
  requires c[p + (i >> 6)] == 18446744073709551615 - a[p + (i >> 6)]
  ensures hasbit(c, p, i) == !hasbit(a, p, i)

lemma pcsExt(a arr<uint64>, b arr<uint64>, o int, n int)
  induction n
  requires n >= 0 && forall k int {a[o+k]}: 0 <= k && k < n ==> a[o+k] == b[o+k]
  use pcs0
  apply n > 0 ==> pcsS(a, o, n-1)
  apply n > 0 ==> pcsS(b, o, n-1)
  apply n > 0 ==> pcsExt(a, b, o, n-1)
  ensures pcs(a, o, n) == pcs(b, o, n)
func unionWith
  requires len(source) >= len(target)
  modifies target[*]
  use pcs0
  loop 1 invariant 0 <= i && i <= len(target) && count == pcs(arr(target), off(target), i)
  loop 1 invariant forall k int {target[k]}: 0 <= k && k < i ==> target[k] == (oldmem(target[k]) | oldmem(source[k]))
  loop 1 invariant forall k int {target[k]}: i <= k && k < len(target) ==> target[k] == oldmem(target[k])
  loop 1 apply pcsS(arr(target), off(target), i)
  loop 1 apply pcsNonneg(arr(target), off(target), i)
  loop 1 apply pcsExt(head(1, arr(target)), arr(target), off(target), i)
  loop 1 apply pcsExt(head(1, arr(target)), arr(target), off(target), i-1)
  loop 1 apply pcsS(arr(target), off(target), i-1)
  ensures @count result == pcs(arr(target), off(target), len(target))
  ensures @words forall k int {target[k]}: 0 <= k && k < len(target) ==> target[k] == (old(target[k]) | old(source[k]))

func intersect
  requires len(source) >= len(target)
  modifies target[*]
  use pcs0
  loop 1 invariant 0 <= i && i <= len(target) && count == pcs(arr(target), off(target), i)
  loop 1 invariant forall k int {target[k]}: 0 <= k && k < i ==> target[k] == (oldmem(target[k]) & oldmem(source[k]))
  loop 1 invariant forall k int {target[k]}: i <= k && k < len(target) ==> target[k] == oldmem(target[k])
  loop 1 apply pcsS(arr(target), off(target), i)
  loop 1 apply pcsNonneg(arr(target), off(target), i)
  loop 1 apply pcsExt(head(1, arr(target)), arr(target), off(target), i)
  loop 1 apply pcsExt(head(1, arr(target)), arr(target), off(target), i-1)
  loop 1 apply pcsS(arr(target), off(target), i-1)
  ensures @count result == pcs(arr(target), off(target), len(target))
  ensures @words forall k int {target[k]}: 0 <= k && k < len(target) ==> target[k] == (old(target[k]) & old(source[k]))

func invert
  modifies array[*]
  use pcs0
  loop 1 invariant 0 <= i && i <= len(array) && count == pcs(arr(array), off(array), i)
  loop 1 invariant forall k int {array[k]}: 0 <= k && k < i ==> array[k] == 18446744073709551615 - oldmem(array[k])
  loop 1 invariant forall k int {array[k]}: i <= k && k < len(array) ==> array[k] == oldmem(array[k])
  loop 1 apply pcsS(arr(array), off(array), i)
  loop 1 apply pcsNonneg(arr(array), off(array), i)
  loop 1 apply pcsExt(head(1, arr(array)), arr(array), off(array), i)
  loop 1 apply pcsExt(head(1, arr(array)), arr(array), off(array), i-1)
  loop 1 apply pcsS(arr(array), off(array), i-1)
  ensures @count result == pcs(arr(array), off(array), len(array))
  ensures @words forall k int {array[k]}: 0 <= k && k < len(array) ==> array[k] == 18446744073709551615 - old(array[k])

// bit positions of an item with hashes h0, h1
function hidx(h0 uint64, h1 uint64, i uint64, m uint64) uint64
axiom hidxDef(h0 uint64, h1 uint64, i uint64, m uint64)
  trigger hidx(h0, h1, i, m)
  ensures hidx(h0, h1, i, m) == ((h0 + i * h1) >> 1) % m
  why definition
lemma hidxIn(h0 uint64, h1 uint64, i uint64, m uint64)
  mode bv
  trigger hidx(h0, h1, i, m)
  use hidxDef
  requires m > 0
  ensures 0 <= hidx(h0, h1, i, m) && hidx(h0, h1, i, m) < m
define bfOK(bf) = bf.numHashes >= 1 && len(bf.bitArray) >= 1 && len(bf.bitArray) < pow2(32) && bf.capacityBits == 64 * len(bf.bitArray) && off(bf.bitArray) == 0 \
   && (bf.isDirty || bf.numBitsSet == pcs(arr(bf.bitArray), 0, len(bf.bitArray)))
define member(bf, h0, h1) = forall j int {hidx(h0, h1, j, bf.capacityBits)}: 1 <= j && j <= bf.numHashes ==> hasbit(arr(bf.bitArray), 0, hidx(h0, h1, j, bf.capacityBits))
define bitsGrow(bf) = forall b int {hasbit(arr(bf.bitArray), 0, b)}: 0 <= b && b < bf.capacityBits ==> old(hasbit(arr(bf.bitArray), 0, b)) ==> hasbit(arr(bf.bitArray), 0, b)
define isIdx(bf, h0, h1, b) = exists j int {hidx(h0, h1, j, bf.capacityBits)}: 1 <= j && j <= bf.numHashes && b == hidx(h0, h1, j, bf.capacityBits)

func (*bloomFilterImpl).getHashIndex
  mode bv
  requires bf.capacityBits > 0
  use hidxDef
  ensures @idx result == hidx(h0, h1, uint64(i), bf.capacityBits)
  ensures @in result < bf.capacityBits

func (*bloomFilterImpl).BitsUsed
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty
  ensures @count result == pcs(arr(bf.bitArray), 0, len(bf.bitArray)) && bfOK(bf)
func (*bloomFilterImpl).IsEmpty
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty
  ensures @count result == (pcs(arr(bf.bitArray), 0, len(bf.bitArray)) == 0) && bfOK(bf)

func (*bloomFilterImpl).internalUpdate
  use hidxIn
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  ensures @inv bfOK(bf)
  ensures @added member(bf, h0, h1)
  ensures @keep bitsGrow(bf)
  ensures @only forall b int {hasbit(arr(bf.bitArray), 0, b)}: 0 <= b && b < bf.capacityBits && hasbit(arr(bf.bitArray), 0, b) && !old(hasbit(arr(bf.bitArray), 0, b)) ==> isIdx(bf, h0, h1, b)
  loop 1 invariant 1 <= i && i <= bf.numHashes + 1
  loop 1 invariant forall j int {hidx(h0, h1, j, bf.capacityBits)}: 1 <= j && j < i ==> hasbit(arr(bf.bitArray), 0, hidx(h0, h1, j, bf.capacityBits))
  loop 1 invariant forall b int {hasbit(arr(bf.bitArray), 0, b)}: 0 <= b && b < bf.capacityBits ==> oldmem(hasbit(arr(bf.bitArray), 0, b)) ==> hasbit(arr(bf.bitArray), 0, b)
  loop 1 invariant forall b int {hasbit(arr(bf.bitArray), 0, b)}: 0 <= b && b < bf.capacityBits && hasbit(arr(bf.bitArray), 0, b) && !oldmem(hasbit(arr(bf.bitArray), 0, b)) ==> isIdx(bf, h0, h1, b)

func (*bloomFilterImpl).internalQuery
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty
  use hidxIn
  ensures @inv bfOK(bf)
  ensures @query result <==> member(bf, h0, h1)
  loop 1 invariant 1 <= i && i <= bf.numHashes + 1
  loop 1 invariant forall j int {hidx(h0, h1, j, bf.capacityBits)}: 1 <= j && j < i ==> hasbit(arr(bf.bitArray), 0, hidx(h0, h1, j, bf.capacityBits))
  apply pcsZero(arr(bf.bitArray), 0, len(bf.bitArray), hidx(h0, h1, 1, bf.capacityBits) / 64)
  apply popZero(bf.bitArray[hidx(h0, h1, 1, bf.capacityBits) / 64])
  apply wordZero(arr(bf.bitArray), 0, hidx(h0, h1, 1, bf.capacityBits))

func (*bloomFilterImpl).internalQueryAndUpdate
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  use hidxIn
  ensures @inv bfOK(bf)
  ensures @added member(bf, h0, h1)
  ensures @keep bitsGrow(bf)
  ensures @only forall b int {hasbit(arr(bf.bitArray), 0, b)}: 0 <= b && b < bf.capacityBits && hasbit(arr(bf.bitArray), 0, b) && !old(hasbit(arr(bf.bitArray), 0, b)) ==> isIdx(bf, h0, h1, b)
  ensures @before result <==> old(member(bf, h0, h1))
  loop 1 invariant 1 <= i && i <= bf.numHashes + 1
  loop 1 invariant forall j int {hidx(h0, h1, j, bf.capacityBits)}: 1 <= j && j < i ==> hasbit(arr(bf.bitArray), 0, hidx(h0, h1, j, bf.capacityBits))
  loop 1 invariant forall b int {hasbit(arr(bf.bitArray), 0, b)}: 0 <= b && b < bf.capacityBits ==> oldmem(hasbit(arr(bf.bitArray), 0, b)) ==> hasbit(arr(bf.bitArray), 0, b)
  loop 1 invariant forall b int {hasbit(arr(bf.bitArray), 0, b)}: 0 <= b && b < bf.capacityBits && hasbit(arr(bf.bitArray), 0, b) && !oldmem(hasbit(arr(bf.bitArray), 0, b)) ==> exists j int {hidx(h0, h1, j, bf.capacityBits)}: 1 <= j && j < i && b == hidx(h0, h1, j, bf.capacityBits)
  loop 1 invariant valueExists ==> forall j int {hidx(h0, h1, j, bf.capacityBits)}: 1 <= j && j < i ==> oldmem(hasbit(arr(bf.bitArray), 0, hidx(h0, h1, j, bf.capacityBits)))
  loop 1 invariant !valueExists ==> exists j int {hidx(h0, h1, j, bf.capacityBits)}: 1 <= j && j < i && !oldmem(hasbit(arr(bf.bitArray), 0, hidx(h0, h1, j, bf.capacityBits)))

func hashLongOptimized
  functional
  mode bv
func (*bloomFilterImpl).computeHashesForLong
  ensures h0 == hashLongOptimized(value, bf.seed) && h1 == hashLongOptimized(value, h0)
define lh0(bf, v) = hashLongOptimized(v, bf.seed)
define lh1(bf, v) = hashLongOptimized(v, hashLongOptimized(v, bf.seed))
define twos(v) = if v >= 0 then v else v + pow2(64)
func (*bloomFilterImpl).UpdateUInt64
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  ensures @added bfOK(bf) && result == nil && member(bf, lh0(bf, datum), lh1(bf, datum)) && bitsGrow(bf)
func (*bloomFilterImpl).UpdateInt64
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  ensures @added bfOK(bf) && result == nil && member(bf, lh0(bf, twos(datum)), lh1(bf, twos(datum))) && bitsGrow(bf)
func (*bloomFilterImpl).QueryUInt64
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty
  ensures @query bfOK(bf) && (result <==> member(bf, lh0(bf, datum), lh1(bf, datum)))
func (*bloomFilterImpl).QueryInt64
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty
  ensures @query bfOK(bf) && (result <==> member(bf, lh0(bf, twos(datum)), lh1(bf, twos(datum))))
func (*bloomFilterImpl).QueryAndUpdateUInt64
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  ensures @query bfOK(bf) && (result <==> old(member(bf, lh0(bf, datum), lh1(bf, datum)))) && member(bf, lh0(bf, datum), lh1(bf, datum)) && bitsGrow(bf)
func (*bloomFilterImpl).QueryAndUpdateInt64
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  ensures @query bfOK(bf) && (result <==> old(member(bf, lh0(bf, twos(datum)), lh1(bf, twos(datum))))) && member(bf, lh0(bf, twos(datum)), lh1(bf, twos(datum))) && bitsGrow(bf)

// xxHash64 of the n bytes of a from o
function xx(a arr<uint8>, o int, n int, seed uint64) uint64
func (*bloomFilterImpl).computeHashes
  trusted github.com/cespare/xxhash: the two hashes are functions of the item's bytes and the seed
  ensures h0 == xx(arr(data), off(data), len(data), bf.seed) && h1 == xx(arr(data), off(data), len(data), h0)
define sh0(bf, d) = xx(arr(d), off(d), len(d), bf.seed)
define sh1(bf, d) = xx(arr(d), off(d), len(d), xx(arr(d), off(d), len(d), bf.seed))
func (*bloomFilterImpl).UpdateSlice
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  ensures @added bfOK(bf) && result == nil && member(bf, sh0(bf, datum), sh1(bf, datum)) && bitsGrow(bf)
func (*bloomFilterImpl).QuerySlice
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty
  ensures @query bfOK(bf) && (result <==> member(bf, sh0(bf, datum), sh1(bf, datum)))
func (*bloomFilterImpl).QueryAndUpdateSlice
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  ensures @query bfOK(bf) && (result <==> old(member(bf, sh0(bf, datum), sh1(bf, datum)))) && member(bf, sh0(bf, datum), sh1(bf, datum)) && bitsGrow(bf)

func (*bloomFilterImpl).UpdateString
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  ensures @keep bfOK(bf) && bitsGrow(bf)
func (*bloomFilterImpl).UpdateFloat64
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  ensures @keep bfOK(bf) && bitsGrow(bf)
func (*bloomFilterImpl).UpdateInt64Array
  requires bfOK(bf) && len(data) < pow2(40)
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  loop 1 invariant 0 <= rangepos
  ensures @keep bfOK(bf) && bitsGrow(bf)
func (*bloomFilterImpl).UpdateFloat64Array
  requires bfOK(bf) && len(data) < pow2(40)
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  loop 1 invariant 0 <= rangepos
  ensures @keep bfOK(bf) && bitsGrow(bf)
func (*bloomFilterImpl).Reset
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  loop 1 invariant 0 <= i && forall k int {bf.bitArray[k]}: 0 <= k && k < i ==> bf.bitArray[k] == 0
  apply pcsAllZero(arr(bf.bitArray), 0, len(bf.bitArray))
  ensures @zero forall k int {bf.bitArray[k]}: 0 <= k && k < len(bf.bitArray) ==> bf.bitArray[k] == 0
  ensures bfOK(bf) && result == nil
lemma pcsAllZero(a arr<uint64>, o int, n int)
  induction n
  requires n >= 0 && forall k int {a[o+k]}: 0 <= k && k < n ==> a[o+k] == 0
  use pcs0
  apply n > 0 ==> pcsS(a, o, n-1)
  apply n > 0 ==> popZero(a[o+n-1])
  apply n > 0 ==> pcsAllZero(a, o, n-1)
  ensures pcs(a, o, n) == 0

func (*bloomFilterImpl).Capacity
  ensures result == bf.capacityBits
func (*bloomFilterImpl).NumHashes
  ensures result == bf.numHashes
func (*bloomFilterImpl).Seed
  ensures result == bf.seed
define compat(a, b) = a.seed == b.seed && a.numHashes == b.numHashes && a.capacityBits == b.capacityBits
func (*bloomFilterImpl).IsCompatible
  requires other != nil && typeis(other, bloomFilterImpl) && ref(dyn(other, bloomFilterImpl)) > 0
  ensures @compat result == compat(bf, dyn(other, bloomFilterImpl))
func (*bloomFilterImpl).Union
  requires bfOK(bf) && other != nil && typeis(other, bloomFilterImpl) && ref(dyn(other, bloomFilterImpl)) > 0 && bfOK(dyn(other, bloomFilterImpl))
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  let o = dyn(other, bloomFilterImpl)
  ensures @reject (result == nil) == old(compat(bf, o))
  ensures @unchanged result != nil ==> bf.numBitsSet == old(bf.numBitsSet) && forall k int {bf.bitArray[k]}: bf.bitArray[k] == old(bf.bitArray[k])
  ensures @or result == nil ==> forall k int {bf.bitArray[k]}: 0 <= k && k < len(bf.bitArray) ==> bf.bitArray[k] == (old(bf.bitArray[k]) | old(o.bitArray[k]))
  ensures @inv bfOK(bf)
func (*bloomFilterImpl).Intersect
  requires bfOK(bf) && other != nil && typeis(other, bloomFilterImpl) && ref(dyn(other, bloomFilterImpl)) > 0 && bfOK(dyn(other, bloomFilterImpl))
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  let o = dyn(other, bloomFilterImpl)
  ensures @reject (result == nil) == old(compat(bf, o))
  ensures @unchanged result != nil ==> bf.numBitsSet == old(bf.numBitsSet) && forall k int {bf.bitArray[k]}: bf.bitArray[k] == old(bf.bitArray[k])
  ensures @and result == nil ==> forall k int {bf.bitArray[k]}: 0 <= k && k < len(bf.bitArray) ==> bf.bitArray[k] == (old(bf.bitArray[k]) & old(o.bitArray[k]))
  ensures @inv bfOK(bf)
func (*bloomFilterImpl).Invert
  requires bfOK(bf)
  modifies bf.numBitsSet, bf.isDirty, bf.bitArray[*]
  ensures @not result == nil && forall k int {bf.bitArray[k]}: 0 <= k && k < len(bf.bitArray) ==> bf.bitArray[k] == 18446744073709551615 - old(bf.bitArray[k])
  ensures @inv bfOK(bf)
func roundCapacity
  requires numBits < pow2(62)
  ensures result % 64 == 0 && numBits <= result && result < numBits + 64
