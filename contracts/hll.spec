package internal
defaultprops P13
func GetShortLE
  mode bv
  requires 0 <= offset && offset < len(array) - 1
  ensures result == bvu(array[offset], 64) | (bvu(array[offset+1], 64) << 8)
func PutShortLE
  mode bv
  requires 0 <= offset && offset < len(array) - 1
  modifies array[offset..offset+2]
  ensures bvu(array[offset], 64) == value & 255 && bvu(array[offset+1], 64) == (value >> 8) & 255
func InvPow2
  mode bv
  ensures @ok (0 <= e && e <= 1023) ==> result1 == nil

package hll
defaultprops P13

// slot s of the packed forms
function nibAt(a arr<uint8>, o int, s int) int
axiom nibDef(a arr<uint8>, o int, s int)
  trigger nibAt(a, o, s)
  ensures nibAt(a, o, s) == (bvu(a[o + (s >> 1)], 64) >> ((s & 1) << 2)) & 15
  why definition
function sixAt(a arr<uint8>, o int, s int) int
axiom sixDef(a arr<uint8>, o int, s int)
  trigger sixAt(a, o, s)
  ensures sixAt(a, o, s) == ((bvu(a[o + ((s * 6) >> 3)], 64) | (bvu(a[o + ((s * 6) >> 3) + 1], 64) << 8)) >> ((s * 6) & 7)) & 63
  why definition

func pair
  mode bv
  requires 0 <= value && value < 64
  ensures @low result & 67108863 == slotNo & 67108863
  ensures @value result >> 26 == value
  ensures 0 <= result && result < 4294967296
func getPairLow26
  mode bv
  ensures result == pair & 67108863
func getPairValue
  mode bv
  requires 0 <= pair
  ensures result == pair >> 26

define nibOK(a, s) = 0 <= s && s <= 4194304 && (s >> 1) < len(a.hllByteArr)
func (*hllArrayImpl).getNibble
  mode bv
  requires nibOK(a, slotNo)
  use nibDef
  ensures @slot result == nibAt(arr(a.hllByteArr), off(a.hllByteArr), slotNo)
  ensures 0 <= result && result < 16
func (*hllArrayImpl).putNibble
  mode bv
  requires nibOK(a, slotNo)
  modifies a.hllByteArr[*]
  use nibDef
  ensures @slot nibAt(arr(a.hllByteArr), off(a.hllByteArr), slotNo) == bvu(value, 64) & 15
  ensures @others forall t int {nibAt(arr(a.hllByteArr), off(a.hllByteArr), t)}: 0 <= t && t <= 4194304 && t != slotNo ==> nibAt(arr(a.hllByteArr), off(a.hllByteArr), t) == nibAt(old(arr(a.hllByteArr)), off(a.hllByteArr), t)

define sixOK(a, o, s) = 0 <= o && o < 64 && 0 <= s && s <= 4194304 && s * 6 <= (len(a) - 2 - o) * 8 + 7 && len(a) <= 16777216
func get6Bit
  mode bv
  requires sixOK(arr, offsetBytes, slotNo)
  use sixDef
  ensures @slot result == sixAt(arr(arr), off(arr) + offsetBytes, slotNo)
  ensures 0 <= result && result < 64
func put6Bit
  mode bv
  requires sixOK(arr, offsetBytes, slotNo)
  modifies arr[*]
  use sixDef
  ensures @slot sixAt(arr(arr), off(arr) + offsetBytes, slotNo) == newValue & 63
  ensures @others forall t int {sixAt(arr(arr), off(arr) + offsetBytes, t)}: 0 <= t && t <= 4194304 && t != slotNo ==> sixAt(arr(arr), off(arr) + offsetBytes, t) == sixAt(old(arr(arr)), off(arr) + offsetBytes, t)

define lgOK(h) = 4 <= h.lgConfigK && h.lgConfigK <= 21 && h.slotNoMask == pow2(h.lgConfigK) - 1
func (*hllArrayImpl).incrementalUpdateKxQ
  requires 0 <= oldValue && oldValue < 64 && 0 <= newValue && newValue < 64
  modifies a.kxq0, a.kxq1
  ensures result == nil
func (*hllArrayImpl).hipAndKxQIncrementalUpdate
  requires 0 <= oldValue && oldValue < newValue && newValue < 64 && 0 <= a.lgConfigK && a.lgConfigK <= 26
  modifies a.kxq0, a.kxq1, a.hipAccum
  ensures result == nil

// HLL_8
define slot8(h, i) = arr(h.hllByteArr)[i]
define ok8(h) = lgOK(h) && len(h.hllByteArr) == pow2(h.lgConfigK) && off(h.hllByteArr) == 0 && forall i int {arr(h.hllByteArr)[i]}: 0 <= i && i < len(h.hllByteArr) ==> arr(h.hllByteArr)[i] < 64
func (*hll8ArrayImpl).getSlotValue
  requires ok8(h) && 0 <= slotNo && slotNo < len(h.hllByteArr)
  ensures @slot result == slot8(h, slotNo)
  ensures 0 <= result && result < 64
func (*hll8ArrayImpl).updateSlotNoKxQ
  requires ok8(h) && 0 <= slotNo && slotNo < len(h.hllByteArr) && 0 <= newValue && newValue < 64
  modifies h.hllByteArr[*]
  ensures @max slot8(h, slotNo) == max(old(slot8(h, slotNo)), newValue)
  ensures @others forall i int {arr(h.hllByteArr)[i]}: 0 <= i && i < len(h.hllByteArr) && i != slotNo ==> arr(h.hllByteArr)[i] == old(arr(h.hllByteArr))[i]
func (*hll8ArrayImpl).updateSlotWithKxQ
  requires ok8(h) && 0 <= slotNo && slotNo < len(h.hllByteArr) && 0 <= newValue && newValue < 64 && h.numAtCurMin >= 0
  modifies h.hllByteArr[*], h.kxq0, h.kxq1, h.hipAccum, h.numAtCurMin
  ensures @max slot8(h, slotNo) == max(old(slot8(h, slotNo)), newValue)
  ensures @others forall i int {arr(h.hllByteArr)[i]}: 0 <= i && i < len(h.hllByteArr) && i != slotNo ==> arr(h.hllByteArr)[i] == old(arr(h.hllByteArr))[i]
  ensures @zeros result == nil ==> h.numAtCurMin == old(h.numAtCurMin) - (if old(slot8(h, slotNo)) == 0 && newValue > 0 then 1 else 0)

// HLL_6
lemma pow2four(n int)
  requires 2 <= n
  apply pow2mono(n-2, n-1)
  ensures pow2(n) == 4 * pow2(n-2)
define slot6(h, i) = sixAt(arr(h.hllByteArr), 0, i)
define ok6(h) = lgOK(h) && len(h.hllByteArr) == (pow2(h.lgConfigK) * 3) / 4 + 1 && off(h.hllByteArr) == 0
func (*hll6ArrayImpl).getSlotValue
  apply pow2four(h.lgConfigK)
  apply pow2mono(h.lgConfigK, 21)
  requires ok6(h) && 0 <= slotNo && slotNo < pow2(h.lgConfigK)
  ensures @slot result == slot6(h, slotNo)
  ensures 0 <= result && result < 64
func (*hll6ArrayImpl).updateSlotWithKxQ
  apply pow2four(h.lgConfigK)
  apply pow2mono(h.lgConfigK, 21)
  requires ok6(h) && 0 <= slotNo && slotNo < pow2(h.lgConfigK) && 0 <= newValue && newValue < 64 && h.numAtCurMin >= 0
  modifies h.hllByteArr[*], h.kxq0, h.kxq1, h.hipAccum, h.numAtCurMin
  ensures @max slot6(h, slotNo) == max(old(slot6(h, slotNo)), newValue)
  ensures @others forall i int {slot6(h, i)}: 0 <= i && i < pow2(h.lgConfigK) && i != slotNo ==> slot6(h, i) == old(slot6(h, i))
  ensures @zeros result == nil ==> h.numAtCurMin == old(h.numAtCurMin) - (if old(slot6(h, slotNo)) == 0 && newValue > 0 then 1 else 0)

define isCoupon(c) = 67108864 <= c && c < 4294967296
func (*hll8ArrayImpl).couponUpdate
  requires ok8(h) && isCoupon(coupon) && h.numAtCurMin >= 0
  modifies h.hllByteArr[*], h.kxq0, h.kxq1, h.hipAccum, h.numAtCurMin
  ensures @max slot8(h, coupon & h.slotNoMask) == max(old(slot8(h, coupon & h.slotNoMask)), coupon >> 26)
  ensures @others forall i int {arr(h.hllByteArr)[i]}: 0 <= i && i < len(h.hllByteArr) && i != coupon & h.slotNoMask ==> arr(h.hllByteArr)[i] == old(arr(h.hllByteArr))[i]
  ensures @self typeis(result0, hll8ArrayImpl) && dyn(result0, hll8ArrayImpl) == h
func (*hll6ArrayImpl).couponUpdate
  requires ok6(h) && isCoupon(coupon) && h.numAtCurMin >= 0
  modifies h.hllByteArr[*], h.kxq0, h.kxq1, h.hipAccum, h.numAtCurMin
  ensures @max slot6(h, coupon & h.slotNoMask) == max(old(slot6(h, coupon & h.slotNoMask)), coupon >> 26)
  ensures @others forall i int {slot6(h, i)}: 0 <= i && i < pow2(h.lgConfigK) && i != coupon & h.slotNoMask ==> slot6(h, i) == old(slot6(h, i))
  ensures @self typeis(result0, hll6ArrayImpl) && dyn(result0, hll6ArrayImpl) == h

// the probe sequence of a coupon in a table of 2^lg, and its inverse
function cprobe(c int, lg int, j int) math
function cdist(c int, lg int, s int) math
define cstride(c, lg) = ((c & 67108863) >> lg) | 1
axiom cprobe0(c int, lg int, m int)
  ensures lg >= 0 && m == pow2(lg) - 1 ==> cprobe(c, lg, 0) == c & m
  why definition: a probe sequence starts at the coupon's low bits
axiom cprobeS(c int, lg int, m int, j int)
  ensures lg >= 0 && m == pow2(lg) - 1 && j >= 0 ==> cprobe(c, lg, j+1) == (cprobe(c, lg, j) + cstride(c, lg)) & m
  why definition: a probe sequence advances by the coupon's stride modulo the table size
axiom cdistR(c int, lg int, s int)
  trigger cdist(c, lg, s)
  ensures 0 <= lg && 0 <= s && s < pow2(lg) ==> 0 <= cdist(c, lg, s) && cdist(c, lg, s) < pow2(lg) && cprobe(c, lg, cdist(c, lg, s)) == s
  why an odd stride visits every slot of a power-of-two table (number theory; defines cdist)
axiom cdistU(c int, lg int, j int)
  trigger cprobe(c, lg, j)
  ensures 0 <= lg && 0 <= j && j < pow2(lg) ==> cdist(c, lg, cprobe(c, lg, j)) == j
  why an odd stride visits every slot of a power-of-two table only once per cycle (number theory)
axiom cprobeC(c int, lg int)
  ensures lg >= 0 ==> cprobe(c, lg, pow2(lg)) == cprobe(c, lg, 0)
  why after 2^lg steps of an odd stride a probe sequence is back at its start

func findCoupon
  requires 1 <= lgArrInts && lgArrInts <= 30 && len(array) == pow2(lgArrInts) && isCoupon(coupon)
  use cdistR
  use cdistU
  ensures @found result1 == nil && result0 >= 0 ==> result0 < len(array) && array[result0] == coupon
  ensures @free result1 == nil && result0 < 0 ==> -1 - result0 < len(array) && array[-1 - result0] == 0 \
     && forall j int {cprobe(coupon, lgArrInts, j)}: 0 <= j && j < cdist(coupon, lgArrInts, -1 - result0) ==> array[cprobe(coupon, lgArrInts, j)] != 0 && array[cprobe(coupon, lgArrInts, j)] != coupon
  ensures @full result1 != nil ==> forall s int {array[s]}: 0 <= s && s < len(array) && cdist(coupon, lgArrInts, s) >= 0 ==> array[s] != 0 && array[s] != coupon
  loop 1 invariant 0 <= probe && probe < len(array) && loopIndex == cprobe(coupon, lgArrInts, 0) && cdist(coupon, lgArrInts, loopIndex) == 0
  loop 1 invariant ok ==> forall j int {cprobe(coupon, lgArrInts, j)}: 0 <= j && j < cdist(coupon, lgArrInts, probe) ==> array[cprobe(coupon, lgArrInts, j)] != 0 && array[cprobe(coupon, lgArrInts, j)] != coupon
  loop 1 invariant !ok ==> forall s int {array[s]}: 0 <= s && s < len(array) && cdist(coupon, lgArrInts, s) >= 0 ==> array[s] != 0 && array[s] != coupon
  loop 1 apply cprobe0(coupon, lgArrInts, len(array) - 1)
  loop 1 apply cdistU(coupon, lgArrInts, 0)
  loop 1 apply cdistR(coupon, lgArrInts, probe)
  loop 1 apply cprobeS(coupon, lgArrInts, len(array) - 1, cdist(coupon, lgArrInts, probe))
  loop 1 apply cdistU(coupon, lgArrInts, cdist(coupon, lgArrInts, probe) + 1)
  loop 1 apply cprobeC(coupon, lgArrInts)

define cset(a, n, k) = occ(a, 0, n, k)
define creach(a, lg) = forall s, j int {a[s], cprobe(a[s], lg, j)}: 0 <= s && s < pow2(lg) && a[s] != 0 && 0 <= j && j < cdist(a[s], lg, s) ==> a[cprobe(a[s], lg, j)] != 0
define cdistinct(a, n) = forall k int {occ(a, 0, n, k)}: k != 0 ==> occ(a, 0, n, k) <= 1
define callOK(a, n) = forall s int {a[s]}: 0 <= s && s < n && a[s] != 0 ==> isCoupon(a[s])
define setShape(c) = 8 <= c.lgConfigK && c.lgConfigK <= 21 && 1 <= c.lgCouponArrInts && c.lgCouponArrInts <= c.lgConfigK - 3 && len(c.couponIntArr) == pow2(c.lgCouponArrInts) && off(c.couponIntArr) == 0
define setCore(c) = setShape(c) && creach(arr(c.couponIntArr), c.lgCouponArrInts) && cdistinct(arr(c.couponIntArr), len(c.couponIntArr)) && callOK(arr(c.couponIntArr), len(c.couponIntArr)) \
  && c.couponCount == len(c.couponIntArr) - occ(arr(c.couponIntArr), 0, len(c.couponIntArr), 0)
define setOK(c) = setCore(c) && 4 * c.couponCount <= 3 * len(c.couponIntArr)

// rebuilding the table keeps exactly its coupons
func growHashSet
  requires 2 <= tgtLgCoupArrSize && tgtLgCoupArrSize <= 20 && 2 * len(couponIntArr) == pow2(tgtLgCoupArrSize) && off(couponIntArr) == 0
  requires cdistinct(arr(couponIntArr), len(couponIntArr)) && callOK(arr(couponIntArr), len(couponIntArr))
  use occStore
  use occBound
  use occEmpty
  use occSnoc
  use occZeroArr
  use cdistR
  use occPos
  ensures @ok result1 == nil
  ensures @shape len(result0) == pow2(tgtLgCoupArrSize) && off(result0) == 0 && fresh(result0)
  ensures @reach creach(arr(result0), tgtLgCoupArrSize) && callOK(arr(result0), len(result0))
  ensures @set forall k int {occ(arr(result0), 0, len(result0), k)}: k != 0 ==> occ(arr(result0), 0, len(result0), k) == occ(arr(couponIntArr), 0, len(couponIntArr), k)
  ensures @free occ(arr(result0), 0, len(result0), 0) == len(couponIntArr) + occ(arr(couponIntArr), 0, len(couponIntArr), 0)
  loop 1 invariant 0 <= rangepos && rangepos <= len(couponIntArr) && len(tgtCouponIntArr) == pow2(tgtLgCoupArrSize) && off(tgtCouponIntArr) == 0 && fresh(tgtCouponIntArr)
  loop 1 invariant creach(arr(tgtCouponIntArr), tgtLgCoupArrSize)
  loop 1 invariant callOK(arr(tgtCouponIntArr), len(tgtCouponIntArr))
  loop 1 invariant forall k int {occ(arr(tgtCouponIntArr), 0, len(tgtCouponIntArr), k)}: k != 0 ==> occ(arr(tgtCouponIntArr), 0, len(tgtCouponIntArr), k) == occ(arr(couponIntArr), 0, rangepos, k)
  loop 1 invariant occ(arr(tgtCouponIntArr), 0, len(tgtCouponIntArr), 0) == len(tgtCouponIntArr) - rangepos + occ(arr(couponIntArr), 0, rangepos, 0)
  loop 1 apply occSnocAll(arr(couponIntArr), 0, rangepos)
  loop 1 apply occSnoc(arr(couponIntArr), 0, rangepos, 0)
  loop 1 apply occSnoc(arr(couponIntArr), 0, rangepos, couponIntArr[rangepos])
  loop 1 apply occCat(arr(couponIntArr), 0, rangepos, len(couponIntArr), couponIntArr[rangepos])
  loop 1 apply occCat(arr(couponIntArr), rangepos, rangepos+1, len(couponIntArr), couponIntArr[rangepos])
  loop 1 apply occPos(arr(couponIntArr), rangepos, rangepos+1, rangepos)
  loop 1 apply occEmpty(arr(couponIntArr), 0, 0, 0)
  loop 1 apply occNone(arr(tgtCouponIntArr), 0, len(tgtCouponIntArr), 0)
  loop 1 apply occAll(arr(tgtCouponIntArr), 0, len(tgtCouponIntArr), 0)
  loop 1 apply occNone(head(1, arr(tgtCouponIntArr)), 0, len(tgtCouponIntArr), 0)
  loop 1 apply occPos(head(1, arr(tgtCouponIntArr)), 0, len(tgtCouponIntArr), idx)

func (*couponHashSetImpl).checkGrowOrPromote
  requires setCore(c) && 4 * c.couponCount <= 3 * len(c.couponIntArr) + 4
  modifies c.couponIntArr, c.lgCouponArrInts
  ensures @ok result1 == nil
  ensures @mem ref(c.couponIntArr) == old(ref(c.couponIntArr)) || fresh(c.couponIntArr)
  ensures @when result0 ==> 4 * c.couponCount > 3 * old(len(c.couponIntArr)) && old(c.lgCouponArrInts) == c.lgConfigK - 3
  apply pow2mono(c.lgCouponArrInts, 18)
  apply occBound(arr(c.couponIntArr), 0, len(c.couponIntArr), 0)
  ensures @inv setCore(c) && (!result0 ==> setOK(c))
  ensures @set forall k int {occ(arr(c.couponIntArr), 0, len(c.couponIntArr), k)}: k != 0 ==> occ(arr(c.couponIntArr), 0, len(c.couponIntArr), k) == occ(old(arr(c.couponIntArr)), 0, old(len(c.couponIntArr)), k)

// the coupon set, while it has room before its promotion to registers
define roomySet(c) = 4 * (c.couponCount + 1) <= 3 * pow2(c.lgConfigK - 3)
func promoteSetToHll
  requires 1 == 0
  trusted the promotion to registers is not under contract: callers prove that they do not reach it, the harness runs it
func (*couponHashSetImpl).couponUpdate
  requires setOK(c) && isCoupon(coupon) && roomySet(c)
  modifies c.couponCount, c.lgCouponArrInts, c.couponIntArr, c.couponIntArr[*]
  use occStore
  use cdistR
  use occPos
  apply pow2mono(c.lgCouponArrInts, 18)
  apply occBound(arr(c.couponIntArr), 0, len(c.couponIntArr), 0)
  apply occNone(arr(c.couponIntArr), 0, len(c.couponIntArr), coupon)
  apply occNone(arr(c.couponIntArr), 0, len(c.couponIntArr), 0)
  ensures @count c.couponCount <= old(c.couponCount) + 1
  ensures @mem ref(c.couponIntArr) == old(ref(c.couponIntArr)) || fresh(c.couponIntArr)
  ensures @self result1 == nil && typeis(result0, couponHashSetImpl) && dyn(result0, couponHashSetImpl) == c
  ensures @inv setOK(c)
  ensures @set forall k int {occ(arr(c.couponIntArr), 0, len(c.couponIntArr), k)}: k != 0 ==> occ(arr(c.couponIntArr), 0, len(c.couponIntArr), k) == (if k == coupon then 1 else occ(old(arr(c.couponIntArr)), 0, old(len(c.couponIntArr)), k))

func newHllSketchConfig
  requires 0 <= lgConfigK && lgConfigK <= 26
  ensures result.lgConfigK == lgConfigK && result.tgtHllType == tgtHllType && result.curMode == curMode && result.slotNoMask == pow2(lgConfigK) - 1
func newCouponList
  requires 4 <= lgConfigK && lgConfigK <= 21
  use occZeroArr
  apply result1 == nil ==> occAll(arr(result0.couponIntArr), 0, len(result0.couponIntArr), 0)
  ensures @none result1 == nil ==> (forall k int {occ(arr(result0.couponIntArr), 0, len(result0.couponIntArr), k)}: k != 0 ==> occ(arr(result0.couponIntArr), 0, len(result0.couponIntArr), k) == 0) && occ(arr(result0.couponIntArr), 0, len(result0.couponIntArr), 0) == len(result0.couponIntArr)
  ensures @ok result1 == nil <==> (curMode == 0 || lgConfigK > 7)
  ensures @cfg result1 == nil ==> result0.hllSketchConfig.lgConfigK == lgConfigK && result0.hllSketchConfig.tgtHllType == tgtHllType && result0.hllSketchConfig.curMode == curMode && result0.hllSketchConfig.slotNoMask == pow2(lgConfigK) - 1
  ensures @empty result1 == nil ==> result0.hllCouponState.couponCount == 0 && result0.hllCouponState.lgCouponArrInts == (if curMode == 0 then 3 else 5) && len(result0.hllCouponState.couponIntArr) == pow2(result0.hllCouponState.lgCouponArrInts) && off(result0.hllCouponState.couponIntArr) == 0 && fresh(result0.hllCouponState.couponIntArr)
  ensures @zero result1 == nil ==> forall s int {result0.hllCouponState.couponIntArr[s]}: 0 <= s && s < len(result0.hllCouponState.couponIntArr) ==> result0.hllCouponState.couponIntArr[s] == 0
func newCouponHashSet
  requires 4 <= lgConfigK && lgConfigK <= 21
  ensures @none result1 == nil ==> (forall k int {occ(arr(result0.couponIntArr), 0, 32, k)}: k != 0 ==> occ(arr(result0.couponIntArr), 0, 32, k) == 0) && occ(arr(result0.couponIntArr), 0, 32, 0) == 32
  ensures @ok result1 == nil <==> lgConfigK > 7
  ensures @cfg result1 == nil ==> result0.hllSketchConfig.lgConfigK == lgConfigK && result0.hllSketchConfig.tgtHllType == tgtHllType && result0.hllSketchConfig.curMode == 1 && result0.hllSketchConfig.slotNoMask == pow2(lgConfigK) - 1
  ensures @empty result1 == nil ==> result0.hllCouponState.couponCount == 0 && result0.hllCouponState.lgCouponArrInts == 5 && len(result0.hllCouponState.couponIntArr) == 32 && off(result0.hllCouponState.couponIntArr) == 0 && fresh(result0.hllCouponState.couponIntArr)
  ensures @zero result1 == nil ==> forall s int {result0.hllCouponState.couponIntArr[s]}: 0 <= s && s < len(result0.hllCouponState.couponIntArr) ==> result0.hllCouponState.couponIntArr[s] == 0

define listOK(c) = 4 <= c.lgConfigK && c.lgConfigK <= 21 && c.lgCouponArrInts == 3 && len(c.couponIntArr) == 8 && off(c.couponIntArr) == 0 && 0 <= c.couponCount && c.couponCount < 8 \
  && (forall s int {arr(c.couponIntArr)[s]}: 0 <= s && s < 8 ==> (if s < c.couponCount then isCoupon(arr(c.couponIntArr)[s]) else arr(c.couponIntArr)[s] == 0)) \
  && cdistinct(arr(c.couponIntArr), 8)
func promoteListToHll
  requires 1 == 0
  trusted the promotion to registers is not under contract: callers prove that they do not reach it, the harness runs it

func promoteListToSet
  requires c != nil && c.lgConfigK >= 8 && c.lgConfigK <= 21 && c.couponCount == 8 && len(c.couponIntArr) == 8 && off(c.couponIntArr) == 0
  requires (forall s int {arr(c.couponIntArr)[s]}: 0 <= s && s < 8 ==> isCoupon(arr(c.couponIntArr)[s])) && cdistinct(arr(c.couponIntArr), 8)
  use occZeroArr
  ensures @ok result1 == nil && typeis(result0, couponHashSetImpl) && fresh(dyn(result0, couponHashSetImpl)) && setOK(dyn(result0, couponHashSetImpl))
  let d = dyn(result0, couponHashSetImpl)
  ensures @set forall k int {occ(arr(d.couponIntArr), 0, len(d.couponIntArr), k)}: k != 0 ==> occ(arr(d.couponIntArr), 0, len(d.couponIntArr), k) == occ(arr(c.couponIntArr), 0, 8, k)
  loop 1 invariant 0 <= i && i <= 8 && err == nil && setOK(chSet) && chSet.couponCount <= i && chSet.lgConfigK == c.lgConfigK && chSet.tgtHllType == c.tgtHllType
  loop 1 invariant forall k int {occ(arr(chSet.couponIntArr), 0, len(chSet.couponIntArr), k)}: k != 0 ==> occ(arr(chSet.couponIntArr), 0, len(chSet.couponIntArr), k) == occ(arr(c.couponIntArr), 0, i, k)
  loop 1 invariant forall s int {arr(c.couponIntArr)[s]}: 0 <= s && s < 8 ==> isCoupon(arr(c.couponIntArr)[s])
  loop 1 invariant fresh(chSet.couponIntArr)
  loop 1 apply occSnocAll(arr(c.couponIntArr), 0, i)
  loop 1 apply i < 8 ==> occCat(arr(c.couponIntArr), 0, i+1, 8, arr(c.couponIntArr)[i])
  loop 1 apply occBound(arr(c.couponIntArr), i+1, 8, arr(c.couponIntArr)[i])
  loop 1 apply occBound(arr(c.couponIntArr), 0, i, arr(c.couponIntArr)[i])
  loop 1 apply occEmpty(arr(c.couponIntArr), 0, 0, 0)
  use occEmpty
  apply pow2mono(5, c.lgConfigK - 3)

func (*couponListImpl).couponUpdate
  requires listOK(c) && isCoupon(coupon) && (c.couponCount < 7 || c.lgConfigK >= 8)
  modifies c.couponCount, c.couponIntArr[*]
  use occStore
  use occPos
  apply occNone(arr(c.couponIntArr), 0, 8, coupon)
  ensures @ok result1 == nil
  ensures @self (typeis(result0, couponListImpl) && dyn(result0, couponListImpl) == c && listOK(c)) || (typeis(result0, couponHashSetImpl) && setOK(dyn(result0, couponHashSetImpl)))
  ensures @list typeis(result0, couponListImpl) ==> forall k int {occ(arr(c.couponIntArr), 0, 8, k)}: k != 0 ==> occ(arr(c.couponIntArr), 0, 8, k) == (if k == coupon then 1 else occ(old(arr(c.couponIntArr)), 0, 8, k))
  let d = dyn(result0, couponHashSetImpl)
  ensures @set typeis(result0, couponHashSetImpl) ==> forall k int {occ(arr(d.couponIntArr), 0, len(d.couponIntArr), k)}: k != 0 ==> occ(arr(d.couponIntArr), 0, len(d.couponIntArr), k) == (if k == coupon then 1 else occ(old(arr(c.couponIntArr)), 0, 8, k))
  loop 1 invariant 0 <= i && i <= 8 && i <= c.couponCount && length == 8
  loop 1 invariant forall s int {arr(c.couponIntArr)[s]}: 0 <= s && s < i ==> arr(c.couponIntArr)[s] != coupon

// copies hold the same contents and share nothing
func (*auxHashMap).copy
  requires len(a.auxIntArr) >= 0 && off(a.auxIntArr) == 0
  ensures @own fresh(result) && fresh(result.auxIntArr) && len(result.auxIntArr) == len(a.auxIntArr)
  ensures @same result.auxCount == a.auxCount && result.lgAuxArrInts == a.lgAuxArrInts && result.lgConfigK == a.lgConfigK && forall s int {arr(result.auxIntArr)[s]}: 0 <= s && s < len(a.auxIntArr) ==> arr(result.auxIntArr)[s] == arr(a.auxIntArr)[s]
func (*hllArrayImpl).copyCommon
  requires off(a.hllByteArr) == 0 && (a.auxHashMap != nil ==> off(a.auxHashMap.auxIntArr) == 0)
  ensures @own fresh(result.hllByteArr) && (a.auxHashMap != nil ==> fresh(result.auxHashMap) && fresh(result.auxHashMap.auxIntArr))
  ensures @slots len(result.hllByteArr) == len(a.hllByteArr) && forall s int {arr(result.hllByteArr)[s]}: 0 <= s && s < len(a.hllByteArr) ==> arr(result.hllByteArr)[s] == arr(a.hllByteArr)[s]
  ensures @same result.curMin == a.curMin && result.numAtCurMin == a.numAtCurMin && result.oooFrag == a.oooFrag && result.rebuildCurMinNumKxQ == a.rebuildCurMinNumKxQ && result.kxq0 === a.kxq0 && result.kxq1 === a.kxq1 && result.hipAccum === a.hipAccum && result.lgConfigK == a.lgConfigK && result.tgtHllType == a.tgtHllType && (result.auxHashMap == nil <==> a.auxHashMap == nil)
func (*couponListImpl).copyAs
  requires off(c.couponIntArr) == 0 && 4 <= c.lgConfigK && c.lgConfigK <= 21
  let d = dyn(result0, couponListImpl)
  ensures @own result1 == nil && typeis(result0, couponListImpl) && fresh(d) && fresh(d.couponIntArr)
  ensures @same d.couponCount == c.couponCount && d.lgCouponArrInts == c.lgCouponArrInts && d.lgConfigK == c.lgConfigK && d.tgtHllType == tgtHllType && len(d.couponIntArr) == len(c.couponIntArr) && forall s int {arr(d.couponIntArr)[s]}: 0 <= s && s < len(c.couponIntArr) ==> arr(d.couponIntArr)[s] == arr(c.couponIntArr)[s]
func (*couponHashSetImpl).copyAs
  requires off(c.couponIntArr) == 0 && 4 <= c.lgConfigK && c.lgConfigK <= 21
  let d = dyn(result0, couponHashSetImpl)
  ensures @own result1 == nil && typeis(result0, couponHashSetImpl) && fresh(d) && fresh(d.couponIntArr)
  ensures @same d.couponCount == c.couponCount && d.lgCouponArrInts == c.lgCouponArrInts && d.lgConfigK == c.lgConfigK && d.tgtHllType == tgtHllType && len(d.couponIntArr) == len(c.couponIntArr) && forall s int {arr(d.couponIntArr)[s]}: 0 <= s && s < len(c.couponIntArr) ==> arr(d.couponIntArr)[s] == arr(c.couponIntArr)[s]
