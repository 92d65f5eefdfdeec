package tuple
defaultprops P16

define tuCnt(a, n, k) = occ(a, 0, n, k)
define tuReach(a, lg) = forall s, j int {a[s], probe(a[s], lg, j)}: 0 <= s && s < pow2(lg) && a[s] != 0 && 0 <= j && j < pdist(a[s], lg, s) ==> a[probe(a[s], lg, j)] != 0
define tuDistinct(a, n) = forall k int {occ(a, 0, n, k)}: k != 0 ==> occ(a, 0, n, k) <= 1
define tuTabShape(t) = 1 <= t.lgCurSize && t.lgCurSize <= t.lgNomSize + 1 && t.lgNomSize <= 28 && len(t.entries) == pow2(t.lgCurSize) && off(t.entries) == 0 && t.rf <= 3
define tuTabBig(t) = 2 <= t.lgCurSize && 5 <= t.lgNomSize && t.lgNomSize <= 26 && (t.rf >= 1 || t.lgCurSize == t.lgNomSize + 1)
define tuTabCore(t) = tuTabShape(t) && tuReach(arr(t.entries, Hash), t.lgCurSize) && tuDistinct(arr(t.entries, Hash), len(t.entries)) \
   && t.numEntries == len(t.entries) - occ(arr(t.entries, Hash), 0, len(t.entries), 0)
define tuTabBelow(t) = forall s int {t.entries[s].Hash}: 0 <= s && s < len(t.entries) ==> t.entries[s].Hash < t.theta
define tuTabCap(lgc, lgn) = if lgc <= lgn then pow2(lgc) / 2 else (15 * pow2(lgc)) / 16
define tuTabOK(t) = tuTabCore(t) && tuTabBig(t) && tuTabBelow(t) && t.numEntries <= tuTabCap(t.lgCurSize, t.lgNomSize)
define tuRoomy(t) = t.numEntries + 1 < len(t.entries) && (t.lgCurSize > t.lgNomSize ==> t.numEntries + 1 <= tuTabCap(t.lgCurSize, t.lgNomSize)) && (t.lgCurSize <= t.lgNomSize ==> t.rf == 0)
define tuCard(t, k) = occ(arr(t.entries, Hash), 0, len(t.entries), k)
define tuOcard(t, k) = occ(old(arr(t.entries, Hash)), 0, old(len(t.entries)), k)
define tuSlotFree(t, index, key) = 0 <= index && index < len(t.entries) && t.entries[index].Hash == 0 && tuCard(t, key) == 0 \
   && forall j int {probe(key, t.lgCurSize, j)}: 0 <= j && j < pdist(key, t.lgCurSize, index) ==> t.entries[probe(key, t.lgCurSize, j)].Hash != 0

func Summary.Reset
  trusted resetting a summary changes only the summary itself, not the table
func Summary.Clone
  trusted cloning a summary changes nothing the table holds

func find
  requires 1 <= lgSize && lgSize <= 31 && len(entries) == pow2(lgSize)
  use probe0
  use probeS
  use pdistR
  use pdistU
  ensures @found result1 == nil ==> 0 <= result0 && result0 < len(entries) && entries[result0].Hash == key && key != 0
  ensures @free result1 == ErrKeyNotFound ==> 0 <= result0 && result0 < len(entries) && entries[result0].Hash == 0 \
     && forall j int {probe(key, lgSize, j)}: 0 <= j && j < pdist(key, lgSize, result0) ==> entries[probe(key, lgSize, j)].Hash != 0 && entries[probe(key, lgSize, j)].Hash != key
  ensures @full result1 == ErrKeyNotFoundAndNoEmptySlots ==> result0 == 0 && forall s int {entries[s].Hash}: 0 <= s && s < len(entries) && pdist(key, lgSize, s) >= 0 ==> entries[s].Hash != 0 && entries[s].Hash != key
  ensures @err result1 == nil || result1 == ErrKeyNotFound || result1 == ErrKeyNotFoundAndNoEmptySlots
  loop 1 invariant 0 <= index && index < len(entries) && loopIndex == probe(key, lgSize, 0) && pdist(key, lgSize, loopIndex) == 0 && stride == pstride(key, lgSize)
  loop 1 invariant forall j int {probe(key, lgSize, j)}: 0 <= j && j < pdist(key, lgSize, index) ==> entries[probe(key, lgSize, j)].Hash != 0 && entries[probe(key, lgSize, j)].Hash != key
  loop 1 apply probe0(key, lgSize)
  loop 1 apply pdistU(key, lgSize, 0)
  loop 1 apply pdistR(key, lgSize, index)
  loop 1 apply probeS(key, lgSize, pdist(key, lgSize, index))
  loop 1 apply pdistU(key, lgSize, pdist(key, lgSize, index) + 1)
  loop 1 apply probeC(key, lgSize)
  loop 1 decreases pow2(lgSize) - pdist(key, lgSize, index)


func computeCapacity
  requires lgCurSize <= 30
  realfloat
  ensures result == tuTabCap(lgCurSize, lgNomSize)

func consolidateNonEmpty
  requires 0 <= num && num < size && size <= len(entries) && off(entries) == 0
  requires num == size - occ(arr(entries, Hash), 0, size, 0)
  modifies entries[0..size]
  ensures @perm forall v int {occ(arr(entries, Hash), 0, size, v)}: occ(arr(entries, Hash), 0, size, v) == occ(old(arr(entries, Hash)), 0, size, v)
  ensures @front forall s int {entries[s].Hash}: 0 <= s && s < num ==> entries[s].Hash != 0
  ensures @front0 occ(arr(entries, Hash), 0, num, 0) == 0
  use occStore
  use occNone
  loop 1 invariant 0 <= i && i <= size
  loop 1 invariant forall s int {entries[s].Hash}: 0 <= s && s < i ==> entries[s].Hash != 0
  loop 1 apply occNone(arr(entries, Hash), 0, size, 0)
  loop 1 decreases size - i
  loop 2 invariant 0 <= i && i < j && (j <= size || i == size) && i <= num
  loop 2 invariant forall s int {entries[s].Hash}: 0 <= s && s < i ==> entries[s].Hash != 0
  loop 2 invariant forall s int {entries[s].Hash}: i <= s && s < j ==> entries[s].Hash == 0
  loop 2 invariant forall v int {occ(arr(entries, Hash), 0, size, v)}: occ(arr(entries, Hash), 0, size, v) == occ(old(arr(entries, Hash)), 0, size, v)
  loop 2 apply occNone(arr(entries, Hash), 0, i, 0)
  loop 2 apply occAll(arr(entries, Hash), i, size, 0)
  loop 2 apply occCat(arr(entries, Hash), 0, i, size, 0)
  loop 2 apply occCat(arr(entries, Hash), i, j, size, 0)
  loop 2 apply occCat(arr(entries, Hash), j, j+1, size, 0)
  loop 2 apply occBound(arr(entries, Hash), i, j, 0)
  loop 2 apply occBound(arr(entries, Hash), j+1, size, 0)
  loop 2 apply occBound(arr(entries, Hash), i, size, 0)
  loop 2 apply occNone(arr(entries, Hash), j, j+1, 0)
  loop 2 decreases size - j

  requires tuDistinct(arr(entries, Hash), size)
  use occAtU
  ensures @pair forall s int {entries[s].Hash}: 0 <= s && s < size && entries[s].Hash != 0 ==> entries[s].Summary == old(arr(entries, Summary))[occAt(old(arr(entries, Hash)), size, entries[s].Hash)]
  loop 2 invariant forall s int {entries[s].Hash}: 0 <= s && s < size && entries[s].Hash != 0 ==> entries[s].Summary == old(arr(entries, Summary))[occAt(old(arr(entries, Hash)), size, entries[s].Hash)]

func (*hashtable).resize
  requires tuTabShape(t) && t.lgCurSize <= t.lgNomSize
  requires @set tuDistinct(arr(t.entries, Hash), len(t.entries)) && t.numEntries == len(t.entries) - occ(arr(t.entries, Hash), 0, len(t.entries), 0)
  requires t.numEntries < len(t.entries) && (t.rf >= 1 ==> t.numEntries == pow2(t.lgCurSize) / 2 + 1)
  modifies t.entries, t.lgCurSize
  use occStore
  use occBound
  use occEmpty
  use occSnoc
  use occZeroArr
  use pdistR
  ensures @lg t.lgCurSize >= old(t.lgCurSize) && (t.rf == 0 ==> t.lgCurSize == old(t.lgCurSize))
  apply pow2mono(2, t.lgCurSize)
  ensures @inv tuTabCore(t) && fresh(t.entries) && (old(tuTabBelow(t)) ==> tuTabBelow(t)) && (old(tuTabBig(t) && tuTabBelow(t)) ==> tuTabOK(t))
  ensures @set forall k int {occ(arr(t.entries, Hash), 0, len(t.entries), k)}: k != 0 ==> occ(arr(t.entries, Hash), 0, len(t.entries), k) == occ(old(arr(t.entries, Hash)), 0, old(len(t.entries)), k)
  loop 1 invariant 0 <= i && i <= oldSize && len(newEntries) == pow2(lgNewSize) && off(newEntries) == 0 && ref(newEntries) != ref(t.entries)
  loop 1 invariant lgNewSize >= t.lgCurSize && lgNewSize <= t.lgNomSize + 1 && oldSize == pow2(t.lgCurSize) && pow2(lgNewSize) >= oldSize && (t.rf >= 1 ==> lgNewSize > t.lgCurSize && pow2(lgNewSize) >= 2 * oldSize)
  loop 1 invariant tuReach(arr(newEntries, Hash), lgNewSize)
  loop 1 invariant forall k int {occ(arr(newEntries, Hash), 0, len(newEntries), k)}: k != 0 ==> occ(arr(newEntries, Hash), 0, len(newEntries), k) == occ(arr(t.entries, Hash), 0, i, k)
  loop 1 invariant occ(arr(newEntries, Hash), 0, len(newEntries), 0) == len(newEntries) - i + occ(arr(t.entries, Hash), 0, i, 0)
  loop 1 invariant old(tuTabBelow(t)) ==> forall s int {newEntries[s].Hash}: 0 <= s && s < len(newEntries) ==> newEntries[s].Hash < t.theta
  loop 1 apply pow2mono(t.lgCurSize, lgNewSize)
  loop 1 apply occSnoc(arr(t.entries, Hash), 0, i, 0)
  loop 1 apply occSnoc(arr(t.entries, Hash), 0, i, t.entries[i].Hash)
  loop 1 apply occCat(arr(t.entries, Hash), 0, i, oldSize, t.entries[i].Hash)
  loop 1 apply occCat(arr(t.entries, Hash), i, i+1, oldSize, t.entries[i].Hash)
  loop 1 apply occPos(arr(t.entries, Hash), i, i+1, i)
  loop 1 apply occEmpty(arr(t.entries, Hash), 0, 0, 0)
  loop 1 apply occAll(arr(newEntries, Hash), 0, len(newEntries), 0)
  loop 1 apply occNone(head(1, arr(newEntries, Hash)), 0, len(newEntries), 0)
  loop 1 apply occPos(head(1, arr(newEntries, Hash)), 0, len(newEntries), index)
  loop 1 decreases oldSize - i
  use occAtU
  ensures @pair forall s int {t.entries[s].Hash}: 0 <= s && s < len(t.entries) && t.entries[s].Hash != 0 ==> t.entries[s].Summary == old(arr(t.entries, Summary))[occAt(old(arr(t.entries, Hash)), old(len(t.entries)), t.entries[s].Hash)]
  loop 1 invariant forall s int {newEntries[s].Hash}: 0 <= s && s < len(newEntries) && newEntries[s].Hash != 0 ==> newEntries[s].Summary == arr(t.entries, Summary)[occAt(arr(t.entries, Hash), len(t.entries), newEntries[s].Hash)]

func (*hashtable).rebuild
  timeout 60
  requires tuTabCore(t) && tuTabBig(t) && tuTabBelow(t) && t.lgCurSize == t.lgNomSize + 1 && t.numEntries > pow2(t.lgNomSize) && t.numEntries < len(t.entries)
  modifies t.entries, t.theta, t.numEntries, t.entries[*]
  use occStore
  use occBound
  use occEmpty
  use occSnoc
  use occZeroArr
  use pdistR
  use occPos
  let n = pow2(t.lgNomSize + 1)
  ensures @inv tuTabOK(t) && fresh(t.entries)
  ensures @theta t.theta < old(t.theta) && t.theta > 0
  ensures @count t.numEntries == pow2(t.lgNomSize)
  ensures @set forall k int {occ(arr(t.entries, Hash), 0, len(t.entries), k)}: k != 0 ==> occ(arr(t.entries, Hash), 0, len(t.entries), k) == (if k < t.theta then occ(old(arr(t.entries, Hash)), 0, old(len(t.entries)), k) else 0)
  loop 1 invariant 0 <= i && i <= nominalSize && off(t.entries) == 0 && len(t.entries) == size && ref(oldEntries) != ref(t.entries) && off(oldEntries) == 0 && len(oldEntries) == size
  let m = old(t.numEntries)
  loop 1 invariant occ(arr(oldEntries, Hash), 0, m, 0) == 0
  loop 1 invariant forall s int {oldEntries[s].Hash}: 0 <= s && s < m ==> oldEntries[s].Hash != 0
  loop 1 invariant forall k int {occ(old(arr(t.entries, Hash)), 0, size, k)}: occ(arr(oldEntries, Hash), 0, size, k) == occ(old(arr(t.entries, Hash)), 0, size, k)
  loop 1 invariant t.theta == oldEntries[nominalSize].Hash && t.theta > 0 && t.theta < old(t.theta) && occ(arr(oldEntries, Hash), 0, size, oldEntries[nominalSize].Hash) <= 1
  loop 1 invariant forall s int {oldEntries[s].Hash}: 0 <= s && s < nominalSize ==> oldEntries[s].Hash < oldEntries[nominalSize].Hash
  loop 1 invariant forall s int {oldEntries[s].Hash}: m <= s && s < size ==> oldEntries[s].Hash == 0
  loop 1 invariant forall s int {oldEntries[s].Hash}: nominalSize <= s && s < size ==> oldEntries[s].Hash >= oldEntries[nominalSize].Hash || oldEntries[s].Hash == 0
  loop 1 invariant forall k int {occ(arr(oldEntries, Hash), 0, nominalSize, k)}: k != 0 ==> occ(arr(oldEntries, Hash), 0, nominalSize, k) == (if k < t.theta then occ(old(arr(t.entries, Hash)), 0, size, k) else 0)
  loop 1 invariant tuReach(arr(t.entries, Hash), t.lgCurSize)
  loop 1 invariant forall k int {occ(arr(t.entries, Hash), 0, len(t.entries), k)}: k != 0 ==> occ(arr(t.entries, Hash), 0, len(t.entries), k) == occ(arr(oldEntries, Hash), 0, i, k)
  loop 1 invariant occ(arr(t.entries, Hash), 0, len(t.entries), 0) == len(t.entries) - i
  loop 1 invariant forall s int {t.entries[s].Hash}: 0 <= s && s < len(t.entries) ==> t.entries[s].Hash < t.theta
  loop 1 apply occSnoc(arr(oldEntries, Hash), 0, i, 0)
  loop 1 apply occSnoc(arr(oldEntries, Hash), 0, i, oldEntries[i].Hash)
  loop 1 apply occCat(arr(oldEntries, Hash), 0, i, size, oldEntries[i].Hash)
  loop 1 apply occCat(arr(oldEntries, Hash), i, i+1, size, oldEntries[i].Hash)
  loop 1 apply occPos(arr(oldEntries, Hash), i, i+1, i)
  loop 1 apply occAll(arr(t.entries, Hash), 0, len(t.entries), 0)
  loop 1 apply occNone(head(1, arr(t.entries, Hash)), 0, len(t.entries), 0)
  loop 1 apply occPos(head(1, arr(t.entries, Hash)), 0, len(t.entries), index)
  loop 1 apply occNever(arr(oldEntries, Hash), 0, m, 0)
  loop 1 apply occCat(arr(oldEntries, Hash), 0, m, size, 0)
  loop 1 apply occCat(arr(oldEntries, Hash), 0, nominalSize, m, 0)
  loop 1 apply occFull(arr(oldEntries, Hash), m, size, 0)
  loop 1 apply occUniq(arr(oldEntries, Hash), 0, size, nominalSize)
  loop 1 apply occPos(arr(oldEntries, Hash), 0, size, nominalSize)
  use occSplitLt
  use occWit
  loop 1 decreases nominalSize - i

  ensures @pair forall s int {t.entries[s].Hash}: 0 <= s && s < len(t.entries) && t.entries[s].Hash != 0 ==> t.entries[s].Summary == old(arr(t.entries, Summary))[occAt(old(arr(t.entries, Hash)), old(len(t.entries)), t.entries[s].Hash)]
  loop 1 invariant forall s int {oldEntries[s].Hash}: 0 <= s && s < nominalSize ==> oldEntries[s].Summary == old(arr(t.entries, Summary))[occAt(old(arr(t.entries, Hash)), old(len(t.entries)), oldEntries[s].Hash)]
  loop 1 invariant forall s int {t.entries[s].Hash}: 0 <= s && s < len(t.entries) && t.entries[s].Hash != 0 ==> t.entries[s].Summary == old(arr(t.entries, Summary))[occAt(old(arr(t.entries, Hash)), old(len(t.entries)), t.entries[s].Hash)]
  use occAtU

func (*hashtable).Find
  requires tuTabShape(t) && tuReach(arr(t.entries, Hash), t.lgCurSize) && key != 0
  use pdistR
  use occNone
  use occWit
  use occPos
  use occBound
  ensures @found result1 == nil ==> tuCard(t, key) >= 1 && 0 <= result0 && result0 < len(t.entries) && t.entries[result0].Hash == key
  ensures @free result1 == ErrKeyNotFound ==> tuSlotFree(t, result0, key)
  ensures @full result1 == ErrKeyNotFoundAndNoEmptySlots ==> tuCard(t, 0) == 0
  ensures @err result1 == nil || result1 == ErrKeyNotFound || result1 == ErrKeyNotFoundAndNoEmptySlots

func (*hashtable).Insert
  requires tuTabCore(t) && entry.Hash != 0 && tuSlotFree(t, index, entry.Hash)
  requires (tuTabOK(t) && entry.Hash < t.theta) || tuRoomy(t)
  modifies t.entries, t.theta, t.numEntries, t.lgCurSize, t.entries[*]
  use occStore
  use occWit
  use occBound
  use pdistR
  apply pow2mono(6, t.lgCurSize)
  apply pow2mono(2, t.lgCurSize)
  use occPos
  ensures @inv old(tuTabOK(t) && entry.Hash < t.theta) ==> tuTabOK(t)
  ensures @mem ref(t.entries) == old(ref(t.entries)) || fresh(t.entries)
  ensures @count t.theta == old(t.theta) ==> t.numEntries == old(t.numEntries) + 1
  ensures @theta t.theta <= old(t.theta) && (t.theta < old(t.theta) ==> t.theta > 0 && t.numEntries == pow2(t.lgNomSize))
  ensures @set old(tuTabOK(t) && entry.Hash < t.theta) ==> forall k int {tuCard(t, k)}: k != 0 ==> tuCard(t, k) == (if k < t.theta then tuOcard(t, k) + (if k == entry.Hash then 1 else 0) else 0)
  ensures @rinv old(tuRoomy(t)) ==> tuTabCore(t) && t.theta == old(t.theta) && t.lgCurSize == old(t.lgCurSize) && t.numEntries == old(t.numEntries) + 1
  ensures @rset old(tuRoomy(t)) ==> forall k int {tuCard(t, k)}: k != 0 ==> tuCard(t, k) == tuOcard(t, k) + (if k == entry.Hash then 1 else 0)
  ensures @rbelow old(tuRoomy(t) && tuTabBelow(t)) && entry.Hash < t.theta ==> tuTabBelow(t)
  use occAtU
  use occAtStore
  ensures @pair forall s int {t.entries[s].Hash}: 0 <= s && s < len(t.entries) && t.entries[s].Hash != 0 && t.entries[s].Hash != entry.Hash ==> t.entries[s].Summary == old(arr(t.entries, Summary))[occAt(old(arr(t.entries, Hash)), old(len(t.entries)), t.entries[s].Hash)]
  ensures @new forall s int {t.entries[s].Hash}: 0 <= s && s < len(t.entries) && t.entries[s].Hash == entry.Hash ==> t.entries[s].Summary == entry.Summary

func (*hashtable).Trim
  requires tuTabOK(t)
  modifies t.entries, t.theta, t.numEntries, t.entries[*]
  use occBound
  use occWit
  apply pow2mono(t.lgCurSize, t.lgNomSize)
  apply pow2mono(6, t.lgNomSize + 1)
  use occNone
  use occPos
  ensures @inv tuTabOK(t) && t.numEntries <= pow2(t.lgNomSize)
  ensures @theta t.theta <= old(t.theta) && (t.theta < old(t.theta) ==> t.theta > 0 && t.numEntries == pow2(t.lgNomSize))
  ensures @set forall k int {tuCard(t, k)}: k != 0 ==> tuCard(t, k) == (if k < t.theta then tuOcard(t, k) else 0)
  use occAtU
  ensures @pair forall s int {t.entries[s].Hash}: 0 <= s && s < len(t.entries) && t.entries[s].Hash != 0 ==> t.entries[s].Summary == old(arr(t.entries, Summary))[occAt(old(arr(t.entries, Hash)), old(len(t.entries)), t.entries[s].Hash)]

func startingSubMultiple
  requires lgTgt <= 30
  ensures lgTgt >= lgMin ==> lgMin <= result && result <= lgTgt
  ensures lgRf == 0 && lgTgt >= lgMin ==> result == lgTgt
  ensures lgTgt < lgMin ==> result == lgMin

func startingThetaFromP
  functional
  realfloat
  requires p > 0.0
  ensures result <= theta.MaxTheta && (p == 1.0 ==> result == theta.MaxTheta)

func (*hashtable).Reset
  assumesafe the summaries of retained keys are not nil
  requires tuTabOK(t) && t.p > 0.0
  modifies t.entries, t.theta, t.numEntries, t.lgCurSize, t.isEmpty, t.entries[*]
  use occZeroArr
  use occAll
  use occNone
  use occBound
  loop 1 invariant 0 <= i && i <= len(t.entries) && len(t.entries) == pow2(t.lgCurSize) && off(t.entries) == 0
  loop 1 invariant forall s int {t.entries[s].Hash}: 0 <= s && s < i ==> t.entries[s].Hash == 0
  loop 1 apply pow2mono(t.lgCurSize, t.lgNomSize)
  apply pow2mono(5, t.lgCurSize)
  apply occAll(arr(t.entries, Hash), 0, len(t.entries), 0)
  use occWit
  ensures @inv t.theta > 0 ==> tuTabOK(t)
  ensures @empty t.isEmpty && t.numEntries == 0 && forall k int {tuCard(t, k)}: k != 0 ==> tuCard(t, k) == 0
  ensures t.theta == startingThetaFromP(t.p)


// ---- update sketches
func UpdatableSummary.Update
  trusted folding a value into a summary changes only the summary itself, not the table

func (*hashtable).HashInt64AndScreen
  props P15 P16
  mode bv
  use lsZero
  ensures @murmur result1 == nil ==> result0 == fin1(t.seed, t.seed, uint64(data), bvu(0, 64), bvu(8, 64)) >> 1
  modifies t.isEmpty
  ensures @screen result1 == nil ==> 0 < result0 && result0 < t.theta
  ensures @full result1 == nil || result1 == ErrHashExceedsTheta || result1 == ErrZeroHashValue
  ensures !t.isEmpty
func (*hashtable).HashInt32AndScreen
  props P15 P16
  mode bv
  use isZero
  use leiDef
  ensures @murmur result1 == nil ==> result0 == fin1(t.seed, t.seed, uint64(uint32(data)), bvu(0, 64), bvu(4, 64)) >> 1
  modifies t.isEmpty
  ensures @screen result1 == nil ==> 0 < result0 && result0 < t.theta
  ensures @full result1 == nil || result1 == ErrHashExceedsTheta || result1 == ErrZeroHashValue
  ensures !t.isEmpty
func (*hashtable).HashStringAndScreen
  modifies t.isEmpty
  ensures @screen result1 == nil ==> 0 < result0 && result0 < t.theta
  ensures @full result1 == nil || result1 == ErrHashExceedsTheta || result1 == ErrZeroHashValue
  ensures !t.isEmpty
func (*hashtable).HashBytesAndScreen
  props P15 P16
  mode bv
  ensures @murmur result1 == nil ==> result0 == fin1(bs1(arr(data), off(data), len(data) >> 4, t.seed), bs2(arr(data), off(data), len(data) >> 4, t.seed), le(arr(data), off(data) + ((len(data) >> 4)<<4), (if (len(data) & 15) > 8 then 8 else (len(data) & 15))), le(arr(data), off(data) + ((len(data) >> 4)<<4) + 8, (if (len(data) & 15) > 8 then (len(data) & 15) - 8 else 0)), uint64(len(data))) >> 1
  modifies t.isEmpty
  ensures @screen result1 == nil ==> 0 < result0 && result0 < t.theta
  ensures @full result1 == nil || result1 == ErrHashExceedsTheta || result1 == ErrZeroHashValue
  ensures !t.isEmpty

define tuH(t) = arr(t.entries, Hash)
define tuS(t) = arr(t.entries, Summary)
define tuInv(s) = ref(s.table) > 0 && tuTabOK(s.table) && s.newSummary != nil
// every other retained key keeps its summary
define tuOthers(t, h) = forall i int {t.entries[i].Hash}: 0 <= i && i < len(t.entries) && t.entries[i].Hash != 0 && t.entries[i].Hash != h ==> t.entries[i].Summary == old(tuS(t))[occAt(old(tuH(t)), old(len(t.entries)), t.entries[i].Hash)]
// the updated key carries the fold of the value into its earlier summary, or into a new one
define tuFolded(s, t, h, v) = forall i int {t.entries[i].Hash}: 0 <= i && i < len(t.entries) && t.entries[i].Hash == h ==> t.entries[i].Summary == (if old(tuCard(t, h)) >= 1 then (if s.updateFunc != nil then s.updateFunc(old(tuS(t))[occAt(old(tuH(t)), old(len(t.entries)), h)], v) else old(tuS(t))[occAt(old(tuH(t)), old(len(t.entries)), h)]) else (if s.updateFunc != nil then s.updateFunc(s.newSummary(), v) else s.newSummary()))
define tuSet(t, h) = forall k int {tuCard(t, k)}: k != 0 ==> tuCard(t, k) == (if k < t.theta then (if k == h then 1 else old(tuCard(t, k))) else 0)
define tuTheta(t) = t.theta <= old(t.theta) && (t.theta < old(t.theta) ==> t.numEntries == pow2(t.lgNomSize))
func (*UpdateSketch).insertOrUpdate
  requires tuInv(s) && 0 < hash && hash < s.table.theta
  requires @new isNew ==> tuSlotFree(s.table, index, hash)
  requires @old !isNew ==> 0 <= index && index < len(s.table.entries) && s.table.entries[index].Hash == hash
  assumesafe the summaries of retained keys are not nil
  modifies s.table.*, s.table.entries[*]
  use occAtU
  use occPos
  use occBound
  use occNone
  ensures @inv tuInv(s) && s.table.isEmpty == old(s.table.isEmpty)
  ensures @theta tuTheta(s.table)
  ensures @set tuSet(s.table, hash)
  ensures @others tuOthers(s.table, hash)
  ensures @folded tuFolded(s, s.table, hash, value)

define tuUpd(s, err, v) = tuInv(s) && !s.table.isEmpty && tuTheta(s.table) \
  && (err != nil ==> s.table.theta == old(s.table.theta) && s.table.numEntries == old(s.table.numEntries) && ref(s.table.entries) == old(ref(s.table.entries)) && tuH(s.table) == old(tuH(s.table)) && tuS(s.table) == old(tuS(s.table)))
define tuUpdH(s, err, v) = err == nil ==> exists h int: 0 < h && h < old(s.table.theta) && tuSet(s.table, h) && tuOthers(s.table, h) && tuFolded(s, s.table, h, v)
func (*UpdateSketch).UpdateInt64
  requires tuInv(s)
  modifies s.table.*, s.table.entries[*]
  ensures @upd tuUpd(s, result, value)
  ensures @fold tuUpdH(s, result, value)
func (*UpdateSketch).UpdateInt32
  requires tuInv(s)
  modifies s.table.*, s.table.entries[*]
  ensures @upd tuUpd(s, result, value)
  ensures @fold tuUpdH(s, result, value)
func (*UpdateSketch).UpdateBytes
  requires tuInv(s)
  modifies s.table.*, s.table.entries[*]
  ensures @upd tuUpd(s, result, value)
  ensures @fold tuUpdH(s, result, value)
func (*UpdateSketch).UpdateString
  requires tuInv(s)
  modifies s.table.*, s.table.entries[*]
  ensures @empty key == "" ==> result == ErrUpdateEmptyString && s.table.isEmpty == old(s.table.isEmpty)
  ensures @upd key != "" ==> tuUpd(s, result, value)
  ensures @fold key != "" ==> tuUpdH(s, result, value)
func (*UpdateSketch).Trim
  requires tuInv(s)
  modifies s.table.*, s.table.entries[*]
  ensures @inv tuInv(s) && s.table.numEntries <= pow2(s.table.lgNomSize) && s.table.theta <= old(s.table.theta)
  ensures @set forall k int {tuCard(s.table, k)}: k != 0 ==> tuCard(s.table, k) == (if k < s.table.theta then old(tuCard(s.table, k)) else 0)
  ensures @others tuOthers(s.table, 0)
func (*UpdateSketch).IsEmpty
  requires ref(s.table) > 0
  ensures result == s.table.isEmpty
func (*UpdateSketch).Theta64
  requires ref(s.table) > 0
  ensures result == (if s.table.isEmpty then theta.MaxTheta else s.table.theta)
func (*UpdateSketch).NumRetained
  requires ref(s.table) > 0
  ensures result == s.table.numEntries
func newHashtable
  requires lgNomSize <= 28 && lgCurSize <= lgNomSize + 1 && rf <= 3
  use occZeroArr
  use occNone
  apply occAll(constarr(int, 0), 0, pow2(lgCurSize), 0)
  apply pow2mono(0, lgCurSize)
  apply pow2mono(1, lgCurSize)
  apply pow2mono(5, lgCurSize)
  ensures @inv fresh(result) && result.isEmpty == isEmpty && result.theta == theta && result.numEntries == 0 && result.p === p && result.seed == seed && result.lgNomSize == lgNomSize && result.rf == rf && result.lgCurSize == lgCurSize
  ensures @core lgCurSize >= 1 ==> tuTabCore(result) && fresh(result.entries)
  ensures @none lgCurSize == 0 ==> len(result.entries) == 0
  ensures @big lgCurSize >= 2 && 5 <= lgNomSize && lgNomSize <= 26 && (rf >= 1 || lgCurSize == lgNomSize + 1) && theta > 0 ==> tuTabOK(result)
  ensures @below theta > 0 ==> tuTabBelow(result)
  ensures @set forall k int {tuCard(result, k)}: k != 0 ==> tuCard(result, k) == 0


// ---- set operations (an operand is seen through the Sketch interface only)
func Sketch.IsEmpty
  pureuf sketches are not changed while they are operands
func Sketch.IsOrdered
  pureuf sketches are not changed while they are operands
func Sketch.Theta64
  pureuf sketches are not changed while they are operands
func Sketch.NumRetained
  pureuf sketches are not changed while they are operands
func Sketch.SeedHash
  pureuf sketches are not changed while they are operands
func Sketch.All
  pureuf sketches are not changed while they are operands
func Policy.Apply
  trusted policies change only the summary they are given, not the sketch or the table
define tuSkN(s) = seqlen(s.All())
define tuSkA(s) = seqarr(s.All())
define tuSkHas(s, k) = occ(tuSkA(s), 0, tuSkN(s), k)
define tuSkOK(s) = s != nil && s.All() != nil && s.NumRetained() == tuSkN(s) && tuSkN(s) <= 134217727 && 0 < s.Theta64() && s.Theta64() <= theta.MaxTheta && (s.IsEmpty() ==> tuSkN(s) == 0) \
  && (forall i int {tuSkA(s)[i]}: 0 <= i && i < tuSkN(s) ==> 0 < tuSkA(s)[i] && tuSkA(s)[i] < s.Theta64()) \
  && (forall k int {tuSkHas(s, k)}: tuSkHas(s, k) <= 1) \
  && (s.IsOrdered() ==> forall i, j int {tuSkA(s)[i], tuSkA(s)[j]}: 0 <= i && i < j && j < tuSkN(s) ==> tuSkA(s)[i] < tuSkA(s)[j])
define tuUnOK(u) = ref(u.hashtable) > 0 && tuTabOK(u.hashtable) && 0 < u.theta && u.theta <= u.hashtable.theta && (u.hashtable.isEmpty ==> u.hashtable.numEntries == 0)
define tuUnHas(u, k) = if k < u.theta then tuCard(u.hashtable, k) else 0
define tuCsHas(r, k) = occ(arr(r.entries, Hash), 0, len(r.entries), k)
define tuAMinusB(a, b, th, k) = if k < th && tuSkHas(a, k) >= 1 && tuSkHas(b, k) == 0 then 1 else 0
define tuInTab(t) = ref(t) > 0 && 0 < t.theta && t.theta <= theta.MaxTheta && (t.numEntries > 0 ==> tuTabCore(t) && t.numEntries < 134217728 && t.numEntries < len(t.entries)) && tuTabBelow(t) && (t.numEntries == 0 ==> len(t.entries) == 0) && (t.isEmpty ==> t.numEntries == 0 && t.theta == theta.MaxTheta) && off(t.entries) == 0
define tuInOK(i) = tuInTab(i.hashtable) && (!i.isValid ==> i.hashtable.numEntries == 0 && i.hashtable.theta == theta.MaxTheta)
func (*Union).Update
  assumesafe the summaries of retained keys are not nil, cloning returns a summary of the same type, and a policy or merge function is given
  requires tuUnOK(u) && tuSkOK(sketch)
  modifies u.theta, u.hashtable.*, u.hashtable.entries[*]
  use occBound
  use occPos
  use occTail
  use occEmpty
  ensures @inv tuUnOK(u)
  ensures @seed !sketch.IsEmpty() && sketch.SeedHash() != seedHashOf(u.hashtable.seed) ==> result != nil
  ensures @reject result != nil ==> u.theta == old(u.theta) && forall k int {tuUnHas(u, k)}: k != 0 ==> tuUnHas(u, k) == old(tuUnHas(u, k))
  ensures @empty sketch.IsEmpty() ==> result == nil && u.theta == old(u.theta) && u.hashtable.isEmpty == old(u.hashtable.isEmpty)
  ensures @nonempty result == nil && !sketch.IsEmpty() ==> !u.hashtable.isEmpty
  ensures @theta result == nil && !sketch.IsEmpty() ==> u.theta <= mn(old(u.theta), sketch.Theta64())
  ensures @trim result == nil && !sketch.IsEmpty() && u.theta < mn(old(u.theta), sketch.Theta64()) ==> u.hashtable.numEntries >= pow2(u.hashtable.lgNomSize) && u.theta == u.hashtable.theta
  ensures @set result == nil ==> forall k int {tuUnHas(u, k)}: k != 0 && k < u.theta ==> tuUnHas(u, k) == (if old(tuUnHas(u, k)) == 1 || tuSkHas(sketch, k) == 1 then 1 else 0)
  loop 1 invariant 0 <= rangepos && rangepos <= tuSkN(sketch) && (ref(u.hashtable.entries) == old(ref(u.hashtable.entries)) || fresh(u.hashtable.entries))
  loop 1 apply occSnocAll(tuSkA(sketch), 0, head(1, rangepos))
  loop 1 invariant tuTabOK(u.hashtable) && u.hashtable.theta <= entry(u.hashtable.theta) && u.hashtable.seed == old(u.hashtable.seed) && !u.hashtable.isEmpty && u.hashtable.lgNomSize == old(u.hashtable.lgNomSize)
  loop 1 invariant u.hashtable.theta < old(u.hashtable.theta) ==> u.hashtable.numEntries >= pow2(u.hashtable.lgNomSize)
  loop 1 invariant forall k int {tuCard(u.hashtable, k)}: k != 0 && k < u.theta && k < u.hashtable.theta ==> tuCard(u.hashtable, k) == (if old(tuCard(u.hashtable, k)) >= 1 || occ(tuSkA(sketch), 0, rangepos, k) >= 1 then 1 else 0)
  loop 1 invariant forall k int {tuCard(u.hashtable, k)}: k != 0 && tuCard(u.hashtable, k) >= 1 ==> old(tuCard(u.hashtable, k)) >= 1 || occ(tuSkA(sketch), 0, rangepos, k) >= 1
func NewCompactSketch
  assumesafe the summaries of retained keys are not nil, cloning returns a summary of the same type, and a policy or merge function is given
  requires tuSkOK(other)
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  ensures @inv result1 == nil ==> fresh(result0) && result0.isEmpty == other.IsEmpty() && result0.theta == other.Theta64() && result0.seedHash == other.SeedHash() && (result0.isOrdered <==> other.IsOrdered() || ordered)
  ensures @size result1 == nil ==> len(result0.entries) == other.NumRetained()
  ensures @set result1 == nil ==> forall k int {tuCsHas(result0, k)}: tuCsHas(result0, k) == tuSkHas(other, k)
  loop 1 invariant 0 <= rangepos && rangepos <= tuSkN(other) && off(entries) == 0 && len(entries) == rangepos && (fresh(entries) || (cap(entries) == 0 && len(entries) == 0))
  loop 1 invariant forall i int {entries[i].Hash}: 0 <= i && i < rangepos ==> entries[i].Hash == tuSkA(other)[i]
func newCompactSketch
  ensures fresh(result) && result.isEmpty == isEmpty && result.seedHash == seedHash && result.theta == thetaVal && ref(result.entries) == ref(entries) && len(result.entries) == len(entries) && off(result.entries) == off(entries) && (result.isOrdered <==> isOrdered || len(entries) <= 1)
func computeSortBased
  assumesafe the summaries of retained keys are not nil, cloning returns a summary of the same type, and a policy or merge function is given
  requires tuSkOK(a) && tuSkOK(b)
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  use occMonoT
  ensures @fresh fresh(result) || (cap(result) == 0 && len(result) == 0)
  ensures off(result) == 0
  ensures @off len(result) <= a.NumRetained()
  ensures @set forall k int {occ(arr(result, Hash), 0, len(result), k)}: occ(arr(result, Hash), 0, len(result), k) == tuAMinusB(a, b, theta, k)
  loop 1 invariant 0 <= rangepos && rangepos <= tuSkN(b) && fresh(bEntries)
  loop 1 invariant forall k int {has(bEntries, k)}: has(bEntries, k) <==> occ(tuSkA(b), 0, rangepos, k) >= 1
  loop 1 apply occSnocAll(tuSkA(b), 0, head(1, rangepos))
  loop 2 invariant 0 <= rangepos && rangepos <= tuSkN(a) && off(entries) == 0 && len(entries) <= rangepos && (fresh(entries) || (cap(entries) == 0 && len(entries) == 0))
  loop 2 invariant forall k int {occ(arr(entries, Hash), 0, len(entries), k)}: occ(arr(entries, Hash), 0, len(entries), k) == (if k < theta && tuSkHas(b, k) == 0 then occ(tuSkA(a), 0, rangepos, k) else 0)
  loop 2 apply occAppend(head(2, arr(entries, Hash)), arr(entries, Hash), head(2, len(entries)), tuSkA(a)[head(2, rangepos)])
  loop 2 apply occPushAll(head(2, arr(entries, Hash)), 0, head(2, len(entries)), tuSkA(a)[head(2, rangepos)])
  loop 2 apply occSnocAll(tuSkA(a), 0, head(2, rangepos))
func computeHashBased
  assumesafe the summaries of retained keys are not nil, cloning returns a summary of the same type, and a policy or merge function is given
  requires tuSkOK(a) && tuSkOK(b) && b.NumRetained() > 0 && 0 < thetaVal
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  use occTail
  ensures @noerr result1 == nil
  ensures @fresh fresh(result0) || (cap(result0) == 0 && len(result0) == 0)
  ensures off(result0) == 0
  ensures @off len(result0) <= a.NumRetained()
  ensures @set forall k int {occ(arr(result0, Hash), 0, len(result0), k)}: occ(arr(result0, Hash), 0, len(result0), k) == tuAMinusB(a, b, thetaVal, k)
  loop 1 invariant 0 <= rangepos && rangepos <= tuSkN(b) && ref(table) > 0 && fresh(table) && fresh(table.entries) && tabCore(table) && table.lgCurSize == lgSize && table.lgNomSize == lgSize && table.rf == 0 && table.numEntries <= rangepos
  loop 1 invariant forall k int {card(table, k)}: k != 0 ==> card(table, k) == (if k < thetaVal then occ(tuSkA(b), 0, rangepos, k) else 0)
  loop 1 apply occSnocAll(tuSkA(b), 0, head(1, rangepos))
  loop 1 apply occNone(head(1, arr(table.entries)), 0, len(table.entries), 0)
  loop 1 apply occOnce(tuSkA(b), rangepos, tuSkN(b))
  loop 2 invariant arr(table.entries) == entry(arr(table.entries)) && card(table, 0) >= 1
  loop 2 invariant forall k int {card(table, k)}: k != 0 ==> card(table, k) == (if k < thetaVal then tuSkHas(b, k) else 0)
  loop 2 invariant 0 <= rangepos && rangepos <= tuSkN(a) && ref(entries) != ref(table.entries) && off(entries) == 0 && len(entries) <= rangepos && (fresh(entries) || (cap(entries) == 0 && len(entries) == 0))
  loop 2 invariant forall k int {occ(arr(entries, Hash), 0, len(entries), k)}: !(k < thetaVal && tuSkHas(b, k) == 0) ==> occ(arr(entries, Hash), 0, len(entries), k) == 0
  loop 2 invariant forall k int {occ(arr(entries, Hash), 0, len(entries), k)}: k < thetaVal && tuSkHas(b, k) == 0 ==> occ(arr(entries, Hash), 0, len(entries), k) == occ(tuSkA(a), 0, rangepos, k)
  loop 2 apply occAppend(head(2, arr(entries, Hash)), arr(entries, Hash), head(2, len(entries)), tuSkA(a)[head(2, rangepos)])
  loop 2 apply occPushAll(head(2, arr(entries, Hash)), 0, head(2, len(entries)), tuSkA(a)[head(2, rangepos)])
  loop 2 apply occSnocAll(tuSkA(a), 0, head(2, rangepos))
func ANotB
  assumesafe the summaries of retained keys are not nil, cloning returns a summary of the same type, and a policy or merge function is given
  timeout 60
  requires tuSkOK(a) && tuSkOK(b)
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  use occMonoT
  let th = if a.IsEmpty() || (a.NumRetained() > 0 && b.IsEmpty()) then a.Theta64() else mn(a.Theta64(), b.Theta64())
  ensures @seed result1 == nil && !a.IsEmpty() && !(a.NumRetained() > 0 && b.IsEmpty()) ==> a.SeedHash() == seedHashOf(seed) && b.SeedHash() == seedHashOf(seed)
  ensures @new result1 == nil ==> fresh(result0) && result0.theta == th
  ensures @set result1 == nil ==> forall k int {tuCsHas(result0, k)}: tuCsHas(result0, k) == tuAMinusB(a, b, th, k)
  ensures @empty result1 == nil ==> (result0.isEmpty <==> a.IsEmpty() || (len(result0.entries) == 0 && result0.theta == theta.MaxTheta))
  use occNone
  loop 1 invariant 0 <= rangepos && rangepos <= tuSkN(a) && off(entries) == 0 && len(entries) <= rangepos && (fresh(entries) || (cap(entries) == 0 && len(entries) == 0))
  loop 1 invariant forall k int {occ(arr(entries, Hash), 0, len(entries), k)}: occ(arr(entries, Hash), 0, len(entries), k) == (if k < mn(a.Theta64(), b.Theta64()) then occ(tuSkA(a), 0, rangepos, k) else 0)
  loop 1 apply occAppend(head(1, arr(entries, Hash)), arr(entries, Hash), head(1, len(entries)), tuSkA(a)[head(1, rangepos)])
  loop 1 apply occPushAll(head(1, arr(entries, Hash)), 0, head(1, len(entries)), tuSkA(a)[head(1, rangepos)])
  loop 1 apply occSnocAll(tuSkA(a), 0, head(1, rangepos))
func (*Intersection).Update
  assumesafe the summaries of retained keys are not nil, cloning returns a summary of the same type, and a policy or merge function is given
  timeout 60
  requires tuInOK(i) && tuSkOK(sketch)
  modifies i.isValid, i.hashtable, i.hashtable.*, i.hashtable.entries[*]
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  use occTail
  let t0 = i.hashtable
  ensures @seed !old(t0.isEmpty) && !sketch.IsEmpty() && sketch.SeedHash() != seedHashOf(old(t0.seed)) ==> result != nil
  ensures @noop old(t0.isEmpty) ==> result == nil && unchanged(i.hashtable, i.isValid, i.hashtable.isEmpty, i.hashtable.theta)
  ensures @inva result == nil ==> ref(i.hashtable) > 0 && 0 < i.hashtable.theta && i.hashtable.theta <= theta.MaxTheta
  ensures @invb result == nil && i.hashtable.numEntries > 0 ==> tuTabCore(i.hashtable) && i.hashtable.numEntries < 134217728 && i.hashtable.numEntries < len(i.hashtable.entries)
  ensures @invc0 result == nil && i.hashtable.numEntries == 0 ==> tuTabBelow(i.hashtable)
  ensures @invc result == nil && i.hashtable.numEntries > 0 ==> tuTabBelow(i.hashtable)
  ensures @invd result == nil && i.hashtable.numEntries == 0 ==> len(i.hashtable.entries) == 0
  ensures @inve result == nil && i.hashtable.isEmpty ==> i.hashtable.numEntries == 0 && i.hashtable.theta == theta.MaxTheta
  ensures @invf result == nil ==> off(i.hashtable.entries) == 0
  ensures @invg result == nil && !i.isValid ==> i.hashtable.numEntries == 0 && i.hashtable.theta == theta.MaxTheta
  ensures @valid result == nil ==> old(t0.isEmpty) || i.isValid
  ensures @seedkept result == nil ==> i.hashtable.seed == old(t0.seed)
  ensures @theta result == nil && !old(t0.isEmpty) ==> i.hashtable.theta == (if sketch.IsEmpty() then theta.MaxTheta else mn(old(t0.theta), sketch.Theta64()))
  ensures @empty result == nil && !old(t0.isEmpty) && sketch.IsEmpty() ==> i.hashtable.isEmpty
  ensures @set result == nil && !old(t0.isEmpty) ==> forall k int {tuCard(i.hashtable, k)}: k != 0 ==> tuCard(i.hashtable, k) == (if k < i.hashtable.theta && (old(i.isValid) ==> old(tuCard(i.hashtable, k)) >= 1) && tuSkHas(sketch, k) >= 1 then 1 else 0)
  loop 3 invariant 0 <= rangepos && rangepos <= tuSkN(sketch) && ref(i.hashtable) > 0 && fresh(i.hashtable) && fresh(i.hashtable.entries)
  loop 3 invariant tuTabCore(i.hashtable)
  loop 3 invariant tuTabBelow(i.hashtable)
  loop 3 invariant i.hashtable.lgNomSize == i.hashtable.lgCurSize - 1 && tuSkN(sketch) < pow2(i.hashtable.lgCurSize) && tuSkN(sketch) <= (15 * pow2(i.hashtable.lgCurSize)) / 16 && i.hashtable.numEntries == rangepos
  loop 3 invariant i.hashtable.theta == entry(i.hashtable.theta) && i.hashtable.seed == entry(i.hashtable.seed) && i.hashtable.isEmpty == entry(i.hashtable.isEmpty) && ref(i.hashtable) == entry(ref(i.hashtable))
  loop 3 invariant forall k int {tuCard(i.hashtable, k)}: k != 0 ==> tuCard(i.hashtable, k) == occ(tuSkA(sketch), 0, rangepos, k)
  loop 3 apply occSnocAll(tuSkA(sketch), 0, head(3, rangepos))
  loop 3 apply occNone(head(3, arr(i.hashtable.entries, Hash)), 0, len(i.hashtable.entries), 0)
  loop 3 apply occOnce(tuSkA(sketch), rangepos, tuSkN(sketch))
  loop 1 invariant 0 <= rangepos && rangepos <= tuSkN(sketch) && fresh(matchesEntries) && len(matchesEntries) == matchCount && matchCount <= rangepos && count == rangepos
  loop 1 invariant arr(i.hashtable.entries, Hash) == entry(arr(i.hashtable.entries, Hash)) && ref(matchesEntries) != ref(i.hashtable.entries)
  loop 1 apply occOnce(tuSkA(sketch), rangepos, tuSkN(sketch))
  loop 1 invariant forall k int {occ(arr(matchesEntries, Hash), 0, len(matchesEntries), k)}: occ(arr(matchesEntries, Hash), 0, len(matchesEntries), k) <= 1
  loop 1 invariant forall m int {matchesEntries[m].Hash}: 0 <= m && m < len(matchesEntries) ==> 0 < matchesEntries[m].Hash && matchesEntries[m].Hash < i.hashtable.theta
  loop 1 invariant forall k int {occ(arr(matchesEntries, Hash), 0, len(matchesEntries), k)}: occ(arr(matchesEntries, Hash), 0, len(matchesEntries), k) == (if k < i.hashtable.theta && tuCard(i.hashtable, k) >= 1 then occ(tuSkA(sketch), 0, rangepos, k) else 0)
  loop 1 apply occSnocAll(tuSkA(sketch), 0, head(1, rangepos))
  loop 1 apply occAppend(head(1, arr(matchesEntries, Hash)), arr(matchesEntries, Hash), head(1, len(matchesEntries)), tuSkA(sketch)[head(1, rangepos)])
  loop 1 apply occPushAll(head(1, arr(matchesEntries, Hash)), 0, head(1, len(matchesEntries)), tuSkA(sketch)[head(1, rangepos)])
  loop 2 invariant 0 <= j && j <= matchCount && ref(i.hashtable) > 0 && fresh(i.hashtable) && fresh(i.hashtable.entries)
  loop 2 invariant tuTabCore(i.hashtable)
  loop 2 invariant tuTabBelow(i.hashtable)
  loop 2 invariant i.hashtable.lgNomSize == i.hashtable.lgCurSize - 1 && matchCount < pow2(i.hashtable.lgCurSize) && matchCount <= (15 * pow2(i.hashtable.lgCurSize)) / 16 && i.hashtable.numEntries == j && ref(i.hashtable.entries) != ref(matchesEntries)
  loop 2 invariant i.hashtable.theta == entry(i.hashtable.theta) && i.hashtable.seed == entry(i.hashtable.seed) && i.hashtable.isEmpty == entry(i.hashtable.isEmpty) && arr(matchesEntries, Hash) == entry(arr(matchesEntries, Hash))
  loop 2 invariant forall k int {tuCard(i.hashtable, k)}: k != 0 ==> tuCard(i.hashtable, k) == occ(arr(matchesEntries, Hash), 0, j, k)
  loop 2 apply occSnocAll(arr(matchesEntries, Hash), 0, head(2, j))
  loop 2 apply occNone(head(2, arr(i.hashtable.entries, Hash)), 0, len(i.hashtable.entries), 0)
  loop 2 apply occOnce(arr(matchesEntries, Hash), j, matchCount)
func (*Union).Result
  assumesafe the summaries of retained keys are not nil, cloning returns a summary of the same type, and a policy or merge function is given
  requires tuUnOK(u)
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  use occSplitLt
  use occUniqB
  use occWit
  apply pow2mono(u.hashtable.lgNomSize, 26)
  apply occFull(arr(u.hashtable.entries, Hash), 0, len(u.hashtable.entries), 0)
  ensures @seed result1 == nil ==> uint64(result0.seedHash) == seedHashOf(u.hashtable.seed)
  ensures @err result1 == nil <==> seedHashOf(u.hashtable.seed) != 0
  ensures @empty result1 == nil ==> fresh(result0) && result0.isEmpty == u.hashtable.isEmpty
  ensures @theta result1 == nil ==> result0.theta <= u.theta && (result0.theta < u.theta ==> len(result0.entries) == pow2(u.hashtable.lgNomSize))
  ensures @size result1 == nil ==> len(result0.entries) <= pow2(u.hashtable.lgNomSize)
  ensures @set result1 == nil ==> forall k int {tuCsHas(result0, k)}: k != 0 ==> tuCsHas(result0, k) == (if k < result0.theta then tuCard(u.hashtable, k) else 0)
  loop 1 invariant 0 <= rangepos && rangepos <= len(u.hashtable.entries) && off(entries) == 0 && len(entries) == rangepos - occ(arr(u.hashtable.entries, Hash), 0, rangepos, 0) && (fresh(entries) || (cap(entries) == 0 && len(entries) == 0))
  loop 1 invariant forall k int {occ(arr(entries, Hash), 0, len(entries), k)}: occ(arr(entries, Hash), 0, len(entries), k) == (if k == 0 then 0 else occ(arr(u.hashtable.entries, Hash), 0, rangepos, k))
  loop 1 apply occAppend(head(1, arr(entries, Hash)), arr(entries, Hash), head(1, len(entries)), u.hashtable.entries[head(1, rangepos)].Hash)
  loop 1 apply occPushAll(head(1, arr(entries, Hash)), 0, head(1, len(entries)), u.hashtable.entries[head(1, rangepos)].Hash)
  loop 1 apply occSnocAll(arr(u.hashtable.entries, Hash), 0, head(1, rangepos))
  loop 2 invariant 0 <= rangepos && rangepos <= len(u.hashtable.entries) && off(entries) == 0 && len(entries) <= rangepos - occ(arr(u.hashtable.entries, Hash), 0, rangepos, 0) && (fresh(entries) || (cap(entries) == 0 && len(entries) == 0))
  loop 2 invariant forall k int {occ(arr(entries, Hash), 0, len(entries), k)}: occ(arr(entries, Hash), 0, len(entries), k) == (if k == 0 || k >= thetaVal then 0 else occ(arr(u.hashtable.entries, Hash), 0, rangepos, k))
  loop 2 apply occAppend(head(2, arr(entries, Hash)), arr(entries, Hash), head(2, len(entries)), u.hashtable.entries[head(2, rangepos)].Hash)
  loop 2 apply occPushAll(head(2, arr(entries, Hash)), 0, head(2, len(entries)), u.hashtable.entries[head(2, rangepos)].Hash)
  loop 2 apply occSnocAll(arr(u.hashtable.entries, Hash), 0, head(2, rangepos))
func (*Intersection).Result
  assumesafe the summaries of retained keys are not nil, cloning returns a summary of the same type, and a policy or merge function is given
  requires tuInTab(i.hashtable)
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  ensures @valid !i.isValid ==> result1 != nil
  ensures @seed result1 == nil ==> uint64(result0.seedHash) == seedHashOf(i.hashtable.seed)
  ensures @new result1 == nil ==> fresh(result0) && result0.theta == i.hashtable.theta && result0.isEmpty == i.hashtable.isEmpty
  ensures @size result1 == nil ==> len(result0.entries) == i.hashtable.numEntries
  ensures @set result1 == nil ==> forall k int {tuCsHas(result0, k)}: k != 0 ==> tuCsHas(result0, k) == tuCard(i.hashtable, k)
  loop 1 invariant 0 <= rangepos && rangepos <= len(i.hashtable.entries) && fresh(entries) && len(entries) == rangepos - occ(arr(i.hashtable.entries, Hash), 0, rangepos, 0)
  loop 1 invariant forall k int {occ(arr(entries, Hash), 0, len(entries), k)}: occ(arr(entries, Hash), 0, len(entries), k) == (if k == 0 then 0 else occ(arr(i.hashtable.entries, Hash), 0, rangepos, k))
  loop 1 apply occPushAll(head(1, arr(entries, Hash)), 0, head(1, len(entries)), i.hashtable.entries[head(1, rangepos)].Hash)
  loop 1 apply occAppend(head(1, arr(entries, Hash)), arr(entries, Hash), head(1, len(entries)), i.hashtable.entries[head(1, rangepos)].Hash)
  loop 1 apply occSnocAll(arr(i.hashtable.entries, Hash), 0, head(1, rangepos))
func (*UpdateSketch).All
  assumesafe the summaries of retained keys are not nil, cloning returns a summary of the same type, and a policy or merge function is given
  requires ref(s.table) > 0 && tuTabOK(s.table)
  use occSnoc
  use occEmpty
  use occFrame
  ensures @seq seqlen(result) == s.table.numEntries
  ensures @set forall k int {occ(seqarr(result), 0, seqlen(result), k)}: k != 0 ==> occ(seqarr(result), 0, seqlen(result), k) == tuCard(s.table, k)
  ensures @below forall i int {seqarr(result)[i]}: 0 <= i && i < seqlen(result) ==> 0 < seqarr(result)[i] && seqarr(result)[i] < s.table.theta
  loop 1 invariant 0 <= rangepos && rangepos <= len(s.table.entries) && !yieldstop && 0 <= yieldcnt && yieldcnt == rangepos - occ(arr(s.table.entries, Hash), 0, rangepos, 0)
  loop 1 invariant forall k int {occ(yieldarr, 0, yieldcnt, k)}: k != 0 ==> occ(yieldarr, 0, yieldcnt, k) == occ(arr(s.table.entries, Hash), 0, rangepos, k)
  loop 1 invariant forall i int {yieldarr[i]}: 0 <= i && i < yieldcnt ==> 0 < yieldarr[i] && yieldarr[i] < s.table.theta
  loop 1 apply occPushAll(head(1, yieldarr), 0, head(1, yieldcnt), s.table.entries[head(1, rangepos)].Hash)
  loop 1 apply occSnocAll(arr(s.table.entries, Hash), 0, head(1, rangepos))
func (*CompactSketch).All
  requires forall i int {s.entries[i].Hash}: 0 <= i && i < len(s.entries) ==> s.entries[i].Hash != 0
  ensures @seq seqlen(result) == len(s.entries) && (forall i int {seqarr(result)[i]}: 0 <= i && i < len(s.entries) ==> seqarr(result)[i] == s.entries[i].Hash) && (forall i int {seqarr1(result)[i]}: 0 <= i && i < len(s.entries) ==> seqarr1(result)[i] == s.entries[i].Summary)
  loop 1 invariant 0 <= rangepos && rangepos <= len(s.entries) && yieldcnt == rangepos && !yieldstop
  loop 1 invariant forall i int {yieldarr[i]}: 0 <= i && i < rangepos ==> yieldarr[i] == s.entries[i].Hash
  loop 1 invariant forall i int {yieldarr1[i]}: 0 <= i && i < rangepos ==> yieldarr1[i] == s.entries[i].Summary
func newFilteredCompactSketch
  assumesafe the summaries of retained keys are not nil, cloning returns a summary of the same type, and a policy or merge function is given
  requires tuSkOK(sketch) && predicate != nil
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  ensures @new result1 == nil ==> fresh(result0) && result0.theta == sketch.Theta64() && result0.seedHash == sketch.SeedHash()
  ensures @empty result1 == nil ==> (result0.isEmpty <==> !sketch.IsEstimationMode() && len(result0.entries) == 0)
  ensures @set result1 == nil ==> forall i int {tuSkA(sketch)[i]}: 0 <= i && i < tuSkN(sketch) ==> tuCsHas(result0, tuSkA(sketch)[i]) == (if predicate(seqarr1(sketch.All())[i]) then 1 else 0)
  ensures @only result1 == nil ==> forall k int {tuCsHas(result0, k)}: tuCsHas(result0, k) <= tuSkHas(sketch, k)
  loop 1 invariant 0 <= rangepos && rangepos <= tuSkN(sketch) && off(entries) == 0 && len(entries) <= rangepos && (fresh(entries) || (cap(entries) == 0 && len(entries) == 0))
  loop 1 invariant forall k int {occ(arr(entries, Hash), 0, len(entries), k)}: occ(arr(entries, Hash), 0, len(entries), k) <= occ(tuSkA(sketch), 0, rangepos, k)
  loop 1 invariant forall i int {tuSkA(sketch)[i]}: 0 <= i && i < rangepos ==> occ(arr(entries, Hash), 0, len(entries), tuSkA(sketch)[i]) == (if predicate(seqarr1(sketch.All())[i]) then 1 else 0)
  loop 1 apply occAppend(head(1, arr(entries, Hash)), arr(entries, Hash), head(1, len(entries)), tuSkA(sketch)[head(1, rangepos)])
  loop 1 apply occPushAll(head(1, arr(entries, Hash)), 0, head(1, len(entries)), tuSkA(sketch)[head(1, rangepos)])
  loop 1 apply occSnocAll(tuSkA(sketch), 0, head(1, rangepos))
  loop 1 apply occOnce(tuSkA(sketch), rangepos, tuSkN(sketch))
  loop 1 apply occUniq(tuSkA(sketch), 0, tuSkN(sketch), head(1, rangepos))
func Sketch.IsEstimationMode
  pureuf sketches are not changed while they are operands
