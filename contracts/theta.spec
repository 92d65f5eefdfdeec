package theta
defaultprops P02

// the probe sequence of a key in a table of 2^lg slots, and its inverse
function probe(key int, lg int, j int) math
function pdist(key int, lg int, s int) math
define pstride(key, lg) = 2 * ((key / pow2(lg)) % 128) + 1
axiom probe0(key int, lg int)
  trigger probe(key, lg, 0)
  ensures probe(key, lg, 0) == (key % 4294967296) % pow2(lg)
  why definition: a probe sequence starts at the key's low bits
axiom probeS(key int, lg int, j int)
  trigger probe(key, lg, j+1)
  ensures j >= 0 ==> probe(key, lg, j+1) == (probe(key, lg, j) + pstride(key, lg)) % pow2(lg)
  why definition: a probe sequence advances by the key's stride modulo the table size
axiom pdistR(key int, lg int, s int)
  trigger pdist(key, lg, s)
  ensures 0 <= lg && 0 <= s && s < pow2(lg) ==> 0 <= pdist(key, lg, s) && pdist(key, lg, s) < pow2(lg) && probe(key, lg, pdist(key, lg, s)) == s
  why an odd stride visits every slot of a power-of-two table (number theory; defines pdist)
axiom pdistU(key int, lg int, j int)
  trigger probe(key, lg, j)
  ensures 0 <= lg && 0 <= j && j < pow2(lg) ==> pdist(key, lg, probe(key, lg, j)) == j
  why an odd stride visits every slot of a power-of-two table only once per cycle (number theory)

axiom probeC(key int, lg int)
  ensures lg >= 0 ==> probe(key, lg, pow2(lg)) == probe(key, lg, 0)
  why after 2^lg steps of any stride a probe sequence is back at its start

func find
  requires 1 <= lgSize && lgSize <= 31 && len(entries) == pow2(lgSize)
  use probe0
  use probeS
  use pdistR
  use pdistU
  ensures @found result1 == nil ==> 0 <= result0 && result0 < len(entries) && entries[result0] == key && key != 0
  ensures @free result1 == ErrKeyNotFound ==> 0 <= result0 && result0 < len(entries) && entries[result0] == 0 \
     && forall j int {probe(key, lgSize, j)}: 0 <= j && j < pdist(key, lgSize, result0) ==> entries[probe(key, lgSize, j)] != 0 && entries[probe(key, lgSize, j)] != key
  ensures @full result1 == ErrKeyNotFoundAndNoEmptySlots ==> result0 == 0 && forall s int {entries[s]}: 0 <= s && s < len(entries) && pdist(key, lgSize, s) >= 0 ==> entries[s] != 0 && entries[s] != key
  ensures @err result1 == nil || result1 == ErrKeyNotFound || result1 == ErrKeyNotFoundAndNoEmptySlots
  loop 1 invariant 0 <= index && index < len(entries) && loopIndex == probe(key, lgSize, 0) && pdist(key, lgSize, loopIndex) == 0 && stride == pstride(key, lgSize)
  loop 1 invariant forall j int {probe(key, lgSize, j)}: 0 <= j && j < pdist(key, lgSize, index) ==> entries[probe(key, lgSize, j)] != 0 && entries[probe(key, lgSize, j)] != key
  loop 1 apply probe0(key, lgSize)
  loop 1 apply pdistU(key, lgSize, 0)
  loop 1 apply pdistR(key, lgSize, index)
  loop 1 apply probeS(key, lgSize, pdist(key, lgSize, index))
  loop 1 apply pdistU(key, lgSize, pdist(key, lgSize, index) + 1)
  loop 1 apply probeC(key, lgSize)
  loop 1 decreases pow2(lgSize) - pdist(key, lgSize, index)

define cnt(a, n, k) = occ(a, 0, n, k)
define reach(a, lg) = forall s, j int {a[s], probe(a[s], lg, j)}: 0 <= s && s < pow2(lg) && a[s] != 0 && 0 <= j && j < pdist(a[s], lg, s) ==> a[probe(a[s], lg, j)] != 0
define distinct(a, n) = forall k int {occ(a, 0, n, k)}: k != 0 ==> occ(a, 0, n, k) <= 1
define tabShape(t) = 1 <= t.lgCurSize && t.lgCurSize <= t.lgNomSize + 1 && t.lgNomSize <= 28 && len(t.entries) == pow2(t.lgCurSize) && off(t.entries) == 0 && t.rf <= 3
// the tables of update sketches and unions; those of intersections and differences are smaller and never rebuilt
define tabBig(t) = 2 <= t.lgCurSize && 5 <= t.lgNomSize && t.lgNomSize <= 26 && (t.rf >= 1 || t.lgCurSize == t.lgNomSize + 1)
define tabCore(t) = tabShape(t) && reach(arr(t.entries), t.lgCurSize) && distinct(arr(t.entries), len(t.entries)) \
   && t.numEntries == len(t.entries) - occ(arr(t.entries), 0, len(t.entries), 0)
define tabBelow(t) = forall s int {t.entries[s]}: 0 <= s && s < len(t.entries) ==> t.entries[s] < t.theta
define tabCap(lgc, lgn) = if lgc <= lgn then pow2(lgc) / 2 else (15 * pow2(lgc)) / 16
define tabOK(t) = tabCore(t) && tabBig(t) && tabBelow(t) && t.numEntries <= tabCap(t.lgCurSize, t.lgNomSize)
define roomy(t) = t.numEntries + 1 < len(t.entries) && (t.lgCurSize > t.lgNomSize ==> t.numEntries + 1 <= tabCap(t.lgCurSize, t.lgNomSize)) && (t.lgCurSize <= t.lgNomSize ==> t.rf == 0)

func computeCapacity
  requires lgCurSize <= 30
  realfloat
  ensures result == tabCap(lgCurSize, lgNomSize)

func consolidateNonEmpty
  requires 0 <= num && num < size && size <= len(entries) && off(entries) == 0
  requires num == size - occ(arr(entries), 0, size, 0)
  modifies entries[0..size]
  ensures @perm forall v int {occ(arr(entries), 0, size, v)}: occ(arr(entries), 0, size, v) == occ(old(arr(entries)), 0, size, v)
  ensures @front forall s int {entries[s]}: 0 <= s && s < num ==> entries[s] != 0
  ensures @front0 occ(arr(entries), 0, num, 0) == 0
  use occStore
  use occNone
  loop 1 invariant 0 <= i && i <= size
  loop 1 invariant forall s int {entries[s]}: 0 <= s && s < i ==> entries[s] != 0
  loop 1 apply occNone(arr(entries), 0, size, 0)
  loop 1 decreases size - i
  loop 2 invariant 0 <= i && i < j && (j <= size || i == size) && i <= num
  loop 2 invariant forall s int {entries[s]}: 0 <= s && s < i ==> entries[s] != 0
  loop 2 invariant forall s int {entries[s]}: i <= s && s < j ==> entries[s] == 0
  loop 2 invariant forall v int {occ(arr(entries), 0, size, v)}: occ(arr(entries), 0, size, v) == occ(old(arr(entries)), 0, size, v)
  loop 2 apply occNone(arr(entries), 0, i, 0)
  loop 2 apply occAll(arr(entries), i, size, 0)
  loop 2 apply occCat(arr(entries), 0, i, size, 0)
  loop 2 apply occCat(arr(entries), i, j, size, 0)
  loop 2 apply occCat(arr(entries), j, j+1, size, 0)
  loop 2 apply occBound(arr(entries), i, j, 0)
  loop 2 apply occBound(arr(entries), j+1, size, 0)
  loop 2 apply occBound(arr(entries), i, size, 0)
  loop 2 apply occNone(arr(entries), j, j+1, 0)
  loop 2 decreases size - j

define sameCfg(t) = t.lgNomSize == old(t.lgNomSize) && t.rf == old(t.rf) && t.p === old(t.p) && t.seed == old(t.seed) && t.isEmpty == old(t.isEmpty)

func (*Hashtable).resize
  requires tabShape(t) && t.lgCurSize <= t.lgNomSize
  requires @set distinct(arr(t.entries), len(t.entries)) && t.numEntries == len(t.entries) - occ(arr(t.entries), 0, len(t.entries), 0)
  requires t.numEntries < len(t.entries) && (t.rf >= 1 ==> t.numEntries == pow2(t.lgCurSize) / 2 + 1)
  modifies t.entries, t.lgCurSize
  use occStore
  use occBound
  use occEmpty
  use occSnoc
  use occZeroArr
  use pdistR
  ensures @lg t.lgCurSize >= old(t.lgCurSize) && (t.rf == 0 ==> t.lgCurSize == old(t.lgCurSize))
  apply pow2mono(2, t.lgCurSize)
  ensures @inv tabCore(t) && fresh(t.entries) && (old(tabBelow(t)) ==> tabBelow(t)) && (old(tabBig(t) && tabBelow(t)) ==> tabOK(t))
  ensures @set forall k int {occ(arr(t.entries), 0, len(t.entries), k)}: k != 0 ==> occ(arr(t.entries), 0, len(t.entries), k) == occ(old(arr(t.entries)), 0, old(len(t.entries)), k)
  loop 1 invariant 0 <= i && i <= oldSize && len(newEntries) == pow2(lgNewSize) && off(newEntries) == 0 && ref(newEntries) != ref(t.entries)
  loop 1 invariant lgNewSize >= t.lgCurSize && lgNewSize <= t.lgNomSize + 1 && oldSize == pow2(t.lgCurSize) && pow2(lgNewSize) >= oldSize && (t.rf >= 1 ==> lgNewSize > t.lgCurSize && pow2(lgNewSize) >= 2 * oldSize)
  loop 1 invariant reach(arr(newEntries), lgNewSize)
  loop 1 invariant forall k int {occ(arr(newEntries), 0, len(newEntries), k)}: k != 0 ==> occ(arr(newEntries), 0, len(newEntries), k) == occ(arr(t.entries), 0, i, k)
  loop 1 invariant occ(arr(newEntries), 0, len(newEntries), 0) == len(newEntries) - i + occ(arr(t.entries), 0, i, 0)
  loop 1 invariant old(tabBelow(t)) ==> forall s int {newEntries[s]}: 0 <= s && s < len(newEntries) ==> newEntries[s] < t.theta
  loop 1 apply pow2mono(t.lgCurSize, lgNewSize)
  loop 1 apply occSnoc(arr(t.entries), 0, i, 0)
  loop 1 apply occSnoc(arr(t.entries), 0, i, t.entries[i])
  loop 1 apply occCat(arr(t.entries), 0, i, oldSize, t.entries[i])
  loop 1 apply occCat(arr(t.entries), i, i+1, oldSize, t.entries[i])
  loop 1 apply occPos(arr(t.entries), i, i+1, i)
  loop 1 apply occEmpty(arr(t.entries), 0, 0, 0)
  loop 1 apply occAll(arr(newEntries), 0, len(newEntries), 0)
  loop 1 apply occNone(head(1, arr(newEntries)), 0, len(newEntries), 0)
  loop 1 apply occPos(head(1, arr(newEntries)), 0, len(newEntries), index)
  loop 1 decreases oldSize - i

func (*Hashtable).rebuild
  timeout 60
  requires tabCore(t) && tabBig(t) && tabBelow(t) && t.lgCurSize == t.lgNomSize + 1 && t.numEntries > pow2(t.lgNomSize) && t.numEntries < len(t.entries)
  modifies t.entries, t.theta, t.numEntries, t.entries[*]
  use occStore
  use occBound
  use occEmpty
  use occSnoc
  use occZeroArr
  use pdistR
  use occPos
  let n = pow2(t.lgNomSize + 1)
  ensures @inv tabOK(t) && fresh(t.entries)
  ensures @theta t.theta < old(t.theta) && t.theta > 0
  ensures @count t.numEntries == pow2(t.lgNomSize)
  ensures @set forall k int {occ(arr(t.entries), 0, len(t.entries), k)}: k != 0 ==> occ(arr(t.entries), 0, len(t.entries), k) == (if k < t.theta then occ(old(arr(t.entries)), 0, old(len(t.entries)), k) else 0)
  loop 1 invariant 0 <= i && i <= nominalSize && off(t.entries) == 0 && len(t.entries) == size && ref(oldEntries) != ref(t.entries) && off(oldEntries) == 0 && len(oldEntries) == size
  let m = old(t.numEntries)
  loop 1 invariant occ(arr(oldEntries), 0, m, 0) == 0
  loop 1 invariant forall s int {oldEntries[s]}: 0 <= s && s < m ==> oldEntries[s] != 0
  loop 1 invariant forall k int {occ(old(arr(t.entries)), 0, size, k)}: occ(arr(oldEntries), 0, size, k) == occ(old(arr(t.entries)), 0, size, k)
  loop 1 invariant t.theta == oldEntries[nominalSize] && t.theta > 0 && t.theta < old(t.theta) && occ(arr(oldEntries), 0, size, oldEntries[nominalSize]) <= 1
  loop 1 invariant forall s int {oldEntries[s]}: 0 <= s && s < nominalSize ==> oldEntries[s] < oldEntries[nominalSize]
  loop 1 invariant forall s int {oldEntries[s]}: m <= s && s < size ==> oldEntries[s] == 0
  loop 1 invariant forall s int {oldEntries[s]}: nominalSize <= s && s < size ==> oldEntries[s] >= oldEntries[nominalSize] || oldEntries[s] == 0
  loop 1 invariant forall k int {occ(arr(oldEntries), 0, nominalSize, k)}: k != 0 ==> occ(arr(oldEntries), 0, nominalSize, k) == (if k < t.theta then occ(old(arr(t.entries)), 0, size, k) else 0)
  loop 1 invariant reach(arr(t.entries), t.lgCurSize)
  loop 1 invariant forall k int {occ(arr(t.entries), 0, len(t.entries), k)}: k != 0 ==> occ(arr(t.entries), 0, len(t.entries), k) == occ(arr(oldEntries), 0, i, k)
  loop 1 invariant occ(arr(t.entries), 0, len(t.entries), 0) == len(t.entries) - i
  loop 1 invariant forall s int {t.entries[s]}: 0 <= s && s < len(t.entries) ==> t.entries[s] < t.theta
  loop 1 apply occSnoc(arr(oldEntries), 0, i, 0)
  loop 1 apply occSnoc(arr(oldEntries), 0, i, oldEntries[i])
  loop 1 apply occCat(arr(oldEntries), 0, i, size, oldEntries[i])
  loop 1 apply occCat(arr(oldEntries), i, i+1, size, oldEntries[i])
  loop 1 apply occPos(arr(oldEntries), i, i+1, i)
  loop 1 apply occAll(arr(t.entries), 0, len(t.entries), 0)
  loop 1 apply occNone(head(1, arr(t.entries)), 0, len(t.entries), 0)
  loop 1 apply occPos(head(1, arr(t.entries)), 0, len(t.entries), index)
  loop 1 apply occNever(arr(oldEntries), 0, m, 0)
  loop 1 apply occCat(arr(oldEntries), 0, m, size, 0)
  loop 1 apply occCat(arr(oldEntries), 0, nominalSize, m, 0)
  loop 1 apply occFull(arr(oldEntries), m, size, 0)
  loop 1 apply occUniq(arr(oldEntries), 0, size, nominalSize)
  loop 1 apply occPos(arr(oldEntries), 0, size, nominalSize)
  use occSplitLt
  use occWit
  loop 1 decreases nominalSize - i

define card(t, k) = occ(arr(t.entries), 0, len(t.entries), k)
define ocard(t, k) = occ(old(arr(t.entries)), 0, old(len(t.entries)), k)
define slotFree(t, index, key) = 0 <= index && index < len(t.entries) && t.entries[index] == 0 && card(t, key) == 0 \
   && forall j int {probe(key, t.lgCurSize, j)}: 0 <= j && j < pdist(key, t.lgCurSize, index) ==> t.entries[probe(key, t.lgCurSize, j)] != 0

func (*Hashtable).Find
  requires tabShape(t) && reach(arr(t.entries), t.lgCurSize) && key != 0
  use pdistR
  use occNone
  use occWit
  use occPos
  use occBound
  ensures @found result1 == nil ==> card(t, key) >= 1 && 0 <= result0 && result0 < len(t.entries) && t.entries[result0] == key
  ensures @free result1 == ErrKeyNotFound ==> slotFree(t, result0, key)
  ensures @full result1 == ErrKeyNotFoundAndNoEmptySlots ==> card(t, 0) == 0
  ensures @err result1 == nil || result1 == ErrKeyNotFound || result1 == ErrKeyNotFoundAndNoEmptySlots

func (*Hashtable).Insert
  requires tabCore(t) && entry != 0 && slotFree(t, index, entry)
  requires (tabOK(t) && entry < t.theta) || roomy(t)
  modifies t.entries, t.theta, t.numEntries, t.lgCurSize, t.entries[*]
  use occStore
  use occWit
  use occBound
  use pdistR
  apply pow2mono(6, t.lgCurSize)
  apply pow2mono(2, t.lgCurSize)
  use occPos
  ensures @inv old(tabOK(t) && entry < t.theta) ==> tabOK(t)
  ensures @mem ref(t.entries) == old(ref(t.entries)) || fresh(t.entries)
  ensures @count t.theta == old(t.theta) ==> t.numEntries == old(t.numEntries) + 1
  ensures @theta t.theta <= old(t.theta) && (t.theta < old(t.theta) ==> t.theta > 0 && t.numEntries == pow2(t.lgNomSize))
  ensures @set old(tabOK(t) && entry < t.theta) ==> forall k int {card(t, k)}: k != 0 ==> card(t, k) == (if k < t.theta then ocard(t, k) + (if k == entry then 1 else 0) else 0)
  ensures @rinv old(roomy(t)) ==> tabCore(t) && t.theta == old(t.theta) && t.lgCurSize == old(t.lgCurSize) && t.numEntries == old(t.numEntries) + 1
  ensures @rset old(roomy(t)) ==> forall k int {card(t, k)}: k != 0 ==> card(t, k) == ocard(t, k) + (if k == entry then 1 else 0)
  ensures @rbelow old(roomy(t) && tabBelow(t)) && entry < t.theta ==> tabBelow(t)

func (*Hashtable).Trim
  requires tabOK(t)
  modifies t.entries, t.theta, t.numEntries, t.entries[*]
  use occBound
  use occWit
  apply pow2mono(t.lgCurSize, t.lgNomSize)
  apply pow2mono(6, t.lgNomSize + 1)
  use occNone
  use occPos
  ensures @inv tabOK(t) && t.numEntries <= pow2(t.lgNomSize)
  ensures @theta t.theta <= old(t.theta) && (t.theta < old(t.theta) ==> t.theta > 0 && t.numEntries == pow2(t.lgNomSize))
  ensures @set forall k int {card(t, k)}: k != 0 ==> card(t, k) == (if k < t.theta then ocard(t, k) else 0)

func startingSubMultiple
  requires lgTgt <= 30
  ensures lgTgt >= lgMin ==> lgMin <= result && result <= lgTgt
  ensures lgRf == 0 && lgTgt >= lgMin ==> result == lgTgt
  ensures lgTgt < lgMin ==> result == lgMin

func startingThetaFromP
  functional
  realfloat
  requires p > 0.0
  ensures result <= MaxTheta && (p == 1.0 ==> result == MaxTheta)

func (*Hashtable).Reset
  requires tabOK(t) && t.p > 0.0
  modifies t.entries, t.theta, t.numEntries, t.lgCurSize, t.isEmpty, t.entries[*]
  use occZeroArr
  use occAll
  use occNone
  use occBound
  loop 1 invariant 0 <= i && i <= len(t.entries) && len(t.entries) == pow2(t.lgCurSize) && off(t.entries) == 0
  loop 1 invariant forall s int {t.entries[s]}: 0 <= s && s < i ==> t.entries[s] == 0
  loop 1 apply pow2mono(t.lgCurSize, t.lgNomSize)
  apply pow2mono(5, t.lgCurSize)
  apply occAll(arr(t.entries), 0, len(t.entries), 0)
  use occWit
  ensures @inv t.theta > 0 ==> tabOK(t)
  ensures @empty t.isEmpty && t.numEntries == 0 && forall k int {card(t, k)}: k != 0 ==> card(t, k) == 0
  ensures t.theta == startingThetaFromP(t.p)

define onlyEmpty(t) = t.theta == old(t.theta) && t.numEntries == old(t.numEntries)
func (*Hashtable).HashInt64AndScreen
  props P02 P15
  mode bv
  use lsZero
  ensures @murmur result1 == nil ==> result0 == fin1(t.seed, t.seed, uint64(data), bvu(0, 64), bvu(8, 64)) >> 1
  modifies t.isEmpty
  ensures @screen result1 == nil ==> 0 < result0 && result0 < t.theta
  ensures @full result1 == nil || result1 == ErrHashExceedsTheta || result1 == ErrZeroHashValue
  ensures !t.isEmpty
func (*Hashtable).HashInt32AndScreen
  props P02 P15
  mode bv
  use isZero
  use leiDef
  ensures @murmur result1 == nil ==> result0 == fin1(t.seed, t.seed, uint64(uint32(data)), bvu(0, 64), bvu(4, 64)) >> 1
  modifies t.isEmpty
  ensures @screen result1 == nil ==> 0 < result0 && result0 < t.theta
  ensures @full result1 == nil || result1 == ErrHashExceedsTheta || result1 == ErrZeroHashValue
  ensures !t.isEmpty
func (*Hashtable).HashStringAndScreen
  modifies t.isEmpty
  ensures @screen result1 == nil ==> 0 < result0 && result0 < t.theta
  ensures @full result1 == nil || result1 == ErrHashExceedsTheta || result1 == ErrZeroHashValue
  ensures !t.isEmpty
func (*Hashtable).HashBytesAndScreen
  props P02 P15
  mode bv
  ensures @murmur result1 == nil ==> result0 == fin1(bs1(arr(data), off(data), len(data) >> 4, t.seed), bs2(arr(data), off(data), len(data) >> 4, t.seed), le(arr(data), off(data) + ((len(data) >> 4)<<4), (if (len(data) & 15) > 8 then 8 else (len(data) & 15))), le(arr(data), off(data) + ((len(data) >> 4)<<4) + 8, (if (len(data) & 15) > 8 then (len(data) & 15) - 8 else 0)), uint64(len(data))) >> 1
  modifies t.isEmpty
  ensures @screen result1 == nil ==> 0 < result0 && result0 < t.theta
  ensures @full result1 == nil || result1 == ErrHashExceedsTheta || result1 == ErrZeroHashValue
  ensures !t.isEmpty

define updInv(s) = ref(s.table) > 0 && tabOK(s.table)
// an update either leaves the retained set alone, or adds one key to it and drops exactly the keys at or above the new threshold
define updated(s, err) = (err != nil ==> s.table.theta == old(s.table.theta) && s.table.numEntries == old(s.table.numEntries) && forall k int {card(s.table, k)}: k != 0 ==> card(s.table, k) == old(card(s.table, k))) \
  && (err == nil ==> exists h int: 0 < h && h < old(s.table.theta) && old(card(s.table, h)) == 0 && forall k int {card(s.table, k)}: k != 0 ==> card(s.table, k) == (if k < s.table.theta then old(card(s.table, k)) + (if k == h then 1 else 0) else 0))
define upd(s, err) = updInv(s) && s.table.theta <= old(s.table.theta) && (s.table.theta < old(s.table.theta) ==> s.table.numEntries == pow2(s.table.lgNomSize)) && !s.table.isEmpty && updated(s, err)
func (*QuickSelectUpdateSketch).UpdateInt64
  requires updInv(s)
  modifies s.table.*, s.table.entries[*]
  ensures @upd upd(s, result)
func (*QuickSelectUpdateSketch).UpdateInt32
  requires updInv(s)
  modifies s.table.*, s.table.entries[*]
  ensures @upd upd(s, result)
func (*QuickSelectUpdateSketch).UpdateBytes
  requires updInv(s)
  modifies s.table.*, s.table.entries[*]
  ensures @upd upd(s, result)
func (*QuickSelectUpdateSketch).UpdateString
  requires updInv(s)
  modifies s.table.*, s.table.entries[*]
  ensures @empty value == "" ==> result == ErrUpdateEmptyString && s.table.isEmpty == old(s.table.isEmpty)
  ensures @upd value != "" ==> upd(s, result)
func (*QuickSelectUpdateSketch).UpdateUint64
  requires updInv(s)
  modifies s.table.*, s.table.entries[*]
  ensures @upd upd(s, result)
func (*QuickSelectUpdateSketch).UpdateFloat64
  requires updInv(s)
  modifies s.table.*, s.table.entries[*]
  ensures @upd upd(s, result)
func (*QuickSelectUpdateSketch).Trim
  requires updInv(s)
  modifies s.table.*, s.table.entries[*]
  ensures @inv updInv(s) && s.table.numEntries <= pow2(s.table.lgNomSize) && s.table.theta <= old(s.table.theta)
  ensures @set forall k int {card(s.table, k)}: k != 0 ==> card(s.table, k) == (if k < s.table.theta then old(card(s.table, k)) else 0)
func (*QuickSelectUpdateSketch).IsEmpty
  requires ref(s.table) > 0
  ensures result == s.table.isEmpty
func (*QuickSelectUpdateSketch).Theta64
  requires ref(s.table) > 0
  ensures result == (if s.table.isEmpty then MaxTheta else s.table.theta)
func (*QuickSelectUpdateSketch).NumRetained
  requires ref(s.table) > 0
  ensures result == s.table.numEntries
func (*QuickSelectUpdateSketch).IsEstimationMode
  requires ref(s.table) > 0
  ensures result <==> !s.table.isEmpty && s.table.theta < MaxTheta
func (*QuickSelectUpdateSketch).Theta
  requires ref(s.table) > 0
  ensures result === float64(if s.table.isEmpty then MaxTheta else s.table.theta) / 9223372036854775808.0
func (*QuickSelectUpdateSketch).Estimate
  requires ref(s.table) > 0
  ensures result === float64(s.table.numEntries) / (float64(if s.table.isEmpty then MaxTheta else s.table.theta) / 9223372036854775808.0)
func canonicalDouble
  ensures @nan isnan(value) ==> result == 9221120237041090560
func NewHashtable
  requires lgNomSize <= 28 && lgCurSize <= lgNomSize + 1 && rf <= 3
  use occZeroArr
  use occNone
  apply occAll(constarr(int, 0), 0, pow2(lgCurSize), 0)
  apply pow2mono(0, lgCurSize)
  apply pow2mono(1, lgCurSize)
  apply pow2mono(5, lgCurSize)
  ensures @inv fresh(result) && result.isEmpty == isEmpty && result.theta == theta && result.numEntries == 0 && result.p === p && result.seed == seed && result.lgNomSize == lgNomSize && result.rf == rf && result.lgCurSize == lgCurSize
  ensures @core lgCurSize >= 1 ==> tabCore(result) && fresh(result.entries)
  ensures @none lgCurSize == 0 ==> len(result.entries) == 0
  ensures @big lgCurSize >= 2 && 5 <= lgNomSize && lgNomSize <= 26 && (rf >= 1 || lgCurSize == lgNomSize + 1) && theta > 0 ==> tabOK(result)
  ensures @below theta > 0 ==> tabBelow(result)
  ensures @set forall k int {card(result, k)}: k != 0 ==> card(result, k) == 0
