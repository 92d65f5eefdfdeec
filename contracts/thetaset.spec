package theta
defaultprops P03

// an operand is seen through the Sketch interface only
func Sketch.IsEmpty
  pureuf sketches are not changed while they are operands
func Sketch.IsOrdered
  pureuf sketches are not changed while they are operands
func Sketch.Theta64
  pureuf sketches are not changed while they are operands
func Sketch.NumRetained
  pureuf sketches are not changed while they are operands
func Sketch.SeedHash
  pureuf sketches are not changed while they are operands
func Sketch.All
  pureuf sketches are not changed while they are operands
func Policy.Apply
  trusted policies leave the sketch and the table alone

define skN(s) = seqlen(s.All())
define skA(s) = seqarr(s.All())
define skHas(s, k) = occ(skA(s), 0, skN(s), k)
define skOK(s) = s != nil && s.All() != nil && s.NumRetained() == skN(s) && skN(s) <= 134217727 && 0 < s.Theta64() && s.Theta64() <= MaxTheta && (s.IsEmpty() ==> skN(s) == 0) \
  && (forall i int {skA(s)[i]}: 0 <= i && i < skN(s) ==> 0 < skA(s)[i] && skA(s)[i] < s.Theta64()) \
  && (forall k int {skHas(s, k)}: skHas(s, k) <= 1) \
  && (s.IsOrdered() ==> forall i, j int {skA(s)[i], skA(s)[j]}: 0 <= i && i < j && j < skN(s) ==> skA(s)[i] < skA(s)[j])
define seedHashOf(s) = seedH(uint64(s))
define mn(a, b) = if a < b then a else b

// the iterators of the operand forms deliver exactly the retained hashes
func (*CompactSketch).All
  ensures @seq seqlen(result) == len(s.entries) && forall i int {seqarr(result)[i]}: 0 <= i && i < len(s.entries) ==> seqarr(result)[i] == s.entries[i]
  loop 1 invariant 0 <= rangepos && rangepos <= len(s.entries) && yieldcnt == rangepos && !yieldstop
  loop 1 invariant forall i int {yieldarr[i]}: 0 <= i && i < rangepos ==> yieldarr[i] == s.entries[i]
func (*QuickSelectUpdateSketch).All
  requires ref(s.table) > 0 && tabOK(s.table)
  use occSnoc
  use occEmpty
  use occFrame
  ensures @seq seqlen(result) == s.table.numEntries
  ensures @set forall k int {occ(seqarr(result), 0, seqlen(result), k)}: k != 0 ==> occ(seqarr(result), 0, seqlen(result), k) == card(s.table, k)
  ensures @below forall i int {seqarr(result)[i]}: 0 <= i && i < seqlen(result) ==> 0 < seqarr(result)[i] && seqarr(result)[i] < s.table.theta
  loop 1 invariant 0 <= rangepos && rangepos <= len(s.table.entries) && !yieldstop && 0 <= yieldcnt && yieldcnt == rangepos - occ(arr(s.table.entries), 0, rangepos, 0)
  loop 1 invariant forall k int {occ(yieldarr, 0, yieldcnt, k)}: k != 0 ==> occ(yieldarr, 0, yieldcnt, k) == occ(arr(s.table.entries), 0, rangepos, k)
  loop 1 invariant forall i int {yieldarr[i]}: 0 <= i && i < yieldcnt ==> 0 < yieldarr[i] && yieldarr[i] < s.table.theta
  loop 1 apply occPushAll(head(1, yieldarr), 0, head(1, yieldcnt), s.table.entries[head(1, rangepos)])
  loop 1 apply occSnocAll(arr(s.table.entries), 0, head(1, rangepos))
func newCompactSketchFromEntries
  ensures fresh(result) && result.isEmpty == isEmpty && result.seedHash == seedHash && result.theta == theta && ref(result.entries) == ref(entries) && len(result.entries) == len(entries) && off(result.entries) == off(entries) && (result.isOrdered <==> isOrdered || len(entries) <= 1)

define unOK(u) = u.policy != nil && ref(u.hashtable) > 0 && tabOK(u.hashtable) && 0 < u.theta && u.theta <= u.hashtable.theta && (u.hashtable.isEmpty ==> u.hashtable.numEntries == 0)
define unHas(u, k) = if k < u.theta then card(u.hashtable, k) else 0
func (*Union).Update
  requires unOK(u) && skOK(sketch)
  modifies u.theta, u.hashtable.*, u.hashtable.entries[*]
  use occBound
  use occPos
  use occTail
  use occEmpty
  ensures @inv unOK(u)
  ensures @seed !sketch.IsEmpty() && sketch.SeedHash() != seedHashOf(u.hashtable.seed) ==> result != nil
  ensures @reject result != nil ==> u.theta == old(u.theta) && forall k int {unHas(u, k)}: k != 0 ==> unHas(u, k) == old(unHas(u, k))
  ensures @empty sketch.IsEmpty() ==> result == nil && u.theta == old(u.theta) && u.hashtable.isEmpty == old(u.hashtable.isEmpty)
  ensures @nonempty result == nil && !sketch.IsEmpty() ==> !u.hashtable.isEmpty
  ensures @theta result == nil && !sketch.IsEmpty() ==> u.theta <= mn(old(u.theta), sketch.Theta64())
  ensures @trim result == nil && !sketch.IsEmpty() && u.theta < mn(old(u.theta), sketch.Theta64()) ==> u.hashtable.numEntries >= pow2(u.hashtable.lgNomSize) && u.theta == u.hashtable.theta
  ensures @set result == nil ==> forall k int {unHas(u, k)}: k != 0 && k < u.theta ==> unHas(u, k) == (if old(unHas(u, k)) == 1 || skHas(sketch, k) == 1 then 1 else 0)
  loop 1 invariant 0 <= rangepos && rangepos <= skN(sketch) && (ref(u.hashtable.entries) == old(ref(u.hashtable.entries)) || fresh(u.hashtable.entries))
  loop 1 apply occSnocAll(skA(sketch), 0, head(1, rangepos))
  loop 1 invariant tabOK(u.hashtable) && u.hashtable.theta <= entry(u.hashtable.theta) && u.hashtable.seed == old(u.hashtable.seed) && !u.hashtable.isEmpty && u.hashtable.lgNomSize == old(u.hashtable.lgNomSize)
  loop 1 invariant u.hashtable.theta < old(u.hashtable.theta) ==> u.hashtable.numEntries >= pow2(u.hashtable.lgNomSize)
  loop 1 invariant forall k int {card(u.hashtable, k)}: k != 0 && k < u.theta && k < u.hashtable.theta ==> card(u.hashtable, k) == (if old(card(u.hashtable, k)) >= 1 || occ(skA(sketch), 0, rangepos, k) >= 1 then 1 else 0)
  loop 1 invariant forall k int {card(u.hashtable, k)}: k != 0 && card(u.hashtable, k) >= 1 ==> old(card(u.hashtable, k)) >= 1 || occ(skA(sketch), 0, rangepos, k) >= 1

define csHas(r, k) = occ(arr(r.entries), 0, len(r.entries), k)
define sorted(r) = forall i, j int {r.entries[i], r.entries[j]}: 0 <= i && i < j && j < len(r.entries) ==> r.entries[i] <= r.entries[j]
func (*Union).Result
  requires unOK(u)
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  use occSplitLt
  use occUniqB
  use occWit
  apply pow2mono(u.hashtable.lgNomSize, 26)
  apply occFull(arr(u.hashtable.entries), 0, len(u.hashtable.entries), 0)
  ensures @seed result1 == nil ==> uint64(result0.seedHash) == seedHashOf(u.hashtable.seed)
  ensures @err result1 == nil <==> seedHashOf(u.hashtable.seed) != 0
  ensures @empty result1 == nil ==> fresh(result0) && result0.isEmpty == u.hashtable.isEmpty
  ensures @theta result1 == nil ==> result0.theta <= u.theta && (result0.theta < u.theta ==> len(result0.entries) == pow2(u.hashtable.lgNomSize))
  ensures @size result1 == nil ==> len(result0.entries) <= pow2(u.hashtable.lgNomSize)
  ensures @set result1 == nil ==> forall k int {csHas(result0, k)}: k != 0 ==> csHas(result0, k) == (if k < result0.theta then card(u.hashtable, k) else 0)
  ensures @order result1 == nil && ordered ==> result0.isOrdered && sorted(result0)
  ensures @ordered result1 == nil && result0.isOrdered ==> sorted(result0)
  loop 1 invariant 0 <= rangepos && rangepos <= len(u.hashtable.entries) && off(entries) == 0 && len(entries) == rangepos - occ(arr(u.hashtable.entries), 0, rangepos, 0) && (fresh(entries) || (cap(entries) == 0 && len(entries) == 0))
  loop 1 invariant forall k int {occ(arr(entries), 0, len(entries), k)}: occ(arr(entries), 0, len(entries), k) == (if k == 0 then 0 else occ(arr(u.hashtable.entries), 0, rangepos, k))
  loop 1 apply occAppend(head(1, arr(entries)), arr(entries), head(1, len(entries)), u.hashtable.entries[head(1, rangepos)])
  loop 1 apply occPushAll(head(1, arr(entries)), 0, head(1, len(entries)), u.hashtable.entries[head(1, rangepos)])
  loop 1 apply occSnocAll(arr(u.hashtable.entries), 0, head(1, rangepos))
  loop 2 invariant 0 <= rangepos && rangepos <= len(u.hashtable.entries) && off(entries) == 0 && len(entries) <= rangepos - occ(arr(u.hashtable.entries), 0, rangepos, 0) && (fresh(entries) || (cap(entries) == 0 && len(entries) == 0))
  loop 2 invariant forall k int {occ(arr(entries), 0, len(entries), k)}: occ(arr(entries), 0, len(entries), k) == (if k == 0 || k >= theta then 0 else occ(arr(u.hashtable.entries), 0, rangepos, k))
  loop 2 apply occAppend(head(2, arr(entries)), arr(entries), head(2, len(entries)), u.hashtable.entries[head(2, rangepos)])
  loop 2 apply occPushAll(head(2, arr(entries)), 0, head(2, len(entries)), u.hashtable.entries[head(2, rangepos)])
  loop 2 apply occSnocAll(arr(u.hashtable.entries), 0, head(2, rangepos))

func NewCompactSketch
  requires skOK(source)
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  ensures @inv fresh(result) && result.isEmpty == source.IsEmpty() && result.theta == source.Theta64() && result.seedHash == source.SeedHash() && (result.isOrdered <==> source.IsOrdered() || ordered)
  ensures @size len(result.entries) == source.NumRetained()
  ensures @set forall k int {csHas(result, k)}: csHas(result, k) == skHas(source, k)
  ensures @order result.isOrdered ==> sorted(result)
  loop 1 invariant 0 <= rangepos && rangepos <= skN(source) && off(entries) == 0 && len(entries) == rangepos && (fresh(entries) || (cap(entries) == 0 && len(entries) == 0))
  loop 1 invariant forall i int {entries[i]}: 0 <= i && i < rangepos ==> entries[i] == skA(source)[i]
define aMinusB(a, b, th, k) = if k < th && skHas(a, k) >= 1 && skHas(b, k) == 0 then 1 else 0
func computeSortBased
  requires skOK(a) && skOK(b)
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  use occMonoT
  ensures @fresh fresh(result) || (cap(result) == 0 && len(result) == 0)
  ensures off(result) == 0
  ensures @off len(result) <= a.NumRetained()
  ensures @set forall k int {occ(arr(result), 0, len(result), k)}: occ(arr(result), 0, len(result), k) == aMinusB(a, b, theta, k)
  ensures @order a.IsOrdered() ==> forall i, j int {result[i], result[j]}: 0 <= i && i < j && j < len(result) ==> result[i] < result[j]
  loop 1 invariant 0 <= rangepos && rangepos <= skN(b) && fresh(bEntries)
  loop 1 invariant forall k int {has(bEntries, k)}: has(bEntries, k) <==> occ(skA(b), 0, rangepos, k) >= 1
  loop 1 apply occSnocAll(skA(b), 0, head(1, rangepos))
  loop 2 invariant 0 <= rangepos && rangepos <= skN(a) && off(entries) == 0 && len(entries) <= rangepos && (fresh(entries) || (cap(entries) == 0 && len(entries) == 0))
  loop 2 invariant forall k int {occ(arr(entries), 0, len(entries), k)}: occ(arr(entries), 0, len(entries), k) == (if k < theta && skHas(b, k) == 0 then occ(skA(a), 0, rangepos, k) else 0)
  loop 2 invariant a.IsOrdered() ==> forall i, j int {entries[i], entries[j]}: 0 <= i && i < j && j < len(entries) ==> entries[i] < entries[j]
  loop 2 invariant a.IsOrdered() ==> forall i, j int {entries[i], skA(a)[j]}: 0 <= i && i < len(entries) && rangepos <= j && j < skN(a) ==> entries[i] < skA(a)[j]
  loop 2 apply occAppend(head(2, arr(entries)), arr(entries), head(2, len(entries)), skA(a)[head(2, rangepos)])
  loop 2 apply occPushAll(head(2, arr(entries)), 0, head(2, len(entries)), skA(a)[head(2, rangepos)])
  loop 2 apply occSnocAll(skA(a), 0, head(2, rangepos))
func computeHashBased
  requires skOK(a) && skOK(b) && b.NumRetained() > 0 && 0 < theta
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  use occTail
  ensures @noerr result1 == nil
  ensures @fresh fresh(result0) || (cap(result0) == 0 && len(result0) == 0)
  ensures off(result0) == 0
  ensures @off len(result0) <= a.NumRetained()
  ensures @set forall k int {occ(arr(result0), 0, len(result0), k)}: occ(arr(result0), 0, len(result0), k) == aMinusB(a, b, theta, k)
  ensures @order a.IsOrdered() ==> forall i, j int {result0[i], result0[j]}: 0 <= i && i < j && j < len(result0) ==> result0[i] < result0[j]
  loop 1 invariant 0 <= rangepos && rangepos <= skN(b) && ref(table) > 0 && fresh(table) && fresh(table.entries) && tabCore(table) && table.lgCurSize == lgSize && table.lgNomSize == lgSize && table.rf == 0 && table.numEntries <= rangepos
  loop 1 invariant forall k int {card(table, k)}: k != 0 ==> card(table, k) == (if k < theta then occ(skA(b), 0, rangepos, k) else 0)
  loop 1 apply occSnocAll(skA(b), 0, head(1, rangepos))
  loop 1 apply occNone(head(1, arr(table.entries)), 0, len(table.entries), 0)
  loop 1 apply occOnce(skA(b), rangepos, skN(b))
  loop 2 invariant arr(table.entries) == entry(arr(table.entries)) && card(table, 0) >= 1
  loop 2 invariant forall k int {card(table, k)}: k != 0 ==> card(table, k) == (if k < theta then skHas(b, k) else 0)
  loop 2 invariant 0 <= rangepos && rangepos <= skN(a) && ref(entries) != ref(table.entries) && off(entries) == 0 && len(entries) <= rangepos && (fresh(entries) || (cap(entries) == 0 && len(entries) == 0))
  loop 2 invariant forall k int {occ(arr(entries), 0, len(entries), k)}: !(k < theta && skHas(b, k) == 0) ==> occ(arr(entries), 0, len(entries), k) == 0
  loop 2 invariant forall k int {occ(arr(entries), 0, len(entries), k)}: k < theta && skHas(b, k) == 0 ==> occ(arr(entries), 0, len(entries), k) == occ(skA(a), 0, rangepos, k)
  loop 2 invariant a.IsOrdered() ==> forall i, j int {entries[i], entries[j]}: 0 <= i && i < j && j < len(entries) ==> entries[i] < entries[j]
  loop 2 invariant a.IsOrdered() ==> forall i, j int {entries[i], skA(a)[j]}: 0 <= i && i < len(entries) && rangepos <= j && j < skN(a) ==> entries[i] < skA(a)[j]
  loop 2 apply occAppend(head(2, arr(entries)), arr(entries), head(2, len(entries)), skA(a)[head(2, rangepos)])
  loop 2 apply occPushAll(head(2, arr(entries)), 0, head(2, len(entries)), skA(a)[head(2, rangepos)])
  loop 2 apply occSnocAll(skA(a), 0, head(2, rangepos))
func ANotB
  timeout 60
  requires skOK(a) && skOK(b)
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  use occMonoT
  let th = if a.IsEmpty() || (a.NumRetained() > 0 && b.IsEmpty()) then a.Theta64() else mn(a.Theta64(), b.Theta64())
  ensures @seed result1 == nil && !a.IsEmpty() && !(a.NumRetained() > 0 && b.IsEmpty()) ==> a.SeedHash() == seedHashOf(seed) && b.SeedHash() == seedHashOf(seed)
  ensures @new result1 == nil ==> fresh(result0) && result0.theta == th
  ensures @set result1 == nil ==> forall k int {csHas(result0, k)}: csHas(result0, k) == aMinusB(a, b, th, k)
  ensures @empty result1 == nil ==> (result0.isEmpty <==> a.IsEmpty() || (len(result0.entries) == 0 && result0.theta == MaxTheta))
  ensures @order result1 == nil && ordered ==> result0.isOrdered
  ensures @ordered result1 == nil && result0.isOrdered ==> a.IsOrdered() || ordered || len(result0.entries) <= 1
  ensures @sortedA result1 == nil && a.IsOrdered() && !a.IsEmpty() && b.NumRetained() == 0 ==> sorted(result0)
  ensures @sortedB result1 == nil && a.IsOrdered() && !a.IsEmpty() && b.NumRetained() > 0 && b.IsOrdered() ==> sorted(result0)
  ensures @sortedC result1 == nil && a.IsOrdered() && !a.IsEmpty() && b.NumRetained() > 0 && !b.IsOrdered() ==> sorted(result0)
  ensures @sortedD result1 == nil && a.IsOrdered() && a.IsEmpty() ==> sorted(result0)
  ensures @sortedO result1 == nil && !a.IsOrdered() && ordered ==> sorted(result0)
  use occNone
  loop 1 invariant 0 <= rangepos && rangepos <= skN(a) && off(entries) == 0 && len(entries) <= rangepos && (fresh(entries) || (cap(entries) == 0 && len(entries) == 0))
  loop 1 invariant forall k int {occ(arr(entries), 0, len(entries), k)}: occ(arr(entries), 0, len(entries), k) == (if k < theta then occ(skA(a), 0, rangepos, k) else 0)
  loop 1 invariant a.IsOrdered() ==> forall i, j int {entries[i], entries[j]}: 0 <= i && i < j && j < len(entries) ==> entries[i] < entries[j]
  loop 1 invariant a.IsOrdered() ==> forall i, j int {entries[i], skA(a)[j]}: 0 <= i && i < len(entries) && rangepos <= j && j < skN(a) ==> entries[i] < skA(a)[j]
  loop 1 apply occAppend(head(1, arr(entries)), arr(entries), head(1, len(entries)), skA(a)[head(1, rangepos)])
  loop 1 apply occPushAll(head(1, arr(entries)), 0, head(1, len(entries)), skA(a)[head(1, rangepos)])
  loop 1 apply occSnocAll(skA(a), 0, head(1, rangepos))

define inTab(t) = ref(t) > 0 && 0 < t.theta && t.theta <= MaxTheta && (t.numEntries > 0 ==> tabCore(t) && t.numEntries < 134217728 && t.numEntries < len(t.entries)) && tabBelow(t) && (t.numEntries == 0 ==> len(t.entries) == 0) && (t.isEmpty ==> t.numEntries == 0 && t.theta == MaxTheta) && off(t.entries) == 0
define inOK(i) = i.policy != nil && inTab(i.hashtable) && (!i.isValid ==> i.hashtable.numEntries == 0 && i.hashtable.theta == MaxTheta)
func (*Intersection).Update
  timeout 60
  requires inOK(i) && skOK(sketch)
  modifies i.isValid, i.hashtable, i.hashtable.*
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  use occTail
  let t0 = i.hashtable
  ensures @seed !old(t0.isEmpty) && !sketch.IsEmpty() && sketch.SeedHash() != seedHashOf(old(t0.seed)) ==> result != nil
  ensures @noop old(t0.isEmpty) ==> result == nil && unchanged(i.hashtable, i.isValid, i.hashtable.isEmpty, i.hashtable.theta)
  ensures @inva result == nil ==> i.policy != nil && ref(i.hashtable) > 0 && 0 < i.hashtable.theta && i.hashtable.theta <= MaxTheta
  ensures @invb result == nil && i.hashtable.numEntries > 0 ==> tabCore(i.hashtable) && i.hashtable.numEntries < 134217728 && i.hashtable.numEntries < len(i.hashtable.entries)
  ensures @invc result == nil ==> tabBelow(i.hashtable)
  ensures @invd result == nil && i.hashtable.numEntries == 0 ==> len(i.hashtable.entries) == 0
  ensures @inve result == nil && i.hashtable.isEmpty ==> i.hashtable.numEntries == 0 && i.hashtable.theta == MaxTheta
  ensures @invf result == nil ==> off(i.hashtable.entries) == 0
  ensures @invg result == nil && !i.isValid ==> i.hashtable.numEntries == 0 && i.hashtable.theta == MaxTheta
  ensures @valid result == nil ==> old(t0.isEmpty) || i.isValid
  ensures @seedkept result == nil ==> i.hashtable.seed == old(t0.seed)
  ensures @theta result == nil && !old(t0.isEmpty) ==> i.hashtable.theta == (if sketch.IsEmpty() then MaxTheta else mn(old(t0.theta), sketch.Theta64()))
  ensures @empty result == nil && !old(t0.isEmpty) && sketch.IsEmpty() ==> i.hashtable.isEmpty
  ensures @set result == nil && !old(t0.isEmpty) ==> forall k int {card(i.hashtable, k)}: k != 0 ==> card(i.hashtable, k) == (if k < i.hashtable.theta && (old(i.isValid) ==> old(card(i.hashtable, k)) >= 1) && skHas(sketch, k) >= 1 then 1 else 0)
  loop 3 invariant 0 <= rangepos && rangepos <= skN(sketch) && ref(i.hashtable) > 0 && fresh(i.hashtable) && fresh(i.hashtable.entries)
  loop 3 invariant tabCore(i.hashtable)
  loop 3 invariant tabBelow(i.hashtable)
  loop 3 invariant i.hashtable.lgNomSize == i.hashtable.lgCurSize - 1 && skN(sketch) < pow2(i.hashtable.lgCurSize) && skN(sketch) <= (15 * pow2(i.hashtable.lgCurSize)) / 16 && i.hashtable.numEntries == rangepos
  loop 3 invariant i.hashtable.theta == entry(i.hashtable.theta) && i.hashtable.seed == entry(i.hashtable.seed) && i.hashtable.isEmpty == entry(i.hashtable.isEmpty) && ref(i.hashtable) == entry(ref(i.hashtable))
  loop 3 invariant forall k int {card(i.hashtable, k)}: k != 0 ==> card(i.hashtable, k) == occ(skA(sketch), 0, rangepos, k)
  loop 3 apply occSnocAll(skA(sketch), 0, head(3, rangepos))
  loop 3 apply occNone(head(3, arr(i.hashtable.entries)), 0, len(i.hashtable.entries), 0)
  loop 3 apply occOnce(skA(sketch), rangepos, skN(sketch))
  loop 1 invariant 0 <= rangepos && rangepos <= skN(sketch) && fresh(matchesEntries) && len(matchesEntries) == matchCount && matchCount <= rangepos && count == rangepos
  loop 1 apply occOnce(skA(sketch), rangepos, skN(sketch))
  loop 1 invariant forall k int {occ(arr(matchesEntries), 0, len(matchesEntries), k)}: occ(arr(matchesEntries), 0, len(matchesEntries), k) <= 1
  loop 1 invariant forall m int {matchesEntries[m]}: 0 <= m && m < len(matchesEntries) ==> 0 < matchesEntries[m] && matchesEntries[m] < i.hashtable.theta
  loop 1 invariant forall k int {occ(arr(matchesEntries), 0, len(matchesEntries), k)}: occ(arr(matchesEntries), 0, len(matchesEntries), k) == (if k < i.hashtable.theta && card(i.hashtable, k) >= 1 then occ(skA(sketch), 0, rangepos, k) else 0)
  loop 1 apply occSnocAll(skA(sketch), 0, head(1, rangepos))
  loop 1 apply occAppend(head(1, arr(matchesEntries)), arr(matchesEntries), head(1, len(matchesEntries)), skA(sketch)[head(1, rangepos)])
  loop 1 apply occPushAll(head(1, arr(matchesEntries)), 0, head(1, len(matchesEntries)), skA(sketch)[head(1, rangepos)])
  loop 2 invariant 0 <= j && j <= matchCount && ref(i.hashtable) > 0 && fresh(i.hashtable) && fresh(i.hashtable.entries)
  loop 2 invariant tabCore(i.hashtable)
  loop 2 invariant tabBelow(i.hashtable)
  loop 2 invariant i.hashtable.lgNomSize == i.hashtable.lgCurSize - 1 && matchCount < pow2(i.hashtable.lgCurSize) && matchCount <= (15 * pow2(i.hashtable.lgCurSize)) / 16 && i.hashtable.numEntries == j && ref(i.hashtable.entries) != ref(matchesEntries)
  loop 2 invariant i.hashtable.theta == entry(i.hashtable.theta) && i.hashtable.seed == entry(i.hashtable.seed) && i.hashtable.isEmpty == entry(i.hashtable.isEmpty) && arr(matchesEntries) == entry(arr(matchesEntries))
  loop 2 invariant forall k int {card(i.hashtable, k)}: k != 0 ==> card(i.hashtable, k) == occ(arr(matchesEntries), 0, j, k)
  loop 2 apply occSnocAll(arr(matchesEntries), 0, head(2, j))
  loop 2 apply occNone(head(2, arr(i.hashtable.entries)), 0, len(i.hashtable.entries), 0)
  loop 2 apply occOnce(arr(matchesEntries), j, matchCount)
func (*Intersection).Result
  requires inTab(i.hashtable)
  use occBound
  use occPos
  use occEmpty
  use occFrameT
  ensures @valid !i.isValid ==> result1 != nil
  ensures @seed result1 == nil ==> uint64(result0.seedHash) == seedHashOf(i.hashtable.seed)
  ensures @new result1 == nil ==> fresh(result0) && result0.theta == i.hashtable.theta && result0.isEmpty == i.hashtable.isEmpty
  ensures @size result1 == nil ==> len(result0.entries) == i.hashtable.numEntries
  ensures @set result1 == nil ==> forall k int {csHas(result0, k)}: k != 0 ==> csHas(result0, k) == card(i.hashtable, k)
  ensures @order result1 == nil && result0.isOrdered ==> sorted(result0)
  ensures @asked result1 == nil && ordered ==> result0.isOrdered
  loop 1 invariant 0 <= rangepos && rangepos <= len(i.hashtable.entries) && fresh(entries) && len(entries) == rangepos - occ(arr(i.hashtable.entries), 0, rangepos, 0)
  loop 1 invariant forall k int {occ(arr(entries), 0, len(entries), k)}: occ(arr(entries), 0, len(entries), k) == (if k == 0 then 0 else occ(arr(i.hashtable.entries), 0, rangepos, k))
  loop 1 apply occPushAll(head(1, arr(entries)), 0, head(1, len(entries)), i.hashtable.entries[head(1, rangepos)])
  loop 1 apply occAppend(head(1, arr(entries)), arr(entries), head(1, len(entries)), i.hashtable.entries[head(1, rangepos)])
  loop 1 apply occSnocAll(arr(i.hashtable.entries), 0, head(1, rangepos))
