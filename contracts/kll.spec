package strconv
func Itoa
  trusted strconv.Itoa: the decimal form of an int
package kll
defaultprops P08

// capacity of a level at a given depth below the top, and of n levels together
define kcap(k, m, d) = max(m, intCapAux(k, d))
function ksum(k int, m int, n int) int
axiom ksumZero(k int, m int, n int)
  trigger ksum(k, m, n)
  ensures n <= 0 ==> ksum(k, m, n) == 0
  why definition of ksum (base case): the capacity of n levels
axiom ksumSnoc(k int, m int, n int)
  trigger ksum(k, m, n), intCapAux(k, n-1)
  ensures n >= 1 ==> ksum(k, m, n) == ksum(k, m, n-1) + kcap(k, m, n-1)
  why definition of ksum (recursive case)
lemma ksumBound(k int, m int, n int)
  trigger ksum(k, m, n)
  induction n
  use ksumZero
  use intCapBound
  apply ksumSnoc(k, m, n)
  apply ksumBound(k, m, n-1)
  requires 0 <= k && k <= 65535 && 0 <= m && m <= 8 && n >= 0 && n <= 61
  ensures 0 <= ksum(k, m, n) && ksum(k, m, n) <= 65535 * n && (m <= 8 && n >= 1 ==> ksum(k, m, n) >= m)
axiom intCapBound(k int, d int)
  trigger intCapAux(k, d)
  ensures 0 <= k && k <= 65535 && 0 <= d && d <= 60 ==> 0 <= intCapAux(k, d) && intCapAux(k, d) <= k
  ensures 0 <= k && k <= 65535 ==> intCapAux(k, 0) == k
  why the contract of intCapAux, proved there

func intCapAuxAux
  requires depth <= 30
  ensures result <= k
  ensures depth == 0 ==> result == k
func intCapAux
  functional
  requires depth <= 60
  ensures @bound result <= k
  ensures @top depth == 0 ==> result == k
func levelCapacity
  requires level < numLevels && numLevels <= 61
  ensures result == kcap(k, m, numLevels - level - 1)
func computeTotalItemCapacity
  requires numLevels <= 61 && m <= 8
  use ksumZero
  use ksumBound
  ensures result == ksum(k, m, numLevels)
  loop 1 invariant 0 <= level && level <= numLevels && total == ksum(k, m, numLevels) - ksum(k, m, numLevels - level)
  loop 1 apply ksumSnoc(k, m, numLevels - level)

func findLevelToCompact
  requires 2 <= m && m <= 8 && 1 <= numLevels && numLevels <= 61 && numLevels < len(levels) && off(levels) == 0
  requires forall i int {levels[i]}: 0 <= i && i < numLevels ==> levels[i] <= levels[i+1]
  requires levels[0] == 0 && levels[numLevels] == ksum(k, m, numLevels)
  use ksumZero
  ensures @found result < numLevels
  ensures @full levels[result+1] - levels[result] >= kcap(k, m, numLevels - result - 1)
  loop 1 invariant 0 <= level && level < numLevels
  loop 1 invariant levels[level] <= ksum(k, m, numLevels) - ksum(k, m, numLevels - level)
  loop 1 apply ksumSnoc(k, m, numLevels - level)
  loop 1 apply ksumSnoc(k, m, numLevels - level - 1)
  loop 1 decreases numLevels - level

// halving keeps every other item
lemma occHalf(a arr, b arr, s int, t int, h int, o int, v int)
  use occEmpty
  use occBound
  induction h
  apply h > 0 ==> occSnoc(a, s, s+h-1, v)
  apply h > 0 ==> occSnoc(b, t, t+2*h-1, v)
  apply h > 0 ==> occSnoc(b, t, t+2*h-2, v)
  apply occHalf(a, b, s, t, h-1, o, v)
  requires o == 0 || o == 1
  requires forall i int {a[i]}: s <= i && i < s + h ==> a[i] == b[t + 2*(i-s) + o]
  ensures h >= 0 ==> occ(a, s, s+h, v) <= occ(b, t, t+2*h, v)
lemma occHalfT(a arr, b arr, s int, t int, l int, v int)
  trigger occ(a, s, l, v), occ(b, t, l, v)
  use occHalf
  requires t <= s && s <= l
  requires l - t == 2 * (l - s)
  ensures (forall i int {a[i]}: s <= i && i < l ==> a[i] == b[t + 2*(i-s)]) ==> occ(a, s, l, v) <= occ(b, t, l, v)
  ensures (forall i int {a[i]}: s <= i && i < l ==> a[i] == b[t + 2*(i-s) + 1]) ==> occ(a, s, l, v) <= occ(b, t, l, v)
  apply occHalf(a, b, s, t, l-s, 0, v)
  apply occHalf(a, b, s, t, l-s, 1, v)
lemma occHalfD(a arr, b arr, s int, m int, l int, v int)
  trigger occ(a, s, m, v), occ(b, s, l, v)
  requires s <= m && m <= l && l - s == 2 * (m - s)
  ensures (forall i int {a[i]}: s <= i && i < m ==> a[i] == b[s + 2*(i-s)]) ==> occ(a, s, m, v) <= occ(b, s, l, v)
  ensures (forall i int {a[i]}: s <= i && i < m ==> a[i] == b[s + 2*(i-s) + 1]) ==> occ(a, s, m, v) <= occ(b, s, l, v)
  apply occHalf(a, b, s, s, m-s, 0, v)
  apply occHalf(a, b, s, s, m-s, 1, v)

func deterministicOffset
  trusted test hook: flips a package variable between 0 and 1
  modifies global(nextOffsetForTest)
  ensures result == 0 || result == 1

func randomlyHalveUpItems
  instance int64
  requires start + length <= len(buf) && length % 2 == 0 && length >= 2 && off(buf) == 0 && len(buf) <= 2147483647
  let h = length / 2
  let lim = start + length
  modifies buf[start+h..lim], global(nextOffsetForTest)
  ensures @half forall v, x, y int {occ(arr(buf), x, y, v)}: x == start+h && y == lim ==> occ(arr(buf), x, y, v) <= occ(old(arr(buf)), start, lim, v)
  loop 1 invariant start + h - 1 <= i && i < lim && 0 <= offset && offset <= 1
  loop 1 invariant i >= start + h ==> j == lim - 1 - offset - 2*(lim - 1 - i)
  loop 1 invariant forall t int {buf[t]}: i < t && t < lim ==> buf[t] == old(arr(buf))[start + 2*(t - start - h) + 1 - offset]
  loop 1 invariant forall t int {buf[t]}: start <= t && t <= i ==> buf[t] == old(buf[t])
  use occHalfT

func randomlyHalveDownItems
  instance int64
  requires start + length <= len(buf) && length % 2 == 0 && off(buf) == 0 && len(buf) <= 2147483647
  let h = length / 2
  let lim = start + length
  modifies buf[start..start+h], global(nextOffsetForTest)
  ensures @half forall v, x, y int {occ(arr(buf), x, y, v)}: x == start && y == start+h ==> occ(arr(buf), x, y, v) <= occ(old(arr(buf)), start, lim, v)
  loop 1 invariant start <= i && i <= start + h && 0 <= offset && offset <= 1 && j == start + offset + 2*(i - start)
  loop 1 invariant forall t int {buf[t]}: start <= t && t < i ==> buf[t] == old(arr(buf))[start + 2*(t - start) + offset]
  loop 1 invariant forall t int {buf[t]}: i <= t && t < lim ==> buf[t] == old(buf[t])
  use occHalfD

lemma occSnocT(a arr, lo int, i int, j int, v int)
  trigger occ(a, lo, i, v), occ(a, lo, j, v)
  apply occSnoc(a, lo, i, v)
  requires j == i + 1 && lo <= i
  ensures occ(a, lo, j, v) == occ(a, lo, i, v) + (if a[i] == v then 1 else 0)

lemma occShift(a arr, b arr, lo int, hi int, d int, v int)
  use occEmpty
  induction hi - lo
  apply hi > lo ==> occSnoc(a, lo, hi-1, v)
  apply hi > lo ==> occSnoc(b, lo+d, hi+d-1, v)
  apply occShift(a, b, lo, hi-1, d, v)
  requires forall i int {a[i]}: lo <= i && i < hi ==> b[i+d] == a[i]
  ensures occ(b, lo+d, hi+d, v) == occ(a, lo, hi, v)
lemma occShiftT(a arr, b arr, lo int, hi int, lo2 int, hi2 int, v int)
  trigger occ(a, lo, hi, v), occ(b, lo2, hi2, v)
  apply occShift(a, b, lo, hi, lo2-lo, v)
  requires lo2 - lo == hi2 - hi
  requires forall i int {b[i]}: lo2 <= i && i < hi2 ==> b[i] == a[i-(lo2-lo)]
  ensures occ(b, lo2, hi2, v) == occ(a, lo, hi, v)

// merging two runs keeps every item; the target may be the second run's own buffer, right before it
func mergeSortedItemsArrays
  instance int64
  requires compareFn != nil && off(bufA) == 0 && off(bufB) == 0 && off(bufC) == 0
  requires startA + lenA <= len(bufA) && startB + lenB <= len(bufB) && startC + lenA + lenB <= len(bufC)
  requires len(bufA) <= 2147483647 && len(bufB) <= 2147483647 && len(bufC) <= 2147483647
  requires ref(bufC) != ref(bufA) || startA + lenA <= startC
  requires ref(bufC) != ref(bufB) || startC + lenA == startB
  let limC = startC + lenA + lenB
  modifies bufC[startC..limC]
  ensures @keep forall v, x, y int {occ(arr(bufC), x, y, v)}: x == startC && y == limC ==> occ(arr(bufC), x, y, v) == occ(old(arr(bufA)), startA, startA+lenA, v) + occ(old(arr(bufB)), startB, startB+lenB, v)
  use occEmpty
  use occSnocT
  use occFrameT
  loop 1 invariant startA <= a && a <= startA + lenA && startB <= b && b <= startB + lenB && c - startC == (a - startA) + (b - startB)
  loop 1 invariant forall v int {occ(arr(bufC), startC, c, v)}: occ(arr(bufC), startC, c, v) == occ(old(arr(bufA)), startA, a, v) + occ(old(arr(bufB)), startB, b, v)
  loop 1 invariant forall i int {bufA[i]}: a <= i && i < startA + lenA ==> bufA[i] == old(arr(bufA))[i]
  loop 1 invariant forall i int {bufB[i]}: b <= i && i < startB + lenB ==> bufB[i] == old(arr(bufB))[i]
  loop 1 decreases limC - c

// weight of the items of a level, and of n levels
function wt(l int, c int) math
axiom wtDef(l int, c int)
  ensures wt(l, c) == pow2(l) * c
  why definition of wt: a level-l item stands for 2^l inputs
lemma wtHalf(l int, o int, h int)
  requires l >= 0
  apply wtDef(l, o + 2*h)
  apply wtDef(l, o)
  apply wtDef(l+1, h)
  ensures wt(l, o + 2*h) == wt(l, o) + wt(l+1, h)
lemma wtAdd(l int, a int, b int)
  apply wtDef(l, a + b)
  apply wtDef(l, a)
  apply wtDef(l, b)
  ensures wt(l, a + b) == wt(l, a) + wt(l, b)
lemma wtZero(l int, c int)
  trigger wt(l, c)
  apply wtDef(l, 0)
  ensures c == 0 ==> wt(l, c) == 0
lemma wtOne(c int)
  trigger wt(0, c)
  apply wtDef(0, c)
  ensures wt(0, c) == c
function kw(lv arr, n int) math
axiom kwZero(lv arr, n int)
  trigger kw(lv, n)
  ensures n <= 0 ==> kw(lv, n) == 0
  why definition of kw (base case): the weight retained in the first n levels
axiom kwSnoc(lv arr, n int)
  ensures n >= 1 ==> kw(lv, n) == kw(lv, n-1) + wt(n-1, lv[n] - lv[n-1])
  why definition of kw (recursive case)
lemma kwShift(a arr, b arr, n int, d int)
  induction n
  use kwZero
  apply kwSnoc(a, n)
  apply kwSnoc(b, n)
  apply kwShift(a, b, n-1, d)
  requires forall j int: 0 <= j && j <= n ==> b[j] == a[j] + d
  ensures kw(b, n) == kw(a, n)
lemma kwTail(a arr, b arr, c int, n int)
  induction n
  apply n > c ==> kwSnoc(a, n)
  apply n > c ==> kwSnoc(b, n)
  apply n > c ==> kwTail(a, b, c, n-1)
  requires 0 <= c && c <= n
  requires forall j int: c <= j && j <= n ==> b[j] == a[j]
  ensures kw(b, n) - kw(b, c) == kw(a, n) - kw(a, c)
// compacting level c moves half of its paired items up with twice the weight
lemma kwCompact(a arr, b arr, c int, n int, h int)
  apply kwShift(a, b, c, h)
  apply kwSnoc(a, c+1)
  apply kwSnoc(b, c+1)
  apply kwSnoc(a, c+2)
  apply kwSnoc(b, c+2)
  apply kwTail(a, b, c+2, n)
  apply wtHalf(c, b[c+1] - b[c], h)
  apply wtAdd(c+1, a[c+2] - a[c+1], h)
  requires 0 <= c && c + 2 <= n
  requires forall j int: 0 <= j && j <= c ==> b[j] == a[j] + h
  requires b[c+1] == a[c+1] - h
  requires forall j int: c + 2 <= j && j <= n ==> b[j] == a[j]
  ensures kw(b, n) == kw(a, n)

define kmono(s) = forall i, j int {arr(s.levels)[i], arr(s.levels)[j]} {s.levels[i], s.levels[j]}: 0 <= i && i <= j && j <= s.numLevels ==> s.levels[i] <= s.levels[j]
define kshape(s) = ref(s) > 0 && 8 <= s.k && 2 <= s.m && s.m <= 8 && 1 <= s.numLevels && s.numLevels <= 61 && len(s.levels) == s.numLevels + 1 && off(s.levels) == 0 && off(s.items) == 0 \
  && len(s.items) == ksum(s.k, s.m, s.numLevels) && s.levels[s.numLevels] == len(s.items)
define kweigh(s) = kw(arr(s.levels), s.numLevels) == s.n
define kret(s, v) = occ(arr(s.items), s.levels[0], len(s.items), v)

func (*ItemsSketch).addEmptyTopLevelToCompletelyFullSketch
  instance int64
  requires kshape(s) && s.numLevels <= 60
  requires kmono(s)
  requires s.levels[0] == 0
  modifies s.levels, s.numLevels, s.items
  ensures @shape kshape(s) && s.numLevels == old(s.numLevels) + 1 && s.m == old(s.m) && s.k == old(s.k)
  ensures @mono kmono(s)
  ensures @up forall i int {s.levels[i]} {old(arr(s.levels))[i]}: 0 <= i && i <= old(s.numLevels) ==> s.levels[i] == old(arr(s.levels))[i] + s.levels[0]
  ensures @room s.levels[0] == kcap(s.k, s.m, old(s.numLevels)) && s.levels[old(s.numLevels)] == s.levels[s.numLevels]
  ensures @grow s.levels[0] == len(s.items) - old(len(s.items))
  ensures @fresh fresh(s.levels) && fresh(s.items)
  ensures @weight kw(arr(s.levels), s.numLevels) == old(kw(arr(s.levels), s.numLevels))
  ensures @items forall v int {kret(s, v)}: kret(s, v) == old(kret(s, v))
  ensures @copy forall i int {s.items[i]}: s.levels[0] <= i && i < len(s.items) ==> s.items[i] == old(arr(s.items))[i - s.levels[0]]
  ensures @copied forall i int {old(arr(s.items))[i]}: 0 <= i && i < old(len(s.items)) ==> s.items[i + s.levels[0]] == old(arr(s.items))[i]
  use occShiftT
  use ksumBound
  use intCapBound
  use wtZero
  apply ksumSnoc(s.k, s.m, s.numLevels)
  apply kwShift(old(arr(s.levels)), arr(s.levels), old(s.numLevels), s.levels[0])
  apply kwSnoc(arr(s.levels), s.numLevels)
  loop 1 invariant 0 <= level && level <= myNewNumLevels && len(myNewLevelsArr) == old(s.numLevels) + 2 && fresh(myNewLevelsArr)
  loop 1 invariant deltaItemsCap <= 65535 && old(len(s.items)) <= 65535 * 60
  loop 1 invariant forall i int {myNewLevelsArr[i]}: 0 <= i && i <= old(s.numLevels) ==> old(arr(s.levels))[i] <= 65535 * 60
  loop 1 invariant forall i int {myNewLevelsArr[i]}: 0 <= i && i < level ==> myNewLevelsArr[i] == old(arr(s.levels))[i] + deltaItemsCap
  loop 1 invariant forall i int {myNewLevelsArr[i]}: level <= i && i <= old(s.numLevels) ==> myNewLevelsArr[i] == old(arr(s.levels))[i]
  loop 2 invariant 0 <= i && i <= len(s.items)
  loop 2 invariant forall t int {myNewItemsArr[t]}: deltaItemsCap <= t && t < deltaItemsCap + i ==> myNewItemsArr[t] == old(arr(s.items))[t - deltaItemsCap]

// the same for the weights when the full top level is compacted into a new one
lemma kwCompactTop(a arr, b arr, c int, h int, d int)
  apply kwShift(a, b, c, h+d)
  apply kwSnoc(a, c+1)
  apply kwSnoc(b, c+1)
  apply kwSnoc(b, c+2)
  apply wtHalf(c, b[c+1] - b[c], h)
  requires 0 <= c
  requires forall j int: 0 <= j && j <= c ==> b[j] == a[j] + h + d
  requires b[c+1] == a[c+1] + d - h && b[c+2] == a[c+1] + d
  ensures kw(b, c+2) == kw(a, c+1)

func (*ItemsSketch).compressWhileUpdatingSketch
  instance int64
  requires kshape(s) && s.numLevels <= 60 && s.compareFn != nil
  requires kmono(s)
  requires s.levels[0] == 0
  let d = len(s.items) - old(len(s.items))
  modifies s.levels, s.numLevels, s.items, s.levels[*], s.items[*], global(nextOffsetForTest)
  ensures @shape kshape(s) && old(s.numLevels) <= s.numLevels && s.numLevels <= old(s.numLevels) + 1
  ensures @mono kmono(s)
  ensures @room s.levels[0] > 0
  ensures @weight kw(arr(s.levels), s.numLevels) == old(kw(arr(s.levels), s.numLevels))
  ensures @owned (ref(s.levels) == old(ref(s.levels)) || fresh(s.levels)) && (ref(s.items) == old(ref(s.items)) || fresh(s.items))
  use ksumBound
  use intCapBound
  loop 1 invariant i <= amount && amount == rawBeg - d
  loop 1 invariant 0 <= d && 0 < level && rawBeg <= adjBeg && adjBeg + 2*halfAdjPop == rawEnd && rawEnd <= myLevelsArr[level+2] && 1 <= halfAdjPop && d <= rawBeg
  loop 1 invariant forall j int {old(arr(s.levels))[j]}: 0 <= j && j < level ==> s.levels[j] == old(arr(s.levels))[j] + d
  loop 2 invariant 0 <= lvl && lvl <= level && level + 2 <= s.numLevels && len(s.levels) == s.numLevels + 1
  loop 2 invariant 0 <= d && d <= rawBeg && rawBeg <= adjBeg && adjBeg + 2*halfAdjPop == rawEnd && rawEnd <= myLevelsArr[level+2] && 1 <= halfAdjPop
  loop 2 invariant forall j int {s.levels[j]} {arr(s.levels)[j]} {old(arr(s.levels))[j]}: 0 <= j && j < lvl ==> s.levels[j] == old(arr(s.levels))[j] + d + halfAdjPop
  loop 2 invariant forall j int {s.levels[j]} {arr(s.levels)[j]} {old(arr(s.levels))[j]}: lvl <= j && j < level ==> s.levels[j] == old(arr(s.levels))[j] + d
  loop 2 invariant s.levels[level] == rawBeg + halfAdjPop && rawBeg == old(arr(s.levels))[level] + d && s.levels[level+1] == rawEnd - halfAdjPop && rawEnd == old(arr(s.levels))[level+1] + d
  loop 2 invariant s.numLevels > old(s.numLevels) ==> level + 2 == s.numLevels && s.levels[level+2] == rawEnd
  loop 2 invariant s.numLevels == old(s.numLevels) ==> d == 0 && (forall j int {s.levels[j]} {arr(s.levels)[j]} {old(arr(s.levels))[j]}: level + 2 <= j && j <= s.numLevels ==> s.levels[j] == old(arr(s.levels))[j])
  loop 2 apply lvl == level && s.numLevels == old(s.numLevels) ==> kwCompact(old(arr(s.levels)), arr(s.levels), level, s.numLevels, halfAdjPop)
  loop 2 apply lvl == level && s.numLevels > old(s.numLevels) ==> kwCompactTop(old(arr(s.levels)), arr(s.levels), level, halfAdjPop, d)

lemma kwStore0(a arr, v int, n int)
  trigger kw(store(a, 0, v), n)
  apply kwTail(a, store(a, 0, v), 1, n)
  apply kwSnoc(a, 1)
  apply kwSnoc(store(a, 0, v), 1)
  use wtOne
  use kwZero
  requires n >= 1
  ensures kw(store(a, 0, v), n) == kw(a, n) + a[0] - v

func (*ItemsSketch).updateItem
  instance int64
  requires kshape(s) && s.numLevels <= 60 && s.compareFn != nil && compareFn != nil
  requires kmono(s)
  requires kweigh(s) && s.n < 9223372036854775807
  modifies s.*, s.levels[*], s.items[*], global(nextOffsetForTest)
  ensures @shape kshape(s) && s.k == old(s.k) && s.m == old(s.m) && s.minK == old(s.minK) && s.compareFn == old(s.compareFn)
  ensures @mono kmono(s)
  ensures @count s.n == old(s.n) + 1
  ensures @weight kweigh(s)
  ensures @held s.levels[0] < s.levels[1] && s.items[s.levels[0]] == item
  ensures @first !old(s.hasMinMax) ==> s.minItem == item && s.maxItem == item
  ensures @minmax s.hasMinMax && (s.minItem == item || s.minItem == old(s.minItem)) && (s.maxItem == item || s.maxItem == old(s.maxItem))
  ensures @unsorted !s.isLevelZeroSorted
  ensures @room old(s.levels[0]) > 0 ==> s.numLevels == old(s.numLevels) && len(s.items) == old(len(s.items)) && s.levels[0] == old(s.levels[0]) - 1
  ensures @rest old(s.levels[0]) > 0 ==> (forall i int {s.items[i]}: s.levels[0] < i && i < len(s.items) ==> s.items[i] == old(arr(s.items))[i])
  use kwStore0

func (*ItemsSketch).Update
  instance int64
  requires kshape(s) && s.numLevels <= 60 && s.compareFn != nil
  requires kmono(s)
  requires kweigh(s) && s.n < 9223372036854775807
  modifies s.*, s.levels[*], s.items[*], global(nextOffsetForTest)
  ensures @shape kshape(s) && s.k == old(s.k) && s.m == old(s.m) && s.minK == old(s.minK) && s.compareFn == old(s.compareFn)
  ensures @mono kmono(s)
  ensures @count s.n == old(s.n) + 1
  ensures @weight kweigh(s)
  ensures @held s.levels[0] < s.levels[1] && s.items[s.levels[0]] == item
  ensures @first !old(s.hasMinMax) ==> s.minItem == item && s.maxItem == item
  ensures @minmax s.hasMinMax && (s.minItem == item || s.minItem == old(s.minItem)) && (s.maxItem == item || s.maxItem == old(s.maxItem))
  ensures @rest old(s.levels[0]) > 0 ==> (forall i int {s.items[i]}: s.levels[0] < i && i < len(s.items) ==> s.items[i] == old(arr(s.items))[i])
  ensures @fresh s.sortedView == nil
func (*ItemsSketch).Reset
  instance int64
  requires ref(s) > 0 && 8 <= s.k && 2 <= s.m && s.m <= 8
  modifies s.*
  ensures @shape kshape(s) && s.k == old(s.k) && s.m == old(s.m) && s.minK == s.k && s.compareFn == old(s.compareFn)
  ensures @mono kmono(s)
  ensures @empty s.n == 0 && !s.hasMinMax && s.numLevels == 1 && s.levels[0] == s.levels[1] && s.sortedView == nil
  ensures @weight kweigh(s)
  use ksumZero
  use intCapBound
  use kwZero
  use wtZero
  apply ksumSnoc(s.k, s.m, 1)
  apply kwSnoc(arr(s.levels), 1)
func checkM
  ensures (result == nil) == (2 <= m && m <= 8 && m % 2 == 0)
func NewKllItemsSketch
  instance int64
  ensures @accepts (result1 == nil) == (8 <= k && 2 <= m && m <= 8 && m % 2 == 0 && compareFn != nil)
  ensures @shape result1 == nil ==> kshape(result0) && result0.k == k && result0.m == m && result0.minK == k && result0.compareFn == compareFn
  ensures @mono result1 == nil ==> kmono(result0)
  ensures @empty result1 == nil ==> result0.n == 0 && !result0.hasMinMax && result0.numLevels == 1
  ensures @weight result1 == nil ==> kweigh(result0)
  use ksumZero
  use intCapBound
  use kwZero
  use wtZero
  apply ksumSnoc(k, m, 1)
  apply result1 == nil ==> kwSnoc(arr(result0.levels), 1)
