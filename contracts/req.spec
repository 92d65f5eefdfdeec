// REQ sketch
package math/rand/v2
defaultprops P09
func IntN
  trusted math/rand/v2: IntN(n) is in [0, n) for n > 0
  requires n > 0
  ensures 0 <= result && result < n

package req
defaultprops P09

// a compactor: its active items are the last (high rank accuracy) or the first count slots
define cShape(c) = c != nil && len(c.items) == cap(c.items) && off(c.items) == 0 && 0 <= c.count && c.count <= len(c.items) && len(c.items) <= 1099511627776 && 0 <= c.delta && c.delta <= 1099511627776
define cWF(c) = cShape(c) && 4 <= c.sectionSize && c.sectionSize <= 1024 && c.sectionSize % 2 == 0 && (c.numSections == 3 || c.numSections == 6 || c.numSections == 12 || c.numSections == 24 || c.numSections == 48) && 0 <= c.state && c.state <= 35184372088832
define cFirst(c) = (if c.isHighRankAccuracyMode then len(c.items) - c.count else 0)

func (*compactor).Count
  inline
func (*compactor).Capacity
  inline
func (*compactor).NomCapacity
  requires c != nil && 0 <= c.sectionSize && c.sectionSize <= 1024
  ensures result == 2 * c.numSections * c.sectionSize
func (*compactor).Item
  requires cShape(c) && 0 <= offset && offset < c.count
  ensures result === c.items[cFirst(c) + offset]

func nearestEven
  trusted float rounding: the even number nearest to val; val is a section size, which starts at k <= 1024 and is only ever divided by sqrt(2)
  ensures result % 2 == 0 && 0 <= result && result <= 1024

func numberOfTrailingOnes
  mode bv
  ensures 0 <= result && result <= 64

func newCompactor
  requires 4 <= sectionSize && sectionSize <= 1024 && sectionSize % 2 == 0
  ensures fresh(result) && fresh(result.items) && cWF(result) && result.count == 0 && result.sorted && result.lgWeight == lgWeight && result.isHighRankAccuracyMode == hra && result.sectionSize == sectionSize && result.numSections == 3 && result.state == 0 && result.delta == 6 * sectionSize && len(result.items) == 12 * sectionSize
func copyCompactor
  requires cWF(other)
  ensures @copy fresh(result) && fresh(result.items) && cWF(result) && result.count == other.count && result.isHighRankAccuracyMode == other.isHighRankAccuracyMode && result.sorted == other.sorted && result.lgWeight == other.lgWeight && len(result.items) == len(other.items) && result.delta == other.delta
  ensures @items forall i int {result.items[i]}: 0 <= i && i < len(other.items) ==> result.items[i] === other.items[i]

func (*compactor).ensureCapacity
  requires cShape(c) && newCapacity <= 1099511627776
  modifies c.items
  ensures cShape(c)
  ensures @cap len(c.items) >= newCapacity && len(c.items) >= old(len(c.items)) && (len(c.items) == old(len(c.items)) || len(c.items) == newCapacity)
  ensures ref(c.items) == old(ref(c.items)) && unchanged(c.items) || fresh(c.items)
  ensures @kept forall k int: 0 <= k && k < c.count ==> c.items[cFirst(c) + k] === old(c.items[(if c.isHighRankAccuracyMode then len(c.items) - c.count else 0) + k])
func (*compactor).ensureSpace
  requires cShape(c) && 0 <= space && space <= 549755813888 && c.count + space + c.delta <= 1099511627776
  modifies c.items
  ensures cShape(c) && c.count + space <= len(c.items) && (len(c.items) == old(len(c.items)) || len(c.items) == c.count + space + c.delta)
  ensures ref(c.items) == old(ref(c.items)) && unchanged(c.items) || fresh(c.items)
  ensures @kept forall k int: 0 <= k && k < c.count ==> c.items[cFirst(c) + k] === old(c.items[(if c.isHighRankAccuracyMode then len(c.items) - c.count else 0) + k])
func (*compactor).Append
  requires cShape(c) && c.count + c.delta < 1099511627776
  modifies c.items, c.items[*], c.count, c.sorted
  ensures @count cShape(c) && c.count == old(c.count) + 1 && !c.sorted
  ensures @put c.items[if c.isHighRankAccuracyMode then len(c.items) - c.count else c.count - 1] === item
  ensures @kept forall k int: 0 <= k && k < old(c.count) ==> c.items[(if c.isHighRankAccuracyMode then len(c.items) - old(c.count) else 0) + k] === old(c.items[(if c.isHighRankAccuracyMode then len(c.items) - c.count else 0) + k])
  ensures ref(c.items) == old(ref(c.items)) || fresh(c.items)
  ensures @size len(c.items) == old(len(c.items)) || len(c.items) == c.count + c.delta
func (*compactor).Sort
  requires cShape(c)
  modifies c.items[*], c.sorted
  ensures @shape cShape(c) && c.sorted
  ensures @outside forall i int {c.items[i]}: 0 <= i && i < len(c.items) && (i < cFirst(c) || i >= cFirst(c) + c.count) ==> c.items[i] === old(c.items[i])
func (*compactor).TrimCount
  requires c != nil
  modifies c.count
  ensures c.count == (if newCount < old(c.count) then newCount else old(c.count))
func (*compactor).ensureEnoughSections
  requires cWF(c) && len(c.items) <= 549755813888
  apply 47 <= c.numSections - 1 ==> pow2mono(47, c.numSections - 1)
  modifies c.sectionSizeFlt, c.sectionSize, c.numSections, c.items
  ensures @shape cWF(c) && (len(c.items) == old(len(c.items)) || len(c.items) <= 274877906944)
  ensures @bigger result ==> c.numSections == 2 * old(c.numSections)
  ensures @same !result ==> c.numSections == old(c.numSections) && c.sectionSize == old(c.sectionSize)
  ensures ref(c.items) == old(ref(c.items)) && unchanged(c.items) || fresh(c.items)

// which offsets a compaction removes: an even number, at the low end (high rank accuracy) or the high end
func (*compactor).computeCompactionRange
  requires cWF(c) && c.count < 1073741824 && 1 <= secsToCompact && secsToCompact <= c.numSections && c.count >= 2 * c.numSections * c.sectionSize
  let lo = result % 4294967296
  let hi = result / 4294967296
  ensures @range 0 <= lo && lo + 2 <= hi && hi <= c.count && (hi - lo) % 2 == 0
  ensures @end if c.isHighRankAccuracyMode then lo == 0 else hi == c.count
  ensures @keep c.count - (hi - lo) >= c.numSections * c.sectionSize

func (*compactor).mergeSortIn
  requires cShape(c) && cShape(other) && c != other && ref(c.items) != ref(other.items) && other.count <= 549755813888 && c.count + other.count + c.delta <= 1099511627776
  modifies c.items, c.items[*], c.count, c.sorted
  ensures @err (result == nil) <==> old(c.sorted) && other.sorted
  ensures @count result == nil ==> cShape(c) && c.count == old(c.count) + other.count && c.sorted
  ensures @size len(c.items) == old(len(c.items)) || len(c.items) == c.count + c.delta
  ensures result != nil ==> unchanged(c.items, c.count, c.sorted)
  ensures ref(c.items) == old(ref(c.items)) || fresh(c.items)
  loop 1 invariant currCap == len(c.items) && otherCap == len(other.items)
  loop 1 invariant currCap - c.count <= i && i <= currCap && otherCap - other.count <= j && j <= otherCap && k == i + j - otherCap
  loop 2 invariant -1 <= i && i < c.count && -1 <= j && j < other.count && k == i + j + 1

func (*compactor).promoteEvensOrOddsInto
  requires cShape(c) && cShape(next) && c != next && ref(c.items) != ref(next.items) && 0 <= startOffset && startOffset <= endOffset && endOffset <= c.count
  requires next.sorted && next.count + c.count + next.delta <= 549755813888
  modifies c.items[*], c.sorted, next.items, next.items[*], next.count, next.sorted
  ensures @err (result1 == nil) <==> (endOffset - startOffset) % 2 == 0
  ensures @half result1 == nil ==> 2 * result0 == endOffset - startOffset && next.count == old(next.count) + result0 && next.sorted
  ensures @shape cShape(c) && c.sorted && cShape(next) && (ref(next.items) == old(ref(next.items)) || fresh(next.items))
  ensures @size len(c.items) == old(len(c.items)) && (len(next.items) == old(len(next.items)) || len(next.items) == next.count + next.delta)
  loop 1 invariant 0 <= j && i == start + odd + 2 * j

// every compaction halves an even run of items into the next level, whose items weigh twice as much
func (*compactor).Compact
  requires cWF(c) && cWF(next) && c != next && ref(c.items) != ref(next.items) && c.count < 1073741824 && c.count >= 2 * c.numSections * c.sectionSize
  requires c.state < 35184372088832 && len(c.items) <= 274877906944 && next.count < 1073741824 && next.delta < 1073741824 && next.sorted
  modifies c.*, c.items[*], next.items, next.items[*], next.count, next.sorted
  ensures @ok result1 == nil
  ensures @weight c.count + 2 * (next.count - old(next.count)) == old(c.count)
  ensures @promotes next.count > old(next.count)
  ensures @retained result0.deltaRetItems == c.count + next.count - old(c.count) - old(next.count)
  ensures @nominal result0.deltaNomSize == 2 * c.numSections * c.sectionSize - old(2 * c.numSections * c.sectionSize)
  ensures @size (len(c.items) <= 274877906944) && (len(next.items) == old(len(next.items)) || len(next.items) <= 274877906944)
  ensures @apart ref(c.items) != ref(next.items) && (ref(c.items) == old(ref(c.items)) || fresh(c.items)) && (ref(next.items) == old(ref(next.items)) || fresh(next.items))
  ensures @shape cWF(c) && cWF(next) && next.sorted && c.sorted && c.state == old(c.state) + 1 && c.delta == old(c.delta) && c.lgWeight == old(c.lgWeight) && c.isHighRankAccuracyMode == old(c.isHighRankAccuracyMode)

func (*compactor).Merge
  requires cWF(c) && cWF(other) && c != other && ref(c.items) != ref(other.items) && c.count < 1073741824 && other.count < 1073741824 && c.delta < 1073741824 && other.delta < 1073741824 && c.isHighRankAccuracyMode == other.isHighRankAccuracyMode
  requires len(c.items) <= 274877906944 && len(other.items) <= 274877906944
  requires c.state + other.state < 35184372088832
  modifies c.*, c.items[*]
  ensures @err (result == nil) <==> c.lgWeight == other.lgWeight
  ensures @count result == nil ==> c.count == old(c.count) + other.count && c.sorted && cWF(c)
  loop 1 invariant cWF(c) && c.count == old(c.count) && c.delta == old(c.delta) && c.lgWeight == old(c.lgWeight) && c.isHighRankAccuracyMode == old(c.isHighRankAccuracyMode) && len(c.items) <= 274877906944 && (ref(c.items) == old(ref(c.items)) || fresh(c.items))
  ensures @apart ref(c.items) == old(ref(c.items)) || fresh(c.items)
  ensures @size len(c.items) <= 274877906944 && 0 <= c.delta && (c.delta == old(c.delta) || c.delta == other.delta)
  ensures @state c.state <= old(c.state) + other.state
  ensures @kept c.lgWeight == old(c.lgWeight) && c.isHighRankAccuracyMode == old(c.isHighRankAccuracyMode)

// ---- the sketch: the weights of its compactors' items add up to n
function wsum(cs arr, cnt arr, n int) math
axiom wsum0(cs arr, cnt arr)
  trigger wsum(cs, cnt, 0)
  ensures wsum(cs, cnt, 0) == 0
  why definition of the total weight of compactors 0..n-1 (base case)
axiom wsumS(cs arr, cnt arr, n int)
  trigger wsum(cs, cnt, n+1)
  ensures n >= 0 ==> wsum(cs, cnt, n+1) == wsum(cs, cnt, n) + cnt[cs[n]] * p2(n)
  why definition of the total weight of compactors 0..n-1 (recursive case)
lemma wsumFrame(cs arr, a arr, ds arr, b arr, n int)
  use wsum0
  induction n
  apply n > 0 ==> wsumS(cs, a, n-1)
  apply n > 0 ==> wsumS(ds, b, n-1)
  apply wsumFrame(cs, a, ds, b, n-1)
  requires forall i int: 0 <= i && i < n ==> a[cs[i]] == b[ds[i]]
  ensures n >= 0 ==> wsum(cs, a, n) == wsum(ds, b, n)
lemma wsumTail(cs arr, a arr, b arr, m int, n int)
  induction n - m
  apply n > m ==> wsumS(cs, a, n-1)
  apply n > m ==> wsumS(cs, b, n-1)
  apply wsumTail(cs, a, b, m, n-1)
  requires 0 <= m && m <= n
  requires forall i int: m <= i && i < n ==> a[cs[i]] == b[cs[i]]
  ensures wsum(cs, a, n) - wsum(cs, b, n) == wsum(cs, a, m) - wsum(cs, b, m)
// moving half of 2d items of compactor i into compactor i+1 changes nothing
lemma wsumPair(cs arr, a arr, b arr, n int, i int)
  apply wsumFrame(cs, a, cs, b, i)
  apply wsumS(cs, a, i)
  apply wsumS(cs, b, i)
  apply wsumS(cs, a, i+1)
  apply wsumS(cs, b, i+1)
  apply p2succ(i)
  apply wsumTail(cs, a, b, i+2, n)
  requires 0 <= i && i + 1 < n
  requires forall k int: 0 <= k && k < n && k != i && k != i + 1 ==> a[cs[k]] == b[cs[k]]
  requires b[cs[i]] + 2 * (b[cs[i+1]] - a[cs[i+1]]) == a[cs[i]]
  ensures wsum(cs, b, n) == wsum(cs, a, n)
lemma wsumOne(cs arr, a arr, b arr, n int)
  trigger wsum(cs, a, n), wsum(cs, b, n)
  apply wsumS(cs, a, 0)
  apply wsumS(cs, b, 0)
  use wsum0
  use p2zero
  apply wsumTail(cs, a, b, 1, n)
  requires 1 <= n
  requires forall k int: 1 <= k && k < n ==> a[cs[k]] == b[cs[k]]
  ensures wsum(cs, b, n) - wsum(cs, a, n) == b[cs[0]] - a[cs[0]]
lemma wsumGe(cs arr, a arr, n int, i int)
  use wsum0
  induction n
  apply n > 0 ==> wsumS(cs, a, n-1)
  apply n > 0 ==> p2mono(0, n-1)
  use p2zero
  apply wsumGe(cs, a, n-1, i)
  requires forall k int: 0 <= k && k < n ==> a[cs[k]] >= 0
  ensures n >= 0 ==> wsum(cs, a, n) >= 0
  ensures 0 <= i && i < n ==> a[cs[i]] * p2(i) <= wsum(cs, a, n)
// taking over the items of another sketch's compactor i
lemma wsumJoin(cs arr, a arr, b arr, ds arr, n int, i int)
  apply wsumFrame(cs, a, cs, b, i)
  apply wsumS(cs, a, i)
  apply wsumS(cs, b, i)
  apply wsumS(ds, a, i)
  apply wsumTail(cs, a, b, i+1, n)
  requires 0 <= i && i < n
  requires forall k int: 0 <= k && k < n && k != i ==> a[cs[k]] == b[cs[k]]
  requires b[cs[i]] == a[cs[i]] + a[ds[i]]
  ensures wsum(cs, b, n) + wsum(ds, a, i) == wsum(cs, a, n) + wsum(ds, a, i+1)

define cnts() = fieldmap("req.compactor.count")
define total(s) = wsum(arr(s.compactors), cnts(), len(s.compactors))
// the compactors are of their own weights, of the sketch's mode, and share no storage
define cAt(s, i) = s.compactors[i] != nil && alloced(s.compactors[i]) && alloced(s.compactors[i].items) && cWF(s.compactors[i]) && s.compactors[i].lgWeight == i && s.compactors[i].isHighRankAccuracyMode == s.isHighRankAccuracyMode && (i > 0 ==> s.compactors[i].sorted) && len(s.compactors[i].items) <= 274877906944 && 0 <= s.compactors[i].delta && s.compactors[i].delta < 536870912
define sHead(s) = s != nil && 1 <= len(s.compactors) && len(s.compactors) <= 60 && off(s.compactors) == 0 && 4 <= s.k && s.k <= 1024 && s.k % 2 == 0
define sEach(s) = (forall i int {s.compactors[i]} {arr(s.compactors)[i]}: 0 <= i && i < len(s.compactors) ==> cAt(s, i))
define sApart(s) = (forall i, j int {s.compactors[i], s.compactors[j]} {arr(s.compactors)[i], arr(s.compactors)[j]}: 0 <= i && i < j && j < len(s.compactors) ==> s.compactors[i] != s.compactors[j] && ref(s.compactors[i].items) != ref(s.compactors[j].items))
define sShape(s) = sHead(s) && sEach(s) && sApart(s)
define small(s) = (forall i int: 0 <= i && i < len(s.compactors) ==> s.compactors[i].count < 536870912 && s.compactors[i].state < 17592186044416)

func (*Sketch).numLevels
  inline
func (*Sketch).IsEmpty
  inline
func (*Sketch).computeRetainedItems
  inline

func (*Sketch).computeMaxNomSize
  requires s != nil && forall i int: 0 <= i && i < len(s.compactors) ==> s.compactors[i] != nil && 0 <= s.compactors[i].sectionSize && s.compactors[i].sectionSize <= 1024
func (*Sketch).grow
  requires s != nil && len(s.compactors) < 60 && off(s.compactors) == 0 && 4 <= s.k && s.k <= 1024 && s.k % 2 == 0
  requires len(s.compactors) > 0 ==> sShape(s)
  modifies s.compactors, s.compactors[0..cap(s.compactors)], s.maxNomSize
  ensures @head sHead(s)
  ensures @each sEach(s)
  ensures @distinct sApart(s)
  ensures @level len(s.compactors) == old(len(s.compactors)) + 1 && s.compactors[old(len(s.compactors))].count == 0 && s.compactors[old(len(s.compactors))].state == 0 && s.compactors[old(len(s.compactors))].sorted
  ensures @kept forall i int {s.compactors[i]} {arr(s.compactors)[i]} {old(arr(s.compactors))[i]}: 0 <= i && i < old(len(s.compactors)) ==> s.compactors[i] == old(s.compactors[i])
  ensures @weight total(s) == old(total(s))
  ensures fresh(s.compactors[old(len(s.compactors))]) && fresh(s.compactors[old(len(s.compactors))].items)
  ensures ref(s.compactors) == old(ref(s.compactors)) || fresh(s.compactors)
  apply wsumFrame(old(arr(s.compactors)), old(cnts()), arr(s.compactors), cnts(), old(len(s.compactors)))
  apply wsumS(arr(s.compactors), cnts(), old(len(s.compactors)))

func (*Sketch).compress
  requires sShape(s) && small(s) && total(s) < p2(58)
  modifies s.compactors, s.compactors[*], s.maxNomSize, s.numRetained, s.sortedView, every("req.compactor."), every("[]float32")
  ensures @ok result == nil
  ensures @shape sHead(s) && s.sortedView == nil
  ensures @each sEach(s)
  ensures @distinct sApart(s)
  ensures @weight total(s) == old(total(s))
  loop 1 invariant 0 <= i && i <= len(s.compactors) && sHead(s) 
  loop 1 invariant sEach(s)
  loop 1 invariant sApart(s)
  loop 1 invariant ref(s.compactors) == old(ref(s.compactors)) || fresh(s.compactors)
  loop 1 invariant total(s) == old(total(s))
  loop 1 invariant forall k int: i <= k && k < len(s.compactors) ==> s.compactors[k].count < (if k == i then 1073741824 else 536870912) && s.compactors[k].state < 17592186044416
  loop 1 apply wsumGe(arr(s.compactors), cnts(), len(s.compactors), i)
  loop 1 apply i >= 58 ==> p2mono(58, i)
  loop 1 apply headv(1, i) + 1 < len(s.compactors) ==> wsumPair(arr(s.compactors), head(1, cnts()), cnts(), len(s.compactors), headv(1, i))

define sWF(s) = sShape(s) && s.n == total(s) && 0 <= s.n
define light(s, lim) = (forall i int: 0 <= i && i < len(s.compactors) ==> s.compactors[i].count < lim && s.compactors[i].state < 8796093022208)

func (*Sketch).validateK
  requires s != nil
  ensures (result == nil) <==> s.k % 2 == 0 && 4 <= s.k && s.k <= 1024
functype SketchOptionFunc(sk)
  requires sk != nil
  modifies sk.k, sk.isHighRankAccuracyMode
func WithK
  ensures result != nil
func WithHighRankAccuracyMode
  ensures result != nil
func NewSketch
  requires forall i int: 0 <= i && i < len(options) ==> options[i] != nil
  ensures @new result1 == nil ==> fresh(result0) && sWF(result0) && result0.n == 0 && len(result0.compactors) == 1 && result0.numRetained == 0 && result0.sortedView == nil
  ensures @none result1 == nil ==> isnan(result0.minItem) && isnan(result0.maxItem)
  loop 1 invariant fresh(sk) && sk.n == 0 && cap(sk.compactors) == 0 && len(sk.compactors) == 0 && off(sk.compactors) == 0 && sk.numRetained == 0 && isnan(sk.minItem) && isnan(sk.maxItem) && sk.sortedView == nil
  use wsum0

func (*Sketch).Reset
  requires sShape(s)
  modifies s.*, s.compactors[*]
  ensures @empty sWF(s) && s.n == 0 && s.numRetained == 0 && s.k == old(s.k) && s.isHighRankAccuracyMode == old(s.isHighRankAccuracyMode) && len(s.compactors) == 1 && s.sortedView == nil
  ensures @none isnan(s.minItem) && isnan(s.maxItem)
  use wsum0

func (*Sketch).Update
  requires sWF(s) && light(s, 536870911) && s.n + 1 < p2(58) && p2(58) < 4611686018427387904
  modifies s.compactors, s.compactors[*], s.maxNomSize, s.numRetained, s.sortedView, s.n, s.minItem, s.maxItem, every("req.compactor."), every("[]float32")
  ensures @ok result == nil
  ensures @shape sHead(s)
  ensures @each sEach(s)
  ensures @distinct sApart(s)
  ensures @nan isnan(item) ==> s.n == old(s.n) && s.minItem === old(s.minItem) && s.maxItem === old(s.maxItem) && total(s) == old(total(s))
  ensures @n !isnan(item) ==> s.n == old(s.n) + 1 && s.sortedView == nil
  ensures @weight s.n == total(s)
  ensures @first !isnan(item) && old(s.n) == 0 ==> s.minItem === item && s.maxItem === item
  ensures @min !isnan(item) && old(s.n) > 0 && !old(isnan(s.minItem)) ==> s.minItem <= item && s.minItem <= old(s.minItem) && (s.minItem == item || s.minItem == old(s.minItem))
  ensures @max !isnan(item) && old(s.n) > 0 && !old(isnan(s.maxItem)) ==> s.maxItem >= item && s.maxItem >= old(s.maxItem) && (s.maxItem == item || s.maxItem == old(s.maxItem))
  use wsumOne

// a source shares no storage with its target
define disjoint(s, o) = (forall i, j int {s.compactors[i], o.compactors[j]} {arr(s.compactors)[i], arr(o.compactors)[j]}: 0 <= i && i < len(s.compactors) && 0 <= j && j < len(o.compactors) ==> s.compactors[i] != o.compactors[j] && ref(s.compactors[i].items) != ref(o.compactors[j].items))
func (*Sketch).Merge
  requires sWF(s) && light(s, 268435456) && s != other
  requires other != nil ==> sWF(other) && light(other, 268435456) && disjoint(s, other) && ref(s.compactors) != ref(other.compactors) && s.n + other.n < p2(58) && p2(58) < 4611686018427387904
  modifies s.*, s.compactors[*], every("req.compactor."), every("[]float32")
  ensures @nothing other == nil || other.n == 0 ==> result == nil && s.n == old(s.n) && s.minItem === old(s.minItem) && s.maxItem === old(s.maxItem) && total(s) == old(total(s))
  ensures @refuse other != nil && other.n != 0 && s.isHighRankAccuracyMode != other.isHighRankAccuracyMode ==> result != nil && s.n == old(s.n) && total(s) == old(total(s))
  ensures @n result == nil && other != nil ==> s.n == old(s.n) + old(other.n)
  ensures @weight result == nil ==> s.n == total(s)
  ensures @view result == nil && other != nil && old(other.n) != 0 ==> s.sortedView == nil
  ensures @head sHead(s)
  ensures @min result == nil && other != nil && old(other.n) != 0 ==> s.minItem === (if old(isnan(s.minItem)) || old(other.minItem) < old(s.minItem) then old(other.minItem) else old(s.minItem))
  ensures @max result == nil && other != nil && old(other.n) != 0 ==> s.maxItem === (if old(isnan(s.maxItem)) || old(other.maxItem) > old(s.maxItem) then old(other.maxItem) else old(s.maxItem))
  ensures @source other != nil ==> other.n == old(other.n) && other.minItem === old(other.minItem) && other.maxItem === old(other.maxItem)
  loop 1 invariant old(len(s.compactors)) <= len(s.compactors) && (i == len(s.compactors) || i == old(len(s.compactors)) && len(s.compactors) == i)
  loop 1 invariant sShape(s) && total(s) == old(total(s)) && light(s, 268435456) && disjoint(s, other)
  loop 1 invariant ref(s.compactors) == old(ref(s.compactors)) || fresh(s.compactors)
  loop 2 invariant 0 <= i && i <= len(other.compactors) && len(other.compactors) <= len(s.compactors)
  loop 2 invariant sHead(s)
  loop 2 invariant sEach(s)
  loop 2 invariant sApart(s)
  loop 2 invariant disjoint(s, other)
  loop 2 invariant forall k int: i <= k && k < len(s.compactors) ==> s.compactors[k].count < 268435456 && s.compactors[k].state < 8796093022208
  loop 2 invariant small(s)
  loop 2 invariant sShape(other) && light(other, 268435456)
  loop 2 invariant total(s) == old(total(s)) + wsum(arr(other.compactors), cnts(), i)
  loop 2 invariant total(other) == old(total(other))
  loop 2 apply headv(2, i) < len(s.compactors) ==> wsumJoin(arr(s.compactors), head(2, cnts()), cnts(), arr(other.compactors), len(s.compactors), headv(2, i))
  loop 2 apply wsumFrame(arr(other.compactors), head(2, cnts()), arr(other.compactors), cnts(), headv(2, i) + 1)
  loop 2 apply wsumFrame(arr(other.compactors), head(2, cnts()), arr(other.compactors), cnts(), len(other.compactors))
  use wsum0
