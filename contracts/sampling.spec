// Reservoir sampling
package math/rand
defaultprops P11

func Int63n
  trusted math/rand: Int63n(n) is in [0, n) for n > 0
  requires n > 0
  ensures 0 <= result && result < n
func Intn
  trusted math/rand: Intn(n) is in [0, n) for n > 0
  requires n > 0
  ensures 0 <= result && result < n

func Float64
  trusted math/rand: Float64() is in [0, 1)
  ensures 0.0 <= result && result < 1.0

package internal
func IsPowerOf2
  inline
func ExactLog2
  mode bv
  ensures 0 <= result0 && result0 <= 63
  ensures 0 < powerOf2 && powerOf2 <= 1073741824 ==> result0 <= 30
  ensures result1 == nil && 0 < powerOf2 && powerOf2 <= 1073741824 ==> (powerOf2 >> result0) == 1 && ((powerOf2 >> result0) << result0) == powerOf2
package common
func CeilingPowerOf2
  mode bv
  ensures 1 <= result && result <= 1073741824
  ensures n <= 1073741824 ==> n <= result
package sampling

functype ReservoirItemsSketchOptionFunc(opts)
  requires opts != nil
  modifies opts.resizeFactor
  ensures 0 <= opts.resizeFactor && opts.resizeFactor <= 3
func WithReservoirItemsSketchResizeFactor
  requires 0 <= rf && rf <= 3
  ensures result != nil

func startingSubMultiple
  requires 0 <= lgRf && lgRf <= 3 && 0 <= lgMin && lgMin <= 62 && lgTarget <= 62
  ensures lgMin <= result && result <= (if lgTarget <= lgMin then lgMin else lgTarget)
func adjustedSamplingAllocationSize
  requires 0 <= maxSize && maxSize <= 70368744177664 && 0 < resizeTarget && resizeTarget <= 4611686018427387903
  ensures result == (if maxSize < 2 * resizeTarget then maxSize else resizeTarget)

// a sketch that holds exactly min(n, k) items
define resWF(s) = s != nil && 2 <= s.k && s.k <= 4294967295 && 0 <= s.n && s.n <= 281474976710655 && 0 <= s.rf && s.rf <= 3
  && len(s.data) == (if s.n < s.k then s.n else s.k) && off(s.data) == 0 && len(s.data) <= cap(s.data)
lemma occGrow(a arr, b arr, n int, m int, v int)
  apply occAppend(a, b, n, v)
  requires m == n + 1 && n >= 0 && b[n] == v && forall i int {b[i]}: 0 <= i && i < n ==> b[i] == a[i]
  ensures forall w int {occ(b, 0, m, w)}: occ(b, 0, m, w) == occ(a, 0, n, w) + (if v == w then 1 else 0)
lemma occPut(a arr, b arr, n int, m int, v int)
  use occStore
  use occBound
  requires n == m
  requires a === b || exists j int {store(a, j, v)}: 0 <= j && j < n && b === store(a, j, v)
  ensures forall w int {occ(b, 0, m, w)}: occ(b, 0, m, w) <= occ(a, 0, n, w) + (if v == w then 1 else 0)
// how often x is held
define rocc(s, x) = occ(arr(s.data), 0, len(s.data), x)

func NewReservoirItemsSketch
  realfloat
  instance int64
  requires k <= 4294967295
  requires forall i int: 0 <= i && i < len(opts) ==> opts[i] != nil
  ensures (result1 == nil) == (k >= 2)
  ensures @wf k >= 2 ==> resWF(result0) && result0.k == k && result0.n == 0
  ensures k >= 2 ==> fresh(result0) && fresh(result0.data)
  loop 1 invariant 0 <= options.resizeFactor && options.resizeFactor <= 3

func (*ReservoirItemsSketch).growReservoir
  instance int64
  requires resWF(s)
  modifies s.data
  ensures @room cap(s.data) > len(s.data)
  ensures @same len(s.data) == old(len(s.data)) && off(s.data) == 0
  ensures @items forall i int {s.data[i]}: 0 <= i && i < len(s.data) ==> s.data[i] == old(s.data[i])
  ensures ref(s.data) == old(ref(s.data)) || fresh(s.data)

func (*ReservoirItemsSketch).Update
  instance int64
  requires resWF(s)
  modifies s.data, s.n, s.data[*]
  ensures @full result == nil <==> old(s.n) < 281474976710655
  ensures @wf resWF(s)
  ensures @seen s.n == old(s.n) + (if result == nil then 1 else 0)
  ensures @own ref(s.data) == old(ref(s.data)) || fresh(s.data)
  ensures @refused result != nil ==> len(s.data) == old(len(s.data)) && (forall x int {rocc(s, x)}: rocc(s, x) == old(rocc(s, x)))
  ensures @stream result == nil && old(s.n) < s.k ==> s.data[old(s.n)] == item && (forall i int {s.data[i]}: 0 <= i && i < old(s.n) ==> s.data[i] == old(s.data[i]))
  ensures @added result == nil && old(s.n) < s.k ==> forall x int {rocc(s, x)}: rocc(s, x) == old(rocc(s, x)) + (if x == item then 1 else 0)
  ensures @kept result == nil && old(s.n) >= s.k ==> arr(s.data) === old(arr(s.data)) || exists j int {store(old(arr(s.data)), j, item)}: 0 <= j && j < s.k && arr(s.data) === store(old(arr(s.data)), j, item)
  ensures @drawn result == nil && old(s.n) >= s.k ==> forall x int {rocc(s, x)}: rocc(s, x) <= old(rocc(s, x)) + (if x == item then 1 else 0)
  use occFrameT
  apply result == nil && old(s.n) < s.k ==> occGrow(old(arr(s.data)), arr(s.data), old(len(s.data)), len(s.data), item)
  apply result == nil && old(s.n) >= s.k ==> occPut(old(arr(s.data)), arr(s.data), old(len(s.data)), len(s.data), item)

func (*ReservoirItemsSketch).Samples
  instance int64
  requires resWF(s)
  ensures len(result) == len(s.data) && fresh(result)
  ensures off(result) == 0
  ensures forall i int {result[i]}: 0 <= i && i < len(result) ==> result[i] == s.data[i]

func (*ReservoirItemsSketch).Reset
  realfloat
  instance int64
  requires resWF(s)
  modifies s.n, s.data
  ensures @empty resWF(s) && s.n == 0 && fresh(s.data)

func (*ReservoirItemsSketch).Copy
  instance int64
  requires resWF(s)
  ensures fresh(result) && fresh(result.data) && resWF(result) && result.k == s.k && result.n == s.n
  ensures @items forall i int {result.data[i]}: 0 <= i && i < len(s.data) ==> result.data[i] == s.data[i]
  ensures @held forall x int {rocc(result, x)}: rocc(result, x) == rocc(s, x)
  use occFrameT

func (*ReservoirItemsSketch).forceIncrementItemsSeen
  instance int64
  requires 0 <= s.n && s.n <= pow2(60) && 0 <= delta && delta <= pow2(60)
  modifies s.n
  ensures s.n == old(s.n) + delta && (result == nil <==> s.n <= 281474976710655)

func (*ReservoirItemsSketch).valueAtPosition
  instance int64
  requires resWF(s)
  ensures result1 == nil <==> 0 <= pos && pos < len(s.data)
  ensures result1 == nil ==> result0 == s.data[pos]

func (*ReservoirItemsSketch).insertValueAtPosition
  instance int64
  requires resWF(s)
  modifies s.data[*]
  ensures result == nil <==> 0 <= pos && pos < len(s.data)
  ensures result == nil ==> arr(s.data) === store(old(arr(s.data)), pos, item)
  ensures result != nil ==> arr(s.data) === old(arr(s.data))

func (*ReservoirItemsSketch).downsampledCopy
  instance int64
  requires resWF(s) && newK <= s.k
  ensures @ok result1 == nil <==> newK >= 2
  ensures @wf result1 == nil ==> fresh(result0) && fresh(result0.data) && resWF(result0) && result0.k == newK && result0.n == s.n
  ensures @drawn result1 == nil ==> forall x int {rocc(result0, x)}: rocc(result0, x) <= rocc(s, x)
  ensures @all result1 == nil && s.n <= newK ==> forall x int {rocc(result0, x)}: rocc(result0, x) == rocc(s, x)
  use occBound
  use occMonoT
  loop 1 invariant resWF(result) && result.k == newK && result.n == rangepos
  loop 1 invariant fresh(result) && fresh(result.data) && ref(result.data) != ref(rangeslice)
  loop 1 invariant len(rangeslice) == len(s.data) && off(rangeslice) == 0
  loop 1 invariant forall i int {rangeslice[i]}: 0 <= i && i < len(rangeslice) ==> rangeslice[i] == s.data[i]
  loop 1 invariant forall x int {rocc(result, x)}: rocc(result, x) <= occ(arr(s.data), 0, rangepos, x)
  loop 1 invariant rangepos <= newK ==> forall x int {rocc(result, x)}: rocc(result, x) == occ(arr(s.data), 0, rangepos, x)
  loop 1 apply rangepos > 0 ==> occSnocAll(arr(s.data), 0, rangepos - 1)

// a union holds nothing or a sketch
define ruWF(u) = u != nil && (u.gadget != nil ==> resWF(u.gadget))
define rg(u, x) = if u.gadget == nil then 0 else rocc(u.gadget, x)
define rn(u) = if u.gadget == nil then 0 else u.gadget.n

func (*ReservoirItemsUnion).twoWayMergeInternalStandard
  instance int64
  requires ruWF(u) && u.gadget != nil && resWF(source) && source.n <= source.k && source != u.gadget
  requires ref(source.data) != ref(u.gadget.data)
  requires u.gadget.n + source.n <= 281474976710655
  modifies u.gadget.data, u.gadget.n, u.gadget.data[*]
  ensures @ok result == nil
  ensures @wf resWF(u.gadget) && (ref(u.gadget.data) == old(ref(u.gadget.data)) || fresh(u.gadget.data))
  ensures @seen u.gadget.n == old(u.gadget.n) + source.n
  ensures @drawn forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) <= old(rocc(u.gadget, x)) + rocc(source, x)
  ensures @all u.gadget.n <= u.gadget.k ==> forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) == old(rocc(u.gadget, x)) + rocc(source, x)
  use occBound
  loop 1 invariant 0 <= i && i <= len(source.data) && resWF(u.gadget) && u.gadget.n == old(u.gadget.n) + i
  loop 1 invariant ref(u.gadget.data) == old(ref(u.gadget.data)) || fresh(u.gadget.data)
  loop 1 invariant forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) <= old(rocc(u.gadget, x)) + occ(arr(source.data), 0, i, x)
  loop 1 invariant u.gadget.n <= u.gadget.k ==> forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) == old(rocc(u.gadget, x)) + occ(arr(source.data), 0, i, x)
  loop 1 apply i > 0 ==> occSnocAll(arr(source.data), 0, i - 1)

func (*ReservoirItemsUnion).twoWayMergeInternalWeighted
  realfloat
  instance int64
  requires ruWF(u) && u.gadget != nil && resWF(source) && source.n >= source.k && u.gadget.n >= u.gadget.k && source != u.gadget
  requires ref(source.data) != ref(u.gadget.data)
  modifies u.gadget.n, u.gadget.data[*]
  ensures @ok result == nil <==> old(u.gadget.n) + source.n <= 281474976710655
  ensures @seen u.gadget.n == old(u.gadget.n) + source.n
  ensures @wf result == nil ==> resWF(u.gadget)
  ensures @drawn forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) <= old(rocc(u.gadget, x)) + rocc(source, x)
  use occBound
  loop 1 invariant 0 <= i && i <= source.k
  loop 1 invariant forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) <= old(rocc(u.gadget, x)) + occ(arr(source.data), 0, i, x)
  loop 1 apply i > 0 ==> occSnocAll(arr(source.data), 0, i - 1)
  loop 1 apply i > 0 ==> occPut(head(1, arr(u.gadget.data)), arr(u.gadget.data), u.gadget.k, len(u.gadget.data), source.data[i-1])

define sameRes(s) = s.n == old(s.n) && s.data === old(s.data) && arr(s.data) === old(arr(s.data))

func (*ReservoirItemsUnion).twoWayMergeInternal
  realfloat
  instance int64
  requires ruWF(u) && u.gadget != nil && resWF(source) && source != u.gadget
  requires ref(source.data) != ref(u.gadget.data) && u.gadget.n + source.n <= 281474976710655
  modifies u.gadget, u.gadget.n, u.gadget.data, u.gadget.data[*], source.n, source.data, source.data[*]
  ensures @ok result == nil
  ensures @wf u.gadget != nil && resWF(u.gadget)
  ensures @seen u.gadget.n == old(u.gadget.n) + old(source.n)
  ensures @drawn forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) <= old(rocc(u.gadget, x)) + old(rocc(source, x))
  ensures @all old(source.n) <= source.k && u.gadget.n <= u.gadget.k ==> forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) == old(rocc(u.gadget, x)) + old(rocc(source, x))
  ensures @operand !isModifiable ==> sameRes(source) && u.gadget != source && ref(u.gadget.data) != ref(source.data)
  ensures @k u.gadget.k == old(u.gadget.k) || u.gadget.k == source.k
  ensures @own u.gadget == old(u.gadget) || fresh(u.gadget) || u.gadget == source
  ensures @owndata fresh(u.gadget.data) || ref(u.gadget.data) == old(ref(u.gadget.data)) || ref(u.gadget.data) == old(ref(source.data))
  ensures @room old(source.n) <= source.k ==> u.gadget.k == old(u.gadget.k)

func (*ReservoirItemsUnion).createNewGadget
  instance int64
  requires u != nil && u.gadget == nil && resWF(source) && 2 <= u.maxK && u.maxK <= 4294967295
  modifies u.gadget, source.n, source.data, source.data[*]
  ensures @ok result == nil
  ensures @wf u.gadget != nil && resWF(u.gadget)
  ensures @seen u.gadget.n == old(source.n)
  ensures @drawn forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) <= old(rocc(source, x))
  ensures @all old(source.n) <= source.k ==> forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) == old(rocc(source, x))
  ensures @operand !isModifiable ==> sameRes(source) && u.gadget != source && ref(u.gadget.data) != ref(source.data)
  ensures @k source.k <= u.maxK ==> u.gadget.k <= u.maxK
  ensures @own fresh(u.gadget) || u.gadget == source
  ensures @owndata fresh(u.gadget.data) || ref(u.gadget.data) == old(ref(source.data))
  ensures @room old(source.n) <= source.k && source.k <= u.maxK ==> u.gadget.k == u.maxK
  use occBound

func (*ReservoirItemsUnion).UpdateSketch
  instance int64
  requires ruWF(u) && 2 <= u.maxK && u.maxK <= 4294967295 && (sketch != nil ==> resWF(sketch))
  requires sketch != nil && u.gadget != nil ==> sketch != u.gadget && ref(sketch.data) != ref(u.gadget.data)
  requires sketch != nil ==> rn(u) + sketch.n <= 281474976710655
  modifies u.gadget, u.gadget.n, u.gadget.data, u.gadget.data[*], sketch.n, sketch.data, sketch.data[*]
  ensures @ok result == nil
  ensures @wf ruWF(u)
  ensures @seen sketch != nil ==> u.gadget != nil && u.gadget.n == old(rn(u)) + old(sketch.n)
  ensures @drawn sketch != nil ==> forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) <= old(rg(u, x)) + old(rocc(sketch, x))
  ensures @all sketch != nil && old(sketch.n) <= sketch.k && sketch.k <= u.maxK && u.gadget.n <= u.gadget.k ==> forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) == old(rg(u, x)) + old(rocc(sketch, x))
  ensures @k old(u.gadget == nil || u.gadget.k <= u.maxK) && u.gadget != nil ==> u.gadget.k <= u.maxK
  ensures @operand sketch != nil ==> sameRes(sketch) && u.gadget != sketch && ref(u.gadget.data) != ref(sketch.data)
  ensures @nil sketch == nil ==> u.gadget == old(u.gadget)

func (*ReservoirItemsUnion).Update
  instance int64
  requires ruWF(u) && 2 <= u.maxK && u.maxK <= 4294967295
  modifies u.gadget, u.gadget.n, u.gadget.data, u.gadget.data[*]
  ensures @full result == nil <==> old(rn(u)) < 281474976710655
  ensures @wf ruWF(u) && u.gadget != nil
  ensures @seen u.gadget.n == old(rn(u)) + (if result == nil then 1 else 0)
  ensures @added result == nil && old(rn(u)) < u.gadget.k ==> forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) == old(rg(u, x)) + (if x == item then 1 else 0)
  ensures @drawn result == nil && old(rn(u)) >= u.gadget.k ==> forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) <= old(rg(u, x)) + (if x == item then 1 else 0)
  use occEmpty
  use occBound

func (*ReservoirItemsUnion).Result
  instance int64
  requires ruWF(u)
  ensures result1 == nil && (result0 == nil) == (u.gadget == nil)
  ensures @copy result0 != nil ==> fresh(result0) && fresh(result0.data) && resWF(result0) && result0.k == u.gadget.k && result0.n == u.gadget.n && forall x int {rocc(result0, x)}: rocc(result0, x) == rocc(u.gadget, x)

func (*ReservoirItemsUnion).Reset
  instance int64
  requires ruWF(u)
  modifies u.gadget.n, u.gadget.data
  ensures ruWF(u) && rn(u) == 0

func newReservoirItemsSketchFromStates
  instance int64
  requires n >= 0 && off(items) == 0 && k <= 4294967295 && len(items) <= cap(items)
  requires len(items) <= n
  requires 0 <= rf && rf <= 3 && n <= 281474976710655
  ensures @wf result1 == nil ==> fresh(result0) && resWF(result0) && result0.k == k && result0.n == n && result0.data === items
  ensures @ok k >= 2 && len(items) == (if n < k then n else k) ==> result1 == nil

func (*ReservoirItemsUnion).UpdateFromRaw
  instance int64
  requires ruWF(u) && 2 <= u.maxK && u.maxK <= 4294967295 && 2 <= k && k <= 4294967295 && 0 <= n && off(items) == 0 && len(items) <= cap(items)
  requires len(items) == (if n < k then n else k) && rn(u) + n <= 281474976710655
  requires u.gadget != nil ==> ref(items) != ref(u.gadget.data)
  modifies u.gadget, u.gadget.n, u.gadget.data, u.gadget.data[*], items[*]
  ensures @ok result == nil
  ensures @wf ruWF(u)
  ensures @seen u.gadget.n == old(rn(u)) + n
  ensures @drawn forall x int {rocc(u.gadget, x)}: rocc(u.gadget, x) <= old(rg(u, x)) + old(occ(arr(items), 0, len(items), x))
