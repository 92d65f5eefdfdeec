package kll

define kviewOK(s) = s.totalN > 0 && s.totalN < 4503599627370496 && len(s.quantiles) > 0 && len(s.quantiles) < pow2(40) && len(s.cumWeights) == len(s.quantiles) && s.compareFn != nil \
  && (forall a $C: !s.compareFn(a, a)) && (forall a, b $C: s.compareFn(a, b) || s.compareFn(b, a) || a == b) \
  && (forall a, b, c $C: s.compareFn(a, b) && s.compareFn(b, c) ==> s.compareFn(a, c)) \
  && (forall i, j int: 0 <= i && i <= j && j < len(s.quantiles) ==> !s.compareFn(s.quantiles[j], s.quantiles[i])) \
  && (forall i, j int: 0 <= i && i < j && j < len(s.quantiles) ==> s.cumWeights[i] < s.cumWeights[j]) \
  && s.cumWeights[0] >= 1 && s.cumWeights[len(s.cumWeights)-1] == int64(s.totalN)

define kisRank(s, x, incl, r) = \
  ((forall i int: 0 <= i && i < len(s.quantiles) ==> (if incl then s.compareFn(x, s.quantiles[i]) else !s.compareFn(s.quantiles[i], x))) ==> r === 0.0) \
  && (forall i int: 0 <= i && i < len(s.quantiles) && (if incl then !s.compareFn(x, s.quantiles[i]) else s.compareFn(s.quantiles[i], x)) \
     && (i + 1 < len(s.quantiles) ==> (if incl then s.compareFn(x, s.quantiles[i+1]) else !s.compareFn(s.quantiles[i+1], x))) \
     ==> r === float64(s.cumWeights[i]) / float64(s.totalN))

func (*ItemsSketchSortedView).GetRank
  props P01
  requires s.totalN == 0 || kviewOK(s)
  ensures @err (result1 == nil) <==> s.totalN > 0
  ensures @rank s.totalN > 0 ==> kisRank(s, item, inclusive, result0)

func (*ItemsSketchSortedView).getQuantileIndex
  props P01
  requires kviewOK(s)
  requires !isnan(rank) && 0.0 <= rank && rank <= 1.0
  let nr = quantiles.ComputeNaturalRank(rank, s.totalN, inclusive)
  ensures @ok result1 == nil && 0 <= result0 && result0 < len(s.quantiles)
  ensures @below forall i int: 0 <= i && i < result0 ==> (if inclusive then s.cumWeights[i] < nr else s.cumWeights[i] <= nr)
  ensures @at result0 < len(s.quantiles) - 1 ==> (if inclusive then s.cumWeights[result0] >= nr else s.cumWeights[result0] > nr)

func (*ItemsSketchSortedView).GetQuantile
  props P01
  requires s.totalN == 0 || kviewOK(s)
  requires !isnan(rank)
  ensures @err (result1 == nil) <==> s.totalN > 0 && 0.0 <= rank && rank <= 1.0
  let nr = quantiles.ComputeNaturalRank(rank, s.totalN, inclusive)
  ensures @item result1 == nil ==> forall i int: 0 <= i && i < len(s.quantiles) \
     && (if inclusive then s.cumWeights[i] >= nr else s.cumWeights[i] > nr) \
     && (i > 0 ==> (if inclusive then s.cumWeights[i-1] < nr else s.cumWeights[i-1] <= nr)) ==> result0 === s.quantiles[i]
  ensures @last result1 == nil && (forall i int: 0 <= i && i < len(s.quantiles) ==> (if inclusive then s.cumWeights[i] < nr else s.cumWeights[i] <= nr)) \
     ==> result0 === s.quantiles[len(s.quantiles)-1]

func (*ItemsSketchSortedView).GetCDF
  props P01
  requires s.totalN == 0 || kviewOK(s)
  requires len(splitPoints) < pow2(40)
  ensures @len result1 == nil ==> len(result0) == len(splitPoints) + 1 && fresh(result0) && s.totalN > 0
  ensures off(result0) == 0
  ensures @last result1 == nil ==> result0[len(splitPoints)] === 1.0
  ensures @ranks result1 == nil ==> forall i int: 0 <= i && i < len(splitPoints) ==> kisRank(s, splitPoints[i], inclusive, result0[i])
  loop 1 invariant 0 <= i && i <= len(splitPoints) && len(buckets) == len(splitPoints) + 1
  loop 1 invariant forall k int: 0 <= k && k < i ==> kisRank(s, splitPoints[k], inclusive, buckets[k])
  loop 1 decreases len(splitPoints) - i

func (*ItemsSketchSortedView).GetPMF
  props P01
  requires s.totalN == 0 || kviewOK(s)
  requires len(splitPoints) < pow2(40)
  ensures @len result1 == nil ==> len(result0) == len(splitPoints) + 1
  loop 1 invariant 1 <= i && i <= len(splitPoints) + 1 && len(buckets) == len(splitPoints) + 1
  loop 1 invariant forall k int: 0 <= k && k < i ==> buckets[k] === entry(buckets[k])
  loop 1 invariant forall k int: i <= k && k <= len(splitPoints) ==> buckets[k] === entry(buckets[k]) - entry(buckets[k-1])
  loop 1 invariant entry(buckets[len(splitPoints)]) === 1.0
  loop 1 decreases i

func newItemsSketchSortedViewIterator
  props P01
  requires len(cumWeights) == len(quantiles)
  ensures fresh(result) && result.index == -1 && ref(result.cumWeights) == ref(cumWeights) && len(result.cumWeights) == len(cumWeights)
  ensures ref(result.quantiles) == ref(quantiles) && len(result.quantiles) == len(quantiles)
  ensures len(cumWeights) > 0 ==> result.totalN == cumWeights[len(cumWeights)-1]

func (*ItemsSketchSortedViewIterator).Next
  props P01
  requires -1 <= i.index && i.index < pow2(60)
  modifies i.index
  ensures i.index == old(i.index) + 1 && result == (i.index < len(i.cumWeights))

define kitAt(i) = 0 <= i.index && i.index < len(i.cumWeights) && len(i.cumWeights) == len(i.quantiles)

func (*ItemsSketchSortedViewIterator).GetQuantile
  props P01
  requires kitAt(i)
  ensures result === i.quantiles[i.index]

func (*ItemsSketchSortedViewIterator).GetWeight
  props P01
  requires kitAt(i)
  requires forall a, b int: 0 <= a && a < b && b < len(i.cumWeights) ==> i.cumWeights[a] < i.cumWeights[b]
  requires i.cumWeights[0] >= 1
  ensures result == (if i.index == 0 then i.cumWeights[0] else i.cumWeights[i.index] - i.cumWeights[i.index-1]) && result >= 1

func (*ItemsSketchSortedViewIterator).GetNaturalRank
  props P01
  requires kitAt(i)
  ensures result == (if inclusive then i.cumWeights[i.index] else if i.index == 0 then 0 else i.cumWeights[i.index-1])

func (*ItemsSketchSortedViewIterator).GetNormalizedRank
  props P01
  requires kitAt(i)
  ensures result === float64(if inclusive then i.cumWeights[i.index] else if i.index == 0 then 0 else i.cumWeights[i.index-1]) / float64(i.totalN)

func tandemMerge
  props P01
  requires compareFn != nil && startingLevel1 + numLevels1 < 255 && startingLevel1 + numLevels1 == startingLevel2 && startingLevel2 + numLevels2 < len(levels) && startingLevel2 + numLevels2 < 255
  requires len(quantilesSrc) == len(weightsSrc) && len(quantilesDst) == len(weightsDst) && len(quantilesSrc) == len(quantilesDst)
  requires ref(quantilesSrc) != ref(quantilesDst) && ref(weightsSrc) != ref(weightsDst) && len(quantilesSrc) < pow2(31)
  let a = levels[startingLevel1]
  let b = levels[startingLevel2]
  let c = levels[startingLevel2+numLevels2]
  requires a <= b && b <= c && c <= len(quantilesSrc)
  requires forall p $C: !compareFn(p, p)
  requires forall p, q $C: compareFn(p, q) || compareFn(q, p) || p == q
  requires forall p, q, r $C: compareFn(p, q) && compareFn(q, r) ==> compareFn(p, r)
  requires forall i, j int: a <= i && i <= j && j < b ==> !compareFn(quantilesSrc[j], quantilesSrc[i])
  requires forall i, j int: b <= i && i <= j && j < c ==> !compareFn(quantilesSrc[j], quantilesSrc[i])
  modifies quantilesDst[a..c], weightsDst[a..c]
  ensures @sorted forall i, j int: a <= i && i <= j && j < c ==> !compareFn(quantilesDst[j], quantilesDst[i])
  ensures @weight sum(arr(weightsDst), a, c) == sum(arr(weightsSrc), a, c)
  ensures @pos (forall i int: a <= i && i < c ==> weightsSrc[i] >= 1) ==> (forall i int: a <= i && i < c ==> weightsDst[i] >= 1)
  loop 1 invariant a <= iSrc1 && iSrc1 <= b && b <= iSrc2 && iSrc2 <= c && iDst == iSrc1 + iSrc2 - b
  loop 1 invariant forall i, j int: a <= i && i <= j && j < iDst ==> !compareFn(quantilesDst[j], quantilesDst[i])
  loop 1 invariant forall i, j int: a <= i && i < iDst && iSrc1 <= j && j < b ==> !compareFn(quantilesSrc[j], quantilesDst[i])
  loop 1 invariant forall i, j int: a <= i && i < iDst && iSrc2 <= j && j < c ==> !compareFn(quantilesSrc[j], quantilesDst[i])
  loop 1 invariant sum(arr(weightsDst), a, iDst) == sum(arr(weightsSrc), a, iSrc1) + sum(arr(weightsSrc), b, iSrc2)
  loop 1 invariant (forall i int: a <= i && i < c ==> weightsSrc[i] >= 1) ==> (forall i int: a <= i && i < iDst ==> weightsDst[i] >= 1)
  loop 1 decreases c + c - iSrc1 - iSrc2
  use sumEmpty
  use sumSnoc
  use sumStore
  apply sumCat(arr(weightsDst), a, iDst, c)
  apply sumFrame(arr(weightsDst), head(1, arr(weightsDst)), a, iDst)
  apply sumCat(arr(weightsSrc), a, b, c)
  apply sumCat(arr(weightsSrc), a, iSrc1, b)
  apply sumCat(arr(weightsSrc), b, iSrc2, c)
  apply iSrc1 < b ==> sumShift(arr(weightsDst), arr(weightsSrc), iSrc1, b, iDst - iSrc1)
  apply iSrc2 < c ==> sumShift(arr(weightsDst), arr(weightsSrc), iSrc2, c, iDst - iSrc2)

func convertToCumulative
  props P01
  requires len(array) < pow2(31) && (forall i int: 0 <= i && i < len(array) ==> 0 < array[i]) && sum(arr(array), 0, len(array)) < pow2(62)
  modifies array[*]
  ensures @prefix forall i int: 0 <= i && i < len(array) ==> array[i] == sum(old(arr(array)), 0, i+1)
  ensures result == sum(old(arr(array)), 0, len(array))
  ensures @inc forall i, j int: 0 <= i && i < j && j < len(array) ==> array[i] < array[j]
  ensures len(array) > 0 ==> array[0] >= 1
  use sumEmpty
  use sumSnoc
  loop 1 invariant 0 <= i && i <= len(array) && subtotal == sum(old(arr(array)), 0, i)
  loop 1 apply sumSnoc(old(arr(array)), 0, i)
  loop 1 apply sumMono(old(arr(array)), 0, i, len(array))
  loop 1 apply sumMono(old(arr(array)), 0, i+1, len(array))
  loop 1 invariant forall k, m int: 0 <= k && k < m && m < i ==> array[k] < array[m]
  loop 1 invariant i > 0 ==> array[i-1] == subtotal && array[0] >= 1
  loop 1 invariant i == 0 ==> subtotal == 0
  loop 1 invariant forall k int: 0 <= k && k < i ==> array[k] == sum(old(arr(array)), 0, k+1)
  loop 1 invariant forall k int: i <= k && k < len(array) ==> array[k] == old(array[k])

define levelsOK(levels, s, n, m) = 1 <= n && s + n < len(levels) && s + n < 255 && len(levels) < pow2(31) \
  && (forall i, j int: s <= i && i <= j && j <= s + n ==> levels[i] <= levels[j]) && levels[s+n] <= m
define csorted(f, q, lo, hi) = forall i, j int: lo <= i && i <= j && j < hi ==> !f(q[j], q[i])

func blockyTandemMergeSortRecursion
  props P01
  requires compareFn != nil
  requires levelsOK(levels, startingLevel, numLevels, len(quantilesSrc))
  requires len(quantilesSrc) == len(weightsSrc) && len(quantilesDst) == len(weightsDst) && len(quantilesSrc) == len(quantilesDst)
  requires ref(quantilesSrc) != ref(quantilesDst) && ref(weightsSrc) != ref(weightsDst) && len(quantilesSrc) < pow2(31)
  let a = levels[startingLevel]
  let c = levels[startingLevel+numLevels]
  requires forall p $C: !compareFn(p, p)
  requires forall p, q $C: compareFn(p, q) || compareFn(q, p) || p == q
  requires forall p, q, r $C: compareFn(p, q) && compareFn(q, r) ==> compareFn(p, r)
  requires forall i int: a <= i && i < c ==> quantilesSrc[i] == quantilesDst[i] && weightsSrc[i] == weightsDst[i]
  requires forall l int: startingLevel <= l && l < startingLevel + numLevels ==> csorted(compareFn, quantilesSrc, levels[l], levels[l+1])
  modifies quantilesDst[a..c], weightsDst[a..c], quantilesSrc[a..c], weightsSrc[a..c]
  ensures @sorted csorted(compareFn, quantilesDst, a, c)
  ensures @weight sum(arr(weightsDst), a, c) == old(sum(arr(weightsDst), a, c))
  ensures @pos old(forall i int: a <= i && i < c ==> weightsDst[i] >= 1) ==> (forall i int: a <= i && i < c ==> weightsDst[i] >= 1)
  ensures @pos2 old(forall i int: a <= i && i < c ==> weightsDst[i] >= 1) ==> (forall i int: a <= i && i < c ==> weightsSrc[i] >= 1)
  use sumEmpty
  use sumFrameT
  let b = levels[startingLevel+numLevels/2]
  apply sumCat(old(arr(weightsDst)), a, b, c)
  apply sumCat(old(arr(weightsSrc)), a, b, c)
  apply sumCat(arr(weightsSrc), a, b, c)

// total weight of the first n levels: level l weighs 2^l per item
function klw(levels arr, n int) math
axiom klwZero(levels arr)
  trigger klw(levels, 0)
  ensures klw(levels, 0) == 0
  why definition of the retained weight
axiom klwSucc(levels arr, n int)
  trigger klw(levels, n+1)
  ensures n >= 0 ==> klw(levels, n+1) == klw(levels, n) + p2(n) * (levels[n+1] - levels[n])
  why definition of the retained weight

func blockyTandemMergeSort
  props P01
  requires compareFn != nil
  requires levelsOK(levels, 0, numLevels, len(quantiles))
  requires len(quantiles) == len(weights) && len(quantiles) < pow2(31)
  let c = levels[numLevels]
  requires levels[0] == 0
  requires forall p $C: !compareFn(p, p)
  requires forall p, q $C: compareFn(p, q) || compareFn(q, p) || p == q
  requires forall p, q, r $C: compareFn(p, q) && compareFn(q, r) ==> compareFn(p, r)
  requires forall l int: 0 <= l && l < numLevels ==> csorted(compareFn, quantiles, levels[l], levels[l+1])
  modifies quantiles[0..c], weights[0..c]
  ensures @sorted csorted(compareFn, quantiles, 0, c)
  ensures @weight sum(arr(weights), 0, c) == old(sum(arr(weights), 0, c))
  ensures @pos old(forall i int: 0 <= i && i < c ==> weights[i] >= 1) ==> (forall i int: 0 <= i && i < c ==> weights[i] >= 1)

func populateFromSketch
  props P01
  requires compareFn != nil
  requires numLevels <= 48 && levelsOK(levels, 0, numLevels, len(srcQuantiles))
  requires numQuantiles == levels[numLevels] - levels[0] && 0 < numQuantiles && len(srcQuantiles) < pow2(31)
  requires klw(arr(levels), numLevels) < pow2(60)
  requires forall p $C: !compareFn(p, p)
  requires forall p, q $C: compareFn(p, q) || compareFn(q, p) || p == q
  requires forall p, q, r $C: compareFn(p, q) && compareFn(q, r) ==> compareFn(p, r)
  requires forall l int: 0 <= l && l < numLevels ==> csorted(compareFn, srcQuantiles, levels[l], levels[l+1])
  ensures @len len(result0) == numQuantiles && len(result1) == numQuantiles && fresh(result0) && fresh(result1)
  ensures @sorted csorted(compareFn, result0, 0, numQuantiles)
  ensures @weight result1[numQuantiles-1] == klw(arr(levels), numLevels)
  ensures @inc forall i, j int: 0 <= i && i < j && j < numQuantiles ==> result1[i] < result1[j]
  ensures @first result1[0] >= 1
  use p2zero
  use p2succ
  use klwZero
  use klwSucc
  use sumEmpty
  use sumStore
  loop 1 invariant 0 <= i && i <= numQuantiles && (forall k int: 0 <= k && k < i ==> quantiles[k] == srcQuantiles[k+offset])
  loop 2 invariant 0 <= srcLevel && srcLevel <= numLevels && 0 <= dstLevel && dstLevel <= srcLevel && len(myLevels) == numLevels + 1
  loop 2 invariant weight == p2(srcLevel) && 0 < weight && weight <= pow2(srcLevel)
  loop 2 invariant dstLevel == 0 ==> levels[srcLevel] == offset
  loop 2 invariant dstLevel > 0 ==> myLevels[0] == 0 && myLevels[dstLevel] == levels[srcLevel] - offset
  loop 2 invariant forall k int: 0 <= k && k < dstLevel ==> myLevels[k] <= myLevels[k+1] && csorted(compareFn, quantiles, myLevels[k], myLevels[k+1])
  loop 2 invariant forall k, m int: 0 <= k && k <= m && m <= dstLevel && dstLevel > 0 ==> myLevels[k] <= myLevels[m]
  loop 2 invariant forall k int: 0 <= k && k < levels[srcLevel] - offset ==> cumWeights[k] >= 1
  loop 2 invariant sum(arr(cumWeights), 0, levels[srcLevel] - offset) == klw(arr(levels), srcLevel)
  loop 3 invariant fromIndex <= i && i <= toIndex && (forall k int: 0 <= k && k < i ==> cumWeights[k] >= 1)
  loop 3 apply i > fromIndex ==> sumSnoc(arr(cumWeights), 0, i-1)
  loop 3 invariant sum(arr(cumWeights), 0, i) == klw(arr(levels), srcLevel) + p2(srcLevel) * (i - fromIndex)

func checkItems
  props P01
  requires compareFn != nil
  ensures result == nil ==> forall i int: 0 <= i && i < len(items) - 1 ==> compareFn(items[i], items[i+1])
  loop 1 invariant 0 <= i && (forall k int: 0 <= k && k < i ==> compareFn(items[k], items[k+1]))
  loop 1 decreases len(items) - i

// asking for partition boundaries leaves the view (and every other object) as it was
func (*ItemsSketchSortedView).GetPartitionBoundaries
props P01
requires kviewOK(s) && len(s.cumWeights) < pow2(40) && 1 <= numEquallySized && numEquallySized < pow2(40)
requires off(s.cumWeights) == 0 && off(s.quantiles) == 0
requires s.compareFn != nil
requires forall i int: 0 <= i && i < len(s.quantiles) ==> !s.compareFn(s.quantiles[i], s.minItem) && !s.compareFn(s.maxItem, s.quantiles[i])
requires forall p $C: !s.compareFn(p, p)
loop 1 invariant i >= 0 && i <= len(evSpNormRanks)

func evenlySpacedDoubles
props P01
requires num < pow2(46)
trusted the points i*(1/(num-1)), 0 < i < num-1, stay within [0,1]: floating-point rounding, covered by the bounded search
ensures num < 2 ==> result1 != nil
ensures num >= 2 ==> result1 == nil && len(result0) == num && fresh(result0) && off(result0) == 0
ensures num >= 2 && value1 === 0.0 && value2 === 1.0 ==> (forall i int: 0 <= i && i < num ==> !isnan(result0[i]) && 0.0 <= result0[i] && result0[i] <= 1.0)
