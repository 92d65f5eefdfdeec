package common/quantiles

// the view of a sketch: sorted items, non-decreasing cumulative weights that end at n
define viewOK(s) = s.n > 0 && s.n < 4503599627370496 && len(s.quantiles) > 0 && len(s.quantiles) < pow2(40) && len(s.cumWeights) == len(s.quantiles) \
  && (forall i, j int: 0 <= i && i <= j && j < len(s.quantiles) ==> !(s.quantiles[j] < s.quantiles[i])) \
  && (forall i, j int: 0 <= i && i < j && j < len(s.quantiles) ==> s.cumWeights[i] <= s.cumWeights[j]) \
  && s.cumWeights[0] >= 1 && s.cumWeights[len(s.cumWeights)-1] == s.n

// rank of x: the cumulative weight of the last item that is <= x (inclusive) or < x (exclusive)
define isRank(s, x, incl, r) = \
  ((forall i int: 0 <= i && i < len(s.quantiles) ==> (if incl then x < s.quantiles[i] else !(s.quantiles[i] < x))) ==> r === 0.0) \
  && (forall i int: 0 <= i && i < len(s.quantiles) && (if incl then !(x < s.quantiles[i]) else s.quantiles[i] < x) \
     && (i + 1 < len(s.quantiles) ==> (if incl then x < s.quantiles[i+1] else !(s.quantiles[i+1] < x))) \
     ==> r === float64(s.cumWeights[i]) / float64(s.n))

func (*NumericSortedView).Rank
  props P01
  requires totalT()
  requires s.n == 0 || viewOK(s)
  ensures @empty s.n == 0 ==> result1 != nil
  ensures @ok s.n > 0 ==> result1 == nil
  ensures @rank s.n > 0 ==> isRank(s, quantile, isInclusive, result0)

func (*NumericSortedView).Quantile
  props P01
  requires totalT()
  requires s.n == 0 || viewOK(s)
  requires !isnan(rank)
  ensures @err (result1 == nil) <==> s.n > 0 && 0.0 <= rank && rank <= 1.0
  let nr = quantiles.ComputeNaturalRank(rank, uint64(s.n), isInclusive)
  ensures @item result1 == nil ==> forall i int: 0 <= i && i < len(s.quantiles) \
     && (if isInclusive then s.cumWeights[i] >= nr else s.cumWeights[i] > nr) \
     && (i > 0 ==> (if isInclusive then s.cumWeights[i-1] < nr else s.cumWeights[i-1] <= nr)) ==> result0 === s.quantiles[i]
  ensures @last result1 == nil && (forall i int: 0 <= i && i < len(s.quantiles) ==> (if isInclusive then s.cumWeights[i] < nr else s.cumWeights[i] <= nr)) \
     ==> result0 === s.quantiles[len(s.quantiles)-1]

func (*NumericSortedView).MinItem
  props P01
  requires s.n == 0 || viewOK(s)
  ensures (result1 == nil) <==> s.n != 0
  ensures result1 == nil ==> result0 === s.quantiles[0]

func (*NumericSortedView).MaxItem
  props P01
  requires s.n == 0 || viewOK(s)
  ensures (result1 == nil) <==> s.n != 0
  ensures result1 == nil ==> result0 === s.quantiles[len(s.quantiles)-1]

func (*NumericSortedView).CDF
  props P01
  requires totalT()
  requires s.n == 0 || viewOK(s)
  requires len(splitPoints) < pow2(40)
  ensures @err result1 == nil ==> s.n > 0 || len(splitPoints) == 0
  ensures @len result1 == nil ==> len(result0) == len(splitPoints) + 1 && fresh(result0)
  ensures off(result0) == 0
  ensures @last result1 == nil ==> result0[len(splitPoints)] === 1.0
  ensures @ranks result1 == nil ==> forall i int: 0 <= i && i < len(splitPoints) ==> isRank(s, splitPoints[i], isInclusive, result0[i])
  loop 1 invariant 0 <= i && i <= len(splitPoints) && len(buckets) == len(splitPoints) + 1
  loop 1 invariant i > 0 ==> s.n > 0
  loop 1 invariant forall k int: 0 <= k && k < i ==> isRank(s, splitPoints[k], isInclusive, buckets[k])
  loop 1 decreases length - i

func (*NumericSortedView).PMF
  props P01
  requires totalT()
  requires s.n == 0 || viewOK(s)
  requires len(splitPoints) < pow2(40)
  ensures @len result1 == nil ==> len(result0) == len(splitPoints) + 1
  // the pairing with the CDF is stated by the loop invariants (entry() is the slice CDF returned)
  ensures @last result1 == nil && len(splitPoints) == 0 ==> result0[0] === 1.0
  loop 1 invariant 0 <= i && i <= len(splitPoints) && len(buckets) == len(splitPoints) + 1
  loop 1 invariant forall k int: 0 <= k && k <= i ==> buckets[k] === entry(buckets[k])
  loop 1 invariant forall k int: i < k && k <= len(splitPoints) ==> buckets[k] === entry(buckets[k]) - entry(buckets[k-1])
  loop 1 invariant entry(buckets[len(splitPoints)]) === 1.0
  loop 1 invariant forall k int: 0 <= k && k < len(splitPoints) ==> isRank(s, splitPoints[k], isInclusive, entry(buckets[k]))
  loop 1 decreases i

func NewNumericSortedViewIterator
  props P01
  requires len(cumWeights) == len(quantiles)
  ensures fresh(result) && result.index == -1 && ref(result.cumWeights) == ref(cumWeights) && len(result.cumWeights) == len(cumWeights)
  ensures ref(result.quantiles) == ref(quantiles) && len(result.quantiles) == len(quantiles)
  ensures len(cumWeights) > 0 ==> result.totalN == cumWeights[len(cumWeights)-1]

define itOK(it) = -1 <= it.index && it.index < pow2(60) && len(it.cumWeights) == len(it.quantiles)
define itAt(it) = 0 <= it.index && it.index < len(it.cumWeights)

func (*NumericSortedViewIterator).NaturalRank
  props P01
  requires itOK(it)
  ensures (result1 == nil) <==> itAt(it)
  ensures itAt(it) ==> result0 == it.cumWeights[it.index]

func (*NumericSortedViewIterator).NaturalRankWithCriterion
  props P01
  requires itOK(it)
  ensures (result1 == nil) <==> itAt(it)
  ensures itAt(it) ==> result0 == (if isInclusive then it.cumWeights[it.index] else if it.index == 0 then 0 else it.cumWeights[it.index-1])

func (*NumericSortedViewIterator).NormalizedRank
  props P01
  requires itOK(it)
  ensures itAt(it) ==> result1 == nil && result0 === float64(it.cumWeights[it.index]) / float64(it.totalN)

func (*NumericSortedViewIterator).NormalizedRankWithCriterion
  props P01
  requires itOK(it)
  ensures itAt(it) ==> result1 == nil && result0 === float64(if isInclusive then it.cumWeights[it.index] else if it.index == 0 then 0 else it.cumWeights[it.index-1]) / float64(it.totalN)

func (*NumericSortedViewIterator).Weight
  props P01
  requires itOK(it)
  requires forall i, j int: 0 <= i && i < j && j < len(it.cumWeights) ==> it.cumWeights[i] <= it.cumWeights[j]
  requires len(it.cumWeights) > 0 ==> it.cumWeights[0] >= 1
  ensures itAt(it) ==> result1 == nil && result0 == (if it.index == 0 then it.cumWeights[0] else it.cumWeights[it.index] - it.cumWeights[it.index-1])
  ensures itAt(it) ==> result0 >= 0

func (*NumericSortedViewIterator).Next
  props P01
  requires itOK(it)
  modifies it.index
  ensures it.index == old(it.index) + 1 && result == (it.index < len(it.cumWeights))

func (*NumericSortedViewIterator).Quantile
  props P01
  requires itOK(it)
  ensures (result1 == nil) <==> itAt(it)
  ensures itAt(it) ==> result0 === it.quantiles[it.index]
