package internal/quantiles


func IncludeMinMax
  props P01
  requires len(quantiles) < pow2(40) && len(quantiles) > 0 && len(cumWeights) == len(quantiles)
  requires len(quantiles) > 1 || quantiles[0] == minItem || quantiles[0] == maxItem
  requires totalT()
  requires forall i, j int: 0 <= i && i <= j && j < len(quantiles) ==> !(quantiles[j] < quantiles[i])
  requires forall i int: 0 <= i && i < len(quantiles) ==> !(quantiles[i] < minItem) && !(maxItem < quantiles[i])
  requires forall i, j int: 0 <= i && i < j && j < len(quantiles) ==> cumWeights[i] <= cumWeights[j]
  requires cumWeights[0] >= 1
  // the largest item is only missing from the input when the last retained item weighs at least 2 or precedes it
  requires quantiles[len(quantiles)-1] != maxItem ==> cumWeights[len(cumWeights)-1] - (if len(cumWeights) > 1 then cumWeights[len(cumWeights)-2] else 0) >= 1 && cumWeights[len(cumWeights)-1] >= 2
  ensures @lens len(result.Quantiles) == len(result.CumWeights) && len(result.Quantiles) >= len(quantiles)
  ensures @first result.Quantiles[0] == minItem
  ensures @last result.Quantiles[len(result.Quantiles)-1] == maxItem
  ensures @total result.CumWeights[len(result.CumWeights)-1] == cumWeights[len(cumWeights)-1]
  ensures @sorted forall i, j int: 0 <= i && i <= j && j < len(result.Quantiles) ==> !(result.Quantiles[j] < result.Quantiles[i])
  ensures @inc forall i, j int: 0 <= i && i < j && j < len(result.CumWeights) ==> result.CumWeights[i] <= result.CumWeights[j]
  ensures @pos result.CumWeights[0] >= 1
  ensures @copyq forall i int: 0 <= i && i < len(quantiles) ==> result.Quantiles[i + (if quantiles[0] != minItem then 1 else 0)] == quantiles[i]
  ensures @copyw forall i int: 0 <= i && i < len(quantiles) - 1 ==> result.CumWeights[i + (if quantiles[0] != minItem then 1 else 0)] == cumWeights[i]

func ValidateSplitPoints
  props P01
  ensures @iff (result == nil) <==> (forall i int: 0 <= i && i < len(values) ==> !isnan(float64(values[i]))) && (forall i int: 0 <= i && i < len(values)-1 ==> values[i] < values[i+1])

  loop 1 invariant forall j int: 0 <= j && j < i ==> !isnan(float64(values[j])) && (j < len(values)-1 ==> values[j] < values[j+1])

func ValidateNormalizedRankBounds
  props P01
  ensures (result == nil) <==> !(rank < 0.0) && !(rank > 1.0)

func ComputeNaturalRank
  props P01
  realfloat
  functional
  requires !isnan(normalizedRank) && normalizedRank >= 0.0 && normalizedRank <= 1.0
  requires totalN < 4503599627370496
  apply mulle(real(normalizedRank), real(float64(totalN)))
  ensures @range 0 <= result && real(result) <= real(totalN) + 1.0
  ensures @near1 real(result) - real(normalizedRank) * real(float64(totalN)) < 1.0001
  ensures @near2 real(normalizedRank) * real(float64(totalN)) - real(result) < 1.0001
  ensures @incl inclusive ==> real(result) >= real(normalizedRank) * real(float64(totalN)) - 0.0001
  ensures @excl !inclusive ==> real(result) <= real(normalizedRank) * real(float64(totalN)) + 0.0001

lemma mulle(r real, n real)
  requires 0.0 <= r && r <= 1.0 && n >= 0.0
  ensures 0.0 <= r * n && r * n <= n
