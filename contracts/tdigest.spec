// t-digest
package tdigest
defaultprops P10

// the weight of the centroids of a slice, and what every centroid and buffered value satisfies
define tSum(s) = sum(arr(s, weight), off(s), off(s) + len(s))
define tIn(v, lo, hi) = !isnan(v) && lo <= v && v <= hi
define tCents(s, lo, hi) = (forall i int {s[i].mean} {arr(s, mean)[i]}: 0 <= i && i < len(s) ==> tIn(s[i].mean, lo, hi)) && (forall i int {s[i].weight} {arr(s, weight)[i]}: 0 <= i && i < len(s) ==> 1 <= s[i].weight)
define tBuf(s, lo, hi) = (forall i int {s[i]} {arr(s)[i]}: 0 <= i && i < len(s) ==> tIn(s[i], lo, hi))
// a digest: its centroids weigh centroidsWeight in total, and every centroid and buffered value lies within its extremes
define tWF(d) = d != nil && off(d.centroids) == 0 && 10 <= d.k && 0 <= d.centroidsCapacity && d.centroidsCapacity <= 200000 && d.centroidsWeight <= 1152921504606846976 && tSum(d.centroids) == d.centroidsWeight && !isnan(d.min) && !isnan(d.max) && tCents(d.centroids, d.min, d.max) && tBuf(d.buffer, d.min, d.max)
define tSame(d) = arr(d.centroids, mean) == old(arr(d.centroids, mean)) && arr(d.centroids, weight) == old(arr(d.centroids, weight)) && arr(d.buffer) == old(arr(d.buffer))
// address-space bound
define tRoom(d) = len(d.centroids) <= 1099511627776 && len(d.buffer) <= 1099511627776
define tTotal(d) = d.centroidsWeight + len(d.buffer)

lemma sumSet(a arr, i int, v int, lo int, hi int)
  use sumEmpty
  induction hi - lo
  apply hi > lo ==> sumSnoc(a, lo, hi-1)
  apply hi > lo ==> sumSnoc(store(a, i, v), lo, hi-1)
  apply i < hi - 1 ==> sumSet(a, i, v, lo, hi-1)
  apply i == hi - 1 ==> sumFrame(a, store(a, i, v), lo, hi-1)
  requires lo <= i && i < hi
  ensures sum(store(a, i, v), lo, hi) == sum(a, lo, hi) - a[i] + v
lemma sumSetT(a arr, i int, v int, lo int, hi int)
  trigger sum(store(a, i, v), lo, hi)
  apply lo <= i && i < hi ==> sumSet(a, i, v, lo, hi)
  apply i < lo || i >= hi ==> sumStore(a, lo, hi, i, v)
  ensures sum(store(a, i, v), lo, hi) == sum(a, lo, hi) + (if lo <= i && i < hi then v - a[i] else 0)

func (*Double).IsEmpty
  inline
func (*Double).TotalWeight
  requires d != nil && d.centroidsWeight <= 1152921504606846976 && len(d.buffer) <= 1099511627776
  ensures result == tTotal(d)
func (*Double).isSingleValue
  requires d != nil && d.centroidsWeight <= 1152921504606846976 && len(d.buffer) <= 1099511627776
  ensures result == (tTotal(d) == 1)
func (*Double).K
  ensures result == d.k
func (*Double).MinValue
  ensures if len(d.centroids) == 0 && len(d.buffer) == 0 then result1 != nil else result1 == nil && result0 === d.min
func (*Double).MaxValue
  ensures if len(d.centroids) == 0 && len(d.buffer) == 0 then result1 != nil else result1 == nil && result0 === d.max

func NewDouble
  use sumEmpty
  ensures k < 10 ==> result0 == nil && result1 != nil
  ensures @empty k >= 10 ==> result1 == nil && fresh(result0) && fresh(result0.centroids) && fresh(result0.buffer) && tWF(result0) && tTotal(result0) == 0 && len(result0.centroids) == 0 && len(result0.buffer) == 0 && result0.k == k && !result0.reverseMerge
func newDoubleFromInternalStates
  requires weight <= 1152921504606846976 && len(centroids) <= 4398046511104 && len(buffer) <= 4398046511104
  ensures k < 10 ==> result0 == nil && result1 != nil
  ensures @state k >= 10 ==> result1 == nil && fresh(result0) && result0.k == k && result0.min === min && result0.max === max && result0.centroidsWeight == weight && result0.reverseMerge == reverseMerge && len(result0.centroids) == len(centroids) && len(result0.buffer) == len(buffer)
  ensures @centroids k >= 10 ==> (forall i int {result0.centroids[i].mean}: 0 <= i && i < len(centroids) ==> result0.centroids[i].mean === old(centroids[i].mean))
  ensures @weights k >= 10 ==> (forall i int {result0.centroids[i].weight}: 0 <= i && i < len(centroids) ==> result0.centroids[i].weight == old(centroids[i].weight))
  ensures @buffer k >= 10 ==> (forall i int {result0.buffer[i]}: 0 <= i && i < len(buffer) ==> result0.buffer[i] === old(buffer[i]))

func (*doublePrecisionCentroid).add
  realfloat
  requires c != nil && c.weight + other.weight <= 2305843009213693952 && 1 <= c.weight && 1 <= other.weight
  modifies c.mean, c.weight
  ensures @weight c.weight == old(c.weight) + other.weight
  ensures @between forall lo, hi float64: tIn(old(c.mean), lo, hi) && tIn(other.mean, lo, hi) ==> tIn(c.mean, lo, hi)

lemma sumOne(a arr, h int)
  trigger sum(a, 0, h)
  apply sumSnoc(a, 0, 0)
  apply sumFrame(a, a, 0, 0)
  use sumEmpty
  ensures h == 1 ==> sum(a, 0, h) == a[0]
func (*Double).merge
  sumfacts
  use sumEmpty sumSetT sumOne
  requires tWF(d)
  requires tRoom(d) && len(buffer) <= 4398046511104
  requires len(buffer) + len(d.centroids) >= 1
  requires ref(buffer) != ref(d.centroids)
  requires off(buffer) == 0
  requires tSum(buffer) == weight && weight <= 1152921504606846976 && d.centroidsWeight + weight <= 1152921504606846976
  requires tCents(buffer, d.min, d.max)
  modifies d.centroids, d.centroids[0..cap(d.centroids)], buffer[0..cap(buffer)], d.centroidsWeight, d.min, d.max, d.reverseMerge, d.buffer
  loop 1 invariant i + j == len(buffer) - 1 && 0 <= i && i <= len(buffer)
  loop 1 invariant tSum(buffer) == entry(tSum(buffer)) 
  loop 1 invariant tCents(buffer, d.min, d.max)
  loop 2 invariant 1 <= i && i <= len(buffer) && 1 <= len(d.centroids) && len(d.centroids) <= i && off(d.centroids) == 0
  loop 2 invariant @own ref(d.centroids) != ref(buffer) && (ref(d.centroids) == old(ref(d.centroids)) && cap(d.centroids) == old(cap(d.centroids)) || fresh(d.centroids))
  loop 2 invariant @buffer arr(buffer, weight) == entry(arr(buffer, weight)) && arr(buffer, mean) == entry(arr(buffer, mean))
  loop 2 invariant @total sum(arr(buffer, weight), 0, len(buffer)) == d.centroidsWeight && d.centroidsWeight <= 1152921504606846976 && off(buffer) == 0 && ref(buffer) != 0
  loop 2 invariant @from tCents(buffer, d.min, d.max)
  loop 2 invariant @cents tCents(d.centroids, d.min, d.max)
  loop 2 invariant @sum tSum(d.centroids) == sum(arr(buffer, weight), 0, i)
  loop 2 apply sumMono(arr(buffer, weight), 0, i, len(buffer))
  loop 2 apply i < len(buffer) ==> sumMono(arr(buffer, weight), 0, i + 1, len(buffer))
  loop 2 apply sumSnoc(arr(buffer, weight), 0, i)
  loop 2 apply sumSnoc(arr(d.centroids, weight), 0, len(d.centroids) - 1)
  loop 2 apply sumMono(arr(d.centroids, weight), 0, 0, len(d.centroids) - 1)
  loop 2 apply head(2, len(d.centroids)) == len(d.centroids) ==> sumFrame(head(2, arr(d.centroids, weight)), arr(d.centroids, weight), 0, len(d.centroids) - 1)
  loop 2 apply head(2, len(d.centroids)) == len(d.centroids) ==> sumSnoc(head(2, arr(d.centroids, weight)), 0, len(d.centroids) - 1)
  loop 3 invariant i + j == len(d.centroids) - 1 && 0 <= i && i <= len(d.centroids)
  loop 3 invariant tSum(d.centroids) == entry(tSum(d.centroids)) 
  loop 3 invariant tCents(d.centroids, d.min, d.max)
  ensures @weight d.centroidsWeight == old(d.centroidsWeight) + weight && len(d.buffer) == 0 && len(d.centroids) > 0
  ensures @sum tSum(d.centroids) == d.centroidsWeight
  ensures @extremes real(d.min) == real(old(d.min)) && real(d.max) == real(old(d.max))
  ensures @wf tWF(d)
  ensures @own (ref(d.centroids) == old(ref(d.centroids)) && cap(d.centroids) == old(cap(d.centroids)) || fresh(d.centroids)) && ref(d.buffer) == old(ref(d.buffer)) && off(d.buffer) == old(off(d.buffer)) && cap(d.buffer) == old(cap(d.buffer))

lemma sumMember(a arr, i int, n int)
  use sumEmpty
  apply sumMono(a, 0, i + 1, n)
  apply sumSnoc(a, 0, i)
  apply sumMono(a, 0, 0, i)
  requires 0 <= i && i < n
  requires forall j int: 0 <= j && j < n ==> a[j] >= 0
  ensures a[i] <= sum(a, 0, n)

func (*Double).compress
  sumfacts
  use sumEmpty
  requires tWF(d) && tRoom(d) && tTotal(d) <= 1152921504606846976
  modifies d.centroids, d.centroids[0..cap(d.centroids)], d.centroidsWeight, d.min, d.max, d.reverseMerge, d.buffer
  loop 1 invariant tWF(d)
  loop 1 invariant 0 <= rangepos && rangepos <= len(d.buffer)
  loop 1 invariant fresh(tmp) && off(tmp) == 0 && len(tmp) == rangepos && cap(tmp) == len(d.buffer) + len(d.centroids)
  loop 1 invariant tSum(tmp) == len(tmp)
  loop 1 invariant tCents(tmp, d.min, d.max)
  apply len(d.centroids) > 0 ==> sumMember(arr(d.centroids, weight), 0, len(d.centroids))
  ensures @weight tTotal(d) == old(tTotal(d)) && len(d.buffer) == 0
  ensures @some old(len(d.centroids) + len(d.buffer)) > 0 ==> len(d.centroids) > 0 && d.centroidsWeight > 0
  ensures @extremes real(d.min) == real(old(d.min)) && real(d.max) == real(old(d.max))
  ensures @wf tWF(d)
  ensures @idle old(len(d.buffer)) == 0 ==> unchanged(d.centroids, d.min, d.max, d.reverseMerge) && tSame(d)
  ensures @own (ref(d.centroids) == old(ref(d.centroids)) && cap(d.centroids) == old(cap(d.centroids)) || fresh(d.centroids)) && ref(d.buffer) == old(ref(d.buffer)) && off(d.buffer) == old(off(d.buffer)) && cap(d.buffer) == old(cap(d.buffer))

func (*Double).Update
  requires tWF(d) && tRoom(d) && tTotal(d) < 1152921504606846976
  requires tTotal(d) == 0 || d.min <= d.max
  modifies d.centroids, d.centroids[0..cap(d.centroids)], d.centroidsWeight, d.min, d.max, d.reverseMerge, d.buffer, d.buffer[0..cap(d.buffer)]
  let bad = isnan(value) || !isfinite(value)
  ensures @refuse if bad then result != nil && unchanged(d.centroids, d.centroidsWeight, d.min, d.max, d.reverseMerge, d.buffer) && tSame(d) else result == nil
  ensures @weight tTotal(d) == old(tTotal(d)) + (if bad then 0 else 1)
  ensures @extremes !bad ==> real(d.min) == (if value < old(d.min) then real(value) else real(old(d.min))) && real(d.max) == (if value > old(d.max) then real(value) else real(old(d.max)))
  ensures @wf tWF(d)

func (*Double).Merge
  sumfacts
  use sumEmpty
  requires tWF(d) && tRoom(d) && tWF(other) && tRoom(other) && tTotal(d) + tTotal(other) <= 1152921504606846976
  requires other != d ==> ref(other.centroids) != ref(d.centroids)
  modifies d.centroids, d.centroids[0..cap(d.centroids)], d.centroidsWeight, d.min, d.max, d.reverseMerge, d.buffer
  loop 1 invariant tWF(d)
  loop 1 invariant tWF(other)
  loop 1 invariant 0 <= rangepos && rangepos <= len(d.buffer)
  loop 1 invariant fresh(tmp) && off(tmp) == 0 && len(tmp) == rangepos && cap(tmp) == len(d.buffer) + len(d.centroids) + len(other.buffer) + len(other.centroids)
  loop 1 invariant tSum(tmp) == len(tmp)
  loop 1 invariant tCents(tmp, d.min, d.max)
  loop 2 invariant tWF(d)
  loop 2 invariant tWF(other)
  loop 2 invariant 0 <= rangepos && rangepos <= len(other.buffer)
  loop 2 invariant fresh(tmp) && off(tmp) == 0 && len(tmp) == len(d.buffer) + rangepos && cap(tmp) == len(d.buffer) + len(d.centroids) + len(other.buffer) + len(other.centroids)
  loop 2 invariant tSum(tmp) == len(tmp)
  loop 2 invariant forall i int {tmp[i].mean} {arr(tmp, mean)[i]}: 0 <= i && i < len(tmp) ==> tIn(tmp[i].mean, d.min, d.max) || tIn(tmp[i].mean, other.min, other.max)
  loop 2 invariant forall i int {tmp[i].weight} {arr(tmp, weight)[i]}: 0 <= i && i < len(tmp) ==> 1 <= tmp[i].weight
  let none = len(other.centroids) == 0 && len(other.buffer) == 0
  ensures @refuse old(none) ==> result != nil && unchanged(d.centroids, d.centroidsWeight, d.min, d.max, d.reverseMerge, d.buffer) && tSame(d)
  ensures @weight !old(none) ==> result == nil && tTotal(d) == old(tTotal(d)) + old(tTotal(other))
  ensures @extremes !old(none) ==> (real(d.min) == real(old(d.min)) || real(d.min) == real(old(other.min))) && d.min <= old(d.min) && d.min <= old(other.min) && (real(d.max) == real(old(d.max)) || real(d.max) == real(old(other.max))) && d.max >= old(d.max) && d.max >= old(other.max)
  ensures @source other != d ==> unchanged(other.centroids, other.centroidsWeight, other.min, other.max, other.reverseMerge, other.buffer) && tSame(other)
  ensures @wf tWF(d)
  ensures @own (ref(d.centroids) == old(ref(d.centroids)) && cap(d.centroids) == old(cap(d.centroids)) || fresh(d.centroids)) && ref(d.buffer) == old(ref(d.buffer)) && off(d.buffer) == old(off(d.buffer)) && cap(d.buffer) == old(cap(d.buffer))

func interpolate
  realfloat
  requires !isnan(fraction)
  ensures @between forall lo, hi float64: tIn(x1, lo, hi) && tIn(x2, lo, hi) ==> tIn(result, lo, hi)
  ensures @ordered x1 <= x2 ==> x1 <= result && result <= x2
func fraction
  realfloat units
  requires lo <= v && v <= hi && lo < hi
  ensures @unit 0 <= result && result <= 1

func (*Double).Quantile
  realfloat units
  use sumEmpty
  requires tWF(d) && tRoom(d) && tTotal(d) <= 9007199254740992
  requires tTotal(d) == 0 || d.min <= d.max
  modifies d.centroids, d.centroids[0..cap(d.centroids)], d.centroidsWeight, d.min, d.max, d.reverseMerge, d.buffer
  loop 1 invariant 0 <= i && i <= len(d.centroids) - 1
  loop 1 invariant !isnan(weightSoFar)
  loop 1 apply i < len(d.centroids) ==> sumMember(arr(d.centroids, weight), i, len(d.centroids))
  loop 1 apply i + 1 < len(d.centroids) ==> sumMember(arr(d.centroids, weight), i + 1, len(d.centroids))
  let none = len(d.centroids) == 0 && len(d.buffer) == 0
  ensures @refuse result1 == nil <==> !old(none) && 0 <= rank && rank <= 1
  ensures @range result1 == nil ==> tIn(result0, d.min, d.max)
  ensures @lowest result1 == nil && rank == 0 ==> real(result0) == real(d.min)
  ensures @highest result1 == nil && rank == 1 ==> real(result0) == real(d.max)
  ensures @state tTotal(d) == old(tTotal(d)) && real(d.min) == real(old(d.min)) && real(d.max) == real(old(d.max)) && tWF(d)

func (*Double).preambleLongs
  requires d != nil && d.centroidsWeight <= 1152921504606846976 && len(d.buffer) <= 1099511627776
  ensures result == (if len(d.centroids) == 0 && len(d.buffer) == 0 || tTotal(d) == 1 then 1 else 2)
func (*Double).SerializedSizeBytes
  requires tWF(d) && tRoom(d) && tTotal(d) <= 1152921504606846976
  modifies d.centroids, d.centroids[0..cap(d.centroids)], d.centroidsWeight, d.min, d.max, d.reverseMerge, d.buffer
  ensures @state tTotal(d) == old(tTotal(d)) && real(d.min) == real(old(d.min)) && real(d.max) == real(old(d.max)) && tWF(d)
  ensures @idle withBuffer ==> unchanged(d.centroids, d.centroidsWeight, d.min, d.max, d.reverseMerge, d.buffer) && tSame(d)
