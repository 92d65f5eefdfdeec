package internal


func FindWithInequality
  props P01
  requires comparator != nil
  requires 0 <= low && low <= high && high < len(arr)
  requires forall a $C: !comparator(a, a)
  requires forall a, b $C: comparator(a, b) || comparator(b, a) || a == b
  requires forall a, b, c $C: comparator(a, b) && comparator(b, c) ==> comparator(a, c)
  requires forall i, j int: low <= i && i <= j && j <= high ==> !comparator(arr[j], arr[i])
  requires crit == 0 || crit == 1 || crit == 2 || crit == 3
  ensures @noerr result1 == nil
  ensures @range result0 == -1 || low <= result0 && result0 <= high
  ensures @lt crit == 0 ==> forall i int: low <= i && i <= high ==> (comparator(arr[i], v) <==> i <= result0)
  ensures @le crit == 1 ==> forall i int: low <= i && i <= high ==> (!comparator(v, arr[i]) <==> i <= result0)
  ensures @ge crit == 2 && result0 >= 0 ==> forall i int: low <= i && i <= high ==> (!comparator(arr[i], v) <==> i >= result0)
  ensures @ge1 crit == 2 && result0 == -1 ==> forall i int: low <= i && i <= high ==> comparator(arr[i], v)
  ensures @gt crit == 3 && result0 >= 0 ==> forall i int: low <= i && i <= high ==> (comparator(v, arr[i]) <==> i >= result0)
  ensures @gt1 crit == 3 && result0 == -1 ==> forall i int: low <= i && i <= high ==> !comparator(v, arr[i])
  loop 1 invariant low <= lo && lo <= hi && hi <= high
  loop 1 invariant crit == 0 || crit == 2 ==> (lo > low ==> comparator(arr[lo], v)) && (hi < high ==> !comparator(arr[hi], v))
  loop 1 invariant crit == 1 || crit == 3 ==> (lo > low ==> !comparator(v, arr[lo])) && (hi < high ==> comparator(v, arr[hi]))
  loop 1 decreases hi - lo

func partition
  props P02
  instance uint64, int64
  requires 0 <= lo && lo < hi && hi < len(arr)
  modifies arr[lo..hi+1]
  ensures @range lo <= result && result <= hi
  ensures @left forall k int: lo <= k && k < result ==> !(arr[result] < arr[k])
  ensures @right forall k int: result < k && k <= hi ==> !(arr[k] < arr[result])
  ensures @perm forall l, h, v int {occ(arr(arr), l, h, v)}: l <= lo && hi < h ==> occ(arr(arr), l, h, v) == occ(old(arr(arr)), l, h, v)
  ensures @elem forall k int {arr[k]}: lo <= k && k <= hi ==> occ(old(arr(arr)), lo, hi+1, arr[k]) >= 1
  use occStore
  use occPos
  loop 1 invariant lo <= i && i < hi && lo < j && j <= hi + 1 && arr[lo] == v
  loop 1 invariant (forall k int: lo < k && k <= i ==> !(v < arr[k])) && (forall k int: j <= k && k <= hi ==> !(arr[k] < v))
  loop 1 invariant forall l, h, v int {occ(arr(arr), l, h, v)}: l <= lo && hi < h ==> occ(arr(arr), l, h, v) == occ(old(arr(arr)), l, h, v)
  loop 1 decreases hi - i
  loop 2 invariant lo < j && j <= hi + 1
  loop 2 invariant forall k int: j <= k && k <= hi ==> !(arr[k] < v)
  loop 2 decreases j

func QuickSelect
  props P02
  instance uint64, int64
  requires 0 <= lo && lo <= hi && hi < len(arr) && lo <= pivot && pivot <= hi
  modifies arr[lo..hi+1]
  ensures @left forall k int: lo <= k && k < pivot ==> !(arr[pivot] < arr[k])
  ensures @right forall k int: pivot < k && k <= hi ==> !(arr[k] < arr[pivot])
  ensures @perm forall l, h, v int {occ(arr(arr), l, h, v)}: l <= lo && hi < h ==> occ(arr(arr), l, h, v) == occ(old(arr(arr)), l, h, v)
  ensures @elem forall k int {arr[k]}: lo <= k && k <= hi ==> occ(old(arr(arr)), lo, hi+1, arr[k]) >= 1
  ensures result == arr[pivot]
  ensures @strict occ(old(arr(arr)), lo, hi+1, arr[pivot]) <= 1 ==> (forall k int {arr[k]}: lo <= k && k < pivot ==> arr[k] < arr[pivot]) && (forall k int {arr[k]}: pivot < k && k <= hi ==> arr[pivot] < arr[k])
  ensures @split occ(old(arr(arr)), lo, hi+1, arr[pivot]) <= 1 ==> forall k int {occ(arr(arr), lo, pivot, k)}: occ(arr(arr), lo, pivot, k) == (if k < arr[pivot] then occ(old(arr(arr)), lo, hi+1, k) else 0)
  apply occUniq(arr(arr), lo, hi+1, pivot)
  apply occSplit(arr(arr), lo, pivot, hi+1)
  use occWit
  use occPos
  loop 1 invariant old(lo) <= lo && lo <= pivot && pivot <= hi && hi <= old(hi)
  loop 1 invariant forall a, b int: old(lo) <= a && a < lo && lo <= b && b <= old(hi) ==> !(arr[b] < arr[a])
  loop 1 invariant forall a, b int: old(lo) <= a && a <= hi && hi < b && b <= old(hi) ==> !(arr[b] < arr[a])
  loop 1 invariant forall l, h, v int {occ(arr(arr), l, h, v)}: l <= old(lo) && old(hi) < h ==> occ(arr(arr), l, h, v) == occ(old(arr(arr)), l, h, v)
  loop 1 decreases hi - lo

func Log2Floor
  apply pow2mono(27, result)
  ensures n == 0 ==> result == 0
  ensures n > 0 ==> result <= 31 && pow2(result) <= n && n < pow2(result + 1)
  ensures n < 134217728 ==> result <= 26
func LgSizeFromCount
  realfloat
  requires n < 134217728 && loadFactor == 0.9375
  apply pow2mono(result - 1, 28)
  apply pow2mono(result, 28)
  apply pow2mono(result - 1, result)
  ensures 1 <= result && result <= 28 && n < pow2(result) && n <= (15 * pow2(result)) / 16

func QuickSelectFunc
  props P16
  trusted the generic twin of QuickSelect, which is proved: selection by hash of the tuple entry table; exercised by the bounded search of P16
  requires 0 <= lo && lo <= hi && hi < len(arr) && lo <= pivot && pivot <= hi
  modifies arr[lo..hi+1]
  ensures @left forall k int: lo <= k && k < pivot ==> !(arr[pivot].Hash < arr[k].Hash)
  ensures @right forall k int: pivot < k && k <= hi ==> !(arr[k].Hash < arr[pivot].Hash)
  ensures @perm forall l, h, v int {occ(arr(arr, Hash), l, h, v)}: l <= lo && hi < h ==> occ(arr(arr, Hash), l, h, v) == occ(old(arr(arr, Hash)), l, h, v)
  ensures @elem forall k int {arr[k].Hash}: lo <= k && k <= hi ==> occ(old(arr(arr, Hash)), lo, hi+1, arr[k].Hash) >= 1
  ensures @strict occ(old(arr(arr, Hash)), lo, hi+1, arr[pivot].Hash) <= 1 ==> (forall k int {arr[k].Hash}: lo <= k && k < pivot ==> arr[k].Hash < arr[pivot].Hash) && (forall k int {arr[k].Hash}: pivot < k && k <= hi ==> arr[pivot].Hash < arr[k].Hash)
  ensures @split occ(old(arr(arr, Hash)), lo, hi+1, arr[pivot].Hash) <= 1 ==> forall k int {occ(arr(arr, Hash), lo, pivot, k)}: occ(arr(arr, Hash), lo, pivot, k) == (if k < arr[pivot].Hash then occ(old(arr(arr, Hash)), lo, hi+1, k) else 0)
  ensures @pair forall n, k int {occAt(old(arr(arr, Hash)), n, arr[k].Hash)}: hi < n && lo <= k && k <= hi && occ(old(arr(arr, Hash)), 0, n, arr[k].Hash) <= 1 ==> arr[k].Summary == old(arr(arr, Summary))[occAt(old(arr(arr, Hash)), n, arr[k].Hash)]
