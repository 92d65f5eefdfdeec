define totalT() = (forall a $T: !(a < a)) && (forall a, b $T: a < b || b < a || a == b) && (forall a, b, c $T: a < b && b < c ==> a < c)

// sum of a[lo..hi): definition, then proved lemmas
function sum(a arr, lo int, hi int) math
axiom sumEmpty(a arr, lo int, hi int)
  trigger sum(a, lo, hi)
  ensures hi <= lo ==> sum(a, lo, hi) == 0
  why definition of sum (base case)
axiom sumSnoc(a arr, lo int, hi int)
  trigger sum(a, lo, hi+1)
  ensures lo <= hi ==> sum(a, lo, hi+1) == sum(a, lo, hi) + a[hi]
  why definition of sum (recursive case)
lemma sumFrame(a arr, b arr, lo int, hi int)
  use sumEmpty
  induction hi - lo
  apply hi > lo ==> sumSnoc(a, lo, hi-1)
  apply hi > lo ==> sumSnoc(b, lo, hi-1)
  apply sumFrame(a, b, lo, hi-1)
  requires forall i int: lo <= i && i < hi ==> a[i] == b[i]
  ensures sum(a, lo, hi) == sum(b, lo, hi)
lemma sumStore(a arr, lo int, hi int, i int, v int)
  trigger sum(store(a, i, v), lo, hi)
  apply sumFrame(a, store(a, i, v), lo, hi)
  requires i < lo || i >= hi
  ensures sum(store(a, i, v), lo, hi) == sum(a, lo, hi)
lemma sumCat(a arr, lo int, m int, hi int)
  use sumEmpty
  induction hi - m
  apply hi > m ==> sumSnoc(a, lo, hi-1)
  apply hi > m ==> sumSnoc(a, m, hi-1)
  apply sumCat(a, lo, m, hi-1)
  requires lo <= m && m <= hi
  ensures sum(a, lo, m) + sum(a, m, hi) == sum(a, lo, hi)
lemma sumShift(a arr, b arr, lo int, hi int, d int)
  use sumEmpty
  induction hi - lo
  apply hi > lo ==> sumSnoc(a, lo+d, hi+d-1)
  apply hi > lo ==> sumSnoc(b, lo, hi-1)
  apply sumShift(a, b, lo, hi-1, d)
  requires forall i int: lo <= i && i < hi ==> a[i+d] == b[i]
  ensures sum(a, lo+d, hi+d) == sum(b, lo, hi)
lemma sumFrameT(a arr, b arr, lo int, hi int)
  trigger sum(a, lo, hi), sum(b, lo, hi)
  apply sumFrame(a, b, lo, hi)
  requires forall i int: lo <= i && i < hi ==> a[i] == b[i]
  ensures sum(a, lo, hi) == sum(b, lo, hi)
lemma sumMono(a arr, lo int, m int, hi int)
  use sumEmpty
  induction hi - m
  apply hi > m ==> sumSnoc(a, lo, hi-1)
  apply sumMono(a, lo, m, hi-1)
  requires lo <= m && m <= hi
  requires forall i int: m <= i && i < hi ==> a[i] >= 0
  ensures sum(a, lo, m) <= sum(a, lo, hi)

// powers of two
function p2(n int) math
axiom p2zero()
  ensures p2(0) == 1
  why definition of 2^n
axiom p2succ(n int)
  trigger p2(n+1)
  ensures n >= 0 ==> p2(n+1) == 2 * p2(n)
  why definition of 2^n
lemma p2mono(m int, n int)
  use p2zero
  induction n
  apply n > 0 ==> p2succ(n-1)
  apply p2mono(m, n-1)
  apply m == n && n > 0 ==> p2mono(m-1, n-1)
  requires 0 <= m && m <= n
  ensures 1 <= p2(m) && p2(m) <= p2(n)

// occ(a, lo, hi, v): how often v occurs in a[lo..hi)
function occ(a arr, lo int, hi int, v int) math
axiom occEmpty(a arr, lo int, hi int, v int)
  trigger occ(a, lo, hi, v)
  ensures hi <= lo ==> occ(a, lo, hi, v) == 0
  why definition of occ (base case)
axiom occSnoc(a arr, lo int, hi int, v int)
  trigger occ(a, lo, hi+1, v)
  ensures lo <= hi ==> occ(a, lo, hi+1, v) == occ(a, lo, hi, v) + (if a[hi] == v then 1 else 0)
  why definition of occ (recursive case)
lemma occBound(a arr, lo int, hi int, v int)
  trigger occ(a, lo, hi, v)
  use occEmpty
  induction hi - lo
  apply hi > lo ==> occSnoc(a, lo, hi-1, v)
  apply occBound(a, lo, hi-1, v)
  ensures 0 <= occ(a, lo, hi, v) && (lo <= hi ==> occ(a, lo, hi, v) <= hi - lo)
lemma occFrame(a arr, b arr, lo int, hi int, v int)
  use occEmpty
  induction hi - lo
  apply hi > lo ==> occSnoc(a, lo, hi-1, v)
  apply hi > lo ==> occSnoc(b, lo, hi-1, v)
  apply occFrame(a, b, lo, hi-1, v)
  requires forall i int: lo <= i && i < hi ==> a[i] == b[i]
  ensures occ(a, lo, hi, v) == occ(b, lo, hi, v)
lemma occStore(a arr, lo int, hi int, i int, v int, w int)
  trigger occ(store(a, i, v), lo, hi, w)
  use occEmpty
  induction hi - lo
  apply hi > lo ==> occSnoc(a, lo, hi-1, w)
  apply hi > lo ==> occSnoc(store(a, i, v), lo, hi-1, w)
  apply occStore(a, lo, hi-1, i, v, w)
  ensures occ(store(a, i, v), lo, hi, w) == occ(a, lo, hi, w) + (if lo <= i && i < hi then (if v == w then 1 else 0) - (if a[i] == w then 1 else 0) else 0)
lemma occCat(a arr, lo int, m int, hi int, v int)
  use occEmpty
  induction hi - m
  apply hi > m ==> occSnoc(a, lo, hi-1, v)
  apply hi > m ==> occSnoc(a, m, hi-1, v)
  apply occCat(a, lo, m, hi-1, v)
  requires lo <= m && m <= hi
  ensures occ(a, lo, m, v) + occ(a, m, hi, v) == occ(a, lo, hi, v)
lemma occNone(a arr, lo int, hi int, v int)
  use occEmpty
  induction hi - lo
  apply hi > lo ==> occSnoc(a, lo, hi-1, v)
  apply occNone(a, lo, hi-1, v)
  requires forall i int: lo <= i && i < hi ==> a[i] != v
  ensures occ(a, lo, hi, v) == 0
lemma occAll(a arr, lo int, hi int, v int)
  use occEmpty
  induction hi - lo
  apply hi > lo ==> occSnoc(a, lo, hi-1, v)
  apply occAll(a, lo, hi-1, v)
  requires lo <= hi
  requires forall i int: lo <= i && i < hi ==> a[i] == v
  ensures occ(a, lo, hi, v) == hi - lo
lemma occPos(a arr, lo int, hi int, i int)
  trigger occ(a, lo, hi, a[i])
  use occBound
  induction hi - lo
  apply hi > lo ==> occSnoc(a, lo, hi-1, a[i])
  apply occPos(a, lo, hi-1, i)
  requires lo <= i && i < hi
  ensures occ(a, lo, hi, a[i]) >= 1
lemma occTwo(a arr, lo int, hi int, i int, j int)
  use occBound
  apply occCat(a, lo, j, hi, a[i])
  apply occPos(a, lo, j, i)
  apply occPos(a, j, hi, j)
  requires lo <= i && i < j && j < hi && a[i] == a[j]
  ensures occ(a, lo, hi, a[i]) >= 2

lemma occWit(a arr, lo int, hi int, v int)
  trigger occ(a, lo, hi, v)
  use occEmpty
  induction hi - lo
  apply hi > lo ==> occSnoc(a, lo, hi-1, v)
  apply occWit(a, lo, hi-1, v)
  requires occ(a, lo, hi, v) >= 1
  ensures exists i int: lo <= i && i < hi && a[i] == v

lemma pow2mono(m int, n int)
  induction n
  apply pow2mono(m, n-1)
  requires 0 <= m && m <= n
  ensures pow2(m) <= pow2(n) && pow2(m) >= 1 && (m < n ==> 2 * pow2(m) <= pow2(n))

lemma occZeroArr(lo int, hi int, v int)
  trigger occ(constarr(int, 0), lo, hi, v)
  apply occNone(constarr(int, 0), lo, hi, v)
  requires v != 0
  ensures occ(constarr(int, 0), lo, hi, v) == 0

lemma occNever(a arr, lo int, hi int, v int)
  use occBound
  induction hi - lo
  apply hi > lo ==> occSnoc(a, lo, hi-1, v)
  apply occNever(a, lo, hi-1, v)
  requires occ(a, lo, hi, v) == 0
  ensures forall i int {a[i]}: lo <= i && i < hi ==> a[i] != v
lemma occFull(a arr, lo int, hi int, v int)
  use occBound
  induction hi - lo
  apply hi > lo ==> occSnoc(a, lo, hi-1, v)
  apply occFull(a, lo, hi-1, v)
  requires lo <= hi && occ(a, lo, hi, v) == hi - lo
  ensures forall i int {a[i]}: lo <= i && i < hi ==> a[i] == v
lemma occUniqB(a arr, lo int, hi int, i int, j int)
  trigger occ(a, lo, hi, a[i]), a[j]
  apply i < j ==> occTwo(a, lo, hi, i, j)
  apply j < i ==> occTwo(a, lo, hi, j, i)
  requires lo <= i && i < hi && lo <= j && j < hi && i != j && occ(a, lo, hi, a[i]) <= 1
  ensures a[i] != a[j]
lemma occUniq(a arr, lo int, hi int, i int)
  use occUniqB
  requires lo <= i && i < hi && occ(a, lo, hi, a[i]) <= 1
  ensures forall j int {a[j]}: lo <= j && j < hi && i != j ==> a[i] != a[j]
lemma occSplitLt(a arr, m int, hi int, k int)
  trigger occ(a, 0, m, k), occ(a, 0, hi, k)
  apply occCat(a, 0, m, hi, k)
  apply k < a[m] ==> occNone(a, m, hi, k)
  apply k >= a[m] ==> occNone(a, 0, m, k)
  requires 0 <= m && m < hi && k != 0
  requires forall i int: 0 <= i && i < m ==> a[i] < a[m]
  requires forall i int: m <= i && i < hi ==> a[i] >= a[m] || a[i] == 0
  ensures occ(a, 0, m, k) == (if k < a[m] then occ(a, 0, hi, k) else 0)

lemma occPushAll(a arr, lo int, hi int, v int)
  use occStore
  use occSnoc
  requires lo <= hi
  ensures forall w int {occ(store(a, hi, v), lo, hi+1, w)}: occ(store(a, hi, v), lo, hi+1, w) == occ(a, lo, hi, w) + (if v == w then 1 else 0)
lemma occSnocAll(a arr, lo int, hi int)
  use occSnoc
  requires lo <= hi
  ensures forall w int {occ(a, lo, hi+1, w)}: occ(a, lo, hi+1, w) == occ(a, lo, hi, w) + (if a[hi] == w then 1 else 0)
lemma occTail(a arr, m int, hi int, k int)
  trigger occ(a, 0, m, k), occ(a, 0, hi, k)
  apply occCat(a, 0, m, hi, k)
  apply occNone(a, m, hi, k)
  requires 0 <= m && m <= hi
  requires forall i int: m <= i && i < hi ==> a[i] != k
  ensures occ(a, 0, m, k) == occ(a, 0, hi, k)
lemma occFrameT(a arr, b arr, lo int, hi int, v int)
  trigger occ(a, lo, hi, v), occ(b, lo, hi, v)
  apply occFrame(a, b, lo, hi, v)
  requires forall i int: lo <= i && i < hi ==> a[i] == b[i]
  ensures occ(a, lo, hi, v) == occ(b, lo, hi, v)
lemma occAppend(a arr, b arr, n int, v int)
  use occFrame
  use occSnoc
  requires n >= 0 && b[n] == v && forall i int {b[i]}: 0 <= i && i < n ==> b[i] == a[i]
  ensures forall w int {occ(b, 0, n+1, w)}: occ(b, 0, n+1, w) == occ(a, 0, n, w) + (if v == w then 1 else 0)
lemma occSplit(a arr, lo int, m int, hi int)
  use occCat
  use occNone
  use occSplitK
  requires lo <= m && m < hi
  requires forall i int {a[i]}: lo <= i && i < m ==> a[i] < a[m]
  requires forall i int {a[i]}: m <= i && i < hi ==> a[i] >= a[m]
  ensures forall k int {occ(a, lo, m, k)}: occ(a, lo, m, k) == (if k < a[m] then occ(a, lo, hi, k) else 0)
lemma occSplitK(a arr, lo int, m int, hi int, k int)
  trigger occ(a, lo, m, k), occ(a, lo, hi, k)
  apply occCat(a, lo, m, hi, k)
  apply k < a[m] ==> occNone(a, m, hi, k)
  apply k >= a[m] ==> occNone(a, lo, m, k)
  requires lo <= m && m < hi
  requires forall i int {a[i]}: lo <= i && i < m ==> a[i] < a[m]
  requires forall i int {a[i]}: m <= i && i < hi ==> a[i] >= a[m]
  ensures occ(a, lo, m, k) == (if k < a[m] then occ(a, lo, hi, k) else 0)
lemma occMonoT(a arr, m int, hi int, k int)
  trigger occ(a, 0, m, k), occ(a, 0, hi, k)
  use occBound
  apply occCat(a, 0, m, hi, k)
  requires 0 <= m && m <= hi
  ensures occ(a, 0, m, k) <= occ(a, 0, hi, k)
lemma occOnce(a arr, m int, hi int)
  use occBound
  apply occSnoc(a, 0, m, a[m])
  apply occCat(a, 0, m+1, hi, a[m])
  requires 0 <= m && m < hi
  requires occ(a, 0, hi, a[m]) <= 1
  ensures occ(a, 0, m, a[m]) == 0

// little-endian numbers
define le2(b, i) = b[i] + 256*b[i+1]
define le4(b, i) = b[i] + 256*b[i+1] + 65536*b[i+2] + 16777216*b[i+3]
define le8(b, i) = le4(b, i) + 4294967296*le4(b, i+4)

// the position of a value that occurs (once) among the first n entries
function occAt(a arr, n int, v int) math
axiom occAtDef(a arr, n int, v int)
  trigger occAt(a, n, v)
  ensures occ(a, 0, n, v) >= 1 ==> 0 <= occAt(a, n, v) && occAt(a, n, v) < n && a[occAt(a, n, v)] == v
  why definition (choice): a value that occurs has a position (occWit)
lemma occAtU(a arr, n int, i int)
  trigger occAt(a, n, a[i])
  use occAtDef
  use occPos
  use occUniqB
  requires 0 <= i && i < n && occ(a, 0, n, a[i]) <= 1
  ensures occAt(a, n, a[i]) == i
lemma occAtStore(a arr, n int, i int, v int, k int)
  trigger occAt(store(a, i, v), n, k)
  use occAtDef
  use occAtU
  use occStore
  use occPos
  requires 0 <= i && i < n && k != v && a[i] != k && occ(a, 0, n, k) == 1
  ensures occAt(store(a, i, v), n, k) == occAt(a, n, k)
