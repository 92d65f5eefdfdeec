package frequencies
defaultprops P07

// the counter table: slot s is active when st[s] > 0; then ks[s] is its item, vs[s] > 0 its counter and st[s]-1 its
// distance from the item's home slot
function home(k int, n int) int
axiom homeDef(k int, n int)
  trigger home(k, n)
  ensures n >= 1 ==> home(k, n) == hashFn(k) & (n - 1) && 0 <= home(k, n) && home(k, n) < n
  why definition of home; masking with n-1 >= 0 gives 0..n-1
axiom maskStep(x int, n int, g int)
  ensures g >= 0 && n == pow2(g) && 0 <= x && x <= n ==> (x & (n - 1)) == (if x == n then 0 else x)
  why meaning of a power-of-two mask
axiom maskAny(x int, m int, g int)
  trigger x & m, pow2(g)
  ensures g >= 0 && m == pow2(g) - 1 && 0 <= x && x <= m + 1 ==> (x & m) == (if x == m + 1 then 0 else x)
  ensures g >= 0 && x == pow2(g) - 1 && 0 <= m && m <= x + 1 ==> (x & m) == (if m == x + 1 then 0 else m)
  why meaning of a power-of-two mask
define cyc(a, b, n) = if b >= a then b - a else b - a + n
define fact(r, s) = r.states[s] > 0
define freach(st, ks, n) = forall s, t int {st[s], st[t]}: 0 <= s && s < n && 0 <= t && t < n && st[s] > 0 && cyc(home(ks[s], n), t, n) <= cyc(home(ks[s], n), s, n) ==> st[t] > 0
define fdrifts(st, ks, n) = forall s int {st[s]}: 0 <= s && s < n ==> 0 <= st[s] && st[s] <= 1023 && (st[s] > 0 ==> st[s] == cyc(home(ks[s], n), s, n) + 1)
define funiq(st, ks, n) = forall s, t int {ks[s], ks[t]}: 0 <= s && s < n && 0 <= t && t < n && st[s] > 0 && st[t] > 0 && ks[s] == ks[t] ==> s == t

function tot(st arr, ks arr, vs arr, d int, hi int, k int) math
axiom totEmpty(st arr, ks arr, vs arr, d int, hi int, k int)
  trigger tot(st, ks, vs, d, hi, k)
  ensures hi <= 0 ==> tot(st, ks, vs, d, hi, k) == 0
  why definition of tot (base case): the counters of item k in the first hi slots, each less d and at least 0
axiom totSnoc(st arr, ks arr, vs arr, d int, hi int, k int)
  trigger tot(st, ks, vs, d, hi+1, k)
  ensures hi >= 0 ==> tot(st, ks, vs, d, hi+1, k) == tot(st, ks, vs, d, hi, k) + (if st[hi] > 0 && ks[hi] == k && vs[hi] > d then vs[hi] - d else 0)
  why definition of tot (recursive case)
lemma totNone(st arr, ks arr, vs arr, d int, hi int, k int)
  trigger tot(st, ks, vs, d, hi, k)
  induction hi
  use totEmpty
  apply hi > 0 ==> totSnoc(st, ks, vs, d, hi-1, k)
  apply totNone(st, ks, vs, d, hi-1, k)
  requires forall i int {ks[i]}: 0 <= i && i < hi && st[i] > 0 ==> ks[i] != k
  ensures tot(st, ks, vs, d, hi, k) == 0
lemma totOne(st arr, ks arr, vs arr, d int, hi int, k int, p int)
  trigger tot(st, ks, vs, d, hi, k), st[p]
  induction hi
  use totEmpty
  apply hi > 0 ==> totSnoc(st, ks, vs, d, hi-1, k)
  apply p < hi-1 ==> totOne(st, ks, vs, d, hi-1, k, p)
  apply p == hi-1 ==> totNone(st, ks, vs, d, hi-1, k)
  requires 0 <= p && p < hi && st[p] > 0 && ks[p] == k
  requires forall i int {ks[i]}: 0 <= i && i < hi && st[i] > 0 && i != p ==> ks[i] != k
  ensures tot(st, ks, vs, d, hi, k) == (if vs[p] > d then vs[p] - d else 0)
lemma totNonneg(st arr, ks arr, vs arr, d int, hi int, k int)
  trigger tot(st, ks, vs, d, hi, k)
  induction hi
  use totEmpty
  apply hi > 0 ==> totSnoc(st, ks, vs, d, hi-1, k)
  apply totNonneg(st, ks, vs, d, hi-1, k)
  ensures tot(st, ks, vs, d, hi, k) >= 0
lemma totPut(st arr, ks arr, vs arr, hi int, p int, s int, q int, v int, k int)
  trigger tot(store(st, p, s), store(ks, p, q), store(vs, p, v), 0, hi, k)
  induction hi
  use totEmpty
  apply hi > 0 ==> totSnoc(st, ks, vs, 0, hi-1, k)
  apply hi > 0 ==> totSnoc(store(st, p, s), store(ks, p, q), store(vs, p, v), 0, hi-1, k)
  apply totPut(st, ks, vs, hi-1, p, s, q, v, k)
  ensures tot(store(st, p, s), store(ks, p, q), store(vs, p, v), 0, hi, k) == tot(st, ks, vs, 0, hi, k) \
    - (if 0 <= p && p < hi && st[p] > 0 && ks[p] == k && vs[p] > 0 then vs[p] else 0) + (if 0 <= p && p < hi && s > 0 && q == k && v > 0 then v else 0)
lemma totVal(st arr, ks arr, vs arr, hi int, p int, v int, k int)
  trigger tot(st, ks, store(vs, p, v), 0, hi, k)
  induction hi
  use totEmpty
  apply hi > 0 ==> totSnoc(st, ks, vs, 0, hi-1, k)
  apply hi > 0 ==> totSnoc(st, ks, store(vs, p, v), 0, hi-1, k)
  apply totVal(st, ks, vs, hi-1, p, v, k)
  ensures tot(st, ks, store(vs, p, v), 0, hi, k) == tot(st, ks, vs, 0, hi, k) \
    - (if 0 <= p && p < hi && st[p] > 0 && ks[p] == k && vs[p] > 0 then vs[p] else 0) + (if 0 <= p && p < hi && st[p] > 0 && ks[p] == k && v > 0 then v else 0)
lemma totDel(st arr, ks arr, vs arr, hi int, p int, k int)
  trigger tot(store(st, p, 0), ks, vs, 0, hi, k)
  induction hi
  use totEmpty
  apply hi > 0 ==> totSnoc(st, ks, vs, 0, hi-1, k)
  apply hi > 0 ==> totSnoc(store(st, p, 0), ks, vs, 0, hi-1, k)
  apply totDel(st, ks, vs, hi-1, p, k)
  ensures tot(store(st, p, 0), ks, vs, 0, hi, k) == tot(st, ks, vs, 0, hi, k) \
    - (if 0 <= p && p < hi && st[p] > 0 && ks[p] == k && vs[p] > 0 then vs[p] else 0)
lemma totShift(st arr, ks arr, vs arr, ws arr, d int, hi int, k int)
  induction hi
  use totEmpty
  apply hi > 0 ==> totSnoc(st, ks, vs, d, hi-1, k)
  apply hi > 0 ==> totSnoc(st, ks, ws, 0, hi-1, k)
  apply totShift(st, ks, vs, ws, d, hi-1, k)
  requires forall i int {ws[i]}: 0 <= i && i < hi && st[i] > 0 ==> ws[i] == vs[i] - d
  ensures tot(st, ks, ws, 0, hi, k) == tot(st, ks, vs, d, hi, k)

// number of active slots
function live(st arr, hi int) math
axiom liveEmpty(st arr, hi int)
  trigger live(st, hi)
  ensures hi <= 0 ==> live(st, hi) == 0
  why definition of live (base case)
axiom liveSnoc(st arr, hi int)
  trigger live(st, hi+1)
  ensures hi >= 0 ==> live(st, hi+1) == live(st, hi) + (if st[hi] > 0 then 1 else 0)
  why definition of live (recursive case)
lemma liveBound(st arr, hi int)
  trigger live(st, hi)
  induction hi
  use liveEmpty
  apply hi > 0 ==> liveSnoc(st, hi-1)
  apply liveBound(st, hi-1)
  ensures 0 <= live(st, hi) && (hi >= 0 ==> live(st, hi) <= hi)
lemma liveStore(st arr, hi int, p int, s int)
  trigger live(store(st, p, s), hi)
  induction hi
  use liveEmpty
  apply hi > 0 ==> liveSnoc(st, hi-1)
  apply hi > 0 ==> liveSnoc(store(st, p, s), hi-1)
  apply liveStore(st, hi-1, p, s)
  ensures live(store(st, p, s), hi) == live(st, hi) + (if 0 <= p && p < hi then (if s > 0 then 1 else 0) - (if st[p] > 0 then 1 else 0) else 0)
lemma liveFull(st arr, hi int)
  induction hi
  use liveEmpty
  apply hi > 0 ==> liveSnoc(st, hi-1)
  apply liveFull(st, hi-1)
  requires forall i int {st[i]}: 0 <= i && i < hi ==> st[i] > 0
  ensures hi >= 0 ==> live(st, hi) == hi
lemma liveNone(st arr, hi int)
  trigger live(st, hi)
  induction hi
  use liveEmpty
  apply hi > 0 ==> liveSnoc(st, hi-1)
  apply liveNone(st, hi-1)
  requires forall i int {st[i]}: 0 <= i && i < hi ==> st[i] <= 0
  ensures live(st, hi) == 0
lemma liveMono(st arr, m int, hi int)
  induction hi - m
  apply hi > m ==> liveSnoc(st, hi-1)
  apply liveMono(st, m, hi-1)
  requires 0 <= m && m <= hi
  ensures live(st, m) <= live(st, hi)

define fN(r) = len(r.keys)
define mapShape(r) = ref(r) > 0 && 3 <= r.lgLength && r.lgLength <= 30 && fN(r) == pow2(r.lgLength) && len(r.values) == fN(r) && len(r.states) == fN(r) \
   && off(r.keys) == 0 && off(r.values) == 0 && off(r.states) == 0 && ref(r.keys) != ref(r.values) && ref(r.states) != ref(r.keys) && ref(r.states) != ref(r.values)
define mapCore(r) = mapShape(r) && freach(arr(r.states), arr(r.keys), fN(r)) && fdrifts(arr(r.states), arr(r.keys), fN(r)) && funiq(arr(r.states), arr(r.keys), fN(r)) \
   && r.numActive == live(arr(r.states), fN(r)) && r.loadThreshold == (3 * fN(r)) / 4 && r.numActive <= r.loadThreshold + 1
define positive(r) = forall s int {r.values[s]}: 0 <= s && s < fN(r) && r.states[s] > 0 ==> r.values[s] > 0
define capped(r) = forall k int {fcnt(r, k)}: fcnt(r, k) <= 4611686018427387903
define mapOK(r) = mapCore(r) && positive(r)
define fcnt(r, k) = tot(arr(r.states), arr(r.keys), arr(r.values), 0, fN(r), k)

func hashFn
  functional
  ensures true

func newReversePurgeLongHashMap
  realfloat
  requires 8 <= mapSize && mapSize <= 1073741824
  apply liveNone(arr(result0.states), mapSize)
  apply result1 == nil ==> pow2mono(result0.lgLength, 2)
  apply result1 == nil ==> pow2mono(31, result0.lgLength)
  ensures @shape result1 == nil ==> mapShape(result0)
  ensures @arr result1 == nil ==> positive(result0) && freach(arr(result0.states), arr(result0.keys), fN(result0)) && fdrifts(arr(result0.states), arr(result0.keys), fN(result0)) && funiq(arr(result0.states), arr(result0.keys), fN(result0))
  ensures @live result1 == nil ==> result0.numActive == live(arr(result0.states), fN(result0)) && result0.numActive == 0
  ensures @load result1 == nil ==> result0.loadThreshold == (3 * fN(result0)) / 4
  ensures @map result1 == nil ==> mapOK(result0) && fN(result0) == mapSize && result0.numActive == 0
  ensures @new result1 == nil ==> fresh(result0) && fresh(result0.keys) && fresh(result0.values) && fresh(result0.states)
  use totNone
  ensures @zero result1 == nil ==> forall k int {fcnt(result0, k)}: fcnt(result0, k) == 0

func (*reversePurgeLongHashMap).hashProbe
  requires mapCore(s)
  loop 1 invariant 0 <= probe && probe < fN(s) && arrayMask == fN(s) - 1
  loop 1 invariant forall t int {s.states[t]}: 0 <= t && t < fN(s) && cyc(home(key, fN(s)), t, fN(s)) < cyc(home(key, fN(s)), probe, fN(s)) ==> s.states[t] > 0 && s.keys[t] != key
  loop 1 apply maskStep(probe + 1, fN(s), s.lgLength)
  loop 1 apply homeDef(key, fN(s))
  ensures @range 0 <= result && result < fN(s)
  ensures @stop s.states[result] > 0 ==> s.keys[result] == key
  ensures @path forall t int {s.states[t]}: 0 <= t && t < fN(s) && cyc(home(key, fN(s)), t, fN(s)) < cyc(home(key, fN(s)), result, fN(s)) ==> s.states[t] > 0 && s.keys[t] != key

func (*reversePurgeLongHashMap).get
  requires mapOK(r)
  use totOne
  use totNone
  ensures @ok result1 == nil
  ensures @val result0 == fcnt(r, key)

define sameMap(r) = unchanged(r.keys, r.values, r.states, r.numActive) && arr(r.keys) === old(arr(r.keys)) && arr(r.values) === old(arr(r.values)) && arr(r.states) === old(arr(r.states))
define ofcnt(r, k) = tot(old(arr(r.states)), old(arr(r.keys)), old(arr(r.values)), 0, old(fN(r)), k)

func (*reversePurgeLongHashMap).adjustOrPutValue
  requires adjustAmount > 0
  requires adjustAmount <= 4611686018427387904
  requires mapOK(r)
  requires capped(r)
  modifies r.keys[*], r.values[*], r.states[*], r.numActive
  loop 1 invariant 0 <= probe && probe < fN(r) && arrayMask == fN(r) - 1 && drift == cyc(home(key, fN(r)), probe, fN(r)) + 1 && drift <= 1023
  loop 1 invariant forall t int {r.states[t]}: 0 <= t && t < fN(r) && cyc(home(key, fN(r)), t, fN(r)) < cyc(home(key, fN(r)), probe, fN(r)) ==> r.states[t] > 0 && r.keys[t] != key
  loop 1 apply maskStep(probe + 1, fN(r), r.lgLength)
  loop 1 apply homeDef(key, fN(r))
  loop 1 apply liveFull(arr(r.states), fN(r))
  loop 1 apply totOne(arr(r.states), arr(r.keys), arr(r.values), 0, fN(r), key, probe)
  loop 1 decreases 1024 - drift
  use totOne
  use totNone
  use totPut
  use totVal
  use liveStore
  use homeDef
  ensures @shape mapShape(r) && r.loadThreshold == old(r.loadThreshold)
  ensures @putcount result == nil && r.numActive > old(r.numActive) ==> forall k int {fcnt(r, k)}: fcnt(r, k) == ofcnt(r, k) + (if k == key then adjustAmount else 0)
  ensures @adjcount result == nil && r.numActive == old(r.numActive) ==> forall k int {fcnt(r, k)}: fcnt(r, k) == ofcnt(r, k) + (if k == key then adjustAmount else 0)
  ensures @putlive result == nil && r.numActive > old(r.numActive) ==> r.numActive == live(arr(r.states), fN(r)) && r.numActive <= r.loadThreshold + 1
  ensures @putreach result == nil && r.numActive > old(r.numActive) ==> freach(arr(r.states), arr(r.keys), fN(r))
  ensures @putdrift result == nil && r.numActive > old(r.numActive) ==> fdrifts(arr(r.states), arr(r.keys), fN(r))
  ensures @putuniq result == nil && r.numActive > old(r.numActive) ==> funiq(arr(r.states), arr(r.keys), fN(r))
  ensures @putpos result == nil ==> positive(r)
  ensures @adjsame result == nil && r.numActive == old(r.numActive) ==> arr(r.states) === old(arr(r.states)) && arr(r.keys) === old(arr(r.keys))
  ensures @inv result == nil ==> mapOK(r)
  ensures @count result == nil ==> forall k int {fcnt(r, k)}: fcnt(r, k) == ofcnt(r, k) + (if k == key then adjustAmount else 0)
  ensures @err result != nil ==> sameMap(r)
  ensures @grow old(r.numActive) <= r.numActive && r.numActive <= old(r.numActive) + 1

func (*reversePurgeLongHashMap).adjustAllValuesBy
  requires mapOK(r) && -4611686018427387904 <= adjustAmount && adjustAmount <= 0
  modifies r.values[*]
  loop 1 invariant 0 <= i && i <= fN(r)
  loop 1 invariant forall s int {r.values[s]}: 0 <= s && s < i ==> r.values[s] == entry(r.values[s])
  loop 1 invariant forall s int {r.values[s]}: i <= s && s < fN(r) && r.states[s] > 0 ==> r.values[s] == entry(r.values[s]) + adjustAmount
  loop 1 decreases i
  ensures forall s int {r.values[s]}: 0 <= s && s < fN(r) && r.states[s] > 0 ==> r.values[s] == old(r.values[s]) + adjustAmount

lemma liveButOne(st arr, hi int, d int)
  induction hi
  use liveEmpty
  apply hi > 0 ==> liveSnoc(st, hi-1)
  apply liveButOne(st, hi-1, d)
  apply d == hi - 1 ==> liveFull(st, hi-1)
  requires forall i int {st[i]}: 0 <= i && i < hi && i != d ==> st[i] > 0
  ensures hi >= 0 ==> live(st, hi) >= hi - 1

define tableOK(r) = mapShape(r) && freach(arr(r.states), arr(r.keys), fN(r)) && fdrifts(arr(r.states), arr(r.keys), fN(r)) && funiq(arr(r.states), arr(r.keys), fN(r))

func (*reversePurgeLongHashMap).hashDelete
  requires tableOK(r) && live(arr(r.states), fN(r)) < fN(r) && 0 <= deleteProbe && deleteProbe < fN(r) && r.states[deleteProbe] > 0 && r.values[deleteProbe] <= 0
  requires forall u int {r.values[u]}: 0 <= u && u < fN(r) && u != deleteProbe && (forall w int {r.states[w]}: 0 <= w && w < fN(r) && cyc(deleteProbe, w, fN(r)) <= cyc(deleteProbe, u, fN(r)) ==> r.states[w] > 0) ==> r.values[u] > 0
  modifies r.keys[*], r.values[*], r.states[*]
  use maskAny
  use totPut
  use totDel
  use liveStore
  use homeDef
  loop 1 invariant 0 <= deleteProbe && deleteProbe < fN(r) && 0 <= probe && probe < fN(r) && arrayMask == fN(r) - 1 && probe != deleteProbe
  loop 1 invariant r.states[deleteProbe] == 0 && drift == cyc(deleteProbe, probe, fN(r)) && 1 <= drift && drift <= 1023
  loop 1 invariant live(arr(r.states), fN(r)) == old(live(arr(r.states), fN(r))) - 1
  loop 1 invariant cyc(old(deleteProbe), deleteProbe, fN(r)) < cyc(old(deleteProbe), probe, fN(r))
  loop 1 invariant forall t int {r.states[t]}: 0 <= t && t < fN(r) && 0 < cyc(deleteProbe, t, fN(r)) && cyc(deleteProbe, t, fN(r)) < drift ==> r.states[t] > 0
  loop 1 invariant forall s, t int {r.states[s], r.states[t]}: 0 <= s && s < fN(r) && 0 <= t && t < fN(r) && r.states[s] > 0 && cyc(home(r.keys[s], fN(r)), t, fN(r)) <= cyc(home(r.keys[s], fN(r)), s, fN(r)) ==> r.states[t] > 0 || (t == deleteProbe && cyc(deleteProbe, s, fN(r)) >= drift)
  loop 1 invariant fdrifts(arr(r.states), arr(r.keys), fN(r))
  loop 1 invariant funiq(arr(r.states), arr(r.keys), fN(r))
  loop 1 invariant forall k int {fcnt(r, k)}: fcnt(r, k) == ofcnt(r, k)
  loop 1 invariant forall w int {old(r.states[w])}: 0 <= w && w < fN(r) && cyc(old(deleteProbe), w, fN(r)) < cyc(old(deleteProbe), probe, fN(r)) ==> old(r.states[w]) > 0
  loop 1 invariant forall w int {r.states[w]}: 0 <= w && w < fN(r) && cyc(old(deleteProbe), w, fN(r)) >= cyc(old(deleteProbe), probe, fN(r)) ==> r.states[w] == old(r.states[w]) && r.values[w] == old(r.values[w])
  loop 1 invariant forall t int {r.states[t]}: 0 <= t && t < fN(r) && r.states[t] > 0 ==> old(r.states[t]) > 0 && (r.values[t] > 0 || (t != old(deleteProbe) && r.values[t] == old(r.values[t])))
  loop 1 apply maskStep(probe + 1, fN(r), r.lgLength)
  loop 1 apply liveButOne(arr(r.states), fN(r), deleteProbe)
  loop 1 apply liveFull(old(arr(r.states)), fN(r))
  ensures @table tableOK(r)
  ensures @live live(arr(r.states), fN(r)) == old(live(arr(r.states), fN(r))) - 1
  ensures @count forall k int {fcnt(r, k)}: fcnt(r, k) == ofcnt(r, k)
  ensures @moved forall t int {r.states[t]}: 0 <= t && t < fN(r) && r.states[t] > 0 ==> old(r.states[t]) > 0 && (r.values[t] > 0 || (t != deleteProbe && r.values[t] == old(r.values[t])))

func (*reversePurgeLongHashMap).keepOnlyPositiveCounts
  requires mapCore(r)
  use liveBound
  modifies r.keys[*], r.values[*], r.states[*], r.numActive
  loop 1 invariant 0 <= firstProbe && firstProbe < fN(r)
  loop 1 invariant forall t int {r.states[t]}: firstProbe < t && t < fN(r) ==> r.states[t] > 0
  loop 1 apply liveFull(arr(r.states), fN(r))
  loop 1 decreases firstProbe
  loop 2 invariant 0 <= probe && probe <= firstProbe && firstProbe < fN(r) && r.states[firstProbe] == 0
  loop 2 invariant mapShape(r) && r.loadThreshold == (3 * fN(r)) / 4
  loop 2 invariant freach(arr(r.states), arr(r.keys), fN(r))
  loop 2 invariant fdrifts(arr(r.states), arr(r.keys), fN(r))
  loop 2 invariant funiq(arr(r.states), arr(r.keys), fN(r))
  loop 2 invariant r.numActive == live(arr(r.states), fN(r))
  loop 2 invariant r.numActive <= r.loadThreshold + 1
  loop 2 invariant forall k int {fcnt(r, k)}: fcnt(r, k) == ofcnt(r, k)
  loop 2 invariant forall t int {r.values[t]}: probe <= t && t < firstProbe && r.states[t] > 0 ==> r.values[t] > 0
  loop 2 decreases probe
  loop 3 invariant firstProbe < probe && probe <= fN(r) && 0 <= firstProbe && r.states[firstProbe] == 0
  loop 3 invariant mapShape(r) && r.loadThreshold == (3 * fN(r)) / 4
  loop 3 invariant freach(arr(r.states), arr(r.keys), fN(r))
  loop 3 invariant fdrifts(arr(r.states), arr(r.keys), fN(r))
  loop 3 invariant funiq(arr(r.states), arr(r.keys), fN(r))
  loop 3 invariant r.numActive == live(arr(r.states), fN(r))
  loop 3 invariant r.numActive <= r.loadThreshold + 1
  loop 3 invariant forall k int {fcnt(r, k)}: fcnt(r, k) == ofcnt(r, k)
  loop 3 invariant forall t int {r.values[t]}: (0 <= t && t < firstProbe || probe <= t && t < fN(r)) && r.states[t] > 0 ==> r.values[t] > 0
  loop 3 decreases probe
  ensures @inv mapOK(r)
  ensures @count forall k int {fcnt(r, k)}: fcnt(r, k) == ofcnt(r, k)

lemma totCut(st arr, ks arr, vs arr, d int, hi int, k int)
  trigger tot(st, ks, vs, d, hi, k)
  induction hi
  use totEmpty
  apply hi > 0 ==> totSnoc(st, ks, vs, 0, hi-1, k)
  apply hi > 0 ==> totSnoc(st, ks, vs, d, hi-1, k)
  apply totCut(st, ks, vs, d, hi-1, k)
  apply totNone(st, ks, vs, 0, hi-1, k)
  apply totNone(st, ks, vs, d, hi-1, k)
  requires d >= 0 && funiq(st, ks, hi)
  ensures tot(st, ks, vs, d, hi, k) == max(tot(st, ks, vs, 0, hi, k) - d, 0)
lemma totShiftT(st arr, ks arr, vs arr, ws arr, d int, hi int, k int)
  trigger tot(st, ks, ws, 0, hi, k), tot(st, ks, vs, d, hi, k)
  apply totShift(st, ks, vs, ws, d, hi, k)
  requires forall i int {ws[i]}: 0 <= i && i < hi && st[i] > 0 ==> ws[i] == vs[i] - d
  ensures tot(st, ks, ws, 0, hi, k) == tot(st, ks, vs, d, hi, k)

func (*reversePurgeLongHashMap).purge
  requires mapOK(r) && capped(r) && sampleSize >= 1 && r.numActive >= 1
  modifies r.keys[*], r.values[*], r.states[*], r.numActive
  use liveBound
  use occWit
  loop 1 invariant 0 <= i && i <= fN(r) && numSamples == live(arr(r.states), i) && numSamples <= limit && limit == min(sampleSize, r.numActive) && len(samples) == limit && off(samples) == 0 && fresh(samples)
  loop 1 invariant forall j int {samples[j]}: 0 <= j && j < numSamples ==> 0 < samples[j] && samples[j] <= 4611686018427387903
  loop 1 invariant forall j int {samples[j]}: 0 <= j && j < numSamples ==> exists k int {ofcnt(r, k)}: ofcnt(r, k) == samples[j]
  loop 1 apply totOne(old(arr(r.states)), old(arr(r.keys)), old(arr(r.values)), 0, fN(r), r.keys[i], i)
  loop 1 invariant forall s int {r.values[s]}: 0 <= s && s < fN(r) ==> r.values[s] == old(r.values[s])
  loop 1 apply liveSnoc(arr(r.states), i)
  loop 1 apply liveMono(arr(r.states), i, fN(r))
  loop 1 decreases fN(r) - i
  use totCut
  use totShiftT
  ensures @some exists k int {ofcnt(r, k)}: ofcnt(r, k) == result
  ensures @val 1 <= result && result <= 4611686018427387903
  ensures @inv mapOK(r)
  ensures @cut forall k int {fcnt(r, k)}: fcnt(r, k) == tot(old(arr(r.states)), old(arr(r.keys)), old(arr(r.values)), result, old(fN(r)), k)

lemma totMonoT(st arr, ks arr, vs arr, i int, j int, k int)
  trigger tot(st, ks, vs, 0, i, k), tot(st, ks, vs, 0, j, k)
  induction j - i
  apply j > i ==> totSnoc(st, ks, vs, 0, j-1, k)
  apply totMonoT(st, ks, vs, i, j-1, k)
  requires 0 <= i && i <= j
  ensures tot(st, ks, vs, 0, i, k) <= tot(st, ks, vs, 0, j, k)
lemma pow2cap(m int)
  trigger pow2(m)
  apply pow2mono(m, 29)
  requires 0 <= m && m <= 29
  ensures pow2(m) <= 536870912
lemma pow2room(m int)
  trigger pow2(m)
  apply pow2mono(30, m)
  requires 0 <= m && pow2(m) <= 536870912
  ensures m <= 29
lemma pow2step(m int, n int)
  trigger pow2(m), pow2(n)
  requires m >= 0 && n == m + 1
  ensures pow2(n) == 2 * pow2(m)
lemma totSnocT(st arr, ks arr, vs arr, i int, j int, k int)
  trigger tot(st, ks, vs, 0, i, k), tot(st, ks, vs, 0, j, k)
  apply totSnoc(st, ks, vs, 0, i, k)
  requires i >= 0 && j == i + 1
  ensures tot(st, ks, vs, 0, j, k) == tot(st, ks, vs, 0, i, k) + (if st[i] > 0 && ks[i] == k && vs[i] > 0 then vs[i] else 0)

func (*reversePurgeLongHashMap).resize
  realfloat
  requires mapOK(r)
  requires capped(r)
  requires newSize == 2 * fN(r)
  requires newSize <= 1073741824
  modifies r.keys, r.values, r.states, r.loadThreshold, r.lgLength, r.numActive
  use totNone
  use liveNone
  use totEmpty
  use totSnocT
  use pow2step
  use pow2room
  use totMonoT
  loop 1 invariant 0 <= i && i <= len(oldKeys) && fN(r) == newSize && fresh(r.keys) && fresh(r.values) && fresh(r.states)
  loop 1 invariant r.lgLength == old(r.lgLength) + 1
  loop 1 invariant fN(r) == pow2(r.lgLength)
  loop 1 invariant ref(r) > 0 && 3 <= r.lgLength && r.lgLength <= 30
  loop 1 invariant len(r.values) == fN(r) && len(r.states) == fN(r) && off(r.keys) == 0 && off(r.values) == 0 && off(r.states) == 0
  loop 1 invariant mapShape(r)
  loop 1 invariant err == nil ==> positive(r)
  loop 1 invariant err == nil ==> mapCore(r)
  loop 1 invariant err == nil ==> forall k int {fcnt(r, k)}: fcnt(r, k) == tot(arr(oldStates), arr(oldKeys), arr(oldValues), 0, i, k)
  loop 1 invariant err == nil ==> forall k int {fcnt(r, k)}: fcnt(r, k) <= ofcnt(r, k) && ofcnt(r, k) <= 4611686018427387903
  loop 1 apply totSnoc(arr(oldStates), arr(oldKeys), arr(oldValues), 0, i, oldKeys[i])
  loop 1 apply totNone(arr(oldStates), arr(oldKeys), arr(oldValues), 0, i, oldKeys[i])
  loop 1 apply totOne(arr(oldStates), arr(oldKeys), arr(oldValues), 0, i, oldKeys[i], i)
  loop 1 apply totOne(arr(oldStates), arr(oldKeys), arr(oldValues), 0, len(oldKeys), oldKeys[i], i)
  ensures @shape mapShape(r) && fN(r) == newSize
  ensures @inv result == nil ==> mapOK(r) && capped(r)
  ensures @count result == nil ==> forall k int {fcnt(r, k)}: fcnt(r, k) == ofcnt(r, k)

// the sketch: every counter plus the error offset is at most the stream weight
define lcnt(s, k) = fcnt(s.hashMap, k)
define olcnt(s, k) = tot(old(arr(s.hashMap.states)), old(arr(s.hashMap.keys)), old(arr(s.hashMap.values)), 0, old(fN(s.hashMap)), k)
define fqShape(s) = ref(s) > 0 && mapOK(s.hashMap) && 3 <= s.lgMaxMapSize && s.lgMaxMapSize <= 30 && s.sampleSize >= 1 && s.curMapCap == s.hashMap.loadThreshold && s.offset >= 0
define fqWeigh(s) = forall k int {lcnt(s, k)}: lcnt(s, k) + s.offset <= s.streamWeight
define fqOK(s) = fqShape(s) && fqWeigh(s) && s.offset <= s.streamWeight

func NewLongsSketch
  realfloat
  requires lgMaxMapSize <= 30 && lgCurMapSize <= 30
  ensures @map result1 == nil ==> mapOK(result0.hashMap)
  ensures @lg result1 == nil ==> 3 <= result0.lgMaxMapSize && result0.lgMaxMapSize <= 30 && result0.curMapCap == result0.hashMap.loadThreshold && result0.offset == 0 && result0.streamWeight == 0
  ensures @sample result1 == nil ==> result0.sampleSize >= 1
  ensures @ok result1 == nil ==> fqOK(result0) && result0.streamWeight == 0 && result0.offset == 0
  ensures @cfg result1 == nil ==> result0.lgMaxMapSize == max(lgMaxMapSize, 3) && fresh(result0)
  ensures @zero result1 == nil ==> forall k int {lcnt(result0, k)}: lcnt(result0, k) == 0
  apply pow2mono(3, max(lgMaxMapSize, 3))
  apply pow2mono(3, max(lgCurMapSize, 3))
  apply pow2mono(max(lgMaxMapSize, 3), 30)
  apply pow2mono(max(lgCurMapSize, 3), 30)

func (*LongsSketch).GetEstimate
  requires fqOK(s) && s.streamWeight <= 4611686018427387903
  use totOne
  use totNone
  ensures @est result1 == nil && result0 == lcnt(s, item) + s.offset
func (*LongsSketch).GetLowerBound
  requires fqOK(s) && s.streamWeight <= 4611686018427387903
  ensures @lower result1 == nil && result0 == lcnt(s, item)
func (*LongsSketch).GetUpperBound
  requires fqOK(s) && s.streamWeight <= 4611686018427387903
  use totNonneg
  ensures @upper result1 == nil && result0 == lcnt(s, item) + s.offset
func (*LongsSketch).GetMaximumError
  ensures result == s.offset
func (*LongsSketch).GetStreamLength
  ensures result == s.streamWeight
func (*LongsSketch).GetNumActiveItems
  requires ref(s.hashMap) > 0
  ensures result == s.hashMap.numActive
func (*LongsSketch).IsEmpty
  requires ref(s.hashMap) > 0
  ensures @empty result == (s.hashMap.numActive == 0 && s.streamWeight == 0)

func (*LongsSketch).UpdateMany
  realfloat
  requires fqOK(s) && (count > 0 ==> s.streamWeight + count <= 4611686018427387903)
  modifies s.streamWeight, s.offset, s.curMapCap, s.hashMap.keys, s.hashMap.values, s.hashMap.states, s.hashMap.loadThreshold, s.hashMap.lgLength, s.hashMap.numActive, s.hashMap.keys[*], s.hashMap.values[*], s.hashMap.states[*]
  use totCut
  use totOne
  use totNone
  use pow2cap
  ensures @reject count < 0 ==> result != nil && unchanged(s.streamWeight, s.offset, s.hashMap.numActive)
  ensures @zero count == 0 ==> result == nil && unchanged(s.streamWeight, s.offset, s.hashMap.numActive)
  ensures @weight result == nil ==> s.streamWeight == old(s.streamWeight) + count
  ensures @shape result == nil ==> fqShape(s)
  ensures @lower result == nil ==> forall k int {lcnt(s, k)}: lcnt(s, k) <= olcnt(s, k) + (if k == item then count else 0)
  ensures @upper result == nil ==> forall k int {lcnt(s, k)}: lcnt(s, k) + s.offset >= olcnt(s, k) + old(s.offset) + (if k == item then count else 0)
  ensures @error result == nil ==> s.offset >= old(s.offset) && s.offset <= s.streamWeight
  ensures @weigh result == nil ==> fqWeigh(s)
