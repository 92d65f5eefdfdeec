package count
defaultprops P05

lemma cellIn(i math, nb math, nh math, x math)
  requires 0 <= i && i < nh && 0 <= x && x < nb
  ensures 0 <= i * nb + x && i * nb + x < nh * nb
lemma cellSep(i math, j math, nb math, x math, y math)
  requires 0 <= i && i < j && 0 <= x && x < nb && 0 <= y
  ensures i * nb + x < j * nb + y

// the cell that item a[o..o+n) uses in row r
function cell(a arr<uint8>, o int, n int, s int64, nb int, r int) math
axiom cellDef(a arr<uint8>, o int, n int, s int64, nb int, r int)
  ensures cell(a, o, n, s, nb, r) == r * nb + mh1(a, o, n, uint64(s)) % nb
  why definition
define loc(c, a, o, n, r) = cell(a, o, n, c.hashSeeds[r], c.numBuckets, r)
define cmOK(c) = c.numBuckets >= 3 && c.numHashes >= 1 && len(c.hashSeeds) == c.numHashes && len(c.sketchSlice) == c.numHashes * c.numBuckets && ref(c.hashSeeds) != ref(c.sketchSlice) && len(c.sketchSlice) < pow2(30)

func (*CountMinSketch).getHashes
  requires cmOK(c)
  ensures fresh(result) && len(result) == c.numHashes && off(result) == 0
  ensures @loc forall r int {result[r]}: 0 <= r && r < c.numHashes ==> result[r] == loc(c, arr(item), off(item), len(item), r)
  ensures @loc2 forall r int {c.hashSeeds[r]}: 0 <= r && r < c.numHashes ==> result[r] == loc(c, arr(item), off(item), len(item), r)
  ensures @sep forall r, q int {result[r], result[q]}: 0 <= r && r < q && q < c.numHashes ==> result[r] < result[q]
  ensures @in forall r int {result[r]}: 0 <= r && r < c.numHashes ==> 0 <= result[r] && result[r] < len(c.sketchSlice)
  loop 1 invariant forall r int {sketchUpdateLocations[r]}: 0 <= r && r < i ==> sketchUpdateLocations[r] < i * c.numBuckets
  loop 1 invariant forall r, q int {sketchUpdateLocations[r], sketchUpdateLocations[q]}: 0 <= r && r < q && q < i ==> sketchUpdateLocations[r] < sketchUpdateLocations[q]
  loop 1 apply cellDef(arr(item), off(item), len(item), c.hashSeeds[i], c.numBuckets, i)
  loop 1 invariant forall r int {sketchUpdateLocations[r]}: 0 <= r && r < i ==> sketchUpdateLocations[r] == loc(c, arr(item), off(item), len(item), r) && 0 <= sketchUpdateLocations[r] && sketchUpdateLocations[r] < len(c.sketchSlice)

// without overflow, cells and the total are exact
define fits(x) = -pow2(63) <= x && x < pow2(63)
define hasLoc(c, x, h) = exists r int {c.hashSeeds[r]}: 0 <= r && r < c.numHashes && h == loc(c, arr(x), off(x), len(x), r)

// every cell is at most the total weight (streams of non-negative weights)
define cmNN(c) = c.totalWeight >= 0 && forall h int {c.sketchSlice[h]}: 0 <= h && h < len(c.sketchSlice) ==> 0 <= c.sketchSlice[h] && c.sketchSlice[h] <= c.totalWeight

func (*CountMinSketch).Update
  requires cmOK(c) && ref(item) != ref(c.sketchSlice)
  modifies c.totalWeight, c.sketchSlice[*]
  let n = len(item)
  ensures @noerr result == nil
  ensures @empty n == 0 ==> c.totalWeight == old(c.totalWeight) && forall h int {c.sketchSlice[h]}: c.sketchSlice[h] == old(c.sketchSlice[h])
  ensures @total n > 0 && weight >= 0 && fits(old(c.totalWeight) + weight) ==> c.totalWeight == old(c.totalWeight) + weight
  ensures @cells n > 0 ==> forall r int {c.hashSeeds[r]}: 0 <= r && r < c.numHashes && fits(old(c.sketchSlice[loc(c, arr(item), off(item), n, r)]) + weight) \
    ==> c.sketchSlice[loc(c, arr(item), off(item), n, r)] == old(c.sketchSlice[loc(c, arr(item), off(item), n, r)]) + weight
  ensures @others forall h int {c.sketchSlice[h]}: 0 <= h && h < len(c.sketchSlice) && c.sketchSlice[h] != old(c.sketchSlice[h]) ==> n > 0 && hasLoc(c, item, h)
  ensures @mono weight >= 0 && old(cmNN(c)) && fits(old(c.totalWeight) + weight) ==> cmNN(c) && forall h int {c.sketchSlice[h]}: 0 <= h && h < len(c.sketchSlice) ==> c.sketchSlice[h] >= old(c.sketchSlice[h])
  ensures @inv cmOK(c)
  loop 1 invariant 0 <= rangepos
  loop 1 invariant forall r int {hashLocations[r]}: 0 <= r && r < rangepos && fits(oldmem(c.sketchSlice[hashLocations[r]]) + weight) ==> c.sketchSlice[hashLocations[r]] == oldmem(c.sketchSlice[hashLocations[r]]) + weight
  loop 1 invariant forall r int {hashLocations[r]}: rangepos <= r && r < len(hashLocations) ==> c.sketchSlice[hashLocations[r]] == oldmem(c.sketchSlice[hashLocations[r]])
  loop 1 invariant forall h int {c.sketchSlice[h]}: 0 <= h && h < len(c.sketchSlice) && c.sketchSlice[h] != oldmem(c.sketchSlice[h]) ==> exists r int {hashLocations[r]}: 0 <= r && r < rangepos && h == hashLocations[r]
  loop 1 invariant weight >= 0 && oldmem(cmNN(c)) && fits(oldmem(c.totalWeight) + weight) ==> forall h int {c.sketchSlice[h]}: 0 <= h && h < len(c.sketchSlice) ==> c.sketchSlice[h] >= oldmem(c.sketchSlice[h]) && 0 <= c.sketchSlice[h] && c.sketchSlice[h] <= c.totalWeight

func (*CountMinSketch).GetEstimate
  requires cmOK(c)
  let n = len(item)
  ensures @empty n == 0 ==> result == 0
  ensures @lower n > 0 ==> forall r int {c.hashSeeds[r]}: 0 <= r && r < c.numHashes ==> result <= c.sketchSlice[loc(c, arr(item), off(item), n, r)]
  ensures @attained n > 0 ==> exists r int {c.hashSeeds[r]}: 0 <= r && r < c.numHashes && result == c.sketchSlice[loc(c, arr(item), off(item), n, r)]
  ensures cmNN(c) ==> 0 <= result && result <= c.totalWeight
  loop 1 invariant 0 <= rangepos && rangepos <= c.numHashes && (rangepos == 0 ==> estimate == 9223372036854775807)
  loop 1 invariant forall r int {hashLocations[r]}: 0 <= r && r < rangepos ==> estimate <= c.sketchSlice[hashLocations[r]]
  loop 1 invariant rangepos > 0 ==> exists r int {hashLocations[r]}: 0 <= r && r < rangepos && estimate == c.sketchSlice[hashLocations[r]]
func (*CountMinSketch).GetLowerBound
  requires cmOK(c)
  let n = len(item)
  ensures @empty n == 0 ==> result == 0
  ensures @lower n > 0 ==> forall r int {c.hashSeeds[r]}: 0 <= r && r < c.numHashes ==> result <= c.sketchSlice[loc(c, arr(item), off(item), n, r)]
  ensures @attained n > 0 ==> exists r int {c.hashSeeds[r]}: 0 <= r && r < c.numHashes && result == c.sketchSlice[loc(c, arr(item), off(item), n, r)]
func (*CountMinSketch).isEmpty
  ensures result == (c.totalWeight == 0)
func (*CountMinSketch).GetTotalWeight
  ensures result == c.totalWeight
func (*CountMinSketch).GetNumBuckets
  ensures result == c.numBuckets
func (*CountMinSketch).GetNumHashes
  ensures result == c.numHashes
func (*CountMinSketch).GetSeed
  ensures result == c.seed

// row seeds are a function of the seed
define sameShape(c, d) = c.numBuckets == d.numBuckets && c.numHashes == d.numHashes && c.seed == d.seed
func (*CountMinSketch).Merge
  requires cmOK(c) && ref(otherSketch) > 0 && cmOK(otherSketch) && (ref(c) != ref(otherSketch) ==> ref(c.sketchSlice) != ref(otherSketch.sketchSlice))
  modifies c.totalWeight, c.sketchSlice[*]
  ensures @reject (result == nil) <==> old(ref(c) != ref(otherSketch) && sameShape(c, otherSketch))
  ensures @unchanged result != nil ==> c.totalWeight == old(c.totalWeight) && forall h int {c.sketchSlice[h]}: c.sketchSlice[h] == old(c.sketchSlice[h])
  ensures @total result == nil && fits(old(c.totalWeight) + old(otherSketch.totalWeight)) ==> c.totalWeight == old(c.totalWeight) + old(otherSketch.totalWeight)
  ensures @cells result == nil ==> forall h int {c.sketchSlice[h]}: 0 <= h && h < len(c.sketchSlice) && fits(old(c.sketchSlice[h]) + otherSketch.sketchSlice[h]) ==> c.sketchSlice[h] == old(c.sketchSlice[h]) + otherSketch.sketchSlice[h]
  ensures @nonneg result == nil && old(cmNN(c)) && old(cmNN(otherSketch)) && fits(old(c.totalWeight) + old(otherSketch.totalWeight)) ==> cmNN(c)
  ensures @inv cmOK(c)
  loop 1 invariant forall h int {c.sketchSlice[h]}: 0 <= h && h < i && fits(oldmem(c.sketchSlice[h]) + otherSketch.sketchSlice[h]) ==> c.sketchSlice[h] == oldmem(c.sketchSlice[h]) + otherSketch.sketchSlice[h]
  loop 1 invariant forall h int {c.sketchSlice[h]}: i <= h && h < len(c.sketchSlice) ==> c.sketchSlice[h] == oldmem(c.sketchSlice[h])

// A truth table T (item -> total weight) that no cell of the item underestimates stays so through updates and merges; the
// estimate, being one of the item's cells, is then never below the truth.
function at(y int, r int) math
lemma underUpdate(T arr, A arr, B arr, x int, w int, nh int)
  requires w >= 0 && forall y, r int {at(y, r)}: 0 <= r && r < nh ==> T[y] <= A[at(y, r)]
  requires forall r int {at(x, r)}: 0 <= r && r < nh ==> B[at(x, r)] == A[at(x, r)] + w
  requires forall h int {B[h]}: B[h] >= A[h]
  ensures forall y, r int {at(y, r)}: 0 <= r && r < nh ==> (if y == x then T[y] + w else T[y]) <= B[at(y, r)]
lemma underMerge(T arr, U arr, A arr, B arr, C arr, nh int)
  requires forall y, r int {at(y, r)}: 0 <= r && r < nh ==> T[y] <= A[at(y, r)] && U[y] <= B[at(y, r)]
  requires forall h int {C[h]}: C[h] == A[h] + B[h]
  ensures forall y, r int {at(y, r)}: 0 <= r && r < nh ==> T[y] + U[y] <= C[at(y, r)]
lemma underEstimate(T arr, A arr, y int, e int, nh int)
  requires forall y, r int {at(y, r)}: 0 <= r && r < nh ==> T[y] <= A[at(y, r)]
  requires exists r int {at(y, r)}: 0 <= r && r < nh && e == A[at(y, r)]
  ensures T[y] <= e

package math/rand
func NewSource
  trusted standard library: returns a source, panics on nothing
  ensures result != nil
func New
  trusted standard library
  ensures fresh(result)
func (*Rand).Int
  trusted standard library: result unspecified
  ensures result >= 0
package count
func NewCountMinSketch
  props P05
  ensures @reject numBuckets < 3 || numHashes < 1 || numBuckets * numHashes >= pow2(30) ==> result1 != nil
  ensures @accept numBuckets >= 3 && numHashes >= 1 && numBuckets * numHashes < pow2(30) ==> result1 == nil
  ensures @inv result1 == nil ==> fresh(result0) && cmOK(result0) && cmNN(result0) && result0.totalWeight == 0 && result0.numBuckets == numBuckets && result0.numHashes == numHashes && result0.seed == seed
  loop 1 invariant 0 <= i && i < numHashes
  ensures @zero result1 == nil ==> forall h int {result0.sketchSlice[h]}: 0 <= h && h < len(result0.sketchSlice) ==> result0.sketchSlice[h] == 0
