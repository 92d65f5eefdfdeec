package common
defaultprops P18

define u64(v) = if v < 0 then v + 18446744073709551616 else v
define fit(o, n, w, cap) = 0 <= o && o <= cap && n <= (cap - o) / w

func checkBounds
  mode bv
  requires memCap >= 0
  ensures result <==> offset >= 0 && reqLen >= 0 && reqLen <= memCap && offset <= memCap - reqLen

func ItemSketchLongSerDe.SizeOf
  ensures result == 8
func ItemSketchLongSerDe.SizeOfMany
  requires 0 <= numItems && numItems <= 1000000000000
  ensures result0 == 8*numItems && result1 == nil
func ItemSketchLongSerDe.SerializeOneToSlice
  ensures len(result) == 8
  ensures le8(result, 0) == u64(item)
func ItemSketchLongSerDe.SerializeManyToSlice
  requires len(item) <= 8796093022208
  ensures @size len(result) == 8*len(item)
  ensures @bytes forall i int {item[i]}: 0 <= i < len(item) ==> le8(result, 8*i) == u64(item[i])
  loop 1 invariant 0 <= i && offset == 8*i && len(bytes) == 8*len(item)
  loop 1 invariant forall i1 int {item[i1]}: 0 <= i1 < i ==> le8(bytes, 8*i1) == u64(item[i1])
func ItemSketchLongSerDe.DeserializeManyFromSlice
  ensures @complete numItems > 0 ==> (result1 == nil <==> fit(offsetBytes, numItems, 8, len(mem)))
  ensures @empty numItems <= 0 ==> result1 == nil
  ensures @count result1 == nil ==> len(result0) == max(numItems, 0)
  ensures @items result1 == nil ==> forall i int {result0[i]}: 0 <= i < numItems ==> u64(result0[i]) == le8(mem, offsetBytes + 8*i)
  loop 1 invariant fresh(array)
  loop 1 invariant 0 <= i && i <= numItems && offsetBytes == old(offsetBytes) + 8*i && len(array) == i
  loop 1 invariant forall j int {array[j]}: 0 <= j < i ==> u64(array[j]) == le8(mem, old(offsetBytes) + 8*j)
func ItemSketchDoubleSerDe.SizeOf
  ensures result == 8
func ItemSketchDoubleSerDe.SizeOfMany
  requires 0 <= numItems && numItems <= 1000000000000
  ensures result0 == 8*numItems && result1 == nil
func ItemSketchDoubleSerDe.SerializeOneToSlice
  ensures len(result) == 8
  ensures le8(result, 0) == bits(item)
func ItemSketchDoubleSerDe.SerializeManyToSlice
  requires len(item) <= 8796093022208
  ensures @size len(result) == 8*len(item)
  ensures @bytes forall i int {item[i]}: 0 <= i < len(item) ==> le8(result, 8*i) == bits(item[i])
  loop 1 invariant 0 <= i && offset == 8*i && len(bytes) == 8*len(item)
  loop 1 invariant forall i1 int {item[i1]}: 0 <= i1 < i ==> le8(bytes, 8*i1) == bits(item[i1])
func ItemSketchDoubleSerDe.DeserializeManyFromSlice
  ensures @complete numItems > 0 ==> (result1 == nil <==> fit(offsetBytes, numItems, 8, len(mem)))
  ensures @empty numItems <= 0 ==> result1 == nil
  ensures @count result1 == nil ==> len(result0) == max(numItems, 0)
  ensures @items result1 == nil ==> forall i int {result0[i]}: 0 <= i < numItems ==> bits(result0[i]) == le8(mem, offsetBytes + 8*i)
  loop 1 invariant fresh(array)
  loop 1 invariant 0 <= i && i <= numItems && offsetBytes == old(offsetBytes) + 8*i && len(array) == i
  loop 1 invariant forall j int {array[j]}: 0 <= j < i ==> bits(array[j]) == le8(mem, old(offsetBytes) + 8*j)
func ItemSketchFloatSerDe.SizeOf
  ensures result == 4
func ItemSketchFloatSerDe.SizeOfMany
  requires 0 <= numItems && numItems <= 1000000000000
  ensures result0 == 4*numItems && result1 == nil
func ItemSketchFloatSerDe.SerializeOneToSlice
  ensures len(result) == 4
  ensures le4(result, 0) == bits(item)
func ItemSketchFloatSerDe.SerializeManyToSlice
  requires len(items) <= 17592186044416
  ensures @size len(result) == 4*len(items)
  ensures @bytes forall i int {items[i]}: 0 <= i < len(items) ==> le4(result, 4*i) == bits(items[i])
  loop 1 invariant 0 <= rangepos && offset == 4*rangepos && len(bytes) == 4*len(items)
  loop 1 invariant forall i1 int {items[i1]}: 0 <= i1 < rangepos ==> le4(bytes, 4*i1) == bits(items[i1])
func ItemSketchFloatSerDe.DeserializeManyFromSlice
  ensures @complete numItems > 0 ==> (result1 == nil <==> fit(offsetBytes, numItems, 4, len(mem)))
  ensures @empty numItems <= 0 ==> result1 == nil
  ensures @count result1 == nil ==> len(result0) == max(numItems, 0)
  ensures @items result1 == nil ==> forall i int {result0[i]}: 0 <= i < numItems ==> bits(result0[i]) == le4(mem, offsetBytes + 4*i)
  loop 1 invariant fresh(array)
  loop 1 invariant 0 <= i && i <= numItems && offsetBytes == old(offsetBytes) + 4*i && len(array) == i
  loop 1 invariant forall j int {array[j]}: 0 <= j < i ==> bits(array[j]) == le4(mem, old(offsetBytes) + 4*j)

// strings: 4 bytes of length, then the bytes
function soff(a arr<string>, n int) int
axiom soffZero(a arr<string>)
  ensures soff(a, 0) == 0
  why definition of the offset of an item in an image
axiom soffNext(a arr<string>, n int)
  trigger soff(a, n+1)
  ensures n >= 0 ==> soff(a, n+1) == soff(a, n) + 4 + len(a[n])
  why definition of the offset of an item in an image
lemma soffMono(a arr<string>, i int, j int)
  trigger soff(a, i), soff(a, j)
  induction j - i
  apply j > i ==> soffNext(a, j-1)
  apply soffMono(a, i, j-1)
  requires 0 <= i && i <= j
  ensures soff(a, i) + 4*(j-i) <= soff(a, j)

// where the n-th item of the image at o ends
function send(b arr<uint8>, o int, n int) int
axiom sendZero(b arr<uint8>, o int)
  ensures send(b, o, 0) == o
  why definition of the offset of an item in an image
axiom sendNext(b arr<uint8>, o int, n int)
  trigger send(b, o, n+1)
  ensures n >= 0 ==> send(b, o, n+1) == send(b, o, n) + 4 + max(0, le4(b, send(b, o, n)))
  why definition of the offset of an item in an image
lemma sendMono(b arr<uint8>, o int, i int, j int)
  trigger send(b, o, i), send(b, o, j)
  induction j - i
  apply j > i ==> sendNext(b, o, j-1)
  apply sendMono(b, o, i, j-1)
  requires 0 <= i && i <= j
  ensures send(b, o, i) + 4*(j-i) <= send(b, o, j)

func ItemSketchStringSerDe.SizeOf
  ensures result == 4 + len(item)
func ItemSketchStringSerDe.SizeOfMany
  requires offsetBytes >= 0
  use sendMono
  use sendZero
  use sendNext
  ensures @size numItems > 0 && result1 == nil ==> result0 == send(arr(mem), offsetBytes, numItems) - offsetBytes
  ensures @inside numItems > 0 && result1 == nil ==> send(arr(mem), offsetBytes, numItems) <= len(mem)
  ensures @truncated result1 != nil ==> send(arr(mem), offsetBytes, numItems) > len(mem)
  ensures @none numItems <= 0 ==> result1 == nil && result0 == 0
  loop 1 invariant 0 <= i && i <= numItems && offset == send(arr(mem), offsetBytes, i) && offset >= offsetBytes && (offset <= memCap || i == 0)
func ItemSketchStringSerDe.SerializeOneToSlice
  requires len(item) < 4294967296
  ensures @size len(item) > 0 ==> len(result) == 4 + len(item)
  ensures @len len(item) > 0 ==> le4(result, 0) == len(item)
  ensures @bytes len(item) > 0 ==> forall j int {result[4+j]}: 0 <= j < len(item) ==> result[4+j] == item[j]
func ItemSketchStringSerDe.SerializeManyToSlice
  use soffMono
  use soffZero
  use soffNext
  requires soff(arr(items), len(items)) <= 70368744177664
  requires forall i int {items[i]}: 0 <= i < len(items) ==> len(items[i]) < 4294967296
  ensures @size len(result) == soff(arr(items), len(items))
  ensures @len forall i int {items[i]}: 0 <= i < len(items) ==> le4(result, soff(arr(items), i)) == len(items[i])
  ensures @bytes forall i, j int {items[i][j]}: 0 <= i < len(items) && 0 <= j < len(items[i]) ==> result[soff(arr(items), i) + 4 + j] == items[i][j]
  loop 1 invariant totalBytes == soff(arr(items), rangepos)
  loop 2 invariant offset == soff(arr(items), rangepos) && len(bytesOut) == soff(arr(items), len(items))
  loop 2 invariant forall k int {items[k]}: 0 <= k < rangepos ==> le4(bytesOut, soff(arr(items), k)) == len(items[k]) && soff(arr(items), k+1) <= offset
  loop 2 invariant forall k, j int {items[k][j]}: 0 <= k < rangepos && 0 <= j < len(items[k]) ==> bytesOut[soff(arr(items), k) + 4 + j] == items[k][j]
func ItemSketchStringSerDe.DeserializeManyFromSlice
  use sendMono
  use sendZero
  use sendNext
  ensures @truncated numItems > 0 && result1 != nil ==> offsetBytes < 0 || send(arr(mem), offsetBytes, numItems) > len(mem)
  ensures @inside numItems > 0 && result1 == nil ==> offsetBytes >= 0 && send(arr(mem), offsetBytes, numItems) <= len(mem)
  ensures @none numItems <= 0 ==> result1 == nil
  ensures @count result1 == nil ==> len(result0) == max(numItems, 0)
  ensures @len result1 == nil ==> forall i int {result0[i]}: 0 <= i < numItems ==> len(result0[i]) == le4(mem, send(arr(mem), offsetBytes, i))
  ensures @bytes result1 == nil ==> forall i, j int {result0[i][j]}: 0 <= i < numItems && 0 <= j < len(result0[i]) ==> result0[i][j] == mem[send(arr(mem), offsetBytes, i) + 4 + j]
  loop 1 invariant 0 <= i && i <= numItems && offsetBytes >= 0 && offset == send(arr(mem), offsetBytes, i) && offset <= memCap && len(array) == numItems && fresh(array)
  loop 1 invariant forall k int {array[k]}: 0 <= k < i ==> len(array[k]) == le4(mem, send(arr(mem), offsetBytes, k))
  loop 1 invariant forall k, j int {array[k][j]}: 0 <= k < i && 0 <= j < len(array[k]) ==> array[k][j] == mem[send(arr(mem), offsetBytes, k) + 4 + j]

// the round trip, from the contracts of the two directions: the image of a, found at o of b, read as c
lemma strOffs(a arr<string>, b arr<uint8>, o int, i int)
  induction i
  apply i > 0 ==> soffNext(a, i-1)
  apply i > 0 ==> sendNext(b, o, i-1)
  apply soffZero(a)
  apply sendZero(b, o)
  apply strOffs(a, b, o, i-1)
  requires i >= 0
  requires forall k int {soff(a, k)}: 0 <= k < i ==> le4(b, o + soff(a, k)) == len(a[k])
  ensures send(b, o, i) == o + soff(a, i)
lemma strRound(a arr<string>, b arr<uint8>, o int, n int, c arr<string>, i int, j int)
  apply strOffs(a, b, o, i)
  requires 0 <= i && i < n && 0 <= j
  requires forall k int {soff(a, k)}: 0 <= k < n ==> le4(b, o + soff(a, k)) == len(a[k])
  requires forall k, l int {soff(a, k), a[k][l]}: 0 <= k < n && 0 <= l < len(a[k]) ==> b[o + soff(a, k) + 4 + l] == a[k][l]
  requires forall k int {c[k]}: 0 <= k < n ==> len(c[k]) == le4(b, send(b, o, k))
  requires forall k, l int {c[k][l]}: 0 <= k < n && 0 <= l < len(c[k]) ==> c[k][l] == b[send(b, o, k) + 4 + l]
  ensures len(c[i]) == len(a[i])
  ensures j < len(a[i]) ==> c[i][j] == a[i][j]
