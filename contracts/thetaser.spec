package theta
defaultprops P04

// rdv(b, p, n): the number in the n bits from bit p of b, most significant bit first
define be7(b, f) = (bvu(b[f], 64) << 56) | (bvu(b[f+1], 64) << 48) | (bvu(b[f+2], 64) << 40) | (bvu(b[f+3], 64) << 32) | (bvu(b[f+4], 64) << 24) | (bvu(b[f+5], 64) << 16) | (bvu(b[f+6], 64) << 8) | bvu(b[f+7], 64)
function rdv(b arr<uint8>, p int, n int) uint64
axiom rdvDef(b arr<uint8>, p int, n int)
  mode bv
  trigger rdv(b, p, n)
  ensures 1 <= n && n <= 64 && p >= 0 ==> rdv(b, p, n) == ((be7(b, p >> 3) << (p & 7)) | (bvu(b[(p >> 3) + 8], 64) >> (8 - (p & 7)))) >> (64 - n)
  why definition

// numbers of at most n bits, and the bits of a byte on either side of a position
function below(v uint64, n uint8) bool
axiom belowDef(v uint64, n uint8)
  mode bv
  trigger below(v, n)
  ensures below(v, n) <==> n >= 64 || v >> n == 0
  why definition
lemma belowLim(v uint64, n uint8)
  mode bv
  trigger below(v, n)
  requires 1 <= n && n <= 63
  use belowDef
  ensures n == 1 ==> (below(v, n) <==> v < 2)
  ensures n == 2 ==> (below(v, n) <==> v < 4)
  ensures n == 3 ==> (below(v, n) <==> v < 8)
  ensures n == 4 ==> (below(v, n) <==> v < 16)
  ensures n == 5 ==> (below(v, n) <==> v < 32)
  ensures n == 6 ==> (below(v, n) <==> v < 64)
  ensures n == 7 ==> (below(v, n) <==> v < 128)
  ensures n == 8 ==> (below(v, n) <==> v < 256)
  ensures n == 9 ==> (below(v, n) <==> v < 512)
  ensures n == 10 ==> (below(v, n) <==> v < 1024)
  ensures n == 11 ==> (below(v, n) <==> v < 2048)
  ensures n == 12 ==> (below(v, n) <==> v < 4096)
  ensures n == 13 ==> (below(v, n) <==> v < 8192)
  ensures n == 14 ==> (below(v, n) <==> v < 16384)
  ensures n == 15 ==> (below(v, n) <==> v < 32768)
  ensures n == 16 ==> (below(v, n) <==> v < 65536)
  ensures n == 17 ==> (below(v, n) <==> v < 131072)
  ensures n == 18 ==> (below(v, n) <==> v < 262144)
  ensures n == 19 ==> (below(v, n) <==> v < 524288)
  ensures n == 20 ==> (below(v, n) <==> v < 1048576)
  ensures n == 21 ==> (below(v, n) <==> v < 2097152)
  ensures n == 22 ==> (below(v, n) <==> v < 4194304)
  ensures n == 23 ==> (below(v, n) <==> v < 8388608)
  ensures n == 24 ==> (below(v, n) <==> v < 16777216)
  ensures n == 25 ==> (below(v, n) <==> v < 33554432)
  ensures n == 26 ==> (below(v, n) <==> v < 67108864)
  ensures n == 27 ==> (below(v, n) <==> v < 134217728)
  ensures n == 28 ==> (below(v, n) <==> v < 268435456)
  ensures n == 29 ==> (below(v, n) <==> v < 536870912)
  ensures n == 30 ==> (below(v, n) <==> v < 1073741824)
  ensures n == 31 ==> (below(v, n) <==> v < 2147483648)
  ensures n == 32 ==> (below(v, n) <==> v < 4294967296)
  ensures n == 33 ==> (below(v, n) <==> v < 8589934592)
  ensures n == 34 ==> (below(v, n) <==> v < 17179869184)
  ensures n == 35 ==> (below(v, n) <==> v < 34359738368)
  ensures n == 36 ==> (below(v, n) <==> v < 68719476736)
  ensures n == 37 ==> (below(v, n) <==> v < 137438953472)
  ensures n == 38 ==> (below(v, n) <==> v < 274877906944)
  ensures n == 39 ==> (below(v, n) <==> v < 549755813888)
  ensures n == 40 ==> (below(v, n) <==> v < 1099511627776)
  ensures n == 41 ==> (below(v, n) <==> v < 2199023255552)
  ensures n == 42 ==> (below(v, n) <==> v < 4398046511104)
  ensures n == 43 ==> (below(v, n) <==> v < 8796093022208)
  ensures n == 44 ==> (below(v, n) <==> v < 17592186044416)
  ensures n == 45 ==> (below(v, n) <==> v < 35184372088832)
  ensures n == 46 ==> (below(v, n) <==> v < 70368744177664)
  ensures n == 47 ==> (below(v, n) <==> v < 140737488355328)
  ensures n == 48 ==> (below(v, n) <==> v < 281474976710656)
  ensures n == 49 ==> (below(v, n) <==> v < 562949953421312)
  ensures n == 50 ==> (below(v, n) <==> v < 1125899906842624)
  ensures n == 51 ==> (below(v, n) <==> v < 2251799813685248)
  ensures n == 52 ==> (below(v, n) <==> v < 4503599627370496)
  ensures n == 53 ==> (below(v, n) <==> v < 9007199254740992)
  ensures n == 54 ==> (below(v, n) <==> v < 18014398509481984)
  ensures n == 55 ==> (below(v, n) <==> v < 36028797018963968)
  ensures n == 56 ==> (below(v, n) <==> v < 72057594037927936)
  ensures n == 57 ==> (below(v, n) <==> v < 144115188075855872)
  ensures n == 58 ==> (below(v, n) <==> v < 288230376151711744)
  ensures n == 59 ==> (below(v, n) <==> v < 576460752303423488)
  ensures n == 60 ==> (below(v, n) <==> v < 1152921504606846976)
  ensures n == 61 ==> (below(v, n) <==> v < 2305843009213693952)
  ensures n == 62 ==> (below(v, n) <==> v < 4611686018427387904)
  ensures n == 63 ==> (below(v, n) <==> v < 9223372036854775808)
function upper(x uint8, o uint8) uint8
axiom upperDef(x uint8, o uint8)
  mode bv
  trigger upper(x, o)
  ensures upper(x, o) == x >> (8 - o)
  why definition
function free(x uint8, o uint8) bool
axiom freeDef(x uint8, o uint8)
  mode bv
  trigger free(x, o)
  ensures free(x, o) <==> x << o == 0
  why definition
lemma freeZero(x uint8)
  mode bv
  trigger free(x, 0)
  use freeDef
  ensures x == 0 ==> free(x, 0)
// what a reader of n bits from bit p sees depends on the bits before P alone
lemma upperZero(x uint8)
  mode bv
  trigger upper(x, 0)
  use upperDef
  ensures upper(x, 0) == 0
lemma rdvFrame(a arr<uint8>, b arr<uint8>, p int, n int, P int, q int, o uint8)
  mode bv
  timeout 60
  requires 1 <= n && n <= 63 && 0 <= p && p <= P && p + n <= P && P < 72057594037927936 && q == P >> 3 && int(o) == P & 7
  requires forall k int {b[k]}: 0 <= k && k < q ==> a[k] == b[k]
  requires upper(a[q], o) == upper(b[q], o)
  use rdvDef
  use upperDef
  ensures rdv(a, p, n) == rdv(b, p, n)

func unpackBits
  mode bv
  use rdvDef
  requires 1 <= bits && bits <= 63 && offset < 8 && 0 <= bytesIdx && bytesIdx <= len(bytes) && 8*bytesIdx + int(offset) + int(bits) <= 8*len(bytes)
  ensures @value result0 == rdv(arr(bytes), 8*(off(bytes) + bytesIdx) + int(offset), int(bits))
  ensures @position 8*result1 + int(result2) == 8*bytesIdx + int(offset) + int(bits)
  ensures @offset result2 < 8 && result1 >= 0
  loop 1 invariant bits < old(bits) && 0 <= bytesIdx && bytesIdx <= len(bytes) && offset < 8 && 8*bytesIdx + int(offset) == 8*old(bytesIdx) + int(old(offset)) + int(old(bits)) - int(bits)
  loop 1 invariant bits > 0 ==> offset == 0
  loop 1 invariant value == rdv(arr(bytes), 8*old(bytesIdx) + int(old(offset)), int(old(bits)) - int(bits))
  loop 1 decreases bits

func packBits
  mode bv
  use rdvDef
  requires 1 <= bits && bits <= 63 && offset < 8 && 0 <= bytesIdx && bytesIdx <= len(bytes) && 8*bytesIdx + int(offset) + int(bits) <= 8*len(bytes)
  use belowDef
  use upperDef
  use freeDef
  requires below(value, bits)
  requires offset > 0 ==> free(bytes[bytesIdx], offset)
  modifies bytes[bytesIdx..bytesIdx+9]
  ensures @value rdv(arr(bytes), 8*(off(bytes) + bytesIdx) + int(offset), int(bits)) == value
  ensures @position 8*result0 + int(result1) == 8*bytesIdx + int(offset) + int(bits)
  ensures @offset result1 < 8 && result0 >= bytesIdx
  ensures @clean result1 > 0 ==> free(bytes[result0], result1)
  ensures @keep offset > 0 ==> upper(bytes[bytesIdx], offset) == old(upper(bytes[bytesIdx], offset))
  ensures @frame forall k int {arr(bytes)[k]}: k > off(bytes) + result0 || k == off(bytes) + result0 && result1 == 0 ==> arr(bytes)[k] == old(arr(bytes))[k]
  loop 1 invariant bytesIdx >= old(bytesIdx) && bytesIdx <= len(bytes) && bits <= old(bits) && 8*bytesIdx == 8*old(bytesIdx) + int(old(offset)) + int(old(bits)) - int(bits)
  loop 1 invariant bits < old(bits) ==> rdv(arr(bytes), 8*old(bytesIdx) + int(old(offset)), int(old(bits)) - int(bits)) == value >> bits
  loop 1 invariant old(offset) > 0 ==> bytes[old(bytesIdx)] >> (8 - old(offset)) == old(bytes[bytesIdx]) >> (8 - old(offset))
  loop 1 invariant forall k int {bytes[k]}: k >= bytesIdx ==> bytes[k] == old(bytes[k])
  loop 1 decreases bits

define numB4(b, o, n) = (if n >= 1 then b[o] else 0) + (if n >= 2 then 256*b[o+1] else 0) + (if n >= 3 then 65536*b[o+2] else 0) + (if n >= 4 then 16777216*b[o+3] else 0)

func validateMemorySize
  ensures result == nil <==> len(bytes) >= expectedBytes
func wholeBytesToHoldBits
  instance uint64, int, uint8
  requires bits >= 0
  ensures result == (bits + 7) / 8
func decodeVersion4
  ensures @base off(result0.bytes) == 0
  requires len(bytes) >= 8
  ensures @seed result1 == nil ==> result0.seedHash == seedHashOf(seed) && result0.seedHash == le2(bytes, 6)
  ensures @theta result1 == nil ==> result0.theta == (if bytes[0] > 1 then le8(bytes, 8) else MaxTheta)
  ensures @bits result1 == nil ==> 1 <= result0.entryBits && result0.entryBits <= 63 && result0.entryBits == bytes[3]
  ensures @count result1 == nil ==> bytes[4] <= 4 && result0.numEntries == numB4(bytes, if bytes[0] > 1 then 16 else 8, bytes[4])
  ensures @start result1 == nil ==> result0.entriesStartIdx == (if bytes[0] > 1 then 16 else 8) + bytes[4]
  ensures @fits result1 == nil ==> 8*result0.entriesStartIdx + result0.entryBits * result0.numEntries <= 8*len(bytes)
  ensures @data result1 == nil ==> ref(result0.bytes) == ref(bytes) && len(result0.bytes) == len(bytes) && !result0.isEmpty && result0.isOrdered
  ensures @data2 result1 == nil ==> off(result0.bytes) == off(bytes)
  loop 1 unroll 4
define same(d, b) = ref(d.bytes) == ref(b) && len(d.bytes) == len(b)
define plain(d) = d.entryBits == 64 && 0 <= d.entriesStartIdx && d.entriesStartIdx + 8*d.numEntries <= len(d.bytes)
func decodeVersion3
  ensures @base off(result0.bytes) == 0
  requires len(bytes) >= 8
  let ne = bytes[5] & 4 == 0
  ensures @empty !ne ==> result1 == nil && result0.isEmpty && result0.isOrdered && result0.numEntries == 0 && result0.theta == MaxTheta
  ensures @seed result1 == nil && ne ==> result0.seedHash == seedHashOf(seed)
  ensures @hash result1 == nil ==> result0.seedHash == le2(bytes, 6)
  ensures @theta result1 == nil && ne ==> !result0.isEmpty && result0.theta == (if bytes[0] > 2 then le8(bytes, 16) else MaxTheta)
  ensures @count result1 == nil && ne ==> result0.numEntries == (if bytes[0] == 1 then 1 else le4(bytes, 8))
  ensures @start result1 == nil && ne ==> result0.entriesStartIdx == (if bytes[0] == 1 then 8 else if bytes[0] > 2 then 24 else 16)
  ensures @ordered result1 == nil && ne ==> (result0.isOrdered <==> bytes[0] == 1 || bytes[5] & 16 != 0)
  ensures @plain result1 == nil ==> plain(result0) && same(result0, bytes)
  ensures @off result1 == nil ==> off(result0.bytes) == off(bytes)
  ensures @complete ne && seedHashOf(seed) != 0 && le2(bytes, 6) == seedHashOf(seed) && len(bytes) >= 16 && (bytes[0] == 1 || len(bytes) >= (if bytes[0] > 2 then 24 else 16) + 8*le4(bytes, 8)) ==> result1 == nil
func decodeVersion2
  ensures @base off(result0.bytes) == 0
  requires len(bytes) >= 8
  ensures @seed result1 == nil ==> result0.seedHash == seedHashOf(seed) && result0.seedHash == le2(bytes, 6)
  ensures @count result1 == nil ==> result0.numEntries == (if bytes[0] == 1 then 0 else le4(bytes, 8))
  ensures @theta result1 == nil ==> result0.theta == (if bytes[0] == 3 then le8(bytes, 16) else MaxTheta)
  ensures @start result1 == nil && result0.numEntries > 0 ==> result0.entriesStartIdx == (if bytes[0] == 3 then 24 else 16)
  ensures @plain result1 == nil ==> plain(result0) && same(result0, bytes) && result0.isOrdered
  ensures @off result1 == nil ==> off(result0.bytes) == off(bytes)
func decodeVersion1
  ensures @base off(result0.bytes) == 0
  requires len(bytes) >= 8
  ensures @seed result1 == nil ==> result0.seedHash == seedHashOf(seed)
  ensures @count result1 == nil ==> result0.numEntries == le4(bytes, 8)
  ensures @theta result1 == nil ==> result0.theta == le8(bytes, 16)
  ensures @start result1 == nil && result0.numEntries > 0 ==> result0.entriesStartIdx == 24
  ensures @plain result1 == nil ==> plain(result0) && same(result0, bytes) && result0.isOrdered
  ensures @off result1 == nil ==> off(result0.bytes) == off(bytes)

// what the four readers agree on
define dataOK(d) = 1 <= d.entryBits && d.entryBits <= 64 && 0 <= d.entriesStartIdx && d.entriesStartIdx <= len(d.bytes) && (d.entryBits == 64 ==> d.entriesStartIdx + 8*d.numEntries <= len(d.bytes)) && 8*d.entriesStartIdx + d.entryBits * d.numEntries <= 8*len(d.bytes)
func decodeCompactSketch
  ensures @base off(result0.bytes) == 0
  ensures @short len(bytes) < 8 ==> result1 != nil
  ensures @ok result1 == nil ==> dataOK(result0) && same(result0, bytes)
  ensures @off result1 == nil ==> off(result0.bytes) == off(bytes)
  ensures @family result1 == nil ==> bytes[2] == 3
  ensures @version result1 == nil ==> 1 <= bytes[1] && bytes[1] <= 4
  ensures @seed result1 == nil && !result0.isEmpty ==> result0.seedHash == seedHashOf(seed)
  ensures @seed2 result1 == nil && bytes[1] >= 2 ==> result0.seedHash == le2(bytes, 6)
  ensures @v4 result1 == nil && bytes[1] == 4 ==> result0.entryBits == bytes[3] && result0.entryBits <= 63 && result0.isOrdered && !result0.isEmpty && result0.theta == (if bytes[0] > 1 then le8(bytes, 8) else MaxTheta) && result0.entriesStartIdx == (if bytes[0] > 1 then 16 else 8) + bytes[4] && result0.numEntries == numB4(bytes, if bytes[0] > 1 then 16 else 8, bytes[4])
  ensures @v3 result1 == nil && bytes[1] == 3 && bytes[5] & 4 == 0 ==> result0.entryBits == 64 && !result0.isEmpty && result0.theta == (if bytes[0] > 2 then le8(bytes, 16) else MaxTheta) && result0.numEntries == (if bytes[0] == 1 then 1 else le4(bytes, 8)) && result0.entriesStartIdx == (if bytes[0] == 1 then 8 else if bytes[0] > 2 then 24 else 16)
  ensures @v3o result1 == nil && bytes[1] == 3 && bytes[5] & 4 == 0 ==> (result0.isOrdered <==> bytes[0] == 1 || bytes[5] & 16 != 0)
  ensures @v3e result1 == nil && bytes[1] == 3 && bytes[5] & 4 != 0 ==> result0.isEmpty && result0.numEntries == 0 && result0.theta == MaxTheta

func CheckSeedHashEqual
  ensures result == nil <==> actual == expected
func unpackBitsBlock8
  requires len(values) >= 8 && (1 <= bits && bits <= 63 ==> len(bytes) >= bits)
  modifies values[0..8]
  ensures @err result == nil <==> 1 <= bits && bits <= 63
  ensures @v0 result == nil ==> values[0] == rdv(arr(bytes), 8*off(bytes) + 0*bits, bits)
  ensures @v1 result == nil ==> values[1] == rdv(arr(bytes), 8*off(bytes) + 1*bits, bits)
  ensures @v2 result == nil ==> values[2] == rdv(arr(bytes), 8*off(bytes) + 2*bits, bits)
  ensures @v3 result == nil ==> values[3] == rdv(arr(bytes), 8*off(bytes) + 3*bits, bits)
  ensures @v4 result == nil ==> values[4] == rdv(arr(bytes), 8*off(bytes) + 4*bits, bits)
  ensures @v5 result == nil ==> values[5] == rdv(arr(bytes), 8*off(bytes) + 5*bits, bits)
  ensures @v6 result == nil ==> values[6] == rdv(arr(bytes), 8*off(bytes) + 6*bits, bits)
  ensures @v7 result == nil ==> values[7] == rdv(arr(bytes), 8*off(bytes) + 7*bits, bits)
func packBitsBlock8
  use belowLim
  requires len(values) >= 8 && (1 <= bits && bits <= 63 ==> len(bytes) >= bits)
  requires 1 <= bits && bits <= 63 ==> below(values[0], bits)
  requires 1 <= bits && bits <= 63 ==> below(values[1], bits)
  requires 1 <= bits && bits <= 63 ==> below(values[2], bits)
  requires 1 <= bits && bits <= 63 ==> below(values[3], bits)
  requires 1 <= bits && bits <= 63 ==> below(values[4], bits)
  requires 1 <= bits && bits <= 63 ==> below(values[5], bits)
  requires 1 <= bits && bits <= 63 ==> below(values[6], bits)
  requires 1 <= bits && bits <= 63 ==> below(values[7], bits)
  modifies bytes[0..bits]
  ensures @err result == nil <==> 1 <= bits && bits <= 63
  ensures @v0 result == nil ==> rdv(arr(bytes), 8*off(bytes) + 0*bits, bits) == values[0]
  ensures @v1 result == nil ==> rdv(arr(bytes), 8*off(bytes) + 1*bits, bits) == values[1]
  ensures @v2 result == nil ==> rdv(arr(bytes), 8*off(bytes) + 2*bits, bits) == values[2]
  ensures @v3 result == nil ==> rdv(arr(bytes), 8*off(bytes) + 3*bits, bits) == values[3]
  ensures @v4 result == nil ==> rdv(arr(bytes), 8*off(bytes) + 4*bits, bits) == values[4]
  ensures @v5 result == nil ==> rdv(arr(bytes), 8*off(bytes) + 5*bits, bits) == values[5]
  ensures @v6 result == nil ==> rdv(arr(bytes), 8*off(bytes) + 6*bits, bits) == values[6]
  ensures @v7 result == nil ==> rdv(arr(bytes), 8*off(bytes) + 7*bits, bits) == values[7]
// entry i of a run of n-bit numbers from bit base
function ent(b arr<uint8>, base int, n int, i int) uint64
axiom entDef(b arr<uint8>, base int, n int, i int)
  trigger ent(b, base, n, i)
  ensures ent(b, base, n, i) == rdv(b, base + i * n, n)
  why definition
// the difference between neighbours, as 64-bit numbers
function deltaOf(a arr<uint64>, o int, i int) uint64
axiom deltaDef(a arr<uint64>, o int, i int)
  mode bv
  trigger deltaOf(a, o, i)
  ensures deltaOf(a, o, i) == a[o+i] - (if i == 0 then 0 else a[o+i-1])
  why definition
lemma deltaInt(a arr<uint64>, o int, i int)
  mode bv
  trigger deltaOf(a, o, i)
  use deltaDef
  ensures i == 0 ==> deltaOf(a, o, i) == a[o+i]
  ensures i != 0 && a[o+i] >= a[o+i-1] ==> deltaOf(a, o, i) == a[o+i] - a[o+i-1]
  ensures i != 0 && a[o+i] < a[o+i-1] ==> deltaOf(a, o, i) == 18446744073709551615 - (a[o+i-1] - a[o+i]) + 1
define wrap(x) = if x > 18446744073709551615 then x - 18446744073709551616 else x
define start4(b) = (if b[0] > 1 then 16 else 8) + b[4]
define start3(b) = if b[0] == 1 then 8 else if b[0] > 2 then 24 else 16
define ent4(b, i) = ent(arr(b), 8*(off(b) + start4(b)), b[3], i)
lemma mulLe(a int, b int, n int)
  requires a <= b && n >= 0
  ensures a * n <= b * n

func Decode
  requires len(bytes) <= 536870911
  use entDef
  ensures @ok result1 == nil ==> result0 != nil && fresh(result0) && fresh(result0.entries)
  ensures @family result1 == nil ==> len(bytes) >= 8 && bytes[2] == 3 && 1 <= bytes[1] && bytes[1] <= 4
  ensures @seed result1 == nil && !result0.isEmpty ==> result0.seedHash == seedHashOf(seed)
  ensures @seed2 result1 == nil && bytes[1] >= 2 ==> result0.seedHash == le2(bytes, 6)
  ensures @v4 result1 == nil && bytes[1] == 4 ==> result0.isOrdered && !result0.isEmpty && result0.theta == (if bytes[0] > 1 then le8(bytes, 8) else MaxTheta)
  ensures @v4n result1 == nil && bytes[1] == 4 ==> len(result0.entries) == numB4(bytes, if bytes[0] > 1 then 16 else 8, bytes[4]) && 1 <= bytes[3] && bytes[3] <= 63
  ensures @v4e result1 == nil && bytes[1] == 4 ==> forall i int {result0.entries[i]}: 0 <= i && i < len(result0.entries) ==> result0.entries[i] == wrap((if i == 0 then 0 else result0.entries[i-1]) + ent4(bytes, i))
  ensures @v3 result1 == nil && bytes[1] == 3 && bytes[5] & 4 == 0 ==> !result0.isEmpty && result0.theta == (if bytes[0] > 2 then le8(bytes, 16) else MaxTheta) && len(result0.entries) == (if bytes[0] == 1 then 1 else le4(bytes, 8))
  ensures @v3o result1 == nil && bytes[1] == 3 && bytes[5] & 4 == 0 ==> (result0.isOrdered <==> bytes[0] == 1 || bytes[5] & 16 != 0 || le4(bytes, 8) <= 1)
  ensures @v3e result1 == nil && bytes[1] == 3 && bytes[5] & 4 == 0 ==> forall i int {result0.entries[i]}: 0 <= i && i < len(result0.entries) ==> result0.entries[i] == le8(bytes, start3(bytes) + 8*i)
  ensures @v3x result1 == nil && bytes[1] == 3 && bytes[5] & 4 != 0 ==> result0.isEmpty && len(result0.entries) == 0 && result0.theta == MaxTheta
  loop 1 invariant 0 <= i && i <= data.numEntries && fresh(entries) && off(entries) == 0 && len(entries) == data.numEntries
  loop 1 invariant forall k int {entries[k]}: 0 <= k && k < i ==> entries[k] == le8(bytes, data.entriesStartIdx + 8*k)
  loop 2 invariant 0 <= i && i <= data.numEntries && fresh(entries) && off(entries) == 0 && len(entries) == data.numEntries
  loop 2 invariant ref(ptr) == ref(bytes) && 0 <= off(ptr) && off(ptr) + len(ptr) == len(bytes)
  loop 2 invariant 8*off(ptr) == 8*data.entriesStartIdx + i * data.entryBits
  loop 2 invariant forall k int {entries[k]}: 0 <= k && k < i ==> entries[k] == ent(arr(bytes), 8*data.entriesStartIdx, data.entryBits, k)
  loop 2 apply mulLe(i+8, data.numEntries, data.entryBits)
  loop 2 decreases data.numEntries - i
  loop 3 invariant 0 <= i && i <= data.numEntries && fresh(entries) && off(entries) == 0 && len(entries) == data.numEntries
  loop 3 invariant 0 <= ptrIdx && 0 <= bitOffset && bitOffset < 8 && 8*off(ptr) + 8*ptrIdx + bitOffset == 8*data.entriesStartIdx + i * data.entryBits
  loop 3 invariant forall k int {entries[k]}: 0 <= k && k < i ==> entries[k] == ent(arr(bytes), 8*data.entriesStartIdx, data.entryBits, k)
  loop 3 apply mulLe(i+1, data.numEntries, data.entryBits)
  loop 3 decreases data.numEntries - i
  loop 4 invariant 0 <= i && i <= data.numEntries && fresh(entries) && off(entries) == 0 && len(entries) == data.numEntries
  loop 4 invariant previous == (if i == 0 then 0 else entries[i-1])
  loop 4 invariant forall k int {entries[k]}: i <= k && k < data.numEntries ==> entries[k] == ent(arr(bytes), 8*data.entriesStartIdx, data.entryBits, k)
  loop 4 invariant forall k int {entries[k]}: 0 <= k && k < i ==> entries[k] == wrap((if k == 0 then 0 else entries[k-1]) + ent(arr(bytes), 8*data.entriesStartIdx, data.entryBits, k))
define wOK(s) = s != nil && s.data != nil && dataOK(s.data) && off(s.data.bytes) == 0 && len(s.data.bytes) <= 536870911
define wEnt(s, i) = ent(arr(s.data.bytes), 8*s.data.entriesStartIdx, s.data.entryBits, i)
func WrapCompactSketch
  requires len(bytes) <= 536870911
  ensures @ok result1 == nil ==> fresh(result0) && fresh(result0.data) && wOK(result0)
  ensures @same result1 == nil ==> ref(result0.data.bytes) == ref(bytes) && len(result0.data.bytes) == len(bytes)
  ensures @family result1 == nil ==> len(bytes) >= 8 && bytes[2] == 3 && 1 <= bytes[1] && bytes[1] <= 4
  ensures @seed result1 == nil && !result0.data.isEmpty ==> result0.data.seedHash == seedHashOf(seed)
  ensures @v4 result1 == nil && bytes[1] == 4 ==> result0.data.entryBits == bytes[3] && result0.data.entryBits <= 63 && result0.data.isOrdered && !result0.data.isEmpty && result0.data.theta == (if bytes[0] > 1 then le8(bytes, 8) else MaxTheta) && result0.data.entriesStartIdx == start4(bytes) && result0.data.numEntries == numB4(bytes, if bytes[0] > 1 then 16 else 8, bytes[4])
  ensures @v3 result1 == nil && bytes[1] == 3 && bytes[5] & 4 == 0 ==> result0.data.entryBits == 64 && !result0.data.isEmpty && result0.data.theta == (if bytes[0] > 2 then le8(bytes, 16) else MaxTheta) && result0.data.numEntries == (if bytes[0] == 1 then 1 else le4(bytes, 8)) && result0.data.entriesStartIdx == start3(bytes) && (result0.data.isOrdered <==> bytes[0] == 1 || bytes[5] & 16 != 0)
  ensures @v3x result1 == nil && bytes[1] == 3 && bytes[5] & 4 != 0 ==> result0.data.isEmpty && result0.data.numEntries == 0 && result0.data.theta == MaxTheta
func (*WrappedCompactSketch).IsEmpty
  requires wOK(s)
  ensures result == s.data.isEmpty
func (*WrappedCompactSketch).IsOrdered
  requires wOK(s)
  ensures result == s.data.isOrdered
func (*WrappedCompactSketch).Theta64
  requires wOK(s)
  ensures result == s.data.theta
func (*WrappedCompactSketch).NumRetained
  requires wOK(s)
  ensures result == s.data.numEntries
func (*WrappedCompactSketch).SeedHash
  requires wOK(s)
  ensures result0 == s.data.seedHash && result1 == nil
func (*WrappedCompactSketch).All
  requires wOK(s)
  use entDef
  ensures @size seqlen(result) == s.data.numEntries
  ensures @plain s.data.entryBits == 64 ==> forall i int {seqarr(result)[i]}: 0 <= i && i < s.data.numEntries ==> seqarr(result)[i] == le8(s.data.bytes, s.data.entriesStartIdx + 8*i)
  ensures @packed s.data.entryBits < 64 ==> forall i int {seqarr(result)[i]}: 0 <= i && i < s.data.numEntries ==> seqarr(result)[i] == wrap((if i == 0 then 0 else seqarr(result)[i-1]) + wEnt(s, i))
  loop 1 invariant 0 <= i && i <= s.data.numEntries && yieldcnt == i && !yieldstop
  loop 1 invariant forall k int {yieldarr[k]}: 0 <= k && k < i ==> yieldarr[k] == le8(s.data.bytes, s.data.entriesStartIdx + 8*k)
  loop 2 invariant 0 <= index && index <= s.data.numEntries && yieldcnt == index && !yieldstop && 8*bytesIdx == index * s.data.entryBits
  loop 2 invariant previous == (if index == 0 then 0 else yieldarr[index-1])
  loop 2 invariant forall k int {yieldarr[k]}: 0 <= k && k < index ==> yieldarr[k] == wrap((if k == 0 then 0 else yieldarr[k-1]) + wEnt(s, k))
  loop 2 apply mulLe(index+8, s.data.numEntries, s.data.entryBits)
  loop 2 decreases s.data.numEntries - index
  loop 4 invariant 0 <= index && index <= s.data.numEntries && yieldcnt == index && !yieldstop && offset < 8 && 8*bytesIdx + offset == index * s.data.entryBits && bytesIdx >= 0
  loop 4 invariant previous == (if index == 0 then 0 else yieldarr[index-1])
  loop 4 invariant forall k int {yieldarr[k]}: 0 <= k && k < index ==> yieldarr[k] == wrap((if k == 0 then 0 else yieldarr[k-1]) + wEnt(s, k))
  loop 4 apply mulLe(index+1, s.data.numEntries, s.data.entryBits)
  loop 4 decreases s.data.numEntries - index
  loop 3 invariant 0 <= i && i <= 8 && index + 8 <= s.data.numEntries && yieldcnt == index + i && !yieldstop
  loop 3 invariant previous == (if index + i == 0 then 0 else yieldarr[index+i-1])
  loop 3 invariant forall k int {buffer[k]}: i <= k && k < 8 ==> buffer[k] == wEnt(s, index + k)
  loop 3 invariant forall k int {yieldarr[k]}: 0 <= k && k < index + i ==> yieldarr[k] == wrap((if k == 0 then 0 else yieldarr[k-1]) + wEnt(s, k))
define csDelta(s, i) = deltaOf(arr(s.entries), 0, i)
define estMode(s) = s.theta < MaxTheta && !s.isEmpty
define csOK(s) = s != nil && off(s.entries) == 0 && len(s.entries) <= 134217727
func (*CompactSketch).isSuitableForCompression
  requires csOK(s)
  ensures result <==> s.isOrdered && len(s.entries) > 0 && (len(s.entries) > 1 || estMode(s))
func (*CompactSketch).preambleLongs
  requires csOK(s)
  ensures compressed ==> result == (if estMode(s) then 2 else 1)
  ensures !compressed ==> result == (if estMode(s) then 3 else if s.isEmpty || len(s.entries) == 1 then 1 else 2)
lemma sub(x uint64, y uint64, n uint8)
  mode bv
  use belowDef
  requires x | y == y && below(y, n)
  ensures below(x, n)
func (*CompactSketch).computeEntryBits
  mode bv
  requires csOK(s)
  use belowDef
  use deltaDef
  use sub
  ensures @enough forall i int {csDelta(s, i)}: 0 <= i && i < len(s.entries) ==> below(csDelta(s, i), result)
  ensures @range result <= 64
  ensures @some len(s.entries) > 0 && s.entries[0] != 0 ==> result >= 1
  ensures @sorted (forall i int {s.entries[i]}: 0 <= i && i < len(s.entries) ==> s.entries[i] < 9223372036854775808 && (i > 0 ==> s.entries[i-1] <= s.entries[i])) ==> result <= 63
  loop 1 invariant 0 <= rangepos && rangepos <= len(s.entries) && previous == (if rangepos == 0 then 0 else s.entries[rangepos-1])
  loop 1 invariant forall i int {csDelta(s, i)}: 0 <= i && i < rangepos ==> csDelta(s, i) | ored == ored
  loop 1 invariant rangepos > 0 && s.entries[0] != 0 ==> ored != 0
  loop 1 invariant (forall i int {s.entries[i]}: 0 <= i && i < len(s.entries) ==> s.entries[i] < 9223372036854775808 && (i > 0 ==> s.entries[i-1] <= s.entries[i])) ==> ored < 9223372036854775808
func (*CompactSketch).numEntriesBytes
  mode bv
  requires csOK(s)
  ensures 1 <= result && result <= 4
  ensures @enough (result >= 2 || len(s.entries) < 256) && (result >= 3 || len(s.entries) < 65536) && (result >= 4 || len(s.entries) < 16777216)
func (*CompactSketch).compressedSerializedSizeBytes
  requires csOK(s) && entryBits <= 64
  ensures result == (if estMode(s) then 16 else 8) + numEntriesBytes + (entryBits * len(s.entries) + 7) / 8
func (*CompactSketch).IsEstimationMode
  requires csOK(s)
  ensures result <==> estMode(s)
func (*CompactSketch).IsEmpty
  ensures result == s.isEmpty
func (*CompactSketch).IsOrdered
  ensures result == s.isOrdered
func (*CompactSketch).SeedHash
  ensures result0 == s.seedHash && result1 == nil
func (*CompactSketch).Theta64
  ensures result == s.theta
define hdr4(s) = if estMode(s) then 16 else 8
define sent(s, b, at, w, i) = ent(arr(b), 8*(off(b) + at), w, i)
lemma entAt(b arr<uint8>, base int, n int, i int, t int)
  use entDef
  ensures ent(b, base, n, i + t) == rdv(b, base + i*n + t*n, n)
lemma sum4(n uint64, k int)
  requires 1 <= k && k <= 4 && 0 <= n && n < 4294967296 && (k >= 2 || n < 256) && (k >= 3 || n < 65536) && (k >= 4 || n < 16777216)
  ensures n % 256 + (if k >= 2 then 256 * ((n / 256) % 256) else 0) + (if k >= 3 then 65536 * ((n / 65536) % 256) else 0) + (if k >= 4 then 16777216 * ((n / 16777216) % 256) else 0) == n
function frm(a arr<uint8>, b arr<uint8>, base int, n int, i int, q int, o uint8) bool
axiom frmDef(a arr<uint8>, b arr<uint8>, base int, n int, i int, q int, o uint8)
  trigger frm(a, b, base, n, i, q, o)
  ensures frm(a, b, base, n, i, q, o)
  why a name for the arguments, always true
lemma entFrame1(a arr<uint8>, b arr<uint8>, base int, n int, i int, q int, o uint8, j int)
  trigger ent(b, base, n, j), frm(a, b, base, n, i, q, o)
  use entDef
  apply mulLe(j+1, i, n)
  apply mulLe(0, j, n)
  apply rdvFrame(a, b, base + j*n, n, 8*q + o, q, o)
  requires 1 <= n && n <= 63 && 0 <= j && j < i && 0 <= base && base <= 1000000000000000 && i <= 4294967295 && base + i*n <= 8*q + o && 0 <= o && o < 8 && 0 <= q && q <= 1000000000000000
  requires forall k int {b[k]}: 0 <= k && k < q ==> a[k] == b[k]
  requires upper(a[q], o) == upper(b[q], o)
  ensures ent(b, base, n, j) == ent(a, base, n, j)
lemma entFrame(a arr<uint8>, b arr<uint8>, base int, n int, i int, q int, o uint8)
  use entFrame1
  requires frm(a, b, base, n, i, q, o)
  requires 1 <= n && n <= 63 && 0 <= i && i <= 4294967295 && 0 <= base && base <= 1000000000000000 && base + i*n <= 8*q + o && 0 <= o && o < 8 && 0 <= q && q <= 1000000000000000
  requires forall k int {b[k]}: 0 <= k && k < q ==> a[k] == b[k]
  requires upper(a[q], o) == upper(b[q], o)
  ensures forall j int {ent(b, base, n, j)}: 0 <= j && j < i ==> ent(b, base, n, j) == ent(a, base, n, j)
func (*Encoder).encodeVersion4
  use frmDef
  use upperZero
  requires csOK(sketch) && enc != nil && offset == 0
  requires 1 <= entryBits && entryBits <= 63 && 1 <= numEntriesBytes && numEntriesBytes <= 4
  requires (numEntriesBytes >= 2 || len(sketch.entries) < 256) && (numEntriesBytes >= 3 || len(sketch.entries) < 65536) && (numEntriesBytes >= 4 || len(sketch.entries) < 16777216)
  requires forall i int {csDelta(sketch, i)}: 0 <= i && i < len(sketch.entries) ==> below(csDelta(sketch, i), entryBits)
  requires len(bytes) == hdr4(sketch) + numEntriesBytes + (entryBits * len(sketch.entries) + 7) / 8
  requires forall i int {bytes[i]}: 0 <= i && i < len(bytes) ==> bytes[i] == 0
  requires ref(bytes) != ref(sketch.entries)
  modifies bytes[*]
  use entDef
  use deltaInt
  use freeZero
  ensures @ok result == nil
  ensures @header bytes[0] == preambleLongs && bytes[1] == 4 && bytes[2] == 3 && bytes[3] == entryBits && bytes[4] == numEntriesBytes && bytes[5] & 4 == 0 && bytes[5] & 16 != 0
  ensures @seed le2(bytes, 6) == sketch.seedHash
  ensures @theta estMode(sketch) ==> le8(bytes, 8) == sketch.theta
  apply sum4(len(sketch.entries), numEntriesBytes)
  ensures @count numB4(bytes, hdr4(sketch), numEntriesBytes) == len(sketch.entries)
  ensures @entries forall i int {ent(arr(bytes), 8*(hdr4(sketch) + numEntriesBytes), entryBits, i)}: 0 <= i && i < len(sketch.entries) ==> ent(arr(bytes), 8*(hdr4(sketch) + numEntriesBytes), entryBits, i) == csDelta(sketch, i)
  let dstart = hdr4(sketch) + numEntriesBytes
  loop 1 unroll 4
  loop 2 invariant 0 <= i && i <= len(sketch.entries) && dstart <= offset && 8*offset == 8*dstart + i * entryBits && previous == (if i == 0 then 0 else sketch.entries[i-1])
  loop 2 invariant fresh(deltas) && off(deltas) == 0 && len(deltas) == 8
  loop 2 invariant forall k int {bytes[k]}: 0 <= k && k < dstart ==> bytes[k] == entry(bytes[k])
  loop 2 invariant forall k int {bytes[k]}: offset <= k && k < len(bytes) ==> bytes[k] == 0
  loop 2 invariant forall k int {ent(arr(bytes), 8*dstart, entryBits, k)}: 0 <= k && k < i - 8 ==> ent(arr(bytes), 8*dstart, entryBits, k) == csDelta(sketch, k)
  loop 2 invariant i > 7 ==> ent(arr(bytes), 8*dstart, entryBits, i-8+0) == csDelta(sketch, i-8+0)
  loop 2 invariant i > 7 ==> ent(arr(bytes), 8*dstart, entryBits, i-8+1) == csDelta(sketch, i-8+1)
  loop 2 invariant i > 7 ==> ent(arr(bytes), 8*dstart, entryBits, i-8+2) == csDelta(sketch, i-8+2)
  loop 2 invariant i > 7 ==> ent(arr(bytes), 8*dstart, entryBits, i-8+3) == csDelta(sketch, i-8+3)
  loop 2 invariant i > 7 ==> ent(arr(bytes), 8*dstart, entryBits, i-8+4) == csDelta(sketch, i-8+4)
  loop 2 invariant i > 7 ==> ent(arr(bytes), 8*dstart, entryBits, i-8+5) == csDelta(sketch, i-8+5)
  loop 2 invariant i > 7 ==> ent(arr(bytes), 8*dstart, entryBits, i-8+6) == csDelta(sketch, i-8+6)
  loop 2 invariant i > 7 ==> ent(arr(bytes), 8*dstart, entryBits, i-8+7) == csDelta(sketch, i-8+7)
  loop 2 invariant forall k int {ent(arr(bytes), 8*dstart, entryBits, k)}: 0 <= k && k < i ==> ent(arr(bytes), 8*dstart, entryBits, k) == csDelta(sketch, k)
  loop 2 apply mulLe(i+8, len(sketch.entries), entryBits)
  loop 2 apply entAt(arr(bytes), 8*dstart, entryBits, headv(2, i), 0)
  loop 2 apply entAt(arr(bytes), 8*dstart, entryBits, headv(2, i), 1)
  loop 2 apply entAt(arr(bytes), 8*dstart, entryBits, headv(2, i), 2)
  loop 2 apply entAt(arr(bytes), 8*dstart, entryBits, headv(2, i), 3)
  loop 2 apply entAt(arr(bytes), 8*dstart, entryBits, headv(2, i), 4)
  loop 2 apply entAt(arr(bytes), 8*dstart, entryBits, headv(2, i), 5)
  loop 2 apply entAt(arr(bytes), 8*dstart, entryBits, headv(2, i), 6)
  loop 2 apply entAt(arr(bytes), 8*dstart, entryBits, headv(2, i), 7)
  loop 2 apply entFrame(head(2, arr(bytes)), arr(bytes), 8*dstart, entryBits, headv(2, i), headv(2, offset), 0)
  loop 2 decreases len(sketch.entries) - i
  loop 3 invariant 0 <= j && j <= 8 && previous == (if i + j == 0 then 0 else sketch.entries[i+j-1])
  loop 3 invariant forall k int {deltas[k]}: 0 <= k && k < j ==> deltas[k] == csDelta(sketch, i + k)
  loop 4 invariant 0 <= i && i <= len(sketch.entries) && 0 <= bytesIdx && bitOffset < 8 && 8*offset + 8*bytesIdx + bitOffset == 8*dstart + i * entryBits && previous == (if i == 0 then 0 else sketch.entries[i-1])
  loop 4 invariant forall k int {bytes[k]}: 0 <= k && k < dstart ==> bytes[k] == entry(bytes[k])
  loop 4 invariant forall k int {bytes[k]}: offset + bytesIdx < k && k < len(bytes) ==> bytes[k] == 0
  loop 4 invariant bitOffset == 0 && offset + bytesIdx < len(bytes) ==> bytes[offset + bytesIdx] == 0
  loop 4 invariant bitOffset > 0 ==> free(bytes[offset + bytesIdx], bitOffset)
  loop 4 invariant forall k int {ent(arr(bytes), 8*dstart, entryBits, k)}: 0 <= k && k < i - 1 ==> ent(arr(bytes), 8*dstart, entryBits, k) == csDelta(sketch, k)
  loop 4 invariant i > 0 ==> ent(arr(bytes), 8*dstart, entryBits, i-1) == csDelta(sketch, i-1)
  loop 4 invariant forall k int {ent(arr(bytes), 8*dstart, entryBits, k)}: 0 <= k && k < i ==> ent(arr(bytes), 8*dstart, entryBits, k) == csDelta(sketch, k)
  loop 4 apply mulLe(i+1, len(sketch.entries), entryBits)
  loop 4 apply deltaInt(arr(sketch.entries), 0, i)
  loop 4 apply entAt(arr(bytes), 8*dstart, entryBits, headv(4, i), 0)
  loop 4 apply entFrame(head(4, arr(bytes)), arr(bytes), 8*dstart, entryBits, headv(4, i), offset + headv(4, bytesIdx), headv(4, bitOffset))
  loop 4 decreases len(sketch.entries) - i
define pl3(s) = if estMode(s) then 3 else if s.isEmpty || len(s.entries) == 1 then 1 else 2
func (*CompactSketch).SerializedSizeBytes
  requires csOK(s)
  ensures !compressed ==> result == 8*pl3(s) + 8*len(s.entries)
func (*Encoder).encodeSketch
  requires csOK(sketch) && enc != nil && offset == 0 && preambleLongs == pl3(sketch) && len(bytes) == 8*pl3(sketch) + 8*len(sketch.entries) && (sketch.isEmpty ==> len(sketch.entries) == 0)
  requires forall i int {bytes[i]}: 0 <= i && i < len(bytes) ==> bytes[i] == 0
  requires ref(bytes) != ref(sketch.entries)
  modifies bytes[*]
  ensures @header bytes[0] == pl3(sketch) && bytes[1] == 3 && bytes[2] == 3
  ensures @flags (bytes[5] & 4 != 0 <==> sketch.isEmpty) && (bytes[5] & 16 != 0 <==> sketch.isOrdered)
  ensures @seed le2(bytes, 6) == sketch.seedHash
  ensures @count pl3(sketch) > 1 ==> le4(bytes, 8) == len(sketch.entries)
  ensures @theta estMode(sketch) ==> le8(bytes, 16) == sketch.theta
  ensures @entries forall i int {sketch.entries[i]}: 0 <= i && i < len(sketch.entries) ==> le8(bytes, 8*pl3(sketch) + 8*i) == sketch.entries[i]
  loop 1 invariant 0 <= rangepos && rangepos <= len(sketch.entries) && offset == 8*pl3(sketch) + 8*rangepos
  loop 1 invariant forall k int {bytes[k]}: 0 <= k && k < 8*pl3(sketch) ==> bytes[k] == entry(bytes[k])
  loop 1 invariant forall i int {sketch.entries[i]}: 0 <= i && i < rangepos ==> le8(bytes, 8*pl3(sketch) + 8*i) == sketch.entries[i]
// hashes rebuilt from their differences are the hashes
lemma prefixSums(a arr<uint64>, d arr<uint64>, n int, i int)
  induction i
  use deltaInt
  requires 0 <= i && i < n && n <= 4294967296
  requires forall k int {a[k]}: 0 <= k && k < n ==> 0 <= a[k] && a[k] <= 18446744073709551615
  requires forall k int {d[k]}: 0 <= k && k < n ==> d[k] == wrap((if k == 0 then 0 else d[k-1]) + deltaOf(a, 0, k))
  apply deltaInt(a, 0, i)
  apply prefixSums(a, d, n, i-1)
  ensures d[i] == a[i]
define csWF(s) = csOK(s) && (s.isEmpty ==> len(s.entries) == 0) && forall i int {s.entries[i]}: 0 <= i && i < len(s.entries) ==> 0 < s.entries[i] && s.entries[i] < 9223372036854775808 && (s.isOrdered && i > 0 ==> s.entries[i-1] <= s.entries[i])
func (*Encoder).Encode
  requires enc != nil && enc.w != nil && csWF(sketch)
func (*Encoder).encodeWithCompression
  requires enc != nil && enc.w != nil && csWF(sketch)
func (*Encoder).encodeWithoutCompression
  requires enc != nil && enc.w != nil && csWF(sketch)
package io
func Writer.Write
  trusted a writer does not change the sketch
func ReadAll
  trusted reads what the reader gives
  ensures fresh(result0) && off(result0) == 0
