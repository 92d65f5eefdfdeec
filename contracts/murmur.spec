package internal
defaultprops P15 P02

// MurmurHash3_x64_128 as published (Austin Appleby), over little-endian 64-bit blocks
define rotl(x, n) = (x << n) | (x >> (64 - n))
define mk1(k) = rotl(k * 0x87c37b91114253d5, 31) * 0x4cf5ad432745937f
define mk2(k) = rotl(k * 0x4cf5ad432745937f, 33) * 0x87c37b91114253d5
define blk1_(h1, h2, k1) = (rotl(h1 ^ mk1(k1), 27) + h2) * 5 + 0x52dce729
define blk2_(n1, h2, k2) = (rotl(h2 ^ mk2(k2), 31) + n1) * 5 + 0x38495ab5
define xs(h) = h ^ (h >> 33)
define fm(h) = xs(xs(xs(h) * 0xff51afd7ed558ccd) * 0xc4ceb9fe1a85ec53)
define fa(h1, h2, k1, k2, n) = (h1 ^ mk1(k1) ^ n) + (h2 ^ mk2(k2) ^ n)
define fb(h1, h2, k1, k2, n) = (h2 ^ mk2(k2) ^ n) + fa(h1, h2, k1, k2, n)
define fin1_(h1, h2, k1, k2, n) = fm(fa(h1, h2, k1, k2, n)) + fm(fb(h1, h2, k1, k2, n))
define fin2_(h1, h2, k1, k2, n) = fm(fb(h1, h2, k1, k2, n)) + fin1_(h1, h2, k1, k2, n)
// the little-endian number in the r bytes of a from i
define lb(a, i, r, j) = if r > j then bvu(a[i+j], 64) << (8 * j) else bvu(0, 64)
define le_(a, i, r) = lb(a, i, r, 0) | lb(a, i, r, 1) | lb(a, i, r, 2) | lb(a, i, r, 3) | lb(a, i, r, 4) | lb(a, i, r, 5) | lb(a, i, r, 6) | lb(a, i, r, 7)

// the same, opaque where only equality matters
function le(a arr<uint8>, i int, r int) uint64
axiom leDef(a arr<uint8>, i int, r int)
  trigger le(a, i, r)
  ensures le(a, i, r) == le_(a, i, r)
  why definition
function blk1(h1 uint64, h2 uint64, k uint64) uint64
axiom blk1Def(h1 uint64, h2 uint64, k uint64)
  trigger blk1(h1, h2, k)
  ensures blk1(h1, h2, k) == blk1_(h1, h2, k)
  why definition
function blk2(h1 uint64, h2 uint64, k uint64) uint64
axiom blk2Def(h1 uint64, h2 uint64, k uint64)
  trigger blk2(h1, h2, k)
  ensures blk2(h1, h2, k) == blk2_(h1, h2, k)
  why definition
function fin1(h1 uint64, h2 uint64, k1 uint64, k2 uint64, n uint64) uint64
axiom fin1Def(h1 uint64, h2 uint64, k1 uint64, k2 uint64, n uint64)
  trigger fin1(h1, h2, k1, k2, n)
  ensures fin1(h1, h2, k1, k2, n) == fin1_(h1, h2, k1, k2, n)
  why definition
function fin2(h1 uint64, h2 uint64, k1 uint64, k2 uint64, n uint64) uint64
axiom fin2Def(h1 uint64, h2 uint64, k1 uint64, k2 uint64, n uint64)
  trigger fin2(h1, h2, k1, k2, n)
  ensures fin2(h1, h2, k1, k2, n) == fin2_(h1, h2, k1, k2, n)
  why definition

// state after the first n blocks (of 16 bytes) of a from offset o
function bs1(a arr<uint8>, o int, n int, seed uint64) uint64
function bs2(a arr<uint8>, o int, n int, seed uint64) uint64
axiom bsZero(a arr<uint8>, o int, seed uint64)
  trigger bs1(a, o, 0, seed)
  ensures bs1(a, o, 0, seed) == seed && bs2(a, o, 0, seed) == seed
  why definition: the state starts as the seed
axiom bsSucc(a arr<uint8>, o int, n int, seed uint64)
  trigger bs1(a, o, n+1, seed)
  ensures bs1(a, o, n+1, seed) == blk1(bs1(a, o, n, seed), bs2(a, o, n, seed), le(a, o+(n<<4), 8)) \
    && bs2(a, o, n+1, seed) == blk2(bs1(a, o, n+1, seed), bs2(a, o, n, seed), le(a, o+(n<<4)+8, 8))
  why definition: one block of MurmurHash3_x64_128
// the same over 64-bit integers, two to a block
function ls1(a arr<int64>, o int, n int, seed uint64) uint64
function ls2(a arr<int64>, o int, n int, seed uint64) uint64
axiom lsZero(a arr<int64>, o int, seed uint64)
  trigger ls1(a, o, 0, seed)
  ensures ls1(a, o, 0, seed) == seed && ls2(a, o, 0, seed) == seed
  why definition: the state starts as the seed
axiom lsSucc(a arr<int64>, o int, n int, seed uint64)
  trigger ls1(a, o, n+1, seed)
  ensures ls1(a, o, n+1, seed) == blk1(ls1(a, o, n, seed), ls2(a, o, n, seed), a[o+(n<<1)]) \
    && ls2(a, o, n+1, seed) == blk2(ls1(a, o, n+1, seed), ls2(a, o, n, seed), a[o+(n<<1)+1])
  why definition: one block of MurmurHash3_x64_128

func getUint64
  mode bv
  requires 0 <= index && index <= pow2(48) && 0 <= rem && rem <= 8 && index + rem <= len(bArr)
  loop 1 unroll 9
  apply leDef(arr(bArr), off(bArr) + index, rem)
  ensures @le result == le(arr(bArr), off(bArr) + index, rem)

func mixK1
  mode bv
  ensures result == mk1(k1)
func mixK2
  mode bv
  ensures result == mk2(k2)
func finalMix64
  mode bv
  ensures result == fm(h)
func (*SimpleMurmur3).blockMix128
  mode bv
  modifies m.h1, m.h2
  apply blk1Def(old(m.h1), old(m.h2), k1)
  apply blk2Def(m.h1, old(m.h2), k2)
  ensures m.h1 == blk1(old(m.h1), old(m.h2), k1)
  ensures m.h2 == blk2(m.h1, old(m.h2), k2)
func (*SimpleMurmur3).finalMix128
  mode bv
  modifies m.h1, m.h2
  apply fin1Def(old(m.h1), old(m.h2), k1, k2, inputLengthBytes)
  apply fin2Def(old(m.h1), old(m.h2), k1, k2, inputLengthBytes)
  ensures @h1 result0 == fin1(old(m.h1), old(m.h2), k1, k2, inputLengthBytes)
  ensures @h2 result1 == fin2(old(m.h1), old(m.h2), k1, k2, inputLengthBytes)

// the first word of the hash of n bytes of a from o, as one (uninterpreted) function for the contracts that only need that it is one
function mh1(a arr<uint8>, o int, n int, seed uint64) uint64
function mh2(a arr<uint8>, o int, n int, seed uint64) uint64
define tl_(n) = if n > 8 then 8 else n
define th_(n) = if n > 8 then n - 8 else 0
axiom mhDef(a arr<uint8>, o int, n int, seed uint64)
  ensures mh1(a, o, n, seed) == fin1(bs1(a, o, n >> 4, seed), bs2(a, o, n >> 4, seed), le(a, o + ((n >> 4)<<4), tl_(n & 15)), le(a, o + ((n >> 4)<<4) + 8, th_(n & 15)), uint64(n)) \
    && mh2(a, o, n, seed) == fin2(bs1(a, o, n >> 4, seed), bs2(a, o, n >> 4, seed), le(a, o + ((n >> 4)<<4), tl_(n & 15)), le(a, o + ((n >> 4)<<4) + 8, th_(n & 15)), uint64(n))
  why definition

func HashByteArrMurmur3
  mode bv
  apply mhDef(arr(key), off(key) + offsetBytes, lengthBytes, seed)
  ensures @fn result0 == mh1(arr(key), off(key) + offsetBytes, lengthBytes, seed) && result1 == mh2(arr(key), off(key) + offsetBytes, lengthBytes, seed)
  requires 0 <= offsetBytes && offsetBytes <= pow2(46) && 0 <= lengthBytes && lengthBytes <= pow2(46) && offsetBytes + lengthBytes <= len(key)
  use bsZero
  apply leDef(arr(key), off(key) + offsetBytes + ((lengthBytes >> 4)<<4), 0)
  apply leDef(arr(key), off(key) + offsetBytes + ((lengthBytes >> 4)<<4) + 8, 0)
  let nb = (lengthBytes >> 4)
  let rem = lengthBytes & 15
  let a = arr(key)
  let o = off(key) + offsetBytes
  let t1 = le(a, o + (nb<<4), (if rem > 8 then 8 else rem))
  let t2 = le(a, o + (nb<<4) + 8, (if rem > 8 then rem - 8 else 0))
  ensures @h1 result0 == fin1(bs1(a, o, nb, seed), bs2(a, o, nb, seed), t1, t2, uint64(lengthBytes))
  ensures @h2 result1 == fin2(bs1(a, o, nb, seed), bs2(a, o, nb, seed), t1, t2, uint64(lengthBytes))
  loop 1 invariant 0 <= i && i <= (lengthBytes >> 4)
  loop 1 invariant hashState.h1 == bs1(arr(key), off(key) + offsetBytes, i, seed)
  loop 1 invariant hashState.h2 == bs2(arr(key), off(key) + offsetBytes, i, seed)
  loop 1 apply bsSucc(arr(key), off(key) + offsetBytes, i, seed)
  loop 1 decreases nblocks - i

func HashInt64SliceMurmur3
  mode bv
  requires 0 <= offsetLongs && offsetLongs <= pow2(46) && 0 <= lengthLongs && lengthLongs <= pow2(46) && offsetLongs + lengthLongs <= len(key)
  use lsZero
  let nb = (lengthLongs >> 1)
  let a = arr(key)
  let o = off(key) + offsetLongs
  let t1 = if (lengthLongs & 1) == 1 then a[o + (nb<<1)] else 0
  ensures @h1 result0 == fin1(ls1(a, o, nb, seed), ls2(a, o, nb, seed), t1, bvu(0, 64), uint64(lengthLongs) << 3)
  ensures @h2 result1 == fin2(ls1(a, o, nb, seed), ls2(a, o, nb, seed), t1, bvu(0, 64), uint64(lengthLongs) << 3)
  loop 1 invariant 0 <= i && i <= (lengthLongs >> 1)
  loop 1 invariant hashState.h1 == ls1(arr(key), off(key) + offsetLongs, i, seed)
  loop 1 invariant hashState.h2 == ls2(arr(key), off(key) + offsetLongs, i, seed)
  loop 1 apply lsSucc(arr(key), off(key) + offsetLongs, i, seed)
  loop 1 decreases nblocks - i

define lei_(a, i, r) = (if r > 0 then bvu(a[i], 64) else bvu(0, 64)) | (if r > 1 then bvu(a[i+1], 64) << 32 else bvu(0, 64))
function lei(a arr<int32>, i int, r int) uint64
axiom leiDef(a arr<int32>, i int, r int)
  trigger lei(a, i, r)
  ensures lei(a, i, r) == lei_(a, i, r)
  why definition
// the same over 32-bit integers, four to a block
function is1(a arr<int32>, o int, n int, seed uint64) uint64
function is2(a arr<int32>, o int, n int, seed uint64) uint64
axiom isZero(a arr<int32>, o int, seed uint64)
  trigger is1(a, o, 0, seed)
  ensures is1(a, o, 0, seed) == seed && is2(a, o, 0, seed) == seed
  why definition: the state starts as the seed
axiom isSucc(a arr<int32>, o int, n int, seed uint64)
  trigger is1(a, o, n+1, seed)
  ensures is1(a, o, n+1, seed) == blk1(is1(a, o, n, seed), is2(a, o, n, seed), lei(a, o+(n<<2), 2)) \
    && is2(a, o, n+1, seed) == blk2(is1(a, o, n+1, seed), is2(a, o, n, seed), lei(a, o+(n<<2)+2, 2))
  why definition: one block of MurmurHash3_x64_128

func getUint64FromInts
  mode bv
  requires 0 <= index && index <= pow2(48) && 0 <= rem && rem <= 2 && index + rem <= len(key)
  loop 1 unroll 3
  apply leiDef(arr(key), off(key) + index, rem)
  ensures @le result == lei(arr(key), off(key) + index, rem)

func HashInt32SliceMurmur3
  mode bv
  requires 0 <= offsetInts && offsetInts <= pow2(46) && 0 <= lengthInts && lengthInts <= pow2(46) && offsetInts + lengthInts <= len(key)
  use isZero
  apply leiDef(arr(key), off(key) + offsetInts + ((lengthInts >> 2)<<2), 0)
  apply leiDef(arr(key), off(key) + offsetInts + ((lengthInts >> 2)<<2) + 2, 0)
  let nb = lengthInts >> 2
  let rem = lengthInts & 3
  let a = arr(key)
  let o = off(key) + offsetInts
  let t1 = lei(a, o + (nb<<2), (if rem > 2 then 2 else rem))
  let t2 = lei(a, o + (nb<<2) + 2, (if rem > 2 then rem - 2 else 0))
  ensures @h1 result0 == fin1(is1(a, o, nb, seed), is2(a, o, nb, seed), t1, t2, uint64(lengthInts) << 2)
  ensures @h2 result1 == fin2(is1(a, o, nb, seed), is2(a, o, nb, seed), t1, t2, uint64(lengthInts) << 2)
  loop 1 invariant 0 <= i && i <= lengthInts >> 2
  loop 1 invariant hashState.h1 == is1(arr(key), off(key) + offsetInts, i, seed)
  loop 1 invariant hashState.h2 == is2(arr(key), off(key) + offsetInts, i, seed)
  loop 1 apply isSucc(arr(key), off(key) + offsetInts, i, seed)
  loop 1 decreases nblocks - i

func HashCharSliceMurmur3
  requires 0 <= offsetChars && offsetChars <= pow2(46) && 0 <= lengthChars && lengthChars <= pow2(46) && offsetChars + lengthChars <= len(key)
  loop 1 invariant 0 <= i

// the seed hash is the low 16 bits of the hash of the seed's eight bytes
function seedH(s uint64) uint64
axiom seedHDef(s uint64)
  trigger seedH(s)
  ensures seedH(s) == fin1(bvu(0, 64), bvu(0, 64), s, bvu(0, 64), bvu(8, 64)) & 65535
  why definition
func ComputeSeedHash
  mode bv
  use lsZero
  use seedHDef
  ensures @hash result1 == nil ==> uint64(uint16(result0)) == seedH(uint64(seed))
  ensures @err (result1 != nil) == (seedH(uint64(seed)) == 0)
