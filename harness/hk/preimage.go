package hk

import (
	"encoding/binary"
	"math/bits"
)

// Preimage is a 16-byte input whose Murmur hash with the given seed is (h1, h2):
// for that length every step of the hash is a bijection.
func Preimage(h1, h2, seed uint64) []byte {
	const c1, c2 = 0x87c37b91114253d5, 0x4cf5ad432745937f
	inv := func(a uint64) uint64 { // inverse of an odd number modulo 2^64
		x := a
		for i := 0; i < 6; i++ {
			x *= 2 - a*x
		}
		return x
	}
	unmix := func(h uint64) uint64 {
		h ^= h >> 33
		h *= inv(0xc4ceb9fe1a85ec53)
		h ^= h >> 33
		h *= inv(0xff51afd7ed558ccd)
		h ^= h >> 33
		return h
	}
	h2 -= h1
	h1 -= h2
	h1, h2 = unmix(h1), unmix(h2)
	h2 -= h1
	h1 -= h2
	h1 ^= 16
	h2 ^= 16
	g1 := h1
	h1 = (h1 - 0x52dce729) * inv(5)
	h1 -= seed
	h1 = bits.RotateLeft64(h1, -27)
	k1 := h1 ^ seed
	k1 = bits.RotateLeft64(k1*inv(c2), -31) * inv(c1)
	h2 = (h2 - 0x38495ab5) * inv(5)
	h2 -= g1
	h2 = bits.RotateLeft64(h2, -31)
	k2 := h2 ^ seed
	k2 = bits.RotateLeft64(k2*inv(c1), -33) * inv(c2)
	b := binary.LittleEndian.AppendUint64(nil, k1)
	b = binary.LittleEndian.AppendUint64(b, k2)
	return b
}
