package hk

import (
	"encoding/binary"
	"math/bits"
)

// Murmur is an independent MurmurHash3_x64_128 of the given bytes.
func Murmur(b []byte, seed uint64) (uint64, uint64) {
	const c1, c2 = 0x87c37b91114253d5, 0x4cf5ad432745937f
	h1, h2 := seed, seed
	n := len(b)
	for len(b) >= 16 {
		k1, k2 := binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:])
		b = b[16:]
		h1 ^= bits.RotateLeft64(k1*c1, 31) * c2
		h1 = (bits.RotateLeft64(h1, 27)+h2)*5 + 0x52dce729
		h2 ^= bits.RotateLeft64(k2*c2, 33) * c1
		h2 = (bits.RotateLeft64(h2, 31)+h1)*5 + 0x38495ab5
	}
	var t [16]byte
	copy(t[:], b)
	k1, k2 := binary.LittleEndian.Uint64(t[:]), binary.LittleEndian.Uint64(t[8:])
	h1 ^= bits.RotateLeft64(k1*c1, 31) * c2
	h2 ^= bits.RotateLeft64(k2*c2, 33) * c1
	h1 ^= uint64(n)
	h2 ^= uint64(n)
	h1 += h2
	h2 += h1
	h1, h2 = mix(h1), mix(h2)
	h1 += h2
	h2 += h1
	return h1, h2
}

func mix(h uint64) uint64 {
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	return h ^ h>>33
}

// U64 is the little-endian form of v.
func U64(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }

// U32 is the little-endian form of v.
func U32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
