// Concrete search for P15: hashing against an independent MurmurHash3.
package main

import (
	"bytes"
	"encoding/binary"
	"math"
	"math/bits"

	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/internal"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
	"github.com/apache/datasketches-go/verifharness/hk"
)

type sum struct{ n int }

func (s *sum) Reset()               { s.n = 0 }
func (s *sum) Clone() tuple.Summary { c := *s; return &c }
func (s *sum) Update(v int)         { s.n += v }

func canon(f float64) uint64 {
	if f == 0 {
		return 0
	}
	if math.IsNaN(f) {
		return 0x7ff8000000000000
	}
	return math.Float64bits(f)
}

func randFloat(c *hk.C) float64 {
	r := c.R
	nans := []uint64{0x7ff8000000000000, 0xfff8000000000000, 0x7ff0000000000001, 0xfff0000000000001, 0x7fffffffffffffff, 0xffffffffffffffff, 0x7ff0000000000000 | 1<<r.Intn(52), 0xfff0000000000000 | 1<<r.Intn(52)}
	return []float64{0, math.Copysign(0, -1), math.Float64frombits(nans[r.Intn(8)]), math.Float64frombits(0xfff8000000000001), math.Float64frombits(0x7ff0000000000001), math.Inf(1), math.Inf(-1), r.NormFloat64(), float64(r.Intn(100)), math.Float64frombits(r.Uint64()), math.SmallestNonzeroFloat64, math.MaxFloat64}[r.Intn(12)]
}

func seedOf(c *hk.C) uint64 {
	return []uint64{0, 9001, 1, math.MaxUint64, 1 << 63, c.R.Uint64()}[c.R.Intn(6)]
}

func byteArr(c *hk.C) {
	r := c.R
	n := r.Intn(70)
	if r.Intn(10) == 0 {
		n = r.Intn(3000)
	}
	pre, post := r.Intn(20), r.Intn(20)
	b := make([]byte, pre+n+post)
	r.Read(b)
	if r.Intn(4) == 0 {
		for i := range b {
			b[i] |= 0x80
		}
	}
	seed := seedOf(c)
	c.Desc("HashByteArrMurmur3(%x, %d, %d, %d)", b, pre, n, seed)
	keep := bytes.Clone(b)
	a1, a2 := internal.HashByteArrMurmur3(b, pre, n, seed)
	e1, e2 := hk.Murmur(b[pre:pre+n], seed)
	c.Ok(a1 == e1 && a2 == e2, "hash %x %x, reference %x %x", a1, a2, e1, e2)
	c.Ok(bytes.Equal(b, keep), "the key was modified")
}

func int64s(c *hk.C) {
	r := c.R
	n := r.Intn(12)
	pre, post := r.Intn(4), r.Intn(4)
	k := make([]int64, pre+n+post)
	var le []byte
	for i := range k {
		k[i] = int64(r.Uint64())
		if r.Intn(3) == 0 {
			k[i] = int64(r.Intn(9)) - 4
		}
		if i >= pre && i < pre+n {
			le = append(le, hk.U64(uint64(k[i]))...)
		}
	}
	seed := seedOf(c)
	c.Desc("HashInt64SliceMurmur3(%v, %d, %d, %d)", k, pre, n, seed)
	a1, a2 := internal.HashInt64SliceMurmur3(k, pre, n, seed)
	e1, e2 := hk.Murmur(le, seed)
	c.Ok(a1 == e1 && a2 == e2, "hash %x %x, reference %x %x", a1, a2, e1, e2)
}

func int32s(c *hk.C) {
	r := c.R
	n := r.Intn(20)
	pre, post := r.Intn(4), r.Intn(4)
	k := make([]int32, pre+n+post)
	var le []byte
	for i := range k {
		k[i] = int32(r.Uint32())
		if r.Intn(3) == 0 {
			k[i] = int32(r.Intn(9)) - 4
		}
		if i >= pre && i < pre+n {
			le = append(le, hk.U32(uint32(k[i]))...)
		}
	}
	seed := seedOf(c)
	c.Desc("HashInt32SliceMurmur3(%v, %d, %d, %d)", k, pre, n, seed)
	a1, a2 := internal.HashInt32SliceMurmur3(k, pre, n, seed)
	e1, e2 := hk.Murmur(le, seed)
	c.Ok(a1 == e1 && a2 == e2, "hash %x %x, reference %x %x", a1, a2, e1, e2)
}

func seedHash(c *hk.C) {
	s := seedOf(c)
	c.Desc("ComputeSeedHash(%d)", s)
	h, err := internal.ComputeSeedHash(int64(s))
	w, _ := hk.Murmur(hk.U64(s), 0)
	if uint16(w) == 0 {
		c.Ok(err != nil, "zero seed hash accepted")
		return
	}
	c.NoErr(err, "ComputeSeedHash")
	c.Ok(uint16(h) == uint16(w), "seed hash %x, reference %x", uint16(h), uint16(w))
}

// one update through a typed entry point, and the bytes it must hash as
type entry struct {
	name string
	le   []byte
}

func sketches(c *hk.C) {
	r := c.R
	seed := uint64(9001)
	if r.Intn(2) == 0 {
		seed = r.Uint64()
	}
	v := int64(r.Uint64())
	if r.Intn(3) == 0 {
		v = int64(r.Intn(600)) - 300
	}
	f := randFloat(c)
	b := make([]byte, 1+r.Intn(50))
	r.Read(b)
	ints := []int32{int32(v), int32(r.Uint32()), int32(r.Intn(5)), int32(-r.Intn(5)), int32(r.Uint32())}[:1+r.Intn(5)]
	longs := []int64{v, int64(r.Uint64()), int64(-r.Intn(5))}[:1+r.Intn(3)]
	var ile, lle []byte
	for _, x := range ints {
		ile = append(ile, hk.U32(uint32(x))...)
	}
	for _, x := range longs {
		lle = append(lle, hk.U64(uint64(x))...)
	}
	c.Desc("seed=%d v=%d f=%v(%x) b=%x ints=%v longs=%v", seed, v, f, math.Float64bits(f), b, ints, longs)
	g := float32(f)
	type th struct {
		name string
		le   []byte
		f    func(s *theta.QuickSelectUpdateSketch) error
		g    func(s *tuple.UpdateSketch[*sum, int]) error
	}
	for _, e := range []th{
		{"UpdateInt64", hk.U64(uint64(v)), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateInt64(v) }, func(s *tuple.UpdateSketch[*sum, int]) error { return s.UpdateInt64(v, 1) }},
		{"UpdateUint64", hk.U64(uint64(v)), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateUint64(uint64(v)) }, func(s *tuple.UpdateSketch[*sum, int]) error { return s.UpdateUint64(uint64(v), 1) }},
		{"UpdateUint32", hk.U64(uint64(uint32(v))), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateUint32(uint32(v)) }, func(s *tuple.UpdateSketch[*sum, int]) error { return s.UpdateUint32(uint32(v), 1) }},
		{"UpdateInt32", hk.U32(uint32(v)), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateInt32(int32(v)) }, func(s *tuple.UpdateSketch[*sum, int]) error { return s.UpdateInt32(int32(v), 1) }},
		{"UpdateInt16", hk.U32(uint32(int16(v))), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateInt16(int16(v)) }, func(s *tuple.UpdateSketch[*sum, int]) error { return s.UpdateInt16(int16(v), 1) }},
		{"UpdateUint16", hk.U32(uint32(uint16(v))), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateUint16(uint16(v)) }, func(s *tuple.UpdateSketch[*sum, int]) error { return s.UpdateUint16(uint16(v), 1) }},
		{"UpdateInt8", hk.U32(uint32(int8(v))), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateInt8(int8(v)) }, func(s *tuple.UpdateSketch[*sum, int]) error { return s.UpdateInt8(int8(v), 1) }},
		{"UpdateUint8", hk.U32(uint32(uint8(v))), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateUint8(uint8(v)) }, func(s *tuple.UpdateSketch[*sum, int]) error { return s.UpdateUint8(uint8(v), 1) }},
		{"UpdateFloat64", hk.U64(canon(f)), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateFloat64(f) }, func(s *tuple.UpdateSketch[*sum, int]) error { return s.UpdateFloat64(f, 1) }},
		{"UpdateFloat32", hk.U64(canon(float64(g))), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateFloat32(g) }, func(s *tuple.UpdateSketch[*sum, int]) error { return s.UpdateFloat32(g, 1) }},
		{"UpdateBytes", b, func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateBytes(b) }, func(s *tuple.UpdateSketch[*sum, int]) error { return s.UpdateBytes(b, 1) }},
		{"UpdateString", b, func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateString(string(b)) }, func(s *tuple.UpdateSketch[*sum, int]) error { return s.UpdateString(string(b), 1) }},
	} {
		h, _ := hk.Murmur(e.le, seed)
		h >>= 1
		s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchSeed(seed))
		c.NoErr(err, "theta sketch")
		c.NoErr(e.f(s), "theta %s", e.name)
		for k := range s.All() {
			c.Ok(k == h, "theta %s hashes to %x, reference of its little-endian bytes %x is %x", e.name, k, e.le, h)
		}
		t, err := tuple.NewUpdateSketch[*sum, int](func() *sum { return &sum{} }, tuple.WithUpdateSketchSeed(seed))
		c.NoErr(err, "tuple sketch")
		c.NoErr(e.g(t), "tuple %s", e.name)
		for k := range t.All() {
			c.Ok(k == h, "tuple %s hashes to %x, reference of its little-endian bytes %x is %x", e.name, k, e.le, h)
		}
		c.Ok(s.NumRetained() == 1 && t.NumRetained() == 1, "%s retained nothing", e.name)
	}
	// CPC: an update with the same bytes through another entry point changes nothing
	type cp struct {
		name string
		le   []byte
		f    func(s *cpc.CpcSketch) error
	}
	for _, e := range []cp{
		{"UpdateInt64", hk.U64(uint64(v)), func(s *cpc.CpcSketch) error { return s.UpdateInt64(v) }},
		{"UpdateUint64", hk.U64(uint64(v)), func(s *cpc.CpcSketch) error { return s.UpdateUint64(uint64(v)) }},
		{"UpdateFloat64", hk.U64(canon(f)), func(s *cpc.CpcSketch) error { return s.UpdateFloat64(f) }},
		{"UpdateInt64Slice", lle, func(s *cpc.CpcSketch) error { return s.UpdateInt64Slice(longs) }},
		{"UpdateInt32Slice", ile, func(s *cpc.CpcSketch) error { return s.UpdateInt32Slice(ints) }},
		{"UpdateString", b, func(s *cpc.CpcSketch) error { return s.UpdateString(string(b)) }},
	} {
		s, err := cpc.NewCpcSketch(10+r.Intn(8), seed)
		c.NoErr(err, "cpc sketch")
		c.NoErr(s.UpdateByteSlice(e.le), "UpdateByteSlice")
		x, err := s.ToCompactSlice()
		c.NoErr(err, "cpc serialization")
		x = bytes.Clone(x)
		c.NoErr(e.f(s), "cpc %s", e.name)
		y, err := s.ToCompactSlice()
		c.NoErr(err, "cpc serialization")
		c.Ok(bytes.Equal(x, y), "cpc %s does not hash like the bytes %x it stands for", e.name, e.le)
	}
	type hl struct {
		name string
		le   []byte
		f    func(s hll.HllSketch) error
	}
	for _, e := range []hl{
		{"UpdateInt64", hk.U64(uint64(v)), func(s hll.HllSketch) error { return s.UpdateInt64(v) }},
		{"UpdateUInt64", hk.U64(uint64(v)), func(s hll.HllSketch) error { return s.UpdateUInt64(uint64(v)) }},
		{"UpdateSlice", b, func(s hll.HllSketch) error { return s.UpdateSlice(b) }},
		{"UpdateString", b, func(s hll.HllSketch) error { return s.UpdateString(string(b)) }},
	} {
		s, err := hll.NewHllSketch(10+r.Intn(8), hll.TgtHllTypeHll8)
		c.NoErr(err, "hll sketch")
		c.NoErr(e.f(s), "hll %s", e.name)
		x, err := s.ToCompactSlice()
		c.NoErr(err, "hll serialization")
		lo, hi := hk.Murmur(e.le, 9001)
		want := uint32(lo&(1<<26-1)) | uint32(min(bits.LeadingZeros64(hi), 62)+1)<<26
		c.Ok(len(x) >= 12 && binary.LittleEndian.Uint32(x[8:]) == want, "hll %s stores %x, reference coupon %x", e.name, x, want)
	}
}

func main() {
	hk.Main(func(h *hk.H) {
		h.Bounded("keys of up to 3000 bytes; every tail length; theta, tuple, CPC and HLL entry points")
		h.Loop("bytes", 60000, byteArr)
		h.Loop("int64", 20000, int64s)
		h.Loop("int32", 20000, int32s)
		h.Loop("seedhash", 2000, seedHash)
		h.Loop("sketches", 1500, sketches)
	})
}
