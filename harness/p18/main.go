// Concrete search for P18: item serializers against their inputs, at every offset and truncation.
package main

import (
	"bytes"
	"math"
	"math/rand"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/verifharness/hk"
)

// serde checks one serializer; eq compares items, fixed is the item width (0 for strings).
func serde[T any](s common.ItemSketchSerde[T], item func(*rand.Rand) T, eq func(a, b T) bool, fixed int, oneOk func(T) bool) func(c *hk.C) {
	return func(c *hk.C) {
		r := c.R
		n := r.Intn(9)
		if r.Intn(20) == 0 {
			n = r.Intn(600)
		}
		items := make([]T, n, n+r.Intn(3))
		for i := range items {
			items[i] = item(r)
		}
		c.Desc("items %v", items)
		img := s.SerializeManyToSlice(items)
		want := 0
		var ones []byte
		allOne := true
		for _, v := range items {
			want += s.SizeOf(v)
			if !oneOk(v) {
				allOne = false
				continue
			}
			o := s.SerializeOneToSlice(v)
			c.Ok(len(o) == s.SizeOf(v), "SerializeOneToSlice(%v) has %d bytes, SizeOf says %d", v, len(o), s.SizeOf(v))
			ones = append(ones, o...)
		}
		c.Ok(len(img) == want, "image of %d bytes, sizes add up to %d", len(img), want)
		if allOne {
			c.Ok(bytes.Equal(img, ones), "the image differs from the items' own images")
		}
		off := r.Intn(12)
		if r.Intn(2) == 0 {
			off = 0
		}
		tail := r.Intn(10)
		mem := make([]byte, off+len(img)+tail)
		r.Read(mem)
		copy(mem[off:], img)
		keep := bytes.Clone(mem)
		c.Desc("offset %d, %d bytes behind", off, tail)
		sz, err := s.SizeOfMany(mem, off, n)
		c.NoErr(err, "SizeOfMany")
		c.Ok(sz == len(img), "SizeOfMany %d, image has %d bytes", sz, len(img))
		back, err := s.DeserializeManyFromSlice(mem, off, n)
		c.NoErr(err, "DeserializeManyFromSlice")
		c.Ok(len(back) == n, "%d items restored of %d", len(back), n)
		for i := range back {
			c.Ok(eq(back[i], items[i]), "item %d: %v restored as %v", i, items[i], back[i])
		}
		c.Ok(bytes.Equal(mem, keep), "reading changed the image")
		// truncations
		cuts := []int{}
		if len(img) <= 40 {
			for k := 0; k < off+len(img); k++ {
				cuts = append(cuts, k)
			}
		} else {
			for k := 0; k < 12; k++ {
				cuts = append(cuts, off+r.Intn(len(img)))
			}
			cuts = append(cuts, off+len(img)-1)
		}
		if n > 0 {
			for _, k := range cuts {
				_, err := s.DeserializeManyFromSlice(mem[:k:k], off, n)
				c.Ok(err != nil, "cut to %d of %d bytes (offset %d): accepted", k, off+len(img), off)
				_, err = s.DeserializeManyFromSlice(mem[:k], off, n)
				c.Ok(err != nil, "resliced to %d of %d bytes (offset %d): accepted", k, off+len(img), off)
				if fixed == 0 {
					_, err := s.SizeOfMany(mem[:k:k], off, n)
					c.Ok(err != nil, "SizeOfMany of the image cut to %d of %d bytes (offset %d): accepted", k, off+len(img), off)
				}
			}
			k := off + len(img)
			for _, m := range []int{n + 1 + (tail+3)/4, math.MaxInt, math.MaxInt/8 + 1, 1 << 40} {
				if m*4 <= tail && m > 0 {
					continue
				}
				_, err := s.DeserializeManyFromSlice(mem[:k:k], off, m)
				c.Ok(err != nil, "%d items are read from an image of %d", m, n)
			}
			_, err = s.DeserializeManyFromSlice(mem, -1-r.Intn(9), n)
			c.Ok(err != nil, "a negative offset is accepted")
			_, err = s.DeserializeManyFromSlice(mem, len(mem)+1+r.Intn(9), n)
			c.Ok(err != nil, "an offset behind the image is accepted")
		}
		// arbitrary bytes never crash
		g := make([]byte, r.Intn(40))
		r.Read(g)
		for i := range g {
			if r.Intn(3) > 0 {
				g[i] = byte(r.Intn(3))
			}
		}
		m := r.Intn(9)
		c.Desc("bytes %v, %d items", g, m)
		got, err := s.DeserializeManyFromSlice(g, 0, m)
		if err == nil {
			c.Ok(len(got) == m, "%d items read, want %d", len(got), m)
			again := s.SerializeManyToSlice(got)
			c.Ok(len(again) <= len(g) && bytes.Equal(again, g[:len(again)]), "items read from bytes do not write the same bytes")
		}
	}
}

func main() {
	str := func(r *rand.Rand) string {
		n := r.Intn(6)
		switch r.Intn(12) {
		case 0:
			n = r.Intn(400)
		case 1:
			n = 250 + r.Intn(12)
		case 2:
			n = 65530 + r.Intn(12)
		}
		b := make([]byte, n)
		r.Read(b)
		return string(b)
	}
	long := func(r *rand.Rand) int64 {
		switch r.Intn(6) {
		case 0:
			return []int64{0, 1, -1, math.MinInt64, math.MaxInt64, 255, 256, -256}[r.Intn(8)]
		case 1:
			return int64(1) << uint(r.Intn(63))
		}
		return r.Int63() - r.Int63()
	}
	any := func(int64) bool { return true }
	hk.Main(func(h *hk.H) {
		h.Loop("long", 15000, serde[int64](common.ItemSketchLongSerDe{}, long, func(a, b int64) bool { return a == b }, 8, any))
		h.Loop("double", 15000, serde[float64](common.ItemSketchDoubleSerDe{}, func(r *rand.Rand) float64 {
			if r.Intn(4) == 0 {
				return []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64}[r.Intn(7)]
			}
			return math.Float64frombits(r.Uint64())
		}, func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }, 8, func(float64) bool { return true }))
		h.Loop("float", 15000, serde[float32](common.ItemSketchFloatSerDe{}, func(r *rand.Rand) float32 {
			return math.Float32frombits(r.Uint32() &^ 0x400000) // (a signalling NaN may become quiet on some machines)
		}, func(a, b float32) bool {
			return math.Float32bits(a)&^0x400000 == math.Float32bits(b)&^0x400000
		}, 4, func(float32) bool { return true }))
		h.Loop("string", 15000, serde[string](common.ItemSketchStringSerDe{}, str, func(a, b string) bool { return a == b }, 0, func(s string) bool { return s != "" }))
		h.Probe("string-one-empty", func(c *hk.C) {
			s := common.ItemSketchStringSerDe{}
			o := s.SerializeOneToSlice("")
			c.Ok(len(o) == s.SizeOf(""), "SerializeOneToSlice(\"\") has %d bytes, SizeOf says %d", len(o), s.SizeOf(""))
		})
		h.Bounded("lists of up to 600 items, strings of up to 65541 bytes, offsets below 12")
	})
}
