// Concrete search for P04: images of theta sketches.
package main

import (
	"bytes"
	"encoding/binary"
	"math/rand"
	"slices"

	"github.com/apache/datasketches-go/internal"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/verifharness/hk"
)

type obs struct {
	empty, ordered, est bool
	theta               uint64
	seed                uint16
	h                   []uint64
}

func observe(c *hk.C, s theta.Sketch) obs {
	o := obs{empty: s.IsEmpty(), ordered: s.IsOrdered(), est: s.IsEstimationMode(), theta: s.Theta64()}
	o.seed, _ = s.SeedHash()
	for e := range s.All() {
		o.h = append(o.h, e)
	}
	c.Ok(len(o.h) == int(s.NumRetained()), "All() yields %d entries, NumRetained() is %d", len(o.h), s.NumRetained())
	// an early stop
	k := 0
	for e := range s.All() {
		c.Ok(e == o.h[k], "a second pass yields other values")
		k++
		if k*2 > len(o.h) {
			break
		}
	}
	return o
}

func same(c *hk.C, what string, a, b obs) {
	c.Ok(a.empty == b.empty, "%s: IsEmpty %v, want %v", what, b.empty, a.empty)
	c.Ok(a.ordered == b.ordered, "%s: IsOrdered %v, want %v", what, b.ordered, a.ordered)
	c.Ok(a.theta == b.theta, "%s: theta %d, want %d", what, b.theta, a.theta)
	c.Ok(a.est == b.est, "%s: IsEstimationMode %v, want %v", what, b.est, a.est)
	c.Ok(a.seed == b.seed, "%s: seed hash %d, want %d", what, b.seed, a.seed)
	c.Ok(slices.Equal(a.h, b.h), "%s: %d hashes differ from the %d written", what, len(b.h), len(a.h))
}

func seedHash(seed uint64) uint16 {
	h1, _ := internal.HashInt64SliceMurmur3([]int64{int64(seed)}, 0, 1, 0)
	return uint16(h1)
}

func encode(c *hk.C, s *theta.CompactSketch, comp bool) []byte {
	var buf bytes.Buffer
	enc := theta.NewEncoder(&buf, comp)
	c.NoErr(enc.Encode(s), "Encode")
	b := buf.Bytes()
	c.Ok(len(b) == s.SerializedSizeBytes(comp), "the image has %d bytes, SerializedSizeBytes says %d", len(b), s.SerializedSizeBytes(comp))
	return b
}

func roundTrip(c *hk.C, s *theta.CompactSketch, seed uint64) {
	r := c.R
	want := observe(c, s)
	if want.empty {
		want.theta = theta.MaxTheta // an image of an empty sketch has no threshold
	}
	for _, comp := range []bool{false, true} {
		name := "plain"
		if comp {
			name = "compressed"
		}
		img := encode(c, s, comp)
		if !comp {
			m, err := s.MarshalBinary()
			c.NoErr(err, "MarshalBinary")
			c.Ok(bytes.Equal(m, img), "MarshalBinary differs from Encode")
		}
		keep := bytes.Clone(img)
		w2 := want
		if len(want.h) <= 1 {
			w2.ordered = true
		}
		d, err := theta.Decode(img, seed)
		c.NoErr(err, "Decode of a %s image of %d bytes", name, len(img))
		same(c, name+" decoded", w2, observe(c, d))
		dec := theta.NewDecoder(seed)
		d, err = dec.Decode(bytes.NewReader(img))
		c.NoErr(err, "Decoder.Decode")
		same(c, name+" decoded from a reader", w2, observe(c, d))
		// longer buffers
		long := append(bytes.Clone(img), make([]byte, 1+r.Intn(20))...)
		d, err = theta.Decode(long, seed)
		c.NoErr(err, "Decode of a %s image with trailing bytes", name)
		same(c, name+" decoded with trailing bytes", w2, observe(c, d))
		w, err := theta.WrapCompactSketch(img, seed)
		c.NoErr(err, "WrapCompactSketch of a %s image", name)
		ww := observe(c, w)
		if len(want.h) <= 1 {
			ww.ordered = true
		}
		same(c, name+" wrapped", w2, ww)
		c.Ok(bytes.Equal(img, keep), "reading changed the image")
		if !want.empty {
			c.Ok(w.Estimate() == s.Estimate() && d.Estimate() == s.Estimate(), "the estimate differs")
			// the wrong seed
			bad := seed + 1 + uint64(r.Intn(1000))
			if seedHash(bad) != seedHash(seed) && seedHash(bad) != 0 {
				_, err = theta.Decode(img, bad)
				c.Ok(err != nil, "a %s image is decoded with another seed", name)
				_, err = theta.WrapCompactSketch(img, bad)
				c.Ok(err != nil, "a %s image is wrapped with another seed", name)
			}
		}
		// truncations
		cuts := []int{}
		if len(img) < 200 {
			for k := range img {
				cuts = append(cuts, k)
			}
		} else {
			for k := 0; k < 32; k++ {
				cuts = append(cuts, k)
			}
			for k := 0; k < 10; k++ {
				cuts = append(cuts, r.Intn(len(img)))
			}
			cuts = append(cuts, len(img)-1)
		}
		for _, k := range cuts {
			_, err := theta.Decode(img[:k:k], seed)
			c.Ok(err != nil, "a %s image of %d bytes cut to %d is decoded", name, len(img), k)
			_, err = theta.WrapCompactSketch(img[:k], seed)
			c.Ok(err != nil, "a %s image of %d bytes cut to %d is wrapped", name, len(img), k)
		}
		// altered images never crash
		for k := 0; k < 6; k++ {
			m := bytes.Clone(img)
			if len(m) > 2000 {
				m = m[:2000]
			}
			for j := 0; j <= r.Intn(3); j++ {
				q := r.Intn(min(len(m), 24))
				if q != 2 || r.Intn(4) == 0 {
					m[q] = byte(r.Intn(256)) >> uint(r.Intn(8))
				}
			}
			read(c, m, seed)
		}
	}
}

// read decodes and walks bytes that may be no image at all.
func read(c *hk.C, m []byte, seed uint64) {
	c.Desc("bytes %x (seed %d)", m[:min(len(m), 64)], seed)
	d, e1 := theta.Decode(m, seed)
	w, e2 := theta.WrapCompactSketch(m, seed)
	c.Ok((e1 == nil) == (e2 == nil), "Decode gives %v, WrapCompactSketch %v", e1, e2)
	if e1 == nil {
		a, b := observe(c, d), observe(c, w)
		b.ordered = a.ordered
		same(c, "wrapped against decoded", a, b)
	}
}

func image(hs []uint64, th uint64, ordered bool, seed uint64) []byte {
	fl := byte(2 | 8)
	if ordered {
		fl |= 16
	}
	b := []byte{3, 3, 3, 0, 0, fl, 0, 0}
	binary.LittleEndian.PutUint16(b[6:], seedHash(seed))
	b = append(b, hk.U32(uint32(len(hs)))...)
	b = append(b, 0, 0, 0, 0)
	b = append(b, hk.U64(th)...)
	for _, h := range hs {
		b = append(b, hk.U64(h)...)
	}
	return b
}

func sketch(c *hk.C, r *rand.Rand, n int, seed uint64) *theta.QuickSelectUpdateSketch {
	opts := []theta.UpdateSketchOptionFunc{theta.WithUpdateSketchLgK(uint8(5 + r.Intn(6))), theta.WithUpdateSketchSeed(seed)}
	if r.Intn(3) == 0 {
		opts = append(opts, theta.WithUpdateSketchP(float32(1+r.Intn(1000))/1000))
	}
	s, err := theta.NewQuickSelectUpdateSketch(opts...)
	c.NoErr(err, "NewQuickSelectUpdateSketch")
	b := r.Int63()
	for i := 0; i < n; i++ {
		_ = s.UpdateInt64(b + int64(i))
	}
	return s
}

func main() {
	hk.Main(func(h *hk.H) {
		seeds := []uint64{9001, 1, 123456789}
		h.Loop("streams", 8000, func(c *hk.C) {
			r := c.R
			seed := seeds[r.Intn(len(seeds))]
			n := []int{0, 1, 2, r.Intn(12), r.Intn(64), r.Intn(6000)}[r.Intn(6)]
			c.Desc("%d values, seed %d", n, seed)
			s := sketch(c, r, n, seed)
			roundTrip(c, s.Compact(r.Intn(2) == 0), seed)
		})
		h.Loop("results", 4000, func(c *hk.C) {
			r := c.R
			seed := seeds[r.Intn(len(seeds))]
			a, b := sketch(c, r, r.Intn(3000), seed), sketch(c, r, r.Intn(3000), seed)
			var res *theta.CompactSketch
			var err error
			switch r.Intn(2) {
			case 0:
				res, err = theta.ANotB(a, b, seed, r.Intn(2) == 0)
			default:
				i := theta.NewIntersection(theta.WithIntersectionSeed(seed))
				c.NoErr(i.Update(a), "Update")
				c.NoErr(i.Update(b), "Update")
				res, err = i.Result(r.Intn(2) == 0)
			}
			c.NoErr(err, "set operation")
			c.Desc("a set operation's result with %d hashes", res.NumRetained())
			roundTrip(c, res, seed)
		})
		h.Loop("widths", 30000, func(c *hk.C) {
			// hashes whose largest difference has a given number of bits
			r := c.R
			seed := seeds[r.Intn(len(seeds))]
			w := 1 + c.I%63
			n := 1 + r.Intn(40)
			if r.Intn(6) == 0 {
				n = []int{255, 256, 257, 300}[r.Intn(4)]
			}
			th := uint64(theta.MaxTheta)
			if r.Intn(2) == 0 {
				th = uint64(1)<<62 + uint64(r.Int63n(1<<62))
			}
			hs := make([]uint64, 0, n)
			prev := uint64(0)
			for i := 0; i < n; i++ {
				d := (r.Uint64() >> uint(64-w))
				if r.Intn(4) == 0 {
					d = uint64(1)<<uint(w) - 1
				}
				if prev+d >= th || prev+d < prev {
					d = 1
				}
				if d == 0 {
					d = 1
				}
				if prev+d >= th {
					break
				}
				prev += d
				hs = append(hs, prev)
			}
			c.Desc("%d hashes with differences below 2^%d, theta %d", len(hs), w, th)
			s, err := theta.Decode(image(hs, th, true, seed), seed)
			c.NoErr(err, "Decode")
			o := observe(c, s)
			c.Ok(slices.Equal(o.h, hs) && o.theta == th, "a plain image is misread")
			roundTrip(c, s, seed)
		})
		h.Loop("garbage", 200000, func(c *hk.C) {
			r := c.R
			m := make([]byte, r.Intn(60))
			r.Read(m)
			for i := range m {
				if r.Intn(2) == 0 {
					m[i] = byte(r.Intn(4))
				}
			}
			if len(m) > 7 {
				m[1], m[2] = byte(r.Intn(6)), 3
				binary.LittleEndian.PutUint16(m[6:], seedHash(9001))
				if r.Intn(8) == 0 {
					m[r.Intn(8)] = byte(r.Intn(256))
				}
			}
			read(c, m, 9001)
		})
		h.Bounded("streams of up to 6000 values, lgK 5..10, 3 seeds; images with up to 300 hashes for every entry width 1..63; arbitrary images of up to 59 bytes")
	})
}
