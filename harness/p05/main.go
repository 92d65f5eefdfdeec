// Concrete search for P05: count-min sketches against exact counts.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"

	"github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/verifharness/hk"
)

type item struct {
	kind int
	u    uint64
	b    []byte
}

func (i item) key() string {
	if i.kind == 0 {
		return string(hk.U64(i.u))
	}
	return string(i.b)
}

func (i item) update(s *count.CountMinSketch, w int64) error {
	switch i.kind {
	case 0:
		return s.UpdateUint64(i.u, w)
	case 1:
		return s.UpdateString(string(i.b), w)
	}
	return s.Update(i.b, w)
}

func randItem(r *rand.Rand, universe int) item {
	k := r.Intn(3)
	n := r.Intn(universe)
	if k == 0 {
		return item{0, uint64(n) * 0x9E3779B97F4A7C15, nil}
	}
	q := rand.New(rand.NewSource(int64(n)))
	b := make([]byte, 1+q.Intn(40))
	q.Read(b)
	if n%7 == 0 {
		b = []byte(fmt.Sprint(n))
	}
	return item{k, 0, b}
}

type stream struct {
	items   []item
	weights []int64
}

func randStream(c *hk.C, universe int) stream {
	r := c.R
	var s stream
	n := r.Intn(200)
	big := r.Intn(5) == 0
	for i := 0; i < n; i++ {
		w := []int64{0, 1, 1, 2, int64(r.Intn(1000)), int64(r.Intn(1 << 30))}[r.Intn(6)]
		if big && r.Intn(4) == 0 {
			w = r.Int63n(1 << 53)
		}
		s.items = append(s.items, randItem(r, universe))
		s.weights = append(s.weights, w)
	}
	return s
}

func (s stream) feed(c *hk.C, k *count.CountMinSketch, truth map[string]int64, total *int64) {
	for i, it := range s.items {
		keep := bytes.Clone(it.b)
		c.NoErr(it.update(k, s.weights[i]), "update")
		c.Ok(bytes.Equal(keep, it.b), "update modified the item")
		if truth != nil {
			truth[it.key()] += s.weights[i]
			*total += s.weights[i]
		}
	}
}

func verify(c *hk.C, what string, k *count.CountMinSketch, truth map[string]int64, total int64) {
	c.Ok(k.GetTotalWeight() == total, "%s: total weight %d, true %d", what, k.GetTotalWeight(), total)
	for s, w := range truth {
		b := []byte(s)
		e := k.GetEstimate(b)
		c.Ok(e >= w, "%s: estimate of %x is %d, true weight %d", what, s, e, w)
		c.Ok(e <= total, "%s: estimate of %x is %d, total weight %d", what, s, e, total)
		c.Ok(k.GetLowerBound(b) == e, "%s: lower bound of %x is %d, estimate %d", what, s, k.GetLowerBound(b), e)
		c.Ok(k.GetUpperBound(b) >= e, "%s: upper bound of %x is %d, estimate %d", what, s, k.GetUpperBound(b), e)
		c.Ok(k.GetEstimateString(s) == e, "%s: estimates of %x as bytes and string differ", what, s)
		if len(b) == 8 {
			var u uint64
			for i := 7; i >= 0; i-- {
				u = u<<8 | uint64(b[i])
			}
			c.Ok(k.GetEstimateUint64(u) == e && k.GetLowerBoundUint64(u) == e && k.GetUpperBoundUint64(u) == k.GetUpperBound(b), "%s: estimates of %d as bytes and integer differ", what, u)
		}
	}
}

func bytesOf(c *hk.C, k *count.CountMinSketch) []byte {
	var b bytes.Buffer
	c.NoErr(k.Serialize(&b), "Serialize")
	return b.Bytes()
}

func mk(c *hk.C, h int8, b int32, seed int64) *count.CountMinSketch {
	s, err := count.NewCountMinSketch(h, b, seed)
	c.NoErr(err, "NewCountMinSketch(%d, %d, %d)", h, b, seed)
	c.Ok(s.GetNumHashes() == h && s.GetNumBuckets() == b && s.GetSeed() == seed && s.GetTotalWeight() == 0, "wrong parameters")
	return s
}

func streams(c *hk.C) {
	r := c.R
	h := int8(1 + r.Intn(8))
	if r.Intn(20) == 0 {
		h = 127
	}
	b := []int32{3, 4, 5, 7, 8, 16, 31, 64, 100, 1000}[r.Intn(10)]
	seed := []int64{0, 1, -1, 9001, math.MaxInt64, math.MinInt64, int64(r.Uint64())}[r.Intn(7)]
	uni := 1 + r.Intn(60)
	c.Desc("hashes=%d buckets=%d seed=%d universe=%d", h, b, seed, uni)
	x, y := randStream(c, uni), randStream(c, uni)
	if r.Intn(8) == 0 {
		x = stream{}
	}
	if r.Intn(8) == 0 {
		y = stream{}
	}
	c.Desc("first stream %v", x)
	c.Desc("second stream %v", y)
	a, o, both := mk(c, h, b, seed), mk(c, h, b, seed), mk(c, h, b, seed)
	tx, ty, tb := map[string]int64{}, map[string]int64{}, map[string]int64{}
	var nx, ny, nb int64
	x.feed(c, a, tx, &nx)
	verify(c, "first", a, tx, nx)
	y.feed(c, o, ty, &ny)
	verify(c, "second", o, ty, ny)
	x.feed(c, both, tb, &nb)
	y.feed(c, both, tb, &nb)
	verify(c, "concatenation", both, tb, nb)
	// rejected merges leave the sketch alone
	before := bytesOf(c, a)
	for _, z := range []*count.CountMinSketch{a, mk(c, h%127+1, b, seed), mk(c, h, b+1, seed), mk(c, h, b, seed^1), mk(c, h, b, seed^math.MinInt64)} {
		if z != a {
			_ = z.UpdateUint64(1, 5)
		}
		c.Ok(a.Merge(z) != nil, "merge with itself or with an incompatible sketch (%d, %d, %d) accepted", z.GetNumHashes(), z.GetNumBuckets(), z.GetSeed())
	}
	c.Ok(bytes.Equal(before, bytesOf(c, a)), "a rejected merge changed the sketch")
	// round trip
	for _, s := range []struct {
		k *count.CountMinSketch
		t map[string]int64
		n int64
	}{{a, tx, nx}, {o, ty, ny}} {
		img := bytesOf(c, s.k)
		keep := bytes.Clone(img)
		d, err := s.k.Deserialize(img, seed)
		c.NoErr(err, "Deserialize")
		c.Ok(bytes.Equal(img, keep), "Deserialize modified its input")
		clear(img)
		verify(c, "restored", d, s.t, s.n)
		c.Ok(d.GetNumBuckets() == b && d.GetNumHashes() == h && d.GetSeed() == seed, "restored sketch has other parameters")
		c.Ok(bytes.Equal(bytesOf(c, d), keep), "restored sketch serializes differently")
		for i := 0; i < 40; i++ {
			it := randItem(r, uni*4+10)
			k := []byte(it.key())
			c.Ok(d.GetEstimate(k) == s.k.GetEstimate(k) && d.GetUpperBound(k) == s.k.GetUpperBound(k), "restored sketch estimates %x as %d, original %d", k, d.GetEstimate(k), s.k.GetEstimate(k))
		}
		if r.Intn(2) == 0 && s.k == a {
			a = d // go on with the restored sketch
		}
	}
	oimg := bytesOf(c, o)
	c.NoErr(a.Merge(o), "merge")
	c.Ok(bytes.Equal(oimg, bytesOf(c, o)), "merge changed its operand")
	verify(c, "merged", a, tb, nb)
	c.Ok(bytes.Equal(bytesOf(c, a), bytesOf(c, both)), "the merged sketch is not the sketch of the concatenated streams")
	// the merged sketch goes on counting, apart from its operand
	x.feed(c, a, tb, &nb)
	verify(c, "merged and updated", a, tb, nb)
	c.Ok(bytes.Equal(oimg, bytesOf(c, o)), "updating a merged sketch changed the operand")
}

func images(c *hk.C) {
	r := c.R
	h, b := int8(1+r.Intn(5)), int32(3+r.Intn(20))
	seed := int64(r.Uint64())
	k := mk(c, h, b, seed)
	truth := map[string]int64{}
	var n int64
	randStream(c, 30).feed(c, k, truth, &n)
	img := bytesOf(c, k)
	other := int64(r.Uint64())
	c.Desc("hashes=%d buckets=%d seed=%d image=%x other seed=%d", h, b, seed, img, other)
	if n > 0 {
		_, err := k.Deserialize(img, other)
		c.Ok(err != nil || seedHash(seed) == seedHash(other), "image of seed %d restored under seed %d", seed, other)
	}
	cut := img[:r.Intn(len(img))]
	if _, err := k.Deserialize(cut, seed); err == nil {
		c.Failf("image truncated to %d bytes accepted", len(cut))
	}
	if n > 0 {
		if _, err := k.Deserialize(append(bytes.Clone(img), 1, 2, 3, 4, 5, 6, 7, 8), seed); err == nil {
			c.Failf("image with a surplus counter accepted")
		}
	}
}

func seedHash(s int64) uint16 {
	a, _ := hk.Murmur(hk.U64(uint64(s)), 0)
	return uint16(a)
}

func shapes(h *hk.H) {
	h.Probe("shapes", func(c *hk.C) {
		for _, nh := range []int8{-128, -1, 0, 1, 2, 4, 8, 64, 127} {
			for _, nb := range []int32{math.MinInt32, -5, 0, 2, 3, 1 << 10, 1 << 23, 1<<26 + 1, 1 << 28, 1<<30 - 1, 1 << 30, math.MaxInt32} {
				c.Desc("NewCountMinSketch(%d, %d, 1)", nh, nb)
				if n := int64(nh) * int64(nb); n > 1<<24 && n < 1<<30 && nh > 0 && nb > 2 {
					continue // valid but large
				}
				s, err := count.NewCountMinSketch(nh, nb, 1)
				if nh < 1 || nb < 3 || int64(nh)*int64(nb) >= 1<<30 {
					c.Ok(err != nil, "NewCountMinSketch(%d, %d) accepted", nh, nb)
					continue
				}
				c.NoErr(err, "NewCountMinSketch(%d, %d)", nh, nb)
				for i := uint64(0); i < 30; i++ {
					c.NoErr(s.UpdateUint64(i, 3), "update")
				}
				for i := uint64(0); i < 30; i++ {
					c.Ok(s.GetEstimateUint64(i) >= 3 && s.GetUpperBoundUint64(i) >= 3, "estimate of %d is %d, true weight 3", i, s.GetEstimateUint64(i))
				}
			}
		}
	})
}

func main() {
	hk.Main(func(h *hk.H) {
		h.Bounded("streams of up to 200 updates over at most 60 items, 3 to 1000 buckets, 1 to 127 hashes")
		h.Loop("streams", 3000, streams)
		h.Loop("images", 3000, images)
		shapes(h)
	})
}
