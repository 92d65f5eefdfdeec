// Concrete search for P11: reservoir streams, unions and images against multisets.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"slices"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/verifharness/hk"
)

type bag[T comparable] struct {
	stream []T // everything offered, in order (order meaningful while ordered)
	n      int64
	order  bool
}

func (b *bag[T]) add(v T) { b.stream = append(b.stream, v); b.n++ }

func count[T comparable](l []T) map[T]int {
	m := map[T]int{}
	for _, v := range l {
		m[v]++
	}
	return m
}

func check[T comparable](c *hk.C, what string, s *sampling.ReservoirItemsSketch[T], b *bag[T]) {
	k := int64(s.K())
	c.Ok(s.N() == b.n, "%s: N() = %d, items seen %d", what, s.N(), b.n)
	smp := s.Samples()
	c.Ok(len(smp) == s.NumSamples(), "%s: Samples() has %d items, NumSamples() is %d", what, len(smp), s.NumSamples())
	c.Ok(int64(len(smp)) == min(b.n, k), "%s: holds %d items, want min(n %d, k %d)", what, len(smp), b.n, k)
	have, held := count(b.stream), count(smp)
	for v, m := range held {
		c.Ok(m <= have[v], "%s: item %v is held %d times, it occurred %d times", what, v, m, have[v])
	}
	if b.n <= k {
		if b.order {
			c.Ok(slices.Equal(smp, b.stream), "%s: below capacity holds %v, stream %v", what, smp, b.stream)
		}
		for v, m := range have {
			c.Ok(held[v] == m, "%s: below capacity item %v is held %d times, occurred %d", what, v, held[v], m)
		}
	}
	if len(smp) > 0 {
		pick := smp[c.R.Intn(len(smp))]
		true_ := 0
		for _, v := range smp {
			if v == pick {
				true_++
			}
		}
		e, err := s.EstimateSubsetSum(func(v T) bool { return v == pick })
		c.NoErr(err, "EstimateSubsetSum")
		want := float64(b.n) * float64(true_) / float64(len(smp))
		c.Ok(math.Abs(e.Estimate-want) <= 1e-9*want && e.TotalSketchWeight == float64(b.n), "%s: subset estimate %+v, want %v of total %d", what, e, want, b.n)
		c.Ok(e.LowerBound <= e.Estimate && e.Estimate <= e.UpperBound, "%s: subset bounds %+v", what, e)
		all, err := s.EstimateSubsetSum(func(T) bool { return true })
		c.NoErr(err, "EstimateSubsetSum")
		c.Ok(all.Estimate == float64(b.n), "%s: the whole stream is estimated as %v of %d", what, all.Estimate, b.n)
		smp[0] = smp[len(smp)-1] // the returned slice is the caller's
	}
}

func roundTrip[T comparable](c *hk.C, s *sampling.ReservoirItemsSketch[T], serde common.ItemSketchSerde[T]) *sampling.ReservoirItemsSketch[T] {
	b, err := s.ToSlice(serde)
	c.NoErr(err, "ToSlice")
	t, err := sampling.NewReservoirItemsSketchFromSlice[T](b, serde)
	c.NoErr(err, "FromSlice (k %d n %d)", s.K(), s.N())
	c.Ok(t.K() == s.K() && t.N() == s.N() && slices.Equal(t.Samples(), s.Samples()), "round trip: k %d/%d n %d/%d samples %d/%d", s.K(), t.K(), s.N(), t.N(), s.NumSamples(), t.NumSamples())
	b2, err := t.ToSlice(serde)
	c.NoErr(err, "ToSlice")
	c.Ok(slices.Equal(b, b2), "round trip changes the image")
	return t
}

func truncated[T comparable](c *hk.C, s *sampling.ReservoirItemsSketch[T], serde common.ItemSketchSerde[T]) {
	b, err := s.ToSlice(serde)
	c.NoErr(err, "ToSlice")
	if len(b) > 16 {
		n := c.R.Intn(16)
		_, err := sampling.NewReservoirItemsSketchFromSlice[T](b[:n:n], serde)
		c.Ok(err != nil, "an image of %d bytes cut to its first %d is accepted", len(b), n)
	}
}

func pickK(c *hk.C) int {
	r := c.R
	switch r.Intn(8) {
	case 0:
		return 2
	case 1:
		return 3
	case 2:
		return 1 << uint(1+r.Intn(10))
	case 3:
		return 1000 + r.Intn(100000)
	default:
		return 2 + r.Intn(60)
	}
}

func pickN(c *hk.C, k int) int {
	r := c.R
	switch r.Intn(6) {
	case 0:
		return r.Intn(4)
	case 1:
		return min(k, 5000)
	case 2:
		return min(k+1, 5000)
	case 3:
		return r.Intn(min(k, 3000) + 1)
	default:
		return r.Intn(400)
	}
}

func newSketch[T comparable](c *hk.C, k int) *sampling.ReservoirItemsSketch[T] {
	rf := sampling.ResizeFactor(c.R.Intn(4))
	var opts []sampling.ReservoirItemsSketchOptionFunc
	if c.R.Intn(4) > 0 {
		opts = append(opts, sampling.WithReservoirItemsSketchResizeFactor(rf))
	}
	s, err := sampling.NewReservoirItemsSketch[T](k, opts...)
	c.NoErr(err, "constructor k=%d", k)
	c.Ok(s.K() == k && s.N() == 0 && s.NumSamples() == 0, "a new sketch: k %d n %d samples %d", s.K(), s.N(), s.NumSamples())
	return s
}

func fill[T comparable](c *hk.C, s *sampling.ReservoirItemsSketch[T], b *bag[T], n int, item func(*rand.Rand) T) {
	for i := 0; i < n; i++ {
		v := item(c.R)
		c.NoErr(s.Update(v), "Update")
		b.add(v)
	}
}

func stream[T comparable](item func(*rand.Rand) T, serde common.ItemSketchSerde[T]) func(c *hk.C) {
	return func(c *hk.C) {
		k := pickK(c)
		s := newSketch[T](c, k)
		b := &bag[T]{order: true}
		c.Desc("stream, k=%d", k)
		for i, m := 0, 1+c.R.Intn(4); i < m; i++ {
			n := pickN(c, k)
			c.Desc("%d updates", n)
			fill(c, s, b, n, item)
			check(c, "stream", s, b)
			switch c.R.Intn(6) {
			case 0:
				c.Desc("reset")
				s.Reset()
				b = &bag[T]{order: true}
				check(c, "reset", s, b)
			case 1:
				c.Desc("copy")
				t := s.Copy()
				old := slices.Clone(s.Samples())
				n0 := s.N()
				fill(c, t, &bag[T]{}, pickN(c, k), item)
				c.Ok(s.N() == n0 && slices.Equal(old, s.Samples()), "updating a copy changed the original")
			case 2, 3:
				c.Desc("round trip")
				s = roundTrip(c, s, serde)
			case 4:
				truncated(c, s, serde)
			}
		}
		check(c, "stream end", s, b)
	}
}

func unions[T comparable](item func(*rand.Rand) T, serde common.ItemSketchSerde[T]) func(c *hk.C) {
	return func(c *hk.C) {
		r := c.R
		maxK := pickK(c)
		u, err := sampling.NewReservoirItemsUnion[T](maxK)
		c.NoErr(err, "NewReservoirItemsUnion")
		c.Ok(u.MaxK() == maxK, "MaxK")
		c.Desc("union, maxK=%d", maxK)
		b := &bag[T]{}
		small := maxK // smallest k that was in play
		type op struct {
			s   *sampling.ReservoirItemsSketch[T]
			smp []T
			n   int64
		}
		var ops []op
		any := false
		for i, m := 0, 1+r.Intn(6); i < m; i++ {
			switch x := r.Intn(12); {
			case x < 6:
				k := maxK
				if r.Intn(2) == 0 {
					k = pickK(c)
				}
				s := newSketch[T](c, k)
				sb := &bag[T]{}
				fill(c, s, sb, pickN(c, k), item)
				c.Desc("sketch k=%d n=%d", k, s.N())
				ops = append(ops, op{s, s.Samples(), s.N()})
				c.NoErr(u.UpdateSketch(s), "UpdateSketch")
				b.stream = append(b.stream, sb.stream...)
				b.n += sb.n
				any = true
				if s.N() > int64(k) {
					small = min(small, k)
				}
			case x < 8:
				n := pickN(c, maxK)
				c.Desc("%d items", n)
				for j := 0; j < n; j++ {
					v := item(r)
					c.NoErr(u.Update(v), "union Update")
					b.add(v)
					any = true
				}
			case x < 9:
				k := pickK(c)
				n := int64(pickN(c, k))
				l := min(n, int64(k))
				items := make([]T, l, l+int64(r.Intn(3)))
				for j := range items {
					items[j] = item(r)
				}
				if n > l {
					small = min(small, k)
				}
				c.Desc("raw n=%d k=%d", n, k)
				b.stream = append(b.stream, items...)
				for j := l; j < n; j++ {
					// the rest of that stream is unknown: stand-ins that are never held
				}
				b.n += n
				c.NoErr(u.UpdateFromRaw(n, k, items), "UpdateFromRaw")
				any = true
			case x < 10:
				c.Desc("nil sketch")
				c.NoErr(u.UpdateSketch(nil), "UpdateSketch(nil)")
			case x < 11:
				c.Desc("reset")
				u.Reset()
				b = &bag[T]{}
				if !any {
					small = maxK
				}
			default:
				c.Desc("round trip")
				img, err := u.ToSlice(serde)
				c.NoErr(err, "union ToSlice")
				v, err := sampling.NewReservoirItemsUnionFromSlice[T](img, serde)
				c.NoErr(err, "union FromSlice")
				c.Ok(v.MaxK() == maxK, "round trip: MaxK %d, want %d", v.MaxK(), maxK)
				if b.n == 0 {
					small, any = maxK, false
				}
				u = v
			}
			res, err := u.Result()
			c.NoErr(err, "Result")
			if res == nil {
				c.Ok(b.n == 0 && !any, "no result although %d items were seen", b.n)
				continue
			}
			c.Ok(res.K() <= maxK && res.K() >= small, "result k %d, maxK %d, smallest sampled operand %d", res.K(), maxK, small)
			check(c, fmt.Sprintf("union step %d", i+1), res, b)
			res.Update(item(r)) // the result is the caller's
			for _, o := range ops {
				c.Ok(o.s.N() == o.n && slices.Equal(o.s.Samples(), o.smp), "the union modified its operand (k %d)", o.s.K())
			}
		}
	}
}

func main() {
	long := func(r *rand.Rand) int64 {
		if r.Intn(3) == 0 {
			return int64(r.Intn(5))
		}
		return r.Int63() - r.Int63()
	}
	str := func(r *rand.Rand) string {
		b := make([]byte, r.Intn(9))
		for i := range b {
			b[i] = byte('a' + r.Intn(3))
		}
		return string(b)
	}
	dbl := func(r *rand.Rand) float64 { return math.Floor(r.NormFloat64() * 20) }
	hk.Main(func(h *hk.H) {
		h.Loop("stream-long", 20000, stream[int64](long, common.ItemSketchLongSerDe{}))
		h.Loop("stream-string", 10000, stream[string](str, common.ItemSketchStringSerDe{}))
		h.Loop("stream-double", 10000, stream[float64](dbl, common.ItemSketchDoubleSerDe{}))
		h.Loop("union-long", 20000, unions[int64](long, common.ItemSketchLongSerDe{}))
		h.Loop("union-string", 10000, unions[string](str, common.ItemSketchStringSerDe{}))
		h.Loop("reject", 1, func(c *hk.C) {
			for k := -3; k < 2; k++ {
				_, err := sampling.NewReservoirItemsSketch[int64](k)
				c.Ok(err != nil, "k=%d accepted", k)
			}
		})
		h.Bounded("streams of up to about 20000 items, capacities 2..101000, up to 6 union operands; the random choices of one run per case")
	})
}
