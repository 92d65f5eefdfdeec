// Concrete search for P08: KLL sketches conserve weight, extremes and state.
package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/verifharness/hk"
)

type kind[T comparable] struct {
	cmp   common.CompareFn[T]
	serde common.ItemSketchSerde[T]
	gen   func(r *rand.Rand, i, law int) T
}

type part[T comparable] struct {
	s   *kll.ItemsSketch[T]
	k   uint16
	in  map[T]int
	n   int
	min T
	max T
	// exact: only updates and merges of exact sketches, never more than k items
	exact bool
}

func (p *part[T]) add(v T, cmp common.CompareFn[T]) {
	if p.n == 0 || cmp(v, p.min) {
		p.min = v
	}
	if p.n == 0 || cmp(p.max, v) {
		p.max = v
	}
	p.in[v]++
	p.n++
	if p.n > int(p.k) {
		p.exact = false
	}
}

type ret[T comparable] struct {
	v T
	w int64
}

func retained[T comparable](s *kll.ItemsSketch[T]) []ret[T] {
	var out []ret[T]
	for it := s.GetIterator(); it.Next(); {
		out = append(out, ret[T]{it.GetQuantile(), it.GetWeight()})
	}
	return out
}

func check[T comparable](c *hk.C, what string, kd kind[T], p *part[T]) {
	s := p.s
	c.Ok(s.GetN() == uint64(p.n), "%s: n is %d after %d inputs", what, s.GetN(), p.n)
	c.Ok(s.IsEmpty() == (p.n == 0), "%s: IsEmpty %v after %d inputs", what, s.IsEmpty(), p.n)
	c.Ok(s.GetK() == p.k, "%s: k is %d, made with %d", what, s.GetK(), p.k)
	rs := retained(s)
	c.Ok(int(s.GetNumRetained()) == len(rs), "%s: GetNumRetained %d, iterator gave %d", what, s.GetNumRetained(), len(rs))
	var w int64
	cnt := map[T]int{}
	for _, r := range rs {
		w += r.w
		cnt[r.v]++
		c.Ok(r.w > 0 && r.w&(r.w-1) == 0, "%s: weight %d is not a power of two", what, r.w)
		c.Ok(cnt[r.v] <= p.in[r.v], "%s: %v retained %d times, put in %d times", what, r.v, cnt[r.v], p.in[r.v])
	}
	c.Ok(w == int64(p.n), "%s: retained weight %d after %d inputs", what, w, p.n)
	mn, err1 := s.GetMinItem()
	mx, err2 := s.GetMaxItem()
	c.Ok((err1 == nil) == (p.n > 0) && (err2 == nil) == (p.n > 0), "%s: GetMinItem/GetMaxItem errors %v %v after %d inputs", what, err1, err2, p.n)
	if p.n > 0 {
		c.Ok(p.in[mn] > 0 && !kd.cmp(p.min, mn) && !kd.cmp(mn, p.min), "%s: minimum %v, exact %v", what, mn, p.min)
		c.Ok(p.in[mx] > 0 && !kd.cmp(p.max, mx) && !kd.cmp(mx, p.max), "%s: maximum %v, exact %v", what, mx, p.max)
	}
	if p.exact {
		c.Ok(!s.IsEstimationMode(), "%s: estimation mode with %d inputs and k %d", what, p.n, p.k)
	}
	if p.exact || !s.IsEstimationMode() {
		for v, n := range p.in {
			c.Ok(cnt[v] == n, "%s: not in estimation mode, but %v is retained %d times and was put in %d times", what, v, cnt[v], n)
		}
	}
}

func image[T comparable](c *hk.C, what string, s *kll.ItemsSketch[T]) []byte {
	b, err := s.ToSlice()
	c.NoErr(err, "%s: ToSlice", what)
	sz, err := s.GetSerializedSizeBytes()
	c.Ok(err == nil && sz == len(b), "%s: GetSerializedSizeBytes %d (%v), image has %d bytes", what, sz, err, len(b))
	return b
}

func trip[T comparable](c *hk.C, what string, kd kind[T], s *kll.ItemsSketch[T]) *kll.ItemsSketch[T] {
	b := image(c, what, s)
	q, err := kll.NewKllItemsSketchFromSlice[T](b, kd.cmp, kd.serde)
	c.NoErr(err, "%s: reading back the image", what)
	same(c, what+" read back", s, q)
	b2 := image(c, what+" read back", q)
	c.Ok(bytes.Equal(b, b2), "%s: the image of the sketch read back differs", what)
	it := retained(s)
	n := 0
	for n < len(it) && it[n].w == 1 && (n == 0 || !kd.cmp(it[n].v, it[n-1].v)) {
		n++
	}
	if len(it) > 1 && (n == len(it) || it[n].w > 1) {
		// level zero happens to be in order: an image may say so
		b[3] |= 2
		q, err = kll.NewKllItemsSketchFromSlice[T](b, kd.cmp, kd.serde)
		c.NoErr(err, "%s: reading back the image marked as sorted", what)
		same(c, what+" read back", s, q)
	}
	return q
}

func same[T comparable](c *hk.C, what string, s, q *kll.ItemsSketch[T]) {
	c.Ok(s.GetN() == q.GetN() && s.GetK() == q.GetK() && s.GetNumRetained() == q.GetNumRetained() && s.IsEstimationMode() == q.IsEstimationMode() &&
		s.GetNormalizedRankError(true) == q.GetNormalizedRankError(true),
		"%s: n %d k %d retained %d est %v, now %d %d %d %v", what, s.GetN(), s.GetK(), s.GetNumRetained(), s.IsEstimationMode(), q.GetN(), q.GetK(), q.GetNumRetained(), q.IsEstimationMode())
	a, b := retained(s), retained(q)
	c.Ok(len(a) == len(b), "%s: %d items, now %d", what, len(a), len(b))
	for i := range a {
		c.Ok(a[i] == b[i], "%s: retained item %d was %v with weight %d, now %v with weight %d", what, i, a[i].v, a[i].w, b[i].v, b[i].w)
	}
	x, e1 := s.GetMinItem()
	y, e2 := q.GetMinItem()
	c.Ok(x == y && (e1 == nil) == (e2 == nil), "%s: minimum %v, now %v", what, x, y)
	x, e1 = s.GetMaxItem()
	y, e2 = q.GetMaxItem()
	c.Ok(x == y && (e1 == nil) == (e2 == nil), "%s: maximum %v, now %v", what, x, y)
}

var ks = []uint16{8, 9, 10, 16, 20, 33, 64, 200}
var ms = []uint8{2, 4, 6, 8}

func run[T comparable](c *hk.C, kd kind[T]) {
	r := c.R
	m := uint8(8)
	if r.Intn(3) == 0 {
		m = ms[r.Intn(len(ms))]
	}
	mk := func() *part[T] {
		k := ks[r.Intn(len(ks))]
		if r.Intn(4) == 0 {
			k = uint16(8 + r.Intn(60))
		}
		s, err := kll.NewKllItemsSketch[T](k, m, kd.cmp, kd.serde)
		c.NoErr(err, "NewKllItemsSketch(%d,%d)", k, m)
		return &part[T]{s: s, k: k, in: map[T]int{}, exact: true}
	}
	parts := []*part[T]{mk()}
	seq := 0
	for st, steps := 0, 4+r.Intn(9); st < steps; st++ {
		p := parts[r.Intn(len(parts))]
		switch op := r.Intn(12); {
		case op < 5:
			n := r.Intn(2 * int(p.k))
			switch r.Intn(5) {
			case 0:
				n = r.Intn(8)
			case 1: // up to exactly full, or one past
				n = max(0, int(p.k)-p.n+r.Intn(3)-1)
			case 2:
				n = r.Intn(12 * int(p.k))
				if c.Big {
					n = r.Intn(100 * int(p.k))
				}
			}
			law := r.Intn(4)
			c.Desc("%d updates, law %d", n, law)
			for i := 0; i < n; i++ {
				v := kd.gen(r, seq, law)
				seq++
				p.s.Update(v)
				p.add(v, kd.cmp)
				if n < 40 {
					check(c, "during stream", kd, p)
				}
			}
		case op < 6:
			parts = append(parts, mk())
			continue
		case op < 9:
			q := parts[r.Intn(len(parts))]
			if q == p {
				q = mk()
				parts = append(parts, q)
				for i, n := 0, r.Intn(6*int(q.k)); i < n; i++ {
					v := kd.gen(r, seq, 0)
					seq++
					q.s.Update(v)
					q.add(v, kd.cmp)
				}
			}
			c.Desc("merge of n=%d (k=%d) into n=%d (k=%d)", q.n, q.k, p.n, p.k)
			if r.Intn(2) == 0 && q.n > 0 {
				if _, err := q.s.GetSortedView(); err != nil {
					c.Failf("GetSortedView: %v", err)
				}
			}
			before := image(c, "merge source", q.s)
			p.s.Merge(q.s)
			after := image(c, "merge source after", q.s)
			c.Ok(bytes.Equal(before, after), "a merge changed its source")
			check(c, "merge source", kd, q)
			if q.n > 0 {
				exact := p.exact && q.exact && p.n+q.n <= int(p.k)
				for v, n := range q.in {
					p.in[v] += n
				}
				if p.n == 0 || kd.cmp(q.min, p.min) {
					p.min = q.min
				}
				if p.n == 0 || kd.cmp(p.max, q.max) {
					p.max = q.max
				}
				p.n += q.n
				p.exact = exact
			}
			// later updates of the target must not reach the source either
			if r.Intn(2) == 0 {
				for i, n := 0, r.Intn(3*int(p.k)); i < n; i++ {
					v := kd.gen(r, seq, 0)
					seq++
					p.s.Update(v)
					p.add(v, kd.cmp)
				}
				c.Ok(bytes.Equal(before, image(c, "merge source later", q.s)), "updating the target of a merge changed its source")
			}
		case op < 11:
			c.Desc("image of n=%d k=%d", p.n, p.k)
			q := trip(c, "image", kd, p.s)
			if r.Intn(2) == 0 {
				p.s = q
			}
		default:
			c.Desc("reset of n=%d k=%d", p.n, p.k)
			p.s.Reset()
			fresh, err := kll.NewKllItemsSketch[T](p.k, m, kd.cmp, kd.serde)
			c.NoErr(err, "NewKllItemsSketch")
			same(c, "reset", fresh, p.s)
			*p = part[T]{s: p.s, k: p.k, in: map[T]int{}, exact: true}
		}
		check(c, "after step", kd, p)
	}
	for _, p := range parts {
		check(c, "at the end", kd, p)
		trip(c, "last image", kd, p.s)
	}
}

func pick(r *rand.Rand, i, law int) int64 {
	switch law {
	case 1:
		return int64(-i)
	case 2:
		return r.Int63n(12)
	case 3:
		return r.Int63() - r.Int63()
	}
	return int64(i)
}

func main() {
	hk.Main(func(h *hk.H) {
		lg := func(r *rand.Rand, i, law int) int64 { return pick(r, i, law) }
		db := func(r *rand.Rand, i, law int) float64 { return float64(pick(r, i, law)) / 8 }
		st := func(r *rand.Rand, i, law int) string {
			v := pick(r, i, law)
			if v%11 == 0 {
				return ""
			}
			return fmt.Sprintf("%d-é", v)
		}
		h.Loop("longs", 12000, func(c *hk.C) {
			cmp := common.ItemSketchLongComparator(c.R.Intn(2) == 0)
			if c.R.Intn(3) == 0 { // ties between different items
				cmp = func(a, b int64) bool { return a/10 < b/10 }
			}
			run(c, kind[int64]{cmp, common.ItemSketchLongSerDe{}, lg})
		})
		h.Loop("doubles", 5000, func(c *hk.C) {
			run(c, kind[float64]{common.ItemSketchDoubleComparator(c.R.Intn(2) == 0), common.ItemSketchDoubleSerDe{}, db})
		})
		h.Loop("strings", 7000, func(c *hk.C) {
			run(c, kind[string]{common.ItemSketchStringComparator(c.R.Intn(2) == 0), common.ItemSketchStringSerDe{}, st})
		})
		h.Loop("large-k", 8, func(c *hk.C) {
			r := c.R
			k := uint16(20000 + r.Intn(45536))
			kd := kind[int64]{common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{}, lg}
			s, err := kll.NewKllItemsSketch[int64](k, 8, kd.cmp, kd.serde)
			c.NoErr(err, "NewKllItemsSketch(%d)", k)
			p := &part[int64]{s: s, k: k, in: map[int64]int{}, exact: true}
			n := int(k) + r.Intn(3*int(k))
			c.Desc("k %d, %d updates", k, n)
			for i := 0; i < n; i++ {
				p.s.Update(int64(i))
				p.add(int64(i), kd.cmp)
			}
			check(c, "large k", kd, p)
			trip(c, "large k", kd, p.s)
			// the level capacities of k 200 sketches imply about 3k retained items; far fewer means the capacities were miscomputed
			c.Ok(int(s.GetNumRetained()) >= int(k)/2, "k %d: only %d items retained of %d", k, s.GetNumRetained(), n)
		})
		h.Loop("constructor", 600, func(c *hk.C) {
			k, m := uint16(c.R.Intn(300)), uint8(c.R.Intn(256))
			if c.R.Intn(2) == 0 {
				m = uint8(c.R.Intn(12))
			}
			s, err := kll.NewKllItemsSketch[int64](k, m, common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{})
			if err != nil {
				c.Ok(k < 8 || k < uint16(m) || m > 8 || m < 2 || m%2 == 1, "NewKllItemsSketch(%d,%d) refused: %v", k, m, err)
				return
			}
			c.Desc("k %d m %d accepted", k, m)
			p := &part[int64]{s: s, k: k, in: map[int64]int{}, exact: true}
			for i := 0; i < 3*int(k)+50; i++ {
				s.Update(int64(i))
				p.add(int64(i), common.ItemSketchLongComparator(false))
			}
			kd := kind[int64]{common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{}, lg}
			check(c, "after stream", kd, p)
			trip(c, "image", kd, s)
		})
	})
}
