// Concrete search for P07: frequent-items sketches against exact counts.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/verifharness/hk"
)

// sk is what both sketch types offer, over an item type.
type sk[T comparable] interface {
	upd(T, int64) error
	est(T) (int64, error)
	lo(T) (int64, error)
	hi(T) (int64, error)
	maxErr() int64
	weight() int64
	active() int
	mapCap() int
	empty() bool
	rows(thr int64, set bool, negs bool) ([]row[T], error)
	merge(sk[T]) error
	image() (sk[T], []byte, error)
	text() (sk[T], error)
	reset() error
}
type row[T comparable] struct {
	it          T
	est, lo, hi int64
}

type longs struct{ s *frequencies.LongsSketch }

func (l *longs) upd(v, n int64) error {
	if n == 1 {
		return l.s.Update(v)
	}
	return l.s.UpdateMany(v, n)
}
func (l *longs) est(v int64) (int64, error) { return l.s.GetEstimate(v) }
func (l *longs) lo(v int64) (int64, error)  { return l.s.GetLowerBound(v) }
func (l *longs) hi(v int64) (int64, error)  { return l.s.GetUpperBound(v) }
func (l *longs) maxErr() int64              { return l.s.GetMaximumError() }
func (l *longs) weight() int64              { return l.s.GetStreamLength() }
func (l *longs) active() int                { return l.s.GetNumActiveItems() }
func (l *longs) mapCap() int                { return l.s.GetMaximumMapCapacity() }
func (l *longs) empty() bool                { return l.s.IsEmpty() }
func (l *longs) reset() error               { l.s.Reset(); return nil }
func (l *longs) rows(thr int64, set bool, negs bool) ([]row[int64], error) {
	et := frequencies.ErrorTypeEnum.NoFalsePositives
	if negs {
		et = frequencies.ErrorTypeEnum.NoFalseNegatives
	}
	var rs []*frequencies.Row
	var err error
	if set {
		rs, err = l.s.GetFrequentItemsWithThreshold(thr, et)
	} else {
		rs, err = l.s.GetFrequentItems(et)
	}
	var out []row[int64]
	for _, r := range rs {
		out = append(out, row[int64]{r.GetItem(), r.GetEstimate(), r.GetLowerBound(), r.GetUpperBound()})
	}
	return out, err
}
func (l *longs) merge(o sk[int64]) error {
	r, err := l.s.Merge(o.(*longs).s)
	if err == nil && r != l.s {
		return fmt.Errorf("Merge did not return the receiver")
	}
	return err
}
func (l *longs) image() (sk[int64], []byte, error) {
	b := l.s.ToSlice()
	r, err := frequencies.NewLongsSketchFromSlice(b)
	if err != nil {
		return nil, b, err
	}
	if n := l.s.GetStorageBytes(); n != len(b) {
		return nil, b, fmt.Errorf("GetStorageBytes %d, image has %d bytes", n, len(b))
	}
	return &longs{r}, b, nil
}
func (l *longs) text() (sk[int64], error) {
	t, err := l.s.ToString()
	if err != nil {
		return nil, err
	}
	r, err := frequencies.NewLongsSketchFromString(t)
	if err != nil {
		return nil, fmt.Errorf("%w (text %.200q)", err, t)
	}
	return &longs{r}, nil
}

type items[T comparable] struct {
	s *frequencies.ItemsSketch[T]
	h common.ItemSketchHasher[T]
	d common.ItemSketchSerde[T]
}

func (l *items[T]) upd(v T, n int64) error {
	if n == 1 {
		return l.s.Update(v)
	}
	return l.s.UpdateMany(v, n)
}
func (l *items[T]) est(v T) (int64, error) { return l.s.GetEstimate(v) }
func (l *items[T]) lo(v T) (int64, error)  { return l.s.GetLowerBound(v) }
func (l *items[T]) hi(v T) (int64, error)  { return l.s.GetUpperBound(v) }
func (l *items[T]) maxErr() int64          { return l.s.GetMaximumError() }
func (l *items[T]) weight() int64          { return l.s.GetStreamLength() }
func (l *items[T]) active() int            { return l.s.GetNumActiveItems() }
func (l *items[T]) mapCap() int            { return l.s.GetMaximumMapCapacity() }
func (l *items[T]) empty() bool            { return l.s.IsEmpty() }
func (l *items[T]) reset() error           { return l.s.Reset() }
func (l *items[T]) rows(thr int64, set bool, negs bool) ([]row[T], error) {
	et := frequencies.ErrorTypeEnum.NoFalsePositives
	if negs {
		et = frequencies.ErrorTypeEnum.NoFalseNegatives
	}
	var rs []*frequencies.RowItem[T]
	var err error
	if set {
		rs, err = l.s.GetFrequentItemsWithThreshold(thr, et)
	} else {
		rs, err = l.s.GetFrequentItems(et)
	}
	var out []row[T]
	for _, r := range rs {
		out = append(out, row[T]{r.GetItem(), r.GetEstimate(), r.GetLowerBound(), r.GetUpperBound()})
	}
	return out, err
}
func (l *items[T]) merge(o sk[T]) error {
	r, err := l.s.Merge(o.(*items[T]).s)
	if err == nil && r != l.s {
		return fmt.Errorf("Merge did not return the receiver")
	}
	return err
}
func (l *items[T]) image() (sk[T], []byte, error) {
	b, err := l.s.ToSlice()
	if err != nil {
		return nil, nil, err
	}
	r, err := frequencies.NewFrequencyItemsSketchFromSlice[T](b, l.h, l.d)
	if err != nil {
		return nil, b, err
	}
	return &items[T]{r, l.h, l.d}, b, nil
}
func (l *items[T]) text() (sk[T], error) { return nil, nil }

// truth is the exact side: counts, and the smallest configured table a part of the stream went through.
type truth[T comparable] struct {
	n    map[T]int64
	keys []T
	w    int64
	lg   int
}

func newTruth[T comparable](lg int) *truth[T] { return &truth[T]{n: map[T]int64{}, lg: max(lg, 3)} }
func (t *truth[T]) add(v T, n int64) {
	if _, ok := t.n[v]; !ok {
		t.keys = append(t.keys, v)
	}
	t.n[v] += n
	t.w += n
}
func (t *truth[T]) merge(o *truth[T]) {
	for _, k := range o.keys {
		t.add(k, o.n[k])
	}
	t.lg = min(t.lg, o.lg)
}
func (t *truth[T]) clone() *truth[T] {
	r := newTruth[T](t.lg)
	r.merge(t)
	return r
}

func check[T comparable](c *hk.C, what string, s sk[T], t *truth[T], strangers []T) {
	e := s.maxErr()
	c.Ok(s.weight() == t.w, "%s: stream weight %d, exact %d", what, s.weight(), t.w)
	c.Ok(e >= 0, "%s: maximum error %d", what, e)
	c.Ok(t.w > 0 || (s.active() == 0 && e == 0 && s.empty()), "%s: nothing was added, %d active items, error %d", what, s.active(), e)
	c.Ok(float64(e) <= 3.5/float64(int64(1)<<t.lg)*float64(t.w), "%s: maximum error %d exceeds the a-priori error %v of weight %d and map size 2^%d", what, e, 3.5/float64(int64(1)<<t.lg)*float64(t.w), t.w, t.lg)
	tracked := 0
	look := func(v T, n int64) {
		lo, err := s.lo(v)
		c.NoErr(err, "%s: GetLowerBound(%v)", what, v)
		hi, err := s.hi(v)
		c.NoErr(err, "%s: GetUpperBound(%v)", what, v)
		es, err := s.est(v)
		c.NoErr(err, "%s: GetEstimate(%v)", what, v)
		c.Ok(lo <= n && n <= hi, "%s: item %v has count %d, bounds [%d,%d], maximum error %d", what, v, n, lo, hi, e)
		c.Ok(hi-lo <= e, "%s: item %v bounds [%d,%d] differ by more than the maximum error %d", what, v, lo, hi, e)
		c.Ok(lo <= es && es <= hi, "%s: item %v estimate %d outside [%d,%d]", what, v, es, lo, hi)
		if lo > 0 {
			tracked++
		}
	}
	for _, v := range t.keys {
		look(v, t.n[v])
	}
	for _, v := range strangers {
		if _, ok := t.n[v]; !ok {
			look(v, 0)
		}
	}
	c.Ok(tracked == s.active(), "%s: %d items have a positive lower bound, %d active", what, tracked, s.active())
	var thr []int64
	cs := make([]int64, 0, len(t.keys))
	for _, v := range t.keys {
		cs = append(cs, t.n[v])
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	if len(cs) > 0 {
		p := cs[c.R.Intn(len(cs))]
		thr = append(thr, p, p-1, p+1, cs[len(cs)-1])
	}
	thr = append(thr, 0, e, e+1, t.w+1, -1)
	for i := -1; i < len(thr); i++ {
		th := e
		if i >= 0 {
			th = thr[i]
		}
		lim := max(th, e)
		for _, negs := range []bool{false, true} {
			rs, err := s.rows(th, i >= 0, negs)
			c.NoErr(err, "%s: frequent items", what)
			in := map[T]bool{}
			for j, r := range rs {
				c.Ok(!in[r.it], "%s: item %v reported twice", what, r.it)
				in[r.it] = true
				lo, _ := s.lo(r.it)
				hi, _ := s.hi(r.it)
				es, _ := s.est(r.it)
				c.Ok(r.lo == lo && r.hi == hi && r.est == es, "%s: row (%v est %d lo %d hi %d), direct queries %d %d %d", what, r.it, r.est, r.lo, r.hi, es, lo, hi)
				c.Ok(j == 0 || rs[j-1].est >= r.est, "%s: rows not in descending order of estimate", what)
				if negs {
					c.Ok(r.hi >= lim, "%s: NoFalseNegatives(%d) reports %v whose upper bound is %d", what, th, r.it, r.hi)
				} else {
					c.Ok(t.n[r.it] >= lim, "%s: NoFalsePositives(%d) reports %v whose count is %d", what, th, r.it, t.n[r.it])
				}
			}
			for _, v := range t.keys {
				if negs {
					c.Ok(t.n[v] <= lim || in[v], "%s: NoFalseNegatives(threshold %d, maximum error %d) misses %v with count %d", what, th, e, v, t.n[v])
				} else if lo, _ := s.lo(v); lo >= lim && lo > 0 {
					c.Ok(in[v], "%s: NoFalsePositives(%d) misses %v with lower bound %d", what, th, v, lo)
				}
			}
		}
	}
}

func same[T comparable](c *hk.C, what string, a, b sk[T], keys []T) {
	c.Ok(a.weight() == b.weight() && a.maxErr() == b.maxErr() && a.active() == b.active() && a.mapCap() == b.mapCap() && a.empty() == b.empty(),
		"%s: weight %d error %d active %d capacity %d empty %v, read back %d %d %d %d %v", what, a.weight(), a.maxErr(), a.active(), a.mapCap(), a.empty(), b.weight(), b.maxErr(), b.active(), b.mapCap(), b.empty())
	for _, v := range keys {
		x, _ := a.lo(v)
		y, err := b.lo(v)
		c.Ok(err == nil && x == y, "%s: lower bound of %v was %d, read back %d (%v)", what, v, x, y, err)
	}
}

type gen[T comparable] func(r *rand.Rand, i int) T

func weightOf(r *rand.Rand, mode int) int64 {
	switch mode {
	case 0:
		return 1
	case 1:
		return 1 + r.Int63n(5)
	case 2:
		return int64(math.Exp(r.Float64() * 20))
	}
	if r.Intn(10) == 0 {
		return 1 + r.Int63n(1<<40)
	}
	return 1
}

func run[T comparable](c *hk.C, mk func(lg int) (sk[T], error), g gen[T]) {
	r := c.R
	type part struct {
		s sk[T]
		t *truth[T]
	}
	mkPart := func() *part {
		lg := 3 + r.Intn(4)
		if c.Big {
			lg = 3 + r.Intn(8)
		}
		if r.Intn(12) == 0 {
			lg = r.Intn(3)
		}
		s, err := mk(lg)
		c.NoErr(err, "constructor lgMax %d", lg)
		return &part{s, newTruth[T](lg)}
	}
	var strangers []T
	for i := 0; i < 5; i++ {
		strangers = append(strangers, g(r, 1000000+r.Intn(1000000)))
	}
	parts := []*part{mkPart()}
	steps := 3 + r.Intn(6)
	for st := 0; st < steps; st++ {
		p := parts[r.Intn(len(parts))]
		switch op := r.Intn(12); {
		case op < 6:
			univ := 1 + r.Intn(4<<p.t.lg)
			n := r.Intn(3 << p.t.lg)
			switch r.Intn(4) {
			case 0:
				n = r.Intn(12 << p.t.lg)
			case 1: // exactly at and just past the load limit
				n = 3<<p.t.lg/4 + r.Intn(3) - 1
				univ = n
			}
			wm, dist := r.Intn(4), r.Intn(3)
			c.Desc("stream of %d over %d items, weights %d, law %d", n, univ, wm, dist)
			for i := 0; i < n; i++ {
				j := i % max(univ, 1)
				switch dist {
				case 1:
					j = r.Intn(max(univ, 1))
				case 2:
					j = int(float64(univ) * math.Pow(r.Float64(), 4))
				}
				v, w := g(r, j), weightOf(r, wm)
				c.NoErr(p.s.upd(v, w), "update(%v,%d)", v, w)
				p.t.add(v, w)
				if n < 40 {
					check(c, "during stream", p.s, p.t, strangers[:1])
				}
			}
			c.NoErr(p.s.upd(g(r, 3), 0), "zero count")
			c.Ok(p.s.upd(g(r, 3), -1-r.Int63n(5)) != nil, "negative count accepted")
		case op < 8:
			if len(parts) < 5 {
				parts = append(parts, mkPart())
				c.Desc("new part lg %d", parts[len(parts)-1].t.lg)
			}
		case op < 10:
			q := parts[r.Intn(len(parts))]
			if q == p {
				continue
			}
			c.Desc("merge (weight %d, active %d) into (weight %d, active %d)", q.s.weight(), q.s.active(), p.s.weight(), p.s.active())
			before := q.t.clone()
			c.NoErr(p.s.merge(q.s), "merge")
			p.t.merge(q.t)
			check(c, "merge operand", q.s, before, strangers)
		case op < 11:
			c.Desc("image round trip (weight %d active %d)", p.s.weight(), p.s.active())
			n, b, err := p.s.image()
			c.NoErr(err, "image (%d bytes)", len(b))
			same(c, "image", p.s, n, p.t.keys)
			p.s = n
		default:
			if r.Intn(3) == 0 {
				c.NoErr(p.s.reset(), "reset")
				p.t = newTruth[T](p.t.lg)
				c.Desc("reset")
				break
			}
			n, err := p.s.text()
			c.NoErr(err, "text round trip")
			if n != nil {
				c.Desc("text round trip (weight %d active %d)", p.s.weight(), p.s.active())
				same(c, "text", p.s, n, p.t.keys)
				p.s = n
			}
		}
		check(c, "after step", p.s, p.t, strangers)
	}
	all := parts[0]
	for _, q := range parts[1:] {
		c.NoErr(all.s.merge(q.s), "final merge")
		all.t.merge(q.t)
	}
	check(c, "all merged", all.s, all.t, strangers)
}

func hash64(k uint64) uint64 {
	k ^= k >> 33
	k *= 0xff51afd7ed558ccd
	k ^= k >> 33
	k *= 0xc4ceb9fe1a85ec53
	return k ^ k>>33
}

type clustered struct{ m uint64 }

func (h clustered) Hash(v int64) uint64 { return uint64(v) % h.m }

func main() {
	hk.Main(func(h *hk.H) {
		h.Bounded("frequencies: LongsSketch and ItemsSketch over random streams, merges (also of different sizes), byte images and text images against exact counts; map sizes 2^3..2^6 (2^10 in long cases), weights up to 2^40, items negative and extreme")
		h.Loop("longs", 5000, func(c *hk.C) {
			base := []int64{0, -1 << 62, math.MaxInt64 - 3000000, math.MinInt64, -7}[c.R.Intn(5)]
			mul := []int64{1, 1, 8, 1024, 1 << 20}[c.R.Intn(5)]
			run(c, func(lg int) (sk[int64], error) {
				var s *frequencies.LongsSketch
				var err error
				if lg >= 3 && c.R.Intn(2) == 0 {
					s, err = frequencies.NewLongsSketchWithMaxMapSize(1 << lg)
				} else {
					s, err = frequencies.NewLongsSketch(lg, c.R.Intn(max(lg, 3)+1))
				}
				return &longs{s}, err
			}, func(_ *rand.Rand, i int) int64 { return base + int64(i)*mul })
		})
		h.Loop("items-long", 3000, func(c *hk.C) {
			var hs common.ItemSketchHasher[int64] = common.ItemSketchLongHasher{}
			if c.R.Intn(3) == 0 {
				hs = clustered{[]uint64{1, 3, 7, 1 << 40}[c.R.Intn(4)]}
			}
			run(c, func(lg int) (sk[int64], error) {
				s, err := frequencies.NewFrequencyItemsSketch[int64](lg, c.R.Intn(max(lg, 3)+1), hs, common.ItemSketchLongSerDe{})
				return &items[int64]{s, hs, common.ItemSketchLongSerDe{}}, err
			}, func(_ *rand.Rand, i int) int64 { return int64(i) - 3 })
		})
		h.Loop("items-string", 3000, func(c *hk.C) {
			hs, d := common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{}
			run(c, func(lg int) (sk[string], error) {
				s, err := frequencies.NewFrequencyItemsSketchWithMaxMapSize[string](1<<max(lg, 3), hs, d)
				return &items[string]{s, hs, d}, err
			}, func(_ *rand.Rand, i int) string { return fmt.Sprintf("item-%d-é", i) })
		})
	})
}
