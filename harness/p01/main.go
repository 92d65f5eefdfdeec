// Concrete search for P01: rank and quantile queries of sorted views.
package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/apache/datasketches-go/common"
	cq "github.com/apache/datasketches-go/common/quantiles"
	"github.com/apache/datasketches-go/internal"
	iq "github.com/apache/datasketches-go/internal/quantiles"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	"github.com/apache/datasketches-go/verifharness/hk"
)

type view[T any] struct {
	q   []T
	cum []int64
	n   int64
	lt  func(a, b T) bool
}

func (v view[T]) rank(x T, incl bool) float64 {
	var w int64
	for i := range v.q {
		if incl && !v.lt(x, v.q[i]) || !incl && v.lt(v.q[i], x) {
			w = v.cum[i]
		}
	}
	return float64(w) / float64(v.n)
}

// quantile for an integer natural rank
func (v view[T]) quantile(nr int64, incl bool) T {
	for i := range v.q {
		if incl && v.cum[i] >= nr || !incl && v.cum[i] > nr {
			return v.q[i]
		}
	}
	return v.q[len(v.q)-1]
}

// naturalRank computes the natural rank the documentation promises; ok is false
// when floating point makes it ambiguous.
func naturalRank(r float64, n int64, incl bool) (int64, bool) {
	p := r * float64(n)
	k := math.Round(p)
	if math.Abs(p-k) < 1e-9*math.Max(1, p) && n < 1_000_000 {
		return int64(k), true
	}
	if math.Abs(p-k) < 1e-5 {
		return 0, false
	}
	if incl {
		return int64(math.Ceil(p)), true
	}
	return int64(math.Floor(p)), true
}

type api[T any] struct {
	rank     func(x T, incl bool) (float64, error)
	quantile func(r float64, incl bool) (T, error)
	cdf, pmf func(sp []T, incl bool) ([]float64, error)
}

func check[T comparable](c *hk.C, v view[T], a api[T], xs []T) {
	for _, incl := range []bool{true, false} {
		for _, x := range xs {
			g, err := a.rank(x, incl)
			c.NoErr(err, "Rank(%v,%v)", x, incl)
			c.Ok(g == v.rank(x, incl), "Rank(%v, inclusive=%v) = %v, the retained items say %v (quantiles %v, cumulative weights %v)", x, incl, g, v.rank(x, incl), short(v.q), short(v.cum))
		}
		var rs []float64
		rs = append(rs, 0, 1, 0.5, 1e-9, 1-1e-12)
		for i := 0; i < 12; i++ {
			rs = append(rs, float64(c.R.Int63n(v.n+1))/float64(v.n), c.R.Float64())
			j := c.R.Intn(len(v.cum))
			rs = append(rs, float64(v.cum[j])/float64(v.n))
		}
		for _, r := range rs {
			g, err := a.quantile(r, incl)
			c.NoErr(err, "Quantile(%v,%v)", r, incl)
			if nr, ok := naturalRank(r, v.n, incl); ok {
				w := v.quantile(nr, incl)
				c.Ok(g == w, "Quantile(%v, inclusive=%v) = %v, want %v (natural rank %d of %d; quantiles %v, cumulative weights %v)", r, incl, g, w, nr, v.n, short(v.q), short(v.cum))
			}
		}
		sp := append([]T{}, xs...)
		sort.Slice(sp, func(i, j int) bool { return v.lt(sp[i], sp[j]) })
		var u []T
		for i, x := range sp {
			if i == 0 || v.lt(sp[i-1], x) {
				u = append(u, x)
			}
		}
		if len(u) == 0 {
			continue
		}
		u = u[:1+c.R.Intn(len(u))]
		keep := append([]T{}, u...)
		cdf, err := a.cdf(u, incl)
		c.NoErr(err, "CDF")
		pmf, err := a.pmf(u, incl)
		c.NoErr(err, "PMF")
		c.Ok(len(cdf) == len(u)+1 && len(pmf) == len(u)+1, "CDF/PMF lengths %d %d for %d split points", len(cdf), len(pmf), len(u))
		prev := 0.0
		for i := range cdf {
			want := 1.0
			if i < len(u) {
				want = v.rank(u[i], incl)
			}
			c.Ok(cdf[i] == want, "CDF[%d] = %v, want %v", i, cdf[i], want)
			c.Ok(pmf[i] == want-prev, "PMF[%d] = %v, want %v", i, pmf[i], want-prev)
			prev = want
		}
		for i := range u {
			c.Ok(u[i] == keep[i], "the caller's split points changed")
		}
		if len(u) > 1 {
			u[0], u[1] = u[1], u[0]
			_, e1 := a.cdf(u, incl)
			_, e2 := a.pmf(u, incl)
			c.Ok(e1 != nil && e2 != nil, "decreasing split points accepted")
			u[0] = u[1]
			_, e1 = a.cdf(u, incl)
			_, e2 = a.pmf(u, incl)
			c.Ok(e1 != nil && e2 != nil, "duplicate split points accepted")
		}
	}
	for _, r := range []float64{-0.001, 1.001, -1, 2, math.Inf(1), math.Inf(-1)} {
		_, err := a.quantile(r, true)
		c.Ok(err != nil, "Quantile(%v) accepted", r)
	}
}

func short[T any](s []T) string {
	if len(s) > 24 {
		return fmt.Sprintf("%v...(%d)", s[:24], len(s))
	}
	return fmt.Sprint(s)
}

func randView[T cq.Number](c *hk.C, conv func(int) T) (q []T, cum []int64) {
	n := 1 + c.R.Intn(12)
	if c.R.Intn(10) == 0 {
		n = 1 + c.R.Intn(300)
	}
	span := 1 + c.R.Intn(2*n+3)
	vals := make([]int, n)
	for i := range vals {
		vals[i] = c.R.Intn(span) - span/2
	}
	sort.Ints(vals)
	var t int64
	mw := int64(1 + c.R.Intn(9))
	if c.R.Intn(12) == 0 {
		mw = 1 << 30
	}
	for i := range vals {
		q = append(q, conv(vals[i]))
		t += 2 + c.R.Int63n(mw)
		cum = append(cum, t)
	}
	return
}

func numeric[T cq.Number](h *hk.H, name string, conv func(int) T) {
	h.Loop("view-"+name, 6000, func(c *hk.C) {
		q, cum := randView(c, conv)
		n := cum[len(cum)-1]
		mn, mx := q[0], q[len(q)-1]
		if c.R.Intn(3) == 0 {
			mn = conv(-2000 - c.R.Intn(3))
		}
		if c.R.Intn(3) == 0 {
			mx = conv(2000 + c.R.Intn(3))
		}
		if len(q) == 1 && mn != q[0] && mx != q[0] {
			mn = q[0]
		}
		c.Desc("NewNumericSortedView(%v, %v, n=%d, max=%v, min=%v)", q, cum, n, mx, mn)
		qc, cc := append([]T{}, q...), append([]int64{}, cum...)
		s := cq.NewNumericSortedView(qc, cc, n, mx, mn)
		// oracle for the min/max inclusion
		wq, wc := append([]T{}, q...), append([]int64{}, cum...)
		if mn != q[0] {
			wq = append([]T{mn}, wq...)
			wc = append([]int64{1}, wc...)
		}
		if mx != q[len(q)-1] {
			wq = append(wq, mx)
			wc = append(wc, wc[len(wc)-1])
			wc[len(wc)-2]--
		}
		v := view[T]{wq, wc, n, func(a, b T) bool { return a < b }}
		gq, gc := s.Quantiles(), s.CumulativeWeights()
		c.Ok(len(gq) == len(wq) && len(gc) == len(wc), "view sizes %d %d, want %d", len(gq), len(gc), len(wq))
		for i := range wq {
			c.Ok(gq[i] == wq[i] && gc[i] == wc[i], "view entry %d is (%v,%d), want (%v,%d)", i, gq[i], gc[i], wq[i], wc[i])
		}
		for i := range gq { // the copies must not be the view's own storage
			gq[i], gc[i] = conv(77), -5
		}
		var xs []T
		for i := 0; i < 10; i++ {
			xs = append(xs, conv(c.R.Intn(40)-20), wq[c.R.Intn(len(wq))])
		}
		xs = append(xs, mn, mx, conv(-3000), conv(3000))
		check(c, v, api[T]{s.Rank, s.Quantile, s.CDF, s.PMF}, xs)
		a, e1 := s.MinItem()
		b, e2 := s.MaxItem()
		c.Ok(e1 == nil && e2 == nil && a == mn && b == mx && s.N() == n && s.NumRetained() == len(wq) && !s.IsEmpty(), "min %v max %v n %d retained %d", a, b, s.N(), s.NumRetained())
		it := s.Iterator()
		_, err := it.Quantile()
		c.Ok(err != nil, "iterator readable before Next")
		c.Ok(it.N() == n, "iterator N %d", it.N())
		for i := range wq {
			c.Ok(it.Next(), "iterator ends after %d of %d", i, len(wq))
			var prev int64
			if i > 0 {
				prev = wc[i-1]
			}
			qq, e0 := it.Quantile()
			w, e1 := it.Weight()
			r, e2 := it.NaturalRank()
			ri, e3 := it.NaturalRankWithCriterion(true)
			re, e4 := it.NaturalRankWithCriterion(false)
			ni, e5 := it.NormalizedRankWithCriterion(true)
			ne, e6 := it.NormalizedRankWithCriterion(false)
			nn, e7 := it.NormalizedRank()
			for _, e := range []error{e0, e1, e2, e3, e4, e5, e6, e7} {
				c.NoErr(e, "iterator")
			}
			c.Ok(qq == wq[i] && w == wc[i]-prev && r == wc[i] && ri == wc[i] && re == prev && nn == float64(wc[i])/float64(n) && ni == nn && ne == float64(prev)/float64(n),
				"iterator at %d: quantile %v weight %d ranks %d %d %d %v %v %v", i, qq, w, r, ri, re, nn, ni, ne)
		}
		c.Ok(!it.Next(), "iterator does not end")
		_, err = it.Weight()
		c.Ok(err != nil, "iterator readable after the end")
		_, err = s.CDF([]T{conv(3), conv(2)}, true)
		c.Ok(err != nil, "unordered split points accepted")
	})
}

func main() {
	hk.Main(func(h *hk.H) {
		h.Bounded("views of at most 302 items; sketches of at most 20000 updates; random sampling with the given seed")
		h.Loop("search", 20000, func(c *hk.C) {
			n := 1 + c.R.Intn(9)
			if c.R.Intn(8) == 0 {
				n = 1 + c.R.Intn(200)
			}
			a := make([]int, n)
			for i := range a {
				a[i] = c.R.Intn(n + 2)
			}
			sort.Ints(a)
			lo := c.R.Intn(n)
			hi := lo + c.R.Intn(n-lo)
			v := c.R.Intn(n+5) - 2
			c.Desc("arr=%v low=%d high=%d v=%d", a, lo, hi, v)
			for _, cr := range []internal.Inequality{internal.InequalityLT, internal.InequalityLE, internal.InequalityGE, internal.InequalityGT} {
				g, err := internal.FindWithInequality(a, lo, hi, v, cr, func(x, y int) bool { return x < y })
				c.NoErr(err, "FindWithInequality")
				w := -1
				for i := lo; i <= hi; i++ {
					switch {
					case cr == internal.InequalityLT && a[i] < v, cr == internal.InequalityLE && a[i] <= v:
						w = i
					case w == -1 && (cr == internal.InequalityGE && a[i] >= v || cr == internal.InequalityGT && a[i] > v):
						w = i
					}
				}
				c.Ok(g == w, "criterion %d: index %d, want %d", cr, g, w)
			}
		})
		numeric(h, "int64", func(i int) int64 { return int64(i) })
		numeric(h, "float64", func(i int) float64 { return float64(i) / 4 })
		numeric(h, "float32", func(i int) float32 { return float32(i) / 2 })
		h.Loop("natural-rank", 4000, func(c *hk.C) {
			n := uint64(1 + c.R.Intn(1000000))
			j := uint64(c.R.Int63n(int64(n) + 1))
			c.Desc("ComputeNaturalRank(%d/%d)", j, n)
			for _, incl := range []bool{true, false} {
				g := iq.ComputeNaturalRank(float64(j)/float64(n), n, incl)
				c.Ok(g == int64(j), "ComputeNaturalRank(%d/%d, %d, %v) = %d", j, n, n, incl, g)
			}
			vs := []float64{}
			for i := 0; i < c.R.Intn(5); i++ {
				vs = append(vs, float64(c.R.Intn(6)))
				if c.R.Intn(20) == 0 {
					vs[i] = math.NaN()
				}
			}
			want := true
			for i := range vs {
				if vs[i] != vs[i] || i > 0 && !(vs[i-1] < vs[i]) {
					want = false
				}
			}
			c.Ok((iq.ValidateSplitPoints(vs) == nil) == want, "ValidateSplitPoints(%v) accepts=%v", vs, !want)
		})
		h.Loop("kll", 1200, func(c *hk.C) {
			kllCase(c, common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{}, func(i int) int64 { return int64(i) })
		})
		h.Loop("kll-reverse", 300, func(c *hk.C) {
			kllCase(c, common.ItemSketchLongComparator(true), common.ItemSketchLongSerDe{}, func(i int) int64 { return int64(i) })
		})
		h.Loop("kll-string", 400, func(c *hk.C) {
			kllCase(c, common.ItemSketchStringComparator(false), common.ItemSketchStringSerDe{}, func(i int) string { return fmt.Sprintf("%06d", i+1000) })
		})
		h.Loop("req", 700, reqCase)
	})
}

func kllCase[T comparable](c *hk.C, lt common.CompareFn[T], sd common.ItemSketchSerde[T], conv func(int) T) {
	k := uint16(8 + c.R.Intn(60))
	n := 1 + c.R.Intn(60)
	if c.R.Intn(2) == 0 {
		n = 1 + c.R.Intn(3000)
	}
	s, err := kll.NewKllItemsSketch[T](k, 8, lt, sd)
	c.NoErr(err, "new")
	span := 1 + c.R.Intn(2*n)
	c.Desc("kll k=%d n=%d items from 0..%d", k, n, span)
	for i := 0; i < n; i++ {
		s.Update(conv(c.R.Intn(span)))
		if c.R.Intn(200) == 0 { // queries between updates must not disturb later ones
			_, err := s.GetRank(conv(c.R.Intn(span)), true)
			c.NoErr(err, "rank")
		}
	}
	type iw struct {
		x T
		w int64
	}
	var items []iw
	it := s.GetIterator()
	for it.Next() {
		items = append(items, iw{it.GetQuantile(), it.GetWeight()})
	}
	sort.SliceStable(items, func(i, j int) bool { return lt(items[i].x, items[j].x) })
	v := view[T]{lt: lt, n: int64(n)}
	var t int64
	for _, e := range items {
		t += e.w
		v.q = append(v.q, e.x)
		v.cum = append(v.cum, t)
	}
	c.Ok(t == int64(n), "weights sum to %d, n is %d", t, n)
	var xs []T
	for i := 0; i < 15; i++ {
		xs = append(xs, conv(c.R.Intn(span+4)-2))
	}
	if c.R.Intn(2) == 0 { // asking for partition boundaries must not disturb later answers
		np := 1 + c.R.Intn(5)
		incl := c.R.Intn(2) == 0
		c.Desc("GetPartitionBoundaries(%d, %v) first", np, incl)
		_, err := s.GetPartitionBoundaries(np, incl)
		c.NoErr(err, "partition boundaries")
	}
	check(c, v, api[T]{s.GetRank, s.GetQuantile, s.GetCDF, s.GetPMF}, xs)
	sv, err := s.GetSortedView()
	c.NoErr(err, "sorted view")
	vi := sv.Iterator()
	for i := range v.q {
		c.Ok(vi.Next(), "sorted view ends early")
		var prev int64
		if i > 0 {
			prev = v.cum[i-1]
		}
		c.Ok(vi.GetQuantile() == v.q[i], "sorted view item %d", i)
		c.Ok(vi.GetNaturalRank(true)-vi.GetNaturalRank(false) == vi.GetWeight() && vi.GetNaturalRank(false) == prev || i > 0 && v.q[i-1] == v.q[i] || i+1 < len(v.q) && v.q[i+1] == v.q[i],
			"sorted view rank at %d: %d %d weight %d, want before %d", i, vi.GetNaturalRank(true), vi.GetNaturalRank(false), vi.GetWeight(), prev)
		c.Ok(vi.GetNormalizedRank(true) == float64(vi.GetNaturalRank(true))/float64(n), "normalized rank")
	}
	c.Ok(!vi.Next(), "sorted view too long")
	rs := []float64{0, 0.25, 0.5, 1}
	qs, err := s.GetQuantiles(rs, true)
	c.NoErr(err, "quantiles")
	for i, r := range rs {
		q, _ := s.GetQuantile(r, true)
		c.Ok(q == qs[i], "GetQuantiles[%d] differs from GetQuantile", i)
	}
	ra, err := s.GetRanks(xs, false)
	c.NoErr(err, "ranks")
	for i, x := range xs {
		r, _ := s.GetRank(x, false)
		c.Ok(r == ra[i], "GetRanks[%d] differs from GetRank", i)
	}
	// after one more update the answers must reflect it
	y := conv(span + 50)
	s.Update(y)
	mx, _ := s.GetMaxItem()
	mn, _ := s.GetMinItem()
	if lt(mn, mx) {
		c.Ok(mx == y || mn == y, "min/max after update")
	}
	n2 := s.GetN()
	sv, err = s.GetSortedView()
	c.NoErr(err, "sorted view 2")
	vi = sv.Iterator()
	var last int64
	for vi.Next() {
		last = vi.GetNaturalRank(true)
	}
	c.Ok(last == int64(n2) && n2 == uint64(n+1), "stale sorted view after an update: total %d, n %d", last, n2)
	// a merge, and a reset, must be reflected as well
	o, err := kll.NewKllItemsSketch[T](k, 8, lt, sd)
	c.NoErr(err, "new")
	m := c.R.Intn(40)
	for i := 0; i < m; i++ {
		o.Update(conv(c.R.Intn(span)))
	}
	total := func(s *kll.ItemsSketch[T]) (t int64) {
		sv, err := s.GetSortedView()
		c.NoErr(err, "sorted view")
		it := sv.Iterator()
		for it.Next() {
			t = it.GetNaturalRank(true)
		}
		return t
	}
	s.Merge(o)
	c.Ok(total(s) == int64(n2)+int64(m), "stale sorted view after a merge: total %d, n %d", total(s), s.GetN())
	r1, err := s.GetRank(y, true)
	c.NoErr(err, "rank")
	c.Ok(r1 == 1 || r1 == float64(1)/float64(n2) || !(mx == y), "rank of the maximum after a merge is %v", r1)
	s.Reset()
	for i := 0; i < 5; i++ {
		s.Update(conv(i))
	}
	c.Ok(total(s) == 5, "stale sorted view after a reset: total %d", total(s))
	for i := 0; i < 5; i++ {
		r, err := s.GetRank(conv(i), true)
		w := float64(i+1) / 5
		if lt(conv(1), conv(0)) {
			w = float64(5-i) / 5
		}
		c.Ok(err == nil && r == w, "rank after a reset: %v, want %v", r, w)
	}
}

func reqCase(c *hk.C) {
	k := 4 + 2*c.R.Intn(8)
	hra := c.R.Intn(2) == 0
	n := 1 + c.R.Intn(80)
	if c.R.Intn(2) == 0 {
		n = 1 + c.R.Intn(3000)
	}
	s, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra))
	c.NoErr(err, "new")
	span := 1 + c.R.Intn(2*n)
	c.Desc("req k=%d hra=%v n=%d items from 0..%d", k, hra, n, span)
	for i := 0; i < n; i++ {
		c.NoErr(s.Update(float32(c.R.Intn(span)+1)), "update")
		if c.R.Intn(200) == 0 {
			_, err := s.Rank(float32(c.R.Intn(span)))
			c.NoErr(err, "rank")
		}
	}
	sv, err := s.SortedView()
	c.NoErr(err, "sorted view")
	q, cum := sv.Quantiles(), sv.CumulativeWeights()
	for i := range q {
		c.Ok(i == 0 || q[i-1] <= q[i] && cum[i-1] <= cum[i], "view not sorted at %d", i)
	}
	c.Ok(cum[len(cum)-1] == int64(n), "view total %d, n %d", cum[len(cum)-1], n)
	v := view[float32]{q, cum, int64(n), func(a, b float32) bool { return a < b }}
	var xs []float32
	for i := 0; i < 15; i++ {
		xs = append(xs, float32(c.R.Intn(span+4)-1))
	}
	opt := func(incl bool) []req.SearchCriteriaOptionFunc {
		if incl {
			return nil
		}
		return []req.SearchCriteriaOptionFunc{req.WithExclusiveSearch()}
	}
	check(c, v, api[float32]{
		func(x float32, incl bool) (float64, error) { return s.Rank(x, opt(incl)...) },
		func(r float64, incl bool) (float32, error) { return s.Quantile(r, opt(incl)...) },
		s.CDF,
		func(sp []float32, incl bool) ([]float64, error) { return s.PMF(sp, opt(incl)...) },
	}, xs)
	ra, err := s.Ranks(xs, req.WithExclusiveSearch())
	c.NoErr(err, "ranks")
	for i, x := range xs {
		c.Ok(ra[i] == v.rank(x, false), "Ranks[%d] = %v, want %v", i, ra[i], v.rank(x, false))
	}
	c.NoErr(s.Update(float32(span+50)), "update")
	sv, err = s.SortedView()
	c.NoErr(err, "sorted view 2")
	cum = sv.CumulativeWeights()
	c.Ok(cum[len(cum)-1] == int64(n+1), "stale sorted view after an update")
	o, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra))
	c.NoErr(err, "new")
	m := 1 + c.R.Intn(30)
	for i := 0; i < m; i++ {
		c.NoErr(o.Update(float32(span+100+i)), "update")
	}
	c.NoErr(s.Merge(o), "merge")
	r, err := s.Rank(float32(span+60))
	c.Ok(err == nil && math.Abs(r-float64(n+1)/float64(n+1+m)) <= 0.5 && r < 1, "rank after a merge: %v", r)
	sv, err = s.SortedView()
	c.NoErr(err, "sorted view 3")
	cum = sv.CumulativeWeights()
	c.Ok(cum[len(cum)-1] == int64(n+1+m) && sv.N() == int64(n+1+m), "stale sorted view after a merge")
	s.Reset()
	_, err = s.Rank(1)
	c.Ok(err != nil, "a reset sketch answers a rank query")
	for i := 1; i <= 4; i++ {
		c.NoErr(s.Update(float32(i)), "update")
	}
	r, err = s.Rank(2)
	c.Ok(err == nil && r == 0.5, "rank after a reset: %v %v", r, err)
}
