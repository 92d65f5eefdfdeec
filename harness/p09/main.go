// Concrete search for P09: REQ sketches conserve weight, extremes and state.
package main

import (
	"fmt"
	"math"

	"github.com/apache/datasketches-go/req"
	"github.com/apache/datasketches-go/verifharness/hk"
)

type part struct {
	s        *req.Sketch
	k, kmin  int // own k, and the smallest k merged in
	hra      bool
	in       map[float32]int
	n        int64
	min, max float32
}

func newPart(c *hk.C, k int, hra bool) *part {
	s, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra))
	c.NoErr(err, "NewSketch(%d, %v)", k, hra)
	return &part{s: s, k: k, kmin: k, hra: hra, in: map[float32]int{}}
}

func (p *part) note(v float32, times int) {
	if p.n == 0 || v < p.min {
		p.min = v
	}
	if p.n == 0 || v > p.max {
		p.max = v
	}
	p.in[v] += times
	p.n += int64(times)
}

func (p *part) update(c *hk.C, v float32) {
	c.NoErr(p.s.Update(v), "Update(%v)", v)
	if v == v {
		p.note(v, 1)
	}
}

func check(c *hk.C, what string, p *part) {
	s := p.s
	c.Ok(s.N() == p.n, "%s: n is %d after %d inputs", what, s.N(), p.n)
	c.Ok(s.IsEmpty() == (p.n == 0), "%s: IsEmpty %v after %d inputs", what, s.IsEmpty(), p.n)
	c.Ok(s.K() == p.k && s.IsHighRankAccuracyMode() == p.hra, "%s: k %d, mode %v", what, s.K(), s.IsHighRankAccuracyMode())
	its := s.All()
	c.Ok(len(its) == s.NumRetained(), "%s: NumRetained %d, All gave %d", what, s.NumRetained(), len(its))
	cnt := map[float32]int{}
	var w int64
	for _, it := range its {
		w += it.Weight
		cnt[it.Quantile]++
		c.Ok(it.Weight > 0 && it.Weight&(it.Weight-1) == 0, "%s: weight %d is not a power of two", what, it.Weight)
		c.Ok(cnt[it.Quantile] <= p.in[it.Quantile], "%s: %v retained %d times, put in %d times", what, it.Quantile, cnt[it.Quantile], p.in[it.Quantile])
	}
	c.Ok(w == p.n, "%s: retained weight %d after %d inputs", what, w, p.n)
	mn, e1 := s.MinItem()
	mx, e2 := s.MaxItem()
	c.Ok((e1 == nil) == (p.n > 0) && (e2 == nil) == (p.n > 0), "%s: MinItem/MaxItem errors %v %v after %d inputs", what, e1, e2, p.n)
	if p.n > 0 {
		c.Ok(mn == p.min, "%s: minimum %v, exact %v", what, mn, p.min)
		c.Ok(mx == p.max, "%s: maximum %v, exact %v", what, mx, p.max)
	}
	if !s.IsEstimationMode() {
		c.Ok(int64(len(its)) == p.n, "%s: %d items retained of %d before any compaction", what, len(its), p.n)
	}
	// nothing needs compacting before one compactor is full
	if p.n < int64(2*3*p.kmin) {
		c.Ok(!s.IsEstimationMode(), "%s: estimation mode after %d inputs with k %d", what, p.n, p.k)
	}
	if p.n > 0 && c.R.Intn(3) == 0 {
		sv, err := s.SortedView()
		c.NoErr(err, "%s: SortedView", what)
		var last int64
		qs, cw := sv.Quantiles(), sv.CumulativeWeights()
		c.Ok(len(qs) == len(cw), "%s: sorted view of %d and %d entries", what, len(qs), len(cw))
		for m := range qs {
			c.Ok(m == 0 || qs[m-1] <= qs[m], "%s: sorted view is out of order at %d", what, m)
			c.Ok(p.in[qs[m]] > 0, "%s: sorted view holds %v, never put in", what, qs[m])
			c.Ok(cw[m] >= last, "%s: cumulative weight %d after %d", what, cw[m], last)
			last = cw[m]
		}
		c.Ok(last == p.n, "%s: sorted view weighs %d of %d", what, last, p.n)
	}
}

func snap(s *req.Sketch) string {
	mn, e1 := s.MinItem()
	mx, e2 := s.MaxItem()
	w := map[req.Item]int{}
	for _, it := range s.All() {
		w[it]++
	}
	return fmt.Sprint(s.N(), s.K(), s.NumRetained(), s.IsEstimationMode(), mn, e1, mx, e2, len(w), w)
}

func value(c *hk.C, i, law int) float32 {
	switch law {
	case 0:
		return float32(i)
	case 1:
		return float32(-i)
	case 2:
		return float32(c.R.Intn(5))
	case 3:
		return float32(c.R.NormFloat64())
	case 4:
		return float32(c.R.ExpFloat64()) * 1e30
	case 5:
		return 7.5
	case 6:
		return float32(1000 + c.R.Intn(1000))
	case 7:
		return -float32(1 + c.R.Intn(100000))
	default:
		switch c.R.Intn(12) {
		case 0:
			return float32(math.Inf(1))
		case 1:
			return float32(math.Inf(-1))
		case 2:
			return float32(math.NaN())
		case 3:
			return float32(math.Copysign(0, -1))
		case 4:
			return math.MaxFloat32
		case 5:
			return math.SmallestNonzeroFloat32
		}
		return float32(c.R.Intn(20) - 10)
	}
}

func size(c *hk.C, k int) int {
	switch c.R.Intn(6) {
	case 0:
		return c.R.Intn(5)
	case 1:
		return 6*k - 3 + c.R.Intn(7)
	case 2:
		return c.R.Intn(12*k + 1)
	case 3:
		return c.R.Intn(6 * k)
	case 4:
		return c.R.Intn(60*k + 1)
	default:
		return c.R.Intn(4000)
	}
}

func kOf(c *hk.C) int {
	switch c.R.Intn(4) {
	case 0:
		return 4
	case 1:
		return 12
	case 2:
		return 4 + 2*c.R.Intn(10)
	default:
		return 4 + 2*c.R.Intn(40)
	}
}

func stream(c *hk.C) {
	p := newPart(c, kOf(c), c.R.Intn(2) == 0)
	law, n := c.R.Intn(9), size(c, p.k)
	c.Desc("stream k=%d hra=%v law=%d n=%d", p.k, p.hra, law, n)
	step := 1 + c.R.Intn(n/4+1)
	for i := 0; i < n; i++ {
		p.update(c, value(c, i, law))
		if i%step == 0 {
			check(c, "during stream", p)
		}
	}
	check(c, "after stream", p)
	if c.R.Intn(4) == 0 {
		p.s.Reset()
		q := &part{s: p.s, k: p.k, kmin: p.k, hra: p.hra, in: map[float32]int{}}
		check(c, "after reset", q)
		for i := 0; i < c.R.Intn(300); i++ {
			q.update(c, value(c, i, law))
		}
		check(c, "after reset and stream", q)
	}
}

func merges(c *hk.C) {
	hra := c.R.Intn(2) == 0
	k := kOf(c)
	var ps []*part
	np := 2 + c.R.Intn(3)
	for j := 0; j < np; j++ {
		kk := k
		if c.R.Intn(3) == 0 {
			kk = kOf(c)
		}
		p := newPart(c, kk, hra)
		if c.R.Intn(6) == 0 {
			for i := 0; i < 30; i++ {
				p.update(c, value(c, i, 3))
			}
			p.s.Reset()
			p = &part{s: p.s, k: kk, kmin: kk, hra: hra, in: map[float32]int{}}
		}
		law, n := c.R.Intn(9), size(c, kk)
		if c.R.Intn(5) == 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			p.update(c, value(c, i, law))
		}
		ps = append(ps, p)
	}
	c.Desc("merge k=%d hra=%v parts=%d", k, hra, np)
	// operands and target share nothing afterwards
	var log []string
	for st := 0; st < 3+c.R.Intn(5); st++ {
		a, b := ps[c.R.Intn(np)], ps[c.R.Intn(np)]
		if a.n+b.n > 200000 {
			continue
		}
		before := snap(b.s)
		in := map[float32]int{}
		for v, m := range b.in {
			in[v] = m
		}
		self := a == b
		log = append(log, fmt.Sprintf("%d(n=%d,k=%d)<-(n=%d,k=%d)", st, a.n, a.k, b.n, b.k))
		c.NoErr(a.s.Merge(b.s), "merge %v", log)
		for v, m := range in {
			a.note(v, m)
		}
		a.kmin = min(a.kmin, b.kmin)
		if !self {
			c.Ok(snap(b.s) == before, "merge %v: the source changed from %s to %s", log, before, snap(b.s))
			check(c, fmt.Sprintf("merge %v: source", log), b)
		}
		check(c, fmt.Sprintf("merge %v: target", log), a)
		if c.R.Intn(2) == 0 {
			law := c.R.Intn(9)
			before = snap(b.s)
			for i := 0; i < c.R.Intn(500); i++ {
				a.update(c, value(c, i, law))
			}
			check(c, fmt.Sprintf("merge %v: target after more updates", log), a)
			if !self {
				c.Ok(snap(b.s) == before, "merge %v: updating the target changed the source", log)
			}
		}
		if c.R.Intn(3) == 0 && !self {
			before = snap(a.s)
			for i := 0; i < c.R.Intn(500); i++ {
				b.update(c, value(c, i, 3))
			}
			check(c, fmt.Sprintf("merge %v: source after more updates", log), b)
			c.Ok(snap(a.s) == before, "merge %v: updating the source changed the target", log)
		}
	}
}

func refuses(c *hk.C) {
	a, b := newPart(c, kOf(c), true), newPart(c, kOf(c), false)
	for i := 0; i < 20+c.R.Intn(300); i++ {
		a.update(c, value(c, i, 3))
		b.update(c, value(c, i, 6))
	}
	c.Desc("merge of different modes")
	c.Ok(a.s.Merge(b.s) != nil, "a merge of different accuracy modes is accepted")
	check(c, "target of a refused merge", a)
	check(c, "source of a refused merge", b)
	c.NoErr(a.s.Merge(nil), "merge of nil")
	check(c, "target of a nil merge", a)
}

func main() {
	hk.Main(func(h *hk.H) {
		h.Loop("streams", 6000, stream)
		h.Loop("merges", 3000, merges)
		h.Loop("refused-merges", 300, refuses)
		h.Bounded("streams up to about 5000 items, k up to 82, up to 7 merges of up to 4 sketches")
	})
}
