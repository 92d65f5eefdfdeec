// Concrete search for P03: theta set operations against a set model.
package main

import (
	"bytes"
	"encoding/binary"
	"math"
	"math/rand"
	"slices"

	"github.com/apache/datasketches-go/internal"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/verifharness/hk"
)

// set is what a sketch denotes: the retained hashes below a threshold.
type set struct {
	empty bool
	theta uint64
	h     []uint64 // sorted
	seed  uint64
}

func seedHash(seed uint64) uint16 {
	h1, _ := internal.HashInt64SliceMurmur3([]int64{int64(seed)}, 0, 1, 0)
	return uint16(h1)
}

func h64(v int64, seed uint64) uint64 {
	h, _ := internal.HashInt64SliceMurmur3([]int64{v}, 0, 1, seed)
	return h >> 1
}

func observe(c *hk.C, s theta.Sketch, seed uint64) set {
	o := set{empty: s.IsEmpty(), theta: s.Theta64(), seed: seed}
	var raw []uint64
	for e := range s.All() {
		raw = append(raw, e)
	}
	c.Ok(len(raw) == int(s.NumRetained()), "All() yields %d entries, NumRetained() is %d", len(raw), s.NumRetained())
	if s.IsOrdered() {
		c.Ok(slices.IsSorted(raw), "a sketch that says it is ordered is not sorted")
	}
	slices.Sort(raw)
	for i, e := range raw {
		c.Ok(e != 0 && e < o.theta, "retained hash %d outside (0, theta %d)", e, o.theta)
		c.Ok(i == 0 || raw[i-1] != e, "hash %d retained twice", e)
	}
	o.h = raw
	return o
}

func same(a, b set) bool {
	return a.empty == b.empty && a.theta == b.theta && slices.Equal(a.h, b.h)
}

func expect(c *hk.C, what string, s theta.Sketch, want set) {
	got := observe(c, s, want.seed)
	c.Ok(got.empty == want.empty, "%s: IsEmpty() = %v, want %v (theta %d, retained %d)", what, got.empty, want.empty, got.theta, len(got.h))
	c.Ok(got.theta == want.theta, "%s: theta = %d, want %d", what, got.theta, want.theta)
	if !slices.Equal(got.h, want.h) {
		for _, e := range got.h {
			if _, ok := slices.BinarySearch(want.h, e); !ok {
				c.Failf("%s: retains hash %d which the set expression does not contain (%d retained, want %d)", what, e, len(got.h), len(want.h))
			}
		}
		for _, e := range want.h {
			if _, ok := slices.BinarySearch(got.h, e); !ok {
				c.Failf("%s: lost hash %d of the set expression (%d retained, want %d)", what, e, len(got.h), len(want.h))
			}
		}
	}
	sh, err := s.SeedHash()
	c.NoErr(err, "SeedHash")
	c.Ok(sh == seedHash(want.seed), "%s: seed hash %d, want %d", what, sh, seedHash(want.seed))
	e := float64(len(want.h)) / (float64(want.theta) / float64(theta.MaxTheta))
	if g := s.Estimate(); !(math.Abs(g-e) <= 1e-9*math.Max(1, e)) {
		c.Failf("%s: Estimate() = %v, want retained/theta = %v", what, g, e)
	}
}

// operand is one generated sketch and its model.
type operand struct {
	s theta.Sketch
	m set
	d string
}

func below(h []uint64, t uint64) []uint64 {
	i, _ := slices.BinarySearch(h, t)
	return h[:i:i]
}

// gen builds an operand in a random form from the universe of keys [0, span).
func gen(c *hk.C, r *rand.Rand, seed uint64, span int64, maxN int) operand {
	lgK := uint8(5 + r.Intn(4))
	p := float32(1)
	switch r.Intn(6) {
	case 0:
		p = r.Float32()
	case 1:
		p = float32(math.Exp(-8 * r.Float64()))
	}
	if !(p > 0) {
		p = 1
	}
	n := 0
	switch r.Intn(8) {
	case 0:
	case 1:
		n = 1 + r.Intn(3)
	case 2, 3:
		n = 1 + r.Intn(60)
	default:
		n = 1 + r.Intn(maxN)
	}
	u, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK), theta.WithUpdateSketchP(p), theta.WithUpdateSketchSeed(seed), theta.WithUpdateSketchResizeFactor(theta.ResizeFactor(r.Intn(4))))
	c.NoErr(err, "update sketch")
	lo := int64(0)
	if r.Intn(2) == 0 {
		lo = r.Int63n(span)
	}
	for i := 0; i < n; i++ {
		v := lo + int64(i)
		if r.Intn(3) == 0 {
			v = r.Int63n(span)
		}
		u.UpdateInt64(v)
	}
	if r.Intn(5) == 0 {
		u.Trim()
	}
	var s theta.Sketch = u
	form := r.Intn(6)
	switch form {
	case 0:
	case 1:
		s = u.Compact(true)
	case 2:
		s = u.Compact(false)
	case 3, 4: // read in place, plain or compressed
		k := u.Compact(r.Intn(2) == 0 || form == 4)
		var buf bytes.Buffer
		enc := theta.NewEncoder(&buf, form == 4)
		c.NoErr(enc.Encode(k), "encode")
		w, err := theta.WrapCompactSketch(buf.Bytes(), seed)
		c.NoErr(err, "wrap")
		s = w
	case 5: // a derived result as operand
		x, err := theta.NewUnion(theta.WithUnionLgK(lgK), theta.WithUnionSeed(seed))
		c.NoErr(err, "union")
		c.NoErr(x.Update(u), "union update")
		s, err = x.Result(r.Intn(2) == 0)
		c.NoErr(err, "union result")
	}
	m := observe(c, s, seed)
	c.Ok(m.empty == (n == 0), "operand with %d updates: IsEmpty() = %v", n, m.empty)
	return operand{s, m, ""}
}

func (o *operand) unchanged(c *hk.C, what string) {
	c.Ok(same(observe(c, o.s, o.m.seed), o.m), "%s modified its operand", what)
}

func pickSeeds(r *rand.Rand) (uint64, uint64) {
	a := uint64(theta.DefaultSeed)
	if r.Intn(2) == 0 {
		a = r.Uint64()
	}
	for {
		b := r.Uint64()
		if seedHash(b) != seedHash(a) && seedHash(b) != 0 && seedHash(a) != 0 {
			return a, b
		}
		if seedHash(a) == 0 {
			a++
		}
	}
}

func start(p float32) uint64 {
	if p < 1 {
		return uint64(float64(theta.MaxTheta) * float64(p))
	}
	return theta.MaxTheta
}

func merge(a, b []uint64) []uint64 {
	out := append(slices.Clone(a), b...)
	slices.Sort(out)
	return slices.Compact(out)
}

func runUnion(c *hk.C) {
	r := c.R
	seed, other := pickSeeds(r)
	lgK := uint8(5 + r.Intn(5))
	p := float32(1)
	if r.Intn(5) == 0 {
		p = 0.05 + 0.95*r.Float32()
	}
	rf := theta.ResizeFactor(r.Intn(4))
	u, err := theta.NewUnion(theta.WithUnionLgK(lgK), theta.WithUnionSketchP(p), theta.WithUnionSeed(seed), theta.WithUnionResizeFactor(rf))
	c.NoErr(err, "NewUnion")
	c.Desc("union lgK %d p %v seed %d rf %d", lgK, p, seed, rf)
	k := 1 << lgK
	m := set{empty: true, theta: start(p), seed: seed}
	span := int64(1 + r.Intn(6000))
	if c.Big {
		span = int64(1 + r.Intn(40000))
	}
	steps := 1 + r.Intn(6)
	reset := func() { m = set{empty: true, theta: start(p), seed: seed} }
	for i := 0; i < steps; i++ {
		if r.Intn(12) == 0 {
			u.Reset()
			reset()
			c.Desc("reset")
		}
		s := seed
		if r.Intn(8) == 0 {
			s = other
		}
		o := gen(c, r, s, span, int(min(span*2, 3000)))
		c.Desc("update with %T: seed ok %v empty %v ordered %v theta %d retained %d", o.s, s == seed, o.m.empty, o.s.IsOrdered(), o.m.theta, len(o.m.h))
		err := u.Update(o.s)
		o.unchanged(c, "Union.Update")
		if o.m.empty {
			c.NoErr(err, "Union.Update with an empty sketch")
		} else if s != seed {
			c.Ok(err != nil, "Union.Update accepted a sketch hashed with another seed")
		} else {
			c.NoErr(err, "Union.Update")
			m.empty = false
			m.theta = min(m.theta, o.m.theta)
			m.h = merge(m.h, o.m.h)
			m.h = below(m.h, m.theta)
		}
		ord := r.Intn(2) == 0
		var res *theta.CompactSketch
		if r.Intn(4) == 0 {
			ord = true
			res, err = u.OrderedResult()
		} else {
			res, err = u.Result(ord)
		}
		c.NoErr(err, "Union.Result")
		w := m
		w.h = below(m.h, m.theta)
		if len(w.h) > k {
			w.theta = w.h[k]
			w.h = w.h[:k]
		}
		expect(c, "union", res, w)
		c.Ok(res.IsOrdered() || !ord, "union: ordered result asked for, not ordered")
		o.unchanged(c, "Union.Result")
	}
}

func runIntersection(c *hk.C) {
	r := c.R
	seed, other := pickSeeds(r)
	it := theta.NewIntersection(theta.WithIntersectionSeed(seed))
	if _, err := it.Result(true); err == nil {
		c.Failf("Intersection.Result before any update succeeded")
	}
	c.Ok(!it.HasResult(), "HasResult before any update")
	m := set{theta: theta.MaxTheta, seed: seed}
	valid := false
	span := int64(1 + r.Intn(4000))
	steps := 1 + r.Intn(5)
	c.Desc("intersection seed %d span %d", seed, span)
	for i := 0; i < steps; i++ {
		s := seed
		if r.Intn(8) == 0 {
			s = other
		}
		o := gen(c, r, s, span, int(min(span*2, 3000)))
		c.Desc("update with %T: seed ok %v empty %v ordered %v theta %d retained %d", o.s, s == seed, o.m.empty, o.s.IsOrdered(), o.m.theta, len(o.m.h))
		err := it.Update(o.s)
		o.unchanged(c, "Intersection.Update")
		switch {
		case m.empty:
			c.NoErr(err, "update of an empty intersection")
		case !o.m.empty && s != seed:
			c.Ok(err != nil, "Intersection.Update accepted a sketch hashed with another seed")
		default:
			c.NoErr(err, "Intersection.Update")
			if o.m.empty {
				m.empty, m.theta, m.h = true, theta.MaxTheta, nil
			} else {
				m.theta = min(m.theta, o.m.theta)
				if !valid {
					m.h = slices.Clone(o.m.h)
				} else {
					var x []uint64
					for _, e := range m.h {
						if _, ok := slices.BinarySearch(o.m.h, e); ok {
							x = append(x, e)
						}
					}
					m.h = x
				}
				m.h = below(m.h, m.theta)
				if len(m.h) == 0 && m.theta == theta.MaxTheta {
					m.empty = true
				}
			}
			valid = true
		}
		if !valid {
			c.Ok(!it.HasResult(), "a rejected update left a result")
			continue
		}
		c.Ok(it.HasResult(), "HasResult() is false after an update")
		ord := r.Intn(2) == 0
		res, err := it.Result(ord)
		c.NoErr(err, "Intersection.Result")
		expect(c, "intersection", res, m)
		c.Ok(res.IsOrdered() || !ord, "intersection: ordered result asked for, not ordered")
		o.unchanged(c, "Intersection.Result")
	}
}

func runANotB(c *hk.C) {
	r := c.R
	seed, other := pickSeeds(r)
	span := int64(1 + r.Intn(4000))
	sa, sb := seed, seed
	switch r.Intn(8) {
	case 0:
		sa = other
	case 1:
		sb = other
	}
	a := gen(c, r, sa, span, int(min(span*2, 3000)))
	b := gen(c, r, sb, span, int(min(span*2, 3000)))
	ord := r.Intn(2) == 0
	c.Desc("a %T seed ok %v empty %v ordered %v theta %d retained %d", a.s, sa == seed, a.m.empty, a.s.IsOrdered(), a.m.theta, len(a.m.h))
	c.Desc("b %T seed ok %v empty %v ordered %v theta %d retained %d; ordered %v", b.s, sb == seed, b.m.empty, b.s.IsOrdered(), b.m.theta, len(b.m.h), ord)
	res, err := theta.ANotB(a.s, b.s, seed, ord)
	a.unchanged(c, "ANotB")
	b.unchanged(c, "ANotB")
	if a.m.empty || (len(a.m.h) > 0 && b.m.empty) {
		c.NoErr(err, "ANotB with an empty operand")
		expect(c, "A not B (empty operand)", res, a.m)
		c.Ok(res.IsOrdered() || !ord, "A not B: ordered result asked for, not ordered")
		return
	}
	if (sa != seed) || (sb != seed) {
		c.Ok(err != nil, "ANotB accepted a sketch hashed with another seed")
		return
	}
	c.NoErr(err, "ANotB")
	w := set{theta: min(a.m.theta, b.m.theta), seed: seed}
	for _, e := range below(a.m.h, w.theta) {
		if _, ok := slices.BinarySearch(b.m.h, e); !ok {
			w.h = append(w.h, e)
		}
	}
	w.empty = len(w.h) == 0 && w.theta == theta.MaxTheta
	expect(c, "A not B", res, w)
	c.Ok(res.IsOrdered() || !ord, "A not B: ordered result asked for, not ordered")
}

func runJaccard(c *hk.C) {
	r := c.R
	seed, other := pickSeeds(r)
	span := int64(1 + r.Intn(4000))
	a := gen(c, r, seed, span, int(min(span*2, 3000)))
	sb := seed
	if r.Intn(10) == 0 {
		sb = other
	}
	b := gen(c, r, sb, span, int(min(span*2, 3000)))
	if r.Intn(5) == 0 { // the same set in another form
		k := theta.NewCompactSketch(a.s, r.Intn(2) == 0)
		b = operand{k, observe(c, k, seed), ""}
		sb = seed
	}
	c.Desc("a %T empty %v ordered %v theta %d retained %d", a.s, a.m.empty, a.s.IsOrdered(), a.m.theta, len(a.m.h))
	c.Desc("b %T seed ok %v empty %v ordered %v theta %d retained %d", b.s, sb == seed, b.m.empty, b.s.IsOrdered(), b.m.theta, len(b.m.h))
	j, err := theta.Jaccard(a.s, b.s, seed)
	eq, err2 := theta.IsExactlyEqual(a.s, b.s, seed)
	a.unchanged(c, "Jaccard")
	b.unchanged(c, "Jaccard")
	t := r.Float64()
	sim, err3 := theta.IsSimilar(a.s, b.s, t, seed)
	dis, err4 := theta.IsDissimilar(a.s, b.s, t, seed)
	if sb != seed && !a.m.empty && !b.m.empty {
		c.Ok(err != nil && err2 != nil && err3 != nil && err4 != nil, "Jaccard/IsExactlyEqual/IsSimilar/IsDissimilar accepted another seed: %v %v %v %v", err, err2, err3, err4)
		return
	}
	for _, e := range []error{err, err2, err3, err4} {
		c.NoErr(e, "Jaccard family")
	}
	c.Ok(sim == (j.LowerBound >= t), "IsSimilar(%v) = %v with lower bound %v", t, sim, j.LowerBound)
	c.Ok(dis == (j.UpperBound <= t), "IsDissimilar(%v) = %v with upper bound %v", t, dis, j.UpperBound)
	var le, es, ue float64
	identical := false
	switch {
	case a.m.empty && b.m.empty:
		es, identical = 1, true
	case a.m.empty || b.m.empty:
		es = 0
	default:
		th := min(a.m.theta, b.m.theta)
		un := below(merge(a.m.h, b.m.h), th)
		n := 0
		for _, e := range un {
			_, x := slices.BinarySearch(a.m.h, e)
			_, y := slices.BinarySearch(b.m.h, e)
			if x && y {
				n++
			}
		}
		switch {
		case a.m.theta == b.m.theta && slices.Equal(a.m.h, b.m.h):
			es, identical = 1, true
		case len(un) == 0:
			es = 0.5
		default:
			es = float64(n) / float64(len(un))
		}
		le, ue = j.LowerBound, j.UpperBound
		if th == theta.MaxTheta {
			c.Ok(j.LowerBound == j.Estimate && j.UpperBound == j.Estimate, "Jaccard of exact sketches has bounds %+v", j)
		}
	}
	if identical {
		c.Ok(j == theta.JaccardSimilarityResult{LowerBound: 1, Estimate: 1, UpperBound: 1}, "Jaccard of identical sets = %+v", j)
	} else if a.m.empty || b.m.empty {
		c.Ok(j == theta.JaccardSimilarityResult{}, "Jaccard with one empty set = %+v", j)
	} else {
		c.Ok(j.Estimate == es, "Jaccard estimate %v, want %v", j.Estimate, es)
		c.Ok(0 <= le && le <= es && es <= ue && ue <= 1, "Jaccard bounds do not bracket the estimate: %+v", j)
	}
	c.Ok(eq == identical, "IsExactlyEqual = %v, sets identical = %v", eq, identical)
	j2, err := theta.Jaccard(a.s, a.s, seed)
	c.NoErr(err, "Jaccard with itself")
	c.Ok(j2.LowerBound == 1 && j2.Estimate == 1 && j2.UpperBound == 1, "Jaccard of a sketch with itself = %+v", j2)
}

// runIdentity checks the algebra over three operands without trimming: order and form must not matter.
func runAlgebra(c *hk.C) {
	r := c.R
	seed := uint64(theta.DefaultSeed)
	span := int64(1 + r.Intn(3000))
	var ops []operand
	n := 2 + r.Intn(3)
	for i := 0; i < n; i++ {
		ops = append(ops, gen(c, r, seed, span, int(min(span*2, 2500))))
		o := ops[i]
		c.Desc("operand %d: %T empty %v ordered %v theta %d retained %d", i, o.s, o.m.empty, o.s.IsOrdered(), o.m.theta, len(o.m.h))
	}
	lgK := uint8(5 + r.Intn(7))
	var first, firstI *set
	for rep := 0; rep < 3; rep++ {
		perm := r.Perm(n)
		u, err := theta.NewUnion(theta.WithUnionLgK(lgK))
		c.NoErr(err, "NewUnion")
		it := theta.NewIntersection()
		for _, i := range perm {
			s := ops[i].s
			if r.Intn(2) == 0 {
				s = theta.NewCompactSketch(s, r.Intn(2) == 0)
			}
			c.NoErr(u.Update(s), "union")
			if r.Intn(4) == 0 {
				c.NoErr(u.Update(s), "union again")
			}
			c.NoErr(it.Update(s), "intersection")
			if r.Intn(4) == 0 {
				c.NoErr(it.Update(s), "intersection again")
			}
		}
		a, err := u.Result(r.Intn(2) == 0)
		c.NoErr(err, "union result")
		b, err := it.Result(r.Intn(2) == 0)
		c.NoErr(err, "intersection result")
		sa, sb := observe(c, a, seed), observe(c, b, seed)
		if first == nil {
			first, firstI = &sa, &sb
			continue
		}
		c.Ok(same(*first, sa), "union (lgK %d) depends on operand order or form: theta %d/%d, %d/%d retained", lgK, first.theta, sa.theta, len(first.h), len(sa.h))
		if firstI.empty != sb.empty && len(firstI.h) == 0 && len(sb.h) == 0 {
			continue // an intermediate intersection known to be exactly empty absorbs the rest, as the set model of runIntersection says
		}
		c.Ok(same(*firstI, sb), "intersection depends on operand order or form: empty %v/%v theta %d/%d, %d/%d retained", firstI.empty, sb.empty, firstI.theta, sb.theta, len(firstI.h), len(sb.h))
	}
}

// craft builds an operand straight from chosen hashes through the documented plain serial version 3 layout.
func craft(c *hk.C, hs []uint64, th uint64, ordered bool, seed uint64) operand {
	b := make([]byte, 24+8*len(hs))
	b[0], b[1], b[2] = 3, 3, 3
	b[5] = 0x0a
	if ordered {
		b[5] |= 0x10
	}
	binary.LittleEndian.PutUint16(b[6:], seedHash(seed))
	binary.LittleEndian.PutUint32(b[8:], uint32(len(hs)))
	binary.LittleEndian.PutUint64(b[16:], th)
	for i, h := range hs {
		binary.LittleEndian.PutUint64(b[24+8*i:], h)
	}
	s, err := theta.Decode(b, seed)
	c.NoErr(err, "decode of a hand-made sketch")
	return operand{s, observe(c, s, seed), ""}
}

// runCrafted uses adversarial hash values: colliding table slots, values next to the thresholds, equal thresholds.
func runCrafted(c *hk.C) {
	r := c.R
	seed := uint64(theta.DefaultSeed)
	mk := func() operand {
		th := uint64(theta.MaxTheta)
		switch r.Intn(4) {
		case 0:
			th = 1000
		case 1:
			th = 1 + uint64(r.Intn(2000))
		case 2:
			th = uint64(r.Int63())
		}
		m := map[uint64]bool{}
		for i, n := 0, r.Intn(60); i < n; i++ {
			var v uint64
			switch r.Intn(5) {
			case 0:
				v = uint64(r.Intn(2000))
			case 1:
				v = th - 1 - uint64(r.Intn(3))
			case 2:
				v = uint64(r.Intn(30)) << uint(r.Intn(50))
			case 3:
				v = 1000 - 3 + uint64(r.Intn(6))
			default:
				v = uint64(r.Int63())
			}
			if v > 0 && v < th {
				m[v] = true
			}
		}
		var hs []uint64
		for v := range m {
			hs = append(hs, v)
		}
		slices.Sort(hs)
		ord := r.Intn(2) == 0
		if !ord {
			r.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
		}
		if th == theta.MaxTheta && len(hs) == 0 {
			th--
		}
		return craft(c, hs, th, ord, seed)
	}
	a, b := mk(), mk()
	c.Desc("a theta %d ordered %v %v", a.m.theta, a.s.IsOrdered(), a.m.h)
	c.Desc("b theta %d ordered %v %v", b.m.theta, b.s.IsOrdered(), b.m.h)
	th := min(a.m.theta, b.m.theta)
	var in, diff []uint64
	for _, e := range below(a.m.h, th) {
		if _, ok := slices.BinarySearch(b.m.h, e); ok {
			in = append(in, e)
		} else {
			diff = append(diff, e)
		}
	}
	it := theta.NewIntersection()
	c.NoErr(it.Update(a.s), "intersection")
	c.NoErr(it.Update(b.s), "intersection")
	res, err := it.Result(r.Intn(2) == 0)
	c.NoErr(err, "intersection result")
	expect(c, "intersection", res, set{empty: len(in) == 0 && th == theta.MaxTheta, theta: th, h: in, seed: seed})
	res, err = theta.ANotB(a.s, b.s, seed, r.Intn(2) == 0)
	c.NoErr(err, "ANotB")
	expect(c, "A not B", res, set{empty: len(diff) == 0 && th == theta.MaxTheta, theta: th, h: diff, seed: seed})
	k := 32
	u, err := theta.NewUnion(theta.WithUnionLgK(5))
	c.NoErr(err, "union")
	c.NoErr(u.Update(a.s), "union")
	c.NoErr(u.Update(b.s), "union")
	res, err = u.Result(r.Intn(2) == 0)
	c.NoErr(err, "union result")
	w := set{theta: th, h: below(merge(a.m.h, b.m.h), th), seed: seed}
	if len(w.h) > k {
		w.theta, w.h = w.h[k], w.h[:k]
	}
	expect(c, "union", res, w)
}

func main() {
	hk.Main(func(h *hk.H) {
		h.Loop("union", 30000, runUnion)
		h.Loop("intersection", 30000, runIntersection)
		h.Loop("a-not-b", 30000, runANotB)
		h.Loop("jaccard", 30000, runJaccard)
		h.Loop("algebra", 15000, runAlgebra)
		h.Loop("crafted", 150000, runCrafted)
		h.Bounded("operands with up to about 3000 updates over keys of one pool, lgK 5..11, p down to e^-8, 1..6 operands per sequence")
	})
}
