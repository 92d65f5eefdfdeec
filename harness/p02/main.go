// Concrete search for P02: update histories of the theta sketch.
package main

import (
	"math"
	"math/rand"
	"slices"
	"sort"

	"github.com/apache/datasketches-go/internal"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/verifharness/hk"
)

type oracle struct {
	seen    map[uint64]bool // distinct hashes offered since the last reset, below the sampling threshold
	theta   uint64
	start   uint64
	touched bool
}

func h64(v int64, seed uint64) uint64 {
	h, _ := internal.HashInt64SliceMurmur3([]int64{v}, 0, 1, seed)
	return h >> 1
}
func h32(v int32, seed uint64) uint64 {
	h, _ := internal.HashInt32SliceMurmur3([]int32{v}, 0, 1, seed)
	return h >> 1
}
func hstr(v string, seed uint64) uint64 {
	h, _ := internal.HashByteArrMurmur3([]byte(v), 0, len(v), seed)
	return h >> 1
}
func hbytes(v []byte, seed uint64) uint64 {
	h, _ := internal.HashByteArrMurmur3(v, 0, len(v), seed)
	return h >> 1
}

func canon(f float64) int64 {
	if f == 0 {
		return 0
	}
	if math.IsNaN(f) {
		return 0x7ff8000000000000
	}
	return int64(math.Float64bits(f))
}

func contents(c *hk.C, s theta.Sketch) []uint64 {
	var out []uint64
	for e := range s.All() {
		out = append(out, e)
	}
	slices.Sort(out)
	for i := 1; i < len(out); i++ {
		c.Ok(out[i] != out[i-1], "the retained hashes contain %d twice", out[i])
	}
	return out
}

func check(c *hk.C, s *theta.QuickSelectUpdateSketch, o *oracle, lgK uint8, full bool) {
	c.Ok(s.IsEmpty() == !o.touched, "IsEmpty() = %v, any update since reset = %v", s.IsEmpty(), o.touched)
	th := s.Theta64()
	if s.IsEmpty() {
		c.Ok(th == theta.MaxTheta, "theta of an empty sketch is %d", th)
		c.Ok(s.NumRetained() == 0 && s.Estimate() == 0, "an empty sketch retains %d, estimates %v", s.NumRetained(), s.Estimate())
	} else {
		c.Ok(th <= o.theta, "theta rose from %d to %d", o.theta, th)
		c.Ok(th == o.start || o.seen[th], "theta %d is neither the starting threshold %d nor an input's hash", th, o.start)
		if th < o.theta {
			c.Ok(s.NumRetained() == 1<<lgK, "a rebuild left %d entries, want %d", s.NumRetained(), 1<<lgK)
		}
		if th < o.start {
			c.Ok(s.NumRetained() >= 1<<lgK, "a rebuilt sketch retains only %d", s.NumRetained())
		}
		o.theta = th
	}
	c.Ok(int(s.NumRetained()) <= (2<<lgK)*15/16, "retains %d with lgK %d", s.NumRetained(), lgK)
	if !full {
		return
	}
	got := contents(c, s)
	c.Ok(len(got) == int(s.NumRetained()), "All() has %d entries, NumRetained() is %d", len(got), s.NumRetained())
	var want []uint64
	if o.touched {
		for h := range o.seen {
			if h < th && h != 0 {
				want = append(want, h)
			}
		}
	}
	slices.Sort(want)
	c.Ok(slices.Equal(got, want), "retained hashes differ from the input hashes below theta %d: got %d, want %d of them, first difference %v", th, len(got), len(want), firstDiff(got, want))
	if !s.IsEmpty() && th == theta.MaxTheta {
		c.Ok(s.Estimate() == float64(len(want)), "exact sketch estimates %v for %d distinct inputs", s.Estimate(), len(want))
		c.Ok(!s.IsEstimationMode(), "estimation mode although nothing was sampled")
	} else if !s.IsEmpty() {
		c.Ok(s.IsEstimationMode(), "not in estimation mode with theta %d", th)
		e := float64(len(want)) / (float64(th) / float64(theta.MaxTheta))
		c.Ok(math.Abs(s.Estimate()-e) <= 1e-9*e, "Estimate() = %v, retained/theta = %v", s.Estimate(), e)
	}
}

func firstDiff(a, b []uint64) any {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return a[i]
		}
	}
	if len(b) > len(a) {
		return b[len(a)]
	}
	return nil
}

func checkCompact(c *hk.C, s *theta.QuickSelectUpdateSketch, ordered bool) {
	k := s.Compact(ordered)
	var raw []uint64
	for e := range k.All() {
		raw = append(raw, e)
	}
	if ordered || k.IsOrdered() {
		c.Ok(sort.SliceIsSorted(raw, func(i, j int) bool { return raw[i] < raw[j] }), "a compact sketch that says it is ordered (asked: %v) is not", ordered)
	}
	c.Ok(!ordered || k.IsOrdered(), "Compact(true) is not marked ordered")
	c.Ok(k.IsEmpty() == s.IsEmpty() && k.Theta64() == s.Theta64() && k.NumRetained() == s.NumRetained() && k.Estimate() == s.Estimate(), "compact form differs: empty %v/%v theta %d/%d n %d/%d", k.IsEmpty(), s.IsEmpty(), k.Theta64(), s.Theta64(), k.NumRetained(), s.NumRetained())
	c.Ok(slices.Equal(contents(c, k), contents(c, s)), "compact form (ordered %v) retains other hashes", ordered)
	a, _ := k.SeedHash()
	b, _ := s.SeedHash()
	c.Ok(a == b, "seed hashes differ")
}

func history(c *hk.C, lgK uint8, n int, deep int) {
	r := c.R
	rf := theta.ResizeFactor(r.Intn(4))
	seed := uint64(9001)
	if r.Intn(3) == 0 {
		seed = r.Uint64()
	}
	p := float32(1)
	if r.Intn(3) == 0 {
		p = r.Float32()
		if p == 0 {
			p = 1
		}
		if r.Intn(4) == 0 {
			p = float32(math.Exp(-6 * r.Float64()))
		}
	}
	c.Desc("lgK=%d rf=%d p=%v seed=%d", lgK, rf, p, seed)
	opts := []theta.UpdateSketchOptionFunc{theta.WithUpdateSketchLgK(lgK), theta.WithUpdateSketchResizeFactor(rf), theta.WithUpdateSketchP(p), theta.WithUpdateSketchSeed(seed)}
	if lgK == theta.DefaultLgK && r.Intn(2) == 0 {
		opts = opts[1:]
	}
	s, err := theta.NewQuickSelectUpdateSketch(opts...)
	c.NoErr(err, "constructor")
	c.Ok(s.LgK() == lgK && s.ResizeFactor() == rf, "LgK/ResizeFactor")
	start := uint64(theta.MaxTheta)
	if p < 1 {
		start = uint64(float64(theta.MaxTheta) * float64(p))
	}
	o := &oracle{seen: map[uint64]bool{}, theta: start, start: start}
	check(c, s, o, lgK, true)
	var pool []int64
	base := r.Int63()
	mode := r.Intn(4)
	for i := 0; i < n; i++ {
		var e error
		var h uint64
		before := s.Theta64()
		if s.IsEmpty() {
			before = start
		}
		skip := false
		switch x := r.Intn(40); {
		case x < 24 || mode == 0:
			v := base + int64(i)
			if len(pool) > 0 && r.Intn(5) == 0 {
				v = pool[r.Intn(len(pool))]
			} else if mode == 1 {
				v = r.Int63()
			}
			pool = append(pool, v)
			h = h64(v, seed)
			if r.Intn(2) == 0 {
				e = s.UpdateInt64(v)
			} else {
				e = s.UpdateUint64(uint64(v))
			}
		case x < 27:
			f := []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), r.NormFloat64(), float64(r.Intn(20)), math.Float64frombits(0xfff8000000000001)}[r.Intn(7)]
			h = h64(canon(f), seed)
			if r.Intn(2) == 0 {
				e = s.UpdateFloat64(f)
			} else {
				g := float32(f)
				h = h64(canon(float64(g)), seed)
				e = s.UpdateFloat32(g)
			}
		case x < 30:
			v := int32(r.Uint32())
			if r.Intn(2) == 0 {
				v = int32(int8(v))
			}
			h = h32(v, seed)
			switch r.Intn(6) {
			case 0:
				h = h32(int32(int16(v)), seed)
				e = s.UpdateInt16(int16(v))
			case 1:
				h = h32(int32(uint16(v)), seed)
				e = s.UpdateUint16(uint16(v))
			case 2:
				h = h32(int32(int8(v)), seed)
				e = s.UpdateInt8(int8(v))
			case 3:
				h = h32(int32(uint8(v)), seed)
				e = s.UpdateUint8(uint8(v))
			case 4:
				h = h64(int64(uint32(v)), seed)
				e = s.UpdateUint32(uint32(v))
			default:
				e = s.UpdateInt32(v)
			}
		case x < 33:
			b := make([]byte, r.Intn(40))
			r.Read(b)
			if r.Intn(2) == 0 {
				if len(b) == 0 {
					em := s.IsEmpty()
					e = s.UpdateString("")
					c.Ok(e == theta.ErrUpdateEmptyString && s.IsEmpty() == em, "UpdateString(\"\") = %v", e)
					skip = true
				} else {
					h = hstr(string(b), seed)
					e = s.UpdateString(string(b))
				}
			} else {
				h = hbytes(b, seed)
				e = s.UpdateBytes(b)
			}
		case x < 34 && r.Intn(4) == 0:
			th := s.Theta64()
			m := s.NumRetained()
			s.Trim()
			c.Ok(s.NumRetained() <= 1<<lgK, "after Trim %d entries", s.NumRetained())
			c.Ok(m > 1<<lgK || (s.Theta64() == th && s.NumRetained() == m), "Trim of %d entries changed theta or the count", m)
			skip = true
		case x == 34 && r.Intn(10) == 0:
			s.Reset()
			*o = oracle{seen: map[uint64]bool{}, theta: start, start: start}
			check(c, s, o, lgK, true)
			skip = true
		default:
			skip = true
		}
		if skip {
			check(c, s, o, lgK, i%deep == 0)
			continue
		}
		o.touched = true
		if h >= before {
			c.Ok(e == theta.ErrHashExceedsTheta, "update %d with hash %d >= theta %d returned %v", i, h, before, e)
		} else if h == 0 {
			c.Ok(e != nil, "zero hash accepted")
		} else if o.seen[h] {
			c.Ok(e == theta.ErrDuplicateKey, "update %d repeats hash %d, returned %v", i, h, e)
		} else {
			c.Ok(e == nil, "update %d with the new hash %d < theta %d returned %v", i, h, before, e)
		}
		if h < start {
			o.seen[h] = true
		}
		check(c, s, o, lgK, i%deep == 0 || i == n-1)
	}
	c.Desc("%d operations", n)
	checkCompact(c, s, true)
	checkCompact(c, s, false)
}

// crafted keys in the exported hash table: chosen collisions
func table(c *hk.C) {
	r := c.R
	lgNom := uint8(5 + r.Intn(3))
	lgCur := uint8(1 + r.Intn(int(lgNom)+1))
	rf := theta.ResizeFactor(1 + r.Intn(3))
	if r.Intn(5) == 0 {
		lgCur, rf = lgNom+1, theta.ResizeX1
	}
	t := theta.NewHashtable(lgCur, lgNom, rf, 1, theta.MaxTheta, 9001, true)
	seen := map[uint64]bool{}
	home := r.Uint64() & 127
	stride := uint64(r.Intn(128))
	style := r.Intn(4)
	capacity := (2 << lgNom) * 15 / 16
	n := 1 + r.Intn(capacity)
	if r.Intn(3) == 0 {
		n = capacity + 1 // one rebuild, at the end
	}
	c.Desc("lgNom=%d lgCur=%d rf=%d style=%d n=%d", lgNom, lgCur, rf, style, n)
	for len(seen) < n {
		k := r.Uint64() >> 1
		switch style {
		case 0:
			k = k&^127 | home
		case 1:
			k = k&^(127<<(lgNom+1))&^127 | home | stride<<(lgNom+1)
		case 2:
			k = uint64(r.Intn(2000)) + 1
		}
		if k == 0 {
			continue
		}
		idx, err := t.Find(k)
		if seen[k] {
			c.Ok(err == nil, "inserted key %d is not found: %v (%d keys)", k, err, len(seen))
			continue
		}
		c.Ok(err == theta.ErrKeyNotFound, "absent key %d: Find = %d, %v (%d keys)", k, idx, err, len(seen))
		t.Insert(idx, k)
		seen[k] = true
	}
	low := uint64(theta.MaxTheta)
	cp := t.Copy()
	low = retained(c, t, seen, low)
	m := 0
	for k := range seen {
		if k < low {
			m++
		}
	}
	if n <= capacity {
		c.Ok(m == n, "only %d of %d keys are retained below capacity", m, n)
	} else {
		c.Ok(m == 1<<lgNom, "%d keys are retained after the rebuild", m)
	}
	l2 := retained(c, cp, seen, low)
	c.Ok(l2 == low, "copy retains another set")
	for k := range seen {
		if k < low {
			t.Reset()
			_, e := cp.Find(k)
			c.Ok(e == nil, "resetting a table changed its copy")
			_, e = t.Find(k)
			c.Ok(e != nil, "key %d found after Reset", k)
			break
		}
	}
}

func retained(c *hk.C, t *theta.Hashtable, seen map[uint64]bool, low uint64) uint64 {
	var ks []uint64
	for k := range seen {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	lost := false
	for _, k := range ks {
		_, e := t.Find(k)
		if e == nil {
			c.Ok(!lost, "key %d is retained although the smaller key %d is not", k, low)
		} else if !lost {
			lost = true
			low = k
		}
	}
	return low
}

func main() {
	hk.Main(func(h *hk.H) {
		h.Bounded("update histories of up to 20000 operations, lgK 5..13, all resize factors, sampled and unsampled")
		h.Loop("small-history", 250, func(c *hk.C) { history(c, uint8(5+c.R.Intn(2)), 1+c.R.Intn(400), 1) })
		h.Loop("history", 150, func(c *hk.C) { history(c, uint8(5+c.R.Intn(5)), 1+c.R.Intn(6000), 97) })
		h.Loop("big-history", 10, func(c *hk.C) { history(c, uint8(10+c.R.Intn(4)), 20000, 5003) })
		h.Loop("table", 400, table)
		h.Loop("quickselect", 400, func(c *hk.C) { qs(c, c.R) })
		h.Loop("options", 60, options)
	})
}

func options(c *hk.C) {
	r := c.R
	lg := uint8(r.Intn(40))
	p := []float32{0, -1, 1, 0.5, 1.5, 2, 1e-6}[r.Intn(7)]
	if lg > 12 && lg <= 26 {
		lg = 27
	}
	c.Desc("lgK=%d p=%v", lg, p)
	_, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lg), theta.WithUpdateSketchP(p))
	c.Ok((err == nil) == (lg >= 5 && lg <= 26 && p > 0 && p <= 1), "constructor error %v", err)
}

func qs(c *hk.C, r *rand.Rand) {
	n := 1 + r.Intn(60)
	m := 1 + r.Intn(2*n)
	a := make([]uint64, n)
	for i := range a {
		a[i] = uint64(r.Intn(m))
	}
	lo := r.Intn(n)
	hi := lo + r.Intn(n-lo)
	pv := lo + r.Intn(hi-lo+1)
	c.Desc("QuickSelect(%v, %d, %d, %d)", a, lo, hi, pv)
	b := slices.Clone(a)
	got := internal.QuickSelect(b, lo, hi, pv)
	s := slices.Clone(a[lo : hi+1])
	slices.Sort(s)
	c.Ok(got == s[pv-lo] && b[pv] == got, "selected %d, want %d", got, s[pv-lo])
	t := slices.Clone(b[lo : hi+1])
	slices.Sort(t)
	c.Ok(slices.Equal(s, t), "not a permutation")
	for i := lo; i <= hi; i++ {
		c.Ok(i > pv || b[i] <= got, "element %d left of the pivot is larger", i)
		c.Ok(i < pv || b[i] >= got, "element %d right of the pivot is smaller", i)
	}
}
