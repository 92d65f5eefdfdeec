// Concrete search for P16: tuple sketches against a model of one summary per key.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"slices"
	"strings"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
	"github.com/apache/datasketches-go/verifharness/hk"
)

// model is what a sketch must hold: the retained hashes and the folded summary of each, written out.
type model struct {
	empty bool
	theta uint64
	m     map[uint64]string
}

type updater[S tuple.Summary] struct {
	update  func(key int64, str bool, v int) error
	sk      func() tuple.Sketch[S]
	compact func(ordered bool) (tuple.Sketch[S], error)
	filter  func(func(S) bool) (tuple.Sketch[S], error)
	trim    func()
	reset   func()
}
type setop[S tuple.Summary] struct {
	update func(tuple.Sketch[S]) error
	result func(bool) (tuple.Sketch[S], error)
	reset  func()
}
type kind[S tuple.Summary] struct {
	val     func(S) string
	upd     func(prev string, had bool, v int) string
	merge   func(a, b string) string
	fresh   func(c *hk.C, o ...tuple.UpdateSketchOptionFunc) updater[S]
	union   func(c *hk.C, o ...tuple.UnionOptionFunc) setop[S]
	inter   func(o ...tuple.IntersectionOptionFunc) setop[S]
	anotb   func(a, b tuple.Sketch[S], seed uint64, ordered bool) (tuple.Sketch[S], error)
	compact func(a tuple.Sketch[S], ordered bool) (tuple.Sketch[S], error)
	trip    func(c *hk.C, s tuple.Sketch[S], seed uint64) tuple.Sketch[S]
	filter  func(s tuple.Sketch[S], f func(S) bool) (tuple.Sketch[S], error)
}

type item[S tuple.Summary] struct {
	name string
	s    tuple.Sketch[S]
	w    model
}

func (k kind[S]) expect(c *hk.C, it item[S]) {
	s, w := it.s, it.w
	n := 0
	last := uint64(0)
	for h, sm := range s.All() {
		n++
		want, ok := w.m[h]
		c.Ok(ok, "%s: holds the key hash %d, which it must not", it.name, h)
		c.Ok(k.val(sm) == want, "%s: the summary of %d is %q, want %q", it.name, h, k.val(sm), want)
		if s.IsOrdered() {
			c.Ok(h > last, "%s: says it is ordered, but %d comes after %d", it.name, h, last)
		}
		last = h
	}
	c.Ok(n == len(w.m) && int(s.NumRetained()) == n, "%s: holds %d keys (NumRetained %d), want %d", it.name, n, s.NumRetained(), len(w.m))
	c.Ok(s.IsEmpty() == w.empty, "%s: IsEmpty() = %v", it.name, s.IsEmpty())
	c.Ok(s.Theta64() == w.theta, "%s: theta %d, want %d", it.name, s.Theta64(), w.theta)
	if !w.empty && w.theta == theta.MaxTheta {
		c.Ok(s.Estimate() == float64(n), "%s: estimate %v of %d keys", it.name, s.Estimate(), n)
	}
}

func startTheta(p float32) uint64 {
	if p < 1 {
		return uint64(float64(theta.MaxTheta) * float64(p))
	}
	return theta.MaxTheta
}

func hashes(s theta.Sketch) []uint64 {
	var r []uint64
	for h := range s.All() {
		r = append(r, h)
	}
	return r
}

var ps = []float32{1, 1, 1, 0.5, 0.25, 0.9}
var rfs = []theta.ResizeFactor{theta.ResizeX1, theta.ResizeX2, theta.ResizeX4, theta.ResizeX8}

func run[S tuple.Summary](c *hk.C, k kind[S]) {
	r := c.R
	seed := theta.DefaultSeed
	if r.Intn(4) == 0 {
		seed = uint64(r.Int63())
	}
	domain := []int{4, 20, 80, 300, 1500}[r.Intn(5)]
	var pool []item[S]
	hashOf := map[string]uint64{}
	key := func(v int64, str bool) (uint64, bool) {
		id := fmt.Sprint(v, str)
		if h, ok := hashOf[id]; ok {
			return h, h != 0
		}
		t, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchSeed(seed))
		c.NoErr(err, "theta sketch")
		if str {
			err = t.UpdateString(fmt.Sprint("key", v))
		} else {
			err = t.UpdateInt64(v)
		}
		hs := hashes(t)
		if len(hs) == 1 {
			hashOf[id] = hs[0]
			return hs[0], true
		}
		_ = err
		hashOf[id] = 0
		return 0, false
	}
	build := func(name string) {
		lgK := uint8(5 + r.Intn(3))
		rf := rfs[r.Intn(4)]
		p := ps[r.Intn(len(ps))]
		c.Desc("%s: new update sketch lgK %d rf %d p %v", name, lgK, rf, p)
		u := k.fresh(c, tuple.WithUpdateSketchLgK(lgK), tuple.WithUpdateSketchResizeFactor(rf), tuple.WithUpdateSketchP(p), tuple.WithUpdateSketchSeed(seed))
		t, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK), theta.WithUpdateSketchResizeFactor(rf), theta.WithUpdateSketchP(p), theta.WithUpdateSketchSeed(seed))
		c.NoErr(err, "theta sketch")
		all := map[uint64]string{}
		now := func(nm string) model {
			w := model{empty: t.IsEmpty(), theta: t.Theta64(), m: map[uint64]string{}}
			for _, h := range hashes(t) {
				w.m[h] = all[h]
			}
			return w
		}
		for phase := r.Intn(3) + 1; phase > 0; phase-- {
			n := r.Intn(domain + 1)
			from := r.Intn(domain)
			c.Desc("%s: %d updates from %d", name, n, from)
			for i := 0; i < n; i++ {
				kv, str, v := int64((from+r.Intn(n))%domain), r.Intn(8) == 0, r.Intn(26)
				h, ok := key(kv, str)
				if str {
					_ = t.UpdateString(fmt.Sprint("key", kv))
				} else {
					_ = t.UpdateInt64(kv)
				}
				_ = u.update(kv, str, v)
				if !ok {
					continue
				}
				old, had := all[h]
				all[h] = k.upd(old, had, v)
			}
			switch r.Intn(8) {
			case 0:
				c.Desc("%s: trim", name)
				t.Trim()
				u.trim()
			case 1:
				c.Desc("%s: compact, then reset", name)
				cs, err := u.compact(r.Intn(2) == 0)
				c.NoErr(err, "Compact")
				it := item[S]{name + " compacted before a reset", cs, now(name)}
				t.Reset()
				u.reset()
				all = map[uint64]string{}
				k.expect(c, it)
				pool = append(pool, it)
			case 2, 3:
				ord := r.Intn(2) == 0
				c.Desc("%s: compact ordered %v", name, ord)
				cs, err := u.compact(ord)
				c.NoErr(err, "Compact")
				if ord {
					c.Ok(cs.IsOrdered(), "an ordered compact sketch says it is not ordered")
				}
				pool = append(pool, item[S]{name + " compacted", cs, now(name)})
			}
			k.expect(c, item[S]{name, u.sk(), now(name)})
		}
		pool = append(pool, item[S]{name, u.sk(), now(name)})
	}
	for i, n := 0, 2+r.Intn(3); i < n; i++ {
		build(fmt.Sprintf("s%d", i))
	}
	check := func() {
		for _, it := range pool {
			k.expect(c, it)
		}
	}
	check()
	pick := func() item[S] { return pool[r.Intn(len(pool))] }
	for step := 0; step < 6; step++ {
		ord := r.Intn(2) == 0
		name := fmt.Sprintf("r%d", step)
		switch r.Intn(6) {
		case 0: // union
			lgK := uint8(5 + r.Intn(4))
			p := ps[r.Intn(len(ps))]
			c.Desc("%s: union lgK %d p %v", name, lgK, p)
			u := k.union(c, tuple.WithUnionLgK(lgK), tuple.WithUnionSketchP(p), tuple.WithUnionResizeFactor(rfs[r.Intn(4)]), tuple.WithUnionSeed(seed))
			w := model{empty: true, theta: startTheta(p), m: map[uint64]string{}}
			for j, n := 0, r.Intn(4)+1; j < n; j++ {
				it := pick()
				c.Desc("%s: union update with %s (%d keys, ordered %v)", name, it.name, len(it.w.m), it.s.IsOrdered())
				c.NoErr(u.update(it.s), "union update")
				if !it.w.empty {
					w.empty = false
					w.theta = min(w.theta, it.w.theta)
					for h, s := range it.w.m {
						if old, ok := w.m[h]; ok {
							w.m[h] = k.merge(old, s)
						} else {
							w.m[h] = s
						}
					}
				}
				if j == n-1 || r.Intn(2) == 0 {
					res, err := u.result(ord)
					c.NoErr(err, "union result")
					out := model{empty: w.empty, theta: w.theta, m: map[uint64]string{}}
					var hs []uint64
					for h := range w.m {
						if h < w.theta {
							hs = append(hs, h)
						}
					}
					slices.Sort(hs)
					if len(hs) > 1<<lgK {
						out.theta = hs[1<<lgK]
						hs = hs[:1<<lgK]
					}
					for _, h := range hs {
						out.m[h] = w.m[h]
					}
					it := item[S]{fmt.Sprintf("%s.%d", name, j), res, out}
					if ord {
						c.Ok(res.IsOrdered(), "%s: an ordered result says it is not ordered", it.name)
					}
					k.expect(c, it)
					pool = append(pool, it)
				}
				if r.Intn(8) == 0 {
					c.Desc("%s: reset", name)
					u.reset()
					w = model{empty: true, theta: startTheta(p), m: map[uint64]string{}}
				}
			}
		case 1: // intersection
			c.Desc("%s: intersection", name)
			u := k.inter(tuple.WithIntersectionSeed(seed))
			var w model
			for j, n := 0, r.Intn(4)+1; j < n; j++ {
				it := pick()
				c.Desc("%s: intersection update with %s (%d keys, ordered %v)", name, it.name, len(it.w.m), it.s.IsOrdered())
				c.NoErr(u.update(it.s), "intersection update")
				if j == 0 {
					w = model{empty: it.w.empty, theta: it.w.theta, m: map[uint64]string{}}
					for h, s := range it.w.m {
						w.m[h] = s
					}
					if w.empty {
						w.theta = theta.MaxTheta
					}
				} else if !w.empty {
					nm := map[uint64]string{}
					if it.w.empty {
						w.empty, w.theta = true, theta.MaxTheta
					} else {
						w.theta = min(w.theta, it.w.theta)
						for h, s := range it.w.m {
							if old, ok := w.m[h]; ok && h < w.theta {
								nm[h] = k.merge(old, s)
							}
						}
						if len(nm) == 0 && w.theta == theta.MaxTheta {
							w.empty = true
						}
					}
					w.m = nm
				}
				if j == n-1 || r.Intn(2) == 0 {
					res, err := u.result(ord)
					c.NoErr(err, "intersection result")
					out := model{w.empty, w.theta, map[uint64]string{}}
					for h, s := range w.m {
						out.m[h] = s
					}
					it := item[S]{fmt.Sprintf("%s.%d", name, j), res, out}
					k.expect(c, it)
					pool = append(pool, it)
				}
			}
		case 2: // difference
			a, b := pick(), pick()
			c.Desc("%s: %s and not %s (%d keys, ordered %v; %d keys, ordered %v)", name, a.name, b.name, len(a.w.m), a.s.IsOrdered(), len(b.w.m), b.s.IsOrdered())
			res, err := k.anotb(a.s, b.s, seed, ord)
			c.NoErr(err, "difference")
			out := model{a.w.empty, a.w.theta, map[uint64]string{}}
			if !a.w.empty && !b.w.empty {
				out.theta = min(a.w.theta, b.w.theta)
			}
			for h, s := range a.w.m {
				if _, ok := b.w.m[h]; !ok && h < out.theta {
					out.m[h] = s
				}
			}
			if len(out.m) == 0 && out.theta == theta.MaxTheta {
				out.empty = true
			}
			if !a.w.empty && len(a.w.m) == 0 && b.w.empty {
				out.theta = res.Theta64()
			}
			it := item[S]{name, res, out}
			k.expect(c, it)
			pool = append(pool, it)
		case 3: // filter
			if k.filter == nil {
				continue
			}
			a := pick()
			d := 2 + r.Intn(2)
			c.Desc("%s: filter %s by length modulo %d", name, a.name, d)
			keep := func(s string) bool { return len(s)%d == 0 }
			res, err := k.filter(a.s, func(s S) bool { return keep(k.val(s)) })
			c.NoErr(err, "filter")
			out := model{a.w.empty, a.w.theta, map[uint64]string{}}
			for h, s := range a.w.m {
				if keep(s) {
					out.m[h] = s
				}
			}
			if len(out.m) == 0 && out.theta == theta.MaxTheta {
				out.empty = true
			}
			it := item[S]{name, res, out}
			k.expect(c, it)
			pool = append(pool, it)
		case 4: // compact
			a := pick()
			c.Desc("%s: compact of %s, ordered %v", name, a.name, ord)
			res, err := k.compact(a.s, ord)
			c.NoErr(err, "compact")
			it := item[S]{name, res, a.w}
			k.expect(c, it)
			pool = append(pool, it)
		case 5: // image
			a := pick()
			c.Desc("%s: image of %s", name, a.name)
			res, err := k.compact(a.s, ord)
			c.NoErr(err, "compact")
			w := a.w
			q := k.trip(c, res, seed)
			if w.empty {
				w.theta = q.Theta64()
			}
			it := item[S]{name, q, w}
			k.expect(c, it)
			pool = append(pool, it)
		}
		check()
	}
}

// a summary that remembers the order of everything folded into it
type logSum struct{ s string }

func (l *logSum) Reset()               { l.s = "" }
func (l *logSum) Clone() tuple.Summary { return &logSum{l.s} }
func (l *logSum) Update(v int)         { l.s += string(rune('a' + v)) }

type logPolicy struct{}

func (logPolicy) Apply(in, more *logSum) { in.s += "|" + more.s }

func fold(prev string, had bool, v int) string { return prev + string(rune('a'+v)) }
func join(a, b string) string                  { return a + "|" + b }

func wstr(w io.Writer, s string) error {
	if err := binary.Write(w, binary.LittleEndian, uint32(len(s))); err != nil {
		return err
	}
	_, err := io.WriteString(w, s)
	return err
}
func rstr(r io.Reader) (string, error) {
	var n uint32
	if err := binary.Read(r, binary.LittleEndian, &n); err != nil {
		return "", err
	}
	b := make([]byte, n)
	_, err := io.ReadFull(r, b)
	return string(b), err
}

func tripT[S tuple.Summary](w tuple.SummaryWriter[S], rd tuple.SummaryReader[S]) func(c *hk.C, s tuple.Sketch[S], seed uint64) tuple.Sketch[S] {
	return func(c *hk.C, s tuple.Sketch[S], seed uint64) tuple.Sketch[S] {
		var b bytes.Buffer
		enc := tuple.NewEncoder[S](&b, w)
		c.NoErr(enc.Encode(s.(*tuple.CompactSketch[S])), "encode")
		q, err := tuple.Decode[S](b.Bytes(), seed, rd)
		c.NoErr(err, "decode")
		return q
	}
}

func filterT[S tuple.UpdatableSummary[int]](s tuple.Sketch[S], f func(S) bool) (tuple.Sketch[S], error) {
	switch x := s.(type) {
	case *tuple.CompactSketch[S]:
		return x.Filter(f)
	case *tuple.UpdateSketch[S, int]:
		return x.Filter(f)
	}
	panic("sketch type")
}

func freshT[S tuple.UpdatableSummary[int]](mk func() S, fn func(S, int) S) func(c *hk.C, o ...tuple.UpdateSketchOptionFunc) updater[S] {
	return func(c *hk.C, o ...tuple.UpdateSketchOptionFunc) updater[S] {
		var s *tuple.UpdateSketch[S, int]
		var err error
		if fn == nil {
			s, err = tuple.NewUpdateSketch[S, int](mk, o...)
		} else {
			s, err = tuple.NewUpdateSketchWithSummaryUpdateFunc[S, int](mk, fn, o...)
		}
		c.NoErr(err, "new update sketch")
		return updater[S]{
			update: func(key int64, str bool, v int) error {
				if str {
					return s.UpdateString(fmt.Sprint("key", key), v)
				}
				if key >= 0 && key < 1<<31 && v%3 == 0 {
					return s.UpdateUint32(uint32(key), v)
				}
				return s.UpdateInt64(key, v)
			},
			sk:      func() tuple.Sketch[S] { return s },
			compact: func(o bool) (tuple.Sketch[S], error) { return s.Compact(o) },
			filter:  func(f func(S) bool) (tuple.Sketch[S], error) { return s.Filter(f) },
			trim:    s.Trim, reset: s.Reset,
		}
	}
}

func kindLog() kind[*logSum] {
	type S = *logSum
	return kind[S]{
		val: func(s S) string { return s.s }, upd: fold, merge: join,
		fresh: freshT[S](func() S { return &logSum{} }, nil),
		union: func(c *hk.C, o ...tuple.UnionOptionFunc) setop[S] {
			u, err := tuple.NewUnion[S](logPolicy{}, o...)
			c.NoErr(err, "new union")
			return setop[S]{u.Update, func(b bool) (tuple.Sketch[S], error) { return u.Result(b) }, u.Reset}
		},
		inter: func(o ...tuple.IntersectionOptionFunc) setop[S] {
			u := tuple.NewIntersection[S](logPolicy{}, o...)
			return setop[S]{u.Update, func(b bool) (tuple.Sketch[S], error) { return u.Result(b) }, nil}
		},
		anotb:   func(a, b tuple.Sketch[S], seed uint64, o bool) (tuple.Sketch[S], error) { return tuple.ANotB(a, b, seed, o) },
		compact: func(a tuple.Sketch[S], o bool) (tuple.Sketch[S], error) { return tuple.NewCompactSketch(a, o) },
		trip:    tripT[S](func(w io.Writer, s S) error { return wstr(w, s.s) }, func(r io.Reader) (S, error) { s, err := rstr(r); return &logSum{s}, err }),
		filter:  filterT[S],
	}
}

// the same as a value
type valSum struct{ s string }

func (l valSum) Reset()               {}
func (l valSum) Clone() tuple.Summary { return l }
func (l valSum) Update(v int)         {}

func kindVal() kind[valSum] {
	type S = valSum
	cat := func(a, b S) S { return S{join(a.s, b.s)} }
	return kind[S]{
		val: func(s S) string { return s.s }, upd: fold, merge: join,
		fresh: freshT[S](func() S { return S{} }, func(s S, v int) S { return S{fold(s.s, true, v)} }),
		union: func(c *hk.C, o ...tuple.UnionOptionFunc) setop[S] {
			u, err := tuple.NewUnionWithSummaryMergeFunc[S](cat, o...)
			c.NoErr(err, "new union")
			return setop[S]{u.Update, func(b bool) (tuple.Sketch[S], error) { return u.Result(b) }, u.Reset}
		},
		inter: func(o ...tuple.IntersectionOptionFunc) setop[S] {
			u := tuple.NewIntersectionWithSummaryMergeFunc[S](cat, o...)
			return setop[S]{u.Update, func(b bool) (tuple.Sketch[S], error) { return u.Result(b) }, nil}
		},
		anotb: func(a, b tuple.Sketch[S], seed uint64, o bool) (tuple.Sketch[S], error) {
			return tuple.ANotB(a, b, seed, o)
		},
		compact: func(a tuple.Sketch[S], o bool) (tuple.Sketch[S], error) { return tuple.NewCompactSketch(a, o) },
		trip:    tripT[S](func(w io.Writer, s S) error { return wstr(w, s.s) }, func(r io.Reader) (S, error) { s, err := rstr(r); return S{s}, err }),
		filter:  filterT[S],
	}
}

// arrays of numbers: the sums of the columns
type addPolicy[V tuple.Number] struct{}

func (addPolicy[V]) Apply(in, more *tuple.ArrayOfNumbersSummary[V]) { in.Update(more.Values()) }

func kindNums[V tuple.Number]() kind[*tuple.ArrayOfNumbersSummary[V]] {
	type S = *tuple.ArrayOfNumbersSummary[V]
	parse := func(s string) (a, b int) { fmt.Sscanf(s, "[%d %d]", &a, &b); return }
	add := func(a, b string) string {
		x, y := parse(a)
		z, w := parse(b)
		return fmt.Sprintf("[%d %d]", x+z, y+w)
	}
	nums := func(s tuple.Sketch[S]) tuple.ArrayOfNumbersSketch[V] { return s.(tuple.ArrayOfNumbersSketch[V]) }
	return kind[S]{
		val: func(s S) string {
			var o []string
			for _, v := range s.Values() {
				o = append(o, fmt.Sprint(int(v)))
			}
			return "[" + strings.Join(o, " ") + "]"
		},
		upd:   func(p string, had bool, v int) string { return add(p, fmt.Sprintf("[%d 1]", v)) },
		merge: add,
		fresh: func(c *hk.C, o ...tuple.UpdateSketchOptionFunc) updater[S] {
			s, err := tuple.NewArrayOfNumbersUpdateSketch[V](2, o...)
			c.NoErr(err, "new update sketch")
			return updater[S]{
				update: func(key int64, str bool, v int) error {
					if str {
						return s.UpdateString(fmt.Sprint("key", key), []V{V(v), 1})
					}
					return s.UpdateInt64(key, []V{V(v), 1})
				},
				sk:      func() tuple.Sketch[S] { return s },
				compact: func(o bool) (tuple.Sketch[S], error) { return s.Compact(o) },
				trim:    s.Trim, reset: s.Reset,
			}
		},
		union: func(c *hk.C, o ...tuple.UnionOptionFunc) setop[S] {
			u, err := tuple.NewArrayOfNumbersSketchUnion[V](addPolicy[V]{}, 2, o...)
			c.NoErr(err, "new union")
			return setop[S]{func(s tuple.Sketch[S]) error { return u.Update(nums(s)) }, func(b bool) (tuple.Sketch[S], error) { return u.Result(b) }, u.Reset}
		},
		inter: func(o ...tuple.IntersectionOptionFunc) setop[S] {
			u := tuple.NewArrayOfNumbersSketchIntersection[V](addPolicy[V]{}, 2, o...)
			return setop[S]{func(s tuple.Sketch[S]) error { return u.Update(nums(s)) }, func(b bool) (tuple.Sketch[S], error) { return u.Result(b) }, nil}
		},
		anotb: func(a, b tuple.Sketch[S], seed uint64, o bool) (tuple.Sketch[S], error) {
			return tuple.ArrayOfNumbersSketchANotB[V](nums(a), nums(b), seed, o)
		},
		compact: func(a tuple.Sketch[S], o bool) (tuple.Sketch[S], error) {
			return tuple.NewArrayOfNumbersCompactSketch[V](nums(a), o)
		},
		trip: func(c *hk.C, s tuple.Sketch[S], seed uint64) tuple.Sketch[S] {
			var b bytes.Buffer
			enc := tuple.NewArrayOfNumbersSketchEncoder[V](&b)
			c.NoErr(enc.Encode(s.(*tuple.ArrayOfNumbersCompactSketch[V])), "encode")
			q, err := tuple.DecodeArrayOfNumbersCompactSketch[V](b.Bytes(), seed)
			c.NoErr(err, "decode")
			return q
		},
	}
}

// tuple sketches and theta sketches in one expression
func mixed(c *hk.C) {
	r := c.R
	k := kindLog()
	dom := []int{10, 100, 600}[r.Intn(3)]
	lgK := uint8(5 + r.Intn(3))
	a, err := tuple.NewUpdateSketch[*logSum, int](func() *logSum { return &logSum{} }, tuple.WithUpdateSketchLgK(lgK), tuple.WithUpdateSketchP(ps[r.Intn(len(ps))]))
	c.NoErr(err, "new")
	b, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(uint8(5+r.Intn(3))), theta.WithUpdateSketchP(ps[r.Intn(len(ps))]))
	c.NoErr(err, "new")
	n, m, off := r.Intn(dom+1), r.Intn(dom+1), r.Intn(dom)
	c.Desc("tuple of %d keys, theta of %d keys from %d", n, m, off)
	for i := 0; i < n; i++ {
		_ = a.UpdateInt64(int64(i), i%26)
	}
	for i := 0; i < m; i++ {
		_ = b.UpdateInt64(int64(i+off))
	}
	ao, bo, ord := r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
	ac, err := a.Compact(ao)
	c.NoErr(err, "compact")
	bc := b.Compact(bo)
	inB := map[uint64]bool{}
	for h := range bc.All() {
		inB[h] = true
	}
	var as tuple.Sketch[*logSum] = ac
	if !ao && r.Intn(2) == 0 {
		as = a
	}
	var bs theta.Sketch = bc
	if !bo && r.Intn(2) == 0 {
		bs = b
	}
	res, err := tuple.TupleANotThetaB[*logSum](as, bs, theta.DefaultSeed, ord)
	c.NoErr(err, "difference")
	w := model{ac.IsEmpty(), ac.Theta64(), map[uint64]string{}}
	if !ac.IsEmpty() && !bc.IsEmpty() {
		w.theta = min(w.theta, bc.Theta64())
	}
	all := model{ac.IsEmpty(), ac.Theta64(), map[uint64]string{}}
	for h, s := range ac.All() {
		all.m[h] = s.s
		if !inB[h] && h < w.theta {
			w.m[h] = s.s
		}
	}
	if len(w.m) == 0 && w.theta == theta.MaxTheta {
		w.empty = true
	}
	k.expect(c, item[*logSum]{"tuple and not theta", res, w})
	k.expect(c, item[*logSum]{"first operand", as, all})

	// a theta sketch as a tuple sketch with one summary for every key
	one := &logSum{"x"}
	ts, err := tuple.NewCompactSketchFromThetaSketch[*logSum](bs, one, ord)
	c.NoErr(err, "tuple sketch of a theta sketch")
	tw := model{bc.IsEmpty(), bc.Theta64(), map[uint64]string{}}
	for h := range inB {
		tw.m[h] = "x"
	}
	k.expect(c, item[*logSum]{"tuple sketch of a theta sketch", ts, tw})
	u, err := tuple.NewUnion[*logSum](logPolicy{}, tuple.WithUnionLgK(12))
	c.NoErr(err, "new union")
	first, second := tuple.Sketch[*logSum](ts), as
	fw, sw := tw, all
	if r.Intn(2) == 0 {
		first, second, fw, sw = second, first, sw, fw
	}
	c.NoErr(u.Update(first), "union")
	c.NoErr(u.Update(second), "union")
	got, err := u.Result(ord)
	c.NoErr(err, "union result")
	uw := model{fw.empty && sw.empty, theta.MaxTheta, map[uint64]string{}}
	if !fw.empty {
		uw.theta = min(uw.theta, fw.theta)
	}
	if !sw.empty {
		uw.theta = min(uw.theta, sw.theta)
	}
	for h, s := range fw.m {
		uw.m[h] = s
	}
	for h, s := range sw.m {
		if old, ok := uw.m[h]; ok {
			uw.m[h] = join(old, s)
		} else {
			uw.m[h] = s
		}
	}
	for h := range uw.m {
		if h >= uw.theta {
			delete(uw.m, h)
		}
	}
	k.expect(c, item[*logSum]{"union", got, uw})
	k.expect(c, item[*logSum]{"tuple sketch of a theta sketch, after the union", ts, tw})
	k.expect(c, item[*logSum]{"first operand, after the union", as, all})
}

func main() {
	hk.Main(func(h *hk.H) {
		lk, vk, nf, ni := kindLog(), kindVal(), kindNums[float64](), kindNums[int64]()
		h.Loop("pointer-summaries", 1500, func(c *hk.C) { run(c, lk) })
		h.Loop("value-summaries", 1000, func(c *hk.C) { run(c, vk) })
		h.Loop("float-columns", 800, func(c *hk.C) { run(c, nf) })
		h.Loop("integer-columns", 800, func(c *hk.C) { run(c, ni) })
		h.Loop("tuple-and-theta", 2000, mixed)
	})
}
