// Concrete search for P06: Bloom filters against the set of added items and a recount of the serialized bits.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"math/rand"

	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/verifharness/hk"
)

type item struct {
	kind int
	u    uint64
	s    []byte
	a    []uint64
}

const kinds = 7

func (i item) String() string {
	switch i.kind {
	case 0, 1, 2:
		return fmt.Sprintf("%s:%x", []string{"uint64", "int64", "float64"}[i.kind], i.u)
	case 3, 4:
		return fmt.Sprintf("%s:%x", []string{"string", "bytes"}[i.kind-3], i.s)
	}
	return fmt.Sprintf("%s:%x", []string{"int64s", "float64s"}[i.kind-5], i.a)
}

func ints(a []uint64) []int64 {
	o := make([]int64, len(a))
	for i := range a {
		o[i] = int64(a[i])
	}
	return o
}
func floats(a []uint64) []float64 {
	o := make([]float64, len(a))
	for i := range a {
		o[i] = math.Float64frombits(a[i])
	}
	return o
}

// void items are documented to be ignored
func (i item) void() bool { return i.kind == 3 && len(i.s) == 0 || i.kind >= 5 && len(i.a) == 0 }

func (i item) update(f filters.BloomFilter) error {
	switch i.kind {
	case 0:
		return f.UpdateUInt64(i.u)
	case 1:
		return f.UpdateInt64(int64(i.u))
	case 2:
		return f.UpdateFloat64(math.Float64frombits(i.u))
	case 3:
		return f.UpdateString(string(i.s))
	case 4:
		return f.UpdateSlice(i.s)
	case 5:
		return f.UpdateInt64Array(ints(i.a))
	}
	return f.UpdateFloat64Array(floats(i.a))
}

func (i item) query(f filters.BloomFilter) bool {
	switch i.kind {
	case 0:
		return f.QueryUInt64(i.u)
	case 1:
		return f.QueryInt64(int64(i.u))
	case 2:
		return f.QueryFloat64(math.Float64frombits(i.u))
	case 3:
		return f.QueryString(string(i.s))
	case 4:
		return f.QuerySlice(i.s)
	case 5:
		return f.QueryInt64Array(ints(i.a))
	}
	return f.QueryFloat64Array(floats(i.a))
}

func (i item) both(f filters.BloomFilter) bool {
	switch i.kind {
	case 0:
		return f.QueryAndUpdateUInt64(i.u)
	case 1:
		return f.QueryAndUpdateInt64(int64(i.u))
	case 2:
		return f.QueryAndUpdateFloat64(math.Float64frombits(i.u))
	case 3:
		return f.QueryAndUpdateString(string(i.s))
	case 4:
		return f.QueryAndUpdateSlice(i.s)
	case 5:
		return f.QueryAndUpdateInt64Array(ints(i.a))
	}
	return f.QueryAndUpdateFloat64Array(floats(i.a))
}

var odd = []uint64{0, 1, 1 << 63, 1<<63 | 1, math.MaxUint64, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff8000000000001, 0xfff8000000000000, 0x7ff0000000000001, 0x3ff0000000000000}

func word(r *rand.Rand) uint64 {
	switch r.Intn(3) {
	case 0:
		return odd[r.Intn(len(odd))]
	case 1:
		return uint64(r.Intn(200))
	}
	return r.Uint64()
}

func randItem(r *rand.Rand) item {
	i := item{kind: r.Intn(kinds)}
	switch i.kind {
	case 0, 1, 2:
		i.u = word(r)
	case 3, 4:
		i.s = make([]byte, r.Intn(70))
		r.Read(i.s)
	default:
		for n := r.Intn(9); n > 0; n-- {
			i.a = append(i.a, word(r))
		}
	}
	return i
}

type fm struct { // a filter and what it must report
	f   filters.BloomFilter
	all []item
}

func image(c *hk.C, f filters.BloomFilter) []byte {
	b, err := f.ToCompactSlice()
	c.NoErr(err, "ToCompactSlice")
	return b
}

// words recovers the bit array from the serialized form
func words(c *hk.C, f filters.BloomFilter) []uint64 {
	b := image(c, f)
	n := int(f.Capacity() / 64)
	w := make([]uint64, n)
	c.Ok(f.Capacity()%64 == 0 && n > 0, "capacity %d", f.Capacity())
	if len(b) == 24 {
		return w
	}
	c.Ok(len(b) == 32+8*n, "serialized filter of %d words has %d bytes", n, len(b))
	for i := range w {
		w[i] = binary.LittleEndian.Uint64(b[32+8*i:])
	}
	return w
}

func pop(w []uint64) (n uint64) {
	for _, x := range w {
		n += uint64(bits.OnesCount64(x))
	}
	return
}

func (m *fm) check(c *hk.C, what string) {
	w := words(c, m.f)
	p := pop(w)
	c.Ok(m.f.BitsUsed() == p, "%s: BitsUsed is %d, %d bits are set", what, m.f.BitsUsed(), p)
	c.Ok(m.f.IsEmpty() == (p == 0), "%s: IsEmpty is %v with %d bits set", what, m.f.IsEmpty(), p)
	for _, i := range m.all {
		c.Ok(i.query(m.f), "%s: added item %v is reported as absent", what, i)
	}
	c.Ok(m.f.BitsUsed() == p && equal(words(c, m.f), w), "%s: queries changed the filter", what)
}

func equal(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *fm) add(c *hk.C, i item) {
	r := c.R
	var ks []byte
	ks = append(ks, i.s...)
	if r.Intn(2) == 0 {
		before := i.query(m.f)
		u := m.f.BitsUsed()
		got := i.both(m.f)
		c.Ok(got == before, "query-and-update of %v returned %v, query before it %v", i, got, before)
		if before {
			c.Ok(m.f.BitsUsed() == u, "query-and-update of present %v changed the bit count %d to %d", i, u, m.f.BitsUsed())
		}
	} else {
		c.NoErr(i.update(m.f), "update")
	}
	c.Ok(bytes.Equal(ks, i.s), "update modified the item")
	if i.void() {
		return
	}
	if i.kind == 4 && len(i.s) > 0 && r.Intn(2) == 0 { // caller may reuse its buffer
		j := item{kind: 4, s: bytes.Clone(i.s)}
		clear(i.s)
		i = j
	}
	m.all = append(m.all, i)
	c.Ok(i.query(m.f), "item %v just added is reported as absent", i)
}

func build(c *hk.C, bitsN uint64, h uint16, seed uint64) filters.BloomFilter {
	f, err := filters.NewBloomFilterBySize(bitsN, h, filters.WithSeed(seed))
	c.NoErr(err, "NewBloomFilterBySize(%d, %d)", bitsN, h)
	c.Ok(f.Capacity() >= bitsN && f.Capacity() < bitsN+64 && f.NumHashes() == h && f.Seed() == seed && f.BitsUsed() == 0 && f.IsEmpty(), "wrong parameters: %d bits, %d hashes, seed %d", f.Capacity(), f.NumHashes(), f.Seed())
	return f
}

func restore(c *hk.C, f filters.BloomFilter) filters.BloomFilter {
	b := image(c, f)
	k := bytes.Clone(b)
	g, err := filters.NewBloomFilterFromSlice(b)
	c.NoErr(err, "NewBloomFilterFromSlice")
	c.Ok(bytes.Equal(b, k), "reading modified the bytes")
	for i := range b {
		b[i] = 0xAA
	}
	c.Ok(g.Capacity() == f.Capacity() && g.NumHashes() == f.NumHashes() && g.Seed() == f.Seed() && g.BitsUsed() == f.BitsUsed(), "restored filter has %d bits, %d hashes, seed %d, %d used; original %d, %d, %d, %d", g.Capacity(), g.NumHashes(), g.Seed(), g.BitsUsed(), f.Capacity(), f.NumHashes(), f.Seed(), f.BitsUsed())
	c.Ok(bytes.Equal(image(c, g), k), "restored filter serializes differently")
	c.Ok(f.IsCompatible(g) && g.IsCompatible(f), "restored filter is incompatible")
	return g
}

func histories(c *hk.C) {
	r := c.R
	n := []uint64{1, 2, 63, 64, 65, 127, 128, 129, 1000, 5000, uint64(1 + r.Intn(20000))}[r.Intn(11)]
	h := []uint16{1, 2, 3, 7, 16, 100, uint16(1 + r.Intn(30))}[r.Intn(7)]
	seed := []uint64{0, 9001, math.MaxUint64, r.Uint64()}[r.Intn(4)]
	c.Desc("NewBloomFilterBySize(%d, %d, seed %d)", n, h, seed)
	ms := []*fm{{f: build(c, n, h, seed)}, {f: build(c, n, h, seed)}}
	for step := 0; step < 12; step++ {
		x := r.Intn(2)
		m, o := ms[x], ms[1-x]
		switch r.Intn(8) {
		case 0, 1, 2:
			for k := r.Intn(12); k >= 0; k-- {
				i := randItem(r)
				c.Desc("filter %d: add %v", x, i)
				m.add(c, i)
			}
		case 3:
			c.Desc("filter %d: union with the other", x)
			a, b := words(c, m.f), words(c, o.f)
			c.NoErr(m.f.Union(o.f), "Union")
			w := words(c, m.f)
			for i := range w {
				c.Ok(w[i] == a[i]|b[i], "union: word %d is %x, operands %x and %x", i, w[i], a[i], b[i])
			}
			c.Ok(equal(words(c, o.f), b), "union changed its operand")
			m.all = append(m.all, o.all...)
		case 4:
			c.Desc("filter %d: intersect with the other", x)
			a, b := words(c, m.f), words(c, o.f)
			c.NoErr(m.f.Intersect(o.f), "Intersect")
			w := words(c, m.f)
			for i := range w {
				c.Ok(w[i] == a[i]&b[i], "intersection: word %d is %x, operands %x and %x", i, w[i], a[i], b[i])
			}
			c.Ok(equal(words(c, o.f), b), "intersection changed its operand")
			var keep []item
			for _, i := range m.all {
				if i.query(o.f) {
					keep = append(keep, i)
				}
			}
			for _, i := range o.all {
				if has(m.all, i) {
					keep = append(keep, i)
				}
			}
			m.all = keep
		case 5:
			c.Desc("filter %d: invert", x)
			a := words(c, m.f)
			c.NoErr(m.f.Invert(), "Invert")
			w := words(c, m.f)
			for i := range w {
				c.Ok(w[i] == ^a[i], "inversion: word %d is %x, was %x", i, w[i], a[i])
			}
			m.all = nil
			if r.Intn(2) == 0 {
				m.check(c, "inverted")
				c.NoErr(m.f.Invert(), "Invert")
				c.Ok(equal(words(c, m.f), a), "inverting twice differs from the original")
			}
		case 6:
			c.Desc("filter %d: reset", x)
			if r.Intn(3) == 0 {
				c.NoErr(m.f.Reset(), "Reset")
				m.all = nil
				c.Ok(m.f.BitsUsed() == 0 && pop(words(c, m.f)) == 0, "reset filter has bits")
			}
		case 7:
			c.Desc("filter %d: round trip", x)
			m.f = restore(c, m.f)
		}
		m.check(c, fmt.Sprintf("filter %d", x))
	}
	// incompatible filters are rejected and nothing changes
	m := ms[0]
	before := image(c, m.f)
	for _, z := range []filters.BloomFilter{build(c, n+64, h, seed), build(c, n, h+1, seed), build(c, n, h, seed^1), build(c, n, h, seed^(1<<63)), build(c, n, h^0x100, seed)} {
		_ = z.UpdateUInt64(1)
		c.Ok(!m.f.IsCompatible(z) && !z.IsCompatible(m.f), "IsCompatible accepts another shape: %d bits, %d hashes, seed %d", z.Capacity(), z.NumHashes(), z.Seed())
		c.Ok(m.f.Union(z) != nil && m.f.Intersect(z) != nil, "union or intersection with an incompatible filter accepted: %d bits, %d hashes, seed %d", z.Capacity(), z.NumHashes(), z.Seed())
	}
	c.Ok(bytes.Equal(before, image(c, m.f)), "a rejected operation changed the filter")
}

func has(l []item, i item) bool {
	for _, j := range l {
		if j.kind == i.kind && j.u == i.u && bytes.Equal(j.s, i.s) && equal(j.a, i.a) {
			return true
		}
	}
	return false
}

// equal items of the same type must be the same item, whatever their representation
func canonical(c *hk.C) {
	r := c.R
	f := build(c, uint64(100000+r.Intn(1000)), uint16(5+r.Intn(20)), r.Uint64())
	nan := func() float64 {
		return math.Float64frombits(0x7ff0000000000000 | r.Uint64()>>12 | 1 | uint64(r.Intn(2))<<63)
	}
	a, b := nan(), nan()
	c.Desc("NaN %x and %x", math.Float64bits(a), math.Float64bits(b))
	c.NoErr(f.UpdateFloat64(a), "update")
	c.Ok(f.QueryFloat64(b), "a NaN added is not found as another NaN")
	z := []float64{0, math.Copysign(0, -1)}
	x := r.Intn(2)
	c.NoErr(f.UpdateFloat64(z[x]), "update")
	c.Ok(f.QueryFloat64(z[1-x]), "a zero added is not found as the other zero")
	s := make([]byte, 1+r.Intn(80))
	r.Read(s)
	c.Desc("string %x", s)
	c.NoErr(f.UpdateString(string(s)), "update")
	c.Ok(f.QuerySlice(s) && f.QueryAndUpdateSlice(s) && f.QueryAndUpdateString(string(s)), "string added is not found as bytes")
	v := r.Uint64()
	c.NoErr(f.UpdateUInt64(v), "update")
	c.Ok(f.QueryInt64(int64(v)) && f.QueryAndUpdateInt64(int64(v)), "unsigned integer added is not found as the signed one")
}

func many(c *hk.C) {
	r := c.R
	h := []uint16{65535, 65534, 32768, 65280}[r.Intn(4)]
	c.Desc("NewBloomFilterBySize(%d, %d)", 4096, h)
	m := &fm{f: build(c, []uint64{64, 4096, 1 << 17}[r.Intn(3)], h, r.Uint64())}
	for k := 0; k < 3; k++ {
		m.add(c, randItem(r))
		m.check(c, "many hashes")
	}
	m.f = restore(c, m.f)
	m.check(c, "many hashes restored")
}

func accuracy(c *hk.C) {
	r := c.R
	n := uint64(1 + r.Intn(3000))
	p := []float64{0.5, 0.1, 0.01, 1e-6, 1e-12, 0.999, 0.9999999}[r.Intn(7)]
	c.Desc("NewBloomFilterByAccuracy(%d, %g)", n, p)
	f, err := filters.NewBloomFilterByAccuracy(n, p)
	c.NoErr(err, "NewBloomFilterByAccuracy")
	m := &fm{f: f}
	for k := 0; k < 50; k++ {
		m.add(c, randItem(r))
	}
	m.check(c, "by accuracy")
	m.f = restore(c, m.f)
	m.check(c, "by accuracy restored")
}

// malformed images are rejected, or read as a filter that keeps the rules
func images(c *hk.C) {
	r := c.R
	m := &fm{f: build(c, uint64(1+r.Intn(400)), uint16(1+r.Intn(5)), r.Uint64())}
	for k := r.Intn(5); k > 0; k-- {
		m.add(c, randItem(r))
	}
	b := image(c, m.f)
	cut := r.Intn(len(b))
	c.Desc("image %x cut at %d", b, cut)
	_, err := filters.NewBloomFilterFromSlice(b[:cut])
	c.Ok(err != nil, "image cut from %d to %d bytes accepted", len(b), cut)
	_, err = filters.NewBloomFilterFromSlice(append(bytes.Clone(b), 0))
	c.Ok(err != nil, "image with a surplus byte accepted")
	x := bytes.Clone(b)
	p := r.Intn(24)
	x[p] = byte(r.Intn(256))
	c.Desc("byte %d set to %d", p, x[p])
	if p >= 16 && p < 20 && len(b) == 24 {
		return // any array length is valid there
	}
	if g, err := filters.NewBloomFilterFromSlice(x); err == nil {
		c.Ok(x[0] == b[0] && x[1] == b[1] && x[2] == b[2] && g.Capacity() == m.f.Capacity(), "image with a damaged preamble accepted")
		c.Ok(pop(words(c, g)) == g.BitsUsed(), "image read with a wrong bit count")
	}
}

func main() {
	hk.Main(func(h *hk.H) {
		q := 1
		if h.Thorough() {
			q = 20
		}
		h.Loop("histories", 3000*q, histories)
		h.Loop("canonical", 1500*q, canonical)
		h.Loop("many", 12*q, many)
		h.Loop("accuracy", 150*q, accuracy)
		h.Loop("images", 2500*q, images)
		h.Bounded("Bloom filter histories of 12 steps over two filters of up to 20000 bits with all 7 item types, union, intersection, inversion, reset and round trips; up to 65535 hashes; damaged images")
	})
}
