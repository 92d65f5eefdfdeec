// Concrete search for P13: every HLL slot holds the largest value hashed to it.
package main

import (
	"bytes"
	"encoding/binary"
	"math"
	"math/bits"
	"sort"

	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/verifharness/hk"
)

const seed = 9001

var types = []hll.TgtHllType{hll.TgtHllTypeHll4, hll.TgtHllTypeHll6, hll.TgtHllTypeHll8}

// the coupon of an input: 6 bits of value above 26 bits of address
func couponOf(b []byte) uint32 {
	h1, h2 := hk.Murmur(b, seed)
	v := bits.LeadingZeros64(h2)
	if v > 62 {
		v = 62
	}
	return uint32(v+1)<<26 | uint32(h1&(1<<26-1))
}

// an input with the given address and value
func inputFor(c *hk.C, addr uint32, v int) []byte {
	h2 := uint64(1)<<(64-v) | c.R.Uint64()&(1<<(64-v)-1)
	if v == 63 {
		h2 = uint64(c.R.Intn(4))
	}
	return hk.Preimage(c.R.Uint64()&^(1<<26-1)|uint64(addr&(1<<26-1)), h2, seed)
}

type img struct {
	lgK, mode, typ int
	coupons        map[uint32]bool
	slots          []int
	curMin, num    int
	kxq            float64
	ooo            bool
}

func decode(c *hk.C, what string, b []byte) *img {
	c.Ok(len(b) >= 8, "%s: image of %d bytes", what, len(b))
	g := &img{lgK: int(b[3]), mode: int(b[7] & 3), typ: int(b[7] >> 2 & 3), ooo: b[5]&16 != 0}
	compact := b[5]&8 != 0
	u32 := func(at int) uint32 { return binary.LittleEndian.Uint32(b[at:]) }
	if g.mode < 2 {
		start, n, room := 8, int(b[6]), 8
		if g.mode == 1 {
			start, n, room = 12, int(u32(8)), 1<<b[4]
		}
		if compact {
			room = n
		}
		c.Ok(len(b) == start+4*room, "%s: image of %d bytes for %d coupons", what, len(b), room)
		g.coupons = map[uint32]bool{}
		for i := 0; i < room; i++ {
			if v := u32(start + 4*i); v != 0 {
				c.Ok(!g.coupons[v], "%s: coupon %#x twice", what, v)
				g.coupons[v] = true
			}
		}
		c.Ok(len(g.coupons) == n, "%s: %d coupons, count %d", what, len(g.coupons), n)
		return g
	}
	k := 1 << g.lgK
	g.slots = make([]int, k)
	g.curMin, g.num = int(b[6]), int(u32(32))
	g.kxq = math.Float64frombits(binary.LittleEndian.Uint64(b[16:])) + math.Float64frombits(binary.LittleEndian.Uint64(b[24:]))
	d := b[40:]
	switch g.typ {
	case 2:
		c.Ok(len(d) == k, "%s: HLL_8 body of %d bytes", what, len(d))
		for i := range g.slots {
			g.slots[i] = int(d[i])
		}
	case 1:
		for i := range g.slots {
			at := 6 * i
			w := uint(d[at/8])
			if at/8+1 < len(d) {
				w |= uint(d[at/8+1]) << 8
			}
			g.slots[i] = int(w >> (at % 8) & 63)
		}
	case 0:
		aux := map[int]int{}
		n := int(u32(36))
		room := n
		if !compact && n > 0 {
			room = 1 << b[4]
		}
		for i := 0; i < room; i++ {
			if v := u32(40 + k/2 + 4*i); v != 0 {
				s := int(v & (1<<26 - 1) & uint32(k-1))
				_, twice := aux[s]
				c.Ok(!twice, "%s: two exceptions for slot %d", what, s)
				aux[s] = int(v >> 26)
			}
		}
		c.Ok(len(aux) == n, "%s: %d exceptions, count %d", what, len(aux), n)
		for i := range g.slots {
			v := int(d[i/2] >> (4 * (i % 2)) & 15)
			x, ok := aux[i]
			c.Ok(ok == (v == 15), "%s: slot %d stores %d, exception %v", what, i, v, ok)
			if ok {
				g.slots[i] = x
				c.Ok(x >= g.curMin+15, "%s: slot %d is an exception at %d with least value %d", what, i, x, g.curMin)
			} else {
				g.slots[i] = v + g.curMin
			}
		}
	}
	return g
}

// the sketch against the coupons of its inputs
func check(c *hk.C, what string, s hll.HllSketch, in map[uint32]bool, mode int) *img {
	comp, err := s.ToCompactSlice()
	c.NoErr(err, "%s: ToCompactSlice", what)
	upd, err := s.ToUpdatableSlice()
	c.NoErr(err, "%s: ToUpdatableSlice", what)
	g := decode(c, what+" (updatable image)", upd)
	g2 := decode(c, what+" (compact image)", comp)
	c.Ok(g.lgK == s.GetLgConfigK() && g.typ == int(s.GetTgtHllType()) && g.mode == int(s.GetCurMode()), "%s: image header lgK %d type %d mode %d", what, g.lgK, g.typ, g.mode)
	c.Ok(g2.lgK == g.lgK && g2.typ == g.typ && g2.mode == g.mode, "%s: compact header lgK %d type %d mode %d", what, g2.lgK, g2.typ, g2.mode)
	c.Ok(mode < 0 || g.mode == mode, "%s: mode %d after %d distinct coupons, expected %d", what, g.mode, len(in), mode)
	c.Ok(s.IsEmpty() == (len(in) == 0), "%s: IsEmpty %v with %d coupons", what, s.IsEmpty(), len(in))
	if g.mode < 2 {
		for _, x := range []*img{g, g2} {
			c.Ok(len(x.coupons) == len(in), "%s: holds %d coupons of %d", what, len(x.coupons), len(in))
			for v := range x.coupons {
				c.Ok(in[v], "%s: holds coupon %#x that no input has", what, v)
			}
		}
		return g
	}
	want := make([]int, 1<<g.lgK)
	for v := range in {
		s := v & (1<<g.lgK - 1)
		want[s] = max(want[s], int(v>>26))
	}
	least, zeros, atLeast := 64, 0, 0
	kxq := 0.0
	for i, v := range want {
		c.Ok(g.slots[i] == v, "%s: slot %d holds %d, largest value hashed to it is %d", what, i, g.slots[i], v)
		c.Ok(g2.slots[i] == v, "%s: slot %d of the compact image holds %d, largest value hashed to it is %d", what, i, g2.slots[i], v)
		if v == 0 {
			zeros++
		}
		if v < least {
			least, atLeast = v, 0
		}
		if v == least {
			atLeast++
		}
		kxq += math.Ldexp(1, -v)
	}
	if g.typ == 0 {
		c.Ok(g.curMin == least && g.num == atLeast, "%s: least value %d in %d slots, recorded %d in %d", what, least, atLeast, g.curMin, g.num)
	} else if g.curMin == 0 {
		c.Ok(g.num == zeros, "%s: %d empty slots, recorded %d", what, zeros, g.num)
	}
	c.Ok(math.Abs(g.kxq-kxq) <= 1e-9*kxq+math.Ldexp(1, 2*g.lgK-50), "%s: sum of 2^-value is %v, recorded %v", what, kxq, g.kxq)
	return g
}

// the mode a sketch of n distinct coupons is in
func modeOf(lgK, n int) int {
	switch {
	case n < 8:
		return 0
	case lgK >= 8 && 4*n <= 3<<(lgK-3):
		return 1
	}
	return 2
}

func feed(c *hk.C, s interface{ UpdateSlice([]byte) error }, in map[uint32]bool, b []byte) {
	c.NoErr(s.UpdateSlice(b), "UpdateSlice(%x)", b)
	in[couponOf(b)] = true
}

// conversions, copies and images hold the same state and share nothing with s
func variants(c *hk.C, what string, s hll.HllSketch, in map[uint32]bool) {
	g := check(c, what, s, in, -1)
	est, err := s.GetCompositeEstimate()
	c.NoErr(err, "%s: GetCompositeEstimate", what)
	for _, t := range types {
		cp, err := s.CopyAs(t)
		c.NoErr(err, "%s: CopyAs(%d)", what, t)
		c.Ok(cp.GetTgtHllType() == t && cp.GetLgConfigK() == g.lgK, "%s: CopyAs(%d) gave type %d lgK %d", what, t, cp.GetTgtHllType(), cp.GetLgConfigK())
		check(c, what+" converted", cp, in, g.mode)
		e, err := cp.GetCompositeEstimate()
		c.NoErr(err, "%s: GetCompositeEstimate of the copy", what)
		// sums of powers far below one are subject to cancellation
		c.Ok(g.mode == 2 && g.kxq < 1e-3 || math.Abs(e-est) <= 1e-9*est, "%s: composite estimate %v, %v converted", what, est, e)
		he, _ := s.GetEstimate()
		ce, _ := cp.GetEstimate()
		c.Ok(g.mode == 2 && g.kxq < 1e-3 || math.Abs(he-ce) <= 1e-9*he, "%s: estimate %v, %v converted", what, he, ce)
		for _, compact := range []bool{false, true} {
			b, err := cp.ToUpdatableSlice()
			if compact {
				b, err = cp.ToCompactSlice()
			}
			c.NoErr(err, "%s: image", what)
			was := bytes.Clone(b)
			back, err := hll.NewHllSketchFromSlice(b, c.R.Intn(2) == 0)
			c.NoErr(err, "%s: NewHllSketchFromSlice", what)
			check(c, what+" from its image", back, in, g.mode)
			be, err := back.GetEstimate()
			c.NoErr(err, "%s: GetEstimate", what)
			c.Ok(be == ce, "%s: estimate %v, %v from its image", what, ce, be)
			// the rebuilt sketch goes on counting, and the image is the caller's
			more := map[uint32]bool{}
			for v := range in {
				more[v] = true
			}
			for i := 0; i < 6; i++ {
				feed(c, back, more, inputFor(c, c.R.Uint32(), 1+c.R.Intn(40)))
			}
			c.Ok(bytes.Equal(b, was), "%s: the caller's image changed with the sketch", what)
			for i := range b {
				b[i] = 0xa5
			}
			check(c, what+" rebuilt and updated", back, more, -1)
		}
	}
	check(c, what+" after its images changed", s, in, g.mode)
	// a copy and its original go separate ways, in the slots they have in common too
	cp, err := s.CopyAs(types[c.R.Intn(3)])
	c.NoErr(err, "%s: CopyAs", what)
	if c.R.Intn(2) == 0 {
		cp, err = s.Copy()
		c.NoErr(err, "%s: Copy", what)
	}
	own, theirs := map[uint32]bool{}, map[uint32]bool{}
	var addrs []uint32
	for v := range in {
		own[v], theirs[v] = true, true
		addrs = append(addrs, v)
	}
	sort.Slice(addrs, func(i, j int) bool { return addrs[i] < addrs[j] })
	for i := 0; i < 24; i++ {
		a, v := c.R.Uint32(), 1+c.R.Intn(63)
		if n := len(addrs); n > 0 && i%4 != 0 { // the largest values first
			w := addrs[max(0, n-1-c.R.Intn(8))]
			a, v = w, min(63, int(w>>26)+c.R.Intn(8))
		}
		if i%2 == 0 {
			feed(c, cp, theirs, inputFor(c, a, v))
		} else {
			feed(c, s, own, inputFor(c, a, v))
		}
	}
	check(c, what+" copied and updated", s, own, -1)
	check(c, what+" copy, updated", cp, theirs, -1)
}

func randInput(c *hk.C, style, lgK int) []byte {
	switch style {
	case 0: // natural
		return hk.U64(uint64(c.R.Intn(1 << 20)))
	case 1: // arbitrary values in few slots
		return inputFor(c, uint32(c.R.Intn(8))<<(lgK-3)|c.R.Uint32()<<lgK, 1+c.R.Intn(63))
	case 2: // small values everywhere with a few large
		v := 1 + c.R.Intn(4)
		if c.R.Intn(12) == 0 {
			v = 10 + c.R.Intn(54)
		}
		return inputFor(c, c.R.Uint32(), v)
	}
	// values rise, so that the least one does too
	return inputFor(c, c.R.Uint32(), min(63, 1+c.I%40+c.R.Intn(18)))
}

func build(c *hk.C, lgK int, t hll.TgtHllType, style, n int) (hll.HllSketch, map[uint32]bool) {
	s, err := hll.NewHllSketch(lgK, t)
	c.NoErr(err, "NewHllSketch(%d, %d)", lgK, t)
	in := map[uint32]bool{}
	for i := 0; i < n; i++ {
		feed(c, s, in, randInput(c, style, lgK))
	}
	return s, in
}

func count(c *hk.C, lgK int) int {
	k := 1 << lgK
	switch c.R.Intn(6) {
	case 0:
		return c.R.Intn(9)
	case 1:
		return c.R.Intn(3*k/32 + 12)
	case 2:
		return c.R.Intn(k/4 + 30)
	}
	return c.R.Intn(6*k + 20)
}

func main() {
	hk.Main(func(h *hk.H) {
		maxLg := 10
		if h.Thorough() {
			maxLg = 13
		}
		h.Bounded("lgK 4..%d, at most 6K+20 inputs with hashes chosen freely (16-byte preimages), unions of at most 6 sketches", maxLg)

		h.Loop("stream", 300, func(c *hk.C) {
			lgK := 4 + c.R.Intn(maxLg-3)
			n := count(c, lgK)
			style := c.R.Intn(4)
			t := types[c.R.Intn(3)]
			c.Desc("lgK %d type %d, %d inputs of style %d", lgK, t, n, style)
			s, err := hll.NewHllSketch(lgK, t)
			c.NoErr(err, "NewHllSketch")
			in := map[uint32]bool{}
			var inputs [][]byte
			for i := 0; i < n; i++ {
				b := randInput(c, style, lgK)
				inputs = append(inputs, b)
				feed(c, s, in, b)
				if i < 40 || c.R.Intn(200) == 0 {
					check(c, "sketch", s, in, modeOf(lgK, len(in)))
				}
			}
			g := check(c, "sketch", s, in, modeOf(lgK, len(in)))
			// another order, with duplicates, in another form
			t2 := types[c.R.Intn(3)]
			o, err := hll.NewHllSketch(lgK, t2)
			c.NoErr(err, "NewHllSketch")
			for _, i := range c.R.Perm(n) {
				c.NoErr(o.UpdateSlice(inputs[i]), "UpdateSlice")
				if c.R.Intn(3) == 0 {
					c.NoErr(o.UpdateSlice(inputs[c.R.Intn(n)]), "UpdateSlice")
				}
			}
			check(c, "reordered", o, in, g.mode)
			e1, err := s.GetCompositeEstimate()
			c.NoErr(err, "GetCompositeEstimate")
			e2, err := o.GetCompositeEstimate()
			c.NoErr(err, "GetCompositeEstimate")
			c.Ok(g.mode == 2 && g.kxq < 1e-3 || math.Abs(e1-e2) <= 1e-9*e1, "composite estimate %v, %v reordered", e1, e2)
			variants(c, "sketch", s, in)
			c.NoErr(s.Reset(), "Reset")
			check(c, "reset", s, map[uint32]bool{}, 0)
		})

		h.Loop("union", 300, func(c *hk.C) {
			lgMax := 4 + c.R.Intn(maxLg-3)
			u, err := hll.NewUnion(lgMax)
			c.NoErr(err, "NewUnion")
			all := map[uint32]bool{}
			lg := lgMax
			for i, n := 0, 1+c.R.Intn(6); i < n; i++ {
				if c.R.Intn(4) == 0 { // direct updates
					m := count(c, lgMax)
					st := c.R.Intn(4)
					c.Desc("%d direct updates of style %d", m, st)
					for j := 0; j < m; j++ {
						feed(c, u, all, randInput(c, st, lgMax))
					}
				} else {
					lgK := lgMax
					if c.R.Intn(3) == 0 {
						lgK = 4 + c.R.Intn(maxLg-3)
					}
					t := types[c.R.Intn(3)]
					m := count(c, lgK)
					st := c.R.Intn(4)
					c.Desc("source lgK %d type %d, %d inputs of style %d", lgK, t, m, st)
					s, in := build(c, lgK, t, st, m)
					before, err := s.ToUpdatableSlice()
					c.NoErr(err, "ToUpdatableSlice")
					err = u.UpdateSketch(s)
					after, e2 := s.ToUpdatableSlice()
					c.NoErr(e2, "ToUpdatableSlice")
					c.Ok(bytes.Equal(before, after), "the union changed its source")
					if err != nil {
						// merging an array of a larger precision is documented as not implemented
						c.Ok(int(s.GetCurMode()) == 2 && lgK > lg, "UpdateSketch of lgK %d into lgK %d: %v", lgK, lg, err)
					} else {
						if s.GetCurMode() == 2 {
							lg = min(lg, lgK)
						}
						for v := range in {
							all[v] = true
						}
						// the source goes on without the union
						for j := 0; j < 5; j++ {
							feed(c, s, in, randInput(c, st, lgK))
						}
					}
				}
				r, err := u.GetResult(types[c.R.Intn(3)])
				c.NoErr(err, "GetResult")
				c.Ok(r.GetLgConfigK() == lg, "result has lgK %d, expected %d", r.GetLgConfigK(), lg)
				check(c, "union result", r, all, -1)
				if c.R.Intn(3) == 0 {
					b, err := u.ToCompactSlice()
					if c.R.Intn(2) == 0 {
						b, err = u.ToUpdatableSlice()
					}
					c.NoErr(err, "image of the union")
					u2, err := hll.NewUnionFromSlice(b)
					c.NoErr(err, "NewUnionFromSlice")
					r2, err := u2.GetResult(types[c.R.Intn(3)])
					c.NoErr(err, "GetResult")
					check(c, "union from its image", r2, all, -1)
					if c.R.Intn(2) == 0 && lg == lgMax {
						u = u2
					}
				}
			}
			r, err := u.GetResult(types[c.R.Intn(3)])
			c.NoErr(err, "GetResult")
			variants(c, "union result", r, all)
		})
	})
}
