// Concrete search for P10: a t-digest conserves weight and extremes and answers monotonically.
package main

import (
	"bytes"
	"encoding/binary"
	"math"
	"math/rand"
	"sort"

	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/verifharness/hk"
)

type part struct {
	s        *tdigest.Double
	k        uint16
	n        uint64
	min, max float64
}

func newPart(c *hk.C, k uint16) *part {
	s, err := tdigest.NewDouble(k)
	c.NoErr(err, "NewDouble(%d)", k)
	return &part{s: s, k: k, min: math.Inf(1), max: math.Inf(-1)}
}

func (p *part) update(c *hk.C, v float64) {
	err := p.s.Update(v)
	if math.IsNaN(v) || math.IsInf(v, 0) {
		c.Ok(err != nil, "Update(%v) accepted", v)
		return
	}
	c.NoErr(err, "Update(%v)", v)
	p.n++
	p.min = math.Min(p.min, v)
	p.max = math.Max(p.max, v)
}

func (p *part) merge(c *hk.C, q *part) {
	before, err := tdigest.EncodeDouble(q.s, true)
	c.NoErr(err, "EncodeDouble")
	err = p.s.Merge(q.s)
	if q.n == 0 {
		c.Ok(err != nil, "merging an empty sketch succeeded")
	} else {
		c.NoErr(err, "Merge")
		p.n += q.n
		p.min = math.Min(p.min, q.min)
		p.max = math.Max(p.max, q.max)
	}
	if p.s != q.s {
		after, err := tdigest.EncodeDouble(q.s, true)
		c.NoErr(err, "EncodeDouble")
		c.Ok(bytes.Equal(before, after), "merging changed the source")
	}
}

// the state alone, which must not change it
func (p *part) state(c *hk.C, what string) {
	s := p.s
	c.Ok(s.K() == p.k, "%s: k is %d, was %d", what, s.K(), p.k)
	c.Ok(s.TotalWeight() == p.n, "%s: total weight %d, expected %d", what, s.TotalWeight(), p.n)
	c.Ok(s.IsEmpty() == (p.n == 0), "%s: IsEmpty %v with weight %d", what, s.IsEmpty(), p.n)
	mn, err1 := s.MinValue()
	mx, err2 := s.MaxValue()
	if p.n == 0 {
		c.Ok(err1 != nil && err2 != nil, "%s: an empty sketch has a minimum or maximum", what)
		return
	}
	c.NoErr(err1, "MinValue")
	c.NoErr(err2, "MaxValue")
	c.Ok(mn == p.min && mx == p.max, "%s: min %v max %v, expected %v %v", what, mn, mx, p.min, p.max)
}

type cent struct {
	mean float64
	w    uint64
}

// centroids reads the image format: centroids and buffer
func centroids(c *hk.C, s *tdigest.Double, withBuffer bool) ([]cent, []float64) {
	b, err := tdigest.EncodeDouble(s, withBuffer)
	c.NoErr(err, "EncodeDouble")
	c.Ok(len(b) == s.SerializedSizeBytes(withBuffer), "%d bytes, SerializedSizeBytes %d", len(b), s.SerializedSizeBytes(withBuffer))
	if b[0] < 2 {
		return nil, nil
	}
	nc, nb := binary.LittleEndian.Uint32(b[8:]), binary.LittleEndian.Uint32(b[12:])
	var cs []cent
	var bs []float64
	o := 32
	for i := uint32(0); i < nc; i++ {
		cs = append(cs, cent{math.Float64frombits(binary.LittleEndian.Uint64(b[o:])), binary.LittleEndian.Uint64(b[o+8:])})
		o += 16
	}
	for i := uint32(0); i < nb; i++ {
		bs = append(bs, math.Float64frombits(binary.LittleEndian.Uint64(b[o:])))
		o += 8
	}
	return cs, bs
}

func (p *part) inner(c *hk.C, what string, compress bool) {
	cs, bs := centroids(c, p.s, !compress)
	if cs == nil && bs == nil {
		return
	}
	c.Ok(!compress || len(bs) == 0, "%s: %d values left in the buffer", what, len(bs))
	w := uint64(len(bs))
	for i, x := range cs {
		w += x.w
		c.Ok(x.w > 0, "%s: centroid %d has weight 0", what, i)
		c.Ok(x.mean >= p.min && x.mean <= p.max, "%s: centroid %d (%v) outside [%v, %v]", what, i, x.mean, p.min, p.max)
		c.Ok(i == 0 || cs[i-1].mean <= x.mean, "%s: centroids %d %v and %v out of order", what, i, cs[max(i-1, 0)].mean, x.mean)
	}
	c.Ok(w == p.n, "%s: centroids and buffer weigh %d, expected %d", what, w, p.n)
}

func (p *part) answers(c *hk.C, what string) {
	s := p.s
	for _, r := range []float64{-0.1, 1.0000001, math.NaN(), math.Inf(1), math.Inf(-1)} {
		v, err := s.Quantile(r)
		c.Ok(err != nil, "%s: Quantile(%v) gave %v", what, r, v)
	}
	_, err := s.Rank(math.NaN())
	c.Ok(err != nil, "%s: Rank(NaN) succeeded", what)
	if p.n == 0 {
		_, err := s.Quantile(0.5)
		c.Ok(err != nil, "%s: empty sketch answered a quantile", what)
		_, err = s.Rank(1)
		c.Ok(err != nil, "%s: empty sketch answered a rank", what)
		return
	}
	rs := []float64{0, 1, 0.5, math.SmallestNonzeroFloat64, math.Nextafter(1, 0)}
	n := float64(p.n)
	for i := 0; i < 40; i++ {
		rs = append(rs, c.R.Float64())
	}
	for i := 0.0; i <= 3; i += 0.5 {
		for _, d := range []float64{-1e-9, 0, 1e-9} {
			rs = append(rs, math.Min(1, math.Max(0, (i+d)/n)), math.Min(1, math.Max(0, 1-(i+d)/n)))
		}
	}
	for i := 0; i < 20; i++ {
		j := float64(c.R.Int63n(int64(p.n)+1)) + []float64{0, 0.5}[c.R.Intn(2)]
		rs = append(rs, math.Min(1, j/n))
	}
	sort.Float64s(rs)
	last := math.Inf(-1)
	for i, r := range rs {
		v, err := s.Quantile(r)
		c.NoErr(err, "%s: Quantile(%v)", what, r)
		c.Ok(v >= p.min && v <= p.max, "%s: Quantile(%v) is %v, outside [%v, %v]", what, r, v, p.min, p.max)
		c.Ok(v >= last, "%s: Quantile(%v) is %v but Quantile(%v) is %v", what, r, v, rs[max(0, i-1)], last)
		last = v
	}
	v0, _ := s.Quantile(0)
	v1, _ := s.Quantile(1)
	c.Ok(v0 == p.min && v1 == p.max, "%s: Quantile(0) %v, Quantile(1) %v, expected %v %v", what, v0, v1, p.min, p.max)

	vs := []float64{p.min, p.max, math.Nextafter(p.min, math.Inf(-1)), math.Nextafter(p.max, math.Inf(1)), math.Nextafter(p.min, p.max), math.Nextafter(p.max, p.min), math.Inf(1), math.Inf(-1)}
	cs, _ := centroids(c, s, false)
	for i := 0; i < 12 && len(cs) > 0; i++ {
		j := c.R.Intn(len(cs))
		if c.R.Intn(3) == 0 {
			j = []int{0, len(cs) - 1}[c.R.Intn(2)]
		}
		m := cs[j].mean
		vs = append(vs, m, math.Nextafter(m, p.min), math.Nextafter(m, p.max))
		if j > 0 {
			vs = append(vs, m/2+cs[j-1].mean/2)
		}
	}
	for i := 0; i < 30; i++ {
		f := c.R.Float64()
		vs = append(vs, p.min*(1-f)+p.max*f)
	}
	sort.Float64s(vs)
	last = -1
	var fin []float64
	for i, v := range vs {
		r, err := s.Rank(v)
		c.NoErr(err, "%s: Rank(%v)", what, v)
		c.Ok(r >= 0 && r <= 1, "%s: Rank(%v) is %v", what, v, r)
		c.Ok(v >= p.min || r == 0, "%s: Rank(%v) below the minimum is %v", what, v, r)
		c.Ok(v <= p.max || r == 1, "%s: Rank(%v) above the maximum is %v", what, v, r)
		c.Ok(r >= last, "%s: Rank(%v) is %v but Rank(%v) is %v", what, v, r, vs[max(0, i-1)], last)
		last = r
		if !math.IsInf(v, 0) && (len(fin) == 0 || fin[len(fin)-1] < v) {
			fin = append(fin, v)
		}
	}
	if cdf, err := s.CDF(fin); err == nil {
		c.Ok(len(cdf) == len(fin)+1 && cdf[len(fin)] == 1, "%s: CDF of %d points: %v", what, len(fin), cdf)
		for i, v := range fin {
			r, _ := s.Rank(v)
			c.Ok(cdf[i] == r, "%s: CDF at %v is %v, rank %v", what, v, cdf[i], r)
		}
	} else {
		c.NoErr(err, "%s: CDF", what)
	}
}

func (p *part) check(c *hk.C, what string) {
	p.state(c, what)
	p.inner(c, what, false)
	if c.R.Intn(2) == 0 {
		p.inner(c, what+" compressed", true)
		p.state(c, what+" compressed")
	}
	p.answers(c, what)
	p.state(c, what+" after queries")
}

// roundTrip encodes and decodes by both routes and returns the copy
func (p *part) roundTrip(c *hk.C) *part {
	wb := c.R.Intn(2) == 0
	b, err := tdigest.EncodeDouble(p.s, wb)
	c.NoErr(err, "EncodeDouble")
	var buf bytes.Buffer
	enc := tdigest.NewDoubleEncoder(&buf, wb)
	c.NoErr(enc.Encode(p.s), "Encode")
	c.Ok(bytes.Equal(b, buf.Bytes()), "EncodeDouble gave %x, Encode %x", b, buf.Bytes())
	s1, err := tdigest.DecodeDouble(append([]byte(nil), b...))
	c.NoErr(err, "DecodeDouble")
	dec := tdigest.NewDoubleDecoder()
	s2, err := dec.Decode(bytes.NewReader(b))
	c.NoErr(err, "Decode")
	q1, q2 := *p, *p
	q1.s, q2.s = s1, s2
	q1.state(c, "DecodeDouble")
	q2.state(c, "Decode")
	if c.R.Intn(2) == 0 {
		q1, q2 = q2, q1
	}
	q1.inner(c, "decoded", false)
	b2, err := tdigest.EncodeDouble(q1.s, wb)
	c.NoErr(err, "EncodeDouble")
	c.Ok(bytes.Equal(b, b2), "encoded again: %x, was %x", b2, b)
	for i := 0; i < 8 && p.n > 0; i++ {
		r := c.R.Float64()
		v1, _ := p.s.Quantile(r)
		v2, _ := q2.s.Quantile(r)
		c.Ok(v1 == v2, "Quantile(%v) is %v, of the copy %v", r, v1, v2)
	}
	return &q1
}

// stream returns a generator of values
func stream(c *hk.C, r *rand.Rand) func() float64 {
	kind := r.Intn(9)
	c.Desc("stream kind %d", kind)
	i := 0.0
	switch kind {
	case 0:
		return r.NormFloat64
	case 1:
		return func() float64 { i++; return i }
	case 2:
		return func() float64 { i--; return i }
	case 3:
		return func() float64 { return float64(r.Intn(4)) }
	case 4:
		return func() float64 { return math.Exp(r.NormFloat64() * 20) }
	case 5:
		return func() float64 { return (r.Float64()*2 - 1) * math.MaxFloat64 }
	case 6:
		return func() float64 { return 7 }
	case 7:
		return func() float64 { return []float64{math.MaxFloat64, -math.MaxFloat64, 0, math.Copysign(0, -1), math.SmallestNonzeroFloat64}[r.Intn(5)] }
	}
	return func() float64 { return 1 + float64(r.Intn(3))*0x1p-52 }
}

var ks = []uint16{10, 11, 29, 30, 50, 100, 200}

func main() {
	hk.Main(func(h *hk.H) {
		h.Bounded("t-digest histories: k from 10 to 200, up to ~9000 updates, merges and round trips of up to 4 sketches")
		h.Loop("history", 260, func(c *hk.C) {
			var ps []*part
			for i := 1 + c.R.Intn(4); i > 0; i-- {
				ps = append(ps, newPart(c, ks[c.R.Intn(len(ks))]))
			}
			gen := stream(c, c.R)
			for i := 2 + c.R.Intn(10); i > 0; i-- {
				p := ps[c.R.Intn(len(ps))]
				switch op := c.R.Intn(10); {
				case op < 5:
					n := []int{1, 2, 3, 30, 200, 700, 2000}[c.R.Intn(7)]
					c.Desc("%d updates of a k=%d sketch", n, p.k)
					if c.R.Intn(4) == 0 {
						gen = stream(c, c.R)
					}
					for j := 0; j < n; j++ {
						p.update(c, gen())
					}
					if c.R.Intn(4) == 0 {
						p.update(c, []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[c.R.Intn(3)])
					}
				case op < 8:
					q := ps[c.R.Intn(len(ps))]
					c.Desc("merge k=%d (%d) into k=%d (%d)", q.k, q.n, p.k, p.n)
					p.merge(c, q)
				case op < 9:
					c.Desc("round trip of k=%d (%d)", p.k, p.n)
					q := p.roundTrip(c)
					for j := range ps {
						if ps[j] == p {
							ps[j] = q
						}
					}
				default:
					c.Desc("check k=%d (%d)", p.k, p.n)
					p.check(c, "midway")
				}
				p.state(c, "after the step")
			}
			for _, p := range ps {
				p.check(c, "at the end")
			}
		})
		h.Loop("image", 500, func(c *hk.C) {
			// a digest written elsewhere: the first and last centroid may weigh more than 1
			n := 1 + c.R.Intn(6)
			unit := uint64(1)
			if c.R.Intn(5) == 0 {
				n = 20 + c.R.Intn(100)
				unit = 1 << 33
			}
			cs := make([]cent, n)
			for i := range cs {
				cs[i] = cent{float64(c.R.Intn(20)) * 1.25, unit * (1 + uint64(c.R.Intn(7)))}
			}
			sort.Slice(cs, func(i, j int) bool { return cs[i].mean < cs[j].mean })
			p := &part{k: uint16(10 + c.R.Intn(60)), min: cs[0].mean, max: cs[n-1].mean}
			if cs[0].w > 1 {
				p.min -= float64(c.R.Intn(3))
			}
			if cs[n-1].w > 1 {
				p.max += float64(c.R.Intn(3))
			}
			if n == 1 && cs[0].w == 1 {
				cs[0].w = 2
			}
			b := []byte{2, 1, 20, byte(p.k), 0, byte(c.R.Intn(2)) << 2, 0, 0}
			var bs []float64
			for i := c.R.Intn(3); i > 0; i-- {
				v := p.min + c.R.Float64()*(p.max-p.min)
				if !(v >= p.min && v <= p.max) {
					v = p.min
				}
				bs = append(bs, v)
			}
			b = binary.LittleEndian.AppendUint32(b, uint32(n))
			b = binary.LittleEndian.AppendUint32(b, uint32(len(bs)))
			b = binary.LittleEndian.AppendUint64(b, math.Float64bits(p.min))
			b = binary.LittleEndian.AppendUint64(b, math.Float64bits(p.max))
			for _, x := range cs {
				p.n += x.w
				b = binary.LittleEndian.AppendUint64(b, math.Float64bits(x.mean))
				b = binary.LittleEndian.AppendUint64(b, x.w)
			}
			for _, v := range bs {
				p.n++
				b = binary.LittleEndian.AppendUint64(b, math.Float64bits(v))
			}
			c.Desc("image %x: min %v max %v centroids %v buffer %v", b, p.min, p.max, cs, bs)
			s, err := tdigest.DecodeDouble(b)
			c.NoErr(err, "DecodeDouble")
			p.s = s
			p.state(c, "decoded")
			if c.R.Intn(2) == 0 {
				p = p.roundTrip(c)
			}
			if c.R.Intn(2) == 0 {
				q := newPart(c, 20)
				for i := c.R.Intn(40); i > 0; i-- {
					q.update(c, float64(c.R.Intn(30)))
				}
				c.Desc("merge into %d values", q.n)
				q.merge(c, p)
				q.check(c, "merged")
			}
			p.check(c, "image")
			for i := c.R.Intn(300); i > 0; i-- {
				p.update(c, float64(c.R.Intn(30)))
			}
			p.check(c, "image and updates")
			p.roundTrip(c)
		})
	})
}
