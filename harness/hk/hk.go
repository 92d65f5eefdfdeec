// Package hk runs the concrete searches that accompany the deductive checks.
package hk

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Fail is the panic payload of a failed case.
type fail struct{ msg string }

// C is one case under execution.
type C struct {
	R    *rand.Rand
	I    int
	Big  bool
	desc []string
}

// Desc records the input of the case.
func (c *C) Desc(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	if len(c.desc) < 60 {
		c.desc = append(c.desc, s)
	}
}

// Failf fails the case.
func (c *C) Failf(f string, a ...any) { panic(fail{fmt.Sprintf(f, a...)}) }

// Ok fails the case unless cond.
func (c *C) Ok(cond bool, f string, a ...any) {
	if !cond {
		c.Failf(f, a...)
	}
}

// NoErr fails the case on an error.
func (c *C) NoErr(err error, f string, a ...any) {
	if err != nil {
		c.Failf("%s: unexpected error %v", fmt.Sprintf(f, a...), err)
	}
}

// Failure is one failing case.
type Failure struct {
	ID    string   `json:"id"`
	Iter  int      `json:"iter"`
	Seed  int64    `json:"seed"`
	Msg   string   `json:"msg"`
	Input []string `json:"input"`
	Stack string   `json:"stack,omitempty"`
}

// Out is the result of a run.
type Out struct {
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct"`
	PerLoop     map[string]int `json:"per_loop"`
	Bounded     []string       `json:"bounded"`
	Samples     []any          `json:"samples"`
	Failures    []Failure      `json:"failures"`
	Wall        float64        `json:"wall_s"`
}

// H drives a property's search.
type H struct {
	Seed   int64
	Tier   string
	Scale  float64
	only   string
	iter   int
	mu     sync.Mutex
	out    Out
	seen   map[uint64]bool
	t0     time.Time
	budget time.Duration
	file   string
}

type running struct {
	id    string
	start time.Time
	c     *C
}

// Main is the entry point of every harness.
func Main(f func(h *H)) {
	h := &H{seen: map[uint64]bool{}, t0: time.Now()}
	flag.Int64Var(&h.Seed, "seed", 1, "seed")
	flag.StringVar(&h.Tier, "tier", "quick", "tier")
	flag.Float64Var(&h.Scale, "scale", 1, "iteration multiplier")
	flag.StringVar(&h.only, "only", "", "only this search")
	flag.IntVar(&h.iter, "iter", -1, "only this iteration")
	b := flag.Int("budget", 120, "soft time budget in seconds")
	flag.StringVar(&h.file, "out", "", "write the result here")
	flag.Parse()
	h.budget = time.Duration(*b) * time.Second
	h.out.PerLoop = map[string]int{}
	debug.SetMemoryLimit(6 << 30)
	f(h)
	h.finish(0)
}

func (h *H) finish(code int) {
	h.out.Distinct = len(h.seen)
	h.out.Wall = time.Since(h.t0).Seconds()
	b, _ := json.MarshalIndent(h.out, "", " ")
	if h.file != "" {
		os.WriteFile(h.file, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
	os.Exit(code)
}

// Bounded notes a stated bound of this run.
func (h *H) Bounded(f string, a ...any) { h.out.Bounded = append(h.out.Bounded, fmt.Sprintf(f, a...)) }

// Thorough tells whether the deep tier runs.
func (h *H) Thorough() bool { return h.Tier == "thorough" }

func (h *H) one(id string, i int, f func(c *C), cur *atomic.Pointer[running]) (fl *Failure) {
	hs := fnv.New64a()
	fmt.Fprintf(hs, "%s/%d/%d", id, h.Seed, i)
	c := &C{R: rand.New(rand.NewSource(int64(hs.Sum64() >> 1))), I: i, Big: h.Thorough()}
	cur.Store(&running{id, time.Now(), c})
	defer cur.Store(nil)
	defer func() {
		if e := recover(); e != nil {
			fl = &Failure{ID: id, Iter: i, Seed: h.Seed, Input: c.desc}
			if x, ok := e.(fail); ok {
				fl.Msg = x.msg
			} else {
				fl.Msg = fmt.Sprintf("panic: %v", e)
				fl.Stack = trimStack(string(debug.Stack()))
			}
		}
		d := fnv.New64a()
		d.Write([]byte(id + strings.Join(c.desc, "|")))
		h.mu.Lock()
		h.out.Evaluations++
		h.out.PerLoop[id]++
		h.seen[d.Sum64()] = true
		if h.out.PerLoop[id] <= 1 && len(h.out.Samples) < 40 {
			h.out.Samples = append(h.out.Samples, map[string]any{"search": id, "iter": i, "input": c.desc})
		}
		h.mu.Unlock()
	}()
	f(c)
	return nil
}

func trimStack(s string) string {
	var o []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") {
			o = append(o, strings.TrimSpace(l))
		}
		if len(o) > 8 {
			break
		}
	}
	return strings.Join(o, " <- ")
}

// Loop runs n (scaled) cases of a search in parallel.
func (h *H) Loop(id string, n int, f func(c *C)) {
	if h.only != "" && h.only != id {
		return
	}
	if h.Thorough() {
		n *= 8
	}
	n = int(float64(n) * h.Scale)
	if n < 1 {
		n = 1
	}
	if h.iter >= 0 {
		var cur atomic.Pointer[running]
		if fl := h.one(id, h.iter, f, &cur); fl != nil {
			h.out.Failures = append(h.out.Failures, *fl)
		}
		return
	}
	var next, stop atomic.Int64
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	curs := make([]atomic.Pointer[running], w)
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || stop.Load() != 0 || time.Since(h.t0) > h.budget && i > 0 {
					return
				}
				if fl := h.one(id, i, f, &curs[k]); fl != nil {
					h.mu.Lock()
					h.out.Failures = append(h.out.Failures, *fl)
					h.mu.Unlock()
					stop.Store(1)
				}
			}
		}(k)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	tk := time.NewTicker(200 * time.Millisecond)
	defer tk.Stop()
	for {
		select {
		case <-done:
			return
		case <-tk.C:
			for k := range curs {
				if r := curs[k].Load(); r != nil && time.Since(r.start) > 60*time.Second {
					h.mu.Lock()
					h.out.Failures = append(h.out.Failures, Failure{ID: r.id, Iter: r.c.I, Seed: h.Seed, Msg: "the call did not return within 60 s", Input: r.c.desc})
					h.finish(0)
				}
			}
		}
	}
}

// Probe runs a single named case.
func (h *H) Probe(id string, f func(c *C)) {
	if h.only != "" && h.only != id {
		return
	}
	var cur atomic.Pointer[running]
	done := make(chan *Failure, 1)
	go func() { done <- h.one(id, 0, f, &cur) }()
	select {
	case fl := <-done:
		if fl != nil {
			h.out.Failures = append(h.out.Failures, *fl)
		}
	case <-time.After(60 * time.Second):
		h.mu.Lock()
		h.out.Failures = append(h.out.Failures, Failure{ID: id, Seed: h.Seed, Msg: "the call did not return within 60 s"})
		h.finish(0)
	}
}
