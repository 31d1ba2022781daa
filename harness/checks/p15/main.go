// P15: aggregation is safe under concurrent observers. Built with the race
// detector.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files/zzverif/fakedist"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/external"
	"pgregory.net/rapid"
)

// Op of one goroutine.
type Op struct {
	K     string // add, iterate, capture
	M     int
	V     int
	Yield int
}

type Case struct {
	Slow    int
	Fail    int // 0 never, 1 always, 2 the first FailN creations, 3 every other
	FailN   int
	Capture bool // captures overlap with adds: what they miss may be lost
	Par     [][]Op
}

var metrics = []string{"a", "b", "c.d"}

func gen(t *rapid.T) Case {
	c := Case{Slow: rapid.IntRange(0, 3).Draw(t, "slow")}
	c.Fail = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3}).Draw(t, "fail")
	c.FailN = rapid.IntRange(1, 5).Draw(t, "failn")
	c.Capture = rapid.IntRange(0, 3).Draw(t, "cap") == 2
	nm := rapid.IntRange(1, len(metrics)).Draw(t, "nm")
	for g := rapid.IntRange(2, 8).Draw(t, "ng"); g > 0; g-- {
		ks := []string{"add"}
		if rapid.IntRange(0, 3).Draw(t, "role") == 2 {
			ks = []string{"iterate", "iterate", "add"}
			if c.Capture {
				ks = []string{"iterate", "capture", "add"}
			}
		}
		var ops []Op
		for i := rapid.IntRange(1, 12).Draw(t, "n"); i > 0; i-- {
			ops = append(ops, Op{
				K: rapid.SampledFrom(ks).Draw(t, "k"), M: rapid.IntRange(0, nm-1).Draw(t, "m"),
				V: rapid.IntRange(-3, 3).Draw(t, "v"), Yield: rapid.IntRange(0, 2).Draw(t, "y"),
			})
		}
		c.Par = append(c.Par, ops)
	}
	return c
}

type logger struct{ n int64 }

func (l *logger) Infow(string, ...interface{})  {}
func (l *logger) Errorw(string, ...interface{}) { atomic.AddInt64(&l.n, 1) }

var log logger

// the value of an add is its V scaled, made unique by a small fraction
func val(v int, seq int) float64 { return float64(v) + float64(seq)/4096 }

func id(g, i int) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint16(b, uint16(g))
	binary.BigEndian.PutUint16(b[2:], uint16(i))
	return b
}

type key struct {
	m string
	v float64
}

func run(x *vkit.Ctx, c Case) error {
	p := fakedist.New()
	p.Slow = c.Slow
	switch c.Fail {
	case 1:
		p.Fail = func(int64) bool { return true }
	case 2:
		p.Fail = func(n int64) bool { return n < int64(c.FailN) }
	case 3:
		p.Fail = func(n int64) bool { return n%2 == 0 }
	}
	w := data.NewWriter(p)
	ctx := context.Background()
	errs0 := atomic.LoadInt64(&log.n)

	ids := map[key][]byte{}
	adds := map[string]int{}
	seq := 0
	type add struct {
		v  float64
		id []byte
	}
	plan := make([][]add, len(c.Par))
	for g, ops := range c.Par {
		plan[g] = make([]add, len(ops))
		for i, o := range ops {
			if o.K != "add" {
				continue
			}
			seq++
			a := add{val(o.V, seq), id(g, i)}
			plan[g][i] = a
			ids[key{metrics[o.M], a.v}] = a.id
			adds[metrics[o.M]]++
		}
	}

	var fmu sync.Mutex
	var failure error
	fail := func(f string, a ...interface{}) {
		fmu.Lock()
		if failure == nil {
			failure = fmt.Errorf(f, a...)
		}
		fmu.Unlock()
	}
	// consistent checks one record in itself and gives its values
	consistent := func(what, m string, r data.Record) []float64 {
		vals, err := fakedist.Decode(r.Distribution)
		if err != nil {
			fail("%s: %q has a distribution % x: %v", what, m, r.Distribution, err)
			return nil
		}
		if len(vals) == 0 {
			fail("%s: record for %q without observations", what, m)
			return nil
		}
		min, max := math.Inf(1), math.Inf(-1)
		seen := map[float64]bool{}
		for _, v := range vals {
			min, max = math.Min(min, v), math.Max(max, v)
			if ids[key{m, v}] == nil {
				fail("%s: %q holds %v, never added to it", what, m, v)
			}
			if seen[v] {
				fail("%s: %q holds %v twice", what, m, v)
			}
			seen[v] = true
		}
		if r.Observations != int64(len(vals)) {
			fail("%s: %q counts %d observations, its distribution has %d", what, m, r.Observations, len(vals))
		}
		if r.Min != min || r.Max != max {
			fail("%s: %q has min %v max %v, its values %v and %v", what, m, r.Min, r.Max, min, max)
			return vals
		}
		if !bytes.Equal(r.MinId, ids[key{m, min}]) || !bytes.Equal(r.MaxId, ids[key{m, max}]) {
			fail("%s: %q has ids % x and % x for its min and max", what, m, r.MinId, r.MaxId)
		}
		return vals
	}
	var captured sync.Map // key -> true
	capture := func(what string) {
		w.Capture(ctx, func(_ context.Context, m string, r data.Record) bool {
			// an add may still be going on into this record; only its values
			// at this moment matter, each in one record
			vals, err := fakedist.Decode(append([]byte{}, r.Distribution...))
			if err != nil {
				fail("%s: %v", what, err)
				return true
			}
			for _, v := range vals {
				if ids[key{m, v}] == nil {
					fail("%s: %q holds %v, never added to it", what, m, v)
				}
				if _, dup := captured.LoadOrStore(key{m, v}, true); dup {
					fail("%s: %v of %q captured twice", what, v, m)
				}
			}
			return true
		})
	}
	var running, iters, overlapped int64
	store.Gather(len(c.Par), func(g int) {
		for i, o := range c.Par[g] {
			switch o.K {
			case "add":
				a := plan[g][i]
				buf := append([]byte{}, a.id...)
				atomic.AddInt64(&running, 1)
				w.Add(ctx, metrics[o.M], a.v, buf)
				atomic.AddInt64(&running, -1)
				for j := range buf {
					buf[j] = 0xEE
				}
			case "iterate":
				atomic.AddInt64(&iters, 1)
				if atomic.LoadInt64(&running) > 0 {
					atomic.AddInt64(&overlapped, 1)
				}
				w.Iterate(ctx, func(_ context.Context, m string, r data.Record) bool {
					consistent("iteration", m, r)
					return true
				})
			case "capture":
				capture("capture")
			}
			for k := 0; k < o.Yield; k++ {
				runtime.Gosched()
			}
		}
	})
	if n := atomic.LoadInt64(p.Misuse); n > 0 {
		return fmt.Errorf("a distribution was called %d times while another call on it was going on", n)
	}
	if failure != nil {
		return failure
	}
	got := map[string]int{}
	var rest []key
	w.Iterate(ctx, func(_ context.Context, m string, r data.Record) bool {
		vals := consistent("at rest", m, r)
		if _, dup := got[m]; dup {
			fail("%q iterated twice", m)
		}
		got[m] = len(vals)
		for _, v := range vals {
			rest = append(rest, key{m, v})
		}
		return true
	})
	if !c.Capture {
		lost := 0
		for m, n := range adds {
			lost += n - got[m]
			if c.Fail == 0 && got[m] != n {
				return fmt.Errorf("%d adds of %q made, its record holds %d", n, m, got[m])
			}
			if c.Fail == 1 && got[m] != 0 {
				return fmt.Errorf("%d values in %q without a distribution", got[m], m)
			}
		}
		// a refused creation costs the one add that asked for it
		if n := atomic.LoadInt64(&log.n) - errs0; int64(lost) != n {
			return fmt.Errorf("%d adds dropped, %d errors reported", lost, n)
		}
		x.LabelIf(lost > 0, "refused creations reported")
	}
	capture("last capture")
	for _, k := range rest {
		if _, ok := captured.Load(k); !ok {
			return fmt.Errorf("%v of %q was there at rest, the last capture does not have it", k.v, k.m)
		}
	}
	x.LabelIf(c.Capture, "captures overlapping adds")
	x.LabelIf(overlapped > 0, "iterations while adding")
	if failure == nil && c.Fail == 0 {
		busy := 0
		for _, ops := range c.Par {
			if len(ops) > 1 {
				busy++
			}
		}
		if busy > 1 {
			x.NonTrivial()
		}
	}
	return failure
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P15",
		Rule: "two to eight goroutines adding distinct values to up to three metrics of a fresh writer while some iterate or capture, with a distribution that remembers its values, notices overlapping calls and may refuse to be created, under the race detector; " +
			"each iterated record is checked in itself and the totals at rest are exact; non-trivial: a usable distribution and at least two goroutines with several operations",
		Assumptions: []string{"interleavings are those the scheduler produces", "as documented, an add overlapping a capture may be lost; it must never be counted twice or damage anything"},
		HangS:       30,
		Shards:      8,
		Init:        func(string) { external.Default.Logger = &log },
	},
		vkit.P("observers", 40000, 800000, gen, run),
	)
}
