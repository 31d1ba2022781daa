// P14: aggregation neither loses nor invents observations.
package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files/zzverif/fakedist"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"pgregory.net/rapid"
)

// Op is one call on the writer.
type Op struct {
	K    string // add, wait (milliseconds), capture, iterate, stop (an iteration ended early), reenter (capture whose callback adds)
	M    int
	Bits uint64
	ID   []byte
	Long int `json:",omitempty"` // the identifier is made this much longer
	Nil  bool
	N    int // adds to repeat, or callbacks before stopping
}

type Case struct {
	Real bool // a t-digest instead of the exact distribution
	Ops  []Op
}

var metrics = []string{"a", "a.b", "", "c d", "x/y", "é", "g"}

func genVal(t *rapid.T) uint64 {
	var v float64
	switch rapid.IntRange(0, 9).Draw(t, "vk") {
	case 0, 1, 2:
		v = float64(rapid.IntRange(-5, 5).Draw(t, "vi"))
	case 3:
		v = rapid.Float64Range(-1e30, 1e30).Draw(t, "vf")
	case 4:
		v = rapid.Float64Range(-1, 1).Draw(t, "vs")
	case 5:
		v = rapid.SampledFrom([]float64{math.Inf(1), math.Inf(-1), math.NaN()}).Draw(t, "vx")
	case 6:
		v = rapid.SampledFrom([]float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1), 0}).Draw(t, "ve")
	case 7:
		v = -float64(rapid.IntRange(1, 1000).Draw(t, "vn"))
	case 8:
		v = float64(rapid.IntRange(1, 1000).Draw(t, "vp"))
	default:
		v = rapid.Float64().Draw(t, "vany")
	}
	return math.Float64bits(v)
}

// genSlow has real time pass between the steps.
func genSlow(t *rapid.T) Case {
	c := gen(t)
	var ops []Op
	for _, o := range c.Ops {
		if rapid.IntRange(0, 3).Draw(t, "wait") == 2 && len(ops) < 14 {
			ops = append(ops, Op{K: "wait", N: rapid.SampledFrom([]int{1, 20, 120, 120, 1100}).Draw(t, "ms")})
		}
		ops = append(ops, o)
	}
	c.Ops = ops
	return c
}

func gen(t *rapid.T) Case {
	c := Case{Real: rapid.IntRange(0, 4).Draw(t, "real") == 2}
	nm := rapid.IntRange(1, len(metrics)).Draw(t, "nm")
	for i := rapid.IntRange(1, 40).Draw(t, "n"); i > 0; i-- {
		o := Op{K: rapid.SampledFrom([]string{"add", "add", "add", "add", "add", "add", "capture", "iterate", "stop", "reenter"}).Draw(t, "k")}
		o.M = rapid.IntRange(0, nm-1).Draw(t, "m")
		switch o.K {
		case "add":
			o.Bits = genVal(t)
			if c.Real {
				f := math.Float64frombits(o.Bits)
				if math.Abs(f) > 1e30 && !math.IsInf(f, 0) {
					o.Bits = math.Float64bits(float64(o.M))
				}
			}
			o.ID = rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "id")
			if rapid.IntRange(0, 11).Draw(t, "longid") == 7 {
				o.Long = rapid.SampledFrom([]int{60, 70, 250, 300, 5000}).Draw(t, "idlen")
			}
			o.Nil = rapid.IntRange(0, 6).Draw(t, "nil") == 3
			o.N = 1
			if rapid.IntRange(0, 9).Draw(t, "rep") == 5 {
				o.N = rapid.IntRange(2, 60).Draw(t, "reps")
			}
		case "stop":
			o.N = rapid.IntRange(1, 3).Draw(t, "stop")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type obs struct {
	v  float64
	id []byte
}

type acc struct {
	obs         []obs
	first, last time.Time // bounds on when the first and last were added
}

func (a *acc) check(m string, r data.Record, real bool) error {
	if a == nil || len(a.obs) == 0 {
		return fmt.Errorf("record for %q, which had no observations: %+v", m, r)
	}
	if r.Observations != int64(len(a.obs)) {
		return fmt.Errorf("%q: %d observations recorded, %d added", m, r.Observations, len(a.obs))
	}
	min, max := a.obs[0].v, a.obs[0].v
	for _, o := range a.obs {
		min, max = math.Min(min, o.v), math.Max(max, o.v)
	}
	if r.Min != min || r.Max != max {
		return fmt.Errorf("%q: min %v max %v recorded, %v and %v added", m, r.Min, r.Max, min, max)
	}
	okMin, okMax := false, false
	for _, o := range a.obs {
		okMin = okMin || o.v == min && bytes.Equal(o.id, r.MinId)
		okMax = okMax || o.v == max && bytes.Equal(o.id, r.MaxId)
	}
	if !okMin {
		return fmt.Errorf("%q: id %q of the minimum %v belongs to no such observation", m, r.MinId, min)
	}
	if !okMax {
		return fmt.Errorf("%q: id %q of the maximum %v belongs to no such observation", m, r.MaxId, max)
	}
	if r.Merged != 1 {
		return fmt.Errorf("%q: merged %d in a fresh record", m, r.Merged)
	}
	if real {
		d, err := tdigest.Params{}.Unmarshal(append([]byte{}, r.Distribution...))
		if err != nil {
			return fmt.Errorf("%q: distribution does not decode: %v", m, err)
		}
		if r.Kind != "tdigest" || d.Len() != int64(len(a.obs)) {
			return fmt.Errorf("%q: distribution of kind %q with %d values, %d added", m, r.Kind, d.Len(), len(a.obs))
		}
		return nil
	}
	if r.Kind != fakedist.Kind {
		return fmt.Errorf("%q: kind %q", m, r.Kind)
	}
	got, err := fakedist.Decode(r.Distribution)
	if err != nil {
		return fmt.Errorf("%q: distribution % x: %v", m, r.Distribution, err)
	}
	var want []float64
	for _, o := range a.obs {
		want = append(want, o.v)
	}
	got = append([]float64{}, got...)
	sort.Float64s(got)
	sort.Float64s(want)
	if len(got) != len(want) {
		return fmt.Errorf("%q: distribution was fed %d values, %d added", m, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Errorf("%q: distribution was fed %v, added were %v", m, got, want)
		}
	}
	return nil
}

func run(x *vkit.Ctx, c Case) error {
	var params dist.Params = fakedist.New()
	if c.Real {
		params = tdigest.Params{Compression: 5}
	}
	ctx := context.Background()
	w := data.NewWriter(params)
	page := map[string]*acc{}
	prevEnd := map[string]int64{}
	var lastCapEnd int64 // of the previous capture, when it gave any record
	clock := time.Now()
	sane := true // the wall clock has only moved forward
	now := func() time.Time {
		t := time.Now()
		if t.UnixNano() < clock.UnixNano() {
			sane = false
		}
		clock = t
		return t
	}
	add := func(o Op) {
		for i := 0; i < o.N || i == 0; i++ {
			v := math.Float64frombits(o.Bits)
			if i > 0 && !math.IsInf(v, 0) && !math.IsNaN(v) {
				v = math.Trunc(math.Mod(v, 1000)) + float64((i*7)%13) - 6
			}
			id := append(append([]byte{}, o.ID...), bytes.Repeat([]byte("i"), o.Long)...)
			if i > 0 {
				id = append(id, byte(i))
			}
			buf := append(make([]byte, 0, len(id)+8), id...)
			if o.Nil {
				buf, id = nil, nil
			}
			before := now()
			w.Add(ctx, metrics[o.M], v, buf)
			after := now()
			for j := range buf {
				buf[j] ^= 0xA5 // the caller's buffer again
			}
			if math.IsInf(v, 0) || math.IsNaN(v) {
				continue
			}
			a := page[metrics[o.M]]
			if a == nil {
				a = &acc{first: after}
				page[metrics[o.M]] = a
			}
			a.obs = append(a.obs, obs{v, id})
			a.last = before
		}
	}
	captures, adds := 0, 0
	for oi, o := range c.Ops {
		switch o.K {
		case "add":
			add(o)
			adds++
		case "wait":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
			x.Label("waited")
		case "capture", "iterate", "stop", "reenter":
			var err error
			seen := map[string]bool{}
			var end int64
			calls := 0
			before := now()
			old := page
			if o.K == "capture" || o.K == "reenter" {
				page = map[string]*acc{}
			}
			stopped := false
			endBySeen := map[string]int64{}
			fn := func(_ context.Context, m string, r data.Record) bool {
				calls++
				if err != nil {
					return true
				}
				if stopped {
					err = fmt.Errorf("called again after the callback asked to stop")
				} else if seen[m] {
					err = fmt.Errorf("%q produced twice", m)
				} else if err = old[m].check(m, r, c.Real); err != nil {
				} else if sane {
					a := old[m]
					if r.StartTime > a.first.UnixNano() || r.EndTime < a.last.UnixNano() {
						err = fmt.Errorf("%q: record from %d to %d does not span its observations, added by %d up to after %d", m, r.StartTime, r.EndTime, a.first.UnixNano(), a.last.UnixNano())
					}
					if r.EndTime < before.UnixNano() || r.EndTime > time.Now().UnixNano() {
						err = fmt.Errorf("%q: record ends at %d, not when it was captured (after %d)", m, r.EndTime, before.UnixNano())
					}
				}
				if err == nil && r.StartTime > r.EndTime && sane {
					err = fmt.Errorf("%q: record from %d to %d", m, r.StartTime, r.EndTime)
				}
				if p, ok := prevEnd[m]; ok && err == nil {
					if p == lastCapEnd && r.StartTime != p {
						err = fmt.Errorf("%q: record starts at %d though the previous one ended at %d", m, r.StartTime, p)
					}
					if r.StartTime < p {
						err = fmt.Errorf("%q: record starts at %d, within the previous one ending at %d", m, r.StartTime, p)
					}
				}
				if end == 0 {
					end = r.EndTime
				}
				if err == nil && r.EndTime != end {
					err = fmt.Errorf("records of one pass end at %d and %d", end, r.EndTime)
				}
				endBySeen[m] = r.EndTime
				seen[m] = true
				// its fields are ours to spoil only in the exact bytes we got;
				// do not: but adding more must not change what was produced
				if o.K == "reenter" {
					add(Op{M: o.M, Bits: math.Float64bits(float64(oi)), ID: []byte{byte(calls)}})
					if err == nil {
						if e := old[m].check(m, r, c.Real); e != nil {
							err = fmt.Errorf("after adding in the callback: %v", e)
						}
					}
				}
				if o.K == "stop" && calls >= o.N {
					stopped = true
					return false
				}
				return true
			}
			if o.K == "capture" || o.K == "reenter" {
				w.Capture(ctx, fn)
				captures++
				lastCapEnd = end
				for m, e := range endBySeen {
					prevEnd[m] = e
				}
			} else {
				w.Iterate(ctx, fn)
			}
			if err != nil {
				return fmt.Errorf("op %d (%s): %v", oi, o.K, err)
			}
			if o.K != "stop" {
				for m := range old {
					if !seen[m] {
						return fmt.Errorf("op %d (%s): no record for %q, which had %d observations", oi, o.K, m, len(old[m].obs))
					}
				}
			} else if want := o.N; calls != want && calls != len(old) {
				return fmt.Errorf("op %d: iteration gave %d records of %d, asked to stop after %d", oi, calls, len(old), want)
			}
			x.LabelIf(o.K == "reenter" && calls > 0, "adds from within a capture")
			x.LabelIf(stopped && len(old) > calls, "iterations cut short")
		}
	}
	x.LabelIf(c.Real, "t-digest")
	x.LabelN("captures", captures)
	if captures >= 2 && adds >= 3 {
		x.NonTrivial()
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID:          "P14",
		Rule:        "sequences of adds (any float, identifiers in reused buffers), captures (some adding from within), iterations and cut-short iterations over up to seven metrics, in some cases with up to seconds passing in between, against a list of everything added per period; non-trivial: at least two captures and three add steps",
		Assumptions: []string{"one caller at a time (P15 covers several)", "the time checks apply while the wall clock does not step backwards"},
	},
		vkit.P("writer", 60000, 1500000, gen, run),
		vkit.P("slow", 240, 3000, genSlow, run),
	)
}
