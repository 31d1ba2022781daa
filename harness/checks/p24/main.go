// P24: a distribution answers quantile and rank queries coherently.
package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist"
	_ "github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/registry"
	"pgregory.net/rapid"
)

// Op is one step.
type Op struct {
	K     string // observe, query, rank, encode
	Vals  []float64
	N     int
	Shape int
	Mean  float64
	Sd    float64
	Q     float64
}

type Case struct {
	Compression float64
	Seed        int64
	Huge        bool // any finite values, not only moderate ones
	Ops         []Op
}

func gen(t *rapid.T) Case {
	c := Case{Compression: rapid.SampledFrom([]float64{1, 1.5, 2, 3.7, 5, 5, 20, 20, 100, 100, 999.5, 1000, 10000, 65536}).Draw(t, "compression"), Seed: rapid.Int64Range(1, 1000).Draw(t, "seed"), Huge: rapid.IntRange(0, 3).Draw(t, "huge") == 2}
	for i := rapid.IntRange(1, 12).Draw(t, "n"); i > 0; i-- {
		o := Op{K: rapid.SampledFrom([]string{"observe", "observe", "query", "rank", "encode"}).Draw(t, "k")}
		switch o.K {
		case "observe":
			if c.Huge {
				o.Vals = rapid.SliceOfN(rapid.Float64(), 1, 5).Draw(t, "any")
				if rapid.Bool().Draw(t, "many") {
					o.N, o.Sd = rapid.SampledFrom([]int{10, 300}).Draw(t, "n"), math.MaxFloat64/8
				}
			} else if rapid.Bool().Draw(t, "exact") {
				o.Vals = rapid.SliceOfN(rapid.Float64Range(-100, 100), 1, 5).Draw(t, "vals")
			} else {
				o.N = rapid.SampledFrom([]int{1, 2, 10, 100, 1000}).Draw(t, "n")
				o.Shape = rapid.IntRange(0, 3).Draw(t, "shape")
				o.Mean, o.Sd = rapid.Float64Range(-20, 20).Draw(t, "mean"), rapid.Float64Range(0.1, 20).Draw(t, "sd")
			}
		case "query":
			o.Q = rapid.Float64Range(0, 1).Draw(t, "q")
		case "rank":
			o.Q = rapid.Float64Range(-0.2, 1.2).Draw(t, "v")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func (o Op) values(r *rand.Rand) []float64 {
	out := append([]float64{}, o.Vals...)
	for i := 0; i < o.N; i++ {
		v := 0.0
		switch o.Shape {
		case 0:
			v = r.NormFloat64()
		case 1:
			v = r.Float64()
		case 2:
			v = math.Round(r.NormFloat64())
		case 3:
			v = float64(i) / float64(o.N)
		}
		out = append(out, math.Max(-math.MaxFloat64, math.Min(math.MaxFloat64, o.Mean+o.Sd*v)))
	}
	return out
}

const limit = math.MaxFloat32 / 2

func run(x *vkit.Ctx, c Case) error {
	rand.Seed(c.Seed)
	rng := rand.New(rand.NewSource(c.Seed))
	params, err := registry.NewDistribution(context.Background(), "tdigest", map[string]interface{}{"compression": c.Compression})
	if err != nil {
		return fmt.Errorf("compression %v: %v", c.Compression, err)
	}
	d, err := params.New()
	if err != nil {
		return fmt.Errorf("compression %v: %v", c.Compression, err)
	}
	if d.Kind() != "tdigest" || params.Kind() != "tdigest" {
		return fmt.Errorf("kind is %q and %q", d.Kind(), params.Kind())
	}
	var vals []float64
	queried, afterQuery, encodes := false, false, 0
	for i, o := range c.Ops {
		fail := func(err error) error { return fmt.Errorf("step %d (%s), %d values: %v", i, o.K, len(vals), err) }
		switch o.K {
		case "observe":
			for _, v := range o.values(rng) {
				d.Observe(v)
				vals = append(vals, math.Max(-limit, math.Min(limit, v)))
			}
			sort.Float64s(vals)
			afterQuery = afterQuery || queried
		case "query":
			if len(vals) > 0 {
				if err := c.coherent(d, vals, o.Q); err != nil {
					return fail(err)
				}
				queried = true
			}
		case "rank":
			if len(vals) > 0 {
				v := vals[0] + o.Q*(vals[len(vals)-1]-vals[0])
				if err := c.rank(d, vals, v); err != nil {
					return fail(err)
				}
				queried = true
			}
		case "encode":
			b := d.Marshal([]byte{1, 2, 3})
			if len(b) < 3 || b[0] != 1 || b[2] != 3 {
				return fail(fmt.Errorf("encoding does not append"))
			}
			d2, err := params.Unmarshal(b[3:])
			if err != nil {
				return fail(err)
			}
			if d2.Len() != int64(len(vals)) {
				return fail(fmt.Errorf("restored with %d values", d2.Len()))
			}
			// the original goes on or the restored one does
			encodes++
			if encodes%2 == 0 {
				d = d2
			} else if len(vals) > 0 {
				if err := c.coherent(d2, vals, 0.5); err != nil {
					return fail(fmt.Errorf("restored: %v", err))
				}
			}
		}
		if d.Len() != int64(len(vals)) {
			return fail(fmt.Errorf("%d values announced", d.Len()))
		}
	}
	if len(vals) > 0 {
		if err := c.coherent(d, vals, 1); err != nil {
			return fmt.Errorf("at the end, %d values: %v", len(vals), err)
		}
	}
	x.LabelIf(c.Huge, "any finite value")
	x.LabelIf(encodes > 0, "encoded")
	x.LabelIf(afterQuery, "observed after a query")
	if afterQuery && len(vals) > 20 {
		x.NonTrivial()
	}
	return nil
}

func (c Case) eps(vals []float64) float64 {
	return 1e-5*math.Max(math.Abs(vals[0]), math.Abs(vals[len(vals)-1])) + 1e-36
}

// slack is how far the ends may be extrapolated.
func (c Case) slack(vals []float64) float64 {
	return vals[len(vals)-1] - vals[0] + c.eps(vals)
}

func (c Case) coherent(d dist.Dist, vals []float64, q float64) error {
	lo, hi := vals[0], vals[len(vals)-1]
	eps := c.eps(vals)
	// quantiles
	prev := math.Inf(-1)
	for i := 0; i <= 32; i++ {
		p := float64(i) / 32
		v := d.Query(p)
		if !(v >= prev-1e-9*math.Abs(prev)-1e-300) {
			return fmt.Errorf("quantile %v is %v, quantile %v is %v", p, v, p-1.0/32, prev)
		}
		if !(v >= lo-c.slack(vals) && v <= hi+c.slack(vals)) {
			return fmt.Errorf("quantile %v is %v, observed were %v to %v", p, v, lo, hi)
		}
		prev = v
		if !c.Huge {
			if e := rankError(vals, v, p, eps); e > c.tolerance(len(vals)) {
				return fmt.Errorf("quantile %v is %v, %.4f off in rank (tolerance %.4f)", p, v, e, c.tolerance(len(vals)))
			}
		}
	}
	a, b := d.Query(q), d.Query(q)
	if a != b {
		return fmt.Errorf("quantile %v is %v, and then %v", q, a, b)
	}
	if p := d.CDF(d.Query(1)); p != 1 && d.Query(0) < d.Query(1) {
		return fmt.Errorf("the rank of the largest value %v is %v", d.Query(1), p)
	}
	// ranks
	prev = 0
	for i := 0; i <= 24; i++ {
		v := lo/1.0 - 0.05*(hi-lo) + float64(i)/24*1.1*(hi-lo)
		p := d.CDF(v)
		if !(p >= prev && p <= 1) {
			return fmt.Errorf("the rank of %v is %v, of a smaller value %v", v, p, prev)
		}
		prev = p
		if err := c.rank(d, vals, v); err != nil {
			return err
		}
	}
	return nil
}

// rank checks the answered rank of v against the quantiles, and the values.
func (c Case) rank(d dist.Dist, vals []float64, v float64) error {
	eps := c.eps(vals)
	p := d.CDF(v)
	if !(p >= 0 && p <= 1) {
		return fmt.Errorf("the rank of %v is %v", v, p)
	}
	// the inverse, as ranks come in steps of 1/64
	below, above := d.Query(math.Max(0, p-1.0/64)), d.Query(math.Min(1, p+1.0/64))
	if p > 0 && !(below <= v+eps) || p < 1 && !(above >= v-eps) {
		return fmt.Errorf("the rank of %v is %v, but quantiles %v to %v are %v to %v", v, p, p-1.0/64, p+1.0/64, below, above)
	}
	if p == 0 && v > d.Query(1.0/64)+eps || p == 1 && v < d.Query(63.0/64)-eps {
		return fmt.Errorf("the rank of %v is %v, but quantiles 1/64 and 63/64 are %v and %v", v, p, d.Query(1.0/64), d.Query(63.0/64))
	}
	if !c.Huge {
		if e := rankError(vals, v, p, eps); e > c.tolerance(len(vals))+1.0/64 {
			return fmt.Errorf("the rank of %v is %v, off by %.4f (tolerance %.4f)", v, p, e, c.tolerance(len(vals))+1.0/64)
		}
	}
	return nil
}

func rankError(vals []float64, v, q, eps float64) float64 {
	n := float64(len(vals))
	lo := float64(sort.SearchFloat64s(vals, v-eps)) / n
	hi := float64(sort.Search(len(vals), func(i int) bool { return vals[i] > v+eps })) / n
	return math.Max(0, math.Max(lo-q, q-hi))
}

func (c Case) tolerance(n int) float64 { return 1.7/c.Compression + 0.03 + 2/float64(n) }

func main() {
	vkit.Main(vkit.Opts{
		ID: "P24",
		Rule: "up to twelve steps of observing (single values, up to a thousand of four shapes, or any finite floats), asking quantiles and ranks, encoding and going on with the restored distribution; answers are compared with each other and with the sorted values; " +
			"non-trivial: values observed after a query, more than twenty in total",
		Assumptions: []string{"the accuracy in rank is taken to be 1.7/compression + 3% + 2/n, and 1/64 more for ranks", "the ends may be extrapolated by up to the observed range", "values beyond half the float32 range count as that"},
	},
		vkit.P("history", 40000, 1500000, gen, run),
	)
}
