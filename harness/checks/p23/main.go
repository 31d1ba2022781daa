// P23: merged distributions agree with pooling the raw values.
package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/merge"
	"pgregory.net/rapid"
)

// Part is a record: values drawn from a shape, or given.
type Part struct {
	Shape  string
	N      int
	Mean   float64
	Spread float64
	Exact  []float64
	Times  int // how often the record is merged
}

// Case merges the parts; Tree lists pairs of positions merged step by step.
type Case struct {
	In, Out float64 // compression of the records and of the result
	Parts   []Part
	Tree    []int
	Seed    int64
	Alike   bool // continuous parts of similar location and scale
}

var shapes = []string{"normal", "uniform", "exponential", "sorted", "reversed", "two"}

func genPart(t *rapid.T, alike bool) Part {
	p := Part{N: rapid.SampledFrom([]int{1, 2, 10, 100, 1000, 3000}).Draw(t, "n"), Times: 1}
	if rapid.IntRange(0, 5).Draw(t, "again") == 3 {
		p.Times = rapid.IntRange(2, 3).Draw(t, "times")
	}
	if alike {
		p.Shape, p.Mean, p.Spread = rapid.SampledFrom(shapes[:5]).Draw(t, "shape"), rapid.Float64Range(-2, 2).Draw(t, "mean"), rapid.Float64Range(0.5, 4).Draw(t, "spread")
		return p
	}
	p.Shape = rapid.SampledFrom(shapes).Draw(t, "shape")
	p.Mean, p.Spread = rapid.SampledFrom([]float64{0, 0, 10, -50, 1e6}).Draw(t, "mean"), rapid.SampledFrom([]float64{1, 1, 10, 0.001, 1e6}).Draw(t, "spread")
	if rapid.IntRange(0, 3).Draw(t, "exactp") == 1 {
		p.Exact = rapid.SliceOfN(rapid.Float64Range(-1e6, 1e6), 1, 5).Draw(t, "exact")
		p.N = 0
	}
	return p
}

func gen(t *rapid.T) Case {
	alike := rapid.Bool().Draw(t, "alike")
	cs := []float64{5, 10, 20, 100}
	c := Case{In: rapid.SampledFrom(cs).Draw(t, "in"), Out: rapid.SampledFrom(cs).Draw(t, "out"), Seed: rapid.Int64Range(1, 1000).Draw(t, "seed")}
	c.Alike = alike
	n := rapid.IntRange(1, 8).Draw(t, "parts")
	for i := 0; i < n; i++ {
		c.Parts = append(c.Parts, genPart(t, alike))
	}
	c.Tree = rapid.SliceOfN(rapid.IntRange(0, 7), n, n).Draw(t, "tree")
	return c
}

func (p Part) values(r *rand.Rand) []float64 {
	if p.Exact != nil {
		return p.Exact
	}
	var out []float64
	for i := 0; i < p.N; i++ {
		v := 0.0
		switch p.Shape {
		case "normal", "sorted", "reversed":
			v = r.NormFloat64()
		case "uniform":
			v = r.Float64()
		case "exponential":
			v = r.ExpFloat64()
		case "two":
			v = float64(r.Intn(2))*10 + r.Float64()
		case "integers":
			v = float64(r.Intn(5))
		}
		out = append(out, p.Mean+p.Spread*v)
	}
	switch p.Shape {
	case "sorted":
		sort.Float64s(out)
	case "reversed":
		sort.Sort(sort.Reverse(sort.Float64Slice(out)))
	}
	return out
}

func (c Case) merge(recs []data.Record) (data.Record, error) {
	return merge.Merge(context.Background(), merge.MergeOptions{Params: tdigest.Params{Compression: c.Out}, Records: recs})
}

// rankError is by how much v misses having rank q in the sorted values.
func rankError(vals []float64, v, q, eps float64) float64 {
	n := float64(len(vals))
	lo := float64(sort.SearchFloat64s(vals, v-eps)) / n
	hi := float64(sort.Search(len(vals), func(i int) bool { return vals[i] > v+eps })) / n
	return math.Max(0, math.Max(lo-q, q-hi))
}

func judge(what string, d dist.Dist, vals []float64, tol float64) error {
	if d.Len() != int64(len(vals)) {
		return fmt.Errorf("%s: %d values merged, the distribution has %d", what, len(vals), d.Len())
	}
	eps := 1e-5*math.Max(math.Abs(vals[0]), math.Abs(vals[len(vals)-1])) + 1e-36
	for q := 0.0; q <= 1; q += 1.0 / 64 {
		v := d.Query(q)
		if e := rankError(vals, v, q, eps); !(e <= tol) || math.IsNaN(v) {
			return fmt.Errorf("%s: quantile %v is %v, %.4f off in rank among the %d values (tolerance %.4f)", what, q, v, e, len(vals), tol)
		}
	}
	for i := 0; i <= 16; i++ {
		v := vals[i*(len(vals)-1)/16]
		q := d.CDF(v)
		// CDF answers in steps of 1/64
		if e := rankError(vals, v, q, eps); !(e <= tol+1.0/64) {
			return fmt.Errorf("%s: the rank of %v is answered %v, off by %.4f among the %d values (tolerance %.4f)", what, v, q, e, len(vals), tol+1.0/64)
		}
	}
	return nil
}

func run(x *vkit.Ctx, c Case) error {
	rand.Seed(c.Seed)
	rng := rand.New(rand.NewSource(c.Seed))
	var recs []data.Record
	var vals []float64
	total := 0
	for _, p := range c.Parts {
		d, err := tdigest.Params{Compression: c.In}.New()
		if err != nil {
			return err
		}
		vs := p.values(rng)
		for _, v := range vs {
			d.Observe(v)
		}
		enc := d.Marshal(nil)
		for i := 0; i < p.Times || i == 0; i++ {
			vals = append(vals, vs...)
			total += len(vs)
			recs = append(recs, data.Record{StartTime: 1, EndTime: 2, Observations: int64(len(vs)), Min: vs[0], Max: vs[0], Kind: "tdigest", Distribution: append([]byte{}, enc...), Merged: 1})
		}
		x.LabelIf(p.Times > 1, "the same record again")
	}
	sort.Float64s(vals)
	least := math.Min(c.In, c.Out)
	tol := c.tolerance(least, total)
	all, err := c.merge(recs)
	if err != nil {
		return fmt.Errorf("merging %d records: %v", len(recs), err)
	}
	d, err := load.Load(context.Background(), all)
	if err != nil {
		return err
	}
	if err := judge("all at once", d, vals, tol); err != nil {
		return err
	}
	// encoded again, it answers the same
	again := all
	again.Distribution = d.Marshal(nil)
	d2, err := load.Load(context.Background(), again)
	if err != nil {
		return fmt.Errorf("encoded again: %v", err)
	}
	if err := judge("encoded again", d2, vals, tol); err != nil {
		return err
	}
	// two by two in the order of the tree
	for i := 0; len(recs) > 1; i++ {
		a := c.Tree[i%len(c.Tree)] % len(recs)
		b := (a + 1) % len(recs)
		m, err := c.merge([]data.Record{recs[a], recs[b]})
		if err != nil {
			return fmt.Errorf("merging two records: %v", err)
		}
		recs[a] = m
		recs = append(recs[:b], recs[b+1:]...)
	}
	d, err = load.Load(context.Background(), recs[0])
	if err != nil {
		return err
	}
	if err := judge("two by two", d, vals, tol); err != nil {
		return err
	}
	if len(c.Parts) > 2 && total > 200 {
		x.NonTrivial()
	}
	x.LabelIf(c.Alike, "alike")
	x.LabelIf(total > 3000, "more than 3000 values")
	return nil
}

// tolerance is the error in rank accepted for digests of a compression: a
// centroid in the middle may hold n/compression values, and where the values
// have atoms or clusters of very different scale all of it shows.
func (c Case) tolerance(compression float64, n int) float64 {
	if c.Alike {
		return 0.6/compression + 0.02 + 2/float64(n)
	}
	return 1.7/compression + 0.03 + 2/float64(n)
}

func main() {
	vkit.Main(vkit.Opts{
		ID:          "P23",
		Rule:        "one to eight records of up to 3000 values from eight shapes (or exact values), of one compression, merged into another compression at once and two by two in a drawn order; quantiles and ranks compared with the sorted values; non-trivial: more than two records and 200 values",
		Assumptions: []string{"the accuracy in rank is taken to be 0.6/compression + 2% + 2/n for values of one scale, 1.7/compression + 3% + 2/n otherwise"},
	},
		vkit.P("pool", 10000, 60000, gen, run),
	)
}
