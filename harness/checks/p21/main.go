// P21: merging records is exact on counts, extremes and time.
package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"strings"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/merge"
	"pgregory.net/rapid"
)

// Rec is one input.
type Rec struct {
	Start, End int64
	Obs        int64
	Merged     int64
	Min, Max   float64
	MinID      string
	MaxID      string
	Vals       []float64 // in its distribution
	Kind       string
}

// Case merges records: Order permutes them, Cuts splits them into groups that
// are merged first.
type Case struct {
	Compression float64
	Recs        []Rec
	Order       []int
	Cuts        []int
}

func genRec(t *rapid.T, i int) Rec {
	f := func(l string) float64 {
		if rapid.Bool().Draw(t, l+"few") {
			return rapid.SampledFrom([]float64{-2, -1, 0, 1, 2}).Draw(t, l)
		}
		return rapid.Float64Range(-1e300, 1e300).Draw(t, l)
	}
	r := Rec{
		Start: rapid.Int64Range(0, 100).Draw(t, "start"), Obs: rapid.Int64Range(0, 1000).Draw(t, "obs"), Merged: rapid.Int64Range(0, 5).Draw(t, "merged"),
		Min: f("min"), Max: f("max"),
		MinID: fmt.Sprintf("min%d", i), MaxID: fmt.Sprintf("max%d", i), Vals: rapid.SliceOfN(rapid.Float64Range(-1000, 1000), 0, 4).Draw(t, "vals"), Kind: "tdigest",
	}
	if rapid.IntRange(0, 3).Draw(t, "noid") == 2 {
		r.MinID, r.MaxID = "", ""
	}
	if rapid.IntRange(0, 7).Draw(t, "longid") == 6 {
		long := strings.Repeat("p", rapid.SampledFrom([]int{60, 100, 300}).Draw(t, "idlen"))
		r.MinID, r.MaxID = long+r.MinID, long+r.MaxID
	}
	if rapid.Bool().Draw(t, "bigt") {
		r.Start += 1530000000000000000
	}
	if rapid.IntRange(0, 5).Draw(t, "bigo") == 3 {
		r.Obs *= 1 << 50
	}
	if rapid.IntRange(0, 5).Draw(t, "bigm") == 4 {
		r.Merged *= 1 << rapid.SampledFrom([]int{20, 29, 30, 31, 32, 40, 50}).Draw(t, "mshift")
	}
	r.End = r.Start + rapid.Int64Range(0, 100).Draw(t, "len")
	return r
}

func gen(t *rapid.T) Case {
	c := Case{Compression: rapid.SampledFrom([]float64{1, 5, 100}).Draw(t, "compression")}
	n := rapid.IntRange(1, 8).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Recs = append(c.Recs, genRec(t, i))
	}
	if rapid.IntRange(0, 9).Draw(t, "foreign") == 7 {
		c.Recs[rapid.IntRange(0, n-1).Draw(t, "which")].Kind = rapid.SampledFrom([]string{"", "x", "Tdigest", "tdigest2"}).Draw(t, "kind")
	}
	var ids []int
	for i := 0; i < n; i++ {
		ids = append(ids, i)
	}
	c.Order = rapid.Permutation(ids).Draw(t, "order")
	c.Cuts = rapid.SliceOfN(rapid.IntRange(0, 3), n, n).Draw(t, "cuts")
	return c
}

func (r Rec) record(compression float64) data.Record {
	d, err := tdigest.Params{Compression: compression}.New()
	vkit.Must(err)
	for _, v := range r.Vals {
		d.Observe(v)
	}
	out := data.Record{StartTime: r.Start, EndTime: r.End, Observations: r.Obs, Merged: r.Merged, Min: r.Min, Max: r.Max, Kind: r.Kind, Distribution: d.Marshal(nil)}
	if r.MinID != "" {
		out.MinId, out.MaxId = []byte(r.MinID), []byte(r.MaxID)
	}
	return out
}

func copyRec(r data.Record) data.Record {
	r.Distribution = append([]byte(nil), r.Distribution...)
	r.MinId, r.MaxId = append([]byte(nil), r.MinId...), append([]byte(nil), r.MaxId...)
	return r
}

func equalRec(a, b data.Record) bool {
	x, _ := a.Marshal()
	y, _ := b.Marshal()
	return bytes.Equal(x, y)
}

func run(x *vkit.Ctx, c Case) error {
	rand.Seed(1)
	opts := func(recs []data.Record) merge.MergeOptions {
		return merge.MergeOptions{Params: tdigest.Params{Compression: c.Compression}, Records: recs}
	}
	var recs []data.Record
	foreign := false
	for _, i := range c.Order {
		recs = append(recs, c.Recs[i].record(c.Compression))
		foreign = foreign || c.Recs[i].Kind != "tdigest"
	}
	var keep []data.Record
	for _, r := range recs {
		keep = append(keep, copyRec(r))
	}
	check := func(got data.Record, what string) error {
		var obs, merged, n int64
		start, end := c.Recs[0].Start, c.Recs[0].End
		min, max := c.Recs[0].Min, c.Recs[0].Max
		for _, r := range c.Recs {
			obs += r.Obs
			if r.Merged == 0 {
				merged++
			}
			merged += r.Merged
			n += int64(len(r.Vals))
			if r.Start < start {
				start = r.Start
			}
			if r.End > end {
				end = r.End
			}
			if r.Min < min {
				min = r.Min
			}
			if r.Max > max {
				max = r.Max
			}
		}
		if got.StartTime != start || got.EndTime != end || got.Observations != obs || got.Merged != merged || got.Min != min || got.Max != max {
			return fmt.Errorf("%s: merged into times %d to %d, %d observations, %d merged, extremes %v and %v; the records span %d to %d with %d observations, %d merged, extremes %v and %v",
				what, got.StartTime, got.EndTime, got.Observations, got.Merged, got.Min, got.Max, start, end, obs, merged, min, max)
		}
		okMin, okMax := false, false
		for _, r := range c.Recs {
			okMin = okMin || r.Min == min && r.MinID == string(got.MinId)
			okMax = okMax || r.Max == max && r.MaxID == string(got.MaxId)
		}
		if !okMin || !okMax {
			return fmt.Errorf("%s: the minimum %v is attributed to %q, the maximum %v to %q", what, min, got.MinId, max, got.MaxId)
		}
		if got.Kind != "tdigest" {
			return fmt.Errorf("%s: merged into kind %q", what, got.Kind)
		}
		d, err := load.Load(context.Background(), got)
		if err != nil || d.Len() != n {
			return fmt.Errorf("%s: distributions of %d values merged into %v (%v)", what, n, d, err)
		}
		return nil
	}
	got, err := merge.Merge(context.Background(), opts(recs))
	for i := range recs {
		if !equalRec(recs[i], keep[i]) {
			return fmt.Errorf("merging changed an input from %#v to %#v", keep[i], recs[i])
		}
	}
	if foreign {
		x.Label("incompatible")
		if err == nil {
			return fmt.Errorf("records of which one has another kind of distribution merge")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("merging %d records: %v", len(recs), err)
	}
	if err := check(got, "all at once"); err != nil {
		return err
	}
	// in groups
	groups := map[int][]data.Record{}
	for i, r := range recs {
		groups[c.Cuts[i]] = append(groups[c.Cuts[i]], r)
	}
	var parts []data.Record
	for g := 3; g >= 0; g-- {
		if len(groups[g]) == 0 {
			continue
		}
		p, err := merge.Merge(context.Background(), opts(groups[g]))
		if err != nil {
			return fmt.Errorf("merging a group: %v", err)
		}
		parts = append(parts, p)
	}
	got, err = merge.Merge(context.Background(), opts(parts))
	if err != nil {
		return fmt.Errorf("merging the groups: %v", err)
	}
	if err := check(got, fmt.Sprintf("in %d groups", len(parts))); err != nil {
		return err
	}
	if len(parts) > 1 && len(recs) > 2 {
		x.NonTrivial()
	}
	return nil
}

func none(x *vkit.Ctx, n int) error {
	_, err := merge.Merge(context.Background(), merge.MergeOptions{Params: tdigest.Params{Compression: 5}})
	if err == nil {
		return fmt.Errorf("merging no records succeeds")
	}
	r := Rec{Vals: []float64{1}, Kind: "tdigest"}.record(5)
	if _, err := merge.Merge(context.Background(), merge.MergeOptions{Records: []data.Record{r}}); err == nil {
		return fmt.Errorf("merging without parameters succeeds")
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID:          "P21",
		Rule:        "one to eight records with drawn counts, extremes (small integers half of the time, so that ties occur), identifiers, merged counts and times, merged at once in a drawn order and in drawn groups; non-trivial: at least three records in at least two groups",
		Assumptions: []string{"sums stay within 64 bits, extremes are finite"},
	},
		vkit.P("merge", 30000, 1000000, gen, run),
		vkit.P("none", 1, 1, func(t *rapid.T) int { return rapid.IntRange(0, 1).Draw(t, "x") }, none),
	)
}
