// P22: each rendered column summarises exactly the records overlapping it.
package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/merge"
	"pgregory.net/rapid"
)

// Rec is a record by its times relative to now, its values and merged count.
type Rec struct {
	Ago    int64 // from its end to now
	Len    int64
	Obs    int64
	Merged int64
	Vals   []int
}

type Case struct {
	Now     int64
	Width   int
	Px      int64 // nanoseconds per pixel
	Rem     int64 // nanoseconds of the duration that make no full pixel
	Samples int
	Recs    []Rec
}

func gen(t *rapid.T) Case {
	c := Case{
		Now:     rapid.SampledFrom([]int64{1530000000000000000, 1<<62 - 1, 1e12}).Draw(t, "now"),
		Width:   rapid.IntRange(1, 40).Draw(t, "width"),
		Px:      rapid.SampledFrom([]int64{1, 2, 3, 10, 1000, 86400e9, 7}).Draw(t, "px"),
		Samples: rapid.SampledFrom([]int{1, 2, 5, 30}).Draw(t, "samples"),
	}
	if c.Now == 1e12 && c.Px > 1e6 {
		c.Px = 1e6
	}
	c.Rem = rapid.Int64Range(0, int64(c.Width)-1).Draw(t, "rem")
	step := func(l string) int64 {
		switch rapid.IntRange(0, 6).Draw(t, l+"k") {
		case 0:
			return 0
		case 1:
			return 1
		case 2:
			return c.Px
		case 3:
			return c.Px + rapid.SampledFrom([]int64{-1, 1}).Draw(t, l+"pm")
		case 4:
			return c.Px * rapid.Int64Range(2, 12).Draw(t, l+"m")
		case 5:
			return rapid.Int64Range(0, 3*c.Px).Draw(t, l+"r")
		}
		return rapid.Int64Range(0, c.Px*int64(c.Width)).Draw(t, l+"w")
	}
	ago := rapid.SampledFrom([]int64{1, 0, c.Px, -1, -c.Px, -3 * c.Px, c.Px*int64(c.Width) - 1, c.Px*int64(c.Width) + c.Rem, 1}).Draw(t, "ago")
	// sometimes there are many short records in few pixels
	n := rapid.IntRange(0, 10).Draw(t, "n")
	crowd := rapid.IntRange(0, 39).Draw(t, "crowd") == 23 && c.Px >= 1000
	if crowd {
		n = rapid.SampledFrom([]int{30, 65, 130, 300}).Draw(t, "many")
		ago = c.Px*rapid.Int64Range(0, 2).Draw(t, "where") + 1
	}
	for i := n; i > 0; i-- {
		if crowd {
			c.Recs = append(c.Recs, Rec{Ago: ago, Len: c.Px / 400, Obs: 1 + int64(i)*7%50, Merged: int64(i) % 3, Vals: []int{i * 37 % 500}})
			ago += c.Px/400 + int64(i)%2
			continue
		}
		r := Rec{Ago: ago, Len: step("len"), Obs: rapid.Int64Range(1, 50).Draw(t, "obs"), Merged: rapid.Int64Range(0, 3).Draw(t, "merged"), Vals: rapid.SliceOfN(rapid.IntRange(-500, 500), 1, 3).Draw(t, "vals")}
		c.Recs = append(c.Recs, r)
		switch rapid.IntRange(0, 5).Draw(t, "next") {
		case 0, 1, 2: // adjacent
			ago += r.Len
		case 3: // with a gap
			ago += r.Len + step("gap")
		case 4: // overlapping
			ago += rapid.Int64Range(0, r.Len).Draw(t, "over")
		case 5:
			ago++
		}
		if ago == r.Ago {
			ago++
		}
		if ago > c.Now/2 {
			break
		}
	}
	return c
}

// quantile of sorted values with linear interpolation.
func quantile(s []float64, q float64) float64 {
	i := q * float64(len(s)-1)
	lo := int(i)
	if lo+1 >= len(s) {
		return s[len(s)-1]
	}
	return s[lo] + (s[lo+1]-s[lo])*(i-float64(lo))
}

func run(x *vkit.Ctx, c Case) error {
	rand.Seed(1)
	ctx := context.Background()
	dur := c.Px*int64(c.Width) + c.Rem
	params := tdigest.Params{Compression: 1000}
	m := merge.NewMerger(merge.MergerOptions{Samples: c.Samples, Now: c.Now, Duration: time.Duration(dur), Params: params})
	if len(c.Recs) > 0 && c.Recs[0].Len%2 == 0 {
		if err := m.Push(ctx, data.Record{EndTime: c.Now, StartTime: c.Now - 1, Kind: "tdigest"}); err == nil {
			return fmt.Errorf("a record is accepted before the width is known")
		}
	}
	m.SetWidth(c.Width)
	var recs []data.Record
	for i, r := range c.Recs {
		d, err := params.New()
		vkit.Must(err)
		for _, v := range r.Vals {
			d.Observe(float64(v))
		}
		rec := data.Record{StartTime: c.Now - r.Ago - r.Len, EndTime: c.Now - r.Ago, Observations: r.Obs, Merged: r.Merged, Distribution: d.Marshal(nil), Kind: "tdigest"}
		recs = append(recs, rec)
		if err := m.Push(ctx, rec); err != nil {
			return fmt.Errorf("pushing record %d: %v", i, err)
		}
	}
	cols, err := m.Finish(ctx)
	if err != nil {
		return fmt.Errorf("finishing: %v", err)
	}
	// which column covers each pixel
	cover := make([]int, c.Width)
	for i := range cover {
		cover[i] = -1
	}
	for i, col := range cols {
		if col.W < 1 || col.X < 0 || col.X+col.W > c.Width {
			return fmt.Errorf("column %d covers pixels %d to %d of a width of %d", i, col.X, col.X+col.W-1, c.Width)
		}
		for p := col.X; p < col.X+col.W; p++ {
			if cover[p] >= 0 {
				return fmt.Errorf("pixel %d is in two columns", p)
			}
			cover[p] = i
		}
		if len(col.Data) != c.Samples+1 {
			return fmt.Errorf("column %d has %d values, asked for %d samples", i, len(col.Data), c.Samples)
		}
		for _, v := range append([]float64{col.ObsSec}, col.Data...) {
			if math.IsNaN(v) || math.IsInf(v, 0) {
				return fmt.Errorf("column %d has a number %v", i, v)
			}
		}
	}
	boundary, multi := 0, 0
	for p := 0; p < c.Width; p++ {
		from, to := c.Now-int64(c.Width-p)*c.Px, c.Now-int64(c.Width-p-1)*c.Px
		if p == 0 {
			from = c.Now - dur
		}
		var must, touch []int
		for i, r := range recs {
			switch {
			case r.StartTime < to && r.EndTime > from && (r.StartTime < r.EndTime || r.StartTime > from):
				must = append(must, i)
			case r.StartTime < to && r.EndTime >= from && r.StartTime < c.Now && r.EndTime > c.Now-dur:
				// its end touches the pixel's beginning, inside the window
				touch = append(touch, i)
			}
		}
		if cover[p] < 0 {
			if len(must) > 0 {
				return fmt.Errorf("pixel %d is not covered, though record %d overlaps it", p, must[0])
			}
			continue
		}
		if len(must)+len(touch) == 0 {
			return fmt.Errorf("pixel %d is covered, though no record overlaps it", p)
		}
		if len(touch) > 6 {
			continue
		}
		col := cols[cover[p]]
		ok := false
		var why error
		for sub := 0; sub < 1<<uint(len(touch)) && !ok; sub++ {
			set := append([]int{}, must...)
			for j, i := range touch {
				if sub>>uint(j)&1 == 1 {
					set = append(set, i)
				}
			}
			if len(set) > 0 {
				err := c.matches(col, set)
				if why == nil {
					why = err
				}
				ok = err == nil
			}
		}
		if !ok {
			return fmt.Errorf("pixel %d is overlapped by records %v (touched by %v), but its column does not summarise them: %v", p, must, touch, why)
		}
		if len(touch) > 0 {
			boundary++
		}
		if len(must) > 1 {
			multi++
		}
	}
	x.LabelIf(boundary > 0, "with records ending on a pixel boundary")
	x.LabelIf(multi > 0, "with several records in a pixel")
	x.LabelIf(len(c.Recs) > 10, "many records in a pixel")
	x.LabelIf(len(c.Recs) > 0 && len(cols) == 0, "nothing in the window")
	if len(cols) > 2 && multi > 0 {
		x.NonTrivial()
	}
	return nil
}

// matches tells whether the column summarises exactly these records.
func (c Case) matches(col draw.Column, set []int) error {
	var vals []float64
	rate, instant := 0.0, false
	for _, i := range set {
		r := c.Recs[i]
		for _, v := range r.Vals {
			vals = append(vals, float64(v))
		}
		merged := r.Merged
		if merged == 0 {
			merged = 1
		}
		if r.Len == 0 {
			instant = true
			continue
		}
		rate += float64(r.Obs) / float64(merged) / (float64(r.Len) / 1e9)
	}
	rate /= float64(len(set))
	if !instant && !(math.Abs(rate-col.ObsSec) <= 1e-9*math.Abs(rate)) {
		return fmt.Errorf("its rate is %v, those records average %v", col.ObsSec, rate)
	}
	sort.Float64s(vals)
	for i, v := range col.Data {
		want := quantile(vals, float64(i)/float64(c.Samples))
		// columns are rounded to three digits
		if !(math.Abs(v-want) <= 1.1e-2*math.Abs(want)+1e-3) {
			return fmt.Errorf("quantile %d/%d is %v, of those records it is %v", i, c.Samples, v, want)
		}
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P22",
		Rule: "up to ten records (now and then up to 300 in a pixel or two) laid out backwards from around now (adjacent, with gaps, overlapping, lengths around multiples of a pixel, inside and outside the window), pushed through a merger of drawn width and pixel size; each pixel's column must have the rate and quantiles of exactly the records overlapping it (those merely touching it may count); " +
			"non-trivial: more than two columns, and a pixel with several records",
		Assumptions: []string{"records arrive with decreasing ends; columns carry values of three digits"},
	},
		vkit.P("columns", 30000, 1000000, gen, run),
	)
}
