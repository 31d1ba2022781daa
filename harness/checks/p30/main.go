// P30: rendered data is the stored data.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"image/png"
	"net/url"
	"reflect"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/database/files/zzverif/fakeapi"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/colors"
	"github.com/vivint/rothko/draw/graph"
	"github.com/vivint/rothko/merge"
	"pgregory.net/rapid"
)

const base = int64(1530000000e9)

var names = []string{"m", "a.m", "m.b", "web/1 é%", "m "}

// Rec is a record to store; its times are in milliseconds after base.
type Rec struct {
	Metric     int
	Start, End int64
	Obs        int64
	Merged     int64
	Vals       []int
}

type Req struct {
	Metric        int // beyond the names: unknown
	Now           int64
	Dur           int64
	W, H, Padding int
	Samples       int
	Defaults      bool
	Image         bool
}

type Case struct {
	Cfg     store.Cfg
	Recs    []Rec
	Reqs    []Req
	Restart bool
	Shift   int64 // all times are this much later
}

func gen(t *rapid.T) Case {
	c := Case{Restart: rapid.IntRange(0, 3).Draw(t, "restart") == 2}
	c.Cfg = store.Cfg{Size: rapid.SampledFrom([]int{256, 1024, 4096}).Draw(t, "size"), Cap: rapid.SampledFrom([]int{40, 400}).Draw(t, "cap"), Files: 100,
		Buffer: rapid.SampledFrom([]int{0, 10}).Draw(t, "buffer"), Workers: rapid.IntRange(1, 3).Draw(t, "workers"), Handles: rapid.SampledFrom([]int{-1, 1, 20}).Draw(t, "handles")}
	// early, late, and as late as there are times
	c.Shift = rapid.SampledFrom([]int64{0, 0, 0, 0, 1e12 - base, 3e9*1e9 - base, 6e18, 9.2e18 - base}).Draw(t, "shift")
	nm := rapid.IntRange(1, len(names)).Draw(t, "nm")
	at := make([]int64, nm)
	period := rapid.SampledFrom([]int64{1, 1000, 600e3}).Draw(t, "period")
	for i := rapid.IntRange(0, 20).Draw(t, "nrec"); i > 0; i-- {
		r := Rec{Metric: rapid.IntRange(0, nm-1).Draw(t, "metric"), Obs: rapid.Int64Range(1, 100).Draw(t, "obs"), Merged: rapid.Int64Range(0, 2).Draw(t, "merged")}
		r.Start = at[r.Metric]
		switch rapid.IntRange(0, 5).Draw(t, "gap") {
		case 0:
			r.Start += rapid.Int64Range(1, 10).Draw(t, "gapn") * period
		case 1:
			r.Start -= period / 2
		}
		r.End = r.Start + period
		if rapid.IntRange(0, 5).Draw(t, "long") == 0 {
			r.End += rapid.Int64Range(0, 5*period).Draw(t, "more")
		}
		if r.End <= at[r.Metric] {
			r.End = at[r.Metric] + 1
		}
		at[r.Metric] = r.End
		r.Vals = rapid.SliceOfN(rapid.IntRange(-500, 500), 1, 4).Draw(t, "vals")
		c.Recs = append(c.Recs, r)
	}
	for i := rapid.IntRange(1, 4).Draw(t, "nreq"); i > 0; i-- {
		q := Req{Metric: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4, 5}).Draw(t, "qmetric"), Image: rapid.IntRange(0, 2).Draw(t, "image") == 0,
			W: rapid.IntRange(130, 400).Draw(t, "w"), H: rapid.IntRange(60, 160).Draw(t, "h"), Padding: rapid.IntRange(0, 5).Draw(t, "padding"),
			Samples: rapid.SampledFrom([]int{30, 1, 5, 60}).Draw(t, "samples"), Defaults: rapid.IntRange(0, 15).Draw(t, "defaults") == 9}
		if q.Metric > nm {
			q.Metric = 0
		}
		end := int64(0)
		if q.Metric < nm {
			end = at[q.Metric]
		}
		q.Now = base + c.Shift + 1e6*end + rapid.SampledFrom([]int64{0, 1, 1e6, 1e9, 0, 1, -1, -1e6}).Draw(t, "now")
		if rapid.IntRange(0, 3).Draw(t, "past") == 0 {
			q.Now -= rapid.Int64Range(0, 1+end).Draw(t, "back") * 1e6
		}
		q.Dur = rapid.SampledFrom([]int64{1, 2, 5, 20, 100}).Draw(t, "durk")*period*1e6 + rapid.SampledFrom([]int64{0, 0, 1, -1, 12345}).Draw(t, "durr")
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

type answer struct {
	Metric                 string
	Columns                []draw.Column
	Earliest               []byte
	Now, Duration          int64
	Width, Height, Padding int
}

func run(x *vkit.Ctx, c Case) error {
	ctx := context.Background()
	dir := x.TempDir()
	db := store.Open(dir, c.Cfg)
	defer func() { db.Close() }()
	stored := map[int][]data.Record{} // newest first
	raw := map[int][][]byte{}
	for i, r := range c.Recs {
		d, err := tdigest.Params{Compression: 1000}.New()
		vkit.Must(err)
		for _, v := range r.Vals {
			d.Observe(float64(v))
		}
		rec := data.Record{StartTime: base + c.Shift + r.Start*1e6, EndTime: base + c.Shift + r.End*1e6, Observations: r.Obs, Merged: r.Merged, Kind: "tdigest", Distribution: d.Marshal(nil)}
		buf, err := rec.Marshal()
		vkit.Must(err)
		ok, err := db.Put(names[r.Metric], rec.StartTime, rec.EndTime, buf)
		if err != nil || !ok {
			return fmt.Errorf("storing record %d: %v %v", i, ok, err)
		}
		stored[r.Metric] = append([]data.Record{rec}, stored[r.Metric]...)
		raw[r.Metric] = append([][]byte{buf}, raw[r.Metric]...)
	}
	if c.Restart {
		if err := db.Close(); err != nil {
			return err
		}
		db = store.Open(dir, c.Cfg)
	}
	srv := api.New(db, nil, api.Options{})
	many, blank := false, false
	for i, q := range c.Reqs {
		metric := "no such metric"
		if q.Metric < len(names) {
			metric = names[q.Metric]
		}
		v := url.Values{"metric": {metric}, "now": {fmt.Sprint(q.Now)}, "compression": {"1000"}}
		if q.Defaults {
			q.W, q.H, q.Padding, q.Samples, q.Dur = 1000, 350, 0, 30, int64(24*time.Hour)
		} else {
			v.Set("duration", time.Duration(q.Dur).String())
			for k, n := range map[string]int{"width": q.W, "height": q.H, "padding": q.Padding, "samples": q.Samples} {
				v.Set(k, fmt.Sprint(n))
			}
		}
		r := fakeapi.Req{Method: "GET", URI: "/api/render?" + v.Encode()}
		if !q.Image {
			r.Header = [][2]string{{"Accept", "application/json"}}
		}
		w := fakeapi.Ask(srv, r)
		again := fakeapi.Ask(srv, r)
		if w.Code != again.Code || w.Code == 200 && !bytes.Equal(w.Body.Bytes(), again.Body.Bytes()) {
			return fmt.Errorf("request %d: %s: answered differently the second time (%d, %d)", i, r.URI, w.Code, again.Code)
		}
		recs, ok := stored[q.Metric]
		x.LabelIf(!ok, "unknown metric")
		if !ok && w.Code >= 400 {
			continue
		}

		// what it must be
		mopts := graph.MeasureOptions{Now: q.Now, Duration: time.Duration(q.Dur), Width: q.W, Height: q.H, Padding: q.Padding}
		m := merge.NewMerger(merge.MergerOptions{Samples: q.Samples, Now: q.Now, Duration: time.Duration(q.Dur), Params: tdigest.Params{Compression: 1000}})
		measured, fits := graph.Measured{}, false
		var earliest []byte
		for k, rec := range recs {
			if rec.EndTime >= q.Now {
				continue
			}
			if earliest == nil {
				earliest = raw[q.Metric][k]
				d, err := load.Load(ctx, rec)
				vkit.Must(err)
				mopts.Earliest = d
				if measured, fits = graph.Measure(ctx, mopts); !fits {
					break
				}
				m.SetWidth(measured.Width)
			}
			if err := m.Push(ctx, rec); err != nil {
				return fmt.Errorf("request %d: merging what is stored: %v", i, err)
			}
		}
		if earliest == nil {
			measured, fits = graph.Measure(ctx, mopts)
		}
		if !fits {
			if w.Code != 400 {
				return fmt.Errorf("request %d: %s: too small for a graph, but answered with %d", i, r.URI, w.Code)
			}
			x.Label("too small")
			continue
		}
		cols, err := m.Finish(ctx)
		if err != nil {
			return fmt.Errorf("request %d: merging what is stored: %v", i, err)
		}
		if w.Code != 200 {
			return fmt.Errorf("request %d: %s: answered with %d: %.300q", i, r.URI, w.Code, w.Body)
		}
		if q.Image {
			got, err := png.Decode(w.Body)
			if err != nil {
				return fmt.Errorf("request %d: %s: %v", i, r.URI, err)
			}
			want := measured.Draw(ctx, graph.DrawOptions{Columns: cols, Colors: colors.Viridis}).AsImage()
			if got.Bounds().Size() != want.Bounds().Size() {
				return fmt.Errorf("request %d: %s: the image is %v, a drawing of the data %v", i, r.URI, got.Bounds(), want.Bounds())
			}
			for y := 0; y < want.Bounds().Dy(); y++ {
				for px := 0; px < want.Bounds().Dx(); px++ {
					r1, g1, b1, _ := got.At(px, y).RGBA()
					r2, g2, b2, _ := want.At(px, y).RGBA()
					if r1 != r2 || g1 != g2 || b1 != b2 {
						return fmt.Errorf("request %d: %s: the image differs from a drawing of the stored data at (%d, %d): %v, %v", i, r.URI, px, y, got.At(px, y), want.At(px, y))
					}
				}
			}
		} else {
			var a answer
			if err := json.Unmarshal(w.Body.Bytes(), &a); err != nil {
				return fmt.Errorf("request %d: %s: %v", i, r.URI, err)
			}
			if a.Metric != metric || a.Now != q.Now || a.Duration != q.Dur || a.Width != q.W || a.Height != q.H || a.Padding != q.Padding {
				return fmt.Errorf("request %d: %s: answer is about %q %d %d %dx%d padded %d", i, r.URI, a.Metric, a.Now, a.Duration, a.Width, a.Height, a.Padding)
			}
			if !bytes.Equal(a.Earliest, earliest) {
				return fmt.Errorf("request %d: %s: the latest information is %x, stored is %x", i, r.URI, a.Earliest, earliest)
			}
			if len(a.Columns) != len(cols) || len(cols) > 0 && !reflect.DeepEqual(a.Columns, cols) {
				return fmt.Errorf("request %d: %s: columns are %v, merging what is stored gives %v", i, r.URI, a.Columns, cols)
			}
		}
		many = many || len(cols) > 2
		blank = blank || len(cols) == 0
		x.LabelIf(earliest == nil, "nothing stored before now")
		x.LabelIf(earliest != nil && len(cols) == 0, "everything stored is before the window")
		x.LabelIf(q.Image, "image")
	}
	if many {
		x.NonTrivial()
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P30",
		Rule: "records of several metrics stored in a real database (perhaps reopened), then renderings of drawn windows and sizes as data and as images, each asked twice, compared with merging and drawing exactly what was stored for that metric; " +
			"non-trivial: an answer with more than two columns",
		Assumptions: []string{"the merging of given records is P22's subject and the drawing P25's and P26's; sketches large enough to be exact"},
	},
		vkit.P("renders", 4000, 150000, gen, run),
	)
}
