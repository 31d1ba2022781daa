// P42: days of history are drawn where they happened. Runs under a virtual
// clock.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/database/files/zzverif/clock"
	"github.com/vivint/rothko/database/files/zzverif/fakeapi"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/graph"
	"github.com/vivint/rothko/dump"
	"pgregory.net/rapid"
)

var metrics = []string{"web.latency", "web", "db/reads é", "x."}

// Seg is a stretch of time.
type Seg struct {
	Periods int
	Rates   []int // observations per period, by metric
	Tail    int   // more time after that, in thousandths of a period
	Down    int   // the server is restarted after being down that many periods; -1: it is not
	Asks    []Ask
}

// Ask is a request at the end of a stretch.
type Ask struct {
	M       int
	Back    int // the window ends that many thousandths of a period ago; 0: it says nothing about the end
	Dur     int // in thousandths of a period; 0: it says nothing about the length
	W       int // width of the image
	Samples int
	Exact   bool // as little compression as to see everything
}

type Case struct {
	Cfg    store.Cfg
	Period time.Duration
	Years  int // after the year 2000
	Segs   []Seg
}

func gen(t *rapid.T) Case {
	c := Case{Period: rapid.SampledFrom([]time.Duration{time.Second, time.Minute, 10 * time.Minute, 10 * time.Minute, time.Hour, 7 * time.Hour}).Draw(t, "period")}
	c.Cfg = store.Cfg{
		Size: rapid.SampledFrom([]int{64, 128, 256, 1024}).Draw(t, "size"), Cap: rapid.SampledFrom([]int{10, 30, 100, 1000}).Draw(t, "cap"), Files: rapid.SampledFrom([]int{1, 2, 5, 10}).Draw(t, "files"),
		Buffer: rapid.SampledFrom([]int{0, 1, 100}).Draw(t, "buffer"), Handles: rapid.SampledFrom([]int{-1, 1, 50}).Draw(t, "handles"), Workers: rapid.IntRange(1, 3).Draw(t, "workers"),
	}
	c.Years = rapid.SampledFrom([]int{0, 18, 26, 200}).Draw(t, "years")
	total := 0
	for i := rapid.IntRange(1, 6).Draw(t, "ns"); i > 0; i-- {
		s := Seg{Periods: rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 60), rapid.IntRange(0, 200)).Draw(t, "periods"), Down: -1}
		for range metrics {
			s.Rates = append(s.Rates, rapid.SampledFrom([]int{0, 0, 1, 1, 3}).Draw(t, "rate"))
		}
		s.Tail = rapid.SampledFrom([]int{0, 0, 1, 500, 999}).Draw(t, "tail")
		total += s.Periods
		if rapid.IntRange(0, 2).Draw(t, "restart") == 1 {
			s.Down = rapid.SampledFrom([]int{0, 0, 1, 20, 150}).Draw(t, "down")
		}
		for j := rapid.IntRange(0, 3).Draw(t, "na"); j > 0; j-- {
			a := Ask{M: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "am"), W: rapid.SampledFrom([]int{200, 130, 333, 1000}).Draw(t, "w"), Samples: rapid.SampledFrom([]int{1, 3, 30}).Draw(t, "samples"), Exact: rapid.Bool().Draw(t, "exact")}
			if rapid.IntRange(0, 2).Draw(t, "past") == 0 {
				a.Back = rapid.IntRange(0, 1000*(total+1)).Draw(t, "back")
			}
			if rapid.IntRange(0, 3).Draw(t, "withdur") > 0 {
				a.Dur = rapid.OneOf(rapid.IntRange(1, 5000), rapid.IntRange(1, 1000*(total+2)), rapid.IntRange(1, 1000*(total+300))).Draw(t, "dur")
			}
			s.Asks = append(s.Asks, a)
		}
		c.Segs = append(c.Segs, s)
	}
	return c
}

// rec is a record there must be.
type rec struct {
	start, end int64
	n          int64
	v          float64
}

// life is a run of the server.
type life struct {
	db     *store.DB
	w      *data.Writer
	d      *dump.Dumper
	cancel func()
	done   chan error
	srv    *api.Server
	began  int64
}

type world struct {
	x     *vkit.Ctx
	c     Case
	dir   string
	l     *life
	recs  map[int][]rec // oldest first
	open  map[int]*rec  // observations not captured yet
	page  int64         // since when observations are collected; 0: not yet
	n     int           // captures
	kept  map[int][]rec
	wide  bool
	multi bool
}

func now() int64 { return time.Now().UnixNano() }

func until(t int64) { time.Sleep(time.Duration(t - now())) }

func (w *world) start() {
	l := &life{db: store.Open(w.dir, w.c.Cfg), w: data.NewWriter(tdigest.Params{Compression: 20}), done: make(chan error, 1), began: now()}
	l.d = dump.New(dump.Options{DB: l.db, Period: w.c.Period})
	l.srv = api.New(l.db, nil, api.Options{})
	ctx, cancel := context.WithCancel(context.Background())
	l.cancel = cancel
	go func() { l.done <- l.d.Run(ctx, l.w) }()
	w.page = 0
	w.l = l
	clock.Settle()
}

// captured is what a dump now makes of the observations.
func (w *world) captured() {
	if w.page == 0 {
		return
	}
	for m, r := range w.open {
		r.start, r.end = w.page, now()
		w.recs[m] = append(w.recs[m], *r)
	}
	w.open = map[int]*rec{}
	w.page = now()
	w.n++
}

func (w *world) add(m int) {
	v := float64(w.n%2000 + 1)
	w.l.w.Add(context.Background(), metrics[m], v, nil)
	if w.page == 0 {
		w.page = now()
	}
	if w.open[m] == nil {
		w.open[m] = &rec{v: v}
	}
	w.open[m].n++
}

func (w *world) stop() error {
	l := w.l
	l.cancel()
	if err := <-l.done; err != nil {
		return fmt.Errorf("the dumper: %v", err)
	}
	l.d.Dump(context.Background(), l.w)
	w.captured()
	return l.db.Close()
}

// advance lets the periods pass.
func (w *world) advance(s Seg) {
	p := int64(w.c.Period)
	pass := func(to int64) {
		// the times a dump is due in between
		for t := w.l.began + ((now()-w.l.began)/p+1)*p; t <= to; t += p {
			until(t)
			clock.Settle()
			w.captured()
		}
		until(to)
		clock.Settle()
	}
	for i := 0; i < s.Periods; i++ {
		from := now()
		for k := 0; k < 3; k++ {
			pass(from + p*int64(2*k+1)/7 + 1)
			for m, r := range s.Rates {
				if k < r {
					w.add(m)
				}
			}
		}
		pass(from + p)
	}
	pass(now() + p*int64(s.Tail)/1000)
}

// stored compares what the database has with what there must be.
func (w *world) stored() error {
	w.kept = map[int][]rec{}
	var names []string
	for m, name := range metrics {
		want := w.recs[m]
		if len(want) == 0 {
			continue
		}
		names = append(names, name)
		vals, err := w.l.db.All(name)
		if err != nil {
			return fmt.Errorf("%q: %v", name, err)
		}
		if len(vals) > len(want) {
			return fmt.Errorf("%q has %d records, there were %d dumps with observations", name, len(vals), len(want))
		}
		slots, most := 0, 1
		for i, v := range vals {
			n := store.NumRecs(len(v.Data), w.c.Cfg.Size)
			slots += n
			if n > most {
				most = n
			}
			e := want[len(want)-1-i]
			var r data.Record
			if err := r.Unmarshal(v.Data); err != nil {
				return fmt.Errorf("%q: %v", name, err)
			}
			if v.Start != r.StartTime || v.End != r.EndTime {
				return fmt.Errorf("%q: record of %d to %d stored for %d to %d", name, r.StartTime, r.EndTime, v.Start, v.End)
			}
			if r.StartTime != e.start || r.EndTime != e.end || r.Observations != e.n || r.Min != e.v || r.Max != e.v {
				return fmt.Errorf("%q: the record %d from the newest is %+v, it must be %+v", name, i, r, e)
			}
		}
		if slots > (w.c.Cfg.Files+1)*w.c.Cfg.Cap {
			return fmt.Errorf("%q has %d records in %d slots, with %d files of %d", name, len(vals), slots, w.c.Cfg.Files+1, w.c.Cfg.Cap)
		}
		if room := w.c.Cfg.Files * (w.c.Cfg.Cap - most + 1) / most; len(vals) < len(want) && len(vals) < room {
			return fmt.Errorf("%q has %d of %d records, there is room for %d", name, len(vals), len(want), room)
		}
		w.x.LabelIf(len(vals) < len(want), "retention dropped records")
		for i := len(want) - len(vals); i < len(want); i++ {
			w.kept[m] = append(w.kept[m], want[i])
		}
		if len(vals) > 0 {
			l, err := w.l.db.Latest(name, nil)
			if err != nil || !l.Eq(vals[0]) {
				return fmt.Errorf("%q: the latest is %v (%v), the first of all is %v", name, l, err, vals[0])
			}
		}
	}
	sort.Strings(names)
	q := fakeapi.Ask(w.l.srv, fakeapi.Req{Method: "GET", URI: "/api/query?results=100&query="})
	var listed []string
	if err := json.Unmarshal(q.Body.Bytes(), &listed); q.Code != 200 || err != nil {
		return fmt.Errorf("listing: %d %v", q.Code, err)
	}
	sort.Strings(listed)
	if fmt.Sprintf("%q", listed) != fmt.Sprintf("%q", names) {
		return fmt.Errorf("listed are %q, recorded were %q", listed, names)
	}
	return nil
}

type answer struct {
	Metric                 string
	Columns                []draw.Column
	Earliest               []byte
	Now, Duration          int64
	Width, Height, Padding int
}

func (w *world) ask(a Ask) error {
	v := url.Values{"metric": {metrics[a.M]}, "width": {fmt.Sprint(a.W)}, "height": {"100"}, "samples": {fmt.Sprint(a.Samples)}}
	end, dur := now(), 24*time.Hour
	unit := int64(w.c.Period) / 1000
	if a.Back > 0 {
		end -= unit * int64(a.Back)
		v.Set("now", fmt.Sprint(end))
	}
	if a.Dur > 0 {
		dur = time.Duration(unit * int64(a.Dur))
		v.Set("duration", dur.String())
	}
	if a.Exact {
		v.Set("compression", "1000")
	}
	uri := "/api/render?" + v.Encode()
	q := fakeapi.Ask(w.l.srv, fakeapi.Req{Method: "GET", URI: uri, Header: [][2]string{{"Accept", "application/json"}}})
	kept := w.kept[a.M]
	if len(w.recs[a.M]) == 0 && q.Code >= 400 {
		w.x.Label("asked before there was anything")
		return nil // there is no such metric
	}
	if q.Code != 200 {
		return fmt.Errorf("%s: %d: %.200q", uri, q.Code, q.Body)
	}
	var got answer
	if err := json.Unmarshal(q.Body.Bytes(), &got); err != nil {
		return fmt.Errorf("%s: %v", uri, err)
	}
	if got.Metric != metrics[a.M] || got.Now != end || got.Duration != int64(dur) {
		return fmt.Errorf("%s: answer is about %q at %d for %d, expected %d for %d", uri, got.Metric, got.Now, got.Duration, end, dur)
	}
	// the latest before the end of the window
	var latest *rec
	var past []rec
	for i := range kept {
		if kept[i].end < end {
			latest = &kept[i]
			past = append(past, kept[i])
		}
	}
	mopts := graph.MeasureOptions{Now: end, Duration: dur, Width: a.W, Height: 100}
	if latest == nil {
		if len(got.Earliest) > 0 || len(got.Columns) > 0 {
			return fmt.Errorf("%s: data for a window before anything retained", uri)
		}
		return nil
	}
	var r data.Record
	if err := r.Unmarshal(got.Earliest); err != nil {
		return fmt.Errorf("%s: the latest record: %v", uri, err)
	}
	if r.StartTime != latest.start || r.EndTime != latest.end || r.Min != latest.v {
		return fmt.Errorf("%s: the latest record is %+v, it must be %+v", uri, r, *latest)
	}
	d, err := load.Load(context.Background(), r)
	if err != nil {
		return fmt.Errorf("%s: %v", uri, err)
	}
	mopts.Earliest = d
	measured, ok := graph.Measure(context.Background(), mopts)
	if !ok {
		return fmt.Errorf("%s: answered, though it does not fit", uri)
	}
	width := measured.Width
	ps := int64(dur) / int64(width)
	if ps < 4 {
		return nil // no time for a pixel
	}
	cover := make([]int, width)
	for i, col := range got.Columns {
		if col.W < 1 || col.X < 0 || col.X+col.W > width {
			return fmt.Errorf("%s: column of pixels %d to %d of a width of %d", uri, col.X, col.X+col.W-1, width)
		}
		for p := col.X; p < col.X+col.W; p++ {
			if cover[p] != 0 {
				return fmt.Errorf("%s: two columns for pixel %d", uri, p)
			}
			cover[p] = i + 1
		}
	}
	for p := range cover {
		lo, hi := end-int64(width-p)*ps, end-int64(width-p-1)*ps
		if p == 0 {
			lo = end - int64(dur)
		}
		// those that must be in there, and those that may
		var must, may []rec
		for _, r := range past {
			if r.start < hi-1 && r.end > lo+1 {
				must = append(must, r)
			}
			if r.start <= hi+1 && r.end >= lo-1 {
				may = append(may, r)
			}
		}
		if cover[p] == 0 {
			if len(must) > 0 {
				return fmt.Errorf("%s: nothing at pixel %d (%d to %d), though %+v was recorded", uri, p, lo, hi, must)
			}
			continue
		}
		if len(may) == 0 {
			return fmt.Errorf("%s: something at pixel %d (%d to %d), though nothing was recorded", uri, p, lo, hi)
		}
		col := got.Columns[cover[p]-1]
		if len(col.Data) != a.Samples+1 {
			return fmt.Errorf("%s: %d values for %d samples", uri, len(col.Data), a.Samples)
		}
		min, max, rmin, rmax := math.Inf(1), math.Inf(-1), math.Inf(1), math.Inf(-1)
		for _, r := range may {
			rate := float64(r.n) / (float64(r.end-r.start) / 1e9)
			min, max, rmin, rmax = math.Min(min, r.v), math.Max(max, r.v), math.Min(rmin, rate), math.Max(rmax, rate)
		}
		// half precision: a mean between two values may round to beyond it
		if first, last := col.Data[0], col.Data[len(col.Data)-1]; first < min-1 || last > max+1 || len(may) == 1 && (first != min || last != max) {
			return fmt.Errorf("%s: values %v at pixel %d, recorded were %+v", uri, col.Data, p, may)
		}
		if !sort.Float64sAreSorted(col.Data) {
			return fmt.Errorf("%s: values %v at pixel %d", uri, col.Data, p)
		}
		if col.ObsSec < rmin*(1-1e-9) || col.ObsSec > rmax*(1+1e-9) {
			return fmt.Errorf("%s: a rate of %v at pixel %d, recorded were %+v", uri, col.ObsSec, p, may)
		}
		if a.Exact && len(must) > 0 && len(must) <= 100 {
			for _, r := range must {
				if r.v < col.Data[0] || r.v > col.Data[len(col.Data)-1] {
					return fmt.Errorf("%s: values %v at pixel %d, though %+v was recorded", uri, col.Data, p, r)
				}
			}
		}
		w.multi = w.multi || len(must) > 2
	}
	w.wide = w.wide || len(got.Columns) > 3
	// asking for the same window as an image has an image
	if a.Samples == 1 {
		q := fakeapi.Ask(w.l.srv, fakeapi.Req{Method: "GET", URI: uri})
		if q.Code != 200 || !bytes.HasPrefix(q.Body.Bytes(), []byte("\x89PNG")) {
			return fmt.Errorf("%s: as an image: %d", uri, q.Code)
		}
	}
	return nil
}

func run(x *vkit.Ctx, c Case) error {
	dir := x.TempDir()
	return clock.Run(func() (err error) {
		w := &world{x: x, c: c, dir: filepath.Join(dir, "db"), recs: map[int][]rec{}, open: map[int]*rec{}}
		vkit.Must(os.MkdirAll(w.dir, 0755))
		time.Sleep(time.Duration(c.Years) * 365 * 24 * time.Hour)
		w.start()
		lives := 1
		defer func() {
			if serr := w.stop(); err == nil && serr != nil {
				err = serr
			}
		}()
		began := now()
		for i, s := range c.Segs {
			w.advance(s)
			check := func(when string) error {
				if err := w.stored(); err != nil {
					return fmt.Errorf("%s stretch %d: %v", when, i, err)
				}
				for _, a := range s.Asks {
					if err := w.ask(a); err != nil {
						return fmt.Errorf("%s stretch %d: %v", when, i, err)
					}
				}
				return nil
			}
			if err := check("after"); err != nil {
				return err
			}
			if s.Down < 0 {
				continue
			}
			if err := w.stop(); err != nil {
				return err
			}
			time.Sleep(time.Duration(s.Down) * c.Period)
			time.Sleep(1)
			w.start()
			lives++
			if err := check("restarted after"); err != nil {
				return err
			}
		}
		total := time.Duration(now() - began)
		x.LabelIf(lives > 1, "restarts")
		x.LabelIf(total > 24*time.Hour, "days")
		x.LabelIf(total > 14*24*time.Hour, "weeks")
		x.LabelIf(w.multi, "pixels of several records")
		x.LabelIf(w.wide, "more than three columns")
		if w.wide {
			x.NonTrivial()
		}
		return nil
	})
}

func main() { clock.Main(check) }

func check() {
	vkit.Main(vkit.Opts{
		ID: "P42",
		Rule: "a writer, the periodic dumper, a database and the API under a virtual clock, for up to six stretches of up to two hundred periods of up to seven hours with drawn rates, quiet metrics, restarts and time being down; the records stored, the listing and drawn windows are compared with what was observed when; " +
			"non-trivial: an answer with more than three columns",
		Assumptions: []string{"observations are not made at the instant of a dump", "the database answers faster than the period"},
	},
		vkit.P("history", 1500, 40000, gen, run),
	)
}
