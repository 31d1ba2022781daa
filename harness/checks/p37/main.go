// P37: answers stay right while data arrives. Built with the race detector.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/database/files/zzverif/fakeapi"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/dump"
	"pgregory.net/rapid"
)

var names = []string{"m", "a.m", "a.b", "z/1 %"}

// Feed is the program of one goroutine that adds data.
type Feed struct {
	Ms    []int // the metrics of successive additions
	Yield int
}

// Ask is one request of a client.
type Ask struct {
	M       int
	Image   bool
	List    bool
	Window  int // of the choices
	Samples int
	Yield   int
}

type Case struct {
	Cfg     store.Cfg
	Direct  bool // records are stored directly, otherwise added, and dumped
	Before  int  // records of every metric stored before
	Feeds   []Feed
	Dumps   int
	Clients [][]Ask
	Loop    bool // over loopback
	Walk    bool // the directory is walked meanwhile
}

func gen(t *rapid.T) Case {
	c := Case{Direct: rapid.Bool().Draw(t, "direct"), Before: rapid.IntRange(0, 3).Draw(t, "before"), Dumps: rapid.IntRange(1, 12).Draw(t, "dumps"), Loop: rapid.IntRange(0, 4).Draw(t, "loop") == 3, Walk: rapid.IntRange(0, 3).Draw(t, "walk") == 1}
	c.Cfg = store.Cfg{Size: rapid.SampledFrom([]int{128, 256, 1024}).Draw(t, "size"), Cap: rapid.SampledFrom([]int{5, 12, 100}).Draw(t, "cap"), Files: 10000,
		Buffer: rapid.SampledFrom([]int{0, 1, 10}).Draw(t, "buffer"), Workers: rapid.IntRange(1, 4).Draw(t, "workers"), Handles: rapid.SampledFrom([]int{-1, 1, 2, 20}).Draw(t, "handles")}
	nm := rapid.IntRange(1, len(names)).Draw(t, "nm")
	for i := rapid.IntRange(1, 4).Draw(t, "feeds"); i > 0; i-- {
		c.Feeds = append(c.Feeds, Feed{Ms: rapid.SliceOfN(rapid.IntRange(0, nm-1), 1, 15).Draw(t, "ms"), Yield: rapid.IntRange(0, 3).Draw(t, "yield")})
	}
	for i := rapid.IntRange(1, 4).Draw(t, "clients"); i > 0; i-- {
		var l []Ask
		for j := rapid.IntRange(1, 6).Draw(t, "asks"); j > 0; j-- {
			l = append(l, Ask{M: rapid.IntRange(0, nm-1).Draw(t, "m"), Image: rapid.IntRange(0, 5).Draw(t, "image") == 3, List: rapid.IntRange(0, 3).Draw(t, "list") == 1,
				Window: rapid.IntRange(0, 5).Draw(t, "window"), Samples: rapid.SampledFrom([]int{1, 5}).Draw(t, "samples"), Yield: rapid.IntRange(0, 3).Draw(t, "ayield")})
		}
		c.Clients = append(c.Clients, l)
	}
	return c
}

// put is one record that was handed to the database.
type put struct {
	rec    fakeapi.Rec
	stored bool
	done   bool
}

// watch is the real database, and what was handed to it, by metric in order.
type watch struct {
	database.DB
	mu   sync.Mutex
	puts map[string][]*put
	bad  error
}

func (w *watch) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	p := &put{rec: fakeapi.Rec{Start: start, End: end, Data: append([]byte(nil), data...)}}
	w.mu.Lock()
	if n := len(w.puts[metric]); n > 0 && !w.puts[metric][n-1].done && w.bad == nil {
		w.bad = fmt.Errorf("a record of %q was handed over before the one before it was answered", metric)
	}
	w.puts[metric] = append(w.puts[metric], p)
	w.mu.Unlock()
	return w.DB.Queue(ctx, metric, start, end, data, func(ok bool, err error) {
		w.mu.Lock()
		p.stored, p.done = ok && err == nil, true
		if err != nil && w.bad == nil {
			w.bad = fmt.Errorf("storing a record of %q: %v", metric, err)
		}
		w.mu.Unlock()
		cb(ok, err)
	})
}

// counts returns the number of records handed over and stored, by metric.
func (w *watch) counts() (began, acked map[string]int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	began, acked = map[string]int{}, map[string]int{}
	for m, ps := range w.puts {
		began[m] = len(ps)
		for _, p := range ps {
			if p.stored {
				acked[m]++
			}
		}
	}
	return
}

func yield(n int) {
	for ; n > 0; n-- {
		runtime.Gosched()
	}
}

// seen is a request with its answer, and what was stored around it.
type seen struct {
	req          fakeapi.Req
	ask          Ask
	code         int
	body         []byte
	acked, began map[string]int
}

func run(x *vkit.Ctx, c Case) error {
	ctx := context.Background()
	db := store.Open(x.TempDir(), c.Cfg)
	defer db.Close()
	w := &watch{DB: db.DB, puts: map[string][]*put{}}
	params := tdigest.Params{Compression: 50}
	writer := data.NewWriter(params)
	srv := api.New(w, nil, api.Options{})
	t0 := time.Now().UnixNano()
	period := int64(1e6)
	next := make([]int64, len(names)) // ends of directly stored records
	direct := func(m int, v float64) error {
		d, err := params.New()
		vkit.Must(err)
		d.Observe(v)
		d.Observe(v + 1)
		start := t0 - 100*period + next[m]*period
		next[m]++
		rec := data.Record{StartTime: start, EndTime: start + period, Observations: 2, Kind: "tdigest", Distribution: d.Marshal(nil), Min: v, Max: v + 1, Merged: 1}
		buf, err := rec.Marshal()
		vkit.Must(err)
		ch := make(chan error, 2)
		if err := w.Queue(ctx, names[m], rec.StartTime, rec.EndTime, buf, func(ok bool, err error) {
			if err == nil && !ok {
				err = fmt.Errorf("a record of %q was not stored", names[m])
			}
			ch <- err
		}); err != nil {
			return err
		}
		return <-ch
	}
	for i := 0; i < c.Before; i++ {
		for _, f := range c.Feeds {
			if err := direct(f.Ms[0], float64(i)); err != nil {
				return err
			}
		}
	}
	var fmu sync.Mutex
	var failure error
	fail := func(err error) {
		fmu.Lock()
		if failure == nil && err != nil {
			failure = err
		}
		fmu.Unlock()
	}
	var feeding, asking, background sync.WaitGroup
	begin := make(chan struct{})
	if c.Direct {
		// every metric has one that stores
		by := map[int][]int{}
		for fi, f := range c.Feeds {
			for _, m := range f.Ms {
				by[m] = append(by[m], fi)
			}
		}
		for m, fs := range by {
			m, fs := m, fs
			feeding.Add(1)
			go func() {
				defer feeding.Done()
				<-begin
				for i, fi := range fs {
					yield(c.Feeds[fi].Yield)
					if err := direct(m, float64(100*m+i)); err != nil {
						fail(err)
						return
					}
				}
			}()
		}
	} else {
		for fi, f := range c.Feeds {
			fi, f := fi, f
			feeding.Add(1)
			go func() {
				defer feeding.Done()
				<-begin
				for i, m := range f.Ms {
					yield(f.Yield)
					writer.Add(ctx, names[m], float64(fi*100+i), []byte("id"))
				}
			}()
		}
		feeding.Add(1)
		go func() {
			defer feeding.Done()
			<-begin
			d := dump.New(dump.Options{DB: w, Period: time.Hour})
			for i := 0; i < c.Dumps; i++ {
				d.Dump(ctx, writer)
				yield(i % 3)
			}
		}()
	}
	var ask func(r fakeapi.Req) (int, []byte, error)
	if c.Loop {
		hs := httptest.NewServer(srv)
		defer hs.Close()
		cl := hs.Client()
		ask = func(r fakeapi.Req) (int, []byte, error) {
			req, err := http.NewRequest("GET", hs.URL+r.URI, nil)
			vkit.Must(err)
			for _, kv := range r.Header {
				req.Header.Add(kv[0], kv[1])
			}
			resp, err := cl.Do(req)
			if err != nil {
				return 0, nil, err
			}
			defer resp.Body.Close()
			var b bytes.Buffer
			_, err = b.ReadFrom(resp.Body)
			return resp.StatusCode, b.Bytes(), err
		}
	} else {
		ask = func(r fakeapi.Req) (int, []byte, error) {
			w := fakeapi.Ask(srv, r)
			return w.Code, w.Body.Bytes(), nil
		}
	}
	var smu sync.Mutex
	var all []seen
	for _, l := range c.Clients {
		l := l
		asking.Add(1)
		go func() {
			defer asking.Done()
			<-begin
			for _, a := range l {
				yield(a.Yield)
				s := seen{ask: a}
				if a.List {
					s.req = fakeapi.Req{URI: "/api/query?query=&results=1000"}
				} else {
					// windows with everything, with part of it, of only before
					now := t0 + []int64{20, 200, 0, -97, 20000, 20000}[a.Window]*period + 1
					dur := []int64{120, 300, 100, 2, 86400e3, 30 * 86400e3}[a.Window] * period
					v := url.Values{"metric": {names[a.M]}, "now": {fmt.Sprint(now)}, "duration": {time.Duration(dur).String()}, "width": {"200"}, "height": {"80"}, "samples": {fmt.Sprint(a.Samples)}, "compression": {"50"}}
					s.req = fakeapi.Req{URI: "/api/render?" + v.Encode()}
					if !a.Image {
						s.req.Header = [][2]string{{"Accept", "application/json"}}
					}
				}
				s.req.Method = "GET"
				_, s.acked = w.counts()
				var err error
				s.code, s.body, err = ask(s.req)
				s.began, _ = w.counts()
				if err != nil {
					fail(fmt.Errorf("%s: %v", s.req.URI, err))
					return
				}
				smu.Lock()
				all = append(all, s)
				smu.Unlock()
			}
		}()
	}
	var over int32
	if c.Walk {
		background.Add(1)
		go func() {
			defer background.Done()
			<-begin
			for atomic.LoadInt32(&over) == 0 {
				if err := db.DB.PopulateMetrics(ctx); err != nil {
					fail(err)
				}
				writer.Iterate(ctx, func(ctx context.Context, metric string, rec data.Record) bool { return true })
				runtime.Gosched()
			}
		}()
	}
	close(begin)
	feeding.Wait()
	asking.Wait()
	atomic.StoreInt32(&over, 1)
	background.Wait()
	if failure != nil {
		return failure
	}
	if w.bad != nil {
		return w.bad
	}
	// the sequence of what was stored, by metric
	final := map[string][]fakeapi.Rec{}
	for m, ps := range w.puts {
		for i, p := range ps {
			if !p.stored {
				if c.Direct {
					return fmt.Errorf("record %d of %q was not stored", i, m)
				}
				continue
			}
			final[m] = append(final[m], p.rec)
		}
	}
	during := 0
	for _, s := range all {
		desc := fmt.Sprintf("%s %s", s.req.URI, s.req.Header)
		if s.ask.List {
			var got []string
			if err := json.Unmarshal(s.body, &got); err != nil || s.code != 200 {
				return fmt.Errorf("%s: %d %v %.200q", desc, s.code, err, s.body)
			}
			have := map[string]bool{}
			for _, n := range got {
				if have[n] {
					return fmt.Errorf("%s: %q is listed twice: %q", desc, n, got)
				}
				have[n] = true
				if s.began[n] == 0 {
					return fmt.Errorf("%s: lists %q, of which nothing was stored", desc, n)
				}
			}
			for n, k := range s.acked {
				if k > 0 && !have[n] {
					return fmt.Errorf("%s: lists %q, not %q of which %d records had been stored", desc, got, n, k)
				}
			}
			if !sort.StringsAreSorted(got) {
				return fmt.Errorf("%s: lists %q", desc, got)
			}
			continue
		}
		m := names[s.ask.M]
		lo, hi := s.acked[m], s.began[m]
		if hi > len(final[m]) {
			hi = len(final[m])
		}
		if hi > lo {
			during++
		}
		ok := false
		for k := lo; k <= hi && !ok; k++ {
			if k == 0 && s.code >= 400 {
				ok = true // not stored yet
				break
			}
			f := &fakeapi.DB{M: map[string][]fakeapi.Rec{}}
			if k > 0 {
				for i := k - 1; i >= 0; i-- {
					f.M[m] = append(f.M[m], final[m][i])
				}
			} else {
				f.M[m] = nil
			}
			want := fakeapi.Ask(api.New(f, nil, api.Options{}), s.req)
			ok = want.Code == s.code && bytes.Equal(want.Body.Bytes(), s.body)
		}
		if !ok {
			return fmt.Errorf("%s: the answer (%d, %.300q) is that of no number of records from the %d stored before it was asked for to the %d handed over before it was given", desc, s.code, s.body, lo, hi)
		}
	}
	x.LabelN("requests while records were being stored", during)
	x.LabelIf(!c.Direct, "dumped")
	x.LabelIf(c.Loop, "over loopback")
	if during > 0 {
		x.NonTrivial()
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P37",
		Rule: "up to four clients asking drawn renderings (data and images, several windows) and listings of a server over a real files database while up to four goroutines add values that another dumps, or store records directly, and the directory is walked, under the race detector; each answer must be the one for some number of the metric's records between those acknowledged before it was asked for and those handed over before it was given; " +
			"non-trivial: some request during which a record of its metric was being stored",
		Assumptions: []string{"interleavings are those the scheduler produces", "the answer for a fixed list of records is P30's subject: here it is computed by the same server over an in-memory database", "the clock does not step backwards during a case"},
	},
		vkit.P("busy", 2500, 60000, gen, run),
	)
}
