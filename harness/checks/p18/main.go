// P18: what is sent is what is stored, end to end.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/dump"
	"github.com/vivint/rothko/listener/graphite"
	"github.com/vivint/rothko/merge"
	"pgregory.net/rapid"
)

// Burst is lines sent over one connection: N values around Mean for a metric.
type Burst struct {
	M    int
	N    int
	Mean float64
	Vals []float64 // instead of N drawn ones
	Junk int       // malformed lines in between
}

// Phase is what is sent before a dump.
type Phase struct {
	Conns   [][]Burst
	Restart bool // everything is torn down and built again after the dump
}

type Case struct {
	Cfg         store.Cfg
	Compression float64
	Phases      []Phase
}

var metrics = []string{"a", "a.b", "a.b.c", "z", "%2f", "web/1.latency", "é.ü"}

func gen(t *rapid.T) Case {
	c := Case{Compression: rapid.SampledFrom([]float64{5, 20, 100}).Draw(t, "compression")}
	c.Cfg = store.Cfg{
		Size: rapid.SampledFrom([]int{64, 128, 256, 4096}).Draw(t, "size"), Cap: 400, Files: 100,
		Buffer: rapid.SampledFrom([]int{0, 1, 100}).Draw(t, "buffer"), Handles: rapid.SampledFrom([]int{-1, 1, 50}).Draw(t, "handles"), Workers: rapid.IntRange(1, 4).Draw(t, "workers"),
	}
	nm := rapid.IntRange(1, len(metrics)).Draw(t, "nm")
	for i := rapid.IntRange(1, 4).Draw(t, "np"); i > 0; i-- {
		var p Phase
		for j := rapid.IntRange(1, 3).Draw(t, "nc"); j > 0; j-- {
			var k []Burst
			for l := rapid.IntRange(0, 4).Draw(t, "nb"); l > 0; l-- {
				b := Burst{M: rapid.IntRange(0, nm-1).Draw(t, "m"), Junk: rapid.IntRange(0, 2).Draw(t, "junk")}
				if rapid.Bool().Draw(t, "exact") {
					b.Vals = rapid.SliceOfN(rapid.Float64Range(-1e6, 1e6), 1, 4).Draw(t, "vals")
				} else {
					b.N, b.Mean = rapid.SampledFrom([]int{1, 3, 20, 300}).Draw(t, "n"), rapid.Float64Range(-1000, 1000).Draw(t, "mean")
				}
				k = append(k, b)
			}
			p.Conns = append(p.Conns, k)
		}
		p.Restart = rapid.IntRange(0, 2).Draw(t, "restart") == 0
		c.Phases = append(c.Phases, p)
	}
	return c
}

var host string

type pipeline struct {
	db     *store.DB
	w      *data.Writer
	dumper *dump.Dumper
	addr   string
	cancel func()
	done   chan error
}

func startPipeline(dir string, c Case) *pipeline {
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", host+":0")
		vkit.Must(err)
		addr := l.Addr().String()
		l.Close()
		p := &pipeline{w: data.NewWriter(tdigest.Params{Compression: c.Compression}), addr: addr, done: make(chan error, 1)}
		ctx, cancel := context.WithCancel(context.Background())
		p.cancel = cancel
		go func() { p.done <- graphite.New(addr).Run(ctx, p.w) }()
		for i := 0; i < 5000; i++ {
			k, err := net.Dial("tcp", addr)
			if err == nil {
				k.Close()
				p.db = store.Open(dir, c.Cfg)
				p.dumper = dump.New(dump.Options{DB: p.db.DB, Period: time.Hour})
				return p
			}
			select {
			case err := <-p.done:
				if try > 5 {
					vkit.Must(fmt.Errorf("listening: %v", err))
				}
				i = 5000
			case <-time.After(time.Millisecond):
			}
		}
		cancel()
		if try > 5 {
			vkit.Must(errors.New("cannot listen"))
		}
	}
}

func (p *pipeline) stop() error {
	p.cancel()
	select {
	case err := <-p.done:
		if err != nil && !errors.Is(err, context.Canceled) {
			return fmt.Errorf("listener: %v", err)
		}
	case <-time.After(30 * time.Second):
		return fmt.Errorf("the listener did not stop")
	}
	// the last dump, with nothing more to come
	p.dumper.Dump(context.Background(), p.w)
	if err := p.db.Close(); err != nil && !errors.Is(err, context.Canceled) {
		return fmt.Errorf("database: %v", err)
	}
	return nil
}

func (b Burst) values(r *rand.Rand) []float64 {
	if b.Vals != nil {
		return b.Vals
	}
	var out []float64
	for i := 0; i < b.N; i++ {
		out = append(out, math.Round((b.Mean+r.NormFloat64()*10)*1e6)/1e6)
	}
	return out
}

func run(x *vkit.Ctx, c Case) error {
	dir := filepath.Join(x.TempDir(), "db")
	vkit.Must(os.MkdirAll(dir, 0755))
	rand.Seed(int64(len(c.Phases)))
	rng := rand.New(rand.NewSource(int64(c.Cfg.Size) + int64(c.Compression)))
	sent := map[string][]float64{}
	periods := map[string][]int{} // the dumps a metric took part in
	p := startPipeline(dir, c)
	defer func() {
		p.cancel()
		p.db.Close()
	}()
	restarts := 0
	for pi, ph := range c.Phases {
		inPhase := map[string]bool{}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var failure error
		for _, k := range ph.Conns {
			var stream []byte
			for _, b := range k {
				for i, v := range b.values(rng) {
					m := metrics[b.M]
					stream = append(stream, m+" "+strconv.FormatFloat(v, 'g', -1, 64)+" 1530000000\n"...)
					if i < b.Junk {
						stream = append(stream, []string{"", "nonsense\n", m + " nan 0\n", m + " x 0\n", m + " 1\n"}[1+(i+b.M)%4]...)
					}
					sent[m] = append(sent[m], v)
					inPhase[m] = true
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				conn, err := net.DialTimeout("tcp", p.addr, 20*time.Second)
				if err == nil {
					defer conn.Close()
					conn.SetDeadline(time.Now().Add(30 * time.Second))
					_, err = conn.Write(stream)
				}
				if err != nil {
					mu.Lock()
					failure = fmt.Errorf("sending: %v", err)
					mu.Unlock()
					return
				}
				conn.(*net.TCPConn).CloseWrite()
				io.Copy(io.Discard, conn)
			}()
		}
		wg.Wait()
		if failure != nil {
			return failure
		}
		for m := range inPhase {
			periods[m] = append(periods[m], pi)
		}
		// the listener has closed the connections, so the lines are in
		if ph.Restart {
			if err := p.stop(); err != nil {
				return fmt.Errorf("phase %d: %v", pi, err)
			}
			p = startPipeline(dir, c)
			restarts++
		} else {
			p.dumper.Dump(context.Background(), p.w)
		}
	}
	if err := p.stop(); err != nil {
		return err
	}
	p.db = store.Open(dir, c.Cfg)
	x.Cleanup(func() { p.db.Close() })
	if err := p.db.DB.PopulateMetrics(context.Background()); err != nil {
		return err
	}
	names, err := p.db.Names(-1)
	if err != nil {
		return fmt.Errorf("listing: %v", err)
	}
	var want []string
	for m := range sent {
		want = append(want, m)
	}
	sort.Strings(want)
	if fmt.Sprint(names) != fmt.Sprint(want) {
		return fmt.Errorf("listed %q, sent %q", names, want)
	}
	total := 0
	for _, m := range want {
		total += len(sent[m])
		vals, err := p.db.All(m)
		if err != nil {
			return fmt.Errorf("query of %q: %v", m, err)
		}
		// whether a period follows on the one before, in the same process
		var follows []bool
		for i, pi := range periods[m] {
			follows = append(follows, i > 0 && periods[m][i-1] == pi-1 && !c.Phases[pi-1].Restart)
		}
		x.LabelIf(len(periods[m]) > 1, "metric in more than one period")
		if err := judge(m, vals, sent[m], follows, c.Compression); err != nil {
			return fmt.Errorf("%q: %v", m, err)
		}
	}
	x.LabelIf(restarts > 0, "with restarts")
	x.LabelN("observations", total)
	x.LabelIf(total > 300, "more than 300 observations")
	if len(c.Phases) > 1 && len(want) > 1 {
		x.NonTrivial()
	}
	return nil
}

func judge(m string, vals []store.Val, sent []float64, follows []bool, compression float64) error {
	if len(vals) != len(follows) {
		return fmt.Errorf("%d records stored, values arrived in %d periods", len(vals), len(follows))
	}
	var recs []data.Record
	n := int64(0)
	min, max := math.Inf(1), math.Inf(-1)
	prev := int64(1<<63 - 1)
	for i, v := range vals {
		// the newest comes first
		if i > 0 && follows[len(vals)-i] && v.End != prev {
			return fmt.Errorf("a record ends at %d, the one of the next period starts at %d", v.End, prev)
		}
		var r data.Record
		if err := r.Unmarshal(v.Data); err != nil {
			return fmt.Errorf("a stored record does not decode: %v", err)
		}
		if r.StartTime != v.Start || r.EndTime != v.End || v.Start > v.End || v.End > prev {
			return fmt.Errorf("record for %d to %d stored for %d to %d, the next starting %d", r.StartTime, r.EndTime, v.Start, v.End, prev)
		}
		prev = v.Start
		d, err := load.Load(context.Background(), r)
		if err != nil {
			return fmt.Errorf("the distribution does not load: %v", err)
		}
		if d.Len() != r.Observations {
			return fmt.Errorf("distribution of %d values in a record of %d", d.Len(), r.Observations)
		}
		n += r.Observations
		min, max = math.Min(min, r.Min), math.Max(max, r.Max)
		recs = append(recs, r)
	}
	sort.Float64s(sent)
	if n != int64(len(sent)) {
		return fmt.Errorf("%d observations stored, %d sent", n, len(sent))
	}
	if min != sent[0] || max != sent[len(sent)-1] {
		return fmt.Errorf("extremes %v and %v stored, %v and %v sent", min, max, sent[0], sent[len(sent)-1])
	}
	out, err := merge.Merge(context.Background(), merge.MergeOptions{Params: tdigest.Params{Compression: compression}, Records: recs})
	if err != nil {
		return fmt.Errorf("merging: %v", err)
	}
	d, err := load.Load(context.Background(), out)
	if err != nil {
		return fmt.Errorf("merged: %v", err)
	}
	// digests are stored as float32 deltas
	eps := 1e-5*math.Max(math.Abs(sent[0]), math.Abs(sent[len(sent)-1])) + 1e-36
	tol := tolerance(compression, len(sent))
	for q := 0.05; q < 1; q += 0.05 {
		v := d.Query(q)
		lo := float64(sort.SearchFloat64s(sent, v-eps)) / float64(len(sent))
		hi := float64(sort.Search(len(sent), func(i int) bool { return sent[i] > v+eps })) / float64(len(sent))
		if q < lo-tol || q > hi+tol {
			return fmt.Errorf("quantile %.2f of the merged distribution is %v, which ranks %.3f to %.3f among the %d values sent", q, v, lo, hi, len(sent))
		}
	}
	return nil
}

// tolerance is the error in rank a digest of the compression may have.
func tolerance(compression float64, n int) float64 { return 1.0/compression + 0.02 + 1.5/float64(n) }

var _ = files.New

func main() {
	vkit.Main(vkit.Opts{
		ID: "P18",
		Rule: "up to four periods in which up to three connections send drawn values (and malformed lines) for up to seven metrics to a real listener, each dumped into a real files database, consecutive records of a metric abutting exactly, some followed by a restart of everything; then counts, extremes, quantiles, times and the listing are compared with what was sent; " +
			"non-trivial: at least two periods and two metrics",
		Assumptions: []string{"no line arrives during a dump (documented to be lossy)", "quantiles are compared by rank with a tolerance of 1/compression + 2% + 1.5/n"},
		HangS:       90,
		Shards:      8,
		Init: func(string) {
			p := os.Getpid()
			host = fmt.Sprintf("127.%d.%d.%d", 1+p>>14&63, p>>7&127, 1+p&127)
		},
	},
		vkit.P("pipeline", 5000, 100000, gen, run),
	)
}
