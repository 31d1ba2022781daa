// P10: concurrent use of the database is safe and consistent. Built with the
// race detector.
package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

// Op of one goroutine.
type Op struct {
	K     string // put, fire, get, latest, list, populate, yield
	M     int
	D     int64 // the end: this much after a shared clock
	Len   int
	Q     int64 // query bound, same clock; 0 for everything
	Yield int
}

type Case struct {
	Cfg store.Cfg
	Pre []Op
	Par [][]Op
}

var metrics = []string{"a", "a.b", "b", "c.d.e"}

func gen(t *rapid.T) Case {
	var c Case
	c.Cfg = store.Cfg{
		Size: 96, Cap: rapid.SampledFrom([]int{1, 2, 4, 40}).Draw(t, "cap"), Files: rapid.SampledFrom([]int{1, 2, 200}).Draw(t, "files"),
		Buffer: rapid.IntRange(0, 3).Draw(t, "buffer"), Handles: rapid.SampledFrom([]int{-1, 1, 2, 3, 50}).Draw(t, "handles"), Workers: rapid.IntRange(1, 4).Draw(t, "workers"),
	}
	room := c.Cfg.Cap*(c.Cfg.Size-store.Header) - 12
	if room > 150 {
		room = 150
	}
	nm := rapid.IntRange(1, len(metrics)).Draw(t, "nm")
	op := func(ks []string) Op {
		o := Op{K: rapid.SampledFrom(ks).Draw(t, "k"), M: rapid.IntRange(0, nm-1).Draw(t, "m"), D: int64(rapid.IntRange(0, 4).Draw(t, "d"))}
		o.Len = rapid.IntRange(0, room).Draw(t, "len")
		if rapid.IntRange(0, 2).Draw(t, "hasq") == 0 {
			o.Q = int64(rapid.IntRange(-10, 20).Draw(t, "q"))
		}
		o.Yield = rapid.IntRange(0, 3).Draw(t, "y")
		return o
	}
	for i := rapid.IntRange(0, 4).Draw(t, "npre"); i > 0; i-- {
		c.Pre = append(c.Pre, op([]string{"put"}))
	}
	for g := rapid.IntRange(2, 6).Draw(t, "ng"); g > 0; g-- {
		ks := rapid.SampledFrom([][]string{{"put"}, {"put", "put", "get"}, {"put", "fire", "fire", "get", "latest", "list"}, {"get", "latest", "list"}, {"list", "list", "populate", "put"}}).Draw(t, "role")
		var ops []Op
		for i := rapid.IntRange(1, 15).Draw(t, "nops"); i > 0; i-- {
			ops = append(ops, op(ks))
		}
		c.Par = append(c.Par, ops)
	}
	return c
}

type rec struct {
	m     int
	start int64
	data  []byte
	began int64 // sequence number when queued
	acked int64 // when acknowledged as stored, 0 if not
}

// world records what was queued.
type world struct {
	mu   sync.Mutex
	seq  int64
	recs map[[2]int64]*rec // by metric and end; ends are unique per metric
	ends map[int]int64
	used map[[2]int64]bool
}

func (w *world) tick() int64 { return atomic.AddInt64(&w.seq, 1) }

func run(x *vkit.Ctx, c Case) error {
	dir := filepath.Join(x.TempDir(), "db")
	vkit.Must(os.MkdirAll(dir, 0755))
	db := store.Open(dir, c.Cfg)
	defer db.Close()
	w := &world{recs: map[[2]int64]*rec{}, ends: map[int]int64{}}
	var fmu sync.Mutex
	var failure error
	fail := func(f string, a ...interface{}) {
		fmu.Lock()
		if failure == nil {
			failure = fmt.Errorf(f, a...)
		}
		fmu.Unlock()
	}
	var nacks, overl int64
	// put queues a value with an end nobody else uses
	put := func(o Op, wait bool, pend *sync.WaitGroup) {
		w.mu.Lock()
		end := w.ends[o.M] + 10 + o.D
		if o.D == 4 && w.ends[o.M] > 20 {
			end = w.ends[o.M] - 7 // an earlier one, likely refused
		}
		for w.recs[[2]int64{int64(o.M), end}] != nil {
			end++
		}
		if end > w.ends[o.M] {
			w.ends[o.M] = end
		}
		data := store.Payload(o.Len+12, byte(2+end%2))
		binary.BigEndian.PutUint64(data, uint64(end))
		binary.BigEndian.PutUint32(data[8:], uint32(o.M))
		r := &rec{m: o.M, start: end - 3, data: data, began: w.tick()}
		w.recs[[2]int64{int64(o.M), end}] = r
		w.mu.Unlock()
		done := make(chan struct{})
		pend.Add(1)
		buf := append([]byte(nil), data...)
		err := db.DB.Queue(context.Background(), metrics[o.M], end-3, end, buf, func(ok bool, err error) {
			if err != nil {
				fail("write of %s end %d failed: %v", metrics[o.M], end, err)
			}
			if ok {
				w.mu.Lock()
				r.acked = w.tick()
				w.mu.Unlock()
				atomic.AddInt64(&nacks, 1)
			}
			close(done)
			pend.Done()
		})
		if err != nil {
			fail("Queue: %v", err)
		}
		for i := range buf {
			buf[i] = 0xEE
		}
		if wait {
			<-done
		}
	}
	// judge checks a read of metric m that began at t0
	judge := func(what string, m int, t0 int64, bound int64, got []store.Val, whole bool) {
		t1 := w.tick()
		w.mu.Lock()
		defer w.mu.Unlock()
		last := int64(1<<63 - 1)
		have := map[int64]bool{}
		for _, v := range got {
			if v.End >= last || v.End >= bound {
				fail("%s of %s before %d: end %d out of order (previous %d)", what, metrics[m], bound, v.End, last)
				return
			}
			last = v.End
			r := w.recs[[2]int64{int64(m), v.End}]
			if r == nil || r.start != v.Start || string(r.data) != string(v.Data) || r.began > t1 {
				fail("%s of %s returned %v, which was never queued like that", what, metrics[m], v)
				return
			}
			have[v.End] = true
		}
		// the oldest ones may have been rotated away, nothing else
		for k, r := range w.recs {
			if k[0] != int64(m) || r.acked == 0 || r.acked > t0 || have[k[1]] || k[1] >= bound {
				continue
			}
			if c.Cfg.Files == 200 {
				fail("%s of %s before %d lacks end %d acknowledged before it began", what, metrics[m], bound, k[1])
				return
			}
			if len(got) > 0 && k[1] > got[len(got)-1].End || len(got) == 0 && bound == 1<<63-1 {
				fail("%s of %s before %d lacks end %d acknowledged before it began though older ones are there", what, metrics[m], bound, k[1])
				return
			}
			if !whole && k[1] > got[0].End {
				fail("%s of %s lacks end %d", what, metrics[m], k[1])
				return
			}
		}
		if n := len(got); n > 0 {
			for _, r := range w.recs {
				if r.m == m && r.acked == 0 {
					atomic.StoreInt64(&overl, 1)
				}
			}
		}
	}
	ackedBefore := func(m int, t0 int64) bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		for k, r := range w.recs {
			if k[0] == int64(m) && r.acked != 0 && r.acked <= t0 {
				return true
			}
		}
		return false
	}
	do := func(o Op, pend *sync.WaitGroup) {
		switch o.K {
		case "put":
			put(o, true, pend)
		case "fire":
			put(o, false, pend)
		case "get":
			t0 := w.tick()
			bound := int64(1<<63 - 1)
			if o.Q != 0 {
				w.mu.Lock()
				bound = w.ends[o.M] + o.Q
				w.mu.Unlock()
				if bound < 1 {
					bound = 1
				}
			}
			known := ackedBefore(o.M, t0)
			got, err := db.Get(metrics[o.M], bound, -1, nil)
			if err != nil {
				if known {
					fail("query of %s: %v", metrics[o.M], err)
				}
				return
			}
			judge("query", o.M, t0, bound, got, true)
		case "latest":
			t0 := w.tick()
			known := ackedBefore(o.M, t0)
			v, err := db.Latest(metrics[o.M], nil)
			if err != nil {
				if known {
					fail("latest of %s: %v", metrics[o.M], err)
				}
				return
			}
			if v.End == 0 {
				if known {
					fail("latest of %s is empty", metrics[o.M])
				}
				return
			}
			w.mu.Lock()
			r := w.recs[[2]int64{int64(o.M), v.End}]
			bad := r == nil || r.start != v.Start || string(r.data) != string(v.Data)
			var later int64
			for k, r := range w.recs {
				if k[0] == int64(o.M) && r.acked != 0 && r.acked <= t0 && k[1] > v.End {
					later = k[1]
				}
			}
			w.mu.Unlock()
			if bad {
				fail("latest of %s returned %v, never queued like that", metrics[o.M], v)
			}
			if later != 0 {
				fail("latest of %s has end %d though %d was acknowledged before", metrics[o.M], v.End, later)
			}
		case "list":
			t0 := w.tick()
			var need []string
			for m := range metrics {
				if ackedBefore(m, t0) {
					need = append(need, metrics[m])
				}
			}
			got, err := db.Names(-1)
			if err != nil {
				fail("listing: %v", err)
				return
			}
			if !sort.StringsAreSorted(got) {
				fail("listing is not sorted: %q", got)
			}
			set := map[string]bool{}
			for _, g := range got {
				if set[g] {
					fail("%q listed twice in %q", g, got)
				}
				set[g] = true
				ok := false
				for m := range metrics {
					if metrics[m] == g {
						ok = true
					}
				}
				if !ok {
					fail("%q listed but never stored", g)
				}
			}
			for _, n := range need {
				if !set[n] {
					fail("%q was acknowledged before but the listing is %q", n, got)
				}
			}
		case "populate":
			if err := db.DB.PopulateMetrics(context.Background()); err != nil {
				fail("populate: %v", err)
			}
		}
		for i := 0; i < o.Yield; i++ {
			runtime.Gosched()
		}
	}
	var pend sync.WaitGroup
	for _, o := range c.Pre {
		do(o, &pend)
	}
	store.Gather(len(c.Par), func(g int) {
		for _, o := range c.Par[g] {
			do(o, &pend)
		}
	})
	pend.Wait()
	// at rest
	for m := range metrics {
		if ackedBefore(m, 1<<62) {
			do(Op{K: "get", M: m}, &pend)
			do(Op{K: "latest", M: m}, &pend)
		}
	}
	do(Op{K: "list"}, &pend)
	if err := db.Close(); err != nil && !errors.Is(err, context.Canceled) {
		return fmt.Errorf("shutdown: %v", err)
	}
	if overl == 1 {
		x.NonTrivial()
		x.Label("reads while writes were pending or refused")
	}
	x.LabelIf(c.Cfg.Files < 200, "with rotation")
	x.LabelN("acknowledged writes", int(nacks))
	return failure
}

// Held is a read of one metric, or a listing, that takes its time over a
// value, while all the others are used.
type Held struct {
	Cfg    store.Cfg
	N      int  // metrics
	Salt   int  // of their names
	H      int  // the one being read
	List   bool // a listing is held instead
	Inside bool // the others are used by the callback itself
	Lens   []int
}

func (c Held) name(i int) string { return fmt.Sprintf("g%d.n%d", c.Salt, i) }

func genHeld(t *rapid.T) Held {
	var c Held
	c.Cfg = store.Cfg{
		Size: 96, Cap: rapid.SampledFrom([]int{2, 4, 40}).Draw(t, "cap"), Files: rapid.SampledFrom([]int{2, 200}).Draw(t, "files"),
		Buffer: rapid.IntRange(0, 3).Draw(t, "buffer"), Handles: rapid.SampledFrom([]int{-1, 1, 3, 50}).Draw(t, "handles"), Workers: rapid.IntRange(1, 4).Draw(t, "workers"),
	}
	c.N = rapid.IntRange(2, 60).Draw(t, "n")
	c.Salt = rapid.IntRange(0, 9999).Draw(t, "salt")
	c.H = rapid.IntRange(0, c.N-1).Draw(t, "h")
	c.List = rapid.IntRange(0, 3).Draw(t, "list") == 1
	c.Inside = rapid.Bool().Draw(t, "inside")
	c.Lens = rapid.SliceOfN(rapid.IntRange(0, 90), 1, 4).Draw(t, "lens")
	return c
}

func held(x *vkit.Ctx, c Held) error {
	dir := filepath.Join(x.TempDir(), "db")
	vkit.Must(os.MkdirAll(dir, 0755))
	db := store.Open(dir, c.Cfg)
	want := map[int]store.Val{}
	put := func(i int, end int64) error {
		v := store.Val{Start: end - 1, End: end, Data: store.Payload(c.Lens[i%len(c.Lens)], byte(2+i%7))}
		ok, err := db.Put(c.name(i), v.Start, v.End, v.Data)
		if err != nil || !ok {
			return fmt.Errorf("writing %s: %v, %v", c.name(i), ok, err)
		}
		want[i] = v
		return nil
	}
	for i := 0; i < c.N; i++ {
		if i == c.H || i%3 != 0 {
			if err := put(i, 10); err != nil {
				db.Close()
				return err
			}
		}
	}
	// everything about the other ones
	others := func() error {
		for i := 0; i < c.N; i++ {
			if i == c.H && !c.List {
				continue
			}
			if err := put(i, 20); err != nil {
				return err
			}
			v, err := db.Latest(c.name(i), nil)
			if err != nil || !v.Eq(want[i]) {
				return fmt.Errorf("latest of %s is %v (%v), want %v", c.name(i), v, err, want[i])
			}
			got, err := db.Get(c.name(i), 1<<62, 1, nil)
			if err != nil || len(got) != 1 || !got[0].Eq(want[i]) {
				return fmt.Errorf("%s is %v (%v), want %v", c.name(i), got, err, want[i])
			}
		}
		names, err := db.Names(-1)
		if err != nil || len(names) != c.N {
			return fmt.Errorf("%d names listed (%v), want %d", len(names), err, c.N)
		}
		return nil
	}
	release, began, done := make(chan struct{}), make(chan struct{}), make(chan error, 2)
	var once sync.Once
	hold := func() error {
		var err error
		once.Do(func() {
			if c.Inside {
				err = others()
				return
			}
			close(began)
			<-release
		})
		return err
	}
	before := want[c.H]
	go func() {
		if c.List {
			done <- db.DB.Metrics(context.Background(), func(string) (bool, error) {
				err := hold()
				return err == nil, err
			})
			return
		}
		n := 0
		err := db.DB.Query(context.Background(), c.name(c.H), 1<<62, nil, func(_ context.Context, start, end int64, data []byte) (bool, error) {
			n++
			if err := hold(); err != nil {
				return false, err
			}
			if v := (store.Val{Start: start, End: end, Data: data}); !v.Eq(before) {
				return false, fmt.Errorf("the read of %s has %v, want %v", c.name(c.H), v, before)
			}
			return true, nil
		})
		if err == nil && n != 1 {
			err = fmt.Errorf("%d values of %s were read", n, c.name(c.H))
		}
		done <- err
	}()
	what := "a read of " + c.name(c.H)
	if c.List {
		what = "a listing"
	}
	// wait bounds how long a call may take that nothing is in the way of
	wait := func(ch chan error) error {
		select {
		case err := <-ch:
			return err
		case <-time.After(20 * time.Second):
			return fmt.Errorf("other metrics could not be used while %s was under way", what)
		}
	}
	if !c.Inside {
		select {
		case <-began:
		case err := <-done:
			return fmt.Errorf("%s ended early: %v", what, err)
		case <-time.After(20 * time.Second):
			return fmt.Errorf("%s did not begin", what)
		}
		oth := make(chan error, 1)
		go func() { oth <- others() }()
		err := wait(oth)
		close(release)
		if err != nil {
			return fmt.Errorf("during %s: %v", what, err)
		}
	}
	if err := wait(done); err != nil {
		return fmt.Errorf("during %s: %v", what, err)
	}
	x.LabelIf(c.List, "listing held")
	x.LabelIf(!c.List, "read held")
	x.LabelIf(c.Inside, "used by the callback")
	if c.N > 10 {
		x.NonTrivial()
	}
	return db.Close()
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P10",
		Rule: "two to six goroutines running drawn programs of waiting and non-waiting writes, bounded queries, latest reads, listings and directory walks over up to four metrics, under the race detector; each read judged against what was queued and what was acknowledged before it began; and a read or listing whose callback waits, or itself uses, up to sixty other metrics, which must be writable and readable meanwhile; " +
			"non-trivial: more than ten metrics used during a read, and reads that returned values while other writes of that metric were pending or had been refused",
		Assumptions: []string{"interleavings are those the scheduler produces; data races are found by happens-before analysis of them", "shutdown does not overlap with other calls here (P07 does that)"},
		HangS:       60,
		Shards:      8,
	},
		vkit.P("mixed", 8000, 160000, gen, run),
		vkit.P("held", 800, 16000, genHeld, held),
	)
}
