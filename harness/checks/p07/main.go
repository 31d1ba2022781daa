// P07: every queued value is answered exactly once.
package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

// Q is one call of Queue.
type Q struct {
	M     int
	End   int64
	Len   int
	Ctx   int  // 0 background, 1 cancelled before, 2 cancelled meanwhile, 3 cancelled once every client started
	NilCB bool `json:",omitempty"`
	Yield int  `json:",omitempty"`
}

// Phase is one life of the database: calls before it runs, concurrent clients
// while it runs, and a shutdown after StopAfter calls were made (or at the end).
type Phase struct {
	Before    []Q
	Clients   [][]Q
	StopAfter int
	Block     int // callbacks of the running phase that wait until everything was queued
}

type Case struct {
	Cfg    store.Cfg
	Phases []Phase
}

var metrics = []string{"a", "a.b", "c"}

func genQ(t *rapid.T, c store.Cfg, before bool) Q {
	q := Q{M: rapid.IntRange(0, len(metrics)-1).Draw(t, "m"), End: int64(rapid.IntRange(1, 5000).Draw(t, "end"))}
	q.Len = rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 3*c.Size), rapid.Just(c.Cap*c.Size)).Draw(t, "len")
	q.Ctx = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3}).Draw(t, "ctx")
	q.NilCB = rapid.IntRange(0, 9).Draw(t, "nil") == 0
	q.Yield = rapid.IntRange(0, 3).Draw(t, "yield")
	if before && q.Ctx == 0 && !c.Drop {
		q.Ctx = 2 // it may block until its context ends
	}
	if before && q.Ctx == 3 {
		q.Ctx = 1
	}
	return q
}

func gen(t *rapid.T) Case {
	c := Case{Cfg: store.Cfg{
		Size: 128, Cap: rapid.IntRange(2, 40).Draw(t, "cap"), Files: 1000,
		Buffer: rapid.IntRange(0, 4).Draw(t, "buffer"), Handles: rapid.SampledFrom([]int{-1, 2, 50}).Draw(t, "handles"),
		Workers: rapid.IntRange(1, 3).Draw(t, "workers"), Drop: rapid.Bool().Draw(t, "drop"),
	}}
	n := rapid.IntRange(1, 3).Draw(t, "phases")
	for i := 0; i < n; i++ {
		var p Phase
		for j := rapid.IntRange(0, 6).Draw(t, "nbefore"); j > 0; j-- {
			p.Before = append(p.Before, genQ(t, c.Cfg, true))
		}
		total := 0
		for j := rapid.IntRange(1, 4).Draw(t, "nclients"); j > 0; j-- {
			var qs []Q
			for k := rapid.IntRange(0, 12).Draw(t, "nq"); k > 0; k-- {
				qs = append(qs, genQ(t, c.Cfg, false))
				total++
			}
			p.Clients = append(p.Clients, qs)
		}
		p.StopAfter = rapid.IntRange(0, total+1).Draw(t, "stop")
		if rapid.IntRange(0, 3).Draw(t, "blk") == 0 {
			p.Block = rapid.IntRange(1, 3).Draw(t, "nblock")
		}
		c.Phases = append(c.Phases, p)
	}
	return c
}

type answer struct {
	q        Q
	data     []byte
	calls    int32
	ok       int32
	errd     int32
	returned int32 // Queue has returned
}

func run(x *vkit.Ctx, c Case) error {
	dir := filepath.Join(x.TempDir(), "db")
	vkit.Must(os.MkdirAll(dir, 0755))
	db := files.New(dir, c.Cfg.Options())
	var mu sync.Mutex
	var all []*answer
	var failure atomic.Value

	fail := func(f string, a ...interface{}) {
		failure.CompareAndSwap(nil, fmt.Sprintf(f, a...))
	}
	// queue makes one call
	queue := func(base context.Context, id int, q Q, hook func(), started *sync.WaitGroup) *answer {
		a := &answer{q: q, data: store.Payload(q.Len, byte(id))}
		if q.Len >= 8 {
			binary.BigEndian.PutUint64(a.data, uint64(id)+1)
		}
		mu.Lock()
		all = append(all, a)
		mu.Unlock()
		ctx, cancel := context.WithCancel(base)
		defer cancel()
		switch q.Ctx {
		case 1:
			cancel()
		case 2:
			go func() {
				for i := 0; i < q.Yield*20; i++ {
					runtime.Gosched()
				}
				cancel()
			}()
		case 3:
			go func() { started.Wait(); cancel() }()
		}
		cb := func(ok bool, err error) {
			if atomic.AddInt32(&a.calls, 1) > 1 {
				fail("callback of value %+v called again", q)
			}
			if ok {
				atomic.StoreInt32(&a.ok, 1)
			}
			if err != nil {
				atomic.StoreInt32(&a.errd, 1)
			}
			if ok && err != nil {
				fail("value %+v reported stored with error %v", q, err)
			}
			if hook != nil {
				hook()
			}
		}
		if q.NilCB {
			cb = nil
		}
		buf := append(make([]byte, 0, len(a.data)+16), a.data...)
		if err := db.Queue(ctx, metrics[q.M], q.End-1, q.End, buf, cb); err != nil && !errors.Is(err, context.Canceled) {
			fail("Queue(%+v) returned %v", q, err)
		}
		// the caller owns the buffer again
		for i := range buf {
			buf[i] ^= 0x5a
		}
		atomic.StoreInt32(&a.returned, 1)
		return a
	}

	id := 0
	stopped, dropped, cancelled := 0, 0, 0
	for pi, p := range c.Phases {
		// nothing drains the queue yet: the first ones fit the buffer, and the
		// others are dropped or give up with their context
		// (clients outliving the previous run may have used up some room)
		room := c.Cfg.Buffer
		if pi > 0 {
			room = -1000
		}
		for _, q := range p.Before {
			id++
			a := queue(context.Background(), id, q, nil, nil)
			calls := atomic.LoadInt32(&a.calls)
			switch {
			case q.NilCB:
				if room > 0 && q.Ctx == 0 {
					room--
				} else if room > 0 {
					room = -1000 // unknown
				}
			case room <= -500:
			case room == 0:
				if calls != 1 {
					return fmt.Errorf("value %+v could not be queued (buffer full, nothing running) and was answered %d times when Queue returned", q, calls)
				}
				if atomic.LoadInt32(&a.ok) == 1 {
					return fmt.Errorf("value %+v reported stored while nothing was running", q)
				}
			case calls == 0:
				room--
			case calls == 1 && q.Ctx == 0:
				return fmt.Errorf("value %+v was answered without running though the buffer of %d had room", q, c.Cfg.Buffer)
			}
		}
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan error, 1)
		// clients give up once the database stopped for good: queueing blocks
		// until then when it must not drop
		cctx, ccancel := context.WithCancel(context.Background())
		go func() {
			err := db.Run(ctx)
			ccancel()
			done <- err
		}()
		var made int32
		total := 0
		for _, qs := range p.Clients {
			total += len(qs)
		}
		var stop sync.Once
		check := func() {
			if int(atomic.LoadInt32(&made)) >= p.StopAfter {
				stop.Do(cancel)
			}
		}
		check()
		if p.StopAfter < total {
			stopped++
		}
		var wg, started sync.WaitGroup
		started.Add(len(p.Clients))
		release := make(chan struct{})
		blocks := int32(p.Block)
		hook := func() {
			if atomic.AddInt32(&blocks, -1) >= 0 {
				<-release
			}
		}
		// blocked callbacks are let go when no client can be waiting for them
		for ci, qs := range p.Clients {
			ci, qs := ci, qs
			base := id
			id += len(qs)
			_ = ci
			wg.Add(1)
			go func() {
				defer wg.Done()
				started.Done()
				for i, q := range qs {
					// a callback can run inside Queue, where waiting for the
					// other clients is not fair: only the workers' calls wait
					h := hook
					if c.Cfg.Drop || q.Ctx != 0 || p.Block == 0 {
						h = nil
					}
					queue(cctx, base+i+1, q, h, &started)
					atomic.AddInt32(&made, 1)
					check()
					for k := 0; k < q.Yield; k++ {
						runtime.Gosched()
					}
				}
			}()
		}
		// a worker held up by a callback must not be needed for a client to
		// progress, so let them go as soon as someone has had time to fill up
		go func() {
			for i := 0; i < 200; i++ {
				runtime.Gosched()
			}
			close(release)
		}()
		wg.Wait()
		stop.Do(cancel)
		if err := <-done; err != nil && !errors.Is(err, context.Canceled) {
			return fmt.Errorf("Run: %v", err)
		}
		if f := failure.Load(); f != nil {
			return errors.New(f.(string))
		}
		// everything queued while it ran has been answered by now
		mu.Lock()
		as := append([]*answer(nil), all...)
		mu.Unlock()
		for _, a := range as {
			if a.q.NilCB {
				continue
			}
			// values that got into the fresh queue after the shutdown wait for
			// the next run
			if n := atomic.LoadInt32(&a.calls); n > 1 {
				return fmt.Errorf("value %+v answered %d times", a.q, n)
			}
		}
	}
	// run once more so that nothing is left in a buffer
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	if err := db.Run(ctx); err != nil && !errors.Is(err, context.Canceled) {
		return fmt.Errorf("Run: %v", err)
	}
	if f := failure.Load(); f != nil {
		return errors.New(f.(string))
	}

	// stored iff in the database
	type key struct {
		m   int
		end int64
	}
	stored := map[key][]byte{}
	for mi, m := range metrics {
		err := db.Query(context.Background(), m, 1<<63-1, nil, func(ctx context.Context, s, e int64, data []byte) (bool, error) {
			if s != e-1 {
				fail("stored value of %s has start %d end %d", m, s, e)
			}
			stored[key{mi, e}] = append([]byte{}, data...)
			return true, nil
		})
		_ = err // a metric never stored
	}
	claimed := map[key]bool{}
	nok, nno := 0, 0
	for _, a := range all {
		k := key{a.q.M, a.q.End}
		if a.q.NilCB {
			continue
		}
		if n := atomic.LoadInt32(&a.calls); n != 1 {
			return fmt.Errorf("value %+v answered %d times in the end", a.q, n)
		}
		if a.ok == 1 {
			nok++
			if claimed[k] {
				return fmt.Errorf("two values of %s with end %d reported stored", metrics[k.m], k.end)
			}
			claimed[k] = true
			d, ok := stored[k]
			if !ok {
				return fmt.Errorf("value %+v reported stored is not in the database", a.q)
			}
			if string(d) != string(a.data) {
				return fmt.Errorf("value %+v is stored with other bytes than queued: % x", a.q, trim(d))
			}
		} else {
			nno++
			if a.errd == 0 {
				dropped++
			}
			if a.q.Ctx == 1 {
				cancelled++
			}
		}
	}
	for k, d := range stored {
		if claimed[k] {
			continue
		}
		// must be one queued without a callback
		ok := false
		for _, a := range all {
			if a.q.NilCB && a.q.M == k.m && a.q.End == k.end && string(a.data) == string(d) {
				ok = true
			}
		}
		if !ok {
			return fmt.Errorf("%s has a value with end %d (% x) that was reported as not stored or never queued", metrics[k.m], k.end, trim(d))
		}
	}
	x.LabelIf(stopped > 0, "shut down while clients were queueing")
	x.LabelIf(c.Cfg.Drop, "drop mode")
	x.LabelIf(len(c.Phases) > 1, "run again")
	x.LabelN("reported stored", nok)
	x.LabelN("reported not stored", nno)
	x.LabelN("cancelled context refused", cancelled)
	if nok > 0 && dropped > 0 {
		x.NonTrivial()
	}
	if f := failure.Load(); f != nil {
		return errors.New(f.(string))
	}
	return nil
}

func trim(b []byte) []byte {
	if len(b) > 12 {
		return b[:12]
	}
	return b
}

func main() {
	vkit.Main(vkit.Opts{
		ID:          "P07",
		Rule:        "one to three runs of one database object; in each, values queued before anything runs (filling the buffer), up to four concurrent clients queueing under live, cancelled and later-cancelled contexts with some callbacks held up, and a shutdown after a drawn number of calls; every callback counted, and stored answers compared with the database; non-trivial: some values stored and some answered as not stored without an error",
		Assumptions: []string{"goroutine interleavings are whatever the scheduler produces, so a failure may take several replays to reappear"},
		HangS:       60,
	},
		vkit.P("queue", 20000, 300000, gen, run),
	)
}
