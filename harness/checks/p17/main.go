// P17: a dump persists every captured record once, intact. Built with the
// race detector.
package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files/zzverif/clock"
	"github.com/vivint/rothko/database/files/zzverif/fakedb"
	"github.com/vivint/rothko/database/files/zzverif/fakedist"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/dump"
	"pgregory.net/rapid"
)

// Add is one observation.
type Add struct {
	M   int
	V   float64
	N   int // repeated
	IDN int // length of the identifier
}

// Period is what is added before a dump, and how the database answers it.
type Period struct {
	Adds  []Add
	Modes []string // how calls are answered, cyclically
	Dumps int      // concurrent dumps (1 or 2)
	Yield int
}

type Case struct {
	Bufsize int
	Real    bool
	Periods []Period
}

var metrics = []string{"a", "a.b", "", "x y", "x/y", "m5", "m6", "m7", "m8", "m9", "m10", "m11"}
var modes = []string{"sync", "sync-refuse", "sync-fail", "async", "async-refuse", "async-fail", "late", "late-fail", "error", "stored-with-error"}

func gen(t *rapid.T) Case {
	c := Case{Bufsize: rapid.SampledFrom([]int{0, 1, 64, 200, 5000}).Draw(t, "bufsize"), Real: rapid.IntRange(0, 4).Draw(t, "real") == 3}
	nm := rapid.IntRange(1, len(metrics)).Draw(t, "nm")
	for i := rapid.IntRange(1, 5).Draw(t, "np"); i > 0; i-- {
		var p Period
		for j := rapid.IntRange(0, 20).Draw(t, "na"); j > 0; j-- {
			p.Adds = append(p.Adds, Add{M: rapid.IntRange(0, nm-1).Draw(t, "m"), V: rapid.Float64Range(-1e9, 1e9).Draw(t, "v"), N: rapid.SampledFrom([]int{1, 1, 1, 2, 30}).Draw(t, "n"), IDN: rapid.IntRange(0, 20).Draw(t, "id")})
		}
		p.Modes = rapid.SliceOfN(rapid.SampledFrom(modes), 1, 5).Draw(t, "modes")
		p.Dumps = 1
		if rapid.IntRange(0, 4).Draw(t, "dumps") == 3 {
			p.Dumps = 2
		}
		p.Yield = rapid.IntRange(0, 10).Draw(t, "yield")
		c.Periods = append(c.Periods, p)
	}
	return c
}

type call struct {
	metric     string
	start, end int64
	data       []byte
}

// sink is the database.
type sink struct {
	fakedb.DB
	mu      sync.Mutex
	calls   []call
	open    int32 // calls not yet answered
	modes   []string
	yield   int
	late    []func()
	over    int32 // the dump has returned
	failure atomic.Value
	kick    chan struct{}
	onCall  func(n int) // with the number of calls so far
}

func (s *sink) fail(f string, a ...interface{}) {
	s.failure.CompareAndSwap(nil, fmt.Sprintf(f, a...))
}

var errSink = errors.New("no")

func (s *sink) Queue(ctx context.Context, metric string, start, end int64, buf []byte, cb func(bool, error)) error {
	keep := append([]byte{}, buf...)
	s.mu.Lock()
	mode := s.modes[len(s.calls)%len(s.modes)]
	s.calls = append(s.calls, call{metric, start, end, keep})
	n := len(s.calls)
	s.mu.Unlock()
	if s.onCall != nil {
		s.onCall(n)
	}
	if atomic.LoadInt32(&s.over) != 0 {
		s.fail("%q handed over after the dump had returned", metric)
	}
	if mode == "error" {
		return errSink
	}
	atomic.AddInt32(&s.open, 1)
	answer := func() {
		if string(buf) != string(keep) {
			s.fail("the bytes handed over for %q changed before they were answered for", metric)
		}
		if atomic.LoadInt32(&s.over) != 0 {
			s.fail("the dump returned before %q was answered for", metric)
		}
		atomic.AddInt32(&s.open, -1)
		switch mode {
		case "sync", "async", "late":
			cb(true, nil)
		case "sync-refuse", "async-refuse":
			cb(false, nil)
		case "stored-with-error":
			cb(true, errSink)
		default:
			cb(false, errSink)
		}
	}
	wait := func() {
		for i := 0; i < s.yield; i++ {
			runtime.Gosched()
		}
	}
	switch mode {
	case "async", "async-refuse", "async-fail":
		go func() { wait(); answer() }()
	case "late", "late-fail":
		s.mu.Lock()
		s.late = append(s.late, answer)
		s.mu.Unlock()
		select {
		case s.kick <- struct{}{}:
		default:
		}
	default:
		wait()
		answer()
	}
	return nil
}

// drain answers the late ones, last first, once no new ones come in.
func (s *sink) drain(stop chan struct{}) {
	for {
		select {
		case <-stop:
			return
		case <-s.kick:
		}
		for {
			s.mu.Lock()
			n := len(s.calls)
			s.mu.Unlock()
			time.Sleep(100 * time.Microsecond)
			s.mu.Lock()
			same := n == len(s.calls)
			s.mu.Unlock()
			if same {
				break
			}
		}
		s.mu.Lock()
		l := s.late
		s.late = nil
		s.mu.Unlock()
		for i := len(l) - 1; i >= 0; i-- {
			l[i]()
		}
	}
}

func newSink() *sink { return &sink{kick: make(chan struct{}, 1), modes: []string{"sync"}} }

func params(real bool) dist.Params {
	if real {
		return tdigest.Params{Compression: 5}
	}
	return fakedist.New()
}

func (a Add) do(w *data.Writer) {
	for i := 0; i < a.N; i++ {
		id := make([]byte, a.IDN)
		for j := range id {
			id[j] = byte(int(math.Float64bits(a.V)>>16) + i + j)
		}
		w.Add(context.Background(), metrics[a.M], a.V+float64(i%7), id)
	}
}

func snapshot(w *data.Writer) map[string]data.Record {
	out := map[string]data.Record{}
	w.Iterate(context.Background(), func(_ context.Context, m string, r data.Record) bool {
		r.Distribution = append([]byte{}, r.Distribution...)
		out[m] = r
		return true
	})
	return out
}

func same(a, b []byte) bool { return string(a) == string(b) }

func judge(want map[string]data.Record, calls []call, t0, t1 int64) error {
	seen := map[string]bool{}
	for _, k := range calls {
		w, ok := want[k.metric]
		if !ok {
			return fmt.Errorf("%q was dumped, it had no observations this period", k.metric)
		}
		if seen[k.metric] {
			return fmt.Errorf("%q was dumped twice in one period", k.metric)
		}
		seen[k.metric] = true
		var r data.Record
		if err := r.Unmarshal(k.data); err != nil {
			return fmt.Errorf("what was dumped for %q does not decode: %v", k.metric, err)
		}
		if r.StartTime != k.start || r.EndTime != k.end {
			return fmt.Errorf("%q was dumped for %d to %d, its record is for %d to %d", k.metric, k.start, k.end, r.StartTime, r.EndTime)
		}
		if r.StartTime != w.StartTime || t0 <= t1 && (r.EndTime < t0 || r.EndTime > t1) {
			return fmt.Errorf("%q: record for %d to %d, captured between %d and %d and started %d", k.metric, r.StartTime, r.EndTime, t0, t1, w.StartTime)
		}
		if !same(r.MinId, w.MinId) || !same(r.MaxId, w.MaxId) || !same(r.Distribution, w.Distribution) {
			return fmt.Errorf("%q: dumped %+v, captured %+v", k.metric, r, w)
		}
		r.MinId, r.MaxId, r.Distribution, r.EndTime = w.MinId, w.MaxId, w.Distribution, w.EndTime
		if !reflect.DeepEqual(r, w) {
			return fmt.Errorf("%q: dumped %+v, captured %+v", k.metric, r, w)
		}
	}
	for m := range want {
		if !seen[m] {
			return fmt.Errorf("%q was not dumped", m)
		}
	}
	return nil
}

func run(x *vkit.Ctx, c Case) error {
	w := data.NewWriter(params(c.Real))
	s := newSink()
	stop := make(chan struct{})
	defer close(stop)
	go s.drain(stop)
	d := dump.New(dump.Options{DB: s, Period: time.Hour, Bufsize: c.Bufsize})
	kinds := map[string]bool{}
	total := 0
	for pi, p := range c.Periods {
		for _, a := range p.Adds {
			a.do(w)
		}
		want := snapshot(w)
		s.mu.Lock()
		s.calls, s.modes, s.yield = nil, p.Modes, p.Yield
		s.mu.Unlock()
		atomic.StoreInt32(&s.over, 0)
		t0 := time.Now().UnixNano()
		store.Gather(p.Dumps, func(int) { d.Dump(context.Background(), w) })
		t1 := time.Now().UnixNano()
		atomic.StoreInt32(&s.over, 1)
		if n := atomic.LoadInt32(&s.open); n != 0 {
			return fmt.Errorf("period %d: the dump returned with %d values not answered for", pi, n)
		}
		if f := s.failure.Load(); f != nil {
			return fmt.Errorf("period %d: %s", pi, f)
		}
		s.mu.Lock()
		calls := s.calls
		s.mu.Unlock()
		if err := judge(want, calls, t0, t1); err != nil {
			return fmt.Errorf("period %d: %v", pi, err)
		}
		for i := range calls {
			kinds[p.Modes[i%len(p.Modes)]] = true
		}
		total += len(calls)
		x.LabelIf(p.Dumps > 1, "two dumps at once")
	}
	for k := range kinds {
		x.Label("answers: " + k)
	}
	if total > 2 && len(c.Periods) > 1 {
		x.NonTrivial()
	}
	return nil
}

// Loop is the periodic dumper, stopped while the database holds an answer.
type Loop struct {
	Adds  []Add
	Hold  int // milliseconds the answers are held after the stop
	Mode  string
	Extra []Add // added once the first dump is through
	At    int   // told to stop while this value is handed over; 0: after all
}

func genLoop(t *rapid.T) Loop {
	c := Loop{Hold: rapid.IntRange(0, 4).Draw(t, "hold"), Mode: rapid.SampledFrom(modes).Draw(t, "mode")}
	adds := func(l string, min int) (out []Add) {
		for j := rapid.IntRange(min, 6).Draw(t, l); j > 0; j-- {
			out = append(out, Add{M: rapid.IntRange(0, 5).Draw(t, "m"), V: rapid.Float64Range(-1e9, 1e9).Draw(t, "v"), N: 1, IDN: 3})
		}
		return
	}
	c.Adds, c.Extra = adds("na", 1), adds("nx", 0)
	c.At = rapid.IntRange(0, 3).Draw(t, "at")
	return c
}

func loop(x *vkit.Ctx, c Loop) error {
	w := data.NewWriter(params(false))
	for _, a := range c.Adds {
		a.do(w)
	}
	want := snapshot(w)
	s := newSink()
	s.modes = []string{c.Mode}
	held := c.Mode == "late" || c.Mode == "late-fail"
	d := dump.New(dump.Options{DB: s, Period: 300 * time.Microsecond})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if c.At > 0 {
		x.LabelIf(c.At < len(want), "told to stop in the middle of a dump")
		s.onCall = func(n int) {
			if n == c.At {
				cancel()
			}
		}
	}
	done := make(chan error, 1)
	var over int32
	t0 := time.Now().UnixNano()
	go func() {
		err := d.Run(ctx, w)
		atomic.StoreInt32(&over, 1)
		done <- err
	}()
	// wait for the dump
	for i := 0; ; i++ {
		s.mu.Lock()
		n := len(s.calls)
		if held {
			n = len(s.late) // handed over, and put aside
		}
		s.mu.Unlock()
		if n >= len(want) {
			break
		}
		if i > 100000 {
			cancel()
			return fmt.Errorf("only %d of %d values were dumped (told to stop at %d)", n, len(want), c.At)
		}
		time.Sleep(100 * time.Microsecond)
	}
	t1 := time.Now().UnixNano()
	cancel()
	if held {
		time.Sleep(time.Duration(c.Hold) * time.Millisecond)
		if atomic.LoadInt32(&over) != 0 {
			return fmt.Errorf("the dumper returned while the database had %d values to answer for", atomic.LoadInt32(&s.open))
		}
		s.mu.Lock()
		l := s.late
		s.mu.Unlock()
		for _, a := range l {
			a()
		}
		x.Label("stopped during a dump")
	}
	select {
	case err := <-done:
		if err != nil && !errors.Is(err, context.Canceled) {
			return fmt.Errorf("the dumper returned %v", err)
		}
	case <-time.After(20 * time.Second):
		return fmt.Errorf("the dumper did not stop when told to")
	}
	if n := atomic.LoadInt32(&s.open); n != 0 {
		return fmt.Errorf("the dumper returned with %d values not answered for", n)
	}
	if f := s.failure.Load(); f != nil {
		return fmt.Errorf("%s", f)
	}
	s.mu.Lock()
	calls := s.calls
	s.calls, s.modes, s.onCall = nil, []string{"sync"}, nil
	s.mu.Unlock()
	if err := judge(want, calls, t0, t1); err != nil {
		return err
	}
	// the last dump, as at shutdown
	for _, a := range c.Extra {
		a.do(w)
	}
	want = snapshot(w)
	t0 = time.Now().UnixNano()
	d.Dump(context.Background(), w)
	if err := judge(want, s.calls, t0, time.Now().UnixNano()); err != nil {
		return fmt.Errorf("last dump: %v", err)
	}
	x.NonTrivial()
	return nil
}

// Clock is the periodic dumper under a virtual clock.
type Clock struct {
	Period  int64 // in units of 2 ns
	Adds    []At
	Periods int     // told to stop after this many
	Latency []int64 // how long the database takes to answer, cyclically, in thousandths of the period
	Extra   int64   // in addition, nanoseconds (even)
	Block   bool    // it takes that long to accept the value, rather than to answer for it
}

// At is an observation at some time, in thousandths of the period.
type At struct{ M, T int }

func genClock(t *rapid.T) Clock {
	c := Clock{
		Period:  int64(rapid.SampledFrom([]time.Duration{time.Millisecond, time.Second, 10 * time.Minute, 24 * time.Hour}).Draw(t, "period")) / 2,
		Periods: rapid.IntRange(1, 12).Draw(t, "periods"),
		Block:   rapid.IntRange(0, 3).Draw(t, "block") == 2,
	}
	for i := rapid.IntRange(1, 30).Draw(t, "na"); i > 0; i-- {
		c.Adds = append(c.Adds, At{M: rapid.IntRange(0, 4).Draw(t, "m"), T: rapid.IntRange(0, c.Periods*1000+500).Draw(t, "t")})
	}
	c.Latency = rapid.SliceOfN(rapid.OneOf(rapid.Just(int64(0)), rapid.Int64Range(0, 200), rapid.Int64Range(0, 3000)), 1, 3).Draw(t, "latency")
	c.Extra = 2 * rapid.SampledFrom([]int64{0, 0, 0, 0, 1, int64(30 * time.Second), int64(3 * time.Hour)}).Draw(t, "extra")
	return c
}

// slow answers after a while.
type slow struct {
	fakedb.DB
	c     Clock
	mu    sync.Mutex
	calls []call
	at    []int64
	until int64 // when everything so far is answered for
	open  int32
	err   error
}

func (s *slow) Queue(ctx context.Context, metric string, start, end int64, buf []byte, cb func(bool, error)) error {
	s.mu.Lock()
	lat := time.Duration(s.c.Latency[len(s.calls)%len(s.c.Latency)]*(s.c.Period/1000)*2 + s.c.Extra)
	now := time.Now()
	s.calls = append(s.calls, call{metric, start, end, append([]byte{}, buf...)})
	s.at = append(s.at, now.UnixNano())
	keep := string(buf)
	s.mu.Unlock()
	atomic.AddInt32(&s.open, 1)
	answer := func() {
		time.Sleep(lat)
		s.mu.Lock()
		if string(buf) != keep {
			s.err = fmt.Errorf("the bytes handed over for %q changed before they were answered for, %v later", metric, lat)
		}
		s.until = time.Now().UnixNano()
		s.mu.Unlock()
		atomic.AddInt32(&s.open, -1)
		cb(true, nil)
	}
	if s.c.Block {
		answer()
	} else {
		go answer()
	}
	return nil
}

func onClock(x *vkit.Ctx, c Clock) error { return clock.Run(func() error { return clocked(x, c) }) }

func clocked(x *vkit.Ctx, c Clock) error {
	w := data.NewWriter(params(false))
	s := &slow{c: c}
	period := c.Period * 2
	d := dump.New(dump.Options{DB: s, Period: time.Duration(period)})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	began := time.Now().UnixNano()
	done := make(chan error, 1)
	go func() { done <- d.Run(ctx, w) }()
	// adds are at odd times, everything else is at even ones
	sort.SliceStable(c.Adds, func(i, j int) bool { return c.Adds[i].T < c.Adds[j].T })
	added := map[string][]int64{}
	stop := began + int64(c.Periods)*period + 2*(period/5)
	stopped := false
	waitFor := func(t int64) { time.Sleep(time.Duration(t - time.Now().UnixNano())) }
	halt := func() error {
		waitFor(stop)
		stopped = true
		cancel()
		err := <-done
		if n := atomic.LoadInt32(&s.open); n != 0 {
			return fmt.Errorf("the dumper returned with %d values not answered for", n)
		}
		return err
	}
	for _, a := range c.Adds {
		at := began + int64(a.T)*(c.Period/1000)*2 + 1
		if at > stop && !stopped {
			if err := halt(); err != nil {
				return err
			}
		}
		if now := time.Now().UnixNano(); now > at {
			at = now + 1 - now%2 // the stop took until then
		}
		waitFor(at)
		added[metrics[a.M]] = append(added[metrics[a.M]], at)
		w.Add(context.Background(), metrics[a.M], float64(a.T), nil)
	}
	if !stopped {
		if err := halt(); err != nil {
			return err
		}
	}
	periodic := len(s.calls)
	time.Sleep(2)
	waitFor(time.Now().UnixNano() + time.Now().UnixNano()%2)
	lastAt := time.Now().UnixNano()
	d.Dump(context.Background(), w)
	if n := atomic.LoadInt32(&s.open); n != 0 {
		return fmt.Errorf("the last dump returned with %d values not answered for", n)
	}
	if s.err != nil {
		return s.err
	}
	// every observation is in the one record that spans its time
	rest := map[string][]int64{}
	for m, l := range added {
		rest[m] = l
	}
	for i, k := range s.calls {
		var r data.Record
		if err := r.Unmarshal(k.data); err != nil {
			return err
		}
		n := 0
		for len(rest[k.metric]) > 0 && rest[k.metric][0] < k.end {
			if rest[k.metric][0] < k.start {
				return fmt.Errorf("the observation of %q at +%d is in the record from +%d to +%d", k.metric, rest[k.metric][0]-began, k.start-began, k.end-began)
			}
			rest[k.metric] = rest[k.metric][1:]
			n++
		}
		if int64(n) != r.Observations {
			return fmt.Errorf("the record of %q from +%d to +%d has %d observations, there were %d", k.metric, k.start-began, k.end-began, r.Observations, n)
		}
		// handed over when captured, unless an earlier one was not accepted yet
		if !c.Block && s.at[i] != k.end {
			return fmt.Errorf("the record of %q up to +%d was handed over at +%d", k.metric, k.end-began, s.at[i]-began)
		}
	}
	for m, l := range rest {
		if len(l) > 0 {
			return fmt.Errorf("%d observations of %q were not dumped, first at +%d", len(l), m, l[0]-began)
		}
	}
	// every period something is dumped if there is something: none is late by more
	// than the dump before took
	busy := map[int64]int64{} // how long after its capture a dump was done
	for _, k := range s.calls {
		var total int64
		for j := range s.calls {
			if s.calls[j].end == k.end {
				l := c.Latency[j%len(c.Latency)]*(c.Period/1000)*2 + c.Extra
				if c.Block {
					total += l
				} else if l > total {
					total = l
				}
			}
		}
		busy[k.end] = total
	}
	var worst int64
	for _, b := range busy {
		if b > worst {
			worst = b
		}
	}
	for i, k := range s.calls {
		if i >= periodic {
			if k.end != lastAt {
				return fmt.Errorf("the record of the last dump at +%d ends at +%d", lastAt-began, k.end-began)
			}
			continue
		}
		for _, at := range added[k.metric] {
			if at >= k.start && at < k.end && k.end-at > period+worst {
				return fmt.Errorf("the observation of %q at +%d was dumped at +%d, with a period of %d and dumps that took at most %d", k.metric, at-began, k.end-began, period, worst)
			}
		}
		if worst == 0 && (k.end-began)%period != 0 {
			return fmt.Errorf("a dump at +%d, the period is %d", k.end-began, period)
		}
	}
	x.LabelIf(worst > period, "dumps that take longer than the period")
	x.LabelIf(worst > int64(time.Hour), "answers that take hours")
	x.LabelIf(periodic < len(s.calls) && periodic > 0, "periodic dumps and a last one")
	if periodic > 1 {
		x.NonTrivial()
	}
	return nil
}

func main() {
	clock.Main(check)
}

func check() {
	vkit.Main(vkit.Opts{
		ID: "P17",
		Rule: "up to five periods of drawn observations, each dumped (sometimes by two dumps at once) into a database that answers at once, concurrently, late and in reverse, with refusals, failures or errors, and compares the bytes it was given when it answers; and the periodic dumper stopped in the middle of handing a dump over or while answers are outstanding; and up to twelve periods of up to a day under a virtual clock, with answers that take up to hours; " +
			"non-trivial: several periods with more than two records, and every periodic case",
		Assumptions: []string{"the database either returns an error or calls back, never both, as its interface says", "observations do not overlap dumps (documented to be lossy)", "the context given to a dump is not cancelled"},
		HangS:       45,
	},
		vkit.P("dump", 4000, 100000, gen, run),
		vkit.P("loop", 800, 20000, genLoop, loop),
		vkit.P("clock", 2000, 60000, genClock, onClock),
	)
}
