// P34: task supervision runs everything and waits for everything.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/internal/junk"
	"pgregory.net/rapid"
)

// ---- launching

// Task says what a task does.
type Task struct {
	Waits  bool // until told to stop
	Linger int  // microseconds before returning
	Fails  bool
	Queues bool // queues another task while running
	Err    int  // which error it fails with
}

type LCase struct {
	Tasks    []Task
	Cancel   int // of the caller: 0 not, 1 before, 2 while they run
	Direct   bool
	Queuers  int
	Again    bool
	Deadline bool
}

func genL(t *rapid.T) LCase {
	c := LCase{Cancel: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "cancel"), Direct: rapid.Bool().Draw(t, "direct"), Queuers: rapid.IntRange(1, 3).Draw(t, "queuers"),
		Again: rapid.Bool().Draw(t, "again"), Deadline: rapid.IntRange(0, 5).Draw(t, "deadline") == 3}
	for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
		c.Tasks = append(c.Tasks, Task{Waits: rapid.IntRange(0, 2).Draw(t, "waits") > 0, Linger: rapid.SampledFrom([]int{0, 0, 0, 1, 50, 300, 1000}).Draw(t, "linger"),
			Fails: rapid.IntRange(0, 3).Draw(t, "fails") == 2, Queues: rapid.IntRange(0, 5).Draw(t, "queues") == 3, Err: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "err")})
	}
	if c.Cancel == 0 && len(c.Tasks) > 0 {
		ends := false
		for _, k := range c.Tasks {
			ends = ends || !k.Waits
		}
		if !ends {
			c.Tasks[rapid.IntRange(0, len(c.Tasks)-1).Draw(t, "ender")].Waits = false
		}
	}
	return c
}

type ctxKey struct{}

func runL(x *vkit.Ctx, c LCase) error {
	n := len(c.Tasks)
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, 7))
	defer cancel()
	if c.Deadline {
		var done func()
		ctx, done = context.WithTimeout(ctx, time.Hour)
		defer done()
	}
	var l junk.Launcher
	ran := make([]int64, n)
	var finished, started, extra int64
	var early, strange int64
	errOf := make([]error, n)
	all := make(chan struct{}) // closed when all have started
	tasks := make([]func(context.Context) error, n)
	for i, k := range c.Tasks {
		i, k := i, k
		// not every task has an error of its own: what it was told to stop with
		// is an error like any other
		errOf[i] = []error{fmt.Errorf("task %d", i), context.Canceled, context.DeadlineExceeded, io.EOF}[k.Err&3]
		tasks[i] = func(tctx context.Context) error {
			defer atomic.AddInt64(&finished, 1)
			atomic.AddInt64(&ran[i], 1)
			if tctx.Value(ctxKey{}) != 7 {
				atomic.AddInt64(&strange, 1)
			}
			if c.Cancel != 1 && tctx.Err() != nil {
				atomic.AddInt64(&early, 1)
			}
			if k.Queues && !c.Direct {
				l.Queue(func(context.Context) error { atomic.AddInt64(&extra, 1); return nil })
			}
			if atomic.AddInt64(&started, 1) == int64(n) {
				close(all)
			}
			<-all // so they all have to run at the same time
			if k.Waits {
				<-tctx.Done()
			}
			if k.Linger > 0 {
				time.Sleep(time.Duration(k.Linger) * time.Microsecond)
			}
			if k.Fails {
				return errOf[i]
			}
			return nil
		}
	}
	if c.Cancel == 1 {
		cancel()
	}
	stop := make(chan struct{})
	var side sync.WaitGroup
	if c.Cancel == 2 {
		side.Add(1)
		go func() {
			defer side.Done()
			if n > 0 {
				<-all
			}
			cancel()
		}()
	}
	var err error
	if c.Direct {
		err = junk.Launch(ctx, tasks...)
	} else {
		var wg sync.WaitGroup
		for q := 0; q < c.Queuers; q++ {
			q := q
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := q; i < n; i += c.Queuers {
					l.Queue(tasks[i])
				}
			}()
		}
		wg.Wait()
		err = l.Run(ctx)
	}
	close(stop)
	if got := atomic.LoadInt64(&finished); got != int64(n) {
		return fmt.Errorf("returned although only %d of %d tasks had", got, n)
	}
	side.Wait()
	if early > 0 {
		return fmt.Errorf("%d tasks were told to stop before any had ended", early)
	}
	if strange > 0 {
		return fmt.Errorf("%d tasks got a context that is not one of the caller's", strange)
	}
	for i := range ran {
		if ran[i] != 1 {
			return fmt.Errorf("task %d ran %d times", i, ran[i])
		}
	}
	// which errors may have been the first
	anyFails, firstNil := false, c.Cancel != 0
	for _, k := range c.Tasks {
		anyFails = anyFails || k.Fails
		firstNil = firstNil || !k.Waits && !k.Fails
	}
	if anyFails != (err != nil) {
		return fmt.Errorf("some task failed: %v; the error is %v", anyFails, err)
	}
	if err != nil {
		ok := false
		for i, k := range c.Tasks {
			// a task that waits can only be the first to fail when another
			// ended well (or the caller gave up) and so told it to stop
			if k.Fails && errors.Is(err, errOf[i]) && (!k.Waits || firstNil) {
				ok = true
			}
		}
		if !ok {
			return fmt.Errorf("the error is %v, of a task that was only told to stop after the first had failed", err)
		}
	}
	x.LabelIf(err != nil, "failed")
	x.LabelIf(c.Cancel > 0, "caller gave up")
	if !c.Direct && c.Again {
		want := int64(0)
		for _, k := range c.Tasks {
			if k.Queues {
				want++
			}
		}
		if got := atomic.LoadInt64(&extra); got != 0 {
			return fmt.Errorf("%d tasks queued during a run were run by it", got)
		}
		for i := 0; i < 2; i++ {
			if err := l.Run(context.Background()); err != nil {
				return fmt.Errorf("running what was queued meanwhile: %v", err)
			}
			if got := atomic.LoadInt64(&extra); got != want {
				return fmt.Errorf("%d tasks were queued during a run, %d were run by the next", want, got)
			}
		}
		for i := range ran {
			if ran[i] != 1 {
				return fmt.Errorf("task %d ran %d times over several runs", i, ran[i])
			}
		}
		x.LabelIf(want > 0, "queued while running")
	}
	if n > 2 {
		x.NonTrivial()
	}
	return nil
}

// ---- the flag

type FCase struct {
	Ops     []int // 0 start, 1 stop
	Starter int   // concurrent ones at the end
}

func genF(t *rapid.T) FCase {
	return FCase{Ops: rapid.SliceOfN(rapid.IntRange(0, 1), 0, 12).Draw(t, "ops"), Starter: rapid.IntRange(1, 6).Draw(t, "starters")}
}

func runF(x *vkit.Ctx, c FCase) error {
	var f junk.Flag
	on := false
	for i, o := range c.Ops {
		if o == 1 {
			f.Stop()
			on = false
			continue
		}
		if err := f.Start(); (err != nil) != on {
			return fmt.Errorf("op %d: start with it on %v: %v", i, on, err)
		}
		on = true
	}
	var won int64
	var wg sync.WaitGroup
	for i := 0; i < c.Starter; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if f.Start() == nil {
				atomic.AddInt64(&won, 1)
			}
		}()
	}
	wg.Wait()
	if on && won != 0 || !on && won != 1 {
		return fmt.Errorf("%d of %d concurrent starts worked with it on %v", won, c.Starter, on)
	}
	if len(c.Ops) > 2 && c.Starter > 1 {
		x.NonTrivial()
	}
	return nil
}

// ---- runs of a database

type DCase struct {
	Ops     []int // 0 start a run, 1 end it, 2 write, 3 several starts at once, 4 queue without waiting
	Workers int
	Buffer  int
	Drop    bool
}

func genD(t *rapid.T) DCase {
	return DCase{Ops: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 1, 2, 2, 2, 3, 4}), 1, 25).Draw(t, "ops"), Workers: rapid.IntRange(1, 3).Draw(t, "workers"),
		Buffer: rapid.SampledFrom([]int{30, 60}).Draw(t, "buffer"), Drop: rapid.Bool().Draw(t, "drop")}
}

func runD(x *vkit.Ctx, c DCase) error {
	dir := x.TempDir()
	db := files.New(dir, files.Options{Size: 256, Cap: 100, Files: 3, Tuning: files.Tuning{Buffer: c.Buffer, Drop: c.Drop, Workers: c.Workers, Handles: 5}})
	type run struct {
		cancel func()
		done   chan error
	}
	var cur *run
	defer func() {
		if cur != nil {
			cur.cancel()
			<-cur.done
		}
	}()
	end := int64(10)
	stored := map[string][]int64{} // ends by metric, oldest first
	runs, refused := 0, 0
	type pend struct {
		metric string
		end    int64
		res    chan string
	}
	var pending []pend
	seq := 0
	settle := func() error {
		for _, p := range pending {
			s := <-p.res
			switch s {
			case "true <nil>":
				stored[p.metric] = append(stored[p.metric], p.end)
			case "false <nil>":
				// the run ended before it was written
			default:
				return fmt.Errorf("a queued value: %s", s)
			}
		}
		pending = nil
		return nil
	}
	start := func() *run {
		ctx, cancel := context.WithCancel(context.Background())
		r := &run{cancel, make(chan error, 1)}
		go func() { r.done <- db.Run(ctx) }()
		return r
	}
	for i, o := range c.Ops {
		switch o {
		case 0, 3:
			n := 1
			if o == 3 {
				n = 3
			}
			var rs []*run
			for k := 0; k < n; k++ {
				rs = append(rs, start())
			}
			// all but one must be refused, all when one was running
			left := rs
			limit := 1
			if cur != nil {
				limit = 0
			}
			for len(left) > limit {
				progress := false
				for k, r := range left {
					select {
					case err := <-r.done:
						if err == nil {
							return fmt.Errorf("op %d: a run ended by itself without an error", i)
						}
						r.cancel()
						left = append(append([]*run{}, left[:k]...), left[k+1:]...)
						refused++
						progress = true
					default:
					}
					if progress {
						break
					}
				}
				if !progress {
					time.Sleep(50 * time.Microsecond)
				}
			}
			if cur == nil {
				cur = left[0]
				runs++
				// it must really be running: a write is answered
				seq++
				m := fmt.Sprintf("probe%d", seq)
				res := make(chan string, 1)
				if err := db.Queue(context.Background(), m, 1, 2, []byte("x"), func(ok bool, err error) { res <- fmt.Sprint(ok, " ", err) }); err != nil {
					return fmt.Errorf("op %d: %v", i, err)
				}
				select {
				case s := <-res:
					if s != "true <nil>" {
						return fmt.Errorf("op %d: a write to the running database: %s", i, s)
					}
				case err := <-cur.done:
					cur = nil
					return fmt.Errorf("op %d: the only run of the database ended: %v", i, err)
				}
				stored[m] = []int64{2}
			}
			x.LabelIf(o == 3, "several starts at once")
		case 1:
			if cur == nil {
				continue
			}
			if i%2 == 0 {
				// let what is queued go through first
				if err := settle(); err != nil {
					return fmt.Errorf("op %d: %v", i, err)
				}
			}
			cur.cancel()
			if err := <-cur.done; err != nil {
				return fmt.Errorf("op %d: ending a run: %v", i, err)
			}
			cur = nil
			// every value that was queued has been answered
			for _, p := range pending {
				if len(p.res) == 0 {
					return fmt.Errorf("op %d: a value queued before the run ended was never answered", i)
				}
			}
			if err := settle(); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
		case 2, 4:
			if cur == nil && o == 2 {
				continue
			}
			end++
			seq++
			m := fmt.Sprintf("m%d", i%2)
			if o == 4 {
				m = fmt.Sprintf("q%d", seq)
			}
			res := make(chan string, 2)
			if err := db.Queue(context.Background(), m, end-1, end, []byte("x"), func(ok bool, err error) { res <- fmt.Sprint(ok, " ", err) }); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
			if o == 4 {
				pending = append(pending, pend{m, end, res})
				continue
			}
			if s := <-res; s != "true <nil>" {
				return fmt.Errorf("op %d: a write to the running database: %s", i, s)
			}
			stored[m] = append(stored[m], end)
		}
	}
	if cur != nil {
		if err := settle(); err != nil {
			return err
		}
	} else {
		pending = nil
	}
	for m, ends := range stored {
		k := len(ends)
		err := db.Query(context.Background(), m, 1<<62, nil, func(ctx context.Context, s, e int64, b []byte) (bool, error) {
			k--
			if k < 0 || e != ends[k] {
				return false, fmt.Errorf("%q holds a value ending at %d; written were %v", m, e, ends)
			}
			return true, nil
		})
		if err != nil {
			return err
		}
		if k > 0 {
			return fmt.Errorf("%q lost %d of its %d values", m, k, len(ends))
		}
	}
	x.LabelIf(refused > 0, "refused runs")
	if runs > 1 && refused > 0 {
		x.NonTrivial()
	}
	_ = store.Header
	_ = filepath.Join
	return nil
}

// ---- signals, in processes of their own

type SCase struct {
	Ops []int // 0 a context for INT, 1 one for TERM, 2 cancel one, 3 cancel the parent of one, 4 send INT, 5 send TERM, 6 a context for both
}

func genS(t *rapid.T) SCase {
	c := SCase{}
	n := rapid.IntRange(1, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 5, 6}).Draw(t, "op"))
	}
	return c
}

// waitsFor is the set of signals of an op that makes a context.
func waitsFor(op int) int {
	if op == 6 {
		return 3
	}
	return 1 << op
}

// plan says what each context must look like at the end and whether the
// process must be ended by a signal.
func child(ops string) {
	type sc struct {
		ctx    context.Context
		cancel func()
		parent func()
		sig    int // a bit for each
		over   bool
	}
	var cs []*sc
	fail := func(f string, a ...interface{}) {
		fmt.Printf("FAIL "+f+"\n", a...)
		os.Exit(0)
	}
	for i, o := range ops {
		switch o {
		case '0', '1', '6':
			p, pc := context.WithCancel(context.Background())
			sig := waitsFor(int(o - '0'))
			sigs := map[int][]os.Signal{1: {syscall.SIGINT}, 2: {syscall.SIGTERM}, 3: {syscall.SIGINT, syscall.SIGTERM}}[sig]
			ctx, cancel := junk.WithSignal(p, sigs...)
			cs = append(cs, &sc{ctx: ctx, cancel: cancel, parent: pc, sig: sig})
		case '2', '3':
			for _, c := range cs {
				if !c.over {
					if o == '2' {
						c.cancel()
					} else {
						c.parent()
					}
					c.over = true
					select {
					case <-c.ctx.Done():
					case <-time.After(10 * time.Second):
						fail("op %d: a canceled context is not done", i)
					}
					break
				}
			}
		case '4', '5':
			sig := int(o - '4')
			live := false
			for _, c := range cs {
				live = live || !c.over && c.sig>>sig&1 == 1
			}
			s := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[sig]
			if !live {
				// nobody waits for it: it has its usual effect, soon after
				// the last context ended
				fmt.Printf("DYING\n")
				for k := 0; k < 1000; k++ {
					syscall.Kill(os.Getpid(), s)
					time.Sleep(10 * time.Millisecond)
				}
				fail("op %d: the signal still has no effect after its contexts have ended", i)
			}
			for _, c := range cs {
				if !c.over && c.ctx.Err() != nil {
					fail("op %d: a context ended before its signal", i)
				}
			}
			syscall.Kill(os.Getpid(), s)
			for _, c := range cs {
				if !c.over && c.sig>>sig&1 == 1 {
					select {
					case <-c.ctx.Done():
					case <-time.After(10 * time.Second):
						fail("op %d: a context goes on after its signal", i)
					}
					c.over = true
				}
			}
		}
		for _, c := range cs {
			if !c.over && c.ctx.Err() != nil {
				fail("op %d: a context ended without a reason", i)
			}
		}
	}
	fmt.Printf("END\n")
	os.Exit(0)
}

func runS(x *vkit.Ctx, c SCase) error {
	ops := ""
	dies := -1
	var open []int
	for i, o := range c.Ops {
		ops += fmt.Sprint(o)
		switch o {
		case 0, 1, 6:
			open = append(open, waitsFor(o))
			x.LabelIf(o == 6, "a context for two signals")
		case 2, 3:
			if len(open) > 0 {
				open = open[1:]
			}
		case 4, 5:
			var left []int
			for _, s := range open {
				if s>>(o-4)&1 == 0 {
					left = append(left, s)
				}
			}
			if len(left) == len(open) && dies < 0 {
				dies = i
			}
			open = left
		}
		if dies >= 0 {
			break
		}
	}
	// signals that are ignored where this runs would be ignored in there
	self, err := os.Executable()
	vkit.Must(err)
	cmd := exec.Command("env", "--default-signal=INT,TERM", self)
	cmd.Env = append(os.Environ(), "P34_SIGNALS="+ops)
	out, err := cmd.CombinedOutput()
	if len(out) > 0 && string(out[:min(4, len(out))]) == "FAIL" {
		return fmt.Errorf("%s", out)
	}
	var ee *exec.ExitError
	killed := errors.As(err, &ee) && ee.Sys().(syscall.WaitStatus).Signaled()
	if err != nil && !killed {
		return fmt.Errorf("%v: %s", err, out)
	}
	if killed != (dies >= 0) {
		return fmt.Errorf("ended by a signal: %v; the signals say %v: %s", killed, dies >= 0, out)
	}
	if killed {
		want := syscall.SIGINT
		if c.Ops[dies] == 5 {
			want = syscall.SIGTERM
		}
		if got := ee.Sys().(syscall.WaitStatus).Signal(); got != want {
			return fmt.Errorf("ended by %v instead of %v: %s", got, want, out)
		}
	}
	x.LabelIf(killed, "signal back to its effect")
	if len(c.Ops) > 2 {
		x.NonTrivial()
	}
	return nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func main() {
	if ops := os.Getenv("P34_SIGNALS"); ops != "" {
		child(ops)
	}
	vkit.Main(vkit.Opts{
		ID: "P34",
		Rule: "drawn groups of tasks (ending at once, when told to, late, with and without errors, queueing others), callers that give up, several runs; flags started and stopped in drawn orders and concurrently; one database run, refused while running, ended and run again with writes in between; signal contexts in processes of their own; under the race detector; " +
			"non-trivial: three or more tasks / a drawn history with concurrent starts / a database run again after a refused run / three or more signal steps",
		Assumptions: []string{"values still queued when a run ends are answered but not written"},
	},
		vkit.P("launch", 12000, 400000, genL, runL),
		vkit.P("flag", 5000, 100000, genF, runF),
		vkit.P("database", 1500, 30000, genD, runD),
		vkit.P("signals", 150, 3000, genS, runS),
	)
}
