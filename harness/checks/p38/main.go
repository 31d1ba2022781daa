// P38: nothing is left behind.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/signal"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/database/files/zzverif/fakeapi"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/dump"
	"github.com/vivint/rothko/internal/junk"
	"github.com/vivint/rothko/listener/graphite"
	"pgregory.net/rapid"
)

// Step is one use of the running parts.
type Step struct {
	Kind string
	N    int // lines, tasks, metrics
	How  int
	Wait int // a moment before going on
}

type Case struct {
	Cfg    store.Cfg
	Steps  []Step
	Rounds int
	Period int   // of dumps, in milliseconds
	Left   int   // connections still open when everything is ended
	Stop   []int // the order of ending
	Lives  int
}

var kinds = []string{"lines", "lines", "lines", "ask", "ask", "ask", "queue", "query", "signal", "launch", "dump", "list", "again", "taken", "broken"}

func gen(t *rapid.T) Case {
	c := Case{Rounds: 3, Period: rapid.SampledFrom([]int{1, 5, 3600000}).Draw(t, "period"), Left: rapid.IntRange(0, 4).Draw(t, "left"), Lives: rapid.IntRange(1, 2).Draw(t, "lives")}
	c.Cfg = store.Cfg{Size: rapid.SampledFrom([]int{128, 512}).Draw(t, "size"), Cap: rapid.SampledFrom([]int{2, 10}).Draw(t, "cap"), Files: rapid.IntRange(1, 3).Draw(t, "files"),
		Buffer: rapid.SampledFrom([]int{0, 1, 10}).Draw(t, "buffer"), Workers: rapid.IntRange(1, 4).Draw(t, "workers"), Handles: rapid.SampledFrom([]int{-1, 1, 3, 0}).Draw(t, "handles"), Drop: rapid.Bool().Draw(t, "drop")}
	for n := rapid.IntRange(1, 8).Draw(t, "steps"); n > 0; n-- {
		c.Steps = append(c.Steps, Step{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), N: rapid.IntRange(0, 6).Draw(t, "n"), How: rapid.IntRange(0, 7).Draw(t, "how"), Wait: rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "wait")})
	}
	c.Stop = rapid.Permutation([]int{0, 1, 2, 3}).Draw(t, "stop")
	// the database outlives the dumper
	var db, d int
	for i, p := range c.Stop {
		if p == 0 {
			db = i
		} else if p == 1 {
			d = i
		}
	}
	if db < d {
		c.Stop[db], c.Stop[d] = 1, 0
	}
	return c
}

var host string

func freeAddr() string {
	l, err := net.Listen("tcp", host+":0")
	vkit.Must(err)
	defer l.Close()
	return l.Addr().String()
}

// held counts what the process holds: goroutines, sockets, and files or
// mappings of files below dir.
func held(dir string) (goroutines, sockets int, below []string) {
	es, err := os.ReadDir("/proc/self/fd")
	vkit.Must(err)
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil {
			continue
		}
		if strings.HasPrefix(l, "socket:") {
			sockets++
		}
		if strings.HasPrefix(l, dir+"/") || l == dir {
			below = append(below, "descriptor of "+l)
		}
	}
	maps, err := os.ReadFile("/proc/self/maps")
	vkit.Must(err)
	for _, l := range bytes.Split(maps, []byte("\n")) {
		if i := bytes.Index(l, []byte(dir+"/")); i >= 0 {
			below = append(below, "mapping of "+string(l[i:]))
		}
	}
	return runtime.NumGoroutine(), sockets, below
}

// settle waits until at most the given goroutines and sockets are there.
func settle(dir string, goroutines, sockets int, files bool) error {
	var g, s int
	var b []string
	for i := 0; i < 4000; i++ {
		g, s, b = held(dir)
		if g <= goroutines && s <= sockets && (!files || len(b) == 0) {
			return nil
		}
		if i > 50 {
			time.Sleep(5 * time.Millisecond)
		} else {
			time.Sleep(100 * time.Microsecond)
		}
	}
	if g > goroutines {
		buf := make([]byte, 1<<20)
		return fmt.Errorf("%d goroutines, not %d\n%s", g, goroutines, cut(string(buf[:runtime.Stack(buf, true)])))
	}
	if s > sockets {
		return fmt.Errorf("%d sockets, not %d", s, sockets)
	}
	return fmt.Errorf("%q", b)
}

func cut(s string) string {
	if len(s) > 6000 {
		return s[:6000]
	}
	return s
}

// calm waits until the number of goroutines no longer changes.
func calm(dir string) (int, int) {
	g, s, _ := held(dir)
	for same := 0; same < 8; {
		time.Sleep(500 * time.Microsecond)
		g2, s2, _ := held(dir)
		if g2 == g && s2 == s {
			same++
		} else {
			g, s, same = g2, s2, 0
		}
	}
	return g, s
}

// growth is more being held after several rounds than after one.
type growth struct{ error }

func (g growth) Error() string {
	return fmt.Sprintf("after several rounds of the same uses, compared with one: %v", g.error)
}

type life struct {
	x      *vkit.Ctx
	c      Case
	dir    string
	db     *files.DB
	w      *data.Writer
	d      *dump.Dumper
	addr   string
	hs     *httptest.Server
	stamp  int64
	left   []net.Conn
	counts map[string]int
}

func (l *life) dial(addr string) (*net.TCPConn, error) {
	c, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return nil, err
	}
	c.SetDeadline(time.Now().Add(30 * time.Second))
	return c.(*net.TCPConn), nil
}

// end closes a connection in one of several ways.
func end(c *net.TCPConn, how int) {
	switch how % 4 {
	case 0:
		c.Close()
	case 1:
		c.SetLinger(0)
		c.Close()
	case 2:
		c.CloseWrite()
		io.Copy(io.Discard, c)
		c.Close()
	case 3:
		c.CloseRead()
		c.Close()
	}
}

func (l *life) step(s Step) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	switch s.Kind {
	case "lines":
		c, err := l.dial(l.addr)
		if err != nil {
			return fmt.Errorf("connecting to the listener: %v", err)
		}
		for i := 0; i < s.N; i++ {
			fmt.Fprintf(c, "m.%d %d %d\n", i%3, i, i)
		}
		switch s.How {
		case 5:
			fmt.Fprintf(c, "m.1 5")
		case 6:
			fmt.Fprintf(c, "not a line\n\n\n")
		case 7:
			c.Write(bytes.Repeat([]byte("x"), 70000))
		}
		end(c, s.How)
	case "ask":
		c, err := l.dial(l.hs.Listener.Addr().String())
		if err != nil {
			return fmt.Errorf("connecting to the server: %v", err)
		}
		uri := []string{"/api/render?metric=m.1&width=800&height=300", "/api/query?query=m", "/api/render?metric=nothing", "/api/render?metric=m.0&duration=1000h&samples=50", "/index.html", "/api/%zz"}[s.N%6]
		switch s.How {
		case 4: // half a request
			fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: x", uri)
		case 5: // not waiting for the answer
			fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: x\r\n\r\n", uri)
		case 6: // several on one connection, unread
			for i := 0; i < 5; i++ {
				fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: x\r\nAccept: application/json\r\n\r\n", uri)
			}
		case 7: // a body that does not come
			fmt.Fprintf(c, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\nabc", uri)
		default:
			fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", uri)
			io.Copy(io.Discard, c)
		}
		end(c, []int{0, 1, 0, 3}[s.How%4])
	case "queue":
		for i := 0; i < s.N; i++ {
			qctx, qcancel := context.WithCancel(ctx)
			if s.How%2 == 1 {
				qcancel()
			}
			l.stamp++
			done := make(chan bool, 1)
			var cb func(bool, error)
			if s.How%4 < 2 {
				cb = func(ok bool, err error) { done <- ok }
			}
			err := l.db.Queue(qctx, fmt.Sprintf("q.%d", i), l.stamp, l.stamp+1, store.Payload(s.How*100, byte(i)), cb)
			if err == nil && cb != nil {
				select {
				case <-done:
				case <-time.After(20 * time.Second):
					qcancel()
					return fmt.Errorf("a queued value was not answered")
				}
			}
			qcancel()
		}
	case "query":
		// ended early, by the callback's failure, by its context, or not
		stop := errors.New("enough")
		for i := 0; i < s.N; i++ {
			l.db.Query(ctx, fmt.Sprintf("%c.%d", "qm"[i%2], i/2), 1<<62, nil, func(ctx context.Context, _, _ int64, _ []byte) (bool, error) {
				switch s.How % 4 {
				case 0:
					return false, nil
				case 1:
					return true, stop
				case 2:
					cancel()
				}
				return true, nil
			})
			l.db.QueryLatest(ctx, "nothing", nil)
		}
	case "signal":
		for i := 0; i <= s.N; i++ {
			parent, pcancel := context.WithCancel(ctx)
			sctx, scancel := junk.WithSignal(parent, syscall.SIGUSR1)
			switch s.How % 3 {
			case 0:
				scancel()
			case 1:
				pcancel()
			case 2:
				vkit.Must(syscall.Kill(os.Getpid(), syscall.SIGUSR1))
			}
			select {
			case <-sctx.Done():
			case <-time.After(20 * time.Second):
				pcancel()
				return fmt.Errorf("the signal context did not end")
			}
			if s.How < 5 {
				scancel()
			}
			pcancel()
		}
	case "launch":
		var la junk.Launcher
		for i := 0; i < s.N; i++ {
			i := i
			la.Queue(func(ctx context.Context) error {
				if i == s.How {
					return errors.New("failed")
				}
				if i > s.How {
					<-ctx.Done()
				}
				return nil
			})
		}
		if s.N <= s.How {
			time.AfterFunc(time.Millisecond, cancel)
		}
		la.Run(ctx)
	case "dump":
		if s.How == 1 {
			cancel()
		}
		for i := 0; i < s.N; i++ {
			l.w.Add(ctx, fmt.Sprintf("m.%d", i), 1, nil)
		}
		l.d.Dump(ctx, l.w)
	case "list":
		if s.How == 1 {
			cancel()
		}
		l.db.PopulateMetrics(ctx)
		l.db.Metrics(ctx, func(string) (bool, error) { return s.How > 2, nil })
	case "again":
		if err := l.db.Run(ctx); err == nil {
			return fmt.Errorf("a second run of the database ended without an error")
		}
	case "taken":
		if err := graphite.New(l.addr).Run(ctx, l.w); err == nil {
			return fmt.Errorf("listening on a taken address ended without an error")
		}
	case "broken":
		d := files.New(l.dir+"/file/not/a/directory", l.c.Cfg.Options())
		go func() { time.Sleep(time.Millisecond); cancel() }()
		d.Run(ctx)
	}
	l.counts[s.Kind]++
	if s.Wait > 0 {
		time.Sleep(time.Duration(s.Wait) * time.Millisecond)
	}
	return nil
}

func (l *life) live() error {
	c := l.c
	g0, s0 := calm(l.dir)
	params := tdigest.Params{Compression: 20}
	l.db, l.w = files.New(l.dir+"/db", c.Cfg.Options()), data.NewWriter(params)
	l.d = dump.New(dump.Options{DB: l.db, Period: time.Duration(c.Period) * time.Millisecond})
	srv := api.New(l.db, http.NotFoundHandler(), api.Options{})
	var cancels [3]func()
	var dones [3]chan error
	run := func(i int, f func(ctx context.Context) error) {
		ctx, cancel := context.WithCancel(context.Background())
		cancels[i], dones[i] = cancel, make(chan error, 1)
		go func() { dones[i] <- f(ctx) }()
	}
	defer func() {
		for _, c := range cancels {
			if c != nil {
				c()
			}
		}
	}()
	run(0, l.db.Run)
	run(1, func(ctx context.Context) error { return l.d.Run(ctx, l.w) })
	// somebody else may take the port meanwhile
	for try := 0; ; try++ {
		l.addr = freeAddr()
		run(2, func(ctx context.Context) error { return graphite.New(l.addr).Run(ctx, l.w) })
		up := false
		for i := 0; i < 5000 && !up; i++ {
			if k, err := net.Dial("tcp", l.addr); err == nil {
				k.Close()
				up = true
				break
			}
			select {
			case err := <-dones[2]:
				if try > 5 {
					vkit.Must(fmt.Errorf("listening on %s: %v", l.addr, err))
				}
				i = 5000
			case <-time.After(time.Millisecond):
			}
		}
		if up {
			break
		}
		cancels[2]()
	}
	l.hs = httptest.NewUnstartedServer(srv)
	l.hs.Listener.Close()
	var err error
	l.hs.Listener, err = net.Listen("tcp", host+":0")
	vkit.Must(err)
	l.hs.Config.ErrorLog = quiet
	l.hs.Start()
	rounds := func() error {
		for _, s := range c.Steps {
			if err := l.step(s); err != nil {
				return err
			}
		}
		g1, s1 := calm(l.dir)
		for r := 1; r < c.Rounds; r++ {
			for _, s := range c.Steps {
				if err := l.step(s); err != nil {
					return err
				}
			}
		}
		if err := settle(l.dir, g1, s1, false); err != nil {
			return growth{err}
		}
		return nil
	}
	err = rounds()
	if _, ok := err.(growth); ok {
		// something may have been slow to start: what is left behind by
		// every round keeps growing
		err = rounds()
	}
	if err != nil {
		return err
	}
	// some connections remain when everything ends
	for i := 0; i < c.Left; i++ {
		k, err := l.dial(l.addr)
		if err != nil {
			return fmt.Errorf("connecting to the listener: %v", err)
		}
		defer k.Close()
		fmt.Fprintf(k, "m.1 5 1\nm.2")
		if i%2 == 1 {
			time.Sleep(200 * time.Microsecond)
		}
		l.left = append(l.left, k)
	}
	for _, i := range c.Stop {
		if i == 3 {
			l.hs.CloseClientConnections()
			l.hs.Close()
			continue
		}
		cancels[i]()
		select {
		case err := <-dones[i]:
			if err != nil && !errors.Is(err, context.Canceled) {
				return fmt.Errorf("%s ended with %v", []string{"the database", "the dumper", "the listener"}[i], err)
			}
		case <-time.After(20 * time.Second):
			return fmt.Errorf("%s did not end", []string{"the database", "the dumper", "the listener"}[i])
		}
	}
	for _, k := range l.left {
		k.SetDeadline(time.Now().Add(20 * time.Second))
		if _, err := k.Read(make([]byte, 1)); err == nil || errors.Is(err, os.ErrDeadlineExceeded) {
			return fmt.Errorf("a connection is still open after the listener stopped: %v", err)
		}
		k.Close()
	}
	// values can be read whether or not the database runs, and what that opens
	// is held until a run ends
	for _, i := range c.Stop {
		if i == 3 {
			break
		}
		if i == 0 {
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			l.db.Run(ctx)
		}
	}
	if err := settle(l.dir, g0, s0, true); err != nil {
		return fmt.Errorf("after everything ended: %v", err)
	}
	return nil
}

func run(x *vkit.Ctx, c Case) error {
	dir := x.TempDir()
	vkit.Must(os.WriteFile(dir+"/file", nil, 0644))
	counts := map[string]int{}
	for i := 0; i < c.Lives; i++ {
		l := &life{x: x, c: c, dir: dir, counts: counts, stamp: int64(i) << 32}
		if err := l.live(); err != nil {
			return err
		}
	}
	for k, n := range counts {
		x.LabelN(k, n)
	}
	x.LabelIf(c.Left > 0, "connections open at the end")
	if len(counts) > 1 || c.Left > 0 {
		x.NonTrivial()
	}
	return nil
}

// Mem is uses repeated with names that are never used again.
type Mem struct {
	Cfg   store.Cfg
	Kinds []string
	Salt  int
}

var memKinds = []string{"unknown", "refused", "captured", "iterated", "searched", "rendered", "connected", "observed", "rotated", "signal", "static", "built"}

func genMem(t *rapid.T) Mem {
	m := Mem{Salt: rapid.IntRange(0, 1<<20).Draw(t, "salt"), Kinds: rapid.SliceOfN(rapid.SampledFrom(memKinds), 1, 3).Draw(t, "kinds")}
	m.Cfg = store.Cfg{Size: 128, Cap: rapid.SampledFrom([]int{1, 3}).Draw(t, "cap"), Files: rapid.IntRange(1, 3).Draw(t, "files"),
		Buffer: rapid.SampledFrom([]int{0, 10}).Draw(t, "buffer"), Workers: rapid.IntRange(1, 3).Draw(t, "workers"), Handles: rapid.SampledFrom([]int{-1, 1, 3, 100}).Draw(t, "handles"), Drop: rapid.Bool().Draw(t, "drop")}
	return m
}

func heap() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC() // twice for what pools keep, and once for finalizers
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func memory(x *vkit.Ctx, c Mem) error {
	ctx := context.Background()
	db := store.Open(x.TempDir(), c.Cfg)
	defer db.Close()
	params := tdigest.Params{Compression: 20}
	w := data.NewWriter(params)
	srv := api.New(db.DB, http.NotFoundHandler(), api.Options{})
	if _, err := db.Put("known", 1, 2, []byte("x")); err != nil {
		return err
	}
	var addr string
	for _, k := range c.Kinds {
		if k == "connected" && addr == "" {
			lctx, cancel := context.WithCancel(ctx)
			done := make(chan error, 1)
			addr = freeAddr()
			go func() { done <- graphite.New(addr).Run(lctx, w) }()
			defer func() { cancel(); <-done }()
		}
	}
	var stamp int64 = 1 << 40
	do := func(kind string, i int) error {
		name := fmt.Sprintf("%s.%d.%d.%s", kind, c.Salt, i, strings.Repeat("long", 5))
		switch kind {
		case "unknown":
			db.All(name)
			db.Latest(name, nil)
		case "refused":
			db.Put("known", 0, 1, []byte("x"))
		case "captured":
			w.Add(ctx, name, 1, []byte(name))
			if i%50 == 49 {
				w.Capture(ctx, func(context.Context, string, data.Record) bool { return true })
			}
		case "iterated":
			w.Iterate(ctx, func(context.Context, string, data.Record) bool { return true })
		case "searched":
			if got := fakeapi.Ask(srv, fakeapi.Req{Method: "GET", URI: "/api/query?query=" + name}); got.Code != 200 {
				return fmt.Errorf("searching: %d", got.Code)
			}
		case "rendered":
			fakeapi.Ask(srv, fakeapi.Req{Method: "GET", URI: "/api/render?metric=" + name})
		case "connected":
			if i%20 != 0 {
				return nil
			}
			for try := 0; ; try++ {
				k, err := net.Dial("tcp", addr)
				if err != nil {
					if try > 2000 {
						vkit.Must(err)
					}
					time.Sleep(time.Millisecond)
					continue
				}
				fmt.Fprintf(k, "%s 5 1\n", name)
				k.(*net.TCPConn).CloseWrite()
				k.SetDeadline(time.Now().Add(20 * time.Second))
				io.Copy(io.Discard, k)
				k.Close()
				break
			}
			w.Capture(ctx, func(context.Context, string, data.Record) bool { return true })
		case "observed":
			for j := 0; j < 10; j++ {
				w.Add(ctx, "known", float64(i*j), []byte("id"))
			}
		case "rotated":
			stamp += 2
			if ok, err := db.Put("known", stamp, stamp+1, []byte("x")); err != nil || (!ok && !c.Cfg.Drop) {
				return fmt.Errorf("storing: %v %v", ok, err)
			}
		case "signal":
			_, cancel := junk.WithSignal(ctx, syscall.SIGUSR1)
			cancel()
			// the runtime keeps the descriptions of goroutines for reuse: as
			// many as there were at once
			for try := 0; runtime.NumGoroutine() > 60 && try < 1000; try++ {
				time.Sleep(20 * time.Microsecond)
			}
		case "static":
			fakeapi.Ask(srv, fakeapi.Req{Method: "GET", URI: "/" + name})
		case "built":
			d, err := params.New()
			vkit.Must(err)
			d.Observe(float64(i))
			if _, err := params.Unmarshal(d.Marshal(nil)); err != nil {
				return err
			}
		}
		return nil
	}
	const warm, n = 1000, 4000
	var before int64
	for i := 0; i < warm+n; i++ {
		if i == warm {
			before = heap()
		}
		for _, k := range c.Kinds {
			if err := do(k, i); err != nil {
				return err
			}
		}
	}
	w.Capture(ctx, func(context.Context, string, data.Record) bool { return true })
	grown := heap() - before
	for try := 0; grown > 200000 && try < 20; try++ {
		// what ends by itself may need a moment
		time.Sleep(50 * time.Millisecond)
		grown = heap() - before
	}
	if grown > 200000 {
		return fmt.Errorf("%d uses of %q, with names not used again, keep %d bytes", n, c.Kinds, grown)
	}
	for _, k := range c.Kinds {
		x.Label("memory: " + k)
	}
	x.NonTrivial()
	return nil
}

var quiet = log.New(io.Discard, "", 0)

func main() {
	vkit.Main(vkit.Opts{
		ID: "P38",
		Rule: "one or two lives of the connected parts (listener, writer, dumper, files database, server) in this process, with a drawn list of uses done three times: connections sending lines and ending in several ways, requests (complete, half, unread, with a body that never comes) whose client goes away, queued values with contexts ended, queries ended early, signal contexts, launched tasks, dumps, listings, second runs, taken addresses, impossible directories; then ended in a drawn order with connections still open; goroutines, sockets, descriptors and mappings are compared; and uses with 4000 names not used again, after which the heap is as before; " +
			"non-trivial: at least two kinds of use, or connections open at the end",
		Assumptions: []string{"the database outlives the dumper, as in the program", "goroutines that end by themselves do so within 20 s"},
		HangS:       120,
		Shards:      8,
		Init: func(string) {
			p := os.Getpid()
			host = fmt.Sprintf("127.%d.%d.%d", 128+p>>14&63, p>>7&127, 1+p&127)
			// what the process starts once and keeps
			ch := make(chan os.Signal, 1)
			signal.Notify(ch, syscall.SIGUSR2)
			signal.Stop(ch)
			signal.Ignore(syscall.SIGUSR1)
			l, err := net.Listen("tcp", host+":0")
			vkit.Must(err)
			l.Close()
		},
	},
		vkit.P("lives", 1200, 20000, gen, run),
		vkit.P("memory", 150, 3000, genMem, memory),
	)
}
