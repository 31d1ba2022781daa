// P41: a shortage of descriptors is survived.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

// Wave is a number of connections that are open at the same time.
type Wave struct {
	Over  int  // how many more connections than descriptors
	L     int  // which listener
	API   int  // how many of them go to the API instead
	Lines int  // on each connection to a listener
	When  int  // lines are sent 0 at once, 1 when all are open, 2 half and half
	Hold  int  // milliseconds they stay open
	Reset bool // the API's are reset instead of closed
}

type Case struct {
	Limit     int
	Listeners int
	Waves     []Wave
	Metrics   int
	Handles   int
	Held      bool // interrupted while the last wave's connections are open
	Crowd     bool // then there are more than it can accept
}

func gen(t *rapid.T) Case {
	c := Case{
		Limit:     rapid.IntRange(32, 120).Draw(t, "limit"),
		Listeners: rapid.IntRange(1, 3).Draw(t, "listeners"),
		Metrics:   rapid.IntRange(1, 6).Draw(t, "metrics"),
		Handles:   rapid.SampledFrom([]int{-1, 1, 5}).Draw(t, "handles"),
		Held:      rapid.IntRange(0, 3).Draw(t, "held") == 0,
		Crowd:     rapid.IntRange(0, 2).Draw(t, "crowd") == 2,
	}
	for i := rapid.IntRange(1, 4).Draw(t, "waves"); i > 0; i-- {
		c.Waves = append(c.Waves, Wave{
			Over:  rapid.SampledFrom([]int{30, -10, -4, 0, 3, 30, 100}).Draw(t, "over"),
			L:     rapid.IntRange(0, c.Listeners-1).Draw(t, "l"),
			API:   rapid.SampledFrom([]int{0, 0, 0, 3, 20, 100}).Draw(t, "api"),
			Lines: rapid.IntRange(1, 5).Draw(t, "lines"),
			When:  rapid.IntRange(0, 2).Draw(t, "when"),
			Hold:  rapid.SampledFrom([]int{0, 5, 50, 300}).Draw(t, "hold"),
			Reset: rapid.Bool().Draw(t, "reset"),
		})
	}
	return c
}

var host, exe string

func free(n int) (out []string) {
	var ls []net.Listener
	for i := 0; i < n; i++ {
		l, err := net.Listen("tcp", host+":0")
		vkit.Must(err)
		ls = append(ls, l)
		out = append(out, l.Addr().String())
	}
	for _, l := range ls {
		l.Close()
	}
	return
}

type server struct {
	cmd   *exec.Cmd
	out   *vkit.Buf
	done  chan error
	ports []string
	api   string
}

func (s *server) wait(d time.Duration) (code int, ended bool) {
	select {
	case err := <-s.done:
		s.done <- err
		return s.cmd.ProcessState.ExitCode(), true
	case <-time.After(d):
		return 0, false
	}
}

func (s *server) log() string {
	o := s.out.String()
	if len(o) > 2500 {
		o = o[:700] + "\n...\n" + o[len(o)-1800:]
	}
	return o
}

var errTaken = errors.New("port taken")

func start(x *vkit.Ctx, dir string, c Case) (*server, error) {
	for try := 0; ; try++ {
		addrs := free(c.Listeners + 1)
		var b strings.Builder
		b.WriteString("[main]\nduration = \"1h\"\n")
		for _, p := range addrs[1:] {
			fmt.Fprintf(&b, "[[listeners.graphite]]\naddress = %q\n", p)
		}
		fmt.Fprintf(&b, "[database.files]\ndirectory = %q\nsize = 256\ncap = 10\nfiles = 2\n[database.files.tuning]\nhandles = %d\nbuffer = 10\n[dist.tdigest]\ncompression = 5.0\n[api]\naddress = %q\n", filepath.Join(dir, "data"), c.Handles, addrs[0])
		path := filepath.Join(dir, "rothko.toml")
		vkit.Must(os.WriteFile(path, []byte(b.String()), 0644))
		s := &server{out: &vkit.Buf{}, done: make(chan error, 1), api: addrs[0], ports: addrs[1:]}
		s.cmd = exec.Command("/bin/sh", "-c", fmt.Sprintf("ulimit -n %d; exec %s run %s", c.Limit, exe, path))
		s.cmd.Dir = dir
		s.cmd.Stdout, s.cmd.Stderr = s.out, s.out
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		vkit.Must(s.cmd.Start())
		go func() { s.done <- s.cmd.Wait() }()
		x.Cleanup(func() { s.cmd.Process.Kill() })
		err := s.up(addrs)
		if err == errTaken && try < 5 {
			continue
		}
		return s, err
	}
}

// up waits until it answers on all its addresses. Each is asked until it
// answers and not again: the questions are connections too, and one that is
// still starting cannot do with a shortage of descriptors.
func (s *server) up(addrs []string) error {
	for i := 0; i < 30000; i++ {
		for len(addrs) > 0 {
			k, err := net.Dial("tcp", addrs[0])
			if err != nil {
				break
			}
			k.Close()
			addrs = addrs[1:]
		}
		if len(addrs) == 0 {
			return nil
		}
		if code, ended := s.wait(time.Millisecond); ended {
			if strings.Contains(s.out.String(), "address already in use") {
				return errTaken
			}
			return fmt.Errorf("the server ended with status %d instead of running:\n%s", code, s.log())
		}
	}
	s.cmd.Process.Kill()
	s.wait(time.Minute)
	return fmt.Errorf("the server does not listen:\n%s", s.log())
}

// alive fails if the process has ended.
func (s *server) alive() error {
	if code, ended := s.wait(0); ended {
		return fmt.Errorf("the server ended with status %d:\n%s", code, s.log())
	}
	return nil
}

func run(x *vkit.Ctx, c Case) error {
	dir := x.TempDir()
	s, err := start(x, dir, c)
	if err != nil {
		return err
	}
	sent := map[string]int64{}
	short := false
	for wi, w := range c.Waves {
		n := c.Limit + w.Over
		if w.Over > 0 {
			short = true
		}
		var conns []net.Conn
		var lines []bool
		for i := 0; i < n; i++ {
			addr, isAPI := s.ports[w.L], i < w.API && i < n-1
			if isAPI {
				addr = s.api
			}
			k, err := net.DialTimeout("tcp", addr, 20*time.Second)
			if err != nil {
				if e := s.alive(); e != nil {
					return fmt.Errorf("wave %d: %d connections open, %v", wi, i, e)
				}
				return fmt.Errorf("wave %d: connection %d: %v\n%s", wi, i, err, s.log())
			}
			k.SetDeadline(time.Now().Add(100 * time.Second))
			conns, lines = append(conns, k), append(lines, !isAPI)
			x.Cleanup(func() { k.Close() })
			if !isAPI && (w.When == 0 || w.When == 2 && i%2 == 0) {
				if err := c.say(k, i, w, sent); err != nil {
					return fmt.Errorf("wave %d: %v", wi, err)
				}
			}
		}
		for i, k := range conns {
			if lines[i] && (w.When == 1 || w.When == 2 && i%2 == 1) {
				if err := c.say(k, i, w, sent); err != nil {
					return fmt.Errorf("wave %d: %v", wi, err)
				}
			}
		}
		time.Sleep(time.Duration(w.Hold) * time.Millisecond)
		if err := s.alive(); err != nil {
			return fmt.Errorf("wave %d: with %d connections and %d descriptors, %v", wi, n, c.Limit, err)
		}
		// the ones for the API end, and all lines are read to their end
		var wg sync.WaitGroup
		var mu sync.Mutex
		var bad error
		for i, k := range conns {
			i, k := i, k.(*net.TCPConn)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if !lines[i] {
					if w.Reset {
						k.SetLinger(0)
					}
					k.Close()
					return
				}
				k.CloseWrite()
				if _, err := io.Copy(io.Discard, k); err != nil {
					mu.Lock()
					bad = fmt.Errorf("wave %d: connection %d of %d is not read to its end: %v", wi, i, n, err)
					mu.Unlock()
				}
				k.Close()
			}()
		}
		wg.Wait()
		if bad != nil {
			if e := s.alive(); e != nil {
				return fmt.Errorf("%v; %v", bad, e)
			}
			return fmt.Errorf("%v\n%s", bad, s.log())
		}
		// everything works as before
		tr := &http.Transport{DisableKeepAlives: true}
		resp, err := (&http.Client{Transport: tr, Timeout: 60 * time.Second}).Get("http://" + s.api + "/api/query?query=")
		if err != nil || resp.StatusCode != 200 {
			return fmt.Errorf("after wave %d: a request is answered with %v %v\n%s", wi, resp, err, s.log())
		}
		resp.Body.Close()
	}
	if c.Held {
		held := 3
		if c.Crowd {
			held = c.Limit + 20
		}
		for i := 0; i < held; i++ {
			k, err := net.DialTimeout("tcp", s.ports[i%len(s.ports)], 20*time.Second)
			vkit.Must(err)
			defer k.Close()
			k.Write([]byte("unfinished"))
		}
	}
	vkit.Must(s.cmd.Process.Signal(syscall.SIGINT))
	code, ended := s.wait(60 * time.Second)
	if !ended {
		s.cmd.Process.Kill()
		s.wait(10 * time.Second)
		return fmt.Errorf("the interrupted server did not exit:\n%s", s.log())
	}
	if code != 0 {
		return fmt.Errorf("the interrupted server exited with status %d:\n%s", code, s.log())
	}
	db := store.Open(filepath.Join(dir, "data"), store.Cfg{Size: 256, Cap: 10, Files: 1000, Handles: 10, Workers: 1})
	defer db.Close()
	if err := db.DB.PopulateMetrics(context.Background()); err != nil {
		return err
	}
	for m, w := range sent {
		vals, err := db.All(m)
		if err != nil {
			return fmt.Errorf("%q, of which %d values were sent: %v\n%s", m, w, err, s.log())
		}
		var g int64
		for _, v := range vals {
			var r data.Record
			if err := r.Unmarshal(v.Data); err != nil {
				return err
			}
			g += r.Observations
		}
		if g != w {
			return fmt.Errorf("%q: stored %d values, sent %d\n%s", m, g, w, s.log())
		}
	}
	x.LabelIf(strings.Contains(s.out.String(), "too many open files"), "ran out of descriptors")
	if short {
		x.NonTrivial()
	}
	return nil
}

// say sends the lines of connection i.
func (c Case) say(k net.Conn, i int, w Wave, sent map[string]int64) error {
	var b bytes.Buffer
	for j := 0; j < w.Lines; j++ {
		m := fmt.Sprintf("m%d", (i+j)%c.Metrics)
		fmt.Fprintf(&b, "%s %d 0\n", m, i)
		sent[m]++
	}
	_, err := k.Write(b.Bytes())
	return err
}

// Long is a shortage of some duration on one listener.
type Long struct {
	Limit, Seconds int
}

func long(x *vkit.Ctx, c Long) error {
	dir := x.TempDir()
	s, err := start(x, dir, Case{Limit: c.Limit, Listeners: 1, Handles: 2})
	if err != nil {
		return err
	}
	var conns []net.Conn
	for i := 0; i < c.Limit+20; i++ {
		k, err := net.DialTimeout("tcp", s.ports[0], 20*time.Second)
		if err != nil {
			return fmt.Errorf("connection %d: %v\n%s", i, err, s.log())
		}
		conns = append(conns, k)
		x.Cleanup(func() { k.Close() })
	}
	time.Sleep(time.Duration(c.Seconds) * time.Second)
	if err := s.alive(); err != nil {
		return fmt.Errorf("with %d connections for %d s, %v", len(conns), c.Seconds, err)
	}
	for _, k := range conns {
		k.Close()
	}
	// everything works as before, at once
	k, err := net.DialTimeout("tcp", s.ports[0], 20*time.Second)
	vkit.Must(err)
	defer k.Close()
	k.Write([]byte("fresh 1 0\n"))
	k.(*net.TCPConn).CloseWrite()
	k.SetDeadline(time.Now().Add(c.bound()))
	if _, err := io.Copy(io.Discard, k); errors.Is(err, os.ErrDeadlineExceeded) {
		return fmt.Errorf("%v after a shortage of %d s, a new connection is not served\n%s", c.bound(), c.Seconds, s.log())
	}
	vkit.Must(s.cmd.Process.Signal(syscall.SIGINT))
	if code, ended := s.wait(60 * time.Second); !ended || code != 0 {
		s.cmd.Process.Kill()
		s.wait(10 * time.Second)
		return fmt.Errorf("the interrupted server ended %v with status %d:\n%s", ended, code, s.log())
	}
	if strings.Contains(s.out.String(), "too many open files") {
		x.NonTrivial()
	}
	return nil
}

// bound is how long a connection may have to wait after the shortage: a delay
// that grows with the shortage is beyond it.
func (c Long) bound() time.Duration { return time.Duration(c.Seconds) * time.Second / 3 }

func main() {
	vkit.Main(vkit.Opts{
		ID: "P41",
		Rule: "the server binary built from the tree, run with a drawn limit of descriptors; one to four waves of connections to its listeners and API, from a few less to many more than it can open, with lines sent at drawn moments and the connections held open for a while; then the server must still run, have read every connection to its end, answer, exit with success when interrupted, and have stored every value; " +
			"non-trivial: more connections than descriptors",
		HangS:  170,
		Shards: 8,
		Init: func(dir string) {
			p := os.Getpid()
			host = fmt.Sprintf("127.%d.%d.%d", 192+p>>14&31, p>>7&127, 1+p&127)
			exe = filepath.Join(dir, "rothko")
			cmd := exec.Command("go", "build", "-o", exe, "github.com/vivint/rothko/bin/rothko")
			cmd.Dir = filepath.Join(os.Getenv("VERIF_ROOT"), "harness")
			if out, err := cmd.CombinedOutput(); err != nil {
				fmt.Fprintf(os.Stderr, "building the server: %v\n%s", err, out)
				os.Exit(3)
			}
		},
	},
		vkit.P("waves", 160, 3000, gen, run),
		vkit.P("long", 2, 40, func(t *rapid.T) Long {
			return Long{rapid.IntRange(32, 60).Draw(t, "limit"), rapid.SampledFrom([]int{24, 24, 24, 45}).Draw(t, "seconds")}
		}, long),
	)
}
