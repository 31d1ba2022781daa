// P19: the server process shuts down cleanly without losing data.
package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

// Send is N lines for a metric, to one of the listeners.
type Send struct {
	M, L int
	N    int
	Base int
}

// Life is one run of the process.
type Life struct {
	Sends   []Send
	Query   bool // an API request is made
	Idle    bool // connections stay open when it is interrupted
	Settled int  // milliseconds until it is interrupted
}

type Case struct {
	Listeners int
	Period    string
	Auth      bool
	Size      int
	Lives     []Life
}

var metrics = []string{"a", "a.b", "web.latency", "z/1"}

func gen(t *rapid.T) Case {
	c := Case{
		Listeners: rapid.IntRange(1, 3).Draw(t, "listeners"),
		Period:    rapid.SampledFrom([]string{"1h", "10m", "20ms", "1ms", "300ms"}).Draw(t, "period"),
		Auth:      rapid.Bool().Draw(t, "auth"),
		Size:      rapid.SampledFrom([]int{64, 256}).Draw(t, "size"),
	}
	for i := rapid.IntRange(1, 3).Draw(t, "lives"); i > 0; i-- {
		l := Life{Query: rapid.Bool().Draw(t, "query"), Idle: rapid.Bool().Draw(t, "idle"), Settled: rapid.SampledFrom([]int{0, 0, 5, 40}).Draw(t, "settled")}
		for j := rapid.IntRange(0, 5).Draw(t, "sends"); j > 0; j-- {
			l.Sends = append(l.Sends, Send{M: rapid.IntRange(0, len(metrics)-1).Draw(t, "m"), L: rapid.IntRange(0, c.Listeners-1).Draw(t, "l"), N: rapid.SampledFrom([]int{1, 2, 50}).Draw(t, "n"), Base: rapid.IntRange(-1000, 1000).Draw(t, "base")})
		}
		c.Lives = append(c.Lives, l)
	}
	return c
}

var host, binary string

func free(n int) (out []string) {
	var ls []net.Listener
	for i := 0; i < n; i++ {
		l, err := net.Listen("tcp", host+":0")
		vkit.Must(err)
		ls = append(ls, l)
		out = append(out, l.Addr().String())
	}
	for _, l := range ls {
		l.Close()
	}
	return
}

type server struct {
	cmd   *exec.Cmd
	out   *vkit.Buf
	done  chan error
	ports []string
	api   string
	auth  bool
}

func (c Case) config(dir string, ports []string, api string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "[main]\n\tduration = %q\n", c.Period)
	for _, p := range ports {
		fmt.Fprintf(&b, "[[listeners.graphite]]\n\taddress = %q\n", p)
	}
	fmt.Fprintf(&b, "[database.files]\n\tdirectory = %q\n\tsize = %d\n\tcap = 400\n\tfiles = 1000\n[database.files.tuning]\n\tbuffer = 100\n", dir, c.Size)
	fmt.Fprintf(&b, "[dist.tdigest]\n\tcompression = 5.0\n[api]\n\taddress = %q\n", api)
	if c.Auth {
		b.WriteString("[api.security]\n\tusername = \"u\"\n\tpassword = \"p\"\n")
	}
	return b.String()
}

func spawn(x *vkit.Ctx, dir, conf string) *server {
	path := filepath.Join(dir, "rothko.toml")
	vkit.Must(os.WriteFile(path, []byte(conf), 0644))
	s := &server{out: &vkit.Buf{}, done: make(chan error, 1)}
	s.cmd = exec.Command(binary, "run", path)
	s.cmd.Dir = dir
	s.cmd.Stdout, s.cmd.Stderr = s.out, s.out
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	vkit.Must(s.cmd.Start())
	go func() { s.done <- s.cmd.Wait() }()
	x.Cleanup(func() { s.cmd.Process.Kill() })
	return s
}

// wait waits for the process to end by itself.
func (s *server) wait(d time.Duration) (code int, ended bool) {
	select {
	case err := <-s.done:
		s.done <- err
		return s.cmd.ProcessState.ExitCode(), true
	case <-time.After(d):
		return 0, false
	}
}

func (s *server) log() string {
	o := s.out.String()
	if len(o) > 1500 {
		o = o[:700] + "\n...\n" + o[len(o)-700:]
	}
	return o
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var errTaken = errors.New("port taken")

// up waits until it answers on all its addresses.
func (s *server) up(addrs []string) error {
	for i := 0; i < 30000; i++ {
		ok := true
		for _, a := range addrs {
			k, err := net.Dial("tcp", a)
			if err != nil {
				ok = false
				break
			}
			k.Close()
		}
		if ok {
			return nil
		}
		if code, ended := s.wait(time.Millisecond); ended {
			if strings.Contains(s.out.String(), "address already in use") {
				return errTaken
			}
			return fmt.Errorf("the server ended with status %d instead of running:\n%s", code, s.log())
		}
	}
	s.cmd.Process.Kill()
	s.wait(time.Minute)
	return fmt.Errorf("the server does not listen:\n%s", s.log())
}

func (s *server) get(path string) (int, []byte, error) {
	req, err := http.NewRequest("GET", "http://"+s.api+path, nil)
	vkit.Must(err)
	if s.auth {
		req.SetBasicAuth("u", "p")
	}
	req.Header.Set("Accept", "application/json")
	tr := &http.Transport{DisableKeepAlives: true}
	resp, err := (&http.Client{Transport: tr, Timeout: 30 * time.Second}).Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, err
}

func (c Case) start(x *vkit.Ctx, dir string) (*server, error) {
	for try := 0; ; try++ {
		addrs := free(c.Listeners + 1)
		s := spawn(x, dir, c.config(filepath.Join(dir, "data"), addrs[1:], addrs[0]))
		s.api, s.ports, s.auth = addrs[0], addrs[1:], c.Auth
		err := s.up(addrs)
		if err == errTaken && try < 5 {
			continue
		}
		return s, err
	}
}

func run(x *vkit.Ctx, c Case) error {
	dir := x.TempDir()
	type sum struct {
		n        int64
		min, max float64
	}
	sent := map[string]*sum{}
	stored := map[string]bool{}
	interrupt := func(s *server) error {
		vkit.Must(s.cmd.Process.Signal(syscall.SIGINT))
		code, ended := s.wait(40 * time.Second)
		if !ended {
			s.cmd.Process.Signal(syscall.SIGQUIT)
			s.wait(10 * time.Second)
			s.cmd.Process.Kill()
			s.wait(10 * time.Second)
			return fmt.Errorf("the interrupted server did not exit:\n%s", s.log())
		}
		if code != 0 {
			return fmt.Errorf("the interrupted server exited with status %d:\n%s", code, s.log())
		}
		return nil
	}
	// check compares the data directory with what was sent
	check := func() error {
		db := store.Open(filepath.Join(dir, "data"), store.Cfg{Size: c.Size, Cap: 400, Files: 1000, Handles: 10, Workers: 1})
		defer db.Close()
		if err := db.DB.PopulateMetrics(context.Background()); err != nil {
			return err
		}
		names, err := db.Names(-1)
		if err != nil {
			return err
		}
		for _, n := range names {
			if sent[n] == nil {
				return fmt.Errorf("the data directory lists %q, never sent", n)
			}
		}
		for m, w := range sent {
			// a dump that happens while lines arrive may lose some of them,
			// as documented
			short := c.Period == "20ms" || c.Period == "1ms" || c.Period == "300ms"
			if short && !contains(names, m) {
				continue
			}
			stored[m] = true
			vals, err := db.All(m)
			if err != nil {
				return fmt.Errorf("%q, of which %d values were sent: %v", m, w.n, err)
			}
			var g sum
			prev := int64(1<<63 - 1)
			for i, v := range vals {
				var r data.Record
				if err := r.Unmarshal(v.Data); err != nil {
					return fmt.Errorf("%q: %v", m, err)
				}
				if r.EndTime > prev {
					return fmt.Errorf("%q: a record ends at %d, the next starts at %d", m, r.EndTime, prev)
				}
				prev = r.StartTime
				g.n += r.Observations
				if i == 0 || r.Min < g.min {
					g.min = r.Min
				}
				if i == 0 || r.Max > g.max {
					g.max = r.Max
				}
			}
			if g != *w && !(short && g.n <= w.n && g.n > 0 && g.min >= w.min && g.max <= w.max) {
				return fmt.Errorf("%q: stored %d values from %v to %v, sent %d from %v to %v", m, g.n, g.min, g.max, w.n, w.min, w.max)
			}
		}
		return nil
	}
	for li, l := range c.Lives {
		s, err := c.start(x, dir)
		if err != nil {
			return fmt.Errorf("life %d: %v", li, err)
		}
		// what earlier lives stored is served
		if li > 0 {
			// the listing is filled in the background
			var b []byte
			okList := false
			var want []string
			for m := range stored {
				want = append(want, m)
			}
			sort.Strings(want)
			if want == nil {
				okList = true
			}
			for i := 0; i < 3000 && !okList; i++ {
				var code int
				code, b, err = s.get("/api/query?query=&results=100")
				if err != nil || code != 200 {
					return fmt.Errorf("life %d: listing: %d %v %s", li, code, err, b)
				}
				var got []string
				if json.Unmarshal(b, &got) == nil {
					sort.Strings(got)
					okList = fmt.Sprint(got) == fmt.Sprint(want)
				}
				if !okList && i > 10 {
					time.Sleep(5 * time.Millisecond)
				}
			}
			if !okList {
				return fmt.Errorf("life %d: after a restart the server lists %s, sent were %q", li, b, want)
			}
			for m := range stored {
				code, b, err := s.get("/api/render?duration=1h&width=1000&metric=" + url.QueryEscape(m))
				if err != nil || code != 200 {
					return fmt.Errorf("life %d: render of %q: %d %v %.200s", li, m, code, err, b)
				}
				var r struct {
					Metric  string        `json:"metric"`
					Columns []interface{} `json:"columns"`
				}
				if err := json.Unmarshal(b, &r); err != nil || r.Metric != m || len(r.Columns) == 0 {
					return fmt.Errorf("life %d: render of %q gave %v %.200s", li, m, err, b)
				}
			}
		}
		var open []net.Conn
		for _, q := range l.Sends {
			conn, err := net.DialTimeout("tcp", s.ports[q.L], 20*time.Second)
			if err != nil {
				return fmt.Errorf("life %d: listener %d of %d: %v", li, q.L, len(s.ports), err)
			}
			open = append(open, conn)
			conn.SetDeadline(time.Now().Add(60 * time.Second))
			w := sent[metrics[q.M]]
			if w == nil {
				w = &sum{min: float64(q.Base), max: float64(q.Base)}
				sent[metrics[q.M]] = w
			}
			var b bytes.Buffer
			for i := 0; i < q.N; i++ {
				v := float64(q.Base + i%7)
				fmt.Fprintf(&b, "%s %s 0\n", metrics[q.M], strconv.FormatFloat(v, 'f', -1, 64))
				w.n++
				if v < w.min {
					w.min = v
				}
				if v > w.max {
					w.max = v
				}
			}
			if _, err := conn.Write(b.Bytes()); err != nil {
				return fmt.Errorf("life %d: sending: %v", li, err)
			}
			// the server closes once it has taken everything
			conn.(*net.TCPConn).CloseWrite()
			io.Copy(io.Discard, conn)
			conn.Close()
		}
		if l.Idle {
			for _, p := range s.ports {
				if conn, err := net.Dial("tcp", p); err == nil {
					conn.Write([]byte("unfinished 1"))
					defer conn.Close()
				}
			}
			if conn, err := net.Dial("tcp", s.api); err == nil {
				defer conn.Close()
			}
		}
		if l.Query {
			code, b, err := s.get("/api/query?query=&results=5")
			if err != nil || code != 200 {
				return fmt.Errorf("life %d: query: %d %v %s", li, code, err, b)
			}
		}
		time.Sleep(time.Duration(l.Settled) * time.Millisecond)
		if err := interrupt(s); err != nil {
			return fmt.Errorf("life %d: %v", li, err)
		}
		if err := check(); err != nil {
			return fmt.Errorf("after life %d: %v", li, err)
		}
		x.LabelIf(l.Idle, "interrupted with connections open")
	}
	x.LabelN("lives", len(c.Lives))
	if len(sent) > 0 && len(c.Lives) > 1 {
		x.NonTrivial()
	}
	return nil
}

// Bad is a configuration that cannot be used: one thing in it is wrong.
type Bad struct {
	What string
	Kind string
}

var whats = []string{"missing file", "not toml", "no database", "two databases", "no dist", "unknown database", "unknown dist", "unknown listener", "wrong type size", "wrong type compression", "no compression", "zero compression", "negative compression", "huge compression", "wrong type address", "wrong type directory", "listener port taken", "api port taken", "bad certificate", "key of another certificate", "certificate without key", "key without certificate", "certificate and key swapped", "bad plugin", "bad duration", "no duration", "negative duration", "no arguments", "two arguments", "bad listener address", "bad api address"}

func genBad(t *rapid.T) Bad {
	return Bad{What: rapid.SampledFrom(whats).Draw(t, "what"), Kind: rapid.StringMatching("[a-z]{3,8}").Draw(t, "kind")}
}

// certificate makes a certificate for this host and its key.
func certificate(dir string, i int) (key, cert string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	vkit.Must(err)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(int64(i)), Subject: pkix.Name{CommonName: "c"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IPAddresses: []net.IP{net.ParseIP(host)}}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &k.PublicKey, k)
	vkit.Must(err)
	kb, err := x509.MarshalECPrivateKey(k)
	vkit.Must(err)
	key, cert = filepath.Join(dir, fmt.Sprintf("k%d.pem", i)), filepath.Join(dir, fmt.Sprintf("c%d.pem", i))
	vkit.Must(os.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0600))
	vkit.Must(os.WriteFile(cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644))
	return
}

func bad(x *vkit.Ctx, c Bad) error {
	dir := x.TempDir()
	a := free(2)
	main, dur := "", "duration = \"1h\""
	lis := fmt.Sprintf("[[listeners.graphite]]\naddress = %q\n", a[1])
	db := fmt.Sprintf("[database.files]\ndirectory = %q\nsize = 256\ncap = 10\nfiles = 2\n", filepath.Join(dir, "data"))
	dist := "[dist.tdigest]\ncompression = 5.0\n"
	api := fmt.Sprintf("[api]\naddress = %q\n", a[0])
	extra := ""
	hold := func(addr string) {
		l, err := net.Listen("tcp", addr)
		vkit.Must(err)
		x.Cleanup(func() { l.Close() })
	}
	if c.Kind == "files" || c.Kind == "tdigest" || c.Kind == "graphite" {
		c.Kind += "x"
	}
	switch c.What {
	case "not toml":
		extra = "\n[" + c.Kind + "\n= = 3\n"
	case "no database":
		db = ""
	case "two databases":
		extra = "\n[database." + c.Kind + "]\na = 1\n"
	case "no dist":
		dist = ""
	case "unknown database":
		db = strings.Replace(db, "files]", c.Kind+"]", 1)
	case "unknown dist":
		dist = strings.Replace(dist, "tdigest", c.Kind, 1)
	case "unknown listener":
		lis = strings.Replace(lis, "graphite", c.Kind, 1)
	case "wrong type size":
		db = strings.Replace(db, "256", `"256"`, 1)
	case "wrong type compression":
		dist = strings.Replace(dist, "5.0", `"high"`, 1)
	case "no compression":
		dist = "[dist.tdigest]\n"
	case "zero compression":
		dist = strings.Replace(dist, "5.0", "0.0", 1)
	case "negative compression":
		dist = strings.Replace(dist, "5.0", "-5.0", 1)
	case "huge compression":
		dist = strings.Replace(dist, "5.0", "1e18", 1)
	case "wrong type address":
		lis = "[[listeners.graphite]]\naddress = 1111\n"
	case "wrong type directory":
		db = "[database.files]\ndirectory = 5\nsize = 256\ncap = 10\nfiles = 2\n"
	case "listener port taken":
		hold(a[1])
	case "api port taken":
		hold(a[0])
	case "bad certificate":
		api += "[api.tls]\nkey = \"" + c.Kind + "\"\ncert = \"" + c.Kind + "\"\n"
	case "key of another certificate", "certificate without key", "key without certificate", "certificate and key swapped":
		k1, c1 := certificate(dir, 1)
		k2, _ := certificate(dir, 2)
		kc := map[string][2]string{"key of another certificate": {k2, c1}, "certificate without key": {"", c1}, "key without certificate": {k1, ""}, "certificate and key swapped": {c1, k1}}[c.What]
		key, cert := kc[0], kc[1]
		api += fmt.Sprintf("[api.tls]\nkey = %q\ncert = %q\n", key, cert)
	case "bad plugin":
		main = "plugins = [\"" + c.Kind + ".so\"]\n"
	case "bad duration":
		dur = "duration = \"" + c.Kind + "\""
	case "no duration":
		dur = ""
	case "negative duration":
		dur = "duration = \"-10s\""
	case "bad listener address":
		lis = "[[listeners.graphite]]\naddress = \"127.0.0.1:99999\"\n"
	case "bad api address":
		api = "[api]\naddress = \"" + c.Kind + "\"\n"
	}
	conf := "[main]\n" + dur + "\n" + main + lis + db + dist + api + extra
	s := spawn(x, dir, conf)
	switch c.What {
	case "missing file", "no arguments", "two arguments":
		s.cmd.Process.Kill()
		s.wait(time.Minute)
		args := map[string][]string{"missing file": {"run", filepath.Join(dir, c.Kind)}, "no arguments": {"run"}, "two arguments": {"run", filepath.Join(dir, "rothko.toml"), "x"}}[c.What]
		s = &server{out: &vkit.Buf{}, done: make(chan error, 1)}
		s.cmd = exec.Command(binary, args...)
		s.cmd.Dir = dir
		s.cmd.Stdout, s.cmd.Stderr = s.out, s.out
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		vkit.Must(s.cmd.Start())
		k := s
		go func() { k.done <- k.cmd.Wait() }()
		x.Cleanup(func() { k.cmd.Process.Kill() })
	}
	code, ended := s.wait(40 * time.Second)
	if !ended {
		s.cmd.Process.Kill()
		s.wait(10 * time.Second)
		return fmt.Errorf("a server with an unusable configuration (%s) keeps running:\n%s", c.What, s.log())
	}
	if code == 0 {
		return fmt.Errorf("a server with an unusable configuration (%s) exited with success:\n%s", c.What, s.log())
	}
	if o := s.out.String(); strings.Contains(o, "goroutine ") && strings.Contains(o, "panic:") {
		return fmt.Errorf("a server with an unusable configuration (%s) crashed:\n%s", c.What, s.log())
	}
	x.Label(c.What)
	x.NonTrivial()
	return nil
}

// Pause stops the process for a while during its last dump.
type Pause struct {
	Metrics int
	Ms      int // how long
	At      int // the part of the metrics, in thousandths, on disk by then
	Twice   bool
	Period  string
}

func genPause(t *rapid.T) Pause {
	ms := []int{600, 1500, 2500}
	if os.Getenv("VERIF_TIER") == "thorough" {
		ms = []int{600, 1500, 4000, 9000, 15000, 22000}
	}
	return Pause{
		Metrics: rapid.IntRange(1500, 5000).Draw(t, "metrics"),
		Ms:      rapid.SampledFrom(ms).Draw(t, "ms"),
		At:      rapid.SampledFrom([]int{0, 0, 10, 100, 500}).Draw(t, "at"),
		Twice:   rapid.Bool().Draw(t, "twice"),
		Period:  rapid.SampledFrom([]string{"1h", "10m"}).Draw(t, "period"),
	}
}

func pause(x *vkit.Ctx, c Pause) error {
	dir := x.TempDir()
	var s *server
	for try := 0; ; try++ {
		addrs := free(2)
		s = spawn(x, dir, fmt.Sprintf("[main]\nduration = %q\n[[listeners.graphite]]\naddress = %q\n[database.files]\ndirectory = %q\nsize = 128\ncap = 3\nfiles = 2\n[database.files.tuning]\nbuffer = 50\nhandles = 20\n[dist.tdigest]\ncompression = 5.0\n[api]\naddress = %q\n", c.Period, addrs[1], filepath.Join(dir, "data"), addrs[0]))
		s.api, s.ports = addrs[0], addrs[1:]
		err := s.up(addrs)
		if err == nil {
			break
		}
		if err != errTaken || try > 4 {
			return err
		}
	}
	conn, err := net.DialTimeout("tcp", s.ports[0], 20*time.Second)
	vkit.Must(err)
	var b bytes.Buffer
	for i := 0; i < c.Metrics; i++ {
		fmt.Fprintf(&b, "m%d %d 0\n", i, i)
	}
	conn.SetDeadline(time.Now().Add(100 * time.Second))
	if _, err := conn.Write(b.Bytes()); err != nil {
		return fmt.Errorf("sending: %v", err)
	}
	conn.(*net.TCPConn).CloseWrite()
	io.Copy(io.Discard, conn)
	conn.Close()
	vkit.Must(s.cmd.Process.Signal(syscall.SIGINT))
	count := func() int {
		names, _ := os.ReadDir(filepath.Join(dir, "data"))
		return len(names)
	}
	ended, code, part := false, 0, 0
	stop := func() {
		s.cmd.Process.Signal(syscall.SIGSTOP)
		if n := count(); n > part && n < c.Metrics {
			part = n
		}
		time.Sleep(time.Duration(c.Ms) * time.Millisecond)
		s.cmd.Process.Signal(syscall.SIGCONT)
	}
	for deadline := time.Now().Add(30 * time.Second); !ended && time.Now().Before(deadline); {
		if n := count(); n > 0 && n*1000 >= c.At*c.Metrics {
			break
		}
		code, ended = s.wait(200 * time.Microsecond)
	}
	if !ended {
		stop()
		if c.Twice {
			if code, ended = s.wait(time.Millisecond); !ended {
				stop()
			}
		}
		code, ended = s.wait(60 * time.Second)
	}
	if !ended {
		s.cmd.Process.Kill()
		s.wait(10 * time.Second)
		return fmt.Errorf("the interrupted server, stopped for %d ms when %d of %d metrics were on disk, did not exit:\n%s", c.Ms, part, c.Metrics, s.log())
	}
	if code != 0 {
		return fmt.Errorf("the interrupted server exited with status %d:\n%s", code, s.log())
	}
	db := store.Open(filepath.Join(dir, "data"), store.Cfg{Size: 128, Cap: 3, Files: 2, Handles: 10, Workers: 1})
	defer db.Close()
	if err := db.DB.PopulateMetrics(context.Background()); err != nil {
		return err
	}
	missing, first := 0, ""
	for i := 0; i < c.Metrics; i++ {
		m := fmt.Sprintf("m%d", i)
		vals, err := db.All(m)
		if err != nil {
			return fmt.Errorf("%q: %v", m, err)
		}
		if len(vals) == 0 {
			missing++
			if first == "" {
				first = m
			}
			continue
		}
		var r data.Record
		if err := r.Unmarshal(vals[0].Data); err != nil {
			return err
		}
		if len(vals) != 1 || r.Observations != 1 || r.Min != float64(i) {
			return fmt.Errorf("%q has %d records, the latest of %d observations from %v; the value %d was sent", m, len(vals), r.Observations, r.Min, i)
		}
	}
	if missing > 0 {
		return fmt.Errorf("the interrupted server, stopped for %d ms when %d of %d metrics were on disk, exited without storing %d of them (%q)", c.Ms, part, c.Metrics, missing, first)
	}
	if part > 0 {
		x.Label("stopped during the last dump")
		x.NonTrivial()
	}
	return nil
}

var once sync.Once

func main() {
	vkit.Main(vkit.Opts{
		ID: "P19",
		Rule: "the server binary built from the tree, run from drawn configurations for one to three lives; in each, drawn lines to its listeners, requests, and an interrupt at a drawn moment, then its exit status and data directory are checked and the next life must serve the data; configurations with one unusable part; and thousands of metrics whose process is stopped by the system for a while during its last dump; " +
			"non-trivial: several lives with data, every unusable configuration, and pauses with a part of the metrics on disk",
		Assumptions: []string{"lines that arrive while a dump is being taken may be lost, as documented, so with short dump periods only the bounds of the stored data are checked"},
		HangS:       170,
		Shards:      8,
		Init: func(dir string) {
			p := os.Getpid()
			host = fmt.Sprintf("127.%d.%d.%d", 1+p>>14&63, p>>7&127, 1+p&127)
			binary = filepath.Join(dir, "rothko")
			cmd := exec.Command("go", "build", "-o", binary, "github.com/vivint/rothko/bin/rothko")
			cmd.Dir = filepath.Join(os.Getenv("VERIF_ROOT"), "harness")
			if out, err := cmd.CombinedOutput(); err != nil {
				fmt.Fprintf(os.Stderr, "building the server: %v\n%s", err, out)
				os.Exit(3)
			}
		},
	},
		vkit.P("lives", 240, 5000, gen, run),
		vkit.P("unusable", 120, 1500, genBad, bad),
		vkit.P("paused", 16, 96, genPause, pause),
	)
}
