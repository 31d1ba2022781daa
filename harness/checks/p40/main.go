// P40: a running server does what its configuration says.
package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/ui"
	"pgregory.net/rapid"
)

// Get is one request: what credentials it carries and where it goes.
type Get struct {
	Path  string
	Creds string
	Plain bool // without TLS, where the server has it
	Slow  int  // the request arrives in pieces that take this many milliseconds
}

// Life is one run of the server with settings of its own.
type Life struct {
	Duration    string
	Listeners   int
	Origin      string
	User, Pass  string
	TLS         int // 0 none, else which certificate
	Half        int // before it there is a try with 1 the key or 2 the certificate alone, 3 a key of another certificate, 4 or 5 a file that is not there
	Size, Cap   int
	Files       int
	Tuning      []int // buffer, drop, handles, workers; empty is no section
	Compression float64
	Relative    bool // the data directory is given relative to the working directory
	Dev         bool // ROTHKO_DEV is set
	Values      []int
	Gets        []Get
}

type Case struct{ Lives []Life }

var paths = []string{"/api/query?query=&results=10", "/api/render?metric=m&duration=1h", "/api/render?metric=nothing", "/", "/?metric=web.latency&x=1", "/no-such-page", "/css/main.css", "/css/mini.min.css", "/js/flags.js", "/js/main.js", "/js/reload.js", "/api/nonce"}

func gen(t *rapid.T) Case {
	var c Case
	word := rapid.StringMatching("[a-z]{6,12}")
	for i := rapid.IntRange(1, 5).Draw(t, "lives"); i > 0; i-- {
		l := Life{
			Duration:    rapid.SampledFrom([]string{"1h", "1h", "30m", "200ms", "50ms"}).Draw(t, "duration"),
			Listeners:   rapid.IntRange(1, 3).Draw(t, "listeners"),
			TLS:         rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "tls"),
			Half:        rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5}).Draw(t, "half"),
			Size:        rapid.SampledFrom([]int{64, 100, 256}).Draw(t, "size"),
			Cap:         rapid.SampledFrom([]int{5, 6, 9, 20}).Draw(t, "cap"),
			Files:       rapid.SampledFrom([]int{1, 1, 2, 5}).Draw(t, "files"),
			Compression: rapid.SampledFrom([]float64{1, 5, 7.5, 100}).Draw(t, "compression"),
			Dev:         rapid.Bool().Draw(t, "dev"),
			Relative:    rapid.Bool().Draw(t, "relative"),
			Values:      rapid.SliceOfN(rapid.IntRange(-50, 50), 0, 4).Draw(t, "values"),
		}
		if rapid.Bool().Draw(t, "origin") {
			l.Origin = "https://" + word.Draw(t, "host") + ".example"
		}
		switch rapid.IntRange(0, 3).Draw(t, "security") {
		case 1:
			l.User, l.Pass = "user"+word.Draw(t, "user"), "pass"+word.Draw(t, "pass")
		case 2:
			l.User = "user" + word.Draw(t, "user")
		case 3:
			l.Pass = "pass" + word.Draw(t, "pass")
		}
		if rapid.Bool().Draw(t, "tuning") {
			l.Tuning = []int{rapid.IntRange(1, 100).Draw(t, "buffer"), rapid.IntRange(0, 1).Draw(t, "drop"), rapid.IntRange(1, 50).Draw(t, "handles"), rapid.IntRange(1, 4).Draw(t, "workers")}
		}
		for j := rapid.IntRange(1, 6).Draw(t, "gets"); j > 0; j-- {
			l.Gets = append(l.Gets, Get{rapid.SampledFrom(paths).Draw(t, "path"), rapid.SampledFrom([]string{"right", "right", "right", "none", "swapped", "user only", "password only", "wrong"}).Draw(t, "creds"), rapid.IntRange(0, 4).Draw(t, "plain") == 0, rapid.SampledFrom([]int{0, 0, 0, 0, 0, 5, 100, 700}).Draw(t, "slow")})
		}
		c.Lives = append(c.Lives, l)
	}
	return c
}

var host, exe string

// site is what is packed into the program.
var site = map[string][]byte{}

func unpack() {
	z, err := gzip.NewReader(bytes.NewReader(ui.Tarball))
	vkit.Must(err)
	r := tar.NewReader(z)
	for {
		h, err := r.Next()
		if err == io.EOF {
			return
		}
		vkit.Must(err)
		b, err := io.ReadAll(r)
		vkit.Must(err)
		if h.Typeflag == tar.TypeReg && !strings.HasSuffix(h.Name, ".html") {
			site[h.Name] = b
		}
	}
}

// certs[1] and certs[2] are certificates, with files beside them.
type cert struct {
	der       []byte
	key, cert string
	pool      *x509.CertPool
}

var certs [3]cert

func makeCert(dir string, i int) cert {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	vkit.Must(err)
	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(int64(i)), Subject: pkix.Name{CommonName: fmt.Sprint("c", i)},
		NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * 365 * time.Hour),
		IPAddresses: []net.IP{net.ParseIP(host)}, IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
	}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &k.PublicKey, k)
	vkit.Must(err)
	kb, err := x509.MarshalECPrivateKey(k)
	vkit.Must(err)
	c := cert{der: der, key: filepath.Join(dir, fmt.Sprintf("secretkeyfile%d.pem", i)), cert: filepath.Join(dir, fmt.Sprintf("secretcertfile%d.pem", i)), pool: x509.NewCertPool()}
	vkit.Must(os.WriteFile(c.key, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0600))
	vkit.Must(os.WriteFile(c.cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644))
	p, err := x509.ParseCertificate(der)
	vkit.Must(err)
	c.pool.AddCert(p)
	return c
}

func free(n int) (out []string) {
	var ls []net.Listener
	for i := 0; i < n; i++ {
		l, err := net.Listen("tcp", host+":0")
		vkit.Must(err)
		ls = append(ls, l)
		out = append(out, l.Addr().String())
	}
	for _, l := range ls {
		l.Close()
	}
	return
}

func (l Life) config(dir string, ports []string, api string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "[main]\nduration = %q\n", l.Duration)
	for _, p := range ports {
		fmt.Fprintf(&b, "[[listeners.graphite]]\naddress = %q\n", p)
	}
	d := filepath.Join(dir, "data")
	if l.Relative {
		d = "data"
	}
	fmt.Fprintf(&b, "[database.files]\ndirectory = %q\nsize = %d\ncap = %d\nfiles = %d\n", d, l.Size, l.Cap, l.Files)
	if len(l.Tuning) == 4 {
		fmt.Fprintf(&b, "[database.files.tuning]\nbuffer = %d\ndrop = %v\nhandles = %d\nworkers = %d\n", l.Tuning[0], l.Tuning[1] == 1, l.Tuning[2], l.Tuning[3])
	}
	fmt.Fprintf(&b, "[dist.tdigest]\ncompression = %.1f\n[api]\naddress = %q\n", l.Compression, api)
	if l.Origin != "" {
		fmt.Fprintf(&b, "origin = %q\n", l.Origin)
	}
	switch l.Half {
	case 1:
		fmt.Fprintf(&b, "[api.tls]\nkey = %q\n", certs[1].key)
	case 2:
		fmt.Fprintf(&b, "[api.tls]\ncert = %q\n", certs[1].cert)
	case 3:
		fmt.Fprintf(&b, "[api.tls]\nkey = %q\ncert = %q\n", certs[1].key, certs[2].cert)
	case 4:
		fmt.Fprintf(&b, "[api.tls]\nkey = %q\ncert = %q\n", certs[1].key, certs[2].cert+".none")
	case 5:
		fmt.Fprintf(&b, "[api.tls]\nkey = %q\ncert = %q\n", certs[1].key+".none", certs[1].cert)
	}
	if l.TLS > 0 && l.Half == 0 {
		fmt.Fprintf(&b, "[api.tls]\nkey = %q\ncert = %q\n", certs[l.TLS].key, certs[l.TLS].cert)
	}
	if l.User != "" || l.Pass != "" {
		fmt.Fprintf(&b, "[api.security]\nusername = %q\npassword = %q\n", l.User, l.Pass)
	}
	return b.String()
}

type server struct {
	cmd   *exec.Cmd
	out   *vkit.Buf
	done  chan error
	ports []string
	api   string
}

// wait waits for the process to end by itself.
func (s *server) wait(d time.Duration) (code int, ended bool) {
	select {
	case err := <-s.done:
		s.done <- err
		return s.cmd.ProcessState.ExitCode(), true
	case <-time.After(d):
		return 0, false
	}
}

func (s *server) log() string {
	o := s.out.String()
	if len(o) > 1500 {
		o = o[:700] + "\n...\n" + o[len(o)-700:]
	}
	return o
}

var errTaken = errors.New("port taken")

func start(x *vkit.Ctx, dir string, l Life) (*server, error) {
	for try := 0; ; try++ {
		addrs := free(l.Listeners + 1)
		path := filepath.Join(dir, "rothko.toml")
		vkit.Must(os.WriteFile(path, []byte(l.config(dir, addrs[1:], addrs[0])), 0644))
		s := &server{out: &vkit.Buf{}, done: make(chan error, 1), api: addrs[0], ports: addrs[1:]}
		s.cmd = exec.Command(exe, "run", path)
		s.cmd.Dir = dir
		s.cmd.Env = append(os.Environ(), "ROTHKO_DEV=")
		if l.Dev {
			s.cmd.Env = append(os.Environ(), "ROTHKO_DEV=y")
		}
		s.cmd.Stdout, s.cmd.Stderr = s.out, s.out
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		vkit.Must(s.cmd.Start())
		go func() { s.done <- s.cmd.Wait() }()
		x.Cleanup(func() { s.cmd.Process.Kill() })
		err := s.up(addrs)
		if err == errTaken && try < 5 {
			continue
		}
		return s, err
	}
}

// half runs a server whose certificate cannot be used: it says so and ends,
// and meanwhile answers nobody.
func half(dir string, l Life) error {
	for try := 0; ; try++ {
		addrs := free(l.Listeners + 1)
		path := filepath.Join(dir, "rothko.toml")
		vkit.Must(os.WriteFile(path, []byte(l.config(dir, addrs[1:], addrs[0])), 0644))
		s := &server{out: &vkit.Buf{}, done: make(chan error, 1)}
		s.cmd = exec.Command(exe, "run", path)
		s.cmd.Dir = dir
		s.cmd.Stdout, s.cmd.Stderr = s.out, s.out
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		vkit.Must(s.cmd.Start())
		go func() { s.done <- s.cmd.Wait() }()
		defer s.cmd.Process.Kill()
		cl := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 5 * time.Second}
		for i := 0; i < 4000; i++ {
			code, ended := s.wait(5 * time.Millisecond)
			if ended && strings.Contains(s.out.String(), "address already in use") && try < 5 {
				break
			}
			if ended {
				if code == 0 {
					return fmt.Errorf("the server ended with status 0:\n%s", s.log())
				}
				if code == 2 && strings.Contains(s.out.String(), "goroutine ") {
					return fmt.Errorf("the server crashed:\n%s", s.log())
				}
				return nil
			}
			if resp, err := cl.Get("http://" + addrs[0] + "/api/nonce"); err == nil {
				resp.Body.Close()
				if resp.StatusCode < 400 {
					return fmt.Errorf("a request without TLS is answered with %d", resp.StatusCode)
				}
			}
			if i == 3999 {
				return fmt.Errorf("the server goes on:\n%s", s.log())
			}
		}
	}
}

// up waits until it answers on all its addresses.
func (s *server) up(addrs []string) error {
	for i := 0; i < 30000; i++ {
		ok := true
		for _, a := range addrs {
			k, err := net.Dial("tcp", a)
			if err != nil {
				ok = false
				break
			}
			k.Close()
		}
		if ok {
			return nil
		}
		if code, ended := s.wait(time.Millisecond); ended {
			if strings.Contains(s.out.String(), "address already in use") {
				return errTaken
			}
			return fmt.Errorf("the server ended with status %d instead of running:\n%s", code, s.log())
		}
	}
	s.cmd.Process.Kill()
	s.wait(time.Minute)
	return fmt.Errorf("the server does not listen:\n%s", s.log())
}

func (s *server) interrupt() error {
	vkit.Must(s.cmd.Process.Signal(syscall.SIGINT))
	code, ended := s.wait(40 * time.Second)
	if !ended {
		s.cmd.Process.Kill()
		s.wait(10 * time.Second)
		return fmt.Errorf("the interrupted server did not exit:\n%s", s.log())
	}
	if code != 0 {
		return fmt.Errorf("the interrupted server exited with status %d:\n%s", code, s.log())
	}
	return nil
}

// slowConn takes some time to send what it is given first.
type slowConn struct {
	net.Conn
	ms int
}

func (s *slowConn) Write(b []byte) (n int, err error) {
	if s.ms == 0 || len(b) < 4 {
		return s.Conn.Write(b)
	}
	pause := time.Duration(s.ms) * time.Millisecond / 3
	s.ms = 0
	for i := 0; i < 4; i++ {
		k, err := s.Conn.Write(b[len(b)*i/4 : len(b)*(i+1)/4])
		n += k
		if err != nil {
			return n, err
		}
		if i < 3 {
			time.Sleep(pause)
		}
	}
	return n, nil
}

func other(s string) string { return s + "x" }

// get makes one request and checks everything the settings decide about it.
func (s *server) get(l Life, g Get, stored bool) error {
	secure := l.TLS > 0
	scheme := "http"
	if secure && !g.Plain {
		scheme = "https"
	}
	req, err := http.NewRequest("GET", scheme+"://"+s.api+g.Path, nil)
	vkit.Must(err)
	u, p, send := l.User, l.Pass, true
	switch g.Creds {
	case "none":
		send = false
	case "swapped":
		u, p = p, u
	case "user only":
		p = ""
	case "password only":
		u = ""
	case "wrong":
		p = other(p)
	}
	if send {
		req.SetBasicAuth(u, p)
	}
	tr := &http.Transport{DisableKeepAlives: true, DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
		k, err := (&net.Dialer{}).DialContext(ctx, network, addr)
		if err != nil {
			return nil, err
		}
		return &slowConn{k, g.Slow}, nil
	}}
	if secure {
		tr.TLSClientConfig = &tls.Config{RootCAs: certs[l.TLS].pool}
	}
	resp, err := (&http.Client{Transport: tr, Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}).Do(req)
	if err != nil {
		if secure && g.Plain {
			return nil // refused: fine
		}
		return fmt.Errorf("%s %s: %v", scheme, g.Path, err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return fmt.Errorf("%s %s: %v", scheme, g.Path, err)
	}
	if secure && g.Plain {
		if resp.StatusCode < 400 {
			return fmt.Errorf("a request without TLS for %s is answered with %d by a server configured with it: %.200q", g.Path, resp.StatusCode, b)
		}
		return nil
	}
	if secure && !bytes.Equal(resp.TLS.PeerCertificates[0].Raw, certs[l.TLS].der) {
		return fmt.Errorf("another certificate than the configured one is used")
	}
	want := l.Origin
	if want == "" {
		want = "*"
	}
	if got := resp.Header["Access-Control-Allow-Origin"]; len(got) != 1 || got[0] != want {
		return fmt.Errorf("%s: allowed origin is %q, configured is %q", g.Path, got, l.Origin)
	}
	code := 200
	switch {
	case (l.User != "" || l.Pass != "") && !(send && u == l.User && p == l.Pass):
		code = 401
	case strings.Contains(g.Path, "nothing"), strings.Contains(g.Path, "metric=m") && !stored:
		// whatever it is answered with, it is not a refusal
		if resp.StatusCode == 401 || resp.StatusCode == 403 {
			return fmt.Errorf("%s with credentials %q is answered with %d: %.200q", g.Path, g.Creds, resp.StatusCode, b)
		}
		return nil
	}
	if resp.StatusCode != code {
		return fmt.Errorf("%s with credentials %q is answered with %d, not %d: %.200q", g.Path, g.Creds, resp.StatusCode, code, b)
	}
	if code == 200 {
		switch {
		case strings.HasPrefix(g.Path, "/api/query"):
			var names []string
			if err := json.Unmarshal(b, &names); err != nil {
				return fmt.Errorf("%s: %v: %.200q", g.Path, err, b)
			}
		case !strings.HasPrefix(g.Path, "/api"):
			if want, ok := site["."+g.Path]; ok {
				if !bytes.Equal(b, want) {
					return fmt.Errorf("%s: %d bytes are served, not the %d packed ones", g.Path, len(b), len(want))
				}
				break
			}
			for text, want := range map[string]bool{"<title>Rothko</title>": true, `content="web.latency"`: strings.Contains(g.Path, "metric="), "/js/reload.js": l.Dev} {
				if bytes.Contains(b, []byte(text)) != want {
					return fmt.Errorf("%s: the page has %s: %v, development mode is %v:\n%s", g.Path, text, !want, l.Dev, b)
				}
			}
		}
	}
	return nil
}

func run(x *vkit.Ctx, c Case) error {
	dir := x.TempDir()
	data_dir := filepath.Join(dir, "data")
	m := store.NewModel().Metric("m")
	exact := true
	wrote, most := 0, 0
	// contents reads what is stored
	contents := func(l Life) ([]store.Val, error) {
		db := store.Open(data_dir, store.Cfg{Size: 64, Cap: 10, Files: 1000, Handles: 10, Workers: 1})
		defer db.Close()
		return db.All("m")
	}
	for li, l := range c.Lives {
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("life %d: %s", li, fmt.Sprintf(f, a...))
		}
		if l.Files > most {
			most = l.Files
		}
		if l.Half > 0 {
			if err := half(dir, l); err != nil {
				return fail("with the unusable certificate %d: %v", l.Half, err)
			}
			l.Half = 0
			x.Label("unusable certificate")
		}
		before := store.Snapshot(dir)
		began := time.Now().UnixNano()
		s, err := start(x, dir, l)
		if err != nil {
			return fail("%v", err)
		}
		send := func(i, v int) error {
			k := s.ports[i%len(s.ports)]
			conn, err := net.DialTimeout("tcp", k, 20*time.Second)
			if err != nil {
				return fail("listener %d of %d: %v", i%len(s.ports), len(s.ports), err)
			}
			conn.SetDeadline(time.Now().Add(60 * time.Second))
			fmt.Fprintf(conn, "m %d 0\n", v)
			conn.(*net.TCPConn).CloseWrite()
			io.Copy(io.Discard, conn)
			conn.Close()
			return nil
		}
		for i, v := range l.Values {
			if err := send(i, v); err != nil {
				return err
			}
		}
		for _, g := range l.Gets {
			if err := s.get(l, g, wrote > 0); err != nil {
				return fail("%v", err)
			}
		}
		short := strings.HasSuffix(l.Duration, "ms")
		if short && len(l.Values) > 0 {
			// it is dumped without an interrupt
			ok := false
			for i := 0; i < 6000 && !ok; i++ {
				now := store.Snapshot(dir)
				for p, b := range now {
					if strings.HasSuffix(p, ".data") && !bytes.Equal(b, before[p]) {
						ok = true
					}
				}
				if !ok {
					time.Sleep(5 * time.Millisecond)
				}
				// a value that arrives while a dump is taken may be lost
				if i%100 == 99 && !ok {
					if err := send(i, i%7); err != nil {
						return err
					}
				}
			}
			if !ok {
				return fail("values were sent and nothing is stored after 30 s with a duration of %s:\n%s", l.Duration, s.log())
			}
			x.Label("dumped while running")
			for i := 0; i < 15; i++ {
				if err := send(i, i); err != nil {
					return err
				}
				time.Sleep(8 * time.Millisecond)
			}
		}
		if !short {
			now := store.Snapshot(dir)
			for p, b := range now {
				if strings.HasSuffix(p, ".data") && !bytes.Equal(b, before[p]) {
					return fail("something is stored at once with a duration of %s", l.Duration)
				}
			}
		}
		if err := s.interrupt(); err != nil {
			return fail("%v", err)
		}
		for _, secret := range []string{l.User, l.Pass, "secretkeyfile", "secretcertfile"} {
			if secret != "" && strings.Contains(s.out.String(), secret) {
				return fail("the configured %q is in the output:\n%s", secret, s.log())
			}
		}
		if len(l.Values) == 0 {
			continue
		}
		vals, err := contents(l)
		if err != nil {
			return fail("reading: %v", err)
		}
		var rec data.Record
		if len(vals) == 0 {
			return fail("%d values were sent and nothing is stored", len(l.Values))
		}
		if err := rec.Unmarshal(vals[0].Data); err != nil {
			return fail("%v", err)
		}
		if got := compression(rec.Distribution); got != l.Compression || rec.Kind != "tdigest" {
			return fail("a %s distribution with compression %v is stored, configured is tdigest with %v", rec.Kind, got, l.Compression)
		}
		if short {
			exact = false // any number of records, but not too many for the time
			var mine []store.Val
			for _, v := range vals {
				if v.End > began {
					mine = append(mine, v)
				}
			}
			period, err := time.ParseDuration(l.Duration)
			vkit.Must(err)
			// the last may be that of the interrupt, and one tick may have
			// been late
			if k := len(mine); k > 3 {
				if took := time.Duration(mine[0].End - mine[k-1].Start); took < time.Duration(k-3)*period {
					return fail("%d records cover %v although one is to be stored every %v", k, took, period)
				}
				x.Label("records counted against the period")
			}
		} else if rec.Observations != int64(len(l.Values)) {
			return fail("a record of %d values is stored, %d were sent", rec.Observations, len(l.Values))
		}
		cfg := store.Cfg{Size: l.Size, Cap: l.Cap, Files: l.Files}
		if exact {
			o, rotated, fresh := m.Write(cfg, vals[0])
			if o != store.Stored {
				return fail("harness: outcome %v of a record of %d bytes", o, len(vals[0].Data))
			}
			if err := store.SameVals(vals, m.Query(1<<63-1)); err != nil {
				return fail("what is retained is not what size %d, cap %d and files %d say: %v", l.Size, l.Cap, l.Files, err)
			}
			sizes := map[int64]int{}
			for _, f := range m.Files {
				sizes[int64(f.Size*(f.Cap+1))]++
			}
			for p, n := range store.DataFiles(data_dir) {
				if sizes[n]--; sizes[n] < 0 {
					return fail("%s has %d bytes, which is not what size %d and cap %d say", p, n, l.Size, l.Cap)
				}
			}
			x.LabelIf(rotated, "oldest file dropped")
			x.LabelIf(fresh && li > 0, "another file")
		} else {
			n := len(store.DataFiles(data_dir))
			if n > most+1 {
				return fail("%d data files with at most %d historical files configured", n, most)
			}
		}
		wrote++
		x.LabelIf(l.TLS > 0, "TLS")
		x.LabelIf(l.User+l.Pass != "", "credentials")
		x.LabelIf(l.Relative, "relative directory")
	}
	if wrote > 1 {
		x.NonTrivial()
	}
	return nil
}

// compression is that of an encoded t-digest.
func compression(b []byte) float64 {
	if len(b) < 12 {
		return -1
	}
	return math.Float64frombits(binary.BigEndian.Uint64(b[4:]))
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P40",
		Rule: "the server binary built from the tree, run for one to five lives with drawn settings in each (period, listeners, origin, credentials, certificate, record size, capacity, files, tuning, compression, spelling of the directory); in each, values are sent to the listeners and requests are made with drawn credentials, and everything a setting decides is compared with it: what is answered to whom, when something is stored, which files hold it, what is retained and how it is encoded; " +
			"non-trivial: several lives that stored something",
		Assumptions: []string{"values that arrive while a dump is taken may be lost, as documented, so with a short period more are sent until something is stored", "with a short period any number of records may be written in a life, so from then on only the number of files is checked"},
		HangS:       170,
		Shards:      8,
		Init: func(dir string) {
			p := os.Getpid()
			host = fmt.Sprintf("127.%d.%d.%d", 128+p>>14&63, p>>7&127, 1+p&127)
			exe = filepath.Join(dir, "rothko")
			cmd := exec.Command("go", "build", "-o", exe, "github.com/vivint/rothko/bin/rothko")
			cmd.Dir = filepath.Join(os.Getenv("VERIF_ROOT"), "harness")
			if out, err := cmd.CombinedOutput(); err != nil {
				fmt.Fprintf(os.Stderr, "building the server: %v\n%s", err, out)
				os.Exit(3)
			}
			unpack()
			for i := 1; i < 3; i++ {
				certs[i] = makeCert(dir, i)
			}
		},
	},
		vkit.P("lives", 240, 4000, gen, run),
	)
}
