// P39: what the program reports about itself is true.
package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/database/files/zzverif/fakeapi"
	"github.com/vivint/rothko/database/files/zzverif/fakedb"
	"github.com/vivint/rothko/database/files/zzverif/fakedist"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dump"
	"github.com/vivint/rothko/external"
	"github.com/vivint/rothko/listener/graphite"
	"pgregory.net/rapid"
)

// entry is a report.
type entry struct {
	level, msg string
	kv         []interface{}
}

func (e entry) String() string { return fmt.Sprintf("%s %q %v", e.level, e.msg, e.kv) }

// has tells if one of the values is v, whatever its integer type.
func (e entry) has(v interface{}) bool {
	for i := 1; i < len(e.kv); i += 2 {
		if fmt.Sprint(e.kv[i]) == fmt.Sprint(v) {
			return true
		}
	}
	return false
}

// recorder is where reports go.
type recorder struct {
	mu      sync.Mutex
	entries []entry
	values  map[string][]float64
}

func (r *recorder) add(e entry) {
	r.mu.Lock()
	r.entries = append(r.entries, e)
	r.mu.Unlock()
}
func (r *recorder) Infow(msg string, kv ...interface{})  { r.add(entry{"info", msg, kv}) }
func (r *recorder) Errorw(msg string, kv ...interface{}) { r.add(entry{"error", msg, kv}) }
func (r *recorder) Observe(name string, v float64) {
	r.mu.Lock()
	if r.values == nil {
		r.values = map[string][]float64{}
	}
	r.values[name] = append(r.values[name], v)
	r.mu.Unlock()
}

// take returns what was reported since the last time.
func (r *recorder) take() ([]entry, map[string][]float64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	e, v := r.entries, r.values
	r.entries, r.values = nil, nil
	return e, v
}

// errorsOf selects the errors.
func errorsOf(es []entry) (out []entry) {
	for _, e := range es {
		if e.level == "error" {
			out = append(out, e)
		}
	}
	return
}

// wire has reports go to r, or nowhere for a part of the cases.
func wire(r *recorder, how int) func() {
	switch how {
	case 0:
		external.Default = external.Resources{Logger: r, Monitor: r}
	case 1:
		external.Default = external.Resources{Logger: r}
	case 2:
		external.Default = external.Resources{Monitor: r}
	case 3:
		external.Default = external.Resources{}
	}
	return func() { external.Default = external.Resources{} }
}

func genHow(t *rapid.T) int { return rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3}).Draw(t, "how") }

//
// requests
//

type Req struct {
	Method, Path, Query string
	Auth                int // 0 none, 1 right, 2 wrong
	JSON                bool
}

type Requests struct {
	How        int
	User, Pass string
	Static     int
	Reqs       []Req
	Fail       bool // the database fails
	Together   bool
}

var paths = []string{"/api/render", "/api/render", "/api/query", "/api/query", "/api/nonce", "/", "/index.html", "/other", "/api/", "/api/nonce/", "/a b", "/%2f", "/é", "//x"}

func genRequests(t *rapid.T) Requests {
	c := Requests{How: genHow(t), Static: rapid.IntRange(0, 2).Draw(t, "static"), Fail: rapid.IntRange(0, 5).Draw(t, "fail") == 3, Together: rapid.Bool().Draw(t, "together")}
	if rapid.Bool().Draw(t, "auth") {
		c.User = rapid.SampledFrom([]string{"", "someone"}).Draw(t, "user")
		c.Pass = fmt.Sprintf("pw-%d-secret", rapid.IntRange(100000, 999999).Draw(t, "pass"))
	}
	for n := rapid.IntRange(1, 8).Draw(t, "n"); n > 0; n-- {
		r := Req{Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "GET", "GET", "POST", "HEAD", "PUT", "ODD"}).Draw(t, "method"), Path: rapid.SampledFrom(paths).Draw(t, "path"), Auth: rapid.SampledFrom([]int{1, 1, 0, 2}).Draw(t, "authk"), JSON: rapid.Bool().Draw(t, "json")}
		r.Query = rapid.SampledFrom([]string{"", "metric=m", "metric=m&width=10", "metric=unknown", "metric=bad", "query=m", "query=&results=-1", "metric=m&samples=0", "metric=m&duration=1h&now=1000000"}).Draw(t, "query")
		c.Reqs = append(c.Reqs, r)
	}
	return c
}

func requests(x *vkit.Ctx, c Requests) error {
	rec := &recorder{}
	defer wire(rec, c.How)()
	db := &fakeapi.DB{M: map[string][]fakeapi.Rec{"m": {}, "bad": {{Start: 1, End: 2, Data: []byte{0xff, 0xff}}}}}
	if c.Fail {
		db.Fail = errors.New("listing failed")
	}
	var static http.Handler
	switch c.Static {
	case 1:
		static = http.NotFoundHandler()
	case 2:
		static = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if len(r.URL.Path)%2 == 0 {
				w.WriteHeader(http.StatusTeapot)
				w.WriteHeader(http.StatusOK) // superfluous
			}
			io.WriteString(w, "static")
		})
	}
	srv := api.New(db, static, api.Options{Username: c.User, Password: c.Pass})
	ask := func(r Req) (int, string) {
		q := fakeapi.Req{Method: r.Method, URI: strings.ReplaceAll(r.Path, " ", "%20")}
		if r.Query != "" {
			q.URI += "?" + r.Query
		}
		if r.JSON {
			q.Header = append(q.Header, [2]string{"Accept", "application/json"})
		}
		switch r.Auth {
		case 1:
			q.Header = append(q.Header, [2]string{"Authorization", "Basic " + base64.StdEncoding.EncodeToString([]byte(c.User+":"+c.Pass))})
		case 2:
			q.Header = append(q.Header, [2]string{"Authorization", "Basic " + base64.StdEncoding.EncodeToString([]byte(c.User+"x:"+c.Pass+"x"))})
		}
		w := fakeapi.Ask(srv, q)
		if w == nil {
			return 0, ""
		}
		return w.Code, w.Body.String()
	}
	// what one request must be reported as
	type want struct {
		status       int
		method, path string
	}
	wants := make([]*want, len(c.Reqs))
	one := func(i int) {
		r := c.Reqs[i]
		code, _ := ask(r)
		if code == 0 {
			return // cannot be asked
		}
		p := strings.ReplaceAll(r.Path, "%2f", "/")
		if p == "/api/nonce" {
			return // asked for all the time, by every page
		}
		wants[i] = &want{code, r.Method, p}
	}
	match := func(es []entry, ws []*want) error {
		used := make([]bool, len(es))
		n := 0
		for _, w := range ws {
			if w == nil {
				continue
			}
			n++
			found := false
			for i, e := range es {
				if !used[i] && e.has(w.status) && e.has(w.method) && e.has(w.path) {
					used[i], found = true, true
					break
				}
			}
			if !found {
				return fmt.Errorf("no report of %s %q being answered with %d among %v", w.method, w.path, w.status, es)
			}
		}
		if len(es) != n {
			return fmt.Errorf("%d reports of %d requests: %v", len(es), n, es)
		}
		for _, e := range es {
			if s := fmt.Sprint(e); c.Pass != "" && (strings.Contains(s, c.Pass) || strings.Contains(s, base64.StdEncoding.EncodeToString([]byte(c.User+":"+c.Pass)))) {
				return fmt.Errorf("the password is in the report %v", e)
			}
		}
		return nil
	}
	if c.Together {
		var wg sync.WaitGroup
		for i := range c.Reqs {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); one(i) }()
		}
		wg.Wait()
		es, _ := rec.take()
		if c.How < 2 {
			if err := match(es, wants); err != nil {
				return err
			}
		}
	} else {
		for i := range c.Reqs {
			one(i)
			es, _ := rec.take()
			if c.How < 2 {
				if err := match(es, wants[i:i+1]); err != nil {
					return err
				}
			}
		}
	}
	// the answers do not depend on there being anybody to report to
	for _, r := range c.Reqs {
		wire(rec, c.How)
		code, body := ask(r)
		wire(rec, (c.How+3)%4)
		code2, body2 := ask(r)
		// rendering up to the present depends on the time
		timed := r.Path == "/api/render" && !strings.Contains(r.Query, "now=")
		if code >= 400 { // with where it came from
			body, _, _ = strings.Cut(body, "\n")
			body2, _, _ = strings.Cut(body2, "\n")
		}
		if code != code2 || body != body2 && !timed {
			return fmt.Errorf("%s %s?%s: %d %.100q when reported, %d %.100q when not", r.Method, r.Path, r.Query, code, body, code2, body2)
		}
	}
	errs := 0
	for _, w := range wants {
		if w != nil && w.status >= 400 {
			errs++
		}
	}
	x.LabelN("failed requests", errs)
	if errs > 0 && c.How < 2 {
		x.NonTrivial()
	}
	return nil
}

//
// dumps
//

type Dumps struct {
	How   int
	Rates []int    // the number of metrics of successive dumps
	Modes []string // how the database answers, cyclically
	Bad   bool     // distributions cannot be created
	Adds  []int    // values per metric, cyclically
}

func genDumps(t *rapid.T) Dumps {
	return Dumps{How: genHow(t), Rates: rapid.SliceOfN(rapid.IntRange(0, 12), 1, 4).Draw(t, "rates"),
		Modes: rapid.SliceOfN(rapid.SampledFrom([]string{"store", "store", "skip", "fail", "stored with error", "refuse", "later"}), 1, 6).Draw(t, "modes"),
		Bad:   rapid.IntRange(0, 9).Draw(t, "bad") == 4, Adds: rapid.SliceOfN(rapid.IntRange(1, 4), 1, 3).Draw(t, "adds")}
}

type sink struct {
	fakedb.DB
	mu    sync.Mutex
	modes []string
	n     int
	// what happened
	writes, skips, errs int
	problems            []string
}

var errSink = errors.New("the sink failed")

func (s *sink) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	s.mu.Lock()
	mode := s.modes[s.n%len(s.modes)]
	s.n++
	switch mode {
	case "store", "stored with error", "later":
		s.writes++
	default:
		s.skips++
	}
	switch mode {
	case "fail", "stored with error", "refuse":
		s.errs++
	}
	if mode != "store" && mode != "later" {
		s.problems = append(s.problems, metric)
	}
	s.mu.Unlock()
	switch mode {
	case "store":
		cb(true, nil)
	case "skip":
		cb(false, nil)
	case "fail":
		cb(false, errSink)
	case "stored with error":
		cb(true, errSink)
	case "refuse":
		return errSink
	case "later":
		go func() { time.Sleep(50 * time.Microsecond); cb(true, nil) }()
	}
	return nil
}

// unable makes no distributions.
type unable struct{ *fakedist.Params }

var errUnable = errors.New("no distribution today")

func (unable) New() (dist.Dist, error) { return nil, errUnable }

func dumps(x *vkit.Ctx, c Dumps) error {
	rec := &recorder{}
	defer wire(rec, c.How)()
	ctx := context.Background()
	var params dist.Params = fakedist.New()
	if c.Bad {
		params = unable{fakedist.New()}
	}
	w := data.NewWriter(params)
	s := &sink{modes: c.Modes}
	d := dump.New(dump.Options{DB: s, Period: time.Hour})
	problems := 0
	for di, n := range c.Rates {
		added := 0
		for i := 0; i < n; i++ {
			for j := c.Adds[i%len(c.Adds)]; j > 0; j-- {
				w.Add(ctx, fmt.Sprintf("m.%d.%d", di, i), float64(j), nil)
				added++
			}
		}
		es, _ := rec.take()
		if c.How < 2 {
			want := 0
			if c.Bad {
				want = added
			}
			if got := errorsOf(es); len(got) != want || len(es) != want {
				return fmt.Errorf("%d values added, of which %d were dropped, are reported as %v", added, want, es)
			} else if want > 0 && !strings.Contains(fmt.Sprint(got[0]), errUnable.Error()) {
				return fmt.Errorf("the report of a dropped value, %v, lacks the reason", got[0])
			}
		}
		s.n, s.writes, s.skips, s.errs, s.problems = 0, 0, 0, 0, nil
		before := time.Now()
		d.Dump(ctx, w)
		took := time.Since(before).Seconds()
		es, vs := rec.take()
		if want := n; !c.Bad && s.n != want {
			return fmt.Errorf("dump %d handed %d of %d metrics to the database", di, s.n, want)
		}
		problems += len(s.problems)
		if c.How == 0 || c.How == 2 {
			dur := vs["metric_dump_duration"]
			if len(dur) != 1 || dur[0] < 0 || dur[0] > took {
				return fmt.Errorf("a dump that took %v s is measured as %v", took, dur)
			}
			delete(vs, "metric_dump_duration")
			want := map[string][]float64{"metric_writes": {float64(s.writes)}, "metric_skips": {float64(s.skips)}, "metric_errors": {float64(s.errs)}}
			if !reflect.DeepEqual(vs, want) {
				return fmt.Errorf("a dump is measured as %v, it had %v", vs, want)
			}
		} else if len(vs) > 0 {
			return fmt.Errorf("measured without a monitor: %v", vs)
		}
		if c.How < 2 {
			var told []string
			for _, e := range errorsOf(es) {
				for _, m := range s.problems {
					if e.has(m) {
						told = append(told, m)
						break
					}
				}
			}
			sort.Strings(told)
			want := append([]string(nil), s.problems...)
			sort.Strings(want)
			if fmt.Sprint(told) != fmt.Sprint(want) || len(errorsOf(es)) != len(want) {
				return fmt.Errorf("values of %q were not stored, or with an error; reported were %v", want, errorsOf(es))
			}
			ok := false
			for _, e := range es {
				if e.level != "info" {
					continue
				}
				m := map[string]string{}
				for i := 1; i < len(e.kv); i += 2 {
					m[fmt.Sprint(e.kv[i-1])] = fmt.Sprint(e.kv[i])
				}
				if m["writes"] == fmt.Sprint(s.writes) && m["skips"] == fmt.Sprint(s.skips) && m["errors"] == fmt.Sprint(s.errs) {
					ok = true
				}
			}
			if !ok {
				return fmt.Errorf("no report that a dump had %d writes, %d skips, %d errors: %v", s.writes, s.skips, s.errs, es)
			}
		} else if len(es) > 0 {
			return fmt.Errorf("reported without a logger: %v", es)
		}
	}
	x.LabelN("values not stored", problems)
	if problems > 0 && c.How < 3 {
		x.NonTrivial()
	}
	return nil
}

//
// lines
//

type Lines struct {
	How   int
	Conns [][]string
	Long  bool // a line that is too long ends the first connection
}

func genLines(t *rapid.T) Lines {
	c := Lines{How: genHow(t), Long: rapid.IntRange(0, 3).Draw(t, "long") == 2}
	for n := rapid.IntRange(1, 3).Draw(t, "conns"); n > 0; n-- {
		c.Conns = append(c.Conns, rapid.SliceOfN(rapid.SampledFrom([]string{"m 5 1", "m.x -3.5 2", "good 1e3 3", "", "m", "m 5", "m 5 1 2", "m five 1", "m 0x 1", "\x00\xff", "m  5 1", "é 1.2.3 4"}), 0, 10).Draw(t, "lines"))
	}
	return c
}

func good(l string) bool { return l == "m 5 1" || l == "m.x -3.5 2" || l == "good 1e3 3" }

var host string

func lines(x *vkit.Ctx, c Lines) error {
	rec := &recorder{}
	defer wire(rec, c.How)()
	w := data.NewWriter(fakedist.New())
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var addr string
	var done chan error
	for try, up := 0, false; !up; try++ {
		l, err := net.Listen("tcp", host+":0")
		vkit.Must(err)
		addr = l.Addr().String()
		l.Close()
		done = make(chan error, 1)
		d, a := done, addr
		go func() { d <- graphite.New(a).Run(ctx, w) }()
		for i := 0; i < 2000 && !up; i++ {
			k, err := net.Dial("tcp", addr)
			if err == nil {
				// it has handled the connection once it closes it
				k.(*net.TCPConn).CloseWrite()
				k.SetDeadline(time.Now().Add(20 * time.Second))
				io.Copy(io.Discard, k)
				k.Close()
				up = true
				break
			}
			select {
			case err := <-d:
				if try > 5 {
					vkit.Must(err)
				}
				i = 2000
			case <-time.After(time.Millisecond):
			}
		}
	}
	// the one above has no lines
	if es, _ := rec.take(); len(es) > 0 {
		return fmt.Errorf("reported for a connection without a line: %v", es)
	}
	var wg sync.WaitGroup
	var peers sync.Map
	want := map[string]int{}
	bad := 0
	for _, ls := range c.Conns {
		for _, l := range ls {
			if !good(l) {
				want[l]++
				bad++
			}
		}
	}
	for i, ls := range c.Conns {
		i, ls := i, ls
		wg.Add(1)
		go func() {
			defer wg.Done()
			k, err := net.Dial("tcp", addr)
			vkit.Must(err)
			defer k.Close()
			peers.Store(k.LocalAddr().String(), true)
			k.SetDeadline(time.Now().Add(30 * time.Second))
			for _, l := range ls {
				fmt.Fprintf(k, "%s\n", l)
			}
			if c.Long && i == 0 {
				k.Write(bytes.Repeat([]byte("x"), 70000))
			}
			k.(*net.TCPConn).CloseWrite()
			io.Copy(io.Discard, k)
		}()
	}
	wg.Wait()
	cancel()
	if err := <-done; err != nil {
		return fmt.Errorf("the listener ended with %v", err)
	}
	es, _ := rec.take()
	if c.How >= 2 {
		if len(es) > 0 {
			return fmt.Errorf("reported without a logger: %v", es)
		}
		return nil
	}
	got, rest := map[string]int{}, 0
	for _, e := range es {
		if e.level != "error" {
			continue
		}
		is := false
		for i := 1; i < len(e.kv); i += 2 {
			if _, ok := peers.Load(fmt.Sprint(e.kv[i])); ok {
				is = true
			}
		}
		if !is {
			rest++
			continue
		}
		found := false
		for l := range want {
			if e.has(l) {
				got[l]++
				found = true
				break
			}
		}
		if !found {
			return fmt.Errorf("reported is %v, no malformed line is like that: %q", e, want)
		}
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("malformed lines sent (and how often): %q; reported: %q", want, got)
	}
	if c.Long != (rest > 0) {
		return fmt.Errorf("a line too long was sent: %v; reported besides the malformed lines: %d", c.Long, rest)
	}
	x.LabelN("malformed lines", bad)
	x.LabelIf(c.Long, "too long")
	if bad > 0 {
		x.NonTrivial()
	}
	return nil
}

//
// the database
//

type Stored struct {
	store.Case
	How    int
	Damage int // of the data file: 0 none, 1 a byte of a record, 2 the directory is none
	At     int
}

func genStored(t *rapid.T) Stored {
	c := store.GenCase(t, store.GenOpts{Metrics: []string{"a", "b.c"}, NotLater: true, TooLarge: true, Reopen: true, PutW: 8, GetW: 3, MinOps: 2, MaxOps: 25, MaxCap: 5})
	return Stored{Case: c, How: genHow(t), Damage: rapid.IntRange(0, 2).Draw(t, "damage"), At: rapid.IntRange(0, 1<<20).Draw(t, "at")}
}

func stored(x *vkit.Ctx, c Stored) error {
	rec := &recorder{}
	defer wire(rec, c.How)()
	quiet := func(when string) error {
		es, _ := rec.take()
		if c.How >= 2 && len(es) > 0 {
			return fmt.Errorf("reported without a logger: %v", es)
		}
		if bad := errorsOf(es); len(bad) > 0 {
			return fmt.Errorf("%s nothing is wrong, yet reported is %v", when, bad)
		}
		return nil
	}
	if c.Damage == 2 {
		dir := x.TempDir()
		vkit.Must(os.WriteFile(dir+"/file", []byte("x"), 0644))
		db := files.New(dir+"/"+strings.Repeat("long", 100)+"/db", c.Cfg.Options())
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan error, 1)
		go func() { done <- db.Run(ctx) }()
		defer func() { cancel(); <-done }()
		if c.How >= 2 {
			return nil
		}
		for i := 0; i < 5000; i++ {
			rec.mu.Lock()
			bad := errorsOf(rec.entries)
			rec.mu.Unlock()
			if len(bad) > 0 {
				x.Label("listing fails")
				x.NonTrivial()
				return nil
			}
			time.Sleep(time.Millisecond)
		}
		return fmt.Errorf("that the metrics cannot be listed is not reported: %v", rec.entries)
	}
	r := store.NewRunner(x, c.Case, store.Flags{})
	for i := range c.Ops {
		if err := r.Step(i); err != nil {
			r.DB.Close()
			return err
		}
	}
	if err := r.CheckAll(); err != nil {
		r.DB.Close()
		return err
	}
	if err := r.DB.Close(); err != nil {
		return err
	}
	if err := quiet("in the history"); err != nil {
		return err
	}
	if c.Damage == 0 {
		x.Label("healthy")
		return nil
	}
	// one byte of the newest record of a metric is changed
	var name string
	for _, n := range r.Model.Names() {
		name = n
		if c.At%2 == 1 {
			break
		}
	}
	if name == "" {
		return nil
	}
	v, ok := r.Model.Metric(name).Newest()
	if !ok || len(v.Data) < 8 {
		return nil
	}
	path, off := "", -1
	for p := range store.DataFiles(r.Dir) {
		b, err := os.ReadFile(p)
		vkit.Must(err)
		if i := bytes.Index(b, v.Data[:8]); i >= 0 && bytes.Count(b, v.Data[:8]) == 1 && path == "" {
			path, off = p, i
		} else if i >= 0 {
			return nil // not the only one of that content
		}
	}
	if path == "" {
		return nil
	}
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	vkit.Must(err)
	_, err = f.WriteAt([]byte{v.Data[c.At%8] ^ 0x55}, int64(off+c.At%8))
	vkit.Must(err)
	f.Close()
	db := store.Open(r.Dir, c.Cfg)
	defer db.Close()
	db.All(name)
	es, _ := rec.take()
	if c.How < 2 && len(errorsOf(es)) == 0 {
		return fmt.Errorf("that a record of %q is damaged is not reported when it is read: %v", name, es)
	}
	x.Label("damaged record read")
	x.NonTrivial()
	return nil
}

//
// the process
//

type Process struct {
	User, Pass string
	Redact     int // where the password is
	Reqs       []Req
	Lines      []string
}

func genProcess(t *rapid.T) Process {
	c := Process{User: rapid.SampledFrom([]string{"", "someone"}).Draw(t, "user"), Pass: fmt.Sprintf("pw-%d-secret", rapid.IntRange(100000, 999999).Draw(t, "pass"))}
	for n := rapid.IntRange(0, 6).Draw(t, "n"); n > 0; n-- {
		c.Reqs = append(c.Reqs, Req{Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "POST"}).Draw(t, "method"), Path: rapid.SampledFrom([]string{"/api/render", "/api/query", "/", "/nothing"}).Draw(t, "path"), Auth: rapid.SampledFrom([]int{1, 1, 0, 2}).Draw(t, "authk")})
	}
	c.Lines = rapid.SliceOfN(rapid.SampledFrom([]string{"m 5 1", "broken", "m x 1"}), 0, 5).Draw(t, "lines")
	return c
}

var binary string

func process(x *vkit.Ctx, c Process) error {
	dir := x.TempDir()
	for try := 0; ; try++ {
		var ls []net.Listener
		for i := 0; i < 2; i++ {
			l, err := net.Listen("tcp", host+":0")
			vkit.Must(err)
			ls = append(ls, l)
		}
		a, g := ls[0].Addr().String(), ls[1].Addr().String()
		ls[0].Close()
		ls[1].Close()
		conf := fmt.Sprintf("[main]\nduration = \"1h\"\n[[listeners.graphite]]\naddress = %q\n[database.files]\ndirectory = %q\nsize = 256\ncap = 10\nfiles = 2\n[dist.tdigest]\ncompression = 5.0\n[api]\naddress = %q\n[api.security]\nusername = %q\npassword = %q\n", g, dir+"/data", a, c.User, c.Pass)
		vkit.Must(os.WriteFile(dir+"/c.toml", []byte(conf), 0644))
		var out bytes.Buffer
		cmd := exec.Command(binary, "run", dir+"/c.toml")
		cmd.Dir, cmd.Stdout, cmd.Stderr = dir, &out, &out
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		vkit.Must(cmd.Start())
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		x.Cleanup(func() { cmd.Process.Kill() })
		up, ended := false, false
		for i := 0; i < 20000 && !up && !ended; i++ {
			k, err := net.Dial("tcp", g)
			k2, err2 := net.Dial("tcp", a)
			if err == nil {
				k.Close()
			}
			if err2 == nil {
				k2.Close()
			}
			up = err == nil && err2 == nil
			select {
			case err := <-done:
				done <- err
				ended = true
			case <-time.After(time.Millisecond):
			}
		}
		if ended && strings.Contains(out.String(), "address already in use") && try < 5 {
			continue
		}
		if !up || ended {
			return fmt.Errorf("the server does not run:\n%s", out.String())
		}
		wants := map[string]int{}
		for _, r := range c.Reqs {
			req, err := http.NewRequest(r.Method, "http://"+a+r.Path, nil)
			vkit.Must(err)
			switch r.Auth {
			case 1:
				req.SetBasicAuth(c.User, c.Pass)
			case 2:
				req.SetBasicAuth(c.User, c.Pass+"x")
			}
			resp, err := (&http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 30 * time.Second}).Do(req)
			if err != nil {
				return fmt.Errorf("%s %s: %v", r.Method, r.Path, err)
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			wants[fmt.Sprintf("%d %s %s", resp.StatusCode, r.Method, r.Path)]++
		}
		bad := 0
		if len(c.Lines) > 0 {
			k, err := net.Dial("tcp", g)
			vkit.Must(err)
			k.SetDeadline(time.Now().Add(30 * time.Second))
			for _, l := range c.Lines {
				fmt.Fprintln(k, l)
				if l != "m 5 1" {
					bad++
				}
			}
			k.(*net.TCPConn).CloseWrite()
			io.Copy(io.Discard, k)
			k.Close()
		}
		vkit.Must(cmd.Process.Signal(syscall.SIGINT))
		select {
		case <-done:
		case <-time.After(40 * time.Second):
			cmd.Process.Kill()
			return fmt.Errorf("the interrupted server did not exit")
		}
		log := out.String()
		for _, s := range []string{c.Pass, base64.StdEncoding.EncodeToString([]byte(c.User + ":" + c.Pass))} {
			if i := strings.Index(log, s); i >= 0 {
				return fmt.Errorf("the password is in the output: %q", log[max(0, i-200):min(len(log), i+100)])
			}
		}
		got := map[string]int{}
		broken := 0
		for _, l := range strings.Split(log, "\n") {
			for _, ln := range []string{"broken", "m x 1"} {
				if strings.Contains(l, fmt.Sprintf("%q", ln)) {
					broken++
				}
			}
			for w := range wants {
				p := strings.Split(w, " ")
				if strings.Contains(l, ": "+p[0]+",") && strings.Contains(l, fmt.Sprintf("%q", p[1])) && strings.Contains(l, fmt.Sprintf("%q", p[2])) {
					got[w]++
				}
			}
		}
		if !reflect.DeepEqual(got, wants) {
			return fmt.Errorf("answered requests: %v; in the output: %v\n%s", wants, got, log)
		}
		if broken != bad {
			return fmt.Errorf("%d malformed lines were sent, %d are in the output:\n%s", bad, broken, log)
		}
		if len(c.Reqs) > 0 && bad > 0 {
			x.NonTrivial()
		}
		return nil
	}
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P39",
		Rule: "requests: drawn requests, alone or together, of servers with and without credentials; dumps: drawn numbers of metrics into a database that stores, skips, fails or refuses; lines: connections with drawn malformed lines; stored: histories of the files database, healthy or then damaged; process: uses of the real binary. All with a recording logger and monitor, or without one; " +
			"non-trivial: something failed, and there was somebody to report to",
		Assumptions: []string{"reports are matched by the values in them (status, method, path, line, metric), and by the names of measurements", "handlers of static files write something"},
		HangS:       120,
		Shards:      8,
		Init: func(dir string) {
			p := os.Getpid()
			host = fmt.Sprintf("127.%d.%d.%d", 64+p>>14&63, p>>7&127, 1+p&127)
			binary = filepath.Join(dir, "rothko")
			cmd := exec.Command("go", "build", "-o", binary, "github.com/vivint/rothko/bin/rothko")
			cmd.Dir = filepath.Join(os.Getenv("VERIF_ROOT"), "harness")
			if out, err := cmd.CombinedOutput(); err != nil {
				fmt.Fprintf(os.Stderr, "building the server: %v\n%s", err, out)
				os.Exit(3)
			}
		},
	},
		vkit.P("requests", 12000, 250000, genRequests, requests),
		vkit.P("dumps", 15000, 300000, genDumps, dumps),
		vkit.P("lines", 2500, 60000, genLines, lines),
		vkit.P("stored", 3000, 60000, genStored, stored),
		vkit.P("process", 100, 2000, genProcess, process),
	)
}
