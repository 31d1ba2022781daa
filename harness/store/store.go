// Package store drives the file database through its exported API and keeps a
// reference model of it.
package store

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
)

// Header is the fixed per-record overhead of the on-disk format.
const Header = 24

// Cfg is a database configuration.
type Cfg struct {
	Size, Cap, Files         int
	Buffer, Handles, Workers int
	Drop                     bool
}

// Options converts to the database's options.
func (c Cfg) Options() files.Options {
	return files.Options{
		Size: c.Size, Cap: c.Cap, Files: c.Files,
		Tuning: files.Tuning{Buffer: c.Buffer, Handles: c.Handles, Workers: c.Workers, Drop: c.Drop},
	}
}

// DB is a running database.
type DB struct {
	*files.DB
	Dir    string
	cancel func()
	done   chan error
	closed bool
}

// Open starts a database on dir.
func Open(dir string, c Cfg) *DB {
	d := files.New(dir, c.Options())
	ctx, cancel := context.WithCancel(context.Background())
	s := &DB{DB: d, Dir: dir, cancel: cancel, done: make(chan error, 1)}
	go func() { s.done <- d.Run(ctx) }()
	return s
}

// Close stops it and waits for Run to return.
func (d *DB) Close() error {
	if d.closed {
		return nil
	}
	d.closed = true
	d.cancel()
	err := <-d.done
	if errors.Is(err, context.Canceled) {
		err = nil
	}
	return err
}

// Put queues a value and waits for its answer. The payload buffer is
// scribbled over afterwards, as a caller may.
func (d *DB) Put(metric string, start, end int64, data []byte) (ok bool, err error) {
	type res struct {
		ok  bool
		err error
	}
	ch := make(chan res, 4)
	buf := append([]byte(nil), data...)
	if qerr := d.DB.Queue(context.Background(), metric, start, end, buf, func(ok bool, err error) {
		ch <- res{ok, err}
	}); qerr != nil {
		return false, fmt.Errorf("Queue: %v", qerr)
	}
	for i := range buf {
		buf[i] ^= 0xA5
	}
	r := <-ch
	return r.ok, r.err
}

// Val is a stored value.
type Val struct {
	Start, End int64
	Data       []byte
}

func (v Val) String() string {
	d := v.Data
	s := ""
	if len(d) > 6 {
		d, s = d[:6], "..."
	}
	return fmt.Sprintf("[%d,%d len=%d %x%s]", v.Start, v.End, len(v.Data), d, s)
}

// Eq compares two values.
func (v Val) Eq(o Val) bool {
	return v.Start == o.Start && v.End == o.End && bytes.Equal(v.Data, o.Data)
}

// Get collects a query. limit < 0 means all; otherwise the callback stops
// after limit values.
func (d *DB) Get(metric string, end int64, limit int, buf []byte) (out []Val, err error) {
	err = d.DB.Query(context.Background(), metric, end, buf,
		func(ctx context.Context, s, e int64, data []byte) (bool, error) {
			out = append(out, Val{s, e, append([]byte(nil), data...)})
			return limit < 0 || len(out) < limit, nil
		})
	return out, err
}

// All is Get of everything.
func (d *DB) All(metric string) ([]Val, error) { return d.Get(metric, 1<<63-1, -1, nil) }

// Latest is QueryLatest.
func (d *DB) Latest(metric string, buf []byte) (Val, error) {
	s, e, data, err := d.DB.QueryLatest(context.Background(), metric, buf)
	return Val{s, e, append([]byte(nil), data...)}, err
}

// Names lists the metrics; limit as in Get.
func (d *DB) Names(limit int) (out []string, err error) {
	err = d.DB.Metrics(context.Background(), func(n string) (bool, error) {
		out = append(out, n)
		return limit < 0 || len(out) < limit, nil
	})
	return out, err
}

// SameVals compares lists.
func SameVals(got, want []Val) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Errorf("value %d missing: want %v (got %d of %d values)", i, want[i], len(got), len(want))
		case i >= len(want):
			return fmt.Errorf("unexpected value %d: %v (want %d values)", i, got[i], len(want))
		case !got[i].Eq(want[i]):
			return fmt.Errorf("value %d is %v, want %v", i, got[i], want[i])
		}
	}
	return nil
}

// Payload makes a deterministic payload.
func Payload(n int, fill byte) []byte {
	b := make([]byte, n)
	x := uint32(fill)*2654435761 + 12345
	for i := range b {
		switch fill % 4 {
		case 0:
			b[i] = 0
		case 1:
			b[i] = 0xff
		default:
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		}
	}
	return b
}

// ---------------------------------------------------------------------------
// model

// MFile is the model of one data file.
type MFile struct {
	Size, Cap, Used int
	Vals            []Val // oldest first
}

// MMetric is the model of one metric.
type MMetric struct {
	Files   []*MFile // oldest first
	Dropped []Val
}

// NumRecs is how many slots a payload takes.
func NumRecs(n, size int) int {
	if n == 0 {
		return 1
	}
	return (n + size - Header - 1) / (size - Header)
}

// Outcome of a model write.
type Outcome int

const (
	Stored Outcome = iota
	NotLater
	TooLarge
)

// Newest returns the newest value.
func (m *MMetric) Newest() (Val, bool) {
	for i := len(m.Files) - 1; i >= 0; i-- {
		if n := len(m.Files[i].Vals); n > 0 {
			return m.Files[i].Vals[n-1], true
		}
	}
	return Val{}, false
}

// Write applies a write; rotated says that the oldest file was discarded.
func (m *MMetric) Write(c Cfg, v Val) (o Outcome, rotated, newFile bool) {
	if nv, ok := m.Newest(); ok && nv.End >= v.End {
		return NotLater, false, false
	}
	var f *MFile
	if len(m.Files) == 0 {
		f = &MFile{Size: c.Size, Cap: c.Cap}
		newFile = true
	} else {
		f = m.Files[len(m.Files)-1]
	}
	nr := NumRecs(len(v.Data), f.Size)
	if f.Used+nr > f.Cap {
		f = &MFile{Size: c.Size, Cap: c.Cap}
		nr = NumRecs(len(v.Data), f.Size)
		if nr > f.Cap {
			return TooLarge, false, false
		}
		newFile = true
	}
	if newFile {
		if c.Files > 0 && len(m.Files) >= c.Files+1 {
			m.Dropped = append(m.Dropped, m.Files[0].Vals...)
			m.Files = m.Files[1:]
			rotated = true
		}
		m.Files = append(m.Files, f)
	}
	f.Used += nr
	f.Vals = append(f.Vals, v)
	return Stored, rotated, newFile
}

// Query lists values newest first with end before q.
func (m *MMetric) Query(q int64) (out []Val) {
	for i := len(m.Files) - 1; i >= 0; i-- {
		vs := m.Files[i].Vals
		for j := len(vs) - 1; j >= 0; j-- {
			if vs[j].End < q {
				out = append(out, vs[j])
			}
		}
	}
	return out
}

// Model is a whole database.
type Model struct {
	M map[string]*MMetric
}

func NewModel() *Model { return &Model{M: map[string]*MMetric{}} }

func (m *Model) Metric(n string) *MMetric {
	x, ok := m.M[n]
	if !ok {
		x = &MMetric{}
		m.M[n] = x
	}
	return x
}

// Names with at least one stored value ever.
func (m *Model) Names() (out []string) {
	for n, x := range m.M {
		if len(x.Files) > 0 {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------------------
// operations

// Op is one step of a history.
type Op struct {
	K     string // put, get, latest, names, reopen, populate
	M     int
	Start int64  `json:",omitempty"`
	End   int64  `json:",omitempty"`
	Len   int    `json:",omitempty"`
	Fill  byte   `json:",omitempty"`
	N     int    `json:",omitempty"`
	Cfg   *Cfg   `json:",omitempty"`
	Fail  bool   `json:",omitempty"`
	Quit  bool   `json:",omitempty"` // a query whose asker goes away after N values
	Name  string `json:",omitempty"`
	Place string `json:",omitempty"` // how the directory is spelled
	Age   int    `json:",omitempty"` // how many earlier files there were meanwhile
}

// age renumbers the data files, as if by more earlier files had come and gone.
func age(dir string, by int) {
	var paths []string
	for p := range DataFiles(dir) {
		paths = append(paths, p)
	}
	sort.Slice(paths, func(i, j int) bool { return FileNum(paths[i]) > FileNum(paths[j]) })
	for _, p := range paths {
		vkit.Must(os.Rename(p, filepath.Join(filepath.Dir(p), fmt.Sprintf("%d.data", FileNum(p)+by))))
	}
}

// Places are ways to spell a directory.
var Places = []string{"", "slash", "slashes", "empty", "dot", "relative", "relative/", "dots"}

// place changes to a directory from which the spelling it returns means dir.
func place(dir, how string) string {
	base := filepath.Base(dir)
	cd := func(d string) { vkit.Must(os.Chdir(d)) }
	switch how {
	case "slash":
		return dir + "/"
	case "slashes":
		return filepath.Dir(dir) + "//" + base + "//"
	case "empty":
		cd(dir)
		return ""
	case "dot":
		cd(dir)
		return "."
	case "relative":
		cd(filepath.Dir(dir))
		return base
	case "relative/":
		cd(filepath.Dir(dir))
		return base + "/"
	case "dots":
		cd(dir)
		return "../" + base
	}
	return dir
}

// Case is a history.
type Case struct {
	Cfg     Cfg
	Metrics []string
	Ops     []Op
}

// Flags select what Run checks besides results.
type Flags struct {
	CheckFiles bool // on-disk bound after each step
	FullEvery  bool // full comparison after every step
}

// Stats describe what a run exercised.
type Stats struct {
	Stored, NotLater, TooLarge, Rotations, NewFiles, Multi, Reopens, Gets, OldGets, Reconfig int
}

// Runner executes a case.
type Runner struct {
	Ctx   *vkit.Ctx
	DB    *DB
	Model *Model
	Cfg   Cfg
	Case  Case
	St    Stats
	Fl    Flags
	Dir   string
	step  int
}

var errStop = errors.New("stop here")

// NewRunner prepares a run in a fresh directory.
func NewRunner(x *vkit.Ctx, c Case, fl Flags) *Runner {
	dir := filepath.Join(x.TempDir(), "db")
	vkit.Must(os.MkdirAll(dir, 0755))
	r := &Runner{Ctx: x, Model: NewModel(), Cfg: c.Cfg, Case: c, Fl: fl, Dir: dir}
	r.DB = Open(dir, c.Cfg)
	x.Cleanup(func() { r.DB.Close() })
	return r
}

func (r *Runner) errf(f string, a ...interface{}) error {
	return fmt.Errorf("step %d %+v: %s", r.step, r.Case.Ops[r.step], fmt.Sprintf(f, a...))
}

// WaitPopulated waits until the database's startup listing is done, i.e. all
// names known to the model before opening are listed.
func (r *Runner) WaitPopulated() error {
	want := r.Model.Names()
	var got []string
	for i := 0; i < 20000; i++ {
		var err error
		got, err = r.DB.Names(-1)
		if err != nil {
			return err
		}
		have := map[string]bool{}
		for _, n := range got {
			have[n] = true
		}
		miss := false
		for _, n := range want {
			if !have[n] {
				miss = true
			}
		}
		if !miss {
			return nil
		}
		pause(i)
	}
	return fmt.Errorf("listing after opening never contained all stored metrics: got %q want %q", got, want)
}

// Step runs one operation and compares.
func (r *Runner) Step(i int) error {
	r.step = i
	op := r.Case.Ops[i]
	name := ""
	if len(r.Case.Metrics) > 0 {
		name = r.Case.Metrics[op.M%len(r.Case.Metrics)]
	}
	switch op.K {
	case "put":
		v := Val{op.Start, op.End, Payload(op.Len, op.Fill)}
		before := r.Model.Metric(name)
		had := len(before.Files) > 0
		o, rot, nf := before.Write(r.Cfg, v)
		ok, err := r.DB.Put(name, v.Start, v.End, v.Data)
		switch o {
		case Stored:
			if !ok || err != nil {
				return r.errf("write of %v must be stored, got ok=%v err=%v", v, ok, err)
			}
			r.St.Stored++
			if NumRecs(op.Len, r.Cfg.Size) > 1 {
				r.St.Multi++
			}
			if rot {
				r.St.Rotations++
			}
			if nf && had {
				r.St.NewFiles++
			}
		case NotLater:
			if ok || err != nil {
				return r.errf("write of %v is not later than the newest value: want ok=false err=nil, got ok=%v err=%v", v, ok, err)
			}
			r.St.NotLater++
		case TooLarge:
			if ok || err == nil {
				return r.errf("write of %v cannot fit in a file: want ok=false and an error, got ok=%v err=%v", v, ok, err)
			}
			r.St.TooLarge++
		}
	case "get":
		m := r.Model.Metric(name)
		if op.Quit {
			if err := r.quitGet(name, op); err != nil {
				return err
			}
			break
		}
		if op.Fail {
			if err := r.failGet(name, op); err != nil {
				return err
			}
			break
		}
		limit := op.N - 1
		if op.N == 0 {
			limit = -1
		}
		if limit == 0 {
			limit = 1
		}
		var buf []byte
		if op.Len > 0 {
			buf = make([]byte, op.Len%50, op.Len)
		}
		got, err := r.DB.Get(name, op.End, limit, buf)
		want := m.Query(op.End)
		if limit > 0 && len(want) > limit {
			want = want[:limit]
		}
		if len(m.Files) == 0 {
			// unknown metric: an error or nothing
			if len(got) > 0 {
				return r.errf("values for a metric never stored: %v", got)
			}
			break
		}
		if err != nil {
			return r.errf("query failed: %v", err)
		}
		if err := SameVals(got, want); err != nil {
			return r.errf("query before %d limit %d: %v", op.End, limit, err)
		}
		r.St.Gets++
		if nf := len(m.Files); nf > 1 && len(m.Files[nf-1].Vals) > 0 && op.End <= m.Files[nf-1].Vals[0].End {
			r.St.OldGets++
		}
	case "latest":
		m := r.Model.Metric(name)
		var buf []byte
		if op.Len > 0 {
			buf = make([]byte, op.Len%50, op.Len)
		}
		got, err := r.DB.Latest(name, buf)
		want, ok := m.Newest()
		if !ok {
			if len(got.Data) != 0 || got.Start != 0 || got.End != 0 {
				return r.errf("latest of a metric without values: %v", got)
			}
			break
		}
		if err != nil {
			return r.errf("latest failed: %v", err)
		}
		if !got.Eq(want) {
			return r.errf("latest is %v, want %v", got, want)
		}
	case "reopen":
		if err := r.DB.Close(); err != nil {
			return r.errf("shutdown: %v", err)
		}
		if op.Cfg != nil {
			if *op.Cfg != r.Cfg {
				r.St.Reconfig++
			}
			r.Cfg = *op.Cfg
		}
		if op.Age > 0 {
			age(r.Dir, op.Age)
		}
		if op.Place != "" {
			r.Ctx.Cleanup(func() { r.DB.Close(); os.Chdir("/") })
		}
		r.DB = Open(place(r.Dir, op.Place), r.Cfg)
		r.DB.Dir = r.Dir
		r.St.Reopens++
	default:
		panic(vkit.Harness{Err: fmt.Errorf("unknown op %q", op.K)})
	}
	if r.Fl.CheckFiles {
		if err := r.CheckFiles(); err != nil {
			return r.errf("%v", err)
		}
	}
	if r.Fl.FullEvery {
		if err := r.CheckAll(); err != nil {
			return r.errf("%v", err)
		}
	}
	return nil
}

// failGet makes the callback fail after op.N values.
func (r *Runner) failGet(name string, op Op) error {
	m := r.Model.Metric(name)
	n := 0
	var got []Val
	err := r.DB.DB.Query(context.Background(), name, op.End, nil,
		func(ctx context.Context, s, e int64, data []byte) (bool, error) {
			got = append(got, Val{s, e, append([]byte(nil), data...)})
			if n++; n > op.N {
				return true, errStop
			}
			return true, nil
		})
	want := m.Query(op.End)
	if len(m.Files) == 0 {
		return nil
	}
	if len(want) > op.N {
		want = want[:op.N+1]
		if err == nil || !strings.Contains(err.Error(), errStop.Error()) {
			return r.errf("callback error was not returned: %v", err)
		}
	} else if err != nil {
		return r.errf("query failed: %v", err)
	}
	if err := SameVals(got, want); err != nil {
		return r.errf("query stopped by an error: %v", err)
	}
	return nil
}

// quitGet cancels the query after op.N values: what was delivered is right, and
// an answer cut short is not passed off as a whole one.
func (r *Runner) quitGet(name string, op Op) error {
	m := r.Model.Metric(name)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if op.N == 0 {
		cancel()
	}
	var got []Val
	err := r.DB.DB.Query(ctx, name, op.End, nil,
		func(ctx context.Context, s, e int64, data []byte) (bool, error) {
			got = append(got, Val{s, e, append([]byte(nil), data...)})
			if len(got) == op.N {
				cancel()
			}
			return true, nil
		})
	want := m.Query(op.End)
	if len(m.Files) == 0 {
		if len(got) > 0 {
			return r.errf("values for a metric never stored: %v", got)
		}
		return nil
	}
	if err != nil && ctx.Err() == nil {
		return r.errf("query failed: %v", err)
	}
	if err != nil && len(got) < len(want) {
		want = want[:len(got)]
	}
	if err := SameVals(got, want); err != nil {
		return r.errf("query before %d cancelled after %d values, which answered without an error: %v", op.End, op.N, err)
	}
	return nil
}

// CheckAll compares every metric's whole history and the latest values.
func (r *Runner) CheckAll() error {
	for _, name := range r.Case.Metrics {
		m, ok := r.Model.M[name]
		if !ok || len(m.Files) == 0 {
			continue
		}
		got, err := r.DB.All(name)
		if err != nil {
			return fmt.Errorf("metric %q: query failed: %v", name, err)
		}
		if err := SameVals(got, m.Query(1<<63-1)); err != nil {
			return fmt.Errorf("metric %q: %v", name, err)
		}
		lv, err := r.DB.Latest(name, nil)
		if err != nil {
			return fmt.Errorf("metric %q: latest failed: %v", name, err)
		}
		if w, _ := m.Newest(); !lv.Eq(w) {
			return fmt.Errorf("metric %q: latest is %v, want %v", name, lv, w)
		}
	}
	return nil
}

// CheckBounds queries every metric at every stored end and just after it.
func (r *Runner) CheckBounds() error {
	for _, name := range r.Case.Metrics {
		m, ok := r.Model.M[name]
		if !ok || len(m.Files) == 0 {
			continue
		}
		for _, v := range append([]Val{{0, 1, nil}}, m.Query(1<<63-1)...) {
			for _, q := range []int64{v.End, v.End + 1} {
				got, err := r.DB.Get(name, q, -1, nil)
				if err != nil {
					return fmt.Errorf("metric %q: query before %d failed: %v", name, q, err)
				}
				if err := SameVals(got, m.Query(q)); err != nil {
					return fmt.Errorf("metric %q: query before %d: %v", name, q, err)
				}
			}
		}
	}
	return nil
}

// DataFiles lists .data files below the database directory.
func DataFiles(dir string) (out map[string]int64) {
	out = map[string]int64{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && strings.HasSuffix(p, ".data") {
			out[p] = fi.Size()
		}
		return nil
	})
	return out
}

// CheckFiles bounds the number and size of the data files.
func (r *Runner) CheckFiles() error {
	per := map[string]int{}
	for p := range DataFiles(r.Dir) {
		per[filepath.Dir(p)]++
	}
	max := 0
	for d, n := range per {
		if n > max {
			max = n
		}
		if n > r.Cfg.Files+1 && r.Cfg.Files > 0 {
			return fmt.Errorf("%d data files in %s with %d historical files configured", n, d, r.Cfg.Files)
		}
	}
	return nil
}

// Run executes the whole history and ends with the full comparisons.
func (r *Runner) Run() error {
	for i := range r.Case.Ops {
		if err := r.Step(i); err != nil {
			return err
		}
	}
	if err := r.CheckAll(); err != nil {
		return fmt.Errorf("at the end: %v", err)
	}
	if err := r.CheckBounds(); err != nil {
		return fmt.Errorf("at the end: %v", err)
	}
	if err := r.DB.Close(); err != nil {
		return fmt.Errorf("shutdown: %v", err)
	}
	return nil
}

// Labels records what the run exercised.
func (r *Runner) Labels() {
	x, s := r.Ctx, r.St
	x.LabelIf(s.Rotations > 0, "history with rotation")
	x.LabelIf(s.NewFiles > 0, "history over several files")
	x.LabelIf(s.Multi > 0, "multi-record payload")
	x.LabelIf(s.NotLater > 0, "refused: not later")
	x.LabelIf(s.TooLarge > 0, "refused: too large")
	x.LabelIf(s.Reopens > 0, "reopened")
	x.LabelIf(s.Reconfig > 0, "reconfigured")
	x.LabelIf(s.OldGets > 0, "query older than newest file")
	x.LabelN("stored values", s.Stored)
	x.LabelN("queries", s.Gets)
}

// pause yields, then sleeps a little.
func pause(i int) {
	if i < 50 {
		runtime.Gosched()
		return
	}
	time.Sleep(500 * time.Microsecond)
}

// Gather runs f n times concurrently and waits.
func Gather(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(i)
		}()
	}
	wg.Wait()
}

// Mapped counts mappings of files below dir, and those of removed files.
func Mapped(dir string) (live, deleted int) {
	b, err := os.ReadFile("/proc/self/maps")
	vkit.Must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, dir+"/"); i >= 0 {
			if strings.HasSuffix(l, "(deleted)") {
				deleted++
			} else {
				live++
			}
		}
	}
	return
}
