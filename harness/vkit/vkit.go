// Package vkit runs generated-input checks: it drives rapid generators in
// sharded child processes, shrinks failures to a replay file, tells a crash of
// the code under test from a fault of the harness, and writes the evidence.
package vkit

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const harnessPath = "github.com/vivint/rothko/database/files/zzverif"
const codePath = "github.com/vivint/rothko"

// Ctx is handed to every execution of a case.
type Ctx struct {
	labels     map[string]int
	nontrivial bool
	Dir        string // scratch directory of this child process
	cleanup    []func()
	id         string
	knownHits  map[string]int
}

// Label counts a class of cases, for the evidence.
func (c *Ctx) Label(l string) { c.labels[l]++ }

// LabelIf counts a class when cond holds.
func (c *Ctx) LabelIf(cond bool, l string) {
	if cond {
		c.labels[l]++
	}
}

// LabelN adds n to a label.
func (c *Ctx) LabelN(l string, n int) { c.labels[l] += n }

// NonTrivial marks the case as non-trivial.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Cleanup registers something to run after the case.
func (c *Ctx) Cleanup(f func()) { c.cleanup = append(c.cleanup, f) }

var dirSeq int64

// TempDir makes a fresh directory for the case; it is removed after it.
func (c *Ctx) TempDir() string {
	d := filepath.Join(c.Dir, fmt.Sprintf("c%d", atomic.AddInt64(&dirSeq, 1)))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(Harness{err})
	}
	c.Cleanup(func() { os.RemoveAll(d) })
	return d
}

// Known reports whether key is listed as a known finding of this property;
// if so the caller must treat the failure as already recorded.
func (c *Ctx) Known(key string) bool {
	if _, ok := known[c.id][key]; ok {
		c.knownHits[key]++
		return true
	}
	return false
}

// Harness wraps an error of the harness itself: never a violation.
type Harness struct{ Err error }

func (h Harness) Error() string { return "harness: " + h.Err.Error() }

// Must panics with a harness error.
func Must(err error) {
	if err != nil {
		panic(Harness{err})
	}
}

// Errf is fmt.Errorf.
func Errf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

// Prop is one generated check.
type Prop interface {
	name() string
	run(s *shard) *failure
	replay(s *shard, raw json.RawMessage) *failure
	fuzz(s *shard, report func(*failure)) func(*testing.T, []byte)
}

type prop[C any] struct {
	nm       string
	quick    int
	thorough int
	gen      func(*rapid.T) C
	exec     func(*Ctx, C) error
	fixed    []C
}

// P makes a check out of a case generator and a deterministic runner. quick
// and thorough are the total number of generated cases over all shards.
func P[C any](name string, quick, thorough int, gen func(*rapid.T) C, exec func(*Ctx, C) error, fixed ...C) Prop {
	return &prop[C]{name, quick, thorough, gen, exec, fixed}
}

func (p *prop[C]) name() string { return p.nm }

type failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Seed     uint64          `json:"seed"`
	Harness  bool            `json:"harness,omitempty"`
}

type shard struct {
	id      string
	seed    uint64
	idx, n  int
	tier    string
	dir     string
	evals   int
	labels  map[string]int
	hashes  map[uint64]struct{}
	samples []json.RawMessage
	known   map[string]int
	perSub  map[string]int
	journal string
	tick    int64 // case sequence number
	ticks   int64 // watchdog ticks seen during this case
	hang    int64
}

type shardOut struct {
	Evals   int               `json:"evals"`
	Labels  map[string]int    `json:"labels"`
	Samples []json.RawMessage `json:"samples"`
	Known   map[string]int    `json:"known"`
	PerSub  map[string]int    `json:"per_sub"`
	Failure *failure          `json:"failure"`
	Done    bool              `json:"done"`
}

func (s *shard) one(sub string, c interface{}, exec func(*Ctx) error) (err error, raw json.RawMessage) {
	raw, jerr := json.Marshal(c)
	if jerr != nil {
		panic(Harness{jerr})
	}
	if s.journal != "" {
		j, _ := json.Marshal(failure{Property: s.id, Sub: sub, Case: raw, Seed: s.seed})
		os.WriteFile(s.journal, j, 0644)
	}
	atomic.AddInt64(&s.tick, 1)
	atomic.StoreInt64(&s.ticks, 0)
	ctx := &Ctx{labels: map[string]int{}, Dir: s.dir, id: s.id, knownHits: s.known}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if h, ok := r.(Harness); ok {
					err = h
					return
				}
				st := string(debug.Stack())
				if blame(st) == "code" {
					err = fmt.Errorf("panic: %v\n%s", r, trimStack(st))
				} else {
					err = Harness{fmt.Errorf("panic: %v\n%s", r, st)}
				}
			}
		}()
		defer func() {
			for i := len(ctx.cleanup) - 1; i >= 0; i-- {
				ctx.cleanup[i]()
			}
		}()
		err = exec(ctx)
	}()
	s.evals++
	s.perSub[sub]++
	for k, v := range ctx.labels {
		s.labels[k] += v
	}
	if ctx.nontrivial {
		h := sha256.Sum256(append([]byte(sub+"\x00"), raw...))
		s.hashes[binary.LittleEndian.Uint64(h[:8])] = struct{}{}
	}
	if len(raw) < 4000 && (len(s.samples) == 0 || (ctx.nontrivial && len(s.samples) < 4 && s.evals%7 == 0)) {
		s.samples = append(s.samples, raw)
	}
	return err, raw
}

type fakeTB struct {
	nm     string
	failed bool
	log    []string
}
type tbStop struct{}

func (f *fakeTB) Helper()                           {}
func (f *fakeTB) Name() string                      { return f.nm }
func (f *fakeTB) Logf(s string, a ...interface{})   { f.add(fmt.Sprintf(s, a...)) }
func (f *fakeTB) Log(a ...interface{})              { f.add(fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(s string, a ...interface{})  { panic(tbStop{}) }
func (f *fakeTB) Skip(a ...interface{})             { panic(tbStop{}) }
func (f *fakeTB) SkipNow()                          { panic(tbStop{}) }
func (f *fakeTB) Errorf(s string, a ...interface{}) { f.failed = true; f.add(fmt.Sprintf(s, a...)) }
func (f *fakeTB) Error(a ...interface{})            { f.failed = true; f.add(fmt.Sprint(a...)) }
func (f *fakeTB) Fatalf(s string, a ...interface{}) { f.Errorf(s, a...); panic(tbStop{}) }
func (f *fakeTB) Fatal(a ...interface{})            { f.Error(a...); panic(tbStop{}) }
func (f *fakeTB) FailNow()                          { f.failed = true; panic(tbStop{}) }
func (f *fakeTB) Fail()                             { f.failed = true }
func (f *fakeTB) Failed() bool                      { return f.failed }
func (f *fakeTB) add(s string) {
	if len(f.log) < 20 {
		f.log = append(f.log, s)
	}
}

func (p *prop[C]) run(s *shard) *failure {
	if s.idx == 0 {
		for _, c := range p.fixed {
			c := c
			if err, raw := s.one(p.nm, c, func(x *Ctx) error { return p.exec(x, c) }); err != nil {
				_, h := err.(Harness)
				return &failure{s.id, p.nm, err.Error(), raw, s.seed, h}
			}
		}
	}
	total := p.quick
	if s.tier == "thorough" {
		total = p.thorough
	}
	if pc := envInt("VKIT_PERCENT", 100); pc != 100 { // for mutation campaigns
		total = (total*pc + 99) / 100
	}
	n := total / s.n
	if s.idx < total%s.n {
		n++
	}
	if n == 0 {
		return nil
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "10s")
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%s/%d/%d", s.id, p.nm, s.seed, s.idx)))
	rs := binary.LittleEndian.Uint64(h[:8]) | 1
	flag.Set("rapid.seed", strconv.FormatUint(rs, 10))

	var last *failure
	var since time.Time // of the first failure
	var harness *failure
	tb := &fakeTB{nm: p.nm}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					harness = &failure{s.id, p.nm, fmt.Sprintf("panic in generator: %v\n%s", r, debug.Stack()), nil, s.seed, true}
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			c := p.gen(t)
			if last != nil && time.Since(since) > 30*time.Second {
				return // enough shrinking, of cases that take long
			}
			err, raw := s.one(p.nm, c, func(x *Ctx) error { return p.exec(x, c) })
			if err != nil {
				if h, ok := err.(Harness); ok {
					if harness == nil {
						harness = &failure{s.id, p.nm, h.Error(), raw, s.seed, true}
					}
					t.Fatalf("harness")
				}
				if last == nil {
					since = time.Now()
				}
				last = &failure{s.id, p.nm, err.Error(), raw, s.seed, false}
				t.Fatalf("violated")
			}
		})
	}()
	if last != nil {
		return last
	}
	if harness != nil {
		return harness
	}
	if tb.failed {
		return &failure{s.id, p.nm, strings.Join(tb.log, "\n"), nil, s.seed, true}
	}
	return nil
}

func (p *prop[C]) replay(s *shard, raw json.RawMessage) *failure {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		return &failure{s.id, p.nm, err.Error(), raw, s.seed, true}
	}
	err, _ := s.one(p.nm, c, func(x *Ctx) error { return p.exec(x, c) })
	if err != nil {
		_, h := err.(Harness)
		return &failure{s.id, p.nm, err.Error(), raw, s.seed, h}
	}
	return nil
}

// blame decides whether a stack's innermost relevant frame (below the panic)
// belongs to the code under test or to the harness.
func blame(stack string) string {
	lines := strings.Split(stack, "\n")
	// skip up to the last panic( frame so that deferred frames don't matter
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.sigpanic") {
			start = i
			break
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "created by") {
			continue
		}
		if strings.HasPrefix(l, harnessPath) || strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "pgregory.net") {
			return "harness"
		}
		if strings.HasPrefix(l, codePath) {
			return "code"
		}
	}
	return "unknown"
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// ---------------------------------------------------------------------------
// known findings

var known = map[string]map[string]string{}

var knownRe = regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)

func loadKnown(root string) {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		m := knownRe.FindStringSubmatch(strings.TrimSpace(l))
		if m == nil {
			continue
		}
		if known[m[1]] == nil {
			known[m[1]] = map[string]string{}
		}
		known[m[1]][m[2]] = m[3]
	}
}

// ---------------------------------------------------------------------------
// driver

// Opts describe a check.
type Opts struct {
	ID     string
	Rule   string
	Level  string // default exploration
	Shards int    // default 4
	// HangS is how many seconds a single case may take before it counts as
	// hung (default 90).
	HangS       int
	Assumptions []string
	// Env is added to the children's environment.
	Env []string
	// Init runs in each child before the checks.
	Init func(dir string)
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Main runs the check and exits.
func Main(o Opts, props ...Prop) {
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	loadKnown(root)
	if o.Level == "" {
		o.Level = "exploration"
	}
	if o.Shards == 0 {
		o.Shards = 4
	}
	if o.HangS == 0 {
		o.HangS = 90
	}
	if fuzzing != nil {
		fuzzMain(o, props)
		return
	}
	if os.Getenv("VKIT_CHILD") != "" {
		child(o, props)
		return
	}
	parent(o, root, props)
}

func child(o Opts, props []Prop) {
	dir := os.Getenv("VKIT_DIR")
	if err := os.Chdir(dir); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if limitMemory {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
		debug.SetMemoryLimit(3 << 30)
	}
	testing.Init()
	flag.CommandLine.Parse(nil)
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	s := &shard{
		id: o.ID, seed: seed, idx: envInt("VKIT_IDX", 0), n: envInt("VKIT_N", 1),
		tier: os.Getenv("VERIF_TIER"), dir: dir,
		labels: map[string]int{}, hashes: map[uint64]struct{}{},
		known: map[string]int{}, perSub: map[string]int{},
		journal: filepath.Join(dir, "journal.json"), hang: int64(o.HangS),
	}
	if o.Init != nil {
		o.Init(dir)
	}
	go func() {
		// one tick per delivered second: a suspended process does not count
		for {
			time.Sleep(time.Second)
			if atomic.AddInt64(&s.ticks, 1) > s.hang {
				buf := make([]byte, 4<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "VKIT-HANG: no progress for %d s\n%s\n", s.hang, buf)
				os.Exit(87)
			}
		}
	}()
	out := shardOut{}
	if rf := os.Getenv("VKIT_REPLAY"); rf != "" {
		var f failure
		b, err := os.ReadFile(rf)
		if err == nil {
			err = json.Unmarshal(b, &f)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, p := range props {
			if p.name() == f.Sub {
				for i := 0; i < envInt("VKIT_REPEAT", 1) && out.Failure == nil; i++ {
					out.Failure = p.replay(s, f.Case)
				}
			}
		}
	} else {
		only := os.Getenv("VKIT_ONLY")
		for _, p := range props {
			if only != "" && p.name() != only {
				continue
			}
			if out.Failure = p.run(s); out.Failure != nil {
				break
			}
		}
	}
	out.Evals, out.Labels, out.Samples, out.Known, out.PerSub, out.Done = s.evals, s.labels, s.samples, s.known, s.perSub, true
	b, err := json.Marshal(out)
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, "out.json"), b, 0644)
	}
	if err == nil {
		var hb bytes.Buffer
		for h := range s.hashes {
			binary.Write(&hb, binary.LittleEndian, h)
		}
		err = os.WriteFile(filepath.Join(dir, "hashes"), hb.Bytes(), 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

type childRes struct {
	out    shardOut
	dir    string
	err    error
	stderr string
	code   int
	sig    bool
	ended  bool
}

// Shard children get at most this much output kept.
const maxLog = 1 << 20

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 2*maxLog {
		// keep the head (the first crash report) and the tail
		t.b = append(append([]byte{}, t.b[:maxLog]...), t.b[len(t.b)-maxLog/2:]...)
	}
	return len(p), nil
}

func scratchRoot() string {
	for _, d := range []string{os.Getenv("VKIT_SCRATCH"), "/dev/shm", os.TempDir()} {
		if d == "" {
			continue
		}
		if p, err := os.MkdirTemp(d, "vkit-"); err == nil {
			return p
		}
	}
	fmt.Fprintln(os.Stderr, "no scratch directory")
	os.Exit(3)
	return ""
}

func parent(o Opts, root string, props []Prop) {
	start := time.Now()
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	replay := ""
	if len(os.Args) > 1 {
		replay, _ = filepath.Abs(os.Args[1])
	}
	scratch := scratchRoot()
	exit := func(code int) {
		os.RemoveAll(scratch)
		os.Exit(code)
	}
	n := o.Shards
	if replay != "" {
		n = 1
	}
	self, _ := os.Executable()
	results := make([]*childRes, n)
	var wg sync.WaitGroup
	var mu sync.Mutex
	cmds := make([]*exec.Cmd, n)
	stop := false
	for i := 0; i < n; i++ {
		i := i
		dir := filepath.Join(scratch, fmt.Sprintf("s%d", i))
		os.MkdirAll(dir, 0755)
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(),
			"VKIT_CHILD=1", "VKIT_DIR="+dir, "VKIT_IDX="+strconv.Itoa(i), "VKIT_N="+strconv.Itoa(n),
			"VERIF_SEED="+strconv.FormatUint(seed, 10), "VERIF_TIER="+tier, "VERIF_ROOT="+root,
			"VKIT_REPLAY="+replay, "GOTRACEBACK=all", "GORACE=halt_on_error=1", "TMPDIR="+dir)
		if replay != "" && os.Getenv("VKIT_REPEAT") == "" {
			cmd.Env = append(cmd.Env, "VKIT_REPEAT=1")
		}
		cmd.Env = append(cmd.Env, o.Env...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		tb := &tailBuf{}
		cmd.Stderr, cmd.Stdout = tb, tb
		cmds[i] = cmd
		res := &childRes{dir: dir}
		results[i] = res
		wg.Add(1)
		go func() {
			defer wg.Done()
			// Pdeathsig is tied to the starting thread
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			mu.Lock()
			if stop {
				mu.Unlock()
				return
			}
			err := cmd.Start()
			mu.Unlock()
			if err != nil {
				res.err, res.ended = err, true
				return
			}
			err = cmd.Wait()
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			mu.Lock()
			defer mu.Unlock()
			res.stderr = string(tb.b)
			res.err = err
			if err != nil {
				if ee, ok := err.(*exec.ExitError); ok {
					res.code = ee.ExitCode()
					if ws, ok := ee.Sys().(syscall.WaitStatus); ok {
						res.sig = ws.Signaled()
					}
				}
			}
			if b, err := os.ReadFile(filepath.Join(dir, "out.json")); err == nil {
				json.Unmarshal(b, &res.out)
			}
			res.ended = true
			bad := !res.out.Done || res.out.Failure != nil || res.err != nil
			if bad && !stop {
				stop = true
				for j, c := range cmds {
					if j != i && c.Process != nil && !results[j].ended {
						syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
						results[j].ended = false
						results[j].code = -99
					}
				}
			}
		}()
	}
	wg.Wait()

	// decide
	var fail *failure
	var harness string
	for i, r := range results {
		if r.out.Failure != nil {
			if r.out.Failure.Harness {
				harness = fmt.Sprintf("shard %d: %s: %s", i, r.out.Failure.Sub, r.out.Failure.Error)
				continue
			}
			fail = r.out.Failure
			break
		}
	}
	if fail == nil {
		for i, r := range results {
			if r.out.Done && r.out.Failure == nil && r.err == nil {
				continue
			}
			if r.out.Failure != nil {
				continue
			}
			var f failure
			if b, err := os.ReadFile(filepath.Join(r.dir, "journal.json")); err == nil {
				json.Unmarshal(b, &f)
			}
			f.Property, f.Seed = o.ID, seed
			kind, msg := classifyCrash(r)
			outside := kind == "killed" && r.code != -99
			if replay == "" && os.Getenv("VKIT_AGAIN") == "" && (stillRunning(r.stderr) || starved(r.stderr) || outside) {
				// the case was not waiting for anything, so it either does not
				// end, which it will not do the next time either, or it was
				// kept from running; so it is with one that got no memory, or
				// was ended because it had too much
				fmt.Fprintf(os.Stderr, "check %s: a case was kept from running; trying once more\n", o.ID)
				os.RemoveAll(scratch)
				os.Setenv("VKIT_AGAIN", "1")
				if err := syscall.Exec(self, os.Args, os.Environ()); err != nil {
					fmt.Fprintln(os.Stderr, err)
				}
				os.Exit(3)
			}
			switch kind {
			case "code":
				f.Error = msg
				fail = &f
			case "killed":
				if harness == "" {
					harness = fmt.Sprintf("shard %d was ended: %v", i, r.err)
				}
			default:
				harness = fmt.Sprintf("shard %d: %v: %s", i, r.err, msg)
			}
			if fail != nil {
				break
			}
		}
	}

	labels, perSub, knownHits := map[string]int{}, map[string]int{}, map[string]int{}
	evals := 0
	hashes := map[uint64]struct{}{}
	var samples []json.RawMessage
	for _, r := range results {
		evals += r.out.Evals
		for k, v := range r.out.Labels {
			labels[k] += v
		}
		for k, v := range r.out.PerSub {
			perSub[k] += v
		}
		for k, v := range r.out.Known {
			knownHits[k] += v
		}
		if b, err := os.ReadFile(filepath.Join(r.dir, "hashes")); err == nil {
			for len(b) >= 8 {
				hashes[binary.LittleEndian.Uint64(b)] = struct{}{}
				b = b[8:]
			}
		}
		for i, s := range r.out.Samples {
			if i < 2 && len(samples) < 6 {
				samples = append(samples, s)
			}
		}
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}

	var keys []string
	for k := range known[o.ID] {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if replay == "" {
		for _, k := range keys {
			fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", o.ID, k, known[o.ID][k])
		}
	}

	if harness != "" && fail == nil {
		fmt.Fprintf(os.Stderr, "check %s could not decide: %s\n", o.ID, harness)
		exit(2)
	}

	violations := 0
	if fail != nil {
		violations = 1
	}
	if replay == "" {
		ev := map[string]interface{}{
			"property": o.ID, "tier": tier, "seed": seed, "level": o.Level,
			"coverage": map[string]interface{}{
				"evaluations":         evals,
				"distinct_nontrivial": len(hashes),
				"rule":                o.Rule,
				"samples":             samples,
				"labels":              labels,
				"cases_per_subcheck":  perSub,
				"known_finding_hits":  knownHits,
				"shards":              n,
			},
			"assumptions": append([]string{}, o.Assumptions...),
			"wall_s":      time.Since(start).Seconds(),
			"violations":  violations,
		}
		b, _ := json.MarshalIndent(ev, "", "  ")
		os.MkdirAll(filepath.Join(root, "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(root, "evidence", o.ID+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			exit(3)
		}
	}
	if fail != nil {
		path := replay
		if path == "" {
			rd := filepath.Join(root, "replays")
			os.MkdirAll(rd, 0755)
			path = filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", o.ID, fail.Sub, seed))
			b, _ := json.MarshalIndent(fail, "", "  ")
			os.WriteFile(path, b, 0644)
		}
		e := fail.Error
		if len(e) > 6000 {
			e = e[:6000] + "..."
		}
		cs := string(fail.Case)
		if len(cs) > 3000 {
			cs = cs[:3000] + "..."
		}
		fmt.Printf("sub-check: %s\ncase: %s\nfailure: %s\n", fail.Sub, cs, e)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.ID, path)
		exit(1)
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n",
		o.ID, tier, seed, evals, len(hashes), time.Since(start).Seconds())
	if os.Getenv("VKIT_VERBOSE") != "" {
		b, _ := json.MarshalIndent(map[string]interface{}{"labels": labels, "per_sub": perSub, "known": knownHits}, "", "  ")
		fmt.Println(string(b))
	}
	exit(0)
}

// classifyCrash looks at a child that died: "code" if the code under test is
// to blame, "killed" if something ended it from outside, else "harness".
func classifyCrash(r *childRes) (string, string) {
	log := r.stderr
	if i := strings.Index(log, "WARNING: DATA RACE"); i >= 0 {
		sect := log[i:]
		if j := strings.Index(sect, "=================="); j >= 0 {
			sect = sect[:j]
		}
		if raceInCode(sect) {
			return "code", sect
		}
		return "harness", sect
	}
	if i := strings.Index(log, "VKIT-HANG"); i >= 0 {
		// a case takes a fraction of the time, so whatever it waits for (an
		// answer that never comes, for instance) is not going to happen
		return "code", head(log[i:], 8000)
	}
	if r.code == -99 || r.sig {
		return "killed", ""
	}
	for _, pre := range []string{"panic: ", "fatal error: ", "unexpected fault address", "SIGBUS", "SIGSEGV"} {
		i := strings.Index(log, "\n"+pre)
		if strings.HasPrefix(log, pre) {
			i = 0
		}
		if i < 0 {
			continue
		}
		sect := log[i:]
		if strings.Contains(sect, "out of memory") || strings.Contains(sect, "cannot allocate memory") || strings.Contains(sect, "failed to create new OS thread") {
			// within the address space limit of the children, memory runs out
			// only when the code asks for an absurd amount of it
			if j := strings.Index(sect, "\ngoroutine "); j >= 0 && strings.Contains(sect, "out of memory") {
				g := sect[j+1:]
				if k := strings.Index(g, "\n\n"); k >= 0 {
					g = g[:k]
				}
				if blame(g) == "code" {
					return "code", head(sect, 6000)
				}
			}
			return "harness", "memory: " + head(sect, 400)
		}
		if strings.Contains(sect, "all goroutines are asleep") {
			if hangInCode(sect) {
				return "code", head(sect, 6000)
			}
			return "harness", head(sect, 6000)
		}
		// first goroutine trace
		g := sect
		if j := strings.Index(g, "\ngoroutine "); j >= 0 {
			g = g[j+1:]
			if k := strings.Index(g, "\n\n"); k >= 0 {
				g = g[:k]
			}
		}
		if blame(g) == "code" {
			return "code", head(sect, 6000)
		}
		return "harness", head(sect, 6000)
	}
	return "harness", head(log, 4000)
}

// starved is whether the process could not get memory or a thread.
func starved(log string) bool {
	for _, s := range []string{"fatal error: out of memory", "runtime: out of memory", "cannot allocate memory", "failed to create new OS thread"} {
		if strings.Contains(log, s) {
			return true
		}
	}
	return false
}

// stillRunning is whether the goroutine of the case was not waiting when a case
// was found to make no progress.
func stillRunning(log string) bool {
	i := strings.Index(log, "VKIT-HANG")
	if i < 0 {
		return false
	}
	for _, state := range []string{"running", "runnable"} {
		if strings.Contains(log[i:], "\ngoroutine 1 ["+state) {
			return true
		}
	}
	return false
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// inFake: the frame is one of a stand-in that the code under test calls; it is
// the caller that must not overlap its calls.
func inFake(l string) bool { return strings.HasPrefix(l, harnessPath+"/fake") }

// raceInCode: at least one of the racing accesses happens in the code under
// test (its innermost rothko-or-harness frame is rothko's).
func raceInCode(sect string) bool {
	code, harness := 0, 0
	for _, part := range strings.Split(sect, "\n\n") {
		t := strings.TrimSpace(part)
		if !strings.Contains(part, " at 0x") || strings.HasPrefix(t, "Goroutine") {
			continue
		}
		decided := false
		for _, l := range strings.Split(part, "\n") {
			l = strings.TrimSpace(l)
			if decided {
				break
			}
			if inFake(l) {
				continue
			} else if strings.HasPrefix(l, harnessPath) || strings.HasPrefix(l, "main.") {
				harness++
				decided = true
			} else if strings.HasPrefix(l, codePath) {
				code++
				decided = true
			}
		}
	}
	return code > 0
}

// hangInCode: some goroutine is blocked inside the code under test.
func hangInCode(sect string) bool {
	for _, g := range strings.Split(sect, "\n\n") {
		for _, l := range strings.Split(g, "\n") {
			if inFake(l) {
				continue
			}
			if strings.HasPrefix(l, harnessPath) || strings.HasPrefix(l, "main.") {
				break
			}
			if strings.HasPrefix(l, codePath) {
				return true
			}
		}
	}
	return false
}
