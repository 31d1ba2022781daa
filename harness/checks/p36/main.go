// P36: the command line does what it says or exits with an error.
package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	_ "github.com/vivint/rothko/dist/tdigest"
	"pgregory.net/rapid"
)

var binary string

type result struct {
	code int
	out  string
}

// exe runs the program in dir until it ends by itself.
func exe(x *vkit.Ctx, dir string, args ...string) (result, error) {
	var out bytes.Buffer
	cmd := exec.Command(binary, args...)
	cmd.Dir = dir
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	vkit.Must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			cmd.Process.Kill()
			<-done
		}
		return result{}, fmt.Errorf("%q does not end:\n%s", args, short(out.String()))
	}
	r := result{cmd.ProcessState.ExitCode(), out.String()}
	if strings.Contains(r.out, "goroutine ") && (strings.Contains(r.out, "panic:") || strings.Contains(r.out, "fatal error:")) {
		return r, fmt.Errorf("%q crashed:\n%s", args, short(r.out))
	}
	if r.code < 0 {
		return r, fmt.Errorf("%q was killed by a signal:\n%s", args, short(r.out))
	}
	return r, nil
}

func short(o string) string {
	if len(o) > 1500 {
		o = o[:700] + "\n...\n" + o[len(o)-700:]
	}
	return o
}

// tree describes everything below dir.
func tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		vkit.Must(err)
		s := fi.Mode().String()
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			vkit.Must(err)
			s += " " + string(b)
		}
		rel, _ := filepath.Rel(dir, p)
		out[rel] = s
		return nil
	})
	return out
}

func same(a, b map[string]string) error {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			return fmt.Errorf("%q is gone", k)
		} else if w != v {
			return fmt.Errorf("%q changed from %.80q to %.80q", k, v, w)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return fmt.Errorf("%q was created", k)
		}
	}
	return nil
}

// Init is a sequence of uses of init in one directory.
type Init struct {
	Before string // what is there first
	Text   string
	Runs   []string
}

func genInit(t *rapid.T) Init {
	c := Init{
		Before: rapid.SampledFrom([]string{"nothing", "nothing", "file", "empty file", "directory", "link to a file", "other files"}).Draw(t, "before"),
		Text:   rapid.StringMatching(`[a-z =\[\]\n"]{1,40}`).Draw(t, "text"),
	}
	for i := rapid.IntRange(1, 4).Draw(t, "runs"); i > 0; i-- {
		c.Runs = append(c.Runs, rapid.SampledFrom([]string{"init", "init", "init", "init x", "init rothko.toml", "help", "init --help", "-v", "unknown", "edit", "remove"}).Draw(t, "run"))
	}
	return c
}

func doInit(x *vkit.Ctx, c Init) error {
	dir := x.TempDir()
	path := filepath.Join(dir, "rothko.toml")
	switch c.Before {
	case "file":
		vkit.Must(os.WriteFile(path, []byte(c.Text), 0600))
	case "empty file":
		vkit.Must(os.WriteFile(path, nil, 0444))
	case "directory":
		vkit.Must(os.Mkdir(path, 0755))
	case "link to a file":
		vkit.Must(os.WriteFile(filepath.Join(dir, "other"), []byte(c.Text), 0644))
		vkit.Must(os.Symlink("other", path))
	case "other files":
		for _, n := range []string{"rothko.toml.bak", "rothko", "Rothko.toml"} {
			vkit.Must(os.WriteFile(filepath.Join(dir, n), []byte(c.Text), 0644))
		}
	}
	for i, run := range c.Runs {
		switch run {
		case "edit":
			if fi, err := os.Stat(path); err == nil && fi.Mode().IsRegular() {
				vkit.Must(os.Chmod(path, 0644))
				vkit.Must(os.WriteFile(path, []byte(c.Text), 0644))
			}
			continue
		case "remove":
			os.Remove(path)
			continue
		}
		before := tree(dir)
		_, there := before["rothko.toml"]
		r, err := exe(x, dir, strings.Fields(run)...)
		if err != nil {
			return fmt.Errorf("run %d: %v", i, err)
		}
		after := tree(dir)
		if run == "init" && !there {
			if r.code != 0 {
				return fmt.Errorf("run %d: init exited with status %d where there is no file:\n%s", i, r.code, short(r.out))
			}
			b, err := os.ReadFile(path)
			if err != nil {
				return fmt.Errorf("run %d: init: %v", i, err)
			}
			if string(b) != config.InitialConfig {
				return fmt.Errorf("run %d: init wrote something other than the starter configuration: %.300q", i, b)
			}
			if _, err := config.Load(b); err != nil {
				return fmt.Errorf("run %d: init wrote a configuration that does not load: %v", i, err)
			}
			if !strings.Contains(r.out, "rothko.toml") {
				return fmt.Errorf("run %d: init does not tell what it wrote: %q", i, r.out)
			}
			delete(after, "rothko.toml")
			if err := same(before, after); err != nil && err.Error() != fmt.Errorf("%q changed", ".").Error() {
				return fmt.Errorf("run %d: init: %v", i, err)
			}
			x.Label("starter file written")
			continue
		}
		if err := same(before, after); err != nil {
			return fmt.Errorf("run %d: %q with %s before: %v\n%s", i, run, c.Before, err, short(r.out))
		}
		wantOK := run == "help" || run == "init --help" || run == "-v"
		if wantOK != (r.code == 0) {
			return fmt.Errorf("run %d: %q with %s before exited with status %d:\n%s", i, run, c.Before, r.code, short(r.out))
		}
		if run == "init" {
			x.Label("existing file left alone")
			x.NonTrivial()
		}
	}
	return nil
}

// Demo is a sequence of uses of demo on one database.
type Demo struct {
	Cfg         store.Cfg
	Compression float64
	Existing    bool // values of these and other metrics are there already
	Future      bool // ... one of them newer than what demo adds
	Runs        int
	Procs       int
	Place       string // how the data directory is given
}

func genDemo(t *rapid.T) Demo {
	c := Demo{
		Cfg: store.Cfg{
			Size:    rapid.SampledFrom([]int{128, 256, 700, 4096}).Draw(t, "size"),
			Cap:     rapid.SampledFrom([]int{20, 100, 400, 2000}).Draw(t, "cap"),
			Files:   rapid.IntRange(1, 10).Draw(t, "files"),
			Buffer:  rapid.SampledFrom([]int{0, 0, 1, 5, 100}).Draw(t, "buffer"),
			Handles: rapid.SampledFrom([]int{-1, 0, 1, 10}).Draw(t, "handles"),
			Workers: rapid.SampledFrom([]int{0, 1, 2, 8}).Draw(t, "workers"),
			Drop:    rapid.SampledFrom([]bool{false, false, true}).Draw(t, "drop"),
		},
		Compression: rapid.SampledFrom([]float64{1, 5, 10, 100}).Draw(t, "compression"),
		Existing:    rapid.Bool().Draw(t, "existing"),
		Runs:        rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "runs"),
		Procs:       rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs"),
	}
	c.Place = rapid.SampledFrom([]string{"", "", "relative", "empty", "none"}).Draw(t, "place")
	c.Future = c.Existing && rapid.IntRange(0, 3).Draw(t, "future") == 0
	return c
}

var demoMetrics = []string{"exp.decreasing", "exp.increasing", "exp.stable", "normal.decreasing", "normal.increasing", "normal.stable"}

const day = int64(24 * time.Hour)

func conf(dir string, c Demo) string {
	return fmt.Sprintf("[main]\nduration = \"10m\"\n[[listeners.graphite]]\naddress = \"127.0.0.1:0\"\n"+
		"[database.files]\ndirectory = %q\nsize = %d\ncap = %d\nfiles = %d\n"+
		"[database.files.tuning]\nbuffer = %d\ndrop = %v\nhandles = %d\nworkers = %d\n"+
		"[dist.tdigest]\ncompression = %g.0\n[api]\naddress = \"127.0.0.1:0\"\n",
		dir, c.Cfg.Size, c.Cfg.Cap, c.Cfg.Files, c.Cfg.Buffer, c.Cfg.Drop, c.Cfg.Handles, c.Cfg.Workers, c.Compression)
}

func doDemo(x *vkit.Ctx, c Demo) error {
	dir := x.TempDir()
	datadir := filepath.Join(dir, "data")
	text, cwd := conf(datadir, c), dir
	given := fmt.Sprintf("directory = %q\n", datadir)
	switch c.Place {
	case "relative":
		text = strings.Replace(text, given, "directory = \"data\"\n", 1)
	case "empty":
		text, cwd = strings.Replace(text, given, "directory = \"\"\n", 1), datadir
	case "none":
		text, cwd = strings.Replace(text, given, "", 1), datadir
	}
	vkit.Must(os.MkdirAll(cwd, 0755))
	vkit.Must(os.WriteFile(filepath.Join(dir, "c.toml"), []byte(text), 0644))
	ocfg := c.Cfg
	ocfg.Drop, ocfg.Workers, ocfg.Handles = false, 1, 10
	before := map[string][]store.Val{}
	now := time.Now().UnixNano()
	if c.Existing {
		db := store.Open(datadir, ocfg)
		put := func(m string, start, end int64) error {
			v := store.Val{Start: start, End: end, Data: store.Payload(20, byte(len(before)))}
			ok, err := db.Put(m, v.Start, v.End, v.Data)
			if err != nil || !ok {
				return fmt.Errorf("writing first values: %v %v", ok, err)
			}
			before[m] = append([]store.Val{v}, before[m]...)
			return nil
		}
		for _, m := range []string{"mine", "exp", "exp.stable", "normal.increasing"} {
			if err := put(m, now-3*day, now-2*day); err != nil {
				return err
			}
		}
		if c.Future {
			if err := put("exp.increasing", now, now+day); err != nil {
				return err
			}
		}
		if err := db.Close(); err != nil {
			return err
		}
	}
	for run := 0; run < c.Runs; run++ {
		t0 := time.Now().UnixNano()
		vkit.Must(os.Setenv("GOMAXPROCS", fmt.Sprint(c.Procs)))
		r, err := exe(x, cwd, "demo", filepath.Join(dir, "c.toml"))
		if err != nil {
			return err
		}
		t1 := time.Now().UnixNano()
		fits := store.NumRecs(1<<12, c.Cfg.Size) <= c.Cfg.Cap // always enough for these records
		if r.code != 0 {
			if !fits && strings.Contains(r.out, "too large") {
				x.Label("records do not fit a file")
				return nil
			}
			return fmt.Errorf("demo exited with status %d:\n%s", r.code, short(r.out))
		}
		db := store.Open(datadir, ocfg)
		err = func() error {
			defer db.Close()
			if err := db.DB.PopulateMetrics(context.Background()); err != nil {
				return err
			}
			names, err := db.Names(-1)
			if err != nil {
				return err
			}
			want := map[string]bool{}
			for _, m := range demoMetrics {
				want[m] = true
			}
			for m := range before {
				want[m] = true
			}
			var ws []string
			for m := range want {
				ws = append(ws, m)
			}
			sort.Strings(ws)
			if !c.Cfg.Drop && fmt.Sprint(names) != fmt.Sprint(ws) {
				return fmt.Errorf("the database has metrics %q, want %q", names, ws)
			}
			for _, n := range names {
				if !want[n] {
					return fmt.Errorf("the database has a metric %q", n)
				}
				vals, err := db.All(n)
				if err != nil {
					return fmt.Errorf("%q: %v", n, err)
				}
				// what was there before is there still, unless rotated out
				old := before[n]
				isDemo := false
				for _, m := range demoMetrics {
					isDemo = isDemo || m == n
				}
				newer := vals
				if k := len(vals); k > 0 && len(old) > 0 {
					// the old ones are the tail of the list
					i := 0
					for i < k && vals[i].End > old[0].End {
						i++
					}
					newer = vals[:i]
					rest := vals[i:]
					if len(rest) > len(old) {
						return fmt.Errorf("%q: values before the existing ones were added: %d instead of %d", n, len(rest), len(old))
					}
					if err := store.SameVals(rest, old[:len(rest)]); err != nil {
						return fmt.Errorf("%q: existing values changed: %v", n, err)
					}
					if len(rest) < len(old) && len(newer) == 0 {
						return fmt.Errorf("%q: existing values are gone", n)
					}
				}
				if !isDemo && len(newer) > 0 {
					return fmt.Errorf("%q: %d values were added", n, len(newer))
				}
				if isDemo {
					if n == "exp.increasing" && c.Future {
						if len(newer) > 0 {
							return fmt.Errorf("%q: values were added after one of the future", n)
						}
					} else {
						if err := history(n, newer, c, run, t0, t1, len(old) == 0 || len(vals) > len(newer)); err != nil {
							return fmt.Errorf("%q after run %d: %v", n, run, err)
						}
					}
				}
				before[n] = vals
			}
			return nil
		}()
		if err != nil {
			return err
		}
		x.LabelIf(c.Cfg.Drop, "demo on a database that drops")
		x.LabelIf(run > 0, "demo again")
	}
	if c.Existing || c.Runs > 1 || c.Cfg.Drop {
		x.NonTrivial()
	}
	return nil
}

// history checks the records that one run of demo added to a metric.
func history(n string, vals []store.Val, c Demo, run int, t0, t1 int64, whole bool) error {
	if c.Cfg.Drop && len(vals) == 0 {
		return nil
	}
	if run == 0 && len(vals) == 0 {
		return fmt.Errorf("no records were added")
	}
	if len(vals) > 101 {
		return fmt.Errorf("%d records were added", len(vals))
	}
	prev := int64(math.MaxInt64)
	for i, v := range vals {
		var r data.Record
		if err := r.Unmarshal(v.Data); err != nil {
			return fmt.Errorf("record %d: %v", i, err)
		}
		if r.StartTime != v.Start || r.EndTime != v.End || v.Start >= v.End {
			return fmt.Errorf("record %d of %d to %d is stored as of %d to %d", i, r.StartTime, r.EndTime, v.Start, v.End)
		}
		if v.End > prev || (!c.Cfg.Drop && i > 0 && v.End != prev) {
			return fmt.Errorf("record %d ends at %d, the next starts at %d", i, v.End, prev)
		}
		prev = v.Start
		if v.Start < t0-day-int64(time.Minute) || v.End > t1+day/90 {
			return fmt.Errorf("record %d of %d to %d is outside of the day before %d", i, v.Start, v.End, t1)
		}
		d, err := load.Load(context.Background(), r)
		if err != nil {
			return fmt.Errorf("record %d: %v", i, err)
		}
		if d.Len() != r.Observations || r.Observations < 1 || r.Merged != 1 {
			return fmt.Errorf("record %d claims %d observations and %d merged, its distribution has %d", i, r.Observations, r.Merged, d.Len())
		}
		if !(r.Min <= r.Max) || math.IsInf(r.Min, 0) || math.IsInf(r.Max, 0) {
			return fmt.Errorf("record %d has values from %v to %v", i, r.Min, r.Max)
		}
		slack := (r.Max-r.Min)/1000 + 1e-3*math.Abs(r.Max)
		for _, q := range []float64{0.25, 0.5, 0.75} {
			if v := d.Query(q); c.Compression >= 5 && (v < r.Min-slack || v > r.Max+slack) {
				return fmt.Errorf("record %d has values from %v to %v, its quantile %v is %v", i, r.Min, r.Max, q, v)
			}
		}
	}
	if c.Cfg.Drop || run > 0 {
		return nil
	}
	if vals[0].End < t0-int64(time.Minute) {
		return fmt.Errorf("the newest record ends at %d, %v before now", vals[0].End, time.Duration(t0-vals[0].End))
	}
	// nothing can have been rotated out if everything fits in one file
	if c.Cfg.Cap >= 102*store.NumRecs(1<<11, c.Cfg.Size) {
		if len(vals) < 100 {
			return fmt.Errorf("%d records were stored", len(vals))
		}
		if got := vals[0].End - prev; got < day-int64(time.Minute) {
			return fmt.Errorf("the records are about the last %v", time.Duration(got))
		}
	}
	return nil
}

// Bad is a use of run or demo that cannot work.
type Bad struct {
	Cmd  string
	What string
	Kind string
}

var whats = []string{"missing file", "directory", "binary", "empty", "no arguments", "two arguments", "not toml", "no database", "no dist", "unknown database", "unknown dist", "wrong type size", "tiny size", "zero cap", "no compression", "zero compression", "negative compression", "infinite compression", "wrong type directory", "bad plugin", "bad duration", "data directory is a file", "record too large"}

func genBad(t *rapid.T) Bad {
	return Bad{
		Cmd:  rapid.SampledFrom([]string{"demo", "demo", "demo", "run"}).Draw(t, "cmd"),
		What: rapid.SampledFrom(whats).Draw(t, "what"),
		Kind: rapid.StringMatching("[a-z]{3,8}").Draw(t, "kind"),
	}
}

func doBad(x *vkit.Ctx, c Bad) error {
	dir := x.TempDir()
	datadir := filepath.Join(dir, "data")
	if c.Kind == "files" || c.Kind == "tdigest" {
		c.Kind += "x"
	}
	if c.Cmd == "run" && (c.What == "data directory is a file" || c.What == "record too large") {
		c.Cmd = "demo" // a server is not ended by failing writes
	}
	text := conf(datadir, Demo{Cfg: store.Cfg{Size: 256, Cap: 100, Files: 2, Buffer: 10, Handles: 5, Workers: 2}, Compression: 5})
	args := []string{c.Cmd, "c.toml"}
	cut := func(from, to string) {
		i := strings.Index(text, from)
		j := len(text)
		if to != "" {
			j = strings.Index(text, to)
		}
		text = text[:i] + text[j:]
	}
	sub := func(a, b string) {
		n := strings.Replace(text, a, b, 1)
		if n == text {
			panic(vkit.Harness{Err: fmt.Errorf("no %q in the configuration", a)})
		}
		text = n
	}
	switch c.What {
	case "missing file":
		args[1] = c.Kind
	case "directory":
		args[1] = "."
	case "binary":
		text = "\x7fELF\x00\x00" + c.Kind
	case "empty":
		text = ""
	case "no arguments":
		args = args[:1]
	case "two arguments":
		args = append(args, c.Kind)
	case "not toml":
		text += "\n[" + c.Kind + "\n= = 3\n"
	case "no database":
		cut("[database.files]", "[dist.")
	case "no dist":
		cut("[dist.", "[api]")
	case "unknown database":
		text = strings.ReplaceAll(text, "database.files", "database."+c.Kind)
	case "unknown dist":
		sub("tdigest", c.Kind)
	case "wrong type size":
		sub("size = 256", `size = "256"`)
	case "tiny size":
		sub("size = 256", `size = 24`)
	case "zero cap":
		sub("cap = 100", `cap = 0`)
	case "no compression":
		sub("compression = 5.0", "")
	case "zero compression":
		sub("5.0", "0.0")
	case "negative compression":
		sub("5.0", "-5.0")
	case "infinite compression":
		sub("5.0", "1e300")
	case "wrong type directory":
		sub(fmt.Sprintf("%q", datadir), "5")
	case "bad plugin":
		sub("[main]", fmt.Sprintf("[main]\nplugins = [%q]", "./"+c.Kind+".so"))
	case "bad duration":
		sub(`"10m"`, fmt.Sprintf("%q", c.Kind))
	case "data directory is a file":
		vkit.Must(os.WriteFile(datadir, []byte(c.Kind), 0644))
	case "record too large":
		sub("cap = 100", "cap = 1")
		sub("size = 256", "size = 100")
		sub("5.0", "100.0")
	}
	vkit.Must(os.WriteFile(filepath.Join(dir, "c.toml"), []byte(text), 0644))
	before := tree(dir)
	r, err := exe(x, dir, args...)
	if err != nil {
		return fmt.Errorf("%s: %v", c.What, err)
	}
	if r.code == 0 {
		return fmt.Errorf("%q with an unusable configuration (%s) exited with success:\n%s", c.Cmd, c.What, short(r.out))
	}
	if strings.TrimSpace(r.out) == "" {
		return fmt.Errorf("%q with an unusable configuration (%s) does not tell why it fails", c.Cmd, c.What)
	}
	if c.What != "record too large" {
		if err := same(before, tree(dir)); err != nil {
			return fmt.Errorf("%q with an unusable configuration (%s): %v", c.Cmd, c.What, err)
		}
	}
	x.Label(c.What)
	x.NonTrivial()
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P36",
		Rule: "init: up to four uses of the binary built from the tree in a directory with nothing, a file, a link or a directory in the place of the starter file, with edits in between; demo: one or two uses on databases of drawn settings, with values already there, every record that was added read back; unusable: run and demo with one unusable thing, compared with the directory before; " +
			"non-trivial: init with something there, demo again, on existing values or on a database that drops, and every unusable configuration",
		Assumptions: []string{"a database configured to drop values may drop any of demo's", "runs as root: nothing is refused by permissions"},
		HangS:       170,
		Shards:      8,
		Init: func(dir string) {
			binary = filepath.Join(dir, "rothko")
			cmd := exec.Command("go", "build", "-o", binary, "github.com/vivint/rothko/bin/rothko")
			cmd.Dir = filepath.Join(os.Getenv("VERIF_ROOT"), "harness")
			if out, err := cmd.CombinedOutput(); err != nil {
				fmt.Fprintf(os.Stderr, "building the program: %v\n%s", err, out)
				os.Exit(3)
			}
		},
	},
		vkit.P("init", 300, 5000, genInit, doInit),
		vkit.P("demo", 240, 4000, genDemo, doDemo),
		vkit.P("unusable", 240, 3000, genBad, doBad),
	)
}
