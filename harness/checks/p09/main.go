// P09: the metric listing is complete, duplicate-free and truthful.
package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

var pool = []string{"a", "a.b", "a.b.c", "b", "a-b", "aa", "a..b", ".a", "a.", "z", "Z", "a/b", "a%b", "é", "",
	// the longest a component can be, and very many of them
	strings.Repeat("n", 255), "w." + strings.Repeat("l", 254) + "." + strings.Repeat("q", 255), strings.Repeat("/", 85), strings.Repeat("d.", 300) + "d"}

// Op of a listing history.
type Op struct {
	K   string // put, late, big, get, latest, list, stop, err, reopen, populate, during
	M   int
	N   int
	Par []int `json:",omitempty"`
}

type Case struct {
	Workers int
	Buffer  int
	Pre     int // metrics stored by an earlier process
	Wide    int // how long their names are, at least
	Ops     []Op
}

func gen(t *rapid.T) Case {
	c := Case{Workers: rapid.IntRange(1, 4).Draw(t, "workers"), Buffer: rapid.IntRange(0, 2).Draw(t, "buffer"), Pre: rapid.SampledFrom([]int{0, 0, 1, 3, 20}).Draw(t, "pre"),
		Wide: rapid.SampledFrom([]int{0, 0, 40, 150, 255}).Draw(t, "wide")}
	n := rapid.IntRange(1, 30).Draw(t, "n")
	for i := 0; i < n; i++ {
		o := Op{K: rapid.SampledFrom([]string{"put", "put", "put", "late", "big", "get", "latest", "list", "stop", "err", "reopen", "populate", "during"}).Draw(t, "k")}
		o.M = rapid.IntRange(0, len(pool)-1).Draw(t, "m")
		o.N = rapid.IntRange(0, 5).Draw(t, "n")
		if o.K == "during" {
			o.Par = rapid.SliceOfN(rapid.IntRange(0, len(pool)-1), 1, 4).Draw(t, "par")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func (c Case) pre(i int) string {
	last := fmt.Sprintf("x%d", i)
	for k := 0; len(last) < c.Wide; k++ {
		last += string(rune('a' + (i+k)%26))
	}
	return fmt.Sprintf("pre.%d.%s", i%3, last)
}

func run(x *vkit.Ctx, c Case) error {
	dir := filepath.Join(x.TempDir(), "db")
	vkit.Must(os.MkdirAll(dir, 0755))
	cfg := store.Cfg{Size: 96, Cap: 4, Files: 2, Handles: 10, Workers: c.Workers, Buffer: c.Buffer}
	want := map[string]bool{}
	ends := map[string]int64{}
	if c.Pre > 0 {
		db := store.Open(dir, cfg)
		for i := 0; i < c.Pre; i++ {
			if ok, err := db.Put(c.pre(i), 1, 2, []byte("x")); !ok || err != nil {
				db.Close()
				return fmt.Errorf("write: %v %v", ok, err)
			}
			want[c.pre(i)] = true
		}
		if err := db.Close(); err != nil {
			return err
		}
	}
	db := store.Open(dir, cfg)
	defer func() { db.Close() }()
	sorted := func() (out []string) {
		for n := range want {
			out = append(out, n)
		}
		sort.Strings(out)
		return
	}
	// starting up is over when everything stored by earlier processes is
	// listed; only those can still be missing until then.
	started := func() error {
		w := sorted()
		for i := 0; ; i++ {
			got, err := db.Names(-1)
			if err != nil {
				return err
			}
			if len(got) >= len(w) || i > 20000 {
				return nil
			}
			pause(i)
		}
	}
	list := func() error {
		got, err := db.Names(-1)
		if err != nil {
			return err
		}
		return same(got, sorted())
	}
	put := func(m string) error {
		ends[m] += 5
		ok, err := db.Put(m, ends[m]-1, ends[m], []byte("v"))
		if !ok || err != nil {
			return fmt.Errorf("write to %q: ok=%v err=%v", m, ok, err)
		}
		want[m] = true
		return nil
	}
	if err := started(); err != nil {
		return err
	}
	x.LabelIf(c.Pre > 0, "metrics of an earlier process")
	lists, restarted, pops := 0, 0, 0
	for i, o := range c.Ops {
		m := pool[o.M]
		err := func() error {
			switch o.K {
			case "put":
				return put(m)
			case "late":
				// refused: not later, or even the first with nothing stored is
				// accepted, so only for stored ones
				if want[m] {
					if ok, err := db.Put(m, 0, ends[m], []byte("v")); ok || err != nil {
						return fmt.Errorf("late write: ok=%v err=%v", ok, err)
					}
				}
			case "big":
				// never fits
				if ok, err := db.Put(m, 0, ends[m]+1, make([]byte, 2000)); ok || err == nil {
					return fmt.Errorf("too large write: ok=%v err=%v", ok, err)
				}
			case "get":
				got, err := db.All(m)
				if err == nil && (len(got) > 0) != want[m] || want[m] && err != nil {
					return fmt.Errorf("query: %d values, error %v, stored: %v", len(got), err, want[m])
				}
			case "latest":
				db.Latest(m, nil)
			case "list":
				lists++
			case "stop":
				got, err := db.Names(o.N)
				w := sorted()
				lim := o.N
				if lim < 1 {
					lim = 1
				}
				if len(w) > lim {
					w = w[:lim]
				}
				if err != nil {
					return err
				}
				return same(got, w)
			case "err":
				var got []string
				boom := errors.New("boom")
				err := db.DB.Metrics(context.Background(), func(n string) (bool, error) {
					got = append(got, n)
					if len(got) > o.N {
						return true, boom
					}
					return true, nil
				})
				w := sorted()
				if len(w) > o.N {
					w = w[:o.N+1]
					if err == nil {
						return fmt.Errorf("the callback's error was swallowed")
					}
				} else if err != nil {
					return err
				}
				return same(got, w)
			case "reopen":
				if err := db.Close(); err != nil {
					return err
				}
				db = store.Open(dir, cfg)
				restarted++
				return started()
			case "populate":
				pops++
				return db.DB.PopulateMetrics(context.Background())
			case "during":
				// metrics that appear while the directory is being walked
				done := make(chan error, 1)
				go func() { done <- db.DB.PopulateMetrics(context.Background()) }()
				for _, p := range o.Par {
					if err := put(pool[p]); err != nil {
						return err
					}
					if _, err := db.Names(-1); err != nil {
						return err
					}
				}
				pops++
				if err := <-done; err != nil {
					return fmt.Errorf("populating: %v", err)
				}
			}
			return nil
		}()
		if err == nil {
			err = list()
		}
		if err != nil {
			return fmt.Errorf("step %d %+v (%q): %v", i, o, m, err)
		}
	}
	x.LabelIf(restarted > 0, "restarted")
	x.LabelIf(pops > 0, "directory walked again")
	if len(want) >= 2 && (restarted > 0 || pops > 0) {
		x.NonTrivial()
	}
	return nil
}

// Startup: many metrics on disk, new ones written while the process starts.
type Startup struct {
	Old     int
	New     []int // delays (in yields) before each new metric
	List    bool
	Workers int
}

func startup(x *vkit.Ctx, c Startup) error {
	dir := filepath.Join(x.TempDir(), "db")
	for i := 0; i < c.Old; i++ {
		d := filepath.Join(dir, "old", fmt.Sprintf("m%d", i))
		vkit.Must(os.MkdirAll(d, 0755))
		vkit.Must(os.WriteFile(filepath.Join(d, "1.data"), store.EmptyFile(96, 2), 0644))
	}
	vkit.Must(os.MkdirAll(dir, 0755))
	db := store.Open(dir, store.Cfg{Size: 96, Cap: 2, Files: 1, Handles: 10, Workers: c.Workers})
	defer db.Close()
	want := []string{}
	for i := 0; i < c.Old; i++ {
		want = append(want, fmt.Sprintf("old.m%d", i))
	}
	during := false
	for i, d := range c.New {
		for j := 0; j < d; j++ {
			runtime.Gosched()
		}
		n := fmt.Sprintf("%c.new%d", 'a'+i*5%26, i)
		if ok, err := db.Put(n, 1, 2, nil); !ok || err != nil {
			return fmt.Errorf("write: %v %v", ok, err)
		}
		want = append(want, n)
		if c.List {
			got, err := db.Names(-1)
			if err != nil {
				return err
			}
			if len(got) < c.Old {
				during = true
			}
			// what was acknowledged just now is listed, whatever else is not yet
			if err := has(got, want[c.Old:]); err != nil {
				return fmt.Errorf("listing after writing %q while starting up: %v", n, err)
			}
		}
	}
	for i := 0; ; i++ {
		got, err := db.Names(-1)
		if err != nil {
			return err
		}
		if has(got, want[:c.Old]) == nil {
			break
		}
		if i > 20000 {
			return fmt.Errorf("metrics on disk never listed")
		}
		pause(i)
	}
	sort.Strings(want)
	got, err := db.Names(-1)
	if err != nil {
		return err
	}
	x.LabelIf(during, "listed while the start-up walk was going on")
	if during {
		x.NonTrivial()
	}
	return same(got, want)
}

func has(got, want []string) error {
	set := map[string]bool{}
	for _, g := range got {
		if set[g] {
			return fmt.Errorf("%q listed twice", g)
		}
		set[g] = true
	}
	for _, w := range want {
		if !set[w] {
			return fmt.Errorf("%q is not listed", w)
		}
	}
	return nil
}

func same(got, want []string) error {
	if len(got) == len(want) {
		eq := true
		for i := range got {
			if got[i] != want[i] {
				eq = false
			}
		}
		if eq {
			return nil
		}
	}
	return fmt.Errorf("listed %q, want %q", got, want)
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P09",
		Rule: "histories of stored and refused writes, queries of metrics that do not exist, restarts, full, stopped and failing listings, and new directory walks (alone or while metrics are being added), the listing compared with the model after every step; and start-ups over many metrics on disk with new ones written meanwhile; " +
			"non-trivial: two or more metrics and a restart or new walk, or a listing taken while the start-up walk was not done",
		Assumptions: []string{"start-up is over when everything stored by earlier processes is listed"},
		HangS:       60,
	},
		vkit.P("history", 6000, 100000, gen, run),
		vkit.P("startup", 400, 8000, func(t *rapid.T) Startup {
			return Startup{
				Old:     rapid.SampledFrom([]int{1, 5, 30, 120, 300}).Draw(t, "old"),
				New:     rapid.SliceOfN(rapid.IntRange(0, 40), 1, 8).Draw(t, "new"),
				List:    rapid.Bool().Draw(t, "list"),
				Workers: rapid.IntRange(1, 3).Draw(t, "workers"),
			}
		}, startup),
	)
}
