// P03: retention is bounded and drops only the oldest file.
package main

import (
	"fmt"
	"path/filepath"

	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

func run(x *vkit.Ctx, c store.Case) error {
	r := store.NewRunner(x, c, store.Flags{FullEvery: len(c.Ops) < 30})
	rot := 0
	for i := range c.Ops {
		if err := r.Step(i); err != nil {
			return err
		}
		// the disk bound after every step
		per := map[string]int64{}
		cnt := map[string]int{}
		for p, n := range store.DataFiles(r.Dir) {
			per[filepath.Dir(p)] += n
			cnt[filepath.Dir(p)]++
		}
		limit := int64(r.Cfg.Size) * int64(r.Cfg.Cap+1) * int64(r.Cfg.Files+1)
		for d, n := range per {
			if cnt[d] > r.Cfg.Files+1 {
				return fmt.Errorf("step %d: %d data files in %s, at most %d allowed", i, cnt[d], d, r.Cfg.Files+1)
			}
			if n > limit {
				return fmt.Errorf("step %d: metric %s takes %d bytes, at most %d allowed", i, d, n, limit)
			}
		}
		rot = r.St.Rotations
	}
	r.Labels()
	x.LabelIf(rot >= 2, "rotated at least twice")
	x.LabelIf(rot >= 10, "rotated at least ten times")
	if rot >= 2 {
		x.NonTrivial()
	}
	if err := r.CheckAll(); err != nil {
		return err
	}
	return r.DB.Close()
}

// Lowered is a history over restarts with any number of historical files, none
// being no limit.
type Lowered struct {
	Size, Cap int
	Start     int // files configured at first
	Steps     []Step
}

// Step is a restart with so many files (if Files is not -1), or a write.
type Step struct {
	Files int
	Len   int // in thousandths of what fits into a file
}

func genLowered(t *rapid.T) Lowered {
	c := Lowered{Size: rapid.IntRange(96, 130).Draw(t, "size"), Cap: rapid.IntRange(1, 4).Draw(t, "cap"), Start: rapid.IntRange(0, 6).Draw(t, "start")}
	for i := rapid.IntRange(5, 60).Draw(t, "steps"); i > 0; i-- {
		st := Step{Files: -1, Len: rapid.SampledFrom([]int{0, 10, 300, 600, 1000, 1000}).Draw(t, "len")}
		if rapid.IntRange(0, 9).Draw(t, "restart") == 7 {
			st.Files = rapid.IntRange(0, 6).Draw(t, "files")
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

func runLowered(x *vkit.Ctx, c Lowered) error {
	dir := x.TempDir()
	cfg := store.Cfg{Size: c.Size, Cap: c.Cap, Files: c.Start, Handles: 2, Workers: 1}
	db := store.Open(dir, cfg)
	defer func() { db.Close() }()
	m := &store.MMetric{}
	end := int64(100)
	lowered, trimmed, high := false, false, 0
	for i, st := range c.Steps {
		if st.Files >= 0 {
			if err := db.Close(); err != nil {
				return err
			}
			lowered = lowered || st.Files > 0 && st.Files+1 < len(m.Files)
			cfg.Files = st.Files
			db = store.Open(dir, cfg)
		} else {
			end += 7
			v := store.Val{Start: end - 3, End: end, Data: store.Payload(st.Len*c.Cap*(c.Size-store.Header)/1000, byte(i))}
			before := len(m.Files)
			free := cfg
			free.Files = 0
			o, _, fresh := m.Write(free, v)
			if o != store.Stored {
				return fmt.Errorf("harness: outcome %v", o)
			}
			if ok, err := db.Put("m", v.Start, v.End, v.Data); !ok || err != nil {
				return fmt.Errorf("step %d: write: %v %v", i, ok, err)
			}
			// how many of the oldest files are gone
			n := len(store.DataFiles(dir))
			if n > len(m.Files) {
				return fmt.Errorf("step %d: %d data files, the values need %d", i, n, len(m.Files))
			}
			gone := len(m.Files) - n
			if gone > 0 && (cfg.Files == 0 || n < cfg.Files+1 || !fresh) {
				return fmt.Errorf("step %d: %d files discarded although %d historical ones are configured and there were %d files (a new one was needed: %v)", i, gone, cfg.Files, before, fresh)
			}
			limit := cfg.Files + 1
			if before > limit {
				limit = before
			}
			if cfg.Files > 0 && n > limit {
				return fmt.Errorf("step %d: %d data files with %d historical ones configured, there were %d", i, n, cfg.Files, before)
			}
			m.Files = m.Files[gone:]
			trimmed = trimmed || lowered && gone > 0
			if n > high {
				high = n
			}
		}
		got, err := db.All("m")
		if err != nil && len(m.Files) > 0 {
			return fmt.Errorf("step %d: %v", i, err)
		}
		if err := store.SameVals(got, m.Query(1<<63-1)); err != nil {
			return fmt.Errorf("step %d (%d files configured): %v", i, cfg.Files, err)
		}
	}
	x.LabelIf(lowered, "fewer files configured than there are")
	x.LabelIf(high > 7, "no limit for a while")
	if trimmed {
		x.NonTrivial()
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P03",
		Rule: "random write histories with small capacities (some long enough to rotate dozens of times), exact set of surviving values compared with a greedy file-packing model, number and bytes of data files measured on disk after every step; and histories over restarts with more, fewer or unlimited historical files, where only whole oldest files may go, only when a new one is needed, and not more than configured; " +
			"non-trivial: at least two rotations / a file discarded after the number was lowered",
		Assumptions: []string{"record size >= 96 bytes", "when fewer historical files are configured than there are, they may go one by one or at once, but there are never more than before"},
	},
		vkit.P("retain", 8000, 150000,
			func(t *rapid.T) store.Case {
				return store.GenCase(t, store.GenOpts{Metrics: []string{"m"}, NotLater: true, TooLarge: true, Reopen: true, PutW: 30, GetW: 1, MinOps: 5, MaxOps: 60, MaxCap: 4, MaxFiles: 3})
			}, run),
		vkit.P("long", 300, 5000,
			func(t *rapid.T) store.Case {
				return store.GenCase(t, store.GenOpts{Metrics: []string{"a.b"}, Reopen: true, PutW: 40, GetW: 1, MinOps: 100, MaxOps: 300, MaxCap: 6, MaxFiles: 9})
			}, run),
		vkit.P("lowered", 4000, 80000, genLowered, runLowered),
	)
}
