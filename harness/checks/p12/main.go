// P12: the file handle limit only affects speed and resources.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

func openFDs(dir string) (out []string) {
	es, err := os.ReadDir("/proc/self/fd")
	vkit.Must(err)
	for _, e := range es {
		if p, err := os.Readlink(filepath.Join("/proc/self/fd", e.Name())); err == nil {
			if p == dir || strings.HasPrefix(p, dir+"/") {
				out = append(out, p)
			}
		}
	}
	return
}

type Case struct {
	store.Case
	Limits []int
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P12",
		Rule: "the same random history (several metrics and files, rotations, reads of old files, restarts) executed under several handle limits, every result compared with one reference model; mappings of data files counted in /proc/self/maps after every operation and after shutdown, open descriptors after shutdown; " +
			"non-trivial: more data files existed than one of the limits, and at least one rotation happened",
		Assumptions: []string{"a mapping of a data file is what a handle is", "adjacent mappings of one file are not merged into fewer lines by the kernel (files are mapped whole, once)"},
		Shards:      8,
	},
		vkit.P("limits", 6000, 100000,
			func(t *rapid.T) Case {
				n := rapid.IntRange(1, 6).Draw(t, "nm")
				ms := []string{"a", "b", "c.d", "c.e", "c", "f"}[:n]
				c := store.GenCase(t, store.GenOpts{Metrics: ms, NotLater: true, TooLarge: true, Reopen: true, Reconfig: rapid.IntRange(0, 2).Draw(t, "reconfig") == 0, PutW: 10, GetW: 4, MinOps: 5, MaxOps: 60, MaxCap: 3})
				return Case{c, rapid.SliceOfN(rapid.SampledFrom([]int{-1, 1, 2, 3, 5, 64, 1 << 50}), 2, 3).Draw(t, "limits")}
			},
			func(x *vkit.Ctx, c Case) error {
				nt := false
				for li, lim := range c.Limits {
					cc := c.Case
					cc.Cfg.Handles = lim
					cc.Ops = append([]store.Op{}, cc.Ops...)
					for i, op := range cc.Ops {
						if op.Cfg != nil {
							// every process has a limit of its own
							nc := *op.Cfg
							nc.Handles = c.Limits[(li+i)%len(c.Limits)]
							cc.Ops[i].Cfg = &nc
						}
					}
					r := store.NewRunner(x, cc, store.Flags{})
					max := 0
					for i := range cc.Ops {
						if err := r.Step(i); err != nil {
							return fmt.Errorf("handle limit %d: %v", lim, err)
						}
						lim = r.Cfg.Handles
						live, del := store.Mapped(r.Dir)
						if live+del > lim && !(lim < 0 && live+del == 0) {
							return fmt.Errorf("handle limit %d: %d data files (%d of them removed) mapped after step %d", lim, live+del, del, i)
						}
						if del > 0 {
							return fmt.Errorf("handle limit %d: %d removed data files still mapped after step %d", lim, del, i)
						}
						if n := len(store.DataFiles(r.Dir)); n > max {
							max = n
						}
					}
					if err := r.CheckAll(); err != nil {
						return fmt.Errorf("handle limit %d: %v", lim, err)
					}
					if err := r.DB.Close(); err != nil {
						return fmt.Errorf("shutdown: %v", err)
					}
					if live, del := store.Mapped(r.Dir); live+del > 0 {
						return fmt.Errorf("handle limit %d: %d data files still mapped after shutdown", lim, live+del)
					}
					if fds := openFDs(r.Dir); len(fds) > 0 {
						return fmt.Errorf("handle limit %d: still open after shutdown: %v", lim, fds)
					}
					x.LabelIf(max > lim, "more files than handles")
					x.LabelIf(r.St.Rotations > 0, "history with rotation")
					if max > lim && r.St.Rotations > 0 {
						nt = true
					}
				}
				if nt {
					x.NonTrivial()
				}
				return nil
			}),
	)
}
