// P04: stored values survive restarts and reconfiguration.
package main

import (
	"fmt"
	"sort"

	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

func main() {
	vkit.Main(vkit.Opts{
		ID: "P04",
		Rule: "random histories of writes, reads, clean restarts and restarts with a different record size, capacity, file count, handle limit and worker count, compared step by step with a model that remembers the layout of each existing file; places: the directory spelled absolutely, relatively, as nothing or with slashes from restart to restart, the listing compared too; aged: data files renumbered between restarts as if up to ten billion had come and gone before; " +
			"non-trivial: at least one restart with changed options followed by more stored values, and at least 4 stored values in all / several restarts",
		Assumptions: []string{"record size >= 96 bytes", "the number of historical files is only raised"},
	},
		vkit.P("restart", 16000, 300000,
			func(t *rapid.T) store.Case {
				return store.GenCase(t, store.GenOpts{NotLater: true, TooLarge: true, Reopen: true, Reconfig: true, PutW: 5, GetW: 1, MinOps: 3, MaxOps: 40, MaxCap: 6})
			},
			func(x *vkit.Ctx, c store.Case) error {
				r := store.NewRunner(x, c, store.Flags{})
				after, at := 0, 0
				for i := range c.Ops {
					if err := r.Step(i); err != nil {
						return err
					}
					if r.St.Reconfig > 0 {
						if after == 0 {
							after, at = 1, r.St.Stored
						}
					}
					if c.Ops[i].K == "reopen" {
						if err := r.CheckAll(); err != nil {
							return err
						}
					}
				}
				if err := r.CheckAll(); err != nil {
					return err
				}
				if err := r.CheckBounds(); err != nil {
					return err
				}
				r.Labels()
				if after > 0 && r.St.Stored > at && r.St.Stored >= 4 {
					x.NonTrivial()
				}
				return r.DB.Close()
			}),
		// metrics that have been through many files
		vkit.P("aged", 4000, 80000,
			func(t *rapid.T) store.Case {
				c := store.GenCase(t, store.GenOpts{NotLater: true, Reopen: true, PutW: 6, GetW: 1, MinOps: 6, MaxOps: 40, MaxCap: 2, MaxFiles: 4})
				for i := range c.Ops {
					if c.Ops[i].K == "reopen" && rapid.Bool().Draw(t, "old") {
						c.Ops[i].Age = rapid.SampledFrom([]int{9, 99, 127, 255, 999, 9999, 32767, 65535, 99999, 1<<24 - 1, 1<<31 - 1, 1<<32 - 1, 9999999999}).Draw(t, "age") - rapid.IntRange(0, 4).Draw(t, "less")
					}
				}
				return c
			},
			func(x *vkit.Ctx, c store.Case) error {
				r := store.NewRunner(x, c, store.Flags{CheckFiles: true})
				aged, at := false, 0
				for i, o := range c.Ops {
					if err := r.Step(i); err != nil {
						return err
					}
					if o.Age > 0 {
						aged, at = true, r.St.Stored
						if err := r.CheckAll(); err != nil {
							return fmt.Errorf("files numbered by %d more: %v", o.Age, err)
						}
					}
				}
				if err := r.CheckAll(); err != nil {
					return err
				}
				if err := r.CheckBounds(); err != nil {
					return err
				}
				if aged && r.St.Stored > at+2 {
					x.NonTrivial()
				}
				return r.DB.Close()
			}),
		// the directory spelled differently from run to run
		vkit.P("places", 3000, 60000,
			func(t *rapid.T) store.Case {
				c := store.GenCase(t, store.GenOpts{NotLater: true, Reopen: true, Reconfig: true, PutW: 5, GetW: 1, MinOps: 3, MaxOps: 25, MaxCap: 6})
				for i := range c.Ops {
					if c.Ops[i].K == "reopen" {
						c.Ops[i].Place = rapid.SampledFrom(store.Places).Draw(t, "place")
					}
				}
				return c
			},
			func(x *vkit.Ctx, c store.Case) error {
				r := store.NewRunner(x, c, store.Flags{})
				for i, o := range c.Ops {
					if err := r.Step(i); err != nil {
						return err
					}
					if o.K != "reopen" {
						continue
					}
					if err := r.CheckAll(); err != nil {
						return fmt.Errorf("directory spelled %q: %v", o.Place, err)
					}
					if err := r.WaitPopulated(); err != nil {
						return fmt.Errorf("directory spelled %q: %v", o.Place, err)
					}
					got, err := r.DB.Names(-1)
					if err != nil {
						return err
					}
					want := r.Model.Names()
					sort.Strings(want)
					if fmt.Sprint(got) != fmt.Sprint(want) {
						return fmt.Errorf("directory spelled %q: lists %q, want %q", o.Place, got, want)
					}
					x.LabelIf(o.Place != "", "directory spelled "+o.Place)
				}
				if err := r.CheckAll(); err != nil {
					return err
				}
				if r.St.Stored >= 4 && r.St.Reopens > 1 {
					x.NonTrivial()
				}
				return r.DB.Close()
			}),
	)
}
