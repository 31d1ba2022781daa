// P01: queries return exactly the retained history.
package main

import (
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

func main() {
	vkit.Main(vkit.Opts{
		ID: "P01",
		Rule: "random histories of writes, queries (any bound, early stop, failing callback, reused buffers) and latest reads over 1-3 metrics, compared step by step with a reference model, ending with a query at and just after every stored end; " +
			"non-trivial: at least 4 stored values, over more than one data file, and at least one query bound older than the newest file",
		Assumptions: []string{"record size >= 96 bytes so that file metadata fits", "end times below MaxInt64", "at least one historical file configured"},
	},
		vkit.P("history", 24000, 400000,
			func(t *rapid.T) store.Case {
				return store.GenCase(t, store.GenOpts{NotLater: true, Reopen: true, GetW: 4})
			},
			func(x *vkit.Ctx, c store.Case) error {
				r := store.NewRunner(x, c, store.Flags{})
				err := r.Run()
				r.Labels()
				if r.St.Stored >= 4 && r.St.NewFiles > 0 && r.St.OldGets > 0 {
					x.NonTrivial()
				}
				return err
			}),
	)
}
