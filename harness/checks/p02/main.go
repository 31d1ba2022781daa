// P02: writes are accepted iff later and fitting; refused writes change nothing.
package main

import (
	"fmt"

	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

func run(x *vkit.Ctx, c store.Case) error {
	r := store.NewRunner(x, c, store.Flags{FullEvery: true})
	err := r.Run()
	r.Labels()
	if r.St.Stored >= 3 && r.St.NotLater > 0 && r.St.TooLarge > 0 {
		x.NonTrivial()
	}
	if err != nil {
		return err
	}
	// a restart must not bring a refused write (or a metric that only ever had
	// refused writes) into existence
	db := store.Open(r.Dir, r.Cfg)
	defer db.Close()
	r.DB = db
	if err := r.WaitPopulated(); err != nil {
		return err
	}
	if err := db.Close(); err != nil {
		return err
	}
	names, err := db.Names(-1)
	if err != nil {
		return err
	}
	for _, n := range names {
		if m, ok := r.Model.M[n]; !ok || len(m.Files) == 0 {
			return fmt.Errorf("metric %q is listed although no write to it was ever stored", n)
		}
	}
	return r.CheckAll()
}

// records of any size, also such that no value or no metadata fits into
type OddPut struct {
	End int64
	Len int
}

type Odd struct {
	Size, Cap, Files int
	Base             int64
	Puts             []OddPut
	Reopen           int
}

func genOdd(t *rapid.T) Odd {
	c := Odd{Cap: rapid.IntRange(1, 4).Draw(t, "cap"), Files: rapid.IntRange(1, 3).Draw(t, "files"),
		Base: rapid.SampledFrom([]int64{0, 1000, 1530000000e9, 1 << 62}).Draw(t, "base"), Reopen: rapid.IntRange(0, 20).Draw(t, "reopen")}
	switch rapid.IntRange(0, 3).Draw(t, "sizes") {
	case 0:
		c.Size = rapid.IntRange(0, 110).Draw(t, "size")
	case 1:
		c.Size = rapid.SampledFrom([]int{23, 24, 25, 26}).Draw(t, "size")
	case 2:
		c.Size = 65535 + store.Header + rapid.IntRange(-2, 2).Draw(t, "size")
	case 3:
		c.Size = rapid.IntRange(40, 80).Draw(t, "size")
	}
	end := c.Base
	for i := rapid.IntRange(1, 10).Draw(t, "n"); i > 0; i-- {
		end += rapid.Int64Range(-1, 3).Draw(t, "dt")
		if end < 1 {
			end = 1
		}
		c.Puts = append(c.Puts, OddPut{End: end, Len: rapid.SampledFrom([]int{0, 1, 2, 10, 50, 100, 300}).Draw(t, "len")})
	}
	return c
}

func runOdd(x *vkit.Ctx, c Odd) error {
	cfg := store.Cfg{Size: c.Size, Cap: c.Cap, Files: c.Files, Workers: 1, Handles: 4}
	dir := x.TempDir()
	db := store.Open(dir, cfg)
	defer func() { db.Close() }()
	var kept []store.Val // newest first; as many as were seen to be there
	took, refused := 0, 0
	// whether the metadata of a file surely fits into a record; if not, a
	// write may fail after the value was stored
	sure := c.Size >= 80
	for i, p := range c.Puts {
		v := store.Val{Start: p.End - 1, End: p.End, Data: store.Payload(p.Len, byte(i+1))}
		ok, err := db.Put("m", v.Start, v.End, v.Data)
		if !sure && err != nil {
			return nil
		}
		later := len(kept) == 0 || kept[0].End < v.End
		if !later && ok {
			return fmt.Errorf("put %d ending at %d was taken after %v", i, v.End, kept[0])
		}
		if err != nil && ok {
			return fmt.Errorf("put %d: both stored and failed: %v", i, err)
		}
		if ok {
			kept = append([]store.Val{v}, kept...)
			took++
		} else if later {
			if err == nil {
				return fmt.Errorf("put %d ending at %d, after %v, was not stored and no reason given", i, v.End, kept)
			}
			refused++
			// when everything has ample room there is no reason to refuse
			if sure && c.Size <= 65535+store.Header && store.NumRecs(p.Len, c.Size) <= c.Cap {
				return fmt.Errorf("put %d of %d bytes into files of %d records of %d bytes: %v", i, p.Len, c.Cap, c.Size, err)
			}
		}
		if i == c.Reopen {
			if err := db.Close(); err != nil {
				return err
			}
			db = store.Open(dir, cfg)
		}
		if len(kept) == 0 {
			if got, err := db.All("m"); err == nil && len(got) > 0 {
				return fmt.Errorf("after put %d: nothing was taken but %v is stored", i, got)
			}
			continue
		}
		got, err := db.All("m")
		if err != nil {
			return fmt.Errorf("after put %d: %v", i, err)
		}
		if len(got) == 0 || len(got) > len(kept) {
			return fmt.Errorf("after put %d: stored are %v, taken were %v", i, got, kept)
		}
		if err := store.SameVals(got, kept[:len(got)]); err != nil {
			return fmt.Errorf("after put %d: %v", i, err)
		}
		kept = kept[:len(got)]
	}
	x.LabelIf(took == 0, "nothing fits")
	x.LabelIf(!sure, "small records")
	if took > 0 && refused > 0 {
		x.NonTrivial()
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P02",
		Rule: "random histories of accepted, out-of-order, empty, capacity-sized and oversized writes over 1-3 metrics; acceptance compared with a reference model and the whole history of every metric re-read after every step; " +
			"non-trivial: at least 3 stored, one refused as not later and one refused as too large",
		Assumptions: []string{"record size >= 96 bytes so that file metadata fits", "positive end times below MaxInt64"},
	},
		vkit.P("accept", 10000, 200000,
			func(t *rapid.T) store.Case {
				return store.GenCase(t, store.GenOpts{NotLater: true, TooLarge: true, Reopen: true, PutW: 14, GetW: 1, MaxOps: 25, MaxCap: 5})
			}, run),
		vkit.P("boundary", 6000, 100000,
			func(t *rapid.T) store.Case {
				// one metric, payloads right at the capacity of a file, the file
				// at every fill level
				c := store.Case{Metrics: []string{"m"}}
				c.Cfg = store.GenCfg(t, store.GenOpts{MaxCap: 4, MaxFiles: 2})
				chunk := c.Cfg.Size - store.Header
				n := rapid.IntRange(2, 14).Draw(t, "n")
				end := int64(100)
				for i := 0; i < n; i++ {
					k := rapid.IntRange(0, c.Cfg.Cap+1).Draw(t, "k")
					l := k*chunk + rapid.IntRange(-1, 1).Draw(t, "off")
					if l < 0 {
						l = 0
					}
					end += int64(rapid.IntRange(-1, 3).Draw(t, "dt"))
					c.Ops = append(c.Ops, store.Op{K: "put", Start: end - 1, End: end, Len: l, Fill: byte(i*4 + 2)})
				}
				return c
			}, run),
		vkit.P("any size", 6000, 100000, genOdd, runOdd),
	)
}
