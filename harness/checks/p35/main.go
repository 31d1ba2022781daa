// P35: metric name sets stay sorted, exact and independent.
package main

import (
	"fmt"
	"sort"

	"github.com/vivint/rothko/database/files/internal/sset"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

// Op works on set A, perhaps with set B.
type Op struct {
	Kind string // new, add, copy, merge, iter, has
	A, B int
	Key  string
	N    int
}

type Case struct{ Ops []Op }

func genKey(t *rapid.T) string {
	switch rapid.IntRange(0, 3).Draw(t, "keys") {
	case 0:
		return rapid.SampledFrom([]string{"", "a", "b", "aa", "ab", "a\x00", "A", "é", "\xff", "a.b", "a b", "z", "\x00", "ａ"}).Draw(t, "key")
	case 1:
		return fmt.Sprintf("m%03d", rapid.IntRange(0, 999).Draw(t, "number"))
	}
	return rapid.StringMatching(`[a-d]{0,4}`).Draw(t, "key")
}

func gen(t *rapid.T) Case {
	var c Case
	for i := rapid.IntRange(1, 60).Draw(t, "n"); i > 0; i-- {
		o := Op{Kind: rapid.SampledFrom([]string{"add", "add", "add", "add", "addmany", "new", "copy", "merge", "merge", "iter", "has"}).Draw(t, "op"),
			A: rapid.IntRange(0, 4).Draw(t, "a"), B: rapid.IntRange(0, 4).Draw(t, "b")}
		switch o.Kind {
		case "add", "has":
			o.Key = genKey(t)
		case "addmany", "new", "iter":
			o.N = rapid.IntRange(0, 30).Draw(t, "count")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func sorted(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func check(s *sset.Set, m map[string]bool) error {
	want := sorted(m)
	if s.Len() != len(want) {
		return fmt.Errorf("has %d names instead of %d", s.Len(), len(want))
	}
	i := 0
	var err error
	s.Iter(func(k string) bool {
		if i >= len(want) || k != want[i] {
			err = fmt.Errorf("name %d is %q; all are %q", i, k, want)
			return false
		}
		i++
		return true
	})
	if err == nil && i != len(want) {
		err = fmt.Errorf("shows %d of %d names", i, len(want))
	}
	for k := range m {
		if !s.Has(k) {
			return fmt.Errorf("does not have %q", k)
		}
	}
	return err
}

func run(x *vkit.Ctx, c Case) error {
	sets := []*sset.Set{sset.New(0)}
	models := []map[string]bool{{}}
	copies, merges := 0, 0
	for i, o := range c.Ops {
		a, b := o.A%len(sets), o.B%len(sets)
		what := fmt.Sprintf("op %d (%s)", i, o.Kind)
		put := func(s *sset.Set, m map[string]bool) {
			if len(sets) < 5 {
				sets, models = append(sets, s), append(models, m)
			} else {
				sets[b], models[b] = s, m
			}
		}
		switch o.Kind {
		case "add":
			sets[a].Add(o.Key)
			models[a][o.Key] = true
		case "addmany":
			for k := 0; k < o.N; k++ {
				key := fmt.Sprintf("m%03d", (k*37+o.B*11)%1000)
				sets[a].Add(key)
				models[a][key] = true
			}
		case "new":
			put(sset.New(o.N), map[string]bool{})
		case "copy":
			m := map[string]bool{}
			for k := range models[a] {
				m[k] = true
			}
			if len(m) > 0 {
				copies++
			}
			put(sets[a].Copy(), m)
		case "merge":
			sets[a].Merge(sets[b])
			for k := range models[b] {
				models[a][k] = true
			}
			if len(models[b]) > 0 {
				merges++
			}
		case "has":
			if sets[a].Has(o.Key) != models[a][o.Key] {
				return fmt.Errorf("%s: has %q: %v, should be %v", what, o.Key, sets[a].Has(o.Key), models[a][o.Key])
			}
		case "iter":
			want := sorted(models[a])
			n := 0
			sets[a].Iter(func(k string) bool {
				n++
				return n <= o.N
			})
			stop := o.N + 1
			if stop > len(want) {
				stop = len(want)
			}
			if n != stop {
				return fmt.Errorf("%s: told to stop after %d, %d names of %d were shown", what, o.N+1, n, len(want))
			}
		}
		for k := range sets {
			if err := check(sets[k], models[k]); err != nil {
				return fmt.Errorf("%s: set %d %v", what, k, err)
			}
		}
	}
	if copies > 0 && merges > 0 {
		x.NonTrivial()
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P35",
		Rule: "drawn histories of adds, merges (also of a set into itself), copies, lookups and stopped enumerations over up to five sets, every set compared with a map after every step; " +
			"non-trivial: a non-empty copy and a merge of a non-empty set",
		Assumptions: []string{"no concurrent use of one set (P09 and P10 cover the database's use)"},
	},
		vkit.P("sets", 20000, 800000, gen, run),
	)
}
