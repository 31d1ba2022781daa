// P08: metric names never collide and never escape the data directory.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

// Case is a set of names written to one database. Names are bytes: they need
// not be UTF-8.
type Case struct {
	Names   [][]byte
	Rounds  int
	Handles int
}

// the data directory sits this deep in the scratch directory, so that a name
// climbing with ".." (every climb takes three bytes) stays in the scratch
// directory.
const depth = 16
const maxName = 40

var atoms = []string{".", ".", ".", "..", "/", "/", "../", "%", "%2e", "%2f", "%25", "%2E", "2", "e", "f", "5", "a", "b", "A", "foo", "data", ".data", "1.data", "1", "0", "-1", "tmp", "\n", " ", "\xff", "\xc3\x28", "é", "~", "*", "?", "\\", ":", "\x01", "\t"}

func genName(t *rapid.T) []byte {
	n := rapid.IntRange(0, 7).Draw(t, "atoms")
	s := ""
	for i := 0; i < n; i++ {
		s += rapid.SampledFrom(atoms).Draw(t, "atom")
	}
	if rapid.IntRange(0, 30).Draw(t, "nul") == 17 {
		s += "\x00" + rapid.SampledFrom(atoms).Draw(t, "after")
	}
	if rapid.IntRange(0, 30).Draw(t, "rnd") == 17 {
		s = string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "bytes"))
	}
	if len(s) > maxName {
		s = s[:maxName]
	}
	return []byte(s)
}

// tweak makes a name that resembles another.
func tweak(t *rapid.T, s []byte) []byte {
	r := func(old, new string) []byte { return []byte(strings.Replace(string(s), old, new, 1)) }
	var o []byte
	switch rapid.IntRange(0, 13).Draw(t, "tweak") {
	case 0:
		o = r(".", "..")
	case 1:
		o = r("..", ".")
	case 2:
		o = r(".", "/")
	case 3:
		o = r("/", ".")
	case 4:
		o = r(".", "%2e")
	case 5:
		o = r("/", "%2f")
	case 6:
		o = r("%", "%25")
	case 7:
		o = append(append([]byte{}, s...), '.')
	case 8:
		o = append([]byte{'.'}, s...)
	case 9:
		o = append(append([]byte{}, s...), ".1"...)
	case 10:
		o = []byte(strings.Trim(string(s), "."))
	case 11:
		o = []byte(strings.ToUpper(string(s)))
	case 12:
		o = r("%25", "%")
	default:
		i := rapid.IntRange(0, len(s)).Draw(t, "at")
		o = append(append(append([]byte{}, s[:i]...), rapid.SampledFrom(atoms).Draw(t, "ins")...), s[i:]...)
	}
	if len(o) > maxName {
		o = o[:maxName]
	}
	return o
}

func gen(t *rapid.T) Case {
	c := Case{Rounds: rapid.IntRange(1, 2).Draw(t, "rounds"), Handles: rapid.SampledFrom([]int{-1, 2, 100}).Draw(t, "handles")}
	n := rapid.IntRange(1, 8).Draw(t, "n")
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		var s []byte
		if len(c.Names) > 0 && rapid.Bool().Draw(t, "similar") {
			s = tweak(t, c.Names[rapid.IntRange(0, len(c.Names)-1).Draw(t, "of")])
		} else {
			s = genName(t)
		}
		if !seen[string(s)] {
			seen[string(s)] = true
			c.Names = append(c.Names, s)
		}
	}
	return c
}

// Grid enumerates every name over an alphabet up to a length.
type Grid struct {
	Alphabet string
	Len      int
}

func (g Grid) names() (out [][]byte) {
	level := [][]byte{{}}
	out = append(out, []byte{})
	for i := 0; i < g.Len; i++ {
		var next [][]byte
		for _, p := range level {
			for j := 0; j < len(g.Alphabet); j++ {
				next = append(next, append(append([]byte{}, p...), g.Alphabet[j]))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

func run(x *vkit.Ctx, c Case) error {
	base := x.TempDir()
	dir := base
	for i := 0; i < depth; i++ {
		dir = filepath.Join(dir, fmt.Sprintf("d%d", i))
	}
	vkit.Must(os.MkdirAll(dir, 0755))
	cfg := store.Cfg{Size: 96, Cap: 2, Files: 10, Handles: c.Handles, Workers: 1}
	db := store.Open(dir, cfg)
	defer func() { db.Close() }()

	// outside lists whatever is in the scratch directory but not below dir
	outside := func() (bad []string) {
		filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			if p == dir {
				return filepath.SkipDir
			}
			if !strings.HasPrefix(dir, p) {
				bad = append(bad, strings.TrimPrefix(p, base))
			}
			return nil
		})
		return
	}
	want := map[string][]store.Val{}
	special := 0
	for round := 0; round < c.Rounds; round++ {
		for i, name := range c.Names {
			n := string(name)
			v := store.Val{Start: int64(round*10 + 1), End: int64(round*10 + 5), Data: []byte(fmt.Sprintf("%d/%d/%q", round, i, n))}
			ok, err := db.Put(n, v.Start, v.End, v.Data)
			if !ok || err != nil {
				// only names that no file system can represent are refused
				if err == nil || !(strings.Contains(n, "\x00") || tooLong(n)) {
					return fmt.Errorf("write to %q: ok=%v err=%v", n, ok, err)
				}
				x.Label("name refused by the file system")
				continue
			}
			want[n] = append([]store.Val{v}, want[n]...)
			if round == 0 && strings.ContainsAny(n, "/%") || strings.Contains(n, "..") || strings.HasPrefix(n, ".") || strings.HasSuffix(n, ".") {
				special++
			}
		}
	}
	if b := outside(); len(b) > 0 {
		return fmt.Errorf("created outside of the data directory: %q", b)
	}
	check := func(when string) error {
		for _, name := range c.Names {
			n := string(name)
			got, err := db.All(n)
			if len(want[n]) == 0 {
				if len(got) > 0 {
					return fmt.Errorf("%s: %q was never stored and has %v", when, n, got)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("%s: query %q: %v", when, n, err)
			}
			if err := store.SameVals(got, want[n]); err != nil {
				return fmt.Errorf("%s: %q: %v", when, n, err)
			}
		}
		return nil
	}
	if err := check("at first"); err != nil {
		return err
	}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	same := func(got []string) bool {
		if len(got) != len(names) {
			return false
		}
		for i := range got {
			if got[i] != names[i] {
				return false
			}
		}
		return true
	}
	got, err := db.Names(-1)
	if err != nil || !same(got) {
		return fmt.Errorf("listing is %q (%v), stored are %q", clip(got), err, clip(names))
	}
	if err := db.Close(); err != nil {
		return err
	}
	// a new process finds the same names from the directory alone
	db = store.Open(dir, cfg)
	if err := db.DB.PopulateMetrics(bg); err != nil {
		return fmt.Errorf("populating the names: %v", err)
	}
	got, err = db.Names(-1)
	if err != nil || !same(got) {
		return fmt.Errorf("listing after a restart is %q (%v), stored are %q", clip(got), err, clip(names))
	}
	if err := check("after a restart"); err != nil {
		return err
	}
	if b := outside(); len(b) > 0 {
		return fmt.Errorf("created outside of the data directory: %q", b)
	}
	if special >= 1 && len(want) >= 2 {
		x.NonTrivial()
	}
	x.LabelN("names", len(want))
	x.LabelN("names with separators, escapes or edge dots", special)
	return nil
}

// tooLong says that some component cannot be a file name even when escaped.
func tooLong(n string) bool {
	for _, p := range strings.Split(n, ".") {
		if len(p)*3 > 200 {
			return true
		}
	}
	return len(n)*3 > 200
}

func clip(s []string) []string {
	if len(s) > 12 {
		return s[:12]
	}
	return s
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P08",
		Rule: "sets of up to eight similar names (dots, slashes, percent escapes, dot runs at either end, control, NUL and non-UTF-8 bytes), plus every name up to a length over small alphabets of special characters, each written with its own values; exact read-back, listing, restart, and a walk of everything around the data directory; " +
			"non-trivial: at least two names, one of which has a separator, an escape or an edge dot",
		Assumptions: []string{"names are at most 40 bytes, and the data directory is nested deeper than such a name can climb", "a name containing NUL may be refused with an error"},
	},
		vkit.P("names", 12000, 200000, gen, run),
		vkit.P("grid", 24, 240, func(t *rapid.T) Grid {
			a := rapid.SampledFrom([]string{".a", "./a", ".%2e", ".%2f", "./%", ".ae", "./a%", ".1d", ".\x7fa"}).Draw(t, "alphabet")
			l := 5
			for pow(len(a), l) > 700 {
				l--
			}
			return Grid{a, rapid.IntRange(2, l).Draw(t, "len")}
		}, func(x *vkit.Ctx, g Grid) error {
			return run(x, Case{Names: g.names(), Rounds: 1, Handles: 100})
		}, Grid{"./%a", 4}, Grid{".2e%f", 3}),
	)
}

func pow(a, b int) int {
	r := 1
	for ; b > 0; b-- {
		r *= a
	}
	return r
}
