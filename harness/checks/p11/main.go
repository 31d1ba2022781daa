// P11: the on-disk format is what it always was.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

// mdir is where a metric lives, written from the description of the layout: the
// first dot of a group of dots separates directories and the others are part
// of the next component, groups at the very start or end are components of
// their own; dots, slashes and percent signs within components are escaped.
func mdir(name string) string {
	esc := func(s string) string {
		return strings.NewReplacer("%", "%25", "/", "%2f", ".", "%2e").Replace(s)
	}
	if strings.Trim(name, ".") == "" {
		return esc(name)
	}
	body := strings.TrimLeft(name, ".")
	lead := name[:len(name)-len(body)]
	core := strings.TrimRight(body, ".")
	trail := body[len(core):]
	var comps []string
	if lead != "" {
		comps = append(comps, esc(lead))
	}
	extra := 0
	for i, p := range strings.Split(core, ".") {
		if p == "" && i > 0 {
			extra++
			continue
		}
		comps = append(comps, strings.Repeat("%2e", extra)+esc(p))
		extra = 0
	}
	if trail != "" {
		comps = append(comps, esc(trail))
	}
	return filepath.Join(comps...)
}

var names = []string{"m", "a.b", "a.b.c", "a..b", ".x", "x.", "..", "sys/cpu.load", "100%.x", "a...b..c", "", "é.ü", "..a.b..", "%2e", "a.1"}

type Hist struct {
	store.Case
}

func hist(x *vkit.Ctx, c Hist) error {
	r := store.NewRunner(x, c.Case, store.Flags{})
	if err := r.Run(); err != nil {
		return err
	}
	snap := store.Snapshot(r.Dir)
	nfiles, nvals, multi := 0, 0, 0
	for _, n := range c.Metrics {
		m, ok := r.Model.M[n]
		if !ok || len(m.Files) == 0 {
			continue
		}
		fs := store.SortedData(snap, mdir(n))
		if len(fs) != len(m.Files) {
			return fmt.Errorf("metric %q: %d data files in %q, want %d; tree: %q", n, len(fs), mdir(n), len(m.Files), keys(snap))
		}
		for i, f := range fs {
			want := m.Files[i]
			if i > 0 && store.FileNum(f) != store.FileNum(fs[i-1])+1 {
				return fmt.Errorf("metric %q: files are not numbered consecutively: %q", n, fs)
			}
			if len(snap[f]) != want.Size*(want.Cap+1) {
				return fmt.Errorf("%s is %d bytes, want %d", f, len(snap[f]), want.Size*(want.Cap+1))
			}
			meta, vals, err := store.DecFile(snap[f])
			if err != nil {
				return fmt.Errorf("%s does not decode: %v", f, err)
			}
			if int(meta.Size) != want.Size {
				return fmt.Errorf("%s: size %d in its metadata, want %d", f, meta.Size, want.Size)
			}
			if err := store.SameVals(vals, want.Vals); err != nil {
				return fmt.Errorf("%s decoded: %v", f, err)
			}
			// readers skip a file whose smallest end is not before the bound
			if len(vals) > 0 && meta.SmallestEnd > vals[0].End {
				return fmt.Errorf("%s: smallest end %d in its metadata hides the value ending %d from readers", f, meta.SmallestEnd, vals[0].End)
			}
			nfiles++
			nvals += len(vals)
			for _, v := range vals {
				if len(v.Data) > want.Size-store.Header {
					multi++
				}
			}
			delete(snap, f)
		}
	}
	if len(snap) > 0 {
		return fmt.Errorf("other files left behind: %q", keys(snap))
	}
	x.LabelN("files decoded", nfiles)
	x.LabelN("values decoded", nvals)
	if nfiles > 1 && multi > 0 {
		x.NonTrivial()
	}
	return nil
}

func keys(m map[string][]byte) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// Image is an encoded directory.
type Image struct {
	Cfg     store.Cfg
	Metrics []Met
}

type Met struct {
	Name  int
	First int
	Files []File
	Later []Val
}

type File struct {
	Size, Cap int
	Vals      []Val
}

type Val struct {
	Dt, Dur int64
	Len     int
	Fill    byte
}

func genVal(t *rapid.T, size, room int) Val {
	v := Val{Dt: int64(rapid.IntRange(1, 200).Draw(t, "dt")), Dur: int64(rapid.IntRange(0, 100).Draw(t, "dur")), Fill: rapid.Byte().Draw(t, "fill")}
	chunk := size - store.Header
	v.Len = rapid.OneOf(rapid.IntRange(0, chunk), rapid.IntRange(0, room*chunk), rapid.Just(chunk), rapid.Just(0)).Draw(t, "len")
	return v
}

func genImage(t *rapid.T) Image {
	im := Image{Cfg: store.GenCfg(t, store.GenOpts{MaxCap: 6, MaxFiles: 3})}
	used := map[int]bool{}
	for k := rapid.IntRange(1, 3).Draw(t, "nm"); k > 0; k-- {
		m := Met{Name: rapid.IntRange(0, len(names)-1).Draw(t, "name"), First: rapid.SampledFrom([]int{1, 1, 2, 7, 8, 9, 98, 99, 1000}).Draw(t, "first")}
		if used[m.Name] {
			continue
		}
		used[m.Name] = true
		// one file more than is kept historically, and possibly with other sizes
		for i := rapid.IntRange(1, im.Cfg.Files+1).Draw(t, "nf"); i > 0; i-- {
			f := File{Size: im.Cfg.Size, Cap: im.Cfg.Cap}
			if rapid.Bool().Draw(t, "other") {
				f.Size = rapid.IntRange(90, 400).Draw(t, "fsize")
				f.Cap = rapid.IntRange(1, 8).Draw(t, "fcap")
			}
			room := f.Cap
			for {
				v := genVal(t, f.Size, room)
				n := store.NumRecs(v.Len, f.Size)
				if n > room {
					break
				}
				room -= n
				f.Vals = append(f.Vals, v)
				if room == 0 || rapid.IntRange(0, 5).Draw(t, "more") == 5 {
					break
				}
			}
			if len(f.Vals) > 0 {
				m.Files = append(m.Files, f)
			}
		}
		if len(m.Files) == 0 {
			continue
		}
		for i := rapid.IntRange(0, 5).Draw(t, "nlater"); i > 0; i-- {
			m.Later = append(m.Later, genVal(t, im.Cfg.Size, im.Cfg.Cap))
		}
		im.Metrics = append(im.Metrics, m)
	}
	return im
}

func image(x *vkit.Ctx, im Image) error {
	dir := filepath.Join(x.TempDir(), "db")
	vkit.Must(os.MkdirAll(dir, 0755))
	model := store.NewModel()
	now := map[int]int64{}
	mk := func(m int, v Val) store.Val {
		now[m] += v.Dt
		s := now[m] - v.Dur
		if s < 0 && v.Fill&3 != 0 {
			s = 0
		}
		if v.Fill == 77 {
			s = -1 << 63
		}
		return store.Val{Start: s, End: now[m], Data: store.Payload(v.Len, v.Fill)}
	}
	snap := map[string][]byte{}
	for i, m := range im.Metrics {
		mm := model.Metric(names[m.Name])
		for j, f := range m.Files {
			mf := &store.MFile{Size: f.Size, Cap: f.Cap}
			for _, v := range f.Vals {
				mf.Vals = append(mf.Vals, mk(i, v))
				mf.Used += store.NumRecs(v.Len, f.Size)
			}
			mm.Files = append(mm.Files, mf)
			snap[filepath.Join(mdir(names[m.Name]), fmt.Sprintf("%d.data", m.First+j))] = store.EncFile(f.Size, f.Cap, mf.Vals)
		}
	}
	store.Restore(dir, snap)
	db := store.Open(dir, im.Cfg)
	defer db.Close()
	if err := db.DB.PopulateMetrics(bg); err != nil {
		return err
	}
	got, err := db.Names(-1)
	if err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", model.Names()) {
		return fmt.Errorf("listing of the encoded directory: %q (%v), want %q", got, err, model.Names())
	}
	check := func(when string) error {
		for _, n := range model.Names() {
			m := model.M[n]
			got, err := db.All(n)
			if err != nil {
				return fmt.Errorf("%s: query %q: %v", when, n, err)
			}
			if err := store.SameVals(got, m.Query(1<<63-1)); err != nil {
				return fmt.Errorf("%s: %q: %v", when, n, err)
			}
			lv, err := db.Latest(n, nil)
			if nv, _ := m.Newest(); err != nil || !lv.Eq(nv) {
				return fmt.Errorf("%s: latest of %q is %v (%v), want %v", when, n, lv, err, nv)
			}
			for i, v := range m.Query(1<<63 - 1) {
				if i%2 == 0 {
					got, err := db.Get(n, v.End, -1, nil)
					if err != nil {
						return fmt.Errorf("%s: query %q before %d: %v", when, n, v.End, err)
					}
					if err := store.SameVals(got, m.Query(v.End)); err != nil {
						return fmt.Errorf("%s: %q before %d: %v", when, n, v.End, err)
					}
				}
			}
		}
		return nil
	}
	if err := check("encoded directory"); err != nil {
		return err
	}
	later := 0
	for i, m := range im.Metrics {
		for _, lv := range m.Later {
			v := mk(i, lv)
			o, _, _ := model.Metric(names[m.Name]).Write(im.Cfg, v)
			ok, err := db.Put(names[m.Name], v.Start, v.End, v.Data)
			if (o == store.Stored) != (ok && err == nil) {
				return fmt.Errorf("append of %v: ok=%v err=%v", v, ok, err)
			}
			later++
		}
	}
	if err := check("after appending"); err != nil {
		return err
	}
	if err := db.Close(); err != nil {
		return err
	}
	// and what was appended decodes again
	snap = store.Snapshot(dir)
	for _, n := range model.Names() {
		m := model.M[n]
		fs := store.SortedData(snap, mdir(n))
		if len(fs) != len(m.Files) {
			return fmt.Errorf("%q: data files %q after appending, want %d", n, fs, len(m.Files))
		}
		for i, f := range fs {
			_, vals, err := store.DecFile(snap[f])
			if err != nil {
				return fmt.Errorf("%s does not decode after appending: %v", f, err)
			}
			if err := store.SameVals(vals, m.Files[i].Vals); err != nil {
				return fmt.Errorf("%s decoded after appending: %v", f, err)
			}
		}
	}
	x.LabelIf(later > 0, "appended to")
	if later > 0 && len(snap) > 1 {
		x.NonTrivial()
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P11",
		Rule: "written: random histories over names needing escapes, then the whole directory decoded by an independent strict decoder and compared file by file with the model; encoded: random directories made by an independent encoder (several files of differing record size and capacity, file numbers crossing digit counts), queried, appended to, and decoded again; " +
			"non-trivial: several files with multi-record values, or an encoded directory that was appended to",
		Assumptions: []string{"the layout is the one of the pinned commit, as described in the package's documentation and code", "metadata other than the record size and free slots is advisory"},
	},
		vkit.P("written", 6000, 100000, func(t *rapid.T) Hist {
			perm := rapid.Permutation(names).Draw(t, "names")
			return Hist{store.GenCase(t, store.GenOpts{Metrics: perm[:rapid.IntRange(1, 4).Draw(t, "n")], NotLater: true, TooLarge: true, Reopen: true, Reconfig: true, PutW: 10, GetW: 1, MaxOps: 40})}
		}, hist),
		vkit.P("encoded", 8000, 120000, genImage, image),
	)
}
