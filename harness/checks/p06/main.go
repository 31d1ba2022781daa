// P06: corruption of stored bytes is contained.
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

// Dmg is one alteration of one data file.
type Dmg struct {
	File int    // index into the metric's data files, oldest first
	K    string // flip, zero, fill, copy, trunc, meta
	Off  int    // reduced modulo the region
	Len  int
	Bit  int
}

type Case struct {
	Cfg   store.Cfg
	Puts  []store.Op
	Other []store.Op
	Dmg   []Dmg
	After []store.Op
}

const metric, other = "m.x", "m.y"

func gen(t *rapid.T) Case {
	var c Case
	c.Cfg = store.GenCfg(t, store.GenOpts{MaxCap: 8, MaxFiles: 4})
	if c.Cfg.Size > 256 {
		c.Cfg.Size = 256
	}
	// sometimes a record is larger than a page, or than several
	big := rapid.IntRange(0, 7).Draw(t, "big") == 0
	if big {
		c.Cfg.Size = rapid.SampledFrom([]int{4200, 10240, 20000, 65559}).Draw(t, "bigsize")
		c.Cfg.Cap = rapid.IntRange(1, 3).Draw(t, "bigcap")
	}
	end := int64(1000)
	put := func(label string, n int) (out []store.Op) {
		for i := 0; i < n; i++ {
			end += int64(rapid.IntRange(1, 100).Draw(t, label+"dt"))
			out = append(out, store.Op{K: "put", Start: end - 5, End: end, Len: store.GenLen(t, c.Cfg, false), Fill: rapid.Byte().Draw(t, label+"fill")})
		}
		return
	}
	c.Puts = put("p", rapid.IntRange(1, 20).Draw(t, "nputs"))
	c.Other = put("o", rapid.IntRange(0, 3).Draw(t, "nother"))
	n := rapid.IntRange(1, 4).Draw(t, "ndmg")
	for i := 0; i < n; i++ {
		d := Dmg{File: rapid.IntRange(0, 5).Draw(t, "file")}
		d.K = rapid.SampledFrom([]string{"flip", "flip", "flip", "zero", "zero", "zeroslot", "fill", "trunc", "meta", "metafill", "head"}).Draw(t, "k")
		d.Off = rapid.IntRange(0, 1<<16).Draw(t, "off")
		if big {
			d.Off = rapid.IntRange(0, 1<<18).Draw(t, "bigoff")
		}
		d.Len = rapid.IntRange(1, 200).Draw(t, "len")
		d.Bit = rapid.IntRange(0, 7).Draw(t, "bit")
		c.Dmg = append(c.Dmg, d)
	}
	c.After = put("a", rapid.IntRange(0, 3).Draw(t, "nafter"))
	// some of the later writes come too late for a stored value
	for i := range c.After {
		if rapid.Bool().Draw(t, "older") {
			p := c.Puts[rapid.IntRange(0, len(c.Puts)-1).Draw(t, "as")]
			c.After[i].End = p.End + int64(rapid.IntRange(-1, 1).Draw(t, "by"))
			c.After[i].Start = c.After[i].End - 5
		}
	}
	return c
}

func val(o store.Op) store.Val {
	return store.Val{Start: o.Start, End: o.End, Data: store.Payload(o.Len, o.Fill)}
}

type span struct {
	file   string
	lo, hi int
}

func run(x *vkit.Ctx, c Case) error {
	base := x.TempDir()
	dir := filepath.Join(base, "db")
	vkit.Must(os.MkdirAll(dir, 0755))
	db := store.Open(dir, c.Cfg)
	mm := &store.MMetric{}
	om := &store.MMetric{}
	for _, p := range c.Puts {
		mm.Write(c.Cfg, val(p))
		if ok, err := db.Put(metric, p.Start, p.End, val(p).Data); !ok || err != nil {
			db.Close()
			return fmt.Errorf("write: ok=%v err=%v", ok, err)
		}
	}
	for _, p := range c.Other {
		om.Write(c.Cfg, val(p))
		if ok, err := db.Put(other, p.Start, p.End, val(p).Data); !ok || err != nil {
			db.Close()
			return fmt.Errorf("write: ok=%v err=%v", ok, err)
		}
	}
	if err := db.Close(); err != nil {
		return err
	}

	// where each value lives
	snap := store.Snapshot(dir)
	files := store.SortedData(snap, "m/x")
	if len(files) != len(mm.Files) {
		return fmt.Errorf("%d data files on disk, %d expected", len(files), len(mm.Files))
	}
	where := map[int64]span{} // by end
	size := c.Cfg.Size
	for i, f := range mm.Files {
		slot := f.Cap
		for _, v := range f.Vals {
			n := store.NumRecs(len(v.Data), size)
			slot -= n
			where[v.End] = span{files[i], (slot + 1) * size, (slot + 1 + n) * size}
		}
	}

	// damage
	type hit struct {
		file   string
		lo, hi int
	}
	var hits []hit
	metaHit := false
	truncated := map[string]bool{}
	full := size * (c.Cfg.Cap + 1)
	for _, d := range c.Dmg {
		f := files[d.File%len(files)]
		b := snap[f]
		region := b
		off := size
		if len(b) < 2*size {
			continue // an earlier truncation left nothing to damage
		}
		switch d.K {
		case "meta", "metafill":
			region, off = b[:size], 0
		case "head":
			// the slot headers of occupied slots
			region, off = b, size
			s := 1 + d.Off%(len(b)/size-1)
			off = s*size + d.Bit*3
			if off < len(b) {
				b[off] ^= byte(1 << uint(d.Bit))
				hits = append(hits, hit{f, off, off + 1})
				x.Label("damage: header")
			}
			continue
		default:
			region = b[size:]
		}
		at := d.Off % len(region)
		lo := off + at
		hi := lo + d.Len
		if hi > off+len(region) {
			hi = off + len(region)
		}
		switch d.K {
		case "flip", "meta":
			b[lo] ^= byte(1 << uint(d.Bit))
			hi = lo + 1
		case "zero":
			for i := lo; i < hi; i++ {
				b[i] = 0
			}
		case "zeroslot":
			lo = off + at/size*size
			hi = lo + size
			if hi > len(b) {
				hi = len(b)
			}
			for i := lo; i < hi; i++ {
				b[i] = 0
			}
		case "fill", "metafill":
			for i := lo; i < hi; i++ {
				b[i] = byte(d.Bit*37 + i*d.Len)
			}
		case "trunc":
			cut := d.Off % len(b)
			b = b[:cut]
			lo, hi = cut, full
			truncated[f] = true
		}
		if lo < size {
			metaHit = true
		}
		x.Label("damage: " + d.K)
		snap[f] = b
		hits = append(hits, hit{f, lo, hi})
	}
	touched := func(v store.Val) bool {
		w := where[v.End]
		for _, h := range hits {
			if h.file == w.file && h.lo < w.hi && w.lo < h.hi {
				return true
			}
			// without its metadata a file cannot be read
			if h.file == w.file && h.lo < size {
				return true
			}
		}
		return false
	}
	dir2 := filepath.Join(base, "dmg")
	store.Restore(dir2, snap)

	db = store.Open(dir2, c.Cfg)
	defer db.Close()
	orig := mm.Query(1<<63 - 1)
	byEnd := map[int64]store.Val{}
	for _, v := range orig {
		byEnd[v.End] = v
	}
	check := func(when string, q int64, extra []store.Val, canMiss func(store.Val) bool, mayFail bool) error {
		got, err := db.Get(metric, q, -1, nil)
		if err != nil && !mayFail {
			return fmt.Errorf("%s: query before %d: %v", when, q, err)
		}
		last := int64(1<<63 - 1)
		have := map[int64]bool{}
		for _, v := range got {
			if v.End >= last {
				return fmt.Errorf("%s: query before %d: %v not older than the one before it", when, q, v)
			}
			last = v.End
			if v.End >= q {
				return fmt.Errorf("%s: query before %d returned %v", when, q, v)
			}
			w, ok := byEnd[v.End]
			if !ok || !w.Eq(v) {
				return fmt.Errorf("%s: query before %d returned fabricated or altered %v", when, q, v)
			}
			have[v.End] = true
		}
		if err != nil {
			return nil
		}
		for _, v := range append(append([]store.Val(nil), extra...), orig...) {
			if v.End < q && !have[v.End] && !canMiss(v) {
				return fmt.Errorf("%s: query before %d lost the undamaged %v", when, q, v)
			}
		}
		return nil
	}
	unhurt := 0
	for _, v := range orig {
		if !touched(v) {
			unhurt++
		}
	}
	x.LabelIf(metaHit, "metadata damaged")
	x.LabelIf(len(truncated) > 0, "truncated")
	if unhurt > 0 && unhurt < len(orig) {
		x.NonTrivial()
	}
	// a file whose metadata is damaged or cut off may make queries fail, but
	// values newer than it are still expected to come back first
	fatal := metaHit
	for f := range truncated {
		if len(snap[f]) < 2*size {
			fatal = true
		}
	}
	qs := []int64{1<<63 - 1}
	for _, v := range orig {
		qs = append(qs, v.End, v.End+1)
	}
	for _, q := range qs {
		if err := check("damaged", q, nil, touched, fatal); err != nil {
			return err
		}
	}
	// the newest value, or another intact one
	lv, err := db.Latest(metric, nil)
	if err != nil && !fatal {
		return fmt.Errorf("latest failed: %v", err)
	}
	if err == nil && lv.End != 0 {
		if w, ok := byEnd[lv.End]; !ok || !w.Eq(lv) {
			return fmt.Errorf("latest returned fabricated %v", lv)
		}
	}
	// the other metric does not notice
	if len(c.Other) > 0 {
		got, err := db.All(other)
		if err != nil {
			return fmt.Errorf("other metric: %v", err)
		}
		if err := store.SameVals(got, om.Query(1<<63-1)); err != nil {
			return fmt.Errorf("other metric: %v", err)
		}
	}
	// later writes; damage to free slots or cut files may cost room, so only
	// the new values themselves are required to be there
	var extra []store.Val
	top := orig[0].End // the newest that was ever stored
	for i, a := range c.After {
		v := val(a)
		before, berr := db.All(metric)
		ok, err := db.Put(metric, v.Start, v.End, v.Data)
		if berr == nil && len(before) > 0 && v.End <= before[0].End {
			x.Label("refused after the damage")
			if ok {
				return fmt.Errorf("write %d after the damage: %v is accepted although %v is stored", i, v, before[0])
			}
			if after, err := db.All(metric); err != nil && !fatal {
				return fmt.Errorf("after the refused write %d: %v", i, err)
			} else if err == nil {
				if err := store.SameVals(after, before); err != nil {
					return fmt.Errorf("the refused write %d changed what is stored: %v", i, err)
				}
			}
			continue
		}
		if !ok && v.End <= top {
			continue // a part of a damaged newer value is still there
		}
		if ok && v.End > top {
			top = v.End
		}
		if metaHit || len(truncated) > 0 {
			if ok {
				byEnd[v.End] = v
				extra = append(extra, v)
			}
			continue
		}
		if !ok || err != nil {
			return fmt.Errorf("write %d after the damage: ok=%v err=%v", i, ok, err)
		}
		byEnd[v.End] = v
		extra = append(extra, v)
	}
	if len(extra) > 0 {
		keep := len(extra) <= c.Cfg.Files
		if err := check("after later writes", 1<<63-1, extra, func(v store.Val) bool {
			for _, e := range extra {
				if e.End == v.End {
					return !keep
				}
			}
			return true
		}, fatal); err != nil {
			return err
		}
	}
	return db.Close()
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P06",
		Rule: "random histories over several files, then up to four alterations of the closed data files (bit flips anywhere in records or their headers, zeroed ranges and slots, overwritten ranges, truncation at any byte, damaged metadata); every query bound checked for altered, fabricated, misordered or needlessly lost values, the other metric for any effect, later writes for acceptance; " +
			"non-trivial: some values of the metric touched by the damage and some not",
		Assumptions: []string{"damage of a file's metadata record, or cutting a file below two slots, may make that metric's queries fail with an error", "altered bytes do not collide under CRC-32C"},
		HangS:       60,
	},
		vkit.P("damage", 16000, 300000, gen, run),
	)
}
