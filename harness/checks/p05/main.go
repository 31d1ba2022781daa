// P05: a crash loses no acknowledged value and never wedges a metric.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

const metric = "m.x"
const mdir = "m/x"

// Case: a history, an interrupted write and what of it reached the disk,
// followed by later writes.
type Case struct {
	Cfg   store.Cfg
	Puts  []store.Op // acknowledged
	W     store.Op   // interrupted
	After []store.Op // written after reopening
	Next  *store.Cfg `json:",omitempty"` // the configuration after reopening, if another
	// torn states
	Slots   uint64 `json:",omitempty"` // which of W's slots were stored
	Ordered bool   `json:",omitempty"` // use the lowest slots in order instead
	N       int    `json:",omitempty"` // how many when ordered
	Partial int    `json:",omitempty"` // bytes of the next slot that were stored
	MetaNew bool   `json:",omitempty"`
	MetaCut int    `json:",omitempty"` // >0: bytes of the metadata update that reached the disk
	NoFile  bool   `json:",omitempty"` // new file not there yet
	// system call injection
	When int    `json:",omitempty"`
	Call string `json:",omitempty"`
	// single stepping
	Warm int `json:",omitempty"` // the file is in the handle cache
}

func putOps(t *rapid.T, c store.Cfg, n int, end *int64, label string) (out []store.Op) {
	for i := 0; i < n; i++ {
		*end += int64(rapid.IntRange(1, 100).Draw(t, label+"dt"))
		l := store.GenLen(t, c, false)
		out = append(out, store.Op{K: "put", Start: *end - 5, End: *end, Len: l, Fill: rapid.Byte().Draw(t, label+"fill")})
	}
	return
}

func genBase(t *rapid.T) Case {
	var c Case
	c.Cfg = store.GenCfg(t, store.GenOpts{MaxCap: 6, MaxFiles: 4})
	if c.Cfg.Size > 256 {
		c.Cfg.Size = 256
	}
	end := rapid.SampledFrom([]int64{10, 1530000000000000000}).Draw(t, "base")
	c.Puts = putOps(t, c.Cfg, rapid.IntRange(0, 14).Draw(t, "nputs"), &end, "p")
	c.W = putOps(t, c.Cfg, 1, &end, "w")[0]
	nc := c.Cfg
	if rapid.IntRange(0, 3).Draw(t, "reconfigured") == 0 {
		nc = store.GenCfg(t, store.GenOpts{MaxCap: 6, MaxFiles: 4})
		nc.Files = c.Cfg.Files
		c.Next = &nc
	}
	c.After = putOps(t, nc, rapid.IntRange(1, c.Cfg.Files).Draw(t, "nafter"), &end, "a")
	return c
}

func genTorn(t *rapid.T) Case {
	c := genBase(t)
	c.Ordered = rapid.Bool().Draw(t, "ordered")
	if c.Ordered {
		c.N = rapid.IntRange(0, store.NumRecs(c.W.Len, c.Cfg.Size)).Draw(t, "n")
	} else {
		c.Slots = rapid.Uint64Range(0, 255).Draw(t, "slots")
	}
	c.Partial = rapid.OneOf(rapid.Just(0), rapid.IntRange(0, c.Cfg.Size)).Draw(t, "partial")
	c.MetaNew = rapid.Bool().Draw(t, "metanew")
	c.NoFile = rapid.IntRange(0, 9).Draw(t, "nofile") == 0
	return c
}

func val(o store.Op) store.Val {
	return store.Val{Start: o.Start, End: o.End, Data: store.Payload(o.Len, o.Fill)}
}

// history writes the acknowledged values.
func history(dir string, c Case) (*store.Model, error) {
	m := store.NewModel()
	db := store.Open(dir, c.Cfg)
	defer db.Close()
	for i, p := range c.Puts {
		o, _, _ := m.Metric(metric).Write(c.Cfg, val(p))
		ok, err := db.Put(metric, p.Start, p.End, val(p).Data)
		if (o == store.Stored) != ok || err != nil {
			return nil, fmt.Errorf("acknowledged write %d: ok=%v err=%v", i, ok, err)
		}
	}
	return m, db.Close()
}

// verify reopens dir after the crash and continues.
func verify(x *vkit.Ctx, dir string, c Case, m *store.Model, acked bool) error {
	cfg := c.Cfg
	if c.Next != nil {
		cfg = *c.Next
		x.Label("another configuration after the crash")
	}
	db := store.Open(dir, cfg)
	defer db.Close()
	w := val(c.W)
	mm := m.Metric(metric)
	acks := mm.Query(1<<63 - 1)
	sim := *mm
	_, rot, _ := (&store.MMetric{Files: cloneFiles(mm.Files)}).Write(c.Cfg, w)
	_ = sim

	got, err := db.All(metric)
	if err != nil {
		if len(acks) > 0 || acked {
			return fmt.Errorf("after the crash: query failed: %v", err)
		}
		got = nil
	}
	haveW := false
	want := acks
	if len(got) > 0 && got[0].End == w.End {
		haveW = true
		want = append([]store.Val{w}, acks...)
	}
	if acked && !haveW {
		return fmt.Errorf("after the crash: acknowledged value %v is gone; got %v", w, got)
	}
	x.LabelIf(haveW, "interrupted value visible")
	x.LabelIf(rot, "interrupted write rotates")
	if err := store.SameVals(got, want); err != nil {
		// the oldest file may be gone if the write was rotating it out
		ok := false
		if rot {
			ok = store.SameVals(got, want[:len(want)-len(mm.Files[0].Vals)]) == nil
		}
		if !ok {
			return fmt.Errorf("after the crash: %v", err)
		}
	}
	bounds := func(have []store.Val, when string) error {
		for _, v := range have {
			for _, q := range []int64{v.End, v.End + 1} {
				var exp []store.Val
				for _, h := range have {
					if h.End < q {
						exp = append(exp, h)
					}
				}
				g, err := db.Get(metric, q, -1, nil)
				if err != nil {
					return fmt.Errorf("%s: query before %d: %v", when, q, err)
				}
				if err := store.SameVals(g, exp); err != nil {
					return fmt.Errorf("%s: query before %d: %v", when, q, err)
				}
			}
		}
		return nil
	}
	if err := bounds(got, "after the crash"); err != nil {
		return err
	}
	if lv, err := db.Latest(metric, nil); len(got) > 0 && (err != nil || !lv.Eq(got[0])) {
		return fmt.Errorf("after the crash: latest is %v (%v), want %v", lv, err, got[0])
	}

	// a value that is not later than what is stored is refused, whatever the
	// interrupted write left behind
	if len(got) > 0 {
		for by := int64(0); by < 2; by++ {
			v := store.Val{Start: got[0].End - 9, End: got[0].End - by, Data: []byte{7}}
			if ok, err := db.Put(metric, v.Start, v.End, v.Data); ok || err != nil {
				return fmt.Errorf("after the crash: write of %v, not later than %v: ok=%v err=%v", v, got[0], ok, err)
			}
		}
		if g, err := db.All(metric); err != nil {
			return fmt.Errorf("after the refused writes: %v", err)
		} else if err := store.SameVals(g, got); err != nil {
			return fmt.Errorf("after the refused writes: %v", err)
		}
	}

	// later writes are accepted; each may at worst start a new file
	all := got
	for i, a := range c.After {
		v := val(a)
		ok, err := db.Put(metric, v.Start, v.End, v.Data)
		if !ok || err != nil {
			return fmt.Errorf("write %v after the crash refused: ok=%v err=%v", v, ok, err)
		}
		all = append([]store.Val{v}, all...)
		g, err := db.All(metric)
		if err != nil {
			return fmt.Errorf("query after later write %d: %v", i, err)
		}
		if len(g) > len(all) {
			return fmt.Errorf("after later write %d: %d values, want at most %d", i, len(g), len(all))
		}
		if err := store.SameVals(g, all[:len(g)]); err != nil {
			return fmt.Errorf("after later write %d: %v", i, err)
		}
		min := i + 1
		if left := c.Cfg.Files + 1 - (i + 1); left > 0 {
			fs := mm.Files
			skip := 1 // the interrupted write's own file
			if left > skip {
				n := left - skip
				if n > len(fs) {
					n = len(fs)
				}
				for _, f := range fs[len(fs)-n:] {
					min += len(f.Vals)
				}
			}
		}
		if min > len(all) {
			min = len(all)
		}
		if len(g) < min {
			return fmt.Errorf("after later write %d: only %d values left, at least %d must be retained", i, len(g), min)
		}
		if err := bounds(g, fmt.Sprintf("after later write %d", i)); err != nil {
			return err
		}
		all = g
	}
	if len(c.After) > 0 || len(got) > 0 {
		r := &store.Runner{DB: db, Model: store.NewModel()}
		r.Model.Metric(metric).Files = []*store.MFile{{}}
		if err := r.WaitPopulated(); err != nil {
			return err
		}
	}
	return db.Close()
}

func cloneFiles(fs []*store.MFile) (out []*store.MFile) {
	for _, f := range fs {
		g := *f
		g.Vals = append([]store.Val(nil), f.Vals...)
		out = append(out, &g)
	}
	return
}

// torn builds a state in which only part of the interrupted write's stores
// reached the data files.
func torn(x *vkit.Ctx, c Case) error {
	base := x.TempDir()
	dir := filepath.Join(base, "db")
	vkit.Must(os.MkdirAll(dir, 0755))
	m, err := history(dir, c)
	if err != nil {
		return err
	}
	before := store.Snapshot(dir)
	db := store.Open(dir, c.Cfg)
	ok, err := db.Put(metric, c.W.Start, c.W.End, val(c.W).Data)
	db.Close()
	if !ok || err != nil {
		return fmt.Errorf("uninterrupted write: ok=%v err=%v", ok, err)
	}
	after := store.Snapshot(dir)

	state := map[string][]byte{}
	changed, slots := 0, 0
	for p, b := range before {
		if _, ok := after[p]; ok {
			state[p] = b
			continue
		}
		// removed by the write: present only if nothing was stored yet
		x.Label("file removed by the write")
	}
	for p, a := range after {
		b, had := before[p]
		if had && bytes.Equal(a, b) {
			continue
		}
		if !strings.HasSuffix(p, ".data") {
			continue
		}
		if !had {
			if c.NoFile {
				x.Label("new file not there yet")
				continue
			}
			x.Label("new file")
			b = store.EmptyFile(c.Cfg.Size, len(a)/c.Cfg.Size-1)
		}
		if len(a) != len(b) {
			return fmt.Errorf("data file %s changed its length from %d to %d", p, len(b), len(a))
		}
		r, err := store.DecRecord(b)
		if err != nil {
			return fmt.Errorf("metadata of %s: %v", p, err)
		}
		mt, err := store.DecMeta(r.Data)
		if err != nil {
			return fmt.Errorf("metadata of %s: %v", p, err)
		}
		size := int(mt.Size)
		img := append([]byte(nil), b...)
		k := 0
		partialDone := false
		for s := 1; s*size < len(a); s++ {
			na, nb := a[s*size:(s+1)*size], b[s*size:(s+1)*size]
			if bytes.Equal(na, nb) {
				continue
			}
			stored := c.Slots&(1<<uint(k%64)) != 0
			if c.Ordered {
				stored = k < c.N
			}
			if stored {
				copy(img[s*size:], na)
				slots++
			} else if !partialDone && c.Partial > 0 {
				// the first slot that is not stored is cut in the middle
				n := c.Partial
				if n > size {
					n = size
				}
				copy(img[s*size:s*size+n], na[:n])
				partialDone = true
			}
			k++
		}
		changed += k
		if c.MetaNew {
			copy(img[:size], a[:size])
		}
		if c.MetaCut > 0 {
			// payload first, then the header
			n := c.MetaCut
			if n > size-store.Header {
				n = size - store.Header
			}
			copy(img[:size], b[:size])
			copy(img[store.Header:store.Header+n], a[store.Header:store.Header+n])
			if c.MetaCut > 48 {
				copy(img[:c.MetaCut-48], a[:c.MetaCut-48])
			}
		}
		state[p] = img
	}
	x.LabelIf(slots > 0 && slots < changed, "some but not all slots stored")
	x.LabelIf(slots == changed && !c.MetaNew, "all slots stored, metadata old")
	x.LabelIf(c.MetaNew && slots < changed, "metadata ahead of slots")
	if len(c.Puts) > 0 && (slots < changed || !c.MetaNew) {
		x.NonTrivial()
	}
	dir2 := filepath.Join(base, "crash")
	store.Restore(dir2, state)
	return verify(x, dir2, c, m, false)
}

// ---------------------------------------------------------------------------
// killing a real process at a system call

func crashChild() {
	var c Case
	b, err := os.ReadFile(os.Getenv("P05_CASE"))
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		fmt.Println("ERR", err)
		os.Exit(3)
	}
	db := files.New(os.Getenv("P05_DIR"), c.Cfg.Options())
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() { done <- db.Run(ctx) }()
	ch := make(chan string, 1)
	w := val(c.W)
	db.Queue(ctx, metric, w.Start, w.End, w.Data, func(ok bool, err error) {
		ch <- fmt.Sprintf("ACK %v %v", ok, err)
	})
	os.Stdout.WriteString(<-ch + "\n")
	cancel()
	<-done
	os.Exit(0)
}

const calls = "open,openat,creat,mkdir,mkdirat,fallocate,ftruncate,truncate,msync,fsync,fdatasync,rename,renameat,renameat2,link,linkat,unlink,unlinkat,pwrite64"

var straceOK = true

func killed(x *vkit.Ctx, c Case) error {
	if !straceOK {
		x.Label("system call injection unavailable")
		return nil
	}
	base := x.TempDir()
	dir := filepath.Join(base, "db")
	vkit.Must(os.MkdirAll(dir, 0755))
	m, err := history(dir, c)
	if err != nil {
		return err
	}
	cf := filepath.Join(base, "case.json")
	b, _ := json.Marshal(c)
	vkit.Must(os.WriteFile(cf, b, 0644))
	self, _ := os.Executable()
	cmd := exec.Command("strace", "-f", "-qq", "-o", filepath.Join(base, "trace"),
		"-e", "trace=mmap,munmap,"+calls, "-e", "inject="+c.Call+":signal=SIGKILL:when="+strconv.Itoa(c.When),
		self)
	cmd.Env = append(os.Environ(), "P05_CHILD=1", "P05_CASE="+cf, "P05_DIR="+dir, "GOMAXPROCS=2", "GODEBUG=")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	timer := time.AfterFunc(120*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	err = cmd.Run()
	timer.Stop()
	tr, _ := os.ReadFile(filepath.Join(base, "trace"))
	if len(tr) == 0 {
		straceOK = false
		x.Label("system call injection unavailable")
		return nil
	}
	acked := strings.Contains(out.String(), "ACK true")
	if strings.Contains(out.String(), "ACK") && !acked {
		return fmt.Errorf("write in a fresh process: %s", out.String())
	}
	dead := bytes.Contains(tr, []byte("killed by SIGKILL"))
	x.LabelIf(dead, "process killed")
	x.LabelIf(!dead, "process finished")
	lines := bytes.Split(tr, []byte("\n"))
	last := ""
	touched := false
	for _, l := range lines {
		if bytes.Contains(l, []byte(dir)) {
			touched = true
		}
		if bytes.Contains(l, []byte("(")) && !bytes.Contains(l, []byte("resumed")) {
			f := strings.Fields(string(l))
			if len(f) > 1 {
				if i := strings.Index(f[1], "("); i > 0 {
					last = f[1][:i]
				}
			}
		}
	}
	if dead && touched && !acked {
		x.Label("killed inside the write or startup, last call " + last)
		if len(c.Puts) > 0 {
			x.NonTrivial()
		}
	}
	return verify(x, dir, c, m, acked)
}

func main() {
	if os.Getenv("P05_CHILD") != "" {
		crashChild()
		return
	}
	if os.Getenv("P05_STEP") != "" {
		stepChild()
		return
	}
	vkit.Main(vkit.Opts{
		ID:    "P05",
		Level: "fault_enumeration",
		Rule: "torn: a random acknowledged history, then a write of which a generated subset of its slots (in store order or any), a partial slot and the old or new metadata reached the files; killed: a real process killed by strace at the n-th file or memory system call of any thread while it performs the write; stepped: the thread performing the write in a real process is single-stepped and every distinct state of the directory between two instructions is taken as a crash. After reopening: acknowledged values intact, interrupted value whole or absent, consistent at every bound, later writes accepted and retained. " +
			"non-trivial: acknowledged values exist and the state differs from both before and after the write",
		Assumptions: []string{"process crash: stores reach the file in units of bytes, earlier system calls have completed"},
		Shards:      8,
	},
		vkit.P("stepped", 200, 6000, genStep, stepped),
		vkit.P("torn", 12000, 200000, genTorn, torn),
		vkit.P("tornmeta", 3000, 60000,
			func(t *rapid.T) Case {
				c := genTorn(t)
				c.Ordered, c.N, c.NoFile, c.MetaNew = true, 99, false, false
				c.MetaCut = rapid.IntRange(1, 71).Draw(t, "metacut")
				return c
			},
			func(x *vkit.Ctx, c Case) error {
				x.Label("metadata update cut")
				return torn(x, c)
			}),
		vkit.P("killed", 400, 6000,
			func(t *rapid.T) Case {
				c := genBase(t)
				switch rapid.IntRange(0, 5).Draw(t, "call") {
				case 0:
					c.Call, c.When = "fallocate,ftruncate", 1
				case 1:
					c.Call, c.When = "rename,renameat,renameat2,link,linkat", 1
				case 2:
					c.Call, c.When = "unlink,unlinkat", 1
				case 3:
					c.Call, c.When = "mmap", rapid.IntRange(1, 60).Draw(t, "when")
				default:
					c.Call, c.When = calls, rapid.IntRange(1, 14).Draw(t, "when")
				}
				return c
			}, killed),
	)
}
