// P31: static assets are served exactly as packed.
package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/database/files/zzverif/fakeapi"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/internal/tgzfs"
	"github.com/vivint/rothko/internal/tmplfs"
	"pgregory.net/rapid"
)

// Entry is one entry of the archive.
type Entry struct {
	Format int    `json:",omitempty"` // 1 to 3 have extended headers, 4 is in another format
	Path   string // clean, relative
	Dir    bool
	Size   int // bytes of content, for a file that is no page
	Byte   int // selects the content
	Segs   []int
	Mtime  int64
}

// Arch describes an archive.
type Arch struct {
	Entries []Entry
	Dot     bool // names begin with ./
	Root    bool // has an entry for the root
}

var comps = []string{"a", "b", "js", "css", "é ü", "index.html", "x.html", "main.js", "INDEX.HTML", "index.htm", "a.css", "x.png", "long-name-of-something.txt", "b.html.bak", "A", "%41", "a&b", "X.HTML", ".hidden", "..x", ".html", "...", "~", "_x", "a.b.js", "node_modules", "x.map",
	// names too long for the plain format of an archive
	strings.Repeat("n", 99), strings.Repeat("m", 101) + ".js", strings.Repeat("é", 60) + ".css", strings.Repeat("p", 160), strings.Repeat("q", 270) + ".html"}

func genArch(t *rapid.T) Arch {
	a := Arch{Dot: rapid.Bool().Draw(t, "dot"), Root: rapid.IntRange(0, 3).Draw(t, "root") == 2}
	type kind struct{ file, dir bool }
	known := map[string]kind{}
	for i := rapid.IntRange(0, 12).Draw(t, "n"); i > 0; i-- {
		var parts []string
		for d := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3, 5}).Draw(t, "depth"); d > 0; d-- {
			parts = append(parts, rapid.SampledFrom(comps).Draw(t, "comp"))
		}
		e := Entry{Path: strings.Join(parts, "/"), Dir: rapid.IntRange(0, 4).Draw(t, "dir") == 2,
			Mtime: rapid.Int64Range(1, 2e9).Draw(t, "mtime"), Byte: rapid.IntRange(0, 255).Draw(t, "byte")}
		e.Format = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 2, 3, 4}).Draw(t, "format")
		// an entry keeps its kind; only directories have something below
		if k := known[e.Path]; k.file && e.Dir || k.dir && !e.Dir {
			continue
		}
		bad := false
		for p := path.Dir(e.Path); p != "."; p = path.Dir(p) {
			bad = bad || known[p].file
		}
		if bad {
			continue
		}
		for p := path.Dir(e.Path); p != "."; p = path.Dir(p) {
			known[p] = kind{dir: true}
		}
		known[e.Path] = kind{file: !e.Dir, dir: e.Dir}
		if !e.Dir {
			if strings.HasSuffix(e.Path, ".html") {
				e.Segs = rapid.SliceOfN(rapid.IntRange(0, 9), 0, 6).Draw(t, "segs")
				if rapid.IntRange(0, 12).Draw(t, "broken") == 7 {
					e.Segs = append(e.Segs, -1)
				}
			} else {
				e.Size = rapid.SampledFrom([]int{0, 1, 2, 100, 511, 512, 513, 5000, 70000}).Draw(t, "size")
				if rapid.IntRange(0, 99).Draw(t, "huge") == 57 {
					e.Size = rapid.SampledFrom([]int{1 << 20, 1<<20 + 1, 3<<20 + 5, 9 << 20}).Draw(t, "hugesize")
				}
			}
		}
		a.Entries = append(a.Entries, e)
	}
	return a
}

// segments of pages: source, and whether it shows what it should
var segs = []struct {
	src  string
	good func(got, metric, query string, dev bool) bool
}{
	{"<p>text & more {} }}</p>", func(got, m, q string, dev bool) bool { return got == "<p>text & more {} }}</p>" }},
	{"<b>{{.metric}}</b>", func(got, m, q string, dev bool) bool { return inside(got, "<b>", "</b>", m) }},
	{`<i title="{{ .metric }}">x</i>`, func(got, m, q string, dev bool) bool { return inside(got, `<i title="`, `">x</i>`, m) }},
	{`<meta content="/api/render?{{ .query }}&padding=5">`, func(got, m, q string, dev bool) bool {
		return inside(got, `<meta content="/api/render?`, `&padding=5">`, q)
	}},
	{`<script>var m = {{.metric}};</script>`, func(got, m, q string, dev bool) bool {
		const pre, post = "<script>var m = ", ";</script>"
		if !strings.HasPrefix(got, pre) || !strings.HasSuffix(got, post) {
			return false
		}
		got = got[len(pre) : len(got)-len(post)]
		var s string
		return json.Unmarshal([]byte(got), &s) == nil && s == m && !strings.ContainsAny(got, "<>&")
	}},
	{`<a href="/?m={{.metric}}&d=1">l</a>`, func(got, m, q string, dev bool) bool {
		const pre, post = `<a href="/?m=`, `&d=1">l</a>`
		if !strings.HasPrefix(got, pre) || !strings.HasSuffix(got, post) {
			return false
		}
		s, err := url.QueryUnescape(html.UnescapeString(got[len(pre) : len(got)-len(post)]))
		return err == nil && s == m
	}},
	{"{{if .dev}}<u>dev</u>{{end}}", func(got, m, q string, dev bool) bool { return (got == "<u>dev</u>") == dev && (got == "") == !dev }},
	{"a {{- if .metric }}<u>m</u>{{- end }}", func(got, m, q string, dev bool) bool {
		return m == "" && got == "a" || m != "" && got == "a<u>m</u>"
	}},
	{"<s>{{.query}}</s>", func(got, m, q string, dev bool) bool { return inside(got, "<s>", "</s>", q) }},
	{"<!doctype html>\n<q>é\x01</q>\n", func(got, m, q string, dev bool) bool { return got == "<!doctype html>\n<q>é\x01</q>\n" }},
}

// inside is true if got is value between the given pieces, escaped.
func inside(got, pre, post, value string) bool {
	if len(got) < len(pre)+len(post) || !strings.HasPrefix(got, pre) || !strings.HasSuffix(got, post) {
		return false
	}
	got = got[len(pre) : len(got)-len(post)]
	return !strings.ContainsAny(got, `<>"'`) && html.UnescapeString(got) == value
}

func (e Entry) content() []byte {
	if strings.HasSuffix(e.Path, ".html") {
		var b strings.Builder
		for i, s := range e.Segs {
			if i > 0 {
				fmt.Fprintf(&b, "<hr id=%d>", i)
			}
			if s < 0 {
				b.WriteString("{{if}}")
			} else {
				b.WriteString(segs[s].src)
			}
		}
		return []byte(b.String())
	}
	out := make([]byte, e.Size)
	for i := range out {
		out[i] = byte(i*7+i>>8) ^ byte(e.Byte)
	}
	if e.Byte%3 == 0 {
		copy(out, "{{.metric}}{{")
	}
	return out
}

// node is what the archive has at a path.
type node struct {
	name  string
	dir   bool
	data  []byte
	entry *Entry
	kids  map[string]*node
}

func (a Arch) tree() *node {
	root := &node{dir: true, kids: map[string]*node{}}
	for i := range a.Entries {
		e := &a.Entries[i]
		n := root
		for _, part := range strings.Split(e.Path, "/") {
			k := n.kids[part]
			if k == nil {
				k = &node{name: part, dir: true, kids: map[string]*node{}}
				n.kids[part] = k
			}
			n = k
		}
		n.dir, n.entry = e.Dir, e
		if !e.Dir {
			n.data = e.content()
		}
	}
	return root
}

func (n *node) find(p string) *node {
	for _, part := range strings.Split(path.Clean("/"+p), "/") {
		if part == "" {
			continue
		}
		if n = n.kids[part]; n == nil {
			return nil
		}
	}
	return n
}

func (a Arch) pack() []byte {
	var buf bytes.Buffer
	gz := gzip.NewWriter(&buf)
	w := tar.NewWriter(gz)
	put := func(h *tar.Header, data []byte) {
		vkit.Must(w.WriteHeader(h))
		_, err := w.Write(data)
		vkit.Must(err)
	}
	if a.Root {
		put(&tar.Header{Name: "./", Typeflag: tar.TypeDir, Mode: 0755, ModTime: time.Unix(1, 0)}, nil)
	}
	for _, e := range a.Entries {
		h := &tar.Header{Name: e.Path, Typeflag: tar.TypeReg, Mode: 0644, ModTime: time.Unix(e.Mtime, 0)}
		switch e.Format {
		case 1:
			h.Format, h.PAXRecords = tar.FormatPAX, map[string]string{"VENDOR.attribute": "value"}
		case 2:
			h.Uid, h.Uname = 1<<30, "somebody with a very long name that is beyond what fits"
		case 3:
			h.Format, h.AccessTime = tar.FormatPAX, time.Unix(e.Mtime, 5)
		case 4:
			h.Format = tar.FormatGNU
		}
		if a.Dot {
			h.Name = "./" + h.Name
		}
		if e.Dir {
			h.Name, h.Typeflag, h.Mode = h.Name+"/", tar.TypeDir, 0755
			put(h, nil)
		} else {
			data := e.content()
			h.Size = int64(len(data))
			put(h, data)
		}
	}
	vkit.Must(w.Close())
	vkit.Must(gz.Close())
	return buf.Bytes()
}

// paths that may be asked for
func (a Arch) genPath(t *rapid.T) string {
	var p string
	switch k := rapid.IntRange(0, 9).Draw(t, "pathkind"); {
	case k < 6 && len(a.Entries) > 0:
		p = rapid.SampledFrom(a.Entries).Draw(t, "entry").Path
		for rapid.IntRange(0, 3).Draw(t, "up") == 3 {
			p = path.Dir(p)
		}
	case k < 8 && len(a.Entries) > 0:
		p = rapid.SampledFrom(a.Entries).Draw(t, "entry").Path + "/" + rapid.SampledFrom(comps).Draw(t, "comp")
	case k < 9:
		p = rapid.SampledFrom(comps).Draw(t, "comp")
	}
	if p == "." {
		p = ""
	}
	p = "/" + p
	switch rapid.IntRange(0, 9).Draw(t, "twist") {
	case 0:
		p = strings.Replace(p, "/", "//", 1)
	case 1:
		p = "/." + p
	case 2:
		p = "/zz/.." + p
	case 3:
		p = "/../.." + p
	case 4:
		p += "/"
	case 5:
		if rapid.Bool().Draw(t, "etc") {
			p = "/../../../../../../../../etc/passwd"
		}
	}
	return p
}

// ---- the file system itself

type Op struct {
	Kind   int // open, read, seek, readdir, stat
	Handle int
	Path   string
	N      int
	Whence int
}

type FSCase struct {
	Arch Arch
	Ops  []Op
}

func genFS(t *rapid.T) FSCase {
	c := FSCase{Arch: genArch(t)}
	for i := rapid.IntRange(1, 30).Draw(t, "nops"); i > 0; i-- {
		o := Op{Kind: rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 2, 3, 3, 3, 4}).Draw(t, "op"), Handle: rapid.IntRange(0, 5).Draw(t, "handle")}
		switch o.Kind {
		case 0:
			o.Path = c.Arch.genPath(t)
		case 1:
			o.N = rapid.SampledFrom([]int{0, 1, 10, 512, 100000}).Draw(t, "len")
		case 2:
			o.Whence = rapid.IntRange(0, 2).Draw(t, "whence")
			o.N = rapid.SampledFrom([]int{0, 0, 1, -1, 5, -5, 600, -600, 1 << 20}).Draw(t, "off")
		case 3:
			o.N = rapid.IntRange(-1, 4).Draw(t, "count")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type handle struct {
	f    http.File
	n    *node
	pos  int64
	rest []string
}

func checkInfo(what string, fi os.FileInfo, n *node, root bool) error {
	if fi == nil {
		return fmt.Errorf("%s: no information", what)
	}
	if fi.IsDir() != n.dir || fi.Mode().IsDir() != n.dir {
		return fmt.Errorf("%s: directory %v (%v), packed: %v", what, fi.IsDir(), fi.Mode(), n.dir)
	}
	if !root && fi.Name() != n.name {
		return fmt.Errorf("%s: named %q instead of %q", what, fi.Name(), n.name)
	}
	if !n.dir && fi.Size() != int64(len(n.data)) {
		return fmt.Errorf("%s: size %d, packed %d", what, fi.Size(), len(n.data))
	}
	if n.entry != nil && !fi.ModTime().Equal(time.Unix(n.entry.Mtime, 0)) {
		return fmt.Errorf("%s: modified %v, packed with %v", what, fi.ModTime(), time.Unix(n.entry.Mtime, 0))
	}
	return nil
}

func runFS(x *vkit.Ctx, c FSCase) error {
	packed := c.Arch.pack()
	fs, err := tgzfs.New(packed)
	if err != nil {
		return fmt.Errorf("a well formed archive was refused: %v", err)
	}
	tree := c.Arch.tree()
	var hs []*handle
	reads, pages := 0, 0
	for i, o := range c.Ops {
		if o.Kind == 0 {
			f, err := fs.Open(o.Path)
			n := tree.find(o.Path)
			if n == nil {
				n = tree.kids["index.html"]
				if n != nil && n.dir {
					n = nil
				}
			}
			if n == nil {
				if !os.IsNotExist(err) {
					return fmt.Errorf("op %d: opening %q, which is not packed: %v", i, o.Path, err)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("op %d: opening %q: %v", i, o.Path, err)
			}
			h := &handle{f: f, n: n}
			for k := range n.kids {
				h.rest = append(h.rest, k)
			}
			sort.Strings(h.rest)
			hs = append(hs, h)
			continue
		}
		if len(hs) == 0 {
			continue
		}
		h := hs[o.Handle%len(hs)]
		switch o.Kind {
		case 1:
			if h.n.dir {
				continue
			}
			buf := make([]byte, o.N)
			n, err := h.f.Read(buf)
			left := int64(len(h.n.data)) - h.pos
			if left < 0 {
				left = 0
			}
			if n < 0 || int64(n) > left || n > o.N || !bytes.Equal(buf[:n], h.n.data[minI(h.pos, int64(len(h.n.data))):][:n]) {
				return fmt.Errorf("op %d: reading %q at %d: got %d bytes that are not those packed there", i, h.n.name, h.pos, n)
			}
			if n == 0 && o.N > 0 && left > 0 || left == 0 && o.N > 0 && err != io.EOF || err != nil && err != io.EOF || err == io.EOF && int64(n) < left {
				return fmt.Errorf("op %d: reading %q at %d of %d: %d, %v", i, h.n.name, h.pos, len(h.n.data), n, err)
			}
			h.pos += int64(n)
			reads++
		case 2:
			if h.n.dir {
				continue
			}
			want := int64(o.N)
			switch o.Whence {
			case 1:
				want += h.pos
			case 2:
				want += int64(len(h.n.data))
			}
			pos, err := h.f.Seek(int64(o.N), o.Whence)
			if want < 0 {
				if err == nil {
					return fmt.Errorf("op %d: seeking before the start of %q worked", i, h.n.name)
				}
				continue
			}
			if err != nil || pos != want {
				return fmt.Errorf("op %d: seeking %q to %d: %d, %v", i, h.n.name, want, pos, err)
			}
			h.pos = pos
		case 3:
			if !h.n.dir {
				continue
			}
			fis, err := h.f.Readdir(o.N)
			k := len(h.rest)
			if o.N > 0 && o.N < k {
				k = o.N
			}
			if len(fis) != k {
				return fmt.Errorf("op %d: listing %d of %q, with %q left: got %d, %v", i, o.N, h.n.name, h.rest, len(fis), err)
			}
			if o.N > 0 && k == 0 && err != io.EOF || (o.N <= 0 || k > 0) && err != nil {
				return fmt.Errorf("op %d: listing %d of %q, with %q left: %v", i, o.N, h.n.name, h.rest, err)
			}
			// entries come in some order; each once
			left := map[string]bool{}
			for _, n := range h.rest {
				left[n] = true
			}
			for _, fi := range fis {
				if fi == nil || !left[fi.Name()] {
					return fmt.Errorf("op %d: listing %q gave %v, left were %q", i, h.n.name, fi, h.rest)
				}
				delete(left, fi.Name())
				if err := checkInfo(fmt.Sprintf("op %d: listing %q", i, h.n.name), fi, h.n.kids[fi.Name()], false); err != nil {
					return err
				}
			}
			h.rest = h.rest[:0]
			for n := range left {
				h.rest = append(h.rest, n)
			}
			sort.Strings(h.rest)
			x.LabelIf(k > 0, "entries listed")
			pages += k
		case 4:
			fi, err := h.f.Stat()
			if err != nil {
				return fmt.Errorf("op %d: stat of %q: %v", i, h.n.name, err)
			}
			if err := checkInfo(fmt.Sprintf("op %d: stat", i), fi, h.n, h.n == tree); err != nil {
				return err
			}
		}
	}
	for _, h := range hs {
		if err := h.f.Close(); err != nil {
			return fmt.Errorf("closing: %v", err)
		}
	}
	if reads > 0 && pages > 0 {
		x.NonTrivial()
	}
	return nil
}

func minI(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// ---- over HTTP

type Req struct {
	Path    string
	Metric  string
	HasM    bool
	Extra   string
	Range   string
	Head    bool
	Through bool   // through the whole server
	Cond    string // what the answer depends on
	Fault   int    // when above 0, what is packed can be read only up to one less bytes
}

// counted is a file system that knows what is open and whose pages cannot be
// read to their end.
type counted struct {
	http.FileSystem
	mu           sync.Mutex
	opened, open int
	fault, hit   int
}

type countedFile struct {
	http.File
	c      *counted
	page   bool
	closed bool
	n      int
}

var errFault = errors.New("planned fault")

func (c *counted) Open(name string) (http.File, error) {
	f, err := c.FileSystem.Open(name)
	if err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.open++
	c.opened++
	k := &countedFile{File: f, c: c}
	if fi, err := f.Stat(); err == nil && !fi.IsDir() && strings.HasSuffix(fi.Name(), ".html") {
		k.page = true
	}
	return k, nil
}

func (f *countedFile) Read(p []byte) (int, error) {
	if f.c.fault > 0 && f.page {
		if left := f.c.fault - 1 - f.n; left <= 0 {
			f.c.mu.Lock()
			f.c.hit++
			f.c.mu.Unlock()
			return 0, errFault
		} else if len(p) > left {
			p = p[:left]
		}
	}
	n, err := f.File.Read(p)
	f.n += n
	return n, err
}

func (f *countedFile) Close() error {
	f.c.mu.Lock()
	if !f.closed {
		f.c.open--
	}
	f.closed = true
	f.c.mu.Unlock()
	return f.File.Close()
}

type HTTPCase struct {
	Arch Arch
	Reqs []Req
	Dev  bool
	Conc bool
}

var metrics = []string{"m", "", `a.b"c`, "<script>alert(1)</script>", "it's & so", "</script>", "<hr id=1>", "é λ", "a\\\"b\n", "{{.dev}}", "-->", "a+b c%41", "javascript:x", "\u2028", "`${x}`"}

func genHTTP(t *rapid.T) HTTPCase {
	c := HTTPCase{Arch: genArch(t), Dev: rapid.IntRange(0, 3).Draw(t, "dev") == 2, Conc: rapid.IntRange(0, 5).Draw(t, "conc") == 3}
	for i := rapid.IntRange(1, 6).Draw(t, "nreqs"); i > 0; i-- {
		q := Req{Path: c.Arch.genPath(t), HasM: rapid.IntRange(0, 2).Draw(t, "hasm") > 0, Through: rapid.Bool().Draw(t, "through")}
		if q.HasM {
			if rapid.Bool().Draw(t, "plain") {
				q.Metric = rapid.SampledFrom(metrics).Draw(t, "metric")
			} else {
				q.Metric = rapid.StringMatching(`[a-c<>"'&%+ =/;:{}é\\]{0,8}`).Draw(t, "metric")
			}
		}
		q.Extra = rapid.SampledFrom([]string{"", "now=5", "x=<b>", "q='\"", "metric=other", "&&", "%", "a;b"}).Draw(t, "extra")
		q.Cond = rapid.SampledFrom([]string{"", "", "", "", "", "none match", "old", "recent"}).Draw(t, "cond")
		switch rapid.IntRange(0, 5).Draw(t, "special") {
		case 0:
			a := rapid.IntRange(0, 600).Draw(t, "from")
			q.Range = rapid.SampledFrom([]string{fmt.Sprintf("bytes=%d-", a), fmt.Sprintf("bytes=%d-%d", a, a+rapid.IntRange(0, 600).Draw(t, "len")), fmt.Sprintf("bytes=-%d", a+1)}).Draw(t, "range")
		case 1:
			q.Head = !q.Through
		case 2:
			if rapid.IntRange(0, 2).Draw(t, "faulty") == 1 {
				q.Fault = rapid.SampledFrom([]int{1, 2, 6, 20}).Draw(t, "fault")
			}
		}
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

// recent is a time among those of the files.
var recent = time.Unix(1.2e9, 0)

func runHTTP(x *vkit.Ctx, c HTTPCase) error {
	fs, err := tgzfs.New(c.Arch.pack())
	if err != nil {
		return fmt.Errorf("a well formed archive was refused: %v", err)
	}
	if c.Dev {
		os.Setenv("ROTHKO_DEV", "1")
	} else {
		os.Unsetenv("ROTHKO_DEV")
	}
	tree := c.Arch.tree()
	cfs := &counted{FileSystem: fs}
	faulty := make([]*counted, len(c.Reqs))
	static := tmplfs.New(cfs)
	srv := api.New(&fakeapi.DB{}, static, api.Options{})
	answers := make([]*httptest.ResponseRecorder, len(c.Reqs))
	queries := make([]string, len(c.Reqs))
	ask := func(i int) {
		q := c.Reqs[i]
		var hd http.Handler = static
		if q.Through {
			hd = srv
		}
		if q.Fault > 0 {
			faulty[i] = &counted{FileSystem: fs, fault: q.Fault}
			hd = tmplfs.New(faulty[i])
			if q.Through {
				hd = api.New(&fakeapi.DB{}, hd, api.Options{})
			}
		}
		var parts []string
		if q.HasM {
			parts = append(parts, "metric="+url.QueryEscape(q.Metric))
		}
		if q.Extra != "" {
			parts = append(parts, q.Extra)
		}
		u := &url.URL{Path: q.Path, RawQuery: strings.Join(parts, "&")}
		req := httptest.NewRequest("GET", "http://rothko.test/", nil)
		req.URL.Path, req.URL.RawQuery = u.Path, u.RawQuery
		if q.Head {
			req.Method = "HEAD"
		}
		if q.Range != "" {
			req.Header.Set("Range", q.Range)
		}
		switch q.Cond {
		case "none match":
			req.Header.Set("If-None-Match", `"other", W/"another"`)
		case "old":
			req.Header.Set("If-Modified-Since", time.Unix(0, 0).UTC().Format(http.TimeFormat))
		case "recent":
			req.Header.Set("If-Modified-Since", recent.UTC().Format(http.TimeFormat))
		}
		w := httptest.NewRecorder()
		hd.ServeHTTP(w, req)
		answers[i], queries[i] = w, u.RawQuery
	}
	judge := func(i int) error {
		q, w, query := c.Reqs[i], answers[i], queries[i]
		what := fmt.Sprintf("request %d: %q?%s range %q head %v", i, q.Path, query, q.Range, q.Head)
		if q.Cond != "" {
			what += " condition " + q.Cond
		}
		if f := faulty[i]; f != nil {
			if f.open != 0 {
				return fmt.Errorf("%s: %d of %d files are still open after an error", what, f.open, f.opened)
			}
			if f.hit > 0 {
				x.Label("page that cannot be read")
				if w.Code < 400 && !strings.Contains(w.Body.String(), "<pre>") {
					return fmt.Errorf("%s: answered with %d although the page could be read only up to %d bytes: %q", what, w.Code, q.Fault-1, w.Body)
				}
				return nil
			}
		}
		metric := q.Metric
		if !q.HasM && q.Extra == "metric=other" {
			metric = "other"
		}

		// which file answers
		if strings.HasSuffix(q.Path, "/index.html") {
			if w.Code != 301 {
				return fmt.Errorf("%s: %d instead of a redirection to the directory", what, w.Code)
			}
			return nil
		}
		def := tree.kids["index.html"]
		if def != nil && def.dir {
			def = nil
		}
		n := tree.find(q.Path)
		if n == nil {
			n = def
		}
		slash := strings.HasSuffix(q.Path, "/")
		redirect := false
		if n != nil {
			redirect = n.dir != slash
		}
		if broken(n) {
			if w.Code < 400 || strings.Contains(w.Body.String(), "{{") {
				return fmt.Errorf("%s: answered with %d for a page that is not a template", what, w.Code)
			}
			x.Label("malformed page")
			return nil
		}
		if redirect {
			if w.Code != 301 {
				return fmt.Errorf("%s: %d instead of a redirection", what, w.Code)
			}
			return nil
		}
		if n != nil && n.dir {
			d := n
			n = d.kids["index.html"]
			if n == nil {
				n = def
			} else if n.dir {
				d, n = n, nil // a directory of that name is listed instead
			}
			if broken(n) {
				x.Label("malformed page")
				return nil // the directory is listed, or an error shown
			}
			if n == nil {
				// a listing
				if w.Code == 304 && q.Cond == "recent" {
					return nil
				}
				if w.Code != 200 {
					return fmt.Errorf("%s: listing a directory: %d", what, w.Code)
				}
				if q.Head {
					return nil
				}
				for k := range d.kids {
					if !strings.Contains(w.Body.String(), html.EscapeString(k)) {
						return fmt.Errorf("%s: listing a directory misses %q: %s", what, k, w.Body)
					}
				}
				if got := strings.Count(w.Body.String(), "<a href="); got != len(d.kids) {
					return fmt.Errorf("%s: listing a directory with %d entries shows %d", what, len(d.kids), got)
				}
				x.Label("listing")
				return nil
			}
		}
		if n == nil {
			if w.Code != 404 {
				return fmt.Errorf("%s: not packed, but answered with %d", what, w.Code)
			}
			x.Label("not found")
			return nil
		}
		x.LabelIf(n == def && n != tree.find(q.Path), "default page")
		page := strings.HasSuffix(n.name, ".html")
		if w.Code == 304 && q.Cond == "recent" && (page || n.entry.Mtime <= recent.Unix()) {
			x.Label("not modified")
			if w.Body.Len() > 0 {
				return fmt.Errorf("%s: not modified, with %d bytes", what, w.Body.Len())
			}
			return nil
		}
		if w.Code >= 400 && !(w.Code == 416 && q.Range != "") {
			return fmt.Errorf("%s: answered with %d: %s", what, w.Code, w.Body)
		}
		if ct := mime.TypeByExtension(path.Ext(n.name)); ct != "" && w.Code == 200 && w.Header().Get("Content-Type") != ct {
			return fmt.Errorf("%s: content type %q, not %q", what, w.Header().Get("Content-Type"), ct)
		}
		if page {
			x.Label("page")
			if q.Range != "" || q.Head {
				return nil
			}
			pieces := strings.Split(w.Body.String(), "<hr id=")
			if len(n.entry.Segs) == 0 {
				if w.Body.Len() != 0 {
					return fmt.Errorf("%s: an empty page shows %q", what, w.Body)
				}
				return nil
			}
			if len(pieces) != len(n.entry.Segs) {
				return fmt.Errorf("%s: page has %d parts instead of %d: %q", what, len(pieces), len(n.entry.Segs), w.Body)
			}
			for k, p := range pieces {
				if k > 0 {
					p = p[strings.Index(p, ">")+1:]
				}
				if s := segs[n.entry.Segs[k]]; !s.good(p, metric, query, c.Dev) {
					return fmt.Errorf("%s: the template %q, with metric %q, query %q and dev %v, became %q", what, s.src, metric, query, c.Dev, p)
				}
			}
			if metric != "" {
				x.Label("page with a metric")
				x.NonTrivial()
			}
			return nil
		}
		want := n.data
		if q.Range != "" {
			from, to, ok := rangeOf(q.Range, len(want))
			if len(want) == 0 {
				// nothing to take a part of: all or nothing are both fine
				return nil
			}
			if !ok {
				if w.Code != 416 {
					return fmt.Errorf("%s: range beyond the %d bytes: %d", what, len(want), w.Code)
				}
				return nil
			}
			if w.Code != 206 {
				return fmt.Errorf("%s: range: %d", what, w.Code)
			}
			want = want[from:to]
			x.Label("range")
			x.NonTrivial()
		} else if w.Code != 200 {
			return fmt.Errorf("%s: %d", what, w.Code)
		}
		if q.Head {
			if w.Header().Get("Content-Length") != fmt.Sprint(len(want)) {
				return fmt.Errorf("%s: content length %s, packed %d", what, w.Header().Get("Content-Length"), len(want))
			}
			return nil
		}
		if !bytes.Equal(w.Body.Bytes(), want) {
			return fmt.Errorf("%s: %d bytes that are not the %d packed", what, w.Body.Len(), len(want))
		}
		return nil
	}
	var wg sync.WaitGroup
	for i := range c.Reqs {
		if !c.Conc {
			ask(i)
			continue
		}
		wg.Add(1)
		go func(i int) { defer wg.Done(); ask(i) }(i)
	}
	wg.Wait()
	x.LabelIf(c.Conc, "concurrent")
	for i := range c.Reqs {
		if err := judge(i); err != nil {
			return err
		}
	}
	if cfs.open != 0 {
		return fmt.Errorf("%d of the %d files opened are still open after all requests were answered", cfs.open, cfs.opened)
	}
	return nil
}

func broken(n *node) bool {
	if n == nil || n.dir || !strings.HasSuffix(n.name, ".html") {
		return false
	}
	for _, s := range n.entry.Segs {
		if s < 0 {
			return true
		}
	}
	return false
}

func rangeOf(r string, size int) (from, to int, ok bool) {
	r = strings.TrimPrefix(r, "bytes=")
	if strings.HasPrefix(r, "-") {
		fmt.Sscanf(r, "-%d", &to)
		if to > size {
			to = size
		}
		return size - to, size, size > 0
	}
	if n, _ := fmt.Sscanf(r, "%d-%d", &from, &to); n < 2 {
		to = size - 1
	}
	if to > size-1 {
		to = size - 1
	}
	return from, to + 1, from < size
}

// ---- damaged archives

type DamageCase struct {
	Arch Arch
	Cut  int // permille to keep; 0 for bytes changed instead
	Flip []int
	To   []int
}

func genDamage(t *rapid.T) DamageCase {
	c := DamageCase{Arch: genArch(t)}
	if rapid.Bool().Draw(t, "cut?") {
		c.Cut = rapid.IntRange(1, 999).Draw(t, "cut")
	} else {
		c.Flip = rapid.SliceOfN(rapid.IntRange(0, 100000), 1, 4).Draw(t, "flip")
		c.To = rapid.SliceOfN(rapid.IntRange(1, 255), len(c.Flip), len(c.Flip)).Draw(t, "to")
	}
	return c
}

func runDamage(x *vkit.Ctx, c DamageCase) error {
	packed := c.Arch.pack()
	if c.Cut > 0 {
		packed = packed[:len(packed)*c.Cut/1000]
	}
	for i, f := range c.Flip {
		packed[f%len(packed)] ^= byte(c.To[i])
	}
	fs, err := tgzfs.New(packed)
	if err != nil {
		x.Label("refused")
		return nil
	}
	if fs == nil {
		return fmt.Errorf("neither a file system nor an error")
	}
	x.Label("taken")
	x.NonTrivial()
	tree := c.Arch.tree()
	for _, e := range c.Arch.Entries {
		f, err := fs.Open("/" + e.Path)
		if c.Cut == 0 {
			if err == nil {
				f.Stat()
				f.Readdir(-1)
				io.Copy(io.Discard, f)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("a cut archive was taken without %q: %v", e.Path, err)
		}
		if e.Dir {
			continue
		}
		got, err := io.ReadAll(f)
		if err != nil || !bytes.Equal(got, tree.find(e.Path).data) {
			return fmt.Errorf("a cut archive was taken with another %q: %d bytes, %v", e.Path, len(got), err)
		}
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P31",
		Rule: "generated archives (nested, directories with and without entries, repeated files, ./ names) opened, read, sought and listed in pages over several handles against the packed tree; pages, files, ranges and unknown paths asked for over HTTP, directly and through the server, with hostile metrics and queries, each template context decoded back; cut and damaged archives; " +
			"non-trivial: a file read and a directory listed / a page showing a metric or a range of a file / a damaged archive that is still taken",
		Assumptions: []string{"the redirections and listing format of net/http's file server; an archive that has an index.html at its root answers unknown paths with it"},
	},
		vkit.P("files", 12000, 400000, genFS, runFS),
		vkit.P("http", 12000, 400000, genHTTP, runHTTP),
		vkit.P("damage", 4000, 100000, genDamage, runDamage),
	)
}
