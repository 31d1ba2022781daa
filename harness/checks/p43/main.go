// P43: components that plugins supply take part like the built-in ones.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files/zzverif/fakedist"
	"github.com/vivint/rothko/database/files/zzverif/plugkit"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

// KV is a setting: one of I, F, S, B or L, or a table T.
type KV struct {
	K string
	I *int64   `json:",omitempty"`
	F *float64 `json:",omitempty"`
	S *string  `json:",omitempty"`
	B *bool    `json:",omitempty"`
	L []int64  `json:",omitempty"`
	T []KV     `json:",omitempty"`
}

// Part is a component of the configuration.
type Part struct {
	Kind string
	Set  []KV
	More []KV // settings that nobody knows
}

type Case struct {
	Plugins []string // a, b, missing, junk
	Named   []int    `json:",omitempty"` // how each of them is named
	DB      Part
	Dist    Part
	Lis     []Part
	Period  int // milliseconds
	When    int // milliseconds until the interrupt
	Asks    []string
	Demo    bool
}

func kvS(k, v string) KV       { return KV{K: k, S: &v} }
func kvI(k string, v int64) KV { return KV{K: k, I: &v} }

var texts = []string{"out of luck", "zero bananas", "the disk is on fire", "context canceled"}

func genKV(t *rapid.T, depth int) []KV {
	var out []KV
	seen := map[string]bool{}
	for i := rapid.IntRange(0, 3).Draw(t, "nmore"); i > 0; i-- {
		kv := KV{K: rapid.SampledFrom([]string{"x1", "x2", "Mixed", "with-dash", "under_score", "0", "password", "size"}).Draw(t, "key")}
		if seen[kv.K] {
			continue
		}
		seen[kv.K] = true
		switch rapid.IntRange(0, 5).Draw(t, "vk") {
		case 0:
			v := rapid.Int64().Draw(t, "i")
			kv.I = &v
		case 1:
			v := rapid.Float64Range(-1e6, 1e6).Draw(t, "f")
			kv.F = &v
		case 2:
			v := rapid.SampledFrom([]string{"", "a b", "\"quoted\"", "é\n", "#no comment", "1"}).Draw(t, "s")
			kv.S = &v
		case 3:
			v := rapid.Bool().Draw(t, "b")
			kv.B = &v
		case 4:
			kv.L = rapid.SliceOfN(rapid.Int64Range(-9, 9), 1, 4).Draw(t, "l")
		case 5:
			if depth > 0 {
				kv.T = genKV(t, depth-1)
			}
			if len(kv.T) == 0 {
				v := int64(0)
				kv.I = &v
			}
		}
		out = append(out, kv)
	}
	return out
}

func gen(t *rapid.T) Case {
	rare := func(l string, n int) bool { return rapid.IntRange(0, n).Draw(t, l) == n/2+1 }
	c := Case{
		Plugins: rapid.SampledFrom([][]string{{"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"b", "a", "b"}, {"a", "a"}}).Draw(t, "plugins"),
		Period:  rapid.SampledFrom([]int{40, 150, 100000}).Draw(t, "period"),
		When:    rapid.SampledFrom([]int{0, 5, 60, 300}).Draw(t, "when"),
		Demo:    rare("demo", 7),
	}
	if rare("badplugin", 11) {
		c.Plugins = rapid.SampledFrom([][]string{nil, {"missing"}, {"a", "missing"}, {"missing", "a"}, {"a", "junk"}, {"junk", "b"}}).Draw(t, "bad")
	}
	for range c.Plugins {
		c.Named = append(c.Named, rapid.SampledFrom([]int{0, 1, 2, 1, 3}).Draw(t, "named"))
	}
	hasB := strings.Contains(strings.Join(c.Plugins, ""), "b")
	c.DB = Part{Kind: rapid.SampledFrom([]string{"journal", "journal", "journal", "files"}).Draw(t, "db"), More: genKV(t, 1)}
	if c.DB.Kind == "journal" {
		c.DB.Set = append(c.DB.Set, kvS("answer", rapid.SampledFrom([]string{"", "", "", "refuse", "error", "deny"}).Draw(t, "answer")))
		if rare("late", 2) {
			ms := []int64{1, 30, 400}
			if c.Demo {
				ms = []int64{1}
			}
			c.DB.Set = append(c.DB.Set, kvI("late", rapid.SampledFrom(ms).Draw(t, "latems")))
		}
		if rare("dbend", 9) {
			c.DB.Set = append(c.DB.Set, kvS("end", rapid.SampledFrom(texts).Draw(t, "dbtext")), kvI("after", rapid.SampledFrom([]int64{0, 1, 50, 200}).Draw(t, "dbafter")))
		}
		if rare("dbclosing", 3) {
			c.DB.Set = append(c.DB.Set, kvI("closing", rapid.SampledFrom([]int64{1, 50, 200}).Draw(t, "closing")))
		}
		if rare("dbfail", 15) {
			c.DB.Set = append(c.DB.Set, kvS("fail", rapid.SampledFrom(texts).Draw(t, "failtext")))
		}
	} else {
		c.DB.More = nil
	}
	c.Dist = Part{Kind: rapid.SampledFrom([]string{fakedist.Kind, fakedist.Kind, fakedist.Kind, "tdigest"}).Draw(t, "dist"), More: genKV(t, 1)}
	if c.Dist.Kind == fakedist.Kind {
		if rare("distfail", 15) {
			c.Dist.Set = append(c.Dist.Set, kvS("fail", rapid.SampledFrom(texts).Draw(t, "failtext")))
		}
		if rare("useless", 15) {
			c.Dist.Set = append(c.Dist.Set, kvS("useless", "yes"))
		}
	} else {
		f := 5.0
		c.Dist.Set, c.Dist.More = []KV{{K: "compression", F: &f}}, nil
	}
	nl := rapid.IntRange(0, 3).Draw(t, "nl")
	if rare("manyl", 19) {
		nl = rapid.IntRange(4, 24).Draw(t, "nls")
	}
	for i := nl; i > 0; i-- {
		if len(c.Lis) > 0 && rare("same", 9) {
			c.Lis = append(c.Lis, c.Lis[rapid.IntRange(0, len(c.Lis)-1).Draw(t, "asone")])
			continue
		}
		l := Part{Kind: "script", More: genKV(t, 1)}
		if rare("graphite", 4) {
			l.Kind = "graphite"
		}
		if l.Kind == "script" || hasB {
			l.Set = append(l.Set, kvS("metric", rapid.SampledFrom([]string{"m", "a.b", "", "é"}).Draw(t, "metric")), kvI("count", rapid.Int64Range(0, 20).Draw(t, "count")), kvI("gap", rapid.SampledFrom([]int64{0, 1, 10}).Draw(t, "gap")))
			if rare("tail", 2) {
				l.Set = append(l.Set, kvI("tail", rapid.Int64Range(1, 15).Draw(t, "tails")))
			}
			if rare("lend", 11) {
				l.Set = append(l.Set, kvS("end", rapid.SampledFrom(append([]string{"nil", "nil", "nil"}, texts...)).Draw(t, "lendtext")))
			}
			if rare("lfail", 23) {
				l.Set = append(l.Set, kvS("fail", rapid.SampledFrom(texts).Draw(t, "failtext")))
			}
		}
		// settings may be left out
		switch rapid.IntRange(0, 8).Draw(t, "leave out") {
		case 3:
			l.Set, l.More = nil, nil
		case 5:
			l.Set = nil
		case 7:
			if len(l.Set) > 0 {
				k := rapid.IntRange(0, len(l.Set)-1).Draw(t, "left out")
				l.Set = append(l.Set[:k:k], l.Set[k+1:]...)
			}
		}
		c.Lis = append(c.Lis, l)
	}
	if rare("nosuch", 15) {
		switch k := rapid.IntRange(0, 2).Draw(t, "which"); {
		case k == 0:
			c.DB.Kind = "Journal"
		case k == 1:
			c.Dist.Kind = "nosuch"
		case len(c.Lis) > 0:
			c.Lis[len(c.Lis)-1].Kind = "scripts"
		}
	}
	c.Asks = rapid.SliceOfN(rapid.SampledFrom([]string{"", "", "preset.one", "zz", "m"}), 0, 3).Draw(t, "asks")
	return c
}

func quote(s string) string {
	b, err := json.Marshal(s)
	vkit.Must(err)
	return string(b)
}

func (v KV) toml() string {
	switch {
	case v.I != nil:
		return strconv.FormatInt(*v.I, 10)
	case v.F != nil:
		s := strconv.FormatFloat(*v.F, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		return s
	case v.S != nil:
		return quote(*v.S)
	case v.B != nil:
		return strconv.FormatBool(*v.B)
	case v.L != nil:
		return strings.ReplaceAll(fmt.Sprint(v.L), " ", ", ")
	}
	var parts []string
	for _, kv := range v.T {
		parts = append(parts, kv.K+" = "+kv.toml())
	}
	return "{ " + strings.Join(parts, ", ") + " }"
}

func (v KV) value() interface{} {
	switch {
	case v.I != nil:
		return *v.I
	case v.F != nil:
		return *v.F
	case v.S != nil:
		return *v.S
	case v.B != nil:
		return *v.B
	case v.L != nil:
		var l []interface{}
		for _, i := range v.L {
			l = append(l, i)
		}
		return l
	}
	return table(v.T)
}

func table(kvs []KV) map[string]interface{} {
	m := map[string]interface{}{}
	for _, kv := range kvs {
		m[kv.K] = kv.value()
	}
	return m
}

func (p Part) all() []KV { return append(p.Set[:len(p.Set):len(p.Set)], p.More...) }

func (p Part) get(k string) (s string, i int64) {
	for _, kv := range p.Set {
		if kv.K == k && kv.S != nil {
			s = *kv.S
		}
		if kv.K == k && kv.I != nil {
			i = *kv.I
		}
	}
	return
}

func (p Part) write(b *strings.Builder, head string) {
	fmt.Fprintf(b, "%s\n", head)
	for _, kv := range p.all() {
		fmt.Fprintf(b, "%s = %s\n", kv.K, kv.toml())
	}
}

var host, files string

func free() string {
	l, err := net.Listen("tcp", host+":0")
	vkit.Must(err)
	defer l.Close()
	return l.Addr().String()
}

// by is the plugin that supplies a kind: of those that register it, the one
// that is loaded last. One that is named twice is loaded once.
func (c Case) by(kind string) (by string) {
	switch kind {
	case "journal", "script", fakedist.Kind, "graphite":
	default:
		return ""
	}
	seen := map[string]bool{}
	for _, p := range c.Plugins {
		if !seen[p] && (p == "a" && kind != "graphite" || p == "b") {
			by = p
		}
		seen[p] = true
	}
	return by
}

func (c Case) known(section, kind string) bool {
	switch section + kind {
	case "dbfiles", "disttdigest", "lisgraphite":
		return true
	case "dbjournal", "distzz-exact", "lisscript":
		return c.by(kind) != ""
	}
	return false
}

func run(x *vkit.Ctx, c Case) error {
	losses := 0
	for try := 0; ; try++ {
		again, lost, err := attempt(x, c)
		if lost {
			// one that is made in the very moment of a dump may be lost, as
			// documented: this is not what happens three times in a row
			losses++
			x.Label("an observation lost")
			again = losses < 3
		}
		if !again || try > 8 {
			return err
		}
	}
}

func attempt(x *vkit.Ctx, c Case) (again, lost bool, err error) {
	again, err = once(x, c, &lost)
	return again, lost, err
}

func once(x *vkit.Ctx, c Case, missing *bool) (again bool, err error) {
	dir := x.TempDir()
	journal, dataDir := filepath.Join(dir, "journal"), filepath.Join(dir, "data")
	// the parts
	if c.DB.Kind == "files" {
		c.DB.Set = []KV{kvS("directory", dataDir), kvI("size", 1024), kvI("cap", 40), kvI("files", 100)}
	}
	var b strings.Builder
	var plugs []string
	loads := true
	for i, p := range c.Plugins {
		file := filepath.Join(files, p+".so")
		switch p {
		case "missing":
			loads = false
			file = filepath.Join(dir, "missing.so")
		case "junk":
			loads = false
			file = filepath.Join(dir, "junk.so")
			vkit.Must(os.WriteFile(file, []byte("\x7fELF and so on"), 0755))
		}
		named := 0
		if i < len(c.Named) {
			named = c.Named[i]
		}
		switch named {
		case 1: // files of the same name in different directories
			vkit.Must(os.MkdirAll(filepath.Join(dir, p), 0755))
			link := filepath.Join(dir, p, "plugin.so")
			os.Symlink(file, link)
			file = link
		case 2: // relative to where the program runs
			os.Symlink(file, filepath.Join(dir, "with space, and = "+p))
			file = "with space, and = " + p
		case 3:
			file = filepath.Dir(file) + "/.//" + filepath.Base(file)
		}
		plugs = append(plugs, quote(file))
	}
	addr := free()
	fmt.Fprintf(&b, "[main]\nduration = \"%dms\"\nplugins = [%s]\n", c.Period, strings.Join(plugs, ", "))
	lis := append([]Part{}, c.Lis...)
	for i := range lis {
		if lis[i].Kind == "graphite" {
			lis[i].Set = append(lis[i].Set[:len(lis[i].Set):len(lis[i].Set)], kvS("address", free()))
		}
		lis[i].write(&b, "[[listeners."+lis[i].Kind+"]]")
	}
	c.DB.write(&b, "[database."+c.DB.Kind+"]")
	if c.DB.Kind == "journal" {
		b.WriteString("metrics = [\"preset.one\", \"preset.two\"]\n")
	}
	c.Dist.write(&b, "[dist."+c.Dist.Kind+"]")
	fmt.Fprintf(&b, "[api]\naddress = %q\n", addr)
	conf := filepath.Join(dir, "rothko.toml")
	vkit.Must(os.WriteFile(conf, []byte(b.String()), 0644))

	// what becomes of it
	ok := loads && c.known("db", c.DB.Kind) && c.known("dist", c.Dist.Kind)
	fails := map[string]bool{}
	for _, p := range append([]Part{c.DB, c.Dist}, lis...) {
		if s, _ := p.get("fail"); s != "" && !(c.Demo && (p.Kind == "script" || p.Kind == "graphite")) {
			ok = false
			fails[s] = true
		}
	}
	selfEnd := false
	if s, _ := c.DB.get("end"); s != "" {
		selfEnd = true
	}
	if !c.Demo {
		for _, l := range lis {
			ok = ok && c.known("lis", l.Kind)
			if s, _ := l.get("end"); s != "" {
				selfEnd = true
			}
		}
		if s, _ := c.Dist.get("useless"); s != "" {
			ok = false
		}
	}

	cmd := exec.Command(filepath.Join(files, "rothko"), map[bool]string{false: "run", true: "demo"}[c.Demo], conf)
	cmd.Dir = dir
	var out vkit.Buf
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Env = append(os.Environ(), plugkit.Journal+"="+journal)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	vkit.Must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	x.Cleanup(func() { cmd.Process.Kill() })
	asked := map[string]int{}
	if ok && !selfEnd && !c.Demo {
		for i := 0; ; i++ {
			k, err := net.Dial("tcp", addr)
			if err == nil {
				k.Close()
				break
			}
			select {
			case <-done:
				if strings.Contains(out.String(), "address already in use") {
					return true, fmt.Errorf("no port")
				}
				return false, fmt.Errorf("the server ended with status %d instead of running:\n%s\n%s", cmd.ProcessState.ExitCode(), b.String(), tail(out.String()))
			case <-time.After(time.Millisecond):
			}
			if i > 40000 {
				return false, fmt.Errorf("the server does not listen:\n%s\n%s", b.String(), tail(out.String()))
			}
		}
		for _, a := range c.Asks {
			url := "http://" + addr + "/api/query?query="
			if a != "" {
				url = "http://" + addr + "/api/render?metric=" + a
			}
			asked[a]++
			resp, err := (&http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 60 * time.Second}).Get(url)
			if err != nil {
				return false, fmt.Errorf("%s: %v\n%s", url, err, tail(out.String()))
			}
			body, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			if err != nil {
				return false, fmt.Errorf("%s: %v", url, err)
			}
			if a == "" && c.DB.Kind == "journal" {
				var names []string
				if err := json.Unmarshal(body, &names); err != nil || resp.StatusCode != 200 {
					return false, fmt.Errorf("%s: %d %q", url, resp.StatusCode, body)
				}
				may := map[string]bool{"preset.one": true, "preset.two": true}
				for _, l := range lis {
					m, _ := l.get("metric")
					may[m] = true
				}
				got := map[string]bool{}
				for _, n := range names {
					if !may[n] || got[n] {
						return false, fmt.Errorf("listed %q", names)
					}
					got[n] = true
				}
				if !got["preset.one"] || !got["preset.two"] {
					return false, fmt.Errorf("listed %q, which lacks what the database has", names)
				}
			}
		}
		time.Sleep(time.Duration(c.When) * time.Millisecond)
		cmd.Process.Signal(syscall.SIGINT)
	}
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Signal(syscall.SIGQUIT)
		<-done
		return false, fmt.Errorf("the program does not end:\n%s\n%s", b.String(), tail(out.String()))
	}
	code := cmd.ProcessState.ExitCode()
	if strings.Contains(out.String(), "address already in use") {
		return true, fmt.Errorf("no port")
	}
	fail := func(f string, a ...interface{}) (bool, error) {
		return false, fmt.Errorf("%s\n%s\n%s", fmt.Sprintf(f, a...), b.String(), tail(out.String()))
	}
	if code != 0 && code != 1 {
		return fail("the program ended with status %d", code)
	}
	events, err := read(journal)
	vkit.Must(err)

	// what was made, of which settings, by whom
	byID := map[int]plugkit.Event{}
	var made []string
	runs, ends := map[int]int{}, map[int]int{}
	var endErrs []string
	selfEnded := false
	for i, e := range events {
		switch e.K {
		case "make":
			byID[e.ID] = e
			if e.What == "dist" && e.Config == "nil" && len(c.Asks) > 0 {
				// to decode what it answers with, the API makes one of the
				// kind of each record, without settings
				continue
			}
			made = append(made, e.What+" "+e.Name+" "+e.By+" "+e.Config)
		case "run":
			runs[e.ID]++
		case "end":
			ends[e.ID] = i
			if e.Name != "" {
				endErrs = append(endErrs, e.Name)
			}
			selfEnded = selfEnded || !e.OK || e.Name != ""
		case "observe":
			if c.by("graphite") != "b" {
				return fail("a plugin that is not loaded observes")
			}
		}
	}
	var want []string
	add := func(section string, p Part, extra ...KV) {
		who := c.by(p.Kind)
		if loads && who != "" && c.known(section, p.Kind) {
			name := ""
			if section == "lis" {
				name = p.Kind
			}
			conf := table(append(p.all(), extra...))
			if section == "db" {
				conf["metrics"] = []interface{}{"preset.one", "preset.two"}
			}
			want = append(want, map[string]string{"db": "database", "dist": "dist", "lis": "listener"}[section]+" "+name+" "+who+" "+plugkit.Describe(conf))
		}
	}
	add("db", c.DB)
	add("dist", c.Dist)
	if !c.Demo {
		for _, l := range lis {
			add("lis", l)
		}
	}
	sort.Strings(made)
	sort.Strings(want)
	if !ok && !(c.Demo && len(fails) == 0 && loads && c.known("db", c.DB.Kind) && c.known("dist", c.Dist.Kind)) {
		// it must not start, and say why
		if code != 1 {
			return fail("a configuration that cannot be used: status %d", code)
		}
		if len(runs) > 0 {
			return fail("a configuration that cannot be used: %d parts ran", len(runs))
		}
		left := map[string]int{}
		for _, w := range want {
			left[w]++
		}
		for _, m := range made {
			if left[m]--; left[m] < 0 {
				return fail("made %q, not in the configuration, which has %q", m, want)
			}
		}
		if !strings.Contains(out.String(), "Invalid Configuration") {
			return fail("it does not say that the configuration is unusable")
		}
		usable := c.known("db", c.DB.Kind) && c.known("dist", c.Dist.Kind)
		for _, l := range lis {
			usable = usable && (c.Demo || c.known("lis", l.Kind))
		}
		if len(fails) > 0 && loads && usable && len(made) == len(want) {
			said := false
			for f := range fails {
				said = said || strings.Contains(out.String(), f)
			}
			if !said {
				return fail("none of the reasons %v is told", fails)
			}
		}
		x.Label("refused")
		x.NonTrivial()
		return false, nil
	}
	if !reflect.DeepEqual(made, want) {
		return fail("made %q, the configuration has %q", made, want)
	}
	// everything that was made ran once, and ended before the program did
	dbEnd := -1
	for id, e := range byID {
		if e.What == "dist" {
			continue
		}
		if runs[id] != 1 {
			return fail("%s %s ran %d times", e.What, e.Name, runs[id])
		}
		at, ok := ends[id]
		if !ok {
			return fail("the program exited while %s %s was still running", e.What, e.Name)
		}
		if e.What == "database" {
			dbEnd = at
		}
	}
	dbFirst := dbEnd >= 0 && (events[dbEnd].Name != "" || !events[dbEnd].OK)
	if dbEnd >= 0 && !dbFirst {
		for id, at := range ends {
			if at > dbEnd {
				return fail("the database was told to stop while listener %d was running", id)
			}
		}
		for i, e := range events {
			if i > dbEnd && (e.K == "queue" || e.K == "answer" || e.K == "add") {
				return fail("%q after the database was told to stop and ended", e.K)
			}
		}
	}
	if !c.Demo && !selfEnd && selfEnded {
		return fail("a part was not told to stop: %+v", events)
	}
	useless, _ := c.Dist.get("useless")
	answer, _ := c.DB.get("answer")
	if c.DB.Kind != "journal" {
		answer = ""
	}
	wantCode := 0
	if len(endErrs) > 0 || c.Demo && (useless != "" || answer == "error" || answer == "deny") {
		wantCode = 1
	}
	if code != wantCode {
		return fail("status %d, parts ended with %q", code, endErrs)
	}
	if len(endErrs) > 0 && (!c.Demo || useless+answer == "") {
		said := false
		for _, e := range endErrs {
			said = said || strings.Contains(out.String(), e)
		}
		if !said {
			return fail("parts ended with %q, which is not told", endErrs)
		}
	}

	// what was observed is in the records, once
	queued := map[int]plugkit.Event{}
	var recs []got
	oks, nots := 0, 0
	for _, e := range events {
		switch e.K {
		case "queue":
			queued[e.N] = e
		case "answer":
			q, ok := queued[e.N]
			if !ok {
				vkit.Must(fmt.Errorf("answer without a question"))
			}
			delete(queued, e.N)
			recs = append(recs, got{string(q.Metric), q.Start, q.End, e.Data})
			if e.OK {
				oks++
			} else {
				nots++
			}
		}
	}
	if len(queued) > 0 {
		return fail("the program exited before the database answered for %d values", len(queued))
	}
	if c.DB.Kind == "files" {
		db := store.Open(dataDir, store.Cfg{Size: 1024, Cap: 40, Files: 1000, Handles: 10, Workers: 1})
		defer db.Close()
		vkit.Must(db.DB.PopulateMetrics(context.Background()))
		names, err := db.Names(-1)
		if err != nil {
			return false, err
		}
		for _, m := range names {
			vals, err := db.All(m)
			if err != nil {
				return false, err
			}
			for i := len(vals) - 1; i >= 0; i-- {
				recs = append(recs, got{m, vals[i].Start, vals[i].End, vals[i].Data})
			}
		}
	}
	type tally struct {
		n        int64
		min, max float64
		vals     map[uint64]int
	}
	have, sent := map[string]*tally{}, map[string]*tally{}
	note := func(m map[string]*tally, k string, vals []float64, n int64, min, max float64) {
		t := m[k]
		if t == nil {
			t = &tally{min: math.Inf(1), max: math.Inf(-1), vals: map[uint64]int{}}
			m[k] = t
		}
		t.n += n
		t.min, t.max = math.Min(t.min, min), math.Max(t.max, max)
		for _, v := range vals {
			t.vals[math.Float64bits(v)]++
		}
	}
	last := map[string]int64{}
	count := map[string]int{}
	for _, g := range recs {
		var r data.Record
		if err := r.Unmarshal(g.data); err != nil {
			return fail("%q: %v", g.metric, err)
		}
		if r.StartTime != g.start || r.EndTime != g.end || r.Kind != c.Dist.Kind || g.start < last[g.metric] || g.end < g.start {
			return fail("%q: handed over from %d to %d, is from %d to %d, of kind %q; the one before ended at %d", g.metric, g.start, g.end, r.StartTime, r.EndTime, r.Kind, last[g.metric])
		}
		if !c.Demo || c.DB.Kind == "journal" {
			last[g.metric] = g.end
		}
		count[g.metric]++
		var vals []float64
		if c.Dist.Kind == fakedist.Kind {
			if vals, err = fakedist.Decode(r.Distribution); err != nil || int64(len(vals)) != r.Observations {
				return fail("%q: a distribution of %d values in a record of %d: %v", g.metric, len(vals), r.Observations, err)
			}
		}
		note(have, g.metric, vals, r.Observations, r.Min, r.Max)
	}
	if c.Demo {
		x.Label("demo")
		if code == 0 {
			if len(count) != 6 {
				return fail("demo data for %d metrics", len(count))
			}
			for m, n := range count {
				if n != 100 && c.DB.Kind == "journal" {
					return fail("%d records of %q", n, m)
				}
			}
			x.NonTrivial()
		}
		return false, nil
	}
	adds := 0
	for _, e := range events {
		if e.K == "add" {
			v := math.Float64frombits(e.Bits)
			note(sent, string(e.Metric), []float64{v}, 1, v, v)
			adds++
		}
	}
	for m, h := range have {
		s := sent[m]
		if s == nil {
			return fail("a record of %q, of which nothing was observed", m)
		}
		for v, n := range h.vals {
			if n > s.vals[v] {
				return fail("%q: %v is %d times in the records, and was observed %d times", m, math.Float64frombits(v), n, s.vals[v])
			}
		}
		if h.n > s.n {
			return fail("%q: %d values recorded, %d observed", m, h.n, s.n)
		}
	}
	if code == 0 {
		for m, s := range sent {
			h := have[m]
			if h == nil || h.n != s.n || h.min != s.min || h.max != s.max {
				*missing = true
				return fail("%q: observed %+v, recorded %+v", m, *s, h)
			}
		}
	}
	// the monitor of the plugin was told
	if c.DB.Kind == "journal" && c.by("graphite") == "b" {
		sum := map[string]float64{}
		for _, e := range events {
			if e.K == "observe" {
				sum[e.Name] += e.Value
			}
		}
		if sum["metric_writes"] != float64(oks) || sum["metric_skips"] != float64(nots) {
			return fail("%d values stored and %d not, the monitor was told %v", oks, nots, sum)
		}
		x.Label("monitor replaced")
	}
	for a, n := range asked {
		if c.DB.Kind != "journal" {
			break
		}
		for _, e := range events {
			if a == "" && e.K == "metrics" || a != "" && (e.K == "query" || e.K == "latest") && string(e.Metric) == a {
				n = 0
			}
		}
		if n > 0 {
			return fail("asked about %q, the database was not", a)
		}
	}
	x.LabelIf(selfEnd, "a part ends by itself")
	x.LabelIf(code == 1, "ended with an error")
	x.LabelIf(c.DB.Kind == "files", "built-in database")
	x.LabelN("observations", adds)
	x.LabelN("values handed over", len(recs))
	if adds > 0 && len(recs) > 0 {
		x.NonTrivial()
	}
	return false, nil
}

type got struct {
	metric     string
	start, end int64
	data       []byte
}

func read(path string) (out []plugkit.Event, err error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		var e plugkit.Event
		if err := json.Unmarshal([]byte(l), &e); err != nil {
			return nil, fmt.Errorf("%v: %q", err, l)
		}
		out = append(out, e)
	}
	return out, err
}

func tail(o string) string {
	if len(o) > 2500 {
		o = o[:700] + "\n...\n" + o[len(o)-1800:]
	}
	return o
}

// build builds the program and the plugins, once for all processes of the
// check.
func build(dir string) {
	files = filepath.Join(filepath.Dir(dir), "p43-built")
	l, err := os.OpenFile(files+".lock", os.O_RDWR|os.O_CREATE, 0600)
	vkit.Must(err)
	defer l.Close()
	vkit.Must(syscall.Flock(int(l.Fd()), syscall.LOCK_EX))
	if _, err := os.Stat(files); err == nil {
		return
	}
	tmp := files + ".tmp"
	vkit.Must(os.MkdirAll(tmp, 0755))
	const here = "github.com/vivint/rothko/database/files/zzverif"
	for _, a := range [][]string{
		{"-o", tmp + "/rothko", "github.com/vivint/rothko/bin/rothko"},
		{"-buildmode=plugin", "-o", tmp + "/a.so", here + "/plug/pa"},
		{"-buildmode=plugin", "-o", tmp + "/b.so", here + "/plug/pb"},
	} {
		cmd := exec.Command("go", append([]string{"build"}, a...)...)
		cmd.Dir = filepath.Join(os.Getenv("VERIF_ROOT"), "harness")
		cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "building %v: %v\n%s", a, err, out)
			os.Exit(3)
		}
	}
	vkit.Must(os.Rename(tmp, files))
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P43",
		Rule: "the program built from the tree, run with drawn lists of two plugins built from the tree (in either order, twice, missing, not plugins) whose database, distribution and listeners, with drawn settings, behaviours and failures, take the place of or stand beside the built-in ones; everything that is done to them is written down and compared with the configuration, with what the listeners observed, and with the order in which a server starts and stops; " +
			"non-trivial: values were observed and handed over, demo data was added, or the configuration was refused",
		Assumptions: []string{"plugins are built with the same compiler and dependencies as the program", "observations made before a part fails may be lost"},
		HangS:       150,
		Shards:      8,
		Init: func(dir string) {
			p := os.Getpid()
			host = fmt.Sprintf("127.%d.%d.%d", 224+p>>14&15, p>>7&127, 1+p&127)
			build(dir)
		},
	},
		vkit.P("plugins", 700, 20000, gen, run),
	)
}
