// P32: configuration means what it says.
package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

// Val is a value of a document.
type Val struct {
	T string // int, float, bool, string, time, array, table
	I int64
	F float64
	S string
	A []Val
	K []string // keys of a table, with A
	// how it is written
	Style int
}

// value is what it means.
func (v Val) value() interface{} {
	switch v.T {
	case "int":
		return v.I
	case "float":
		return v.F
	case "bool":
		return v.I == 1
	case "string":
		return v.S
	case "time":
		return time.Unix(v.I, 0).UTC()
	case "array":
		out := []interface{}{}
		for _, e := range v.A {
			out = append(out, e.value())
		}
		return out
	case "tables":
		out := []map[string]interface{}{}
		for _, e := range v.A {
			out = append(out, e.value().(map[string]interface{}))
		}
		return out
	}
	out := map[string]interface{}{}
	for i, k := range v.K {
		out[k] = v.A[i].value()
	}
	return out
}

var keys = []string{"address", "size", "directory", "a", "B_2", "x-y", "1", "tuning", "with space", "dot.ted", "é", "q\"uote", "kind"}
var strs = []string{"", "x", ":1111", "data", "a b", "é\u2028", "tab\there", "quote\"d", "it's", "back\\slash", "nl\nline", "#no comment", "[x]", "= 1", "${x}", "cr\r", "trail\\", "\x07", "日本", "redacted"}

func genVal(t *rapid.T, depth int) Val {
	kinds := []string{"int", "float", "bool", "string", "string", "time", "array", "table", "tables"}
	if depth <= 0 {
		kinds = kinds[:6]
	}
	v := Val{T: rapid.SampledFrom(kinds).Draw(t, "type"), Style: rapid.IntRange(0, 7).Draw(t, "style")}
	switch v.T {
	case "int":
		v.I = rapid.OneOf(rapid.Int64Range(-10, 10000), rapid.Int64()).Draw(t, "int")
	case "float":
		v.F = rapid.OneOf(rapid.SampledFrom([]float64{0, 5, 0.1, -2.5, 1e10, 1e-9, 123456789.125, 1e22}), rapid.Map(rapid.IntRange(-100000, 100000), func(i int) float64 { return float64(i) / 64 })).Draw(t, "float")
	case "bool":
		v.I = int64(rapid.IntRange(0, 1).Draw(t, "bool"))
	case "string":
		v.S = rapid.OneOf(rapid.SampledFrom(strs), rapid.StringMatching(`[a-z "'\\#é=\n]{0,10}`)).Draw(t, "string")
	case "time":
		v.I = rapid.Int64Range(0, 4e9).Draw(t, "time")
	case "array":
		e := genVal(t, 0)
		for i := rapid.IntRange(0, 3).Draw(t, "len"); i > 0; i-- {
			w := genVal(t, 0)
			for k := 0; w.T != e.T; k++ {
				w = genVal(t, 0)
				if k > 20 {
					w = e
				}
			}
			v.A = append(v.A, w)
		}
	case "table":
		v = genTable(t, depth-1)
	case "tables":
		for i := rapid.IntRange(1, 2).Draw(t, "len"); i > 0; i-- {
			v.A = append(v.A, genTable(t, depth-1))
		}
	}
	return v
}

func genTable(t *rapid.T, depth int) Val {
	v := Val{T: "table", Style: rapid.IntRange(0, 7).Draw(t, "style")}
	for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom(keys), 0, 4, rapid.ID[string]).Draw(t, "keys") {
		v.K = append(v.K, k)
		v.A = append(v.A, genVal(t, depth))
	}
	return v
}

// Listeners of a kind.
type Lis struct {
	Kind string
	Each []Val
}

type Doc struct {
	Main, API, TLS, Sec bool // sections are there
	Dur                 string
	DurSet              bool
	Plugins             []string
	PluginsSet          bool
	Address, Origin     *string
	Key, Cert           *string
	User, Pass          *string
	Lis                 []Lis
	DBKind, DistKind    string
	DB, Dist            Val
	Order               []int
	Noise               int
	Inline              int
}

var durs = []string{"10m", "1h30m", "1.5s", "300ms", "1h", "0s", "-5s", "1us", "2562047h", "+3m", "1m0.5s", "24h0m0s", "100ns"}

func genDoc(t *rapid.T) Doc {
	maybe := func(name string) *string {
		if rapid.Bool().Draw(t, name+"?") {
			s := rapid.OneOf(rapid.SampledFrom(strs), rapid.StringMatching(`[a-z:0-9]{1,8}`)).Draw(t, name)
			return &s
		}
		return nil
	}
	d := Doc{Main: rapid.IntRange(0, 5).Draw(t, "main") > 0, API: rapid.IntRange(0, 3).Draw(t, "api") > 0, TLS: rapid.Bool().Draw(t, "tls"), Sec: rapid.Bool().Draw(t, "sec")}
	if d.Main {
		if d.DurSet = rapid.IntRange(0, 4).Draw(t, "durset") > 0; d.DurSet {
			d.Dur = rapid.SampledFrom(durs).Draw(t, "dur")
		}
		if d.PluginsSet = rapid.Bool().Draw(t, "plugset"); d.PluginsSet {
			d.Plugins = rapid.SliceOfN(rapid.SampledFrom(strs), 0, 3).Draw(t, "plugins")
		}
	}
	if d.API {
		d.Address, d.Origin = maybe("address"), maybe("origin")
	}
	if d.TLS {
		d.Key, d.Cert = maybe("key"), maybe("cert")
	}
	if d.Sec {
		d.User, d.Pass = maybe("user"), maybe("pass")
	}
	kinds := []string{"graphite", "files", "tdigest", "my kind", "x.y", "k-1", "é"}
	for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom(kinds), 0, 3, rapid.ID[string]).Draw(t, "kinds") {
		l := Lis{Kind: k}
		for i := rapid.IntRange(1, 3).Draw(t, "count"); i > 0; i-- {
			l.Each = append(l.Each, genTable(t, 2))
		}
		d.Lis = append(d.Lis, l)
	}
	d.DBKind, d.DistKind = rapid.SampledFrom(kinds).Draw(t, "dbkind"), rapid.SampledFrom(kinds).Draw(t, "distkind")
	d.DB, d.Dist = genTable(t, 2), genTable(t, 2)
	d.Order = rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6}).Draw(t, "order")
	d.Noise = rapid.IntRange(0, 1<<16-1).Draw(t, "noise")
	d.Inline = rapid.IntRange(0, 7).Draw(t, "inline")
	return d
}

// ---- an independent writer of documents

type writer struct {
	b     strings.Builder
	noise int
	lines int
}

func (w *writer) line(s string) {
	w.lines++
	switch (w.noise >> (uint(w.lines) % 13)) & 7 {
	case 0:
		w.b.WriteString("\n")
	case 1:
		w.b.WriteString("# [not.a.section] x = \"\n")
	case 2:
		w.b.WriteString("\t  ")
	case 3:
		if !strings.Contains(s, "\n") {
			s += " # more"
		}
	case 4:
		s += "  "
	}
	w.b.WriteString(s)
	w.b.WriteString("\n")
}

func bare(k string) bool {
	for _, c := range k {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_') {
			return false
		}
	}
	return k != ""
}

func quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(`\t`)
		case c < 32:
			fmt.Fprintf(&b, `\u%04X`, c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func key(k string, style int) string {
	if bare(k) && style%4 != 1 {
		return k
	}
	return quote(k)
}

func str(s string, style int) string {
	plain := true
	for _, c := range s {
		plain = plain && (c >= 32 || c == '\t')
	}
	switch {
	case style == 1 && plain && !strings.Contains(s, "'"):
		return "'" + s + "'"
	case style == 2 && !strings.Contains(s, "'") && !strings.ContainsAny(s, "\r\x07"):
		return "'''\n" + s + "'''"
	case style == 3:
		return `"""` + "\n" + strings.Trim(quote(s), `"`+"\x00")[0:] + `"""`
	case style == 4:
		var b strings.Builder
		b.WriteByte('"')
		for _, c := range s {
			if c > 0xffff {
				fmt.Fprintf(&b, `\U%08x`, c)
			} else {
				fmt.Fprintf(&b, `\u%04x`, c)
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	return quote(s)
}

// inline writes a value on one line (strings aside).
func (v Val) inline() string {
	switch v.T {
	case "int":
		s := fmt.Sprint(v.I)
		if v.Style == 1 && v.I > 999 {
			s = s[:len(s)-3] + "_" + s[len(s)-3:]
		}
		if v.Style == 2 && v.I >= 0 {
			s = "+" + s
		}
		return s
	case "float":
		s := strconv.FormatFloat(v.F, 'f', -1, 64)
		if v.Style == 1 {
			s = strconv.FormatFloat(v.F, 'e', -1, 64)
		}
		if !strings.ContainsAny(s, ".e") {
			s += ".0"
		}
		return s
	case "bool":
		return fmt.Sprint(v.I == 1)
	case "string":
		st := v.Style
		if st == 3 && (strings.HasPrefix(v.S, `"`) || strings.HasSuffix(v.S, `"`)) {
			st = 0
		}
		return str(v.S, st)
	case "time":
		return time.Unix(v.I, 0).UTC().Format("2006-01-02T15:04:05Z")
	case "array", "tables":
		var parts []string
		for _, e := range v.A {
			parts = append(parts, e.inline())
		}
		sep, open, end := ", ", "[", "]"
		if v.Style == 1 && v.T == "array" {
			sep, open, end = ",\n  # and\n  ", "[\n", ",\n]"
			if len(parts) == 0 {
				end = "]"
			}
		}
		return open + strings.Join(parts, sep) + end
	}
	var parts []string
	for i, k := range v.K {
		parts = append(parts, key(k, v.A[i].Style)+" = "+v.A[i].inline())
	}
	return "{ " + strings.Join(parts, ", ") + " }"
}

// section writes a table under a header.
func (w *writer) section(name string, v Val, array bool) {
	if array {
		w.line("[[" + name + "]]")
	} else {
		w.line("[" + name + "]")
	}
	w.body(name, v)
}

func (w *writer) body(name string, v Val) {
	for i, k := range v.K {
		e := v.A[i]
		if e.T == "tables" || e.T == "table" && e.Style%2 == 0 {
			continue
		}
		sep := " = "
		if v.Style == 3 {
			sep = "="
		}
		w.line(key(k, e.Style) + sep + e.inline())
	}
	for i, k := range v.K {
		e := v.A[i]
		if e.T == "tables" {
			for _, x := range e.A {
				w.section(name+"."+key(k, e.Style), x, true)
			}
		} else if e.T == "table" && e.Style%2 == 0 {
			w.section(name+"."+key(k, e.Style), e, false)
		}
	}
}

func (d Doc) write() string {
	w := &writer{noise: d.Noise}
	opt := func(k string, s *string, style int) {
		if s != nil {
			w.line(key(k, style) + " = " + Val{T: "string", S: *s, Style: style}.inline())
		}
	}
	api := false
	for _, sec := range d.Order {
		switch sec {
		case 0:
			if d.Main {
				w.line("[main]")
				if d.PluginsSet {
					v := Val{T: "array", Style: d.Inline & 1}
					for i, p := range d.Plugins {
						v.A = append(v.A, Val{T: "string", S: p, Style: i})
					}
					w.line("plugins = " + v.inline())
				}
				if d.DurSet {
					w.line("duration = " + str(d.Dur, d.Inline&1))
				}
			}
		case 1:
			for _, l := range d.Lis {
				for _, e := range l.Each {
					w.section("listeners."+key(l.Kind, d.Inline), e, true)
				}
			}
		case 2:
			if d.Inline == 5 {
				w.line("[database]")
				w.line(key(d.DBKind, 0) + " = " + d.DB.inline())
			} else {
				w.section("database."+key(d.DBKind, d.Inline), d.DB, false)
			}
		case 3:
			w.section("dist."+key(d.DistKind, d.Inline), d.Dist, false)
		case 4:
			if d.API {
				api = true
				w.line("[api]")
				opt("origin", d.Origin, d.Inline)
				opt("address", d.Address, d.Inline)
				_ = api
			}
		case 5:
			if d.TLS {
				w.line("[api.tls]")
				opt("key", d.Key, d.Inline)
				opt("cert", d.Cert, 0)
			}
		case 6:
			if d.Sec {
				w.line("[api.security]")
				opt("username", d.User, 0)
				opt("password", d.Pass, d.Inline)
			}
		}
	}
	return w.b.String()
}

func deref(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

// same compares what a document means with what was loaded.
func same(got, want interface{}) bool {
	switch w := want.(type) {
	case time.Time:
		g, ok := got.(time.Time)
		return ok && g.Equal(w)
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for k := range w {
			if gv, ok := g[k]; !ok || !same(gv, w[k]) {
				return false
			}
		}
		return true
	case []interface{}:
		// arrays of tables come as slices of maps when spelled with headers
		g := reflect.ValueOf(got)
		if got == nil || g.Kind() != reflect.Slice || g.Len() != len(w) {
			return false
		}
		for i := range w {
			if !same(g.Index(i).Interface(), w[i]) {
				return false
			}
		}
		return true
	case []map[string]interface{}:
		l := make([]interface{}, len(w))
		for i := range w {
			l[i] = w[i]
		}
		return same(got, l)
	}
	return reflect.DeepEqual(got, want)
}

func byKind(es []config.Entity) map[string]interface{} {
	out := map[string]interface{}{}
	for _, e := range es {
		l, _ := out[e.Kind].([]interface{})
		out[e.Kind] = append(l, e.Config)
	}
	return out
}

func sameConfig(a, b *config.Config) error {
	if a.Main.Duration != b.Main.Duration || fmt.Sprintf("%q", a.Main.Plugins) != fmt.Sprintf("%q", b.Main.Plugins) {
		return fmt.Errorf("main is %+v, was %+v", b.Main, a.Main)
	}
	if a.API != b.API {
		return fmt.Errorf("api is %+v, was %+v", b.API, a.API)
	}
	if a.Database.Kind != b.Database.Kind || !same(b.Database.Config, a.Database.Config) {
		return fmt.Errorf("database is %#v, was %#v", b.Database, a.Database)
	}
	if a.Dist.Kind != b.Dist.Kind || !same(b.Dist.Config, a.Dist.Config) {
		return fmt.Errorf("dist is %#v, was %#v", b.Dist, a.Dist)
	}
	if !same(byKind(b.Listeners), byKind(a.Listeners)) {
		return fmt.Errorf("listeners are %#v, were %#v", b.Listeners, a.Listeners)
	}
	return nil
}

// oddName is true if a name within is one the encoder does not escape.
func oddName(v interface{}) bool {
	switch v := v.(type) {
	case map[string]interface{}:
		for k, e := range v {
			if k == "" || strings.ContainsRune(k, '\\') || strings.IndexFunc(k, func(r rune) bool { return r < 32 }) >= 0 || oddName(e) {
				return true
			}
		}
	case []interface{}:
		for _, e := range v {
			if oddName(e) {
				return true
			}
		}
	case []map[string]interface{}:
		for _, e := range v {
			if oddName(e) {
				return true
			}
		}
	}
	return false
}

func rewrite(x *vkit.Ctx, conf *config.Config) error {
	err := rewriteAll(conf)
	if err == nil {
		return nil
	}
	all := map[string]interface{}{conf.Database.Kind: conf.Database.Config}
	for k, v := range byKind(conf.Listeners) {
		all["l"+k] = map[string]interface{}{k: v}
	}
	all["dist"] = map[string]interface{}{conf.Dist.Kind: conf.Dist.Config}
	if oddName(all) && x.Known("names-needing-escapes") {
		return nil
	}
	return err
}

func rewriteAll(conf *config.Config) error {
	var buf bytes.Buffer
	if err := new(config.Config).WriteTo(&buf); err == nil || buf.Len() > 0 {
		return fmt.Errorf("a config that was not loaded is written as %q, error %v", buf.String(), err)
	}
	if err := conf.WriteTo(&buf); err != nil {
		return fmt.Errorf("a loaded configuration cannot be written: %v", err)
	}
	again, err := config.Load(buf.Bytes())
	if err != nil {
		return fmt.Errorf("a written configuration cannot be loaded: %v\n%s", err, buf.Bytes())
	}
	if err := sameConfig(conf, again); err != nil {
		return fmt.Errorf("a written configuration means something else: %v\n%s", err, buf.Bytes())
	}
	return nil
}

func runLoad(x *vkit.Ctx, d Doc) error {
	text := d.write()
	conf, err := config.Load([]byte(text))
	if err != nil {
		return fmt.Errorf("a valid document was refused: %v\n%s", err, text)
	}
	want := &config.Config{Database: config.Entity{Kind: d.DBKind, Config: d.DB.value()}, Dist: config.Entity{Kind: d.DistKind, Config: d.Dist.value()}}
	if d.DurSet {
		want.Main.Duration, _ = time.ParseDuration(d.Dur)
	}
	want.Main.Plugins = d.Plugins
	want.API = config.APIConfig{Address: deref(d.Address), Origin: deref(d.Origin), TLS: config.APITLSConfig{Key: deref(d.Key), Cert: deref(d.Cert)}, Security: config.APISecurityConfig{Username: deref(d.User), Password: deref(d.Pass)}}
	n := 0
	for _, l := range d.Lis {
		for _, e := range l.Each {
			want.Listeners = append(want.Listeners, config.Entity{Kind: l.Kind, Config: e.value()})
			n++
		}
	}
	if err := sameConfig(want, conf); err != nil {
		return fmt.Errorf("%v\n%s", err, text)
	}
	if err := rewrite(x, conf); err != nil {
		return err
	}
	// displaying
	before := conf.API
	r := conf.API.Redact()
	if conf.API != before {
		return fmt.Errorf("redacting changed the configuration")
	}
	if r.Address != before.Address || r.Origin != before.Origin {
		return fmt.Errorf("redacting changed %+v into %+v", before, r)
	}
	// what is shown does not depend on the secrets
	other := func(s string) string {
		if s == "" {
			return ""
		}
		return "something " + s + " else"
	}
	o := before
	o.TLS.Key, o.TLS.Cert, o.Security.Username, o.Security.Password = other(o.TLS.Key), other(o.TLS.Cert), other(o.Security.Username), other(o.Security.Password)
	if o.Redact() != r {
		return fmt.Errorf("redacting %+v gives %+v, with other secrets %+v", before, r, o.Redact())
	}
	x.LabelIf(n > 1, "several listeners")
	x.LabelIf(d.Sec && d.TLS, "secrets")
	if n > 0 && len(d.DB.K) > 1 {
		x.NonTrivial()
	}
	return nil
}

// ---- invalid documents

type BadCase struct {
	Doc  Doc
	Kind int
	At   int
}

func genBad(t *rapid.T) BadCase {
	return BadCase{Doc: genDoc(t), Kind: rapid.IntRange(0, 17).Draw(t, "kind"), At: rapid.IntRange(0, 1000).Draw(t, "at")}
}

func runBad(x *vkit.Ctx, c BadCase) error {
	d := c.Doc
	// give the typed sections nothing that would collide with what is added
	d.Main, d.API, d.TLS, d.Sec = false, false, false, false
	text := d.write()
	drop := func(section string) {
		o := d
		o.Order = nil
		for _, s := range d.Order {
			if section == "database" && s == 2 || section == "dist" && s == 3 || section == "listeners" && s == 1 {
				continue
			}
			o.Order = append(o.Order, s)
		}
		text = o.write()
	}
	what := ""
	add := func(s string) { what = s; text += "\n" + s + "\n" }
	lines := []string{"x", "x =", "= 1", "x = 1 2", "x = \"", "x = \"\"\"", "x = [1", "x = {a = 1", "[x", "[[x]", "[]", "x = tru", "x = 1.", "x = 2018-13-45T00:00:00Z", "x = \"\\q\"", "x = 'a\nb'", "x = 12__3", "x = [1, \"a\"]", "\x00", "x y = 1", "x = 99999999999999999999"}
	switch c.Kind {
	case 0:
		add("[main]\nduration = " + quote([]string{"10", "m", "ten minutes", "1x", "", "10 m", "1h-", "99999999h"}[c.At%8]))
	case 1:
		drop("database")
		what = "no database"
	case 2:
		drop("dist")
		what = "no dist"
	case 3:
		add("[database.\"another one\"]\nsize = 1")
	case 4:
		add("[dist.\"another one\"]\nsize = 1")
	case 5:
		add("[main]\nplugins = \"x\"")
	case 6:
		add("[main]\nplugins = [1, 2]")
	case 7:
		add("[api]\n" + []string{"address", "origin"}[c.At%2] + " = " + []string{"5", "true", "[\"x\"]", "1.5"}[c.At/2%4])
	case 8:
		add("[api.tls]\n" + []string{"key", "cert"}[c.At%2] + " = " + []string{"5", "true", "[\"x\"]"}[c.At/2%3])
	case 9:
		add("[api.security]\n" + []string{"username", "password"}[c.At%2] + " = " + []string{"5", "true", "[\"x\"]"}[c.At/2%3])
	case 10:
		add("[listeners.single]\naddress = \":1\"")
	case 11:
		drop("database")
		add("database = 5")
		text = what + "\n" + strings.TrimSuffix(text, what+"\n")
	case 12:
		add("[main]\nduration = \"1m\"\nduration = \"2m\"")
	case 13:
		add("[main]\nduration = true")
	case 14:
		add("[main]\n[main]")
	case 15, 16, 17:
		add(lines[c.At%len(lines)])
	}
	conf, err := config.Load([]byte(text))
	if err == nil {
		return fmt.Errorf("an invalid document (%q) was taken\n%s", what, text)
	}
	if conf != nil {
		return fmt.Errorf("both a configuration and an error")
	}
	x.NonTrivial()
	x.Label(fmt.Sprintf("kind %d", c.Kind))
	return nil
}

// ---- any document

type NoiseCase struct {
	Doc   Doc
	Start bool // from the starter file
	Edits []Edit
}

type Edit struct {
	At, Del int
	Ins     string
}

var pieces = []string{"[", "]", "[[", "]]", "\"", "'", "\"\"\"", "'''", "=", ".", ",", "{", "}", "#", "\n", "\r\n", "\\", "\\u", "\\U0011ffff", "1", "-", "_", "1e400", "-0.0", "true", "\x00", "\xff", "é", " ", "\t", "[database.x]\n", "x=1\n", "2018-01-01T00:00:00Z", "[[main]]\n", "[listeners]\n", "a.b=1\n", "nan", "{}", "[[]]", "[[1],[\"a\"]]", "\xef\xbb\xbf"}

func genNoise(t *rapid.T) NoiseCase {
	c := NoiseCase{Start: rapid.Bool().Draw(t, "start")}
	if !c.Start {
		c.Doc = genDoc(t)
	}
	for i := rapid.IntRange(0, 4).Draw(t, "edits"); i > 0; i-- {
		c.Edits = append(c.Edits, Edit{At: rapid.IntRange(0, 4000).Draw(t, "at"), Del: rapid.SampledFrom([]int{0, 0, 1, 2, 5, 30}).Draw(t, "del"), Ins: rapid.SampledFrom(append(pieces, "", "")).Draw(t, "ins")})
	}
	return c
}

// uncommented is the starter file with its examples in place.
func uncommented() string {
	var out []string
	for _, l := range strings.Split(config.InitialConfig, "\n") {
		if strings.HasPrefix(l, "# [") || strings.HasPrefix(l, "# \t") {
			l = strings.TrimPrefix(l, "# ")
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func runNoise(x *vkit.Ctx, c NoiseCase) error {
	var text string
	if c.Start {
		text = uncommented()
		if len(c.Edits)%2 == 0 {
			text = config.InitialConfig
		}
	} else {
		text = c.Doc.write()
	}
	for _, e := range c.Edits {
		at := e.At % (len(text) + 1)
		end := at + e.Del
		if end > len(text) {
			end = len(text)
		}
		text = text[:at] + e.Ins + text[end:]
	}
	conf, err := config.Load([]byte(text))
	if err != nil {
		if len(c.Edits) == 0 {
			return fmt.Errorf("unedited document refused: %v", err)
		}
		x.Label("refused")
		return nil
	}
	if conf == nil {
		return fmt.Errorf("neither a configuration nor an error")
	}
	if !utf8.ValidString(text) {
		x.Label("not text, and taken")
		return nil
	}
	if len(c.Edits) > 0 {
		x.Label("edited and taken")
		x.NonTrivial()
	}
	if err := rewrite(x, conf); err != nil {
		return fmt.Errorf("%v\nfrom\n%s", err, text)
	}
	return nil
}

// ---- the starter file

func genStart(t *rapid.T) bool { return rapid.Bool().Draw(t, "uncommented") }

func runStart(x *vkit.Ctx, un bool) error {
	text := config.InitialConfig
	want := &config.Config{
		Main:      config.MainConfig{Duration: 10 * time.Minute},
		Listeners: []config.Entity{{Kind: "graphite", Config: map[string]interface{}{"address": ":1111"}}},
		Database:  config.Entity{Kind: "files", Config: map[string]interface{}{"directory": "data", "size": int64(256), "cap": int64(400), "files": int64(2)}},
		Dist:      config.Entity{Kind: "tdigest", Config: map[string]interface{}{"compression": 5.0}},
		API:       config.APIConfig{Address: ":8080", Origin: "*"},
	}
	if un {
		text = uncommented()
		want.Listeners = append(want.Listeners, config.Entity{Kind: "graphite", Config: map[string]interface{}{"address": ":2222"}})
		want.Database.Config.(map[string]interface{})["tuning"] = map[string]interface{}{"buffer": int64(20000), "drop": false, "workers": int64(0), "handles": int64(0)}
		want.API.TLS = config.APITLSConfig{Key: "key", Cert: "cert"}
		want.API.Security = config.APISecurityConfig{Username: "admin", Password: "boogers"}
	}
	conf, err := config.Load([]byte(text))
	if err != nil {
		return fmt.Errorf("the starter file is refused: %v", err)
	}
	if err := sameConfig(want, conf); err != nil {
		return fmt.Errorf("the starter file: %v", err)
	}
	x.NonTrivial()
	return rewrite(x, conf)
}

func main() {
	_ = sort.Strings
	vkit.Main(vkit.Opts{
		ID: "P32",
		Rule: "documents written by an independent writer in drawn layouts (headers or inline tables, quoting, comments, order, arrays, times) loaded and compared with what they spell out, written and loaded again, and redacted; documents with a drawn fault refused; documents edited at random either refused or stable under rewriting; the starter file with and without its examples; " +
			"non-trivial: a document with a listener and at least two database settings / refused for its fault / edited and still taken",
		Assumptions: []string{"TOML 0.4; the order of listeners of different kinds is free"},
	},
		vkit.P("load", 20000, 600000, genDoc, runLoad),
		vkit.P("invalid", 12000, 300000, genBad, runBad),
		vkit.P("edited", 20000, 800000, genNoise, runNoise,
			// names that need escapes when written
			NoiseCase{Start: true, Edits: []Edit{{At: 0, Ins: ""}, {At: len(config.InitialConfig), Ins: "\n[[listeners.\"a\\\\b\"]]\n"}}}),
		vkit.P("starter", 20, 20, genStart, runStart),
	)
}
