// P28: any request gets one well-formed answer.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"image/png"
	"math"
	"net/http"
	"net/url"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files/zzverif/fakeapi"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist/tdigest"
	"pgregory.net/rapid"
)

const base = int64(1530000000e9)

// Rec is a stored record: its times in seconds relative to base.
type Rec struct {
	Start, Len int64
	Vals       []float64
	Damage     int // 0 none, else the record's bytes are damaged in some way
}

type Req struct {
	Method, Path string
	Params       [][2]string
	Raw          string // appended to the query as it is
	Accept       string
}

type Case struct {
	Recs   []Rec
	Fail   bool // listing metrics fails
	FailAt int  `json:",omitempty"` // reading a metric fails at some record
	Reqs   []Req
	Names  int
}

var ints = []string{"0", "1", "-1", "2", "9", "10", "64", "99", "100", "101", "350", "1000", "65536", "65537", "1000000000", "2147483647", "2147483648", "4294967297", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1e3", "", " 1", "0x10", "abc", "+5", "1_0"}

func gen(t *rapid.T) Case {
	c := Case{Fail: rapid.IntRange(0, 9).Draw(t, "fail") == 5, Names: rapid.IntRange(0, 12).Draw(t, "names")}
	if rapid.IntRange(0, 14).Draw(t, "failing") == 7 {
		c.FailAt = rapid.IntRange(1, 4).Draw(t, "failat")
	}
	at := int64(0)
	for i := rapid.IntRange(0, 6).Draw(t, "nrec"); i > 0; i-- {
		r := Rec{Len: rapid.SampledFrom([]int64{0, 1, 600, 86400}).Draw(t, "len"), Damage: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}).Draw(t, "damage")}
		at -= rapid.SampledFrom([]int64{1, 600, 86400}).Draw(t, "back")
		r.Start = at - r.Len
		r.Vals = rapid.SliceOfN(rapid.OneOf(rapid.Float64Range(-1000, 1000), rapid.SampledFrom([]float64{0, 1e300, -1e300, 1e-300})), 1, 4).Draw(t, "vals")
		c.Recs = append(c.Recs, r)
	}
	small := func(l string, lo, hi int) string { return strconv.Itoa(rapid.IntRange(lo, hi).Draw(t, l)) }
	for i := rapid.IntRange(1, 4).Draw(t, "nreq"); i > 0; i-- {
		r := Req{
			Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "GET", "GET", "POST", "HEAD", "DELETE", "OPTIONS", "FOO"}).Draw(t, "method"),
			Path:   rapid.SampledFrom([]string{"/api/render", "/api/nonce", "/", "/nothing", "/api/query", "/api/query", "/api/query", "/api/render", "/api/render", "/api/render", "/api/render", "/api/render", "/api/render", "/api/render", "/api/render", "/api/render", "/api/render", "/api", "/api/render/x", "//", "/%00", "/..%2f.."}).Draw(t, "path"),
			Accept: rapid.SampledFrom([]string{"", "application/json", "application/json", "image/png", "*/*", "text/html"}).Draw(t, "accept"),
		}
		odd := func() bool { return rapid.IntRange(0, 11).Draw(t, "odd") == 6 }
		add := func(k, v string) { r.Params = append(r.Params, [2]string{k, v}) }
		if rapid.IntRange(0, 15).Draw(t, "nometric") != 7 {
			add("metric", rapid.SampledFrom([]string{"m", "unknown", "m", "m", "", "m", "m", "m", "empty", "m", "m", "../m", "m\x00", "é", "m", "m", "m", "m"}).Draw(t, "metric"))
		}
		for _, k := range []string{"width", "height", "padding", "samples"} {
			switch {
			case odd():
				add(k, rapid.SampledFrom(ints).Draw(t, k))
			case rapid.IntRange(0, 3).Draw(t, "absent") > 0:
				r := map[string][2]int{"width": {90, 400}, "height": {45, 200}, "padding": {0, 9}, "samples": {1, 60}}[k]
				add(k, small(k, r[0], r[1]))
			case k == "width": // the default takes long
				add(k, "200")
			}
		}
		tiny := len(c.Recs) > 0 && rapid.IntRange(0, 11).Draw(t, "tiny") == 5
		switch {
		case tiny:
			// a window of some nanoseconds around the start of a record
			at := c.Recs[rapid.IntRange(0, len(c.Recs)-1).Draw(t, "tinyrec")].Start
			add("now", strconv.FormatInt(base+at*1e9+int64(rapid.IntRange(0, 300).Draw(t, "tinynow")), 10))
			add("duration", small("tinydur", 1, 500)+"ns")
		case odd():
			add("now", rapid.SampledFrom(append(ints, strconv.FormatInt(base, 10))).Draw(t, "now"))
		case rapid.IntRange(0, 9).Draw(t, "nonow") != 4:
			add("now", strconv.FormatInt(base+rapid.SampledFrom([]int64{0, 1, -3600e9, 86400e9, -40e9}).Draw(t, "now"), 10))
		}
		switch {
		case tiny:
		case odd():
			add("duration", rapid.SampledFrom([]string{"0", "0s", "1ns", "10ns", "100ns", "1us", "-1h", "1", "abc", "2562047h47m16.854775807s", "2562047h", "-2562047h", "1e9h", "", "1h1h"}).Draw(t, "duration"))
		case rapid.IntRange(0, 3).Draw(t, "nodur") > 0:
			add("duration", rapid.SampledFrom([]string{"1h", "24h", "10m", "1s", "720h", "17h31m"}).Draw(t, "duration"))
		}
		switch {
		case odd():
			add("compression", rapid.SampledFrom([]string{"0", "-1", "0.5", "1", "NaN", "Inf", "-Inf", "1e10", "1e308", "1e309", "65536", "65537", "abc", "", "0x1p4"}).Draw(t, "compression"))
		case rapid.Bool().Draw(t, "nocomp"):
			add("compression", small("compression", 1, 1000))
		}
		if r.Path == "/api/query" {
			add("query", rapid.SampledFrom([]string{"", "m", "a", "*", "? *", "[", "%", "..", "a.b", "\x00", strings.Repeat("*a", 60), strings.Repeat("a ", 200)}).Draw(t, "query"))
			if rapid.Bool().Draw(t, "hasres") {
				add("results", rapid.OneOf(rapid.SampledFrom(ints), rapid.SampledFrom([]string{"0", "1", "3", "20"})).Draw(t, "results"))
			}
		}
		// repeat, drop or reorder
		if len(r.Params) > 1 && odd() {
			r.Params = append(r.Params, [2]string{r.Params[1][0], rapid.SampledFrom(ints).Draw(t, "again")})
		}
		if odd() {
			r.Raw = rapid.SampledFrom([]string{"&%zz", ";", "&=", "&&&", "&width", "#", "&width=5;height=3", "&\x7f", "&a=%"}).Draw(t, "raw")
		}
		c.Reqs = append(c.Reqs, r)
	}
	return c
}

// valid says whether the parameters of a rendering make sense: yes, no, or
// undetermined for large ones.
func valid(q url.Values) (w, h, p int, verdict string) {
	num := func(k string, def int64) int64 {
		if v, err := strconv.ParseInt(q.Get(k), 10, 64); err == nil {
			return v
		}
		return def
	}
	ww, hh, pp := num("width", 1000), num("height", 350), num("padding", 0)
	now := num("now", time.Now().UnixNano())
	samples := num("samples", 30)
	dur := 24 * time.Hour
	if v, err := time.ParseDuration(q.Get("duration")); err == nil {
		dur = v
	}
	comp := 5.0
	if v, err := strconv.ParseFloat(q.Get("compression"), 64); err == nil {
		comp = v
	}
	switch {
	case ww < 1 || hh < 1 || pp < 0 || samples < 1 || now < 0 || dur <= 0 || math.IsNaN(comp) || math.IsInf(comp, 0) || comp <= 0,
		ww > 1e6 || hh > 1e6 || pp > 1e6 || samples > 1e8 || comp > 1e9:
		return 0, 0, 0, "no"
	case comp < 1 || comp > 1000 || ww > 1000 || hh > 1000 || pp > 100 || samples > 1000:
		return int(ww), int(hh), int(pp), "maybe"
	case ww < 250 || hh < 100:
		return int(ww), int(hh), int(pp), "small"
	}
	return int(ww), int(hh), int(pp), "yes"
}

func (c Case) db() *fakeapi.DB {
	db := &fakeapi.DB{M: map[string][]fakeapi.Rec{"m": nil, "empty": nil}}
	for i := 0; i < c.Names; i++ {
		db.M[fmt.Sprintf("a.b.n%d", i)] = nil
	}
	if c.Fail {
		db.Fail = errors.New("listing failed")
	}
	db.FailAt = c.FailAt
	for _, r := range c.Recs {
		d, err := tdigest.Params{Compression: 100}.New()
		vkit.Must(err)
		for _, v := range r.Vals {
			d.Observe(v)
		}
		rec := data.Record{StartTime: base + r.Start*1e9, EndTime: base + (r.Start+r.Len)*1e9, Observations: int64(len(r.Vals)), Merged: 1, Kind: "tdigest", Distribution: d.Marshal(nil)}
		switch r.Damage {
		case 1:
			rec.Kind = "unknown kind"
		case 2:
			rec.Distribution = rec.Distribution[:len(rec.Distribution)/2]
		}
		buf, err := rec.Marshal()
		vkit.Must(err)
		switch r.Damage {
		case 3:
			buf = buf[:len(buf)/2]
		case 4:
			buf = []byte{0xff, 0xff, 0xff}
		}
		db.M["m"] = append(db.M["m"], fakeapi.Rec{Start: rec.StartTime, End: rec.EndTime, Data: buf})
	}
	return db
}

func run(x *vkit.Ctx, c Case) error {
	srv := api.New(c.db(), nil, api.Options{})
	// a reference answer, asked for again afterwards
	probe := fakeapi.Req{Method: "GET", URI: "/api/query?query=n&results=100", Header: nil}
	first := fakeapi.Ask(srv, probe)
	rendered := 0
	for i, r := range c.Reqs {
		q := url.Values{}
		var parts []string
		for _, kv := range r.Params {
			parts = append(parts, url.QueryEscape(kv[0])+"="+url.QueryEscape(kv[1]))
		}
		uri := r.Path + "?" + strings.Join(parts, "&") + r.Raw
		u, err := url.ParseRequestURI(uri)
		if err != nil {
			x.Label("no such URI")
			continue
		}
		q = u.Query() // what can be parsed of it
		fr := fakeapi.Req{Method: r.Method, URI: uri}
		if r.Accept != "" {
			fr.Header = [][2]string{{"Accept", r.Accept}}
		}
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		w := fakeapi.Ask(srv, fr)
		runtime.ReadMemStats(&after)
		if w == nil {
			continue
		}
		body := w.Body.Bytes()
		desc := fmt.Sprintf("request %d: %s %s (accepting %q): %d %s", i, r.Method, uri, r.Accept, w.Code, w.Header().Get("Content-Type"))
		if used := after.TotalAlloc - before.TotalAlloc; used > 2<<30 {
			return fmt.Errorf("%s: %d bytes were allocated", desc, used)
		}
		if n := len(w.Header()["Access-Control-Allow-Origin"]); n != 1 {
			return fmt.Errorf("%s: origin announced %d times", desc, n)
		}
		ct := w.Header().Get("Content-Type")
		if w.Code < 100 || w.Code > 599 {
			return fmt.Errorf("%s: no such status", desc)
		}
		if strings.Contains(ct, "json") && !json.Valid(body) {
			return fmt.Errorf("%s: not JSON: %.100q", desc, body)
		}
		if strings.HasPrefix(ct, "image/") && w.Code != 200 {
			return fmt.Errorf("%s: not an image: %.100q", desc, body)
		}
		if r.Method != "GET" {
			if w.Code != http.StatusMethodNotAllowed {
				return fmt.Errorf("%s: other methods are not allowed", desc)
			}
			continue
		}
		switch u.Path {
		case "/api/nonce":
			if w.Code != 200 || len(body) == 0 {
				return fmt.Errorf("%s: %q", desc, body)
			}
		case "/api/query":
			if err := checkQuery(c, q, w.Code, body); err != nil {
				return fmt.Errorf("%s: %v", desc, err)
			}
		case "/api/render":
			ok, err := checkRender(x, c, q, r.Accept, w.Code, ct, body)
			if err != nil {
				return fmt.Errorf("%s: %v", desc, err)
			}
			if ok {
				rendered++
			}
		default:
			if w.Code != http.StatusNotFound {
				return fmt.Errorf("%s: nothing is there", desc)
			}
		}
		x.Label(fmt.Sprintf("status %d", w.Code))
	}
	last := fakeapi.Ask(srv, probe)
	if c.Fail {
		if last.Code != 500 {
			return fmt.Errorf("listing failed, but the answer is %d", last.Code)
		}
	} else if last.Code != first.Code || last.Body.String() != first.Body.String() {
		return fmt.Errorf("the same query is answered %d %q at first and %d %q later", first.Code, first.Body, last.Code, last.Body)
	}
	if rendered > 0 && len(c.Recs) > 0 {
		x.NonTrivial()
	}
	return nil
}

func checkQuery(c Case, q url.Values, code int, body []byte) error {
	n := int64(10)
	if v, err := strconv.ParseInt(q.Get("results"), 10, 64); err == nil {
		n = v
	}
	if code == 200 {
		var out []string
		if err := json.Unmarshal(body, &out); err != nil || out == nil {
			return fmt.Errorf("not a list of names: %v %.100q", err, body)
		}
		if n < 0 {
			return errors.New("a negative number of results was accepted")
		}
		if int64(len(out)) > n {
			return fmt.Errorf("%d results, asked for %d", len(out), n)
		}
		return nil
	}
	if n < 0 && code != 400 {
		return errors.New("a negative number of results is a bad request")
	}
	if n >= 0 && !(code == 500 && c.Fail) {
		return errors.New("must succeed")
	}
	return nil
}

func checkRender(x *vkit.Ctx, c Case, q url.Values, accept string, code int, ct string, body []byte) (bool, error) {
	w, h, p, verdict := valid(q)
	metric := q.Get("metric")
	damaged := c.FailAt > 0
	for _, r := range c.Recs {
		damaged = damaged || r.Damage > 0
	}
	if metric == "" || verdict == "no" {
		if code != 400 {
			return false, fmt.Errorf("must be a bad request (metric %q, parameters valid: %s)", metric, verdict)
		}
		return false, nil
	}
	if code != 200 {
		switch {
		case metric != "m" && metric != "empty":
			if code < 400 {
				return false, errors.New("an unknown metric must be an error")
			}
			return false, nil
		case damaged && code == 500:
			x.LabelIf(c.FailAt > 0, "reading failed")
			x.Label("damaged record")
			return false, nil
		case (verdict == "small" || verdict == "maybe") && code == 400:
			return false, nil
		}
		return false, fmt.Errorf("must succeed: %.200q", body)
	}
	if metric != "m" && metric != "empty" {
		return false, errors.New("an unknown metric must be an error")
	}
	if accept == "application/json" {
		var out struct {
			Metric   string
			Columns  []struct{ X, W int }
			Earliest []byte
			Width    int
			Height   int
			Padding  int
		}
		if !strings.HasPrefix(ct, "application/json") {
			return false, errors.New("JSON was asked for")
		}
		if err := json.Unmarshal(body, &out); err != nil {
			return false, err
		}
		if out.Metric != metric || out.Width != w || out.Height != h || out.Padding != p {
			return false, fmt.Errorf("is about %q %dx%d padded %d", out.Metric, out.Width, out.Height, out.Padding)
		}
		for _, col := range out.Columns {
			if col.X < 0 || col.W < 1 || col.X+col.W > w {
				return false, fmt.Errorf("column %v", col)
			}
		}
		return true, nil
	}
	if ct != "image/png" {
		return false, errors.New("an image was asked for")
	}
	img, err := png.Decode(bytes.NewReader(body))
	if err != nil {
		return false, err
	}
	if b := img.Bounds(); b.Dx() != w+2*p || b.Dy() != h+2*p {
		return false, fmt.Errorf("the image is %dx%d, asked for %dx%d padded %d", b.Dx(), b.Dy(), w, h, p)
	}
	return true, nil
}

// Large is a request for a lot of work.
type Large struct {
	Recs    int // one after another, all different
	Width   int
	Height  int
	Padding int
	Samples int
	JSON    bool
}

func genLarge(t *rapid.T) Large {
	c := Large{Recs: rapid.SampledFrom([]int{1, 60, 300}).Draw(t, "recs"), JSON: rapid.Bool().Draw(t, "json")}
	upto := func(l string, bits int) int {
		return 1<<rapid.IntRange(0, bits).Draw(t, l+"bits") + rapid.IntRange(0, 3).Draw(t, l)
	}
	if rapid.Bool().Draw(t, "many") {
		// many samples over many columns
		c.Width, c.Height = rapid.SampledFrom([]int{200, 400, 1000}).Draw(t, "width"), 100
		c.Samples = upto("samples", 20)
	} else {
		c.Width, c.Height, c.Samples = 150+upto("width", 24), 100+upto("height", 24), rapid.SampledFrom([]int{1, 30}).Draw(t, "samples")
		if rapid.Bool().Draw(t, "padded") {
			c.Padding = upto("padding", 24)
		}
	}
	return c
}

func large(x *vkit.Ctx, c Large) error {
	db := Case{}
	at := int64(0)
	for i := 0; i < c.Recs; i++ {
		at -= 100
		db.Recs = append(db.Recs, Rec{Start: at, Len: 100, Vals: []float64{float64(i % 17), float64(i), 40}})
	}
	srv := api.New(db.db(), nil, api.Options{})
	uri := fmt.Sprintf("/api/render?metric=m&now=%d&duration=%ds&compression=100&width=%d&height=%d&padding=%d&samples=%d", base, -at, c.Width, c.Height, c.Padding, c.Samples)
	fr := fakeapi.Req{Method: "GET", URI: uri}
	if c.JSON {
		fr.Header = [][2]string{{"Accept", "application/json"}}
	}
	var before, after runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&before)
	w := fakeapi.Ask(srv, fr)
	runtime.ReadMemStats(&after)
	desc := fmt.Sprintf("%s (%d records): %d %s", uri, c.Recs, w.Code, w.Header().Get("Content-Type"))
	x.LabelIf(w.Code == 200, "large renderings answered")
	x.LabelIf(w.Code != 200, "large renderings refused")
	if used := after.TotalAlloc - before.TotalAlloc; used > 1<<30 {
		return fmt.Errorf("%s: %d bytes were allocated", desc, used)
	}
	if w.Code != 200 {
		if w.Code != 400 {
			return fmt.Errorf("%s: must succeed or be a bad request: %.200q", desc, w.Body)
		}
		if c.Width <= 1000 && c.Height <= 1000 && c.Width >= 250 && c.Padding <= 100 && c.Samples <= 1000 {
			return fmt.Errorf("%s: must succeed: %.200q", desc, w.Body)
		}
		x.NonTrivial()
		return nil
	}
	x.NonTrivial()
	if c.JSON {
		if !json.Valid(w.Body.Bytes()) {
			return fmt.Errorf("%s: not JSON", desc)
		}
		return nil
	}
	cfg, err := png.DecodeConfig(w.Body)
	if err != nil {
		return fmt.Errorf("%s: %v", desc, err)
	}
	if cfg.Width != c.Width+2*c.Padding || cfg.Height != c.Height+2*c.Padding {
		return fmt.Errorf("%s: the image is %dx%d", desc, cfg.Width, cfg.Height)
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P28",
		Rule: "requests of drawn methods, paths, headers and parameters (absent, malformed, zero, negative, extreme, repeated, contradictory) to a server over drawn records, some damaged, and with failing reads and listings; the answer's status must fit an independent judgement of the parameters, its body its content type and the requested size, memory stays bounded, and a probe asked before and after is answered alike; and requests for a lot of work (up to millions of samples, columns, rows), for which what is allocated is measured; " +
			"non-trivial: something was rendered from stored records",
		HangS: 120,
	},
		vkit.P("requests", 40000, 200000, gen, run),
		vkit.P("large", 160, 3000, genLarge, large),
	)
}
