// P27: protected servers answer only the right credentials.
package main

import (
	"encoding/base64"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"regexp"
	"strings"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files/zzverif/fakeapi"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist/tdigest"
	"pgregory.net/rapid"
)

type Case struct {
	User, Pass string
	Origin     string
	Static     bool
	Reqs       []Req
}

type Req struct {
	Method, URI string
	Accept      bool
	Auth        []string // Authorization headers
	From        []string `json:",omitempty"` // Origin headers
}

func basic(u, p string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p))
}

var words = []string{"", "a", "admin", "Admin", "boogers", "booger", "boogerss", "p w", "ü", "pass:word", ":", "\x00", "a\nb", strings.Repeat("x", 300)}

func gen(t *rapid.T) Case {
	word := func(l string) string {
		return rapid.OneOf(rapid.SampledFrom(words), rapid.StringN(0, 8, 20)).Draw(t, l)
	}
	c := Case{
		User: word("user"), Pass: word("pass"),
		Origin: rapid.SampledFrom([]string{"", "*", "http://example.com", "null"}).Draw(t, "origin"),
		Static: rapid.Bool().Draw(t, "static"),
	}
	near := func(s, l string) string {
		switch rapid.IntRange(0, 7).Draw(t, l) {
		case 0:
			return s + "x"
		case 1:
			if len(s) > 0 {
				return s[:len(s)-1]
			}
		case 2:
			return strings.ToUpper(s)
		case 3:
			return " " + s
		case 4:
			return ""
		case 5:
			return s + "\x00"
		case 6:
			return word(l + "w")
		}
		return s
	}
	for i := rapid.IntRange(1, 8).Draw(t, "n"); i > 0; i-- {
		r := Req{
			Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "POST", "HEAD", "OPTIONS", "PUT", "get"}).Draw(t, "method"),
			URI: rapid.SampledFrom([]string{"/api/render?metric=secret.metric&now=1000000000000000000&duration=1h&compression=1000", "/api/render?metric=unknown", "/api/render", "/api/query?query=", "/api/query?query=secret&results=3",
				"/api/nonce", "/", "/index.html", "/secret", "/api/render/", "/api//query", "//api/query", "/API/query", "/x/../api/query"}).Draw(t, "uri"),
			Accept: rapid.Bool().Draw(t, "accept"),
		}
		for k := rapid.SampledFrom([]int{1, 1, 1, 1, 0, 2}).Draw(t, "nauth"); k > 0; k-- {
			var h string
			switch rapid.IntRange(0, 9).Draw(t, "auth") {
			case 0, 1, 2:
				h = basic(c.User, c.Pass)
			case 3, 4, 5:
				h = basic(near(c.User, "nu"), near(c.Pass, "np"))
			case 6:
				h = basic(c.Pass, c.User)
			case 7:
				h = strings.Replace(basic(c.User, c.Pass), "Basic", rapid.SampledFrom([]string{"basic", "BASIC", "Bearer", "", "Basic ", "Digest", "Basi"}).Draw(t, "scheme"), 1)
			case 8:
				h = rapid.SampledFrom([]string{"", "Basic", "Basic ", "Basic !!!", "Basic " + base64.StdEncoding.EncodeToString([]byte(c.User+c.Pass)), basic(c.User, c.Pass) + "=", c.User + ":" + c.Pass,
					"Basic " + base64.RawStdEncoding.EncodeToString([]byte(c.User+":"+c.Pass)), "Basic Og==", "Basic " + c.User + ":" + c.Pass}).Draw(t, "odd")
			case 9:
				h = "Basic " + base64.StdEncoding.EncodeToString([]byte(c.User))
			}
			r.Auth = append(r.Auth, h)
		}
		for k := rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "nfrom"); k > 0; k-- {
			r.From = append(r.From, rapid.SampledFrom([]string{c.Origin, "null", "*", "", "http://example.com", "https://example.com", "http://evil.example", "http://example.com.evil", "http://EXAMPLE.com", "http://example.com:8080", "file://"}).Draw(t, "from"))
		}
		c.Reqs = append(c.Reqs, r)
	}
	return c
}

// allowed decides from the headers alone whether they carry the credentials.
func (c Case) allowed(r Req) bool {
	if c.User == "" && c.Pass == "" {
		return true
	}
	if len(r.Auth) == 0 {
		return false
	}
	h := r.Auth[0]
	if len(h) < 6 || !strings.EqualFold(h[:6], "basic ") {
		return false
	}
	b, err := base64.StdEncoding.DecodeString(h[6:])
	if err != nil {
		return false
	}
	i := strings.IndexByte(string(b), ':')
	return i >= 0 && string(b[:i]) == c.User && string(b[i+1:]) == c.Pass
}

type static struct{ calls *int }

func (s static) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	*s.calls++
	w.Header().Set("X-Static", "yes")
	if req.URL.Path == "/secret" {
		w.WriteHeader(418)
	}
	io.WriteString(w, "secret page for "+req.URL.Path)
}

// body is the answer without the lines of stack traces.
func body(w *httptest.ResponseRecorder) string {
	if w.Code < 400 {
		return w.Body.String()
	}
	var out []string
	for _, l := range strings.Split(w.Body.String(), "\n") {
		if !strings.HasPrefix(l, "\t") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

var nonce = regexp.MustCompile(`^[0-9a-f]{32}$`)

func run(x *vkit.Ctx, c Case) error {
	d, err := tdigest.Params{Compression: 1000}.New()
	vkit.Must(err)
	for i := 0; i < 5; i++ {
		d.Observe(float64(i))
	}
	rec := data.Record{StartTime: 999999000000000000, EndTime: 999999500000000000, Observations: 5, Merged: 1, Kind: "tdigest", Distribution: d.Marshal(nil)}
	buf, err := rec.Marshal()
	vkit.Must(err)
	mk := func(o api.Options) (*api.Server, *fakeapi.DB, *int) {
		db := &fakeapi.DB{M: map[string][]fakeapi.Rec{"secret.metric": {{Start: rec.StartTime, End: rec.EndTime, Data: buf}}, "secret.other": nil}}
		calls := new(int)
		var h http.Handler
		if c.Static {
			h = static{calls}
		}
		return api.New(db, h, o), db, calls
	}
	srv, db, calls := mk(api.Options{Origin: c.Origin, Username: c.User, Password: c.Pass})
	open, _, _ := mk(api.Options{Origin: c.Origin})
	wantOrigin := c.Origin
	if wantOrigin == "" {
		wantOrigin = "*"
	}
	refusal, aNonce := "", ""
	yes, no := 0, 0
	for i, r := range c.Reqs {
		q := fakeapi.Req{Method: r.Method, URI: r.URI}
		if r.Accept {
			q.Header = append(q.Header, [2]string{"Accept", "application/json"})
		}
		for _, o := range r.From {
			q.Header = append(q.Header, [2]string{"Origin", o})
		}
		q.Header = q.Header[:len(q.Header):len(q.Header)]
		plain := q
		for _, a := range r.Auth {
			q.Header = append(q.Header, [2]string{"Authorization", a})
		}
		db.Calls, *calls = 0, 0
		got := fakeapi.Ask(srv, q)
		if o := got.Header()["Access-Control-Allow-Origin"]; !reflect.DeepEqual(o, []string{wantOrigin}) {
			return fmt.Errorf("request %d from %q: announced origin %q, configured %q", i, r.From, o, c.Origin)
		}
		if !c.allowed(r) {
			no++
			if got.Code != 401 {
				return fmt.Errorf("request %d: %s %s with authorization %q was answered with %d, credentials are %q/%q", i, r.Method, r.URI, r.Auth, got.Code, c.User, c.Pass)
			}
			if !strings.HasPrefix(got.Header().Get("WWW-Authenticate"), "Basic") {
				return fmt.Errorf("request %d: refused without a challenge", i)
			}
			if db.Calls+*calls > 0 {
				return fmt.Errorf("request %d: refused, but the database or the pages were consulted", i)
			}
			if refusal == "" {
				refusal = body(got)
			}
			if body(got) != refusal {
				return fmt.Errorf("request %d: refusals differ: %q and %q", i, refusal, got.Body)
			}
			if strings.Contains(got.Body.String(), "secret") || len(c.Pass) > 5 && strings.Contains(got.Body.String(), c.Pass) {
				return fmt.Errorf("request %d: the refusal discloses something: %q", i, got.Body)
			}
			continue
		}
		yes++
		want := fakeapi.Ask(open, plain)
		if r.URI == "/api/nonce" && r.Method == "GET" {
			b := got.Body.String()
			if got.Code != 200 || !nonce.MatchString(b) || aNonce != "" && aNonce != b {
				return fmt.Errorf("request %d: nonce %q after %q", i, b, aNonce)
			}
			aNonce = b
			continue
		}
		if got.Code != want.Code || body(got) != body(want) || !reflect.DeepEqual(got.Header(), want.Header()) {
			return fmt.Errorf("request %d: %s %s with the right credentials was answered %d %v %.300q, an unprotected server answers %d %v %.300q", i, r.Method, r.URI,
				got.Code, got.Header(), got.Body, want.Code, want.Header(), want.Body)
		}
		if want.Code == 401 {
			return fmt.Errorf("request %d: an unprotected server asks for credentials", i)
		}
	}
	x.LabelN("allowed", yes)
	x.LabelN("refused", no)
	x.LabelIf(c.User == "" && c.Pass == "", "unprotected")
	x.LabelIf((c.User == "") != (c.Pass == ""), "only one of user and password")
	if yes > 0 && no > 0 {
		x.NonTrivial()
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P27",
		Rule: "servers with drawn credentials and origin, asked with drawn requests carrying the right credentials, near misses, other schemes and malformed headers; whether to answer is decided from the header alone, answers are compared with an unprotected server's; " +
			"non-trivial: some requests allowed and some refused",
		Assumptions: []string{"a user name containing a colon cannot be expressed in basic authentication, so such credentials refuse everybody"},
	},
		vkit.P("credentials", 12000, 400000, gen, run),
	)
}
