// P29: searching metrics follows the documented pattern language.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"strings"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/api/query"
	"github.com/vivint/rothko/database/files/zzverif/fakeapi"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

type Case struct {
	Names   []string
	Query   string
	Results int // below 0: not given
	// Raw: the characters stand for bytes, which need not be valid UTF-8.
	Raw bool
}

func word(t *rapid.T, l, alpha string, lo, hi int) string {
	n := rapid.IntRange(lo, hi).Draw(t, l+"n")
	var b strings.Builder
	r := []rune(alpha)
	for i := 0; i < n; i++ {
		b.WriteRune(r[rapid.IntRange(0, len(r)-1).Draw(t, l)])
	}
	return b.String()
}

func gen(t *rapid.T) Case {
	var c Case
	alpha := rapid.SampledFrom([]string{"ab", "abAB", "abc", "aB_1é", "aZzA[@`{", "ab\u0080ÿ"}).Draw(t, "alpha")
	c.Raw = strings.ContainsRune(alpha, 'ÿ')
	seen := map[string]bool{}
	for i := rapid.IntRange(0, 14).Draw(t, "n"); i > 0; i-- {
		var comps []string
		for k := rapid.IntRange(1, 4).Draw(t, "comps"); k > 0; k-- {
			lo := 1
			if rapid.IntRange(0, 19).Draw(t, "emptycomp") == 11 {
				lo = 0
			}
			comps = append(comps, word(t, "name", alpha, lo, 6))
		}
		switch rapid.IntRange(0, 29).Draw(t, "big") {
		case 11: // a long component
			k := rapid.IntRange(0, len(comps)-1).Draw(t, "which")
			comps[k] = strings.Repeat(comps[k], rapid.IntRange(20, 120).Draw(t, "times")) + word(t, "longtail", alpha, 0, 3)
		case 12: // many components
			many := word(t, "each", alpha, 1, 2)
			for k := rapid.IntRange(10, 150).Draw(t, "many"); k > 0; k-- {
				comps = append(comps, many)
			}
			comps = append(comps, word(t, "lastcomp", alpha, 1, 3))
		}
		n := strings.Join(comps, ".")
		if !seen[n] {
			seen[n] = true
			c.Names = append(c.Names, n)
		}
	}
	pat := func() string {
		p := word(t, "pat", alpha, 0, 4)
		switch rapid.IntRange(0, 4).Draw(t, "wild") {
		case 0:
			p += "*" + word(t, "pat2", alpha, 0, 2)
		case 1:
			p = "*" + p + "*"
		case 2:
			p = "?" + p
		case 3:
			p += "*" + word(t, "pat3", alpha, 0, 2) + rapid.SampledFrom([]string{"*", "?", "**", "*?", ""}).Draw(t, "end")
		}
		return p
	}
	var terms []string
	for k := rapid.SampledFrom([]int{1, 1, 1, 2, 3, 0}).Draw(t, "terms"); k > 0; k-- {
		switch {
		case len(c.Names) > 0 && rapid.IntRange(0, 3).Draw(t, "from") == 0:
			// made from a stored name: a stretch of it, some bytes wild
			n := rapid.SampledFrom(c.Names).Draw(t, "of")
			if n == "" {
				continue
			}
			b := []byte(n)
			i := rapid.IntRange(0, len(b)-1).Draw(t, "i")
			j := rapid.IntRange(i+1, len(b)).Draw(t, "j")
			b = b[i:j]
			for m := rapid.IntRange(0, 2).Draw(t, "mut"); m > 0; m-- {
				at := rapid.IntRange(0, len(b)-1).Draw(t, "at")
				if b[at] != '.' {
					b[at] = rapid.SampledFrom([]byte("*?aB")).Draw(t, "to")
				}
			}
			terms = append(terms, strings.ToValidUTF8(string(b), "?"))
		default:
			var comps []string
			for m := rapid.IntRange(1, 3).Draw(t, "pcomps"); m > 0; m-- {
				comps = append(comps, pat())
			}
			terms = append(terms, strings.Join(comps, "."))
		}
	}
	sep := rapid.SampledFrom([]string{" ", "  ", "\t", " \n"}).Draw(t, "sep")
	c.Query = strings.Join(terms, sep)
	if rapid.IntRange(0, 5).Draw(t, "pad") == 0 {
		c.Query = sep + c.Query + sep
	}
	c.Results = rapid.SampledFrom([]int{-1, 100, 100, 1000000, 0, 1, 2, 3, 5}).Draw(t, "results")
	return c
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// starts: some prefix of the name matches the pattern. Both are lower case.
func starts(p, n string) bool {
	// reach[i]: the pattern so far can match exactly n[:i]
	reach := make([]bool, len(n)+1)
	reach[0] = true
	for k := 0; k < len(p); k++ {
		next := make([]bool, len(n)+1)
		for i, ok := range reach {
			if !ok {
				continue
			}
			switch {
			case p[k] == '*':
				for j := i; j <= len(n); j++ {
					next[j] = true
				}
			case i < len(n) && (p[k] == '?' || p[k] == n[i]):
				next[i+1] = true
			}
		}
		reach = next
	}
	for _, ok := range reach {
		if ok {
			return true
		}
	}
	return false
}

// has: the pattern matches somewhere within the component.
func has(p, n string) bool {
	for i := 0; i <= len(n); i++ {
		if starts(p, n[i:]) {
			return true
		}
	}
	return false
}

func matches(q, name string) bool {
	comps := strings.Split(lower(name), ".")
	for _, term := range strings.Fields(q) {
		pats := strings.Split(lower(term), ".")
		found := false
		for at := 0; at+len(pats) <= len(comps) && !found; at++ {
			found = true
			for i, p := range pats {
				found = found && has(p, comps[at+i])
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// raw makes a byte of each character.
func raw(s string) string {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

// viaJSON is the string after a trip through JSON, which cannot carry bytes
// that are not valid UTF-8.
func viaJSON(s string) string {
	b, err := json.Marshal(s)
	vkit.Must(err)
	vkit.Must(json.Unmarshal(b, &s))
	return s
}

func run(x *vkit.Ctx, c Case) error {
	if c.Raw {
		c.Query = raw(c.Query)
		names := make([]string, len(c.Names))
		for i, name := range c.Names {
			names[i] = raw(name)
		}
		c.Names = names
		x.Label("bytes that are not valid UTF-8")
	}
	n := c.Results
	uri := "/api/query?query=" + url.QueryEscape(c.Query)
	if n >= 0 {
		uri += fmt.Sprintf("&results=%d", n)
	} else {
		n = 10
	}
	db := &fakeapi.DB{M: map[string][]fakeapi.Rec{}}
	for _, name := range c.Names {
		db.M[name] = nil
	}
	var want []string
	all := 0
	for _, name := range db.Names() {
		m := matches(c.Query, name)
		if got := query.New(c.Query, 1).Match(name); got != m {
			return fmt.Errorf("query %q matches %q: %v, by the pattern language: %v", c.Query, name, got, m)
		}
		if m {
			all++
			if len(want) < n {
				want = append(want, name)
			}
		}
	}
	w := fakeapi.Ask(api.New(db, nil, api.Options{}), fakeapi.Req{Method: "GET", URI: uri})
	var got []string
	if err := json.Unmarshal(w.Body.Bytes(), &got); w.Code != 200 || err != nil {
		return fmt.Errorf("%s: answered %d %q", uri, w.Code, w.Body)
	}
	for i := range want {
		want[i] = viaJSON(want[i])
	}
	if err := same(got, want); err != nil {
		return fmt.Errorf("%s over %q: %v", uri, c.Names, err)
	}
	// the search by itself, fed in another order
	s := query.New(c.Query, n)
	want = want[:0]
	fed := 0
	for i := range c.Names {
		name := c.Names[(i+len(c.Names)/2)%len(c.Names)]
		if matches(c.Query, name) && len(want) < n {
			want = append(want, name)
		}
		more, err := s.Add(name)
		if err != nil {
			return fmt.Errorf("adding %q: %v", name, err)
		}
		fed++
		if !more {
			if len(want) < n {
				return fmt.Errorf("search %q stopped after %d matches of %d", c.Query, len(want), n)
			}
			break
		}
	}
	if err := same(s.Matched(), want); err != nil {
		return fmt.Errorf("search %q for %d over %q: %v", c.Query, n, c.Names, err)
	}
	x.LabelIf(all > n, "more matches than asked for")
	x.LabelIf(all == 0, "no match")
	x.LabelIf(strings.ContainsAny(c.Query, "*?"), "wildcards")
	if all > 0 && all < len(c.Names) && strings.ContainsAny(c.Query, "*?. ") {
		x.NonTrivial()
	}
	return nil
}

func same(got, want []string) error {
	if len(got) != len(want) {
		return fmt.Errorf("found %q, matching are %q", got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Errorf("found %q, matching are %q", got, want)
		}
	}
	if got == nil {
		return errors.New("no list")
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P29",
		Rule: "sets of names over small alphabets and queries of drawn terms (wildcards anywhere, several components, stretches of stored names with bytes replaced), asked of the search and over HTTP, against a matcher by dynamic programming on the definition of the language; " +
			"non-trivial: some names match and some do not, and the query has a wildcard, several terms or several components",
		Assumptions: []string{"letters are compared without case only in ASCII; ? stands for one byte"},
	},
		vkit.P("queries", 240000, 2000000, gen, run),
	)
}
