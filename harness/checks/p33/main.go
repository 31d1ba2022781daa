// P33: components are built from configuration or refused with an error.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"net"
	"os"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	_ "github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/database/files/zzverif/fakedb"
	"github.com/vivint/rothko/database/files/zzverif/fakedist"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/internal/typeassert"
	"github.com/vivint/rothko/listener"
	_ "github.com/vivint/rothko/listener/graphite"
	"github.com/vivint/rothko/registry"
	ztdigest "github.com/zeebo/tdigest"
	"pgregory.net/rapid"
)

// V is a configuration value.
type V struct {
	T string
	I int64
	F float64
	S string
	A []V
	K []string
}

func (v V) value() interface{} {
	switch v.T {
	case "int":
		return int(v.I)
	case "int64":
		return v.I
	case "int32":
		return int32(v.I)
	case "float64":
		return v.F
	case "string":
		return v.S
	case "bool":
		return v.I&1 == 1
	case "list":
		out := []interface{}{}
		for _, e := range v.A {
			out = append(out, e.value())
		}
		return out
	case "tables": // as the configuration has arrays of tables
		out := []map[string]interface{}{}
		for range v.A {
			out = append(out, map[string]interface{}{})
		}
		return out
	case "map":
		out := map[string]interface{}{}
		for i, k := range v.K {
			out[k] = v.A[i].value()
		}
		return out
	case "time":
		return time.Unix(v.I, 0)
	}
	return nil
}

var names = []string{"a", "b", "", "address", "size"}

func genV(t *rapid.T, depth int) V {
	kinds := []string{"int", "int64", "float64", "string", "bool", "nil", "int32", "time", "list", "map", "map", "list", "tables"}
	if depth <= 0 {
		kinds = kinds[:8]
	}
	v := V{T: rapid.SampledFrom(kinds).Draw(t, "kind")}
	switch v.T {
	case "list", "tables":
		for i := rapid.IntRange(0, 3).Draw(t, "len"); i > 0; i-- {
			v.A = append(v.A, genV(t, depth-1))
		}
	case "map":
		for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom(names), 0, 4, rapid.ID[string]).Draw(t, "keys") {
			v.K = append(v.K, k)
			v.A = append(v.A, genV(t, depth-1))
		}
	case "float64":
		v.F = rapid.SampledFrom([]float64{0, 1, -2.5, 1e100}).Draw(t, "f")
	case "string":
		v.S = rapid.SampledFrom([]string{"", "x", "5", "true"}).Draw(t, "s")
	case "int32":
		v.I = int64(rapid.Int32().Draw(t, "i32"))
	default:
		v.I = rapid.Int64().Draw(t, "i")
	}
	return v
}

// ---- assertions

type Step struct {
	List  bool
	Key   string
	Index int
}

type Assertion struct {
	Path  []Step
	Final string
}

type ACase struct {
	Value V
	As    []Assertion
}

func genA(t *rapid.T) ACase {
	c := ACase{Value: genV(t, 4)}
	for i := rapid.IntRange(1, 5).Draw(t, "n"); i > 0; i-- {
		var a Assertion
		cur := c.Value.value()
		for d := rapid.IntRange(0, 4).Draw(t, "depth"); d > 0; d-- {
			s := Step{}
			switch x := cur.(type) {
			case map[string]interface{}:
				s.Key = rapid.SampledFrom(names).Draw(t, "key")
				s.List = rapid.IntRange(0, 8).Draw(t, "wrong") == 7
				cur = x[s.Key]
			case []interface{}:
				s.List = rapid.IntRange(0, 8).Draw(t, "wrong") != 7
				s.Index = rapid.IntRange(-1, len(x)).Draw(t, "index")
				if s.Index >= 0 && s.Index < len(x) {
					cur = x[s.Index]
				}
			default:
				if x == nil || rapid.IntRange(0, 3).Draw(t, "beyond") == 2 {
					s.List = rapid.Bool().Draw(t, "list")
					s.Index = rapid.IntRange(-3, 3).Draw(t, "index")
					s.Key = rapid.SampledFrom(names).Draw(t, "key")
				} else {
					d = 1
					continue
				}
			}
			a.Path = append(a.Path, s)
		}
		a.Final = rapid.SampledFrom([]string{"int", "int64", "string", "bool", "float64", "v"}).Draw(t, "final")
		if rapid.IntRange(0, 2).Draw(t, "right") > 0 {
			switch cur.(type) {
			case int:
				a.Final = "int"
			case int64:
				a.Final = "int64"
			case string:
				a.Final = "string"
			case bool:
				a.Final = "bool"
			case float64:
				a.Final = "float64"
			}
		}
		c.As = append(c.As, a)
	}
	return c
}

var zeros = map[string]interface{}{"int": 0, "int64": int64(0), "string": "", "bool": false, "float64": float64(0)}

func runA(x *vkit.Ctx, c ACase) error {
	root := typeassert.A(c.Value.value())
	failed, found := false, 0
	var first error
	for i, a := range c.As {
		cur, bad := c.Value.value(), false
		as := root
		for _, s := range a.Path {
			if s.List {
				as = as.N(s.Index)
			} else {
				as = as.I(s.Key)
			}
			switch v := cur.(type) {
			case nil:
			case map[string]interface{}:
				if s.List {
					bad = true
				} else {
					cur = v[s.Key]
				}
			case []interface{}:
				if !s.List || s.Index < 0 || s.Index >= len(v) {
					bad = true
				} else {
					cur = v[s.Index]
				}
			default:
				bad = true
			}
			if bad {
				break
			}
		}
		var got interface{}
		switch a.Final {
		case "int":
			got = as.Int()
		case "int64":
			got = as.Int64()
		case "string":
			got = as.String()
		case "bool":
			got = as.Bool()
		case "float64":
			got = as.Float64()
		case "v":
			got = as.V()
			if !failed && !bad && !reflect.DeepEqual(got, cur) {
				return fmt.Errorf("assertion %d: value %v, is %v", i, got, cur)
			}
		}
		if a.Final != "v" {
			zero := zeros[a.Final]
			if !bad && cur != nil && reflect.TypeOf(cur) != reflect.TypeOf(zero) {
				bad = true
			}
			want := zero
			if !bad && cur != nil {
				want = cur
			}
			if !failed && !bad && !reflect.DeepEqual(got, want) {
				return fmt.Errorf("assertion %d (%+v): %#v, is %#v", i, a, got, want)
			}
			if cur != nil && !bad {
				found++
			}
		}
		if failed && root.Err() != first {
			return fmt.Errorf("assertion %d (%+v): error %v, was %v", i, a, root.Err(), first)
		}
		failed = failed || bad
		first = root.Err()
		if (root.Err() != nil) != failed || (as.Err() != nil) != failed {
			return fmt.Errorf("assertion %d (%+v): error %v, expected one: %v", i, a, root.Err(), failed)
		}
	}
	x.LabelIf(failed, "failed")
	if found > 0 {
		x.NonTrivial()
	}
	return nil
}

// ---- the makers of the program

type Setting struct {
	Key string
	Val V
}

type MCase struct {
	Kind string // tdigest, files, graphite
	Odd  *V     // in place of settings
	Set  []Setting
	Tune []Setting
}

func ints(ns ...int64) func(t *rapid.T) V {
	return func(t *rapid.T) V { return V{T: "int64", I: rapid.SampledFrom(ns).Draw(t, "n")} }
}

func genM(t *rapid.T) MCase {
	c := MCase{Kind: rapid.SampledFrom([]string{"tdigest", "files", "files", "graphite"}).Draw(t, "kind")}
	if rapid.IntRange(0, 9).Draw(t, "odd") == 5 {
		v := genV(t, 2)
		c.Odd = &v
		return c
	}
	right := map[string]func(t *rapid.T) V{}
	tune := map[string]func(t *rapid.T) V{}
	switch c.Kind {
	case "tdigest":
		right["compression"] = func(t *rapid.T) V {
			return V{T: "float64", F: rapid.SampledFrom([]float64{5, 1, 100, 1.5, 300, 1500, 5000, 20000, 0, -1, 0.5, 1e9, 65536}).Draw(t, "f")}
		}
	case "graphite":
		right["address"] = func(t *rapid.T) V {
			return V{T: "string", S: rapid.SampledFrom([]string{"lo", "lo", "lo", "not an address", "127.0.0.1:99999"}).Draw(t, "s")}
		}
	case "files":
		right["size"] = ints(256, 128, 100, 64, 4096, 65559, 256, 256, 0, -256, 24, 40, 65560, 1<<60)
		right["cap"] = ints(3, 1, 10, 3, 3, 0, -3, 1<<31, 1<<32+3, 1<<60, 1<<63-1)
		right["files"] = ints(1, 2, 3)
		right["directory"] = func(t *rapid.T) V { return V{T: "string", S: "dir"} }
		tune["buffer"] = ints(0, 1, 5, 20, -1, 1<<60)
		tune["drop"] = func(t *rapid.T) V { return V{T: "bool", I: int64(rapid.IntRange(0, 1).Draw(t, "b"))} }
		tune["workers"] = ints(0, 1, 3, -1, 1<<60)
		tune["handles"] = ints(0, 1, 10, -1, 1<<40, 1<<61, 1<<63-1)
	}
	add := func(from map[string]func(t *rapid.T) V, to *[]Setting, missing int) {
		keys := []string{}
		for k := range from {
			keys = append(keys, k)
		}
		for i := range keys { // in a fixed order
			for j := i + 1; j < len(keys); j++ {
				if keys[j] < keys[i] {
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
		for _, k := range keys {
			if rapid.IntRange(0, missing).Draw(t, "missing") == 1 {
				continue
			}
			v := from[k](t)
			if rapid.IntRange(0, 14).Draw(t, "wrong type") == 8 {
				if v = genV(t, 1); v.T == "int64" {
					v = V{T: "int", I: 5} // numbers of any size are not for allocating
				}
			}
			*to = append(*to, Setting{k, v})
		}
	}
	add(right, &c.Set, 15)
	if len(tune) > 0 && rapid.Bool().Draw(t, "tune") {
		add(tune, &c.Tune, 3)
		if c.Tune == nil {
			c.Tune = []Setting{}
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "more") == 2 {
		c.Set = append(c.Set, Setting{"something else", genV(t, 1)})
	}
	return c
}

var port struct {
	sync.Mutex
	n int
}

func runM(x *vkit.Ctx, c MCase) error {
	ctx := context.Background()
	dir := x.TempDir()
	addr := ""
	cfg := map[string]interface{}{}
	for _, s := range c.Set {
		v := s.Val.value()
		if v == "dir" {
			v = dir + "/data"
		}
		if v == "lo" {
			p := os.Getpid()
			l, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 64+p>>14&63, p>>7&127, 1+p&127))
			vkit.Must(err)
			addr = l.Addr().String()
			l.Close()
			v = addr
		}
		cfg[s.Key] = v
	}
	if c.Tune != nil {
		t := map[string]interface{}{}
		for _, s := range c.Tune {
			t[s.Key] = s.Val.value()
		}
		cfg["tuning"] = t
	}
	var config interface{} = cfg
	if c.Odd != nil {
		config = c.Odd.value()
		if m, ok := config.(map[string]interface{}); ok {
			cfg = m
		} else {
			cfg = map[string]interface{}{}
		}
	}
	// want looks up a setting: its value if it is there, and whether it is
	// not of that type
	wrong := false
	if _, ok := config.(map[string]interface{}); !ok && config != nil {
		wrong = true
	}
	want := func(m map[string]interface{}, k string, zero interface{}) interface{} {
		v, ok := m[k]
		if !ok || v == nil {
			return zero
		}
		if reflect.TypeOf(v) != reflect.TypeOf(zero) {
			wrong = true
			return zero
		}
		return v
	}
	x.Label(c.Kind)
	switch c.Kind {
	case "tdigest":
		comp := want(cfg, "compression", 0.0).(float64)
		p, err := registry.NewDistribution(ctx, "tdigest", config)
		if (err != nil) != wrong {
			return fmt.Errorf("tdigest of %#v: %v", config, err)
		}
		if wrong {
			return noResult(p)
		}
		if tp, ok := p.(tdigest.Params); ok && tp.Compression != comp {
			return fmt.Errorf("tdigest of %#v has compression %v", config, tp.Compression)
		}
		d, err := p.New()
		if usable := comp >= 1 && comp <= 65536; usable != (err == nil) {
			return fmt.Errorf("a distribution of tdigest of %#v: %v", config, err)
		}
		if err != nil {
			return noResult(d)
		}
		// it distinguishes the more the larger the compression is
		// than that of the sketch the settings name, made directly
		ref := ztdigest.New(comp)
		n := 300
		for i := 0; i < n; i++ {
			v := float64(i) * 7919
			v -= 100003 * math.Floor(v/100003)
			d.Observe(v)
			ref.Add(v)
		}
		a, b := d.Marshal(nil), ref.Marshal(nil)
		if len(a) < len(b)/2-200 || len(a) > 2*len(b)+200 {
			return fmt.Errorf("a distribution of tdigest of %#v takes %d bytes, %d with that compression", config, len(a), len(b))
		}
		// whoever reads the encoding continues with the compression in its header
		if len(a) < 12 || len(b) < 12 || !bytes.Equal(a[4:12], b[4:12]) {
			return fmt.Errorf("a distribution of tdigest of %#v is encoded with compression %v", config, math.Float64frombits(binary.BigEndian.Uint64(a[4:12])))
		}
		x.NonTrivial()

	case "graphite":
		address := want(cfg, "address", "").(string)
		l, err := registry.NewListener(ctx, "graphite", config)
		if (err != nil) != wrong {
			return fmt.Errorf("graphite of %#v: %v", config, err)
		}
		if wrong {
			return noResult(l)
		}
		if address == "" {
			return nil // any port
		}
		ctx, cancel := context.WithCancel(ctx)
		defer cancel()
		done := make(chan error, 1)
		go func() { done <- l.Run(ctx, data.NewWriter(fakedist.New())) }()
		if address != addr {
			select {
			case err := <-done:
				if err == nil {
					return fmt.Errorf("listening on %q ended without an error", address)
				}
				return nil
			case <-time.After(20 * time.Second):
				return fmt.Errorf("listening on %q works", address)
			}
		}
		for i := 0; ; i++ {
			conn, err := net.Dial("tcp", addr)
			if err == nil {
				conn.Close()
				break
			}
			select {
			case err := <-done:
				// somebody else may have got the port
				x.LabelIf(err != nil, "port taken")
				if err == nil {
					return fmt.Errorf("listening ended by itself")
				}
				return nil
			default:
			}
			if i > 2000 {
				return fmt.Errorf("nothing listens on %s: %v", addr, err)
			}
			time.Sleep(5 * time.Millisecond)
		}
		cancel()
		if err := <-done; err != nil {
			return fmt.Errorf("listening ended with %v", err)
		}
		x.NonTrivial()

	case "files":
		d := want(cfg, "directory", "").(string)
		size, cap, nfiles := want(cfg, "size", int64(0)).(int64), want(cfg, "cap", int64(0)).(int64), want(cfg, "files", int64(0)).(int64)
		tune := map[string]interface{}{}
		if v, ok := cfg["tuning"]; ok && v != nil {
			if tune, ok = v.(map[string]interface{}); !ok {
				wrong = true
			}
		}
		buffer, drop := want(tune, "buffer", int64(0)).(int64), want(tune, "drop", false).(bool)
		workers := want(tune, "workers", int64(0)).(int64)
		handles := want(tune, "handles", int64(0)).(int64)
		unusable := size < 60 || size > 65559 || cap < 1 || cap >= 1<<31 || buffer < 0 || buffer > 1<<31 || workers < 0 || workers > 1<<31
		if c.Odd != nil && !wrong && !unusable {
			return nil // would need drawn values that are all right by chance
		}
		db, err := registry.NewDatabase(ctx, "files", config)
		if (err != nil) != (wrong || unusable) {
			return fmt.Errorf("files of %#v: %v", config, err)
		}
		if err != nil {
			return noResult(db)
		}
		if d != dir+"/data" {
			return nil
		}
		// dropping what the buffer has no room for
		if drop {
			var dropped int64
			for i := int64(0); i < buffer+3; i++ {
				if err := db.Queue(ctx, "queued", i, i+1, []byte("x"), func(ok bool, err error) { atomic.AddInt64(&dropped, 1) }); err != nil {
					return fmt.Errorf("queueing: %v", err)
				}
			}
			if dropped := atomic.LoadInt64(&dropped); dropped != 3 {
				return fmt.Errorf("files of %#v: %d of %d values dropped without anybody taking them", config, dropped, buffer+3)
			}
			x.Label("drop")
		} else {
			for i := int64(0); i < buffer; i++ {
				if err := db.Queue(ctx, "queued", i, i+1, []byte("x"), nil); err != nil {
					return fmt.Errorf("queueing: %v", err)
				}
			}
			ctx, cancel := context.WithTimeout(ctx, 5*time.Millisecond)
			refused := false
			if err := db.Queue(ctx, "queued", 100, 101, []byte("x"), func(ok bool, err error) { refused = true }); err == nil && !refused {
				cancel()
				return fmt.Errorf("files of %#v: more than %d values are queued without anybody taking them", config, buffer)
			}
			cancel()
		}
		ctx, cancel := context.WithCancel(ctx)
		done := make(chan error, 1)
		go func() { done <- db.Run(ctx) }()
		defer func() { cancel(); <-done }()
		n := int(cap*(nfiles+2) + 1)
		for i := 1; i <= n; i++ {
			res := make(chan error, 1)
			for {
				var ok bool
				if err := db.Queue(ctx, "m", int64(i), int64(i+1), []byte{byte(i)}, func(w bool, err error) { ok = w; res <- err }); err != nil {
					return fmt.Errorf("queueing: %v", err)
				}
				if err := <-res; err != nil {
					return fmt.Errorf("files of %#v: storing value %d: %v", config, i, err)
				}
				if ok {
					break
				}
				if !drop {
					return fmt.Errorf("files of %#v: value %d was not stored", config, i)
				}
				time.Sleep(100 * time.Microsecond)
			}
		}
		for name, got := range store.DataFiles(dir + "/data") {
			if got != size*(cap+1) {
				return fmt.Errorf("files of %#v: %s takes %d bytes", config, name, got)
			}
		}
		got := 0
		if err := db.Query(ctx, "m", 1<<62, nil, func(ctx context.Context, s, e int64, b []byte) (bool, error) {
			if e != int64(n+1-got) || len(b) != 1 || b[0] != byte(e-1) {
				return false, fmt.Errorf("value %d from the last is [%d, %d] %x", got, s, e, b)
			}
			got++
			return true, nil
		}); err != nil {
			return err
		}
		if nfiles > 0 && (got < int(cap*nfiles) || got > int(cap*(nfiles+1))) || nfiles <= 0 && got != n {
			return fmt.Errorf("files of %#v: %d of %d values are kept", config, got, n)
		}
		if handles != 0 {
			// one of the values queued before may still be on its way
			open, most := 0, int(max(handles, 0))
			for i := 0; i < 5000; i++ {
				if open, _ = store.Mapped(dir); open <= most {
					break
				}
				time.Sleep(time.Millisecond)
			}
			if open > most {
				return fmt.Errorf("files of %#v: %d files are kept open", config, open)
			}
			x.Label("limited handles")
		}
		x.NonTrivial()
	}
	return nil
}

func noResult(v interface{}) error {
	if v != nil && !(reflect.ValueOf(v).Kind() == reflect.Ptr && reflect.ValueOf(v).IsNil()) {
		return fmt.Errorf("both an error and %#v", v)
	}
	return nil
}

// ---- registries

type ROp struct {
	Kind   int // 0-2 register, 3-5 make, 6-8 register one that makes another
	Name   int
	Result int // of the maker: 0 a component, 1 an error, 2 neither
	Inner  int
}

type RCase struct {
	Ops     []ROp
	Workers int
	Default bool
}

func genR(t *rapid.T) RCase {
	c := RCase{Workers: rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "workers"), Default: rapid.IntRange(0, 3).Draw(t, "default") == 1}
	for i := rapid.IntRange(1, 40).Draw(t, "n"); i > 0; i-- {
		c.Ops = append(c.Ops, ROp{Kind: rapid.SampledFrom([]int{0, 1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8}).Draw(t, "op"), Name: rapid.IntRange(0, 3).Draw(t, "name"),
			Result: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "result"), Inner: rapid.IntRange(0, 3).Draw(t, "inner")})
	}
	return c
}

type fakeDB struct {
	fakedb.DB
	id  int
	cfg interface{}
}
type fakeLis struct {
	id  int
	cfg interface{}
}

func (*fakeLis) Run(ctx context.Context, w *data.Writer) error { return nil }

type fakeParams struct {
	*fakedist.Params
	id  int
	cfg interface{}
}

type ctxKey struct{}

type regs interface {
	RegisterListener(string, registry.ListenerMaker)
	NewListener(context.Context, string, interface{}) (listener.Listener, error)
	RegisterDatabase(string, registry.DatabaseMaker)
	NewDatabase(context.Context, string, interface{}) (database.DB, error)
	RegisterDistribution(string, registry.DistributionMaker)
	NewDistribution(context.Context, string, interface{}) (dist.Params, error)
}

type defaults struct{}

func (defaults) RegisterListener(n string, m registry.ListenerMaker) { registry.RegisterListener(n, m) }
func (defaults) NewListener(c context.Context, n string, v interface{}) (listener.Listener, error) {
	return registry.NewListener(c, n, v)
}
func (defaults) RegisterDatabase(n string, m registry.DatabaseMaker) { registry.RegisterDatabase(n, m) }
func (defaults) NewDatabase(c context.Context, n string, v interface{}) (database.DB, error) {
	return registry.NewDatabase(c, n, v)
}
func (defaults) RegisterDistribution(n string, m registry.DistributionMaker) {
	registry.RegisterDistribution(n, m)
}
func (defaults) NewDistribution(c context.Context, n string, v interface{}) (dist.Params, error) {
	return registry.NewDistribution(c, n, v)
}

var runs int

func runR(x *vkit.Ctx, c RCase) error {
	var r regs = &registry.Registry{}
	prefix := ""
	if c.Default {
		runs++
		r, prefix = defaults{}, fmt.Sprintf("case %d ", runs)
	}
	// registered by name and kind; the sequence number of the last, or of any
	// when there are several workers
	type made struct {
		result int
		inner  string
	}
	all := []made{{}}
	last := [3]map[string]int{{}, {}, {}}
	ever := [3]map[string]map[int]bool{{}, {}, {}}
	for i := range ever {
		ever[i] = map[string]map[int]bool{}
	}
	errMade := errors.New("maker error")
	register := func(o ROp, name string, id int, inner string) {
		check := func(ctx context.Context) {
			if ctx.Value(ctxKey{}) == nil {
				panic("the context is not that of the caller")
			}
		}
		switch o.Kind % 3 {
		case 0:
			r.RegisterListener(name, registry.ListenerMakerFunc(func(ctx context.Context, cfg interface{}) (listener.Listener, error) {
				check(ctx)
				if inner != "" {
					r.RegisterListener(inner+" made", registry.ListenerMakerFunc(func(ctx context.Context, cfg interface{}) (listener.Listener, error) { return nil, nil }))
					return r.NewListener(ctx, inner, cfg)
				}
				if o.Result == 1 {
					return nil, errMade
				}
				return &fakeLis{id, cfg}, nil
			}))
		case 1:
			r.RegisterDatabase(name, registry.DatabaseMakerFunc(func(ctx context.Context, cfg interface{}) (database.DB, error) {
				check(ctx)
				if inner != "" {
					return r.NewDatabase(ctx, inner, cfg)
				}
				if o.Result == 1 {
					return nil, errMade
				}
				return &fakeDB{id: id, cfg: cfg}, nil
			}))
		case 2:
			r.RegisterDistribution(name, registry.DistributionMakerFunc(func(ctx context.Context, cfg interface{}) (dist.Params, error) {
				check(ctx)
				if inner != "" {
					return r.NewDistribution(ctx, inner, cfg)
				}
				if o.Result == 1 {
					return nil, errMade
				}
				return fakeParams{fakedist.New(), id, cfg}, nil
			}))
		}
	}
	makeOne := func(kind int, name string, cfg interface{}) (id int, err error) {
		ctx := context.WithValue(context.Background(), ctxKey{}, 1)
		var got interface{}
		switch kind {
		case 0:
			l, e := r.NewListener(ctx, name, cfg)
			if err = e; err == nil {
				f := l.(*fakeLis)
				id, got = f.id, f.cfg
			} else if l != nil {
				return 0, fmt.Errorf("both %v and an error", l)
			}
		case 1:
			l, e := r.NewDatabase(ctx, name, cfg)
			if err = e; err == nil {
				f := l.(*fakeDB)
				id, got = f.id, f.cfg
			}
		case 2:
			l, e := r.NewDistribution(ctx, name, cfg)
			if err = e; err == nil {
				f := l.(fakeParams)
				id, got = f.id, f.cfg
			}
		}
		if err == nil && got != cfg {
			panic(fmt.Sprintf("the maker got %v for a configuration, not %v", got, cfg))
		}
		return id, err
	}
	if c.Workers == 1 {
		makes := 0
		for i, o := range c.Ops {
			kind, name := o.Kind%3, fmt.Sprintf("%sn%d", prefix, o.Name)
			if o.Kind >= 3 && o.Kind < 6 {
				id, err := makeOne(kind, name, i)
				want, ok := last[kind][name]
				// follow makers that make others; they only refer to lower names
				for ok && all[want].inner != "" {
					want, ok = last[kind][all[want].inner]
				}
				switch {
				case !ok && (err == nil || err == errMade):
					return fmt.Errorf("op %d: making %q, which is not registered: %d, %v", i, name, id, err)
				case ok && all[want].result == 1 && err != errMade:
					return fmt.Errorf("op %d: the maker's error became %v", i, err)
				case ok && all[want].result == 0 && (err != nil || id != want):
					return fmt.Errorf("op %d: making %q: got that of registration %d (%v), the last is %d", i, name, id, err, want)
				}
				if ok {
					makes++
				}
				continue
			}
			inner := ""
			if o.Kind >= 6 && o.Inner < o.Name {
				inner = fmt.Sprintf("%sn%d", prefix, o.Inner)
				x.Label("maker making another")
			}
			id := len(all)
			all = append(all, made{o.Result, inner})
			last[kind][name] = id
			register(o, name, id, inner)
		}
		if makes > 1 {
			x.NonTrivial()
		}
		return nil
	}
	// several at once: every one has its own name too, and sees its own
	// registrations there; in shared names somebody's
	var wg sync.WaitGroup
	fails := make([]error, c.Workers)
	for w := 0; w < c.Workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			own := [3]map[string]int{{}, {}, {}}
			for i, o := range c.Ops {
				kind, name := o.Kind%3, fmt.Sprintf("%sn%d", prefix, o.Name)
				private := o.Name%2 == 1
				if private {
					name += fmt.Sprint(" of ", w)
				}
				if o.Kind >= 3 && o.Kind < 6 {
					id, err := makeOne(kind, name, i)
					if want, ok := own[kind][name]; ok && private {
						if err != nil || id != want {
							fails[w] = fmt.Errorf("worker %d op %d: making %q: %d, %v, registered %d", w, i, name, id, err, want)
							return
						}
					} else if private && err == nil {
						fails[w] = fmt.Errorf("worker %d op %d: making %q, never registered, gave %d", w, i, name, id)
						return
					} else if !private && ok && err != nil {
						fails[w] = fmt.Errorf("worker %d op %d: making %q, registered before: %v", w, i, name, err)
						return
					}
					continue
				}
				id := w*1000 + i + 1
				register(ROp{Kind: o.Kind}, name, id, "")
				own[kind][name] = id
			}
		}()
	}
	wg.Wait()
	x.Label("concurrent")
	x.NonTrivial()
	for _, err := range fails {
		if err != nil {
			return err
		}
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P33",
		Rule: "assertions along drawn paths through drawn nested values against a walk of the value; the built-in listener, database and distribution built from drawn settings (right, missing, wrong type, unusable) and then exercised to see the settings at work; registries under histories of registering and making, makers that make others, and several at once under the race detector; " +
			"non-trivial: a setting found / a component that was built and behaved / at least two makes or concurrent use",
		Assumptions: []string{"settings the configuration does not mention take the zero value"},
	},
		vkit.P("assertions", 20000, 600000, genA, runA),
		vkit.P("makers", 2500, 40000, genM, runM),
		vkit.P("registry", 6000, 150000, genR, runR),
	)
}
