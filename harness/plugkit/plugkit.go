// Package plugkit has a database, a listener and a distribution of its own for
// plugins of the program. They write down everything that happens to them.
package plugkit

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/database/files/zzverif/fakedist"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/external"
	"github.com/vivint/rothko/listener"
	"github.com/vivint/rothko/registry"
)

// Journal names the file the events go to.
const Journal = "ROTHKO_JOURNAL"

// Event is one thing that happened.
type Event struct {
	K          string // make, run, end, add, queue, answer, query, latest, metrics, observe
	What       string `json:",omitempty"` // database, listener, dist
	By         string `json:",omitempty"` // the plugin that made it
	ID         int    `json:",omitempty"` // of the made thing
	Config     string `json:",omitempty"`
	Metric     []byte `json:",omitempty"`
	Bits       uint64 `json:",omitempty"`
	Start, End int64  `json:",omitempty"`
	Data       []byte `json:",omitempty"`
	N          int    `json:",omitempty"` // of the queued value
	OK         bool   `json:",omitempty"`
	Name       string `json:",omitempty"`
	Value      float64
}

var (
	mu   sync.Mutex
	file *os.File
	ids  int
)

func note(e Event) {
	mu.Lock()
	defer mu.Unlock()
	if file == nil {
		f, err := os.OpenFile(os.Getenv(Journal), os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0644)
		if err != nil {
			panic(err)
		}
		file = f
	}
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	if _, err := file.Write(append(b, '\n')); err != nil {
		panic(err)
	}
}

func newID() int {
	mu.Lock()
	defer mu.Unlock()
	ids++
	return ids
}

// Describe writes a configuration value in one way.
func Describe(v interface{}) string {
	var list []string
	switch v := v.(type) {
	case nil:
		return "nil"
	case int64:
		return "i" + strconv.FormatInt(v, 10)
	case float64:
		return "f" + strconv.FormatUint(math.Float64bits(v), 16)
	case bool:
		return strconv.FormatBool(v)
	case string:
		return strconv.Quote(v)
	case []interface{}:
		for _, e := range v {
			list = append(list, Describe(e))
		}
	case []map[string]interface{}:
		for _, e := range v {
			list = append(list, Describe(e))
		}
	case map[string]interface{}:
		for k, e := range v {
			list = append(list, strconv.Quote(k)+":"+Describe(e))
		}
		sort.Strings(list)
		return "{" + strings.Join(list, ",") + "}"
	default:
		return fmt.Sprintf("?%T", v)
	}
	return "[" + strings.Join(list, ",") + "]"
}

func str(c interface{}, k string) string {
	m, _ := c.(map[string]interface{})
	s, _ := m[k].(string)
	return s
}

func num(c interface{}, k string) int64 {
	m, _ := c.(map[string]interface{})
	n, _ := m[k].(int64)
	return n
}

// Register registers the kinds journal and script, and the exact distribution.
func Register(by string) {
	registry.RegisterDatabase("journal", registry.DatabaseMakerFunc(func(ctx context.Context, c interface{}) (database.DB, error) {
		d := &db{c: c, id: newID(), m: map[string][]rec{}}
		note(Event{K: "make", What: "database", By: by, ID: d.id, Config: Describe(c)})
		if s := str(c, "fail"); s != "" {
			return nil, errors.New(s)
		}
		if m, ok := c.(map[string]interface{}); ok {
			names, _ := m["metrics"].([]interface{})
			for _, n := range names {
				d.m[n.(string)] = []rec{{start: 1, end: 2, data: []byte("x")}}
			}
		}
		return d, nil
	}))
	registry.RegisterDistribution(fakedist.Kind, registry.DistributionMakerFunc(func(ctx context.Context, c interface{}) (dist.Params, error) {
		note(Event{K: "make", What: "dist", By: by, ID: newID(), Config: Describe(c)})
		if s := str(c, "fail"); s != "" {
			return nil, errors.New(s)
		}
		p := fakedist.New()
		if str(c, "useless") != "" {
			p.Fail = func(int64) bool { return true }
		}
		return p, nil
	}))
	registerScript(by, "script")
}

// RegisterGraphite replaces the listener that is built in.
func RegisterGraphite(by string) { registerScript(by, "graphite") }

func registerScript(by, kind string) {
	registry.RegisterListener(kind, registry.ListenerMakerFunc(func(ctx context.Context, c interface{}) (listener.Listener, error) {
		l := &script{c: c, id: newID()}
		note(Event{K: "make", What: "listener", Name: kind, By: by, ID: l.id, Config: Describe(c)})
		if s := str(c, "fail"); s != "" {
			return nil, errors.New(s)
		}
		return l, nil
	}))
}

type ext struct{ by string }

func (e ext) Infow(msg string, kv ...interface{})  {}
func (e ext) Errorw(msg string, kv ...interface{}) {}
func (e ext) Observe(name string, v float64) {
	note(Event{K: "observe", By: e.by, Name: name, Value: v})
}

// Externals replaces the logger and monitor.
func Externals(by string) {
	external.Default.Logger, external.Default.Monitor = ext{by}, ext{by}
}

func text(err error) string {
	if err != nil {
		return err.Error()
	}
	return ""
}

type script struct {
	c  interface{}
	id int
}

func (l *script) Run(ctx context.Context, w *data.Writer) error {
	note(Event{K: "run", What: "listener", ID: l.id})
	metric := str(l.c, "metric")
	add := func(i int64) {
		v := float64(l.id)*1000 + float64(i)
		w.Add(ctx, metric, v, []byte(metric))
		note(Event{K: "add", ID: l.id, Metric: []byte(metric), Bits: math.Float64bits(v)})
	}
	gap := time.Duration(num(l.c, "gap")) * time.Millisecond
	i, n := int64(0), num(l.c, "count")
	for ; i < n; i++ {
		add(i)
		select {
		case <-ctx.Done():
		case <-time.After(gap):
			continue
		}
		break
	}
	var err error
	switch end := str(l.c, "end"); end {
	case "nil":
	case "":
		<-ctx.Done()
		// what is under way is finished first
		for k := int64(0); k < num(l.c, "tail"); k++ {
			time.Sleep(gap)
			add(n + k)
		}
	default:
		err = errors.New(end)
	}
	note(Event{K: "end", What: "listener", ID: l.id, OK: ctx.Err() != nil, Name: text(err)})
	return err
}

type rec struct {
	start, end int64
	data       []byte
}

type db struct {
	c  interface{}
	id int
	mu sync.Mutex
	m  map[string][]rec // newest first
	n  int
}

func (d *db) Run(ctx context.Context) error {
	note(Event{K: "run", What: "database", ID: d.id})
	var stop <-chan time.Time
	end := str(d.c, "end")
	if end != "" {
		stop = time.After(time.Duration(num(d.c, "after")) * time.Millisecond)
	}
	var err error
	select {
	case <-ctx.Done():
		time.Sleep(time.Duration(num(d.c, "closing")) * time.Millisecond)
	case <-stop:
		err = errors.New(end)
	}
	note(Event{K: "end", What: "database", ID: d.id, OK: ctx.Err() != nil, Name: text(err)})
	return err
}

func (d *db) Queue(ctx context.Context, metric string, start, end int64, buf []byte, cb func(bool, error)) error {
	d.mu.Lock()
	d.n++
	n := d.n
	d.mu.Unlock()
	how := str(d.c, "answer")
	note(Event{K: "queue", ID: d.id, Metric: []byte(metric), Start: start, End: end, N: n})
	answer := func() {
		ok, err := true, error(nil)
		switch how {
		case "refuse":
			ok = false
		case "error":
			ok, err = false, errors.New("answered with an error")
		default:
			d.mu.Lock()
			d.m[metric] = append([]rec{{start, end, append([]byte{}, buf...)}}, d.m[metric]...)
			d.mu.Unlock()
		}
		// the data is what it is now, after anything that may have happened to
		// the buffer
		note(Event{K: "answer", ID: d.id, N: n, OK: ok, Data: append([]byte{}, buf...)})
		cb(ok, err)
	}
	if how == "deny" {
		note(Event{K: "answer", ID: d.id, N: n, Data: append([]byte{}, buf...)})
		return errors.New("not queued")
	}
	if late := num(d.c, "late"); late > 0 {
		go func() {
			time.Sleep(time.Duration(late) * time.Millisecond)
			answer()
		}()
	} else {
		answer()
	}
	return nil
}

func (d *db) all(metric string) []rec {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.m[metric]
}

func (d *db) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	note(Event{K: "query", ID: d.id, Metric: []byte(metric), End: end})
	for _, r := range d.all(metric) {
		if r.end < end {
			if more, err := cb(ctx, r.start, r.end, r.data); err != nil || !more {
				return err
			}
		}
	}
	return nil
}

func (d *db) QueryLatest(ctx context.Context, metric string, buf []byte) (start, end int64, data []byte, err error) {
	note(Event{K: "latest", ID: d.id, Metric: []byte(metric)})
	if a := d.all(metric); len(a) > 0 {
		return a[0].start, a[0].end, append(buf[:0], a[0].data...), nil
	}
	return 0, 0, nil, nil
}

func (d *db) Metrics(ctx context.Context, cb func(string) (bool, error)) error {
	note(Event{K: "metrics", ID: d.id})
	d.mu.Lock()
	var names []string
	for n := range d.m {
		names = append(names, n)
	}
	d.mu.Unlock()
	sort.Strings(names)
	for _, n := range names {
		if more, err := cb(n); err != nil || !more {
			return err
		}
	}
	return nil
}
