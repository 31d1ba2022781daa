// P16: every well-formed line on the wire becomes exactly one observation.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database/files/zzverif/fakedist"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/listener/graphite"
	"pgregory.net/rapid"
)

// Line is one line; exactly the ones with Good set are well-formed.
type Line struct {
	B    []byte
	Good bool   `json:",omitempty"`
	M    []byte `json:",omitempty"`
	V    string `json:",omitempty"`
	CR   bool   `json:",omitempty"`
	Pad  int    `json:",omitempty"` // the metric name is made this much longer
	More int    `json:",omitempty"` // the line is sent this many times more
}

// Conn is one connection.
type Conn struct {
	Lines  []Line
	Cuts   []int // packet sizes, cyclically; empty for one write
	Pause  bool  // wait a moment between packets
	End    int   // 0 close, 1 stay open until the listener stops, 2 reset
	NoTerm bool  // no newline at the end (only with End 0)
	Over   int   // after its lines, this many bytes without a newline or space
}

type Case struct {
	Conns []Conn
	Idle  int `json:",omitempty"` // this many other connections are open all the time
}

var metrics = []string{"a", "a.b", "test.foo.bar", "x/y", "é", "q", "%", "\x00\x01", "foo;tag=1", "0", "1.5", "-",
	"CPU.Load", "A", ".lead", "trail.", "a..b", ".", "x\ty", "\ttab", "\xff\xfe", "caf\xe9", "日本", "a\rb", "\u00a0", "\u2003x",
	"\ufeffb", "#c", "//d", `"q"`, "'q'", `a\b`, "{a,b}", "*", "a*", "[x]", "\x7f", "$HOME", "${a}", "a=b", "a:1|c", "<m>", "a,tag=1", "--m"}

func genValue(t *rapid.T) string {
	switch rapid.IntRange(0, 6).Draw(t, "valk") {
	case 0, 1:
		return strconv.Itoa(rapid.IntRange(-1000, 1000).Draw(t, "vi"))
	case 2:
		return strconv.FormatFloat(rapid.Float64Range(-1e6, 1e6).Draw(t, "vf"), 'f', rapid.IntRange(0, 12).Draw(t, "prec"), 64)
	case 3:
		return strconv.FormatFloat(rapid.Float64().Draw(t, "vany"), 'g', -1, 64)
	case 4:
		return rapid.SampledFrom([]string{"+3", "-0", "0", "1e3", "1E3", "1e-7", "2.5e+10", ".5", "-.5", "5.", "007", "00.10", "1e308", "4.9e-324", "-1.7976931348623157e308", "123456789012345678901234567890"}).Draw(t, "vs")
	case 5:
		return "0." + strings.Repeat("3", rapid.IntRange(1, 400).Draw(t, "digits"))
	default:
		return strconv.FormatInt(rapid.Int64().Draw(t, "vi64"), 10)
	}
}

func genLine(t *rapid.T) Line {
	m := rapid.SampledFrom(metrics).Draw(t, "m")
	ts := rapid.SampledFrom([]string{"0", "1530000000", "-1", "99999999999", "1530000000.25", "1530000000.0"}).Draw(t, "ts")
	var l Line
	switch rapid.IntRange(0, 11).Draw(t, "lk") {
	case 0:
		v := rapid.SampledFrom([]string{"abc", "", "1.2.3", "--1", "1,5", "0x", "1e", "e5", "１", "1;", "+", ".", "true", "\x001"}).Draw(t, "bad")
		l.B = []byte(m + " " + v + " " + ts)
	case 1:
		v := rapid.SampledFrom([]string{"inf", "-Inf", "+inf", "nan", "NaN", "infinity", "-Infinity", "1e999", "-1e400"}).Draw(t, "nonfin")
		l.B = []byte(m + " " + v + " " + ts)
	case 2:
		l.B = []byte(rapid.SampledFrom([]string{"", m, m + " 5", m + " 5 " + ts + " x", m + " 5 " + ts + " 6 7", "5"}).Draw(t, "fields"))
	case 3:
		b := rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "junk")
		for i := range b {
			if b[i] == ' ' || b[i] == '\n' || b[i] == '\r' {
				b[i] = '!'
			}
		}
		l.B = b
	default:
		l.Good, l.M, l.V = true, []byte(m), genValue(t)
		if rapid.IntRange(0, 25).Draw(t, "long") == 13 {
			l.Pad = rapid.SampledFrom([]int{100, 4000, 4096, 5000, 8192, 30000, 60000, 64900}).Draw(t, "pad")
			l.M = nil
		}
		l.B = []byte(" " + l.V + " " + ts)
		if rapid.IntRange(0, 7).Draw(t, "again") == 4 {
			l.More = rapid.IntRange(1, 3).Draw(t, "more")
		}
		l.CR = rapid.IntRange(0, 9).Draw(t, "cr") == 5
	}
	if !l.Good && rapid.IntRange(0, 15).Draw(t, "longbad") == 7 {
		l.Pad = rapid.SampledFrom([]int{100, 4000, 4096, 5000, 8192, 30000, 60000}).Draw(t, "badpad")
	}
	if l.Pad == 0 && rapid.IntRange(0, 400).Draw(t, "many") == 217 {
		l.More = rapid.SampledFrom([]int{30, 300, 1500}).Draw(t, "times")
	}
	return l
}

func (l Line) name() string {
	if l.Pad > 0 {
		return "long" + strings.Repeat("n", l.Pad)
	}
	return string(l.M)
}

func (l Line) bytes() []byte {
	if !l.Good {
		if l.Pad > 0 {
			return append([]byte("long"+strings.Repeat("n", l.Pad)), l.B...)
		}
		return l.B
	}
	b := append([]byte(l.name()), l.B...)
	if l.CR {
		b = append(b, '\r')
	}
	return b
}

func gen(t *rapid.T) Case {
	var c Case
	for n := rapid.IntRange(1, 4).Draw(t, "nc"); n > 0; n-- {
		var k Conn
		for i := rapid.IntRange(0, 20).Draw(t, "nl"); i > 0; i-- {
			k.Lines = append(k.Lines, genLine(t))
		}
		k.Cuts = rapid.SliceOfN(rapid.IntRange(1, 60), 0, 6).Draw(t, "cuts")
		k.Pause = rapid.IntRange(0, 4).Draw(t, "pause") == 2
		k.End = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "end")
		if k.End == 0 && rapid.IntRange(0, 7).Draw(t, "over") == 3 {
			k.Over = rapid.SampledFrom([]int{65536, 70000, 131072, 300000}).Draw(t, "overn")
		}
		k.NoTerm = k.End == 0 && k.Over == 0 && rapid.IntRange(0, 3).Draw(t, "noterm") == 2
		c.Conns = append(c.Conns, k)
	}
	if rapid.IntRange(0, 24).Draw(t, "idle") == 11 {
		c.Idle = rapid.SampledFrom([]int{20, 70, 140, 300}).Draw(t, "nidle")
	}
	return c
}

var host string // an address of our own on the loopback network

func freeAddr() string {
	l, err := net.Listen("tcp", host+":0")
	vkit.Must(err)
	defer l.Close()
	return l.Addr().String()
}

type runner struct {
	w      *data.Writer
	addr   string
	cancel func()
	done   chan error
}

func start() *runner {
	for try := 0; ; try++ {
		r := &runner{w: data.NewWriter(fakedist.New()), addr: freeAddr(), done: make(chan error, 1)}
		ctx, cancel := context.WithCancel(context.Background())
		r.cancel = cancel
		go func() { r.done <- graphite.New(r.addr).Run(ctx, r.w) }()
		for i := 0; i < 5000; i++ {
			c, err := net.Dial("tcp", r.addr)
			if err == nil {
				c.Close()
				return r
			}
			select {
			case err := <-r.done:
				cancel()
				if errors.Is(err, syscall.EADDRINUSE) || strings.Contains(fmt.Sprint(err), "address already in use") {
					i = 5000 // somebody else took the port meanwhile
				} else {
					vkit.Must(fmt.Errorf("listening on %s: %v", r.addr, err))
				}
			case <-time.After(time.Millisecond):
			}
		}
		cancel()
		if try > 5 {
			vkit.Must(fmt.Errorf("no listener on %s", r.addr))
		}
	}
}

type tally map[string][]float64

func (t tally) sort() tally {
	for _, v := range t {
		sort.Float64s(v)
	}
	return t
}

func contents(w *data.Writer) (tally, error) {
	got := tally{}
	var err error
	w.Iterate(context.Background(), func(_ context.Context, m string, r data.Record) bool {
		vals, e := fakedist.Decode(r.Distribution)
		if e != nil {
			err = e
		}
		got[m] = append([]float64{}, vals...)
		return true
	})
	return got.sort(), err
}

func cut(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%s...(%d)", s[:40], len(s))
	}
	return s
}

// diff says how got differs from want; the metrics of reset connections may
// lack values.
func diff(got, want tally, lossy map[string]bool) string {
	for m, g := range got {
		if len(want[m]) == 0 {
			return fmt.Sprintf("%q has observations %v, no well-formed line named it", cut(m), g)
		}
		if lossy[m] {
			left := map[uint64]int{}
			for _, v := range want[m] {
				left[math.Float64bits(v)]++
			}
			for _, v := range g {
				left[math.Float64bits(v)]--
				if left[math.Float64bits(v)] < 0 {
					return fmt.Sprintf("%q has %v more often than sent", cut(m), v)
				}
			}
			continue
		}
		if len(g) != len(want[m]) {
			return fmt.Sprintf("%q has %d observations, %d sent: %v and %v", cut(m), len(g), len(want[m]), g, want[m])
		}
		for i := range g {
			if g[i] != want[m][i] {
				return fmt.Sprintf("%q has observations %v, sent %v", cut(m), g, want[m])
			}
		}
	}
	for m, v := range want {
		if len(got[m]) == 0 && !lossy[m] {
			return fmt.Sprintf("%q has no observations, sent %v", cut(m), v)
		}
	}
	return ""
}

func run(x *vkit.Ctx, c Case) error {
	r := start()
	defer r.cancel()
	var others []*net.TCPConn
	defer func() {
		for _, k := range others {
			k.SetLinger(0)
			k.Close()
		}
	}()
	for i := 0; i < c.Idle; i++ {
		k, err := net.DialTimeout("tcp", r.addr, 20*time.Second)
		if err != nil {
			return fmt.Errorf("connection %d of %d: %v", i, c.Idle, err)
		}
		others = append(others, k.(*net.TCPConn))
		if i%3 == 0 {
			k.Write([]byte("unfinished")) // and never more
		}
	}
	want := tally{}
	lossy := map[string]bool{}
	good, bad := 0, 0
	streams := make([][]byte, len(c.Conns))
	for ci, k := range c.Conns {
		var b []byte
		for _, l := range k.Lines {
			b = append(b, bytes.Repeat(append(l.bytes()[:len(l.bytes()):len(l.bytes())], '\n'), 1+l.More)...)
			if l.Good {
				good++
				v, err := strconv.ParseFloat(l.V, 64)
				vkit.Must(err)
				m := l.name()
				for j := 0; j <= l.More; j++ {
					want[m] = append(want[m], v)
				}
				if k.End == 2 {
					lossy[m] = true
				}
			} else {
				bad++
				// what was read before a reset may be the beginning of a line
				if f := bytes.Split(l.B, []byte{' '}); k.End == 2 && len(f) > 3 {
					if v, err := strconv.ParseFloat(string(f[1]), 64); err == nil {
						for j := 0; j <= l.More; j++ {
							want[string(f[0])] = append(want[string(f[0])], v)
						}
						lossy[string(f[0])] = true
					}
				}
			}
		}
		if k.End == 1 && len(k.Lines) > 0 {
			// once the last line has been observed the others have been read:
			// the end of a line that is still under way when the listener
			// stops may be missing
			m := fmt.Sprintf("last%d", ci)
			b = append(b, m+" 1 0\n"...)
			want[m] = append(want[m], 1)
		}
		if k.NoTerm {
			b = bytes.TrimSuffix(b, []byte{'\n'})
		}
		streams[ci] = b
	}
	want.sort()
	conns := make([]*net.TCPConn, len(c.Conns))
	defer func() {
		for _, c := range conns {
			if c != nil {
				c.Close()
			}
		}
	}()
	errs := make([]error, len(c.Conns))
	var wg sync.WaitGroup
	for i := range c.Conns {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			conn, err := net.DialTimeout("tcp", r.addr, 20*time.Second)
			if err != nil {
				errs[i] = fmt.Errorf("connecting: %v", err)
				return
			}
			conns[i] = conn.(*net.TCPConn)
			k, b := c.Conns[i], streams[i]
			conn.SetDeadline(time.Now().Add(30 * time.Second))
			for j := 0; len(b) > 0; j++ {
				n := len(b)
				if len(k.Cuts) > 0 && j < 200 {
					if s := k.Cuts[j%len(k.Cuts)]; s < n {
						n = s
					}
				}
				if _, err := conn.Write(b[:n]); err != nil {
					errs[i] = fmt.Errorf("the connection was dropped while sending: %v", err)
					return
				}
				b = b[n:]
				if k.Pause && j < 20 {
					time.Sleep(50 * time.Microsecond)
				}
			}
			if k.Over > 0 {
				// the connection may be dropped for this, no other may
				conn.Write(bytes.Repeat([]byte{'l'}, k.Over))
			}
			switch k.End {
			case 0:
				conns[i].CloseWrite()
				// the other side closes once it has read everything
				io.Copy(io.Discard, conn)
			case 2:
				conns[i].SetLinger(0)
				conn.Close()
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	var d string
	for i := 0; i < 5000; i++ {
		got, err := contents(r.w)
		if err != nil {
			return err
		}
		if d = diff(got, want, lossy); d == "" {
			break
		}
		if i > 20 {
			time.Sleep(time.Millisecond)
		}
	}
	if d != "" {
		return errors.New(d)
	}
	// the connections still open go on, and there can be new ones
	over := false
	for _, k := range c.Conns {
		over = over || k.Over > 0
	}
	if over {
		fresh, err := net.DialTimeout("tcp", r.addr, 20*time.Second)
		if err != nil {
			return fmt.Errorf("connecting after an overlong line: %v", err)
		}
		defer fresh.Close()
		for i, k := range append(c.Conns[:len(c.Conns):len(c.Conns)], Conn{End: 1}) {
			if k.End != 1 {
				continue
			}
			var conn net.Conn = fresh
			if i < len(c.Conns) {
				conn = conns[i]
			}
			m := fmt.Sprintf("again%d", i)
			if _, err := conn.Write([]byte(m + " 2 0\n")); err != nil {
				return fmt.Errorf("connection %d was dropped after an overlong line on another: %v", i, err)
			}
			want[m] = append(want[m], 2)
		}
		for i := 0; i < 5000; i++ {
			got, err := contents(r.w)
			if err != nil {
				return err
			}
			if d = diff(got, want, lossy); d == "" {
				break
			}
			time.Sleep(time.Millisecond)
		}
		if d != "" {
			return fmt.Errorf("after an overlong line on one connection: %s", d)
		}
		x.Label("overlong lines")
	}
	r.cancel()
	select {
	case err := <-r.done:
		if err != nil && !errors.Is(err, context.Canceled) {
			return fmt.Errorf("told to stop, the listener returned %v", err)
		}
	case <-time.After(20 * time.Second):
		return fmt.Errorf("the listener did not stop when told to, with %d connections made", len(c.Conns))
	}
	got, err := contents(r.w)
	if err != nil {
		return err
	}
	if d := diff(got, want, lossy); d != "" {
		return fmt.Errorf("after stopping: %s", d)
	}
	// its port is free again and its connections are closed
	l, err := net.Listen("tcp", r.addr)
	if err != nil {
		return fmt.Errorf("the port is still taken after the listener stopped: %v", err)
	}
	l.Close()
	idle := 0
	for i, k := range c.Conns {
		if k.End == 1 {
			idle++
			conns[i].SetDeadline(time.Now().Add(20 * time.Second))
			if _, err := conns[i].Read(make([]byte, 1)); err == nil || errors.Is(err, os.ErrDeadlineExceeded) {
				return fmt.Errorf("a connection is still open after the listener stopped: %v", err)
			}
		}
	}
	x.LabelIf(idle > 0, "stopped with connections open")
	x.LabelIf(c.Idle > 0, "many other connections")
	x.LabelIf(len(lossy) > 0, "connections reset")
	x.LabelIf(len(c.Conns) > 1, "several connections")
	x.LabelN("good lines", good)
	x.LabelN("malformed lines", bad)
	if good > 0 && bad > 0 {
		x.NonTrivial()
	}
	return nil
}

// Busy is a listener whose address is taken.
type Busy struct{ N int }

func busy(x *vkit.Ctx, c Busy) error {
	l, err := net.Listen("tcp", host+":0")
	vkit.Must(err)
	defer l.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := make(chan error, 1)
	go func() { done <- graphite.New(l.Addr().String()).Run(ctx, data.NewWriter(fakedist.New())) }()
	select {
	case err := <-done:
		if err == nil {
			return fmt.Errorf("listening on a taken address ended without an error")
		}
	case <-time.After(20 * time.Second):
		return fmt.Errorf("listening on a taken address did not fail")
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P16",
		Rule: "up to four concurrent connections, each sending up to 20 drawn lines (well-formed, bad values, non-finite values, wrong field counts, binary junk, long names) in drawn packet sizes and then closing, staying open or resetting, sometimes with up to 300 more connections open that send nothing or an unfinished line; the writer's values compared exactly, before and after the listener is stopped; " +
			"non-trivial: both well-formed and malformed lines sent",
		Assumptions: []string{"lines are at most 64 KiB, as the scanner documents", "fields are separated by exactly one space; values and timestamps are decimal, lines that strict and lenient readers judge differently are not generated", "values of a connection the client resets may be lost"},
		HangS:       60,
		Init: func(string) {
			p := os.Getpid()
			host = fmt.Sprintf("127.%d.%d.%d", 1+p>>14&63, p>>7&127, 1+p&127)
		},
	},
		vkit.P("lines", 5000, 120000, gen, run),
		vkit.P("taken", 8, 40, func(t *rapid.T) Busy { return Busy{rapid.IntRange(0, 100).Draw(t, "n")} }, busy),
	)
}
