// P20: records survive encoding and are compatible on the wire.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/merge"
	"pgregory.net/rapid"
)

// Rec is a record in a form that JSON keeps exactly.
type Rec struct {
	Start, End, Obs, Merged  int64
	Dist, Kind, MinID, MaxID []byte
	Min, Max                 uint64 // bits
}

func (r Rec) record() data.Record {
	return data.Record{StartTime: r.Start, EndTime: r.End, Observations: r.Obs, Merged: r.Merged, Distribution: r.Dist, Kind: string(r.Kind),
		MinId: r.MinID, MaxId: r.MaxID, Min: math.Float64frombits(r.Min), Max: math.Float64frombits(r.Max)}
}

func same(a, b data.Record) bool {
	f := func(x, y float64) bool { return x == y || math.Float64bits(x) == math.Float64bits(y) }
	return a.StartTime == b.StartTime && a.EndTime == b.EndTime && a.Observations == b.Observations && a.Merged == b.Merged && a.Kind == b.Kind &&
		bytes.Equal(a.Distribution, b.Distribution) && bytes.Equal(a.MinId, b.MinId) && bytes.Equal(a.MaxId, b.MaxId) && f(a.Min, b.Min) && f(a.Max, b.Max)
}

func show(r data.Record) string { return fmt.Sprintf("%#v", r) }

func genInt(t *rapid.T, l string) int64 {
	switch rapid.IntRange(0, 5).Draw(t, l+"k") {
	case 0:
		return 0
	case 1:
		return rapid.Int64Range(1, 300).Draw(t, l)
	case 2:
		return rapid.SampledFrom([]int64{-1, 1 << 62, math.MaxInt64, math.MinInt64, 127, 128, 16383, 16384, 1<<28 - 1, 1 << 28, 1 << 35, 1<<56 - 1, -1 << 32}).Draw(t, l)
	case 3:
		return 1530000000000000000 + rapid.Int64Range(0, 1e15).Draw(t, l)
	}
	return rapid.Int64().Draw(t, l)
}

func genBytes(t *rapid.T, l string) []byte {
	n := rapid.SampledFrom([]int{0, 0, 1, 2, 127, 128, 129, 300}).Draw(t, l+"n")
	return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, l)
}

func genFloat(t *rapid.T, l string) uint64 {
	if rapid.Bool().Draw(t, l+"s") {
		return math.Float64bits(rapid.SampledFrom([]float64{0, 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), 5e-324, math.MaxFloat64, math.Copysign(0, -1)}).Draw(t, l))
	}
	return math.Float64bits(rapid.Float64().Draw(t, l))
}

func genRec(t *rapid.T) Rec {
	return Rec{Start: genInt(t, "start"), End: genInt(t, "end"), Obs: genInt(t, "obs"), Merged: genInt(t, "merged"),
		Dist: genBytes(t, "dist"), Kind: []byte(rapid.SampledFrom([]string{"", "tdigest", "x", "é", "\xff\x00", string(make([]byte, 130))}).Draw(t, "kind")),
		MinID: genBytes(t, "minid"), MaxID: genBytes(t, "maxid"), Min: genFloat(t, "min"), Max: genFloat(t, "max")}
}

// ---- an independent codec, from the message definition

var errBad = errors.New("malformed")

func uvar(b []byte) (uint64, []byte, error) {
	var v uint64
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			return 0, nil, errBad
		}
		if i == 9 && b[i] > 1 {
			return 0, nil, errBad
		}
		v |= uint64(b[i]&0x7f) << (7 * i)
		if b[i] < 0x80 {
			return v, b[i+1:], nil
		}
	}
	return 0, nil, errBad
}

// field reads one field; for groups, its whole content is skipped.
func field(b []byte, depth int) (num uint64, wire int, v uint64, p, rest []byte, err error) {
	if depth > 90 {
		err = errBad
		return
	}
	tag, b, err := uvar(b)
	if err != nil {
		return
	}
	num, wire = tag>>3, int(tag&7)
	if num == 0 || num > 1<<29-1 {
		err = errBad
		return
	}
	switch wire {
	case 0:
		v, rest, err = uvar(b)
	case 1:
		if len(b) < 8 {
			err = errBad
			return
		}
		v, rest = binary.LittleEndian.Uint64(b), b[8:]
	case 2:
		var n uint64
		n, b, err = uvar(b)
		if err != nil {
			return
		}
		if n > uint64(len(b)) {
			err = errBad
			return
		}
		p, rest = b[:n], b[n:]
	case 3:
		for {
			var n2 uint64
			var w2 int
			n2, w2, _, _, b, err = field(b, depth+1)
			if err != nil {
				return
			}
			if w2 == 4 {
				if n2 != num {
					err = errBad
				}
				rest = b
				return
			}
		}
	case 4:
		rest = b
	case 5:
		if len(b) < 4 {
			err = errBad
			return
		}
		rest = b[4:]
	default:
		err = errBad
	}
	return
}

func decode(b []byte) (r data.Record, err error) {
	for len(b) > 0 {
		num, wire, v, p, rest, err := field(b, 0)
		if err != nil {
			return r, err
		}
		if wire == 4 {
			return r, errBad
		}
		if num <= 10 {
			want := []int{0, 0, 0, 0, 2, 2, 1, 1, 2, 2, 0}[num]
			if wire != want {
				return r, errBad
			}
		}
		switch num {
		case 1:
			r.StartTime = int64(v)
		case 2:
			r.EndTime = int64(v)
		case 3:
			r.Observations = int64(v)
		case 4:
			r.Distribution = p
		case 5:
			r.Kind = string(p)
		case 6:
			r.Min = math.Float64frombits(v)
		case 7:
			r.Max = math.Float64frombits(v)
		case 8:
			r.MinId = p
		case 9:
			r.MaxId = p
		case 10:
			r.Merged = int64(v)
		}
		b = rest
	}
	return r, nil
}

func roundtrip(x *vkit.Ctx, c Rec) error {
	r := c.record()
	b, err := r.Marshal()
	if err != nil {
		return fmt.Errorf("%s does not encode: %v", show(r), err)
	}
	if r.Size() != len(b) {
		return fmt.Errorf("%s announces %d bytes, encodes to %d", show(r), r.Size(), len(b))
	}
	big := bytes.Repeat([]byte{0xA5}, len(b)+16)
	n, err := r.MarshalTo(big)
	if err != nil || n != len(b) || !bytes.Equal(big[:n], b) || !bytes.Equal(big[n:], bytes.Repeat([]byte{0xA5}, 16)) {
		return fmt.Errorf("%s encoded into a buffer gives %x (%v), by itself %x", show(r), big, err, b)
	}
	ref, err := decode(b)
	if err != nil || !same(ref, r) {
		return fmt.Errorf("%s encodes to %x, which is the message %s (%v)", show(r), b, show(ref), err)
	}
	var back data.Record
	if err := back.Unmarshal(b); err != nil || !same(back, r) {
		return fmt.Errorf("%s encodes and decodes to %s (%v)", show(r), show(back), err)
	}
	// a buffer that is used again does not change what was decoded
	keep, _ := decode(append([]byte{}, b...))
	for i := range b {
		b[i] ^= 0xff
	}
	if !same(back, keep) {
		return fmt.Errorf("the decoded record changed along with the buffer it was decoded from")
	}
	// nor does decoding mix with what a record held before... it merges, so
	// only fields present are replaced
	if len(c.Dist) > 0 && len(c.MinID) > 0 {
		x.NonTrivial()
	}
	return nil
}

// ---- foreign encoders

// Fld is one field as some encoder may write it.
type Fld struct {
	Num  int
	Wire int
	V    uint64
	P    []byte
	Pad  int // padding bytes of its varints
	Sub  []Fld
}

func putUvar(b []byte, v uint64, pad int) []byte {
	n := 0
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
		n++
	}
	for ; pad > 0 && n < 9; pad-- {
		b = append(b, byte(v)|0x80)
		v = 0
		n++
	}
	return append(b, byte(v))
}

func (f Fld) put(b []byte) []byte {
	b = putUvar(b, uint64(f.Num)<<3|uint64(f.Wire), f.Pad&1)
	switch f.Wire {
	case 0:
		b = putUvar(b, f.V, f.Pad)
	case 1:
		b = binary.LittleEndian.AppendUint64(b, f.V)
	case 2:
		b = append(putUvar(b, uint64(len(f.P)), f.Pad), f.P...)
	case 3:
		for _, s := range f.Sub {
			b = s.put(b)
		}
		b = putUvar(b, uint64(f.Num)<<3|4, 0)
	case 5:
		b = binary.LittleEndian.AppendUint32(b, uint32(f.V))
	}
	return b
}

func genFld(t *rapid.T, depth int) Fld {
	f := Fld{Pad: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 9}).Draw(t, "pad")}
	if depth > 0 || rapid.IntRange(0, 3).Draw(t, "unknown") == 2 {
		f.Num = rapid.SampledFrom([]int{11, 15, 16, 100, 2047, 2048, 1<<29 - 1}).Draw(t, "num")
		if depth > 0 && rapid.Bool().Draw(t, "any") {
			f.Num = rapid.IntRange(1, 20).Draw(t, "num2")
		}
		f.Wire = rapid.SampledFrom([]int{0, 1, 2, 3, 5}).Draw(t, "wire")
		if depth > 3 && f.Wire == 3 {
			f.Wire = 0
		}
	} else {
		f.Num = rapid.IntRange(1, 10).Draw(t, "num")
		f.Wire = []int{0, 0, 0, 0, 2, 2, 1, 1, 2, 2, 0}[f.Num]
	}
	switch f.Wire {
	case 0, 1, 5:
		f.V = uint64(genInt(t, "v"))
		if f.Num == 6 || f.Num == 7 {
			f.V = genFloat(t, "fv")
		}
	case 2:
		f.P = genBytes(t, "p")
	case 3:
		for i := rapid.IntRange(0, 3).Draw(t, "nsub"); i > 0; i-- {
			f.Sub = append(f.Sub, genFld(t, depth+1))
		}
	}
	return f
}

func genForeign(t *rapid.T) []Fld {
	var out []Fld
	for i := rapid.IntRange(0, 14).Draw(t, "n"); i > 0; i-- {
		out = append(out, genFld(t, 0))
	}
	return out
}

func foreign(x *vkit.Ctx, c []Fld) error {
	var b []byte
	unknown := false
	for _, f := range c {
		b = f.put(b)
		unknown = unknown || f.Num > 10
	}
	want, err := decode(b)
	vkit.Must(err)
	var got data.Record
	if err := got.Unmarshal(b); err != nil {
		return fmt.Errorf("the valid message %x is refused: %v", b, err)
	}
	if !same(got, want) {
		return fmt.Errorf("the message %x decodes to %s, it is %s", b, show(got), show(want))
	}
	x.LabelIf(unknown, "unknown fields")
	if unknown && len(c) > 3 {
		x.NonTrivial()
	}
	return nil
}

// ---- arbitrary bytes

// Raw is a message with some of its bytes replaced.
type Raw struct {
	Base  []Fld
	Cut   int // drop so many bytes of the end
	Edits []Edit
	Bytes []byte // instead of all this
}

// Edit replaces Del bytes at Pos (modulo the length) by Ins.
type Edit struct {
	Pos, Del int
	Ins      []byte
}

var nasty = [][]byte{
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},       // 2^63-1
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, // 2^64-1
	{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01}, // 2^63
	{0xf0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
	{0xff, 0xff, 0xff, 0xff, 0x07}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0x80, 0x80, 0x80, 0x80, 0x08},
	{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00},
	{0x5b}, {0x5c}, {0x5a}, {0x0b}, {0x0c}, {0x22}, {0x2a}, {0x42}, {0x4a}, {0x00}, {0x07}, {0x59}, {0x5d}, {0x31},
}

func genEdits(t *rapid.T) (out []Edit) {
	for i := rapid.IntRange(0, 4).Draw(t, "ne"); i > 0; i-- {
		e := Edit{Pos: rapid.IntRange(0, 4000).Draw(t, "pos"), Del: rapid.IntRange(0, 3).Draw(t, "del")}
		if rapid.Bool().Draw(t, "nasty") {
			e.Ins = rapid.SampledFrom(nasty).Draw(t, "ins")
		} else {
			e.Ins = rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "insb")
		}
		out = append(out, e)
	}
	return
}

func edit(b []byte, edits []Edit) []byte {
	for _, e := range edits {
		p := e.Pos % (len(b) + 1)
		d := e.Del
		if d > len(b)-p {
			d = len(b) - p
		}
		b = append(append(append([]byte{}, b[:p]...), e.Ins...), b[p+d:]...)
	}
	return b
}

func genRaw(t *rapid.T) Raw {
	if rapid.IntRange(0, 3).Draw(t, "raw") == 2 {
		var b []byte
		for i := rapid.IntRange(0, 12).Draw(t, "n"); i > 0; i-- {
			if rapid.Bool().Draw(t, "nasty") {
				b = append(b, rapid.SampledFrom(nasty).Draw(t, "bit")...)
			} else {
				b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "b")...)
			}
		}
		return Raw{Bytes: b}
	}
	r := Raw{Base: genForeign(t), Edits: genEdits(t)}
	if rapid.IntRange(0, 2).Draw(t, "cutp") == 1 {
		r.Cut = rapid.IntRange(1, 30).Draw(t, "cut")
	}
	return r
}

func arbitrary(x *vkit.Ctx, c Raw) error {
	b := c.Bytes
	if b == nil {
		for _, f := range c.Base {
			b = f.put(b)
		}
		b = edit(b, c.Edits)
		if c.Cut > len(b) {
			c.Cut = len(b)
		}
		b = b[:len(b)-c.Cut]
	}
	want, werr := decode(b)
	var got data.Record
	err := got.Unmarshal(b)
	if werr == nil {
		if err != nil {
			return fmt.Errorf("the valid message %x is refused: %v", b, err)
		}
		if !same(got, want) {
			return fmt.Errorf("the message %x decodes to %s, it is %s", b, show(got), show(want))
		}
	}
	if err != nil {
		x.Label("refused")
		x.NonTrivial()
		return nil
	}
	x.LabelIf(werr == nil, "valid")
	// whatever was decoded can be used
	if _, err := got.Marshal(); err != nil {
		return fmt.Errorf("%x decodes to a record that does not encode: %v", b, err)
	}
	use(got)
	return nil
}

// use calls everything that a stored record goes through.
func use(r data.Record) {
	d, err := load.Load(context.Background(), r)
	if err != nil {
		return
	}
	d.Query(0.5)
	d.Query(0)
	d.Query(1)
	d.CDF(0)
	d.Len()
	d.Marshal(nil)
}

// ---- distributions

// Dist is a distribution, stored and maybe damaged.
type Dist struct {
	Compression float64
	N           int
	Spread      float64
	Exact       []float64
	Edits       []Edit
	Cut         int
	Kind        string
}

func genDist(t *rapid.T) Dist {
	c := Dist{Compression: rapid.SampledFrom([]float64{1, 1.25, 5, 5, 20, 20, 33.3, 300, 300, 20000}).Draw(t, "compression"), N: rapid.SampledFrom([]int{0, 1, 2, 50, 1000}).Draw(t, "n"), Spread: rapid.SampledFrom([]float64{0, 1, 1e6, 1e30}).Draw(t, "spread"),
		Exact: rapid.SliceOfN(rapid.Float64Range(-1e300, 1e300), 0, 5).Draw(t, "exact"), Kind: "tdigest"}
	if rapid.Bool().Draw(t, "damage") {
		c.Edits = genEdits(t)
		if rapid.IntRange(0, 2).Draw(t, "head") == 1 {
			c.Edits = append(c.Edits, Edit{Pos: rapid.IntRange(4, 15).Draw(t, "hpos"), Del: 1, Ins: []byte{rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xff, 0x40}).Draw(t, "hb")}})
		}
		if rapid.IntRange(0, 2).Draw(t, "cutp") == 1 {
			c.Cut = rapid.IntRange(1, 3000).Draw(t, "cut")
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "okind") == 7 {
		c.Kind = rapid.SampledFrom([]string{"", "tdigest ", "TDIGEST", "files", "graphite", "x"}).Draw(t, "kind")
	}
	return c
}

func answers(d dist.Dist) []float64 {
	var out []float64
	for q := 0.0; q <= 1; q += 0.0625 {
		out = append(out, d.Query(q))
	}
	return out
}

func distribution(x *vkit.Ctx, c Dist) error {
	d, err := tdigest.Params{Compression: c.Compression}.New()
	if err != nil {
		return fmt.Errorf("creating with compression %v: %v", c.Compression, err)
	}
	rng := rand.New(rand.NewSource(int64(c.N)))
	lo, hi := math.Inf(1), math.Inf(-1)
	var vals []float64
	ob := func(v float64) {
		d.Observe(v)
		lo, hi = math.Min(lo, v), math.Max(hi, v)
		vals = append(vals, math.Max(-math.MaxFloat32/2, math.Min(math.MaxFloat32/2, v)))
	}
	for i := 0; i < c.N; i++ {
		ob(rng.NormFloat64() * c.Spread)
	}
	for _, v := range c.Exact {
		ob(v)
	}
	n := int64(c.N + len(c.Exact))
	if d.Len() != n {
		return fmt.Errorf("distribution of %d values says %d", n, d.Len())
	}
	b := d.Marshal([]byte("prefix"))
	if !bytes.HasPrefix(b, []byte("prefix")) {
		return fmt.Errorf("encoding a distribution does not append to the buffer")
	}
	b = b[6:]
	damaged := edit(b, c.Edits)
	if c.Cut > len(damaged) {
		c.Cut = len(damaged)
	}
	damaged = damaged[:len(damaged)-c.Cut]
	rec := data.Record{StartTime: 1, EndTime: 2, Observations: n, Distribution: damaged, Kind: c.Kind, Merged: 1}
	enc, err := rec.Marshal()
	if err != nil {
		return err
	}
	var r data.Record
	if err := r.Unmarshal(enc); err != nil {
		return err
	}
	got, err := load.Load(context.Background(), r)
	if c.Kind != "tdigest" {
		if err == nil {
			return fmt.Errorf("a record with a distribution of kind %q loads", c.Kind)
		}
		return nil
	}
	if !bytes.Equal(damaged, b) {
		x.LabelIf(err == nil, "damaged but readable")
		x.LabelIf(err != nil, "damaged and refused")
		if err == nil {
			use(r)
			_, merr := merge.Merge(context.Background(), merge.MergeOptions{Params: tdigest.Params{Compression: 5}, Records: []data.Record{r, r}})
			x.LabelIf(merr == nil, "damaged and merged")
		}
		x.NonTrivial()
		return nil
	}
	if err != nil {
		return fmt.Errorf("a stored distribution of %d values does not load: %v", n, err)
	}
	if got.Len() != n || got.Kind() != "tdigest" {
		return fmt.Errorf("a distribution of %d values loads as %s of %d values", n, got.Kind(), got.Len())
	}
	if n == 0 {
		return nil
	}
	const limit = math.MaxFloat32 / 2
	tol := 1e-5*math.Max(math.Min(math.Abs(lo), limit), math.Min(math.Abs(hi), limit)) + 1e-36
	was, now := answers(d), answers(got)
	// with distinct and similar values, loading puts every centroid back as it
	// was; otherwise those that coincide may be combined, within the accuracy
	exact := len(c.Exact) == 0 && c.Spread > 0 && c.Compression >= 2
	sort.Float64s(vals)
	for i := range was {
		if exact && !(math.Abs(was[i]-now[i]) <= tol) {
			return fmt.Errorf("quantile %d/16 of %d values is %v, stored and loaded %v", i, n, was[i], now[i])
		}
		q, v := float64(i)/16, now[i]
		below := float64(sort.SearchFloat64s(vals, v-tol)) / float64(n)
		upto := float64(sort.Search(len(vals), func(i int) bool { return vals[i] > v+tol })) / float64(n)
		rtol := 1/c.Compression + 0.02 + 1.5/float64(n)
		if c.Compression < 2 {
			rtol = 1 // a single one may stand for nearly all
		}
		if !(q >= below-rtol && q <= upto+rtol) {
			return fmt.Errorf("quantile %d/16 of %d values is stored and loaded %v, which ranks from %v to %v", i, n, v, below, upto)
		}
	}
	if n > 10 {
		x.NonTrivial()
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P20",
		Rule: "records with arbitrary field values, messages as other encoders may write them (any field order, repeated and unknown fields, padded varints, groups), mutilated messages, all compared with an independent codec; and distributions encoded, stored in a record, possibly damaged, and loaded; " +
			"non-trivial: records with byte fields, messages with unknown fields, refused or damaged input, distributions of more than ten values",
		Assumptions: []string{"the independent decoder follows the protobuf encoding rules strictly; input it refuses may be accepted"},
	},
		vkit.P("roundtrip", 20000, 600000, genRec, roundtrip),
		vkit.P("foreign", 20000, 600000, genForeign, foreign),
		vkit.P("arbitrary", 60000, 2000000, genRaw, arbitrary),
		vkit.P("distribution", 8000, 300000, genDist, distribution),
	)
}
