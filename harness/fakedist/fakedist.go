// Package fakedist is a distribution that remembers every value it was fed.
package fakedist

import (
	"encoding/binary"
	"errors"
	"math"
	"runtime"
	"sync/atomic"

	"github.com/vivint/rothko/dist"
)

// Kind of these distributions.
const Kind = "zz-exact"

// Params creates them. Fail, when set, may refuse the n'th creation (from 0).
type Params struct {
	Fail func(n int64) bool
	news *int64
	// Misuse counts calls into one distribution overlapping each other.
	Misuse *int64
	// Slow makes each call take several scheduler steps.
	Slow int
}

// New makes usable params.
func New() *Params { return &Params{news: new(int64), Misuse: new(int64)} }

// Kind implements dist.Params.
func (p *Params) Kind() string { return Kind }

// ErrRefused is what New returns when Fail says so.
var ErrRefused = errors.New("refused to create")

// New implements dist.Params.
func (p *Params) New() (dist.Dist, error) {
	n := atomic.AddInt64(p.news, 1) - 1
	if p.Fail != nil && p.Fail(n) {
		return nil, ErrRefused
	}
	return &Dist{p: p}, nil
}

// Unmarshal implements dist.Params.
func (p *Params) Unmarshal(b []byte) (dist.Dist, error) {
	v, err := Decode(b)
	if err != nil {
		return nil, err
	}
	return &Dist{p: p, Vals: v}, nil
}

// Dist is the distribution.
type Dist struct {
	p    *Params
	busy int32
	Vals []float64
}

func (d *Dist) enter() {
	if !atomic.CompareAndSwapInt32(&d.busy, 0, 1) {
		atomic.AddInt64(d.p.Misuse, 1)
	}
	for i := 0; i < d.p.Slow; i++ {
		runtime.Gosched()
	}
}
func (d *Dist) leave() { atomic.StoreInt32(&d.busy, 0) }

func (d *Dist) Kind() string { return Kind }
func (d *Dist) Len() int64 {
	d.enter()
	defer d.leave()
	return int64(len(d.Vals))
}
func (d *Dist) Observe(v float64) {
	d.enter()
	defer d.leave()
	d.Vals = append(d.Vals, v)
}
func (d *Dist) Query(x float64) float64 { return 0 }
func (d *Dist) CDF(x float64) float64   { return 0 }
func (d *Dist) Marshal(buf []byte) []byte {
	d.enter()
	defer d.leave()
	buf = append(buf, 'Z')
	for _, v := range d.Vals {
		buf = binary.BigEndian.AppendUint64(buf, math.Float64bits(v))
	}
	return append(buf, 'E')
}

// Decode gives the values back.
func Decode(b []byte) ([]float64, error) {
	if len(b) < 2 || (len(b)-2)%8 != 0 || b[0] != 'Z' || b[len(b)-1] != 'E' {
		return nil, errors.New("not an encoding of this distribution")
	}
	var out []float64
	for b = b[1 : len(b)-1]; len(b) > 0; b = b[8:] {
		out = append(out, math.Float64frombits(binary.BigEndian.Uint64(b)))
	}
	return out, nil
}
