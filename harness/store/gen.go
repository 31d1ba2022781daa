package store

import (
	"pgregory.net/rapid"
)

// GenOpts shape generated histories.
type GenOpts struct {
	Metrics  []string
	MaxOps   int
	MinOps   int
	TooLarge bool // payloads beyond capacity
	NotLater bool // out-of-order ends
	Reopen   bool
	Reconfig bool
	PutW     int // weight of put among other ops (default 6)
	GetW     int
	MaxFiles int
	MaxCap   int
	Handles  []int
}

// GenCfg draws a configuration.
func GenCfg(t *rapid.T, o GenOpts) Cfg {
	if o.MaxFiles == 0 {
		o.MaxFiles = 3
	}
	if o.MaxCap == 0 {
		o.MaxCap = 8
	}
	h := o.Handles
	if h == nil {
		h = []int{-1, 1, 2, 3, 100}
	}
	c := Cfg{
		Size:    rapid.OneOf(rapid.Just(96), rapid.IntRange(96, 160), rapid.SampledFrom([]int{128, 256, 1024, 4096})).Draw(t, "size"),
		Cap:     rapid.IntRange(1, o.MaxCap).Draw(t, "cap"),
		Files:   rapid.IntRange(1, o.MaxFiles).Draw(t, "files"),
		Buffer:  rapid.IntRange(0, 3).Draw(t, "buffer"),
		Handles: rapid.SampledFrom(h).Draw(t, "handles"),
		Workers: rapid.IntRange(1, 3).Draw(t, "workers"),
	}
	if o.MaxCap == 8 && rapid.IntRange(0, 39).Draw(t, "widecap") == 23 {
		// a value of very many records
		c.Cap, c.Size = rapid.SampledFrom([]int{200, 300, 520}).Draw(t, "wide"), 96
	}
	return c
}

// GenLen draws a payload length around the interesting boundaries.
func GenLen(t *rapid.T, c Cfg, tooLarge bool) int {
	chunk := c.Size - Header
	max := c.Cap * chunk
	kind := rapid.IntRange(0, 9).Draw(t, "lenkind")
	switch {
	case kind < 4:
		return rapid.IntRange(0, chunk).Draw(t, "len")
	case kind < 6:
		return rapid.IntRange(0, max).Draw(t, "len")
	case kind < 8:
		k := rapid.IntRange(1, c.Cap).Draw(t, "k")
		n := k*chunk + rapid.IntRange(-1, 1).Draw(t, "off")
		if n > max && !tooLarge {
			n = max
		}
		return n
	default:
		if tooLarge {
			return max + rapid.IntRange(1, 2*chunk).Draw(t, "over")
		}
		return rapid.IntRange(0, max).Draw(t, "len")
	}
}

// GenCase draws a history. Ends are generated relative to the newest end so
// that most writes are accepted, and stay positive.
func GenCase(t *rapid.T, o GenOpts) Case {
	if o.MaxOps == 0 {
		o.MaxOps = 40
	}
	if o.PutW == 0 {
		o.PutW = 6
	}
	if o.GetW == 0 {
		o.GetW = 2
	}
	ms := o.Metrics
	if ms == nil {
		ms = []string{"m", "a.b", "a"}[:rapid.IntRange(1, 3).Draw(t, "nmetrics")]
	}
	c := Case{Cfg: GenCfg(t, o), Metrics: ms}
	cfg := c.Cfg
	base := rapid.SampledFrom([]int64{1, 1000, 1 << 40, 1530000000000000000, 1<<63 - 1 - 100000, -5000, -1530000000000000000}).Draw(t, "base")
	now := map[int]int64{}
	big := base == 1<<63-1-100000
	var kinds []string
	for i := 0; i < o.PutW; i++ {
		kinds = append(kinds, "put")
	}
	for i := 0; i < o.GetW; i++ {
		kinds = append(kinds, "get")
	}
	kinds = append(kinds, "latest")
	if o.Reopen {
		kinds = append(kinds, "reopen")
	}
	n := rapid.IntRange(o.MinOps, o.MaxOps).Draw(t, "nops")
	for i := 0; i < n; i++ {
		op := Op{K: rapid.SampledFrom(kinds).Draw(t, "op")}
		op.M = rapid.IntRange(0, len(ms)-1).Draw(t, "m")
		cur, seen := now[op.M]
		if !seen {
			cur = base
		}
		switch op.K {
		case "put":
			d := int64(rapid.IntRange(1, 1000).Draw(t, "dt"))
			op.End = cur + d
			if o.NotLater && seen {
				switch rapid.IntRange(0, 5).Draw(t, "late") {
				case 0:
					op.End = cur
				case 1:
					op.End = cur - int64(rapid.IntRange(0, 3000).Draw(t, "back"))
				case 2:
					op.End = cur + 1
				}
			}
			if op.End < 1 && base > 0 {
				op.End = 1
			}
			if big && op.End > 1<<63-2 {
				op.End = 1<<63 - 2
			}
			op.Start = op.End - int64(rapid.IntRange(0, 1000).Draw(t, "dur"))
			if op.Start < 0 && base > 0 {
				op.Start = 0
			}
			if rapid.IntRange(0, 9).Draw(t, "oddstart") == 5 {
				// a start is stored as it is, whatever it is
				op.Start = rapid.OneOf(rapid.SampledFrom([]int64{-1, -1 << 63, 1<<63 - 1, 0, 1 << 32}), rapid.Int64()).Draw(t, "start")
			}
			op.Len = GenLen(t, cfg, o.TooLarge)
			op.Fill = rapid.Byte().Draw(t, "fill")
			if op.End > cur || !seen {
				// remembered as if accepted; a too large one is not, which is fine
				now[op.M] = op.End
			}
		case "get":
			switch rapid.IntRange(0, 4).Draw(t, "q") {
			case 0:
				op.End = 1<<63 - 1
			case 1, 2, 3:
				span := cur - base + 2000
				op.End = base + int64(rapid.IntRange(0, int(span)).Draw(t, "at"))
				if op.End < 0 && base > 0 {
					op.End = 1<<63 - 1
				}
			default:
				op.End = cur
			}
			op.N = rapid.SampledFrom([]int{0, 0, 0, 2, 3, 5}).Draw(t, "limit")
			op.Len = rapid.SampledFrom([]int{0, 0, 10, 300}).Draw(t, "buf")
			switch rapid.IntRange(0, 7).Draw(t, "failq") {
			case 0:
				op.Fail = true
			case 1:
				op.Quit = true
			}
		case "latest":
			op.Len = rapid.SampledFrom([]int{0, 0, 10, 300}).Draw(t, "buf")
		case "reopen":
			if o.Reconfig && rapid.Bool().Draw(t, "reconf") {
				nc := GenCfg(t, o)
				if nc.Files < cfg.Files {
					nc.Files = cfg.Files
				}
				op.Cfg = &nc
				cfg = nc
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}
