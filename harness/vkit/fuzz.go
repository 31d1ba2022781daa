package vkit

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"pgregory.net/rapid"
)

var fuzzing *testing.F

// Fuzz has coverage choose the bits that a sub-check (VKIT_ONLY) draws its cases
// from: it calls main, whose Main fuzzes then instead. What fails is left in
// VKIT_FUZZ_OUT as a replay file.
func Fuzz(f *testing.F, main func()) {
	fuzzing = f
	main()
}

func (p *prop[C]) fuzz(s *shard, report func(*failure)) func(*testing.T, []byte) {
	return rapid.MakeFuzz(func(t *rapid.T) {
		c := p.gen(t)
		err, raw := s.one(p.nm, c, func(x *Ctx) error { return p.exec(x, c) })
		if err == nil {
			return
		}
		_, h := err.(Harness)
		report(&failure{s.id, p.nm, err.Error(), raw, s.seed, h})
		t.Fatalf("violated: %v", err)
	})
}

func fuzzMain(o Opts, props []Prop) {
	f, out, only := fuzzing, os.Getenv("VKIT_FUZZ_OUT"), os.Getenv("VKIT_ONLY")
	if out == "" {
		f.Skip("run by ./check")
	}
	dir, err := os.MkdirTemp(out, "work")
	Must(err)
	s := &shard{
		id: o.ID, seed: uint64(envInt("VERIF_SEED", 1)), n: 1, tier: "thorough", dir: dir,
		labels: map[string]int{}, hashes: map[uint64]struct{}{}, known: map[string]int{}, perSub: map[string]int{},
		journal: filepath.Join(dir, "journal.json"),
	}
	if o.Init != nil {
		o.Init(dir)
	}
	for _, p := range props {
		if p.name() != only {
			continue
		}
		// some bits to begin with
		x := s.seed*0x9E3779B97F4A7C15 + 1
		for i := 0; i < 24; i++ {
			b := make([]byte, 1024<<uint(i%4))
			for j := range b {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
				b[j] = byte(x >> 32)
				if i%3 == 1 && j%8 > 1 { // small numbers
					b[j] = 0
				}
			}
			f.Add(b)
		}
		f.Fuzz(p.fuzz(s, func(x *failure) {
			b, _ := json.MarshalIndent(x, "", "  ")
			name := "failure.json"
			if x.Harness {
				name = "harness.json"
			}
			os.WriteFile(filepath.Join(out, name), b, 0644)
		}))
		return
	}
	panic(fmt.Sprintf("no sub-check %q", only))
}
