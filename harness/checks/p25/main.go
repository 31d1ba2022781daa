// P25: the heatmap puts each column's colours where they belong.
package main

import (
	"bytes"
	"context"
	"fmt"
	"math"

	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/colors"
	"github.com/vivint/rothko/draw/heatmap"
	"pgregory.net/rapid"
)

type Col struct {
	X, W int
	Data []float64
}

type Case struct {
	W, H    int
	X, Y    int // where the view is in its image
	R, B    int // space to the right of and below the view
	Nested  bool
	Colors  int // colours of the palette; 0: viridis
	Map     string
	Columns []Col
}

func gen(t *rapid.T) Case {
	c := Case{
		W:      rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 200)).Draw(t, "w"),
		H:      rapid.OneOf(rapid.SampledFrom([]int{1, 2, 3, 50}), rapid.IntRange(1, 120)).Draw(t, "h"),
		X:      rapid.IntRange(0, 6).Draw(t, "x"),
		Y:      rapid.IntRange(0, 6).Draw(t, "y"),
		R:      rapid.IntRange(0, 6).Draw(t, "r"),
		B:      rapid.IntRange(0, 6).Draw(t, "b"),
		Nested: rapid.Bool().Draw(t, "nested"),
		Colors: rapid.SampledFrom([]int{0, 256, 1, 2, 3, 17}).Draw(t, "colors"),
		Map:    rapid.SampledFrom([]string{"linear", "step", "zero", "one", "square"}).Draw(t, "map"),
	}
	x := rapid.IntRange(-4, 3).Draw(t, "x0")
	for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
		col := Col{X: x, W: rapid.IntRange(0, 8).Draw(t, "cw")}
		switch rapid.IntRange(0, 9).Draw(t, "odd") {
		case 9: // reaching over the edges
			col.X, col.W = rapid.IntRange(-5, c.W+5).Draw(t, "ox"), rapid.IntRange(0, c.W+10).Draw(t, "ow")
		case 8: // at the right edge
			col.X = c.W - col.W
		}
		n := rapid.SampledFrom([]int{1, 2, 3, 6, 31, c.H, c.H + 1, c.H - 1, 2*c.H + 1}).Draw(t, "nd")
		if n < 1 {
			n = 1
		}
		v := rapid.Float64Range(-0.5, 0.5).Draw(t, "v0")
		step := rapid.SampledFrom([]float64{0, 1 / float64(n), 2 / float64(n)}).Draw(t, "step")
		for j := 0; j < n; j++ {
			col.Data = append(col.Data, v)
			v += step * float64(1+(j*7+i)%3) / 2
		}
		c.Columns = append(c.Columns, col)
		x = col.X + col.W
		switch rapid.IntRange(0, 4).Draw(t, "next") {
		case 0:
			x += rapid.IntRange(1, 5).Draw(t, "gap")
		case 1:
			x -= rapid.IntRange(1, 3).Draw(t, "over")
		}
	}
	return c
}

func clamp(v float64) float64 { return math.Max(0, math.Min(1, v)) }

var maps = map[string]func(float64) float64{
	"linear": clamp,
	"step": func(v float64) float64 {
		if v < 0.4 {
			return 0
		}
		return 1
	},
	"zero":   func(float64) float64 { return 0 },
	"one":    func(float64) float64 { return 1 },
	"square": func(v float64) float64 { return clamp(v) * clamp(v) },
}

// other is a canvas that is not an RGB.
type other struct {
	w, h int
	pix  map[[2]int]draw.Color
	bad  string
}

func (o *other) Size() (int, int) { return o.w, o.h }
func (o *other) Set(x, y int, c draw.Color) {
	if x < 0 || y < 0 || x >= o.w || y >= o.h {
		o.bad = fmt.Sprintf("(%d, %d)", x, y)
		return
	}
	o.pix[[2]int{x, y}] = c
}

func run(x *vkit.Ctx, c Case) error {
	ctx := context.Background()
	palette := colors.Viridis
	if c.Colors > 0 {
		palette = nil
		for i := 0; i < c.Colors; i++ {
			palette = append(palette, draw.Color{R: uint8(i), G: uint8(255 - i), B: uint8(i * 37)})
		}
	}
	fn := maps[c.Map]

	img := draw.NewRGB(c.X+c.W+c.R, c.Y+c.H+c.B)
	for i := range img.Pix {
		img.Pix[i] = byte(i*131 + 7)
	}
	before := append([]byte{}, img.Pix...)
	view := img.View(c.X, c.Y, c.W, c.H)
	if c.Nested {
		dx, dy := c.X/2, c.Y/2
		view = img.View(dx, dy, img.Width-dx, img.Height-dy).View(c.X-dx, c.Y-dy, c.W, c.H)
	}
	gen := &other{w: c.W, h: c.H, pix: map[[2]int]draw.Color{}}

	// what the picture must be: later columns over earlier ones
	want := map[[2]int]draw.Color{}
	shared, edges := false, false
	hit := map[int]bool{}
	for _, col := range c.Columns {
		for px := col.X; px < col.X+col.W; px++ {
			if px < 0 || px >= c.W {
				edges = true
				continue
			}
			shared = shared || hit[px]
			hit[px] = true
			for up := 0; up < c.H; up++ {
				idx := 0
				if c.H > 1 {
					idx = up * (len(col.Data) - 1) / (c.H - 1)
				}
				want[[2]int{px, c.H - 1 - up}] = palette[int(fn(col.Data[idx])*float64(len(palette)-1))]
			}
		}
	}

	for _, cv := range []draw.Canvas{view, gen} {
		hm := heatmap.New(heatmap.Options{Colors: palette, Canvas: cv, Map: fn})
		for _, col := range c.Columns {
			data := append([]float64{}, col.Data...)
			hm.Draw(ctx, draw.Column{X: col.X, W: col.W, Data: data, ObsSec: 1})
			for i := range data {
				if data[i] != col.Data[i] {
					return fmt.Errorf("drawing changed the column's data at %d", i)
				}
			}
		}
	}

	if gen.bad != "" {
		return fmt.Errorf("general canvas of %dx%d: drew at %s, outside of it", c.W, c.H, gen.bad)
	}
	if len(img.Pix) != len(before) {
		return fmt.Errorf("the image's pixels changed from %d to %d bytes", len(before), len(img.Pix))
	}
	for py := 0; py < img.Height; py++ {
		for px := 0; px < img.Width; px++ {
			got := img.Pix[py*img.Stride+4*px:][:4]
			vx, vy := px-c.X, py-c.Y
			w, ok := want[[2]int{vx, vy}]
			if ok {
				if !bytes.Equal(got, []byte{w.R, w.G, w.B, 255}) {
					return fmt.Errorf("RGB canvas: pixel (%d, %d) is %v, must be %v", vx, vy, got, w)
				}
			} else if !bytes.Equal(got, before[py*img.Stride+4*px:][:4]) {
				return fmt.Errorf("RGB canvas: pixel (%d, %d) is in no column but was changed (canvas is %dx%d)", vx, vy, c.W, c.H)
			}
			if vx < 0 || vy < 0 || vx >= c.W || vy >= c.H {
				continue
			}
			g, gok := gen.pix[[2]int{vx, vy}]
			if gok != ok || g != w {
				return fmt.Errorf("general canvas: pixel (%d, %d) is %v (set: %v), must be %v (set: %v)", vx, vy, g, gok, w, ok)
			}
		}
	}
	kinds := map[draw.Color]bool{}
	for _, w := range want {
		kinds[w] = true
	}
	x.LabelIf(edges, "columns past the edges")
	x.LabelIf(shared, "overlapping columns")
	x.LabelIf(c.H == 1, "one row")
	x.LabelIf(c.Nested, "view of a view")
	if len(kinds) > 2 && len(hit) < c.W && len(c.Columns) > 1 {
		x.NonTrivial()
	}
	return nil
}

// PCase is about the palette the server uses.
type PCase struct{ I int }

func runPalette(x *vkit.Ctx, c PCase) error {
	if len(colors.Viridis) != 256 {
		return fmt.Errorf("the palette has %d colours", len(colors.Viridis))
	}
	lum := func(i int) int {
		v := colors.Viridis[i]
		return 2*int(v.R) + 5*int(v.G) + int(v.B)
	}
	if c.I > 0 {
		x.NonTrivial()
		if lum(c.I)+8 < lum(c.I-1) {
			return fmt.Errorf("colour %d of the palette is darker than colour %d", c.I, c.I-1)
		}
	}
	return nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P25",
		Rule: "columns (adjacent, apart, overlapping, empty, reaching over the edges) of drawn sorted data over palettes of 1 to 256 colours, drawn through views (also of views) of a larger image and on a general canvas, against a picture computed pixel by pixel; " +
			"non-trivial: several columns, more than two colours, and some pixel left alone",
		Assumptions: []string{"columns have at least one value; the colour scale maps into [0,1]"},
	},
		vkit.P("pictures", 200000, 1500000, gen, run),
		vkit.P("palette", 1000, 2000, func(t *rapid.T) PCase { return PCase{rapid.IntRange(0, 255).Draw(t, "i")} }, runPalette),
	)
}
