// P26: axes, keys, observation strips and graphs stay inside their canvas and
// show what they must.
package main

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"image/color"
	"math"
	"math/rand"
	"time"
	_ "time/tzdata"

	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/axis"
	"github.com/vivint/rothko/draw/colors"
	"github.com/vivint/rothko/draw/graph"
	"github.com/vivint/rothko/draw/iosevka"
	"github.com/vivint/rothko/draw/key"
	"github.com/vivint/rothko/draw/observations"
	"github.com/zeebo/float16"
	"golang.org/x/image/font"
	"golang.org/x/image/font/basicfont"
	"golang.org/x/image/math/fixed"
	"pgregory.net/rapid"
)

var ctx = context.Background()

// Place says which canvas is handed over.
type Place struct {
	Kind       string // nil, exact, larger, view, small
	X, Y, R, B int    // of a view in its image, or the surplus of a larger one
}

func genPlace(t *rapid.T) Place {
	return Place{
		Kind: rapid.SampledFrom([]string{"nil", "exact", "larger", "view", "view", "small"}).Draw(t, "place"),
		X:    rapid.IntRange(0, 9).Draw(t, "px"), Y: rapid.IntRange(0, 9).Draw(t, "py"),
		R: rapid.IntRange(0, 40).Draw(t, "pr"), B: rapid.IntRange(0, 40).Draw(t, "pb"),
	}
}

// stage makes the canvas of w by h, and a function comparing the outcome of
// drawing on it with a reference picture.
func (p Place) stage(w, h int) (canvas *draw.RGB, judge func(out *draw.RGB, ref *picture) error) {
	img := draw.NewRGB(0, 0)
	switch p.Kind {
	case "nil":
	case "exact":
		img = draw.NewRGB(w, h)
		canvas = img
	case "larger":
		img = draw.NewRGB(w+p.R, h+p.B)
		canvas = img
	case "view":
		img = draw.NewRGB(w+p.X+p.R, h+p.Y+p.B)
		canvas = img.View(p.X, p.Y, w, h)
	case "small":
		sw, sh := w, h-1-p.B
		if p.X%2 == 0 {
			sw, sh = w-1-p.R, h+p.B
		}
		img = draw.NewRGB(max(sw, 0), max(sh, 0))
		canvas = img
	}
	// a light pattern, so that ink shows on it
	for i := range img.Pix {
		img.Pix[i] = byte(200 + i*131%55)
		if i%4 == 3 {
			img.Pix[i] = 255
		}
	}
	before := append([]byte{}, img.Pix...)
	fresh := p.Kind == "nil" || p.Kind == "small" && (img.Width < w || img.Height < h)
	return canvas, func(out *draw.RGB, ref *picture) error {
		ow, oh := out.Size()
		if ow < w || oh < h {
			return fmt.Errorf("returned a canvas of %dx%d, measured %dx%d", ow, oh, w, h)
		}
		ox, oy, pix, stride, iw, ih := 0, 0, out.Pix, out.Stride, ow, oh
		base := func(i int) []byte { return []byte{255, 255, 255, 255} }
		if fresh {
			if !bytes.Equal(img.Pix, before) {
				return fmt.Errorf("a canvas too small to be drawn on was changed")
			}
		} else {
			pix, stride, iw, ih = img.Pix, img.Stride, img.Width, img.Height
			base = func(i int) []byte { return before[i:][:4] }
			if p.Kind == "view" {
				ox, oy = p.X, p.Y
			}
			if &out.Pix[0] != &img.Pix[0] {
				return fmt.Errorf("a canvas large enough was not drawn on")
			}
		}
		// the canvas, its image and its raw pixels are the same
		im := out.AsImage()
		if r := im.Bounds(); r != image.Rect(0, 0, ow, oh) {
			return fmt.Errorf("the image of a canvas of %dx%d is %v", ow, oh, r)
		}
		for _, k := range [][2]int{{0, 0}, {ow - 1, 0}, {0, oh - 1}, {ow - 1, oh - 1}, {ow / 2, oh / 3}} {
			if ow == 0 || oh == 0 {
				break
			}
			at := im.PixOffset(k[0], k[1])
			if raw := out.Raw(k[0], k[1]); len(raw) != 4 || &raw[0] != &im.Pix[at] || &raw[0] != &pix[(k[1]+oy)*stride+(k[0]+ox)*4] {
				return fmt.Errorf("the raw pixel %v is another one than in the image", k)
			}
		}
		for y := 0; y < ih; y++ {
			for x := 0; x < iw; x++ {
				i := y*stride + 4*x
				got := pix[i:][:4]
				vx, vy := x-ox, y-oy
				inside := vx >= 0 && vy >= 0 && vx < ow && vy < oh
				want := base(i)
				if inside {
					want = ref.over(vx, vy, want)
				}
				// every text that is drawn rounds for itself
				tol := max(ref.tol, len(ref.ink[[2]int{vx, vy}]))
				for k := 0; k < 4; k++ {
					if d := int(got[k]) - int(want[k]); d > tol || d < -tol {
						what := "must be"
						if !inside {
							what = "is outside of the canvas and was"
						}
						return fmt.Errorf("pixel (%d, %d) is %v, %s %v (canvas %dx%d, measured %dx%d)", vx, vy, got, what, want, ow, oh, w, h)
					}
				}
			}
		}
		return nil
	}
}

// picture is a reference picture on a transparent ground: solid pixels, and
// ink on top of them.
type picture struct {
	solid map[[2]int]color.RGBA
	ink   map[[2]int][]uint8 // of every text that touches the pixel
	texts [][4]int           // boxes of the texts
	tol   int
}

func newPicture() *picture {
	return &picture{solid: map[[2]int]color.RGBA{}, ink: map[[2]int][]uint8{}, tol: 1}
}

func (p *picture) set(x, y int, r, g, b uint8) {
	p.solid[[2]int{x, y}] = color.RGBA{r, g, b, 255}
	delete(p.ink, [2]int{x, y})
}

// text draws with the font's own masks.
func (p *picture) text(f font.Face, x, y int, s string) {
	m := image.NewAlpha(image.Rect(x-20, y-40, x+20*len(s)+40, y+40))
	d := font.Drawer{Dst: m, Src: image.Opaque, Face: f, Dot: fixed.P(x, y)}
	d.DrawString(s)
	r := m.Bounds()
	for yy := r.Min.Y; yy < r.Max.Y; yy++ {
		for xx := r.Min.X; xx < r.Max.X; xx++ {
			if a := m.AlphaAt(xx, yy).A; a > 0 {
				p.ink[[2]int{xx, yy}] = append(p.ink[[2]int{xx, yy}], a)
			}
		}
	}
}

// add puts another picture onto this one.
func (p *picture) add(o *picture, dx, dy, w, h int) {
	in := func(k [2]int) bool { return k[0] >= 0 && k[1] >= 0 && k[0] < w && k[1] < h }
	for k, v := range o.solid {
		if in(k) {
			p.set(k[0]+dx, k[1]+dy, v.R, v.G, v.B)
		}
	}
	for k, v := range o.ink {
		if in(k) {
			at := [2]int{k[0] + dx, k[1] + dy}
			p.ink[at] = append(p.ink[at], v...)
		}
	}
}

func (p *picture) over(x, y int, base []byte) []byte {
	out := append([]byte{}, base...)
	if c, ok := p.solid[[2]int{x, y}]; ok {
		out = []byte{c.R, c.G, c.B, 255}
	}
	for _, a := range p.ink[[2]int{x, y}] {
		for k := 0; k < 3; k++ {
			out[k] = byte(int(out[k]) * (255 - int(a)) / 255)
		}
	}
	return out
}

// ---------------------------------------------------------------- axes

type Label struct {
	Pos  float64
	Text string
}

type ACase struct {
	Length    int
	Vertical  bool
	Flip      bool
	DontBleed bool
	Face      int
	Labels    []Label
	Place     Place
}

var faces = []*basicfont.Face{iosevka.Iosevka, basicfont.Face7x13}

func genAxis(t *rapid.T) ACase {
	c := ACase{
		Length:   rapid.OneOf(rapid.SampledFrom([]int{1, 2, 12, 13}), rapid.IntRange(1, 400)).Draw(t, "length"),
		Vertical: rapid.Bool().Draw(t, "vertical"), Flip: rapid.Bool().Draw(t, "flip"), DontBleed: rapid.Bool().Draw(t, "dontbleed"),
		Face:  rapid.IntRange(0, len(faces)-1).Draw(t, "face"),
		Place: genPlace(t),
	}
	n := rapid.IntRange(0, 12).Draw(t, "n")
	pos := 0.0
	for i := 0; i < n; i++ {
		var l Label
		switch rapid.IntRange(0, 4).Draw(t, "lk") {
		case 0:
			l.Pos = rapid.SampledFrom([]float64{0, 1, 0.5, math.Nextafter(1, 0)}).Draw(t, "pos")
		case 1:
			l.Pos = rapid.Float64Range(0, 1).Draw(t, "pos")
		default: // in increasing order
			pos = math.Min(1, pos+rapid.Float64Range(0, 0.3).Draw(t, "step"))
			l.Pos = pos
		}
		l.Text = rapid.SampledFrom([]string{"0.00", "1.23e+04", "a", "12/31 @ 23:59", "gjpqy|_", "é√", "a label much longer than the others"}).Draw(t, "text")
		c.Labels = append(c.Labels, l)
	}
	return c
}

// axisRef is the picture of an axis.
func axisRef(c ACase, face font.Face, width int) *picture {
	p := newPicture()
	size := func(s string) (w, top, bottom int) {
		b, _ := font.BoundString(face, s)
		return (b.Max.X - b.Min.X).Ceil(), b.Min.Y.Ceil(), b.Max.Y.Ceil()
	}
	if c.Vertical {
		fx := func(x int) int {
			if c.Flip {
				return width - 1 - x
			}
			return x
		}
		for y := 0; y < c.Length; y++ {
			p.set(fx(0), y, 0, 0, 0)
		}
		for _, l := range c.Labels {
			for i := 1; i <= 10; i++ {
				p.set(fx(i), int(float64(c.Length-1)*l.Pos), 0, 0, 0)
			}
		}
		drawn, prev := false, 0
		for _, l := range c.Labels {
			y := int(float64(c.Length-1) * l.Pos)
			w, top, _ := size(l.Text)
			base := y - top
			if c.DontBleed && base > c.Length || drawn && y < prev+2 {
				continue
			}
			drawn, prev = true, base
			x := 13
			if c.Flip {
				x = width - 13 - w
			}
			p.text(face, x, base, l.Text)
			p.texts = append(p.texts, [4]int{x, y, x + w, base})
		}
		return p
	}
	for x := 0; x < c.Length; x++ {
		p.set(x, 0, 0, 0, 0)
	}
	drawn, prev := false, 0
	for _, l := range c.Labels {
		x := int(float64(c.Length-1) * l.Pos)
		w, top, bottom := size(l.Text)
		for i := 1; i <= 10; i++ {
			p.set(x, i, 0, 0, 0)
		}
		at := x
		if c.DontBleed && at+w > c.Length {
			at = c.Length - w
		}
		if drawn && at <= prev+10 {
			continue
		}
		drawn, prev = true, at+w
		for i := 11; i <= 13; i++ {
			p.set(x, i, 0, 0, 0)
		}
		p.text(face, at, 13-top, l.Text)
		p.texts = append(p.texts, [4]int{at, 13, at + w, 13 - top + bottom})
	}
	return p
}

func runAxis(x *vkit.Ctx, c ACase) error {
	face := faces[c.Face]
	opts := axis.Options{Face: face, Vertical: c.Vertical, Length: c.Length, Flip: c.Flip, DontBleed: c.DontBleed}
	for _, l := range c.Labels {
		opts.Labels = append(opts.Labels, axis.Label{Position: l.Pos, Text: l.Text})
	}
	m := axis.Measure(ctx, opts)
	if c.Vertical && m.Height < c.Length || !c.Vertical && m.Width < c.Length {
		return fmt.Errorf("an axis of length %d measures %dx%d", c.Length, m.Width, m.Height)
	}
	// the measurements do not depend on what happens to the labels afterwards
	for i := range opts.Labels {
		opts.Labels[i] = axis.Label{Position: 0.25, Text: "changed"}
	}
	ref := axisRef(c, face, m.Width)
	for _, b := range ref.texts {
		wide := b[2]-b[0] > c.Length && c.DontBleed && !c.Vertical
		if (b[0] < 0 || b[2] > m.Width) && !wide || b[1] < 0 || b[3] > m.Height {
			return fmt.Errorf("a text at %v is not inside of the measured %dx%d", b, m.Width, m.Height)
		}
	}
	for k := range ref.solid {
		if k[0] < 0 || k[1] < 0 || k[0] >= m.Width || k[1] >= m.Height {
			return fmt.Errorf("line at %v is not inside of the measured %dx%d", k, m.Width, m.Height)
		}
	}
	for i := 0; i < 2; i++ {
		canvas, judge := c.Place.stage(m.Width, m.Height)
		if err := judge(m.Draw(ctx, canvas), ref); err != nil {
			return fmt.Errorf("drawing %d: %v", i, err)
		}
	}
	// without measuring first
	for i, l := range c.Labels {
		opts.Labels[i] = axis.Label{Position: l.Pos, Text: l.Text}
	}
	_, judge := Place{Kind: "nil"}.stage(m.Width, m.Height)
	if err := judge(axis.Draw(ctx, opts), ref); err != nil {
		return fmt.Errorf("drawing without measuring: %v", err)
	}
	x.LabelIf(len(ref.texts) < len(c.Labels), "labels left out")
	x.LabelIf(c.Vertical, "vertical")
	x.Label("canvas " + c.Place.Kind)
	if len(ref.texts) > 1 && len(ref.texts) < len(c.Labels) {
		x.NonTrivial()
	}
	return nil
}

// ---------------------------------------------------------------- keys

type KCase struct {
	W, H, Colors int
	Place        Place
}

func palette(n int) (out []draw.Color) {
	if n == 0 {
		return colors.Viridis
	}
	for i := 0; i < n; i++ {
		out = append(out, draw.Color{R: uint8(i), G: uint8(100 + i/2), B: uint8(i * 37)})
	}
	return out
}

func keyRef(w, h int, pal []draw.Color) *picture {
	p := newPicture()
	for y := 0; y < h; y++ {
		i := 0
		if h > 1 {
			i = (h - 1 - y) * (len(pal) - 1) / (h - 1)
		}
		for x := 0; x < w; x++ {
			p.set(x, y, pal[i].R, pal[i].G, pal[i].B)
		}
	}
	p.tol = 0
	return p
}

func runKey(x *vkit.Ctx, c KCase) error {
	pal := palette(c.Colors)
	canvas, judge := c.Place.stage(c.W, c.H)
	out := key.Draw(canvas, key.Options{Colors: pal, Width: c.W, Height: c.H})
	if c.H > 1 && len(pal) > 1 {
		x.NonTrivial()
	}
	return judge(out, keyRef(c.W, c.H, pal))
}

// ---------------------------------------------------------------- strips

type OCase struct {
	W, H  int
	Cols  []Col
	Place Place
}

type Col struct {
	X, W int
	Rate float64
	V    float64 // value of the data, for graphs
	N    int
}

func genCols(t *rapid.T, w int) (out []Col) {
	x := rapid.IntRange(-2, 4).Draw(t, "x0")
	for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
		c := Col{X: x, W: rapid.IntRange(1, max(2, w/4)).Draw(t, "cw"),
			Rate: rapid.OneOf(rapid.SampledFrom([]float64{0, 1, 1e-9, 1e12}), rapid.Float64Range(0, 1000)).Draw(t, "rate"),
			V:    rapid.Float64Range(-1, 2).Draw(t, "v"), N: rapid.IntRange(1, 40).Draw(t, "nd")}
		if rapid.IntRange(0, 7).Draw(t, "odd") == 7 {
			c.X = rapid.IntRange(-5, w+5).Draw(t, "ox")
		}
		out = append(out, c)
		x = c.X + c.W
		if rapid.IntRange(0, 3).Draw(t, "gap") == 0 {
			x += rapid.IntRange(1, 6).Draw(t, "g")
		}
	}
	return out
}

func obsRef(cols []Col, w, h int) *picture {
	p := newPicture()
	b, _ := font.BoundString(iosevka.Iosevka, "obs/sec: 0.00e-00")
	lh, lw := (b.Max.Y - b.Min.Y).Ceil(), (b.Max.X - b.Min.X).Ceil()
	most, at := 0.0, 0
	for _, c := range cols {
		if c.Rate > most {
			most, at = c.Rate, c.X
		}
	}
	for _, c := range cols {
		g := uint8(255)
		if most > 0 {
			g = 255 - uint8(c.Rate/most*255)
		}
		for x := max(c.X, 0); x < min(c.X+c.W, w); x++ {
			for y := 0; y < h; y++ {
				p.set(x, y+lh+2, g, g, g)
			}
		}
	}
	p.text(iosevka.Iosevka, max(0, min(at, w-lw)), -b.Min.Y.Ceil(), fmt.Sprintf("obs/sec: %#.3g", most))
	return p
}

func drawCols(cols []Col) (out []draw.Column) {
	for _, c := range cols {
		col := draw.Column{X: c.X, W: c.W, ObsSec: c.Rate}
		for i := 0; i < c.N; i++ {
			col.Data = append(col.Data, c.V+float64(i)*0.05)
		}
		out = append(out, col)
	}
	return out
}

func runObs(x *vkit.Ctx, c OCase) error {
	m := observations.Measure(ctx, observations.Options{Face: iosevka.Iosevka, Width: c.W, Height: c.H})
	if m.Width < c.W || m.Height < c.H {
		return fmt.Errorf("a strip of %dx%d measures %dx%d", c.W, c.H, m.Width, m.Height)
	}
	canvas, judge := c.Place.stage(m.Width, m.Height)
	ref := obsRef(c.Cols, c.W, c.H)
	x.LabelIf(c.W < 102, "narrower than the label")
	zero := true
	for _, col := range c.Cols {
		zero = zero && col.Rate == 0
	}
	x.LabelIf(zero, "no observations")
	if len(c.Cols) > 1 && !zero {
		x.NonTrivial()
	}
	if err := judge(m.Draw(ctx, drawCols(c.Cols), canvas), ref); err != nil {
		return err
	}
	_, judge = Place{Kind: "nil"}.stage(m.Width, m.Height)
	if err := judge(observations.Draw(ctx, drawCols(c.Cols), observations.Options{Face: iosevka.Iosevka, Width: c.W, Height: c.H}), ref); err != nil {
		return fmt.Errorf("drawing without measuring: %v", err)
	}
	return nil
}

// ---------------------------------------------------------------- graphs

type GCase struct {
	W, H, Padding int
	Now           int64
	Dur           time.Duration
	Vals          []float64 // of the earliest distribution; none: no distribution
	Cols          []Col
	Colors        int
	Place         Place
	Zone          string `json:",omitempty"` // the time zone of the program; empty: UTC
}

func genGraph(t *rapid.T) GCase {
	c := GCase{
		W:       rapid.OneOf(rapid.IntRange(-3, 120), rapid.IntRange(90, 450), rapid.IntRange(150, 400)).Draw(t, "w"),
		H:       rapid.OneOf(rapid.IntRange(-3, 60), rapid.IntRange(45, 250), rapid.IntRange(100, 250)).Draw(t, "h"),
		Padding: rapid.SampledFrom([]int{0, 0, 1, 7}).Draw(t, "padding"),
		Now: rapid.OneOf(rapid.SampledFrom([]int64{0, 1, -1, math.MaxInt64, math.MinInt64, 3600e9, 1530000000e9}),
			rapid.Int64Range(1530000000e9, 1540000000e9), rapid.Int64()).Draw(t, "now"),
		Dur: time.Duration(rapid.OneOf(rapid.SampledFrom([]int64{0, 1, -1, math.MinInt64, math.MaxInt64, 3600e9, 86400e9, 30 * 86400e9, 1e9}),
			rapid.Int64Range(1, 400*3600e9), rapid.Int64Range(1, 3000*86400e9)).Draw(t, "dur")),
		Colors: rapid.SampledFrom([]int{0, 0, 2, 5}).Draw(t, "colors"),
		Place:  genPlace(t),
		Zone:   rapid.SampledFrom([]string{"", "", "America/New_York", "Asia/Kathmandu", "Pacific/Chatham"}).Draw(t, "zone"),
	}
	if rapid.IntRange(0, 5).Draw(t, "noearliest") > 0 {
		scale := rapid.SampledFrom([]float64{1, 1e-9, 12345, 1e9}).Draw(t, "scale")
		for i := rapid.IntRange(1, 10).Draw(t, "nv"); i > 0; i-- {
			c.Vals = append(c.Vals, scale*rapid.Float64Range(-1, 1).Draw(t, "val"))
		}
	}
	c.Cols = genCols(t, max(1, c.W-100))
	return c
}

var units = []time.Duration{1, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24}

func num(v float64) string {
	if f, ok := float16.FromFloat64(v); ok {
		v = f.Float64()
	}
	return fmt.Sprintf("%#.3g", v)
}

func sideLabels(h int, text func(pos float64) string) (out []Label) {
	for y := 0; y <= h-30; y += 30 {
		pos := float64(y) / float64(h)
		out = append(out, Label{pos, text(pos)})
	}
	return append(out, Label{1, text(1)})
}

func runGraph(x *vkit.Ctx, c GCase) error {
	rand.Seed(1)
	zone, err := time.LoadLocation(c.Zone)
	vkit.Must(err)
	defer func(old *time.Location) { time.Local = old }(time.Local)
	time.Local = zone
	opts := graph.MeasureOptions{Now: c.Now, Duration: c.Dur, Width: c.W, Height: c.H, Padding: c.Padding}
	if len(c.Vals) > 0 {
		d, err := tdigest.Params{Compression: 100}.New()
		vkit.Must(err)
		for _, v := range c.Vals {
			d.Observe(v)
		}
		d.Query(0.5)
		opts.Earliest = d
	}
	m, ok := graph.Measure(ctx, opts)
	if !ok {
		if c.W >= 250 && c.H >= 100 {
			return fmt.Errorf("a graph of %dx%d is said to be too small", c.W, c.H)
		}
		x.Label("too small")
		return nil
	}
	if m.Width < 1 || m.Height < 1 {
		return fmt.Errorf("a graph of %dx%d has a data area of %dx%d", c.W, c.H, m.Width, m.Height)
	}
	if c.Now < 0 || c.Dur < 0 || c.Dur > 1e18 {
		// the labels of times past the limits are anybody's guess
		out := m.Draw(ctx, graph.DrawOptions{Columns: drawCols(c.Cols), Colors: palette(c.Colors)})
		if w, h := out.Size(); w < c.W+2*c.Padding || h < c.H+2*c.Padding {
			return fmt.Errorf("a graph of %dx%d padded by %d was drawn on %dx%d", c.W, c.H, c.Padding, w, h)
		}
		x.Label("odd times")
		return nil
	}

	ref, err := graphRef(c, m, opts.Earliest)
	if err != nil {
		return err
	}
	pal := palette(c.Colors)
	w, h := c.W+2*c.Padding, c.H+2*c.Padding
	for i := 0; i < 2; i++ {
		canvas, judge := c.Place.stage(w, h)
		out := m.Draw(ctx, graph.DrawOptions{Canvas: canvas, Columns: drawCols(c.Cols), Colors: pal})
		if err := judge(out, ref); err != nil {
			return fmt.Errorf("drawing %d: %v", i, err)
		}
	}
	x.LabelIf(opts.Earliest == nil, "no distribution")
	x.Label("graph on canvas " + c.Place.Kind)
	if opts.Earliest != nil && len(c.Cols) > 1 && m.Width > 20 && c.Dur > 0 {
		x.NonTrivial()
	}
	return nil
}

// graphRef is the picture of the graph, padding and all.
func graphRef(c GCase, m graph.Measured, earliest dist.Dist) (*picture, error) {
	p := newPicture()
	pal := palette(c.Colors)
	P := c.Padding

	// the parts fill the size
	rw := 0
	if earliest != nil {
		rw = m.Right.Width
	}
	if got := m.Left.Width + m.Width + 5 + 10 + rw; got != c.W {
		return nil, fmt.Errorf("the parts are %d wide, not %d", got, c.W)
	}
	if got := m.Obs.Height + m.Height + m.Bottom.Height; got != c.H {
		return nil, fmt.Errorf("the parts are %d high, not %d", got, c.H)
	}
	if m.X != P+m.Left.Width || m.Y != P+m.Obs.Height {
		return nil, fmt.Errorf("the data area is said to be at (%d, %d), the parts before it end at (%d, %d)", m.X, m.Y, P+m.Left.Width, P+m.Obs.Height)
	}
	if m.Obs.Width != m.Width {
		return nil, fmt.Errorf("the strip is %d wide, the data area %d", m.Obs.Width, m.Width)
	}

	p.add(obsRef(c.Cols, m.Width, 5), m.X, P, m.Width, m.Obs.Height)

	left := ACase{Length: m.Height, Vertical: true, Flip: true, Labels: sideLabels(m.Height, func(pos float64) string { return fmt.Sprintf("%0.2f", 1-pos) })}
	p.add(axisRef(left, iosevka.Iosevka, m.Left.Width), P, m.Y, m.Left.Width, m.Left.Height)

	if earliest != nil {
		for _, col := range drawCols(c.Cols) {
			for x := max(col.X, 0); x < min(col.X+col.W, m.Width); x++ {
				for up := 0; up < m.Height; up++ {
					i := 0
					if m.Height > 1 {
						i = up * (len(col.Data) - 1) / (m.Height - 1)
					}
					k := pal[int(earliest.CDF(col.Data[i])*float64(len(pal)-1))]
					p.set(m.X+x, m.Y+m.Height-1-up, k.R, k.G, k.B)
				}
			}
		}
		p.add(keyRef(10, m.Height, pal), m.X+m.Width+5, m.Y, 10, m.Height)
		right := ACase{Length: m.Height, Vertical: true, Labels: sideLabels(m.Height, func(pos float64) string { return num(earliest.Query(1 - pos)) })}
		p.add(axisRef(right, iosevka.Iosevka, m.Right.Width), m.X+m.Width+15, m.Y, m.Right.Width, m.Right.Height)
	}

	// the labels of time: at whole multiples of a unit
	bottom := ACase{Length: m.Width + 2, DontBleed: true}
	chunk := c.Dur / time.Duration(max(1, c.W/100))
	unit := units[0] * time.Hour
	for _, u := range units {
		if u*time.Hour < chunk {
			unit = u * time.Hour
		}
	}
	for at := c.Now - c.Now%int64(unit); at > c.Now-int64(c.Dur); at -= int64(unit) {
		l := Label{1 - float64(c.Now-at)/float64(c.Dur), time.Unix(0, at).Format("1/2 @ 15:04")}
		bottom.Labels = append([]Label{l}, bottom.Labels...)
	}
	p.add(axisRef(bottom, iosevka.Iosevka, m.Bottom.Width), m.X-1, m.Y+m.Height, m.Bottom.Width, m.Bottom.Height)
	return p, nil
}

func main() {
	vkit.Main(vkit.Opts{
		ID: "P26",
		Rule: "drawn axes (labels anywhere in any order and text), keys, strips and whole graphs of any size, time and data, drawn twice on no canvas, exact, larger and too small ones and views of larger pictures, compared pixel by pixel with a picture composed independently from the same labels and the font's own glyphs; " +
			"non-trivial: an axis with some labels left out and some drawn, a key or strip of several colours, a graph with data and columns",
		Assumptions: []string{"label positions within [0,1]; the built-in font and another fixed-width one; vertical labels may lose rows below their base line at the edge"},
	},
		vkit.P("axes", 16000, 500000, genAxis, runAxis),
		vkit.P("keys", 8000, 200000, func(t *rapid.T) KCase {
			return KCase{W: rapid.IntRange(1, 30).Draw(t, "w"), H: rapid.IntRange(1, 400).Draw(t, "h"), Colors: rapid.SampledFrom([]int{0, 1, 2, 3, 50}).Draw(t, "colors"), Place: genPlace(t)}
		}, runKey),
		vkit.P("strips", 8000, 200000, func(t *rapid.T) OCase {
			w := rapid.OneOf(rapid.IntRange(1, 120), rapid.IntRange(90, 300)).Draw(t, "w")
			return OCase{W: w, H: rapid.IntRange(1, 12).Draw(t, "h"), Cols: genCols(t, w), Place: genPlace(t)}
		}, runObs),
		vkit.P("graphs", 6000, 200000, genGraph, runGraph),
	)
}
