package heatmap

import (
	"context"

	"github.com/vivint/rothko/draw"
	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzGrid is a canvas that is not an RGB.
type zzGrid struct {
	w, h int
	set  []bool
	pix  []draw.Color
}

func zzNewGrid(w, h int) *zzGrid {
	return &zzGrid{w: w, h: h, set: make([]bool, w*h), pix: make([]draw.Color, w*h)}
}

func (g *zzGrid) Size() (int, int) { return g.w, g.h }

func (g *zzGrid) Set(x, y int, c draw.Color) {
	zz.Assert(x >= 0 && x < g.w && y >= 0 && y < g.h, "nothing outside the canvas is painted")
	g.set[y*g.w+x] = true
	g.pix[y*g.w+x] = c
}

// zzSamples are samples that the map below takes as they are. They need not
// be sorted.
func zzSamples(n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		v := zz.Float64("sample")
		zz.Assume(v >= 0 && v <= 1)
		out[i] = v
	}
	return out
}

func zzPalette(n int) []draw.Color {
	out := make([]draw.Color, n)
	for i := range out {
		out[i] = draw.Color{R: zz.Byte("red"), G: uint8(i + 1), B: uint8(20 * (i + 1))}
	}
	return out
}

// zzWant is the color of the pixel in a row counted from the bottom.
func zzWant(pal []draw.Color, data []float64, r, h int) draw.Color {
	i := 0
	if h > 1 {
		i = r * (len(data) - 1) / (h - 1)
	}
	return pal[int(data[i]*float64(len(pal)-1))]
}

// zzGeometry checks columns with samples at the ends of the palette and one
// between them, at any position.
func zzGeometry(grid bool, maxw, maxh int) {
	w, h := 1+zz.Choose("w", maxw), 1+zz.Choose("h", maxh)
	x := int(zz.Byte("x")%8) - 2
	cw := int(zz.Byte("cw") % 8)
	zz.Assume(x <= w+1 && cw <= w+2)
	data := [][]float64{{0.25}, {0, 1}, {0, 0.5, 1}}[zz.Choose("n", 3)]
	zzCheck(grid, false, w, h, draw.Column{X: x, W: cw, Data: data, ObsSec: 1}, zzPalette(3))
}

// zzColors checks columns with any samples and palettes that fill the canvas.
func zzColors(grid bool, maxh, maxn, maxp int) {
	h := 1 + zz.Choose("h", maxh)
	data := zzSamples(1 + zz.Choose("n", maxn))
	pal := zzPalette(1 + zz.Choose("p", maxp))
	zzCheck(grid, true, 1, h, draw.Column{X: 0, W: 1, Data: data, ObsSec: 1}, pal)
}

func zzCheck(grid, fixed bool, w, h int, col draw.Column, pal []draw.Color) {
	x, cw, data := col.X, col.W, col.Data
	opts := Options{Colors: pal, Map: func(v float64) float64 { return v }}

	painted := func(c, r int) bool { return c >= x && c < x+cw }

	if grid {
		g := zzNewGrid(w, h)
		opts.Canvas = g
		New(opts).Draw(context.Background(), col)
		for r := 0; r < h; r++ {
			want := zzWant(pal, data, r, h)
			for c := 0; c < w; c++ {
				at := (h-1-r)*w + c
				zz.Assert(g.set[at] == painted(c, r), "exactly the pixels of the column are painted")
				if g.set[at] {
					zz.Assert(g.pix[at] == want, "a pixel has the color of its sample")
					zz.Reach("painted")
				}
			}
		}
		return
	}

	// a view somewhere in a larger picture
	const edge = 1
	back := byte(7)
	whole := draw.NewRGB(w+2*edge, h+2*edge)
	for i := range whole.Pix {
		whole.Pix[i] = back
	}
	vx, vy := edge, edge
	if !fixed {
		vx, vy = zz.Choose("vx", 2*edge+1), zz.Choose("vy", 2*edge+1)
	}
	opts.Canvas = whole.View(vx, vy, w, h)
	New(opts).Draw(context.Background(), col)
	for py := 0; py < whole.Height; py++ {
		for px := 0; px < whole.Width; px++ {
			raw := whole.Raw(px, py)
			c, r := px-vx, h-1-(py-vy)
			if c < 0 || c >= w || r < 0 || r >= h || !painted(c, r) {
				zz.Assert(raw[0] == back && raw[1] == back && raw[2] == back && raw[3] == back,
					"nothing outside the column and the canvas is painted")
				continue
			}
			want := zzWant(pal, data, r, h)
			zz.Assert(raw[0] == want.R && raw[1] == want.G && raw[2] == want.B && raw[3] == 255,
				"a pixel has the color of its sample")
			zz.Reach("painted")
		}
	}
}

// ZZ_C26_buffer draws a column anywhere on a view of a pixel buffer.
//
//zz:cfg native=1 symindex=1 reach=painted
//zz:bounds canvas 1..3 x 1..4 anywhere in a larger picture, column position -2..w+1 and width 0..w+2, 1..3 samples, palette of 3 arbitrary colors
func ZZ_C26_buffer() { zzGeometry(false, 3, 4) }

// ZZ_C26_generic draws a column anywhere on another kind of canvas.
//
//zz:cfg native=1 symindex=1 reach=painted
//zz:bounds canvas 1..3 x 1..4, column position -2..w+1 and width 0..w+2, 1..3 samples, palette of 3 arbitrary colors
func ZZ_C26_generic() { zzGeometry(true, 3, 4) }

// ZZ_C26_colors draws columns of any samples on a pixel buffer.
//
//zz:cfg native=1 symindex=1 reach=painted
//zz:bounds canvas 1 wide and 1..3 (thorough 4) high, 1..3 (thorough 4) samples anywhere in [0,1], 1..3 (thorough 5) arbitrary colors
func ZZ_C26_colors() {
	if zz.Thorough() {
		zzColors(false, 4, 4, 5)
		return
	}
	zzColors(false, 3, 3, 3)
}

// ZZ_C26_generic_colors draws columns of any samples on another canvas.
//
//zz:cfg native=1 symindex=1 reach=painted
//zz:bounds canvas 1 wide and 1..3 (thorough 4) high, 1..3 (thorough 4) samples anywhere in [0,1], 1..3 (thorough 5) arbitrary colors
func ZZ_C26_generic_colors() {
	if zz.Thorough() {
		zzColors(true, 4, 4, 5)
		return
	}
	zzColors(true, 3, 3, 3)
}

// ZZ_C26_ends draws tall columns, of which the bottom row shows the first and
// the top row the last sample, and no row an earlier one than the row below.
//
//zz:cfg native=1 loop=5000 steps=100000000 reach=done
//zz:bounds canvas 1 wide and 2..64 (thorough 300) high, 2..24 (thorough 64) samples, each with a color of its own
func ZZ_C26_ends() {
	maxh, maxn := 64, 24
	if zz.Thorough() {
		maxh, maxn = 300, 64
	}
	h, n := 2+zz.Choose("h", maxh-1), 2+zz.Choose("n", maxn-1)
	data := make([]float64, n)
	pal := make([]draw.Color, n)
	for i := range data {
		data[i] = float64(i)
		pal[i] = draw.Color{R: uint8(i), G: zz.Byte("green")}
	}
	m := draw.NewRGB(1, h)
	New(Options{Colors: pal, Canvas: m, Map: func(v float64) float64 {
		if v >= float64(n-1) {
			return 1
		}
		return (v + 0.5) / float64(n-1)
	}}).Draw(context.Background(), draw.Column{W: 1, Data: data})

	last := 0
	for r := 0; r < h; r++ {
		raw := m.Raw(0, h-1-r)
		at := int(raw[0])
		zz.Assert(at >= last && at < n && raw[1] == pal[at].G, "rows go up through the samples")
		last = at
		if r == 0 {
			zz.Assert(at == 0, "the bottom row shows the first sample")
		}
		if r == h-1 {
			zz.Assert(at == n-1, "the top row shows the last sample")
		}
	}
	zz.Reach("done")
}
