package key

import (
	"github.com/vivint/rothko/draw"
	zz "github.com/vivint/rothko/internal/zzverif"
)

// ZZ_C26_key draws the palette next to the heat map, the first color at the
// bottom and the last one at the top.
//
//zz:cfg native=1 reach=new,old
//zz:bounds keys 1..3 x 1..6, 1..5 arbitrary colors, on no canvas, one of any size 0..4 x 0..7
func ZZ_C26_key() {
	w, h := 1+zz.Choose("w", 3), 1+zz.Choose("h", 6)
	pal := make([]draw.Color, 1+zz.Choose("p", 5))
	for i := range pal {
		pal[i] = draw.Color{R: zz.Byte("r"), G: zz.Byte("g"), B: zz.Byte("b")}
	}

	var canvas *draw.RGB
	if zz.Bool("canvas") {
		canvas = draw.NewRGB(zz.Choose("cw", 5), zz.Choose("ch", 8))
	}
	out := Draw(canvas, Options{Colors: pal, Height: h, Width: w})
	ow, oh := out.Size()
	if canvas != nil && canvas.Width >= w && canvas.Height >= h {
		zz.Assert(out == canvas, "a canvas large enough is drawn on")
		zz.Reach("old")
	} else {
		zz.Assert(ow == w && oh == h, "a canvas of the right size is made")
		zz.Reach("new")
	}

	for y := 0; y < oh; y++ {
		for x := 0; x < ow; x++ {
			raw := out.Raw(x, y)
			if x >= w || y >= h {
				zz.Assert(raw[0] == 255 && raw[1] == 255 && raw[2] == 255, "nothing outside the key is painted")
				continue
			}
			i := 0
			if h > 1 {
				i = (h - 1 - y) * (len(pal) - 1) / (h - 1)
			}
			zz.Assert(raw[0] == pal[i].R && raw[1] == pal[i].G && raw[2] == pal[i].B && raw[3] == 255,
				"the key shows the palette from bottom to top")
		}
	}
}
