// Command plot reads the pictures that gopf contour draws: for the centre of every cell of the plane the place of its
// colour on the colour bar above the picture, in pixels. The program under test is the command line program itself.
package main

import (
	"image/color"
	"image/png"
	"math"
	"os"

	"verifharness/lib"
)

// Case is a picture of NX columns and NY rows.
type Case struct {
	Png string `json:"png"`
	NX  int    `json:"nx"`
	NY  int    `json:"ny"`
}

// Row is what the picture shows.
type Row struct {
	Case int         `json:"case"`
	Msg  string      `json:"msg"`
	Bar  int         `json:"bar"`
	At   [][]float64 `json:"at"`
	Off  float64     `json:"off"`
}

type rgb [3]float64

func main() {
	var cases []Case
	lib.Start(&cases)
	for k, c := range cases {
		r := Row{Case: k, At: [][]float64{}}
		if m := lib.Try(func() { read(c, &r) }); m != "" {
			r.Msg = m
		}
		lib.Emit(r)
	}
	lib.Done()
}

func read(c Case, r *Row) {
	f, err := os.Open(c.Png)
	if err != nil {
		r.Msg = err.Error()
		return
	}
	defer f.Close()
	img, err := png.Decode(f)
	if err != nil {
		r.Msg = err.Error()
		return
	}
	b := img.Bounds()
	w, h := b.Dx(), b.Dy()
	at := func(x, y int) rgb {
		p := color.RGBA64Model.Convert(img.At(b.Min.X+x, b.Min.Y+y)).(color.RGBA64)
		return rgb{float64(p.R) / 257, float64(p.G) / 257, float64(p.B) / 257}
	}
	coloured := func(x, y int) bool {
		p := at(x, y)
		return math.Max(p[0], math.Max(p[1], p[2]))-math.Min(p[0], math.Min(p[1], p[2])) > 9
	}
	// two areas are coloured: the bar and, below it, the plane
	type area struct{ y0, y1, x0, x1 int }
	areas := []area{}
	for y := 0; y < h; y++ {
		x0, x1, n := w, -1, 0
		for x := 0; x < w; x++ {
			if coloured(x, y) {
				n++
				if x < x0 {
					x0 = x
				}
				x1 = x
			}
		}
		if n < w/4 {
			continue
		}
		if k := len(areas) - 1; k == 1 || k == 0 && areas[k].y1 == y-1 { // blended colours may be grey, so the plane is all that follows
			areas[k].y1 = y
			if x0 < areas[k].x0 {
				areas[k].x0 = x0
			}
			if x1 > areas[k].x1 {
				areas[k].x1 = x1
			}
		} else {
			areas = append(areas, area{y, y, x0, x1})
		}
	}
	if len(areas) != 2 {
		r.Msg = "no colour bar above a plane in the picture"
		return
	}
	bar, p := areas[0], areas[1]
	r.Bar = bar.x1 - bar.x0
	mid := (bar.y0 + bar.y1) / 2
	for i := 0; i < c.NX; i++ {
		col := []float64{}
		for j := 0; j < c.NY; j++ {
			// y grows upwards
			u := float64(p.x0) + (float64(i)+0.5)/float64(c.NX)*float64(p.x1+1-p.x0) - 0.5
			v := float64(p.y1+1) - (float64(j)+0.5)/float64(c.NY)*float64(p.y1+1-p.y0) - 0.5
			x, y := int(u), int(v)
			fx, fy := u-float64(x), v-float64(y)
			q := rgb{}
			for k := range q {
				q[k] = (1-fx)*(1-fy)*at(x, y)[k] + fx*(1-fy)*at(x+1, y)[k] + (1-fx)*fy*at(x, y+1)[k] + fx*fy*at(x+1, y+1)[k]
			}
			best, where := math.Inf(1), 0.0
			for s := bar.x0; s < bar.x1; s++ {
				one, two := at(s, mid), at(s+1, mid)
				for t := 0.0; t < 1; t += 0.125 {
					d := 0.0
					for k := range q {
						e := one[k] + t*(two[k]-one[k]) - q[k]
						d += e * e
					}
					if d < best {
						best, where = d, float64(s-bar.x0)+t
					}
				}
			}
			r.Off = math.Max(r.Off, math.Sqrt(best))
			col = append(col, where)
		}
		r.At = append(r.At, col)
	}
}
