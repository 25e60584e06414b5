// Command image carries histories of the specification Image out on real grids and records the values after every operation.
package main

import (
	"encoding/csv"
	"io/ioutil"
	"log"
	"math"
	"os"
	"path/filepath"
	"strconv"

	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/gonum/mat"
	"verifharness/lib"
)

// Crystal is a crystal: cubic cell of edge A nodes, basis in half spacings, kernel over C nodes.
type Crystal struct {
	Cell  string  `json:"cell"`
	A     int     `json:"a"`
	C     int     `json:"C"`
	Basis [][]int `json:"basis"`
}

// Op is an operation; T is cosine, sine and hypotenuse.
type Op struct {
	Op string      `json:"op"`
	C  interface{} `json:"c"`
	K  *Crystal    `json:"k"`
	T  []int       `json:"t"`
}

// Case is a history.
type Case struct {
	Shape []int `json:"shape"`
	Ops   []Op  `json:"ops"`
}

// Row is one operation as recorded.
type Row struct {
	Case    int      `json:"case"`
	Shape   []int    `json:"shape"`
	Op      Op       `json:"op"`
	Refused bool     `json:"refused"`
	Msg     string   `json:"msg"`
	After   []int    `json:"after"`
	Exact   bool     `json:"exact"`
	Good    bool     `json:"good"`
	Table   [][]int  `json:"table"`
	Header  []string `json:"header"`
}

// kernel is 1 plus the squared distance in half spacings.
type kernel struct{ c int }

func (k *kernel) Cutoff() float64 { return float64(k.c) / 2 }
func (k *kernel) Eval(x float64) float64 {
	v := 4 * x * x
	if math.Abs(v-math.Round(v)) < 1e-6 {
		v = math.Round(v)
	}
	return 1 + v
}

func crystal(c *Crystal, g *pfutil.Grid) {
	d := len(g.Dims)
	var cell pfc.Cell
	switch {
	case d == 2:
		cell = pfc.SC2D(float64(c.A))
	case c.Cell == "fcc":
		cell = pfc.FCC(float64(c.A))
	case c.Cell == "bcc":
		cell = pfc.BCC(float64(c.A))
	default:
		cell = pfc.SC3D(float64(c.A))
	}
	pos := mat.NewDense(d, len(c.Basis), nil)
	for j, u := range c.Basis {
		for k := range u {
			pos.Set(k, j, float64(u[k])/2)
		}
	}
	basis := mat.NewDense(d, len(c.Basis), nil)
	lib.Must(basis.Solve(cell.CellVec, pos))
	pfc.BuildCrystal(pfc.UnitCell{Cell: cell, Basis: basis}, &kernel{c.C}, g)
}

func ints(v []float64) ([]int, bool) {
	out, ok := make([]int, len(v)), true
	for i, x := range v {
		if math.IsNaN(x) || math.Abs(x) > 1e9 || x != math.Round(x) {
			x, ok = -1, false
		}
		out[i] = int(x)
	}
	return out, ok
}

func same(a, b []float64) bool {
	ok := len(a) == len(b)
	for i := range a {
		ok = ok && a[i] == b[i]
	}
	return ok
}

func table(g pfutil.Grid, fn string) (rows [][]int, header []string) {
	rows = [][]int{}
	g.SaveCsv(fn)
	fh, err := os.Open(fn)
	lib.Must(err)
	defer fh.Close()
	all, err := csv.NewReader(fh).ReadAll()
	if err != nil || len(all) == 0 {
		return
	}
	header = all[0]
	for _, r := range all[1:] {
		q := []int{}
		for _, s := range r {
			x, err := strconv.ParseFloat(s, 64)
			if err != nil || math.Abs(x) > 1e9 || x != math.Round(x) {
				x = -987654
			}
			q = append(q, int(x))
		}
		rows = append(rows, q)
	}
	return
}

func main() {
	var cases []Case
	lib.Start(&cases)
	log.SetOutput(ioutil.Discard)
	dir, err := ioutil.TempDir("", "verifimage")
	lib.Must(err)
	for k, c := range cases {
		g := pfutil.NewGrid(append([]int{}, c.Shape...))
		fill := func() {
			for i := range g.Data {
				g.Data[i] = float64(1001 + i)
			}
		}
		fill()
		first := Row{Case: k, Shape: c.Shape, Op: Op{Op: "fill", C: 0, T: []int{}}, Table: [][]int{}, Header: []string{}}
		first.After, first.Exact = ints(g.Data)
		lib.Emit(first)
		for _, o := range c.Ops {
			r := Row{Case: k, Shape: c.Shape, Op: o, Table: [][]int{}, Header: []string{}}
			r.Msg = lib.Try(func() {
				angle := 0.0
				if len(o.T) == 3 {
					angle = math.Atan2(float64(o.T[1]), float64(o.T[0]))
				}
				switch o.Op {
				case "fill":
					fill()
				case "build":
					crystal(o.K, &g)
				case "turn":
					g.Rotate2D(angle)
				case "tilt":
					pfc.TiltGB(&g, 2*angle)
				case "copy":
					h := g.Copy()
					was := append([]float64{}, g.Data...)
					r.Good = same(h.Data, g.Data) && len(h.Dims) == len(g.Dims)
					h.Data[0], h.Dims[0] = -5, 77
					r.Good = r.Good && same(g.Data, was) && g.Dims[0] == c.Shape[0]
					g.Data[len(was)-1] = -6
					r.Good = r.Good && (len(was) == 1 || h.Data[len(was)-1] == was[len(was)-1])
					g.Data[len(was)-1] = was[len(was)-1]
				case "complex":
					z := g.ToComplex()
					r.Good = len(z) == len(g.Data)
					h := pfutil.NewGrid(append([]int{}, c.Shape...))
					for i := range z {
						r.Good = r.Good && z[i] == complex(g.Data[i], 0)
						z[i] = complex(real(z[i]), 3)
					}
					h.FromComplex(z)
					r.Good = r.Good && same(h.Data, g.Data)
				case "csv":
					r.Table, r.Header = table(g, filepath.Join(dir, "grid.csv"))
				}
			})
			r.Refused = r.Msg != ""
			r.After, r.Exact = ints(g.Data)
			lib.Emit(r)
		}
	}
	os.RemoveAll(dir)
	lib.Done()
}
