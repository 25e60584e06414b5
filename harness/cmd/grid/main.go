// Records what the grid, transform, iterator, symmetry and painting functions do.
package main

import (
	"encoding/csv"
	"flag"
	"io/ioutil"
	"math"
	"math/cmplx"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"verifharness/lib"
)

// Case is one input chosen by the check.
type Case struct {
	Kind   string  `json:"kind"`
	Shape  []int   `json:"shape,omitempty"`
	Ints   []int   `json:"ints,omitempty"`
	Lists  [][]int `json:"lists,omitempty"`
	Name   string  `json:"name,omitempty"`
	Trans  []Trans `json:"trans,omitempty"`
	Value  int     `json:"value,omitempty"`
	Width  int     `json:"width,omitempty"`
	Kernel []int   `json:"kernel,omitempty"`
	Cutoff int     `json:"cutoff,omitempty"`
}

// Trans is a transformation in the specification's terms.
type Trans struct {
	Op string `json:"op"`
	V  []int  `json:"v"` // translation: halves; scaling: halves; rotation: number of quarter turns
}

// Rec is an observation.
type Rec map[string]interface{}

var tmp string

func main() {
	var cases []Case
	lib.Start(&cases)
	flag.Parse()
	var err error
	tmp, err = ioutil.TempDir("", "verifgrid")
	lib.Must(err)
	defer os.RemoveAll(tmp)
	for ci := range cases {
		c := cases[ci]
		r := Rec{"kind": c.Kind, "ok": true}
		if c.Shape != nil {
			r["shape"] = c.Shape
		}
		msg := lib.Try(func() {
			switch c.Kind {
			case "numbering":
				numbering(c, r)
			case "wrap":
				wrap(c, r)
			case "product":
				product(c, r)
			case "fft":
				fft(c, r)
			case "iter":
				iter(c, r)
			case "miller":
				miller(c, r)
			case "octant":
				octant(c, r)
			case "ellipsoid":
				ellipsoid(c, r)
			case "voronoi":
				voronoi(c, r)
			case "affine":
				affine(c, r)
			case "draw":
				draw(c, r)
			case "blur":
				blur(c, r)
			}
		})
		if msg != "" {
			r = Rec{"kind": c.Kind, "ok": false, "msg": msg, "shape": c.Shape}
		}
		lib.Emit(r)
	}
	lib.Done()
}

func cp(a []int) []int { return append([]int{}, a...) }

// lexPositions lists all positions, last axis fastest.
func lexPositions(shape []int) [][]int {
	res := [][]int{{}}
	for _, n := range shape {
		next := [][]int{}
		for _, p := range res {
			for k := 0; k < n; k++ {
				next = append(next, append(cp(p), k))
			}
		}
		res = next
	}
	return res
}

func readCsv(fn string) [][]string {
	f, err := os.Open(fn)
	if err != nil {
		return nil
	}
	defer f.Close()
	rows, err := csv.NewReader(f).ReadAll()
	if err != nil {
		return nil
	}
	return rows
}

func ints(row []string) []int {
	res := []int{}
	for _, s := range row {
		v, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
		if err != nil || v != math.Floor(v) || math.Abs(v) > 1e9 {
			v = -99999
		}
		res = append(res, int(v))
	}
	return res
}

func numbering(c Case, r Rec) {
	s := c.Shape
	n := lib.Prod(s)
	pos := [][]int{}
	gpos := [][]int{}
	g := pfutil.NewGrid(cp(s))
	for i := 0; i < n; i++ {
		pos = append(pos, cp(pfutil.Pos(cp(s), i)))
		gpos = append(gpos, cp(g.Pos(i)))
	}
	idx, gidx := [][]int{}, [][]int{}
	for k, p := range lexPositions(s) {
		idx = append(idx, append(cp(p), pfutil.NodeIdx(cp(s), cp(p))))
		gidx = append(gidx, append(cp(p), g.Index(cp(p))))
		g.Set(cp(p), float64(1000+k))
	}
	data := []int{}
	for i := range g.Data {
		data = append(data, int(g.Data[i]))
	}
	get := [][]int{}
	for _, p := range lexPositions(s) {
		get = append(get, append(cp(p), int(g.Get(cp(p)))))
	}
	// copy is independent of the original
	g2 := g.Copy()
	g2.Set(make([]int, len(s)), -5)
	copyOk := int(g.Get(make([]int, len(s)))) == 1000 && int(g2.Get(make([]int, len(s)))) == -5
	cplx := g.ToComplex()
	g3 := pfutil.NewGrid(cp(s))
	g3.FromComplex(cplx)
	for i := range g.Data {
		if g3.Data[i] != g.Data[i] || cplx[i] != complex(g.Data[i], 0) {
			copyOk = false
		}
	}
	r["pos"], r["gpos"], r["idx"], r["gidx"], r["data"], r["get"], r["copyok"] = pos, gpos, idx, gidx, data, get, copyOk
	// CSV files: value 7000+node in node order
	fn := filepath.Join(tmp, "g.csv")
	g4 := pfutil.NewGrid(cp(s))
	for i := range g4.Data {
		g4.Data[i] = float64(7000 + i)
	}
	g4.SaveCsv(fn)
	rows := readCsv(fn)
	gcsv := [][]int{}
	for i, row := range rows {
		if i > 0 {
			gcsv = append(gcsv, ints(row))
		}
	}
	r["gcsv"] = gcsv
	os.Remove(fn)
	fn = filepath.Join(tmp, "h.csv")
	pf.SaveCsv(fn, []pf.CsvData{{Name: "a", Data: &pfutil.RealSlice{Data: g4.Data}}, {Name: "b", Data: &pfutil.RealPartSlice{Data: g4.ToComplex()}}}, cp(s))
	rows = readCsv(fn)
	pcsv := [][]int{}
	for i, row := range rows {
		if i > 0 {
			pcsv = append(pcsv, ints(row))
		}
	}
	r["pcsv"] = pcsv
	os.Remove(fn)
}

func wrap(c Case, r Rec) {
	out := [][][]int{}
	for _, p := range c.Lists {
		q := cp(p)
		pfutil.Wrap(q, cp(c.Shape))
		out = append(out, [][]int{p, q})
	}
	r["wraps"] = out
}

func product(c Case, r Rec) {
	r["end"] = c.Ints
	p := pfutil.NewProduct(cp(c.Ints))
	seq := [][]int{}
	limit := lib.Prod(c.Ints)*2 + 5
	ended := false
	for i := 0; i < limit; i++ {
		v := p.Next()
		if v == nil {
			ended = true
			break
		}
		seq = append(seq, cp(v))
	}
	r["seq"], r["ended"] = seq, ended
}

func fft(c Case, r Rec) {
	s := c.Shape
	n := lib.Prod(s)
	ft := pfutil.NewFFTW(cp(s))
	freq := [][]int{}
	conj := []int{}
	exact := true
	for i := 0; i < n; i++ {
		f := ft.Freq(i)
		k := []int{}
		for a := range f {
			x := f[a] * float64(s[a])
			if math.Abs(x-math.Round(x)) > 1e-9 {
				exact = false
			}
			k = append(k, int(math.Round(x)))
		}
		freq = append(freq, k)
		conj = append(conj, ft.ConjugateNode(i))
	}
	peaks := [][]int{} // k..., node, re, im, count
	inverse := true
	for _, k := range lexPositions(s) {
		data := make([]complex128, n)
		for i := 0; i < n; i++ {
			p := lib.Pos(s, i)
			ph := 0.0
			for a := range k {
				ph += float64(k[a]*p[a]%s[a]) / float64(s[a])
			}
			data[i] = cmplx.Rect(1, 2*math.Pi*ph)
		}
		orig := append([]complex128{}, data...)
		res := ft.FFT(data)
		cnt, node := 0, -1
		var amp complex128
		for i := range res {
			if cmplx.Abs(res[i]) > 1e-7*float64(n) {
				cnt++
				node, amp = i, res[i]
			}
		}
		row := append(cp(k), node, int(math.Round(real(amp))), int(math.Round(imag(amp))), cnt)
		peaks = append(peaks, row)
		if len(peaks)%2 == 0 { // another transform in between must not matter
			junk := make([]complex128, n)
			for i := range junk {
				junk[i] = complex(float64(3*i+1), float64(7-i))
			}
			if len(peaks)%4 == 0 {
				ft.FFT(junk)
			} else {
				ft.IFFT(junk)
			}
		}
		back := ft.IFFT(append([]complex128{}, res...))
		for i := range back {
			if cmplx.Abs(back[i]-complex(float64(n), 0)*orig[i]) > 1e-8*float64(n) {
				inverse = false
			}
		}
		// the transform works in place
		for i := range data {
			if data[i] != res[i] {
				inverse = false
			}
		}
	}
	// a random field against direct summation
	rng := rand.New(rand.NewSource(lib.Seed() + int64(n)))
	g := lib.NewGrid(s)
	data := make([]complex128, n)
	for i := range data {
		data[i] = complex(rng.NormFloat64(), rng.NormFloat64())
	}
	want := g.DFT(data)
	got := ft.FFT(append([]complex128{}, data...))
	r["direct"] = lib.MaxDiff(want, got) < 1e-9*float64(n)
	r["freq"], r["conj"], r["peaks"], r["inverse"], r["exact"] = freq, conj, peaks, inverse, exact
}

func iter(c Case, r Rec) {
	s := c.Shape
	n := lib.Prod(s)
	ft := pfutil.NewFFTW(cp(s))
	u := pf.UniqueFreqIterator{Freq: ft.Freq, End: n}
	a := pf.RealAmplitudeIterator{Freq: ft.Freq, End: n}
	walk := func(next func() int) ([]int, bool) {
		seq := []int{}
		ended := false
		for i := 0; i < 2*n+5; i++ {
			v := next()
			if v == -1 {
				ended = true
				break
			}
			seq = append(seq, v)
		}
		for i := 0; i < 3 && ended; i++ {
			if next() != -1 {
				ended = false
			}
		}
		return seq, ended
	}
	old := os.Stdout
	null, _ := os.Open(os.DevNull)
	os.Stdout = null
	r["unique"], r["uended"] = walk(u.Next)
	r["real"], r["rended"] = walk(a.Next)
	os.Stdout = old
	null.Close()
}

func miller(c Case, r Rec) {
	m := pfc.Miller{H: c.Ints[0], K: c.Ints[1], L: c.Ints[2]}
	eq := [][]int{}
	for _, e := range pfc.EquivalentMiller(m) {
		eq = append(eq, []int{e.At(0), e.At(1), e.At(2)})
	}
	np := [][]int{}
	for _, e := range pfc.EquivalentMillerNoPermutations(m) {
		np = append(np, []int{e.H, e.K, e.L})
	}
	r["m"], r["eq"], r["np"] = c.Ints, eq, np
	r["n3"], r["n2"] = pfc.NumEquivalent(m, 3), pfc.NumEquivalent(m, 2)
	r["n3d"], r["n2d"] = pfc.NumEquivalent3D(m), pfc.NumEquivalent2D(m)
}

func octant(c Case, r Rec) {
	x := make([]float64, len(c.Ints))
	for i := range x {
		x[i] = float64(c.Ints[i])
	}
	h := pfc.HyperOctantExplorer{X0: x}
	seq := [][]int{}
	keep := [][]float64{}
	ended := false
	for i := 0; i < (1<<uint(len(x)))*2+5; i++ {
		p := h.Next()
		if p == nil {
			ended = true
			break
		}
		keep = append(keep, p)
	}
	for _, p := range keep {
		row := []int{}
		for _, v := range p {
			row = append(row, int(math.Round(v)))
		}
		seq = append(seq, row)
	}
	r["x0"], r["seq"], r["ended"] = c.Ints, seq, ended
	sp := pfc.SinglePointExplorer{X0: x}
	single := []int{}
	for i := 0; i < 4; i++ {
		if sp.Next() != nil {
			single = append(single, i)
		}
	}
	r["single"] = single
}

func ellipsoid(c Case, r Rec) {
	n := c.Value
	v := elasticity.Ellipsoid(n, float64(c.Ints[0])/2, float64(c.Ints[1])/2, float64(c.Ints[2])/2)
	set, binary := [][]int{}, true
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			for k := 0; k < n; k++ {
				x := v.At(i, j, k)
				binary = binary && (x == 0 || x == 1)
				if real(x) > 0.5 {
					set = append(set, []int{i, j, k})
				}
			}
		}
	}
	r["n"], r["ints"], r["set"], r["binary"] = n, c.Ints, set, binary
}

func voronoi(c Case, r Rec) {
	data := make([]int, lib.Prod(c.Shape))
	for i := range data {
		data[i] = -7
	}
	pfutil.Voronoi(cp(c.Ints), data, cp(c.Shape))
	r["pts"], r["data"] = c.Ints, data
}

func halves(v []int) []float64 {
	f := make([]float64, len(v))
	for i := range v {
		f[i] = float64(v[i]) / 2
	}
	return f
}

func compose(c Case) pfutil.Affine {
	t := pfutil.Identity()
	for _, x := range c.Trans {
		var o pfutil.Affine
		switch x.Op {
		case "T":
			o = pfutil.Translation(halves(x.V))
		case "S":
			o = pfutil.Scaling(halves(x.V))
		case "X":
			o = pfutil.RotX(math.Pi / 2 * float64(x.V[0]))
		case "Y":
			o = pfutil.RotY(math.Pi / 2 * float64(x.V[0]))
		case "Z":
			o = pfutil.RotZ(math.Pi / 2 * float64(x.V[0]))
		}
		t.Append(o)
	}
	return t
}

func translist(c Case) []map[string]interface{} {
	tl := []map[string]interface{}{}
	for _, x := range c.Trans {
		tl = append(tl, map[string]interface{}{"op": x.Op, "v": x.V})
	}
	return tl
}

// affine applies a composed transformation to points; positions are recorded in units of 1/2^k, k the number of
// translations and scalings.
func affine(c Case, r Rec) {
	t := compose(c)
	den := 1.0
	for _, x := range c.Trans {
		if x.Op == "T" || x.Op == "S" {
			den *= 2
		}
	}
	to, exact := [][]int{}, true
	for i := 0; i+2 < len(c.Ints); i += 3 {
		p := []float64{float64(c.Ints[i]), float64(c.Ints[i+1]), float64(c.Ints[i+2])}
		t.Apply(p)
		q := []int{}
		for k := range p {
			x := p[k] * den
			if math.IsNaN(x) || math.Abs(x) > 1e9 || math.Abs(x-math.Round(x)) > 1e-6 {
				x, exact = 0, false
			}
			q = append(q, int(math.Round(x)))
		}
		to = append(to, q)
	}
	r["trans"], r["ints"], r["to"], r["exact"] = translist(c), c.Ints, to, exact
}

func draw(c Case, r Rec) {
	g := pfutil.NewGrid(cp(c.Shape))
	for i := range g.Data {
		g.Data[i] = float64(1000 + i)
	}
	var shape pfutil.Shape
	if c.Name == "box" {
		d := make([]float64, len(c.Ints))
		for i := range d {
			d[i] = float64(c.Ints[i]) / 4 // diagonal in quarters
		}
		shape = &pfutil.Box{Diagonal: d}
	} else {
		shape = &pfutil.Ball{Radius: math.Sqrt(float64(c.Ints[0])) / 4} // radius squared in sixteenths
	}
	var tr *pfutil.Affine
	if len(c.Trans) > 0 {
		t := compose(c)
		tr = &t
	}
	pfutil.Draw(shape, &g, tr, float64(c.Value))
	set, kept := []int{}, true
	for i := range g.Data {
		if g.Data[i] == float64(c.Value) {
			set = append(set, i)
		} else if g.Data[i] != float64(1000+i) {
			kept = false
		}
	}
	tl := translist(c)
	r["name"], r["size"], r["trans"], r["set"], r["kept"] = c.Name, c.Ints, tl, set, kept
}

type kern struct {
	cut, d int
	v      []int
}

// Cutoff of the kernel table.
func (k *kern) Cutoff() int { return k.cut }

// Value looks the offset up; the table covers -cut..cut in every direction, last axis fastest.
func (k *kern) Value(x []int) float64 {
	idx := 0
	for _, c := range x {
		if c < -k.cut || c > k.cut {
			return 0
		}
		idx = idx*(2*k.cut+1) + c + k.cut
	}
	return float64(k.v[idx])
}

// wide is the half width the box kernel is known to use instead of Width/2 (see known_findings.json)
func wide(w int) int {
	if w < w/2+1 {
		return w
	}
	return w/2 + 1
}

func blur(c Case, r Rec) {
	n := lib.Prod(c.Shape)
	data := make([]float64, n)
	for i := range data {
		data[i] = float64(c.Ints[i])
	}
	var k pfutil.BlurKernel
	weight, alt := 1, 1
	if c.Kernel == nil {
		k = &pfutil.BoxKernel{Width: c.Width}
		for range c.Shape {
			weight *= 2*(c.Width/2) + 1
		}
		alt = 1
		for range c.Shape {
			alt *= 2*wide(c.Width) + 1
		}
	} else {
		k = &kern{cut: c.Cutoff, d: len(c.Shape), v: c.Kernel}
		weight = 0
		for _, v := range c.Kernel {
			weight += v
		}
	}
	pfutil.Blur(&pfutil.RealSlice{Data: data}, cp(c.Shape), k)
	out, exact := []int{}, true
	for i := range data {
		x := data[i] * float64(weight)
		if math.IsNaN(x) || math.Abs(x) > 1e9 {
			x, exact = 0, false
		}
		if math.Abs(x-math.Round(x)) > 1e-6 {
			exact = false
		}
		out = append(out, int(math.Round(x)))
	}
	after2 := []int{}
	for i := range data {
		x := data[i] * float64(alt)
		if math.IsNaN(x) || math.Abs(x) > 1e9 || math.Abs(x-math.Round(x)) > 1e-6 {
			x = -1e9
		}
		after2 = append(after2, int(math.Round(x)))
	}
	r["after2"] = after2
	cplx := make([]complex128, n)
	for i := range cplx {
		cplx[i] = complex(float64(c.Ints[i]), 0.25)
	}
	pfutil.Blur(&pfutil.RealPartSlice{Data: cplx}, cp(c.Shape), k)
	same := true
	for i := range cplx {
		if math.Abs(real(cplx[i])-data[i]) > 1e-9 {
			same = false
		}
	}
	r["before"], r["width"], r["kernel"], r["cutoff"], r["after"], r["weight"], r["exact"], r["same"] = c.Ints, c.Width, append([]int{}, c.Kernel...), c.Cutoff, out, weight, exact, same
}
