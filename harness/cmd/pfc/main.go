// Command pfc replays behaviours of the specification Pfc into gopf/pfc. It reports what was observed in the integer units
// of the specification.
package main

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
	"verifharness/lib"
)

// Term is one term of a polynomial.
type Term struct {
	E []int   `json:"e"`
	C float64 `json:"c"`
}

// Op is one operation.
type Op struct {
	Op       string      `json:"op"`
	D        int         `json:"d"`
	Cell     []float64   `json:"C"`
	Vol      float64     `json:"vol"`
	Modes    [][]int     `json:"modes"`
	M        []int       `json:"m"`
	E        interface{} `json:"E"`
	Pow      []int       `json:"e"`
	K        int         `json:"k"`
	P        []float64   `json:"p"`
	Q        float64     `json:"q"`
	C3       float64     `json:"c3"`
	C4       float64     `json:"c4"`
	P3       []Term      `json:"p3"`
	P4       []Term      `json:"p4"`
	Explorer string      `json:"explorer"`
	Starts   [][]float64 `json:"starts"`
	H        []float64   `json:"h"`
	Amp      []float64   `json:"amp"`
	Bulk     []float64   `json:"bulk"`
	Shear    []float64   `json:"shear"`
	Beta     []float64   `json:"beta"`
	X        interface{} `json:"x"`
	Order    int         `json:"order"`
	Shape    []int       `json:"shape"`
	Conc     []float64   `json:"c"`
	Deriv    []float64   `json:"deriv"`
	Name     string      `json:"name"`
	Short    float64     `json:"short"`
	N        int         `json:"n"`
	Vol2     float64     `json:"vol2"`
	T        float64     `json:"T"`
	At       float64     `json:"at"`
	Peaks    [][]float64 `json:"peaks"`
}

// Row is what was observed.
type Row struct {
	Case int         `json:"case"`
	Got  [][]float64 `json:"got"`
	Bad  []string    `json:"bad"` // per operation: a law that does not hold
	Msg  string      `json:"msg"`
}

func floats(x interface{}) []float64 {
	var r []float64
	for _, v := range x.([]interface{}) {
		r = append(r, v.(float64))
	}
	return r
}

func miller(m []int) pfc.Miller { return pfc.Miller{H: m[0], K: m[1], L: m[2]} }

func dense(a *mat.Dense, s float64) []float64 {
	r, c := a.Dims()
	var res []float64
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			res = append(res, a.At(i, j)*s)
		}
	}
	return res
}

func scaled(v []float64, s float64) []float64 {
	r := make([]float64, len(v))
	for i := range v {
		r[i] = v[i] * s
	}
	return r
}

// explorer records the starting points it hands out and the results it is told.
type explorer struct {
	starts  [][]float64
	given   int
	after   int
	results []float64
	where   [][]float64
}

func (e *explorer) Next() []float64 {
	if e.given == len(e.starts) {
		e.after++
		return nil
	}
	e.given++
	return append([]float64{}, e.starts[e.given-1]...)
}

func (e *explorer) OnMinimizationFinished(r *optimize.Result) {
	e.results = append(e.results, r.Location.F)
	e.where = append(e.where, append([]float64{}, r.Location.X...))
}

func energy(o Op, amp []float64) float64 {
	sum := 0.0
	add := func(ts []Term, f float64) {
		for _, t := range ts {
			v := t.C * f
			for i, p := range t.E {
				v *= math.Pow(amp[i], float64(p))
			}
			sum += v
		}
	}
	add(o.P3, -o.C3/6)
	add(o.P4, o.C4/12)
	return sum
}

// world is the crystal of a behaviour.
type world struct {
	d     int
	rec   pfc.ReciprocalCell
	det   float64
	modes []pfc.Miller
}

func signs(x []float64) [][]float64 {
	res := [][]float64{{}}
	for _, v := range x {
		var nx [][]float64
		for _, r := range res {
			nx = append(nx, append(append([]float64{}, r...), v), append(append([]float64{}, r...), -v))
		}
		res = nx
	}
	return res
}

func (w *world) do(o Op) (got []float64, bad string) {
	twoPi := 2 * math.Pi
	switch o.Op {
	case "cell":
		w.d, w.det = o.D, o.Vol
		c := pfc.Cell{CellVec: mat.NewDense(o.D, o.D, append([]float64{}, o.Cell...))}
		if v := c.Volume(); math.Abs(v-o.Vol) > 1e-9*math.Abs(o.Vol) {
			bad = fmt.Sprintf("the volume is %g instead of %g", v, o.Vol)
		}
		w.rec = c.Reciprocal()
		w.modes = nil
		for _, m := range o.Modes {
			w.modes = append(w.modes, miller(m))
		}
		for i, v := range o.Cell {
			if c.CellVec.At(i/o.D, i%o.D) != v {
				bad = "the cell itself was changed"
			}
		}
		return dense(w.rec.CellVec, w.det/twoPi), bad
	case "hkl":
		return scaled(w.rec.HKLVector(miller(o.M)), w.det/twoPi), ""
	case "change":
		f := 1e-3
		e := mat.NewDense(w.d, w.d, scaled(floats(o.E), f))
		u := w.det * w.det / twoPi / f
		return append(dense(w.rec.CellChange(e), u), scaled(w.rec.ChangeHKLVector(miller(o.M), e), u)...), ""
	case "density":
		ms := pfc.ModeSolver{Miller: w.modes, ReciprocalCell: w.rec}
		return []float64{2 * ms.ModeDensity(o.K-1, scaled(o.P[:w.d], 1/o.Q))}, ""
	case "mean":
		ms := pfc.ModeSolver{Miller: w.modes, ReciprocalCell: w.rec}
		return []float64{ms.UnitcellIntegral(o.Pow, 32)}, ""
	case "ideal":
		x := o.X.(float64)
		im := pfc.IdealMix{C3: o.C3, C4: o.C4}
		y := im.QuadraticPrefactor()*x*x + im.ThirdOrderPrefactor()*x*x*x + im.FourthOrderPrefactor()*x*x*x*x
		if math.Abs(y-im.Eval(x)) > 1e-9*(1+math.Abs(y)) {
			bad = "the prefactors are not those of the energy"
		}
		return []float64{12 * im.Eval(x), 6 * im.Deriv(x)}, bad
	case "quad":
		mono := func(x ...float64) float64 {
			v := 1.0
			for i, y := range x {
				v *= math.Pow(y, o.P[i])
			}
			return v
		}
		if o.D == 2 {
			return []float64{1 / pfc.QuadSquare(func(x, y float64) float64 { return mono(x, y) }, o.Order)}, ""
		}
		return []float64{1 / pfc.QuadCube(func(x, y, z float64) float64 { return mono(x, y, z) }, o.Order)}, ""
	case "starts":
		x := floats(o.X)
		hoe := pfc.HyperOctantExplorer{X0: append([]float64{}, x...)}
		var all [][]float64
		for y := hoe.Next(); y != nil; y = hoe.Next() {
			all = append(all, y)
			if len(all) > 100 {
				return nil, "the explorer does not come to an end"
			}
		}
		for _, y := range all {
			got = append(got, y...)
		}
		spe := pfc.SinglePointExplorer{X0: x}
		if y := spe.Next(); len(y) != len(x) || spe.Next() != nil || spe.Next() != nil {
			bad = "the single point explorer does not give its point once"
		}
		return got, bad
	case "corr":
		c := pfc.ReciprocalSpacePairCorrelation{EffTemp: o.T}
		for i, p := range o.Peaks {
			pk := pfc.Peak{PlaneDensity: p[0], NumPlanes: 1, Width: p[1], Location: p[2]}
			if i%2 == 1 && p[0] > 1 {
				pk.PlaneDensity, pk.NumPlanes = 0.5*p[0], 2
			}
			c.Peaks = append(c.Peaks, pk)
		}
		// the peaks of the square lattice are those of its reciprocal cell
		cell := pfc.SC2D(3.5)
		rec := cell.Reciprocal()
		for i, pk := range pfc.SquareLattice2D(0.5, 3.5) {
			m := pfc.Miller{H: 1, K: i}
			v := rec.HKLVector(m)
			if math.Abs(math.Hypot(v[0], v[1])-pk.Location) > 1e-9 || pk.NumPlanes != pfc.NumEquivalent(m, 2) || pk.Width != 0.5 ||
				math.Abs(pk.PlaneDensity*pk.Location-2*math.Pi/3.5) > 1e-9 { // the lines are as dense as they are far apart
				bad = fmt.Sprintf("peak %d of the square lattice: %v", i, pk)
			}
		}
		return []float64{-8 * math.Log(c.Eval(o.At))}, bad
	case "named":
		return nil, w.named(o)
	case "blend":
		return w.blend(o)
	case "solve":
		return w.solve(o)
	case "fit":
		return w.fit(o)
	}
	lib.Must(fmt.Errorf("unknown operation %s", o.Op))
	return nil, ""
}

func (w *world) named(o Op) string {
	make := map[string]func(float64) pfc.Cell{"SC2D": pfc.SC2D, "SC3D": pfc.SC3D, "FCC": pfc.FCC, "BCC": pfc.BCC, "Triangular2D": pfc.Triangular2D}[o.Name]
	for _, a := range []float64{2, 4.05} {
		c := make(a)
		u := a / 2
		d, _ := c.CellVec.Dims()
		if d != o.D {
			return "wrong dimension"
		}
		best, n := math.Inf(1), 0
		num := 1
		for i := 0; i < d; i++ {
			num *= 7
		}
		for q := 1; q < num; q++ {
			l2, r, zero := 0.0, q, true
			co := []int{}
			for i := 0; i < d; i++ {
				co = append(co, r%7-3)
				zero = zero && r%7 == 3
				r /= 7
			}
			if zero {
				continue
			}
			for i := 0; i < d; i++ {
				s := 0.0
				for j := 0; j < d; j++ {
					s += c.CellVec.At(i, j) / u * float64(co[j])
				}
				l2 += s * s
			}
			if l2 < best-1e-9 {
				best, n = l2, 0
			}
			if l2 < best+1e-9 {
				n++
			}
		}
		v := c.Volume() / math.Pow(u, float64(d))
		if math.Abs(best-o.Short) > 1e-9 || n != o.N || math.Abs(v*v-o.Vol2) > 1e-8 {
			return fmt.Sprintf("%s(%g): %d nearest neighbours at the squared distance %g (a/2)^2 and the squared volume %g, instead of %d, %g and %g", o.Name, a, n, best, v*v, o.N, o.Short, o.Vol2)
		}
	}
	return ""
}

// blend: the effective correlation function is the blend of those of the two pure phases, and these are the Fourier
// transforms of the correlation functions.
func (w *world) blend(o Op) ([]float64, string) {
	g := lib.NewGrid(o.Shape)
	tp := pfc.TwoPhaseCorrFunc{CorrFunc: []pfc.ReciprocalSpacePairCorrelation{
		{EffTemp: 0.3, Peaks: pfc.TriangularLattice2D(1.1, 3.0)}, {EffTemp: 0.1, Peaks: pfc.SquareLattice2D(0.7, 5.0)}}}
	ft := pfutil.NewFFTW(o.Shape)
	eval := func(c func(i int) float64, ftd bool) []complex128 {
		d := make([]complex128, g.N)
		for i := range d {
			d[i] = complex(c(i), 0)
		}
		ft.FFT(d)
		if ftd {
			return tp.EvaluateFT(d, ft)
		}
		return tp.Evaluate(d, ft)
	}
	one, two := eval(func(int) float64 { return 1 }, false), eval(func(int) float64 { return 0 }, false)
	mix := eval(func(i int) float64 { return o.Conc[i] / 4 }, false)
	mixFT := g.IDFT(eval(func(i int) float64 { return o.Conc[i] / 4 }, true))
	for p, x := range [][]complex128{one, two} {
		f := g.DFT(x)
		for i := range f {
			k := math.Sqrt(g.K2(i))
			if cmplx.Abs(f[i]-complex(tp.CorrFunc[p].Eval(k), 0)) > 1e-9 {
				return nil, fmt.Sprintf("the correlation function of pure phase %d is %v instead of %g at k=%g", p, f[i], tp.CorrFunc[p].Eval(k), k)
			}
		}
	}
	for i, d := range o.Deriv {
		if x := pfc.IndicatorDeriv(o.Conc[i] / 4); math.Abs(8*x-d) > 1e-9 {
			return nil, fmt.Sprintf("derivative of the weight at %g is %g instead of %g", o.Conc[i]/4, x, d/8)
		}
	}
	got := make([]float64, g.N)
	for i := range got {
		if cmplx.Abs(mixFT[i]-mix[i]) > 1e-9 {
			return nil, fmt.Sprintf("EvaluateFT is not the transform of Evaluate at node %d: %v and %v", i, mixFT[i], mix[i])
		}
		if dif := one[i] - two[i]; cmplx.Abs(dif) > 1e-6 {
			got[i] = 32 * real((mix[i]-two[i])/dif)
		} else if cmplx.Abs(mix[i]-two[i]) > 1e-5 {
			return nil, fmt.Sprintf("node %d: %v, but both phases have %v", i, mix[i], two[i])
		} else {
			got[i] = math.NaN()
		}
	}
	for i := range got {
		if math.IsNaN(got[i]) {
			j := o.Conc[i]
			got[i] = 6*j*j - j*j*j // both phases agree here: any blend is right
			if j <= 0 {
				got[i] = 0
			} else if j >= 4 {
				got[i] = 32
			}
		}
	}
	return got, ""
}

func (w *world) solve(o Op) ([]float64, string) {
	ms := pfc.ModeSolver{IdealMix: pfc.IdealMix{C3: o.C3, C4: o.C4}, Miller: w.modes, ReciprocalCell: w.rec}
	n := len(w.modes)
	var ex *explorer
	var res pfc.ModeResult
	var starts [][]float64
	switch o.Explorer {
	case "octants":
		x := make([]float64, n)
		for i := range x {
			x[i] = 0.1
		}
		starts = signs(x)
		res = ms.Solve(nil)
	case "one":
		starts = [][]float64{scaled(o.Starts[0], 0.05)}
		res = ms.Solve(&pfc.SinglePointExplorer{X0: append([]float64{}, starts[0]...)})
	default:
		for _, s := range o.Starts {
			starts = append(starts, scaled(s, 0.05))
		}
		ex = &explorer{starts: starts}
		res = ms.Solve(ex)
	}
	if len(res.Amplitudes) != n {
		return nil, fmt.Sprintf("%d amplitudes for %d modes", len(res.Amplitudes), n)
	}
	e := energy(o, res.Amplitudes)
	tol := 1e-6
	if math.Abs(e-res.Energy) > tol*(1+math.Abs(e)) {
		return nil, fmt.Sprintf("the energy is given as %g, but the amplitudes %v have the energy %g", res.Energy, res.Amplitudes, e)
	}
	for _, s := range starts {
		if es := energy(o, s); res.Energy > es+tol*(1+math.Abs(es)) {
			return nil, fmt.Sprintf("the energy %g is higher than %g at the starting point %v", res.Energy, es, s)
		}
	}
	// stationary: no small step lowers the energy noticeably
	scale := 0.0
	for _, t := range append(append([]Term{}, o.P3...), o.P4...) {
		scale = math.Max(scale, t.C*math.Max(math.Abs(o.C3), o.C4))
	}
	h := 1e-4
	for i := 0; i < n; i++ {
		up, dn := append([]float64{}, res.Amplitudes...), append([]float64{}, res.Amplitudes...)
		up[i] += h
		dn[i] -= h
		grad := (energy(o, up) - energy(o, dn)) / (2 * h)
		if math.Abs(grad) > 1e-4*(1+scale) {
			return nil, fmt.Sprintf("the amplitudes %v are not a minimum: the slope along mode %d is %g", res.Amplitudes, i, grad)
		}
	}
	if ex != nil {
		if ex.given != len(starts) || len(ex.results) != len(starts) || ex.after != 1 {
			return nil, fmt.Sprintf("%d of %d starting points used, %d results reported, asked %d times after the last", ex.given, len(starts), len(ex.results), ex.after)
		}
		best := 0.0
		for i, f := range ex.results {
			if v := energy(o, ex.where[i]); math.Abs(v-f) > tol*(1+math.Abs(v)) {
				return nil, fmt.Sprintf("the minimum %v is reported with the energy %g instead of %g", ex.where[i], f, v)
			}
			best = math.Min(best, f)
		}
		if math.Abs(best-res.Energy) > tol*(1+math.Abs(best)) {
			return nil, fmt.Sprintf("the best energy found is %g, the returned one %g", best, res.Energy)
		}
	}
	return nil, ""
}

func (w *world) fit(o Op) ([]float64, string) {
	ms := pfc.ModeSolver{Miller: w.modes, ReciprocalCell: w.rec}
	u := math.Pow(2*math.Pi/w.det, 2)
	Q := mat.NewDense(w.d, w.d, nil)
	Q.Mul(w.rec.CellVec.T(), w.rec.CellVec)
	type prop struct {
		name string
		f    func(pfc.Miller, *mat.Dense) float64
		want []float64
		den  float64
	}
	props := []prop{{"bulk", pfc.BulkModWeight, o.Bulk, 9}, {"area", pfc.AreaModulusWeight, o.Bulk, 4}, {"shear", pfc.ShearModWeight, o.Shear, 15}}
	if w.d == 3 {
		props = []prop{props[0], props[2]}
	} else {
		props = props[:2]
	}
	for _, p := range props {
		for i, m := range w.modes {
			if got := p.f(m, Q); math.Abs(got-u*p.want[i]/p.den) > 1e-8*(1+math.Abs(got)) {
				return nil, fmt.Sprintf("the weight of mode %v for the property %s is %g instead of %g", m, p.name, got, u*p.want[i]/p.den)
			}
		}
	}
	// targets that can be reached: fit one property per mode
	if w.d == 2 {
		props = props[1:]
	}
	target := map[string]float64{}
	scale := 0.0
	for i := range w.modes {
		scale = math.Max(scale, u*o.Bulk[i])
	}
	for k, p := range props {
		if k < len(w.modes) {
			for i := range w.modes {
				target[p.name] += o.H[i] / scale * 10 * u * p.want[i] / p.den
			}
		}
	}
	res := ms.PeakWidths(target, append([]float64{}, o.Amp...))
	if len(res.Widths) != len(w.modes) || len(res.Fit) != len(target) {
		return nil, fmt.Sprintf("%d widths for %d modes, %d properties for %d", len(res.Widths), len(w.modes), len(res.Fit), len(target))
	}
	for _, p := range props {
		if _, ok := target[p.name]; !ok {
			continue
		}
		v := 0.0
		for i := range w.modes {
			v += 0.5 * o.Beta[i] * o.Amp[i] * o.Amp[i] / (res.Widths[i] * res.Widths[i]) * u * p.want[i] / p.den
		}
		if math.Abs(v-res.Fit[p.name]) > 1e-7*(1+math.Abs(v)) {
			return nil, fmt.Sprintf("the property %s is given as %g, but the widths %v have %g", p.name, res.Fit[p.name], res.Widths, v)
		}
	}
	return nil, ""
}

func main() {
	var cases [][]Op
	lib.Start(&cases)
	for k, c := range cases {
		w := world{}
		row := Row{Case: k, Got: [][]float64{}, Bad: []string{}}
		row.Msg = lib.Try(func() {
			for _, o := range c {
				got, bad := w.do(o)
				if got == nil {
					got = []float64{}
				}
				for i := range got {
					if math.IsNaN(got[i]) || math.IsInf(got[i], 0) {
						bad = "not a number"
						got = []float64{}
						break
					}
				}
				row.Got = append(row.Got, got)
				row.Bad = append(row.Bad, bad)
			}
		})
		lib.Emit(row)
	}
	lib.Done()
}
