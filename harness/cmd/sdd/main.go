// Command sdd replays behaviours of the specification Sdd into the shrinking-dimer stepper and evaluates the dimer
// equations, with the forces given by the meaning of the model, at every step.
package main

import (
	"encoding/csv"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"math/cmplx"
	"math/rand"
	"os"
	"strconv"

	"github.com/davidkleiven/gopf/pf"
	"verifharness/lib"
)

// Op is one operation with what must be observed after it.
type Op struct {
	Op      string `json:"op"`
	Arg     int    `json:"arg"`
	Refused bool   `json:"refused"`
	Step    int    `json:"step"`
	Len     int    `json:"len"`
	Dir     int    `json:"dir"`
}

// Case is one behaviour on one model.
type Case struct {
	lib.Prog
	Shape []int   `json:"shape"`
	Seed  int64   `json:"seed"`
	Order int     `json:"order"`
	Dt    float64 `json:"dt"`
	Alpha float64 `json:"alpha"`
	Tau   float64 `json:"tau"`
	TimeA bool    `json:"timeA"`
	Unit  int     `json:"unit"`
	Start int     `json:"start"`
	Hist  []Op    `json:"hist"`
}

// Row is the outcome.
type Row struct {
	Case     int     `json:"case"`
	Ok       bool    `json:"ok"`
	Msg      string  `json:"msg"`
	Ops      int     `json:"ops"`
	Compared int     `json:"compared"`
	Worst    float64 `json:"worst"`
}

const tol = 1e-7

type vec = []complex128

type sim struct {
	c Case
	w *lib.World
	s *pf.SDD
	m *pf.Model

	norm float64
	log  *os.File
	want [][]float64
}

func (x *sim) orientation() []float64 {
	probe := []pf.Field{}
	for _, f := range x.c.D.Fields {
		probe = append(probe, pf.NewField(f, x.w.G.N, nil))
	}
	x.s.ShiftFieldsAlongDimer(probe, 1.0)
	out := []float64{}
	for _, f := range probe {
		for _, d := range f.Data {
			out = append(out, real(d))
		}
	}
	return out
}

func (x *sim) fields() [][]complex128 {
	out := make([][]complex128, len(x.m.Fields))
	for f := range out {
		out[f] = append(vec{}, x.m.Fields[f].Data...)
	}
	return out
}

// flat joins the real space values of transformed fields
func (x *sim) flat(ft [][]complex128) vec {
	out := vec{}
	for _, f := range ft {
		out = append(out, x.w.G.IDFT(f)...)
	}
	return out
}

func dot(v []float64, z vec) complex128 {
	var s complex128
	for i := range v {
		s += complex(v[i], 0) * z[i]
	}
	return s
}

func (x *sim) shifted(y [][]complex128, v []float64, l float64) [][]complex128 {
	out := make([][]complex128, len(y))
	for f := range y {
		out[f] = append(vec{}, y[f]...)
		for i := range out[f] {
			out[f][i] += complex(l*v[f*x.w.G.N+i], 0)
		}
	}
	return out
}

// apply multiplies the transform of every field by its own multiplier
func (x *sim) apply(own [][]complex128, z vec) vec {
	out := vec{}
	N := x.w.G.N
	for f := range own {
		ft := x.w.G.DFT(z[f*N : (f+1)*N])
		for i := range ft {
			ft[i] *= own[f][i]
		}
		out = append(out, x.w.G.IDFT(ft)...)
	}
	return out
}

// judge evaluates the equations of one step from (y, v) to the present state. ok=false, msg="" means not judged.
func (x *sim) judge(y [][]complex128, v []float64, t, l float64) (bool, float64, string) {
	c, w := x.c, x.w
	dt := complex(c.Dt, 0)
	y1, v1 := x.fields(), x.orientation()
	for f := range y1 {
		if x.m.Fields[f].Name != c.D.Fields[f] {
			return false, 0, "fields changed identity"
		}
	}
	a, b := x.shifted(y, v, -0.5*l), x.shifted(y, v, 0.5*l)
	if w.Unsafe(a) || w.Unsafe(b) {
		return false, 0, ""
	}
	F1, F2, own := x.flat(w.Rates(a, t)), x.flat(w.Rates(b, t)), w.Own(t)
	// conditioning of the update
	den := complex(1, 0)
	for f := range own {
		o := make(vec, w.G.N)
		for i := range o {
			o[i] = complex(v[f*w.G.N+i], 0)
		}
		fo := w.G.DFT(o)
		for i := range o {
			d := 1 - dt*own[f][i]
			if cmplx.Abs(d) < 0.05 {
				return false, 0, ""
			}
			den += 2 * dt * own[f][i] * fo[i] * cmplx.Conj(fo[i]) / d / complex(float64(w.G.N), 0)
		}
	}
	if cmplx.Abs(den) < 0.05 {
		return false, 0, ""
	}
	flatY, flatY1 := vec{}, vec{}
	for f := range y {
		flatY = append(flatY, y[f]...)
		flatY1 = append(flatY1, y1[f]...)
	}
	Ay := x.apply(own, flatY1)
	W := make(vec, len(F1))
	for i := range W {
		W[i] = complex(c.Alpha, 0)*F1[i] + complex(1-c.Alpha, 0)*F2[i]
	}
	vw, va := dot(v, W), dot(v, Ay)
	scale, worst := 1.0, 0.0
	res := make(vec, len(W))
	for i := range W {
		o := complex(v[i], 0)
		lhs := flatY1[i] - dt*(Ay[i]-2*o*va)
		rhs := flatY[i] + dt*(W[i]-2*o*vw)
		res[i] = lhs - rhs
		scale = math.Max(scale, math.Max(cmplx.Abs(flatY1[i]), math.Max(cmplx.Abs(dt*Ay[i]), cmplx.Abs(dt*W[i]))))
	}
	if scale > 1e4 || math.IsNaN(scale) {
		return false, 0, ""
	}
	if d := lib.MaxAbs(res) / scale; !(d <= tol) {
		return false, 0, fmt.Sprintf("the centre misses its equation by %.3g (scale %.3g)", d*scale, scale)
	} else {
		worst = d
	}
	for i := range flatY1 {
		if math.Abs(imag(flatY1[i])) > 1e-9*scale {
			return false, 0, fmt.Sprintf("the fields are not real: %v", flatY1[i])
		}
	}
	// orientation
	vv := make(vec, len(v))
	for i := range v {
		vv[i] = complex(v[i], 0)
	}
	Av := x.apply(own, vv)
	T := make(vec, len(v))
	tscale := 1.0
	for i := range T {
		T[i] = F1[i] - F2[i] - complex(l, 0)*Av[i]
		tscale = math.Max(tscale, (cmplx.Abs(F1[i])+cmplx.Abs(complex(l, 0)*Av[i]))*c.Dt/(l*c.Tau))
	}
	vt := dot(v, T)
	want := make([]float64, len(v))
	norm, norm1 := 0.0, 0.0
	for i := range want {
		want[i] = v[i] - c.Dt*real(T[i]-complex(v[i], 0)*vt)/(l*c.Tau)
		norm += want[i] * want[i]
		norm1 += v1[i] * v1[i]
	}
	if math.Abs(norm1-1) > 1e-9 {
		return false, 0, fmt.Sprintf("the orientation has length %v", math.Sqrt(norm1))
	}
	if tscale < 1e5 {
		for i := range want {
			d := math.Abs(want[i]/math.Sqrt(norm)-v1[i]) / tscale
			worst = math.Max(worst, d)
			if !(d <= tol) {
				return false, 0, fmt.Sprintf("the orientation misses its equation by %.3g at entry %d", d*tscale, i)
			}
		}
	}
	return true, worst, ""
}

// saved compares what SaveOrientation writes with the orientation.
func (x *sim) saved() string {
	fn := "orientation.csv"
	defer os.Remove(fn)
	x.s.SaveOrientation(fn)
	f, err := os.Open(fn)
	lib.Must(err)
	defer f.Close()
	rec, err := csv.NewReader(f).ReadAll()
	lib.Must(err)
	v, N, nf := x.orientation(), x.w.G.N, len(x.c.D.Fields)
	if len(rec) != N+1 || len(rec[0]) != 3+nf {
		return fmt.Sprintf("the orientation is saved in %d rows of %d columns", len(rec), len(rec[0]))
	}
	seen := map[int]bool{}
	for _, r := range rec[1:] {
		p := make([]int, len(x.c.Shape))
		for a := range p {
			p[a], err = strconv.Atoi(r[a])
			lib.Must(err)
		}
		n := lib.Node(x.c.Shape, p)
		if n < 0 || n >= N || seen[n] {
			return fmt.Sprintf("position %v is saved twice or outside the domain", p)
		}
		seen[n] = true
		for f := 0; f < nf; f++ {
			got, err := strconv.ParseFloat(r[3+f], 64)
			lib.Must(err)
			if math.Abs(got-v[f*N+n]) > 1e-6 {
				return fmt.Sprintf("the orientation of field %d at %v is saved as %v, it is %v", f, p, got, v[f*N+n])
			}
		}
	}
	return ""
}

// reported compares the monitor with the step from y; the torque is judged with the orientation.
func (x *sim) reported(y [][]complex128) string {
	mo := x.s.Monitor
	before, force, scale := 0.0, 0.0, 1.0
	for f := range y {
		d := make(vec, len(y[f]))
		for i := range d {
			before += real(y[f][i])*real(y[f][i]) + imag(y[f][i])*imag(y[f][i])
			d[i] = (x.m.Fields[f].Data[i] - y[f][i]) / complex(x.c.Dt, 0)
			scale = math.Max(scale, (cmplx.Abs(x.m.Fields[f].Data[i])+cmplx.Abs(y[f][i]))/x.c.Dt*float64(len(d)))
		}
		for _, z := range x.w.G.DFT(d) {
			force = math.Max(force, cmplx.Abs(z))
		}
	}
	if math.Abs(mo.FieldNorm-before) > 1e-9*(1+before) {
		return fmt.Sprintf("the monitor reports the norm %v, it was %v", mo.FieldNorm, before)
	}
	if d := math.Abs(mo.FieldNormChange); math.Abs(d-math.Abs(before-x.norm)) > 1e-9*(1+before+x.norm) {
		return fmt.Sprintf("the monitor reports a change of the norm by %v, it was %v and is %v", d, x.norm, before)
	}
	if math.Abs(mo.MaxForce-force) > 1e-9*scale {
		return fmt.Sprintf("the monitor reports the force %v, it is %v", mo.MaxForce, force)
	}
	x.norm = before
	mo.LogFile = x.log
	x.s.Monitor.LogFile = x.log
	x.s.Monitor.Log(nil, len(x.want))
	x.want = append(x.want, []float64{mo.MaxForce, mo.MaxTorque, mo.ForcePowerSpectrum, mo.FieldNorm, mo.FieldNormChange})
	return ""
}

// logged compares the log with what was reported when it was written.
func (x *sim) logged(fn string) string {
	f, err := os.Open(fn)
	lib.Must(err)
	defer f.Close()
	rec, err := csv.NewReader(f).ReadAll()
	if err != nil {
		return "the log cannot be read: " + err.Error()
	}
	if len(x.want) == 0 && len(rec) == 0 {
		return ""
	}
	if len(rec) != len(x.want)+1 {
		return fmt.Sprintf("%d lines of log after %d steps", len(rec), len(x.want))
	}
	col := map[string]int{}
	for i, h := range rec[0] {
		col[h] = i
	}
	for n, r := range rec[1:] {
		for i, h := range []string{"MaxForce", "MaxTorque", "ForcePowerSpect", "FieldNorm", "FieldNormChange"} {
			k, ok := col[h]
			if !ok {
				return "the log has no column " + h
			}
			v, err := strconv.ParseFloat(r[k], 64)
			if w := x.want[n][i]; err != nil || math.Abs(v-w) > 1e-6+1e-12*math.Abs(w) {
				return fmt.Sprintf("line %d of the log has %s for %s, which was %v", n+1, r[k], h, w)
			}
		}
	}
	return ""
}

func run(k int, c Case) (row Row) {
	row = Row{Case: k}
	w := lib.NewWorld(c.Prog, c.Shape, c.Seed, c.TimeA)
	rng := rand.New(rand.NewSource(c.Seed))
	x := &sim{c: c, w: w}
	if msg := lib.Try(func() {
		x.m = w.Build(c.Order)
		pf.NewSolver(x.m, c.Shape, c.Dt)
	}); msg != "" {
		row.Msg = "refused: " + msg
		return
	}
	fail := func(n int, format string, a ...interface{}) Row {
		row.Ok, row.Msg = false, fmt.Sprintf("operation %d (%s): %s", n, c.Hist[n].Op, fmt.Sprintf(format, a...))
		return row
	}
	row.Ok = true
	name := "steps.csv"
	var err error
	x.log, err = os.Create(name)
	lib.Must(err)
	defer func() {
		x.log.Close()
		if msg := x.logged(name); row.Ok && msg != "" {
			row.Ok, row.Msg = false, msg
		}
		os.Remove(name)
	}()
	last := []float64{}
	for n, o := range c.Hist {
		var before [][]complex128
		var v []float64
		t, length := 0.0, 0.0
		if x.s != nil {
			before, v, t = x.fields(), x.orientation(), x.s.GetTime()
			length = x.s.DimerLength(t)
		}
		size := float64(o.Arg) / float64(c.Unit)
		msg := lib.Try(func() {
			switch o.Op {
			case "new":
				s := pf.NewSDD(c.Shape, x.m)
				s.CurrentStep = o.Arg
				s.Alpha = c.Alpha
				s.TimeConstants = pf.SDDTimeConstants{Orientation: c.Tau, DimerLength: c.Dt / math.Ln2}
				x.s = &s
			case "dt":
				x.s.Dt = c.Dt
			case "min":
				x.s.MinDimerLength = size
			case "orient", "init":
				dir := make([]float64, len(c.D.Fields)*w.G.N)
				norm := 0.0
				for i := range dir {
					dir[i] = rng.NormFloat64()
					norm += dir[i] * dir[i]
				}
				a, b := []pf.Field{}, []pf.Field{}
				for f := range c.D.Fields {
					fa, fb := pf.NewField(c.D.Fields[f], w.G.N, nil), pf.NewField(c.D.Fields[f], w.G.N, nil)
					for i := range fa.Data {
						j := f*w.G.N + i
						dir[j] *= size / math.Sqrt(norm)
						fa.Data[i] = complex(rng.Float64(), 0)
						fb.Data[i] = fa.Data[i] + complex(dir[j], 0)
					}
					a, b = append(a, fa), append(b, fb)
				}
				if o.Op == "orient" {
					x.s.SetInitialOrientation(append([]float64{}, dir...))
				} else {
					x.s.Init(a, b)
				}
				last = last[:0]
				for i := range dir {
					last = append(last, dir[i]/size)
				}
			case "wrong":
				d := make([]float64, len(c.D.Fields)*w.G.N+1)
				d[0] = 1
				x.s.SetInitialOrientation(d)
			case "filter":
				x.s.SetFilter(&lib.Filter{})
			case "step":
				x.s.Step(x.m)
			}
		})
		if (msg != "") != o.Refused {
			return fail(n, "refused %v, must be %v (%s)", msg != "", o.Refused, msg)
		}
		row.Ops++
		// the clock and the length
		wantT := 0.0
		if x.s.Dt > 0 {
			wantT = float64(o.Step) * c.Dt
		}
		if d := math.Abs(x.s.GetTime() - wantT); d > 1e-9*c.Dt {
			return fail(n, "time %v, must be %v", x.s.GetTime(), wantT)
		}
		if x.s.Dt > 0 && o.Dir > 0 {
			wl := float64(o.Len) / float64(c.Unit)
			if got := x.s.DimerLength(x.s.GetTime()); math.Abs(got-wl) > 1e-9*(1+wl) {
				return fail(n, "dimer length %v, must be %v", got, wl)
			}
			// the time at which it will have any given length above the smallest
			for _, l := range []float64{0.9, 0.5, 0.3, 0.01} {
				if l *= x.s.InitDimerLength; l > x.s.MinDimerLength {
					if got := x.s.DimerLength(x.s.RequiredDimerLengthTime(l)); math.Abs(got-l) > 1e-9*(1+l) {
						return fail(n, "dimer length %v at the time at which it should be %v", got, l)
					}
				}
			}
		}
		if o.Op == "orient" || o.Op == "init" {
			got := x.orientation()
			for i := range got {
				if math.Abs(got[i]-last[i]) > 1e-9 {
					return fail(n, "orientation %v at entry %d, must be %v", got[i], i, last[i])
				}
			}
		}
		if o.Dir > 0 {
			if msg := x.saved(); msg != "" {
				return fail(n, "%s", msg)
			}
		}
		if before == nil {
			continue
		}
		if o.Op == "step" && !o.Refused {
			if length <= 0 {
				return row
			}
			ok, worst, msg := x.judge(before, v, t, length)
			if msg != "" {
				return fail(n, "%s", msg)
			}
			if !ok {
				return row // outside what can be judged, the rest of the run as well
			}
			if msg := x.reported(before); msg != "" {
				return fail(n, "%s", msg)
			}
			row.Compared++
			row.Worst = math.Max(row.Worst, worst)
			continue
		}
		for f, d := range x.fields() {
			if lib.MaxDiff(d, before[f]) != 0 {
				return fail(n, "field %s changed", c.D.Fields[f])
			}
		}
		if o.Dir > 0 && o.Op != "orient" && o.Op != "init" {
			for i, q := range x.orientation() {
				if q != v[i] {
					return fail(n, "the orientation changed")
				}
			}
		}
	}
	return
}

func main() {
	var cases []Case
	lib.Start(&cases)
	log.SetOutput(ioutil.Discard)
	for k, c := range cases {
		lib.Emit(run(k, c))
		lib.Flush()
	}
	lib.Done()
}
