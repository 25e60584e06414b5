// Command conserve observes the mean of every field over many steps of the real solver, with any scheme and with
// conservative noise, and replays behaviours of the volume-conserving multiplier.
package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"math"
	"os"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verifharness/lib"
)

// Note is one notification of a multiplier behaviour.
type Note struct {
	Total int `json:"total"`
	Ind   int `json:"ind"`
	Mult  int `json:"mult"`
}

// Case is one model and how it is run, or one behaviour of the multiplier.
type Case struct {
	lib.Prog
	Shape     []int       `json:"shape"`
	Seed      int64       `json:"seed"`
	Scheme    string      `json:"scheme"`
	Plan      []lib.Instr `json:"plan"`
	Dt        float64     `json:"dt"`
	Steps     int         `json:"steps"`
	Order     int         `json:"order"`
	Noise     []bool      `json:"noise"`     // per field: conservative noise in its equation
	Conserved []bool      `json:"conserved"` // per field: what the specification says
	Vandeven  int         `json:"vandeven"`
	Mult      bool        `json:"multiplier"`
	Inv       int         `json:"inv"`
	Unit      int         `json:"unit"`
	M0        int         `json:"m0"`
	Hist      []Note      `json:"hist"`
}

// Row is the outcome.
type Row struct {
	Case  int     `json:"case"`
	Ok    bool    `json:"ok"`
	Msg   string  `json:"msg"`
	Kept  int     `json:"kept"`  // conserved fields times steps observed
	Moved int     `json:"moved"` // other fields times steps compared with the evaluator
	Noisy int     `json:"noisy"` // steps in which noise acted
	Worst float64 `json:"worst"`
}

func mean(d []complex128) complex128 {
	var s complex128
	for _, x := range d {
		s += x
	}
	return s / complex(float64(len(d)), 0)
}

func run(k int, c Case) (row Row) {
	row = Row{Case: k}
	w := lib.NewWorld(c.Prog, c.Shape, c.Seed, false)
	texts := append([]string{}, c.Text...)
	noisy := false
	for f, on := range c.Noise {
		if on {
			noisy = true
			for i, l := range c.Lhs {
				if l == c.D.Fields[f] {
					texts[i] += fmt.Sprintf(" + NOISE%d", f)
				}
			}
		}
	}
	build := func(withNoise bool) *pf.Solver {
		p := c.Prog
		if withNoise {
			p.Text = texts
		}
		w.P = p
		m := w.BuildWith(c.Order, func(m *pf.Model) {
			for f, on := range c.Noise {
				if on && withNoise {
					n := pf.NewConservativeNoise(0.02, len(c.Shape))
					m.RegisterExplicitTerm(fmt.Sprintf("NOISE%d", f), &n, n.RequiredDerivedFields(w.G.N))
				}
			}
		})
		s := pf.NewSolver(m, c.Shape, c.Dt)
		switch c.Scheme {
		case "implicit":
			s.Stepper = &pf.ImplicitEuler{Dt: c.Dt, FT: s.FT.(*pfutil.FFTWWrapper)}
		default:
			s.SetStepper(c.Scheme)
		}
		if c.Vandeven > 0 {
			v := pf.NewVandeven(c.Vandeven)
			s.Stepper.SetFilter(&v)
		}
		return s
	}
	var s, quiet *pf.Solver
	if msg := lib.Try(func() {
		s = build(true)
		if noisy {
			quiet = build(false)
		}
	}); msg != "" {
		row.Msg = "refused: " + msg
		return
	}
	row.Ok = true
	y := w.Init
	scale := 1.0
	for _, o := range w.Own(0) {
		for _, a := range o {
			if real(a)*c.Dt > 0.4 {
				return // quickly growing models say nothing about conservation
			}
		}
	}
	for n := 0; n < c.Steps; n++ {
		if w.Unsafe(y) {
			return
		}
		var r lib.StepResult
		if c.Scheme != "implicit" {
			r = w.Step(c.Plan, y, float64(n)*c.Dt, c.Dt, false)
			if r.Near || r.Scale > 50 || math.IsNaN(r.Scale) {
				return
			}
			scale = math.Max(scale, r.Scale)
		} else {
			for _, o := range w.Rates(y, float64(n)*c.Dt) {
				if lib.MaxAbs(w.G.IDFT(o))*c.Dt > 2 {
					return
				}
			}
		}
		var buf bytes.Buffer
		log.SetOutput(io.MultiWriter(&buf, os.Stderr))
		if msg := lib.Try(func() { s.Propagate(1) }); msg != "" {
			row.Ok, row.Msg = false, fmt.Sprintf("step %d: %s", n, msg)
			return
		}
		if bytes.Contains(buf.Bytes(), []byte("onverge")) {
			return
		}
		if noisy && n == 0 {
			if msg := lib.Try(func() { quiet.Propagate(1) }); msg != "" {
				row.Ok, row.Msg = false, fmt.Sprintf("step %d: %s", n, msg)
				return
			}
		}
		tol := 1e-9
		if c.Scheme == "implicit" {
			tol = 1e-6 // what the nonlinear solver is asked for
		}
		y1 := make([][]complex128, len(y))
		for f := range y {
			y1[f] = append([]complex128{}, s.Model.Fields[f].Data...)
			scale = math.Max(scale, lib.MaxAbs(y1[f]))
			if math.IsNaN(scale) || scale > 1e3 {
				return
			}
			im := 0.0
			for _, x := range y1[f] {
				im = math.Max(im, math.Abs(imag(x)))
			}
			if im > 1e-9*scale*float64(n+1) {
				row.Ok, row.Msg = false, fmt.Sprintf("step %d, field %s: imaginary part %.3g", n, c.D.Fields[f], im)
				return
			}
			d := 0.0
			if c.Conserved[f] {
				d = math.Abs(real(mean(y1[f])-mean(w.Init[f]))) / scale / float64(n+1)
				row.Kept++
			} else if c.Scheme != "implicit" && !noisy && c.Vandeven == 0 {
				d = math.Abs(real(mean(y1[f])-mean(r.New[f]))) / scale
				row.Moved++
			}
			row.Worst = math.Max(row.Worst, d)
			if !(d <= tol) {
				row.Ok = false
				row.Msg = fmt.Sprintf("step %d, field %s: mean %v, was %v at the start, conserved %v, deviation %.3g", n, c.D.Fields[f],
					mean(y1[f]), mean(w.Init[f]), c.Conserved[f], d)
				return
			}
			if n == 0 && f < len(c.Noise) && c.Noise[f] && hasMode(c.Shape) {
				if lib.MaxDiff(y1[f], quiet.Model.Fields[f].Data) < 1e-9 {
					row.Ok, row.Msg = false, fmt.Sprintf("the noise of field %s did nothing", c.D.Fields[f])
					return
				}
				row.Noisy++
			}
		}
		y = y1
	}
	return
}

// hasMode tells whether there is a frequency along some axis that is neither zero nor the sampling limit.
func hasMode(shape []int) bool {
	for _, n := range shape {
		if n > 2 {
			return true
		}
	}
	return false
}

func multiplier(k int, c Case) (row Row) {
	row = Row{Case: k, Ok: true}
	N := lib.Prod(c.Shape)
	field, ind := pf.NewField("u", N, nil), pf.DerivedField{Name: "ind", Data: make([]complex128, N)}
	other := pf.NewField("other", N, nil)
	for i := range other.Data {
		other.Data[i] = complex(float64(1000+i), 5)
	}
	bricks := map[string]pf.Brick{"u": &field, "ind": &ind, "other": &other}
	lp := pf.NewVolumeConservingLP("u", "ind", 1/float64(c.Inv), N)
	lp.Multiplier = float64(c.M0) / float64(c.Unit)
	term := lp.Construct(bricks)
	for n, h := range c.Hist {
		rest := h.Total
		for i := range field.Data {
			v := (i*7+n*3)%5 - 2
			if i == len(field.Data)-1 {
				v = rest
			}
			rest -= v
			field.Data[i] = complex(float64(v), float64(i%3))
		}
		for i := range ind.Data {
			ind.Data[i] = complex(float64(3-i), float64(i))
		}
		ind.Data[0] = complex(float64(h.Ind), 0)
		if msg := lib.Try(func() { lp.OnStepFinished(float64(n+1)/float64(c.Inv), bricks) }); msg != "" {
			row.Ok, row.Msg = false, msg
			return
		}
		want := float64(h.Mult) / float64(c.Unit)
		if lp.Multiplier != want {
			row.Ok, row.Msg = false, fmt.Sprintf("notification %d: multiplier %v, must be %v", n+1, lp.Multiplier, want)
			return
		}
		out := make([]complex128, N)
		term(nil, 0, out)
		for i := range out {
			if out[i] != ind.Data[i]*complex(want, 0) {
				row.Ok, row.Msg = false, fmt.Sprintf("notification %d: the term is %v at node %d, must be %v", n+1, out[i], i, ind.Data[i]*complex(want, 0))
				return
			}
		}
		row.Kept++
	}
	return
}

// inSolver runs the multiplier as a term of a model with a fixed indicator and follows it.
func inSolver(k int, c Case) (row Row) {
	row = Row{Case: k, Ok: true}
	N := lib.Prod(c.Shape)
	f := pf.NewField("u", N, nil)
	for i := range f.Data {
		f.Data[i] = complex(0.3+0.1*math.Sin(float64(i)), 0)
	}
	m := pf.NewModel()
	m.AddField(f)
	m.AddScalar(pf.NewScalar("drive", complex(0.4, 0)))
	itot := 0.0
	for i := 0; i < N; i++ {
		itot += 0.5 + float64(i%3)
	}
	m.RegisterFunction("ind", func(i int, b map[string]pf.Brick) complex128 { return complex(0.5+float64(i%3), 0) })
	lp := pf.NewVolumeConservingLP("u", "ind", c.Dt, N)
	lp.Multiplier = 0.25
	m.RegisterExplicitTerm("LPTERM", &lp, nil)
	m.AddEquation("du/dt = drive*u^2 + LPTERM")
	s := pf.NewSolver(&m, c.Shape, c.Dt)
	s.SetStepper(c.Scheme)
	want, cur := 0.25, 0.0
	for n := 0; n < c.Steps; n++ {
		s.Propagate(1)
		tot := total(m.Fields[0].Data)
		if n > 0 {
			want -= (tot - cur) / (c.Dt * itot)
		}
		cur = tot
		if math.Abs(lp.Multiplier-want) > 1e-8*math.Max(1, math.Abs(want)) {
			row.Ok, row.Msg = false, fmt.Sprintf("step %d: multiplier %v, must be %v", n, lp.Multiplier, want)
			return
		}
		row.Kept++
	}
	return
}

func total(d []complex128) float64 {
	s := 0.0
	for _, x := range d {
		s += real(x)
	}
	return s
}

func main() {
	var cases []Case
	lib.Start(&cases)
	log.SetOutput(os.Stderr)
	for k, c := range cases {
		switch {
		case c.Mult && c.Scheme != "":
			lib.Emit(inSolver(k, c))
		case c.Mult:
			lib.Emit(multiplier(k, c))
		default:
			lib.Emit(run(k, c))
		}
		lib.Flush()
	}
	lib.Done()
}
