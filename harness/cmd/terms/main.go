// Command terms replays models made of ready-made terms, produced by the specifications Terms and MisfitMC, and reports the
// fields after each step, transformed by direct summation.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/gonum/mat"
	"verifharness/lib"
)

// Mono is a coefficient times a product of fields.
type Mono struct {
	C float64  `json:"c"`
	F []string `json:"f"`
}

// Peak of a pair correlation.
type Peak struct {
	Loc    float64 `json:"loc"`
	Width  float64 `json:"width"`
	Dens   float64 `json:"dens"`
	Planes int     `json:"planes"`
}

// Term is a ready-made term and its parameters.
type Term struct {
	Op        string      `json:"op"`
	Field     string      `json:"field"`
	Vel       []string    `json:"vel"`
	Poly      []Mono      `json:"poly"`
	Factor    float64     `json:"factor"`
	K         []float64   `json:"K"`
	Ext       []float64   `json:"ext"`
	Sigma     [][]float64 `json:"sigma"`
	A         float64     `json:"A"`
	C3        float64     `json:"c3"`
	C4        float64     `json:"c4"`
	Lap       bool        `json:"lap"`
	P         int         `json:"p"`
	Temp      float64     `json:"temp"`
	Peaks     []Peak      `json:"peaks"`
	Threshold float64     `json:"threshold"`
	Power     int         `json:"power"`
}

// Ref is a term in an equation.
type Ref struct {
	T int `json:"t"`
	S int `json:"s"`
	L int `json:"l"`
}

// Case is a model and the values its fields take.
type Case struct {
	Shape []int    `json:"shape"`
	Other []int    `json:"other"`
	Names []string `json:"names"`
	Terms []Term   `json:"terms"`
	Eqs   [][]Ref  `json:"eqs"`
	Steps []struct {
		Fields [][]float64 `json:"fields"`
	} `json:"steps"`
	Misfit *Misfit `json:"misfit"`
}

// Misfit is a model with the elastic misfit term.
type Misfit struct {
	Case struct {
		Shape  []int     `json:"shape"`
		Voigt  []float64 `json:"voigt"`
		Misfit []float64 `json:"misfit"`
		S      int       `json:"s"`
	} `json:"case"`
	Steps []struct {
		Axis int       `json:"axis"`
		W    []float64 `json:"w"`
	} `json:"steps"`
	Other []int `json:"other"`
}

// Row is what was observed.
type Row struct {
	Case  int       `json:"case"`
	Msg   string    `json:"msg"`
	Steps []StepOut `json:"steps"`
	Other []float64 `json:"other"` // deviation from the evaluator on the other grid, imaginary part, size
	Again []float64 `json:"again"` // largest difference to a model made anew, after one more step each, and the size of the fields
}

// StepOut are the transformed fields after one step (re, im), the largest imaginary part, and more about the terms.
type StepOut struct {
	Re    [][]float64 `json:"re"`
	Im    [][]float64 `json:"im"`
	Imag  []float64   `json:"imag"`
	Extra []Extra     `json:"extra"`
	Rate  [][]float64 `json:"rate"` // what the evaluator says: explicit rates (re, im) and multipliers
	RateI [][]float64 `json:"ratei"`
	Own   [][]float64 `json:"own"`
}

// Extra are other results of a term.
type Extra struct {
	Current  [][]float64 `json:"current,omitempty"`
	CurrentK [][]float64 `json:"currentk,omitempty"`
	Energy   []float64   `json:"energy,omitempty"`
	Eval     []float64   `json:"eval,omitempty"`
	Grad     [][]float64 `json:"grad,omitempty"`
	GradIm   [][]float64 `json:"gradim,omitempty"`
	Keep     [][]float64 `json:"keep,omitempty"`
	KeepIm   [][]float64 `json:"keepim,omitempty"`
}

const dt = 1.0 / 16384

func poly(p []Mono) pf.GenericFunction {
	return func(i int, bricks map[string]pf.Brick) complex128 {
		s := complex(0, 0)
		for _, m := range p {
			v := complex(m.C, 0)
			for _, f := range m.F {
				v *= bricks[f].Get(i)
			}
			s += v
		}
		return s
	}
}

func corr(t Term) pfc.ReciprocalSpacePairCorrelation {
	r := pfc.ReciprocalSpacePairCorrelation{EffTemp: 0.25 * t.Temp}
	for _, p := range t.Peaks {
		r.Peaks = append(r.Peaks, pfc.Peak{Location: p.Loc * math.Pi / 4, Width: 0.5 * p.Width, PlaneDensity: 0.5 * p.Dens, NumPlanes: p.Planes})
	}
	return r
}

type finisher interface {
	OnStepFinished(t float64, bricks map[string]pf.Brick)
}

func name(i int) string { return fmt.Sprintf("TERM%d", i) }

func mix(t Term) *pf.IdealMixtureTerm {
	return &pf.IdealMixtureTerm{IdealMix: pfc.IdealMix{C3: t.C3, C4: t.C4}, Field: t.Field, Prefactor: t.A, Laplacian: t.Lap}
}

func pair(t Term) pf.PairCorrlationTerm {
	return pf.PairCorrlationTerm{PairCorrFunc: corr(t), Field: t.Field, Prefactor: t.A, Laplacian: t.Lap}
}

func charge(t Term, ft pf.FourierTransform) *pf.ChargeTransport {
	ext := make([]float64, len(t.Ext))
	for d := range ext {
		ext[d] = t.Ext[d] * 2 / math.Pi
	}
	return &pf.ChargeTransport{Conductivity: func(i int) []float64 { return t.Sigma[i%len(t.Sigma)] }, ExternalField: ext, Field: t.Field, FT: ft}
}

// register adds a term to the model.
func register(m *pf.Model, i int, t Term, shape []int) {
	n := lib.Prod(shape)
	ft := pfutil.NewFFTW(shape)
	switch t.Op {
	case "adv":
		a := &pf.Advection{Field: t.Field, VelocityFields: t.Vel}
		a.PrepareModel(n, m, ft)
		m.RegisterExplicitTerm(name(i), a, nil)
	case "divgrad":
		d := &pf.DivGrad{Field: t.Field, F: poly(t.Poly)}
		d.PrepareModel(n, m, ft)
		m.RegisterExplicitTerm(name(i), d, nil)
	case "wlap":
		pre := fmt.Sprintf("WEIGHT%d", i)
		if len(t.Poly) == 1 && len(t.Poly[0].F) == 1 && t.Poly[0].C == 1 {
			pre = t.Poly[0].F[0]
		} else {
			m.RegisterFunction(pre, poly(t.Poly))
		}
		m.RegisterExplicitTerm(name(i), &pf.WeightedLaplacian{Field: t.Field, PreFactor: pre, FT: ft}, nil)
	case "sqgrad":
		s := pf.NewSquareGradient(t.Field, shape)
		s.Factor *= t.Factor / 2
		m.RegisterExplicitTerm(name(i), &s, nil)
	case "hessian":
		k := make([]float64, len(t.K))
		for j := range k {
			k[j] = t.K[j] / 2
		}
		m.RegisterImplicitTerm(name(i), &pf.TensorialHessian{Field: t.Field, K: k}, nil)
	case "charge":
		m.RegisterExplicitTerm(name(i), charge(t, ft), nil)
	case "mix":
		x := mix(t)
		m.RegisterMixedTerm(name(i), x, []pf.DerivedField{x.DerivedField(n, m.Bricks)})
	case "mixfunc":
		m.RegisterFunction(name(i), mix(t).Eval)
	case "penalty":
		p := &pf.NegativeValuePenalty{Prefactor: t.A, Exponent: t.P, Field: t.Field}
		m.RegisterFunction(name(i), p.Evaluate)
	case "pair":
		p := pair(t)
		m.RegisterImplicitTerm(name(i), &p, nil)
	case "pairexp":
		m.RegisterExplicitTerm(name(i), &pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: pair(t)}, nil)
	case "visc":
		m.RegisterImplicitTerm(name(i), &pf.SpectralViscosity{Eps: t.A, DissipationThreshold: (t.Threshold + 0.37) / 8, Power: t.Power}, nil)
	default:
		lib.Must(fmt.Errorf("unknown term %s", t.Op))
	}
}

func text(c Case, j int) string {
	s := "d" + c.Names[j] + "/dt = "
	if len(c.Eqs[j]) == 0 {
		return s + "NOTHING*" + c.Names[j]
	}
	for i, r := range c.Eqs[j] {
		if r.S < 0 {
			s += "-"
		} else if i > 0 {
			s += "+"
		}
		if r.L == 1 {
			s += "LAP "
		} else if r.L > 1 {
			s += fmt.Sprintf("LAP^%d ", r.L)
		}
		s += name(r.T-1) + " "
	}
	return s
}

func cplx(v []float64) []complex128 {
	r := make([]complex128, len(v))
	for i := range v {
		r[i] = complex(v[i], 0)
	}
	return r
}

func split(c []complex128) (re, im []float64) {
	for _, x := range c {
		re, im = append(re, real(x)), append(im, imag(x))
	}
	return
}

func observe(g *lib.Grid, m *pf.Model, names []string, s *StepOut) {
	for _, nm := range names {
		for _, f := range m.Fields {
			if f.Name != nm {
				continue
			}
			r := make([]complex128, len(f.Data))
			big := 0.0
			for i, x := range f.Data {
				r[i] = complex(real(x), 0)
				big = math.Max(big, math.Abs(imag(x)))
			}
			re, im := split(g.DFT(r))
			s.Re, s.Im, s.Imag = append(s.Re, re), append(s.Im, im), append(s.Imag, big)
		}
	}
}

// set gives the fields new values, as another step would have.
func set(m *pf.Model, names []string, fields [][]float64, fin []finisher, t float64) {
	real := map[string]pf.Brick{}
	for j, nm := range names {
		for i := range m.Fields {
			if m.Fields[i].Name == nm {
				copy(m.Fields[i].Data, cplx(fields[j]))
				real[nm] = m.Fields[i]
			}
		}
	}
	m.SyncDerivedFields()
	for _, f := range fin {
		f.OnStepFinished(t, real)
	}
}

// real-space results of a term
func extra(t Term, c Case, fields [][]float64, g *lib.Grid) Extra {
	var x Extra
	bricks := map[string]pf.Brick{}
	n := g.N
	for j, nm := range c.Names {
		bricks[nm] = pf.NewField(nm, n, cplx(fields[j]))
	}
	ft := pfutil.NewFFTW(c.Shape)
	switch t.Op {
	case "charge":
		q := charge(t, ft)
		x.Current = q.Current(bricks[t.Field], n, true)
		k := make([]complex128, n)
		for i := range k {
			k[i] = bricks[t.Field].Get(i)
		}
		x.CurrentK = q.Current(pf.NewField(t.Field, n, g.DFT(k)), n, false)
	case "mix", "mixfunc":
		q := mix(t)
		x.Energy = []float64{q.GetEnergy(bricks, n)}
		for i := 0; i < n; i++ {
			x.Eval = append(x.Eval, real(q.Eval(i, bricks)))
		}
	case "pair":
		q := pair(t)
		x.Energy = []float64{q.GetEnergy(bricks, ft, c.Shape)}
	case "pairexp":
		q := pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: pair(t)}
		x.Energy = []float64{q.GetEnergy(bricks, ft, c.Shape)}
	case "adv", "divgrad", "sqgrad":
		in := make([]complex128, n)
		for i := range in {
			in[i] = bricks[t.Field].Get(i)
		}
		for d := range c.Shape {
			for _, keep := range []bool{false, true} {
				q := pf.GradientCalculator{FT: ft, Comp: d, KeepNyquist: keep}
				out := make([]complex128, n)
				q.Calculate(in, out)
				re, im := split(out)
				if keep {
					x.Keep, x.KeepIm = append(x.Keep, re), append(x.KeepIm, im)
				} else {
					x.Grad, x.GradIm = append(x.Grad, re), append(x.GradIm, im)
				}
			}
		}
	}
	return x
}

func build(c Case, values func(j int) []complex128) (*pf.Model, *pf.Solver, []finisher) {
	m := pf.NewModel()
	g := lib.NewGrid(c.Shape)
	for _, nm := range c.Names {
		m.AddField(pf.NewField(nm, g.N, nil))
	}
	m.AddScalar(pf.NewScalar("NOTHING", 0))
	var fin []finisher
	for i, t := range c.Terms {
		register(&m, i, t, c.Shape)
		if x, ok := m.ExplicitTerms[name(i)]; ok {
			fin = append(fin, x)
		}
	}
	for j := range c.Names {
		m.AddEquation(text(c, j))
	}
	// values before the solver is made, as in ordinary use
	for j, nm := range c.Names {
		for i := range m.Fields {
			if m.Fields[i].Name == nm {
				copy(m.Fields[i].Data, values(j))
			}
		}
	}
	return &m, pf.NewSolver(&m, c.Shape, dt), fin
}

func current(m *pf.Model, names []string) [][]complex128 {
	var r [][]complex128
	for _, nm := range names {
		for _, f := range m.Fields {
			if f.Name == nm {
				r = append(r, append([]complex128{}, f.Data...))
			}
		}
	}
	return r
}

// again lets the model go on and compares every step with the first step of a model made anew.
func again(c Case, m *pf.Model, s *pf.Solver) []float64 {
	var r []float64
	for i := 0; i < 2; i++ {
		v := current(m, c.Names)
		s.Solve(1, 1)
		m2, s2, _ := build(c, func(j int) []complex128 { return v[j] })
		s2.Solve(1, 1)
		a, b := current(m, c.Names), current(m2, c.Names)
		for j := range a {
			r = append(r, lib.MaxDiff(a[j], b[j]), lib.MaxAbs(b[j]))
		}
	}
	return r
}

func play(c Case, row *Row) {
	g := lib.NewGrid(c.Shape)
	m, s, fin := build(c, func(j int) []complex128 { return cplx(c.Steps[0].Fields[j]) })
	for i, st := range c.Steps {
		if i > 0 {
			set(m, c.Names, st.Fields, fin, float64(i)*dt)
		}
		s.Solve(1, 1)
		var o StepOut
		observe(g, m, c.Names, &o)
		for _, t := range c.Terms {
			o.Extra = append(o.Extra, extra(t, c, st.Fields, g))
		}
		F := map[string][]complex128{}
		for j, nm := range c.Names {
			F[nm] = cplx(st.Fields[j])
		}
		for j := range c.Names {
			rate, own := rates(c, j, g, F)
			re, im := split(rate)
			o.Rate, o.RateI, o.Own = append(o.Rate, re), append(o.RateI, im), append(o.Own, own)
		}
		row.Steps = append(row.Steps, o)
	}
	row.Again = again(c, m, s)
	c.Shape = c.Other
	row.Other = onOther(c)
}

func playMisfit(q *Misfit, row *Row) {
	g := lib.NewGrid(q.Case.Shape)
	eps := mat.NewDense(3, 3, append([]float64{}, q.Case.Misfit...))
	term := pf.NewHomogeneousModolus("phase", q.Case.Shape, elasticity.FromFlatVoigt(q.Case.Voigt), eps)
	values := func(i int) []float64 {
		v := make([]float64, g.N)
		st := q.Steps[i]
		for x := range v {
			v[x] = st.W[lib.Pos(q.Case.Shape, x)[st.Axis]] / 2
		}
		return v
	}
	m := pf.NewModel()
	m.AddField(pf.NewField("phase", g.N, cplx(values(0))))
	m.RegisterExplicitTerm("ELASTIC", term, nil)
	sign := ""
	if q.Case.S < 0 {
		sign = "-"
	}
	m.AddEquation("dphase/dt = " + sign + "ELASTIC")
	s := pf.NewSolver(&m, q.Case.Shape, dt)
	for i := range q.Steps {
		if i > 0 {
			set(&m, []string{"phase"}, [][]float64{values(i)}, []finisher{term}, float64(i)*dt)
		}
		before := values(i)
		s.Solve(1, 1)
		var o StepOut
		re := make([]float64, g.N)
		im := 0.0
		for x, v := range m.Fields[0].Data {
			re[x] = (real(v) - before[x]) / dt * float64(q.Case.S)
			im = math.Max(im, math.Abs(imag(v)))
		}
		o.Re, o.Imag = [][]float64{re}, []float64{im}
		rate := misfitRate(q.Case.Shape, term.MatProp, q.Case.Misfit, before)
		o.Rate = [][]float64{rate}
		row.Steps = append(row.Steps, o)
	}

	// the same material, turned about the third axis, on another grid and with other values
	shape := q.Other
	g = lib.NewGrid(shape)
	c := elasticity.FromFlatVoigt(q.Case.Voigt)
	c.Rotate(elasticity.RotationMatrix(0.4, 2))
	term = pf.NewHomogeneousModolus("phase", shape, c, eps)
	v := make([]float64, g.N)
	for i := range v {
		v[i] = 1.5*random.Float64() - 0.25
	}
	m = pf.NewModel()
	m.AddField(pf.NewField("phase", g.N, cplx(v)))
	m.RegisterExplicitTerm("ELASTIC", term, nil)
	m.AddEquation("dphase/dt = " + sign + "ELASTIC")
	s = pf.NewSolver(&m, shape, dt)
	s.Solve(1, 1)
	want := misfitRate(shape, c, q.Case.Misfit, v)
	got, dev, im, size := m.Fields[0].Data, 0.0, 0.0, 1.0
	for i := range v {
		dev = math.Max(dev, math.Abs((real(got[i])-v[i])/dt*float64(q.Case.S)-want[i]))
		im = math.Max(im, math.Abs(imag(got[i])))
		size = math.Max(size, math.Abs(want[i]))
	}
	row.Other = []float64{dev * dt, im, size}
}

func main() {
	var cases []Case
	lib.Start(&cases)
	random = rand.New(rand.NewSource(lib.Seed()))
	for i, c := range cases {
		row := Row{Case: i, Steps: []StepOut{}}
		row.Msg = lib.Try(func() {
			if c.Misfit != nil {
				playMisfit(c.Misfit, &row)
			} else {
				play(c, &row)
			}
		})
		lib.Emit(row)
	}
	lib.Done()
}
