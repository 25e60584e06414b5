package lib

import (
	"fmt"
	"math"
	"math/cmplx"
	"math/rand"
	"regexp"
	"strings"

	"github.com/davidkleiven/gopf/pf"
)

// Factor is a name with twice its power.
type Factor struct {
	N string `json:"n"`
	P int    `json:"p"`
}

// Part is one contribution to an equation as the specification means it.
type Part struct {
	Kind string   `json:"kind"`
	S    int      `json:"s"`
	L    int      `json:"l"`
	F    []Factor `json:"f"`
	U    string   `json:"u"`
}

// UTerm is a registered term and its kind (imp, exp, mix).
type UTerm struct {
	N string `json:"n"`
	K string `json:"k"`
}

// Decl lists the names of a model.
type Decl struct {
	Fields []string `json:"fields"`
	Consts []string `json:"consts"`
	Funcs  []string `json:"funcs"`
	UTerms []UTerm  `json:"uterms"`
}

// Prog is a model in text form and its meaning, both produced by the specification.
type Prog struct {
	D       Decl     `json:"d"`
	Text    []string `json:"text"`
	Lhs     []string `json:"lhs"`
	Meaning [][]Part `json:"meaning"`
	Alt     [][]Part `json:"alt"` // the known deviation, empty when it does not differ
	Bad     bool     `json:"bad"`
}

// KW is a weighted register of a combination.
type KW struct {
	K string `json:"k"`
	W int    `json:"w"` // in sixths
}

// Instr is one instruction of a time stepping plan produced by the specification.
type Instr struct {
	Op   string `json:"op"`
	Out  string `json:"out"`
	At   string `json:"at"`
	T    int    `json:"t"` // in halves of the step
	Base string `json:"base"`
	Ks   []KW   `json:"ks"`
	A    int    `json:"a"` // fraction of the step over which the implicit part acts, in halves
}

// SourceSpec is a point source of the equation of field number F.
type SourceSpec struct {
	F   int       `json:"f"`
	Pos []float64 `json:"pos"`
	A   float64   `json:"a"`
	B   float64   `json:"b"`
}

// Strength is the source strength at time t.
func (s SourceSpec) Strength(t float64) float64 { return s.A + s.B*t + 0.3*s.A*math.Sin(5*t) }

// ModSpec is a modifier of the right-hand side of the equation of field number F.
type ModSpec struct {
	F    int    `json:"f"`
	Kind string `json:"kind"`
}

// Apply applies the modifier.
func (m ModSpec) Apply(data []complex128) {
	switch m.Kind {
	case "scale":
		for i := range data {
			data[i] *= 0.5
		}
	case "add":
		for i := range data {
			data[i] += complex(0.7, 0)
		}
	case "zeromean":
		data[0] = 0
	case "conj":
		for i := range data {
			data[i] = cmplx.Conj(data[i])
		}
	case "shift":
		first := data[0]
		copy(data, data[1:])
		data[len(data)-1] = first
	}
}

// Filter is the modal filter used by the checks.
type Filter struct{ Calls int }

// Eval is the transfer function.
func (f *Filter) Eval(x float64) float64 { f.Calls++; return filt(x) }

func filt(x float64) float64 { return 0.9 / (1 + 4*x*x) }

// World is a model together with the values the specification's evaluator uses.
type World struct {
	P       Prog
	G       *Grid
	Consts  map[string]float64
	Init    [][]complex128
	TimeA   bool
	Sources []SourceSpec
	Mods    []ModSpec
	Model   *pf.Model
	unit    float64 // 0, or the factor of all rates

	// what the probes in the model report to, all may be nil
	OnCalc func(name string)
	OnRate func(name string, t float64)
	OnOwn  func(name string, t float64)
	OnNote func(name string, t float64)
	OnSrc  func(name string, t float64)
}

func report(f func(string, float64), name string, t float64) {
	if f != nil {
		f(name, t)
	}
}

// NewWorld draws values.
func NewWorld(p Prog, shape []int, seed int64, timeA bool) *World {
	r := rand.New(rand.NewSource(seed))
	w := &World{P: p, G: NewGrid(shape), Consts: map[string]float64{}, TimeA: timeA}
	for i, c := range p.D.Consts {
		v := 0.4 + r.Float64()
		if i == 1 {
			v = -v
		}
		w.Consts[c] = v
	}
	for range p.D.Fields {
		d := make([]complex128, w.G.N)
		for i := range d {
			d[i] = complex(0.6+0.9*r.Float64(), 0)
		}
		w.Init = append(w.Init, d)
	}
	return w
}

// Func is the value of function number j at a node, from the field values there.
func Func(j int, f []complex128) complex128 {
	if j == 0 {
		return 1 + 1/(1+f[0]*f[0])
	}
	return 1.2 + 0.5*cmplx.Cos(f[len(f)-1]) + 0.1*f[0]
}

// UImp is the multiplier of the own field of registered term number j.
func UImp(j int, k2, t float64, timeA bool) complex128 {
	v := -(0.4 + 0.1*float64(j)) - 0.05*k2
	if timeA {
		v -= 0.8 * t
	}
	return complex(v, 0)
}

// UCoef are the coefficients of the explicit part of registered term j at time t.
func UCoef(j int, t float64) [3]complex128 {
	return [3]complex128{complex(0.3+0.1*float64(j)+0.9*t, 0), 0.15, complex(-0.25-0.5*t*t, 0)}
}

// UDer are the two derived fields of registered term j at a node.
func UDer(j int, f []complex128) (complex128, complex128) {
	return f[0]*f[0] + complex(0.5+float64(j), 0), cmplx.Cos(f[len(f)-1]) + complex(0.3*float64(j), 0)
}

// DerName names the derived fields of a registered term.
func DerName(u string, c int) string { return fmt.Sprintf("%s_der%d", u, c) }

func (w *World) at(fields [][]complex128, i int) []complex128 {
	v := make([]complex128, len(fields))
	for f := range fields {
		v[f] = fields[f][i]
	}
	return v
}

func (w *World) uIndex(n string) int {
	for j, u := range w.P.D.UTerms {
		if u.N == n {
			return j
		}
	}
	return -1
}

// value of a name at every node
func (w *World) value(n string, fields [][]complex128) ([]complex128, bool) {
	for i, f := range w.P.D.Fields {
		if f == n {
			return fields[i], true
		}
	}
	for j, f := range w.P.D.Funcs {
		if f == n {
			out := make([]complex128, w.G.N)
			for i := range out {
				out[i] = Func(j, w.at(fields, i))
			}
			return out, true
		}
	}
	out := make([]complex128, w.G.N)
	c, ok := w.Consts[n]
	for i := range out {
		out[i] = complex(c, 0)
	}
	return out, ok
}

// Unsafe reports that a half power would be taken outside the region where it is smooth.
func (w *World) Unsafe(fields [][]complex128) bool {
	for _, ps := range w.P.Meaning {
		for _, p := range ps {
			for _, f := range p.F {
				if f.P%2 == 1 {
					v, _ := w.value(f.N, fields)
					for _, x := range v {
						if real(x) < 0.02 || math.Abs(imag(x)) > 1e-9 {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func ipow(x complex128, p2 int) complex128 {
	if q, ok := map[int]float64{101: 1.25, 103: 0.75, 105: 2.125}[p2]; ok {
		return cmplx.Exp(complex(q, 0) * cmplx.Log(x))
	}
	if p2%2 == 1 {
		return cmplx.Sqrt(x) * ipow(x, p2-1)
	}
	r := complex(1, 0)
	for i := 0; i < p2/2; i++ {
		r *= x
	}
	return r
}

func lapl(v complex128, k2 float64, l int) complex128 {
	for i := 0; i < l; i++ {
		v *= complex(-k2, 0)
	}
	return v
}

// RatesBare evaluates the explicit right-hand sides (transformed), without sources and modifiers.
func (w *World) RatesBare(fields [][]complex128, t float64) [][]complex128 {
	out := make([][]complex128, len(fields))
	for e, ps := range w.P.Meaning {
		sum := make([]complex128, w.G.N)
		for _, p := range ps {
			if p.Kind != "rate" {
				continue
			}
			var ft []complex128
			if p.U != "" {
				j := w.uIndex(p.U)
				c := UCoef(j, t)
				v := make([]complex128, w.G.N)
				for i := range v {
					d1, d2 := UDer(j, w.at(fields, i))
					v[i] = c[0]*fields[0][i] + c[1]*d1 + c[2]*d2
				}
				ft = w.G.DFT(v)
			} else {
				v := make([]complex128, w.G.N)
				for i := range v {
					v[i] = 1
				}
				for _, f := range p.F {
					x, ok := w.value(f.N, fields)
					if !ok {
						panic("evaluator: unknown name " + f.N)
					}
					for i := range v {
						v[i] *= ipow(x[i], f.P)
					}
				}
				ft = w.G.DFT(v)
			}
			for i := range ft {
				sum[i] += complex(float64(p.S), 0) * lapl(ft[i], w.G.K2(i), p.L)
			}
		}
		out[e] = sum
	}
	return w.scaled(out)
}

// Rates adds sources and applies modifiers.
func (w *World) Rates(fields [][]complex128, t float64) [][]complex128 {
	out := w.RatesBare(fields, t)
	for _, s := range w.Sources {
		for i := range out[s.F] {
			ph := 0.0
			for a, f := range w.G.Freq(i) {
				ph += f * s.Pos[a]
			}
			out[s.F][i] += complex(s.Strength(t), 0) * cmplx.Rect(1, -2*math.Pi*ph)
		}
	}
	for _, m := range w.Mods {
		m.Apply(out[m.F])
	}
	return out
}

// Own evaluates the multipliers of the own fields.
func (w *World) Own(t float64) [][]complex128 {
	out := make([][]complex128, len(w.P.Meaning))
	for e, ps := range w.P.Meaning {
		sum := make([]complex128, w.G.N)
		for _, p := range ps {
			if p.Kind != "own" {
				continue
			}
			for i := range sum {
				v := complex(1, 0)
				if p.U != "" {
					v = UImp(w.uIndex(p.U), w.G.K2(i), t, w.TimeA)
				}
				for _, f := range p.F {
					v *= ipow(complex(w.Consts[f.N], 0), f.P)
				}
				sum[i] += complex(float64(p.S), 0) * lapl(v, w.G.K2(i), p.L)
			}
		}
		out[e] = sum
	}
	return w.scaled(out)
}

// SetUnit measures time in another unit: every term of every equation is multiplied by a constant c. Steps of dt/c then lead
// to the same fields. Models with registered terms, sources or modifiers keep their unit; the answer is the factor of dt.
func (w *World) SetUnit(c float64) float64 {
	if c == 0 || len(w.Sources) > 0 || len(w.Mods) > 0 {
		return 1
	}
	for _, ps := range w.P.Meaning {
		for _, p := range ps {
			if p.U != "" {
				return 1
			}
		}
	}
	text := make([]string, len(w.P.Text))
	for i, t := range w.P.Text {
		sides := strings.SplitN(t, "=", 2)
		text[i] = sides[0] + "=" + regexp.MustCompile(`[^+\-\s][^+\-]*`).ReplaceAllString(sides[1], "$0 * QQZ ")
	}
	w.P.Text, w.unit = text, c
	return 1 / c
}

func (w *World) scaled(rates [][]complex128) [][]complex128 {
	if w.unit != 0 {
		for e := range rates {
			for i := range rates[e] {
				rates[e][i] *= complex(w.unit, 0)
			}
		}
	}
	return rates
}

// Sensitive reports that the step amplifies differences as small as rounding errors so much that its result means little.
func (w *World) Sensitive(plan []Instr, y [][]complex128, r StepResult, t, dt float64, filter bool) bool {
	z := make([][]complex128, len(y))
	for f := range y {
		for i, v := range y[f] {
			z[f] = append(z[f], v+complex(1e-12*r.Scale*float64(1-2*((i+f)%2)), 1e-12*r.Scale*float64(1-2*((i/2+f)%2))))
		}
	}
	q := w.Step(plan, z, t, dt, filter)
	for f := range y {
		if q.Near || q.New == nil || !(MaxDiff(q.New[f], r.New[f]) < 1e-7*r.Scale) {
			return true
		}
	}
	return false
}

// StepResult is one step of a plan.
type StepResult struct {
	New    [][]complex128
	Stages map[string][][]complex128 // register -> real space fields
	Scale  float64
	Near   bool // a division by nearly zero or a half power outside its region
}

// Step carries out a plan in the evaluator.
func (w *World) Step(plan []Instr, y [][]complex128, t, dt float64, filter bool) StepResult {
	nf := len(y)
	spec := map[string][][]complex128{}
	res := StepResult{Stages: map[string][][]complex128{"y0": y}, Scale: 1}
	y0 := make([][]complex128, nf)
	for f := range y {
		y0[f] = w.G.DFT(y[f])
	}
	spec["y0"] = y0
	own := w.Own(t)
	grow := func(v []complex128) {
		for _, x := range v {
			if a := cmplx.Abs(x) / float64(w.G.N); a > res.Scale {
				res.Scale = a
			}
		}
	}
	last := "y0"
	for _, in := range plan {
		switch in.Op {
		case "eval":
			if w.Unsafe(res.Stages[in.At]) {
				res.Near = true
				return res
			}
			spec[in.Out] = w.Rates(res.Stages[in.At], t+0.5*float64(in.T)*dt)
			for f := range spec[in.Out] {
				for _, x := range spec[in.Out][f] {
					if a := cmplx.Abs(x) * dt / float64(w.G.N); a > res.Scale {
						res.Scale = a
					}
				}
			}
		case "comb":
			out := make([][]complex128, nf)
			st := make([][]complex128, nf)
			for f := range out {
				out[f] = make([]complex128, w.G.N)
				for i := range out[f] {
					v := spec[in.Base][f][i]
					for _, k := range in.Ks {
						v += complex(float64(k.W)/6*dt, 0) * spec[k.K][f][i]
					}
					den := 1 - complex(0.5*float64(in.A)*dt, 0)*own[f][i]
					if cmplx.Abs(den) < 0.05 {
						res.Near = true
					}
					out[f][i] = v / den
				}
				grow(out[f])
				st[f] = w.G.IDFT(out[f])
			}
			spec[in.Out], res.Stages[in.Out] = out, st
			last = in.Out
		case "filter":
			if !filter {
				continue
			}
			for f := range spec[in.Out] {
				for i := range spec[in.Out][f] {
					spec[in.Out][f][i] *= complex(filt(2*math.Sqrt(w.G.K2(i))/(2*math.Pi)/math.Pi), 0)
				}
				res.Stages[in.Out][f] = w.G.IDFT(spec[in.Out][f])
			}
		}
	}
	res.New = res.Stages[last]
	return res
}

// ---------------------------------------------------------------- the real model

type impTerm struct {
	j     int
	timeA bool
	name  string
	w     *World
}

// k2of: terms of the user index the components of the frequency by the dimension of the domain
func k2of(f []float64, dim int) float64 {
	s := 0.0
	for a := 0; a < dim; a++ {
		s += f[a] * f[a]
	}
	return 4 * math.Pi * math.Pi * s
}

func (u *impTerm) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, data []complex128) {
		report(u.w.OnOwn, u.name, t)
		for i := range data {
			data[i] = UImp(u.j, k2of(freq(i), len(u.w.G.Shape)), t, u.timeA)
		}
	}
}
func (u *impTerm) OnStepFinished(t float64, b map[string]pf.Brick) { report(u.w.OnNote, u.name, t) }

type expTerm struct {
	j     int
	name  string
	first string
	w     *World
}

func (u *expTerm) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, data []complex128) {
		report(u.w.OnRate, u.name, t)
		c := UCoef(u.j, t)
		for i := range data {
			data[i] = c[0]*b[u.first].Get(i) + c[1]*b[DerName(u.name, 1)].Get(i) + c[2]*b[DerName(u.name, 2)].Get(i)
		}
	}
}
func (u *expTerm) OnStepFinished(t float64, b map[string]pf.Brick) { report(u.w.OnNote, u.name, t) }

type mixTerm struct {
	impTerm
	e expTerm
}

func (u *mixTerm) ConstructLinear(b map[string]pf.Brick) pf.Term    { return u.impTerm.Construct(b) }
func (u *mixTerm) ConstructNonLinear(b map[string]pf.Brick) pf.Term { return u.e.Construct(b) }
func (u *mixTerm) OnStepFinished(t float64, b map[string]pf.Brick)  { report(u.w.OnNote, u.e.name, t) }

// Order says in which order things are registered in the real model.
const (
	FieldsFirst = iota // fields, constants, functions, terms, equations
	EqsEarly           // fields, equations, then the rest
	Mixed              // constants, fields, terms, functions, equations
	NumOrders
)

// Build registers everything in a real model.
func (w *World) Build(order int) *pf.Model { return w.BuildWith(order, nil) }

// BuildWith also registers whatever extra does, before the equations.
func (w *World) BuildWith(order int, extra func(m *pf.Model)) *pf.Model {
	m := pf.NewModel()
	w.Model = &m
	d := w.P.D
	addFields := func() {
		for i, f := range d.Fields {
			data := make([]complex128, w.G.N)
			copy(data, w.Init[i])
			m.AddField(pf.NewField(f, w.G.N, data))
		}
	}
	addConsts := func() {
		if w.unit != 0 {
			m.AddScalar(pf.NewScalar("QQZ", complex(w.unit, 0)))
		}
		for _, c := range d.Consts {
			m.AddScalar(pf.NewScalar(c, complex(w.Consts[c], 0)))
		}
	}
	addFuncs := func() {
		for j := range d.Funcs {
			j := j
			m.RegisterFunction(d.Funcs[j], func(i int, b map[string]pf.Brick) complex128 {
				if i == 0 && w.OnCalc != nil {
					w.OnCalc(d.Funcs[j])
				}
				v := make([]complex128, len(d.Fields))
				for f := range v {
					v[f] = b[d.Fields[f]].Get(i)
				}
				return Func(j, v)
			})
		}
	}
	der := func(j int) []pf.DerivedField {
		out := []pf.DerivedField{}
		for c := 1; c <= 2; c++ {
			c := c
			out = append(out, pf.DerivedField{Name: DerName(d.UTerms[j].N, c), Data: make([]complex128, w.G.N),
				Calc: func(data []complex128) {
					if w.OnCalc != nil {
						w.OnCalc(DerName(d.UTerms[j].N, c))
					}
					v := make([]complex128, len(d.Fields))
					for i := range data {
						for f := range v {
							v[f] = m.Bricks[d.Fields[f]].Get(i)
						}
						d1, d2 := UDer(j, v)
						if c == 1 {
							data[i] = d1
						} else {
							data[i] = d2
						}
					}
				}})
		}
		return out
	}
	addTerms := func() {
		for j, u := range d.UTerms {
			e := expTerm{j: j, name: u.N, first: d.Fields[0], w: w}
			switch u.K {
			case "imp":
				m.RegisterImplicitTerm(u.N, &impTerm{j: j, timeA: w.TimeA, name: u.N, w: w}, nil)
			case "exp":
				m.RegisterExplicitTerm(u.N, &e, der(j))
			case "mix":
				m.RegisterMixedTerm(u.N, &mixTerm{impTerm: impTerm{j: j, timeA: w.TimeA, name: u.N, w: w}, e: e}, der(j))
			}
		}
	}
	addEqs := func() {
		if extra != nil {
			extra(&m)
		}
		for _, t := range w.P.Text {
			m.AddEquation(t)
		}
	}
	switch order {
	case FieldsFirst:
		addFields()
		addConsts()
		addFuncs()
		addTerms()
		addEqs()
	case EqsEarly:
		addFields()
		addEqs()
		addTerms()
		addFuncs()
		addConsts()
	case Mixed:
		addConsts()
		addFields()
		addTerms()
		addFuncs()
		addEqs()
	}
	eqOf := func(f int) int {
		for i, l := range w.P.Lhs {
			if l == d.Fields[f] {
				return i
			}
		}
		return -1
	}
	for k, s := range w.Sources {
		k, s := k, s
		m.AddSource(eqOf(s.F), pf.NewSource(s.Pos, func(t float64) float64 {
			report(w.OnSrc, fmt.Sprintf("source%d", k), t)
			return s.Strength(t)
		}))
	}
	for _, md := range w.Mods {
		m.RegisterRHSModifier(eqOf(md.F), md.Apply)
	}
	return &m
}
