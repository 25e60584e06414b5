// Command solver runs scenarios through the real solver and records what it does: evaluations of derived
// quantities, right-hand sides and sources, notifications, callbacks and monitor records, each with its time and
// the instant whose field values it saw.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"log"
	"math"
	"math/cmplx"
	"os"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verifharness/lib"
)

// Op is one call of the user.
type Op struct {
	Kind  string `json:"kind"`
	Eps   int    `json:"eps"`
	Steps int    `json:"steps"`
}

// Case is one scenario.
type Case struct {
	lib.Prog
	Shape   []int            `json:"shape"`
	Seed    int64            `json:"seed"`
	Scheme  string           `json:"scheme"`
	Plan    []lib.Instr      `json:"plan"`
	Dt      float64          `json:"dt"`
	Start   int              `json:"start"`
	Epoch   int              `json:"epoch"`
	Ncb     int              `json:"ncb"`
	Nmon    int              `json:"nmon"`
	Order   int              `json:"order"`
	Ops     []Op             `json:"ops"`
	Sources []lib.SourceSpec `json:"sources"`
}

// Rec is one line of the recording.
type Rec struct {
	Ev     string   `json:"ev"`
	Case   int      `json:"case"`
	Name   string   `json:"name"`
	T      int      `json:"t"`
	Inst   int      `json:"inst"`
	Der    int      `json:"der"`
	I      int      `json:"i"`
	Epoch  int      `json:"epoch"`
	Kind   string   `json:"kind"`
	Eps    int      `json:"eps"`
	Steps  int      `json:"steps"`
	Scheme string   `json:"scheme"`
	Terms  []string `json:"terms"`
	Rates  []string `json:"rates"`
	Owns   []string `json:"owns"`
	Calcs  []string `json:"calcs"`
	Srcs   []string `json:"srcs"`
	Ncb    int      `json:"ncb"`
	Nmon   int      `json:"nmon"`
	Start  int      `json:"start"`
	Msg    string   `json:"msg"`
}

type instant struct {
	id   int
	real [][]complex128
	ft   [][]complex128
	der  map[string][]complex128 // transformed derived quantities
}

type runner struct {
	k     int
	c     Case
	w     *lib.World
	insts []instant
	out   []Rec
	seen  map[string]bool
	bad   bool // the scenario cannot be judged
}

const tol = 1e-7

func (r *runner) half(t float64) int {
	h := 2 * t / r.c.Dt
	n := math.Round(h)
	if math.Abs(h-n) > 1e-6 {
		return -999
	}
	return int(n)
}

func dist(a, b [][]complex128, n int) float64 {
	m := 0.0
	for f := range a {
		for i := range a[f] {
			if d := cmplx.Abs(a[f][i] - b[f][i]); d > m || math.IsNaN(d) {
				m = d
			}
		}
	}
	return m / float64(n)
}

func (r *runner) read(names []string) [][]complex128 {
	out := make([][]complex128, len(names))
	for f, n := range names {
		out[f] = make([]complex128, r.w.G.N)
		b := r.w.Model.Bricks[n]
		if b == nil {
			return out
		}
		for i := range out[f] {
			out[f][i] = b.Get(i)
		}
	}
	return out
}

// which instant the stored fields (in real space) belong to
func (r *runner) inst() int {
	cur := r.read(r.c.D.Fields)
	for _, x := range r.insts {
		if dist(cur, x.real, 1) < tol {
			return x.id
		}
	}
	return -1
}

// which instant the stored fields and derived quantities (transformed) belong to
func (r *runner) instFT() (int, int) {
	cur := r.read(r.c.D.Fields)
	id, der := -1, -1
	for _, x := range r.insts {
		if dist(cur, x.ft, r.w.G.N) < tol {
			id = x.id
		}
		all := true
		for n, v := range x.der {
			if dist(r.read([]string{n}), [][]complex128{v}, r.w.G.N) >= tol {
				all = false
			}
		}
		if all && (der < 0 || x.id == id) {
			der = x.id
		}
	}
	if len(r.insts) > 0 && len(r.insts[0].der) == 0 {
		der = id
	}
	return id, der
}

func (r *runner) add(e Rec) {
	e.Case = r.k
	if r.c.Scheme != "euler" && r.c.Scheme != "rk4" {
		// other schemes evaluate many times per step, every kind of evaluation is recorded once between other events
		switch e.Ev {
		case "calc", "rate", "own", "src":
			key := fmt.Sprint(e.Ev, e.Name, e.T)
			if r.seen[key] {
				return
			}
			r.seen[key] = true
		default:
			r.seen = map[string]bool{}
		}
	}
	r.out = append(r.out, e)
}

type mon struct {
	r     *runner
	i     int
	inner pf.PointMonitor
}

// MarshalJSON is that of the monitor inside.
func (m *mon) MarshalJSON() ([]byte, error) { return json.Marshal(m.inner) }

func (m *mon) Add(b map[string]pf.Brick) {
	n := len(m.inner.Data)
	m.inner.Add(b)
	id := m.r.inst()
	if len(m.inner.Data) != n+1 || m.inner.Data[n] != real(m.r.w.Model.Fields[0].Data[m.inner.Site]) {
		id = -1
	}
	m.r.add(Rec{Ev: "mon", I: m.i, Inst: id})
}

func (r *runner) derived(fields [][]complex128) map[string][]complex128 {
	out := map[string][]complex128{}
	vals := func(i int) []complex128 {
		v := make([]complex128, len(fields))
		for f := range v {
			v[f] = fields[f][i]
		}
		return v
	}
	for j, n := range r.c.D.Funcs {
		d := make([]complex128, r.w.G.N)
		for i := range d {
			d[i] = lib.Func(j, vals(i))
		}
		out[n] = r.w.G.DFT(d)
	}
	for j, u := range r.c.D.UTerms {
		if u.K == "imp" {
			continue
		}
		d1, d2 := make([]complex128, r.w.G.N), make([]complex128, r.w.G.N)
		for i := range d1 {
			d1[i], d2[i] = lib.UDer(j, vals(i))
		}
		out[lib.DerName(u.N, 1)], out[lib.DerName(u.N, 2)] = r.w.G.DFT(d1), r.w.G.DFT(d2)
	}
	return out
}

func (r *runner) instantOf(id int, fields [][]complex128) instant {
	x := instant{id: id, real: fields, der: r.derived(fields)}
	for f := range fields {
		x.ft = append(x.ft, r.w.G.DFT(fields[f]))
	}
	return x
}

// the instants of the whole run, from the specification's evaluator
func (r *runner) predict() {
	c := r.c
	total := 0
	for _, o := range c.Ops {
		total += o.Eps * o.Steps
	}
	y := r.w.Init
	// a second run from slightly different values: runs that amplify differences too much cannot be judged
	z := make([][]complex128, len(y))
	for f := range y {
		for i, v := range y[f] {
			z[f] = append(z[f], v*complex(1+1e-9*float64(1-2*((i+f)%2)), 0))
		}
	}
	r.insts = append(r.insts, r.instantOf(10*c.Start, y))
	for n := c.Start; n < c.Start+total; n++ {
		s := r.w.Step(c.Plan, y, float64(n)*c.Dt, c.Dt, false)
		if s.Near || s.Scale > 20 {
			r.bad = true
			return
		}
		for k, reg := range []string{"s2", "s3", "s4"} {
			if f, ok := s.Stages[reg]; ok {
				r.insts = append(r.insts, r.instantOf(10*n+k+2, f))
			}
		}
		y = s.New
		z = r.w.Step(c.Plan, z, float64(n)*c.Dt, c.Dt, false).New
		if z == nil || !(dist(y, z, 1) < 1e-6) {
			r.bad = true
			return
		}
		r.insts = append(r.insts, r.instantOf(10*(n+1), y))
	}
	// instants that cannot be told apart cannot be judged
	for i := range r.insts {
		for j := 0; j < i; j++ {
			if !(dist(r.insts[i].real, r.insts[j].real, 1) > 30*tol) {
				r.bad = true
			}
			for n := range r.insts[i].der {
				if !(dist([][]complex128{r.insts[i].der[n]}, [][]complex128{r.insts[j].der[n]}, r.w.G.N) > 3*tol) {
					r.bad = true
				}
			}
		}
	}
}

func (r *runner) run() {
	c := r.c
	exact := c.Scheme == "euler" || c.Scheme == "rk4"
	r.w = lib.NewWorld(c.Prog, c.Shape, c.Seed, false)
	r.w.Sources = c.Sources
	if exact {
		r.predict()
		if r.bad {
			return
		}
	}
	used := map[string]bool{}
	for _, eq := range c.Meaning {
		for _, p := range eq {
			used[p.U] = true
		}
	}
	conf := Rec{Ev: "reset", Scheme: c.Scheme, Ncb: c.Ncb, Nmon: c.Nmon, Start: c.Start, Epoch: c.Epoch,
		Terms: []string{}, Rates: []string{}, Owns: []string{}, Calcs: []string{}, Srcs: []string{}}
	conf.Calcs = append(conf.Calcs, c.D.Funcs...)
	for _, u := range c.D.UTerms {
		conf.Terms = append(conf.Terms, u.N)
		if u.K != "imp" {
			conf.Calcs = append(conf.Calcs, lib.DerName(u.N, 1), lib.DerName(u.N, 2))
			if used[u.N] {
				conf.Rates = append(conf.Rates, u.N)
			}
		}
		if u.K != "exp" && used[u.N] {
			conf.Owns = append(conf.Owns, u.N)
		}
	}
	for k := range c.Sources {
		conf.Srcs = append(conf.Srcs, "source"+string(rune('0'+k)))
	}
	r.add(conf)
	lastSrc := Rec{}
	r.w.OnCalc = func(n string) { r.add(Rec{Ev: "calc", Name: n, Inst: r.inst()}) }
	r.w.OnRate = func(n string, t float64) {
		id, der := 0, 0
		if exact {
			id, der = r.instFT()
		}
		r.add(Rec{Ev: "rate", Name: n, T: r.half(t), Inst: id, Der: der})
	}
	r.w.OnOwn = func(n string, t float64) { r.add(Rec{Ev: "own", Name: n, T: r.half(t)}) }
	r.w.OnNote = func(n string, t float64) { r.add(Rec{Ev: "note", Name: n, T: r.half(t), Inst: r.inst()}) }
	r.w.OnSrc = func(n string, t float64) {
		e := Rec{Ev: "src", Name: n, T: r.half(t)}
		if exact {
			e.Inst, _ = r.instFT()
		}
		if len(r.out) > 0 && r.out[len(r.out)-1].Ev == "src" && e.Name == lastSrc.Name && e.T == lastSrc.T && e.Inst == lastSrc.Inst {
			return // one evaluation asks for the strength node by node
		}
		lastSrc = e
		r.add(e)
	}
	msg := lib.Try(func() {
		own := r.w.OnOwn
		r.w.OnOwn = nil // initialisation probes implicit terms
		m := r.w.Build(c.Order)
		s := pf.NewSolver(m, c.Shape, c.Dt)
		r.w.OnOwn = own
		switch c.Scheme {
		case "euler", "rk4":
			s.SetStepper(c.Scheme)
			switch st := s.Stepper.(type) {
			case *pf.Euler:
				st.CurrentStep = c.Start
			case *pf.RK4:
				st.CurrentStep = c.Start
			}
		case "implicit":
			s.Stepper = &pf.ImplicitEuler{Dt: c.Dt, FT: pfutil.NewFFTW(c.Shape), CurrentStep: c.Start}
		case "sdd":
			sdd := pf.NewSDD(c.Shape, m)
			sdd.Dt = c.Dt
			sdd.CurrentStep = c.Start
			or := make([]float64, len(c.D.Fields)*r.w.G.N)
			for i := range or {
				or[i] = 0.1 + 0.05*float64(i%3)
			}
			sdd.SetInitialOrientation(or)
			s.Stepper = &sdd
		}
		s.StartEpoch = c.Epoch
		for i := 1; i <= c.Ncb; i++ {
			i := i
			s.AddCallback(func(s *pf.Solver, epoch int) {
				r.add(Rec{Ev: "cb", I: i, Epoch: epoch, T: r.half(s.Stepper.GetTime()), Inst: r.inst()})
			})
		}
		for i := 1; i <= c.Nmon; i++ {
			s.AddMonitor(&mon{r: r, i: i, inner: pf.NewPointMonitor((i*5)%r.w.G.N, c.D.Fields[0])})
		}
		for _, o := range c.Ops {
			r.add(Rec{Ev: "begin", Kind: o.Kind, Eps: o.Eps, Steps: o.Steps})
			switch o.Kind {
			case "solve":
				s.Solve(o.Eps, o.Steps)
			case "filter":
				s.Stepper.SetFilter(keep{})
			case "direct":
				p, ok := s.Stepper.(interface{ Propagate(int, *pf.Model) })
				for i := 0; i < o.Steps; i++ {
					if ok && c.Seed%2 == 0 {
						p.Propagate(1, m)
					} else {
						s.Stepper.Step(m)
					}
					r.add(Rec{Ev: "tick", T: r.half(s.Stepper.GetTime()), Inst: r.inst()})
				}
			default:
				s.Propagate(o.Steps)
			}
			id := r.inst()
			if !exported(s) {
				id = -1
			}
			r.add(Rec{Ev: "end", T: r.half(s.Stepper.GetTime()), Inst: id})
		}
	})
	if msg != "" {
		r.add(Rec{Ev: "panic", Msg: msg})
	}
}

// exported tells if the exported monitors are the monitors, in order, with all their data.
func exported(s *pf.Solver) bool {
	var got []pf.PointMonitor
	for _, m := range s.Monitors {
		for _, d := range m.(*mon).inner.Data {
			if math.IsNaN(d) || math.IsInf(d, 0) {
				return true // there are no such numbers in JSON
			}
		}
	}
	if json.Unmarshal(s.JSONifyMonitors(), &got) != nil || len(got) != len(s.Monitors) {
		return false
	}
	for i := range got {
		in := s.Monitors[i].(*mon).inner
		if got[i].Site != in.Site || got[i].Field != in.Field || got[i].Name != in.Name || len(got[i].Data) != len(in.Data) {
			return false
		}
		for j := range in.Data {
			if got[i].Data[j] != in.Data[j] {
				return false
			}
		}
	}
	return true
}

// keep is a filter that keeps everything
type keep struct{}

func (k keep) Eval(x float64) float64 { return 1 }

// tail keeps ordinary progress messages out of the way
type tail struct{}

func (t *tail) Write(p []byte) (int, error) {
	if !bytes.Contains(p, []byte("Step ")) && !bytes.Contains(p, []byte("did not converge")) {
		os.Stderr.Write(p)
	}
	return len(p), nil
}

func main() {
	var cases []Case
	lib.Start(&cases)
	log.SetOutput(&tail{})
	for k, c := range cases {
		fmt.Fprintf(os.Stderr, "@case %d\n", k)
		r := &runner{k: k, c: c}
		r.run()
		if r.bad {
			continue
		}
		for _, e := range r.out {
			for _, l := range []*[]string{&e.Terms, &e.Rates, &e.Owns, &e.Calcs, &e.Srcs} {
				if *l == nil {
					*l = []string{}
				}
			}
			lib.Emit(e)
		}
		lib.Flush()
	}
	lib.Done()
}
