// Command implstep runs models with the fully implicit scheme and evaluates, with the meaning given by the
// specification, whether the fields it returns satisfy the relation of the plan.
package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"math"
	"math/cmplx"
	"os"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"verifharness/lib"
)

// Case is one model and how it is run.
type Case struct {
	lib.Prog
	Shape   []int            `json:"shape"`
	Seed    int64            `json:"seed"`
	Plan    []lib.Instr      `json:"plan"`
	Dt      float64          `json:"dt"`
	Steps   int              `json:"steps"`
	Start   int              `json:"start"`
	Order   int              `json:"order"`
	Unit    float64          `json:"unit"`
	Tight   bool             `json:"tight"`
	Sources []lib.SourceSpec `json:"sources"`
}

// Row is the outcome.
type Row struct {
	Case      int     `json:"case"`
	Ok        bool    `json:"ok"`
	Msg       string  `json:"msg"`
	Compared  int     `json:"compared"`
	Linear    int     `json:"linear"` // of those, without explicit part
	Worst     float64 `json:"worst"`
	Converged int     `json:"converged"`
	Failed    int     `json:"failed"`
}

const tol = 2e-6

// phi is the integral of e^{a(dt-s)} over the step, and psi that of e^{a(dt-s)} s/dt.
func phi(a complex128, dt float64) (complex128, complex128) {
	x := a * complex(dt, 0)
	cdt := complex(dt, 0)
	if cmplx.Abs(x) < 0.3 { // power series
		p, q, term := complex(0, 0), complex(0, 0), complex(1, 0)
		for n := 0; n < 20; n++ { // term = x^n/n!
			p += term / complex(float64(n+1), 0)
			q += term / complex(float64((n+1)*(n+2)), 0)
			term *= x / complex(float64(n+1), 0)
		}
		return cdt * p, cdt * q
	}
	e := cmplx.Exp(x)
	return (e - 1) / a, (e - 1 - x) / (a * a) / cdt
}

func run(k int, c Case) (row Row) {
	row = Row{Case: k}
	w := lib.NewWorld(c.Prog, c.Shape, c.Seed, false)
	w.Sources = c.Sources
	c.Dt *= w.SetUnit(c.Unit)
	var s *pf.Solver
	var st *pf.ImplicitEuler
	if msg := lib.Try(func() {
		s = pf.NewSolver(w.Build(c.Order), c.Shape, c.Dt)
		st = &pf.ImplicitEuler{Dt: c.Dt, FT: s.FT.(*pfutil.FFTWWrapper), CurrentStep: c.Start}
		if c.Tight {
			ns := pf.DefaultNonLinSolver()
			ns.Tol = 1e-10
			st.NonlinSolver = &ns
		}
		s.Stepper = st
	}); msg != "" {
		row.Msg = "refused: " + msg
		return
	}
	row.Ok = true
	y := w.Init
	// models that grow quickly are outside what the nonlinear solver is made for
	for _, o := range w.Own(float64(c.Start) * c.Dt) {
		for _, a := range o {
			if real(a)*c.Dt > 1.5 {
				return
			}
		}
	}
	for _, o := range w.Rates(y, float64(c.Start)*c.Dt) {
		if lib.MaxAbs(w.G.IDFT(o))*c.Dt > 2 {
			return
		}
	}
	for n := 0; n < c.Steps; n++ {
		var buf bytes.Buffer
		log.SetOutput(io.MultiWriter(&buf, os.Stderr))
		if msg := lib.Try(func() { s.Propagate(1) }); msg != "" {
			row.Ok, row.Msg = false, fmt.Sprintf("step %d: %s", n, msg)
			return
		}
		y1 := make([][]complex128, len(y))
		for f := range y {
			if s.Model.Fields[f].Name != c.D.Fields[f] {
				row.Ok, row.Msg = false, "fields changed identity"
				return
			}
			y1[f] = append([]complex128{}, s.Model.Fields[f].Data...)
		}
		if bytes.Contains(buf.Bytes(), []byte("onverge")) {
			row.Failed++
			return
		}
		row.Converged++
		if w.Unsafe(y) || w.Unsafe(y1) {
			return
		}
		t := float64(c.Start+n) * c.Dt
		regs := map[string][][]complex128{"y0": y, "y1": y1}
		rates := map[string][][]complex128{}
		scale, linear := 1.0, true
		for _, in := range c.Plan {
			switch in.Op {
			case "eval":
				rates[in.Out] = w.Rates(regs[in.At], t+0.5*float64(in.T)*c.Dt)
				for f := range rates[in.Out] {
					m := lib.MaxAbs(rates[in.Out][f])
					linear = linear && m == 0
					scale = math.Max(scale, m*c.Dt/float64(w.G.N))
				}
			case "prop":
				own := w.Own(t)
				for f := range y {
					b := w.G.DFT(regs[in.Base][f])
					e := make([]complex128, w.G.N)
					for i := range e {
						p, q := phi(own[f][i], c.Dt*0.5*float64(in.A))
						k1, k2 := rates[in.Ks[0].K][f][i], rates[in.Ks[1].K][f][i]
						e[i] = b[i]*cmplx.Exp(own[f][i]*complex(c.Dt*0.5*float64(in.A), 0)) + k1*p + (k2-k1)*q
					}
					want := w.G.IDFT(e)
					scale = math.Max(scale, lib.MaxAbs(want))
					if scale > 1e3 || math.IsNaN(scale) {
						return
					}
					d := lib.MaxDiff(regs[in.Out][f], want) / scale
					row.Worst = math.Max(row.Worst, d)
					if !(d <= tol) {
						row.Ok = false
						row.Msg = fmt.Sprintf("step %d, field %s: the new fields miss the update equation by %.3g (scale %.3g), node 0: code %v, equation %v",
							n, c.D.Fields[f], d*scale, scale, regs[in.Out][f][0], want[0])
						return
					}
				}
			}
		}
		row.Compared++
		if linear {
			row.Linear++
		}
		y = y1
	}
	return
}

func main() {
	var cases []Case
	lib.Start(&cases)
	for k, c := range cases {
		lib.Emit(run(k, c))
		lib.Flush()
	}
	lib.Done()
}
