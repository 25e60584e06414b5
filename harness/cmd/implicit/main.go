// Command implicit offers terms to real models as implicit terms.
package main

import (
	"io/ioutil"
	"log"

	"github.com/davidkleiven/gopf/pf"
	"verifharness/lib"
)

// Mono is a monomial.
type Mono struct {
	C int      `json:"c"`
	V []string `json:"v"`
	W string   `json:"w"`
}

// Case is one offered term.
type Case struct {
	P     []Mono `json:"p"`
	Shape []int  `json:"shape"`
	Seed  int64  `json:"seed"`
	Early bool   `json:"early"`
	Own   string `json:"own"`
}

// Row is the outcome.
type Row struct {
	Case    int    `json:"case"`
	Verdict string `json:"verdict"`
	Msg     string `json:"msg"`
}

type term struct{ p []Mono }

func (u *term) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, data []complex128) {
		for i := range data {
			f := freq(i)
			data[i] = 0
			for _, m := range u.p {
				v := complex(float64(m.C), 0)
				switch m.W {
				case "freq":
					s := 0.0
					for a := range f {
						s += float64(a+1) * f[a] * f[a]
					}
					v *= complex(s, 0)
				case "diff":
					v *= complex(f[0]-f[len(f)-1], 0)
				case "last":
					if i != len(data)-1 {
						v = 0
					}
				case "neg":
					if f[0] > -1e-10 {
						v = 0
					}
				case "low":
					if f[0] < 1e-10 || f[0] > 0.3 {
						v = 0
					}
				case "time":
					v *= complex(t, 0)
				}
				for _, r := range m.V {
					if r == "A0" {
						v *= b["A"].Get(0)
					} else {
						v *= b[r].Get(i)
					}
				}
				data[i] += v
			}
		}
	}
}

func (u *term) OnStepFinished(t float64, b map[string]pf.Brick) {}

func run(k int, c Case) (row Row) {
	row.Case = k
	p := lib.Prog{D: lib.Decl{Fields: []string{"A", "B"}}}
	w := lib.NewWorld(p, c.Shape, c.Seed, false)
	row.Msg = lib.Try(func() {
		m := pf.NewModel()
		for f, n := range p.D.Fields {
			m.AddField(pf.NewField(n, w.G.N, w.Init[f]))
		}
		m.AddScalar(pf.NewScalar("k", 1.3))
		der := []pf.DerivedField{{Name: "D", Data: make([]complex128, w.G.N), Calc: func(d []complex128) {
			for i := range d {
				d[i] = m.Bricks["A"].Get(i) * m.Bricks["A"].Get(i)
			}
		}}}
		reg := func() {
			m.RegisterFunction("F", func(i int, b map[string]pf.Brick) complex128 { return 1 / (1 + b["B"].Get(i)) })
			m.RegisterImplicitTerm("TERM", &term{c.P}, der)
		}
		eqs := func() {
			m.AddEquation("dA/dt = TERM")
			m.AddEquation("dB/dt = k*B")
		}
		if c.Early {
			reg()
			eqs()
		} else {
			eqs()
			reg()
		}
		pf.NewSolver(&m, c.Shape, 0.01)
	})
	row.Verdict = "accepted"
	if row.Msg != "" {
		row.Verdict = "refused"
	}
	return
}

func main() {
	var cases []Case
	lib.Start(&cases)
	log.SetOutput(ioutil.Discard)
	for k, c := range cases {
		lib.Emit(run(k, c))
		lib.Flush()
	}
	lib.Done()
}
