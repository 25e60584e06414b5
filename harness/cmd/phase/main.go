// Command phase runs models in text form through the real solver and through the evaluator that carries out the
// meaning and the time stepping plan given by the specification.
package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"math"

	"github.com/davidkleiven/gopf/pf"
	"verifharness/lib"
)

// Case is one model and how it is run.
type Case struct {
	lib.Prog
	Shape   []int            `json:"shape"`
	Seed    int64            `json:"seed"`
	Scheme  string           `json:"scheme"`
	Plan    []lib.Instr      `json:"plan"`
	Dt      float64          `json:"dt"`
	Steps   int              `json:"steps"`
	Start   int              `json:"start"`
	Filter  bool             `json:"filter"`
	TimeA   bool             `json:"timeA"`
	Order   int              `json:"order"`
	Unit    float64          `json:"unit"`
	Sources []lib.SourceSpec `json:"sources"`
	Mods    []lib.ModSpec    `json:"mods"`
}

// Row is the outcome.
type Row struct {
	Case     int     `json:"case"`
	Ok       bool    `json:"ok"`
	Msg      string  `json:"msg"`
	Compared int     `json:"compared"`
	Worst    float64 `json:"worst"`
	Refused  bool    `json:"refused"`
	Alt      bool    `json:"alt"` // the deviation is exactly the known one
}

const tol = 1e-7

func run(k int, c Case) (row Row) {
	row = Row{Case: k}
	w := lib.NewWorld(c.Prog, c.Shape, c.Seed, c.TimeA)
	w.Sources, w.Mods = c.Sources, c.Mods
	if !c.Bad {
		c.Dt *= w.SetUnit(c.Unit)
	}
	var s *pf.Solver
	msg := lib.Try(func() {
		m := w.Build(c.Order)
		s = pf.NewSolver(m, c.Shape, c.Dt)
		if c.Scheme != "euler" || c.Seed%2 == 0 {
			s.SetStepper(c.Scheme)
		}
		if c.Filter {
			s.Stepper.SetFilter(&lib.Filter{})
		}
		switch st := s.Stepper.(type) {
		case *pf.Euler:
			st.CurrentStep = c.Start
		case *pf.RK4:
			st.CurrentStep = c.Start
		}
	})
	if c.Bad {
		if msg == "" {
			msg = lib.Try(func() { s.Propagate(1) })
		}
		row.Ok, row.Refused, row.Msg = msg != "", msg != "", msg
		return
	}
	if msg != "" {
		row.Msg = "refused: " + msg
		return
	}
	y := w.Init
	row.Ok = true
	for n := 0; n < c.Steps; n++ {
		t := float64(c.Start+n) * c.Dt
		r := w.Step(c.Plan, y, t, c.Dt, c.Filter)
		if r.Near || r.Scale > 1e6 || math.IsNaN(r.Scale) {
			return
		}
		for f := range r.New {
			if m := lib.MaxAbs(r.New[f]); math.IsNaN(m) || math.IsInf(m, 0) {
				return // the documented result is not a number
			}
		}
		if w.Sensitive(c.Plan, y, r, t, c.Dt, c.Filter) {
			return
		}
		if msg := lib.Try(func() {
			// the schemes can also be used on their own; nobody is told that the step is finished then
			st, own := s.Stepper.(interface{ Propagate(n int, m *pf.Model) })
			if own && len(c.D.UTerms) == 0 && c.Seed%3 == 0 {
				st.Propagate(1, s.Model)
			} else {
				s.Propagate(1)
			}
		}); msg != "" {
			row.Ok, row.Msg = false, fmt.Sprintf("step %d: %s", n, msg)
			return
		}
		if len(s.Model.Fields) != len(c.D.Fields) {
			row.Ok, row.Msg = false, "number of fields changed"
			return
		}
		for f := range y {
			d := lib.MaxDiff(s.Model.Fields[f].Data, r.New[f]) / r.Scale
			if s.Model.Fields[f].Name != c.D.Fields[f] {
				row.Ok, row.Msg = false, "fields changed identity"
				return
			}
			if d > row.Worst {
				row.Worst = d
			}
			if !(d <= tol) {
				row.Ok = false
				row.Msg = fmt.Sprintf("step %d, field %s: largest deviation %.3g (scale %.3g), node 0: code %v, specification %v",
					n, c.D.Fields[f], d*r.Scale, r.Scale, s.Model.Fields[f].Data[0], r.New[f][0])
				return
			}
		}
		row.Compared++
		// follow the evaluator, feeding the code's own (equal to rounding) fields
		y = make([][]complex128, len(r.New))
		for f := range y {
			y[f] = append([]complex128{}, s.Model.Fields[f].Data...)
		}
	}
	return
}

func main() {
	var cases []Case
	lib.Start(&cases)
	log.SetOutput(ioutil.Discard)
	for k, c := range cases {
		row := run(k, c)
		if !row.Ok && len(c.Alt) > 0 {
			c2 := c
			c2.Meaning = c.Alt
			row.Alt = run(k, c2).Ok
		}
		lib.Emit(row)
		lib.Flush()
	}
	lib.Done()
}
