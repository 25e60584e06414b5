import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkbug import mk

mk("b01_modifier_order", "C08", [["pf/model.go", "	for i := range m.RHSModifiers {\n", "	for i := len(m.RHSModifiers) - 1; i >= 0; i-- {\n"]],
   "two right-hand-side modifiers on the same equation that do not commute", "modifiers of one equation are applied last-registered first", "pf", '''package pf

import "testing"

func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("u", 4, nil))
	k := NewScalar("k", 2.0)
	m.AddScalar(k)
	m.AddEquation("du/dt = k")
	m.RegisterRHSModifier(0, func(d []complex128) { d[0] = 3 })
	m.RegisterRHSModifier(0, func(d []complex128) { d[0] *= 5 })
	s := NewSolver(&m, []int{2, 2}, 0.1)
	if got := m.GetRHS(0, s.FT.Freq, 0.0)[0]; got != 15 {
		t.Fatalf("got %v want 15", got)
	}
}
''')

mk("b02_notify_time", "C07", [["pf/solver.go", "		s.Stepper.Step(s.Model)\n		t := s.Stepper.GetTime()\n", "		t := s.Stepper.GetTime()\n		s.Stepper.Step(s.Model)\n"]],
   "a registered term that uses the time handed to OnStepFinished", "terms are notified with the time before the step instead of the time after it", "pf", '''package pf

import "testing"

type clockTerm struct{ seen []float64 }

func (c *clockTerm) Construct(b map[string]Brick) Term {
	return func(freq Frequency, t float64, f []complex128) {
		for i := range f {
			f[i] = 0
		}
	}
}
func (c *clockTerm) OnStepFinished(t float64, b map[string]Brick) { c.seen = append(c.seen, t) }

func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("u", 4, nil))
	c := &clockTerm{}
	m.RegisterExplicitTerm("CLOCK", c, nil)
	m.AddEquation("du/dt = CLOCK")
	s := NewSolver(&m, []int{2, 2}, 0.5)
	s.Solve(2, 1)
	if len(c.seen) != 2 || c.seen[0] != 0.5 || c.seen[1] != 1.0 {
		t.Fatalf("notified at %v", c.seen)
	}
}
''')

mk("b03_rk4_denominator_index", "C05", [["pf/rk4.go", "		denum := m.GetDenum(i, rk.FT.Freq, t)\n		for j := range final[i].Data {", "		denum := m.GetDenum(0, rk.FT.Freq, t)\n		for j := range final[i].Data {"]],
   "RK4 with two fields whose implicit parts differ", "the final division of every field uses the implicit part of the first field", "pf", '''package pf

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b := NewField("a", 4, nil), NewField("b", 4, nil)
	for i := range a.Data {
		a.Data[i], b.Data[i] = 1, 1
	}
	m := NewModel()
	m.AddField(a)
	m.AddField(b)
	m.AddScalar(NewScalar("p", -1))
	m.AddScalar(NewScalar("q", -3))
	m.AddEquation("da/dt = p*a")
	m.AddEquation("db/dt = q*b")
	s := NewSolver(&m, []int{2, 2}, 0.1)
	s.SetStepper("rk4")
	s.Propagate(1)
	if math.Abs(real(m.Fields[0].Data[0])-1/1.1) > 1e-12 || math.Abs(real(m.Fields[1].Data[0])-1/1.3) > 1e-12 {
		t.Fatalf("%v %v", m.Fields[0].Data[0], m.Fields[1].Data[0])
	}
}
''')

mk("b04_load_last_written", "C09", [["pf/database.go", 'SELECT MAX(timestep) FROM fields WHERE simID=?"', 'SELECT timestep FROM fields WHERE simID=? ORDER BY id"']],
   "time steps stored out of order (a restart that rewrites earlier epochs)", "LoadLast returns the step written last instead of the largest one", "pf", '''package pf

import (
	"database/sql"
	"os"
	"testing"

	_ "github.com/mattn/go-sqlite3"
)

func TestDemo(t *testing.T) {
	dir, _ := os.MkdirTemp("", "demo")
	defer os.RemoveAll(dir)
	db, err := sql.Open("sqlite3", dir+"/x.db")
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	fdb := FieldDB{DB: db, DomainSize: []int{2, 2}}
	f := NewField("u", 4, nil)
	m := NewModel()
	m.AddField(f)
	s := Solver{Model: &m}
	for _, step := range []int{7, 3} {
		for i := range m.Fields[0].Data {
			m.Fields[0].Data[i] = complex(float64(10*step+i), 0)
		}
		fdb.SaveFields(&s, step)
	}
	if got := real(fdb.LoadLast(int(fdb.simID))[0].Data[0]); got != 70 {
		t.Fatalf("got %v want 70", got)
	}
}
''')

mk("b05_voronoi_period", "C17", [["pfutil/voronoi.go", "shift*domainSize[k]", "shift*domainSize[0]"]],
   "a domain with unequal sides and a node closest through the periodic boundary of another axis", "the periodic images along every axis use the first side length", "pfutil", '''package pfutil

import "testing"

func TestDemo(t *testing.T) {
	data := make([]int, 3*8)
	Voronoi([]int{0, 4}, data, []int{3, 8})
	for col, want := range []int{0, 0, 0, 1, 1, 1, 0, 0} {
		if data[col] != want {
			t.Fatalf("%v", data[:8])
		}
	}
}
''')

mk("b06_wrap_negative_multiple", "C13", [["pfutil/sliceOperations.go", "			factor := -pos[i] / domainSize[i]\n			pos[i] += (factor + 1) * domainSize[i]\n		}\n		pos[i] = pos[i] % domainSize[i]\n",
   "			factor := -pos[i] / domainSize[i]\n			pos[i] += (factor + 1) * domainSize[i]\n		} else if pos[i] >= domainSize[i] {\n			pos[i] -= domainSize[i]\n		}\n"]],
   "a position more than one domain length outside, or a negative exact multiple of it", "wrapped positions can stay outside the domain", "pfutil", '''package pfutil

import "testing"

func TestDemo(t *testing.T) {
	p := []int{-4, 9}
	Wrap(p, []int{4, 4})
	if p[0] != 0 || p[1] != 1 {
		t.Fatalf("%v", p)
	}
}
''')

mk("b08_conjugate_depth", "C14", [["pfutil/fftWrap.go", "		conjD = (fw.Dimensions[2] - d) % fw.Dimensions[2]\n", "		conjD = (fw.Dimensions[0] - d) % fw.Dimensions[0]\n"]],
   "a 3D domain whose third side differs from the first", "the conjugate node carries a wrong frequency along the third axis", "pfutil", '''package pfutil

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	ft := NewFFTW([]int{4, 2, 3})
	for i := 0; i < 24; i++ {
		j := ft.ConjugateNode(i)
		if j < 0 || j > 23 {
			t.Fatalf("node %d -> %d", i, j)
		}
		a, b := ft.Freq(i), ft.Freq(j)
		for k := range a {
			s := a[k] + b[k]
			if math.Abs(s-math.Round(s)) > 1e-9 {
				t.Fatalf("node %d", i)
			}
		}
	}
}
''')

mk("b09_filter_second_field", "C04", [["pf/euler.go", "		if eu.Filter != nil {\n			ApplyModalFilter(eu.Filter, eu.FT.Freq, d)\n", "		if eu.Filter != nil {\n			ApplyModalFilter(eu.Filter, eu.FT.Freq, m.Fields[0].Data)\n"]],
   "a modal filter in a model with more than one field", "the filter is applied several times to the first field and never to the others", "pf", '''package pf

import (
	"math"
	"testing"
)

type halfFilter struct{}

func (h halfFilter) Eval(x float64) float64 { return 0.5 }

func TestDemo(t *testing.T) {
	a, b := NewField("a", 4, nil), NewField("b", 4, nil)
	for i := range a.Data {
		a.Data[i], b.Data[i] = 4, 8
	}
	m := NewModel()
	m.AddField(a)
	m.AddField(b)
	m.AddScalar(NewScalar("z", 0))
	m.AddEquation("da/dt = z*a")
	m.AddEquation("db/dt = z*b")
	s := NewSolver(&m, []int{2, 2}, 0.1)
	s.Stepper.SetFilter(halfFilter{})
	s.Propagate(1)
	if math.Abs(real(m.Fields[0].Data[0])-2) > 1e-12 || math.Abs(real(m.Fields[1].Data[0])-4) > 1e-12 {
		t.Fatalf("%v %v", m.Fields[0].Data[0], m.Fields[1].Data[0])
	}
}
''')

