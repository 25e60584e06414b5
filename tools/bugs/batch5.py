import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkbug import mk

mk("b30_filter_resets_clock", "C06", [["pf/rk4.go", "	rk.Filter = filter\n", "	*rk = RK4{Dt: rk.Dt, FT: rk.FT, Filter: filter}\n"]],
   "a filter that is set between two calls of Solve or Propagate, RK4", "the number of completed steps is lost when a filter is set", "pf", '''package pf

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("c", 4, nil))
	m.AddScalar(NewScalar("k", -1))
	m.AddEquation("dc/dt = k*c")
	s := NewSolver(&m, []int{2, 2}, 0.5)
	s.SetStepper("rk4")
	s.Propagate(3)
	v := NewVandeven(3)
	s.Stepper.SetFilter(&v)
	s.Propagate(1)
	if got := s.Stepper.GetTime(); math.Abs(got-2) > 1e-12 {
		t.Fatalf("time %v", got)
	}
}
''')

mk("b31_last_step_as_text", "C09", [["pf/database.go", '"SELECT MAX(timestep) FROM fields WHERE simID=?"', '"SELECT timestep FROM fields WHERE simID=? GROUP BY timestep ORDER BY timestep || \'\'"']],
   "stored steps with different numbers of digits", "LoadLast compares the steps as text", "pf", '''package pf

import (
	"database/sql"
	"path/filepath"
	"testing"

	_ "github.com/mattn/go-sqlite3"
)

func TestDemo(t *testing.T) {
	db, err := sql.Open("sqlite3", filepath.Join(t.TempDir(), "x.db"))
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	m := NewModel()
	m.AddField(NewField("c", 4, nil))
	m.AddScalar(NewScalar("k", -1))
	m.AddEquation("dc/dt = k*c")
	s := NewSolver(&m, []int{2, 2}, 0.5)
	f := FieldDB{DB: db, DomainSize: []int{2, 2}}
	for _, step := range []int{2, 9, 10} {
		for i := range m.Fields[0].Data {
			m.Fields[0].Data[i] = complex(float64(step), 0)
		}
		f.SaveFields(s, step)
	}
	var id int
	if err := db.QueryRow("SELECT simID FROM fields").Scan(&id); err != nil {
		t.Fatal(err)
	}
	if got := real(f.LoadLast(id)[0].Data[0]); got != 10 {
		t.Fatalf("got step %v", got)
	}
}
''')

mk("b32_small_frequency_zero", "C15", [["pf/util.go", "func includeFreq(f []float64, split int) bool {\n	tol := 1e-10", "func includeFreq(f []float64, split int) bool {\n	tol := 0.02"]],
   "domains with more than fifty nodes along an axis", "the smallest frequencies of large domains count as zero, so that amplitudes are visited twice or never", "pf", '''package pf

import (
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestDemo(t *testing.T) {
	ft := pfutil.NewFFTW([]int{3, 64})
	it := UniqueFreqIterator{Freq: ft.Freq, End: 192}
	seen := make(map[int]bool)
	for i := it.Next(); i != -1; i = it.Next() {
		c := ft.ConjugateNode(i)
		if seen[i] || (c != i && seen[c]) {
			t.Fatalf("amplitude %d twice", i)
		}
		seen[i] = true
	}
	for i := 0; i < 192; i++ {
		if !seen[i] && !seen[ft.ConjugateNode(i)] {
			t.Fatalf("amplitude %d never", i)
		}
	}
}
''')

mk("b33_rk4_filter_lost", "C05", [["pf/rk4.go", "ApplyModalFilter(rk.Filter, rk.FT.Freq, m.Fields[i].Data)", "ApplyModalFilter(rk.Filter, rk.FT.Freq, final[i].Data)"]],
   "RK4 with a modal filter", "the filter is applied to a work array after it was copied to the field", "pf", '''package pf

import (
	"math"
	"testing"
)

type zeroFilter struct{}

func (z zeroFilter) Eval(x float64) float64 {
	if x > 0.01 {
		return 0
	}
	return 1
}

func TestDemo(t *testing.T) {
	m := NewModel()
	c := NewField("c", 16, nil)
	for i := range c.Data {
		c.Data[i] = complex(float64(i%4), 0)
	}
	m.AddField(c)
	m.AddScalar(NewScalar("k", -1))
	m.AddEquation("dc/dt = k*c")
	s := NewSolver(&m, []int{4, 4}, 0.5)
	s.SetStepper("rk4")
	s.Stepper.SetFilter(zeroFilter{})
	s.Propagate(1)
	d := m.Fields[0].Data
	for i := range d {
		if math.Abs(real(d[i])-real(d[0])) > 1e-10 {
			t.Fatalf("not filtered %v", d)
		}
	}
}
''')

mk("b34_depth_square", "C14", [["pfutil/fftWrap.go", "	return i / (fw.Dimensions[0] * fw.Dimensions[1])", "	return i / (fw.Dimensions[0] * fw.Dimensions[0])"]],
   "3D domains whose first two sides differ", "the frequency along the third axis belongs to another layer", "pfutil", '''package pfutil

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	ft := NewFFTW([]int{4, 2, 3})
	for i := 0; i < 24; i++ {
		want := float64(i/8) / 3
		if want > 0.5 {
			want -= 1
		}
		if got := ft.Freq(i)[2]; math.Abs(got-want) > 1e-12 {
			t.Fatalf("%d: %v want %v", i, got, want)
		}
	}
}
''')

