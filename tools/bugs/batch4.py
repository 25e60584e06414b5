import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkbug import mk

mk("b24_leibniz_trim", "C01", [["pf/rhsBuilder.go", "	return leibniz[1 : len(leibniz)-3]", "	return strings.TrimLeft(leibniz[:len(leibniz)-3], \"d\")"]],
   "a field whose name starts with d", "all leading d of the left-hand side are cut off, so that the field is not recognised as the own field of its equation", "pf", '''package pf

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	m := NewModel()
	d := NewField("density", 4, nil)
	for i := range d.Data {
		d.Data[i] = 1
	}
	m.AddField(d)
	m.AddScalar(NewScalar("k", -3))
	m.AddEquation("ddensity/dt = k*density")
	s := NewSolver(&m, []int{2, 2}, 0.1)
	s.Propagate(1)
	if got := real(m.Fields[0].Data[0]); math.Abs(got-1/1.3) > 1e-10 {
		t.Fatalf("%v want %v", got, 1/1.3)
	}
}
''')

mk("b25_implicit_check_half", "C02", [["pf/userDefinedTerm.go", "	return pfutil.CmplxEqualApprox(array1, array2, 1e-10)", "	return pfutil.CmplxEqualApprox(array1[:N/2], array2[:N/2], 1e-10)"]],
   "a term offered as implicit that varies with a field only at frequencies in the upper half of the nodes", "a term that depends on a field is accepted as implicit", "pf", '''package pf

import "testing"

type upper struct{}

func (u upper) Construct(b map[string]Brick) Term {
	return func(freq Frequency, t float64, f []complex128) {
		for i := range f {
			f[i] = 0
			if freq(i)[0] < 0 {
				f[i] = b["u"].Get(i)
			}
		}
	}
}
func (u upper) OnStepFinished(t float64, b map[string]Brick) {}

func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("u", 25, nil))
	m.RegisterImplicitTerm("UP", upper{}, nil)
	m.AddEquation("du/dt = UP")
	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	NewSolver(&m, []int{5, 5}, 0.1)
}
''')

mk("b27_negative_index", "C16", [["pfc/miller.go", "	if abs(miller.K) == abs(miller.H) {", "	if abs(miller.K) == miller.H {"]],
   "a plane whose first index is negative and of the same size as the second", "the number of equivalent planes counts permutations that are equal", "pfc", '''package pfc

import "testing"

func TestDemo(t *testing.T) {
	for _, m := range []Miller{{H: -1, K: 1}, {H: -2, K: -2, L: 1}, {H: -1, K: 1, L: 1}} {
		if n, want := NumEquivalent3D(m), len(EquivalentMiller(m)); n != want {
			t.Fatalf("%v: %d want %d", m, n, want)
		}
	}
}
''')

mk("b28_csv_digits", "C12", [["pf/fileIO.go", 'fmt.Sprintf("%f", f.Data.Get(i))', 'fmt.Sprintf("%.6g", f.Data.Get(i))']],
   "CSV files of values above one with more than six digits", "values in CSV files have six significant digits instead of six decimals", "pf", '''package pf

import (
	"math"
	"path/filepath"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestDemo(t *testing.T) {
	u := NewField("u", 4, nil)
	for i := range u.Data {
		u.Data[i] = complex(1234.567891*float64(i+1), 0)
	}
	name := filepath.Join(t.TempDir(), "demo.csv")
	SaveCsv(name, []CsvData{{Name: "u", Data: &pfutil.RealPartSlice{Data: u.Data}}}, []int{2, 2})
	r := LoadCSV(name)
	for i := range u.Data {
		if math.Abs(real(r[0].Data[i])-real(u.Data[i])) > 1e-6 {
			t.Fatalf("%v want %v", r[0].Data[i], u.Data[i])
		}
	}
}
''')
