import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkbug import mk

mk("b12_shear_misfit", "C20", [["elasticity/strainEnergyCLI.go", "	misfit.Set(0, 2, 0.5*params.Misfit[4])\n	misfit.Set(2, 0, 0.5*params.Misfit[4])", "	misfit.Set(0, 2, 0.5*params.Misfit[3])\n	misfit.Set(2, 0, 0.5*params.Misfit[3])"]],
   "a misfit whose xz shear differs from its yz shear", "the xz shear of the misfit is taken from the yz shear", "elasticity", '''package elasticity

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	c := []float64{
		10, 4, 4, 0, 0, 0,
		4, 10, 4, 0, 0, 0,
		4, 4, 10, 0, 0, 0,
		0, 0, 0, 3, 0, 0,
		0, 0, 0, 0, 3, 0,
		0, 0, 0, 0, 0, 3,
	}
	energy := func(k int) float64 {
		m := make([]float64, 6)
		m[k] = 0.1
		return CalculateStrainEnergy(StrainEnergyInput{HalfA: 2, HalfB: 2, HalfC: 2, DomainSize: 8, Misfit: m, MatPropMatrix: c})
	}
	a, b := energy(3), energy(4)
	if math.Abs(a-b) > 1e-9*math.Abs(a) || a == 0 {
		t.Fatalf("%v for yz, %v for xz", a, b)
	}
}
''')

mk("b14_product_carry", "C13", [["pfutil/iterators.go", "			if p.Current[i] < p.End[i] {", "			if p.Current[i] < p.End[len(p.End)-2] {"]],
   "a product over three or more numbers with different ends", "the carry compares all leading numbers with the end of the last but one", "pfutil", '''package pfutil

import "testing"

func TestDemo(t *testing.T) {
	p := NewProduct([]int{3, 2, 2})
	n := 0
	for c := p.Next(); c != nil && n < 100; c = p.Next() {
		n++
	}
	if n != 12 {
		t.Fatalf("%d combinations of 12", n)
	}
}
''')

mk("b21_export_position_order", "C11", [["cmd/export.go", "SELECT X,Y,Z FROM positions ORDER BY id", "SELECT X,Y,Z FROM positions ORDER BY X,Y,Z"]],
   "exporting field data of a 3D domain", "values of 3D domains are written beside the wrong positions", "cmd", '''package cmd

import (
	"database/sql"
	"encoding/csv"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	_ "github.com/mattn/go-sqlite3"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	bin := filepath.Join(d, "gopf")
	if out, err := exec.Command("go", "build", "-o", bin, "..").CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
	name := filepath.Join(d, "demo.db")
	db, err := sql.Open("sqlite3", name)
	if err != nil {
		t.Fatal(err)
	}
	dom := []int{2, 3, 4}
	fdb := pf.FieldDB{DB: db, DomainSize: dom}
	m := pf.NewModel()
	u := pf.NewField("u", 24, nil)
	for i := range u.Data {
		u.Data[i] = complex(float64(i), 0)
	}
	m.AddField(u)
	m.AddEquation("du/dt = u")
	s := pf.NewSolver(&m, dom, 0.1)
	fdb.SaveFields(s, 0)
	id := 0
	if err := db.QueryRow("SELECT DISTINCT simId FROM fields").Scan(&id); err != nil {
		t.Fatal(err)
	}
	db.Close()
	out := filepath.Join(d, "fields.csv")
	if o, err := exec.Command(bin, "db", "export", name, "-i", fmt.Sprint(id), "-t", "fielddata", "-o", out).CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, o)
	}
	f, err := os.Open(out)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	rows, err := csv.NewReader(f).ReadAll()
	if err != nil || len(rows) != 25 {
		t.Fatalf("%v %d", err, len(rows))
	}
	for _, r := range rows[1:] {
		var x, y, z int
		var v float64
		fmt.Sscan(r[0], &x)
		fmt.Sscan(r[1], &y)
		fmt.Sscan(r[2], &z)
		fmt.Sscan(r[3], &v)
		if n := pfutil.NodeIdx(dom, []int{x, y, z}); float64(n) != v {
			t.Fatalf("%v is node %d", r, n)
		}
	}
}
''')

mk("b22_tilt_half", "C25", [["pfc/periodicFieldInit.go", "	for ix := 0; ix < grid.Dims[0]/2; ix++ {", "	for ix := 0; ix < grid.Dims[1]/2 && ix < grid.Dims[0]; ix++ {"]],
   "a tilt grain boundary on a grid with unequal sides", "the boundary between the halves is placed by the other side of the grid", "pfc", '''package pfc

import (
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestDemo(t *testing.T) {
	fill := func() pfutil.Grid {
		g := pfutil.NewGrid([]int{6, 12})
		for i := range g.Data {
			g.Data[i] = float64(i)
		}
		return g
	}
	g, up, down := fill(), fill(), fill()
	TiltGB(&g, 1.0)
	up.Rotate2D(0.5)
	down.Rotate2D(-0.5)
	for i := range g.Data {
		want := up.Data[i]
		if i >= 36 {
			want = down.Data[i]
		}
		if g.Data[i] != want {
			t.Fatalf("node %d: %v want %v", i, g.Data[i], want)
		}
	}
}
''')

mk("b23_reciprocal_shear", "C24", [["pfc/lattice.go", "float64(miller.K)*change.At(i, 1)", "float64(miller.K)*change.At(1, i)"]],
   "a shear of the cell and a plane with K != 0", "the change of the second reciprocal vector is taken from a row instead of a column of the change", "pfc", '''package pfc

import (
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	cell := SC3D(4)
	rec := cell.Reciprocal()
	change := mat.NewDense(3, 3, []float64{0, 0.01, 0, 0, 0, 0.02, 0, 0, 0})
	m := Miller{H: 1, K: 2, L: 0}
	k := rec.HKLVector(m)
	dk := rec.ChangeHKLVector(m, change)
	// k.a stays a multiple of 2 pi for every cell vector a
	for j := 0; j < 3; j++ {
		sum := 0.0
		for i := 0; i < 3; i++ {
			sum += dk[i]*cell.CellVec.At(i, j) + k[i]*change.At(i, j)
		}
		if math.Abs(sum) > 1e-9 {
			t.Fatalf("vector %d: %v", j, sum)
		}
	}
}
''')
