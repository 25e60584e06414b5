import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkbug import mk

mk("b10_position_axes_3d", "C10", [["pf/database.go", "		copy(pos3, pos)\n		statement, err := tx.Prepare(\"INSERT INTO positions", "		for k := range pos {\n			pos3[(k+len(pos)/3)%len(pos)] = pos[k]\n		}\n		statement, err := tx.Prepare(\"INSERT INTO positions"]],
   "a 3D domain", "the position table of 3D domains lists the coordinates shifted by one axis; 2D is right", "pf", '''package pf

import (
	"database/sql"
	"path/filepath"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
	_ "github.com/mattn/go-sqlite3"
)

func TestDemo(t *testing.T) {
	db, err := sql.Open("sqlite3", filepath.Join(t.TempDir(), "demo.db"))
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	dom := []int{2, 3, 4}
	fdb := FieldDB{DB: db, DomainSize: dom}
	m := NewModel()
	m.AddField(NewField("u", 24, nil))
	m.AddEquation("du/dt = u")
	s := NewSolver(&m, dom, 0.1)
	fdb.SaveFields(s, 0)
	for i := 0; i < 24; i++ {
		var x, y, z int
		if err := db.QueryRow("SELECT X,Y,Z FROM positions WHERE id=?", i).Scan(&x, &y, &z); err != nil {
			t.Fatal(err)
		}
		p := pfutil.Pos(dom, i)
		if x != p[0] || y != p[1] || z != p[2] {
			t.Fatalf("node %d at %d %d %d, want %v", i, x, y, z, p)
		}
	}
}
''')

mk("b11_multiplier_reference", "C18", [["pf/volumeConserving.go", "		v.CurrentIntegral = fieldIntegral\n		v.Multiplier = ", "		if deltaI > 0 {\n			v.CurrentIntegral = fieldIntegral\n		}\n		v.Multiplier = "]],
   "a total that decreases in one step and changes again in the next", "the reference of the volume change is not moved after a step in which the total decreased", "pf", '''package pf

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	f := NewField("f", 4, nil)
	ind := NewField("ind", 4, nil)
	ind.Data[0] = 2
	b := map[string]Brick{"f": f, "ind": ind}
	v := NewVolumeConservingLP("f", "ind", 0.5, 4)
	want := 0.0
	prev := 0.0
	for i, tot := range []float64{4, 3, 5, 5, 2, 6} {
		for j := range f.Data {
			f.Data[j] = complex(tot/4, 0)
		}
		v.OnStepFinished(0, b)
		if i > 0 {
			want -= tot - prev
		}
		prev = tot
		if math.Abs(v.Multiplier-want) > 1e-12 {
			t.Fatalf("notification %d: %v want %v", i, v.Multiplier, want)
		}
	}
}
''')

mk("b13_min_dimer_length", "C21", [["pf/sdd.go", "	if l < sdd.MinDimerLength {", "	if l < sdd.MinDimerLength && t > sdd.TimeConstants.DimerLength {"]],
   "a minimum length that is reached within one decay time", "the minimum of the dimer length is only respected after one decay time", "pf", '''package pf

import "testing"

func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("u", 4, nil))
	sdd := NewSDD([]int{2, 2}, &m)
	sdd.InitDimerLength = 1.0
	sdd.MinDimerLength = 0.8
	sdd.TimeConstants.DimerLength = 1.0
	for _, x := range []float64{0, 0.1, 0.5, 0.9, 1.5, 10} {
		if l := sdd.DimerLength(x); l < 0.8 {
			t.Fatalf("length %v at %v", l, x)
		}
	}
}
''')

mk("b15_oversized_field", "C27", [["pf/solver.go", "		if len(f.Data) != N {", "		if len(f.Data) < N {"]],
   "a field with more nodes than the domain", "NewSolver accepts fields that are larger than the domain", "pf", '''package pf

import "testing"

func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("u", 6, nil))
	m.AddScalar(NewScalar("k", 1))
	m.AddEquation("du/dt = k")
	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	NewSolver(&m, []int{2, 2}, 0.1)
}
''')

mk("b16_lineplot_filter", "C26", [["cmd/lineplot.go", "include = include && row.Z == z", "include = row.Z == z"]],
   "a line along y or x given by z and another coordinate", "the first of two coordinates is ignored when z is given", "cmd", '''package cmd

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"testing"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	bin := filepath.Join(d, "gopf")
	if out, err := exec.Command("go", "build", "-o", bin, "..").CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
	text := "X,Y,Z,u\\n"
	for x := 0; x < 3; x++ {
		for y := 0; y < 4; y++ {
			for z := 0; z < 2; z++ {
				text += fmt.Sprintf("%d,%d,%d,%d\\n", x, y, z, 100*x+10*y+z)
			}
		}
	}
	tab := filepath.Join(d, "tab.csv")
	if err := os.WriteFile(tab, []byte(text), 0644); err != nil {
		t.Fatal(err)
	}
	pic := filepath.Join(d, "line.svg")
	if out, err := exec.Command(bin, "lineplot", "-f", tab, "-x", "1", "-z", "1", "-o", pic).CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
	svg, err := os.ReadFile(pic)
	if err != nil {
		t.Fatal(err)
	}
	longest := 0
	for _, p := range regexp.MustCompile(` d="([^"]*)"`).FindAllStringSubmatch(string(svg), -1) {
		if n := len(regexp.MustCompile(`[ML]`).FindAllString(p[1], -1)); n > longest {
			longest = n
		}
	}
	if longest > 5 {
		t.Fatalf("curve of %d points along a side of 4", longest)
	}
}
''')

mk("b17_third_field_component", "C22", [["pf/chargeTransport.go", "			effField[i] -= complex(ct.ExternalField[d], 0.0)", "			effField[i] -= complex(ct.ExternalField[d%2], 0.0)"]],
   "charge transport in 3D with an external field that differs in x and z", "the external field along z is that along x", "pf", '''package pf

import (
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestDemo(t *testing.T) {
	dom := []int{2, 2, 2}
	ct := ChargeTransport{
		Conductivity:  func(i int) []float64 { return []float64{1, 1, 1, 0, 0, 0} },
		ExternalField: []float64{1, 2, 3},
		Field:         "p",
		FT:            pfutil.NewFFTW(dom),
	}
	j := ct.Current(NewField("p", 8, nil), 8, true)
	for d := range j {
		for i := range j[d] {
			if math.Abs(math.Abs(j[d][i])-ct.ExternalField[d]) > 1e-10 {
				t.Fatalf("current %v in direction %d", j[d][i], d)
			}
		}
	}
}
''')

mk("b18_series_outside_transaction", "C19", [["pf/database.go", '''		_, err = statement.Exec(k, v, timestep, fdb.simID)
		if err != nil {
			log.Fatal(err)
			tx.Rollback()
			return
		}
	}
	if err := tx.Commit(); err != nil {
		panic(err)
	}
''', '''		_, err = statement.Exec(k, v, timestep, fdb.simID)
		if err != nil {
			log.Fatal(err)
			tx.Rollback()
			return
		}
		if err := tx.Commit(); err != nil {
			panic(err)
		}
		if tx, err = fdb.DB.Begin(); err != nil {
			panic(err)
		}
	}
	if err := tx.Commit(); err != nil {
		panic(err)
	}
''']],
   "a crash (or failing write) between two entries of one time series record", "every entry of a time series record is committed on its own, so that an interrupted call leaves a part of the record", "pf", '''package pf

import (
	"database/sql"
	"os"
	"os/exec"
	"path/filepath"
	"testing"

	_ "github.com/mattn/go-sqlite3"
)

func TestDemo(t *testing.T) {
	if p := os.Getenv("DEMO_DB"); p != "" {
		db, _ := sql.Open("sqlite3", p)
		fdb := FieldDB{DB: db, DomainSize: []int{2, 2}}
		data := map[string]float64{}
		for _, k := range []string{"a", "b", "c", "d"} {
			data[k] = 1
		}
		fdb.TimeSeries(data, 0)
		return
	}
	p := filepath.Join(t.TempDir(), "demo.db")
	db, err := sql.Open("sqlite3", p)
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	fdb := FieldDB{DB: db, DomainSize: []int{2, 2}}
	fdb.Comment("demo")
	// the third row of the next record cannot be written
	if _, err := db.Exec("CREATE TRIGGER full BEFORE INSERT ON timeseries WHEN (SELECT COUNT(*) FROM timeseries) >= 2 BEGIN SELECT RAISE(ABORT, 'full'); END"); err != nil {
		t.Fatal(err)
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_DB="+p)
	c.Run()
	n := -1
	if err := db.QueryRow("SELECT COUNT(*) FROM timeseries").Scan(&n); err != nil || n != 0 {
		t.Fatalf("%d rows of a record of 4 (%v)", n, err)
	}
}
''')

mk("b19_mixed_notified_once", "C07", [["pf/solver.go", "		for j := range s.Model.MixedTerms {", "		for j := range s.Model.MixedTerms {\n			if i != nsteps-1 {\n				break\n			}"]],
   "a mixed term that uses OnStepFinished and more than one step per call", "mixed terms are only notified after the last of several steps", "pf", '''package pf

import "testing"

type mixedClock struct{ seen []float64 }

func zero(freq Frequency, t float64, f []complex128) {
	for i := range f {
		f[i] = 0
	}
}
func (c *mixedClock) ConstructLinear(b map[string]Brick) Term    { return zero }
func (c *mixedClock) ConstructNonLinear(b map[string]Brick) Term { return zero }
func (c *mixedClock) OnStepFinished(t float64, b map[string]Brick) {
	c.seen = append(c.seen, t)
}

func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("u", 4, nil))
	c := &mixedClock{}
	m.RegisterMixedTerm("CLOCK", c, nil)
	m.AddEquation("du/dt = CLOCK")
	s := NewSolver(&m, []int{2, 2}, 0.5)
	s.Solve(1, 3)
	if len(c.seen) != 3 {
		t.Fatalf("notified at %v", c.seen)
	}
}
''')

mk("b20_newton_tolerance", "C23", [["pf/implicitEuler.go", "	tol := 1e-5\n	a := rhsPrev", "	tol := 1e-1\n	a := rhsPrev"]],
   "an implicit step whose explicit rate hardly changes", "the mean of the explicit part over the step is replaced by a neighbouring formula although it is inaccurate", "pf", '''package pf

import (
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("u", 4, nil))
	m.AddScalar(NewScalar("p", -0.08))
	m.AddScalar(NewScalar("k", 1))
	m.AddEquation("du/dt = p*u + k")
	s := NewSolver(&m, []int{2, 2}, 2.0)
	s.Stepper = &ImplicitEuler{Dt: 2.0, FT: s.FT.(*pfutil.FFTWWrapper)}
	s.Propagate(1)
	want := (1 - math.Exp(-0.16)) / 0.08
	if got := real(m.Fields[0].Data[0]); math.Abs(got-want) > 1e-5 {
		t.Fatalf("%v want %v", got, want)
	}
}
''')
