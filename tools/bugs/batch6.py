import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkbug import mk

mk("b35_sync_after_first", "C03", [["pf/rk4.go", "		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))\n	}\n	m.SyncDerivedFields()\n", "		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))\n		if i == 0 {\n			m.SyncDerivedFields()\n		}\n	}\n"]],
   "RK4, several fields and a derived field of one that is not the first", "in the later stages derived fields are computed before the other fields are transformed back", "pf", '''package pf

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b := NewField("a", 4, nil), NewField("b", 4, nil)
	for i := range b.Data {
		a.Data[i] = 0
		b.Data[i] = 0.5
	}
	m := NewModel()
	m.AddField(a)
	m.AddField(b)
	m.AddEquation("da/dt=b^2")
	m.AddEquation("db/dt=a")
	s := NewSolver(&m, []int{2, 2}, 0.01)
	s.SetStepper("rk4")
	s.Propagate(10)
	if got := real(m.Fields[0].Data[0]); math.Abs(got-0.025) > 1e-3 {
		t.Fatalf("a is %v after 0.1", got)
	}
}
''')

mk("b36_ellipsoid_even", "C17", [["elasticity/shapes.go", "float64(k - N/2)", "float64(k - (N-1)/2)"]],
   "an ellipsoid in a domain with an even number of nodes", "the ellipsoid is one node off along the last axis", "elasticity", '''package elasticity

import "testing"

func TestDemo(t *testing.T) {
	v := Ellipsoid(8, 2, 2, 2)
	if real(v.At(4, 4, 6)) != 1 || real(v.At(4, 4, 2)) != 1 || real(v.At(4, 4, 1)) != 0 {
		t.Fatal("the ellipsoid is not around the middle")
	}
}
''')

mk("b37_gradient_name", "C22", [["pf/advection.go", '"GRAD_%s_%d", ad.Field, comp', '"GRAD_%.8s_%d", ad.Field, comp']],
   "advection of two fields whose names share the first eight characters", "both terms use the gradient of the first field", "pf", '''package pf

import "testing"

func TestDemo(t *testing.T) {
	a, b := Advection{Field: "concentration1"}, Advection{Field: "concentration2"}
	if a.GradName(0) == b.GradName(0) {
		t.Fatal("two fields share their gradient")
	}
}
''')

mk("b38_list_comments", "C11", [["cmd/list.go", 'sql = "SELECT value from comments WHERE simID=?"', 'sql = "SELECT DISTINCT value from comments WHERE simID=?"']],
   "a simulation with the same comment twice", "repeated comments are listed once", "cmd", '''package cmd

import (
	"database/sql"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	_ "github.com/mattn/go-sqlite3"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	db, err := sql.Open("sqlite3", filepath.Join(dir, "x.db"))
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	for _, q := range []string{"CREATE TABLE simIDs (simID int, creationTime text)", "CREATE TABLE comments (simID int, value text)", "INSERT INTO simIDs VALUES (3, '2020-01-01 00:00:00')",
		"INSERT INTO comments VALUES (3, 'again')", "INSERT INTO comments VALUES (3, 'again')"} {
		if _, err := db.Exec(q); err != nil {
			t.Fatal(err)
		}
	}
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	showComments(db, 20)
	os.Stdout = old
	w.Close()
	out, _ := ioutil.ReadAll(r)
	if strings.Count(string(out), "again") != 2 {
		t.Fatalf("listed: %s", out)
	}
}
''')
