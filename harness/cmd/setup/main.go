// Command setup replays the histories of Setup.tla (a model being put together) and the requests of Fits.tla.
package main

import (
	"database/sql"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	_ "github.com/mattn/go-sqlite3"
	"gonum.org/v1/gonum/mat"
	"verifharness/lib"
)

// Part is one term of a right hand side.
type Part struct {
	S string   `json:"s"`
	P []string `json:"p"`
}

// Act is one step of a history.
type Act struct {
	Act    string   `json:"act"`
	N      string   `json:"n"`
	Size   int      `json:"size"`
	Off    int      `json:"off"`
	V      float64  `json:"v"`
	Kind   string   `json:"kind"`
	Ders   []string `json:"ders"`
	Lhs    string   `json:"lhs"`
	Rhs    []Part   `json:"rhs"`
	Flaw   string   `json:"flaw"`
	Domain []int    `json:"domain"`
}

// Input is everything that is to be done.
type Input struct {
	Hist  [][]Act  `json:"hist"`
	Fits  []Req    `json:"fits"`
	Names []string `json:"names"`
	Dir   string   `json:"dir"`
}

// Req is a request.
type Req struct {
	Op string `json:"op"`
	A  int    `json:"a"`
	B  int    `json:"b"`
	C  int    `json:"c"`
	D  int    `json:"d"`
}

type pure struct{ v complex128 }

func (p *pure) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, field []complex128) {
		for i := range field {
			field[i] = p.v
		}
	}
}
func (p *pure) OnStepFinished(t float64, b map[string]pf.Brick) {}

type mixed struct{ pure }

func (p *mixed) ConstructLinear(b map[string]pf.Brick) pf.Term    { return p.Construct(b) }
func (p *mixed) ConstructNonLinear(b map[string]pf.Brick) pf.Term { return p.Construct(b) }

func text(a Act) string {
	rhs := ""
	for i, p := range a.Rhs {
		if i > 0 || p.S == "-" {
			rhs += " " + p.S + " "
		}
		rhs += strings.Join(p.P, "*")
	}
	lhs := "d" + a.Lhs + "/dt"
	switch a.Flaw {
	case "noeq":
		return lhs
	case "twoeq":
		return lhs + " = " + rhs + " = " + rhs
	case "trail":
		return lhs + " = " + rhs + " -"
	case "double":
		return lhs + " = " + rhs + " + - " + a.Lhs
	case "factor":
		return lhs + " = " + rhs + "*"
	case "empty":
		return lhs + " = "
	case "short":
		return "a = " + rhs
	case "leibniz":
		return "d" + a.Lhs + "/dx = " + rhs
	}
	return lhs + " = " + rhs
}

func fill(n int, v float64) []complex128 {
	d := make([]complex128, n)
	for i := range d {
		d[i] = complex(v, 0)
	}
	return d
}

func constant(v float64) func([]complex128) {
	return func(d []complex128) { copy(d, fill(len(d), v)) }
}

// internal names of products are no concern of the user
func own(names []string) []string {
	out := []string{}
	for _, n := range names {
		if !strings.ContainsAny(n, "*^") {
			out = append(out, n)
		}
	}
	return out
}

func capture(f func()) string {
	tmp, err := ioutil.TempFile("", "verif_setup")
	lib.Must(err)
	defer os.Remove(tmp.Name())
	old := os.Stdout
	os.Stdout = tmp
	defer func() { os.Stdout = old }()
	f()
	os.Stdout = old
	lib.Must(tmp.Close())
	b, err := ioutil.ReadFile(tmp.Name())
	lib.Must(err)
	return string(b)
}

func summary(m *pf.Model) [][]string {
	rows := [][]string{}
	for _, l := range strings.Split(capture(m.Summarize), "\n") {
		if p := strings.Split(l, "|"); len(p) == 6 && strings.TrimSpace(p[1]) != "Eq" {
			rows = append(rows, []string{strings.TrimSpace(p[1]), strings.Join(strings.Fields(p[2]), ""), strings.TrimSpace(p[3]), strings.TrimSpace(p[4])})
		}
	}
	return rows
}

func query(m *pf.Model, names []string, flawless bool) map[string]interface{} {
	q := map[string]interface{}{"all": own(m.AllFieldNames())}
	v := own(m.AllVariableNames())
	sort.Strings(v)
	q["vars"] = v
	is := map[string][]bool{}
	vals := map[string]interface{}{}
	for _, n := range append([]string{"", "nothing", "aa"}, names...) {
		is[n] = []bool{m.IsFieldName(n), m.IsBrickName(n), m.IsImplicitTerm(n), m.IsExplicitTerm(n), m.IsMixedTerm(n), m.IsUserDefinedTerm(n)}
		if b, ok := m.Bricks[n]; ok {
			x := b.Get(0)
			vals[n] = real(x)
			if _, isScalar := b.(*pf.Scalar); !isScalar {
				for i := 1; i < 4; i++ {
					if b.Get(i) != x {
						vals[n] = "uneven"
					}
				}
			}
		}
	}
	q["is"], q["vals"] = is, vals
	if lib.Try(func() { q["nodes"] = m.NumNodes() }) != "" {
		q["nodes"] = 0
	}
	eqno := map[string]int{}
	if flawless {
		for _, f := range []string{"a", "b", "ab"} {
			if lib.Try(func() { eqno[f] = m.EqNumber(f) + 1 }) != "" {
				eqno[f] = 0
			}
		}
	}
	q["eqno"] = eqno
	return q
}

// Row is the outcome of a history: what was answered after each step.
type Row struct {
	Kind    string                   `json:"kind"`
	Case    int                      `json:"case"`
	OK      []bool                   `json:"ok"`
	Q       []map[string]interface{} `json:"q"`
	Msg     string                   `json:"msg"`
	Text    []string                 `json:"text"`
	Summary [][]string               `json:"summary"`
	Again   [][]string               `json:"again"`
	Before  string                   `json:"before"`
	Ders    map[string]interface{}   `json:"ders"`
	Copies  string                   `json:"copies"`
}

func replay(k int, h []Act, names []string) (row Row) {
	row = Row{Kind: "hist", Case: k, OK: []bool{}, Q: []map[string]interface{}{}, Text: []string{}, Summary: [][]string{}, Again: [][]string{}, Ders: map[string]interface{}{}}
	m := pf.NewModel()
	flawless := true
	for _, a := range h {
		a := a
		msg := lib.Try(func() {
			switch a.Act {
			case "field":
				var data []complex128
				if a.Off != -100 {
					data = fill(a.Size+a.Off, a.V)
				}
				m.AddField(pf.NewField(a.N, a.Size, data))
			case "scalar":
				m.AddScalar(pf.NewScalar(a.N, complex(a.V, 0)))
			case "func":
				m.RegisterFunction(a.N, func(i int, b map[string]pf.Brick) complex128 { return complex(a.V, 0) })
			case "der":
				m.RegisterDerivedField(pf.DerivedField{Name: a.N, Data: make([]complex128, m.NumNodes()), Calc: constant(a.V)})
			case "term":
				ders := []pf.DerivedField{}
				for _, d := range a.Ders {
					ders = append(ders, pf.DerivedField{Name: d, Data: make([]complex128, m.NumNodes()), Calc: constant(a.V)})
				}
				if len(ders) == 0 && k%2 == 0 {
					ders = nil
				}
				switch a.Kind {
				case "implicit":
					m.RegisterImplicitTerm(a.N, &pure{-1}, ders)
				case "explicit":
					m.RegisterExplicitTerm(a.N, &pure{0.5}, ders)
				default:
					m.RegisterMixedTerm(a.N, &mixed{pure{-0.25}}, ders)
				}
			case "eq":
				t := text(a)
				row.Text = append(row.Text, t)
				flawless = flawless && a.Flaw == ""
				m.AddEquation(t)
			case "solver":
				row.Before = strings.TrimSpace(capture(m.Summarize))
				s := pf.NewSolver(&m, a.Domain, 1e-3)
				for _, d := range m.DerivedFields {
					row.Ders[d.Name] = real(m.Bricks[d.Name].Get(0))
				}
				row.Summary = summary(&m)
				s = pf.NewSolver(&m, a.Domain, 1e-3) // as good as new
				row.Again = summary(&m)
				for _, f := range m.Fields {
					c := f.Copy()
					if c.Name != f.Name || lib.MaxDiff(c.Data, f.Data) != 0 {
						row.Copies = "copy of " + f.Name + " differs"
					}
					old := f.Data[0]
					c.Data[0] += 1
					if f.Data[0] != old {
						row.Copies = "copy of " + f.Name + " is not its own"
					}
				}
				s.Solve(1, 1)
				for _, f := range m.Fields {
					for _, v := range f.Data {
						if math.IsNaN(real(v)) {
							panic("not a number")
						}
					}
				}
			}
		})
		row.OK = append(row.OK, msg == "")
		if msg != "" {
			row.Msg = msg
			if a.Act == "eq" || a.Act == "solver" {
				return
			}
		}
		if a.Act != "solver" {
			row.Q = append(row.Q, query(&m, names, flawless))
		}
	}
	return
}

var dims = [][]int{nil, {4}, {3, 4}, {3, 2, 4}, {2, 2, 2, 2}}

type badBox struct{ min, max []int }

func (b *badBox) InteriorPoint(pos []float64) bool { return true }
func (b *badBox) BBox() pfutil.BoundingBox         { return pfutil.BoundingBox{Min: b.min, Max: b.max} }

func ask(r Req, dir string, k int) string {
	switch r.Op {
	case "nodeidx":
		pos := make([]int, r.A)
		pos[0] = r.B % dims[r.A][0]
		pfutil.NodeIdx(dims[r.A], pos)
	case "pos":
		pfutil.Pos(dims[r.A], r.B)
	case "sqgrad":
		pf.NewSquareGradient("a", dims[r.A])
	case "xdmf":
		pf.CreateXDMF([]string{"a", "b"}[:r.B], "x", 1, dims[r.A])
	case "equiv":
		pfc.NumEquivalent(pfc.Miller{H: r.B, K: 0, L: 0}, r.A)
	case "advection":
		names := []string{"vx", "vy", "vz", "vw"}[:r.B]
		m := pf.NewModel()
		d := dims[r.A]
		n := lib.Prod(d)
		if r.C != r.B+1 {
			m.AddField(pf.NewField("a", n, nil))
		}
		for i, v := range names {
			if i+1 != r.C {
				if i == 1 {
					m.AddScalar(pf.NewScalar(v, 1))
				} else {
					m.AddField(pf.NewField(v, n, nil))
				}
			}
		}
		ad := pf.Advection{Field: "a", VelocityFields: names}
		ad.PrepareModel(n, &m, pfutil.NewFFTW(d))
	case "noise":
		cn := pf.NewConservativeNoise(0.1, r.A)
		m := pf.NewModel()
		d := dims[r.A]
		m.AddField(pf.NewField("a", lib.Prod(d), nil))
		der := cn.RequiredDerivedFields(lib.Prod(d))
		reg := []pf.DerivedField{}
		for i := range der {
			if r.B>>uint(i)&1 == 1 {
				reg = append(reg, der[i])
			}
		}
		m.RegisterExplicitTerm("NOISE_TERM", &cn, reg)
		m.AddEquation("da/dt = NOISE_TERM")
		s := pf.NewSolver(&m, d, 0.1)
		s.Solve(1, 1)
	case "indicator":
		m := pf.NewModel()
		m.AddField(pf.NewField("a", 12, nil))
		names := []string{"ind", "other"}
		for i, yes := range []int{r.A, r.B} {
			if yes == 1 {
				m.RegisterFunction(names[i], func(i int, b map[string]pf.Brick) complex128 { return 1 })
			}
		}
		lp := pf.NewVolumeConservingLP("a", "ind", 0.1, 12)
		m.RegisterExplicitTerm("LP", &lp, nil)
		m.AddEquation("da/dt = LP")
		s := pf.NewSolver(&m, []int{3, 4}, 0.1)
		s.Solve(1, 1)
	case "mixture":
		m := pf.NewModel()
		m.AddField(pf.NewField("a", 12, fill(12, 0.1)))
		m.AddField(pf.NewField("b", 12, fill(12, 0.1)))
		term := pf.IdealMixtureTerm{IdealMix: pfc.IdealMix{C3: 1, C4: 1}, Field: "a", Prefactor: 1}
		other := pf.IdealMixtureTerm{IdealMix: pfc.IdealMix{C3: 1, C4: 1}, Field: "b", Prefactor: 1}
		der := []pf.DerivedField{}
		if r.A == 1 {
			der = append(der, term.DerivedField(12, m.Bricks))
		}
		if r.B == 1 {
			der = append(der, other.DerivedField(12, m.Bricks))
		}
		m.RegisterMixedTerm("MIXTURE", &term, der)
		m.AddEquation("da/dt = MIXTURE")
		m.AddEquation("db/dt = b")
		s := pf.NewSolver(&m, []int{3, 4}, 0.01)
		s.Solve(1, 1)
	case "csv":
		fn := filepath.Join(dir, fmt.Sprintf("c%d.csv", k))
		var d []int
		if r.A > 0 {
			d = []int{r.A, r.C}
		}
		msg := lib.Try(func() {
			pf.SaveCsv(fn, []pf.CsvData{{Name: "a", Data: &pfutil.RealSlice{Data: make([]float64, r.B)}}}, d)
		})
		_, err := os.Stat(fn)
		if msg != "" && err == nil {
			return "a file was written"
		}
		if msg != "" {
			panic(msg)
		}
		if err != nil {
			return "no file was written"
		}
	case "draw":
		b := &badBox{make([]int, r.A), make([]int, r.B)}
		off := []int{2, 7, -5, 3} // the axes have different ranges
		for i := range b.max {
			b.max[i] = off[i] + 1
		}
		for i := range b.min {
			b.min[i] = off[i]
		}
		if r.D < r.A && r.D < r.B {
			b.min[r.D] = off[r.D] + r.C
		}
		g := pfutil.NewGrid([]int{5, 5, 5})
		t := pfutil.Identity()
		pfutil.Draw(b, &g, &t, 1)
	case "inside":
		b := pfutil.Box{Diagonal: []float64{2, 2, 2}[:r.A]}
		b.InteriorPoint(make([]float64, r.B))
	case "rotate":
		g := pfutil.NewGrid(dims[r.A])
		if r.B == 1 {
			pfc.TiltGB(&g, 0.3)
		} else {
			g.Rotate2D(0.3)
		}
	case "powers":
		ms := pfc.ModeSolver{ReciprocalCell: pfc.ReciprocalCell{CellVec: mat.NewDense(2, 2, []float64{1, 0, 0, 1})}}
		for i := 0; i < r.A; i++ {
			ms.Miller = append(ms.Miller, pfc.Miller{H: 1, K: i % 2})
		}
		p := make([]int, r.B)
		if r.B > 0 {
			p[0] = 1
		}
		ms.UnitcellIntegral(p, 4)
	case "match":
		cell := pfc.SC3D(1)
		ms := pfc.ModeSolver{ReciprocalCell: cell.Reciprocal(), Miller: []pfc.Miller{{H: 1}, {H: 1, K: 1}}}
		name := []string{"bulk", "shear", "Bulk", "young", "", "bulk "}[r.A]
		ms.MatchElasticProp(map[string]float64{name: 1})
	case "twophase":
		t := pfc.TwoPhaseCorrFunc{}
		for i := 0; i < r.A; i++ {
			t.CorrFunc = append(t.CorrFunc, pfc.ReciprocalSpacePairCorrelation{Peaks: pfc.SquareLattice2D(2, 8)})
		}
		t.Evaluate(make([]complex128, 12), pfutil.NewFFTW([]int{3, 4}))
	case "stepper":
		m := pf.NewModel()
		m.AddField(pf.NewField("a", 12, nil))
		m.AddEquation("da/dt = a")
		s := pf.NewSolver(&m, []int{3, 4}, 0.1)
		s.SetStepper([]string{"euler", "rk4", "rk45", "", "RK4"}[r.A])
		s.Solve(1, 1)
	case "dbsave":
		fn := filepath.Join(dir, fmt.Sprintf("d%d.db", k))
		db, err := sql.Open("sqlite3", fn)
		lib.Must(err)
		defer db.Close()
		db.SetMaxOpenConns(1)
		fdb := pf.FieldDB{DB: db, DomainSize: []int{r.A, r.B}}
		m := pf.NewModel()
		m.AddField(pf.NewField("a", r.C, fill(r.C, 1)))
		s := pf.Solver{Model: &m}
		msg := lib.Try(func() { fdb.SaveFields(&s, 1) })
		n := 0
		if db.QueryRow("SELECT COUNT(*) FROM fields").Scan(&n) != nil {
			n = 0 // no table
		}
		if msg != "" {
			if n > 0 {
				return fmt.Sprintf("%d rows were stored", n)
			}
			panic(msg)
		}
		if n != r.C {
			return fmt.Sprintf("%d rows were stored", n)
		}
	case "missing":
		fn := filepath.Join(dir, fmt.Sprintf("m%d", k))
		if r.A == 1 {
			if r.B == 1 {
				lib.Must(ioutil.WriteFile(fn, []byte("X,Y,Z,a\n0,0,0,1\n"), 0644))
			} else {
				lib.Must(ioutil.WriteFile(fn, make([]byte, 16), 0644))
			}
		}
		if r.B == 1 {
			pf.LoadCSV(fn)
		} else {
			pf.LoadFloat64(fn)
		}
	case "eqno":
		m := pf.NewModel()
		for i := 0; i < r.B; i++ {
			m.AddField(pf.NewField(fmt.Sprintf("x%d", i+1), 12, nil))
		}
		for i := 0; i < r.B; i++ {
			m.AddEquation(fmt.Sprintf("dx%d/dt = x1", i+1))
		}
		if n := m.EqNumber(fmt.Sprintf("x%d", r.A)); n != r.A-1 {
			return fmt.Sprintf("equation %d", n)
		}
	default:
		log.Fatal("unknown request " + r.Op)
	}
	return ""
}

func main() {
	var in Input
	lib.Start(&in)
	log.SetOutput(ioutil.Discard)
	for k, h := range in.Hist {
		lib.Emit(replay(k, h, in.Names))
		lib.Flush()
	}
	for k, r := range in.Fits {
		wrong := ""
		msg := lib.Try(func() { wrong = ask(r, in.Dir, k) })
		v := "accepted"
		if msg != "" {
			v = "refused"
		}
		lib.Emit(map[string]interface{}{"kind": "fit", "case": k, "verdict": v, "msg": msg, "wrong": wrong})
		lib.Flush()
	}
	lib.Done()
}
