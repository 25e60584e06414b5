package lib

import (
	"database/sql"
	"fmt"
	"math"
	"sort"

	// the driver under test is the one gopf itself uses
	_ "github.com/mattn/go-sqlite3"
)

// Names in byte order, so that the index is the rank.
var Names = []string{"", "Conc", "a", "conc", "conc 2", "conc_3", "it's", "ψ"}

// Keys of attributes and time series.
var Keys = []string{"", "temp", "Temp", "t'emp \"x\"", "väl", "a,b", "n", "k7", "k8", "k9", "k10", "k11", "k12", "k13", "k14", "k15", "k16", "k17", "k18", "k19", "k20", "k21", "k22", "k23", "k24", "k25", "k26", "k27", "k28", "k29", "k30", "k31", "k32"}

// Texts of comments and text attributes.
var Texts = []string{"", "plain comment", "it's; DROP TABLE fields; --", "line one\nline two", "", "ψ 100% \"quoted\" comment that is rather long, with  two spaces and a few more words",
	"word word word word word word word word word word word word word word word word word word word wordwordwordwordwordwordwordwordw wordwordwordwo end",
	"exactlyninetysixcharacterswithoutanyspace_exactlyninetysixcharacterswithoutanyspace_padpadpad123", "one_long_word_without_any_space_one_long_word_without_any_space_one_long_word_without_any_space_one_long_word_without_any_space_one_long_word_without_any_space_one_long_word_without_any_space_one_long_word_without_any_space_", "a sentence that comes to ninety-six characters, so that the last one is the last of the line, ok"}

// AttrVal is the number an attribute token stands for.
func AttrVal(tok int) float64 {
	switch tok {
	case 1:
		return 0.1
	case 2:
		return -1e300
	case 3:
		return 12345678.90123
	case 5:
		return 0
	}
	return float64(tok) * 1.5
}

// FieldVal is the value a field token stands for at a node.
func FieldVal(tok, node int) float64 {
	if tok == 2 {
		switch node {
		case 0:
			return math.NaN()
		case 1:
			return math.Inf(1)
		case 2:
			return math.Inf(-1)
		case 3:
			return math.MaxFloat64
		case 4:
			return math.SmallestNonzeroFloat64
		}
		return -1e-300 * float64(node)
	}
	if tok == 3 {
		return float64(node - 1) // whole numbers, one of them zero
	}
	return float64(tok)*1000 + float64(node)/3 - 17.25
}

// FieldData makes the complex data for a token; the imaginary part must never matter.
func FieldData(tok, n int) []complex128 {
	d := make([]complex128, n)
	for i := range d {
		d[i] = complex(FieldVal(tok, i), float64(i)-0.5)
	}
	return d
}

func same(a, b float64) bool { return a == b || (math.IsNaN(a) && math.IsNaN(b)) }

// FieldTok finds the token whose data these are, or -1.
func FieldTok(v []float64) int {
	for tok := 1; tok <= 6; tok++ {
		ok := true
		for i := range v {
			if !same(v[i], FieldVal(tok, i)) {
				ok = false
				break
			}
		}
		if ok {
			return tok
		}
	}
	return -1
}

// NodeOf finds the node a value of the given token belongs to, or -1.
func NodeOf(tok int, v float64, n int) int {
	for i := 0; i < n; i++ {
		if same(v, FieldVal(tok, i)) {
			return i
		}
	}
	return -1
}

// Index of a string, or -1.
func Index(list []string, s string) int {
	for i := 1; i < len(list); i++ {
		if list[i] == s {
			return i
		}
	}
	return -1
}

// AttrTok is the inverse of AttrVal.
func AttrTok(v float64) int {
	for t := 1; t <= 9; t++ {
		if AttrVal(t) == v {
			return t
		}
	}
	return -1
}

// Obs is the logical content of a database file.
type Obs struct {
	Ids       []int   `json:"ids"`
	Positions [][]int `json:"positions"`
	Fields    [][]int `json:"fields"`
	Joined    [][]int `json:"joined"`
	Comments  [][]int `json:"comments"`
	Attrs     [][]int `json:"attrs"`
	Texts     [][]int `json:"texts"`
	Series    [][]int `json:"series"`
}

// Sims maps simulation identifiers to handle numbers.
type Sims map[int64]int

func (s Sims) of(id int64) int {
	if h, ok := s[id]; ok {
		return h
	}
	return -1
}

// tables says which tables exist
func tables(db *sql.DB) map[string]bool {
	res := map[string]bool{}
	rows, err := db.Query("SELECT name FROM sqlite_master WHERE type='table'")
	Must(err)
	defer rows.Close()
	for rows.Next() {
		var n string
		Must(rows.Scan(&n))
		res[n] = true
	}
	return res
}

// NewSimIDs lists the registered identifiers in order of registration.
func NewSimIDs(db *sql.DB) []int64 {
	ids := []int64{}
	if !tables(db)["simIDs"] {
		return ids
	}
	rows, err := db.Query("SELECT simID FROM simIDs ORDER BY rowid")
	Must(err)
	defer rows.Close()
	for rows.Next() {
		var id sql.NullInt64
		Must(rows.Scan(&id))
		ids = append(ids, id.Int64)
	}
	return ids
}

// AllSims lists the simulation identifiers that occur in any table.
func AllSims(fn string) []int64 {
	db, err := sql.Open("sqlite3", fn)
	Must(err)
	defer db.Close()
	out := NewSimIDs(db)
	t := tables(db)
	for _, name := range []string{"fields", "comments", "simAttributes", "simTextAttributes", "timeseries"} {
		if !t[name] {
			continue
		}
		rows, err := db.Query("SELECT DISTINCT simID FROM " + name)
		Must(err)
		for rows.Next() {
			var id int64
			Must(rows.Scan(&id))
			out = append(out, id)
		}
		rows.Close()
	}
	return out
}

func fnum(v sql.NullFloat64) float64 {
	if !v.Valid {
		return math.NaN()
	}
	return v.Float64
}

// Observe reads the documented tables.
func Observe(fn string, sims Sims) Obs {
	db, err := sql.Open("sqlite3", fn)
	Must(err)
	defer db.Close()
	o := Obs{Ids: []int{}, Positions: [][]int{}, Fields: [][]int{}, Joined: [][]int{}, Comments: [][]int{}, Attrs: [][]int{}, Texts: [][]int{}, Series: [][]int{}}
	t := tables(db)
	for _, id := range NewSimIDs(db) {
		o.Ids = append(o.Ids, sims.of(id))
	}
	npos := 0
	if t["positions"] {
		rows, err := db.Query("SELECT id, X, Y, Z FROM positions ORDER BY id")
		Must(err)
		for rows.Next() {
			var id, x, y, z int
			Must(rows.Scan(&id, &x, &y, &z))
			o.Positions = append(o.Positions, []int{id, x, y, z})
			npos++
		}
		rows.Close()
	}
	if t["fields"] {
		type group struct {
			sim        int64
			step, name int
			nodes      map[int]float64
			dup        bool
		}
		groups := map[string]*group{}
		order := []string{}
		rows, err := db.Query("SELECT name, value, positionId, timestep, simID FROM fields ORDER BY id")
		Must(err)
		for rows.Next() {
			var name string
			var v sql.NullFloat64
			var pid, step int
			var sim int64
			Must(rows.Scan(&name, &v, &pid, &step, &sim))
			k := fmt.Sprintf("%d/%d/%s", sim, step, name)
			g := groups[k]
			if g == nil {
				g = &group{sim: sim, step: step, name: Index(Names, name), nodes: map[int]float64{}}
				groups[k] = g
				order = append(order, k)
			}
			if _, ok := g.nodes[pid]; ok {
				g.dup = true
			}
			g.nodes[pid] = fnum(v)
		}
		rows.Close()
		toks := map[string]int{}
		for _, k := range order {
			g := groups[k]
			v := []float64{}
			keys := []int{}
			for p := range g.nodes {
				keys = append(keys, p)
			}
			sort.Ints(keys)
			for _, p := range keys {
				v = append(v, g.nodes[p])
			}
			tok := FieldTok(v)
			toks[k] = tok
			// complete: exactly the node numbers 0..n-1
			if g.dup || len(keys) != npos || (len(keys) > 0 && (keys[0] != 0 || keys[len(keys)-1] != npos-1)) {
				tok = -2
			}
			o.Fields = append(o.Fields, []int{sims.of(g.sim), g.step, g.name, tok})
		}
		if t["positions"] {
			rows, err = db.Query("SELECT f.name, f.value, f.timestep, f.simID, p.X, p.Y, p.Z FROM fields f JOIN positions p ON p.id = f.positionId ORDER BY f.id")
			Must(err)
			for rows.Next() {
				var name string
				var v sql.NullFloat64
				var step, x, y, z int
				var sim int64
				Must(rows.Scan(&name, &v, &step, &sim, &x, &y, &z))
				k := fmt.Sprintf("%d/%d/%s", sim, step, name)
				o.Joined = append(o.Joined, []int{NodeOf(toks[k], fnum(v), 4096), x, y, z})
			}
			rows.Close()
		}
	}
	if t["comments"] {
		rows, err := db.Query("SELECT simID, value FROM comments ORDER BY rowid")
		Must(err)
		for rows.Next() {
			var sim int64
			var v string
			Must(rows.Scan(&sim, &v))
			o.Comments = append(o.Comments, []int{sims.of(sim), CommentTok(v)})
		}
		rows.Close()
	}
	if t["simAttributes"] {
		rows, err := db.Query("SELECT simID, key, value FROM simAttributes ORDER BY rowid")
		Must(err)
		for rows.Next() {
			var sim int64
			var k string
			var v sql.NullFloat64
			Must(rows.Scan(&sim, &k, &v))
			o.Attrs = append(o.Attrs, []int{sims.of(sim), Index(Keys, k), AttrTok(fnum(v))})
		}
		rows.Close()
	}
	if t["simTextAttributes"] {
		rows, err := db.Query("SELECT simID, key, value FROM simTextAttributes ORDER BY rowid")
		Must(err)
		for rows.Next() {
			var sim int64
			var k, v string
			Must(rows.Scan(&sim, &k, &v))
			o.Texts = append(o.Texts, []int{sims.of(sim), Index(Keys, k), Index(Texts, v)})
		}
		rows.Close()
	}
	if t["timeseries"] {
		rows, err := db.Query("SELECT simID, key, timestep, value FROM timeseries ORDER BY rowid")
		Must(err)
		for rows.Next() {
			var sim int64
			var k string
			var step int
			var v sql.NullFloat64
			Must(rows.Scan(&sim, &k, &step, &v))
			o.Series = append(o.Series, []int{sims.of(sim), Index(Keys, k), step, AttrTok(fnum(v))})
		}
		rows.Close()
	}
	return o
}

// CommentTok finds the comment token; line breaks are stored as spaces.
func CommentTok(v string) int {
	for i := 1; i < len(Texts); i++ {
		s := ""
		for _, r := range Texts[i] {
			if r == '\n' {
				r = ' '
			}
			s += string(r)
		}
		if s == v {
			return i
		}
	}
	return -1
}
