package lib

import (
	"database/sql"

	"github.com/davidkleiven/gopf/pf"
)

// Op is an operation of the FieldDB specification.
type Op struct {
	Op    string  `json:"op"`
	H     int     `json:"h"`
	Shape []int   `json:"shape"`
	Step  int     `json:"step"`
	Pairs [][]int `json:"pairs"`
	Text  int     `json:"text"`
	Sim   int     `json:"sim"`
}

// Session drives one database file through several handles.
type Session struct {
	File    string
	Share   bool
	dbs     map[int]*sql.DB
	handles map[int]*pf.FieldDB
	Sims    Sims
}

// NewSession starts with no handles.
func NewSession(fn string, share bool) *Session {
	return &Session{File: fn, Share: share, dbs: map[int]*sql.DB{}, handles: map[int]*pf.FieldDB{}, Sims: Sims{}}
}

func (s *Session) db(h int) *sql.DB {
	if s.Share {
		h = 0
	}
	if s.dbs[h] == nil {
		d, err := sql.Open("sqlite3", s.File)
		Must(err)
		s.dbs[h] = d
	}
	return s.dbs[h]
}

// Handle returns the handle of a simulation.
func (s *Session) Handle(o Op) *pf.FieldDB {
	f := s.handles[o.H]
	if f == nil {
		f = &pf.FieldDB{DB: s.db(o.H), DomainSize: append([]int{}, o.Shape...)}
		s.handles[o.H] = f
	}
	return f
}

// Close closes all connections.
func (s *Session) Close() {
	for _, d := range s.dbs {
		d.Close()
	}
	s.dbs = map[int]*sql.DB{}
}

// SimID is the identifier of a handle's simulation.
func (s *Session) SimID(h int) int {
	for id, x := range s.Sims {
		if x == h {
			return int(id)
		}
	}
	return -1
}

// Learn attributes newly registered identifiers to the handle that just acted.
func (s *Session) Learn(h int) {
	d, err := sql.Open("sqlite3", s.File)
	Must(err)
	defer d.Close()
	for _, id := range NewSimIDs(d) {
		if _, ok := s.Sims[id]; !ok {
			taken := false
			for _, x := range s.Sims {
				if x == h {
					taken = true
				}
			}
			if !taken {
				s.Sims[id] = h
			}
		}
	}
}

// Decode turns loaded fields into <<name, token>> pairs.
func Decode(fields []pf.Field) [][]int {
	res := [][]int{}
	for _, f := range fields {
		v := make([]float64, len(f.Data))
		clean := true
		for i := range f.Data {
			v[i] = real(f.Data[i])
			if imag(f.Data[i]) != 0 {
				clean = false
			}
		}
		tok := FieldTok(v)
		if !clean || len(v) == 0 {
			tok = -3
		}
		res = append(res, []int{Index(Names, f.Name), tok})
	}
	return res
}

// Store performs the storing operations (everything but load and reopen).
func (s *Session) Store(o Op) {
	h := s.Handle(o)
	switch o.Op {
	case "save":
		m := pf.NewModel()
		for _, p := range o.Pairs {
			m.Fields = append(m.Fields, pf.Field{Name: Names[p[0]], Data: FieldData(p[1], Prod(o.Shape))})
		}
		h.SaveFields(&pf.Solver{Model: &m}, o.Step)
	case "comment":
		h.Comment(Texts[o.Text])
	case "attr":
		kv := map[string]float64{}
		for _, p := range o.Pairs {
			kv[Keys[p[0]]] = AttrVal(p[1])
		}
		h.SetAttr(kv)
	case "text":
		kv := map[string]string{}
		for _, p := range o.Pairs {
			kv[Keys[p[0]]] = Texts[p[1]]
		}
		h.SetTextAttr(kv)
	case "series":
		kv := map[string]float64{}
		for _, p := range o.Pairs {
			kv[Keys[p[0]]] = AttrVal(p[1])
		}
		h.TimeSeries(kv, o.Step)
	}
}

// Do performs one operation and returns its result and whether it was refused.
func (s *Session) Do(o Op) (result [][]int, refused bool) {
	result = [][]int{}
	msg := Try(func() {
		switch o.Op {
		case "load":
			result = Decode(s.Handle(o).Load(s.SimID(o.Sim), o.Step))
		case "loadlast":
			result = Decode(s.Handle(o).LoadLast(s.SimID(o.Sim)))
		case "reopen":
			s.Close()
			for h, f := range s.handles {
				f.DB = s.db(h)
			}
		default:
			s.Store(o)
		}
	})
	if o.H != 0 {
		s.Learn(o.H)
	}
	return result, msg != ""
}
