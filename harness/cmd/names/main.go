// Command names registers models and compares what every name refers to.
package main

import (
	"fmt"
	"io/ioutil"
	"log"

	"github.com/davidkleiven/gopf/pf"
	"verifharness/lib"
)

// Case is one model.
type Case struct {
	lib.Prog
	Shape []int `json:"shape"`
	Seed  int64 `json:"seed"`
	Order int   `json:"order"`
}

// Row is the outcome.
type Row struct {
	Case     int    `json:"case"`
	Msg      string `json:"msg"`
	Compared int    `json:"compared"`
}

func run(k int, c Case) (row Row) {
	row.Case = k
	w := lib.NewWorld(c.Prog, c.Shape, c.Seed, false)
	var m *pf.Model
	if row.Msg = lib.Try(func() {
		m = w.Build(c.Order)
		pf.NewSolver(m, c.Shape, 0.01)
	}); row.Msg != "" {
		row.Msg = "refused: " + row.Msg
		return
	}
	check := func(n string, want []complex128) {
		b, ok := m.Bricks[n]
		if !ok {
			row.Msg += fmt.Sprintf("%s is not available; ", n)
			return
		}
		got := make([]complex128, len(want))
		for i := range got {
			got[i] = b.Get(i)
		}
		if !(lib.MaxDiff(got, want) < 1e-9) {
			row.Msg += fmt.Sprintf("%s refers to %v, expected %v; ", n, got, want)
		}
		row.Compared++
	}
	vals := func(i int) []complex128 {
		v := make([]complex128, len(w.Init))
		for f := range v {
			v[f] = w.Init[f][i]
		}
		return v
	}
	all := func() {
		for f, n := range c.D.Fields {
			check(n, w.Init[f])
		}
		for _, n := range c.D.Consts {
			v := make([]complex128, w.G.N)
			for i := range v {
				v[i] = complex(w.Consts[n], 0)
			}
			check(n, v)
		}
		for j, n := range c.D.Funcs {
			v := make([]complex128, w.G.N)
			for i := range v {
				v[i] = lib.Func(j, vals(i))
			}
			check(n, v)
		}
		for j, u := range c.D.UTerms {
			if u.K == "imp" {
				continue
			}
			d1, d2 := make([]complex128, w.G.N), make([]complex128, w.G.N)
			for i := range d1 {
				d1[i], d2[i] = lib.UDer(j, vals(i))
			}
			check(lib.DerName(u.N, 1), d1)
			check(lib.DerName(u.N, 2), d2)
		}
	}
	all()
	if len(c.D.Consts) > 0 {
		n := c.D.Consts[k%len(c.D.Consts)]
		if s, ok := m.Bricks[n].(*pf.Scalar); ok {
			s.SetFloat(7.5)
			w.Consts[n] = 7.5
			all()
		}
	}
	return
}

func main() {
	var cases []Case
	lib.Start(&cases)
	log.SetOutput(ioutil.Discard)
	for k, c := range cases {
		lib.Emit(run(k, c))
		lib.Flush()
	}
	lib.Done()
}
