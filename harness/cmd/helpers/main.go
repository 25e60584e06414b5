// Command helpers evaluates the functions of one number at the points of Helpers.tla.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/davidkleiven/gopf/pf"
	"verifharness/lib"
)

// Case is one value of the specification.
type Case struct {
	Kind string `json:"kind"`
	Par  []int  `json:"par"`
	M    int    `json:"m"`
	K    int    `json:"k"`
	Num  int    `json:"num"`
	Den  int    `json:"den"`
	Mom  struct {
		Mean   float64 `json:"mean"`
		Var    float64 `json:"var"`
		Fourth float64 `json:"fourth"`
		Corr   float64 `json:"corr"`
	} `json:"mom"`
}

// Samples of the noise
const Samples = 400000

func eval(c Case) string {
	want := float64(c.Num) / float64(c.Den)
	switch c.Kind {
	case "bound":
		x := math.Tan(float64(c.K) * math.Pi / (2 * float64(c.M)))
		bt := pf.BoundTransform{Min: float64(c.Par[0]), Max: float64(c.Par[1])}
		if y := bt.Forward(x); !(math.Abs(y-want) < 1e-9) {
			return fmt.Sprintf("Forward(%g) is %g, must be %g", x, y, want)
		}
		if y := bt.Backward(want); !(math.Abs(y-x) < 1e-9) {
			return fmt.Sprintf("Backward(%g) is %g, must be %g", want, y, x)
		}
	case "penalty":
		x := float64(c.K) / float64(c.M)
		ps := []pf.NegativeValuePenalty{{Prefactor: float64(c.Par[0]), Exponent: c.Par[1], Field: "a"}}
		if c.Par[0] == 1500 && c.Par[1] == 3 {
			ps = append(ps, pf.NewDefaultNegativeValuePenalty("a"))
		}
		f := pf.NewField("a", 3, []complex128{5, complex(x, 0), -7})
		other := pf.NewField("b", 3, []complex128{-9, -8, -7})
		b := map[string]pf.Brick{"a": f, "b": other}
		for _, p := range ps {
			if y := p.Penalty(x); !(math.Abs(y-want) <= 1e-9*(1+math.Abs(want))) {
				return fmt.Sprintf("Penalty(%g) is %g, must be %g", x, y, want)
			}
			if y := p.Evaluate(1, b); imag(y) != 0 || !(math.Abs(real(y)-want) <= 1e-9*(1+math.Abs(want))) {
				return fmt.Sprintf("Evaluate at %g is %g, must be %g", x, y, want)
			}
		}
	case "noise":
		s := want
		rand.Seed(lib.Seed() + int64(c.K))
		wn := pf.WhiteNoise{Strength: s}
		n := float64(Samples)
		var m1, m2, m4, co, prev float64
		for i := 0; i < Samples; i++ {
			v := wn.Generate(i%7, nil)
			if imag(v) != 0 || math.IsNaN(real(v)) {
				return fmt.Sprintf("noise is %g", v)
			}
			r := real(v)
			m1, m2, m4, co = m1+r/n, m2+r*r/n, m4+r*r*r*r/n, co+r*prev/n
			prev = r
		}
		// standard deviations of the averages of Gaussian numbers of variance 2s
		v := 2 * s
		for _, x := range []struct {
			name           string
			got, want, dev float64
		}{{"mean", m1, c.Mom.Mean, math.Sqrt(v)}, {"variance", m2, c.Mom.Var * s, math.Sqrt(2) * v}, {"fourth moment", m4, c.Mom.Fourth * s * s, math.Sqrt(96) * v * v}, {"product of successive values", co, c.Mom.Corr * s, v}} {
			if !(math.Abs(x.got-x.want) < 6.5*x.dev/math.Sqrt(n)) {
				return fmt.Sprintf("strength %g: %s is %g, must be %g", s, x.name, x.got, x.want)
			}
		}
	}
	return ""
}

func main() {
	var cases []Case
	lib.Start(&cases)
	for k, c := range cases {
		msg := ""
		if e := lib.Try(func() { msg = eval(c) }); e != "" {
			msg = e
		}
		lib.Emit(map[string]interface{}{"case": k, "msg": msg})
	}
	lib.Done()
}
