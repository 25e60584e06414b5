package main

import (
	"math"
	"math/cmplx"
	"math/rand"

	"github.com/davidkleiven/gopf/elasticity"
	"verifharness/lib"
)

// The evaluator computes what the specification Terms says, with floating point numbers on any grid. On the grids of the
// specification the check compares it with the exact values.

var random *rand.Rand

func half(f float64) bool { return math.Abs(math.Abs(f)-0.5) < 1e-9 }

// der is the factor of a first derivative, without the imaginary unit.
func der(g *lib.Grid, i, d int) float64 {
	f := g.Freq(i)[d]
	if half(f) {
		return 0
	}
	return 2 * math.Pi * f
}

func times(g *lib.Grid, f []complex128, m func(i int) complex128) []complex128 {
	r := make([]complex128, g.N)
	for i := range r {
		r[i] = f[i] * m(i)
	}
	return r
}

func grad(g *lib.Grid, f []complex128, d int) []complex128 {
	return g.IDFT(times(g, g.DFT(f), func(i int) complex128 { return complex(0, der(g, i, d)) }))
}

func mul(a, b []complex128) []complex128 {
	r := make([]complex128, len(a))
	for i := range r {
		r[i] = a[i] * b[i]
	}
	return r
}

func add(a, b []complex128, s complex128) {
	for i := range a {
		a[i] += s * b[i]
	}
}

func polyAt(p []Mono, g *lib.Grid, F map[string][]complex128) []complex128 {
	r := make([]complex128, g.N)
	for i := range r {
		for _, m := range p {
			v := complex(m.C, 0)
			for _, f := range m.F {
				v *= F[f][i]
			}
			r[i] += v
		}
	}
	return r
}

func corrAt(t Term, k float64) float64 {
	best := 0.0
	for _, p := range t.Peaks {
		T := 0.25 * t.Temp
		w := (k - p.Loc*math.Pi/4) / (0.5 * p.Width)
		best = math.Max(best, math.Exp(-T*T*k*k/(2*0.5*p.Dens*float64(p.Planes))-0.5*w*w))
	}
	return best
}

func viscAt(t Term, f float64) float64 {
	m := (t.Threshold + 0.37) / 8
	x := 3*f/(2*m) - 0.5
	q := 2*x*x - 3*x*x*x
	if f < m/3 {
		q = 0
	} else if f > m {
		q = 1
	}
	return q * math.Pow(f, float64(t.Power))
}

// value is the explicit rate and the multiplier of the own field; either may be nil.
func value(t Term, g *lib.Grid, F map[string][]complex128) (rate, own []complex128) {
	dim := len(g.Shape)
	n := g.N
	zero := func() []complex128 { return make([]complex128, n) }
	lap := func(i int) float64 {
		if t.Lap {
			return -g.K2(i)
		}
		return 1
	}
	f := F[t.Field]
	switch t.Op {
	case "adv":
		rate = zero()
		for d := 0; d < dim; d++ {
			add(rate, g.DFT(mul(F[t.Vel[d]], grad(g, f, d))), -1)
		}
	case "divgrad":
		rate = zero()
		p := polyAt(t.Poly, g, F)
		for d := 0; d < dim; d++ {
			add(rate, times(g, g.DFT(mul(p, grad(g, f, d))), func(i int) complex128 { return complex(0, der(g, i, d)) }), 1)
		}
	case "wlap":
		l := g.IDFT(times(g, g.DFT(f), func(i int) complex128 { return complex(-g.K2(i), 0) }))
		rate = g.DFT(mul(polyAt(t.Poly, g, F), l))
	case "sqgrad":
		rate = zero()
		for d := 0; d < dim; d++ {
			h := grad(g, f, d)
			add(rate, g.DFT(mul(h, h)), complex(t.Factor/2, 0))
		}
	case "hessian":
		own = zero()
		for i := range own {
			for a := 0; a < dim; a++ {
				for b := 0; b < dim; b++ {
					k := der(g, i, a) * der(g, i, b)
					if a == b {
						k = math.Pow(2*math.Pi*g.Freq(i)[a], 2)
					}
					own[i] -= complex(k*t.K[a*dim+b]/2, 0)
				}
			}
		}
	case "charge":
		rate = zero()
		e := make([][]complex128, dim)
		for d := range e {
			e[d] = g.IDFT(times(g, g.DFT(f), func(i int) complex128 {
				if der(g, i, d) == 0 {
					return 0
				}
				return complex(0, -der(g, i, d)/g.K2(i))
			}))
			for i := range e[d] {
				e[d][i] += complex(t.Ext[d]*2/math.Pi, 0)
			}
		}
		idx := [][]int{{0, 5, 4}, {5, 1, 3}, {4, 3, 2}}
		if dim == 2 {
			idx = [][]int{{0, 2}, {2, 1}}
		}
		for a := 0; a < dim; a++ {
			j := zero()
			for i := range j {
				for b := 0; b < dim; b++ {
					j[i] += complex(t.Sigma[i%len(t.Sigma)][idx[a][b]], 0) * e[b][i]
				}
			}
			add(rate, times(g, g.DFT(j), func(i int) complex128 { return complex(0, -der(g, i, a)) }), 1)
		}
	case "mix":
		own = zero()
		v := zero()
		for i := range own {
			own[i] = complex(t.A*lap(i), 0)
			v[i] = complex(t.A, 0) * (complex(t.C4/3, 0)*f[i]*f[i]*f[i] - complex(t.C3/2, 0)*f[i]*f[i])
		}
		rate = times(g, g.DFT(v), func(i int) complex128 { return complex(lap(i), 0) })
	case "mixfunc":
		v := zero()
		for i := range v {
			v[i] = complex(t.A, 0) * (f[i] + complex(t.C4/3, 0)*f[i]*f[i]*f[i] - complex(t.C3/2, 0)*f[i]*f[i])
		}
		rate = g.DFT(v)
	case "penalty":
		v := zero()
		for i := range v {
			if x := real(f[i]); x < 0 {
				v[i] = complex(-t.A*float64(t.P)*(math.Pow(-x, float64(t.P-1))+math.Pow(x, float64(t.P-1))), 0)
			}
		}
		rate = g.DFT(v)
	case "pair":
		own = zero()
		for i := range own {
			own[i] = complex(-t.A*lap(i)*corrAt(t, math.Sqrt(g.K2(i))), 0)
		}
	case "pairexp":
		rate = times(g, g.DFT(f), func(i int) complex128 { return complex(-t.A*lap(i)*corrAt(t, math.Sqrt(g.K2(i))), 0) })
	case "visc":
		own = zero()
		for i := range own {
			own[i] = complex(-t.A*viscAt(t, math.Sqrt(g.K2(i))/(2*math.Pi)), 0)
		}
	}
	return
}

// rates of the equation of field j.
func rates(c Case, j int, g *lib.Grid, F map[string][]complex128) ([]complex128, []float64) {
	rate, own := make([]complex128, g.N), make([]float64, g.N)
	for _, r := range c.Eqs[j] {
		a, b := value(c.Terms[r.T-1], g, F)
		for i := 0; i < g.N; i++ {
			m := float64(r.S) * math.Pow(-g.K2(i), float64(r.L))
			if a != nil {
				rate[i] += complex(m, 0) * a[i]
			}
			if b != nil {
				own[i] += m * real(b[i])
			}
		}
	}
	return rate, own
}

// onOther plays one step on the other grid with values of any kind.
func onOther(c Case) []float64 {
	g := lib.NewGrid(c.Shape)
	F := map[string][]complex128{}
	for _, nm := range c.Names {
		f := make([]complex128, g.N)
		for i := range f {
			f[i] = complex(3*random.Float64()-1.5, 0)
		}
		F[nm] = f
	}
	m, s, _ := build(c, func(j int) []complex128 { return F[c.Names[j]] })
	s.Solve(1, 1)
	got := current(m, c.Names)
	var r []float64
	for j, nm := range c.Names {
		rate, own := rates(c, j, g, F)
		k := g.DFT(F[nm])
		size := 1.0
		for i := range k {
			size = math.Max(size, dt*cmplx.Abs(rate[i]))
			k[i] = (k[i] + complex(dt, 0)*rate[i]) / complex(1-dt*own[i], 0)
			size = math.Max(size, cmplx.Abs(k[i]))
		}
		want := g.IDFT(k)
		im := 0.0
		for _, x := range got[j] {
			im = math.Max(im, math.Abs(imag(x)))
		}
		r = append(r, lib.MaxDiff(got[j], want), im, size)
	}
	return r
}

// misfitRate is -dE/dx of the elastic energy with the strain in equilibrium.
func misfitRate(shape []int, C elasticity.Rank4, misfit, x []float64) []float64 {
	g := lib.NewGrid(shape)
	dim := len(shape)
	H := make([]complex128, g.N)
	for i := range H {
		H[i] = complex(3*x[i]*x[i]-2*x[i]*x[i]*x[i], 0)
	}
	var A [3][3]float64
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					A[i][j] += C.At(i, j, k, l) * misfit[3*k+l]
				}
			}
		}
	}
	h := g.DFT(H)
	var strain [3][3][]complex128
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			strain[i][j] = make([]complex128, g.N)
		}
	}
	for n := 0; n < g.N; n++ {
		if g.K2(n) < 1e-12 {
			continue
		}
		var k, kd [3]float64
		for d := 0; d < dim; d++ {
			k[d], kd[d] = 2*math.Pi*g.Freq(n)[d], der(g, n, d)
		}
		var M [3][3]float64
		var b [3]complex128
		for m := 0; m < 3; m++ {
			for p := 0; p < 3; p++ {
				for j := 0; j < 3; j++ {
					for l := 0; l < 3; l++ {
						M[m][p] += C.At(m, j, p, l) * k[j] * k[l]
					}
				}
				b[m] += complex(0, -A[m][p]*k[p]) * h[n]
			}
		}
		u := solve3(M, b)
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				strain[i][j][n] = complex(0, 0.5*kd[j])*u[i] + complex(0, 0.5*kd[i])*u[j]
			}
		}
	}
	out := make([]float64, g.N)
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			e := g.IDFT(strain[i][j])
			for n := range out {
				out[n] += A[i][j] * (real(e[n]) - misfit[3*i+j]*real(H[n]))
			}
		}
	}
	for n := range out {
		out[n] *= 6*x[n] - 6*x[n]*x[n]
	}
	return out
}

func solve3(M [3][3]float64, b [3]complex128) [3]complex128 {
	det := func(m [3][3]complex128) complex128 {
		return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0])
	}
	var c [3][3]complex128
	for i := range M {
		for j := range M[i] {
			c[i][j] = complex(M[i][j], 0)
		}
	}
	D := det(c)
	var x [3]complex128
	for j := 0; j < 3; j++ {
		m := c
		for i := 0; i < 3; i++ {
			m[i][j] = b[i]
		}
		x[j] = det(m) / D
	}
	return x
}
