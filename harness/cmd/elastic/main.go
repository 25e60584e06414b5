// Command elastic replays behaviours of the specification Elastic into gopf/elasticity. It reports what was observed in the
// integer units of the specification.
package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/elasticity"
	"gonum.org/v1/gonum/mat"
	"verifharness/lib"
)

// Node is one node in Fourier space.
type Node struct {
	K     []float64   `json:"k"`
	Force [][]float64 `json:"force"`
	U     interface{} `json:"u"`
	Shape float64     `json:"shape"`
}

// Op is one operation.
type Op struct {
	Op       string    `json:"op"`
	Args     []float64 `json:"args"`
	Den      float64   `json:"den"`
	Q        float64   `json:"q"`
	Nodes    []Node    `json:"nodes"`
	Misfit   []float64 `json:"misfit"`
	Dim      int       `json:"dim"`
	Voigt    []float64 `json:"voigt"`
	VoigtInc []float64 `json:"voigtinc"`
	Inc      bool      `json:"inc"`
	Pert     bool      `json:"pert"`
	Axis     int       `json:"axis"`
	Profile  []float64 `json:"profile"`
	W        float64   `json:"w"`
	N        int       `json:"N"`
	Perm     []int     `json:"perm"`
	Half     []float64 `json:"half"`
}

// Row is what was observed.
type Row struct {
	Case int         `json:"case"`
	Got  [][]float64 `json:"got"`
	Msg  string      `json:"msg"`
}

func matrix(v []float64) *mat.Dense { return mat.NewDense(3, 3, append([]float64{}, v...)) }

func scaled(v []float64, s float64) []float64 {
	r := make([]float64, len(v))
	for i := range v {
		r[i] = v[i] * s
	}
	return r
}

func vec(x interface{}) []float64 {
	r := []float64{}
	for _, v := range x.([]interface{}) {
		r = append(r, v.(float64))
	}
	return r
}

func pair(x interface{}) [2][]float64 {
	l := x.([]interface{})
	return [2][]float64{vec(l[0]), vec(l[1])}
}

func freq(o Op, dim int) elasticity.Frequency {
	return func(i int) []float64 { return scaled(o.Nodes[i].K[:dim], 1/o.Q) }
}

// plain is a Fourier transform that leaves the data alone but for the usual factor, so that everything stays an integer.
type plain struct {
	f elasticity.Frequency
}

func (p plain) Freq(i int) []float64            { return p.f(i) }
func (p plain) FFT(d []complex128) []complex128 { return d }
func (p plain) IFFT(d []complex128) []complex128 {
	for i := range d {
		d[i] *= complex(float64(len(d)), 0)
	}
	return d
}

func engineering(m []float64) []float64 {
	return []float64{m[0], m[4], m[8], 2 * m[5], 2 * m[2], 2 * m[1]}
}

// permuted renames the axes of an orthotropic material, a misfit and half axes.
func permuted(o Op) (v, m, h []float64) {
	t := elasticity.FromFlatVoigt(o.Voigt)
	p := o.Perm
	idx := [][]int{{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}}
	for _, a := range idx {
		for _, b := range idx {
			v = append(v, t.At(p[a[0]], p[a[1]], p[b[0]], p[b[1]]))
		}
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			m = append(m, o.Misfit[3*p[i]+p[j]])
		}
		h = append(h, o.Half[p[i]])
	}
	return
}

func volume(h []float64) float64 { return 4 * math.Pi * h[0] * h[1] * h[2] / 3 }

// total is the energy of the whole domain.
func total(n int, half, voigt, misfit, inc []float64, pert bool) float64 {
	return volume(half) * elasticity.CalculateStrainEnergy(elasticity.StrainEnergyInput{HalfA: half[0], HalfB: half[1], HalfC: half[2],
		Misfit: engineering(misfit), MatPropMatrix: voigt, MatPropInc: inc, DomainSize: n, ApplyPerturbation: pert})
}

func run(ops []Op) (got [][]float64, msg string) {
	var t elasticity.Rank4
	for n, o := range ops {
		out := []float64{}
		err := lib.Try(func() {
			switch o.Op {
			case "iso":
				t = elasticity.Isotropic(o.Args[0], o.Args[1]/o.Args[2])
				out = scaled(t.Data, o.Den)
			case "cubic":
				t = elasticity.CubicMaterial(o.Args[0], o.Args[1], o.Args[2])
				out = scaled(t.Data, o.Den)
			case "voigt":
				t = elasticity.FromFlatVoigt(o.Args)
				out = scaled(t.Data, o.Den)
			case "turn":
				r := elasticity.RotationMatrix(math.Atan2(o.Args[2], o.Args[1]), int(o.Args[0]))
				for i := 0; i < 9; i++ {
					out = append(out, r.At(i/3, i%3)*o.Args[3])
				}
				t.Rotate(r)
				out = append(out, scaled(t.Data, o.Den)...)
			case "contract":
				r := t.ContractLast(matrix(o.Args))
				for i := 0; i < 9; i++ {
					out = append(out, r.At(i/3, i%3)*o.Den)
				}
			case "energy":
				out = []float64{2 * o.Den * elasticity.EnergyDensity(&t, matrix(o.Args))}
			case "solve":
				f := make([][]complex128, len(o.Nodes))
				s := math.Pow(2*math.Pi/o.Q, 2) / o.Den
				for i, nd := range o.Nodes {
					for c := 0; c < 3; c++ {
						f[i] = append(f[i], complex(s*nd.Force[0][c], s*nd.Force[1][c]))
					}
					if nd.K[0] == 0 && nd.K[1] == 0 && nd.K[2] == 0 {
						f[i] = []complex128{3, complex(0, 2), 1}
					}
				}
				u := elasticity.Displacements(f, freq(o, 3), &t)
				for i := range u {
					for c := 0; c < 3; c++ {
						out = append(out, real(u[i][c]))
					}
					for c := 0; c < 3; c++ {
						out = append(out, imag(u[i][c]))
					}
				}
			case "strain":
				u := make([][]complex128, len(o.Nodes))
				for i, nd := range o.Nodes {
					p := pair(nd.U)
					for c := 0; c < 3; c++ {
						u[i] = append(u[i], complex(p[0][c], p[1][c]))
					}
				}
				r := make([][]float64, len(u))
				for m := 0; m < 3; m++ {
					for k := 0; k < 3; k++ {
						s := elasticity.Strain(u, freq(o, 3), m, k)
						for i := range s {
							x := s[i] / complex(0, math.Pi/o.Q)
							r[i] = append(r[i], real(x), imag(x))
						}
					}
				}
				for i := range r {
					out = append(out, r[i]...)
				}
			case "force":
				eff := elasticity.NewEffectiveForceFromMisfit(t, matrix(o.Misfit))
				chi := make([]complex128, len(o.Nodes))
				for i, nd := range o.Nodes {
					p := pair(nd.U)
					chi[i] = complex(p[0][0], p[1][0])
				}
				re, im := make([][]float64, len(chi)), make([][]float64, len(chi))
				for c := 0; c < 3; c++ {
					f := eff.Get(c, freq(o, o.Dim), chi)
					for i := range f {
						x := f[i] / complex(0, -2*math.Pi/o.Q) * complex(o.Den, 0)
						re[i], im[i] = append(re[i], real(x)), append(im[i], imag(x))
					}
				}
				for i := range re {
					out = append(append(out, re[i]...), im[i]...)
				}
			case "perturb":
				u := make([][]complex128, len(o.Nodes))
				for i, nd := range o.Nodes {
					for _, x := range vec(nd.U) {
						u[i] = append(u[i], complex(0, x*o.Q/math.Pi))
					}
				}
				f := elasticity.PerturbedForce(plain{freq(o, o.Dim)}, matrix(o.Misfit), u, func(i int) float64 { return o.Nodes[i].Shape }, &t)
				for i := range f {
					for c := 0; c < 3; c++ {
						x := f[i][c] / complex(0, -2*math.Pi/o.Q) * complex(o.Den, 0)
						out = append(out, real(x))
						if math.Abs(imag(x)) > 1e-6 {
							out[len(out)-1] = math.NaN()
						}
					}
				}
			case "slab":
				shape := []int{2, 3, 5}[:o.Dim]
				if n%2 == 0 {
					shape = []int{4, 1, 2}[:o.Dim]
				}
				shape[o.Axis] = len(o.Profile)
				nodes := 1
				for _, s := range shape {
					nodes *= s
				}
				ind := make([]complex128, nodes)
				vol := 0.0
				for i := range ind {
					p := []int{i / shape[1] % shape[0], i % shape[1], i / (shape[0] * shape[1])}
					ind[i] = complex(o.Profile[p[o.Axis]], 0)
					vol += real(ind[i])
				}
				e := elasticity.HomogeneousModulusEnergy(ind, shape, matrix(o.Misfit), elasticity.FromFlatVoigt(o.Voigt))
				out = []float64{2 * e * vol / float64(nodes/len(o.Profile)) * o.Den}
			case "flat":
				half := []float64{1e7, 1e7, 1e7}
				half[o.Axis] = o.W + 0.5
				var inc []float64
				if o.Inc {
					inc = o.VoigtInc
				}
				out = []float64{2 * total(o.N, half, o.Voigt, o.Misfit, inc, o.Pert) / float64(o.N*o.N) * o.Den}
			case "ellipsoid":
				e := total(o.N, o.Half, o.Voigt, o.Misfit, nil, false)
				if math.Abs(e) < 1e-9 {
					out = []float64{1, 4, 3, 1, 1}
					break
				}
				v, m, h := permuted(o)
				vox := elasticity.Ellipsoid(o.N, o.Half[0], o.Half[1], o.Half[2])
				vol := 0.0
				for i := range vox.Data {
					vol += real(vox.Data[i])
				}
				out = []float64{total(o.N, h, v, m, nil, false) / e, total(o.N, o.Half, o.Voigt, scaled(o.Misfit, 2), nil, false) / e,
					total(o.N, o.Half, scaled(o.Voigt, 3), o.Misfit, nil, false) / e, total(o.N, o.Half, o.Voigt, o.Misfit, o.Voigt, true) / e,
					vol * elasticity.HomogeneousModulusEnergy(vox.Data, []int{o.N, o.N, o.N}, matrix(o.Misfit), elasticity.FromFlatVoigt(o.Voigt)) / e}
			default:
				lib.Must(fmt.Errorf("operation %s", o.Op))
			}
		})
		if err != "" {
			return got, fmt.Sprintf("%s: %s", o.Op, err)
		}
		for i := range out {
			if math.IsNaN(out[i]) || math.IsInf(out[i], 0) {
				return got, fmt.Sprintf("%s: value %d is %v", o.Op, i, out[i])
			}
		}
		got = append(got, out)
	}
	return got, ""
}

func main() {
	var cases [][]Op
	lib.Start(&cases)
	for i, c := range cases {
		got, msg := run(c)
		lib.Emit(Row{i, got, msg})
	}
	lib.Done()
}
