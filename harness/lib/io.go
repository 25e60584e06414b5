// Package lib holds what the harness programs share: input and output, panics turned into observations,
// and a naive discrete Fourier transform that is independent of the code under test.
package lib

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"math"
	"math/cmplx"
	"os"
	"reflect"
	"strconv"
)

var inFile = flag.String("in", "", "input JSON")
var outFile = flag.String("out", "", "output ndjson")
var w *bufio.Writer
var fh *os.File

// Start parses the flags, reads the input into v and opens the output.
func Start(v interface{}) {
	flag.Parse()
	b, err := ioutil.ReadFile(*inFile)
	Must(err)
	Must(json.Unmarshal(b, v))
	Open(*outFile)
}

// Open opens the output.
func Open(fn string) {
	var err error
	fh, err = os.Create(fn)
	Must(err)
	w = bufio.NewWriter(fh)
}

// Soft makes Must panic, for what Try has to observe.
var Soft bool

// Emit writes one record.
func Emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		if _, ok := err.(*json.UnsupportedValueError); ok {
			b, err = json.Marshal(finite(reflect.ValueOf(v)).Interface())
		}
	}
	Must(err)
	w.Write(b)
	w.WriteByte('\n')
}

// finite copies v with values that JSON cannot hold replaced by a number that no expectation matches.
func finite(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Float64:
		if x := v.Float(); math.IsNaN(x) || math.IsInf(x, 0) {
			return reflect.ValueOf(1.2345e300).Convert(v.Type())
		}
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(finite(v.Index(i)))
		}
		return r
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			r.SetMapIndex(k, finite(v.MapIndex(k)))
		}
		return r
	case reflect.Array:
		r := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(finite(v.Index(i)))
		}
		return r
	case reflect.Struct:
		r := reflect.New(v.Type()).Elem()
		r.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if r.Field(i).CanSet() {
				r.Field(i).Set(finite(v.Field(i)))
			}
		}
		return r
	case reflect.Interface:
		if !v.IsNil() {
			return finite(v.Elem())
		}
	case reflect.Ptr:
		if !v.IsNil() {
			r := reflect.New(v.Type().Elem())
			r.Elem().Set(finite(v.Elem()))
			return r
		}
	}
	return v
}

// Flush flushes the output file.
func Flush() { w.Flush() }

// Done closes the output.
func Done() { w.Flush(); fh.Close() }

// Must stops the harness (an error of the check, not a verdict).
func Must(err error) {
	if err != nil {
		if Soft {
			panic(err)
		}
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}

// Try runs f and returns the panic message, or "".
func Try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return ""
}

// Seed returns VERIF_SEED.
func Seed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

// Pos is the reference numbering of the specification (row major in 2D, planes of the third axis in 3D).
func Pos(shape []int, n int) []int {
	if len(shape) == 2 {
		return []int{n / shape[1], n % shape[1]}
	}
	return []int{(n / shape[1]) % shape[0], n % shape[1], n / (shape[0] * shape[1])}
}

// Node is the inverse of Pos.
func Node(shape []int, p []int) int {
	if len(shape) == 2 {
		return p[0]*shape[1] + p[1]
	}
	return p[2]*shape[0]*shape[1] + p[0]*shape[1] + p[1]
}

// Prod multiplies.
func Prod(a []int) int {
	r := 1
	for _, x := range a {
		r *= x
	}
	return r
}

// Grid caches what the naive transform needs for one shape.
type Grid struct {
	Shape []int
	N     int
	tw    [][]complex128 // per axis: exp(-2 pi i m / n)
	pos   [][]int
	freq  [][]float64
}

// NewGrid makes one.
func NewGrid(shape []int) *Grid {
	g := &Grid{Shape: append([]int{}, shape...), N: Prod(shape)}
	for _, n := range shape {
		t := make([]complex128, n)
		for m := range t {
			t[m] = cmplx.Rect(1, -2*math.Pi*float64(m)/float64(n))
		}
		g.tw = append(g.tw, t)
	}
	for i := 0; i < g.N; i++ {
		p := Pos(shape, i)
		g.pos = append(g.pos, p)
		f := make([]float64, len(shape))
		for a := range f {
			k := p[a]
			if 2*k > shape[a] {
				k -= shape[a]
			}
			f[a] = float64(k) / float64(shape[a])
		}
		g.freq = append(g.freq, f)
	}
	return g
}

// Freq is the reference frequency of a node, in (-1/2, 1/2].
func (g *Grid) Freq(i int) []float64 { return g.freq[i] }

// K2 is (2 pi |f|)^2.
func (g *Grid) K2(i int) float64 {
	s := 0.0
	for _, f := range g.freq[i] {
		s += f * f
	}
	return 4 * math.Pi * math.Pi * s
}

func (g *Grid) axis(in []complex128, a int, inv bool) []complex128 {
	out := make([]complex128, len(in))
	n := g.Shape[a]
	stride := Node(g.Shape, unit(len(g.Shape), a))
	for i := range in {
		k := g.pos[i][a]
		base := i - k*stride
		var s complex128
		for m := 0; m < n; m++ {
			t := g.tw[a][(k*m)%n]
			if inv {
				t = cmplx.Conj(t)
			}
			s += in[base+m*stride] * t
		}
		out[i] = s
	}
	return out
}

func unit(d, a int) []int {
	u := make([]int, d)
	u[a] = 1
	return u
}

// DFT is the forward transform by direct summation along each axis.
func (g *Grid) DFT(in []complex128) []complex128 {
	for a := range g.Shape {
		in = g.axis(in, a, false)
	}
	return in
}

// IDFT is the backward transform including the division by the number of nodes.
func (g *Grid) IDFT(in []complex128) []complex128 {
	for a := range g.Shape {
		in = g.axis(in, a, true)
	}
	out := make([]complex128, len(in))
	for i := range in {
		out[i] = in[i] / complex(float64(g.N), 0)
	}
	return out
}

// MaxDiff is the largest |a-b|; lengths must agree. NaN counts as infinite unless both are NaN.
func MaxDiff(a, b []complex128) float64 {
	if len(a) != len(b) {
		return math.Inf(1)
	}
	m := 0.0
	for i := range a {
		d := cmplx.Abs(a[i] - b[i])
		if math.IsNaN(d) {
			return math.Inf(1)
		}
		if d > m {
			m = d
		}
	}
	return m
}

// MaxAbs is the largest modulus.
func MaxAbs(a []complex128) float64 {
	m := 0.0
	for i := range a {
		d := cmplx.Abs(a[i])
		if math.IsNaN(d) {
			return math.Inf(1)
		}
		if d > m {
			m = d
		}
	}
	return m
}
