// Command files replays behaviours of the specification Files into the field writers, readers and the ParaView index,
// and records the directory after every operation. All files lie in a scratch directory.
package main

import (
	"encoding/binary"
	"encoding/csv"
	"encoding/xml"
	"io/ioutil"
	"log"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"verifharness/lib"
)

// Op is an operation.
type Op struct {
	Op    string          `json:"op"`
	Pre   string          `json:"pre"`
	Epoch int             `json:"epoch"`
	Pairs [][]interface{} `json:"pairs"`
	Bad   bool            `json:"bad"`
	Path  string          `json:"path"`
	Num   int             `json:"num"`
}

// Case is a behaviour.
type Case struct {
	Ops   []Op  `json:"ops"`
	Shape []int `json:"shape"`
}

// File is a decoded file.
type File struct {
	Path  string   `json:"path"`
	Kind  string   `json:"kind"`
	Names []string `json:"names"`
	Toks  []int    `json:"toks"`
	Pos   [][]int  `json:"pos"`
}

const ntok = 8

func val(tok, node int) float64 {
	switch tok {
	case 3: // whole numbers
		return float64((5*node)%7 - 3)
	case 4:
		return 1234.5 * math.Sin(float64(3*node+1)*0.7)
	case 5:
		return -0.25 + 3.1e-6*float64((node+1)*(node+1))
	case 6:
		return 2.5
	case 7: // tiny
		return 4e-13 * float64((4*node)%11-3)
	case 8: // huge
		return 1e300 * math.Cos(float64(node*node)*0.9+1)
	}
	return lib.FieldVal(tok, node)
}

func exact(v []float64) int {
	for t := 1; t <= ntok; t++ {
		ok := true
		for i := range v {
			w := val(t, i)
			ok = ok && (math.Float64bits(v[i]) == math.Float64bits(w) || (math.IsNaN(v[i]) && math.IsNaN(w)))
		}
		if ok && len(v) > 0 {
			return t
		}
	}
	return -1
}

func decimals(v []float64) int {
	best, bestErr := -1, math.Inf(1)
	for t := 1; t <= ntok; t++ {
		ok, e := true, 0.0
		for i := range v {
			w := val(t, i)
			switch {
			case math.IsNaN(w):
				ok = ok && math.IsNaN(v[i])
			case math.IsInf(w, 0):
				ok = ok && v[i] == w
			default:
				d := math.Abs(v[i] - w)
				ok = ok && d <= 5.000001e-7+1e-15*math.Abs(w)
				e = math.Max(e, d)
			}
		}
		if ok && len(v) > 0 && e < bestErr {
			best, bestErr = t, e
		}
	}
	return best
}

func bits8(v []byte) int {
	for t := 1; t <= ntok; t++ {
		if t == 2 {
			continue
		}
		lo, hi := math.Inf(1), math.Inf(-1)
		for i := range v {
			lo, hi = math.Min(lo, val(t, i)), math.Max(hi, val(t, i))
		}
		ok := true
		for i := range v {
			w := val(t, i)
			switch {
			case w == lo:
				ok = ok && v[i] == 0
			case w == hi:
				ok = ok && v[i] == 255
			default:
				ok = ok && math.Abs(float64(v[i])-255*(w-lo)/(hi-lo)) <= 1.0001
			}
		}
		if ok && len(v) > 0 {
			return t
		}
	}
	return -1
}

func decodeCsv(fn string) (names []string, toks []int, pos [][]int) {
	names, toks, pos = []string{}, []int{}, [][]int{}
	fh, err := os.Open(fn)
	lib.Must(err)
	defer fh.Close()
	rows, err := csv.NewReader(fh).ReadAll()
	if err != nil || len(rows) == 0 || len(rows[0]) < 3 || strings.Join(rows[0][:3], "") != "XYZ" {
		return
	}
	names = append(names, rows[0][3:]...)
	cols := make([][]float64, len(names))
	for _, r := range rows[1:] {
		p := []int{}
		for a := 0; a < 3; a++ {
			x, err := strconv.Atoi(r[a])
			if err != nil {
				x = -1
			}
			p = append(p, x)
		}
		pos = append(pos, p)
		for i := range cols {
			x, err := strconv.ParseFloat(r[i+3], 64)
			if err != nil {
				x = -987654321
			}
			cols[i] = append(cols[i], x)
		}
	}
	for i := range cols {
		toks = append(toks, decimals(cols[i]))
	}
	return
}

func contents() map[string]string {
	out := map[string]string{}
	lib.Must(filepath.Walk(".", func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			raw, err := ioutil.ReadFile(p)
			lib.Must(err)
			out[p] = string(raw)
		}
		return err
	}))
	return out
}

func listing(n int) []File {
	out := []File{}
	paths := []string{}
	lib.Must(filepath.Walk(".", func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			paths = append(paths, p)
		}
		return err
	}))
	sort.Strings(paths)
	for _, p := range paths {
		f := File{Path: p, Kind: "unknown", Names: []string{}, Toks: []int{}, Pos: [][]int{}}
		raw, err := ioutil.ReadFile(p)
		lib.Must(err)
		switch {
		case strings.HasSuffix(p, ".csv"):
			f.Kind = "csv"
			f.Names, f.Toks, f.Pos = decodeCsv(p)
		case strings.HasSuffix(p, ".bin") && len(raw) == 8*n:
			v := make([]float64, n)
			for i := range v {
				v[i] = math.Float64frombits(binary.BigEndian.Uint64(raw[8*i:]))
			}
			f.Kind, f.Toks = "raw", []int{exact(v)}
		case strings.HasSuffix(p, ".bin") && len(raw) == n:
			f.Kind, f.Toks = "u8", []int{bits8(raw)}
		}
		out = append(out, f)
	}
	return out
}

type item struct {
	Format     string `xml:"Format,attr"`
	DataType   string `xml:"DataType,attr"`
	NumberType string `xml:"NumberType,attr"`
	Endian     string `xml:"Endian,attr"`
	Precision  string `xml:"Precision,attr"`
	Dimensions string `xml:"Dimensions,attr"`
	Value      string `xml:",chardata"`
}
type attribute struct {
	Name string `xml:"Name,attr"`
	Item item   `xml:"DataItem"`
}
type grid struct {
	Grids      []grid      `xml:"Grid"`
	Attributes []attribute `xml:"Attribute"`
}
type index struct {
	Domain struct {
		Topology struct {
			Dimensions string `xml:"Dimensions,attr"`
		} `xml:"Topology"`
		Grid grid `xml:"Grid"`
	} `xml:"Domain"`
}

func ints(s string) []int {
	out := []int{}
	for _, w := range strings.Fields(s) {
		x, err := strconv.Atoi(w)
		if err != nil {
			x = -1
		}
		out = append(out, x)
	}
	return out
}

type entry struct {
	Name string `json:"name"`
	Path string `json:"path"`
}

func run(k int, c Case) {
	tmp, err := ioutil.TempDir("", "veriffiles")
	lib.Must(err)
	defer os.RemoveAll(tmp)
	lib.Must(os.Mkdir(filepath.Join(tmp, "d"), 0700))
	lib.Must(os.Mkdir(filepath.Join(tmp, "d", "sub"), 0700))
	lib.Must(os.Chdir(filepath.Join(tmp, "d")))
	defer os.Chdir("/")
	n := lib.Prod(c.Shape)
	lib.Emit(map[string]interface{}{"ev": "reset", "case": k})
	for j, o := range c.Ops {
		names := []string{}
		m := pf.NewModel()
		for _, p := range o.Pairs {
			names = append(names, p[0].(string))
			f := pf.Field{Name: p[0].(string), Data: make([]complex128, n)}
			for i := range f.Data {
				f.Data[i] = complex(val(int(p[1].(float64)), i), 77.5)
			}
			m.Fields = append(m.Fields, f)
		}
		s := &pf.Solver{Model: &m}
		result := map[string]interface{}{"names": []string{}, "toks": []int{}}
		idx, dims, formats := [][]entry{}, [][]int{}, [][]string{}
		before := contents()
		perform := func() {
			switch o.Op {
			case "raw":
				w := pf.NewFloat64IO(o.Pre)
				w.SaveFields(s, o.Epoch)
			case "u8":
				w := pf.NewUint8IO(o.Pre)
				w.SaveFields(s, o.Epoch)
			case "csv":
				w := pf.CsvIO{Prefix: o.Pre, DomainSize: append([]int{}, c.Shape...)}
				if o.Bad && j%3 == 0 {
					w.DomainSize[0]++
				} else if o.Bad && j%3 == 1 {
					w.DomainSize[0]--
				} else if o.Bad {
					w.DomainSize = nil
				}
				w.SaveFields(s, o.Epoch)
			case "load":
				if strings.HasSuffix(o.Path, ".csv") {
					nm, tk := []string{}, []int{}
					for _, f := range pf.LoadCSV(o.Path) {
						v := []float64{}
						clean := true
						for i := range f.Data {
							v = append(v, real(f.Data[i]))
							clean = clean && imag(f.Data[i]) == 0
						}
						t := decimals(v)
						if !clean || len(v) != n {
							t = -2
						}
						nm, tk = append(nm, f.Name), append(tk, t)
					}
					result["names"], result["toks"] = nm, tk
				} else {
					v := pf.LoadFloat64(o.Path)
					t := exact(v)
					if len(v) != n {
						t = -2
					}
					result["toks"] = []int{t}
				}
			case "index":
				fn := filepath.Join(tmp, "index.xdmf")
				pf.WriteXDMF(fn, names, o.Pre, o.Num, c.Shape)
				raw, err := ioutil.ReadFile(fn)
				lib.Must(err)
				var x index
				if err := xml.Unmarshal(raw, &x); err != nil {
					panic(err)
				}
				dims = append(dims, ints(x.Domain.Topology.Dimensions))
				for _, g := range x.Domain.Grid.Grids {
					es := []entry{}
					for _, a := range g.Attributes {
						es = append(es, entry{a.Name, strings.TrimSpace(a.Item.Value)})
						dims = append(dims, ints(a.Item.Dimensions))
						t := a.Item.DataType + a.Item.NumberType
						formats = append(formats, []string{t, a.Item.Endian, a.Item.Precision, a.Item.Format})
					}
					idx = append(idx, es)
				}
			}
		}
		msg := lib.Try(perform)
		if msg == "" && o.Op != "load" && o.Op != "index" && (k+j)%2 == 0 {
			// an earlier run left longer files under these names
			for p, was := range contents() {
				if b, ok := before[p]; !ok || b != was {
					lib.Must(ioutil.WriteFile(p, []byte(was+"1,2,3,4,5,6,7\n8,9"), 0600))
				}
			}
			msg = lib.Try(perform)
		}

		lib.Emit(map[string]interface{}{"ev": "op", "case": k, "k": j, "args": o, "shape": c.Shape, "refused": msg != "", "msg": msg,
			"dir": listing(n), "result": result, "index": idx, "dims": dims, "formats": formats})
		lib.Flush()
	}
}

func main() {
	var cases []Case
	lib.Start(&cases)
	log.SetOutput(ioutil.Discard)
	for k, c := range cases {
		run(k, c)
	}
	lib.Done()
}
