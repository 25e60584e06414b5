// Command filter evaluates the Vandeven filter at the points of the specification.
package main

import (
	"math"

	"github.com/davidkleiven/gopf/pf"
	"verifharness/lib"
)

// Case is one value of the specification.
type Case struct {
	Order int `json:"order"`
	A     int `json:"a"`
	B     int `json:"b"`
	Num   int `json:"num"`
	Den   int `json:"den"`
}

func main() {
	var cases []Case
	lib.Start(&cases)
	made := map[int]*pf.Vandeven{}
	for k, c := range cases {
		row := map[string]interface{}{"case": k, "ok": false, "got": 0.0, "msg": ""}
		row["msg"] = lib.Try(func() {
			if made[c.Order] == nil {
				f := pf.NewVandeven(c.Order)
				made[c.Order] = &f
			}
			v := made[c.Order].Eval(float64(c.A) / float64(c.B))
			if math.IsNaN(v) || math.IsInf(v, 0) {
				v = 1e300
			}
			row["got"] = v
			row["ok"] = math.Abs(v-float64(c.Num)/float64(c.Den)) < 5e-5
		})
		lib.Emit(row)
	}
	lib.Done()
}
