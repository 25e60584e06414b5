// Replays behaviours of the FieldDB specification in the real database and records what happened.
package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"

	"verifharness/lib"
)

// Behaviour is a sequence of operations.
type Behaviour struct {
	Ops   []lib.Op `json:"ops"`
	Share bool     `json:"share"`
}

func main() {
	var bs []Behaviour
	lib.Start(&bs)
	tmp, err := ioutil.TempDir("", "verifdb")
	lib.Must(err)
	defer os.RemoveAll(tmp)
	for i, b := range bs {
		fn := filepath.Join(tmp, fmt.Sprintf("b%d.db", i))
		lib.Emit(map[string]interface{}{"ev": "reset", "behaviour": i})
		s := lib.NewSession(fn, b.Share)
		for k, o := range b.Ops {
			res, refused := s.Do(o)
			lib.Emit(map[string]interface{}{"ev": "op", "behaviour": i, "k": k, "args": o, "result": res, "refused": refused,
				"obs": lib.Observe(fn, s.Sims)})
			lib.Flush()
		}
		s.Close()
		os.Remove(fn)
	}
	lib.Done()
}
