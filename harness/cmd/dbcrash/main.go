// Command dbcrash runs behaviours of the FieldDB specification in a child process that dies at a chosen change of the
// file, and records what the reopened file holds.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"verifharness/lib"
)

// Behaviour is a sequence of operations that is interrupted, and one that follows in a new process.
type Behaviour struct {
	Ops   []lib.Op `json:"ops"`
	Then  []lib.Op `json:"then"`
	Share bool     `json:"share"`
	Mode  string   `json:"mode"`
	Again int      `json:"again"` // interrupt the second process at this change as well (0: never)
	Skip  int      `json:"skip"`  // take every Skip-th crash point
}

type event struct {
	Begin   int      `json:"begin"`
	End     int      `json:"end"`
	Refused bool     `json:"refused"`
	Msg     string   `json:"msg"`
	Sims    lib.Sims `json:"sims"`
}

// child performs the operations and notes every one before and after.
func child() {
	lib.Soft = true
	var b Behaviour
	data, err := ioutil.ReadFile(os.Args[3])
	lib.Must(err)
	lib.Must(json.Unmarshal(data, &b))
	lib.Open(os.Args[4])
	s := lib.NewSession(os.Args[2], b.Share)
	for _, id := range lib.AllSims(os.Args[2]) { // of earlier processes
		s.Sims[id] = 0
	}
	for k, o := range b.Ops {
		note := event{Begin: k + 1}
		lib.Emit(note)
		lib.Flush()
		msg := lib.Try(func() { s.Store(o) })
		lib.Try(func() { s.Learn(o.H) })
		lib.Emit(event{End: k + 1, Refused: msg != "", Msg: msg, Sims: s.Sims})
		lib.Flush()
		if msg != "" && failing(b.Mode) {
			break
		}
	}
	lib.Done()
}

// failing: a call fails and the process lives on
func failing(mode string) bool { return mode == "fail" || mode == "once" }

type runner struct {
	dir, shim string
	b         Behaviour
	rows      []map[string]interface{}
	sims      lib.Sims
	fn        string
	n         int
}

func (r *runner) row(m map[string]interface{}) { r.rows = append(r.rows, m) }

// observe tells a file that cannot be read from a harness that cannot work
func (r *runner) observe(h int) (o lib.Obs, msg string) {
	sims := lib.Sims{}
	taken := false
	for id, x := range r.sims {
		sims[id] = x
		taken = taken || x == h
	}
	msg = lib.Try(func() {
		if !taken && h > 0 {
			for _, id := range lib.AllSims(r.fn) {
				if _, ok := sims[id]; !ok {
					sims[id] = h
					break
				}
			}
		}
		o = lib.Observe(r.fn, sims)
	})
	if msg != "" {
		e := [][]int{}
		o = lib.Obs{Ids: []int{}, Positions: e, Fields: e, Joined: e, Comments: e, Attrs: e, Texts: e, Series: e}
	}
	r.sims = sims
	return
}

// process runs operations in a child process, interrupted at a change of the file (0: not); false when it was not.
func (r *runner) process(ops []lib.Op, mode string, at int) bool {
	r.n++
	in, out := filepath.Join(r.dir, fmt.Sprintf("in%d", r.n)), filepath.Join(r.dir, fmt.Sprintf("out%d", r.n))
	data, _ := json.Marshal(Behaviour{Ops: ops, Share: r.b.Share, Mode: mode})
	lib.Must(ioutil.WriteFile(in, data, 0600))
	c := exec.Command(os.Args[0], "child", r.fn, in, out)
	c.Env = append(os.Environ(), "LD_PRELOAD="+r.shim, "CRASH_DIR="+r.fn, fmt.Sprintf("CRASH_AT=%d", at), "CRASH_MODE="+mode, "CRASH_MARK="+r.fn+".hit")
	if at == 0 {
		c.Env = os.Environ()
	}
	err := c.Run()
	code := 0
	if x, ok := err.(*exec.ExitError); ok {
		code = x.ExitCode()
	} else {
		lib.Must(err)
	}
	raw, err := ioutil.ReadFile(out)
	lib.Must(err)
	os.Remove(in)
	os.Remove(out)
	cur := 0
	for _, line := range strings.Split(string(raw), "\n") {
		if line == "" {
			continue
		}
		var e event
		lib.Must(json.Unmarshal([]byte(line), &e))
		if e.Begin > 0 {
			cur = e.Begin
			continue
		}
		for id, h := range e.Sims {
			if h > 0 {
				r.sims[id] = h
			}
		}
		if failing(mode) && e.Refused {
			break
		}
		r.row(map[string]interface{}{"ev": "op", "args": ops[e.End-1], "refused": e.Refused, "msg": e.Msg})
		cur = 0
	}
	_, err = os.Stat(r.fn + ".hit")
	hit := err == nil
	os.Remove(r.fn + ".hit")
	if code != 0 && code != 99 && !(failing(mode) && hit) {
		r.row(map[string]interface{}{"ev": "dead", "code": code})
		return true
	}
	o := lib.Op{Op: "none", Shape: []int{}, Pairs: [][]int{}}
	if cur > 0 {
		o = ops[cur-1]
	}
	obs, msg := r.observe(o.H)
	obs.Joined = [][]int{}
	r.row(map[string]interface{}{"ev": "crash", "args": o, "obs": obs, "unreadable": msg != "", "msg": msg})
	return hit
}

func (r *runner) all(i int) {
	step := r.b.Skip
	if step < 1 {
		step = 1
	}
	for at := 1 + i%step; ; at += step {
		r.fn = filepath.Join(r.dir, fmt.Sprintf("c%d.db", at))
		r.sims = lib.Sims{}
		r.row(map[string]interface{}{"ev": "reset", "behaviour": i, "at": at})
		hit := r.process(r.b.Ops, r.b.Mode, at)
		if r.b.Again > 0 {
			r.process(r.b.Then, r.b.Mode, 1+(at*r.b.Again)%23)
			for k := range r.b.Then { // a third process, with new handles
				if r.b.Then[k].H < 7 {
					r.b.Then[k].H += 3
				}
			}
		}
		r.process(r.b.Then, "exit", 0)
		if r.b.Again > 0 {
			for k := range r.b.Then {
				r.b.Then[k].H -= 3
			}
		}
		for _, f := range []string{"", "-journal", "-wal", "-shm"} {
			os.Remove(r.fn + f)
		}
		if !hit {
			return
		}
		if at > 3000 {
			lib.Must(fmt.Errorf("no end of crash points"))
		}
	}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		child()
		return
	}
	var bs []Behaviour
	lib.Start(&bs)
	shim := os.Getenv("VERIF_SHIM")
	lib.Soft = true
	tmp, err := ioutil.TempDir("", "verifcrash")
	lib.Must(err)
	defer os.RemoveAll(tmp)
	rs := make([]*runner, len(bs))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i := range bs {
		d := filepath.Join(tmp, fmt.Sprint(i))
		lib.Must(os.Mkdir(d, 0700))
		rs[i] = &runner{dir: d, shim: shim, b: bs[i]}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			rs[i].all(i)
			<-sem
		}(i)
	}
	wg.Wait()
	for _, r := range rs {
		for _, row := range r.rows {
			lib.Emit(row)
		}
	}
	lib.Done()
}
