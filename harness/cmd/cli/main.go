// Command cli fills databases by behaviours of the FieldDB specification, runs the command line program on them and
// records what it shows, what it writes and what the database holds afterwards.
package main

import (
	"bytes"
	"context"
	"database/sql"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verifharness/lib"
)

// Command is a command line; @h stands for the identifier of simulation h, DB for the database.
type Command struct {
	Kind string   `json:"kind"`
	Sim  int      `json:"sim"`
	Key  int      `json:"key"`
	Step int      `json:"step"`
	Max  int      `json:"max"`
	Text int      `json:"text"`
	Args []string `json:"args"`
}

// Case is a database and the commands to run on it.
type Case struct {
	Ops   []lib.Op       `json:"ops"`
	Share bool           `json:"share"`
	Times map[int]string `json:"times"`
	Cmds  []Command      `json:"cmds"`
}

func run(k int, c Case, dir string) (rows []map[string]interface{}) {
	fn := filepath.Join(dir, "file.db")
	s := lib.NewSession(fn, c.Share)
	rows = append(rows, map[string]interface{}{"ev": "reset", "case": k})
	for _, o := range c.Ops {
		_, refused := s.Do(o)
		rows = append(rows, map[string]interface{}{"ev": "op", "case": k, "args": o, "refused": refused})
	}
	s.Close()
	db, err := sql.Open("sqlite3", fn)
	lib.Must(err)
	ids := map[string]int64{}
	for id, h := range s.Sims {
		ids[fmt.Sprint(h)] = id
		if t, ok := c.Times[h]; ok {
			_, err = db.Exec("UPDATE simIDs SET creationTime=? WHERE simID=?", t, id)
			lib.Must(err)
		}
	}
	lib.Must(db.Close())
	for j, q := range c.Cmds {
		work := filepath.Join(dir, fmt.Sprintf("w%d", j))
		lib.Must(os.Mkdir(work, 0700))
		args := []string{}
		for _, a := range q.Args {
			if strings.HasPrefix(a, "@") {
				a = fmt.Sprint(ids[a[1:]])
			} else if a == "DB" {
				a = fn
			} else if strings.HasPrefix(a, "#") {
				var t int
				fmt.Sscan(a[1:], &t)
				a = lib.Texts[t]
			} else if strings.HasPrefix(a, "%") {
				var t int
				fmt.Sscan(a[1:], &t)
				a = lib.Keys[t]
			}
			args = append(args, a)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		cmd := exec.CommandContext(ctx, os.Getenv("VERIF_CLI"), args...)
		cmd.Dir = work
		cmd.Env = append(os.Environ(), "HOME="+work)
		var out, errout bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errout
		err := cmd.Run()
		cancel()
		code := 0
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		} else {
			lib.Must(err)
		}
		files := map[string]string{}
		list, err := ioutil.ReadDir(work)
		lib.Must(err)
		for _, f := range list {
			if !f.IsDir() {
				raw, err := ioutil.ReadFile(filepath.Join(work, f.Name()))
				lib.Must(err)
				files[f.Name()] = string(raw)
			}
		}
		os.RemoveAll(work)
		e := errout.String()
		if len(e) > 1500 {
			e = e[:1500]
		}
		rows = append(rows, map[string]interface{}{"ev": "cmd", "case": k, "cmd": q, "ids": ids, "code": code, "out": out.String(), "b64": out.Bytes(), "err": e,
			"files": files, "obs": lib.Observe(fn, s.Sims)})
	}
	return
}

func main() {
	var cases []Case
	lib.Start(&cases)
	tmp, err := ioutil.TempDir("", "verifcli")
	lib.Must(err)
	defer os.RemoveAll(tmp)
	out := make([][]map[string]interface{}, len(cases))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i := range cases {
		d := filepath.Join(tmp, fmt.Sprint(i))
		lib.Must(os.Mkdir(d, 0700))
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			out[i] = run(i, cases[i], d)
			os.RemoveAll(d)
			<-sem
		}(i)
	}
	wg.Wait()
	// what tokens stand for
	names := map[string]interface{}{"ev": "words", "names": lib.Names, "keys": lib.Keys, "texts": lib.Texts}
	vals, attrs := map[string][]float64{}, []float64{}
	for t := 0; t <= 9; t++ {
		attrs = append(attrs, lib.AttrVal(t))
	}
	names["attrs"] = attrs
	names["vals"] = vals
	lib.Emit(names)
	for _, rows := range out {
		for _, r := range rows {
			lib.Emit(r)
		}
	}
	lib.Done()
}
