// Command reserve registers names one by one, each in a process of its own (a refusal may end the process).
package main

import (
	"io/ioutil"
	"log"
	"os"
	"os/exec"
	"strings"
	"sync"

	"github.com/davidkleiven/gopf/pf"
	"verifharness/lib"
)

// Case is one name.
type Case struct {
	Kind    string `json:"kind"`
	Name    string `json:"name"`
	Verdict string `json:"verdict"`
}

// Row is the outcome.
type Row struct {
	Case    int    `json:"case"`
	Verdict string `json:"verdict"`
}

type term struct{}

func (term) Construct(bricks map[string]pf.Brick) pf.Term {
	return func(i pf.Frequency, t float64, field []complex128) {
		for k := range field {
			field[k] = 1
		}
	}
}
func (term) OnStepFinished(t float64, bricks map[string]pf.Brick) {}
func (t term) ConstructLinear(bricks map[string]pf.Brick) pf.Term {
	return t.Construct(bricks)
}
func (t term) ConstructNonLinear(bricks map[string]pf.Brick) pf.Term {
	return t.Construct(bricks)
}

func child(kind, name string) {
	log.SetOutput(ioutil.Discard)
	m := pf.NewModel()
	if kind == "field" {
		f := pf.NewField(name, 16, nil)
		m.AddField(f)
		os.Stdout.WriteString("accepted\n")
		return
	}
	f := pf.NewField("own", 16, nil)
	m.AddField(f)
	switch kind {
	case "scalar":
		s := pf.NewScalar(name, 1)
		m.AddScalar(s)
	case "function":
		m.RegisterFunction(name, func(i int, b map[string]pf.Brick) complex128 { return 1 })
	case "implicit":
		m.RegisterImplicitTerm(name, term{}, nil)
	case "explicit":
		m.RegisterExplicitTerm(name, term{}, nil)
	case "mixed":
		m.RegisterMixedTerm(name, term{}, nil)
	}
	os.Stdout.WriteString("accepted\n")
}

func main() {
	if len(os.Args) == 4 && os.Args[1] == "child" {
		child(os.Args[2], os.Args[3])
		return
	}
	var cases []Case
	lib.Start(&cases)
	out := make([]Row, len(cases))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for k, c := range cases {
		wg.Add(1)
		sem <- true
		go func(k int, c Case) {
			defer wg.Done()
			o, _ := exec.Command(os.Args[0], "child", c.Kind, c.Name).Output()
			out[k] = Row{Case: k, Verdict: "refused"}
			if strings.Contains(string(o), "accepted") {
				out[k].Verdict = "accepted"
			}
			<-sem
		}(k, c)
	}
	wg.Wait()
	for _, r := range out {
		lib.Emit(r)
	}
	lib.Done()
}
