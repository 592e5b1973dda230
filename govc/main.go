package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var debugPanics bool

func main() {
	repo := flag.String("repo", "/repo", "repository under verification")
	verif := flag.String("verif", "/verif", "verification directory")
	unit := flag.String("unit", "", "verify only units whose target contains this text")
	list := flag.Bool("list", false, "list contracts")
	verbose := flag.Bool("v", false, "print every obligation")
	dump := flag.String("dump", "", "write the script of obligation UNIT:ID to stdout")
	thorough := flag.Bool("thorough", false, "longer solver limits")
	limit := flag.Int("limit", 780, "total seconds")
	out := flag.String("out", "", "write result JSON")
	flag.BoolVar(&debugPanics, "debug", false, "do not recover panics")
	flag.Parse()
	prop := flag.Arg(0)
	start := time.Now()
	p, err := loadProgram(*repo, filepath.Join(*verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc: cannot load the repository:", err)
		writeResult(*out, &Result{Property: prop, LoadError: err.Error()})
		os.Exit(3)
	}
	loadSecs := time.Since(start).Seconds()
	for _, d := range p.dropped {
		fmt.Fprintln(os.Stderr, "govc: dropped:", d)
	}
	if *list {
		for _, c := range p.all {
			fmt.Println(c.kind, c.specPkg, c.target, c.props)
		}
		return
	}
	if *verbose {
		fmt.Printf("loaded in %.1fs\n", loadSecs)
	}
	s := newSolver(8)
	s.thorough = *thorough
	s.deadline = start.Add(time.Duration(*limit) * time.Second)
	p.solver = s
	res := &Result{Property: prop, LoadSeconds: loadSecs}
	// units of the property, plus (transitively) every contract they rely on
	queue := []*Contract{}
	seen := map[*Contract]bool{}
	direct := map[*Contract]bool{}
	for _, c := range p.all {
		if c.kind != "contract" && c.kind != "lemma" {
			continue
		}
		if *unit != "" {
			if strings.Contains(c.target, *unit) {
				queue = append(queue, c)
				seen[c] = true
				direct[c] = true
			}
			continue
		}
		for _, q := range c.props {
			if q == prop {
				queue = append(queue, c)
				seen[c] = true
				direct[c] = true
			}
		}
	}
	for _, pr := range p.problems {
		res.Failures = append(res.Failures, Failure{Unit: "specification", Class: "engine", Label: pr})
	}
	for _, pr := range p.probProps {
		ps, msg, _ := strings.Cut(pr, " | ")
		for _, q := range strings.Fields(ps) {
			if q == prop {
				res.Failures = append(res.Failures, Failure{Unit: "specification", Class: "engine", Label: msg})
			}
		}
	}
	for len(queue) > 0 {
		c := queue[0]
		queue = queue[1:]
		if c.trusted && c.fn == nil {
			res.Failures = append(res.Failures, Failure{Unit: c.target, Class: "engine", Label: "exported function under contract no longer exists"})
			continue
		}
		u := newUnit(p, c)
		u.run(prop, !direct[c] || *unit != "")
		if *dump != "" {
			nm, id, _ := strings.Cut(*dump, ":")
			if strings.Contains(c.target, nm) {
				s.solveUnit(u)
				for _, o := range u.obls {
					if fmt.Sprint(o.id) == id {
						fmt.Println(o.script(u.dropped) + "(check-sat)\n(get-model)")
						return
					}
				}
			}
		}
		s.solveUnit(u)
		res.addUnit(u, *verbose)
		deps := []*Contract{}
		for d := range u.deps {
			deps = append(deps, d)
		}
		sort.Slice(deps, func(i, j int) bool { return deps[i].specPkg+deps[i].target < deps[j].specPkg+deps[j].target })
		for _, d := range deps {
			if seen[d] {
				continue
			}
			seen[d] = true
			if d.kind == "contract" && *unit == "" {
				queue = append(queue, d)
			} else if d.kind != "contract" {
				res.Trusted = append(res.Trusted, "assumed contract on "+d.kind+" "+d.target)
			}
		}
	}
	for t := range p.trusted {
		res.Trusted = append(res.Trusted, t)
	}
	sort.Strings(res.Trusted)
	res.Backends = map[string]int{}
	for _, u := range res.Units {
		for b, n := range u.Backends {
			res.Backends[b] += n
		}
	}
	res.SolverSecs = s.secs
	res.SolverCalls = s.calls
	res.Seconds = time.Since(start).Seconds()
	writeResult(*out, res)
	tot, ok := 0, 0
	for _, u := range res.Units {
		tot += u.Obligations
		ok += u.Discharged
	}
	fmt.Printf("govc %s: %d units, %d obligations, %d discharged, %d failures, %.1fs\n", prop, len(res.Units), tot, ok, len(res.Failures), res.Seconds)
	for _, f := range res.Failures {
		fmt.Printf("  FAILED %s: [%s] %s (%s) %s\n", f.Unit, f.Class, f.Label, f.Pos, f.Status)
	}
	if len(res.Failures) > 0 {
		os.Exit(1)
	}
	if tot == 0 {
		fmt.Println("no obligations were generated")
		os.Exit(2)
	}
}

type Failure struct {
	Unit   string `json:"unit"`
	Class  string `json:"class"`
	Label  string `json:"label"`
	Pos    string `json:"pos,omitempty"`
	Stack  string `json:"stack,omitempty"`
	Status string `json:"status,omitempty"`
	By     string `json:"by,omitempty"`
	Goal   string `json:"goal,omitempty"`
	Detail string `json:"detail,omitempty"`
}

type UnitResult struct {
	Target      string         `json:"target"`
	Package     string         `json:"package"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	ByClass     map[string]int `json:"by_class"`
	Backends    map[string]int `json:"backends"`
	Paths       int            `json:"paths"`
	Returns     int            `json:"returns"`
	Invariants  int            `json:"loop_invariant_candidates"`
	Kept        int            `json:"loop_invariants_kept"`
	Seconds     float64        `json:"solver_seconds"`
	Notes       []string       `json:"notes,omitempty"`
}

type Result struct {
	Property    string             `json:"property"`
	LoadError   string             `json:"load_error,omitempty"`
	Units       []UnitResult       `json:"units"`
	Failures    []Failure          `json:"failures"`
	Trusted     []string           `json:"trusted"`
	Backends    map[string]int     `json:"backends"`
	SolverSecs  map[string]float64 `json:"solver_seconds"`
	SolverCalls map[string]int     `json:"solver_calls"`
	LoadSeconds float64            `json:"load_seconds"`
	Seconds     float64            `json:"seconds"`
}

func writeResult(path string, r *Result) {
	if path == "" {
		return
	}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(path, b, 0644)
}

func (r *Result) addUnit(u *Unit, verbose bool) {
	ur := UnitResult{Target: u.name, Package: u.c.specPkg, ByClass: map[string]int{}, Backends: map[string]int{}, Paths: u.paths + 1, Returns: u.returns, Invariants: u.candSeq}
	kept := u.candSeq - len(u.dropped)
	ur.Kept = kept
	for n := range u.notes {
		ur.Notes = append(ur.Notes, n)
	}
	sort.Strings(ur.Notes)
	if u.err == "" && u.returns == 0 && u.c.kind == "contract" {
		pan := false
		for _, o := range u.obls {
			if o.cls == "panic" {
				pan = true
			}
		}
		if !pan {
			r.Failures = append(r.Failures, Failure{Unit: u.name, Class: "vacuity", Label: "no path of the function returns"})
		}
	}
	// vacuity: the precondition and at least one return path are satisfiable
	if u.reqPC != nil && u.err == "" {
		facts := func(pc *pcNode) []*Term {
			var out []*Term
			for _, t := range (&State{pc: pc}).facts(u.dropped) {
				out = append(out, t)
			}
			return out
		}
		if os.Getenv("GOVC_VAC") != "" {
			os.WriteFile("/tmp/vac-"+sanitizeID(u.name)+".smt2", []byte(script(facts(u.reqPC), "")+"(check-sat)\n"), 0644)
		}
		if u.prog.solver.quickUnsat(facts(u.reqPC)) {
			r.Failures = append(r.Failures, Failure{Unit: u.name, Class: "vacuity", Label: "precondition is unsatisfiable"})
		} else if len(u.retFacts) > 0 {
			ok := false
			n := 0
			for _, pc := range u.retFacts {
				n++
				if os.Getenv("GOVC_VAC") != "" && n == 1 {
					os.WriteFile("/tmp/vacret-"+sanitizeID(u.name)+".smt2", []byte(script(facts(pc), "")+"(check-sat)\n"), 0644)
				}
				if n > 24 || !u.prog.solver.quickUnsat(facts(pc)) {
					ok = true
					break
				}
			}
			if !ok {
				r.Failures = append(r.Failures, Failure{Unit: u.name, Class: "vacuity", Label: "assumptions on every return path are contradictory"})
			}
		}
	}
	for _, o := range u.obls {
		if o.cand != 0 && u.dropped[o.cand] {
			continue
		}
		ur.Obligations++
		ur.ByClass[o.cls]++
		ur.Seconds += o.secs
		if verbose {
			fmt.Printf("    %-9s %s #%d [%s] %s %s {%s} %.2fs %s\n", o.status, u.name, o.id, o.cls, o.label, o.pos, o.by, o.secs, o.detail)
		}
		if o.status == "proved" {
			ur.Discharged++
			ur.Backends[o.by]++
			continue
		}
		r.Failures = append(r.Failures, Failure{Unit: u.name, Class: o.cls, Label: o.label, Pos: o.pos, Stack: o.stack, Status: o.status, By: o.by, Goal: o.goal.String(), Detail: o.detail})
	}
	if verbose {
		for _, n := range ur.Notes {
			fmt.Println("    note:", n)
		}
	}
	r.Units = append(r.Units, ur)
}
