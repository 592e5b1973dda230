package main

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Solver struct {
	mu       sync.Mutex
	secs     map[string]float64
	calls    map[string]int
	sem      chan struct{}
	deadline time.Time
	cache    map[string]string
	thorough bool
	scale    int
}

func newSolver(workers int) *Solver {
	return &Solver{secs: map[string]float64{}, calls: map[string]int{}, sem: make(chan struct{}, workers), cache: map[string]string{}, scale: 1}
}

type backend struct {
	name string
	cmd  func(ms int) []string
	pre  string
}

var backends = map[string]backend{
	"z3-new": {"z3-new", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"} }, ""},
	"z3":     {"z3", func(ms int) []string { return []string{"z3", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"} }, ""},
	"cvc5": {"cvc5", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", ms), "-q", "-"}
	}, "(set-logic ALL)\n"},
	"cvc5-enum": {"cvc5-enum", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--strings-exp", "--enum-inst", fmt.Sprintf("--tlimit=%d", ms), "-q", "-"}
	}, "(set-logic ALL)\n"},
}

func (s *Solver) run(ctx context.Context, b backend, scr string, ms int) string {
	if left := time.Until(s.deadline); left < time.Duration(ms)*time.Millisecond {
		ms = int(left.Milliseconds())
		if ms < 50 {
			return "unknown"
		}
	}
	c2, cancel := context.WithTimeout(ctx, time.Duration(ms)*time.Millisecond+1500*time.Millisecond)
	defer cancel()
	args := b.cmd(ms)
	cmd := exec.CommandContext(c2, args[0], args[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = time.Second
	cmd.Stdin = strings.NewReader(b.pre + scr + "(check-sat)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0).Seconds()
	s.mu.Lock()
	s.secs[b.name] += d
	s.calls[b.name]++
	s.mu.Unlock()
	o := out.String()
	for _, ln := range strings.Split(o, "\n") {
		switch strings.TrimSpace(ln) {
		case "sat", "unsat", "unknown":
			if strings.Contains(o, "error") && strings.TrimSpace(ln) != "unsat" {
				return "error: " + firstErr(o)
			}
			if strings.Contains(o, "(error") {
				return "error: " + firstErr(o)
			}
			return strings.TrimSpace(ln)
		}
	}
	if strings.Contains(o, "error") {
		return "error: " + firstErr(o)
	}
	return "unknown"
}

func firstErr(o string) string {
	i := strings.Index(o, "error")
	o = o[i:]
	if len(o) > 300 {
		o = o[:300]
	}
	return o
}

func (s *Solver) quickUnsat(facts []*Term) bool {
	scr := script(facts, "")
	s.mu.Lock()
	if r, ok := s.cache[scr]; ok {
		s.mu.Unlock()
		return r == "unsat"
	}
	s.mu.Unlock()
	r := s.run(context.Background(), backends["z3-new"], scr, 400)
	s.mu.Lock()
	s.cache[scr] = r
	s.mu.Unlock()
	return r == "unsat"
}

// lighter drops the content-extensionality facts from a script ("" when it has none); what follows without them
// follows with them.
func lighter(scr string) string {
	if !strings.Contains(scr, "|ext!") {
		return ""
	}
	var b strings.Builder
	for _, l := range strings.SplitAfter(scr, "\n") {
		if strings.HasPrefix(l, "(assert ") && strings.Contains(l, "|ext!") {
			continue
		}
		b.WriteString(l)
	}
	return b.String()
}

type answer struct{ res, by string }

// prove runs the portfolio on one script.
func (s *Solver) prove(scr string, quickMS, fullMS int, bv bool) (answer, string) {
	var errs string
	first := "z3-new"
	light := lighter(scr)
	if light != "" && s.run(context.Background(), backends[first], light, quickMS) == "unsat" {
		return answer{"unsat", first}, ""
	}
	r := s.run(context.Background(), backends[first], scr, quickMS)
	if r == "unsat" || r == "sat" {
		return answer{r, first}, ""
	}
	if strings.HasPrefix(r, "error") {
		errs += first + ": " + r + "; "
	}
	opq := scr
	if light != "" {
		opq = light
	}
	opq = opaque(opq)
	if fullMS == 0 {
		if opq != "" && s.run(context.Background(), backends[first], opq, quickMS) == "unsat" {
			return answer{"unsat", first}, ""
		}
		return answer{"unknown", ""}, errs
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type rr struct{ r, by string }
	names := []string{"cvc5", "z3", "z3-new"}
	ch := make(chan rr, len(names)+2)
	for _, n := range names {
		go func(n string) { ch <- rr{s.run(ctx, backends[n], scr, fullMS), n} }(n)
	}
	if light != "" { // only "unsat" counts: the light script has fewer facts
		names = append(names, "light")
		go func() {
			r := s.run(ctx, backends["cvc5"], light, fullMS)
			if r != "unsat" {
				r = "unknown"
			}
			ch <- rr{r, "cvc5"}
		}()
	}
	if opq != "" { // only "unsat" counts here too
		names = append(names, "opaque")
		go func() {
			r := s.run(ctx, backends[first], opq, fullMS)
			if r != "unsat" {
				r = "unknown"
			}
			ch <- rr{r, first}
		}()
	}
	sat := ""
	for range names {
		a := <-ch
		if a.r == "unsat" {
			return answer{"unsat", a.by}, errs
		}
		if a.r == "sat" {
			sat = a.by
			return answer{"sat", a.by}, errs
		}
		if strings.HasPrefix(a.r, "error") {
			errs += a.by + ": " + a.r + "; "
		}
	}
	if sat != "" {
		return answer{"sat", sat}, errs
	}
	return answer{"unknown", ""}, errs
}

func (o *Obl) script(dropped map[int]bool) string {
	st := &State{pc: o.pc}
	as := append(st.facts(dropped), mkNot(o.goal))
	return script(as, "")
}

// solveUnit discharges the obligations of a unit (Houdini over loop-invariant candidates first).
func (s *Solver) solveUnit(u *Unit) {
	s.solveOnce(u)
	// a slow machine must not turn into an alarm: undecided obligations get a second, longer round
	unsure, bad := u.unsure, false
	for _, o := range u.obls {
		if o.cand == 0 && o.status != "proved" {
			bad = true
			if o.status == "unknown" {
				unsure = true
			}
		}
	}
	if !bad || !unsure || u.err != "" || time.Until(s.deadline) < 60*time.Second {
		return
	}
	s.scale = 3
	if u.lemma {
		s.scale = 6
	}
	defer func() { s.scale = 1 }()
	if u.unsure {
		u.dropped = map[int]bool{}
		for id := range u.preDropped {
			u.dropped[id] = true
		}
		for _, o := range u.obls {
			if o.by != "simplifier" {
				o.status = ""
			}
		}
	}
	s.solveOnce(u)
}

func (s *Solver) solveOnce(u *Unit) {
	u.unsure = false
	if u.preDropped == nil {
		u.preDropped = map[int]bool{}
		for id := range u.dropped {
			u.preDropped[id] = true
		}
	}
	solveSet := func(os []*Obl, quick, full int) {
		var wg sync.WaitGroup
		for _, o := range os {
			o := o
			if o.status == "proved" || o.status == "failed" {
				continue
			}
			scr := o.script(u.dropped)
			wg.Add(1)
			s.sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-s.sem }()
				t0 := time.Now()
				a, errs := s.prove(scr, quick*s.scale, full*s.scale, u.c.bv)
				o.secs += time.Since(t0).Seconds()
				o.by = a.by
				o.detail = errs
				switch a.res {
				case "unsat":
					o.status = "proved"
				case "sat":
					o.status = "failed"
				default:
					o.status = "unknown"
				}
			}()
		}
		wg.Wait()
	}
	var cand, rest []*Obl
	for _, o := range u.obls {
		if o.cand != 0 {
			cand = append(cand, o)
		} else {
			rest = append(rest, o)
		}
	}
	names := map[int]string{}
	for _, o := range cand {
		names[o.cand] = o.label
	}
	for round := 0; round < 30; round++ {
		var todo []*Obl
		for _, o := range cand {
			if u.dropped[o.cand] {
				continue
			}
			o.status = ""
			todo = append(todo, o)
		}
		full := 3000
		if s.thorough {
			full = 10000
		}
		// templates deserve the full effort
		var tmpl, auto []*Obl
		for _, o := range todo {
			if strings.Contains(o.label, "(template") {
				tmpl = append(tmpl, o)
			} else {
				auto = append(auto, o)
			}
		}
		solveSet(auto, 1000, 0)
		bad := false
		for _, o := range auto {
			if o.status != "proved" {
				u.dropped[o.cand] = true
				if o.status == "unknown" {
					u.unsure = true
				}
				bad = true
			}
		}
		if bad {
			continue
		}
		solveSet(tmpl, 2000, full*3)
		for _, o := range tmpl {
			if o.status != "proved" {
				u.dropped[o.cand] = true
				if o.status == "unknown" {
					u.unsure = true
				}
				u.note(fmt.Sprintf("loop invariant not established: %s at %s (#%d)", o.label, o.pos, o.id))
				bad = true
			}
		}
		if !bad {
			break
		}
	}
	full := 12000
	if s.thorough {
		full = 40000
	}
	solveSet(rest, 2500, 0)
	if time.Until(s.deadline) < 0 {
		return
	}
	var hard []*Obl
	for _, o := range rest {
		if o.status == "unknown" {
			hard = append(hard, o)
		}
	}
	if len(hard) > 40 {
		full /= 3
	}
	solveSet(hard, 50, full)
}
