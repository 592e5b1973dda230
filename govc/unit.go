package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"
)

type Obl struct {
	id     int
	unit   *Unit
	cls    string
	label  string
	pos    string
	stack  string
	pc     *pcNode
	goal   *Term
	cand   int
	status string // "", proved, failed, unknown, dropped
	by     string
	secs   float64
	detail string
}

type Unit struct {
	prog       *Program
	c          *Contract
	name       string
	obls       []*Obl
	notes      map[string]bool
	deps       map[*Contract]bool
	dropped    map[int]bool
	candSeq    int
	goalMode   bool
	entry      bool
	entryHolds map[string]bool
	pureBusy   map[string]bool
	pureDepth  int
	top0       *Term
	preMem     map[string]*Term
	pruneAll   bool
	backEdges  int
	returns    int
	paths      int
	curIters   []*iterInfo
	x          *Exec
	retFacts   []*pcNode
	reqPC      *pcNode
	err        string
	execSecs   float64
	lemma      bool
	unsure     bool
	preDropped map[int]bool
}

func (u *Unit) note(s string)           { u.notes[s] = true }
func (u *Unit) useContract(c *Contract) { u.deps[c] = true }
func (u *Unit) dropCand(id int)         { u.dropped[id] = true }
func (u *Unit) iterFor(m *Term) int {
	for _, i := range u.curIters {
		if i.m == m {
			return i.id
		}
	}
	if len(u.curIters) == 1 {
		return u.curIters[0].id
	}
	return 0
}

func (u *Unit) addObl(st *State, cls, label string, goal *Term, pos string, cand int, stack string) {
	if goal.op == "and" && cand == 0 {
		for _, g := range goal.args {
			u.addObl(st, cls, label, g, pos, cand, stack)
		}
		return
	}
	o := &Obl{id: len(u.obls) + 1, unit: u, cls: cls, label: label, pos: pos, pc: st.pc, goal: goal, cand: cand, stack: stack}
	if goal.op == "true" || (cand == 0 && st.knows(goal)) {
		o.status, o.by = "proved", "simplifier"
	}
	u.obls = append(u.obls, o)
}

func (u *Unit) infeasible(st *State, c *Term) bool {
	facts := []*Term{c}
	for p := st.pc; p != nil; p = p.prev {
		if p.tag == 0 && !hasQuant(p.t) {
			facts = append(facts, p.t)
		}
	}
	return u.prog.solver.quickUnsat(facts)
}

func hasQuant(t *Term) bool {
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	for _, a := range t.args {
		if hasQuant(a) {
			return true
		}
	}
	return false
}

func newUnit(prog *Program, c *Contract) *Unit {
	return &Unit{prog: prog, c: c, name: c.target, notes: map[string]bool{}, deps: map[*Contract]bool{}, dropped: map[int]bool{}, pureBusy: map[string]bool{}}
}

// run executes the function symbolically against its contract and gathers obligations.
func (u *Unit) run(prop string, all bool) {
	start := time.Now()
	defer func() {
		u.execSecs = time.Since(start).Seconds()
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if ue, ok := r.(unsupportedErr); ok {
				msg = ue.msg
			} else if debugPanics {
				panic(r)
			}
			u.err = msg
			u.obls = append(u.obls, &Obl{id: len(u.obls) + 1, unit: u, cls: "engine", label: "outside the verifier's reach: " + msg, goal: tFalse, status: "failed", by: "engine", detail: msg})
		}
	}()
	c := u.c
	e := &Eng{prog: u.prog, bv: c.bv, boxIDs: map[string]*boxInfo{}, fields: map[string]int{}, unit: u}
	x := &Exec{e: e, u: u, prog: u.prog}
	u.x = x
	u.pruneAll = c.prune
	e.refSort()
	e.ifaceSort()
	e.sliceSort()
	// boxes of the basic types always exist
	for _, k := range []types.BasicKind{types.String, types.Int, types.Int64, types.Bool} {
		e.box(types.Typ[k])
	}
	st := &State{e: e, mem: map[string]*Term{}}
	st.topBase = newTop("top0")
	u.top0 = st.topBase
	st.assume(mkLe(mkInt(1000000), st.topBase))
	st.preTop = u.top0
	if c.fn == nil { // lemma: the spec function alone
		u.runLemma(x, st, prop, all)
		return
	}
	fn := c.fn
	sig := c.spec.Signature
	var args []*Term
	for i, p := range fn.Params {
		nm := p.Name()
		if i < sig.Params().Len() {
			nm = sig.Params().At(i).Name()
		}
		args = append(args, st.symbolic("p."+nm, p.Type()))
	}
	nres := fn.Signature.Results().Len()
	if sig.Params().Len() != len(args)+nres {
		unsupported("contract %s does not match the signature %s", c.target, fn.Signature)
	}
	for i, p := range fn.Params {
		if e.sortOf(sig.Params().At(i).Type()) != e.sortOf(p.Type()) {
			unsupported("contract %s: parameter %d has another type", c.target, i)
		}
	}
	if c.useInit || u.prog.useInit[fn.Pkg] {
		x.runInit(st, fn.Pkg)
	}
	u.preMem = copyMem(st.mem)
	var ph []*Term
	for i := 0; i < nres; i++ {
		ph = append(ph, e.zero(fn.Signature.Results().At(i).Type()))
	}
	fs := newFactSet()
	ss := st.specState(fs, u.preMem)
	out := &specOut{}
	u.entry, u.entryHolds = true, map[string]bool{}
	x.specRun(c.spec, append(append([]*Term{}, args...), ph...), nil, ss, 0, &specCtx{out: out, guard: tTrue, want: "req"})
	u.entry = false
	st.held = u.entryHolds
	for _, f := range fs.facts {
		st.assume(f)
	}
	for _, r := range out.reqs {
		st.assume(r.cond)
	}
	for _, a := range u.prog.axioms {
		st.assume(x.evalPred(st, a, nil, u.preMem, false))
	}
	u.reqPC = st.pc
	allowed := map[string]map[*Term]bool{}
	for _, m := range out.mods {
		x.modTargets(st, m, func(key string, id *Term) {
			if allowed[key] == nil {
				allowed[key] = map[*Term]bool{}
			}
			allowed[key][id] = true
		})
	}
	st.hook = func(st *State, key string, id *Term) {
		if x.mute > 0 || strings.HasPrefix(key, "V|") {
			return
		}
		if allowed[key][id] || allowed[key][nil] {
			return
		}
		if id.sort == "Int" {
			if b, _ := linear(id); b != nil {
				if _, ok := topLevel[b]; ok && b != nil {
					return // allocated by this call
				}
			}
		}
		if id.sort == e.refSort() && st.isFreshRef(id) {
			return
		}
		var ok []*Term
		if id.sort == "Int" {
			ok = append(ok, mkLe(u.top0, id))
			if id.op == "sel" && id.args[0].sort == e.refSort() {
				ok = append(ok, e.isNull(id.args[0])) // nothing is there
			}
			if strings.HasPrefix(key, "E|") || strings.HasPrefix(key, "M") {
				ok = append(ok, mkLe(id, mkInt(0)))
			}
		} else if id.sort == e.refSort() {
			ok = append(ok, mkAnd(mkIs(e.refSort()+".obj", id), mkLe(u.top0, e.oid(id))))
		}
		for _, a := range sortedTerms(allowed[key]) {
			if a.sort == id.sort {
				ok = append(ok, mkEq(id, a))
			}
		}
		x.oblige(st, "frame", "writes only what its contract allows ("+key+")", mkOr(ok...), "", 0)
	}
	outs := x.callBody(fn, args, nil, st, 0)
	u.paths = x.paths
	for _, o := range outs {
		x.stack = []string{fn.String()}
		if o.panics {
			if !out.panicsOK {
				x.oblige(o.st, "panic", "does not panic ("+o.what+")", tFalse, "", 0)
			} else if out.panicsIf != nil {
				x.oblige(o.st, "panic", "panics only when allowed ("+o.what+")", out.panicsIf, "", 0)
			}
			u.heldCheck(x, o.st, "panics")
			continue
		}
		u.returns++
		u.retFacts = append(u.retFacts, o.st.pc)
		if out.panicsIf != nil {
			x.oblige(o.st, "panic", "panics when required", mkNot(out.panicsIf), "", 0)
		}
		u.heldCheck(x, o.st, "returns")
		fs := newFactSet()
		ss := o.st.specState(fs, u.preMem)
		ss.preTop = u.top0
		eo := &specOut{}
		u.goalMode = true
		x.specRun(c.spec, append(append([]*Term{}, args...), o.results...), nil, ss, 0, &specCtx{out: eo, guard: tTrue, want: "ens"})
		u.goalMode = false
		for _, f := range fs.facts {
			o.st.assume(f)
		}
		for _, q := range eo.ens {
			if !all && q.prop != "" && q.prop != prop {
				continue
			}
			x.oblige(o.st, "ensures", q.label, q.cond, "", 0)
		}
	}
}

func copyMem(m map[string]*Term) map[string]*Term {
	n := make(map[string]*Term, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (u *Unit) runLemma(x *Exec, st *State, prop string, all bool) {
	c := u.c
	u.lemma = true
	sig := c.spec.Signature
	var args []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		args = append(args, st.symbolic("p."+sig.Params().At(i).Name(), sig.Params().At(i).Type()))
	}
	if c.useInit {
		x.runInit(st, c.spec.Pkg)
	}
	for _, a := range u.prog.axioms {
		st.assume(x.evalPred(st, a, nil, st.mem, false))
	}
	fs := newFactSet()
	ss := st.specState(fs, copyMem(st.mem))
	out := &specOut{}
	u.goalMode = true
	x.specRun(c.spec, args, nil, ss, 0, &specCtx{out: out, guard: tTrue, want: "all"})
	u.goalMode = false
	for _, f := range fs.facts {
		st.assume(f)
	}
	for _, r := range out.reqs {
		st.assume(r.cond)
	}
	u.reqPC = st.pc
	u.returns = 1
	u.retFacts = append(u.retFacts, st.pc)
	x.stack = []string{c.target}
	for _, q := range out.ens {
		if !all && q.prop != "" && q.prop != prop {
			continue
		}
		x.oblige(st, "lemma", q.label, q.cond, "", 0)
	}
}

func (u *Unit) heldCheck(x *Exec, st *State, how string) {
	for k := range st.held {
		if !u.entryHolds[k] {
			x.oblige(st, "monitor", how+" with a mutex held", tFalse, "", 0)
		}
	}
	for k := range u.entryHolds {
		if !st.held[k] {
			x.oblige(st, "monitor", how+" with the caller's mutex released", tFalse, "", 0)
		}
	}
}
