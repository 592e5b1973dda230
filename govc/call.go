package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// evalCall evaluates callee and arguments of a call.
func (x *Exec) evalCall(fr *frame, st *State, cc *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var ft *Term
	if cc.IsInvoke() {
		ft = x.val(fr, st, cc.Value)
	} else {
		ft = x.val(fr, st, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, a))
	}
	return ft, args
}

func (x *Exec) fork(st *State, c *Term, f, g func(*State) []Outcome) []Outcome {
	if c.op == "true" || st.knows(c) {
		return f(st)
	}
	if c.op == "false" || st.refutes(c) {
		return g(st)
	}
	st2 := st.clone()
	st.assume(c)
	st2.assume(mkNot(c))
	x.paths++
	return append(f(st), g(st2)...)
}

func (x *Exec) call(fr *frame, st *State, cc *ssa.CallCommon, ft *Term, args []*Term, pos token.Pos) []Outcome {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b.Name(), cc, args, pos)
	}
	if cc.IsInvoke() {
		return x.invoke(fr.depth, st, cc, ft, args, pos)
	}
	return x.callTerm(fr.depth, st, cc, ft, args, pos)
}

func (x *Exec) callTerm(depth int, st *State, cc *ssa.CallCommon, ft *Term, args []*Term, pos token.Pos) []Outcome {
	if ft.op == "closure" {
		return x.callFunc(depth, st, ft.fn, args, ft.args, pos)
	}
	if ft.op == "ite" {
		return x.fork(st, ft.args[0],
			func(s *State) []Outcome { return x.callTerm(depth, s, cc, ft.args[1], args, pos) },
			func(s *State) []Outcome { return x.callTerm(depth, s, cc, ft.args[2], args, pos) })
	}
	// function value of unknown origin
	key := funcOrigin(cc.Value)
	if p, ok := cc.Value.(*ssa.Parameter); ok && x.prog.pick(x.prog.funcVals, x.u, key) == nil {
		for i, q := range p.Parent().Params {
			if q == p {
				key = fmt.Sprintf("param:%s.#%d", p.Parent().String(), i)
			}
		}
	}
	if x.prog.pick(x.prog.funcVals, x.u, key) == nil {
		if k := "type:" + types.TypeString(cc.Value.Type(), nil); x.prog.pick(x.prog.funcVals, x.u, k) != nil {
			key = k
		}
	}
	if c := x.prog.pick(x.prog.funcVals, x.u, key); c != nil {
		x.check(st, "call of nil function", mkNot(mkEq(ft, mkConst("nilfunc", "Func"))), pos)
		return x.applyContract(st, c, args, pos)
	}
	unsupported("call of function value %s (%s)", cc.Value.Name(), key)
	return nil
}

func funcOrigin(v ssa.Value) string {
	switch u := v.(type) {
	case *ssa.UnOp:
		switch a := u.X.(type) {
		case *ssa.Global:
			return a.Pkg.Pkg.Path() + "." + a.Name()
		case *ssa.FieldAddr:
			t := a.X.Type().Underlying().(*types.Pointer).Elem()
			return "(" + types.TypeString(t, nil) + ")." + t.Underlying().(*types.Struct).Field(a.Field).Name()
		case *ssa.IndexAddr:
			return "elem:" + types.TypeString(a.Type(), nil)
		}
	case *ssa.Parameter:
		return "param:" + u.Parent().String() + "." + u.Name()
	case *ssa.Phi:
		for _, e := range u.Edges {
			if k := funcOrigin(e); k != "" {
				return k
			}
		}
	}
	return "type:" + types.TypeString(v.Type(), nil)
}

func (x *Exec) invoke(depth int, st *State, cc *ssa.CallCommon, recv *Term, args []*Term, pos token.Pos) []Outcome {
	e := x.e
	if recv.op == "ite" {
		return x.fork(st, recv.args[0],
			func(s *State) []Outcome { return x.invoke(depth, s, cc, recv.args[1], args, pos) },
			func(s *State) []Outcome { return x.invoke(depth, s, cc, recv.args[2], args, pos) })
	}
	x.check(st, "method call on nil interface ("+cc.Method.Name()+")", mkNot(mkIs(e.ifaceSort()+".nil", recv)), pos)
	if t, ok := x.dynType(st, recv); ok && t != nil {
		fn := x.prog.ssa.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
		if fn == nil {
			unsupported("no method %s on %s", cc.Method.Name(), t)
		}
		return x.callFunc(depth, st, fn, append([]*Term{x.unbox(t, recv)}, args...), nil, pos)
	}
	for _, k := range methodKeys(cc.Method, cc.Value.Type()) {
		if c := x.prog.pick(x.prog.ifaces, x.u, k); c != nil {
			return x.applyContract(st, c, append([]*Term{recv}, args...), pos)
		}
	}
	x.missing(st, "interface method "+strings.Join(methodKeys(cc.Method, cc.Value.Type()), " / "), pos)
	return x.unknownResult(st, cc.Signature())
}

func methodKeys(m *types.Func, recvT types.Type) []string {
	ks := []string{"(" + types.TypeString(recvT, nil) + ")." + m.Name()}
	if f := m.FullName(); f != ks[0] {
		ks = append(ks, f)
	}
	if i := strings.IndexByte(ks[0], '['); i > 0 { // an instantiated generic interface
		ks = append(ks, ks[0][:i]+")."+m.Name())
	}
	return ks
}

func (x *Exec) missing(st *State, what string, pos token.Pos) {
	if x.inInit || x.mute > 0 {
		return
	}
	x.oblige(st, "engine", "no contract for "+what, tFalse, posOf(x.prog, pos), 0)
}

func (x *Exec) unknownResult(st *State, sig *types.Signature) []Outcome {
	var rs []*Term
	st.bumpTop()
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, st.symbolic("unk", sig.Results().At(i).Type()))
	}
	return []Outcome{{st: st, results: rs}}
}

func (x *Exec) contractFor(fn *ssa.Function) *Contract {
	if c := x.prog.byFunc[fn]; c != nil {
		return c
	}
	if o := fn.Origin(); o != nil {
		if c := x.prog.byFunc[o]; c != nil {
			return c
		}
	}
	if c := x.prog.pick(x.prog.externs, x.u, fn.String()); c != nil {
		return c
	}
	// method wrappers of external types: (*T).M promoted etc.
	if obj, ok := fn.Object().(*types.Func); ok {
		if c := x.prog.pick(x.prog.externs, x.u, obj.FullName()); c != nil {
			return c
		}
	}
	return nil
}

func (x *Exec) callFunc(depth int, st *State, fn *ssa.Function, args, free []*Term, pos token.Pos) []Outcome {
	if in, ok := x.intrinsic(st, fn, args, pos); ok {
		return in
	}
	if c := x.contractFor(fn); c != nil && !c.inline {
		return x.applyContract(st, c, args, pos)
	}
	if fn.Blocks != nil {
		return x.callBody(fn, args, free, st, depth+1)
	}
	x.missing(st, fn.String(), pos)
	return x.unknownResult(st, fn.Signature)
}

// ---------- contracts ----------

type Contract struct {
	target   string
	kind     string // contract | extern | iface | funcval
	fn       *ssa.Function
	spec     *ssa.Function
	specPkg  string
	props    []string
	pure     bool
	useInit  bool
	bv       bool
	inline   bool
	trusted  bool
	mayPanic bool
	prune    bool
	unroll   int
	used     bool
}

type clause struct {
	label string
	prop  string
	cond  *Term
}

type modItem struct {
	t   types.Type
	v   *Term
	g   *ghostDecl
	any bool // the named field of every object
}

type specOut struct {
	reqs     []clause
	ens      []clause
	mods     []modItem
	panicsIf *Term
	panicsOK bool
}

type specCtx struct {
	out   *specOut
	guard *Term
	want  string // "req" "ens" "all"
}

// specState derives a spec-mode view of st.
func (st *State) specState(fs *factSet, pre map[string]*Term) *State {
	n := st.clone()
	n.spec = true
	n.collect = fs
	n.pre = pre
	n.log = nil
	n.hook = nil
	n.inOld = false
	return n
}

func (x *Exec) applyContract(st *State, c *Contract, args []*Term, pos token.Pos) []Outcome {
	c.used = true
	x.u.useContract(c)
	e := x.e
	sig := c.spec.Signature
	nres := sig.Params().Len() - len(args)
	if nres < 0 {
		unsupported("contract %s: parameter count mismatch (%d args, spec has %d parameters)", c.target, len(args), sig.Params().Len())
	}
	resType := func(i int) types.Type { return sig.Params().At(len(args) + i).Type() }

	// results as placeholders for evaluating requires/modifies
	var ph []*Term
	for i := 0; i < nres; i++ {
		ph = append(ph, e.zero(resType(i)))
	}
	fs := newFactSet()
	ss := st.specState(fs, st.mem)
	ss.lockMem = nil
	out := &specOut{}
	x.specRun(c.spec, append(append([]*Term{}, args...), ph...), nil, ss, 0, &specCtx{out: out, guard: tTrue, want: "req"})
	for _, f := range fs.facts {
		st.assume(f)
	}
	if !x.inInit {
		for _, r := range out.reqs {
			if r.cond.op != "true" && !st.knows(r.cond) {
				x.oblige(st, "requires", "precondition of "+c.target+": "+r.label, r.cond, posOf(x.prog, pos), 0)
				st.assume(r.cond)
			}
		}
	}
	var outs []Outcome
	if out.panicsOK {
		pc := out.panicsIf
		if pc == nil {
			pc = newSym("panics", "Bool")
		}
		if pc.op != "false" && !st.refutes(pc) {
			ps := st.clone()
			ps.assume(pc)
			outs = append(outs, Outcome{st: ps, panics: true, what: "panic in " + c.target})
		}
		if pc.op == "true" {
			return outs
		}
		st.assume(mkNot(pc))
	}
	pre := st.mem
	st.mem = make(map[string]*Term, len(pre))
	for k, v := range pre {
		st.mem[k] = v
	}
	var rs []*Term
	if c.pure {
		rs = x.pureResults(st, c, args, nres)
	} else {
		oldTop := st.top()
		st.bumpTop()
		st.preTop = oldTop
		for _, m := range out.mods {
			x.havoc(st, m)
		}
		for i := 0; i < nres; i++ {
			n := c.target
			if k := strings.LastIndexByte(n, '.'); k >= 0 {
				n = n[k+1:]
			}
			rs = append(rs, st.symbolic("r."+n, resType(i)))
		}
	}
	fs = newFactSet()
	ss = st.specState(fs, pre)
	ss.preTop = st.preTop
	ss.lockMem = nil
	eo := &specOut{}
	x.specRun(c.spec, append(append([]*Term{}, args...), rs...), nil, ss, 0, &specCtx{out: eo, guard: tTrue, want: "ens"})
	for _, f := range fs.facts {
		st.assume(f)
	}
	for _, q := range eo.ens {
		st.assume(q.cond)
	}
	return append(outs, Outcome{st: st, results: rs})
}

func (x *Exec) pureResults(st *State, c *Contract, args []*Term, nres int) []*Term {
	var flat []*Term
	sig := c.spec.Signature
	for i, a := range args {
		flat = append(flat, x.flatten(st, sig.Params().At(i).Type(), a)...)
	}
	var rs []*Term
	for i := 0; i < nres; i++ {
		t := sig.Params().At(len(args) + i).Type()
		r := x.ufStruct(fmt.Sprintf("fn.%s#%d", c.target, i), t, flat)
		st.wf(t, r)
		rs = append(rs, r)
	}
	return rs
}

// slice-valued pure results get a backing store identified by the function's arguments
func (x *Exec) ufStruct(name string, t types.Type, flat []*Term) *Term {
	return mkUF(name, x.e.sortOf(t), flat...)
}

func (x *Exec) flatten(st *State, t types.Type, a *Term) []*Term {
	e := x.e
	if sl, ok := t.Underlying().(*types.Slice); ok {
		var out []*Term
		st.leaves(sl.Elem(), "", func(path string, lt types.Type) {
			out = append(out, st.elemArr(e.rootKey(sl.Elem()), path, lt, e.slBk(a)))
		})
		out = append(out, e.slOff(a), e.slLen(a))
		if e.bv {
			return out
		}
		return []*Term{mkUF("seqof."+e.rootKey(sl.Elem()), "Int", out...)}
	}
	return []*Term{a}
}

// anyKeys: the memory components named by a gvModAny(&x.f) item
func (x *Exec) anyKeys(st *State, m modItem, f func(key, sort string)) {
	e := x.e
	switch u := m.t.Underlying().(type) {
	case *types.Pointer:
		p := e.place(m.v, u.Elem())
		st.leaves(u.Elem(), "", func(path string, lt types.Type) {
			q := p
			q.path += path
			f(q.key(), e.memSort(q, e.sortOf(lt)))
		})
	case *types.Slice:
		st.leaves(u.Elem(), "", func(path string, lt types.Type) {
			f("E|"+e.rootKey(u.Elem())+"|"+path, arraySort("Int", arraySort(e.idxSort(), e.sortOf(lt))))
		})
	default:
		unsupported("gvModAny of %s", m.t)
	}
}

func (x *Exec) havoc(st *State, m modItem) {
	e := x.e
	if m.any && m.g != nil {
		k, sort := st.ghostKey(m.g)
		st.memSet(k, newSym("anyid", "Int"), newSym("hv."+k, sort))
		return
	}
	if m.any {
		x.anyKeys(st, m, func(k, sort string) { st.memSet(k, newSym("anyid", "Int"), newSym("hv."+k, sort)) })
		return
	}
	if m.g != nil {
		st.ghostSet(m.g, m.v, st.symbolic("hv", m.g.ret))
		return
	}
	switch u := m.t.Underlying().(type) {
	case *types.Pointer:
		t := u.Elem()
		if _, opaque := e.opaqueStruct(t); !opaque {
			p := e.place(m.v, t)
			st.leaves(t, "", func(path string, lt types.Type) {
				q := p
				q.path += path
				q.typ = lt
				st.store(q, e.unlessNull(p, st, q, st.symbolic("hv", lt)))
			})
		} else {
			p := e.place(m.v, t)
			st.store(p, e.unlessNull(p, st, p, st.symbolic("hv", t)))
		}
		for _, g := range x.prog.ghosts {
			if g.param != nil && types.Identical(g.param, m.t) {
				st.ghostSet(g, m.v, st.symbolic("hv", g.ret))
			}
		}
	case *types.Slice:
		el := u.Elem()
		st.leaves(el, "", func(path string, lt types.Type) {
			st.setElemArr(e.rootKey(el), path, lt, e.slBk(m.v), newSym("hv", arraySort(e.idxSort(), e.sortOf(lt))))
		})
	case *types.Map:
		mm := st.mapMem(u)
		mm.setDom(m.v, newSym("hv", arraySort(mm.ks, "Bool")))
		mm.setVals(m.v, newSym("hv", arraySort(mm.ks, mm.vs)))
		mm.setLen(m.v, newSym("hv", "Int"))
	case *types.Interface:
		for _, g := range x.prog.ghosts {
			if g.param != nil && types.Identical(g.param, m.t) {
				st.ghostSet(g, m.v, st.symbolic("hv", g.ret))
			}
		}
	default:
		unsupported("modifies of %s", m.t)
	}
}

// allowed write targets (key -> ids) of a modifies item
func (x *Exec) modTargets(st *State, m modItem, add func(key string, id *Term)) {
	e := x.e
	if m.any && m.g == nil {
		x.anyKeys(st, m, func(k, _ string) { add(k, nil) })
		return
	}
	if m.g != nil && m.any {
		k, _ := st.ghostKey(m.g)
		add(k, nil)
		return
	}
	if m.g != nil {
		k, _ := st.ghostKey(m.g)
		add(k, st.ghostIdx(m.g, m.v))
		return
	}
	switch u := m.t.Underlying().(type) {
	case *types.Pointer:
		t := u.Elem()
		p := e.place(m.v, t)
		st.leaves(t, "", func(path string, lt types.Type) {
			q := p
			q.path += path
			add(q.key(), q.id)
			if a, ok := lt.Underlying().(*types.Array); ok && path == "" {
				st.leaves(a.Elem(), "", func(pp string, lt types.Type) { add("E|"+e.rootKey(a.Elem())+"|"+pp, q.id) })
			}
		})
		for _, g := range x.prog.ghosts {
			if g.param != nil && types.Identical(g.param, m.t) {
				k, _ := st.ghostKey(g)
				add(k, m.v)
			}
		}
	case *types.Slice:
		el := u.Elem()
		st.leaves(el, "", func(path string, lt types.Type) { add("E|"+e.rootKey(el)+"|"+path, e.slBk(m.v)) })
	case *types.Map:
		mm := st.mapMem(u)
		add(mm.dk, m.v)
		add(mm.vk, m.v)
		add(mm.lk, m.v)
	case *types.Interface:
		for _, g := range x.prog.ghosts {
			if g.param != nil && types.Identical(g.param, m.t) {
				k, _ := st.ghostKey(g)
				add(k, m.v)
			}
		}
	}
}

// ---------- spec evaluation (merged, side-effect free) ----------

func rpo(fn *ssa.Function) ([]*ssa.BasicBlock, bool) {
	seen := map[*ssa.BasicBlock]int{}
	var out []*ssa.BasicBlock
	cyc := false
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = 1
		for _, s := range b.Succs {
			if seen[s] == 1 {
				cyc = true
			}
			if seen[s] == 0 {
				dfs(s)
			}
		}
		seen[b] = 2
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out, cyc
}

func (x *Exec) specRun(fn *ssa.Function, args, free []*Term, st *State, depth int, sc *specCtx) []*Term {
	if fn.Blocks == nil {
		unsupported("specification uses %s, which has no body and no pure contract", fn)
	}
	if depth > 60 {
		unsupported("specification recursion too deep at %s", fn)
	}
	order, cyc := rpo(fn)
	if cyc {
		unsupported("specification calls %s, which contains a loop (give it a pure contract)", fn)
	}
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, tup: map[ssa.Value][]*Term{}, free: free, depth: depth,
		loops: map[*ssa.BasicBlock]*loopCtx{}, iters: map[ssa.Value]*iterInfo{}}
	if len(args) != len(fn.Params) {
		unsupported("spec %s: argument count", fn)
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	type edgeK struct{ a, b *ssa.BasicBlock }
	edge := map[edgeK]*Term{}
	type ret struct {
		g  *Term
		rs []*Term
	}
	var rets []ret
	guards := map[*ssa.BasicBlock]*Term{}
	for _, b := range order {
		g := tTrue
		if b != fn.Blocks[0] {
			g = tFalse
			var gs []*Term
			for _, p := range b.Preds {
				if c, ok := edge[edgeK{p, b}]; ok {
					gs = append(gs, c)
				}
			}
			if d := b.Idom(); d != nil && guards[d] != nil && postDominates(b, d) {
				g = guards[d]
			} else {
				g = mkOrSimp(gs)
			}
		}
		guards[b] = g
		if g.op == "false" {
			continue
		}
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Phi:
				var r *Term
				for i := len(b.Preds) - 1; i >= 0; i-- {
					c, ok := edge[edgeK{b.Preds[i], b}]
					if !ok || c.op == "false" {
						continue
					}
					val := x.val(fr, st, v.Edges[i])
					if r == nil {
						r = val
					} else {
						r = mkIte(c, val, r)
					}
				}
				fr.env[v] = r
			case *ssa.If:
				c := x.val(fr, st, v.Cond)
				edge[edgeK{b, b.Succs[0]}] = mkAnd(g, c)
				edge[edgeK{b, b.Succs[1]}] = mkAnd(g, mkNot(c))
			case *ssa.Jump:
				edge[edgeK{b, b.Succs[0]}] = g
			case *ssa.Return:
				var rs []*Term
				for _, r := range v.Results {
					rs = append(rs, x.val(fr, st, r))
				}
				rets = append(rets, ret{g, rs})
			case *ssa.Panic, *ssa.DebugRef, *ssa.RunDefers:
			case *ssa.Store:
				addr := x.val(fr, st, v.Addr)
				p := x.e.place(addr, v.Val.Type())
				if !isSpecID(p.id) {
					unsupported("specification writes to program memory in %s", fn)
				}
				nv := x.val(fr, st, v.Val)
				if g.op != "true" {
					nv = mkIte(g, nv, st.load(p))
				}
				st.store(p, nv)
			case *ssa.Call:
				var nsc *specCtx
				if sc != nil {
					nsc = &specCtx{out: sc.out, guard: mkAnd(sc.guard, g), want: sc.want}
				}
				rs := x.specCall(fr, st, v, depth, nsc)
				x.setResult(fr, v, rs)
			case *ssa.Defer, *ssa.Go:
				unsupported("defer/go in specification")
			default:
				x.instr(fr, st, in)
			}
		}
	}
	if len(rets) == 0 {
		var rs []*Term
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			rs = append(rs, newSym("undef", x.e.sortOf(fn.Signature.Results().At(i).Type())))
		}
		return rs
	}
	rs := append([]*Term{}, rets[len(rets)-1].rs...)
	for i := len(rets) - 2; i >= 0; i-- {
		for j := range rs {
			rs[j] = mkIte(rets[i].g, rets[i].rs[j], rs[j])
		}
	}
	return rs
}

// every path from d reaches b (acyclic graph)
func postDominates(b, d *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == b || seen[x] {
			return true
		}
		seen[x] = true
		if len(x.Succs) == 0 {
			return false
		}
		for _, s := range x.Succs {
			if !rec(s) {
				return false
			}
		}
		return true
	}
	return rec(d)
}

// or with factoring of complementary conjunctions: (a&c)|(a&!c) = a
func mkOrSimp(gs []*Term) *Term {
	if len(gs) == 2 {
		a, b := conj(gs[0]), conj(gs[1])
		am := map[*Term]bool{}
		for _, t := range a {
			am[t] = true
		}
		var common, ra, rb []*Term
		for _, t := range b {
			if am[t] {
				common = append(common, t)
				delete(am, t)
			} else {
				rb = append(rb, t)
			}
		}
		for _, t := range a {
			if am[t] {
				ra = append(ra, t)
			}
		}
		return mkAnd(append(common, mkOr(mkAnd(ra...), mkAnd(rb...)))...)
	}
	return mkOr(gs...)
}
func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	if t.op == "true" {
		return nil
	}
	return []*Term{t}
}

func (x *Exec) specCall(fr *frame, st *State, in *ssa.Call, depth int, sc *specCtx) []*Term {
	cc := &in.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var args []*Term
		for _, a := range cc.Args {
			args = append(args, x.val(fr, st, a))
		}
		outs := x.builtin(fr, st, b.Name(), cc, args, in.Pos())
		return outs[0].results
	}
	if f := cc.StaticCallee(); f != nil && !cc.IsInvoke() {
		nm := f.Name()
		if o := f.Origin(); o != nil {
			nm = o.Name()
		}
		if strings.HasPrefix(nm, "gv") {
			if rs, ok := x.specBuiltin(fr, st, nm, f, cc, depth, sc); ok {
				return rs
			}
		}
	}
	ft, args := x.evalCall(fr, st, cc)
	if cc.IsInvoke() {
		return x.specInvoke(st, cc, ft, args, depth)
	}
	if ft.op == "closure" {
		return x.specFunc(st, ft.fn, args, ft.args, depth, sc)
	}
	unsupported("specification calls an unknown function value")
	return nil
}

func (x *Exec) specInvoke(st *State, cc *ssa.CallCommon, recv *Term, args []*Term, depth int) []*Term {
	if recv.op == "ite" {
		a := x.specInvoke(st, cc, recv.args[1], args, depth)
		b := x.specInvoke(st, cc, recv.args[2], args, depth)
		var rs []*Term
		for i := range a {
			rs = append(rs, mkIte(recv.args[0], a[i], b[i]))
		}
		return rs
	}
	if t, ok := x.dynType(st, recv); ok && t != nil {
		fn := x.prog.ssa.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
		return x.specFunc(st, fn, append([]*Term{x.unbox(t, recv)}, args...), nil, depth, nil)
	}
	for _, k := range methodKeys(cc.Method, cc.Value.Type()) {
		if c := x.prog.pick(x.prog.ifaces, x.u, k); c != nil && c.pure {
			return x.specPure(st, c, append([]*Term{recv}, args...), depth)
		}
	}
	unsupported("specification calls interface method %s without a pure contract", cc.Method.FullName())
	return nil
}

func (x *Exec) specFunc(st *State, fn *ssa.Function, args, free []*Term, depth int, sc *specCtx) []*Term {
	if g := x.prog.ghostFn[fn]; g != nil {
		var a *Term
		if g.param != nil {
			a = args[0]
		}
		return []*Term{st.ghostGet(g, a)}
	}
	if outs, ok := x.intrinsic(st, fn, args, token.NoPos); ok {
		return outs[0].results
	}
	if c := x.contractFor(fn); c != nil && c.pure {
		return x.specPure(st, c, args, depth)
	}
	if x.prog.absFn[fn] && fn.Pkg != nil && x.prog.textFn[fn.Pkg.Pkg.Path()] == fn && !x.e.bv {
		el := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		if l := litBytes(st.elemArr(x.e.rootKey(el), "", el, x.e.slBk(args[0])), x.e.slOff(args[0]), x.e.slLen(args[0])); l != nil {
			return []*Term{l}
		}
	}
	if x.prog.absFn[fn] {
		var flat []*Term
		sig := fn.Signature
		for i, a := range args {
			flat = append(flat, x.flatten(st, sig.Params().At(i).Type(), a)...)
		}
		var rs []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			r := mkUF(fmt.Sprintf("abs.%s#%d", fn.String(), i), x.e.sortOf(t), flat...)
			st.wf(t, r)
			rs = append(rs, r)
		}
		if fn.Pkg != nil && x.prog.textFn[fn.Pkg.Pkg.Path()] == fn {
			st.assume(mkImplies(mkEq(x.e.slLen(args[0]), mkInt(0)), mkEq(rs[0], mkStr(""))))
		}
		return rs
	}
	if fn.Signature.Results().Len() > 0 {
		sc = nil // clauses come from specification procedures only
	}
	return x.specRun(fn, args, free, st, depth+1, sc)
}

func (x *Exec) specPure(st *State, c *Contract, args []*Term, depth int) []*Term {
	x.u.useContract(c)
	nres := c.spec.Signature.Params().Len() - len(args)
	rs := x.pureResults(st, c, args, nres)
	key := c.target
	for _, a := range append(append([]*Term{}, args...), rs...) {
		key += fmt.Sprintf(",%d", a.id)
	}
	if x.u.pureBusy[key] || x.u.pureDepth > 2 {
		return rs
	}
	x.u.pureBusy[key] = true
	x.u.pureDepth++
	defer func() { delete(x.u.pureBusy, key); x.u.pureDepth-- }()
	out := &specOut{}
	x.specRun(c.spec, append(append([]*Term{}, args...), rs...), nil, st, depth+1, &specCtx{out: out, guard: tTrue, want: "all"})
	var rq []*Term
	for _, r := range out.reqs {
		rq = append(rq, r.cond)
	}
	pre := mkAnd(rq...)
	for _, q := range out.ens {
		st.assume(mkImplies(pre, q.cond))
	}
	return rs
}

func constString(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		s := c.Value.ExactString()
		return strings.Trim(s, "\"")
	}
	return ""
}

func (x *Exec) specBuiltin(fr *frame, st *State, nm string, f *ssa.Function, cc *ssa.CallCommon, depth int, sc *specCtx) ([]*Term, bool) {
	e := x.e
	arg := func(i int) *Term { return x.val(fr, st, cc.Args[i]) }
	switch nm {
	case "gvReq":
		if sc != nil && sc.want != "ens" {
			sc.out.reqs = append(sc.out.reqs, clause{cond: mkImplies(sc.guard, arg(0)), label: "line " + posOf(x.prog, cc.Pos())})
		}
		return nil, true
	case "gvEns":
		if sc != nil && sc.want != "req" {
			l := constString(cc.Args[0])
			p := ""
			if len(l) > 4 && l[0] == 'C' && l[3] == ':' {
				p = l[:3]
			}
			sc.out.ens = append(sc.out.ens, clause{cond: mkImplies(sc.guard, arg(1)), label: l, prop: p})
		}
		return nil, true
	case "gvPanics":
		if sc != nil {
			c := mkAnd(sc.guard, arg(0))
			if sc.out.panicsIf != nil {
				c = mkOr(sc.out.panicsIf, c)
			}
			sc.out.panicsIf = c
			sc.out.panicsOK = true
		}
		return nil, true
	case "gvMayPanic":
		if sc != nil {
			sc.out.panicsOK = true
		}
		return nil, true
	case "gvMod", "gvModAny":
		if sc != nil && sc.want != "ens" {
			// variadic any: the slice's elements are boxed
			s := arg(0)
			n := e.slLen(s)
			if n.op != "int" && n.op != "bv" {
				unsupported("gvMod with unknown arity")
			}
			for i := int64(0); i < n.ival.Int64(); i++ {
				el := types.Universe.Lookup("any").Type()
				v := st.load(place{elem: true, root: e.rootKey(el), id: e.slBk(s), idx: x.addIdx(e.slOff(s), e.idxLit(i)), typ: el})
				if v.op != "ctor" {
					unsupported("gvMod argument of unknown type")
				}
				for _, b := range e.boxIDs {
					if b.ctor == v.sval {
						if sc.guard.op == "false" {
							continue
						}
						sc.out.mods = append(sc.out.mods, modItem{t: b.typ, v: v.args[0], any: nm == "gvModAny"})
					}
				}
			}
		}
		return nil, true
	case "gvModGhost":
		if sc != nil && sc.want != "ens" {
			g := x.prog.ghostByName(constString(cc.Args[0]))
			if g == nil {
				unsupported("unknown ghost %s", constString(cc.Args[0]))
			}
			var v *Term
			if g.param != nil {
				b := arg(1)
				if b == x.e.inil() {
					sc.out.mods = append(sc.out.mods, modItem{g: g, any: true})
					return nil, true
				}
				if _, isI := g.param.Underlying().(*types.Interface); isI {
					v = b
				} else {
					v = mkSel(e.box(g.param).ctor, 0, b)
				}
			}
			sc.out.mods = append(sc.out.mods, modItem{g: g, v: v})
		}
		return nil, true
	case "gvImp":
		// as a hypothesis, a quantified fact is taken as stated: the well-formedness premises that ease proving it are dropped
		return []*Term{mkImplies(x.bareHyp(arg(0)), arg(1))}, true
	case "gvIff":
		return []*Term{mkEq(arg(0), arg(1))}, true
	case "gvSame":
		return []*Term{mkEq(arg(0), arg(1))}, true
	case "gvIsInt":
		s := arg(0)
		t := isIntTerm(s)
		if s.op != "str" {
			for _, l := range []string{"", "NULL"} {
				st.assume(mkImplies(mkEq(s, mkStr(l)), mkNot(t)))
			}
			st.assume(mkImplies(mkEq(s, mkStr("0")), mkAnd(t, mkEq(atoiTerm(s), mkInt(0)))))
		}
		return []*Term{t}, true
	case "gvIntVal":
		return []*Term{atoiTerm(arg(0))}, true
	case "gvModE":
		return []*Term{mkModInt(arg(0), arg(1))}, true
	case "gvDivE":
		return []*Term{mkDivInt(arg(0), arg(1))}, true
	case "gvIte":
		return []*Term{mkIte(arg(0), arg(1), arg(2))}, true
	case "gvAll", "gvEx":
		cl := arg(0)
		if cl.op == "ctor" { // boxed func
			cl = cl.args[0]
		}
		if cl.op != "closure" {
			unsupported("quantifier body must be a function literal")
		}
		var bs []*Term
		var rf []*Term
		for _, p := range cl.fn.Params {
			b := newBVar(p.Name(), e.sortOf(p.Type()))
			bs = append(bs, b)
			rf = append(rf, e.rangeFact(p.Type(), b))
		}
		inner := newFactSet()
		outerF := st.collect
		st.collect = inner
		rs := x.specRun(cl.fn, bs, cl.args, st, depth+1, nil)
		st.collect = outerF
		var in []*Term
		for _, f := range inner.facts {
			if f.hasBV {
				dep := false
				for _, b := range bs {
					if occursBV(f, b) {
						dep = true
					}
				}
				if dep {
					in = append(in, f)
				} else {
					outerF.add(f)
				}
			} else {
				outerF.add(f)
			}
		}
		if nm == "gvEx" {
			return []*Term{mkQuant("exists", bs, mkAnd(mkAnd(rf...), rs[0]))}, true
		}
		if x.u.goalMode {
			q := mkQuant("forall", bs, mkImplies(mkAnd(append(rf, in...)...), rs[0]))
			if len(in) > 0 {
				if x.bare == nil {
					x.bare = map[*Term]*Term{}
				}
				x.bare[q] = mkQuant("forall", bs, mkImplies(mkAnd(rf...), rs[0]))
			}
			return []*Term{q}, true
		}
		return []*Term{mkQuant("forall", bs, mkImplies(mkAnd(rf...), rs[0]))}, true
	case "gvOld", "gvAtLock":
		cl := arg(0)
		if cl.op != "closure" {
			unsupported("old() needs a function literal")
		}
		so, sp := st.inOld, st.pre
		if nm == "gvAtLock" {
			if st.lockMem == nil { // seen by a caller: some state between call and return
				var rs []*Term
				for i := 0; i < cl.fn.Signature.Results().Len(); i++ {
					rs = append(rs, st.symbolic("atlock", cl.fn.Signature.Results().At(i).Type()))
				}
				return rs, true
			}
			st.pre = st.lockMem
		}
		st.inOld = true
		rs := x.specRun(cl.fn, nil, cl.args, st, depth+1, nil)
		st.inOld, st.pre = so, sp
		return rs, true
	case "gvFresh":
		v := arg(0)
		if v.op == "ctor" && len(v.args) == 1 {
			v = v.args[0]
		} else {
			unsupported("gvFresh argument")
		}
		var id *Term
		switch {
		case v.sort == e.sliceSort():
			id = e.slBk(v)
			return []*Term{mkOr(mkEq(id, mkInt(0)), mkLe(st.preTop, id))}, true
		case v.sort == e.refSort():
			return []*Term{mkAnd(mkIs(e.refSort()+".obj", v), mkLe(st.preTop, e.oid(v)))}, true
		default:
			id = v
		}
		return []*Term{mkLe(st.preTop, id)}, true
	case "gvHolds":
		// the caller holds the mutex of the object
		key := fmt.Sprintf("%d", arg(0).id)
		if x.u.entry {
			x.u.entryHolds[key] = true
			return []*Term{tTrue}, true
		}
		return []*Term{mkBool(st.held[key] || st.isFreshRef(arg(0)))}, true
	case "gvAssume":
		// a stated assumption about the environment: taken where the predicate is assumed, not asked for where it is a goal
		if c, ok := cc.Args[0].(*ssa.Const); ok && c.Value != nil {
			x.prog.trust("assumption: " + constant.StringVal(c.Value))
		}
		if x.u.goalMode {
			return []*Term{tTrue}, true
		}
		return []*Term{arg(1)}, true
	case "gvVisited":
		// gvVisited(m, k): k already visited by the innermost range over m
		m, k := arg(0), arg(1)
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		mm := st.mapMem(mt)
		id := x.u.iterFor(m)
		if id == 0 {
			unsupported("gvVisited outside a map range")
		}
		return []*Term{mkSelect(st.visited(id, mm.ks), k, "Bool")}, true
	case "gvVisitPos", "gvVisitCount":
		// position of k in the order the innermost range over m visits the keys; keys visited so far
		id := x.u.iterFor(arg(0))
		if id == 0 {
			unsupported("%s outside a map range", nm)
		}
		if nm == "gvVisitCount" {
			return []*Term{st.iterInt("V|count", id)}, true
		}
		return []*Term{mkUF("visitpos", "Int", st.iterInt("V|order", id), arg(1))}, true
	case "gvBacking":
		s := arg(0)
		return []*Term{e.slBk(s)}, true
	case "gvOff":
		s := arg(0)
		return []*Term{e.slOff(s)}, true
	case "gvMapID":
		return []*Term{arg(0)}, true
	case "gvSameFunc":
		return []*Term{mkEq(arg(0), arg(1))}, true
	case "gvInt":
		return []*Term{st.convInt(cc.Args[0].Type(), f.Signature.Results().At(0).Type(), arg(0))}, true
	case "gvAlloc":
		// object exists (id below current top)
		v := arg(0)
		if v.op == "ctor" && len(v.args) == 1 {
			v = v.args[0]
		}
		if v.sort == e.sliceSort() {
			return []*Term{mkLt(e.slBk(v), st.top())}, true
		}
		return []*Term{mkLt(e.oid(v), st.top())}, true
	}
	return nil, false
}

func (x *Exec) bareHyp(t *Term) *Term {
	if b, ok := x.bare[t]; ok {
		return b
	}
	if t.op == "and" {
		var out []*Term
		ch := false
		for _, a := range t.args {
			b := x.bareHyp(a)
			ch = ch || b != a
			out = append(out, b)
		}
		if ch {
			return mkAnd(out...)
		}
	}
	return t
}

// unlessNull: a contract that names a location behind a nil pointer names nothing
func (e *Eng) unlessNull(p place, st *State, q place, v *Term) *Term {
	if p.base == nil {
		return v
	}
	n := e.isNull(p.base)
	if n.op == "false" {
		return v
	}
	return mkIte(n, st.load(q), v)
}

// pick prefers the contract written beside the unit under verification
func (p *Program) pick(m map[string]*Contract, u *Unit, key string) *Contract {
	if u != nil && u.c != nil && u.c.spec != nil && u.c.spec.Pkg != nil {
		if c := m[u.c.spec.Pkg.Pkg.Path()+"|"+key]; c != nil {
			return c
		}
	}
	return m[key]
}
