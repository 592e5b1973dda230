package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exec runs functions symbolically.
type Exec struct {
	bare map[*Term]*Term // quantified goals without their well-formedness premises
	e      *Eng
	u      *Unit
	prog   *Program
	mute   int // >0: do not record obligations (loop probes)
	paths  int
	stack  []string
	inInit bool
}

type deferred struct {
	call   ssa.CallCommon
	fnTerm *Term
	args   []*Term
	pos    token.Pos
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	tup    map[ssa.Value][]*Term
	defers []deferred
	loops  map[*ssa.BasicBlock]*loopCtx
	iters  map[ssa.Value]*iterInfo
	free   []*Term
	depth  int
	entry  *State // state at function entry (for loop templates' old)
	args   []*Term
}

type iterInfo struct {
	id  int
	m   *Term
	mt  *types.Map
	str *Term
	typ types.Type
}

func (f *frame) clone() *frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.tup = make(map[ssa.Value][]*Term, len(f.tup))
	for k, v := range f.tup {
		n.tup[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*loopCtx, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.iters = make(map[ssa.Value]*iterInfo, len(f.iters))
	for k, v := range f.iters {
		n.iters[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

type Outcome struct {
	st      *State
	panics  bool
	results []*Term
	what    string
}

// ---------- values ----------

func (x *Exec) val(fr *frame, st *State, v ssa.Value) *Term {
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch c := v.(type) {
	case *ssa.Const:
		return x.e.constant(c.Type(), c.Value)
	case *ssa.Global:
		return x.e.obj(mkInt(x.prog.globalID(c)))
	case *ssa.Function:
		return intern("closure", "Func", "", nil, nil, nil, c)
	case *ssa.Builtin:
		return mkConst("builtin."+c.Name(), "Func")
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c {
				return fr.free[i]
			}
		}
	}
	panic(unsupportedErr{fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, fr.fn)})
}

func posOf(prog *Program, p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := prog.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// check records a runtime-safety obligation and assumes it afterwards.
func (x *Exec) check(st *State, kind string, cond *Term, pos token.Pos) {
	if st.spec || x.inInit {
		return
	}
	if cond.op == "true" || st.knows(cond) {
		return
	}
	x.oblige(st, "safety", kind, cond, posOf(x.prog, pos), 0)
	st.assume(cond)
}

func (x *Exec) oblige(st *State, cls, label string, goal *Term, pos string, cand int) {
	if x.mute > 0 {
		return
	}
	x.u.addObl(st, cls, label, goal, pos, cand, strings.Join(x.stack, " > "))
}

func pathDead(st *State) bool {
	for p := st.pc; p != nil; p = p.prev {
		if p.t.op == "false" {
			return true
		}
	}
	return false
}

// ---------- running functions ----------

const maxDepth = 24

func (x *Exec) callBody(fn *ssa.Function, args, free []*Term, st *State, depth int) []Outcome {
	if depth > maxDepth {
		unsupported("inlining too deep at %s", fn)
	}
	if fn.Blocks == nil {
		unsupported("no body for %s", fn)
	}
	for i := 0; i < len(x.stack); i++ {
		if x.stack[i] == fn.String() && i < len(x.stack)-8 {
			unsupported("recursion in %s (needs a contract)", fn)
		}
	}
	x.stack = append(x.stack, fn.String())
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, tup: map[ssa.Value][]*Term{}, loops: map[*ssa.BasicBlock]*loopCtx{},
		iters: map[ssa.Value]*iterInfo{}, free: free, depth: depth, args: args}
	if len(args) != len(fn.Params) {
		unsupported("argument count mismatch calling %s: %d vs %d", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	return x.runBlock(fr, st, fn.Blocks[0], nil)
}

func (x *Exec) runBlock(fr *frame, st *State, b, prev *ssa.BasicBlock) []Outcome {
	for h, lc := range fr.loops {
		if !lc.blocks[b] && lc.active {
			// leaving the loop
			if lc.probe {
				return nil
			}
			_ = h
		}
	}
	if l := x.prog.loopsOf(fr.fn)[b]; l != nil {
		if prev != nil && l.blocks[prev] {
			if lc := fr.loops[b]; lc != nil && lc.active {
				return x.backEdge(fr, st, b, prev, lc)
			}
		}
		return x.enterLoop(fr, st, b, prev, l)
	}
	x.setPhis(fr, st, b, prev)
	return x.runFrom(fr, st, b, 0)
}

func (x *Exec) setPhis(fr *frame, st *State, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	k := -1
	for i, p := range b.Preds {
		if p == prev {
			k = i
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, x.val(fr, st, p.Edges[k]))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

func (x *Exec) runFrom(fr *frame, st *State, b *ssa.BasicBlock, i int) []Outcome {
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.val(fr, st, in.Cond)
			if c.op == "true" || st.knows(c) {
				return x.runBlock(fr, st, b.Succs[0], b)
			}
			if c.op == "false" || st.refutes(c) {
				return x.runBlock(fr, st, b.Succs[1], b)
			}
			x.paths++
			if x.paths > 60000 {
				unsupported("too many paths in %s", fr.fn)
			}
			if x.paths > 256 && x.paths%16 == 0 || x.mute == 0 && x.u.pruneAll {
				// deep exploration: prune infeasible branches with a quick query
				if x.u.infeasible(st, c) {
					st.assume(mkNot(c))
					return x.runBlock(fr, st, b.Succs[1], b)
				}
				if x.u.infeasible(st, mkNot(c)) {
					st.assume(c)
					return x.runBlock(fr, st, b.Succs[0], b)
				}
			}
			st2, fr2 := st.clone(), fr.clone()
			st.assume(c)
			st2.assume(mkNot(c))
			out := x.runBlock(fr, st, b.Succs[0], b)
			return append(out, x.runBlock(fr2, st2, b.Succs[1], b)...)
		case *ssa.Jump:
			return x.runBlock(fr, st, b.Succs[0], b)
		case *ssa.Return:
			var rs []*Term
			for i, r := range in.Results {
				if a := gcReload(in, i); a != nil {
					rs = append(rs, st.load(x.e.place(x.val(fr, st, a), r.Type())))
					continue
				}
				rs = append(rs, x.val(fr, st, r))
			}
			return []Outcome{{st: st, results: rs}}
		case *ssa.Panic:
			if st.spec {
				return nil
			}
			return x.doPanic(fr, st, "explicit panic at "+posOf(x.prog, in.Pos()))
		case *ssa.RunDefers:
			outs := x.runDefers(fr, st)
			if len(outs) == 1 && !outs[0].panics {
				st = outs[0].st
				fr.defers = nil
				continue
			}
			var res []Outcome
			for _, o := range outs {
				if o.panics {
					res = append(res, o)
					continue
				}
				f2 := fr.clone()
				f2.defers = nil
				res = append(res, x.runFrom(f2, o.st, b, i+1)...)
			}
			return res
		case *ssa.Defer:
			d := deferred{call: in.Call, pos: in.Pos()}
			d.fnTerm, d.args = x.evalCall(fr, st, &in.Call)
			fr.defers = append(append([]deferred(nil), fr.defers...), d)
		case *ssa.Go:
			x.u.note("go statement at " + posOf(x.prog, in.Pos()) + " is not followed (the started goroutine is outside the contract)")
		case *ssa.Call:
			ft, args := x.evalCall(fr, st, &in.Call)
			outs := x.call(fr, st, &in.Call, ft, args, in.Pos())
			if len(outs) == 1 && !outs[0].panics {
				st = outs[0].st
				x.setResult(fr, in, outs[0].results)
				continue
			}
			var res []Outcome
			for _, o := range outs {
				if o.panics {
					res = append(res, x.doPanic(fr.clone(), o.st, o.what)...)
					continue
				}
				f2 := fr.clone()
				x.setResult(f2, in, o.results)
				res = append(res, x.runFrom(f2, o.st, b, i+1)...)
			}
			return res
		case *ssa.Next:
			outs := x.doNext(fr, st, in)
			var res []Outcome
			for _, o := range outs {
				f2 := fr
				if len(outs) > 1 {
					f2 = fr.clone()
				}
				f2.tup[in] = o.results
				if len(outs) == 1 {
					st = o.st
					break
				}
				res = append(res, x.runFrom(f2, o.st, b, i+1)...)
			}
			if len(outs) == 1 {
				continue
			}
			return res
		default:
			x.instr(fr, st, in)
		}
		if pathDead2(st) {
			return nil
		}
	}
	return nil
}

func pathDead2(st *State) bool { return st.pc != nil && st.pc.t.op == "false" }

func (x *Exec) setResult(fr *frame, in *ssa.Call, rs []*Term) {
	sig := in.Call.Signature()
	if sig.Results().Len() == 1 {
		fr.env[in] = rs[0]
	} else if sig.Results().Len() > 1 {
		fr.tup[in] = rs
	} else if tup, ok := in.Type().(*types.Tuple); !ok || tup.Len() > 0 {
		if len(rs) == 1 {
			fr.env[in] = rs[0]
		}
	}
}

func (x *Exec) doPanic(fr *frame, st *State, what string) []Outcome {
	var res []Outcome
	for _, o := range x.runDefersIn(fr, st, true) {
		if o.panics {
			res = append(res, Outcome{st: o.st, panics: true, what: what})
			continue
		}
		// recovered: the function returns its named results
		f2 := fr.clone()
		f2.defers = nil
		if fr.fn.Recover != nil {
			res = append(res, x.runBlock(f2, o.st, fr.fn.Recover, nil)...)
			continue
		}
		var rs []*Term
		for i := 0; i < fr.fn.Signature.Results().Len(); i++ {
			rs = append(rs, x.e.zero(fr.fn.Signature.Results().At(i).Type()))
		}
		res = append(res, Outcome{st: o.st, results: rs})
	}
	return res
}

func (x *Exec) runDefers(fr *frame, st *State) []Outcome { return x.runDefersIn(fr, st, false) }

// deferTarget is the function a deferred call runs, nil when it is not known.
func deferTarget(d deferred) *ssa.Function {
	if f := d.call.StaticCallee(); f != nil {
		return f
	}
	if d.fnTerm != nil && d.fnTerm.op == "closure" {
		return d.fnTerm.fn
	}
	return nil
}

func (x *Exec) runDefersIn(fr *frame, st *State, panics bool) []Outcome {
	ds := fr.defers
	cur := []Outcome{{st: st, panics: panics}}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []Outcome
		for _, o := range cur {
			was, rec := o.st.panicFn, o.st.recovered
			o.st.panicFn, o.st.recovered = nil, false
			if o.panics {
				o.st.panicFn = deferTarget(d)
			}
			outs := x.call(fr, o.st, &d.call, d.fnTerm, d.args, d.pos)
			for _, q := range outs {
				still := o.panics && !q.st.recovered
				q.st.panicFn, q.st.recovered = was, rec
				next = append(next, Outcome{st: q.st, panics: q.panics || still, what: q.what + o.what})
			}
		}
		cur = next
	}
	return cur
}

// ---------- plain instructions ----------

func (x *Exec) instr(fr *frame, st *State, in ssa.Instruction) {
	e := x.e
	switch v := in.(type) {
	case *ssa.Alloc:
		fr.env[v] = x.alloc(st, v.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		fr.env[v] = x.binop(fr, st, v)
	case *ssa.UnOp:
		fr.env[v] = x.unop(fr, st, v)
	case *ssa.ChangeType:
		fr.env[v] = x.changeType(st, v.X.Type(), v.Type(), x.val(fr, st, v.X))
	case *ssa.ChangeInterface:
		fr.env[v] = x.val(fr, st, v.X)
	case *ssa.MakeInterface:
		fr.env[v] = x.mkIface(v.X.Type(), x.val(fr, st, v.X))
	case *ssa.Convert:
		fr.env[v] = x.convert(st, v.X.Type(), v.Type(), x.val(fr, st, v.X))
	case *ssa.MultiConvert:
		fr.env[v] = x.convert(st, v.X.Type(), v.Type(), x.val(fr, st, v.X))
	case *ssa.Extract:
		t, ok := fr.tup[v.Tuple]
		if !ok {
			unsupported("extract from unknown tuple %s", v)
		}
		fr.env[v] = t[v.Index]
	case *ssa.Field:
		fr.env[v] = e.structField(v.X.Type(), x.val(fr, st, v.X), v.Field)
	case *ssa.FieldAddr:
		b := x.val(fr, st, v.X)
		owner := v.X.Type().Underlying().(*types.Pointer).Elem()
		if _, ok := e.opaqueStruct(owner); ok {
			// an exported field of a library type is a location of its own, provided values of
			// the type are never read or written as a whole
			if !owner.Underlying().(*types.Struct).Field(v.Field).Exported() {
				unsupported("field of opaque type %s", owner)
			}
			e.opaqueUse(owner, 1)
		}
		x.check(st, "nil dereference of "+v.X.Name()+" ("+owner.String()+")", mkNot(e.isNull(b)), v.Pos())
		fr.env[v] = e.fld(b, e.fieldKey(owner, v.Field))
	case *ssa.IndexAddr:
		fr.env[v] = x.indexAddr(st, v.X.Type(), x.val(fr, st, v.X), x.idx(fr, st, v.Index), v.Pos())
	case *ssa.Index:
		a := x.val(fr, st, v.X)
		i := x.idx(fr, st, v.Index)
		switch u := v.X.Type().Underlying().(type) {
		case *types.Array:
			x.check(st, "index out of range", x.inRange(i, e.idxLit(u.Len())), v.Pos())
			fr.env[v] = mkSelect(a, i, e.sortOf(u.Elem()))
			st.wf(u.Elem(), fr.env[v])
		default:
			x.check(st, "string index out of range", x.inRange(i, strLen(a)), v.Pos())
			fr.env[v] = mkStrAtCode(a, i)
			x.byteFact(st, a, i, fr.env[v])
		}
	case *ssa.Lookup:
		x.lookup(fr, st, v)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range v.Bindings {
			bs = append(bs, x.val(fr, st, b))
		}
		fr.env[v] = intern("closure", "Func", "", nil, bs, nil, v.Fn.(*ssa.Function))
	case *ssa.MakeMap:
		mt := v.Type().Underlying().(*types.Map)
		id := x.allocID(st)
		mm := st.mapMem(mt)
		mm.setDom(id, mkConstArr(arraySort(mm.ks, "Bool"), tFalse))
		mm.setLen(id, mkInt(0))
		fr.env[v] = id
	case *ssa.MakeChan:
		fr.env[v] = x.allocID(st)
	case *ssa.MakeSlice:
		ln, cp := x.toIdx(st, v.Len.Type(), x.val(fr, st, v.Len)), x.toIdx(st, v.Cap.Type(), x.val(fr, st, v.Cap))
		z := e.idxLit(0)
		if !e.bv {
			x.check(st, "makeslice: len out of range", mkAnd(mkLe(z, ln), mkLe(ln, cp)), v.Pos())
			st.assume(mkLe(cp, mkBig(maxLen)))
		}
		id := x.allocID(st)
		el := v.Type().Underlying().(*types.Slice).Elem()
		st.leaves(el, "", func(path string, lt types.Type) {
			st.setElemArr(e.rootKey(el), path, lt, id, mkConstArr(arraySort(e.idxSort(), e.sortOf(lt)), e.zero(lt)))
		})
		fr.env[v] = e.mkSlice(id, z, ln, cp)
	case *ssa.MapUpdate:
		x.mapUpdate(st, v.Map.Type().Underlying().(*types.Map), x.val(fr, st, v.Map), x.val(fr, st, v.Key), x.val(fr, st, v.Value), v.Pos())
	case *ssa.Range:
		x.prog.iterSeq++
		ii := &iterInfo{id: x.prog.iterSeq, typ: v.X.Type()}
		if mt, ok := v.X.Type().Underlying().(*types.Map); ok {
			ii.m = x.val(fr, st, v.X)
			ii.mt = mt
			mm := st.mapMem(mt)
			st.setVisited(ii.id, mm.ks, mkConstArr(arraySort(mm.ks, "Bool"), tFalse))
			st.setIterInt("V|count", ii.id, mkInt(0))
			st.setIterInt("V|order", ii.id, st.symbolic("visitorder", types.Typ[types.Int]))
		} else {
			ii.str = x.val(fr, st, v.X)
			st.setStrPos(ii.id, mkInt(0))
		}
		fr.iters[v] = ii
	case *ssa.Slice:
		fr.env[v] = x.slice(fr, st, v)
	case *ssa.Store:
		p := e.place(x.val(fr, st, v.Addr), v.Val.Type())
		x.nilCheck(st, x.val(fr, st, v.Addr), v.Pos())
		x.guardCheck(st, x.val(fr, st, v.Addr), v.Pos(), true)
		st.store(p, x.val(fr, st, v.Val))
	case *ssa.TypeAssert:
		x.typeAssert(fr, st, v)
	case *ssa.Send, *ssa.Select:
		unsupported("channel operation %s", in)
	case *ssa.SliceToArrayPointer:
		unsupported("slice to array pointer conversion")
	default:
		unsupported("instruction %T %s", in, in)
	}
}

func (x *Exec) nilCheck(st *State, ptr *Term, pos token.Pos) {
	s := x.e.refSort()
	if ptr.op == "ctor" && ptr.sval != s+".null" {
		return
	}
	x.check(st, "nil pointer dereference", mkNot(x.e.isNull(ptr)), pos)
}

func (x *Exec) allocID(st *State) *Term {
	if st.spec {
		x.prog.specSeq++
		return mkInt(specBase - int64(x.prog.specSeq))
	}
	return st.alloc()
}

func (x *Exec) alloc(st *State, t types.Type) *Term {
	e := x.e
	id := x.allocID(st)
	st.store(place{root: e.rootKey(t), id: id, typ: t}, e.zero(t))
	if n, ok := t.(*types.Named); ok && !st.spec {
		for _, g := range x.prog.ghosts {
			if p, ok := g.param.(*types.Pointer); ok && types.Identical(p.Elem(), n) {
				st.ghostSet(g, e.obj(id), e.zero(g.ret))
			}
		}
	}
	return e.obj(id)
}

func (x *Exec) idx(fr *frame, st *State, v ssa.Value) *Term {
	return x.toIdx(st, v.Type(), x.val(fr, st, v))
}

func (x *Exec) toIdx(st *State, t types.Type, v *Term) *Term {
	if x.e.bv {
		return st.convInt(t, types.Typ[types.Int], v)
	}
	return v
}

func (x *Exec) inRange(i, n *Term) *Term {
	if x.e.bv {
		return mk("bvult", "Bool", i, n)
	}
	return mkAnd(mkLe(mkInt(0), i), mkLt(i, n))
}

func (x *Exec) addIdx(a, b *Term) *Term {
	if x.e.bv {
		return bvBin("bvadd", a, b)
	}
	return mkAdd(a, b)
}
func (x *Exec) subIdx(a, b *Term) *Term {
	if x.e.bv {
		return bvBin("bvsub", a, b)
	}
	return mkSub(a, b)
}
func (x *Exec) leIdx(a, b *Term) *Term {
	if x.e.bv {
		return bvle(a, b)
	}
	return mkLe(a, b)
}

func (x *Exec) indexAddr(st *State, t types.Type, a, i *Term, pos token.Pos) *Term {
	e := x.e
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x.check(st, "index out of range", x.inRange(i, e.slLen(a)), pos)
		return e.elemRef(e.slBk(a), x.addIdx(e.slOff(a), i))
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		x.nilCheck(st, a, pos)
		x.check(st, "index out of range", x.inRange(i, e.idxLit(arr.Len())), pos)
		if a.op == "ctor" && a.sval != e.refSort()+".obj" {
			unsupported("element address of an array inside a struct")
		}
		return e.elemRef(e.oid(a), i)
	}
	unsupported("index address of %s", t)
	return nil
}

func (x *Exec) slice(fr *frame, st *State, v *ssa.Slice) *Term {
	e := x.e
	a := x.val(fr, st, v.X)
	opt := func(w ssa.Value, d *Term) *Term {
		if w == nil {
			return d
		}
		return x.idx(fr, st, w)
	}
	z := e.idxLit(0)
	switch u := v.X.Type().Underlying().(type) {
	case *types.Slice:
		lo := opt(v.Low, z)
		hi := opt(v.High, e.slLen(a))
		mx := opt(v.Max, e.slCap(a))
		x.check(st, "slice bounds out of range", mkAnd(x.leIdx(z, lo), x.leIdx(lo, hi), x.leIdx(hi, mx), x.leIdx(mx, e.slCap(a))), v.Pos())
		return e.mkSlice(e.slBk(a), x.addIdx(e.slOff(a), lo), x.subIdx(hi, lo), x.subIdx(mx, lo))
	case *types.Pointer:
		n := e.idxLit(u.Elem().Underlying().(*types.Array).Len())
		x.nilCheck(st, a, v.Pos())
		lo := opt(v.Low, z)
		hi := opt(v.High, n)
		mx := opt(v.Max, n)
		x.check(st, "slice bounds out of range", mkAnd(x.leIdx(z, lo), x.leIdx(lo, hi), x.leIdx(hi, mx), x.leIdx(mx, n)), v.Pos())
		if a.op == "ctor" && a.sval != e.refSort()+".obj" {
			unsupported("slice of an array inside a struct")
		}
		return e.mkSlice(e.oid(a), lo, x.subIdx(hi, lo), x.subIdx(mx, lo))
	default: // string
		lo := opt(v.Low, z)
		hi := opt(v.High, strLen(a))
		x.check(st, "slice bounds out of range", mkAnd(mkLe(z, lo), mkLe(lo, hi), mkLe(hi, strLen(a))), v.Pos())
		r := mkSubstr(a, lo, mkSub(hi, lo))
		if r.op == "str.substr" {
			st.assume(mkImplies(mkAnd(mkLe(z, lo), mkLe(lo, hi), mkLe(hi, strLen(a))), mkEq(strLen(r), mkSub(hi, lo))))
		}
		return r
	}
}

func (x *Exec) unop(fr *frame, st *State, v *ssa.UnOp) *Term {
	e := x.e
	a := x.val(fr, st, v.X)
	switch v.Op {
	case token.NOT:
		return mkNot(a)
	case token.SUB:
		if _, ok := isFloat(v.Type()); ok {
			return mk("fp.neg", a.sort, a)
		}
		return st.intOp(token.SUB, v.Type(), e.intLit(v.Type(), big.NewInt(0)), a, nil)
	case token.XOR:
		w, s, _ := intInfo(v.Type())
		if e.bv {
			return mk("bvnot", a.sort, a)
		}
		if s {
			return mkSub(mkInt(-1), a)
		}
		return mkSub(mkBig(new(big.Int).Sub(pow2(w), big1)), a)
	case token.MUL:
		t := v.Type()
		if g, ok := v.X.(*ssa.Global); ok {
			if c, ok := x.prog.globalFunc(g); ok {
				return c
			}
		}
		x.nilCheck(st, a, v.Pos())
		x.guardCheck(st, a, v.Pos(), false)
		return st.load(e.place(a, t))
	case token.ARROW:
		unsupported("channel receive")
	}
	unsupported("unary %s", v.Op)
	return nil
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) binop(fr *frame, st *State, v *ssa.BinOp) *Term {
	e := x.e
	a, b := x.val(fr, st, v.X), x.val(fr, st, v.Y)
	t := v.X.Type()
	switch v.Op {
	case token.EQL, token.NEQ:
		r := x.equal(st, t, v.Y.Type(), a, b)
		if v.Op == token.NEQ {
			return mkNot(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isString(t) {
			switch v.Op {
			case token.LSS:
				return strLt(a, b)
			case token.GTR:
				return strLt(b, a)
			case token.LEQ:
				return mkNot(strLt(b, a))
			default:
				return mkNot(strLt(a, b))
			}
		}
		return st.cmp(v.Op, t, a, b)
	}
	if isString(t) && v.Op == token.ADD {
		return mkConcat(a, b)
	}
	if fs, ok := isFloat(t); ok {
		n := map[token.Token]string{token.ADD: "fp.add", token.SUB: "fp.sub", token.MUL: "fp.mul", token.QUO: "fp.div"}[v.Op]
		return mkUF("float."+n, fs, a, b)
	}
	if _, _, ok := intInfo(t); ok {
		if v.Op == token.QUO || v.Op == token.REM {
			x.check(st, "division by zero", mkNot(mkEq(b, e.intLit(v.Y.Type(), big.NewInt(0)))), v.Pos())
		}
		if (v.Op == token.SHL || v.Op == token.SHR) && !e.bv {
			x.check(st, "negative shift", mkLe(mkInt(0), b), v.Pos())
		}
		if v.Op == token.AND_NOT && !e.bv {
			r := mkUF("bitop.andnot", "Int", a, b)
			st.assume(e.rangeFact(t, r))
			return r
		}
		if p, ok := v.X.(*ssa.Phi); ok && !e.bv && v.Op == token.ADD && p.Comment == "rangeindex" && v.Block().Comment == "rangeindex.loop" && b.op == "int" {
			return mkAdd(a, b) // the counter of a range loop stays below a length
		}
		return st.intOp(v.Op, t, a, b, v.Y.Type())
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		switch v.Op {
		case token.AND, token.LAND:
			return mkAnd(a, b)
		case token.OR, token.LOR:
			return mkOr(a, b)
		}
	}
	unsupported("binop %s on %s", v.Op, t)
	return nil
}

func strLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.op == "str" && b.op == "str" {
		return mkBool(a.sval < b.sval)
	}
	return mk("str.<", "Bool", a, b)
}

func (x *Exec) equal(st *State, ta, tb types.Type, a, b *Term) *Term {
	e := x.e
	if _, ok := ta.Underlying().(*types.Interface); ok {
		if _, ok := tb.Underlying().(*types.Interface); !ok {
			b = x.mkIface(tb, b)
		}
		return mkEq(a, b)
	}
	if _, ok := tb.Underlying().(*types.Interface); ok {
		a = x.mkIface(ta, a)
		return mkEq(a, b)
	}
	if _, ok := isFloat(ta); ok {
		if a == b {
			return mkNot(mk("fp.isNaN", "Bool", a))
		}
		return mk("fp.eq", "Bool", a, b)
	}
	switch ta.Underlying().(type) {
	case *types.Slice:
		if b == e.zero(tb) {
			return mkEq(e.slBk(a), mkInt(0))
		}
		if a == e.zero(ta) {
			return mkEq(e.slBk(b), mkInt(0))
		}
	case *types.Signature:
		n := mkConst("nilfunc", "Func")
		if (a == n && b.op == "closure") || (b == n && a.op == "closure") {
			return tFalse
		}
	}
	return mkEq(a, b)
}

func (x *Exec) mkIface(t types.Type, v *Term) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	b := x.e.box(t)
	return mkCtor(b.ctor, x.e.ifaceSort(), v)
}

func (x *Exec) changeType(st *State, from, to types.Type, v *Term) *Term {
	e := x.e
	fs, ok := from.Underlying().(*types.Struct)
	if ok && e.rootKey(from) != e.rootKey(to) {
		var out []*Term
		for i := 0; i < fs.NumFields(); i++ {
			out = append(out, e.structField(from, v, i))
		}
		return e.mkStruct(to, out...)
	}
	var fe, te types.Type
	switch f := from.Underlying().(type) {
	case *types.Pointer:
		if t, ok := to.Underlying().(*types.Pointer); ok {
			fe, te = f.Elem(), t.Elem()
		}
	case *types.Slice:
		if t, ok := to.Underlying().(*types.Slice); ok {
			fe, te = f.Elem(), t.Elem()
		}
	}
	if fe != nil && e.rootKey(fe) != e.rootKey(te) {
		unsupported("conversion between pointers or slices of different memory roots: %s to %s", from, to)
	}
	return v
}

func (x *Exec) convert(st *State, from, to types.Type, v *Term) *Term {
	e := x.e
	_, _, fi := intInfo(from)
	_, _, ti := intInfo(to)
	ff, fok := isFloat(from)
	tf, tok := isFloat(to)
	switch {
	case fi && ti:
		return st.convInt(from, to, v)
	case fi && tok:
		if v.op == "int" && v.ival.IsInt64() {
			return fpLit(float64(v.ival.Int64()), tf)
		}
		return mkUF("int2float."+to.Underlying().String(), tf, v)
	case fok && ti:
		r := mkUF("float2int."+to.Underlying().String(), e.sortOf(to), v)
		st.assume(e.rangeFact(to, r))
		return r
	case fok && tok:
		if ff == tf {
			return v
		}
		return intern("idx:to_fp", tf, "(_ to_fp "+strings.TrimSuffix(strings.TrimPrefix(tf, "(_ FloatingPoint "), ")")+")", nil, []*Term{mk("RNE", "RoundingMode"), v}, nil, nil)
	case isString(from) && isString(to):
		return v
	case fi && isString(to):
		if v.op == "int" && v.ival.IsInt64() {
			return mkStr(string(rune(v.ival.Int64())))
		}
		if _, hi := st.interval(v, 4); hi != nil && hi.Cmp(big.NewInt(127)) <= 0 {
			return mk("str.from_code", "String", v)
		}
		return mkUF("rune2string", "String", v)
	}
	if sl, ok := from.Underlying().(*types.Slice); ok && isString(to) {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			bk := e.slBk(v)
			arr := st.elemArr(e.rootKey(sl.Elem()), "", sl.Elem(), bk)
			r := st.bytesToString(bk, arr, e.slOff(v), e.slLen(v))
			if t := x.textOf(st, from, v); t != nil {
				st.assume(mkEq(r, t))
			}
			return r
		}
		return mkUF("runes2string", "String", st.elemArr(e.rootKey(sl.Elem()), "", sl.Elem(), e.slBk(v)), e.slOff(v), e.slLen(v))
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		id := x.allocID(st)
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			var arr *Term
			if v.op == "uf" && v.sval == "bstr" && v.args[1].op == "int" && v.args[1].ival.Sign() == 0 {
				arr = v.args[0] // copy of the bytes
			} else {
				arr = strArr(v)
			}
			st.setElemArr(e.rootKey(sl.Elem()), "", sl.Elem(), id, arr)
			return e.mkSlice(id, mkInt(0), strLen(v), strLen(v))
		}
		arr := mkUF("runearr", arraySort("Int", "Int"), v)
		st.setElemArr(e.rootKey(sl.Elem()), "", sl.Elem(), id, arr)
		n := mkUF("runecount", "Int", v)
		st.assume(mkAnd(mkLe(mkInt(0), n), mkLe(n, strLen(v))))
		return e.mkSlice(id, mkInt(0), n, n)
	}
	if e.sortOf(from) == e.sortOf(to) {
		return x.changeType(st, from, to, v)
	}
	unsupported("conversion %s -> %s", from, to)
	return nil
}

// ---------- interfaces ----------

// dynamic type of an interface term if known
func (x *Exec) dynType(st *State, v *Term) (types.Type, bool) {
	e := x.e
	if v.op == "ctor" {
		for _, b := range e.boxIDs {
			if b.ctor == v.sval {
				return b.typ, true
			}
		}
		return nil, v.sval == e.ifaceSort()+".nil"
	}
	for p := st.pc; p != nil; p = p.prev {
		if p.tag == 0 && p.t.op == "is" && p.t.args[0] == v {
			for _, b := range e.boxIDs {
				if b.ctor == p.t.sval {
					return b.typ, true
				}
			}
			if p.t.sval == e.ifaceSort()+".nil" {
				return nil, true
			}
		}
	}
	return nil, false
}

func (x *Exec) unbox(t types.Type, v *Term) *Term {
	b := x.e.box(t)
	return mkSel(b.ctor, 0, v)
}

func (x *Exec) typeAssert(fr *frame, st *State, v *ssa.TypeAssert) {
	e := x.e
	a := x.val(fr, st, v.X)
	var ok, val *Term
	if _, isI := v.AssertedType.Underlying().(*types.Interface); isI {
		ok = x.implements(st, a, v.AssertedType)
		val = a
		if v.CommaOk {
			val = mkIte(ok, a, e.inil())
		}
	} else {
		b := e.box(v.AssertedType)
		ok = mkIs(b.ctor, a)
		if st.refutes(ok) {
			ok = tFalse
		}
		val = mkSel(b.ctor, 0, a)
		if ok.op != "false" {
			st.wf(v.AssertedType, val)
		}
		if v.CommaOk {
			val = mkIte(ok, val, e.zero(v.AssertedType))
		}
	}
	if v.CommaOk {
		fr.tup[v] = []*Term{val, ok}
		return
	}
	x.check(st, "failed type assertion", ok, v.Pos())
	fr.env[v] = val
}

func (x *Exec) implements(st *State, a *Term, it types.Type) *Term {
	e := x.e
	iface := it.Underlying().(*types.Interface)
	if iface.NumMethods() == 0 {
		return mkNot(mkIs(e.ifaceSort()+".nil", a))
	}
	if a.op == "ite" {
		return mkIte(a.args[0], x.implements(st, a.args[1], it), x.implements(st, a.args[2], it))
	}
	if t, ok := x.dynType(st, a); ok {
		if t == nil {
			return tFalse
		}
		return mkBool(types.Implements(t, iface))
	}
	return mkAnd(mkNot(mkIs(e.ifaceSort()+".nil", a)), mkUF("impl."+sanitizeID(types.TypeString(it, nil)), "Bool", a))
}

// ---------- maps ----------

type mapMem struct {
	st       *State
	root     string
	ks, vs   string
	kt, vt   types.Type
	dk, vk   string
	lk       string
	ds, vsrt string
}

func (st *State) mapMem(t *types.Map) mapMem {
	e := st.e
	r := e.rootKey(t.Key()) + "=>" + types.TypeString(t.Elem(), nil)
	m := mapMem{st: st, root: r, ks: e.sortOf(t.Key()), vs: e.sortOf(t.Elem()), kt: t.Key(), vt: t.Elem()}
	m.dk, m.vk, m.lk = "M|"+r+"|dom", "M|"+r+"|val", "M|"+r+"|len"
	m.ds = arraySort("Int", arraySort(m.ks, "Bool"))
	m.vsrt = arraySort("Int", arraySort(m.ks, m.vs))
	return m
}
func (m mapMem) dom(id *Term) *Term {
	return mkSelect(m.st.memGet(m.dk, m.ds, id), id, arraySort(m.ks, "Bool"))
}
func (m mapMem) vals(id *Term) *Term {
	return mkSelect(m.st.memGet(m.vk, m.vsrt, id), id, arraySort(m.ks, m.vs))
}
func (m mapMem) len(id *Term) *Term {
	return mkSelect(m.st.memGet(m.lk, arraySort("Int", "Int"), id), id, "Int")
}
func (m mapMem) setDom(id, v *Term) {
	m.st.memSet(m.dk, id, mkStore(m.st.memGet(m.dk, m.ds, id), id, v))
}
func (m mapMem) setVals(id, v *Term) {
	m.st.memSet(m.vk, id, mkStore(m.st.memGet(m.vk, m.vsrt, id), id, v))
}
func (m mapMem) setLen(id, v *Term) {
	m.st.memSet(m.lk, id, mkStore(m.st.memGet(m.lk, arraySort("Int", "Int"), id), id, v))
}

func (st *State) mapGet(t *types.Map, m, k *Term) (val, ok *Term) {
	e := st.e
	mm := st.mapMem(t)
	ok = mkAnd(mkNot(mkEq(m, mkInt(0))), mkSelect(mm.dom(m), k, "Bool"))
	raw := mkSelect(mm.vals(m), k, mm.vs)
	st.wf(t.Elem(), raw)
	return mkIte(ok, raw, e.zero(t.Elem())), ok
}

func (x *Exec) lookup(fr *frame, st *State, v *ssa.Lookup) {
	a := x.val(fr, st, v.X)
	k := x.val(fr, st, v.Index)
	mt, ok := v.X.Type().Underlying().(*types.Map)
	if !ok {
		i := x.toIdx(st, v.Index.Type(), k)
		x.check(st, "string index out of range", x.inRange(i, strLen(a)), v.Pos())
		fr.env[v] = mkStrAtCode(a, i)
		x.byteFact(st, a, i, fr.env[v])
		return
	}
	val, okT := st.mapGet(mt, a, k)
	if v.CommaOk {
		fr.tup[v] = []*Term{val, okT}
	} else {
		fr.env[v] = val
	}
}

func (x *Exec) mapUpdate(st *State, mt *types.Map, m, k, v *Term, pos token.Pos) {
	x.check(st, "assignment to entry in nil map", mkNot(mkEq(m, mkInt(0))), pos)
	mm := st.mapMem(mt)
	had := mkSelect(mm.dom(m), k, "Bool")
	mm.setLen(m, mkAdd(mm.len(m), mkIte(had, mkInt(0), mkInt(1))))
	mm.setDom(m, mkStore(mm.dom(m), k, tTrue))
	mm.setVals(m, mkStore(mm.vals(m), k, v))
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	mm := st.mapMem(mt)
	had := mkAnd(mkNot(mkEq(m, mkInt(0))), mkSelect(mm.dom(m), k, "Bool"))
	mm.setLen(m, mkSub(mm.len(m), mkIte(had, mkInt(1), mkInt(0))))
	mm.setDom(m, mkStore(mm.dom(m), k, tFalse))
}

func (st *State) mapLen(t *types.Map, m *Term) *Term {
	mm := st.mapMem(t)
	l := mm.len(m)
	if l.op != "int" {
		st.assume(mkAnd(mkLe(mkInt(0), l), mkLe(l, mkBig(maxLen))))
		bv := newBVar("k", mm.ks)
		d := mm.dom(m)
		if d.op != "constarr" {
			st.assume(mkImplies(mkEq(l, mkInt(0)), mkQuant("forall", []*Term{bv}, mkNot(mkSelect(d, bv, "Bool")))))
			w := mkUF("mapwitness."+mm.ks, mm.ks, d)
			st.assume(mkImplies(mkLt(mkInt(0), l), mkSelect(d, w, "Bool")))
		}
	}
	return mkIte(mkEq(m, mkInt(0)), mkInt(0), l)
}

func (st *State) visitedKey(ks string) string { return "V|" + ks }
func (st *State) setVisited(id int, ks string, v *Term) {
	s := arraySort("Int", arraySort(ks, "Bool"))
	k := st.visitedKey(ks)
	i := mkInt(int64(id))
	st.memSet(k, i, mkStore(st.memGet(k, s, i), i, v))
}
func (st *State) visited(id int, ks string) *Term {
	s := arraySort("Int", arraySort(ks, "Bool"))
	i := mkInt(int64(id))
	return mkSelect(st.memGet(st.visitedKey(ks), s, i), i, arraySort(ks, "Bool"))
}

// V|count: number of keys visited; V|order: names the order in which this
// execution of the range visits the keys (visitpos(order, key) is the position)
func (st *State) setIterInt(k string, id int, v *Term) {
	i := mkInt(int64(id))
	st.memSet(k, i, mkStore(st.memGet(k, arraySort("Int", "Int"), i), i, v))
}
func (st *State) iterInt(k string, id int) *Term {
	i := mkInt(int64(id))
	return mkSelect(st.memGet(k, arraySort("Int", "Int"), i), i, "Int")
}
func (st *State) setStrPos(id int, v *Term) {
	i := mkInt(int64(id))
	st.memSet("V|strpos", i, mkStore(st.memGet("V|strpos", arraySort("Int", "Int"), i), i, v))
}
func (st *State) strPos(id int) *Term {
	i := mkInt(int64(id))
	return mkSelect(st.memGet("V|strpos", arraySort("Int", "Int"), i), i, "Int")
}

func (x *Exec) doNext(fr *frame, st *State, in *ssa.Next) []Outcome {
	e := x.e
	ii := fr.iters[in.Iter]
	if ii == nil {
		unsupported("next on unknown iterator")
	}
	if in.IsString {
		// bytes below 0x80 decode to themselves; wider runes are abstract
		s := ii.str
		pos := st.strPos(ii.id)
		st.assume(mkLe(mkInt(0), pos))
		end := st.clone()
		end.assume(mkLe(strLen(s), pos))
		st.assume(mkLt(pos, strLen(s)))
		c := mkStrAtCode(s, pos)
		st.wf(types.Typ[types.Uint8], c)
		r := mkUF("runeat", "Int", s, pos)
		w := mkUF("runewidth", "Int", s, pos)
		st.assume(mkImplies(mkLt(c, mkInt(128)), mkAnd(mkEq(r, c), mkEq(w, mkInt(1)))))
		st.assume(mkImplies(mkLe(mkInt(128), c), mkLe(mkInt(128), r)))
		st.assume(mkAnd(mkLe(mkInt(0), r), mkLe(r, mkInt(0x10ffff)), mkLe(mkInt(1), w), mkLe(w, mkInt(4)), mkLe(mkAdd(pos, w), strLen(s))))
		st.setStrPos(ii.id, mkAdd(pos, w))
		return []Outcome{{st: st, results: []*Term{tTrue, pos, r}}, {st: end, results: []*Term{tFalse, mkInt(0), mkInt(0)}}}
	}
	mm := st.mapMem(ii.mt)
	vis := st.visited(ii.id, mm.ks)
	end := st.clone()
	// end: every key present has been visited
	{
		k := newBVar("k", mm.ks)
		em := end.mapMem(ii.mt)
		end.assume(mkOr(mkEq(ii.m, mkInt(0)), mkQuant("forall", []*Term{k}, mkImplies(mkSelect(em.dom(ii.m), k, "Bool"), mkSelect(vis, k, "Bool")))))
	}
	key := st.symbolic("mapkey", ii.mt.Key())
	st.assume(mkNot(mkEq(ii.m, mkInt(0))))
	st.assume(mkSelect(mm.dom(ii.m), key, "Bool"))
	st.assume(mkNot(mkSelect(vis, key, "Bool")))
	st.assume(mkLe(mkInt(1), mm.len(ii.m)))
	val := mkSelect(mm.vals(ii.m), key, mm.vs)
	st.wf(ii.mt.Elem(), val)
	st.setVisited(ii.id, mm.ks, mkStore(vis, key, tTrue))
	cnt := st.iterInt("V|count", ii.id)
	st.assume(mkLe(mkInt(0), cnt))
	st.assume(mkEq(mkUF("visitpos", "Int", st.iterInt("V|order", ii.id), key), cnt))
	st.setIterInt("V|count", ii.id, mkAdd(cnt, mkInt(1)))
	return []Outcome{{st: st, results: []*Term{tTrue, key, val}}, {st: end, results: []*Term{tFalse, e.zero(ii.mt.Key()), e.zero(ii.mt.Elem())}}}
}

// ---------- ghosts ----------

type ghostDecl struct {
	name  string
	param types.Type // nil: global
	ret   types.Type
}

func (st *State) ghostKey(g *ghostDecl) (string, string) {
	is := "Int"
	if g.param != nil {
		is = st.e.sortOf(g.param)
	}
	return "G|" + g.name, arraySort(is, st.e.sortOf(g.ret))
}
func (st *State) ghostIdx(g *ghostDecl, v *Term) *Term {
	if g.param == nil {
		return mkInt(0)
	}
	return v
}
func (st *State) ghostGet(g *ghostDecl, v *Term) *Term {
	k, s := st.ghostKey(g)
	i := st.ghostIdx(g, v)
	r := mkSelect(st.memGet(k, s, i), i, st.e.sortOf(g.ret))
	st.wf(g.ret, r)
	return r
}
func (st *State) ghostSet(g *ghostDecl, v, val *Term) {
	k, s := st.ghostKey(g)
	i := st.ghostIdx(g, v)
	st.memSet(k, i, mkStore(st.memGet(k, s, i), i, val))
}

// byteFact: a byte of a string is a byte (only where the index is in range)
func (x *Exec) byteFact(st *State, s, i, v *Term) {
	if v.op == "int" {
		return
	}
	st.assume(mkImplies(x.inRange(i, strLen(s)), x.e.rangeFact(types.Typ[types.Uint8], v)))
}

// gcReload: in "return v, f(&v)" the order of reading v and calling f is not specified by the language;
// go/ssa reads v first, the gc compiler reads an address-taken variable after the calls. The code that runs is
// gc's, so the variable is read again at the return.
func gcReload(ret *ssa.Return, i int) *ssa.Alloc {
	u, ok := ret.Results[i].(*ssa.UnOp)
	if !ok || u.Op != token.MUL || u.Block() != ret.Block() {
		return nil
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	after := false
	for _, in := range ret.Block().Instrs {
		if in == ssa.Instruction(u) {
			after = true
			continue
		}
		if c, ok := in.(*ssa.Call); ok && after {
			for _, r := range ret.Results[i+1:] {
				if r == ssa.Value(c) {
					return a
				}
			}
		}
	}
	return nil
}
