package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range c.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	return res
}

type candidate struct {
	id   int
	name string
	eval func(x *Exec, fr *frame, st *State, goal bool) *Term // nil result: not evaluable
}

type loopCtx struct {
	*loopInfo
	active bool
	probe  bool
	cands  []*candidate
	pos    string
	lg     *writeLog
	entry  map[string]*Term // memory at loop entry
	unroll int
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

func loopPos(x *Exec, l *loopInfo) string {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return posOf(x.prog, in.Pos())
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return posOf(x.prog, in.Pos())
			}
		}
	}
	return ""
}

// does t mention a symbol created after mark (other than initial memory)?
func variant(t *Term, mark int, memo map[*Term]bool) bool {
	if t.id <= mark {
		return false
	}
	if v, ok := memo[t]; ok {
		return v
	}
	r := false
	if t.op == "const" {
		r = !strings.HasPrefix(t.sval, "H.")
	}
	for _, a := range t.args {
		if r {
			break
		}
		r = variant(a, mark, memo)
	}
	memo[t] = r
	return r
}

func (x *Exec) enterLoop(fr *frame, st *State, b, prev *ssa.BasicBlock, l *loopInfo) []Outcome {
	e := x.e
	x.setPhis(fr, st, b, prev) // initial values
	phis := headerPhis(b)
	init := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		init[p] = fr.env[p]
	}
	mark := termSeq
	entryTop := st.top()
	entryMem := map[string]*Term{}
	for k, v := range st.mem {
		entryMem[k] = v
	}

	type wr struct {
		sort  string
		whole bool
		ids   map[*Term]bool
	}
	written := map[string]*wr{}

	havoc := func(fr *frame, st *State) {
		st.bumpTop()
		for _, p := range phis {
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			// values that never change around the loop stay as they are
			same := true
			for i, pr := range b.Preds {
				if l.blocks[pr] && p.Edges[i] != p {
					same = false
				}
			}
			if same {
				continue
			}
			if p.Type().Underlying() == types.Typ[types.Invalid] {
				continue
			}
			if _, ok := p.Type().Underlying().(*types.Tuple); ok {
				unsupported("tuple phi")
			}
			fr.env[p] = st.symbolic("l."+nm, p.Type())
		}
		for _, k := range sortedKeys(written) {
			w := written[k]
			if w.whole {
				st.mem[k] = newSym("L."+e.modeSuffix()+k, w.sort)
				continue
			}
			for _, id := range sortedTerms(w.ids) {
				cur := st.memGet(k, w.sort, id)
				es := arrayElem(w.sort)
				v := newSym("lv."+k, es)
				st.mem[k] = mkStore(cur, id, v)
			}
		}
	}
	var lg *writeLog
	for iter := 0; ; iter++ {
		if iter > 12 {
			unsupported("loop effects do not stabilise at %s", loopPos(x, l))
		}
		f2, s2 := fr.clone(), st.clone()
		lg = &writeLog{parent: nil, recs: map[string]map[*Term]bool{}, sorts: map[string]string{}}
		s2.log = lg
		havoc(f2, s2)
		bodyTop := s2.topBase
		f2.loops[b] = &loopCtx{loopInfo: l, active: true, probe: true, lg: lg}
		x.mute++
		sp := x.paths
		x.runFrom(f2, s2, b, firstNonPhi(b))
		x.paths = sp
		x.mute--
		changed := false
		memo := map[*Term]bool{}
		for _, k := range sortedKeys(lg.recs) {
			ids := lg.recs[k]
			for _, id := range sortedTerms(ids) {
				if base, _ := linear(id); base != nil {
					if lv, ok := topLevel[base]; ok && lv >= topLevel[bodyTop] {
						continue // object allocated in this iteration
					}
				}
				w := written[k]
				if w == nil {
					w = &wr{sort: lg.sorts[k], ids: map[*Term]bool{}}
					written[k] = w
					changed = true
				}
				if variant(id, mark, memo) {
					if !w.whole {
						w.whole = true
						changed = true
					}
				} else if !w.ids[id] {
					w.ids[id] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	// the enclosing loop / function sees these writes too
	if st.log != nil {
		for _, k := range sortedKeys(written) {
			w := written[k]
			for _, id := range sortedTerms(w.ids) {
				st.logWrite(k, w.sort, id)
			}
			if w.whole {
				st.logWrite(k, w.sort, newSym("anyid", arrayIdx(w.sort)))
			}
		}
	}

	lc := &loopCtx{loopInfo: l, active: true, pos: loopPos(x, l), entry: entryMem}
	// ---- candidate invariants ----
	add := func(name string, f func(x *Exec, fr *frame, st *State, goal bool) *Term) {
		x.u.candSeq++
		lc.cands = append(lc.cands, &candidate{id: x.u.candSeq, name: name, eval: f})
	}
	phiVal := func(p *ssa.Phi) func(fr *frame) *Term { return func(fr *frame) *Term { return fr.env[p] } }
	for _, p := range phis {
		p := p
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		get := phiVal(p)
		iv0 := init[p]
		if _, _, ok := intInfo(p.Type()); ok && !e.bv {
			add(nm+" >= initial", func(x *Exec, fr *frame, st *State, _ bool) *Term { return mkLe(iv0, get(fr)) })
			for _, bd := range loopBounds(l, p) {
				bd := bd
				add(nm+" bound "+bd.String(), func(x *Exec, fr *frame, st *State, _ bool) *Term {
					n := x.boundVal(fr, st, bd.v, l)
					if n == nil {
						return nil
					}
					return mkOr(mkEq(get(fr), iv0), mkLe(mkAdd(get(fr), mkInt(int64(bd.plus))), n))
				})
				add(nm+" within bound "+bd.String(), func(x *Exec, fr *frame, st *State, _ bool) *Term {
					n := x.boundVal(fr, st, bd.v, l)
					if n == nil {
						return nil
					}
					return mkLe(mkAdd(get(fr), mkInt(int64(bd.plus))), n)
				})
			}
		}
		switch p.Type().Underlying().(type) {
		case *types.Slice:
			ibk := e.slBk(iv0)
			add(nm+" backing is fresh, nil or initial", func(x *Exec, fr *frame, st *State, _ bool) *Term {
				bk := e.slBk(get(fr))
				return mkOr(mkEq(bk, mkInt(0)), mkEq(bk, ibk), mkLe(entryTop, bk))
			})
			add(nm+" backing is fresh or nil", func(x *Exec, fr *frame, st *State, _ bool) *Term {
				bk := e.slBk(get(fr))
				return mkOr(mkEq(bk, mkInt(0)), mkLe(entryTop, bk))
			})
			add(nm+" backing was not allocated before the function", func(x *Exec, fr *frame, st *State, _ bool) *Term {
				bk := e.slBk(get(fr))
				return mkOr(mkEq(bk, mkInt(0)), mkLe(x.u.top0, bk))
			})
			if e.slOff(iv0).op == "int" || e.slOff(iv0).op == "bv" {
				io := e.slOff(iv0)
				add(nm+" offset unchanged", func(x *Exec, fr *frame, st *State, _ bool) *Term { return mkEq(e.slOff(get(fr)), io) })
			}
			if !e.bv {
				il := e.slLen(iv0)
				add(nm+" does not shrink", func(x *Exec, fr *frame, st *State, _ bool) *Term { return mkLe(il, e.slLen(get(fr))) })
			}
		case *types.Pointer, *types.Interface, *types.Map:
			add(nm+" unchanged", func(x *Exec, fr *frame, st *State, _ bool) *Term { return mkEq(get(fr), iv0) })
		}
	}
	for _, k := range sortedKeys(written) {
		w := written[k]
		k, w := k, w
		es := arrayElem(w.sort)
		if es == e.sliceSort() && !w.whole {
			for _, id := range sortedTerms(w.ids) {
				id := id
				ini := mkSelect(st.memGet(k, w.sort, id), id, es)
				add("slice cell "+k+" backing is fresh, nil or initial", func(x *Exec, fr *frame, st *State, _ bool) *Term {
					v := mkSelect(st.memGet(k, w.sort, id), id, es)
					bk := e.slBk(v)
					return mkOr(mkEq(bk, mkInt(0)), mkEq(bk, e.slBk(ini)), mkLe(entryTop, bk))
				})
				add("slice cell "+k+" backing is not caller memory", func(x *Exec, fr *frame, st *State, _ bool) *Term {
					bk := e.slBk(mkSelect(st.memGet(k, w.sort, id), id, es))
					return mkOr(mkEq(bk, mkInt(0)), mkLe(x.u.top0, bk))
				})
				if !e.bv {
					add("slice cell "+k+" well-formed", func(x *Exec, fr *frame, st *State, _ bool) *Term {
						v := mkSelect(st.memGet(k, w.sort, id), id, es)
						return mkAnd(mkLe(mkInt(0), e.slOff(v)), mkLe(mkInt(0), e.slLen(v)), mkLe(e.slLen(v), e.slCap(v)), mkLe(e.slLen(ini), e.slLen(v)))
					})
				}
			}
		}
		if !w.whole || arrayIdx(w.sort) != "Int" {
			continue
		}
		// frame: objects that existed before the loop and are not named write targets keep their contents
		var exc []*Term
		for _, id := range sortedTerms(w.ids) {
			exc = append(exc, id)
		}
		mkFrame := func(limit *Term, exc []*Term) func(x *Exec, fr *frame, st *State, goal bool) *Term {
			return func(x *Exec, fr *frame, st *State, goal bool) *Term {
				before := entryMem[k]
				if before == nil {
					before = mkConst("H."+e.modeSuffix()+k, w.sort)
				}
				now := st.mem[k]
				if now == nil || now == before {
					return tTrue
				}
				o := newBVar("o", "Int")
				conds := []*Term{mkLe(mkInt(0), o), mkLt(o, limit)}
				for _, z := range exc {
					conds = append(conds, mkNot(mkEq(o, z)))
				}
				return mkQuant("forall", []*Term{o}, mkImplies(mkAnd(conds...), mkEq(mkSelect(now, o, es), mkSelect(before, o, es))))
			}
		}
		add("frame "+k, mkFrame(entryTop, exc))
		var exc2 []*Term
		exc2 = append(exc2, exc...)
		for _, p := range phis {
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				if bk := e.slBk(init[p]); bk.op != "int" {
					exc2 = append(exc2, bk)
				}
			}
		}
		for _, kk := range sortedKeys(written) {
			ww := written[kk]
			if !ww.whole && arrayElem(ww.sort) == e.sliceSort() {
				for _, id := range sortedTerms(ww.ids) {
					exc2 = append(exc2, e.slBk(mkSelect(st.memGet(kk, ww.sort, id), id, e.sliceSort())))
				}
			}
		}
		if len(exc2) > len(exc) {
			add("frame except initial backings "+k, mkFrame(entryTop, exc2))
		}
		if x.u.top0 != entryTop {
			add("frame of caller memory "+k, mkFrame(x.u.top0, nil))
		}
	}
	// user templates
	for _, t := range x.prog.templatesFor(fr.fn) {
		t := t
		nested := false
		for h, o := range fr.loops {
			if h != b && o.blocks[b] {
				nested = true
			}
		}
		if t.depth == "outer" && nested || t.depth == "inner" && !nested {
			continue
		}
		add("template "+t.spec.Name(), func(x *Exec, fr *frame, st *State, goal bool) *Term { return x.evalTemplate(fr, st, t, l, goal, lc) })
	}

	// entry check
	if x.mute == 0 {
		for _, c := range lc.cands {
			es := st.clone()
			t := x.safeEval(c, fr, es, true)
			if t == nil {
				x.u.dropCand(c.id)
				continue
			}
			if t.op != "true" {
				x.obligeParts(es, "loop invariant ("+c.name+") holds on entry", t, lc.pos, c.id)
			}
		}
	}
	// arbitrary iteration
	havoc(fr, st)
	for _, c := range lc.cands {
		t := x.safeEval(c, fr, st, false)
		if t == nil {
			x.u.dropCand(c.id)
			continue
		}
		st.assumeTag(t, c.id)
	}
	fr.loops[b] = lc
	outs := x.runFrom(fr, st, b, firstNonPhi(b))
	return outs
}

func (x *Exec) safeEval(c *candidate, fr *frame, st *State, goal bool) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				if strings.HasPrefix(c.name, "template") {
					x.u.note("loop template " + c.name + " not applicable: " + u.msg)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.eval(x, fr, st, goal)
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *Exec) backEdge(fr *frame, st *State, b, prev *ssa.BasicBlock, lc *loopCtx) []Outcome {
	if lc.probe {
		return nil
	}
	x.setPhis(fr, st, b, prev)
	if x.mute == 0 {
		for _, c := range lc.cands {
			if x.u.dropped[c.id] {
				continue
			}
			es := st.clone()
			t := x.safeEval(c, fr, es, true)
			if t == nil {
				x.u.dropCand(c.id)
				continue
			}
			if t.op != "true" {
				x.obligeParts(es, "loop invariant ("+c.name+") preserved", t, lc.pos, c.id)
			}
		}
		x.u.backEdges++
	}
	return nil
}

type loopBound struct {
	v    ssa.Value
	plus int
}

func (b loopBound) String() string { return fmt.Sprintf("%s+%d", b.v.Name(), b.plus) }

// comparisons of phi (or phi+c) with loop-invariant values
func loopBounds(l *loopInfo, p *ssa.Phi) []loopBound {
	var out []loopBound
	seen := map[string]bool{}
	off := func(v ssa.Value) (int, bool) {
		if v == p {
			return 0, true
		}
		if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == p {
			if c, ok := bo.Y.(*ssa.Const); ok {
				if i, ok := constant.Int64Val(c.Value); ok {
					return int(i), true
				}
			}
		}
		return 0, false
	}
	for _, b := range p.Parent().Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			var other ssa.Value
			var k int
			if o, ok := off(bo.X); ok {
				other, k = bo.Y, o
			} else if o, ok := off(bo.Y); ok {
				other, k = bo.X, o
			} else {
				continue
			}
			switch bo.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, plus := range []int{k, 0, 1} {
				key := fmt.Sprintf("%p%d", other, plus)
				if !seen[key] {
					seen[key] = true
					out = append(out, loopBound{other, plus})
				}
			}
		}
	}
	return out
}

// value of a bound at the loop header: defined outside the loop, or len() of something defined outside
func (x *Exec) boundVal(fr *frame, st *State, v ssa.Value, l *loopInfo) *Term {
	if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && l.blocks[in.Block()] {
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := c.Call.Args[0]
				if ai, ok := a.(ssa.Instruction); ok && l.blocks[ai.Block()] {
					if _, isPhi := a.(*ssa.Phi); !isPhi || ai.Block() != l.header {
						return nil
					}
				}
				av := x.val(fr, st, a)
				switch a.Type().Underlying().(type) {
				case *types.Slice:
					return x.e.slLen(av)
				case *types.Basic:
					return strLen(av)
				}
			}
		}
		return nil
	}
	return x.val(fr, st, v)
}

// ---------- user templates ----------

type Template struct {
	spec   *ssa.Function
	target *ssa.Function
	any    bool // applies to every function of the package
	names  []string
	depth  string // "outer" or "inner" loops only
}

func (x *Exec) evalTemplate(fr *frame, st *State, t *Template, l *loopInfo, goal bool, lc *loopCtx) *Term {
	var args []*Term
	used := map[ssa.Value]bool{}
	for _, p := range t.spec.Params {
		v := x.resolveName(fr, st, p.Name(), p.Type(), l, used)
		if v == nil {
			unsupported("cannot resolve %s", p.Name())
		}
		args = append(args, v)
	}
	fs := newFactSet()
	ss := st.specState(fs, x.u.preMem)
	ss.preTop = x.u.top0
	ss.entryMem = lc.entry
	gm := x.u.goalMode
	x.u.goalMode = goal
	x.u.curIters = nil
	for v, ii := range fr.iters {
		if r, ok := v.(*ssa.Range); ok && ii.m != nil {
			inLoop := false
			for _, in := range *r.Referrers() {
				if n, ok := in.(*ssa.Next); ok && l.blocks[n.Block()] {
					inLoop = true
				}
			}
			if inLoop {
				x.u.curIters = append(x.u.curIters, ii)
			}
		}
	}
	defer func() { x.u.goalMode = gm }()
	rs := x.specRun(t.spec, args, nil, ss, 0, nil)
	for _, f := range fs.facts {
		st.assume(f)
	}
	return rs[0]
}

func (x *Exec) resolveName(fr *frame, st *State, name string, typ types.Type, l *loopInfo, used map[ssa.Value]bool) *Term {
	e := x.e
	okType := func(t types.Type) bool {
		return types.Identical(t, typ) || e.sortOf(t) == e.sortOf(typ) && !isMathint(typ)
	}
	phis := headerPhis(l.header)
	if strings.HasPrefix(name, "in_") { // a parameter's value at function entry
		for i, p := range fr.fn.Params {
			if p.Name() == name[3:] && okType(p.Type()) {
				return fr.args[i]
			}
		}
	}
	if name == "rangeidx" || name == "done" {
		for _, p := range phis {
			if p.Comment == "rangeindex" {
				return mkAdd(fr.env[p], mkInt(1))
			}
		}
		// counting loop from 0
		for _, p := range phis {
			if _, _, ok := intInfo(p.Type()); !ok {
				continue
			}
			for i, pr := range l.header.Preds {
				if !l.blocks[pr] {
					if c, ok := p.Edges[i].(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "0" {
						for j, pr2 := range l.header.Preds {
							if l.blocks[pr2] {
								if bo, ok := p.Edges[j].(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == p {
									return fr.env[p]
								}
							}
						}
					}
				}
			}
		}
		return nil
	}
	for _, p := range phis {
		if p.Comment == name && okType(p.Type()) {
			used[p] = true
			return fr.env[p]
		}
	}
	for i, p := range fr.fn.Params {
		if p.Name() == name && okType(p.Type()) {
			// a parameter that is reassigned lives in a phi with the same name, handled above
			return fr.args[i]
		}
	}
	for i, p := range fr.fn.FreeVars {
		if p.Name() == name {
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok && okType(pt.Elem()) {
				return st.load(e.place(fr.free[i], pt.Elem()))
			}
		}
	}
	if name == "ranged" { // the slice a range loop runs over
		for _, in := range l.header.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && bo.Op == token.LSS {
				if c, ok := bo.Y.(*ssa.Call); ok && len(c.Call.Args) == 1 && okType(c.Call.Args[0].Type()) {
					return x.val(fr, st, c.Call.Args[0])
				}
			}
		}
	}
	for _, a := range fr.args { // variables captured by a function argument
		if a != nil && a.op == "closure" {
			for j, p := range a.fn.FreeVars {
				if p.Name() == name {
					if pt, ok := p.Type().Underlying().(*types.Pointer); ok && okType(pt.Elem()) {
						return st.load(e.place(a.args[j], pt.Elem()))
					}
				}
			}
		}
	}
	// named locals
	for v, t := range fr.env {
		if a, ok := v.(*ssa.Alloc); ok && a.Comment == name {
			pt := a.Type().Underlying().(*types.Pointer).Elem()
			if okType(pt) {
				return st.load(e.place(t, pt))
			}
			if types.Identical(a.Type(), typ) {
				return t
			}
		}
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.DebugRef)
			if !ok || d.IsAddr {
				continue
			}
			if o := d.Object(); o != nil && o.Name() == name && okType(d.X.Type()) {
				if vi, ok := d.X.(ssa.Instruction); ok && l.blocks[vi.Block()] {
					continue
				}
				if v, ok := fr.env[d.X]; ok {
					return v
				}
				if c, ok := d.X.(*ssa.Const); ok {
					return x.val(fr, st, c)
				}
			}
		}
	}
	// unique unnamed match by type among loop phis, then parameters
	var cand []*ssa.Phi
	for _, p := range phis {
		if !used[p] && types.Identical(p.Type(), typ) && p.Comment != "rangeindex" {
			cand = append(cand, p)
		}
	}
	if len(cand) == 1 {
		used[cand[0]] = true
		return fr.env[cand[0]]
	}
	var pc []int
	for i, p := range fr.fn.Params {
		if types.Identical(p.Type(), typ) {
			pc = append(pc, i)
		}
	}
	if len(cand) == 0 && len(pc) == 1 {
		return fr.args[pc[0]]
	}
	var ac []*Term
	for v, t := range fr.env {
		if a, ok := v.(*ssa.Alloc); ok {
			pt := a.Type().Underlying().(*types.Pointer).Elem()
			if types.Identical(pt, typ) {
				ac = append(ac, st.load(e.place(t, pt)))
			}
		}
	}
	if len(cand) == 0 && len(pc) == 0 && len(ac) == 1 {
		return ac[0]
	}
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedTerms(m map[*Term]bool) []*Term {
	r := make([]*Term, 0, len(m))
	for t := range m {
		if t != nil {
			r = append(r, t)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// obligeParts asks for every conjunct of a candidate on its own.
func (x *Exec) obligeParts(st *State, label string, t *Term, pos string, cand int) {
	if t.op != "and" {
		x.oblige(st, "invariant", label, t, pos, cand)
		return
	}
	for i, a := range t.args {
		if a.op == "true" {
			continue
		}
		x.oblige(st, "invariant", fmt.Sprintf("%s (part %d of %d)", label, i+1, len(t.args)), a, pos, cand)
	}
}
