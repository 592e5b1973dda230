package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"math"
	"math/big"
)

func mathFloat64bits(f float64) uint64 { return math.Float64bits(f) }
func mathFloat32bits(f float32) uint32 { return math.Float32bits(f) }

// pcNode is a persistent list of assumed facts.
type pcNode struct {
	t    *Term
	tag  int // candidate id (loop invariants), 0 for ordinary facts
	prev *pcNode
	n    int
}

type writeRec struct {
	key string
	idx *Term // object / backing id
}

type writeLog struct {
	parent *writeLog
	recs   map[string]map[*Term]bool
	sorts  map[string]string
}

type State struct {
	e     *Eng
	mem   map[string]*Term
	old   map[string]*Term // memory of old(), nil when not inside old()
	pre   map[string]*Term // memory old() refers to
	pc    *pcNode
	log   *writeLog
	inOld bool

	topBase *Term
	topOff  int64

	spec     bool
	collect  *factSet // spec mode fact collector
	preTop   *Term    // allocation top at old()
	entryMem map[string]*Term
	lockMem  map[string]*Term
	held     map[string]bool
	hook     func(st *State, key string, id *Term)

	panicFn   *ssa.Function // the deferred function that runs because of a panic
	recovered bool          // it has called recover
}

type factSet struct {
	facts []*Term
	seen  map[*Term]bool
}

func (f *factSet) add(t *Term) {
	if t.op == "true" || f.seen[t] {
		return
	}
	f.seen[t] = true
	f.facts = append(f.facts, t)
}
func newFactSet() *factSet { return &factSet{seen: map[*Term]bool{}} }

func (st *State) clone() *State {
	n := *st
	n.mem = make(map[string]*Term, len(st.mem))
	for k, v := range st.mem {
		n.mem[k] = v
	}
	return &n
}

func (st *State) assume(t *Term) { st.assumeTag(t, 0) }
func (st *State) assumeTag(t *Term, tag int) {
	if t.op == "true" {
		return
	}
	if st.spec {
		st.collect.add(t)
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assumeTag(a, tag)
		}
		return
	}
	if tag == 0 && st.knows(t) {
		return
	}
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &pcNode{t: t, tag: tag, prev: st.pc, n: n}
}

func (st *State) knows(t *Term) bool {
	for p := st.pc; p != nil; p = p.prev {
		if p.t == t && p.tag == 0 {
			return true
		}
	}
	return false
}

// refutes: cheap syntactic check that t contradicts the path condition
func (st *State) refutes(t *Term) bool {
	if t.op == "false" {
		return true
	}
	n := mkNot(t)
	for p := st.pc; p != nil; p = p.prev {
		if p.tag != 0 {
			continue
		}
		if p.t == n {
			return true
		}
		if p.t.op == "is" && t.op == "is" && p.t.args[0] == t.args[0] && p.t.sval != t.sval {
			return true
		}
		if t.op == "and" {
			for _, a := range t.args {
				if p.t == mkNot(a) {
					return true
				}
			}
		}
	}
	return false
}

func (st *State) facts(dropped map[int]bool) []*Term {
	var out []*Term
	for p := st.pc; p != nil; p = p.prev {
		if p.tag != 0 && dropped[p.tag] {
			continue
		}
		out = append(out, p.t)
	}
	return out
}

// ---- allocation ----

var topSeq int

func newTop(lvName string) *Term {
	topSeq++
	t := newSym(lvName, "Int")
	topLevel[t] = topSeq
	return t
}

func (st *State) top() *Term { return mkAdd(st.topBase, mkInt(st.topOff)) }

func (st *State) alloc() *Term {
	t := st.top()
	st.topOff++
	return t
}

// bumpTop: an unknown number of objects may have been allocated
func (st *State) bumpTop() {
	nt := newTop("top")
	st.assume(mkLe(st.top(), nt))
	st.topBase = nt
	st.topOff = 0
}

func (st *State) bound(t *Term) {
	if t.op == "int" {
		return
	}
	if b, o := linear(t); b != nil {
		if _, ok := topLevel[b]; ok {
			_ = o
			return
		}
	}
	if _, ok := objUpper[t]; !ok && !t.hasBV {
		objUpper[t] = objBound{topLevel[st.topBase], st.topOff}
	}
}

// well-formedness facts for a value of Go type t that exists in st
func (st *State) wf(t types.Type, x *Term) {
	e := st.e
	if _, ok := e.opaqueStruct(t); ok {
		return
	}
	switch x.op {
	case "int", "bv", "str", "true", "false", "fp":
		return
	}
	if x.op == "ctor" {
		// structured value: facts of the parts
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				st.wf(u.Field(i).Type(), x.args[i])
			}
		case *types.Slice:
			// parts known
			st.wfSlice(x)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intInfo(t); ok {
			st.assume(e.rangeFact(t, x))
		}
		if u.Info()&types.IsString != 0 && !e.bv {
			st.assume(mkLe(strLen(x), mkBig(maxLen)))
		}
	case *types.Pointer:
		id := e.oid(x)
		st.bound(id)
		s := e.refSort()
		isObj := mkIs(s+".obj", x)
		st.assume(mkImplies(isObj, mkAnd(mkLe(mkInt(1), id), mkLt(id, st.top()))))
		if x.op == "const" || (x.op == "select" && x.args[0].op == "const") || x.op == "sel" {
			st.assume(mkOr(e.isNull(x), isObj))
		}
	case *types.Slice:
		st.wfSlice(x)
	case *types.Map, *types.Chan:
		st.bound(x)
		st.assume(mkAnd(mkLe(mkInt(0), x), mkLt(x, st.top())))
		if m, ok := u.(*types.Map); ok {
			_ = m
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			st.wf(u.Field(i).Type(), e.structField(t, x, i))
		}
	case *types.Tuple:
	}
}

func strLen(x *Term) *Term {
	if x.op == "str" {
		return mkInt(int64(len(x.sval)))
	}
	if x.op == "str.++" {
		s := mkInt(0)
		for _, a := range x.args {
			s = mkAdd(s, strLen(a))
		}
		return s
	}
	return mk("str.len", "Int", x)
}

func (st *State) wfSlice(x *Term) {
	e := st.e
	bk, off, ln, cp := e.slBk(x), e.slOff(x), e.slLen(x), e.slCap(x)
	st.bound(bk)
	st.assume(mkAnd(mkLe(mkInt(0), bk), mkLt(bk, st.top())))
	if e.bv {
		z := e.idxLit(0)
		mx := mkBV(maxLen, 64)
		st.assume(mkAnd(bvle(z, off), bvle(off, mx), bvle(z, ln), bvle(ln, cp), bvle(cp, mx)))
		st.assume(mkImplies(mkEq(bk, mkInt(0)), mkEq(cp, z)))
	} else {
		st.assume(mkAnd(mkLe(mkInt(0), off), mkLe(off, mkBig(maxLen)), mkLe(mkInt(0), ln), mkLe(ln, cp), mkLe(cp, mkBig(maxLen))))
		st.assume(mkImplies(mkEq(bk, mkInt(0)), mkEq(cp, mkInt(0))))
	}
}

func bvle(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == "bv" && b.op == "bv" {
		return mkBool(bvSigned(a).Cmp(bvSigned(b)) <= 0)
	}
	return mk("bvsle", "Bool", a, b)
}
func bvSigned(t *Term) *big.Int {
	w := bvWidth(t.sort)
	if t.ival.Cmp(pow2(w-1)) >= 0 {
		return new(big.Int).Sub(t.ival, pow2(w))
	}
	return t.ival
}

// symbolic value of type t existing in st
func (st *State) symbolic(name string, t types.Type) *Term {
	x := newSym(name, st.e.sortOf(t))
	st.wf(t, x)
	return x
}

// ---- memory ----

type place struct {
	elem bool
	root string
	path string
	id   *Term // object id or backing id
	idx  *Term
	typ  types.Type
	base *Term  // outermost enclosing object pointer (for monitors)
	top  string // named root type for diagnostics
}

func (e *Eng) fieldKey(owner types.Type, idx int) int {
	s := owner.Underlying().(*types.Struct)
	k := fmt.Sprintf("%s#%d", e.rootKey(owner), idx)
	if n, ok := e.fields[k]; ok {
		return n
	}
	n := len(e.fieldsL) + 1
	e.fields[k] = n
	e.fieldsL = append(e.fieldsL, fieldKey{st: e.rootKey(owner), owner: owner, idx: idx, name: s.Field(idx).Name()})
	return n
}

func (e *Eng) place(ptr *Term, t types.Type) place {
	s := e.refSort()
	if ptr.op == "ctor" {
		switch ptr.sval {
		case s + ".fld":
			k := e.fieldsL[ptr.args[1].ival.Int64()-1]
			p := e.place(ptr.args[0], k.owner)
			p.path += "." + k.name
			p.typ = t
			return p
		case s + ".elem":
			return place{elem: true, root: e.rootKey(t), id: ptr.args[0], idx: ptr.args[1], typ: t}
		}
	}
	if ptr.op == "ite" && !e.wholePtr(ptr) {
		unsupported("conditional interior pointer")
	}
	return place{root: e.rootKey(t), id: e.oid(ptr), typ: t, base: ptr}
}

// wholePtr: a conditional pointer none of whose alternatives points into another object
func (e *Eng) wholePtr(p *Term) bool {
	s := e.refSort()
	if p.op == "ite" {
		return e.wholePtr(p.args[1]) && e.wholePtr(p.args[2])
	}
	return p.op != "ctor" || p.sval != s+".fld" && p.sval != s+".elem"
}

func (e *Eng) memSort(p place, leaf string) string {
	if p.elem {
		return arraySort("Int", arraySort(e.idxSort(), leaf))
	}
	return arraySort("Int", leaf)
}

func (p place) key() string {
	k := "F"
	if p.elem {
		k = "E"
	}
	return k + "|" + p.root + "|" + p.path
}

func (p place) sub(name string, t types.Type) place {
	q := p
	q.path += "." + name
	q.typ = t
	return q
}

// objects created by specifications live at literal ids below specBase, which no program object has
const specBase = -1000000000000

func isSpecID(id *Term) bool {
	return id.op == "int" && id.ival.IsInt64() && id.ival.Int64() < specBase
}

func (st *State) memGet(key, sort string, id *Term) *Term {
	m := st.mem
	if st.inOld && !isSpecID(id) {
		m = st.pre
	}
	if t, ok := m[key]; ok {
		return t
	}
	return mkConst("H."+st.e.modeSuffix()+key, sort)
}

func (e *Eng) modeSuffix() string {
	if e.bv {
		return "bv."
	}
	return ""
}

func (st *State) memSet(key string, id *Term, v *Term) {
	if st.inOld && !isSpecID(id) {
		unsupported("write inside old()")
	}
	st.mem[key] = v
	if !isSpecID(id) {
		st.logWrite(key, v.sort, id)
		if st.hook != nil {
			st.hook(st, key, id)
		}
	}
}

func (st *State) logWrite(key, sort string, id *Term) {
	if st.log == nil {
		return
	}
	l := st.log
	if l.recs[key] == nil {
		l.recs[key] = map[*Term]bool{}
	}
	l.recs[key][id] = true
	l.sorts[key] = sort
}

func (st *State) isLeaf(t types.Type) bool {
	if _, ok := st.e.opaqueStruct(t); ok {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Struct:
		return false
	case *types.Array:
		return true
	}
	return true
}

// opaqueUse records how a library type is used: by field (1) or as a whole (2); not both.
func (e *Eng) opaqueUse(t types.Type, how int) {
	k, ok := e.opaqueStruct(t)
	if !ok {
		return
	}
	if e.opaqueUses == nil {
		e.opaqueUses = map[string]int{}
	}
	e.opaqueUses[k] |= how
	if e.opaqueUses[k] == 3 {
		unsupported("fields and whole values of opaque type %s", t)
	}
}

func (st *State) load(p place) *Term {
	e := st.e
	e.opaqueUse(p.typ, 2)
	if !st.isLeaf(p.typ) {
		s := p.typ.Underlying().(*types.Struct)
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, st.load(p.sub(s.Field(i).Name(), s.Field(i).Type())))
		}
		return e.mkStruct(p.typ, fs...)
	}
	if a, ok := p.typ.Underlying().(*types.Array); ok && !p.elem && p.path == "" {
		// whole array object: its elements live in the element heap
		q := place{elem: true, root: e.rootKey(a.Elem()), id: p.id, typ: a.Elem()}
		if !st.isLeaf(a.Elem()) {
			unsupported("load of array of structs")
		}
		ls := e.sortOf(a.Elem())
		h := st.memGet(q.key(), e.memSort(q, ls), p.id)
		return mkSelect(h, p.id, arraySort(e.idxSort(), ls))
	}
	leaf := e.sortOf(p.typ)
	ms := e.memSort(p, leaf)
	h := st.memGet(p.key(), ms, p.id)
	var v *Term
	if p.elem {
		v = mkSelect(mkSelect(h, p.id, arraySort(e.idxSort(), leaf)), p.idx, leaf)
	} else {
		v = mkSelect(h, p.id, leaf)
	}
	st.wf(p.typ, v)
	return v
}

func (st *State) store(p place, v *Term) {
	e := st.e
	e.opaqueUse(p.typ, 2)
	if !st.isLeaf(p.typ) {
		s := p.typ.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			st.store(p.sub(s.Field(i).Name(), s.Field(i).Type()), e.structField(p.typ, v, i))
		}
		return
	}
	if a, ok := p.typ.Underlying().(*types.Array); ok && !p.elem && p.path == "" {
		q := place{elem: true, root: e.rootKey(a.Elem()), id: p.id, typ: a.Elem()}
		if !st.isLeaf(a.Elem()) {
			s := a.Elem().Underlying().(*types.Struct)
			if v.op != "constarr" {
				unsupported("store of array of structs")
			}
			var rec func(q place, t types.Type)
			rec = func(q place, t types.Type) {
				if st.isLeaf(t) {
					q.typ = t
					ls := e.sortOf(t)
					h := st.memGet(q.key(), e.memSort(q, ls), p.id)
					st.memSet(q.key(), p.id, mkStore(h, p.id, mkConstArr(arraySort(e.idxSort(), ls), e.zero(t))))
					return
				}
				s := t.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					rec(q.sub(s.Field(i).Name(), s.Field(i).Type()), s.Field(i).Type())
				}
			}
			_ = s
			rec(q, a.Elem())
			return
		}
		ls := e.sortOf(a.Elem())
		h := st.memGet(q.key(), e.memSort(q, ls), p.id)
		st.memSet(q.key(), p.id, mkStore(h, p.id, v))
		return
	}
	leaf := e.sortOf(p.typ)
	if v.sort != leaf {
		panic(fmt.Sprintf("store sort mismatch: %s into %s (%s)", v.sort, leaf, p.key()))
	}
	ms := e.memSort(p, leaf)
	h := st.memGet(p.key(), ms, p.id)
	if p.elem {
		inner := mkSelect(h, p.id, arraySort(e.idxSort(), leaf))
		st.memSet(p.key(), p.id, mkStore(h, p.id, mkStore(inner, p.idx, v)))
	} else {
		st.memSet(p.key(), p.id, mkStore(h, p.id, v))
	}
}

// leaves enumerates (path, leaf type) of a type
func (st *State) leaves(t types.Type, path string, f func(path string, t types.Type)) {
	if st.isLeaf(t) {
		f(path, t)
		return
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		st.leaves(s.Field(i).Type(), path+"."+s.Field(i).Name(), f)
	}
}

// whole element array (per leaf) of a backing store
func (st *State) elemArr(root, path string, leaf types.Type, bk *Term) *Term {
	e := st.e
	p := place{elem: true, root: root, path: path, typ: leaf}
	ls := e.sortOf(leaf)
	h := st.memGet(p.key(), e.memSort(p, ls), bk)
	return mkSelect(h, bk, arraySort(e.idxSort(), ls))
}
func (st *State) setElemArr(root, path string, leaf types.Type, bk, arr *Term) {
	e := st.e
	p := place{elem: true, root: root, path: path, typ: leaf}
	ls := e.sortOf(leaf)
	h := st.memGet(p.key(), e.memSort(p, ls), bk)
	st.memSet(p.key(), bk, mkStore(h, bk, arr))
}
