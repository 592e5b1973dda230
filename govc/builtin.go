package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(st *State, rs ...*Term) []Outcome { return []Outcome{{st: st, results: rs}} }

func (x *Exec) builtin(fr *frame, st *State, name string, cc *ssa.CallCommon, args []*Term, pos token.Pos) []Outcome {
	e := x.e
	at := func(i int) types.Type { return cc.Args[i].Type() }
	switch name {
	case "len":
		switch u := at(0).Underlying().(type) {
		case *types.Slice:
			return one(st, e.slLen(args[0]))
		case *types.Map:
			return one(st, st.mapLen(u, args[0]))
		case *types.Array:
			return one(st, e.idxLit(u.Len()))
		case *types.Pointer:
			return one(st, e.idxLit(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Basic:
			if args[0].op != "str" {
				st.assume(mkLe(strLen(args[0]), mkBig(maxLen)))
			}
			return one(st, strLen(args[0]))
		}
	case "cap":
		if _, ok := at(0).Underlying().(*types.Slice); ok {
			return one(st, e.slCap(args[0]))
		}
	case "append":
		return one(st, x.doAppend(st, at(0), at(1), args[0], args[1]))
	case "copy":
		return one(st, x.doCopy(st, at(0), at(1), args[0], args[1]))
	case "delete":
		x.mapDelete(st, at(0).Underlying().(*types.Map), args[0], args[1])
		return one(st)
	case "clear":
		if mt, ok := at(0).Underlying().(*types.Map); ok {
			mm := st.mapMem(mt)
			mm.setDom(args[0], mkConstArr(arraySort(mm.ks, "Bool"), tFalse))
			mm.setLen(args[0], mkInt(0))
			return one(st)
		}
	case "min", "max":
		r := args[0]
		for i := 1; i < len(args); i++ {
			var c *Term
			if isString(at(0)) {
				c = strLt(args[i], r)
			} else {
				c = st.cmp(token.LSS, at(0), args[i], r)
			}
			if name == "max" {
				c = mkNot(c)
			}
			r = mkIte(c, args[i], r)
		}
		return one(st, r)
	case "close", "print", "println":
		return one(st)
	case "recover":
		if st.panicFn != nil && fr.fn == st.panicFn && !st.recovered {
			st.recovered = true
			v := st.symbolic("recovered", types.NewInterfaceType(nil, nil))
			st.assume(mkNot(mkEq(v, e.inil())))
			return one(st, v)
		}
		return one(st, e.inil())
	case "ssa:wrapnilchk":
		x.nilCheck(st, args[0], pos)
		return one(st, args[0])
	}
	unsupported("builtin %s", name)
	return nil
}

// textOf is the text of a byte slice: the contract package's function marked //govc:text, nil when there is none.
func (x *Exec) textOf(st *State, t types.Type, v *Term) *Term {
	fn := x.prog.textFn[x.u.c.specPkg]
	if fn == nil || x.e.bv {
		return nil
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
		return nil
	}
	if l := litBytes(st.elemArr(x.e.rootKey(sl.Elem()), "", sl.Elem(), x.e.slBk(v)), x.e.slOff(v), x.e.slLen(v)); l != nil {
		return l
	}
	r := mkUF(fmt.Sprintf("abs.%s#0", fn.String()), "String", x.flatten(st, t, v)...)
	st.assume(mkImplies(mkEq(x.e.slLen(v), mkInt(0)), mkEq(r, mkStr(""))))
	return r
}

// doAppend: the appended bytes' text follows the text before (//govc:text).
func (x *Exec) doAppend(st *State, ts, tt types.Type, s, t *Term) *Term {
	e := x.e
	before := x.textOf(st, ts, s)
	var more *Term
	if before != nil {
		if isString(tt) {
			more = t
		} else {
			more = x.textOf(st, tt, t)
			if n := e.slLen(t); more != nil && n.op == "int" && n.ival.IsInt64() && n.ival.Int64() == 1 {
				el := ts.Underlying().(*types.Slice).Elem()
				c := mkSelect(st.elemArr(e.rootKey(el), "", el, e.slBk(t)), e.slOff(t), e.sortOf(el))
				if c.op == "int" && c.ival.IsInt64() && c.ival.Int64() < 128 {
					more = mkStr(string(rune(c.ival.Int64())))
				}
			}
		}
	}
	r := x.doAppend1(st, ts, tt, s, t)
	if more != nil {
		if after := x.textOf(st, ts, r); after != nil {
			st.assume(mkEq(after, mkConcat(before, more)))
		}
	}
	return r
}

func (x *Exec) doAppend1(st *State, ts, tt types.Type, s, t *Term) *Term {
	e := x.e
	el := ts.Underlying().(*types.Slice).Elem()
	root := e.rootKey(el)
	bk, off, ln, cp := e.slBk(s), e.slOff(s), e.slLen(s), e.slCap(s)
	fromStr := isString(tt)
	var n *Term
	if fromStr {
		n = strLen(t)
	} else {
		n = e.slLen(t)
	}
	if isLit(n) && n.ival.Sign() == 0 {
		return s
	}
	nl := x.addIdx(ln, n)
	fits := x.leIdx(nl, cp)
	if cp.op == "int" && cp.ival.Sign() == 0 && n.op != "int" { // append(nil, ...): fits only when n = 0
		fits = mkEq(n, mkInt(0))
	}
	fresh := x.allocID(st)
	nbk := mkIte(fits, bk, fresh)
	st.leaves(el, "", func(path string, lt types.Type) {
		es := e.sortOf(lt)
		arr := st.elemArr(root, path, lt, bk)
		base := x.addIdx(off, ln)
		if isLit(n) && n.ival.IsInt64() && n.ival.Int64() <= 16 {
			for i := int64(0); i < n.ival.Int64(); i++ {
				var v *Term
				if fromStr {
					v = mkStrAtCode(t, mkInt(i))
				} else {
					src := st.elemArr(root, path, lt, e.slBk(t))
					v = mkSelect(src, x.addIdx(e.slOff(t), e.idxLit(i)), es)
				}
				arr = mkStore(arr, x.addIdx(base, e.idxLit(i)), v)
			}
		} else {
			if e.bv {
				unsupported("append of unknown length in bit-vector mode")
			}
			na := newSym("app", arraySort("Int", es))
			i := newBVar("i", "Int")
			st.assume(mkQuant("forall", []*Term{i}, mkImplies(mkAnd(mkLe(off, i), mkLt(i, base)), mkEq(mkSelect(na, i, es), mkSelect(arr, i, es)))))
			var src func(j *Term) *Term
			if fromStr {
				src = func(j *Term) *Term { return mkSelect(strArr(t), j, es) }
			} else {
				sa := st.elemArr(root, path, lt, e.slBk(t))
				src = func(j *Term) *Term { return mkSelect(sa, mkAdd(e.slOff(t), j), es) }
			}
			// index the new segment by its absolute position so that the trigger na[i] fires
			k := newBVar("i", "Int")
			st.assume(mkQuant("forall", []*Term{k}, mkImplies(mkAnd(mkLe(base, k), mkLt(k, mkAdd(off, nl))), mkEq(mkSelect(na, k, es), src(mkSub(k, base))))))
			if x.hasPath(fits) {
				// outside the window the shared backing is unchanged
				m := newBVar("i", "Int")
				st.assume(mkImplies(fits, mkQuant("forall", []*Term{m}, mkImplies(mkOr(mkLt(m, base), mkLe(mkAdd(off, nl), m)), mkEq(mkSelect(na, m, es), mkSelect(arr, m, es))))))
			}
			arr = na
		}
		st.setElemArr(root, path, lt, nbk, arr)
	})
	ncap := newSym("cap", e.idxSort())
	if e.bv {
		st.assume(mkAnd(bvle(nl, ncap), bvle(ncap, mkBV(maxLen, 64))))
	} else {
		st.assume(mkAnd(mkLe(nl, ncap), mkLe(ncap, mkBig(maxLen))))
	}
	return e.mkSlice(nbk, off, nl, mkIte(fits, cp, ncap))
}

func (x *Exec) hasPath(c *Term) bool { return c.op != "false" }

func (x *Exec) doCopy(st *State, td, ts types.Type, d, s *Term) *Term {
	e := x.e
	el := td.Underlying().(*types.Slice).Elem()
	root := e.rootKey(el)
	var n *Term
	str := isString(ts)
	if str {
		n = strLen(s)
	} else {
		n = e.slLen(s)
	}
	dn := e.slLen(d)
	if n != dn {
		if e.bv {
			n = mkIte(bvle(n, dn), n, dn)
		} else {
			n = mkIte(mkLe(n, dn), n, dn)
		}
	}
	if e.bv {
		unsupported("copy in bit-vector mode")
	}
	st.leaves(el, "", func(path string, lt types.Type) {
		es := e.sortOf(lt)
		arr := st.elemArr(root, path, lt, e.slBk(d))
		na := newSym("cpy", arraySort("Int", es))
		i := newBVar("i", "Int")
		lo, hi := e.slOff(d), mkAdd(e.slOff(d), n)
		in := mkAnd(mkLe(lo, i), mkLt(i, hi))
		var src *Term
		if str {
			src = mkSelect(strArr(s), mkSub(i, lo), es)
		} else {
			sa := st.elemArr(root, path, lt, e.slBk(s))
			src = mkSelect(sa, mkAdd(e.slOff(s), mkSub(i, lo)), es)
		}
		st.assume(mkQuant("forall", []*Term{i}, mkEq(mkSelect(na, i, es), mkIte(in, src, mkSelect(arr, i, es)))))
		st.setElemArr(root, path, lt, e.slBk(d), na)
	})
	return n
}

// ---------- intrinsics (trusted models of a few standard functions) ----------

func (x *Exec) intrinsic(st *State, fn *ssa.Function, args []*Term, pos token.Pos) ([]Outcome, bool) {
	n := fn.String()
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		x.lock(st, args[0], pos)
		return one(st), true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		x.unlock(st, args[0], pos)
		return one(st), true
	case "fmt.Sprintf":
		if r := x.sprintf(st, args[0], args[1]); r != nil {
			x.prog.trust("fmt.Sprintf with a constant format of %s/%d/%v verbs over strings and integers is the concatenation of its parts (engine model)")
			return one(st, r), true
		}
	case "strconv.Itoa":
		return one(st, itoaTerm(st, args[0])), true
	}
	if h, ok := intrinsics[n]; ok {
		return h(x, st, args, pos), true
	}
	if o := fn.Origin(); o != nil {
		if h, ok := genericIntrinsics[o.String()]; ok {
			return h(x, st, fn, args, pos)
		}
	}
	return nil, false
}

var intrinsics = map[string]func(x *Exec, st *State, args []*Term, pos token.Pos) []Outcome{
	"strings.HasPrefix": func(x *Exec, st *State, a []*Term, _ token.Pos) []Outcome {
		if a[0].op == "str" && a[1].op == "str" {
			return one(st, mkBool(strings.HasPrefix(a[0].sval, a[1].sval)))
		}
		return one(st, mk("str.prefixof", "Bool", a[1], a[0]))
	},
	"strings.HasSuffix": func(x *Exec, st *State, a []*Term, _ token.Pos) []Outcome {
		if a[0].op == "str" && a[1].op == "str" {
			return one(st, mkBool(strings.HasSuffix(a[0].sval, a[1].sval)))
		}
		return one(st, mk("str.suffixof", "Bool", a[1], a[0]))
	},
	"strings.Contains": func(x *Exec, st *State, a []*Term, _ token.Pos) []Outcome {
		if a[0].op == "str" && a[1].op == "str" {
			return one(st, mkBool(strings.Contains(a[0].sval, a[1].sval)))
		}
		return one(st, mk("str.contains", "Bool", a[0], a[1]))
	},
}

func init() {
	intrinsics["strconv.FormatInt"] = func(x *Exec, st *State, a []*Term, _ token.Pos) []Outcome {
		if a[1].op == "int" && a[1].ival.Int64() == 10 {
			return one(st, itoaTerm(st, a[0]))
		}
		return one(st, mkUF("strconv.FormatInt", "String", a[0], a[1]))
	}
	intrinsics["strconv.ParseInt"] = func(x *Exec, st *State, a []*Term, _ token.Pos) []Outcome {
		if a[1].op != "int" || a[1].ival.Int64() != 10 || a[2].op != "int" {
			unsupported("strconv.ParseInt with base other than 10")
		}
		return []Outcome{{st: st, results: x.parseInt(st, a[0], a[2].ival.Int64())}}
	}
	intrinsics["strconv.Atoi"] = func(x *Exec, st *State, a []*Term, _ token.Pos) []Outcome {
		return []Outcome{{st: st, results: x.parseInt(st, a[0], 64)}}
	}
}

// parseInt: r, err := strconv.ParseInt(s, 10, bits)
func (x *Exec) parseInt(st *State, s *Term, bits int64) []*Term {
	e := x.e
	if bits == 0 {
		bits = 64
	}
	x.prog.trust("strconv.ParseInt/FormatInt/Itoa in base 10 are inverse to each other (engine model)")
	lim := mkBig(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
	v := atoiTerm(s)
	good := mkAnd(isIntTerm(s), mkLe(mkSub(mkInt(0), lim), v), mkLt(v, lim))
	r := newSym("parsed", "Int")
	err := st.symbolic("parseErr", types.Universe.Lookup("error").Type())
	st.assume(mkEq(mkIs(e.ifaceSort()+".nil", err), good))
	st.assume(mkImplies(good, mkEq(r, v)))
	st.assume(e.rangeFact(types.Typ[types.Int64], r))
	return []*Term{r, err}
}

func isIntTerm(s *Term) *Term {
	if s.op == "str" {
		_, ok := new(big.Int).SetString(s.sval, 10)
		return mkBool(ok && !strings.Contains(s.sval, "_"))
	}
	if s.op == "uf" && s.sval == "itoa" {
		return tTrue
	}
	return mkUF("isint", "Bool", s)
}

func atoiTerm(s *Term) *Term {
	if s.op == "str" {
		if n, ok := new(big.Int).SetString(s.sval, 10); ok {
			return mkBig(n)
		}
	}
	if s.op == "uf" && s.sval == "itoa" {
		return s.args[0]
	}
	return mkUF("atoi", "Int", s)
}

var genericIntrinsics = map[string]func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos) ([]Outcome, bool){}

func itoaTerm(st *State, v *Term) *Term {
	if v.op == "int" {
		return mkStr(v.ival.String())
	}
	r := mkUF("itoa", "String", v)
	st.assume(mkEq(mkUF("atoi", "Int", r), v))
	st.assume(mkUF("isint", "Bool", r))
	st.assume(mkAnd(mkLe(mkInt(1), strLen(r)), mkLe(strLen(r), mkInt(20))))
	c := mkStrAtCode(r, mkInt(0))
	st.assume(mkOr(mkEq(c, mkInt('-')), mkAnd(mkLe(mkInt('0'), c), mkLe(c, mkInt('9')))))
	for _, l := range []string{"", "NULL"} {
		st.assume(mkNot(mkEq(r, mkStr(l))))
	}
	st.assume(mkEq(mkEq(r, mkStr("0")), mkEq(v, mkInt(0))))
	return r
}

// sprintf models constant formats with %s %d %v %q-free verbs.
func (x *Exec) sprintf(st *State, format, vargs *Term) *Term {
	e := x.e
	if format.op != "str" || e.bv {
		return nil
	}
	n := e.slLen(vargs)
	if n.op != "int" {
		return nil
	}
	el := types.Universe.Lookup("any").Type()
	var parts []*Term
	f := format.sval
	k := int64(0)
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				parts = append(parts, mkStr(f[i:]))
				i = len(f)
			} else {
				parts = append(parts, mkStr(f[i:i+j]))
				i += j - 1
			}
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			parts = append(parts, mkStr("%"))
			continue
		}
		verb := string(f[i])
		if f[i] == '0' || f[i] >= '1' && f[i] <= '9' || f[i] == '.' || f[i] == '#' || f[i] == '+' || f[i] == '-' {
			j := i
			for j < len(f) && !(f[j] >= 'a' && f[j] <= 'z' || f[j] >= 'A' && f[j] <= 'Z') {
				j++
			}
			if j >= len(f) {
				return nil
			}
			verb = f[i : j+1]
			i = j
		}
		if k >= n.ival.Int64() {
			return nil
		}
		v := st.load(place{elem: true, root: e.rootKey(el), id: e.slBk(vargs), idx: mkAdd(e.slOff(vargs), mkInt(k)), typ: el})
		k++
		p := x.fmtArg(st, verb, v)
		if p == nil {
			return nil
		}
		parts = append(parts, p)
	}
	if k != n.ival.Int64() {
		return nil
	}
	return mkConcat(parts...)
}

func (x *Exec) fmtArg(st *State, verb string, v *Term) *Term {
	e := x.e
	if v.op == "ite" {
		a, b := x.fmtArg(st, verb, v.args[1]), x.fmtArg(st, verb, v.args[2])
		if a == nil || b == nil {
			return nil
		}
		return mkIte(v.args[0], a, b)
	}
	if v.op != "ctor" {
		return mkUF("fmt."+verb, "String", v)
	}
	for _, b := range e.boxIDs {
		if b.ctor != v.sval {
			continue
		}
		if isString(b.typ) && (verb == "s" || verb == "v") && !hasStringer(b.typ) {
			return v.args[0]
		}
		if _, _, ok := intInfo(b.typ); ok && (verb == "d" || verb == "v" && !hasStringer(b.typ)) {
			return itoaTerm(st, v.args[0])
		}
		if _, ok := b.typ.Underlying().(*types.Slice); ok {
			return mkUF("fmt."+verb+"."+sanitizeID(b.typ.String()), "String", x.flatten(st, b.typ, v.args[0])...)
		}
		return mkUF("fmt."+verb+"."+sanitizeID(b.typ.String()), "String", v.args[0])
	}
	return mkUF("fmt."+verb, "String", v)
}

func hasStringer(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String", "Error", "Format", "GoString":
			return true
		}
	}
	return false
}

// ---------- monitors ----------

type Monitor struct {
	owner  *types.Named
	mutex  string
	guards map[string]bool
	ghosts []*ghostDecl
	inv    *ssa.Function
	step   *ssa.Function
	spec   string
}

func (x *Exec) monitorOf(addr *Term) (*Monitor, *Term, string) {
	e := x.e
	s := e.refSort()
	if addr.op != "ctor" || addr.sval != s+".fld" {
		return nil, nil, ""
	}
	// innermost first: find a level whose owner has a monitor
	for t := addr; t.op == "ctor" && t.sval == s+".fld"; t = t.args[0] {
		k := e.fieldsL[t.args[1].ival.Int64()-1]
		if n, ok := k.owner.(*types.Named); ok {
			for _, m := range x.prog.monitors {
				if types.Identical(m.owner, n) {
					return m, t.args[0], k.name
				}
			}
		}
	}
	return nil, nil, ""
}

func (x *Exec) lock(st *State, addr *Term, pos token.Pos) {
	m, base, f := x.monitorOf(addr)
	if m == nil || f != m.mutex {
		return
	}
	key := fmt.Sprintf("%d", base.id)
	x.check2(st, "safety", "mutex locked twice", mkBool(!st.held[key]), pos)
	nh := map[string]bool{key: true}
	for k, v := range st.held {
		nh[k] = v
	}
	st.held = nh
	// other goroutines may have changed the guarded state
	if !st.isFreshRef(base) {
		sg := st.hook
		st.hook = nil
		s := m.owner.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if m.guards[s.Field(i).Name()] {
				p := x.e.place(x.e.fld(base, x.e.fieldKey(m.owner, i)), s.Field(i).Type())
				st.leaves(s.Field(i).Type(), "", func(path string, lt types.Type) {
					q := p
					q.path += path
					q.typ = lt
					st.store(q, st.symbolic("locked."+s.Field(i).Name(), lt))
				})
			}
		}
		for _, g := range m.ghosts {
			st.ghostSet(g, base, st.symbolic("locked."+g.name, g.ret))
		}
		st.hook = sg
	}
	if m.inv != nil {
		if st.isFreshRef(base) {
			x.check2(st, "monitor", "lock invariant of "+m.owner.Obj().Name()+" established", x.evalPred(st, m.inv, []*Term{base}, nil, true), pos)
		}
		st.assume(x.evalPred(st, m.inv, []*Term{base}, nil, false))
	}
	st.lockMem = make(map[string]*Term, len(st.mem))
	for k, v := range st.mem {
		st.lockMem[k] = v
	}
}

func (x *Exec) unlock(st *State, addr *Term, pos token.Pos) {
	m, base, f := x.monitorOf(addr)
	if m == nil || f != m.mutex {
		return
	}
	key := fmt.Sprintf("%d", base.id)
	x.check2(st, "safety", "unlock of unlocked mutex", mkBool(st.held[key]), pos)
	if m.inv != nil {
		x.check2(st, "monitor", "lock invariant of "+m.owner.Obj().Name()+" restored at unlock", x.evalPred(st, m.inv, []*Term{base}, nil, true), pos)
	}
	if m.step != nil {
		x.check2(st, "monitor", "lock transition of "+m.owner.Obj().Name(), x.evalPred(st, m.step, []*Term{base}, st.lockMem, true), pos)
	}
	nh := map[string]bool{}
	for k, v := range st.held {
		if k != key {
			nh[k] = v
		}
	}
	st.held = nh
}

func (x *Exec) check2(st *State, cls, label string, c *Term, pos token.Pos) {
	if c.op == "true" || st.spec {
		return
	}
	x.oblige(st, cls, label, c, posOf(x.prog, pos), 0)
}

func (st *State) isFreshRef(r *Term) bool {
	s := st.e.refSort()
	if r.op != "ctor" || r.sval != s+".obj" {
		return false
	}
	b, _ := linear(r.args[0])
	if b == nil {
		return false
	}
	_, ok := topLevel[b]
	return ok
}

func (x *Exec) guardCheck(st *State, addr *Term, pos token.Pos, write bool) {
	if st.spec || x.inInit {
		return
	}
	m, base, f := x.monitorOf(addr)
	if m == nil || !m.guards[f] || st.isFreshRef(base) {
		return
	}
	if st.held[fmt.Sprintf("%d", base.id)] {
		return
	}
	x.oblige(st, "monitor", fmt.Sprintf("field %s.%s accessed without holding %s", m.owner.Obj().Name(), f, m.mutex), tFalse, posOf(x.prog, pos), 0)
}

// evalPred evaluates a boolean specification function in st (adding its side facts to st)
func (x *Exec) evalPred(st *State, fn *ssa.Function, args []*Term, pre map[string]*Term, goal bool) *Term {
	fs := newFactSet()
	if pre == nil {
		pre = st.mem
	}
	ss := st.specState(fs, pre)
	gm := x.u.goalMode
	x.u.goalMode = goal
	rs := x.specRun(fn, args, nil, ss, 0, nil)
	x.u.goalMode = gm
	for _, f := range fs.facts {
		st.assume(f)
	}
	return rs[0]
}
