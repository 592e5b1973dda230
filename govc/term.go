package main

// Terms: hash-consed SMT terms with a light simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Term struct {
	id     int
	op     string
	args   []*Term
	sort   string
	ival   *big.Int
	sval   string
	bound  []*Term
	fn     *ssa.Function // closure payload
	hasBV  bool          // contains a free bound variable
	nested bool          // contains quantifier
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func (t *Term) String() string {
	s := printTerm(t)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func intern(op, sort string, sval string, ival *big.Int, args []*Term, bound []*Term, fn *ssa.Function) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(sort)
	b.WriteByte('|')
	b.WriteString(sval)
	b.WriteByte('|')
	if ival != nil {
		b.WriteString(ival.String())
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if len(bound) > 0 {
		b.WriteByte(';')
		for _, a := range bound {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	if fn != nil {
		fmt.Fprintf(&b, "@%p", fn)
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: op, args: args, sort: sort, sval: sval, ival: ival, bound: bound, fn: fn}
	for _, a := range args {
		if a == nil {
			panic("nil arg in term " + op)
		}
		if a.hasBV {
			t.hasBV = true
		}
	}
	if op == "bvar" {
		t.hasBV = true
	}
	if op == "forall" || op == "exists" {
		t.hasBV = hasFreeBV(args[0], bound)
	}
	termTab[k] = t
	return t
}

func hasFreeBV(t *Term, bound []*Term) bool {
	seen := map[*Term]bool{}
	var rec func(*Term, []*Term) bool
	rec = func(x *Term, bd []*Term) bool {
		if !x.hasBV {
			return false
		}
		if x.op == "bvar" {
			for _, b := range bd {
				if b == x {
					return false
				}
			}
			return true
		}
		if len(bd) == len(bound) {
			if seen[x] {
				return false
			}
			seen[x] = true
		}
		nb := bd
		if x.op == "forall" || x.op == "exists" {
			nb = append(append([]*Term{}, bd...), x.bound...)
		}
		for _, a := range x.args {
			if rec(a, nb) {
				return true
			}
		}
		return false
	}
	return rec(t, bound)
}

func mk(op, sort string, args ...*Term) *Term { return intern(op, sort, "", nil, args, nil, nil) }

var (
	tTrue  = intern("true", "Bool", "", nil, nil, nil, nil)
	tFalse = intern("false", "Bool", "", nil, nil, nil, nil)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var symCount = map[string]int{}

// fresh symbol
func newSym(name, sort string) *Term {
	name = sanitize(name)
	symCount[name]++
	n := name
	if symCount[name] > 1 {
		n = fmt.Sprintf("%s!%d", name, symCount[name])
	}
	return intern("const", sort, n, nil, nil, nil, nil)
}

// named (non fresh) symbol
func mkConst(name, sort string) *Term {
	return intern("const", sort, sanitize(name), nil, nil, nil, nil)
}

var bvarSeq int

func newBVar(name, sort string) *Term {
	bvarSeq++
	return intern("bvar", sort, fmt.Sprintf("%s?%d", sanitize(name), bvarSeq), nil, nil, nil, nil)
}

// sanitize is injective: characters that SMT-LIB symbols cannot carry are escaped, never merged
func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!?$#/<>-*", r) {
			b.WriteRune(r)
		} else {
			fmt.Fprintf(&b, "~%x~", r)
		}
	}
	return b.String()
}

func mkInt(i int64) *Term    { return mkBig(big.NewInt(i)) }
func mkBig(i *big.Int) *Term { return intern("int", "Int", "", new(big.Int).Set(i), nil, nil, nil) }
func mkStr(s string) *Term   { return intern("str", "String", s, nil, nil, nil, nil) }
func bvSort(w int) string    { return fmt.Sprintf("(_ BitVec %d)", w) }
func mkBV(i *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v := new(big.Int).Mod(i, m)
	return intern("bv", bvSort(w), "", v, nil, nil, nil)
}
func bvWidth(sort string) int {
	if !strings.HasPrefix(sort, "(_ BitVec ") {
		return 0
	}
	n, _ := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(sort, "(_ BitVec "), ")"))
	return n
}

func mkNot(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return mk("not", "Bool", a)
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.op == "true" || seen[a] {
			return true
		}
		if a.op == "false" || seen[mkNot(a)] {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "Bool", out...)
}

func mkOr(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.op == "false" || seen[a] {
			return true
		}
		if a.op == "true" || seen[mkNot(a)] {
			return false
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "Bool", out...)
}

func mkImplies(a, b *Term) *Term {
	if a.op == "true" {
		return b
	}
	if a.op == "false" || b.op == "true" || a == b {
		return tTrue
	}
	if b.op == "false" {
		return mkNot(a)
	}
	return mk("=>", "Bool", a, b)
}

func isLit(t *Term) bool {
	switch t.op {
	case "int", "bv", "str", "true", "false":
		return true
	}
	return false
}

// linear decomposition base + const (Int sort only)
func linear(t *Term) (*Term, *big.Int) {
	if t.op == "int" {
		return nil, t.ival
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].op == "int" {
		return t.args[0], t.args[1].ival
	}
	return t, big.NewInt(0)
}

// distinct reports whether a and b are known to differ.
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if isLit(a) && isLit(b) {
		return true
	}
	if a.op == "ctor" && b.op == "ctor" {
		if a.sval != b.sval {
			return true
		}
		for i := range a.args {
			if distinct(a.args[i], b.args[i]) {
				return true
			}
		}
		return false
	}
	if a.sort == "Int" {
		ab, ac := linear(a)
		bb, bc := linear(b)
		if ab == bb {
			return ac.Cmp(bc) != 0
		}
		if objDistinct(a, b) || objDistinct(b, a) {
			return true
		}
	}
	return false
}

// object identifier bounds: upper[t] = (level, offset) meaning t < top_level + offset
type objBound struct {
	level int
	off   int64
}

var (
	objUpper = map[*Term]objBound{}
	topLevel = map[*Term]int{} // top symbols -> level
)

// x is bounded below the fresh id b
func objDistinct(x, b *Term) bool {
	base, off := linear(b)
	if base == nil {
		return false
	}
	lv, ok := topLevel[base]
	if !ok || off.Sign() < 0 {
		return false
	}
	if x.op == "int" { // globals and nil are small constants
		return true
	}
	xb, xo := linear(x)
	if xb != nil {
		if l2, ok := topLevel[xb]; ok {
			// fresh ids of distinct levels: levels are ordered, each new top is above everything before
			_ = xo
			return l2 != lv
		}
	}
	u, ok := objUpper[x]
	if !ok {
		return false
	}
	if u.level < lv {
		return true
	}
	if u.level == lv && off.Cmp(big.NewInt(u.off)) >= 0 {
		return true
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s vs %s: %s = %s", a.sort, b.sort, a, b))
	}
	if distinct(a, b) {
		return tFalse
	}
	if a.op == "ctor" && b.op == "ctor" && a.sval == b.sval {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, mkEq(a.args[i], b.args[i]))
		}
		return mkAnd(cs...)
	}
	if a.sort == "Bool" {
		if a.op == "true" {
			return b
		}
		if b.op == "true" {
			return a
		}
		if a.op == "false" {
			return mkNot(b)
		}
		if b.op == "false" {
			return mkNot(a)
		}
	}
	// ctor vs. symbol: if nullary constructor, use tester
	if b.op == "ctor" && len(b.args) == 0 {
		return mkIs(b.sval, a)
	}
	if a.op == "ctor" && len(a.args) == 0 {
		return mkIs(a.sval, b)
	}
	if a.op == "ite" && isLit(b) {
		// ite(c,x,y)=lit
		x, y := mkEq(a.args[1], b), mkEq(a.args[2], b)
		if isLit(x) || isLit(y) {
			return mkIte(a.args[0], x, y)
		}
	}
	if b.op == "ite" && isLit(a) {
		return mkEq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "Bool", a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c.op == "true" || a == b {
		return a
	}
	if c.op == "false" {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s vs %s", a.sort, b.sort))
	}
	if a.sort == "Bool" {
		if a.op == "true" {
			return mkOr(c, b)
		}
		if a.op == "false" {
			return mkAnd(mkNot(c), b)
		}
		if b.op == "true" {
			return mkOr(mkNot(c), a)
		}
		if b.op == "false" {
			return mkAnd(c, a)
		}
	}
	if c.op == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.op == "ctor" && b.op == "ctor" && a.sval == b.sval {
		var as []*Term
		for i := range a.args {
			as = append(as, mkIte(c, a.args[i], b.args[i]))
		}
		return mkCtor(a.sval, a.sort, as...)
	}
	return mk("ite", a.sort, c, a, b)
}

type poly struct {
	c  map[*Term]*big.Int
	ts []*Term
	k  *big.Int
}

func (p *poly) add(t *Term, f *big.Int) {
	switch {
	case t.op == "int":
		p.k.Add(p.k, new(big.Int).Mul(f, t.ival))
		return
	case t.op == "+":
		for _, x := range t.args {
			p.add(x, f)
		}
		return
	case t.op == "-" && len(t.args) == 2:
		p.add(t.args[0], f)
		p.add(t.args[1], new(big.Int).Neg(f))
		return
	case t.op == "*" && t.args[1].op == "int":
		p.add(t.args[0], new(big.Int).Mul(f, t.args[1].ival))
		return
	}
	if p.c[t] == nil {
		p.c[t] = new(big.Int)
		p.ts = append(p.ts, t)
	}
	p.c[t].Add(p.c[t], f)
}

func (p *poly) term() *Term {
	sort.Slice(p.ts, func(i, j int) bool { return p.ts[i].id < p.ts[j].id })
	var pos, neg *Term
	join := func(acc *Term, t *Term) *Term {
		if acc == nil {
			return t
		}
		return mk("+", "Int", acc, t)
	}
	for _, t := range p.ts {
		c := p.c[t]
		switch c.Sign() {
		case 1:
			pos = join(pos, mkMul(t, mkBig(c)))
		case -1:
			neg = join(neg, mkMul(t, mkBig(new(big.Int).Neg(c))))
		}
	}
	base := pos
	if neg != nil {
		if pos == nil {
			return mk("-", "Int", mkBig(p.k), neg)
		}
		base = mk("-", "Int", pos, neg)
	}
	if base == nil {
		return mkBig(p.k)
	}
	if p.k.Sign() == 0 {
		return base
	}
	return mk("+", "Int", base, mkBig(p.k))
}

func newPoly() *poly { return &poly{c: map[*Term]*big.Int{}, k: new(big.Int)} }

var bigOne, bigMinusOne = big.NewInt(1), big.NewInt(-1)

func mkAdd(a, b *Term) *Term {
	p := newPoly()
	p.add(a, bigOne)
	p.add(b, bigOne)
	return p.term()
}

func mkSub(a, b *Term) *Term {
	p := newPoly()
	p.add(a, bigOne)
	p.add(b, bigMinusOne)
	return p.term()
}

// rebuild makes the term with the same operator and new arguments.
func rebuild(t *Term, args []*Term) *Term {
	same := true
	for i := range args {
		if args[i] != t.args[i] {
			same = false
			break
		}
	}
	if same {
		return t
	}
	switch t.op {
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "=>":
		return mkImplies(args[0], args[1])
	case "=":
		return mkEq(args[0], args[1])
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "+":
		return mkAdd(args[0], args[1])
	case "-":
		if len(args) == 2 {
			return mkSub(args[0], args[1])
		}
	case "*":
		if len(args) == 2 && t.sort == "Int" {
			return mkMul(args[0], args[1])
		}
	case "<=":
		return mkLe(args[0], args[1])
	case "<":
		return mkLt(args[0], args[1])
	case "select":
		return mkSelect(args[0], args[1], t.sort)
	case "store":
		return mkStore(args[0], args[1], args[2])
	}
	return intern(t.op, t.sort, t.sval, t.ival, args, t.bound, t.fn)
}

func subst(t, v, r *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if x == v {
			return r
		}
		if !x.hasBV && x.op != "closure" {
			return x
		}
		if y, ok := memo[x]; ok {
			return y
		}
		for _, b := range x.bound {
			if b == v {
				return x
			}
		}
		args := make([]*Term, len(x.args))
		for i, a := range x.args {
			args[i] = rec(a)
		}
		y := rebuild(x, args)
		memo[x] = y
		return y
	}
	return rec(t)
}

// offsets lists the terms off such that v occurs as an array index or uninterpreted argument off+v.
func offsets(body, v *Term, bound []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	got := map[*Term]bool{}
	var rec func(x *Term, inner []*Term)
	rec = func(x *Term, inner []*Term) {
		if seen[x] || !x.hasBV && len(inner) == 0 {
			return
		}
		seen[x] = true
		if len(x.bound) > 0 {
			inner = append(append([]*Term{}, inner...), x.bound...)
		}
		idx := x.args
		if x.op == "select" {
			idx = x.args[1:]
		}
		if x.op == "select" || x.op == "uf" {
			for _, a := range idx {
				if a == v {
					if !got[tFalse] {
						got[tFalse] = true
						out = append(out, mkInt(0))
					}
					continue
				}
				if a.sort != "Int" || a.op != "+" && a.op != "-" {
					continue
				}
				p := newPoly()
				p.add(a, bigOne)
				if c := p.c[v]; c == nil || c.Cmp(bigOne) != 0 {
					continue
				}
				off := mkSub(a, v)
				bad := false
				for _, b := range append(append([]*Term{}, bound...), inner...) {
					if occursBV(off, b) {
						bad = true
					}
				}
				if bad || got[off] {
					continue
				}
				got[off] = true
				out = append(out, off)
			}
		}
		for _, a := range x.args {
			rec(a, inner)
		}
	}
	rec(body, nil)
	return out
}

// variants returns bodies equivalent under quantification, shifted so that array indices become bare variables.
func variants(bound []*Term, body *Term) []*Term {
	vs := []*Term{body}
	for _, b := range bound {
		if b.sort != "Int" {
			continue
		}
		var next []*Term
		for _, x := range vs {
			offs := offsets(x, b, bound)
			if len(offs) > 3 {
				offs = offs[:3]
			}
			if len(offs) == 0 {
				next = append(next, x)
			}
			for _, o := range offs {
				if o.op == "int" && o.ival.Sign() == 0 {
					next = append(next, x)
				} else {
					next = append(next, subst(x, b, mkSub(b, o)))
				}
			}
		}
		vs = next
		if len(vs) > 6 {
			vs = vs[:6]
		}
	}
	return vs
}

// expandQ rewrites an assertion so that quantifiers that the solver instantiates carry usable patterns.
func (e *expander) expand(t *Term, pol bool) *Term {
	if t.sort != "Bool" || !e.hasQuant(t) {
		return t
	}
	k := 0
	if pol {
		k = 1
	}
	if y, ok := e.memo[k][t]; ok {
		return y
	}
	y := t
	switch t.op {
	case "and", "or":
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = e.expand(a, pol)
		}
		y = rebuild(t, args)
	case "not":
		y = mkNot(e.expand(t.args[0], !pol))
	case "=>":
		y = mkImplies(e.expand(t.args[0], !pol), e.expand(t.args[1], pol))
	case "=":
		a, b := t.args[0], t.args[1]
		if a.sort == "Bool" {
			y = mkAnd(mkImplies(e.expand(a, !pol), e.expand(b, pol)), mkImplies(e.expand(b, !pol), e.expand(a, pol)))
		}
	case "ite":
		c := t.args[0]
		if !e.hasQuant(c) {
			y = mkIte(c, e.expand(t.args[1], pol), e.expand(t.args[2], pol))
		}
	case "forall", "exists":
		inst := (t.op == "forall") == pol // the solver instantiates it
		if !inst {
			y = mkQuant(t.op, t.bound, e.expand(t.args[0], pol))
			break
		}
		var out []*Term
		for _, v := range variants(t.bound, t.args[0]) {
			v = e.expand(v, pol)
			if t.op == "exists" {
				v = mkNot(v)
			}
			out = append(out, mkQuant("forall", t.bound, v))
		}
		y = mkAnd(out...)
		if t.op == "exists" {
			y = mkNot(y)
		}
	}
	e.memo[k][t] = y
	return y
}

type expander struct {
	memo [2]map[*Term]*Term
	q    map[*Term]bool
}

func newExpander() *expander {
	return &expander{memo: [2]map[*Term]*Term{{}, {}}, q: map[*Term]bool{}}
}

func (e *expander) hasQuant(t *Term) bool {
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	if v, ok := e.q[t]; ok {
		return v
	}
	r := false
	for _, a := range t.args {
		if e.hasQuant(a) {
			r = true
			break
		}
	}
	e.q[t] = r
	return r
}

func mkMul(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return mkBig(new(big.Int).Mul(a.ival, b.ival))
	}
	if a.op == "int" {
		a, b = b, a
	}
	if b.op == "int" {
		if b.ival.Sign() == 0 {
			return b
		}
		if b.ival.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return mk("*", "Int", a, b)
}

func mkLe(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	ab, ac := linear(a)
	bb, bc := linear(b)
	if ab == bb {
		return mkBool(ac.Cmp(bc) <= 0)
	}
	if a.op == "int" && a.ival.Sign() <= 0 && nonNeg(b) {
		return tTrue
	}
	return mk("<=", "Bool", a, b)
}
func mkLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	ab, ac := linear(a)
	bb, bc := linear(b)
	if ab == bb {
		return mkBool(ac.Cmp(bc) < 0)
	}
	if b.op == "int" && b.ival.Sign() <= 0 && nonNeg(a) {
		return tFalse
	}
	return mk("<", "Bool", a, b)
}

// syntactic non-negativity (slice lengths etc.)
func nonNeg(t *Term) bool {
	switch t.op {
	case "int":
		return t.ival.Sign() >= 0
	case "str.len":
		return true
	case "+":
		return nonNeg(t.args[0]) && nonNeg(t.args[1])
	case "ite":
		return nonNeg(t.args[1]) && nonNeg(t.args[2])
	}
	return false
}

func mkDivInt(a, b *Term) *Term { // SMT div
	if a.op == "int" && b.op == "int" && b.ival.Sign() > 0 {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.ival, b.ival, m)
		return mkBig(q)
	}
	return mk("div", "Int", a, b)
}
func mkModInt(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.ival.Sign() > 0 {
		return mkBig(new(big.Int).Mod(a.ival, b.ival))
	}
	return mk("mod", "Int", a, b)
}

func mkSelect(arr, idx *Term, sort string) *Term {
	for arr.op == "store" {
		if arr.args[1] == idx {
			return arr.args[2]
		}
		if distinct(arr.args[1], idx) || idx.sort == "Int" && isSpecID(arr.args[1]) != isSpecID(idx) {
			arr = arr.args[0]
			continue
		}
		break
	}
	if arr.op == "constarr" {
		return arr.args[0]
	}
	if arr.op == "ite" {
		x, y := arr.args[1], arr.args[2]
		if (x.op == "store" || y.op == "store" || x.op == "constarr" || y.op == "constarr") && !idx.hasBV {
			return mkIte(arr.args[0], mkSelect(x, idx, sort), mkSelect(y, idx, sort))
		}
	}
	return mk("select", sort, arr, idx)
}

func mkStore(arr, idx, v *Term) *Term {
	if arr.op == "store" && arr.args[1] == idx {
		return mkStore(arr.args[0], idx, v)
	}
	if v.op == "select" && v.args[0] == arr && v.args[1] == idx {
		return arr
	}
	return mk("store", arr.sort, arr, idx, v)
}

func mkConstArr(sort string, v *Term) *Term { return mk("constarr", sort, v) }

func arraySort(i, e string) string { return "(Array " + i + " " + e + ")" }

// elemSort of an array sort string
func arrayElem(sort string) string {
	parts := splitSexp(sort)
	return parts[2]
}
func arrayIdx(sort string) string { return splitSexp(sort)[1] }

func splitSexp(s string) []string {
	s = strings.TrimSuffix(strings.TrimPrefix(s, "("), ")")
	var out []string
	d := 0
	cur := ""
	for _, r := range s {
		switch {
		case r == '(':
			d++
			cur += string(r)
		case r == ')':
			d--
			cur += string(r)
		case r == ' ' && d == 0:
			out = append(out, cur)
			cur = ""
		default:
			cur += string(r)
		}
	}
	return append(out, cur)
}

func mkCtor(name, sort string, args ...*Term) *Term {
	// eta: mk(sel0(x), sel1(x)...) = x
	if len(args) > 0 && args[0].op == "sel" {
		x := args[0].args[0]
		d := ctorTab[name]
		if d != nil && len(d.fields) == len(args) && x.sort == sort && d.single {
			ok := true
			for i, a := range args {
				if a.op != "sel" || a.args[0] != x || a.sval != d.fields[i].name {
					ok = false
					break
				}
			}
			if ok {
				return x
			}
		}
	}
	return intern("ctor", sort, name, nil, args, nil, nil)
}

type ctorField struct{ name, sort string }
type ctorDecl struct {
	name   string
	sort   string
	fields []ctorField
	single bool // only constructor of its datatype
}

var (
	ctorTab   = map[string]*ctorDecl{}
	dtypes    = map[string][]*ctorDecl{} // sort -> constructors
	dtypeList []string
)

func declCtor(sort, name string, single bool, fields ...ctorField) *ctorDecl {
	if d, ok := ctorTab[name]; ok {
		return d
	}
	d := &ctorDecl{name: name, sort: sort, fields: fields, single: single}
	ctorTab[name] = d
	if _, ok := dtypes[sort]; !ok {
		dtypeList = append(dtypeList, sort)
	}
	dtypes[sort] = append(dtypes[sort], d)
	return d
}

func mkSel(ctor string, field int, x *Term) *Term {
	d := ctorTab[ctor]
	f := d.fields[field]
	if x.op == "ctor" {
		if x.sval == ctor {
			return x.args[field]
		}
	}
	if x.op == "ite" {
		a, b := x.args[1], x.args[2]
		if a.op == "ctor" || b.op == "ctor" || a.op == "ite" || b.op == "ite" {
			return mkIte(x.args[0], mkSel(ctor, field, a), mkSel(ctor, field, b))
		}
	}
	return intern("sel", f.sort, f.name, nil, []*Term{x}, nil, nil)
}

func mkIs(ctor string, x *Term) *Term {
	d := ctorTab[ctor]
	if d.single {
		return tTrue
	}
	if x.op == "ctor" {
		return mkBool(x.sval == ctor)
	}
	if x.op == "ite" {
		return mkIte(x.args[0], mkIs(ctor, x.args[1]), mkIs(ctor, x.args[2]))
	}
	return intern("is", "Bool", ctor, nil, []*Term{x}, nil, nil)
}

// uninterpreted functions
type ufDecl struct {
	name string
	args []string
	ret  string
}

var ufTab = map[string]*ufDecl{}

func mkUF(name, ret string, args ...*Term) *Term {
	name = sanitize(name)
	if len(args) == 0 {
		return intern("const", ret, name, nil, nil, nil, nil)
	}
	d, ok := ufTab[name]
	if !ok {
		d = &ufDecl{name: name, ret: ret}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		ufTab[name] = d
	} else {
		mis := len(d.args) != len(args) || d.ret != ret
		if !mis {
			for i := range args {
				if d.args[i] != args[i].sort {
					mis = true
				}
			}
		}
		if mis {
			sig := ret
			for _, a := range args {
				sig += "," + a.sort
			}
			return mkUF(name+"$"+sanitize(sig), ret, args...)
		}
	}
	return intern("uf", ret, name, nil, args, nil, nil)
}

func mkQuant(q string, bound []*Term, body *Term) *Term {
	if body.op == "true" || body.op == "false" {
		return body
	}
	var used []*Term
	for _, b := range bound {
		if occursBV(body, b) {
			used = append(used, b)
		}
	}
	if len(used) == 0 {
		return body
	}
	if q == "forall" && body.op == "and" {
		var cs []*Term
		for _, a := range body.args {
			cs = append(cs, mkQuant(q, used, a))
		}
		return mkAnd(cs...)
	}
	return intern(q, "Bool", "", nil, []*Term{body}, used, nil)
}

func occursBV(t, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == v {
			return true
		}
		if seen[x] || (!x.hasBV && x.op != "forall" && x.op != "exists") {
			return false
		}
		seen[x] = true
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---------- printing ----------

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 32 && c < 127 && c != '"' && c != '\\' {
			b.WriteByte(c)
		} else if c == '"' {
			b.WriteString(`""`)
		} else {
			fmt.Fprintf(&b, "\\u{%x}", c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func qsym(s string) string { return "|" + s + "|" }

type printer struct {
	names map[*Term]string
	out   *strings.Builder
}

func printTerm(t *Term) string {
	p := &printer{}
	return p.str(t)
}

func (p *printer) head(t *Term) string {
	switch t.op {
	case "ctor":
		return t.sval
	case "sel":
		return t.sval
	case "is":
		return "(_ is " + t.sval + ")"
	case "uf":
		return qsym(t.sval)
	case "constarr":
		return "(as const " + t.sort + ")"
	}
	if t.sval != "" && strings.HasPrefix(t.op, "idx:") { // indexed operator
		return t.sval
	}
	return t.op
}

func (p *printer) str(t *Term) string {
	if p.names != nil {
		if n, ok := p.names[t]; ok {
			return n
		}
	}
	switch t.op {
	case "const", "bvar":
		return qsym(t.sval)
	case "closure":
		return qsym(fmt.Sprintf("closure.%d", t.id))
	case "int":
		if t.ival.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.ival).String() + ")"
		}
		return t.ival.String()
	case "bv":
		return fmt.Sprintf("(_ bv%s %d)", t.ival.String(), bvWidth(t.sort))
	case "str":
		return smtStr(t.sval)
	case "true", "false":
		return t.op
	case "fp":
		return t.sval
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		for _, v := range t.bound {
			b.WriteString("(" + qsym(v.sval) + " " + v.sort + ")")
		}
		b.WriteString(") ")
		body := p.str(t.args[0])
		if pats := triggers(t); len(pats) > 0 {
			b.WriteString("(! " + body)
			for _, pt := range pats {
				b.WriteString(" :pattern (")
				for i, x := range pt {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(p.str(x))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
		return b.String()
	}
	if len(t.args) == 0 {
		return p.head(t)
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(p.head(t))
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(p.str(a))
	}
	b.WriteByte(')')
	return b.String()
}

// triggers picks select/uf subterms covering all bound variables (single-term patterns).
func triggers(t *Term) [][]*Term {
	if t.op != "forall" {
		return nil
	}
	var cands []*Term
	seen := map[*Term]bool{}
	covers := func(x *Term) bool {
		for _, b := range t.bound {
			if !occursBV(x, b) {
				return false
			}
		}
		return true
	}
	clean := func(x *Term) bool { // no interpreted boolean/ite/arith-on-boundvar inside except as index args
		ok := true
		var rec func(y *Term)
		rec = func(y *Term) {
			if !ok {
				return
			}
			switch y.op {
			case "and", "or", "not", "=>", "=", "ite", "forall", "exists", "<", "<=", "+", "-", "*", "div", "mod":
				if y.hasBV {
					ok = false
					return
				}
			}
			for _, a := range y.args {
				rec(a)
			}
		}
		for _, a := range x.args {
			rec(a)
		}
		return ok
	}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] || !x.hasBV {
			return
		}
		seen[x] = true
		if x.op == "forall" || x.op == "exists" {
			return
		}
		if (x.op == "select" || x.op == "uf") && covers(x) && clean(x) && !strings.HasPrefix(x.sval, "nopat") {
			cands = append(cands, x)
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(t.args[0])
	// keep minimal candidates (not containing another candidate)
	var out [][]*Term
	for _, c := range cands {
		min := true
		for _, d := range cands {
			if d != c && subterm(d, c) {
				min = false
				break
			}
		}
		if min {
			out = append(out, []*Term{c})
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

func subterm(s, t *Term) bool {
	if s == t {
		return true
	}
	for _, a := range t.args {
		if subterm(s, a) {
			return true
		}
	}
	return false
}

// sequenceFacts: the content code of a slice (seqof.T(arrays.., offset, length), an argument of abstract functions)
// depends only on the elements inside the slice. Stated for every pair of codes in the query, with a fresh
// index that witnesses a difference when the codes differ.
func sequenceFacts(asserts []*Term) []*Term {
	seen := map[*Term]bool{}
	by := map[string][]*Term{}
	var names []string
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "uf" && strings.HasPrefix(t.sval, "seqof.") && !t.hasBV {
			if by[t.sval] == nil {
				names = append(names, t.sval)
			}
			by[t.sval] = append(by[t.sval], t)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, a := range asserts {
		visit(a)
	}
	sort.Strings(names)
	var out []*Term
	for _, n := range names {
		l := by[n]
		if len(l) > 24 {
			l = l[:24]
		}
		for i, s := range l {
			for _, t := range l[i+1:] {
				m := len(s.args)
				k := mkConst(fmt.Sprintf("ext!%d!%d", s.id, t.id), "Int")
				differ := []*Term{mkEq(s, t), mkNot(mkEq(s.args[m-1], t.args[m-1]))}
				var es []*Term
				for j := 0; j < m-2; j++ {
					el := arrayElem(s.args[j].sort)
					es = append(es, mkEq(mkSelect(s.args[j], mkAdd(s.args[m-2], k), el), mkSelect(t.args[j], mkAdd(t.args[m-2], k), el)))
				}
				differ = append(differ, mkAnd(mkLe(mkInt(0), k), mkLt(k, s.args[m-1]), mkNot(mkAnd(es...))))
				out = append(out, mkOr(differ...))
			}
		}
	}
	return out
}

// script builds an SMT-LIB script asserting all terms.
func script(asserts []*Term, logicOpts string) string {
	var order []*Term
	cnt := map[*Term]int{}
	consts := map[*Term]bool{}
	ufs := map[string]bool{}
	sorts := map[string]bool{}
	closures := map[*Term]bool{}
	ex := newExpander()
	asserts = append([]*Term{}, asserts...)
	asserts = append(asserts, sequenceFacts(asserts)...)
	for i, a := range asserts {
		asserts[i] = ex.expand(a, true)
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		sorts[t.sort] = true
		switch t.op {
		case "const":
			consts[t] = true
		case "uf":
			ufs[t.sval] = true
		case "closure":
			closures[t] = true
			sorts["Func"] = true
			order = append(order, t)
			return
		}
		for _, b := range t.bound {
			sorts[b.sort] = true
		}
		for _, a := range t.args {
			visit(a)
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		visit(a)
	}
	for u := range ufs {
		d := ufTab[u]
		for _, s := range d.args {
			sorts[s] = true
		}
		sorts[d.ret] = true
	}
	var b strings.Builder
	b.WriteString(logicOpts)
	b.WriteString(sortDecls(sorts))
	var cs []string
	for c := range consts {
		cs = append(cs, fmt.Sprintf("(declare-const %s %s)\n", qsym(c.sval), c.sort))
	}
	for c := range closures {
		cs = append(cs, fmt.Sprintf("(declare-const %s Func)\n", qsym(fmt.Sprintf("closure.%d", c.id))))
	}
	sort.Strings(cs)
	for _, c := range cs {
		b.WriteString(c)
	}
	var us []string
	for u := range ufs {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		d := ufTab[u]
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", qsym(u), strings.Join(d.args, " "), d.ret)
	}
	p := &printer{names: map[*Term]string{}}
	for _, t := range order {
		if cnt[t] > 1 && !t.hasBV && len(t.args) > 0 {
			s := p.str(t)
			n := fmt.Sprintf("t!%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.sort, s)
			p.names[t] = n
		}
	}
	for _, a := range asserts {
		b.WriteString("(assert ")
		b.WriteString(p.str(a))
		b.WriteString(")\n")
	}
	return b.String()
}

func sortDecls(used map[string]bool) string {
	// close over datatypes
	need := map[string]bool{}
	unint := map[string]bool{}
	var add func(s string)
	add = func(s string) {
		if need[s] || unint[s] {
			return
		}
		if strings.HasPrefix(s, "(Array") {
			ps := splitSexp(s)
			add(ps[1])
			add(ps[2])
			return
		}
		if strings.HasPrefix(s, "(_") {
			return
		}
		switch s {
		case "Bool", "Int", "String", "Real", "RoundingMode":
			return
		}
		if ds, ok := dtypes[s]; ok {
			need[s] = true
			for _, d := range ds {
				for _, f := range d.fields {
					add(f.sort)
				}
			}
			return
		}
		unint[s] = true
	}
	var us []string
	for s := range used {
		us = append(us, s)
	}
	sort.Strings(us)
	for _, s := range us {
		add(s)
	}
	var b strings.Builder
	var un []string
	for s := range unint {
		un = append(un, s)
	}
	sort.Strings(un)
	for _, s := range un {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	var ds []string
	for _, s := range dtypeList {
		if need[s] {
			ds = append(ds, s)
		}
	}
	if len(ds) > 0 {
		b.WriteString("(declare-datatypes (")
		for _, s := range ds {
			fmt.Fprintf(&b, "(%s 0)", s)
		}
		b.WriteString(") (\n")
		for _, s := range ds {
			b.WriteString(" (")
			for _, c := range dtypes[s] {
				b.WriteString("(" + c.name)
				for _, f := range c.fields {
					b.WriteString(" (" + f.name + " " + f.sort + ")")
				}
				b.WriteString(")")
			}
			b.WriteString(")\n")
		}
		b.WriteString("))\n")
	}
	return b.String()
}
