package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
)

// ---------- integer helpers ----------

func iv(t *Term) (*big.Int, bool) {
	if t.op == "int" {
		return t.ival, true
	}
	return nil, false
}

// interval of an Int term, using syntactic knowledge and path facts (nil = unknown)
func (st *State) interval(t *Term, depth int) (lo, hi *big.Int) {
	if t.op == "int" {
		return t.ival, t.ival
	}
	if depth <= 0 {
		return nil, nil
	}
	minOf := func(a, b *big.Int) *big.Int { // tighter upper
		if a == nil {
			return b
		}
		if b == nil || a.Cmp(b) < 0 {
			return a
		}
		return b
	}
	maxOf := func(a, b *big.Int) *big.Int {
		if a == nil {
			return b
		}
		if b == nil || a.Cmp(b) > 0 {
			return a
		}
		return b
	}
	switch t.op {
	case "str.len":
		lo, hi = big.NewInt(0), maxLen
	case "+":
		al, ah := st.interval(t.args[0], depth-1)
		bl, bh := st.interval(t.args[1], depth-1)
		if al != nil && bl != nil {
			lo = new(big.Int).Add(al, bl)
		}
		if ah != nil && bh != nil {
			hi = new(big.Int).Add(ah, bh)
		}
	case "-":
		al, ah := st.interval(t.args[0], depth-1)
		bl, bh := st.interval(t.args[1], depth-1)
		if al != nil && bh != nil {
			lo = new(big.Int).Sub(al, bh)
		}
		if ah != nil && bl != nil {
			hi = new(big.Int).Sub(ah, bl)
		}
	case "mod":
		if m, ok := iv(t.args[1]); ok && m.Sign() > 0 {
			lo, hi = big.NewInt(0), new(big.Int).Sub(m, big1)
		}
	case "div":
		if m, ok := iv(t.args[1]); ok && m.Sign() > 0 {
			al, ah := st.interval(t.args[0], depth-1)
			if al != nil {
				lo = new(big.Int)
				new(big.Int).DivMod(al, m, new(big.Int))
				lo.Div(al, m)
			}
			if ah != nil {
				hi = new(big.Int).Div(ah, m)
			}
		}
	case "*":
		al, ah := st.interval(t.args[0], depth-1)
		bl, bh := st.interval(t.args[1], depth-1)
		if al != nil && bl != nil && ah != nil && bh != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
			lo, hi = new(big.Int).Mul(al, bl), new(big.Int).Mul(ah, bh)
		}
	case "ite":
		al, ah := st.interval(t.args[1], depth-1)
		bl, bh := st.interval(t.args[2], depth-1)
		if al != nil && bl != nil {
			lo = al
			if bl.Cmp(al) < 0 {
				lo = bl
			}
		}
		if ah != nil && bh != nil {
			hi = ah
			if bh.Cmp(ah) > 0 {
				hi = bh
			}
		}
	case "sel":
		if t.sval == "Slice.len" || t.sval == "Slice.cap" || t.sval == "Slice.off" {
			lo, hi = big.NewInt(0), maxLen
		}
	case "uf":
		if t.sval == "mapcard" {
			lo, hi = big.NewInt(0), maxLen
		}
	}
	look := func(f *Term) {
		if f.op == "<=" || f.op == "<" {
			a, b := f.args[0], f.args[1]
			one := big.NewInt(0)
			if f.op == "<" {
				one = big1
			}
			if a == t {
				if _, h := st.interval(b, depth-2); h != nil {
					hi = minOf(hi, new(big.Int).Sub(h, one))
				}
			} else if ab, ac := linear(a); ab == t && ac.Sign() != 0 {
				if _, h := st.interval(b, depth-2); h != nil {
					hi = minOf(hi, new(big.Int).Sub(new(big.Int).Sub(h, one), ac))
				}
			}
			if b == t {
				if l, _ := st.interval(a, depth-2); l != nil {
					lo = maxOf(lo, new(big.Int).Add(l, one))
				}
			}
		}
		if f.op == "not" {
			g := f.args[0]
			if g.op == "<=" && g.args[0] == t { // t > b
				if l, _ := st.interval(g.args[1], depth-2); l != nil {
					lo = maxOf(lo, new(big.Int).Add(l, big1))
				}
			}
			if g.op == "<" && g.args[0] == t {
				if l, _ := st.interval(g.args[1], depth-2); l != nil {
					lo = maxOf(lo, l)
				}
			}
			if g.op == "<=" && g.args[1] == t { // t < a
				if _, h := st.interval(g.args[0], depth-2); h != nil {
					hi = minOf(hi, new(big.Int).Sub(h, big1))
				}
			}
			if g.op == "<" && g.args[1] == t {
				if _, h := st.interval(g.args[0], depth-2); h != nil {
					hi = minOf(hi, h)
				}
			}
		}
	}
	n := 0
	for p := st.pc; p != nil && n < 400; p = p.prev {
		n++
		if p.tag != 0 {
			continue
		}
		look(p.t)
	}
	if st.spec && st.collect != nil {
		for _, f := range st.collect.facts {
			if f.op == "and" {
				for _, g := range f.args {
					look(g)
				}
			} else {
				look(f)
			}
		}
	}
	return
}

// wrap a mathematical result into the range of t
func (st *State) wrap(t types.Type, r *Term, near bool) *Term {
	w, s, _ := intInfo(t)
	if w == 0 {
		return r
	}
	lo, hi := intRange(w, s)
	l, h := st.interval(r, 5)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return r
	}
	if near { // at most one wrap
		m := mkBig(pow2(w))
		out := r
		if h == nil || h.Cmp(hi) > 0 {
			out = mkIte(mkLt(mkBig(hi), r), mkSub(r, m), out)
		}
		if l == nil || l.Cmp(lo) < 0 {
			out = mkIte(mkLt(r, mkBig(lo)), mkAdd(r, m), out)
		}
		return out
	}
	if !s {
		return mkModInt(r, mkBig(pow2(w)))
	}
	half := mkBig(pow2(w - 1))
	return mkSub(mkModInt(mkAdd(r, half), mkBig(pow2(w))), half)
}

func log2(v *big.Int) int { // v = 2^k
	if v.Sign() <= 0 {
		return -1
	}
	k := v.BitLen() - 1
	if new(big.Int).Lsh(big1, uint(k)).Cmp(v) == 0 {
		return k
	}
	return -1
}

func (st *State) intOp(op token.Token, t types.Type, a, b *Term, bt types.Type) *Term {
	e := st.e
	w, signed, _ := intInfo(t)
	if e.bv && w > 0 {
		return st.bvOp(op, t, a, b, bt)
	}
	switch op {
	case token.ADD:
		return st.wrap(t, mkAdd(a, b), true)
	case token.SUB:
		return st.wrap(t, mkSub(a, b), true)
	case token.MUL:
		return st.wrap(t, mkMul(a, b), false)
	case token.QUO:
		if !signed {
			return mkDivInt(a, b)
		}
		if al, _ := st.interval(a, 4); al != nil && al.Sign() >= 0 {
			if bl, _ := st.interval(b, 4); bl != nil && bl.Sign() > 0 {
				return mkDivInt(a, b)
			}
		}
		z := mkInt(0)
		neg := func(x *Term) *Term { return mkSub(z, x) }
		q := mkIte(mkLe(z, a),
			mkIte(mkLt(z, b), mkDivInt(a, b), neg(mkDivInt(a, neg(b)))),
			mkIte(mkLt(z, b), neg(mkDivInt(neg(a), b)), mkDivInt(neg(a), neg(b))))
		return st.wrap(t, q, true)
	case token.REM:
		if !signed {
			return mkModInt(a, b)
		}
		if al, _ := st.interval(a, 4); al != nil && al.Sign() >= 0 {
			if bl, _ := st.interval(b, 4); bl != nil && bl.Sign() > 0 {
				return mkModInt(a, b)
			}
		}
		z := mkInt(0)
		neg := func(x *Term) *Term { return mkSub(z, x) }
		ab := mkIte(mkLt(z, b), b, neg(b))
		return mkIte(mkLe(z, a), mkModInt(a, ab), neg(mkModInt(neg(a), ab)))
	case token.SHL:
		if k, ok := iv(b); ok && k.IsInt64() {
			if w > 0 && k.Int64() >= int64(w) {
				return mkInt(0)
			}
			return st.wrap(t, mkMul(a, mkBig(pow2(int(k.Int64())))), false)
		}
	case token.SHR:
		if k, ok := iv(b); ok && k.IsInt64() && k.Sign() >= 0 && k.Int64() < 256 {
			return mkDivInt(a, mkBig(pow2(int(k.Int64()))))
		}
	case token.AND:
		if av, ok := iv(a); ok {
			if _, ok2 := iv(b); !ok2 {
				a, b = b, a
				_ = av
			}
		}
		if av, ok := iv(a); ok {
			if bv, ok := iv(b); ok && av.Sign() >= 0 && bv.Sign() >= 0 {
				return mkBig(new(big.Int).And(av, bv))
			}
		}
		if m, ok := iv(b); ok && m.Sign() >= 0 {
			if k := log2(new(big.Int).Add(m, big1)); k >= 0 {
				return mkModInt(a, mkBig(pow2(k)))
			}
		}
	case token.OR, token.XOR:
		if av, ok := iv(a); ok {
			if av.Sign() == 0 {
				return b
			}
			if bv, ok := iv(b); ok && av.Sign() >= 0 && bv.Sign() >= 0 {
				if op == token.OR {
					return mkBig(new(big.Int).Or(av, bv))
				}
				return mkBig(new(big.Int).Xor(av, bv))
			}
		}
		if bv, ok := iv(b); ok && bv.Sign() == 0 {
			return a
		}
	}
	r := mkUF("bitop."+bitName(op)+"."+t.Underlying().String(), "Int", a, b)
	st.assume(e.rangeFact(t, r))
	return r
}

func bvBin(op string, a, b *Term) *Term {
	if a.op == "bv" && b.op == "bv" {
		w := bvWidth(a.sort)
		x, y := a.ival, b.ival
		switch op {
		case "bvadd":
			return mkBV(new(big.Int).Add(x, y), w)
		case "bvsub":
			return mkBV(new(big.Int).Sub(x, y), w)
		case "bvmul":
			return mkBV(new(big.Int).Mul(x, y), w)
		case "bvand":
			return mkBV(new(big.Int).And(x, y), w)
		case "bvor":
			return mkBV(new(big.Int).Or(x, y), w)
		case "bvshl":
			if y.IsInt64() && y.Int64() < int64(w) {
				return mkBV(new(big.Int).Lsh(x, uint(y.Int64())), w)
			}
			return mkBV(big.NewInt(0), w)
		case "bvlshr":
			if y.IsInt64() && y.Int64() < int64(w) {
				return mkBV(new(big.Int).Rsh(x, uint(y.Int64())), w)
			}
			return mkBV(big.NewInt(0), w)
		}
	}
	return mk(op, a.sort, a, b)
}

func (st *State) bvOp(op token.Token, t types.Type, a, b *Term, bt types.Type) *Term {
	w, signed, _ := intInfo(t)
	switch op {
	case token.ADD:
		return bvBin("bvadd", a, b)
	case token.SUB:
		return bvBin("bvsub", a, b)
	case token.MUL:
		return bvBin("bvmul", a, b)
	case token.QUO:
		if signed {
			return mk("bvsdiv", a.sort, a, b)
		}
		return mk("bvudiv", a.sort, a, b)
	case token.REM:
		if signed {
			return mk("bvsrem", a.sort, a, b)
		}
		return mk("bvurem", a.sort, a, b)
	case token.AND:
		return bvBin("bvand", a, b)
	case token.OR:
		return bvBin("bvor", a, b)
	case token.XOR:
		return mk("bvxor", a.sort, a, b)
	case token.AND_NOT:
		return bvBin("bvand", a, mk("bvnot", b.sort, b))
	case token.SHL, token.SHR:
		bw, _, _ := intInfo(bt)
		sh := b
		big_ := tFalse
		if bw > w {
			if b.op == "bv" {
				if b.ival.Cmp(big.NewInt(int64(w))) >= 0 {
					big_ = tTrue
				}
				sh = mkBV(b.ival, w)
			} else {
				big_ = mk("bvule", "Bool", mkBV(big.NewInt(int64(w)), bw), b)
				sh = intern("idx:extract", bvSort(w), "(_ extract "+itoa(w-1)+" 0)", nil, []*Term{b}, nil, nil)
			}
		} else if bw < w {
			sh = bvExt(b, w, false)
		}
		var r *Term
		switch {
		case op == token.SHL:
			r = bvBin("bvshl", a, sh)
		case signed:
			r = mk("bvashr", a.sort, a, sh)
		default:
			r = bvBin("bvlshr", a, sh)
		}
		over := mkBV(big.NewInt(0), w)
		if op == token.SHR && signed {
			over = mkIte(mk("bvslt", "Bool", a, over), mkBV(big.NewInt(-1), w), over)
		}
		return mkIte(big_, over, r)
	}
	unsupported("bv op %s", op)
	return nil
}

func bvExt(x *Term, w int, signed bool) *Term {
	k := w - bvWidth(x.sort)
	if k == 0 {
		return x
	}
	if x.op == "bv" {
		if signed {
			return mkBV(bvSigned(x), w)
		}
		return mkBV(x.ival, w)
	}
	n := "zero_extend"
	if signed {
		n = "sign_extend"
	}
	return intern("idx:"+n, bvSort(w), "(_ "+n+" "+itoa(k)+")", nil, []*Term{x}, nil, nil)
}

func itoa(i int) string { return big.NewInt(int64(i)).String() }

func (st *State) convInt(from, to types.Type, x *Term) *Term {
	e := st.e
	fw, fs, _ := intInfo(from)
	tw, ts, _ := intInfo(to)
	if e.bv {
		switch {
		case fw == 0 && tw == 0:
			return x
		case tw == 0: // bv -> mathint
			n := mk("bv2nat", "Int", x)
			if fs {
				return mkIte(mk("bvslt", "Bool", x, mkBV(big.NewInt(0), fw)), mkSub(n, mkBig(pow2(fw))), n)
			}
			return n
		case fw == 0:
			return intern("idx:int2bv", bvSort(tw), "(_ int2bv "+itoa(tw)+")", nil, []*Term{x}, nil, nil)
		case tw > fw:
			return bvExt(x, tw, fs)
		case tw < fw:
			if x.op == "bv" {
				return mkBV(x.ival, tw)
			}
			return intern("idx:extract", bvSort(tw), "(_ extract "+itoa(tw-1)+" 0)", nil, []*Term{x}, nil, nil)
		}
		return x
	}
	if tw == 0 {
		return x
	}
	if fw > 0 {
		fl, fh := intRange(fw, fs)
		tl, th := intRange(tw, ts)
		if fl.Cmp(tl) >= 0 && fh.Cmp(th) <= 0 {
			return x
		}
		if fw == tw {
			return st.wrap(to, x, true)
		}
	}
	return st.wrap(to, x, false)
}

func (st *State) cmp(op token.Token, t types.Type, a, b *Term) *Term {
	e := st.e
	if w, signed, ok := intInfo(t); ok {
		if e.bv && w > 0 {
			le, lt := "bvsle", "bvslt"
			if !signed {
				le, lt = "bvule", "bvult"
			}
			lit := func(o string, a, b *Term) *Term {
				if a == b {
					return mkBool(o == le)
				}
				if a.op == "bv" && b.op == "bv" {
					x, y := a.ival, b.ival
					if signed {
						x, y = bvSigned(a), bvSigned(b)
					}
					if o == le {
						return mkBool(x.Cmp(y) <= 0)
					}
					return mkBool(x.Cmp(y) < 0)
				}
				return mk(o, "Bool", a, b)
			}
			switch op {
			case token.LSS:
				return lit(lt, a, b)
			case token.LEQ:
				return lit(le, a, b)
			case token.GTR:
				return lit(lt, b, a)
			case token.GEQ:
				return lit(le, b, a)
			}
		}
		switch op {
		case token.LSS:
			return mkLt(a, b)
		case token.LEQ:
			return mkLe(a, b)
		case token.GTR:
			return mkLt(b, a)
		case token.GEQ:
			return mkLe(b, a)
		}
	}
	if _, ok := isFloat(t); ok {
		switch op {
		case token.LSS:
			return mk("fp.lt", "Bool", a, b)
		case token.LEQ:
			return mk("fp.leq", "Bool", a, b)
		case token.GTR:
			return mk("fp.lt", "Bool", b, a)
		case token.GEQ:
			return mk("fp.leq", "Bool", b, a)
		case token.EQL:
			return mk("fp.eq", "Bool", a, b)
		case token.NEQ:
			return mkNot(mk("fp.eq", "Bool", a, b))
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return nil
	}
	unsupported("comparison %s on %s", op, t)
	return nil
}

// ---------- strings ----------

func mkConcat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.op == "str.++" {
			out = append(out, a.args...)
		} else {
			out = append(out, a)
		}
	}
	var m []*Term
	for _, a := range out {
		if a.op == "str" && a.sval == "" {
			continue
		}
		if a.op == "str" && len(m) > 0 && m[len(m)-1].op == "str" {
			m[len(m)-1] = mkStr(m[len(m)-1].sval + a.sval)
			continue
		}
		m = append(m, a)
	}
	if len(m) == 0 {
		return mkStr("")
	}
	if len(m) == 1 {
		return m[0]
	}
	return mk("str.++", "String", m...)
}

func mkSubstr(s, lo, n *Term) *Term {
	if s.op == "str" && lo.op == "int" && n.op == "int" && lo.ival.IsInt64() && n.ival.IsInt64() {
		l, k := lo.ival.Int64(), n.ival.Int64()
		if l >= 0 && k >= 0 && l+k <= int64(len(s.sval)) {
			return mkStr(s.sval[l : l+k])
		}
	}
	if lo.op == "int" && lo.ival.Sign() == 0 && n == strLen(s) {
		return s
	}
	if lo.op == "int" && s.op == "str.++" && s.args[0].op == "str" && n == mkSub(strLen(s), lo) && lo.ival.IsInt64() {
		l := lo.ival.Int64()
		if l >= 0 && l <= int64(len(s.args[0].sval)) {
			return mkConcat(append([]*Term{mkStr(s.args[0].sval[l:])}, s.args[1:]...)...)
		}
	}
	return mk("str.substr", "String", s, lo, n)
}

func mkStrAtCode(s, i *Term) *Term {
	if s.op == "str" && i.op == "int" && i.ival.IsInt64() {
		k := i.ival.Int64()
		if k >= 0 && k < int64(len(s.sval)) {
			return mkInt(int64(s.sval[k]))
		}
	}
	return mk("str.to_code", "Int", mk("str.at", "String", s, i))
}

func (st *State) bytesToString(bk *Term, arr, off, ln *Term) *Term {
	if arr.op == "uf" && arr.sval == "strarr" && off.op == "int" && off.ival.Sign() == 0 && ln == strLen(arr.args[0]) {
		return arr.args[0]
	}
	if ln.op == "int" && ln.ival.Sign() == 0 {
		return mkStr("")
	}
	if l := litBytes(arr, off, ln); l != nil {
		return l
	}
	r := mkUF("bstr", "String", arr, off, ln)
	st.assume(mkEq(strLen(r), ln))
	return r
}

// litBytes is the text of concrete bytes, nil when they are not all known.
func litBytes(arr, off, ln *Term) *Term {
	if off.op != "int" || ln.op != "int" || !ln.ival.IsInt64() || ln.ival.Int64() > 64 {
		return nil
	}
	text := []byte{}
	for i := int64(0); i < ln.ival.Int64(); i++ {
		c := mkSelect(arr, mkAdd(off, mkInt(i)), "Int")
		if c.op != "int" || !c.ival.IsInt64() || c.ival.Int64() < 0 || c.ival.Int64() > 255 {
			return nil
		}
		text = append(text, byte(c.ival.Int64()))
	}
	return mkStr(string(text))
}

func strArr(s *Term) *Term {
	return mkUF("strarr", arraySort("Int", "Int"), s)
}

func bitName(op token.Token) string {
	switch op {
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.XOR:
		return "xor"
	case token.AND_NOT:
		return "andnot"
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	}
	return fmt.Sprint(int(op))
}
