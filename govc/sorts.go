package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
)

// Eng is a verification unit context (one integer mode).
type Eng struct {
	prog       *Program
	bv         bool // machine integers as bit-vectors (otherwise mathematical integers with explicit wrap-around)
	boxIDs     map[string]*boxInfo
	opaqueN    map[string]bool
	fields     map[string]int // fld key registry
	fieldsL    []fieldKey
	opaqueUses map[string]int
	unit       *Unit
}

type boxInfo struct {
	ctor string
	typ  types.Type
	sort string
}

type fieldKey struct {
	st    string // root key of the struct type
	owner types.Type
	idx   int
	name  string
}

func (e *Eng) idxSort() string {
	if e.bv {
		return bvSort(64)
	}
	return "Int"
}

func (e *Eng) sliceSort() string {
	n := "Slice"
	if e.bv {
		n = "SliceBV"
	}
	if _, ok := dtypes[n]; !ok {
		s := e.idxSort()
		declCtor(n, "mk"+n, true, ctorField{n + ".bk", "Int"}, ctorField{n + ".off", s}, ctorField{n + ".len", s}, ctorField{n + ".cap", s})
	}
	return n
}

func (e *Eng) mkSlice(bk, off, ln, cp *Term) *Term {
	s := e.sliceSort()
	return mkCtor("mk"+s, s, bk, off, ln, cp)
}
func (e *Eng) slSel(x *Term, i int) *Term { s := e.sliceSort(); return mkSel("mk"+s, i, x) }
func (e *Eng) slBk(x *Term) *Term         { return e.slSel(x, 0) }
func (e *Eng) slOff(x *Term) *Term        { return e.slSel(x, 1) }
func (e *Eng) slLen(x *Term) *Term        { return e.slSel(x, 2) }
func (e *Eng) slCap(x *Term) *Term        { return e.slSel(x, 3) }

func (e *Eng) refSort() string {
	n := "Ref"
	if e.bv {
		n = "RefBV"
	}
	if _, ok := dtypes[n]; !ok {
		declCtor(n, n+".null", false)
		declCtor(n, n+".obj", false, ctorField{n + ".oid", "Int"})
		declCtor(n, n+".fld", false, ctorField{n + ".base", n}, ctorField{n + ".key", "Int"})
		declCtor(n, n+".elem", false, ctorField{n + ".ebk", "Int"}, ctorField{n + ".eidx", e.idxSort()})
	}
	return n
}
func (e *Eng) null() *Term          { s := e.refSort(); return mkCtor(s+".null", s) }
func (e *Eng) obj(id *Term) *Term   { s := e.refSort(); return mkCtor(s+".obj", s, id) }
func (e *Eng) oid(r *Term) *Term    { s := e.refSort(); return mkSel(s+".obj", 0, r) }
func (e *Eng) isNull(r *Term) *Term { s := e.refSort(); return mkIs(s+".null", r) }
func (e *Eng) fld(b *Term, key int) *Term {
	s := e.refSort()
	return mkCtor(s+".fld", s, b, mkInt(int64(key)))
}
func (e *Eng) elemRef(bk, idx *Term) *Term {
	s := e.refSort()
	return mkCtor(s+".elem", s, bk, idx)
}

func (e *Eng) ifaceSort() string {
	n := "Iface"
	if e.bv {
		n = "IfaceBV"
	}
	if _, ok := dtypes[n]; !ok {
		declCtor(n, n+".nil", false)
		declCtor(n, n+".other", false, ctorField{n + ".tag", "Int"}, ctorField{n + ".id", "Int"})
	}
	return n
}
func (e *Eng) inil() *Term { s := e.ifaceSort(); return mkCtor(s+".nil", s) }

func (e *Eng) box(t types.Type) *boxInfo {
	k := types.TypeString(t, nil)
	if b, ok := e.boxIDs[k]; ok {
		return b
	}
	n := e.ifaceSort()
	so := e.sortOf(t)
	name := fmt.Sprintf("%s.box.%s", n, sanitizeID(k))
	declCtor(n, name, false, ctorField{name + ".val", so})
	b := &boxInfo{ctor: name, typ: t, sort: so}
	e.boxIDs[k] = b
	return b
}

func sanitizeID(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_./*", r) {
			b.WriteRune(r)
		} else {
			fmt.Fprintf(&b, "~%x~", r)
		}
	}
	return b.String()
}

func isMathint(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name() == "mathint"
	}
	return false
}

func isTimeType(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() != 3 {
		return false
	}
	return s.Field(0).Name() == "wall" && s.Field(1).Name() == "ext" && s.Field(2).Name() == "loc"
}

// opaque struct: external named struct with unexported fields whose package we do not load from source
func (e *Eng) opaqueStruct(t types.Type) (string, bool) {
	if isTimeType(t) {
		return "TimeS", true
	}
	n, ok := t.(*types.Named)
	if !ok {
		return "", false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok || n.Obj().Pkg() == nil {
		return "", false
	}
	if e.prog.sourcePkgs[n.Obj().Pkg().Path()] {
		return "", false
	}
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Exported() {
			if z, ok := s.Field(i).Type().Underlying().(*types.Struct); ok && z.NumFields() == 0 {
				continue
			}
			return "O." + sanitizeID(types.TypeString(t, nil)), true
		}
	}
	return "", false
}

// rootKey is the memory key of a type (underlying identity, so that conversions between named types alias).
func (e *Eng) rootKey(t types.Type) string {
	if o, ok := e.opaqueStruct(t); ok {
		return o
	}
	if isMathint(t) {
		return "mathint"
	}
	u := t.Underlying()
	if _, ok := u.(*types.Struct); ok {
		if n, ok := t.(*types.Named); ok {
			return structRoot(n)
		}
	}
	switch x := u.(type) {
	case *types.Pointer:
		// pointers to named structs are kept apart by the struct (two with identical underlying types share a root); all others share one
		if n, ok := x.Elem().(*types.Named); ok {
			if _, ok := n.Underlying().(*types.Struct); ok {
				if _, op := e.opaqueStruct(n); !op {
					return "*" + structRoot(n)
				}
			}
		}
		return "*"
	case *types.Interface:
		return "iface"
	case *types.Slice:
		return "slice"
	case *types.Map:
		return "map"
	case *types.Signature:
		return "func"
	case *types.Chan:
		return "chan"
	case *types.Basic:
		return x.String()
	}
	return types.TypeString(u, nil)
}

// two named struct types with identical underlying type share a root: use the underlying's string
func structRoot(n *types.Named) string {
	return "st<" + n.Obj().Name() + ">" + shortHash(types.TypeString(n.Underlying(), nil))
}

func shortHash(s string) string {
	var h uint32 = 2166136261
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return fmt.Sprintf("%08x", h)
}

func intInfo(t types.Type) (w int, signed, ok bool) {
	if isMathint(t) {
		return 0, true, true
	}
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) (string, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return "", false
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return "(_ FloatingPoint 11 53)", true
	case types.Float32:
		return "(_ FloatingPoint 8 24)", true
	}
	return "", false
}

func (e *Eng) sortOf(t types.Type) string {
	if isMathint(t) {
		return "Int"
	}
	if o, ok := e.opaqueStruct(t); ok {
		if o == "TimeS" {
			if _, ok := dtypes["TimeS"]; !ok {
				declCtor("TimeS", "mkTimeS", true, ctorField{"TimeS.inst", "Int"}, ctorField{"TimeS.loc", "Int"})
			}
		}
		return o
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return "Bool"
		}
		if u.Info()&types.IsString != 0 {
			return "String"
		}
		if w, _, ok := intInfo(t); ok {
			if e.bv {
				return bvSort(w)
			}
			return "Int"
		}
		if s, ok := isFloat(t); ok {
			return s
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return e.refSort()
		}
	case *types.Pointer:
		return e.refSort()
	case *types.Slice:
		return e.sliceSort()
	case *types.Interface:
		return e.ifaceSort()
	case *types.Map, *types.Chan:
		return "Int"
	case *types.Signature:
		return "Func"
	case *types.Struct:
		return e.structSort(t)
	case *types.Array:
		return arraySort(e.idxSort(), e.sortOf(u.Elem()))
	case *types.Tuple:
		return "Tuple"
	}
	unsupported("sort of type %s", t)
	return ""
}

func (e *Eng) structSort(t types.Type) string {
	s := t.Underlying().(*types.Struct)
	k := e.rootKey(t)
	name := "S." + sanitizeID(k)
	if e.bv {
		name += ".BV"
	}
	if _, ok := dtypes[name]; !ok {
		dtypes[name] = nil
		dtypeList = append(dtypeList, name)
		var fs []ctorField
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, ctorField{fmt.Sprintf("%s.%s", name, s.Field(i).Name()), e.sortOf(s.Field(i).Type())})
		}
		d := &ctorDecl{name: "mk" + name, sort: name, fields: fs, single: true}
		ctorTab[d.name] = d
		dtypes[name] = []*ctorDecl{d}
	}
	return name
}

func (e *Eng) mkStruct(t types.Type, fs ...*Term) *Term {
	s := e.structSort(t)
	return mkCtor("mk"+s, s, fs...)
}
func (e *Eng) structField(t types.Type, x *Term, i int) *Term {
	return mkSel("mk"+e.structSort(t), i, x)
}

// mode-dependent int literal of Go type t
func (e *Eng) intLit(t types.Type, v *big.Int) *Term {
	w, _, _ := intInfo(t)
	if e.bv && w > 0 {
		return mkBV(v, w)
	}
	return mkBig(v)
}
func (e *Eng) idxLit(v int64) *Term {
	if e.bv {
		return mkBV(big.NewInt(v), 64)
	}
	return mkInt(v)
}

func (e *Eng) zero(t types.Type) *Term {
	if isMathint(t) {
		return mkInt(0)
	}
	if o, ok := e.opaqueStruct(t); ok {
		if o == "TimeS" {
			e.sortOf(t)
			return mkCtor("mkTimeS", "TimeS", mkInt(0), mkInt(0))
		}
		return mkConst("zero."+o, o)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return tFalse
		}
		if u.Info()&types.IsString != 0 {
			return mkStr("")
		}
		if _, _, ok := intInfo(t); ok {
			return e.intLit(t, big.NewInt(0))
		}
		if s, ok := isFloat(t); ok {
			return fpLit(0, s)
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return e.null()
		}
	case *types.Pointer:
		return e.null()
	case *types.Slice:
		z := e.idxLit(0)
		return e.mkSlice(mkInt(0), z, z, z)
	case *types.Interface:
		return e.inil()
	case *types.Map, *types.Chan:
		return mkInt(0)
	case *types.Signature:
		return mkConst("nilfunc", "Func")
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.zero(u.Field(i).Type()))
		}
		return e.mkStruct(t, fs...)
	case *types.Array:
		return mkConstArr(e.sortOf(t), e.zero(u.Elem()))
	}
	unsupported("zero of %s", t)
	return nil
}

func fpLit(v float64, sort string) *Term {
	bits := fmt.Sprintf("%064b", mathFloat64bits(v))
	s := fmt.Sprintf("(fp #b%s #b%s #b%s)", bits[:1], bits[1:12], bits[12:])
	if strings.Contains(sort, "8 24") {
		b32 := fmt.Sprintf("%032b", mathFloat32bits(float32(v)))
		s = fmt.Sprintf("(fp #b%s #b%s #b%s)", b32[:1], b32[1:9], b32[9:])
	}
	return intern("fp", sort, s, nil, nil, nil, nil)
}

func (e *Eng) constant(t types.Type, v constant.Value) *Term {
	if v == nil {
		return e.zero(t)
	}
	if isMathint(t) {
		i, _ := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
		return mkBig(i)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return mkBool(constant.BoolVal(v))
		}
		if u.Info()&types.IsString != 0 {
			return mkStr(constant.StringVal(v))
		}
		if _, _, ok := intInfo(t); ok {
			i, ok := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
			if !ok {
				unsupported("int constant %s", v)
			}
			return e.intLit(t, i)
		}
		if s, ok := isFloat(t); ok {
			f, _ := constant.Float64Val(v)
			return fpLit(f, s)
		}
	}
	unsupported("constant %s of type %s", v, t)
	return nil
}

var (
	big1   = big.NewInt(1)
	two64  = new(big.Int).Lsh(big1, 64)
	two63  = new(big.Int).Lsh(big1, 63)
	maxLen = new(big.Int).Lsh(big1, 47)
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }

func intRange(w int, signed bool) (lo, hi *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big1)
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(w), big1)
}

// range fact of an Int-mode machine integer
func (e *Eng) rangeFact(t types.Type, x *Term) *Term {
	w, s, ok := intInfo(t)
	if !ok || e.bv || w == 0 {
		return tTrue
	}
	if x.op == "int" {
		return tTrue
	}
	lo, hi := intRange(w, s)
	return mkAnd(mkLe(mkBig(lo), x), mkLe(x, mkBig(hi)))
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) {
	panic(unsupportedErr{fmt.Sprintf(f, a...)})
}
