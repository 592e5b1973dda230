package xdb

import (
	"hash"
	"strconv"
	"strings"
)

// ---- query parameters (C10, C11) ----

// facts about single bits: proved in bit-vector arithmetic, then used as an axiom where integers are mathematical

func bitFacts(x uint64, p, q uint32) bool {
	one := uint64(1)
	return gvImp(q <= 63, gvIff((x|(one<<p))&(one<<q) != 0, p == q || x&(one<<q) != 0)) &&
		gvImp(q > 63, x&(one<<q) == 0 && one<<q == 0) && uint64(0)&(one<<q) == 0
}

//govc:lemma
//govc:mode bv
//govc:prop C10
func lmBits(x uint64, p, q uint32) {
	gvEns("single bits of a word are independent", bitFacts(x, p, q))
}

//govc:axiom
func axBits() bool { return gvAll(func(x uint64, p, q uint32) bool { return bitFacts(x, p, q) }) }

func posSet(b *QueryParamsBuilder, p uint32) bool { return b.positions&(uint64(1)<<p) != 0 }

// the part of a builder that a caller can see, apart from positions, enums, arguments and paging

func sameFlags(b *QueryParamsBuilder) bool {
	return b.queryName == gvOld(func() string { return b.queryName }) && gvSame(b.flags, gvOld(func() []int32 { return b.flags })) &&
		gvSame(b.nullColumns, gvOld(func() []string { return b.nullColumns }))
}

func samePaging(b *QueryParamsBuilder) bool {
	return b.limit == gvOld(func() uint32 { return b.limit }) && b.offset == gvOld(func() uint32 { return b.offset }) && b.cursor == gvOld(func() any { return b.cursor })
}

func samePositions(b *QueryParamsBuilder) bool {
	return b.positions == gvOld(func() uint64 { return b.positions }) && gvSame(b.enums, gvOld(func() []enumPosition { return b.enums }))
}

func sameArgsOf(b *QueryParamsBuilder) bool {
	return gvSame(b.args, gvOld(func() []any { return b.args }))
}

// the arguments are the earlier ones followed by n more
func added(b *QueryParamsBuilder, n int) bool {
	old := gvOld(func() int { return len(b.args) })
	return len(b.args) == old+n && gvAll(func(i int) bool {
		return gvImp(0 <= i && i < old, b.args[i] == gvOld(func() any { return b.args[i] }))
	})
}

func pageSize(limit uint32) uint32 {
	if limit == 0 {
		return DefaultPageSize
	}
	return limit
}

// ---- the name ----

//govc:abstract
func sortedCat(cols []string) string { return "" }

//govc:abstract
func murmur64(s string) uint64 { return 0 }

func catCols(c []string, n int) string { return "" }

//govc:extern github.com/effective-security/xdb.catCols
//govc:pure
func extCatCols(c []string, n int, r string) {
	gvEns("", gvImp(n <= 0, r == ""))
	gvEns("", gvImp(0 < n && n <= len(c), r == catCols(c, n-1)+c[n-1]))
}

func enumsText(e []enumPosition, n int) string { return "" }

//govc:extern github.com/effective-security/xdb.enumsText
//govc:pure
func extEnumsText(e []enumPosition, n int, r string) {
	gvEns("", gvImp(n <= 0, r == ""))
	gvEns("", gvImp(0 < n && n <= len(e), r == enumsText(e, n-1)+"_"+strconv.FormatUint(uint64(e[n-1].position), 10)+"x"+strconv.FormatUint(uint64(e[n-1].value), 16)))
}

func flagsText(f []int32, n int) string { return "" }

//govc:extern github.com/effective-security/xdb.flagsText
//govc:pure
func extFlagsText(f []int32, n int, r string) {
	gvEns("", gvImp(n <= 0, r == ""))
	gvEns("", gvImp(0 < n && n <= len(f), r == flagsText(f, n-1)+"_fx"+strconv.FormatInt(int64(f[n-1]), 16)))
}

func pagingText(b *QueryParamsBuilder) string {
	if b.cursor != nil {
		return "_c"
	}
	if b.offset > 0 {
		return "_o"
	}
	return ""
}

func nullText(cols []string) string {
	if len(cols) == 0 {
		return ""
	}
	return "_n" + strconv.FormatUint(murmur64(sortedCat(cols)), 16)
}

// the name as a function of the current parameters
func paramName(b *QueryParamsBuilder) string {
	return b.queryName + "_x" + strconv.FormatUint(b.positions, 16) + enumsText(b.enums, len(b.enums)) + flagsText(b.flags, len(b.flags)) + pagingText(b) + nullText(b.nullColumns)
}

// representation invariant: a remembered name is the name of the current parameters
func nameOK(b *QueryParamsBuilder) bool { return b.hash == "" || b.hash == paramName(b) }

//govc:ghost
func GVBuilt(b *strings.Builder) string { return "" }

//govc:extern (*strings.Builder).WriteString
func extBWriteString(b *strings.Builder, s string, n int, err error) {
	gvModGhost("GVBuilt", b)
	gvEns("", GVBuilt(b) == gvOld(func() string { return GVBuilt(b) })+s && n == len(s) && err == nil)
}

//govc:extern (*strings.Builder).WriteRune
func extBWriteRune(b *strings.Builder, c rune, n int, err error) {
	gvModGhost("GVBuilt", b)
	gvEns("", GVBuilt(b) == gvOld(func() string { return GVBuilt(b) })+string(c) && err == nil)
}

//govc:extern (*strings.Builder).WriteByte
func extBWriteByte(b *strings.Builder, c byte, err error) {
	gvModGhost("GVBuilt", b)
	gvEns("", GVBuilt(b) == gvOld(func() string { return GVBuilt(b) })+string(rune(c)) && err == nil)
}

//govc:extern (*strings.Builder).String
func extBString(b *strings.Builder, r string) { gvEns("", r == GVBuilt(b)) }

//govc:ghost
func GVHashed(h hash.Hash64) string { return "" }

//govc:extern github.com/spaolacci/murmur3.New64
func extMurmur(r hash.Hash64) { gvEns("", r != nil && GVHashed(r) == "") }

//govc:iface (hash.Hash64).Write
func ifHashWrite(h hash.Hash64, p []byte, n int, err error) {
	gvModGhost("GVHashed", h)
	gvEns("", GVHashed(h) == gvOld(func() string { return GVHashed(h) })+string(p) && err == nil)
}

//govc:iface (hash.Hash64).Sum64
func ifSum64(h hash.Hash64, r uint64) { gvEns("", r == murmur64(GVHashed(h))) }

//govc:extern sort.Strings
func extSortStrings(x []string) {
	gvMod(x)
	gvEns("", catCols(x, len(x)) == gvOld(func() string { return sortedCat(x) }))
}

//govc:contract (*QueryParamsBuilder).Name
//govc:prop C11
func spName(b *QueryParamsBuilder, r string) {
	gvReq(b != nil && nameOK(b))
	gvMod(&b.hash)
	gvModGhost("GVHashed", nil)
	gvEns("the name is a function of the current parameters", r == paramName(b))
	gvEns("a remembered name stays the current one", nameOK(b))
}

//govc:loop (*QueryParamsBuilder).Name
func lpNameEnums(b *QueryParamsBuilder, n *strings.Builder, rangeidx int) bool {
	return GVBuilt(n) == b.queryName+"_x"+strconv.FormatUint(b.positions, 16)+enumsText(b.enums, rangeidx)
}

//govc:loop (*QueryParamsBuilder).Name
func lpNameFlags(b *QueryParamsBuilder, n *strings.Builder, rangeidx int) bool {
	return GVBuilt(n) == b.queryName+"_x"+strconv.FormatUint(b.positions, 16)+enumsText(b.enums, len(b.enums))+flagsText(b.flags, rangeidx)
}

//govc:loop (*QueryParamsBuilder).Name
func lpNameCols(h hash.Hash64, cols []string, rangeidx int) bool {
	return GVHashed(h) == catCols(cols, rangeidx)
}

// ---- the builder's methods ----

//govc:contract NewQueryParams
//govc:prop C10 C11
func spNewQueryParams(queryName string, r *QueryParamsBuilder) {
	gvEns("a fresh builder", r != nil && gvFresh(r) && emptyParams(r, queryName))
	gvEns("a remembered name stays the current one", nameOK(r))
}

func emptyParams(b *QueryParamsBuilder, queryName string) bool {
	return b.queryName == queryName && b.positions == 0 && len(b.enums) == 0 && len(b.flags) == 0 && len(b.args) == 0 && len(b.nullColumns) == 0 &&
		b.flags == nil && b.args == nil && b.nullColumns == nil && b.limit == 0 && b.offset == 0 && b.cursor == nil
}

//govc:contract (*QueryParamsBuilder).Reset
//govc:prop C10 C11
func spReset(b *QueryParamsBuilder) {
	gvReq(b != nil)
	gvMod(b)
	gvEns("the state of a fresh builder for the same query name", emptyParams(b, gvOld(func() string { return b.queryName })))
	gvEns("a remembered name stays the current one", nameOK(b))
}

//govc:contract (*QueryParamsBuilder).SetNullColums
//govc:prop C10 C11
func spSetNullColums(b *QueryParamsBuilder, cols []string, r *QueryParamsBuilder) {
	gvReq(b != nil)
	gvMod(b)
	gvEns("sets the null columns", r == b && gvSame(b.nullColumns, cols))
	gvEns("nothing else changes", samePositions(b) && samePaging(b) && sameArgsOf(b) && b.queryName == gvOld(func() string { return b.queryName }) && gvSame(b.flags, gvOld(func() []int32 { return b.flags })))
	gvEns("a remembered name stays the current one", nameOK(b))
}

//govc:contract (*QueryParamsBuilder).SetFlags
//govc:prop C10 C11
func spSetFlags(b *QueryParamsBuilder, v []int32, r *QueryParamsBuilder) {
	gvReq(b != nil)
	gvMod(b)
	gvEns("sets the flags", r == b && gvSame(b.flags, v))
	gvEns("nothing else changes", samePositions(b) && samePaging(b) && sameArgsOf(b) && b.queryName == gvOld(func() string { return b.queryName }) && gvSame(b.nullColumns, gvOld(func() []string { return b.nullColumns })))
	gvEns("a remembered name stays the current one", nameOK(b))
}

//govc:contract (*QueryParamsBuilder).GetNullColumns
//govc:prop C10
func spGetNullColumns(b *QueryParamsBuilder, r []string) {
	gvReq(b != nil)
	gvEns("what was set", gvSame(r, b.nullColumns))
}

//govc:contract (*QueryParamsBuilder).GetFlags
//govc:prop C10
func spGetFlags(b *QueryParamsBuilder, r []int32) {
	gvReq(b != nil)
	gvEns("what was set", gvSame(r, b.flags))
}

//govc:contract (*QueryParamsBuilder).Args
//govc:prop C10
func spArgs(b *QueryParamsBuilder, r []any) {
	gvReq(b != nil)
	gvEns("the arguments in call order", gvSame(r, b.args))
}

//govc:contract (*QueryParamsBuilder).Page
//govc:prop C10
func spBPage(b *QueryParamsBuilder, limit, offset uint32) {
	gvReq(b != nil)
	gvEns("the limit and offset that were set", limit == b.limit && offset == b.offset)
}

//govc:contract (*QueryParamsBuilder).Cursor
//govc:prop C10
func spBCursor(b *QueryParamsBuilder, limit uint32, cursor any) {
	gvReq(b != nil)
	gvEns("the limit and cursor that were set", limit == b.limit && cursor == b.cursor)
}

//govc:contract (*QueryParamsBuilder).IsSet
//govc:prop C10
func spIsSet(b *QueryParamsBuilder, pos uint32, r bool) {
	gvReq(b != nil)
	gvEns("a position is reported set exactly if it was set", r == posSet(b, pos))
	gvEns("no position above 63 is set", gvImp(pos > 63, !r))
}

// e was the list of enums and pos, v has been added at the end
func enumAdded(e, was []enumPosition, pos uint32, v int32) bool {
	return len(e) == len(was)+1 && e[len(was)].position == pos && e[len(was)].value == v &&
		gvAll(func(i int) bool { return gvImp(0 <= i && i < len(was), e[i] == was[i]) })
}

//govc:contract (*QueryParamsBuilder).Set
//govc:prop C10 C11
func spSet(b *QueryParamsBuilder, pos uint32, v any, r *QueryParamsBuilder) {
	gvReq(b != nil)
	gvMod(b, b.args)
	gvPanics(pos > 63 || b.limit > 0)
	gvEns("exactly this position is added", gvAll(func(q uint32) bool {
		return posSet(b, q) == (q == pos || gvOld(func() bool { return posSet(b, q) }))
	}))
	gvEns("the argument is added last", r == b && added(b, 1) && b.args[len(b.args)-1] == v)
	gvEns("the argument list stays the builder's own", gvFresh(b.args) || gvBacking(b.args) == gvOld(func() mathint { return gvBacking(b.args) }))
	gvEns("nothing else changes", samePaging(b) && sameFlags(b) && gvSame(b.enums, gvOld(func() []enumPosition { return b.enums })))
	gvEns("a remembered name stays the current one", nameOK(b))
}

//govc:contract (*QueryParamsBuilder).SetEnum
//govc:prop C10 C11
func spSetEnum(b *QueryParamsBuilder, pos uint32, v int32, r *QueryParamsBuilder) {
	gvReq(b != nil)
	gvMod(b, b.enums)
	gvPanics(pos > 63 || b.limit > 0)
	gvEns("exactly this position is added", gvAll(func(q uint32) bool {
		return posSet(b, q) == (q == pos || gvOld(func() bool { return posSet(b, q) }))
	}))
	old := gvOld(func() int { return len(b.enums) })
	gvEns("the value is remembered after the earlier ones", r == b && len(b.enums) == old+1 && b.enums[old].position == pos && b.enums[old].value == v &&
		gvAll(func(i int) bool {
			return gvImp(0 <= i && i < old, b.enums[i] == gvOld(func() enumPosition { return b.enums[i] }))
		}))
	gvEns("nothing else changes", samePaging(b) && sameFlags(b) && sameArgsOf(b))
	gvEns("a remembered name stays the current one", nameOK(b))
}

//govc:contract (*QueryParamsBuilder).GetEnum
//govc:prop C10
func spGetEnum(b *QueryParamsBuilder, pos uint32, v int32, ok bool) {
	gvReq(b != nil)
	gvEns("reported exactly if a value was set", ok == gvEx(func(i int) bool { return 0 <= i && i < len(b.enums) && b.enums[i].position == pos }))
	gvEns("the first value that was set", gvImp(ok, gvEx(func(i int) bool {
		return 0 <= i && i < len(b.enums) && b.enums[i].position == pos && b.enums[i].value == v &&
			gvAll(func(j int) bool { return gvImp(0 <= j && j < i, b.enums[j].position != pos) })
	})))
	gvEns("zero otherwise", gvImp(!ok, v == 0))
}

//govc:loop (*QueryParamsBuilder).GetEnum
func lpGetEnum(b *QueryParamsBuilder, pos uint32, rangeidx int) bool {
	return gvAll(func(j int) bool { return gvImp(0 <= j && j < rangeidx, b.enums[j].position != pos) })
}

//govc:contract (*QueryParamsBuilder).SetPage
//govc:prop C10 C11
func spSetPage(b *QueryParamsBuilder, limit, offset uint32, r *QueryParamsBuilder) {
	gvReq(b != nil)
	gvMod(b, b.args)
	gvPanics(b.limit > 0)
	n := len(b.args)
	gvEns("limit and offset are remembered", r == b && b.limit == pageSize(limit) && b.offset == offset)
	gvEns("limit and offset are the last arguments", added(b, 2) && b.args[n-2] == any(pageSize(limit)) && b.args[n-1] == any(offset))
	gvEns("nothing else changes", samePositions(b) && sameFlags(b) && b.cursor == gvOld(func() any { return b.cursor }))
	gvEns("a remembered name stays the current one", nameOK(b))
}

//govc:contract (*QueryParamsBuilder).SetCursor
//govc:prop C10 C11
func spSetCursor(b *QueryParamsBuilder, limit uint32, pos uint32, cursor any, r *QueryParamsBuilder) {
	gvReq(b != nil)
	gvMod(b, b.args)
	gvPanics(pos > 63 || b.limit > 0)
	n := len(b.args)
	gvEns("limit and cursor are remembered", r == b && b.limit == pageSize(limit) && b.cursor == cursor)
	gvEns("cursor and limit are the last arguments", added(b, 2) && b.args[n-2] == cursor && b.args[n-1] == any(pageSize(limit)))
	gvEns("exactly this position is added", gvAll(func(q uint32) bool {
		return posSet(b, q) == (q == pos || gvOld(func() bool { return posSet(b, q) }))
	}))
	gvEns("nothing else changes", gvSame(b.enums, gvOld(func() []enumPosition { return b.enums })) && sameFlags(b) && b.offset == gvOld(func() uint32 { return b.offset }))
	gvEns("a remembered name stays the current one", nameOK(b))
}

//govc:contract (*QueryParamsBuilder).AddArgs
//govc:prop C10 C11
func spAddArgs(b *QueryParamsBuilder, v []any, r *QueryParamsBuilder) {
	gvReq(b != nil && nameOK(b))
	gvReq(len(v) == 0 || gvBacking(v) != gvBacking(b.args))
	gvMod(b, b.args)
	gvPanics(b.limit > 0)
	old := gvOld(func() int { return len(b.args) })
	gvEns("the arguments are added last", r == b && added(b, len(v)) && gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(v), b.args[old+i] == v[i])
	}))
	gvEns("nothing else changes", samePositions(b) && samePaging(b) && sameFlags(b))
	gvEns("a remembered name stays the current one", nameOK(b))
}


//govc:loop github.com/effective-security/x/values.NumbersCoalesce
func lpNumbersCoalesce(items []uint32, rangeidx int) bool {
	return gvAll(func(j int) bool { return gvImp(0 <= j && j < rangeidx, items[j] == 0) })
}
