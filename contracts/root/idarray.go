package xdb

import (
	"database/sql/driver"

	"github.com/lib/pq"
)

// ---- ID lists (C06) ----

func hasNum(n IDArray, num uint64) bool {
	return gvEx(func(i int) bool { return 0 <= i && i < len(n) && idNum(n[i]) == num })
}

func noDup(n IDArray) bool {
	return gvAll(func(i, j int) bool {
		return gvImp(0 <= i && i < j && j < len(n), idNum(n[i]) != idNum(n[j]))
	})
}

//govc:contract (IDArray).Contains
//govc:prop C06
func spContains(n IDArray, id ID, r bool) {
	gvEns("agrees with the listed values", r == hasNum(n, idNum(id)))
}

//govc:loop (IDArray).Contains
func lpContains(n IDArray, id ID, rangeidx int) bool {
	return gvAll(func(j int) bool { return gvImp(0 <= j && j < rangeidx, idNum(n[j]) != idNum(id)) })
}

//govc:contract (IDArray).Overlaps
//govc:prop C06
func spOverlaps(n, other IDArray, r bool) {
	gvEns("agrees with the listed values", r == gvEx(func(i int) bool { return 0 <= i && i < len(n) && hasNum(other, idNum(n[i])) }))
}

//govc:loop (IDArray).Overlaps
func lpOverlaps(n, other IDArray, rangeidx int) bool {
	return gvAll(func(j int) bool { return gvImp(0 <= j && j < rangeidx, !hasNum(other, idNum(n[j]))) })
}

//govc:contract (IDArray).Add
//govc:prop C06
func spAdd(n IDArray, id ID, r IDArray) {
	has := hasNum(n, idNum(id))
	gvEns("a listed ID adds nothing", gvImp(has, len(r) == len(n)))
	gvEns("a new ID is appended", gvImp(!has, len(r) == len(n)+1 && r[len(n)] == id))
	gvEns("keeps the existing elements in order", gvAll(func(i int) bool { return gvImp(0 <= i && i < len(n), r[i] == n[i]) }))
	gvEns("does not share memory that another list can append to", gvImp(!has, gvFresh(r)))
}

//govc:loop (IDArray).Add
func lpAdd(n IDArray, id ID, rangeidx int) bool {
	return gvAll(func(j int) bool { return gvImp(0 <= j && j < rangeidx, idNum(n[j]) != idNum(id)) })
}

//govc:contract (IDArray).Concat
//govc:prop C06
func spConcat(n, other IDArray, r IDArray) {
	gvEns("keeps the existing elements in order", len(r) >= len(n) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(n), r[i] == n[i]) }))
	gvEns("contains every ID of the argument", gvAll(func(j int) bool { return gvImp(0 <= j && j < len(other), hasNum(r, idNum(other[j]))) }))
	gvEns("contains nothing else", gvAll(func(i int) bool { return gvImp(len(n) <= i && i < len(r), hasNum(other, idNum(r[i]))) }))
	gvEns("introduces no duplicate", gvAll(func(i, j int) bool {
		return gvImp(0 <= i && i < j && len(n) <= j && j < len(r), idNum(r[i]) != idNum(r[j]))
	}))
}

//govc:loop (IDArray).Concat
func lpConcat(n, other, in_n IDArray, rangeidx int) bool {
	o := in_n
	return len(n) >= len(o) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(o), n[i] == o[i]) }) &&
		gvAll(func(j int) bool { return gvImp(0 <= j && j < rangeidx, hasNum(n, idNum(other[j]))) }) &&
		gvAll(func(i int) bool { return gvImp(len(o) <= i && i < len(n), hasNum(other, idNum(n[i]))) }) &&
		gvAll(func(i, j int) bool { return gvImp(0 <= i && i < j && len(o) <= j && j < len(n), idNum(n[i]) != idNum(n[j])) })
}

//govc:contract NewIDArray
//govc:prop C06
func spNewIDArray(vals []uint64, r IDArray) {
	gvEns("contains every number", gvAll(func(j int) bool { return gvImp(0 <= j && j < len(vals), hasNum(r, vals[j])) }))
	gvEns("contains nothing else", gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(r), gvEx(func(j int) bool { return 0 <= j && j < len(vals) && vals[j] == idNum(r[i]) }))
	}))
	gvEns("has no duplicate", noDup(r))
}

//govc:loop NewIDArray
func lpNewIDArray(vals []uint64, ids IDArray, rangeidx int) bool {
	return noDup(ids) && gvAll(func(j int) bool { return gvImp(0 <= j && j < rangeidx, hasNum(ids, vals[j])) }) &&
		gvAll(func(i int) bool {
			return gvImp(0 <= i && i < len(ids), gvEx(func(j int) bool { return 0 <= j && j < rangeidx && vals[j] == idNum(ids[i]) }))
		})
}

func idText1(s string) bool {
	return s != "" && s != "0" && decDigits(s) && decVal(s) > 0 && decVal(s) <= decMax(64)
}

//govc:contract IDArrayFromStrings
//govc:prop C06
func spIDArrayFromStrings(vals []string, r IDArray) {
	gvEns("contains every valid ID", gvAll(func(j int) bool {
		return gvImp(0 <= j && j < len(vals) && idText1(vals[j]), gvEx(func(i int) bool { return 0 <= i && i < len(r) && gvInt(idNum(r[i])) == decVal(vals[j]) }))
	}))
	gvEns("contains nothing else", gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(r), gvEx(func(j int) bool { return 0 <= j && j < len(vals) && idText1(vals[j]) && decVal(vals[j]) == gvInt(idNum(r[i])) }))
	}))
	gvEns("has no duplicate", noDup(r))
}

//govc:loop IDArrayFromStrings
func lpIDArrayFromStrings(vals []string, ids IDArray, rangeidx int) bool {
	return noDup(ids) && gvAll(func(j int) bool {
		return gvImp(0 <= j && j < rangeidx && idText1(vals[j]), gvEx(func(i int) bool { return 0 <= i && i < len(ids) && gvInt(idNum(ids[i])) == decVal(vals[j]) }))
	}) &&
		gvAll(func(i int) bool {
			return gvImp(0 <= i && i < len(ids), gvEx(func(j int) bool { return 0 <= j && j < rangeidx && idText1(vals[j]) && decVal(vals[j]) == gvInt(idNum(ids[i])) }))
		})
}

//govc:contract (IDArray).List
//govc:prop C06
func spList(n IDArray, r []uint64) {
	gvEns("same length", len(r) == len(n))
	gvEns("same numbers in order", gvAll(func(i int) bool { return gvImp(0 <= i && i < len(n), r[i] == idNum(n[i])) }))
}

//govc:loop (IDArray).List
func lpList(n IDArray, list []uint64, rangeidx int) bool {
	return len(list) == rangeidx && gvAll(func(i int) bool { return gvImp(0 <= i && i < rangeidx, list[i] == idNum(n[i])) })
}

//govc:contract (IDArray).Strings
//govc:prop C06
func spStrings(n IDArray, r []string) {
	gvReq(gvAll(func(p *idptr) bool { return p == nil || p.str == "" || (p.id != 0 && p.str == IDString(p.id)) }))
	var z idptr
	gvModAny(&z.str)
	gvEns("same length", len(r) == len(n))
	gvEns("same numbers in order as text", gvAll(func(i int) bool { return gvImp(0 <= i && i < len(n), r[i] == idText(n[i])) }))
}

//govc:loop (IDArray).Strings
func lpStrings(n IDArray, list []string, rangeidx int) bool {
	return len(list) == rangeidx && gvAll(func(i int) bool { return gvImp(0 <= i && i < rangeidx, list[i] == idText(n[i])) }) &&
		gvAll(func(p *idptr) bool { return p == nil || p.str == "" || (p.id != 0 && p.str == IDString(p.id)) })
}

//govc:contract (IDArray).Int64Array
//govc:prop C06
func spInt64ArrayM(n IDArray, r pq.Int64Array) {
	gvEns("same length", len(r) == len(n))
	gvEns("same numbers in order", gvAll(func(i int) bool { return gvImp(0 <= i && i < len(n), r[i] == int64(idNum(n[i]))) }))
}

//govc:loop (IDArray).Int64Array
func lpInt64ArrayM(n IDArray, ids pq.Int64Array, rangeidx int) bool {
	return len(ids) == len(n) && gvAll(func(i int) bool { return gvImp(0 <= i && i < rangeidx, ids[i] == int64(idNum(n[i]))) })
}

//govc:contract Int64Array
//govc:prop C06
func spInt64Array(list []uint64, r pq.Int64Array) {
	gvEns("same length", len(r) == len(list))
	gvEns("same numbers in order", gvAll(func(i int) bool { return gvImp(0 <= i && i < len(list), r[i] == int64(list[i])) }))
}

//govc:loop Int64Array
func lpInt64Array(list []uint64, ids pq.Int64Array, rangeidx int) bool {
	return len(ids) == len(list) && gvAll(func(i int) bool { return gvImp(0 <= i && i < rangeidx, ids[i] == int64(list[i])) })
}

// the elements of the Postgres array text or bytes in a driver value
//
//govc:abstract
func pqOK(v any) bool { return false }

//govc:abstract
func pqLen(v any) int { return 0 }

//govc:abstract
func pqElem(v any, i int) int64 { return 0 }

//govc:extern (*github.com/lib/pq.Int64Array).Scan
func extPqScan(a *pq.Int64Array, src any, err error) {
	gvMod(a)
	gvEns("", gvImp(src != nil, gvIff(err == nil, pqOK(src))))
	gvEns("", gvImp(src == nil, err == nil && *a == nil))
	gvEns("", gvImp(src != nil && err == nil, len(*a) == pqLen(src) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(*a), (*a)[i] == pqElem(src, i)) })))
	gvEns("", gvFresh(*a))
}

//govc:extern (github.com/lib/pq.Int64Array).Value
func extPqValue(a pq.Int64Array, r driver.Value, err error) {
	gvEns("", err == nil)
	gvEns("", gvImp(a == nil, r == nil))
	gvEns("", gvImp(a != nil, r != nil && pqOK(r) && pqLen(r) == len(a) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(a), pqElem(r, i) == a[i]) })))
}

//govc:contract (*IDArray).Scan
//govc:prop C06
func spIDArrayScan(n *IDArray, value any, err error) {
	gvReq(n != nil)
	gvMod(n)
	gvEns("NULL gives an empty list", gvImp(value == nil, err == nil && len(*n) == 0))
	gvEns("malformed arrays are refused", gvImp(value != nil, gvIff(err == nil, pqOK(value))))
	gvEns("holds exactly the IDs of the array, in order", gvImp(value != nil && err == nil, len(*n) == pqLen(value) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(*n), idNum((*n)[i]) == uint64(pqElem(value, i))) })))
}

//govc:loop (*IDArray).Scan
func lpIDArrayScan(int64Array pq.Int64Array, ids []ID, rangeidx int) bool {
	return len(ids) == len(int64Array) && gvAll(func(i int) bool { return gvImp(0 <= i && i < rangeidx, idNum(ids[i]) == uint64(int64Array[i])) })
}

//govc:contract (IDArray).Value
//govc:prop C06
func spIDArrayValue(n IDArray, r driver.Value, err error) {
	gvEns("no error", err == nil)
	gvEns("empty is NULL", gvImp(len(n) == 0, r == nil))
	gvEns("carries every ID in order", gvImp(len(n) > 0, r != nil && pqOK(r) && pqLen(r) == len(n) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(n), pqElem(r, i) == int64(idNum(n[i]))) })))
}

//govc:loop (IDArray).Value
func lpIDArrayValue(n IDArray, ids []int64, rangeidx int) bool {
	return len(ids) == len(n) && gvAll(func(i int) bool { return gvImp(0 <= i && i < rangeidx, ids[i] == int64(idNum(n[i]))) })
}

func gvIDArraySQL(n IDArray) (IDArray, error) {
	var r IDArray
	v, err := n.Value()
	if err != nil {
		return r, err
	}
	err = r.Scan(v)
	return r, err
}

//govc:contract gvIDArraySQL
//govc:prop C06
func spIDArraySQL(n IDArray, r IDArray, err error) {
	gvEns("SQL round trip keeps every ID in order", err == nil && len(r) == len(n) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(n), idNum(r[i]) == idNum(n[i])) }))
}

//govc:abstract
func sortPerm(n IDArray, i int) int { return 0 }

//govc:abstract
func textPerm(s []string, i int) int { return 0 }

//govc:abstract
func textPermInv(s []string, i int) int { return 0 }

//govc:extern sort.Slice
func extSortSlice(x any, less func(i, j int) bool) {
	if s, ok := x.(IDArray); ok {
		gvMod(s)
		gvEns("", gvAll(func(i, j int) bool { return gvImp(0 <= i && i < j && j < len(s), !less(j, i)) }))
		gvEns("", gvAll(func(i int) bool {
			k := gvOld(func() int { return sortPerm(s, i) })
			return gvImp(0 <= i && i < len(s), 0 <= k && k < len(s) && s[i] == gvOld(func() ID { return s[k] }))
		}))
		gvEns("", gvAll(func(i, j int) bool {
			return gvImp(0 <= i && i < j && j < len(s), gvOld(func() int { return sortPerm(s, i) }) != gvOld(func() int { return sortPerm(s, j) }))
		}))
	}
	if s, ok := x.([]string); ok {
		gvMod(s)
		gvEns("", gvAll(func(i, j int) bool { return gvImp(0 <= i && i < j && j < len(s), !less(j, i)) }))
		gvEns("", gvAll(func(i int) bool {
			k := gvOld(func() int { return textPerm(s, i) })
			return gvImp(0 <= i && i < len(s), 0 <= k && k < len(s) && s[i] == gvOld(func() string { return s[k] }) && gvOld(func() int { return textPermInv(s, k) }) == i)
		}))
		gvEns("", gvAll(func(k int) bool {
			i := gvOld(func() int { return textPermInv(s, k) })
			return gvImp(0 <= k && k < len(s), 0 <= i && i < len(s) && s[i] == gvOld(func() string { return s[k] }) && gvOld(func() int { return textPerm(s, i) }) == k)
		}))
	}
}

//govc:contract (IDArray).Sort
//govc:prop C06
func spSort(n IDArray, r IDArray) {
	gvMod(n)
	gvEns("ascending", gvAll(func(i, j int) bool { return gvImp(0 <= i && i < j && j < len(r), idNum(r[i]) <= idNum(r[j])) }))
	gvEns("same length", len(r) == len(n))
	gvEns("every element is one of the input's", gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(r), gvEx(func(k int) bool { return 0 <= k && k < len(n) && r[i] == gvOld(func() ID { return n[k] }) }))
	}))
	gvEns("a permutation of the input", gvImp(len(n) >= 2, gvAll(func(i, j int) bool {
		return gvImp(0 <= i && i < j && j < len(r), gvOld(func() int { return sortPerm(n, i) }) != gvOld(func() int { return sortPerm(n, j) }))
	})))
}
