package xdb

import (
	"database/sql/driver"
	"github.com/effective-security/x/values"
	"time"
)

// ---- encoding/json, known only through an abstract reading of JSON texts ----

// the instant of a JSON text that the time package reads as a time
//
//govc:abstract
func tJSONOK(s string) bool { return false }

//govc:abstract
func tJSONInst(s string) mathint { return 0 }

// a JSON text that decodes to a list of strings: is it null, its length and elements

//govc:abstract
func jListOK(s string) bool { return false }

//govc:abstract
func jListNull(s string) bool { return false }

//govc:abstract
func jListLen(s string) int { return 0 }

//govc:abstract
func jListAt(s string, i int) string { return "" }

// a JSON text that decodes to a map of strings

//govc:abstract
func jMapOK(s string) bool { return false }

//govc:abstract
func jMapNull(s string) bool { return false }

//govc:abstract
func jMapHas(s string, k string) bool { return false }

//govc:abstract
func jMapAt(s string, k string) string { return "" }

// a JSON text that decodes to a map of string lists

//govc:abstract
func jKVOK(s string) bool { return false }

//govc:abstract
func jKVNull(s string) bool { return false }

//govc:abstract
func jKVHas(s string, k string) bool { return false }

//govc:abstract
func jKVNil(s string, k string) bool { return false }

//govc:abstract
func jKVLen(s string, k string) int { return 0 }

//govc:abstract
func jKVAt(s string, k string, i int) string { return "" }

//govc:axiom
func axJSON() bool {
	return !jListOK("") && !jMapOK("") && !jKVOK("") && gvAll(func(s string) bool { return jListLen(s) >= 0 }) &&
		gvAll(func(s, k string) bool { return jKVLen(s, k) >= 0 })
}

func listIs(l []string, s string) bool {
	return len(l) == jListLen(s) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(l), l[i] == jListAt(s, i)) })
}

func kvIs(l []string, s, k string) bool {
	return (l == nil) == jKVNil(s, k) && len(l) == jKVLen(s, k) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(l), l[i] == jKVAt(s, k, i)) })
}

//govc:extern encoding/json.Unmarshal
func extJSONUnmarshal(data []byte, v any, err error) {
	d := string(data)
	if p, ok := v.(*time.Time); ok {
		gvMod(p)
		gvEns("", gvImp(tJSONOK(d), err == nil && tInst(*p) == tJSONInst(d)))
	}
	if p, ok := v.(*Strings); ok {
		gvMod(p, *p)
		gvEns("", gvIff(err == nil, jListOK(d)))
		gvEns("", gvImp(err == nil && jListNull(d), *p == nil))
		gvEns("", gvImp(err == nil && !jListNull(d), *p != nil && listIs(*p, d)))
		gvEns("", gvFresh(*p) || gvBacking(*p) == gvOld(func() mathint { return gvBacking(*p) }))
	}
	if p, ok := v.(*Metadata); ok {
		gvMod(p, *p)
		was := gvOld(func() bool { return *p != nil })
		gvEns("", gvIff(err == nil, jMapOK(d)))
		gvEns("", gvImp(err == nil && jMapNull(d), *p == nil))
		gvEns("", gvImp(err == nil && !jMapNull(d), *p != nil && gvAll(func(k string) bool {
			val, has := (*p)[k]
			oval := gvOld(func() string { return (*p)[k] })
			ohas := gvOld(func() bool { _, h := (*p)[k]; return h })
			return has == (jMapHas(d, k) || was && ohas) && gvImp(jMapHas(d, k), val == jMapAt(d, k)) && gvImp(!jMapHas(d, k) && was && ohas, val == oval)
		})))
		gvEns("", gvImp(err == nil && !was && *p != nil, gvFresh(*p)))
	}
	if p, ok := v.(*KVSet); ok {
		gvMod(p, *p)
		was := gvOld(func() bool { return *p != nil })
		gvEns("", gvIff(err == nil, jKVOK(d)))
		gvEns("", gvImp(err == nil && jKVNull(d), *p == nil))
		gvEns("", gvImp(err == nil && !jKVNull(d), *p != nil && gvAll(func(k string) bool {
			val, has := (*p)[k]
			oval := gvOld(func() []string { return (*p)[k] })
			ohas := gvOld(func() bool { _, h := (*p)[k]; return h })
			return has == (jKVHas(d, k) || was && ohas) && gvImp(jKVHas(d, k), kvIs(val, d, k)) && gvImp(!jKVHas(d, k) && was && ohas, gvSame(val, oval))
		})))
		gvEns("", gvImp(err == nil && !was && *p != nil, gvFresh(*p)))
	}
	if p, ok := v.(*values.MapAny); ok {
		gvMod(p, *p)
		was := gvOld(func() bool { return *p != nil })
		gvEns("", gvIff(err == nil, jObjOK(d)))
		gvEns("", gvImp(err == nil && jObjNull(d), *p == nil))
		gvEns("", gvImp(err == nil && !jObjNull(d) && !was, *p != nil && gvFresh(*p) && cursorMap(*p, d)))
	}
}

func cursorMap(m values.MapAny, d string) bool {
	return gvAll(func(k string) bool {
		val, has := m[k]
		return has == jObjHas(d, k) && gvImp(has, val == jObjAt(d, k))
	})
}

// every string of the list is text encoding/json keeps as it is (valid UTF-8)
//
//govc:abstract
func listText(l []string) bool { return false }

// every key and value of the map is such text

//govc:abstract
func mapText(m Metadata) bool { return false }

//govc:abstract
func kvText(m KVSet) bool { return false }

//govc:extern encoding/json.Marshal
func extJSONMarshal(v any, r []byte, err error) {
	s := string(r)
	if l, ok := v.(Strings); ok {
		gvEns("", err == nil && len(r) > 0 && jListOK(s) && gvIff(jListNull(s), l == nil))
		gvEns("", gvImp(listText(l), listIs(l, s)))
	}
	if m, ok := v.(Metadata); ok {
		gvEns("", err == nil && len(r) > 0 && jMapOK(s) && gvIff(jMapNull(s), m == nil))
		gvEns("", gvImp(mapText(m), mapIs(m, s)))
	}
	if m, ok := v.(KVSet); ok {
		gvEns("", err == nil && len(r) > 0 && jKVOK(s) && gvIff(jKVNull(s), m == nil))
		gvEns("", gvImp(kvText(m), kvsIs(m, s)))
	}
}

func mapIs(m Metadata, s string) bool {
	return gvAll(func(k string) bool {
		val, has := m[k]
		return has == jMapHas(s, k) && gvImp(has, val == jMapAt(s, k))
	})
}

func kvsIs(m KVSet, s string) bool {
	return gvAll(func(k string) bool {
		val, has := m[k]
		return has == jKVHas(s, k) && gvImp(has, kvIs(val, s, k))
	})
}

// ---- JSON-backed columns (C07) ----

// the text of a scanned value
func scanText(value any) string {
	switch b := value.(type) {
	case []byte:
		return string(b)
	case string:
		return b
	}
	return sprintText(value)
}

// what fmt.Sprint prints for one value
//
//govc:abstract
func sprintText(v any) string { return "" }

//govc:extern fmt.Sprint
func extSprint(a []any, r string) {
	gvEns("", gvImp(len(a) == 1, r == scanText(a[0]) || isBytes(a[0])))
}

func isBytes(v any) bool {
	_, ok := v.([]byte)
	return ok
}

//govc:contract (*Strings).Scan
//govc:prop C07
func spStringsScan(n *Strings, value any, err error) {
	gvReq(n != nil)
	gvMod(n)
	t := scanText(value)
	gvEns("NULL gives nil", gvImp(value == nil, err == nil && *n == nil))
	gvEns("empty text gives an empty non-nil list", gvImp(value != nil && t == "", err == nil && *n != nil && len(*n) == 0))
	gvEns("accepts exactly JSON lists of strings", gvImp(value != nil && t != "", gvIff(err == nil, jListOK(t))))
	gvEns("exactly the scanned content", gvImp(value != nil && t != "" && err == nil, gvIff(*n == nil, jListNull(t)) && gvImp(!jListNull(t), listIs(*n, t))))
	gvEns("a failed scan leaves the list as it was", gvImp(err != nil, gvSame(*n, gvOld(func() Strings { return *n }))))
}

func isText(value any) bool {
	switch value.(type) {
	case []byte, string:
		return true
	}
	return false
}

//govc:contract (*Metadata).Scan
//govc:prop C07
func spMetadataScan(n *Metadata, value any, err error) {
	gvReq(n != nil)
	gvMod(n)
	t := scanText(value)
	gvEns("NULL gives nil", gvImp(value == nil, err == nil && *n == nil))
	gvEns("other types are refused", gvImp(value != nil && !isText(value), err != nil))
	gvEns("empty text gives an empty non-nil map", gvImp(isText(value) && t == "", err == nil && *n != nil && gvAll(func(k string) bool { _, has := (*n)[k]; return !has })))
	gvEns("accepts exactly JSON objects of strings", gvImp(isText(value) && t != "", gvIff(err == nil, jMapOK(t))))
	gvEns("exactly the scanned content", gvImp(isText(value) && t != "" && err == nil, gvIff(*n == nil, jMapNull(t)) && gvImp(!jMapNull(t), mapIs(*n, t))))
	gvEns("a failed scan leaves the map as it was", gvImp(err != nil, gvSame(*n, gvOld(func() Metadata { return *n }))))
}

//govc:contract (*KVSet).Scan
//govc:prop C07
func spKVSetScan(n *KVSet, value any, err error) {
	gvReq(n != nil)
	gvMod(n)
	t := scanText(value)
	gvEns("NULL gives nil", gvImp(value == nil, err == nil && *n == nil))
	gvEns("other types are refused", gvImp(value != nil && !isText(value), err != nil))
	gvEns("empty text gives an empty non-nil map", gvImp(isText(value) && t == "", err == nil && *n != nil && gvAll(func(k string) bool { _, has := (*n)[k]; return !has })))
	gvEns("accepts exactly JSON objects of string lists", gvImp(isText(value) && t != "", gvIff(err == nil, jKVOK(t))))
	gvEns("exactly the scanned content", gvImp(isText(value) && t != "" && err == nil, gvIff(*n == nil, jKVNull(t)) && gvImp(!jKVNull(t), kvsIs(*n, t))))
	gvEns("a failed scan leaves the map as it was", gvImp(err != nil, gvSame(*n, gvOld(func() KVSet { return *n }))))
}

//govc:contract (Strings).Value
//govc:prop C07
func spStringsValue(n Strings, r driver.Value, err error) {
	s, isS := r.(string)
	gvEns("nil is NULL", gvImp(n == nil, err == nil && r == nil))
	gvEns("a list is written as text", gvImp(n != nil, err == nil && isS && s != ""))
	gvEns("a list is written as JSON", gvImp(n != nil, jListOK(s) && !jListNull(s)))
	gvEns("a list is written as its JSON", gvImp(n != nil, gvImp(listText(n), listIs(n, s))))
}

//govc:contract (Metadata).Value
//govc:prop C07
func spMetadataValue(n Metadata, r driver.Value, err error) {
	s, isS := r.(string)
	gvEns("nil or empty is NULL", gvImp(len(n) == 0, err == nil && r == nil))
	gvEns("a map is written as its JSON", gvImp(len(n) > 0, err == nil && isS && s != "" && jMapOK(s) && !jMapNull(s) && gvImp(mapText(n), mapIs(n, s))))
}

//govc:contract (KVSet).Value
//govc:prop C07
func spKVSetValue(n KVSet, r driver.Value, err error) {
	s, isS := r.(string)
	gvEns("nil or empty is NULL", gvImp(len(n) == 0, err == nil && r == nil))
	gvEns("a map is written as its JSON", gvImp(len(n) > 0, err == nil && isS && s != "" && jKVOK(s) && !jKVNull(s) && gvImp(kvText(n), kvsIs(n, s))))
}

// write, then scan into a column that held something else

func gvStringsTrip(a, prior Strings) (Strings, error) {
	v, err := a.Value()
	if err != nil {
		return nil, err
	}
	err = prior.Scan(v)
	return prior, err
}

//govc:contract gvStringsTrip
//govc:prop C07
func spStringsTrip(a, prior Strings, r Strings, err error) {
	gvReq(listText(a))
	gvEns("a written list scans back equal", err == nil && gvIff(r == nil, a == nil) && len(r) == len(a) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(a), r[i] == a[i]) }))
}

func gvMetadataTrip(a, prior Metadata) (Metadata, error) {
	v, err := a.Value()
	if err != nil {
		return nil, err
	}
	err = prior.Scan(v)
	return prior, err
}

//govc:contract gvMetadataTrip
//govc:prop C07
func spMetadataTrip(a, prior Metadata, r Metadata, err error) {
	gvReq(mapText(a))
	gvEns("a written map scans back equal", err == nil && gvImp(len(a) > 0, gvAll(func(k string) bool {
		x, hx := a[k]
		y, hy := r[k]
		return hx == hy && gvImp(hx, x == y)
	})))
	gvEns("an empty map is NULL and scans back empty", gvImp(len(a) == 0, r == nil))
}

func gvKVSetTrip(a, prior KVSet) (KVSet, error) {
	v, err := a.Value()
	if err != nil {
		return nil, err
	}
	err = prior.Scan(v)
	return prior, err
}

//govc:contract gvKVSetTrip
//govc:prop C07
func spKVSetTrip(a, prior KVSet, r KVSet, err error) {
	gvReq(kvText(a))
	gvEns("a written map scans back equal", err == nil && gvImp(len(a) > 0, gvAll(func(k string) bool {
		x, hx := a[k]
		y, hy := r[k]
		return hx == hy && gvImp(hx, (x == nil) == (y == nil) && len(x) == len(y) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(x), x[i] == y[i]) }))
	})))
	gvEns("an empty map is NULL and scans back empty", gvImp(len(a) == 0, r == nil))
}

// ---- merging ----

//govc:contract (*Metadata).Merge
//govc:prop C07
func spMetadataMerge(n *Metadata, m Metadata, r *Metadata) {
	gvReq(n != nil)
	gvMod(n, *n)
	gvEns("returns the receiver", r == n && *n != nil)
	gvEns("adds every pair of the argument and keeps all others", gvAll(func(k string) bool {
		mv, mh := gvOld(func() string { return m[k] }), gvOld(func() bool { _, h := m[k]; return h })
		ov, oh := gvOld(func() string { return (*n)[k] }), gvOld(func() bool { _, h := (*n)[k]; return h })
		v, h := (*n)[k]
		return h == (mh || oh) && gvImp(mh, v == mv) && gvImp(!mh && oh, v == ov)
	}))
	gvEns("never changes the argument", gvAll(func(k string) bool {
		mv, mh := gvOld(func() string { return m[k] }), gvOld(func() bool { _, h := m[k]; return h })
		v, h := m[k]
		return h == mh && gvImp(h, v == mv)
	}))
}

//govc:loop (*Metadata).Merge
func lpMetadataMerge(n *Metadata, m Metadata) bool {
	return *n != nil && gvAll(func(k string) bool {
		mv, mh := gvOld(func() string { return m[k] }), gvOld(func() bool { _, h := m[k]; return h })
		ov, oh := gvOld(func() string { return (*n)[k] }), gvOld(func() bool { _, h := (*n)[k]; return h })
		v, h := (*n)[k]
		seen := gvVisited(m, k)
		return h == (seen && mh || oh) && gvImp(seen && mh, v == mv) && gvImp(!(seen && mh) && oh, v == ov)
	})
}

//govc:loop (*Metadata).Merge
func lpMetadataMergeArg(n *Metadata, m Metadata) bool {
	return gvAll(func(k string) bool {
		mv, mh := gvOld(func() string { return m[k] }), gvOld(func() bool { _, h := m[k]; return h })
		v, h := m[k]
		return h == mh && gvImp(h, v == mv)
	})
}

//govc:contract (*KVSet).Merge
//govc:prop C07
func spKVSetMerge(n *KVSet, m KVSet, r *KVSet) {
	gvReq(n != nil)
	gvMod(n, *n)
	gvEns("returns the receiver", r == n && *n != nil)
	gvEns("adds every pair of the argument and keeps all others", gvAll(func(k string) bool {
		mv, mh := gvOld(func() []string { return m[k] }), gvOld(func() bool { _, h := m[k]; return h })
		ov, oh := gvOld(func() []string { return (*n)[k] }), gvOld(func() bool { _, h := (*n)[k]; return h })
		v, h := (*n)[k]
		return h == (mh || oh) && gvImp(mh, gvSame(v, mv)) && gvImp(!mh && oh, gvSame(v, ov))
	}))
	gvEns("never changes the argument", gvAll(func(k string) bool {
		mv, mh := gvOld(func() []string { return m[k] }), gvOld(func() bool { _, h := m[k]; return h })
		v, h := m[k]
		return h == mh && gvImp(h, gvSame(v, mv))
	}))
}

//govc:loop (*KVSet).Merge
func lpKVSetMerge(n *KVSet, m KVSet) bool {
	return *n != nil && gvAll(func(k string) bool {
		mv, mh := gvOld(func() []string { return m[k] }), gvOld(func() bool { _, h := m[k]; return h })
		ov, oh := gvOld(func() []string { return (*n)[k] }), gvOld(func() bool { _, h := (*n)[k]; return h })
		v, h := (*n)[k]
		seen := gvVisited(m, k)
		return h == (seen && mh || oh) && gvImp(seen && mh, gvSame(v, mv)) && gvImp(!(seen && mh) && oh, gvSame(v, ov))
	})
}

//govc:loop (*KVSet).Merge
func lpKVSetMergeArg(n *KVSet, m KVSet) bool {
	return gvAll(func(k string) bool {
		mv, mh := gvOld(func() []string { return m[k] }), gvOld(func() bool { _, h := m[k]; return h })
		v, h := m[k]
		return h == mh && gvImp(h, gvSame(v, mv))
	})
}

// ---- ordered listings ----

//govc:loop github.com/effective-security/x/maps.OrderedKeys
func lpOrderedKeys(m Metadata, keys []string) bool {
	return gvFresh(keys) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(keys), hasKey(m, keys[i]) && gvVisited(m, keys[i])) })
}

//govc:loop github.com/effective-security/x/maps.OrderedKeys
func lpOrderedKeysAll(m Metadata, keys []string) bool {
	return gvAll(func(k string) bool {
		return gvImp(gvVisited(m, k), 0 <= gvVisitPos(m, k) && gvVisitPos(m, k) < len(keys) && keys[gvVisitPos(m, k)] == k)
	}) && len(keys) == gvVisitCount(m)
}

//govc:loop github.com/effective-security/x/maps.OrderedKeys
func lpOrderedKeysDistinct(m Metadata, keys []string) bool {
	return gvAll(func(i, j int) bool { return gvImp(0 <= i && i < j && j < len(keys), keys[i] != keys[j]) })
}

func hasKey(m Metadata, k string) bool {
	_, h := m[k]
	return h
}

//govc:contract (Metadata).OrderedKeys
//govc:prop C07
func spOrderedKeys(n Metadata, r []string) {
	gvEns("sorted", gvAll(func(i, j int) bool { return gvImp(0 <= i && i < j && j < len(r), !(r[j] < r[i])) }))
	gvEns("no key twice", gvAll(func(i, j int) bool { return gvImp(0 <= i && i < j && j < len(r), r[i] != r[j]) }))
	gvEns("only keys of the map", gvAll(func(i int) bool { return gvImp(0 <= i && i < len(r), hasKey(n, r[i])) }))
	gvEns("every key of the map", gvAll(func(k string) bool {
		return gvImp(hasKey(n, k), gvEx(func(i int) bool { return 0 <= i && i < len(r) && r[i] == k }))
	}))
}
