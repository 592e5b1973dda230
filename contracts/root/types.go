package xdb

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"strings"

	"github.com/cockroachdb/errors"
)

// ---- nullable scalars (C05) ----

//govc:contract (*Int64).Scan
//govc:prop C05
func spInt64Scan(v *Int64, value any, err error) {
	gvReq(v != nil)
	gvMod(v)
	u64, isU64 := value.(uint64)
	i64, isI64 := value.(int64)
	i, isInt := value.(int)
	u, isUint := value.(uint)
	gvEns("NULL resets", gvImp(value == nil, err == nil && *v == 0))
	gvEns("int64", gvImp(isI64, err == nil && int64(*v) == i64))
	gvEns("int", gvImp(isInt, err == nil && int(*v) == i))
	gvEns("uint64 accepted when it fits", gvImp(isU64, gvIff(err == nil, u64 <= 9223372036854775807)))
	gvEns("uint64 value", gvImp(isU64 && err == nil, gvInt(*v) == gvInt(u64)))
	gvEns("uint accepted when it fits", gvImp(isUint, gvIff(err == nil, u <= 9223372036854775807)))
	gvEns("uint value", gvImp(isUint && err == nil, gvInt(*v) == gvInt(u)))
	gvEns("other types refused", gvImp(value != nil && !isU64 && !isI64 && !isInt && !isUint, err != nil))
	gvEns("failed scan leaves the value as it was", gvImp(err != nil, *v == gvOld(func() Int64 { return *v })))
}

//govc:contract (*Int32).Scan
//govc:prop C05
func spInt32Scan(v *Int32, value any, err error) {
	gvReq(v != nil)
	gvMod(v)
	u64, isU64 := value.(uint64)
	i64, isI64 := value.(int64)
	i, isInt := value.(int)
	u, isUint := value.(uint)
	gvEns("NULL resets", gvImp(value == nil, err == nil && *v == 0))
	gvEns("int64 accepted when it fits", gvImp(isI64, gvIff(err == nil, i64 >= -2147483648 && i64 <= 2147483647)))
	gvEns("int64 value", gvImp(isI64 && err == nil, gvInt(*v) == gvInt(i64)))
	gvEns("int accepted when it fits", gvImp(isInt, gvIff(err == nil, i >= -2147483648 && i <= 2147483647)))
	gvEns("int value", gvImp(isInt && err == nil, gvInt(*v) == gvInt(i)))
	gvEns("uint64 accepted when it fits", gvImp(isU64, gvIff(err == nil, u64 <= 2147483647)))
	gvEns("uint64 value", gvImp(isU64 && err == nil, gvInt(*v) == gvInt(u64)))
	gvEns("uint accepted when it fits", gvImp(isUint, gvIff(err == nil, u <= 2147483647)))
	gvEns("uint value", gvImp(isUint && err == nil, gvInt(*v) == gvInt(u)))
	gvEns("other types refused", gvImp(value != nil && !isU64 && !isI64 && !isInt && !isUint, err != nil))
	gvEns("failed scan leaves the value as it was", gvImp(err != nil, *v == gvOld(func() Int32 { return *v })))
}

//govc:abstract
func floatText(s string) bool { return false }

//govc:abstract
func floatOf(s string) float64 { return 0 }

//govc:extern strconv.ParseFloat
func extParseFloat(s string, bits int, r float64, err error) {
	gvEns("", gvImp(bits == 64, gvIff(err == nil, floatText(s))))
	gvEns("", gvImp(bits == 64 && err == nil, gvSame(r, floatOf(s))))
}

//govc:contract (*Float).Scan
//govc:prop C05
func spFloatScan(v *Float, value any, err error) {
	gvReq(v != nil)
	gvMod(v)
	bs, isBytes := value.([]byte)
	u64, isU64 := value.(uint64)
	i64, isI64 := value.(int64)
	i, isInt := value.(int)
	u, isUint := value.(uint)
	f32, isF32 := value.(float32)
	f64, isF64 := value.(float64)
	gvEns("NULL resets", gvImp(value == nil, err == nil && *v == 0))
	gvEns("float64", gvImp(isF64, err == nil && gvSame(float64(*v), f64)))
	gvEns("float32", gvImp(isF32, err == nil && gvSame(float64(*v), float64(f32))))
	gvEns("int64", gvImp(isI64, err == nil && gvSame(float64(*v), float64(i64))))
	gvEns("int", gvImp(isInt, err == nil && gvSame(float64(*v), float64(i))))
	gvEns("uint64", gvImp(isU64, err == nil && gvSame(float64(*v), float64(u64))))
	gvEns("uint", gvImp(isUint, err == nil && gvSame(float64(*v), float64(u))))
	gvEns("bytes accepted when a number", gvImp(isBytes, gvIff(err == nil, floatText(string(bs)))))
	gvEns("bytes value", gvImp(isBytes && err == nil, gvSame(float64(*v), floatOf(string(bs)))))
	gvEns("other types refused", gvImp(value != nil && !isBytes && !isU64 && !isI64 && !isInt && !isUint && !isF32 && !isF64, err != nil))
	gvEns("failed scan leaves the value as it was", gvImp(err != nil, gvSame(*v, gvOld(func() Float { return *v }))))
}

//govc:contract (*Bool).Scan
//govc:prop C05
func spBoolScan(v *Bool, value any, err error) {
	gvReq(v != nil)
	gvMod(v)
	u64, isU64 := value.(uint64)
	i64, isI64 := value.(int64)
	i, isInt := value.(int)
	u, isUint := value.(uint)
	b, isBool := value.(bool)
	gvEns("NULL resets", gvImp(value == nil, err == nil && !bool(*v)))
	gvEns("bool", gvImp(isBool, err == nil && bool(*v) == b))
	gvEns("int64", gvImp(isI64, err == nil && bool(*v) == (i64 != 0)))
	gvEns("int", gvImp(isInt, err == nil && bool(*v) == (i != 0)))
	gvEns("uint64", gvImp(isU64, err == nil && bool(*v) == (u64 != 0)))
	gvEns("uint", gvImp(isUint, err == nil && bool(*v) == (u != 0)))
	gvEns("other types refused", gvImp(value != nil && !isU64 && !isI64 && !isInt && !isUint && !isBool, err != nil))
	gvEns("failed scan leaves the value as it was", gvImp(err != nil, *v == gvOld(func() Bool { return *v })))
}

//govc:contract (Int64).Value
//govc:prop C05
func spInt64Value(v Int64, r driver.Value, err error) {
	gvEns("zero is NULL", gvImp(v == 0, r == nil && err == nil))
	gvEns("value", gvImp(v != 0, r == driver.Value(int64(v)) && err == nil))
}

//govc:contract (Int32).Value
//govc:prop C05
func spInt32Value(v Int32, r driver.Value, err error) {
	gvEns("zero is NULL", gvImp(v == 0, r == nil && err == nil))
	gvEns("value", gvImp(v != 0, r == driver.Value(int64(v)) && err == nil))
}

//govc:contract (Float).Value
//govc:prop C05
func spFloatValue(v Float, r driver.Value, err error) {
	gvEns("zero is NULL", gvImp(v == 0, r == nil && err == nil))
	gvEns("value", gvImp(v != 0, r == driver.Value(float64(v)) && err == nil))
}

//govc:contract (Bool).Value
//govc:prop C05
func spBoolValue(v Bool, r driver.Value, err error) {
	gvEns("false is NULL", gvImp(!bool(v), r == nil && err == nil))
	gvEns("value", gvImp(bool(v), r == driver.Value(true) && err == nil))
}

//govc:contract (Int64).String
//govc:prop C05
func spInt64String(v Int64, r string) {
	gvEns("decimal text of the number", gvIsInt(r) && gvIntVal(r) == gvInt(v))
}

//govc:contract (Int32).String
//govc:prop C05
func spInt32String(v Int32, r string) {
	gvEns("decimal text of the number", gvIsInt(r) && gvIntVal(r) == gvInt(v))
}

//govc:contract (Int64).MarshalJSON
//govc:prop C05
func spInt64MarshalJSON(v Int64, r []byte, err error) {
	gvEns("decimal text of the number", err == nil && gvIsInt(string(r)) && gvIntVal(string(r)) == gvInt(v))
}

//govc:contract (Int32).MarshalJSON
//govc:prop C05
func spInt32MarshalJSON(v Int32, r []byte, err error) {
	gvEns("decimal text of the number", err == nil && gvIsInt(string(r)) && gvIntVal(string(r)) == gvInt(v))
}

//govc:contract (*Int64).UnmarshalJSON
//govc:prop C05
func spInt64UnmarshalJSON(v *Int64, data []byte, err error) {
	gvReq(v != nil)
	gvMod(v)
	s := strings.Trim(string(data), "\"")
	gvEns("accepts exactly empty text, NULL and numbers in range", gvIff(err == nil, s == "" || s == "NULL" || gvIsInt(s) && gvIntVal(s) >= -9223372036854775808 && gvIntVal(s) <= 9223372036854775807))
	gvEns("value", gvImp(err == nil, gvIte(s == "" || s == "NULL", *v == 0, gvInt(*v) == gvIntVal(s))))
	gvEns("failed decoding leaves the value as it was", gvImp(err != nil, *v == gvOld(func() Int64 { return *v })))
}

//govc:contract (*Int32).UnmarshalJSON
//govc:prop C05
func spInt32UnmarshalJSON(v *Int32, data []byte, err error) {
	gvReq(v != nil)
	gvMod(v)
	s := strings.Trim(string(data), "\"")
	gvEns("accepts exactly empty text, NULL and numbers in range", gvIff(err == nil, s == "" || s == "NULL" || gvIsInt(s) && gvIntVal(s) >= -2147483648 && gvIntVal(s) <= 2147483647))
	gvEns("value", gvImp(err == nil, gvIte(s == "" || s == "NULL", *v == 0, gvInt(*v) == gvIntVal(s))))
	gvEns("failed decoding leaves the value as it was", gvImp(err != nil, *v == gvOld(func() Int32 { return *v })))
}

//govc:contract (Bool).String
//govc:prop C05
func spBoolString(v Bool, r string) {
	gvEns("true or false", gvIte(bool(v), r == "true", r == "false"))
}

//govc:contract (Bool).MarshalJSON
//govc:prop C05
func spBoolMarshalJSON(v Bool, r []byte, err error) {
	gvEns("true or false", err == nil && gvIte(bool(v), string(r) == "true", string(r) == "false"))
}

//govc:contract (*Bool).UnmarshalJSON
//govc:prop C05
func spBoolUnmarshalJSON(v *Bool, data []byte, err error) {
	gvReq(v != nil)
	gvMod(v)
	s := strings.Trim(string(data), "\"")
	gvEns("value", err == nil && bool(*v) == (s == "true" || s == "1" || s == "TRUE"))
}

func gvInt64SQL(a, prior Int64) (Int64, error) {
	v, err := a.Value()
	if err != nil {
		return prior, err
	}
	err = prior.Scan(v)
	return prior, err
}

//govc:contract gvInt64SQL
//govc:prop C05
func spInt64SQL(a, prior Int64, r Int64, err error) {
	gvEns("write then scan is the identity", err == nil && r == a)
}

func gvInt32SQL(a, prior Int32) (Int32, error) {
	v, err := a.Value()
	if err != nil {
		return prior, err
	}
	err = prior.Scan(v)
	return prior, err
}

//govc:contract gvInt32SQL
//govc:prop C05
func spInt32SQL(a, prior Int32, r Int32, err error) {
	gvEns("write then scan is the identity", err == nil && r == a)
}

func gvFloatSQL(a, prior Float) (Float, error) {
	v, err := a.Value()
	if err != nil {
		return prior, err
	}
	err = prior.Scan(v)
	return prior, err
}

//govc:contract gvFloatSQL
//govc:prop C05
func spFloatSQL(a, prior Float, r Float, err error) {
	gvEns("write then scan is the identity", err == nil && (r == a || gvSame(r, a)))
}

func gvBoolSQL(a, prior Bool) (Bool, error) {
	v, err := a.Value()
	if err != nil {
		return prior, err
	}
	err = prior.Scan(v)
	return prior, err
}

//govc:contract gvBoolSQL
//govc:prop C05
func spBoolSQL(a, prior Bool, r Bool, err error) {
	gvEns("write then scan is the identity", err == nil && r == a)
}

func gvInt64JSON(a, prior Int64) (Int64, error) {
	js, err := a.MarshalJSON()
	if err != nil {
		return prior, err
	}
	err = prior.UnmarshalJSON(js)
	return prior, err
}

//govc:contract gvInt64JSON
//govc:prop C05
func spInt64JSON(a, prior Int64, r Int64, err error) {
	gvEns("JSON text reads back as the same value", err == nil && r == a)
}

func gvInt32JSON(a, prior Int32) (Int32, error) {
	js, err := a.MarshalJSON()
	if err != nil {
		return prior, err
	}
	err = prior.UnmarshalJSON(js)
	return prior, err
}

//govc:contract gvInt32JSON
//govc:prop C05
func spInt32JSON(a, prior Int32, r Int32, err error) {
	gvEns("JSON text reads back as the same value", err == nil && r == a)
}

func gvBoolJSON(a, prior Bool) (Bool, error) {
	js, err := a.MarshalJSON()
	if err != nil {
		return prior, err
	}
	err = prior.UnmarshalJSON(js)
	return prior, err
}

//govc:contract gvBoolJSON
//govc:prop C05
func spBoolJSON(a, prior Bool, r Bool, err error) {
	gvEns("JSON text reads back as the same value", err == nil && r == a)
}

// ---- text and UUID (C08) ----

//govc:extern (*database/sql.NullString).Scan
func extNullStringScan(ns *sql.NullString, value any, err error) {
	gvMod(ns)
	s, isS := value.(string)
	b, isB := value.([]byte)
	gvEns("", gvImp(value == nil, err == nil && !ns.Valid && ns.String == ""))
	gvEns("", gvImp(isS, err == nil && ns.Valid && ns.String == s))
	gvEns("", gvImp(isB, err == nil && ns.Valid && ns.String == string(b)))
}

//govc:contract (*NULLString).Scan
//govc:prop C08
func spNULLStringScan(ns *NULLString, value any, err error) {
	gvReq(ns != nil)
	gvMod(ns)
	s, isS := value.(string)
	b, isB := value.([]byte)
	gvEns("NULL is empty", gvImp(value == nil, err == nil && *ns == ""))
	gvEns("exact text", gvImp(isS, err == nil && string(*ns) == s))
	gvEns("exact bytes", gvImp(isB, err == nil && string(*ns) == string(b)))
	gvEns("failed scan leaves the value as it was", gvImp(err != nil, *ns == gvOld(func() NULLString { return *ns })))
}

//govc:contract (NULLString).Value
//govc:prop C08
func spNULLStringValue(ns NULLString, r driver.Value, err error) {
	gvEns("empty is NULL", gvImp(ns == "", r == nil && err == nil))
	gvEns("text unchanged", gvImp(ns != "", r == driver.Value(string(ns)) && err == nil))
}

//govc:contract (NULLString).String
//govc:prop C08
func spNULLStringString(ns NULLString, r string) { gvEns("text unchanged", r == string(ns)) }

//govc:contract (UUID).String
//govc:prop C08
func spUUIDString(ns UUID, r string) { gvEns("text unchanged", r == string(ns)) }

func hex2(b byte) string { return fmt.Sprintf("%02X", b) }

func uuidText(b []byte) string {
	return hex2(b[3]) + hex2(b[2]) + hex2(b[1]) + hex2(b[0]) + "-" + hex2(b[5]) + hex2(b[4]) + "-" + hex2(b[7]) + hex2(b[6]) + "-" +
		hex2(b[8]) + hex2(b[9]) + "-" + hex2(b[10]) + hex2(b[11]) + hex2(b[12]) + hex2(b[13]) + hex2(b[14]) + hex2(b[15])
}

//govc:contract (*UUID).Scan
//govc:prop C08
func spUUIDScan(ns *UUID, value any, err error) {
	gvReq(ns != nil)
	gvMod(ns)
	s, isS := value.(string)
	b, isB := value.([]byte)
	gvEns("NULL is empty", gvImp(value == nil, err == nil && *ns == ""))
	gvEns("exact text", gvImp(isS, err == nil && string(*ns) == s))
	gvEns("exactly 16 bytes accepted", gvImp(isB, gvIff(err == nil, len(b) == 16)))
	gvEns("canonical text in mixed-endian order", gvImp(isB && err == nil, string(*ns) == uuidText(b)))
	gvEns("other types refused", gvImp(value != nil && !isS && !isB, err != nil))
	gvEns("failed scan leaves the value as it was", gvImp(err != nil, *ns == gvOld(func() UUID { return *ns })))
}

//govc:contract (UUID).Value
//govc:prop C08
func spUUIDValue(ns UUID, r driver.Value, err error) {
	gvEns("empty is NULL", gvImp(ns == "", r == nil && err == nil))
	gvEns("text unchanged", gvImp(ns != "", r == driver.Value(string(ns)) && err == nil))
}

// ---- not found (C15) ----

// the error or something it wraps is target
//
//govc:abstract
func errIs(err, target error) bool { return false }

// the error is or wraps an *ErrorNotFound, and which one
//
//govc:abstract
func errNF(err error) *ErrorNotFound { return nil }

//govc:abstract
func errText(err error) string { return "" }

//govc:iface (error).Error
//govc:pure
func ifError(err error, r string) { gvEns("", r == errText(err)) }

//govc:iface (fmt.Stringer).String
//govc:pure
func ifStringer(v fmt.Stringer, r string) {}

//govc:extern github.com/cockroachdb/errors.Is
func extErrorsIs(err, target error, r bool) {
	gvEns("", r == errIs(err, target))
	gvEns("", gvImp(err == target, r))
	gvEns("", gvImp(err == nil && target != nil, !r))
}

//govc:extern github.com/cockroachdb/errors.As
func extErrorsAs(err error, target any, r bool) {
	if p, ok := target.(**ErrorNotFound); ok {
		gvMod(p)
		gvEns("", r == (errNF(err) != nil))
		gvEns("", gvImp(r, *p == errNF(err)))
		gvEns("", gvImp(err == nil, !r))
		gvEns("", gvImp(!r, *p == gvOld(func() *ErrorNotFound { return *p })))
	}
}

//govc:extern github.com/cockroachdb/errors.WithStack
func extWithStack(err error, r error) {
	gvEns("", gvIff(r == nil, err == nil))
	gvEns("", errNF(r) == errNF(err) && errText(r) == errText(err) && errIs(r, err) && errIs(r, sql.ErrNoRows) == errIs(err, sql.ErrNoRows))
	nf, ok := err.(*ErrorNotFound)
	gvEns("", gvImp(ok && nf != nil, errNF(r) == nf))
	gvEns("", gvImp(err == sql.ErrNoRows, errIs(r, sql.ErrNoRows)))
	gvEns("", r != sql.ErrNoRows)
}

var _ = errors.New

//govc:contract IsNotFoundError
//govc:prop C15
func spIsNotFoundError(err error, r bool) {
	gvEns("nil is never not-found", gvImp(err == nil, !r))
	gvEns("exactly the no-rows error, its wrappers and texts, and not-found records", gvImp(err != nil, r == (err == sql.ErrNoRows || errIs(err, sql.ErrNoRows) || errNF(err) != nil || strings.Contains(errText(err), "no rows in result set"))))
}

//govc:contract CheckNotFoundError
//govc:prop C15
func spCheckNotFoundError(err error, table string, id any, r error) {
	noRows := err != nil && (err == sql.ErrNoRows || errIs(err, sql.ErrNoRows) || strings.Contains(errText(err), "no rows in result set"))
	gvEns("nil passes through", gvImp(err == nil, r == nil))
	nf := errNF(r)
	gvEns("becomes a not-found record error with the cause, table and id", gvImp(noRows, r != nil && nf != nil && nf.Err == err && nf.Table == table && nf.ID == nfText(id)))
	gvEns("other errors keep their identity", gvImp(err != nil && !noRows, r != nil && errIs(r, err) && errText(r) == errText(err) && errNF(r) == errNF(err) && r != sql.ErrNoRows && errIs(r, sql.ErrNoRows) == errIs(err, sql.ErrNoRows)))
}

func nfText(id any) string {
	if s, ok := id.(fmt.Stringer); ok {
		return s.String()
	}
	if s, ok := id.(string); ok {
		return s
	}
	return fmt.Sprintf("%v", id)
}

//govc:contract NewErrorNotFound
//govc:prop C15
func spNewErrorNotFound(err error, table string, id any, r error) {
	nf, ok := r.(*ErrorNotFound)
	gvEns("carries the cause, table and id", ok && nf != nil && gvFresh(nf) && nf.Err == err && nf.Table == table && nf.ID == nfText(id))
}

//govc:contract (*ErrorNotFound).Unwrap
//govc:prop C15
func spNFUnwrap(e *ErrorNotFound, r error) {
	gvReq(e != nil)
	gvEns("the cause", r == e.Err)
}

//govc:contract (*ErrorNotFound).Is
//govc:prop C15
func spNFIs(e *ErrorNotFound, target error, r bool) {
	gvReq(e != nil)
	t, ok := target.(*ErrorNotFound)
	gvReq(gvImp(ok, t != nil))
	gvEns("same table and id", r == (ok && e.Table == t.Table && e.ID == t.ID))
}

func gvCheckThenIs(err error, table string, id any) (bool, error) {
	r := CheckNotFoundError(err, table, id)
	return IsNotFoundError(r), r
}

//govc:contract gvCheckThenIs
//govc:prop C15
func spCheckThenIs(err error, table string, id any, nf bool, r error) {
	gvEns("classification is kept by the conversion", nf == (err != nil && (err == sql.ErrNoRows || errIs(err, sql.ErrNoRows) || errNF(err) != nil || strings.Contains(errText(err), "no rows in result set"))))
}
