package xdb

import (
	"database/sql/driver"
	"strconv"
	"strings"

	"github.com/lib/pq"
)

// the number an ID stands for
func idNum(v ID) uint64 { return v.id.val() }

// representation invariant: the cached text, when present, is the canonical decimal text
func idOK(v ID) bool {
	return v.id == nil || v.id.str == "" || (v.id.id != 0 && v.id.str == IDString(v.id.id))
}

func idText(v ID) string {
	if idNum(v) == 0 {
		return ""
	}
	return IDString(idNum(v))
}

//govc:contract IDString
//govc:pure
//govc:prop C03
func spIDStringFn(id uint64, r string) {
	gvEns("canonical decimal text", decDigits(r) && decVal(r) == gvInt(id) && len(r) >= 1)
	gvEns("canonical decimal text is strconv's", r == strconv.FormatUint(id, 10))
	gvEns("zero is 0", gvIff(id == 0, r == "0"))
}

//govc:contract ParseUint
//govc:prop C03
func spParseUint(s string, r uint64, err error) {
	gvEns("accepts exactly decimal text in range", gvIff(err == nil, decDigits(s) && decVal(s) <= decMax(64)))
	gvEns("value", gvImp(err == nil, gvInt(r) == decVal(s)))
	gvEns("zero on error", gvImp(err != nil, r == 0))
}

//govc:contract NewID
//govc:prop C03 C04
func spNewID(id uint64, r ID) {
	gvEns("C03: holds the number", idNum(r) == id && idOK(r))
	gvEns("C03: zero has no state", gvImp(id == 0, r.id == nil))
	gvEns("C04: not shared with any other ID", gvImp(id != 0, gvFresh(r.id)))
}

//govc:contract (*idptr).val
//govc:prop C03
func spIdptrVal(v *idptr, r uint64) {
	gvEns("the number, zero for nil", gvIff(v == nil || v.id == 0, r == 0) && gvImp(v != nil, r == v.id))
}

//govc:contract (*idptr).String
//govc:prop C03 C04
func spIdptrString(v *idptr, r string) {
	gvReq(v == nil || v.str == "" || (v.id != 0 && v.str == IDString(v.id)))
	gvMod(&v.str)
	gvEns("C03: canonical text", gvImp(v != nil && v.id != 0, r == IDString(v.id)))
	gvEns("C03: zero is empty", gvImp(v == nil || v.id == 0, r == ""))
	gvEns("C04: keeps the text cache canonical", v == nil || v.str == "" || (v.id != 0 && v.str == IDString(v.id)))
}

//govc:contract (*idptr).QuotedString
//govc:prop C03 C04
func spIdptrQuotedString(v *idptr, r string) {
	gvReq(v == nil || v.str == "" || (v.id != 0 && v.str == IDString(v.id)))
	gvMod(&v.str)
	gvEns("C03: quoted canonical text", gvImp(v != nil && v.id != 0, r == "\""+IDString(v.id)+"\""))
	gvEns("C04: keeps the text cache canonical", v == nil || v.str == "" || (v.id != 0 && v.str == IDString(v.id)))
}

//govc:contract (ID).String
//govc:prop C03 C04
func spIDString(v ID, r string) {
	gvReq(idOK(v))
	gvMod(&v.id.str)
	gvEns("C03: canonical text", r == idText(v))
	gvEns("C04: representation stays canonical", idOK(v))
}

//govc:contract (ID).QuotedString
//govc:prop C03 C04
func spIDQuotedString(v ID, r string) {
	gvReq(idOK(v))
	gvMod(&v.id.str)
	gvEns("C03: quoted canonical text", gvImp(idNum(v) != 0, r == "\""+idText(v)+"\""))
	gvEns("C04: representation stays canonical", idOK(v))
}

//govc:contract (ID).UnderscoreString
//govc:prop C03 C04
func spIDUnderscoreString(v ID, r string) {
	gvReq(idOK(v))
	gvMod(&v.id.str)
	gvEns("C03: underscore and canonical text", gvIte(idNum(v) != 0, r == "_"+idText(v), r == ""))
	gvEns("C04: representation stays canonical", idOK(v))
}

//govc:contract (ID).UInt64
//govc:prop C03
func spIDUInt64(v ID, r uint64) { gvEns("the number", r == idNum(v)) }

//govc:contract (ID).Valid
//govc:prop C03
func spIDValid(v ID, r bool) { gvEns("non-zero", r == (idNum(v) != 0)) }

//govc:contract (ID).Invalid
//govc:prop C03
func spIDInvalid(v ID, r bool) { gvEns("zero", r == (idNum(v) == 0)) }

//govc:contract (ID).IsZero
//govc:prop C03
func spIDIsZero(v ID, r bool) { gvEns("zero", r == (idNum(v) == 0)) }

//govc:contract (*ID).Set
//govc:prop C03 C04
func spIDSet(v *ID, val string, err error) {
	gvReq(v != nil)
	gvMod(v)
	gvEns("C03: accepts exactly non-zero decimal text", gvIff(err == nil, val != "" && val != "0" && decDigits(val) && decVal(val) > 0 && decVal(val) <= decMax(64)))
	gvEns("C03: holds the parsed number", gvImp(err == nil, gvInt(idNum(*v)) == decVal(val) && idOK(*v)))
	gvEns("C04: holds exactly the parsed number, not shared with any other ID", gvImp(err == nil, gvInt(idNum(*v)) == decVal(val) && idOK(*v) && gvFresh(v.id)))
	gvEns("C04: failed set leaves the ID as it was", gvImp(err != nil, v.id == gvOld(func() *idptr { return v.id })))
}

//govc:contract (*ID).Reset
//govc:prop C04
func spIDReset(v *ID) {
	gvReq(v != nil)
	gvMod(v)
	gvEns("holds zero and its own state", idNum(*v) == 0 && idOK(*v) && (v.id == nil || gvFresh(v.id)))
}

//govc:contract ParseID
//govc:prop C03
func spParseID(val string, r ID, err error) {
	gvEns("accepts exactly non-zero decimal text", gvIff(err == nil, val != "" && val != "0" && decDigits(val) && decVal(val) > 0 && decVal(val) <= decMax(64)))
	gvEns("value", gvImp(err == nil, gvInt(idNum(r)) == decVal(val) && idOK(r)))
	gvEns("empty on error", gvImp(err != nil, idNum(r) == 0 && idOK(r)))
}

//govc:contract TryParseID
//govc:prop C03
func spTryParseID(val string, r ID) {
	good := val != "" && val != "0" && decDigits(val) && decVal(val) > 0 && decVal(val) <= decMax(64)
	gvEns("value", gvImp(good, gvInt(idNum(r)) == decVal(val) && idOK(r)))
	gvEns("empty on invalid text", gvImp(!good, idNum(r) == 0 && idOK(r)))
}

//govc:contract MustID
//govc:prop C03
func spMustID(val string, r ID) {
	gvPanics(!(val != "" && val != "0" && decDigits(val) && decVal(val) > 0 && decVal(val) <= decMax(64)))
	gvEns("value", gvInt(idNum(r)) == decVal(val) && idOK(r))
}

//govc:contract (*ID).Scan
//govc:prop C03 C04
func spIDScan(v *ID, value any, err error) {
	gvReq(v != nil)
	gvMod(v)
	gvEns("NULL resets", gvImp(value == nil, err == nil && idNum(*v) == 0 && idOK(*v)))
	u64, isU64 := value.(uint64)
	i64, isI64 := value.(int64)
	gvEns("uint64", gvImp(isU64, err == nil && idNum(*v) == u64 && idOK(*v)))
	gvEns("int64", gvImp(isI64, err == nil && idNum(*v) == uint64(i64) && idOK(*v)))
	i, isInt := value.(int)
	u, isUint := value.(uint)
	gvEns("int", gvImp(isInt, err == nil && idNum(*v) == uint64(i) && idOK(*v)))
	gvEns("uint", gvImp(isUint, err == nil && idNum(*v) == uint64(u) && idOK(*v)))
	gvEns("C03: other types refused", gvImp(value != nil && !isU64 && !isI64 && !isInt && !isUint, err != nil))
	gvEns("C04: failed scan leaves the ID as it was", gvImp(err != nil, v.id == gvOld(func() *idptr { return v.id })))
	gvEns("C04: not shared with any other ID", gvImp(err == nil, v.id == nil || gvFresh(v.id)))
}

//govc:contract (ID).Value
//govc:prop C03
func spIDValue(v ID, r driver.Value, err error) {
	gvEns("no error", err == nil)
	gvEns("zero is NULL", gvImp(idNum(v) == 0, r == nil))
	gvEns("value", gvImp(idNum(v) != 0, r == driver.Value(int64(idNum(v)))))
}

//govc:contract (ID).MarshalJSON
//govc:prop C03
func spIDMarshalJSON(v ID, r []byte, err error) {
	gvEns("canonical decimal text", err == nil && string(r) == IDString(idNum(v)))
}

//govc:contract (*ID).UnmarshalJSON
//govc:prop C03 C04
func spIDUnmarshalJSON(v *ID, data []byte, err error) {
	gvReq(v != nil)
	gvMod(v)
	d := string(data)
	s := strings.Trim(d, "\"")
	gvEns("C03: accepts exactly empty text and decimal text in range", gvIff(err == nil, s == "" || decDigits(s) && decVal(s) <= decMax(64)))
	gvEns("C03: plain number", gvImp(decDigits(d) && decVal(d) <= decMax(64), err == nil && gvInt(idNum(*v)) == decVal(d)))
	gvEns("C03: quoted number", gvImp(len(d) >= 2 && d[0] == '"' && d[len(d)-1] == '"' && decDigits(d[1:len(d)-1]) && decVal(d[1:len(d)-1]) <= decMax(64), err == nil && gvInt(idNum(*v)) == decVal(d[1:len(d)-1])))
	gvEns("holds exactly the decoded number with canonical text", gvImp(err == nil, idOK(*v) && gvIte(s == "", idNum(*v) == 0, gvInt(idNum(*v)) == decVal(s))))
	gvEns("C04: failed decoding leaves the ID as it was", gvImp(err != nil, v.id == gvOld(func() *idptr { return v.id })))
	gvEns("C04: not shared with any other ID", gvImp(err == nil, v.id == nil || gvFresh(v.id)))
}

//govc:contract (ID).MarshalYAML
//govc:prop C03
func spIDMarshalYAML(v ID, r any, err error) {
	gvEns("the number", err == nil && r == any(idNum(v)))
}

// what a YAML decoder callback does with a *uint64 destination
//
//govc:ghost
var ghYAMLVal uint64

//govc:funcval param:(*github.com/effective-security/xdb.ID).UnmarshalYAML.#1
func fvUnmarshalYAML(dst any, err error) {
	p, ok := dst.(*uint64)
	gvMod(dst)
	gvEns("", gvImp(ok && p != nil && err == nil, *p == ghYAMLVal))
}

//govc:contract (*ID).UnmarshalYAML
//govc:prop C03 C04
func spIDUnmarshalYAML(v *ID, unmarshal func(any) error, err error) {
	gvReq(v != nil && unmarshal != nil)
	gvMod(v)
	gvEns("holds exactly the decoded number", gvImp(err == nil, idNum(*v) == ghYAMLVal && idOK(*v)))
	gvEns("C04: failed decoding leaves the ID as it was", gvImp(err != nil, v.id == gvOld(func() *idptr { return v.id })))
	gvEns("C04: not shared with any other ID", gvImp(err == nil, v.id == nil || gvFresh(v.id)))
}

// ---- round trips through the real code ----

func gvIDSQLRoundTrip(a ID) (ID, error) {
	var b ID
	v, err := a.Value()
	if err != nil {
		return b, err
	}
	err = b.Scan(v)
	return b, err
}

//govc:contract gvIDSQLRoundTrip
//govc:prop C03
func spIDSQLRoundTrip(a ID, b ID, err error) {
	gvEns("SQL round trip is the identity", err == nil && idNum(a) == idNum(b))
}

func gvIDJSONRoundTrip(a ID) (ID, error) {
	var b ID
	js, err := a.MarshalJSON()
	if err != nil {
		return b, err
	}
	err = b.UnmarshalJSON(js)
	return b, err
}

//govc:contract gvIDJSONRoundTrip
//govc:prop C03
func spIDJSONRoundTrip(a ID, b ID, err error) {
	gvEns("JSON round trip is the identity", err == nil && idNum(a) == idNum(b) && idOK(b))
}

func gvIDTextRoundTrip(a ID) (ID, error) {
	return ParseID(a.String())
}

//govc:contract gvIDTextRoundTrip
//govc:prop C03
func spIDTextRoundTrip(a ID, b ID, err error) {
	gvReq(idOK(a))
	gvMod(&a.id.str)
	gvEns("text round trip is the identity", gvImp(idNum(a) != 0, err == nil && idNum(a) == idNum(b)))
	gvEns("the empty text of the zero ID is refused", gvImp(idNum(a) == 0, err != nil && idNum(b) == 0))
}

// ---- ID32 ----

//govc:contract (ID32).String
//govc:prop C03
func spID32String(v ID32, r string) {
	gvEns("canonical decimal text", r == IDString(uint64(v)))
}

//govc:contract (ID32).MarshalJSON
//govc:prop C03
func spID32MarshalJSON(v ID32, r []byte, err error) {
	gvEns("canonical decimal text", err == nil && string(r) == IDString(uint64(v)))
}

//govc:contract (*ID32).UnmarshalJSON
//govc:prop C03
func spID32UnmarshalJSON(v *ID32, data []byte, err error) {
	gvReq(v != nil)
	gvMod(v)
	d := string(data)
	s := strings.Trim(d, "\"")
	gvEns("accepts exactly empty text, NULL and decimal text in range", gvIff(err == nil, s == "" || s == "NULL" || decDigits(s) && decVal(s) <= decMax(32)))
	gvEns("plain number", gvImp(decDigits(d) && decVal(d) <= decMax(32), err == nil && gvInt(*v) == decVal(d)))
	gvEns("holds exactly the decoded number", gvImp(err == nil, gvIte(s == "" || s == "NULL", *v == 0, gvInt(*v) == decVal(s))))
	gvEns("failed decoding leaves the value as it was", gvImp(err != nil, *v == gvOld(func() ID32 { return *v })))
}

//govc:contract (*ID32).Scan
//govc:prop C03
func spID32Scan(v *ID32, value any, err error) {
	gvReq(v != nil)
	gvMod(v)
	gvEns("NULL resets", gvImp(value == nil, err == nil && *v == 0))
	u64, isU64 := value.(uint64)
	i64, isI64 := value.(int64)
	i, isInt := value.(int)
	u, isUint := value.(uint)
	gvEns("uint64", gvImp(isU64, gvIff(err == nil, u64 <= 4294967295)))
	gvEns("uint64 value", gvImp(isU64 && err == nil, uint64(*v) == u64))
	gvEns("int64", gvImp(isI64, gvIff(err == nil, i64 >= 0 && i64 <= 4294967295)))
	gvEns("int64 value", gvImp(isI64 && err == nil, int64(*v) == i64))
	gvEns("int", gvImp(isInt, gvIff(err == nil, i >= 0 && i <= 4294967295)))
	gvEns("int value", gvImp(isInt && err == nil, int(*v) == i))
	gvEns("uint", gvImp(isUint, gvIff(err == nil, u <= 4294967295)))
	gvEns("uint value", gvImp(isUint && err == nil, uint(*v) == u))
	gvEns("other types refused", gvImp(value != nil && !isU64 && !isI64 && !isInt && !isUint, err != nil))
	gvEns("failed scan leaves the value as it was", gvImp(err != nil, *v == gvOld(func() ID32 { return *v })))
}

//govc:contract (ID32).Value
//govc:prop C03
func spID32Value(v ID32, r driver.Value, err error) {
	gvEns("zero is NULL", gvImp(v == 0, r == nil && err == nil))
	gvEns("value", gvImp(v != 0, r == driver.Value(int64(v)) && err == nil))
}

func gvID32SQLRoundTrip(a ID32) (ID32, error) {
	var b ID32
	v, err := a.Value()
	if err != nil {
		return b, err
	}
	err = b.Scan(v)
	return b, err
}

//govc:contract gvID32SQLRoundTrip
//govc:prop C03
func spID32SQLRoundTrip(a ID32, b ID32, err error) {
	gvEns("SQL round trip is the identity", err == nil && a == b)
}

func gvID32JSONRoundTrip(a ID32) (ID32, error) {
	var b ID32
	js, err := a.MarshalJSON()
	if err != nil {
		return b, err
	}
	err = b.UnmarshalJSON(js)
	return b, err
}

//govc:contract gvID32JSONRoundTrip
//govc:prop C03
func spID32JSONRoundTrip(a ID32, b ID32, err error) {
	gvEns("JSON round trip is the identity", err == nil && a == b)
}

var _ pq.Int64Array
