package xdb

import (
	"encoding/base64"

	"github.com/effective-security/x/values"
)

// ---- cursors (C25) ----

// base64url text without padding: is it one, what it encodes, and the text that encodes some bytes

//govc:abstract
func b64OK(s string) bool { return false }

//govc:abstract
func b64Of(s string) string { return "" }

//govc:abstract
func b64Text(data string) string { return "" }

// text that needs no escaping in a URL
//
//govc:abstract
func urlSafe(s string) bool { return false }

//govc:extern (*encoding/base64.Encoding).EncodeToString
func extB64Encode(e *base64.Encoding, src []byte, r string) {
	d := string(src)
	gvEns("", gvImp(e == base64.RawURLEncoding, r == b64Text(d) && b64OK(r) && b64Of(r) == d && urlSafe(r)))
}

//govc:extern (*encoding/base64.Encoding).DecodeString
func extB64Decode(e *base64.Encoding, s string, r []byte, err error) {
	gvEns("", gvImp(e == base64.RawURLEncoding, gvIff(err == nil, b64OK(s)) && gvImp(err == nil, string(r) == b64Of(s))))
}

// a JSON text that decodes to a map

//govc:abstract
func jObjOK(s string) bool { return false }

//govc:abstract
func jObjNull(s string) bool { return false }

//govc:abstract
func jObjHas(s, k string) bool { return false }

//govc:abstract
func jObjAt(s, k string) any { return nil }

// asJSON: b is what JSON makes of a
//
//govc:abstract
func asJSON(a, b any) bool { return false }

// jsonable: every key is valid text and every value has a JSON form
//
//govc:abstract
func jsonable(m values.MapAny) bool { return false }

func objIs(m values.MapAny, s string) bool {
	return gvAll(func(k string) bool {
		val, has := m[k]
		return has == jObjHas(s, k) && gvImp(has, asJSON(val, jObjAt(s, k)))
	})
}

//govc:extern github.com/effective-security/x/values.JSON
func extValuesJSON(v any, r string) {
	if m, ok := v.(values.MapAny); ok {
		gvEns("", gvImp(jsonable(m), jObjOK(r) && gvIff(jObjNull(r), m == nil) && objIs(m, r)))
	}
}

//govc:extern github.com/cockroachdb/errors.Wrapf
func extWrapf(err error, format string, args []any, r error) { gvEns("", gvIff(r == nil, err == nil)) }

//govc:contract EncodeCursor
//govc:prop C25
func spEncodeCursor(m values.MapAny, r string) {
	gvEns("the cursor is URL-safe text", urlSafe(r) && b64OK(r))
	gvEns("the cursor holds the JSON form of the map", gvImp(jsonable(m), jObjOK(b64Of(r)) && gvIff(jObjNull(b64Of(r)), m == nil) && objIs(m, b64Of(r))))
}

//govc:contract DecodeCursor
//govc:prop C25
func spDecodeCursor(c string, m values.MapAny, err error) {
	gvEns("well-formed cursors decode, and only those", gvIff(err == nil, b64OK(c) && jObjOK(b64Of(c))))
	gvEns("no map with an error", gvImp(err != nil, m == nil))
	gvEns("the map is the one in the cursor", gvImp(err == nil, gvIff(m == nil, jObjNull(b64Of(c))) && gvImp(m != nil, cursorMap(m, b64Of(c)))))
}

// gvCursorTrip is a client that decodes what it encoded
func gvCursorTrip(m values.MapAny) (values.MapAny, error) { return DecodeCursor(EncodeCursor(m)) }

//govc:contract gvCursorTrip
//govc:prop C25
func spCursorTrip(m values.MapAny, r values.MapAny, err error) {
	gvReq(jsonable(m))
	gvEns("an encoded cursor decodes", err == nil && gvIff(r == nil, m == nil))
	gvEns("to the same keys and values, as JSON represents them", gvAll(func(k string) bool {
		a, has := m[k]
		b, has2 := r[k]
		return has == has2 && gvImp(has, asJSON(a, b))
	}))
}
