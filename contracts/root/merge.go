package xdb

import "reflect"

// ---- merging (C24) ----

// which of the merged types a reflect.Type is
//
//govc:abstract
func typeTag(t reflect.Type) int { return 0 }

//govc:extern reflect.TypeOf
//govc:pure
func extTypeOf(v any, r reflect.Type) {
	_, isTime := v.(Time)
	_, isID := v.(ID)
	_, isText := v.(NULLString)
	gvEns("", typeTag(r) == gvIte(isTime, 1, gvIte(isID, 2, gvIte(isText, 3, 0))))
	gvEns("", gvImp(v != nil, r != nil))
}

// what a reflect.Value holds

//govc:abstract
func rvTime(v reflect.Value) Time { return Time{} }

//govc:abstract
func rvID(v reflect.Value) ID { return ID{} }

//govc:abstract
func rvText(v reflect.Value) NULLString { return "" }

//govc:abstract
func rvTag(v reflect.Value) int { return 0 }

// whether a variable was set, and to what

//govc:ghost
func GVWasSet(v reflect.Value) bool { return false }

//govc:ghost
func GVSetTo(v reflect.Value) reflect.Value { return reflect.Value{} }

//govc:extern (reflect.Value).CanSet
//govc:pure
func extCanSet(v reflect.Value, r bool) {}

//govc:extern (reflect.Value).Interface
//govc:pure
func extInterface(v reflect.Value, r any) {
	gvEns("", gvImp(rvTag(v) == 1, r == any(rvTime(v))))
	gvEns("", gvImp(rvTag(v) == 2, r == any(rvID(v))))
	gvEns("", gvImp(rvTag(v) == 3, r == any(rvText(v))))
}

//govc:extern (reflect.Value).String
//govc:pure
func extRVString(v reflect.Value, r string) {
	gvEns("", gvImp(rvTag(v) == 3, r == string(rvText(v))))
}

//govc:extern (reflect.Value).IsZero
//govc:pure
func extRVIsZero(v reflect.Value, r bool) {
	gvEns("", gvImp(rvTag(v) == 3, r == (rvText(v) == "")))
}

//govc:extern (reflect.Value).Set
func extRVSet(v, x reflect.Value) {
	gvReq(v.CanSet())
	gvModGhost("GVWasSet", v)
	gvModGhost("GVSetTo", v)
	gvEns("", GVWasSet(v) && GVSetTo(v) == x)
}

// gvTransform is what mergo does with a field whose type has a transformer
func gvTransform(typ reflect.Type, dst, src reflect.Value) (bool, error) {
	f := transformers{}.Transformer(typ)
	if f == nil {
		return false, nil
	}
	return true, f(dst, src)
}

// a non-empty ID, time or text
func nonEmpty(v reflect.Value) bool {
	return gvImp(rvTag(v) == 1, !rvTime(v).IsZero()) && gvImp(rvTag(v) == 2, rvID(v).Valid()) && gvImp(rvTag(v) == 3, rvText(v) != "")
}

//govc:contract gvTransform
//govc:prop C24
//govc:useinit
func spTransform(typ reflect.Type, dst, src reflect.Value, found bool, err error) {
	tag := typeTag(typ)
	gvReq(typ != nil && rvTag(dst) == tag && rvTag(src) == tag && dst != src && !GVWasSet(dst) && !GVWasSet(src))
	gvReq(gvImp(tag == 1, typ == typeOfDate) && gvImp(tag == 2, typ == typeOfID) && gvImp(tag == 3, typ == typeOfNULLString))
	gvModGhost("GVWasSet", dst)
	gvModGhost("GVSetTo", dst)
	gvEns("IDs, times and nullable texts are merged by value, other types are left to mergo", found == (tag == 1 || tag == 2 || tag == 3))
	gvEns("merging cannot fail", err == nil)
	gvEns("the destination is overwritten exactly when the source is not empty", gvImp(found, GVWasSet(dst) == (dst.CanSet() && nonEmpty(src))))
	gvEns("with the value of the source", gvImp(GVWasSet(dst), GVSetTo(dst) == src))
}
