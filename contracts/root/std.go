package xdb

// Contracts assumed for functions outside the repository (trusted base), shared by every package.

//govc:abstract
func decDigits(s string) bool { return false }

//govc:abstract
func decVal(s string) mathint { return 0 }

// facts about decimal text
//
//govc:axiom
func axDec() bool {
	return decDigits("0") && decVal("0") == 0 && !decDigits("") && !decDigits("NULL")
}

func decMax(bits int) mathint {
	if bits == 32 {
		return 4294967295
	}
	if bits == 16 {
		return 65535
	}
	if bits == 8 {
		return 255
	}
	return gvInt(uint64(18446744073709551615))
}

//govc:extern strconv.FormatUint
//govc:pure
func extFormatUint(i uint64, base int, r string) {
	gvEns("", gvImp(base == 10, decDigits(r) && decVal(r) == gvInt(i) && len(r) >= 1 && len(r) <= 20))
	gvEns("", gvImp(base == 10 && i == 0, r == "0"))
	gvEns("", gvImp(base == 10 && r == "0", i == 0))
	gvEns("", gvImp(base == 10, r[0] >= '0' && r[0] <= '9'))
}

//govc:extern strconv.ParseUint
//govc:pure
func extParseUint(s string, base int, bits int, r uint64, err error) {
	gvEns("", gvImp(base == 10 && err == nil, decDigits(s) && decVal(s) == gvInt(r) && gvInt(r) <= decMax(bits) && len(s) >= 1))
	gvEns("", gvImp(base == 10 && decDigits(s) && decVal(s) <= decMax(bits), err == nil))
	gvEns("", gvImp(base == 10 && (s == "" || s == "NULL"), err != nil))
	gvEns("", gvImp(base == 10 && s == "0", err == nil && r == 0))
}

//govc:extern strings.Trim
//govc:pure
func extTrim(s string, cut string, r string) {
	gvEns("", gvImp(cut == "\"" && decDigits(s), r == s))
	gvEns("", gvImp(s == "", r == ""))
	gvEns("", gvImp(cut == "\"" && gvIsInt(s), r == s))
	gvEns("", gvImp(cut == "\"" && (s == "true" || s == "false"), r == s))
	gvEns("", gvImp(cut == "\"" && len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' && decDigits(s[1:len(s)-1]), r == s[1:len(s)-1]))
	gvEns("", len(r) <= len(s))
}

//govc:extern github.com/cockroachdb/errors.Errorf
func extErrorf(format string, args []any, err error) { gvEns("", err != nil) }

//govc:extern github.com/cockroachdb/errors.New
func extNew(msg string, err error) { gvEns("", err != nil) }

//govc:extern github.com/cockroachdb/errors.Wrap
func extWrap(err error, msg string, r error) { gvEns("", gvIff(r == nil, err == nil)) }

//govc:extern github.com/cockroachdb/errors.WithMessagef
func extWithMessagef(err error, format string, args []any, r error) {
	gvEns("", gvIff(r == nil, err == nil))
}

//govc:extern github.com/cockroachdb/errors.WithMessage
func extWithMessage(err error, msg string, r error) { gvEns("", gvIff(r == nil, err == nil)) }

//govc:extern bytes.Equal
//govc:pure
func extBytesEqual(a, b []byte, r bool) { gvEns("", r == (string(a) == string(b))) }
