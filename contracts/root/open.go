package xdb

import (
	"database/sql"
	"net/url"
	"strings"
	"time"

	"github.com/effective-security/x/configloader"
)

var _ = time.Second
var _ = configloader.ResolveValue

// ---- connection strings (C26) ----

// what a configured value stands for
//
//govc:abstract
func cfgOK(s string) bool { return false }

//govc:abstract
func cfgText(s string) string { return "" }

//govc:extern github.com/effective-security/x/configloader.ResolveValue
func extResolveValue(s string, r string, err error) {
	gvEns("", gvIff(err == nil, cfgOK(s)) && gvImp(err == nil, r == cfgText(s)))
}

//govc:extern strings.TrimSpace
//govc:pure
func extTrimSpace(s string, r string) {}

//govc:extern strings.EqualFold
//govc:pure
func extEqualFold(a, b string, r bool) { gvEns("", gvImp(a == b, r)) }

//govc:extern strings.TrimPrefix
//govc:pure
func extTrimPrefix(s, p string, r string) {
	gvEns("", r == gvIte(strings.HasPrefix(s, p), s[len(p):], s))
}

// the text of a connection string, without quotes and blanks around it
func dsText(s string) string { return strings.TrimSpace(strings.Trim(cfgText(s), "\"")) }

// the parts of a URL text

//govc:abstract
func urlOK(s string) bool { return false }

//govc:abstract
func urlScheme(s string) string { return "" }

//govc:abstract
func urlOpaque(s string) string { return "" }

//govc:abstract
func urlHost(s string) string { return "" }

//govc:abstract
func urlPath(s string) string { return "" }

//govc:abstract
func urlFragment(s string) string { return "" }

//govc:abstract
func urlRawQuery(s string) string { return "" }

//govc:abstract
func urlUserName(s string) string { return "" }

//govc:abstract
func urlHasPwd(s string) bool { return false }

//govc:abstract
func urlPwd(s string) string { return "" }

// the parts of the user information

//govc:abstract
func uiName(u *url.Userinfo) string { return "" }

//govc:abstract
func uiHasPwd(u *url.Userinfo) bool { return false }

//govc:abstract
func uiPwd(u *url.Userinfo) string { return "" }

// the parameters of a query text

//govc:abstract
func queryOK(raw string) bool { return false }

//govc:abstract
func queryHas(raw, k string) bool { return false }

//govc:abstract
func queryVal(raw, k string) string { return "" }

// a parameter that is not there has no value
//
//govc:axiom
func axQuery() bool {
	return gvAll(func(raw, k string) bool { return gvImp(!queryHas(raw, k), queryVal(raw, k) == "") })
}

func hasParam(v url.Values, k string) bool { _, ok := v[k]; return ok }

// the first value of a parameter
func valParam(v url.Values, k string) string {
	x := v[k]
	if len(x) == 0 {
		return ""
	}
	return x[0]
}

//govc:extern net/url.Parse
func extURLParse(s string, u *url.URL, err error) {
	gvEns("", gvIff(err == nil, urlOK(s)))
	gvEns("", gvImp(err == nil, u != nil && gvFresh(u) && u.Scheme == urlScheme(s) && u.Opaque == urlOpaque(s) && u.Host == urlHost(s) &&
		u.Path == urlPath(s) && u.Fragment == urlFragment(s) && u.RawQuery == urlRawQuery(s) &&
		uiName(u.User) == urlUserName(s) && uiHasPwd(u.User) == urlHasPwd(s) && uiPwd(u.User) == urlPwd(s)))
}

//govc:extern (*net/url.URL).String
func extURLString(u *url.URL, r string) {
	gvEns("", urlOK(r) && urlScheme(r) == u.Scheme && urlOpaque(r) == u.Opaque && urlHost(r) == u.Host && urlPath(r) == u.Path &&
		urlFragment(r) == u.Fragment && urlRawQuery(r) == u.RawQuery && urlUserName(r) == uiName(u.User) &&
		urlHasPwd(r) == uiHasPwd(u.User) && urlPwd(r) == uiPwd(u.User))
}

//govc:extern (*net/url.Userinfo).Username
func extUsername(u *url.Userinfo, r string) { gvEns("", r == uiName(u)) }

//govc:extern (*net/url.Userinfo).Password
func extPassword(u *url.Userinfo, r string, ok bool) {
	gvEns("", ok == uiHasPwd(u) && r == uiPwd(u) && gvImp(!ok, r == ""))
}

func paramsOf(v url.Values, raw string) bool {
	return gvAll(func(k string) bool {
		return hasParam(v, k) == queryHas(raw, k) && valParam(v, k) == queryVal(raw, k) && gvAlloc(v[k])
	})
}

//govc:extern (*net/url.URL).Query
func extURLQuery(u *url.URL, v url.Values) {
	gvEns("", v != nil && gvFresh(v) && paramsOf(v, u.RawQuery))
}

//govc:extern net/url.ParseQuery
func extParseQuery(raw string, v url.Values, err error) {
	gvEns("", gvIff(err == nil, queryOK(raw)))
	gvEns("", v != nil && gvFresh(v) && paramsOf(v, raw))
}

//govc:extern (net/url.Values).Get
func extValuesGet(v url.Values, k string, r string) { gvEns("", r == valParam(v, k)) }

//govc:extern (net/url.Values).Del
func extValuesDel(v url.Values, k string) {
	gvMod(v)
	gvEns("", !hasParam(v, k) && othersKept(v, k))
}

//govc:extern (net/url.Values).Set
func extValuesSet(v url.Values, k, x string) {
	gvReq(v != nil)
	gvMod(v)
	gvEns("", hasParam(v, k) && len(v[k]) == 1 && v[k][0] == x && gvFresh(v[k]) && othersKept(v, k))
}

func othersKept(v url.Values, k string) bool {
	return gvAll(func(o string) bool {
		return gvImp(o != k, hasParam(v, o) == gvOld(func() bool { return hasParam(v, o) }) && gvSame(v[o], gvOld(func() []string { return v[o] })))
	})
}

//govc:extern (net/url.Values).Encode
func extValuesEncode(v url.Values, r string) {
	gvEns("", queryOK(r) && gvAll(func(k string) bool { return queryHas(r, k) == hasParam(v, k) && queryVal(r, k) == valParam(v, k) }))
}

// ---- parsing ----

func coalesce(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// the database a connection string names
func urlDatabase(s string) string {
	q := urlRawQuery(s)
	d := coalesce(queryVal(q, "dbname"), queryVal(q, "database"))
	if d == "" && urlScheme(s) == "postgres" {
		return strings.TrimPrefix(urlPath(s), "/")
	}
	return d
}

func readable(s string) bool { return cfgOK(s) && urlOK(dsText(s)) && queryOK(urlRawQuery(dsText(s))) }

//govc:contract ParseConnectionString
//govc:prop C26
func spParseConnectionString(dataSource string, r *Source, err error) {
	s := dsText(dataSource)
	q := urlRawQuery(s)
	gvEns("an error for anything that is not a connection string", gvIff(err == nil, readable(dataSource)) && gvIff(err == nil, r != nil))
	gvEns("the text, driver and host", gvImp(err == nil, r.Source == s && r.Driver == urlScheme(s) && r.Host == urlHost(s)))
	gvEns("the user and password", gvImp(err == nil, r.User == urlUserName(s) && r.Password == gvIte(urlHasPwd(s), urlPwd(s), "")))
	gvEns("the database", gvImp(err == nil, r.Database == urlDatabase(s)))
	gvEns("every parameter", gvImp(err == nil, r.Params != nil && gvAll(func(k string) bool {
		x, ok := r.Params[k]
		return ok == queryHas(q, k) && gvImp(ok, x == queryVal(q, k))
	})))
}

//govc:loop ParseConnectionString
func lpParseConnectionString(s *Source, q url.Values) bool {
	return s != nil && s.Params != nil && gvAll(func(k string) bool {
		x, ok := s.Params[k]
		return ok == (hasParam(q, k) && gvVisited(q, k)) && gvImp(ok, x == valParam(q, k))
	})
}

// ---- opening ----

// r is the connection string s with the parameter set, and nothing else changed but the database it names
func asks(r, s, name, value string) bool {
	return urlOK(r) && urlScheme(r) == urlScheme(s) && urlOpaque(r) == urlOpaque(s) && urlHost(r) == urlHost(s) && urlFragment(r) == urlFragment(s) &&
		urlUserName(r) == urlUserName(s) && urlHasPwd(r) == urlHasPwd(s) && urlPwd(r) == urlPwd(s) &&
		urlPath(r) == gvIte(urlScheme(s) == "postgres", "", urlPath(s)) && queryOK(urlRawQuery(r)) && gvAll(func(k string) bool {
		q, p := urlRawQuery(r), urlRawQuery(s)
		return gvImp(k == name, queryHas(q, k) && queryVal(q, k) == value) &&
			gvImp(k != name && strings.EqualFold(k, name), !queryHas(q, k)) &&
			gvImp(!strings.EqualFold(k, name), queryHas(q, k) == queryHas(p, k) && queryVal(q, k) == queryVal(p, k))
	})
}

//govc:contract withParam
//govc:prop C26
func spWithParam(ds, name, value string, r string, err error) {
	gvEns("an error for anything that is not a URL", gvIff(err == nil, urlOK(ds)))
	gvEns("only the parameter is changed", gvImp(err == nil, asks(r, ds, name, value)))
}

//govc:loop withParam
func lpWithParam(u *url.URL, q url.Values, ds, name string) bool {
	p := urlRawQuery(ds)
	return u != nil && q != nil && gvAll(func(k string) bool {
		return gvImp(hasParam(q, k), queryHas(p, k)) && gvImp(gvVisited(q, k) && strings.EqualFold(k, name), !hasParam(q, k)) &&
			gvImp(!strings.EqualFold(k, name), hasParam(q, k) == queryHas(p, k) && valParam(q, k) == queryVal(p, k))
	})
}

// the driver and the connection string a pool was opened with
//
//govc:abstract
func poolDriver(d *sql.DB) string { return "" }

//govc:abstract
func poolDSN(d *sql.DB) string { return "" }

// the server of a pool has answered
//
//govc:ghost
func GVReached(d *sql.DB) bool { return false }

//govc:extern database/sql.Open
func extSQLOpen(driver, dsn string, d *sql.DB, err error) {
	gvEns("", gvIff(err == nil, d != nil) && gvImp(err == nil, gvFresh(d) && poolDriver(d) == driver && poolDSN(d) == dsn))
}

//govc:extern (*database/sql.DB).Ping
func extDBPing(d *sql.DB, err error) {
	gvReq(d != nil)
	gvModGhost("GVReached", d)
	gvEns("", GVReached(d) == (err == nil))
}

//govc:extern (*database/sql.DB).SetConnMaxIdleTime
func extDBIdle(d *sql.DB, t time.Duration) {}

//govc:extern (*database/sql.DB).SetConnMaxLifetime
func extDBLifetime(d *sql.DB, t time.Duration) {}

func databaseParam(driver string) string {
	if driver == "sqlserver" {
		return "database"
	}
	return "dbname"
}

//govc:contract Open
//govc:prop C26
func spOpen(dataSource, database string, r *sql.DB, driver, ds string, err error) {
	s := dsText(dataSource)
	d := urlScheme(dsText(s))
	gvEns("a connection or an error", gvIff(err == nil, r != nil))
	gvEns("the server was reached", gvImp(r != nil, GVReached(r)))
	gvEns("opened with the driver and connection string reported", gvImp(r != nil, poolDriver(r) == driver && poolDSN(r) == ds))
	gvEns("the driver named", gvImp(r != nil, cfgOK(dataSource) && readable(s) && driver == d))
	gvEns("unchanged when no database is given", gvImp(r != nil && database == "", ds == s))
	gvEns("unknown drivers are refused", gvImp(r != nil && database != "", driver == "postgres" || driver == "sqlserver"))
	gvEns("the database that was asked for, everything else preserved", gvImp(r != nil && database != "", asks(ds, s, databaseParam(d), database)))
}
