package xdb

import (
	"database/sql"
	"database/sql/driver"
	"time"
)

// ---- times (C09) ----
// A time.Time is read through two abstract observers: its instant, in nanoseconds since January 1 of year 1
// (the zero time's instant is 0), and whether its location is UTC.

//govc:abstract
func tInst(t time.Time) mathint { return 0 }

//govc:abstract
func tUTC(t time.Time) bool { return false }

//govc:axiom
func axTimeZero() bool { return tInst(time.Time{}) == 0 && tUTC(time.Time{}) }

const (
	tMilli = mathint(1000000)
	tSec   = mathint(1000000000)
)

func tEpoch() mathint {
	s := mathint(62135596800)
	return s * tSec
}

func maxMilli() mathint {
	m := mathint(9223372036854775807)
	return m * tMilli
}

// d rounded down to a multiple of step
func tTrunc(i, step mathint) mathint {
	if step <= 0 {
		return i
	}
	return i - gvModE(i, step)
}

//govc:extern (time.Time).UTC
//govc:pure
func extTimeUTC(t time.Time, r time.Time) { gvEns("", tInst(r) == tInst(t) && tUTC(r)) }

//govc:extern (time.Time).Truncate
//govc:pure
func extTimeTruncate(t time.Time, d time.Duration, r time.Time) {
	gvEns("", tInst(r) == tTrunc(tInst(t), gvInt(d)) && gvIff(tUTC(r), tUTC(t)))
}

//govc:extern (time.Time).Add
//govc:pure
func extTimeAdd(t time.Time, d time.Duration, r time.Time) {
	gvEns("", tInst(r) == tInst(t)+gvInt(d) && gvIff(tUTC(r), tUTC(t)))
}

//govc:extern (time.Time).IsZero
//govc:pure
func extTimeIsZero(t time.Time, r bool) { gvEns("", r == (tInst(t) == 0)) }

//govc:extern (time.Time).UnixMilli
//govc:pure
func extTimeUnixMilli(t time.Time, r int64) {
	m := tTrunc(tInst(t)-tEpoch(), tMilli)
	gvEns("", gvImp(m >= 0-maxMilli()-tMilli && m <= maxMilli(), gvInt(r)*tMilli == m))
}

//govc:extern time.Unix
//govc:pure
func extTimeUnix(sec int64, nsec int64, r time.Time) {
	gvReq(sec >= -10000000000000000 && sec <= 10000000000000000)
	gvEns("", tInst(r) == gvInt(sec)*tSec+gvInt(nsec)+tEpoch())
}

//govc:ghost
func nowInst() mathint { return 0 }

//govc:extern time.Now
func extTimeNow(r time.Time) {
	gvModGhost("nowInst", nil)
	gvEns("", tInst(r) == nowInst())
}

// how the time package reads a text in a layout
//
//govc:abstract
func tTextOK(layout, s string) bool { return false }

//govc:abstract
func tTextInst(layout, s string) mathint { return 0 }

//govc:extern time.Parse
//govc:pure
func extTimeParse(layout, s string, r time.Time, err error) {
	gvEns("", gvIff(err == nil, tTextOK(layout, s)))
	gvEns("", gvImp(err == nil, tInst(r) == tTextInst(layout, s)))
}

//govc:extern (time.Time).Format
//govc:pure
func extTimeFormat(t time.Time, layout string, r string) {
	gvEns("", gvImp(layout != "", r != ""))
}

//govc:extern (time.Time).MarshalJSON
func extTimeMarshalJSON(t time.Time, r []byte, err error) {
	gvEns("", gvImp(err == nil, tJSONOK(string(r)) && tJSONInst(string(r)) == tInst(t) && len(r) > 2))
}

// the layout that the library reads a text with
func tLayout(s string) string {
	if len(s) == len(DefaultTimeFormat) {
		return DefaultTimeFormat
	}
	if len(s) == len(time.RFC3339) {
		return time.RFC3339
	}
	if len(s) == len(time.DateTime) {
		return time.DateTime
	}
	if len(s) == len(time.DateOnly) {
		return time.DateOnly
	}
	return time.RFC3339Nano
}

//govc:extern (*database/sql.NullTime).Scan
func extNullTimeScan(n *sql.NullTime, value any, err error) {
	gvMod(n)
	t, ok := value.(time.Time)
	gvEns("", gvImp(value == nil, err == nil && !n.Valid && n.Time == time.Time{}))
	gvEns("", gvImp(ok, err == nil && n.Valid && n.Time == t))
}

//govc:extern (database/sql.NullTime).Value
func extNullTimeValue(n sql.NullTime, r driver.Value, err error) {
	gvEns("", err == nil)
	gvEns("", gvImp(!n.Valid, r == nil))
	gvEns("", gvImp(n.Valid, r == driver.Value(n.Time)))
}

func msInst(i mathint) mathint { return tTrunc(i, tMilli) }

//govc:lemma
//govc:useinit
//govc:prop C09
func lmTimeDefaults() {
	gvEns("times are truncated to milliseconds", DefaultTrucate == time.Millisecond)
}

//govc:contract Now
//govc:prop C09
func spNow(r Time) {
	gvReq(DefaultTrucate == time.Millisecond)
	gvModGhost("nowInst", nil)
	gvEns("is the current time in UTC, to the millisecond", tUTC(time.Time(r)) && tInst(time.Time(r)) == msInst(nowInst()))
}

//govc:contract UTC
//govc:prop C09
func spUTC(t time.Time, r Time) {
	gvReq(DefaultTrucate == time.Millisecond)
	gvEns("is the instant in UTC, to the millisecond", tUTC(time.Time(r)) && tInst(time.Time(r)) == msInst(tInst(t)))
}

//govc:contract FromNow
//govc:prop C09
func spFromNow(after time.Duration, r Time) {
	gvReq(DefaultTrucate == time.Millisecond)
	gvModGhost("nowInst", nil)
	gvEns("is the current time plus the duration in UTC, to the millisecond", tUTC(time.Time(r)) && tInst(time.Time(r)) == msInst(nowInst()+gvInt(after)))
}

//govc:contract FromUnixMilli
//govc:prop C09
func spFromUnixMilli(tm int64, r Time) {
	gvEns("is that instant in UTC", tUTC(time.Time(r)) && tInst(time.Time(r)) == gvInt(tm)*tMilli+tEpoch())
}

//govc:contract (Time).UnixMilli
//govc:prop C09
func spUnixMilli(ns Time, r int64) {
	m := tTrunc(tInst(time.Time(ns))-tEpoch(), tMilli)
	gvEns("milliseconds since the epoch", gvImp(m >= 0-maxMilli()-tMilli && m <= maxMilli(), gvInt(r)*tMilli == m))
}

func gvUnixMilliTrip(tm int64) int64 { return FromUnixMilli(tm).UnixMilli() }

//govc:contract gvUnixMilliTrip
//govc:prop C09
func spUnixMilliTrip(tm int64, r int64) {
	gvEns("milliseconds to time and back is the identity", r == tm)
}

//govc:contract parseTime
//govc:prop C09
func spParseTime0(val string, r Time, err error) {
	gvReq(DefaultTrucate == time.Millisecond)
	l := tLayout(val)
	gvEns("empty text is the zero time", gvImp(val == "", err == nil && r == Time{}))
	gvEns("text that is not a time is refused", gvImp(val != "", gvIff(err == nil, tTextOK(l, val))))
	gvEns("is the instant of the text in UTC, to the millisecond", gvImp(val != "" && err == nil, tUTC(time.Time(r)) && tInst(time.Time(r)) == msInst(tTextInst(l, val))))
	gvEns("no time with an error", gvImp(err != nil, r == Time{}))
}

//govc:contract ParseTime
//govc:prop C09
func spParseTime(val string, r Time) {
	gvReq(DefaultTrucate == time.Millisecond)
	l := tLayout(val)
	gvEns("empty or unreadable text is the zero time", gvImp(val == "" || !tTextOK(l, val), r == Time{}))
	gvEns("is the instant of the text in UTC, to the millisecond", gvImp(val != "" && tTextOK(l, val), tUTC(time.Time(r)) && tInst(time.Time(r)) == msInst(tTextInst(l, val))))
}

//govc:contract (Time).Add
//govc:prop C09
func spTimeAdd(ns Time, after time.Duration, r Time) {
	gvReq(DefaultTrucate == time.Millisecond)
	gvEns("is the time plus the duration in UTC, to the millisecond", tUTC(time.Time(r)) && tInst(time.Time(r)) == msInst(tInst(time.Time(ns))+gvInt(after)))
}

//govc:contract (Time).UTC
//govc:prop C09
func spTimeUTC(ns Time, r time.Time) {
	gvEns("same instant in UTC", tUTC(r) && tInst(r) == tInst(time.Time(ns)))
}

//govc:contract (Time).IsZero
//govc:prop C09
func spTimeIsZero(ns Time, r bool) { gvEns("exactly the zero instant", r == (tInst(time.Time(ns)) == 0)) }

//govc:contract (Time).IsNil
//govc:prop C09
func spTimeIsNil(ns Time, r bool) { gvEns("exactly the zero instant", r == (tInst(time.Time(ns)) == 0)) }

//govc:contract (Time).Ptr
//govc:prop C09
func spTimePtrM(ns Time, r *time.Time) {
	gvEns("nil exactly for the zero time", gvIff(r == nil, tInst(time.Time(ns)) == 0))
	gvEns("otherwise the same instant in UTC", gvImp(r != nil, tUTC(*r) && tInst(*r) == tInst(time.Time(ns))))
	gvEns("does not share memory", gvImp(r != nil, gvFresh(r)))
}

//govc:contract TimePtr
//govc:prop C09
func spTimePtr(val Time, r *time.Time) {
	gvEns("nil exactly for the zero time", gvIff(r == nil, tInst(time.Time(val)) == 0))
	gvEns("otherwise the same instant", gvImp(r != nil, tInst(*r) == tInst(time.Time(val)) && gvIff(tUTC(*r), tUTC(time.Time(val)))))
}

//govc:contract NullTime
//govc:prop C09
func spNullTime(val *time.Time, r sql.NullTime) {
	gvEns("NULL exactly for nil", r.Valid == (val != nil))
	gvEns("the same time", gvImp(val != nil, r.Time == *val))
}

//govc:contract (Time).String
//govc:prop C09
func spTimeString(ns Time, r string) {
	gvReq(DefaultTimeFormat != "")
	gvEns("empty exactly for the zero time", gvIff(r == "", tInst(time.Time(ns)) == 0))
}

//govc:contract (*Time).Scan
//govc:prop C09
func spTimeScan(ns *Time, value any, err error) {
	gvReq(ns != nil && DefaultTrucate == time.Millisecond)
	gvMod(ns)
	s, isText := value.(string)
	t, isTime := value.(time.Time)
	gvEns("NULL is the zero time", gvImp(value == nil, err == nil && *ns == Time{}))
	gvEns("a time keeps its instant, in UTC", gvImp(isTime, err == nil && tUTC(time.Time(*ns)) && tInst(time.Time(*ns)) == tInst(t)))
	gvEns("empty text is the zero time", gvImp(isText && s == "", err == nil && *ns == Time{}))
	gvEns("text that is not a time is refused", gvImp(isText && s != "", gvIff(err == nil, tTextOK(tLayout(s), s))))
	gvEns("text keeps its instant to the millisecond, in UTC", gvImp(isText && s != "" && err == nil, tUTC(time.Time(*ns)) && tInst(time.Time(*ns)) == msInst(tTextInst(tLayout(s), s))))
	gvEns("whatever is accepted is in UTC", gvImp(err == nil, tUTC(time.Time(*ns))))
	gvEns("failed scan leaves the value as it was", gvImp(err != nil, *ns == gvOld(func() Time { return *ns })))
}

//govc:contract (Time).Value
//govc:prop C09
func spTimeValue(ns Time, r driver.Value, err error) {
	t, isTime := r.(time.Time)
	gvEns("no error", err == nil)
	gvEns("NULL exactly for the zero time", gvIff(r == nil, tInst(time.Time(ns)) == 0))
	gvEns("otherwise the instant in UTC", gvImp(r != nil, isTime && tUTC(t) && tInst(t) == tInst(time.Time(ns))))
}

func gvTimeSQL(t Time) (Time, error) {
	var r Time
	v, err := t.Value()
	if err != nil {
		return r, err
	}
	err = r.Scan(v)
	return r, err
}

//govc:contract gvTimeSQL
//govc:prop C09
func spTimeSQL(t Time, r Time, err error) {
	gvReq(DefaultTrucate == time.Millisecond)
	gvEns("SQL round trip keeps the instant", err == nil && tUTC(time.Time(r)) && tInst(time.Time(r)) == tInst(time.Time(t)))
}

//govc:contract (Time).MarshalJSON
//govc:prop C09
func spTimeMarshalJSON(ns Time, r []byte, err error) {
	gvEns("an empty JSON string exactly for the zero time", gvImp(err == nil, gvIff(string(r) == `""`, tInst(time.Time(ns)) == 0)))
	gvEns("the zero time has an encoding", gvImp(tInst(time.Time(ns)) == 0, err == nil))
	gvEns("carries the instant", gvImp(err == nil && tInst(time.Time(ns)) != 0, tJSONOK(string(r)) && tJSONInst(string(r)) == tInst(time.Time(ns)) && len(r) > 2))
}

//govc:contract (*Time).UnmarshalJSON
//govc:prop C09
func spTimeUnmarshalJSON(ns *Time, data []byte, err error) {
	gvReq(ns != nil)
	gvMod(ns)
	d := string(data)
	gvEns("empty is the zero time", gvImp(d == "" || d == `""`, err == nil && *ns == Time{}))
	gvEns("a JSON time keeps its instant, in UTC", gvImp(d != "" && d != `""` && tJSONOK(d), err == nil && tUTC(time.Time(*ns)) && tInst(time.Time(*ns)) == tJSONInst(d)))
	gvEns("whatever is accepted is in UTC", gvImp(err == nil, tUTC(time.Time(*ns))))
	gvEns("failed decoding leaves the value as it was", gvImp(err != nil, *ns == gvOld(func() Time { return *ns })))
}

func gvTimeJSON(t Time) (Time, error) {
	var r Time
	b, err := t.MarshalJSON()
	if err != nil {
		return r, err
	}
	err = r.UnmarshalJSON(b)
	return r, err
}

//govc:contract gvTimeJSON
//govc:prop C09
func spTimeJSON(t Time, r Time, err error) {
	gvEns("JSON round trip keeps the instant", gvImp(err == nil, tUTC(time.Time(r)) && tInst(time.Time(r)) == tInst(time.Time(t))))
}
