package xdb_test

import (
	"encoding/json"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/effective-security/xdb"
)

func isUTC(t time.Time) bool { return t.Location() == time.UTC || t.Location().String() == "UTC" }

// same checks a time the library produced: UTC and the wanted instant
func sameTime(got xdb.Time, want time.Time) string {
	g := time.Time(got)
	if !isUTC(g) {
		return fmt.Sprintf("%v is not in UTC", g)
	}
	if !g.Equal(want) {
		return fmt.Sprintf("%v is not %v", g, want)
	}
	return ""
}

func TestVerifC09(t *testing.T) {
	v := vnew(t)
	locs := []*time.Location{time.UTC, time.FixedZone("a", 3600*5+1800), time.FixedZone("b", -3600*11), time.FixedZone("c", 61)}
	var times []time.Time
	for _, s := range []int64{0, 1, -1, 951782400, 1700000000, 253402300799, -62135596800, -62135596799, 4102444800} {
		for _, ns := range []int64{0, 1, 999, 1000000, 999999, 999999999, 123000000, 123456789, 500000000} {
			times = append(times, time.Unix(s, ns))
		}
	}
	for i := 0; i < 100*v.deep; i++ {
		times = append(times, time.Unix(v.r.Int63n(253402300799), v.r.Int63n(1e9)))
	}
	zero := time.Time{}
	for _, t0 := range times {
		t0 := t0.In(locs[v.r.Intn(len(locs))])
		ms := t0.UTC().Truncate(time.Millisecond)
		v.try("time", t0.Format(time.RFC3339Nano), func() string {
			if p := sameTime(xdb.UTC(t0), ms); p != "" {
				return "UTC: " + p
			}
			for _, old := range []xdb.Time{{}, xdb.UTC(time.Unix(1, 0))} {
				d := old
				if err := d.Scan(t0); err != nil {
					return "Scan: " + err.Error()
				}
				if p := sameTime(d, t0); p != "" {
					return "Scan: " + p
				}
			}
			x := xdb.Time(t0)
			isz := t0.Equal(zero)
			if x.IsZero() != isz || x.IsNil() != isz {
				return "IsZero"
			}
			if u := x.UTC(); !u.Equal(t0) || !isUTC(u) {
				return "UTC()"
			}
			p := x.Ptr()
			if (p == nil) != isz || p != nil && (!p.Equal(t0) || !isUTC(*p)) {
				return fmt.Sprint("Ptr ", p)
			}
			tp := xdb.TimePtr(x)
			if (tp == nil) != isz || tp != nil && !tp.Equal(t0) {
				return fmt.Sprint("TimePtr ", tp)
			}
			if nt := xdb.NullTime(tp); nt.Valid != !isz || nt.Valid && !nt.Time.Equal(t0) {
				return fmt.Sprint("NullTime ", nt)
			}
			val, err := x.Value()
			if err != nil || (val == nil) != isz {
				return fmt.Sprint("Value ", val, err)
			}
			if val != nil {
				vt, ok := val.(time.Time)
				if !ok || !vt.Equal(t0) || !isUTC(vt) {
					return fmt.Sprint("Value ", val)
				}
			}
			back := xdb.UTC(time.Unix(5, 0))
			if err := back.Scan(val); err != nil {
				return "SQL round trip: " + err.Error()
			}
			if p := sameTime(back, t0); p != "" {
				return "SQL round trip: " + p
			}
			if y := t0.UTC().Year(); y >= 1 && y <= 9999 {
				js, err := json.Marshal(x)
				if err != nil || (string(js) == `""`) != isz {
					return fmt.Sprintf("json %s %v", js, err)
				}
				for _, old := range []xdb.Time{{}, xdb.UTC(time.Unix(1, 0))} {
					d := old
					if err := json.Unmarshal(js, &d); err != nil {
						return "from json: " + err.Error()
					}
					if p := sameTime(d, t0); p != "" {
						return "from json: " + p
					}
				}
				tx, jerr := t0.MarshalJSON()
				if jerr == nil && t0.Location() != locs[3] {
					var d xdb.Time
					if err := json.Unmarshal(tx, &d); err != nil {
						return "from json with an offset: " + err.Error()
					}
					if p := sameTime(d, t0); p != "" {
						return "from json with an offset: " + p
					}
				}
				s := xdb.UTC(t0).String()
				if (s == "") != xdb.UTC(t0).IsZero() {
					return "String " + s
				}
				if p := sameTime(xdb.ParseTime(s), ms); p != "" {
					return "String and back: " + p
				}
				for _, f := range []string{time.RFC3339Nano, time.RFC3339, time.DateTime, time.DateOnly, xdb.DefaultTimeFormat} {
					if t0.Location() == locs[3] {
						break
					}
					src := t0
					if f == time.DateTime || f == time.DateOnly {
						src = t0.UTC()
					}
					s := src.Format(f)
					want, err := time.Parse(f, s)
					if err != nil {
						continue
					}
					want = want.UTC().Truncate(time.Millisecond)
					if p := sameTime(xdb.ParseTime(s), want); p != "" {
						return "ParseTime " + s + ": " + p
					}
					d := xdb.UTC(time.Unix(5, 0))
					if err := d.Scan(s); err != nil {
						return "Scan " + s + ": " + err.Error()
					}
					if p := sameTime(d, want); p != "" {
						return "Scan " + s + ": " + p
					}
				}
			}
			for _, d := range []time.Duration{0, 1, -1, time.Hour, -time.Hour * 1000, 1234567, 999999} {
				if p := sameTime(xdb.Time(t0).Add(d), t0.Add(d).Truncate(time.Millisecond)); p != "" {
					return "Add " + d.String() + ": " + p
				}
			}
			return ""
		})
	}
	ms := []int64{0, 1, -1, 999, -999, 1000, -1000, -1001, 1001, 1 << 40, -(1 << 40), math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, -62135596800000}
	for i := 0; i < 200*v.deep; i++ {
		ms = append(ms, int64(v.r.Uint64())>>uint(v.r.Intn(63)))
	}
	for _, m := range ms {
		v.try("FromUnixMilli", m, func() string {
			x := xdb.FromUnixMilli(m)
			if !isUTC(time.Time(x)) {
				return "not in UTC"
			}
			if x.UnixMilli() != m {
				return fmt.Sprintf("back to %d", x.UnixMilli())
			}
			if !time.Time(x).Equal(time.UnixMilli(m)) {
				return "another instant"
			}
			return ""
		})
	}
	for _, d := range []time.Duration{0, time.Hour, -time.Hour, 1500 * time.Microsecond} {
		v.try("FromNow", d, func() string {
			a := time.Now().Add(d)
			x := xdb.FromNow(d)
			b := time.Now().Add(d)
			if !isUTC(time.Time(x)) || time.Time(x).Before(a.Truncate(time.Millisecond)) || time.Time(x).After(b) {
				return fmt.Sprint(x, a, b)
			}
			a = time.Now()
			x = xdb.Now()
			b = time.Now()
			if !isUTC(time.Time(x)) || time.Time(x).Before(a.Truncate(time.Millisecond)) || time.Time(x).After(b) {
				return fmt.Sprint(x, a, b)
			}
			return ""
		})
	}
	v.try("zero", "", func() string {
		for _, in := range []any{nil, "", time.Time{}} {
			d := xdb.UTC(time.Unix(5, 0))
			if err := d.Scan(in); err != nil || !d.IsZero() {
				return fmt.Sprintf("Scan %#v: %v %v", in, d, err)
			}
		}
		for _, in := range []string{`""`} {
			d := xdb.UTC(time.Unix(5, 0))
			if err := json.Unmarshal([]byte(in), &d); err != nil || !d.IsZero() {
				return fmt.Sprintf("json %s: %v %v", in, d, err)
			}
		}
		if !xdb.ParseTime("").IsZero() || (xdb.Time{}).String() != "" || xdb.NullTime(nil).Valid {
			return "empty text"
		}
		return ""
	})
	for _, s := range []string{"x", "0", " ", "2020", "2020-13-01", "2020-02-30", "2020-01-01 25:00:00", "2020-01-01T00:00:00", "not a time at all....", "20200101", "2020-01-01T00:00:00+99", "NULL", "2020-01-01T00:00:0012345Z"} {
		v.try("not a time", s, func() string {
			old := xdb.UTC(time.Unix(5, 0))
			d := old
			if err := d.Scan(s); err == nil || d != old {
				return fmt.Sprintf("Scan: %v %v", d, err)
			}
			if !xdb.ParseTime(s).IsZero() {
				return "ParseTime"
			}
			return ""
		})
	}
	for _, x := range []any{5, 1.5, true, struct{}{}, []byte("x"), int64(7)} {
		v.try("unsupported", fmt.Sprintf("%T", x), func() string {
			old := xdb.UTC(time.Unix(5, 0))
			d := old
			if err := d.Scan(x); err == nil || d != old {
				return fmt.Sprintf("Scan: %v %v", d, err)
			}
			return ""
		})
	}
}
