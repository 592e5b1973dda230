package xdb_test

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"testing"

	"github.com/effective-security/xdb"
)

func bigOf(x any) *big.Int {
	switch n := x.(type) {
	case int64:
		return big.NewInt(n)
	case int:
		return big.NewInt(int64(n))
	case uint:
		return new(big.Int).SetUint64(uint64(n))
	case uint64:
		return new(big.Int).SetUint64(n)
	}
	return nil
}

func TestVerifC05(t *testing.T) {
	v := vnew(t)
	var ints []any
	for _, n := range vnums(v) {
		ints = append(ints, n, int64(n), int(n), uint(n), -int64(n), -int(n))
	}
	for _, x := range []int64{math.MinInt64, math.MinInt32, math.MinInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, -1} {
		ints = append(ints, x, int(x))
	}
	for _, x := range ints {
		b := bigOf(x)
		v.try("Int64.Scan", fmt.Sprintf("%T(%v)", x, x), func() string {
			d := xdb.Int64(-77)
			err := d.Scan(x)
			if b.IsInt64() {
				if err != nil || int64(d) != b.Int64() || d.Int64() != b.Int64() || d.String() != b.String() {
					return fmt.Sprintf("got %d %v", d, err)
				}
			} else if err == nil || d != -77 {
				return fmt.Sprintf("does not fit: got %d %v", d, err)
			}
			return ""
		})
		v.try("Int32.Scan", fmt.Sprintf("%T(%v)", x, x), func() string {
			d := xdb.Int32(-77)
			err := d.Scan(x)
			if b.IsInt64() && b.Int64() >= math.MinInt32 && b.Int64() <= math.MaxInt32 {
				if err != nil || int64(d) != b.Int64() || d.Int64() != b.Int64() || int64(d.Int32()) != b.Int64() || d.String() != b.String() {
					return fmt.Sprintf("got %d %v", d, err)
				}
			} else if err == nil || d != -77 {
				return fmt.Sprintf("does not fit: got %d %v", d, err)
			}
			return ""
		})
		v.try("Bool.Scan", fmt.Sprintf("%T(%v)", x, x), func() string {
			for _, old := range []xdb.Bool{false, true} {
				d := old
				if err := d.Scan(x); err != nil || bool(d) != (b.Sign() != 0) || d.Bool() != (b.Sign() != 0) {
					return fmt.Sprintf("got %v %v", d, err)
				}
			}
			return ""
		})
		v.try("Float.Scan", fmt.Sprintf("%T(%v)", x, x), func() string {
			d := xdb.Float(-77)
			err := d.Scan(x)
			want, _ := strconv.ParseFloat(b.String(), 64)
			if err != nil || float64(d) != want {
				return fmt.Sprintf("got %v %v, want %v", d, err, want)
			}
			return ""
		})
	}
	fls := []float64{0, 1, -1, 0.1, 1.5, 1e300, -1e-300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 123456789.123456789}
	for i := 0; i < 60*v.deep; i++ {
		fls = append(fls, math.Float64frombits(v.r.Uint64()), v.r.NormFloat64(), float64(float32(v.r.NormFloat64())))
	}
	for _, f := range fls {
		if math.IsNaN(f) {
			continue
		}
		v.try("Float", f, func() string {
			d := xdb.Float(-77)
			if err := d.Scan(f); err != nil || float64(d) != f || d.Float() != f {
				return fmt.Sprintf("scan: got %v %v", d, err)
			}
			d2 := xdb.Float(-77)
			if err := d2.Scan([]byte(strconv.FormatFloat(f, 'g', -1, 64))); err != nil || float64(d2) != f {
				return fmt.Sprintf("scan of text: got %v %v", d2, err)
			}
			f32 := float32(f)
			d3 := xdb.Float(-77)
			if err := d3.Scan(f32); err != nil || float64(d3) != float64(f32) {
				return fmt.Sprintf("scan of float32: got %v %v", d3, err)
			}
			val, err := d.Value()
			if err != nil || (val == nil) != (f == 0) || (val != nil && val != any(f)) {
				return fmt.Sprintf("value: got %v %v", val, err)
			}
			d4 := xdb.Float(-77)
			if err := d4.Scan(val); err != nil || d4 != d {
				return fmt.Sprintf("round trip: got %v %v", d4, err)
			}
			return ""
		})
	}
	// write then scan, JSON
	for _, x := range ints {
		b := bigOf(x)
		if !b.IsInt64() {
			continue
		}
		n := b.Int64()
		v.try("Int64 round trip", n, func() string {
			val, err := xdb.Int64(n).Value()
			if err != nil || (val == nil) != (n == 0) || (val != nil && val != any(n)) {
				return fmt.Sprintf("value: got %#v %v", val, err)
			}
			d := xdb.Int64(-77)
			if err := d.Scan(val); err != nil || int64(d) != n {
				return fmt.Sprintf("round trip: got %v %v", d, err)
			}
			js, err := json.Marshal(xdb.Int64(n))
			if err != nil || string(js) != b.String() {
				return fmt.Sprintf("json: got %s %v", js, err)
			}
			for _, tx := range []string{string(js), `"` + string(js) + `"`} {
				d := xdb.Int64(-77)
				if err := json.Unmarshal([]byte(tx), &d); err != nil || int64(d) != n {
					return fmt.Sprintf("from json %s: got %v %v", tx, d, err)
				}
			}
			return ""
		})
		v.try("Int32 json", n, func() string {
			d := xdb.Int32(-77)
			err := json.Unmarshal([]byte(b.String()), &d)
			if n >= math.MinInt32 && n <= math.MaxInt32 {
				if err != nil || int64(d) != n {
					return fmt.Sprintf("got %v %v", d, err)
				}
				val, err := d.Value()
				if err != nil || (val == nil) != (n == 0) || (val != nil && val != any(n)) {
					return fmt.Sprintf("value: got %#v %v", val, err)
				}
				d2 := xdb.Int32(-77)
				if err := d2.Scan(val); err != nil || d2 != d {
					return fmt.Sprintf("round trip: got %v %v", d2, err)
				}
				js, err := json.Marshal(d)
				if err != nil || string(js) != b.String() {
					return fmt.Sprintf("json: got %s %v", js, err)
				}
			} else if err == nil || d != -77 {
				return fmt.Sprintf("does not fit: got %v %v", d, err)
			}
			return ""
		})
	}
	for _, bv := range []bool{true, false} {
		v.try("Bool round trip", bv, func() string {
			val, err := xdb.Bool(bv).Value()
			if err != nil || (val == nil) != !bv || (val != nil && val != any(true)) {
				return fmt.Sprintf("value: got %#v %v", val, err)
			}
			for _, old := range []xdb.Bool{false, true} {
				d := old
				if err := d.Scan(val); err != nil || bool(d) != bv {
					return fmt.Sprintf("round trip: got %v %v", d, err)
				}
				d = old
				if err := d.Scan(bv); err != nil || bool(d) != bv {
					return fmt.Sprintf("scan: got %v %v", d, err)
				}
				js, _ := json.Marshal(xdb.Bool(bv))
				d = old
				if err := json.Unmarshal(js, &d); err != nil || bool(d) != bv || string(js) != fmt.Sprint(bv) {
					return fmt.Sprintf("json: got %s %v %v", js, d, err)
				}
			}
			return ""
		})
	}
	// unsupported types and malformed text leave the destination untouched
	bad := []any{"", "abc", "12x", struct{}{}, []int{1}, map[string]int{}, true, float32(1.5), 1.5, []byte("x"), []byte("1e999"), []byte(""), complex(1, 2), new(int), any(func() {})}
	for _, x := range bad {
		v.try("unsupported", fmt.Sprintf("%T(%v)", x, x), func() string {
			i64, i32, bo, f := xdb.Int64(-77), xdb.Int32(-77), xdb.Bool(true), xdb.Float(-77)
			if err := i64.Scan(x); err != nil && i64 != -77 || err == nil {
				return fmt.Sprintf("Int64: %v %v", i64, err)
			}
			if err := i32.Scan(x); err != nil && i32 != -77 || err == nil {
				return fmt.Sprintf("Int32: %v %v", i32, err)
			}
			if err := bo.Scan(x); x != any(true) && (err != nil && !bool(bo) || err == nil) {
				return fmt.Sprintf("Bool: %v %v", bo, err)
			}
			switch x.(type) {
			case float32, float64:
			default:
				if err := f.Scan(x); err != nil && f != -77 || err == nil {
					return fmt.Sprintf("Float: %v %v", f, err)
				}
			}
			return ""
		})
	}
	v.try("NULL resets", nil, func() string {
		i64, i32, bo, f := xdb.Int64(-77), xdb.Int32(-77), xdb.Bool(true), xdb.Float(-77)
		e1, e2, e3, e4 := i64.Scan(nil), i32.Scan(nil), bo.Scan(nil), f.Scan(nil)
		if e1 != nil || e2 != nil || e3 != nil || e4 != nil || i64 != 0 || i32 != 0 || bool(bo) || f != 0 {
			return fmt.Sprint(e1, e2, e3, e4, i64, i32, bo, f)
		}
		return ""
	})
}
