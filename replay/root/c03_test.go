package xdb_test

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/effective-security/xdb"
	"gopkg.in/yaml.v3"
)

func TestVerifC03(t *testing.T) {
	v := vnew(t)
	for _, n := range vnums(v) {
		n := n
		v.try("NewID", n, func() string { return idProblem(xdb.NewID(n), n) })
		v.try("sql", n, func() string {
			val, err := xdb.NewID(n).Value()
			if err != nil {
				return "Value: " + err.Error()
			}
			if n == 0 && val != nil {
				return "zero is not NULL"
			}
			if n != 0 && val != any(int64(n)) {
				return fmt.Sprintf("Value %v (%T)", val, val)
			}
			b := xdb.NewID(5)
			if err := b.Scan(val); err != nil {
				return "Scan: " + err.Error()
			}
			return idProblem(b, n)
		})
		for _, src := range []any{n, uint(n), int64(n), int(n)} {
			src := src
			v.try("scan", fmt.Sprintf("%T %v", src, src), func() string {
				b := xdb.NewID(5)
				if err := b.Scan(src); err != nil {
					return "Scan: " + err.Error()
				}
				return idProblem(b, n)
			})
			v.try("scan32", fmt.Sprintf("%T %v", src, src), func() string {
				b := xdb.ID32(5)
				err := b.Scan(src)
				if n <= 0xffffffff {
					if err != nil || uint64(b) != n {
						return fmt.Sprintf("Scan gave %d, %v", b, err)
					}
				} else if err == nil || b != 5 {
					return fmt.Sprintf("out of range value stored as %d, err %v", b, err)
				}
				return ""
			})
		}
		v.try("json", n, func() string {
			js, err := json.Marshal(xdb.NewID(n))
			if err != nil || string(js) != fmt.Sprint(n) {
				return fmt.Sprintf("json %s %v", js, err)
			}
			b := xdb.NewID(9)
			if err := json.Unmarshal(js, &b); err != nil {
				return err.Error()
			}
			return idProblem(b, n)
		})
		v.try("json quoted", n, func() string {
			b := xdb.NewID(9)
			if err := json.Unmarshal([]byte(fmt.Sprintf("%q", fmt.Sprint(n))), &b); err != nil {
				return err.Error()
			}
			return idProblem(b, n)
		})
		v.try("yaml", n, func() string {
			ys, err := yaml.Marshal(xdb.NewID(n))
			if err != nil {
				return err.Error()
			}
			b := xdb.NewID(9)
			if err := yaml.Unmarshal(ys, &b); err != nil {
				return err.Error()
			}
			return idProblem(b, n)
		})
		v.try("text", n, func() string {
			if xdb.IDString(n) != fmt.Sprint(n) || xdb.QuotedIDString(n) != fmt.Sprintf("%q", fmt.Sprint(n)) {
				return "IDString"
			}
			b, err := xdb.ParseID(xdb.NewID(n).String())
			if (err == nil) != (n != 0) {
				return fmt.Sprint(err)
			}
			return idProblem(b, n)
		})
		v.try("id32", n, func() string {
			a := xdb.ID32(n)
			val, err := a.Value()
			b := xdb.ID32(7)
			if err != nil || (a == 0) != (val == nil) || b.Scan(val) != nil || a != b {
				return fmt.Sprintf("sql round trip of %d gave %v %d", a, val, b)
			}
			js, err := json.Marshal(a)
			var c xdb.ID32
			if err != nil || string(js) != fmt.Sprint(uint32(a)) || a.String() != string(js) || json.Unmarshal(js, &c) != nil || c != a {
				return fmt.Sprintf("json round trip of %d gave %s %d", a, js, c)
			}
			return ""
		})
	}
	for _, s := range vtexts(v) {
		s := s
		n, ok := refDec(s, 64)
		v.try("parse", s, func() string {
			b, err := xdb.ParseID(s)
			want := ok && n != 0
			if (err == nil) != want {
				return fmt.Sprintf("ParseID: %v", err)
			}
			if want {
				if p := idProblem(b, n); p != "" {
					return p
				}
			} else if !b.IsZero() {
				return "invalid text gave an ID"
			}
			tr := xdb.TryParseID(s)
			if want != tr.Valid() || want && tr.UInt64() != n {
				return "TryParseID"
			}
			if mustPanic(func() { xdb.MustID(s) }) == want {
				return "MustID"
			}
			u, err := xdb.ParseUint(s)
			if (err == nil) != ok || ok && u != n {
				return fmt.Sprintf("ParseUint: %d %v", u, err)
			}
			return ""
		})
		v.try("unmarshal", s, func() string {
			b := xdb.NewID(5)
			err := b.UnmarshalJSON([]byte(s))
			core := strings.Trim(s, `"`)
			m, mok := refDec(core, 64)
			if core == "" {
				m, mok = 0, true
			}
			if (err == nil) != mok {
				return fmt.Sprintf("UnmarshalJSON: %v", err)
			}
			if mok {
				return idProblem(b, m)
			}
			return idProblem(b, 5)
		})
		v.try("unmarshal32", s, func() string {
			b := xdb.ID32(5)
			err := b.UnmarshalJSON([]byte(s))
			core := strings.Trim(s, `"`)
			m, mok := refDec(core, 32)
			if core == "" || core == "NULL" {
				m, mok = 0, true
			}
			if (err == nil) != mok {
				return fmt.Sprintf("UnmarshalJSON: %v", err)
			}
			if !mok {
				m = 5
			}
			if uint64(b) != m {
				return fmt.Sprintf("holds %d, want %d", b, m)
			}
			return ""
		})
	}
	for _, src := range []any{"12", []byte("12"), 1.5, float32(2), true, int32(3), uint32(3), int8(1), struct{}{}, []int{1}, new(int)} {
		src := src
		v.try("scan type", fmt.Sprintf("%T", src), func() string {
			b := xdb.NewID(5)
			c := xdb.ID32(5)
			if b.Scan(src) == nil || c.Scan(src) == nil {
				return "unsupported type accepted"
			}
			if c != 5 {
				return "changed on error"
			}
			return idProblem(b, 5)
		})
	}
	v.try("scan null", nil, func() string {
		b, c := xdb.NewID(5), xdb.ID32(5)
		if b.Scan(nil) != nil || c.Scan(nil) != nil || c != 0 {
			return "NULL"
		}
		return idProblem(b, 0)
	})
}
