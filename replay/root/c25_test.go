package xdb_test

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/effective-security/x/values"
	"github.com/effective-security/xdb"
)

func TestVerifC25(t *testing.T) {
	v := vnew(t)
	texts := []string{"", "a", "<&>", "\u2028", "\"\\\x00\x7f", "日本", "a+b/c=?", "null", "\n", " x "}
	var val func(d int) any
	val = func(d int) any {
		switch v.r.Intn(14) {
		case 0:
			return nil
		case 1:
			return v.r.Intn(2) == 0
		case 2:
			return v.r.Intn(1000) - 500
		case 3:
			return int64(v.r.Uint64())
		case 4:
			return []float64{0, 1.5, -1e300, math.SmallestNonzeroFloat64, 1e21}[v.r.Intn(5)]
		case 5:
			return xdb.NewID(uint64(v.r.Int63()))
		case 6:
			return time.Unix(v.r.Int63n(1<<32), v.r.Int63n(1e9)).UTC()
		case 7:
			if d > 0 {
				return []any{val(d - 1), val(d - 1)}
			}
			return []string{}
		case 8:
			if d > 0 {
				return map[string]any{"k": val(d - 1), texts[v.r.Intn(len(texts))]: val(d - 1)}
			}
			return values.MapAny{}
		case 9:
			return uint32(v.r.Uint32())
		case 10:
			b := make([]byte, v.r.Intn(10))
			v.r.Read(b)
			return b
		}
		return texts[v.r.Intn(len(texts))] + strings.Repeat("z", v.r.Intn(5))
	}
	dec := func(s string) (m map[string]any, ok bool) {
		js, err := base64.RawURLEncoding.DecodeString(s)
		if err != nil || json.Unmarshal(js, &m) != nil {
			return nil, false
		}
		return m, true
	}
	same := func(m values.MapAny, want map[string]any) bool {
		if (m == nil) != (want == nil) || len(m) != len(want) {
			return false
		}
		for k, x := range want {
			y, has := m[k]
			if !has || !reflect.DeepEqual(x, y) {
				return false
			}
		}
		return true
	}
	for i := 0; i < 800*v.deep; i++ {
		m := values.MapAny{}
		for n := v.r.Intn(5); n > 0; n-- {
			m[texts[v.r.Intn(len(texts))]+fmt.Sprint(v.r.Intn(3))] = val(2)
		}
		if i%50 == 0 {
			m = values.MapAny{}
		}
		if i%97 == 0 {
			m = nil
		}
		v.try("case:roundtrip", m, func() string {
			js, err := json.Marshal(m)
			if err != nil {
				return ""
			}
			var want map[string]any
			if err := json.Unmarshal(js, &want); err != nil {
				return ""
			}
			c := xdb.EncodeCursor(m)
			if url.QueryEscape(c) != c || url.PathEscape(c) != c {
				return "the cursor is not URL-safe: " + c
			}
			if js2, _ := json.Marshal(m); string(js2) != string(js) {
				return "the map was changed"
			}
			got, err := xdb.DecodeCursor(c)
			if err != nil {
				return err.Error()
			}
			if !same(got, want) {
				return fmt.Sprintf("%v instead of %v", got, want)
			}
			if again := xdb.EncodeCursor(m); again != c {
				return "encoding is not stable"
			}
			// damaged cursors
			for _, bad := range []string{c + "=", c + "==", c + "*", "+" + c, c + ".", " " + c, c + "/", c[:len(c)/2] + "é" + c[len(c)/2:],
				base64.RawURLEncoding.EncodeToString(append(js, '}')), base64.RawURLEncoding.EncodeToString(js[:len(js)-1]),
				base64.RawURLEncoding.EncodeToString([]byte("[" + string(js) + "]")), base64.StdEncoding.EncodeToString(append([]byte("{\"~~>>??\":1}"), []byte("   ")[:v.r.Intn(3)]...)) + "="} {
				g, err := xdb.DecodeCursor(bad)
				if err == nil {
					return fmt.Sprintf("%q was accepted", bad)
				}
				if g != nil {
					return fmt.Sprintf("%q gave an error and a map", bad)
				}
			}
			return ""
		})
	}
	for i := 0; i < 1500*v.deep; i++ {
		var s string
		switch i % 4 {
		case 0:
			s = base64.RawURLEncoding.EncodeToString([]byte([]string{"", "null", "1", "\"x\"", "[]", "{", "{}", "{\"a\":1,\"a\":2}", "true", "{\"a\":}", "{}{}", " {\"a\":null} ", "{\"a\":1} x", "\xef\xbb\xbf{}", "{\"a\":1,\"b\":1e999}"}[v.r.Intn(15)]))
		case 1:
			b := make([]byte, v.r.Intn(12))
			v.r.Read(b)
			s = base64.RawURLEncoding.EncodeToString(b)
		case 2:
			b := make([]byte, v.r.Intn(12))
			for j := range b {
				b[j] = "eyJhIjoxfQ-_+/="[v.r.Intn(15)]
			}
			s = string(b)
		case 3:
			s = xdb.EncodeCursor(values.MapAny{"a": v.r.Intn(100), "b": "x"})
			s = s[:v.r.Intn(len(s)+1)]
		}
		v.try("case:text", s, func() string {
			want, ok := dec(s)
			got, err := xdb.DecodeCursor(s)
			if ok != (err == nil) {
				return fmt.Sprintf("error %v", err)
			}
			if err != nil && got != nil {
				return "a map with an error"
			}
			if ok && !same(got, want) {
				return fmt.Sprintf("%v instead of %v", got, want)
			}
			return ""
		})
	}
}
