package xdb_test

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"testing"

	"github.com/effective-security/xdb"
)

func TestVerifC07(t *testing.T) {
	v := vnew(t)
	words := []string{"", "a", "b", "aa", "key", "\"q\"", "\\", "\n", "é", "日本", "<&>", "null", "z z", "\u2028", "A", "10", "9"}
	w := func() string { return words[v.r.Intn(len(words))] }
	list := func() xdb.Strings {
		switch v.r.Intn(5) {
		case 0:
			return nil
		case 1:
			return xdb.Strings{}
		}
		var l xdb.Strings
		for i := v.r.Intn(5); i >= 0; i-- {
			l = append(l, w())
		}
		return l
	}
	meta := func() xdb.Metadata {
		switch v.r.Intn(6) {
		case 0:
			return nil
		case 1:
			return xdb.Metadata{}
		}
		m := xdb.Metadata{}
		for i := v.r.Intn(8); i >= 0; i-- {
			m[w()] = w()
		}
		return m
	}
	kv := func() xdb.KVSet {
		switch v.r.Intn(6) {
		case 0:
			return nil
		case 1:
			return xdb.KVSet{}
		}
		m := xdb.KVSet{}
		for i := v.r.Intn(6); i >= 0; i-- {
			m[w()] = list()
		}
		return m
	}
	texts := func() []any {
		l, m, k := list(), meta(), kv()
		jl, _ := json.Marshal(l)
		jm, _ := json.Marshal(m)
		jk, _ := json.Marshal(k)
		out := []any{nil, "", []byte{}, "null", "[]", "{}", "{", "[1]", "[\"a\",", "{\"a\":1}", "{\"a\":[1]}", "x", "true", "3", "[\"a\"] x", " ", "{\"a\":null}", "[null]", "{\"a\":\"b\",\"a\":\"c\"}", "{\"a\":[\"x\",\"y\"],\"a\":[\"z\"]}", "{\"a\":[\"x\",\"y\"],\"b\":[\"q\"]}"}
		for _, b := range [][]byte{jl, jm, jk} {
			out = append(out, string(b), append([]byte(nil), b...))
		}
		return out
	}
	textOf := func(x any) (string, bool) {
		switch s := x.(type) {
		case string:
			return s, true
		case []byte:
			return string(s), true
		}
		return "", false
	}
	for round := 0; round < 60*v.deep; round++ {
		for _, in := range texts() {
			in := in
			txt, isText := textOf(in)
			show := fmt.Sprintf("%T %q", in, txt)
			pl, pm, pk := list(), meta(), kv()
			v.try("Strings.Scan", show+fmt.Sprintf(" into %q", pl), func() string {
				var want xdb.Strings
				werr := error(nil)
				if isText && txt == "" {
					want = xdb.Strings{}
				} else if isText {
					werr = json.Unmarshal([]byte(txt), &want)
				}
				got := append(xdb.Strings(nil), pl...)
				return judge(&got, (&got).Scan(in), want, werr)
			})
			v.try("Metadata.Scan", show+fmt.Sprintf(" into %q", pm), func() string {
				var want xdb.Metadata
				werr := error(nil)
				if isText && txt == "" {
					want = xdb.Metadata{}
				} else if isText {
					werr = json.Unmarshal([]byte(txt), &want)
				}
				got := xdb.Metadata{}
				for k, x := range pm {
					got[k] = x
				}
				return judge(&got, (&got).Scan(in), want, werr)
			})
			v.try("KVSet.Scan", show+fmt.Sprintf(" into %q", pk), func() string {
				var want xdb.KVSet
				werr := error(nil)
				if isText && txt == "" {
					want = xdb.KVSet{}
				} else if isText {
					werr = json.Unmarshal([]byte(txt), &want)
				}
				got := xdb.KVSet{}
				for k, x := range pk {
					got[k] = x
				}
				return judge(&got, (&got).Scan(in), want, werr)
			})
		}
		for _, x := range []any{12, 3.5, true, struct{}{}} {
			x := x
			v.try("Scan of an unsupported type", fmt.Sprintf("%T", x), func() string {
				m, k := xdb.Metadata{"a": "b"}, xdb.KVSet{"a": {"b"}}
				if (&m).Scan(x) == nil || (&k).Scan(x) == nil {
					return "accepted"
				}
				return ""
			})
		}
		l, pl := list(), list()
		v.try("Strings round trip", fmt.Sprintf("%q over %q", l, pl), func() string {
			val, err := l.Value()
			if err != nil {
				return err.Error()
			}
			if (val == nil) != (l == nil) {
				return fmt.Sprintf("nil list is not NULL: %v", val)
			}
			got := append(xdb.Strings(nil), pl...)
			return judge(&got, (&got).Scan(val), l, nil)
		})
		m, pm := meta(), meta()
		v.try("Metadata round trip", fmt.Sprintf("%q over %q", m, pm), func() string {
			val, err := m.Value()
			if err != nil {
				return err.Error()
			}
			if (val == nil) != (len(m) == 0) {
				return fmt.Sprintf("written as %v", val)
			}
			var want xdb.Metadata
			if len(m) > 0 {
				want = m
			}
			got := pm
			return judge(&got, (&got).Scan(val), want, nil)
		})
		k, pk := kv(), kv()
		v.try("KVSet round trip", fmt.Sprintf("%q over %q", k, pk), func() string {
			val, err := k.Value()
			if err != nil {
				return err.Error()
			}
			if (val == nil) != (len(k) == 0) {
				return fmt.Sprintf("written as %v", val)
			}
			var want xdb.KVSet
			if len(k) > 0 {
				want = k
			}
			got := pk
			return judge(&got, (&got).Scan(val), want, nil)
		})
		a, b := meta(), meta()
		v.try("Metadata.Merge", fmt.Sprintf("%q with %q", a, b), func() string {
			want, bc := xdb.Metadata{}, xdb.Metadata{}
			for k, x := range a {
				want[k] = x
			}
			for k, x := range b {
				want[k], bc[k] = x, x
			}
			got := a
			r := (&got).Merge(b)
			if r != &got || !reflect.DeepEqual(map[string]string(got), map[string]string(want)) {
				return fmt.Sprintf("gave %q, want %q", got, want)
			}
			if len(b) != len(bc) || len(b) > 0 && !reflect.DeepEqual(b, bc) {
				return fmt.Sprintf("changed its argument to %q", b)
			}
			return ""
		})
		ka, kb := kv(), kv()
		v.try("KVSet.Merge", fmt.Sprintf("%q with %q", ka, kb), func() string {
			want, bc := xdb.KVSet{}, xdb.KVSet{}
			cp := func(l []string) []string {
				if l == nil {
					return nil
				}
				return append([]string{}, l...)
			}
			for k, x := range ka {
				want[k] = cp(x)
			}
			for k, x := range kb {
				want[k], bc[k] = cp(x), cp(x)
			}
			got := ka
			r := (&got).Merge(kb)
			if r != &got || !reflect.DeepEqual(got, want) {
				return fmt.Sprintf("gave %q, want %q", got, want)
			}
			if len(kb) != len(bc) || len(kb) > 0 && !reflect.DeepEqual(kb, bc) {
				return fmt.Sprintf("changed its argument to %q", kb)
			}
			return ""
		})
		o := meta()
		v.try("ordered listings", fmt.Sprintf("%q", o), func() string {
			var keys, pairs []string
			for k := range o {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				pairs = append(pairs, k, o[k])
			}
			if got := o.OrderedKeys(); len(got) != len(keys) || len(got) > 0 && !reflect.DeepEqual(got, keys) {
				return fmt.Sprintf("keys %q, want %q", got, keys)
			}
			if got := o.OrderedPairs(); len(got) != len(pairs) || len(got) > 0 && !reflect.DeepEqual(got, pairs) {
				return fmt.Sprintf("pairs %q, want %q", got, pairs)
			}
			var seen []string
			o.RangeOrdered(func(k, x string) bool { seen = append(seen, k, x); return true })
			if len(seen) != len(pairs) || len(seen) > 0 && !reflect.DeepEqual(seen, pairs) {
				return fmt.Sprintf("ordered range gave %q, want %q", seen, pairs)
			}
			return ""
		})
	}
}

func judge(p any, err error, want any, werr error) string {
	if (err != nil) != (werr != nil) {
		return fmt.Sprintf("error %v, want %v", err, werr)
	}
	got := reflect.ValueOf(p).Elem().Interface()
	if err == nil && !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("holds %#v, want %#v", got, want)
	}
	return ""
}
