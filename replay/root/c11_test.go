package xdb_test

import (
	"fmt"
	"testing"

	"github.com/effective-security/xdb"
)

func TestVerifC11(t *testing.T) {
	v := vnew(t)
	names := map[string]string{} // parameters -> name
	keys := map[string]string{}  // name -> parameters
	look := func(m *qbModel, b *xdb.QueryParamsBuilder) string {
		cols := fmt.Sprintf("%q", b.GetNullColumns())
		n := b.Name()
		if got := fmt.Sprintf("%q", b.GetNullColumns()); got != cols {
			return "Name changed the null columns from " + cols + " to " + got
		}
		if s := m.check(b); s != "" {
			return "after Name: " + s
		}
		k := m.key(true)
		if o, ok := names[k]; ok && o != n {
			return fmt.Sprintf("the same parameters %s have the names %q and %q", k, o, n)
		}
		if o, ok := keys[n]; ok && o != k {
			return fmt.Sprintf("the parameters %s and %s share the name %q", o, k, n)
		}
		names[k], keys[n] = n, k
		if g := b.Name(); g != n {
			return fmt.Sprintf("asked twice the name is %q and %q", n, g)
		}
		return ""
	}
	for i := 0; i < 4000*v.deep; i++ {
		name := []string{"q", "List"}[i%2]
		b := xdb.NewQueryParams(name)
		m := &qbModel{name: name, set: map[uint32]bool{}}
		every := i%3 == 0
		what := ""
		for k := 0; k < 1+i%9 && what == ""; k++ {
			if what = m.step(v, b); what == "" && (every || v.r.Intn(3) == 0) {
				m.log = append(m.log, "Name")
				what = look(m, b)
			}
		}
		if what == "" {
			what = look(m, b)
		}
		v.try("calls", m.log, func() string { return what })
	}
	// every order of the null columns, and the caller's slice
	for i := 0; i < 200*v.deep; i++ {
		cols := []string{"a", "b", "c", "d", "e"}[:1+v.r.Intn(5)]
		perm := append([]string(nil), cols...)
		v.r.Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
		mine := append([]string(nil), perm...)
		v.try("order of the null columns", perm, func() string {
			a, b := xdb.NewQueryParams("q").SetNullColums(cols), xdb.NewQueryParams("q").SetNullColums(mine)
			if a.Name() != b.Name() {
				return fmt.Sprintf("%v has %q, %v has %q", cols, a.Name(), perm, b.Name())
			}
			if fmt.Sprint(mine) != fmt.Sprint(perm) {
				return fmt.Sprintf("the caller's slice %v became %v", perm, mine)
			}
			return ""
		})
	}
	v.try("case:column names that concatenate alike", "[ab c] and [a bc]", func() string {
		b := xdb.NewQueryParams("q").SetNullColums([]string{"ab", "c"})
		n := b.Name()
		if b.SetNullColums([]string{"a", "bc"}); b.Name() == n {
			return fmt.Sprintf("the null columns changed from [ab c] to [a bc] and the name is still %q", n)
		}
		return ""
	})
}
