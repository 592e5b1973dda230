package xsql_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/effective-security/xdb/xsql"
)

func TestVerifC17(t *testing.T) {
	v := vnew(t)
	bits := []string{"?", "\\?", "\\", "a", "é", "\xff", "$1", "'", "\"", "\\\\?", "??", "\n", " ", "%", "\x00", "日本", "\\n"}
	one := func(d xsql.SQLDialect, frag string, n int) (string, int) {
		args := make([]any, n)
		for i := range args {
			args[i] = i
		}
		q := d.New("X").Expr("["+frag+"]", args...).UseNewLines(false)
		defer q.Close()
		return q.String(), len(q.Args())
	}
	for k := 0; k < 3000*v.deep; k++ {
		var sb strings.Builder
		for i := v.r.Intn(9); i >= 0; i-- {
			sb.WriteString(bits[v.r.Intn(len(bits))])
		}
		f := sb.String()
		want := pgText("[" + f + "]")
		n := strings.Count(want, "$") - strings.Count("["+f+"]", "$")
		if n <= 0 {
			n = 1
		}
		v.try("one fragment", fmt.Sprintf("%q", f), func() string {
			if got, c := one(xsql.Postgres, f, n); strings.TrimSpace(got) != "X "+want || c != n {
				return fmt.Sprintf("%q, want %q", got, "X "+want)
			}
			for _, d := range []xsql.SQLDialect{xsql.NoDialect, xsql.SQLServer} {
				if got, _ := one(d, f, n); strings.TrimSpace(got) != "X ["+f+"]" {
					return fmt.Sprintf("dialect %s: %q, want %q", d.Provider(), got, "X ["+f+"]")
				}
			}
			return ""
		})
		// fragments without arguments are copied
		if !strings.ContainsAny(f, "?") {
			v.try("no arguments", fmt.Sprintf("%q", f), func() string {
				if got, _ := one(xsql.Postgres, f, 0); strings.TrimSpace(got) != "X ["+f+"]" {
					return fmt.Sprintf("%q, want %q", got, f)
				}
				return ""
			})
		}
	}
	v.try("fragment without arguments", "Clause after Where", func() string {
		q := xsql.Postgres.Select("a").From("t").Where("x = ?", 1).Clause("AND tags ? 'k'").Clause("AND y = ?", 2)
		defer q.Close()
		if got := blanks(q.String()); got != "SELECT a FROM t WHERE x = $1 AND tags ? 'k' AND y = $2" {
			return got
		}
		return ""
	})
	for _, n := range []int{9, 10, 11, 99, 100, 101, 1000} {
		v.try("many placeholders", n, func() string {
			q := xsql.Postgres.Select("a").From("t")
			want := "SELECT a FROM t WHERE"
			sep := " "
			for i := 1; i <= n; i++ {
				q.Where("x = ?", i)
				want += fmt.Sprintf("%sx = $%d", sep, i)
				sep = " AND "
			}
			q.In(1, 2, 3)
			want += fmt.Sprintf(" IN ($%d,$%d,$%d)", n+1, n+2, n+3)
			defer q.Close()
			if got := blanks(q.String()); got != want {
				return got
			}
			return ""
		})
	}
	// the counter runs over the whole statement, clauses in any call order, with escapes
	for k := 0; k < 3000*v.deep; k++ {
		g := &gen{r: v.r, d: xsql.Postgres, escape: true}
		kind := v.r.Intn(6)
		var b xsql.Builder
		var m *ref
		what := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					what = fmt.Sprintf("unexpected panic: %v", r)
				}
			}()
			b, m = g.start(kind)
			for i := v.r.Intn(8); i > 0; i-- {
				g.step(b, m, 0, kind)
			}
			what = differs(b, m, true)
		}()
		v.try("statement", m.ops, func() string { return what })
		if what == "" {
			b.Close()
		}
	}
	v.try("case:literal question mark beside a fragment with arguments", "Where(j ? 'k').Where(x=?, 1)", func() string {
		q := xsql.Postgres.Select("a").From("t").Where("j ? 'k'").Where("x = ?", 1)
		defer q.Close()
		if got := blanks(q.String()); got != "SELECT a FROM t WHERE j ? 'k' AND x = $1" {
			return got
		}
		return ""
	})
}
