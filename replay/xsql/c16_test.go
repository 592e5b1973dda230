package xsql_test

import (
	"fmt"
	"testing"

	"github.com/effective-security/xdb/xsql"
)

func TestVerifC16(t *testing.T) {
	v := vnew(t)
	dialects := []xsql.SQLDialect{xsql.NoDialect, xsql.SQLServer, xsql.Postgres}
	for k := 0; k < 4000*v.deep; k++ {
		g := &gen{r: v.r, d: dialects[k%3]}
		kind := v.r.Intn(6)
		b, m := g.start(kind)
		if v.r.Intn(4) == 0 {
			b.UseNewLines(false)
		}
		n := v.r.Intn(9)
		if k%50 == 0 {
			n = 40
		}
		var what string
		v.n++
		func() {
			defer func() {
				if r := recover(); r != nil {
					what = fmt.Sprintf("unexpected panic: %v", r)
				}
			}()
			for i := 0; i < n; i++ {
				g.step(b, m, 0, kind)
				if v.r.Intn(6) == 0 {
					if what = differs(b, m, k%3 == 2); what != "" {
						return
					}
				}
			}
			what = differs(b, m, k%3 == 2)
		}()
		v.n--
		v.try("calls", m.ops, func() string { return what })
		if what == "" && v.r.Intn(3) > 0 {
			b.Close()
		}
	}
}
