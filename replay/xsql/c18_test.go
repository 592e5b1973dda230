package xsql_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/effective-security/xdb/xsql"
)

type live struct {
	b    xsql.Builder
	m    *ref
	kind int
}

func TestVerifC18(t *testing.T) {
	v := vnew(t)
	dialects := []xsql.SQLDialect{xsql.NoDialect, xsql.Postgres, xsql.SQLServer}
	for k := 0; k < 400*v.deep; k++ {
		pg := k%3 == 1
		g := &gen{r: v.r, d: dialects[k%3]}
		var all []*live
		var log []string
		what := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					what = fmt.Sprintf("unexpected panic: %v", r)
				}
			}()
			for i := 0; i < 40 && what == ""; i++ {
				op := v.r.Intn(10)
				switch {
				case len(all) == 0 || op == 0:
					kind := v.r.Intn(6)
					b, m := g.start(kind)
					all = append(all, &live{b, m, kind})
					log = append(log, fmt.Sprintf("start %d", kind))
					if b.Name() != "" {
						what = "new statement is named " + b.Name()
					}
				case op == 1:
					l := all[v.r.Intn(len(all))]
					log = append(log, fmt.Sprintf("clone of %v", l.m.ops))
					all = append(all, &live{l.b.Clone(), l.m.clone(), l.kind})
				case op == 2 && len(all) > 1:
					j := v.r.Intn(len(all))
					l := all[j]
					all = append(all[:j], all[j+1:]...)
					args, dest := l.b.Args(), l.b.Dest()
					if v.r.Intn(4) == 0 {
						l.b.SetName(fmt.Sprintf("name%d.%d", k, i))
					}
					l.b.Close()
					log = append(log, fmt.Sprintf("close of %v", l.m.ops))
					for _, a := range args {
						if a != nil {
							what = "a closed statement keeps its arguments"
						}
					}
					for _, a := range dest {
						if a != nil {
							what = "a closed statement keeps its scan targets"
						}
					}
				case op == 3:
					l := all[v.r.Intn(len(all))]
					if what = differs(l.b, l.m, pg); what != "" {
						what = fmt.Sprintf("%v: %s", l.m.ops, what)
					}
				default:
					l := all[v.r.Intn(len(all))]
					n := len(l.m.ops)
					g.step(l.b, l.m, 0, l.kind)
					if len(l.m.ops) > n {
						log = append(log, l.m.ops[n:]...)
					}
				}
			}
			for _, l := range all {
				if what == "" {
					if what = differs(l.b, l.m, pg); what != "" {
						what = fmt.Sprintf("%v: %s", l.m.ops, what)
					}
				}
			}
			for _, l := range all {
				l.b.Close()
			}
		}()
		v.try("pool history", log, func() string { return what })
	}
	// the text cache: statements with the same text buffer but a different layout
	v.try("cache", "same buffer, other layout", func() string {
		for _, d := range dialects {
			for round := 0; round < 2; round++ {
				for i, f := range []func() (xsql.Builder, string){
					func() (xsql.Builder, string) { return d.Select("a").From("t").Where("b"), "SELECT a FROM t WHERE b" },
					func() (xsql.Builder, string) { return d.From("t").Select("a").Where("b"), "SELECT a FROM t WHERE b" },
					func() (xsql.Builder, string) { return d.New("SELECT").Expr("a").Clause("FROM t"), "SELECT a FROM t" },
				} {
					q, want := f()
					if got := blanks(q.String()); got != want {
						return fmt.Sprintf("%s %d: %q, want %q", d.Provider(), i, got, want)
					}
					q.Close()
				}
			}
		}
		a := xsql.Postgres.Select("a").From("t").Where("x ? 'k'")
		b := xsql.Postgres.Select("a").From("t").Where("x ? 'k'", 1)
		if got := blanks(a.String()); got != "SELECT a FROM t WHERE x ? 'k'" {
			return got
		}
		if got := blanks(b.String()); got != "SELECT a FROM t WHERE x $1 'k'" {
			return got
		}
		return ""
	})
	// one pool, many goroutines
	v.try("concurrent use of the pool", "", func() string {
		var wg sync.WaitGroup
		res := make([]string, 8)
		for w := range res {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < 300; i++ {
					q := xsql.Postgres.Select(fmt.Sprintf("c%d_%d", w, i)).From("t").Where("a = ?", w)
					c := q.Clone().Limit(i)
					want := fmt.Sprintf("SELECT c%d_%d FROM t WHERE a = $1", w, i)
					if s := blanks(c.String()); s != want+" LIMIT $2" || !same(c.Args(), []any{w, i}) {
						res[w] = fmt.Sprintf("%s %v", s, c.Args())
					}
					c.Close()
					if s := blanks(q.String()); s != want || !same(q.Args(), []any{w}) {
						res[w] = fmt.Sprintf("%s %v", s, q.Args())
					}
					q.Close()
				}
			}(w)
		}
		wg.Wait()
		for _, s := range res {
			if s != "" {
				return s
			}
		}
		return ""
	})
}
