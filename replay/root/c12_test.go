package xdb_test

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/effective-security/xdb"
)

func TestVerifC12(t *testing.T) {
	v := vnew(t)
	errIter, errQ := errors.New("iteration failure"), errors.New("query failure")
	ctx := context.WithValue(context.Background(), ctxKey{}, "mine")
	ns := []int{0, 1, 2, 3, 5, 499, 500, 501, 1203}
	for _, n := range ns {
		for _, at := range []int{-1, 0, 1, n / 2, n - 1, n} {
			for _, sf := range []int{0, 1, n/2 + 1, n} {
				for _, args := range [][]any{nil, {int64(1)}, {"x", int64(5), []byte("b")}} {
					v.try("ExecuteListQuery", fmt.Sprintf("rows=%d iteration fails at=%d scan fails at=%d args=%v", n, at, sf, args), func() string {
						f, db := newFake()
						defer db.Close()
						f.n, f.failAt, f.failErr = n, at, errIter
						qScans, qFailAt = 0, sf
						list, err := xdb.ExecuteListQuery[qModel](ctx, db, "SELECT é ?", args...)
						if f.open != 0 {
							return "rows left open"
						}
						log := f.take()
						if len(log) != 1 || !strings.HasPrefix(log[0], `query conn ctx=mine "SELECT é ?"`) || len(f.args) != len(args) {
							return fmt.Sprint("the database got ", log)
						}
						for i := range args {
							if fmt.Sprint(f.args[i].Value) != fmt.Sprint(args[i]) {
								return fmt.Sprint("the database got ", log)
							}
						}
						var want error
						if sf > 0 && sf <= n && (at < 0 || sf <= at) {
							want = qErr
						} else if at >= 0 && at <= n {
							want = errIter
						}
						if want != nil {
							if !errors.Is(err, want) || list != nil {
								return fmt.Sprintf("want error %v: got %d models, %v", want, len(list), err)
							}
							return ""
						}
						if err != nil || len(list) != n {
							return fmt.Sprintf("got %d models, %v", len(list), err)
						}
						for i, m := range list {
							if m == nil || m.N != int64(101+i) || m.who != m {
								return fmt.Sprintf("model %d is %+v", i, m)
							}
						}
						return ""
					})
				}
			}
		}
	}
	v.try("failing query", "", func() string {
		f, db := newFake()
		defer db.Close()
		f.failQ = errQ
		list, err := xdb.ExecuteListQuery[qModel](ctx, db, "q")
		if !errors.Is(err, errQ) || list != nil {
			return fmt.Sprint(list, err)
		}
		m, err := xdb.QueryRow[qModel](ctx, db, "q")
		if !errors.Is(err, errQ) || m != nil {
			return fmt.Sprint(m, err)
		}
		return ""
	})
	for _, n := range []int{0, 1, 3} {
		for _, fail := range []int{0, 1} {
			v.try("QueryRow", fmt.Sprint(n, fail), func() string {
				f, db := newFake()
				defer db.Close()
				f.n = n
				qScans, qFailAt = 0, fail
				m, err := xdb.QueryRow[qModel](ctx, db, "SELECT 1", 7)
				if fail == 0 && f.open != 0 {
					return "rows left open"
				}
				if log := f.take(); len(log) != 1 || log[0] != `query conn ctx=mine "SELECT 1"|=int:7` {
					return fmt.Sprint("the database got ", log)
				}
				if n == 0 || fail == 1 {
					if err == nil || m != nil || fail == 0 && !xdb.IsNotFoundError(err) {
						return fmt.Sprint(m, err)
					}
					return ""
				}
				if err != nil || m == nil || m.N != 101 || m.who != m {
					return fmt.Sprint(m, err)
				}
				return ""
			})
		}
	}
}
