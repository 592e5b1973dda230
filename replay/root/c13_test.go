package xdb_test

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"math"
	"testing"

	"github.com/effective-security/xdb"
)

type qRes struct {
	calls  int
	rows   []*qModel
	next   bool
	offset uint32
	cursor func(*qModel) string
}

func (r *qRes) SetResult(rows []*qModel, hasNextPage bool, nextOffset uint32) {
	r.calls++
	r.rows, r.next, r.offset = rows, hasNextPage, nextOffset
}

func (r *qRes) SetResultWithCursor(rows []*qModel, hasNextPage bool, cursor func(lastRow *qModel) string) {
	r.calls++
	r.rows, r.next, r.cursor = rows, hasNextPage, cursor
}

func (r *qRes) check(n int, next bool, off uint32) string {
	if r.calls != 1 || len(r.rows) != n || r.next != next || r.offset != off {
		return fmt.Sprintf("result: calls=%d rows=%d next=%v offset=%d, want rows=%d next=%v offset=%d", r.calls, len(r.rows), r.next, r.offset, n, next, off)
	}
	for i, m := range r.rows {
		if m.N != int64(101+i) {
			return fmt.Sprintf("row %d is %d", i, m.N)
		}
	}
	return ""
}

func TestVerifC13(t *testing.T) {
	v := vnew(t)
	ctx := context.Background()
	limits := []uint32{0, 1, 2, 3, 4, 5, 6, 10, 500, math.MaxUint32}
	offsets := []uint32{0, 1, 7, 1000, math.MaxUint32 - 20, math.MaxUint32 - 4}
	for _, n := range []int{0, 1, 3, 4, 5, 6} {
		for _, limit := range limits {
			for _, offset := range offsets {
				next := limit > 0 && uint32(n) >= limit
				var off uint32
				if next {
					off = offset + uint32(n)
				}
				wrap := next && uint64(offset)+uint64(n) > math.MaxUint32
				plain := [][]any{{limit, offset}, {"x", limit, offset}, {1, "y", sql.NamedArg{Name: "l", Value: limit}, sql.NamedArg{Name: "o", Value: int(offset)}},
					{int(limit), sql.NamedArg{Value: sql.NamedArg{Value: offset}}}}
				for ai, args := range plain {
					v.try("plain arguments", fmt.Sprintf("rows=%d %v", n, args), func() string {
						f, db := newFake()
						defer db.Close()
						f.n = n
						qFailAt = 0
						r := &qRes{}
						if ai == 3 {
							args = append([]any{}, args...)
						}
						if err := xdb.ExecuteQueryWithPagination[qModel](ctx, db, r, "q", args...); err != nil {
							return err.Error()
						}
						if len(f.args) != len(args) || f.open != 0 {
							return fmt.Sprint("the database got ", f.args)
						}
						if wrap {
							r.offset, off = 0, 0
						}
						return r.check(n, next, off)
					})
				}
				qp := xdb.NewQueryParams("q")
				qp.Set(3, "a").Set(1, int64(9)).SetPage(limit, offset)
				lim, ofs := qp.Page()
				pnext := lim > 0 && uint32(n) >= lim
				var poff uint32
				if pnext {
					poff = ofs + uint32(n)
				}
				v.try("query params", fmt.Sprintf("rows=%d limit=%d offset=%d", n, limit, offset), func() string {
					f, db := newFake()
					defer db.Close()
					f.n = n
					qFailAt = 0
					r := &qRes{}
					if err := xdb.ExecuteQueryWithPagination[qModel](ctx, db, r, "q", qp); err != nil {
						return err.Error()
					}
					if len(f.args) != 4 || f.args[0].Value != "a" || f.args[1].Value != int64(9) || f.args[2].Value != lim || f.args[3].Value != ofs {
						return fmt.Sprint("the database got ", f.args)
					}
					if pnext && uint64(ofs)+uint64(n) > math.MaxUint32 {
						r.offset, poff = 0, 0
					}
					return r.check(n, pnext, poff)
				})
				cp := xdb.NewQueryParams("q")
				cp.SetCursor(limit, 2, "cur")
				clim, _ := cp.Cursor()
				for _, args := range [][]any{{cp}, {"z", limit}, {"z", sql.NamedArg{Value: limit}}} {
					lim := limit
					if len(args) == 1 {
						lim = clim
					}
					v.try("cursor", fmt.Sprintf("rows=%d limit=%d %d", n, limit, len(args)), func() string {
						f, db := newFake()
						defer db.Close()
						f.n = n
						qFailAt = 0
						r := &qRes{}
						if err := xdb.ExecuteQueryWithCursor[qModel](ctx, db, func(m *qModel) string { return fmt.Sprint("c", m.N) }, r, "q", args...); err != nil {
							return err.Error()
						}
						if len(f.args) != 2 {
							return fmt.Sprint("the database got ", f.args)
						}
						if r.cursor == nil || r.cursor(&qModel{N: 5}) != "c5" {
							return "cursor function not passed on"
						}
						return r.check(n, lim > 0 && uint32(n) >= lim, 0)
					})
				}
			}
		}
		v.try("ExecuteQuery", n, func() string {
			f, db := newFake()
			defer db.Close()
			f.n = n
			qFailAt = 0
			r := &qRes{}
			qp := xdb.NewQueryParams("q")
			qp.Set(1, "a").SetPage(1, 1)
			if err := xdb.ExecuteQuery[qModel](ctx, db, r, "q", qp); err != nil {
				return err.Error()
			}
			if len(f.args) != 3 {
				return fmt.Sprint("the database got ", f.args)
			}
			if p := r.check(n, false, 0); p != "" {
				return p
			}
			r = &qRes{}
			if err := xdb.ExecuteQuery[qModel](ctx, db, r, "q", "x"); err != nil {
				return err.Error()
			}
			return r.check(n, false, 0)
		})
	}
	errX := errors.New("x")
	for k := 0; k < 3; k++ {
		v.try("failure", k, func() string {
			f, db := newFake()
			defer db.Close()
			f.n, qScans, qFailAt = 4, 0, 0
			switch k {
			case 0:
				f.failQ = errX
			case 1:
				f.failAt, f.failErr = 2, errX
			case 2:
				qFailAt = 2
			}
			r := &qRes{}
			if xdb.ExecuteQueryWithPagination[qModel](ctx, db, r, "q", uint32(2), uint32(0)) == nil {
				return "no error (pagination)"
			}
			qScans = 0
			if xdb.ExecuteQueryWithCursor[qModel](ctx, db, nil, r, "q", "c", uint32(2)) == nil {
				return "no error (cursor)"
			}
			qScans = 0
			if xdb.ExecuteQuery[qModel](ctx, db, r, "q") == nil {
				return "no error (query)"
			}
			if r.calls != 0 {
				return "result touched"
			}
			return ""
		})
	}
}
