package xsql_test

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/effective-security/xdb/xsql"
)

// recExec counts what the builder asks of its executor and passes it on.
type recExec struct {
	db    *sql.DB
	calls []string
	ctx   []context.Context
}

func (r *recExec) note(ctx context.Context, kind, q string, args []any) {
	r.calls = append(r.calls, fmt.Sprintf("%s %q %v", kind, q, args))
	r.ctx = append(r.ctx, ctx)
}
func (r *recExec) ExecContext(ctx context.Context, q string, args ...any) (sql.Result, error) {
	r.note(ctx, "exec", q, args)
	return r.db.ExecContext(ctx, q, args...)
}
func (r *recExec) QueryContext(ctx context.Context, q string, args ...any) (*sql.Rows, error) {
	r.note(ctx, "query", q, args)
	return r.db.QueryContext(ctx, q, args...)
}
func (r *recExec) QueryRowContext(ctx context.Context, q string, args ...any) *sql.Row {
	r.note(ctx, "row", q, args)
	return r.db.QueryRowContext(ctx, q, args...)
}

// scanTo fails when it meets the wrong value
type scanTo struct {
	n      *int
	failAt int64
	seen   *[]int64
	err    error
}

func (s *scanTo) Scan(v any) error {
	*s.n++
	x := v.(int64)
	if x == s.failAt {
		return s.err
	}
	*s.seen = append(*s.seen, x)
	return nil
}

func TestVerifC19(t *testing.T) {
	v := vnew(t)
	errQ, errScan, errIter, errClose := errors.New("query failed"), errors.New("scan failed"), errors.New("iteration failed"), errors.New("close failed")
	ctx := context.WithValue(context.Background(), ctxKey{}, "mine")
	for _, d := range []xsql.SQLDialect{xsql.NoDialect, xsql.Postgres} {
		for n := 0; n <= 3; n++ {
			for fail := 0; fail <= 5; fail++ { // 0 none 1 query 2 scan 3 iterate 4 close 5 scan and close
				for at := 0; at <= n; at++ {
					for _, closing := range []bool{false, true} {
						for _, withTo := range []bool{false, true} {
							for _, withH := range []bool{false, true} {
								for _, kind := range []string{"query", "row", "exec"} {
									in := fmt.Sprintf("%s %s rows=%d failure=%d at=%d close=%v to=%v callback=%v", d.Provider(), kind, n, fail, at, closing, withTo, withH)
									v.try("execute", in, func() string {
										f := &fakeDB{failAt: -1, n: n}
										db := sql.OpenDB(f)
										defer db.Close()
										scans := 0
										var seen []int64
										st := &scanTo{n: &scans, seen: &seen, err: errScan, failAt: -1}
										var wantErr error
										switch fail {
										case 1:
											f.failQ, wantErr = errQ, errQ
										case 2:
											st.failAt = int64(101 + at)
											if (withTo && at < n && kind == "query") || (withTo && kind == "row" && at == 0 && n > 0) {
												wantErr = errScan
											}
										case 3:
											f.failAt, f.failErr = at, errIter
											if kind == "query" || at == 0 {
												wantErr = errIter
											}
										case 4, 5:
											f.closeErr = errClose
											wantErr = errClose
											if fail == 5 {
												st.failAt = int64(101 + at)
											}
										}
										q := d.Select("a").From("t").Where("x = ?", 1).Where("y = ?", "two")
										if withTo {
											q.To(st)
										}
										text := q.String()
										rec := &recExec{db: db}
										var err error
										var cb []int64
										var h func(*sql.Rows)
										if withH {
											h = func(r *sql.Rows) {
												if withTo {
													cb = append(cb, seen[len(seen)-1])
													if len(seen) != len(cb) {
														cb = append(cb, -1)
													}
												} else {
													var x int64
													if e := r.Scan(&x); e != nil {
														x = -2
													}
													cb = append(cb, x)
												}
											}
										}
										switch {
										case kind == "query" && closing:
											err = q.QueryAndClose(ctx, rec, h)
										case kind == "query":
											err = q.Query(ctx, rec, h)
										case kind == "row" && closing:
											err = q.QueryRowAndClose(ctx, rec)
										case kind == "row":
											err = q.QueryRow(ctx, rec)
										default:
											var res sql.Result
											if closing {
												res, err = q.ExecAndClose(ctx, rec)
											} else {
												res, err = q.Exec(ctx, rec)
											}
											if fail != 1 {
												wantErr = nil
											}
											if fail != 1 {
												if res == nil {
													return "no result"
												}
												if k, _ := res.RowsAffected(); k != 17 {
													return fmt.Sprint("result ", k)
												}
											}
										}
										if want := fmt.Sprintf("%s %q %v", kind, text, []any{1, "two"}); len(rec.calls) != 1 || rec.calls[0] != want {
											return fmt.Sprintf("executor saw %v, want once %s", rec.calls, want)
										}
										if rec.ctx[0] != ctx {
											return "not the caller's context"
										}
										if kind == "row" {
											switch {
											case wantErr == nil && n == 0 && fail != 3:
												wantErr = sql.ErrNoRows
											case wantErr == nil && !withTo:
												// one column and no target
												if err == nil {
													return "no error although no target takes the column"
												}
												return open(f)
											case fail >= 4 && (n == 0 || !withTo || (fail == 5 && at == 0)):
												if err == nil {
													return "no error"
												}
												return open(f)
											}
										}
										if wantErr == nil && err != nil {
											return fmt.Sprintf("error %v", err)
										}
										if wantErr != nil && err == nil {
											return fmt.Sprintf("no error, want %v", wantErr)
										}
										if wantErr != nil && fail != 5 && !strings.Contains(err.Error(), wantErr.Error()) {
											return fmt.Sprintf("error %v, want %v", err, wantErr)
										}
										if kind == "query" && withH {
											want := n
											switch {
											case fail == 1:
												want = 0
											case (fail == 2 || fail == 5) && withTo && at < n:
												want = at
											case fail == 3:
												want = at
											}
											if len(cb) != want {
												return fmt.Sprintf("%d callbacks %v, want %d", len(cb), cb, want)
											}
											for i, x := range cb {
												if x != int64(101+i) {
													return fmt.Sprintf("callback %d saw row %d", i, x)
												}
											}
										}
										if kind == "query" && !withTo && scans != 0 {
											return "scanned without targets"
										}
										return open(f)
									})
								}
							}
						}
					}
				}
			}
		}
	}
	v.try("callback panics", "", func() string {
		f := &fakeDB{failAt: -1, n: 3}
		db := sql.OpenDB(f)
		defer db.Close()
		func() {
			defer func() { _ = recover() }()
			_ = xsql.NoDialect.Select("a").From("t").Query(ctx, db, func(*sql.Rows) { panic("callback") })
		}()
		return open(f)
	})
	// the close variants return the builder to the pool on every outcome: its references are gone
	for _, kind := range []string{"query", "row", "exec"} {
		for _, bad := range []bool{false, true} {
			v.try("close variants close", fmt.Sprint(kind, bad), func() string {
				f := &fakeDB{failAt: -1, n: 1}
				if bad {
					f.failQ = errQ
				}
				db := sql.OpenDB(f)
				defer db.Close()
				var x int64
				q := xsql.NoDialect.Select("a").To(&x).From("t").Where("x = ?", 1)
				args, dest := q.Args(), q.Dest()
				switch kind {
				case "query":
					_ = q.QueryAndClose(ctx, db, nil)
				case "row":
					_ = q.QueryRowAndClose(ctx, db)
				default:
					_, _ = q.ExecAndClose(ctx, db)
				}
				if args[0] != nil || dest[0] != nil {
					return "the builder still holds its arguments or targets"
				}
				if !bad && kind == "row" && x != 101 {
					return fmt.Sprint("scanned ", x)
				}
				return open(f)
			})
		}
	}
}

func open(f *fakeDB) string {
	if f.open != 0 {
		return fmt.Sprintf("%d rows left open", f.open)
	}
	return ""
}
