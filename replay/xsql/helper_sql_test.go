package xsql_test

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"sync"
)

// fakeDB is a database/sql driver that follows a script and records what reaches it.
type fakeDB struct {
	mu       sync.Mutex
	log      []string
	n        int   // rows of every result
	failQ    error // query or exec fails
	failAt   int   // iteration fails when row failAt is asked for (-1: never)
	failErr  error
	closeErr error
	failB    error
	failC    error
	failR    error
	open     int // rows not closed
	conns    int // open connections
	args     []driver.NamedValue
}

type ctxKey struct{}

func (f *fakeDB) add(s string, a ...any) {
	f.mu.Lock()
	f.log = append(f.log, fmt.Sprintf(s, a...))
	f.mu.Unlock()
}

func (f *fakeDB) take() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	l := f.log
	f.log = nil
	return l
}

func (f *fakeDB) Connect(context.Context) (driver.Conn, error) {
	f.conns++
	return &fakeConn{f: f}, nil
}
func (f *fakeDB) Driver() driver.Driver { return nil }

type fakeConn struct {
	f  *fakeDB
	tx bool
}

func (c *fakeConn) Prepare(q string) (driver.Stmt, error) { return nil, errors.New("no prepare") }
func (c *fakeConn) Close() error                           { c.f.conns--; return nil }
func (c *fakeConn) Begin() (driver.Tx, error)              { return nil, errors.New("no begin") }
func (c *fakeConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	c.f.add("begin ctx=%v iso=%d ro=%v", ctx.Value(ctxKey{}), o.Isolation, o.ReadOnly)
	if c.f.failB != nil {
		return nil, c.f.failB
	}
	c.tx = true
	return &fakeTx{c}, nil
}
func (c *fakeConn) where() string {
	if c.tx {
		return "tx"
	}
	return "conn"
}
func fakeArgs(args []driver.NamedValue) string {
	s := ""
	for _, a := range args {
		s += fmt.Sprintf("|%s=%T:%v", a.Name, a.Value, a.Value)
	}
	return s
}
func (c *fakeConn) CheckNamedValue(*driver.NamedValue) error { return nil }
func (c *fakeConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	c.f.add("query %s ctx=%v %q%s", c.where(), ctx.Value(ctxKey{}), q, fakeArgs(args))
	c.f.args = args
	if c.f.failQ != nil {
		return nil, c.f.failQ
	}
	c.f.open++
	return &fakeRows{f: c.f}, nil
}
func (c *fakeConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	c.f.add("exec %s ctx=%v %q%s", c.where(), ctx.Value(ctxKey{}), q, fakeArgs(args))
	if c.f.failQ != nil {
		return nil, c.f.failQ
	}
	return driver.RowsAffected(17), nil
}

type fakeTx struct{ c *fakeConn }

func (t *fakeTx) Commit() error   { t.c.f.add("commit"); t.c.tx = false; return t.c.f.failC }
func (t *fakeTx) Rollback() error { t.c.f.add("rollback"); t.c.tx = false; return t.c.f.failR }

type fakeRows struct {
	f      *fakeDB
	pos    int
	closed bool
}

func (r *fakeRows) Columns() []string { return []string{"a"} }
func (r *fakeRows) Close() error {
	if !r.closed {
		r.closed = true
		r.f.open--
	}
	return r.f.closeErr
}
func (r *fakeRows) Next(dest []driver.Value) error {
	if r.pos == r.f.failAt {
		return r.f.failErr
	}
	if r.pos >= r.f.n {
		return io.EOF
	}
	r.pos++
	dest[0] = int64(100 + r.pos)
	return nil
}

func newFake() (*fakeDB, *sql.DB) {
	f := &fakeDB{failAt: -1}
	return f, sql.OpenDB(f)
}

