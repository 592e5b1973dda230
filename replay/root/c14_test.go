package xdb_test

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/effective-security/xdb"
)

func TestVerifC14(t *testing.T) {
	v := vnew(t)
	ctx := context.WithValue(context.Background(), ctxKey{}, "mine")
	errX := errors.New("x")
	kinds := []error{errX, sql.ErrConnDone, context.Canceled, context.DeadlineExceeded, sql.ErrNoRows, io.EOF}
	run := func(f *fakeDB, p xdb.DB, where string) string {
		f.n = 2
		f.take()
		rows, err := p.QueryContext(ctx, "SELECT ?", 1, "a")
		if err != nil {
			return err.Error()
		}
		n := 0
		for rows.Next() {
			n++
		}
		_ = rows.Close()
		var x int
		if err := p.QueryRowContext(ctx, "ROW ?", int64(2)).Scan(&x); err != nil || x != 101 {
			return fmt.Sprint("row ", x, err)
		}
		res, err := p.ExecContext(ctx, "EXEC ?", []byte("b"), nil)
		if err != nil {
			return err.Error()
		}
		if k, _ := res.RowsAffected(); k != 17 || n != 2 {
			return "results differ"
		}
		want := []string{
			`query ` + where + ` ctx=mine "SELECT ?"|=int:1|=string:a`,
			`query ` + where + ` ctx=mine "ROW ?"|=int64:2`,
			`exec ` + where + ` ctx=mine "EXEC ?"|=[]uint8:[98]|=<nil>:<nil>`,
		}
		if got := f.take(); fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("the database got %q, want %q", got, want)
		}
		f.failQ = errX
		defer func() { f.failQ = nil; f.take() }()
		if _, err := p.QueryContext(ctx, "q"); !errors.Is(err, errX) {
			return fmt.Sprint("failed query: ", err)
		}
		if _, err := p.ExecContext(ctx, "q"); !errors.Is(err, errX) {
			return fmt.Sprint("failed exec: ", err)
		}
		if err := p.QueryRowContext(ctx, "q").Scan(&x); !errors.Is(err, errX) {
			return fmt.Sprint("failed row query: ", err)
		}
		return ""
	}
	opts := []*sql.TxOptions{nil, {}, {Isolation: sql.LevelSerializable}, {ReadOnly: true}, {Isolation: sql.LevelReadCommitted, ReadOnly: true}}
	for oi, o := range opts {
		for n := 0; n < 7*len(kinds); n++ {
			end, errE := n%7, kinds[n/7]
			v.try("transaction", fmt.Sprint("options ", oi, " end ", end, " ", errE), func() string {
				f, db := newFake()
				defer db.Close()
				p, err := xdb.New("fake", db, nil)
				if err != nil {
					return err.Error()
				}
				if s := run(f, p, "conn"); s != "" {
					return "root: " + s
				}
				if p.Tx() != nil && fmt.Sprint(p.Tx()) != "<nil>" || p.DB() != xdb.DB(db) {
					return "root provider is not on the connection"
				}
				if p.Commit() == nil || p.Rollback() == nil {
					return "commit or rollback without a transaction succeeds"
				}
				if l := f.take(); len(l) != 0 {
					return fmt.Sprint("touched the database: ", l)
				}
				tx, err := p.BeginTx(ctx, o)
				if err != nil {
					return err.Error()
				}
				var w sql.TxOptions
				if o != nil {
					w = *o
				}
				if l := f.take(); len(l) != 1 || l[0] != fmt.Sprintf("begin ctx=mine iso=%d ro=%v", w.Isolation, w.ReadOnly) {
					return fmt.Sprint("begin: ", l)
				}
				if s := run(f, tx, "tx"); s != "" {
					return "tx: " + s
				}
				if s := run(f, tx.DB(), "tx"); s != "" {
					return "tx handle: " + s
				}
				if s := run(f, tx.Tx(), "tx"); s != "" {
					return "tx: " + s
				}
				if s := run(f, p, "conn"); s != "" {
					return "root while in a transaction: " + s
				}
				if tx.Name() != "fake" || p.Name() != "fake" {
					return "name"
				}
				if n, err := tx.BeginTx(ctx, nil); err == nil || n != nil {
					return "nested begin succeeds"
				}
				if l := f.take(); len(l) != 0 {
					return fmt.Sprint("nested begin touched the database: ", l)
				}
				var got error
				want := "commit"
				switch end {
				case 0:
					got = tx.Commit()
				case 1:
					f.failC = errE
					got = tx.Commit()
				case 2:
					want = "rollback"
					got = tx.Rollback()
				case 3:
					want = "rollback"
					f.failR = errE
					got = tx.Rollback()
				case 4:
					want = "rollback"
					got = tx.Close()
				case 5:
					want = "rollback"
					f.failR = errE
					got = tx.Close()
				case 6:
					if got = tx.Commit(); got == nil {
						if e := tx.Commit(); !errors.Is(e, sql.ErrTxDone) {
							return fmt.Sprint("second commit: ", e)
						}
						if e := tx.Rollback(); e != nil {
							return fmt.Sprint("rollback of a finished transaction: ", e)
						}
						if e := tx.Close(); e != nil {
							return fmt.Sprint("close of a finished transaction: ", e)
						}
					}
				}
				if fail := f.failC != nil || f.failR != nil; fail != (got != nil) || fail && !errors.Is(got, errE) {
					return fmt.Sprint("the end reports ", got)
				}
				if l := f.take(); len(l) != 1 || l[0] != want {
					return fmt.Sprint("the end reaches the database as ", l)
				}
				f.failC, f.failR = nil, nil
				if s := run(f, p, "conn"); s != "" {
					return "root after the transaction: " + s
				}
				if err := p.Close(); err != nil {
					return err.Error()
				}
				if err := db.Ping(); err == nil || !strings.Contains(err.Error(), "closed") || f.conns != 0 {
					return fmt.Sprint("closing the root provider leaves the connection open: ", err, f.conns)
				}
				if err := p.Close(); err != nil {
					return fmt.Sprint("second close: ", err)
				}
				return ""
			})
		}
	}
	v.try("failed begin", "", func() string {
		f, db := newFake()
		defer db.Close()
		p, _ := xdb.New("fake", db, nil)
		f.failB = errX
		if tx, err := p.BeginTx(ctx, nil); !errors.Is(err, errX) || tx != nil {
			return fmt.Sprint(tx, err)
		}
		f.failB = nil
		f.take()
		return run(f, p, "conn")
	})
}
