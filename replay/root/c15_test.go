package xdb_test

import (
	"context"
	"database/sql"
	stderr "errors"
	"fmt"
	"strings"
	"testing"

	"github.com/cockroachdb/errors"
	"github.com/effective-security/xdb"
)

type textErr string

func (e textErr) Error() string { return string(e) }

func TestVerifC15(t *testing.T) {
	v := vnew(t)
	type cse struct {
		err error
		nf  bool // is / wraps / reports the no-rows error, or wraps a not-found record
		rows bool
	}
	base := []cse{
		{sql.ErrNoRows, true, true},
		{textErr("boom"), false, false},
		{textErr("sql: no rows in result set"), true, true},
		{textErr("x no rows in result set y"), true, true},
		{textErr("no rows"), false, false},
		{textErr("no ROWS in result set"), false, false},
		{textErr(""), false, false},
		{sql.ErrTxDone, false, false},
		{context.Canceled, false, false},
		{xdb.NewErrorNotFound(textErr("inner"), "t", 5), true, false},
		{xdb.NewErrorNotFound(nil, "", ""), true, false},
		{xdb.NewErrorNotFound(sql.ErrNoRows, "t", "x"), true, true},
	}
	wraps := []func(error) error{
		func(e error) error { return e },
		func(e error) error { return errors.WithStack(e) },
		func(e error) error { return errors.Wrap(e, "ctx") },
		func(e error) error { return fmt.Errorf("a: %w", e) },
		func(e error) error { return stderr.Join(textErr("first"), e) },
		func(e error) error { return errors.WithMessage(errors.Wrapf(e, "k"), "m") },
	}
	for bi, b := range base {
		for wi, w := range wraps {
			for _, w2 := range wraps {
				e := w2(w(b.err))
				v.try("error", fmt.Sprint(bi, wi, e), func() string {
					if xdb.IsNotFoundError(e) != b.nf {
						return fmt.Sprintf("classified %v", !b.nf)
					}
					for _, id := range []any{7, "k", xdb.NewID(9)} {
						c := xdb.CheckNotFoundError(e, "tab", id)
						var rec *xdb.ErrorNotFound
						if !errors.Is(c, e) {
							return "conversion loses the cause"
						}
						if b.rows {
							if !errors.As(c, &rec) || rec.Table != "tab" || rec.ID != fmt.Sprint(id) || !xdb.IsNotFoundError(c) {
								return fmt.Sprintf("converted to %#v", c)
							}
							if !errors.Is(c, b.err) {
								return "conversion loses the original cause"
							}
						} else {
							if errors.As(c, &rec) != errors.As(e, new(*xdb.ErrorNotFound)) || xdb.IsNotFoundError(c) != b.nf || c.Error() != e.Error() {
								return fmt.Sprintf("other error becomes %v", c)
							}
						}
					}
					return ""
				})
			}
		}
	}
	v.try("nil", nil, func() string {
		if xdb.IsNotFoundError(nil) || xdb.CheckNotFoundError(nil, "t", 1) != nil {
			return "nil is an error"
		}
		return ""
	})
	v.try("record", nil, func() string {
		e := xdb.NewErrorNotFound(textErr("cause"), "orders", xdb.NewID(12))
		var rec *xdb.ErrorNotFound
		if !errors.As(e, &rec) || rec.ID != "12" || rec.Table != "orders" || !errors.Is(e, textErr("cause")) {
			return fmt.Sprintf("%#v", e)
		}
		if !strings.Contains(e.Error(), "orders") || !strings.Contains(e.Error(), "12") {
			return e.Error()
		}
		return ""
	})
}
