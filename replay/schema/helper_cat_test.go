package schema_test

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"strings"
	"sync"
)

type catCol struct {
	name, typ, udt, null string
	max                  any // nil or int64
	pos                  int64
}
type catIdx struct {
	name            string
	primary, unique bool
	cols            string
}
type catTable struct {
	schema, name, typ string
	cols              []catCol
	idx               []catIdx
}
type catFK struct{ name, schema, table, col, rschema, rtable, rcol string }

// catalog is a database/sql driver that answers the catalog queries of both dialects from its lists.
type catalog struct {
	mu     sync.Mutex
	tables []catTable
	views  []catTable
	fks    []catFK
	// faults: which of the queries (counted from 0) fails, and how: "query", "scan", "iter"
	failAt  int
	failHow string
	failRow int
	nq      int
	hit     bool
	open    int
	asked   []string
	bad     string
}

var errCatalog = errors.New("catalog failure")

func (c *catalog) Connect(context.Context) (driver.Conn, error) { return &catConn{c}, nil }
func (c *catalog) Driver() driver.Driver                        { return nil }

type catConn struct{ c *catalog }

func (c *catConn) Prepare(q string) (driver.Stmt, error)    { return nil, errors.New("no prepare") }
func (c *catConn) Close() error                             { return nil }
func (c *catConn) Begin() (driver.Tx, error)                { return nil, errors.New("no begin") }
func (c *catConn) CheckNamedValue(*driver.NamedValue) error { return nil }
func (c *catConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	k := c.c
	k.mu.Lock()
	defer k.mu.Unlock()
	l := strings.ToLower(q)
	var rows [][]driver.Value
	name := func() (string, string, bool) {
		var s, t string
		var okS, okT bool
		if len(args) == 2 {
			s, okS = args[0].Value.(string)
			t, okT = args[1].Value.(string)
			if args[0].Name == "table" {
				s, t = t, s
			}
			return s, t, okS && okT
		}
		// names written into the text
		p := strings.Split(q, "'")
		if len(p) == 5 {
			return p[1], p[3], true
		}
		return "", "", false
	}
	find := func(s, t string) []catTable {
		var out []catTable
		for _, x := range k.tables {
			if x.schema == s && x.name == t {
				out = append(out, x)
			}
		}
		return out
	}
	kind := ""
	switch {
	case strings.Contains(l, "foreign key'") || strings.Contains(l, "foreign_key_columns"):
		kind = "fk"
		for _, f := range k.fks {
			rows = append(rows, []driver.Value{f.name, f.schema, f.table, f.col, f.rschema, f.rtable, f.rcol})
		}
	case strings.Contains(l, "'view'") || strings.Contains(l, "sys.views"):
		kind = "views"
		for _, t := range k.views {
			for _, x := range t.cols {
				rows = append(rows, []driver.Value{t.schema, t.name, x.name, x.typ, x.udt, x.null, x.max, x.pos})
			}
		}
	case strings.Contains(l, "pg_index") || strings.Contains(l, "sys.indexes"):
		kind = "indexes"
		s, t, ok := name()
		if !ok {
			return nil, errors.New("malformed index query: " + q)
		}
		for _, x := range find(s, t) {
			for _, i := range x.idx {
				rows = append(rows, []driver.Value{i.name, i.primary, i.unique, i.cols})
			}
		}
	case strings.Contains(l, "information_schema.columns"):
		kind = "columns"
		s, t, ok := name()
		if !ok {
			return nil, errors.New("malformed column query: " + q)
		}
		for _, x := range find(s, t) {
			for _, i := range x.cols {
				rows = append(rows, []driver.Value{i.name, i.typ, i.udt, i.null, i.max, i.pos})
			}
		}
	case strings.Contains(l, "information_schema.tables") || strings.Contains(l, "sys.tables"):
		kind = "tables"
		for _, t := range k.tables {
			if t.typ != "" {
				rows = append(rows, []driver.Value{t.schema, t.name, t.typ})
			}
		}
	default:
		k.bad = "a query the catalog does not know: " + q
		return nil, errors.New(k.bad)
	}
	k.asked = append(k.asked, kind)
	r := &catRows{k: k, rows: rows, failAt: -1}
	if k.nq == k.failAt {
		switch k.failHow {
		case "query":
			k.hit = true
			k.nq++
			return nil, errCatalog
		case "iter":
			if k.failRow <= len(rows) {
				k.hit = true
				r.failAt = k.failRow
			}
		case "scan":
			if k.failRow < len(rows) {
				k.hit = true
				r.rows = append([][]driver.Value{}, rows...)
				row := append([]driver.Value{}, rows[k.failRow]...)
				row[0] = nil // NULL does not scan into a string
				r.rows[k.failRow] = row
			}
		}
	}
	k.nq++
	k.open++
	return r, nil
}

type catRows struct {
	k      *catalog
	rows   [][]driver.Value
	pos    int
	failAt int
	closed bool
}

func (r *catRows) Columns() []string {
	n := 8
	if len(r.rows) > 0 {
		n = len(r.rows[0])
	}
	return make([]string, n)
}
func (r *catRows) Close() error {
	r.k.mu.Lock()
	defer r.k.mu.Unlock()
	if !r.closed {
		r.closed = true
		r.k.open--
	}
	return nil
}
func (r *catRows) Next(dest []driver.Value) error {
	if r.pos == r.failAt {
		return errCatalog
	}
	if r.pos >= len(r.rows) {
		return io.EOF
	}
	copy(dest, r.rows[r.pos])
	r.pos++
	return nil
}

func openCatalog(k *catalog) *sql.DB { return sql.OpenDB(k) }
