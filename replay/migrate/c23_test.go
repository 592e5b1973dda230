package migrate

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// pgDB is a database/sql driver that keeps what golang-migrate's postgres
// back end keeps in the database: the lock, the version table and the
// statements run, and fails chosen calls.
type pgDB struct {
	table   bool
	has     bool
	version int64
	dirty   bool
	locked  int
	ran     []string
	// the pending content of the version table inside a transaction
	tx             bool
	txHas, txDirty bool
	txVersion      int64
	calls          int
	failAt         int
	fail           error
	failed         string
	trace          []string
	noSchema       bool
	badSQL         string
}

func (p *pgDB) step(s string) error {
	p.calls++
	p.trace = append(p.trace, s)
	if p.calls == p.failAt {
		p.failed = s
		return p.fail
	}
	return nil
}

func (p *pgDB) Connect(context.Context) (driver.Conn, error) { return &pgConn{p}, p.step("connect") }
func (p *pgDB) Driver() driver.Driver                        { return nil }

type pgConn struct{ p *pgDB }

func (c *pgConn) Prepare(q string) (driver.Stmt, error) { return nil, errors.New("no prepare") }
func (c *pgConn) Close() error                          { return nil }
func (c *pgConn) Begin() (driver.Tx, error)             { return nil, errors.New("no begin") }
func (c *pgConn) Ping(context.Context) error            { return c.p.step("ping") }
func (c *pgConn) BeginTx(context.Context, driver.TxOptions) (driver.Tx, error) {
	if err := c.p.step("begin"); err != nil {
		return nil, err
	}
	p := c.p
	p.tx, p.txHas, p.txVersion, p.txDirty = true, p.has, p.version, p.dirty
	return c, nil
}
func (c *pgConn) Commit() error {
	c.p.tx = false
	if err := c.p.step("commit"); err != nil {
		return err
	}
	c.p.has, c.p.version, c.p.dirty = c.p.txHas, c.p.txVersion, c.p.txDirty
	return nil
}
func (c *pgConn) Rollback() error { c.p.tx = false; return c.p.step("rollback") }

func (c *pgConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	p := c.p
	name := strings.SplitN(q, " ", 2)[0]
	if strings.Contains(q, "advisory") {
		name = q
	}
	if err := p.step("exec " + name); err != nil {
		return nil, err
	}
	switch {
	case strings.HasPrefix(q, "SELECT pg_advisory_lock"):
		p.locked++
	case strings.HasPrefix(q, "SELECT pg_advisory_unlock"):
		p.locked--
	case strings.HasPrefix(q, "CREATE TABLE IF NOT EXISTS \"s\".\"schema_migrations\""):
		p.table = true
	case strings.HasPrefix(q, "TRUNCATE"):
		p.txHas, p.txVersion, p.txDirty = false, 0, false
	case strings.HasPrefix(q, "INSERT INTO \"s\""):
		p.txHas, p.txVersion, p.txDirty = true, args[0].Value.(int64), args[1].Value.(bool)
	default:
		if p.badSQL != "" && strings.Contains(q, p.badSQL) {
			return nil, errors.New("no change")
		}
		p.ran = append(p.ran, strings.TrimSpace(q))
	}
	return driver.RowsAffected(0), nil
}

func (c *pgConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	p := c.p
	name := q
	if len(name) > 30 {
		name = name[:30]
	}
	if err := p.step("query " + name); err != nil {
		return nil, err
	}
	switch {
	case strings.Contains(q, "CURRENT_DATABASE"):
		return &pgRows{row: []driver.Value{"db"}}, nil
	case strings.Contains(q, "CURRENT_SCHEMA"):
		if p.noSchema {
			return &pgRows{row: []driver.Value{nil}}, nil
		}
		return &pgRows{row: []driver.Value{"s"}}, nil
	case strings.Contains(q, "COUNT(1)"):
		n := int64(0)
		if p.table {
			n = 1
		}
		return &pgRows{row: []driver.Value{n}}, nil
	case strings.Contains(q, "SELECT version, dirty"):
		if !p.has {
			return &pgRows{row: []driver.Value{int64(0), false}, done: true}, nil
		}
		return &pgRows{row: []driver.Value{p.version, p.dirty}}, nil
	}
	return nil, fmt.Errorf("unexpected query %q", q)
}

type pgRows struct {
	row  []driver.Value
	done bool
}

func (r *pgRows) Columns() []string { return make([]string, len(r.row)) }
func (r *pgRows) Close() error      { return nil }
func (r *pgRows) Next(dst []driver.Value) error {
	if r.done {
		return io.EOF
	}
	r.done = true
	copy(dst, r.row)
	return nil
}

// one migration history and one request
type migCase struct {
	n                int // available versions 1..n
	at               int // the recorded version, 0 is none
	dirty            bool
	table            bool
	force, to        int
	failAt           int
	failMsg          string
	badVersion       int
	noDir, noSchema  bool
	missing, badFile bool
	provider         string
	repeat           bool
}

func runMig(t *testing.T, c migCase) string {
	dir := t.TempDir()
	for i := 1; i <= c.n; i++ {
		if c.missing && i == 2 {
			continue
		}
		up, down := fmt.Sprintf("up %d", i), fmt.Sprintf("down %d", i)
		if c.badVersion == i {
			up = "broken " + up
		}
		must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("%d_m.up.sql", i)), []byte(up), 0600))
		must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("%d_m.down.sql", i)), []byte(down), 0600))
	}
	if c.badFile {
		must(os.WriteFile(filepath.Join(dir, "1_again.up.sql"), []byte("twice"), 0600))
	}
	if c.noDir {
		dir += "/none"
	}
	p := &pgDB{table: c.table || c.at > 0, has: c.at > 0, version: int64(c.at), dirty: c.at > 0 && c.dirty,
		failAt: c.failAt, fail: errors.New(c.failMsg), noSchema: c.noSchema}
	if c.badVersion > 0 {
		p.badSQL = "broken"
	}
	db := sql.OpenDB(p)
	defer db.Close()
	err := Migrate(c.provider, "db", dir, c.force, c.to, db)

	if !strings.Contains("|postgres|pgsql|", "|"+c.provider+"|") {
		if err == nil {
			return "an unsupported provider is accepted"
		}
		if len(p.trace) > 0 {
			return fmt.Sprintf("an unsupported provider reached the database: %v", p.trace)
		}
		return ""
	}
	if c.noDir || c.noSchema {
		if err == nil {
			return "no source or no schema, and no error"
		}
		if len(p.ran) > 0 {
			return "ran migrations without a source"
		}
		return ""
	}
	if p.failed != "" && err == nil {
		return fmt.Sprintf("call %d (%s) failed and Migrate reports success; calls %v", c.failAt, p.failed, p.trace)
	}

	// what the request means
	at, dirty := c.at, c.at > 0 && c.dirty
	if c.force > 0 {
		at, dirty = c.force, false
	}
	if p.failed != "" || c.badFile {
		if err == nil {
			return "success although the source is ambiguous"
		}
		return ""
	}
	var ran []string
	bad := dirty
	exists := func(x int) bool { return x >= 1 && x <= c.n && !(c.missing && x == 2) }
	target := c.to
	if target <= 0 {
		for target = c.n; target > 0 && !exists(target); target-- {
		}
		if at > 0 && !exists(at) {
			bad = true
		}
		if target == 0 {
			bad = true
		}
		if target < at && !bad {
			target = at
		}
	} else if !exists(target) || at > 0 && !exists(at) {
		bad = true
	}
	if !bad {
		for x := at + 1; x <= target; x++ {
			if !exists(x) {
				continue
			}
			if x == c.badVersion {
				bad = true
				break
			}
			ran = append(ran, fmt.Sprintf("up %d", x))
		}
		for x := at; x > target; x-- {
			if exists(x) {
				ran = append(ran, fmt.Sprintf("down %d", x))
			}
		}
	}
	if bad != (err != nil) {
		return fmt.Sprintf("a step fails: %v, error: %v (calls %v)", bad, err, p.trace)
	}
	if len(ran) != len(p.ran) || strings.Join(ran, ";") != strings.Join(p.ran, ";") {
		return fmt.Sprintf("ran %q, want %q (error %v)", p.ran, ran, err)
	}
	if err == nil && (int(p.version) != target || p.dirty || !p.has) {
		return fmt.Sprintf("success at version %d dirty %v, want %d", p.version, p.dirty, target)
	}
	if p.locked != 0 {
		return "the lock is held"
	}
	return ""
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func TestVerifC23(t *testing.T) {
	v := vnew(t)
	base := []migCase{
		{n: 3, provider: "postgres"},
		{n: 3, provider: "pgsql", to: 2},
		{n: 3, at: 3, provider: "postgres"},
		{n: 3, at: 2, to: 2, provider: "postgres"},
		{n: 3, at: 3, to: 1, provider: "postgres"},
		{n: 3, at: 2, dirty: true, provider: "postgres"},
		{n: 3, at: 2, dirty: true, force: 1, provider: "postgres"},
		{n: 3, at: 3, force: 2, to: 3, provider: "pgsql"},
		{n: 3, at: 3, force: 3, to: 3, provider: "pgsql"},
		{n: 3, badVersion: 2, provider: "postgres"},
		{n: 3, at: 1, to: 7, provider: "postgres"},
		{n: 0, provider: "postgres"},
		{n: 2, noDir: true, provider: "postgres"},
		{n: 2, noSchema: true, provider: "postgres"},
		{n: 3, badFile: true, provider: "postgres"},
		{n: 3, provider: "mysql"},
		{n: 3, provider: "Postgres"},
		{n: 3, provider: ""},
	}
	for i, c := range base {
		c := c
		v.try(fmt.Sprintf("request:%d", i), fmt.Sprintf("%+v", c), func() string { return runMig(t, c) })
		if i < 9 {
			for k := 1; k <= 30; k++ {
				for _, msg := range []string{"refused", "no change", "no migration"} {
					c := c
					c.failAt, c.failMsg = k, msg
					v.try(fmt.Sprintf("fault:%d:%d", i, k), fmt.Sprintf("%+v", c), func() string { return runMig(t, c) })
				}
			}
		}
	}
	n := 300 * v.deep
	for i := 0; i < n; i++ {
		c := migCase{n: v.r.Intn(5), table: v.r.Intn(2) == 0, provider: []string{"postgres", "pgsql"}[v.r.Intn(2)]}
		if v.r.Intn(3) > 0 {
			c.at = v.r.Intn(6)
		}
		c.dirty = v.r.Intn(5) == 0
		if v.r.Intn(3) == 0 {
			c.force = v.r.Intn(5) - 1
		}
		if v.r.Intn(2) == 0 {
			c.to = v.r.Intn(6) - 1
		}
		if v.r.Intn(4) == 0 {
			c.badVersion = 1 + v.r.Intn(4)
		}
		c.missing = v.r.Intn(6) == 0
		if v.r.Intn(4) == 0 {
			c.failAt, c.failMsg = 1+v.r.Intn(30), []string{"refused", "no change", "no migration"}[v.r.Intn(3)]
		}
		v.try("random", fmt.Sprintf("%+v", c), func() string { return runMig(t, c) })
	}
}
