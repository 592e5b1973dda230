package xdb_test

import (
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/effective-security/xdb"
	"github.com/lib/pq"
	"github.com/microsoft/go-mssqldb/msdsn"
)

type connParts struct {
	scheme, host, user, pwd, path string
	hasPwd                        bool
	params                        [][2]string
}

func (c connParts) dsn() string {
	u := url.URL{Scheme: c.scheme, Host: c.host, Path: c.path}
	if c.user != "" || c.hasPwd {
		u.User = url.User(c.user)
		if c.hasPwd {
			u.User = url.UserPassword(c.user, c.pwd)
		}
	}
	var q []string
	for _, p := range c.params {
		q = append(q, url.QueryEscape(p[0])+"="+url.QueryEscape(p[1]))
	}
	u.RawQuery = strings.Join(q, "&")
	return u.String()
}

func (c connParts) param(k string) string {
	for _, p := range c.params {
		if p[0] == k {
			return p[1]
		}
	}
	return ""
}

var oddTexts = []string{"", "a", "p@ss", "a b", "50%", "x=y&z", "ü/ñ", "a:b", "o'neil", `back\slash`, "q?#", "+plus+", "semi;colon", `in"side`}

func oddText(v *vrun) string { return oddTexts[v.r.Intn(len(oddTexts))] }

func parseProblem(dsn string, c connParts) string {
	s, err := xdb.ParseConnectionString(dsn)
	if err != nil {
		return "error: " + err.Error()
	}
	db := c.param("dbname")
	if db == "" {
		db = c.param("database")
	}
	if db == "" && c.scheme == "postgres" {
		db = strings.TrimPrefix(c.path, "/")
	}
	want := &xdb.Source{Source: c.dsn(), Driver: c.scheme, Host: c.host, User: c.user, Password: c.pwd, Database: db, Params: map[string]string{}}
	for _, p := range c.params {
		want.Params[p[0]] = p[1]
	}
	if !reflect.DeepEqual(s, want) {
		return fmt.Sprintf("got %+v want %+v", *s, *want)
	}
	return ""
}

// what lib/pq reads from a DSN, the database aside, last writer first
func pqParts(dsn string) (string, error) {
	s, err := pq.ParseURL(dsn)
	if err != nil {
		return "", err
	}
	return s, nil
}

func msParts(dsn string) (string, string, error) {
	c, err := msdsn.Parse(dsn)
	if err != nil {
		return "", "", err
	}
	var ps []string
	for k, x := range c.Parameters {
		if k != "database" {
			ps = append(ps, k+"="+x)
		}
	}
	sort.Strings(ps)
	return c.Database, strings.Join(ps, "\n"), nil
}

func TestVerifC26(t *testing.T) {
	v := vnew(t)
	srv, err := newPGServer()
	if err != nil {
		t.Skip("no loopback network: ", err)
	}
	defer srv.close()
	dir := t.TempDir()

	// ---- parsing ----
	for i := 0; i < 1000*v.deep; i++ {
		c := connParts{scheme: []string{"postgres", "sqlserver", "mysql", "postgresql"}[v.r.Intn(4)],
			host: []string{"h", "127.0.0.1:5432", "db.example.com:1", "[::1]:5432"}[v.r.Intn(4)]}
		if v.r.Intn(3) > 0 {
			c.user = oddText(v)
			if c.hasPwd = v.r.Intn(2) == 0; c.hasPwd {
				c.pwd = oddText(v)
			}
		}
		if v.r.Intn(3) == 0 {
			c.path = "/" + []string{"inst", "mydb", "a b", "x%y"}[v.r.Intn(4)]
		}
		for _, k := range []string{"sslmode", "dbname", "database", "app name", "Database"} {
			if v.r.Intn(3) == 0 {
				c.params = append(c.params, [2]string{k, oddText(v)})
			}
		}
		dsn := c.dsn()
		in := dsn
		switch v.r.Intn(5) {
		case 0:
			in = "\"" + dsn + "\""
		case 1:
			in = "  " + dsn + "\n"
		case 2:
			f := filepath.Join(dir, "ds")
			if err := os.WriteFile(f, []byte(dsn), 0600); err != nil {
				t.Fatal(err)
			}
			in = "file://" + f
		}
		v.try("parse", dsn, func() string { return parseProblem(in, c) })
	}
	for _, bad := range []string{"postgres://h:port", "postgres://a b/", "://", "postgres://%zz@h", "file:///none/such", "postgres://h?a=%zz", "postgres://h?dbname=a;b", "postgres://u:p w@h"} {
		v.try("malformed", bad, func() string {
			if s, err := xdb.ParseConnectionString(bad); err == nil || s != nil {
				return fmt.Sprintf("%+v, %v", s, err)
			}
			if d, _, _, err := xdb.Open(bad, "x"); err == nil || d != nil {
				return fmt.Sprintf("opened %v, %v", d, err)
			}
			return ""
		})
	}

	// ---- opening postgres ----
	dbs := []string{"", "aaa", "test", "zzz", "My DB", "it's", "a&b=c", "a%20b", `q"q`, "ü"}
	for i := 0; i < 200*v.deep; i++ {
		c := connParts{scheme: "postgres", host: srv.addr(), user: []string{"u", "a@b", "o'neil", "u v"}[v.r.Intn(4)], hasPwd: true, pwd: oddTexts[1+v.r.Intn(len(oddTexts)-1)]}
		c.params = [][2]string{{"sslmode", "disable"}}
		if v.r.Intn(2) == 0 {
			c.params = append(c.params, [2]string{"application_name", oddTexts[1+v.r.Intn(len(oddTexts)-1)]})
		}
		own := ""
		if v.r.Intn(3) == 0 {
			own = []string{"mmm", "kk k"}[v.r.Intn(2)]
			c.path = "/" + own
		} else if v.r.Intn(2) == 0 {
			own = []string{"mmm", "kk k"}[v.r.Intn(2)]
			c.params = append(c.params, [2]string{"dbname", own})
		}
		db := dbs[v.r.Intn(len(dbs))]
		v.r.Shuffle(len(c.params), func(i, j int) { c.params[i], c.params[j] = c.params[j], c.params[i] })
		refuse := v.r.Intn(8) == 0
		srv.refuse = refuse
		v.try("postgres", fmt.Sprintf("%s database %q", c.dsn(), db), func() string {
			srv.mu.Lock()
			srv.params, srv.pwd = nil, ""
			srv.mu.Unlock()
			d, name, ds, err := xdb.Open(c.dsn(), db)
			if refuse {
				if err == nil || d != nil {
					return "the server refused and a connection is returned"
				}
				return ""
			}
			if err != nil || d == nil {
				return fmt.Sprintf("error %v", err)
			}
			defer d.Close()
			want := db
			if want == "" {
				want = own
			}
			srv.mu.Lock()
			defer srv.mu.Unlock()
			if srv.params["database"] != want {
				return fmt.Sprintf("connected to %q, want %q (%s)", srv.params["database"], want, ds)
			}
			if srv.params["user"] != c.user || srv.pwd != c.pwd || srv.params["application_name"] != c.param("application_name") && c.param("application_name") != "" {
				return fmt.Sprintf("connected as %v password %q (%s)", srv.params, srv.pwd, ds)
			}
			if name != "postgres" {
				return "driver " + name
			}
			s, err := xdb.ParseConnectionString(ds)
			if err != nil || db != "" && s.Database != db || s.Host != c.host || s.Params["sslmode"] != "disable" {
				return fmt.Sprintf("returned connection string %q", ds)
			}
			return ""
		})
	}
	srv.refuse = false

	// ---- sqlserver: the connection string the driver is given ----
	for i := 0; i < 60*v.deep; i++ {
		c := connParts{scheme: "sqlserver", host: "127.0.0.1:1", user: []string{"sa", "a@b", "u v"}[v.r.Intn(3)], hasPwd: true, pwd: oddText(v)}
		if v.r.Intn(3) == 0 {
			c.path = "/inst"
		}
		c.params = append(c.params, [2]string{"dial timeout", "1"}, [2]string{"connection timeout", "1"})
		if v.r.Intn(2) == 0 {
			c.params = append(c.params, [2]string{[]string{"database", "Database", "DATABASE"}[v.r.Intn(3)], "mmm"})
		}
		if v.r.Intn(2) == 0 {
			c.params = append(c.params, [2]string{"app name", oddText(v)})
		}
		db := dbs[1+v.r.Intn(len(dbs)-1)]
		v.try("sqlserver", fmt.Sprintf("%s database %q", c.dsn(), db), func() string {
			d, name, ds, err := xdb.Open(c.dsn(), db)
			if err == nil || d != nil {
				return "no server, and a connection is returned"
			}
			if name != "sqlserver" {
				return "driver " + name
			}
			_, before, err := msParts(c.dsn())
			if err != nil {
				return ""
			}
			got, after, err := msParts(ds)
			if err != nil || got != db || before != after {
				return fmt.Sprintf("%q: database %q, others %q want %q, %v", ds, got, after, before, err)
			}
			return ""
		})
	}
	for _, x := range []string{"mysql://h", "h", "", "host=h dbname=x", "postgresql://h", "POSTGRESX://h"} {
		for _, db := range []string{"", "x"} {
			if x == "postgresql://h" && db == "" {
				continue
			}
			v.try("unknown driver", fmt.Sprintf("%q %q", x, db), func() string {
				d, _, _, err := xdb.Open(x, db)
				if err == nil || d != nil {
					return "opened"
				}
				return ""
			})
		}
	}
	v.try("unreachable", "", func() string {
		for _, x := range []string{"postgres://u:p@127.0.0.1:1?sslmode=disable", "sqlserver://u:p@127.0.0.1:1?dial+timeout=1"} {
			for _, db := range []string{"", "x"} {
				d, _, _, err := xdb.Open(x, db)
				if err == nil || d != nil {
					return x + " opened"
				}
			}
		}
		return ""
	})
}
