package schema_test

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/effective-security/xdb/schema"
)

func genCatalog(r *rand.Rand) *catalog {
	k := &catalog{failAt: -1}
	schemas := []string{"public", "Sales", "o'hara"}
	names := []string{"user", "Org", "orgmember", "it's", "a.b"}
	nulls := []string{"YES", "NO", "yes", "no", "TRUE", "false"}
	seen := map[string]bool{}
	gen := func(view bool) catTable {
		t := catTable{schema: schemas[r.Intn(len(schemas))], name: names[r.Intn(len(names))], typ: "BASE TABLE"}
		n := r.Intn(5)
		if view {
			n++
		}
		perm := r.Perm(n)
		for i := 0; i < n; i++ {
			c := catCol{name: fmt.Sprintf("c%d", perm[i]), typ: "bigint", udt: "int8", null: nulls[r.Intn(len(nulls))], pos: int64(perm[i]) + 1}
			if r.Intn(3) == 0 {
				c.max = int64(r.Intn(300))
			}
			t.cols = append(t.cols, c)
		}
		if !view {
			for i := r.Intn(3); i > 0; i-- {
				ix := catIdx{name: fmt.Sprintf("idx%d", i), primary: r.Intn(2) == 0, unique: r.Intn(2) == 0}
				var cols []string
				for j := r.Intn(3); j >= 0; j-- {
					cols = append(cols, fmt.Sprintf("c%d", r.Intn(6))) // some are not among the columns
				}
				ix.cols = strings.Join(cols, ",")
				t.idx = append(t.idx, ix)
			}
		}
		return t
	}
	for i := r.Intn(6); i > 0; i-- {
		t := gen(false)
		if !seen[t.schema+"\x00"+t.name] {
			seen[t.schema+"\x00"+t.name] = true
			k.tables = append(k.tables, t)
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		t := gen(true)
		if !seen[t.schema+"\x00"+t.name] {
			seen[t.schema+"\x00"+t.name] = true
			k.views = append(k.views, t)
		}
	}
	for i := r.Intn(5); i > 0 && len(k.tables) > 0; i-- {
		a, b := k.tables[r.Intn(len(k.tables))], k.tables[r.Intn(len(k.tables))]
		k.fks = append(k.fks, catFK{fmt.Sprintf("fk%d", i), a.schema, a.name, fmt.Sprintf("c%d", r.Intn(3)), b.schema, b.name, "c0"})
	}
	return k
}

func genFilter(r *rand.Rand, l []string) []string {
	if r.Intn(3) == 0 {
		return nil
	}
	var f []string
	for i := r.Intn(2); i >= 0; i-- {
		s := l[r.Intn(len(l))]
		switch r.Intn(3) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s = strings.ToLower(s)
		}
		f = append(f, s)
	}
	return f
}

func selected(f []string, s string) bool {
	if len(f) == 0 {
		return true
	}
	for _, x := range f {
		if strings.EqualFold(x, s) {
			return true
		}
	}
	return false
}

func wantCols(t catTable) string {
	cc := append([]catCol{}, t.cols...)
	sort.SliceStable(cc, func(i, j int) bool { return cc[i].pos < cc[j].pos })
	s := ""
	for _, c := range cc {
		null := map[string]bool{"YES": true, "TRUE": true, "NULL": true}[strings.ToUpper(c.null)]
		max := int64(0)
		if c.max != nil {
			max = c.max.(int64)
		}
		s += fmt.Sprintf("[%s %s %s %v %d %d %s]", c.name, c.typ, c.udt, null, max, c.pos, t.schema+"."+t.name+"."+c.name)
	}
	return s
}

func gotCols(t *schema.Table) string {
	s := ""
	for _, c := range t.Columns {
		s += fmt.Sprintf("[%s %s %s %v %d %d %s]", c.Name, c.Type, c.UdtType, c.Nullable, c.MaxLength, c.Position, c.SchemaName)
	}
	return s
}

func wantIdx(t catTable) string {
	s := ""
	for _, i := range t.idx {
		s += fmt.Sprintf("[%s %v %v %s %s]", i.name, i.primary, i.unique, i.cols, t.schema+"."+t.name+"."+i.name)
	}
	return s
}

func gotIdx(t *schema.Table) string {
	s := ""
	for _, i := range t.Indexes {
		s += fmt.Sprintf("[%s %v %v %s %s]", i.Name, i.IsPrimary, i.IsUnique, strings.Join(i.ColumnNames, ","), i.SchemaName)
	}
	return s
}

// the index part of one column and the primary key follow from the indexes
func checkIdx(t *schema.Table) string {
	pk := ""
	per := map[string]int{}
	for _, i := range t.Indexes {
		for _, n := range i.ColumnNames {
			per[n]++
			if i.IsPrimary && len(i.ColumnNames) == 1 {
				for _, c := range t.Columns {
					if c.Name == n {
						pk = n
					}
				}
			}
		}
	}
	for _, c := range t.Columns {
		if len(c.Indexes) != per[c.Name] {
			return fmt.Sprintf("column %s is said to be in %d indexes, it is in %d", c.SchemaName, len(c.Indexes), per[c.Name])
		}
	}
	if t.PrimaryKeyName() != pk {
		return fmt.Sprintf("primary key of %s is %q, want %q", t.SchemaName, t.PrimaryKeyName(), pk)
	}
	return ""
}

func (k *catalog) want(view bool, sf, tf []string) []catTable {
	l := k.tables
	if view {
		l = k.views
	}
	var out []catTable
	for _, t := range l {
		if selected(sf, t.schema) && selected(tf, t.name) {
			out = append(out, t)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].schema+"."+out[i].name < out[j].schema+"."+out[j].name })
	return out
}

func TestVerifC20(t *testing.T) {
	v := vnew(t)
	ctx := context.Background()
	schemas := []string{"public", "Sales", "o'hara", "none"}
	names := []string{"user", "Org", "orgmember", "it's", "a.b", "none"}
	hows := []string{"", "", "query", "scan", "iter"}
	for i := 0; i < 900*v.deep; i++ {
		k := genCatalog(v.r)
		sf, tf := genFilter(v.r, schemas), genFilter(v.r, names)
		kind := []string{"tables", "deps", "views", "fks"}[v.r.Intn(4)]
		prov := []string{"postgres", "sqlserver"}[v.r.Intn(2)]
		k.failHow = hows[v.r.Intn(len(hows))]
		if k.failHow != "" {
			k.failAt = v.r.Intn(2 + 2*len(k.tables))
			if v.r.Intn(3) == 0 {
				k.failAt = 0
			}
			k.failRow = v.r.Intn(3)
		}
		in := fmt.Sprintf("%s %s schemas=%q names=%q fault=%s@%d.%d tables=%v views=%v fks=%v", prov, kind, sf, tf, k.failHow, k.failAt, k.failRow, k.tables, k.views, k.fks)
		v.try("listing", in, func() string {
			db := openCatalog(k)
			defer db.Close()
			p := schema.NewProvider(db, prov)
			var tt schema.Tables
			var fk schema.ForeignKeys
			var err error
			switch kind {
			case "tables", "deps":
				tt, err = p.ListTables(ctx, sf, tf, kind == "deps")
			case "views":
				tt, err = p.ListViews(ctx, sf, tf)
			default:
				fk, err = p.ListForeignKeys(ctx, sf, tf)
			}
			if k.bad != "" {
				return "" // not this machinery's catalog
			}
			if k.open != 0 {
				return fmt.Sprintf("%d results are left open", k.open)
			}
			if k.hit && err == nil {
				return "a failure while reading is not reported"
			}
			if k.hit && k.failHow != "scan" && !errors.Is(err, errCatalog) {
				return fmt.Sprintf("the failure is reported as another error: %v", err)
			}
			if !k.hit && err != nil {
				return fmt.Sprintf("fails without a cause: %v", err)
			}
			if err != nil {
				if len(tt) > 0 || len(fk) > 0 {
					return "a partial result with an error"
				}
				return ""
			}
			if kind == "fks" {
				w, g := "", ""
				for _, f := range k.fks {
					if selected(sf, f.schema) && selected(tf, f.table) {
						w += fmt.Sprint([]string{f.name, f.schema, f.table, f.col, f.rschema, f.rtable, f.rcol, f.schema + "." + f.table + "." + f.name}) + "\n"
					}
				}
				for _, f := range fk {
					g += fmt.Sprint([]string{f.Name, f.Schema, f.Table, f.Column, f.RefSchema, f.RefTable, f.RefColumn, f.SchemaName}) + "\n"
				}
				if sortLines(w) != sortLines(g) {
					return fmt.Sprintf("foreign keys %s want %s", g, w)
				}
				return ""
			}
			want := k.want(kind == "views", sf, tf)
			got := map[string]*schema.Table{}
			last := ""
			for _, t := range tt {
				if t.SchemaName < last {
					return "the tables are not in order of their names"
				}
				last = t.SchemaName
				if got[t.SchemaName] != nil {
					return "table " + t.SchemaName + " is listed twice"
				}
				got[t.SchemaName] = t
			}
			if kind != "deps" && len(tt) != len(want) {
				return fmt.Sprintf("%d objects listed, want %d", len(tt), len(want))
			}
			all := map[string]catTable{}
			for _, t := range k.tables {
				all[t.schema+"."+t.name] = t
			}
			for _, w := range want {
				g := got[w.schema+"."+w.name]
				if g == nil {
					return "missing " + w.schema + "." + w.name
				}
				if g.Schema != w.schema || g.Name != w.name || g.IsView != (kind == "views") || kind != "views" && g.Type != w.typ {
					return fmt.Sprintf("table %+v", g)
				}
				if kind != "views" {
					if gotIdx(g) != wantIdx(w) {
						return fmt.Sprintf("indexes of %s: %s want %s", g.SchemaName, gotIdx(g), wantIdx(w))
					}
					if s := checkIdx(g); s != "" {
						return s
					}
				}
			}
			for _, g := range tt {
				src := all[g.SchemaName]
				if kind == "views" {
					src = catTable{}
					for _, w := range k.views {
						if w.schema == g.Schema && w.name == g.Name {
							src = w
						}
					}
				}
				if gotCols(g) != wantCols(src) {
					return fmt.Sprintf("columns of %s: %s want %s", g.SchemaName, gotCols(g), wantCols(src))
				}
			}
			if kind == "deps" {
				// exactly the selected tables and everything their foreign keys lead to
				need := map[string]bool{}
				var reach func(n string)
				reach = func(n string) {
					if need[n] {
						return
					}
					need[n] = true
					for _, f := range k.fks {
						if f.schema+"."+f.table == n {
							for _, c := range all[n].cols {
								if c.name == f.col && lastFK(k.fks, f) {
									reach(f.rschema + "." + f.rtable)
								}
							}
						}
					}
				}
				for _, w := range want {
					reach(w.schema + "." + w.name)
				}
				for n := range need {
					if got[n] == nil {
						return "dependency " + n + " is missing"
					}
				}
				for n := range got {
					if !need[n] {
						return n + " is neither selected nor a dependency"
					}
				}
			}
			return ""
		})
	}
}

// when a column has several foreign keys the last one read counts
func lastFK(l []catFK, f catFK) bool {
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].schema == f.schema && l[i].table == f.table && l[i].col == f.col {
			return l[i] == f
		}
	}
	return false
}

func sortLines(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}
