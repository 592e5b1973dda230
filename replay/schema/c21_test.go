package schema_test

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/effective-security/xdb/schema"
	"github.com/effective-security/xdb/xsql"
)

func TestVerifC21(t *testing.T) {
	v := vnew(t)
	words := []string{"id", "name", "org_id", "meta", "NULL", "a", "_x", "created_at", "x y"}
	for i := 0; i < 1500*v.deep; i++ {
		n := v.r.Intn(7)
		cols := make([]string, n, n+v.r.Intn(3))
		null := map[string]bool{}
		for j := range cols {
			cols[j] = words[v.r.Intn(len(words))]
		}
		for _, w := range words {
			switch v.r.Intn(4) {
			case 0:
				null[w] = true
			case 1:
				null[w] = false
			}
		}
		if v.r.Intn(5) == 0 {
			null = nil
		}
		prefix := []string{"", "a", "tbl", "A1"}[v.r.Intn(4)]
		d := []xsql.SQLDialect{xsql.Postgres, xsql.NoDialect, xsql.SQLServer}[v.r.Intn(3)]
		ti := &schema.TableInfo{Schema: "public", Name: "user", SchemaName: []string{"public.user", "dbo.\"User\""}[v.r.Intn(2)], PrimaryKey: "id", Columns: cols, Indexes: []string{"i1"}, Dialect: d}
		in := fmt.Sprintf("cols=%q prefix=%q null=%v table=%s", cols, prefix, null, ti.SchemaName)
		v.try("columns", in, func() string {
			copyOf := *ti
			copyOf.Columns = append([]string{}, cols...)
			nullCopy := map[string]bool{}
			for k, x := range null {
				nullCopy[k] = x
			}
			var want []string
			for _, c := range cols {
				switch {
				case null[c]:
					want = append(want, "NULL")
				case prefix != "":
					want = append(want, prefix+"."+c)
				default:
					want = append(want, c)
				}
			}
			all := strings.Join(cols, ", ")
			for round := 0; round < 2; round++ {
				if g := ti.AliasedColumns(prefix, null); !sameList(g, want) {
					return fmt.Sprintf("AliasedColumns %q want %q", g, want)
				}
				if g := ti.AllColumns(); !sameList(g, cols) {
					return fmt.Sprintf("AllColumns %q want %q", g, all)
				}
			}
			norm := func(b xsql.Builder) string {
				s := strings.Join(strings.Fields(b.String()), " ")
				b.Close()
				return s
			}
			f := func(s string) string { return strings.Join(strings.Fields(s), " ") }
			tn := ti.SchemaName
			if n > 0 {
				if g := norm(ti.Select()); g != f("SELECT "+all+" FROM "+tn) {
					return "Select: " + g
				}
				an := tn
				if prefix != "" {
					an += " " + prefix
				}
				if g := norm(ti.SelectAliased(prefix, null)); g != f("SELECT "+strings.Join(want, ", ")+" FROM "+an) {
					return "SelectAliased: " + g
				}
				if g := norm(ti.Select(cols[0], cols[n-1])); strings.ReplaceAll(g, ", ", ",") != f("SELECT "+cols[0]+","+cols[n-1]+" FROM "+tn) {
					return "Select of two: " + g
				}
			}
			if g := norm(ti.From().Select("1")); g != f("SELECT 1 FROM "+tn) {
				return "From: " + g
			}
			if g := norm(ti.DeleteFrom()); g != f("DELETE FROM "+tn) {
				return "DeleteFrom: " + g
			}
			if g := norm(ti.Update().SetExpr("a", "1")); g != f("UPDATE "+tn+" SET a=1") {
				return "Update: " + g
			}
			if g := norm(ti.InsertInto().SetExpr("a", "1")); g != f("INSERT INTO "+tn+" ( a ) VALUES ( 1 )") {
				return "InsertInto: " + g
			}
			if !reflect.DeepEqual(*ti, copyOf) {
				return fmt.Sprintf("the description changed: %+v, was %+v", *ti, copyOf)
			}
			if len(null) != len(nullCopy) {
				return "the nulled set changed"
			}
			// a changed description is rendered as it is now
			if n > 0 {
				ti.Columns = append(append([]string{}, cols...), "added")
				if g := ti.AllColumns(); !sameList(g, ti.Columns) {
					return fmt.Sprintf("AllColumns after a change %q", g)
				}
			}
			return ""
		})
	}
}

// one entry per column, separated by commas
func sameList(g string, want []string) bool {
	if len(want) == 0 {
		return g == ""
	}
	l := strings.Split(g, ",")
	if len(l) != len(want) {
		return false
	}
	for i := range l {
		if strings.TrimSpace(l[i]) != want[i] {
			return false
		}
	}
	return true
}
