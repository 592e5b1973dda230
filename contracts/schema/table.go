package schema

import (
	"strings"

	"github.com/effective-security/xdb/xsql"
)

var _ = strings.Join

// ---- joined lists ----
// A text joined from non-empty entries that do not contain the separator determines its entries.

//govc:abstract
func joinN(text, sep string) int { return 0 }

//govc:abstract
func joinAt(text, sep string, i int) string { return "" }

// a non-empty entry without the separator

//govc:abstract
func okEntry(s, sep string) bool { return false }

//govc:axiom
func axEntry() bool { return okEntry("NULL", ", ") && okEntry("NULL", ",") }

//govc:extern strings.Join
func extJoin(a []string, sep string, r string) {
	gvEns("", gvImp(gvAll(func(i int) bool { return gvImp(0 <= i && i < len(a), okEntry(a[i], sep)) }),
		joinN(r, sep) == len(a) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(a), joinAt(r, sep, i) == a[i]) })))
	gvEns("", gvImp(len(a) == 0, r == ""))
	gvEns("", gvImp(len(a) == 1, r == a[0]))
}

// text lists exactly these entries, in order
func lists(text, sep string, n int) bool { return joinN(text, sep) == n }

func aliased(c, prefix string, nulls map[string]bool) string {
	if nulls[c] {
		return "NULL"
	}
	if prefix == "" {
		return c
	}
	return prefix + "." + c
}

func okColumns(t *TableInfo, sep string) bool {
	return t != nil && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(t.Columns), okEntry(t.Columns[i], sep)) })
}

func okAliased(t *TableInfo, prefix string) bool {
	return gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(t.Columns), okEntry(prefix+"."+t.Columns[i], ", "))
	})
}

func listsAliased(t *TableInfo, prefix string, nulls map[string]bool, r string) bool {
	return gvImp(okColumns(t, ", ") && okAliased(t, prefix), lists(r, ", ", len(t.Columns)) && gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(t.Columns), joinAt(r, ", ", i) == aliased(t.Columns[i], prefix, nulls))
	}))
}

func listsAll(t *TableInfo, r string) bool {
	return gvImp(okColumns(t, ", "), lists(r, ", ", len(t.Columns)) && gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(t.Columns), joinAt(r, ", ", i) == t.Columns[i])
	}))
}

//govc:contract (*TableInfo).AliasedColumns
//govc:prop C21
func spAliasedColumns(t *TableInfo, prefix string, nulls map[string]bool, r string) {
	gvReq(t != nil)
	gvEns("one entry per column, in order: NULL, or the column with the prefix", listsAliased(t, prefix, nulls, r))
}

//govc:loop (*TableInfo).AliasedColumns
func lpAliasedColumns(t *TableInfo, prefix string, nullColumns map[string]bool, prefixed []string, rangeidx int) bool {
	return len(prefixed) == len(t.Columns) && gvAll(func(i int) bool {
		return gvImp(0 <= i && i < rangeidx, prefixed[i] == aliased(t.Columns[i], prefix, nullColumns))
	})
}

//govc:contract (*TableInfo).AllColumns
//govc:prop C21
func spAllColumns(t *TableInfo, r string) {
	gvReq(t != nil)
	gvEns("one entry per column, in order", listsAll(t, r))
}

// ---- statements ----

//govc:ghost
func GVTable(d xsql.SQLDialect) string { return "" }

//govc:ghost
func GVVerb(d xsql.SQLDialect) string { return "" }

//govc:ghost
func GVSelected(b xsql.Builder) string { return "" }

//govc:ghost
func GVStarted(d xsql.SQLDialect) xsql.Builder { return nil }

func started(d xsql.SQLDialect, verb, table string, b xsql.Builder) {
	gvModGhost("GVTable", d)
	gvModGhost("GVVerb", d)
	gvModGhost("GVStarted", d)
	gvEns("", GVTable(d) == table && GVVerb(d) == verb && GVStarted(d) == b && b != nil)
}

//govc:iface (github.com/effective-security/xdb/xsql.SQLDialect).From
func ifFrom(d xsql.SQLDialect, expr string, args []any, b xsql.Builder) {
	started(d, gvIte(len(args) == 0, "FROM", "?"), expr, b)
}

//govc:iface (github.com/effective-security/xdb/xsql.SQLDialect).DeleteFrom
func ifDeleteFrom(d xsql.SQLDialect, expr string, b xsql.Builder) { started(d, "DELETE", expr, b) }

//govc:iface (github.com/effective-security/xdb/xsql.SQLDialect).InsertInto
func ifInsertInto(d xsql.SQLDialect, expr string, b xsql.Builder) { started(d, "INSERT", expr, b) }

//govc:iface (github.com/effective-security/xdb/xsql.SQLDialect).Update
func ifUpdate(d xsql.SQLDialect, expr string, b xsql.Builder) { started(d, "UPDATE", expr, b) }

//govc:iface (github.com/effective-security/xdb/xsql.Builder).Select
func ifSelect(b xsql.Builder, expr string, args []any, r xsql.Builder) {
	gvModGhost("GVSelected", b)
	gvEns("", r == b && GVSelected(b) == gvIte(len(args) == 0, expr, "?"))
}

func starts(t *TableInfo, verb, table string, b xsql.Builder) {
	gvReq(t != nil && t.Dialect != nil)
	gvModGhost("GVTable", t.Dialect)
	gvModGhost("GVVerb", t.Dialect)
	gvModGhost("GVStarted", t.Dialect)
	gvEns("a statement on the table's qualified name", GVVerb(t.Dialect) == verb && GVTable(t.Dialect) == table && GVStarted(t.Dialect) == b && b != nil)
}

//govc:contract (*TableInfo).From
//govc:prop C21
func spFrom(t *TableInfo, b xsql.Builder) { starts(t, "FROM", t.SchemaName, b) }

//govc:contract (*TableInfo).DeleteFrom
//govc:prop C21
func spDeleteFrom(t *TableInfo, b xsql.Builder) { starts(t, "DELETE", t.SchemaName, b) }

//govc:contract (*TableInfo).InsertInto
//govc:prop C21
func spInsertInto(t *TableInfo, b xsql.Builder) { starts(t, "INSERT", t.SchemaName, b) }

//govc:contract (*TableInfo).Update
//govc:prop C21
func spUpdate(t *TableInfo, b xsql.Builder) { starts(t, "UPDATE", t.SchemaName, b) }

//govc:contract (*TableInfo).Select
//govc:prop C21
func spSelect(t *TableInfo, cols []string, b xsql.Builder) {
	starts(t, "FROM", t.SchemaName, b)
	gvModGhost("GVSelected", nil)
	gvEns("the columns asked for, or all of the table's", gvImp(len(cols) == 0, listsAll(t, GVSelected(b))) &&
		gvImp(len(cols) > 0 && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(cols), okEntry(cols[i], ",")) }),
			lists(GVSelected(b), ",", len(cols)) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(cols), joinAt(GVSelected(b), ",", i) == cols[i]) })))
}

//govc:contract (*TableInfo).SelectAliased
//govc:prop C21
func spSelectAliased(t *TableInfo, prefix string, nulls map[string]bool, b xsql.Builder) {
	starts(t, "FROM", gvIte(prefix == "", t.SchemaName, t.SchemaName+" "+prefix), b)
	gvModGhost("GVSelected", nil)
	gvEns("the aliased columns", listsAliased(t, prefix, nulls, GVSelected(b)))
}
