package schema

import (
	"context"
	"database/sql"
	"sort"

	"github.com/effective-security/x/slices"
	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/xsql"
)

var _ = sort.Slice
var _ xdb.DB
var _ = slices.ContainsStringEqualFold

// ---- results of catalog queries ----

//govc:abstract
func GVLen(r *sql.Rows) int { return 0 }

//govc:abstract
func GVErr(r *sql.Rows) error { return nil }

// whose result it is
//
//govc:abstract
func owner(r *sql.Rows) Dialect { return nil }

// the cells of row i, and whether the row can be scanned

//govc:abstract
func cellS(r *sql.Rows, i, k int) string { return "" }

//govc:abstract
func cellB(r *sql.Rows, i, k int) bool { return false }

//govc:abstract
func cellI(r *sql.Rows, i, k int) int { return 0 }

//govc:abstract
func cellNull(r *sql.Rows, i, k int) bool { return false }

//govc:ghost
func GVPos(r *sql.Rows) int { return 0 }

//govc:ghost
func GVEnd(r *sql.Rows) bool { return false }

//govc:ghost
func GVClosed(r *sql.Rows) bool { return false }

//govc:ghost
func GVScanFailed(r *sql.Rows) bool { return false }

// how many results of a dialect are open
//
//govc:ghost
func GVOpen(d Dialect) int { return 0 }

//govc:extern (*database/sql.Rows).Next
func extRowsNext(r *sql.Rows, ok bool) {
	gvModGhost("GVPos", r)
	gvModGhost("GVEnd", r)
	p := gvOld(func() int { return GVPos(r) })
	c := gvOld(func() bool { return GVClosed(r) || GVEnd(r) })
	gvEns("", ok == (p < GVLen(r) && !c))
	gvEns("", GVPos(r) == gvIte(ok, p+1, p))
	gvEns("", GVEnd(r) == !ok)
}

//govc:extern (*database/sql.Rows).Err
func extRowsErr(r *sql.Rows, err error) {
	gvEns("", gvImp(GVEnd(r), err == GVErr(r)))
	gvEns("", gvImp(!GVEnd(r), err == nil))
}

//govc:extern (*database/sql.Rows).Close
func extRowsClose(r *sql.Rows, err error) {
	gvModGhost("GVClosed", r)
	gvModGhost("GVOpen", owner(r))
	gvEns("", GVClosed(r) && GVOpen(owner(r)) == gvOld(func() int { return GVOpen(owner(r)) })-gvOld(func() int { return gvIte(GVClosed(r), 0, 1) }))
}

//govc:extern (*database/sql.Rows).Scan
func extRowsScan(r *sql.Rows, dest []any, err error) {
	gvReq(!GVClosed(r) && !GVEnd(r) && GVPos(r) > 0)
	gvModGhost("GVScanFailed", r)
	gvEns("", GVScanFailed(r) == (gvOld(func() bool { return GVScanFailed(r) }) || err != nil))
	scanCell(r, dest, 0, err)
	scanCell(r, dest, 1, err)
	scanCell(r, dest, 2, err)
	scanCell(r, dest, 3, err)
	scanCell(r, dest, 4, err)
	scanCell(r, dest, 5, err)
	scanCell(r, dest, 6, err)
	scanCell(r, dest, 7, err)
}

func scanCell(r *sql.Rows, dest []any, k int, err error) {
	if k >= len(dest) {
		return
	}
	i := GVPos(r) - 1
	if p, ok := dest[k].(*string); ok {
		gvMod(p)
		gvEns("", gvImp(err == nil, *p == cellS(r, i, k)))
	}
	if p, ok := dest[k].(*bool); ok {
		gvMod(p)
		gvEns("", gvImp(err == nil, *p == cellB(r, i, k)))
	}
	if p, ok := dest[k].(*int); ok {
		gvMod(p)
		gvEns("", gvImp(err == nil, *p == cellI(r, i, k)))
	}
	if p, ok := dest[k].(**int); ok {
		gvMod(p)
		gvEns("", gvImp(err == nil, gvIff(*p == nil, cellNull(r, i, k)) && gvImp(*p != nil, **p == cellI(r, i, k))))
	}
}

// a fresh result
func opened(d Dialect, r *sql.Rows, err error) bool {
	return gvIff(err == nil, r != nil) && GVOpen(d) == gvOld(func() int { return GVOpen(d) })+gvIte(err == nil, 1, 0) &&
		gvImp(r != nil, gvFresh(r) && owner(r) == d && GVLen(r) >= 0 && GVLen(r) < 1<<31 && GVPos(r) == 0 && !GVEnd(r) && !GVClosed(r) && !GVScanFailed(r))
}

//govc:ghost
func GVTables(d Dialect) *sql.Rows { return nil }

//govc:ghost
func GVViews(d Dialect) *sql.Rows { return nil }

//govc:ghost
func GVColumns(d Dialect) *sql.Rows { return nil }

//govc:ghost
func GVIndexes(d Dialect) *sql.Rows { return nil }

//govc:ghost
func GVFKs(d Dialect) *sql.Rows { return nil }

//govc:iface (github.com/effective-security/xdb/schema.Dialect).QueryTables
func ifTables(d Dialect, ctx context.Context, r *sql.Rows, err error) {
	gvModGhost("GVOpen", d)
	gvModGhost("GVTables", d)
	gvEns("", opened(d, r, err) && GVTables(d) == r)
}

//govc:iface (github.com/effective-security/xdb/schema.Dialect).QueryViews
func ifViews(d Dialect, ctx context.Context, r *sql.Rows, err error) {
	gvModGhost("GVOpen", d)
	gvModGhost("GVViews", d)
	gvEns("", opened(d, r, err) && GVViews(d) == r)
}

//govc:iface (github.com/effective-security/xdb/schema.Dialect).QueryColumns
func ifColumns(d Dialect, ctx context.Context, schema, table string, r *sql.Rows, err error) {
	gvModGhost("GVOpen", d)
	gvModGhost("GVColumns", d)
	gvEns("", opened(d, r, err) && GVColumns(d) == r && gvImp(r != nil, tableOf(r) == schema+"."+table))
}

// the table a columns or index result is about
//
//govc:abstract
func tableOf(r *sql.Rows) string { return "" }

//govc:iface (github.com/effective-security/xdb/schema.Dialect).QueryIndexes
func ifIndexes(d Dialect, ctx context.Context, schema, table string, r *sql.Rows, err error) {
	gvModGhost("GVOpen", d)
	gvModGhost("GVIndexes", d)
	gvEns("", opened(d, r, err) && GVIndexes(d) == r && gvImp(r != nil, tableOf(r) == schema+"."+table))
}

//govc:iface (github.com/effective-security/xdb/schema.Dialect).QueryForeignKeys
func ifFKs(d Dialect, ctx context.Context, r *sql.Rows, err error) {
	gvModGhost("GVOpen", d)
	gvModGhost("GVFKs", d)
	gvEns("", opened(d, r, err) && GVFKs(d) == r)
}

// everything was read: the end was seen, no failure was met
func readAll(r *sql.Rows) bool {
	return r != nil && GVEnd(r) && GVPos(r) == GVLen(r) && GVErr(r) == nil && !GVScanFailed(r)
}

//govc:extern github.com/effective-security/x/slices.ContainsStringEqualFold
//govc:pure
func extContainsFold(items []string, item string, r bool) {
	gvEns("", gvImp(len(items) == 0, !r))
}

func picked(f []string, s string) bool { return len(f) == 0 || slices.ContainsStringEqualFold(f, s) }

//govc:extern github.com/cockroachdb/errors.WithMessagef
func extWithMessagef(err error, format string, args []any, r error) {
	gvEns("", gvIff(r == nil, err == nil))
}

//govc:extern github.com/cockroachdb/errors.WithStack
func extWithStack(err error, r error) { gvEns("", gvIff(r == nil, err == nil)) }

// ---- foreign keys ----

// how many of the first n rows are selected

func fkCount(r *sql.Rows, schemas, tables []string, n int) int { return 0 }

//govc:extern github.com/effective-security/xdb/schema.fkCount
//govc:pure
func extFkCount(r *sql.Rows, schemas, tables []string, n int, c int) {
	gvEns("", gvImp(n <= 0, c == 0))
	gvEns("", gvImp(n > 0, c == fkCount(r, schemas, tables, n-1)+gvIte(fkPicked(r, schemas, tables, n-1), 1, 0)))
	gvEns("", 0 <= c && c <= gvIte(n < 0, 0, n))
}

func fkPicked(r *sql.Rows, schemas, tables []string, i int) bool {
	return picked(schemas, cellS(r, i, 1)) && picked(tables, cellS(r, i, 2))
}

func isFK(k *ForeignKey, r *sql.Rows, i int) bool {
	return k != nil && k.Name == cellS(r, i, 0) && k.Schema == cellS(r, i, 1) && k.Table == cellS(r, i, 2) && k.Column == cellS(r, i, 3) &&
		k.RefSchema == cellS(r, i, 4) && k.RefTable == cellS(r, i, 5) && k.RefColumn == cellS(r, i, 6) &&
		k.SchemaName == cellS(r, i, 1)+"."+cellS(r, i, 2)+"."+cellS(r, i, 0)
}

func allocated(keys ForeignKeys) bool {
	return gvAll(func(i int) bool { return gvImp(0 <= i && i < len(keys), gvAlloc(keys[i])) })
}

func fksUpTo(keys ForeignKeys, r *sql.Rows, schemas, tables []string, n int) bool {
	return len(keys) == fkCount(r, schemas, tables, n) && gvAll(func(i int) bool {
		c := fkCount(r, schemas, tables, i)
		return gvImp(0 <= i && i < n && fkPicked(r, schemas, tables, i), 0 <= c && c < len(keys) && isFK(keys[c], r, i))
	})
}

//govc:contract (*SQLServerProvider).ListForeignKeys
//govc:prop C20
func spListForeignKeys(p *SQLServerProvider, ctx context.Context, schemas []string, tables []string, keys ForeignKeys, err error) {
	gvReq(p != nil && p.dialect != nil && p.fkeys != nil)
	gvMod(p.fkeys)
	gvModGhost("GVOpen", p.dialect)
	gvModGhost("GVFKs", p.dialect)
	gvEns("every result is closed", GVOpen(p.dialect) == gvOld(func() int { return GVOpen(p.dialect) }))
	gvEns("success means everything was read", gvImp(err == nil, readAll(GVFKs(p.dialect))))
	gvEns("no partial result", gvImp(err != nil, len(keys) == 0))
	gvEns("exactly the selected keys", gvImp(err == nil, fksUpTo(keys, GVFKs(p.dialect), schemas, tables, GVLen(GVFKs(p.dialect)))))
}

//govc:loop (*SQLServerProvider).ListForeignKeys
func lpListForeignKeys(r *SQLServerProvider, rows *sql.Rows, schemas, tables []string, keys ForeignKeys) bool {
	return rows != nil && !GVEnd(rows) && !GVClosed(rows) && !GVScanFailed(rows) && allocated(keys) && 0 <= GVPos(rows) && GVPos(rows) <= GVLen(rows) && r.fkeys != nil &&
		fksUpTo(keys, rows, schemas, tables, GVPos(rows))
}

// ---- names ----

//govc:contract (*ForeignKey).ColumnSchemaName
//govc:prop C20
func spColumnSchemaName(k *ForeignKey, r string) {
	gvEns("schema.table.column", gvImp(k != nil, r == k.Schema+"."+k.Table+"."+k.Column) && gvImp(k == nil, r == ""))
}

//govc:contract (*ForeignKey).RefColumnSchemaName
//govc:prop C20
func spRefColumnSchemaName(k *ForeignKey, r string) {
	gvEns("schema.table.column", gvImp(k != nil, r == k.RefSchema+"."+k.RefTable+"."+k.RefColumn) && gvImp(k == nil, r == ""))
}

//govc:contract maxLength
//govc:prop C20
func spMaxLength(v *int, r uint32) {
	gvEns("the length, zero when there is none", gvImp(v == nil, r == 0) && gvImp(v != nil && *v >= 0 && *v < 1<<32, gvInt(r) == gvInt(*v)))
}

var _ xsql.Builder

// ---- columns of one table ----

func isCol(c *Column, r *sql.Rows, i int, fqn string) bool {
	return c != nil && c.Name == cellS(r, i, 0) && c.Type == cellS(r, i, 1) && c.UdtType == cellS(r, i, 2) &&
		c.Nullable == slices.ContainsStringEqualFold(nullableVals, cellS(r, i, 3)) && lenIs(c.MaxLength, r, i, 4) &&
		c.Position == uint32(cellI(r, i, 5)) && c.SchemaName == fqn+"."+c.Name
}

func lenIs(l uint32, r *sql.Rows, i, k int) bool {
	return gvImp(cellNull(r, i, k), l == 0) && gvImp(!cellNull(r, i, k) && 0 <= cellI(r, i, k) && cellI(r, i, k) < 1<<32, gvInt(l) == gvInt(cellI(r, i, k)))
}

//govc:contract (*SQLServerProvider).readColumnsSchema
//govc:prop C20
func spReadColumns(p *SQLServerProvider, ctx context.Context, schema, table string, cc Columns, err error) {
	gvReq(ready(p))
	gvMod(p.columns)
	gvEns("the provider's maps stay sound", cached(p))
	gvModGhost("GVOpen", p.dialect)
	gvModGhost("GVColumns", p.dialect)
	rs := GVColumns(p.dialect)
	gvEns("every result is closed", GVOpen(p.dialect) == gvOld(func() int { return GVOpen(p.dialect) }))
	gvEns("success means everything was read", gvImp(err == nil, readAll(rs)))
	gvEns("no partial result", gvImp(err != nil, len(cc) == 0))
	gvEns("one column per row", gvImp(err == nil, len(cc) == GVLen(rs)))
	gvEns("every row's column is listed", gvImp(err == nil, gvAll(func(i int) bool {
		return gvImp(0 <= i && i < GVLen(rs), gvEx(func(j int) bool { return 0 <= j && j < len(cc) && isCol(cc[j], rs, i, schema+"."+table) }))
	})))
	gvEns("every listed column is a row's", gvImp(err == nil, gvAll(func(j int) bool {
		return gvImp(0 <= j && j < len(cc), gvEx(func(i int) bool { return 0 <= i && i < GVLen(rs) && isCol(cc[j], rs, i, schema+"."+table) }))
	})))
	gvEns("in ordinal order", gvAll(func(i, j int) bool {
		return gvImp(0 <= i && i < j && j < len(cc), cc[i].Position <= cc[j].Position)
	}))
	gvEns("fresh columns", gvAll(func(i int) bool { return gvImp(0 <= i && i < len(cc), cc[i] != nil && gvFresh(cc[i])) }))
	gvEns("about the table asked for", gvImp(err == nil, tableOf(rs) == schema+"."+table))
}

//govc:loop (*SQLServerProvider).readColumnsSchema
func lpReadColumns(r *SQLServerProvider, rows *sql.Rows, schema, table string, cc Columns) bool {
	return rows != nil && !GVEnd(rows) && !GVClosed(rows) && !GVScanFailed(rows) && 0 <= GVPos(rows) && GVPos(rows) <= GVLen(rows) && r.columns != nil &&
		len(cc) == GVPos(rows) && gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(cc), gvAlloc(cc[i]) && gvFresh(cc[i]) && isCol(cc[i], rows, i, schema+"."+table))
	}) && cached(r)
}

//govc:abstract
func colPerm(s Columns, i int) int { return 0 }

//govc:abstract
func colPermInv(s Columns, i int) int { return 0 }

//govc:abstract
func tabPerm(s Tables, i int) int { return 0 }

//govc:abstract
func tabPermInv(s Tables, i int) int { return 0 }

//govc:extern sort.Slice
func extSortSlice(x any, less func(i, j int) bool) {
	if s, ok := x.(Columns); ok {
		gvMod(s)
		gvEns("", gvAll(func(i, j int) bool { return gvImp(0 <= i && i < j && j < len(s), !less(j, i)) }))
		gvEns("", gvAll(func(i int) bool {
			k := gvOld(func() int { return colPerm(s, i) })
			return gvImp(0 <= i && i < len(s), 0 <= k && k < len(s) && s[i] == gvOld(func() *Column { return s[k] }) && gvOld(func() int { return colPermInv(s, k) }) == i)
		}))
		gvEns("", gvAll(func(k int) bool {
			i := gvOld(func() int { return colPermInv(s, k) })
			return gvImp(0 <= k && k < len(s), 0 <= i && i < len(s) && s[i] == gvOld(func() *Column { return s[k] }) && gvOld(func() int { return colPerm(s, i) }) == k)
		}))
	}
	if s, ok := x.(Tables); ok {
		gvMod(s)
		gvEns("", gvAll(func(i, j int) bool { return gvImp(0 <= i && i < j && j < len(s), !less(j, i)) }))
		gvEns("", gvAll(func(i int) bool {
			k := gvOld(func() int { return tabPerm(s, i) })
			return gvImp(0 <= i && i < len(s), 0 <= k && k < len(s) && s[i] == gvOld(func() *Table { return s[k] }) && gvOld(func() int { return tabPermInv(s, k) }) == i)
		}))
		gvEns("", gvAll(func(k int) bool {
			i := gvOld(func() int { return tabPermInv(s, k) })
			return gvImp(0 <= k && k < len(s), 0 <= i && i < len(s) && s[i] == gvOld(func() *Table { return s[k] }) && gvOld(func() int { return tabPerm(s, i) }) == k)
		}))
	}
}

// ---- indexes of one table ----

//govc:contract (*SQLServerProvider).readIndexesSchema
//govc:prop C20
func spReadIndexes(p *SQLServerProvider, ctx context.Context, schema, table string, cc Indexes, pk *Index, err error) {
	gvReq(ready(p))
	gvMod(p.indexes)
	gvModGhost("GVOpen", p.dialect)
	gvModGhost("GVIndexes", p.dialect)
	rs := GVIndexes(p.dialect)
	gvEns("every result is closed", GVOpen(p.dialect) == gvOld(func() int { return GVOpen(p.dialect) }))
	gvEns("success means everything was read", gvImp(err == nil, readAll(rs)))
	gvEns("no partial result", gvImp(err != nil, len(cc) == 0 && pk == nil))
	gvEns("one index per row, in order", gvImp(err == nil, len(cc) == GVLen(rs) && gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(cc), isIdx(cc[i], rs, i, schema+"."+table))
	})))
	gvEns("not shared with any column", gvImp(len(cc) > 0, gvAll(func(c *Column) bool { return gvBacking(c.Indexes) != gvBacking(cc) })))
	gvEns("the primary index is one of them", gvImp(pk != nil, pk.IsPrimary))
	gvEns("fresh", gvAll(func(i int) bool { return gvImp(0 <= i && i < len(cc), cc[i] != nil && gvFresh(cc[i])) }))
	gvEns("about the table asked for", gvImp(err == nil, tableOf(rs) == schema+"."+table))
}

func isIdx(c *Index, r *sql.Rows, i int, fqn string) bool {
	return c != nil && c.Name == cellS(r, i, 0) && c.IsPrimary == cellB(r, i, 1) && c.IsUnique == cellB(r, i, 2) && c.SchemaName == fqn+"."+c.Name
}

//govc:extern strings.Split
//govc:pure
func extSplit(s, sep string, r []string) { gvEns("", len(r) >= 1 && len(r) < 1<<31) }

//govc:loop (*SQLServerProvider).readIndexesSchema outer
func lpReadIndexes(r *SQLServerProvider, rows *sql.Rows, schema, table string, cc Indexes, pk *Index) bool {
	return rows != nil && !GVEnd(rows) && !GVClosed(rows) && !GVScanFailed(rows) && 0 <= GVPos(rows) && GVPos(rows) <= GVLen(rows) && r.indexes != nil &&
		len(cc) == GVPos(rows) && gvImp(pk != nil, gvAlloc(pk) && pk.IsPrimary) && gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(cc), gvAlloc(cc[i]) && gvFresh(cc[i]) && isIdx(cc[i], rows, i, schema+"."+table))
	})
}

// ---- tables ----

// how many of the first n rows are selected

func tabCount(r *sql.Rows, schemas, tables []string, n int) int { return 0 }

//govc:extern github.com/effective-security/xdb/schema.tabCount
//govc:pure
func extTabCount(r *sql.Rows, schemas, tables []string, n int, c int) {
	gvEns("", gvImp(n <= 0, c == 0))
	gvEns("", gvImp(n > 0, c == tabCount(r, schemas, tables, n-1)+gvIte(tabPicked(r, schemas, tables, n-1), 1, 0)))
	gvEns("", 0 <= c && c <= gvIte(n < 0, 0, n))
}

func tabPicked(r *sql.Rows, schemas, tables []string, i int) bool {
	return picked(schemas, cellS(r, i, 0)) && picked(tables, cellS(r, i, 1))
}

func isTable(t *Table, r *sql.Rows, i int) bool {
	return t != nil && t.Schema == cellS(r, i, 0) && t.Name == cellS(r, i, 1) && t.Type == cellS(r, i, 2) &&
		t.SchemaName == cellS(r, i, 0)+"."+cellS(r, i, 1)
}

func refsKept() bool {
	return gvAll(func(c *Column) bool { return gvImp(gvOld(func() bool { return c.Ref != nil }), c.Ref != nil) })
}

func dbMods(p *SQLServerProvider) {
	gvMod(p.columns)
	gvMod(p.indexes)
	gvMod(p.tables)
	gvMod(p.fkeys)
	c := &Column{}
	gvModAny(&c.Indexes)
	gvModAny(c.Indexes)
	gvModAny(&c.Ref)
	gvModGhost("GVOpen", p.dialect)
	gvModGhost("GVColumns", p.dialect)
	gvModGhost("GVIndexes", p.dialect)
	gvModGhost("GVFKs", p.dialect)
	gvEns("the provider's maps stay sound", cached(p))
	gvEns("a found reference is not dropped", refsKept())
}

func ready(p *SQLServerProvider) bool {
	return p != nil && p.dialect != nil && p.columns != nil && p.indexes != nil && p.tables != nil && p.fkeys != nil && cached(p)
}

// no empty entries in the provider's maps
func cached(p *SQLServerProvider) bool {
	return gvAll(func(k string) bool { c, ok := p.columns[k]; return gvImp(ok, c != nil) }) &&
		gvAll(func(k string) bool { t, ok := p.tables[k]; return gvImp(ok, t != nil) }) &&
		gvAll(func(c *Column) bool { return gvAlloc(c.Indexes) })
}

//govc:contract (*SQLServerProvider).ListTables
//govc:prop C20
func spListTables(p *SQLServerProvider, ctx context.Context, schemas []string, tables []string, withDependencies bool, tt Tables, err error) {
	gvReq(ready(p))
	dbMods(p)
	gvModGhost("GVTables", p.dialect)
	rs := GVTables(p.dialect)
	gvEns("every result is closed", GVOpen(p.dialect) == gvOld(func() int { return GVOpen(p.dialect) }))
	gvEns("success means everything was read", gvImp(err == nil, readAll(rs)))
	gvEns("no partial result", gvImp(err != nil, len(tt) == 0))
	gvEns("one table per selected row", gvImp(err == nil && !withDependencies, len(tt) == tabCount(rs, schemas, tables, GVLen(rs))))
	gvEns("every selected row's table is listed", gvImp(err == nil && !withDependencies, gvAll(func(i int) bool {
		return gvImp(0 <= i && i < GVLen(rs) && tabPicked(rs, schemas, tables, i), gvEx(func(j int) bool { return 0 <= j && j < len(tt) && isTable(tt[j], rs, i) }))
	})))
	gvEns("every listed table is a selected row's", gvImp(err == nil && !withDependencies, gvAll(func(j int) bool {
		return gvImp(0 <= j && j < len(tt), gvEx(func(i int) bool {
			return 0 <= i && i < GVLen(rs) && tabPicked(rs, schemas, tables, i) && isTable(tt[j], rs, i)
		}))
	})))
	gvEns("in the order of their names", gvAll(func(i, j int) bool {
		return gvImp(0 <= i && i < j && j < len(tt), tt[i].SchemaName <= tt[j].SchemaName)
	}))
}

func tabsUpTo(tt Tables, r *sql.Rows, schemas, tables []string, n int) bool {
	return len(tt) == tabCount(r, schemas, tables, n) && gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(tt), tt[i] != nil && gvAlloc(tt[i]) && gvFresh(tt[i]))
	}) && gvAll(func(i int) bool {
		c := tabCount(r, schemas, tables, i)
		return gvImp(0 <= i && i < n && tabPicked(r, schemas, tables, i), 0 <= c && c < len(tt) && isTable(tt[c], r, i))
	}) && gvAll(func(j int) bool {
		return gvImp(0 <= j && j < len(tt), gvEx(func(i int) bool {
			return 0 <= i && i < n && tabPicked(r, schemas, tables, i) && isTable(tt[j], r, i)
		}))
	})
}

//govc:loop (*SQLServerProvider).ListTables outer
func lpListTables(r *SQLServerProvider, rows *sql.Rows, schemas, tables []string, tt Tables) bool {
	return rows != nil && !GVEnd(rows) && !GVClosed(rows) && !GVScanFailed(rows) && 0 <= GVPos(rows) && GVPos(rows) <= GVLen(rows) && GVTables(r.dialect) == rows && cached(r) && refsKept() &&
		GVOpen(r.dialect) == gvOld(func() int { return GVOpen(r.dialect) })+1 &&
		tabsUpTo(tt, rows, schemas, tables, GVPos(rows))
}

//govc:loop (*SQLServerProvider).ListTables inner
func lpListTablesIn(r *SQLServerProvider, ii Indexes) bool {
	return gvAll(func(i int) bool { return gvImp(0 <= i && i < len(ii), ii[i] != nil) }) && gvAll(func(c *Column) bool {
		return gvAlloc(c.Indexes) && gvImp(len(ii) > 0, gvBacking(c.Indexes) != gvBacking(ii))
	})
}

// ---- dependencies ----

//govc:contract (*SQLServerProvider).discover
//govc:prop C20
func spDiscover(p *SQLServerProvider, ctx context.Context, tt Tables, err error) {
	gvReq(ready(p))
	dbMods(p)
	gvEns("every result is closed", GVOpen(p.dialect) == gvOld(func() int { return GVOpen(p.dialect) }))
	gvEns("no partial result", gvImp(err != nil, len(tt) == 0))
	gvEns("a fresh list", gvFresh(tt) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(tt), tt[i] != nil) }))
}

//govc:loop (*SQLServerProvider).discover
func lpDiscover(r *SQLServerProvider) bool {
	return cached(r) && refsKept() && GVOpen(r.dialect) == gvOld(func() int { return GVOpen(r.dialect) })
}

//govc:contract (*SQLServerProvider).discoverTable
//govc:prop C20
func spDiscoverTable(p *SQLServerProvider, ctx context.Context, schema, table string, err error) {
	gvReq(ready(p))
	dbMods(p)
	gvEns("every result is closed", GVOpen(p.dialect) == gvOld(func() int { return GVOpen(p.dialect) }))
}

//govc:loop (*SQLServerProvider).discover
func lpDiscoverRes(r *SQLServerProvider, res Tables) bool {
	return gvFresh(res) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(res), res[i] != nil) })
}

//govc:loop (*SQLServerProvider).discoverTable
func lpDiscoverTable(r *SQLServerProvider) bool {
	return cached(r) && refsKept() && GVOpen(r.dialect) == gvOld(func() int { return GVOpen(r.dialect) })
}

// ---- views ----

//govc:contract (*SQLServerProvider).ListViews
//govc:prop C20
func spListViews(p *SQLServerProvider, ctx context.Context, schemas []string, tables []string, tt Tables, err error) {
	gvReq(ready(p))
	gvMod(p.columns)
	gvModGhost("GVOpen", p.dialect)
	gvModGhost("GVViews", p.dialect)
	rs := GVViews(p.dialect)
	gvEns("every result is closed", GVOpen(p.dialect) == gvOld(func() int { return GVOpen(p.dialect) }))
	gvEns("success means everything was read", gvImp(err == nil, readAll(rs)))
	gvEns("no partial result", gvImp(err != nil, len(tt) == 0))
	gvEns("views only, with qualified names", gvAll(func(j int) bool {
		return gvImp(0 <= j && j < len(tt), tt[j] != nil && tt[j].IsView && tt[j].SchemaName == tt[j].Schema+"."+tt[j].Name && picked(schemas, tt[j].Schema) && picked(tables, tt[j].Name))
	}))
	gvEns("in the order of their names", gvAll(func(i, j int) bool {
		return gvImp(0 <= i && i < j && j < len(tt), tt[i].SchemaName <= tt[j].SchemaName)
	}))
}

func isView(t *Table, schemas, tables []string) bool {
	return t != nil && gvAlloc(t) && gvFresh(t) && t.IsView && t.SchemaName == t.Schema+"."+t.Name && picked(schemas, t.Schema) && picked(tables, t.Name)
}

//govc:loop (*SQLServerProvider).ListViews
func lpListViews(rows *sql.Rows, schemas, tables []string, tablesMap map[string]*Table) bool {
	return rows != nil && !GVClosed(rows) && !GVScanFailed(rows) && 0 <= GVPos(rows) && GVPos(rows) <= GVLen(rows) && tablesMap != nil &&
		gvAll(func(k string) bool { t, ok := tablesMap[k]; return gvImp(ok, isView(t, schemas, tables) && gvFresh(t.Columns)) })
}

//govc:loop (*SQLServerProvider).ListViews
func lpListViewsRead(rows *sql.Rows) bool { return !GVEnd(rows) }

//govc:loop (*SQLServerProvider).ListViews
func lpListViewsOut(schemas, tables []string, tt Tables) bool {
	return gvAll(func(j int) bool { return gvImp(0 <= j && j < len(tt), isView(tt[j], schemas, tables)) })
}
