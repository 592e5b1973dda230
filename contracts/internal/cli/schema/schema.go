package schema

import (
	"strings"

	"github.com/effective-security/x/values"
	"github.com/effective-security/xdb/schema"
)

var _ = strings.EqualFold
var _ = values.StringsCoalesce

// ---- excluded columns (C28) ----

// how many of the first n names are kept

func keptNames(columns []string, drop map[string]bool, n int) int { return 0 }

//govc:extern github.com/effective-security/xdb/internal/cli/schema.keptNames
//govc:pure
func extKeptNames(columns []string, drop map[string]bool, n int, c int) {
	gvEns("", gvImp(n <= 0, c == 0))
	gvEns("", gvImp(n > 0, c == keptNames(columns, drop, n-1)+gvIte(drop[columns[n-1]], 0, 1)))
	gvEns("", 0 <= c && c <= gvIte(n < 0, 0, n))
}

func namesUpTo(result, columns []string, drop map[string]bool, n int) bool {
	return len(result) == keptNames(columns, drop, n) && gvAll(func(i int) bool {
		c := keptNames(columns, drop, i)
		return gvImp(0 <= i && i < n && !drop[columns[i]], 0 <= c && c < len(result) && result[c] == columns[i])
	})
}

//govc:contract filterColumnNames
//govc:prop C28
func spFilterColumnNames(columns []string, drop map[string]bool, r []string) {
	gvEns("exactly the columns that are not excluded, in order", namesUpTo(r, columns, drop, len(columns)))
}

//govc:loop filterColumnNames
func lpFilterColumnNames(columns []string, dropColumnsMap map[string]bool, result []string, rangeidx int) bool {
	return namesUpTo(result, columns, dropColumnsMap, rangeidx)
}

func keptCols(columns schema.Columns, drop map[string]bool, n int) int { return 0 }

//govc:extern github.com/effective-security/xdb/internal/cli/schema.keptCols
//govc:pure
func extKeptCols(columns schema.Columns, drop map[string]bool, n int, c int) {
	gvEns("", gvImp(n <= 0, c == 0))
	gvEns("", gvImp(n > 0, c == keptCols(columns, drop, n-1)+gvIte(drop[columns[n-1].Name], 0, 1)))
	gvEns("", 0 <= c && c <= gvIte(n < 0, 0, n))
}

func colsUpTo(result, columns schema.Columns, drop map[string]bool, n int) bool {
	return len(result) == keptCols(columns, drop, n) && gvAll(func(i int) bool {
		c := keptCols(columns, drop, i)
		return gvImp(0 <= i && i < n && !drop[columns[i].Name], 0 <= c && c < len(result) && result[c] == columns[i])
	})
}

func noNil(columns schema.Columns) bool {
	return gvAll(func(i int) bool { return gvImp(0 <= i && i < len(columns), columns[i] != nil) })
}

//govc:contract filterColumns
//govc:prop C28
func spFilterColumns(columns schema.Columns, drop map[string]bool, r schema.Columns) {
	gvReq(noNil(columns))
	gvEns("exactly the columns that are not excluded, in order", colsUpTo(r, columns, drop, len(columns)))
}

//govc:loop filterColumns
func lpFilterColumns(columns schema.Columns, dropColumnsMap map[string]bool, result schema.Columns, rangeidx int) bool {
	return colsUpTo(result, columns, dropColumnsMap, rangeidx)
}

// ---- field types (C22) ----

//govc:extern strings.EqualFold
//govc:pure
func extEqualFold(a, b string, r bool) { gvEns("", gvImp(a == b, r)) }

//govc:extern github.com/effective-security/x/values.StringsCoalesce
//govc:pure
func extCoalesce(s []string, r string) {
	gvEns("", gvImp(len(s) == 2, r == gvIte(s[0] != "", s[0], s[1])))
}

func idName(n string) bool {
	return strings.EqualFold(n, "id") || strings.HasSuffix(n, "_id") || strings.HasSuffix(n, "Id") || strings.HasSuffix(n, "ID")
}

//govc:contract isID
//govc:prop C22
func spIsID(c *schema.Column, r bool) {
	gvReq(c != nil)
	gvEns("identifier columns are told by their name", r == idName(c.Name))
}

// acceptsNull tells the Go types that scan NULL
func acceptsNull(t string) bool {
	return t == "xdb.ID" || t == "xdb.ID32" || t == "xdb.Int64" || t == "xdb.Int32" || t == "xdb.Float" || t == "xdb.Bool" ||
		t == "xdb.Time" || t == "xdb.NULLString" || t == "xdb.UUID" || t == "[]byte" || t == "xdb.IDArray" || t == "pq.Int64Array" || t == "pq.StringArray"
}

func i64(t string) bool { return t == "int64" || t == "xdb.Int64" }
func i32(t string) bool { return t == "int32" || t == "xdb.Int32" || i64(t) }
func i16(t string) bool { return t == "int16" || i32(t) }
func f64(t string) bool { return t == "float64" || t == "xdb.Float" }
func f32(t string) bool { return t == "float32" || f64(t) }
func str(t string) bool { return t == "string" || t == "xdb.NULLString" }
func boo(t string) bool { return t == "bool" || t == "xdb.Bool" }

// holds tells that the Go type of a column has room for every value of it
func holds(typ, t string) bool {
	return gvImp(typ == "bigint" || typ == "int8", i64(t) || t == "xdb.ID") &&
		gvImp(typ == "int" || typ == "int4", i32(t) || t == "xdb.ID32" || t == "xdb.ID") &&
		gvImp(typ == "int2" || typ == "smallint", i16(t)) &&
		gvImp(typ == "tinyint", i16(t) || t == "uint8") &&
		gvImp(typ == "decimal" || typ == "numeric" || typ == "float8", f64(t)) &&
		gvImp(typ == "real" || typ == "float4", f32(t)) &&
		gvImp(typ == "bool" || typ == "boolean" || typ == "bit", boo(t)) &&
		gvImp(typ == "bytea", t == "[]byte") &&
		gvImp(typ == "jsonb", str(t)) &&
		gvImp(typ == "nchar" || typ == "nvarchar" || typ == "char" || typ == "varchar" || typ == "bpchar" || typ == "text" || typ == "cidr" || typ == "inet" || typ == "ltree", str(t)) &&
		gvImp(typ == "time" || typ == "date" || typ == "datetime" || typ == "datetime2" || typ == "timestamp" || typ == "timestamptz", t == "xdb.Time") &&
		gvImp(typ == "uuid" || typ == "uniqueidentifier", t == "xdb.UUID")
}

func has(k string) bool { return typeByColumnType[k] != "" }

// found is the entry of the table for a type: the nullable one first, when asked for
func found(typ string, null bool) string {
	return gvIte(null && has(typ+" NULL"), typeByColumnType[typ+" NULL"], typeByColumnType[typ])
}

// nullOK: an entry that serves a nullable column accepts NULL
func nullOK(typ string) bool {
	return gvImp(has(typ+" NULL"), acceptsNull(typeByColumnType[typ+" NULL"])) &&
		gvImp(has(typ) && !has(typ+" NULL"), acceptsNull(typeByColumnType[typ]))
}

func tableRoom(typ string) bool {
	return gvImp(has(typ), holds(typ, typeByColumnType[typ])) && gvImp(has(typ+" NULL"), holds(typ, typeByColumnType[typ+" NULL"])) &&
		gvImp(has("id "+typ), holds(typ, typeByColumnType["id "+typ])) && gvImp(has("id "+typ+" NULL"), holds(typ, typeByColumnType["id "+typ+" NULL"]))
}

//govc:lemma
//govc:useinit
//govc:prop C22
func lmTableNull() {
	gvEns("a nullable column gets a type that accepts NULL", gvAll(func(typ string) bool { return nullOK(typ) }))
}

//govc:lemma
//govc:useinit
//govc:prop C22
func lmTableRoom() {
	gvEns("the types have room for the values of the column", gvAll(func(typ string) bool { return tableRoom(typ) }))
}

// idOK: identifier columns of a bigint or int type have ID types
func idOK(typ string) bool {
	return gvImp(typ == "bigint" || typ == "int8", typeByColumnType["id "+typ] == "xdb.ID" && typeByColumnType["id "+typ+" NULL"] == "xdb.ID") &&
		gvImp(typ == "int" || typ == "int4", typeByColumnType["id "+typ] == "xdb.ID32" && typeByColumnType["id "+typ+" NULL"] == "xdb.ID32")
}

//govc:lemma
//govc:useinit
//govc:prop C22
func lmTableID() {
	gvEns("identifier columns of a bigint or int type have ID types", gvAll(func(typ string) bool { return idOK(typ) }))
}

func sqlType(c *schema.Column) string { return gvIte(c.UdtType != "", c.UdtType, c.Type) }

func overridden(c *schema.Column) bool {
	_, byName := typesMap[c.Name]
	_, byFull := typesMap[c.SchemaName]
	_, counts := typesMap["_count"]
	return byName || byFull || (counts && c.UdtType == "int4" && !c.Nullable && strings.HasSuffix(c.Name, "_count"))
}

func isArray(c *schema.Column) bool { return c.Type == "ARRAY" }

func supported(c *schema.Column) bool {
	t := sqlType(c)
	if isArray(c) {
		return c.UdtType == "_int8" || c.UdtType == "_text" || c.UdtType == "_varchar"
	}
	return has(t) || (c.Nullable && has(t+" NULL")) || (idName(c.Name) && (has("id "+t) || (c.Nullable && has("id "+t+" NULL"))))
}

//govc:contract toGoType
//govc:prop C22
func spToGoType(c *schema.Column, r string) {
	gvReq(c != nil)
	gvReq(nullOK(sqlType(c)) && nullOK("id "+sqlType(c)) && idOK(sqlType(c)) && tableRoom(sqlType(c)))
	gvPanics(!overridden(c) && !supported(c))
	t := sqlType(c)
	by, byName := typesMap[c.Name]
	full, byFull := typesMap[c.SchemaName]
	gvEns("an override by column name wins", gvImp(byName, r == by))
	gvEns("an override by full name wins", gvImp(!byName && byFull, r == full))
	o := overridden(c)
	gvEns("a nullable column gets a type that accepts NULL", gvImp(!o && c.Nullable, acceptsNull(r)))
	gvEns("the type has room for the values of the column", gvImp(!o && !isArray(c), holds(t, r)))
	gvEns("identifiers of a bigint type", gvImp(!o && !isArray(c) && idName(c.Name) && (t == "bigint" || t == "int8"), r == "xdb.ID"))
	gvEns("identifiers of an int type", gvImp(!o && !isArray(c) && idName(c.Name) && (t == "int" || t == "int4"), r == "xdb.ID32"))
	gvEns("arrays", gvImp(!o && isArray(c), gvImp(c.UdtType == "_int8", r == gvIte(strings.HasSuffix(c.Name, "_ids"), "xdb.IDArray", "pq.Int64Array")) &&
		gvImp(c.UdtType == "_text" || c.UdtType == "_varchar", r == "pq.StringArray")))
}

func serves(typ string, null bool) bool { return has(typ) || (null && has(typ+" NULL")) }

//govc:loop toGoType
func lpToGoType(c *schema.Column, ranged []string, rangeidx int) bool {
	return gvImp(rangeidx >= 1, !serves(ranged[0], c.Nullable)) && gvImp(rangeidx >= 2, !serves(ranged[1], c.Nullable))
}
