package xdb

import (
	"context"
	"database/sql"
)

// ---- database/sql, as the library sees it ----
// A *sql.Rows hands out GVLen rows; GVPos is how many Next has handed out, GVEnd that Next has reported the end.

//govc:abstract
func GVLen(r *sql.Rows) int { return 0 }

//govc:abstract
func GVErr(r *sql.Rows) error { return nil }

//govc:abstract
func GVCloseErr(r *sql.Rows) error { return nil }

//govc:ghost
func GVPos(r *sql.Rows) int { return 0 }

//govc:ghost
func GVEnd(r *sql.Rows) bool { return false }

//govc:ghost
func GVClosed(r *sql.Rows) bool { return false }

// a scan of the current row has failed
//
//govc:ghost
func GVScanFailed(r *sql.Rows) bool { return false }

//govc:extern (*database/sql.Rows).Next
func extRowsNext(r *sql.Rows, ok bool) {
	gvModGhost("GVPos", r)
	gvModGhost("GVEnd", r)
	p := gvOld(func() int { return GVPos(r) })
	c := gvOld(func() bool { return GVClosed(r) || GVEnd(r) })
	gvEns("", ok == (p < GVLen(r) && !c))
	gvEns("", GVPos(r) == gvIte(ok, p+1, p))
	gvEns("", GVEnd(r) == !ok)
}

//govc:extern (*database/sql.Rows).Err
func extRowsErr(r *sql.Rows, err error) {
	gvEns("", gvImp(GVEnd(r), err == GVErr(r)))
	gvEns("", gvImp(!GVEnd(r), err == nil))
}

//govc:extern (*database/sql.Rows).Close
func extRowsClose(r *sql.Rows, err error) {
	gvModGhost("GVClosed", r)
	gvEns("", GVClosed(r) && err == GVCloseErr(r))
}

// what a database handle was last asked

//govc:ghost
func GVCalls(db DB) int { return 0 }

//govc:ghost
func GVText(db DB) string { return "" }

//govc:ghost
func GVArgs(db DB) []any { return nil }

//govc:ghost
func GVCtx(db DB) context.Context { return nil }

//govc:ghost
func GVRows(db DB) *sql.Rows { return nil }

//govc:ghost
func GVRow(db DB) *sql.Row { return nil }

//govc:iface (github.com/effective-security/xdb.DB).QueryContext
func ifQueryContext(db DB, ctx context.Context, query string, args []any, r *sql.Rows, err error) {
	gvModGhost("GVCalls", db)
	gvModGhost("GVText", db)
	gvModGhost("GVArgs", db)
	gvModGhost("GVCtx", db)
	gvModGhost("GVRows", db)
	gvEns("", GVCalls(db) == gvOld(func() int { return GVCalls(db) })+1)
	gvEns("", GVText(db) == query && gvSame(GVArgs(db), args) && GVCtx(db) == ctx && GVRows(db) == r)
	gvEns("", gvIff(err == nil, r != nil))
	gvEns("", gvImp(r != nil, gvFresh(r) && GVLen(r) >= 0 && GVPos(r) == 0 && !GVEnd(r) && !GVClosed(r) && !GVScanFailed(r)))
}

//govc:iface (github.com/effective-security/xdb.DB).QueryRowContext
func ifQueryRowContext(db DB, ctx context.Context, query string, args []any, r *sql.Row) {
	gvModGhost("GVCalls", db)
	gvModGhost("GVText", db)
	gvModGhost("GVArgs", db)
	gvModGhost("GVCtx", db)
	gvModGhost("GVRow", db)
	gvEns("", GVCalls(db) == gvOld(func() int { return GVCalls(db) })+1)
	gvEns("", GVText(db) == query && gvSame(GVArgs(db), args) && GVCtx(db) == ctx && GVRow(db) == r)
	gvEns("", r != nil && gvFresh(r))
}

func sameArgs(a, b []any) bool {
	return len(a) == len(b) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(a), a[i] == b[i]) })
}
