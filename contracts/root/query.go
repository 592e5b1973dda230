package xdb

import (
	"context"
	"database/sql"

	"github.com/cockroachdb/errors"
)

// ---- list and row queries (C12) and pagination (C13) ----
// The generic functions are verified at an opaque model type: all that is known of its ScanRow is the contract below.

type gvModel struct {
	rows *sql.Rows
	row  *sql.Row
	idx  int
}

func (m *gvModel) ScanRow(rows Row) error { return gvScan(m, rows) }

func gvScan(m *gvModel, rows Row) error { return errors.New("") }

//govc:abstract
func scanRowErr(r *sql.Row) error { return nil }

//govc:extern (*github.com/effective-security/xdb.gvModel).ScanRow
func extScanRow(m *gvModel, rows Row, err error) {
	gvMod(m)
	if rs, ok := rows.(*sql.Rows); ok {
		gvModGhost("GVScanFailed", rs)
		gvEns("", gvImp(err == nil, m.rows == rs && m.idx == GVPos(rs)))
		gvEns("", GVScanFailed(rs) == (err != nil || gvOld(func() bool { return GVScanFailed(rs) })))
	}
	if r, ok := rows.(*sql.Row); ok {
		gvEns("", gvIff(err == nil, scanRowErr(r) == nil))
		gvEns("", gvImp(err == nil, m.row == r))
	}
}

func gvList(ctx context.Context, sql DB, query string, args ...any) ([]*gvModel, error) {
	return ExecuteListQuery[gvModel](ctx, sql, query, args...)
}

//govc:contract gvList
//govc:prop C12
func spListQuery(ctx context.Context, db DB, query string, args []any, r []*gvModel, err error) {
	gvReq(db != nil)
	gvModGhost("GVCalls", db)
	gvModGhost("GVText", db)
	gvModGhost("GVArgs", db)
	gvModGhost("GVCtx", db)
	gvModGhost("GVRows", db)
	rs := GVRows(db)
	gvEns("queries once", GVCalls(db) == gvOld(func() int { return GVCalls(db) })+1)
	gvEns("the caller's text, arguments and context reach the database", GVText(db) == query && sameArgs(GVArgs(db), args) && GVCtx(db) == ctx)
	gvEns("the rows are closed", gvImp(rs != nil, GVClosed(rs)))
	gvEns("success means one model per row", gvImp(err == nil, rs != nil && len(r) == GVLen(rs)))
	gvEns("each model is scanned from its own row, in order", gvImp(err == nil, gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(r), r[i] != nil && r[i].rows == rs && r[i].idx == i+1)
	})))
	gvEns("a failed query, scan or iteration is an error", gvImp(rs == nil || GVErr(rs) != nil || GVScanFailed(rs), err != nil))
	gvEns("nothing else is an error", gvImp(rs != nil && GVErr(rs) == nil && !GVScanFailed(rs), err == nil))
	gvEns("no partial list", gvImp(err != nil, r == nil))
}

//govc:loop ExecuteListQuery
func lpListQuery(rows *sql.Rows, list []*gvModel) bool {
	return !GVClosed(rows) && !GVEnd(rows) && !GVScanFailed(rows) && len(list) == GVPos(rows) && GVPos(rows) <= GVLen(rows) &&
		gvAll(func(i int) bool {
			return gvImp(0 <= i && i < len(list), list[i] != nil && gvAlloc(list[i]) && list[i].rows == rows && list[i].idx == i+1)
		})
}

func gvOne(ctx context.Context, sql DB, query string, args ...any) (*gvModel, error) {
	return QueryRow[gvModel](ctx, sql, query, args...)
}

//govc:contract gvOne
//govc:prop C12
func spQueryRow(ctx context.Context, db DB, query string, args []any, r *gvModel, err error) {
	gvReq(db != nil)
	gvModGhost("GVCalls", db)
	gvModGhost("GVText", db)
	gvModGhost("GVArgs", db)
	gvModGhost("GVCtx", db)
	gvModGhost("GVRow", db)
	row := GVRow(db)
	gvEns("queries once", GVCalls(db) == gvOld(func() int { return GVCalls(db) })+1)
	gvEns("the caller's text, arguments and context reach the database", GVText(db) == query && sameArgs(GVArgs(db), args) && GVCtx(db) == ctx)
	gvEns("a failed scan is an error, and nothing else is", gvIff(err == nil, scanRowErr(row) == nil))
	gvEns("the model is scanned from the row", gvImp(err == nil, r != nil && r.row == row))
	gvEns("no model with an error", gvImp(err != nil, r == nil))
}

// ---- pagination (C13) ----

// a plain paging argument and its number

//govc:abstract
func paramOK(p any) bool { return false }

//govc:abstract
func paramNum(p any) uint32 { return 0 }

//govc:axiom
func axParam() bool {
	return gvAll(func(p any) bool {
		if i, ok := p.(int); ok {
			return paramOK(p) && paramNum(p) == uint32(i)
		}
		if u, ok := p.(uint32); ok {
			return paramOK(p) && paramNum(p) == u
		}
		if n, ok := p.(sql.NamedArg); ok {
			return gvIff(paramOK(p), paramOK(n.Value)) && paramNum(p) == paramNum(n.Value)
		}
		return !paramOK(p)
	})
}

//govc:contract PageParam
//govc:prop C13
func spPageParam(p any, r uint32) {
	gvPanics(!paramOK(p))
	gvEns("the number of the argument", r == paramNum(p))
}

//govc:abstract
func qpLimit(qp QueryParams) uint32 { return 0 }

//govc:abstract
func qpOffset(qp QueryParams) uint32 { return 0 }

//govc:abstract
func qpArgs(qp QueryParams) []any { return nil }

//govc:iface (github.com/effective-security/xdb.QueryParams).Page
func ifPage(qp QueryParams, limit uint32, offset uint32) {
	gvEns("", limit == qpLimit(qp) && offset == qpOffset(qp))
}

//govc:iface (github.com/effective-security/xdb.QueryParams).Cursor
func ifCursor(qp QueryParams, limit uint32, cursor any) { gvEns("", limit == qpLimit(qp)) }

//govc:iface (github.com/effective-security/xdb.QueryParams).Args
func ifArgs(qp QueryParams, r []any) { gvEns("", gvSame(r, qpArgs(qp))) }

//govc:ghost
func GVResCalls(res any) int { return 0 }

//govc:ghost
func GVResRows(res any) []*gvModel { return nil }

//govc:ghost
func GVResNext(res any) bool { return false }

//govc:ghost
func GVResOffset(res any) uint32 { return 0 }

//govc:iface (github.com/effective-security/xdb.Result).SetResult
func ifSetResult(res Result[gvModel, *gvModel], rows []*gvModel, next bool, offset uint32) {
	gvModGhost("GVResCalls", res)
	gvModGhost("GVResRows", res)
	gvModGhost("GVResNext", res)
	gvModGhost("GVResOffset", res)
	gvEns("", GVResCalls(res) == gvOld(func() int { return GVResCalls(res) })+1)
	gvEns("", gvSame(GVResRows(res), rows) && GVResNext(res) == next && GVResOffset(res) == offset)
}

//govc:iface (github.com/effective-security/xdb.ResultWithCursor).SetResultWithCursor
func ifSetResultWithCursor(res ResultWithCursor[gvModel, *gvModel], rows []*gvModel, next bool, cursor func(*gvModel) string) {
	gvModGhost("GVResCalls", res)
	gvModGhost("GVResRows", res)
	gvModGhost("GVResNext", res)
	gvModGhost("GVResCursor", res)
	gvEns("", GVResCalls(res) == gvOld(func() int { return GVResCalls(res) })+1)
	gvEns("", gvSame(GVResRows(res), rows) && GVResNext(res) == next)
	gvEns("", gvSame(GVResCursor(res), cursor))
}

//govc:ghost
func GVResCursor(res any) func(*gvModel) string { return nil }

func gvPage(ctx context.Context, db DB, res Result[gvModel, *gvModel], query string, args ...any) error {
	return ExecuteQueryWithPagination[gvModel](ctx, db, res, query, args...)
}

func pagedBy(args []any) (qp QueryParams) {
	if len(args) == 1 {
		if q, ok := args[0].(QueryParams); ok {
			return q
		}
	}
	return nil
}

func dbUntouched(db DB) bool { return GVCalls(db) == gvOld(func() int { return GVCalls(db) }) }

//govc:contract gvPage
//govc:prop C13
func spPage(ctx context.Context, db DB, res Result[gvModel, *gvModel], query string, args []any, err error) {
	gvReq(db != nil && res != nil)
	gvModGhost("GVCalls", db)
	gvModGhost("GVText", db)
	gvModGhost("GVArgs", db)
	gvModGhost("GVCtx", db)
	gvModGhost("GVRows", db)
	gvModGhost("GVResCalls", res)
	gvModGhost("GVResRows", res)
	gvModGhost("GVResNext", res)
	gvModGhost("GVResOffset", res)
	qp := pagedBy(args)
	n := len(args)
	gvPanics(n >= 2 && !(paramOK(args[n-2]) && paramOK(args[n-1])))
	limit, offset := uint32(0), uint32(0)
	want := args
	if qp != nil {
		limit, offset, want = qpLimit(qp), qpOffset(qp), qpArgs(qp)
	} else if n >= 2 {
		limit, offset = paramNum(args[n-2]), paramNum(args[n-1])
	}
	rs := GVRows(db)
	gvEns("queries once with the caller's text and the arguments", GVCalls(db) == gvOld(func() int { return GVCalls(db) })+1 && GVText(db) == query && sameArgs(GVArgs(db), want) && GVCtx(db) == ctx)
	gvEns("the rows are closed", gvImp(rs != nil, GVClosed(rs)))
	gvEns("an error leaves the result alone", gvImp(err != nil, GVResCalls(res) == gvOld(func() int { return GVResCalls(res) })))
	gvEns("a failed query, scan or iteration is an error", gvImp(rs == nil || GVErr(rs) != nil || GVScanFailed(rs), err != nil))
	gvEns("nothing else is an error", gvImp(rs != nil && GVErr(rs) == nil && !GVScanFailed(rs), err == nil))
	got := GVResRows(res)
	gvEns("success gives the result the fetched rows once", gvImp(err == nil, GVResCalls(res) == gvOld(func() int { return GVResCalls(res) })+1 && rs != nil && len(got) == GVLen(rs) && gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(got), got[i] != nil && got[i].rows == rs && got[i].idx == i+1)
	})))
	small := GVLen(rs) < 4294967296
	more := limit > 0 && GVLen(rs) >= int(limit)
	gvEns("a next page is reported exactly when the page is full", gvImp(err == nil && small, GVResNext(res) == more))
	gvEns("the next offset follows the fetched rows", gvImp(err == nil && small && more && gvInt(offset)+gvInt(GVLen(rs)) < 4294967296, gvInt(GVResOffset(res)) == gvInt(offset)+gvInt(GVLen(rs))))
	gvEns("no next offset without a next page", gvImp(err == nil && small && !more, GVResOffset(res) == 0))
}

func gvPageCursor(ctx context.Context, db DB, cursor SetCursor[gvModel, *gvModel], res ResultWithCursor[gvModel, *gvModel], query string, args ...any) error {
	return ExecuteQueryWithCursor[gvModel](ctx, db, cursor, res, query, args...)
}

//govc:contract gvPageCursor
//govc:prop C13
func spPageCursor(ctx context.Context, db DB, cursor SetCursor[gvModel, *gvModel], res ResultWithCursor[gvModel, *gvModel], query string, args []any, err error) {
	gvReq(db != nil && res != nil)
	gvModGhost("GVCalls", db)
	gvModGhost("GVText", db)
	gvModGhost("GVArgs", db)
	gvModGhost("GVCtx", db)
	gvModGhost("GVRows", db)
	gvModGhost("GVResCalls", res)
	gvModGhost("GVResRows", res)
	gvModGhost("GVResNext", res)
	gvModGhost("GVResCursor", res)
	qp := pagedBy(args)
	n := len(args)
	gvPanics(n >= 2 && !paramOK(args[n-1]))
	limit := uint32(0)
	want := args
	if qp != nil {
		limit, want = qpLimit(qp), qpArgs(qp)
	} else if n >= 2 {
		limit = paramNum(args[n-1])
	}
	rs := GVRows(db)
	gvEns("queries once with the caller's text and the arguments", GVCalls(db) == gvOld(func() int { return GVCalls(db) })+1 && GVText(db) == query && sameArgs(GVArgs(db), want) && GVCtx(db) == ctx)
	gvEns("an error leaves the result alone", gvImp(err != nil, GVResCalls(res) == gvOld(func() int { return GVResCalls(res) })))
	gvEns("a failed query, scan or iteration is an error", gvImp(rs == nil || GVErr(rs) != nil || GVScanFailed(rs), err != nil))
	gvEns("nothing else is an error", gvImp(rs != nil && GVErr(rs) == nil && !GVScanFailed(rs), err == nil))
	got := GVResRows(res)
	gvEns("success gives the result the fetched rows once", gvImp(err == nil, GVResCalls(res) == gvOld(func() int { return GVResCalls(res) })+1 && rs != nil && len(got) == GVLen(rs) && gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(got), got[i] != nil && got[i].rows == rs && got[i].idx == i+1)
	})))
	gvEns("a next page is reported exactly when the page is full", gvImp(err == nil && GVLen(rs) < 4294967296, GVResNext(res) == (limit > 0 && GVLen(rs) >= int(limit))))
	gvEns("the caller's cursor function is passed on", gvImp(err == nil, gvSame(GVResCursor(res), cursor)))
}

func gvQuery(ctx context.Context, db DB, res Result[gvModel, *gvModel], query string, args ...any) error {
	return ExecuteQuery[gvModel](ctx, db, res, query, args...)
}

//govc:contract gvQuery
//govc:prop C13
func spQuery(ctx context.Context, db DB, res Result[gvModel, *gvModel], query string, args []any, err error) {
	gvReq(db != nil && res != nil)
	gvModGhost("GVCalls", db)
	gvModGhost("GVText", db)
	gvModGhost("GVArgs", db)
	gvModGhost("GVCtx", db)
	gvModGhost("GVRows", db)
	gvModGhost("GVResCalls", res)
	gvModGhost("GVResRows", res)
	gvModGhost("GVResNext", res)
	gvModGhost("GVResOffset", res)
	want := args
	if qp := pagedBy(args); qp != nil {
		want = qpArgs(qp)
	}
	rs := GVRows(db)
	gvEns("queries once with the caller's text and the arguments", GVCalls(db) == gvOld(func() int { return GVCalls(db) })+1 && GVText(db) == query && sameArgs(GVArgs(db), want) && GVCtx(db) == ctx)
	gvEns("an error leaves the result alone", gvImp(err != nil, GVResCalls(res) == gvOld(func() int { return GVResCalls(res) })))
	gvEns("a failed query, scan or iteration is an error", gvImp(rs == nil || GVErr(rs) != nil || GVScanFailed(rs), err != nil))
	gvEns("nothing else is an error", gvImp(rs != nil && GVErr(rs) == nil && !GVScanFailed(rs), err == nil))
	got := GVResRows(res)
	gvEns("success gives the result the fetched rows once", gvImp(err == nil, GVResCalls(res) == gvOld(func() int { return GVResCalls(res) })+1 && rs != nil && len(got) == GVLen(rs) && gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(got), got[i] != nil && got[i].rows == rs && got[i].idx == i+1)
	})))
	gvEns("there is no next page", gvImp(err == nil, !GVResNext(res) && GVResOffset(res) == 0))
}
