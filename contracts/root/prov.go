package xdb

import (
	"context"
	"database/sql"
	"time"

	"github.com/effective-security/xdb/pkg/flake"
	"github.com/effective-security/xlog"
)

// ---- transactions (C14) ----

//govc:iface (github.com/effective-security/xdb.DB).ExecContext
func ifExecContext(db DB, ctx context.Context, query string, args []any, r sql.Result, err error) {
	gvModGhost("GVCalls", db)
	gvModGhost("GVText", db)
	gvModGhost("GVArgs", db)
	gvModGhost("GVCtx", db)
	gvModGhost("GVResult", db)
	gvModGhost("GVExecErr", db)
	gvEns("", GVCalls(db) == gvOld(func() int { return GVCalls(db) })+1)
	gvEns("", GVText(db) == query && gvSame(GVArgs(db), args) && GVCtx(db) == ctx && GVResult(db) == r && GVExecErr(db) == err)
}

//govc:ghost
func GVResult(db DB) sql.Result { return nil }

//govc:ghost
func GVExecErr(db DB) error { return nil }

//govc:ghost
func GVQueryErr(db DB) error { return nil }

// how often a transaction was committed and rolled back, and what it answered

//govc:ghost
func GVCommits(tx Tx) int { return 0 }

//govc:ghost
func GVRollbacks(tx Tx) int { return 0 }

//govc:ghost
func GVCommitErr(tx Tx) error { return nil }

//govc:ghost
func GVRollbackErr(tx Tx) error { return nil }

//govc:iface (github.com/effective-security/xdb.Tx).Commit
func ifCommit(tx Tx, err error) {
	gvModGhost("GVCommits", tx)
	gvModGhost("GVCommitErr", tx)
	gvEns("", GVCommits(tx) == gvOld(func() int { return GVCommits(tx) })+1 && err == GVCommitErr(tx))
}

//govc:iface (github.com/effective-security/xdb.Tx).Rollback
func ifRollback(tx Tx, err error) {
	gvModGhost("GVRollbacks", tx)
	gvModGhost("GVRollbackErr", tx)
	gvEns("", GVRollbacks(tx) == gvOld(func() int { return GVRollbacks(tx) })+1 && err == GVRollbackErr(tx))
}

//govc:ghost
func GVBegins(d *sql.DB) int { return 0 }

//govc:ghost
func GVBeginCtx(d *sql.DB) context.Context { return nil }

//govc:ghost
func GVBeginOpts(d *sql.DB) *sql.TxOptions { return nil }

//govc:ghost
func GVBeginTx(d *sql.DB) *sql.Tx { return nil }

//govc:ghost
func GVConnCloses(d *sql.DB) int { return 0 }

//govc:ghost
func GVConnCloseErr(d *sql.DB) error { return nil }

//govc:extern (*database/sql.DB).BeginTx
func extBeginTx(d *sql.DB, ctx context.Context, opts *sql.TxOptions, r *sql.Tx, err error) {
	gvReq(d != nil)
	gvModGhost("GVBegins", d)
	gvModGhost("GVBeginCtx", d)
	gvModGhost("GVBeginOpts", d)
	gvModGhost("GVBeginTx", d)
	gvEns("", GVBegins(d) == gvOld(func() int { return GVBegins(d) })+1 && GVBeginCtx(d) == ctx && GVBeginOpts(d) == opts && GVBeginTx(d) == r)
	gvEns("", gvIff(err == nil, r != nil))
}

//govc:extern (*database/sql.DB).Close
func extDBClose(d *sql.DB, err error) {
	gvReq(d != nil)
	gvModGhost("GVConnCloses", d)
	gvModGhost("GVConnCloseErr", d)
	gvEns("", GVConnCloses(d) == gvOld(func() int { return GVConnCloses(d) })+1 && err == GVConnCloseErr(d))
}

//govc:extern (*time.Ticker).Stop
func extTickerStop(t *time.Ticker) {}

//govc:extern (*github.com/effective-security/xlog.PackageLogger).KV
func extKV(l *xlog.PackageLogger, level xlog.LogLevel, kv []any) {}

func sameConn(p *SQLProvider) bool {
	return p.conn == gvOld(func() *sql.DB { return p.conn }) && p.tx == gvOld(func() Tx { return p.tx }) && p.db == gvOld(func() DB { return p.db })
}

//govc:contract (*SQLProvider).BeginTx
//govc:prop C14
func spBeginTx(p *SQLProvider, ctx context.Context, opts *sql.TxOptions, r Provider, err error) {
	gvReq(p != nil && (p.tx != nil || p.conn != nil))
	gvModGhost("GVBegins", p.conn)
	gvModGhost("GVBeginCtx", p.conn)
	gvModGhost("GVBeginOpts", p.conn)
	gvModGhost("GVBeginTx", p.conn)
	began := GVBegins(p.conn) - gvOld(func() int { return GVBegins(p.conn) })
	tp, ok := r.(*SQLProvider)
	gvEns("nested begin is an error that touches nothing", gvImp(p.tx != nil, err != nil && began == 0))
	gvEns("begins one transaction with the caller's context and options", gvImp(p.tx == nil, began == 1 && GVBeginCtx(p.conn) == ctx && GVBeginOpts(p.conn) == opts))
	gvEns("a failed begin is an error, and nothing else is", gvImp(p.tx == nil, gvIff(err == nil, GVBeginTx(p.conn) != nil)))
	gvEns("no provider with an error", gvImp(err != nil, r == nil))
	gvEns("the new provider is bound to that transaction", gvImp(err == nil, ok && tp != nil && gvFresh(tp) && tp.db == DB(GVBeginTx(p.conn)) && tp.tx == Tx(GVBeginTx(p.conn)) && tp.conn == p.conn && tp.idGen == p.idGen && tp.name == p.name && tp.ticker == nil))
	gvEns("the root provider is unchanged", sameConn(p))
}

//govc:contract (*SQLProvider).QueryContext
//govc:prop C14
func spProvQuery(p *SQLProvider, ctx context.Context, query string, args []any, r *sql.Rows, err error) {
	gvReq(p != nil && p.db != nil)
	gvModGhost("GVCalls", p.db)
	gvModGhost("GVText", p.db)
	gvModGhost("GVArgs", p.db)
	gvModGhost("GVCtx", p.db)
	gvModGhost("GVRows", p.db)
	gvEns("runs once on the provider's handle with the caller's context, text and arguments", GVCalls(p.db) == gvOld(func() int { return GVCalls(p.db) })+1 && GVText(p.db) == query && sameArgs(GVArgs(p.db), args) && GVCtx(p.db) == ctx)
	gvEns("returns the handle's result", r == GVRows(p.db) && gvIff(err == nil, r != nil))
}

//govc:contract (*SQLProvider).QueryRowContext
//govc:prop C14
func spProvQueryRow(p *SQLProvider, ctx context.Context, query string, args []any, r *sql.Row) {
	gvReq(p != nil && p.db != nil)
	gvModGhost("GVCalls", p.db)
	gvModGhost("GVText", p.db)
	gvModGhost("GVArgs", p.db)
	gvModGhost("GVCtx", p.db)
	gvModGhost("GVRow", p.db)
	gvEns("runs once on the provider's handle with the caller's context, text and arguments", GVCalls(p.db) == gvOld(func() int { return GVCalls(p.db) })+1 && GVText(p.db) == query && sameArgs(GVArgs(p.db), args) && GVCtx(p.db) == ctx)
	gvEns("returns the handle's result", r == GVRow(p.db))
}

//govc:contract (*SQLProvider).ExecContext
//govc:prop C14
func spProvExec(p *SQLProvider, ctx context.Context, query string, args []any, r sql.Result, err error) {
	gvReq(p != nil && p.db != nil)
	gvModGhost("GVCalls", p.db)
	gvModGhost("GVText", p.db)
	gvModGhost("GVArgs", p.db)
	gvModGhost("GVCtx", p.db)
	gvModGhost("GVResult", p.db)
	gvModGhost("GVExecErr", p.db)
	gvEns("runs once on the provider's handle with the caller's context, text and arguments", GVCalls(p.db) == gvOld(func() int { return GVCalls(p.db) })+1 && GVText(p.db) == query && sameArgs(GVArgs(p.db), args) && GVCtx(p.db) == ctx)
	gvEns("returns the handle's result", r == GVResult(p.db) && err == GVExecErr(p.db))
}

//govc:contract (*SQLProvider).Commit
//govc:prop C14
func spProvCommit(p *SQLProvider, err error) {
	gvReq(p != nil)
	gvModGhost("GVCommits", p.tx)
	gvModGhost("GVCommitErr", p.tx)
	gvEns("without a transaction it is an error that touches nothing", gvImp(p.tx == nil, err != nil && GVCommits(p.tx) == gvOld(func() int { return GVCommits(p.tx) })))
	gvEns("commits once and reports the transaction's own result", gvImp(p.tx != nil, GVCommits(p.tx) == gvOld(func() int { return GVCommits(p.tx) })+1 && err == GVCommitErr(p.tx)))
}

//govc:contract (*SQLProvider).Rollback
//govc:prop C14
func spProvRollback(p *SQLProvider, err error) {
	gvReq(p != nil)
	gvModGhost("GVRollbacks", p.tx)
	gvModGhost("GVRollbackErr", p.tx)
	e := GVRollbackErr(p.tx)
	gvEns("without a transaction it is an error that touches nothing", gvImp(p.tx == nil, err != nil && GVRollbacks(p.tx) == gvOld(func() int { return GVRollbacks(p.tx) })))
	gvEns("rolls back once", gvImp(p.tx != nil, GVRollbacks(p.tx) == gvOld(func() int { return GVRollbacks(p.tx) })+1))
	gvEns("ignores only the already-finished error", gvImp(p.tx != nil, gvIff(err == nil, e == nil || e == sql.ErrTxDone)))
}

//govc:contract (*SQLProvider).Close
//govc:prop C14
func spProvClose(p *SQLProvider, err error) {
	gvReq(p != nil)
	gvMod(p)
	gvModGhost("GVRollbacks", p.tx)
	gvModGhost("GVRollbackErr", p.tx)
	gvModGhost("GVConnCloses", p.conn)
	gvModGhost("GVConnCloseErr", p.conn)
	conn := gvOld(func() *sql.DB { return p.conn })
	tx := gvOld(func() Tx { return p.tx })
	e := GVRollbackErr(tx)
	closes := GVConnCloses(conn) - gvOld(func() int { return GVConnCloses(conn) })
	rolls := GVRollbacks(tx) - gvOld(func() int { return GVRollbacks(tx) })
	gvEns("a transactional provider rolls back", gvImp(conn != nil && tx != nil, rolls == 1 && gvIff(err == nil, e == nil || e == sql.ErrTxDone)))
	gvEns("a transactional provider never closes the shared connection", gvImp(tx != nil, closes == 0))
	gvEns("a root provider closes the connection and reports its error", gvImp(conn != nil && tx == nil, closes == 1 && rolls == 0 && err == GVConnCloseErr(conn)))
	gvEns("a closed provider can be closed again", gvImp(conn == nil, err == nil && closes == 0))
	gvEns("the handles stay what they were", p.tx == tx && p.db == gvOld(func() DB { return p.db }) && (p.conn == conn || p.conn == nil && tx == nil))
}

//govc:extern (*github.com/effective-security/xdb.SQLProvider).keepAlive
func extKeepAlive(p *SQLProvider, period time.Duration) { gvMod(&p.ticker) }

//govc:contract New
//govc:prop C14
func spNew(name string, db *sql.DB, idGen flake.IDGenerator, r *SQLProvider, err error) {
	gvReq(db != nil)
	gvEns("never fails", err == nil && r != nil && gvFresh(r))
	gvEns("the root provider runs on the connection, without a transaction", r.conn == db && r.db == DB(db) && r.tx == nil && r.name == name)
	gvEns("uses the given generator", gvImp(idGen != nil, r.idGen == idGen))
}

//govc:contract (*SQLProvider).DB
//govc:prop C14
func spProvDB(p *SQLProvider, r DB) {
	gvReq(p != nil)
	gvEns("the provider's handle", r == p.db)
}

//govc:contract (*SQLProvider).Tx
//govc:prop C14
func spProvTx(p *SQLProvider, r Tx) {
	gvReq(p != nil)
	gvEns("the provider's transaction", r == p.tx)
}
