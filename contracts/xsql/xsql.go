package xsql

import (
	"context"
	"database/sql"
	"strconv"
	"strings"
	"sync"

	"github.com/valyala/bytebufferpool"
)

// ---- text of byte slices and string builders ----

// the bytes of b as text; depends only on the content
//
//govc:abstract
//govc:text
func txt(b []byte) string { return "" }

//govc:ghost
func GVBuilt(b *strings.Builder) string { return "" }

//govc:extern (*strings.Builder).WriteString
func extBWriteString(b *strings.Builder, s string, n int, err error) {
	gvModGhost("GVBuilt", b)
	gvEns("", GVBuilt(b) == gvOld(func() string { return GVBuilt(b) })+s && err == nil)
}

//govc:extern (*strings.Builder).WriteByte
func extBWriteByte(b *strings.Builder, c byte, err error) {
	gvModGhost("GVBuilt", b)
	gvEns("", GVBuilt(b) == gvOld(func() string { return GVBuilt(b) })+string(rune(c)) && err == nil)
}

//govc:extern (*strings.Builder).Write
func extBWrite(b *strings.Builder, p []byte, n int, err error) {
	gvModGhost("GVBuilt", b)
	gvEns("", GVBuilt(b) == gvOld(func() string { return GVBuilt(b) })+txt(p) && err == nil)
}

//govc:extern (*strings.Builder).String
func extBString(b *strings.Builder, r string) { gvEns("", r == GVBuilt(b)) }

// text of a slice is the text of its parts
func parts(b []byte, lo, mid, hi int) bool { return true }

//govc:extern github.com/effective-security/xdb/xsql.parts
//govc:pure
func extParts(b []byte, lo, mid, hi int, r bool) {
	gvEns("", r && gvImp(0 <= lo && lo <= mid && mid <= hi && hi <= len(b), txt(b[lo:hi]) == txt(b[lo:mid])+txt(b[mid:hi])))
	gvEns("", gvImp(0 <= lo && lo == mid && mid <= len(b), txt(b[lo:mid]) == ""))
	gvEns("", gvImp(0 <= lo && lo <= mid && mid == hi && hi <= len(b), txt(b[mid:hi]) == ""))
}

// the text of one space
func oneSpace(b []byte) bool { return true }

//govc:extern github.com/effective-security/xdb/xsql.oneSpace
//govc:pure
func extOneSpace(b []byte, r bool) {
	gvEns("", r && gvImp(len(b) == 1 && b[0] == ' ', txt(b) == " "))
}

// the separator between clauses; no function writes it (lmSpace: it starts like this)
func spaced() bool { return len(space) == 1 && space[0] == ' ' && oneSpace(space) }

//govc:lemma
//govc:useinit
//govc:prop C16 C17 C18 C19
func lmSpace() { gvEns("clauses are separated by one space", spaced()) }

// ---- argument insertion (C16) ----

//govc:contract insertAt
//govc:prop C16 C18
func spInsertAt(dest, src []any, index int, r []any) {
	gvReq(0 <= index && index <= len(dest))
	gvReq(len(src) == 0 || gvBacking(src) != gvBacking(dest))
	gvMod(dest)
	n := len(src)
	old := gvOld(func() int { return len(dest) })
	gvEns("grows by the inserted values", len(r) == old+n)
	gvEns("the values before stay", gvAll(func(i int) bool {
		return gvImp(0 <= i && i < index, r[i] == gvOld(func() any { return dest[i] }))
	}))
	gvEns("the new values are in place, in order", gvAll(func(i int) bool {
		return gvImp(0 <= i && i < n, r[index+i] == src[i])
	}))
	gvEns("the values behind move back", gvAll(func(i int) bool {
		return gvImp(index <= i && i < old, r[i+n] == gvOld(func() any { return dest[i] }))
	}))
	gvEns("in the old list's array or a new one", gvImp(n > 0, gvFresh(r) || gvBacking(r) == gvBacking(dest)) && gvImp(n == 0, gvSame(r, dest)))
}

// ---- Postgres placeholders (C17) ----

// how many placeholders the first n bytes hold

func pgCount(s []byte, n int) int { return 0 }

//govc:extern github.com/effective-security/xdb/xsql.pgCount
//govc:pure
func extPgCount(s []byte, n int, r int) {
	gvEns("", gvImp(n <= 0, r == 0))
	gvEns("", gvImp(0 < n && n <= len(s), r == pgCount(s, n-1)+gvIte(s[n-1] == '?' && !escaped(s, n-1), 1, 0)))
}

// byte i is a question mark behind a backslash
func escaped(s []byte, i int) bool { return i > 0 && s[i-1] == '\\' && s[i] == '?' }

// the Postgres text of the first n bytes when the next placeholder is number no

func pgText(s []byte, n int, no int) string { return "" }

//govc:extern github.com/effective-security/xdb/xsql.pgText
//govc:pure
func extPgText(s []byte, n int, no int, r string) {
	gvEns("", gvImp(n <= 0, r == ""))
	gvEns("", gvImp(0 < n && n <= len(s), r == pgText(s, n-1, no)+pgByte(s, n-1, no)))
}

func pgByte(s []byte, i int, no int) string {
	if escaped(s, i) {
		return "?"
	}
	if s[i] == '?' {
		return "$" + strconv.Itoa(no+pgCount(s, i))
	}
	if s[i] == '\\' && i+1 < len(s) && s[i+1] == '?' {
		return ""
	}
	return txt(s[i : i+1])
}

//govc:contract writePg
//govc:prop C17
func spWritePg(argNo int, s []byte, buf *strings.Builder, next int, err error) {
	gvReq(buf != nil && argNo >= 0 && argNo < 1<<40 && len(s) < 1<<40)
	gvModGhost("GVBuilt", buf)
	gvEns("no error", err == nil)
	gvEns("every unescaped question mark is numbered, everything else copied", GVBuilt(buf) == gvOld(func() string { return GVBuilt(buf) })+pgText(s, len(s), argNo))
	gvEns("the next number follows the placeholders", next == argNo+pgCount(s, len(s)))
}

//govc:loop writePg
func lpWritePg(in_argNo int, argNo int, s []byte, buf *strings.Builder, start int, err error, rangeidx int) bool {
	return err == nil && rangeidx <= len(s) && 0 <= start && start <= rangeidx+1 && start <= len(s) && argNo == in_argNo+pgCount(s, rangeidx) && pgCount(s, rangeidx) >= 0 && pgCount(s, rangeidx) <= rangeidx &&
		gvIff(start == rangeidx+1, rangeidx < len(s) && escaped(s, rangeidx)) &&
		GVBuilt(buf) == gvOld(func() string { return GVBuilt(buf) })+pgText(s, start, in_argNo) &&
		gvImp(start <= rangeidx, pgText(s, rangeidx, in_argNo) == pgText(s, start, in_argNo)+txt(s[start:rangeidx])) &&
		gvImp(start <= rangeidx, parts(s, start, rangeidx, rangeidx)) && gvImp(start <= rangeidx && rangeidx < len(s), parts(s, start, rangeidx, rangeidx+1))
}

// ---- execution (C19) ----

//govc:abstract
func GVLen(r *sql.Rows) int { return 0 }

//govc:abstract
func GVErr(r *sql.Rows) error { return nil }

//govc:abstract
func GVCloseErr(r *sql.Rows) error { return nil }

//govc:ghost
func GVPos(r *sql.Rows) int { return 0 }

//govc:ghost
func GVEnd(r *sql.Rows) bool { return false }

//govc:ghost
func GVClosed(r *sql.Rows) bool { return false }

// the number of the row that was scanned last, and whether a scan has failed
//
//govc:ghost
func GVScanned(r *sql.Rows) int { return 0 }

//govc:ghost
func GVScanErr(r *sql.Rows) error { return nil }

//govc:ghost
func GVScanDest(r *sql.Rows) []any { return nil }

//govc:ghost
func GVHandled(r *sql.Rows) int { return 0 }

//govc:extern (*database/sql.Rows).Next
func extRowsNext(r *sql.Rows, ok bool) {
	gvModGhost("GVPos", r)
	gvModGhost("GVEnd", r)
	p := gvOld(func() int { return GVPos(r) })
	c := gvOld(func() bool { return GVClosed(r) || GVEnd(r) })
	gvEns("", ok == (p < GVLen(r) && !c))
	gvEns("", GVPos(r) == gvIte(ok, p+1, p))
	gvEns("", GVEnd(r) == !ok)
}

//govc:extern (*database/sql.Rows).Err
func extRowsErr(r *sql.Rows, err error) {
	gvEns("", gvImp(GVEnd(r), err == GVErr(r)))
	gvEns("", gvImp(!GVEnd(r), err == nil))
}

//govc:extern (*database/sql.Rows).Close
func extRowsClose(r *sql.Rows, err error) {
	gvModGhost("GVClosed", r)
	gvEns("", GVClosed(r) && gvImp(!gvOld(func() bool { return GVClosed(r) }), err == GVCloseErr(r)))
}

// a current row is scanned once, into the statement's targets
//
//govc:extern (*database/sql.Rows).Scan
func extRowsScan(r *sql.Rows, dest []any, err error) {
	gvReq(!GVClosed(r) && !GVEnd(r) && GVPos(r) == GVScanned(r)+1)
	gvModGhost("GVScanned", r)
	gvModGhost("GVScanErr", r)
	gvModGhost("GVScanDest", r)
	gvEns("", GVScanned(r) == GVPos(r) && GVScanErr(r) == err && gvSame(GVScanDest(r), dest))
}

// what an executor was last asked

//govc:ghost
func GVCalls(db Executor) int { return 0 }

//govc:ghost
func GVText(db Executor) string { return "" }

//govc:ghost
func GVArgs(db Executor) []any { return nil }

//govc:ghost
func GVCtx(db Executor) context.Context { return nil }

//govc:ghost
func GVKind(db Executor) int { return 0 }

//govc:ghost
func GVRows(db Executor) *sql.Rows { return nil }

//govc:ghost
func GVRow(db Executor) *sql.Row { return nil }

//govc:ghost
func GVRes(db Executor) sql.Result { return nil }

//govc:ghost
func GVResErr(db Executor) error { return nil }

//govc:ghost
func GVRowErr(r *sql.Row) error { return nil }

//govc:ghost
func GVRowDest(r *sql.Row) []any { return nil }

//govc:ghost
func GVRowScans(r *sql.Row) int { return 0 }

func asked(db Executor, ctx context.Context, query string, args []any, kind int) bool {
	return GVCalls(db) == gvOld(func() int { return GVCalls(db) })+1 && GVText(db) == query && gvSame(GVArgs(db), args) && GVCtx(db) == ctx && GVKind(db) == kind
}

func askMods(db Executor) {
	gvModGhost("GVCalls", db)
	gvModGhost("GVText", db)
	gvModGhost("GVArgs", db)
	gvModGhost("GVCtx", db)
	gvModGhost("GVKind", db)
	gvModGhost("GVRows", db)
	gvModGhost("GVRow", db)
	gvModGhost("GVRes", db)
	gvModGhost("GVResErr", db)
}

//govc:iface (github.com/effective-security/xdb/xsql.Executor).QueryContext
func ifQueryContext(db Executor, ctx context.Context, query string, args []any, r *sql.Rows, err error) {
	askMods(db)
	gvEns("", asked(db, ctx, query, args, 1) && GVRows(db) == r && GVResErr(db) == err)
	gvEns("", gvIff(err == nil, r != nil))
	gvEns("", gvImp(r != nil, gvFresh(r) && GVLen(r) >= 0 && GVPos(r) == 0 && GVScanned(r) == 0 && GVHandled(r) == 0 && GVScanErr(r) == nil && !GVEnd(r) && !GVClosed(r)))
}

//govc:iface (github.com/effective-security/xdb/xsql.Executor).QueryRowContext
func ifQueryRowContext(db Executor, ctx context.Context, query string, args []any, r *sql.Row) {
	askMods(db)
	gvEns("", asked(db, ctx, query, args, 2) && GVRow(db) == r)
	gvEns("", r != nil && gvFresh(r) && GVRowScans(r) == 0)
}

//govc:iface (github.com/effective-security/xdb/xsql.Executor).ExecContext
func ifExecContext(db Executor, ctx context.Context, query string, args []any, r sql.Result, err error) {
	askMods(db)
	gvEns("", asked(db, ctx, query, args, 3) && GVRes(db) == r && GVResErr(db) == err)
}

//govc:extern (*database/sql.Row).Scan
func extRowScan(r *sql.Row, dest []any, err error) {
	gvModGhost("GVRowErr", r)
	gvModGhost("GVRowDest", r)
	gvModGhost("GVRowScans", r)
	gvEns("", GVRowErr(r) == err && gvSame(GVRowDest(r), dest) && GVRowScans(r) == gvOld(func() int { return GVRowScans(r) })+1)
}

// the callback runs once per row, in order, after the row was scanned
//
//govc:funcval param:(*github.com/effective-security/xdb/xsql.Stmt).Query.#3
func fvHandler(rows *sql.Rows) {
	gvReq(!GVClosed(rows) && !GVEnd(rows) && GVPos(rows) == GVHandled(rows)+1 && GVScanErr(rows) == nil)
	gvReq(GVScanned(rows) == GVPos(rows) || GVScanned(rows) == 0)
	gvModGhost("GVHandled", rows)
	gvMayPanic()
	gvEns("", GVHandled(rows) == gvOld(func() int { return GVHandled(rows) })+1)
}

func queryPost(q *Stmt, db Executor, ctx context.Context, handler func(rows *sql.Rows), text string, args, dest []any, err error) bool {
	r := GVRows(db)
	return asked(db, ctx, text, args, 1) && gvImp(GVResErr(db) != nil, err == GVResErr(db)) &&
		gvImp(r != nil, GVClosed(r)) &&
		gvImp(err == nil, r != nil && GVEnd(r) && GVPos(r) == GVLen(r) && GVErr(r) == nil && GVCloseErr(r) == nil && GVScanErr(r) == nil) &&
		gvImp(err == nil && handler != nil, GVHandled(r) == GVLen(r)) &&
		gvImp(err == nil && len(dest) > 0, GVScanned(r) == GVLen(r) && gvImp(GVLen(r) > 0, gvSame(GVScanDest(r), dest)))
}

//govc:contract (*Stmt).Query
//govc:prop C19
func spQuery(q *Stmt, ctx context.Context, db Executor, handler func(rows *sql.Rows), err error) {
	gvReq(q != nil && db != nil && stmtOK(q))
	gvMod(&q.sql)
	askMods(db)
	gvMayPanic()
	gvEns("asks the executor once, closes the rows, reports every failure", queryPost(q, db, ctx, handler, q.sql, q.args, q.dest, err))
	gvEns("the statement's own text", gvImp(q.name == "", q.sql == rendered(q)))
}

//govc:loop (*Stmt).Query
func lpQuery(q *Stmt, rows *sql.Rows, err error, handler func(rows *sql.Rows)) bool {
	return rows != nil && err == nil && !GVClosed(rows) && !GVEnd(rows) && GVScanErr(rows) == nil && 0 <= GVPos(rows) && GVPos(rows) <= GVLen(rows) &&
		gvImp(handler != nil, GVHandled(rows) == GVPos(rows)) &&
		gvImp(len(q.dest) > 0, GVScanned(rows) == GVPos(rows) && gvImp(GVPos(rows) > 0, gvSame(GVScanDest(rows), q.dest))) && gvImp(len(q.dest) == 0, GVScanned(rows) == 0)
}

//govc:contract (*Stmt).QueryRow
//govc:prop C19
func spQueryRow(q *Stmt, ctx context.Context, db Executor, err error) {
	gvReq(q != nil && db != nil && stmtOK(q))
	gvMod(&q.sql)
	askMods(db)
	gvEns("asks the executor once", asked(db, ctx, q.sql, q.args, 2))
	gvEns("scans the row into the targets and reports the outcome", GVRowScans(GVRow(db)) == 1 && gvSame(GVRowDest(GVRow(db)), q.dest) && err == GVRowErr(GVRow(db)))
	gvEns("the statement's own text", gvImp(q.name == "", q.sql == rendered(q)))
}

//govc:contract (*Stmt).Exec
//govc:prop C19
func spExec(q *Stmt, ctx context.Context, db Executor, r sql.Result, err error) {
	gvReq(q != nil && db != nil && stmtOK(q))
	gvMod(&q.sql)
	askMods(db)
	gvEns("asks the executor once", asked(db, ctx, q.sql, q.args, 3))
	gvEns("returns the executor's result", r == GVRes(db) && err == GVResErr(db))
	gvEns("the statement's own text", gvImp(q.name == "", q.sql == rendered(q)))
}

// ---- statements: representation ----

func validChunks(c stmtChunks, b []byte) bool {
	return gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(c), 0 <= c[i].bufLow && c[i].bufLow <= c[i].bufHigh && c[i].bufHigh <= len(b) && c[i].argLen >= 0)
	})
}

func sorted(c stmtChunks) bool {
	return gvAll(func(i, j int) bool { return gvImp(0 <= i && i < j && j < len(c), c[i].pos <= c[j].pos) })
}

// the number of arguments of some chunks

func argSum(c stmtChunks) int { return 0 }

//govc:extern github.com/effective-security/xdb/xsql.argSum
//govc:pure
func extArgSum(c stmtChunks, r int) {
	gvEns("", gvImp(len(c) == 0, r == 0))
	gvEns("", gvImp(len(c) > 0, r == c[0].argLen+argSum(c[1:])))
}

func ownBuf(q *Stmt) bool { return q.buf != nil && q.chunks != nil && cap(q.chunks) > 0 && len(q.chunks) < 1<<40 && len(q.buf.B) < 1<<40 }

func stmtOK(q *Stmt) bool {
	return spaced() && q.dialect != nil && ownBuf(q) && validChunks(q.chunks, q.buf.B) && sorted(q.chunks) && argSum(q.chunks) == len(q.args) && textOK(q)
}

// a remembered text is the text of the current fragments
func textOK(q *Stmt) bool { return q.name != "" || q.sql == "" || q.sql == rendered(q) }

// ---- the text of a statement (C16, C17, C18) ----

//govc:abstract
func provider(d SQLDialect) string { return "" }

func numberedBy(d SQLDialect) bool { return provider(d) == "postgres" }

//govc:iface (github.com/effective-security/xdb/xsql.SQLDialect).Provider
func ifProvider(d SQLDialect, r string) { gvEns("", r == provider(d)) }

// the number of the next placeholder behind the first n chunks

func noTo(c stmtChunks, b []byte, n int) int { return 0 }

//govc:extern github.com/effective-security/xdb/xsql.noTo
//govc:pure
func extNoTo(c stmtChunks, b []byte, n int, r int) {
	gvEns("", gvImp(n <= 0, r == 1))
	gvEns("", gvImp(0 < n && n <= len(c), r == noTo(c, b, n-1)+chunkNos(c, b, n-1)))
	gvEns("", r >= 1 && r < 1<<40)
}

// the text of the first n chunks

func textTo(c stmtChunks, b []byte, pg bool, n int) string { return "" }

//govc:extern github.com/effective-security/xdb/xsql.textTo
//govc:pure
func extTextTo(c stmtChunks, b []byte, pg bool, n int, r string) {
	gvEns("", gvImp(n <= 0, r == ""))
	gvEns("", gvImp(0 < n && n <= len(c), r == textTo(c, b, pg, n-1)+gvIte(n > 1 && c[n-1].pos > c[n-2].pos, " ", "")+chunkText(c, b, pg, n-1)))
}

// the text of chunk i, and how many placeholders it takes; opened by openChunk

//govc:abstract
func chunkText(c stmtChunks, b []byte, pg bool, i int) string { return "" }

//govc:abstract
func chunkNos(c stmtChunks, b []byte, i int) int { return 0 }

func openChunk(c stmtChunks, b []byte, pg bool, i int) bool { return true }

//govc:extern github.com/effective-security/xdb/xsql.openChunk
//govc:pure
func extOpenChunk(c stmtChunks, b []byte, pg bool, i int, r bool) {
	gvEns("", r && gvImp(0 <= i && i < len(c), chunkIs(c[i], b, pg, chunkText(c, b, pg, i), chunkNos(c, b, i), noTo(c, b, i))))
}

func chunkIs(k stmtChunk, b []byte, pg bool, text string, nos, no int) bool {
	s := b[k.bufLow:k.bufHigh]
	if k.argLen > 0 {
		return nos == pgCount(s, len(s)) && text == gvIte(pg, pgText(s, len(s), no), txt(s))
	}
	return nos == 0 && text == txt(s)
}

func rendered(q *Stmt) string {
	return strings.Trim(textTo(q.chunks, q.buf.B, numberedBy(q.dialect), len(q.chunks)), "\n\r\t ")
}

// ---- the cache ----

// what a dialect's cache holds under a key that is no caller-chosen name

//govc:abstract
func keyed(d SQLDialect, key string) string { return "" }

//govc:abstract
func chosen(key string) bool { return false }

//govc:iface (github.com/effective-security/xdb/xsql.SQLDialect).GetCachedQuery
func ifGetCached(d SQLDialect, name string, r string, ok bool) {
	gvEns("", gvImp(ok && !chosen(name), r == keyed(d, name)))
}

//govc:iface (github.com/effective-security/xdb/xsql.SQLDialect).PutCachedQuery
func ifPutCached(d SQLDialect, name string, text string) {
	gvReq(chosen(name) || text == keyed(d, name))
}

// the layout of the first n chunks as text

func layoutTo(c stmtChunks, n int) string { return "" }

//govc:extern github.com/effective-security/xdb/xsql.layoutTo
//govc:pure
func extLayoutTo(c stmtChunks, n int, r string) {
	gvEns("", gvImp(n <= 0, r == ""))
	gvEns("", gvImp(0 < n && n <= len(c), r == layoutTo(c, n-1)+strconv.FormatInt(int64(c[n-1].pos), 10)+":"+strconv.FormatInt(int64(c[n-1].bufLow), 10)+":"+
		strconv.FormatInt(int64(c[n-1].bufHigh), 10)+":"+strconv.FormatInt(int64(c[n-1].argLen), 10)+";"))
}

func layout(q *Stmt) string { return layoutTo(q.chunks, len(q.chunks)) + "\x00" + txt(q.buf.B) }

// the layout text can be read back in one way only (decimal numbers end at their separators, no separator is a
// digit, the first NUL ends the chunks), so it determines the text of a statement; a name never looks like one
func keyDetermines(q *Stmt) bool { return true }

//govc:extern github.com/effective-security/xdb/xsql.keyDetermines
//govc:pure
func extKeyDetermines(q *Stmt, r bool) {
	gvEns("", r && keyed(q.dialect, layout(q)) == rendered(q) && !chosen(layout(q)) && layout(q) != "" && gvImp(q.name != "", chosen(q.name)))
}

//govc:contract (*Stmt).layoutKey
//govc:prop C16 C17 C18 C19
func spLayoutKey(q *Stmt, r string) {
	gvReq(q != nil && q.buf != nil)
	gvEns("every chunk and the whole text buffer", r == layout(q))
}

//govc:loop (*Stmt).layoutKey
func lpLayoutKey(q *Stmt, key []byte, rangeidx int) bool { return txt(key) == layoutTo(q.chunks, rangeidx) && gvBacking(key) != gvBacking(q.buf.B) }

//govc:contract (*Stmt).String
//govc:prop C16 C17 C18 C19
func spString(q *Stmt, r string) {
	gvReq(q != nil && stmtOK(q) && keyDetermines(q))
	gvMod(&q.sql)
	gvEns("the text of the fragments, in order", gvImp(q.name == "", r == rendered(q)))
	gvEns("it is remembered", q.sql == r && stmtOK(q))
	gvEns("a remembered text is given again", gvImp(gvOld(func() string { return q.sql }) != "", r == gvOld(func() string { return q.sql })))
}

//govc:loop github.com/effective-security/x/values.StringsCoalesce
func lpCoalesce(str []string, rangeidx int) bool {
	return gvAll(func(j int) bool { return gvImp(0 <= j && j < rangeidx && j < len(str), str[j] == "") })
}

//govc:loop (*Stmt).String
func lpString(q *Stmt, buf *strings.Builder, pos chunkPos, argNo int, rangeidx int) bool {
	return rangeidx <= len(q.chunks) && GVBuilt(buf) == textTo(q.chunks, q.buf.B, numberedBy(q.dialect), rangeidx) && gvImp(rangeidx > 0, pos == q.chunks[rangeidx-1].pos) && gvImp(rangeidx == 0, pos == 0) &&
		gvImp(numberedBy(q.dialect), argNo == noTo(q.chunks, q.buf.B, rangeidx)) && openChunk(q.chunks, q.buf.B, numberedBy(q.dialect), rangeidx)
}

//govc:extern strconv.AppendInt
func extAppendInt(dst []byte, i int64, base int, r []byte) {
	gvMod(dst)
	gvReq(base == 10)
	gvEns("", txt(r) == gvOld(func() string { return txt(dst) })+strconv.FormatInt(i, 10))
	gvEns("", gvFresh(r) || gvBacking(r) == gvBacking(dst))
	gvEns("", len(r) > len(dst))
}

// ---- the pool (C18) ----

// an object that may wait in the pool: nothing of its last statement is left
func clean(q *Stmt) bool {
	return q.name == "" && q.sql == "" && q.buf == nil && len(q.chunks) == 0 && q.chunks != nil && cap(q.chunks) > 0 && len(q.args) == 0 && len(q.dest) == 0
}

// a statement that was just started
func blank(q *Stmt) bool {
	return q.name == "" && q.sql == "" && q.buf != nil && len(q.buf.B) == 0 && len(q.chunks) == 0 && q.chunks != nil && cap(q.chunks) > 0 && len(q.args) == 0 && len(q.dest) == 0
}

// what a pool hands out was put there clean, and has no other holder
//
//govc:extern (*sync.Pool).Get
func extPoolGet(p *sync.Pool, r any) {
	gvEns("", gvImp(p == &stmtPool, pooled(r)))
}

func pooled(r any) bool {
	q, ok := r.(*Stmt)
	return ok && q != nil && gvFresh(q) && clean(q) && gvFresh(q.chunks) && gvImp(q.args != nil, gvFresh(q.args)) && gvImp(q.dest != nil, gvFresh(q.dest)) && apart(q)
}

//govc:extern (*sync.Pool).Put
func extPoolPut(p *sync.Pool, x any) {
	gvReq(gvImp(p == &stmtPool, returnable(x)))
}

func returnable(x any) bool {
	q, ok := x.(*Stmt)
	return ok && q != nil && clean(q)
}

//govc:extern github.com/valyala/bytebufferpool.Get
func extBufGet(r *bytebufferpool.ByteBuffer) {
	gvEns("", r != nil && gvFresh(r) && len(r.B) == 0 && gvImp(r.B != nil, gvFresh(r.B)))
}

//govc:extern github.com/valyala/bytebufferpool.Put
func extBufPut(b *bytebufferpool.ByteBuffer) {
	gvReq(b != nil)
	gvMod(&b.B)
}

//govc:contract newStmt
//govc:prop C18
func spNewStmt(r any) { gvEns("a new object is clean", returnable(r)) }

//govc:contract (*Dialect).getStmt
//govc:prop C18
func spGetStmt(b *Dialect, r *Stmt) {
	gvReq(b != nil)
	gvEns("an empty statement of this dialect", r != nil && gvFresh(r) && blank(r) && gvSame(r.dialect, SQLDialect(b)) && r.useNewLines == b.useNewLines)
	gvEns("nobody else holds its parts", ownParts(r) && gvFresh(r.buf))
}

// arguments and scan targets are in different arrays
func apart(q *Stmt) bool { return q.args == nil || q.dest == nil || gvBacking(q.args) != gvBacking(q.dest) }

// the arrays of a statement are its own
func ownParts(q *Stmt) bool {
	return gvFresh(q.chunks) && gvImp(q.args != nil, gvFresh(q.args)) && gvImp(q.dest != nil, gvFresh(q.dest)) && apart(q) && gvImp(q.buf.B != nil, gvFresh(q.buf.B))
}

func sameValues(a, b []any) bool {
	return len(a) == len(b) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(a), a[i] == b[i]) })
}

func sameChunks(a, b stmtChunks) bool {
	return len(a) == len(b) && gvAll(func(i int) bool {
		return gvImp(0 <= i && i < len(a), a[i].pos == b[i].pos && a[i].bufLow == b[i].bufLow && a[i].bufHigh == b[i].bufHigh && a[i].argLen == b[i].argLen && a[i].hasExpr == b[i].hasExpr)
	})
}

func dialectOf(q *Stmt) bool {
	d, ok := q.dialect.(*Dialect)
	return ok && d != nil
}

func cloned(q *Stmt, r Builder) bool {
	c, ok := r.(*Stmt)
	return ok && c != nil && gvFresh(c) && gvFresh(c.buf) && ownParts(c) && gvSame(c.dialect, q.dialect) && c.sql == q.sql && c.pos == q.pos && c.useNewLines == q.useNewLines
}

func clonedParts(q *Stmt, r Builder) bool {
	c, ok := r.(*Stmt)
	return ok && sameChunks(c.chunks, q.chunks)
}

func clonedArgs(q *Stmt, r Builder) bool {
	c, ok := r.(*Stmt)
	return ok && sameValues(c.args, q.args)
}

func clonedDest(q *Stmt, r Builder) bool {
	c, ok := r.(*Stmt)
	return ok && sameValues(c.dest, q.dest)
}

func clonedText(q *Stmt, r Builder) bool {
	c, ok := r.(*Stmt)
	return ok && len(c.buf.B) == len(q.buf.B) && gvAll(func(i int) bool { return gvImp(0 <= i && i < len(q.buf.B), c.buf.B[i] == q.buf.B[i]) })
}

//govc:extern (*github.com/valyala/bytebufferpool.ByteBuffer).Write
func extBBWrite(b *bytebufferpool.ByteBuffer, p []byte, n int, err error) {
	gvMod(&b.B)
	gvMod(b.B)
	old := gvOld(func() int { return len(b.B) })
	gvEns("", len(b.B) == old+len(p) && (gvFresh(b.B) || gvBacking(b.B) == gvOld(func() any { return gvBacking(b.B) })))
	gvEns("", gvAll(func(i int) bool { return gvImp(0 <= i && i < old, b.B[i] == gvOld(func() byte { return b.B[i] })) }))
	gvEns("", gvAll(func(i int) bool { return gvImp(0 <= i && i < len(p), b.B[old+i] == p[i]) }))
}

//govc:contract (*Stmt).Clone
//govc:prop C18
func spClone(q *Stmt, r Builder) {
	gvReq(q != nil && ownBuf(q) && dialectOf(q) && gvAlloc(q.args) && gvAlloc(q.dest) && gvAlloc(q.chunks) && gvAlloc(q.buf.B))
	gvEns("a new statement, sharing nothing with the original, with its insertion point", cloned(q, r))
	gvEns("the same clauses", clonedParts(q, r))
	gvEns("the same arguments", clonedArgs(q, r))
	gvEns("the same scan targets", clonedDest(q, r))
	gvEns("the same text", clonedText(q, r))
}

func closeMods(q *Stmt) {
	gvMod(&q.chunks)
	gvMod(q.args)
	gvMod(&q.args)
	gvMod(q.dest)
	gvMod(&q.dest)
	gvMod(&q.buf.B)
	gvMod(&q.buf)
	gvMod(&q.sql)
	gvMod(&q.name)
}

func released(q *Stmt, args, dest []any) bool {
	return clean(q) && allNil(args) && allNil(dest)
}

//govc:contract reuseStmt
//govc:prop C18 C19
func spReuseStmt(q *Stmt) {
	gvReq(q != nil && q.buf != nil && q.chunks != nil && cap(q.chunks) > 0)
	closeMods(q)
	gvEns("goes back to the pool without arguments, targets, text or name", released(q, gvOld(func() []any { return q.args }), gvOld(func() []any { return q.dest })))
}

//govc:loop reuseStmt
func lpReuse(q *Stmt, rangeidx int, ranged []any) bool {
	return gvAll(func(i int) bool { return gvImp(0 <= i && i < rangeidx && i < len(ranged), ranged[i] == nil) }) && len(ranged) > 0 && gvImp(len(q.args) == 0, allNil(gvOld(func() []any { return q.args })))
}

func allNil(l []any) bool { return gvAll(func(i int) bool { return gvImp(0 <= i && i < len(l), l[i] == nil) }) }

//govc:contract (*Stmt).Close
//govc:prop C18 C19
func spClose(q *Stmt) {
	gvReq(q != nil && q.buf != nil && q.chunks != nil && cap(q.chunks) > 0)
	closeMods(q)
	gvEns("goes back to the pool without arguments, targets, text or name", released(q, gvOld(func() []any { return q.args }), gvOld(func() []any { return q.dest })))
}

//govc:contract (*Stmt).Invalidate
//govc:prop C18
func spInvalidate(q *Stmt) {
	gvReq(q != nil)
	gvMod(&q.sql)
	gvEns("the remembered text is dropped", q.sql == "")
}

//govc:contract (*Stmt).ExecAndClose
//govc:prop C19
func spExecAndClose(q *Stmt, ctx context.Context, db Executor, r sql.Result, err error) {
	gvReq(q != nil && db != nil && stmtOK(q))
	closeMods(q)
	askMods(db)
	gvEns("asks the executor once", asked(db, ctx, GVText(db), gvOld(func() []any { return q.args }), 3))
	gvEns("with the statement's own text", gvImp(gvOld(func() string { return q.name }) == "", GVText(db) == gvOld(func() string { return rendered(q) })))
	gvEns("returns the executor's result", r == GVRes(db) && err == GVResErr(db))
	gvEns("the statement goes back to the pool", clean(q))
}

//govc:contract (*Stmt).QueryRowAndClose
//govc:prop C19
func spQueryRowAndClose(q *Stmt, ctx context.Context, db Executor, err error) {
	gvReq(q != nil && db != nil && stmtOK(q))
	closeMods(q)
	askMods(db)
	gvEns("asks the executor once", asked(db, ctx, GVText(db), gvOld(func() []any { return q.args }), 2))
	gvEns("with the statement's own text", gvImp(gvOld(func() string { return q.name }) == "", GVText(db) == gvOld(func() string { return rendered(q) })))
	gvEns("scans the row into the targets and reports the outcome", GVRowScans(GVRow(db)) == 1 && gvSame(GVRowDest(GVRow(db)), gvOld(func() []any { return q.dest })) && err == GVRowErr(GVRow(db)))
	gvEns("the statement goes back to the pool", clean(q))
}

//govc:contract (*Stmt).QueryAndClose
//govc:prop C19
func spQueryAndClose(q *Stmt, ctx context.Context, db Executor, handler func(rows *sql.Rows), err error) {
	gvReq(q != nil && db != nil && stmtOK(q))
	closeMods(q)
	askMods(db)
	gvMayPanic()
	gvEns("asks the executor once, closes the rows, reports every failure", queryPost(q, db, ctx, handler, GVText(db), gvOld(func() []any { return q.args }), gvOld(func() []any { return q.dest }), err))
	gvEns("with the statement's own text", gvImp(gvOld(func() string { return q.name }) == "", GVText(db) == gvOld(func() string { return rendered(q) })))
	gvEns("the statement goes back to the pool", clean(q))
}
