#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Generated IDs are unique and strictly increasing, whatever the clock does",
 "Every ID handed out by one ID generator is strictly greater than every ID that generator handed out before, whatever the clock does between calls (stalls, jumps back, jumps forward) and however many goroutines ask at once. The generator's mutable state is only read or written while its lock is held. Once the time field is exhausted the generator panics instead of handing out a wrapped or repeated ID.",
 ["histories","schedules","inputs"],"every sequence of clock readings, every prior generator state reachable from construction, every interleaving of callers",
 "Tests sample a few seconds of the real clock on one machine; they never step the clock backwards, never reach the sequence wrap at a chosen state, never approach the 41-bit limit and sample only a few interleavings.",
 ["pkg/flake/flake.go"],[("monitor around (elapsedTime, sequence, lastID)","pkg/flake/flake.go: (*Flake).NextID"),("packing and overflow test","pkg/flake/flake.go: (*Flake).toID")],
 [("elapsedTime, sequence","the last issued (time, sequence) pair; ordered lexicographically","pkg/flake/flake.go: Flake")],["NextID return values","LastID"])
prop("C02","An ID decodes to exactly the time, sequence and machine it was built from",
 "An ID carries a 41-bit count of milliseconds since the generator's start time, a 6-bit sequence number and the 16-bit machine number in disjoint bit fields, with the top bit clear. Decomposing any ID returns exactly those fields, and the timestamp reported for an ID is the generator's start time plus its millisecond count, in UTC. The first-ID and last-ID queries report the first and the most recent ID the generator issued.",
 ["inputs","histories"],"every 64-bit ID, every start time, machine number, elapsed time and sequence",
 "Tests decompose a handful of freshly generated IDs with one machine id; field overlap or a wrong mask shows only for other bit patterns.",
 ["pkg/flake/flake.go"],[("bit layout constants and shifts","pkg/flake/flake.go: toID, Decompose, IDTime")],None,["Decompose","IDTime","FirstID","LastID"])
prop("C03","IDs survive SQL, JSON and text round trips, and bad input is rejected",
 "For every 64-bit ID, writing it to SQL and scanning it back, marshalling to JSON and unmarshalling, or formatting as text and parsing gives an equal ID with the canonical decimal text; the zero ID is written as SQL NULL and zero/NULL/empty read back as the zero ID. The same holds for 32-bit IDs. Text that is not a decimal number in range, and SQL values of the wrong type or out of range, are rejected with an error.",
 ["inputs"],"every uint64/uint32 value, every text and every dynamic SQL value",
 "Tests round-trip a few constants; values above 2^63, non-canonical text, out-of-range integers and every other dynamic type are never tried.",
 ["id.go","types.go"],[("Value/Scan, MarshalJSON/UnmarshalJSON, String/Set","id.go: ID, ID32"),("ParseUint/IDString","types.go")],None,["driver.Valuer","sql.Scanner","json"])
prop("C04","IDs are values: copies are independent and failed decoding changes nothing",
 "Copying an ID yields an independent value: setting, resetting, scanning or formatting one copy never changes what any other copy reports. Set, Scan and JSON/YAML decoding of an ID that return an error leave the destination exactly as it was, and those that succeed leave it holding exactly the decoded value.",
 ["histories","inputs"],"every ID value, every copy history, every input",
 "Tests mutate freshly created IDs only and never look at a copy afterwards.",
 ["id.go"],[("pointer-backed representation shared by copies","id.go: ID.Set, ID.Reset, ID.Scan, idptr")],[("idptr","heap cell shared by copies of an ID","id.go")],["String","UInt64","IsZero"])
prop("C05","Nullable number and bool columns read exactly the database value or fail",
 "Scanning a nullable integer, boolean or float column stores exactly the database value (a float column read from an integer holds the nearest float), or returns an error and leaves the destination untouched when the value has an unsupported type or does not fit; it never stores a truncated or wrapped number. SQL NULL always resets the destination to zero, even when it held a value from an earlier row. Zero is written back as NULL and every other value is written unchanged, so write-then-scan is the identity, and JSON text of an integer or boolean reads back as the same value.",
 ["inputs","histories"],"every value of every dynamic type delivered by a driver, every prior content of the destination",
 "Tests scan a few small positive values into fresh zero variables, so truncation, wrap-around and stale values from a previous row are invisible.",
 ["types.go","id.go"],[("Scan/Value switch per type","types.go: Int64, Int32, Float, Bool; id.go: ID32")],None,["sql.Scanner","driver.Valuer","json"])
prop("C06","ID lists behave as duplicate-free sets and survive SQL",
 "Adding to or concatenating ID lists yields a list that contains exactly the union of the inputs, keeps the existing order, introduces no duplicate and leaves the elements of the input lists unchanged; membership and overlap tests agree with the listed values. Sorting yields an ascending permutation, and the numeric and text listings preserve length and order. A list scanned from SQL holds exactly the array's IDs in order, NULL gives an empty list, a failed scan gives an error, and a written list carries every ID in order (empty is NULL).",
 ["inputs","histories"],"all lists of all lengths, with and without spare capacity or duplicates",
 "Tests use lists of two or three elements; capacity aliasing, duplicates inside inputs and long lists are not sampled.",
 ["id.go"],[("Add/Concat/Contains/Overlaps/Sort loops","id.go: IDArray"),("pq array conversion","id.go: IDArray.Scan, Value, Int64Array")],None,["IDArray methods"])
prop("C07","JSON-backed columns hold exactly the last scanned or merged content",
 "After a successful scan a string-list, string-map or multi-value-map column holds exactly the content of the scanned JSON, with nothing left over from earlier content; NULL yields nil, empty text yields an empty non-nil container, text and byte input are equivalent, and invalid input returns an error. Writing a container of valid UTF-8 text produces JSON that scans back to an equal container (nil or empty is NULL where documented). Merging adds every pair of the argument, the argument winning, keeps all other pairs, and never changes the argument; ordered key and pair listings are sorted and complete.",
 ["inputs","histories"],"every JSON text or driver value, every previous content, every pair of maps",
 "Tests always scan into fresh variables with two fixed documents.",
 ["types.go"],[("Scan via json.Unmarshal into the receiver","types.go: Strings, Metadata, KVSet"),("Merge loops","types.go")],None,["Scan","Value","Merge"])
prop("C08","Text and UUID columns preserve content or report an error",
 "Scanning a nullable text column gives the exact text and NULL gives the empty string; the empty string is written as NULL and any other text unchanged. A UUID column given 16 bytes yields the canonical text of those bytes in the database's mixed-endian order, given text yields that text, given NULL yields empty, and anything else, including byte strings of any other length, returns an error and leaves the destination unchanged.",
 ["inputs"],"every byte string, text and dynamic value",
 "Tests cover one UUID and ignore wrong lengths.",
 ["types.go"],[("UUID byte shuffle and length test","types.go: UUID.Scan"),("NULLString.Scan/Value","types.go")],None,["Scan","Value"])
prop("C09","Times are UTC, keep their instant, and zero means NULL or empty",
 "Every time produced by the library (now, from-now, truncation, addition, Unix-millisecond conversion, parsing, scanning) is in UTC and denotes the same instant as its input, up to the documented millisecond truncation. Text that is not a time is refused by Scan with an error. The zero time is written as SQL NULL, empty text, an empty JSON string and a nil pointer, and each of these reads back as the zero time; a non-zero time is never written as NULL. Converting Unix milliseconds to a time and back is the identity for every 64-bit value.",
 ["inputs","configurations"],"every instant, every source time zone, every millisecond count",
 "Tests use a few recent instants, mostly already UTC.",
 ["time.go","types.go"],[("UTC/Truncate on every constructor","time.go"),("zero mapping","time.go: Value, String, Ptr, MarshalJSON; types.go: TimePtr, NullTime")],None,["Time methods"])
prop("C10","Query parameters keep arguments in call order and report what was set",
 "Query parameters return their arguments in exactly the order they were set, with limit and offset (or cursor and limit) last; once a page limit is set any further argument or enum is refused by a panic, as is any position above 63. A position is reported set if and only if it was set, an enum reports the first value given for its position, and setting one parameter never changes what another reports. Resetting returns the object to the state of a freshly created one for the same query name.",
 ["histories","inputs"],"every sequence of builder calls with every position and value",
 "Tests build four or five fixed sequences with small positions.",
 ["params.go"],[("positions bit set, enums list, args slice","params.go: QueryParamsBuilder")],[("positions/args/limit","bit flags, ordered arguments, page limit","params.go")],["Args","IsSet","GetEnum","Page","Cursor"])
prop("C11","A query-parameter name always reflects the current parameters",
 "The name of a set of query parameters is a function of its current query name, set positions, enum values, flags, paging kind and its nulled columns, never of the order in which the nulled columns were given or of an earlier call to the name. Computing the name does not modify the caller's data. Any later change of those parameters is reflected in the next name returned.",
 ["histories"],"every sequence of builder calls interleaved with name queries",
 "Tests compute each name once at the end of building.",
 ["params.go"],[("memoized hash","params.go: QueryParamsBuilder.Name")],[("hash","memoized name","params.go")],["Name"])
prop("C12","List and row queries return every row in order, or an error",
 "A list query that reports success returns one model per row of the result set, in row order, each scanned from its own row. If the query, any scan, or the iteration itself fails (including a failure that ends iteration early), an error is returned and no partial list. The result rows are closed on every path, and the query text and arguments reach the database unchanged.",
 ["fault_sequences","inputs"],"every number of rows, every failing call position",
 "Tests run on a healthy database; nothing injects a scan failure at row k or a connection loss during iteration.",
 ["query.go"],[("row loop, deferred close","query.go: ExecuteListQuery, QueryRow")],None,["returned list and error","Rows.Close"])
prop("C13","Pagination says whether more rows may exist and where they start",
 "A paged query reports a next page exactly when the number of rows fetched reaches the positive page limit, and then the next offset equals the current offset plus the number of rows fetched (offsets that stay within 32 bits); otherwise the next offset is zero. The limit and offset come from the paging part of the query parameters, or from the last two plain arguments, and the result always receives exactly the fetched rows. On a query error the result object is not touched.",
 ["inputs","fault_sequences"],"every limit, offset, row count and argument list shape",
 "Tests fetch one or two fixed pages.",
 ["query.go","params.go"],[("limit/offset extraction and comparison","query.go: ExecuteQueryWithPagination, ExecuteQueryWithCursor, ExecuteQuery; params.go: PageParam")],None,["SetResult arguments"])
prop("C14","Transactions route every statement and finish exactly as asked",
 "A provider created by beginning a transaction runs every query, row query and exec on that transaction, with the caller's context, query text and arguments, and the root provider runs them on the connection. Beginning uses the caller's options; nested begin, and commit or rollback without a transaction, are errors that touch nothing. Commit reports the transaction's own result, rollback ignores only the already-finished error, and closing a transactional provider rolls back without closing the shared connection, while closing a root provider closes the connection.",
 ["histories","fault_sequences"],"every sequence of provider calls, every result of the underlying driver",
 "The provider tests need live databases and exercise only successful paths.",
 ["prov.go"],[("db/tx/conn fields","prov.go: SQLProvider")],[("tx","non-nil exactly for a transactional provider","prov.go")],["calls reaching the driver"])
prop("C15","Not-found errors are classified the same way everywhere",
 "An error is recognised as not-found exactly when it is, wraps, or textually reports the no-rows error, or wraps a not-found record error; nil is never not-found. Converting an error to a not-found record error preserves the original cause, carries the table and id, is itself recognised as not-found, and passes every other error through with its identity intact.",
 ["inputs"],"every error value and wrapping chain",
 "Tests use three or four hand-made errors.",
 ["types.go"],[("CheckNotFoundError, IsNotFoundError, ErrorNotFound.Is/Unwrap","types.go")],None,["errors.Is/As results"])
prop("C16","Built SQL keeps clauses in standard order and arguments beside placeholders",
 "Whatever order builder methods are called in, the resulting statement lists its clauses in the fixed clause order, with text of the same clause in call order, and no fragment is lost, duplicated or altered. The argument list is ordered as the fragments are in the statement: the arguments given with a fragment occupy exactly the positions of that fragment's placeholders. Scan targets appear in call order. (Set on a statement that is neither an INSERT nor an UPDATE is outside.)",
 ["histories","programs"],"every sequence of builder calls with any number of arguments per call",
 "Tests build a few dozen fixed statements in mostly natural clause order.",
 ["xsql/stmt.go","xsql/util.go"],[("sorted chunk list with per-chunk argument count","xsql/stmt.go: addChunk"),("argument insertion","xsql/util.go: insertAt")],[("chunks, args, buf","sorted fragments, aligned arguments, append-only text","xsql/stmt.go: Stmt")],["String","Args","Dest"])
prop("C17","Postgres placeholders are numbered 1..n and everything else is untouched",
 "For Postgres every unescaped question mark of a fragment that carries arguments becomes the next number in sequence starting at $1 across the whole statement, an escaped question mark becomes a plain one, and every other byte is copied unchanged. For other dialects the text is left as written.",
 ["inputs","programs"],"every fragment text and every number of fragments",
 "Tests use fragments with one or two placeholders and one escape.",
 ["xsql/dialect.go","xsql/stmt.go"],[("placeholder rewriting","xsql/dialect.go: writePg"),("counter threaded over fragments","xsql/stmt.go: Stmt.String")],None,["String"])
prop("C18","Reused and cloned builders never leak state between statements",
 "A statement started from the pool behaves exactly like one built from scratch: no clause, argument, scan target, name, text or cursor of an earlier statement shows through, and closing a statement drops its references to arguments and targets. A clone equals its original in text, arguments and scan targets and has the same insertion point, and later changes of either never show in the other. Asking for the text repeatedly gives the same text until a fragment is added, after which the new fragment is reflected. (A statement with a caller-chosen name uses that name as its cache key and is outside the cache guarantees.)",
 ["histories","schedules"],"every history of builders created, cloned, closed and reused",
 "Tests reuse builders only incidentally and never inspect a recycled one after an unusual history.",
 ["xsql/pool.go","xsql/stmt.go"],[("getStmt/reuseStmt reset","xsql/pool.go"),("Clone","xsql/stmt.go"),("Invalidate on change","xsql/stmt.go: addChunk")],[("pos, chunks, args, dest, sql, name","pooled fields","xsql/stmt.go: Stmt")],["String","Args","Dest","Clone"])
prop("C19","Executing a builder runs its own statement once and reports every failure",
 "Executing a built statement sends exactly its text and arguments to the given executor once, with the caller's context, and returns the executor's result. A failure to run, to scan, to iterate or to close is reported as an error, the rows are always closed, and the row callback runs once per row in order, after its scan succeeded. The close variants return the builder to the pool on every outcome.",
 ["fault_sequences","inputs"],"every failing call position, every number of rows",
 "Tests use a healthy in-memory database.",
 ["xsql/executor.go"],[("Query/QueryRow/Exec and ...AndClose","xsql/executor.go")],None,["executor calls","returned error"])
prop("C20","Schema discovery returns exactly the selected objects, completely or with an error",
 "Listing tables, views or foreign keys returns exactly the database objects whose schema and name match the given filters (case-insensitively; an empty filter matches all), with their columns in ordinal order and fully qualified names. Any failure while reading is reported as an error instead of a partial result, and result rows are closed on every path. Descriptions returned by the database that refer to columns outside the listed ones do not crash discovery.",
 ["inputs","fault_sequences"],"every catalog content, filter and failing read",
 "Schema tests need live databases with one fixed catalog.",
 ["schema/provider.go"],[("ListTables, ListViews, ListForeignKeys, readColumnsSchema, readIndexesSchema, discover","schema/provider.go")],None,["returned lists and errors"])
prop("C21","Column lists for SELECT stay aligned with the table's columns",
 "The column list rendered for a table has one entry per table column, in order, so that row scanning stays aligned: each entry is the column (with the alias prefix if given) or NULL when that column is nulled. Rendering never changes the table description, and the statements started from it name the table's qualified name.",
 ["inputs"],"every column list, prefix and nulled set",
 "Tests check one table with a fixed prefix.",
 ["schema/schema.go"],[("AliasedColumns, AllColumns, Select*, From","schema/schema.go: TableInfo")],None,["column list strings"])
prop("C22","Generated field types can hold every value of their column",
 "The Go type chosen for a column is determined by its name, type and nullability; every nullable column of a supported type gets a type that accepts NULL, and identifier columns of a bigint or int type get an ID type. An unsupported type is refused loudly instead of guessed, and explicit type overrides win.",
 ["inputs"],"every column name, type and nullability",
 "Tests generate code for one sample schema.",
 ["internal/cli/schema/types.go"],[("typeByColumnType table and lookup order","internal/cli/schema/types.go: toGoType")],None,["generated struct field types"])
prop("C23","Migrations report failures and never run past them",
 "Running migrations returns success only if every requested step succeeded: a failure to open the source, to force a version, to read the current version, or to migrate is returned as an error. Being already up to date is success, and the requested version (or the latest when none is given) is the one migrated to.",
 ["fault_sequences","configurations"],"every combination of settings and every result of each step",
 "The tests cover only a missing driver.",
 ["migrate/migrate.go"],[("step sequence","migrate/migrate.go: Migrate")],None,["returned error"])
prop("C24","Merging records never erases a value with an empty one",
 "Merging a source record into a destination overwrites an ID, time or nullable text field exactly when the source's field is non-empty, and otherwise leaves the destination's field as it was. The source record is never changed.",
 ["inputs"],"every pair of records",
 "Tests merge two fixed records.",
 ["merge.go"],[("transformers","merge.go")],None,["merged struct"])
prop("C25","Cursors decode to what was encoded, and malformed cursors are rejected",
 "Decoding an encoded cursor gives back the encoded keys and values as JSON represents them, the encoded form is URL-safe text, and text that is not a well-formed cursor returns an error and no map.",
 ["inputs"],"every map and every text",
 "Tests round-trip one map.",
 ["query.go"],[("base64url over JSON","query.go: EncodeCursor, DecodeCursor")],None,["EncodeCursor","DecodeCursor"])
prop("C26","Connection strings open the database that was asked for",
 "Parsing a connection string reports its driver, host, user, password, database and parameters as written, or an error. Opening with an explicit database name connects to that database with every other part of the connection string preserved, unknown drivers are refused, and a failure to open or reach the server is an error with no connection returned.",
 ["inputs","fault_sequences"],"every connection string and database name",
 "Tests use a few fixed strings and no unreachable server.",
 ["db.go"],[("ParseConnectionString, Open","db.go")],None,["Source fields","driver DSN"])
prop("C27","Every notification reaches the callback with its payload intact",
 "Each notification received on a channel is delivered with its channel name and raw payload unchanged, and its JSON object payload parsed when it is one; an unparsable payload never loses the notification.",
 ["inputs"],"every payload text",
 "There are no tests of the listener.",
 ["pkg/notifier/listener.go"],[("parsePayload","pkg/notifier/listener.go")],None,["callback argument"])
prop("C28","Dropped columns disappear consistently from model and schema output",
 "When columns are excluded from generation, both the column name list and the field list omit exactly the excluded columns and keep all the others in order, so they stay aligned.",
 ["inputs"],"every column list and exclusion set",
 "Tests generate one sample schema.",
 ["internal/cli/schema/schema.go"],[("filterColumnNames, filterColumns","internal/cli/schema/schema.go")],None,["generated code"])
prop("C29","Printing reports encoding failures and honours the requested format",
 "Printing an object in JSON or YAML writes exactly that encoding of the value, and a value that cannot be encoded returns an error with nothing written. The tabular form is used exactly when neither format is asked for and the object has one.",
 ["inputs"],"every printable object and format",
 "Tests print a few fixed objects.",
 ["pkg/print/print.go"],[("Object, JSON, Yaml, Print","pkg/print/print.go")],None,["writer output","error"])
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
