From 86c8e17d4b57f90b23c636c811fe87bcb6bc6c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 01/40] fix: scanning SQL NULL resets nullable scalars and IDs

---
 id.go    | 2 ++
 types.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/id.go b/id.go
index a504b7d..061aa0a 100644
--- a/id.go
+++ b/id.go
@@ -151,6 +151,7 @@ func (v *ID) Set(val string) error {
 // Scan implements the Scanner interface.
 func (v *ID) Scan(value any) error {
 	if value == nil {
+		*v = NewID(0)
 		return nil
 	}
 
@@ -378,6 +379,7 @@ func (v ID32) String() string {
 // Scan implements the Scanner interface.
 func (v *ID32) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
diff --git a/types.go b/types.go
index d960b10..6c73cfb 100644
--- a/types.go
+++ b/types.go
@@ -422,6 +422,7 @@ func (v Int64) Int64() int64 {
 // Scan implements the Scanner interface.
 func (v *Int64) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -496,6 +497,7 @@ func (v Int32) Int64() int64 {
 // Scan implements the Scanner interface.
 func (v *Int32) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -566,6 +568,7 @@ func (v Float) Float() float64 {
 // Scan implements the Scanner interface.
 func (v *Float) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -641,6 +644,7 @@ func (v Bool) Bool() bool {
 // Scan implements the Scanner interface.
 func (v *Bool) Scan(value any) error {
 	if value == nil {
+		*v = false
 		return nil
 	}
 
-- 
2.43.0


From b0c810f4b3f75416005fc888494dda0d9081d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 02/40] fix: ID.Set and ID.Reset do not modify copies of the ID

---
 id.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/id.go b/id.go
index 061aa0a..86412ce 100644
--- a/id.go
+++ b/id.go
@@ -121,12 +121,8 @@ func (v ID) UInt64() uint64 {
 
 // Reset the value
 func (v *ID) Reset() {
-	if v.id == nil {
-		v.id = &idptr{}
-	} else {
-		v.id.id = 0
-		v.id.str = ""
-	}
+	// allocate, as the value may be shared with the copies of this ID
+	v.id = &idptr{}
 }
 
 // Set the value
@@ -139,11 +135,8 @@ func (v *ID) Set(val string) error {
 	if err != nil || id == 0 {
 		return errors.Errorf("invalid ID: '%s'", val)
 	}
-	if v.id == nil {
-		v.id = &idptr{}
-	}
-	v.id.id = id
-	v.id.str = ""
+	// allocate, as the value may be shared with the copies of this ID
+	v.id = &idptr{id: id}
 
 	return nil
 }
-- 
2.43.0


From 9dc8baa874c9528b6fab5d44b880acefe16e9cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 03/40] fix: ID decoded from JSON reports canonical text

---
 id.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/id.go b/id.go
index 86412ce..4ccf852 100644
--- a/id.go
+++ b/id.go
@@ -63,7 +63,9 @@ func (v *ID) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return errors.Errorf("expected number value to unmarshal ID: %s", s)
 	}
-	*v = ID{id: &idptr{id: f, str: s}}
+	*v = NewID(f)
+	// cache the canonical text
+	_ = v.String()
 	return nil
 }
 
-- 
2.43.0


From 425d511e1e1064245723f5ffd3084aacb5dcac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 04/40] fix: refuse integers that do not fit instead of
 truncating on Scan

---
 id.go    |  5 +++++
 types.go | 17 +++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/id.go b/id.go
index 4ccf852..45fc596 100644
--- a/id.go
+++ b/id.go
@@ -2,6 +2,7 @@ package xdb
 
 import (
 	"database/sql/driver"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -392,6 +393,10 @@ func (v *ID32) Scan(value any) error {
 		return errors.Errorf("unsupported scan type: %T", value)
 	}
 
+	if id > math.MaxUint32 {
+		return errors.Errorf("value out of range for ID32: %v", value)
+	}
+
 	*v = ID32(id)
 	return nil
 }
diff --git a/types.go b/types.go
index 6c73cfb..c4dec05 100644
--- a/types.go
+++ b/types.go
@@ -5,6 +5,7 @@ import (
 	"database/sql/driver"
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -429,12 +430,18 @@ func (v *Int64) Scan(value any) error {
 	var id int64
 	switch vid := value.(type) {
 	case uint64:
+		if vid > math.MaxInt64 {
+			return errors.Errorf("value out of range for Int64: %v", vid)
+		}
 		id = int64(vid)
 	case int64:
 		id = int64(vid)
 	case int:
 		id = int64(vid)
 	case uint:
+		if uint64(vid) > math.MaxInt64 {
+			return errors.Errorf("value out of range for Int64: %v", vid)
+		}
 		id = int64(vid)
 	default:
 		return errors.Errorf("unsupported scan type: %T", value)
@@ -504,17 +511,27 @@ func (v *Int32) Scan(value any) error {
 	var id int64
 	switch vid := value.(type) {
 	case uint64:
+		if vid > math.MaxInt64 {
+			return errors.Errorf("value out of range for Int32: %v", vid)
+		}
 		id = int64(vid)
 	case int64:
 		id = int64(vid)
 	case int:
 		id = int64(vid)
 	case uint:
+		if uint64(vid) > math.MaxInt64 {
+			return errors.Errorf("value out of range for Int32: %v", vid)
+		}
 		id = int64(vid)
 	default:
 		return errors.Errorf("unsupported scan type: %T", value)
 	}
 
+	if id < math.MinInt32 || id > math.MaxInt32 {
+		return errors.Errorf("value out of range for Int32: %v", value)
+	}
+
 	*v = Int32(id)
 	return nil
 }
-- 
2.43.0


From 8f5f33c4f21653dd8daf5eb0889d061678e3b8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 05/40] fix: negative numbers scan as true into Bool

---
 types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/types.go b/types.go
index c4dec05..e741f33 100644
--- a/types.go
+++ b/types.go
@@ -668,13 +668,13 @@ func (v *Bool) Scan(value any) error {
 	var id bool
 	switch vid := value.(type) {
 	case uint64:
-		id = vid > 0
+		id = vid != 0
 	case int64:
-		id = vid > 0
+		id = vid != 0
 	case int:
-		id = vid > 0
+		id = vid != 0
 	case uint:
-		id = vid > 0
+		id = vid != 0
 	case bool:
 		id = vid
 	default:
-- 
2.43.0


From b745416325cad9c645bb0b63bc304b9d08551edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 06/40] fix: Metadata and KVSet Scan replaces the content
 instead of merging

---
 types.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index e741f33..3d0b2d5 100644
--- a/types.go
+++ b/types.go
@@ -243,7 +243,13 @@ func (n *Metadata) Scan(value any) error {
 		*n = Metadata{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal(s, n))
+	// decode to a new map, to not merge with existing values
+	var m Metadata
+	if err := json.Unmarshal(s, &m); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = m
+	return nil
 }
 
 // Value implements the driver Valuer interface.
@@ -293,7 +299,13 @@ func (n *KVSet) Scan(value any) error {
 		*n = KVSet{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal(s, n))
+	// decode to a new map, to not merge with existing values
+	var m KVSet
+	if err := json.Unmarshal(s, &m); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = m
+	return nil
 }
 
 // Value implements the driver Valuer interface.
-- 
2.43.0


From d8210918169627975b0d9b41d57d7be32c4ca3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 07/40] fix: Strings Scan accepts bytes and does not overwrite
 the previous value

---
 types.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index 3d0b2d5..8224897 100644
--- a/types.go
+++ b/types.go
@@ -146,12 +146,24 @@ func (n *Strings) Scan(value any) error {
 		*n = nil
 		return nil
 	}
-	v := fmt.Sprint(value)
-	if len(v) == 0 {
+	var s []byte
+	switch vid := value.(type) {
+	case []byte:
+		s = vid
+	default:
+		s = []byte(fmt.Sprint(vid))
+	}
+	if len(s) == 0 {
 		*n = Strings{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal([]byte(v), n))
+	// decode to a new slice, to not overwrite the array of existing value
+	var list Strings
+	if err := json.Unmarshal(s, &list); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = list
+	return nil
 }
 
 // Value implements the driver Valuer interface.
-- 
2.43.0


From 89548433c9e997f3b84a7488ddbfe05b7aed69b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 08/40] fix: UUID Scan reports an error on invalid length

---
 types.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 8224897..7980f36 100644
--- a/types.go
+++ b/types.go
@@ -379,11 +379,10 @@ func (ns *UUID) Scan(value any) error {
 	}
 
 	var s string
-	var err error
 	switch vid := value.(type) {
 	case []byte:
 		if len(vid) != 16 {
-			return errors.WithMessagef(err, "failed to parse UUID: %v", vid)
+			return errors.Errorf("failed to parse UUID: %v", vid)
 		}
 		s = fmt.Sprintf("%02X%02X%02X%02X-%02X%02X-%02X%02X-%02X%02X-%02X%02X%02X%02X%02X%02X",
 			vid[3], vid[2], vid[1], vid[0], vid[5], vid[4], vid[7], vid[6], vid[8], vid[9], vid[10], vid[11], vid[12], vid[13], vid[14], vid[15])
-- 
2.43.0


From c384e3faf88539dd36105516e0d71fd60f687477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 09/40] fix: Time Scan reports text that can not be parsed

---
 time.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/time.go b/time.go
index 9566ec6..85e12ae 100644
--- a/time.go
+++ b/time.go
@@ -25,7 +25,11 @@ func (ns *Time) Scan(value any) error {
 	var v sql.NullTime
 
 	if str, ok := value.(string); ok {
-		*ns = ParseTime(str)
+		t, err := parseTime(str)
+		if err != nil {
+			return errors.WithStack(err)
+		}
+		*ns = t
 		return nil
 	}
 
@@ -75,24 +79,33 @@ func FromUnixMilli(tm int64) Time {
 
 // ParseTime returns Time from RFC3339 format
 func ParseTime(val string) Time {
+	t, _ := parseTime(val)
+	return t
+}
+
+func parseTime(val string) (Time, error) {
 	if val == "" {
-		return Time{}
+		return Time{}, nil
 	}
 
 	var t time.Time
+	var err error
 	switch len(val) {
 	case len(DefaultTimeFormat):
-		t, _ = time.Parse(DefaultTimeFormat, val)
+		t, err = time.Parse(DefaultTimeFormat, val)
 	case len(time.RFC3339):
-		t, _ = time.Parse(time.RFC3339, val)
+		t, err = time.Parse(time.RFC3339, val)
 	case len(time.DateTime):
-		t, _ = time.Parse(time.DateTime, val)
+		t, err = time.Parse(time.DateTime, val)
 	case len(time.DateOnly):
-		t, _ = time.Parse(time.DateOnly, val)
+		t, err = time.Parse(time.DateOnly, val)
 	default:
-		t, _ = time.Parse(time.RFC3339Nano, val)
+		t, err = time.Parse(time.RFC3339Nano, val)
 	}
-	return Time(t.Truncate(DefaultTrucate).UTC())
+	if err != nil {
+		return Time{}, err
+	}
+	return Time(t.Truncate(DefaultTrucate).UTC()), nil
 }
 
 // UnixMilli returns t as a Unix time, the number of milliseconds elapsed since January 1, 1970 UTC.
-- 
2.43.0


From a2c35782343c47c84b56442891172023a0b08483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 10/40] fix: Time decoded from JSON is in UTC

---
 time.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/time.go b/time.go
index 85e12ae..17abbc1 100644
--- a/time.go
+++ b/time.go
@@ -170,5 +170,10 @@ func (ns *Time) UnmarshalJSON(data []byte) error {
 		*ns = Time{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal([]byte(data), (*time.Time)(ns)))
+	t := time.Time(*ns)
+	if err := json.Unmarshal(data, &t); err != nil {
+		return errors.WithStack(err)
+	}
+	*ns = Time(t.UTC())
+	return nil
 }
-- 
2.43.0


From 076672fffa13b76ce5d5b750b5bbb0eefbd15865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 11/40] fix: xsql Clone keeps the insertion point and the new
 lines option

---
 xsql/stmt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index 59520d6..d60db3f 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -1007,6 +1007,8 @@ func (q *Stmt) Clone() Builder {
 	stmt.dest = insertAt(stmt.dest, q.dest, 0)
 	_, _ = stmt.buf.Write(q.buf.B)
 	stmt.sql = q.sql
+	stmt.pos = q.pos
+	stmt.useNewLines = q.useNewLines
 
 	return stmt
 }
-- 
2.43.0


From 46ed5b37f3486c0f0e23916f809d20285d308214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 12/40] fix: xsql does not reuse cached SQL of a different
 statement with the same buffer

---
 xsql/stmt.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index d60db3f..3e9a989 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"database/sql"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"github.com/effective-security/x/values"
@@ -909,9 +910,8 @@ func (q *Stmt) Clause(expr string, args ...any) Builder {
 // String method builds and returns an SQL statement.
 func (q *Stmt) String() string {
 	if q.sql == "" {
-		// Calculate the buffer hash and check for available queries
-		// NOTE: can't use bufToString here as it returns Raw pointer
-		bufStrKey := values.StringsCoalesce(q.name, q.buf.String())
+		// Check for available queries
+		bufStrKey := values.StringsCoalesce(q.name, q.layoutKey())
 		sql, ok := q.dialect.GetCachedQuery(bufStrKey)
 		if ok {
 			q.sql = sql
@@ -943,6 +943,26 @@ func (q *Stmt) String() string {
 	return q.sql
 }
 
+// layoutKey returns the cache key of a statement without a name.
+// Statements with the same text in the buffer may be different,
+// so the key also includes the layout of the chunks.
+func (q *Stmt) layoutKey() string {
+	key := make([]byte, 0, 16*len(q.chunks)+1+len(q.buf.B))
+	for _, chunk := range q.chunks {
+		key = strconv.AppendInt(key, int64(chunk.pos), 10)
+		key = append(key, ':')
+		key = strconv.AppendInt(key, int64(chunk.bufLow), 10)
+		key = append(key, ':')
+		key = strconv.AppendInt(key, int64(chunk.bufHigh), 10)
+		key = append(key, ':')
+		key = strconv.AppendInt(key, int64(chunk.argLen), 10)
+		key = append(key, ';')
+	}
+	key = append(key, 0)
+	key = append(key, q.buf.B...)
+	return string(key)
+}
+
 /*
 Args returns the list of arguments to be passed to
 database driver for statement execution.
-- 
2.43.0


From 6a697bad38a491ef5b72f700cc090d062eac20d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 13/40] fix: flake LastID reads under the lock

---
 pkg/flake/flake.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/flake/flake.go b/pkg/flake/flake.go
index 9ffcd6d..3347197 100644
--- a/pkg/flake/flake.go
+++ b/pkg/flake/flake.go
@@ -268,6 +268,8 @@ func FirstID(g IDGenerator) uint64 {
 // LastID returns the last ID generated by the generator.
 func LastID(g IDGenerator) uint64 {
 	if fl, ok := g.(*Flake); ok {
+		fl.mutex.Lock()
+		defer fl.mutex.Unlock()
 		return fl.lastID
 	}
 	return 0
-- 
2.43.0


From 4989e59ff601284d6004f4e6bda9994684e26e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 14/40] fix: BeginTx uses the options of the caller

---
 prov.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prov.go b/prov.go
index 279b4d4..8dd1636 100644
--- a/prov.go
+++ b/prov.go
@@ -82,11 +82,11 @@ func (p *SQLProvider) keepAlive(period time.Duration) {
 // The provided TxOptions is optional and may be nil if defaults should be used.
 // If a non-default isolation level is used that the driver doesn't support,
 // an error will be returned.
-func (p *SQLProvider) BeginTx(ctx context.Context, _ *sql.TxOptions) (Provider, error) {
+func (p *SQLProvider) BeginTx(ctx context.Context, opts *sql.TxOptions) (Provider, error) {
 	if p.tx != nil {
 		return nil, errors.New("transaction already started")
 	}
-	tx, err := p.conn.BeginTx(ctx, nil)
+	tx, err := p.conn.BeginTx(ctx, opts)
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-- 
2.43.0


From ab50926161679b46e75941c30847eae8e61bf07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 15/40] fix: ExecuteListQuery reports a failed iteration

---
 query.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/query.go b/query.go
index 23a870c..6a4cddc 100644
--- a/query.go
+++ b/query.go
@@ -49,6 +49,9 @@ func ExecuteListQuery[T any, TPointer RowPointer[T]](ctx context.Context, sql DB
 		}
 		list = append(list, m)
 	}
+	if err = rows.Err(); err != nil {
+		return nil, errors.WithStack(err)
+	}
 	return list, nil
 }
 
-- 
2.43.0


From 6d3f532fb758fe75066e87ac120c3e8b3b1331c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 16/40] fix: no next page is reported without a page limit

---
 query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query.go b/query.go
index 6a4cddc..0853ec4 100644
--- a/query.go
+++ b/query.go
@@ -93,7 +93,7 @@ func ExecuteQueryWithPagination[T any, TPointer RowPointer[T]](ctx context.Conte
 	}
 
 	count := uint32(len(list))
-	hasNextPage := count >= limit
+	hasNextPage := limit > 0 && count >= limit
 	nextOffset := values.Select(hasNextPage, offset+count, 0)
 
 	res.SetResult(list, hasNextPage, nextOffset)
@@ -126,7 +126,7 @@ func ExecuteQueryWithCursor[T any, TPointer RowPointer[T]](ctx context.Context,
 	}
 
 	count := uint32(len(list))
-	hasNextPage := count >= limit
+	hasNextPage := limit > 0 && count >= limit
 
 	res.SetResultWithCursor(list, hasNextPage, cursor)
 
-- 
2.43.0


From 19114f729bb24154f00e97916a4092ffc95beef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 17/40] fix: QueryParamsBuilder.Reset clears the null columns

---
 params.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/params.go b/params.go
index 24b71b4..3349c0b 100644
--- a/params.go
+++ b/params.go
@@ -100,6 +100,7 @@ func (b *QueryParamsBuilder) Reset() {
 	b.limit = 0
 	b.offset = 0
 	b.cursor = nil
+	b.nullColumns = nil
 }
 
 // Name returns a hash of the query parameters.
-- 
2.43.0


From 3141f4926a4b452202c38b9560aa11ef7d5dbcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 18/40] fix: query name reflects parameters that were set after
 Name was called

---
 params.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/params.go b/params.go
index 3349c0b..5a9a67e 100644
--- a/params.go
+++ b/params.go
@@ -146,6 +146,7 @@ func (b *QueryParamsBuilder) Name() string {
 
 // SetNullColums sets a list of columns that should be replaced with NULL.
 func (b *QueryParamsBuilder) SetNullColums(nullColumns []string) *QueryParamsBuilder {
+	b.hash = ""
 	b.nullColumns = nullColumns
 	return b
 }
@@ -166,6 +167,7 @@ func (b *QueryParamsBuilder) Set(pos uint32, v any) *QueryParamsBuilder {
 		panic("enum position is out of range")
 	}
 	b.checkPage()
+	b.hash = ""
 	b.positions |= 1 << pos
 	b.args = append(b.args, v)
 	return b
@@ -181,6 +183,7 @@ func (b *QueryParamsBuilder) checkPage() {
 func (b *QueryParamsBuilder) SetPage(limit, offset uint32) *QueryParamsBuilder {
 	b.checkPage()
 	b.limit = values.NumbersCoalesce(limit, DefaultPageSize)
+	b.hash = ""
 	b.offset = offset
 	b.args = append(b.args, b.limit, b.offset)
 	return b
@@ -194,6 +197,7 @@ func (b *QueryParamsBuilder) Page() (limit uint32, offset uint32) {
 // SetCursor sets the limit for pagination, and adds it to the list of arguments.
 func (b *QueryParamsBuilder) SetCursor(limit uint32, pos uint32, cursor any) *QueryParamsBuilder {
 	b.Set(pos, cursor)
+	b.hash = ""
 	b.cursor = cursor
 	b.limit = values.NumbersCoalesce(limit, DefaultPageSize)
 	b.args = append(b.args, b.limit)
@@ -223,6 +227,7 @@ func (b *QueryParamsBuilder) SetEnum(pos uint32, v int32) *QueryParamsBuilder {
 		panic("enum position is out of range")
 	}
 	b.checkPage()
+	b.hash = ""
 	b.positions |= 1 << pos
 	b.enums = append(b.enums, enumPosition{pos, v})
 	return b
@@ -241,6 +246,7 @@ func (b *QueryParamsBuilder) GetEnum(pos uint32) (int32, bool) {
 
 // SetFlags sets additional flags for query parameter.
 func (b *QueryParamsBuilder) SetFlags(v ...int32) *QueryParamsBuilder {
+	b.hash = ""
 	b.flags = v
 	return b
 }
-- 
2.43.0


From 1f9867e29a11c2bc9ce6e6abca19f953f8edfed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 19/40] fix: query name does not reorder the columns of the
 caller

---
 params.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/params.go b/params.go
index 5a9a67e..23f9341 100644
--- a/params.go
+++ b/params.go
@@ -131,8 +131,9 @@ func (b *QueryParamsBuilder) Name() string {
 
 		if len(b.nullColumns) > 0 {
 			h := murmur3.New64()
-			sort.Strings(b.nullColumns)
-			for _, c := range b.nullColumns {
+			cols := append([]string(nil), b.nullColumns...)
+			sort.Strings(cols)
+			for _, c := range cols {
 				h.Write([]byte(c))
 			}
 			n.WriteString("_n")
-- 
2.43.0


From e62e35eff396f7783bd2c70bb57c81524039d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 20/40] fix: IDArray.Add does not overwrite a list that shares
 the array

---
 id.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/id.go b/id.go
index 45fc596..950e586 100644
--- a/id.go
+++ b/id.go
@@ -280,7 +280,8 @@ func (n IDArray) Add(id ID) IDArray {
 			return n
 		}
 	}
-	return append(n, id)
+	// do not write to the spare capacity, it can be used by another list
+	return append(n[:len(n):len(n)], id)
 }
 
 // Concat returns new list
-- 
2.43.0


From 76ba9b53988c8b8d653dfc903e86de3f57948356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 21/40] fix: IDArray.Concat keeps the order of the receiver

---
 id.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/id.go b/id.go
index 950e586..985ce57 100644
--- a/id.go
+++ b/id.go
@@ -286,9 +286,6 @@ func (n IDArray) Add(id ID) IDArray {
 
 // Concat returns new list
 func (n IDArray) Concat(other IDArray) IDArray {
-	if len(other) < len(n) {
-		return other.Concat(n)
-	}
 	for _, id := range other {
 		n = n.Add(id)
 	}
-- 
2.43.0


From b8302c06d3a803d9301595dc0a7df753654dd6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 22/40] fix: xsql SubQuery with an empty prefix keeps its
 separator and arguments

---
 xsql/stmt.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index 3e9a989..ffae76e 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -838,16 +838,13 @@ func (q *Stmt) SubQuery(prefix, suffix string, b Builder) Builder {
 	if q.pos == posWhere {
 		delimiter = " AND "
 	}
-	index := q.addChunk(q.pos, "", prefix, query.args, delimiter)
-	chunk := &q.chunks[index]
 	// Make sure subquery is not dialect-specific.
 	if query.dialect != NoDialect {
 		query.dialect = NoDialect
 		query.Invalidate()
 	}
-	q.WriteString(query.String())
-	q.WriteString(suffix)
-	chunk.bufHigh = q.buf.Len()
+	// An empty prefix must not lose the separator or the arguments.
+	q.addChunk(q.pos, "", prefix+query.String()+suffix, query.args, delimiter)
 	// Close the subquery
 	query.Close()
 
-- 
2.43.0


From a8d568260c3b3019294e05365704d523ff78fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 23/40] fix: xsql raw clauses added in a row do not run into
 the position of the next clause

---
 xsql/stmt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index ffae76e..9381fbe 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -898,7 +898,8 @@ added. If called first, Clause method prepends a statement with a raw SQL.
 func (q *Stmt) Clause(expr string, args ...any) Builder {
 	p := posStart
 	if len(q.chunks) > 0 {
-		p = (&q.chunks[len(q.chunks)-1]).pos + 10
+		// The next free position: a larger step runs into the clauses that follow.
+		p = (&q.chunks[len(q.chunks)-1]).pos + 1
 	}
 	q.addChunk(p, expr, "", args, ", ")
 	return q
-- 
2.43.0


From dd1beea5d9feb14aa7c2c5afc2792ac4b2cb0b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 24/40] fix: xsql Union precedes ORDER BY, LIMIT, OFFSET and
 RETURNING whatever the call order

---
 xsql/stmt.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index 9381fbe..1c27699 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -861,10 +861,10 @@ get faster queries.
 func (q *Stmt) Union(all bool, b Builder) Builder {
 	query := b.(*Stmt)
 	p := posUnion
-	if len(q.chunks) > 0 {
-		last := (&q.chunks[len(q.chunks)-1]).pos
-		if last >= p {
-			p = last + 1
+	// Follow the earlier unions, but precede ORDER BY, LIMIT and the like.
+	for _, chunk := range q.chunks {
+		if chunk.pos >= p && chunk.pos < posOrderBy {
+			p = chunk.pos + 1
 		}
 	}
 	var index int
-- 
2.43.0


From 439386310b136b6cf46dd5d6090f86d0ae41c4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 25/40] fix: xsql Query closes the rows when the handler panics

---
 xsql/executor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsql/executor.go b/xsql/executor.go
index edabb59..eabd67b 100644
--- a/xsql/executor.go
+++ b/xsql/executor.go
@@ -25,6 +25,9 @@ func (q *Stmt) Query(ctx context.Context, db Executor, handler func(rows *sql.Ro
 		return err
 	}
 
+	// Release the rows even if the handler panics
+	defer func() { _ = rows.Close() }()
+
 	// Iterate through rows of returned dataset
 	for rows.Next() {
 		if len(q.dest) > 0 {
-- 
2.43.0


From ed14f0d0ed199b938322d5785dfc4f09a3aaa6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:07 +0000
Subject: [PATCH 26/40] fix: schema ListTables skips index columns that are not
 among the listed ones

---
 schema/provider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/provider.go b/schema/provider.go
index 198ba2a..2c41d56 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -104,6 +104,10 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 			for _, cn := range idx.ColumnNames {
 				colShemaName := fmt.Sprintf("%s.%s", t.SchemaName, cn)
 				col := r.columns[colShemaName]
+				if col == nil {
+					// the index refers to a column that was not listed
+					continue
+				}
 				col.Indexes = append(col.Indexes, idx)
 				if idx.IsPrimary && len(idx.ColumnNames) == 1 {
 					t.PrimaryKey = col
-- 
2.43.0


From 68a867e3080d9da12b2eb05657efcea4d0581d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:09 +0000
Subject: [PATCH 27/40] fix: schema discovery closes result rows on every path

---
 schema/provider.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schema/provider.go b/schema/provider.go
index 2c41d56..dc6b9d0 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -69,6 +69,7 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query tables")
 	}
+	defer func() { _ = rows.Close() }()
 
 	tt := Tables{}
 	for rows.Next() {
@@ -145,6 +146,7 @@ func (r *SQLServerProvider) ListViews(ctx context.Context, schemas []string, tab
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query tables")
 	}
+	defer func() { _ = rows.Close() }()
 
 	tablesMap := map[string]*Table{} // map of Table FQN => table
 
@@ -211,6 +213,7 @@ func (r *SQLServerProvider) readColumnsSchema(ctx context.Context, schema, table
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
+	defer func() { _ = rows.Close() }()
 
 	cc := Columns{}
 	for rows.Next() {
@@ -247,6 +250,7 @@ func (r *SQLServerProvider) readIndexesSchema(ctx context.Context, schema, table
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
+	defer func() { _ = rows.Close() }()
 
 	var pk *Index
 	cc := Indexes{}
@@ -287,6 +291,7 @@ func (r *SQLServerProvider) ListForeignKeys(ctx context.Context, schemas []strin
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query foreign keys")
 	}
+	defer func() { _ = rows.Close() }()
 
 	keys := ForeignKeys{}
 	for rows.Next() {
-- 
2.43.0


From dcd20059b90220453bedfa17a72d195668b6f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:10 +0000
Subject: [PATCH 28/40] fix: schema column queries pass schema and table names
 as arguments

---
 schema/postgres.go  | 11 +++++------
 schema/sqlserver.go |  8 +++-----
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/schema/postgres.go b/schema/postgres.go
index de05444..e35912e 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -3,7 +3,6 @@ package schema
 import (
 	"context"
 	"database/sql"
-	"fmt"
 
 	"github.com/effective-security/xdb"
 )
@@ -33,14 +32,14 @@ func (p postgres) QueryTables(ctx context.Context) (*sql.Rows, error) {
 }
 
 func (p postgres) QueryColumns(ctx context.Context, schema, table string) (*sql.Rows, error) {
-	qry := fmt.Sprintf(`
+	qry := `
 	SELECT column_name, data_type, udt_name, is_nullable, character_maximum_length, ordinal_position 
   	FROM information_schema.columns
- 	WHERE table_schema = '%s'
-   	AND table_name = '%s';
-`, schema, table)
+ 	WHERE table_schema = $1
+   	AND table_name = $2;
+`
 
-	return p.db.QueryContext(ctx, qry)
+	return p.db.QueryContext(ctx, qry, schema, table)
 }
 
 const postgresQueryViews = `
diff --git a/schema/sqlserver.go b/schema/sqlserver.go
index efef608..89bdefb 100644
--- a/schema/sqlserver.go
+++ b/schema/sqlserver.go
@@ -3,7 +3,6 @@ package schema
 import (
 	"context"
 	"database/sql"
-	"fmt"
 
 	"github.com/effective-security/xdb"
 )
@@ -41,11 +40,10 @@ func (p sqlserver) QueryTables(ctx context.Context) (*sql.Rows, error) {
 }
 
 func (p sqlserver) QueryColumns(ctx context.Context, schema, table string) (*sql.Rows, error) {
-	qry := fmt.Sprintf(`
-	SELECT COLUMN_NAME, DATA_TYPE, DATA_TYPE, IS_NULLABLE, CHARACTER_MAXIMUM_LENGTH, ORDINAL_POSITION FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA=N'%s' AND TABLE_NAME = N'%s'`,
-		schema, table)
+	qry := `
+	SELECT COLUMN_NAME, DATA_TYPE, DATA_TYPE, IS_NULLABLE, CHARACTER_MAXIMUM_LENGTH, ORDINAL_POSITION FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA = @schema AND TABLE_NAME = @table`
 
-	return p.db.QueryContext(ctx, qry)
+	return p.db.QueryContext(ctx, qry, sql.Named("schema", schema), sql.Named("table", table))
 }
 
 const mssqlQueryViews = `
-- 
2.43.0


From 9fe883c52419fe892ebc846bf045331e0563b77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:13 +0000
Subject: [PATCH 29/40] fix: schema TableInfo AllColumns does not write to the
 shared description

---
 schema/schema.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/schema/schema.go b/schema/schema.go
index e5e0ba1..d4fe58a 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -27,8 +27,6 @@ type TableInfo struct {
 
 	// SchemaName is FQN in schema.name format
 	SchemaName string `json:"-" yaml:"-"`
-
-	allColumns string `json:"-" yaml:"-"`
 }
 
 // From starts FROM expression
@@ -76,10 +74,7 @@ func (t *TableInfo) SelectAliased(prefix string, nullColumns map[string]bool) xs
 
 // AllColumns returns list of all columns separated by comma
 func (t *TableInfo) AllColumns() string {
-	if t.allColumns == "" {
-		t.allColumns = strings.Join(t.Columns, ", ")
-	}
-	return t.allColumns
+	return strings.Join(t.Columns, ", ")
 }
 
 // AliasedColumns returns list of columns separated by comma,
-- 
2.43.0


From 191316f486f05c5c132ade2aee69df6da4c57f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:05 +0000
Subject: [PATCH 30/40] fix: SQL Server tinyint columns, which hold 0 to 255,
 map to uint8

---
 internal/cli/schema/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cli/schema/types.go b/internal/cli/schema/types.go
index 3ace554..c01f856 100644
--- a/internal/cli/schema/types.go
+++ b/internal/cli/schema/types.go
@@ -32,7 +32,7 @@ var typeByColumnType = map[string]string{
 	"int":      "int32",
 	"int2":     "int16",
 	"smallint": "int16",
-	"tinyint":  "int8",
+	"tinyint":  "uint8",
 
 	"decimal": "float64",
 	"numeric": "float64",
-- 
2.43.0


From da9c45f7591757a8c4c65e4b43a337793189d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:08 +0000
Subject: [PATCH 31/40] fix: migrate treats only ErrNoChange as being up to
 date

---
 migrate/migrate.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/migrate/migrate.go b/migrate/migrate.go
index a9d8feb..ace477a 100644
--- a/migrate/migrate.go
+++ b/migrate/migrate.go
@@ -4,7 +4,6 @@ import (
 	"database/sql"
 	"fmt"
 	"os"
-	"strings"
 
 	"github.com/cockroachdb/errors"
 	"github.com/effective-security/xlog"
@@ -91,7 +90,7 @@ func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersio
 	}
 
 	if err != nil {
-		if strings.Contains(err.Error(), "no change") {
+		if errors.Is(err, migrate.ErrNoChange) {
 			logger.KV(xlog.INFO, "db", dbName, "status", "no_change", "version", version)
 			return nil
 		}
-- 
2.43.0


From e33c86e34459239d0dc379d7975dae37f88bf785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:38 +0000
Subject: [PATCH 32/40] fix: Open sets the database parameter of the connection
 URL, escaped and replacing an existing one

---
 db.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/db.go b/db.go
index e9bd61d..9e656cb 100644
--- a/db.go
+++ b/db.go
@@ -134,16 +134,15 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 	if database != "" {
 		switch source.Driver {
 		case "sqlserver":
-			ds = ds + "&database=" + database
+			ds, err = withParam(ds, "database", database)
 		case "postgres":
-			if strings.Contains(ds, "host=") {
-				ds = ds + " dbname=" + database
-			} else {
-				ds = ds + "&dbname=" + database
-			}
+			ds, err = withParam(ds, "dbname", database)
 		default:
 			return nil, source.Driver, ds, errors.Errorf("unsuppoprted driver %q", source.Driver)
 		}
+		if err != nil {
+			return nil, source.Driver, ds, err
+		}
 	}
 
 	d, err := sql.Open(source.Driver, ds)
@@ -162,6 +161,23 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 	return d, source.Driver, ds, nil
 }
 
+// withParam returns the connection URL with the query parameter set
+func withParam(ds, name, value string) (string, error) {
+	u, err := url.Parse(ds)
+	if err != nil {
+		return ds, errors.WithMessagef(err, "failed to parse DB connection string")
+	}
+	q := u.Query()
+	for k := range q {
+		if strings.EqualFold(k, name) {
+			q.Del(k)
+		}
+	}
+	q.Set(name, value)
+	u.RawQuery = q.Encode()
+	return u.String(), nil
+}
+
 // MigrationConfig defines migration configuration
 type MigrationConfig struct {
 	Source         string
-- 
2.43.0


From f7d76aa8986966ab426a8dabb3d9329175db8a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:40 +0000
Subject: [PATCH 33/40] fix: printing a value that YAML cannot encode returns
 an error instead of panicking

---
 pkg/print/print.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/print/print.go b/pkg/print/print.go
index 68e6b74..27610dc 100644
--- a/pkg/print/print.go
+++ b/pkg/print/print.go
@@ -23,7 +23,7 @@ func JSON(w io.Writer, value any) error {
 
 // Yaml prints value  to out
 func Yaml(w io.Writer, value any) error {
-	y, err := yaml.Marshal(value)
+	y, err := yamlMarshal(value)
 	if err != nil {
 		return errors.WithMessage(err, "failed to encode")
 	}
@@ -31,6 +31,16 @@ func Yaml(w io.Writer, value any) error {
 	return nil
 }
 
+// yamlMarshal reports values that yaml cannot encode, on which yaml.Marshal panics
+func yamlMarshal(value any) (y []byte, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.Errorf("%v", r)
+		}
+	}()
+	return yaml.Marshal(value)
+}
+
 // Object prints value to out in format
 func Object(w io.Writer, format string, value any) error {
 	if format == "yaml" {
-- 
2.43.0


From f406a3c33e63f4e91a284ceeca048c1293995850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:41 +0000
Subject: [PATCH 34/40] fix: Object returns the encoding error of a value that
 has no tabular form

---
 pkg/print/print.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/print/print.go b/pkg/print/print.go
index 27610dc..58f4928 100644
--- a/pkg/print/print.go
+++ b/pkg/print/print.go
@@ -49,12 +49,15 @@ func Object(w io.Writer, format string, value any) error {
 	if format == "json" {
 		return JSON(w, value)
 	}
-	Print(w, value)
-	return nil
+	return printDefault(w, value)
 }
 
 // Print value
 func Print(w io.Writer, value any) {
+	_ = printDefault(w, value)
+}
+
+func printDefault(w io.Writer, value any) error {
 	switch t := value.(type) {
 	case *schema.Table:
 		SchemaTable(w, t)
@@ -65,6 +68,7 @@ func Print(w io.Writer, value any) {
 	case schema.Indexes:
 		SchemaIndexes(w, t)
 	default:
-		_ = JSON(w, value)
+		return JSON(w, value)
 	}
+	return nil
 }
-- 
2.43.0


From 80642546152c8cfa099d7707722ea38a2e42397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:29 +0000
Subject: [PATCH 35/40] fix: EncodeCursor of an empty map gives a cursor that
 decodes

---
 query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query.go b/query.go
index 0853ec4..dc97155 100644
--- a/query.go
+++ b/query.go
@@ -153,7 +153,7 @@ func ExecuteQuery[T any, TPointer RowPointer[T]](ctx context.Context, sql DB, re
 
 // EncodeCursor encodes the offset or value into a cursor
 func EncodeCursor(val values.MapAny) string {
-	return base64.RawURLEncoding.EncodeToString([]byte(val.JSON()))
+	return base64.RawURLEncoding.EncodeToString([]byte(values.JSON(val)))
 }
 
 // DecodeCursor decodes the cursor into a map
-- 
2.43.0


From 9229e637933358c27fb0a3d2404b0cae3c58b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:20 +0000
Subject: [PATCH 36/40] fix: Open with a database name drops the database named
 in the path of a postgres URL

---
 db.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db.go b/db.go
index 9e656cb..7ae4865 100644
--- a/db.go
+++ b/db.go
@@ -174,6 +174,10 @@ func withParam(ds, name, value string) (string, error) {
 		}
 	}
 	q.Set(name, value)
+	if u.Scheme == "postgres" {
+		// the path of a postgres URL also names a database
+		u.Path, u.RawPath = "", ""
+	}
 	u.RawQuery = q.Encode()
 	return u.String(), nil
 }
-- 
2.43.0


From 1298b8493ce39ac94d95b99bdceafc9d96e9f6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:20 +0000
Subject: [PATCH 37/40] fix: ParseConnectionString reports the database named
 in the path of a postgres URL

---
 db.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db.go b/db.go
index 7ae4865..8636d74 100644
--- a/db.go
+++ b/db.go
@@ -255,6 +255,9 @@ func ParseConnectionString(dataSource string) (*Source, error) {
 	for k := range q {
 		s.Params[k] = q.Get(k)
 	}
+	if s.Driver == "postgres" && s.Database == "" {
+		s.Database = strings.TrimPrefix(u.Path, "/")
+	}
 
 	return s, nil
 }
-- 
2.43.0


From 8c5c7138da0c200ddd8f517fbb973c941ef2ee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:28 +0000
Subject: [PATCH 38/40] fix: ParseConnectionString refuses a malformed query
 instead of dropping its parameters

---
 db.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/db.go b/db.go
index 8636d74..266021b 100644
--- a/db.go
+++ b/db.go
@@ -240,7 +240,10 @@ func ParseConnectionString(dataSource string) (*Source, error) {
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to parse DB connection string")
 	}
-	q := u.Query()
+	q, err := url.ParseQuery(u.RawQuery)
+	if err != nil {
+		return nil, errors.WithMessagef(err, "failed to parse DB connection string")
+	}
 	s := &Source{
 		Source:   ds,
 		Driver:   u.Scheme,
-- 
2.43.0


From 0d68ac017c34ff29a072fac072ad4547afcd0292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:20 +0000
Subject: [PATCH 39/40] fix: notifications of several topics of one listener
 reach the callback of their own topic

---
 pkg/notifier/listener.go | 52 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/pkg/notifier/listener.go b/pkg/notifier/listener.go
index 7740164..74e2e29 100644
--- a/pkg/notifier/listener.go
+++ b/pkg/notifier/listener.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"io"
+	"sync"
 	"time"
 
 	"github.com/cockroachdb/errors"
@@ -40,6 +41,11 @@ type Listener interface {
 
 type listener struct {
 	listener *pq.Listener
+
+	start sync.Once
+	mu    sync.Mutex
+	// callbacks by topic: all topics share the listener's Notify channel
+	callbacks map[string]func(n *Notification)
 }
 
 func eventCallBack(ev pq.ListenerEventType, err error) {
@@ -70,7 +76,8 @@ func NewListener(p xdb.Provider, minReconnectInterval time.Duration, maxReconnec
 	lp := pq.NewListener(p.ConnectionString(), minReconnectInterval, maxReconnectInterval, eventCallBack)
 
 	l := &listener{
-		listener: lp,
+		listener:  lp,
+		callbacks: make(map[string]func(n *Notification)),
 	}
 
 	return l
@@ -87,10 +94,15 @@ func (l *listener) Close() error {
 }
 
 func (l *listener) Listen(ctx context.Context, topic string, callback func(n *Notification)) error {
+	if !l.register(topic, callback) {
+		return errors.Wrapf(pq.ErrChannelAlreadyOpen, "failed to listen to channel: %s", topic)
+	}
 	err := l.listener.Listen(topic)
 	if err != nil {
+		l.unregister(topic)
 		return errors.Wrapf(err, "failed to listen to channel: %s", topic)
 	}
+	l.start.Do(func() { go l.dispatch() })
 
 	go func() {
 		for {
@@ -100,6 +112,7 @@ func (l *listener) Listen(ctx context.Context, topic string, callback func(n *No
 					"reason", "context_done",
 					"channel", topic)
 				err = l.listener.Unlisten(topic)
+				l.unregister(topic)
 				if err != nil {
 					logger.KV(xlog.ERROR,
 						"reason", "unlisten",
@@ -107,10 +120,6 @@ func (l *listener) Listen(ctx context.Context, topic string, callback func(n *No
 						"error", err.Error())
 				}
 				return
-			case n := <-l.listener.Notify:
-				if n != nil {
-					callback(parsePayload(n))
-				}
 			case <-time.After(time.Minute):
 				go func() {
 					err := l.listener.Ping()
@@ -132,6 +141,39 @@ func (l *listener) Listen(ctx context.Context, topic string, callback func(n *No
 	return nil
 }
 
+// register sets the callback of a topic that has none
+func (l *listener) register(topic string, callback func(n *Notification)) bool {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	if _, ok := l.callbacks[topic]; ok {
+		return false
+	}
+	l.callbacks[topic] = callback
+	return true
+}
+
+func (l *listener) unregister(topic string) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	delete(l.callbacks, topic)
+}
+
+// dispatch hands each notification to the callback of its topic
+func (l *listener) dispatch() {
+	for n := range l.listener.Notify {
+		if n == nil {
+			// the connection was re-established
+			continue
+		}
+		l.mu.Lock()
+		callback := l.callbacks[n.Channel]
+		l.mu.Unlock()
+		if callback != nil {
+			callback(parsePayload(n))
+		}
+	}
+}
+
 func parsePayload(in *pq.Notification) *Notification {
 	n := &Notification{
 		Channel:    in.Channel,
-- 
2.43.0


From d61b74a69c63adbf2fd42323b3ba322fb95935a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:16 +0000
Subject: [PATCH 40/40] fix: a failure to release the migration lock is
 reported when the database is up to date

---
 migrate/migrate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migrate/migrate.go b/migrate/migrate.go
index ace477a..9b0330c 100644
--- a/migrate/migrate.go
+++ b/migrate/migrate.go
@@ -90,7 +90,7 @@ func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersio
 	}
 
 	if err != nil {
-		if errors.Is(err, migrate.ErrNoChange) {
+		if err == migrate.ErrNoChange {
 			logger.KV(xlog.INFO, "db", dbName, "status", "no_change", "version", version)
 			return nil
 		}
-- 
2.43.0

