package schema_test

import (
	"database/sql"
	"fmt"
	"math"
	"strings"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/schema"
	"github.com/lib/pq"
)

// newOf gives a new variable of a generated field type
func newOf(t string) any {
	switch t {
	case "xdb.ID":
		return new(xdb.ID)
	case "xdb.ID32":
		return new(xdb.ID32)
	case "xdb.Int64":
		return new(xdb.Int64)
	case "xdb.Int32":
		return new(xdb.Int32)
	case "xdb.Float":
		return new(xdb.Float)
	case "xdb.Bool":
		return new(xdb.Bool)
	case "xdb.Time":
		return new(xdb.Time)
	case "xdb.NULLString":
		return new(xdb.NULLString)
	case "xdb.UUID":
		return new(xdb.UUID)
	case "xdb.IDArray":
		return new(xdb.IDArray)
	case "pq.Int64Array":
		return new(pq.Int64Array)
	case "pq.StringArray":
		return new(pq.StringArray)
	case "[]byte":
		return new([]byte)
	case "int64":
		return new(int64)
	case "int32":
		return new(int32)
	case "int16":
		return new(int16)
	case "uint8":
		return new(uint8)
	case "int8":
		return new(int8)
	case "uint16":
		return new(uint16)
	case "uint32":
		return new(uint32)
	case "uint64":
		return new(uint64)
	case "int":
		return new(int)
	case "float64":
		return new(float64)
	case "float32":
		return new(float32)
	case "bool":
		return new(bool)
	case "string":
		return new(string)
	}
	return nil
}

// scanInto scans a value like database/sql does for a field of this type, and reads it back as text.
func scanInto(t string, v any) string {
	p := newOf(t)
	if p == nil {
		return "unknown type " + t
	}
	if s, ok := p.(sql.Scanner); ok {
		if err := s.Scan(v); err != nil {
			return "does not hold: " + err.Error()
		}
		return ""
	}
	if v == nil {
		if t == "[]byte" {
			return ""
		}
		return "does not accept NULL"
	}
	switch x := p.(type) {
	case *int64, *int:
		if _, ok := v.(int64); ok {
			return ""
		}
	case *int32:
		if n, ok := v.(int64); ok && n >= math.MinInt32 && n <= math.MaxInt32 {
			return ""
		}
	case *int16:
		if n, ok := v.(int64); ok && n >= math.MinInt16 && n <= math.MaxInt16 {
			return ""
		}
	case *int8:
		if n, ok := v.(int64); ok && n >= math.MinInt8 && n <= math.MaxInt8 {
			return ""
		}
	case *uint8:
		if n, ok := v.(int64); ok && n >= 0 && n <= math.MaxUint8 {
			return ""
		}
	case *float64:
		if _, ok := v.(float64); ok {
			return ""
		}
	case *float32:
		if n, ok := v.(float64); ok && float64(float32(n)) == n {
			return ""
		}
	case *bool:
		if _, ok := v.(bool); ok {
			return ""
		}
	case *string:
		if _, ok := v.(string); ok {
			return ""
		}
	case *[]byte:
		if _, ok := v.([]byte); ok {
			return ""
		}
	default:
		_ = x
	}
	return fmt.Sprintf("does not hold %v", v)
}

func TestVerifC22(t *testing.T) {
	v := vnew(t)
	now := time.Date(2024, 2, 29, 1, 2, 3, 0, time.UTC)
	samples := map[string][]any{
		"bigint": {int64(math.MaxInt64), int64(math.MinInt64)}, "int8": {int64(math.MaxInt64), int64(math.MinInt64)},
		"int": {int64(math.MaxInt32), int64(math.MinInt32)}, "int4": {int64(math.MaxInt32), int64(math.MinInt32)},
		"int2": {int64(math.MaxInt16), int64(math.MinInt16)}, "smallint": {int64(math.MaxInt16), int64(math.MinInt16)},
		"tinyint": {int64(0), int64(255)},
		"decimal": {1.1, -1e300}, "numeric": {1.1, 1e300}, "float8": {1.1, math.MaxFloat64}, "real": {1.5}, "float4": {1.5},
		"bool": {true, false}, "boolean": {true}, "bit": {true},
		"bytea": {[]byte{0, 255}}, "jsonb": {`{"a":1}`},
		"nchar": {"x"}, "nvarchar": {"x"}, "char": {"x"}, "varchar": {"x"}, "bpchar": {"x"}, "text": {"x"}, "cidr": {"x"}, "inet": {"x"}, "ltree": {"x"},
		"time": {now}, "date": {now}, "datetime": {now}, "datetime2": {now}, "timestamp": {now}, "timestamptz": {now},
		"uuid": {[]byte("0123456789abcdef")}, "uniqueidentifier": {[]byte("0123456789abcdef")},
	}
	var typs []string
	for k := range samples {
		typs = append(typs, k)
	}
	names := []string{"name", "id", "ID", "Id", "user_id", "UserId", "UserID", "identity", "idle", "_id", "grid", "paid", "user_ids", "count", "row_count", "Valid", "a_iD"}
	idn := func(n string) bool {
		return strings.EqualFold(n, "id") || strings.HasSuffix(n, "_id") || strings.HasSuffix(n, "Id") || strings.HasSuffix(n, "ID")
	}
	col := func(name, typ string, null, udt bool) *schema.Column {
		c := &schema.Column{Name: name, Type: typ, Nullable: null, Position: 1, SchemaName: "dbo.t." + name}
		if udt {
			c.UdtType, c.Type = typ, "some type"
		}
		return c
	}
	tb := func(c ...*schema.Column) *schema.Table {
		return &schema.Table{Schema: "dbo", Name: "t", SchemaName: "dbo.t", Columns: c}
	}
	for _, typ := range typs {
		for _, name := range names {
			for k := 0; k < 4; k++ {
				c := col(name, typ, k&1 != 0, k&2 != 0)
				v.try("case:type", *c, func() string {
					g, err := generate(t, "postgres", tb(c), nil, nil, nil)
					if err != nil {
						return "a supported type was refused: " + err.Error()
					}
					if len(g.goTypes) != 1 {
						return fmt.Sprintf("fields %v", g.goTypes)
					}
					gt := g.goTypes[0]
					if c.Nullable {
						if s := scanInto(gt, nil); s != "" {
							return gt + ": " + s
						}
					}
					if idn(name) {
						switch typ {
						case "bigint", "int8":
							if gt != "xdb.ID" {
								return "identifier column has type " + gt
							}
							return ""
						case "int", "int4":
							if gt != "xdb.ID32" {
								return "identifier column has type " + gt
							}
							return ""
						}
					}
					for _, x := range samples[typ] {
						if s := scanInto(gt, x); s != "" {
							return gt + ": " + s
						}
					}
					g2, err := generate(t, "sqlserver", tb(c), nil, nil, nil)
					if err != nil || len(g2.goTypes) != 1 || g2.goTypes[0] != gt {
						return "the type is not determined by name, type and nullability"
					}
					return ""
				})
			}
		}
	}
	for _, null := range []bool{false, true} {
		for udt, want := range map[string]string{"_int8": "pq.Int64Array", "_text": "pq.StringArray", "_varchar": "pq.StringArray"} {
			for _, name := range []string{"tags", "ids", "user_ids", "x_id"} {
				w := want
				if udt == "_int8" && strings.HasSuffix(name, "_ids") {
					w = "xdb.IDArray"
				}
				c := &schema.Column{Name: name, Type: "ARRAY", UdtType: udt, Nullable: null, SchemaName: "dbo.t." + name}
				v.try("case:array", *c, func() string {
					g, err := generate(t, "postgres", tb(c), nil, nil, nil)
					if err != nil {
						return err.Error()
					}
					if len(g.goTypes) != 1 || g.goTypes[0] != w {
						return fmt.Sprintf("field types %v, expected %s", g.goTypes, w)
					}
					return ""
				})
			}
		}
	}
	// unsupported types
	bad := []string{"xml", "BIGINT", "int 4", "money", "geography", "hstore", "", "int128", "bigintt", "_int8", "jsonb[]", "interval", "json"}
	for i := 0; i < 60*v.deep; i++ {
		b := make([]byte, 1+v.r.Intn(8))
		for j := range b {
			b[j] = "abcdefinty48 "[v.r.Intn(13)]
		}
		if samples[string(b)] == nil {
			bad = append(bad, string(b))
		}
	}
	for _, typ := range bad {
		for k := 0; k < 2; k++ {
			name := names[v.r.Intn(len(names))]
			c := &schema.Column{Name: name, Type: typ, Nullable: k == 1, SchemaName: "dbo.t." + name}
			if v.r.Intn(2) == 0 {
				c = &schema.Column{Name: name, Type: "ARRAY", UdtType: typ, Nullable: k == 1, SchemaName: "dbo.t." + name}
				if typ == "_int8" {
					c.UdtType = "_int4"
				}
			}
			v.try("case:unsupported", *c, func() string {
				g, err := generate(t, "postgres", tb(c), nil, nil, nil)
				if err == nil {
					return fmt.Sprintf("an unsupported type became %v", g.goTypes)
				}
				return ""
			})
		}
	}
	// explicit overrides win; they stay for the life of the process, so the names are used once
	for i := 0; i < 40; i++ {
		typ := typs[v.r.Intn(len(typs))]
		if i%5 == 0 {
			typ = "unsupported_type"
		}
		name := fmt.Sprintf("over%d%s", i, []string{"", "_id", "_count", "Id"}[i%4])
		c := col(name, typ, i%3 == 0, i%2 == 0)
		if i%7 == 0 {
			c.Type, c.UdtType = "ARRAY", "_int8"
		}
		c.SchemaName = "dbo.over." + name
		key := c.Name
		if i%2 == 1 {
			key = c.SchemaName
		}
		v.try("case:override", []any{*c, key}, func() string {
			m := map[string]string{key: "mine.Type"}
			if i%4 == 0 {
				m[c.SchemaName] = "other.Type"
			}
			g, err := generate(t, "postgres", tb(c), m, nil, nil)
			if err != nil {
				return err.Error()
			}
			if len(g.goTypes) != 1 || g.goTypes[0] != "mine.Type" {
				return fmt.Sprintf("the override gave %v", g.goTypes)
			}
			return ""
		})
	}
}
