package print_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"strings"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/cli"
	"github.com/effective-security/xdb/pkg/print"
	"github.com/effective-security/xdb/schema"
	"gopkg.in/yaml.v3"
)

type badJSON struct{ S string }

func (badJSON) MarshalJSON() ([]byte, error) { return nil, fmt.Errorf("no JSON") }

type badYAML struct{ S string }

func (badYAML) MarshalYAML() (any, error) { return nil, fmt.Errorf("no YAML") }

type rec struct {
	A string         `json:"a" yaml:"a"`
	B int            `json:"b,omitempty" yaml:"b,omitempty"`
	C []any          `json:"c"`
	D map[string]any `json:"d"`
	E *rec           `json:"e"`
	F any
}

func yamlOf(v any) (y []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			y, err = nil, fmt.Errorf("%v", r)
		}
	}()
	return yaml.Marshal(v)
}

func TestVerifC29(t *testing.T) {
	v := vnew(t)
	texts := []string{"", "a", "<&>", "yes", "null", "1", "a: b", "- x", "\n", "\t", "\u2028", "é", "~", "#", "\x00", "\xff"}
	var val func(d int) any
	val = func(d int) any {
		n := v.r.Intn(26)
		if d == 0 && n > 15 {
			n = v.r.Intn(15)
		}
		switch n {
		case 0:
			return nil
		case 1:
			return v.r.Intn(100)
		case 2:
			return []float64{0, 1.5, -1e300, math.Inf(1), math.NaN()}[v.r.Intn(5)]
		case 3:
			return true
		case 4:
			return xdb.NewID(uint64(v.r.Intn(10)))
		case 5:
			return xdb.Time(time.Unix(int64(v.r.Intn(1e9)), 0).UTC())
		case 6:
			return xdb.NULLString(texts[v.r.Intn(len(texts))])
		case 7:
			if v.r.Intn(3) == 0 {
				return make(chan int)
			}
			return uint64(math.MaxUint64)
		case 8:
			if v.r.Intn(3) == 0 {
				return func() {}
			}
			return []byte("bytes")
		case 9:
			if v.r.Intn(3) == 0 {
				return complex(1, 2)
			}
			return int8(-1)
		case 10:
			if v.r.Intn(3) == 0 {
				return badJSON{"x"}
			}
			return "x"
		case 11:
			if v.r.Intn(3) == 0 {
				return badYAML{"x"}
			}
			return "y"
		case 12:
			return map[int]string{1: "a"}
		case 13:
			if v.r.Intn(3) == 0 {
				return map[any]any{1: 2, "a": "b"}
			}
			return []string{}
		case 14:
			return json.RawMessage([]string{`{"a":1}`, `{`, `1 `, ``}[v.r.Intn(4)])
		case 16:
			return []any{val(d - 1), val(d - 1)}
		case 17:
			return map[string]any{"k": val(d - 1), texts[v.r.Intn(len(texts))]: val(d - 1)}
		case 18:
			return &rec{A: texts[v.r.Intn(len(texts))], B: v.r.Intn(2), C: []any{val(d - 1)}, D: map[string]any{"x": val(d - 1)}}
		case 19:
			return rec{E: &rec{F: val(d - 1)}, F: val(d - 1)}
		}
		return texts[v.r.Intn(len(texts))]
	}
	table := func() *schema.Table {
		tb := &schema.Table{Schema: "dbo", Name: texts[1+v.r.Intn(4)], Type: "BASE TABLE"}
		for i := v.r.Intn(4); i > 0; i-- {
			tb.Columns = append(tb.Columns, &schema.Column{Name: fmt.Sprintf("c%d", i), Type: "int", Nullable: i%2 == 0, Position: uint32(i), MaxLength: uint32(v.r.Intn(2) * 10)})
		}
		if v.r.Intn(2) == 0 {
			tb.Indexes = schema.Indexes{{Name: "ix", ColumnNames: []string{"a", "b"}, IsUnique: true}}
		}
		return tb
	}
	fks := func() schema.ForeignKeys {
		var l schema.ForeignKeys
		for i := v.r.Intn(3); i > 0; i-- {
			l = append(l, &schema.ForeignKey{Name: fmt.Sprintf("fk%d", i), Schema: "dbo", Table: "a", Column: "b", RefSchema: "dbo", RefTable: "c", RefColumn: "d"})
		}
		return l
	}
	// the tabular form of a value, if it has one
	tabular := func(x any) (string, bool) {
		b := &bytes.Buffer{}
		switch y := x.(type) {
		case *schema.Table:
			print.SchemaTable(b, y)
		case schema.Tables:
			print.SchemaTables(b, y)
		case schema.ForeignKeys:
			print.SchemaForeingKeys(b, y)
		case schema.Indexes:
			print.SchemaIndexes(b, y)
		default:
			return "", false
		}
		return b.String(), true
	}
	show := func(x any) string { s := fmt.Sprintf("%T %+v", x, x); return s[:min(len(s), 200)] }
	check := func(what, got string, err error, want []byte, wantErr error) string {
		if (err != nil) != (wantErr != nil) {
			return fmt.Sprintf("%s: error %v, expected %v", what, err, wantErr)
		}
		if err != nil && got != "" {
			return fmt.Sprintf("%s: an error, and %q written", what, got)
		}
		if err == nil && got != string(want) {
			return fmt.Sprintf("%s: wrote %q, expected %q", what, got, want)
		}
		return ""
	}
	for i := 0; i < 1500*v.deep; i++ {
		var x any
		switch i % 8 {
		case 0:
			x = table()
		case 1:
			x = schema.Tables{table(), table()}[:v.r.Intn(3)]
		case 2:
			x = fks()
		case 3:
			x = schema.Indexes{{Name: "ix", ColumnNames: []string{"a"}, IsPrimary: true}}[:v.r.Intn(2)]
		case 4:
			x = []any{table(), *table(), []*schema.Table{table()}, schema.Columns{}}[v.r.Intn(4)]
		default:
			x = val(3)
		}
		v.try("case:print", show(x), func() string {
			js, jerr := json.MarshalIndent(x, "", "  ")
			js = append(js, '\n')
			ym, yerr := yamlOf(x)
			tb, has := tabular(x)
			b := &bytes.Buffer{}
			prefix := "kept: "
			run := func(what string, f func(w io.Writer) error, want []byte, werr error) string {
				b.Reset()
				b.WriteString(prefix)
				err := f(b)
				if !strings.HasPrefix(b.String(), prefix) {
					return what + ": earlier output was lost"
				}
				return check(what, b.String()[len(prefix):], err, want, werr)
			}
			def, derr := js, jerr
			if has {
				def, derr = []byte(tb), nil
			}
			steps := []string{
				run("JSON", func(w io.Writer) error { return print.JSON(w, x) }, js, jerr),
				run("Yaml", func(w io.Writer) error { return print.Yaml(w, x) }, ym, yerr),
				run("Object json", func(w io.Writer) error { return print.Object(w, "json", x) }, js, jerr),
				run("Object yaml", func(w io.Writer) error { return print.Object(w, "yaml", x) }, ym, yerr),
			}
			for _, f := range []string{"", "table", "JSON", "yml", " json", "Yaml"} {
				f := f
				steps = append(steps, run("Object "+f, func(w io.Writer) error { return print.Object(w, f, x) }, def, derr),
					run("Cli.Print "+f, func(w io.Writer) error { return (&cli.Cli{O: f}).WithWriter(w).Print(x) }, def, derr))
			}
			steps = append(steps,
				run("Cli.Print json", func(w io.Writer) error { return (&cli.Cli{O: "json"}).WithWriter(w).Print(x) }, js, jerr),
				run("Cli.Print yaml", func(w io.Writer) error { return (&cli.Cli{O: "yaml"}).WithWriter(w).Print(x) }, ym, yerr))
			pw := def
			if derr != nil {
				pw = nil
			}
			steps = append(steps, run("Print", func(w io.Writer) error { print.Print(w, x); return nil }, pw, nil))
			for _, s := range steps {
				if s != "" {
					return s
				}
			}
			return ""
		})
	}
}
