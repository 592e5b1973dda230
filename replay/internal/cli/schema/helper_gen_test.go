package schema_test

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/effective-security/xdb/internal/cli"
	clischema "github.com/effective-security/xdb/internal/cli/schema"
	"github.com/effective-security/xdb/schema"
)

// fixed is a schema provider with fixed tables
type fixed struct {
	tables schema.Tables
	name   string
}

func (f fixed) Name() string { return f.name }
func (f fixed) ListTables(context.Context, []string, []string, bool) (schema.Tables, error) {
	return f.tables, nil
}
func (f fixed) ListViews(context.Context, []string, []string) (schema.Tables, error) { return nil, nil }
func (f fixed) ListForeignKeys(context.Context, []string, []string) (schema.ForeignKeys, error) {
	return nil, nil
}

// generated is what the generator wrote for one table
type generated struct {
	fields  []string // names of the fields of the model struct
	goTypes []string
	tags    []string
	scanned []string // fields given to Scan, in order
	cols    []string // TableInfo.Columns
	defs    []string // Name of the column definitions, in order
	text    string
}

// generate runs the generator on one table.
func generate(t *testing.T, prov string, tb *schema.Table, types, fields map[string]string, drop []string) (g *generated, err error) {
	defer func() {
		if r := recover(); r != nil {
			g, err = nil, fmt.Errorf("panic: %v", r)
		}
	}()
	out := &bytes.Buffer{}
	c := (&cli.Cli{}).WithWriter(out).WithErrWriter(out).WithSchemaProvider(fixed{schema.Tables{tb}, prov})
	cmd := clischema.GenerateCmd{DB: "testdb", PkgModel: "model", PkgSchema: "schema"}
	if types != nil || drop != nil || fields != nil {
		fn := filepath.Join(t.TempDir(), "types.json")
		js, _ := json.Marshal(map[string]any{"types": types, "fields": fields, "drop_columns": drop})
		if err := os.WriteFile(fn, js, 0600); err != nil {
			t.Fatal(err)
		}
		cmd.TypesDef = fn
	}
	if err := cmd.Run(c); err != nil {
		return nil, err
	}
	return parseGen(out.String())
}

func parseGen(text string) (*generated, error) {
	g := &generated{text: text}
	for i, part := range strings.Split(text, "// DO NOT EDIT!") {
		if i == 0 {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), "gen.go", "// DO NOT EDIT!"+part, parser.ParseComments)
		if err != nil {
			return nil, fmt.Errorf("generated text does not parse: %v", err)
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.TypeSpec:
				st, ok := x.Type.(*ast.StructType)
				if ok && !strings.HasSuffix(x.Name.Name, "Result") {
					for _, fl := range st.Fields.List {
						for _, nm := range fl.Names {
							g.fields = append(g.fields, nm.Name)
							g.goTypes = append(g.goTypes, types.ExprString(fl.Type))
							g.tags = append(g.tags, fl.Tag.Value)
						}
					}
				}
			case *ast.CallExpr:
				if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Scan" {
					for _, a := range x.Args {
						g.scanned = append(g.scanned, strings.TrimPrefix(types.ExprString(a), "&m."))
					}
				}
			case *ast.CompositeLit:
				tn := types.ExprString(x.Type)
				for _, e := range x.Elts {
					kv, ok := e.(*ast.KeyValueExpr)
					if !ok {
						continue
					}
					k := types.ExprString(kv.Key)
					if tn == "xdbschema.TableInfo" && k == "Columns" {
						for _, ce := range kv.Value.(*ast.CompositeLit).Elts {
							s, _ := strconv.Unquote(ce.(*ast.BasicLit).Value)
							g.cols = append(g.cols, s)
						}
					}
					if tn == "xdbschema.Column" && k == "Name" {
						s, _ := strconv.Unquote(kv.Value.(*ast.BasicLit).Value)
						g.defs = append(g.defs, s)
					}
				}
			}
			return true
		})
	}
	return g, nil
}
