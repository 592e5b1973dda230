package print

import (
	"io"

	"github.com/effective-security/xdb/schema"
)

// ---- printing (C29) ----

//govc:abstract
//govc:text
func txt(b []byte) string { return "" }

// what was written to a writer so far
//
//govc:ghost
func GVOut(w io.Writer) string { return "" }

// the object printed last in its tabular form, and whether there was one

//govc:ghost
func GVTabled(w io.Writer) any { return nil }

//govc:iface (io.Writer).Write
func ifWrite(w io.Writer, p []byte, n int, err error) {
	gvModGhost("GVOut", w)
	gvEns("", GVOut(w) == gvOld(func() string { return GVOut(w) })+txt(p))
}

// the encodings of a value: whether it has one, and the text

//govc:abstract
func jsonOK(v any) bool { return false }

//govc:abstract
func jsonText(v any, prefix, indent string) string { return "" }

//govc:abstract
func yamlOK(v any) bool { return false }

// yaml.Marshal panics for some of the values it cannot encode
//
//govc:abstract
func yamlPanics(v any) bool { return false }

//govc:abstract
func yamlText(v any) string { return "" }

//govc:extern encoding/json.MarshalIndent
func extMarshalIndent(v any, prefix, indent string, r []byte, err error) {
	gvEns("", gvFresh(r))
	gvEns("", gvIff(err == nil, jsonOK(v)) && gvImp(err == nil, txt(r) == jsonText(v, prefix, indent)))
}

//govc:extern gopkg.in/yaml.v3.Marshal
func extYamlMarshal(v any, r []byte, err error) {
	gvPanics(!yamlOK(v) && yamlPanics(v))
	gvEns("", gvFresh(r))
	gvEns("", gvIff(err == nil, yamlOK(v)) && gvImp(err == nil, txt(r) == yamlText(v)))
}

//govc:extern github.com/cockroachdb/errors.WithMessage
func extWithMessage(err error, msg string, r error) { gvEns("", gvIff(r == nil, err == nil)) }

//govc:extern github.com/cockroachdb/errors.Errorf
func extErrorf(format string, args []any, err error) { gvEns("", err != nil) }

func wrote(w io.Writer, text string) bool {
	return GVOut(w) == gvOld(func() string { return GVOut(w) })+text
}

func wroteNothing(w io.Writer) bool { return GVOut(w) == gvOld(func() string { return GVOut(w) }) }

// the JSON form of a value is written, or nothing and an error returned
func jsonWritten(w io.Writer, value any, err error) bool {
	return gvIff(err == nil, jsonOK(value)) && gvImp(err == nil, wrote(w, jsonText(value, "", "  ")+"\n")) && gvImp(err != nil, wroteNothing(w))
}

func yamlWritten(w io.Writer, value any, err error) bool {
	return gvIff(err == nil, yamlOK(value)) && gvImp(err == nil, wrote(w, yamlText(value))) && gvImp(err != nil, wroteNothing(w))
}

//govc:contract JSON
//govc:prop C29
func spJSON(w io.Writer, value any, err error) {
	gvReq(w != nil)
	gvModGhost("GVOut", w)
	gvEns("a value that JSON cannot encode is an error", gvIff(err == nil, jsonOK(value)))
	gvEns("exactly the JSON form is written, and nothing with an error", jsonWritten(w, value, err))
}

//govc:contract Yaml
//govc:prop C29
func spYaml(w io.Writer, value any, err error) {
	gvReq(w != nil)
	gvModGhost("GVOut", w)
	gvEns("a value that YAML cannot encode is an error", gvIff(err == nil, yamlOK(value)))
	gvEns("exactly the YAML form is written, and nothing with an error", yamlWritten(w, value, err))
}

// the tabular forms, known only by what they print

func tabular(w io.Writer, v any) {
	gvModGhost("GVTabled", w)
	gvModGhost("GVOut", w)
	gvEns("", GVTabled(w) == v)
}

//govc:extern github.com/effective-security/xdb/pkg/print.SchemaTable
func extSchemaTable(w io.Writer, t *schema.Table) { tabular(w, t) }

//govc:extern github.com/effective-security/xdb/pkg/print.SchemaTables
func extSchemaTables(w io.Writer, t schema.Tables) { tabular(w, t) }

//govc:extern github.com/effective-security/xdb/pkg/print.SchemaIndexes
func extSchemaIndexes(w io.Writer, t schema.Indexes) { tabular(w, t) }

//govc:extern github.com/effective-security/xdb/pkg/print.SchemaForeingKeys
func extSchemaForeignKeys(w io.Writer, t schema.ForeignKeys) { tabular(w, t) }

// hasTable: the objects with a tabular form
func hasTable(v any) bool {
	_, a := v.(*schema.Table)
	_, b := v.(schema.Tables)
	_, c := v.(schema.ForeignKeys)
	_, d := v.(schema.Indexes)
	return a || b || c || d
}

func asTable(w io.Writer, v any) bool { return GVTabled(w) == v }

func noTable(w io.Writer) bool { return GVTabled(w) == gvOld(func() any { return GVTabled(w) }) }

//govc:contract Object
//govc:prop C29
func spObject(w io.Writer, format string, value any, err error) {
	gvReq(w != nil)
	gvModGhost("GVOut", w)
	gvModGhost("GVTabled", w)
	asked := format == "json" || format == "yaml"
	gvEns("JSON when asked for", gvImp(format == "json", jsonWritten(w, value, err)))
	gvEns("YAML when asked for", gvImp(format == "yaml", yamlWritten(w, value, err)))
	gvEns("the tabular form when no encoding is asked for and there is one", gvImp(!asked && hasTable(value), asTable(w, value) && err == nil))
	gvEns("and only then", gvImp(asked || !hasTable(value), noTable(w)))
	gvEns("an object without a tabular form is encoded", gvImp(!asked && !hasTable(value), jsonWritten(w, value, err)))
}

//govc:contract Print
//govc:prop C29
func spPrint(w io.Writer, value any) {
	gvReq(w != nil)
	gvModGhost("GVOut", w)
	gvModGhost("GVTabled", w)
	gvEns("the tabular form when there is one", gvIte(hasTable(value), asTable(w, value), noTable(w)))
	gvEns("the JSON form otherwise", gvImp(!hasTable(value), gvIte(jsonOK(value), wrote(w, jsonText(value, "", "  ")+"\n"), wroteNothing(w))))
}
