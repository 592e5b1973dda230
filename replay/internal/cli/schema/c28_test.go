package schema_test

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/effective-security/xdb/schema"
)

func TestVerifC28(t *testing.T) {
	v := vnew(t)
	pool := []string{"id", "name", "Name", "org_id", "data", "created_at", "a", "b", "c", "A"}
	for i := 0; i < 300*v.deep; i++ {
		n := v.r.Intn(9)
		tb := &schema.Table{Schema: "dbo", Name: "thing", SchemaName: "dbo.thing"}
		perm := v.r.Perm(len(pool))
		var want, wantF []string
		drop := []string{"zzz"}
		dropped := map[string]bool{}
		for _, p := range pool {
			if v.r.Intn(3) == 0 {
				drop = append(drop, p)
				dropped[p] = true
			}
		}
		if v.r.Intn(4) == 0 {
			drop, dropped = nil, map[string]bool{}
		}
		fields := map[string]string{}
		for j := 0; j < n; j++ {
			nm := pool[perm[j]]
			c := &schema.Column{Name: nm, Type: "text", Nullable: v.r.Intn(2) == 0, Position: uint32(j + 1), SchemaName: "dbo.thing." + nm}
			fn := "F" + nm + "x"
			fields[c.SchemaName] = fn
			tb.Columns = append(tb.Columns, c)
			if !dropped[nm] {
				want = append(want, nm)
				wantF = append(wantF, fn)
			}
		}
		v.try("case:drop", []any{tb.Columns.Names(), drop}, func() string {
			g, err := generate(t, "postgres", tb, nil, fields, drop)
			if err != nil {
				return err.Error()
			}
			for _, x := range []struct {
				what      string
				got, want []string
			}{{"TableInfo columns", g.cols, want}, {"model fields", g.fields, wantF}, {"scanned fields", g.scanned, wantF}, {"column definitions", g.defs, want}} {
				if !(len(x.got) == 0 && len(x.want) == 0) && !reflect.DeepEqual(x.got, x.want) {
					return fmt.Sprintf("%s: %v, expected %v", x.what, x.got, x.want)
				}
			}
			return ""
		})
	}
}
