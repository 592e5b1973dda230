package xdb_test

import (
	"fmt"
	"testing"

	"github.com/effective-security/xdb"
)

func TestVerifC10(t *testing.T) {
	v := vnew(t)
	for i := 0; i < 3000*v.deep; i++ {
		name := []string{"q", "", "List_x"}[i%3]
		b := xdb.NewQueryParams(name)
		other := xdb.NewQueryParams(name)
		m := &qbModel{name: name, set: map[uint32]bool{}}
		om := &qbModel{name: name, set: map[uint32]bool{}}
		what := ""
		n := 1 + v.r.Intn(14)
		for k := 0; k < n && what == ""; k++ {
			if what = m.step(v, b); what == "" {
				what = m.check(b)
			}
			if what == "" && k%4 == 3 {
				if what = om.step(v, other); what == "" {
					what = om.check(other)
				}
				if what == "" {
					what = m.check(b)
				}
			}
			if v.r.Intn(8) == 0 {
				_ = b.Name()
			}
		}
		v.try("calls", m.log, func() string { return what })
	}
	// Reset gives the state of a fresh builder, which then behaves like one
	for i := 0; i < 500*v.deep; i++ {
		b := xdb.NewQueryParams("q")
		m := &qbModel{name: "q", set: map[uint32]bool{}}
		for k := 0; k < 8; k++ {
			_ = m.step(v, b)
			if v.r.Intn(4) == 0 {
				_ = b.Name()
			}
		}
		b.Reset()
		m.reset()
		v.try("reset", m.log, func() string {
			if s := m.check(b); s != "" {
				return "after Reset: " + s
			}
			if b.GetFlags() != nil || b.GetNullColumns() != nil || b.Args() != nil {
				return "after Reset a list is not nil"
			}
			if g, w := b.Name(), xdb.NewQueryParams("q").Name(); g != w {
				return fmt.Sprintf("after Reset the name is %q, a fresh one has %q", g, w)
			}
			for k := 0; k < 6; k++ {
				if s := m.step(v, b); s != "" {
					return s
				}
				if s := m.check(b); s != "" {
					return s
				}
			}
			return ""
		})
	}
}
