package xdb_test

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/effective-security/xdb"
)

// qbModel is what a caller of the parameter builder expects.
type qbModel struct {
	name   string
	set    map[uint32]bool
	enums  [][2]int64
	args   []any
	flags  []int32
	nulls  []string
	limit  uint32
	offset uint32
	cursor any
	log    []string
}

func (m *qbModel) reset() {
	*m = qbModel{name: m.name, set: map[uint32]bool{}, log: append(m.log, "Reset")}
}

var qbPositions = []uint32{0, 1, 2, 3, 5, 7, 31, 32, 33, 62, 63, 64, 65, 127, 128, 1 << 31, 1<<32 - 1}

// step does one random builder call on b and the model; a non-empty result is a disagreement.
func (m *qbModel) step(v *vrun, b *xdb.QueryParamsBuilder) string {
	pos := qbPositions[v.r.Intn(len(qbPositions))]
	if v.r.Intn(3) > 0 {
		pos = uint32(v.r.Intn(8))
	}
	paged := m.limit > 0
	lim := []uint32{0, 0, 1, 2, 10, 500, 1<<32 - 1}[v.r.Intn(7)]
	off := []uint32{0, 0, 1, 10, 1<<32 - 1}[v.r.Intn(5)]
	size := lim
	if size == 0 {
		size = xdb.DefaultPageSize
	}
	val := []any{nil, 1, "a", "", uint32(7), []byte("x"), 1.5, int64(-1)}[v.r.Intn(8)]
	num := []int32{0, 1, 2, -1, 1<<31 - 1, -1 << 31}[v.r.Intn(6)]
	var what string
	var refuse bool
	var do func()
	k := v.r.Intn(20)
	switch {
	case k < 5:
		what, refuse = fmt.Sprintf("Set(%d,%#v)", pos, val), paged || pos > 63
		do = func() { b.Set(pos, val) }
		if !refuse {
			m.set[pos] = true
			m.args = append(m.args, val)
		}
	case k < 9:
		what, refuse = fmt.Sprintf("SetEnum(%d,%d)", pos, num), paged || pos > 63
		do = func() { b.SetEnum(pos, num) }
		if !refuse {
			m.set[pos] = true
			m.enums = append(m.enums, [2]int64{int64(pos), int64(num)})
		}
	case k < 11:
		n := v.r.Intn(4)
		var as []any
		for i := 0; i < n; i++ {
			as = append(as, i, val)
		}
		what, refuse = fmt.Sprintf("AddArgs(%#v)", as), paged
		do = func() { b.AddArgs(as...) }
		if !refuse {
			m.args = append(m.args, as...)
		}
	case k < 13:
		what, refuse = fmt.Sprintf("SetPage(%d,%d)", lim, off), paged
		do = func() { b.SetPage(lim, off) }
		if !refuse {
			m.limit, m.offset = size, off
			m.args = append(m.args, size, off)
		}
	case k < 14:
		what, refuse = fmt.Sprintf("SetCursor(%d,%d,%#v)", lim, pos, val), paged || pos > 63
		do = func() { b.SetCursor(lim, pos, val) }
		if !refuse {
			m.set[pos] = true
			m.limit, m.cursor = size, val
			m.args = append(m.args, val, size)
		}
	case k < 16:
		fl := make([]int32, v.r.Intn(3))
		for i := range fl {
			fl[i] = int32(v.r.Intn(4)) - 1
		}
		what, do = fmt.Sprintf("SetFlags(%v)", fl), func() { b.SetFlags(fl...) }
		m.flags = fl
	case k < 18:
		cols := append([]string(nil), []string{"id", "name", "b", "a", "zz", "c1"}[:v.r.Intn(7)]...)
		v.r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
		what, do = fmt.Sprintf("SetNullColums(%v)", cols), func() { b.SetNullColums(cols) }
		m.nulls = append([]string(nil), cols...)
	case k < 19 && v.r.Intn(3) == 0:
		do = func() { b.Reset() }
		m.reset()
		do()
		return ""
	default:
		return ""
	}
	m.log = append(m.log, what)
	if p := mustPanic(do); p != refuse {
		return fmt.Sprintf("%s: refused=%v, want %v", what, p, refuse)
	}
	return ""
}

// check compares everything a caller can ask for
func (m *qbModel) check(b *xdb.QueryParamsBuilder) string {
	if !sameList(b.Args(), m.args) {
		return fmt.Sprintf("Args() = %#v, want %#v", b.Args(), m.args)
	}
	for _, p := range qbPositions {
		if b.IsSet(p) != m.set[p] {
			return fmt.Sprintf("IsSet(%d) = %v", p, b.IsSet(p))
		}
		want, has := int32(0), false
		for _, e := range m.enums {
			if e[0] == int64(p) && !has {
				want, has = int32(e[1]), true
			}
		}
		if g, ok := b.GetEnum(p); ok != has || g != want {
			return fmt.Sprintf("GetEnum(%d) = %d, %v, want %d, %v", p, g, ok, want, has)
		}
	}
	if l, o := b.Page(); l != m.limit || o != m.offset {
		return fmt.Sprintf("Page() = %d, %d, want %d, %d", l, o, m.limit, m.offset)
	}
	if l, c := b.Cursor(); l != m.limit || !reflect.DeepEqual(c, m.cursor) {
		return fmt.Sprintf("Cursor() = %d, %v, want %d, %v", l, c, m.limit, m.cursor)
	}
	if fmt.Sprint(b.GetFlags()) != fmt.Sprint(m.flags) {
		return fmt.Sprintf("GetFlags() = %v, want %v", b.GetFlags(), m.flags)
	}
	if fmt.Sprint(b.GetNullColumns()) != fmt.Sprint(m.nulls) {
		return fmt.Sprintf("GetNullColumns() = %v, want %v", b.GetNullColumns(), m.nulls)
	}
	return ""
}

func sameList(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !reflect.DeepEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

// key is everything the name depends on
func (m *qbModel) key(sorted bool) string {
	var s strings.Builder
	fmt.Fprintf(&s, "%q", m.name)
	for p := uint32(0); p < 64; p++ {
		if m.set[p] {
			fmt.Fprintf(&s, ",%d", p)
		}
	}
	fmt.Fprintf(&s, ";%v;%v;", m.enums, m.flags)
	if m.cursor != nil {
		s.WriteString("c")
	} else if m.offset > 0 {
		s.WriteString("o")
	}
	n := append([]string(nil), m.nulls...)
	if sorted {
		for i := range n {
			for j := i; j > 0 && n[j] < n[j-1]; j-- {
				n[j], n[j-1] = n[j-1], n[j]
			}
		}
	}
	fmt.Fprintf(&s, ";%q", n)
	return s.String()
}
