package xsql_test

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/effective-security/xdb/xsql"
)

// ref is an independent reading of the builder: clauses in a fixed order, fragments of one clause in call order,
// each fragment with its own arguments.
type refFrag struct {
	sep  string // between this fragment and the one before it in the same clause
	text string
	args []any
}

type refClause struct {
	key   int
	word  string
	wargs []any
	frags []refFrag
}

type ref struct {
	cl   map[int]*refClause
	cur  int
	dest []any
	ops  []string
}

const (
	kStart = 1000 * (iota + 1)
	kWith
	kInsert
	kFieldsOpen
	kFields
	kValuesOpen
	kValues
	kValuesClose
	kDelete
	kUpdate
	kSet
	kSelect
	kFrom
	kWhere
	kGroup
	kHaving
	kUnion
	kOrder
	kLimit
	kOffset
	kReturning
)

func newRef() *ref { return &ref{cl: map[int]*refClause{}} }

func (r *ref) clone() *ref {
	c := newRef()
	c.cur = r.cur
	c.dest = append([]any{}, r.dest...)
	c.ops = append([]string{}, r.ops...)
	for k, v := range r.cl {
		n := *v
		n.frags = append([]refFrag{}, v.frags...)
		n.wargs = append([]any{}, v.wargs...)
		c.cl[k] = &n
	}
	return c
}

func (r *ref) keys() []int {
	var ks []int
	for k := range r.cl {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func (r *ref) last() int {
	ks := r.keys()
	if len(ks) == 0 {
		return kStart - 1
	}
	return ks[len(ks)-1]
}

func (r *ref) add(key int, word, sep, text string, args []any) {
	c := r.cl[key]
	r.cur = key
	if c == nil {
		c = &refClause{key: key, word: word}
		r.cl[key] = c
	}
	c.frags = append(c.frags, refFrag{sep, text, append([]any{}, args...)})
}

func (r *ref) bare(key int, word string, args []any) {
	r.cur = key
	if c := r.cl[key]; c != nil {
		if len(args) > 0 {
			c.wargs = args
		}
		return
	}
	r.cl[key] = &refClause{key: key, word: word, wargs: append([]any{}, args...)}
}

// text with single blanks, and the arguments in the order of the text
func (r *ref) render() (string, []any) {
	var parts []string
	args := []any{}
	for _, k := range r.keys() {
		c := r.cl[k]
		s := c.word
		args = append(args, c.wargs...)
		for i, f := range c.frags {
			if i == 0 {
				s += " " + f.text
			} else {
				s += f.sep + f.text
			}
			args = append(args, f.args...)
		}
		parts = append(parts, s)
	}
	return blanks(strings.Join(parts, " ")), args
}

func blanks(s string) string { return strings.Join(strings.Fields(s), " ") }

// pgText numbers the placeholders the way Postgres wants them.
func pgText(s string) string {
	out, n := "", 0
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s) && s[i+1] == '?':
			out += "?"
			i++
		case s[i] == '?':
			n++
			out += "$" + strconv.Itoa(n)
		default:
			out += s[i : i+1]
		}
	}
	return out
}

type gen struct {
	r      *rand.Rand
	n      int
	escape bool // fragments with arguments may contain an escaped question mark
	d      xsql.SQLDialect
	cells  []*int
}

func (g *gen) id() string { g.n++; return fmt.Sprintf("c%d", g.n) }

// a fragment with as many placeholders as arguments
func (g *gen) frag() (string, []any) {
	k := g.r.Intn(4)
	if k == 3 {
		k = 0
	}
	s := g.id()
	var args []any
	for i := 0; i < k; i++ {
		g.n++
		switch g.r.Intn(4) {
		case 0:
			s += fmt.Sprintf(" = ? é%d", g.n)
		case 1:
			s += fmt.Sprintf("=?+%d", g.n)
		case 2:
			s += fmt.Sprintf(" 'a\\b' (?,%d)", g.n)
		default:
			s += "?"
		}
		args = append(args, g.n*1000+i)
		if g.escape && g.r.Intn(4) == 0 {
			s += []string{" @\\? j", "\\?\\?", "\\\\? x", "\xff\\?"}[g.r.Intn(4)]
		}
	}
	return s, args
}

// start begins a statement and its reference
func (g *gen) start(kind int) (xsql.Builder, *ref) {
	m := newRef()
	switch kind {
	case 0:
		f, a := g.frag()
		m.add(kSelect, "SELECT", ", ", f, a)
		m.ops = append(m.ops, fmt.Sprintf("Select(%q,%v)", f, a))
		return g.d.Select(f, a...), m
	case 1:
		f, a := g.frag()
		m.add(kFrom, "FROM", ", ", f, a)
		m.ops = append(m.ops, fmt.Sprintf("From(%q,%v)", f, a))
		return g.d.From(f, a...), m
	case 2:
		t := g.id()
		m.bare(kFieldsOpen, "(", nil)
		m.bare(kValuesOpen, ") VALUES (", nil)
		m.bare(kValuesClose, ")", nil)
		m.add(kInsert, "INSERT INTO", ", ", t, nil)
		m.cur = kFields
		m.ops = append(m.ops, fmt.Sprintf("InsertInto(%q)", t))
		return g.d.InsertInto(t), m
	case 3:
		t := g.id()
		m.add(kUpdate, "UPDATE", ", ", t, nil)
		m.ops = append(m.ops, fmt.Sprintf("Update(%q)", t))
		return g.d.Update(t), m
	case 4:
		t := g.id()
		m.add(kDelete, "DELETE FROM", ", ", t, nil)
		m.ops = append(m.ops, fmt.Sprintf("DeleteFrom(%q)", t))
		return g.d.DeleteFrom(t), m
	default:
		m.bare(kSelect, "TRUNCATE", nil)
		m.ops = append(m.ops, "New(TRUNCATE)")
		return g.d.New("TRUNCATE"), m
	}
}

func (g *gen) sub(depth int) (xsql.Builder, *ref) {
	save := g.d
	if g.r.Intn(3) == 0 {
		g.d = xsql.Postgres
	}
	b, m := g.start(g.r.Intn(2))
	for i := g.r.Intn(4); i > 0; i-- {
		g.step(b, m, depth+1, 0)
	}
	g.d = save
	return b, m
}

// step makes one more call on the statement and on its reference
func (g *gen) step(b xsql.Builder, m *ref, depth, kind int) {
	note := func(f string, a ...any) { m.ops = append(m.ops, fmt.Sprintf(f, a...)) }
	ops := []string{"where", "where", "in", "order", "returning", "limit", "offset", "clause", "expr", "expr", "sub", "paginate"}
	switch kind {
	case 0, 1:
		ops = append(ops, "select", "select", "from", "from", "join", "group", "having", "union", "with", "to")
	case 2:
		ops = []string{"set", "set", "setexpr", "returning", "clause", "row", "row", "expr"}
	case 3:
		ops = append(ops, "set", "set", "setexpr")
	case 4:
	default:
		ops = []string{"expr", "expr", "clause"}
	}
	op := ops[g.r.Intn(len(ops))]
	f, a := g.frag()
	switch op {
	case "where":
		m.add(kWhere, "WHERE", " AND ", f, a)
		note("Where(%q,%v)", f, a)
		b.Where(f, a...)
	case "in":
		if m.cl[kWhere] == nil {
			return
		}
		var in []any
		for i := 0; i < g.r.Intn(4); i++ {
			g.n++
			in = append(in, g.n)
		}
		m.add(kWhere, "", " ", "IN ("+strings.TrimSuffix(strings.Repeat("?,", len(in)), ",")+")", in)
		note("In(%v)", in)
		b.In(in...)
	case "order":
		if g.r.Intn(2) == 0 {
			x, y := g.id(), g.id()
			m.add(kOrder, "ORDER BY", ", ", x+", "+y, nil)
			note("OrderBy(%q,%q)", x, y)
			b.OrderBy(x, y)
		} else {
			x := g.id()
			m.add(kOrder, "ORDER BY", ", ", x, nil)
			note("OrderBy(%q)", x)
			b.OrderBy(x)
		}
	case "returning":
		x := g.id()
		m.add(kReturning, "RETURNING", ", ", x, nil)
		note("Returning(%q)", x)
		b.Returning(x)
	case "limit":
		g.n++
		m.bare(kLimit, "LIMIT ?", []any{g.n})
		note("Limit(%d)", g.n)
		b.Limit(g.n)
	case "offset":
		g.n++
		m.bare(kOffset, "OFFSET ?", []any{g.n})
		note("Offset(%d)", g.n)
		b.Offset(g.n)
	case "paginate":
		p, s := g.r.Intn(4)-1, g.r.Intn(4)-1
		note("Paginate(%d,%d)", p, s)
		b.Paginate(p, s)
		if p < 1 {
			p = 1
		}
		if s < 1 {
			s = 1
		}
		if p > 1 {
			m.bare(kOffset, "OFFSET ?", []any{(p - 1) * s})
		}
		m.bare(kLimit, "LIMIT ?", []any{s})
	case "clause":
		x := strings.ToUpper(f)
		k := m.last() + 1
		m.bare(k, x, a)
		note("Clause(%q,%v)", x, a)
		b.Clause(x, a...)
	case "expr":
		if m.cur == kLimit || m.cur == kOffset || m.cur == kWith || (kind == 2 && m.cur < kValuesClose) {
			return
		}
		m.add(m.cur, "", ", ", f, a)
		note("Expr(%q,%v)", f, a)
		b.Expr(f, a...)
	case "select":
		m.add(kSelect, "SELECT", ", ", f, a)
		note("Select(%q,%v)", f, a)
		b.Select(f, a...)
	case "from":
		m.add(kFrom, "FROM", ", ", f, a)
		note("From(%q,%v)", f, a)
		b.From(f, a...)
	case "join":
		if m.cl[kFrom] == nil {
			return
		}
		t, o := g.id(), g.id()
		k := g.r.Intn(4)
		m.add(kFrom, "", " ", []string{"JOIN ", "LEFT JOIN ", "RIGHT JOIN ", "FULL JOIN "}[k]+t+" ON ("+o+")", nil)
		note("join%d(%q,%q)", k, t, o)
		[]func(string, string) xsql.Builder{b.Join, b.LeftJoin, b.RightJoin, b.FullJoin}[k](t, o)
	case "group":
		x := g.id()
		m.add(kGroup, "GROUP BY", ", ", x, nil)
		note("GroupBy(%q)", x)
		b.GroupBy(x)
	case "having":
		m.add(kHaving, "HAVING", " AND ", f, a)
		note("Having(%q,%v)", f, a)
		b.Having(f, a...)
	case "set":
		x := g.id()
		g.n++
		note("Set(%q,%d)", x, g.n)
		g.setRef(m, kind, x, "?", []any{g.n})
		b.Set(x, g.n)
	case "setexpr":
		x := g.id()
		note("SetExpr(%q,%q,%v)", x, f, a)
		g.setRef(m, kind, x, f, a)
		b.SetExpr(x, f, a...)
	case "row":
		n := 1 + g.r.Intn(2)
		first := m.cl[kValues] == nil
		row := b.NewRow()
		if !first {
			m.add(kValues, "", " ), (", "", nil)
		}
		for i := 0; i < n; i++ {
			x := g.id()
			g.n++
			if first {
				m.add(kFields, "", ", ", x, nil)
				m.add(kValues, "", ", ", "?", []any{g.n})
			} else {
				sep := ""
				if i > 0 {
					sep = ", "
				}
				m.add(kValues, "", sep, " ?", []any{g.n})
				m.cl[kValues].frags[len(m.cl[kValues].frags)-1].text = "?"
				if i == 0 {
					m.cl[kValues].frags[len(m.cl[kValues].frags)-1].text = " ?"
				}
			}
			note("row.Set(%q,%d) first=%v", x, g.n, first)
			row = row.Set(x, g.n)
		}
	case "to":
		var ds []any
		for i := g.r.Intn(3); i >= 0; i-- {
			p := new(int)
			*p = len(m.dest) + len(ds)
			ds = append(ds, p)
		}
		m.dest = append(m.dest, ds...)
		note("To(%d)", len(ds))
		b.To(ds...)
	case "sub", "union", "with":
		if depth > 1 {
			return
		}
		q, qm := g.sub(depth)
		qt, qa := qm.render()
		switch op {
		case "sub":
			if m.cur == kLimit || m.cur == kOffset || m.cur == kWith {
				return
			}
			pre := []string{"", "(", "EXISTS ("}[g.r.Intn(3)]
			suf := ")"
			if pre == "" {
				suf = ""
			}
			sep := ", "
			if m.cur == kWhere {
				sep = " AND "
			}
			note("SubQuery(%q,%q,%v)", pre, suf, qm.ops)
			m.add(m.cur, "", sep, pre+qt+suf, qa)
			b.SubQuery(pre, suf, q)
		case "union":
			all := g.r.Intn(2) == 0
			k := kUnion
			for _, x := range m.keys() {
				if x >= k && x < kOrder {
					k = x + 1
				}
			}
			w := "UNION "
			if all {
				w = "UNION ALL "
			}
			note("Union(%v,%v)", all, qm.ops)
			m.bare(k, w+qt, qa)
			b.Union(all, q)
		case "with":
			x := g.id()
			note("With(%q,%v)", x, qm.ops)
			m.add(kWith, "WITH", ", ", x+" AS ("+qt+")", qa)
			b.With(x, q)
		}
	}
}

func (g *gen) setRef(m *ref, kind int, field, expr string, args []any) {
	if kind == 2 {
		m.add(kFields, "", ", ", field, nil)
		m.add(kValues, "", ", ", expr, args)
	} else {
		m.add(kSet, "SET", ", ", field+"="+expr, args)
	}
}

func same(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// differs compares a statement with its reference; pg tells whether placeholders are numbered
func differs(b xsql.Builder, m *ref, pg bool) string {
	text, args := m.render()
	if pg {
		text = pgText(text)
	}
	got := b.String()
	if blanks(got) != text {
		return fmt.Sprintf("text %q, want (up to blanks) %q", got, text)
	}
	if !same(b.Args(), args) {
		return fmt.Sprintf("arguments %v, want %v, of %q", b.Args(), args, got)
	}
	if !same(b.Dest(), m.dest) {
		return fmt.Sprintf("%d scan targets, want %d in call order", len(b.Dest()), len(m.dest))
	}
	if again := b.String(); again != got {
		return fmt.Sprintf("text %q, then %q", got, again)
	}
	return ""
}
