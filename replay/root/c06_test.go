package xdb_test

import (
	"fmt"
	"sort"
	"testing"

	"github.com/effective-security/xdb"
	"github.com/lib/pq"
)

func idNums(l xdb.IDArray) []uint64 {
	r := make([]uint64, 0, len(l))
	for i := range l {
		r = append(r, l[i].UInt64())
	}
	return r
}

func distinctNums(v *vrun, n int) []uint64 {
	seen := map[uint64]bool{}
	r := make([]uint64, 0, n)
	for len(r) < n {
		x := uint64(v.r.Intn(12)) + 1
		if v.r.Intn(5) == 0 {
			x = v.r.Uint64()
		}
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

func eqNums(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func hasU(a []uint64, x uint64) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}

func TestVerifC06(t *testing.T) {
	v := vnew(t)
	for h := 0; h < 400*v.deep; h++ {
		a, b := distinctNums(v, v.r.Intn(6)), distinctNums(v, v.r.Intn(6))
		la, lb := xdb.NewIDArray(a), xdb.NewIDArray(b)
		v.try("lists", fmt.Sprint(a, b), func() string {
			if !eqNums(idNums(la), a) {
				return fmt.Sprint("NewIDArray ", idNums(la))
			}
			dup := append(append([]uint64{}, a...), b...)
			ld := xdb.NewIDArray(dup)
			nd := idNums(ld)
			for _, x := range dup {
				c := 0
				for _, y := range nd {
					if y == x {
						c++
					}
				}
				if c != 1 {
					return fmt.Sprint("NewIDArray with duplicates ", dup, nd)
				}
			}
			for _, x := range nd {
				if !hasU(dup, x) {
					return fmt.Sprint("NewIDArray adds ", x)
				}
			}
			// union, order, inputs unchanged
			u := la.Concat(lb)
			nu := idNums(u)
			if !eqNums(idNums(la), a) || !eqNums(idNums(lb), b) {
				return "Concat changed an input"
			}
			if len(nu) < len(a) || !eqNums(nu[:len(a)], a) {
				return fmt.Sprint("Concat order ", nu)
			}
			for i, x := range nu {
				if !hasU(a, x) && !hasU(b, x) || hasU(nu[:i], x) {
					return fmt.Sprint("Concat content ", nu)
				}
			}
			for _, x := range b {
				if !hasU(nu, x) {
					return fmt.Sprint("Concat lost ", x)
				}
			}
			var tail []uint64
			for _, x := range nu[len(a):] {
				tail = append(tail, x)
			}
			var want []uint64
			for _, x := range b {
				if !hasU(a, x) {
					want = append(want, x)
				}
			}
			if !eqNums(tail, want) {
				return fmt.Sprint("Concat order of the argument ", nu)
			}
			// a list that itself holds duplicates
			rep := append(append(xdb.IDArray{}, lb...), lb...)
			nrep := len(rep)
			if ur := idNums(la.Concat(rep)); !eqNums(ur, nu) || len(rep) != nrep {
				return fmt.Sprint("Concat of a list with duplicates ", idNums(rep), " gave ", ur)
			}
			// overlaps, contains
			ov := false
			for _, x := range a {
				ov = ov || hasU(b, x)
			}
			if la.Overlaps(lb) != ov || lb.Overlaps(la) != ov {
				return "Overlaps"
			}
			for x := uint64(0); x < 14; x++ {
				if la.Contains(xdb.NewID(x)) != hasU(a, x) {
					return fmt.Sprint("Contains ", x)
				}
				r := la.Add(xdb.NewID(x))
				w := append([]uint64{}, a...)
				if !hasU(a, x) {
					w = append(w, x)
				}
				if !eqNums(idNums(r), w) || !eqNums(idNums(la), a) {
					return fmt.Sprint("Add ", x, idNums(r))
				}
			}
			// lists that share an array
			l1 := la.Add(xdb.NewID(1001))
			l2 := l1.Add(xdb.NewID(1002))
			l3 := l1.Add(xdb.NewID(1003))
			l4 := l1.Concat(xdb.NewIDArray([]uint64{1004, 1005}))
			l5 := l1[:len(l1)-1].Concat(xdb.NewIDArray([]uint64{1006}))
			base := append(append([]uint64{}, a...), 1001)
			if !eqNums(idNums(l1), base) || !eqNums(idNums(l2), append(append([]uint64{}, base...), 1002)) || !eqNums(idNums(l3), append(append([]uint64{}, base...), 1003)) ||
				!eqNums(idNums(l4), append(append([]uint64{}, base...), 1004, 1005)) || !eqNums(idNums(l5), append(append([]uint64{}, a...), 1006)) {
				return fmt.Sprint("lists with a common ancestor disturb each other ", idNums(l1), idNums(l2), idNums(l3), idNums(l4), idNums(l5))
			}
			// listings
			if !eqNums(la.List(), a) {
				return fmt.Sprint("List ", la.List())
			}
			st := la.Strings()
			i64 := la.Int64Array()
			raw := xdb.Int64Array(a)
			if len(st) != len(a) || len(i64) != len(a) || len(raw) != len(a) {
				return "listing length"
			}
			for i, x := range a {
				if st[i] != fmt.Sprint(x) || uint64(i64[i]) != x || uint64(raw[i]) != x {
					return fmt.Sprint("listing ", st, i64, raw)
				}
			}
			back := xdb.IDArrayFromStrings(append(append([]string{"", "0", "x"}, st...), st...))
			if !eqNums(idNums(back), a) {
				return fmt.Sprint("from texts ", idNums(back))
			}
			// SQL
			val, err := la.Value()
			if err != nil || (val == nil) != (len(a) == 0) {
				return fmt.Sprint("Value ", val, err)
			}
			for _, old := range []xdb.IDArray{nil, xdb.NewIDArray([]uint64{5, 6, 7})} {
				d := old
				if err := d.Scan(val); err != nil || !eqNums(idNums(d), a) {
					return fmt.Sprint("Scan(Value) ", idNums(d), err)
				}
				d = old
				if err := d.Scan(nil); err != nil || len(d) != 0 {
					return fmt.Sprint("Scan(nil) ", idNums(d), err)
				}
				if len(a) > 0 {
					d = old
					if err := d.Scan([]byte(val.(string))); err != nil || !eqNums(idNums(d), a) {
						return fmt.Sprint("Scan(bytes) ", idNums(d), err)
					}
				}
				for _, bad := range []any{"{1,x}", "1,2", 5, "{1,2", []byte("[]"), 1.5, struct{}{}} {
					d = old
					if err := d.Scan(bad); err == nil {
						return fmt.Sprint("Scan accepts ", bad)
					}
				}
			}
			var pa pq.Int64Array
			if val != nil {
				if err := pa.Scan(val); err != nil || len(pa) != len(a) {
					return fmt.Sprint("pq reads ", pa, err)
				}
				for i := range pa {
					if uint64(pa[i]) != a[i] {
						return fmt.Sprint("pq reads ", pa)
					}
				}
			}
			// sort
			mixed := xdb.IDArray{}
			for _, x := range dup {
				mixed = append(mixed, xdb.NewID(x))
			}
			s := mixed.Sort()
			w := append([]uint64{}, dup...)
			sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
			if !eqNums(idNums(s), w) {
				return fmt.Sprint("Sort ", idNums(s), w)
			}
			return ""
		})
	}
}
