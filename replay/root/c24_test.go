package xdb_test

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/effective-security/xdb"
)

type mergeInner struct {
	Ref  xdb.ID
	At   xdb.Time
	Note xdb.NULLString
	N    int
}

type mergeRec struct {
	mergeEmbPub
	ID    xdb.ID
	Org   xdb.ID
	Small xdb.ID32
	Made  xdb.Time
	Upd   xdb.Time
	Name  xdb.NULLString
	Label xdb.NULLString
	Plain string
	N     int64
	In    mergeInner
	Ptr   *mergeInner
}

type mergeEmbPub = MergeEmb

// MergeEmb is embedded
type MergeEmb struct{ mergeEmb2 }
type mergeEmb2 = MergeEmb2

// MergeEmb2 is embedded in the embedded
type MergeEmb2 struct {
	EID   xdb.ID
	ETime xdb.Time
	EText xdb.NULLString
}

func TestVerifC24(t *testing.T) {
	v := vnew(t)
	id := func() xdb.ID {
		switch v.r.Intn(4) {
		case 0:
			return xdb.ID{}
		case 1:
			return xdb.NewID(0)
		case 2:
			return xdb.NewID(^uint64(0))
		}
		return xdb.NewID(uint64(v.r.Intn(5)))
	}
	tm := func() xdb.Time {
		switch v.r.Intn(5) {
		case 0:
			return xdb.Time{}
		case 1:
			return xdb.Time(time.Time{}.In(time.FixedZone("x", 3600)))
		case 2:
			return xdb.Time(time.Unix(0, 0))
		case 3:
			return xdb.Time(time.Unix(-1, 0).UTC())
		}
		return xdb.Time(time.Unix(int64(v.r.Intn(9)), int64(v.r.Intn(3))).UTC())
	}
	tx := func() xdb.NULLString {
		return xdb.NULLString([]string{"", "", "a", " ", "\x00", "<invalid Value>", "null"}[v.r.Intn(7)])
	}
	in := func() mergeInner { return mergeInner{id(), tm(), tx(), v.r.Intn(3)} }
	rec := func() mergeRec {
		r := mergeRec{ID: id(), Org: id(), Small: xdb.ID32(v.r.Intn(3)), Made: tm(), Upd: tm(), Name: tx(), Label: tx(), Plain: string(tx()), N: int64(v.r.Intn(3)), In: in()}
		r.EID, r.ETime, r.EText = id(), tm(), tx()
		if v.r.Intn(2) == 0 {
			p := in()
			r.Ptr = &p
		}
		return r
	}
	cp := func(r mergeRec) mergeRec {
		// every field by value, the ID's inner pointer included
		f := func(i xdb.ID) xdb.ID {
			if !i.Valid() && i == (xdb.ID{}) {
				return xdb.ID{}
			}
			return xdb.NewID(i.UInt64())
		}
		fi := func(i mergeInner) mergeInner { i.Ref = f(i.Ref); return i }
		r.ID, r.Org, r.EID, r.In = f(r.ID), f(r.Org), f(r.EID), fi(r.In)
		if r.Ptr != nil {
			p := fi(*r.Ptr)
			r.Ptr = &p
		}
		return r
	}
	show := func(r mergeRec) string {
		s := fmt.Sprintf("%v %v %v %v %v %v %q %q %q %d %+v", r.EID.UInt64(), time.Time(r.ETime), r.ID.UInt64(), r.Org.UInt64(), time.Time(r.Made), time.Time(r.Upd), r.EText, r.Name, r.Label, r.Small, inner(r.In))
		if r.Ptr != nil {
			s += " *" + inner(*r.Ptr)
		}
		return s
	}
	for i := 0; i < 1500*v.deep; i++ {
		dst, src := rec(), rec()
		v.try("case:merge", show(dst)+" <- "+show(src), func() string {
			d0, s0 := cp(dst), cp(src)
			d := cp(dst)
			var err error
			if i%2 == 0 {
				err = xdb.Merge(&d, src)
			} else {
				err = xdb.Merge(&d, &src)
			}
			if err != nil {
				return err.Error()
			}
			if show(src) != show(s0) || src.Plain != s0.Plain || src.N != s0.N {
				return "the source was changed: " + show(src)
			}
			what := ""
			ids := func(n string, g, d, s xdb.ID) {
				w := d.UInt64()
				if s.Valid() {
					w = s.UInt64()
				}
				if g.UInt64() != w {
					what += fmt.Sprintf("%s: %v, expected %v; ", n, g.UInt64(), w)
				}
			}
			tms := func(n string, g, d, s xdb.Time) {
				w := d
				if !time.Time(s).IsZero() {
					w = s
				}
				if !reflect.DeepEqual(time.Time(g), time.Time(w)) {
					what += fmt.Sprintf("%s: %v, expected %v; ", n, g, w)
				}
			}
			txs := func(n string, g, d, s xdb.NULLString) {
				w := d
				if s != "" {
					w = s
				}
				if g != w {
					what += fmt.Sprintf("%s: %q, expected %q; ", n, g, w)
				}
			}
			inn := func(n string, g, d, s mergeInner) {
				ids(n+".Ref", g.Ref, d.Ref, s.Ref)
				tms(n+".At", g.At, d.At, s.At)
				txs(n+".Note", g.Note, d.Note, s.Note)
			}
			ids("ID", d.ID, d0.ID, s0.ID)
			ids("Org", d.Org, d0.Org, s0.Org)
			ids("EID", d.EID, d0.EID, s0.EID)
			tms("Made", d.Made, d0.Made, s0.Made)
			tms("Upd", d.Upd, d0.Upd, s0.Upd)
			tms("ETime", d.ETime, d0.ETime, s0.ETime)
			txs("Name", d.Name, d0.Name, s0.Name)
			txs("Label", d.Label, d0.Label, s0.Label)
			txs("EText", d.EText, d0.EText, s0.EText)
			inn("In", d.In, d0.In, s0.In)
			if d0.Ptr != nil && s0.Ptr != nil {
				inn("Ptr", *d.Ptr, *d0.Ptr, *s0.Ptr)
			} else if s0.Ptr != nil && (d.Ptr == nil || inner(*d.Ptr) != inner(*s0.Ptr)) {
				what += "Ptr was not taken over; "
			} else if d0.Ptr != nil && (d.Ptr == nil || s0.Ptr == nil && inner(*d.Ptr) != inner(*d0.Ptr)) {
				what += "Ptr was erased; "
			}
			w32 := d0.Small
			if s0.Small != 0 {
				w32 = s0.Small
			}
			if d.Small != w32 {
				what += "Small; "
			}
			return what
		})
	}
}

func inner(i mergeInner) string {
	return fmt.Sprintf("{%d %v %q %d}", i.Ref.UInt64(), time.Time(i.At), i.Note, i.N)
}
