package xdb_test

import (
	"fmt"
	"testing"

	"github.com/effective-security/xdb"
)

func TestVerifC08(t *testing.T) {
	v := vnew(t)
	texts := append(vtexts(v), " ", "x\n", "it's", "\xff\xfe", "long "+fmt.Sprintf("%0200d", 7))
	for _, tx := range texts {
		v.try("text", tx, func() string {
			for _, old := range []xdb.NULLString{"", "old"} {
				d := old
				if err := d.Scan(tx); err != nil || string(d) != tx || d.String() != tx {
					return fmt.Sprintf("scan: %q %v", d, err)
				}
				d = old
				if err := d.Scan([]byte(tx)); err != nil || string(d) != tx {
					return fmt.Sprintf("scan bytes: %q %v", d, err)
				}
				val, err := xdb.NULLString(tx).Value()
				if err != nil || (val == nil) != (tx == "") || val != nil && val != any(tx) {
					return fmt.Sprintf("value: %v %v", val, err)
				}
				d = old
				if err := d.Scan(nil); err != nil || d != "" {
					return fmt.Sprintf("NULL: %q %v", d, err)
				}
			}
			for _, old := range []xdb.UUID{"", "old"} {
				d := old
				if err := d.Scan(tx); err != nil || string(d) != tx || d.String() != tx {
					return fmt.Sprintf("uuid text: %q %v", d, err)
				}
				val, err := xdb.UUID(tx).Value()
				if err != nil || (val == nil) != (tx == "") || val != nil && val != any(tx) {
					return fmt.Sprintf("uuid value: %v %v", val, err)
				}
			}
			return ""
		})
	}
	for i := 0; i < 200*v.deep; i++ {
		n := 16
		if i%2 == 0 {
			n = i / 4 % 40
		}
		b := make([]byte, n)
		v.r.Read(b)
		v.try("uuid bytes", fmt.Sprintf("%x", b), func() string {
			in := append([]byte{}, b...)
			d := xdb.UUID("old")
			err := d.Scan(in)
			if string(in) != string(b) {
				return "input modified"
			}
			if n != 16 {
				if err == nil || d != "old" {
					return fmt.Sprintf("length %d: %q %v", n, d, err)
				}
				return ""
			}
			r := []byte{b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6]}
			r = append(r, b[8:]...)
			want := fmt.Sprintf("%X-%X-%X-%X-%X", r[0:4], r[4:6], r[6:8], r[8:10], r[10:16])
			if err != nil || string(d) != want {
				return fmt.Sprintf("got %q %v want %q", d, err, want)
			}
			return ""
		})
	}
	for _, x := range []any{5, int64(1), 1.5, true, struct{}{}, []int{1}, [16]byte{}, new(string)} {
		v.try("uuid unsupported", fmt.Sprintf("%T", x), func() string {
			d := xdb.UUID("old")
			if err := d.Scan(x); err == nil || d != "old" {
				return fmt.Sprintf("got %q %v", d, err)
			}
			return ""
		})
	}
	v.try("uuid NULL", nil, func() string {
		d := xdb.UUID("old")
		if err := d.Scan(nil); err != nil || d != "" {
			return fmt.Sprintf("got %q %v", d, err)
		}
		return ""
	})
}
