package xdb_test

import (
	"encoding/json"
	"errors"
	"fmt"
	"testing"

	"github.com/effective-security/xdb"
)

// random histories over a pool of copies; a model maps each variable to its number
func TestVerifC04(t *testing.T) {
	v := vnew(t)
	nums := []uint64{0, 1, 7, 42, 1 << 31, 1<<64 - 1}
	texts := []string{"", "0", "5", "77", "abc", "-1", "18446744073709551616", "007"}
	for h := 0; h < 400*v.deep; h++ {
		var hist []string
		v.try("history", h, func() string {
			ids := make([]xdb.ID, 4)
			mdl := make([]uint64, 4)
			for i := range ids {
				n := nums[v.r.Intn(len(nums))]
				ids[i], mdl[i] = xdb.NewID(n), n
			}
			for s := 0; s < 12; s++ {
				i, j := v.r.Intn(4), v.r.Intn(4)
				op := v.r.Intn(9)
				n := nums[v.r.Intn(len(nums))]
				tx := texts[v.r.Intn(len(texts))]
				hist = append(hist, fmt.Sprintf("op%d i=%d j=%d n=%d t=%q", op, i, j, n, tx))
				switch op {
				case 0:
					ids[i], mdl[i] = ids[j], mdl[j]
				case 1:
					m, ok := refDec(tx, 64)
					err := ids[i].Set(tx)
					if (err == nil) != (ok && m != 0) {
						return fmt.Sprint(hist, "Set ", err)
					}
					if err == nil {
						mdl[i] = m
					}
				case 2:
					ids[i].Reset()
					mdl[i] = 0
				case 3:
					if err := ids[i].Scan(n); err != nil {
						return fmt.Sprint(hist, err)
					}
					mdl[i] = n
				case 4:
					if err := ids[i].Scan(tx); err == nil {
						return fmt.Sprint(hist, "text scanned")
					}
				case 5:
					if err := ids[i].Scan(nil); err != nil {
						return fmt.Sprint(hist, err)
					}
					mdl[i] = 0
				case 6:
					_ = ids[i].String()
					_ = ids[j].QuotedString()
				case 7:
					m, ok := refDec(tx, 64)
					err := ids[i].UnmarshalJSON([]byte(tx))
					if (err == nil) != (ok || tx == "") {
						return fmt.Sprint(hist, "json ", err)
					}
					if err == nil {
						mdl[i] = m
					}
				case 8:
					bad := n == 7
					err := ids[i].UnmarshalYAML(func(d any) error {
						*(d.(*uint64)) = n
						if bad {
							return errors.New("x")
						}
						return nil
					})
					if (err != nil) != bad {
						return fmt.Sprint(hist, "yaml ", err)
					}
					if !bad {
						mdl[i] = n
					}
				}
				for k := range ids {
					c := ids[k]
					if ids[k].UInt64() != mdl[k] {
						return fmt.Sprintf("%v: variable %d reports %d, want %d", hist, k, ids[k].UInt64(), mdl[k])
					}
					if s%3 == 0 {
						if p := idProblem(c, mdl[k]); p != "" {
							return fmt.Sprintf("%v: variable %d %s", hist, k, p)
						}
						js, _ := json.Marshal(c)
						if string(js) != fmt.Sprint(mdl[k]) {
							return fmt.Sprintf("%v: json %s", hist, js)
						}
					}
				}
			}
			for k := range ids {
				if p := idProblem(ids[k], mdl[k]); p != "" {
					return fmt.Sprintf("%v: variable %d %s", hist, k, p)
				}
			}
			return ""
		})
	}
}
