package flake_test

import (
	"fmt"
	"testing"
	"time"

	"github.com/effective-security/xdb/pkg/flake"
)

func TestVerifC02(t *testing.T) {
	v := vnew(t)
	defer func(f func() time.Time) { flake.NowFunc = f }(flake.NowFunc)
	const span = uint64(1)<<41 - 1
	counts := []uint64{0, 1, 2, 63, 64, 1000, 1<<31 - 1, 1 << 31, 1 << 32, 1<<40 - 1, 1 << 40, span - 1, span}
	for i := 0; i < 60*v.deep; i++ {
		counts = append(counts, v.r.Uint64()&span)
	}
	starts := []time.Time{time.Time{}, time.Unix(0, 0), time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2019, 3, 4, 5, 6, 7, 8900000, time.FixedZone("x", -5*3600)),
		time.Date(1969, 12, 31, 23, 0, 0, 0, time.UTC), time.Date(1971, 2, 3, 4, 5, 6, 7, time.UTC)}
	for _, n := range counts {
		for _, m := range []uint16{0, 1, 255, 32768, 65535, uint16(v.r.Intn(65536))} {
			s := uint64(v.r.Intn(64))
			id := n<<22 | s<<16 | uint64(m)
			v.try("Decompose", id, func() string {
				d := flake.Decompose(id)
				if d["id"] != id || d["msb"] != 0 || d["time"] != n || d["sequence"] != s || d["machine_id"] != uint64(m) {
					return fmt.Sprintf("%v, want time %d sequence %d machine %d", d, n, s, m)
				}
				return ""
			})
		}
	}
	zones := []*time.Location{time.UTC, time.FixedZone("east", 7*3600)}
	for si, start := range starts {
		for ci, n := range counts {
			st := start
			if st.IsZero() {
				st = flake.DefaultStartTime
			}
			at := st.UnixNano()/1000000 + int64(n)
			now := time.UnixMilli(at).In(zones[ci%2])
			if now.Before(st) {
				now = st
				at = st.UnixNano() / 1000000
			}
			count := uint64(at - st.UnixNano()/1000000)
			if count > span {
				continue
			}
			m := uint16(v.r.Intn(65536))
			flake.NowFunc = func() time.Time { return now }
			v.try("generated ID", fmt.Sprint(si, start, " count ", n, " machine ", m), func() string {
				g := flake.NewIDGenerator(flake.Settings{StartTime: start, MachineID: func() (uint16, error) { return m, nil }, CheckMachineID: func(x uint16) bool { return x == m }})
				id := flake.FirstID(g)
				for i := 0; i < 6; i++ {
					d := flake.Decompose(id)
					// a zero count may start in the sequence's last slot and move to the next millisecond
					if d["machine_id"] != uint64(m) || d["msb"] != 0 || d["time"] < count || d["time"] > count+1 || (i == 0 && count > 0 && (d["time"] != count)) {
						return fmt.Sprintf("ID %d decomposes to %v, want time %d machine %d", id, d, count, m)
					}
					tm := flake.IDTime(g, id)
					want := st.UnixNano()/1000000 + int64(d["time"])
					if tm.UnixNano() != want*1000000 || tm.Location() != time.UTC {
						return fmt.Sprintf("IDTime %v, want %v", tm, time.UnixMilli(want).UTC())
					}
					if i == 0 && flake.LastID(g) != id {
						return "first ID is not the last ID of a new generator"
					}
					first := flake.FirstID(g)
					nid := g.NextID()
					if flake.FirstID(g) != first || flake.LastID(g) != nid {
						return fmt.Sprintf("first %d (was %d), last %d (is %d)", flake.FirstID(g), first, flake.LastID(g), nid)
					}
					id = nid
				}
				return ""
			})
		}
	}
}
