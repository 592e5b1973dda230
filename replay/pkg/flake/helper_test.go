package flake_test

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

)

// vrun collects the cases of one replay harness.
type vrun struct {
	t     *testing.T
	r     *rand.Rand
	n     int
	fails int
	seen  map[string]bool
	smp   int
	deep  int
}

func vnew(t *testing.T) *vrun {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	v := &vrun{t: t, r: rand.New(rand.NewSource(seed + 77)), seen: map[string]bool{}, deep: 1}
	if os.Getenv("VERIF_TIER") == "thorough" {
		v.deep = 20
	}
	t.Cleanup(func() { fmt.Printf("\nVERIF-CASES %d %d\n", v.n, len(v.seen)) })
	return v
}

// try runs one case; f returns "" or what is wrong with it.
func (v *vrun) try(name string, input any, f func() string) {
	v.n++
	in := fmt.Sprintf("%s %+v", name, input)
	if len(in) > 500 {
		in = in[:500]
	}
	if !v.seen[in] {
		v.seen[in] = true
		if v.smp < 3 {
			v.smp++
			fmt.Printf("\nVERIF-SAMPLE %s\n", strconv.Quote(in))
		}
	}
	what := func() (s string) {
		defer func() {
			if r := recover(); r != nil {
				s = fmt.Sprintf("unexpected panic: %v", r)
			}
		}()
		return f()
	}()
	if what != "" {
		v.fails++
		if v.fails <= 5 {
			js, _ := json.Marshal(map[string]string{"case": name, "input": in, "what": what})
			fmt.Printf("\nVERIF-FAIL %s\n", js)
		}
		v.t.Fail()
	}
}

func mustPanic(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

