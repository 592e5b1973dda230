package xdb_test

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/effective-security/xdb"
)

// vrun collects the cases of one replay harness.
type vrun struct {
	t     *testing.T
	r     *rand.Rand
	n     int
	fails int
	seen  map[string]bool
	smp   int
	deep  int
}

func vnew(t *testing.T) *vrun {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	v := &vrun{t: t, r: rand.New(rand.NewSource(seed + 77)), seen: map[string]bool{}, deep: 1}
	if os.Getenv("VERIF_TIER") == "thorough" {
		v.deep = 20
	}
	t.Cleanup(func() { fmt.Printf("\nVERIF-CASES %d %d\n", v.n, len(v.seen)) })
	return v
}

// try runs one case; f returns "" or what is wrong with it.
func (v *vrun) try(name string, input any, f func() string) {
	v.n++
	in := fmt.Sprintf("%s %+v", name, input)
	if len(in) > 500 {
		in = in[:500]
	}
	if !v.seen[in] {
		v.seen[in] = true
		if v.smp < 3 {
			v.smp++
			fmt.Printf("\nVERIF-SAMPLE %s\n", strconv.Quote(in))
		}
	}
	what := func() (s string) {
		defer func() {
			if r := recover(); r != nil {
				s = fmt.Sprintf("unexpected panic: %v", r)
			}
		}()
		return f()
	}()
	if what != "" {
		v.fails++
		if v.fails <= 5 {
			js, _ := json.Marshal(map[string]string{"case": name, "input": in, "what": what})
			fmt.Printf("\nVERIF-FAIL %s\n", js)
		}
		v.t.Fail()
	}
}

func mustPanic(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

func vnums(v *vrun) []uint64 {
	ns := []uint64{0, 1, 2, 7, 9, 10, 63, 64, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1, 1<<64 - 2, 253518220474974837}
	for i := 0; i < 60*v.deep; i++ {
		ns = append(ns, v.r.Uint64()>>uint(v.r.Intn(64)))
	}
	return ns
}

func vtexts(v *vrun) []string {
	ts := []string{"", "0", "00", "007", "1", "-1", "+1", " 1", "1 ", "1.0", "1e3", "0x10", "1_000", "abc", "\"\"", "\"0\"", "\"12\"", "\"12", "12\"", "null", "NULL", "\"NULL\"", "true", "18446744073709551615", "18446744073709551616", "18446744073709551620", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "4294967295", "4294967296", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999999", "\x00", "é", "１２"}
	for i := 0; i < 40*v.deep; i++ {
		n := v.r.Uint64() >> uint(v.r.Intn(64))
		ts = append(ts, strconv.FormatUint(n, 10), "\""+strconv.FormatUint(n, 10)+"\"", "0"+strconv.FormatUint(n, 10), strconv.FormatUint(n, 10)+"x")
	}
	return ts
}

// decimal text in range, decided independently of strconv
func refDec(s string, bits uint) (uint64, bool) {
	if s == "" {
		return 0, false
	}
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return 0, false
		}
	}
	b, _ := new(big.Int).SetString(s, 10)
	if b.BitLen() > int(bits) {
		return 0, false
	}
	return b.Uint64(), true
}

func idProblem(id xdb.ID, n uint64) string {
	if id.UInt64() != n {
		return fmt.Sprintf("holds %d, want %d", id.UInt64(), n)
	}
	want := ""
	if n != 0 {
		want = fmt.Sprint(n)
	}
	if id.String() != want || id.String() != want {
		return fmt.Sprintf("text %q, want %q", id.String(), want)
	}
	if n != 0 && (id.QuotedString() != `"`+want+`"` || id.UnderscoreString() != "_"+want) {
		return "quoted or underscore text differs: " + id.QuotedString() + " " + id.UnderscoreString()
	}
	if n == 0 && id.UnderscoreString() != "" {
		return "underscore text of the zero ID"
	}
	if id.Valid() != (n != 0) || id.Invalid() != (n == 0) || id.IsZero() != (n == 0) {
		return "validity differs"
	}
	return ""
}

