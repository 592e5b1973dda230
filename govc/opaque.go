package main

import (
	"fmt"
	"strings"
)

// opaque rewrites a script so that texts are an uninterpreted sort: literals are distinct constants, concatenation is a
// binary function (left-nested) about which only lengths are known, and every other text operation is uninterpreted.
// The result has fewer facts than the original, so that "unsat" carries over (and "sat" does not). "" when the script has
// no concatenation or uses an operation that is not listed.
func opaque(scr string) string {
	if !strings.Contains(scr, "(str.++ ") {
		return ""
	}
	sig := map[string]string{
		"str.len": "(Str!) Int", "str.prefixof": "(Str! Str!) Bool", "str.suffixof": "(Str! Str!) Bool", "str.contains": "(Str! Str!) Bool",
		"str.at": "(Str! Int) Str!", "str.substr": "(Str! Int Int) Str!", "str.<": "(Str! Str!) Bool", "str.<=": "(Str! Str!) Bool",
		"str.indexof": "(Str! Str! Int) Int", "str.replace": "(Str! Str! Str!) Str!", "str.to_code": "(Str!) Int", "str.from_code": "(Int) Str!",
		"str.to_int": "(Str!) Int", "str.from_int": "(Int) Str!",
	}
	lits := map[string]int{}
	var lens []int
	used := map[string]bool{"str.len": true}
	i := 0
	bad := false
	var sexp func() string
	ws := func() {
		for i < len(scr) && (scr[i] == ' ' || scr[i] == '\n' || scr[i] == '\t') {
			i++
		}
	}
	lit := func(tok string) string {
		k, ok := lits[tok]
		if !ok {
			k = len(lits)
			lits[tok] = k
			n, in := 0, tok[1:len(tok)-1]
			in = strings.ReplaceAll(in, `""`, `"`)
			for j := 0; j < len(in); {
				if strings.HasPrefix(in[j:], `\u{`) {
					e := strings.IndexByte(in[j:], '}')
					if e < 0 {
						bad = true
						break
					}
					j += e + 1
				} else if in[j] == '\\' && j+1 < len(in) && in[j+1] == 'u' {
					bad = true
					break
				} else {
					if in[j] >= 0x80 {
						bad = true
						break
					}
					j++
				}
				n++
			}
			lens = append(lens, n)
		}
		return fmt.Sprintf("lit!%d", k)
	}
	sexp = func() string {
		ws()
		if i >= len(scr) {
			bad = true
			return ""
		}
		switch scr[i] {
		case '(':
			i++
			var parts []string
			for {
				ws()
				if i >= len(scr) || bad {
					bad = true
					return ""
				}
				if scr[i] == ')' {
					i++
					break
				}
				parts = append(parts, sexp())
			}
			if len(parts) > 0 && parts[0] == "str.++" {
				r := parts[1]
				for _, p := range parts[2:] {
					r = "(cat! " + r + " " + p + ")"
				}
				return r
			}
			return "(" + strings.Join(parts, " ") + ")"
		case '|':
			j := strings.IndexByte(scr[i+1:], '|')
			if j < 0 {
				bad = true
				return ""
			}
			t := scr[i : i+j+2]
			i += j + 2
			return t
		case '"':
			j := i + 1
			for j < len(scr) {
				if scr[j] == '"' {
					if j+1 < len(scr) && scr[j+1] == '"' {
						j += 2
						continue
					}
					break
				}
				j++
			}
			if j >= len(scr) {
				bad = true
				return ""
			}
			t := scr[i : j+1]
			i = j + 1
			return lit(t)
		}
		j := i
		for j < len(scr) && !strings.ContainsRune(" \n\t()\"|", rune(scr[j])) {
			j++
		}
		if j == i {
			bad = true
			return ""
		}
		t := scr[i:j]
		i = j
		switch {
		case t == "String":
			return "Str!"
		case t == "str.++":
			return t
		case strings.HasPrefix(t, "str."):
			if _, ok := sig[t]; !ok {
				bad = true
				return ""
			}
			used[t] = true
			return "op!" + t
		case strings.HasPrefix(t, "re.") || t == "RegLan":
			bad = true
		}
		return t
	}
	var body strings.Builder
	for {
		ws()
		if i >= len(scr) {
			break
		}
		s := sexp()
		if bad {
			return ""
		}
		body.WriteString(s + "\n")
	}
	empty := lit(`""`)
	var b strings.Builder
	b.WriteString("(declare-sort Str! 0)\n(declare-fun cat! (Str! Str!) Str!)\n")
	for t := range used {
		fmt.Fprintf(&b, "(declare-fun op!%s %s)\n", t, sig[t])
	}
	for k := 0; k < len(lits); k++ {
		fmt.Fprintf(&b, "(declare-const lit!%d Str!)\n(assert (= (op!str.len lit!%d) %d))\n", k, k, lens[k])
	}
	if len(lits) > 1 {
		b.WriteString("(assert (distinct")
		for k := 0; k < len(lits); k++ {
			fmt.Fprintf(&b, " lit!%d", k)
		}
		b.WriteString("))\n")
	}
	fmt.Fprintf(&b, "(assert (forall ((x Str!)) (! (and (<= 0 (op!str.len x)) (=> (= 0 (op!str.len x)) (= x %s))) :pattern ((op!str.len x)))))\n", empty)
	b.WriteString("(assert (forall ((x Str!) (y Str!)) (! (= (op!str.len (cat! x y)) (+ (op!str.len x) (op!str.len y))) :pattern ((cat! x y)))))\n")
	return b.String() + body.String()
}
