package main

import (
	"strings"
	"unicode/utf8"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/gen"
)

const wildChars = "[]{}*?"

// commonPrefix is the definition.
func commonPrefix(list []string) string {
	if len(list) == 0 {
		return ""
	}
	out := []rune(list[0])
	for i, c := range out {
		if strings.ContainsRune(wildChars, c) {
			out = out[:i]
			break
		}
	}
	for _, s := range list[1:] {
		n := 0
		for _, c := range s {
			if n == len(out) || out[n] != c {
				break
			}
			n++
		}
		out = out[:n]
	}
	return string(out)
}

func checkPrefix(t *T, list []string) bool {
	t.Desc(func() string { return "common prefix of " + qs(list) })
	want := commonPrefix(list)
	t.Eval(1)
	if got := items.IntersectGlobs(list); got != want {
		t.Fail("prefix", strings.Join(list, " "), "the common prefix of %s is %s, want %s", qs(list), q(got), q(want))
		return false
	}
	if want == "" {
		t.Count("empty_prefixes", 1)
	} else {
		t.Count("prefixes", 1)
	}
	return true
}

func checkHelpers(t *T, s string) bool {
	t.Desc(func() string { return "wildcard helpers on " + q(s) })
	first, last, n := -1, -1, 0
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(wildChars, s[i]) >= 0 {
			if first < 0 {
				first = i
			}
			last = i
			if s[i] != ']' && s[i] != '}' {
				n++
			}
		}
	}
	t.Eval(8)
	t.Count("helper_texts", 1)
	for _, h := range []struct {
		pkg   string
		has   bool
		first int
		last  int
		n     int
	}{
		{"items", items.HasWildcard(s), items.IndexWildcard(s), items.IndexLastWildcard(s), items.WildcardCount(s)},
		{"gglob", gglob.HasWildcard(s), gglob.IndexWildcard(s), gglob.IndexLastWildcard(s), gglob.WildcardCount(s)},
	} {
		if h.has != (first >= 0) || h.first != first || h.last != last || h.n != n {
			t.Fail("helper", s, "package %s on %s: HasWildcard %v, IndexWildcard %d, IndexLastWildcard %d, WildcardCount %d; want %v, %d, %d, %d",
				h.pkg, q(s), h.has, h.first, h.last, h.n, first >= 0, first, last, n)
			return false
		}
	}
	return true
}

func prefixText(r *gen.Rng, a *gen.Alphabet, stem string) string {
	s := stem
	switch r.Intn(8) {
	case 0:
	case 1: // cut in the middle
		rs := []rune(s)
		s = string(rs[:r.Intn(len(rs)+1)])
	case 2, 3:
		s += gen.Glob(r, a, gen.Opt{MaxElems: 3})
	case 4: // one character differs
		rs := []rune(s)
		if len(rs) > 0 {
			k := r.Intn(len(rs))
			switch r.Intn(3) {
			case 0:
				rs[k] = gen.Pick(r, a.Lits)
			case 1: // differs in the last byte of its encoding only
				if c := rs[k] ^ 1; utf8.ValidRune(c) {
					rs[k] = c
				}
			default: // a wildcard
				rs[k] = gen.Pick(r, []rune(wildChars))
			}
			s = string(rs)
		}
	default:
		for k := r.Intn(3); k > 0; k-- {
			s += string(gen.Pick(r, a.Lits))
		}
		s += gen.Pick(r, []string{"", "*", "?", "[a]", "{a,b}", "]", "}", "[", "{", "."})
	}
	return s
}

func init() {
	tokens := []string{"", "a", "b", "Я", "а", "*", "]", "aЯ", "ab", "a*", "ЯЯ", "?", "{", "你", "佡"}
	register(&Prop{
		ID:     "C22",
		Rule:   "One observation: the common prefix of one list of texts compared with a definition by characters, for the list in several orders and with repeated members; or the wildcard helpers of both packages on one text compared with a byte scan. Complete: all lists of up to 4 (thorough: 5) members over 15 texts; others have up to 3000 texts or texts of up to 20000 characters. Distinct: distinct lists.",
		Assume: []string{"prefixes are computed for valid UTF-8 only, the helpers for any bytes"},
		Need:   map[string]int64{"prefixes": 200000, "empty_prefixes": 50000, "helper_texts": 300000},
		Streams: []*Stream{
			{Name: "enum", Fixed: true, Quick: seqCount(len(tokens), 4) + 1, Thorough: seqCount(len(tokens), 5) + 1, Run: func(t *T) {
				if t.I == 0 {
					if checkPrefix(t, nil) {
						checkPrefix(t, []string{})
					}
					return
				}
				list := tokenList(tokens, int(t.I)-1)
				checkPrefix(t, list)
				t.Distinct(gen.Mix(1, t.I))
			}},
			{Name: "huge", Quick: 600, Thorough: 20000, Chunk: 4, Run: func(t *T) {
				// long texts, many texts; they part at any place
				a := gen.SomeAlpha(t.R)
				stem := make([]rune, gen.Size(t.R, 20000))
				for i := range stem {
					stem[i] = gen.Pick(t.R, a.Lits)
				}
				n := gen.Size(t.R, 3000)
				if len(stem) > 300 {
					n = gen.Size(t.R, 20)
				}
				list := make([]string, n)
				h := gen.Mix(uint64(n), gen.Hash(string(stem)))
				for i := range list {
					if t.R.P(4, 5) {
						list[i] = string(stem) + prefixText(t.R, a, "")
					} else {
						list[i] = prefixText(t.R, a, string(stem))
					}
				}
				if t.R.P(1, 2) { // one of them parts
					k := t.R.Intn(len(stem))
					list[t.R.Intn(n)] = string(stem[:k]) + gen.Pick(t.R, []string{"", "*", "x", "Я", "?a", "[b]"})
				}
				for k := 0; k < 2; k++ {
					if !checkPrefix(t, list) {
						return
					}
					gen.Shuffle(t.R, list)
				}
				t.Max("texts_in_a_list", int64(n))
				t.Max("longest_stem", int64(len(stem)))
				t.Distinct(h)
				checkHelpers(t, list[0])
			}},
			{Name: "rand", Quick: 150000, Thorough: 8000000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				stem := ""
				for k := t.R.Intn(8); k > 0; k-- {
					stem += string(gen.Pick(t.R, a.Lits))
				}
				if t.R.P(1, 20) {
					stem = strings.Repeat(stem+"a", 1+t.R.Intn(60))
				}
				if t.R.P(1, 30) {
					stem += "\ufffd"
				}
				list := make([]string, 1+t.R.Intn(6))
				if t.R.P(1, 20) {
					list = make([]string, 40)
				}
				var h uint64
				same := t.R.P(1, 2)
				for i := range list {
					if list[i] = prefixText(t.R, a, stem); same && t.R.P(3, 4) {
						list[i] = stem + list[i]
					}
					h = gen.Mix(h, gen.Hash(list[i]))
				}
				t.Sample(func() string { return qs(list) })
				for k := 0; k < 3; k++ {
					if !checkPrefix(t, list) {
						return
					}
					gen.Shuffle(t.R, list)
				}
				if !checkPrefix(t, append(list, list...)) {
					return
				}
				for _, s := range list {
					if !checkHelpers(t, s) {
						return
					}
				}
				if !checkHelpers(t, gen.BadBytes(t.R, list[0])) || !checkHelpers(t, hostile(t.R, 8)) {
					return
				}
				t.Distinct(h)
			}},
		},
	})
}
