package main

import (
	"fmt"

	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/gen"
	"verifharness/ref"
)

// itemsOf compiles a glob to the bare item list, without the prefix, suffix and
// list optimisations of package glob.
func itemsOf(s string) (list []items.Item, err error) {
	for s != "" {
		var it items.Item
		if it, s, err = items.NextWildcardItem(s); err != nil {
			return nil, err
		}
		if it != nil {
			list = items.AppendItem(list, it)
		}
	}
	return list, nil
}

type verdicts struct {
	t    *T
	text string
	r    *ref.Glob
	g    *glob.Glob
	list []items.Item
	bare bool
}

// compileC01 compiles the glob; nil when it failed (already reported).
func compileC01(t *T, text string, r *ref.Glob, bare bool) *verdicts {
	t.Desc(func() string { return "glob.Parse(" + q(text) + ")" })
	v := &verdicts{t: t, text: text, r: r, bare: bare}
	g, err := glob.Parse(text)
	if err != nil {
		t.Fail("rejected", text, "glob.Parse(%s): %v", q(text), err)
		return nil
	}
	v.g = g
	if bare {
		if v.list, err = itemsOf(text); err != nil {
			t.Fail("rejected", text, "items of %s: %v", q(text), err)
			return nil
		}
	}
	return v
}

func (v *verdicts) check(s string, want bool) bool {
	t := v.t
	t.Desc(func() string { return fmt.Sprintf("glob %s Match(%s)", q(v.text), q(s)) })
	got := v.g.Match(s)
	t.Eval(1)
	if want {
		t.Count("matches", 1)
	} else {
		t.Count("misses", 1)
	}
	if got != want {
		t.Fail("verdict", v.text+" ~ "+s, "glob %s (normalised %s) Match(%s) = %v, the language says %v", q(v.text), q(v.g.String()), q(s), got, want)
		return false
	}
	if v.bare && len(v.list) > 0 {
		t.Desc(func() string { return fmt.Sprintf("items of %s: MatchItems(%s)", q(v.text), q(s)) })
		got := items.MatchItems(s, v.list)
		t.Eval(1)
		t.Count("bare_item_verdicts", 1)
		if got != want {
			t.Fail("verdict", v.text+" ~ "+s, "items of glob %s: MatchItems(%s) = %v, the language says %v", q(v.text), q(s), got, want)
			return false
		}
	}
	return true
}

func c01case(t *T, text string, a *gen.Alphabet, n int, long bool) {
	r := mustRef(text)
	v := compileC01(t, text, r, t.R.P(1, 3))
	if v == nil {
		return
	}
	h := gen.Hash(text)
	for i := 0; i < n; i++ {
		var u []ref.Unit
		if long {
			u = gen.LongSubject(t.R, r, a)
		} else {
			u = gen.Subject(t.R, r, a)
		}
		s := ref.String(u)
		if t.R.P(1, 12) {
			s = gen.BadBytes(t.R, s)
			u = ref.Units(s)
			t.Count("subjects_with_invalid_utf8", 1)
		}
		want := r.MatchUnits(u)
		if t.R.P(1, 32) {
			if r.MatchSparse(u) != want {
				panic("harness: the reference matchers differ on " + q(text) + " " + q(s))
			}
			t.Count("reference_matchers_compared", 1)
		}
		if !v.check(s, want) {
			return
		}
		t.Max("subject_bytes", int64(len(s)))
		t.Distinct(hashUnits(h, u))
		if want {
			t.Max("bytes_of_a_matched_subject", int64(len(s)))
			t.Sample(func() string { return fmt.Sprintf("%s matches %s", q(text), q(s)) })
		}
	}
	t.Max("glob_bytes", int64(len(text)))
}

var c01tokens = []string{
	"a", "b", "*", "?", "[a]", "[ab]", "[b-c]", "{a}", "{a,b}", "{a,ab}", "{,a}", "{b,}", "{a*,b}", "{*b,c}", "{?,ab}",
	"{[ab]c,b}", "{a,b,ab}", "{*}", "{?}", "[]", "c",
}

var c01subjects = words("abc", 4)

func words(alpha string, n int) []string {
	out := []string{""}
	lo := 0
	for k := 0; k < n; k++ {
		hi := len(out)
		for i := lo; i < hi; i++ {
			for j := 0; j < len(alpha); j++ {
				out = append(out, out[i]+alpha[j:j+1])
			}
		}
		lo = hi
	}
	return out
}

// tokenSeq gives the i-th sequence of tokens, shortest first.
func tokenSeq(tokens []string, i int) string {
	n := len(tokens)
	size, length := n, 1
	for i >= size {
		i -= size
		size *= n
		length++
	}
	s := ""
	for ; length > 0; length-- {
		s += tokens[i%n]
		i /= n
	}
	return s
}

func seqCount(n, length int) (c int) {
	p := 1
	for ; length > 0; length-- {
		p *= n
		c += p
	}
	return
}

func init() {
	// characters of several widths in the enumerated subjects of the second enumeration
	var wideTokens = []string{"a", "Я", "*", "?", "[aЯ]", "[А-Я]", "{Я,a}", "{Яa,a*}", "{,😀}", "{?Я,aЯ}", "[😀]", "{*Я,a}"}
	var wideSubj []string
	for _, w := range words("012", 4) {
		var b []rune
		for _, c := range w {
			b = append(b, []rune("aЯ😀")[c-'0'])
		}
		wideSubj = append(wideSubj, string(b))
	}
	wideSubj = append(wideSubj, "\xd0", "a\xd0", "\xafa", "Я\xff", "\xffЯ", "\xf0\x9f\x98", "a\xf0\x9f\x98Я", "\xff\xff", "a\xffa")
	enum := func(tokens, subjects []string) func(t *T) {
		units := make([][]ref.Unit, len(subjects))
		for i, s := range subjects {
			units[i] = ref.Units(s)
		}
		return func(t *T) {
			text := tokenSeq(tokens, int(t.I))
			r := mustRef(text)
			v := compileC01(t, text, r, true)
			if v == nil {
				return
			}
			hit := 0
			for i, s := range subjects {
				want := r.MatchUnits(units[i])
				if !v.check(s, want) {
					return
				}
				if want {
					hit++
				}
			}
			if hit > 0 && hit < len(subjects) {
				t.Count("enumerated_globs_with_both_verdicts", 1)
			}
			t.Distinct(gen.Hash(text))
		}
	}
	register(&Prop{
		ID: "C01",
		Rule: "One observation: the verdict of a compiled glob (or of its bare item list) on one subject, compared with a position-set " +
			"interpreter of the written glob. Globs come from grammar-directed generation over tiny, mixed-width, node-like and random alphabets, of every size up to tens of thousands of characters, values, ranges or items " +
			"(subjects are samples of the language, single and double mutations of them, random words, words with invalid UTF-8) and from complete " +
			"enumeration of short token sequences against all short words. Some texts differ hardly or have the same usual hash. One object is asked some hundred thousand times in the marathon streams. Distinct: distinct (glob, subject) pairs of the random streams and distinct " +
			"enumerated globs.",
		Assume: []string{
			"the pattern is valid UTF-8 and no class has a hyphen that does not join two characters (their meaning is not defined by the property)",
			"the oracle's reading of the glob language is the one written in the property",
			"number of stars and lists per glob is bounded: the matcher backtracks, and adversarial exponential patterns are not driven",
		},
		Need: map[string]int64{"matches": 100000, "misses": 100000, "bare_item_verdicts": 100000, "subjects_with_invalid_utf8": 10000, "enumerated_globs_with_both_verdicts": 1000},
		Streams: []*Stream{
			{Name: "rand", Quick: 500000, Thorough: 12000000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				o := gen.Opt{MaxElems: 6, Dots: t.R.P(1, 8)}
				if t.R.P(1, 10) {
					o.MaxElems = 9
				}
				c01case(t, gen.Glob(t.R, a, o), a, 14, false)
			}},
			{Name: "big", Quick: 30000, Thorough: 600000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				c01case(t, gen.BigGlob(t.R, a), a, 10, true)
			}},
			{Name: "alike", Quick: 5000, Thorough: 200000, Run: func(t *T) {
				// lists and words against words that hardly differ
				lits := gen.Alike(t.R, gen.SomeAlpha(t.R), 2+t.R.Intn(14))
				text, head, tail := gen.AlikeGlob(t.R, lits)
				v := compileC01(t, text, mustRef(text), true)
				for _, s := range append(lits, "") {
					if v == nil {
						return
					}
					s = fillIn(head) + s + fillIn(tail)
					if !v.check(s, v.r.MatchUnits(ref.Units(s))) {
						return
					}
				}
				t.Distinct(gen.Hash(text))
			}},
			{Name: "marathon", Quick: 8, Thorough: 400, Chunk: 1, Run: func(t *T) {
				// one glob is asked more often than 16 bits can count
				a := gen.SomeAlpha(t.R)
				text := gen.Glob(t.R, a, gen.Opt{})
				r := mustRef(text)
				v := compileC01(t, text, r, true)
				if v == nil {
					return
				}
				var subj []string
				for k := 0; k < 16; k++ {
					u := gen.Mutate(t.R, r.Sample(t.R, a.Wild), a.Wild)
					if k < 8 {
						u = r.Sample(t.R, a.Wild)
					}
					s := ref.String(u)
					if !v.check(s, r.MatchUnits(ref.Units(s))) {
						return
					}
					if len(s) <= 100 {
						subj = append(subj, s)
					}
				}
				if len(subj) == 0 {
					return
				}
				g, err := glob.Parse(text)
				if err != nil {
					return
				}
				name := "glob " + q(text) + ", subjects " + qs(subj)
				t.Desc(func() string { return name })
				marathon(t, name, len(subj), marathonSteps, func(k int) uint64 { return uint64(b2i(g.Match(subj[k]))) })
			}},
			{Name: "huge", Quick: 2000, Thorough: 60000, Chunk: 4, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				c01case(t, gen.Huge(t.R, a), a, 6, t.R.P(1, 3))
			}},
			{Name: "long", Quick: 30000, Thorough: 600000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				c01case(t, gen.Glob(t.R, a, gen.Opt{MaxElems: 5}), a, 8, true)
			}},
			{Name: "enum", Quick: seqCount(len(c01tokens), 3), Thorough: seqCount(len(c01tokens), 4), Fixed: true, Run: enum(c01tokens, c01subjects)},
			{Name: "enumwide", Quick: seqCount(len(wideTokens), 4), Thorough: seqCount(len(wideTokens), 5), Fixed: true, Run: enum(wideTokens, wideSubj)},
		},
	})
}
