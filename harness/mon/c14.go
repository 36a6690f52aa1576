package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/msaf1980/go-matcher/expand"

	"verifharness/gen"
	"verifharness/ref"
)

// enumAlpha goes with the enumerated expressions.
var enumAlpha = &gen.Alphabet{Lits: []rune("abЯ"), Wild: []ref.Unit{'a', 'b', 'c', 'Я', '.', ','}, Cls: []string{"a", "ab", "a-c"}}

// oddClass reports that the expression has a class the model does not define.
func oddClass(in string) bool {
	if _, known := ref.ParseExpand(in); !known {
		return true
	}
	for {
		i := strings.IndexByte(in, '[')
		if i < 0 {
			break
		}
		in = in[i+1:]
		j := strings.IndexByte(in, ']')
		if j < 0 {
			break
		}
		if oddHyphen(in[:j]) || in[:j] != "" && strings.Trim(in[:j], "-") == "" {
			return true
		}
		in = in[j+1:]
	}
	return false
}

// exprText makes an expression; plain exprs have no verbatim part.
func exprText(r *gen.Rng, a *gen.Alphabet, n int, dots, hostile bool) string {
	var b strings.Builder
	for k := 1 + r.Intn(n); k > 0; k-- {
		switch x := r.Intn(20); {
		case x < 6:
			for i := r.Intn(3); i >= 0; i-- {
				c := gen.Pick(r, a.Wild)
				if c > 0 && strings.IndexByte("[]{}*?", byte(c)) >= 0 && c < 128 {
					continue
				}
				b.WriteString(string(c))
			}
			if dots && r.P(1, 2) {
				b.WriteByte('.')
				if r.P(1, 4) {
					b.WriteByte('.')
				}
			}
		case x < 12:
			b.WriteByte('{')
			for i := r.Intn(4); i >= 0; i-- {
				for j := r.Intn(3); j > 0; j-- {
					c := gen.Pick(r, a.Wild)
					if c < 128 && strings.IndexByte("[]{}*?,.", byte(c)) >= 0 {
						continue
					}
					b.WriteString(string(c))
				}
				if i > 0 {
					b.WriteByte(',')
				}
			}
			b.WriteByte('}')
		case x < 17:
			b.WriteString("[" + gen.ClassBody(r, a, 3) + "]")
		case x == 17:
			b.WriteString(gen.Pick(r, []string{"{}", "[]", "{a}", "[a]", "{,}", "{,a}", "{a,}", "{a,a}", "[aa]", "[a-a]", "{ab}", "{,,}", "[ba]", "[z-a]", "[a-я]", "[0-9]", "[z-a9-0]", "[\ufff9-\uffff]", "[\ud7fd-\ue002]", "[\ufffc-\ufffe]"}))
		case x == 18 && hostile:
			b.WriteString(gen.Pick(r, []string{"*", "?", "{", "}", "[", "]", "{a{b,c}", "{[ab],c}", "{a*,b}", "[{]", "[*]", "[b-a]", "{a,b", "[a", "a}", "}{", "]["}))
		default:
			if dots && r.P(1, 10) {
				b.WriteByte('.')
			} else {
				b.WriteByte('-')
			}
		}
	}
	return b.String()
}

// checkLanguage compares the glob's language with that of the results.
func checkLanguage(t *T, in string, how string, results []string, a *gen.Alphabet, n int) bool {
	if !okPattern(in) {
		return true
	}
	segs, known := ref.ParseExpand(in)
	if !known || ref.SpansSpecial(segs) {
		return true
	}
	g, err := ref.ParseGlob(in)
	if err != nil {
		return true // not a well-formed glob
	}
	if len(results) > 3000 || len(results) > 60 && !t.R.P(30, len(results)) {
		return true // the cost is quadratic
	}
	gs := make([]*ref.Glob, len(results))
	for i, r := range results {
		if gs[i], err = ref.ParseGlob(r); err != nil {
			t.Fail("result", in, "%s of the well-formed glob %s contains %s, which is malformed: %v", how, q(in), q(r), err)
			return false
		}
	}
	for ; n > 0; n-- {
		u := gen.Subject(t.R, g, a)
		if t.R.P(1, 4) && len(gs) > 0 {
			u = gen.Subject(t.R, gs[t.R.Intn(len(gs))], a)
		}
		want := g.MatchUnits(u)
		got := false
		for _, x := range gs {
			if x.MatchUnits(u) {
				got = true
				break
			}
		}
		t.Eval(1)
		if want {
			t.Count("language_members", 1)
		} else {
			t.Count("language_nonmembers", 1)
		}
		if got != want {
			s := ref.String(u)
			t.Fail("language", in+" ~ "+s, "glob %s matches %s: %v; the results of %s %s match it: %v", q(in), q(s), want, how, qs(results), got)
			return false
		}
	}
	return true
}

func checkExpand(t *T, in string, a *gen.Alphabet, nsub int) bool {
	if oddClass(in) {
		t.Count("classes_not_defined", 1)
		return true
	}
	segs, _ := ref.ParseExpand(in)
	if n := ref.Count(segs, 6000); n > 6000 || n*len(in) > 8<<20 || n > 300 && !t.R.P(200, n) {
		t.Count("left_out_as_large", 1)
		return true
	}
	t.Desc(func() string { return "expand " + q(in) })
	want := ref.Product(segs)
	got, err := expand.Expand(in, -1, 0)
	t.Eval(1)
	if err != nil || !sameStrings(got, want) {
		t.Fail("expand", in, "Expand(%s, -1, 0) = %s, %v; want %s", q(in), qs(got), err, qs(want))
		return false
	}
	if len(want) > 1 {
		t.Count("expanded", 1)
		t.Distinct(gen.Hash(in))
	}
	if strings.ContainsAny(want[0], "[]{}*?") {
		t.Count("with_verbatim_part", 1)
	}
	t.Max("results", int64(len(got)))
	e := expand.ParseExpr(in)
	got2, err := e.Expand(-1, 0, false)
	t.Eval(1)
	if err != nil || !sameStrings(got2, want) {
		t.Fail("parsed", in, "ParseExpr(%s).Expand(-1, 0, false) = %s, %v; want %s", q(in), qs(got2), err, qs(want))
		return false
	}
	return checkLanguage(t, in, "Expand", got, a, nsub)
}

// largeExpr has between 30 thousand and 300 thousand combinations.
func largeExpr(r *gen.Rng) string {
	var b strings.Builder
	n, max := 1, 30000<<uint(r.Intn(4))
	for n < max {
		switch r.Intn(5) {
		case 0:
			b.WriteString("x")
		case 1:
			k := 2 + r.Intn(40)
			b.WriteByte('{')
			for i := 0; i < k; i++ {
				if i > 0 {
					b.WriteByte(',')
				}
				b.WriteString(fmt.Sprintf("%d", r.Intn(30)))
			}
			b.WriteByte('}')
			n *= k
		default:
			k := 2 + r.Intn(90)
			if n*k > 300000 {
				k = 2
			}
			lo := gen.Pick(r, []rune{'0', 0x400, 0x4e00, 0x1f600})
			if lo == '0' && k > 9 {
				k = 9
			}
			b.WriteString("[" + string(lo) + "-" + string(lo+rune(k-1)) + "]")
			n *= k
		}
	}
	if r.P(1, 4) {
		b.WriteString(gen.Pick(r, []string{"*", "?", "*{a,b}"}))
	}
	return b.String()
}

// checkLarge lists an expression with many combinations (max: limit, or -1) completely.
func checkLarge(t *T, in string, max int) {
	segs, known := ref.ParseExpandTo(in, 0x110000)
	if !known {
		return
	}
	checkListed(t, in, segs, max)
}

func checkListed(t *T, in string, segs []ref.Seg, max int) {
	if max >= 0 {
		segs = ref.Limit(segs, max, 0, 0)
	}
	if ref.Count(segs, 1200000) > 1200000 {
		t.Count("left_out_as_large", 1)
		return
	}
	how := fmt.Sprintf("Expand(%s, %d, 0)", q(in), max)
	t.Desc(func() string { return how })
	want := ref.Product(segs)
	var got []string
	var err error
	if t.R.P(1, 2) {
		how = "ParseExpr " + how
		got, err = expand.ParseExpr(in).Expand(max, 0, false)
	} else {
		got, err = expand.Expand(in, max, 0)
	}
	if max >= 0 && len(got) > max {
		t.Fail("limit", in, "%s returns %d results", how, len(got))
		return
	}
	t.Eval(1)
	t.Count("large", 1)
	t.Max("results", int64(len(got)))
	t.Distinct(gen.Hash(in))
	if err != nil || len(got) != len(want) {
		t.Fail("large", in, "%s: %d results, %v; want %d", how, len(got), err, len(want))
		return
	}
	for i := range want {
		if got[i] != want[i] {
			t.Fail("large", in, "%s: result %d is %s, want %s", how, i, q(got[i]), q(want[i]))
			return
		}
	}
}

// planesExpr has a class of up to a million characters, and maybe a few
// alternatives around it; n is the number of its combinations.
func planesExpr(r *gen.Rng) (in string, segs []ref.Seg, n int) {
	width := gen.Pick(r, []int{1 << 15, 1 << 16, 1 << 16, 1 << 17, 1<<20 - 10, 1 << 20})
	if r.P(1, 2) {
		width = 20000 + r.Intn(100000)
	}
	width += r.Intn(3) - 1
	lo, last := rune(0x10000), 0x10ffff
	if width <= 0xf800 && r.P(1, 2) {
		lo, last = 0x800, 0xffff
	}
	if width > last-int(lo)+1 {
		width = last - int(lo) + 1
	}
	lo += rune(r.Intn(last - int(lo) - width + 2))
	hi := lo + rune(width-1)
	for !utf8.ValidRune(lo) {
		lo--
	}
	for !utf8.ValidRune(hi) {
		hi++
	}
	in = "[" + string(lo) + "-" + string(hi) + "]"
	switch r.Intn(4) {
	case 0: // a part of it once more
		mid := lo + (hi-lo)/2
		if utf8.ValidRune(mid) {
			in = "[" + string(mid) + "-" + string(hi) + string(lo) + "-" + string(mid) + "a]"
		}
	case 1:
		in += gen.Pick(r, []string{"{a,b}", "x", "*", "{,a}"})
	case 2:
		in = gen.Pick(r, []string{"{a,b}", "x", ".", "{,a}", "[ab]"}) + in
	}
	segs, _ = ref.ParseExpandTo(in, 0x110000*2)
	return in, segs, ref.Count(segs, 1<<40)
}

// limited runs one expression under one set of limits; e is reused.
func checkLimited(t *T, in string, segs []ref.Seg, e *expand.Expressions, max, depth int, a *gen.Alphabet, nsub int) bool {
	lim := ref.Limit(segs, max, depth, 0)
	how := fmt.Sprintf("Expand(%s, %d, %d)", q(in), max, depth)
	key := fmt.Sprintf("%s max=%d depth=%d", in, max, depth)
	t.Desc(func() string { return how })
	if n := ref.Count(lim, 6000); n*len(in) <= 8<<20 && (n <= 100 || n <= 6000 && t.R.P(60, n)) {
		want := ref.Product(lim)
		var got []string
		var err error
		if e != nil && t.R.P(1, 2) {
			got, err = e.Expand(max, depth, false)
			how = fmt.Sprintf("ParseExpr(%s).Expand(%d, %d, false)", q(in), max, depth)
		} else {
			got, err = expand.Expand(in, max, depth)
		}
		t.Eval(1)
		if err != nil {
			t.Fail("error", key, "%s: %v", how, err)
			return false
		}
		if max >= 0 && len(got) > max && !(max == 0 && len(got) == 1) {
			t.Fail("limit", key, "%s returns %d results: %s", how, len(got), qs(got))
			return false
		}
		if !sameStrings(got, want) && !sameStrings(got, ref.Product(ref.Limit(segs, max, depth, 1))) && !sameStrings(got, ref.Product(ref.Limit(segs, max, depth, 2))) {
			t.Fail("limited", key, "%s = %s, want %s", how, qs(got), qs(want))
			return false
		}
		t.Max("results", int64(len(got)))
		if len(lim) > 0 && len(want) > 1 {
			t.Count("expanded_under_limits", 1)
		}
		if ref.Count(segs, 1<<30) > len(want) {
			t.Count("limits_had_an_effect", 1)
			t.Distinct(gen.Hash(key))
		}
		if !checkLanguage(t, in, how, got, a, nsub) {
			return false
		}
	}
	// the try variant
	want := ref.Firsts(lim)
	got, err := expand.ExpandTry(in, max, depth)
	if e != nil && t.R.P(1, 2) {
		got, err = e.Expand(max, depth, true)
	}
	t.Eval(1)
	if err != nil || len(got) != 1 || got[0] != want && got[0] != ref.Firsts(ref.Limit(segs, max, depth, 1)) && got[0] != ref.Firsts(ref.Limit(segs, max, depth, 2)) {
		t.Fail("try", key, "ExpandTry(%s, %d, %d) = %s, %v; want %s", q(in), max, depth, qs(got), err, q(want))
		return false
	}
	t.Count("tries", 1)
	return true
}

func limitsOf(t *T, segs []ref.Seg) (max, depth int) {
	n := 1
	switch t.R.Intn(8) {
	case 0:
		max = -1
	case 1:
		max = 0
	case 2:
		max = gen.Pick(t.R, []int{1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 100, 1000, 5000})
	default:
		// around a partial product
		k := t.R.Intn(len(segs) + 1)
		for i := 0; i < k && n < 5000; i++ {
			if segs[i].Alts != nil {
				n *= len(segs[i].Alts)
			}
		}
		max = n + t.R.Intn(3) - 1
	}
	if t.R.P(1, 2) {
		depth = t.R.Intn(5)
		if t.R.P(1, 3) { // around the number of dots
			dots := 0
			for i := range segs {
				dots += strings.Count(segs[i].Body, ".")
			}
			depth = t.R.Intn(dots + 3)
		}
	}
	for i := range segs {
		if len(segs[i].Alts) > 1 && strings.Contains(segs[i].Body, ".") {
			depth = 0 // whether dots inside an expression count is not defined
		}
	}
	return
}

func c15case(t *T, in string, a *gen.Alphabet, nsub int) {
	if oddClass(in) {
		return
	}
	segs, _ := ref.ParseExpand(in)
	var e *expand.Expressions
	t.Desc(func() string { return "parse expression " + q(in) })
	if t.R.P(1, 2) {
		e = expand.ParseExpr(in)
	}
	for n := 0; n < 4; n++ {
		max, depth := limitsOf(t, segs)
		if !checkLimited(t, in, segs, e, max, depth, a, nsub) {
			return
		}
	}
	t.Sample(func() string { return q(in) })
}

// hugeExpr has astronomically many combinations.
func hugeExpr(r *gen.Rng) string {
	var b strings.Builder
	dots := r.P(1, 3)
	for k := 20 + r.Intn(120); k > 0; k-- {
		if dots && r.P(1, 10) {
			b.WriteString(strings.Repeat("a.", gen.Size(r, 300)))
		}
		b.WriteString(gen.Pick(r, []string{"{a,b}", "{a,b,c}", "[a-z]", "[0-9]", "x", ".", "[а-яA-F]", "{,aa}", "{a}", "[\u4e00-\u4eff]", "{1,2,3,4,5,6,7,8,9,0}"}))
	}
	if r.P(1, 8) {
		b.WriteString(gen.Pick(r, []string{"*", "?", "*.a", "{a{b,c}}"}))
	}
	return b.String()
}

// longExpr has a few lists and classes of up to thousands of values.
func longExpr(r *gen.Rng) string {
	var b strings.Builder
	for k := 1 + r.Intn(4); k > 0; k-- {
		n := gen.Size(r, 2500)
		switch r.Intn(5) {
		case 0:
			b.WriteString("[" + gen.Separated(r, n) + "]")
		case 1:
			b.WriteString(gen.Pick(r, []string{"{a,b}", "[a-c]", "x", ".", "a.b", "{,a}"}))
		default:
			b.WriteByte('{')
			for i, j := 0, r.Intn(1000); i < n; i++ {
				if i > 0 {
					b.WriteByte(',')
				}
				if !r.P(1, 50) {
					j = (j*7 + 1) % 10007
				}
				if !r.P(1, 50) && (i > 0 && i < n-1 || !r.P(1, 3)) { // else an empty value, mostly at an end
					b.WriteString(strconv.Itoa(j))
				}
			}
			b.WriteByte('}')
		}
	}
	return b.String()
}

// farExpr is an expression with long plain texts between its parts: up to 70000 bytes.
func farExpr(r *gen.Rng, a *gen.Alphabet, dots bool) string {
	var b strings.Builder
	far := r.P(1, 3)
	for k := 2 + r.Intn(3); k > 0; k-- {
		if r.P(3, 4) {
			n := 20 + r.Intn(300)
			switch r.Intn(4) {
			case 0:
				n = gen.Pick(r, []int{64, 128, 256, 1024, 4096, 8192}) + r.Intn(5) - 2
			case 1:
				if far {
					n = gen.Pick(r, []int{1 << 14, 1 << 15, 1 << 16, 1 << 16, 70000}) + r.Intn(40) - 20
				}
			}
			for i, u := range gen.Run(r, a.Wild, n) {
				if u < 128 && strings.IndexByte("[]{}*?", byte(u)) >= 0 || u == '.' && !dots || u < 0 {
					u = 'x'
				}
				if dots && r.P(1, 40) && i > 0 {
					u = '.'
				}
				b.WriteRune(rune(u))
			}
		}
		b.WriteString(exprText(r, a, 3, dots, r.P(1, 5)))
	}
	return b.String()
}

func expAlpha(r *gen.Rng) *gen.Alphabet { return noComma(gen.SomeAlpha(r)) }

var c14tokens = []string{"a", "b", ",", "{", "}", "[", "]", "*", "Я"}
var c14tokens2 = []string{"a", "c", "-", "[", "]", "{", "}", ",", "{a,b}", "[ab]", "?"}
var c15tokens = []string{"a", ".", "{a,b}", "[abc]", "{c}", "*", "[b-a]", "{,a}"}

func init() {
	register(&Prop{
		ID: "C14",
		Rule: "One observation: one unlimited expansion (from the text, or from the parsed expression) whose ordered results are compared with an independent expander, or one subject whose membership in the glob's " +
			"language is compared with its membership in the union of the results. Expressions are generated (lists, classes, single alternatives, empty ones, invalid classes, brackets out of place) and all texts of up to 6 (thorough: 7) over two sets of tokens are enumerated. Distinct: distinct expressions with more than one result.",
		Assume: []string{
			"expressions with more than 6000 combinations are listed in a few cases only, up to 400 thousand (C15 drives larger ones under limits)",
			"classes with hyphens that do not join two characters, or invalid UTF-8 are not judged",
			"classes spanning wildcard characters are excluded from the language comparison, as the property says",
		},
		Need: map[string]int64{"expanded": 100000, "with_verbatim_part": 50000, "language_members": 100000, "language_nonmembers": 50000, "large": 10},
		Streams: []*Stream{
			{Name: "rand", Quick: 250000, Thorough: 8000000, Run: func(t *T) {
				a := expAlpha(t.R)
				in := exprText(t.R, a, 7, t.R.P(1, 3), t.R.P(1, 3))
				if checkExpand(t, in, a, 4) {
					t.Sample(func() string { return q(in) })
				}
			}},
			{Name: "glob", Quick: 100000, Thorough: 4000000, Run: func(t *T) {
				a := expAlpha(t.R)
				checkExpand(t, gen.Glob(t.R, a, gen.Opt{}), a, 8)
			}},
			{Name: "bytes", Quick: 60000, Thorough: 2000000, Run: func(t *T) {
				a := expAlpha(t.R)
				checkExpand(t, gen.BadBytes(t.R, exprText(t.R, a, 6, true, true)), a, 2)
			}},
			{Name: "enum", Quick: seqCount(len(c14tokens), 6), Thorough: seqCount(len(c14tokens), 7), Fixed: true, Chunk: 512, Run: func(t *T) {
				checkExpand(t, tokenSeq(c14tokens, int(t.I)), enumAlpha, 1)
			}},
			{Name: "enum2", Quick: seqCount(len(c14tokens2), 5), Thorough: seqCount(len(c14tokens2), 6), Fixed: true, Chunk: 512, Run: func(t *T) {
				checkExpand(t, tokenSeq(c14tokens2, int(t.I)), enumAlpha, 1)
			}},
			{Name: "longlists", Quick: 800, Thorough: 20000, Chunk: 4, Run: func(t *T) {
				checkExpand(t, longExpr(t.R), enumAlpha, 1)
			}},
			{Name: "far", Quick: 3000, Thorough: 100000, Chunk: 8, Run: func(t *T) {
				a := expAlpha(t.R)
				checkExpand(t, farExpr(t.R, a, t.R.P(1, 3)), a, 1)
			}},
			{Name: "large", Quick: 24, Thorough: 600, Chunk: 1, Run: func(t *T) {
				checkLarge(t, largeExpr(t.R), -1)
			}},
			{Name: "planes", Quick: 12, Thorough: 200, Chunk: 1, Run: func(t *T) {
				in, segs, n := planesExpr(t.R)
				t.Max("characters_and_combinations", int64(n))
				checkListed(t, in, segs, -1)
			}},
			{Name: "wide", Quick: 3000, Thorough: 60000, Chunk: 8, Run: func(t *T) {
				// wide classes across encoded lengths, long lists
				var b strings.Builder
				for k := 1 + t.R.Intn(2); k > 0; k-- {
					if t.R.P(1, 2) {
						lo := gen.Pick(t.R, []rune{0, 'A', 0x80, 0x3b1, 0x400, 0x4e00, 0x7c0, 0x800, 0x10000, 0x1f600, 0x100})
						hi := lo + rune(t.R.Intn(60))
						for len(string(hi)) != len(string(lo)) {
							hi--
						}
						b.WriteString("[" + string(lo) + "-" + string(hi) + gen.Pick(t.R, []string{"", "я", "a-z", "日"}) + "]")
					} else {
						b.WriteByte('{')
						for i := t.R.Intn(60); i >= 0; i-- {
							b.WriteString(fmt.Sprintf("%x", t.R.Intn(40)))
							if i > 0 {
								b.WriteByte(',')
							}
						}
						b.WriteByte('}')
					}
				}
				checkExpand(t, b.String(), enumAlpha, 3)
			}},
		},
	})
	register(&Prop{
		ID: "C15",
		Rule: "One observation: one expansion or try under a pair of limits, from the text or from one parsed expression reused with several limits, compared with an independent expander; the number of results against the limit; " +
			"or one subject's membership in the union of the results against the glob's language. Limits lie around the partial products and dot counts of the expression; expressions with up to 256^100 combinations are included. Distinct: distinct (expression, limits) pairs under which fewer strings come back than without limits.",
		Assume: []string{
			"dots inside lists are not driven together with a depth (the property counts dots before an expression)",
			"a list or class with a single alternative may or may not keep its brackets in a part that is not expanded",
			"a negative limit other than -1 is not driven",
		},
		Need: map[string]int64{"limits_had_an_effect": 100000, "expanded_under_limits": 50000, "tries": 300000, "language_members": 100000, "huge": 3000, "large": 10},
		Streams: []*Stream{
			{Name: "rand", Quick: 200000, Thorough: 6000000, Run: func(t *T) {
				a := expAlpha(t.R)
				c15case(t, exprText(t.R, a, 8, t.R.P(2, 3), t.R.P(1, 4)), a, 2)
			}},
			{Name: "huge", Quick: 6000, Thorough: 150000, Chunk: 16, Run: func(t *T) {
				in := hugeExpr(t.R)
				segs, _ := ref.ParseExpand(in)
				t.Count("huge", 1)
				for n := 0; n < 5; n++ {
					max, depth := limitsOf(t, segs)
					if max < 0 {
						max = 1 << uint(t.R.Intn(13))
					}
					if !checkLimited(t, in, segs, nil, max, depth, enumAlpha, 1) {
						return
					}
				}
				// all tries are cheap
				if !checkLimited(t, in, segs, nil, gen.Pick(t.R, []int{1 << 31, 1 << 40, -1, 1<<62 - 1}), t.R.Intn(4), enumAlpha, 1) {
					return
				}
			}},
			{Name: "far", Quick: 2500, Thorough: 80000, Chunk: 8, Run: func(t *T) {
				a := expAlpha(t.R)
				c15case(t, farExpr(t.R, a, t.R.P(1, 2)), a, 0)
			}},
			{Name: "longlists", Quick: 1500, Thorough: 40000, Chunk: 8, Run: func(t *T) {
				c15case(t, longExpr(t.R), enumAlpha, 1)
			}},
			{Name: "large", Quick: 24, Thorough: 600, Chunk: 1, Run: func(t *T) {
				// every expression has alternatives, so a body is never in question
				in := largeExpr(t.R)
				if t.R.P(1, 2) {
					in += "[a-z]{x,y,z}[0-9]"
				}
				checkLarge(t, in, 1<<uint(14+t.R.Intn(4))+t.R.Intn(5)-2)
			}},
			{Name: "planes", Quick: 16, Thorough: 400, Chunk: 1, Run: func(t *T) {
				in, segs, n := planesExpr(t.R)
				t.Max("characters_and_combinations", int64(n))
				for _, max := range []int{1, 2, 100, n & 0xffff, n & 0xfff, n>>1 - 1, n - 1, n, n + 1} {
					if max > 0 {
						if !checkLimited(t, in, segs, nil, max, 0, enumAlpha, 0) {
							return
						}
						if n > 6000 && (max < n || t.R.P(1, 4)) {
							checkListed(t, in, segs, max)
						}
					}
				}
			}},
			{Name: "enum", Quick: seqCount(len(c15tokens), 5), Thorough: seqCount(len(c15tokens), 6), Fixed: true, Chunk: 128, Run: func(t *T) {
				in := tokenSeq(c15tokens, int(t.I))
				segs, _ := ref.ParseExpand(in)
				for _, max := range []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 13} {
					for depth := 0; depth < 4; depth++ {
						if !checkLimited(t, in, segs, nil, max, depth, enumAlpha, 0) {
							return
						}
					}
				}
			}},
		},
	})
}
