package main

import (
	"io"
	"sort"
	"strings"

	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/pkg/utils"

	"verifharness/gen"
	"verifharness/ref"
)

// compileItems compiles a text piece by piece, checking what is split off.
func compileItems(t *T, text string) (list []items.Item, ok bool) {
	rest := text
	for rest != "" {
		want := len(rest)
		switch rest[0] {
		case '[':
			want = strings.IndexByte(rest, ']') + 1
		case '{':
			want = strings.IndexByte(rest, '}') + 1
		case '*':
			want = len(rest) - len(strings.TrimLeft(rest, "*"))
		case '?':
			want = 1
		default:
			if n := strings.IndexAny(rest, wildChars); n > 0 {
				want = n
			}
		}
		it, next, err := items.NextWildcardItem(rest)
		t.Eval(1)
		if err != nil || want <= 0 || next != rest[want:] {
			t.Fail("next", text, "NextWildcardItem(%s) leaves %s, %v; want %s", q(rest), q(next), err, q(rest[want:]))
			return nil, false
		}
		if it != nil {
			list = items.AppendItem(list, it)
		}
		rest = next
	}
	if _, _, err := items.NextWildcardItem(""); err != io.EOF {
		t.Fail("next", "", "NextWildcardItem of the empty text: %v, want EOF", err)
		return nil, false
	}
	return list, true
}

// pieceText makes the text of (mostly) one item.
func pieceText(r *gen.Rng, a *gen.Alphabet) string {
	switch r.Intn(12) {
	case 0, 1:
		return "[" + gen.ClassBody(r, a, 1+r.Intn(4)) + "]"
	case 2:
		return strings.Repeat("?", 1+r.Intn(5))
	case 3:
		var b strings.Builder
		for k := 1 + r.Intn(5); k > 0; k-- {
			b.WriteByte("*?"[r.Intn(2)])
		}
		return b.String()
	case 4, 5, 6, 7:
		for k := 0; k < 20; k++ {
			s := gen.Glob(r, a, gen.Opt{MaxElems: 1})
			if s[0] == '{' {
				return s
			}
		}
		return "{a,b}"
	case 8:
		return string(gen.Pick(r, a.Lits))
	case 9:
		return gen.Pick(r, []string{"[*]", "[?]", "[,]", "[\ufffd]", "\ufffd", "\x00", "[\x00-\x02]", "\x7f", "[\x7f]", "{,a}", "{\ufffd,a}", "{a,\ufffd}", "{[ab],c}", "{a?,b}", "{,*}"})
	}
	var b strings.Builder
	for k := 1 + r.Intn(4); k > 0; k-- {
		b.WriteRune(gen.Pick(r, a.Lits))
	}
	return b.String()
}

// posOf gives the byte positions of the characters and of the end.
func posOf(u []ref.Unit) []int {
	pos := make([]int, len(u)+1)
	for i := range u {
		pos[i+1] = pos[i] + len(ref.String(u[i:i+1]))
	}
	return pos
}

func kindOf(it items.Item) string {
	switch it.(type) {
	case *items.String:
		return "String"
	case items.Byte:
		return "Byte"
	case items.Rune:
		return "Rune"
	case items.Any:
		return "Any"
	case items.Star:
		return "Star"
	case *items.RunesRanges:
		return "RunesRanges"
	case *items.StringList:
		return "StringList"
	case *items.Group:
		return "Group"
	case *items.Chain:
		return "Chain"
	}
	return "other"
}

// checkText: the text of an item.
func checkText(t *T, text string, it items.Item) bool {
	s := it.String()
	var b strings.Builder
	before := gen.Pick(t.R, []string{"", "x", "Яa*", "{"})
	b.WriteString(before)
	w := it.WriteString(&b)
	t.Eval(1)
	if w != s || b.String() != before+s {
		t.Fail("text", text, "the item of %s is written as %s and returned as %s behind %s: the buffer holds %s", q(text), q(s), q(w), q(before), q(b.String()))
		return false
	}
	again, ok := compileItems(t, s)
	if !ok {
		return false
	}
	t.Eval(1)
	k := kindOf(it)
	plain := k == "Byte" || k == "Rune" || k == "String" // one symbol may be any of them
	if len(again) != 1 || !it.Equal(it) || again[0].String() != s || !plain && (!again[0].Equal(it) || !it.Equal(again[0]) || kindOf(again[0]) != k) {
		t.Fail("equal", text, "the item of %s has the text %s, which does not give an equal item (%d items)", q(text), q(s), len(again))
		return false
	}
	if it.Equal(nil) {
		t.Fail("equal", text, "the item of %s equals nil", q(text))
		return false
	}
	return true
}

// checkSearch: an item against one string.
func checkSearch(t *T, text string, it items.Item, g *ref.Glob, u []ref.Unit) bool {
	s := ref.String(u)
	u = ref.Units(s)
	pos := posOf(u)
	n := len(u)
	key := text + " ~ " + s
	t.Desc(func() string { return "item " + q(text) + " in " + q(s) })
	if g.MatchUnits(u) {
		t.Eval(1)
		if len(s) < it.MinLen() || it.MaxLen() != -1 && len(s) > it.MaxLen() {
			t.Fail("length", key, "the item of %s has lengths %d to %d, but %s (%d) is a member", q(text), it.MinLen(), it.MaxLen(), q(s), len(s))
			return false
		}
	}
	// the members are of a known number of characters
	size := -1
	switch kindOf(it) {
	case "Byte", "Rune", "RunesRanges":
		size = 1
	case "String", "Any":
		size = len(ref.Units(it.String()))
	}
	if size >= 0 {
		first, length := -1, 0
		for i := 0; i+size <= n; i++ {
			if g.MatchUnits(u[i : i+size]) {
				first, length = pos[i], pos[i+size]-pos[i]
				break
			}
		}
		head, tail := -1, -1
		if size <= n {
			if g.MatchUnits(u[:size]) {
				head = pos[size]
			}
			if g.MatchUnits(u[n-size:]) {
				tail = pos[n-size]
			}
		}
		t.Eval(2)
		i, l, flag := it.Find(s)
		if i != first || i >= 0 && l != length || flag != items.FindDone && flag != items.FindForwarded {
			t.Fail("find", key, "Find of %s in %s is %d, %d (flag %d); want %d, %d", q(text), q(s), i, l, flag, first, length)
			return false
		}
		if i, flag = it.Match(s); i != head || flag != items.FindDone {
			t.Fail("match", key, "Match of %s at the start of %s is %d (flag %d), want %d", q(text), q(s), i, flag, head)
			return false
		}
		if i, flag = it.MatchLast(s); flag != items.FindNotSupported {
			t.Eval(1)
			t.Count("at_the_end", 1)
			if i != tail || flag != items.FindDone {
				t.Fail("last", key, "MatchLast of %s at the end of %s is %d (flag %d), want %d", q(text), q(s), i, flag, tail)
				return false
			}
		}
		if first >= 0 {
			t.Count("found", 1)
		} else {
			t.Count("not_found", 1)
		}
		return true
	}
	list, ok := it.(items.ItemList)
	if !ok {
		return true
	}
	// the values: all members, the empty one aside
	var vals []string
	optional := false
	seen := map[string]bool{}
	var starts [256]bool
	list0 := 0 // lists of nothing but the empty value may stand beside it
	for i := range g.Elems {
		for _, alt := range g.Elems[i].Alts {
			if len(alt) > 0 {
				list0 = i
			}
		}
	}
	for _, alt := range g.Elems[list0].Alts {
		var v strings.Builder
		for i := range alt {
			if alt[i].K == ref.Class && len(alt[i].Cls) == 0 {
				continue
			}
			if alt[i].K == ref.Class { // of one symbol, or the list were a group
				v.WriteRune(alt[i].Cls[0].Lo)
			} else {
				v.WriteRune(alt[i].R)
			}
		}
		if v.Len() == 0 {
			optional = true
		} else if !seen[v.String()] {
			seen[v.String()] = true
			vals = append(vals, v.String())
			starts[v.String()[0]] = true
		}
	}
	sort.Strings(vals)
	t.Eval(1)
	m := list.Map()
	bad := list.Len() != len(vals) || list.IsOptional() != optional || len(m) != len(vals)+b2i(optional)
	for _, v := range vals {
		_, ok := m[v]
		bad = bad || !ok
	}
	if _, ok := m[""]; ok != optional || bad {
		t.Fail("values", text, "the list %s: %d values, optional %v, map %v; want %s, optional %v", q(text), list.Len(), list.IsOptional(), m, qs(vals), optional)
		return false
	}
	for i, v := range vals {
		// values are in order; judged by what they find, once each
		fi, fl := list.FindN(s, i)
		mi := list.MatchN(s, i)
		wi, wm := strings.Index(s, v), -1
		if strings.HasPrefix(s, v) {
			wm = len(v)
		}
		t.Eval(2)
		if fi != wi || fi >= 0 && fl != len(v) || mi != wm {
			t.Fail("value", key, "value %d of %s (%s) in %s: found at %d, %d, matched to %d; want %d, %d, %d", i, q(text), q(v), q(s), fi, fl, mi, wi, len(v), wm)
			return false
		}
		if wi >= 0 {
			t.Count("values_found", 1)
		}
	}
	start := -1
	for i := 0; i < len(s) && start < 0; i++ {
		if starts[s[i]] {
			start = i
		}
	}
	t.Eval(2)
	if i, supported := list.FindFirst(s); supported && i != start {
		t.Fail("first", key, "FindFirst of %s in %s is %d, want %d", q(text), q(s), i, start)
		return false
	} else if supported {
		t.Count("first_symbols", 1)
	}
	want := s != "" && starts[s[0]]
	if ok, supported := list.MatchFirst(s); supported && ok != want || !ok && want {
		t.Fail("first", key, "MatchFirst of %s on %s is %v, want %v", q(text), q(s), ok, want)
		return false
	}
	return true
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func checkItem(t *T, a *gen.Alphabet, text string, nsub int) (items.Item, bool) {
	t.Desc(func() string { return "item " + q(text) })
	g, err := ref.ParseGlob(text)
	if err != nil {
		return nil, true
	}
	list, ok := compileItems(t, text)
	if !ok || len(list) != 1 {
		return nil, ok
	}
	it := list[0]
	t.Count("kind_"+kindOf(it), 1)
	if !checkText(t, text, it) {
		return nil, false
	}
	for ; nsub > 0; nsub-- {
		u := gen.Subject(t.R, g, a)
		if t.R.P(1, 2) { // in the middle of other text
			u = append(append(gen.Subject(t.R, g, a), u...), gen.Subject(t.R, g, a)...)
			for k := t.R.Intn(4); k > 0; k-- {
				u = gen.Mutate(t.R, u, a.Wild)
			}
			if t.R.P(1, 60) { // far off
				run := gen.Run(t.R, a.Wild, gen.Long(t.R, 5400))
				at := t.R.Intn(len(u) + 1)
				u = append(append(append([]ref.Unit(nil), u[:at]...), run...), u[at:]...)
				if t.R.P(1, 2) { // behind what the item has nothing of
					for i := 0; i < at+len(run); i++ {
						u[i] = run[0]
					}
				}
			}
		}
		if !checkSearch(t, text, it, g, u) {
			return nil, false
		}
	}
	t.Distinct(gen.Hash(text))
	t.Sample(func() string { return q(text) })
	return it, true
}

// checkPair: equality is equality of kind and text.
func checkPair(t *T, ta, tb string, x, y items.Item) bool {
	want := kindOf(x) == kindOf(y) && x.String() == y.String()
	t.Eval(2)
	if want {
		t.Count("equal_pairs", 1)
	} else {
		t.Count("unequal_pairs", 1)
	}
	if x.Equal(y) != want || y.Equal(x) != want {
		t.Fail("equal", ta+" = "+tb, "the items of %s and %s (%s %s, %s %s) are equal: %v and %v, want %v", q(ta), q(tb), kindOf(x), q(x.String()), kindOf(y), q(y.String()), x.Equal(y), y.Equal(x), want)
		return false
	}
	return true
}

// checkSkip: skipping characters from both ends.
func checkSkip(t *T, s string) bool {
	u := ref.Units(s)
	pos := posOf(u)
	t.Desc(func() string { return "skip characters of " + q(s) })
	for n := 0; n <= len(u)+2; n++ {
		want, last := -1, -1
		if n <= len(u) {
			want, last = pos[n], pos[len(u)-n]
		}
		t.Eval(2)
		if got := utils.StringSkipRunes(s, n); got != want {
			t.Fail("skip", s, "StringSkipRunes(%s, %d) = %d, want %d", q(s), n, got, want)
			return false
		}
		if got := utils.StringSkipRunesLast(s, n); got != last {
			t.Fail("skip", s, "StringSkipRunesLast(%s, %d) = %d, want %d", q(s), n, got, last)
			return false
		}
	}
	t.Count("skips", 1)
	return true
}

// texts of one alternative in several shapes, for the pairs
func variantOf(r *gen.Rng, a *gen.Alphabet, text string) string {
	switch {
	case text[0] == '{' || text[0] == '[':
		open, body, end := text[:1], text[1:len(text)-1], text[len(text)-1:]
		switch r.Intn(5) {
		case 0:
			if open == "{" {
				p := strings.Split(body, ",")
				gen.Shuffle(r, p)
				return open + strings.Join(p, ",") + end
			}
			return open + body + body + end
		case 1:
			if open == "{" {
				return open + body + "," + strings.Split(body, ",")[0] + end
			}
			return open + body + string(gen.Pick(r, a.Lits)) + end
		case 2: // one more value of a length that is there
			if open == "{" {
				p := strings.Split(body, ",")
				u := []rune(gen.Pick(r, p))
				if len(u) > 0 {
					c := gen.Pick(r, a.Lits)
					if !strings.ContainsRune(wildChars+",", c) && !strings.ContainsAny(string(u), wildChars) {
						u[r.Intn(len(u))] = c
					}
				}
				p[r.Intn(len(p))] = string(u)
				return open + strings.Join(p, ",") + end
			}
			return open + gen.ClassBody(r, a, 2) + end
		}
		return pieceText(r, a)
	}
	u := []rune(text)
	switch r.Intn(4) {
	case 0:
		return text
	case 1:
		gen.Shuffle(r, u)
		return string(u)
	case 2:
		return text + string(u[len(u)-1])
	}
	return pieceText(r, a)
}

var c24small = []string{"a", "b", "ab", "Я", "aЯ", "?", "??", "*", "*?", "**?", "[ab]", "[a-b]", "[ba]", "[abЯ]", "[aЯ-б]", "[a]", "[Я]", "[я]", "[*]", "[Я-бг]", "[Я-вд]", "[Я-аг]",
	"{a,b}", "{b,a}", "{a,b,}", "{,a}", "{a,c}", "{ab,b}", "{a,bb}", "{aa,b}", "{a,Я}", "{a?,b}", "{b,a?}", "{a?,c}", "{[ab],c}", "{[ac],c}", "{[ab]?,c}", "{?,a}", "{a*,b}", "{a*b,b}", "{a**,b}", "{a}", "{a?}", "{?a}", "{??}", "{[ab]}",
	"{b?,a?}", "{a[bc],d}", "{a[bd],d}", "{,a?}", "{a,b,c}", "{a,b,d}", "{a,c,d}"}

func init() {
	register(&Prop{
		ID: "C24",
		Rule: "One observation: one answer of an item (Find, Match, MatchLast, MatchN, FindN, FindFirst, MatchFirst, Equal, its written text, its length bounds, the rest behind it) or of a skip helper compared with the definition. " +
			"Items of all kinds are compiled from generated texts (some with thousands of values or ranges) and driven with members, near misses, members inside other text and invalid bytes; every pair of " + "53 small items is compared. Distinct: distinct item texts.",
		Assume: []string{
			"patterns are valid UTF-8, strings are arbitrary bytes",
			"items are those that texts of globs compile to; lists inside lists do not exist",
			"the results of methods which say that they are not supported are not judged, nor is Find and Match of lists (which only announce the kind)",
		},
		Need: map[string]int64{"found": 50000, "not_found": 30000, "at_the_end": 30000, "values_found": 50000, "first_symbols": 10000, "equal_pairs": 5000, "unequal_pairs": 20000,
			"kind_Byte": 2000, "kind_Rune": 2000, "kind_String": 2000, "kind_Any": 2000, "kind_Star": 2000, "kind_RunesRanges": 2000, "kind_StringList": 2000, "kind_Group": 2000, "skips": 10000},
		Streams: []*Stream{
			{Name: "rand", Quick: 800000, Thorough: 20000000, Run: func(t *T) {
				a := noComma(gen.SomeAlpha(t.R))
				ta := pieceText(t.R, a)
				x, ok := checkItem(t, a, ta, 6)
				if !ok || x == nil {
					return
				}
				tb := variantOf(t.R, a, ta)
				if !okPattern(tb) {
					return
				}
				if _, err := ref.ParseGlob(tb); err != nil {
					return
				}
				l, ok := compileItems(t, tb)
				if ok && len(l) == 1 {
					checkPair(t, ta, tb, x, l[0])
				}
			}},
			{Name: "glob", Quick: 60000, Thorough: 2000000, Run: func(t *T) {
				a := noComma(gen.SomeAlpha(t.R))
				text := gen.Glob(t.R, a, gen.Opt{})
				t.Desc(func() string { return "items of " + q(text) })
				if list, ok := compileItems(t, text); ok {
					for _, it := range list {
						if !checkText(t, text, it) {
							return
						}
					}
				}
			}},
			{Name: "huge", Quick: 1500, Thorough: 40000, Chunk: 4, Run: func(t *T) {
				// classes of up to 1500 ranges, lists of thousands of values, long literals
				a := noComma(gen.SomeAlpha(t.R))
				ta := gen.HugeItem(t.R, a)
				x, ok := checkItem(t, a, ta, 4)
				if !ok || x == nil {
					return
				}
				t.Max("longest_item", int64(len(ta)))
				tb := variantOf(t.R, a, ta)
				if !okPattern(tb) {
					return
				}
				if _, err := ref.ParseGlob(tb); err != nil {
					return
				}
				l, ok := compileItems(t, tb)
				if ok && len(l) == 1 {
					checkPair(t, ta, tb, x, l[0])
				}
			}},
			{Name: "skip", Quick: 60000, Thorough: 2000000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				var u []ref.Unit
				for k := t.R.Intn(12); k > 0; k-- {
					u = append(u, gen.Pick(t.R, a.Wild))
				}
				if t.R.P(1, 200) {
					u = append(u, gen.Run(t.R, a.Wild, gen.Long(t.R, 700))...)
				}
				s := ref.String(u)
				if t.R.P(1, 2) {
					s = gen.BadBytes(t.R, s)
				}
				checkSkip(t, s)
			}},
			{Name: "pairs", Quick: len(c24small) * len(c24small), Fixed: true, Chunk: 16, Run: func(t *T) {
				ta, tb := c24small[int(t.I)%len(c24small)], c24small[int(t.I)/len(c24small)]
				x, ok := checkItem(t, enumAlpha, ta, 2)
				y, ok2 := checkItem(t, enumAlpha, tb, 2)
				if ok && ok2 && x != nil && y != nil {
					checkPair(t, ta, tb, x, y)
				}
			}},
			{Name: "words", Quick: seqCount(4, 6) * len(c24small), Thorough: seqCount(4, 8) * len(c24small), Fixed: true, Chunk: 256, Run: func(t *T) {
				// all words over a few symbols
				text := c24small[int(t.I)%len(c24small)]
				s := tokenSeq([]string{"a", "b", "Я", "\xd0"}, int(t.I)/len(c24small))
				g, err := ref.ParseGlob(text)
				if err != nil {
					return
				}
				l, ok := compileItems(t, text)
				if ok && len(l) == 1 {
					checkSearch(t, text, l[0], g, ref.Units(s))
				}
			}},
		},
	})
}
