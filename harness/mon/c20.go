package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/pkg/utils"

	"verifharness/gen"
	"verifharness/ref"
)

// part is one listed range of a class.
type part = ref.Range

func okChar(c rune) bool { return c >= 0 && c <= utf8.MaxRune && utf8.ValidRune(c) }

// spell writes a class body; hyphens and brackets are never written.
func spellClass(ps []part) string {
	var b strings.Builder
	for _, p := range ps {
		b.WriteRune(p.Lo)
		if p.Lo != p.Hi {
			b.WriteByte('-')
			b.WriteRune(p.Hi)
		}
	}
	return b.String()
}

func spellable(ps []part) bool {
	for _, p := range ps {
		if p.Lo == '-' || p.Hi == '-' || utf8.RuneLen(p.Lo) != utf8.RuneLen(p.Hi) {
			return false
		}
	}
	return true
}

// members lists the characters of the ranges, up to a limit.
func members(ps []part, limit int) (out []rune, all bool) {
	for _, p := range ps {
		for c := p.Lo; c <= p.Hi; c++ {
			if !okChar(c) {
				continue
			}
			if len(out) >= limit {
				return out, false
			}
			out = append(out, c)
		}
	}
	return out, true
}

// near lists the characters at and around the bounds.
func near(ps []part) (out []rune) {
	seen := map[rune]bool{}
	add := func(c rune) {
		if okChar(c) && !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	for _, p := range ps {
		for d := rune(-2); d <= 2; d++ {
			add(p.Lo + d)
			add(p.Hi + d)
		}
		add(p.Lo + (p.Hi-p.Lo)/2)
		add(p.Lo & 0x7f)
		add(p.Lo & 0xff)
		add(p.Hi ^ 0x80)
		add(p.Lo ^ 0x10000)
	}
	for _, c := range []rune{0, 1, '-', '[', ']', 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, utf8.RuneError, 0xffff, 0x10000, utf8.MaxRune} {
		add(c)
	}
	return
}

func showParts(ps []part) string {
	var b strings.Builder
	for _, p := range ps {
		fmt.Fprintf(&b, " %U-%U", p.Lo, p.Hi)
	}
	return b.String()
}

// judge compares a class with the set it should be.
func judgeClass(t *T, how string, rs *utils.RunesRanges, it *items.RunesRanges, ps []part, chars []rune) bool {
	fail := func(f string, args ...any) bool {
		t.Fail("class", how, "%s: %s", how, fmt.Sprintf(f, args...))
		return false
	}
	for _, c := range chars {
		want := ref.In(ps, ref.Unit(c))
		t.Eval(1)
		if rs.Contains(c) != want {
			return fail("Contains(%U) is %v", c, !want)
		}
		if want {
			t.Count("contained", 1)
		} else {
			t.Count("not_contained", 1)
		}
		if c > 127 && rs.ContainsUnicode(c) != want {
			return fail("ContainsUnicode(%U) is %v", c, !want)
		}
	}
	minSize, maxSize := 0, 0
	for _, p := range ps {
		lo, hi := utf8.RuneLen(p.Lo), utf8.RuneLen(p.Hi)
		if minSize == 0 || lo < minSize {
			minSize = lo
		}
		if hi > maxSize {
			maxSize = hi
		}
	}
	if rs.MinSize != minSize || rs.MaxSize != maxSize {
		return fail("sizes %d..%d, want %d..%d", rs.MinSize, rs.MaxSize, minSize, maxSize)
	}
	if it != nil && (it.MinLen() != minSize || it.MaxLen() != maxSize) {
		return fail("lengths of the item %d..%d, want %d..%d", it.MinLen(), it.MaxLen(), minSize, maxSize)
	}
	return true
}

// judgeSearch compares every search on the subject with a scan by characters.
func judgeSearch(t *T, how string, rs *utils.RunesRanges, it *items.RunesRanges, ps []part, s string) bool {
	u := ref.Units(s)
	pos, width, at := -1, 0, 0
	var char rune
	for _, x := range u {
		n := len(ref.String([]ref.Unit{x}))
		if ref.In(ps, x) {
			pos, width, char = at, n, rune(x)
			break
		}
		at += n
	}
	fail := func(f string, args ...any) bool {
		t.Fail("search", how+" ~ "+q(s), "%s on %s: %s", how, q(s), fmt.Sprintf(f, args...))
		return false
	}
	t.Eval(6)
	if p, c, n := rs.Index(s); p != pos || pos >= 0 && (c != char || n != width) {
		return fail("Index is %d %U %d, want %d %U %d", p, c, n, pos, char, width)
	}
	b := []byte(s)
	if p, c, n := rs.IndexByte(b); p != pos || pos >= 0 && (c != char || n != width) {
		return fail("IndexByte is %d %U %d, want %d %U %d", p, c, n, pos, char, width)
	}
	if pos >= 0 {
		t.Count("found", 1)
	} else {
		t.Count("not_found", 1)
	}
	first, last := -1, -1
	var fc, lc rune
	if len(u) > 0 {
		if ref.In(ps, u[0]) {
			first, fc = len(ref.String(u[:1])), rune(u[0])
		}
		if k := len(u) - 1; ref.In(ps, u[k]) {
			last, lc = len(s)-len(ref.String(u[k:])), rune(u[k])
		}
	}
	if c, n := rs.StartsWith(s); n != first || first >= 0 && c != fc {
		return fail("StartsWith is %U %d, want %U %d", c, n, fc, first)
	}
	if c, n := rs.EndsWith(s); n != last || last >= 0 && c != lc {
		return fail("EndsWith is %U %d, want %U %d", c, n, lc, last)
	}
	if it != nil {
		if p, n, f := it.Find(s); p != pos || pos >= 0 && n != width || f != 0 {
			return fail("item.Find is %d %d, want %d %d", p, n, pos, width)
		}
		if n, f := it.Match(s); n != first || f != 0 {
			return fail("item.Match is %d, want %d", n, first)
		}
		if n, f := it.MatchLast(s); n != last || f != 0 {
			return fail("item.MatchLast is %d, want %d", n, last)
		}
	}
	if string(b) != s {
		return fail("the byte slice was changed to %q", b)
	}
	return true
}

// hyphenEdge reports that the text of the set may put a hyphen where it means
// itself, which no text of a class can express for sure.
func hyphenEdge(ps []part) bool {
	if !ref.In(ps, '-') {
		return false
	}
	return !ref.In(ps, '-'-1) || !ref.In(ps, '-'+1)
}

func sameSetOf(a, b []part) bool {
	for _, p := range [][2][]part{{a, b}, {b, a}} {
		cur := p[0]
		for _, x := range cur {
			for c := x.Lo; c <= x.Hi; c++ {
				if okChar(c) && !ref.In(p[1], ref.Unit(c)) {
					return false
				}
			}
		}
	}
	return true
}

// classSubject makes a subject with members, neighbours of members, invalid and
// truncated bytes.
func classSubject(r *gen.Rng, in, out []rune) string {
	var b strings.Builder
	put := func(set []rune) {
		if len(set) > 0 {
			b.WriteRune(gen.Pick(r, set))
		}
	}
	n := r.Intn(6)
	if r.P(1, 10) {
		n += r.Intn(40)
	}
	member := -1
	if r.P(3, 4) {
		member = r.Intn(n + 1)
	}
	for i := 0; i <= n; i++ {
		if i == member {
			put(in)
			continue
		}
		switch r.Intn(8) {
		case 0:
			b.WriteByte(byte(0x80 + r.Intn(128)))
		case 1: // a truncated member
			if len(in) > 0 {
				s := string(gen.Pick(r, in))
				b.WriteString(s[:r.Intn(len(s))])
				if r.P(1, 2) {
					b.WriteString(s[r.Intn(len(s)):])
				}
			}
		case 2:
			if r.P(1, 4) {
				put(in)
			} else {
				put(out)
			}
		default:
			put(out)
		}
	}
	return b.String()
}

func randomParts(r *gen.Rng) []part {
	bases := []rune{'a', 'A', '0', 0x01, 0x20, 0x28, 0x78, 0x7a, 0x80, 0x430, 0x7f8, 0x800, 0x4e00, 0xd7f8, 0xe000, 0xfff0, 0xfff8, 0x10000, 0x1f600, utf8.MaxRune - 8}
	n := 1 + r.Intn(6)
	k := 1 + r.Intn(4)
	bs := make([]rune, k)
	for i := range bs {
		bs[i] = gen.Pick(r, bases)
		if r.P(1, 8) {
			if c := rune(r.Intn(utf8.MaxRune)); c < 0xd700 || c > 0xe000 {
				bs[i] = c
			}
		}
	}
	var ps []part
	for len(ps) < n {
		lo := gen.Pick(r, bs) + rune(r.Intn(14)) - 3
		hi := lo
		switch r.Intn(4) {
		case 0, 1:
			hi += rune(r.Intn(8))
		case 2:
			if r.P(1, 6) {
				hi += rune(r.Intn(3000))
			}
		}
		if !okChar(lo) || !okChar(hi) || utf8.RuneLen(lo) != utf8.RuneLen(hi) || lo < 0xd800 && hi > 0xdfff {
			continue
		}
		ps = append(ps, part{Lo: ref.Unit(lo), Hi: ref.Unit(hi)})
	}
	return ps
}

// split gives other ranges of the same set.
func splitParts(r *gen.Rng, ps []part) []part {
	var out []part
	for _, p := range ps {
		for p.Lo < p.Hi && r.P(1, 2) {
			m := p.Lo + ref.Unit(r.Intn(int(p.Hi-p.Lo)))
			a := part{Lo: p.Lo, Hi: m}
			if r.P(1, 3) { // overlap
				a.Hi += ref.Unit(r.Intn(int(p.Hi-m) + 1))
			}
			out = append(out, a)
			p.Lo = m + 1
		}
		out = append(out, p)
	}
	if len(out) > 0 && r.P(1, 3) {
		out = append(out, gen.Pick(r, out))
	}
	gen.Shuffle(r, out)
	return out
}

// inMerged is whether it is among the ranges, however they are.
func checkMerged(t *T, how string, rs []utils.RuneRange, ps []part, chars []rune) bool {
	for i, x := range rs {
		if x.First > x.Last || i > 0 && rs[i-1].Last >= x.First {
			t.Fail("merge", how, "%s: merged ranges are not ascending and disjoint: %v", how, rs)
			return false
		}
	}
	for _, c := range chars {
		in := false
		for _, x := range rs {
			in = in || c >= x.First && c <= x.Last
		}
		t.Eval(1)
		if in != ref.In(ps, ref.Unit(c)) {
			t.Fail("merge", how, "%s: %U is contained in the merged ranges %v: %v", how, c, rs, in)
			return false
		}
	}
	return true
}

func c20class(t *T, ps []part, subjects int) {
	if !spellable(ps) {
		ps2 := ps[:0:0]
		for _, p := range ps {
			if spellable([]part{p}) {
				ps2 = append(ps2, p)
			}
		}
		ps = ps2
	}
	text := "[" + spellClass(ps) + "]"
	t.Desc(func() string { return "class " + q(text) })
	how := q(text)
	chars := near(ps)
	var in, out []rune
	for _, c := range chars {
		if ref.In(ps, ref.Unit(c)) {
			in = append(in, c)
		} else {
			out = append(out, c)
		}
	}
	// as a text
	rs, ok := utils.RunesRangeExpand(text)
	if !ok {
		t.Fail("refused", how, "class %s was refused", how)
		return
	}
	it := items.NewRunesRanges(text)
	if it == nil {
		t.Fail("refused", how, "item of the class %s was refused", how)
		return
	}
	if !judgeClass(t, how, &rs, it, ps, chars) {
		return
	}
	// the same set spelled otherwise
	ps2 := splitParts(t.R, ps)
	if !spellable(ps2) {
		ps2 = ps
	}
	text2 := "[" + spellClass(ps2) + "]"
	rs2, ok := utils.RunesRangeExpand(text2)
	if !ok || !judgeClass(t, q(text2), &rs2, nil, ps, chars) {
		t.Fail("refused", q(text2), "class %s is not the class %s", q(text2), how)
		return
	}
	if !rs.Equal(&rs2) || !rs2.Equal(&rs) {
		t.Fail("equal", how, "the classes %s and %s are the same set, but not equal", how, q(text2))
		return
	}
	if a, b := rs.String(), rs2.String(); a != b || it.String() != a {
		t.Fail("text", how, "the same set has the texts %s, %s and %s (from %s and %s)", q(a), q(b), q(it.String()), how, q(text2))
		return
	}
	t.Count("respelled", 1)
	// as added characters
	if all, small := members(ps2, 400); small {
		var rs3 utils.RunesRanges
		gen.Shuffle(t.R, all)
		if t.R.P(1, 2) {
			rs3.Adds(string(all))
		} else {
			for i, c := range all {
				rs3.Add(c)
				if t.R.P(1, 20) {
					rs3.Merge()
					if k := t.R.Intn(i + 1); !rs3.Contains(all[k]) {
						t.Fail("class", how, "%s added character by character does not contain %U after a merge", how, all[k])
						return
					}
				}
			}
		}
		rs3.Merge()
		rs3.Merge()
		if !judgeClass(t, how+" added character by character", &rs3, nil, ps, chars) {
			return
		}
		if !rs3.Equal(&rs) || rs3.String() != rs.String() {
			t.Fail("equal", how, "the class %s is %s as a text and %s when its characters are added", how, q(rs.String()), q(rs3.String()))
			return
		}
		t.Count("added_one_by_one", 1)
		// one more or one less
		if len(out) > 0 {
			rs4, _ := utils.RunesRangeExpand(text)
			c := gen.Pick(t.R, out)
			{
				rs4.Add(c)
				rs4.NeedMerge = true
				rs4.Merge()
				ps4 := append(append([]part(nil), ps...), part{Lo: ref.Unit(c), Hi: ref.Unit(c)})
				if !judgeClass(t, how+" and "+fmt.Sprintf("%U", c), &rs4, nil, ps4, chars) {
					return
				}
				if rs4.Equal(&rs) || rs.Equal(&rs4) || rs4.String() == rs.String() {
					t.Fail("equal", how, "the class %s and the same with %U are equal (%s, %s)", how, c, q(rs.String()), q(rs4.String()))
					return
				}
			}
		}
	}
	// its text
	if text3 := rs.String(); !hyphenEdge(ps) {
		got, err := ref.ParseClass(strings.TrimSuffix(strings.TrimPrefix(text3, "["), "]"))
		if err != nil || !sameSetOf(got, ps) {
			t.Fail("text", how, "the text %s of the class %s is another set (%v)", q(text3), how, err)
			return
		}
		rs5, ok := utils.RunesRangeExpand(text3)
		if !ok || !rs5.Equal(&rs) || rs5.String() != text3 {
			t.Fail("text", how, "the text %s of the class %s is read back as %s", q(text3), how, q(rs5.String()))
			return
		}
		t.Count("texts_read_back", 1)
	}
	// ranges merged directly
	var rr []utils.RuneRange
	for _, p := range ps2 {
		if p.Lo > 127 {
			rr = append(rr, utils.RuneRange{First: rune(p.Lo), Last: rune(p.Hi)})
		}
	}
	var uni []part
	for _, p := range ps {
		if p.Lo > 127 {
			uni = append(uni, p)
		}
	}
	if !checkMerged(t, showParts(ps2), utils.RunesRangeMerge(rr), uni, chars) {
		return
	}
	// searches
	for i := 0; i < subjects; i++ {
		if !judgeSearch(t, how, &rs, it, ps, classSubject(t.R, in, out)) {
			return
		}
	}
	for _, c := range chars {
		if !judgeSearch(t, how, &rs, it, ps, string(c)) {
			return
		}
	}
	if !judgeSearch(t, how, &rs, it, ps, "") {
		return
	}
	t.Distinct(gen.Hash(text))
}

// asciiCase judges a set of single bytes.
func asciiCase(t *T, set [128]bool, listed string) {
	t.Desc(func() string { return "ASCII set " + q(listed) })
	how := q(listed)
	fail := func(f string, args ...any) {
		t.Fail("ascii", how, "ASCII set %s: %s", how, fmt.Sprintf(f, args...))
	}
	as, ok := utils.MakeASCIISet(listed)
	if !ok {
		fail("refused")
		return
	}
	var added utils.ASCIISet
	for i := 0; i < len(listed); i++ {
		if !added.Add(listed[i]) {
			fail("adding %q failed", listed[i])
			return
		}
	}
	if b := byte(128 + t.R.Intn(128)); added.Add(b) {
		fail("adding %#x succeeded", b)
		return
	}
	n, first, all := 0, byte(0), ""
	var ps []part
	for c := 0; c < 256; c++ {
		want := c < 128 && set[c]
		t.Eval(1)
		if as.Contains(byte(c)) != want || added.Contains(byte(c)) != want {
			fail("Contains(%#x) is %v and %v", c, as.Contains(byte(c)), added.Contains(byte(c)))
			return
		}
		if want {
			if n == 0 {
				first = byte(c)
			}
			n++
			all += string(rune(c))
			ps = append(ps, part{Lo: ref.Unit(c), Hi: ref.Unit(c)})
		}
	}
	if gn, gf := as.Count(); gn != n || n > 0 && gf != first {
		fail("Count is %d %q, want %d %q", gn, gf, n, first)
		return
	}
	if as.IsEmpty() != (n == 0) || as != added {
		fail("IsEmpty is %v, equal to the added one %v", as.IsEmpty(), as == added)
		return
	}
	if as.StringAll() != all {
		fail("StringAll is %s, want %s", q(as.StringAll()), q(all))
		return
	}
	var buf strings.Builder
	buf.WriteString("x[")
	as.WriteString(&buf)
	if buf.String() != "x["+as.String() {
		fail("WriteString behind \"x[\" gave %s", q(buf.String()))
		return
	}
	if !hyphenEdge(ps) {
		got, err := ref.ParseClass(as.String())
		if err != nil || !sameSetOf(got, ps) {
			fail("its text %s is another set", q(as.String()))
			return
		}
	}
	for k := 0; k < 6; k++ {
		b := make([]byte, t.R.Intn(12))
		for i := range b {
			b[i] = byte(t.R.Next())
			if t.R.P(1, 2) {
				b[i] &= 0x7f
			}
		}
		fi, la := -1, -1
		for i, c := range b {
			if c < 128 && set[c] {
				if fi < 0 {
					fi = i
				}
				la = i
			}
		}
		s := string(b)
		t.Eval(4)
		if as.Index(s) != fi || as.IndexByte(b) != fi || as.LastIndex(s) != la || as.LastIndexByte(b) != la {
			fail("on %q: Index %d, IndexByte %d (want %d), LastIndex %d, LastIndexByte %d (want %d)", s, as.Index(s), as.IndexByte(b), fi, as.LastIndex(s), as.LastIndexByte(b), la)
			return
		}
	}
	bad := listed + string(rune(128+t.R.Intn(1000))) + listed
	if _, ok := utils.MakeASCIISet(bad); ok {
		fail("with a character above 127 it was accepted")
		return
	}
	if panicOf(func() { utils.MakeASCIISetMust(bad) }) == nil {
		fail("MakeASCIISetMust did not panic on %s", q(bad))
		return
	}
	var must utils.ASCIISet
	if p := panicOf(func() { must = utils.MakeASCIISetMust(listed) }); p != nil || must != as {
		fail("MakeASCIISetMust panicked: %v", p)
		return
	}
	as.Clear()
	if !as.IsEmpty() || as.Contains(first) {
		fail("not empty after Clear")
		return
	}
	t.Count("ascii_sets", 1)
	t.Distinct(gen.Hash(all))
}

func init() {
	// windows around the characters where encodings change
	windows := []rune{0x7c, 0x80, 0x7fc, 0xd7fc, 0xe000, 0xfff8, 0xfffc, 0x10ffff - 5}
	const wn = 6
	register(&Prop{
		ID: "C20",
		Rule: "One observation: the membership of one character in a class (parsed from its text, from another text of the same set, or built by adding characters) compared with a list of ranges; or one search, prefix or suffix test on a string or byte slice compared with a scan by characters; texts, equality, sizes and merges are compared too. " +
			"Complete: all ASCII ranges, all pairs of ranges over 6-character windows around the places where encodings change; some classes have up to 3000 ranges and some are tested with every code point. Distinct: distinct class texts and byte sets.",
		Assume: []string{
			"a class in which the hyphen is the first or last character of a run has no text that certainly denotes it",
			"classes built by adding are merged before use, as documented",
		},
		Need: map[string]int64{"contained": 1000000, "not_contained": 1000000, "found": 500000, "not_found": 300000, "ascii_sets": 9000, "respelled": 50000, "added_one_by_one": 50000, "texts_read_back": 30000},
		Streams: []*Stream{
			{Name: "asciiranges", Fixed: true, Quick: 128 * 128, Run: func(t *T) {
				lo, hi := rune(t.I/128), rune(t.I%128)
				if lo > hi || lo == '-' || hi == '-' {
					return
				}
				c20class(t, []part{{Lo: ref.Unit(lo), Hi: ref.Unit(hi)}}, 2)
				var set [128]bool
				listed := ""
				for c := lo; c <= hi; c++ {
					set[c] = true
					listed = string(c) + listed
				}
				asciiCase(t, set, listed)
			}},
			{Name: "windows", Fixed: true, Quick: len(windows) * 21 * 22, Run: func(t *T) {
				base := windows[int(t.I)/(21*22)]
				k := int(t.I) % (21 * 22)
				rng := func(i int) (p part) {
					for lo := 0; lo < wn; lo++ {
						for hi := lo; hi < wn; hi++ {
							if i == 0 {
								return part{Lo: base + rune(lo), Hi: base + rune(hi)}
							}
							i--
						}
					}
					panic("harness: no such range")
				}
				ps := []part{rng(k / 22)}
				if k%22 < 21 {
					ps = append(ps, rng(k%22))
				}
				// ranges over different lengths are split
				var out []part
				for _, p := range ps {
					for lo := p.Lo; lo <= p.Hi; lo++ {
						if !okChar(rune(lo)) {
							continue
						}
						hi := lo
						for hi < p.Hi && okChar(rune(hi+1)) && utf8.RuneLen(rune(hi+1)) == utf8.RuneLen(rune(lo)) {
							hi++
						}
						out = append(out, part{Lo: lo, Hi: hi})
						lo = hi
					}
				}
				c20class(t, out, 4)
			}},
			{Name: "rand", Quick: 240000, Thorough: 8000000, Run: func(t *T) {
				ps := randomParts(t.R)
				t.Sample(func() string { return q("[" + spellClass(ps) + "]") })
				c20class(t, ps, 8)
			}},
			{Name: "many", Quick: 20000, Thorough: 800000, Run: func(t *T) {
				var ps []part
				c := rune(0x80 + t.R.Intn(0x1000))
				n := 3 + t.R.Intn(30)
				if t.R.P(1, 60) {
					n = gen.Size(t.R, 3000)
				}
				for ; n > 0; n-- {
					lo := c + rune(t.R.Intn(4))
					hi := lo + rune(t.R.Intn(3))
					if utf8.RuneLen(lo) == utf8.RuneLen(hi) {
						ps = append(ps, part{Lo: lo, Hi: hi})
					}
					c = hi + 1
				}
				if t.R.P(1, 3) {
					ps = append(ps, part{Lo: 'a', Hi: 'f'})
				}
				gen.Shuffle(t.R, ps)
				c20class(t, ps, 10)
			}},
			{Name: "ascii", Quick: 20000, Thorough: 500000, Run: func(t *T) {
				var set [128]bool
				b := make([]byte, t.R.Intn(40))
				for i := range b {
					b[i] = byte(t.R.Intn(128))
					if t.R.P(1, 3) && i > 0 {
						b[i] = (b[i-1] + 1) & 0x7f
					}
					set[b[i]] = true
				}
				asciiCase(t, set, string(b))
			}},
			{Name: "everychar", Quick: 300, Thorough: 2000, Chunk: 1, Run: func(t *T) {
				ps := randomParts(t.R)
				if !spellable(ps) {
					return
				}
				text := "[" + spellClass(ps) + "]"
				t.Desc(func() string { return "class " + q(text) + " against every character" })
				rs, ok := utils.RunesRangeExpand(text)
				if !ok {
					t.Fail("refused", q(text), "class %s was refused", q(text))
					return
				}
				for c := rune(0); c <= utf8.MaxRune; c++ {
					if okChar(c) && rs.Contains(c) != ref.In(ps, ref.Unit(c)) {
						t.Fail("class", q(text), "class %s: Contains(%U) is %v", q(text), c, rs.Contains(c))
						return
					}
				}
				t.Eval(utf8.MaxRune)
				t.Count("classes_tested_with_every_character", 1)
			}},
		},
	})
}
