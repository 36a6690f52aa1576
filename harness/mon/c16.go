package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/msaf1980/go-matcher/expand"
	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/escape"
	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/pkg/utils"

	"verifharness/gen"
	"verifharness/ref"
)

var hostileBits = []string{"a", "b", "ab", "*", "?", "[", "]", "{", "}", ",", "-", ".", "..", "=", "!=", "=~", "!=~", "~", "!", ";", "&", "'", "\"", "(", ")",
	"\\", "^", "$", "|", "+", " ", "\t", "\x00", "\x01", "\x7f", "\x80", "\xbf", "\xc0", "\xc2", "\xe2\x82", "\xed\xa0\x80", "\xf0\x9f", "\xf4\x90\x80\x80", "\xff", "\xef\xbf\xbd",
	"\u0080", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0010ffff", "Я", "日", "😀", "%", "%4", "%41", "%zz", "name", "__name__", "seriesByTag(", "seriesByTag('a=b')", "k=v",
	"[a-z]", "[z-a]", "[a-", "[-", "[^a]", "{a,b}", "{a*,b?}", "{,", "{}", "[]", "[\U00010000-\U0010ffff]", "[а-я]", "[a-ÿ]", "[a-я]", "[\u0080-\u0800]", "a-ÿ", "\u00ff", "\u0100", "\u2028", "\u00a0", "\ufeff", "\n", "\r\n", "/", "#", "@", ":", "0", "1"}

// hostile makes a text of up to n bits.
func hostile(r *gen.Rng, n int) string {
	var b strings.Builder
	switch r.Intn(6) {
	case 0: // few kinds of bits
		k := 2 + r.Intn(4)
		bits := make([]string, k)
		for i := range bits {
			bits[i] = gen.Pick(r, hostileBits)
		}
		for i := r.Intn(n + 1); i > 0; i-- {
			b.WriteString(gen.Pick(r, bits))
		}
	case 1: // something well-formed, damaged
		a := gen.SomeAlpha(r)
		var s string
		switch r.Intn(4) {
		case 0:
			s = gen.Glob(r, a, gen.Opt{})
		case 1:
			s = gen.Dotted(r, a, nil, 4)
		case 2:
			p := gen.NewTermPool(r, 3, 6)
			s = gen.QueryText(r, p.Query(r, 1+r.Intn(4)), false)
		default:
			s = exprText(r, a, 6, true, true)
		}
		return damage(r, s)
	case 2: // arbitrary bytes
		for i := r.Intn(n + 1); i > 0; i-- {
			b.WriteByte(byte(r.Next()))
		}
	default:
		for i := r.Intn(n + 1); i > 0; i-- {
			b.WriteString(gen.Pick(r, hostileBits))
		}
	}
	return b.String()
}

func damage(r *gen.Rng, s string) string {
	b := []byte(s)
	for k := 1 + r.Intn(3); k > 0; k-- {
		n := len(b)
		if n == 0 {
			return string(b)
		}
		i := r.Intn(n)
		switch r.Intn(6) {
		case 0:
			b[i] = byte(r.Next())
		case 1:
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			b = append(b[:i:i], append([]byte(gen.Pick(r, hostileBits)), b[i:]...)...)
		case 3:
			b = b[:i]
		case 4:
			b = b[i:]
		default:
			j := i + r.Intn(n-i)
			b = append(b[:j:j], b[i:]...)
		}
		if len(b) > 300 {
			b = b[:300]
		}
	}
	return string(b)
}

// tame reports that matching the pattern needs no deep backtracking (patterns
// with many stars and lists are the subject of the stream "backtracking").
func tame(s string) bool {
	return strings.Count(s, "*")+strings.Count(s, "{") <= 5
}

var dropStore = &nopStore{}

type nopStore struct{}

func (*nopStore) Store(string, int) {}

// step names what is running, for the report of a crash.
type step struct {
	t    *T
	op   string
	args []string
}

func (s *step) do(op string, args ...string) {
	s.op, s.args = op, args
	s.t.W.counts["evaluations"]++
	if s.t.Solo {
		fmt.Fprintf(os.Stderr, "DESC %s\n", s.String())
	}
}

func (s *step) String() string { return s.op + " of " + qs(s.args) }

// outcome counters tell how far the inputs got
func (s *step) result(err error) {
	if err == nil {
		s.t.W.counts["accepted"]++
	} else {
		s.t.W.counts["rejected"]++
	}
}

// hostileOps drives every public operation with the text and the subjects.
func hostileOps(t *T, text string, subs []string, other string) {
	s := &step{t: t}
	t.descFn = s.String
	subjects := subs
	if !tame(text) {
		subjects = nil
		for _, x := range subs {
			if len(x) <= 8 {
				subjects = append(subjects, x)
			}
		}
	}
	var buf strings.Builder

	// globs
	s.do("glob.Parse", text)
	g, err := glob.Parse(text)
	s.result(err)
	s.do("glob.ParseMust", text)
	_ = panicOf(func() { glob.ParseMust(text) })
	tree := glob.NewTree()
	if err == nil {
		for _, x := range subjects {
			s.do("Glob.Match", text, x)
			g.Match(x)
			s.do("items.MatchItems", text, x)
			items.MatchItems(x, g.Items)
		}
		s.do("Glob.String, Raw, WriteRandom", text)
		_ = g.String() + g.Raw()
		g.WriteRandom(&buf)
		s.do("glob.Parse of the normalised text", g.Node)
		_, err2 := glob.Parse(g.Node)
		s.result(err2)
		s.do("GlobTree.AddGlob", text)
		_, _, err2 = tree.AddGlob(g, 1)
		s.result(err2)
	}
	for i, x := range []string{text, other, "a*", text + other} {
		s.do("GlobTree.Add", x)
		if !tame(x) {
			continue
		}
		_, _, err := tree.Add(x, i-1)
		s.result(err)
	}
	for _, x := range subjects {
		s.do("GlobTree.Match", text, other, x)
		tree.Match(x, dropStore)
	}

	// dotted globs
	s.do("gglob.Parse", text)
	gg, err := gglob.Parse(text)
	s.result(err)
	s.do("gglob.ParseMust", text)
	_ = panicOf(func() { gglob.ParseMust(text) })
	gtree := gglob.NewTree()
	if err == nil {
		s.do("GGlobTree.AddGlob", text)
		_, _, err2 := gtree.AddGlob(gg, 1)
		s.result(err2)
	}
	for i, x := range []string{text, other, "*.a", text + "." + other} {
		s.do("GGlobTree.Add", x)
		if !tame(x) {
			continue
		}
		_, _, err := gtree.Add(x, i-1)
		s.result(err)
	}
	var scratch []string
	for _, x := range subjects {
		if err == nil {
			s.do("GGlob.Match", text, x)
			gg.Match(x)
		}
		s.do("path helpers", x)
		gglob.PathLevel(x)
		parts := gglob.PathSplit(x)
		gglob.HasEmptyParts(parts)
		ok := gglob.PathSplitB(x, &scratch)
		if err == nil {
			s.do("GGlob.MatchByParts", text, x)
			gg.MatchByParts(parts, len(x))
			gg.MatchByParts(parts, 0)
			gg.MatchByParts(nil, 0)
			if ok {
				gg.MatchByParts(scratch, -1)
			}
		}
		s.do("GGlobTree.Match, MatchByParts", text, other, x)
		gtree.Match(x, dropStore)
		gtree.MatchByParts(parts, dropStore)
	}

	// tag queries
	ttree := gtags.NewTree()
	var lists []gtags.TaggedTermList
	for _, x := range []string{text, "seriesByTag('" + text + "')", "seriesByTag(\"" + other + "=" + text + "\", 'name=~" + other + "')", "seriesByTag(" + text + ")",
		"seriesByTag('k=a'" + text + ")", "seriesByTag('a!=" + text + "','b=" + other + "')"} {
		s.do("gtags.ParseSeriesByTag", x)
		l, err := gtags.ParseSeriesByTag(x)
		s.result(err)
		if err == nil {
			lists = append(lists, l)
		}
		if !tame(x) {
			continue
		}
		s.do("GTagsTree.Add", x)
		_, _, err = ttree.Add(x, len(lists)*2)
		s.result(err)
	}
	for _, c := range [][]string{nil, {}, {text}, {text, other}, {"k=" + text}, {"k!=~" + text}, {text + "=" + other, "name=" + text}, {" " + text + " =~ " + other + " "}} {
		s.do("gtags.ParseTaggedConditions", c...)
		l, err := gtags.ParseTaggedConditions(c)
		s.result(err)
		if err == nil {
			lists = append(lists, l)
		}
	}
	var tags []gtags.Tag
	for i, x := range subs {
		if len(x) > 8 && !tame(text) {
			x = x[:8]
		}
		tags = append(tags, gtags.Tag{Key: gen.Pick(t.R, []string{"", "__name__", "a", "b", "k", "name", text, x}), Value: x})
		if i > 5 {
			break
		}
	}
	tagMap := gtags.TagsMap(tags)
	for i, l := range lists {
		s.do("TaggedTermList.String", text)
		_ = l.String()
		s.do("TaggedTermList.MatchByTags, MatchByTagsMap", text, fmt.Sprintf("%q", tags))
		l.MatchByTags(tags)
		l.MatchByTags(nil)
		l.MatchByTagsMap(tagMap)
		l.MatchByTagsMap(nil)
		for j := range l {
			for _, x := range subjects {
				s.do("TaggedTerm.Match", text, x)
				l[j].Match(x)
			}
			_ = l[j].String()
		}
		s.do("GTagsTree.AddTerms", text)
		_, _, err := ttree.AddTerms(l, i*2+1)
		s.result(err)
	}
	s.do("GTagsTree.MatchByTags, MatchByTagsMap", text, fmt.Sprintf("%q", tags))
	ttree.MatchByTags(tags, dropStore)
	ttree.MatchByTags(nil, dropStore)
	ttree.MatchByTagsMap(tagMap, dropStore)
	ttree.MatchByTagsMap(nil, dropStore)

	// tagged paths
	for _, x := range []string{text, other + "?" + text, text + ";" + other + "=" + text} {
		s.do("path decoders", x)
		_, err := gtags.PathTags(x)
		s.result(err)
		_, err = gtags.PathTagsMap(x)
		s.result(err)
		err = gtags.PathTagsMapB(x, map[string]string{"a": "b"})
		s.result(err)
		_, err = gtags.GraphitePathTags(x)
		s.result(err)
		_, err = gtags.GraphitePathTagsMap(x)
		s.result(err)
		err = gtags.GraphitePathTagsMapB(x, map[string]string{"a": "b"})
		s.result(err)
		gtags.NextTag(x)
		gtags.GraphiteNextTag(x)
	}

	// expansion
	for _, max := range []int{0, 1, 2, 7, 100} {
		depth := t.R.Intn(4)
		s.do("expand.Expand, ExpandTry max="+strconv.Itoa(max)+" depth="+strconv.Itoa(depth), text)
		_, err := expand.Expand(text, max, depth)
		s.result(err)
		_, err = expand.ExpandTry(text, max, depth)
		s.result(err)
	}
	s.do("expand.ParseExpr, Expand", text)
	e := expand.ParseExpr(text)
	_, err = e.Expand(20, 0, true)
	s.result(err)
	_, err = e.Expand(20, 2, false)
	s.result(err)
	s.do("expand.ExpandTry without limits", text)
	_, err = expand.ExpandTry(text, -1, 0)
	s.result(err)

	// escaping
	s.do("escape", text)
	var bb bytes.Buffer
	escape.QueryTo(text, &bb)
	escape.PathTo(text, &bb)
	_ = escape.Query(text) + escape.Path(text) + escape.Unescape(text)
	escape.UnescapeTo(text, &buf)
	escape.UnescapeNameTo(text, &buf)

	// prefixes and wildcard helpers
	s.do("items.IntersectGlobs", text, other)
	items.IntersectGlobs(nil)
	items.IntersectGlobs([]string{text})
	items.IntersectGlobs([]string{text, other})
	items.IntersectGlobs([]string{other, text, text + other})
	items.IntersectGlobs([]string{text + "a", text + "b", text})
	s.do("wildcard helpers", text)
	items.WildcardCount(text)
	items.HasWildcard(text)
	items.IndexWildcard(text)
	items.IndexLastWildcard(text)
	gglob.WildcardCount(text)
	gglob.HasWildcard(text)
	gglob.IndexWildcard(text)
	gglob.IndexLastWildcard(text)

	// classes
	s.do("utils.RunesRangeExpand", text)
	rs, ok := utils.RunesRangeExpand(text)
	if ok {
		s.do("RunesRanges", text)
		_ = rs.String()
		for _, x := range subs {
			s.do("RunesRanges search", text, x)
			rs.Index(x)
			rs.IndexByte([]byte(x))
			rs.StartsWith(x)
			rs.EndsWith(x)
			for _, c := range x {
				rs.Contains(c)
			}
		}
		rs.Contains(-1)
		rs.Contains(utf8.MaxRune + 1)
		s.do("RunesRanges.Adds, Merge", text, other)
		rs.Adds(other)
		rs.Merge()
	}
	s.do("items.NewRunesRanges", text)
	if it := items.NewRunesRanges(text); it != nil {
		it.WriteRandom(&buf)
		_ = it.String()
		for _, x := range subs {
			it.Find(x)
			it.Match(x)
			it.MatchLast(x)
		}
	}
	s.do("utils.MakeASCIISet", text)
	if as, ok := utils.MakeASCIISet(text); ok {
		_ = as.String() + as.StringAll()
		as.Count()
		for _, x := range subs {
			as.Index(x)
			as.LastIndex(x)
			as.IndexByte([]byte(x))
			as.LastIndexByte([]byte(x))
		}
	}
	_ = panicOf(func() { utils.MakeASCIISetMust(text) })
	s.do("utils.StringSkipRunes", text)
	for n := 0; n < 4; n++ {
		utils.StringSkipRunes(text, n)
		utils.StringSkipRunesLast(text, n)
	}
	_ = utils.CloneString(text)

	// single items
	s.do("items.ListExpand, NewItemList, NewGroup", text)
	if list, ok := items.ListExpand(text); ok {
		if it, err := items.NewItemList(list); err == nil && it != nil {
			_ = it.String()
			it.WriteRandom(&buf)
		}
	}
	s.do("items.NextWildcardItem", text)
	for rest, n := text, 0; rest != "" && n <= len(text); n++ {
		it, next, err := items.NextWildcardItem(rest)
		if err != nil {
			break
		}
		if it != nil {
			_ = it.String()
			if it.MinLen() < 0 {
				break
			}
		}
		rest = next
	}
	t.Distinct(gen.Hash(text))
}

func hostileSubjects(r *gen.Rng, text string, n int) []string {
	subs := []string{"", text}
	if gr, err := ref.ParseGlob(text); err == nil && len(text) < 200 {
		a := gen.SomeAlpha(r)
		for k := 0; k < n; k++ {
			s := ref.String(gen.Subject(r, gr, a))
			if len(s) > 60 {
				s = s[:60]
			}
			subs = append(subs, s)
			if r.P(1, 2) {
				subs = append(subs, gen.BadBytes(r, s))
			}
		}
	}
	for k := 0; k < n; k++ {
		s := hostile(r, 10)
		if len(s) > 60 {
			s = s[:60]
		}
		subs = append(subs, s)
	}
	return subs
}

var c16tokens = []string{"a", "*", "?", "[", "]", "{", "}", ",", "-", ".", "\xff", "Я", "="}

// hugeUnits are repeated to make long inputs.
var hugeUnits = []string{"a", "?", "*", "[", "]", "{", "}", ",", ".", "a.", "?.", "*.", "[a]", "[]", "{}", "{a}", "{a,b}", "{a,", "a,", "{?,a}", "[a-z]", "a-", "-", "\xff", "Я", "[Я", "😀", "\x00",
	"'k=v',", "k=v;", "k=v&", "%41", "%", "+", "=", "!", "~", "(", "seriesByTag(", "'a=b' ", "\"", "'", "*?", "?*", "[a]?", "{a,b}.", "[ab].", "..", "a?", "[\U00010000-\U0010ffff]", " ", "a{", "}a"}

// hugeOps drives the operations that have no reason to be worse than about
// linear; matching is driven with subjects that need no backtracking.
func hugeOps(t *T, text string) {
	s := &step{t: t}
	t.descFn = func() string {
		return s.op + fmt.Sprintf(" of %d bytes: %s...", len(text), q(text[:min(len(text), 60)]))
	}
	var buf strings.Builder
	easy := tame(text) && (len(text) <= 4096 || !strings.Contains(text, "*")) // matching a star is quadratic
	s.do("glob.Parse")
	if g, err := glob.Parse(text); err == nil {
		s.do("glob of the normalised text")
		_, err := glob.Parse(g.Node)
		s.result(err)
		s.do("Glob.WriteRandom")
		g.WriteRandom(&buf)
		one := buf.String()
		if easy {
			s.do("Glob.Match")
			g.Match(one)
			g.Match(text)
		}
		s.do("GlobTree.AddGlob")
		tree := glob.NewTree()
		_, _, err = tree.AddGlob(g, 1)
		s.result(err)
		if easy {
			s.do("GlobTree.Match")
			tree.Match(one, dropStore)
			tree.Match(text, dropStore)
		}
	}
	s.do("gglob.Parse")
	if g, err := gglob.Parse(text); err == nil {
		if easy {
			s.do("GGlob.Match")
			g.Match(text)
			g.Match(strings.TrimSuffix(text, "."))
		}
		s.do("GGlobTree.AddGlob")
		tree := gglob.NewTree()
		_, _, err = tree.AddGlob(g, 1)
		s.result(err)
		if easy {
			s.do("GGlobTree.Match")
			tree.Match(text, dropStore)
		}
	}
	s.do("path helpers")
	gglob.PathLevel(text)
	gglob.HasEmptyParts(gglob.PathSplit(text))
	var scratch []string
	gglob.PathSplitB(text, &scratch)
	s.do("a tree against a long subject")
	tree := glob.NewTree()
	for i, p := range []string{"*a", "a*", "?", "*[a-z]*", "{a,b}*", "*{a,b}"} {
		tree.Add(p, i)
	}
	if len(text) <= 4096 {
		tree.Match(text, dropStore)
	}
	for _, x := range []string{"seriesByTag(" + text + ")", "seriesByTag('a=" + text + "')", text} {
		s.do("gtags.ParseSeriesByTag")
		l, err := gtags.ParseSeriesByTag(x)
		s.result(err)
		if err == nil {
			_ = l.String()
		}
	}
	s.do("gtags.ParseTaggedConditions")
	for _, c := range []string{"k=" + text, "k=~" + text, text + "=a"} {
		_, err := gtags.ParseTaggedConditions([]string{c})
		s.result(err)
	}
	for _, x := range []string{"n;" + text, "n?" + text} {
		s.do("path decoders")
		_, err := gtags.PathTags(x)
		s.result(err)
		_, err = gtags.GraphitePathTags(x)
		s.result(err)
		_, err = gtags.PathTagsMap(x)
		s.result(err)
		_, err = gtags.GraphitePathTagsMap(x)
		s.result(err)
	}
	s.do("expand")
	for _, max := range []int{0, 1, 100} {
		_, err := expand.Expand(text, max, 0)
		s.result(err)
		_, err = expand.ExpandTry(text, max, 1)
		s.result(err)
	}
	_, err := expand.ExpandTry(text, -1, 0)
	s.result(err)
	s.do("escape")
	var bb bytes.Buffer
	escape.QueryTo(text, &bb)
	escape.PathTo(text, &bb)
	_ = escape.Query(text) + escape.Path(text) + escape.Unescape(text)
	escape.UnescapeTo(text, &buf)
	escape.UnescapeNameTo(text, &buf)
	s.do("items.IntersectGlobs")
	items.IntersectGlobs([]string{text, text + "a", text})
	s.do("utils.RunesRangeExpand")
	if rs, ok := utils.RunesRangeExpand(text); ok {
		_ = rs.String()
		rs.Index(text)
		rs.EndsWith(text)
	}
	s.do("items.NextWildcardItem")
	_, _, _ = items.NextWildcardItem(text)
	t.Count("long_inputs", 1)
	t.Max("input_bytes", int64(len(text)))
	t.Distinct(gen.Hash(text))
}

func hugeText(r *gen.Rng, size int) string {
	if r.P(1, 3) {
		return richText(r, size, r.Intn(10))
	}
	u := gen.Pick(r, hugeUnits)
	if r.P(1, 4) {
		u += gen.Pick(r, hugeUnits)
	}
	s := strings.Repeat(u, size/len(u)+1)
	switch r.Intn(5) {
	case 0:
		s = gen.Pick(r, hugeUnits) + s
	case 1:
		s += gen.Pick(r, []string{"]", "}", "b", "*", ".", ")", "'"})
	case 2:
		s = gen.Pick(r, []string{"{", "[", "a*", "'", "(", "a."}) + s + gen.Pick(r, []string{"]", "}", "b", "*", ".", ")", "'"})
	}
	return s
}

// richText makes a long well-formed text of parts which vary, repeat and are
// not in order: one big list, class, query, path or a row of pieces.
func richText(r *gen.Rng, size, kind int) string {
	pool := []string{"a", "b", "c"}
	if r.P(1, 2) {
		pool = nil
		for n := 2 + r.Intn(6); n > 0; n-- {
			pool = append(pool, gen.Pick(r, []string{"a", "b", "ab", "cd", "Я", "яб", "😀", "x1", "zz", "0"}))
		}
	}
	unique := r.P(1, 3)
	main, skew := gen.Pick(r, pool), r.P(1, 2)
	part := func() string {
		w := gen.Pick(r, pool)
		if skew && r.P(9, 10) {
			w = main
		}
		if unique {
			w += strconv.Itoa(r.Intn(size + 1))
		}
		return w
	}
	var b strings.Builder
	row := func(sep string, f func() string) {
		for i := 0; b.Len() < size; i++ {
			if i > 0 {
				b.WriteString(sep)
			}
			b.WriteString(f())
		}
	}
	wild := func() string {
		w := part()
		switch r.Intn(8) {
		case 0:
			w += "?"
		case 1:
			w = "[ab]" + w
		}
		return w
	}
	pair := func() string { return part() + gen.Pick(r, []string{"=", "=", "=", "!=", "=~"}) + part() }
	switch kind {
	case 0, 1:
		b.WriteString(gen.Pick(r, []string{"", "x", "*", "?"}) + "{")
		row(",", part)
		b.WriteString("}" + gen.Pick(r, []string{"", "x", "*", "?"}))
	case 2:
		b.WriteString("{")
		row(",", wild)
		b.WriteString("}" + gen.Pick(r, []string{"", "x"}))
	case 3:
		b.WriteString(gen.Pick(r, []string{"", "x", "*"}) + "[")
		row("", func() string {
			lo := rune('a')
			if r.P(2, 3) {
				lo = rune(0x400 + r.Intn(200)*4)
			}
			if r.P(1, 2) {
				return string(lo)
			}
			return string(lo) + "-" + string(lo+rune(r.Intn(5)))
		})
		b.WriteString("]")
	case 4:
		row(".", wild)
	case 5:
		row(gen.Pick(r, []string{";", "&"}), func() string { return part() + "=" + part() })
	case 6:
		b.WriteString("seriesByTag(")
		row(",", func() string { return "'" + pair() + "'" })
		b.WriteString(")")
	case 7:
		row("", func() string { return part() + gen.Pick(r, []string{"%41", "+", "%", "%d0%af", " "}) })
	case 8:
		row("", func() string { return gen.Pick(r, []string{"?", "[ab]", "{a,b}", "{a,bc}", "a"}) + part() })
	case 9:
		row("", func() string { return gen.Pick(r, []string{"{a,b,a}", "[a-c]", "x{", "}", "[]", part()}) })
	}
	return b.String()
}

// allocCase bounds what an operation allocates by the size of its input.
func allocCase(t *T) {
	size := []int{0, 3, 30, 300, 3000, 20000}[t.R.Intn(6)]
	text := hugeText(t.R, size)
	per := 8192
	if t.R.P(1, 3) {
		text = hostile(t.R, size/4)
	} else if t.R.P(1, 3) {
		// one big part, nothing has to be merged with its neighbours
		text, per = richText(t.R, 3*size, t.R.Intn(8)), 2048
	}
	s := &step{t: t}
	t.descFn = s.String
	var before, after runtime.MemStats
	measure := func(op string, perByte int, f func()) {
		s.do(op, text)
		runtime.ReadMemStats(&before)
		f()
		runtime.ReadMemStats(&after)
		got := int64(after.TotalAlloc - before.TotalAlloc)
		limit := int64(256<<10) + int64(perByte)*int64(len(text)+16)
		t.Max("alloc_bytes", got)
		if len(text) > 1000 {
			t.Max("alloc_bytes_per_input_byte", got/int64(len(text)))
		}
		if got > limit {
			t.Fail("memory", op+" "+q(text), "%s of %d bytes allocates %d bytes (more than %d): %s", op, len(text), got, limit, q(text))
		}
	}
	var g *glob.Glob
	measure("glob.Parse", per, func() { g, _ = glob.Parse(text) })
	if g != nil {
		measure("GlobTree.AddGlob", per, func() { glob.NewTree().AddGlob(g, 1) })
		if tame(text) && (len(text) <= 4096 || !strings.Contains(text, "*")) {
			measure("Glob.Match", per, func() { g.Match(text) })
		}
		if !strings.ContainsAny(text, "*") {
			measure("Glob.WriteRandom", per, func() { var b strings.Builder; g.WriteRandom(&b) })
		}
	}
	var gg *gglob.GGlob
	measure("gglob.Parse", per, func() { gg, _ = gglob.Parse(text) })
	if gg != nil {
		measure("GGlobTree.AddGlob", per, func() { gglob.NewTree().AddGlob(gg, 1) })
	}
	measure("path helpers", per, func() {
		var sc []string
		gglob.PathLevel(text)
		gglob.PathSplit(text)
		gglob.PathSplitB(text, &sc)
		gglob.PathSplitB(text, &sc) // into what the first left
		gglob.PathSplitB(text[:len(text)/2], &sc)
		gglob.PathSplitB(text, &sc)
	})
	measure("gtags.ParseSeriesByTag", per, func() { gtags.ParseSeriesByTag("seriesByTag(" + text + ")") })
	measure("gtags.ParseTaggedConditions", per, func() { gtags.ParseTaggedConditions([]string{"k=" + text}) })
	measure("PathTags", per, func() { gtags.PathTags("n?" + text) })
	measure("GraphitePathTagsMap", per, func() { gtags.GraphitePathTagsMap("n;" + text) })
	measure("ExpandTry", per, func() { expand.ExpandTry(text, -1, 0) })
	measure("Expand max 10", per*2, func() { expand.Expand(text, 10, 0) })
	measure("escape", per, func() {
		var b bytes.Buffer
		escape.Query(text)
		escape.QueryTo(text, &b)
		escape.Unescape(text)
	})
	measure("utils.RunesRangeExpand", per, func() { utils.RunesRangeExpand(text) })
	t.Count("allocation_measurements", 14)
	t.Distinct(gen.Hash(text))
}

// probe is an input whose processing is watched in a process of its own.
type probe struct {
	key string
	run func()
	big bool // a huge input: more CPU and memory
}

// countStore stops a tree that reports more than a million matches.
type countStore struct{ n int }

func (c *countStore) Store(string, int) {
	if c.n++; c.n > 1000000 {
		fmt.Fprintln(os.Stderr, "GUARD reports")
		os.Exit(96)
	}
}

func globProbe(g, s string) probe {
	return probe{key: "Glob.Match " + g + " ~ " + s, run: func() { glob.ParseMust(g).Match(s) }}
}
func treeProbe(g, s string) probe {
	return probe{key: "GlobTree.Match " + g + " ~ " + s, run: func() {
		tr := glob.NewTree()
		tr.Add(g, 1)
		tr.Match(s, &countStore{})
	}}
}

// deepProbe is an operation with an input of millions of items: the depth of
// the stack must not follow the input.
func deepProbe(op, text string, n int, tail string, run func(s string)) probe {
	return probe{
		key: fmt.Sprintf("%s of %d times %s then [%s]", op, n, text, tail),
		run: func() { run(strings.Repeat(text, n) + tail) },
		big: true,
	}
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

// probes are short inputs whose processing may explode by backtracking.
var probes = []probe{
	globProbe(rep("{a*,aa}", 40)+"{b,c}", rep("a", 90)+"d"),
	globProbe("*"+rep("{a?,a}*", 40)+"{b,c}", rep("a", 120)+"d"),
	globProbe(rep("{a,aa}", 60)+"[bc]{b,c}", rep("a", 90)+"bd"),
	treeProbe(rep("*a", 40)+"*b*c", rep("a", 120)+"c"),
	treeProbe(rep("{a,aa}", 40)+"?b", rep("a", 60)+"cb"),
	treeProbe(rep("{a*,aa}", 40)+"{b,c}", rep("a", 90)+"d"),
	// these are answered at once
	globProbe(rep("*a", 40)+"*b*c", rep("a", 120)+"c"),
	globProbe(rep("*[ab]?", 30)+"*[bc][ef]", rep("a", 120)+"cd"),
	globProbe(rep("*ab", 30)+"*c[ef]", rep("ab", 120)+"cd"),
	globProbe(rep("?", 2000)+"*"+rep("?", 2000), rep("a", 3999)),
	globProbe("*"+rep("a", 5000)+"b*c", rep("a", 20000)+"c"),
	globProbe("*"+rep("?", 300)+"*"+rep("[a-c]", 300)+"*b", rep("a", 3000)),
	treeProbe("*"+rep("?", 300)+"*b", rep("a", 1000)),
	treeProbe(rep("[ab]", 2000)+"*", rep("a", 3000)),
	treeProbe(rep("{a,b}", 2000)+"c", rep("ab", 1000)+"d"),
	globProbe(rep("{a,b}", 2000)+"?c", rep("ab", 1000)+"dd"),
	// the stack
	deepProbe("Glob.Match", "{a,b}", deepN, "", func(s string) { glob.ParseMust(s).Match(rep("a", deepN)) }),
	deepProbe("GlobTree.Match", "?a", deepN, "", func(s string) {
		tr := glob.NewTree()
		tr.Add(s, 1)
		tr.Match(rep("aa", deepN), &countStore{})
	}),
	deepProbe("GGlobTree.Match", "?.", deepN, "a", func(s string) {
		tr := gglob.NewTree()
		tr.Add(s, 1)
		tr.Match(rep("a.", deepN)+"a", &countStore{})
	}),
	deepProbe("Glob.Match", "*a", deepN, "b*c", func(s string) { glob.ParseMust(s).Match(rep("a", deepN)) }),
	deepProbe("Glob.Match", "?[ab]", deepN, "", func(s string) { glob.ParseMust(s).Match(rep("a", 2*deepN)) }),
	deepProbe("GGlob.Match", "?.", deepN, "a", func(s string) { gglob.ParseMust(s).Match(rep("a.", deepN) + "a") }),
	deepProbe("GGlobTree.Match", "a.", deepN, "a", func(s string) {
		tr := gglob.NewTree()
		tr.Add(rep("a.", 10)+"a", 1)
		tr.Match(s, &countStore{})
	}),
	deepProbe("Expand max 0", "[ab]", deepN, "", func(s string) { expand.Expand(s, 0, 0) }),
	deepProbe("Expand max 4", "a{b,c}", deepN/2, "", func(s string) { expand.Expand(s, 4, 0) }),
	deepProbe("Expand depth 1", "a.[bc]", deepN/2, "", func(s string) { expand.Expand(s, 4, 1) }),
	deepProbe("ExpandTry", "{a,b}", deepN, "", func(s string) { expand.ExpandTry(s, -1, 0) }),
	deepProbe("ExpandTry", "[ab]", deepN, "*", func(s string) { expand.ExpandTry(s, 2, 0) }),
	deepProbe("escape", "%41\xff", deepN, "%", func(s string) {
		escape.Unescape(s)
		escape.Query(s)
	}),
	deepProbe("ParseSeriesByTag", "x", deepN, "", func(s string) {
		gtags.ParseSeriesByTag("seriesByTag('a=~" + s + "','b=" + s + "')")
	}),
	deepProbe("PathTags", "a=b&", deepN, "a=c", func(s string) {
		gtags.PathTags("n?" + s)
		gtags.GraphitePathTagsMap("n;" + rep("a=b;", deepN) + "a=c")
	}),
}

const deepN = 5000000

func runProbe(t *T) {
	p := probes[int(t.I)%len(probes)]
	t.Desc(func() string { return p.key })
	exe, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	var errBuf tail
	cmd := exec.Command(exe, "-mode", "probe", "-case", strconv.FormatUint(t.I, 10))
	cmd.Stderr = &errBuf
	if err := cmd.Start(); err != nil {
		return
	}
	tm := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() }) // no verdict on a starved machine
	cmd.Wait()
	tm.Stop()
	t.Eval(1)
	mem, cpu := p.limits()
	switch code := cmd.ProcessState.ExitCode(); code {
	case 0:
		t.Count("probes_finished", 1)
	case 98:
		t.Fail("hang", p.key, "no result after %v of CPU time: %s", cpu, p.key)
	case 97:
		t.Fail("memory", p.key, "more than %d MB of heap: %s", mem>>20, p.key)
	case 96:
		t.Fail("reports", p.key, "more than 1000000 reports for one glob and one string: %s", p.key)
	case -1:
		t.Count("probes_without_verdict", 1)
	default:
		if strings.Contains(errBuf.String(), repoMark) {
			t.Fail("crash", p.key, "%s: %s", p.key, clip(errBuf.String(), 3000))
		} else {
			t.Count("probes_without_verdict", 1)
		}
	}
}

const probeCPU = 5 * time.Second

func (p *probe) limits() (mem uint64, cpu time.Duration) {
	if p.big {
		return 6 << 30, 5 * probeCPU
	}
	return soloMem, probeCPU
}

func probeMode() int {
	p := &probes[int(*fCase)%len(probes)]
	guard(p.limits())
	p.run()
	return 0
}

func init() {
	register(&Prop{
		ID: "C16",
		Rule: "One observation: one public operation (about 150 per input: all parsers, matchers, trees, decoders, expansions with a limit, escapes, prefixes, classes) called with a hostile byte string, under a panic monitor in the process and a stall, CPU and heap watchdog outside of it; " +
			"or one operation whose allocated bytes are compared with the size of its input; or one input known to provoke backtracking, run in its own process. " +
			"Inputs: all texts of up to 4 (thorough: 5) over 13 tokens, classes with a range between any two of some 80 characters at the edges of the widths, random hostile texts, damaged well-formed ones, repetitions of up to 64 KB (thorough: 1 MB). Distinct: distinct texts.",
		Assume: []string{
			"matching patterns with more than five stars and lists is driven with short subjects and with the listed backtracking probes only: the matchers backtrack, which is recorded in known-findings.txt",
			"expansion without a limit is driven for the try variant only",
			"an operation that allocates less than 256 KB plus 8 KB per input byte is in proportion",
		},
		Need: map[string]int64{"accepted": 500000, "rejected": 500000, "long_inputs": 300, "allocation_measurements": 10000},
		Streams: []*Stream{
			{Name: "backtracking", Quick: len(probes), Fixed: true, Chunk: 1, Run: runProbe},
			{Name: "rand", Quick: 60000, Thorough: 3000000, Run: func(t *T) {
				text := hostile(t.R, 1+t.R.Intn(24))
				other := hostile(t.R, 6)
				t.Sample(func() string { return q(text) })
				hostileOps(t, text, hostileSubjects(t.R, text, 3), other)
			}},
			{Name: "enum", Quick: seqCount(len(c16tokens), 4), Thorough: seqCount(len(c16tokens), 5), Run: func(t *T) {
				text := tokenSeq(c16tokens, int(t.I))
				hostileOps(t, text, []string{"", "a", text, "aa.a", "a\xffЯ", "ЯЯ"}, "a"+text)
			}},
			{Name: "ranges", Quick: len(edgeRunes) * len(edgeRunes), Thorough: edgeForms * len(edgeRunes) * len(edgeRunes), Fixed: true, Run: func(t *T) {
				i := int(t.I)
				if t.Tier != "thorough" {
					i += t.R.Intn(edgeForms) * len(edgeRunes) * len(edgeRunes)
				}
				text, x, y := edgeRange(i)
				hostileOps(t, text, []string{"", string(x), string(y), string(y) + "a", "a" + string(x) + "c", "b" + string(y) + "z", string((x + y) / 2)}, string(x)+"-"+string(y))
				t.Count("ranges_of_edge_characters", 1)
			}},
			{Name: "alloc", Quick: 1200, Thorough: 20000, Serial: true, Run: allocCase},
			{Name: "long", Quick: 600, Thorough: 6000, Chunk: 2, Run: func(t *T) {
				size := 1 << uint(8+t.R.Intn(9))
				if t.Tier == "thorough" && t.R.P(1, 4) {
					size = 1 << 20
				}
				hugeOps(t, hugeText(t.R, size))
			}},
		},
	})
}
