package main

import (
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/gen"
	"verifharness/ref"
)

func toTags(tags []ref.Tag) ([]gtags.Tag, map[string]string) {
	l := make([]gtags.Tag, len(tags))
	m := make(map[string]string, len(tags))
	for i, t := range tags {
		l[i] = gtags.Tag{Key: t.Key, Value: t.Value}
		m[t.Key] = t.Value
	}
	return l, m
}

func tagText(tags []ref.Tag) string {
	p := make([]string, len(tags))
	for i, t := range tags {
		p[i] = fmt.Sprintf("%q=%q", t.Key, t.Value)
	}
	return "{" + strings.Join(p, " ") + "}"
}

func tagHash(h uint64, tags []ref.Tag) uint64 {
	for _, t := range tags {
		h = gen.Mix(gen.Mix(h, gen.Hash(t.Key)), gen.Hash(t.Value))
	}
	return h
}

// checkQuery compares the verdicts of parsed terms on one tag set.
func checkQuery(t *T, text string, terms gtags.TaggedTermList, qr ref.Query, tags []ref.Tag) bool {
	l, m := toTags(tags)
	want := qr.Match(m)
	t.Desc(func() string { return fmt.Sprintf("query %s against %s", text, tagText(tags)) })
	byList, byMap := terms.MatchByTags(l), terms.MatchByTagsMap(m)
	t.Eval(2)
	if want {
		t.Count("matches", 1)
		t.Max("terms_of_a_matching_query", int64(len(qr)))
		t.Max("tags_of_a_matching_query", int64(len(tags)))
	} else {
		t.Count("misses", 1)
	}
	if byList != want || byMap != want {
		t.Fail("verdict", text+" ~ "+tagText(tags), "query %s (canonical %s) against %s: by list %v, by map %v, term by term %v", text, terms.String(), tagText(tags), byList, byMap, want)
		return false
	}
	absent := false
	for i := range qr {
		if _, ok := m[qr[i].Key]; !ok && want {
			absent = true
		}
	}
	if absent {
		t.Count("matches_with_an_absent_tag", 1)
	}
	return true
}

func c05case(t *T, p *gen.TermPool, n, sets int) {
	qr := p.Query(t.R, n)
	text := gen.QueryText(t.R, qr, t.R.P(1, 2))
	t.Desc(func() string { return "ParseSeriesByTag(" + q(text) + ")" })
	terms, err := gtags.ParseSeriesByTag(text)
	if err != nil {
		t.Fail("rejected", text, "ParseSeriesByTag(%s): %v", q(text), err)
		return
	}
	var raw []string
	for i := range qr {
		raw = append(raw, gen.TermText(t.R, &qr[i], false))
	}
	t.Desc(func() string { return "ParseTaggedConditions(" + qs(raw) + ")" })
	terms2, err := gtags.ParseTaggedConditions(raw)
	if err != nil {
		t.Fail("rejected", text, "ParseTaggedConditions(%s): %v", qs(raw), err)
		return
	}
	h := gen.Hash(text)
	t.Max("terms", int64(len(qr)))
	for i := 0; i < sets; i++ {
		tags := p.Tags(t.R, qr)
		if !checkQuery(t, text, terms, qr, tags) || !checkQuery(t, qs(raw), terms2, qr, tags) {
			return
		}
		t.Distinct(tagHash(h, tags))
		t.Max("tags", int64(len(tags)))
		t.Sample(func() string { return text + " against " + tagText(tags) })
	}
	if !checkQuery(t, text, terms, qr, nil) {
		return
	}
	if terms.MatchByTagsMap(nil) != qr.Match(nil) {
		t.Fail("verdict", text, "query %s against a nil map: %v", text, terms.MatchByTagsMap(nil))
	}
}

type qmember struct {
	text  string
	norm  string
	index int
	q     ref.Query
	terms gtags.TaggedTermList
}

func qmemberTexts(ms []qmember) string {
	var p []string
	for i := range ms {
		if i == 25 {
			p = append(p, fmt.Sprintf("and %d more", len(ms)-i))
			break
		}
		p = append(p, fmt.Sprintf("%s#%d", ms[i].text, ms[i].index))
	}
	return strings.Join(p, "  ")
}

func buildTagsTree(t *T, queries []ref.Query) (*gtags.GTagsTree, []qmember) {
	tree := gtags.NewTree()
	var ms []qmember
	idx := indexes(t.R, len(queries))
	norms := map[string]bool{}
	for i, qr := range queries {
		text := gen.QueryText(t.R, qr, t.R.P(1, 2))
		t.Desc(func() string { return fmt.Sprintf("adding query %s after %s", text, qmemberTexts(ms)) })
		terms, err := gtags.ParseSeriesByTag(text)
		if err != nil {
			t.Fail("rejected", text, "ParseSeriesByTag(%s): %v", q(text), err)
			return nil, nil
		}
		canon := terms.String()
		var norm string
		var n int
		if len(terms) == 0 || t.R.P(1, 2) {
			norm, n, err = tree.Add(text, idx[i])
		} else {
			fresh, err2 := gtags.ParseSeriesByTag(text)
			if err2 != nil {
				t.Fail("rejected", text, "ParseSeriesByTag(%s): %v", q(text), err2)
				return nil, nil
			}
			norm, n, err = tree.AddTerms(fresh, idx[i])
		}
		if err != nil {
			if errors.Is(err, glob.ErrGlobExist) && norms[canon] {
				t.Count("additions_refused_as_present", 1)
				continue
			}
			t.Fail("addition refused", text, "adding %s (index %d) after %s: %v", text, idx[i], qmemberTexts(ms), err)
			return nil, nil
		}
		if n != idx[i] || norm != canon {
			t.Fail("addition", text, "adding %s (index %d) returned %s, %d; want %s", text, idx[i], q(norm), n, q(canon))
			return nil, nil
		}
		norms[canon] = true
		ms = append(ms, qmember{text, canon, idx[i], qr, terms})
	}
	return tree, ms
}

func checkTagsTree(t *T, tree *gtags.GTagsTree, ms []qmember, tags []ref.Tag) bool {
	l, m := toTags(tags)
	t.Desc(func() string { return fmt.Sprintf("tree of %s against %s", qmemberTexts(ms), tagText(tags)) })
	for pass := 0; pass < 2; pass++ {
		var st recStore
		var n int
		how := "by list"
		if pass == 0 {
			n = tree.MatchByTags(l, &st)
		} else {
			how = "by map"
			n = tree.MatchByTagsMap(m, &st)
		}
		t.Eval(1)
		t.Count("reports", int64(len(st.r)))
		got := st.counts()
		want := 0
		for i := range ms {
			x := &ms[i]
			w := x.q.Match(m)
			t.Count("membership_decisions", 1)
			if pass == 0 {
				if one := x.terms.MatchByTags(l); one != w {
					t.Fail("verdict", x.text+" ~ "+tagText(tags), "query %s alone against %s: %v, term by term %v", x.text, tagText(tags), one, w)
					return false
				}
			}
			if w {
				want++
				t.Max("terms_of_a_matching_query", int64(len(x.q)))
				t.Max("tags_of_a_matching_query", int64(len(tags)))
			}
			k := rec{x.norm, x.index}
			c := got[k]
			switch {
			case w && c == 0:
				t.Fail("lost", x.text+" ~ "+tagText(tags), "tree of %s, %s %s: %s (index %d) matches but is not reported; reports %v", qmemberTexts(ms), how, tagText(tags), x.text, x.index, st.r)
				return false
			case w && c > 1:
				t.Fail("repeated", x.text+" ~ "+tagText(tags), "tree of %s, %s %s: %s (index %d) is reported %d times", qmemberTexts(ms), how, tagText(tags), x.text, x.index, c)
				return false
			case !w && c > 0:
				t.Fail("spurious", x.text+" ~ "+tagText(tags), "tree of %s, %s %s: %s (index %d) is reported but does not match", qmemberTexts(ms), how, tagText(tags), x.text, x.index)
				return false
			}
			delete(got, k)
		}
		for r := range got {
			t.Fail("spurious", tagText(tags), "tree of %s, %s %s: report %v belongs to no added query", qmemberTexts(ms), how, tagText(tags), r)
			return false
		}
		if n != want {
			t.Fail("count", tagText(tags), "tree of %s, %s %s: returned %d, %d queries match", qmemberTexts(ms), how, tagText(tags), n, want)
			return false
		}
		if want > 0 {
			t.Count("tag_sets_with_matches", 1)
			t.Max("queries_matched_at_once", int64(want))
		}
	}
	return true
}

func c06case(t *T, p *gen.TermPool, queries []ref.Query, sets int) {
	tree, ms := buildTagsTree(t, queries)
	if tree == nil || len(ms) == 0 {
		return
	}
	t.Max("queries_in_a_tree", int64(len(ms)))
	h := uint64(len(ms))
	for _, m := range ms {
		h = gen.Mix(h, gen.Hash(m.text))
		if len(m.q) == 0 {
			t.Count("trees_with_the_empty_query", 1)
		}
	}
	for i := 0; i < sets; i++ {
		tags := p.Tags(t.R, gen.Pick(t.R, ms).q)
		if !checkTagsTree(t, tree, ms, tags) {
			return
		}
		t.Distinct(tagHash(h, tags))
	}
	checkTagsTree(t, tree, ms, nil)
	t.Sample(func() string { return "tree of " + qmemberTexts(ms) })
}

// hugePool has some terms with a huge key or value.
func hugePool(r *gen.Rng, keys, terms int) *gen.TermPool {
	p := gen.NewTermPool(r, keys, terms)
	for k := 1 + r.Intn(6); k > 0; k-- {
		if t, ok := p.HugeTerm(r); ok {
			p.Terms = append(p.Terms, t)
		}
	}
	return p
}

// oddQueries are many queries of one kind, each of them on a key of its own, and
// up to three of another kind.
func oddQueries(r *gen.Rng, n int) (*gen.TermPool, []ref.Query) {
	p := &gen.TermPool{A: gen.SomeAlpha(r)}
	kind := func() (ref.Op, string) {
		op := ref.Op(r.Intn(4))
		if op == ref.Re || op == ref.NotRe {
			v := gen.Regex(r)
			for strings.TrimSpace(v) != v || strings.ContainsAny(v, "'\"") {
				v = gen.Regex(r)
			}
			return op, v
		}
		return op, gen.Pick(r, []string{"v", "", "a*", "?", "{a,b}", "[a-c]", "*", "long value", "v2"})
	}
	term := func(key string, op ref.Op, v string) (x ref.Term) {
		x, err := ref.NewTerm(key, op, v)
		if err != nil {
			x, _ = ref.NewTerm(key, ref.Eq, "v")
		}
		return x
	}
	op, v := kind()
	odd := map[int]bool{}
	for k := r.Intn(4); k > 0; k-- {
		odd[r.Intn(n)] = true
	}
	tail := r.P(1, 3) // all have a second term
	var qs []ref.Query
	for i := 0; i < n; i++ {
		key := fmt.Sprintf("k%04d", i)
		o, w := op, v
		if odd[i] {
			o, w = kind()
		}
		x := term(key, o, w)
		q := ref.Query{x}
		if tail != odd[i] && r.P(9, 10) {
			q = append(q, term("z", op, v))
		}
		if odd[i] || i%16 == 0 {
			p.Keys = append(p.Keys, key)
		}
		p.Terms = append(p.Terms, x)
		qs = append(qs, q)
	}
	if len(p.Keys) > 4 {
		gen.Shuffle(r, p.Keys)
		p.Keys = p.Keys[:r.Intn(5)]
	}
	if r.P(1, 2) { // tags that no query is about, before or after the keys
		p.Keys = append(p.Keys, gen.Pick(r, []string{"__name__", "a", "zz", "k0000a"}))
		if r.P(1, 2) {
			p.Keys = append(p.Keys, gen.Pick(r, []string{"b", "j", "zy", "k9999"}))
		}
	}
	if r.P(1, 2) {
		gen.Shuffle(r, qs)
	}
	if r.P(1, 10) {
		p.Extra = gen.Size(r, 300)
	}
	return p, qs
}

func init() {
	register(&Prop{
		ID: "C05",
		Rule: "One observation: the verdict of a parsed query on one tag set, by list or by map, compared with a term-by-term evaluation on the written terms. Queries have up to 40 " +
			"terms over up to 30 keys (also repeated, upper-case, non-ASCII and near __name__), every operator, literal, glob and regexp values (regexps assembled from every construct, values sampled from them, with line ends), some of up to 128 terms with huge keys and values against up to 3000 tags; tag sets are biased so that the " +
			"conjunction holds or just fails. Some texts differ hardly or have the same usual hash. One object is asked some hundred thousand times in the marathon streams. Distinct: distinct (query text, tag set) pairs.",
		Assume: []string{"tag lists are in canonical order without repeated keys", "package regexp is the reference for regular expressions"},
		Need:   map[string]int64{"matches": 50000, "misses": 50000, "matches_with_an_absent_tag": 5000},
		Streams: []*Stream{
			{Name: "rand", Quick: 120000, Thorough: 3000000, Run: func(t *T) {
				c05case(t, gen.NewTermPool(t.R, 1+t.R.Intn(6), 2+t.R.Intn(8)), 5, 10)
			}},
			{Name: "single", Quick: 60000, Thorough: 1000000, Run: func(t *T) {
				c05case(t, gen.NewTermPool(t.R, 1+t.R.Intn(3), 1), 1, 8)
			}},
			{Name: "many", Quick: 15000, Thorough: 400000, Run: func(t *T) {
				c05case(t, gen.NewTermPool(t.R, 8+t.R.Intn(22), 10+t.R.Intn(50)), 40, 10)
			}},
			{Name: "alike", Quick: 5000, Thorough: 200000, Run: func(t *T) {
				// values, and keys, that hardly differ
				a := gen.SomeAlpha(t.R)
				lits := gen.Alike(t.R, a, 2+t.R.Intn(8))
				keys := gen.Namesakes(t.R, 2+t.R.Intn(3))
				var qr ref.Query
				for k := 1 + t.R.Intn(3); k > 0; k-- {
					op := ref.Op(t.R.Intn(4))
					v, _, _ := gen.AlikeGlob(t.R, lits)
					if op == ref.Re || op == ref.NotRe {
						some := append([]string(nil), lits...)
						gen.Shuffle(t.R, some)
						some = some[:1+t.R.Intn(len(some))]
						for i := range some {
							some[i] = regexp.QuoteMeta(some[i])
						}
						v = strings.Join(some, "|")
						v = gen.Pick(t.R, []string{v, "^(" + v + ")$", "^" + v + "$", "(?:" + v + ")", "^(?:" + v + ")$"})
					}
					if x, err := ref.NewTerm(gen.Pick(t.R, keys), op, v); err == nil {
						qr = append(qr, x)
					}
				}
				if len(qr) == 0 {
					return
				}
				text := gen.QueryText(t.R, qr, true)
				t.Desc(func() string { return "ParseSeriesByTag(" + q(text) + ")" })
				terms, err := gtags.ParseSeriesByTag(text)
				if err != nil {
					t.Fail("rejected", text, "ParseSeriesByTag(%s): %v", q(text), err)
					return
				}
				for range 12 {
					used := map[string]bool{}
					var tags []ref.Tag
					for k := 1 + t.R.Intn(3); k > 0; k-- {
						x := ref.Tag{Key: gen.Pick(t.R, keys), Value: gen.Pick(t.R, lits)}
						if !used[x.Key] {
							tags = append(tags, x)
						}
						used[x.Key] = true
					}
					sort.Slice(tags, func(i, j int) bool { return tags[i].Key < tags[j].Key })
					if !checkQuery(t, text, terms, qr, tags) {
						return
					}
				}
				t.Distinct(gen.Hash(text))
			}},
			{Name: "marathon", Quick: 16, Thorough: 400, Chunk: 1, Run: func(t *T) {
				// one query is asked more often than 16 bits can count
				p := gen.NewTermPool(t.R, 1+t.R.Intn(6), 2+t.R.Intn(8))
				qr := p.Query(t.R, 5)
				text := gen.QueryText(t.R, qr, t.R.P(1, 2))
				t.Desc(func() string { return "ParseSeriesByTag(" + q(text) + ")" })
				terms, err := gtags.ParseSeriesByTag(text)
				if err != nil {
					t.Fail("rejected", text, "ParseSeriesByTag(%s): %v", q(text), err)
					return
				}
				var lists [][]gtags.Tag
				var maps []map[string]string
				name := "query " + text
				for len(lists) < 16 {
					tags := p.Tags(t.R, qr)
					if !checkQuery(t, text, terms, qr, tags) {
						return
					}
					l, m := toTags(tags)
					lists, maps = append(lists, l), append(maps, m)
					name += ", " + tagText(tags)
				}
				t.Desc(func() string { return name })
				marathon(t, name, 32, marathonSteps, func(k int) uint64 {
					if k < 16 {
						return uint64(b2i(terms.MatchByTags(lists[k])))
					}
					return uint64(b2i(terms.MatchByTagsMap(maps[k-16])))
				})
			}},
			{Name: "huge", Quick: 800, Thorough: 30000, Chunk: 4, Run: func(t *T) {
				// up to 128 terms, thousands of tags, huge values
				p := hugePool(t.R, gen.Size(t.R, 250), 1+gen.Size(t.R, 200))
				p.Extra = gen.Size(t.R, 3000)
				c05case(t, p, 128, 4)
			}},
		},
	})
	register(&Prop{
		ID: "C06",
		Rule: "One observation: matching one tag set (by list or by map) against one tree of tag queries, its reports compared exactly once each with the term-by-term reference and the " +
			"one-by-one verdict of every added query, and its return value with the number of matching queries. Queries are drawn from a small pool of terms (so they share leading " +
			"terms) or differ in a single term or in a place of long values, trees have up to 200 queries (a few up to 2000, over hundreds of keys; some are of many alike queries and a few odd ones), some with the query without terms. Some texts differ hardly or have the same usual hash. One object is asked some hundred thousand times in the marathon streams. The crowd streams have over 65536 queries in a tree. Distinct: distinct (set of queries, tag set) pairs.",
		Assume: []string{"tag lists are in canonical order without repeated keys", "package regexp is the reference for regular expressions"},
		Need:   map[string]int64{"reports": 100000, "tag_sets_with_matches": 30000, "membership_decisions": 500000, "trees_with_the_empty_query": 1000},
		Streams: []*Stream{
			{Name: "rand", Quick: 60000, Thorough: 1500000, Run: func(t *T) {
				p := gen.NewTermPool(t.R, 1+t.R.Intn(6), 3+t.R.Intn(10))
				var qs []ref.Query
				for k := 1 + t.R.Intn(12); k > 0; k-- {
					qs = append(qs, p.Query(t.R, 4))
				}
				c06case(t, p, qs, 12)
			}},
			{Name: "twins", Quick: 40000, Thorough: 1500000, Run: func(t *T) {
				// every query differs from another one in a single term
				p := gen.NewTermPool(t.R, 1+t.R.Intn(4), 3+t.R.Intn(4))
				c06case(t, p, p.TwinQueries(t.R, 2+t.R.Intn(6)), 12)
			}},
			{Name: "manykeys", Quick: 12000, Thorough: 300000, Run: func(t *T) {
				p := gen.NewTermPool(t.R, 8+t.R.Intn(20), 20+t.R.Intn(40))
				var qs []ref.Query
				for k := 1 + t.R.Intn(30); k > 0; k-- {
					qs = append(qs, p.Query(t.R, 6))
				}
				c06case(t, p, qs, 10)
			}},
			{Name: "siblings", Quick: 2500, Thorough: 60000, Chunk: 4, Run: func(t *T) {
				// long values that differ in a place or two
				p, qs := gen.SiblingQueries(t.R, 2+gen.Size(t.R, 200))
				c06case(t, p, qs, 20)
			}},
			{Name: "huge", Quick: 24, Thorough: 600, Chunk: 1, Run: func(t *T) {
				// thousands of queries, hundreds of keys at one level, huge values, thousands of tags
				p := hugePool(t.R, 100+t.R.Intn(200), 200+t.R.Intn(300))
				p.Extra = gen.Size(t.R, 2000)
				var qs []ref.Query
				for k := 1000 + t.R.Intn(1000); k > 0; k-- {
					qs = append(qs, p.Query(t.R, 4))
				}
				for k := 3; k > 0; k-- {
					qs = append(qs, p.Query(t.R, 100))
				}
				c06case(t, p, qs, 12)
			}},
			{Name: "hugefew", Quick: 500, Thorough: 15000, Chunk: 2, Run: func(t *T) {
				p := hugePool(t.R, gen.Size(t.R, 200), 1+gen.Size(t.R, 60))
				p.Extra = gen.Size(t.R, 2000)
				var qs []ref.Query
				for k := 1 + t.R.Intn(8); k > 0; k-- {
					qs = append(qs, p.Query(t.R, gen.Size(t.R, 128)))
				}
				c06case(t, p, qs, 6)
			}},
			{Name: "odd", Quick: 3000, Thorough: 90000, Chunk: 8, Run: func(t *T) {
				// many alike queries over many keys, and a few odd ones
				p, qs := oddQueries(t.R, 2+gen.Size(t.R, 200))
				c06case(t, p, qs, 12)
			}},
			{Name: "crowd", Quick: 2, Thorough: 24, Chunk: 1, Run: func(t *T) {
				// more than 65536 queries
				t.Count("crowds", 1)
				p, qs := crowdQueries(t.R, crowdSide, 2)
				c06case(t, p, qs, 6)
			}},
			{Name: "marathon", Quick: 16, Thorough: 400, Chunk: 1, Run: func(t *T) {
				// one tree is asked more often than 16 bits can count
				p := gen.NewTermPool(t.R, 1+t.R.Intn(6), 3+t.R.Intn(10))
				var qs []ref.Query
				for k := 1 + t.R.Intn(12); k > 0; k-- {
					qs = append(qs, p.Query(t.R, 4))
				}
				tree, ms := buildTagsTree(t, qs)
				if tree == nil || len(ms) == 0 {
					return
				}
				var sets [][]ref.Tag
				var lists [][]gtags.Tag
				var maps []map[string]string
				name := "tree of " + qmemberTexts(ms)
				for len(sets) < 16 {
					tags := p.Tags(t.R, gen.Pick(t.R, ms).q)
					if !checkTagsTree(t, tree, ms, tags) {
						return
					}
					l, m := toTags(tags)
					sets, lists, maps = append(sets, tags), append(lists, l), append(maps, m)
					name += ", " + tagText(tags)
				}
				t.Desc(func() string { return name })
				treeMarathon(t, name, len(sets), false, func(k int, st items.Store) int { return tree.MatchByTags(lists[k], st) })
				treeMarathon(t, name, len(sets), false, func(k int, st items.Store) int { return tree.MatchByTagsMap(maps[k], st) })
				for _, tags := range sets {
					checkTagsTree(t, tree, ms, tags)
				}
			}},
			{Name: "large", Quick: 500, Thorough: 12000, Chunk: 4, Run: func(t *T) {
				p := gen.NewTermPool(t.R, 3+t.R.Intn(10), 10+t.R.Intn(40))
				var qs []ref.Query
				for k := 50 + t.R.Intn(150); k > 0; k-- {
					qs = append(qs, p.Query(t.R, 8))
				}
				c06case(t, p, qs, 20)
			}},
		},
	})
}
