package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/gen"
	"verifharness/ref"
)

type member struct {
	text  string
	norm  string
	index int
	r     *ref.Glob
	g     *glob.Glob
}

func (m member) rec() rec { return rec{m.norm, m.index} }

// indexes gives distinct non-negative indexes, not in order.
func indexes(r *gen.Rng, n int) []int {
	seen := map[int]bool{}
	out := make([]int, n)
	for i := range out {
		for {
			k := r.Intn(n*3 + 5)
			if r.P(1, 30) {
				k = 1<<40 + r.Intn(1<<20)
			}
			if !seen[k] {
				seen[k] = true
				out[i] = k
				break
			}
		}
	}
	return out
}

// buildGlobTree adds the globs; texts whose normal form is already present are
// refused and left out.
func buildGlobTree(t *T, texts []string) (*glob.GlobTree, []member) {
	tree := glob.NewTree()
	var ms []member
	idx := indexes(t.R, len(texts))
	norms := map[string]bool{}
	for i, s := range texts {
		t.Desc(func() string { return fmt.Sprintf("adding glob %s to a tree after %s", q(s), qs(texts[:i])) })
		g, err := glob.Parse(s)
		if err != nil {
			t.Fail("rejected", s, "glob.Parse(%s): %v", q(s), err)
			return nil, nil
		}
		var norm string
		var n int
		if t.R.P(1, 2) {
			norm, n, err = tree.Add(s, idx[i])
		} else {
			g2, err2 := glob.Parse(s)
			if err2 != nil {
				t.Fail("rejected", s, "glob.Parse(%s): %v", q(s), err2)
				return nil, nil
			}
			norm, n, err = tree.AddGlob(g2, idx[i])
		}
		if err != nil {
			if errors.Is(err, glob.ErrGlobExist) && (norms[g.Node] || norms[s]) {
				t.Count("additions_refused_as_present", 1)
				continue
			}
			t.Fail("addition refused", s, "adding %s (index %d) after %s: %v", q(s), idx[i], qs(texts[:i]), err)
			return nil, nil
		}
		if n != idx[i] || norm != g.Node {
			t.Fail("addition", s, "adding %s (index %d) returned %s, %d; want %s, %d", q(s), idx[i], q(norm), n, q(g.Node), idx[i])
			return nil, nil
		}
		norms[g.Node], norms[s] = true, true
		ms = append(ms, member{s, g.Node, idx[i], mustRef(s), g})
	}
	return tree, ms
}

func memberTexts(ms []member) []string {
	out := make([]string, len(ms))
	for i := range ms {
		out[i] = fmt.Sprintf("%s#%d", ms[i].text, ms[i].index)
	}
	return out
}

// checkGlobTree matches one subject against the tree.
func checkGlobTree(t *T, tree *glob.GlobTree, ms []member, s string, u []ref.Unit) bool {
	var st recStore
	t.Desc(func() string { return fmt.Sprintf("tree of %s Match(%s)", qs(memberTexts(ms)), q(s)) })
	n := tree.Match(s, &st)
	t.Eval(1)
	t.Count("reports", int64(st.n))
	got := st.counts()
	want := 0
	for i := range ms {
		m := &ms[i]
		w := m.r.MatchUnits(u)
		t.Count("membership_decisions", 1)
		if one := m.g.Match(s); one != w {
			t.Fail("verdict", m.text+" ~ "+s, "glob %s alone: Match(%s) = %v, the language says %v", q(m.text), q(s), one, w)
			return false
		}
		c := got[m.rec()]
		if w {
			want++
			t.Max("bytes_of_a_matched_subject", int64(len(s)))
			t.Max("bytes_of_a_matching_glob", int64(len(m.text)))
			if c == 0 {
				t.Fail("lost", m.text+" ~ "+s, "tree of %s, subject %s: %s (index %d) matches but is not reported; reports %v", qs(memberTexts(ms)), q(s), q(m.text), m.index, st.r)
				return false
			}
			if c > 1 {
				t.Count("repeated_reports", int64(c-1))
			}
			delete(got, m.rec())
		} else if c != 0 {
			t.Fail("spurious", m.text+" ~ "+s, "tree of %s, subject %s: %s (index %d) is reported but does not match", qs(memberTexts(ms)), q(s), q(m.text), m.index)
			return false
		}
	}
	for r := range got {
		t.Fail("spurious", s, "tree of %s, subject %s: report %v belongs to no added glob", qs(memberTexts(ms)), q(s), r)
		return false
	}
	if n != st.n || (n == 0) != (want == 0) {
		t.Fail("count", s, "tree of %s, subject %s: returned %d, made %d reports, %d globs match", qs(memberTexts(ms)), q(s), n, st.n, want)
		return false
	}
	if want > 0 {
		t.Count("subjects_with_matches", 1)
		t.Max("globs_matched_at_once", int64(want))
	}
	return true
}

func globSet(r *gen.Rng, a *gen.Alphabet, n int) []string {
	pool := gen.Pool(r, a, 3+r.Intn(6), gen.Opt{NoGroups: r.P(1, 3)})
	out := make([]string, 0, n)
	for len(out) < n {
		if r.P(1, 8) {
			out = append(out, gen.Glob(r, a, gen.Opt{MaxElems: 4}))
		} else {
			out = append(out, gen.FromPool(r, pool, 4))
		}
	}
	return out
}

// wideSet gives n globs with many children of one node, literals that begin
// each other among them.
func wideSet(r *gen.Rng, a *gen.Alphabet, n int) []string {
	head := gen.Pick(r, []string{"?", "*", "", "??", gen.FromPool(r, gen.Pool(r, a, 2, gen.Opt{}), 1)})
	var texts []string
	for ; n > 0; n-- {
		mid := ""
		for k := 1 + r.Intn(3); k > 0; k-- {
			mid += string(gen.Pick(r, a.Lits))
		}
		if r.P(1, 6) {
			mid = gen.Glob(r, a, gen.Opt{MaxElems: 1})
		}
		texts = append(texts, head+mid+gen.Pick(r, []string{"*", "*", "?", "??", "", "?*", string(a.Lits[0])}))
	}
	return texts
}

// oddSet are many globs of one shape and up to three of other shapes; at is put
// between the parts.
func oddSet(r *gen.Rng, a *gen.Alphabet, n int) []string {
	shapes := []string{"W", "W", "W*", "*W", "W?", "?W", "*W*", "[ab]W", "{W,b}", "{W*,b}", "aW", "Wa*b"}
	odd := append([]string{"*", "?", "?*", "[a-c]", "{,a}", "a*", "*a", "{a,b}*"}, shapes...)
	word := func(k int) string {
		var b strings.Builder
		for k++; k > 0; k /= 3 {
			b.WriteRune(a.Lits[k%len(a.Lits)])
		}
		for b.Len() < 2 || r.P(1, 3) && b.Len() < 40 {
			b.WriteRune(gen.Pick(r, a.Lits))
		}
		return b.String()
	}
	shape := gen.Pick(r, shapes)
	at := map[int]bool{}
	for k := r.Intn(4); k > 0; k-- {
		at[r.Intn(n)] = true
	}
	var texts []string
	for i := 0; i < n; i++ {
		s := shape
		if at[i] {
			s = gen.Pick(r, odd)
		}
		texts = append(texts, strings.ReplaceAll(s, "W", word(i)))
	}
	if r.P(1, 2) {
		gen.Shuffle(r, texts)
	}
	return texts
}

func c03case(t *T, a *gen.Alphabet, texts []string, subjects int, long bool) {
	tree, ms := buildGlobTree(t, texts)
	if tree == nil || len(ms) == 0 {
		return
	}
	t.Max("globs_in_a_tree", int64(len(ms)))
	h := uint64(len(ms))
	for _, m := range ms {
		h = gen.Mix(h, gen.Hash(m.text))
	}
	for i := 0; i < subjects; i++ {
		var u []ref.Unit
		m := gen.Pick(t.R, ms)
		if long {
			u = gen.LongSubject(t.R, m.r, a)
		} else {
			u = gen.Subject(t.R, m.r, a)
		}
		s := ref.String(u)
		if t.R.P(1, 16) {
			s = gen.BadBytes(t.R, s)
			u = ref.Units(s)
		}
		if !checkGlobTree(t, tree, ms, s, u) {
			return
		}
		t.Distinct(hashUnits(h, u))
	}
	t.Sample(func() string { return "tree of " + qs(memberTexts(ms)) })
}

var c03small = []string{
	"a", "b", "ab", "ba", "aa", "*", "?", "a*", "*a", "*b", "a?", "?a", "?b", "??", "*?", "?*", "a*b", "*a*", "a?b", "*ab", "ab*", "**",
	"[ab]", "[ab]*", "*[ab]", "a[bc]", "[bc]a", "[bc]", "{a,b}", "{a,ab}", "{,a}", "{a,b}*", "*{a,b}", "*{a,ab}", "a{,b}", "{,a}b", "{a,b,ab}",
	"{a*,b}", "{*a,b}", "{?,ab}", "*{?,ab}", "{a*,b}a", "a{*b,}", "{[ab],ab}", "*{,b}?", "a*{b,ab}", "{a,b}{a,b}", "{}", "[]", "a[]", "{,a}*b", "*a?", "*?a",
}

func init() {
	register(&Prop{
		ID: "C03",
		Rule: "One observation: matching one subject against one tree, its reports compared as a set with the reference verdict and the one-by-one verdict of every " +
			"added glob, and its return value with the number of reports. Trees hold sets of globs strung together from a small pool of fragments (shared prefixes, suffixes " +
			"and items) or differ in a single place (also long literals, hundreds of them), all ordered pairs of 52 small globs against all words of up to 3 over {a,b,c}, and large sets (some of thousands of globs, some of globs with thousands of values or items). Some sets are of many globs of one shape and a few odd ones. Some texts differ hardly or have the same usual hash. One object is asked some hundred thousand times in the marathon streams. The crowd streams have over 65536 globs in a tree. Distinct: distinct (set, subject) pairs and enumerated pairs.",
		Assume: []string{"patterns are valid UTF-8 without odd hyphens in classes", "a tree may report a glob more than once for one subject (the existing tests pin this)"},
		Need:   map[string]int64{"reports": 100000, "subjects_with_matches": 50000, "membership_decisions": 1000000},
		Streams: []*Stream{
			{Name: "rand", Quick: 90000, Thorough: 2500000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				c03case(t, a, globSet(t.R, a, 2+t.R.Intn(12)), 12, false)
			}},
			{Name: "twins", Quick: 60000, Thorough: 2500000, Run: func(t *T) {
				// every glob differs from another one in a single place
				a := gen.SomeAlpha(t.R)
				c03case(t, a, gen.Twins(t.R, a, 2+t.R.Intn(6)), 12, false)
			}},
			{Name: "large", Quick: 600, Thorough: 20000, Chunk: 4, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				c03case(t, a, globSet(t.R, a, 60+t.R.Intn(250)), 20, false)
			}},
			{Name: "wide", Quick: 800, Thorough: 20000, Chunk: 4, Run: func(t *T) {
				// many children of one node, literals that begin each other among them
				a := gen.SomeAlpha(t.R)
				texts := wideSet(t.R, a, 10+gen.Size(t.R, 300))
				c03case(t, a, texts, 20, false)
			}},
			{Name: "odd", Quick: 3000, Thorough: 80000, Chunk: 8, Run: func(t *T) {
				// many globs of one shape and a few odd ones
				a := noComma(gen.SomeAlpha(t.R))
				c03case(t, a, oddSet(t.R, a, 2+gen.Size(t.R, 250)), 20, false)
			}},
			{Name: "siblings", Quick: 2500, Thorough: 60000, Chunk: 4, Run: func(t *T) {
				// long literals that differ in a place or two
				a := gen.SomeAlpha(t.R)
				c03case(t, a, gen.SiblingGlobs(t.R, a, 2+gen.Size(t.R, 300)), 20, false)
			}},
			{Name: "huge", Quick: 24, Thorough: 600, Chunk: 1, Run: func(t *T) {
				// thousands of globs with some huge ones among them
				a := gen.SomeAlpha(t.R)
				texts := globSet(t.R, a, 2000+t.R.Intn(3000))
				for k := 3 + t.R.Intn(5); k > 0; k-- {
					texts = append(texts, gen.Huge(t.R, a))
				}
				gen.Shuffle(t.R, texts)
				c03case(t, a, texts, 10, false)
			}},
			{Name: "crowd", Quick: 2, Thorough: 24, Chunk: 1, Run: func(t *T) {
				// more than 65536 globs
				t.Count("crowds", 1)
				c03case(t, crowdAlpha, crowdTexts(t.R, crowdSide, 2, gen.Pick(t.R, []string{"*", "?", "*a*", "[a-c]", "{a,b}"})), 10, false)
			}},
			{Name: "marathon", Quick: 16, Thorough: 400, Chunk: 1, Run: func(t *T) {
				// one tree is asked more often than 16 bits can count
				a := gen.SomeAlpha(t.R)
				tree, ms := buildGlobTree(t, globSet(t.R, a, 2+t.R.Intn(12)))
				if tree == nil || len(ms) == 0 {
					return
				}
				var subj []string
				for try := 0; len(subj) < 16 && try < 1000; try++ {
					u := gen.Pick(t.R, ms).r.Sample(t.R, a.Wild)
					s := ref.String(u)
					if len(s) > 60 {
						continue
					}
					if !checkGlobTree(t, tree, ms, s, u) {
						return
					}
					subj = append(subj, s)
				}
				if len(subj) == 0 {
					return
				}
				name := "tree of " + qs(memberTexts(ms)) + ", subjects " + qs(subj)
				t.Desc(func() string { return name })
				treeMarathon(t, name, len(subj), true, func(k int, st items.Store) int { return tree.Match(subj[k], st) })
				for _, s := range subj {
					checkGlobTree(t, tree, ms, s, ref.Units(s))
				}
			}},
			{Name: "hugefew", Quick: 300, Thorough: 10000, Chunk: 2, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				texts := globSet(t.R, a, 2)
				for k := 2 + t.R.Intn(4); k > 0; k-- {
					texts = append(texts, gen.Huge(t.R, a))
				}
				c03case(t, a, texts, 8, false)
			}},
			{Name: "big", Quick: 6000, Thorough: 200000, Chunk: 8, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				var texts []string
				for i := 0; i < 6; i++ {
					texts = append(texts, gen.BigGlob(t.R, a))
				}
				texts = append(texts, globSet(t.R, a, 4)...)
				c03case(t, a, texts, 10, true)
			}},
			{Name: "pairs", Quick: len(c03small) * len(c03small), Fixed: true, Run: func(t *T) {
				n := len(c03small)
				x, y := int(t.I)/n, int(t.I)%n
				tree, ms := buildGlobTree(t, []string{c03small[x], c03small[y]})
				if tree == nil {
					return
				}
				for _, s := range c03words {
					if !checkGlobTree(t, tree, ms, s, ref.Units(s)) {
						return
					}
				}
				t.Distinct(t.I)
			}},
			{Name: "triples", Quick: 20000, Thorough: 300000, Run: func(t *T) {
				texts := []string{gen.Pick(t.R, c03small), gen.Pick(t.R, c03small), gen.Pick(t.R, c03small), gen.Pick(t.R, c03small)}
				tree, ms := buildGlobTree(t, texts)
				if tree == nil || len(ms) == 0 {
					return
				}
				for _, s := range c03words {
					if !checkGlobTree(t, tree, ms, s, ref.Units(s)) {
						return
					}
				}
				t.Distinct(gen.Hash(fmt.Sprint(texts)))
			}},
		},
	})
}

var c03words = words("abc", 3)
