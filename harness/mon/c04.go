package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/gen"
	"verifharness/ref"
)

type dmember struct {
	text  string
	norm  string
	index int
	r     *ref.Path
	g     *gglob.GGlob
}

func dmemberTexts(ms []dmember) []string {
	out := make([]string, len(ms))
	for i := range ms {
		out[i] = fmt.Sprintf("%s#%d", ms[i].text, ms[i].index)
	}
	return out
}

func buildGGlobTree(t *T, texts []string) (*gglob.GGlobTree, []dmember) {
	tree := gglob.NewTree()
	var ms []dmember
	idx := indexes(t.R, len(texts))
	norms := map[string]bool{}
	for i, s := range texts {
		t.Desc(func() string { return fmt.Sprintf("adding dotted glob %s to a tree after %s", q(s), qs(texts[:i])) })
		g, err := gglob.Parse(s)
		if err != nil {
			t.Fail("rejected", s, "gglob.Parse(%s): %v", q(s), err)
			return nil, nil
		}
		var norm string
		var n int
		if t.R.P(1, 2) {
			norm, n, err = tree.Add(s, idx[i])
		} else {
			g2, err2 := gglob.Parse(s)
			if err2 != nil {
				t.Fail("rejected", s, "gglob.Parse(%s): %v", q(s), err2)
				return nil, nil
			}
			norm, n, err = tree.AddGlob(g2, idx[i])
		}
		if err != nil {
			if errors.Is(err, glob.ErrGlobExist) && (norms[g.Node] || norms[s]) {
				t.Count("additions_refused_as_present", 1)
				continue
			}
			t.Fail("addition refused", s, "adding %s (index %d) after %s: %v", q(s), idx[i], qs(texts[:i]), err)
			return nil, nil
		}
		if n != idx[i] || norm != g.Node {
			t.Fail("addition", s, "adding %s (index %d) returned %s, %d; want %s, %d", q(s), idx[i], q(norm), n, q(g.Node), idx[i])
			return nil, nil
		}
		norms[g.Node], norms[s], norms[strings.TrimSuffix(s, ".")] = true, true, true
		r, err := ref.ParsePath(s)
		if err != nil {
			panic("harness: malformed dotted glob " + q(s))
		}
		ms = append(ms, dmember{s, g.Node, idx[i], r, g})
	}
	return tree, ms
}

func checkGGlobTree(t *T, tree *gglob.GGlobTree, ms []dmember, path string, scratch *[]string) bool {
	t.Desc(func() string { return fmt.Sprintf("tree of %s Match(%s)", qs(dmemberTexts(ms)), q(path)) })
	trimmed := strings.TrimSuffix(path, ".")
	split := strings.Split(trimmed, ".")
	whole := trimmed != ""
	for _, p := range split {
		whole = whole && p != ""
	}
	for pass := 0; pass < 2; pass++ {
		var st recStore
		var n int
		how := "Match"
		if pass == 0 {
			n = tree.Match(path, &st)
		} else {
			if !whole {
				break
			}
			how = "MatchByParts"
			if t.R.P(1, 2) {
				gglob.PathSplitB(path, scratch)
				n = tree.MatchByParts(*scratch, &st)
			} else {
				n = tree.MatchByParts(split, &st)
			}
			t.Count("split_matches", 1)
		}
		t.Eval(1)
		t.Count("reports", int64(len(st.r)))
		got := st.counts()
		want := 0
		for i := range ms {
			m := &ms[i]
			w := m.r.Match(path)
			t.Count("membership_decisions", 1)
			if pass == 0 {
				if one := m.g.Match(path); one != w {
					t.Fail("verdict", m.text+" ~ "+path, "dotted glob %s alone: Match(%s) = %v, node by node it is %v", q(m.text), q(path), one, w)
					return false
				}
			}
			k := rec{m.norm, m.index}
			c := got[k]
			if w {
				want++
			}
			switch {
			case w && c == 0:
				t.Fail("lost", m.text+" ~ "+path, "tree of %s, %s of %s: %s (index %d) matches but is not reported; reports %v", qs(dmemberTexts(ms)), how, q(path), q(m.text), m.index, st.r)
				return false
			case w && c > 1:
				t.Fail("repeated", m.text+" ~ "+path, "tree of %s, %s of %s: %s (index %d) is reported %d times", qs(dmemberTexts(ms)), how, q(path), q(m.text), m.index, c)
				return false
			case !w && c > 0:
				t.Fail("spurious", m.text+" ~ "+path, "tree of %s, %s of %s: %s (index %d) is reported but does not match", qs(dmemberTexts(ms)), how, q(path), q(m.text), m.index)
				return false
			}
			delete(got, k)
		}
		for r := range got {
			t.Fail("spurious", path, "tree of %s, %s of %s: report %v belongs to no added glob", qs(dmemberTexts(ms)), how, q(path), r)
			return false
		}
		if n != want {
			t.Fail("count", path, "tree of %s, %s of %s: returned %d, %d globs match", qs(dmemberTexts(ms)), how, q(path), n, want)
			return false
		}
		if want > 0 {
			t.Count("paths_with_matches", 1)
			t.Max("nodes_of_a_matched_path", int64(len(split)))
			t.Max("globs_matched_at_once", int64(want))
		}
	}
	return true
}

// dottedSet makes dotted globs that share leading nodes.
func dottedSet(r *gen.Rng, a *gen.Alphabet, n, depth int) []string {
	pool := gen.Pool(r, a, 3+r.Intn(5), gen.Opt{})
	var nodes []string
	for i := 0; i < 5+r.Intn(5); i++ {
		nodes = append(nodes, gen.FromPool(r, pool, 2))
	}
	nodes = append(nodes, "*", string(a.Lits[0]))
	out := make([]string, 0, n)
	for len(out) < n {
		switch {
		case len(out) > 0 && r.P(1, 3): // vary the tail of an earlier one
			p := strings.Split(strings.TrimSuffix(gen.Pick(r, out), "."), ".")
			k := r.Intn(len(p))
			p = append(append([]string(nil), p[:k]...), gen.Pick(r, nodes))
			for len(p) < depth && r.P(1, 3) {
				p = append(p, gen.Pick(r, nodes))
			}
			out = append(out, strings.Join(p, "."))
		case r.P(1, 8):
			out = append(out, gen.Dotted(r, a, pool, depth))
		default:
			var p []string
			for k := 1 + r.Intn(depth); k > 0; k-- {
				p = append(p, gen.Pick(r, nodes))
			}
			s := strings.Join(p, ".")
			if r.P(1, 12) {
				s += "."
			}
			out = append(out, s)
		}
	}
	return out
}

// siblingDotted has long similar nodes at one level.
func siblingDotted(r *gen.Rng, a *gen.Alphabet, n int) []string {
	texts := gen.SiblingGlobs(r, a, n)
	other := gen.SiblingGlobs(r, a, 4)
	before, after := "", ""
	for k := r.Intn(3); k > 0; k-- {
		before += gen.Pick(r, other) + "."
	}
	for k := r.Intn(3); k > 0; k-- {
		after += "." + gen.Pick(r, other)
	}
	for i := range texts {
		tail := after
		if r.P(1, 4) {
			tail = gen.Pick(r, []string{"", "." + other[0], "." + other[1], after + "." + other[0], "."})
		}
		if r.P(1, 6) {
			texts[i] = gen.Pick(r, other) + "." + texts[i] + tail
		} else {
			texts[i] = before + texts[i] + tail
		}
	}
	return texts
}

func c04case(t *T, a *gen.Alphabet, texts []string, paths int) {
	tree, ms := buildGGlobTree(t, texts)
	if tree == nil || len(ms) == 0 {
		return
	}
	t.Max("globs_in_a_tree", int64(len(ms)))
	h := uint64(len(ms))
	for _, m := range ms {
		h = gen.Mix(h, gen.Hash(m.text))
	}
	var scratch []string
	for i := 0; i < paths; i++ {
		p := gen.Path(t.R, gen.Pick(t.R, ms).r, a)
		if t.R.P(1, 20) {
			p = gen.BadBytes(t.R, p)
		}
		if !checkGGlobTree(t, tree, ms, p, &scratch) {
			return
		}
		t.Distinct(gen.Mix(h, gen.Hash(p)))
	}
	for _, p := range []string{"", ".", ".."} {
		if !checkGGlobTree(t, tree, ms, p, &scratch) {
			return
		}
	}
	t.Sample(func() string { return "tree of " + qs(dmemberTexts(ms)) })
}

func init() {
	register(&Prop{
		ID: "C04",
		Rule: "One observation: matching one path (joined or split) against one tree of dotted globs, its reports compared exactly once each with the node-by-node reference " +
			"and the one-by-one verdict of every added glob, and its return value with the number of matching globs. Sets share leading nodes or differ in a single place of one node (also long literal nodes, hundreds at a level), have up to 300 globs of 1 to 5 (some " +
			"30) nodes, a few have thousands of globs and globs of thousands of nodes; paths are derived from members with moved, doubled and lost dots. Some texts differ hardly or have the same usual hash. One object is asked some hundred thousand times in the marathon streams. The crowd streams have over 65536 globs in a tree. Distinct: distinct (set, path) pairs.",
		Assume: []string{"patterns are valid UTF-8 without odd hyphens in classes", "the glob consisting of a single dot is not added", "MatchByParts gets the nodes of paths without empty nodes"},
		Need:   map[string]int64{"reports": 100000, "paths_with_matches": 50000, "membership_decisions": 1000000, "split_matches": 100000},
		Streams: []*Stream{
			{Name: "rand", Quick: 90000, Thorough: 2000000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				c04case(t, a, dottedSet(t.R, a, 2+t.R.Intn(14), 4), 14)
			}},
			{Name: "crowd", Quick: 2, Thorough: 24, Chunk: 1, Run: func(t *T) {
				// more than 65536 globs
				t.Count("crowds", 1)
				c04case(t, crowdAlpha, crowdTexts(t.R, crowdSide, 2, gen.Pick(t.R, []string{".", "*.", ".*", ".a*.", "[ab].", "?.a.?"})), 10)
			}},
			{Name: "marathon", Quick: 16, Thorough: 400, Chunk: 1, Run: func(t *T) {
				// one tree is asked more often than 16 bits can count
				a := gen.SomeAlpha(t.R)
				tree, ms := buildGGlobTree(t, dottedSet(t.R, a, 2+t.R.Intn(14), 4))
				if tree == nil || len(ms) == 0 {
					return
				}
				var subj []string
				var parts [][]string
				var scratch []string
				for try := 0; len(subj) < 16 && try < 1000; try++ {
					p := gen.Path(t.R, gen.Pick(t.R, ms).r, a)
					sp := gglob.PathSplit(p)
					if len(p) > 60 || len(sp) == 0 || gglob.HasEmptyParts(sp) {
						continue
					}
					if !checkGGlobTree(t, tree, ms, p, &scratch) {
						return
					}
					subj, parts = append(subj, p), append(parts, sp)
				}
				if len(subj) == 0 {
					return
				}
				name := "tree of " + qs(dmemberTexts(ms)) + ", paths " + qs(subj)
				t.Desc(func() string { return name })
				treeMarathon(t, name, len(subj), false, func(k int, st items.Store) int { return tree.Match(subj[k], st) })
				treeMarathon(t, name, len(subj), false, func(k int, st items.Store) int { return tree.MatchByParts(parts[k], st) })
				for _, p := range subj {
					checkGGlobTree(t, tree, ms, p, &scratch)
				}
			}},
			{Name: "twins", Quick: 50000, Thorough: 2000000, Run: func(t *T) {
				// one node differs in a single place
				a := gen.SomeAlpha(t.R)
				n := 2 + t.R.Intn(5)
				depth := 1 + t.R.Intn(3)
				at := t.R.Intn(depth)
				texts := gen.Twins(t.R, a, n)
				var before, after string
				for k := 0; k < depth; k++ {
					node := gen.Twins(t.R, a, 1)[0]
					if k < at {
						before += node + "."
					} else if k > at {
						after += "." + node
					}
				}
				other := gen.Twins(t.R, a, 2)
				for i := range texts {
					tail := after
					if t.R.P(1, 4) { // other lengths, other tails
						tail = gen.Pick(t.R, []string{"", "." + other[0], "." + other[1], after + "." + other[0]})
					}
					texts[i] = before + texts[i] + tail
				}
				c04case(t, a, texts, 12)
			}},
			{Name: "large", Quick: 800, Thorough: 20000, Chunk: 4, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				c04case(t, a, dottedSet(t.R, a, 60+t.R.Intn(250), 5), 24)
			}},
			{Name: "odd", Quick: 3000, Thorough: 80000, Chunk: 8, Run: func(t *T) {
				// many nodes of one shape and a few odd ones, below one node or at the top
				a := noComma(gen.SomeAlpha(t.R))
				before := gen.Pick(t.R, []string{"", "", "a.", "*.", "a.b."})
				after := gen.Pick(t.R, []string{"", "", ".a", ".*", ".b.c"})
				var texts []string
				for _, s := range oddSet(t.R, a, 2+gen.Size(t.R, 250)) {
					if s == "" {
						s = "*"
					}
					tail := after
					if t.R.P(1, 60) {
						tail = gen.Pick(t.R, []string{"", ".a", ".?", ".a.b"})
					}
					texts = append(texts, before+s+tail)
				}
				c04case(t, a, texts, 20)
			}},
			{Name: "siblings", Quick: 2500, Thorough: 60000, Chunk: 4, Run: func(t *T) {
				// long literals that differ in a place or two, at one level
				a := noComma(gen.SomeAlpha(t.R))
				c04case(t, a, siblingDotted(t.R, a, 2+gen.Size(t.R, 300)), 20)
			}},
			{Name: "huge", Quick: 16, Thorough: 400, Chunk: 1, Run: func(t *T) {
				// thousands of globs, with thousands of children of one node, with huge ones among them
				a := noComma(gen.SomeAlpha(t.R))
				texts := dottedSet(t.R, a, 1000+t.R.Intn(2000), 4)
				nodes := globSet(t.R, a, 1000+t.R.Intn(1000))
				first := gen.Pick(t.R, a.Lits)
				for _, s := range nodes {
					if s != "" {
						texts = append(texts, string(first)+"."+s+gen.Pick(t.R, []string{"", "", ".a"}))
					}
				}
				for k := 3 + t.R.Intn(3); k > 0; k-- {
					texts = append(texts, gen.HugeDotted(t.R, a))
				}
				gen.Shuffle(t.R, texts)
				c04case(t, a, texts, 12)
			}},
			{Name: "hugefew", Quick: 300, Thorough: 10000, Chunk: 2, Run: func(t *T) {
				a := noComma(gen.SomeAlpha(t.R))
				texts := dottedSet(t.R, a, 2, 3)
				for k := 2 + t.R.Intn(4); k > 0; k-- {
					s := gen.HugeDotted(t.R, a)
					texts = append(texts, s)
					if t.R.P(1, 2) { // the same beginning
						p := strings.Split(s, ".")
						p[t.R.Intn(len(p))] = "*"
						texts = append(texts, strings.Join(p, "."))
					}
				}
				c04case(t, a, texts, 8)
			}},
			{Name: "deep", Quick: 4000, Thorough: 80000, Chunk: 8, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				c04case(t, a, dottedSet(t.R, a, 2+t.R.Intn(8), 30), 10)
			}},
			{Name: "pairs", Quick: 40000, Thorough: 600000, Run: func(t *T) {
				nodes := c02nodes
				var texts []string
				for k := 2 + t.R.Intn(4); k > 0; k-- {
					s := gen.Pick(t.R, nodes)
					for j := t.R.Intn(3); j > 0; j-- {
						s += "." + gen.Pick(t.R, nodes)
					}
					texts = append(texts, s)
				}
				tree, ms := buildGGlobTree(t, texts)
				if tree == nil || len(ms) == 0 {
					return
				}
				var scratch []string
				for k := 0; k < 40; k++ {
					if !checkGGlobTree(t, tree, ms, gen.Pick(t.R, c02paths), &scratch) {
						return
					}
				}
				t.Distinct(gen.Hash(fmt.Sprint(texts)))
			}},
		},
	})
}
