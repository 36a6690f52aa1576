package main

import (
	"fmt"
	"strings"

	"github.com/msaf1980/go-matcher/gglob"

	"verifharness/gen"
	"verifharness/ref"
)

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkPathHelpers compares the path helpers with strings.Split. It returns the
// parts when no node is empty.
func checkPathHelpers(t *T, path string, scratch *[]string) (parts []string, ok bool) {
	t.Desc(func() string { return "path helpers on " + q(path) })
	trimmed := strings.TrimSuffix(path, ".")
	var want []string
	if path != "" {
		want = strings.Split(trimmed, ".")
	}
	ok = path != "" && trimmed != ""
	for _, p := range want {
		if p == "" {
			ok = false
		}
	}
	t.Eval(1)
	t.Count("path_helper_checks", 1)
	if path != "." {
		p, n := gglob.PathLevel(path)
		if p != trimmed || n != len(want) {
			t.Fail("path helper", path, "PathLevel(%s) = %s, %d; want %s, %d", q(path), q(p), n, q(trimmed), len(want))
		}
	}
	if got := gglob.PathSplit(path); !sameStrings(got, want) {
		t.Fail("path helper", path, "PathSplit(%s) = %s; want %s", q(path), qs(got), qs(want))
	} else if gglob.HasEmptyParts(got) != (path != "" && !ok) {
		t.Fail("path helper", path, "HasEmptyParts(%s) = %v", qs(got), gglob.HasEmptyParts(got))
	}
	got := gglob.PathSplitB(path, scratch)
	if got != ok {
		t.Fail("path helper", path, "PathSplitB(%s) = %v; want %v", q(path), got, ok)
	} else if ok && !sameStrings(*scratch, want) {
		t.Fail("path helper", path, "PathSplitB(%s) gave %s; want %s", q(path), qs(*scratch), qs(want))
	}
	return want, ok
}

func checkDotted(t *T, text string, g *gglob.GGlob, r *ref.Path, path string, scratch *[]string) bool {
	parts, ok := checkPathHelpers(t, path, scratch)
	want := r.Match(path)
	t.Desc(func() string { return fmt.Sprintf("dotted glob %s against %s", q(text), q(path)) })
	got := g.Match(path)
	t.Eval(1)
	if want {
		t.Count("matches", 1)
		t.Max("nodes_of_a_matched_path", int64(len(parts)))
	} else {
		t.Count("misses", 1)
		if len(parts) == len(r.Nodes) {
			t.Count("misses_at_equal_level", 1)
		}
	}
	if got != want {
		t.Fail("verdict", text+" ~ "+path, "dotted glob %s (normalised %s) Match(%s) = %v, node by node it is %v", q(text), q(g.Node), q(path), got, want)
		return false
	}
	if ok {
		for _, l := range []int{0, len(strings.TrimSuffix(path, "."))} {
			t.Eval(1)
			if got := g.MatchByParts(parts, l); got != want {
				t.Fail("verdict", text+" ~ "+path, "dotted glob %s MatchByParts(%s, %d) = %v, Match of the joined path is %v", q(text), qs(parts), l, got, want)
				return false
			}
		}
		t.Count("split_verdicts", 2)
	}
	return !t.Failed()
}

// manyDots makes dotted globs and paths with many nodes.
func longDotted(r *gen.Rng, a *gen.Alphabet) string {
	n := 6 + r.Intn(60)
	nodes := make([]string, n)
	starless := r.P(1, 3)
	for i := range nodes {
		switch r.Intn(5) {
		case 0:
			nodes[i] = "*"
			if starless {
				nodes[i] = "?"
			}
		case 1:
			nodes[i] = gen.Glob(r, a, gen.Opt{MaxElems: 2, NoStars: starless})
		default:
			nodes[i] = gen.Glob(r, a, gen.Opt{MaxElems: 1, NoStars: true, NoLists: true, NoClasses: true})
		}
	}
	return strings.Join(nodes, ".")
}

func c02case(t *T, text string, a *gen.Alphabet, n int) {
	r, err := ref.ParsePath(text)
	if err != nil {
		panic("harness: malformed dotted glob " + q(text))
	}
	raw := text
	if t.R.P(1, 6) {
		raw += "."
		t.Count("globs_with_trailing_dot", 1)
	}
	t.Desc(func() string { return "gglob.Parse(" + q(raw) + ")" })
	g, err := gglob.Parse(raw)
	if err != nil {
		t.Fail("rejected", raw, "gglob.Parse(%s): %v", q(raw), err)
		return
	}
	var scratch []string
	h := gen.Hash(text)
	for i := 0; i < n; i++ {
		path := gen.Path(t.R, r, a)
		if t.R.P(1, 20) {
			path = gen.BadBytes(t.R, path)
		}
		if !checkDotted(t, raw, g, r, path, &scratch) {
			return
		}
		t.Distinct(gen.Mix(h, gen.Hash(path)))
		t.Sample(func() string { return fmt.Sprintf("%s against %s: %v", q(raw), q(path), r.Match(path)) })
		t.Max("nodes", int64(len(r.Nodes)))
	}
	// the empty path and the bare dot
	for _, p := range []string{"", "."} {
		if g.Match(p) {
			t.Fail("verdict", text+" ~ "+p, "dotted glob %s matches %s", q(raw), q(p))
		}
	}
}

var c02nodes = []string{"a", "b", "*", "?", "a*", "*b", "[ab]", "{a,b}", "{a,b,ab}", "{a,}", "{}", "??"}
var c02paths = words("ab.", 6)

func init() {
	register(&Prop{
		ID: "C02",
		Rule: "One observation: the verdict of a compiled dotted glob on one path, joined or split (with and without the length), or one call of the " +
			"path helpers, compared with a node-by-node reference. Globs have 1 to 65 nodes, some up to 4000 nodes or one node of thousands of values or ranges; paths are samples with node mutations, missing, doubled, moved, leading " +
			"and trailing dots; plus a complete enumeration of up to three nodes out of 12 against all words of up to 6 over {a, b, dot}. Some texts differ hardly or have the same usual hash. One object is asked some hundred thousand times in the marathon streams. Distinct: distinct (glob, path) pairs.",
		Assume: []string{
			"the glob consisting of a single dot is not driven (its meaning is not defined by the property)",
			"MatchByParts is called with the nodes of paths without empty nodes",
			"patterns are valid UTF-8",
		},
		Need: map[string]int64{"matches": 50000, "misses_at_equal_level": 50000, "split_verdicts": 100000, "globs_with_trailing_dot": 1000},
		Streams: []*Stream{
			{Name: "rand", Quick: 250000, Thorough: 5000000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				a = noComma(a)
				pool := gen.Pool(t.R, a, 6, gen.Opt{})
				c02case(t, gen.Dotted(t.R, a, pool, 5), a, 14)
			}},
			{Name: "long", Quick: 15000, Thorough: 300000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				c02case(t, longDotted(t.R, a), a, 8)
			}},
			{Name: "alike", Quick: 5000, Thorough: 200000, Run: func(t *T) {
				// nodes that hardly differ
				lits := gen.Alike(t.R, gen.SomeAlpha(t.R), 2+t.R.Intn(8))
				node, head, tail := gen.AlikeGlob(t.R, lits)
				before, after := gen.Pick(t.R, []string{"", "a.", lits[0] + "."}), gen.Pick(t.R, []string{"", ".a", "." + lits[0]})
				text := before + node + after
				r, err := ref.ParsePath(text)
				if err != nil {
					panic("harness: " + text)
				}
				t.Desc(func() string { return "gglob.Parse(" + q(text) + ")" })
				g, err := gglob.Parse(text)
				if err != nil {
					t.Fail("rejected", text, "gglob.Parse(%s): %v", q(text), err)
					return
				}
				var scratch []string
				for _, s := range lits {
					if !checkDotted(t, text, g, r, before+fillIn(head)+s+fillIn(tail)+after, &scratch) {
						return
					}
				}
				t.Distinct(gen.Hash(text))
			}},
			{Name: "marathon", Quick: 8, Thorough: 400, Chunk: 1, Run: func(t *T) {
				// one glob is asked more often than 16 bits can count
				a := noComma(gen.SomeAlpha(t.R))
				text := gen.Dotted(t.R, a, gen.Pool(t.R, a, 6, gen.Opt{}), 5)
				r, err := ref.ParsePath(text)
				if err != nil {
					panic("harness: " + text)
				}
				g, err := gglob.Parse(text)
				if err != nil {
					return
				}
				var scratch []string
				var subj []string
				var parts [][]string
				for k := 0; k < 16; k++ {
					p := gen.Path(t.R, r, a)
					if !checkDotted(t, text, g, r, p, &scratch) {
						return
					}
					if len(p) > 100 {
						continue
					}
					subj = append(subj, p)
					if sp := gglob.PathSplit(p); len(sp) > 0 && !gglob.HasEmptyParts(sp) {
						parts = append(parts, sp)
					}
				}
				if len(subj) == 0 {
					return
				}
				name := "dotted glob " + q(text) + ", paths " + qs(subj)
				t.Desc(func() string { return name })
				marathon(t, name, len(subj)+len(parts), marathonSteps, func(k int) uint64 {
					if k < len(subj) {
						return uint64(b2i(g.Match(subj[k])))
					}
					return uint64(b2i(g.MatchByParts(parts[k-len(subj)], 0)))
				})
			}},
			{Name: "huge", Quick: 1500, Thorough: 40000, Chunk: 4, Run: func(t *T) {
				a := noComma(gen.SomeAlpha(t.R))
				c02case(t, gen.HugeDotted(t.R, a), a, 6)
			}},
			{Name: "bignode", Quick: 8000, Thorough: 200000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				c02case(t, gen.BigGlob(t.R, a)+"."+gen.Dotted(t.R, a, nil, 2), a, 8)
			}},
			{Name: "enum", Quick: seqCount(len(c02nodes), 3), Fixed: true, Run: func(t *T) {
				text := strings.Join(tokenList(c02nodes, int(t.I)), ".")
				r, err := ref.ParsePath(text)
				if err != nil {
					panic("harness: " + text)
				}
				g, err := gglob.Parse(text)
				if err != nil {
					t.Fail("rejected", text, "gglob.Parse(%s): %v", q(text), err)
					return
				}
				var scratch []string
				for _, p := range c02paths {
					if !checkDotted(t, text, g, r, p, &scratch) {
						return
					}
				}
				t.Distinct(gen.Hash(text))
			}},
		},
	})
}

func noComma(a *gen.Alphabet) *gen.Alphabet {
	b := *a
	b.Comma = false
	return &b
}

// tokenList is tokenSeq as a list.
func tokenList(tokens []string, i int) (out []string) {
	n := len(tokens)
	size, length := n, 1
	for i >= size {
		i -= size
		size *= n
		length++
	}
	for ; length > 0; length-- {
		out = append(out, tokens[i%n])
		i /= n
	}
	return
}
