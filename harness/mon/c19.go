package main

import (
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/gen"
	"verifharness/ref"
)

// drawOne draws a sample behind earlier content and judges it.
func drawOne(t *T, text string, g *glob.Glob, r *ref.Glob, buf *strings.Builder) (sample string, ok bool) {
	if buf.Len() > 4000 {
		buf.Reset()
	}
	before := buf.String()
	g.WriteRandom(buf)
	t.Eval(1)
	after := buf.String()
	if !strings.HasPrefix(after, before) {
		t.Fail("buffer", text, "a sample of %s turned the buffer %s into %s", q(text), q(before), q(after))
		return "", false
	}
	sample = after[len(before):]
	if !r.Match(sample) {
		t.Fail("sample", text, "sample %s of the glob %s is not in its language", q(sample), q(text))
		return "", false
	}
	if !g.Match(sample) {
		t.Fail("sample", text, "sample %s of the glob %s is not matched by it", q(sample), q(text))
		return "", false
	}
	if len(sample) > 0 {
		t.Count("non_empty_samples", 1)
	}
	if len(before) > 0 {
		t.Count("appended_behind_content", 1)
	}
	t.Max("sample_bytes", int64(len(sample)))
	return sample, true
}

func c19glob(t *T, text string, draws int) {
	r := mustRef(text)
	if t.Solo {
		draws *= 50
	}
	t.Desc(func() string { return "samples of " + q(text) })
	g, err := glob.Parse(text)
	if err != nil {
		t.Fail("compile", text, "%s: %v", q(text), err)
		return
	}
	var buf strings.Builder
	seen := map[string]bool{}
	for i := 0; i < draws; i++ {
		s, ok := drawOne(t, text, g, r, &buf)
		if !ok {
			return
		}
		if !seen[s] {
			seen[s] = true
			t.Distinct(gen.Mix(gen.Hash(text), gen.Hash(s)))
		}
		if i == 0 && t.R.P(1, 2) {
			buf.WriteString(gen.Pick(t.R, []string{"a", "*", "Я", "\xff", text}))
		}
	}
	t.Max("distinct_samples_of_one_glob", int64(len(seen)))
	t.Sample(func() string { return q(text) + " gave " + q(buf.String()) })
}

// c19item samples every item of the glob on its own.
func c19item(t *T, text string, draws int) {
	rest := text
	t.Desc(func() string { return "samples of the items of " + q(text) })
	var buf strings.Builder
	for rest != "" {
		it, next, err := items.NextWildcardItem(rest)
		if err != nil {
			t.Fail("compile", text, "items of %s: %v at %s", q(text), err, q(rest))
			return
		}
		if len(next) >= len(rest) {
			t.Fail("compile", text, "items of %s: no progress at %s", q(text), q(rest))
			return
		}
		piece := rest[:len(rest)-len(next)]
		rest = next
		if it == nil {
			continue
		}
		r := mustRef(piece)
		for i := 0; i < draws; i++ {
			before := buf.String()
			it.WriteRandom(&buf)
			t.Eval(1)
			after := buf.String()
			if !strings.HasPrefix(after, before) {
				t.Fail("buffer", piece, "a sample of the item %s turned the buffer %s into %s", q(piece), q(before), q(after))
				return
			}
			if s := after[len(before):]; !r.Match(s) {
				t.Fail("sample", piece, "sample %s of the item %s is not in its language", q(s), q(piece))
				return
			}
			t.Count("item_samples", 1)
		}
	}
}

func c19dotted(t *T, text string, draws int) {
	t.Desc(func() string { return "samples of the nodes of " + q(text) })
	g, err := gglob.Parse(text)
	if err != nil {
		t.Fail("compile", text, "%s: %v", q(text), err)
		return
	}
	p, err := ref.ParsePath(text)
	if err != nil {
		panic("harness: malformed " + q(text))
	}
	nodes := strings.Split(strings.TrimSuffix(text, "."), ".")
	if len(g.Parts) != len(nodes) {
		t.Fail("nodes", text, "%s has %d parts, want %d", q(text), len(g.Parts), len(nodes))
		return
	}
	var buf strings.Builder
	for i := 0; i < draws; i++ {
		parts := make([]string, len(nodes))
		whole := true
		for k := range nodes {
			s, ok := drawOne(t, nodes[k], g.Parts[k], mustRef(nodes[k]), &buf)
			if !ok {
				return
			}
			parts[k] = s
			if s == "" || strings.Contains(s, ".") {
				whole = false
			}
		}
		if !whole {
			continue
		}
		path := strings.Join(parts, ".")
		t.Count("joined_paths", 1)
		if !p.Match(path) || !g.Match(path) || !g.MatchByParts(parts, len(path)) {
			t.Fail("sample", text, "samples %s of the nodes of %s, joined: reference %v, Match %v, MatchByParts %v", q(path), q(text), p.Match(path), g.Match(path), g.MatchByParts(parts, len(path)))
			return
		}
		t.Distinct(gen.Mix(gen.Hash(text), gen.Hash(path)))
	}
}

func init() {
	tokens := []string{"a", "b", "*", "?", "[ab]", "[c]", "[b-d]", "{a,b}", "{a}", "{,a}", "{a*,b}", "[Я-й]", "{?,[ab]}", "[]", "{}"}
	register(&Prop{
		ID: "C19",
		Rule: "One observation: one random sample, drawn from a compiled glob, from one node of a dotted glob or from one item, behind whatever the buffer held, judged by the reference matcher and the code's matcher; or a path joined from the samples of all nodes. " +
			"The random choices are those of math/rand, so runs differ; every choice of a small glob is drawn many times; some globs are huge. Distinct: distinct pairs of glob and sample.",
		Assume: []string{"joined paths are those whose samples are neither empty nor contain a dot (a `*` or `?` may draw one)"},
		Need:   map[string]int64{"non_empty_samples": 500000, "appended_behind_content": 500000, "joined_paths": 50000, "item_samples": 300000},
		Streams: []*Stream{
			{Name: "enum", Fixed: true, Quick: seqCount(len(tokens), 4), Thorough: seqCount(len(tokens), 5), Run: func(t *T) {
				c19glob(t, tokenSeq(tokens, int(t.I)), 12)
			}},
			{Name: "rand", Quick: 60000, Thorough: 3000000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				text := gen.Glob(t.R, a, gen.Opt{})
				if t.R.P(1, 8) {
					text = gen.BigGlob(t.R, a)
				}
				c19glob(t, text, 24)
				c19item(t, text, 6)
			}},
			{Name: "huge", Quick: 600, Thorough: 20000, Chunk: 4, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				text := gen.Huge(t.R, a)
				c19glob(t, text, 3)
				c19item(t, text, 2)
			}},
			{Name: "dotted", Quick: 30000, Thorough: 1000000, Run: func(t *T) {
				a := noComma(gen.SomeAlpha(t.R))
				c19dotted(t, gen.Dotted(t.R, a, nil, 4), 12)
			}},
		},
	})
}
