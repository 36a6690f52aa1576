package main

import (
	"fmt"
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/gen"
	"verifharness/ref"
)

// normal is what package glob or gglob says about the spelling of a glob.
func normal(text string, dotted bool) (raw, norm string, match func(string) bool, err error) {
	if dotted {
		g, err := gglob.Parse(text)
		if err != nil {
			return "", "", nil, err
		}
		var nodes []string
		empty := false
		for _, n := range g.Parts {
			if err := itemsSpell(n); err != nil {
				return "", "", nil, err
			}
			if n.Node == "" {
				empty = true // only an empty class or list can spell this one
			}
			nodes = append(nodes, n.Node)
		}
		if own := strings.Join(nodes, "."); !empty && own != g.Node && own+"." != g.Node {
			return "", "", nil, fmt.Errorf("normalised text %q, but its nodes spell %q", g.Node, own)
		}
		return g.Glob, g.Node, g.Match, nil
	}
	g, err := glob.Parse(text)
	if err != nil {
		return "", "", nil, err
	}
	if g.Raw() != g.Glob || g.String() != g.Node {
		return "", "", nil, fmt.Errorf("Raw %q String %q but fields %q %q", g.Raw(), g.String(), g.Glob, g.Node)
	}
	if err := itemsSpell(g); err != nil {
		return "", "", nil, err
	}
	return g.Raw(), g.String(), g.Match, nil
}

// itemsSpell compares the normalised text with the texts of the items.
func itemsSpell(g *glob.Glob) error {
	if len(g.Items) > 0 {
		own, err := itemTexts(g.Items)
		if own = g.Prefix + own + g.Suffix; err != nil || own != g.Node {
			return fmt.Errorf("normalised text %q, but its items spell %q: %v", g.Node, own, err)
		}
	}
	return nil
}

// itemTexts joins the texts of items, which each item tells in three ways.
func itemTexts(list []items.Item) (string, error) {
	var all strings.Builder
	for _, it := range list {
		if it == nil {
			continue
		}
		l := all.Len()
		said := it.WriteString(&all)
		wrote := all.String()[l:]
		if said != wrote || it.String() != wrote {
			return "", fmt.Errorf("an item writes %q, says it wrote %q and calls itself %q", wrote, said, it.String())
		}
	}
	return all.String(), nil
}

type matcher interface{ Match(string) bool }

func refOf(text string, dotted bool) (matcher, error) {
	if dotted {
		return ref.ParsePath(text)
	}
	return ref.ParseGlob(text)
}

// checkNormal checks one glob; it returns the normalised text.
func checkNormal(t *T, text string, dotted bool, subject func(i int) string, n int) (string, bool) {
	r, err := refOf(text, dotted)
	if err != nil {
		panic("harness: malformed glob " + q(text))
	}
	t.Desc(func() string { return "normalising " + q(text) })
	raw, norm, match, err := normal(text, dotted)
	if err != nil {
		t.Fail("rejected", text, "compiling %s: %v", q(text), err)
		return "", false
	}
	t.Eval(1)
	if raw != text {
		t.Fail("raw", text, "the original text of %s is %s", q(text), q(raw))
		return "", false
	}
	rn, err := refOf(norm, dotted)
	if err != nil {
		t.Fail("normal form", text, "normalised text %s of %s is malformed: %v", q(norm), q(text), err)
		return "", false
	}
	_, norm2, match2, err := normal(norm, dotted)
	if err != nil {
		t.Fail("normal form", text, "normalised text %s of %s is refused: %v", q(norm), q(text), err)
		return "", false
	}
	t.Count("normal_forms_renormalised", 1)
	if norm != text {
		t.Count("normal_forms_unlike_the_text", 1)
	}
	if norm2 != norm {
		t.Fail("normal form", text, "normalised text of %s is %s, and normalised again %s", q(text), q(norm), q(norm2))
		return "", false
	}
	for i := 0; i < n; i++ {
		s := subject(i)
		w := r.Match(s)
		if w {
			t.Count("matches", 1)
		}
		t.Eval(1)
		if a, b, c := rn.Match(s), match(s), match2(s); a != w || b != w || c != w {
			t.Fail("meaning", text+" ~ "+s, "%s: %s written %v, compiled %v; its normalised text %s written %v, compiled %v", q(s), q(text), w, b, q(norm), a, c)
			return "", false
		}
	}
	return norm, true
}

func c08case(t *T, text string, a *gen.Alphabet, n int, long bool) {
	r := mustRef(text)
	_, ok := checkNormal(t, text, false, func(int) string {
		if long {
			return ref.String(gen.LongSubject(t.R, r, a))
		}
		return ref.String(gen.Subject(t.R, r, a))
	}, n)
	if ok {
		t.Distinct(gen.Hash(text))
	}
}

// c08spell compares the normal forms of n spellings.
func c08spell(t *T, a *gen.Alphabet, ps []gen.Piece, n int) {
	dotted := t.R.P(1, 4)
	more := ""
	if dotted {
		more = ".x" + gen.Spell(t.R, gen.Pieces(t.R, a, 2, false))
	}
	first, want := "", ""
	for k := 0; k < n; k++ {
		text := gen.Spell(t.R, ps) + more
		norm, ok := checkNormal(t, text, dotted, nil, 0)
		if !ok {
			return
		}
		if k == 0 {
			first, want = text, norm
			t.Sample(func() string { return q(text) + " -> " + q(norm) })
		} else {
			t.Eval(1)
			if text != first {
				t.Count("spellings_compared", 1)
			}
			if norm != want {
				t.Fail("spelling", first+" / "+text, "two spellings of one glob:\n %s -> %s\n %s -> %s", q(first), q(want), q(text), q(norm))
				return
			}
		}
		t.Distinct(gen.Hash(text))
	}
}

func init() {
	register(&Prop{
		ID: "C08",
		Rule: "One observation: the normalised text of one compiled glob or dotted glob (well-formed for the reference and the code, stable, original text kept), or the verdicts of " +
			"the glob and of its normalised text, written and compiled, on one subject, or the normalised texts of two spellings that differ only as the property lists; globs of every size up to tens of thousands of characters, values, items and nodes. Distinct: distinct glob texts.",
		Assume: []string{"patterns are valid UTF-8 without odd hyphens in classes"},
		Need:   map[string]int64{"normal_forms_renormalised": 100000, "normal_forms_unlike_the_text": 30000, "spellings_compared": 50000, "matches": 100000},
		Streams: []*Stream{
			{Name: "rand", Quick: 250000, Thorough: 5000000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				c08case(t, gen.Glob(t.R, a, gen.Opt{MaxElems: 6}), a, 6, false)
			}},
			{Name: "big", Quick: 10000, Thorough: 200000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				c08case(t, gen.BigGlob(t.R, a), a, 5, true)
			}},
			{Name: "huge", Quick: 1000, Thorough: 30000, Chunk: 4, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				c08case(t, gen.Huge(t.R, a), a, 3, false)
			}},
			{Name: "hugedotted", Quick: 400, Thorough: 10000, Chunk: 4, Run: func(t *T) {
				a := noComma(gen.SomeAlpha(t.R))
				text := gen.HugeDotted(t.R, a)
				r, err := ref.ParsePath(text)
				if err != nil {
					panic("harness: " + text)
				}
				if _, ok := checkNormal(t, text, true, func(int) string { return gen.Path(t.R, r, a) }, 3); ok {
					t.Distinct(gen.Hash(text))
				}
			}},
			{Name: "dotted", Quick: 80000, Thorough: 1500000, Run: func(t *T) {
				a := noComma(gen.SomeAlpha(t.R))
				text := gen.Dotted(t.R, a, nil, 4)
				r, err := ref.ParsePath(text)
				if err != nil {
					panic("harness: " + text)
				}
				if _, ok := checkNormal(t, text, true, func(int) string { return gen.Path(t.R, r, a) }, 6); ok {
					t.Distinct(gen.Hash(text))
				}
			}},
			{Name: "spell", Quick: 150000, Thorough: 3000000, Run: func(t *T) {
				a := noComma(gen.SomeAlpha(t.R))
				c08spell(t, a, gen.Pieces(t.R, a, 5, false), 4)
			}},
			{Name: "hugespell", Quick: 1500, Thorough: 40000, Chunk: 4, Run: func(t *T) {
				a := noComma(gen.SomeAlpha(t.R))
				c08spell(t, a, gen.HugePieces(t.R, a), 3)
			}},
			{Name: "enum", Quick: seqCount(len(c01tokens), 3), Thorough: seqCount(len(c01tokens), 4), Fixed: true, Run: func(t *T) {
				text := tokenSeq(c01tokens, int(t.I))
				checkNormal(t, text, false, func(i int) string { return c01subjects[i] }, 40)
				t.Distinct(gen.Hash(text))
			}},
		},
	})
}
