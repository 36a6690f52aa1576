package main

import (
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/gen"
	"verifharness/ref"
)

// admit judges reported bounds against the true ones.
func admit(t *T, what, text string, gotMin, gotMax, least, most int) bool {
	t.Eval(1)
	switch {
	case gotMin < 0 || gotMax < -1 || gotMax >= 0 && gotMin > gotMax:
		t.Fail("contradiction", text, "%s %s: bounds %d..%d", what, q(text), gotMin, gotMax)
	case gotMin > least:
		t.Fail("minimum", text, "%s %s: minimum length %d, but it matches a text of %d bytes", what, q(text), gotMin, least)
	case gotMax >= 0 && most < 0:
		t.Fail("maximum", text, "%s %s: maximum length %d, but what it matches has no longest text", what, q(text), gotMax)
	case gotMax >= 0 && gotMax < most:
		t.Fail("maximum", text, "%s %s: maximum length %d, but it matches a text of %d bytes", what, q(text), gotMax, most)
	default:
		if most < 0 {
			t.Count("unlimited", 1)
		} else {
			t.Count("limited", 1)
		}
		if gotMin == least && gotMax == most {
			t.Count("exact_bounds", 1)
		}
		return true
	}
	return false
}

// within judges one member of the language.
func within(t *T, what, text, s string, gotMin, gotMax int) bool {
	t.Eval(1)
	t.Count("members", 1)
	if len(s) < gotMin || gotMax >= 0 && len(s) > gotMax {
		t.Fail("member", text+" ~ "+s, "%s %s with bounds %d..%d: it matches %s of %d bytes", what, q(text), gotMin, gotMax, q(s), len(s))
		return false
	}
	return true
}

func c21glob(t *T, text string, a *gen.Alphabet, n int) {
	t.Desc(func() string { return "bounds of " + q(text) })
	r := mustRef(text)
	least, most := r.Bounds()
	g, err := glob.Parse(text)
	if err != nil {
		t.Fail("compile", text, "%s: %v", q(text), err)
		return
	}
	if !admit(t, "glob", text, g.MinLen, g.MaxLen, least, most) {
		return
	}
	if !strings.ContainsAny(text, "*?[]{}") && (g.MinLen != len(text) || g.MaxLen != len(text)) {
		t.Fail("literal", text, "glob %s without wildcards: bounds %d..%d", q(text), g.MinLen, g.MaxLen)
		return
	}
	// members: extreme ones and others
	for _, u := range [][]ref.Unit{r.Extreme(false, 0), r.Extreme(true, 1), r.Extreme(true, 50)} {
		s := ref.String(u)
		if !r.Match(s) {
			panic("harness: " + q(s) + " is not a member of " + q(text))
		}
		if most >= 0 && len(s) > most || len(s) < least {
			panic("harness: bounds of " + q(text))
		}
		if !within(t, "glob", text, s, g.MinLen, g.MaxLen) {
			return
		}
	}
	wild := wildOf(r, a.Wild...)
	for ; n > 0; n-- {
		s := ref.String(r.Sample(t.R, wild))
		if !within(t, "glob", text, s, g.MinLen, g.MaxLen) {
			return
		}
	}
	// the items it is made of
	rest := text
	for rest != "" {
		it, next, err := items.NextWildcardItem(rest)
		if err != nil || len(next) >= len(rest) {
			t.Fail("compile", text, "items of %s: %v", q(text), err)
			return
		}
		piece := rest[:len(rest)-len(next)]
		rest = next
		lo, hi := mustRef(piece).Bounds()
		if it == nil {
			if lo != 0 || hi != 0 {
				t.Fail("item", piece, "no item for %s", q(piece))
				return
			}
			continue
		}
		t.Count("items", 1)
		if !admit(t, "item", piece, it.MinLen(), it.MaxLen(), lo, hi) {
			return
		}
	}
	t.Sample(func() string { return q(text) })
	t.Distinct(gen.Hash(text))
}

func c21dotted(t *T, text string, a *gen.Alphabet, n int) {
	t.Desc(func() string { return "bounds of " + q(text) })
	p, err := ref.ParsePath(text)
	if err != nil {
		panic("harness: malformed " + q(text))
	}
	g, err := gglob.Parse(text)
	if err != nil {
		t.Fail("compile", text, "%s: %v", q(text), err)
		return
	}
	nodes := strings.Split(strings.TrimSuffix(text, "."), ".")
	least, most := len(nodes)-1, len(nodes)-1
	plain := true
	for i, node := range nodes {
		lo, hi := mustRef(node).Bounds()
		lo = max(lo, 1) // no node of a path is empty
		if hi == 0 {
			return // matches nothing
		}
		least += lo
		if most >= 0 {
			most += hi
			if hi < 0 {
				most = -1
			}
		}
		if !admit(t, "node", node, g.Parts[i].MinLen, g.Parts[i].MaxLen, lo, hi) {
			return
		}
		plain = plain && !strings.ContainsAny(node, "*?[]{}")
	}
	if !admit(t, "dotted glob", text, g.MinLen, g.MaxLen, least, most) {
		return
	}
	if want := len(strings.TrimSuffix(text, ".")); plain && (g.MaxLen != want || g.MinLen > want) {
		t.Fail("literal", text, "dotted glob %s without wildcards: bounds %d..%d", q(text), g.MinLen, g.MaxLen)
		return
	}
	for ; n > 0; n-- {
		s := gen.Path(t.R, p, a)
		if t.R.P(1, 4) {
			parts := make([]string, len(nodes))
			for i := range nodes {
				parts[i] = ref.String(mustRef(nodes[i]).Extreme(t.R.P(1, 2), 3))
			}
			s = strings.Join(parts, ".")
		}
		if strings.HasSuffix(s, ".") || !p.Match(s) {
			continue
		}
		if !within(t, "dotted glob", text, s, g.MinLen, g.MaxLen) {
			return
		}
	}
	t.Count("dotted", 1)
	t.Distinct(gen.Hash("." + text))
}

func init() {
	tokens := []string{"a", "Я", "*", "?", "[ab]", "[b-dЯ]", "[]", "{}", "{a,bc}", "{a*,b}", "{,😀}", "{?,aa}", "{[aЯ]?,x}", "[😀]", "{a}", "{Я,a*}"}
	register(&Prop{
		ID:     "C21",
		Rule:   "One observation: the reported bounds of one glob, dotted glob, node or item compared with the lengths of the shortest and the longest text of its language (computed from an independent syntax tree), or with the length of one member of the language, among them constructed shortest and longest ones; globs of every size up to tens of thousands of characters, values and items. Distinct: distinct globs and dotted globs.",
		Assume: []string{"dotted globs with a node that only matches the empty text match no path and are left out"},
		Need:   map[string]int64{"limited": 200000, "unlimited": 200000, "members": 1000000, "items": 300000, "dotted": 50000, "exact_bounds": 100000},
		Streams: []*Stream{
			{Name: "enum", Fixed: true, Quick: seqCount(len(tokens), 4), Thorough: seqCount(len(tokens), 5), Run: func(t *T) {
				c21glob(t, tokenSeq(tokens, int(t.I)), &gen.Alphabet{Wild: []ref.Unit{'a', 'Я'}}, 2)
			}},
			{Name: "rand", Quick: 120000, Thorough: 6000000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				text := gen.Glob(t.R, a, gen.Opt{})
				if t.R.P(1, 10) {
					text = gen.BigGlob(t.R, a)
				}
				c21glob(t, text, a, 8)
			}},
			{Name: "huge", Quick: 1000, Thorough: 30000, Chunk: 4, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				c21glob(t, gen.Huge(t.R, a), a, 2)
			}},
			{Name: "hugedotted", Quick: 400, Thorough: 12000, Chunk: 4, Run: func(t *T) {
				a := noComma(gen.SomeAlpha(t.R))
				c21dotted(t, gen.HugeDotted(t.R, a), a, 3)
			}},
			{Name: "dotted", Quick: 80000, Thorough: 3000000, Run: func(t *T) {
				a := noComma(gen.SomeAlpha(t.R))
				c21dotted(t, gen.Dotted(t.R, a, nil, 1+t.R.Intn(6)), a, 8)
			}},
		},
	})
}
