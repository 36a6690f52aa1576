package main

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"

	"verifharness/gen"
	"verifharness/ref"
)

// subject is a string, a path or a tag set.
type subject struct {
	s    string
	tags []ref.Tag
}

func (s subject) String() string {
	if s.tags != nil {
		return tagText(s.tags)
	}
	return q(s.s)
}

// pattern is a compiled pattern of any of the three kinds.
type pattern interface {
	raw() string // the original text, "" if it is not kept
	norm() string
	match(subject) bool
}

// anyTree is any of the three trees.
type anyTree interface {
	compile(text string) (pattern, error)
	add(text string, i int) (string, int, error)
	addCompiled(p pattern, i int) (string, int, error)
	match(s subject, st *recStore) int
	books() (map[string]int, map[int]string)
}

type globPat struct{ g *glob.Glob }

func (p globPat) raw() string          { return p.g.Glob }
func (p globPat) norm() string         { return p.g.Node }
func (p globPat) match(s subject) bool { return p.g.Match(s.s) }

type globTree struct{ t *glob.GlobTree }

func (t globTree) compile(text string) (pattern, error) {
	g, err := glob.Parse(text)
	return globPat{g}, err
}
func (t globTree) add(s string, i int) (string, int, error) { return t.t.Add(s, i) }
func (t globTree) addCompiled(p pattern, i int) (string, int, error) {
	return t.t.AddGlob(p.(globPat).g, i)
}
func (t globTree) match(s subject, st *recStore) int       { return t.t.Match(s.s, st) }
func (t globTree) books() (map[string]int, map[int]string) { return t.t.Globs, t.t.GlobsIndex }

type gglobPat struct{ g *gglob.GGlob }

func (p gglobPat) raw() string          { return p.g.Glob }
func (p gglobPat) norm() string         { return p.g.Node }
func (p gglobPat) match(s subject) bool { return p.g.Match(s.s) }

type gglobTree struct{ t *gglob.GGlobTree }

func (t gglobTree) compile(text string) (pattern, error) {
	g, err := gglob.Parse(text)
	return gglobPat{g}, err
}
func (t gglobTree) add(s string, i int) (string, int, error) { return t.t.Add(s, i) }
func (t gglobTree) addCompiled(p pattern, i int) (string, int, error) {
	return t.t.AddGlob(p.(gglobPat).g, i)
}
func (t gglobTree) match(s subject, st *recStore) int       { return t.t.Match(s.s, st) }
func (t gglobTree) books() (map[string]int, map[int]string) { return t.t.Globs, t.t.GlobsIndex }

type tagsPat struct{ t gtags.TaggedTermList }

func (p tagsPat) raw() string  { return "" }
func (p tagsPat) norm() string { return p.t.String() }
func (p tagsPat) match(s subject) bool {
	l, _ := toTags(s.tags)
	return p.t.MatchByTags(l)
}

type tagsTree struct{ t *gtags.GTagsTree }

func (t tagsTree) compile(text string) (pattern, error) {
	p, err := gtags.ParseSeriesByTag(text)
	return tagsPat{p}, err
}
func (t tagsTree) add(s string, i int) (string, int, error) { return t.t.Add(s, i) }
func (t tagsTree) addCompiled(p pattern, i int) (string, int, error) {
	return t.t.AddTerms(p.(tagsPat).t, i)
}
func (t tagsTree) match(s subject, st *recStore) int {
	l, m := toTags(s.tags)
	if len(s.tags)%2 == 0 {
		return t.t.MatchByTagsMap(m, st)
	}
	return t.t.MatchByTags(l, st)
}
func (t tagsTree) books() (map[string]int, map[int]string) { return t.t.Queries, t.t.QueryIndex }

// treeKind makes workloads for one kind of tree.
type treeKind struct {
	name  string
	empty func() anyTree
	// workload gives texts (with several spellings of some patterns) and a
	// function making subjects for them
	workload func(r *gen.Rng, n int) (texts []string, subj func() subject)
	bad      []string
}

var treeKinds = []*treeKind{
	{
		name:  "glob",
		empty: func() anyTree { return globTree{glob.NewTree()} },
		bad:   []string{"a[", "{a", "b]", "a}", "{a{b}}", "[z-a]", "*[", "]"},
		workload: func(r *gen.Rng, n int) (texts []string, subj func() subject) {
			a := gen.SomeAlpha(r)
			if r.P(1, 6) {
				texts = gen.SiblingGlobs(r, a, n)
			} else if r.P(1, 2) {
				texts = globSet(r, a, n)
			} else if r.P(1, 3) {
				texts = gen.Twins(r, a, n)
			} else {
				for len(texts) < n {
					ps := gen.Pieces(r, noComma(a), 3, false)
					for k := 1 + r.Intn(3); k > 0; k-- {
						texts = append(texts, gen.Spell(r, ps))
					}
				}
			}
			if r.P(1, 3) {
				texts = append(texts, texts[0]+"*", texts[0]+"a", "a", "*")
			}
			refs := make([]*ref.Glob, len(texts))
			for i, s := range texts {
				refs[i] = mustRef(s)
			}
			return texts, func() subject {
				return subject{s: ref.String(gen.Subject(r, gen.Pick(r, refs), a))}
			}
		},
	},
	{
		name:  "dotted glob",
		empty: func() anyTree { return gglobTree{gglob.NewTree()} },
		bad:   []string{"a.[", "{a.b}", "b].a", "a..b", ".a", "..", "{a{b}}.c", "a.[z-a]", "a.*[.b"},
		workload: func(r *gen.Rng, n int) (texts []string, subj func() subject) {
			a := noComma(gen.SomeAlpha(r))
			if r.P(1, 6) {
				texts = siblingDotted(r, a, n)
			} else if r.P(1, 2) {
				texts = dottedSet(r, a, n, 4)
			} else if r.P(1, 3) {
				texts = gen.Twins(r, a, n)
				first, last := gen.Twins(r, a, 2), gen.Twins(r, a, 2)
				for i := range texts {
					switch r.Intn(4) {
					case 0:
						texts[i] = first[0] + "." + texts[i]
					case 1:
						texts[i] += "." + gen.Pick(r, last)
					case 2:
						texts[i] = gen.Pick(r, first) + "." + texts[i] + "." + last[0]
					}
				}
			} else {
				for len(texts) < n {
					ps, ps2 := gen.Pieces(r, a, 2, false), gen.Pieces(r, a, 2, false)
					for k := 1 + r.Intn(3); k > 0; k-- {
						texts = append(texts, gen.Spell(r, ps)+"."+gen.Spell(r, ps2))
					}
				}
			}
			refs := make([]*ref.Path, len(texts))
			for i, s := range texts {
				p, err := ref.ParsePath(s)
				if err != nil {
					panic("harness: malformed " + q(s))
				}
				refs[i] = p
			}
			return texts, func() subject {
				return subject{s: gen.Path(r, gen.Pick(r, refs), a)}
			}
		},
	},
	{
		name:  "tag query",
		empty: func() anyTree { return tagsTree{gtags.NewTree()} },
		bad:   []string{"seriesByTag('a')", "seriesByTag('a=[')", "seriesByTag(", "x", "seriesByTag('a=~(')", "seriesByTag('=a')", "seriesByTag('a=1)", "seriesByTag(a=1)"},
		workload: func(r *gen.Rng, n int) (texts []string, subj func() subject) {
			p := gen.NewTermPool(r, 1+r.Intn(8), 3+r.Intn(12))
			var queries, twins []ref.Query
			switch r.Intn(6) {
			case 0:
				twins = p.TwinQueries(r, n)
			case 1:
				p, twins = gen.SiblingQueries(r, n)
			}
			for len(texts) < n {
				qr := p.Query(r, 4)
				if len(twins) > 0 {
					qr = gen.Pick(r, twins)
				}
				queries = append(queries, qr)
				for k := 1 + r.Intn(2); k > 0; k-- {
					perm := append(ref.Query(nil), qr...)
					gen.Shuffle(r, perm)
					texts = append(texts, gen.QueryText(r, perm, r.P(1, 2)))
				}
			}
			return texts, func() subject {
				tags := p.Tags(r, gen.Pick(r, queries))
				if tags == nil {
					tags = []ref.Tag{}
				}
				return subject{tags: tags}
			}
		},
	},
}

// books is the model of what a tree has recorded.
type books struct {
	byText  map[string]int
	byIndex map[int]string
}

func (b *books) equal(texts map[string]int, index map[int]string) bool {
	if len(texts) != len(b.byText) || len(index) != len(b.byIndex) {
		return false
	}
	for k, v := range b.byText {
		if w, ok := texts[k]; !ok || w != v {
			return false
		}
	}
	for k, v := range b.byIndex {
		if w, ok := index[k]; !ok || w != v {
			return false
		}
	}
	return true
}

type bookStep struct {
	text     string
	index    int
	compiled bool
}

func stepsText(s []bookStep) string {
	out := ""
	for _, x := range s {
		how := "Add"
		if x.compiled {
			how = "AddCompiled"
		}
		out += fmt.Sprintf(" %s(%s,%d)", how, q(x.text), x.index)
	}
	return out
}

// step performs one addition on the tree and judges it against the books. It
// says whether the addition was accepted.
func (b *books) step(t *T, kind *treeKind, tree anyTree, hist []bookStep) (accepted, ok bool) {
	x := hist[len(hist)-1]
	t.Desc(func() string { return kind.name + " tree:" + stepsText(hist) })
	fail := func(f string, args ...any) (bool, bool) {
		t.Fail("books", stepsText(hist), "%s tree:%s: %s", kind.name, stepsText(hist), fmt.Sprintf(f, args...))
		return false, false
	}
	pat, perr := tree.compile(x.text)
	raw, norm := x.text, ""
	if perr == nil {
		norm = pat.norm()
		if x.compiled {
			raw = pat.raw()
			if raw == "" {
				raw = norm
			}
		}
	} else if x.compiled {
		return false, true
	}
	if x.compiled && x.text == "" {
		return false, true // adding an empty compiled pattern is not defined for every tree
	}
	var gotNorm string
	var n int
	var err error
	if x.compiled {
		gotNorm, n, err = tree.addCompiled(pat, x.index)
	} else {
		gotNorm, n, err = tree.add(x.text, x.index)
	}
	t.Eval(1)
	texts, index := tree.books()
	if x.text == "" || x.compiled && kind.name == "tag query" && len(pat.(tagsPat).t) == 0 {
		t.Count("empty_additions", 1)
		if !b.equal(texts, index) {
			return fail("an empty addition changed the books to %v %v", texts, index)
		}
		return false, true
	}
	// the causes for a refusal
	at, present := b.byText[raw]
	if !present && perr == nil {
		at, present = b.byText[norm]
	}
	user, used := b.byIndex[x.index]
	negative := x.index < 0
	if !negative && !present && !used && perr == nil {
		if err != nil {
			return fail("refused with %v, but nothing is wrong with it", err)
		}
		if gotNorm != norm || n != x.index {
			return fail("returned %s, %d; want %s, %d", q(gotNorm), n, q(norm), x.index)
		}
		b.byText[raw], b.byText[norm] = x.index, x.index
		b.byIndex[x.index] = norm
		if !b.equal(texts, index) {
			return fail("books are %v %v; want %v %v", texts, index, b.byText, b.byIndex)
		}
		t.Count("accepted", 1)
		return true, true
	}
	causes := 0
	for _, c := range []bool{negative, present, used, perr != nil} {
		if c {
			causes++
		}
	}
	switch {
	case err == nil:
		return fail("accepted (%s, %d), although negative=%v present=%v used=%v malformed=%v", q(gotNorm), n, negative, present, used, perr)
	case errors.Is(err, glob.ErrIndexInvalid):
		if !negative {
			return fail("refused with %v", err)
		}
		t.Count("refused_negative_index", 1)
	case errors.Is(err, glob.ErrGlobExist):
		if !present {
			return fail("refused with %v", err)
		}
		if n != at {
			return fail("refused with %v and index %d, but it is present under %d", err, n, at)
		}
		t.Count("refused_present", 1)
	case errors.Is(err, glob.ErrIndexDup):
		if !used {
			return fail("refused with %v", err)
		}
		if gotNorm != user {
			return fail("refused with %v and pattern %s, but the index belongs to %s", err, q(gotNorm), q(user))
		}
		t.Count("refused_index_in_use", 1)
	default:
		if perr == nil {
			return fail("refused with %v", err)
		}
		t.Count("refused_malformed", 1)
	}
	if causes > 1 {
		t.Count("refused_for_several_causes", 1)
	}
	if !b.equal(texts, index) {
		return fail("the refused addition left books %v %v; want %v %v", texts, index, b.byText, b.byIndex)
	}
	return false, true
}

// broken gives a malformed text: one of the listed, or one of the texts with
// something malformed in it.
func (kind *treeKind) broken(r *gen.Rng, texts []string) string {
	bad := gen.Pick(r, kind.bad)
	s := gen.Pick(r, texts)
	if r.P(1, 2) || s == "" {
		return bad
	}
	switch kind.name {
	case "glob":
		return s + gen.Pick(r, []string{"[", "{", "[z-a]", "{a{b}}"})
	case "dotted glob":
		nodes := strings.Split(strings.TrimSuffix(s, "."), ".")
		i := r.Intn(len(nodes) + 1)
		if i == len(nodes) || r.P(1, 2) {
			nodes = append(nodes[:i:i], append([]string{gen.Pick(r, []string{"[", "{", "a]", "b}", "*{", "[z-a]", ""})}, nodes[i:]...)...)
		} else {
			nodes[i] += gen.Pick(r, []string{"[", "{", "[z-a]"})
		}
		if nodes[len(nodes)-1] == "" {
			nodes = append(nodes, "x")
		}
		return strings.Join(nodes, ".")
	}
	if strings.HasSuffix(s, ")") && strings.HasPrefix(s, "seriesByTag('") {
		term := gen.Pick(r, []string{"'a'", "'=a'", "'a=['", "'a=~('", "a=1", "'a=1"})
		if r.P(1, 2) {
			return s[:len(s)-1] + "," + term + ")"
		}
		return "seriesByTag(" + term + "," + s[len("seriesByTag("):]
	}
	return bad
}

func setOf(st *recStore) map[rec]bool {
	m := map[rec]bool{}
	for _, r := range st.r {
		m[r] = true
	}
	return m
}

func sameSet(a, b map[rec]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func c10case(t *T, kind *treeKind, n int) {
	t.Count(kind.name+" histories", 1)
	texts, subj := kind.workload(t.R, 2+n/3)
	tree := kind.empty()
	b := &books{map[string]int{}, map[int]string{}}
	var hist []bookStep
	type acc struct {
		p pattern
		i int
	}
	var accepted []acc
	shared := map[string]pattern{}
	for k := 0; k < n; k++ {
		x := bookStep{text: gen.Pick(t.R, texts), index: t.R.Intn(n), compiled: t.R.P(2, 5)}
		switch t.R.Intn(16) {
		case 0:
			x.text = kind.broken(t.R, texts)
		case 1:
			x.index = gen.Pick(t.R, []int{-1, -1, -2, -3, -1 << 31, -1 << 32, -1<<32 + 1, math.MinInt})
		case 2:
			x.text = ""
		case 3: // the normal form of something added before
			if len(accepted) > 0 {
				x.text = gen.Pick(t.R, accepted).p.norm()
			}
		case 4:
			x.index = gen.Pick(t.R, []int{1 << 50, 1 << 50, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, math.MaxInt})
		}
		if kind.name == "glob" && x.compiled {
			if p, err := tree.compile(x.text); err == nil && p.norm() == "" {
				x.compiled = false
			}
		}
		hist = append(hist, x)
		took, ok := b.step(t, kind, tree, hist)
		if !ok {
			return
		}
		if took {
			p := shared[x.text]
			if p == nil {
				p, _ = tree.compile(x.text)
				shared[x.text] = p
			}
			accepted = append(accepted, acc{p, x.index})
		}
	}
	// what the tree reports is what its books say
	for k := 0; k < 4; k++ {
		s := subj()
		var st recStore
		t.Desc(func() string { return fmt.Sprintf("%s tree:%s then match %s", kind.name, stepsText(hist), s) })
		tree.match(s, &st)
		got := setOf(&st)
		want := map[rec]bool{}
		for _, a := range accepted {
			if a.p.match(s) {
				want[rec{a.p.norm(), a.i}] = true
			}
		}
		t.Eval(1)
		t.Count("reports", int64(len(st.r)))
		if !sameSet(got, want) {
			t.Fail("reports", stepsText(hist), "%s tree:%s then match %s reports %v; the accepted additions which match are %v", kind.name, stepsText(hist), s, st.r, want)
			return
		}
	}
	h := gen.Hash(stepsText(hist))
	t.Distinct(h)
	t.Max("additions_in_a_history", int64(len(hist)))
	t.Sample(func() string { return kind.name + ":" + stepsText(hist) })
}

// c10both adds texts to one tree and the compiled patterns to another.
func c10both(t *T, kind *treeKind) {
	texts, _ := kind.workload(t.R, 2+t.R.Intn(6))
	t1, t2 := kind.empty(), kind.empty()
	var hist []bookStep
	for i, s := range texts {
		if kind.name == "dotted glob" && s[len(s)-1] == '.' {
			s = s[:len(s)-1]
		}
		p, err := t1.compile(s)
		if err != nil {
			t.Fail("rejected", s, "%s %s: %v", kind.name, q(s), err)
			return
		}
		if p.norm() == "" {
			continue
		}
		if kind.name == "tag query" {
			s = p.norm() // compiled queries keep their canonical text only
			if len(p.(tagsPat).t) == 0 {
				continue
			}
		}
		hist = append(hist, bookStep{s, i, false})
		t.Desc(func() string { return kind.name + " tree:" + stepsText(hist) })
		n1, i1, e1 := t1.add(s, i)
		n2, i2, e2 := t2.addCompiled(p, i)
		t.Eval(1)
		t.Count("additions_compared", 1)
		if e1 == nil && n1 != n2 || i1 != i2 || !errors.Is(e1, e2) {
			t.Fail("books", stepsText(hist), "%s tree:%s: the text gives %s, %d, %v, the compiled pattern %s, %d, %v", kind.name, stepsText(hist), q(n1), i1, e1, q(n2), i2, e2)
			return
		}
	}
	a1, b1 := t1.books()
	a2, b2 := t2.books()
	if !(&books{a1, b1}).equal(a2, b2) {
		t.Fail("books", stepsText(hist), "%s tree:%s: books by text %v %v, by compiled patterns %v %v", kind.name, stepsText(hist), a1, b1, a2, b2)
		return
	}
	t.Distinct(gen.Hash(stepsText(hist)))
}

// c11case compares a tree built in one go with one built in another order with
// refused additions and matches in between.
func c11case(t *T, kind *treeKind, n int) {
	t.Count(kind.name+" builds", 1)
	texts, subj := kind.workload(t.R, n)
	type add struct {
		text  string
		norm  string
		index int
		p     pattern
	}
	var adds []add
	norms := map[string]bool{}
	spellings := map[string][]string{} // by normal form
	plain := kind.empty()
	idx := indexes(t.R, len(texts))
	for i, s := range texts {
		p, err := plain.compile(s)
		if err != nil {
			t.Fail("rejected", s, "%s %s: %v", kind.name, q(s), err)
			return
		}
		if n := p.norm(); n != "" && s != "" {
			spellings[n] = append(spellings[n], s)
			if len(spellings[n]) == 1 {
				spellings[n] = append(spellings[n], n)
			}
		}
		if p.norm() == "" || norms[p.norm()] || norms[s] {
			continue
		}
		norms[p.norm()], norms[s] = true, true
		adds = append(adds, add{s, p.norm(), idx[i], p})
	}
	var hist []bookStep
	for _, a := range adds {
		hist = append(hist, bookStep{a.text, a.index, false})
		t.Desc(func() string { return kind.name + " tree:" + stepsText(hist) })
		if _, _, err := plain.add(a.text, a.index); err != nil {
			t.Fail("addition refused", a.text, "%s tree:%s: %v", kind.name, stepsText(hist), err)
			return
		}
	}
	var subjects []subject
	for k := 0; k < 6; k++ {
		subjects = append(subjects, subj())
	}
	base := make([]map[rec]bool, len(subjects))
	total := 0
	for i, s := range subjects {
		var st recStore
		plain.match(s, &st)
		base[i] = setOf(&st)
		total += len(base[i])
	}
	gen.Shuffle(t.R, adds)
	other := kind.empty()
	hist = nil
	before := make([]map[rec]bool, len(subjects))
	for i := range before {
		before[i] = map[rec]bool{}
	}
	refused := 0
	for k, a := range adds {
		// refused additions, and a match, in between
		for j := t.R.Intn(3); j > 0; j-- {
			x := bookStep{gen.Pick(t.R, texts), -1, false}
			switch t.R.Intn(6) {
			case 3, 4:
				if k > 0 { // present in another spelling, under a free index
					sp := spellings[adds[t.R.Intn(k)].norm]
					x.text, x.index = gen.Pick(t.R, sp), 1<<30+t.R.Intn(3)
					t.Count("refused_spellings", 1)
				}
			case 0:
				x.text, x.index = kind.broken(t.R, texts), 1<<30
			case 1:
				if k > 0 {
					x.index = adds[t.R.Intn(k)].index // in use
				}
			case 2:
				if k > 0 {
					x.text, x.index = adds[t.R.Intn(k)].text, 1<<30 // present
				}
			}
			x.compiled = t.R.P(1, 3)
			hist = append(hist, x)
			t.Desc(func() string { return kind.name + " tree:" + stepsText(hist) })
			var err error
			if x.compiled {
				p, perr := other.compile(x.text)
				if perr != nil || p.norm() == "" {
					continue
				}
				_, _, err = other.addCompiled(p, x.index)
			} else {
				_, _, err = other.add(x.text, x.index)
			}
			if err == nil && !(x.compiled && kind.name == "tag query" && x.text != "" && len(mustTerms(other, x.text)) == 0) {
				t.Fail("addition accepted", stepsText(hist), "%s tree:%s: the last addition should have been refused", kind.name, stepsText(hist))
				return
			}
			refused++
		}
		x := bookStep{a.text, a.index, t.R.P(1, 2)}
		if kind.name == "tag query" && len(a.p.(tagsPat).t) == 0 {
			x.compiled = false
		}
		hist = append(hist, x)
		t.Desc(func() string { return kind.name + " tree:" + stepsText(hist) })
		var err error
		if x.compiled {
			p, _ := other.compile(a.text)
			_, _, err = other.addCompiled(p, a.index)
		} else {
			_, _, err = other.add(a.text, a.index)
		}
		if err != nil {
			t.Fail("addition refused", stepsText(hist), "%s tree:%s: %v", kind.name, stepsText(hist), err)
			return
		}
		for i, s := range subjects {
			if t.R.P(1, 3) && k < len(adds)-1 {
				// the effect of this one is looked at later
				if a.p.match(s) {
					before[i][rec{a.norm, a.index}] = true
				}
				continue
			}
			var st recStore
			t.Desc(func() string { return fmt.Sprintf("%s tree:%s then match %s", kind.name, stepsText(hist), s) })
			n := other.match(s, &st)
			now := setOf(&st)
			if a.p.match(s) {
				before[i][rec{a.norm, a.index}] = true
			}
			t.Eval(1)
			t.Count("matches_while_building", 1)
			if !sameSet(now, before[i]) || (n == 0) != (len(now) == 0) {
				t.Fail("order", stepsText(hist)+" ~ "+s.String(), "%s tree:%s then match %s reports %v; the additions so far which match are %v", kind.name, stepsText(hist), s, st.r, before[i])
				return
			}
		}
	}
	for i, s := range subjects {
		var st recStore
		other.match(s, &st)
		t.Eval(1)
		t.Count("reports_compared", int64(len(base[i])))
		if got := setOf(&st); !sameSet(got, base[i]) {
			t.Fail("order", stepsText(hist)+" ~ "+s.String(), "%s tree:%s then match %s reports %v; the same additions in another order report %v", kind.name, stepsText(hist), s, st.r, base[i])
			return
		}
	}
	t.Count("refused_in_between", int64(refused))
	if total > 0 {
		t.Count("builds_with_reports", 1)
	}
	t.Distinct(gen.Hash(stepsText(hist)))
	t.Max("additions_in_a_build", int64(len(hist)))
	t.Sample(func() string { return kind.name + ":" + stepsText(hist) })
}

func mustTerms(tree anyTree, text string) gtags.TaggedTermList {
	p, err := tree.compile(text)
	if err != nil {
		return nil
	}
	return p.(tagsPat).t
}

func init() {
	perKind := func(name string, quick, thorough int, run func(t *T, k *treeKind)) (out []*Stream) {
		for _, k := range treeKinds {
			k := k // one for each stream
			out = append(out, &Stream{Name: name + " " + k.name, Quick: quick, Thorough: thorough, Run: func(t *T) { run(t, k) }})
		}
		return
	}
	var s10 []*Stream
	s10 = append(s10, perKind("short", 40000, 1000000, func(t *T, k *treeKind) { c10case(t, k, 3+t.R.Intn(10)) })...)
	s10 = append(s10, perKind("long", 1500, 40000, func(t *T, k *treeKind) { c10case(t, k, 20+t.R.Intn(80)) })...)
	s10 = append(s10, perKind("both", 12000, 300000, func(t *T, k *treeKind) { c10both(t, k) })...)
	s10 = append(s10, perKind("crowd", 1, 8, c10crowd)...)
	s10 = append(s10, perKind("huge", 12, 200, func(t *T, k *treeKind) { c10case(t, k, 1000+t.R.Intn(1500)) })...)
	register(&Prop{
		ID: "C10",
		Rule: "One observation: one addition (text or compiled pattern) in a history, its results, its error and the complete books afterwards compared with a model of the books; or what the " +
			"tree reports at the end against the accepted additions; or the books after adding texts against those after adding the patterns compiled from them. Histories mix few indexes, " +
			"several spellings and normal forms of the same patterns, malformed ones (among them valid ones broken in one place) and empty ones; a few have over a thousand additions. The crowd streams keep the books of 140 thousand patterns and more. Distinct: distinct histories.",
		Assume: []string{
			"if several causes for a refusal apply, any one of them may be given",
			"adding an empty compiled glob is not judged; a compiled tag query is known by its canonical text only; the trailing dot of a dotted glob is part of the added text, not of the compiled pattern",
		},
		Need: map[string]int64{"accepted": 100000, "refused_present": 20000, "refused_index_in_use": 20000, "refused_negative_index": 5000, "refused_malformed": 2000, "empty_additions": 5000, "additions_compared": 50000, "reports": 20000,
			"glob histories": 1000, "dotted glob histories": 1000, "tag query histories": 1000},
		Streams: s10,
	})
	var s11 []*Stream
	s11 = append(s11, perKind("small", 12000, 400000, func(t *T, k *treeKind) { c11case(t, k, 2+t.R.Intn(8)) })...)
	s11 = append(s11, perKind("large", 500, 12000, func(t *T, k *treeKind) { c11case(t, k, 20+t.R.Intn(60)) })...)
	s11 = append(s11, perKind("huge", 8, 100, func(t *T, k *treeKind) { c11case(t, k, 600+t.R.Intn(1000)) })...)
	register(&Prop{
		ID: "C11",
		Rule: "One observation: what a tree under construction reports for one subject after one more addition (always: what the additions so far report), or what two trees built from the same " +
			"accepted additions in different orders, one of them with refused additions and matches in between, report for one subject. Distinct: distinct build histories.",
		Assume: []string{"reports are compared as sets"},
		Need: map[string]int64{"matches_while_building": 200000, "reports_compared": 50000, "refused_in_between": 50000, "builds_with_reports": 10000,
			"glob builds": 1000, "dotted glob builds": 1000, "tag query builds": 1000},
		Streams: s11,
	})
}
