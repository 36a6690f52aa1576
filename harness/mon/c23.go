package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/msaf1980/go-matcher/expand"
	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/escape"
	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/pkg/utils"

	"verifharness/gen"
	"verifharness/ref"
)

// operand is an argument shared by many operations, with what it has to stay.
type operand struct {
	name string
	get  func() string // renders it, with the unused capacity behind it
	want string
}

// result is something an operation handed out.
type result struct {
	op   string
	get  func() string
	want string
}

// world is a set of objects and arguments shared by a history of operations.
type world struct {
	t        *T
	r        *gen.Rng
	operands []operand
	ops      []wop
	results  []result
	answers  map[string]string
	trace    []string
}

// wop is one operation on shared objects; its answer is rendered. keep hands
// over a result that has to stay as it is.
type wop struct {
	name string
	run  func(keep func(get func() string), spoil bool) string
}

func (w *world) operand(name string, get func() string) {
	w.operands = append(w.operands, operand{name, get, get()})
}

// strs makes a list of strings with canaries in the capacity behind it.
func (w *world) strs(name string, s []string) []string {
	back := make([]string, len(s)+3)
	copy(back, s)
	for i := len(s); i < len(back); i++ {
		back[i] = "canary"
	}
	w.operand(name, func() string { return fmt.Sprintf("%q", back) })
	return back[:len(s)]
}

func (w *world) tagList(name string, tags []gtags.Tag) []gtags.Tag {
	back := make([]gtags.Tag, len(tags)+2)
	copy(back, tags)
	for i := len(tags); i < len(back); i++ {
		back[i] = gtags.Tag{Key: "canary", Value: "canary"}
	}
	w.operand(name, func() string { return fmt.Sprintf("%q", back) })
	return back[:len(tags)]
}

func (w *world) tagMap(name string, m map[string]string) map[string]string {
	w.operand(name, func() string { return showAll(m) })
	return m
}

func (w *world) bytes(name, s string) []byte {
	back := append([]byte(s), 0xaa, 0xaa)
	w.operand(name, func() string { return string(back) })
	return back[:len(s)]
}

// text is a string of its own.
func (w *world) text(name, s string) string {
	own := ownCopy(s)
	w.operand(name, func() string { return ownCopy(own) })
	return own
}

func showAll(m map[string]string) string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&b, "%q:%q,", k, m[k])
	}
	return b.String()
}

func (w *world) op(name string, run func(keep func(func() string), spoil bool) string) {
	w.ops = append(w.ops, wop{name, run})
}

func reports(st *recStore, n int) string {
	if len(st.r) > 2000 {
		var sum uint64
		for _, x := range st.r {
			sum += gen.Mix(gen.Hash(x.q), uint64(x.i))
		}
		return fmt.Sprintf("%d %x", n, sum)
	}
	lines := make([]string, len(st.r))
	for i, x := range st.r {
		lines[i] = fmt.Sprintf("%q#%d", x.q, x.i)
	}
	sort.Strings(lines)
	return fmt.Sprintf("%d %s", n, strings.Join(lines, " "))
}

func keepString(keep func(func() string), s string) string {
	keep(func() string { return ownCopy(s) })
	return ownCopy(s)
}

func keepList(keep func(func() string), l []string, spoil bool) string {
	out := fmt.Sprintf("%q", l)
	if spoil {
		l = l[:cap(l)]
		for i := range l {
			l[i] = "spoiled"
		}
	} else {
		keep(func() string { return fmt.Sprintf("%q", l) })
	}
	return out
}

func keepMap(keep func(func() string), m map[string]string, spoil bool) string {
	out := showAll(m)
	if spoil {
		for k := range m {
			m[k] = "spoiled"
		}
		if m != nil {
			m["spoiled"] = "spoiled"
		}
	} else {
		keep(func() string { return showAll(m) })
	}
	return out
}

func keepTags(keep func(func() string), l []gtags.Tag, spoil bool) string {
	out := fmt.Sprintf("%q", l)
	if spoil {
		for i := range l {
			l[i] = gtags.Tag{Key: "spoiled", Value: "spoiled"}
		}
	} else {
		keep(func() string { return fmt.Sprintf("%q", l) })
	}
	return out
}

func errS(err error) string {
	if err == nil {
		return ""
	}
	return " error: " + err.Error()
}

// populate makes the objects, the arguments and the operations on them.
func (w *world) populate() {
	r := w.r
	a := noComma(gen.SomeAlpha(r))
	// some gives lo to hi, sometimes many more
	some := func(lo, hi, many int) int {
		if r.P(1, 5) {
			return hi + r.Intn(many-hi+1)
		}
		return lo + r.Intn(hi-lo+1)
	}

	// globs
	pool := gen.Pool(r, a, 4, gen.Opt{})
	var globs []*glob.Glob
	var subjects []string
	for i, n := 0, some(3, 5, 16); i < n; i++ {
		text := w.text("glob text", gen.FromPool(r, pool, some(3, 3, 8)))
		g, err := glob.Parse(text)
		if err != nil {
			continue
		}
		globs = append(globs, g)
		rg := mustRef(text)
		for k := 0; k < 2; k++ {
			subjects = append(subjects, w.text("subject", ref.String(gen.Subject(r, rg, a))))
		}
	}
	globTree := glob.NewTree()
	for i, g := range globs {
		globTree.AddGlob(g, i*2)
	}
	for i, g := range globs {
		g := g
		name := fmt.Sprintf("glob %d %s ", i, q(g.Glob))
		w.op(name+"String, Raw", func(keep func(func() string), _ bool) string {
			return keepString(keep, g.String()) + " " + keepString(keep, g.Raw())
		})
		w.op(name+"WriteRandom", func(func(func() string), bool) string {
			var b strings.Builder
			g.WriteRandom(&b)
			return ""
		})
		w.op(name+"fields", func(keep func(func() string), _ bool) string {
			return fmt.Sprint(g.MinLen, g.MaxLen, q(g.Prefix), q(g.Suffix), len(g.Vals), len(g.Items))
		})
		w.op(name+"items", func(keep func(func() string), _ bool) string {
			s := ""
			for _, it := range g.Items {
				s += keepString(keep, it.String()) + fmt.Sprint(it.MinLen(), it.MaxLen()) + " "
			}
			return s
		})
		for k := 0; k < 2; k++ {
			s := gen.Pick(r, subjects)
			w.op(name+"Match "+q(s), func(func(func() string), bool) string { return fmt.Sprint(g.Match(s)) })
			if len(g.Items) > 0 {
				w.op(name+"MatchItems "+q(s), func(func(func() string), bool) string {
					return fmt.Sprint(items.MatchItems(s, g.Items))
				})
			}
		}
		w.op(name+"compiled again", func(keep func(func() string), _ bool) string {
			g2, err := glob.Parse(g.Glob)
			if err != nil {
				return errS(err)
			}
			return keepString(keep, g2.Node)
		})
	}
	if len(globs) > 0 {
		for k := 0; k < 3; k++ {
			s := gen.Pick(r, subjects)
			w.op("glob tree Match "+q(s), func(keep func(func() string), _ bool) string {
				st := &recStore{}
				n := globTree.Match(s, st)
				keep(func() string { return reports(st, n) })
				return reports(st, n)
			})
			s2 := gen.Pick(r, subjects)
			w.op("glob tree Match "+q(s)+" with Match "+q(s2)+" inside", func(func(func() string), bool) string {
				return nested(w.t, "glob tree Match "+q(s)+" with Match "+q(s2)+" inside", func(st items.Store) int { return globTree.Match(s, st) }, func(st items.Store) int { return globTree.Match(s2, st) })
			})
			// other trees built of the same compiled globs
			order := r.Intn(len(globs))
			extra := gen.FromPool(r, pool, 3)
			w.op(fmt.Sprintf("new glob tree (from %d, and %s) Match %s", order, q(extra), q(s)), func(func(func() string), bool) string {
				tree := glob.NewTree()
				for i := range globs {
					tree.AddGlob(globs[(i+order)%len(globs)], i)
				}
				_, _, err := tree.Add(extra, 1000)
				st := &recStore{}
				n := tree.Match(s, st)
				return reports(st, n) + errS(err)
			})
		}
	}

	// dotted globs
	var ggs []*gglob.GGlob
	var paths []string
	var parts [][]string
	for i, n := 0, some(2, 4, 10); i < n; i++ {
		text := w.text("dotted text", gen.Dotted(r, a, pool, some(3, 3, 14)))
		g, err := gglob.Parse(text)
		if err != nil {
			continue
		}
		p, err := ref.ParsePath(text)
		if err != nil {
			continue
		}
		ggs = append(ggs, g)
		path := w.text("path", gen.Path(r, p, a))
		paths = append(paths, path)
		if sp := gglob.PathSplit(path); !gglob.HasEmptyParts(sp) && len(sp) > 0 {
			parts = append(parts, w.strs("path parts", sp))
		}
		if sp := gglob.PathSplit(path); len(sp) > 0 && r.P(1, 2) {
			// parts no split gives: what they match is not said, but they are not touched
			sp = append([]string(nil), sp...)
			at := gen.Pick(r, []int{0, len(sp) - 1, len(sp) - 1, r.Intn(len(sp))})
			sp[at] = gen.Pick(r, []string{sp[at] + ".", "." + sp[at], "", ".", sp[at] + "." + sp[at], sp[at] + " ", strings.ToUpper(sp[at]), sp[at] + ";a=b", sp[at] + "\x00"})
			parts = append(parts, w.strs("odd path parts", sp))
		}
	}
	ggTree := gglob.NewTree()
	for i, g := range ggs {
		ggTree.AddGlob(g, i)
	}
	for i, g := range ggs {
		g := g
		name := fmt.Sprintf("dotted glob %d %s ", i, q(g.Glob))
		w.op(name+"fields", func(keep func(func() string), _ bool) string {
			return keepString(keep, g.Node) + keepString(keep, g.Glob) + fmt.Sprint(g.MinLen, g.MaxLen, len(g.Parts))
		})
		for k := 0; k < 2; k++ {
			s := gen.Pick(r, paths)
			w.op(name+"Match "+q(s), func(func(func() string), bool) string { return fmt.Sprint(g.Match(s)) })
			if len(parts) > 0 {
				ps := gen.Pick(r, parts)
				n := r.Intn(2) * len(strings.Join(ps, "."))
				w.op(fmt.Sprintf("%sMatchByParts %s %d", name, qs(ps), n), func(func(func() string), bool) string { return fmt.Sprint(g.MatchByParts(ps, n)) })
			}
		}
	}
	scratch := make([]string, 0, r.Intn(4))
	for _, s := range paths {
		s := s
		w.op("dotted tree Match "+q(s), func(func(func() string), bool) string {
			st := &recStore{}
			n := ggTree.Match(s, st)
			return reports(st, n)
		})
		s2 := gen.Pick(r, paths)
		w.op("dotted tree Match "+q(s)+" with Match "+q(s2)+" inside", func(func(func() string), bool) string {
			return nested(w.t, "dotted tree Match "+q(s)+" with Match "+q(s2)+" inside", func(st items.Store) int { return ggTree.Match(s, st) }, func(st items.Store) int { return ggTree.Match(s2, st) })
		})
		w.op("path helpers "+q(s), func(keep func(func() string), spoil bool) string {
			p, n := gglob.PathLevel(s)
			ok := gglob.PathSplitB(s, &scratch)
			out := keepString(keep, p) + fmt.Sprint(n, ok)
			for _, x := range scratch {
				if ok {
					out += " " + keepString(keep, x)
				}
			}
			return out + keepList(keep, gglob.PathSplit(s), spoil)
		})
	}
	for _, ps := range parts {
		ps := ps
		ps2 := gen.Pick(r, parts)
		w.op("dotted tree MatchByParts "+qs(ps)+" with MatchByParts "+qs(ps2)+" inside", func(func(func() string), bool) string {
			return nested(w.t, "dotted tree MatchByParts "+qs(ps)+" with MatchByParts "+qs(ps2)+" inside", func(st items.Store) int { return ggTree.MatchByParts(ps, st) }, func(st items.Store) int { return ggTree.MatchByParts(ps2, st) })
		})
		w.op("dotted tree MatchByParts "+qs(ps), func(func(func() string), bool) string {
			st := &recStore{}
			n := ggTree.MatchByParts(ps, st)
			return reports(st, n)
		})
		w.op("HasEmptyParts "+qs(ps), func(func(func() string), bool) string { return fmt.Sprint(gglob.HasEmptyParts(ps)) })
	}

	// a tree many of whose globs match the same paths
	rich := gglob.NewTree()
	var told []string
	for _, s := range paths {
		if sp := gglob.PathSplit(s); len(sp) > 0 && !gglob.HasEmptyParts(sp) && !gen.HasSpecial(s) {
			told = append(told, s)
			for k := 0; k < 6; k++ {
				for i := range sp {
					switch r.Intn(5) {
					case 0, 1:
						sp[i] = "*"
					case 2:
						sp[i] = sp[i] + "*"
					}
				}
				if k == 0 {
					sp = gglob.PathSplit(s)
				}
				rich.Add(strings.Join(sp, "."), len(rich.GlobsIndex))
				sp = gglob.PathSplit(s)
			}
		}
	}
	for _, s := range told {
		s, s2 := s, gen.Pick(r, told)
		name := "rich dotted tree Match " + q(s) + " with Match " + q(s2) + " inside"
		w.op(name, func(func(func() string), bool) string {
			return nested(w.t, name, func(st items.Store) int { return rich.Match(s, st) }, func(st items.Store) int { return rich.Match(s2, st) })
		})
	}

	// tag queries
	tp := gen.NewTermPool(r, some(4, 4, 14), some(8, 8, 40))
	var lists []gtags.TaggedTermList
	var tagLists [][]gtags.Tag
	var tagMaps []map[string]string
	for i, n := 0, some(2, 4, 8); i < n; i++ {
		qr := tp.Query(r, some(3, 3, 20))
		var conds []string
		for k := range qr {
			conds = append(conds, gen.TermText(r, &qr[k], false))
		}
		conds = w.strs("conditions", conds)
		text := w.text("query", gen.QueryText(r, qr, r.P(1, 2)))
		w.op("ParseTaggedConditions "+qs(conds), func(keep func(func() string), spoil bool) string {
			l, err := gtags.ParseTaggedConditions(conds)
			s := keepString(keep, l.String()) + errS(err)
			if spoil {
				for i := range l {
					l[i].Key, l[i].Value = "spoiled", "spoiled"
				}
			} else {
				keep(func() string { return l.String() })
			}
			return s
		})
		w.op("ParseSeriesByTag "+q(text), func(keep func(func() string), spoil bool) string {
			l, err := gtags.ParseSeriesByTag(text)
			s := keepString(keep, l.String()) + errS(err)
			if spoil {
				for i := range l {
					l[i].Key, l[i].Value = "spoiled", "spoiled"
				}
			}
			return s
		})
		if l, err := gtags.ParseSeriesByTag(text); err == nil && len(l) > 0 {
			lists = append(lists, l)
		}
		rt := tp.Tags(r, qr)
		l, m := toTags(rt)
		if r.P(1, 3) && len(l) > 0 {
			// not in order, keys more than once: what is found is not specified, but
			// the list is the caller's
			for i := r.Intn(3); i >= 0; i-- {
				x := gen.Pick(r, l)
				x.Value = gen.Pick(r, []string{"", "0", "z", x.Value})
				l = append(l, x)
			}
			if r.P(1, 2) {
				gen.Shuffle(r, l)
			} else {
				sort.SliceStable(l, func(i, j int) bool { return l[i].Key < l[j].Key })
			}
			w.t.Count("odd_tag_lists", 1)
		}
		tagLists = append(tagLists, w.tagList("tag list", l))
		tagMaps = append(tagMaps, w.tagMap("tag map", m))
	}
	tagsTree := gtags.NewTree()
	for i, l := range lists {
		tagsTree.AddTerms(l, i)
	}
	for i, l := range lists {
		l := l
		name := fmt.Sprintf("query %d ", i)
		w.op(name+"String", func(keep func(func() string), _ bool) string { return keepString(keep, l.String()) })
		for k := range tagLists {
			tags, m := tagLists[k], tagMaps[k]
			w.op(fmt.Sprintf("%sMatchByTags %d", name, k), func(func(func() string), bool) string { return fmt.Sprint(l.MatchByTags(tags)) })
			w.op(fmt.Sprintf("%sMatchByTagsMap %d", name, k), func(func(func() string), bool) string { return fmt.Sprint(l.MatchByTagsMap(m)) })
		}
		k := r.Intn(len(tagLists))
		w.op(fmt.Sprintf("new tag tree from %d MatchByTags %d", i, k), func(_ func(func() string), spoil bool) string {
			tree := gtags.NewTree()
			for j := range lists {
				own := append(gtags.TaggedTermList(nil), lists[(i+j)%len(lists)]...)
				tree.AddTerms(own, j)
				if spoil {
					for x := range own {
						own[x] = gtags.TaggedTerm{Key: "spoiled", Op: gtags.TaggedTermEq, Value: "spoiled"}
					}
				}
			}
			st := &recStore{}
			n := tree.MatchByTags(tagLists[k], st)
			return reports(st, n)
		})
	}
	for k := range tagLists {
		tags, m := tagLists[k], tagMaps[k]
		w.op(fmt.Sprintf("tag tree MatchByTags %d", k), func(func(func() string), bool) string {
			st := &recStore{}
			n := tagsTree.MatchByTags(tags, st)
			return reports(st, n)
		})
		w.op(fmt.Sprintf("tag tree MatchByTagsMap %d", k), func(func(func() string), bool) string {
			st := &recStore{}
			n := tagsTree.MatchByTagsMap(m, st)
			return reports(st, n)
		})
		k2 := r.Intn(len(tagLists))
		w.op(fmt.Sprintf("tag tree MatchByTags %d with MatchByTagsMap %d inside", k, k2), func(func(func() string), bool) string {
			return nested(w.t, fmt.Sprintf("tag tree MatchByTags %d with MatchByTagsMap %d inside", k, k2), func(st items.Store) int { return tagsTree.MatchByTags(tags, st) }, func(st items.Store) int { return tagsTree.MatchByTagsMap(tagMaps[k2], st) })
		})
		w.op(fmt.Sprintf("tag tree MatchByTagsMap %d with MatchByTags %d inside", k, k2), func(func(func() string), bool) string {
			return nested(w.t, fmt.Sprintf("tag tree MatchByTagsMap %d with MatchByTags %d inside", k, k2), func(st items.Store) int { return tagsTree.MatchByTagsMap(m, st) }, func(st items.Store) int { return tagsTree.MatchByTags(tagLists[k2], st) })
		})
		w.op(fmt.Sprintf("TagsMap %d", k), func(keep func(func() string), spoil bool) string {
			return keepMap(keep, gtags.TagsMap(tags), spoil)
		})
	}

	// tagged paths
	reused := map[string]string{"old": "old"}
	for i := 0; i < 2; i++ {
		enc := ""
		for k, n := 0, some(1, 3, 20); k < n; k++ {
			enc += gen.Pick(r, []string{"&", ";"}) + tagWord(r, 4) + "=" + escape.Query(tagWord(r, 8))
		}
		p1 := w.text("URL path", "na%6De"+gen.Pick(r, []string{"", "%2B", "x"})+"?"+strings.ReplaceAll(enc[1:], ";", "&"))
		p2 := w.text("Graphite path", "na%6De"+gen.Pick(r, []string{"", "%2B", "x"})+strings.ReplaceAll(enc, "&", ";"))
		w.op("PathTags "+q(p1), func(keep func(func() string), spoil bool) string {
			l, err := gtags.PathTags(p1)
			return keepTags(keep, l, spoil) + errS(err)
		})
		w.op("PathTagsMap "+q(p1), func(keep func(func() string), spoil bool) string {
			m, err := gtags.PathTagsMap(p1)
			return keepMap(keep, m, spoil) + errS(err)
		})
		w.op("GraphitePathTags "+q(p2), func(keep func(func() string), spoil bool) string {
			l, err := gtags.GraphitePathTags(p2)
			return keepTags(keep, l, spoil) + errS(err)
		})
		w.op("GraphitePathTagsMap "+q(p2), func(keep func(func() string), spoil bool) string {
			m, err := gtags.GraphitePathTagsMap(p2)
			return keepMap(keep, m, spoil) + errS(err)
		})
		w.op("maps reused "+q(p1)+q(p2), func(keep func(func() string), _ bool) string {
			err := gtags.PathTagsMapB(p1, reused)
			out := showAll(reused) + errS(err)
			for _, v := range reused {
				v := v
				keep(func() string { return ownCopy(v) })
			}
			err = gtags.GraphitePathTagsMapB(p2, reused)
			return out + showAll(reused) + errS(err)
		})
	}

	// expansions
	for i := 0; i < 2; i++ {
		in := w.text("expression", exprText(r, expAlpha(r), 5, true, r.P(1, 4)))
		e := expand.ParseExpr(in)
		for k := 0; k < 5; k++ {
			max, depth, try := gen.Pick(r, []int{0, 1, 2, 3, 5, 10, 50, 200}), r.Intn(4), r.P(1, 3)
			w.op(fmt.Sprintf("parsed expression %s Expand(%d,%d,%v)", q(in), max, depth, try), func(keep func(func() string), spoil bool) string {
				l, err := e.Expand(max, depth, try)
				return keepList(keep, l, spoil) + errS(err)
			})
		}
		max := r.Intn(20)
		w.op(fmt.Sprintf("Expand(%s,%d,0)", q(in), max), func(keep func(func() string), spoil bool) string {
			l, err := expand.Expand(in, max, 0)
			return keepList(keep, l, spoil) + errS(err)
		})
		w.op(fmt.Sprintf("ExpandTry(%s,%d,0)", q(in), max), func(keep func(func() string), spoil bool) string {
			l, err := expand.ExpandTry(in, max, 0)
			return keepList(keep, l, spoil) + errS(err)
		})
	}

	// escapes
	var bb bytes.Buffer
	var sb strings.Builder
	for i := 0; i < 2; i++ {
		in := w.text("text to escape", text64(r))
		w.op("escape "+q(in), func(keep func(func() string), _ bool) string {
			bb.Reset()
			sb.Reset()
			escape.QueryTo(in, &bb)
			escape.PathTo(in, &bb)
			u := escape.UnescapeTo(in, &sb)
			n, tag := escape.UnescapeNameTo(in, &sb)
			return keepString(keep, escape.Query(in)) + keepString(keep, escape.Path(in)) + keepString(keep, escape.Unescape(in)) +
				bb.String() + keepString(keep, u) + keepString(keep, n) + keepString(keep, tag)
		})
	}

	// prefixes and classes
	list := make([]string, some(1, 6, 24))
	for i := range list {
		list[i] = prefixText(r, a, "ab")
	}
	list = w.strs("list of globs", list)
	w.op("IntersectGlobs "+qs(list), func(keep func(func() string), _ bool) string {
		return keepString(keep, items.IntersectGlobs(list))
	})
	for k := 0; k < 2; k++ {
		// the values of a list, as the list reader hands them over: sorted, each once
		set := map[string]bool{}
		for n := some(1, 4, 16); n > 0; n-- {
			set[gen.Pick(r, []string{"", "a", "b", "ab", "abc", "Я", "яб", "a?", "[ab]", "[a-c]x", "x*", "??", "[]"})] = true
		}
		vals := make([]string, 0, len(set))
		for v := range set {
			vals = append(vals, v)
		}
		sort.Strings(vals)
		vals = w.strs("values", vals)
		one := func(name string, make func([]string) (items.Item, error)) {
			w.op(name+" "+qs(vals), func(keep func(func() string), _ bool) string {
				it, err := make(vals)
				if err != nil || it == nil {
					return fmt.Sprint(it, err)
				}
				keep(func() string { return it.String() })
				out := fmt.Sprint(it.String(), it.MinLen(), it.MaxLen())
				for _, s := range subjects {
					out += fmt.Sprint(items.MatchItems(s, []items.Item{it}))
				}
				return out
			})
		}
		one("NewItemList", items.NewItemList)
		one("NewGroup", items.NewGroup)
	}
	w.builds(a)
	body := gen.ClassBody(r, a, 4)
	cls := w.text("class", "["+body+"]")
	rs, _ := utils.RunesRangeExpand(cls)
	set, _ := utils.MakeASCIISet("abc-x")
	data := w.bytes("byte slice", gen.Pick(r, append(subjects, "xЯ")))
	w.op("class "+q(cls), func(keep func(func() string), _ bool) string {
		p1, c1, n1 := rs.IndexByte(data)
		p2, c2, n2 := rs.Index(cls)
		c3, n3 := rs.StartsWith(cls)
		c4, n4 := rs.EndsWith(cls)
		rs2, ok := utils.RunesRangeExpand(cls)
		return fmt.Sprint(p1, c1, n1, p2, c2, n2, c3, n3, c4, n4, set.IndexByte(data), set.LastIndexByte(data), rs.Equal(&rs2), ok, rs.Contains('a')) + keepString(keep, rs.String()) + keepString(keep, set.String())
	})
}

// builds makes objects again and again from the same texts: what one of them
// is changed to is nothing to the others.
func (w *world) builds(a *gen.Alphabet) {
	r := w.r
	for k := 0; k < 2; k++ {
		cls := w.text("class", "["+gen.ClassBody(r, a, 1+r.Intn(4))+"]")
		more := []rune(w.text("characters", string(gen.Pick(r, a.Lits))+gen.Pick(r, []string{"я", "b", "\x7f", "😀я", "q世", "ab"})))
		show := func(x *utils.RunesRanges) string {
			out := fmt.Sprint(x.String(), x.MinSize, x.MaxSize)
			for _, c := range more {
				out += fmt.Sprint(x.Contains(c))
			}
			return out
		}
		class := func(name string, build func() *utils.RunesRanges) {
			w.op(name+" "+q(cls)+q(string(more)), func(keep func(func() string), spoil bool) string {
				x := build()
				if x == nil {
					return "none"
				}
				out := show(x)
				if spoil {
					x.Adds(string(more))
					x.Merge()
				} else {
					keep(func() string { return show(x) })
				}
				return out
			})
		}
		class("RunesRangeExpand", func() *utils.RunesRanges {
			if x, ok := utils.RunesRangeExpand(cls); ok {
				return &x
			}
			return nil
		})
		class("NewRunesRanges", func() *utils.RunesRanges {
			if x := items.NewRunesRanges(cls); x != nil {
				return &x.RunesRanges
			}
			return nil
		})
		class("NextWildcardItem", func() *utils.RunesRanges {
			it, _, _ := items.NextWildcardItem(cls)
			if x, ok := it.(*items.RunesRanges); ok {
				return &x.RunesRanges
			}
			return nil
		})
		w.op("MakeASCIISet "+q(cls), func(keep func(func() string), spoil bool) string {
			x, ok := utils.MakeASCIISet(cls)
			out := fmt.Sprint(x.String(), ok)
			if spoil {
				x.Add('b')
				x.Add('#')
				if r.P(1, 2) {
					x.Clear()
				}
			} else {
				keep(func() string { return x.String() })
			}
			return out
		})

		// a literal text which the caller goes on with
		lit := w.text("literal", gen.Pick(r, []string{"ab", "abc", string(gen.Pick(r, a.Lits)) + "xЯ", "node-1"}))
		if strings.ContainsAny(lit, wildChars) {
			continue
		}
		w.op("NextWildcardItem "+q(lit), func(keep func(func() string), spoil bool) string {
			it, next, err := items.NextWildcardItem(lit + "*")
			x, ok := it.(*items.String)
			if !ok {
				return fmt.Sprint(next, err)
			}
			out := fmt.Sprint(x.String(), x.MinLen(), next, err)
			switch {
			case !spoil:
				keep(func() string { return x.String() })
			case r.P(1, 3):
				x.Prepend("spoiled")
			case r.P(1, 2):
				x.AddRune('я')
			default:
				items.AppendItem([]items.Item{it}, items.NewString("spoiled"))
			}
			return out
		})
	}
}

func c23case(t *T, steps int) {
	w := &world{t: t, r: t.R, answers: map[string]string{}}
	t.Desc(func() string { return "history of " + clip(strings.Join(w.trace, "; "), 1500) })
	w.populate()
	gen.Shuffle(w.r, w.ops)
	check := func(all bool) bool {
		for i := range w.operands {
			o := &w.operands[i]
			if got := o.get(); got != o.want {
				t.Fail("argument", w.trace[len(w.trace)-1], "%s changed from %s to %s; last operations: %s", o.name, clip(o.want, 500), clip(got, 500), w.last(3))
				return false
			}
		}
		from := 0
		if !all && len(w.results) > 40 {
			from = len(w.results) - 40
		}
		for i := from; i < len(w.results); i++ {
			x := &w.results[i]
			if got := x.get(); got != x.want {
				t.Fail("result", x.op, "what %s returned earlier changed from %s to %s; last operations: %s", x.op, clip(x.want, 500), clip(got, 500), w.last(6))
				return false
			}
		}
		t.Eval(len(w.operands) + len(w.results) - from)
		return true
	}
	w.trace = append(w.trace, "populate")
	if !check(true) {
		return
	}
	var h uint64
	for k := 0; k < steps; k++ {
		i := t.R.Intn(len(w.ops))
		if k < len(w.ops) { // every operation once
			i = k
		}
		o := &w.ops[i]
		w.trace = append(w.trace, o.name)
		keep := func(get func() string) {
			w.results = append(w.results, result{o.name, get, get()})
		}
		spoil := t.R.P(1, 5)
		got := o.run(keep, spoil)
		t.Eval(1)
		h = gen.Mix(h, gen.Hash(o.name))
		if want, ok := w.answers[o.name]; !ok {
			w.answers[o.name] = got
		} else {
			t.Count("repeated_operations", 1)
			if want != got {
				t.Fail("repetition", o.name, "%s answered %s and later %s; last operations: %s", o.name, clip(want, 500), clip(got, 500), w.last(6))
				return
			}
		}
		if spoil {
			t.Count("results_changed_by_the_caller", 1)
		}
		if len(w.results) > 400 {
			if !check(true) {
				return
			}
			w.results = w.results[200:]
		}
		if !check(k%16 == 15 || k == steps-1) {
			return
		}
	}
	t.Max("operations_of_one_history", int64(steps))
	t.Max("shared_arguments", int64(len(w.operands)))
	t.Count("results_kept", int64(len(w.results)))
	t.Sample(func() string { return clip(strings.Join(w.trace, "; "), 600) })
	t.Distinct(h)
}

func (w *world) last(n int) string {
	if len(w.trace) < n {
		n = len(w.trace)
	}
	return strings.Join(w.trace[len(w.trace)-n:], "; ")
}

func init() {
	register(&Prop{
		ID: "C23",
		Rule: "One observation: one shared argument (with the unused capacity behind it) or one result handed out earlier compared with its copy after an operation, or the answer of a repeated operation compared with the first one. " +
			"A history runs about 100 different operations on shared compiled globs, dotted globs, queries, trees, parsed expansions, classes, paths, lists (in canonical order, out of it, with a key twice), maps and byte slices in random order; in a fifth of the steps the caller overwrites the list, map, class or text item he was given. Matches of trees are also started inside the collector of another match. Distinct: distinct histories.",
		Assume: []string{
			"arguments meant as output (the list of PathSplitB, the map of PathTagsMapB and GraphitePathTagsMapB, buffers) and the range list given to RunesRangeMerge are not inputs",
		},
		Need: map[string]int64{"repeated_operations": 120000, "results_kept": 120000, "results_changed_by_the_caller": 30000, "nested_matches": 20000},
		Streams: []*Stream{
			{Name: "history", Quick: 3000, Thorough: 150000, Chunk: 8, Run: func(t *T) {
				c23case(t, 260)
			}},
			{Name: "short", Quick: 1500, Thorough: 60000, Chunk: 8, Run: func(t *T) {
				c23case(t, 60)
			}},
		},
	})
}
