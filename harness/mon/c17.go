package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/msaf1980/go-matcher/expand"
	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/escape"
	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/pkg/utils"

	"verifharness/gen"
	"verifharness/ref"
)

// A concurrent case prepares objects twice: one set answers every operation in
// a single goroutine, the other one is used for the first time by several
// goroutines at once. Both sets must give the same answers, and the race
// detector must have nothing to report.

// rop is one read operation on set k (0: alone, 1: shared).
type rop struct {
	name string
	run  func(k int) string
	// loose: the answer is random; run judges it by itself and returns "" or what is wrong
}

// twin makes an object twice.
func twin[X any](f func() X) (o [2]X) {
	o[0] = f()
	o[1] = f()
	return
}

func storeText(st *recStore, n int) string { return reports(st, n) }

type ropList struct {
	t   *T
	r   *gen.Rng
	ops []rop
}

func (l *ropList) add(name string, run func(k int) string) { l.ops = append(l.ops, rop{name, run}) }

func (l *ropList) globs() {
	r := l.r
	a := gen.SomeAlpha(r)
	n := 1 + r.Intn(2)
	for i := 0; i < n; i++ {
		text := gen.Glob(r, a, gen.Opt{})
		if r.P(1, 6) {
			text = gen.BigGlob(r, a)
		}
		rg := mustRef(text)
		g := twin(func() *glob.Glob { return glob.ParseMust(ownCopy(text)) })
		name := "glob " + q(text) + " "
		for k := 0; k < 3; k++ {
			var u []ref.Unit
			if r.P(1, 6) {
				u = gen.LongSubject(r, rg, a)
			} else {
				u = gen.Subject(r, rg, a)
			}
			s := ref.String(u)
			l.add(name+"Match "+q(s), func(k int) string { return fmt.Sprint(g[k].Match(s)) })
			if len(g[0].Items) > 0 && r.P(1, 3) {
				l.add(name+"MatchItems "+q(s), func(k int) string { return fmt.Sprint(items.MatchItems(s, g[k].Items)) })
				it := r.Intn(len(g[0].Items))
				l.add(name+"item Match "+q(s), func(k int) string {
					o1, f1 := g[k].Items[it].Match(s)
					o2, n2, f2 := g[k].Items[it].Find(s)
					return fmt.Sprint(o1, f1, o2, n2, f2)
				})
			}
		}
		l.add(name+"String", func(k int) string {
			s := g[k].String() + g[k].Raw() + fmt.Sprint(g[k].MinLen, g[k].MaxLen)
			for _, it := range g[k].Items {
				s += it.String() + fmt.Sprint(it.MinLen(), it.MaxLen())
			}
			return s
		})
		l.add(name+"WriteRandom", func(k int) string {
			var b strings.Builder
			b.WriteString("x")
			g[k].WriteRandom(&b)
			if s := b.String(); s[:1] != "x" || !g[k].Match(s[1:]) {
				return "bad sample " + q(s)
			}
			return "ok"
		})
		l.add(name+"compiled", func(int) string {
			g, err := glob.Parse(text)
			if err != nil {
				return err.Error()
			}
			return g.Node
		})
	}
}

func (l *ropList) globTree() {
	r := l.r
	a := gen.SomeAlpha(r)
	n := 1 + r.Intn(10)
	if r.P(1, 8) {
		n = 40
	}
	texts := globSet(r, a, n)
	switch r.Intn(10) {
	case 0: // many children of one node
		texts = gen.SiblingGlobs(r, a, 10+gen.Size(r, 150))
	case 1:
		texts = wideSet(r, a, 10+gen.Size(r, 100))
	}
	tree := twin(func() *glob.GlobTree {
		tr := glob.NewTree()
		for i, s := range texts {
			tr.Add(s, i)
		}
		return tr
	})
	for k := 0; k < 4; k++ {
		s := ref.String(gen.Subject(r, mustRef(gen.Pick(r, texts)), a))
		l.add("glob tree "+qs(texts)+" Match "+q(s), func(k int) string {
			st := &recStore{}
			n := tree[k].Match(s, st)
			return storeText(st, n)
		})
	}
	l.add("glob tree with the collectors of the package", func(k int) string {
		st := items.NewAllStore()
		st.Grow(2)
		n := tree[k].Match("a", st)
		n += tree[k].Match("ab", st)
		return fmt.Sprint(n, len(st.S.S), len(st.Index.N), st.Min.Min)
	})
	l.add("another glob tree "+qs(texts), func(int) string {
		tr := glob.NewTree()
		out := ""
		for i, s := range texts {
			norm, n, err := tr.Add(s, i)
			out += norm + fmt.Sprint(n, err)
		}
		return out
	})
}

func (l *ropList) dotted() {
	r := l.r
	a := noComma(gen.SomeAlpha(r))
	n, depth := 1+r.Intn(8), 4
	if r.P(1, 8) {
		n = 30
	}
	if r.P(1, 8) {
		depth = 20
	}
	texts := dottedSet(r, a, n, depth)
	switch r.Intn(8) {
	case 0: // many children of one node
		texts = siblingDotted(r, a, 10+gen.Size(r, 100))
	case 1:
		texts = nil
		head := gen.Pick(r, []string{"", "", string(a.Lits[0]) + ".", "*."})
		for _, s := range wideSet(r, a, 10+gen.Size(r, 60)) {
			if s != "" {
				texts = append(texts, head+s+gen.Pick(r, []string{"", "", ".*", "." + string(a.Lits[0])}))
			}
		}
	}
	refs := make([]*ref.Path, len(texts))
	for i, s := range texts {
		p, err := ref.ParsePath(s)
		if err != nil {
			panic("harness: malformed " + q(s))
		}
		refs[i] = p
	}
	tree := twin(func() *gglob.GGlobTree {
		tr := gglob.NewTree()
		for i, s := range texts {
			tr.Add(s, i)
		}
		return tr
	})
	which := r.Intn(len(texts))
	text := texts[which]
	g := twin(func() *gglob.GGlob { return gglob.ParseMust(text) })
	for k := 0; k < 4; k++ {
		p := refs[which]
		if r.P(1, 2) {
			p = gen.Pick(r, refs)
		}
		s := gen.Path(r, p, a)
		parts := gglob.PathSplit(s)
		l.add("dotted glob "+q(text)+" Match "+q(s), func(k int) string { return fmt.Sprint(g[k].Match(s), g[k].MatchByParts(parts, len(s)), g[k].Node) })
		l.add("dotted tree "+qs(texts)+" Match "+q(s), func(k int) string {
			st := &recStore{}
			n := tree[k].Match(s, st)
			return storeText(st, n)
		})
		if !gglob.HasEmptyParts(parts) {
			l.add("dotted tree "+qs(texts)+" MatchByParts "+q(s), func(k int) string {
				st := &recStore{}
				n := tree[k].MatchByParts(parts, st)
				return storeText(st, n)
			})
		}
		l.add("dotted glob "+q(text)+" node samples", func(k int) string {
			for _, p := range g[k].Parts {
				var b strings.Builder
				p.WriteRandom(&b)
				if s := b.String(); s != "" && !p.Match(s) {
					return "bad sample " + q(s) + " of " + q(p.Node)
				}
			}
			return fmt.Sprint(g[k].Node, g[k].Glob, g[k].MinLen, g[k].MaxLen)
		})
		l.add("path helpers "+q(s), func(int) string {
			var own []string
			p, n := gglob.PathLevel(s)
			ok := gglob.PathSplitB(s, &own)
			return fmt.Sprint(p, n, ok, own, gglob.PathSplit(s))
		})
	}
	l.add("another dotted tree "+qs(texts), func(int) string {
		tr := gglob.NewTree()
		out := ""
		for i, s := range texts {
			norm, n, err := tr.Add(s, i)
			out += norm + fmt.Sprint(n, err)
		}
		return out
	})
}

func (l *ropList) tags() {
	r := l.r
	p := gen.NewTermPool(r, 1+r.Intn(5), 3+r.Intn(6))
	n := 1 + r.Intn(6)
	queries := make([]ref.Query, n)
	for i := range queries {
		queries[i] = p.Query(r, 4)
	}
	switch r.Intn(8) {
	case 0:
		p, queries = gen.SiblingQueries(r, 10+gen.Size(r, 80))
	case 1:
		p = gen.NewTermPool(r, 1+r.Intn(30), 40)
		queries = nil
		for k := 10 + r.Intn(40); k > 0; k-- {
			queries = append(queries, p.Query(r, 5))
		}
	}
	n = len(queries)
	texts := make([]string, n)
	for i := range queries {
		texts[i] = gen.QueryText(r, queries[i], true)
	}
	tree := twin(func() *gtags.GTagsTree {
		tr := gtags.NewTree()
		for i, s := range texts {
			tr.Add(s, i)
		}
		return tr
	})
	which := r.Intn(n)
	terms := twin(func() gtags.TaggedTermList {
		l, err := gtags.ParseSeriesByTag(texts[which])
		if err != nil {
			panic("go-matcher refused a well-formed query (msaf1980/go-matcher): " + texts[which])
		}
		return l
	})
	for k := 0; k < 3; k++ {
		tags, m := toTags(p.Tags(r, gen.Pick(r, queries)))
		show := fmt.Sprintf("%q", tags)
		l.add("query "+q(texts[which])+" "+show, func(k int) string {
			return fmt.Sprint(terms[k].MatchByTags(tags), terms[k].MatchByTagsMap(m))
		})
		l.add("tag tree "+qs(texts)+" MatchByTags "+show, func(k int) string {
			st := &recStore{}
			n := tree[k].MatchByTags(tags, st)
			return storeText(st, n)
		})
		l.add("tag tree "+qs(texts)+" MatchByTagsMap "+show, func(k int) string {
			st := &recStore{}
			n := tree[k].MatchByTagsMap(m, st)
			return storeText(st, n)
		})
		l.add("TagsMap "+show, func(int) string { return showAll(gtags.TagsMap(tags)) })
		if len(terms[0]) > 0 {
			i := r.Intn(len(terms[0]))
			v := ""
			if len(tags) > 0 {
				v = gen.Pick(r, tags).Value
			}
			l.add("term "+q(texts[which])+" "+q(v), func(k int) string { return fmt.Sprint(terms[k][i].Match(v), terms[k][i].String()) })
		}
	}
	l.add("query text "+q(texts[which]), func(k int) string { return terms[k].String() })
	l.add("query parsed "+q(texts[which]), func(int) string {
		l, err := gtags.ParseSeriesByTag(texts[which])
		return l.String() + errS(err)
	})
	conds := make([]string, 0, 4)
	for _, x := range queries[which] {
		conds = append(conds, x.Key+ref.OpText[x.Op]+x.Value)
	}
	l.add("conditions "+qs(conds), func(int) string {
		l, err := gtags.ParseTaggedConditions(conds)
		return l.String() + errS(err)
	})
	l.add("another tag tree "+qs(texts), func(int) string {
		tr := gtags.NewTree()
		out := ""
		for i, s := range texts {
			norm, n, err := tr.Add(s, i)
			out += norm + fmt.Sprint(n, err)
		}
		return out
	})
}

// others are operations without a shared object of the caller.
func (l *ropList) others() {
	r := l.r
	for k := 0; k < 2; k++ {
		in := exprText(r, expAlpha(r), 4, true, r.P(1, 4))
		max, depth := r.Intn(40), r.Intn(3)
		l.add(fmt.Sprintf("expand %s %d %d", q(in), max, depth), func(int) string {
			x, err := expand.Expand(in, max, depth)
			y, err2 := expand.ExpandTry(in, max, depth)
			return fmt.Sprintf("%q %v %q %v", x, err, y, err2)
		})
		s := text64(r)
		l.add("escape "+q(s), func(int) string {
			var bb bytes.Buffer
			var sb strings.Builder
			escape.QueryTo(s, &bb)
			escape.PathTo(s, &bb)
			u := escape.UnescapeTo(s, &sb)
			n, tag := escape.UnescapeNameTo(s, &sb)
			return strings.Join([]string{escape.Query(s), escape.Path(s), escape.Unescape(s), bb.String(), u, n, tag}, "|")
		})
		enc := tagWord(r, 4) + "?" + tagWord(r, 3) + "=" + escape.Query(tagWord(r, 8)) + "&b=%41"
		gra := tagWord(r, 4) + ";" + tagWord(r, 3) + "=" + escape.Query(tagWord(r, 8)) + ";b=%41"
		l.add("decode "+q(enc)+q(gra), func(int) string {
			x, e1 := gtags.PathTags(enc)
			y, e2 := gtags.PathTagsMap(enc)
			z, e3 := gtags.GraphitePathTags(gra)
			v, e4 := gtags.GraphitePathTagsMap(gra)
			own := map[string]string{"old": "value"}
			e5 := gtags.PathTagsMapB(enc, own)
			w := showAll(own)
			e6 := gtags.GraphitePathTagsMapB(gra, own)
			return fmt.Sprintf("%q %v %s %v %q %v %s %v %s %v %s %v", x, e1, showAll(y), e2, z, e3, showAll(v), e4, w, e5, showAll(own), e6)
		})
		l.add("wildcards "+q(in), func(int) string {
			as, ok := utils.MakeASCIISet(in)
			return fmt.Sprint(items.WildcardCount(in), items.HasWildcard(in), items.IndexWildcard(in), items.IndexLastWildcard(in),
				gglob.WildcardCount(in), gglob.HasWildcard(in), gglob.IndexWildcard(in), gglob.IndexLastWildcard(in), as.String(), ok)
		})
	}
	a := gen.SomeAlpha(r)
	list := []string{prefixText(r, a, "ab"), prefixText(r, a, "ab")}
	l.add("prefix "+qs(list), func(int) string { return items.IntersectGlobs(list) })
	cls := "[" + gen.ClassBody(r, a, 4) + "]"
	rs := twin(func() *utils.RunesRanges {
		x, _ := utils.RunesRangeExpand(cls)
		return &x
	})
	it := twin(func() *items.RunesRanges { return items.NewRunesRanges(cls) })
	s := "x\xffЯ" + cls
	l.add("class "+q(cls), func(k int) string {
		p, c, n := rs[k].Index(s)
		p2, n2, f2 := it[k].Find(s)
		o, f := it[k].Match(cls[1:])
		o2, f3 := it[k].MatchLast(s)
		return fmt.Sprint(p, c, n, p2, n2, f2, o, f, o2, f3, rs[k].Contains('b'), rs[k].String(), it[k].MinLen())
	})
	bad := gen.Pick(r, []string{"a[", "{a", "}", "a..b", "seriesByTag('a')", "x", "[z-a]"})
	l.add("refused "+q(bad), func(int) string {
		_, e1 := glob.Parse(bad)
		_, e2 := gglob.Parse(bad)
		_, e3 := gtags.ParseSeriesByTag(bad)
		_, e4 := gtags.PathTags(bad)
		return fmt.Sprint(e1, e2, e3, e4)
	})
}

type span struct{ from, to time.Duration }

// overlaps counts the operations which ran while another goroutine ran one,
// while another goroutine ran the same one, and the goroutines at once.
func overlaps(clocks [][]span, plans [][]int) (overlapped, together, peak int64) {
	type edge struct {
		at    time.Duration
		enter bool
		op    int
		id    int
	}
	var edges []edge
	id := 0
	for g := range clocks {
		for k, c := range clocks[g] {
			edges = append(edges, edge{c.from, true, plans[g][k], id}, edge{c.to, false, plans[g][k], id})
			id++
		}
	}
	sort.Slice(edges, func(i, j int) bool {
		if edges[i].at != edges[j].at {
			return edges[i].at < edges[j].at
		}
		return !edges[i].enter && edges[j].enter
	})
	any, same := make([]bool, id), make([]bool, id)
	running := map[int]int{} // id to operation
	for _, e := range edges {
		if !e.enter {
			delete(running, e.id)
			continue
		}
		for other, op := range running {
			any[other], any[e.id] = true, true
			if op == e.op {
				same[other], same[e.id] = true, true
			}
		}
		running[e.id] = e.op
		peak = max(peak, int64(len(running)))
	}
	for i := range any {
		if any[i] {
			overlapped++
		}
		if same[i] {
			together++
		}
	}
	return
}

// runConcurrent uses the shared set from several goroutines at once.
func runConcurrent(t *T, l *ropList, goroutines, rounds int) {
	t.Desc(func() string {
		var names []string
		for _, o := range l.ops {
			names = append(names, o.name)
		}
		return fmt.Sprintf("%d goroutines: %s", goroutines, clip(strings.Join(names, "; "), 2000))
	})
	want := make([]string, len(l.ops))
	type bad struct{ op, got, want, stack string }
	// Between the release and the end the goroutines share nothing of the
	// harness: an atomic counter would order their accesses for the race
	// detector and hide races. What overlapped is told by clock readings.
	var (
		ready, done sync.WaitGroup
		start       = make(chan struct{})
		badOnes     = make([]*bad, goroutines)
		clocks      = make([][]span, goroutines)
		epoch       = time.Now()
	)
	// the plan of every goroutine: the first operations are the same for all, so
	// that the first use of every object is concurrent
	plans := make([][]int, goroutines)
	mode := l.r.Intn(3)
	base := make([]int, len(l.ops))
	for i := range base {
		base[i] = i
	}
	gen.Shuffle(l.r, base)
	for g := range plans {
		p := append([]int(nil), base...)
		switch {
		case mode == 1 && g > 0:
			gen.Shuffle(l.r, p)
		case mode == 2: // rotated
			k := l.r.Intn(len(p))
			p = append(append([]int(nil), p[k:]...), p[:k]...)
		}
		for k := 1; k < rounds; k++ {
			q := append([]int(nil), base...)
			gen.Shuffle(l.r, q)
			p = append(p, q...)
		}
		plans[g] = p
	}
	yield := l.r.Intn(3)
	ready.Add(goroutines)
	done.Add(goroutines)
	results := make([][]string, goroutines)
	for g := 0; g < goroutines; g++ {
		results[g] = make([]string, len(plans[g]))
		clocks[g] = make([]span, len(plans[g]))
		go func(g int) {
			defer done.Done()
			cur := 0
			defer func() {
				if p := recover(); p != nil {
					b := make([]byte, 16<<10)
					badOnes[g] = &bad{op: l.ops[plans[g][cur]].name, got: fmt.Sprint("panic: ", p), stack: string(b[:runtime.Stack(b, false)])}
				}
			}()
			ready.Done()
			<-start
			for k, o := range plans[g] {
				cur = k
				clocks[g][k].from = time.Since(epoch)
				results[g][k] = l.ops[o].run(1)
				clocks[g][k].to = time.Since(epoch)
				if yield == 1 && k%3 == g%3 {
					runtime.Gosched()
				}
			}
		}(g)
	}
	ready.Wait()
	close(start)
	done.Wait()
	// only now the same alone, so that nothing was filled in before
	for i, o := range l.ops {
		want[i] = o.run(0)
	}
	for g, b := range badOnes {
		if b != nil {
			if !strings.Contains(b.stack, repoMark) {
				panic("harness: " + b.got + b.stack)
			}
			t.Fail("panic", b.op, "goroutine %d of %d: %s: %s\n%s", g, goroutines, b.op, b.got, b.stack)
			return
		}
	}
	for g := range results {
		for k, o := range plans[g] {
			t.Eval(1)
			if results[g][k] != want[o] {
				t.Fail("answer", l.ops[o].name, "%s answered %s in goroutine %d of %d, and %s alone", l.ops[o].name, clip(results[g][k], 800), g, goroutines, clip(want[o], 800))
				return
			}
		}
		t.W.counts["operations_of_concurrent_goroutines"] += int64(len(plans[g]))
	}
	overlapped, together, peak := overlaps(clocks, plans)
	t.Count("operations_overlapping_others", overlapped)
	t.Count("same_operation_at_the_same_time", together)
	t.Max("goroutines_at_once", peak)
	if peak > 1 {
		t.Count("cases_with_overlap", 1)
	}
	if raceBuild {
		t.Count("cases_under_race_detector", 1)
	}
	h := uint64(goroutines)
	for _, o := range l.ops {
		h = gen.Mix(h, gen.Hash(o.name))
	}
	t.Distinct(h)
	t.Sample(func() string {
		return fmt.Sprintf("%d goroutines, first operation %s", goroutines, l.ops[plans[0][0]].name)
	})
}

var canaryWord int

// raceCanary races on purpose (in the harness only): its report shows that the
// detector is working.
func raceCanary() {
	var wg sync.WaitGroup
	start, end := make(chan struct{}), make(chan struct{})
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func() {
			<-start
			for k := 0; k < 100; k++ {
				canaryWord++
				runtime.Gosched()
			}
			wg.Done()
			<-end // both are there until both have raced
		}()
	}
	close(start)
	wg.Wait()
	close(end)
}

func init() {
	kinds := []func(*ropList){(*ropList).globs, (*ropList).globTree, (*ropList).dotted, (*ropList).tags, (*ropList).others}
	fill := func(t *T) *ropList {
		l := &ropList{t: t, r: t.R}
		k := t.R.Intn(len(kinds) + 2)
		if k < len(kinds) {
			kinds[k](l)
			if t.R.P(1, 3) {
				l.others()
			}
		} else {
			for _, f := range kinds {
				f(l)
			}
		}
		return l
	}
	register(&Prop{
		ID:   "C17",
		Race: true,
		Rule: "One observation: one answer, given to one of several goroutines that use the same fresh compiled objects (globs, dotted globs, queries, the three trees, classes) or compile, expand, decode and escape at the same time, compared with the answer an equal object gives to a single goroutine; every run is under the race detector, and every report of it with a frame of the code under test is a violation. " +
			"All goroutines are released together onto objects nobody has used. A deliberate race in the harness shows that the detector reports. Distinct: distinct sets of operations and goroutine counts.",
		Assume: []string{"the race detector sees the races of the schedules that were run; patterns and trees are not added to while they are used"},
		Need:   map[string]int64{"operations_of_concurrent_goroutines": 500000, "operations_overlapping_others": 250000, "cases_with_overlap": 2500, "cases_under_race_detector": 3000, "race_canary_reports": 1, "same_operation_at_the_same_time": 20000},
		Streams: []*Stream{
			{Name: "pairs", Quick: 4000, Thorough: 120000, Chunk: 16, Run: func(t *T) {
				if t.I%50 == 0 {
					raceCanary()
				}
				runConcurrent(t, fill(t), 2+t.R.Intn(3), 1+t.R.Intn(3))
			}},
			{Name: "long", Quick: 60, Thorough: 3000, Chunk: 1, Run: func(t *T) {
				// the same objects are used thousands of times
				l := &ropList{t: t, r: t.R}
				kinds[t.R.Intn(4)](l)
				runConcurrent(t, l, 2+t.R.Intn(4), 40+t.R.Intn(100))
			}},
			{Name: "crowd", Quick: 700, Thorough: 20000, Chunk: 4, Serial: true, Run: func(t *T) {
				runConcurrent(t, fill(t), 8+t.R.Intn(9), 1+t.R.Intn(3))
			}},
		},
	})
}
