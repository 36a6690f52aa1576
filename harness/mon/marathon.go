package main

import (
	"fmt"
	"strconv"

	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/gen"
	"verifharness/ref"
)

// marathonSteps is beyond what a counter of 16 bits holds.
const marathonSteps = 200000

// marathon asks objects again and again, more often than a small counter in
// them could count; ask(k) renders the answer to question k.
func marathon(t *T, name string, questions, steps int, ask func(k int) uint64) bool {
	want := make([]uint64, questions)
	for k := range want {
		want[k] = ask(k)
	}
	again, left := 0, 0
	for i := 0; i < steps; i++ {
		k := i % questions
		if i&1 != 0 {
			k = t.R.Intn(questions)
		}
		if left > 0 {
			left--
			k = again
		} else if i%1000 == 500 {
			// one question over and over, after another with another answer
			again, left = t.R.Intn(questions), gen.Pick(t.R, []int{256, 300, 1 << 16, 1<<16 + 5})
			for try := 0; try < 20 && want[again] == want[k]; try++ {
				again = t.R.Intn(questions)
			}
		}
		if got := ask(k); got != want[k] {
			t.Fail("marathon", name, "%s: question %d is answered differently the %dth time something was asked", name, k, i)
			return false
		}
	}
	t.Eval(steps)
	t.Count("asked_again", int64(steps))
	t.Max("questions_to_one_object", int64(steps+questions))
	return true
}

// sumStore is a collector that keeps a sum over the reports, or over the
// distinct ones.
type sumStore struct {
	n    int
	sum  uint64
	seen map[rec]bool
}

func (s *sumStore) Store(q string, i int) {
	s.n++
	if s.n > maxReports {
		panic(giveUp{})
	}
	if s.seen != nil {
		if s.seen[rec{q, i}] {
			return
		}
		s.seen[rec{q, i}] = true
	}
	s.sum += gen.Mix(gen.Hash(q), uint64(i))
}

// treeMarathon matches the subjects in turn; sets tells to compare sets of reports.
func treeMarathon(t *T, name string, subjects int, sets bool, match func(k int, st items.Store) int) bool {
	return marathon(t, name, subjects, marathonSteps, func(k int) uint64 {
		var st sumStore
		if sets {
			st.seen = map[rec]bool{}
		}
		n := match(k, &st)
		if sets {
			return gen.Mix(st.sum, uint64(b2i(n > 0)))
		}
		return gen.Mix(st.sum, uint64(n))
	})
}

// crowdTexts gives the globs of any words out of a few lists of n literals;
// parts are joined by sep.
func crowdTexts(r *gen.Rng, n, lists int, sep string) []string {
	out := crowdWords(r, n+r.Intn(8))
	for ; lists > 1; lists-- {
		words := crowdWords(r, n+r.Intn(8))
		longer := make([]string, 0, len(out)*len(words))
		for _, x := range out {
			for _, y := range words {
				longer = append(longer, x+sep+y)
			}
		}
		out = longer
	}
	gen.Shuffle(r, out)
	return out
}

func crowdWords(r *gen.Rng, n int) []string {
	head := gen.Pick(r, []string{"", "n", "node-", "Я"})
	out := make([]string, n)
	for i := range out {
		out[i] = head + strconv.FormatInt(int64(i), gen.Pick(r, []int{10, 10, 16, 36}))
		out[i] += gen.Pick(r, []string{"", "", "a", "_"}) + "x" + strconv.Itoa(i)
	}
	return out
}

// crowdSide squared is beyond 16 bits. (The books of 200000 texts are beyond
// what a hash of 32 bits tells apart, too.)
const crowdSide = 257

var crowdAlpha = &gen.Alphabet{Lits: []rune("nx01"), Wild: []ref.Unit{'0', '1', '2', 'x', 'n', 'a', '.'}, Cls: []string{"0-9"}}

// crowdQueries is the same for queries.
func crowdQueries(r *gen.Rng, n, lists int) (*gen.TermPool, []ref.Query) {
	p := &gen.TermPool{A: crowdAlpha, Keys: []string{"dc", "host", "rack"}[:lists]}
	out := []ref.Query{nil}
	for _, key := range p.Keys {
		var longer []ref.Query
		for _, v := range crowdWords(r, n+r.Intn(8)) {
			x, err := ref.NewTerm(key, ref.Eq, v)
			if err != nil {
				panic("harness: " + err.Error())
			}
			p.Terms = append(p.Terms, x)
			for _, q := range out {
				longer = append(longer, append(q[:len(q):len(q)], x))
			}
		}
		out = longer
	}
	gen.Shuffle(r, out)
	return p, out
}

// nestStore is a collector that does something else in the middle of a match.
type nestStore struct {
	recStore
	do func()
}

func (s *nestStore) Store(q string, i int) {
	if len(s.r) < 3 {
		s.do()
	}
	s.recStore.Store(q, i)
	if len(s.r) < 3 {
		s.do()
	}
}

// nested runs two matches at a time, one inside of the collector of the other.
func nested(t *T, what string, outer, inner func(st items.Store) int) string {
	bad := ""
	want := &recStore{}
	wantN := inner(want)
	alone := &recStore{}
	aloneN := outer(alone)
	if wantN > 5000 || aloneN > 5000 {
		return reports(alone, aloneN)
	}
	out := &nestStore{do: func() {
		got := &recStore{}
		n := inner(got)
		if x, y := reports(got, n), reports(want, wantN); x != y {
			bad = fmt.Sprintf(" INSIDE %s, not %s", x, y)
		}
	}}
	n := outer(out)
	if x, y := reports(&out.recStore, n), reports(alone, aloneN); x != y {
		bad += fmt.Sprintf(" OUTSIDE %s, not %s", x, y)
	}
	if bad != "" {
		t.Fail("nested", what, "%s:%s", what, bad)
	}
	t.Count("nested_matches", int64(min(n, 3)))
	return reports(&out.recStore, n)
}

// c10crowd goes on with the books of a tree of more than 65536 patterns.
func c10crowd(t *T, kind *treeKind) {
	var texts []string
	switch kind.name {
	case "glob":
		texts = crowdTexts(t.R, 59, 3, gen.Pick(t.R, []string{"*", "?", "*a*", "[a-c]"}))
	case "dotted glob":
		texts = crowdTexts(t.R, 59, 3, gen.Pick(t.R, []string{".", "*.", ".*", "[ab]."}))
	default:
		_, qs := crowdQueries(t.R, 52, 3)
		for _, x := range qs {
			texts = append(texts, gen.QueryText(t.R, x, true))
		}
	}
	tree := kind.empty()
	b := &books{map[string]int{}, map[int]string{}}
	t.Desc(func() string { return fmt.Sprintf("%s tree of %d patterns %s", kind.name, len(texts), qs(texts[:3])) })
	fail := func(s string, i int, f string, args ...any) {
		t.Fail("books", s, "%s tree, addition %d of %d, %s: %s", kind.name, i, len(texts), q(s), fmt.Sprintf(f, args...))
	}
	const start = 3 // indexes are not positions
	for i, s := range texts {
		var norm, want string
		var n int
		var err error
		if t.R.P(2, 3) {
			norm, n, err = tree.add(s, i+start)
			b.byText[s], want = i+start, norm
		} else {
			p, e := tree.compile(s)
			if e != nil {
				fail(s, i, "refused by the compiler with %v", e)
				return
			}
			norm, n, err = tree.addCompiled(p, i+start)
			want = p.norm()
			if raw := p.raw(); raw != "" {
				b.byText[raw] = i + start
			}
		}
		if err != nil || norm != want || n != i+start {
			fail(s, i, "added as %s, %d, %v; want %s, %d", q(norm), n, err, q(want), i+start)
			return
		}
		b.byText[norm] = i + start
		b.byIndex[i+start] = norm
	}
	t.Eval(len(texts))
	t.Count("crowds", 1)
	t.Max("patterns_of_one_tree", int64(len(texts)))
	// the additions that follow have to be refused for the right reason, or taken
	for k := 0; k < 40; k++ {
		x := bookStep{text: gen.Pick(t.R, texts), index: len(texts) + start + k, compiled: t.R.P(2, 5)}
		switch t.R.Intn(4) {
		case 0:
			x.text, x.index = "zz"+strconv.Itoa(k)+"y", t.R.Intn(len(texts))+start
		case 1:
			x.index = t.R.Intn(3)
		}
		if kind.name == "tag query" && x.text[0] == 'z' {
			x.text = "seriesByTag('dc=" + x.text + "')"
		}
		if _, ok := b.step(t, kind, tree, []bookStep{x}); !ok {
			return
		}
	}
	t.Distinct(gen.Hash(fmt.Sprint(texts[:5])))
}
