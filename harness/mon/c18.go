package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/gen"
)

// storeUnderTest is one collector with its model.
type storeUnderTest struct {
	name  string
	store items.Store
	init  func()
	grow  func(n int) // nil: it has none
	min   *int        // what the collector holds
	index *[]int
	text  *[]string

	parts func(o storeOp) bool // operates on one part of a combined collector

	// the model: reports since the creation or the last reset
	idx   []int
	texts []string
	low   int // the smallest report, -1 if none
	// snapshots of earlier contents, with copies; a reset ends them
	oldIdx   [][2][]int
	oldTexts [][2][]string
	resets   int
}

// ownCopy makes a copy of its own of every text.
func ownCopy(s string) string { return string(append([]byte(nil), s...)) }

func newStores() []*storeUnderTest {
	m, n, s, a := items.NewMinStore(), items.NewIndexStore(), items.NewStringStore(), items.NewAllStore()
	zn, zs := &items.IndexStore{}, &items.StringStore{}
	p := items.NewAllStore()
	parts := func(o storeOp) bool {
		switch {
		case o.kind == 'r' && o.part == 1:
			p.Min.Init()
		case o.kind == 'r' && o.part == 2:
			p.Index.Init()
		case o.kind == 'r' && o.part == 3:
			p.S.Init()
		case o.kind == 's' && o.part == 1:
			p.Min.Store(o.text, o.n)
		case o.kind == 's' && o.part == 2:
			p.Index.Store(o.text, o.n)
		case o.kind == 's' && o.part == 3:
			p.S.Store(ownCopy(o.text), o.n)
		case o.kind == 'g' && o.part == 2:
			p.Index.Grow(o.n)
		case o.kind == 'g' && o.part == 3:
			p.S.Grow(o.n)
		default:
			return false
		}
		return true
	}
	us := []*storeUnderTest{
		{name: "MinStore", store: m, init: m.Init, min: &m.Min},
		{name: "IndexStore", store: n, init: n.Init, grow: n.Grow, index: &n.N},
		{name: "StringStore", store: s, init: s.Init, grow: s.Grow, text: &s.S},
		{name: "AllStore", store: a, init: a.Init, grow: a.Grow, min: &a.Min.Min, index: &a.Index.N, text: &a.S.S},
		{name: "zero IndexStore", store: zn, init: zn.Init, grow: zn.Grow, index: &zn.N},
		{name: "zero StringStore", store: zs, init: zs.Init, grow: zs.Grow, text: &zs.S},
		{name: "AllStore by parts", store: p, init: p.Init, grow: p.Grow, min: &p.Min.Min, index: &p.Index.N, text: &p.S.S, parts: parts},
	}
	for _, u := range us {
		u.low = -1
	}
	return us
}

func (u *storeUnderTest) check() string {
	if u.min != nil {
		if *u.min != u.low {
			return fmt.Sprintf("minimum is %d, want %d", *u.min, u.low)
		}
	}
	if u.index != nil {
		got := *u.index
		if len(got) != len(u.idx) {
			return fmt.Sprintf("%d indexes, want %d", len(got), len(u.idx))
		}
		for i := range got {
			if got[i] != u.idx[i] {
				return fmt.Sprintf("index %d of the contents is %d, want %d", i, got[i], u.idx[i])
			}
		}
	}
	if u.text != nil {
		got := *u.text
		if len(got) != len(u.texts) {
			return fmt.Sprintf("%d texts, want %d", len(got), len(u.texts))
		}
		for i := range got {
			if got[i] != u.texts[i] {
				return fmt.Sprintf("text %d of the contents is %s, want %s", i, q(got[i]), q(u.texts[i]))
			}
		}
	}
	for _, o := range u.oldIdx {
		for i := range o[0] {
			if o[0][i] != o[1][i] {
				return fmt.Sprintf("indexes read earlier changed from %v to %v", o[1], o[0])
			}
		}
	}
	for _, o := range u.oldTexts {
		for i := range o[0] {
			if o[0][i] != o[1][i] {
				return fmt.Sprintf("texts read earlier changed from %q to %q", o[1], o[0])
			}
		}
	}
	return ""
}

func (u *storeUnderTest) report(i int, text string) {
	if u.low == -1 || i < u.low {
		u.low = i
	}
	u.idx, u.texts = append(u.idx, i), append(u.texts, text)
}

// partModel does to one part of the model what was done to that part.
func (u *storeUnderTest) partModel(o storeOp) {
	switch {
	case o.kind == 'r' && o.part == 1:
		u.low = -1
	case o.kind == 'r' && o.part == 2:
		u.idx, u.oldIdx = u.idx[:0], nil
	case o.kind == 'r' && o.part == 3:
		u.texts, u.oldTexts = u.texts[:0], nil
	case o.kind == 's' && o.part == 1:
		if u.low == -1 || o.n < u.low {
			u.low = o.n
		}
	case o.kind == 's' && o.part == 2:
		u.idx = append(u.idx, o.n)
	case o.kind == 's' && o.part == 3:
		u.texts = append(u.texts, o.text)
	}
}

func (u *storeUnderTest) snapshot() {
	if u.index != nil && len(u.oldIdx) < 6 {
		u.oldIdx = append(u.oldIdx, [2][]int{*u.index, append([]int(nil), *u.index...)})
	}
	if u.text != nil && len(u.oldTexts) < 6 {
		u.oldTexts = append(u.oldTexts, [2][]string{*u.text, append([]string(nil), *u.text...)})
	}
}

type storeOp struct {
	kind byte // s store, g grow, r reset, k keep the contents, m match against a tree
	text string
	n    int
	part int // 1 minimum, 2 indexes, 3 texts of a combined collector; 0 all
}

func (o storeOp) String() string {
	if o.part > 0 {
		w := o
		w.part = 0
		return []string{"", "Min", "Index", "S"}[o.part] + "." + w.String()
	}
	switch o.kind {
	case 's':
		return fmt.Sprintf("Store(%s,%d)", q(o.text), o.n)
	case 'g':
		return fmt.Sprintf("Grow(%d)", o.n)
	case 'f':
		return fmt.Sprintf("Fill(%s),Grow(+%d)", q(o.text), o.n)
	case 'r':
		return "Init"
	case 'k':
		return "read"
	}
	return "Match(" + q(o.text) + ")"
}

// shared trees that report into the collectors
type reporter struct {
	tree     *glob.GlobTree
	subjects []string
}

func makeReporter(r *gen.Rng) *reporter {
	tree := glob.NewTree()
	for i, p := range []string{"a*", "*b", "?", "{a,b}*", "*", "a[a-c]", "abc", "*c*"} {
		idx := i * 3
		if r.P(1, 2) {
			idx = 1000 - i
		}
		tree.Add(p, idx)
	}
	return &reporter{tree, []string{"a", "b", "abc", "", "ab", "xyz", "bb"}}
}

// runStoreHistory checks after each operation or, if the history is long, after
// the last one and some others.
func runStoreHistory(t *T, ops []storeOp, rep *reporter) bool {
	us := newStores()
	t.Desc(func() string { return storeOps(ops) })
	for _, u := range us {
		if bad := u.check(); bad != "" {
			t.Fail("store", u.name, "new %s: %s", u.name, bad)
			return false
		}
	}
	var seen recStore
	for k, o := range ops {
		look := k == len(ops)-1 || k < 300 || t.R.P(1, 500)
		seen.r = seen.r[:0]
		if o.kind == 'm' {
			rep.tree.Match(o.text, &seen)
		}
		for _, u := range us {
			if o.part > 0 {
				if u.parts == nil || !u.parts(o) {
					continue
				}
				u.partModel(o)
				t.Eval(1)
				t.Count("ops_on_parts", 1)
				if !look {
					continue
				}
				if bad := u.check(); bad != "" {
					t.Fail("store", u.name+":"+storeOps(ops[:k+1]), "%s after %s: %s", u.name, storeOps(ops[:k+1]), bad)
					return false
				}
				continue
			}
			switch o.kind {
			case 's':
				u.store.Store(ownCopy(o.text), o.n)
				u.report(o.n, o.text)
			case 'm':
				rep.tree.Match(o.text, u.store)
				for _, x := range seen.r {
					u.report(x.i, ownCopy(x.q))
				}
			case 'f': // as much as there is room for, then growth
				if u.grow == nil {
					continue
				}
				room := func() int { // in the list to be filled
					if u.text == nil || u.index != nil && o.n%2 == 0 {
						return cap(*u.index) - len(*u.index)
					}
					return cap(*u.text) - len(*u.text)
				}
				j := 0
				for ; j < 3000 && room() > 0; j++ {
					u.store.Store(o.text, j*7)
					u.report(j*7, o.text)
				}
				t.Count("filled_and_grown", 1)
				size := j + len(u.texts) + len(u.idx) + o.n
				if u.index != nil {
					size = max(size, cap(*u.index)+o.n)
				}
				if u.text != nil {
					size = max(size, cap(*u.text)+o.n)
				}
				u.grow(size)
			case 'g':
				if u.grow == nil {
					continue
				}
				u.grow(o.n)
				if u.index != nil && cap(*u.index) < o.n || u.text != nil && cap(*u.text) < o.n {
					t.Fail("store", storeOps(ops[:k+1]), "%s after %s has no room for %d reports", u.name, storeOps(ops[:k+1]), o.n)
					return false
				}
			case 'r':
				u.init()
				u.low, u.idx, u.texts, u.oldIdx, u.oldTexts = -1, u.idx[:0], u.texts[:0], nil, nil
				u.resets++
			case 'k':
				u.snapshot()
			}
			t.Eval(1)
			if !look {
				continue
			}
			if bad := u.check(); bad != "" {
				t.Fail("store", u.name+":"+storeOps(ops[:k+1]), "%s after %s: %s", u.name, storeOps(ops[:k+1]), bad)
				return false
			}
		}
		t.Count("ops_"+map[byte]string{'s': "store", 'g': "grow", 'r': "reset", 'k': "read", 'f': "fill", 'm': "match"}[o.kind], 1)
	}
	return true
}

func storeOps(ops []storeOp) string {
	var b strings.Builder
	for i, o := range ops {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i > 60 {
			fmt.Fprintf(&b, "... %d in all", len(ops))
			break
		}
		b.WriteString(o.String())
	}
	return b.String()
}

// the operations of the exhaustive stream
var storeAlphabet = []storeOp{{kind: 's', text: "a", n: 0}, {kind: 's', text: "", n: 5}, {kind: 's', text: "b", n: 2}, {kind: 'g', n: 3}, {kind: 'g', n: 0}, {kind: 'r'}, {kind: 'k'}}

func init() {
	pow := func(b, e int) (n int) {
		for n = 1; e > 0; e-- {
			n *= b
		}
		return
	}
	register(&Prop{
		ID: "C18",
		Rule: "One observation: the contents of one collector (minimum, indexes, texts, the combination of them, and zero values of the list collectors) compared with a sequential model after one operation of a history of reports, reports by a tree, resets, growths and reads, of the combined collector also on its parts; contents read earlier are compared too until the next reset. " +
			"All histories of 6 (thorough: 7) operations over 7 are run, random ones (which also fill a collector to its capacity and grow it then) of up to 200 operations, and some of up to 60000 reports. Distinct: distinct histories.",
		Assume: []string{"indexes are not negative (the trees refuse negative ones)", "growing is to a size that is not negative"},
		Need:   map[string]int64{"ops_store": 200000, "ops_grow": 100000, "ops_reset": 50000, "ops_read": 50000, "ops_match": 10000, "ops_on_parts": 10000, "filled_and_grown": 10000},
		Streams: []*Stream{
			{Name: "all", Fixed: true, Quick: pow(7, 6), Thorough: pow(7, 7), Run: func(t *T) {
				n := 6
				if t.Tier == "thorough" {
					n = 7
				}
				ops := make([]storeOp, n)
				for i, x := 0, int(t.I); i < n; i++ {
					ops[i] = storeAlphabet[x%7]
					x /= 7
				}
				runStoreHistory(t, ops, nil)
				t.Distinct(gen.Mix(7, t.I))
			}},
			{Name: "huge", Quick: 60, Thorough: 1500, Chunk: 1, Run: func(t *T) {
				// many reports, few other operations
				n := 1000 + gen.Size(t.R, 60000)
				rep := makeReporter(t.R)
				var ops []storeOp
				up := t.R.P(1, 2)
				var h uint64
				for len(ops) < n {
					o := storeOp{kind: 's', n: t.R.Intn(n)}
					if up {
						o.n = len(ops)
					}
					if t.R.P(1, 4) {
						o.text = "x"
					}
					if t.R.P(1, 2000) {
						o = storeOp{kind: gen.Pick(t.R, []byte("gggmmmkrf")), n: t.R.Intn(2 * n), text: gen.Pick(t.R, rep.subjects)}
					}
					h = gen.Mix(h, uint64(o.kind)<<40^uint64(o.n))
					ops = append(ops, o)
				}
				t.Max("operations_in_a_history", int64(n))
				runStoreHistory(t, ops, rep)
				t.Distinct(h)
			}},
			{Name: "random", Quick: 12000, Thorough: 400000, Run: func(t *T) {
				n := 1 + t.R.Intn(20)
				if t.R.P(1, 8) {
					n = 200
				}
				rep := makeReporter(t.R)
				var ops []storeOp
				idx := t.R.Intn(100)
				mode := t.R.Intn(4)
				var h uint64
				for len(ops) < n {
					o := storeOp{kind: "sssssssggrkkmmf"[t.R.Intn(15)]}
					switch o.kind {
					case 's':
						switch mode {
						case 0:
							idx++
						case 1:
							idx = max(0, idx-1)
						case 2:
							idx = t.R.Intn(10)
						default:
							idx = gen.Pick(t.R, []int{0, 1, math.MaxInt, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 33, t.R.Intn(1000)})
						}
						o.n = idx
						o.text = gen.Pick(t.R, []string{"", "a", "*", "seriesByTag('a=b')", "Я\xff", strings.Repeat("x", t.R.Intn(50))})
					case 'g':
						o.n = gen.Pick(t.R, []int{0, 1, 2, 3, 7, 8, 16, 100, 1000, t.R.Intn(64)})
					case 'f':
						o.n, o.text = t.R.Intn(70), gen.Pick(t.R, []string{"", "a", "last"})
					case 'm':
						o.text = gen.Pick(t.R, rep.subjects)
					}
					if t.R.P(1, 4) && strings.IndexByte("sgr", o.kind) >= 0 {
						o.part = 1 + t.R.Intn(3)
					}
					h = gen.Mix(h, gen.Hash(o.String()))
					ops = append(ops, o)
				}
				t.Sample(func() string { return storeOps(ops) })
				runStoreHistory(t, ops, rep)
				t.Distinct(h)
			}},
		},
	})
}
