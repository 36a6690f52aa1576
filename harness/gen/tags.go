package gen

import (
	"regexp"
	"strconv"
	"strings"
	"unicode"

	"verifharness/ref"
)

var tagKeys = []string{
	"a", "b", "c", "ab", "name", "__name__", "host", "dc", "app", "A", "Z", "Zone", "_", "__a", "__name", "__name___", "name2", "n", "nam", "m", "z",
	"я", "ключ", "a-b", "a.b", "a b", "0", "9", "rack", "env", "cpu", "key", "ke", "keyy", "你", "\x7f", "k:1", "#", "*", "a*", "{x}", "(", ")",
}

// TermPool makes terms over a handful of keys.
type TermPool struct {
	A     *Alphabet
	Keys  []string
	Terms []ref.Term
	Extra int // tags that no term is about, at most, in one set of four
}

var regexes = []string{
	"", "a", "^a", "a$", "^a$", "a|b", "^(a|b)$", ".", "^.$", "a.*b", "[ab]+", "^[^a]", "(?i)A", "^$", "a{2}", "b?a", "\\d", "^.{2,3}$", "Я", "^я", "a,b", "=a", "!", "\\.", "(a)(b)", "^\\w+$", "x*", "[[:alpha:]]", "a b",
}

func okValue(v string) bool {
	if strings.Contains(v, "'") && strings.Contains(v, "\"") {
		return false
	}
	return v == strings.TrimFunc(v, unicode.IsSpace)
}

// NewTermPool makes nk keys and nt terms.
func NewTermPool(r *Rng, nk, nt int) *TermPool {
	p := &TermPool{A: SomeAlpha(r)}
	used := map[string]bool{}
	var alike []string
	if r.P(1, 12) {
		alike = Namesakes(r, nk)
	}
	for len(p.Keys) < nk {
		k := Pick(r, tagKeys)
		if alike != nil && r.P(3, 4) {
			k = Pick(r, alike)
		}
		if r.P(1, 5) {
			k = "k" + string(rune('a'+r.Intn(26))) + string(rune('a'+r.Intn(26)))
		}
		if r.P(1, 8) {
			k = "name"
		}
		if used[k] || k == "name" && used["__name__"] || k == "__name__" && used["name"] {
			continue
		}
		used[k] = true
		p.Keys = append(p.Keys, k)
	}
	pool := Pool(r, p.A, 5, Opt{})
	for len(p.Terms) < nt {
		if nt > 1 && r.P(1, 20) { // a few of one key with long values that hardly differ
			key, op := Pick(r, p.Keys), ref.Op(r.Intn(4))
			for _, v := range Siblings(r, p.A, 2+r.Intn(2)) {
				if op == ref.Re || op == ref.NotRe {
					v = "^" + regexp.QuoteMeta(v) + Pick(r, []string{"$", ""})
				} else if r.P(1, 4) {
					v += Pick(r, []string{"*", "?", "{,a}"})
				}
				if t, err := ref.NewTerm(key, op, v); err == nil && okValue(v) {
					p.Terms = append(p.Terms, t)
				}
			}
			continue
		}
		p.Terms = append(p.Terms, p.Term(r, pool))
	}
	return p
}

// Term makes one term.
func (p *TermPool) Term(r *Rng, pool []string) ref.Term {
	for {
		var v string
		op := ref.Op(r.Intn(4))
		if op == ref.Re || op == ref.NotRe {
			v = Regex(r)
		} else {
			switch r.Intn(10) {
			case 0:
				v = ""
			case 1, 2, 3:
				v = word(r, p.A, 1+r.Intn(3))
			case 4:
				v = Pick(r, []string{"~", "~b", "~*", "~=a", "~{a,b}", "[~]a", "[ ]a", "a[ ]", "{ a}", "[~]", "{~}", "{ }", "{a }", "[ ]*", "*[ ]", "{~,a}", "[ ~]a", "=a", "!a", "a=b", "a~", "[=]", "[~]*", "{=~}a"})
			case 5:
				v = Glob(r, p.A, Opt{MaxElems: 4})
			default:
				v = FromPool(r, pool, 2)
			}
		}
		if !okValue(v) {
			continue
		}
		t, err := ref.NewTerm(Pick(r, p.Keys), op, v)
		if err != nil {
			continue
		}
		return t
	}
}

// HugeTerm makes a term with a huge value, or a huge key.
func (p *TermPool) HugeTerm(r *Rng) (t ref.Term, ok bool) {
	key, v, op := Pick(r, p.Keys), "", ref.Op(r.Intn(2))
	switch r.Intn(6) {
	case 0:
		key = "k" + strings.Repeat(Pick(r, []string{"a", "xy", "я"}), Size(r, 40000))
		v = Pick(r, p.Terms).Value
	case 1: // a regular expression
		op += ref.Re
		ws := make([]string, Size(r, 1000))
		for i := range ws {
			ws[i] = Pick(r, []string{"", "a", "b", "k"}) + strconv.Itoa(r.Intn(5000))
		}
		v = "^(" + strings.Join(ws, "|") + ")$"
	default:
		v = Huge(r, p.A)
	}
	if !okValue(v) {
		return t, false
	}
	t, err := ref.NewTerm(key, op, v)
	return t, err == nil
}

// Text spells a term; variants add spaces.
func TermText(r *Rng, t *ref.Term, plain bool) string {
	key := t.Key
	if key == "__name__" && (plain || r.P(1, 2)) {
		key = "name"
	}
	gap := ""
	if (t.Op == ref.Eq || t.Op == ref.Ne) && strings.HasPrefix(t.Value, "~") {
		gap = " " // another operator without it
	}
	if plain {
		return key + ref.OpText[t.Op] + gap + t.Value
	}
	sp := func() string {
		if r.P(1, 3) {
			return strings.Repeat(" ", 1+r.Intn(2))
		}
		if r.P(1, 20) {
			return "\t"
		}
		return ""
	}
	return sp() + key + sp() + ref.OpText[t.Op] + gap + sp() + t.Value + sp()
}

// QueryText spells a query.
func QueryText(r *Rng, q ref.Query, plain bool) string {
	var b strings.Builder
	if !plain && r.P(1, 8) {
		b.WriteString("  ")
	}
	b.WriteString("seriesByTag(")
	for i := range q {
		if i > 0 {
			b.WriteByte(',')
		}
		if !plain && r.P(1, 4) {
			b.WriteByte(' ')
		}
		s := TermText(r, &q[i], plain)
		quote := "'"
		if strings.Contains(s, "'") || !plain && r.P(1, 3) && !strings.Contains(s, "\"") {
			quote = "\""
		}
		b.WriteString(quote + s + quote)
		if !plain && r.P(1, 6) {
			b.WriteByte(' ')
		}
	}
	b.WriteByte(')')
	if !plain && r.P(1, 8) {
		b.WriteByte(' ')
	}
	return b.String()
}

// Query makes a conjunction of up to n terms of the pool.
func (p *TermPool) Query(r *Rng, n int) ref.Query {
	k := r.Intn(n + 1)
	if k == 0 && r.P(3, 4) {
		k = 1
	}
	var q ref.Query
	for ; k > 0; k-- {
		q = append(q, Pick(r, p.Terms))
	}
	return q
}

// value makes a tag value, usually one that some term of the query cares about.
func (p *TermPool) value(r *Rng, q ref.Query, key string) string {
	var mine []*ref.Term
	for i := range q {
		if q[i].Key == key {
			mine = append(mine, &q[i])
		}
	}
	if len(mine) == 0 {
		for i := range p.Terms {
			if p.Terms[i].Key == key {
				mine = append(mine, &p.Terms[i])
			}
		}
	}
	if len(mine) > 0 && !r.P(1, 6) {
		t := Pick(r, mine)
		if g := t.Glob(); g != nil {
			u := g.Sample(r, p.A.Wild)
			if r.P(1, 6) {
				u = Mutate(r, u, p.A.Wild)
			}
			if r.P(1, 100) {
				u = Stretch(r, g, u, p.A.Wild)
			}
			return ref.String(u)
		}
		if len(t.Value) < 1000 && !r.P(1, 3) {
			return RegexValue(r, t.Value)
		}
		return Pick(r, []string{"a", "b", "ab", "", "aa", "ba", "xaby", "Я", "яЯ", "A", "1", "a b", "=a", "!", "a,b", "c.d", "a\nb", "\n"})
	}
	return word(r, p.A, r.Intn(3))
}

// Tags makes a tag set in canonical order for the query; values are chosen so
// that conjunctions hold often.
func (p *TermPool) Tags(r *Rng, q ref.Query) []ref.Tag {
	var out []ref.Tag
	// a long query is broken in about one place
	bad, lost, tries := max(8, 2*len(q)), max(10, 2*len(q)), 4
	if len(q) > 8 {
		tries = 16
	}
	seen := map[string]bool{}
	add := func(k string) {
		if k == "name" {
			k = "__name__"
		}
		if seen[k] {
			return
		}
		seen[k] = true
		v := p.value(r, q, k)
		for try := 0; try < tries; try++ {
			ok := true
			for i := range q {
				if q[i].Key == k && !q[i].HoldsFor(v) {
					ok = false
					break
				}
			}
			if ok || r.P(1, bad) {
				break
			}
			v = p.value(r, q, k)
		}
		out = append(out, ref.Tag{Key: k, Value: v})
	}
	for i := range q {
		neg := q[i].Op == ref.Ne || q[i].Op == ref.NotRe
		if neg && r.P(1, 2) || !neg && r.P(1, lost) {
			continue
		}
		add(q[i].Key)
	}
	for _, k := range p.Keys {
		if r.P(1, 3) {
			add(k)
		}
	}
	if r.P(1, 12) {
		for k := r.Intn(30); k > 0; k-- {
			add(Pick(r, tagKeys))
		}
	}
	if p.Extra > 0 && r.P(1, 4) {
		from := r.Intn(10)
		for k := r.Intn(p.Extra + 1); k > 0; k-- {
			out = append(out, ref.Tag{Key: "x" + strconv.Itoa(from+k), Value: word(r, p.A, r.Intn(3))})
		}
	}
	ref.SortTags(out)
	return out
}

// TwinTerm changes one thing of a term.
func (p *TermPool) TwinTerm(r *Rng, t ref.Term) ref.Term {
	for try := 0; try < 20; try++ {
		key, op, v := t.Key, t.Op, t.Value
		switch r.Intn(8) {
		case 0:
			key = Pick(r, p.Keys)
		case 1:
			op = ref.Op(r.Intn(4))
		case 2: // the negation
			op ^= 1
		default:
			if op == ref.Re || op == ref.NotRe {
				rs := []rune(v)
				if len(rs) == 0 || r.P(1, 4) {
					v = Regex(r)
				} else {
					rs[r.Intn(len(rs))] = Pick(r, []rune("abcAB|.$^*+?Я1"))
					v = string(rs)
				}
			} else {
				v = Twin(r, p.A, v)
			}
		}
		if !okValue(v) || (op == ref.Eq || op == ref.Ne) && v != "" && !plain(v) {
			continue
		}
		if n, err := ref.NewTerm(key, op, v); err == nil && (n.Key != t.Key || n.Op != t.Op || n.Value != t.Value) {
			return n
		}
	}
	return t
}

// TwinQueries makes n queries which differ from each other in one term or a
// few, and remembers their terms.
func (p *TermPool) TwinQueries(r *Rng, n int) []ref.Query {
	var base ref.Query
	for k := 1 + r.Intn(4); k > 0; k-- {
		t := Pick(r, p.Terms)
		if r.P(1, 2) {
			op := ref.Op(r.Intn(2))
			v := Twins(r, p.A, 1)[0]
			if x, err := ref.NewTerm(Pick(r, p.Keys), op, v); err == nil && okValue(v) {
				t = x
			}
		}
		base = append(base, t)
	}
	out := []ref.Query{base}
	for len(out) < n {
		q := append(ref.Query(nil), Pick(r, out)...)
		if r.P(2, 3) {
			q = append(ref.Query(nil), base...)
		}
		switch i := r.Intn(len(q)); {
		case r.P(1, 8) && len(q) > 1:
			q = append(q[:i], q[i+1:]...)
		case r.P(1, 8):
			q = append(q, p.TwinTerm(r, q[i]))
		default:
			q[i] = p.TwinTerm(r, q[i])
		}
		out = append(out, q)
	}
	for _, q := range out {
		p.Terms = append(p.Terms, q...)
	}
	Shuffle(r, out)
	return out
}
