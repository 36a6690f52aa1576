package gen

import (
	"fmt"
	"strings"

	"verifharness/ref"
)

// Siblings makes n long literal texts that differ from a common one in a place
// or two: numbered, continued, cut, or with one symbol changed.
func Siblings(r *Rng, a *Alphabet, n int) []string {
	var b strings.Builder
	for k := 1 + r.Intn(4); k > 0; k-- {
		if b.Len() > 0 {
			b.WriteString(Pick(r, []string{"-", "_", "", ":"}))
		}
		if r.P(1, 2) {
			b.WriteString(Pick(r, []string{"production", "server", "requests", "latency", "node", "eu-west", "cluster", "сервер"}))
		} else {
			b.WriteString(word(r, a, 1+r.Intn(12)))
		}
	}
	if r.P(1, 5) { // really long
		for k := 1 + r.Intn(2); k > 0; k-- {
			b.WriteString(word(r, a, 40+r.Intn(200)))
		}
	}
	base := b.String()
	if base == "" || !plain(base) || HasSpecial(base) || !okValue(base) {
		base = "node-"
	}
	width := Pick(r, []int{0, 0, 2, 3, 8})
	seen := map[string]bool{}
	var out []string
	if r.P(1, 6) { // some of them with the same hash
		tail := Pick(r, []string{"", "", "1", base})
		for _, s := range Namesakes(r, n) {
			seen[s+tail] = true
			out = append(out, s+tail)
		}
		Shuffle(r, out)
		out = out[:min(n, len(out))]
	}
	for i := 0; len(out) < n; i++ {
		s := base
		rs := []rune(base)
		at := r.Intn(len(rs))
		switch r.Intn(8) {
		case 0, 1, 2:
			s = base + fmt.Sprintf("%0*d", width, i)
		case 3:
			s = fmt.Sprintf("%0*d", width, i) + base
		case 4:
			s = string(rs[:at]) + fmt.Sprintf("%0*d", width, i) + string(rs[at:])
		case 5:
			rs[at] = Pick(r, a.Lits)
			s = string(rs)
		case 6:
			s = string(rs[:at+1])
		default:
			s = base + word(r, a, 1+r.Intn(4))
		}
		if i > 20*n {
			s = base + fmt.Sprint(i)
		}
		if s == "" || seen[s] || !plain(s) || HasSpecial(s) || !okValue(s) {
			continue
		}
		seen[s] = true
		out = append(out, s)
	}
	return out
}

// HasSpecial says whether a text has wildcard characters.
func HasSpecial(s string) bool { return strings.ContainsAny(s, "[]{}*?") }

// SiblingGlobs makes n globs out of such texts, most of them literal, which
// share a beginning, if they have any.
func SiblingGlobs(r *Rng, a *Alphabet, n int) []string {
	lits := Siblings(r, a, n)
	head := ""
	if r.P(1, 4) {
		head = Pick(r, []string{"*", "?", "[ab]*", "*?", string(Pick(r, a.Lits)) + "*"})
	}
	wild := Pick(r, []int{0, 1, 1, 3, 6}) // of eight
	var out []string
	for _, s := range lits {
		if r.P(wild, 8) {
			rs := []rune(s)
			at := r.Intn(len(rs))
			switch r.Intn(7) {
			case 0, 1:
				s += Pick(r, []string{"*", "?", "?*", "**", "[ab]", "{a,b}", "{,a}", "*" + string(Pick(r, a.Lits))})
			case 2:
				s = string(rs[:at]) + "?" + string(rs[at+1:])
			case 3:
				s = string(rs[:at]) + "*" + string(rs[at:])
			case 4:
				s = string(rs[:at]) + "*"
			case 5:
				s = "{" + s + "," + Pick(r, lits) + "}"
			default:
				s = "{" + s + ",}" + Pick(r, []string{"", "*", "a"})
			}
		}
		out = append(out, head+s)
	}
	return out
}

// SiblingQueries makes n queries whose terms have such values, and their pool.
func SiblingQueries(r *Rng, n int) (*TermPool, []ref.Query) {
	p := &TermPool{A: SomeAlpha(r)}
	for k := 1 + r.Intn(3); k > 0; k-- {
		p.Keys = append(p.Keys, []string{"app", "__name__", "host"}[k-1])
	}
	var qs []ref.Query
	var globs, lits []string
	globs, lits = SiblingGlobs(r, p.A, n), Siblings(r, p.A, n)
	odd := Pick(r, []int{0, 1, 4}) // of eight
	if r.P(1, 3) {                 // short ones and the empty one among them
		for k := 1 + r.Intn(n); k > 0; k-- {
			lits[r.Intn(n)] = word(r, p.A, r.Intn(3))
		}
		lits[r.Intn(n)] = ""
	}
	term := func(key, v string) (ref.Term, bool) {
		op := ref.Eq
		if r.P(odd, 8) {
			op = ref.Op(r.Intn(4))
		}
		if (op == ref.Re || op == ref.NotRe) && HasSpecial(v) {
			op -= ref.Re
		}
		t, err := ref.NewTerm(key, op, v)
		return t, err == nil && okValue(v)
	}
	for i := 0; len(qs) < n && i < 4*n; i++ {
		v := globs[i%n]
		if r.P(1, 2) {
			v = lits[i%n]
		}
		var q ref.Query
		t, ok := term(p.Keys[0], v)
		if !ok {
			continue
		}
		q = append(q, t)
		for _, k := range p.Keys[1:] {
			if r.P(1, 2) {
				if t, ok := term(k, Pick(r, lits)); ok {
					q = append(q, t)
				}
			}
		}
		Shuffle(r, q)
		qs = append(qs, q)
		p.Terms = append(p.Terms, q...)
	}
	return p, qs
}

// Alike gives texts that hardly differ: siblings, or namesakes.
func Alike(r *Rng, a *Alphabet, n int) []string {
	if r.P(1, 2) {
		return Namesakes(r, n)
	}
	return Siblings(r, a, n)
}

// AlikeGlob makes a glob of some of the texts, most of it a list, with what
// goes before and after.
func AlikeGlob(r *Rng, lits []string) (glob, head, tail string) {
	some := append([]string(nil), lits...)
	Shuffle(r, some)
	some = some[:1+r.Intn(len(some))]
	glob = some[0]
	if r.P(7, 8) {
		if r.P(1, 6) {
			some = append(some, "")
		}
		glob = "{" + strings.Join(some, ",") + "}"
	}
	head = Pick(r, []string{"", "", "", "pre-", "x", "?", "*", "[ab]", "Я"})
	tail = Pick(r, []string{"", "", "", "-post", "x", "?", "*", "[ab]", "1"})
	return head + glob + tail, head, tail
}
