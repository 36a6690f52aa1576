// Package gen holds the deterministic workload generators.
package gen

import (
	"strings"

	"verifharness/ref"
)

// Rng is splitmix64.
type Rng struct{ s uint64 }

func New(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int      { return int((r.Next() >> 33) % uint64(n)) }
func (r *Rng) P(num, den int) bool { return r.Intn(den) < num }
func Pick[T any](r *Rng, a []T) T  { return a[r.Intn(len(a))] }
func Shuffle[T any](r *Rng, a []T) {
	for i := len(a) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		a[i], a[j] = a[j], a[i]
	}
}

// Hash is FNV-1a over a string.
func Hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Mix combines hashes.
func Mix(a, b uint64) uint64 {
	a ^= b + 0x9E3779B97F4A7C15 + (a << 6) + (a >> 2)
	return a * 1099511628211
}

// Alphabet is what one case draws its literals from.
type Alphabet struct {
	Lits  []rune
	Wild  []ref.Unit // what subjects may contain
	Cls   []string   // class bodies, single ranges or characters
	Comma bool       // ',' may be a literal outside lists
}

var alphabets = []Alphabet{
	{ // tiny ASCII: collisions everywhere
		Lits: []rune("ab"), Wild: []ref.Unit{'a', 'b', 'c'},
		Cls: []string{"a", "b", "ab", "a-b", "b-c", "ac", "a-c"},
	},
	{
		Lits: []rune("abc"), Wild: []ref.Unit{'a', 'b', 'c', 'd', 'e'},
		Cls: []string{"a", "c", "a-c", "b-d", "ae", "a-ce", "bd"},
	},
	{ // mixed widths
		Lits: []rune("abЯй你😀"), Wild: []ref.Unit{'a', 'b', 'Я', 'й', '你', '世', '😀', '😁', 'z'},
		Cls: []string{"a-b", "Я", "а-я", "А-Я", "你", "一-龥", "😀-😂", "aЯ", "aй你", "a-zа-я", "😀a", "а-вг-е", "а-вб-д", "йцук", "a-cx-zА-Вю-я"},
	},
	{ // node-like
		Lits: []rune("abn01_-:"), Wild: []ref.Unit{'a', 'b', 'n', '0', '1', '2', '_', '-', ':', 'Z'},
		Cls: []string{"0-9", "01", "a-z", "A-Z", "a-zA-Z0-9", "_:", "0-1n", "a-n", "(-+"},
	},
	{ // ASCII with classes reaching the ends of the byte range and wildcard characters inside
		Lits: []rune("ab$^|(+\\"), Wild: []ref.Unit{'a', 'b', '*', '?', '[', ']', '{', '}', '$', '^', '|', '(', '+', '\\', 0x7f, 1},
		Cls: []string{"*", "?", "{", "*?", "[", "a*", "z-\x7f", "\x7f", "!-+", "{a", "x-}"[:1], "^a", "$-&"},
	},
}

// Alpha picks an alphabet.
func Alpha(r *Rng) *Alphabet {
	switch r.Intn(10) {
	case 0, 1, 2:
		return &alphabets[0]
	case 3, 4:
		return &alphabets[1]
	case 5, 6:
		return &alphabets[2]
	case 7, 8:
		return &alphabets[3]
	}
	return &alphabets[4]
}

// Opt shapes a glob.
type Opt struct {
	MaxElems  int
	NoLists   bool // no {..}
	NoClasses bool
	NoStars   bool // no * and ?
	NoGroups  bool // no wildcards inside lists
	Dots      bool // '.' may appear as a literal
	inList    bool
}

func lit(r *Rng, b *strings.Builder, a *Alphabet, o *Opt) {
	n := 1
	if r.P(1, 3) {
		n += r.Intn(3)
	}
	if r.P(1, 300) {
		b.WriteString(longWord(r, a))
	}
	for ; n > 0; n-- {
		if o.Dots && r.P(1, 8) {
			b.WriteByte('.')
			continue
		}
		if a.Comma && !o.inList && r.P(1, 10) {
			b.WriteByte(',')
			continue
		}
		b.WriteRune(Pick(r, a.Lits))
	}
}

// hyphen writes, now and then, a hyphen for an end of a class, where it is ignored.
func hyphen(r *Rng, b *strings.Builder) {
	if r.P(1, 24) {
		b.WriteByte('-')
	}
}

func class(r *Rng, b *strings.Builder, a *Alphabet) {
	b.WriteByte('[')
	if r.P(1, 40) { // empty class
		b.WriteByte(']')
		return
	}
	n := 1
	if r.P(1, 4) {
		n = 2
	}
	hyphen(r, b)
	for ; n > 0; n-- {
		b.WriteString(Pick(r, a.Cls))
	}
	hyphen(r, b)
	b.WriteByte(']')
}

func alt(r *Rng, b *strings.Builder, a *Alphabet, o *Opt, wild bool) {
	o.inList = true
	defer func() { o.inList = false }()
	n := r.Intn(4)
	if r.P(1, 10) {
		n = 0
	} else if n == 0 {
		n = 1
	}
	if wild && r.P(1, 6) {
		n = 3 + r.Intn(5)
	}
	for ; n > 0; n-- {
		k := 0
		if wild {
			k = r.Intn(6)
		}
		switch k {
		case 3:
			if o.NoStars {
				lit(r, b, a, o)
			} else {
				b.WriteByte('*')
			}
		case 4:
			if o.NoStars {
				lit(r, b, a, o)
			} else {
				b.WriteByte('?')
			}
		case 5:
			if o.NoClasses {
				lit(r, b, a, o)
			} else {
				c := Pick(r, a.Cls)
				if strings.ContainsAny(c, ",}") {
					c = "a"
				}
				b.WriteByte('[')
				hyphen(r, b)
				b.WriteString(c)
				hyphen(r, b)
				b.WriteByte(']')
			}
		default:
			lit(r, b, a, o)
		}
	}
}

func list(r *Rng, b *strings.Builder, a *Alphabet, o *Opt) {
	b.WriteByte('{')
	n := 1 + r.Intn(3)
	if r.P(1, 12) {
		n = 1 + r.Intn(8)
	}
	wild := !o.NoGroups && r.P(2, 5)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		alt(r, b, a, o, wild && r.P(2, 3))
	}
	b.WriteByte('}')
}

// Glob makes a well-formed glob.
func Glob(r *Rng, a *Alphabet, o Opt) string {
	var b strings.Builder
	if o.MaxElems == 0 {
		o.MaxElems = 6
	}
	n := 1 + r.Intn(o.MaxElems)
	for ; n > 0; n-- {
		switch r.Intn(10) {
		case 0, 1, 2:
			lit(r, &b, a, &o)
		case 3, 4:
			if o.NoStars {
				lit(r, &b, a, &o)
			} else {
				b.WriteByte('*')
			}
		case 5:
			if o.NoStars {
				lit(r, &b, a, &o)
			} else {
				b.WriteByte('?')
			}
		case 6, 7:
			if o.NoClasses {
				lit(r, &b, a, &o)
			} else {
				class(r, &b, a)
			}
		default:
			if o.NoLists {
				lit(r, &b, a, &o)
			} else {
				list(r, &b, a, &o)
			}
		}
	}
	if !o.NoClasses && r.P(1, 10) {
		return Emptied(r, b.String())
	}
	return b.String()
}

// Emptied puts empty classes and lists, which stand for nothing, anywhere in a glob.
func Emptied(r *Rng, glob string) string {
	var at []int
	in, list := false, map[int]bool{}
	deep := false
	for i := 0; i <= len(glob); i++ {
		if !in && (i == len(glob) || glob[i]&0xC0 != 0x80) {
			at = append(at, i)
			list[i] = deep
		}
		if i == len(glob) {
			break
		}
		switch c := glob[i]; {
		case in:
			in = c != ']'
		case c == '[':
			in = true
		case c == '{':
			deep = true
		case c == '}':
			deep = false
		}
	}
	put := map[int]string{}
	for n := 1 + r.Intn(4); n > 0; n-- {
		i := Pick(r, at)
		if list[i] || r.P(1, 2) {
			put[i] += "[]"
		} else {
			put[i] += "{}"
		}
	}
	var b strings.Builder
	for i := 0; i <= len(glob); i++ {
		b.WriteString(put[i])
		if i < len(glob) {
			b.WriteByte(glob[i])
		}
	}
	return b.String()
}

// Mutate perturbs a subject by one small edit.
func Mutate(r *Rng, u []ref.Unit, wild []ref.Unit) []ref.Unit {
	u = append([]ref.Unit(nil), u...)
	switch k := r.Intn(6); {
	case k == 0 && len(u) > 0: // delete
		i := r.Intn(len(u))
		return append(u[:i], u[i+1:]...)
	case k == 1 && len(u) > 0: // replace
		u[r.Intn(len(u))] = Pick(r, wild)
		return u
	case k == 2 && len(u) > 1: // swap
		i := r.Intn(len(u) - 1)
		u[i], u[i+1] = u[i+1], u[i]
		return u
	case k == 3 && len(u) > 0: // duplicate a span
		i := r.Intn(len(u))
		j := i + 1 + r.Intn(len(u)-i)
		return append(u[:j:j], u[i:]...)
	case k == 4 && len(u) > 0: // truncate
		return u[:r.Intn(len(u))]
	}
	i := r.Intn(len(u) + 1)
	u = append(u, 0)
	copy(u[i+1:], u[i:])
	u[i] = Pick(r, wild)
	return u
}

// Subject makes a subject for g: about half are derived from it.
func Subject(r *Rng, g *ref.Glob, a *Alphabet) []ref.Unit {
	if r.P(1, 80) {
		return Stretch(r, g, Subject(r, g, a), a.Wild)
	}
	if r.P(1, 20) {
		u := g.Extreme(r.P(2, 3), r.Intn(3))
		if r.P(1, 3) {
			u = Mutate(r, u, a.Wild)
		}
		return u
	}
	switch k := r.Intn(10); {
	case k < 4:
		return g.Sample(r, a.Wild)
	case k < 8:
		u := Mutate(r, g.Sample(r, a.Wild), a.Wild)
		if k == 7 {
			u = Mutate(r, u, a.Wild)
		}
		return u
	}
	n := r.Intn(9)
	u := make([]ref.Unit, n)
	for i := range u {
		u[i] = Pick(r, a.Wild)
	}
	return u
}

// BadBytes inserts invalid UTF-8 bytes.
func BadBytes(r *Rng, s string) string {
	bad := []string{"\xff", "\x80", "\xd0", "\xe4\xbd", "\xf0\x9f\x98", "\xc0\xaf", "\xed\xa0\x80", "\xaf"}
	n := 1 + r.Intn(2)
	for ; n > 0; n-- {
		i := r.Intn(len(s) + 1)
		s = s[:i] + Pick(r, bad) + s[i:]
	}
	return s
}
