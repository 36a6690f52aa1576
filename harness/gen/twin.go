package gen

import (
	"strings"
	"unicode/utf8"

	"verifharness/ref"
)

// plain says whether the text is a well-formed glob without odd hyphens in its
// classes and without a dot.
func plain(s string) bool {
	if strings.Contains(s, ".") {
		return false
	}
	if _, err := ref.ParseGlob(s); err != nil {
		return false
	}
	for {
		i := strings.IndexByte(s, '[')
		if i < 0 {
			return true
		}
		s = s[i+1:]
		j := strings.IndexByte(s, ']')
		rs := []rune(strings.Trim(s[:j], "-"))
		for k := 0; k < len(rs); k++ {
			if rs[k] == '-' {
				return false
			}
			if k+2 < len(rs) && rs[k+1] == '-' {
				k += 2
				if rs[k] == '-' {
					return false
				}
			}
		}
		s = s[j+1:]
	}
}

// bases of symbols of every width, with room above them.
var sepBases = []rune{'0', 'A', 'a', '!', 'à', 'а', 'Ā', '一', '가', 0xe000, 0xffa0, '😀', 0x10fd00, 0x07c0, 0x0800, 0x10000}

// Separated makes the body of a class of n ranges that do not touch each other.
func Separated(r *Rng, n int) string {
	var parts []string
	c := Pick(r, sepBases)
	for ; n > 0; n-- {
		if r.P(1, 5) {
			c = Pick(r, sepBases) + rune(r.Intn(8))
		}
		c += 2 + rune(r.Intn(3))
		for !okCls(c) || !utf8.ValidRune(c) {
			c++
		}
		s := string(c)
		if d := c + 1 + rune(r.Intn(3)); r.P(1, 3) && okCls(d) && utf8.RuneLen(d) == utf8.RuneLen(c) {
			s += "-" + string(d)
			c = d
		}
		parts = append(parts, s)
	}
	if r.P(1, 2) {
		Shuffle(r, parts)
	}
	return strings.Join(parts, "")
}

// Twin changes one place of a glob and gives a well-formed glob again.
func Twin(r *Rng, a *Alphabet, text string) string {
	sym := func(c rune) rune {
		switch r.Intn(5) {
		case 0:
			return c + 1
		case 1:
			return c - 1
		case 2:
			return c + rune(r.Intn(5)) - 2
		case 3: // another symbol of the glob
			rs := []rune(text)
			return Pick(r, rs)
		}
		return Pick(r, a.Lits)
	}
	for try := 0; try < 12; try++ {
		rs := []rune(text)
		if len(rs) == 0 {
			return string(Pick(r, a.Lits))
		}
		i := r.Intn(len(rs))
		switch r.Intn(12) {
		case 0: // lose a symbol
			rs = append(rs[:i], rs[i+1:]...)
		case 1: // double one
			rs = append(rs[:i+1], rs[i:]...)
		case 2: // swap two neighbours
			if i > 0 {
				rs[i], rs[i-1] = rs[i-1], rs[i]
			}
		case 3: // swap any two
			j := r.Intn(len(rs))
			rs[i], rs[j] = rs[j], rs[i]
		case 4:
			x := Pick(r, []string{"*", "?", ",", "{}", "[]", "{,", "}", "]", "["})
			rs = []rune(string(rs[:i]) + x + string(rs[i:]))
		case 5: // brackets around one symbol
			x := string(rs[i])
			x = Pick(r, []string{"[" + x + "]", "{" + x + "}", "{" + x + ",}", "{," + x + "}"})
			rs = []rune(string(rs[:i]) + x + string(rs[i+1:]))
		default:
			c := sym(rs[i])
			if c == '-' || c == '.' || !utf8.ValidRune(c) {
				continue
			}
			rs[i] = c
		}
		if s := string(rs); s != "" && s != text && plain(s) {
			return s
		}
	}
	return text + string(Pick(r, a.Lits))
}

// Twins makes n globs which differ from each other in one place or a few, the
// base among them.
func Twins(r *Rng, a *Alphabet, n int) []string {
	part := func() string {
		switch r.Intn(6) {
		case 0, 1:
			return "[" + Separated(r, 2+r.Intn(5)) + "]"
		case 2:
			return "[" + ClassBody(r, a, 1+r.Intn(4)) + "]"
		case 3:
			var vs []string
			for k := 2 + r.Intn(4); k > 0; k-- {
				vs = append(vs, word(r, a, r.Intn(4)))
			}
			return "{" + strings.Join(vs, ",") + "}"
		case 4:
			return word(r, a, 1+r.Intn(6))
		}
		return Glob(r, a, Opt{MaxElems: 3})
	}
	for {
		base := ""
		for k := 1 + r.Intn(3); k > 0; k-- {
			if r.P(1, 4) {
				base += Pick(r, []string{"*", "?", "??"})
			}
			base += part()
		}
		if base == "" || !plain(base) {
			continue
		}
		out := []string{base}
		for len(out) < n {
			s := base
			if r.P(1, 4) {
				s = Pick(r, out)
			}
			s = Twin(r, a, s)
			if r.P(1, 5) {
				s = Twin(r, a, s)
			}
			out = append(out, s)
		}
		Shuffle(r, out)
		return out
	}
}
