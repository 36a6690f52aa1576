package gen

import (
	"strings"
	"unicode/utf8"

	"verifharness/ref"
)

const asciiPool = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_:+=~!@#$%^&()|\\/<>;'\"` \x00\x01\n\t\x7f"

var widePool = []rune{
	0x80, 0x81, 0xa0, 0xdf, 0xe9, 0xff, 0x100, 0x17f, 0x3b1, 0x3b2, 0x430, 0x44f, 0x5d0, 0x7fe, 0x7ff,
	0x800, 0x801, 0x0915, 0x20ac, 0x2028, 0x3042, 0x4e00, 0x4e16, 0x9fa5, 0xd7ff, 0xe000, 0xfffc, 0xfffd, 0xfffe, 0xffff,
	0x10000, 0x10001, 0x1d538, 0x1f600, 0x1f601, 0x1f64f, 0x20000, 0x10fffe, 0x10ffff,
}

func okLit(r rune) bool {
	return r >= 0 && utf8.ValidRune(r) && !strings.ContainsRune("*?[]{},.", r)
}

func okCls(r rune) bool { return okLit(r) && r != '-' }

// RandAlpha builds a fresh alphabet: a few random characters, their
// neighbours, and random class bodies over them.
func RandAlpha(r *Rng) *Alphabet {
	a := &Alphabet{}
	n := 2 + r.Intn(5)
	for len(a.Lits) < n {
		var c rune
		if r.P(1, 2) {
			c = rune(asciiPool[r.Intn(len(asciiPool))])
		} else {
			c = Pick(r, widePool)
		}
		if r.P(1, 5) {
			c += rune(r.Intn(5))
		}
		if okLit(c) {
			a.Lits = append(a.Lits, c)
		}
	}
	wild := map[rune]bool{}
	add := func(c rune) {
		if okLit(c) && !wild[c] {
			wild[c] = true
			a.Wild = append(a.Wild, c)
		}
	}
	for _, c := range a.Lits {
		add(c)
		add(c - 1)
		add(c + 1)
	}
	if r.P(1, 3) {
		add('*')
		a.Wild = append(a.Wild, '*', '{', ']', '?', ',')
	}
	a.Comma = r.P(1, 4)
	for k := 0; k < 6; k++ {
		a.Cls = append(a.Cls, ClassBody(r, a, 1+r.Intn(4)))
	}
	return a
}

// ClassBody makes a class body of up to n parts over the alphabet.
func ClassBody(r *Rng, a *Alphabet, n int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		c := Pick(r, a.Lits)
		if !okCls(c) {
			c = 'a'
		}
		switch r.Intn(4) {
		case 0, 1:
			lo, hi := c, c+rune(r.Intn(12))
			if r.P(1, 3) {
				lo = c - rune(r.Intn(6))
			}
			if lo < 0xd800 && hi >= 0xd800 { // over the surrogates
				hi += 0x800
			}
			if okCls(lo) && okCls(hi) && lo <= hi && utf8.RuneLen(lo) == utf8.RuneLen(hi) {
				b.WriteRune(lo)
				b.WriteByte('-')
				b.WriteRune(hi)
				continue
			}
			b.WriteRune(c)
		case 2:
			d := c + rune(r.Intn(3)) - 1
			if okCls(d) {
				c = d
			}
			b.WriteRune(c)
		default:
			b.WriteRune(c)
		}
	}
	if b.Len() == 0 {
		return "a"
	}
	return b.String()
}

func word(r *Rng, a *Alphabet, n int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteRune(Pick(r, a.Lits))
	}
	return b.String()
}

// BigGlob makes a large glob: long literals, long lists, wide classes, many
// question marks; few stars, so that backtracking stays cheap.
func BigGlob(r *Rng, a *Alphabet) string {
	var b strings.Builder
	stars, lists := 0, 0
	n := 1 + r.Intn(6)
	for ; n > 0; n-- {
		switch r.Intn(9) {
		case 0, 1:
			b.WriteString(word(r, a, 1+r.Intn(120)))
		case 2:
			b.WriteString(word(r, a, 1+r.Intn(3)))
		case 3, 4:
			if stars < 2 {
				b.WriteByte('*')
				stars++
			}
		case 5:
			b.WriteString(strings.Repeat("?", 1+r.Intn(40)))
		case 6:
			b.WriteByte('[')
			hyphen(r, &b)
			b.WriteString(ClassBody(r, a, 1+r.Intn(20)))
			hyphen(r, &b)
			b.WriteByte(']')
		default:
			if lists == 2 {
				continue
			}
			lists++
			b.WriteByte('{')
			k := 1 + r.Intn(60)
			pre := word(r, a, r.Intn(5))
			suf := word(r, a, r.Intn(3))
			same := r.P(1, 4)
			l := 1 + r.Intn(4)
			for i := 0; i < k; i++ {
				if i > 0 {
					b.WriteByte(',')
				}
				if r.P(2, 3) {
					b.WriteString(pre)
				}
				if !same {
					l = r.Intn(6)
				}
				b.WriteString(word(r, a, l))
				if r.P(1, 2) {
					b.WriteString(suf)
				}
				if r.P(1, 40) && stars < 2 {
					b.WriteByte('*')
					stars++
				}
				if r.P(1, 40) {
					b.WriteByte('?')
				}
			}
			b.WriteByte('}')
		}
	}
	if b.Len() == 0 {
		return word(r, a, 70+r.Intn(80))
	}
	return b.String()
}

// LongSubject makes a long subject of g.
func LongSubject(r *Rng, g *ref.Glob, a *Alphabet) []ref.Unit {
	u := g.SampleN(r, a.Wild, 60)
	if r.P(1, 2) {
		u = Mutate(r, u, a.Wild)
	}
	return u
}

// SomeAlpha picks a fixed or a fresh alphabet.
func SomeAlpha(r *Rng) *Alphabet {
	if r.P(1, 3) {
		return RandAlpha(r)
	}
	return Alpha(r)
}
