package gen

import (
	"sort"
	"strings"
	"unicode/utf8"

	"verifharness/ref"
)

// Piece is an element of a glob that can be spelled in several ways.
type Piece struct {
	lit    string
	q      int  // number of ? of a wildcard run
	star   bool // the run has a star
	ranges []ref.Range
	alts   [][]Piece
}

// Pieces makes the structure of a glob.
func Pieces(r *Rng, a *Alphabet, n int, inList bool) []Piece {
	var out []Piece
	for k := 1 + r.Intn(n); k > 0; k-- {
		switch x := r.Intn(9); {
		case x < 3:
			out = append(out, Piece{lit: word(r, a, 1+r.Intn(3))})
		case x < 5:
			p := Piece{q: r.Intn(4), star: r.P(2, 3)}
			if p.q == 0 {
				p.star = true
			}
			out = append(out, p)
		case x < 7:
			var rs []ref.Range
			for j := 1 + r.Intn(3); j > 0; j-- {
				c := Pick(r, a.Lits)
				if !okCls(c) {
					c = 'b'
				}
				d := c + rune(r.Intn(8))
				if r.P(1, 2) || !okCls(d) || utf8.RuneLen(c) != utf8.RuneLen(d) || c < 0xd800 && d > 0xdfff {
					d = c
				}
				rs = append(rs, ref.Range{Lo: c, Hi: d})
			}
			out = append(out, Piece{ranges: rs})
		default:
			if inList {
				out = append(out, Piece{lit: word(r, a, 1)})
				continue
			}
			var alts [][]Piece
			wild := r.P(1, 2)
			l := 3
			if r.P(1, 60) {
				l = 500
			}
			for j := 1 + r.Intn(4); j > 0; j-- {
				switch {
				case r.P(1, 8):
					alts = append(alts, nil)
				case wild && r.P(1, 2):
					alt := Pieces(r, a, 3, true)
					if l > 3 {
						alt = append([]Piece{{lit: word(r, a, 1+r.Intn(l))}}, alt...)
						if r.P(1, 2) {
							alt[0], alt[1] = alt[1], alt[0]
						}
					}
					alts = append(alts, alt)
				default:
					alts = append(alts, []Piece{{lit: word(r, a, 1+r.Intn(l))}})
				}
			}
			out = append(out, Piece{alts: alts})
		}
	}
	return out
}

// HugePieces is the structure of a glob with a piece of any size.
func HugePieces(r *Rng, a *Alphabet) []Piece {
	out := Pieces(r, a, 2, false)
	var p Piece
	switch r.Intn(5) {
	case 0:
		p.q, p.star = Size(r, 3000), r.P(1, 2)
	case 1:
		rs := []rune(Separated(r, Size(r, 800)))
		for i := 0; i < len(rs); i++ {
			x := ref.Range{Lo: rs[i], Hi: rs[i]}
			if i+2 < len(rs) && rs[i+1] == '-' {
				x.Hi = rs[i+2]
				i += 2
			}
			p.ranges = append(p.ranges, x)
		}
	default:
		n, wild, l := Size(r, 3000), r.P(1, 3), 1+r.Intn(6)
		if r.P(1, 6) {
			l *= 40
		}
		seen, distinct := map[string]bool{}, r.P(2, 3)
		for j := 0; j < n; j++ {
			if distinct { // no value twice
				if w := word(r, a, 1+r.Intn(l+6)); !seen[w] {
					seen[w] = true
					p.alts = append(p.alts, []Piece{{lit: w}})
				}
				continue
			}
			switch {
			case r.P(1, 2*n):
				p.alts = append(p.alts, nil)
			case wild && r.P(1, 20):
				p.alts = append(p.alts, Pieces(r, a, 2, true))
			default:
				p.alts = append(p.alts, []Piece{{lit: word(r, a, 1+r.Intn(l))}})
			}
		}
	}
	i := r.Intn(len(out) + 1)
	return append(append(append([]Piece(nil), out[:i]...), p), out[i:]...)
}

// reorder gives another order: any, the sorted one, or nearly that.
func reorder(r *Rng, p []string) {
	switch r.Intn(4) {
	case 0:
		sort.Strings(p)
	case 1:
		sort.Strings(p)
		for k := 1 + r.Intn(3); k > 0; k-- {
			i, j := r.Intn(len(p)), r.Intn(len(p))
			if r.P(1, 2) {
				i = len(p) - 1 - r.Intn(min(len(p), 5))
			}
			if r.P(1, 2) {
				j = min(i+1, len(p)-1)
			}
			p[i], p[j] = p[j], p[i]
		}
	case 2:
		sort.Sort(sort.Reverse(sort.StringSlice(p)))
		if r.P(1, 2) {
			i, j := r.Intn(len(p)), r.Intn(len(p))
			p[i], p[j] = p[j], p[i]
		}
	default:
		Shuffle(r, p)
	}
}

// Spell writes the pieces in one of their spellings.
func Spell(r *Rng, ps []Piece) string {
	var b strings.Builder
	twice := 5
	if r.P(1, 2) {
		twice = 100000
	}
	for i := range ps {
		p := &ps[i]
		switch {
		case p.lit != "":
			b.WriteString(p.lit)
		case p.ranges != nil:
			var parts []string
			for _, x := range p.ranges {
				spellRange(r, x, &parts)
				if r.P(1, twice) {
					spellRange(r, x, &parts)
				}
			}
			reorder(r, parts)
			b.WriteByte('[')
			hyphen(r, &b)
			b.WriteString(strings.Join(parts, ""))
			hyphen(r, &b)
			b.WriteByte(']')
		case p.alts != nil:
			var parts []string
			for _, x := range p.alts {
				parts = append(parts, Spell(r, x))
				if r.P(1, twice) {
					parts = append(parts, Spell(r, x))
				}
			}
			reorder(r, parts)
			b.WriteString("{" + strings.Join(parts, ",") + "}")
		default:
			n := p.q
			run := make([]byte, 0, 8)
			for ; n > 0; n-- {
				run = append(run, '?')
			}
			if p.star {
				for k := 1 + r.Intn(3); k > 0; k-- {
					run = append(run, '*')
				}
			}
			Shuffle(r, run)
			b.Write(run)
		}
	}
	return b.String()
}

func spellRange(r *Rng, x ref.Range, parts *[]string) {
	one := func(lo, hi rune) {
		if lo == hi && !r.P(1, 10) {
			*parts = append(*parts, string(lo))
		} else {
			*parts = append(*parts, string(lo)+"-"+string(hi))
		}
	}
	n := int(x.Hi - x.Lo)
	switch r.Intn(3) {
	case 0:
		if n > 0 {
			m := x.Lo + rune(r.Intn(n))
			k := x.Lo + rune(r.Intn(int(m-x.Lo)+2)) // k <= m+1: touching or overlapping
			if okCls(m) && okCls(k) && okCls(m+1) {
				one(x.Lo, m)
				one(k, x.Hi)
				return
			}
		}
	case 1:
		all := true
		for c := x.Lo; c <= x.Hi; c++ {
			all = all && okCls(c)
		}
		if all {
			for c := x.Lo; c <= x.Hi; c++ {
				one(c, c)
			}
			return
		}
	}
	one(x.Lo, x.Hi)
}
