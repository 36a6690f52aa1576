package ref

import (
	"strings"
	"unicode/utf8"
)

// Rand is the part of the PRNG the samplers need.
type Rand interface{ Intn(n int) int }

func writeUnit(b *strings.Builder, u Unit) {
	if u >= badUnit {
		b.WriteByte(byte(u - badUnit))
		return
	}
	var t [4]byte
	n := utf8.EncodeRune(t[:], u)
	b.Write(t[:n])
}

// String renders characters back to bytes.
func String(u []Unit) string {
	var b strings.Builder
	for _, x := range u {
		writeUnit(&b, x)
	}
	return b.String()
}

// Sample derives a random subject of the glob; wild supplies what wildcards
// stand for.
func (g *Glob) Sample(r Rand, wild []Unit) []Unit {
	return sampleSeq(nil, g.Elems, r, wild, 7)
}

// SampleN is Sample with stars of up to n characters.
func (g *Glob) SampleN(r Rand, wild []Unit, n int) []Unit {
	return sampleSeq(nil, g.Elems, r, wild, n)
}

func sampleSeq(out []Unit, seq []Elem, r Rand, wild []Unit, most int) []Unit {
	for i := range seq {
		e := &seq[i]
		switch e.K {
		case Lit:
			out = append(out, e.R)
		case Any:
			out = append(out, wild[r.Intn(len(wild))])
		case Star:
			n := r.Intn(4)
			if n == 3 {
				n = r.Intn(most)
			}
			for ; n > 0; n-- {
				out = append(out, wild[r.Intn(len(wild))])
			}
		case Class:
			c := e.Cls[r.Intn(len(e.Cls))]
			d := int(c.Hi - c.Lo)
			switch r.Intn(4) {
			case 0:
				out = append(out, c.Lo)
			case 1:
				out = append(out, c.Hi)
			default:
				u := c.Lo + rune(r.Intn(d+1))
				if u >= 0xd800 && u <= 0xdfff { // not a character
					u = c.Hi
				}
				out = append(out, u)
			}
		case Alt:
			out = sampleSeq(out, e.Alts[r.Intn(len(e.Alts))], r, wild, most)
		}
	}
	return out
}
