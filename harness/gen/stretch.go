package gen

import (
	"strings"

	"verifharness/ref"
)

// stars counts the stars of a glob.
func stars(seq []ref.Elem) int {
	n := 0
	for i := range seq {
		if seq[i].K == ref.Star {
			n++
		}
		for _, alt := range seq[i].Alts {
			n += stars(alt)
		}
	}
	return n
}

// Run is a long run: one symbol, a word over and over, or random symbols.
func Run(r *Rng, wild []ref.Unit, n int) []ref.Unit {
	u := make([]ref.Unit, n)
	period := Pick(r, []int{1, 1, 2, 3, 7, n, n})
	for i := range u {
		if i < period {
			u[i] = Pick(r, wild)
		} else {
			u[i] = u[i-period]
		}
	}
	return u
}

// Long is a size beyond the usual buffers, at most most.
func Long(r *Rng, most int) int {
	n := 16 + r.Intn(60)
	switch r.Intn(6) {
	case 0, 1:
		n = 100 + r.Intn(250)
	case 2:
		n = Pick(r, []int{16, 32, 64, 128, 256, 512, 1024, 4096}) + r.Intn(3) - 1
	case 3:
		if r.P(1, 4) {
			n = 300 + r.Intn(5000)
		}
	}
	return min(n, most)
}

// Stretch makes a subject of g long: a run is put somewhere, or a star takes it.
func Stretch(r *Rng, g *ref.Glob, u []ref.Unit, wild []ref.Unit) []ref.Unit {
	most := 5400
	if g != nil {
		switch stars(g.Elems) {
		case 0, 1:
		case 2:
			most = 330
		case 3:
			most = 70
		default:
			most = 24
		}
	}
	n := Long(r, most)
	if g != nil && r.P(1, 2) {
		return g.SampleN(r, wild, n+1)
	}
	at := r.Intn(len(u) + 1)
	if r.P(1, 3) {
		at = Pick(r, []int{0, len(u)})
	}
	out := append(append(append([]ref.Unit(nil), u[:at]...), Run(r, wild, n)...), u[at:]...)
	return out
}

// longWord is a long literal.
func longWord(r *Rng, a *Alphabet) string {
	n := 20 + r.Intn(60)
	if r.P(1, 3) {
		n = 60 + r.Intn(340)
	}
	if r.P(1, 2) {
		return word(r, a, n)
	}
	return strings.Repeat(word(r, a, 1+r.Intn(3)), n/2)
}
