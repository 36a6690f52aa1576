package ref

import "unicode/utf8"

// Bounds are the lengths in bytes of the shortest and the longest member of the
// language (most -1: there is no longest).
func (g *Glob) Bounds() (least, most int) { return seqBounds(g.Elems) }

func seqBounds(seq []Elem) (least, most int) {
	add := func(lo, hi int) {
		least += lo
		if hi < 0 || most < 0 {
			most = -1
		} else {
			most += hi
		}
	}
	for i := range seq {
		e := &seq[i]
		switch e.K {
		case Lit:
			n := 1
			if e.R < badUnit {
				n = utf8.RuneLen(e.R)
			}
			add(n, n)
		case Any:
			add(1, utf8.UTFMax)
		case Star:
			add(0, -1)
		case Class:
			lo, hi := utf8.UTFMax, 0
			for _, c := range e.Cls {
				lo = min(lo, utf8.RuneLen(c.Lo))
				hi = max(hi, utf8.RuneLen(c.Hi))
			}
			add(lo, hi)
		case Alt:
			lo, hi := -1, 0
			for _, a := range e.Alts {
				l, h := seqBounds(a)
				if lo < 0 || l < lo {
					lo = l
				}
				if h < 0 || hi < 0 {
					hi = -1
				} else {
					hi = max(hi, h)
				}
			}
			add(max(lo, 0), hi)
		}
	}
	return
}

// Extreme makes a shortest (or longest, stars of n characters) member.
func (g *Glob) Extreme(longest bool, n int) []Unit { return extreme(nil, g.Elems, longest, n) }

func extreme(out []Unit, seq []Elem, longest bool, n int) []Unit {
	for i := range seq {
		e := &seq[i]
		switch e.K {
		case Lit:
			out = append(out, e.R)
		case Any:
			if longest {
				out = append(out, 0x1f600)
			} else {
				out = append(out, 'x')
			}
		case Star:
			for k := 0; longest && k < n; k++ {
				out = append(out, 0x10ffff)
			}
		case Class:
			best := e.Cls[0].Lo
			for _, c := range e.Cls {
				if longest && c.Hi > best {
					best = c.Hi
				}
				if !longest && c.Lo < best {
					best = c.Lo
				}
			}
			out = append(out, best)
		case Alt:
			var best []Unit
			size := -1
			for _, a := range e.Alts {
				u := extreme(nil, a, longest, n)
				k := len(String(u))
				if size < 0 || longest && k > size || !longest && k < size {
					best, size = u, k
				}
			}
			out = append(out, best...)
		}
	}
	return out
}
