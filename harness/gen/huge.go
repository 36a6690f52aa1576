package gen

import (
	"strings"
)

// Huge makes a glob of a kind whose size is beyond every fixed-size buffer,
// counter and table one could think of: literals of up to 70 thousand
// characters, lists of thousands of values, classes of a thousand ranges,
// thousands of question marks, of items or of lists. What matching costs stays
// moderate: the few stars stand next to literals.
func Huge(r *Rng, a *Alphabet) string {
	var b strings.Builder
	size := func(most int) int { return Size(r, most) }
	switch r.Intn(9) {
	case 0: // long literals
		stars := 0
		for k := 1 + r.Intn(4); k > 0; k-- {
			b.WriteString(word(r, a, size(70000)))
			switch x := r.Intn(5); {
			case x == 0 && stars < 2:
				b.WriteByte('*')
				stars++
			case x == 1:
				b.WriteByte('?')
			case x == 2:
				b.WriteString("[" + ClassBody(r, a, 2) + "]")
			}
		}
	case 1, 2: // a list of many values
		b.WriteString(word(r, a, r.Intn(3)))
		hugeList(r, &b, a, size(6000), r.P(1, 3))
		if r.P(1, 2) {
			b.WriteString(Pick(r, []string{"?", "[" + ClassBody(r, a, 1) + "]", "*"}))
		}
		b.WriteString(word(r, a, r.Intn(3)))
	case 3: // a class of many ranges
		b.WriteString(word(r, a, r.Intn(3)))
		b.WriteString("[" + Separated(r, size(1500)) + "]")
		b.WriteString(Pick(r, []string{"", "?", "*", "[" + ClassBody(r, a, 2) + "]"}))
		b.WriteString(word(r, a, r.Intn(3)))
	case 4: // many question marks
		b.WriteString(word(r, a, r.Intn(3)))
		b.WriteString(strings.Repeat("?", size(20000)))
		if r.P(1, 2) {
			b.WriteString("*")
		}
		b.WriteString(word(r, a, r.Intn(5)))
		b.WriteString(strings.Repeat("?", r.Intn(3)))
	case 5: // many items
		for k := size(3000); k > 0; k-- {
			switch r.Intn(4) {
			case 0:
				b.WriteByte('?')
			case 1:
				b.WriteString("[" + Pick(r, a.Cls) + "]")
			default:
				b.WriteString(word(r, a, 1+r.Intn(3)))
			}
		}
	case 6: // many lists, one value at most of each can match
		for k := size(500); k > 0; k-- {
			c := Pick(r, a.Lits)
			d := Pick(r, a.Lits)
			if c == d {
				b.WriteString(string(c))
				continue
			}
			b.WriteString("{" + string(c) + word(r, a, r.Intn(3)) + "," + string(d) + word(r, a, r.Intn(3)) + "}")
		}
	case 7: // a list of values with wildcards
		b.WriteByte('{')
		k, items := size(400), 1
		if r.P(1, 2) {
			k, items = r.Intn(6), size(300)
		}
		for ; k >= 0; k-- {
			for n := 1 + r.Intn(items); n > 0; n-- {
				b.WriteString(word(r, a, 1+r.Intn(4)) + Pick(r, []string{"?", "??", "[" + ClassBody(r, a, 1) + "]", ""}) + word(r, a, r.Intn(3)))
			}
			if k > 0 {
				b.WriteByte(',')
			}
		}
		b.WriteByte('}')
		b.WriteString(word(r, a, r.Intn(3)))
	default: // many empty things between literals
		for k := size(3000); k > 0; k-- {
			b.WriteString(Pick(r, []string{"{}", "[]", "{a}", "[b]"}))
			if r.P(1, 3) {
				b.WriteString(word(r, a, 1))
			}
		}
		b.WriteString(Pick(r, []string{"", "*", "?"}))
	}
	return b.String()
}

// Size draws a number of up to most, every magnitude alike.
func Size(r *Rng, most int) int {
	n := 1 + r.Intn(3)
	for n < most && !r.P(1, 5) {
		n = n*2 + r.Intn(2)
	}
	return min(n, most)
}

// HugeItem makes the text of a single item.
func HugeItem(r *Rng, a *Alphabet) string {
	switch r.Intn(6) {
	case 0, 1:
		return "[" + Separated(r, Size(r, 1500)) + "]"
	case 2:
		return word(r, a, 2) + word(r, a, Size(r, 20000))
	case 3:
		return strings.Repeat("?", Size(r, 20000)) + Pick(r, []string{"", "*", "*?", "**"})
	}
	var b strings.Builder
	hugeList(r, &b, a, Size(r, 5000), r.P(1, 4))
	return b.String()
}

// HugeDotted makes a dotted glob of up to thousands of nodes, or one with a
// huge node.
func HugeDotted(r *Rng, a *Alphabet) string {
	if r.P(1, 3) {
		s := Huge(r, a)
		for k := r.Intn(3); k > 0; k-- {
			s = word(r, a, 1+r.Intn(2)) + "." + s
		}
		for k := r.Intn(3); k > 0; k-- {
			s += "." + Glob(r, a, Opt{MaxElems: 2})
		}
		if s[0] != '.' && !strings.HasSuffix(s, ".") {
			return s
		}
	}
	n := Size(r, 4000)
	nodes := make([]string, n)
	starless := r.P(1, 3)
	for i := range nodes {
		switch r.Intn(12) {
		case 0:
			nodes[i] = "*"
			if starless {
				nodes[i] = "??"
			}
		case 1:
			nodes[i] = Glob(r, a, Opt{MaxElems: 2, NoStars: starless})
		case 2:
			nodes[i] = "?"
		default:
			nodes[i] = word(r, a, 1+r.Intn(3))
		}
	}
	return strings.Join(nodes, ".")
}

func hugeList(r *Rng, b *strings.Builder, a *Alphabet, n int, long bool) {
	l := 4
	if long {
		l = 200
	}
	pre := word(r, a, r.Intn(4))
	b.WriteByte('{')
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		if r.P(1, 2) {
			b.WriteString(pre)
		}
		b.WriteString(word(r, a, r.Intn(l+1)))
	}
	b.WriteByte('}')
}
