package gen

import (
	"regexp/syntax"
	"strings"
)

var regexAtoms = []string{
	"a", "b", "ab", "c", "1", "Я", "я", ".", ".", "\\.", "\\.", "\\\\", "\\*", "\\d", "\\w", "\\W", "\\s", "\\S", "\\b", "\\n", "[ab]", "[^a]", "[a-c]", "[.*]", "[^.]", "[я-я]", "[[:digit:]]", "\\x61", "\\Qa.b\\E", "\\pL", " ", "-", "_", "/", ":", "=", "~", "!", ",", "#", "%", "\\x{42f}",
}

var regexCounts = []string{"*", "+", "?", "*?", "+?", "??", "{2}", "{0,2}", "{1,}", "{0}"}

func regexBody(r *Rng, n int) string {
	var b strings.Builder
	for k := 1 + r.Intn(n); k > 0; k-- {
		x := Pick(r, regexAtoms)
		if n > 1 && r.P(1, 6) {
			alts := []string{}
			for j := 1 + r.Intn(3); j > 0; j-- {
				y := ""
				if !r.P(1, 6) {
					y = regexBody(r, n-1)
				}
				alts = append(alts, y)
			}
			x = Pick(r, []string{"(", "(", "(?:", "(?i:", "(?P<n>"}) + strings.Join(alts, "|") + ")"
		}
		b.WriteString(x)
		if r.P(1, 4) {
			b.WriteString(Pick(r, regexCounts))
		}
	}
	return b.String()
}

// Regex makes a regular expression, anchored or not, with or without leading
// and trailing repetitions of anything; not every one compiles.
func Regex(r *Rng) string {
	if r.P(1, 4) {
		return Pick(r, regexes)
	}
	var alts []string
	for k := 1; k > 0; k-- {
		s := ""
		if !r.P(1, 12) {
			s = regexBody(r, 3)
		}
		switch r.Intn(8) {
		case 0:
			s = ".*" + s
		case 1:
			s = "^.*" + s
		case 2:
			s += ".*"
		case 3:
			s += ".*$"
		case 4:
			s = "^.*" + s + ".*$"
		case 5:
			s = "^" + s + "$"
		}
		if r.P(1, 8) {
			s = "^" + s
		}
		if r.P(1, 8) {
			s += "$"
		}
		alts = append(alts, s)
		if len(alts) < 4 && r.P(1, 6) {
			k++
		}
	}
	s := strings.Join(alts, "|")
	switch r.Intn(16) {
	case 0:
		s = "(?i)" + s
	case 1:
		s = "(?s)" + s
	case 2:
		s = "^(" + s + ")$"
	case 3:
		s = "\\A" + s
	case 4:
		s += "\\z"
	case 5: // a broken one, now and then
		rs := []rune(s)
		if len(rs) > 0 {
			i := r.Intn(len(rs))
			s = string(rs[:i]) + string(rs[i+1:])
		}
	}
	return s
}

// RegexSample spells a text for a regular expression; it is usually found in
// it.
func RegexSample(r *Rng, re string) string {
	x, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return ""
	}
	var b strings.Builder
	sampleRegex(r, x, &b)
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

func sampleRegex(r *Rng, x *syntax.Regexp, b *strings.Builder) {
	if b.Len() > 4000 {
		return
	}
	many := func(lo, hi int) {
		if hi < 0 || hi > lo+3 {
			hi = lo + 3
		}
		for k := lo + r.Intn(hi-lo+1); k > 0; k-- {
			sampleRegex(r, x.Sub[0], b)
		}
	}
	switch x.Op {
	case syntax.OpLiteral:
		for _, c := range x.Rune {
			if x.Flags&syntax.FoldCase != 0 && r.P(1, 2) {
				b.WriteString(strings.ToUpper(string(c)))
			} else {
				b.WriteRune(c)
			}
		}
	case syntax.OpCharClass:
		if len(x.Rune) == 0 {
			return
		}
		i := r.Intn(len(x.Rune)/2) * 2
		lo, hi := x.Rune[i], x.Rune[i+1]
		if r.P(1, 2) {
			for _, c := range Pick(r, []string{"a", "b", "1", "я", " ", "-", "."}) {
				if c >= lo && c <= hi {
					lo, hi = c, c
				}
			}
		}
		b.WriteRune(lo + rune(r.Intn(min(int(hi-lo)+1, 64))))
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		b.WriteString(Pick(r, []string{"a", "b", "x", "я", "1", ".", " ", "\xff"}))
	case syntax.OpStar:
		many(0, -1)
	case syntax.OpPlus:
		many(1, -1)
	case syntax.OpQuest:
		many(0, 1)
	case syntax.OpRepeat:
		many(x.Min, x.Max)
	case syntax.OpAlternate:
		sampleRegex(r, Pick(r, x.Sub), b)
	case syntax.OpConcat, syntax.OpCapture:
		for _, y := range x.Sub {
			sampleRegex(r, y, b)
		}
	}
}

// RegexValue makes a value for a regular expression: a sample of it, maybe with
// something around it or with a small damage.
func RegexValue(r *Rng, re string) string {
	s := RegexSample(r, re)
	around := []string{"a", "b", "x", ".", "\n", "\n", " ", "Я", "1", "\xff", "*", "\\"}
	if r.P(1, 3) {
		s = Pick(r, around) + s
	}
	if r.P(1, 3) {
		s += Pick(r, around)
	}
	if s != "" && r.P(1, 5) {
		i := r.Intn(len(s))
		switch r.Intn(3) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + Pick(r, around) + s[i+1:]
		default:
			s = s[:i] + Pick(r, around) + s[i:]
		}
	}
	return s
}
