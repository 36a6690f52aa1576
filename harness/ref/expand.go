package ref

import (
	"sort"
	"strings"
	"unicode/utf8"
)

// Seg is a piece of an expression.
type Seg struct {
	Body string
	Alts []string // nil: text kept as it is
}

const special = "[]{}*?"

// ParseExpand cuts an expression into segments. known is false if a class is
// outside of what the model defines (invalid UTF-8 in it), or very wide.
func ParseExpand(in string) (segs []Seg, known bool) {
	return ParseExpandTo(in, 20000)
}

// ParseExpandTo is ParseExpand for classes of ranges up to the given width.
func ParseExpandTo(in string, width int) (segs []Seg, known bool) {
	known = true
	text := func(s string) {
		if s == "" {
			return
		}
		if n := len(segs); n > 0 && segs[n-1].Alts == nil {
			segs[n-1].Body += s
			return
		}
		segs = append(segs, Seg{Body: s})
	}
	for {
		i := strings.IndexAny(in, special)
		if i < 0 {
			text(in)
			return
		}
		text(in[:i])
		in = in[i:]
		var closer byte
		switch in[0] {
		case '{':
			closer = '}'
		case '[':
			closer = ']'
		default:
			text(in)
			return
		}
		end := strings.IndexAny(in[1:], special)
		if end < 0 || in[1+end] != closer {
			text(in)
			return
		}
		body, inner := in[:end+2], in[1:1+end]
		in = in[end+2:]
		if closer == '}' {
			segs = append(segs, Seg{body, strings.Split(inner, ",")})
			continue
		}
		if !utf8.ValidString(inner) {
			known = false
		}
		cls, err := ParseClass(inner)
		if err != nil {
			text(body)
			continue
		}
		wide := 0
		for _, r := range cls {
			wide += int(r.Hi-r.Lo) + 1
		}
		if wide > width {
			known = false
			segs = append(segs, Seg{body, []string{""}})
			continue
		}
		sort.Slice(cls, func(i, j int) bool { return cls[i].Lo < cls[j].Lo })
		alts := make([]string, 0, wide)
		last := rune(-1)
		for _, r := range cls {
			for c := max(r.Lo, last+1); c <= r.Hi; c++ {
				if c < 0xd800 || c > 0xdfff { // surrogates are not characters
					alts = append(alts, string(c))
				}
				last = c
			}
		}
		if len(alts) == 0 { // the empty class stands for the empty string
			alts = append(alts, "")
		}
		segs = append(segs, Seg{body, alts})
	}
}

// SpansSpecial reports that a class contains a character that means something
// in a glob.
func SpansSpecial(segs []Seg) bool {
	for i := range segs {
		if strings.HasPrefix(segs[i].Body, "[") {
			for _, a := range segs[i].Alts {
				if strings.ContainsAny(a, special) {
					return true
				}
			}
		}
	}
	return false
}

// Count is the number of combinations, at most limit+1.
func Count(segs []Seg, limit int) int {
	n := 1
	for i := range segs {
		if segs[i].Alts != nil {
			if n *= len(segs[i].Alts); n > limit {
				return limit + 1
			}
		}
	}
	return n
}

// Limit replaces the segments that are not expanded under the limits by text;
// segments with a single alternative are always text: where they are not
// expanded, without their brackets (keep 0), or with the brackets of classes
// of more than one byte (keep 1) or of all (keep 2).
func Limit(segs []Seg, max, depth, keep int) []Seg {
	out := make([]Seg, len(segs))
	n, dots := 1, 0
	stop := max == 0
	for i, s := range segs {
		out[i] = s
		switch {
		case s.Alts == nil:
			dots += strings.Count(s.Body, ".")
		case len(s.Alts) == 1:
			out[i] = Seg{Body: s.Alts[0]}
			if (stop || depth > 0 && dots >= depth) && (keep == 2 || keep == 1 && s.Body[0] == '[' && len(s.Body) > 3) {
				out[i] = Seg{Body: s.Body}
			}
			dots += strings.Count(s.Alts[0], ".")
		default:
			if depth > 0 && dots >= depth {
				stop = true
			}
			if !stop && max > 0 {
				if n > max/len(s.Alts) {
					stop = true
				} else {
					n *= len(s.Alts)
				}
			}
			if stop {
				out[i] = Seg{Body: s.Body}
			}
		}
	}
	return out
}

// Product lists the combinations, the leftmost varying slowest.
func Product(segs []Seg) []string {
	out := []string{""}
	for _, s := range segs {
		if s.Alts == nil {
			for i := range out {
				out[i] += s.Body
			}
			continue
		}
		next := make([]string, 0, len(out)*len(s.Alts))
		for _, o := range out {
			for _, a := range s.Alts {
				next = append(next, o+a)
			}
		}
		out = next
	}
	return out
}

// Firsts is the combination of the first alternatives.
func Firsts(segs []Seg) string {
	var b strings.Builder
	for _, s := range segs {
		if s.Alts == nil {
			b.WriteString(s.Body)
		} else {
			b.WriteString(s.Alts[0])
		}
	}
	return b.String()
}
