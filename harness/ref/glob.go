// Package ref holds the executable reference models (the oracles). Nothing in
// here imports the code under test.
package ref

import (
	"errors"
	"sort"
	"strings"
	"unicode/utf8"
)

// Unit is one character of a subject: a rune, or an invalid byte encoded as
// 0x110000+b (one invalid byte is one character, as in package regexp).
type Unit = int32

const badUnit = 0x110000

// Units splits s into characters.
func Units(s string) []Unit {
	u := make([]Unit, 0, len(s))
	for i := 0; i < len(s); {
		if s[i] < utf8.RuneSelf {
			u = append(u, Unit(s[i]))
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			u = append(u, badUnit+Unit(s[i]))
		} else {
			u = append(u, r)
		}
		i += n
	}
	return u
}

type Kind uint8

const (
	Lit Kind = iota
	Any
	Star
	Class
	Alt
)

// Range is an inclusive rune range.
type Range struct{ Lo, Hi rune }

// Elem is one element of a glob.
type Elem struct {
	K    Kind
	R    rune
	Cls  []Range
	Alts [][]Elem
}

// Glob is a parsed glob.
type Glob struct {
	Raw   string
	Elems []Elem
}

var (
	ErrUnclosed = errors.New("unclosed")
	ErrStray    = errors.New("stray closer")
	ErrNested   = errors.New("nested list")
	ErrRange    = errors.New("bad range")
)

// ParseClass parses the text between the brackets.
//
// Defined only for contents without dangling hyphens; hyphens that do not
// join two characters are ignored (existing tests pin "[a-]").
func ParseClass(body string) ([]Range, error) {
	var out []Range
	rs := []rune(body)
	for i := 0; i < len(rs); {
		if rs[i] == '-' {
			i++
			continue
		}
		j := i + 1
		for j < len(rs) && rs[j] == '-' {
			j++
		}
		if j > i+1 && j < len(rs) {
			lo, hi := rs[i], rs[j]
			if lo > hi || utf8.RuneLen(lo) != utf8.RuneLen(hi) {
				return nil, ErrRange
			}
			out = append(out, Range{lo, hi})
			i = j + 1
		} else {
			out = append(out, Range{rs[i], rs[i]})
			i = j
		}
	}
	return out, nil
}

func parseSeq(s string, inList bool) ([]Elem, error) {
	var out []Elem
	for s != "" {
		switch s[0] {
		case '*':
			out = append(out, Elem{K: Star})
			s = s[1:]
		case '?':
			out = append(out, Elem{K: Any})
			s = s[1:]
		case '[':
			end := strings.IndexByte(s, ']')
			if end < 0 {
				return nil, ErrUnclosed
			}
			cls, err := ParseClass(s[1:end])
			if err != nil {
				return nil, err
			}
			if len(cls) > 0 { // an empty class stands for nothing at all
				out = append(out, Elem{K: Class, Cls: cls})
			}
			s = s[end+1:]
		case '{':
			if inList {
				return nil, ErrNested
			}
			end := strings.IndexByte(s, '}')
			if end < 0 {
				return nil, ErrUnclosed
			}
			var alts [][]Elem
			for _, a := range strings.Split(s[1:end], ",") {
				e, err := parseSeq(a, true)
				if err != nil {
					return nil, err
				}
				alts = append(alts, e)
			}
			out = append(out, Elem{K: Alt, Alts: alts})
			s = s[end+1:]
		case ']', '}':
			return nil, ErrStray
		default:
			r, n := utf8.DecodeRuneInString(s)
			if r == utf8.RuneError && n == 1 {
				r = badUnit + rune(s[0])
			}
			out = append(out, Elem{K: Lit, R: r})
			s = s[n:]
		}
	}
	return out, nil
}

// ParseGlob parses a glob (no dot handling).
func ParseGlob(s string) (*Glob, error) {
	e, err := parseSeq(s, false)
	if err != nil {
		return nil, err
	}
	return &Glob{Raw: s, Elems: e}, nil
}

// In reports class membership.
func In(cls []Range, u Unit) bool {
	for _, r := range cls {
		if u >= r.Lo && u <= r.Hi {
			return true
		}
	}
	return false
}

// step computes the set of end positions reachable from the set of start
// positions by one pass over the sequence.
func stepSeq(seq []Elem, u []Unit, set []bool) []bool {
	n := len(u)
	for i := range seq {
		e := &seq[i]
		next := make([]bool, n+1)
		switch e.K {
		case Lit:
			for p := 0; p < n; p++ {
				if set[p] && u[p] == e.R {
					next[p+1] = true
				}
			}
		case Any:
			for p := 0; p < n; p++ {
				if set[p] {
					next[p+1] = true
				}
			}
		case Star:
			on := false
			for p := 0; p <= n; p++ {
				on = on || set[p]
				next[p] = on
			}
		case Class:
			for p := 0; p < n; p++ {
				if set[p] && In(e.Cls, u[p]) {
					next[p+1] = true
				}
			}
		case Alt:
			for _, a := range e.Alts {
				for p, ok := range stepSeq(a, u, set) {
					if ok {
						next[p] = true
					}
				}
			}
		}
		set = next
	}
	return set
}

// the same over at most 63 characters, positions held in a machine word
func stepSeq64(seq []Elem, u []Unit, set uint64) uint64 {
	n := len(u)
	for i := range seq {
		if set == 0 {
			return 0
		}
		e := &seq[i]
		var next uint64
		switch e.K {
		case Lit:
			for p := 0; p < n; p++ {
				if set>>uint(p)&1 == 1 && u[p] == e.R {
					next |= 1 << uint(p+1)
				}
			}
		case Any:
			next = set << 1
		case Star:
			low := set & -set
			next = ^(low - 1)
		case Class:
			for p := 0; p < n; p++ {
				if set>>uint(p)&1 == 1 && In(e.Cls, u[p]) {
					next |= 1 << uint(p+1)
				}
			}
		case Alt:
			for _, a := range e.Alts {
				next |= stepSeq64(a, u, set)
			}
		}
		set = next & (1<<uint(n+1) - 1)
	}
	return set
}

// MatchUnits decides whole-subject membership.
func (g *Glob) MatchUnits(u []Unit) bool {
	n := len(u)
	if n < 63 {
		return stepSeq64(g.Elems, u, 1)>>uint(n)&1 == 1
	}
	if n > 4000 || len(g.Elems) > 400 || n*len(g.Elems) > 40000 {
		return g.MatchSparse(u)
	}
	set := make([]bool, n+1)
	set[0] = true
	return stepSeq(g.Elems, u, set)[n]
}

// MatchSparse decides the same by listing the positions, for large globs.
func (g *Glob) MatchSparse(u []Unit) bool {
	pos, all := stepSparse(g.Elems, u, []int{0}, -1)
	return all >= 0 || len(pos) > 0 && pos[len(pos)-1] == len(u)
}

// the positions are those listed (ascending) and, if all is not negative, every one from all on
func stepSparse(seq []Elem, u []Unit, pos []int, all int) ([]int, int) {
	n := len(u)
	for i := range seq {
		if len(pos) == 0 && all < 0 {
			return nil, -1
		}
		e := &seq[i]
		one := func(ok func(Unit) bool) {
			next := make([]int, 0, len(pos))
			for _, p := range pos {
				if p < n && (all < 0 || p < all) && ok(u[p]) {
					next = append(next, p+1)
				}
			}
			if all >= 0 {
				for p := all; p < n; p++ {
					if ok(u[p]) {
						next = append(next, p+1)
					}
				}
			}
			pos, all = next, -1
		}
		switch e.K {
		case Lit:
			one(func(c Unit) bool { return c == e.R })
		case Class:
			one(func(c Unit) bool { return In(e.Cls, c) })
		case Any:
			next := make([]int, 0, len(pos))
			for _, p := range pos {
				if p < n {
					next = append(next, p+1)
				}
			}
			pos = next
			if all >= 0 {
				if all++; all > n {
					all = -1
				}
			}
		case Star:
			if len(pos) > 0 && (all < 0 || pos[0] < all) {
				all = pos[0]
			}
			pos = nil
		case Alt:
			set := map[int]bool{}
			least := -1
			for _, a := range e.Alts {
				p, l := stepSparse(a, u, pos, all)
				for _, x := range p {
					set[x] = true
				}
				if l >= 0 && (least < 0 || l < least) {
					least = l
				}
			}
			next := make([]int, 0, len(set))
			for x := range set {
				next = append(next, x)
			}
			sort.Ints(next)
			pos, all = next, least
		}
	}
	return pos, all
}

// MatchSlow is the word-free decision, used to cross-check MatchUnits.
func (g *Glob) MatchSlow(s string) bool {
	u := Units(s)
	set := make([]bool, len(u)+1)
	set[0] = true
	return stepSeq(g.Elems, u, set)[len(u)]
}

func (g *Glob) Match(s string) bool { return g.MatchUnits(Units(s)) }

// MinUnits is the least number of characters a matching subject has, and
// Unbounded reports whether there is no greatest.
func (g *Glob) MinUnits() int { return minUnits(g.Elems) }

func minUnits(seq []Elem) (n int) {
	for i := range seq {
		switch seq[i].K {
		case Lit, Any, Class:
			n++
		case Alt:
			best := -1
			for _, a := range seq[i].Alts {
				if m := minUnits(a); best < 0 || m < best {
					best = m
				}
			}
			n += best
		}
	}
	return
}

// Path is a parsed dotted glob: one glob per node.
type Path struct {
	Nodes []*Glob
}

var ErrEmptyNode = errors.New("empty node")

// ParsePath parses a dotted glob; one trailing dot is ignored.
func ParsePath(s string) (*Path, error) {
	p := &Path{}
	s = strings.TrimSuffix(s, ".")
	if s == "" {
		return p, nil
	}
	for _, n := range strings.Split(s, ".") {
		if n == "" {
			return nil, ErrEmptyNode
		}
		g, err := ParseGlob(n)
		if err != nil {
			return nil, err
		}
		p.Nodes = append(p.Nodes, g)
	}
	return p, nil
}

// Match decides a dotted path; one trailing dot is ignored, empty nodes and
// the empty path match nothing.
func (p *Path) Match(path string) bool {
	path = strings.TrimSuffix(path, ".")
	if path == "" {
		return false
	}
	return p.MatchParts(strings.Split(path, "."))
}

func (p *Path) MatchParts(parts []string) bool {
	if len(parts) != len(p.Nodes) || len(parts) == 0 {
		return false
	}
	for i, s := range parts {
		if s == "" || !p.Nodes[i].Match(s) {
			return false
		}
	}
	return true
}
