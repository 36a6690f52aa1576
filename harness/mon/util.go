package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verifharness/gen"
	"verifharness/ref"
)

// maxStores bounds what a collector keeps, maxReports what it accepts: a tree
// reporting more than that for one subject is looping, or has so many ways to
// match a long subject that the case is given up.
const (
	manyReports = 100000
	maxStores   = 2000000
	maxReports  = 20000000
)

// giveUp is what a collector panics with to end a match that takes too long.
type giveUp struct{}

// maxGivenUp is the number of cases that may end like that in one worker, and
// one more for every 2000 of its cases.
const maxGivenUp = 3

type rec struct {
	q string
	i int
}

// recStore records every report of a tree; past manyReports it keeps no more
// than two of a kind.
type recStore struct {
	r    []rec
	n    int
	kept map[rec]int
}

func (s *recStore) Store(q string, i int) {
	s.n++
	if s.n >= maxReports {
		panic(giveUp{})
	}
	if s.n > manyReports {
		if s.kept == nil {
			s.kept = s.counts()
		}
		x := rec{q, i}
		if s.kept[x] >= 2 {
			return
		}
		s.kept[x]++
	}
	if len(s.r) >= maxStores {
		panic("go-matcher reported more matches than any tree here can hold (github.com/msaf1980/go-matcher)")
	}
	s.r = append(s.r, rec{q, i})
}

// multiset of the reports
func (s *recStore) counts() map[rec]int {
	m := make(map[rec]int, len(s.r))
	for _, r := range s.r {
		m[r]++
	}
	return m
}

func q(s string) string {
	if len(s) > 600 {
		return fmt.Sprintf("%q...(%d bytes)", s[:600], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func qs(a []string) string {
	n := len(a)
	if n > 40 {
		a = a[:40]
	}
	p := make([]string, len(a))
	for i := range a {
		p[i] = q(a[i])
	}
	s := "[" + strings.Join(p, " ") + "]"
	if n > 40 {
		s += fmt.Sprintf("(%d in all)", n)
	}
	return s
}

// okPattern reports whether s is in the domain of globs the oracles define:
// valid UTF-8 and no class with a hyphen that does not join two
// characters.
func okPattern(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for {
		i := strings.IndexByte(s, '[')
		if i < 0 {
			return true
		}
		s = s[i+1:]
		j := strings.IndexByte(s, ']')
		if j < 0 {
			return true
		}
		if oddHyphen(s[:j]) {
			return false
		}
		s = s[j+1:]
	}
}

// oddHyphen reports a hyphen whose meaning nothing defines. Hyphens at the ends
// of a class are ignored: existing tests pin "[a-]", "[-q]", "[-a-c]", "[-]".
func oddHyphen(body string) bool {
	rs := []rune(strings.Trim(body, "-"))
	for i := 0; i < len(rs); {
		if rs[i] == '-' {
			return true
		}
		if i+1 < len(rs) && rs[i+1] == '-' {
			if i+2 >= len(rs) || rs[i+2] == '-' {
				return true
			}
			i += 3
			continue
		}
		i++
	}
	return false
}

func hashUnits(h uint64, u []ref.Unit) uint64 {
	for _, x := range u {
		h = gen.Mix(h, uint64(uint32(x)))
	}
	return h
}

// mustRef parses a glob made by a generator.
func mustRef(s string) *ref.Glob {
	g, err := ref.ParseGlob(s)
	if err != nil {
		panic("harness: generator made a malformed glob " + q(s) + ": " + err.Error())
	}
	return g
}

// wildOf is a set of characters that matter for the glob: its own characters,
// their neighbours and a few others.
func wildOf(g *ref.Glob, more ...ref.Unit) []ref.Unit {
	seen := map[ref.Unit]bool{}
	var out []ref.Unit
	add := func(u ref.Unit) {
		if u >= 0 && u < 0x110000 && !utf8.ValidRune(u) {
			return
		}
		if u >= 0 && !seen[u] && len(out) < 40 {
			seen[u] = true
			out = append(out, u)
		}
	}
	var walk func(e []ref.Elem)
	walk = func(es []ref.Elem) {
		for i := range es {
			switch es[i].K {
			case ref.Lit:
				add(es[i].R)
			case ref.Class:
				for _, r := range es[i].Cls {
					add(r.Lo)
					add(r.Hi)
					add(r.Lo - 1)
					add(r.Hi + 1)
				}
			case ref.Alt:
				for _, a := range es[i].Alts {
					walk(a)
				}
			}
		}
	}
	walk(g.Elems)
	for _, u := range more {
		add(u)
	}
	add('a')
	add('z')
	return out
}

// fillIn writes something that a glob of one item or a word matches.
func fillIn(s string) string {
	switch s {
	case "?", "[ab]":
		return "a"
	case "*":
		return "a1"
	}
	return s
}
