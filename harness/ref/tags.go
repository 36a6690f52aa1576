package ref

import (
	"errors"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

type Op int

const (
	Eq Op = iota
	Ne
	Re
	NotRe
)

var OpText = []string{"=", "!=", "=~", "!=~"}

// Term is one condition of a tag query.
type Term struct {
	Key   string // "__name__" for the metric name
	Op    Op
	Value string // as written, without the spaces around it
	glob  *Glob
	re    *regexp.Regexp
}

// Tag is a tag of a series.
type Tag struct{ Key, Value string }

var (
	ErrTerm = errors.New("bad term")
	ErrCall = errors.New("bad call")
	// ErrUnspecified: the property does not say whether the text is accepted.
	ErrUnspecified = errors.New("unspecified")
)

// NewTerm builds a term from its three parts.
func NewTerm(key string, op Op, value string) (Term, error) {
	t := Term{Key: key, Op: op, Value: value}
	if key == "name" {
		t.Key = "__name__"
	}
	var err error
	if op == Eq || op == Ne {
		t.glob, err = ParseGlob(value)
	} else {
		t.re, err = regexp.Compile(value)
	}
	return t, err
}

// HoldsFor decides the term for a present value.
func (t *Term) HoldsFor(v string) bool {
	switch t.Op {
	case Eq:
		return t.glob.Match(v)
	case Ne:
		return !t.glob.Match(v)
	case Re:
		return t.re.MatchString(v)
	}
	return !t.re.MatchString(v)
}

// Glob is the parsed value of an = or != term.
func (t *Term) Glob() *Glob { return t.glob }

// Query is a conjunction.
type Query []Term

// Match decides the query; a tag that is absent satisfies the negated terms only.
func (qr Query) Match(tags map[string]string) bool {
	for i := range qr {
		t := &qr[i]
		v, ok := tags[t.Key]
		if !ok {
			if t.Op == Eq || t.Op == Re {
				return false
			}
		} else if !t.HoldsFor(v) {
			return false
		}
	}
	return true
}

// KeyLess is the canonical order of keys.
func KeyLess(a, b string) bool {
	if a == b {
		return false
	}
	if a == "__name__" {
		return true
	}
	return b != "__name__" && a < b
}

// SortTags puts tags in the canonical order.
func SortTags(t []Tag) {
	sort.Slice(t, func(i, j int) bool { return KeyLess(t[i].Key, t[j].Key) })
}

// ParseTerm reads the text of one term.
func ParseTerm(s string) (Term, error) {
	pos := strings.IndexAny(s, "=~!")
	if pos < 1 {
		return Term{}, ErrTerm
	}
	key := strings.TrimFunc(s[:pos], unicode.IsSpace)
	if key == "" {
		return Term{}, ErrTerm
	}
	rest := s[pos:]
	for _, op := range []Op{NotRe, Ne, Re, Eq} { // longer operators first
		if v, ok := strings.CutPrefix(rest, OpText[op]); ok {
			return NewTerm(key, op, strings.TrimFunc(v, unicode.IsSpace))
		}
	}
	return Term{}, ErrTerm
}

// ParseQuery reads a seriesByTag call.
func ParseQuery(s string) (Query, error) {
	s = strings.Trim(s, " ")
	body, ok := strings.CutPrefix(s, "seriesByTag(")
	if !ok {
		return nil, ErrCall
	}
	if body, ok = strings.CutSuffix(body, ")"); !ok {
		return nil, ErrCall
	}
	var args []string
	unspec := false
	body = strings.Trim(body, " ")
	wantComma := false
	for body != "" {
		switch c := body[0]; c {
		case ' ':
			body = body[1:]
		case ',':
			if !wantComma {
				unspec = true // a comma without an argument before it
			}
			wantComma = false
			body = body[1:]
		case '\'', '"':
			if wantComma {
				unspec = true // no comma between the arguments
			}
			end := strings.IndexByte(body[1:], c)
			if end < 0 {
				return nil, ErrCall
			}
			if end == 0 {
				unspec = true // an empty argument
			} else {
				args = append(args, body[1:1+end])
			}
			body = body[end+2:]
			wantComma = true
		default:
			return nil, ErrCall
		}
	}
	if len(args) > 0 && !wantComma {
		unspec = true // a trailing comma
	}
	if len(args) > 128 {
		return nil, ErrCall
	}
	var qr Query
	for _, a := range args {
		t, err := ParseTerm(a)
		if err != nil {
			return nil, err
		}
		qr = append(qr, t)
	}
	if unspec {
		return qr, ErrUnspecified
	}
	return qr, nil
}
