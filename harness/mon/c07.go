package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/msaf1980/go-matcher/gtags"

	"verifharness/gen"
	"verifharness/ref"
)

// checkCanonical checks the canonical text of parsed terms against the meaning
// of the query.
func checkCanonical(t *T, text string, terms gtags.TaggedTermList, qr ref.Query, p *gen.TermPool, sets int) bool {
	canon := terms.String()
	t.Desc(func() string { return "reparse of " + q(canon) + ", the canonical text of " + q(text) })
	var buf strings.Builder
	buf.WriteString("x")
	terms.WriteString(&buf)
	if buf.String() != "x"+canon {
		t.Fail("canonical", text, "WriteString of %s after \"x\" gave %s, String gave %s", q(text), q(buf.String()), q(canon))
		return false
	}
	t.Eval(1)
	t.Count("canonical_texts_reparsed", 1)
	again, err := gtags.ParseSeriesByTag(canon)
	if err != nil {
		t.Fail("canonical", text, "canonical text %s of %s is refused: %v", q(canon), q(text), err)
		return false
	}
	if s := again.String(); s != canon {
		t.Fail("canonical", text, "canonical text %s of %s has another canonical text %s", q(canon), q(text), q(s))
		return false
	}
	cq, err := ref.ParseQuery(canon)
	if err != nil {
		t.Fail("canonical", text, "canonical text %s of %s is no well-formed call: %v", q(canon), q(text), err)
		return false
	}
	if len(cq) != len(qr) {
		t.Fail("canonical", text, "canonical text %s of %s has %d terms, not %d", q(canon), q(text), len(cq), len(qr))
		return false
	}
	for i := 1; i < len(cq); i++ {
		if ref.KeyLess(cq[i].Key, cq[i-1].Key) {
			t.Fail("canonical", text, "canonical text %s: key %s after %s", q(canon), q(cq[i].Key), q(cq[i-1].Key))
			return false
		}
	}
	for i := 0; i < sets; i++ {
		tags := p.Tags(t.R, qr)
		l, m := toTags(tags)
		want := qr.Match(m)
		t.Eval(1)
		if a, b, c := again.MatchByTags(l), again.MatchByTagsMap(m), cq.Match(m); a != want || b != want || c != want {
			t.Fail("meaning", text+" ~ "+tagText(tags), "query %s is %v on %s, its canonical text %s is %v by list, %v by map, %v as written", q(text), want, tagText(tags), q(canon), a, b, c)
			return false
		}
		if want {
			t.Count("matches_after_reparse", 1)
		}
	}
	return true
}

func c07spell(t *T, p *gen.TermPool, qr ref.Query, sets int) {
	canon, first := "", ""
	for k := 0; k < 4; k++ {
		perm := append(ref.Query(nil), qr...)
		if k > 0 {
			gen.Shuffle(t.R, perm)
		}
		text := gen.QueryText(t.R, perm, k == 0)
		t.Desc(func() string { return "ParseSeriesByTag(" + q(text) + ")" })
		terms, err := gtags.ParseSeriesByTag(text)
		if err != nil {
			t.Fail("rejected", text, "ParseSeriesByTag(%s): %v", q(text), err)
			return
		}
		s := terms.String()
		t.Eval(1)
		t.Count("spellings_compared", 1)
		if k == 0 {
			canon, first = s, text
		} else if s != canon {
			t.Fail("canonical", text, "two spellings of one query:\n %s -> %s\n %s -> %s", q(first), q(canon), q(text), q(s))
			return
		}
		if k < 2 && !checkCanonical(t, text, terms, qr, p, sets) {
			return
		}
		var raw []string
		for i := range perm {
			raw = append(raw, gen.TermText(t.R, &perm[i], t.R.P(1, 2)))
		}
		terms, err = gtags.ParseTaggedConditions(raw)
		if err != nil {
			t.Fail("rejected", text, "ParseTaggedConditions(%s): %v", qs(raw), err)
			return
		}
		if len(raw) > 0 && terms.String() != canon {
			t.Fail("canonical", text, "ParseTaggedConditions(%s) -> %s, but %s -> %s", qs(raw), q(terms.String()), q(first), q(canon))
			return
		}
	}
	t.Distinct(gen.Hash(first))
	t.Sample(func() string { return q(first) + " -> " + q(canon) })
	// a neighbouring query with the same canonical text must mean the same
	if len(qr) > 0 {
		other := append(ref.Query(nil), qr...)
		other[t.R.Intn(len(other))] = gen.Pick(t.R, p.Terms)
		text := gen.QueryText(t.R, other, true)
		terms, err := gtags.ParseSeriesByTag(text)
		if err != nil {
			t.Fail("rejected", text, "ParseSeriesByTag(%s): %v", q(text), err)
			return
		}
		if terms.String() == canon {
			t.Count("neighbours_with_equal_text", 1)
			for i := 0; i < 4; i++ {
				tags := p.Tags(t.R, qr)
				_, m := toTags(tags)
				if qr.Match(m) != other.Match(m) {
					t.Fail("ambiguous", text, "queries %s and %s have the same canonical text %s but differ on %s", q(first), q(text), q(canon), tagText(tags))
					return
				}
			}
		}
	}
}

var c07bytes = []string{"'", "\"", ",", "=", "!", "~", "(", ")", " ", "a", "*", "[", "]", "{", "}", "name", "seriesByTag(", "\t", "", "=~", "!=", "?", "\\", "$", "я", "\xff", "''", "', '", "'a=b'", ";"}

func checkAccept(t *T, text string, p *gen.TermPool) bool {
	qr, want := ref.ParseQuery(text)
	if want == ref.ErrUnspecified {
		t.Count("unspecified_texts", 1)
		return true
	}
	for i := range qr {
		if (qr[i].Op == ref.Eq || qr[i].Op == ref.Ne) && !okPattern(qr[i].Value) {
			t.Count("unspecified_texts", 1)
			return true
		}
	}
	if strings.Contains(text, "[") && !utf8.ValidString(text) {
		t.Count("unspecified_texts", 1)
		return true
	}
	if want != nil && strings.Contains(text, "-") {
		// a dangling hyphen may be why the oracle and the code differ
		for _, s := range strings.Split(text, "[") {
			if i := strings.IndexByte(s, ']'); i >= 0 && oddHyphen(s[:i]) {
				t.Count("unspecified_texts", 1)
				return true
			}
		}
	}
	t.Desc(func() string { return "ParseSeriesByTag(" + q(text) + ")" })
	terms, err := gtags.ParseSeriesByTag(text)
	t.Eval(1)
	if want != nil {
		t.Count("malformed_texts", 1)
	} else {
		t.Count("well_formed_texts", 1)
	}
	if (err != nil) != (want != nil) {
		t.Fail("acceptance", text, "ParseSeriesByTag(%s): error %v; the grammar says %v", q(text), err, want)
		return false
	}
	if err == nil {
		return checkCanonical(t, text, terms, qr, p, 2)
	}
	return true
}

func init() {
	register(&Prop{
		ID: "C07",
		Rule: "One observation: a parsed spelling whose canonical text is compared with that of another spelling of the same query, a reparse of a canonical text (same text again, " +
			"key order, number of terms, verdicts on tag sets), or the acceptance of a text compared with an independent reader of the call grammar. Texts: four spellings per query " +
			"(term order, quotes, spaces, name/__name__), byte-level mutations of well-formed calls, calls of 120 to 135 terms, calls with values of tens of thousands of bytes. Distinct: distinct texts.",
		Assume: []string{
			"what an empty argument, a doubled, leading or trailing comma or a missing comma between arguments means is not defined by the property and not judged",
			"package regexp decides which regular expressions compile",
			"values contain at most one kind of quotes (others cannot be written in a call)",
		},
		Need: map[string]int64{"spellings_compared": 50000, "canonical_texts_reparsed": 50000, "matches_after_reparse": 20000, "malformed_texts": 20000, "well_formed_texts": 20000, "calls_over_the_limit": 100, "calls_at_the_limit": 20},
		Streams: []*Stream{
			{Name: "spell", Quick: 60000, Thorough: 1500000, Run: func(t *T) {
				p := gen.NewTermPool(t.R, 1+t.R.Intn(6), 2+t.R.Intn(8))
				c07spell(t, p, p.Query(t.R, 6), 3)
			}},
			{Name: "manyterms", Quick: 5000, Thorough: 100000, Run: func(t *T) {
				p := gen.NewTermPool(t.R, 1+t.R.Intn(30), 10+t.R.Intn(60))
				c07spell(t, p, p.Query(t.R, 100), 2)
			}},
			{Name: "huge", Quick: 400, Thorough: 8000, Chunk: 1, Run: func(t *T) {
				p := hugePool(t.R, gen.Size(t.R, 200), 20+gen.Size(t.R, 200))
				c07spell(t, p, p.Query(t.R, gen.Size(t.R, 128)), 2)
			}},
			{Name: "mutate", Quick: 200000, Thorough: 5000000, Run: func(t *T) {
				p := gen.NewTermPool(t.R, 1+t.R.Intn(3), 1+t.R.Intn(4))
				text := gen.QueryText(t.R, p.Query(t.R, 3), t.R.P(1, 2))
				for k := 0; k < 6; k++ {
					s := text
					for n := 1 + t.R.Intn(2); n > 0; n-- {
						i := t.R.Intn(len(s) + 1)
						switch t.R.Intn(3) {
						case 0:
							s = s[:i] + gen.Pick(t.R, c07bytes) + s[i:]
						case 1:
							if i < len(s) {
								s = s[:i] + s[i+1:]
							}
						default:
							if i < len(s) {
								s = s[:i] + gen.Pick(t.R, c07bytes) + s[i+1:]
							}
						}
					}
					if !checkAccept(t, s, p) {
						return
					}
					t.Distinct(gen.Hash(s))
				}
			}},
			{Name: "terms", Quick: 60000, Thorough: 1000000, Run: func(t *T) {
				// single terms, assembled from raw pieces
				s := ""
				for k := 1 + t.R.Intn(5); k > 0; k-- {
					s += gen.Pick(t.R, []string{"a", "b", "name", " ", "=", "!", "~", "=~", "!=", "!=~", "*", "[a]", "{a,b}", "[", "}", "(", ")", "\\", "x", "1", "+", "\t", "?", ".", "я"})
				}
				p := gen.NewTermPool(t.R, 1, 1)
				if strings.ContainsAny(s, "'\"") || s == "" {
					return
				}
				if !checkAccept(t, "seriesByTag('"+s+"')", p) {
					return
				}
				term, want := ref.ParseTerm(s)
				if term.Value != "" && (term.Op == ref.Eq || term.Op == ref.Ne) && !okPattern(term.Value) {
					return
				}
				terms, err := gtags.ParseTaggedConditions([]string{s})
				t.Eval(1)
				if (err != nil) != (want != nil) {
					t.Fail("acceptance", s, "ParseTaggedConditions([%s]): error %v; the grammar says %v", q(s), err, want)
					return
				}
				if err == nil && (len(terms) != 1 || terms[0].Key != term.Key) {
					t.Fail("acceptance", s, "ParseTaggedConditions([%s]) gave %v", q(s), terms)
				}
				t.Distinct(gen.Hash(s))
			}},
			{Name: "limit", Quick: 640, Thorough: 6400, Run: func(t *T) {
				n := 120 + int(t.I)%16
				p := gen.NewTermPool(t.R, 1+t.R.Intn(20), 10+t.R.Intn(60))
				var qr ref.Query
				for len(qr) < n {
					qr = append(qr, gen.Pick(t.R, p.Terms))
				}
				text := gen.QueryText(t.R, qr, t.R.P(1, 2))
				t.Desc(func() string { return fmt.Sprintf("ParseSeriesByTag of %d terms", n) })
				terms, err := gtags.ParseSeriesByTag(text)
				t.Eval(1)
				if n > 128 {
					t.Count("calls_over_the_limit", 1)
				} else if n == 128 {
					t.Count("calls_at_the_limit", 1)
				}
				if (err != nil) != (n > 128) {
					t.Fail("limit", text, "a call of %d terms: error %v", n, err)
					return
				}
				if err == nil {
					checkCanonical(t, text, terms, qr, p, 2)
				}
				t.Distinct(gen.Hash(text))
			}},
		},
	})
}
