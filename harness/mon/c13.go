package main

import (
	"bytes"
	"net/url"
	"strings"

	"github.com/msaf1980/go-matcher/pkg/escape"

	"verifharness/gen"
	"verifharness/ref"
)

// escSeq is a history of buffer operations: the buffers are used again and
// again within one case.
type escSeq struct {
	bb    bytes.Buffer
	bWant []byte
	sb    strings.Builder
	sWant []byte
	kept  []string // texts handed out before
	keptW []string
}

func (e *escSeq) keep(got string) {
	if len(e.kept) < 64 {
		e.kept = append(e.kept, got)
		e.keptW = append(e.keptW, strings.Clone(got))
	}
}

func (e *escSeq) check(t *T, key string) bool {
	if !bytes.Equal(e.bb.Bytes(), e.bWant) {
		t.Fail("buffer", key, "%s: the buffer holds %s, want %s", key, q(e.bb.String()), q(string(e.bWant)))
		return false
	}
	for i := range e.kept {
		if e.kept[i] != e.keptW[i] {
			t.Fail("earlier result", key, "%s: an earlier result %s became %s", key, q(e.keptW[i]), q(e.kept[i]))
			return false
		}
	}
	return true
}

// one runs every operation on s.
func (e *escSeq) one(t *T, s string) bool {
	t.Desc(func() string { return "escape " + q(s) })
	uq := url.QueryEscape(s)
	got := escape.Query(s)
	t.Eval(8)
	if got != uq {
		t.Fail("Query", s, "escape.Query(%s) = %s, net/url: %s", q(s), q(got), q(uq))
		return false
	}
	e.keep(got)
	if back := escape.Unescape(got); back != s {
		t.Fail("query round trip", s, "Unescape(Query(%s)) = %s", q(s), q(back))
		return false
	}
	wp := ref.EscapePath(s)
	gp := escape.Path(s)
	if gp != wp {
		t.Fail("Path", s, "escape.Path(%s) = %s, want %s", q(s), q(gp), q(wp))
		return false
	}
	e.keep(gp)
	if back, err := url.PathUnescape(gp); err != nil || back != s {
		t.Fail("path round trip", s, "url.PathUnescape(Path(%s)) = %s, %v", q(s), q(back), err)
		return false
	}
	if len(s) > 0 && len(uq) != len(s) {
		t.Count("texts_escaped", 1)
	}
	// the buffer variants append
	escape.QueryTo(s, &e.bb)
	e.bWant = append(e.bWant, uq...)
	if !e.check(t, "QueryTo("+q(s)+")") {
		return false
	}
	escape.PathTo(s, &e.bb)
	e.bWant = append(e.bWant, wp...)
	if !e.check(t, "PathTo("+q(s)+")") {
		return false
	}
	// unescaping
	un := escape.Unescape(s)
	e.keep(un)
	if want, err := url.QueryUnescape(s); err == nil {
		if un != want {
			t.Fail("Unescape", s, "Unescape(%s) = %s, net/url: %s", q(s), q(un), q(want))
			return false
		}
		if want != s {
			t.Count("texts_unescaped", 1)
		}
	} else if want, ok := ref.Unescape(s); ok {
		t.Count("malformed_escapes", 1)
		if un != want {
			t.Fail("malformed escape", s, "Unescape(%s) = %s, want %s", q(s), q(un), q(want))
			return false
		}
	} else {
		t.Count("overlapping_malformed_escapes", 1)
	}
	before := e.sb.String()
	ut := escape.UnescapeTo(s, &e.sb)
	e.keep(ut)
	if ut != un {
		t.Fail("UnescapeTo", s, "UnescapeTo(%s) = %s, Unescape: %s", q(s), q(ut), q(un))
		return false
	}
	// nothing or the text may have been appended
	switch after := e.sb.String(); {
	case after == before:
	case after == before+un:
	default:
		t.Fail("UnescapeTo buffer", s, "UnescapeTo(%s) left the buffer %s, before it was %s", q(s), q(after), q(before))
		return false
	}
	before = e.sb.String()
	name, tag := escape.UnescapeNameTo(s, &e.sb)
	e.keep(name)
	e.keep(tag)
	if name != un || tag != "__name__="+un {
		t.Fail("UnescapeNameTo", s, "UnescapeNameTo(%s) = %s, %s; Unescape: %s", q(s), q(name), q(tag), q(un))
		return false
	}
	if after := e.sb.String(); after != before+tag {
		t.Fail("UnescapeNameTo buffer", s, "UnescapeNameTo(%s) left the buffer %s, before it was %s", q(s), q(after), q(before))
		return false
	}
	return e.check(t, "unescape "+q(s))
}

// text64 makes texts whose escaped length is around the size of the internal buffer.
func text64(r *gen.Rng) string {
	n := 40 + r.Intn(50)
	if r.P(1, 10) {
		n = 1 + r.Intn(5000)
	}
	special := r.Intn(12)
	pool := gen.Pick(r, []string{" ", "%", "+", "Я", "\x00\xff", " +%&=", "/:;,$@=&", "~!*'()"})
	b := make([]byte, n)
	for i := range b {
		b[i] = "abzAZ09-_."[r.Intn(10)]
	}
	for ; special > 0; special-- {
		b[r.Intn(n)] = pool[r.Intn(len(pool))]
	}
	return string(b)
}

var c13tokens = []string{"%", "+", " ", "4", "1", "a", "F", "g", "/", "&", "\xff", "Я"}

func init() {
	register(&Prop{
		ID: "C13",
		Rule: "One observation: one call of an escaping or unescaping function, compared with net/url or a byte-level definition, with its buffer's content (which is never reset within a case) and with all results handed out earlier in the case. " +
			"Texts: every text of up to two bytes, all texts of up to 5 (thorough: 6) over 12 tokens, random texts over separators, escapes (well-formed, malformed, cut off) and invalid UTF-8, texts whose escaped length is around 64 bytes, and long ones. Distinct: distinct texts.",
		Assume: []string{
			"the text of a malformed escape which overlaps another escape is only checked for agreement of the variants",
			"UnescapeTo may or may not append the text to the buffer when there is nothing to unescape",
			"net/url is trusted",
		},
		Need: map[string]int64{"texts_escaped": 100000, "texts_unescaped": 50000, "malformed_escapes": 20000},
		Streams: []*Stream{
			{Name: "bytes", Quick: 1 + 256 + 65536, Fixed: true, Chunk: 512, Run: func(t *T) {
				i := int(t.I)
				s := ""
				switch {
				case i >= 257:
					s = string([]byte{byte((i - 257) >> 8), byte(i - 257)})
				case i >= 1:
					s = string([]byte{byte(i - 1)})
				}
				var e escSeq
				e.one(t, s)
				t.Distinct(gen.Hash(s))
			}},
			{Name: "enum", Quick: seqCount(len(c13tokens), 5), Thorough: seqCount(len(c13tokens), 6), Fixed: true, Chunk: 512, Run: func(t *T) {
				s := tokenSeq(c13tokens, int(t.I))
				var e escSeq
				e.bb.WriteString("pre%41")
				e.bWant = []byte("pre%41")
				e.sb.WriteString("pre+")
				e.one(t, s)
				t.Distinct(gen.Hash(s))
			}},
			{Name: "huge", Quick: 400, Thorough: 10000, Chunk: 4, Run: func(t *T) {
				var e escSeq
				s := ""
				for k := gen.Size(t.R, 60); k > 0; k-- {
					s += gen.Pick(t.R, []string{text64(t.R), tagWord(t.R, 10), strings.Repeat(tagWord(t.R, 2), gen.Size(t.R, 30000)), escape.Query(text64(t.R))})
				}
				t.Max("longest_text", int64(len(s)))
				if e.one(t, s) && e.one(t, tagWord(t.R, 3)) {
					e.one(t, s[:t.R.Intn(len(s)+1)])
				}
				t.Distinct(gen.Hash(s))
			}},
			{Name: "history", Quick: 60000, Thorough: 2000000, Run: func(t *T) {
				var e escSeq
				for n := 1 + t.R.Intn(8); n > 0; n-- {
					var s string
					switch t.R.Intn(4) {
					case 0:
						s = text64(t.R)
					case 1:
						s = escape.Query(tagWord(t.R, 8))
						if t.R.P(1, 2) && len(s) > 0 { // damaged
							b := []byte(s)
							b[t.R.Intn(len(b))] = byte(t.R.Intn(256))
							s = string(b)
						}
						if t.R.P(1, 3) && len(s) > 0 { // cut off
							s = s[:t.R.Intn(len(s))]
						}
					default:
						s = tagWord(t.R, 10)
					}
					if !e.one(t, s) {
						return
					}
					t.Distinct(gen.Hash(s))
					t.Sample(func() string { return q(s) + " => " + escape.Query(s) })
				}
				t.Max("buffer_bytes", int64(e.bb.Len()))
			}},
		},
	})
}
