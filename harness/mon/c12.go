package main

import (
	"fmt"
	"net/url"
	"strings"

	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/escape"

	"verifharness/gen"
	"verifharness/ref"
)

type pathForm struct {
	name     string
	sep, amp byte
	list     func(string) ([]gtags.Tag, error)
	mp       func(string) (map[string]string, error)
	mpB      func(string, map[string]string) error
	next     func(string) (string, string, string, bool)
}

var pathForms = []pathForm{
	{"graphite", ';', ';', gtags.GraphitePathTags, gtags.GraphitePathTagsMap, gtags.GraphitePathTagsMapB, gtags.GraphiteNextTag},
	{"url", '?', '&', gtags.PathTags, gtags.PathTagsMap, gtags.PathTagsMapB, gtags.NextTag},
}

func showTags(tags []ref.Tag) string {
	p := make([]string, len(tags))
	for i, t := range tags {
		p[i] = fmt.Sprintf("%q=%q", t.Key, t.Value)
	}
	return "[" + strings.Join(p, " ") + "]"
}

func showMap(m map[string]string) string { return clip(fmt.Sprintf("%q", m), 800) }

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// dirtyMap is what a reused map may hold before.
func dirtyMap(r *gen.Rng, tags []ref.Tag) map[string]string {
	m := map[string]string{}
	for n := r.Intn(6); n > 0; n-- {
		m[gen.Pick(r, []string{"__name__", "a", "k", "", "old", "zz", "name", "кл"})] = gen.Pick(r, []string{"", "old", "x", "1"})
	}
	for _, t := range tags {
		if r.P(1, 4) {
			m[t.Key] = t.Value + "_old"
		}
	}
	return m
}

// checkPath judges one path in one form.
func checkPath(t *T, f *pathForm, path string) {
	t.Desc(func() string { return f.name + " path " + q(path) })
	want, wantErr, known := ref.DecodePath(path, f.sep, f.amp)
	key := f.name + " " + path
	list, err1 := f.list(path)
	m, err2 := f.mp(path)
	reused := dirtyMap(t.R, want)
	dirty := showMap(reused)
	err3 := f.mpB(path, reused)
	t.Eval(3)
	if (err1 != nil) != (err2 != nil) || (err1 != nil) != (err3 != nil) {
		t.Fail("variants", key, "%s path %s: list error %v, map error %v, reused-map error %v", f.name, q(path), err1, err2, err3)
		return
	}
	if known && (err1 != nil) != wantErr {
		t.Fail("error", key, "%s path %s: error %v, want error: %v", f.name, q(path), err1, wantErr)
		return
	}
	if err1 != nil {
		t.Count("errors_seen", 1)
		return
	}
	got := make([]ref.Tag, len(list))
	asMap := map[string]string{}
	for i, x := range list {
		got[i] = ref.Tag{Key: x.Key, Value: x.Value}
		asMap[x.Key] = x.Value
	}
	if known && !wantErr {
		t.Count("decoded_with_reference", 1)
		t.Max("tags_in_path", int64(len(want)))
		same := len(got) == len(want)
		for i := 0; same && i < len(want); i++ {
			same = got[i] == want[i]
		}
		if !same {
			t.Fail("tags", key, "%s path %s decodes to %s, want %s", f.name, q(path), showTags(got), showTags(want))
			return
		}
	}
	if !sameMap(m, asMap) {
		t.Fail("map", key, "%s path %s: map %s, list %s", f.name, q(path), showMap(m), showTags(got))
		return
	}
	if !sameMap(reused, asMap) {
		t.Fail("reused map", key, "%s path %s: reused map (before: %s) %s, list %s", f.name, q(path), dirty, showMap(reused), showTags(got))
		return
	}
	if tm := gtags.TagsMap(list); !sameMap(tm, asMap) {
		t.Fail("TagsMap", key, "TagsMap(%s) = %s", showTags(got), showMap(tm))
		return
	}
	t.Distinct(gen.Mix(gen.Hash(f.name), gen.Hash(path)))
}

// checkNext walks the pieces of well-formed arguments.
func checkNext(t *T, f *pathForm, args string) {
	t.Desc(func() string { return f.name + " next tag of " + q(args) })
	rest := args
	for _, p := range strings.Split(args, string(f.amp)) {
		k, v, ok := strings.Cut(p, "=")
		if !ok {
			return
		}
		gk, gv, next, found := f.next(rest)
		want := ""
		if len(rest) > len(p) {
			want = rest[len(p)+1:]
		}
		t.Eval(1)
		if !found || gk != k || gv != v || next != want {
			t.Fail("next", f.name+" "+rest, "%s: next tag of %s is %q %q, rest %q, found %v; want %q %q, rest %q", f.name, q(rest), gk, gv, next, found, k, v, want)
			return
		}
		rest = want
	}
	if rest == "" {
		if _, _, _, found := f.next(rest); found {
			t.Fail("next", f.name+" empty", "%s: a tag found in the empty text", f.name)
		}
	}
}

var tagBits = []string{"a", "b", "k", "v", "name", "__name__", "=", "==", ";", "&", "?", "%", "+", " ", "%41", "%2B", "%zz", "%4", ".", ",", "*", "/", "#", "~", "!",
	"\"", "'", "\\", "\x00", "\n", "\xff", "\xe2\x82", "Я", "日", "😀", "key", "A1", "-", "_", "%25", "%3D"}

// tagWord makes a key, value or name over everything that has a meaning.
func tagWord(r *gen.Rng, n int) string {
	var b strings.Builder
	for k := r.Intn(n + 1); k > 0; k-- {
		if r.P(1, 6) {
			b.WriteByte(byte(r.Intn(256)))
		} else {
			b.WriteString(gen.Pick(r, tagBits))
		}
	}
	return b.String()
}

func c12roundtrip(t *T, huge bool) {
	f := &pathForms[t.R.Intn(2)]
	enc := escape.Query
	encName := "escape.Query"
	if t.R.P(1, 3) {
		enc, encName = url.QueryEscape, "url.QueryEscape"
	}
	want := []ref.Tag{{Key: "__name__", Value: tagWord(t.R, 5)}}
	seen := map[string]bool{"__name__": true}
	n := t.R.Intn(6)
	if t.R.P(1, 40) {
		n = t.R.Intn(200)
	}
	if huge {
		n = gen.Size(t.R, 4000)
	}
	few := n + 1
	word := func(k int) string {
		if huge && t.R.P(1, few) {
			k = gen.Size(t.R, 30000)
		}
		return tagWord(t.R, k)
	}
	for ; n > 0; n-- {
		k := word(4)
		if k == "" || seen[k] {
			k = fmt.Sprintf("k%d", n)
		}
		seen[k] = true
		want = append(want, ref.Tag{Key: k, Value: word(5)})
	}
	var b strings.Builder
	b.WriteString(enc(want[0].Value))
	sep := f.sep
	for _, x := range want[1:] {
		b.WriteByte(sep)
		b.WriteString(enc(x.Key) + "=" + enc(x.Value))
		sep = f.amp
	}
	if len(want) == 1 {
		return
	}
	path := b.String()
	t.Desc(func() string { return f.name + " round trip " + q(path) })
	list, err := f.list(path)
	t.Eval(1)
	if err != nil {
		t.Fail("round trip", f.name+" "+path, "%s path %s (%s of %s): %v", f.name, q(path), encName, showTags(want), err)
		return
	}
	got := make([]ref.Tag, len(list))
	for i, x := range list {
		got[i] = ref.Tag{Key: x.Key, Value: x.Value}
	}
	same := len(got) == len(want)
	for i := 0; same && i < len(want); i++ {
		same = got[i] == want[i]
	}
	if !same {
		t.Fail("round trip", f.name+" "+path, "%s path %s: %s, encoded (%s) from %s", f.name, q(path), showTags(got), encName, showTags(want))
		return
	}
	t.Count("round_trips", 1)
	t.Sample(func() string { return path + " => " + showTags(want) })
	checkPath(t, f, path)
	checkPath(t, &pathForms[t.R.Intn(2)], path)
	if _, args, ok := strings.Cut(path, string(f.sep)); ok {
		checkNext(t, f, args)
	}
}

// c12pieces makes paths of raw pieces, well-formed ones mostly.
func c12pieces(t *T, huge bool) {
	f := &pathForms[t.R.Intn(2)]
	var b strings.Builder
	broken := !huge || t.R.P(1, 4) // pieces without =, separators out of place
	clean := func(s string) string {
		if broken && t.R.P(1, 12) {
			return s
		}
		return strings.Map(func(r rune) rune {
			if r == rune(f.sep) || r == rune(f.amp) || r == '=' {
				return -1
			}
			return r
		}, s)
	}
	b.WriteString(clean(tagWord(t.R, 4)))
	sep := f.sep
	n := t.R.Intn(6)
	if t.R.P(1, 60) {
		n = t.R.Intn(300)
	}
	if huge {
		n = gen.Size(t.R, 4000)
	}
	few := n + 1
	word := func(k int) string {
		if huge && t.R.P(1, few) {
			k = gen.Size(t.R, 30000)
		}
		if s := tagWord(t.R, k); broken || k < 40 {
			return s
		} else if t.R.P(1, 2) {
			return strings.ReplaceAll(s, "%", gen.Pick(t.R, []string{"%41", "%3d", "", "%%"}))
		} else {
			return strings.ReplaceAll(s, "%", "")
		}
	}
	for ; n > 0; n-- {
		b.WriteByte(sep)
		sep = f.amp
		k := clean(word(3))
		if t.R.P(1, 8) {
			k = gen.Pick(t.R, []string{"a", "k", "__name__", "name"}) // repeated keys
		}
		b.WriteString(k)
		if !broken || !t.R.P(1, 15) {
			b.WriteByte('=')
			v := word(4)
			if !broken || t.R.P(3, 4) {
				v = clean(v)
			}
			if huge && t.R.P(1, 3) {
				// a = inside of a value
				v += "=" + clean(tagWord(t.R, 3))
			}
			b.WriteString(v)
		}
	}
	checkPath(t, f, b.String())
}

var c12tokens = []string{"a", "b", "=", ";", "&", "?", "%", "4", "+"}

func init() {
	register(&Prop{
		ID: "C12",
		Rule: "One observation: one call of one of the six decoders (or of the next-tag scanners) whose tags and error are compared with an independent decoder and " +
			"with the other variants; reused maps hold random earlier content, also under the path's keys. Tag sets over separators, percent signs, control bytes and invalid UTF-8 are encoded and decoded; " +
			"raw paths are pieced together (some with thousands of tags or values of 100 thousand bytes); all texts of up to 6 (thorough: 7) over 9 tokens are enumerated. Distinct: distinct (form, path) pairs decoded without error.",
		Assume: []string{
			"empty trailing pieces, an empty piece list and pieces without = before the last one are only checked for agreement of the variants",
			"malformed percent escapes that overlap another escape are only checked for agreement of the variants",
		},
		Need: map[string]int64{"round_trips": 50000, "errors_seen": 50000, "decoded_with_reference": 100000},
		Streams: []*Stream{
			{Name: "roundtrip", Quick: 200000, Thorough: 8000000, Run: func(t *T) { c12roundtrip(t, false) }},
			{Name: "pieces", Quick: 300000, Thorough: 10000000, Run: func(t *T) { c12pieces(t, false) }},
			{Name: "huge", Quick: 600, Thorough: 20000, Chunk: 4, Run: func(t *T) {
				// thousands of tags, long keys and values
				if t.R.P(1, 2) {
					c12roundtrip(t, true)
				} else {
					c12pieces(t, true)
				}
			}},
			{Name: "raw", Quick: 150000, Thorough: 4000000, Run: func(t *T) {
				p := tagWord(t.R, 12)
				for i := range pathForms {
					checkPath(t, &pathForms[i], p)
				}
			}},
			{Name: "enum", Quick: seqCount(len(c12tokens), 6), Thorough: seqCount(len(c12tokens), 7), Chunk: 512, Run: func(t *T) {
				p := tokenSeq(c12tokens, int(t.I))
				for i := range pathForms {
					checkPath(t, &pathForms[i], p)
					if t.Failed() {
						return
					}
				}
			}},
		},
	})
}
