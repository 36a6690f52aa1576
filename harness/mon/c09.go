package main

import (
	"strings"
	"unicode"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/gen"
	"verifharness/ref"
)

// checkAccepted compares every way of compiling the text with the reference.
func checkAccepted(t *T, text string) bool {
	if !okPattern(text) {
		t.Count("texts_outside_the_domain", 1)
		return true
	}
	t.Desc(func() string { return "compiling " + q(text) })
	_, rerr := ref.ParseGlob(text)
	bad := rerr != nil
	if bad {
		t.Count("malformed_globs", 1)
	} else {
		t.Count("well_formed_globs", 1)
	}
	fail := func(how string, got any) bool {
		t.Fail("acceptance", text, "%s of %s: %v; the grammar says %v", how, q(text), got, rerr)
		return false
	}
	t.Eval(1)
	g, err := glob.Parse(text)
	if (err != nil) != bad {
		return fail("glob.Parse", err)
	}
	var must *glob.Glob
	p := panicOf(func() { must = glob.ParseMust(text) })
	if (p != nil) != bad {
		return fail("glob.ParseMust", p)
	}
	if !bad && must.Node != g.Node {
		return fail("glob.ParseMust", must)
	}
	if text != "" {
		t.Eval(1)
		tree := glob.NewTree()
		norm, n, err := tree.Add(text, 3)
		if (err != nil) != bad {
			return fail("GlobTree.Add", err)
		}
		if !bad && (norm != g.Node || n != 3) {
			t.Fail("acceptance", text, "GlobTree.Add(%s, 3) = %s, %d", q(text), q(norm), n)
			return false
		}
		if bad && (len(tree.Globs) != 0 || len(tree.GlobsIndex) != 0) {
			t.Fail("acceptance", text, "GlobTree.Add(%s) failed, but left books %v %v", q(text), tree.Globs, tree.GlobsIndex)
			return false
		}
		if bad {
			var st recStore
			if tree.Match(text, &st) != 0 {
				t.Fail("acceptance", text, "GlobTree.Add(%s) failed, but the tree reports %v", q(text), st.r)
				return false
			}
		}
	}
	if v := strings.TrimFunc(text, unicode.IsSpace); v == text && !strings.HasPrefix(text, "~") && !strings.ContainsAny(text, "'") {
		for _, op := range []string{"=", "!="} {
			t.Eval(1)
			_, err = gtags.ParseSeriesByTag("seriesByTag('k" + op + text + "')")
			if (err != nil) != bad {
				return fail("seriesByTag('k"+op+"...')", err)
			}
			_, err = gtags.ParseTaggedConditions([]string{"name" + op + text})
			if (err != nil) != bad {
				return fail("condition name"+op+"...", err)
			}
		}
		tt := gtags.NewTree()
		if _, _, err := tt.Add("seriesByTag('x=1','k="+text+"')", 0); (err != nil) != bad {
			return fail("GTagsTree.Add", err)
		}
		t.Count("tag_values_judged", 3)
	}
	if !bad && text != "" {
		// the item reader accepts it to the end
		rest := text
		for rest != "" {
			var err error
			var before = rest
			if _, rest, err = items.NextWildcardItem(rest); err != nil {
				return fail("NextWildcardItem", err)
			}
			if len(rest) >= len(before) {
				return fail("NextWildcardItem", "no progress at "+q(before))
			}
		}
	}
	return true
}

func checkDottedAccepted(t *T, text string) bool {
	if !okPattern(text) || text == "." {
		t.Count("texts_outside_the_domain", 1)
		return true
	}
	t.Desc(func() string { return "compiling dotted " + q(text) })
	_, rerr := ref.ParsePath(text)
	bad := rerr != nil
	if bad {
		t.Count("malformed_dotted_globs", 1)
	} else {
		t.Count("well_formed_dotted_globs", 1)
	}
	fail := func(how string, got any) bool {
		t.Fail("acceptance", text, "%s of %s: %v; the grammar says %v", how, q(text), got, rerr)
		return false
	}
	t.Eval(1)
	g, err := gglob.Parse(text)
	if (err != nil) != bad {
		return fail("gglob.Parse", err)
	}
	var must *gglob.GGlob
	p := panicOf(func() { must = gglob.ParseMust(text) })
	if (p != nil) != bad {
		return fail("gglob.ParseMust", p)
	}
	if !bad && must.Node != g.Node {
		return fail("gglob.ParseMust", must)
	}
	if text != "" {
		t.Eval(1)
		tree := gglob.NewTree()
		_, _, err := tree.Add(text, 3)
		if (err != nil) != bad {
			return fail("GGlobTree.Add", err)
		}
		if bad && (len(tree.Globs) != 0 || len(tree.GlobsIndex) != 0) {
			t.Fail("acceptance", text, "GGlobTree.Add(%s) failed, but left books %v %v", q(text), tree.Globs, tree.GlobsIndex)
			return false
		}
	}
	return true
}

var c09bytes = "a*[]{},"
var c09dbytes = "a.[]{},*"
var c09pieces = []string{"a", "b", "*", "?", "[", "]", "{", "}", ",", "-", "[a]", "{a,b}", "[a-b]", "[b-a]", "[я-а]", "[а-я]", "[a-я]", "[я-你]", "Я", "😀", "[]", "{}", "{,", "^", "!", "[!a]", "\\", "$", "(", "|", "z", "[z-a", "a-]", "[0-9A-Fa-f]", "[a-c-e]", " ", "~", "=", "\n", "\x00"}

func nthWord(alpha string, i int) string {
	n := len(alpha)
	size, length := 1, 0
	for i >= size {
		i -= size
		size *= n
		length++
	}
	b := make([]byte, length)
	for k := range b {
		b[k] = alpha[i%n]
		i /= n
	}
	return string(b)
}

// edgeRunes are at and around the places where the width of a character or
// the treatment of a class could change.
var edgeRunes = func() (rs []rune) {
	seen := map[rune]bool{'\'': true}
	add := func(from, to rune) {
		for c := from; c <= to; c++ {
			if c >= 0xd800 && c <= 0xdfff || c < 0 || c > 0x10ffff || seen[c] {
				continue
			}
			seen[c] = true
			rs = append(rs, c)
		}
	}
	for _, c := range []rune{0, ' ', '0', 'A', 'Z', 'a', 'z', 0x80, 0x800, 0xd800, 0xe000, 0x10000, 0x40000, 0x10ffff} {
		add(c-1, c+1)
	}
	for _, c := range []rune{0x1f, '!', '-', '*', '?', ',', '.', ']', '[', '{', '}', '^', '_', 0x9f, 0xa0, 0xad, 0xbf, 0xc0, 0xd7, 0xe9, 0xfe, 0xff, 0x100, 0x17f, 0x3c9, 0x42f, 0x430, 0x7f0, 0x2028, 0x4e00, 0xfeff, 0xfffc, 0xfffd, 0xffff, 0x1f600} {
		add(c, c)
	}
	return
}()

// edgeRange is the class text number i of those over pairs of edge runes.
func edgeRange(i int) (text string, x, y rune) {
	n := len(edgeRunes)
	x, y = edgeRunes[i%n], edgeRunes[i/n%n]
	xy := string(x) + "-" + string(y)
	switch i / n / n {
	case 0:
		return "[" + xy + "]", x, y
	case 1:
		return "[b" + xy + "]", x, y
	case 2:
		return "[" + xy + "Я]", x, y
	case 3:
		return "a[" + xy + "c-e]*", x, y
	default:
		return "{b,c}[" + xy + xy + "]z", x, y
	}
}

const edgeForms = 5

func init() {
	register(&Prop{
		ID: "C09",
		Rule: "One observation: whether one way of compiling a text (Parse, ParseMust, Add to a tree, value of a tag term, the item reader) fails, compared with an independent reader of " +
			"the grammar; after a refusal the tree must be empty. Texts: every text of up to 6 (7 at the thorough tier) over a*[]{}, and over a.[]{},* for dotted globs, classes with a range between any two of some 80 characters at the edges of the widths, random piece sequences, huge globs with one thing wrong somewhere, and " +
			"mutations of generated globs. Distinct: distinct texts.",
		Assume: []string{"classes with a hyphen that does not join two characters, texts with invalid UTF-8 and the single dot as a dotted glob are not judged"},
		Need:   map[string]int64{"malformed_globs": 100000, "well_formed_globs": 10000, "malformed_dotted_globs": 100000, "well_formed_dotted_globs": 10000, "tag_values_judged": 100000, "ranges_of_edge_characters": 20000},
		Streams: []*Stream{
			{Name: "enum", Quick: seqCount(len(c09bytes), 6) + 1, Thorough: seqCount(len(c09bytes), 7) + 1, Fixed: true, Run: func(t *T) {
				s := nthWord(c09bytes, int(t.I))
				checkAccepted(t, s)
				t.Distinct(gen.Hash(s))
			}},
			{Name: "enumdots", Quick: seqCount(len(c09dbytes), 6) + 1, Thorough: seqCount(len(c09dbytes), 7) + 1, Fixed: true, Run: func(t *T) {
				s := nthWord(c09dbytes, int(t.I))
				checkDottedAccepted(t, s)
				t.Distinct(gen.Mix(1, gen.Hash(s)))
			}},
			{Name: "ranges", Quick: edgeForms * len(edgeRunes) * len(edgeRunes), Fixed: true, Run: func(t *T) {
				s, _, _ := edgeRange(int(t.I))
				if checkAccepted(t, s) {
					checkDottedAccepted(t, "a."+s)
				}
				t.Count("ranges_of_edge_characters", 1)
				t.Distinct(gen.Hash(s))
			}},
			{Name: "pieces", Quick: 200000, Thorough: 5000000, Run: func(t *T) {
				s := ""
				for k := 1 + t.R.Intn(8); k > 0; k-- {
					s += gen.Pick(t.R, c09pieces)
				}
				if checkAccepted(t, s) && t.R.P(1, 2) {
					if k := t.R.Intn(len(s) + 1); t.R.P(1, 2) {
						s = s[:k] + "." + s[k:]
					}
					checkDottedAccepted(t, s)
				}
				t.Distinct(gen.Hash(s))
				t.Sample(func() string { _, err := ref.ParseGlob(s); return q(s) + ": " + errText(err) })
			}},
			{Name: "huge", Quick: 1500, Thorough: 40000, Chunk: 4, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				dotted := t.R.P(1, 3)
				var text string
				if dotted {
					text = gen.HugeDotted(t.R, noComma(a))
				} else {
					text = gen.Huge(t.R, a)
				}
				rs := []rune(text)
				for k := 0; k < 3; k++ { // as it is, then with one thing wrong somewhere
					u := append([]rune(nil), rs...)
					if k > 0 {
						i := t.R.Intn(len(u) + 1)
						if t.R.P(1, 2) { // near an end
							i = gen.Pick(t.R, []int{0, len(u), max(len(u)-1, 0), max(len(u)-2, 0)})
						}
						if i < len(u) && t.R.P(1, 2) {
							u = append(u[:i], u[i+1:]...)
						} else {
							u = append(u[:i:i], append([]rune{gen.Pick(t.R, []rune("[]{},.-"))}, u[i:]...)...)
						}
					}
					s := string(u)
					t.Distinct(gen.Hash(s))
					t.Max("longest_text", int64(len(s)))
					if dotted && !checkDottedAccepted(t, s) || !dotted && !checkAccepted(t, s) {
						return
					}
				}
			}},
			{Name: "mutate", Quick: 150000, Thorough: 4000000, Run: func(t *T) {
				a := gen.SomeAlpha(t.R)
				var text string
				switch t.R.Intn(5) {
				case 0:
					text = gen.BigGlob(t.R, a)
				default:
					text = gen.Glob(t.R, a, gen.Opt{MaxElems: 5})
				}
				dotted := t.R.P(1, 3)
				if dotted {
					text = gen.Dotted(t.R, noComma(a), nil, 4)
				}
				rs := []rune(text)
				for k := 0; k < 4; k++ {
					u := append([]rune(nil), rs...)
					for n := t.R.Intn(3); n > 0 && len(u) > 0; n-- {
						i := t.R.Intn(len(u))
						switch t.R.Intn(4) {
						case 0:
							u = append(u[:i], u[i+1:]...)
						case 1:
							u[i] = gen.Pick(t.R, []rune("[]{},*?.-a"))
						case 2:
							u = append(u[:i:i], append([]rune{gen.Pick(t.R, []rune("[]{},.-"))}, u[i:]...)...)
						default:
							j := t.R.Intn(len(u))
							u[i], u[j] = u[j], u[i]
						}
					}
					s := string(u)
					t.Distinct(gen.Hash(s))
					if dotted && !checkDottedAccepted(t, s) || !dotted && !checkAccepted(t, s) {
						return
					}
				}
			}},
		},
	})
}

func errText(err error) string {
	if err == nil {
		return "well-formed"
	}
	return err.Error()
}
