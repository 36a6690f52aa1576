import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','A compiled glob matches exactly the strings of its language',
 'A glob that compiles matches a string if and only if the whole string can be spelled by the glob, where `*` stands for any characters (also none), `?` for exactly one character, `[...]` for exactly one of the listed characters or ranges, `{a,b}` for one of the alternatives (which may be empty and may themselves contain `*`, `?` and `[...]`), and everything else for itself. The empty class `[]` and empty list `{}` stand for the empty string, a character is a Unicode code point or one invalid byte, and invalid bytes are matched by `*` and `?` only. The verdict does not depend on how the glob was optimised internally (prefix, suffix, list lookup, skip scans).',
 ['inputs'],'every well-formed glob (valid UTF-8) and every subject byte string',
 'The tests check some tens of hand-picked glob/string pairs per item kind; the matcher is a backtracking search with per-item fast paths whose combinations (star before optional list, wildcards inside lists, class after star, overlapping prefix and suffix) are not enumerated.',
 ['glob/glob.go','pkg/items/items.go','pkg/items/wildcard.go','pkg/items/stringlist.go','pkg/items/group.go','pkg/items/chain.go','pkg/items/star.go','pkg/items/any.go','pkg/items/runesranges.go','pkg/items/string.go','pkg/items/rune.go','pkg/items/byte.go','pkg/utils/runesranges.go','pkg/utils/string.go'],
 [('prefix/suffix/length pre-checks and list lookup','glob/glob.go Glob.Match'),('backtracking matcher','pkg/items/items.go matchItems, matchStarItems'),('tokenizer','pkg/items/wildcard.go NextWildcardItem')],
 ['glob.Parse(g).Match(s)','items.MatchItems(s, items)'])

p('C02','A dotted glob matches a path node by node',
 'A dotted glob matches a path if and only if both have the same number of dot-separated nodes, no node of the path is empty, and every node of the glob matches the corresponding node of the path (so no wildcard ever spans a dot); one trailing dot of the path or of the glob is ignored, and the empty path is never matched. Matching an already split path without empty nodes gives the same answer as matching the joined path, with or without the total length supplied. The path helpers agree with this: the level counts the nodes, the splitters return exactly the nodes, and the checked splitter refuses exactly the paths with an empty node.',
 ['inputs'],'every well-formed dotted glob and every path, joined or split',
 'Tests use a few Graphite-like paths; length pre-checks, trailing and doubled dots, and multi-byte nodes interact and are not sampled (a dotted glob without any wildcard never matched its own text).',
 ['gglob/gglob.go','gglob/utils.go','glob/glob.go'],
 [('level and length pre-checks, node-by-node cut','gglob/gglob.go GGlob.Match, MatchByParts'),('path splitting','gglob/utils.go PathLevel, PathSplit, PathSplitB')],
 ['GGlob.Match','GGlob.MatchByParts','PathLevel','PathSplit','PathSplitB','HasEmptyParts'])

p('C03','A glob tree reports exactly the globs that match',
 'After any sequence of successful additions, matching a string against the tree of globs reports to the collector exactly the globs that match this string when taken one by one (each with its normalised text and its index), and no others. The returned number is the number of reports made, and it is zero exactly when no added glob matches. A glob may be reported more than once for one string.',
 ['inputs','histories'],'every set of globs in every insertion order, and every subject string',
 'Batch tests fix one 13-glob set; which tree nodes are shared, and whether a glob that is a prefix of another one is still reported, depends on the whole set.',
 ['glob/tree.go','pkg/items/tree.go','pkg/items/store.go'],
 [('tree construction with shared items','glob/tree.go addGlob'),('tree walk','pkg/items/tree.go TreeItem.Match, match, matchStar, matchItemsInTree, matchStarItemsInTree')],
 ['GlobTree.Match and the calls to Store.Store'],
 [('TreeItem.Terminated','glob ending at this tree node','pkg/items/store.go')])

p('C04','A dotted-glob tree reports each matching dotted glob exactly once',
 'After any sequence of successful additions, matching a path against the tree of dotted globs reports to the collector exactly the dotted globs that match the path when taken one by one, each exactly once with its normalised text and its index, and returns their number. Matching the split path gives the same reports as matching the joined one.',
 ['inputs','histories'],'every set of dotted globs in every insertion order, and every path without empty nodes, joined or split (and joined paths with them)',
 'Batch tests use fixed pattern files and check counts; sharing of literal and wildcard nodes between globs depends on the whole set.',
 ['gglob/gtree.go','gglob/gglob.go','glob/glob.go'],
 [('per-level tree, literal children by map, wildcard children by scan','gglob/gtree.go addGGlob, MatchItems, MatchItemsByParts')],
 ['GGlobTree.Match, MatchByParts and the calls to Store.Store'])

p('C05','A seriesByTag query is the conjunction of its terms',
 'A parsed tag query matches a set of tags if and only if every term holds: `=` and `!=` compare the tag value with a literal or glob, `=~` and `!=~` search it with a regular expression, the key `name` means the metric name, and a tag that is absent satisfies exactly the negated terms. Evaluating against a tag map and against the tag list in canonical order (metric name first, other keys ascending) gives the same verdict.',
 ['inputs'],'every query accepted by the parser and every tag set, including sets that lack the keys of the query and the empty set',
 'Tests check each operator against a few tag sets; combinations of several terms per key, absent keys before present ones, and glob/regexp values are not covered (a negated term on an absent tag hid all later tags).',
 ['gtags/tagged_term.go'],
 [('term evaluation','gtags/tagged_term.go TaggedTerm.Match'),('conjunction over map / sorted slice','gtags/tagged_term.go TaggedTermList.MatchByTagsMap, MatchByTags')],
 ['TaggedTermList.MatchByTags','TaggedTermList.MatchByTagsMap','TaggedTerm.Match'])

p('C06','A tag-query tree reports each matching query exactly once',
 'After any sequence of successful additions, matching a tag set against the tree of tag queries reports to the collector exactly the queries that match this tag set when evaluated one by one, each exactly once with its normalised text and its index, and returns their number; this includes the query without terms, which matches everything. Matching by tag list and by tag map gives the same reports.',
 ['inputs','histories'],'every set of queries in every insertion order (added as text or as parsed terms), and every tag set',
 'Tests build small trees with a handful of keys; key insertion positions, the bounded search for a tag, and shared term prefixes depend on the whole set.',
 ['gtags/tree.go','gtags/items.go','gtags/tagged_term.go'],
 [('sorted key tree with binary search','gtags/items.go findOrAppend, find, Parse'),('tree walk','gtags/items.go MatchByTags, MatchByTagsMap')],
 ['GTagsTree.MatchByTags, MatchByTagsMap and the calls to Store.Store'])

p('C07','Tag queries have one canonical, meaning-preserving text',
 'Parsing a tag query accepts exactly well-formed calls of at most 128 terms with a non-blank key, a known operator and a compilable value, and rejects everything else with an error. The canonical text of an accepted query does not depend on the order of its terms, on the kind of quotes or on the spaces around keys, operators and terms; it lists the metric name first and the other keys ascending; and parsing the canonical text gives a query with the same canonical text and the same verdict on every tag set.',
 ['inputs'],'every query text: term permutations, spacing, both kinds of quotes, values with quotes, commas, braces, tildes, spaces and parentheses, and malformed texts',
 'Tests compare a few parsed queries with literals; equivalence of all spellings and re-parsing of the canonical form are statements over pairs of inputs.',
 ['gtags/tagged_term.go'],
 [('argument scanner','gtags/tagged_term.go seriesByTagArgs, parseString'),('term parser and sort','gtags/tagged_term.go ParseTaggedConditions'),('canonical writer','gtags/tagged_term.go WriteString')],
 ['ParseSeriesByTag','ParseTaggedConditions','TaggedTermList.String'])

p('C08','The normalised text of a glob means the same and is stable',
 'The normalised text of a compiled glob (or dotted glob) is itself a well-formed glob which matches exactly the same strings (paths), and normalising it again changes nothing. Two spellings that differ only in the order or repetition of the alternatives of a list, in the order, overlap or splitting of the ranges of a class, in a run of stars, or in an interleaving of neighbouring `*` and `?` have the same normalised text. The original text is kept unchanged next to it.',
 ['inputs'],'every well-formed glob and dotted glob',
 'Tests pin the normal form of single examples; meaning preservation is a statement about every subject, and stability about every glob (`[*]` and `{a*}` used to change meaning).',
 ['glob/glob.go','gglob/gglob.go','pkg/items/wildcard.go','pkg/items/stringlist.go','pkg/utils/asciiset.go','pkg/utils/runesranges.go'],
 [('merging of neighbouring items','glob/glob.go Parse, pkg/items/items.go AppendItem'),('sorted, deduplicated lists and merged ranges','pkg/items/stringlist.go ListExpand, pkg/utils/runesranges.go RunesRangeMerge')],
 ['Glob.Node/String','Glob.Raw','GGlob.Node'])

p('C09','Malformed globs are rejected, well-formed ones accepted',
 'Compiling a glob fails with an error if and only if it has an unclosed `[` or `{`, a `]` or `}` without its opening bracket, a list opened inside a list, or a class range that is reversed or joins characters of different encoded lengths; a dotted glob also fails if any node fails or is empty (one trailing dot aside). The same texts are accepted and rejected when they are added to a tree or used as the value of a tag term, and the variants that promise success panic exactly when the others return an error.',
 ['inputs'],'every glob text (valid UTF-8, every hyphen in a class at its ends or joining two characters)',
 'Tests list a few malformed globs; which fast path sees the text first depends on its shape.',
 ['glob/glob.go','gglob/gglob.go','pkg/items/wildcard.go','pkg/items/errors.go','pkg/utils/runesranges.go'],
 [('bracket checks','glob/glob.go Parse, pkg/items/wildcard.go NextWildcardItem'),('range checks','pkg/utils/runesranges.go RunesRangeExpand')],
 ['glob.Parse','glob.ParseMust','gglob.Parse','gglob.ParseMust','GlobTree.Add','GGlobTree.Add','gtags.ParseSeriesByTag'])

p('C10','Trees keep exact books of what was added under which index',
 'Adding to any of the three trees a valid pattern whose text and normalised text are new, under a non-negative index that is free, succeeds, returns the normalised text and the index, and records the pattern (both spellings) and the index. Otherwise the addition is refused with the error for its cause: a negative index, a pattern already present in either spelling (returning the index under which it is present), an index in use (returning the pattern which uses it), or a syntax error; adding an empty pattern does nothing. Adding a text and adding the pattern compiled from it leave the same books (a trailing dot of a dotted glob aside; a parsed tag query has only its canonical text).',
 ['histories','inputs'],'every sequence of additions of texts and of compiled patterns, with fresh, repeated, respelled, malformed and empty patterns and fresh, reused and negative indexes',
 'Tests add fixed sets with consecutive indexes; refusals and their combinations (new text with used index, respelling of an earlier glob, compiled pattern) depend on the history.',
 ['glob/tree.go','gglob/gtree.go','gtags/tree.go'],
 [('Add and AddGlob/AddTerms','glob/tree.go, gglob/gtree.go, gtags/tree.go')],
 ['return values of Add, AddGlob, AddTerms; the Globs/GlobsIndex, Queries/QueryIndex tables'],
 [('Globs, Queries','text to index','glob/tree.go, gglob/gtree.go, gtags/tree.go'),('GlobsIndex, QueryIndex','index to normalised text','same')])

p('C11','Only the set of accepted additions determines what a tree reports',
 'What a tree (of globs, dotted globs or tag queries) reports for a subject is determined by the set of additions that were accepted: it does not depend on the order of the additions, on refused additions in between, or on matches performed earlier or in between. An addition takes effect for every later match and never withdraws or alters the reports of a pattern added before.',
 ['histories','inputs'],'every interleaving of accepted additions, refused additions and matches',
 'Tests add everything first and then match; no test interleaves, reorders or injects refused additions.',
 ['glob/tree.go','gglob/gtree.go','gtags/tree.go','gtags/items.go','pkg/items/tree.go'],
 [('incremental tree construction','glob/tree.go addGlob, gglob/gtree.go addGGlob, gtags/items.go Parse/findOrAppend')],
 ['reports of Match between additions, against trees built in another order'])

p('C12','Tagged paths decode to their tags, alike in all variants',
 'A tagged path in the Graphite form (`name;k=v;...`) or in the URL form (`name?k=v&...`) decodes to the metric name and its unescaped keys and values in order, and encoding a tag set with query escaping and decoding the path gives the tag set back. The list, map and reused-map variants return the same tags and agree on whether the path is an error, a reused map keeps nothing of its previous content, and a path without tag separator, with `=` in the name, or with a trailing piece without `=` is an error.',
 ['inputs'],'every tag set (any bytes) and every path text',
 'Tests decode a few well-formed paths; escaping of separators, duplicate keys, missing pieces and reuse of a dirty map are not sampled.',
 ['gtags/tagged_term.go','pkg/escape/unescape.go'],
 [('path scanners','gtags/tagged_term.go PathTags, PathTagsMap, PathTagsMapB, GraphitePathTags, GraphitePathTagsMap, GraphitePathTagsMapB, NextTag, GraphiteNextTag')],
 ['the six path decoders','TagsMap'])

p('C13','Escaping is lossless and follows URL rules',
 'Query escaping equals standard URL query escaping and path escaping leaves only unreserved characters and `$&+,/:;=@` as they are, so that URL unescaping of the result (query or path unescaping, respectively) gives the original bytes; unescaping a text equals standard URL query unescaping whenever that succeeds, and copies malformed escapes instead of failing. The variants that use a buffer produce exactly the text of the plain variants and keep what the buffer held before.',
 ['inputs'],'every byte string, of every length, and every buffer content',
 'Tests unescape a few strings and never escape; lengths around the stack buffer and escapes at the last position are not sampled (a trailing character was lost).',
 ['pkg/escape/escape.go','pkg/escape/url.go','pkg/escape/unescape.go'],
 [('escape/escapeTo','pkg/escape/url.go'),('unescape','pkg/escape/unescape.go')],
 ['escape.Query, QueryTo, Path, PathTo, Unescape, UnescapeTo, UnescapeNameTo'])

p('C14','Unlimited expansion is the ordered product and preserves the language',
 'Expanding an expression without limits returns, in order with the leftmost expression varying slowest, every combination of one alternative of each list (in list order, duplicates kept) and one character of each class (ascending, without duplicates) with the text between them. Expansion stops at the first `*`, `?` or unbalanced or nested bracket: from there to the last wildcard character the text is kept verbatim, as is a class that is not a valid range. A list or class with a single alternative counts as plain text, and for a well-formed glob (whose classes do not span wildcard characters) the strings matched by the results together are exactly the strings matched by the glob.',
 ['inputs'],'every expression whose product is finite and small enough to be listed',
 'Tests list the expansion of a few tens of expressions; order and completeness are statements over all combinations.',
 ['expand/expand.go','expand/expression.go','expand/runes.go'],
 [('expression scanner','expand/expand.go ParseExpr, getPair'),('recursive product','expand/expand.go expand, expand/expression.go appendNext')],
 ['expand.Expand(in, -1, 0)','ParseExpr(in).Expand'])

p('C15','Expansion limits hold and only coarsen the result',
 'With a positive result limit the expansion expands expressions from the left only as long as the number of combinations stays within the limit and keeps the rest of the text verbatim, so it never returns more strings than the limit and with limit 0 returns a single string; this also holds for expressions with astronomically many combinations. With a positive depth only expressions preceded by fewer than that many dots are expanded. The try variant returns a single string made of the first alternative of each expression it would have expanded; and whatever the limits, the results of the full variant together match what the expression, as a glob, matches.',
 ['inputs','configurations'],'every expression, every limit, every depth, with and without try',
 'Tests use a few limits on a few expressions; the limit is a product over the whole expression.',
 ['expand/expand.go','expand/expression.go'],
 [('running product against max, dots against depth','expand/expand.go expand'),('size hint','expand/expand.go Expressions.Expand')],
 ['expand.Expand, expand.ExpandTry, Expressions.Expand'])

p('C16','No input makes a public operation crash, hang or blow up',
 'Parsing, adding, matching, decoding, escaping, normalising, expanding (with a limit) and prefix computation return for every input byte string - a result or an error - without panicking, without looping forever and without memory growth out of proportion; only the variants documented to panic on errors may panic. This holds for texts that are not valid UTF-8, contain control characters, unbalanced brackets or separators, and for the empty text. (The matchers backtrack: a pattern with tens of stars or lists can take exponential time, a recorded finding.)',
 ['inputs','histories'],'every sequence of public operations over arbitrary byte strings of moderate length',
 'Tests feed well-formed inputs; crashes and endless loops were found for short inputs no test contained.',
 ['glob/glob.go','glob/tree.go','gglob/gglob.go','gglob/gtree.go','gglob/utils.go','gtags/tagged_term.go','gtags/items.go','gtags/tree.go','expand/expand.go','pkg/items/items.go','pkg/items/tree.go','pkg/items/utils.go','pkg/escape/url.go','pkg/escape/unescape.go','pkg/utils/runesranges.go'],
 [('error returns and bounds checks','all parsers'),('explicit panics on unsupported item flags','pkg/items/items.go, pkg/items/tree.go')],
 ['every exported entry point, under recover, a step/CPU/memory watchdog'])

p('C17','Compiled patterns and built trees are safe for concurrent readers',
 'Any number of goroutines may match against the same compiled glob, dotted glob, tag query or built tree, normalise it, draw samples from it, and compile, expand or decode other texts at the same time, each with its own collector, without data races, and every one of them gets exactly the answers a single goroutine would get. This includes the very first matches after compilation or building.',
 ['schedules','inputs'],'every schedule of concurrent readers over shared compiled objects, and of independent compilations',
 'Tests are sequential; a lazily filled cache or shared scratch buffer is invisible to them.',
 ['glob/glob.go','glob/tree.go','gglob/gglob.go','gglob/gtree.go','gtags/tagged_term.go','gtags/tree.go','gtags/items.go','pkg/items/items.go','pkg/items/tree.go','expand/expand.go','pkg/escape/url.go'],
 [('no writes on the match paths','all Match methods'),('package-level tables read-only','pkg/escape/unescape.go unescapeSet, expand/expand.go asciiSet')],
 ['Go race detector reports','answers of concurrent calls'])

p('C18','Result collectors keep exactly what was reported to them',
 'The index and string collectors hold the reported indexes and texts in report order, the minimum collector holds the smallest reported index or -1 if nothing was reported since it was created or reset, and the combined collector behaves as the three together. Resetting empties a collector for reuse, growing makes room for that many reports and changes nothing else, and contents read before are not altered by later reports other than by reuse after a reset.',
 ['histories'],'every sequence of create, report, grow, reset on every collector, with any order of indexes',
 'Tests use each collector for one match; index order, reuse after reset, and growth in the middle are not covered.',
 ['pkg/items/store.go'],
 [('Store, Init, Grow','pkg/items/store.go')],
 ['MinStore.Min, IndexStore.N, StringStore.S, AllStore'])

p('C19','A generated sample of a glob is matched by it',
 'Every random sample that a compiled glob, or one node of a dotted glob, writes is matched by this glob. Writing a sample appends to the buffer without disturbing what it held, and non-empty samples of the nodes can be joined with dots into a path matched by the dotted glob.',
 ['inputs','schedules'],'every well-formed glob that matches some non-empty text, and every outcome of the random choices',
 'Only benchmarks use the sampler; nothing checks that a sample matches (it lacked prefix and suffix, and crashed on classes).',
 ['glob/glob.go','pkg/items/runesranges.go','pkg/items/stringlist.go','pkg/items/group.go','pkg/items/chain.go','pkg/items/star.go','pkg/items/any.go'],
 [('WriteRandom','glob/glob.go and pkg/items/*')],
 ['Glob.WriteRandom, then Glob.Match'])

p('C20','Character classes behave as sets of characters',
 'A character class, built from its text or by adding characters, contains exactly the characters that were listed, however its ranges overlap, touch, repeat or are ordered. Searching, prefix and suffix tests on strings and byte slices find the first (last) contained character at its true position and width, also behind invalid bytes, and its text denotes the same set and is the same for equal sets.',
 ['inputs'],'every class text and addition sequence over ASCII and Unicode, and every subject',
 'Tests check a few classes; boundaries of the merged ranges, adjacency, the binary search with three or more ranges, and the ends of the ASCII range are not enumerated.',
 ['pkg/utils/runesranges.go','pkg/utils/asciiset.go','pkg/items/runesranges.go'],
 [('bitmap and sorted ranges','pkg/utils/asciiset.go, pkg/utils/runesranges.go RunesRangeMerge, ContainsUnicode')],
 ['utils.RunesRangeExpand, RunesRanges.Contains/Index/IndexByte/StartsWith/EndsWith/String/Equal, Add/Adds/Merge, ASCIISet methods, items.NewRunesRanges'])

p('C21','Length bounds of a glob are sound',
 'No string shorter in bytes than the reported minimum length or longer than the reported maximum length (where -1 means unlimited) is in the language of a compiled glob, and no path outside the bounds of a dotted glob is in its language. The bounds are never contradictory, and a glob without wildcards has its own length as both bounds (for a dotted one, as the maximum).',
 ['inputs'],'every well-formed glob and dotted glob',
 'Tests pin the bounds of single examples; soundness is a statement about the longest and shortest member of the language (a list element with a star had a finite maximum, dots were not counted).',
 ['glob/glob.go','gglob/gglob.go','pkg/items/chain.go','pkg/items/group.go','pkg/items/stringlist.go','pkg/items/any.go','pkg/items/star.go','pkg/items/runesranges.go','pkg/items/utils.go'],
 [('sums of item bounds','glob/glob.go Parse, gglob/gglob.go Parse, pkg/items/utils.go AddMaxLen')],
 ['Glob.MinLen/MaxLen, GGlob.MinLen/MaxLen, Item.MinLen/MaxLen'])

p('C22','The common prefix of globs is their longest shared literal prefix',
 'The common prefix computed for a list of globs is the longest text, made of whole characters and free of wildcard characters, with which every glob of the list begins; it is empty for an empty list and does not depend on the order of the list. The wildcard helpers report the presence, first and last position of the wildcard characters of a text, and the number of those that open or stand for something (closing brackets are not counted).',
 ['inputs'],'every list of texts (valid UTF-8)',
 'No test calls it; it compared the first glob with itself.',
 ['pkg/items/utils.go','gglob/utils.go'],
 [('prefix scan','pkg/items/utils.go IntersectGlobs'),('wildcard helpers','pkg/items/utils.go, gglob/utils.go')],
 ['items.IntersectGlobs, HasWildcard, IndexWildcard, IndexLastWildcard, WildcardCount'])

p('C23','Operations leave their inputs alone and repeat exactly',
 'Matching, decoding, expanding, escaping and normalising never modify the arguments they are given (path parts, tag lists and maps, condition lists, lists of globs, byte slices), and matching never modifies the pattern: repeating an operation on the same object gives the same answer, whatever other operations ran in between (or inside the collector of a match that is still running), also for a parsed expansion used again with other limits. Results handed out earlier (strings, lists, maps, classes) do not change later, and a caller who changes a list, map, class or text item of his own results changes no other answer.',
 ['histories','inputs'],'every sequence of operations on shared objects and arguments',
 'Tests use each object once and never compare arguments afterwards (a parsed expansion gave other answers after a try).',
 ['expand/expand.go','expand/expression.go','gtags/tagged_term.go','gglob/gglob.go','gglob/utils.go','pkg/items/items.go','pkg/escape/unescape.go','pkg/utils/string.go'],
 [('value semantics, buffer reuse in Expressions','expand/expand.go'),('unsafe string conversion','pkg/utils/string.go')],
 ['arguments and earlier results before and after each operation'])

p('C24','The items of a glob keep the contract of the item interface',
 'For every item a glob compiles to: searching finds its first occurrence in a string with its length (for a list: of each value), and matching at the start or at the end of a string succeeds exactly if the string begins or ends with a member, giving the position behind it or before it; a character is a code point or one invalid byte. The length bounds enclose every member. The text is appended to a buffer and returned, and compiles to an item with the same text again; two items are equal exactly if they have the same kind and text. Taking the next item off a glob leaves exactly the rest of the text, and skipping a number of characters from either end of a string gives the byte position, or -1 if there are fewer.',
 ['inputs'],'every item text and every string',
 'The items are the building blocks of all matchers and trees (equality decides which globs share a tree node); tests reach them through whole globs only, and no test calls the searches from the end.',
 ['pkg/items/items.go','pkg/items/wildcard.go','pkg/items/byte.go','pkg/items/rune.go','pkg/items/string.go','pkg/items/any.go','pkg/items/star.go','pkg/items/runesranges.go','pkg/items/stringlist.go','pkg/items/group.go','pkg/items/chain.go','pkg/utils/string.go'],
 [('Item and ItemList','pkg/items/items.go'),('NextWildcardItem','pkg/items/wildcard.go'),('StringSkipRunes, StringSkipRunesLast','pkg/utils/string.go')],
 ['items.NextWildcardItem, AppendItem, Item and ItemList methods, utils.StringSkipRunes/StringSkipRunesLast'])

for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
