From 735ca78e6a582379fed7f55b6316f1955ce1fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:47 +0000
Subject: [PATCH 01/50] fix: a one-element list with wildcards is not a literal

{a*} and {?} were turned into the literal strings 'a*' and '?'.
---
 pkg/items/stringlist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/items/stringlist.go b/pkg/items/stringlist.go
index 374140c..c111fd8 100644
--- a/pkg/items/stringlist.go
+++ b/pkg/items/stringlist.go
@@ -226,6 +226,9 @@ func NewItemList(vals []string) (item Item, err error) {
 		if vals[0] == "" {
 			return nil, nil
 		}
+		if HasWildcard(vals[0]) {
+			return NewGroup(vals)
+		}
 		// one item optimization
 		c, n := utf8.DecodeRuneInString(vals[0])
 		if n == len(vals[0]) {
-- 
2.43.0


From 8d76581842a0bd76b2c4e1a75dc32e607b173e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 02/50] fix: a class of one wildcard symbol is a literal symbol

[*] was normalized to *, which matched everything; also [?] and [{]
normalized to a glob with another meaning.
---
 pkg/items/wildcard.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/items/wildcard.go b/pkg/items/wildcard.go
index ced7e7f..86a21b7 100644
--- a/pkg/items/wildcard.go
+++ b/pkg/items/wildcard.go
@@ -30,7 +30,8 @@ func NextWildcardItem(s string) (item Item, next string, err error) {
 			return nil, next, nil
 		}
 		if len(runes.UnicodeRanges) == 0 {
-			if n == 1 {
+			// a class of one wildcard symbol ([*]) must stay a class: written as a plain symbol, it is a wildcard again
+			if n == 1 && !HasWildcard(string(rune(c))) {
 				return Byte(c), next, nil
 			}
 		}
-- 
2.43.0


From 3c51aa44b01623e33a58780d727a8bb59712727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 03/50] fix: a star followed by a list element starting with a
 star

The second star (as in *{*b,c}) skipped one symbol more than it must,
ignored its minimum (*{*?,b}) and matched only the empty rest when last.
---
 pkg/items/items.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index c4894fa..4e85eaa 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -312,8 +312,8 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 	)
 	if len(items) == 0 {
 		if nextItems == nil || nextItems.IsEmpty() {
-			matched = s == ""
-			abortGready = true
+			// nothing after Star, the rest is matched
+			matched = true
 			return
 		} else {
 			items, nextItems = nextItems.Next()
@@ -461,19 +461,12 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 		case FindForwarded:
 			panic("forwarded match")
 		case FindStar:
-			if len(items) == 1 {
-				if nextItems == nil || nextItems.IsEmpty() {
-					matched = true
-					return
-				} else {
-					items, nextItems := nextItems.Next()
-					if matched, _ = matchStarItems(s, items, nextItems); matched {
-						return
-					}
-				}
+			if length == -1 {
+				// too short
+				abortGready = true
+				return
 			}
-			items = items[1:]
-			// continue
+			return matchStarItems(s[length:], items[1:], nextItems)
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
 		}
-- 
2.43.0


From 69353de91ae9fa7a4553b146f5984845859fb2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 04/50] fix: panic on a star followed by a list with a question
 mark

*{?,ab} and *{a,}? panicked in Match with 'forwarded match'.
---
 pkg/items/items.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index 4e85eaa..67916f0 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -343,7 +343,8 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 		s = s[offset:]
 
 		switch flag {
-		case FindDone:
+		case FindDone, FindForwarded:
+			// ? can start in any position, like a other items
 			sub := s[length:]
 			if matched, abortGready = matchItems(sub, items[1:], nextItems); matched || abortGready {
 				return
@@ -458,8 +459,6 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 			return
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
 		case FindStar:
 			if length == -1 {
 				// too short
-- 
2.43.0


From dc64bd8bae9fffa528042a8ab0b6b0ec73bd9ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 05/50] fix: skipped positions of a list after a star

The scan was continued from the last found element instead of the first
one, so *{a,b}c* missed axxacxxb.
---
 pkg/items/items.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index 67916f0..d54f984 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -386,7 +386,7 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 						// TODO: skip on next scan ?
 						continue
 					}
-					if offset == -1 || offset < offsetN {
+					if offset == -1 || offset > offsetN {
 						offset = offsetN
 					}
 					s := s[offsetN+length:]
-- 
2.43.0


From af6e777eb2cf77f442ef3c3fd76386ae3fd73563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 06/50] fix: max length of a list element with a star inside

a star made the size -1 and the next item was added to it, so
{a*bcd,x} did not match axxbcd (too long).
---
 pkg/items/chain.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/items/chain.go b/pkg/items/chain.go
index b727ea7..76badf3 100644
--- a/pkg/items/chain.go
+++ b/pkg/items/chain.go
@@ -22,11 +22,7 @@ func (item *Chain) Equal(a Item) bool {
 
 func (c *Chain) Append(item Item) {
 	c.MinSize += item.MinLen()
-	if l := item.MaxLen(); l == -1 {
-		c.MaxSize = -1
-	} else {
-		c.MaxSize += l
-	}
+	c.MaxSize = AddMaxLen(c.MaxSize, item.MaxLen())
 	c.Items = AppendItem(c.Items, item)
 }
 
-- 
2.43.0


From fd900b7779282e0dc70751b72f55b881b5497bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 07/50] fix: search of a runes range stops at an invalid byte,
 IndexByte loops
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Index and IndexByte gave up at the first invalid UTF-8 byte, so *[aЯ]* did not
match it followed by a; IndexByte never moved past a non-matching ASCII byte.
---
 pkg/utils/runesranges.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index aa9a15a..f88319c 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -270,12 +270,10 @@ func (rs *RunesRanges) IndexByte(b []byte) (pos int, c rune, n int) {
 			if rs.ASCII.Contains(b[i]) {
 				return i, rune(b[i]), 1
 			}
+			i++
 		} else {
 			c, n = utf8.DecodeRune(b[i:])
-			if c == utf8.RuneError {
-				return -1, utf8.RuneError, 0
-			}
-			if rs.ContainsUnicode(c) {
+			if c != utf8.RuneError && rs.ContainsUnicode(c) {
 				pos = i
 				return
 			}
@@ -304,10 +302,7 @@ func (rs *RunesRanges) Index(s string) (pos int, c rune, n int) {
 			i++
 		} else {
 			c, n = utf8.DecodeRuneInString(s[i:])
-			if c == utf8.RuneError {
-				return -1, utf8.RuneError, 0
-			}
-			if rs.ContainsUnicode(c) {
+			if c != utf8.RuneError && rs.ContainsUnicode(c) {
 				pos = i
 				return
 			}
-- 
2.43.0


From a6afd1ca002abf1e7b595314653e89de09ecb9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 08/50] fix: last symbol offset of a byte and of an ascii class

Byte.MatchLast panicked on an empty string and returned 0 for a match,
RunesRanges.EndsWith returned 1, while a unicode symbol or a string return the
offset of the matched suffix.
---
 pkg/items/byte.go        | 4 ++--
 pkg/utils/runesranges.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/items/byte.go b/pkg/items/byte.go
index 2367cd6..dc43739 100644
--- a/pkg/items/byte.go
+++ b/pkg/items/byte.go
@@ -72,8 +72,8 @@ func (item Byte) Match(s string) (offset int, support FindFlag) {
 }
 
 func (item Byte) MatchLast(s string) (offset int, support FindFlag) {
-	n := len(s) - 1
-	if c := s[n]; c != byte(item) {
+	offset = len(s) - 1
+	if offset >= 0 && s[offset] != byte(item) {
 		offset = -1
 	}
 	return
diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index f88319c..5d1d129 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -351,7 +351,7 @@ func (rs *RunesRanges) EndsWith(s string) (c rune, n int) {
 	// detect ASCII
 	if c < utf8.RuneSelf {
 		if rs.ASCII.Contains(byte(c)) {
-			return c, 1
+			return c, len(s) - 1
 		} else {
 			return utf8.RuneError, -1
 		}
-- 
2.43.0


From 254460df25a29997a59df978060381dfb1180009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 09/50] fix: string of an ascii set with a range up to the last
 symbol

A range ended at 0x7f was written as its first symbol only, and StringAll lost
the last symbol.
---
 pkg/utils/asciiset.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/utils/asciiset.go b/pkg/utils/asciiset.go
index 6e9ef9b..2b09616 100644
--- a/pkg/utils/asciiset.go
+++ b/pkg/utils/asciiset.go
@@ -34,6 +34,10 @@ func (ac *ASCIISet) WriteString(buf *strings.Builder) {
 		}
 		if start != 0 {
 			buf.WriteByte(start)
+			if i > start+1 {
+				buf.WriteByte('-')
+				buf.WriteByte(i - 1)
+			}
 		}
 	}
 }
@@ -78,7 +82,7 @@ func (ac *ASCIISet) String() string {
 
 func (ac *ASCIISet) WriteStringAll(buf *strings.Builder) {
 	var i byte
-	for i = 1; i < 127; i++ {
+	for i = 1; i <= 127; i++ {
 		if ac.Contains(i) {
 			buf.WriteByte(i)
 		}
-- 
2.43.0


From d298796b71ccf52b341cddc31d86cf0911e174a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 10/50] fix: ascii sets lose the zero symbol

Count, String and StringAll started from 1, so a class with the zero symbol
was written, and matched, without it.
---
 pkg/utils/asciiset.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/pkg/utils/asciiset.go b/pkg/utils/asciiset.go
index 2b09616..3d5d863 100644
--- a/pkg/utils/asciiset.go
+++ b/pkg/utils/asciiset.go
@@ -17,26 +17,21 @@ type ASCIISet [8]uint32
 
 func (ac *ASCIISet) WriteString(buf *strings.Builder) {
 	if !ac.IsEmpty() {
-		var start, i byte
-		for i = 1; i <= 127; i++ {
+		var i byte
+		start := -1
+		// 128 is never contained, so a range up to the last symbol is closed too
+		for i = 0; i <= 128; i++ {
 			if ac.Contains(i) {
-				if start == 0 {
-					start = i
+				if start == -1 {
+					start = int(i)
 				}
-			} else if start != 0 {
-				buf.WriteByte(start)
-				if i > start+1 {
+			} else if start != -1 {
+				buf.WriteByte(byte(start))
+				if int(i) > start+1 {
 					buf.WriteByte('-')
 					buf.WriteByte(i - 1)
 				}
-				start = 0
-			}
-		}
-		if start != 0 {
-			buf.WriteByte(start)
-			if i > start+1 {
-				buf.WriteByte('-')
-				buf.WriteByte(i - 1)
+				start = -1
 			}
 		}
 	}
@@ -49,13 +44,13 @@ func (ac *ASCIISet) IsEmpty() bool {
 
 func (ac *ASCIISet) Count() (n int, first byte) {
 	if !ac.IsEmpty() {
-		var i byte = 1
+		var i byte
 		for ; i <= 127; i++ {
 			if ac.Contains(i) {
-				n++
-				if first == 0 {
+				if n == 0 {
 					first = i
 				}
+				n++
 			}
 		}
 	}
@@ -82,7 +77,7 @@ func (ac *ASCIISet) String() string {
 
 func (ac *ASCIISet) WriteStringAll(buf *strings.Builder) {
 	var i byte
-	for i = 1; i <= 127; i++ {
+	for i = 0; i <= 127; i++ {
 		if ac.Contains(i) {
 			buf.WriteByte(i)
 		}
-- 
2.43.0


From 9d0f816ad0920931ac9c66b8da91aa6c78882fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 11/50] fix: random string of a runes range

WriteRandom panicked without unicode ranges, and wrote all of ascii symbols
before a unicode one, instead of one symbol.
---
 pkg/items/runesranges.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pkg/items/runesranges.go b/pkg/items/runesranges.go
index 6ebefdf..204bc40 100644
--- a/pkg/items/runesranges.go
+++ b/pkg/items/runesranges.go
@@ -28,15 +28,27 @@ func (item *RunesRanges) Equal(a Item) bool {
 }
 
 func (item *RunesRanges) WriteRandom(buf *strings.Builder) {
-	if !item.ASCII.IsEmpty() {
-		var i byte
-		for i = 1; i < 128; i++ {
-			if item.ASCII.Contains(i) {
+	// one symbol must be written
+	ascii, _ := item.ASCII.Count()
+	n := ascii + len(item.UnicodeRanges)
+	if n == 0 {
+		return
+	}
+	n = rand.Intn(n)
+	if n >= ascii {
+		buf.WriteRune(item.UnicodeRanges[n-ascii].First)
+		return
+	}
+	var i byte
+	for i = 0; i < 128; i++ {
+		if item.ASCII.Contains(i) {
+			if n == 0 {
 				buf.WriteByte(i)
+				return
 			}
+			n--
 		}
 	}
-	buf.WriteRune(item.UnicodeRanges[rand.Intn(len(item.UnicodeRanges))].First)
 }
 
 func (item *RunesRanges) WriteString(buf *strings.Builder) string {
-- 
2.43.0


From 70ff8aaea7bdf5a109a417ae727b92c536f7ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 12/50] fix: random string of a glob without its prefix and
 suffix

---
 glob/glob.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glob/glob.go b/glob/glob.go
index 417d2c9..39a80b3 100644
--- a/glob/glob.go
+++ b/glob/glob.go
@@ -25,9 +25,11 @@ func (g *Glob) WriteRandom(buf *strings.Builder) {
 	if len(g.Items) == 0 {
 		buf.WriteString(g.Node)
 	} else {
+		buf.WriteString(g.Prefix)
 		for i := 0; i < len(g.Items); i++ {
 			g.Items[i].WriteRandom(buf)
 		}
+		buf.WriteString(g.Suffix)
 	}
 
 }
-- 
2.43.0


From f052b852c1bd4955a565652da57b92bcb906d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 13/50] fix: max length of a dotted glob without dots

gglob.Parse("a.b").Match("a.b") was false: MaxLen is compared with the length
of a path, but was a sum of lengths of its parts.
---
 gglob/gglob.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index 6e5b4cc..c8bc7dd 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -114,6 +114,11 @@ func Parse(s string) (gg *GGlob, err error) {
 	}
 	gg.Node = buf.String()
 
+	if len(gg.Parts) > 1 {
+		// dots are counted in the path length too
+		gg.MaxLen = items.AddMaxLen(gg.MaxLen, len(gg.Parts)-1)
+	}
+
 	return
 }
 
-- 
2.43.0


From 7aea238ee67875a0fa4abed61e1ee46ff7b912ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 14/50] fix: a plain string in a glob tree never matched

addGlob added nothing to the tree for a glob without wildcards and marked the
root item as terminated.
---
 glob/tree.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/glob/tree.go b/glob/tree.go
index a1c347b..4fd36c3 100644
--- a/glob/tree.go
+++ b/glob/tree.go
@@ -15,6 +15,17 @@ var (
 func addGlob(rootTree *items.TreeItem, gg *Glob, index int) *items.TreeItem {
 	treeItem := rootTree
 
+	if len(gg.Items) == 0 {
+		// plain string
+		node := items.NewString(gg.Node)
+		newItem := items.LocateChildTreeItem(treeItem.Childs, node, false)
+		if newItem == nil {
+			newItem = &items.TreeItem{Item: node}
+			treeItem.Childs = append(treeItem.Childs, newItem)
+		}
+		treeItem = newItem
+	}
+
 	if gg.Suffix != "" {
 		node := items.NewString(gg.Suffix)
 		newItem := items.LocateChildTreeItem(treeItem.Childs, node, true)
-- 
2.43.0


From 159f88b815fdb10888c56c37f9ea19e6cc8e0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 15/50] fix: AddGlob registered an empty string instead of a
 glob

The duplicate index lookup overwrote the normalized glob, so AddGlob returned
and recorded an empty one (and a second AddGlob failed to detect a duplicate).
GGlobTree.AddGlob records the raw glob also, like Add.
---
 gglob/gtree.go | 8 +++++---
 glob/tree.go   | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/gglob/gtree.go b/gglob/gtree.go
index 4db72ae..3f3b260 100644
--- a/gglob/gtree.go
+++ b/gglob/gtree.go
@@ -222,15 +222,17 @@ func (gtree *GGlobTree) AddGlob(g *GGlob, index int) (normalized string, n int,
 		return
 	}
 
-	if normalized, ok = gtree.GlobsIndex[index]; ok {
+	var exist string
+	if exist, ok = gtree.GlobsIndex[index]; ok {
 		err = glob.ErrIndexDup
+		normalized = exist
 		return
 	}
 
 	addGGlob(gtree.Root, g, index)
 
-	gtree.Globs[g.Node] = index
-	if normalized != g.Node {
+	gtree.Globs[g.Glob] = index
+	if normalized != g.Glob {
 		gtree.Globs[normalized] = index
 	}
 	gtree.GlobsIndex[index] = normalized
diff --git a/glob/tree.go b/glob/tree.go
index 4fd36c3..44acd02 100644
--- a/glob/tree.go
+++ b/glob/tree.go
@@ -155,8 +155,10 @@ func (gtree *GlobTree) AddGlob(g *Glob, index int) (normalized string, n int, er
 		return
 	}
 
-	if normalized, ok = gtree.GlobsIndex[index]; ok {
+	var exist string
+	if exist, ok = gtree.GlobsIndex[index]; ok {
 		err = ErrIndexDup
+		normalized = exist
 		return
 	}
 
-- 
2.43.0


From a3c8d994b8b4909866b79068a65c8d40150dffbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 16/50] fix: terms, added to a tags tree with AddTerms, never
 matched

AddTerms did not terminate the last item, and the duplicate index lookup
overwrote the normalized query, so an empty one was returned and recorded.
---
 gtags/tree.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gtags/tree.go b/gtags/tree.go
index fbc765f..bd86d49 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -95,8 +95,10 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 		err = glob.ErrGlobExist
 		return
 	}
-	if normalized, ok = gtree.QueryIndex[index]; ok {
+	var exist string
+	if exist, ok = gtree.QueryIndex[index]; ok {
 		err = glob.ErrIndexDup
+		normalized = exist
 		return
 	}
 
@@ -105,7 +107,10 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 			Terminate: true, Index: index, Query: normalized,
 		}
 	} else {
-		gtree.Root.Parse(terms, normalized, index)
+		lastItem := gtree.Root.Parse(terms, normalized, index)
+		lastItem.Terminate = true
+		lastItem.Query = normalized
+		lastItem.Index = index
 	}
 
 	gtree.Queries[normalized] = index
-- 
2.43.0


From 6ece918c54343ceb7c36e1f2e78c3ae6c853a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 17/50] fix: a negated term on an absent tag hid the tags after
 it

A scan for an absent key moved to the end of tags, so the terms after it were
checked against no tags: seriesByTag('a!=x','b=c') did not match b=c.
---
 gtags/tagged_term.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index bd5bd34..e2ecc06 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -151,18 +151,20 @@ LOOP:
 		}
 		if term.Key != tags[i].Key {
 			// scan for tag
-			for ; i < len(tags); i++ {
-				if tags[i].Key == term.Key {
+			j := i
+			for ; j < len(tags); j++ {
+				if tags[j].Key == term.Key {
 					break
 				}
 			}
-			if len(tags) == i {
+			if len(tags) == j {
 				if term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch {
 					// != and ~=! can be skiped and key can not exist
 					continue LOOP
 				}
 				return false
 			}
+			i = j
 		}
 		if !term.Match(tags[i].Value) {
 			return false
-- 
2.43.0


From 78520dd1862e17361236ab5801bb26fc8ab4f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 18/50] fix: panic on a term with a blank key

A key of spaces only was accepted as an empty key, and the tags tree panicked on
add of a second term with it. It's rejected now, like an empty key.
---
 gtags/tagged_term.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index e2ecc06..4cca737 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -259,6 +259,9 @@ func ParseTaggedConditions(conditions []string) (terms TaggedTermList, err error
 			return nil, ErrExprInvalid{s}
 		}
 		terms[i].Key = strings.TrimSpace(s[:pos])
+		if terms[i].Key == "" {
+			return nil, ErrExprInvalid{s}
+		}
 		s = s[pos:]
 		if strings.HasPrefix(s, "=") {
 			if strings.HasPrefix(s, "=~") {
-- 
2.43.0


From ea71d7edd1f569620e445230a0a525094e0602ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 19/50] fix: ambiguous normalized seriesByTag

A value started with ~ after a space was written as a regexp, and a value with a
single quote was written in single quotes: the normalized query had an another
meaning (or was not parsed), and the tags tree took different queries as
duplicates.
---
 gtags/tagged_term.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index 4cca737..74ff54b 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -42,6 +42,10 @@ type TaggedTerm struct {
 func (t TaggedTerm) WriteString(buf *strings.Builder) {
 	buf.WriteString(t.Key)
 	buf.WriteString(t.Op.String())
+	if strings.HasPrefix(t.Value, "~") && (t.Op == TaggedTermEq || t.Op == TaggedTermNe) {
+		// delimit, or it's a regexp
+		buf.WriteByte(' ')
+	}
 	buf.WriteString(t.Value)
 }
 
@@ -108,9 +112,13 @@ func (t TaggedTermList) WriteString(buf *strings.Builder) {
 		if i > 0 {
 			buf.WriteByte(',')
 		}
-		buf.WriteByte('\'')
+		quote := byte('\'')
+		if strings.Contains(t[i].Key, "'") || strings.Contains(t[i].Value, "'") {
+			quote = '"'
+		}
+		buf.WriteByte(quote)
 		t[i].WriteString(buf)
-		buf.WriteByte('\'')
+		buf.WriteByte(quote)
 	}
 	buf.WriteString(")")
 }
-- 
2.43.0


From 32091cd755ce55aafe8a8b57d317511b4c9b1288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 20/50] fix: seriesByTag() in a tags tree

MatchByTags did not count it, and MatchByTagsMap did not report it.
---
 gtags/tree.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gtags/tree.go b/gtags/tree.go
index bd86d49..8dd1bbf 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -122,12 +122,17 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 }
 
 func (gtree *GTagsTree) MatchByTagsMap(tags map[string]string, store items.Store) (matched int) {
-	return gtree.Root.MatchByTagsMap(tags, store)
+	if gtree.Terminate {
+		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
+		matched++
+	}
+	return matched + gtree.Root.MatchByTagsMap(tags, store)
 }
 
 func (gtree *GTagsTree) MatchByTags(tags []Tag, store items.Store) (matched int) {
 	if gtree.Terminate {
 		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
+		matched++
 	}
-	return gtree.Root.MatchByTags(tags, store)
+	return matched + gtree.Root.MatchByTags(tags, store)
 }
-- 
2.43.0


From d743c4966427fd0525ffb6be39b20ba9ee22830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 21/50] fix: negated terms in a tags tree against no tags

An absent tag satisfies != and !=~, but the tree reported nothing for empty tags,
unlike TaggedTermList.
---
 gtags/items.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/gtags/items.go b/gtags/items.go
index 4bb5e3c..4ebfbe3 100644
--- a/gtags/items.go
+++ b/gtags/items.go
@@ -253,10 +253,6 @@ func (item *TaggedItem) Parse(terms TaggedTermList, query string, index int) (la
 }
 
 func (item *TaggedItem) MatchByTagsMap(tags map[string]string, store items.Store) (matched int) {
-	if len(tags) == 0 {
-		return
-	}
-
 	for i := 0; i < len(item.Items); i++ {
 		v, ok := tags[item.Items[i].Key]
 		if ok {
@@ -303,10 +299,6 @@ func (item *TaggedItem) MatchByTagsMap(tags map[string]string, store items.Store
 }
 
 func (item *TaggedItem) MatchByTags(tags []Tag, store items.Store) (matched int) {
-	if len(tags) == 0 {
-		return
-	}
-
 	matchPos := 0
 
 	for i := 0; i < len(item.Items); i++ {
-- 
2.43.0


From aa1e137593506a8a7f4cc7b0e9000085408e7eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 22/50] fix: normalized seriesByTag with spaces at the ends of
 a value

A class of one space ([ ]) is normalized to a space, which is trimmed on parse
of the normalized query. Write it (and ~ too) as a class.
---
 gtags/tagged_term.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index 74ff54b..f4647f2 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -5,6 +5,8 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/msaf1980/go-matcher/glob"
 	"github.com/msaf1980/go-matcher/pkg/escape"
@@ -42,11 +44,25 @@ type TaggedTerm struct {
 func (t TaggedTerm) WriteString(buf *strings.Builder) {
 	buf.WriteString(t.Key)
 	buf.WriteString(t.Op.String())
-	if strings.HasPrefix(t.Value, "~") && (t.Op == TaggedTermEq || t.Op == TaggedTermNe) {
-		// delimit, or it's a regexp
-		buf.WriteByte(' ')
+	if t.Op == TaggedTermEq || t.Op == TaggedTermNe {
+		writeGlobValue(buf, t.Value)
+	} else {
+		buf.WriteString(t.Value)
 	}
-	buf.WriteString(t.Value)
+}
+
+// writeGlobValue write a value, the first or the last symbol of them is written as a class ([~]), if it can't be parsed as is
+func writeGlobValue(buf *strings.Builder, v string) {
+	if c, n := utf8.DecodeRuneInString(v); c == '~' || unicode.IsSpace(c) {
+		// it's a regexp after ~, and spaces are trimmed
+		buf.WriteString("[" + v[:n] + "]")
+		v = v[n:]
+	}
+	if c, n := utf8.DecodeLastRuneInString(v); unicode.IsSpace(c) {
+		last := v[len(v)-n:]
+		v = v[:len(v)-n] + "[" + last + "]"
+	}
+	buf.WriteString(v)
 }
 
 func (t TaggedTerm) String() string {
-- 
2.43.0


From 2253de1be4225d116347bf80858de141779ce2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 23/50] fix: expand of an invalid class lost its brackets

[z-a] was returned as z-a, so the result had an another meaning.
---
 expand/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand/expression.go b/expand/expression.go
index aceba7d..6203db9 100644
--- a/expand/expression.go
+++ b/expand/expression.go
@@ -143,7 +143,7 @@ func getExpression(in string) Expression {
 			// return rune{in}
 			rs, ok := runesRangeExpand(in)
 			if !ok {
-				return Expression{typ: expWildcard, body: in}
+				return Expression{typ: expWildcard, body: orig}
 			}
 			if len(rs) == 0 {
 				return Expression{body: ""}
-- 
2.43.0


From 87dbe15d8ee9f61fbf2553af68a6fa9404106d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 24/50] fix: panic on expand of an empty list or class only

---
 expand/expand.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expand/expand.go b/expand/expand.go
index 755c61f..6b27f9a 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -241,6 +241,11 @@ func ParseExpr(in string) (e *Expressions) {
 	}
 
 	last := len(e.exps) - 1
+	if last == -1 {
+		// only empty lists or classes
+		e.exps = append(e.exps, Expression{})
+		return e
+	}
 	if e.exps[last].typ == expWildcard {
 		s := e.exps[last].body
 		pos := asciiSet.LastIndex(s) + 1
-- 
2.43.0


From b3cac0f45fe60d78078daef3a5bf4e77161b4307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 25/50] fix: repeated expand of parsed expressions after a try

Expressions kept the position after a try, so the next Expand returned next
elements (or nothing).
---
 expand/expand.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expand/expand.go b/expand/expand.go
index 6b27f9a..7761207 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -158,6 +158,7 @@ func expand(exps []Expression, result []string, count, max, depth int, try bool,
 			}
 
 			if try {
+				exps[0].reset()
 				break
 			}
 		}
-- 
2.43.0


From 3353e63124e840907c0af8df82f51f0a0c7cb045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 26/50] fix: panic on expand of a huge number of results with
 max

The result slice was preallocated for all possible results, even if they are
restricted with max (or with a try), and the count can overflow.
---
 expand/expand.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/expand/expand.go b/expand/expand.go
index 7761207..9a9b279 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -11,6 +11,9 @@ import (
 var (
 	ErrNotClosed = errors.New("expression not closed")
 
+	// max preallocated results
+	preallocMax = 65536
+
 	asciiSet = utils.MakeASCIISetMust("[]{}*?")
 )
 
@@ -91,6 +94,16 @@ func (e *Expressions) Expand(max, depth int, try bool) ([]string, error) {
 		if e.exps[i].typ == expWildcard {
 			break
 		}
+		if count > preallocMax {
+			// it's only a size hint, don't overflow
+			count = preallocMax
+			break
+		}
+	}
+	if try {
+		count = 1
+	} else if max >= 0 && count > max {
+		count = max
 	}
 
 	result := make([]string, 0, count)
-- 
2.43.0


From 56369b4bdfc1097174bb2fb2203ac9ab965dc7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 27/50] fix: expand of a class lost the zero symbol

---
 expand/runes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expand/runes.go b/expand/runes.go
index e6edd8f..4e60ec4 100644
--- a/expand/runes.go
+++ b/expand/runes.go
@@ -35,7 +35,7 @@ func runesRangeMerge(rs []runes) []runes {
 					}
 					// skip to next, merged
 					i++
-					rs[i].stop = 0
+					rs[i].stop = -1
 				} else {
 					break
 				}
@@ -44,9 +44,9 @@ func runesRangeMerge(rs []runes) []runes {
 
 		if pos != j {
 			rs[j] = rs[pos]
-			rs[pos].stop = 0
+			rs[pos].stop = -1
 		}
-		if rs[j].stop != 0 {
+		if rs[j].stop != -1 {
 			j++
 		}
 	}
-- 
2.43.0


From 408cfcf5c0c65e31ef8764e92f679e07d010e501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 28/50] fix: QueryTo and PathTo lost the last symbol after an
 escaped one

---
 pkg/escape/url.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/escape/url.go b/pkg/escape/url.go
index bedba35..bb53e93 100644
--- a/pkg/escape/url.go
+++ b/pkg/escape/url.go
@@ -182,7 +182,7 @@ func escapeTo(s string, mode encoding, sb *bytes.Buffer) {
 	if pos == 0 {
 		sb.WriteString(s)
 		return
-	} else if pos < len(s)-1 {
+	} else if pos < len(s) {
 		sb.WriteString(s[pos:])
 	}
 }
-- 
2.43.0


From e07675d71a7cb56b812a5694ff21a36787af4806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 29/50] fix: IntersectGlobs did not compare globs

It compared the first glob with itself, so the shortest length was returned.
---
 pkg/items/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/items/utils.go b/pkg/items/utils.go
index f390c17..1d54e4e 100644
--- a/pkg/items/utils.go
+++ b/pkg/items/utils.go
@@ -38,7 +38,7 @@ func IntersectGlobs(globs []string) string {
 	if len(globs) == 0 {
 		return ""
 	}
-	if len(globs) == 0 {
+	if len(globs) == 1 {
 		if pos := IndexWildcard(globs[0]); pos == -1 {
 			return globs[0]
 		} else {
@@ -57,7 +57,7 @@ func IntersectGlobs(globs []string) string {
 				// glob shortest item
 				return globs[0][:pos]
 			}
-			c, _ := utf8.DecodeRuneInString(globs[0][pos:])
+			c, _ := utf8.DecodeRuneInString(globs[i][pos:])
 			if c0 != c {
 				return globs[0][:pos]
 			}
-- 
2.43.0


From cc07e4b1feaafb92702344c6f385ac2fc551c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 30/50] fix: new AllStore lost the minimal index

Min was started from 0 and never changed before Init.
---
 pkg/items/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/store.go b/pkg/items/store.go
index d807e3d..20a732d 100644
--- a/pkg/items/store.go
+++ b/pkg/items/store.go
@@ -81,7 +81,7 @@ type AllStore struct {
 }
 
 func NewAllStore() *AllStore {
-	return &AllStore{}
+	return &AllStore{Min: MinStore{-1}}
 }
 
 func (s *AllStore) Init() {
-- 
2.43.0


From 2b6e725e2d1820a1963f72fef32e29cbfe757145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 31/50] fix: a glob in a tree is lost, if an another one
 continues it

A terminated star, or an item after a star, was not reported when it has childs:
with a* and a*b in the tree, ac was not matched by a*.
---
 pkg/items/tree.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 63a17be..d6938b9 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -155,17 +155,13 @@ func (item *TreeItem) match(s string, store Store) (matched int, abort bool) {
 	case FindForwarded:
 		panic("forwarded match")
 	case FindStar:
-		if len(item.Childs) == 0 {
-			if item.Terminate {
-				store.Store(item.Query, item.Index)
-				matched++
-			}
-			return
-		} else {
-			for i := 0; i < len(item.Childs); i++ {
-				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
-					matched += n
-				}
+		if item.Terminate {
+			store.Store(item.Query, item.Index)
+			matched++
+		}
+		for i := 0; i < len(item.Childs); i++ {
+			if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
+				matched += n
 			}
 		}
 	default:
@@ -204,14 +200,13 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 		case FindDone:
 			s := s[length:]
 
-			if s == "" && len(item.Childs) == 0 && item.Terminate {
+			if s == "" && item.Terminate {
 				store.Store(item.Query, item.Index)
 				matched++
-			} else {
-				for i := 0; i < len(item.Childs); i++ {
-					if n, _ := item.Childs[i].match(s, store); n > 0 {
-						matched += n
-					}
+			}
+			for i := 0; i < len(item.Childs); i++ {
+				if n, _ := item.Childs[i].match(s, store); n > 0 {
+					matched += n
 				}
 			}
 		case FindList:
-- 
2.43.0


From 74f3d0ab78574e18d6731c18a63c875aa3d17711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 32/50] fix: skipped positions of a list after a star in a tree

The scan was continued after the furthest of nearest positions of list values,
so *{a,bc}d did not match bcad. Continue from the nearest one.
---
 pkg/items/tree.go | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index d6938b9..956bd99 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -227,16 +227,22 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 			}
 
 			for {
-				var offsetN int
 				offset := -1
 				for i := 0; i < list.Len(); i++ {
-					if offsetN, length = list.FindN(s, i); offsetN == -1 {
-						continue
-					}
-					if offset == -1 || offset < offsetN {
+					if offsetN, _ := list.FindN(s, i); offsetN != -1 && (offset == -1 || offset > offsetN) {
 						offset = offsetN
 					}
-					s := s[offsetN+length:]
+				}
+				if offset == -1 {
+					break
+				}
+				// nearest position of any value
+				s = s[offset:]
+				for i := 0; i < list.Len(); i++ {
+					if length = list.MatchN(s, i); length == -1 {
+						continue
+					}
+					s := s[length:]
 
 					if s == "" {
 						if item.Terminate {
@@ -250,23 +256,13 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 						}
 					}
 				}
-				if offset == -1 {
-					break
-				}
-				s = s[offset:]
 				if _, length = utf8.DecodeRuneInString(s); length < 1 {
 					break
 				}
 				s = s[length:]
 			}
-			if offset == -1 {
-				break
-			}
-			s = s[offset:]
-			if _, length = utf8.DecodeRuneInString(s); length < 1 {
-				break
-			}
-			s = s[length:]
+			// list is scanned to the end
+			return
 
 		case FindGroup:
 			group := item.Item.(*Group)
-- 
2.43.0


From d669dae091968e6d144a4f49bafde4bac97d0c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 33/50] fix: endless match of a list element with a star inside
 in a tree

---
 pkg/items/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 956bd99..b50edc4 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -439,6 +439,7 @@ func (item *TreeItem) matchItemsInTree(s string, items []Item, store Store) (mat
 			} else if n, _ := item.matchStarItemsInTree(s, items[pos:], store); n > 0 {
 				matched += n
 			}
+			return
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
 		}
-- 
2.43.0


From df9a53ab29634b0c1e34f8373ffa4cce6598c29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 34/50] fix: panic on a star followed by a list with a question
 mark in a tree

---
 pkg/items/tree.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index b50edc4..ad97f66 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -492,7 +492,8 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 		s = s[offset:]
 
 		switch flag {
-		case FindDone:
+		case FindDone, FindForwarded:
+			// ? can start in any position, like a other items
 			sub := s[length:]
 			if n, _ := item.matchItemsInTree(sub, items[1:], store); n > 0 {
 				matched += n
@@ -572,8 +573,6 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
 		case FindStar:
 			if len(items) == 1 {
 				if n := item.matchStarNextTreeItem(s, store); n > 0 {
-- 
2.43.0


From 9ceec3f2f453a9de092ee56dfdbc9d4c815907ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 35/50] fix: minimal length of a star in a list element after a
 star in a tree

*{?*b,c} did not require a symbol before b.
---
 pkg/items/tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index ad97f66..d7c720d 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -574,6 +574,12 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 		case FindNotSupported:
 			panic("not supported in match")
 		case FindStar:
+			if length == -1 {
+				// too short
+				abortGready = true
+				return
+			}
+			s := s[length:]
 			if len(items) == 1 {
 				if n := item.matchStarNextTreeItem(s, store); n > 0 {
 					matched += n
-- 
2.43.0


From 7a0de9a524695d7ef8ac4a5705a753e0e428aec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 36/50] fix: panic on a question mark after a star and an
 optional list in a tree

*{,b}? panicked in matchStar.
---
 pkg/items/tree.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index d7c720d..f621bc1 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -197,7 +197,8 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 		s = s[offset:]
 
 		switch flag {
-		case FindDone:
+		case FindDone, FindForwarded:
+			// ? can start in any position, like a other items
 			s := s[length:]
 
 			if s == "" && item.Terminate {
@@ -296,8 +297,6 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
 		case FindStar:
 			if len(item.Childs) == 0 && item.Terminate {
 				store.Store(item.Query, item.Index)
-- 
2.43.0


From 5a3eb8cf1d18f07d80f5406953bbae25d682af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 37/50] fix: minimal length of a star after a star in a tree

{b*}?*b* did not require a symbol for ? before b, and a terminated star after a
star was not reported when it has childs.
---
 pkg/items/tree.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index f621bc1..edd13b3 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -298,10 +298,15 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 		case FindNotSupported:
 			panic("not supported in match")
 		case FindStar:
-			if len(item.Childs) == 0 && item.Terminate {
+			if length == -1 {
+				// too short
+				abortGready = true
+				return
+			}
+			s := s[length:]
+			if item.Terminate {
 				store.Store(item.Query, item.Index)
 				matched++
-				return
 			}
 			for i := 0; i < len(item.Childs); i++ {
 				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
-- 
2.43.0


From bc51c405df1d647c1ff84a7a02f8e0f4b44bffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 38/50] fix: normalized list with wildcards is not stable

Elements of a list were deduplicated and sorted before their normalization, so
{[b],a} was normalized to {b,a} ({a,b} on the next), {[a],a} to {a,a}: equal
globs got different normalized strings.
---
 pkg/items/stringlist.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/pkg/items/stringlist.go b/pkg/items/stringlist.go
index c111fd8..10ce1ec 100644
--- a/pkg/items/stringlist.go
+++ b/pkg/items/stringlist.go
@@ -215,6 +215,38 @@ func (item *StringList) MatchN(s string, n int) (offset int) {
 	return
 }
 
+// normalizeVals normalize values with wildcards, so the same values are not repeated and are in the same order
+func normalizeVals(vals []string) ([]string, error) {
+	changed := false
+	for i, v := range vals {
+		if HasWildcard(v) {
+			chain := NewChain()
+			for v != "" {
+				item, next, err := NextWildcardItem(v)
+				if err != nil {
+					return nil, err
+				}
+				if item != nil {
+					chain.Append(item)
+				}
+				v = next
+			}
+			if v = chain.String(); v != vals[i] {
+				if !changed {
+					changed = true
+					vals = append([]string(nil), vals...)
+				}
+				vals[i] = v
+			}
+		}
+	}
+	if changed {
+		sort.Strings(vals)
+		vals = removeDuplicated(vals)
+	}
+	return vals, nil
+}
+
 // func NewItemList return optimized version of InnerItem
 func NewItemList(vals []string) (item Item, err error) {
 	// TODO: support escape symbols
@@ -222,6 +254,9 @@ func NewItemList(vals []string) (item Item, err error) {
 	if len(vals) == 0 {
 		return
 	}
+	if vals, err = normalizeVals(vals); err != nil {
+		return
+	}
 	if len(vals) == 1 {
 		if vals[0] == "" {
 			return nil, nil
-- 
2.43.0


From df5f425e5d6b285c4a44154d3e9dfc5faf6c7447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 39/50] fix: an empty last node before the trailing dot was
 lost

a.. was parsed as a glob a, and PathSplitB split a path a.. as a, so the path was
matched by parts with a.
---
 gglob/gglob.go | 5 +++--
 gglob/utils.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index c8bc7dd..0333f86 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -88,8 +88,9 @@ func Parse(s string) (gg *GGlob, err error) {
 	gg = &GGlob{Glob: s, Parts: make([]*glob.Glob, 0, level)}
 
 	nextParts := s
-	for nextParts != "" {
-		part, nextParts, _ = strings.Cut(nextParts, ".")
+	next := s != ""
+	for next {
+		part, nextParts, next = strings.Cut(nextParts, ".")
 		if part == "" {
 			err = items.ErrNodeEmpty{s}
 			return
diff --git a/gglob/utils.go b/gglob/utils.go
index 8578b96..f82a202 100644
--- a/gglob/utils.go
+++ b/gglob/utils.go
@@ -41,8 +41,9 @@ func PathSplitB(path string, parts *[]string) (ok bool) {
 	}
 
 	var part string
-	for path != "" {
-		part, path, _ = strings.Cut(path, ".")
+	next := true
+	for next {
+		part, path, next = strings.Cut(path, ".")
 		if part == "" {
 			return
 		}
-- 
2.43.0


From 7f3f2157c669e74d211e2b687b1b0597e3ea1a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 40/50] fix: classes of neighbour symbols of different encoded
 length were merged to an invalid range

---
 pkg/utils/runesranges.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index 5d1d129..d6c0c99 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -28,7 +28,8 @@ func RunesRangeMerge(ranges []RuneRange) []RuneRange {
 		pos := i
 		if pos < n-1 {
 			for next := i + 1; next < n; next++ {
-				if ranges[pos].First == ranges[next].First || ranges[pos].Last+1 >= ranges[next].First {
+				if ranges[pos].Last >= ranges[next].First ||
+					(ranges[pos].Last+1 == ranges[next].First && utf8.RuneLen(ranges[pos].Last) == utf8.RuneLen(ranges[next].First)) {
 					if ranges[pos].Last < ranges[next].Last {
 						// merge two ranges, like [1-3 1-4] [1-3 2-5] [1-3 4-5 5-7]
 						ranges[pos].Last = ranges[next].Last
-- 
2.43.0


From 7d8e0135c19a77d7f442285d9193e8013c7f7554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 41/50] fix: a range of a class lost the replacement character

---
 pkg/utils/runesranges.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index d6c0c99..f03849a 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -274,7 +274,7 @@ func (rs *RunesRanges) IndexByte(b []byte) (pos int, c rune, n int) {
 			i++
 		} else {
 			c, n = utf8.DecodeRune(b[i:])
-			if c != utf8.RuneError && rs.ContainsUnicode(c) {
+			if (c != utf8.RuneError || n > 1) && rs.ContainsUnicode(c) {
 				pos = i
 				return
 			}
@@ -303,7 +303,7 @@ func (rs *RunesRanges) Index(s string) (pos int, c rune, n int) {
 			i++
 		} else {
 			c, n = utf8.DecodeRuneInString(s[i:])
-			if c != utf8.RuneError && rs.ContainsUnicode(c) {
+			if (c != utf8.RuneError || n > 1) && rs.ContainsUnicode(c) {
 				pos = i
 				return
 			}
@@ -331,7 +331,7 @@ func (rs *RunesRanges) StartsWith(s string) (c rune, n int) {
 
 	// Unicode
 	c, n = utf8.DecodeRuneInString(s)
-	if c != utf8.RuneError && rs.ContainsUnicode(c) {
+	if (c != utf8.RuneError || n > 1) && rs.ContainsUnicode(c) {
 		return
 	}
 
@@ -345,7 +345,7 @@ func (rs *RunesRanges) EndsWith(s string) (c rune, n int) {
 	}
 
 	c, n = utf8.DecodeLastRuneInString(s)
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && n < 2 {
 		return utf8.RuneError, -1
 	}
 
-- 
2.43.0


From eab2a262720459e1bce612de9124cca4b68c69c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 42/50] fix: normalized dotted glob lost a node of empty lists
 or classes

---
 gglob/gglob.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index 0333f86..caed7cd 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -111,7 +111,12 @@ func Parse(s string) (gg *GGlob, err error) {
 		if i > 0 {
 			buf.WriteByte('.')
 		}
-		buf.WriteString(g.Node)
+		if g.Node == "" {
+			// only empty lists or classes, it's not an empty node
+			buf.WriteString("[]")
+		} else {
+			buf.WriteString(g.Node)
+		}
 	}
 	gg.Node = buf.String()
 
-- 
2.43.0


From 19ef7ae236e72f713a67c1ae7e9faf5ef7ec486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 43/50] fix: overflow of the results count on expand with a
 huge max

---
 expand/expand.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expand/expand.go b/expand/expand.go
index 9a9b279..e85c657 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -133,9 +133,10 @@ func expand(exps []Expression, result []string, count, max, depth int, try bool,
 		if count <= 0 {
 			count = 1
 		}
-		count *= exps[0].count()
-		if max < count {
+		if n := exps[0].count(); count > max/n {
 			max = 0
+		} else {
+			count *= n
 		}
 	}
 	if depth > 0 {
-- 
2.43.0


From cdd3fa212f1fca943402eb5442efa1e6499587ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 44/50] fix: crash on an invalid byte between wildcards

---
 pkg/items/stringlist.go | 2 +-
 pkg/items/wildcard.go   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/items/stringlist.go b/pkg/items/stringlist.go
index 10ce1ec..6357ff0 100644
--- a/pkg/items/stringlist.go
+++ b/pkg/items/stringlist.go
@@ -266,7 +266,7 @@ func NewItemList(vals []string) (item Item, err error) {
 		}
 		// one item optimization
 		c, n := utf8.DecodeRuneInString(vals[0])
-		if n == len(vals[0]) {
+		if n == len(vals[0]) && c != utf8.RuneError { // an invalid byte is not a rune
 			if c <= 127 {
 				return Byte(c), nil
 			}
diff --git a/pkg/items/wildcard.go b/pkg/items/wildcard.go
index 86a21b7..440359d 100644
--- a/pkg/items/wildcard.go
+++ b/pkg/items/wildcard.go
@@ -36,9 +36,9 @@ func NextWildcardItem(s string) (item Item, next string, err error) {
 			}
 		}
 		if len(runes.UnicodeRanges) == 1 && n == 0 {
-			if runes.UnicodeRanges[0].First == runes.UnicodeRanges[0].Last {
+			if c := runes.UnicodeRanges[0].First; c == runes.UnicodeRanges[0].Last && c != utf8.RuneError {
 				// one item optimization
-				return Rune(runes.UnicodeRanges[0].First), next, nil
+				return Rune(c), next, nil
 			}
 		}
 		r := &RunesRanges{RunesRanges: runes}
@@ -78,7 +78,7 @@ func NextWildcardItem(s string) (item Item, next string, err error) {
 		v, next := utils.SplitString(s, end)
 
 		c, n := utf8.DecodeRuneInString(v)
-		if n == len(v) {
+		if n == len(v) && c != utf8.RuneError { // an invalid byte is not a rune
 			if c <= 127 {
 				return Byte(c), next, nil
 			}
-- 
2.43.0


From 6cd61897d5548888c5984a59f614dd3d3c4fa1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 45/50] fix: the common prefix of globs stopped at the
 replacement character

---
 pkg/items/utils.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pkg/items/utils.go b/pkg/items/utils.go
index 1d54e4e..19eff19 100644
--- a/pkg/items/utils.go
+++ b/pkg/items/utils.go
@@ -48,8 +48,12 @@ func IntersectGlobs(globs []string) string {
 	pos := 0
 	for {
 		c0, n := utf8.DecodeRuneInString(globs[0][pos:])
+		if c0 == utf8.RuneError && n < 2 {
+			// end of the string or an invalid symbol
+			return globs[0][:pos]
+		}
 		switch c0 {
-		case utf8.RuneError, '[', ']', '{', '}', '*', '?':
+		case '[', ']', '{', '}', '*', '?':
 			return globs[0][:pos]
 		}
 		for i := 1; i < len(globs); i++ {
@@ -57,12 +61,7 @@ func IntersectGlobs(globs []string) string {
 				// glob shortest item
 				return globs[0][:pos]
 			}
-			c, _ := utf8.DecodeRuneInString(globs[i][pos:])
-			if c0 != c {
-				return globs[0][:pos]
-			}
-			switch c {
-			case utf8.RuneError, '[', ']', '{', '}', '*', '?':
+			if c, cn := utf8.DecodeRuneInString(globs[i][pos:]); c0 != c || n != cn {
 				return globs[0][:pos]
 			}
 		}
-- 
2.43.0


From ab1b403ebfd35258e9e5e97741fc91d79f3af086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 46/50] fix: a tags tree changed with the list of terms of the
 caller

AddTerms(terms, i) kept pointers to the elements of terms, so a caller, who
reuses the list after the add (terms[0].Value = "x"), changed the tree.
---
 gtags/items.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gtags/items.go b/gtags/items.go
index 4ebfbe3..57c992d 100644
--- a/gtags/items.go
+++ b/gtags/items.go
@@ -236,7 +236,8 @@ func (item *TaggedItem) Parse(terms TaggedTermList, query string, index int) (la
 	if lastItem == nil {
 		// not found
 		// TODO: items caching ?
-		lastItem = &TaggedItem{Term: &terms[0]}
+		term := terms[0] // the list belongs to the caller
+		lastItem = &TaggedItem{Term: &term}
 		childs = append(childs, lastItem)
 		if isMatchedOp {
 			item.Items[pos].Matched = childs
-- 
2.43.0


From 37a8de1fc8c22f8f88bc8f46e2632d4a999f10ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 47/50] fix: expand classes whose range contains U+FFFD
 completely

---
 expand/expression.go | 2 +-
 expand/runes.go      | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/expand/expression.go b/expand/expression.go
index 6203db9..a750fcb 100644
--- a/expand/expression.go
+++ b/expand/expression.go
@@ -103,7 +103,7 @@ func (e *Expression) appendNext(out []byte) ([]byte, error) {
 		}
 	case expRunes:
 		for {
-			if c := e.runes[e.pos].next(); c == utf8.RuneError {
+			if c := e.runes[e.pos].next(); c == -1 {
 				if e.pos < len(e.runes)-1 {
 					e.pos++
 				} else {
diff --git a/expand/runes.go b/expand/runes.go
index 4e60ec4..14ed90d 100644
--- a/expand/runes.go
+++ b/expand/runes.go
@@ -123,14 +123,15 @@ func (r *runes) reset() {
 	r.pos = r.start
 }
 
+// next returns the next symbol or -1 at the end (U+FFFD is a symbol as any other)
 func (r *runes) next() rune {
 	if r.pos == -1 {
-		return utf8.RuneError
+		return -1
 	}
 	c := r.pos
 	if c > r.stop {
 		r.pos = -1
-		return utf8.RuneError
+		return -1
 	}
 	r.pos++
 
-- 
2.43.0


From c5af37fcdc675b53e253586026b98e64755430b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 48/50] fix: don't expand surrogates in classes as symbols

---
 expand/runes.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/expand/runes.go b/expand/runes.go
index 14ed90d..c00ae29 100644
--- a/expand/runes.go
+++ b/expand/runes.go
@@ -6,6 +6,11 @@ import (
 	"unicode/utf8"
 )
 
+const (
+	surrogateMin = 0xd800
+	surrogateMax = 0xdfff
+)
+
 // runes generates a sequence of runes from first to second element
 type runes struct {
 	start rune
@@ -83,6 +88,11 @@ func runesRangeExpand(s string) (rs []runes, ok bool) {
 						if n != cn {
 							return rs, false
 						}
+						if start < surrogateMin && c > surrogateMax {
+							// surrogates are not symbols
+							rs = append(rs, runes{start: start, stop: surrogateMin - 1})
+							start = surrogateMax + 1
+						}
 						rs = append(rs, runes{start: start, stop: c})
 					} else {
 						return rs, false
-- 
2.43.0


From 0d5baa92859735ae6bc0210047beacbe69156813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 49/50] fix: accept U+FFFD in classes as any other symbol

---
 expand/runes.go          | 19 +++++++++++++------
 pkg/utils/runesranges.go | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/expand/runes.go b/expand/runes.go
index c00ae29..93c505f 100644
--- a/expand/runes.go
+++ b/expand/runes.go
@@ -9,6 +9,8 @@ import (
 const (
 	surrogateMin = 0xd800
 	surrogateMax = 0xdfff
+
+	noRune rune = -1 // no symbol (U+FFFD is a symbol as any other)
 )
 
 // runes generates a sequence of runes from first to second element
@@ -71,13 +73,18 @@ func runesRangeExpandMust(s string) (rs []runes) {
 func runesRangeExpand(s string) (rs []runes, ok bool) {
 	if len(s) > 0 {
 		rs = make([]runes, 0, len(s)+4)
-		start := utf8.RuneError
+		start := noRune
 		isRange := false
 		for i, c := range s {
+			if c == utf8.RuneError {
+				if _, n := utf8.DecodeRuneInString(s[i:]); n == 1 {
+					c = noRune // an invalid byte
+				}
+			}
 			if s[i] == '-' {
 				isRange = true
 			} else if isRange {
-				if start == utf8.RuneError {
+				if start == noRune {
 					start = c
 					isRange = false
 				} else {
@@ -97,18 +104,18 @@ func runesRangeExpand(s string) (rs []runes, ok bool) {
 					} else {
 						return rs, false
 					}
-					start = utf8.RuneError
+					start = noRune
 					isRange = false
 				}
 			} else {
-				if start != utf8.RuneError {
+				if start != noRune {
 					rs = append(rs, runes{start: start, stop: start})
 				}
 				start = c
 			}
 		}
-		if start != utf8.RuneError {
-			if start != utf8.RuneError {
+		if start != noRune {
+			if start != noRune {
 				rs = append(rs, runes{start: start, stop: start})
 			}
 		}
diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index f03849a..ab74951 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -55,6 +55,8 @@ func RunesRangeMerge(ranges []RuneRange) []RuneRange {
 	return ranges[:j]
 }
 
+const noRune rune = -1 // no symbol (U+FFFD is a symbol as any other)
+
 // RunesExpand expand runes like [a-z0]
 func RunesRangeExpand(s string) (rs RunesRanges, ok bool) {
 	if len(s) > 1 && s[0] == '[' && s[len(s)-1] == ']' {
@@ -63,13 +65,18 @@ func RunesRangeExpand(s string) (rs RunesRanges, ok bool) {
 		if len(s) == 0 {
 			return rs, true
 		}
-		start := utf8.RuneError
+		start := noRune
 		isRange := false
 		for i, c := range s {
+			if c == utf8.RuneError {
+				if _, n := utf8.DecodeRuneInString(s[i:]); n == 1 {
+					c = noRune // an invalid byte
+				}
+			}
 			if s[i] == '-' {
 				isRange = true
 			} else if isRange {
-				if start == utf8.RuneError {
+				if start == noRune {
 					start = c
 					isRange = false
 				} else {
@@ -97,11 +104,11 @@ func RunesRangeExpand(s string) (rs RunesRanges, ok bool) {
 					} else {
 						return rs, false
 					}
-					start = utf8.RuneError
+					start = noRune
 					isRange = false
 				}
 			} else {
-				if start != utf8.RuneError {
+				if start != noRune {
 					if start <= 127 {
 						rs.ASCII.Add(byte(start))
 						rs.setSizes(1)
@@ -113,8 +120,8 @@ func RunesRangeExpand(s string) (rs RunesRanges, ok bool) {
 				start = c
 			}
 		}
-		if start != utf8.RuneError {
-			if start != utf8.RuneError {
+		if start != noRune {
+			if start != noRune {
 				if start <= math.MaxInt8 {
 					rs.ASCII.Add(byte(start))
 					rs.setSizes(1)
-- 
2.43.0


From 3d11d9dcf2570dd24af8bfcf5e0e5fbc4cb08e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 50/50] fix: stack overflow on expand of a huge expression

---
 expand/expand.go | 66 +++++++++++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 35 deletions(-)

diff --git a/expand/expand.go b/expand/expand.go
index e85c657..5a7c87b 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -120,64 +120,60 @@ func (e *Expressions) Expand(max, depth int, try bool) ([]string, error) {
 }
 
 func expand(exps []Expression, result []string, count, max, depth int, try bool, buf []byte) ([]string, []byte, error) {
-	if len(exps) == 0 {
-		// end of expressions, write result string
-		result = append(result, string(buf))
-		return result, buf, nil
-	}
-
 	var err error
-	cur := len(buf)
 
-	if max > 0 {
-		if count <= 0 {
-			count = 1
-		}
-		if n := exps[0].count(); count > max/n {
-			max = 0
-		} else {
-			count *= n
-		}
-	}
-	if depth > 0 {
-		switch exps[0].typ {
-		case expString, expWildcard:
-			depth -= strings.Count(exps[0].body, ".")
-			if depth <= 1 {
+	// recursion only for the expressions which are expanded to several elements
+	for ; len(exps) > 0; exps = exps[1:] {
+		if max > 0 {
+			if count <= 0 {
+				count = 1
+			}
+			if n := exps[0].count(); count > max/n {
 				max = 0
+			} else {
+				count *= n
+			}
+		}
+		if depth > 0 {
+			switch exps[0].typ {
+			case expString, expWildcard:
+				depth -= strings.Count(exps[0].body, ".")
+				if depth <= 1 {
+					max = 0
+				}
 			}
 		}
-	}
 
-	if max == 0 {
-		buf = append(buf, exps[0].body...)
-		result, buf, err = expand(exps[1:], result, count, max, depth, try, buf)
-		if err != nil {
-			return nil, buf, err
+		if max == 0 {
+			buf = append(buf, exps[0].body...)
+			continue
 		}
-	} else {
+
+		cur := len(buf)
 		for {
 			buf, err = exps[0].appendNext(buf)
 			if err == io.EOF {
 				exps[0].reset()
-				break
+				return result, buf, nil
 			} else if err != nil {
 				return nil, buf, err
 			}
 
+			if try {
+				exps[0].reset()
+				break
+			}
+
 			result, buf, err = expand(exps[1:], result, count, max, depth, try, buf)
 			buf = buf[:cur]
 			if err != nil {
 				return nil, buf, err
 			}
-
-			if try {
-				exps[0].reset()
-				break
-			}
 		}
 	}
 
+	// end of expressions, write result string
+	result = append(result, string(buf))
 	return result, buf, nil
 }
 
-- 
2.43.0

