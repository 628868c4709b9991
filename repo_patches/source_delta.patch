From 98a1217b1aae1bcf29e02e5b0822c358aeb5d137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 01/23] fix: LiteralStripEscape decodes \n as newline instead
 of carriage return

---
 gen/golang/token/token.go | 2 +-
 token/token.go            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/golang/token/token.go b/gen/golang/token/token.go
index 473db7e..f2d87fc 100644
--- a/gen/golang/token/token.go
+++ b/gen/golang/token/token.go
@@ -156,7 +156,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
diff --git a/token/token.go b/token/token.go
index f20e796..973bd57 100755
--- a/token/token.go
+++ b/token/token.go
@@ -77,7 +77,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
-- 
2.43.0


From e6376cf1116d1ec2cd99fb2aff8218f47622f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 02/23] fix: stripping escapes no longer panics on a trailing
 backslash

---
 gen/golang/token/token.go | 2 +-
 gen/golang/utils/utils.go | 2 +-
 token/token.go            | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gen/golang/token/token.go b/gen/golang/token/token.go
index f2d87fc..013c87e 100644
--- a/gen/golang/token/token.go
+++ b/gen/golang/token/token.go
@@ -148,7 +148,7 @@ func (t *Token) LiteralStripEscape() []rune {
 	lit := t.Literal()
 	strip := make([]rune, 0, len(lit))
 	for i := 0; i < len(lit); i++ {
-		if lit[i] == '\\' {
+		if lit[i] == '\\' && i+1 < len(lit) {
 			i++
 			switch lit[i] {
 			case 't':
diff --git a/gen/golang/utils/utils.go b/gen/golang/utils/utils.go
index 0885381..c50db88 100644
--- a/gen/golang/utils/utils.go
+++ b/gen/golang/utils/utils.go
@@ -41,7 +41,7 @@ func StripEscape(s string) (res string) {
 	sr := []rune(s)
 	runes := []rune{}
 	for i := 0; i < len(sr); i++ {
-		if sr[i] == '\\' {
+		if sr[i] == '\\' && i+1 < len(sr) {
 			i++
 			switch sr[i] {
 			case 't':
diff --git a/token/token.go b/token/token.go
index 973bd57..2445015 100755
--- a/token/token.go
+++ b/token/token.go
@@ -69,7 +69,7 @@ func (t *Token) LiteralStripEscape() []rune {
 	lit := t.Literal()
 	strip := make([]rune, 0, len(lit))
 	for i := 0; i < len(lit); i++ {
-		if lit[i] == '\\' {
+		if lit[i] == '\\' && i+1 < len(lit) {
 			i++
 			switch lit[i] {
 			case 't':
-- 
2.43.0


From d5748153022c5bb71ff4fcdc626a210ee74a21bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 03/23] fix: recognise a markdown code fence that follows
 another fence immediately

---
 gen/golang/lexer/lexer.go | 1 +
 lexer/lexer.go            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index 038e9ce..f2ce692 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -311,6 +311,7 @@ func loadMd(input []rune) {
 				input[i+j] = ' '
 			}
 			i += 3
+			continue
 		}
 		if i < len(input) {
 			if text {
diff --git a/lexer/lexer.go b/lexer/lexer.go
index 5bb0edd..1618afe 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -146,6 +146,7 @@ func loadMd(input []rune) {
 				input[i+j] = ' '
 			}
 			i += 3
+			continue
 		}
 		if i < len(input) {
 			if text {
-- 
2.43.0


From 1935bfc21f00ed1fc49146bb9cb37c4128d3b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:49 +0000
Subject: [PATCH 04/23] fix: the empty moves of a lexical item end when a
 repetition has a nullable alternate

---
 lex/item/item.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lex/item/item.go b/lex/item/item.go
index b18b9e3..e946bf6 100644
--- a/lex/item/item.go
+++ b/lex/item/item.go
@@ -101,6 +101,7 @@ func (i *Item) Emoves() []*Item {
 	// fmt.Println("Emoves:", i)
 
 	after := []*Item{i}
+	expanded := []*Item{}
 	for changed := true; changed; {
 		// fmt.Println(" Again")
 		before := after
@@ -109,6 +110,15 @@ func (i *Item) Emoves() []*Item {
 		for _, item := range before {
 			// fmt.Println("  ", item)
 
+			if item.atBeforeBracket() || item.atEndOfBracket() {
+				// Every item is expanded once only, because a nullable
+				// alternate in a repetition leads back to the same item.
+				if item.in(expanded) {
+					continue
+				}
+				expanded = append(expanded, item)
+			}
+
 			switch {
 			case item.atBeforeBracket():
 				for j := range item.Symbol().(*ast.LexBracket).Alternates {
@@ -145,6 +155,15 @@ func (i *Item) Equal(other *Item) bool {
 }
 
 // Next returns the next item after i. If i is a reduce item Next returns nil
+func (i *Item) in(items []*Item) bool {
+	for _, item := range items {
+		if i.Equal(item) {
+			return true
+		}
+	}
+	return false
+}
+
 func (i *Item) Next() *Item {
 	if i.IsReduce() {
 		return nil
-- 
2.43.0


From 5fe53b43d4ae7c884535d83c4877b30329bc493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 05/23] fix: the initial lexical item set has no duplicate
 items

---
 lex/items/items.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lex/items/items.go b/lex/items/items.go
index 8b6add6..5160c4f 100644
--- a/lex/items/items.go
+++ b/lex/items/items.go
@@ -216,21 +216,14 @@ func (sets *Sets) Sets() []*Set {
 func set0(g *ast.GoGLL) *Set {
 	s0 := &Set{}
 	for _, rule := range g.LexRules {
-		s0.add(item.New(rule).Emoves()...)
+		s0.Add(item.New(rule).Emoves()...)
 	}
 	for _, sl := range g.StringLiterals {
-		s0.add(item.New(stringLitToRule(sl)))
+		s0.Add(item.New(stringLitToRule(sl)))
 	}
 	return s0
 }
 
-func (set *Set) add(items ...*item.Item) *Set {
-	for _, item := range items {
-		set.set = append(set.set, item)
-	}
-	return set
-}
-
 func (set *Set) cloneItems() []*item.Item {
 	items := make([]*item.Item, len(set.set))
 	for i, item := range set.set {
-- 
2.43.0


From de68aa8a527899977927e9286cbe8d156d4cd0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:51 +0000
Subject: [PATCH 06/23] fix: UnicodeClass.Lext no longer recurses for ever

---
 ast/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/lex.go b/ast/lex.go
index 6fc4c8d..55793c0 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -310,7 +310,7 @@ func (u *UnicodeClass) Equal(other LexBase) bool {
 }
 
 func (u *UnicodeClass) Lext() int {
-	return u.Lext()
+	return u.tok.Lext()
 }
 
 func (*Any) String() string {
-- 
2.43.0


From 70d712306fb839f8039dc2429f4a1583848e62d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 07/23] fix: the LR(1) productions table compiles for an empty
 alternate

---
 gen/golang/lr1/parser/productionstable.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index b9a27aa..39194b8 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -55,7 +55,7 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 			data.ProdTab[i].ReduceFunc = fmt.Sprintf("nil, nil")
 		} else {
 			data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-			data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
+			data.ProdTab[i].ReduceFunc = fmt.Sprintf("ast.%s%d(%s)",
 				prod.Head,
 				prod.Alternate,
 				getParamIDs(len(prod.Body.Symbols)))
@@ -114,7 +114,7 @@ var productionsTable = ProdTab {
 		Index: {{$i}},
 		NumSymbols: {{$entry.NumSymbols}},
 		ReduceFunc: func(X []interface{}) (interface{}, error) {
-            return ast.{{$entry.ReduceFunc}}
+            return {{$entry.ReduceFunc}}
 		},
 	},
 	{{end}}
-- 
2.43.0


From ccb184424572b1c658bb1d0274214abb03fe6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 08/23] fix: unicode sets are equal only when each contains the
 other's ranges

---
 ast/lex.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ast/lex.go b/ast/lex.go
index 55793c0..73c2d70 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -440,6 +440,11 @@ func (u UnicodeRanges) Equal(other UnicodeRanges) bool {
 			return false
 		}
 	}
+	for _, rng := range other {
+		if !u.Contain(rng) {
+			return false
+		}
+	}
 	return true
 }
 
@@ -453,6 +458,11 @@ func (u UnicodeRanges) EqualRange(other UnicodeRanges) bool {
 			return false
 		}
 	}
+	for _, rng := range other {
+		if !u.ContainRange(rng) {
+			return false
+		}
+	}
 	return true
 }
 
-- 
2.43.0


From 55f7ad3635bd9b24e290a1345b0716ef55a5bd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 09/23] fix: Unicode set containment is decided over all runes,
 for every category name

---
 ast/lex.go | 81 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 61 insertions(+), 20 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index 73c2d70..e7bcca4 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -367,13 +367,10 @@ func (sl *StringLit) Value() []rune {
 	return value
 }
 
+// ContainsSet returns true iff every rune of s is in the class u
 func (u *UnicodeClass) ContainsSet(s *UnicodeSet) bool {
-	for _, rng := range s.Ranges {
-		if !rangeTableInRangeTable(rng.GetRangeTable(), u.GetRangeTable()) {
-			return false
-		}
-	}
-	return true
+	tab := u.GetRangeTable()
+	return s.forAllRunes(func(r rune) bool { return unicode.Is(tab, r) })
 }
 
 func (u *UnicodeClass) GetRangeTable() *unicode.RangeTable {
@@ -387,7 +384,7 @@ func (u *UnicodeClass) GetRangeTable() *unicode.RangeTable {
 	case Number:
 		return unicode.Number
 	case Space:
-		return unicode.Space
+		return unicode.White_Space
 	}
 	panic("impossible")
 }
@@ -495,29 +492,64 @@ func (u *UnicodeRange) ContainsClass(c *UnicodeClass) bool {
 	case Number:
 		return rangeTableInRangeTable(unicode.Number, u.GetRangeTable())
 	case Space:
-		return rangeTableInRangeTable(unicode.Space, u.GetRangeTable())
+		return rangeTableInRangeTable(unicode.White_Space, u.GetRangeTable())
 	}
 	panic("impossible")
 }
 
-// rangeInRange returns true iff b contains a
+// rangeTableInRangeTable returns true iff b contains a
 func rangeTableInRangeTable(a, b *unicode.RangeTable) bool {
 	if a == nil || b == nil {
 		fmt.Printf("a=%p, b=%p\n", a, b)
 		panic("nil")
 	}
-	for _, rng := range a.R32 {
-		if !unicode.In(rune(rng.Lo), b) || !unicode.In(rune(rng.Hi), b) {
-			return false
+	if a == b {
+		return true
+	}
+	return forAllRunes(a, func(r rune) bool { return unicode.Is(b, r) })
+}
+
+// forAllRunes returns true iff f is true for every rune of tab
+func forAllRunes(tab *unicode.RangeTable, f func(rune) bool) bool {
+	for _, rng := range tab.R16 {
+		for r := rune(rng.Lo); r <= rune(rng.Hi); r += rune(rng.Stride) {
+			if !f(r) {
+				return false
+			}
+		}
+	}
+	for _, rng := range tab.R32 {
+		for r := rune(rng.Lo); r <= rune(rng.Hi); r += rune(rng.Stride) {
+			if !f(r) {
+				return false
+			}
 		}
 	}
 	return true
 }
 
+// longCategoryNames has the names of categories that are not in unicode.Categories
+var longCategoryNames = map[string]*unicode.RangeTable{
+	"Digit":  unicode.Digit,
+	"Letter": unicode.Letter,
+	"Lower":  unicode.Lower,
+	"Mark":   unicode.Mark,
+	"Number": unicode.Number,
+	"Other":  unicode.Other,
+	"Punct":  unicode.Punct,
+	"Space":  unicode.Space,
+	"Symbol": unicode.Symbol,
+	"Title":  unicode.Title,
+	"Upper":  unicode.Upper,
+}
+
 // GetRangeTable returns the category or property RangeTable of r
 func (u *UnicodeRange) GetRangeTable() *unicode.RangeTable {
 	switch u.Type {
 	case UnicodeCategory:
+		if tab := longCategoryNames[u.Range]; tab != nil {
+			return tab
+		}
 		if unicode.Categories[u.Range] == nil {
 			panic(u.Range)
 		}
@@ -546,13 +578,12 @@ func (u *UnicodeRange) Subset(sup *UnicodeSet) bool {
 	return false
 }
 
+// ContainsClass returns true iff every rune of c is in u
 func (u *UnicodeSet) ContainsClass(c *UnicodeClass) bool {
-	for _, rng := range u.Ranges {
-		if rng.ContainsClass(c) {
-			return true
-		}
-	}
-	return false
+	incl, excl := u.GetRangeTables()
+	return forAllRunes(c.GetRangeTable(), func(r rune) bool {
+		return unicode.In(r, incl...) && !unicode.In(r, excl...)
+	})
 }
 
 func (u *UnicodeSet) ContainsRune(r rune) bool {
@@ -578,9 +609,19 @@ func (u *UnicodeSet) ContainsRangeTable(rngTab *unicode.RangeTable) bool {
 	return false
 }
 
+// ContainsSet returns true iff every rune of u1 is in u
 func (u *UnicodeSet) ContainsSet(u1 *UnicodeSet) bool {
-	for _, rng := range u1.Ranges {
-		if !u.ContainsRangeTable(rng.GetRangeTable()) {
+	incl, excl := u.GetRangeTables()
+	return u1.forAllRunes(func(r rune) bool {
+		return unicode.In(r, incl...) && !unicode.In(r, excl...)
+	})
+}
+
+// forAllRunes returns true iff f is true for every rune of u
+func (u *UnicodeSet) forAllRunes(f func(rune) bool) bool {
+	incl, excl := u.GetRangeTables()
+	for _, tab := range incl {
+		if !forAllRunes(tab, func(r rune) bool { return unicode.In(r, excl...) || f(r) }) {
 			return false
 		}
 	}
-- 
2.43.0


From 3bfbd821641ade11be84e32242b7de04813dcc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 10/23] fix: lexer events are subsets only when every rune is
 contained, and specific events come first

---
 lex/items/event/event.go | 151 ++++++++++++++-------------------------
 1 file changed, 55 insertions(+), 96 deletions(-)

diff --git a/lex/items/event/event.go b/lex/items/event/event.go
index eefc68e..d2d4b5c 100644
--- a/lex/items/event/event.go
+++ b/lex/items/event/event.go
@@ -86,9 +86,9 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.AnyOf:
 			return toTriState(a1.Set.Subset(b1.Set))
 		case *ast.CharLiteral:
-			return toTriState(a1.Set.Contains(b1.Char()))
+			return toTriState(isSingleton(a1.Set, b1.Char()))
 		case *ast.Not:
-			return toTriState(!a1.Set.Subset(b1.Set))
+			return toTriState(a1.Set.Intersection(b1.Set).Empty())
 		case *ast.UnicodeClass:
 			return toTriState(unicodeClassContains(b1, a1.Set.Elements()...))
 		case *ast.UnicodeSet:
@@ -142,7 +142,7 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.CharLiteral:
 			return False
 		case *ast.Not:
-			return False
+			return toTriState(classExcludes(a1, b1.Set))
 		case *ast.UnicodeClass:
 			return toTriState(a1.Type == b1.Type ||
 				(b1.Type == ast.Letter && (a1.Type == ast.Lowcase || a1.Type == ast.Upcase)))
@@ -161,7 +161,7 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.CharLiteral:
 			return False
 		case *ast.Not:
-			return False
+			return toTriState(setExcludes(a1, b1.Set))
 		case *ast.UnicodeClass:
 			return toTriState(b1.ContainsSet(a1))
 		case *ast.UnicodeSet:
@@ -179,6 +179,16 @@ func anyOf(r rune, rs *runeset.RuneSet) bool {
 	return rs.Contains(r)
 }
 
+// classExcludes returns true iff no element of rs is in c
+func classExcludes(c *ast.UnicodeClass, rs *runeset.RuneSet) bool {
+	for _, r := range rs.Elements() {
+		if unicodeClassContains(c, r) {
+			return false
+		}
+	}
+	return true
+}
+
 func contains(events []ast.LexBase, event ast.LexBase) bool {
 	for _, ev := range events {
 		if ev.Equal(event) {
@@ -204,101 +214,50 @@ func noneOf(r rune, rs *runeset.RuneSet) bool {
 	return !rs.Contains(r)
 }
 
-// sort events from most to least specific class
-func sortEvents(events []ast.LexBase) {
-	sort.Slice(events, func(i, j int) bool {
-		switch e1 := events[i].(type) {
-		case *ast.Any:
+// isSingleton returns true iff the only element of rs is r
+func isSingleton(rs *runeset.RuneSet, r rune) bool {
+	elements := rs.Elements()
+	return len(elements) == 1 && elements[0] == r
+}
+
+// properSubset returns true iff a is a subset of b but not equal to it
+func properSubset(a, b ast.LexBase) bool {
+	return Subset(a, b) == True && Subset(b, a) != True
+}
+
+// setExcludes returns true iff no element of rs is in s
+func setExcludes(s *ast.UnicodeSet, rs *runeset.RuneSet) bool {
+	for _, r := range rs.Elements() {
+		if s.ContainsRune(r) {
 			return false
-		case *ast.AnyOf:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return e1.Set.Subset(e2.Set)
-			case *ast.CharLiteral:
-				return e1.Set.Contains(e2.Char())
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return unicodeClassContains(e2, e1.Set.Elements()...)
-			case *ast.UnicodeSet:
-				return e2.ContainsRunes(e1.Set.Elements()...)
-			default:
-				panic("Invalid")
-			}
-		case *ast.CharLiteral:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return true
-			case *ast.CharLiteral:
-				return e1.Char() < e2.Char()
-			case *ast.Not:
-				return true
-			case *ast.UnicodeClass:
-				return true
-			case *ast.UnicodeSet:
-				return true
-			default:
-				panic("Invalid")
-			}
-		case *ast.Not:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return false
-			case *ast.UnicodeSet:
-				return false
-			default:
-				panic("Invalid")
-			}
-		case *ast.UnicodeClass:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !unicodeClassContains(e1, e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.Type == ast.Letter && (e1.Type == ast.Lowcase || e1.Type == ast.Upcase)
-			case *ast.UnicodeSet:
-				return e2.ContainsClass(e1)
-			default:
-				panic("Invalid")
-			}
-		case *ast.UnicodeSet:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !e1.ContainsRunes(e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.ContainsSet(e1)
-			case *ast.UnicodeSet:
-				return e2.ContainsSet(e1)
-			default:
-				panic("Invalid")
-			}
-		default:
-			panic("Invalid")
 		}
+	}
+	return true
+}
+
+// sortEvents sorts events from most to least specific: no event is a proper
+// subset of an event preceding it. Character literals precede other events and
+// are ordered by character. Otherwise the order of unrelated events is unchanged.
+func sortEvents(events []ast.LexBase) {
+	sort.SliceStable(events, func(i, j int) bool {
+		c1, ok1 := events[i].(*ast.CharLiteral)
+		c2, ok2 := events[j].(*ast.CharLiteral)
+		if ok1 && ok2 {
+			return c1.Char() < c2.Char()
+		}
+		return ok1 && !ok2
 	})
+	for i := range events {
+		min := i
+		for j := i + 1; j < len(events); j++ {
+			if properSubset(events[j], events[min]) {
+				min = j
+			}
+		}
+		ev := events[min]
+		copy(events[i+1:min+1], events[i:min])
+		events[i] = ev
+	}
 }
 
 func toTriState(b bool) TriState {
-- 
2.43.0


From d08ed1527697e011bc1fc6c4c15300447f204350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 11/23] fix: a GLL descriptor is added once only

---
 gen/golang/gll/parser.go | 2 +-
 parser/parser.go         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 8f66094..15963e7 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -324,7 +324,7 @@ type descriptors struct {
 
 func (ds *descriptors) contain(d *descriptor) bool {
 	for _, d1 := range ds.set {
-		if d1 == d {
+		if *d1 == *d {
 			return true
 		}
 	}
diff --git a/parser/parser.go b/parser/parser.go
index 676f0f3..bd84936 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1723,7 +1723,7 @@ type descriptors struct {
 
 func (ds *descriptors) contain(d *descriptor) bool {
 	for _, d1 := range ds.set {
-		if d1 == d {
+		if *d1 == *d {
 			return true
 		}
 	}
-- 
2.43.0


From e15aced2127c67d2ace2d16548acfe5a20bb5882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 12/23] fix: the BSR set keeps the strings with every pivot and
 no duplicates

---
 gen/golang/gll/bsr/bsr.go | 62 +++++++++++++++++++++++++++++----------
 parser/bsr/bsr.go         | 62 +++++++++++++++++++++++++++++----------
 2 files changed, 92 insertions(+), 32 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index f80fa28..275a98f 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -72,7 +72,7 @@ Set contains the set of Binary Subtree Representations (BSR).
 type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
-    stringEntries map[stringKey]*stringBSR
+    stringEntries map[stringKey][]*stringBSR
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -113,7 +113,7 @@ func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
-        stringEntries: make(map[stringKey]*stringBSR),
+        stringEntries: make(map[stringKey][]*stringBSR),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -213,8 +213,8 @@ func (s *Set) GetRoots() (roots []BSR) {
 // GetAllStrings returns all string elements with symbols = str,
 // left extent = lext and right extent = rext
 func (s *Set) GetAllStrings(str symbols.Symbols, lext, rext int) (strs []*stringBSR) {
-    for _, s := range s.stringEntries {
-        if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
+    for _, s := range s.stringEntries[getStringKey(str, lext, rext)] {
+        if s.Symbols.Equal(str) {
             strs = append(strs, s)
         }
     }
@@ -234,19 +234,21 @@ func (s *Set) getNTBSRs() BSRs {
 
 func (s *Set) getStringBSRs() stringBSRs {
     bsrs := make(stringBSRs, 0, len(s.stringEntries))
-    for _, bsr := range s.stringEntries {
-        bsrs = append(bsrs, bsr)
+    for _, strs := range s.stringEntries {
+        bsrs = append(bsrs, strs...)
     }
     sort.Sort(bsrs)
     return bsrs
 }
 
-func (s *Set) getString(symbols symbols.Symbols, leftExtent, rightExtent int) *stringBSR {
-    // fmt.Printf("Set.getString(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
+// getStrings returns the string elements with symbols, leftExtent and rightExtent,
+// which have different pivots.
+func (s *Set) getStrings(symbols symbols.Symbols, leftExtent, rightExtent int) []*stringBSR {
+    // fmt.Printf("Set.getStrings(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
 
-    strBsr, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
-    if exist {
-        return strBsr
+    strs := s.GetAllStrings(symbols, leftExtent, rightExtent)
+    if len(strs) > 0 {
+        return strs
     }
 
     panic(fmt.Sprintf("Error: no string %s left extent=%d right extent=%d\n",
@@ -259,11 +261,19 @@ func (s *Set) insert(bsr bsr) {
     }
     switch b := bsr.(type) {
     case BSR:
+        if s.slotEntries[b] {
+            return
+        }
         s.slotEntries[b] = true
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        s.stringEntries[b.key()] = b
+        for _, b1 := range s.stringEntries[b.key()] {
+            if b1.pivot == b.pivot && b1.Symbols.Equal(b.Symbols) {
+                return
+            }
+        }
+        s.stringEntries[b.key()] = append(s.stringEntries[b.key()], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
@@ -356,17 +366,25 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
 
     // Walk to pos i from the right
     symbols := b.Label.Symbols()[:b.Label.Pos()-1]
-    str := b.set.getString(symbols, b.leftExtent, b.pivot)
+    strs := b.set.getStrings(symbols, b.leftExtent, b.pivot)
     for len(symbols) > i+1 && len(symbols) > 2 {
         symbols = symbols[:len(symbols)-1]
-        str = b.set.getString(symbols, str.leftExtent, str.pivot)
+        prefixes := []*stringBSR{}
+        for _, pivot := range pivots(strs) {
+            prefixes = append(prefixes, b.set.getStrings(symbols, b.leftExtent, pivot)...)
+        }
+        strs = prefixes
     }
 
     bsrs := []BSR{}
     if i == 0 {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.leftExtent, str.pivot)
+        for _, pivot := range pivots(strs) {
+            bsrs = append(bsrs, b.set.getNTSlot(b.Label.Symbols()[i], b.leftExtent, pivot)...)
+        }
     } else {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.pivot, str.rightExtent)
+        for _, str := range strs {
+            bsrs = append(bsrs, b.set.getNTSlot(b.Label.Symbols()[i], str.pivot, str.rightExtent)...)
+        }
     }
 
     // fmt.Println(bsrs)
@@ -374,6 +392,18 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
     return bsrs
 }
 
+// pivots returns the different pivots of strs
+func pivots(strs []*stringBSR) (pivots []int) {
+    done := make(map[int]bool)
+    for _, str := range strs {
+        if !done[str.pivot] {
+            done[str.pivot] = true
+            pivots = append(pivots, str.pivot)
+        }
+    }
+    return
+}
+
 // GetTChildI returns the terminal symbol at position i in b.
 // GetTChildI panics if symbol i is not a valid terminal
 func (b BSR) GetTChildI(i int) *token.Token {
diff --git a/parser/bsr/bsr.go b/parser/bsr/bsr.go
index 4f8dd16..6c6938a 100644
--- a/parser/bsr/bsr.go
+++ b/parser/bsr/bsr.go
@@ -34,7 +34,7 @@ Set contains the set of Binary Subtree Representations (BSR).
 type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
-    stringEntries map[stringKey]*stringBSR
+    stringEntries map[stringKey][]*stringBSR
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -75,7 +75,7 @@ func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
-        stringEntries: make(map[stringKey]*stringBSR),
+        stringEntries: make(map[stringKey][]*stringBSR),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -175,8 +175,8 @@ func (s *Set) GetRoots() (roots []BSR) {
 // GetAllStrings returns all string elements with symbols = str,
 // left extent = lext and right extent = rext
 func (s *Set) GetAllStrings(str symbols.Symbols, lext, rext int) (strs []*stringBSR) {
-    for _, s := range s.stringEntries {
-        if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
+    for _, s := range s.stringEntries[getStringKey(str, lext, rext)] {
+        if s.Symbols.Equal(str) {
             strs = append(strs, s)
         }
     }
@@ -196,19 +196,21 @@ func (s *Set) getNTBSRs() BSRs {
 
 func (s *Set) getStringBSRs() stringBSRs {
     bsrs := make(stringBSRs, 0, len(s.stringEntries))
-    for _, bsr := range s.stringEntries {
-        bsrs = append(bsrs, bsr)
+    for _, strs := range s.stringEntries {
+        bsrs = append(bsrs, strs...)
     }
     sort.Sort(bsrs)
     return bsrs
 }
 
-func (s *Set) getString(symbols symbols.Symbols, leftExtent, rightExtent int) *stringBSR {
-    // fmt.Printf("Set.getString(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
+// getStrings returns the string elements with symbols, leftExtent and rightExtent,
+// which have different pivots.
+func (s *Set) getStrings(symbols symbols.Symbols, leftExtent, rightExtent int) []*stringBSR {
+    // fmt.Printf("Set.getStrings(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
 
-    strBsr, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
-    if exist {
-        return strBsr
+    strs := s.GetAllStrings(symbols, leftExtent, rightExtent)
+    if len(strs) > 0 {
+        return strs
     }
 
     panic(fmt.Sprintf("Error: no string %s left extent=%d right extent=%d\n",
@@ -221,11 +223,19 @@ func (s *Set) insert(bsr bsr) {
     }
     switch b := bsr.(type) {
     case BSR:
+        if s.slotEntries[b] {
+            return
+        }
         s.slotEntries[b] = true
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        s.stringEntries[b.key()] = b
+        for _, b1 := range s.stringEntries[b.key()] {
+            if b1.pivot == b.pivot && b1.Symbols.Equal(b.Symbols) {
+                return
+            }
+        }
+        s.stringEntries[b.key()] = append(s.stringEntries[b.key()], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
@@ -318,17 +328,25 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
 
     // Walk to pos i from the right
     symbols := b.Label.Symbols()[:b.Label.Pos()-1]
-    str := b.set.getString(symbols, b.leftExtent, b.pivot)
+    strs := b.set.getStrings(symbols, b.leftExtent, b.pivot)
     for len(symbols) > i+1 && len(symbols) > 2 {
         symbols = symbols[:len(symbols)-1]
-        str = b.set.getString(symbols, str.leftExtent, str.pivot)
+        prefixes := []*stringBSR{}
+        for _, pivot := range pivots(strs) {
+            prefixes = append(prefixes, b.set.getStrings(symbols, b.leftExtent, pivot)...)
+        }
+        strs = prefixes
     }
 
     bsrs := []BSR{}
     if i == 0 {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.leftExtent, str.pivot)
+        for _, pivot := range pivots(strs) {
+            bsrs = append(bsrs, b.set.getNTSlot(b.Label.Symbols()[i], b.leftExtent, pivot)...)
+        }
     } else {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.pivot, str.rightExtent)
+        for _, str := range strs {
+            bsrs = append(bsrs, b.set.getNTSlot(b.Label.Symbols()[i], str.pivot, str.rightExtent)...)
+        }
     }
 
     // fmt.Println(bsrs)
@@ -336,6 +354,18 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
     return bsrs
 }
 
+// pivots returns the different pivots of strs
+func pivots(strs []*stringBSR) (pivots []int) {
+    done := make(map[int]bool)
+    for _, str := range strs {
+        if !done[str.pivot] {
+            done[str.pivot] = true
+            pivots = append(pivots, str.pivot)
+        }
+    }
+    return
+}
+
 // GetTChildI returns the terminal symbol at position i in b.
 // GetTChildI panics if symbol i is not a valid terminal
 func (b BSR) GetTChildI(i int) *token.Token {
-- 
2.43.0


From a8f85f767ade40ea379456ff02b17bd37dd6f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:52 +0000
Subject: [PATCH 13/23] fix: ToSPPF does not overwrite the symbols of a grammar
 slot

---
 gen/golang/gll/bsr/bsr.go | 5 ++---
 parser/bsr/bsr.go         | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 275a98f..430e4f2 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -654,11 +654,10 @@ func (pf *Set) ToSPPF() *sppf.SymbolNode {
                     in.Lext, in.Lext, in.Rext))
             } else {
                 // for each (α,i,k, j)∈Υ { mkPN(X ::=α·δ,i,k, j,G) } } } }
-                alpha, delta := in.Body[:in.Pos], in.Body[in.Pos:]
+                alpha := in.Body[:in.Pos]
                 for _, str := range pf.GetAllStrings(alpha, in.Lext, in.Rext) {
-                    body := append(str.Symbols, delta...)
                     in.Children = append(in.Children,
-                        bld.mkPN(in.NT, body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
+                        bld.mkPN(in.NT, in.Body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
                 }
             }
         }
diff --git a/parser/bsr/bsr.go b/parser/bsr/bsr.go
index 6c6938a..599360f 100644
--- a/parser/bsr/bsr.go
+++ b/parser/bsr/bsr.go
@@ -616,11 +616,10 @@ func (pf *Set) ToSPPF() *sppf.SymbolNode {
                     in.Lext, in.Lext, in.Rext))
             } else {
                 // for each (α,i,k, j)∈Υ { mkPN(X ::=α·δ,i,k, j,G) } } } }
-                alpha, delta := in.Body[:in.Pos], in.Body[in.Pos:]
+                alpha := in.Body[:in.Pos]
                 for _, str := range pf.GetAllStrings(alpha, in.Lext, in.Rext) {
-                    body := append(str.Symbols, delta...)
                     in.Children = append(in.Children,
-                        bld.mkPN(in.NT, body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
+                        bld.mkPN(in.NT, in.Body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
                 }
             }
         }
-- 
2.43.0


From 77e140486e533783abbe76d93240dbcae59ddf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 14/23] fix: a failed GLL parse always reports an error

---
 gen/golang/gll/parser.go | 18 ++++++++++++++++++
 parser/parser.go         | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 15963e7..73a3de7 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -171,12 +171,30 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 		}
 	}
 	if !p.bsrSet.Contain(symbols.NT_{{.StartSymbol}}, 0, m) {
+		p.startErrors()
 		p.sortParseErrors()
 		return nil, p.parseErrors
 	}
 	return p.bsrSet, nil
 }
 
+// startErrors adds the errors at which the end of the input was expected after
+// the start symbol, but a token was found that may follow the start symbol
+// elsewhere in the grammar.
+func (p *parser) startErrors() {
+	bsrs := bsr.BSRs(p.bsrSet.GetAll())
+	sort.Sort(bsrs)
+	for _, b := range bsrs {
+		if b.Label.Head() != symbols.NT_{{.StartSymbol}} || b.LeftExtent() != 0 {
+			continue
+		}
+		next := p.lex.Tokens[b.RightExtent()].Type()
+		if _, exist := followSets[symbols.NT_{{.StartSymbol}}][next]; exist && next != token.EOF {
+			p.parseError(b.Label, b.RightExtent(), map[token.Type]string{token.EOF: "$"})
+		}
+	}
+}
+
 func (p *parser) ntAdd(nt symbols.NT, j int) {
 	// fmt.Printf("p.ntAdd(%s, %d)\n", nt, j)
 	failed := true
diff --git a/parser/parser.go b/parser/parser.go
index bd84936..982901a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1566,12 +1566,30 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 		}
 	}
 	if !p.bsrSet.Contain(symbols.NT_GoGLL, 0, m) {
+		p.startErrors()
 		p.sortParseErrors()
 		return nil, p.parseErrors
 	}
 	return p.bsrSet, nil
 }
 
+// startErrors adds the errors at which the end of the input was expected after
+// the start symbol, but a token was found that may follow the start symbol
+// elsewhere in the grammar.
+func (p *parser) startErrors() {
+	bsrs := bsr.BSRs(p.bsrSet.GetAll())
+	sort.Sort(bsrs)
+	for _, b := range bsrs {
+		if b.Label.Head() != symbols.NT_GoGLL || b.LeftExtent() != 0 {
+			continue
+		}
+		next := p.lex.Tokens[b.RightExtent()].Type()
+		if _, exist := followSets[symbols.NT_GoGLL][next]; exist && next != token.EOF {
+			p.parseError(b.Label, b.RightExtent(), map[token.Type]string{token.EOF: "$"})
+		}
+	}
+}
+
 func (p *parser) ntAdd(nt symbols.NT, j int) {
 	// fmt.Printf("p.ntAdd(%s, %d)\n", nt, j)
 	failed := true
-- 
2.43.0


From eac1e8ab0c2d8cc8c535134c69364f79b9fb1b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 15/23] fix: the closure of an LR(1) state has the complete
 lookaheads

---
 lr1/states/state.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/lr1/states/state.go b/lr1/states/state.go
index 25d9a13..cc945c9 100644
--- a/lr1/states/state.go
+++ b/lr1/states/state.go
@@ -66,18 +66,22 @@ func (this *State) CanRecover() bool {
 
 func (this *State) Closure() *State {
 	cgList := append(this.Nucleus.List(), this.NonNucleus.List()...)
-	for i := 0; i < len(cgList); i++ {
-		cgi := cgList[i]
-		if symbols.IsNonTerminal(cgi.Item.ExpectedSymbol()) {
-			startItems := this.items.StartItems(cgi.Item.ExpectedSymbol())
-			for _, si := range startItems {
-				newCfgGrp := NewConfigGroup(si,
-					this.first.FirstString(cgi.Item.TailString(), cgi.ContextSet.Clone().List...)...)
-				if oldCfgGrp := this.GetGroup(newCfgGrp); oldCfgGrp == nil {
-					this.Add(newCfgGrp)
-					cgList = append(cgList, newCfgGrp)
-				} else {
-					oldCfgGrp.AddContext(newCfgGrp.ContextSet.List...)
+	for again := true; again; {
+		again = false
+		for i := 0; i < len(cgList); i++ {
+			cgi := cgList[i]
+			if symbols.IsNonTerminal(cgi.Item.ExpectedSymbol()) {
+				startItems := this.items.StartItems(cgi.Item.ExpectedSymbol())
+				for _, si := range startItems {
+					newCfgGrp := NewConfigGroup(si,
+						this.first.FirstString(cgi.Item.TailString(), cgi.ContextSet.Clone().List...)...)
+					if oldCfgGrp := this.GetGroup(newCfgGrp); oldCfgGrp == nil {
+						this.Add(newCfgGrp)
+						cgList = append(cgList, newCfgGrp)
+					} else if oldCfgGrp.ContextSet.Add(newCfgGrp.ContextSet.List...) {
+						// oldCfgGrp may have been closed with less context
+						again = true
+					}
 				}
 			}
 		}
-- 
2.43.0


From cf69a6cacffbdf76ad20f99e55b591a7c7df252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 16/23] fix: a conflict between accept and a reduction is
 reported and resolved

---
 lr1/action/action.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lr1/action/action.go b/lr1/action/action.go
index 3bdc614..dc03519 100644
--- a/lr1/action/action.go
+++ b/lr1/action/action.go
@@ -110,8 +110,10 @@ func (this Shift) Equal(act Action) bool {
 	return false
 }
 
+// Accept is the reduction of production 0, which has the lowest number
 func (this Accept) ResolveConflict(that Action) Action {
-	if _, ok := that.(Error); ok {
+	switch that.(type) {
+	case Error, Reduce:
 		return this
 	}
 	panic(fmt.Sprintf("Cannot have LR1 conflict with Accept."))
@@ -138,7 +140,7 @@ func (this Shift) ResolveConflict(that Action) Action {
 func (this Reduce) ResolveConflict(that Action) Action {
 	switch that := that.(type) {
 	case Accept:
-		panic(fmt.Sprintf("Impossible conflict: Shift(%d)/Accept", int(this)))
+		return that
 	case Shift:
 		return that
 	case Error:
-- 
2.43.0


From 27ccacd9b522952486086046babd223be9b03e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:39 +0000
Subject: [PATCH 17/23] fix: gogll does not claim to have resolved conflicts
 when it refuses them

---
 lr1/gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lr1/gen.go b/lr1/gen.go
index ac75b73..092cd01 100644
--- a/lr1/gen.go
+++ b/lr1/gen.go
@@ -52,12 +52,12 @@ func Gen(g *ast.GoGLL) ([]*basicprod.Production, *states.States, action.Actions)
 
 func handleConflicts(conflicts [][]*action.Conflict, states *states.States) {
 	if numConflicts(conflicts) > 0 {
-		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt", numConflicts(conflicts))
+		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt\n", numConflicts(conflicts))
 		writeConflicts(conflicts)
 		if !*cfg.AutoResolveLRConf {
-			fmt.Println("LR(1) conflicts were automatically resolved")
 			os.Exit(1)
 		}
+		fmt.Println("LR(1) conflicts were automatically resolved")
 	}
 }
 
-- 
2.43.0


From 6dbd55712c75d1451a7dc748f908f681364618b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:39 +0000
Subject: [PATCH 18/23] fix: Pager states are weakly compatible only when every
 two of their items are

---
 lr1/pgm/states.go | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/lr1/pgm/states.go b/lr1/pgm/states.go
index 8856541..fdea0bd 100644
--- a/lr1/pgm/states.go
+++ b/lr1/pgm/states.go
@@ -114,20 +114,23 @@ func mergeCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) {
 	}
 }
 
+/*
+Two sets with the same core are weakly compatible iff for every two different
+items of the core, merging the sets does not bring a symbol into the contexts of
+both, or the contexts of both already have a symbol in common in one of the sets.
+*/
 func weaklyCompatibleCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
 	if !this.CoreEqual(that) {
 		return false
 	}
-	if contextMutuallyDisjunct(this, that) {
-		return true
-	}
-	return !contextInternallyDisjunct(this) || !contextInternallyDisjunct(that)
-}
-
-func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
-	for _, thisCfgGrp := range this.List() {
-		for _, thatCfgGrp := range that.List() {
-			if thisCfgGrp.HashKey() != thatCfgGrp.HashKey() && len(thisCfgGrp.ContextSet.Intersection(thatCfgGrp.ContextSet)) > 0 {
+	for i, thisI := range this.List() {
+		thatI := that.GetGroup(thisI)
+		for _, thisJ := range this.List()[i+1:] {
+			thatJ := that.GetGroup(thisJ)
+			if contextsDisjunct(thisI, thatJ) && contextsDisjunct(thatI, thisJ) {
+				continue
+			}
+			if contextsDisjunct(thisI, thisJ) && contextsDisjunct(thatI, thatJ) {
 				return false
 			}
 		}
@@ -135,13 +138,6 @@ func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGro
 	return true
 }
 
-func contextInternallyDisjunct(this *states.ConfigGroupSet) bool {
-	for i := 0; i < len(this.List())-1; i++ {
-		for j := i + 1; j < len(this.List()); j++ {
-			if len(this.List()[i].ContextSet.Intersection(this.List()[j].ContextSet)) > 0 {
-				return false
-			}
-		}
-	}
-	return true
+func contextsDisjunct(this *states.ConfigGroup, that *states.ConfigGroup) bool {
+	return len(this.ContextSet.Intersection(that.ContextSet)) == 0
 }
-- 
2.43.0


From 16a43c617f373ae6471d3cc981ffe3d24db66311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:40 +0000
Subject: [PATCH 19/23] fix: Pager states that gain context by a merge pass it
 on to their successors

---
 lr1/pgm/states.go | 97 ++++++++++++++++++-----------------------------
 1 file changed, 36 insertions(+), 61 deletions(-)

diff --git a/lr1/pgm/states.go b/lr1/pgm/states.go
index fdea0bd..851e77b 100644
--- a/lr1/pgm/states.go
+++ b/lr1/pgm/states.go
@@ -13,22 +13,20 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 	}
 	s.NewState0(symbols, lr0items, first, states.NewConfigGroup(lr0items.List[0], "$"))
 	symSuccessors := symbolsuccessors.NewSymbolSuccessors()
-	for si := 0; si < len(s.List); si++ {
+	todo := []*states.State{s.List[0]}
+	for len(todo) > 0 {
+		state := todo[0]
+		todo = todo[1:]
 		st_trans := make([]states.Transition, 0, 4)
-		for _, trans := range s.List[si].Next().List() {
+		for _, trans := range state.Next().List() {
 			merged := false
 			for _, snum := range symSuccessors[trans.Sym] {
-				if weaklyCompatibleStates(s.List[snum], trans.State) {
+				if !merged && weaklyCompatibleStates(s.List[snum], trans.State) {
 					merged = true
-					newStates := mergeStates(s.List[snum], trans.State)
-					for sym, states := range newStates {
-						for _, state := range states {
-							s.List = append(s.List, state)
-							state.Number = len(s.List) - 1
-							symSuccessors[sym] = append(symSuccessors[sym], state.Number)
-						}
+					if mergeStates(s.List[snum], trans.State) {
+						// the successors must get the new context
+						todo = append(todo, s.List[snum])
 					}
-
 					st_trans = append(st_trans, states.Transition{Sym: trans.Sym, State: s.List[snum]})
 				}
 			}
@@ -37,81 +35,58 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 				s.List = append(s.List, trans.State)
 				trans.State.Number = len(s.List) - 1
 				symSuccessors[trans.Sym] = append(symSuccessors[trans.Sym], trans.State.Number)
+				todo = append(todo, trans.State)
 			}
 		}
-		s.List[si].Transitions = states.NewTransitionsList(st_trans, symbols)
+		state.Transitions = states.NewTransitionsList(st_trans, symbols)
 	}
+	s.List = reachable(s.List[0])
 	// s.GenActions()
 	return s
 }
 
-func makeContext(from *states.ConfigGroupSet, to *states.ConfigGroupSet) *states.ConfigGroupSet {
-	newNucleus := to.CloneFromCore()
-	for _, cfg := range from.List() {
-		if toCfg := newNucleus.GetGroupByCore(cfg.Item.NextItem); toCfg != nil {
-			toCfg.AddContext(cfg.ContextSet.List...)
+/*
+Return the states that can be reached from start, numbered in the order of the list.
+A state of which the context was expanded may have left its old successors.
+*/
+func reachable(start *states.State) (list []*states.State) {
+	list = append(list, start)
+	done := map[*states.State]bool{start: true}
+	for i := 0; i < len(list); i++ {
+		list[i].Number = i
+		for _, t := range list[i].Transitions.List() {
+			if !done[t.State] {
+				done[t.State] = true
+				list = append(list, t.State)
+			}
 		}
 	}
-	return newNucleus
-}
-
-func mergeStates(this *states.State, that *states.State) (newStates map[string][]*states.State) {
-	oldNucleus := this.Nucleus.Clone()
-	mergeCfgGrpSet(this.Nucleus, that.Nucleus)
-	this.NonNucleus = states.NewConfigGroupSet()
-	this.Closure()
-	cfgDiff := this.Nucleus.ContextDiff(oldNucleus)
-	cfgDiff.Add(this.NonNucleus.List()...)
-	return propagateContext(this, cfgDiff)
+	return
 }
 
 /*
-The context of all config groups in that, which give context to the nucleus group of this,
-is merged into the nucleus of this.
+mergeStates adds the context of that to this and returns true iff it had new context.
 */
-func mergeContext(this *states.State, thatNucleus *states.ConfigGroupSet) {
-	for _, grp := range thatNucleus.List() {
-		this.Nucleus.GetGroup(grp).AddContext(grp.ContextSet.List...)
+func mergeStates(this *states.State, that *states.State) bool {
+	if !mergeCfgGrpSet(this.Nucleus, that.Nucleus) {
+		return false
 	}
 	this.NonNucleus = states.NewConfigGroupSet()
 	this.Closure()
-}
-
-/*
-Return a map of (symbol:*states.State) of newly generated states. Each new state has minus the same number as the one it replaces.
-For example: The existing set has number 10 and the new state -10. The caller of this function must resolve
-the state numbers as other sets may still have valid transitions to the original.
-*/
-func propagateContext(this *states.State, expandedNucleusCfGrps *states.ConfigGroupSet) (newStates map[string][]*states.State) {
-	newStates = make(map[string][]*states.State)
-	if this.Transitions == nil {
-		return
-	}
-	for _, t := range this.Transitions.List() {
-		sym, nextState := t.Sym, t.State
-		newNucleus := makeContext(expandedNucleusCfGrps, nextState.Nucleus)
-		if weaklyCompatibleCfgGrpSet(nextState.Nucleus, newNucleus) {
-			mergeContext(nextState, newNucleus)
-		} else {
-			newState := this.NextSymbol(sym)
-			newState.Number = -nextState.Number
-			this.Transitions.Replace(sym, newState)
-			newStates[sym] = append(newStates[sym], newState)
-		}
-	}
-	return
+	return true
 }
 
 func weaklyCompatibleStates(this *states.State, that *states.State) bool {
 	return weaklyCompatibleCfgGrpSet(this.Nucleus, that.Nucleus)
 }
 
-func mergeCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) {
+func mergeCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) (newContext bool) {
 	for _, cfGrp := range this.List() {
-		if diffContext := that.GetGroup(cfGrp).ContextSet.Diff(cfGrp.ContextSet); diffContext.Size() > 0 {
-			cfGrp.ContextSet.Add(diffContext.List...)
+		if cfGrp.ContextSet.Add(that.GetGroup(cfGrp).ContextSet.List...) {
+			newContext = true
 		}
 	}
+	return
 }
 
 /*
-- 
2.43.0


From 6e9f08cb9947b450a6bf97f9de17c33141173c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 20/23] fix: lexical rules that refer to the same token do not
 overwrite each other's symbols

---
 ast/build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/build.go b/ast/build.go
index 4395f06..7688c23 100644
--- a/ast/build.go
+++ b/ast/build.go
@@ -197,7 +197,8 @@ func (bld *builder) getLexRuleBody(tokid *token.Token) []LexSymbol {
 	if lexRule == nil {
 		bld.fail(fmt.Errorf("token %s not defined yet", tokid.LiteralString()), tokid.Lext())
 	}
-	return lexRule.RegExp.Symbols
+	// a copy, because the symbols of the referring rule are appended to it
+	return append([]LexSymbol{}, lexRule.RegExp.Symbols...)
 }
 
 // LexSymbol
-- 
2.43.0


From 5ddc025e0de20f720f28fbedb9cc2c9857c66954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:04 +0000
Subject: [PATCH 21/23] fix: the symbols, first/follow and lexical automaton
 reports are the same in every run

---
 ast/ast.go                     | 2 +-
 gen/firstfollow/firstfollow.go | 6 +++---
 lex/items/items.go             | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 0368357..8fcf0de 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -90,7 +90,7 @@ func (g *GoGLL) GetSyntaxRule(nt string) *SyntaxRule {
 }
 
 func (g *GoGLL) GetSymbols() []string {
-	return append(g.Terminals.Elements(), g.NonTerminals.Elements()...)
+	return append(g.Terminals.ElementsSorted(), g.NonTerminals.ElementsSorted()...)
 }
 
 func (g *GoGLL) StartSymbol() string {
diff --git a/gen/firstfollow/firstfollow.go b/gen/firstfollow/firstfollow.go
index 312bdf1..4fafd98 100644
--- a/gen/firstfollow/firstfollow.go
+++ b/gen/firstfollow/firstfollow.go
@@ -49,21 +49,21 @@ func genFirstSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
 
 func genFirstSet(w io.Writer, symbol string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "%s: ", symbol)
-	for _, s := range ff.FirstOfSymbol(symbol).Elements() {
+	for _, s := range ff.FirstOfSymbol(symbol).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
 }
 
 func genFollowSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
-	for _, s := range g.NonTerminals.Elements() {
+	for _, s := range g.NonTerminals.ElementsSorted() {
 		genFollowSet(w, s, ff)
 	}
 }
 
 func genFollowSet(w io.Writer, nt string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "Follow(%s): ", nt)
-	for _, s := range ff.Follow(nt).Elements() {
+	for _, s := range ff.Follow(nt).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
diff --git a/lex/items/items.go b/lex/items/items.go
index 5160c4f..64e6190 100644
--- a/lex/items/items.go
+++ b/lex/items/items.go
@@ -218,8 +218,8 @@ func set0(g *ast.GoGLL) *Set {
 	for _, rule := range g.LexRules {
 		s0.Add(item.New(rule).Emoves()...)
 	}
-	for _, sl := range g.StringLiterals {
-		s0.Add(item.New(stringLitToRule(sl)))
+	for _, id := range g.GetStringLiterals() {
+		s0.Add(item.New(stringLitToRule(g.StringLiterals[id])))
 	}
 	return s0
 }
-- 
2.43.0


From 0ab806138edff9b9250c39439c85c7ad17f953d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:04 +0000
Subject: [PATCH 22/23] fix: lexical items with a % are reported as they are

---
 lex/item/item.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lex/item/item.go b/lex/item/item.go
index e946bf6..fada540 100644
--- a/lex/item/item.go
+++ b/lex/item/item.go
@@ -225,7 +225,7 @@ func (i *Item) stringRegExp(regExp *ast.RegExp, pos *pos.Pos) string {
 		if i.Pos.Equal(pos) {
 			fmt.Fprintf(w, "•")
 		}
-		fmt.Fprintf(w, i.stringSymbol(symbol, pos))
+		fmt.Fprint(w, i.stringSymbol(symbol, pos))
 		pos.Inc()
 	}
 	if i.Pos.Equal(pos) {
@@ -238,14 +238,14 @@ func (i *Item) stringSymbol(symbol ast.LexSymbol, pos *pos.Pos) string {
 	// fmt.Printf("item.stringSymbol %s pos=%s\n", symbol, pos)
 	w := new(bytes.Buffer)
 	if brkt, ok := symbol.(*ast.LexBracket); ok {
-		fmt.Fprintf(w, brkt.LeftBracket())
+		fmt.Fprint(w, brkt.LeftBracket())
 		for j, alt := range brkt.Alternates {
 			if j > 0 {
 				fmt.Fprintf(w, "| ")
 			}
 			fmt.Fprint(w, i.stringRegExp(alt, pos.Clone().Push(j).Push(0)))
 		}
-		fmt.Fprintf(w, brkt.RightBracket())
+		fmt.Fprint(w, brkt.RightBracket())
 	} else {
 		fmt.Fprintf(w, "%s ", symbol)
 	}
-- 
2.43.0


From 6ffe992a0a1d07e916bef0ab8b931ede1539c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 23/23] fix: a grammar symbol named "error" does not make an
 LR(1) state recover

CanRecover took any symbol named "error" for the error token, whose name in
the action table is "Error". A generated parser popped its stack back to such
a state before it reported a syntax error, and listed the tokens expected
there instead of those that can continue the input.
---
 lr1/states/state.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lr1/states/state.go b/lr1/states/state.go
index cc945c9..9a538a9 100644
--- a/lr1/states/state.go
+++ b/lr1/states/state.go
@@ -55,9 +55,11 @@ func (this *State) Add(cg ...*ConfigGroup) *State {
 	return this
 }
 
+// CanRecover returns true iff this state can shift the error token. "error" is a
+// symbol of the user's grammar like any other.
 func (this *State) CanRecover() bool {
 	for _, cfgrp := range this.NonNucleus.List() {
-		if cfgrp.Item.ExpectedSymbol() == "error" {
+		if cfgrp.Item.ExpectedSymbol() == "Error" {
 			return true
 		}
 	}
-- 
2.43.0

