From 5400bd96ffbfcf8eae89ee685cfe09e2bc1b2e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 01/30] fix: object Seq must not match when an item differs

The break on a mismatch only left the comparison loop, so Seq matched any
sequence of the right length.
---
 object/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object/parsers.go b/object/parsers.go
index 128ed79..4773af8 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -53,7 +53,7 @@ func Seq(seq ...interface{}) ParserFn {
 			w := ctx.Slice.Reslice(ctx.Position, ctx.Position+length)
 			for i := 0; i < length; i++ {
 				if !w.ItemEquals(w.Get(i), seq[i]) {
-					break
+					return ctx, nil
 				}
 			}
 			ctx.AstStack = append(ctx.AstStack, Ast{
-- 
2.43.0


From e47ba81b4d0f933471d8a8383874e9e7b44b2d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 02/30] fix: Exchange panicked with index out of range

The work slice has length-2 elements when its last two are assigned.
---
 base/transformers.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index e0085d5..534d3fe 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -152,8 +152,7 @@ func Exchange(_ ParserContext, asts AstSlice) (AstSlice, error) {
 	if 2 <= length {
 		w := make(AstSlice, 0, length)
 		w = append(w, asts[:length-2]...)
-		w[length-2] = asts[length-1]
-		w[length-1] = asts[length-2]
+		w = append(w, asts[length-1], asts[length-2])
 		return w, nil
 	} else {
 		return asts, nil
-- 
2.43.0


From a135a65b81a0342e7ccdfa537534c507d90e026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 03/30] fix: Roll left the elements where they were

---
 base/transformers.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index 534d3fe..40ac0ff 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -174,19 +174,16 @@ func Exchange(_ ParserContext, asts AstSlice) (AstSlice, error) {
 func Roll(n int) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
 		length := len(asts)
-		if 0 <= n {
-			if n < length {
-				return asts, nil
-			} else {
-				return asts, nil
-			}
-		} else {
-			m := -n
-			if m < length {
-				return asts, nil
-			} else {
-				return asts, nil
-			}
+		if length == 0 {
+			return asts, nil
 		}
+		m := n % length
+		if m < 0 {
+			m += length
+		}
+		w := make(AstSlice, 0, length)
+		w = append(w, asts[m:]...)
+		w = append(w, asts[:m]...)
+		return w, nil
 	}
 }
-- 
2.43.0


From 60bb77e80f043b7d9629f6a79fbe0bcbe07b4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 04/30] fix: Prepend and Push wrote the position into the
 captured node

The transformer kept the source position of an earlier run, and concurrent
parses raced on it.
---
 base/transformers.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index 40ac0ff..5f7d5ce 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -111,11 +111,11 @@ func SetValue(typ AstType, v interface{}) TransformerFn {
 // Prepend a AST to the AST slice.
 func Prepend(ast Ast) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
-		if 0 < len(asts) {
-			ast.SourcePosition = asts[0].SourcePosition
-		}
 		w := make(AstSlice, 1, len(asts)+1)
 		w[0] = ast
+		if 0 < len(asts) {
+			w[0].SourcePosition = asts[0].SourcePosition
+		}
 		w = append(w, asts...)
 		return w, nil
 	}
@@ -125,12 +125,12 @@ func Prepend(ast Ast) TransformerFn {
 // Append a AST to the AST slice.
 func Push(ast Ast) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
-		if 0 < len(asts) {
-			ast.SourcePosition = asts[len(asts)-1].SourcePosition
-		}
 		w := make(AstSlice, 0, len(asts)+1)
 		w = append(w, asts...)
 		w = append(w, ast)
+		if 0 < len(asts) {
+			w[len(asts)].SourcePosition = asts[len(asts)-1].SourcePosition
+		}
 		return w, nil
 	}
 }
-- 
2.43.0


From 59e136cbeee14d90ca55a67c0e0d2ea4d160d578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 05/30] fix: word boundaries after 4-byte and invalid
 characters

The search for the previous character skipped lead bytes F1, F2 and F4 and
bytes that are not UTF-8, and so judged an earlier character instead.
---
 extra/extra.go    | 15 +--------------
 string/parsers.go | 15 +--------------
 2 files changed, 2 insertions(+), 28 deletions(-)

diff --git a/extra/extra.go b/extra/extra.go
index 4d50ad7..cebda4a 100644
--- a/extra/extra.go
+++ b/extra/extra.go
@@ -253,20 +253,7 @@ func UnicodeWordBoundary() ParserFn {
 			return ctx, nil
 		}
 
-		// Finds the UTF-8 leading byte of the previous character.
-		var prevCh rune
-		var prevChLength int
-		for i := ctx.Position - 1; 0 <= i; i-- {
-			b := ctx.Str[i]
-
-			// TODO: BUG: Valid range is `b <= 0x7f || 0xc2 <= b && b <= 0xf4`
-			// https://github.com/golang/go/blob/0a86cd6857b9fb12a798b3dbcfb6974384aa07d6/src/unicode/utf8/utf8.go#L65-L84
-
-			if b <= 0x7f || 0xc2 <= b && b <= 0xf0 || b == 0xf3 {
-				prevCh, prevChLength = utf8.DecodeRuneInString(ctx.Str[i:])
-				break
-			}
-		}
+		prevCh, prevChLength := utf8.DecodeLastRuneInString(ctx.Str[:ctx.Position])
 
 		if ctx.Position == len(ctx.Str) {
 			if 0 < prevChLength && isUnicodeWord(prevCh) {
diff --git a/string/parsers.go b/string/parsers.go
index bac8378..89805c0 100644
--- a/string/parsers.go
+++ b/string/parsers.go
@@ -509,20 +509,7 @@ func WordBoundary() ParserFn {
 			return ctx, nil
 		}
 
-		// Finds the UTF-8 leading byte of the previous character.
-		var prevCh rune
-		var prevChLength int
-		for i := ctx.Position - 1; 0 <= i; i-- {
-			b := ctx.Str[i]
-
-			// TODO: BUG: Valid range is `b <= 0x7f || 0xc2 <= b && b <= 0xf4`
-			// https://github.com/golang/go/blob/0a86cd6857b9fb12a798b3dbcfb6974384aa07d6/src/unicode/utf8/utf8.go#L65-L84
-
-			if b <= 0x7f || 0xc2 <= b && b <= 0xf0 || b == 0xf3 {
-				prevCh, prevChLength = utf8.DecodeRuneInString(ctx.Str[i:])
-				break
-			}
-		}
+		prevCh, prevChLength := utf8.DecodeLastRuneInString(ctx.Str[:ctx.Position])
 
 		if ctx.Position == len(ctx.Str) {
 			if 0 < prevChLength && isWord(prevCh) {
-- 
2.43.0


From 95b3ea8f8157ce3b884db3b15892e2b809a51bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 06/30] fix: ParseUint panicked on an empty text

---
 string/transformers.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/string/transformers.go b/string/transformers.go
index e141100..180a40f 100644
--- a/string/transformers.go
+++ b/string/transformers.go
@@ -108,10 +108,7 @@ func parseUintImpl(base int, ctx ParserContext, asts AstSlice) (AstSlice, error)
 		return nil, err
 	}
 	str := asts[0].Value.(string)
-	str2 := str
-	if str2[0] == '+' {
-		str2 = str2[1:]
-	}
+	str2 := strings.TrimPrefix(str, "+")
 	num, err := strconv.ParseUint(str2, base, 64)
 	if err != nil {
 		return nil, errors.New("Transformer:parseUintImpl:Bad number format:" + str + ":" + err.Error())
-- 
2.43.0


From f29f2921093c45848751a7d4ff9226903fc261a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 07/30] fix: data race in Indirect when two parses use a new
 parser

The deferred parser was built and cached without synchronisation.
---
 base/parsers.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/parsers.go b/base/parsers.go
index 5cef4de..8bbdb73 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"errors"
+	"sync"
 
 	clsz "github.com/shellyln/takenoco/base/classes"
 )
@@ -11,10 +12,11 @@ import (
 func Indirect(fn func() ParserFn) ParserFn {
 	const ClassName = clsz.Indirect
 	var parser ParserFn
+	var once sync.Once
 	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
-		if parser == nil {
+		once.Do(func() {
 			parser = fn()
-		}
+		})
 		return parser(ctx)
 	})
 }
-- 
2.43.0


From 59b785d2b2db726e1d42af6a13cc188079358bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 08/30] fix: node types of IntFromRune, RuneFromInt and
 ObjClassN

IntFromRune and ObjClassN declared their value a string (Concat then panics
on it), RuneFromInt declared it unknown.
---
 object/parsers.go      | 2 +-
 string/transformers.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/object/parsers.go b/object/parsers.go
index 4773af8..f1d9977 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -113,7 +113,7 @@ func ObjClassN(oc ...interface{}) ParserFn {
 
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
-				Type:           AstType_String,
+				Type:           AstType_Any,
 				Value:          w,
 				SourcePosition: ctx.SourcePosition,
 			})
diff --git a/string/transformers.go b/string/transformers.go
index 180a40f..6229f08 100644
--- a/string/transformers.go
+++ b/string/transformers.go
@@ -154,7 +154,7 @@ func ParseFloat(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 func RuneFromInt(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 	return AstSlice{{
 		ClassName:      asts[0].ClassName,
-		Type:           AstType_Any,
+		Type:           AstType_Rune,
 		Value:          rune(asts[0].Value.(int64)),
 		SourcePosition: asts[0].SourcePosition,
 	}}, nil
@@ -165,7 +165,7 @@ func RuneFromInt(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 func IntFromRune(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 	return AstSlice{{
 		ClassName:      asts[0].ClassName,
-		Type:           AstType_String,
+		Type:           AstType_Int,
 		Value:          int64(asts[0].Value.(rune)),
 		SourcePosition: asts[0].SourcePosition,
 	}}, nil
-- 
2.43.0


From b3b4f53cf037e11124a87b86e8fee563521d239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 09/30] fix: Match(n) panicked with fewer than n nodes on the
 stack

---
 base/match.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/match.go b/base/match.go
index bdaef15..f0bb343 100644
--- a/base/match.go
+++ b/base/match.go
@@ -17,6 +17,9 @@ func Match(n int) func(cases ...Case) ParserFn {
 	return func(cases ...Case) ParserFn {
 		return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
 			sp := len(ctx.AstStack) - n
+			if sp < 0 {
+				sp = 0
+			}
 			ctx.Length = 0
 			ctx.MatchStatus = MatchStatus_Unmatched
 
-- 
2.43.0


From f588927aceefe461ac2cd6c7fcb64c27968a11cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 10/30] fix: nodes recorded the length of the previous token

The context's Length was updated only after its position had been copied to
the new node.
---
 base/parsers.go   |  2 +-
 object/parsers.go | 10 +++++-----
 string/parsers.go | 34 +++++++++++++++++-----------------
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/base/parsers.go b/base/parsers.go
index 8bbdb73..a64814a 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -55,11 +55,11 @@ func Zero(astsToInsert ...Ast) ParserFn {
 	const ClassName = clsz.Zero
 	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
 		savedLen := len(ctx.AstStack)
+		ctx.Length = 0
 		ctx.AstStack = append(ctx.AstStack, astsToInsert...)
 		for i := 0; i < len(astsToInsert); i++ {
 			ctx.AstStack[savedLen+i].SourcePosition = ctx.SourcePosition
 		}
-		ctx.Length = 0
 		ctx.MatchStatus = MatchStatus_Matched
 		return ctx, nil
 	})
diff --git a/object/parsers.go b/object/parsers.go
index f1d9977..49c5db3 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -13,6 +13,7 @@ func Any() ParserFn {
 
 		if ctx.Position+1 <= ctx.Slice.Len() {
 			w := ctx.Slice.Get(ctx.Position)
+			ctx.Length = 1
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_Any,
@@ -20,7 +21,6 @@ func Any() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += 1
-			ctx.Length = 1
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -56,6 +56,7 @@ func Seq(seq ...interface{}) ParserFn {
 					return ctx, nil
 				}
 			}
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_ListOfAny,
@@ -63,7 +64,6 @@ func Seq(seq ...interface{}) ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -80,6 +80,7 @@ func ObjClass(oc ...interface{}) ParserFn {
 			w := ctx.Slice.Get(ctx.Position)
 			for _, s := range oc {
 				if ctx.Slice.ItemEquals(w, s) {
+					ctx.Length = 1
 					ctx.AstStack = append(ctx.AstStack, Ast{
 						ClassName:      ClassName,
 						Type:           AstType_Any,
@@ -87,7 +88,6 @@ func ObjClass(oc ...interface{}) ParserFn {
 						SourcePosition: ctx.SourcePosition,
 					})
 					ctx.Position += 1
-					ctx.Length = 1
 					ctx.MatchStatus = MatchStatus_Matched
 					break
 				}
@@ -111,6 +111,7 @@ func ObjClassN(oc ...interface{}) ParserFn {
 				}
 			}
 
+			ctx.Length = 1
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_Any,
@@ -118,7 +119,6 @@ func ObjClassN(oc ...interface{}) ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += 1
-			ctx.Length = 1
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 
@@ -135,6 +135,7 @@ func ObjClassFn(fn func(c interface{}) bool) ParserFn {
 		if ctx.Position+1 <= ctx.Slice.Len() {
 			w := ctx.Slice.Get(ctx.Position)
 			if fn(w) {
+				ctx.Length = 1
 				ctx.AstStack = append(ctx.AstStack, Ast{
 					ClassName:      ClassName,
 					Type:           AstType_Any,
@@ -142,7 +143,6 @@ func ObjClassFn(fn func(c interface{}) bool) ParserFn {
 					SourcePosition: ctx.SourcePosition,
 				})
 				ctx.Position += 1
-				ctx.Length = 1
 				ctx.MatchStatus = MatchStatus_Matched
 			}
 		}
diff --git a/string/parsers.go b/string/parsers.go
index 89805c0..f2e7750 100644
--- a/string/parsers.go
+++ b/string/parsers.go
@@ -20,6 +20,7 @@ func Any() ParserFn {
 		}
 		s := string(ch)
 
+		ctx.Length = length
 		ctx.AstStack = append(ctx.AstStack, Ast{
 			ClassName:      ClassName,
 			Type:           AstType_String,
@@ -27,7 +28,6 @@ func Any() ParserFn {
 			SourcePosition: ctx.SourcePosition,
 		})
 		ctx.Position += length
-		ctx.Length = length
 		ctx.MatchStatus = MatchStatus_Matched
 
 		return ctx, nil
@@ -59,6 +59,7 @@ func Seq(s string) ParserFn {
 		if ctx.Position+length <= len(ctx.Str) {
 			w := ctx.Str[ctx.Position : ctx.Position+length]
 			if w == s {
+				ctx.Length = length
 				ctx.AstStack = append(ctx.AstStack, Ast{
 					ClassName:      ClassName,
 					Type:           AstType_String,
@@ -66,7 +67,6 @@ func Seq(s string) ParserFn {
 					SourcePosition: ctx.SourcePosition,
 				})
 				ctx.Position += length
-				ctx.Length = length
 				ctx.MatchStatus = MatchStatus_Matched
 			}
 		}
@@ -84,6 +84,7 @@ func SeqI(s string) ParserFn {
 		if ctx.Position+length <= len(ctx.Str) {
 			w := ctx.Str[ctx.Position : ctx.Position+length]
 			if strings.EqualFold(w, s) {
+				ctx.Length = length
 				ctx.AstStack = append(ctx.AstStack, Ast{
 					ClassName:      ClassName,
 					Type:           AstType_String,
@@ -91,7 +92,6 @@ func SeqI(s string) ParserFn {
 					SourcePosition: ctx.SourcePosition,
 				})
 				ctx.Position += length
-				ctx.Length = length
 				ctx.MatchStatus = MatchStatus_Matched
 			}
 		}
@@ -113,6 +113,7 @@ func CharRange(cr ...RuneRange) ParserFn {
 
 		for _, rr := range cr {
 			if rr.Start <= ch && ch <= rr.End {
+				ctx.Length = length
 				ctx.AstStack = append(ctx.AstStack, Ast{
 					ClassName:      ClassName,
 					Type:           AstType_String,
@@ -120,7 +121,6 @@ func CharRange(cr ...RuneRange) ParserFn {
 					SourcePosition: ctx.SourcePosition,
 				})
 				ctx.Position += length
-				ctx.Length = length
 				ctx.MatchStatus = MatchStatus_Matched
 				break
 			}
@@ -146,6 +146,7 @@ func CharRangeN(cr ...RuneRange) ParserFn {
 				return ctx, nil
 			}
 		}
+		ctx.Length = length
 		ctx.AstStack = append(ctx.AstStack, Ast{
 			ClassName:      ClassName,
 			Type:           AstType_String,
@@ -153,7 +154,6 @@ func CharRangeN(cr ...RuneRange) ParserFn {
 			SourcePosition: ctx.SourcePosition,
 		})
 		ctx.Position += length
-		ctx.Length = length
 		ctx.MatchStatus = MatchStatus_Matched
 		return ctx, nil
 	})
@@ -170,6 +170,7 @@ func CharClass(cc ...string) ParserFn {
 			if ctx.Position+length <= len(ctx.Str) {
 				w := ctx.Str[ctx.Position : ctx.Position+length]
 				if w == s {
+					ctx.Length = length
 					ctx.AstStack = append(ctx.AstStack, Ast{
 						ClassName:      ClassName,
 						Type:           AstType_String,
@@ -177,7 +178,6 @@ func CharClass(cc ...string) ParserFn {
 						SourcePosition: ctx.SourcePosition,
 					})
 					ctx.Position += length
-					ctx.Length = length
 					ctx.MatchStatus = MatchStatus_Matched
 					break
 				}
@@ -209,6 +209,7 @@ func CharClassN(cc ...string) ParserFn {
 		}
 		s := string(ch)
 
+		ctx.Length = length
 		ctx.AstStack = append(ctx.AstStack, Ast{
 			ClassName:      ClassName,
 			Type:           AstType_String,
@@ -216,7 +217,6 @@ func CharClassN(cc ...string) ParserFn {
 			SourcePosition: ctx.SourcePosition,
 		})
 		ctx.Position += length
-		ctx.Length = length
 		ctx.MatchStatus = MatchStatus_Matched
 
 		return ctx, nil
@@ -236,6 +236,7 @@ func CharClassFn(fn func(c rune) bool) ParserFn {
 		s := string(ch)
 
 		if fn(ch) {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -243,7 +244,6 @@ func CharClassFn(fn func(c rune) bool) ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -263,6 +263,7 @@ func Whitespace() ParserFn {
 		s := string(ch)
 
 		if isWhitespace(ch) {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -270,7 +271,6 @@ func Whitespace() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -290,6 +290,7 @@ func WhitespaceNoLineBreak() ParserFn {
 		s := string(ch)
 
 		if isWhitespaceNoLineBreak(ch) {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -297,7 +298,6 @@ func WhitespaceNoLineBreak() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -317,6 +317,7 @@ func LineBreak() ParserFn {
 		s := string(ch)
 
 		if isLineBreak(ch) {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -324,7 +325,6 @@ func LineBreak() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -344,6 +344,7 @@ func Alpha() ParserFn {
 		s := string(ch)
 
 		if 'A' <= ch && ch <= 'Z' || 'a' <= ch && ch <= 'z' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -351,7 +352,6 @@ func Alpha() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -371,6 +371,7 @@ func Number() ParserFn {
 		s := string(ch)
 
 		if '0' <= ch && ch <= '9' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -378,7 +379,6 @@ func Number() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -398,6 +398,7 @@ func Alnum() ParserFn {
 		s := string(ch)
 
 		if 'A' <= ch && ch <= 'Z' || 'a' <= ch && ch <= 'z' || '0' <= ch && ch <= '9' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -405,7 +406,6 @@ func Alnum() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -425,6 +425,7 @@ func BinNumber() ParserFn {
 		s := string(ch)
 
 		if '0' <= ch && ch <= '1' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -432,7 +433,6 @@ func BinNumber() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -452,6 +452,7 @@ func OctNumber() ParserFn {
 		s := string(ch)
 
 		if '0' <= ch && ch <= '7' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -459,7 +460,6 @@ func OctNumber() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -479,6 +479,7 @@ func HexNumber() ParserFn {
 		s := string(ch)
 
 		if '0' <= ch && ch <= '9' || 'A' <= ch && ch <= 'F' || 'a' <= ch && ch <= 'f' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -486,7 +487,6 @@ func HexNumber() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
-- 
2.43.0


From d4ffbdb433ff3e0b082d3da4cf6bbe8fb7a3a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 11/30] fix: look-around reported the status or position of the
 wrong context

A matching LookBehind and LookAhead returned the incoming context's status,
an unmatched LookBehindN the position it had looked behind to.
---
 base/base.go    | 1 +
 base/parsers.go | 5 ++---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/base.go b/base/base.go
index b714567..53f6308 100644
--- a/base/base.go
+++ b/base/base.go
@@ -148,6 +148,7 @@ func BaseParser(
 
 		if rewind {
 			out = ctx
+			out.MatchStatus = MatchStatus_Matched
 		}
 
 		if tr != nil {
diff --git a/base/parsers.go b/base/parsers.go
index a64814a..caccf5b 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -141,14 +141,13 @@ func lookBehindBase(negative bool, minN, maxN int, children ...ParserFn) ParserF
 				return out, err
 			}
 			if out.MatchStatus == MatchStatus_Matched {
+				out = ctx
 				if negative {
 					out.MatchStatus = MatchStatus_Unmatched
-					return out, nil
 				} else {
-					out = ctx
 					out.MatchStatus = MatchStatus_Matched
-					return ctx, nil
 				}
+				return out, nil
 			}
 		}
 		out := ctx
-- 
2.43.0


From 52e32920436184d8c8614d5d1a4c1db6f1b66632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 12/30] fix: FloatNumberStr and NumericStr accepted '._' as a
 number

---
 extra/extra.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/extra/extra.go b/extra/extra.go
index cebda4a..befd778 100644
--- a/extra/extra.go
+++ b/extra/extra.go
@@ -126,7 +126,10 @@ func FloatNumberStr() ParserFn {
 					ZeroOrOnce(exponentStr()),
 				),
 				FlatGroup(
-					CharClass("."), OneOrMoreTimes(First(Number(), erase(CharClass("_")))),
+					CharClass("."),
+					ZeroOrMoreTimes(erase(CharClass("_"))),
+					Number(),
+					ZeroOrMoreTimes(First(Number(), erase(CharClass("_")))),
 					ZeroOrOnce(exponentStr()),
 				),
 				FlatGroup(
@@ -169,7 +172,10 @@ func NumericStr() ParserFn {
 					ZeroOrOnce(CharClass("."), ZeroOrMoreTimes(First(Number(), erase(CharClass("_"))))),
 				),
 				FlatGroup(
-					CharClass("."), OneOrMoreTimes(First(Number(), erase(CharClass("_")))),
+					CharClass("."),
+					ZeroOrMoreTimes(erase(CharClass("_"))),
+					Number(),
+					ZeroOrMoreTimes(First(Number(), erase(CharClass("_")))),
 				),
 			),
 			ZeroOrOnce(exponentStr()),
-- 
2.43.0


From 67fba7ee183425ee532964dc6ae3cb7c67ff5cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 13/30] fix: csv example dropped doubled quotes instead of
 reading one quote

---
 _examples/csv/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/_examples/csv/parser.go b/_examples/csv/parser.go
index 2bb5259..bd2e927 100644
--- a/_examples/csv/parser.go
+++ b/_examples/csv/parser.go
@@ -39,7 +39,7 @@ func quotedCell() ParserFn {
 				erase(Seq("\"")),
 				ZeroOrMoreTimes(
 					First(
-						erase(Seq("\"\"")),
+						FlatGroup(erase(Seq("\"")), Seq("\"")),
 						CharClassN("\""),
 					),
 				),
-- 
2.43.0


From 841c7b367c583f8f44aac56804b538b5bf6f3f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 14/30] fix: csv example wrote quotes and outer whitespace
 unquoted

A cell that begins with a quote or begins or ends with whitespace was read
back as another cell.
---
 _examples/csv/marshal.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 4493d3d..aaf5292 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -14,6 +14,8 @@ func toCsvRow(sb *strings.Builder, row []string) {
 			sb.WriteString(",")
 		}
 		if 0 <= strings.IndexRune(row[i], ',') ||
+			0 <= strings.IndexRune(row[i], '"') ||
+			strings.TrimSpace(row[i]) != row[i] ||
 			0 <= strings.IndexRune(row[i], '\u000a') ||
 			0 <= strings.IndexRune(row[i], '\u000b') ||
 			0 <= strings.IndexRune(row[i], '\u000c') ||
-- 
2.43.0


From af94eac7a6f28fbf8a17fb9da661a316b5cc41bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 15/30] fix: csv Marshal wrote fields that are not listed into
 the first column

---
 _examples/csv/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index aaf5292..524bff8 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -99,7 +99,10 @@ func Marshal(cols []string, a interface{}) (string, error) {
 		}
 		for k, v := range mapping {
 			rvf := rvi.FieldByName(k)
-			index := columns[v]
+			index, ok := columns[v]
+			if !ok {
+				continue
+			}
 			switch colTypes[k] {
 			case reflect.String:
 				rowBuf[index] = rvf.String()
-- 
2.43.0


From ba67c40519824c211c44058ff430756e93d5ffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 16/30] fix: csv Unmarshal panicked on rows shorter than the
 header

---
 _examples/csv/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 524bff8..044da82 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -194,7 +194,10 @@ func Unmarshal(pa interface{}, s string) error {
 		rvi := slice.Index(i)
 		for k, v := range mapping {
 			rvf := rvi.FieldByName(v)
-			w := data[i+1][columns[k]] // TODO: check slice length
+			if len(data[i+1]) <= columns[k] {
+				return errors.New("Row " + strconv.Itoa(i+1) + " has no column " + k)
+			}
+			w := data[i+1][columns[k]]
 			switch colTypes[k] {
 			case reflect.String:
 				rvf.SetString(w)
-- 
2.43.0


From 10423d38734c7af5aec8beeee30de9764196901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 17/30] fix: csv Unmarshal cut numbers too big for the field

---
 _examples/csv/marshal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 044da82..fa2c95e 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -202,19 +202,19 @@ func Unmarshal(pa interface{}, s string) error {
 			case reflect.String:
 				rvf.SetString(w)
 			case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
-				z, err := strconv.ParseInt(w, 10, 64)
+				z, err := strconv.ParseInt(w, 10, rvf.Type().Bits())
 				if err != nil {
 					return err
 				}
 				rvf.SetInt(z)
 			case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
-				z, err := strconv.ParseUint(w, 10, 64)
+				z, err := strconv.ParseUint(w, 10, rvf.Type().Bits())
 				if err != nil {
 					return err
 				}
 				rvf.SetUint(z)
 			case reflect.Float64, reflect.Float32:
-				z, err := strconv.ParseFloat(w, 64)
+				z, err := strconv.ParseFloat(w, rvf.Type().Bits())
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From fc7b58cfb7c498dfd904a7c5e85498cf22b276bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 18/30] fix: formula example panicked on division by zero

---
 _examples/formula/precedence.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/_examples/formula/precedence.go b/_examples/formula/precedence.go
index 2c73dff..5ca596e 100644
--- a/_examples/formula/precedence.go
+++ b/_examples/formula/precedence.go
@@ -1,6 +1,8 @@
 package formula
 
 import (
+	"errors"
+
 	. "github.com/shellyln/takenoco/base"
 	objparser "github.com/shellyln/takenoco/object"
 )
@@ -52,6 +54,9 @@ var expressionRule2 = Precedence{
 				case "*":
 					v = op1 * op2
 				case "/":
+					if op2 == 0 {
+						return nil, errors.New("Division by zero")
+					}
 					v = op1 / op2
 				}
 
-- 
2.43.0


From 1b906580917b04f1861b7b3d70b3481356673831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 19/30] fix: BaseParser dropped the error of its final callback

---
 base/base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/base.go b/base/base.go
index 53f6308..2e69637 100644
--- a/base/base.go
+++ b/base/base.go
@@ -143,7 +143,7 @@ func BaseParser(
 		}
 
 		if MatchStatus_Unmatched <= out.MatchStatus {
-			return out, nil
+			return out, err
 		}
 
 		if rewind {
-- 
2.43.0


From 9420f44a48c05dc88e33bcbfb330d7b137c3f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 20/30] fix: look-behind took an error status without error
 value for unmatched

---
 base/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/parsers.go b/base/parsers.go
index caccf5b..587fdf7 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -137,7 +137,7 @@ func lookBehindBase(negative bool, minN, maxN int, children ...ParserFn) ParserF
 				continue
 			}
 			out, err := parser(out)
-			if err != nil {
+			if err != nil || out.MatchStatus == MatchStatus_Error {
 				return out, err
 			}
 			if out.MatchStatus == MatchStatus_Matched {
-- 
2.43.0


From 130126b7cc791a7dfe651e9c1beda6b7ba6eff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 21/30] fix: UnicodeWordBoundary did not count '$' as a word
 character

---
 extra/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extra/util.go b/extra/util.go
index 44fedc3..0f08f13 100644
--- a/extra/util.go
+++ b/extra/util.go
@@ -6,6 +6,10 @@ import "unicode"
 func isUnicodeWord(r rune) bool {
 	// ID_Continue + '$' + U+200C + U+200D
 	// Alnum(), '_', '$', and ...
+	if r == '$' {
+		// '$' belongs to Pattern_Syntax.
+		return true
+	}
 	return (unicode.Is(unicode.L, r) ||
 		unicode.Is(unicode.Nl, r) ||
 		unicode.Is(unicode.Other_ID_Start, r) ||
@@ -14,7 +18,7 @@ func isUnicodeWord(r rune) bool {
 		unicode.Is(unicode.Nd, r) ||
 		unicode.Is(unicode.Pc, r) ||
 		unicode.Is(unicode.Other_ID_Continue, r) ||
-		r == '$' || r == 0x0200c || r == 0x0200d) &&
+		r == 0x0200c || r == 0x0200d) &&
 		!unicode.Is(unicode.Pattern_Syntax, r) &&
 		!unicode.Is(unicode.Pattern_White_Space, r)
 }
-- 
2.43.0


From 2bc186f852839247a5088b8fd3d9bb2131975dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 22/30] fix: Match wrote its result into the stack that
 backtracking returns to

---
 base/match.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/match.go b/base/match.go
index f0bb343..a838ee2 100644
--- a/base/match.go
+++ b/base/match.go
@@ -25,7 +25,12 @@ func Match(n int) func(cases ...Case) ParserFn {
 
 			for _, c := range cases {
 				if c.If(ctx.AstStack) {
-					var asts []Ast = ctx.AstStack[sp:]
+					// Work on a copy: the stack is shared with the
+					// contexts that backtracking returns to.
+					stack := make(AstSlice, len(ctx.AstStack), len(ctx.AstStack)+1)
+					copy(stack, ctx.AstStack)
+
+					var asts []Ast = stack[sp:]
 					var err error
 
 					for _, transform := range c.Let {
@@ -35,7 +40,7 @@ func Match(n int) func(cases ...Case) ParserFn {
 							return ctx, err
 						}
 					}
-					ctx.AstStack = append(ctx.AstStack[:sp], asts...)
+					ctx.AstStack = append(stack[:sp], asts...)
 
 					ctx.MatchStatus = MatchStatus_Matched
 					return ctx, nil
-- 
2.43.0


From d334dfc7c1bf83678e217b453cc188f1977766ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 23/30] fix: typed getters of map boxes failed on maps of
 interface values

After SetInt on a box over an entry of a map[K]interface{}, GetInt panicked
(and GetString returned "<interface {} Value>"), because the entry's value is
a reflect.Value of kind Interface.
---
 base/box.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/base/box.go b/base/box.go
index ee6fdd6..4b03dc4 100644
--- a/base/box.go
+++ b/base/box.go
@@ -149,6 +149,15 @@ func (s ReflectionBox) ComplexMapIndex(k interface{}) Box {
 	return ReflectionBox{Val: s.Val.MapIndex(reflect.ValueOf(k))}
 }
 
+// Get the value stored in the map entry, also if the element type is an interface.
+func mapEntry(container, key reflect.Value) reflect.Value {
+	v := container.MapIndex(key)
+	if v.Kind() == reflect.Interface {
+		return v.Elem()
+	}
+	return v
+}
+
 // Implements the interface Box. Abstraction of Map.
 type MapContainerReflectionBox struct {
 	Container reflect.Value
@@ -162,32 +171,32 @@ func (s MapContainerReflectionBox) GetAny() interface{} {
 
 //
 func (s MapContainerReflectionBox) GetInt() int64 {
-	return s.Container.MapIndex(s.Key).Int()
+	return mapEntry(s.Container, s.Key).Int()
 }
 
 //
 func (s MapContainerReflectionBox) GetUint() uint64 {
-	return s.Container.MapIndex(s.Key).Uint()
+	return mapEntry(s.Container, s.Key).Uint()
 }
 
 //
 func (s MapContainerReflectionBox) GetFloat() float64 {
-	return s.Container.MapIndex(s.Key).Float()
+	return mapEntry(s.Container, s.Key).Float()
 }
 
 //
 func (s MapContainerReflectionBox) GetBool() bool {
-	return s.Container.MapIndex(s.Key).Bool()
+	return mapEntry(s.Container, s.Key).Bool()
 }
 
 //
 func (s MapContainerReflectionBox) GetString() string {
-	return s.Container.MapIndex(s.Key).String()
+	return mapEntry(s.Container, s.Key).String()
 }
 
 //
 func (s MapContainerReflectionBox) GetBytes() []byte {
-	return s.Container.MapIndex(s.Key).Bytes()
+	return mapEntry(s.Container, s.Key).Bytes()
 }
 
 //
@@ -273,7 +282,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetInt() int64 {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Int()
+	return mapEntry(p.Container, p.Key).Int()
 }
 
 //
@@ -281,7 +290,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetUint() uint64 {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Uint()
+	return mapEntry(p.Container, p.Key).Uint()
 }
 
 //
@@ -289,7 +298,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetFloat() float64 {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Float()
+	return mapEntry(p.Container, p.Key).Float()
 }
 
 //
@@ -297,7 +306,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetBool() bool {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Bool()
+	return mapEntry(p.Container, p.Key).Bool()
 }
 
 //
@@ -305,7 +314,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetString() string {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).String()
+	return mapEntry(p.Container, p.Key).String()
 }
 
 //
@@ -313,7 +322,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetBytes() []byte {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Bytes()
+	return mapEntry(p.Container, p.Key).Bytes()
 }
 
 //
-- 
2.43.0


From e9ef3b15de4b7a20c3940a9bc9694c77906d3fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 24/30] fix: storing nil with SetAny panicked or deleted the
 map entry

---
 base/box.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/base/box.go b/base/box.go
index 4b03dc4..ead91a2 100644
--- a/base/box.go
+++ b/base/box.go
@@ -49,6 +49,15 @@ type Box interface {
 	ComplexMapIndex(k interface{}) Box
 }
 
+// Get v as the value to be stored in a variable of the type t.
+// The reflect.Value of nil is not a value: storing it would panic or delete the map entry.
+func anyValue(t reflect.Type, v interface{}) reflect.Value {
+	if v == nil && t.Kind() == reflect.Interface {
+		return reflect.Zero(t)
+	}
+	return reflect.ValueOf(v)
+}
+
 // Implements the interface Box. Abstraction of reflect.Value.
 type ReflectionBox struct {
 	Val reflect.Value
@@ -96,7 +105,7 @@ func (s ReflectionBox) GetBytes() []byte {
 
 //
 func (s ReflectionBox) SetAny(v interface{}) {
-	s.Val.Set(reflect.ValueOf(v))
+	s.Val.Set(anyValue(s.Val.Type(), v))
 }
 
 //
@@ -206,7 +215,7 @@ func (s MapContainerReflectionBox) GetBytes() []byte {
 
 //
 func (s MapContainerReflectionBox) SetAny(v interface{}) {
-	s.Container.SetMapIndex(s.Key, reflect.ValueOf(v))
+	s.Container.SetMapIndex(s.Key, anyValue(s.Container.Type().Elem(), v))
 }
 
 //
@@ -335,7 +344,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetBytes() []byte {
 
 //
 func (p *NotInitializedMapContainerReflectionBox) SetAny(v interface{}) {
-	p.Container.SetMapIndex(p.Key, reflect.ValueOf(v))
+	p.Container.SetMapIndex(p.Key, anyValue(p.Container.Type().Elem(), v))
 	p.Initialized = true
 }
 
-- 
2.43.0


From 5e910512938e5e2ffd896971abb394760ef58273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:50 +0000
Subject: [PATCH 25/30] fix: csv.Unmarshal filled untagged fields from a column
 without a name

---
 _examples/csv/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index fa2c95e..0db141b 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -176,7 +176,7 @@ func Unmarshal(pa interface{}, s string) error {
 		for j := 0; j < rti.NumField(); j++ {
 			rtf := rti.Field(j)
 			tag := rtf.Tag.Get("csv")
-			if _, ok := columns[tag]; ok {
+			if _, ok := columns[tag]; ok && tag != "" {
 				mapping[tag] = rtf.Name
 				colTypes[tag] = rtf.Type.Kind()
 			} else if _, ok := columns[rtf.Name]; ok {
-- 
2.43.0


From a34a5d59d61a67a5de9fa69478d04f841292104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 26/30] fix: csv.Unmarshal panicked when a column was named
 like an unexported field

---
 _examples/csv/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 0db141b..228971c 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -175,6 +175,9 @@ func Unmarshal(pa interface{}, s string) error {
 		rti := rvi.Type()
 		for j := 0; j < rti.NumField(); j++ {
 			rtf := rti.Field(j)
+			if rtf.PkgPath != "" {
+				continue // unexported fields cannot be set
+			}
 			tag := rtf.Tag.Get("csv")
 			if _, ok := columns[tag]; ok && tag != "" {
 				mapping[tag] = rtf.Name
-- 
2.43.0


From aef4ed6c5926aa3c2159f50886bd37f9a81bdffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:13 +0000
Subject: [PATCH 27/30] fix: csv.Marshal fills a column listed twice and
 prefers tags to names

---
 _examples/csv/marshal.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 228971c..f479a04 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -63,12 +63,7 @@ func Marshal(cols []string, a interface{}) (string, error) {
 	var sb strings.Builder
 
 	// make mappings
-	// CSV column name -> CSV column index
-	columns := make(map[string]int)
-	for i := 0; i < len(cols); i++ {
-		columns[cols[i]] = i
-	}
-	// Field name -> CSV column name
+	// CSV column name -> Field name
 	mapping := make(map[string]string)
 	// Field name -> Type
 	colTypes := make(map[string]reflect.Kind)
@@ -81,8 +76,11 @@ func Marshal(cols []string, a interface{}) (string, error) {
 			csvColName := rtf.Tag.Get("csv")
 			if csvColName == "" {
 				csvColName = rtf.Name
+				if _, ok := mapping[csvColName]; ok {
+					continue // the column of a tag
+				}
 			}
-			mapping[rtf.Name] = csvColName
+			mapping[csvColName] = rtf.Name
 			colTypes[rtf.Name] = rtf.Type.Kind()
 		}
 		break
@@ -97,12 +95,12 @@ func Marshal(cols []string, a interface{}) (string, error) {
 		for j := 0; j < len(rowBuf); j++ {
 			rowBuf[j] = ""
 		}
-		for k, v := range mapping {
-			rvf := rvi.FieldByName(k)
-			index, ok := columns[v]
+		for index := 0; index < len(cols); index++ {
+			k, ok := mapping[cols[index]]
 			if !ok {
 				continue
 			}
+			rvf := rvi.FieldByName(k)
 			switch colTypes[k] {
 			case reflect.String:
 				rowBuf[index] = rvf.String()
-- 
2.43.0


From 97f435c4846b18f03054ba7a5905e7412153114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:14 +0000
Subject: [PATCH 28/30] fix: csv.Unmarshal fills every field that one column
 belongs to

---
 _examples/csv/marshal.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index f479a04..d3e94d1 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -163,9 +163,9 @@ func Unmarshal(pa interface{}, s string) error {
 	for i := 0; i < len(data[0]); i++ {
 		columns[data[0][i]] = i
 	}
-	// CSV column name -> Field name
+	// Field name -> CSV column name
 	mapping := make(map[string]string)
-	// CSV column name -> Type
+	// Field name -> Type
 	colTypes := make(map[string]reflect.Kind)
 
 	for i := 0; i < slice.Len(); i++ {
@@ -178,8 +178,8 @@ func Unmarshal(pa interface{}, s string) error {
 			}
 			tag := rtf.Tag.Get("csv")
 			if _, ok := columns[tag]; ok && tag != "" {
-				mapping[tag] = rtf.Name
-				colTypes[tag] = rtf.Type.Kind()
+				mapping[rtf.Name] = tag
+				colTypes[rtf.Name] = rtf.Type.Kind()
 			} else if _, ok := columns[rtf.Name]; ok {
 				mapping[rtf.Name] = rtf.Name
 				colTypes[rtf.Name] = rtf.Type.Kind()
@@ -194,11 +194,11 @@ func Unmarshal(pa interface{}, s string) error {
 	for i := 0; i < slice.Len(); i++ {
 		rvi := slice.Index(i)
 		for k, v := range mapping {
-			rvf := rvi.FieldByName(v)
-			if len(data[i+1]) <= columns[k] {
-				return errors.New("Row " + strconv.Itoa(i+1) + " has no column " + k)
+			rvf := rvi.FieldByName(k)
+			if len(data[i+1]) <= columns[v] {
+				return errors.New("Row " + strconv.Itoa(i+1) + " has no column " + v)
 			}
-			w := data[i+1][columns[k]]
+			w := data[i+1][columns[v]]
 			switch colTypes[k] {
 			case reflect.String:
 				rvf.SetString(w)
-- 
2.43.0


From cf5b55ad9cd5fc02e5650bf76e994a1d54d66ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:15 +0000
Subject: [PATCH 29/30] fix: csv.Unmarshal reports the same error for the same
 text

---
 _examples/csv/marshal.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index d3e94d1..ecad8de 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -193,7 +193,12 @@ func Unmarshal(pa interface{}, s string) error {
 	// set data
 	for i := 0; i < slice.Len(); i++ {
 		rvi := slice.Index(i)
-		for k, v := range mapping {
+		for j := 0; j < rvi.NumField(); j++ {
+			k := rvi.Type().Field(j).Name
+			v, ok := mapping[k]
+			if !ok {
+				continue
+			}
 			rvf := rvi.FieldByName(k)
 			if len(data[i+1]) <= columns[v] {
 				return errors.New("Row " + strconv.Itoa(i+1) + " has no column " + v)
-- 
2.43.0


From ed0c570824db97c82f2548f5cf025e1f77622534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:45 +0000
Subject: [PATCH 30/30] fix: a parser that did not match kept the position and
 nodes of completed rounds

---
 base/base.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/base.go b/base/base.go
index 2e69637..dfeb92a 100644
--- a/base/base.go
+++ b/base/base.go
@@ -131,7 +131,9 @@ func BaseParser(
 		}
 
 		if MatchStatus_Unmatched <= out.MatchStatus {
-			return out, nil
+			// rewind the completed rounds
+			ctx.MatchStatus = out.MatchStatus
+			return ctx, nil
 		}
 
 		out.Quantity = count
@@ -142,8 +144,12 @@ func BaseParser(
 			}
 		}
 
-		if MatchStatus_Unmatched <= out.MatchStatus {
+		switch out.MatchStatus {
+		case MatchStatus_Error:
 			return out, err
+		case MatchStatus_Unmatched:
+			ctx.MatchStatus = out.MatchStatus
+			return ctx, nil
 		}
 
 		if rewind {
-- 
2.43.0

