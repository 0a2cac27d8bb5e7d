From 90467684586b631a4e63e539c7e56d1397d701c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 01/48] fix: end string literals at the line end and honour
 escaped backslashes

A string that was not closed swallowed the following lines, so every later
token was reported on the wrong line, and a string ending in an escaped
backslash was not recognised as closed.
---
 lexer.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lexer.go b/lexer.go
index 44a2bc9..e4d65e2 100644
--- a/lexer.go
+++ b/lexer.go
@@ -159,6 +159,7 @@ func (z *Lexer) readValue() {
 	p, n := utf8.DecodeRune(z.Source[z.i:])
 	if p == '"' {
 		z.inc(n)
+		escaped := false
 		for {
 			if z.i == len(z.Source) {
 				z.fail("incomplete string")
@@ -166,7 +167,14 @@ func (z *Lexer) readValue() {
 			}
 
 			c, n := utf8.DecodeRune(z.Source[z.i:])
-			if c == '"' && p != '\\' {
+			if c == '\n' || c == '\r' {
+				// strings do not span lines
+				z.fail("incomplete string")
+				z.p = z.i
+				return
+			}
+
+			if c == '"' && !escaped {
 				z.inc(n)
 
 				s := string(z.Source[z.p+1 : z.i-1])
@@ -187,7 +195,7 @@ func (z *Lexer) readValue() {
 
 			z.inc(n)
 
-			p = c
+			escaped = c == '\\' && !escaped
 		}
 	} else {
 		for {
@@ -323,11 +331,10 @@ func (z *Lexer) readTokens() {
 }
 
 func (z *Lexer) read() {
-	if z.i == len(z.Source) {
-		return
+	n := len(z.ts)
+	for z.i < len(z.Source) && len(z.ts) == n {
+		z.readTokens()
 	}
-
-	z.readTokens()
 }
 
 func (z *Lexer) Return() bool {
-- 
2.43.0


From c90753341cf78540a84425fe824eb294d1605817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 02/48] fix: read base64 data that starts with slashes as a
 value, not as a comment

---
 lexer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index e4d65e2..846ee4e 100644
--- a/lexer.go
+++ b/lexer.go
@@ -309,6 +309,18 @@ func (z *Lexer) readEol() {
 	}
 }
 
+// afterBase64 tells whether the next value is the operand of a base64 keyword,
+// where slashes are a part of the data
+func (z *Lexer) afterBase64() bool {
+	if len(z.ts) == 0 {
+		return false
+	}
+
+	t := z.ts[len(z.ts)-1]
+
+	return t.l == z.l && (t.v == "base64" || t.v == "b64")
+}
+
 func (z *Lexer) readTokens() {
 	z.skipWhitespace()
 
@@ -320,7 +332,7 @@ func (z *Lexer) readTokens() {
 			nc, _ = utf8.DecodeRune(z.Source[z.i+n:])
 		}
 
-		if c == '/' && nc == '/' {
+		if c == '/' && nc == '/' && !z.afterBase64() {
 			z.readComment()
 		} else if c == '\n' || c == '\r' {
 			z.readEol()
-- 
2.43.0


From d865359735588e1d1516dc956f0a76324c60f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:47 +0000
Subject: [PATCH 03/48] fix: report token columns in UTF-16 code units, as
 editors expect

Columns were byte offsets, so every range after a non-ASCII character on a
line was wrong in the editor (LSP positions are UTF-16 by default).
---
 lexer.go | 69 ++++++++++++++++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/lexer.go b/lexer.go
index 846ee4e..5f22090 100644
--- a/lexer.go
+++ b/lexer.go
@@ -66,8 +66,8 @@ type Lexer struct {
 	i int // current index
 
 	l  int // current line index
-	lb int // current line begin index in source
-	li int // current index in the current line
+	pi int // column of the previous index in the current line (UTF-16 code units)
+	li int // column of the current index in the current line (UTF-16 code units)
 
 	ts  []Token // tokens
 	tsi int     // tokens index
@@ -86,29 +86,38 @@ func (z *Lexer) fail(msg string) {
 	})
 }
 
-func (z *Lexer) inc(n int) {
+func (z *Lexer) inc(c rune, n int) {
 	z.i += n
-	z.li += n
+	z.li++
+
+	if c > 0xffff {
+		z.li++ // surrogate pair
+	}
+}
+
+// mark makes the current index the previous one
+func (z *Lexer) mark() {
+	z.p = z.i
+	z.pi = z.li
 }
 
 func (z *Lexer) emit(t TokenType) {
 	z.ts = append(z.ts, Token{
 		l: z.l,
-		b: z.p - z.lb,
-		e: z.i - z.lb,
+		b: z.pi,
+		e: z.li,
 
 		v: string(z.Source[z.p:z.i]),
 		t: t,
 	})
 
-	z.p = z.i
-
 	switch t {
 	case TokenEol:
 		z.l++
 		z.li = 0
-		z.lb = z.i
 	}
+
+	z.mark()
 }
 
 func isTerminating(c rune) bool {
@@ -158,7 +167,7 @@ func (e lexerError) Rule() string {
 func (z *Lexer) readValue() {
 	p, n := utf8.DecodeRune(z.Source[z.i:])
 	if p == '"' {
-		z.inc(n)
+		z.inc(p, n)
 		escaped := false
 		for {
 			if z.i == len(z.Source) {
@@ -170,30 +179,30 @@ func (z *Lexer) readValue() {
 			if c == '\n' || c == '\r' {
 				// strings do not span lines
 				z.fail("incomplete string")
-				z.p = z.i
+				z.mark()
 				return
 			}
 
 			if c == '"' && !escaped {
-				z.inc(n)
+				z.inc(c, n)
 
 				s := string(z.Source[z.p+1 : z.i-1])
 				v := "\"" + strings.ReplaceAll(s, "\\\"", "\"") + "\""
 
 				z.ts = append(z.ts, Token{
 					l: z.l,
-					b: z.p - z.lb,
-					e: z.i - z.lb,
+					b: z.pi,
+					e: z.li,
 
 					v: v,
 					t: TokenValue,
 				})
 
-				z.p = z.i
+				z.mark()
 				return
 			}
 
-			z.inc(n)
+			z.inc(c, n)
 
 			escaped = c == '\\' && !escaped
 		}
@@ -210,7 +219,7 @@ func (z *Lexer) readValue() {
 				return
 			}
 
-			z.inc(n)
+			z.inc(c, n)
 		}
 	}
 }
@@ -226,8 +235,8 @@ func (z *Lexer) skipWhitespace() {
 			return
 		}
 
-		z.inc(n)
-		z.p = z.i
+		z.inc(c, n)
+		z.mark()
 	}
 }
 
@@ -242,14 +251,14 @@ func (z *Lexer) readComment() {
 
 			z.ts = append(z.ts, Token{
 				l: z.l,
-				b: z.p - z.lb,
-				e: z.i - z.lb,
+				b: z.pi,
+				e: z.li,
 
 				v: string(z.Source[z.p+2 : z.i]),
 				t: TokenComment,
 			})
 
-			z.p = z.i
+			z.mark()
 			return
 		}
 
@@ -263,19 +272,19 @@ func (z *Lexer) readComment() {
 			if c == '\r' || c == '\n' {
 				z.ts = append(z.ts, Token{
 					l: z.l,
-					b: z.p - z.lb,
-					e: z.i - z.lb,
+					b: z.pi,
+					e: z.li,
 
 					v: string(z.Source[z.p+2 : z.i]),
 					t: TokenComment,
 				})
 
-				z.p = z.i
+				z.mark()
 				return
 			}
 		}
 
-		z.inc(n)
+		z.inc(c, n)
 	}
 }
 
@@ -288,11 +297,11 @@ func (z *Lexer) readEol() {
 
 		c, n := utf8.DecodeRune(z.Source[z.i:])
 		if c == '\r' {
-			z.inc(n)
+			z.inc(c, n)
 			if z.i < len(z.Source) {
 				c2, n2 := utf8.DecodeRune(z.Source[z.i:])
 				if c2 == '\n' {
-					z.inc(n2)
+					z.inc(c2, n2)
 				}
 			}
 			z.emit(TokenEol)
@@ -300,12 +309,12 @@ func (z *Lexer) readEol() {
 		}
 
 		if c == '\n' {
-			z.inc(n)
+			z.inc(c, n)
 			z.emit(TokenEol)
 			return
 		}
 
-		z.inc(n)
+		z.inc(c, n)
 	}
 }
 
-- 
2.43.0


From 6a46eda72f37346db40ed56e9cd4f5d0c0da622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:47 +0000
Subject: [PATCH 04/48] fix: keep one statement per line when a line has
 surplus values

The statement was emitted before the surplus values were noticed, and the
error recovery then added an empty one, which shifted all later diagnostics by
a line and could crash the analysis.
---
 process.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index ca3174a..f97ce7a 100644
--- a/process.go
+++ b/process.go
@@ -3182,7 +3182,9 @@ func Process(source string) *ProcessResult {
 			defer func() {
 				switch v := recover().(type) {
 				case recoverable:
-					c.emit(Empty) // consider replacing with Raw string expr
+					if len(c.ops) == line { // keep exactly one op per line
+						c.emit(Empty) // consider replacing with Raw string expr
+					}
 				case nil:
 				default:
 					fmt.Printf("unrecoverable: %v", v)
-- 
2.43.0


From 1e28645652b9b1922ca94544f485a12a804b87c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:15 +0000
Subject: [PATCH 05/48] fix: do not crash on position queries for blank lines
 and negative positions

---
 process.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/process.go b/process.go
index f97ce7a..2ecb902 100644
--- a/process.go
+++ b/process.go
@@ -2683,13 +2683,11 @@ func (r ProcessResult) ArgFieldName(t NewOpArgType, v int) string {
 func (r ProcessResult) InlayHints(rg Range) InlayHints {
 	var ihs InlayHints
 
-	for li := rg.StartLine(); li <= rg.EndLine(); li++ {
-		if li >= len(r.Lines) {
+	for li, ln := range r.Lines {
+		if li < rg.StartLine() || li > rg.EndLine() {
 			continue
 		}
 
-		ln := r.Lines[li]
-
 		var ok bool
 		var spec opItem
 
@@ -2851,12 +2849,16 @@ func (r ProcessResult) SymOrRefAt(rg Range) string {
 func (r ProcessResult) ArgAt(l int, ch int) (opItemArg, int, bool) {
 	var res opItemArg
 
-	if l >= len(r.Lines) {
+	if l < 0 || l >= len(r.Lines) {
 		return res, -1, false
 	}
 
 	ln := r.Lines[l]
 
+	if len(ln) == 0 {
+		return res, -1, false
+	}
+
 	curr := len(ln) - 1
 
 	_, idx, ok := ln.ImmAt(ch)
@@ -2905,7 +2907,7 @@ func (r ProcessResult) ArgValsAt(l int, ch int) []opItemArgVal {
 }
 
 func (r ProcessResult) DocAt(l int, ch int) string {
-	if l >= len(r.Lines) {
+	if l < 0 || l >= len(r.Lines) {
 		return ""
 	}
 
-- 
2.43.0


From 580e834c136db74c65fff69e24ddfcd84ae72dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:39 +0000
Subject: [PATCH 06/48] fix: do not crash on documentation queries for negative
 field numbers

---
 process.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/process.go b/process.go
index 2ecb902..1fe6d09 100644
--- a/process.go
+++ b/process.go
@@ -2940,7 +2940,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = txnFieldSpecByField(TxnField(v))
 								if ok {
@@ -2953,7 +2953,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = txnFieldSpecByField(TxnField(v))
 								if ok {
@@ -2966,7 +2966,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = txnFieldSpecByField(TxnField(v))
 								if ok {
@@ -2978,7 +2978,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = acctParamsFieldSpecByField(AcctParamsField(v))
 								if ok {
@@ -2990,7 +2990,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = appParamsFieldSpecByField(AppParamsField(v))
 								if ok {
@@ -3003,7 +3003,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = assetHoldingFieldSpecByField(AssetHoldingField(v))
 								if ok {
@@ -3016,7 +3016,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = assetParamsFieldSpecByField(AssetParamsField(v))
 								if ok {
@@ -3029,7 +3029,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = base64EncodingSpecByField(Base64Encoding(v))
 								if ok {
@@ -3042,7 +3042,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = blockFieldSpecByField(BlockField(v))
 								if ok {
@@ -3055,7 +3055,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = ecdsaCurveSpecByField(EcdsaCurve(v))
 								if ok {
@@ -3068,7 +3068,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = globalFieldSpecByField(GlobalField(v))
 								if ok {
@@ -3081,7 +3081,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = jsonRefSpecByField(JSONRefType(v))
 								if ok {
@@ -3094,7 +3094,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = vrfStandardSpecByField(VrfStandard(v))
 								if ok {
-- 
2.43.0


From 84b1422c54f6f72d161d28b0bf9190cf4f52e784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:27 +0000
Subject: [PATCH 07/48] fix: print replace2, pushints, gtxnas and
 extract_uint64 so they read back

---
 expr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expr.go b/expr.go
index 5c90871..722efa3 100644
--- a/expr.go
+++ b/expr.go
@@ -1943,7 +1943,7 @@ type Replace2Expr struct {
 }
 
 func (e *Replace2Expr) String() string {
-	return fmt.Sprintf("repace2 %d", e.Start)
+	return fmt.Sprintf("replace2 %d", e.Start)
 }
 
 func (e *Replace2Expr) Execute(b *VmBranch) error {
@@ -2122,7 +2122,7 @@ func (e *GtxnasExpr) Execute(b *VmBranch) error {
 }
 
 func (e *GtxnasExpr) String() string {
-	return fmt.Sprintf("gtxnas %d %d", e.Field, e.Index)
+	return fmt.Sprintf("gtxnas %d %d", e.Index, e.Field)
 }
 
 type ArgsExpr struct{}
@@ -2220,7 +2220,7 @@ func (e *PushIntsExpr) String() string {
 		ss = append(ss, strconv.FormatUint(i, 10))
 	}
 
-	return fmt.Sprintf("pushbytess %s", strings.Join(ss, " "))
+	return fmt.Sprintf("pushints %s", strings.Join(ss, " "))
 
 }
 
@@ -2984,7 +2984,7 @@ var Extract3 = &Extract3Expr{}
 type ExtractUint64Expr struct{}
 
 func (e *ExtractUint64Expr) String() string {
-	return "extract_unt64"
+	return "extract_uint64"
 }
 
 var ExtractUint64 = &ExtractUint64Expr{}
-- 
2.43.0


From 488be2d349c60a06bb2e0287f43e5f218990ab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:30 +0000
Subject: [PATCH 08/48] fix: reject gitxna group indexes above 255 instead of
 truncating them

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index 1fe6d09..f516615 100644
--- a/process.go
+++ b/process.go
@@ -2400,11 +2400,11 @@ func opGitxn(c ProcessContext) {
 func opGitxna(c ProcessContext) {
 	c.modeMinVersion(ModeSig, 0)
 	c.modeMinVersion(ModeApp, 6)
-	t := c.mustReadInt("t")
+	t := c.mustReadUint8("t")
 	f := c.mustReadTxnaField("f")
 	i := c.mustReadUint8("i")
 
-	c.emit(&GitxnaExpr{Group: uint8(t), Field: f, Index: uint8(i)})
+	c.emit(&GitxnaExpr{Group: t, Field: f, Index: i})
 
 }
 func opBoxCreate(c ProcessContext) {
-- 
2.43.0


From fc726afbf870c30e7fe2ecf82a646da5d5bcc7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:34 +0000
Subject: [PATCH 09/48] fix: allow args in logic signatures and not in
 applications

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index f516615..dc70ee8 100644
--- a/process.go
+++ b/process.go
@@ -2459,8 +2459,8 @@ func opGtxnsas(c ProcessContext) {
 	c.emit(&GtxnsasExpr{Field: f})
 }
 func opArgs(c ProcessContext) {
-	c.modeMinVersion(ModeSig, 0)
-	c.modeMinVersion(ModeApp, 5)
+	c.modeMinVersion(ModeSig, 5)
+	c.modeMinVersion(ModeApp, 0)
 
 	c.emit(Args)
 }
-- 
2.43.0


From 7889f8508269982b5bfc18f2bd87580faecc2049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:37 +0000
Subject: [PATCH 10/48] fix: check the version of array fields of transactions

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 361e582..26363d7 100644
--- a/parser.go
+++ b/parser.go
@@ -293,7 +293,7 @@ func readTxnField(c fieldContext, v uint64, s string) (TxnField, bool, error) {
 		var needed uint64
 
 		switch c {
-		case txnFieldContext:
+		case txnFieldContext, txnaFieldContext:
 			needed = spec.version
 		case itxnFieldContext:
 			if spec.itxVersion == 0 {
-- 
2.43.0


From 7d6b437a0b257afd3958d5fb005cfd91883e269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:12 +0000
Subject: [PATCH 11/48] fix: print byte and method literals so that they read
 back unchanged

---
 expr.go    | 34 ++++++++++++++++++++++++++++++++--
 process.go |  9 +++++++--
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/expr.go b/expr.go
index 722efa3..5bf0e67 100644
--- a/expr.go
+++ b/expr.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 type Branch interface {
@@ -1291,6 +1293,31 @@ const (
 	BytesStringLiteral = 1
 )
 
+// quote returns v as a string literal that reads back as v
+func quote(v []byte) string {
+	var b strings.Builder
+
+	b.WriteByte('"')
+	for len(v) > 0 {
+		r, n := utf8.DecodeRune(v)
+		switch {
+		case r == '"' || r == '\\':
+			b.WriteByte('\\')
+			b.WriteRune(r)
+		case r == utf8.RuneError && n == 1 || !unicode.IsPrint(r):
+			for _, c := range v[:n] {
+				fmt.Fprintf(&b, "\\x%02x", c)
+			}
+		default:
+			b.WriteRune(r)
+		}
+		v = v[n:]
+	}
+	b.WriteByte('"')
+
+	return b.String()
+}
+
 type ByteExpr struct {
 	Value  []byte
 	Format BytesFormat
@@ -1304,8 +1331,11 @@ type Bytes struct {
 func (e Bytes) String() string {
 	switch e.Format {
 	case BytesStringLiteral:
-		return fmt.Sprintf("\"%s\"", string(e.Value))
+		return quote(e.Value)
 	case BytesBase64:
+		if len(e.Value) == 0 {
+			return "0x"
+		}
 		return fmt.Sprintf("b64 %s", base64.StdEncoding.EncodeToString(e.Value))
 	default:
 		panic(fmt.Sprintf("unsupported bytes format: %d", e.Format))
@@ -2229,7 +2259,7 @@ type MethodExpr struct {
 }
 
 func (e *MethodExpr) String() string {
-	return fmt.Sprintf("method \"%s\"", strings.ReplaceAll(e.Signature, "\"", "\\\""))
+	return fmt.Sprintf("method %s", quote([]byte(e.Signature)))
 }
 
 func (e *MethodExpr) Execute(b *VmBranch) error {
diff --git a/process.go b/process.go
index dc70ee8..ad36283 100644
--- a/process.go
+++ b/process.go
@@ -981,14 +981,19 @@ func (c *parserContext) mustReadSignature(name string) string {
 
 	b := 0
 	e := len(value) - 1
-	if value[b] != '"' || value[e] != '"' {
+	if e < 1 || value[b] != '"' || value[e] != '"' {
 		c.failCurr(errors.New("missing quotes"))
 	}
 
+	sig, err := parseStringLiteral(value)
+	if err != nil {
+		c.failCurr(err)
+	}
+
 	// TODO: validate method sig
 	c.strs = append(c.strs, c.args.Curr())
 
-	return c.args.Text()
+	return string(sig)
 }
 
 func (c *parserContext) maybeReadArg() bool {
-- 
2.43.0


From 027729c0aef0ac9705ab17718ce9d3e731ca4ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:32 +0000
Subject: [PATCH 12/48] fix: reject an index on transaction fields that are not
 arrays

---
 process.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/process.go b/process.go
index ad36283..64a6c75 100644
--- a/process.go
+++ b/process.go
@@ -526,6 +526,7 @@ type ProcessContext interface {
 	mustReadTxnaField(name string) TxnField
 	mustReadJsonRef(name string) JSONRefType
 	maybeReadUint8(name string) (uint8, bool)
+	maybeReadArrayIndex(name string) (uint8, bool)
 	mustReadEcdsaCurveIndex(name string) EcdsaCurve
 	readUint64Array(name string) []uint64
 	mustReadUint8(name string) uint8
@@ -688,6 +689,10 @@ func (c *docContext) maybeReadUint8(name string) (v uint8, ok bool) {
 	return
 }
 
+func (c *docContext) maybeReadArrayIndex(name string) (v uint8, ok bool) {
+	return c.maybeReadUint8(name)
+}
+
 func (c *docContext) mustReadEcdsaCurveIndex(name string) (v EcdsaCurve) {
 	c.arg(opItemArg{
 		Name: name,
@@ -1394,6 +1399,20 @@ func (c *parserContext) maybeReadUint8(name string) (uint8, bool) {
 	return c.parseUint8(name), true
 }
 
+// maybeReadArrayIndex reads the optional index of the transaction field that precedes it
+func (c *parserContext) maybeReadArrayIndex(name string) (uint8, bool) {
+	v, ok := c.maybeReadUint8(name)
+	if !ok {
+		return 0, false
+	}
+
+	if _, _, err := readTxnField(txnaFieldContext, c.version, c.args.Prev().String()); err != nil {
+		c.failPrev(err)
+	}
+
+	return v, true
+}
+
 func (c *parserContext) mustReadInt8(name string) int8 {
 	c.mustReadArg(name)
 	return c.parseInt8(name)
@@ -1789,7 +1808,7 @@ func opArg3(c ProcessContext) {
 func opTxn(c ProcessContext) {
 	f := c.mustReadTxnField("f")
 
-	i, ok := c.maybeReadUint8("i")
+	i, ok := c.maybeReadArrayIndex("i")
 	if ok {
 		c.emit(&TxnaExpr{Field: f, Index: i})
 	} else {
@@ -1805,7 +1824,7 @@ func opGlobal(c ProcessContext) {
 func opGtxn(c ProcessContext) {
 	t := c.mustReadUint8("t")
 	f := c.mustReadTxnField("f")
-	i, ok := c.maybeReadUint8("i")
+	i, ok := c.maybeReadArrayIndex("i")
 	if ok {
 		c.emit(&GtxnaExpr{Group: uint8(t), Field: f, Index: i})
 	} else {
@@ -1844,7 +1863,7 @@ func opGtxns(c ProcessContext) {
 	c.minVersion(3)
 
 	f := c.mustReadTxnField("f")
-	i, ok := c.maybeReadUint8("i")
+	i, ok := c.maybeReadArrayIndex("i")
 
 	if ok {
 		c.emit(&GtxnsaExpr{Field: f, Index: i})
-- 
2.43.0


From 792b8205a2ec70c0ab29c80e3db1d113b770a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:06 +0000
Subject: [PATCH 13/48] fix: report label problems in source order, not in
 random map order

---
 linter.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/linter.go b/linter.go
index cc36f06..02017f7 100644
--- a/linter.go
+++ b/linter.go
@@ -291,10 +291,11 @@ func (r DuplicateLabelsRule) Desc() string {
 
 func (r DuplicateLabelsRule) Run(l *Linter) {
 	labels := l.getAllLabels()
-	for name, lines := range labels {
-		if len(lines) > 1 {
-			for _, line := range lines {
-				l.errs = append(l.errs, DuplicateLabelError{l: line, name: name, rule: r.Id()})
+	for line, o := range l.l {
+		switch o := o.(type) {
+		case *LabelExpr:
+			if len(labels[o.Name]) > 1 {
+				l.errs = append(l.errs, DuplicateLabelError{l: line, name: o.Name, rule: r.Id()})
 			}
 		}
 	}
@@ -313,11 +314,12 @@ func (r UnusedLabelsRule) Desc() string {
 
 func (r UnusedLabelsRule) Run(l *Linter) {
 	used := l.getLabelsUsers()
-	for name, lines := range l.getAllLabels() {
-		if len(used[name]) == 0 {
-			for _, line := range lines {
-				l.errs = append(l.errs, &UnusedLabelError{l: line, name: name, rule: r.Id()})
-				l.reds = append(l.reds, &RedundantLabelLine{line: line, name: name})
+	for line, o := range l.l {
+		switch o := o.(type) {
+		case *LabelExpr:
+			if len(used[o.Name]) == 0 {
+				l.errs = append(l.errs, &UnusedLabelError{l: line, name: o.Name, rule: r.Id()})
+				l.reds = append(l.reds, &RedundantLabelLine{line: line, name: o.Name})
 			}
 		}
 	}
@@ -430,14 +432,15 @@ func (r CheckLoopsRule) Desc() string {
 }
 
 func (r CheckLoopsRule) Run(l *Linter) {
-	used := l.getLabelsUsers()
 	all := l.getAllLabels()
 
-	for name, users := range used {
-		_, ok := all[name]
-		if !ok {
-			for _, user := range users {
-				l.errs = append(l.errs, MissingLabelError{l: user, name: name, rule: r.Id()})
+	for user, o := range l.l {
+		switch o := o.(type) {
+		case usesLabels:
+			for _, lbl := range o.Labels() {
+				if _, ok := all[lbl.Name]; !ok {
+					l.errs = append(l.errs, MissingLabelError{l: user, name: lbl.Name, rule: r.Id()})
+				}
 			}
 		}
 	}
-- 
2.43.0


From e2c8f8913a808da8a508b79e69b6b6953fc13aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:04 +0000
Subject: [PATCH 14/48] fix: answer failed language server requests and survive
 malformed messages

---
 lsp/lsp.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index c0aaa99..a541a12 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -190,6 +190,9 @@ type lspExecuteCommandProvider struct {
 	Commands []string `json:"commands"`
 }
 
+// lspRequestFailed is the error code of requests that could not be completed
+const lspRequestFailed = -32803
+
 type lspError struct {
 	Code    int         `json:"code"`
 	Message string      `json:"message"`
@@ -2115,6 +2118,17 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 	return nil
 }
 
+// safeHandle handles a message, a malformed one must not stop the server
+func (l *lsp) safeHandle(h jsonRpcHeader, b []byte) (err error) {
+	defer func() {
+		if v := recover(); v != nil {
+			err = errors.Errorf("failed to process the message: %v", v)
+		}
+	}()
+
+	return l.handle(h, b)
+}
+
 func (l *lsp) write(v interface{}) error {
 	rb, err := json.Marshal(v)
 	if err != nil {
@@ -2180,6 +2194,10 @@ func (l *lsp) Run() (int, error) {
 				return errors.Wrap(err, "failed to parse content length")
 			}
 
+			if length < 0 {
+				return errors.New("negative content length")
+			}
+
 			data := make([]byte, length)
 			_, err = io.ReadFull(l.tp.R, data)
 			if err != nil {
@@ -2194,8 +2212,17 @@ func (l *lsp) Run() (int, error) {
 				return errors.Wrap(err, "failed to unmarshal json rpc header")
 			}
 
-			err = l.handle(jh, data)
+			err = l.safeHandle(jh, data)
 			if err != nil {
+				if jh.Id != nil && jh.Method != "" {
+					ferr := l.fail(jh.Id, lspError{
+						Code:    lspRequestFailed,
+						Message: err.Error(),
+					})
+					if ferr != nil {
+						return errors.Wrap(ferr, "failed to report a failed request")
+					}
+				}
 				return errors.Wrap(err, "failed to handle request")
 			}
 
-- 
2.43.0


From bd8f247258ea6950a8a0e2f147b03702eaadefe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:06 +0000
Subject: [PATCH 15/48] fix: reply to workspace/executeCommand requests

---
 lsp/lsp.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index a541a12..7ce266c 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -699,6 +699,10 @@ func readInto(b []byte, v interface{}) error {
 }
 
 func (l *lsp) reply(id interface{}, result interface{}, err interface{}) error {
+	if result == nil && err == nil {
+		result = json.RawMessage("null") // a response has either a result or an error
+	}
+
 	return l.write(jsonRpcResponse{
 		JsonRpc: "2.0",
 		Id:      id,
@@ -736,6 +740,20 @@ func (l *lsp) request(method string, params interface{}) error {
 	})
 }
 
+// applyEdit completes a command by asking the client to apply an edit
+func (l *lsp) applyEdit(id interface{}, params lspWorkspaceApplyEditRequestParams) error {
+	err := l.request("workspace/applyEdit", params)
+	if err != nil {
+		return err
+	}
+
+	if id == nil {
+		return nil
+	}
+
+	return l.success(id, nil)
+}
+
 func (l *lsp) notify(method string, params interface{}) error {
 	return l.write(lspNotification{
 		JsonRpc: "2.0",
@@ -931,7 +949,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Update version",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -968,7 +986,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					},
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Replace with named value",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1015,7 +1033,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					NewText: "",
 				})
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Remove line",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1065,7 +1083,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					})
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: fmt.Sprintf("Remove label: %s", name),
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1099,7 +1117,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				name := args[0].Name
 				s := fmt.Sprintf("\r\n%s:\r\n", name)
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: fmt.Sprintf("Create label: %s", name),
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
-- 
2.43.0


From c9d4f893796174fc875c7219fa6b2c0238ef9d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:22 +0000
Subject: [PATCH 16/48] fix: measure label ranges in UTF-16 code units in the
 language server

---
 lsp/lsp.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 7ce266c..e1afe0d 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1172,7 +1172,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 						},
 						End: lspPosition{
 							Line:      sym.Line(),
-							Character: sym.Begin() + len(sym.Name()),
+							Character: sym.End() - 1, // without the colon
 						},
 					},
 					Placeholder: sym.Name(),
@@ -1188,7 +1188,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 						},
 						End: lspPosition{
 							Line:      ref.Line(),
-							Character: ref.Begin() + len(ref.String()),
+							Character: ref.End(),
 						},
 					},
 					Placeholder: ref.String(),
@@ -1219,7 +1219,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 							},
 							End: lspPosition{
 								Line:      sym.Line(),
-								Character: sym.Begin() + len(sym.Name()),
+								Character: sym.End() - 1, // without the colon
 							},
 						},
 						NewText: req.Params.NewName,
@@ -1252,7 +1252,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 							},
 							End: lspPosition{
 								Line:      sym.Line(),
-								Character: sym.Begin() + len(sym.Name()),
+								Character: sym.End() - 1, // without the colon
 							},
 						},
 						NewText: req.Params.NewName,
@@ -1587,7 +1587,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 						},
 						End: lspPosition{
 							Line:      sym.Line(),
-							Character: sym.Begin() + len(sym.Name()),
+							Character: sym.End() - 1, // without the colon
 						},
 					},
 				})
@@ -1865,7 +1865,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 						},
 						End: lspPosition{
 							Line:      sym.Line(),
-							Character: sym.Begin() + len(sym.Name()),
+							Character: sym.End() - 1, // without the colon
 						},
 					},
 					Kind: kind,
-- 
2.43.0


From ab93db85b4044180e94e8ce73cd738053e029921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 17/48] fix: list each number of a constant list once

---
 process.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/process.go b/process.go
index 64a6c75..63ef35a 100644
--- a/process.go
+++ b/process.go
@@ -1141,7 +1141,6 @@ func (c *parserContext) readUint64Array(name string) []uint64 {
 	for c.args.Scan() {
 		i := c.parseUint64(name)
 		res = append(res, i)
-		c.nums = append(c.nums, c.args.Curr())
 	}
 
 	return res
-- 
2.43.0


From 8354e54acbbbe19e343f39700b010b2fe3c23467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:00 +0000
Subject: [PATCH 18/48] fix: offer string literals only for byte values, with
 backslashes escaped

---
 lsp/lsp.go |  5 ++++-
 process.go | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index e1afe0d..d8461af 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1790,7 +1790,10 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 										Character: named.T.End(),
 									},
 								},
-								Value: fmt.Sprintf("\"%s\"", strings.ReplaceAll(named.Value, "\"", "\\\"")),
+								Value: teal.Bytes{
+									Value:  []byte(named.Value),
+									Format: teal.BytesStringLiteral,
+								}.String(),
 							},
 						},
 					},
diff --git a/process.go b/process.go
index 63ef35a..2017677 100644
--- a/process.go
+++ b/process.go
@@ -2762,6 +2762,25 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 					return
 				}
 
+				// only byte values can be replaced with string literals
+				if !ok || i == 0 || len(spec.Args) == 0 {
+					return
+				}
+
+				idx := i - 1
+				if idx >= len(spec.Args) && spec.Args[len(spec.Args)-1].Array {
+					idx = len(spec.Args) - 1
+				}
+
+				if idx >= len(spec.Args) || spec.Args[idx].Type != OpArgTypeBytes {
+					return
+				}
+
+				switch ln[i-1].String() {
+				case "base32", "b32", "base64", "b64":
+					return // encoded data
+				}
+
 				s := tok.String()
 				if !strings.HasPrefix(s, "0x") {
 					return
-- 
2.43.0


From 65f6b2c872bb9e78fb71a91a2c6b11f6c7aa11d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:26 +0000
Subject: [PATCH 19/48] fix: offer hints and quick fixes for every line of a
 range of several lines

---
 lsp/lsp.go |  4 ++--
 process.go |  2 +-
 range.go   | 11 +++++++++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index d8461af..b24404a 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1718,7 +1718,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			}
 
 			for _, ref := range res.MissRefs {
-				if !teal.Overlaps(req.Params.Range, ref) {
+				if !teal.Touches(req.Params.Range, ref) {
 					continue
 				}
 
@@ -1803,7 +1803,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			{
 				kind := "quickfix"
 				for _, v := range res.Versions {
-					if teal.Overlaps(req.Params.Range, v) {
+					if teal.Touches(req.Params.Range, v) {
 						cas = append(cas, lspCodeAction{
 							Title: fmt.Sprintf("Update version to %d", v.Version),
 							Kind:  &kind,
diff --git a/process.go b/process.go
index 2017677..ea94aaa 100644
--- a/process.go
+++ b/process.go
@@ -2719,7 +2719,7 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 		}
 
 		for i, tok := range ln {
-			if !Overlaps(tok, rg) {
+			if !Touches(tok, rg) {
 				continue
 			}
 
diff --git a/range.go b/range.go
index 140e4e3..8246691 100644
--- a/range.go
+++ b/range.go
@@ -12,6 +12,17 @@ func Overlaps(a, b Range) bool {
 		a.StartLine() <= b.EndLine() && b.StartLine() <= a.EndLine()
 }
 
+// Touches reports whether the ranges share a position, a range of several
+// lines covers all of its inner lines
+func Touches(a, b Range) bool {
+	return notAfter(a.StartLine(), a.StartCharacter(), b.EndLine(), b.EndCharacter()) &&
+		notAfter(b.StartLine(), b.StartCharacter(), a.EndLine(), a.EndCharacter())
+}
+
+func notAfter(l1, c1, l2, c2 int) bool {
+	return l1 < l2 || l1 == l2 && c1 <= c2
+}
+
 type LineRange int
 
 func (r LineRange) StartLine() int {
-- 
2.43.0


From 3b3d3e5849204e117ef4df56f60c5a73bd7f85dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:54 +0000
Subject: [PATCH 20/48] fix: create labels and format up to the real end of the
 document

---
 lsp/lsp.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index b24404a..a08722f 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1109,13 +1109,14 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					return errors.New("unexpected number of args")
 				}
 
-				_, res, err := l.prepare(args[0].Uri)
+				doc, _, err := l.prepare(args[0].Uri)
 				if err != nil {
 					return err
 				}
 
 				name := args[0].Name
 				s := fmt.Sprintf("\r\n%s:\r\n", name)
+				end := len(splitLines(doc.s)) // after the last line
 
 				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: fmt.Sprintf("Create label: %s", name),
@@ -1129,12 +1130,12 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 									{
 										Range: lspRange{
 											Start: lspPosition{
-												Line:      len(res.Lines),
+												Line:      end,
 												Character: 0,
 											},
 											End: lspPosition{
-												Line:      len(res.Lines),
-												Character: len(s),
+												Line:      end,
+												Character: 0,
 											},
 										},
 										NewText: s,
@@ -1601,7 +1602,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				return err
 			}
 
-			doc, res, err := l.prepare(req.Params.TextDocument.Uri)
+			doc, _, err := l.prepare(req.Params.TextDocument.Uri)
 			if err != nil {
 				return err
 			}
@@ -1616,7 +1617,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 							Character: 0,
 						},
 						End: lspPosition{
-							Line:      len(res.Lines),
+							Line:      len(splitLines(doc.s)), // after the last line
 							Character: 0,
 						},
 					},
-- 
2.43.0


From d269dc8e05906a9d926fa52994792d2af0f605ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:01 +0000
Subject: [PATCH 21/48] fix: end the language server when its input fails, and
 do not trust the announced length

---
 lsp/lsp.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index a08722f..ed625e4 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -2,6 +2,7 @@ package lsp
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -2202,10 +2203,14 @@ func (l *lsp) Run() (int, error) {
 		l.trace("TEAL LSP exited.")
 	}()
 
+	closed := false // no more input to read
+
 	for !l.exit {
 		err := func() error {
 			mh, err := l.tp.ReadMIMEHeader()
 			if err != nil {
+				var perr textproto.ProtocolError
+				closed = !errors.As(err, &perr)
 				return errors.Wrap(err, "failed to read request headers")
 			}
 
@@ -2220,12 +2225,15 @@ func (l *lsp) Run() (int, error) {
 				return errors.New("negative content length")
 			}
 
-			data := make([]byte, length)
-			_, err = io.ReadFull(l.tp.R, data)
+			var body bytes.Buffer // grows with the data, not with the announced length
+			_, err = io.CopyN(&body, l.tp.R, int64(length))
 			if err != nil {
+				closed = true
 				return errors.Wrap(err, "failed to read content body")
 			}
 
+			data := body.Bytes()
+
 			l.trace(fmt.Sprintf("IN: %s", string(data)))
 
 			var jh jsonRpcHeader
@@ -2254,7 +2262,7 @@ func (l *lsp) Run() (int, error) {
 		if err != nil {
 			l.trace(fmt.Sprintf("ERR: %s", err))
 
-			if errors.Is(err, io.EOF) {
+			if closed {
 				break
 			}
 		}
-- 
2.43.0


From 82287a72d11a7aeb3b65748517da6da6efaa8f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:07 +0000
Subject: [PATCH 22/48] fix: close the bracket of optional values in full
 signatures

---
 process.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/process.go b/process.go
index ea94aaa..6b00a4e 100644
--- a/process.go
+++ b/process.go
@@ -1510,6 +1510,7 @@ var Ops = func() *opItems {
 
 				if arg.Optional {
 					if !optional {
+						optional = true
 						name = "[" + name
 					}
 				}
-- 
2.43.0


From bd6cade2624d25fb7e986bc25507e3796c555db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 23/48] fix: document elliptic curve groups on hover

---
 process.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/process.go b/process.go
index 6b00a4e..41d1cb2 100644
--- a/process.go
+++ b/process.go
@@ -3106,6 +3106,19 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 								}
 							}
 
+						case OpArgTypeEcGroupField:
+							spec, ok := ecGroupSpecByName[tok.String()]
+							if ok {
+								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
+							}
+							v, err := readUint8(tok.String())
+							if err == nil {
+								spec, ok = ecGroupSpecByField(EcGroup(v))
+								if ok {
+									return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
+								}
+							}
+
 						case OpArgTypeGlobalField:
 							spec, ok := globalFieldSpecByName[tok.String()]
 							if ok {
-- 
2.43.0


From 31844086ec92fc1982124f2119b89a8b13bc6987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 24/48] fix: complete only opcodes available in the mode of the
 program

---
 lsp/lsp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index ed625e4..2bb4ee1 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1494,7 +1494,12 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				})
 
 				for name, info := range teal.Ops.Items {
-					if info.AppVersion <= res.Version && strings.HasPrefix(name, prefix) {
+					min := info.AppVersion
+					if res.Mode == teal.ModeSig {
+						min = info.SigVersion
+					}
+
+					if min > 0 && min <= res.Version && strings.HasPrefix(name, prefix) {
 						var insert string
 						var format *int
 						if len(info.Args) > 0 {
@@ -1514,7 +1519,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 							format = nil
 						}
 
-						ld := fmt.Sprintf("v%d", info.AppVersion)
+						ld := fmt.Sprintf("v%d", min)
 						ccs = append(ccs, lspCompletionItem{
 							Label: name,
 							Documentation: lspMarkupContent{
-- 
2.43.0


From 5b1a95c2cb3342cf11cf84ff84bd17dc4a7b1176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:22 +0000
Subject: [PATCH 25/48] fix: do not send inlay hints without a label

---
 lsp/lsp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 2bb4ee1..db63b34 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1376,6 +1376,10 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 
 			if l.config.InlayDecoded {
 				for _, decoded := range hs.Decoded {
+					if decoded.Value == "" {
+						continue // a hint needs a label
+					}
+
 					ihs = append(ihs, lspInlayHint{
 						Position: lspPosition{
 							Line:      decoded.T.Line(),
-- 
2.43.0


From a4e6482de0332ecfadb0ef54a4c40b9613a1784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:25 +0000
Subject: [PATCH 26/48] fix: refuse to format lines that would make the
 formatter exit the server

---
 lsp/lsp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index db63b34..2d99d1f 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1617,6 +1617,12 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				return err
 			}
 
+			for _, ln := range strings.Split(doc.s, "\n") {
+				if len(ln)+1 >= bufio.MaxScanTokenSize {
+					return errors.New("line too long") // tealfmt would exit the process
+				}
+			}
+
 			formatted := tealfmt.Format(strings.NewReader(doc.s))
 
 			return l.success(h.Id, []lspTextEdit{
-- 
2.43.0


From 5b35c911a612c7af015b9c15c0bdb9177e52cb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:57 +0000
Subject: [PATCH 27/48] fix: execute addr, itxna, b- and b| in the debugger
 instead of skipping them

---
 expr.go | 69 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/expr.go b/expr.go
index 5bf0e67..df80fa6 100644
--- a/expr.go
+++ b/expr.go
@@ -1966,6 +1966,14 @@ func (e *ExtractUint64Expr) Execute(b *VmBranch) error {
 	return nil
 }
 
+func (e *Extract64BitsExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeUint64)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeUint64})
+	b.Line++
+	return nil
+}
+
 var Extract64Bits = &Extract64BitsExpr{}
 
 type Replace2Expr struct {
@@ -2132,6 +2140,18 @@ func (e *ItxnaExpr) String() string {
 	return fmt.Sprintf("itxna %d %d", e.Field, e.Index)
 }
 
+func (e *ItxnaExpr) Execute(b *VmBranch) error {
+	spec, ok := txnFieldSpecByField(e.Field)
+	if !ok {
+		panic("unknown field")
+	}
+
+	b.push(VmValue{T: spec.Type().Vm()})
+
+	b.Line++
+	return nil
+}
+
 type GtxnasExpr struct {
 	Field TxnField
 	Index uint8
@@ -2276,6 +2296,12 @@ func (e *AddrExpr) String() string {
 	return fmt.Sprintf("addr %s", e.Address)
 }
 
+func (e *AddrExpr) Execute(b *VmBranch) error {
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 type PushBytessExpr struct {
 	Bytess [][]byte
 }
@@ -3093,6 +3119,13 @@ func (e *BzeroExpr) String() string {
 	return "bzero"
 }
 
+func (e *BzeroExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeUint64)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var Bzero = &BzeroExpr{}
 
 type GetByteExpr struct{}
@@ -3241,6 +3274,14 @@ func (e *BminusExpr) Cost(b *VmBranch) []int {
 	return []int{10}
 }
 
+func (e *BminusExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesMinus = &BminusExpr{}
 
 type BmulExpr struct{}
@@ -3447,6 +3488,14 @@ func (e *BgteqExpr) String() string {
 	return "b>="
 }
 
+func (e *BgteqExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeUint64})
+	b.Line++
+	return nil
+}
+
 var Bgteq = &BgteqExpr{}
 
 type BGtExpr struct{}
@@ -3559,6 +3608,14 @@ func (e *BytesBitOrExpr) Cost(b *VmBranch) []int {
 	return []int{6}
 }
 
+func (e *BytesBitOrExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesBitOr = &BytesBitOrExpr{}
 
 type BytesBitAndExpr struct{}
@@ -3658,6 +3715,18 @@ func (e *BandExpr) String() string {
 	return "b&"
 }
 
+func (e *BandExpr) Cost(b *VmBranch) []int {
+	return []int{6}
+}
+
+func (e *BandExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var Band = &BandExpr{}
 
 type BytesBitXorExpr struct{}
-- 
2.43.0


From d58bc4b1a2a504640ebe02cea4596963e3ff75b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:59 +0000
Subject: [PATCH 28/48] fix: correct the stack types of pushints, bitlen,
 getbit, setbit and app_opted_in

---
 expr.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/expr.go b/expr.go
index df80fa6..59b0264 100644
--- a/expr.go
+++ b/expr.go
@@ -2100,7 +2100,7 @@ func (e *BitLenExpr) String() string {
 }
 
 func (e *BitLenExpr) Execute(b *VmBranch) error {
-	b.pop(VmTypeBytes)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 
@@ -2256,8 +2256,8 @@ type PushIntsExpr struct {
 }
 
 func (e *PushIntsExpr) Execute(b *VmBranch) error {
-	for range e.Ints {
-		b.push(VmValue{T: VmTypeBytes})
+	for _, v := range e.Ints {
+		b.push(VmValue{T: VmTypeUint64, src: vmUint64Const{v: v}})
 	}
 	b.Line++
 	return nil
@@ -3201,7 +3201,7 @@ func (e *GetBitExpr) String() string {
 
 func (e *GetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
@@ -3218,7 +3218,7 @@ func (e *SetBitExpr) String() string {
 func (e *SetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeAny})
 	b.Line++
 	return nil
@@ -3791,7 +3791,7 @@ func (e *AppOptedInExpr) String() string {
 
 func (e *AppOptedInExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
-- 
2.43.0


From 7c041c1a5421e28074876199873221726f89265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:01 +0000
Subject: [PATCH 29/48] fix: keep the order of the values dup2 duplicates

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 59b0264..c65f05b 100644
--- a/expr.go
+++ b/expr.go
@@ -3419,8 +3419,8 @@ func (e *Dup2Expr) String() string {
 }
 
 func (e *Dup2Expr) Execute(b *VmBranch) error {
-	v1 := b.pop(VmTypeAny)
 	v2 := b.pop(VmTypeAny)
+	v1 := b.pop(VmTypeAny)
 	b.push(v1)
 	b.push(v2)
 	b.push(v1)
-- 
2.43.0


From 9b18303108b5bac9dc179c682e2fa2abf78325a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:03 +0000
Subject: [PATCH 30/48] fix: count bury from the top of the stack, and dig and
 frame accesses in deep stacks

---
 expr.go | 8 ++++----
 vm.go   | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/expr.go b/expr.go
index c65f05b..9b3f108 100644
--- a/expr.go
+++ b/expr.go
@@ -1878,7 +1878,7 @@ type BuryExpr struct {
 
 func (e *BuryExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	b.replace(e.Depth, v)
+	b.replace(len(b.Stack.Items)-int(e.Depth), v)
 	b.Line++
 	return nil
 }
@@ -2516,7 +2516,7 @@ func (e *FrameBuryExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
 	v := b.pop(VmTypeAny)
-	b.replace(uint8(int8(f.p)+e.Index), v)
+	b.replace(f.p+int(e.Index), v)
 
 	b.Line++
 	return nil
@@ -2533,7 +2533,7 @@ type FrameDigExpr struct {
 func (e *FrameDigExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
-	v := b.Stack.Items[uint8(int8(f.p)+e.Index)]
+	v := b.Stack.Items[f.p+int(e.Index)]
 	b.push(v)
 
 	b.Line++
@@ -3254,7 +3254,7 @@ type DigExpr struct {
 }
 
 func (e *DigExpr) Execute(b *VmBranch) error {
-	v := b.Stack.Items[uint8(len(b.Stack.Items))-1-e.Index]
+	v := b.peek(int(e.Index))
 	b.push(v)
 	b.Line++
 	return nil
diff --git a/vm.go b/vm.go
index e01389e..677ce31 100644
--- a/vm.go
+++ b/vm.go
@@ -18,7 +18,7 @@ type VmFrame struct {
 	Return     int
 	NumArgs    uint8
 	NumReturns uint8
-	p          uint8
+	p          int
 	Name       string
 }
 
@@ -199,7 +199,7 @@ func (b *VmBranch) prepare(a uint8, r uint8) {
 	b.Frames[len(b.Frames)-1] = f
 }
 
-func (b *VmBranch) replace(n uint8, v VmValue) {
+func (b *VmBranch) replace(n int, v VmValue) {
 	b.Stack.Items[n] = v
 }
 
@@ -280,7 +280,7 @@ func (b *VmBranch) jump(target string) {
 }
 
 func (b *VmBranch) call(target string) {
-	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: uint8(len(b.Stack.Items)), Name: b.Name})
+	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: len(b.Stack.Items), Name: b.Name})
 	b.Line = b.vm.find(target)
 }
 
-- 
2.43.0


From 885c521e11e157f31981c0c5ea98ad3c887d8b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:04 +0000
Subject: [PATCH 31/48] fix: keep the call stack when a subroutine branches in
 the debugger

---
 vm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm.go b/vm.go
index 677ce31..fe0d0ee 100644
--- a/vm.go
+++ b/vm.go
@@ -264,6 +264,7 @@ func (b *VmBranch) fork(target string) {
 		vm:     b.vm,
 		Line:   b.vm.find(target),
 		Stack:  b.Stack.clone(),
+		Frames: append([]VmFrame{}, b.Frames...),
 		Budget: b.Budget,
 		Name:   target,
 		Trace:  append([]Op{}, b.Trace...),
@@ -468,6 +469,7 @@ func (v *Vm) Step() {
 					vm:     b.vm,
 					Line:   b.Line,
 					Stack:  b.Stack.clone(),
+					Frames: append([]VmFrame{}, b.Frames...),
 					Budget: b.Budget,
 					Name:   b.Name,
 					Trace:  append([]Op{}, b.Trace...),
-- 
2.43.0


From e8f8b1148c43e2568e102e3db32b58d1d3a3adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:37 +0000
Subject: [PATCH 32/48] fix: return exactly the results of a subroutine, and
 fail without a caller

---
 expr.go | 20 ++++++++------------
 vm.go   |  5 +++++
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/expr.go b/expr.go
index 9b3f108..a2b10ad 100644
--- a/expr.go
+++ b/expr.go
@@ -1677,18 +1677,14 @@ func (e *RetSubExpr) Execute(b *VmBranch) error {
 	if len(b.Frames) > 0 {
 		f := b.Frames[len(b.Frames)-1]
 
-		rs := []VmValue{}
-
-		for i := uint8(0); i < f.NumReturns; i++ {
-			rs = append(rs, b.pop(VmTypeAny))
-		}
-
-		for i := uint8(0); i < f.NumArgs; i++ {
-			b.pop(VmTypeAny)
-		}
+		if f.proto {
+			rs := len(b.Stack.Items) - int(f.NumReturns)
+			if rs < f.p {
+				panic("retsub executed with stack below frame")
+			}
 
-		for i := len(rs) - 1; i >= 0; i-- {
-			b.push(rs[i])
+			// drop the arguments and everything else below the results
+			b.Stack.Items = append(b.Stack.Items[:f.p-int(f.NumArgs)], b.Stack.Items[rs:]...)
 		}
 
 		b.Line = f.Return + 1
@@ -1696,7 +1692,7 @@ func (e *RetSubExpr) Execute(b *VmBranch) error {
 
 		b.Frames = b.Frames[:len(b.Frames)-1]
 	} else {
-		b.Line++
+		panic("retsub with empty callstack")
 	}
 
 	return nil
diff --git a/vm.go b/vm.go
index fe0d0ee..264aa84 100644
--- a/vm.go
+++ b/vm.go
@@ -19,6 +19,7 @@ type VmFrame struct {
 	NumArgs    uint8
 	NumReturns uint8
 	p          int
+	proto      bool
 	Name       string
 }
 
@@ -194,8 +195,12 @@ func (b *VmBranch) push(t VmValue) {
 
 func (b *VmBranch) prepare(a uint8, r uint8) {
 	f := b.Frames[len(b.Frames)-1]
+	if int(a) > f.p {
+		panic(errors.Errorf("proto requires %d args with stack height %d", a, f.p))
+	}
 	f.NumArgs = a
 	f.NumReturns = r
+	f.proto = true
 	b.Frames[len(b.Frames)-1] = f
 }
 
-- 
2.43.0


From 37ba8e47a5c064c4efff8a7d2bd507b4da1c4e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:38 +0000
Subject: [PATCH 33/48] fix: give every branch of the debugger its own scratch
 space

---
 dbg/dbg.go |  4 ++--
 expr.go    |  2 +-
 vm.go      | 40 +++++++++++++++++++++-------------------
 3 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 6dd62ea..1e30967 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -593,7 +593,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 								}
 							case 2:
 								s := 0
-								e := len(l.vm.tvm.Scratch.Items)
+								e := len(b.Scratch.Items)
 
 								if vreq.Arguments.Start != nil {
 									s = *vreq.Arguments.Start
@@ -604,7 +604,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 								}
 
 								for i := s; i < e; i++ {
-									v := l.vm.tvm.Scratch.Items[i]
+									v := b.Scratch.Items[i]
 									if v.T != teal.VmTypeNone {
 										vs = append(vs, dapVariable{
 											Name:  strconv.Itoa(i),
diff --git a/expr.go b/expr.go
index a2b10ad..12190ef 100644
--- a/expr.go
+++ b/expr.go
@@ -1086,7 +1086,7 @@ func (e *LoadExpr) String() string {
 }
 
 func (e *LoadExpr) Execute(b *VmBranch) error {
-	v := b.vm.Scratch.Items[e.Index]
+	v := b.Scratch.Items[e.Index]
 	b.push(VmValue{T: VmTypeAny, src: v})
 
 	b.Line++
diff --git a/vm.go b/vm.go
index 264aa84..e5b5cff 100644
--- a/vm.go
+++ b/vm.go
@@ -211,7 +211,7 @@ func (b *VmBranch) replace(n int, v VmValue) {
 func (b *VmBranch) store(index VmValue, v VmValue) {
 	switch src := index.src.(type) {
 	case vmUint64Const:
-		b.vm.Scratch.Items[src.v] = v
+		b.Scratch.Items[src.v] = v
 	}
 }
 
@@ -257,6 +257,8 @@ type VmBranch struct {
 
 	Frames []VmFrame
 
+	Scratch VmScratch
+
 	Budget int
 
 	Name  string
@@ -265,14 +267,15 @@ type VmBranch struct {
 
 func (b *VmBranch) fork(target string) {
 	nb := &VmBranch{
-		Id:     b.vm.Id,
-		vm:     b.vm,
-		Line:   b.vm.find(target),
-		Stack:  b.Stack.clone(),
-		Frames: append([]VmFrame{}, b.Frames...),
-		Budget: b.Budget,
-		Name:   target,
-		Trace:  append([]Op{}, b.Trace...),
+		Id:      b.vm.Id,
+		vm:      b.vm,
+		Line:    b.vm.find(target),
+		Stack:   b.Stack.clone(),
+		Frames:  append([]VmFrame{}, b.Frames...),
+		Scratch: b.Scratch,
+		Budget:  b.Budget,
+		Name:    target,
+		Trace:   append([]Op{}, b.Trace...),
 	}
 
 	b.vm.Id++
@@ -309,8 +312,6 @@ type Vm struct {
 	Process *ProcessResult
 	syms    map[string]int
 
-	Scratch VmScratch
-
 	Branches []*VmBranch
 	Branch   *VmBranch
 	Current  int
@@ -470,14 +471,15 @@ func (v *Vm) Step() {
 		for _, cost := range costs {
 			if cb == nil {
 				cb := &VmBranch{
-					Id:     b.vm.Id,
-					vm:     b.vm,
-					Line:   b.Line,
-					Stack:  b.Stack.clone(),
-					Frames: append([]VmFrame{}, b.Frames...),
-					Budget: b.Budget,
-					Name:   b.Name,
-					Trace:  append([]Op{}, b.Trace...),
+					Id:      b.vm.Id,
+					vm:      b.vm,
+					Line:    b.Line,
+					Stack:   b.Stack.clone(),
+					Frames:  append([]VmFrame{}, b.Frames...),
+					Scratch: b.Scratch,
+					Budget:  b.Budget,
+					Name:    b.Name,
+					Trace:   append([]Op{}, b.Trace...),
 				}
 
 				b.vm.Id++
-- 
2.43.0


From 0b2196ca1e4077e4126de6afe2378d0ecd4300c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:40 +0000
Subject: [PATCH 34/48] fix: charge json_ref for the length of the object, not
 of the key

---
 expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index 12190ef..7310244 100644
--- a/expr.go
+++ b/expr.go
@@ -2041,11 +2041,11 @@ type JsonRefExpr struct {
 }
 
 func (e *JsonRefExpr) Cost(b *VmBranch) []int {
-	v := b.peek(0)
+	v := b.peek(1)
 
 	costs := []int{}
 	for _, l := range v.Lengths() {
-		cost := 25 + 2*l/7
+		cost := 25 + 2*(l/7)
 		if l%7 > 0 {
 			cost += 2
 		}
-- 
2.43.0


From b093a3b4c7c192c57c4ee555096b715c6e077ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:42 +0000
Subject: [PATCH 35/48] fix: do not crash on breakpoints before the first line

---
 vm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm.go b/vm.go
index e5b5cff..5f78065 100644
--- a/vm.go
+++ b/vm.go
@@ -418,7 +418,7 @@ func (v *Vm) SetBreakpoints(lns []int) map[int]bool {
 	var res []VmBreakpoint
 
 	for _, ln := range lns {
-		if ln >= len(v.Process.Listing) {
+		if ln < 0 || ln >= len(v.Process.Listing) {
 			continue
 		}
 
-- 
2.43.0


From d79a8efb55d5b09bae115f330b86128f6886f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:12 +0000
Subject: [PATCH 36/48] fix: know the values pushint pushes, as for int, so
 that stores finds its slot

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 7310244..9512337 100644
--- a/expr.go
+++ b/expr.go
@@ -1266,7 +1266,7 @@ func (e *PushIntExpr) String() string {
 }
 
 func (e *PushIntExpr) Execute(b *VmBranch) error {
-	b.push(VmValue{T: VmTypeUint64})
+	b.push(VmValue{T: VmTypeUint64, src: vmUint64Const{v: e.Value}})
 	b.Line++
 	return nil
 }
-- 
2.43.0


From a38084fc59708738f9d5421a58ad776174bf3245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:21 +0000
Subject: [PATCH 37/48] fix: end dupn 255 in the debugger

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 9512337..d6f522c 100644
--- a/expr.go
+++ b/expr.go
@@ -1909,7 +1909,7 @@ func (e *DupNExpr) String() string {
 
 func (e *DupNExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	for i := uint8(0); i <= e.Count; i++ {
+	for i := 0; i <= int(e.Count); i++ {
 		b.push(v)
 	}
 	b.Line++
-- 
2.43.0


From e44500aefc06204564f5fa68eaa6a599e159a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:49 +0000
Subject: [PATCH 38/48] fix: keep retsub when optimizing a listing

---
 compiler.go | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/compiler.go b/compiler.go
index c60fc20..17b012e 100644
--- a/compiler.go
+++ b/compiler.go
@@ -133,8 +133,6 @@ func removeUnused(l Listing) Listing {
 		}
 	}
 
-	var prev Expr
-
 	for i, o := range l {
 		switch o := o.(type) {
 		case *LabelExpr:
@@ -161,20 +159,9 @@ func removeUnused(l Listing) Listing {
 				}
 			}
 			res = append(res, o)
-		case *RetSubExpr:
-			switch o2 := prev.(type) {
-			case *LabelExpr:
-				if !used[o2.Name] {
-					continue
-				}
-
-				res = append(res, o)
-			}
 		default:
 			res = append(res, o)
 		}
-
-		prev = o
 	}
 
 	return res
-- 
2.43.0


From 9468e5a28796a7b8860399f8fa6e1a2f2f0d6708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:51 +0000
Subject: [PATCH 39/48] fix: end the debugger when its input fails, and do not
 trust the announced length

---
 dbg/dbg.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 1e30967..13a4ab9 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -2,6 +2,7 @@ package dbg
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -790,10 +791,14 @@ func (l *dbg) Run() (int, error) {
 		l.trace("TEAL dbg exited.")
 	}()
 
+	closed := false // no more input to read
+
 	for !l.exit {
 		err := func() error {
 			mh, err := l.tp.ReadMIMEHeader()
 			if err != nil {
+				var perr textproto.ProtocolError
+				closed = !errors.As(err, &perr)
 				return errors.Wrap(err, "failed to read request headers")
 			}
 
@@ -804,12 +809,19 @@ func (l *dbg) Run() (int, error) {
 				return errors.Wrap(err, "failed to parse content length")
 			}
 
-			data := make([]byte, length)
-			_, err = io.ReadFull(l.tp.R, data)
+			if length < 0 {
+				return errors.New("negative content length")
+			}
+
+			var body bytes.Buffer // grows with the data, not with the announced length
+			_, err = io.CopyN(&body, l.tp.R, int64(length))
 			if err != nil {
+				closed = true
 				return errors.Wrap(err, "failed to read content body")
 			}
 
+			data := body.Bytes()
+
 			l.trace(fmt.Sprintf("IN: %s", string(data)))
 
 			var jh dapHeader
@@ -829,7 +841,7 @@ func (l *dbg) Run() (int, error) {
 		if err != nil {
 			l.trace(fmt.Sprintf("ERR: %s", err))
 
-			if errors.Is(err, io.EOF) {
+			if closed {
 				break
 			}
 		}
-- 
2.43.0


From 11277e6c11867c19656040ff3b64445fe9aee945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:52 +0000
Subject: [PATCH 40/48] fix: answer requests that fail in the debugger

---
 dbg/dbg.go | 98 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 87 insertions(+), 11 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 13a4ab9..5d572f2 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -21,6 +21,11 @@ func init() {
 	*yes = true
 }
 
+var (
+	errNoArguments = errors.New("missing arguments")
+	errNotLaunched = errors.New("no program launched")
+)
+
 type dbg struct {
 	id int
 
@@ -40,6 +45,8 @@ type dbg struct {
 	vm *dbgVm
 	lz int
 	cz int
+
+	replied bool // the request being handled got its response
 }
 
 type dbgVm struct {
@@ -270,6 +277,7 @@ func readInto(b []byte, v interface{}) error {
 }
 
 func (l *dbg) reply(id int, cmd string, msg string, result interface{}, err interface{}) error {
+	l.replied = true
 	l.id++
 	return l.write(dapResponse{
 		Seq:        l.id,
@@ -303,6 +311,35 @@ func (l *dbg) notify(event string, params interface{}) error {
 	})
 }
 
+// serve handles a message and makes sure that a request gets its response
+func (l *dbg) serve(h dapHeader, b []byte) (err error) {
+	l.replied = false
+
+	defer func() {
+		if e := recover(); e != nil {
+			err = errors.Errorf("%v", e)
+		}
+
+		if h.Type != "request" || l.replied {
+			return
+		}
+
+		if err == nil {
+			err = errors.New("unsupported command")
+		}
+
+		var req dapRequestHeader
+		json.Unmarshal(b, &req)
+
+		rerr := l.reply(h.Seq, req.Command, err.Error(), nil, err)
+		if rerr != nil {
+			err = rerr
+		}
+	}()
+
+	return l.handle(h, b)
+}
+
 func (l *dbg) handle(h dapHeader, b []byte) error {
 	switch h.Type {
 	case "request":
@@ -318,6 +355,10 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			if ireq.Arguments == nil {
+				return errNoArguments
+			}
+
 			if ireq.Arguments.LinesStartAt1 == nil || *ireq.Arguments.LinesStartAt1 {
 				l.lz = 1
 			}
@@ -343,6 +384,10 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			if lreq.Arguments == nil {
+				return errNoArguments
+			}
+
 			bs, err := os.ReadFile(lreq.Arguments.Program)
 			if err != nil {
 				return err
@@ -395,6 +440,10 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			if ser.Arguments == nil {
+				return errNoArguments
+			}
+
 			bs := []dapBreakpoint{}
 
 			if l.vm != nil {
@@ -459,6 +508,10 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				Threads: ts,
 			}, nil)
 		case "pause":
+			if l.vm == nil {
+				return errNotLaunched
+			}
+
 			err := l.reply(h.Seq, req.Command, "", nil, nil)
 			if err != nil {
 				return err
@@ -480,6 +533,11 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 			if err != nil {
 				return err
 			}
+
+			if creq.Arguments == nil {
+				return errNoArguments
+			}
+
 			err = l.reply(h.Seq, req.Command, "", dapContinueResponse{
 				AllThreadsContinued: yes,
 			}, nil)
@@ -533,22 +591,28 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			if nreq.Arguments == nil {
+				return errNoArguments
+			}
+
+			if l.vm == nil {
+				return errNotLaunched
+			}
+
 			err = l.reply(h.Seq, req.Command, "", nil, nil)
 			if err != nil {
 				return err
 			}
 
-			if l.vm != nil {
-				l.vm.tvm.Switch(nreq.Arguments.ThreadId)
-				l.vm.tvm.Step()
+			l.vm.tvm.Switch(nreq.Arguments.ThreadId)
+			l.vm.tvm.Step()
 
-				if l.vm.tvm.Error != nil {
-					return l.notify("stopped", dapStoppedEventParams{
-						Reason:            "exception",
-						AllThreadsStopped: yes,
-						Description:       fmt.Sprintf("Error: %s", l.vm.tvm.Error),
-					})
-				}
+			if l.vm.tvm.Error != nil {
+				return l.notify("stopped", dapStoppedEventParams{
+					Reason:            "exception",
+					AllThreadsStopped: yes,
+					Description:       fmt.Sprintf("Error: %s", l.vm.tvm.Error),
+				})
 			}
 
 			var tid *int
@@ -568,6 +632,10 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			if vreq.Arguments == nil {
+				return errNoArguments
+			}
+
 			vs := []dapVariable{}
 
 			if vreq.Arguments.VariablesReference > 0 {
@@ -647,6 +715,10 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			if sreq.Arguments == nil {
+				return errNoArguments
+			}
+
 			ss := []dapScope{}
 
 			if l.vm != nil {
@@ -691,6 +763,10 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			if sreq.Arguments == nil {
+				return errNoArguments
+			}
+
 			sf := []dapStackFrame{}
 
 			if l.vm != nil {
@@ -830,7 +906,7 @@ func (l *dbg) Run() (int, error) {
 				return errors.Wrap(err, "failed to unmarshal json rpc header")
 			}
 
-			err = l.handle(jh, data)
+			err = l.serve(jh, data)
 			if err != nil {
 				return errors.Wrap(err, "failed to handle request")
 			}
-- 
2.43.0


From d17c170bedd6d60f5347dc316f4c1be55e39aaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:53 +0000
Subject: [PATCH 41/48] fix: return the requested page of variables in the
 debugger

---
 dbg/dbg.go | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 5d572f2..85b2787 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -144,6 +144,24 @@ type dapVariablesRequestParams struct {
 	Count              *int `json:"count,omitempty"`
 }
 
+// page returns which of n variables are requested
+func (p *dapVariablesRequestParams) page(n int) (int, int) {
+	s, e := 0, n
+
+	if p.Start != nil && *p.Start > 0 {
+		s = *p.Start
+		if s > n {
+			s = n
+		}
+	}
+
+	if p.Count != nil && *p.Count > 0 && *p.Count < e-s {
+		e = s + *p.Count
+	}
+
+	return s, e
+}
+
 type dapVariablesResponse struct {
 	Variables []dapVariable `json:"variables"`
 }
@@ -654,23 +672,17 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 									Value: strconv.Itoa(b.Budget),
 								})
 							case 1:
-								for i := len(b.Stack.Items) - 1; i >= 0; i-- {
+								n := len(b.Stack.Items)
+								s, e := vreq.Arguments.page(n)
+
+								for i := n - 1 - s; i >= n-e; i-- {
 									vs = append(vs, dapVariable{
 										Name:  strconv.Itoa(i),
 										Value: b.Stack.Items[i].String(),
 									})
 								}
 							case 2:
-								s := 0
-								e := len(b.Scratch.Items)
-
-								if vreq.Arguments.Start != nil {
-									s = *vreq.Arguments.Start
-								}
-
-								if vreq.Arguments.Count != nil {
-									e = s + *vreq.Arguments.Count
-								}
+								s, e := vreq.Arguments.page(len(b.Scratch.Items))
 
 								for i := s; i < e; i++ {
 									v := b.Scratch.Items[i]
@@ -682,16 +694,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 									}
 								}
 							case 3:
-								s := 0
-								e := len(b.Trace)
-
-								if vreq.Arguments.Start != nil {
-									s = *vreq.Arguments.Start
-								}
-
-								if vreq.Arguments.Count != nil {
-									e = s + *vreq.Arguments.Count
-								}
+								s, e := vreq.Arguments.page(len(b.Trace))
 
 								for i := s; i < e; i++ {
 									v := b.Trace[i]
-- 
2.43.0


From 009e5dd1d4536ce77143961d622066498189626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:54 +0000
Subject: [PATCH 42/48] fix: report the number of stack frames and return the
 requested ones

---
 dbg/dbg.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 85b2787..cd01c0c 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -807,12 +807,23 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				}
 			}
 
-			one := new(int)
-			*one = 1
+			total := len(sf)
+
+			if start := sreq.Arguments.StartFrame; start != nil && *start > 0 {
+				if *start < total {
+					sf = sf[*start:]
+				} else {
+					sf = sf[:0]
+				}
+			}
+
+			if levels := sreq.Arguments.Levels; levels != nil && *levels > 0 && *levels < len(sf) {
+				sf = sf[:*levels]
+			}
 
 			return l.reply(h.Seq, req.Command, "", dapStackTraceResponse{
 				StackFrames: sf,
-				TotalFrames: one,
+				TotalFrames: &total,
 			}, nil)
 		}
 	}
-- 
2.43.0


From 0872796adc099694ad8cf46b1298b38beb50afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:56 +0000
Subject: [PATCH 43/48] fix: keep the breakpoints set before the launch or in
 other files apart

---
 dbg/dbg.go | 96 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 62 insertions(+), 34 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index cd01c0c..20f1eaf 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -40,7 +40,7 @@ type dbg struct {
 	debug *bufio.Writer
 
 	bid int
-	bs  []dbgBreakpoint
+	bs  map[string][]dbgBreakpoint // by source path
 
 	vm *dbgVm
 	lz int
@@ -56,10 +56,37 @@ type dbgVm struct {
 }
 
 type dbgBreakpoint struct {
-	id   int
-	l    int
-	name string
-	path string
+	id int
+	l  int
+}
+
+// hasSource tells if path is the program's source file
+func (v *dbgVm) hasSource(path string) bool {
+	if path == "" || path == v.path {
+		return true
+	}
+
+	a, err := os.Stat(path)
+	if err != nil {
+		return false
+	}
+
+	b, err := os.Stat(v.path)
+	if err != nil {
+		return false
+	}
+
+	return os.SameFile(a, b)
+}
+
+// applyBreakpoints sets the breakpoints requested for path in the program
+func (l *dbg) applyBreakpoints(path string) map[int]bool {
+	lns := []int{}
+	for _, b := range l.bs[path] {
+		lns = append(lns, b.l)
+	}
+
+	return l.vm.tvm.SetBreakpoints(lns)
 }
 
 type DbgOption func(l *dbg) error
@@ -75,6 +102,7 @@ func New(r io.Reader, w io.Writer, opts ...DbgOption) (*dbg, error) {
 	l := &dbg{
 		tp: textproto.NewReader(bufio.NewReader(r)),
 		w:  bufio.NewWriter(w),
+		bs: map[string][]dbgBreakpoint{},
 	}
 
 	for _, opt := range opts {
@@ -421,6 +449,12 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				path: lreq.Arguments.Program,
 			}
 
+			for path := range l.bs {
+				if l.vm.hasSource(path) {
+					l.applyBreakpoints(path)
+				}
+			}
+
 			err = l.reply(h.Seq, req.Command, "", nil, nil)
 			if err != nil {
 				return err
@@ -462,40 +496,34 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return errNoArguments
 			}
 
-			bs := []dapBreakpoint{}
-
-			if l.vm != nil {
-
-				l.bs = []dbgBreakpoint{}
-				for _, b := range ser.Arguments.Breakpoints {
-					bt := dbgBreakpoint{
-						id:   b.Line - l.lz, // TODO: line number used as id - review the design
-						l:    b.Line - l.lz,
-						name: ser.Arguments.Source.Name,
-						path: ser.Arguments.Source.Path,
-					}
-
-					l.bs = append(l.bs, bt)
-				}
+			path := ser.Arguments.Source.Path
 
-				lns := []int{}
-				for _, b := range l.bs {
-					lns = append(lns, b.l)
+			l.bs[path] = []dbgBreakpoint{}
+			for _, b := range ser.Arguments.Breakpoints {
+				bt := dbgBreakpoint{
+					id: b.Line - l.lz, // TODO: line number used as id - review the design
+					l:  b.Line - l.lz,
 				}
 
-				verified := l.vm.tvm.SetBreakpoints(lns)
+				l.bs[path] = append(l.bs[path], bt)
+			}
 
-				for _, b := range l.bs {
-					id := b.id
-					ln := b.l + l.lz
+			verified := map[int]bool{}
+			if l.vm != nil && l.vm.hasSource(path) {
+				verified = l.applyBreakpoints(path)
+			}
 
-					bs = append(bs, dapBreakpoint{
-						Id:       &id,
-						Verified: verified[b.id], // TODO: line number used as id - review the design
-						Line:     &ln,
-						Source:   &ser.Arguments.Source,
-					})
-				}
+			bs := []dapBreakpoint{}
+			for _, b := range l.bs[path] {
+				id := b.id
+				ln := b.l + l.lz
+
+				bs = append(bs, dapBreakpoint{
+					Id:       &id,
+					Verified: verified[b.id], // TODO: line number used as id - review the design
+					Line:     &ln,
+					Source:   &ser.Arguments.Source,
+				})
 			}
 
 			err = l.reply(h.Seq, req.Command, "", dapSetBreakpointsResponse{
-- 
2.43.0


From 9ca628917df6e6922b9a50413a25941d0be4fd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:57 +0000
Subject: [PATCH 44/48] fix: do not write a debug file of the debugger unless
 asked to

---
 cmd/tealdbg/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tealdbg/main.go b/cmd/tealdbg/main.go
index 714dd8b..225ae7e 100644
--- a/cmd/tealdbg/main.go
+++ b/cmd/tealdbg/main.go
@@ -58,7 +58,7 @@ func main() {
 
 	flag.StringVar(&a.Net, "net", "tcp", "client network")
 	flag.StringVar(&a.Addr, "addr", "", "client address")
-	flag.StringVar(&a.Debug, "debug", "E:/dbg.txt", "debug file path")
+	flag.StringVar(&a.Debug, "debug", "", "debug file path")
 
 	flag.Parse()
 
-- 
2.43.0


From 3b7822ad524618e355b504a9de2e8eed4361c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:39 +0000
Subject: [PATCH 45/48] fix: refer to the right artifact in SARIF results

---
 cmd/tealsarif/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 14f386b..fe49474 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -125,7 +125,7 @@ func run(a args) error {
 			},
 		})
 
-		for i, d := range res.Diagnostics {
+		for _, d := range res.Diagnostics {
 			run.Results = append(run.Results, sarif.Result{
 				RuleId: d.Rule(),
 				Level:  ToSarifLevel(d.Severity()),
@@ -137,7 +137,7 @@ func run(a args) error {
 						PhysicalLocation: sarif.PhysicalLocation{
 							ArtifactLocation: sarif.ArtifactLocation{
 								Uri:   up,
-								Index: i,
+								Index: len(run.Artifacts) - 1,
 							},
 							Region: sarif.Region{
 								StartLine:   d.Line() + 1,
-- 
2.43.0


From 51527c258de54deffee53af828d00710ab46da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:15 +0000
Subject: [PATCH 46/48] fix: build cover with Cover

---
 expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index d6f522c..2a91b40 100644
--- a/expr.go
+++ b/expr.go
@@ -3939,8 +3939,8 @@ func CallSub[T Labelled](l T) *CallSubExpr {
 	return &CallSubExpr{Label: l.GetLabel()}
 }
 
-func Cover(index uint8) *UncoverExpr {
-	return &UncoverExpr{Depth: index}
+func Cover(index uint8) *CoverExpr {
+	return &CoverExpr{Depth: index}
 }
 
 func Comment(text string) *CommentExpr {
-- 
2.43.0


From 4f0c63c05d9075efcb1f35c8793fe8c60b9ba747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:17 +0000
Subject: [PATCH 47/48] fix: compile blocks and functions instead of panicking

---
 expr.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/expr.go b/expr.go
index 2a91b40..7dd3f4e 100644
--- a/expr.go
+++ b/expr.go
@@ -1213,12 +1213,36 @@ type NestedExpr struct {
 	Body  []Expr
 }
 
+func (e *NestedExpr) Compile(c *compiler) []Op {
+	var ops []Op
+
+	if e.Label != nil {
+		ops = append(ops, e.Label)
+	}
+
+	return c.compile(ops, e.Body...)
+}
+
 type FuncExpr struct {
 	Label *LabelExpr
 	Proto *ProtoExpr
 	Block *NestedExpr
 }
 
+func (e *FuncExpr) Compile(c *compiler) []Op {
+	ops := []Op{e.Label}
+
+	if e.Proto != nil {
+		ops = append(ops, e.Proto)
+	}
+
+	if e.Block != nil {
+		ops = append(ops, e.Block.Compile(c)...)
+	}
+
+	return append(ops, RetSub)
+}
+
 func (e *FuncExpr) Call(args ...Expr) Expr {
 	var exprs []Expr
 
-- 
2.43.0


From d8e3674afad592bf5fd50bdc8dbf253b0804403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:21 +0000
Subject: [PATCH 48/48] fix: answer a request with exactly its id

---
 lsp/lsp.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 2d99d1f..1764b0c 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -2251,8 +2251,14 @@ func (l *lsp) Run() (int, error) {
 
 			l.trace(fmt.Sprintf("IN: %s", string(data)))
 
+			if !json.Valid(data) {
+				return errors.New("malformed json rpc message")
+			}
+
 			var jh jsonRpcHeader
-			err = json.Unmarshal(data, &jh)
+			dec := json.NewDecoder(bytes.NewReader(data))
+			dec.UseNumber() // a float64 cannot hold every id
+			err = dec.Decode(&jh)
 			if err != nil {
 				return errors.Wrap(err, "failed to unmarshal json rpc header")
 			}
-- 
2.43.0

