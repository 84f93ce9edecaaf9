From 8c4d8f388b88da03bf007fcd39396bfc6ac04758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:02 +0000
Subject: [PATCH 01/40] fix: give attribute-only splat expressions without
 steps a valid range

---
 hcl/hclsyntax/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index 772ebae..cac5027 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -670,6 +670,7 @@ Traversal:
 				trav := make(hcl.Traversal, 0, 1)
 				var firstRange, lastRange hcl.Range
 				firstRange = p.NextRange()
+				lastRange = marker.Range
 				for p.Peek().Type == TokenDot {
 					dot := p.Read()
 
-- 
2.43.0


From ec60b1432fe0bf9c14de654a8d9175bf23ff2d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:02 +0000
Subject: [PATCH 02/40] fix: set the closing range of function calls after an
 argument error

---
 hcl/hclsyntax/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index cac5027..6bda841 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1121,7 +1121,7 @@ Token:
 			// if there was a parse error in the argument then we've
 			// probably been left in a weird place in the token stream,
 			// so we'll bail out with a partial argument list.
-			p.recover(TokenCParen)
+			closeTok = p.recover(TokenCParen)
 			break Token
 		}
 
-- 
2.43.0


From 47496880593123396f8ccb4ef2e5ec9ccddb9d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:02 +0000
Subject: [PATCH 03/40] fix: set the end of an unterminated string literal's
 range

---
 hcl/hclsyntax/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index 6bda841..ccc6553 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1691,6 +1691,7 @@ Token:
 				Subject:  &tok.Range,
 				Context:  hcl.RangeBetween(oQuote.Range, tok.Range).Ptr(),
 			})
+			cQuote = tok
 			break Token
 
 		default:
@@ -1702,7 +1703,7 @@ Token:
 				Subject:  &tok.Range,
 				Context:  hcl.RangeBetween(oQuote.Range, tok.Range).Ptr(),
 			})
-			p.recover(TokenCQuote)
+			cQuote = p.recover(TokenCQuote)
 			break Token
 
 		}
-- 
2.43.0


From fc4ae02a413ed3146f335fe7cdfc2bfe064fe3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:54 +0000
Subject: [PATCH 04/40] fix: scan fragments with a non-zero start position in
 RangeScanner

---
 hcl/pos_scanner.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hcl/pos_scanner.go b/hcl/pos_scanner.go
index 17c0d7c..3ff098b 100644
--- a/hcl/pos_scanner.go
+++ b/hcl/pos_scanner.go
@@ -23,6 +23,7 @@ type RangeScanner struct {
 	b        []byte
 	cb       bufio.SplitFunc
 
+	ofs int    // byte offset of b within the file
 	pos Pos    // position of next byte to process in b
 	cur Range  // latest range
 	tok []byte // slice of b that is covered by cur
@@ -51,12 +52,14 @@ func NewRangeScannerFragment(b []byte, filename string, start Pos, cb bufio.Spli
 		filename: filename,
 		b:        b,
 		cb:       cb,
+		ofs:      start.Byte,
 		pos:      start,
 	}
 }
 
 func (sc *RangeScanner) Scan() bool {
-	if sc.pos.Byte >= len(sc.b) || sc.err != nil {
+	rest := sc.pos.Byte - sc.ofs // start of the unprocessed part of b
+	if rest >= len(sc.b) || sc.err != nil {
 		// All done
 		return false
 	}
@@ -64,7 +67,7 @@ func (sc *RangeScanner) Scan() bool {
 	// Since we're operating on an in-memory buffer, we always pass the whole
 	// remainder of the buffer to our SplitFunc and set isEOF to let it know
 	// that it has the whole thing.
-	advance, token, err := sc.cb(sc.b[sc.pos.Byte:], true)
+	advance, token, err := sc.cb(sc.b[rest:], true)
 
 	// Since we are setting isEOF to true this should never happen, but
 	// if it does we will just abort and assume the SplitFunc is misbehaving.
@@ -92,7 +95,7 @@ func (sc *RangeScanner) Scan() bool {
 	// we're being asked to skip over by the SplitFunc.
 	// adv is a slice covering any additional bytes we are skipping over, based
 	// on what the SplitFunc told us to do with advance.
-	adv := sc.b[sc.pos.Byte : sc.pos.Byte+advance]
+	adv := sc.b[rest : rest+advance]
 
 	// We now need to scan over our token to count the grapheme clusters
 	// so we can correctly advance Column, and count the newlines so we
-- 
2.43.0


From aef60f69e9c8cf5a54149a8e24ae9ab09514e919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:07 +0000
Subject: [PATCH 05/40] fix: report an argument error about an expanded
 argument without panicking

When the final argument of a call is expanded with "...", the index in
an argument error counts the expanded arguments. It was used to index the
arguments as written, which is out of range for all but the first element.
---
 hcl/hclsyntax/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index d3f7a74..7c5a475 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -393,7 +393,7 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 			} else {
 				param = varParam
 			}
-			argExpr := e.Args[i]
+			argExpr := args[i]
 
 			// TODO: we should also unpick a PathError here and show the
 			// path to the deep value where the error was detected.
-- 
2.43.0


From 3749e628e9843db90930e1a90510d36398a36e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:26 +0000
Subject: [PATCH 06/40] fix: evaluate parenthesized object keys

The specification says that {(foo) = 1} takes the key from the variable
foo. The parentheses were ignored, so that the key was the literal name.
---
 hcl/hclsyntax/expression.go | 10 +++++++++-
 hcl/hclsyntax/parser.go     |  9 ++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 7c5a475..5e8f5d2 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -805,9 +805,17 @@ func (e *ObjectConsExpr) ExprMap() []hcl.KeyValuePair {
 // must be interpreted as a literal string rather than evaluated directly.
 type ObjectConsKeyExpr struct {
 	Wrapped Expression
+
+	// ForceNonLiteral is set if the key was written in parentheses, and thus
+	// is an expression to evaluate even if it is a naked identifier.
+	ForceNonLiteral bool
 }
 
 func (e *ObjectConsKeyExpr) literalName() string {
+	if e.ForceNonLiteral {
+		return ""
+	}
+
 	// This is our logic for deciding whether to behave like a literal string.
 	// We lean on our AbsTraversalForExpr implementation here, which already
 	// deals with some awkward cases like the expression being the result
@@ -834,7 +842,7 @@ func (e *ObjectConsKeyExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnost
 	// (This is handled at evaluation time rather than parse time because
 	// an application using static analysis _can_ accept a naked multi-step
 	// traversal here, if desired.)
-	if travExpr, isTraversal := e.Wrapped.(*ScopeTraversalExpr); isTraversal && len(travExpr.Traversal) > 1 {
+	if travExpr, isTraversal := e.Wrapped.(*ScopeTraversalExpr); isTraversal && len(travExpr.Traversal) > 1 && !e.ForceNonLiteral {
 		var diags hcl.Diagnostics
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index ccc6553..a1d8a8e 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1292,6 +1292,10 @@ func (p *parser) parseObjectCons() (Expression, hcl.Diagnostics) {
 			break
 		}
 
+		// Parentheses are not represented in the AST, but here they force
+		// the key to be evaluated even if it is just a name.
+		forceNonLiteral := next.Type == TokenOParen
+
 		var key Expression
 		var keyDiags hcl.Diagnostics
 		key, keyDiags = p.ParseExpression()
@@ -1308,7 +1312,10 @@ func (p *parser) parseObjectCons() (Expression, hcl.Diagnostics) {
 		// We wrap up the key expression in a special wrapper that deals
 		// with our special case that naked identifiers as object keys
 		// are interpreted as literal strings.
-		key = &ObjectConsKeyExpr{Wrapped: key}
+		key = &ObjectConsKeyExpr{
+			Wrapped:         key,
+			ForceNonLiteral: forceNonLiteral,
+		}
 
 		next = p.Peek()
 		if next.Type != TokenEqual && next.Type != TokenColon {
-- 
2.43.0


From eb823e3d9d55d08961bb049dd9553cc5dbe5aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:04 +0000
Subject: [PATCH 07/40] fix: do not take a call with an expanded argument as a
 static call

The arguments of such a call are not known until it is evaluated, but the
static call listed the collection to expand as if it were one argument.
---
 hcl/hclsyntax/expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 5e8f5d2..da94420 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -441,6 +441,10 @@ func (e *FunctionCallExpr) StartRange() hcl.Range {
 
 // Implementation for hcl.ExprCall.
 func (e *FunctionCallExpr) ExprCall() *hcl.StaticCall {
+	if e.ExpandFinal {
+		// The arguments of the call are not known statically.
+		return nil
+	}
 	ret := &hcl.StaticCall{
 		Name:      e.Name,
 		NameRange: e.NameRange,
-- 
2.43.0


From dd373cbd908b8e843d9d88a3afd216691523e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:02 +0000
Subject: [PATCH 08/40] fix: do not panic on an invalid character inside a JSON
 object or array

The scanner stops at an invalid token without emitting an end-of-file token,
so error recovery read past the end of the token list.
---
 hcl/json/parser.go | 4 ++--
 hcl/json/peeker.go | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/hcl/json/parser.go b/hcl/json/parser.go
index d368ea8..4de642f 100644
--- a/hcl/json/parser.go
+++ b/hcl/json/parser.go
@@ -119,7 +119,7 @@ func parseObject(p *peeker) (node, hcl.Diagnostics) {
 				if open <= 1 {
 					return
 				}
-			case tokenEOF:
+			case tokenEOF, tokenInvalid:
 				// Ran out of source before we were able to recover,
 				// so we'll bail here and let the caller deal with it.
 				return
@@ -270,7 +270,7 @@ func parseArray(p *peeker) (node, hcl.Diagnostics) {
 				if open <= 1 {
 					return
 				}
-			case tokenEOF:
+			case tokenEOF, tokenInvalid:
 				// Ran out of source before we were able to recover,
 				// so we'll bail here and let the caller deal with it.
 				return
diff --git a/hcl/json/peeker.go b/hcl/json/peeker.go
index fc7bbf5..2d8a8a5 100644
--- a/hcl/json/peeker.go
+++ b/hcl/json/peeker.go
@@ -18,7 +18,8 @@ func (p *peeker) Peek() token {
 
 func (p *peeker) Read() token {
 	ret := p.tokens[p.pos]
-	if ret.Type != tokenEOF {
+	if ret.Type != tokenEOF && ret.Type != tokenInvalid {
+		// (scanning stops at an invalid token, so that is also the last one)
 		p.pos++
 	}
 	return ret
-- 
2.43.0


From 9dfd368968face073e230c9da88591cff38ae66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:02 +0000
Subject: [PATCH 09/40] fix: give the placeholder body of an invalid JSON file
 a complete range

---
 hcl/json/public.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hcl/json/public.go b/hcl/json/public.go
index 2728aa1..5576b1c 100644
--- a/hcl/json/public.go
+++ b/hcl/json/public.go
@@ -46,9 +46,10 @@ func Parse(src []byte, filename string) (*hcl.File, hcl.Diagnostics) {
 			End:      fakePos,
 		}
 		rootNode = &objectVal{
-			Attrs:     []*objectAttr{},
-			SrcRange:  fakeRange,
-			OpenRange: fakeRange,
+			Attrs:      []*objectAttr{},
+			SrcRange:   fakeRange,
+			OpenRange:  fakeRange,
+			CloseRange: fakeRange,
 		}
 	}
 
-- 
2.43.0


From e8de85fb70def12871f3088964b662c663815e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:02 +0000
Subject: [PATCH 10/40] fix: keep the range of an unterminated JSON string
 error inside the file

---
 hcl/json/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hcl/json/parser.go b/hcl/json/parser.go
index 4de642f..863d25b 100644
--- a/hcl/json/parser.go
+++ b/hcl/json/parser.go
@@ -404,6 +404,10 @@ func parseString(p *peeker) (node, hcl.Diagnostics) {
 		var errRange hcl.Range
 		if serr, ok := err.(*json.SyntaxError); ok {
 			errOfs := serr.Offset
+			if max := int64(len(tok.Bytes) - 1); errOfs > max {
+				// The string ends prematurely, so mark its last byte.
+				errOfs = max
+			}
 			errPos := tok.Range.Start
 			errPos.Byte += int(errOfs)
 
-- 
2.43.0


From fdd30ab9c5f6ca1570fa3239bc671d8ca78ec08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:02 +0000
Subject: [PATCH 11/40] fix: find the closing quote of a JSON string after a
 prepended mark

A grapheme cluster can extend over the quote that follows a character such as
U+0600, so the scanner took the quote as a part of the string.
---
 hcl/json/scanner.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hcl/json/scanner.go b/hcl/json/scanner.go
index da72884..471e6f3 100644
--- a/hcl/json/scanner.go
+++ b/hcl/json/scanner.go
@@ -219,6 +219,15 @@ Byte:
 			// Ignoring error because this scanner cannot produce errors.
 			advance, _, _ := textseg.ScanGraphemeClusters(buf[i:], true)
 
+			// A cluster may include a delimiter after a prepended mark, but
+			// that is a delimiter nonetheless.
+			for j := 1; j < advance; j++ {
+				if c := buf[i+j]; c == '"' || c == '\\' || c < 32 {
+					advance = j
+					break
+				}
+			}
+
 			p.Pos.Byte += advance
 			p.Pos.Column++
 			i += advance
-- 
2.43.0


From 22e21343be66a257074b94ee2c52979b89ba7707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:28 +0000
Subject: [PATCH 12/40] fix: do not report already extracted blocks as
 unexpected in a remaining body

JustAttributes of the body left by PartialContent complained about blocks that
an earlier step had consumed.
---
 hcl/hclsyntax/structure.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/structure.go b/hcl/hclsyntax/structure.go
index 476025d..2e8c302 100644
--- a/hcl/hclsyntax/structure.go
+++ b/hcl/hclsyntax/structure.go
@@ -251,8 +251,10 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	attrs := make(hcl.Attributes)
 	var diags hcl.Diagnostics
 
-	if len(b.Blocks) > 0 {
-		example := b.Blocks[0]
+	for _, example := range b.Blocks {
+		if _, hidden := b.hiddenBlocks[example.Type]; hidden {
+			continue
+		}
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
 			Summary:  fmt.Sprintf("Unexpected %q block", example.Type),
@@ -262,6 +264,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 		// we will continue processing anyway, and return the attributes
 		// we are able to find so that certain analyses can still be done
 		// in the face of errors.
+		break
 	}
 
 	if b.Attributes == nil {
-- 
2.43.0


From 4662f59653fc3532294d2fa5fd1bc8e5b2b9854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:56 +0000
Subject: [PATCH 13/40] fix: accept a required attribute that a schema mentions
 twice

The second mention found the attribute already hidden by the first and reported
it as missing, so a default specification with a required attribute failed.
---
 hcl/hclsyntax/structure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/structure.go b/hcl/hclsyntax/structure.go
index 2e8c302..52e1d0c 100644
--- a/hcl/hclsyntax/structure.go
+++ b/hcl/hclsyntax/structure.go
@@ -146,7 +146,7 @@ func (b *Body) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Bod
 	for _, attrS := range schema.Attributes {
 		name := attrS.Name
 		attr, exists := b.Attributes[name]
-		_, hidden := hiddenAttrs[name]
+		_, hidden := b.hiddenAttrs[name]
 		if hidden || !exists {
 			if attrS.Required {
 				diags = append(diags, &hcl.Diagnostic{
-- 
2.43.0


From 0e3e2ead88c3af193841f37e40ac18807d319c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:58 +0000
Subject: [PATCH 14/40] fix: return a value of the implied type when a
 transform expression fails

Decoding labelled blocks into a map panicked if the transform failed for only
some of them, because the elements then had different types.
---
 hcldec/spec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index f9da7f6..263102b 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -1457,6 +1457,10 @@ func (s *TransformExprSpec) decode(content *hcl.BodyContent, blockLabels []block
 	}
 	resultVal, resultDiags := s.Expr.Value(chiCtx)
 	diags = append(diags, resultDiags...)
+	if resultDiags.HasErrors() {
+		// The partial result may not have the type that was promised.
+		return cty.UnknownVal(s.impliedType()), diags
+	}
 	return resultVal, diags
 }
 
-- 
2.43.0


From 32efdd32f012f15f47585960e788a668cf67199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:58 +0000
Subject: [PATCH 15/40] fix: do not panic on arguments of different types in a
 block of dynamic type

---
 hcldec/spec.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index 263102b..77b1f71 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -1238,6 +1238,33 @@ func (s *BlockAttrsSpec) decode(content *hcl.BodyContent, blockLabels []blockLab
 		vals[name] = attrVal
 	}
 
+	if s.ElementType.HasDynamicTypes() {
+		// The values may have different types, which cty.MapVal would not
+		// accept, so they must first be converted to a single type.
+		names := make([]string, 0, len(vals))
+		etys := make([]cty.Type, 0, len(vals))
+		for name, val := range vals {
+			names = append(names, name)
+			etys = append(etys, val.Type())
+		}
+		ety, convs := convert.UnifyUnsafe(etys)
+		for i, name := range names {
+			var err error
+			if ety != cty.NilType && convs[i] != nil {
+				vals[name], err = convs[i](vals[name])
+			}
+			if ety == cty.NilType || err != nil {
+				diags = append(diags, &hcl.Diagnostic{
+					Severity: hcl.DiagError,
+					Summary:  fmt.Sprintf("Inconsistent argument types in %s block", s.TypeName),
+					Detail:   "All arguments in this block must have the same type.",
+					Subject:  &block.DefRange,
+				})
+				return cty.UnknownVal(cty.Map(s.ElementType)), diags
+			}
+		}
+	}
+
 	return cty.MapVal(vals), diags
 }
 
-- 
2.43.0


From 79899e3e76807647808210792147567e55a4779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:55 +0000
Subject: [PATCH 16/40] fix: report blocks of inconsistent types instead of
 panicking

Unifying object types whose attributes are partly not known yet can leave
elements of different types, which a list or set cannot hold.
---
 hcldec/spec.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index 77b1f71..e237021 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -515,6 +515,15 @@ func (s *BlockListSpec) decode(content *hcl.BodyContent, blockLabels []blockLabe
 				elems[i] = newV
 			}
 		}
+		if i := inconsistentElem(elems); i >= 0 {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  fmt.Sprintf("Unconsistent argument types in %s blocks", s.TypeName),
+				Detail:   "Corresponding attributes in all blocks of this type must be the same.",
+				Subject:  &sourceRanges[i],
+			})
+			return cty.DynamicVal, diags
+		}
 
 		ret = cty.ListVal(elems)
 	}
@@ -547,6 +556,23 @@ func (s *BlockListSpec) sourceRange(content *hcl.BodyContent, blockLabels []bloc
 	return sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested)
 }
 
+// inconsistentElem returns the index of the first element whose type prevents
+// collecting the given values in a list or set, or -1 if there is none. Even
+// after unification this can happen if some of the types are not known yet.
+func inconsistentElem(elems []cty.Value) int {
+	ety := cty.DynamicPseudoType
+	for i, v := range elems {
+		switch {
+		case v.Type() == cty.DynamicPseudoType:
+		case ety == cty.DynamicPseudoType:
+			ety = v.Type()
+		case !ety.Equals(v.Type()):
+			return i
+		}
+	}
+	return -1
+}
+
 // A BlockTupleSpec is a Spec that produces a cty tuple of the results of
 // decoding all of the nested blocks of a given type, using a nested spec.
 //
@@ -789,6 +815,15 @@ func (s *BlockSetSpec) decode(content *hcl.BodyContent, blockLabels []blockLabel
 				elems[i] = newV
 			}
 		}
+		if i := inconsistentElem(elems); i >= 0 {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  fmt.Sprintf("Unconsistent argument types in %s blocks", s.TypeName),
+				Detail:   "Corresponding attributes in all blocks of this type must be the same.",
+				Subject:  &sourceRanges[i],
+			})
+			return cty.DynamicVal, diags
+		}
 
 		ret = cty.SetVal(elems)
 	}
-- 
2.43.0


From 68d3de5f8e01b4931942d7dd595d9f032b1caac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:00:07 +0000
Subject: [PATCH 17/40] fix: give dynamic block contents their iterators when
 only attributes are taken

JustAttributes on an expanded body ignored the iterators in scope and
the items already taken by partial extraction. A body standing in for an
unknown number of blocks lost its missing item range.
---
 ext/dynblock/expand_body.go  | 27 +++++++++++++++++++++++----
 ext/dynblock/unknown_body.go |  4 +++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/ext/dynblock/expand_body.go b/ext/dynblock/expand_body.go
index dd30822..d68677f 100644
--- a/ext/dynblock/expand_body.go
+++ b/ext/dynblock/expand_body.go
@@ -251,10 +251,29 @@ func (b *expandBody) expandChild(child hcl.Body, i *iteration) hcl.Body {
 }
 
 func (b *expandBody) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
-	// blocks aren't allowed in JustAttributes mode and this body can
-	// only produce blocks, so we'll just pass straight through to our
-	// underlying body here.
-	return b.original.JustAttributes()
+	// Blocks aren't allowed in JustAttributes mode, so the underlying body
+	// will report any block or "dynamic" block that is still present. We must
+	// first set aside whatever was consumed by earlier PartialContent calls.
+	original := b.original
+	if len(b.hiddenAttrs) != 0 || len(b.hiddenBlocks) != 0 {
+		hiddenSchema := b.extendSchema(&hcl.BodySchema{})
+		content, remain, _ := original.PartialContent(hiddenSchema)
+		for _, block := range content.Blocks {
+			if block.Type != "dynamic" {
+				continue
+			}
+			if _, hidden := b.hiddenBlocks[block.Labels[0]]; !hidden {
+				// Not consumed yet, so "dynamic" blocks must remain visible.
+				hiddenSchema.Blocks = hiddenSchema.Blocks[1:]
+				_, remain, _ = original.PartialContent(hiddenSchema)
+				break
+			}
+		}
+		original = remain
+	}
+
+	attrs, diags := original.JustAttributes()
+	return b.prepareAttributes(attrs), diags
 }
 
 func (b *expandBody) MissingItemRange() hcl.Range {
diff --git a/ext/dynblock/unknown_body.go b/ext/dynblock/unknown_body.go
index 932f6a3..23580c8 100644
--- a/ext/dynblock/unknown_body.go
+++ b/ext/dynblock/unknown_body.go
@@ -56,7 +56,9 @@ func (b unknownBody) MissingItemRange() hcl.Range {
 }
 
 func (b unknownBody) fixupContent(got *hcl.BodyContent) *hcl.BodyContent {
-	ret := &hcl.BodyContent{}
+	ret := &hcl.BodyContent{
+		MissingItemRange: got.MissingItemRange,
+	}
 	ret.Attributes = b.fixupAttrs(got.Attributes)
 	if len(got.Blocks) > 0 {
 		ret.Blocks = make(hcl.Blocks, 0, len(got.Blocks))
-- 
2.43.0


From e281c0aa1e97c3507e986a3615025f582da8c1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:15 +0000
Subject: [PATCH 18/40] fix: keep all tokens of an expression when loading
 source for rewriting

Parentheses around an expression moved after the following newline, and
index, splat and legacy index expressions made loading panic. Formatting
joined a number, a dot and a number into a single number.
---
 hclwrite/format.go |  4 ++++
 hclwrite/parser.go | 40 ++++++++++++++++++++++++++++++++++------
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index 7111ebd..7c648f5 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -235,6 +235,10 @@ func spaceAfterToken(subject, before, after *Token) bool {
 		// Don't split a function name from open paren in a call
 		return false
 
+	case subject.Type == hclsyntax.TokenDot && before.Type == hclsyntax.TokenNumberLit && after.Type == hclsyntax.TokenNumberLit:
+		// Without a space these would become a single number
+		return true
+
 	case subject.Type == hclsyntax.TokenDot || after.Type == hclsyntax.TokenDot:
 		// Don't use spaces around attribute access dots
 		return false
diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 0e8952d..817a279 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -88,6 +88,15 @@ func (it inputTokens) PartitionType(ty hclsyntax.TokenType) (before, within, aft
 	panic(fmt.Sprintf("didn't find any token of type %s", ty))
 }
 
+func (it inputTokens) HasType(ty hclsyntax.TokenType) bool {
+	for _, t := range it.writerTokens {
+		if t.Type == ty {
+			return true
+		}
+	}
+	return false
+}
+
 func (it inputTokens) PartitionTypeSingle(ty hclsyntax.TokenType) (before inputTokens, found *Token, after inputTokens) {
 	before, within, after := it.PartitionType(ty)
 	if within.Len() != 1 {
@@ -254,10 +263,17 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 	children.AppendUnstructuredTokens(before.Tokens())
 	children.AppendUnstructuredTokens(equalsTokens.Tokens())
 
-	before, exprTokens, from := from.Partition(nativeAttr.Expr.Range())
+	// The expression is whatever remains, apart from any comments before it.
+	// The range of the native expression isn't suitable to find its tokens
+	// because it doesn't include surrounding parentheses, nor the collection
+	// that an index or splat operator is applied to.
+	exprStart := 0
+	for exprStart < from.Len() && from.nativeTokens[exprStart].Type == hclsyntax.TokenComment {
+		exprStart++
+	}
 	{
-		children.AppendUnstructuredTokens(before.Tokens())
-		exprNode := parseExpression(nativeAttr.Expr, exprTokens)
+		children.AppendUnstructuredTokens(from.Slice(0, exprStart).Tokens())
+		exprNode := parseExpression(nativeAttr.Expr, from.Slice(exprStart, from.Len()))
 		attr.expr = exprNode
 		children.AppendNode(exprNode)
 	}
@@ -270,9 +286,6 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 
 	children.AppendUnstructuredTokens(newline.Tokens())
 
-	// Collect any stragglers, though there shouldn't be any
-	children.AppendUnstructuredTokens(from.Tokens())
-
 	return newNode(attr)
 }
 
@@ -404,6 +417,21 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 		children = step.inTree.children
 		before, from, after = from.Partition(nativeStep.SourceRange())
 
+		if !from.HasType(hclsyntax.TokenOBrack) {
+			// Legacy index syntax, like foo.0. A single number token can
+			// represent two steps, as in foo.0.1, so there might be no
+			// tokens at all for the second one.
+			if from.HasType(hclsyntax.TokenNumberLit) {
+				inBefore, token, inAfter := from.PartitionTypeSingle(hclsyntax.TokenNumberLit)
+				children.AppendUnstructuredTokens(inBefore.Tokens())
+				step.key = children.Append(newNumber(token))
+				children.AppendUnstructuredTokens(inAfter.Tokens())
+			} else {
+				children.AppendUnstructuredTokens(from.Tokens())
+			}
+			return before, newNode(step), after
+		}
+
 		var inBefore, oBrack, keyTokens, cBrack inputTokens
 		inBefore, oBrack, from = from.PartitionType(hclsyntax.TokenOBrack)
 		children.AppendUnstructuredTokens(inBefore.Tokens())
-- 
2.43.0


From 4bc79f7f294456f46056f64c4a71965df96ccd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:16 +0000
Subject: [PATCH 19/40] fix: generate the tokens of a traversal

TokensForTraversal always returned no tokens, because the result of
appending was dropped.
---
 hclwrite/generate.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index d249cfd..ebd318f 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -159,12 +159,12 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 
 func appendTokensForTraversal(traversal hcl.Traversal, toks Tokens) Tokens {
 	for _, step := range traversal {
-		appendTokensForTraversalStep(step, toks)
+		toks = appendTokensForTraversalStep(step, toks)
 	}
 	return toks
 }
 
-func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
+func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) Tokens {
 	switch ts := step.(type) {
 	case hcl.TraverseRoot:
 		toks = append(toks, &Token{
@@ -188,7 +188,7 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 			Type:  hclsyntax.TokenOBrack,
 			Bytes: []byte{'['},
 		})
-		appendTokensForValue(ts.Key, toks)
+		toks = appendTokensForValue(ts.Key, toks)
 		toks = append(toks, &Token{
 			Type:  hclsyntax.TokenCBrack,
 			Bytes: []byte{']'},
@@ -196,6 +196,8 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 	default:
 		panic(fmt.Sprintf("unsupported traversal step type %T", step))
 	}
+
+	return toks
 }
 
 func escapeQuotedStringLit(s string) []byte {
-- 
2.43.0


From 446e9a7e2362a44e793a8734717fa602e3b52f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:40 +0000
Subject: [PATCH 20/40] fix: quote an object key that would introduce a for
 expression

---
 hclwrite/generate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index ebd318f..108a6e7 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -129,7 +129,9 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 				})
 			}
 			eKey, eVal := it.Element()
-			if hclsyntax.ValidIdentifier(eKey.AsString()) {
+			// "for" must be quoted because it would otherwise introduce a
+			// for expression.
+			if key := eKey.AsString(); hclsyntax.ValidIdentifier(key) && key != "for" {
 				toks = append(toks, &Token{
 					Type:  hclsyntax.TokenIdent,
 					Bytes: []byte(eKey.AsString()),
-- 
2.43.0


From 1069ff90359f8786f36bc569e391b317f7e452cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:40 +0000
Subject: [PATCH 21/40] fix: return the attribute created by setting it

SetAttributeValue and SetAttributeTraversal returned nil when the
attribute did not exist before.
---
 hclwrite/ast_body.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index cf69fee..9438a93 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -96,7 +96,7 @@ func (b *Body) SetAttributeValue(name string, val cty.Value) *Attribute {
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
@@ -117,7 +117,7 @@ func (b *Body) SetAttributeTraversal(name string, traversal hcl.Traversal) *Attr
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
-- 
2.43.0


From 4d8b49f274e337599c791c7691e062dce27aa545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:41 +0000
Subject: [PATCH 22/40] fix: forget the items of a cleared body, and keep
 blocks in order

A cleared body still offered its former attributes and blocks, and
setting one of those attributes had no effect. The order of the result
of Blocks depended on map iteration.
---
 hclwrite/ast_body.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index 9438a93..8ddb430 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -35,6 +35,7 @@ func (b *Body) appendItemNode(nn *node) *node {
 // Clear removes all of the items from the body, making it empty.
 func (b *Body) Clear() {
 	b.children.Clear()
+	b.items = newNodeSet()
 }
 
 func (b *Body) AppendUnstructuredTokens(ts Tokens) {
@@ -55,10 +56,10 @@ func (b *Body) Attributes() map[string]*Attribute {
 	return ret
 }
 
-// Blocks returns a new slice of all the blocks in the body.
+// Blocks returns a new slice of all the blocks in the body, in source order.
 func (b *Body) Blocks() []*Block {
 	ret := make([]*Block, 0, len(b.items))
-	for n := range b.items {
+	for _, n := range b.items.List() {
 		if block, isBlock := n.content.(*Block); isBlock {
 			ret = append(ret, block)
 		}
-- 
2.43.0


From cd0c508c850e0ddbeb0236e73fd2bfcd5a33db72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:38 +0000
Subject: [PATCH 23/40] fix: begin an appended item on a line of its own

Adding an attribute or block to a file that does not end in a newline, or
to a block written on a single line, gave invalid source.
---
 hclwrite/ast_body.go | 40 ++++++++++++++++++++++++++++++++++++++++
 hclwrite/node.go     | 16 ++++++++++++++++
 hclwrite/parser.go   |  1 +
 3 files changed, 57 insertions(+)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index 8ddb430..134f2b1 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -10,6 +10,11 @@ type Body struct {
 	inTree
 
 	items nodeSet
+
+	// sameLine is true if the body begins on the same line as the opening
+	// brace of its block, in which case a newline is needed before the body
+	// can have more than one item.
+	sameLine bool
 }
 
 func newBody() *Body {
@@ -20,6 +25,7 @@ func newBody() *Body {
 }
 
 func (b *Body) appendItem(c nodeContent) *node {
+	b.prepareAppend()
 	nn := b.children.Append(c)
 	b.items.Add(nn)
 	return nn
@@ -32,6 +38,40 @@ func (b *Body) appendItemNode(nn *node) *node {
 	return nn
 }
 
+// prepareAppend ensures that a new item at the end of the body would begin on
+// a line of its own.
+func (b *Body) prepareAppend() {
+	newline := func() Tokens {
+		return Tokens{
+			{
+				Type:  hclsyntax.TokenNewline,
+				Bytes: []byte{'\n'},
+			},
+		}
+	}
+
+	if b.sameLine {
+		var first *Token
+		for n := b.children.first; n != nil && first == nil; n = n.after {
+			if toks := n.BuildTokens(nil); len(toks) > 0 {
+				first = toks[0]
+			}
+		}
+		if first == nil || !tokenIsNewline(first) {
+			b.children.Prepend(newline())
+		}
+	}
+
+	for n := b.children.last; n != nil; n = n.before {
+		if toks := n.BuildTokens(nil); len(toks) > 0 {
+			if !tokenIsNewline(toks[len(toks)-1]) {
+				b.children.Append(newline())
+			}
+			break
+		}
+	}
+}
+
 // Clear removes all of the items from the body, making it empty.
 func (b *Body) Clear() {
 	b.children.Clear()
diff --git a/hclwrite/node.go b/hclwrite/node.go
index 71fd00f..8eb796b 100644
--- a/hclwrite/node.go
+++ b/hclwrite/node.go
@@ -118,6 +118,22 @@ func (ns *nodes) Append(c nodeContent) *node {
 	return n
 }
 
+func (ns *nodes) Prepend(c nodeContent) *node {
+	n := &node{
+		content: c,
+		list:    ns,
+		after:   ns.first,
+	}
+	if ns.first != nil {
+		ns.first.before = n
+	}
+	ns.first = n
+	if ns.last == nil {
+		ns.last = n
+	}
+	return n
+}
+
 func (ns *nodes) AppendNode(n *node) {
 	if ns.last != nil {
 		n.before = ns.last
diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 817a279..67a21df 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -342,6 +342,7 @@ func parseBlock(nativeBlock *hclsyntax.Block, from, leadComments, lineComments,
 	before, body, after := parseBody(nativeBlock.Body, bodyTokens)
 	children.AppendUnstructuredTokens(before.Tokens())
 	block.body = body
+	block.Body().sameLine = before.Len() == 0
 	children.AppendNode(body)
 	children.AppendUnstructuredTokens(after.Tokens())
 
-- 
2.43.0


From 41c9b04bd1eb76451657eb568f9e61ec6cdefa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:27 +0000
Subject: [PATCH 24/40] fix: pack the whole source of native expressions

The range of an expression does not cover everything that belongs to it,
such as parentheses and trailing index keys, so the packed source was
invalid or meant something else. Heredocs lost the newline that ends them,
and a start position with a byte offset selected the wrong source.
---
 hclpack/pack_native.go | 52 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/hclpack/pack_native.go b/hclpack/pack_native.go
index 05f67a6..60f6653 100644
--- a/hclpack/pack_native.go
+++ b/hclpack/pack_native.go
@@ -1,6 +1,8 @@
 package hclpack
 
 import (
+	"bytes"
+
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/hashicorp/hcl2/hcl/hclsyntax"
 )
@@ -14,15 +16,16 @@ import (
 func PackNativeFile(src []byte, filename string, start hcl.Pos) (*Body, hcl.Diagnostics) {
 	f, diags := hclsyntax.ParseConfig(src, filename, start)
 	rootBody := f.Body.(*hclsyntax.Body)
-	return packNativeBody(rootBody, src), diags
+	return packNativeBody(rootBody, src, start.Byte), diags
 }
 
-func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
+// packNativeBody packs the given body, whose source code is in the given
+// buffer. The first byte of the buffer is at the given byte offset.
+func packNativeBody(body *hclsyntax.Body, src []byte, ofs int) *Body {
 	ret := &Body{}
 	for name, attr := range body.Attributes {
-		exprRng := attr.Expr.Range()
 		exprStartRng := attr.Expr.StartRange()
-		exprSrc := exprRng.SliceBytes(src)
+		exprSrc, exprRng := nativeExprSource(attr, src, ofs)
 		ret.setAttribute(name, Attribute{
 			Expr: Expression{
 				Source:     exprSrc,
@@ -37,7 +40,7 @@ func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
 	}
 
 	for _, block := range body.Blocks {
-		childBody := packNativeBody(block.Body, src)
+		childBody := packNativeBody(block.Body, src, ofs)
 		defRange := block.TypeRange
 		if len(block.LabelRanges) > 0 {
 			defRange = hcl.RangeBetween(defRange, block.LabelRanges[len(block.LabelRanges)-1])
@@ -56,3 +59,42 @@ func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
 
 	return ret
 }
+
+// nativeExprSource returns the source code of the whole expression of the given
+// attribute and its range.
+//
+// The range of the expression itself is not sufficient, because it does not
+// necessarily cover all of the tokens that belong to the expression, such as
+// any parentheses around it or the index keys at its end.
+func nativeExprSource(attr *hclsyntax.Attribute, src []byte, ofs int) ([]byte, hcl.Range) {
+	rng := hcl.Range{
+		Filename: attr.SrcRange.Filename,
+		Start:    attr.EqualsRange.End,
+		End:      attr.SrcRange.End,
+	}
+	start, end := rng.Start.Byte-ofs, rng.End.Byte-ofs
+	if start < 0 || start > end || end > len(src) {
+		// Should not be possible, even for an invalid expression.
+		return nil, attr.Expr.Range()
+	}
+	nextLine := end
+	if bytes.HasPrefix(src[end:], []byte{'\n'}) {
+		nextLine = end + 1
+	} else if bytes.HasPrefix(src[end:], []byte{'\r', '\n'}) {
+		nextLine = end + 2
+	}
+	tokens, _ := hclsyntax.LexExpression(src[start:nextLine], rng.Filename, rng.Start)
+	for _, token := range tokens {
+		if token.Type != hclsyntax.TokenComment {
+			rng.Start = token.Range.Start
+			break
+		}
+	}
+	for _, token := range tokens {
+		if token.Type == hclsyntax.TokenCHeredoc && token.Range.End == rng.End {
+			// The end of a heredoc is recognized only at the end of a line.
+			end = nextLine
+		}
+	}
+	return src[rng.Start.Byte-ofs : end], rng
+}
-- 
2.43.0


From 40aa56dc1a214e46673abe5433440a3101fdc529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:27 +0000
Subject: [PATCH 25/40] fix: treat out-of-bounds packed ranges as absent

Unmarshalling a packed body whose ranges refer to positions that do not
exist panicked.
---
 hclpack/positions_packed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclpack/positions_packed.go b/hclpack/positions_packed.go
index 29c7144..0cce9fc 100644
--- a/hclpack/positions_packed.go
+++ b/hclpack/positions_packed.go
@@ -172,10 +172,10 @@ func packRange(rng hcl.Range, pos map[string]map[hcl.Pos]posOfs) rangePacked {
 func (rp rangePacked) Unpack(fns []string, poss []position) hcl.Range {
 	startIdx := rp.Start.Index()
 	endIdx := rp.End.Index()
-	if startIdx < 0 && startIdx >= len(poss) {
+	if startIdx < 0 || startIdx >= len(poss) {
 		return hcl.Range{} // out of bounds, so invalid
 	}
-	if endIdx < 0 && endIdx >= len(poss) {
+	if endIdx < 0 || endIdx >= len(poss) {
 		return hcl.Range{} // out of bounds, so invalid
 	}
 	startPos := poss[startIdx]
-- 
2.43.0


From 2ef1414a7a0a4380ea878268e47e1d968050bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:27 +0000
Subject: [PATCH 26/40] fix: return each packed attribute with its own
 expression

JustAttributes on a packed body returned the same expression for all
attributes, and the same range for all unexpected blocks.
---
 hclpack/structure.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hclpack/structure.go b/hclpack/structure.go
index 488a99e..21df8af 100644
--- a/hclpack/structure.go
+++ b/hclpack/structure.go
@@ -195,11 +195,12 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	var diags hcl.Diagnostics
 	if len(b.ChildBlocks) > 0 {
 		for _, block := range b.ChildBlocks {
+			block := block // so that each diagnostic has its own range
 			diags = append(diags, &hcl.Diagnostic{
 				Severity: hcl.DiagError,
 				Summary:  fmt.Sprintf("Unexpected %s block", block.Type),
 				Detail:   "Blocks are not allowed here.",
-				Context:  &block.TypeRange,
+				Subject:  &block.TypeRange,
 			})
 		}
 		// We'll continue processing anyway, and return any attributes we find
@@ -212,6 +213,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 
 	ret := make(hcl.Attributes, len(b.Attributes))
 	for n, a := range b.Attributes {
+		a := a // so that each attribute has its own expression
 		ret[n] = a.asHCLAttribute(n)
 	}
 	return ret, diags
-- 
2.43.0


From 74831b10ef8d60f6f450dc7501e6fba2f0b1f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:59:48 +0000
Subject: [PATCH 27/40] fix: render an object attribute named "for" as a valid
 type expression

TypeString gave text that parsed as the start of a "for" expression.
---
 ext/typeexpr/public.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ext/typeexpr/public.go b/ext/typeexpr/public.go
index e3f5eef..5027d28 100644
--- a/ext/typeexpr/public.go
+++ b/ext/typeexpr/public.go
@@ -97,6 +97,10 @@ func TypeString(ty cty.Type) string {
 				// Using Go-style quoting here isn't perfect, since it doesn't
 				// exactly match HCL syntax, but it's fine for an edge-case.
 				buf.WriteString(fmt.Sprintf("%q", name))
+			} else if name == "for" {
+				// Without the parentheses this would introduce a "for"
+				// expression if it is the first attribute.
+				buf.WriteString("(for)")
 			} else {
 				buf.WriteString(name)
 			}
-- 
2.43.0


From bfae8a3530528d592ff790b22136f641c7409a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:01 +0000
Subject: [PATCH 28/40] fix: transform blocks extracted from the remainder of a
 deep transform

---
 ext/transform/transform.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ext/transform/transform.go b/ext/transform/transform.go
index 30e9eed..81a8075 100644
--- a/ext/transform/transform.go
+++ b/ext/transform/transform.go
@@ -45,6 +45,12 @@ func (w deepWrapper) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diag
 func (w deepWrapper) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	content, remain, diags := w.Transformed.PartialContent(schema)
 	content = w.transformContent(content)
+	// The remaining body is already transformed, but the bodies of any blocks
+	// subsequently extracted from it are not.
+	remain = deepWrapper{
+		Transformed: remain,
+		Transformer: w.Transformer,
+	}
 	return content, remain, diags
 }
 
-- 
2.43.0


From 591f8e2bc491f11be1c0c68c77eab4f7bfd5bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:01 +0000
Subject: [PATCH 29/40] fix: return a body for the remainder of an error body

PartialContent of a body made by NewErrorBody, or of one with errors that
wraps nothing, returned a nil body.
---
 ext/transform/error.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ext/transform/error.go b/ext/transform/error.go
index d7de418..bb9c5f3 100644
--- a/ext/transform/error.go
+++ b/ext/transform/error.go
@@ -67,7 +67,11 @@ func (b diagBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnos
 
 func (b diagBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	if b.Diags.HasErrors() {
-		return b.emptyContent(), b.Wrapped, b.Diags
+		remain := b.Wrapped
+		if remain == nil {
+			remain = hcl.EmptyBody()
+		}
+		return b.emptyContent(), remain, b.Diags
 	}
 
 	content, remain, wrappedDiags := b.Wrapped.PartialContent(schema)
-- 
2.43.0


From 56ac5447123acebcd802ae613fd090cc4f1099ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:01 +0000
Subject: [PATCH 30/40] fix: report the problems of include blocks

Invalid include blocks were ignored silently.
---
 ext/include/transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/include/transformer.go b/ext/include/transformer.go
index 15c513f..0bd37ce 100644
--- a/ext/include/transformer.go
+++ b/ext/include/transformer.go
@@ -79,7 +79,7 @@ func (t *transformer) TransformBody(in hcl.Body) hcl.Body {
 		bodies = append(bodies, transform.BodyWithDiagnostics(incBody, incDiags))
 	}
 
-	return hcl.MergeBodies(bodies)
+	return transform.BodyWithDiagnostics(hcl.MergeBodies(bodies), diags)
 }
 
 var includeBlockSchema = &hcl.BodySchema{
-- 
2.43.0


From a07731803c328bdabba3c1f73d22eb32c0a63052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:11:56 +0000
Subject: [PATCH 31/40] fix: decode blocks into *hcl.Block, hcl.Body and
 hcl.Attributes fields

Fields of these types are documented for blocks but made the schema panic
or were filled with the zero value.
---
 gohcl/decode.go | 10 +++++-----
 gohcl/schema.go |  6 ++++++
 gohcl/types.go  |  6 ++++++
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/gohcl/decode.go b/gohcl/decode.go
index 3a149a8..191214b 100644
--- a/gohcl/decode.go
+++ b/gohcl/decode.go
@@ -127,7 +127,7 @@ func decodeBodyToStruct(body hcl.Body, ctx *hcl.EvalContext, val reflect.Value)
 			isSlice = true
 			ty = ty.Elem()
 		}
-		if ty.Kind() == reflect.Ptr {
+		if ty.Kind() == reflect.Ptr && !isRawBlockType(ty) {
 			isPtr = true
 			ty = ty.Elem()
 		}
@@ -146,7 +146,7 @@ func decodeBodyToStruct(body hcl.Body, ctx *hcl.EvalContext, val reflect.Value)
 		}
 
 		if len(blocks) == 0 {
-			if isSlice || isPtr {
+			if isSlice || field.Type.Kind() == reflect.Ptr {
 				val.Field(fieldIdx).Set(reflect.Zero(field.Type))
 			} else {
 				diags = append(diags, &hcl.Diagnostic{
@@ -230,15 +230,15 @@ func decodeBlockToValue(block *hcl.Block, ctx *hcl.EvalContext, v reflect.Value)
 
 	switch {
 	case blockType.AssignableTo(ty):
-		v.Elem().Set(reflect.ValueOf(block))
+		v.Set(reflect.ValueOf(block))
 	case bodyType.AssignableTo(ty):
-		v.Elem().Set(reflect.ValueOf(block.Body))
+		v.Set(reflect.ValueOf(block.Body))
 	case attrsType.AssignableTo(ty):
 		attrs, attrsDiags := block.Body.JustAttributes()
 		if len(attrsDiags) > 0 {
 			diags = append(diags, attrsDiags...)
 		}
-		v.Elem().Set(reflect.ValueOf(attrs))
+		v.Set(reflect.ValueOf(attrs))
 	default:
 		diags = append(diags, decodeBodyToValue(block.Body, ctx, v)...)
 
diff --git a/gohcl/schema.go b/gohcl/schema.go
index 88164cb..c4a43c4 100644
--- a/gohcl/schema.go
+++ b/gohcl/schema.go
@@ -77,6 +77,12 @@ func ImpliedBodySchema(val interface{}) (schema *hcl.BodySchema, partial bool) {
 		if fty.Kind() == reflect.Slice {
 			fty = fty.Elem()
 		}
+		if isRawBlockType(fty) {
+			blockSchemas = append(blockSchemas, hcl.BlockHeaderSchema{
+				Type: n,
+			})
+			continue
+		}
 		if fty.Kind() == reflect.Ptr {
 			fty = fty.Elem()
 		}
diff --git a/gohcl/types.go b/gohcl/types.go
index a94f275..3ed0feb 100644
--- a/gohcl/types.go
+++ b/gohcl/types.go
@@ -14,3 +14,9 @@ var bodyType = reflect.TypeOf(&victimBody).Elem()
 var blockType = reflect.TypeOf((*hcl.Block)(nil))
 var attrType = reflect.TypeOf((*hcl.Attribute)(nil))
 var attrsType = reflect.TypeOf(hcl.Attributes(nil))
+
+// isRawBlockType returns true if the given type is one of those that a block
+// can be captured in without decoding its contents.
+func isRawBlockType(ty reflect.Type) bool {
+	return ty == blockType || ty == bodyType || ty == attrsType
+}
-- 
2.43.0


From 051ab1a857b2c26b3f1cf3d31a132e4f4f6b71c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:14:19 +0000
Subject: [PATCH 32/40] fix: leave undecoded attributes and blocks out when
 encoding structs

A non-nil *hcl.Attribute field made encoding panic, and *hcl.Block fields
were written as empty blocks.
---
 gohcl/encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gohcl/encode.go b/gohcl/encode.go
index 3cbf7e4..073978b 100644
--- a/gohcl/encode.go
+++ b/gohcl/encode.go
@@ -107,6 +107,9 @@ func populateBody(rv reflect.Value, ty reflect.Type, tags *fieldTags, dst *hclwr
 		fieldTy := field.Type
 		fieldVal := rv.Field(fieldIdx)
 
+		if fieldTy == attrType || fieldTy == blockType {
+			continue // ignore undecoded fields
+		}
 		if fieldTy.Kind() == reflect.Ptr {
 			fieldTy = fieldTy.Elem()
 			fieldVal = fieldVal.Elem()
@@ -150,7 +153,7 @@ func populateBody(rv reflect.Value, ty reflect.Type, tags *fieldTags, dst *hclwr
 				elemTy = elemTy.Elem()
 			}
 
-			if bodyType.AssignableTo(elemTy) || attrsType.AssignableTo(elemTy) {
+			if isRawBlockType(elemTy) {
 				continue // ignore undecoded fields
 			}
 			prevWasBlock = false
-- 
2.43.0


From 95e9b33366cece1216c5459228eb1d07ce825706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:56 +0000
Subject: [PATCH 33/40] fix: give the range of the right label for labelled
 block maps

The source range of a label inside a BlockMapSpec or BlockObjectSpec was
that of one of the labels used as keys.
---
 hcldec/spec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index e237021..01007ee 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -998,7 +998,7 @@ func (s *BlockMapSpec) sourceRange(content *hcl.BodyContent, blockLabels []block
 		return content.MissingItemRange
 	}
 
-	return sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested)
+	return sourceRange(childBlock.Body, labelsForBlock(childBlock)[len(s.LabelNames):], s.Nested)
 }
 
 // A BlockObjectSpec is a Spec that produces a cty object of the results of
@@ -1142,7 +1142,7 @@ func (s *BlockObjectSpec) sourceRange(content *hcl.BodyContent, blockLabels []bl
 		return content.MissingItemRange
 	}
 
-	return sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested)
+	return sourceRange(childBlock.Body, labelsForBlock(childBlock)[len(s.LabelNames):], s.Nested)
 }
 
 // A BlockAttrsSpec is a Spec that interprets a single block as if it were
-- 
2.43.0


From 490f8f00297ad38175af3581b4c526cde6e1f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:54:54 +0000
Subject: [PATCH 34/40] fix: do not register a JSON file that could not be read

The parser recorded a nil file, so a later call to Sources panicked and a
second attempt to parse the file returned nil without diagnostics.
---
 hclparse/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hclparse/parser.go b/hclparse/parser.go
index 6d47f12..e669765 100644
--- a/hclparse/parser.go
+++ b/hclparse/parser.go
@@ -89,6 +89,9 @@ func (p *Parser) ParseJSONFile(filename string) (*hcl.File, hcl.Diagnostics) {
 	}
 
 	file, diags := json.ParseFile(filename)
+	if file == nil {
+		return nil, diags
+	}
 	p.files[filename] = file
 	return file, diags
 }
-- 
2.43.0


From 942b5d4f577347edb4293cf506507f3723c6ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:54:54 +0000
Subject: [PATCH 35/40] fix: return an empty body for an included file that
 cannot be read

The file resolver dereferenced the nil file the parser returns with its
diagnostics.
---
 ext/include/file_resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ext/include/file_resolver.go b/ext/include/file_resolver.go
index c79a094..aba1aaf 100644
--- a/ext/include/file_resolver.go
+++ b/ext/include/file_resolver.go
@@ -48,5 +48,8 @@ func (r fileResolver) ResolveBodyPath(path string, refRange hcl.Range) (hcl.Body
 		f, diags = r.Parser.ParseHCLFile(targetFile)
 	}
 
+	if f == nil {
+		return hcl.EmptyBody(), diags
+	}
 	return f.Body, diags
 }
-- 
2.43.0


From 9355dd40c2d5341a9f37d1e6069c7a202c2bd27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:38 +0000
Subject: [PATCH 36/40] fix: accept block_attrs blocks in hcldec spec files

The documented block_attrs spec was implemented but missing from the list of
accepted block types, so every use of it was rejected.
---
 cmd/hcldec/spec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index c8b90d3..9d19846 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -609,6 +609,7 @@ var specBlockTypes = []string{
 	"block_list",
 	"block_map",
 	"block_set",
+	"block_attrs",
 
 	"default",
 	"transform",
-- 
2.43.0


From 1f029df0af10e9be59aeb031a0b0f38554096605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:39 +0000
Subject: [PATCH 37/40] fix: do not crash on a default spec block with a single
 nested spec

The warning about it referred to a second block that does not exist.
---
 cmd/hcldec/spec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index 9d19846..272ea4d 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -523,7 +523,7 @@ func decodeDefaultSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 			Severity: hcl.DiagWarning,
 			Summary:  "Useless default block",
 			Detail:   "A default block with only one spec is equivalent to using that spec alone.",
-			Subject:  &content.Blocks[1].DefRange,
+			Subject:  &content.Blocks[0].DefRange,
 		})
 	}
 
-- 
2.43.0


From 1b325a176cf2ac03731197424c357a2d5fc005c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:39 +0000
Subject: [PATCH 38/40] fix: return a placeholder for a default spec block
 without valid specs

A nil spec made the surrounding block_map spec crash.
---
 cmd/hcldec/spec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index 272ea4d..9efcc02 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -545,6 +545,10 @@ func decodeDefaultSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 		}
 	}
 
+	if spec == nil {
+		return errSpec, diags
+	}
+
 	return spec, diags
 }
 
-- 
2.43.0


From ef73e856e574fdba26a36abde546c0fdfe8cf96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:40 +0000
Subject: [PATCH 39/40] fix: report a block spec without a block type in hcldec
 spec files

All the other kinds of block specs already report it; this one silently never
matched any block.
---
 cmd/hcldec/spec.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index 9efcc02..a4847f4 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -256,6 +256,16 @@ func decodeBlockSpec(body hcl.Body, impliedName string) (hcldec.Spec, hcl.Diagno
 	diags = append(diags, nestedDiags...)
 	spec.Nested = nested
 
+	if spec.TypeName == "" {
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  "Missing block_type in block spec",
+			Detail:   "The block_type attribute is required, to specify the block type name that is expected in an input HCL file.",
+			Subject:  body.MissingItemRange().Ptr(),
+		})
+		return errSpec, diags
+	}
+
 	return spec, diags
 }
 
-- 
2.43.0


From a64c9e58be2bc9dca96af63a1fe7375039105fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:29:31 +0000
Subject: [PATCH 40/40] fix: keep all digits of numbers in the output of hcldec

---
 cmd/hcldec/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/hcldec/main.go b/cmd/hcldec/main.go
index 16dbb03..080c563 100644
--- a/cmd/hcldec/main.go
+++ b/cmd/hcldec/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
@@ -332,7 +333,9 @@ func showVarRefsJSON(vars []hcl.Traversal, ctx *hcl.EvalContext) error {
 
 func stripJSONNullProperties(src []byte) []byte {
 	var v interface{}
-	err := json.Unmarshal(src, &v)
+	dec := json.NewDecoder(bytes.NewReader(src))
+	dec.UseNumber() // a float64 does not preserve all numbers
+	err := dec.Decode(&v)
 	if err != nil {
 		// We expect valid JSON
 		panic(err)
-- 
2.43.0

