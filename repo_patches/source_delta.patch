From 9943842d14bc12143c67f5989709e58941913c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 01/65] fix: lexer runs past the end of input on a trailing
 backslash in a string

---
 libnixf/src/Parse/Lexer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 3de974f..cf4b2e5 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -397,6 +397,12 @@ Token Lexer::lexString() {
     // Consume two characters, for escaping
     // NOTE: we may not want to break out Unicode wchar here, but libexpr does
     // such ignoring
+    if (eof(Cur.Offset + 1)) {
+      // A lone '\\' right before EOF, there is nothing to escape.
+      consume();
+      Tok = tok_string_part;
+      break;
+    }
     consume(2);
     Tok = tok_string_escape;
     break;
@@ -440,7 +446,8 @@ Token Lexer::lexIndString() {
       Tok = tok_string_escape;
     } else if (consumePrefix("\\")) {
       // ''\ escapes any character
-      consume();
+      if (!eof())
+        consume();
       Tok = tok_string_escape;
     } else {
       Tok = tok_quote2;
-- 
2.43.0


From 68bc85a9601e12940cc008fcec875020c62d2540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 02/65] fix: paths with adjacent interpolations or an interior
 ~/ abort the parser

---
 libnixf/src/Parse/ParseStrings.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 1ee5ddf..47e151e 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -33,21 +33,26 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
   LexerCursor End;
   /* with(PS_Path) */ {
     auto PathState = withState(PS_Path);
-    do {
+    while (true) {
       Token Current = peek();
-      Fragments.emplace_back(std::string(Current.view()));
-      consume();
-      End = Current.rCur();
-      Token Next = peek();
-      if (Next.kind() == tok_path_end)
-        break;
-      if (Next.kind() == tok_dollar_curly) {
+      // "~/" is only meaningful as the very beginning of a path, otherwise it
+      // is not a part of this one.
+      if (Current.kind() == tok_path_fragment &&
+          (Fragments.empty() || !Current.view().starts_with('~'))) {
+        Fragments.emplace_back(std::string(Current.view()));
+        consume();
+        End = Current.rCur();
+        continue;
+      }
+      if (Current.kind() == tok_dollar_curly) {
         if (auto Expr = parseInterpolation())
           Fragments.emplace_back(std::move(Expr));
+        assert(LastToken && "LastToken should be set in parseInterpolation()");
+        End = LastToken->rCur();
         continue;
       }
-      assert(false && "should be path_end or ${");
-    } while (true);
+      break;
+    }
   }
   auto Parts = std::make_shared<InterpolatedParts>(
       LexerCursorRange{Begin.lCur(), End}, std::move(Fragments));
-- 
2.43.0


From 17c9f4633dd540f1b15234af26d16c573158b411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 03/65] fix: "$$${x}" in strings: "$$" is a pair, the
 interpolation after it was lost

---
 libnixf/src/Parse/Lexer.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index cf4b2e5..b86ed37 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -422,9 +422,9 @@ Token Lexer::lexString() {
         break;
       if (peekUnwrap() == '"')
         break;
-      // double-$, or \$, escapes ${.
-      // We will handle escaping on Sema
-      if (consumePrefix("$${"))
+      // "$$" is taken as a pair, the second "$" does not start "${".
+      // (\$ also escapes ${, we will handle escaping on Sema)
+      if (consumePrefix("$$"))
         continue;
       // Encountered a string interpolation, stop here
       if (peekPrefix("${"))
@@ -464,9 +464,9 @@ Token Lexer::lexIndString() {
   for (; !eof();) {
     if (peekPrefix("''"))
       break;
-    // double-$, or \$, escapes ${.
-    // We will handle escaping on Sema
-    if (consumePrefix("$${"))
+    // "$$" is taken as a pair, the second "$" does not start "${".
+    // (''$ also escapes ${, we will handle escaping on Sema)
+    if (consumePrefix("$$"))
       continue;
     // Encountered a string interpolation, stop here
     if (peekPrefix("${"))
-- 
2.43.0


From b7dfffbafe389516ce0b602d55407caa5a2eff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 04/65] fix: escapes in indented strings are decoded as if they
 were double-quoted ones

---
 libnixf/src/Parse/ParseStrings.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 47e151e..1668af4 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -78,11 +78,18 @@ std::shared_ptr<InterpolatedParts> Parser::parseStringParts() {
     }
     case tok_string_escape: {
       // Process escape sequence and add the unescaped character to Parts.
-      // The token view contains the full escape sequence (e.g., "\\n", "\\\"")
+      // The token view contains the full escape sequence:
+      //   "\\n", "\\\""              in double quoted strings
+      //   "''$", "'''", "''\\n"     in indented strings
       std::string_view EscapeSeq = Tok.view();
       std::string Unescaped;
-      if (EscapeSeq.size() >= 2) {
-        char Escaped = EscapeSeq[1];
+      if (EscapeSeq == "'''") {
+        Unescaped = "''";
+      } else if (EscapeSeq == "''$") {
+        Unescaped = "$";
+      } else if (std::size_t Lead = EscapeSeq.starts_with("''") ? 3 : 1;
+                 EscapeSeq.size() > Lead) {
+        char Escaped = EscapeSeq[Lead];
         switch (Escaped) {
         case 'n':
           Unescaped = "\n";
-- 
2.43.0


From 9fb51f39e275b8f68341ec73160877e79a9c6d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 05/65] fix: binding power of '/', '!' and '?' disagrees with
 the Nix grammar

'/' was missing a result and fell through to '++', '!' bound looser than
'//', and '?' ignored the operator to its left, so `-a ? b` was `-(a ? b)`.
---
 libnixf/src/Parse/ParseOp.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index 58a19b0..d9623f7 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -57,10 +57,12 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
   case tok_op_negate:
     return {14, 15};
   case tok_op_mul: // %left * /
-    return {16, 17};
   case tok_op_div:
+    return {16, 17};
   case tok_op_concat: // %right ++
     return {19, 18};
+  case tok_question: // %nonassoc '?'
+    return {20, 20};
   // % op_negate
   default:
     __builtin_unreachable();
@@ -70,7 +72,7 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
 unsigned getUnaryBP(TokenKind Kind) {
   switch (Kind) {
   case tok_op_not:
-    return 11;
+    return 13;
   case tok_op_negate:
     return 100;
   default:
@@ -140,6 +142,8 @@ std::shared_ptr<Expr> Parser::parseExprOpBP(unsigned LeftRBP) {
       }
     case tok_question: {
       // expr_op '?' attrpath
+      if (LeftRBP > getBP(Tok.kind()).first)
+        return Prefix;
       consume();
       assert(LastToken && "consume() should have set LastToken");
       auto O = std::make_shared<Op>(Tok.range(), Tok.kind());
-- 
2.43.0


From 859d7208b93472d58574f0c8714e1af1e374ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 06/65] fix: `inherit "a";` and `inherit ${x};` abort the
 parser

---
 libnixf/src/Sema/SemaActions.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 589012d..7226a90 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -337,9 +337,17 @@ std::pair<std::shared_ptr<Expr>, Attribute::AttributeKind>
 Sema::desugarInheritExpr(std::shared_ptr<AttrName> Name,
                          std::shared_ptr<Expr> E) {
   auto Range = Name->range();
-  if (!E)
-    return {std::make_shared<ExprVar>(Range, Name->id()),
+  if (!E) {
+    // Dynamic names are not allowed here, there is no variable to refer to.
+    if (!Name->isStatic())
+      return {nullptr, Attribute::AttributeKind::Inherit};
+    // The name may be quoted: inherit "a";
+    auto ID = Name->kind() == AttrName::ANK_ID
+                  ? Name->id()
+                  : std::make_shared<Identifier>(Range, Name->staticName());
+    return {std::make_shared<ExprVar>(Range, std::move(ID)),
             Attribute::AttributeKind::Inherit};
+  }
 
   auto Path = std::make_shared<AttrPath>(
       Range, std::vector<std::shared_ptr<AttrName>>{std::move(Name)},
-- 
2.43.0


From 0dd30889fb511c2d3b5e1ea98866d6a79ffe5ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 07/65] fix: the attribute name "" is taken for dynamic,
 "\${x}${y}" is rewritten to interpolate x

An empty string is a literal, so `inherit (s) "";` is no longer an error and
`{ "" = 1; "" = 2; }` is one. Text fragments next to each other are merged also
when there is an interpolation, so that quoting sees "${" that spans two.
---
 libnixf/include/nixf/Basic/Nodes/Simple.h |  8 ++++++--
 libnixf/src/Parse/ParseStrings.cpp        | 18 +++++++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Simple.h b/libnixf/include/nixf/Basic/Nodes/Simple.h
index c8cb3ef..998116e 100644
--- a/libnixf/include/nixf/Basic/Nodes/Simple.h
+++ b/libnixf/include/nixf/Basic/Nodes/Simple.h
@@ -94,12 +94,16 @@ public:
   };
 
   [[nodiscard]] bool isLiteral() const {
-    return Fragments.size() == 1 &&
-           Fragments[0].kind() == InterpolablePart::SPK_Escaped;
+    return Fragments.empty() ||
+           (Fragments.size() == 1 &&
+            Fragments[0].kind() == InterpolablePart::SPK_Escaped);
   }
 
   [[nodiscard]] const std::string &literal() const {
     assert(isLiteral() && "must be a literal");
+    static const std::string Empty;
+    if (Fragments.empty())
+      return Empty;
     return Fragments[0].escaped();
   }
 
diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 1668af4..f1f4ff5 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -62,22 +62,30 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
 
 std::shared_ptr<InterpolatedParts> Parser::parseStringParts() {
   std::vector<InterpolablePart> Parts;
+  // Text not pushed to Parts yet. Plain parts and escapes next to each other
+  // make up a single fragment, so that "a\n" is a literal.
+  std::string Text;
+  auto FlushText = [&]() {
+    if (!Text.empty())
+      Parts.emplace_back(std::move(Text));
+    Text.clear();
+  };
   LexerCursor PartsBegin = peek().lCur();
   while (true) {
     switch (Token Tok = peek(0); Tok.kind()) {
     case tok_dollar_curly: {
+      FlushText();
       if (auto Expr = parseInterpolation())
         Parts.emplace_back(std::move(Expr));
       continue;
     }
     case tok_string_part: {
-      // If this is a part of string, just push it.
-      Parts.emplace_back(std::string(Tok.view()));
+      Text += Tok.view();
       consume();
       continue;
     }
     case tok_string_escape: {
-      // Process escape sequence and add the unescaped character to Parts.
+      // Process escape sequence and add the unescaped character to Text.
       // The token view contains the full escape sequence:
       //   "\\n", "\\\""              in double quoted strings
       //   "''$", "'''", "''\\n"     in indented strings
@@ -106,13 +114,13 @@ std::shared_ptr<InterpolatedParts> Parser::parseStringParts() {
           break;
         }
       }
-      if (!Unescaped.empty())
-        Parts.emplace_back(std::move(Unescaped));
+      Text += Unescaped;
       consume();
       continue;
     }
     default:
       assert(LastToken && "LastToken should be set in `parseString`");
+      FlushText();
       return std::make_shared<InterpolatedParts>(
           LexerCursorRange{PartsBegin, LastToken->rCur()},
           std::move(Parts)); // TODO!
-- 
2.43.0


From bd6dce6904df9e7a94cb49b41dbb31e940af1dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 08/65] fix: "<a/>" is not a search path

---
 libnixf/src/Parse/Lexer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index b86ed37..cfbcf9d 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -306,6 +306,9 @@ bool Lexer::consumeSPath() {
             consume();
           continue;
         }
+        // "/" must be followed by something, otherwise it is not a search path.
+        Cur = Saved;
+        return false;
       }
       break;
     }
-- 
2.43.0


From 6ef9338f397acd4c4b511c8b13a35138403ec3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 09/65] fix: formals beginning with a comma, `{ , a }: a` and
 `{ , }: a`, are accepted

---
 libnixf/src/Sema/SemaActions.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 7226a90..84300f7 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -227,6 +227,18 @@ void Sema::checkFormalSep(const FormalVector &FV) {
 }
 
 void Sema::checkFormalEmpty(const FormalVector &FV) {
+  // The separator is only allowed after a formal, e.g.
+  // { , a } and { , }
+  //   ^       ^  nothing before the first ","
+  if (!FV.empty()) {
+    const Formal &First = *FV.front();
+    if (First.comma() && (First.id() || First.isEllipsis() || FV.size() == 1)) {
+      LexerCursorRange Range = First.comma()->range();
+      Diagnostic &D = Diags.emplace_back(Diagnostic::DK_EmptyFormal, Range);
+      D.fix("remove empty formal").edit(TextEdit::mkRemoval(Range));
+      D.tag(DiagnosticTag::Faded);
+    }
+  }
   for (auto It = FV.cbegin(); It != FV.cend(); It++) {
     // Special case, ignore the last one.
     // Because the nix formatting guide explicitly place a "comma" at the
-- 
2.43.0


From 262dae171701d683cafba92315ca1b3a1e2d71ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 10/65] fix: quick fix for an extra "@" in a lambda removes the
 argument instead

---
 libnixf/src/Parse/ParseLambda.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libnixf/src/Parse/ParseLambda.cpp b/libnixf/src/Parse/ParseLambda.cpp
index 59947ab..3b3fb09 100644
--- a/libnixf/src/Parse/ParseLambda.cpp
+++ b/libnixf/src/Parse/ParseLambda.cpp
@@ -88,7 +88,8 @@ std::shared_ptr<LambdaArg> Parser::parseLambdaArg() {
     assert(LastToken && "LastToken should be set after consume()");
     auto ID =
         std::make_shared<Identifier>(TokID.range(), std::string(TokID.view()));
-    if (peek().kind() != tok_at)
+    Token TokAt = peek();
+    if (TokAt.kind() != tok_at)
       return Act.onLambdaArg(LexerCursorRange{LCur, LastToken->rCur()},
                              std::move(ID), nullptr);
 
@@ -97,10 +98,10 @@ std::shared_ptr<LambdaArg> Parser::parseLambdaArg() {
     if (!Formals) {
       // extra "@", consider remove it.
       Diagnostic &D =
-          Diags.emplace_back(Diagnostic::DK_LambdaArgExtraAt, TokID.range());
-      D.fix("remove extra @").edit(TextEdit::mkRemoval(TokID.range()));
+          Diags.emplace_back(Diagnostic::DK_LambdaArgExtraAt, TokAt.range());
+      D.fix("remove extra @").edit(TextEdit::mkRemoval(TokAt.range()));
       D.fix("insert dummy formals")
-          .edit(TextEdit::mkInsertion(TokID.rCur(), R"({})"));
+          .edit(TextEdit::mkInsertion(TokAt.rCur(), R"({})"));
     }
     return Act.onLambdaArg(LexerCursorRange{LCur, LastToken->rCur()},
                            std::move(ID), std::move(Formals));
-- 
2.43.0


From 1bb4759a8afc7f01699e7a42365097388d071ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 11/65] fix: dynamic attributes in let bindings are not
 reported

---
 libnixf/src/Parse/ParseExpr.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index 88062b1..9903009 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -253,6 +253,25 @@ std::shared_ptr<ExprAssert> Parser::parseExprAssert() {
                                       std::move(Cond), std::move(Value));
 }
 
+namespace {
+
+/// Dynamic attributes are not allowed in let ... in ..., however ${"foo"} is
+/// the same thing as "foo".
+void checkLetDynamic(std::vector<Diagnostic> &Diags, const SemaAttrs &SA) {
+  for (const Attribute &Attr : SA.dynamicAttrs()) {
+    const auto &Name = static_cast<const AttrName &>(Attr.key());
+    if (Name.kind() == AttrName::ANK_Interpolation) {
+      const Expr *E = Name.interpolation().expr();
+      if (!E || (E->kind() == Node::NK_ExprString &&
+                 static_cast<const ExprString *>(E)->isLiteral()))
+        continue;
+    }
+    Diags.emplace_back(Diagnostic::DK_LetDynamic, Name.range());
+  }
+}
+
+} // namespace
+
 std::shared_ptr<ExprLet> Parser::parseExprLet() {
   LexerCursor LCur = lCur();
   Token TokLet = peek();
@@ -269,6 +288,8 @@ std::shared_ptr<ExprLet> Parser::parseExprLet() {
 
   auto Binds = parseBinds();
   auto Attrs = Binds ? Act.onExprAttrs(Binds->range(), Binds, Let) : nullptr;
+  if (Attrs)
+    checkLetDynamic(Diags, Attrs->sema());
 
   ExpectResult ExpKwIn = expect(tok_kw_in);
 
-- 
2.43.0


From 8ee5149c5e1bf61b384e6e59ec3fcdad68eb2a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 12/65] fix: floats are rounded to single precision

---
 libnixf/src/Parse/ParseSimple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseSimple.cpp b/libnixf/src/Parse/ParseSimple.cpp
index c5ceebf..a7fbf57 100644
--- a/libnixf/src/Parse/ParseSimple.cpp
+++ b/libnixf/src/Parse/ParseSimple.cpp
@@ -147,7 +147,7 @@ std::shared_ptr<Expr> Parser::parseExprSimple() {
   case tok_float: {
     consume();
     // libc++ doesn't support std::from_chars for floating point numbers.
-    NixFloat N = std::strtof(std::string(Tok.view()).c_str(), nullptr);
+    NixFloat N = std::strtod(std::string(Tok.view()).c_str(), nullptr);
     return std::make_shared<ExprFloat>(Tok.range(), N);
   }
   case tok_spath: {
-- 
2.43.0


From a29db857c94e20d0a483ec3f6bfef042d220b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 13/65] fix: a variable named like an internal primop aborts
 variable lookup

---
 libnixf/src/Sema/VariableLookup.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 792d706..d0aaf4c 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -210,9 +210,6 @@ void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
   } else {
     // Check if this is a primop.
     switch (lookupGlobalPrimOpInfo(Name)) {
-    case PrimopLookupResult::Found:
-      assert(false && "primop name should be defined");
-      break;
     case PrimopLookupResult::PrefixedFound: {
       Diagnostic &D =
           Diags.emplace_back(Diagnostic::DK_PrimOpNeedsPrefix, Var.range());
@@ -222,6 +219,8 @@ void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
           {&Var, LookupResult{LookupResultKind::Undefined, nullptr}});
       break;
     }
+    case PrimopLookupResult::Found:
+      // Visible primops are defined, so this one is internal: not exposed.
     case PrimopLookupResult::NotFound:
       // Otherwise, this variable is undefined.
       Results.insert(
-- 
2.43.0


From f0bcf6061573c36f1e0b09fdaa74f0529fee107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 14/65] fix: old let is reported to have an unneeded "rec", the
 fix removes `let`

---
 libnixf/src/Sema/VariableLookup.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index d0aaf4c..388b3f7 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -398,8 +398,12 @@ void VariableLookupAnalysis::dfs(const ExprLet &Let,
 
 void VariableLookupAnalysis::dfs(const ExprLegacyLet &LegacyLet,
                                  const std::shared_ptr<EnvNode> &Env) {
-  if (LegacyLet.attrs())
-    dfs(*LegacyLet.attrs(), Env);
+  if (!LegacyLet.attrs())
+    return;
+  const ExprAttrs &Attrs = *LegacyLet.attrs();
+  Envs.insert({&Attrs, Env});
+  // There is no "rec" to be removed, thus no liveness diagnostic.
+  dfsAttrs(Attrs.sema(), Env, &Attrs, Definition::DS_Rec);
 }
 
 void VariableLookupAnalysis::trivialDispatch(
-- 
2.43.0


From 2c660dd40fb7b77d1494fd82c6556cd698ffd168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 15/65] fix: the source of an inherit is analysed once per
 inherited name

---
 libnixf/src/Sema/VariableLookup.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 388b3f7..5a63dc4 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -512,7 +512,9 @@ void VariableLookupAnalysis::checkLetInheritBuiltins(const SemaAttrs &SA) {
 
 void VariableLookupAnalysis::dfs(const Node &Root,
                                  const std::shared_ptr<EnvNode> &Env) {
-  Envs.insert({&Root, Env});
+  // All names of "inherit (expr) a b;" share "expr", visit it only once.
+  if (!Envs.insert({&Root, Env}).second)
+    return;
   switch (Root.kind()) {
   case Node::NK_ExprVar: {
     const auto &Var = static_cast<const ExprVar &>(Root);
-- 
2.43.0


From e2f4c641172ae20025ba11289f303caf38cf208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 16/65] fix: builtins.x is judged although builtins or x is
 redefined, or x is not a name

---
 libnixf/include/nixf/Sema/VariableLookup.h |  4 +--
 libnixf/src/Sema/VariableLookup.cpp        | 31 +++++++++++++++++-----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/libnixf/include/nixf/Sema/VariableLookup.h b/libnixf/include/nixf/Sema/VariableLookup.h
index e592a14..4b09552 100644
--- a/libnixf/include/nixf/Sema/VariableLookup.h
+++ b/libnixf/include/nixf/Sema/VariableLookup.h
@@ -140,9 +140,9 @@ private:
 
   void lookupVar(const ExprVar &Var, const std::shared_ptr<EnvNode> &Env);
 
-  void checkBuiltins(const ExprSelect &Sel);
+  void checkBuiltins(const ExprSelect &Sel, const EnvNode &Env);
 
-  void checkLetInheritBuiltins(const SemaAttrs &SA);
+  void checkLetInheritBuiltins(const SemaAttrs &SA, const EnvNode &Env);
 
   std::shared_ptr<EnvNode> dfsAttrs(const SemaAttrs &SA,
                                     const std::shared_ptr<EnvNode> &Env,
diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 5a63dc4..0d75100 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -85,6 +85,15 @@ bool checkInheritedFromBuiltin(const Attribute &Attr) {
   return false;
 }
 
+/// \returns true if \p Name is the builtin one in \p Env, i.e. not redefined.
+bool isBuiltinIn(const EnvNode *Env, const std::string &Name) {
+  for (; Env; Env = Env->parent()) {
+    if (auto It = Env->defs().find(Name); It != Env->defs().end())
+      return It->second->isBuiltin();
+  }
+  return false;
+}
+
 bool isBuiltinConstant(const std::string &Name) {
   if (Name.starts_with("_"))
     return false;
@@ -385,7 +394,7 @@ void VariableLookupAnalysis::dfs(const ExprLet &Let,
     // If there are some attributes actually, create a new env.
     const SemaAttrs &SA = Let.attrs()->sema();
     assert(SA.isRecursive() && "let ... in ... attrset must be recursive");
-    checkLetInheritBuiltins(SA);
+    checkLetInheritBuiltins(SA, *Env);
     return dfsAttrs(SA, Env, &Let, Definition::DS_Let);
   };
 
@@ -443,7 +452,8 @@ void VariableLookupAnalysis::dfs(const ExprWith &With,
   }
 }
 
-void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
+void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel,
+                                           const EnvNode &Env) {
   if (!Sel.path())
     return;
 
@@ -455,7 +465,7 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
     return;
 
   const auto &Builtins = static_cast<const ExprVar &>(Sel.expr());
-  if (Builtins.id().name() != "builtins")
+  if (Builtins.id().name() != "builtins" || !isBuiltinIn(&Env, "builtins"))
     return;
 
   const auto &AP = *Sel.path();
@@ -471,6 +481,10 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
 
   switch (lookupGlobalPrimOpInfo(Name)) {
   case PrimopLookupResult::Found: {
+    // The rest must denote the same thing: a variable that is not redefined.
+    if (First.kind() != AttrName::ANK_ID || Sel.defaultExpr() ||
+        !isBuiltinIn(&Env, Name))
+      return;
     Diagnostic &D = Diags.emplace_back(Diagnostic::DK_PrimOpRemovablePrefix,
                                        Builtins.range());
     Fix &F =
@@ -495,13 +509,18 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
   }
 }
 
-void VariableLookupAnalysis::checkLetInheritBuiltins(const SemaAttrs &SA) {
+void VariableLookupAnalysis::checkLetInheritBuiltins(const SemaAttrs &SA,
+                                                     const EnvNode &Env) {
+  if (SA.staticAttrs().contains("builtins") || !isBuiltinIn(&Env, "builtins"))
+    return;
+
   for (const auto &[Name, Attr] : SA.staticAttrs()) {
     if (!checkInheritedFromBuiltin(Attr))
       continue;
 
     // Check if the inherited name is a prelude builtin
-    if (lookupGlobalPrimOpInfo(Name) == PrimopLookupResult::Found) {
+    if (lookupGlobalPrimOpInfo(Name) == PrimopLookupResult::Found &&
+        isBuiltinIn(&Env, Name)) {
       Diagnostic &D = Diags.emplace_back(Diagnostic::DK_PrimOpRemovablePrefix,
                                          Attr.key().range());
       D.fix("remove unnecessary inherit")
@@ -549,7 +568,7 @@ void VariableLookupAnalysis::dfs(const Node &Root,
   case Node::NK_ExprSelect: {
     trivialDispatch(Root, Env);
     const auto &Sel = static_cast<const ExprSelect &>(Root);
-    checkBuiltins(Sel);
+    checkBuiltins(Sel, *Env);
     break;
   }
   default:
-- 
2.43.0


From 2e536ddd78d4ae7d91e49feb6dcc5f30de9c89c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 17/65] fix: removing redundant parentheses joins the tokens
 around them, `a(b)` becomes `ab`

---
 libnixf/src/Parse/ParseSimple.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Parse/ParseSimple.cpp b/libnixf/src/Parse/ParseSimple.cpp
index a7fbf57..2108bc6 100644
--- a/libnixf/src/Parse/ParseSimple.cpp
+++ b/libnixf/src/Parse/ParseSimple.cpp
@@ -35,6 +35,19 @@ bool mayProducedBySimple(const Expr *E) {
   return mayProducedBySimple(E->kind());
 }
 
+/// Remove a parenthesis, without joining the tokens before and after it.
+TextEdit mkParenRemoval(std::string_view Src, LexerCursorRange Paren) {
+  size_t Begin = Paren.lCur().offset();
+  size_t End = Paren.rCur().offset();
+  auto IsOneOf = [&](size_t Pos, std::string_view Chars) {
+    return Chars.find(Src[Pos]) != std::string_view::npos;
+  };
+  if (Begin == 0 || IsOneOf(Begin - 1, " \t\r\n([{;\"") ||
+      End == Src.size() || IsOneOf(End, " \t\r\n)]};"))
+    return TextEdit::mkRemoval(Paren);
+  return {Paren, " "};
+}
+
 } // namespace
 
 std::shared_ptr<ExprParen> Parser::parseExprParen() {
@@ -55,8 +68,8 @@ std::shared_ptr<ExprParen> Parser::parseExprParen() {
           Diags.emplace_back(Diagnostic::DK_RedundantParen, LParen->range());
       D.tag(DiagnosticTag::Faded);
       Fix &F = D.fix("remove ( and )");
-      F.edit(TextEdit::mkRemoval(LParen->range()));
-      F.edit(TextEdit::mkRemoval(RParen->range()));
+      F.edit(mkParenRemoval(Src, LParen->range()));
+      F.edit(mkParenRemoval(Src, RParen->range()));
     }
     return std::make_shared<ExprParen>(
         LexerCursorRange{L.lCur(), ER.tok().rCur()}, std::move(Expr),
@@ -69,7 +82,7 @@ std::shared_ptr<ExprParen> Parser::parseExprParen() {
           Diags.emplace_back(Diagnostic::DK_RedundantParen, LParen->range());
       D.tag(DiagnosticTag::Faded);
       Fix &F = D.fix("remove (");
-      F.edit(TextEdit::mkRemoval(LParen->range()));
+      F.edit(mkParenRemoval(Src, LParen->range()));
     }
     return std::make_shared<ExprParen>(
         LexerCursorRange{L.lCur(), LastToken->rCur()}, std::move(Expr),
-- 
2.43.0


From f2c474752947950b9f4c91eb84eafa3686d925cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 18/65] fix: removing an empty `inherit (x);` leaves its source
 `(x)` behind

---
 libnixf/src/Parse/ParseAttrs.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libnixf/src/Parse/ParseAttrs.cpp b/libnixf/src/Parse/ParseAttrs.cpp
index 3eab21c..5bb13fe 100644
--- a/libnixf/src/Parse/ParseAttrs.cpp
+++ b/libnixf/src/Parse/ParseAttrs.cpp
@@ -117,6 +117,7 @@ std::shared_ptr<Inherit> Parser::parseInherit() {
   assert(LastToken && "LastToken should be set after consume()");
   std::vector<std::shared_ptr<AttrName>> AttrNames;
   std::shared_ptr<Expr> Expr = nullptr;
+  std::optional<LexerCursorRange> Source; // "(" expr ")"
   if (Token Tok = peek(); Tok.kind() == tok_l_paren) {
     consume();
     Expr = parseExpr();
@@ -127,6 +128,7 @@ std::shared_ptr<Inherit> Parser::parseInherit() {
     else
       ER.diag().note(Note::NK_ToMachThis, Tok.range())
           << std::string(tok::spelling(tok_l_paren));
+    Source = {Tok.lCur(), LastToken->rCur()};
   }
   while (true) {
     if (auto AttrName = parseAttrName()) {
@@ -149,6 +151,9 @@ std::shared_ptr<Inherit> Parser::parseInherit() {
     D.tag(DiagnosticTag::Faded);
     Fix &F = D.fix("remove `inherit` keyword");
     F.edit(TextEdit::mkRemoval(TokInherit.range()));
+    // Nothing is inherited from the source.
+    if (Source)
+      F.edit(TextEdit::mkRemoval(*Source));
     if (ER.ok()) {
       // Remove ";" also.
       F.edit(TextEdit::mkRemoval(ER.tok().range()));
-- 
2.43.0


From 34ba305883d335a74532822e8261061f6dcd0404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 19/65] fix: removing the unused binding of `let""=1;in` yields
 `letin`

---
 libnixf/src/Sema/VariableLookup.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 0d75100..07692e5 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -165,8 +165,10 @@ void VariableLookupAnalysis::emitEnvLivenessWarning(
               // range
               if (D.range().lCur() == FirstName->range().lCur() &&
                   D.range().rCur() == FirstName->range().rCur()) {
+                // Keep `let""=1;in` from becoming `letin`.
+                bool AtLet = Bind.lCur() == Let.let().rCur();
                 D.fix("remove unused binding")
-                    .edit(TextEdit::mkRemoval(Bind.range()));
+                    .edit(TextEdit(Bind.range(), AtLet ? " " : ""));
                 break;
               }
             }
-- 
2.43.0


From ccb93155d1f1def52d27e3c2b5840841429637ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 20/65] fix: the `builtins.` prefix is offered for inherited
 names, where it is a syntax error

---
 libnixf/include/nixf/Sema/VariableLookup.h |  6 +++++-
 libnixf/src/Sema/VariableLookup.cpp        | 24 +++++++++++++++++-----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/libnixf/include/nixf/Sema/VariableLookup.h b/libnixf/include/nixf/Sema/VariableLookup.h
index 4b09552..0c256e9 100644
--- a/libnixf/include/nixf/Sema/VariableLookup.h
+++ b/libnixf/include/nixf/Sema/VariableLookup.h
@@ -138,7 +138,11 @@ private:
   // name lookup, for later references like code completions.
   EnvMap Envs;
 
-  void lookupVar(const ExprVar &Var, const std::shared_ptr<EnvNode> &Env);
+  void lookupVar(const ExprVar &Var, const std::shared_ptr<EnvNode> &Env,
+                 bool IsInherited = false);
+
+  /// A name in "inherit", desugared to a variable.
+  void dfsInherited(const Expr &Value, const std::shared_ptr<EnvNode> &Env);
 
   void checkBuiltins(const ExprSelect &Sel, const EnvNode &Env);
 
diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 07692e5..8590f3c 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -180,7 +180,8 @@ void VariableLookupAnalysis::emitEnvLivenessWarning(
 }
 
 void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
-                                       const std::shared_ptr<EnvNode> &Env) {
+                                       const std::shared_ptr<EnvNode> &Env,
+                                       bool IsInherited) {
   const auto &Name = Var.id().name();
   const auto *CurEnv = Env.get();
   std::shared_ptr<Definition> Def;
@@ -224,8 +225,10 @@ void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
     case PrimopLookupResult::PrefixedFound: {
       Diagnostic &D =
           Diags.emplace_back(Diagnostic::DK_PrimOpNeedsPrefix, Var.range());
-      D.fix("use `builtins.` prefix")
-          .edit(TextEdit::mkInsertion(Var.range().lCur(), "builtins."));
+      // A name in "inherit" cannot have a prefix.
+      if (!IsInherited)
+        D.fix("use `builtins.` prefix")
+            .edit(TextEdit::mkInsertion(Var.range().lCur(), "builtins."));
       Results.insert(
           {&Var, LookupResult{LookupResultKind::Undefined, nullptr}});
       break;
@@ -344,7 +347,7 @@ std::shared_ptr<EnvNode> VariableLookupAnalysis::dfsAttrs(
         dfs(*Attr.value(), NewEnv);
       } else {
         assert(Attr.kind() == Attribute::AttributeKind::Inherit);
-        dfs(*Attr.value(), Env);
+        dfsInherited(*Attr.value(), Env);
       }
     }
 
@@ -356,13 +359,24 @@ std::shared_ptr<EnvNode> VariableLookupAnalysis::dfsAttrs(
   for (const auto &[_, Attr] : SA.staticAttrs()) {
     if (!Attr.value())
       continue;
-    dfs(*Attr.value(), Env);
+    if (Attr.kind() == Attribute::AttributeKind::Inherit)
+      dfsInherited(*Attr.value(), Env);
+    else
+      dfs(*Attr.value(), Env);
   }
 
   dfsDynamicAttrs(SA.dynamicAttrs(), Env);
   return Env;
 };
 
+void VariableLookupAnalysis::dfsInherited(const Expr &Value,
+                                          const std::shared_ptr<EnvNode> &Env) {
+  assert(Value.kind() == Node::NK_ExprVar &&
+         "inherited name should be desugared to a variable");
+  Envs.insert({&Value, Env});
+  lookupVar(static_cast<const ExprVar &>(Value), Env, /*IsInherited=*/true);
+}
+
 void VariableLookupAnalysis::dfs(const ExprAttrs &Attrs,
                                  const std::shared_ptr<EnvNode> &Env) {
   const SemaAttrs &SA = Attrs.sema();
-- 
2.43.0


From 2eea1e93c2eb526618b98f15a74fc2c6fdf25098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 21/65] fix: `let { body.x = 1; }` is converted to `let in 1`

---
 libnixf/src/Parse/ParseExpr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index 9903009..0eab5db 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -395,7 +395,7 @@ std::shared_ptr<ExprLegacyLet> Parser::parseExprLegacyLet() {
       if (BindNode->kind() != Node::NK_Binding)
         continue;
       const auto &Bind = static_cast<const Binding &>(*BindNode);
-      if (Bind.path().names().empty() || !Bind.path().names()[0])
+      if (Bind.path().names().size() != 1 || !Bind.path().names()[0])
         continue;
       const auto &Name = *Bind.path().names()[0];
       if (!Name.isStatic() || Name.staticName() != "body")
-- 
2.43.0


From b78e4b3eb322f0c175e8e38227065c7bc97bf733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 22/65] fix: `let{body=x;}` is converted to `letin x`, a merged
 body loses attributes

---
 libnixf/src/Parse/ParseExpr.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index 0eab5db..672032f 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -1,5 +1,7 @@
 #include "Parser.h"
 
+#include <cctype>
+
 using namespace nixf;
 using namespace nixf::detail;
 
@@ -391,23 +393,31 @@ std::shared_ptr<ExprLegacyLet> Parser::parseExprLegacyLet() {
       Diags.emplace_back(Diagnostic::DK_DeprecatedLet, FullRange);
 
   if (HasBody && Attrs->binds()) {
+    const Binding *Body = nullptr;
+    bool IsUnique = true; // not merged from several bindings
     for (const auto &BindNode : Attrs->binds()->bindings()) {
       if (BindNode->kind() != Node::NK_Binding)
         continue;
       const auto &Bind = static_cast<const Binding &>(*BindNode);
-      if (Bind.path().names().size() != 1 || !Bind.path().names()[0])
+      if (Bind.path().names().empty() || !Bind.path().names()[0])
         continue;
       const auto &Name = *Bind.path().names()[0];
       if (!Name.isStatic() || Name.staticName() != "body")
         continue;
-      if (!Bind.value())
-        break;
+      IsUnique = !Body && Bind.path().names().size() == 1;
+      Body = &Bind;
+    }
+    if (Body && IsUnique && Body->value()) {
       Fix &F = DWarn.fix("convert to `let ... in ...`");
-      F.edit(TextEdit::mkRemoval(LCurlyRange));
-      F.edit(TextEdit::mkRemoval(Bind.range()));
-      F.edit(
-          TextEdit(RCurlyRange, "in " + std::string(Bind.value()->src(Src))));
-      break;
+      // Keep `let{` from becoming one word with the first binding.
+      F.edit(TextEdit(LCurlyRange,
+                      LCurlyRange.lCur() == TokLet.rCur() ? " " : ""));
+      F.edit(TextEdit::mkRemoval(Body->range()));
+      std::string In = "in " + std::string(Body->value()->src(Src));
+      if (size_t Next = RCurlyRange.rCur().offset();
+          Next < Src.size() && std::isalnum((unsigned char)Src[Next]))
+        In += " ";
+      F.edit(TextEdit(RCurlyRange, In));
     }
   }
 
-- 
2.43.0


From 9cf42572baf56c71962765e63b69871dc36d2edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 23/65] fix: inserting a missing keyword joins it with the
 words around it, `if a else` becomes `if athen else`

---
 libnixf/src/Parse/ParseSupport.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Parse/ParseSupport.cpp b/libnixf/src/Parse/ParseSupport.cpp
index 48a8d36..d926cc6 100644
--- a/libnixf/src/Parse/ParseSupport.cpp
+++ b/libnixf/src/Parse/ParseSupport.cpp
@@ -6,6 +6,8 @@
 #include "Tokens.h"
 #include "nixf/Parse/Parser.h"
 
+#include <cctype>
+
 using namespace nixf;
 
 Diagnostic &detail::diagNullExpr(std::vector<Diagnostic> &Diags,
@@ -113,8 +115,23 @@ Parser::ExpectResult Parser::expect(TokenKind Kind) {
   LexerCursor Insert = LastToken ? LastToken->rCur() : peek().lCur();
   Diagnostic &D =
       Diags.emplace_back(Diagnostic::DK_Expected, LexerCursorRange(Insert));
-  D << std::string(tok::spelling(Kind));
-  D.fix("insert " + std::string(tok::spelling(Kind)))
-      .edit(TextEdit::mkInsertion(Insert, std::string(tok::spelling(Kind))));
+  std::string Spelling(tok::spelling(Kind));
+  D << Spelling;
+  std::string Text = Spelling;
+  // Keep keywords apart from the words around them.
+  auto IsWordAt = [this](size_t Pos) {
+    return Pos < Src.size() &&
+           (std::isalnum((unsigned char)Src[Pos]) || Src[Pos] == '_' ||
+            Src[Pos] == '\'' || Src[Pos] == '-');
+  };
+  if (std::isalpha((unsigned char)Spelling.front())) {
+    size_t Pos = Insert.offset();
+    if (Pos > 0 && IsWordAt(Pos - 1))
+      Text.insert(0, " ");
+    if (IsWordAt(Pos))
+      Text.push_back(' ');
+  }
+  D.fix("insert " + Spelling)
+      .edit(TextEdit::mkInsertion(Insert, std::move(Text)));
   return {&D};
 }
-- 
2.43.0


From 483814a27aa0721ecbe11e284c90cb05ffa50d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 24/65] fix: columns beyond 2^31 are truncated, an editor's end
 of line becomes its start

---
 nixd/lspserver/src/SourceCode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/src/SourceCode.cpp b/nixd/lspserver/src/SourceCode.cpp
index b7f7583..f661b42 100644
--- a/nixd/lspserver/src/SourceCode.cpp
+++ b/nixd/lspserver/src/SourceCode.cpp
@@ -76,8 +76,8 @@ size_t lspLength(llvm::StringRef Code) {
 // the specified encoding.
 // Conceptually, this converts to the encoding, truncates to CodeUnits,
 // converts back to UTF-8, and returns the length in bytes.
-static size_t measureUnits(llvm::StringRef U8, int Units, OffsetEncoding Enc,
-                           bool &Valid) {
+static size_t measureUnits(llvm::StringRef U8, int64_t Units,
+                           OffsetEncoding Enc, bool &Valid) {
   Valid = Units >= 0;
   if (Units <= 0)
     return 0;
-- 
2.43.0


From 7c3e637483739564f0f3d5b8b4c4b04e438b21c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 25/65] fix: the version after "9" is "1", an implied document
 version goes backwards

---
 nixd/lspserver/src/DraftStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/DraftStore.cpp b/nixd/lspserver/src/DraftStore.cpp
index 0170971..53e37e7 100644
--- a/nixd/lspserver/src/DraftStore.cpp
+++ b/nixd/lspserver/src/DraftStore.cpp
@@ -54,7 +54,7 @@ static void increment(std::string &S) {
       ++*I;
       break;
     }
-    *I = '0'; // and keep incrementing to the left.
+    *I++ = '0'; // and keep incrementing to the left.
   }
 }
 
-- 
2.43.0


From 298f2d6d0fc1bdb872db4ab7cb0583d13aafa4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 26/65] fix: messages still in the pipe are lost when the
 client hangs up or a signal interrupts poll

---
 nixd/lspserver/src/Connection.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 9d6ffd2..d42b642 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -174,14 +174,17 @@ bool readLine(int fd, const std::atomic<bool> &Close,
     char Ch;
     // FIXME: inefficient
     int Poll = poll(FDs.data(), FDs.size(), 1000);
-    if (Poll < 0)
+    if (Poll < 0 && errno != EINTR)
       return false;
     if (Close)
       return false;
+    if (Poll < 0)
+      continue; // Interrupted, "revents" is not valid.
 
-    // POLLHUB: hang up from the writer side
+    // POLLHUP: hang up from the writer side. There may be data left to read.
     // POLLNVAL: invalid request (fd not open)
-    if (FDs[0].revents & (POLLHUP | POLLNVAL)) {
+    if (!(FDs[0].revents & POLLIN) &&
+        (FDs[0].revents & (POLLHUP | POLLERR | POLLNVAL))) {
       return false;
     }
 
-- 
2.43.0


From 24cb4d262d98338e573aa908af104f3703505430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 27/65] fix: a failing or interrupted read moves back in the
 message being read

---
 nixd/lspserver/src/Connection.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index d42b642..083b4e6 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -232,11 +232,14 @@ InboundPort::readStandardMessage(std::string &Buffer) {
   }
 
   Buffer.resize(ContentLength);
-  for (size_t Pos = 0, Read; Pos < ContentLength; Pos += Read) {
+  ssize_t Read;
+  for (size_t Pos = 0; Pos < ContentLength; Pos += Read) {
 
-    Read = read(In, Buffer.data() + Pos, ContentLength - Pos);
+    do
+      Read = read(In, Buffer.data() + Pos, ContentLength - Pos);
+    while (Read == -1 && errno == EINTR);
 
-    if (Read == 0) {
+    if (Read <= 0) {
       elog("Input was aborted. Read only {0} bytes of expected {1}.", Pos,
            ContentLength);
       return llvm::make_error<ReadEOF>();
-- 
2.43.0


From e8c5f31fc9e6476b4dc4a8ad4231015503e7bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 28/65] fix: `Content-Length: 010` is read as an octal number

---
 nixd/lspserver/src/Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 083b4e6..ec9ebf6 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -221,7 +221,7 @@ InboundPort::readStandardMessage(std::string &Buffer) {
 
     // Content-Length is a mandatory header, and the only one we handle.
     if (LineRef.consume_front("Content-Length: ")) {
-      llvm::getAsUnsignedInteger(LineRef.trim(), 0, ContentLength);
+      llvm::getAsUnsignedInteger(LineRef.trim(), 10, ContentLength);
       continue;
     }
     // An empty line indicates the end of headers.
-- 
2.43.0


From 95eddd3557e46e744801fec42913f43727c851e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 29/65] fix: a Content-Length that cannot be allocated ends the
 server with an exception

---
 nixd/lspserver/src/Connection.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index ec9ebf6..5e18a86 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -231,6 +231,14 @@ InboundPort::readStandardMessage(std::string &Buffer) {
     // It's another header, ignore it.
   }
 
+  // Guard against large messages. This is usually a bug in the client code
+  // and we don't want to crash downstream because of it.
+  if (ContentLength > 1 << 30) {
+    elog("Refusing to read message with long Content-Length: {0}.",
+         ContentLength);
+    return llvm::make_error<ReadEOF>();
+  }
+
   Buffer.resize(ContentLength);
   ssize_t Read;
   for (size_t Pos = 0; Pos < ContentLength; Pos += Read) {
-- 
2.43.0


From 1cb9146062c12b723e8f32f6b7596cef2ff00b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 30/65] fix: an unknown method stops the server, it is not
 answered

---
 nixd/lspserver/src/LSPServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index abb8177..6f52bb7 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -46,7 +46,9 @@ bool LSPServer::onCall(llvm::StringRef Method, llvm::json::Value Params,
                       }
                     });
   else
-    return false;
+    Out->reply(std::move(ID), llvm::make_error<LSPError>(
+                                  "method not found",
+                                  ErrorCode::MethodNotFound));
   return true;
 }
 
-- 
2.43.0


From f25b1ef0f07009edb808871137f15f9cb0b4d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 31/65] fix: a reply with an ID we never sent ends the server
 with an exception or answers another call

---
 nixd/lspserver/src/LSPServer.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index 6f52bb7..57853d8 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -7,8 +7,8 @@
 #include <llvm/Support/Error.h>
 #include <llvm/Support/JSON.h>
 
+#include <climits>
 #include <mutex>
-#include <stdexcept>
 
 namespace lspserver {
 
@@ -58,20 +58,21 @@ bool LSPServer::onReply(llvm::json::Value ID,
   std::optional<Callback<llvm::json::Value>> CB;
 
   if (auto OptI = ID.getAsInteger()) {
-    if (LLVM_UNLIKELY(*OptI > INT_MAX))
-      throw std::logic_error("jsonrpc: id is too large (> INT_MAX)");
     std::lock_guard<std::mutex> Guard(PendingCallsLock);
-    auto I = static_cast<int>(*OptI);
-    if (PendingCalls.contains(I)) {
-      CB = std::move(PendingCalls[I]);
-      PendingCalls.erase(I);
+    // IDs we have sent are positive "int"s.
+    if (*OptI > 0 && *OptI <= INT_MAX) {
+      if (auto It = PendingCalls.find(static_cast<int>(*OptI));
+          It != PendingCalls.end()) {
+        CB = std::move(It->second);
+        PendingCalls.erase(It);
+      }
     }
-  } else {
-    throw std::logic_error("jsonrpc: not an integer message ID");
   }
   if (LLVM_UNLIKELY(!CB)) {
     elog("received a reply with ID {0}, but there was no such call", ID);
     // Ignore this error
+    if (!Result)
+      llvm::consumeError(Result.takeError());
     return true;
   }
   // Invoke the callback outside of the critical zone, because we just do not
-- 
2.43.0


From 9789b998be5ee53022449e6792dfbad4dde10ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 32/65] fix: deadlock when the callback of a dropped call makes
 a call

---
 nixd/lspserver/src/LSPServer.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index 57853d8..baa7605 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -82,20 +82,28 @@ bool LSPServer::onReply(llvm::json::Value ID,
 }
 
 int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
-  std::lock_guard<std::mutex> _(PendingCallsLock);
-  int Ret = TopID++;
-  PendingCalls[Ret] = std::move(CB);
+  int Ret;
+  int OldestID = 0;
+  std::optional<Callback<llvm::json::Value>> OldestCallback;
+  {
+    std::lock_guard<std::mutex> _(PendingCallsLock);
+    Ret = TopID++;
+    PendingCalls[Ret] = std::move(CB);
 
-  // Check the limit
-  if (PendingCalls.size() > MaxPendingCalls) {
-    auto Begin = PendingCalls.begin();
-    auto [ID, OldestCallback] =
-        std::tuple{Begin->first, std::move(Begin->second)};
-    OldestCallback(
-        error("failed to receive a client reply for request ({0})", ID));
+    // Check the limit
+    if (PendingCalls.size() > MaxPendingCalls) {
+      auto Begin = PendingCalls.begin();
+      OldestID = Begin->first;
+      OldestCallback = std::move(Begin->second);
+      PendingCalls.erase(Begin);
+    }
+  }
+  // Invoke the callback outside of the critical zone, it may call the client.
+  if (OldestCallback) {
     elog("more than {0} outstanding LSP calls, forgetting about {1}",
-         MaxPendingCalls, ID);
-    PendingCalls.erase(Begin);
+         MaxPendingCalls, OldestID);
+    (*OldestCallback)(
+        error("failed to receive a client reply for request ({0})", OldestID));
   }
   return Ret;
 }
-- 
2.43.0


From d5f9b80de8ad2c69f695bfa2a561a1ca97147e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 33/65] fix: a file with a backslash in its name is taken for
 another file on POSIX

---
 nixd/lspserver/src/URI.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/URI.cpp b/nixd/lspserver/src/URI.cpp
index 8fee314..2e13415 100644
--- a/nixd/lspserver/src/URI.cpp
+++ b/nixd/lspserver/src/URI.cpp
@@ -18,6 +18,9 @@ LLVM_INSTANTIATE_REGISTRY(lspserver::URISchemeRegistry)
 namespace lspserver {
 namespace {
 
+constexpr bool HostIsWindows =
+    llvm::sys::path::is_style_windows(llvm::sys::path::Style::native);
+
 bool isWindowsPath(llvm::StringRef Path) {
   return Path.size() > 1 && llvm::isAlpha(Path[0]) && Path[1] == ':';
 }
@@ -49,7 +52,9 @@ public:
       Body.consume_front("/");
     }
     Path.append(Body);
-    llvm::sys::path::native(Path);
+    // On POSIX, '\\' is an ordinary character of file names.
+    if (HostIsWindows)
+      llvm::sys::path::native(Path);
     return std::string(Path);
   }
 
-- 
2.43.0


From cd453b1b13b2183d3bc221c0ed6c71686e3e91b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 34/65] fix: `file:///c:/x` is resolved to the relative path
 `c:/x` on POSIX

---
 nixd/lspserver/src/URI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/URI.cpp b/nixd/lspserver/src/URI.cpp
index 2e13415..973f9cb 100644
--- a/nixd/lspserver/src/URI.cpp
+++ b/nixd/lspserver/src/URI.cpp
@@ -47,7 +47,7 @@ public:
     if (!Authority.empty()) {
       // Windows UNC paths e.g. file://server/share => \\server\share
       ("//" + Authority).toVector(Path);
-    } else if (isWindowsPath(Body.substr(1))) {
+    } else if (HostIsWindows && isWindowsPath(Body.substr(1))) {
       // Windows paths e.g. file:///X:/path => X:\path
       Body.consume_front("/");
     }
-- 
2.43.0


From 0bebb9df39e83598f202d034439e50d67ec28458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 35/65] fix: assertion on `file:////x`, a network name with no
 path

---
 nixd/lspserver/src/URI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/URI.cpp b/nixd/lspserver/src/URI.cpp
index 973f9cb..beb9e78 100644
--- a/nixd/lspserver/src/URI.cpp
+++ b/nixd/lspserver/src/URI.cpp
@@ -63,7 +63,7 @@ public:
     std::string Body;
     llvm::StringRef Authority;
     llvm::StringRef Root = llvm::sys::path::root_name(AbsolutePath);
-    if (isNetworkPath(Root)) {
+    if (isNetworkPath(Root) && Root.size() < AbsolutePath.size()) {
       // Windows UNC paths e.g. \\server\share => file://server/share
       Authority = Root.drop_front(2);
       AbsolutePath.consume_front(Root);
-- 
2.43.0


From aef31d93e776b62d2a596e323377bdd89d87da94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 36/65] fix: convert inherit to an explicit binding only where
 it means the same

A plain inherit in rec/let became a binding that refers to itself, names
that are no identifiers were not quoted, and a source such as 'f x' was
not parenthesized before selecting from it.
---
 .../CodeActions/InheritToBinding.cpp          | 37 +++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/InheritToBinding.cpp b/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
index faa5fbe..dab8a62 100644
--- a/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
+++ b/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
@@ -7,11 +7,30 @@
 #include "../Convert.h"
 
 #include <nixf/Basic/Nodes/Attrs.h>
+#include <nixf/Basic/Nodes/Expr.h>
 
 #include <sstream>
 
 namespace nixd {
 
+namespace {
+
+/// \brief Whether `<source of E>.name` selects `name` from the value of E.
+bool isSelectable(const nixf::Expr &E) {
+  switch (E.kind()) {
+  case nixf::Node::NK_ExprVar:
+  case nixf::Node::NK_ExprParen:
+  case nixf::Node::NK_ExprAttrs:
+    return true;
+  case nixf::Node::NK_ExprSelect:
+    return !static_cast<const nixf::ExprSelect &>(E).defaultExpr();
+  default:
+    return false;
+  }
+}
+
+} // namespace
+
 void addInheritToBindingAction(const nixf::Node &N,
                                const nixf::ParentMapAnalysis &PM,
                                const std::string &FileURI, llvm::StringRef Src,
@@ -42,16 +61,28 @@ void addInheritToBindingAction(const nixf::Node &N,
     return;
 
   const std::string &AttrName = Name->staticName();
+  const std::string Key = quoteNixAttrKey(AttrName);
 
   // Build the replacement text
   std::ostringstream NewText;
-  NewText << AttrName << " = ";
+  NewText << Key << " = ";
 
-  if (Inherit.expr()) {
+  if (const auto &Source = Inherit.expr()) {
     // inherit (expr) name; -> name = expr.name;
-    NewText << Inherit.expr()->src(Src) << "." << AttrName;
+    // Parenthesize sources that would otherwise not be the whole operand of
+    // the selection, e.g. `f x` in `inherit (f x) y`.
+    const bool NeedsParen = !isSelectable(*Source);
+    NewText << (NeedsParen ? "(" : "") << Source->src(Src)
+            << (NeedsParen ? ")" : "") << "." << Key;
   } else {
     // inherit name; -> name = name;
+    // There is no variable expression for a name like "if" or "a b".
+    if (Key != AttrName)
+      return;
+    // In a recursive scope, `name = name` would refer to itself.
+    const nixf::Node *Attrs = PM.upTo(Inherit, nixf::Node::NK_ExprAttrs);
+    if (!Attrs || static_cast<const nixf::ExprAttrs *>(Attrs)->isRecursive())
+      return;
     NewText << AttrName;
   }
   NewText << ";";
-- 
2.43.0


From cadb17d7442030d2499ca0bf164cdd2edab45353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 37/65] fix: packing bindings keeps the other bindings and what
 they mean

Packing all siblings replaced the whole range from the first to the last
one, and so dropped the bindings in between; 'rec', 'inherit (e)' and
dynamic attributes of nested sets were lost, a sibling 'a = { ... }' was
nested twice, and packing one binding could define an attribute twice.
---
 nixd/lib/Controller/CodeActions/PackAttrs.cpp | 247 ++++++++++++------
 1 file changed, 162 insertions(+), 85 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/PackAttrs.cpp b/nixd/lib/Controller/CodeActions/PackAttrs.cpp
index 2aec25f..70c1c46 100644
--- a/nixd/lib/Controller/CodeActions/PackAttrs.cpp
+++ b/nixd/lib/Controller/CodeActions/PackAttrs.cpp
@@ -7,8 +7,7 @@
 #include "../Convert.h"
 
 #include <nixf/Basic/Nodes/Attrs.h>
-
-#include <optional>
+#include <nixf/Basic/Nodes/Expr.h>
 
 namespace nixd {
 
@@ -50,48 +49,88 @@ size_t getSiblingCount(const nixf::Binding &Bind,
   return NestedSA.staticAttrs().size();
 }
 
+/// \brief Whether the attribute is written inside the node \p N.
+/// Attributes may come from elsewhere (`a = { b = 1; }; a.c = 2;`).
+bool isWrittenIn(const nixf::Attribute &Attr, const nixf::Node &N) {
+  const nixf::Node &Key = Attr.key();
+  return N.lCur().offset() <= Key.lCur().offset() &&
+         Key.rCur().offset() <= N.rCur().offset();
+}
+
+/// \brief Whether all attributes of the set are written inside its braces.
+bool isWrittenInPlace(const nixf::ExprAttrs &Attrs) {
+  for (const auto &[Key, Attr] : Attrs.sema().staticAttrs()) {
+    if (!isWrittenIn(Attr, Attrs))
+      return false;
+  }
+  for (const nixf::Attribute &Attr : Attrs.sema().dynamicAttrs()) {
+    if (!isWrittenIn(Attr, Attrs))
+      return false;
+  }
+  return true;
+}
+
 /// \brief Recursively generate nested attribute set text from SemaAttrs.
 /// This produces the fully packed/nested form of attributes.
+/// \param Parent The attribute set whose bindings are rewritten
 /// \param Depth Current recursion depth (for safety limit)
-void generateNestedText(const nixf::SemaAttrs &SA, llvm::StringRef Src,
+/// \return false if there is no such text.
+bool generateNestedText(const nixf::SemaAttrs &SA,
+                        const nixf::ExprAttrs &Parent, llvm::StringRef Src,
                         std::string &Out, size_t Depth = 0) {
   // Safety check: prevent stack overflow from deeply nested structures
-  if (Depth > MaxNestedDepth) {
-    Out += "{ /* max depth exceeded */ }";
-    return;
-  }
+  if (Depth > MaxNestedDepth)
+    return false;
 
   Out += "{ ";
   bool First = true;
   for (const auto &[Key, Attr] : SA.staticAttrs()) {
+    if (!isWrittenIn(Attr, Parent))
+      return false;
     if (!First)
       Out += " ";
     First = false;
 
     // Output the key, quoting if necessary
-    Out += quoteNixAttrKey(Key);
+    const std::string KeyText = quoteNixAttrKey(Key);
+    Out += KeyText;
     Out += " = ";
 
-    // Check if value is a nested ExprAttrs that needs recursive generation
-    if (Attr.value() && Attr.value()->kind() == nixf::Node::NK_ExprAttrs) {
-      const auto &NestedAttrs =
-          static_cast<const nixf::ExprAttrs &>(*Attr.value());
+    const nixf::Expr *Value = Attr.value();
+    if (Value && Attr.kind() == nixf::Attribute::AttributeKind::InheritFrom) {
+      // inherit (expr) key; -> key = (expr).key;
+      const auto &Select = static_cast<const nixf::ExprSelect &>(*Value);
+      Out += "(";
+      Out += Select.expr().src(Src);
+      Out += ").";
+      Out += KeyText;
+    } else if (Attr.fromInherit()) {
+      // inherit key; -> key = key;
+      // There is no variable expression for a name like "if" or "a b".
+      if (KeyText != Key)
+        return false;
+      Out += Key;
+    } else if (Value && Value->kind() == nixf::Node::NK_ExprAttrs) {
+      // Check if value is a nested ExprAttrs that needs recursive generation
+      const auto &NestedAttrs = static_cast<const nixf::ExprAttrs &>(*Value);
       const nixf::SemaAttrs &NestedSA = NestedAttrs.sema();
 
-      // If all nested attrs come from dotted paths (no inherit, no dynamic),
-      // we can generate recursively
-      if (NestedSA.dynamicAttrs().empty() && !Attr.fromInherit()) {
-        generateNestedText(NestedSA, Src, Out, Depth + 1);
-      } else {
+      if (!NestedAttrs.isRecursive() && NestedSA.dynamicAttrs().empty()) {
+        if (!generateNestedText(NestedSA, Parent, Src, Out, Depth + 1))
+          return false;
+      } else if (NestedAttrs.binds() && isWrittenInPlace(NestedAttrs)) {
         // Use original source text
-        Out += Attr.value()->src(Src);
+        Out += Value->src(Src);
+      } else {
+        return false;
       }
-    } else if (Attr.value()) {
-      Out += Attr.value()->src(Src);
+    } else if (Value) {
+      Out += Value->src(Src);
     }
     Out += ";";
   }
   Out += " }";
+  return true;
 }
 
 /// \brief Generate shallow nested attribute set text from original bindings.
@@ -101,7 +140,8 @@ void generateNestedText(const nixf::SemaAttrs &SA, llvm::StringRef Src,
 /// \param FirstSeg The first path segment to match (e.g., "foo" for "foo.bar")
 /// \param Src The source text
 /// \param Out Output string to append to
-void generateShallowNestedText(const nixf::Binds &Binds,
+/// \return false if there is no such text.
+bool generateShallowNestedText(const nixf::Binds &Binds,
                                const std::string &FirstSeg, llvm::StringRef Src,
                                std::string &Out) {
   Out += "{ ";
@@ -119,19 +159,31 @@ void generateShallowNestedText(const nixf::Binds &Binds,
         Names[0]->staticName() != FirstSeg)
       continue;
 
+    if (Names.size() == 1) {
+      // Single segment path (e.g., "foo = { bar = 1; }"), whose value is merged
+      // with the others: take over the bindings inside the braces.
+      const auto &Value = SibBind.value();
+      if (!Value || Value->kind() != nixf::Node::NK_ExprAttrs)
+        return false;
+      const auto &Attrs = static_cast<const nixf::ExprAttrs &>(*Value);
+      if (Attrs.isRecursive())
+        return false;
+      if (!Attrs.binds() || Attrs.binds()->bindings().empty())
+        continue;
+      if (!First)
+        Out += " ";
+      First = false;
+      const auto &Inner = Attrs.binds()->bindings();
+      const size_t Begin = Inner.front()->lCur().offset();
+      Out += Src.slice(Begin, Inner.back()->rCur().offset());
+      continue;
+    }
+
     if (!First)
       Out += " ";
     First = false;
 
-    if (Names.size() == 1) {
-      // Single segment path (e.g., just "foo") - shouldn't happen in bulk pack
-      // but handle it gracefully by using value directly
-      Out += quoteNixAttrKey(Names[0]->staticName());
-      Out += " = ";
-      if (SibBind.value()) {
-        Out += SibBind.value()->src(Src);
-      }
-    } else {
+    {
       // Multi-segment path - extract rest of path from source
       // e.g., "foo.bar.x = 1" -> "bar.x = 1"
       const nixf::LexerCursor RestStart = Names[1]->range().lCur();
@@ -150,36 +202,43 @@ void generateShallowNestedText(const nixf::Binds &Binds,
     Out += ";";
   }
   Out += " }";
+  return true;
 }
 
-/// \brief Find all sibling bindings that share the same first path segment.
-/// Returns the range covering all such bindings, or nullopt if not applicable.
-std::optional<nixf::LexerCursorRange>
-findSiblingBindingsRange(const nixf::Binding &Bind, const nixf::Binds &Binds,
-                         const std::string &FirstSeg) {
-  nixf::LexerCursor Start = Bind.range().lCur();
-  nixf::LexerCursor End = Bind.range().rCur();
-
+/// \brief Build the edits replacing all sibling bindings that share the same
+/// first path segment with \p NewText.
+/// Bindings between the siblings are left alone.
+std::vector<lspserver::TextEdit> mkBulkEdits(const nixf::Binds &Binds,
+                                             const std::string &FirstSeg,
+                                             llvm::StringRef Src,
+                                             const std::string &NewText) {
+  // Ranges of adjacent siblings
+  std::vector<nixf::LexerCursorRange> Runs;
+  bool Adjacent = false;
   for (const auto &Sibling : Binds.bindings()) {
-    if (Sibling->kind() != nixf::Node::NK_Binding)
-      continue;
-
-    const auto &SibBind = static_cast<const nixf::Binding &>(*Sibling);
-    const auto &SibNames = SibBind.path().names();
-
-    if (SibNames.empty() || !SibNames[0]->isStatic())
-      continue;
-
-    if (SibNames[0]->staticName() == FirstSeg) {
-      // Expand range to include this sibling
-      if (SibBind.range().lCur().offset() < Start.offset())
-        Start = SibBind.range().lCur();
-      if (SibBind.range().rCur().offset() > End.offset())
-        End = SibBind.range().rCur();
+    bool Matches = false;
+    if (Sibling->kind() == nixf::Node::NK_Binding) {
+      const auto &Names =
+          static_cast<const nixf::Binding &>(*Sibling).path().names();
+      Matches = !Names.empty() && Names[0]->isStatic() &&
+                Names[0]->staticName() == FirstSeg;
     }
+    if (Matches && Adjacent)
+      Runs.back() = {Runs.back().lCur(), Sibling->rCur()};
+    else if (Matches)
+      Runs.push_back(Sibling->range());
+    Adjacent = Matches;
   }
 
-  return nixf::LexerCursorRange{Start, End};
+  std::vector<lspserver::TextEdit> Edits;
+  for (size_t I = 0; I < Runs.size(); ++I) {
+    // The first run becomes the packed binding, others are removed.
+    Edits.push_back(lspserver::TextEdit{
+        .range = toLSPRange(Src, Runs[I]),
+        .newText = I == 0 ? NewText : "",
+    });
+  }
+  return Edits;
 }
 
 } // namespace
@@ -224,6 +283,26 @@ void addPackAttrsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   if (SiblingCount == 0)
     return; // Can't pack (dynamic attrs or other conflicts)
 
+  const nixf::SemaAttrs &SA = ParentAttrs.sema();
+  auto It = SA.staticAttrs().find(FirstSeg);
+  if (It == SA.staticAttrs().end())
+    return;
+
+  const nixf::Attribute &Attr = It->second;
+  if (!Attr.value() || Attr.value()->kind() != nixf::Node::NK_ExprAttrs)
+    return;
+
+  const auto &NestedAttrs = static_cast<const nixf::ExprAttrs &>(*Attr.value());
+
+  // A nested set may be merged with earlier bindings (`a.b = 1; a = { c = 2;
+  // }`) but must not repeat one of their attributes
+  // (`a.b.c = 1; a = { b.d = 2; }`).
+  const auto &NestedStatic = NestedAttrs.sema().staticAttrs();
+  auto NestedIt = NestedStatic.find(Names[1]->staticName());
+  const bool CanPackOne = !NestedAttrs.isRecursive() &&
+                          NestedIt != NestedStatic.end() &&
+                          &NestedIt->second.key() == Names[1].get();
+
   // Helper lambda to generate Pack One action text
   auto GeneratePackOneText = [&]() -> std::string {
     std::string NewText;
@@ -257,6 +336,8 @@ void addPackAttrsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
 
   if (SiblingCount == 1) {
     // Single binding - offer simple pack action
+    if (!CanPackOne)
+      return;
     std::string NewText = GeneratePackOneText();
     if (NewText.empty())
       return;
@@ -267,26 +348,23 @@ void addPackAttrsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
         toLSPRange(Src, Bind.range()), std::move(NewText)));
   } else {
     // Multiple siblings share the prefix - offer Pack One and bulk pack actions
-    const nixf::SemaAttrs &SA = ParentAttrs.sema();
-    auto It = SA.staticAttrs().find(FirstSeg);
-    if (It == SA.staticAttrs().end())
-      return;
-
-    const nixf::Attribute &Attr = It->second;
-    if (!Attr.value() || Attr.value()->kind() != nixf::Node::NK_ExprAttrs)
-      return;
-
-    const auto &NestedAttrs =
-        static_cast<const nixf::ExprAttrs &>(*Attr.value());
-
-    // Find the range covering all sibling bindings (needed for bulk actions)
     const auto &ParentBinds = static_cast<const nixf::Binds &>(*BindsNode);
-    auto BulkRange = findSiblingBindingsRange(Bind, ParentBinds, FirstSeg);
-    if (!BulkRange)
-      return;
+
+    // Helper lambda to offer an action that packs all siblings
+    auto AddBulkAction = [&](std::string Title, const std::string &NewText) {
+      using Changes = std::map<std::string, std::vector<lspserver::TextEdit>>;
+      lspserver::WorkspaceEdit WE{
+          .changes = Changes{
+              {FileURI, mkBulkEdits(ParentBinds, FirstSeg, Src, NewText)}}};
+      Actions.emplace_back(lspserver::CodeAction{
+          .title = std::move(Title),
+          .kind = std::string(lspserver::CodeAction::REFACTOR_REWRITE_KIND),
+          .edit = std::move(WE),
+      });
+    };
 
     // Action 1: Pack One - pack only the current binding
-    std::string PackOneText = GeneratePackOneText();
+    std::string PackOneText = CanPackOne ? GeneratePackOneText() : "";
     if (!PackOneText.empty()) {
       Actions.emplace_back(createSingleEditAction(
           "Pack dotted path to nested set",
@@ -298,25 +376,24 @@ void addPackAttrsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
     std::string ShallowText;
     ShallowText += quoteNixAttrKey(FirstSeg);
     ShallowText += " = ";
-    generateShallowNestedText(ParentBinds, FirstSeg, Src, ShallowText);
-    ShallowText += ";";
-
-    Actions.emplace_back(createSingleEditAction(
-        "Pack all '" + FirstSeg + "' bindings to nested set",
-        lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-        toLSPRange(Src, *BulkRange), std::move(ShallowText)));
+    if (generateShallowNestedText(ParentBinds, FirstSeg, Src, ShallowText)) {
+      ShallowText += ";";
+      AddBulkAction("Pack all '" + FirstSeg + "' bindings to nested set",
+                    ShallowText);
+    }
 
     // Action 3: Recursive Pack All - fully nest all sibling bindings
     std::string RecursiveText;
     RecursiveText += quoteNixAttrKey(FirstSeg);
     RecursiveText += " = ";
-    generateNestedText(NestedAttrs.sema(), Src, RecursiveText);
-    RecursiveText += ";";
-
-    Actions.emplace_back(createSingleEditAction(
-        "Recursively pack all '" + FirstSeg + "' bindings to nested set",
-        lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-        toLSPRange(Src, *BulkRange), std::move(RecursiveText)));
+    if (!NestedAttrs.isRecursive() &&
+        generateNestedText(NestedAttrs.sema(), ParentAttrs, Src,
+                           RecursiveText)) {
+      RecursiveText += ";";
+      AddBulkAction("Recursively pack all '" + FirstSeg +
+                        "' bindings to nested set",
+                    RecursiveText);
+    }
   }
 }
 
-- 
2.43.0


From 686ae4020155d10c5393e4fca2567ded400f8d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:15 +0000
Subject: [PATCH 38/65] fix: unquoting an attribute name must not join it with
 its neighbours

E.g. 'x."b"c', a call, became the selection 'x.bc'.
---
 nixd/lib/Controller/CodeActions/AttrName.cpp | 27 +++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/CodeActions/AttrName.cpp b/nixd/lib/Controller/CodeActions/AttrName.cpp
index fa76862..f075923 100644
--- a/nixd/lib/Controller/CodeActions/AttrName.cpp
+++ b/nixd/lib/Controller/CodeActions/AttrName.cpp
@@ -8,8 +8,33 @@
 
 #include <nixf/Basic/Nodes/Attrs.h>
 
+#include <llvm/ADT/StringExtras.h>
+
 namespace nixd {
 
+namespace {
+
+/// \brief Check that an identifier in place of the node would not fuse with
+/// the text around it, as in `x."b"c` (a call), `inherit a"b"` or `x?"b"/c`.
+bool isSeparated(const nixf::Node &N, llvm::StringRef Src) {
+  const auto IsIdChar = [](char C) {
+    return llvm::isAlnum(C) || C == '_' || C == '-' || C == '\'';
+  };
+  const llvm::StringRef Prev = Src.take_front(N.lCur().offset());
+  const llvm::StringRef Next = Src.drop_front(N.rCur().offset());
+  if (!Prev.empty() && IsIdChar(Prev.back()))
+    return false;
+  if (!Next.empty() && IsIdChar(Next.front()))
+    return false;
+  // Words that go on with a slash or a colon are paths and URIs.
+  const llvm::StringRef Rest = Next.drop_while([](char C) {
+    return llvm::isAlnum(C) || llvm::StringRef("_-.+").contains(C);
+  });
+  return !Rest.starts_with("/") && !Rest.starts_with(":");
+}
+
+} // namespace
+
 void addAttrNameActions(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
                         const std::string &FileURI, llvm::StringRef Src,
                         std::vector<lspserver::CodeAction> &Actions) {
@@ -29,7 +54,7 @@ void addAttrNameActions(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   } else if (AN.kind() == nixf::AttrName::ANK_String && AN.isStatic()) {
     // Offer to unquote if valid identifier: "foo" -> foo
     const std::string &Name = AN.staticName();
-    if (isValidNixIdentifier(Name)) {
+    if (isValidNixIdentifier(Name) && isSeparated(AN, Src)) {
       Actions.emplace_back(
           createSingleEditAction("Unquote attribute name",
                                  lspserver::CodeAction::REFACTOR_REWRITE_KIND,
-- 
2.43.0


From 01b83bd3525fd07459a09d0432f8c459c5f5ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:04 +0000
Subject: [PATCH 39/65] fix: offer with-to-let only if the let does not capture
 its source

'with lib; lib.f lib' became 'let inherit (lib) lib; in ...', where the
source of the inherit is the new binding itself.
---
 nixd/lib/Controller/CodeActions/WithToLet.cpp | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/nixd/lib/Controller/CodeActions/WithToLet.cpp b/nixd/lib/Controller/CodeActions/WithToLet.cpp
index 6487101..ea873fc 100644
--- a/nixd/lib/Controller/CodeActions/WithToLet.cpp
+++ b/nixd/lib/Controller/CodeActions/WithToLet.cpp
@@ -6,6 +6,7 @@
 
 #include "../Convert.h"
 
+#include <nixf/Basic/Nodes/Attrs.h>
 #include <nixf/Basic/Nodes/Expr.h>
 #include <nixf/Basic/Nodes/Simple.h>
 
@@ -87,6 +88,31 @@ collectWithVariables(const nixf::ExprWith &With,
   return VarNames;
 }
 
+/// \brief Check if an expression mentions one of the variables.
+///
+/// The bindings of a `let` are visible in its own `inherit (source)`: a source
+/// mentioning them, as in `with lib; lib`, would refer to itself.
+bool mentions(const nixf::Node &N, const std::set<std::string> &VarNames) {
+  if (N.kind() == nixf::Node::NK_ExprVar)
+    return VarNames.count(static_cast<const nixf::ExprVar &>(N).id().name());
+
+  if (N.kind() == nixf::Node::NK_Inherit) {
+    // The variables of `inherit a b;` are not among the children.
+    const auto &Inherit = static_cast<const nixf::Inherit &>(N);
+    for (const auto &Name : Inherit.names()) {
+      if (!Inherit.expr() && Name->isStatic() &&
+          VarNames.count(Name->staticName()))
+        return true;
+    }
+  }
+
+  for (const nixf::Node *Child : N.children()) {
+    if (Child && mentions(*Child, VarNames))
+      return true;
+  }
+  return false;
+}
+
 /// \brief Generate the let/inherit replacement text.
 /// Format: let inherit (source) var1 var2 ...; in body
 std::string generateLetInherit(const nixf::ExprWith &With,
@@ -162,6 +188,10 @@ void addWithToLetAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   if (VarNames.empty())
     return;
 
+  // Skip if the `let` would capture variables of the source expression
+  if (With.with() && mentions(*With.with(), VarNames))
+    return;
+
   // Generate the replacement text
   std::string NewText = generateLetInherit(With, VarNames, Src);
   if (NewText.empty())
-- 
2.43.0


From 362c0b795ee8f94c6f050fd479daa85a9c329cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 40/65] fix: rewriting a string must keep its value

Indented to double-quoted did not strip the indentation, and the other
way leading blanks and a leading newline, which Nix strips, were left
unprotected. A dollar before an interpolation made it text, a quote
before the closing quotes or an escape sequence changed their meaning,
and the new quotes could join an identifier, a URI or another string.
---
 .../Controller/CodeActions/RewriteString.cpp  | 262 +++++++++++++++---
 1 file changed, 221 insertions(+), 41 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/RewriteString.cpp b/nixd/lib/Controller/CodeActions/RewriteString.cpp
index 5b199b0..ce00353 100644
--- a/nixd/lib/Controller/CodeActions/RewriteString.cpp
+++ b/nixd/lib/Controller/CodeActions/RewriteString.cpp
@@ -8,6 +8,10 @@
 
 #include <nixf/Basic/Nodes/Simple.h>
 
+#include <llvm/ADT/StringExtras.h>
+
+#include <algorithm>
+
 namespace nixd {
 
 namespace {
@@ -23,84 +27,253 @@ bool isIndentedString(llvm::StringRef Src,
   return Src[Offset] == '\'' && Src[Offset + 1] == '\'';
 }
 
+/// \brief Part of a string: text, or an interpolation.
+struct Piece {
+  std::string Text;
+  bool Escape = false; ///< From an escape sequence of an indented string
+  const nixf::Interpolation *Interp = nullptr;
+};
+
+/// \brief Split the text of an indented string at its escape sequences.
+void splitIndentedText(llvm::StringRef Text, std::vector<Piece> &Pieces) {
+  std::string Plain;
+  const auto Flush = [&]() {
+    if (!Plain.empty())
+      Pieces.push_back({.Text = std::move(Plain)});
+    Plain.clear();
+  };
+  const auto Escape = [&](std::string Unescaped, size_t Length) {
+    Flush();
+    Pieces.push_back({.Text = std::move(Unescaped), .Escape = true});
+    Text = Text.drop_front(Length);
+  };
+  while (!Text.empty()) {
+    if (Text.starts_with("'''")) {
+      Escape("''", 3);
+    } else if (Text.starts_with("''$")) {
+      Escape("$", 3);
+    } else if (Text.starts_with("''\\") && Text.size() > 3) {
+      const char C = Text[3];
+      const char Unescaped = C == 'n'   ? '\n'
+                             : C == 'r' ? '\r'
+                             : C == 't' ? '\t'
+                                        : C;
+      Escape(std::string(1, Unescaped), 4);
+    } else {
+      Plain += Text.front();
+      Text = Text.drop_front();
+    }
+  }
+  Flush();
+}
+
+/// \brief Strip the indentation of an indented string, like Nix does.
+void stripIndentation(std::vector<Piece> &Pieces) {
+  // Blanks after the opening quotes, if nothing else is on the first line
+  if (!Pieces.empty() && !Pieces[0].Interp && !Pieces[0].Escape) {
+    llvm::StringRef Rest = llvm::StringRef(Pieces[0].Text).ltrim(' ');
+    if (Rest.consume_front("\n"))
+      Pieces[0].Text = Rest.str();
+    if (Pieces[0].Text.empty())
+      Pieces.erase(Pieces.begin());
+  }
+
+  // The least indentation of lines that are not blank
+  size_t MinIndent = std::string::npos;
+  size_t Indent = 0;
+  bool StartOfLine = true;
+  const auto EndIndent = [&]() {
+    if (StartOfLine)
+      MinIndent = std::min(MinIndent, Indent);
+    StartOfLine = false;
+  };
+  for (const Piece &P : Pieces) {
+    if (P.Interp || P.Escape) {
+      EndIndent();
+      continue;
+    }
+    for (char C : P.Text) {
+      if (C == '\n') {
+        StartOfLine = true;
+        Indent = 0;
+      } else if (C != ' ') {
+        EndIndent();
+      } else if (StartOfLine) {
+        ++Indent;
+      }
+    }
+  }
+
+  StartOfLine = true;
+  size_t Dropped = 0;
+  for (Piece &P : Pieces) {
+    if (P.Interp) {
+      StartOfLine = false;
+      Dropped = 0;
+      continue;
+    }
+    std::string Text;
+    for (char C : P.Text) {
+      if (StartOfLine && C == ' ' && Dropped < MinIndent) {
+        ++Dropped;
+        continue;
+      }
+      if (C == '\n') {
+        StartOfLine = true;
+        Dropped = 0;
+      } else if (C != ' ') {
+        StartOfLine = false;
+        Dropped = 0;
+      }
+      Text += C;
+    }
+    P.Text = std::move(Text);
+  }
+
+  // The last line, if it is blank
+  if (!Pieces.empty() && !Pieces.back().Interp) {
+    std::string &Last = Pieces.back().Text;
+    if (size_t Line = Last.rfind('\n');
+        Line != std::string::npos &&
+        Last.find_first_not_of(' ', Line + 1) == std::string::npos)
+      Last.resize(Line + 1);
+  }
+}
+
+/// \brief The value of a string: text and interpolations.
+std::vector<Piece> getPieces(const nixf::ExprString &Str, llvm::StringRef Src,
+                             bool IsIndented) {
+  std::vector<Piece> Pieces;
+  if (!IsIndented) {
+    for (const auto &Frag : Str.parts().fragments()) {
+      if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped)
+        Pieces.push_back({.Text = Frag.escaped()});
+      else
+        Pieces.push_back({.Interp = &Frag.interpolation()});
+    }
+    return Pieces;
+  }
+
+  // Blanks made by escape sequences are not indentation, hence look at the
+  // source text.
+  size_t Begin = Str.lCur().offset() + 2;
+  size_t End = Str.rCur().offset();
+  if (End >= Begin + 2 && Src.slice(Begin, End).ends_with("''"))
+    End -= 2;
+  for (const auto &Frag : Str.parts().fragments()) {
+    if (Frag.kind() != nixf::InterpolablePart::SPK_Interpolation)
+      continue;
+    const nixf::Interpolation &Interp = Frag.interpolation();
+    splitIndentedText(Src.slice(Begin, Interp.lCur().offset()), Pieces);
+    Pieces.push_back({.Interp = &Interp});
+    Begin = Interp.rCur().offset();
+  }
+  splitIndentedText(Src.slice(Begin, End), Pieces);
+  stripIndentation(Pieces);
+
+  // Join the text split above.
+  std::vector<Piece> Result;
+  for (Piece &P : Pieces) {
+    if (!P.Interp && !Result.empty() && !Result.back().Interp)
+      Result.back().Text += P.Text;
+    else
+      Result.push_back(std::move(P));
+  }
+  return Result;
+}
+
 /// \brief Escape a string for indented string literal syntax.
 ///
 /// Escapes:
 /// - '' -> ''' (two single quotes become three)
-/// - ${ -> ''${ (prevent interpolation)
-std::string escapeForIndentedString(llvm::StringRef S) {
+/// - ' -> ''\' (where it would become part of another sequence)
+/// - ${ -> ''${ (prevent interpolation), also for "$" \p BeforeInterpolation
+/// - newline -> ''\n, \p AtStart of the string, where it would be skipped
+/// - space -> ''\ followed by a space, at the start of a line, where it would
+///   be stripped
+/// - carriage return -> ''\r
+std::string escapeForIndentedString(llvm::StringRef S, bool AtStart,
+                                    bool BeforeInterpolation) {
   std::string Result;
   Result.reserve(S.size() + S.size() / 8);
 
   for (size_t I = 0; I < S.size(); ++I) {
-    char C = S[I];
+    const char C = S[I];
+    const bool IsLast = I + 1 == S.size();
+    const char Next = IsLast ? '\0' : S[I + 1];
 
-    // Check for '' sequence that needs escaping
-    if (C == '\'' && I + 1 < S.size() && S[I + 1] == '\'') {
+    if (C == '\'' && Next == '\'') {
       Result += "'''";
       ++I; // Skip the second quote
-      continue;
-    }
-
-    // Check for ${ that needs escaping
-    if (C == '$' && I + 1 < S.size() && S[I + 1] == '{') {
-      Result += "''${";
-      ++I; // Skip the '{'
-      continue;
+    } else if (C == '\'' && (IsLast || Next == '$' || Next == '\r')) {
+      Result += "''\\'";
+    } else if (C == '$' && (IsLast ? BeforeInterpolation : Next == '{')) {
+      Result += "''$";
+    } else if (C == '\n' && I == 0 && AtStart) {
+      Result += "''\\n";
+    } else if (C == ' ' && (I == 0 ? AtStart : S[I - 1] == '\n')) {
+      Result += "''\\ ";
+    } else if (C == '\r') {
+      Result += "''\\r";
+    } else {
+      Result += C;
     }
-
-    Result += C;
   }
 
   return Result;
 }
 
-/// \brief Build a double-quoted string from InterpolatedParts.
+/// \brief Build a double-quoted string.
 ///
-/// Iterates through fragments, escaping text parts and preserving
-/// interpolations from source.
-std::string buildDoubleQuotedString(const nixf::InterpolatedParts &Parts,
+/// Escapes text parts and preserves interpolations from source.
+std::string buildDoubleQuotedString(const std::vector<Piece> &Pieces,
                                     llvm::StringRef Src) {
   std::string Result = "\"";
 
-  for (const auto &Frag : Parts.fragments()) {
-    if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped) {
-      // Escape the unescaped content for double-quoted string
-      Result += escapeNixString(Frag.escaped());
-    } else {
-      // SPK_Interpolation: preserve source text exactly
-      const nixf::Interpolation &Interp = Frag.interpolation();
-      Result += Interp.src(Src);
+  for (size_t I = 0; I < Pieces.size(); ++I) {
+    if (Pieces[I].Interp) {
+      // Preserve source text exactly
+      Result += Pieces[I].Interp->src(Src);
+      continue;
     }
+    // Escape the unescaped content for double-quoted string
+    Result += escapeNixString(Pieces[I].Text);
+    // "$${" is not the start of an interpolation.
+    if (I + 1 < Pieces.size() && Result.back() == '$')
+      Result.insert(Result.size() - 1, "\\");
   }
 
   Result += "\"";
   return Result;
 }
 
-/// \brief Build an indented string from InterpolatedParts.
+/// \brief Build an indented string.
 ///
-/// Iterates through fragments, escaping text parts and preserving
-/// interpolations from source.
-std::string buildIndentedString(const nixf::InterpolatedParts &Parts,
+/// Escapes text parts and preserves interpolations from source.
+std::string buildIndentedString(const std::vector<Piece> &Pieces,
                                 llvm::StringRef Src) {
   std::string Result = "''";
 
-  for (const auto &Frag : Parts.fragments()) {
-    if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped) {
+  for (size_t I = 0; I < Pieces.size(); ++I) {
+    if (Pieces[I].Interp)
+      // Preserve source text exactly
+      Result += Pieces[I].Interp->src(Src);
+    else
       // Escape the unescaped content for indented string
-      Result += escapeForIndentedString(Frag.escaped());
-    } else {
-      // SPK_Interpolation: preserve source text exactly
-      const nixf::Interpolation &Interp = Frag.interpolation();
-      Result += Interp.src(Src);
-    }
+      Result += escapeForIndentedString(Pieces[I].Text, /*AtStart=*/I == 0,
+                                        I + 1 < Pieces.size());
   }
 
   Result += "''";
   return Result;
 }
 
+/// \brief Whether "''" would join the text before it, as in `a''` or `a:''`.
+bool joinsBefore(llvm::StringRef Before) {
+  return !Before.empty() && (llvm::isAlnum(Before.back()) ||
+                             llvm::StringRef("_-':").contains(Before.back()));
+}
+
 } // namespace
 
 void addRewriteStringAction(const nixf::Node &N,
@@ -122,17 +295,24 @@ void addRewriteStringAction(const nixf::Node &N,
   // Determine current string type
   bool IsIndented = isIndentedString(Src, Str.range());
 
+  const std::vector<Piece> Pieces = getPieces(Str, Src, IsIndented);
+
   // Build the converted string
   std::string NewText;
   std::string Title;
 
   if (IsIndented) {
     // Convert indented -> double-quoted
-    NewText = buildDoubleQuotedString(Str.parts(), Src);
+    NewText = buildDoubleQuotedString(Pieces, Src);
     Title = "Convert to double-quoted string";
   } else {
     // Convert double-quoted -> indented
-    NewText = buildIndentedString(Str.parts(), Src);
+    NewText = buildIndentedString(Pieces, Src);
+    // Keep apart what would join the quotes.
+    if (joinsBefore(Src.take_front(Str.lCur().offset())))
+      NewText.insert(0, " ");
+    if (Src.drop_front(Str.rCur().offset()).starts_with("'"))
+      NewText += " ";
     Title = "Convert to indented string";
   }
 
-- 
2.43.0


From f9d00595d3da72b448839eac8b9b55debd02f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 41/65] fix: extract to file only what can be, with the
 variables it uses

The import is parenthesized where a call is no operand, and kept apart
from its neighbours; names of 'inherit a;' are passed, variables of a
'with' inside the expression are not, attribute sets merged with others
and the bindings of 'let' are left alone, and the directory of the file
is taken from the decoded URI.
---
 .../Controller/CodeActions/ExtractToFile.cpp  | 174 ++++++++++++++++--
 1 file changed, 162 insertions(+), 12 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/ExtractToFile.cpp b/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
index 9d3fd9b..3003a14 100644
--- a/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
+++ b/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
@@ -11,11 +11,17 @@
 #include <nixf/Basic/Nodes/Lambda.h>
 #include <nixf/Basic/Nodes/Simple.h>
 
+#include <lspserver/URI.h>
+
+#include <llvm/ADT/ArrayRef.h>
+#include <llvm/ADT/StringExtras.h>
 #include <llvm/Support/FileSystem.h>
 #include <llvm/Support/Path.h>
 
+#include <algorithm>
 #include <set>
 #include <string_view>
+#include <vector>
 
 namespace nixd {
 
@@ -24,7 +30,9 @@ namespace {
 /// \brief Result of free variable collection.
 struct FreeVariableResult {
   std::set<std::string> FreeVars;
-  bool HasWithVars; ///< True if any variables come from 'with' scope
+  bool HasWithVars;  ///< True if any variables come from 'with' scope
+  bool HasMixedVars; ///< True if any variables may come from a 'with' outside
+                     ///< as well as from one inside the expression
 };
 
 /// \brief Collect all free variables used within an expression subtree.
@@ -37,6 +45,7 @@ class FreeVariableCollector {
   const nixf::Node &Root;
   std::set<std::string> FreeVars;
   bool HasWithVars = false;
+  bool HasMixedVars = false;
 
   void collect(const nixf::Node &N) {
     // If this is a variable reference, check if it's free
@@ -62,8 +71,28 @@ class FreeVariableCollector {
       // context is lost. We track this to warn the user.
       else if (Result.Kind ==
                nixf::VariableLookupAnalysis::LookupResultKind::FromWith) {
-        FreeVars.insert(std::string(Var.id().name()));
-        HasWithVars = true;
+        // Only if the 'with' is outside our subtree.
+        size_t Inside = 0;
+        const auto WithScopes = VLA.getWithScopes(Var);
+        for (const nixf::ExprWith *With : WithScopes) {
+          if (isInsideNode(With, Root))
+            Inside++;
+        }
+        if (Inside < WithScopes.size()) {
+          FreeVars.insert(std::string(Var.id().name()));
+          HasWithVars = true;
+          HasMixedVars |= Inside > 0;
+        }
+      }
+    }
+
+    // The variables of `inherit a b;` are not among the children
+    if (N.kind() == nixf::Node::NK_ExprAttrs) {
+      const auto &Attrs = static_cast<const nixf::ExprAttrs &>(N);
+      for (const auto &[Name, Attr] : Attrs.sema().staticAttrs()) {
+        if (Attr.kind() == nixf::Attribute::AttributeKind::Inherit &&
+            Attr.value())
+          collect(*Attr.value());
       }
     }
 
@@ -93,8 +122,9 @@ public:
   FreeVariableResult collect() {
     FreeVars.clear();
     HasWithVars = false;
+    HasMixedVars = false;
     collect(Root);
-    return {FreeVars, HasWithVars};
+    return {FreeVars, HasWithVars, HasMixedVars};
   }
 };
 
@@ -189,13 +219,114 @@ std::string generateImportStatement(const std::string &Filename,
   return Import;
 }
 
-/// \brief Strip the "file://" scheme prefix from a URI if present.
+/// \brief Whether some binding defines the attribute \p Path, or a part of it,
+/// apart from the one with the value \p Except.
+bool isDefined(const nixf::Binds &Binds, llvm::ArrayRef<std::string> Path,
+               const nixf::Expr &Except) {
+  for (const auto &Child : Binds.bindings()) {
+    if (Child->kind() != nixf::Node::NK_Binding)
+      continue;
+    const auto &Bind = static_cast<const nixf::Binding &>(*Child);
+    const auto &Names = Bind.path().names();
+    const nixf::Expr *Value = Bind.value().get();
+    if (Value == &Except)
+      continue;
+    const size_t Common = std::min(Names.size(), Path.size());
+    if (!std::equal(Path.begin(), Path.begin() + Common, Names.begin(),
+                    [](const std::string &Name, const auto &AttrName) {
+                      return AttrName->isStatic() &&
+                             AttrName->staticName() == Name;
+                    }))
+      continue;
+    if (Common == Path.size())
+      return true;
+    if (!Value || Value->kind() != nixf::Node::NK_ExprAttrs)
+      continue;
+    const auto *Nested = static_cast<const nixf::ExprAttrs *>(Value)->binds();
+    if (Nested && isDefined(*Nested, Path.drop_front(Common), Except))
+      return true;
+  }
+  return false;
+}
+
+/// \brief Whether the attribute set is merged with others.
+///
+/// e.g. `{ b = 1; }` in `{ a = { b = 1; }; a.c = 2; }`
+bool isMerged(const nixf::ExprAttrs &Attrs, const nixf::ParentMapAnalysis &PM) {
+  std::vector<std::string> Path;
+  const nixf::Node *Bind = PM.query(Attrs);
+  while (Bind && Bind->kind() == nixf::Node::NK_Binding) {
+    std::vector<std::string> Names;
+    for (const auto &Name :
+         static_cast<const nixf::Binding *>(Bind)->path().names()) {
+      if (!Name->isStatic())
+        return false; // Such attributes are never merged
+      Names.push_back(Name->staticName());
+    }
+    Path.insert(Path.begin(), Names.begin(), Names.end());
+
+    const nixf::Node *Binds = PM.query(*Bind);
+    if (!Binds || Binds->kind() != nixf::Node::NK_Binds)
+      return false;
+    if (isDefined(static_cast<const nixf::Binds &>(*Binds), Path, Attrs))
+      return true;
+    const nixf::Node *Parent = PM.query(*Binds);
+    Bind = Parent ? PM.query(*Parent) : nullptr;
+  }
+  return false;
+}
+
+/// \brief Whether the name `import` refers to the builtin function.
+bool isImportBuiltin(const nixf::Node &N,
+                     const nixf::VariableLookupAnalysis &VLA) {
+  for (const nixf::EnvNode *Env = VLA.env(&N); Env; Env = Env->parent()) {
+    auto It = Env->defs().find("import");
+    if (It != Env->defs().end())
+      return It->second->isBuiltin();
+  }
+  return true;
+}
+
+/// \brief Make the import statement stand for the expression in its context.
+///
+/// Parenthesizes it where a function call is not allowed, and keeps it apart
+/// from the text around it.
+std::string fitImportStatement(std::string Import, const nixf::Node &N,
+                               const nixf::ParentMapAnalysis &PM,
+                               llvm::StringRef Src) {
+  if (const nixf::Node *Parent = PM.query(N)) {
+    switch (Parent->kind()) {
+    case nixf::Node::NK_ExprList:
+    case nixf::Node::NK_ExprCall:
+    case nixf::Node::NK_ExprSelect:
+      return "(" + Import + ")";
+    default:
+      break;
+    }
+  }
+  // Characters that names, paths or URIs are made of
+  const auto IsWordChar = [](char C) {
+    return llvm::isAlnum(C) || llvm::StringRef("_-'+./:").contains(C);
+  };
+  const llvm::StringRef Before = Src.take_front(N.lCur().offset());
+  const llvm::StringRef After = Src.drop_front(N.rCur().offset());
+  if (!Before.empty() && IsWordChar(Before.back()))
+    Import.insert(0, " ");
+  if (!After.empty() && IsWordChar(After.front()))
+    Import += " ";
+  return Import;
+}
+
+/// \brief Get the path of the file that the URI denotes.
 ///
-/// LSP URIs typically have the form "file:///path/to/file", but
-/// URIForFile::canonicalize expects a filesystem path without the scheme.
-std::string stripFileScheme(llvm::StringRef URI) {
-  if (URI.starts_with("file://"))
-    return URI.drop_front(7).str();
+/// LSP URIs typically have the form "file:///path/to/file", with some
+/// characters percent-encoded.
+std::string toFilePath(llvm::StringRef URI) {
+  llvm::Expected<std::string> Path = lspserver::URI::resolve(URI);
+  if (Path)
+    return *Path;
+  llvm::consumeError(Path.takeError());
+  URI.consume_front("file://");
   return URI.str();
 }
 
@@ -329,6 +460,20 @@ void addExtractToFileAction(const nixf::Node &N,
   if (!ExprNode)
     return;
 
+  // The bindings of `let` are no expression, and there is nothing to replace a
+  // part of an attribute set with.
+  if (ExprNode->kind() == nixf::Node::NK_ExprAttrs) {
+    const nixf::Node *Parent = PM.query(*ExprNode);
+    if (Parent && Parent->kind() == nixf::Node::NK_ExprLet &&
+        static_cast<const nixf::ExprLet *>(Parent)->attrs() == ExprNode)
+      return;
+    if (isMerged(static_cast<const nixf::ExprAttrs &>(*ExprNode), PM))
+      return;
+  }
+
+  if (!isImportBuiltin(*ExprNode, VLA))
+    return;
+
   // Get the expression source text
   std::string_view ExprSrc = ExprNode->src(Src);
   if (ExprSrc.empty())
@@ -339,11 +484,15 @@ void addExtractToFileAction(const nixf::Node &N,
   FreeVariableResult FreeVarResult = Collector.collect();
   const std::set<std::string> &FreeVars = FreeVarResult.FreeVars;
 
+  // As an argument, such a variable would take precedence over the inner 'with'
+  if (FreeVarResult.HasMixedVars)
+    return;
+
   // Generate filename from context
   std::string BaseFilename = generateFilename(*ExprNode, PM);
 
   // Build the directory path for the new file (same directory as source)
-  std::string SourceFilePath = stripFileScheme(FileURI);
+  std::string SourceFilePath = toFilePath(FileURI);
   llvm::SmallString<256> Directory(SourceFilePath);
   llvm::sys::path::remove_filename(Directory);
 
@@ -354,7 +503,8 @@ void addExtractToFileAction(const nixf::Node &N,
   std::string NewFileContent = generateExtractedContent(ExprSrc, FreeVars);
 
   // Generate the import statement
-  std::string ImportStmt = generateImportStatement(Filename, FreeVars);
+  std::string ImportStmt = fitImportStatement(
+      generateImportStatement(Filename, FreeVars), *ExprNode, PM, Src);
 
   // Build the full file path
   llvm::SmallString<256> NewFilePath(Directory);
-- 
2.43.0


From 3e96f49cb6b9b387f476d2f365bb5e5e2400287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 42/65] fix: add to formals before a trailing comma or after a
 URI

---
 .../Controller/CodeActions/AddToFormals.cpp   | 62 +++++++++----------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/AddToFormals.cpp b/nixd/lib/Controller/CodeActions/AddToFormals.cpp
index 62eb297..e4abc95 100644
--- a/nixd/lib/Controller/CodeActions/AddToFormals.cpp
+++ b/nixd/lib/Controller/CodeActions/AddToFormals.cpp
@@ -74,42 +74,36 @@ void addToFormalsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
     InsertRange = lspserver::Range{InsertPos, InsertPos};
     NewText = " " + quoteNixAttrKey(VarName) + " ";
   } else {
-    // Check if the last member is an ellipsis
-    const nixf::Formal *LastMember = Members.back().get();
-    bool HasEllipsis = LastMember && LastMember->isEllipsis();
-
-    if (HasEllipsis) {
-      if (Members.size() == 1) {
-        // Case 3: Ellipsis only `{ ... }:`
-        // Insert `varName, ` before the ellipsis
-        auto InsertPos = toLSPPosition(Src, LastMember->lCur());
-        InsertRange = lspserver::Range{InsertPos, InsertPos};
-        NewText = quoteNixAttrKey(VarName) + ", ";
-      } else {
-        // Case 4: With ellipsis `{ a, ... }:`
-        // Insert `, varName` after the last non-ellipsis formal
-        // Find the last non-ellipsis formal
-        const nixf::Formal *LastNonEllipsis = nullptr;
-        for (auto It = Members.rbegin(); It != Members.rend(); ++It) {
-          if ((*It) && !(*It)->isEllipsis()) {
-            LastNonEllipsis = (*It).get();
-            break;
-          }
-        }
-
-        if (!LastNonEllipsis)
-          return;
-
-        auto InsertPos = toLSPPosition(Src, LastNonEllipsis->rCur());
-        InsertRange = lspserver::Range{InsertPos, InsertPos};
-        NewText = ", " + quoteNixAttrKey(VarName);
-      }
-    } else {
-      // Case 2: Normal `{ a }:` without ellipsis
-      // Insert `, varName` after the last formal
-      auto InsertPos = toLSPPosition(Src, LastMember->rCur());
+    // Find the last formal that is neither an ellipsis nor a trailing comma
+    const nixf::Formal *LastNamed = nullptr;
+    const nixf::Formal *Ellipsis = nullptr;
+    for (const auto &Member : Members) {
+      if (!Member)
+        continue;
+      if (Member->isEllipsis())
+        Ellipsis = Member.get();
+      else if (Member->id())
+        LastNamed = Member.get();
+    }
+
+    if (LastNamed) {
+      // Case 2: Normal `{ a }:`, or Case 4: With ellipsis `{ a, ... }:`
+      // Insert `, varName` after the last named formal
+      auto InsertPos = toLSPPosition(Src, LastNamed->rCur());
       InsertRange = lspserver::Range{InsertPos, InsertPos};
       NewText = ", " + quoteNixAttrKey(VarName);
+      // A comma next to a URI would become part of it.
+      if (LastNamed->defaultExpr() &&
+          llvm::StringRef(LastNamed->defaultExpr()->src(Src)).contains(':'))
+        NewText = " " + NewText;
+    } else if (Ellipsis) {
+      // Case 3: Ellipsis only `{ ... }:`
+      // Insert `varName, ` before the ellipsis
+      auto InsertPos = toLSPPosition(Src, Ellipsis->lCur());
+      InsertRange = lspserver::Range{InsertPos, InsertPos};
+      NewText = quoteNixAttrKey(VarName) + ", ";
+    } else {
+      return;
     }
   }
 
-- 
2.43.0


From 34c75b83d7d436b70a4e040ee1f9fa6b6037e9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 43/65] fix: convert JSON numbers and texts only to what Nix
 has

---
 nixd/lib/Controller/CodeActions/JsonToNix.cpp | 44 ++++++++++++++++---
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/JsonToNix.cpp b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
index 71ad4e3..f704a64 100644
--- a/nixd/lib/Controller/CodeActions/JsonToNix.cpp
+++ b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
@@ -7,13 +7,43 @@
 #include <llvm/Support/JSON.h>
 #include <lspserver/SourceCode.h>
 
+#include <algorithm>
+#include <cmath>
+#include <cstdint>
 #include <iomanip>
+#include <limits>
 #include <sstream>
 
 namespace nixd {
 
 namespace {
 
+/// \brief Convert an integer. There is no literal for the least one: "-" is an
+/// operator, applied to a number that is too large.
+std::string integerToNix(int64_t I) {
+  if (I == std::numeric_limits<int64_t>::min())
+    return std::to_string(I + 1) + " - 1";
+  return std::to_string(I);
+}
+
+/// \brief Convert a number that is not an integer.
+/// \return empty string if there is no such number in Nix
+std::string floatToNix(double D) {
+  if (!std::isfinite(D))
+    return "";
+  // Format floating point with enough precision
+  std::ostringstream SS;
+  SS << std::setprecision(17) << D;
+  std::string S = SS.str();
+  // A Nix float always has a point: 1e+100 is 1.0e+100
+  if (S.find('.') == std::string::npos)
+    S.insert(std::min(S.find('e'), S.size()), ".0");
+  return S;
+}
+
+/// \brief Strings of Nix cannot contain zero bytes.
+bool hasZeroByte(llvm::StringRef S) { return S.contains('\0'); }
+
 /// \brief Convert a JSON value to Nix expression syntax.
 /// \param V The JSON value to convert
 /// \param Indent Current indentation level (for pretty-printing)
@@ -33,13 +63,12 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
   } else if (auto B = V.getAsBoolean()) {
     Out = *B ? "true" : "false";
   } else if (auto I = V.getAsInteger()) {
-    Out = std::to_string(*I);
+    Out = integerToNix(*I);
   } else if (auto D = V.getAsNumber()) {
-    // Format floating point with enough precision
-    std::ostringstream SS;
-    SS << std::setprecision(17) << *D;
-    Out = SS.str();
+    Out = floatToNix(*D);
   } else if (auto S = V.getAsString()) {
+    if (hasZeroByte(*S))
+      return "";
     Out = "\"" + escapeNixString(*S) + "\"";
   } else if (const auto *A = V.getAsArray()) {
     if (A->size() > MaxJsonWidth)
@@ -57,6 +86,9 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
         std::string Elem = jsonToNix((*A)[I], Indent + 1, Depth + 1);
         if (Elem.empty())
           return ""; // Propagate error
+        // "-1" is not an element, but "(-1)" is
+        if (Elem.front() == '-')
+          Elem = "(" + Elem + ")";
         Out += NextIndent + Elem;
         if (I + 1 < A->size())
           Out += "\n";
@@ -77,6 +109,8 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
       Out = "{\n";
       size_t I = 0;
       for (const auto &KV : *O) {
+        if (hasZeroByte(KV.first.str()))
+          return "";
         std::string Key = quoteNixAttrKey(KV.first.str());
         std::string Val = jsonToNix(KV.second, Indent + 1, Depth + 1);
         if (Val.empty())
-- 
2.43.0


From 4d20ca89449b105aab9e4d603e0b7b6d2d79af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 44/65] fix: requests while the nixpkgs worker is not alive

Definition, completion, completion item resolving and inlay hints used the
client of the nixpkgs worker without checking that there is one.
---
 nixd/lib/Controller/Completion.cpp | 29 +++++++++++++++++++++--------
 nixd/lib/Controller/Definition.cpp | 18 +++++++++++-------
 nixd/lib/Controller/InlayHints.cpp |  5 ++++-
 3 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index ffd3e5f..5bd9532 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -391,12 +391,16 @@ AttrPathCompleteParams mkParams(nixd::Selector Sel, bool IsComplete) {
 void completeVarName(const lspserver::Range EditRange,
                      const VariableLookupAnalysis &VLA,
                      const ParentMapAnalysis &PM, const nixf::ExprVar &N,
-                     AttrSetClient &Client, std::vector<CompletionItem> &List) {
+                     AttrSetClient *Client, std::vector<CompletionItem> &List) {
 #define DBGPREFIX "completion/var"
 
   VLACompletionProvider VLAP(VLA);
   VLAP.complete(N, List, PM);
 
+  // The worker is not alive.
+  if (!Client)
+    return;
+
   // Try to complete the name by known idioms.
   try {
     Selector Sel = idioms::mkVarSelector(N, VLA, PM);
@@ -406,7 +410,7 @@ void completeVarName(const lspserver::Range EditRange,
       return;
 
     // Invoke nixpkgs provider to get the completion list.
-    NixpkgsCompletionProvider NCP(Client);
+    NixpkgsCompletionProvider NCP(*Client);
     // Variable names are always incomplete.
     NCP.completePackages(EditRange, mkParams(Sel, /*IsComplete=*/false), List);
   } catch (ExceedSizeError &) {
@@ -426,11 +430,15 @@ void completeVarName(const lspserver::Range EditRange,
 ///      - incomplete: `lib.gen|`
 ///      - complete:   `lib.attrset.|`
 void completeSelect(const lspserver::Range EditRange,
-                    const nixf::ExprSelect &Select, AttrSetClient &Client,
+                    const nixf::ExprSelect &Select, AttrSetClient *Client,
                     const nixf::VariableLookupAnalysis &VLA,
                     const nixf::ParentMapAnalysis &PM, bool IsComplete,
                     std::vector<CompletionItem> &List) {
 #define DBGPREFIX "completion/select"
+  // The worker is not alive.
+  if (!Client)
+    return;
+
   // The base expr for selecting.
   const nixf::Expr &BaseExpr = Select.expr();
 
@@ -443,7 +451,7 @@ void completeSelect(const lspserver::Range EditRange,
 
   const auto &Var = static_cast<const nixf::ExprVar &>(BaseExpr);
   // Ask nixpkgs provider to get idioms completion.
-  NixpkgsCompletionProvider NCP(Client);
+  NixpkgsCompletionProvider NCP(*Client);
 
   try {
     Selector Sel =
@@ -493,7 +501,7 @@ void Controller::onCompletion(const CompletionParams &Params,
           case Node::NK_ExprVar: {
             completeVarName(EditRange, VLA, PM,
                             static_cast<const nixf::ExprVar &>(UpExpr),
-                            *nixpkgsClient(), List.items);
+                            nixpkgsClient(), List.items);
             return List;
           }
           // A "select" expression. e.g.
@@ -502,7 +510,7 @@ void Controller::onCompletion(const CompletionParams &Params,
           // foo.a.bar|
           case Node::NK_ExprSelect: {
             const auto &Select = static_cast<const nixf::ExprSelect &>(UpExpr);
-            completeSelect(EditRange, Select, *nixpkgsClient(), VLA, PM,
+            completeSelect(EditRange, Select, nixpkgsClient(), VLA, PM,
                            N.kind() == Node::NK_Dot, List.items);
             return List;
           }
@@ -543,8 +551,13 @@ void Controller::onCompletionItemResolve(const CompletionItem &Params,
     llvm::json::Path::Root Root;
     fromJSON(*EV, Req, Root);
 
-    // FIXME: handle null nixpkgsClient()
-    NixpkgsCompletionProvider NCP(*nixpkgsClient());
+    AttrSetClient *Client = nixpkgsClient();
+    if (!Client) {
+      Reply(Params);
+      return;
+    }
+
+    NixpkgsCompletionProvider NCP(*Client);
     CompletionItem Resp = Params;
     NCP.resolvePackage(Req.Scope, Params.label, Resp);
 
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 5982195..ff8d4ba 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -277,11 +277,15 @@ Locations defineAttrPath(const Node &N, const ParentMapAnalysis &PM,
 }
 
 /// \brief Get nixpkgs definition from a selector.
+///
+/// \p NixpkgsClient is null if the worker is not alive.
 Locations defineNixpkgsSelector(const Selector &Sel,
-                                AttrSetClient &NixpkgsClient) {
+                                AttrSetClient *NixpkgsClient) {
+  if (!NixpkgsClient)
+    return {};
   try {
     // Ask nixpkgs provider information about this selector.
-    NixpkgsDefinitionProvider NDP(NixpkgsClient);
+    NixpkgsDefinitionProvider NDP(*NixpkgsClient);
     return NDP.resolveSelector(Sel);
   } catch (NoLocationsFoundInNixpkgsException &E) {
     elog("definition/idiom: {0}", E.what());
@@ -294,7 +298,7 @@ Locations defineNixpkgsSelector(const Selector &Sel,
 /// \brief Get definiton of select expressions.
 Locations defineSelect(const ExprSelect &Sel, const VariableLookupAnalysis &VLA,
                        const ParentMapAnalysis &PM,
-                       AttrSetClient &NixpkgsClient) {
+                       AttrSetClient *NixpkgsClient) {
   // Currently we can only deal with idioms.
   // Maybe more data-flow analysis will be added though.
   try {
@@ -319,7 +323,7 @@ std::vector<T> mergeVec(std::vector<T> A, const std::vector<T> &B) {
 
 llvm::Expected<Locations>
 defineVar(const ExprVar &Var, const VariableLookupAnalysis &VLA,
-          const ParentMapAnalysis &PM, AttrSetClient &NixpkgsClient,
+          const ParentMapAnalysis &PM, AttrSetClient *NixpkgsClient,
           const URIForFile &URI, llvm::StringRef Src) {
   try {
     Locations StaticLocs = defineVarStatic(Var, VLA, URI, Src);
@@ -392,16 +396,16 @@ void Controller::onDefinition(const TextDocumentPositionParams &Params,
 
       // Special case for inherited names.
       if (const ExprVar *Var = findInheritVar(N, PM, VLA))
-        return defineVar(*Var, VLA, PM, *nixpkgsClient(), URI, TU->src());
+        return defineVar(*Var, VLA, PM, nixpkgsClient(), URI, TU->src());
 
       switch (UpExpr.kind()) {
       case Node::NK_ExprVar: {
         const auto &Var = static_cast<const ExprVar &>(UpExpr);
-        return defineVar(Var, VLA, PM, *nixpkgsClient(), URI, TU->src());
+        return defineVar(Var, VLA, PM, nixpkgsClient(), URI, TU->src());
       }
       case Node::NK_ExprSelect: {
         const auto &Sel = static_cast<const ExprSelect &>(UpExpr);
-        return defineSelect(Sel, VLA, PM, *nixpkgsClient());
+        return defineSelect(Sel, VLA, PM, nixpkgsClient());
       }
       case Node::NK_ExprAttrs:
         return defineAttrPath(N, PM, OptionsLock, Options);
diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index 2938e0a..841a65c 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -129,7 +129,10 @@ void Controller::onInlayHint(const InlayHintsParams &Params,
       const auto AST = CheckDefault(getAST(*TU));
       // Perform inlay hints computation on the range.
       std::vector<InlayHint> Response;
-      NixpkgsInlayHintsProvider NP(*nixpkgsClient(), *TU->variableLookup(),
+      AttrSetClient *Client = nixpkgsClient();
+      if (!Client)
+        return Response;
+      NixpkgsInlayHintsProvider NP(*Client, *TU->variableLookup(),
                                    *TU->parentMap(), Range, Response,
                                    TU->src());
       NP.dfs(AST.get());
-- 
2.43.0


From d845fe6e50e66601be793c46794a9da5d8b344e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 45/65] fix: attribute sets inside dynamic attribute names

Looking for the attribute path of something nested in the name of an attribute
failed an assertion.
---
 nixd/lib/Controller/AST.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index baf0937..10428f3 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -81,8 +81,8 @@ void getValueAttrPath(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
       return;
     }
   }
-  assert(false && "must have corresbonding value");
-  __builtin_unreachable();
+  // "N" is not a value, it is part of a dynamic name: { ${N} = 1; }
+  throw AttrPathHasDynamicError();
 }
 
 void getNestedAttrPath(const nixf::AttrName &N,
-- 
2.43.0


From c76ac14e874dce36d7db6eb76b3ee933482f9839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 46/65] fix: completing the name config

The path of the attribute became empty, its last element was taken anyway.
---
 nixd/lib/Controller/AST.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index 10428f3..df62f14 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -337,7 +337,8 @@ nixd::findAttrPathForOptions(const nixf::Node &N,
   if (R == FindAttrPathResult::OK) {
     // FIXME: Only do this in NixOS module files and in flakes only in module
     // functions passed to nixpkgs.lib.nixosSystem.
-    if (!Path.empty() && Path[0] == "config") {
+    // A single "config" is just a name.
+    if (Path.size() > 1 && Path[0] == "config") {
       Path.erase(Path.begin());
     }
   }
-- 
2.43.0


From a24b64b1d08874c0d7de2daed66fc30b66d27865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 47/65] fix: definition of selections whose path is not known

Not every exception was handled there, an unhandled one ends the server: the
variable may be unknown (a duplicated attribute), the position the nixpkgs
worker reports may have no line number.
---
 nixd/lib/Controller/Definition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index ff8d4ba..14574d6 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -303,7 +303,7 @@ Locations defineSelect(const ExprSelect &Sel, const VariableLookupAnalysis &VLA,
   // Maybe more data-flow analysis will be added though.
   try {
     return defineNixpkgsSelector(mkSelector(Sel, VLA, PM), NixpkgsClient);
-  } catch (IdiomSelectorException &E) {
+  } catch (std::exception &E) {
     elog("defintion/idiom/selector: {0}", E.what());
   }
   return {};
-- 
2.43.0


From a2a72a0afd253181be608a623e069e468717a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:29 +0000
Subject: [PATCH 48/65] fix: definitions in packages whose position is not
 FILE:LINE

---
 nixd/lib/Controller/Definition.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 14574d6..ea5e0a7 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -18,6 +18,7 @@
 
 #include <llvm/Support/Error.h>
 #include <llvm/Support/JSON.h>
+#include <llvm/Support/Path.h>
 
 #include <nixf/Basic/Nodes/Attrs.h>
 #include <nixf/Basic/Nodes/Basic.h>
@@ -137,7 +138,7 @@ class WorkerReportedException : std::exception {
   llvm::Error E;
 
 public:
-  WorkerReportedException(llvm::Error E) : E(std::move(E)) {};
+  WorkerReportedException(llvm::Error E) : E(std::move(E)){};
 
   llvm::Error takeError() { return std::move(E); }
   [[nodiscard]] const char *what() const noexcept override {
@@ -154,18 +155,17 @@ class NixpkgsDefinitionProvider {
   AttrSetClient &NixpkgsClient;
 
   /// \brief Parse nix-rolled location: file:line -> lsp Location
-  static Location parseLocation(std::string_view Position) {
-    // Firstly, find ":"
-    auto Pos = Position.find_first_of(':');
-    if (Pos == std::string_view::npos) {
-      return Location{
-          .uri = URIForFile::canonicalize(Position, Position),
-          .range = {{0, 0}, {0, 0}},
-      };
+  static std::optional<Location> parseLocation(llvm::StringRef Position) {
+    // The line is after the last ":"
+    auto [File, Line] = Position.rsplit(':');
+    int PosL = 0;
+    if (Line.getAsInteger(10, PosL) || PosL < 0) {
+      File = Position;
+      PosL = 0;
     }
-    int PosL = std::stoi(std::string(Position.substr(Pos + 1)));
+    if (!llvm::sys::path::is_absolute(File))
+      return std::nullopt;
     lspserver::Position P{PosL, 0};
-    std::string_view File = Position.substr(0, Pos);
     return Location{
         .uri = URIForFile::canonicalize(File, File),
         .range = {P, P},
@@ -194,7 +194,8 @@ public:
 
     // Prioritize package location if it exists.
     if (const std::optional<std::string> &Position = Desc->PackageDesc.Position)
-      return Locations{parseLocation(*Position)};
+      if (std::optional<Location> Loc = parseLocation(*Position))
+        return Locations{std::move(*Loc)};
 
     // Use the location in "ValueMeta".
     if (const auto &Loc = Desc->Meta.Location)
-- 
2.43.0


From fd6c965e7eb46537f869ba714f13ade75d95ef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:31 +0000
Subject: [PATCH 49/65] fix: columns of requests are UTF-16 code units

---
 nixd/lib/Controller/CodeAction.cpp        |  2 +-
 nixd/lib/Controller/Completion.cpp        |  3 ++-
 nixd/lib/Controller/Convert.cpp           | 18 ++++++++++++++----
 nixd/lib/Controller/Convert.h             |  7 +++++--
 nixd/lib/Controller/Definition.cpp        |  3 ++-
 nixd/lib/Controller/DocumentHighlight.cpp |  3 ++-
 nixd/lib/Controller/FindReferences.cpp    |  3 ++-
 nixd/lib/Controller/Hover.cpp             |  5 ++---
 nixd/lib/Controller/InlayHints.cpp        |  2 +-
 nixd/lib/Controller/Rename.cpp            |  8 +++++---
 10 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/nixd/lib/Controller/CodeAction.cpp b/nixd/lib/Controller/CodeAction.cpp
index 6e73711..4b1e69d 100644
--- a/nixd/lib/Controller/CodeAction.cpp
+++ b/nixd/lib/Controller/CodeAction.cpp
@@ -82,7 +82,7 @@ void Controller::onCodeAction(const lspserver::CodeActionParams &Params,
 
       // Add refactoring code actions based on cursor position
       if (TU->ast() && TU->parentMap()) {
-        nixf::PositionRange NixfRange = toNixfRange(Range);
+        nixf::PositionRange NixfRange = toNixfRange(TU->src(), Range);
         if (const nixf::Node *N = TU->ast()->descend(NixfRange)) {
           addAttrNameActions(*N, *TU->parentMap(), FileURI, TU->src(), Actions);
           addConvertToInheritAction(*N, *TU->parentMap(), FileURI, TU->src(),
diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index 5bd9532..915f199 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -473,10 +473,11 @@ void Controller::onCompletion(const CompletionParams &Params,
                               Callback<CompletionList> Reply) {
   using CheckTy = CompletionList;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file().str();
     return Reply([&]() -> llvm::Expected<CompletionList> {
       const auto TU = CheckDefault(getTU(File));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto AST = CheckDefault(getAST(*TU));
 
       const auto *Desc = AST->descend({Pos, Pos});
diff --git a/nixd/lib/Controller/Convert.cpp b/nixd/lib/Controller/Convert.cpp
index 8d969f2..f2d1ec3 100644
--- a/nixd/lib/Controller/Convert.cpp
+++ b/nixd/lib/Controller/Convert.cpp
@@ -5,6 +5,7 @@
 #include "lspserver/SourceCode.h"
 
 #include <llvm/ADT/StringRef.h>
+#include <llvm/Support/Error.h>
 
 using namespace lspserver;
 
@@ -29,12 +30,21 @@ lspserver::Position nixd::toLSPPosition(llvm::StringRef Code,
   return lspserver::offsetToPosition(Code, P.offset());
 }
 
-nixf::Position nixd::toNixfPosition(const lspserver::Position &P) {
-  return {P.line, P.character};
+nixf::Position nixd::toNixfPosition(llvm::StringRef Code,
+                                    const lspserver::Position &P) {
+  llvm::Expected<size_t> Offset = positionToOffset(Code, P);
+  if (!Offset) {
+    // There is no such line.
+    llvm::consumeError(Offset.takeError());
+    return {P.line, P.character};
+  }
+  size_t LineBegin = Code.take_front(*Offset).rfind('\n') + 1;
+  return {P.line, static_cast<int64_t>(*Offset - LineBegin)};
 }
 
-nixf::PositionRange nixd::toNixfRange(const lspserver::Range &P) {
-  return {toNixfPosition(P.start), toNixfPosition(P.end)};
+nixf::PositionRange nixd::toNixfRange(llvm::StringRef Code,
+                                      const lspserver::Range &P) {
+  return {toNixfPosition(Code, P.start), toNixfPosition(Code, P.end)};
 }
 
 lspserver::Range nixd::toLSPRange(llvm::StringRef Code,
diff --git a/nixd/lib/Controller/Convert.h b/nixd/lib/Controller/Convert.h
index d203b01..646b416 100644
--- a/nixd/lib/Controller/Convert.h
+++ b/nixd/lib/Controller/Convert.h
@@ -13,9 +13,12 @@ namespace nixd {
 lspserver::Position toLSPPosition(llvm::StringRef Code,
                                   const nixf::LexerCursor &P);
 
-nixf::Position toNixfPosition(const lspserver::Position &P);
+/// Columns are UTF-16 code units in LSP, and bytes in nixf.
+nixf::Position toNixfPosition(llvm::StringRef Code,
+                              const lspserver::Position &P);
 
-nixf::PositionRange toNixfRange(const lspserver::Range &P);
+nixf::PositionRange toNixfRange(llvm::StringRef Code,
+                                const lspserver::Range &P);
 
 lspserver::Range toLSPRange(llvm::StringRef Code,
                             const nixf::LexerCursorRange &R);
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index ea5e0a7..f4e48d3 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -385,10 +385,11 @@ void Controller::onDefinition(const TextDocumentPositionParams &Params,
                               Callback<llvm::json::Value> Reply) {
   using CheckTy = Locations;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file().str();
     return Reply(squash([&]() -> llvm::Expected<Locations> {
       const auto TU = CheckDefault(getTU(File));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto AST = CheckDefault(getAST(*TU));
       const auto &VLA = *TU->variableLookup();
       const auto &PM = *TU->parentMap();
diff --git a/nixd/lib/Controller/DocumentHighlight.cpp b/nixd/lib/Controller/DocumentHighlight.cpp
index e7fcdb9..53d5b26 100644
--- a/nixd/lib/Controller/DocumentHighlight.cpp
+++ b/nixd/lib/Controller/DocumentHighlight.cpp
@@ -58,10 +58,11 @@ void Controller::onDocumentHighlight(
     Callback<std::vector<DocumentHighlight>> Reply) {
   using CheckTy = std::vector<DocumentHighlight>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     std::string File(URI.file());
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto AST = CheckDefault(getAST(*TU));
 
       const auto &Desc = *CheckDefault(AST->descend({Pos, Pos}));
diff --git a/nixd/lib/Controller/FindReferences.cpp b/nixd/lib/Controller/FindReferences.cpp
index 041388b..8723602 100644
--- a/nixd/lib/Controller/FindReferences.cpp
+++ b/nixd/lib/Controller/FindReferences.cpp
@@ -51,10 +51,11 @@ void Controller::onReferences(const TextDocumentPositionParams &Params,
                               Callback<std::vector<Location>> Reply) {
   using CheckTy = std::vector<Location>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     std::string File(URI.file());
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto AST = CheckDefault(getAST(*TU));
       const auto &Desc = CheckDefault(AST->descend({Pos, Pos}));
       const auto &PM = *TU->parentMap();
diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index 556a2f9..fb891f2 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -72,8 +72,7 @@ class NixpkgsHoverProvider {
     }
 
     if (Package.Description) {
-      OS << "## Description"
-         << "\n\n";
+      OS << "## Description" << "\n\n";
       OS << *Package.Description;
       OS << "\n\n";
 
@@ -213,7 +212,7 @@ void Controller::onHover(const TextDocumentPositionParams &Params,
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
-      const auto Pos = nixf::Position{RawPos.line, RawPos.character};
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &N = *CheckDefault(AST->descend({Pos, Pos}));
 
       const auto Name = std::string(N.name());
diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index 841a65c..f67c181 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -65,7 +65,7 @@ public:
       : NixpkgsProvider(NixpkgsProvider), VLA(VLA), PMA(PMA), Hints(Hints),
         Src(Src) {
     if (Range)
-      this->Range = toNixfRange(*Range);
+      this->Range = toNixfRange(Src, *Range);
   }
 
   void dfs(const Node *N) {
diff --git a/nixd/lib/Controller/Rename.cpp b/nixd/lib/Controller/Rename.cpp
index 973c9e7..b6f0b38 100644
--- a/nixd/lib/Controller/Rename.cpp
+++ b/nixd/lib/Controller/Rename.cpp
@@ -73,11 +73,12 @@ void Controller::onRename(const RenameParams &Params,
                           Callback<WorkspaceEdit> Reply) {
   using CheckTy = WorkspaceEdit;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position),
-                 NewText = Params.newName, this]() mutable {
+                 RawPos = Params.position, NewText = Params.newName,
+                 this]() mutable {
     const auto File = URI.file();
     return Reply([&]() -> llvm::Expected<WorkspaceEdit> {
       const auto TU = CheckDefault(getTU(File));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto AST = CheckDefault(getAST(*TU));
       const auto &Desc = *CheckReturn(
           AST->descend({Pos, Pos}),
@@ -100,10 +101,11 @@ void Controller::onPrepareRename(
     Callback<std::optional<lspserver::Range>> Reply) {
   using CheckTy = std::optional<lspserver::Range>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file();
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto AST = CheckDefault(getAST(*TU));
 
       const auto &Desc = *CheckDefault(AST->descend({Pos, Pos}));
-- 
2.43.0


From 3103aca6cb74bd2e36b2d98080d9668150173f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 50/65] fix: names of quoted attributes are definitions too

---
 nixd/lib/Controller/Definition.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index f4e48d3..e5a2bd1 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -50,9 +50,8 @@ const Definition *findSelfDefinition(const Node &N,
     return Def;
 
   // If N is inside an attrset, it maybe an "AttrName", let's look for it.
-  const Node *Parent = PMA.query(N);
-  if (Parent && Parent->kind() == Node::NK_AttrName)
-    return VLA.toDef(*Parent);
+  if (const Node *Name = PMA.upTo(N, Node::NK_AttrName))
+    return VLA.toDef(*Name);
 
   return nullptr;
 }
-- 
2.43.0


From 33345fe36de80bad0af2b8cc4e07f6b0ea525b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 51/65] fix: rename inherited names, and attributes that are
 merged

---
 nixd/lib/Controller/Rename.cpp | 259 ++++++++++++++++++++++++++++++---
 1 file changed, 242 insertions(+), 17 deletions(-)

diff --git a/nixd/lib/Controller/Rename.cpp b/nixd/lib/Controller/Rename.cpp
index b6f0b38..ef963d3 100644
--- a/nixd/lib/Controller/Rename.cpp
+++ b/nixd/lib/Controller/Rename.cpp
@@ -4,6 +4,7 @@
 /// https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#textDocument_rename
 
 #include "CheckReturn.h"
+#include "CodeActions/Utils.h"
 #include "Convert.h"
 #include "Definition.h"
 
@@ -12,7 +13,11 @@
 
 #include <boost/asio/post.hpp>
 
+#include <nixf/Basic/Nodes/Attrs.h>
+
+#include <algorithm>
 #include <exception>
+#include <map>
 
 using namespace lspserver;
 using namespace nixd;
@@ -35,11 +40,234 @@ struct RenameBuiltinException : RenameException {
   }
 };
 
+struct RenameInvalidException : RenameException {
+  [[nodiscard]] const char *what() const noexcept override {
+    return "the new name is not an identifier";
+  }
+};
+
+using AttrNames = std::vector<const AttrName *>;
+
+/// \brief Collect names of the attribute at \p Path, one for each binding that
+/// is merged into it.
+/// e.g. both "a" in `rec { a.b = 1; a.c = 2; }`
+void collectAttrNames(const Binds &B, llvm::ArrayRef<std::string> Path,
+                      AttrNames &Result) {
+  auto Is = [](const AttrName &Name, const std::string &S) {
+    return Name.isStatic() && Name.staticName() == S;
+  };
+  for (const auto &Ch : B.bindings()) {
+    if (Ch->kind() == Node::NK_Inherit) {
+      for (const auto &Name : static_cast<const Inherit &>(*Ch).names())
+        if (Path.size() == 1 && Is(*Name, Path.front()))
+          Result.emplace_back(Name.get());
+      continue;
+    }
+    if (Ch->kind() != Node::NK_Binding)
+      continue;
+    const auto &Bind = static_cast<const Binding &>(*Ch);
+    const auto &Names = Bind.path().names();
+    std::size_t I = 0;
+    while (I < Names.size() && I < Path.size() && Is(*Names[I], Path[I]))
+      I++;
+    if (I == Path.size())
+      Result.emplace_back(Names[I - 1].get());
+    else if (I == Names.size() && Bind.value() &&
+             Bind.value()->kind() == Node::NK_ExprAttrs)
+      if (const Binds *Nested =
+              static_cast<const ExprAttrs &>(*Bind.value()).binds())
+        collectAttrNames(*Nested, Path.drop_front(I), Result);
+  }
+}
+
+/// \brief All places in the source where \p Def is defined.
+std::vector<const Node *> definedAt(const Definition &Def,
+                                    const ParentMapAnalysis &PMA) {
+  const Node *Syntax = Def.syntax();
+  if (Syntax->kind() != Node::NK_AttrName)
+    return {Syntax};
+
+  // Find the outermost attribute set that could be merged, and the path of the
+  // definition in it.
+  std::vector<std::string> Path;
+  const Binds *Top = nullptr;
+  const Node *N = Syntax;
+  while (const Node *Up = PMA.query(*N)) {
+    if (ParentMapAnalysis::isRoot(Up, *N))
+      break;
+    if (Up->kind() == Node::NK_Inherit) {
+      if (N != Syntax)
+        break;
+      Path = {static_cast<const AttrName &>(*N).staticName()};
+    } else if (Up->kind() == Node::NK_Binding) {
+      std::vector<std::string> Prefix;
+      for (const auto &Name :
+           static_cast<const Binding &>(*Up).path().names()) {
+        if (!Name->isStatic())
+          break;
+        Prefix.emplace_back(Name->staticName());
+        if (Name.get() == Syntax)
+          break;
+      }
+      // Dynamic attributes are never merged.
+      if (N->kind() == Node::NK_ExprAttrs &&
+          Prefix.size() !=
+              static_cast<const Binding &>(*Up).path().names().size())
+        break;
+      Path.insert(Path.begin(), Prefix.begin(), Prefix.end());
+    } else if (Up->kind() == Node::NK_Binds) {
+      Top = static_cast<const Binds *>(Up);
+    } else if (Up->kind() != Node::NK_ExprAttrs &&
+               Up->kind() != Node::NK_AttrPath) {
+      break;
+    }
+    N = Up;
+  }
+
+  AttrNames Names;
+  if (Top && !Path.empty())
+    collectAttrNames(*Top, Path, Names);
+  // Some error in the attribute set.
+  if (std::find(Names.begin(), Names.end(), Syntax) == Names.end())
+    return {Syntax};
+  return {Names.begin(), Names.end()};
+}
+
+/// \brief Edits that give a new name to definitions and to variables.
+///
+/// Names in `inherit` are the name of an attribute, and of a variable too.
+/// Only one of them is renamed, so these are replaced by bindings.
+class RenameEdits {
+  const Node &AST;
+  const ParentMapAnalysis &PMA;
+  llvm::StringRef Src;
+  const std::string &NewText;
+
+  struct Edit {
+    LexerCursorRange Range;
+    std::string Text;
+
+    [[nodiscard]] bool in(LexerCursorRange R) const {
+      return R.lCur().offset() <= Range.lCur().offset() &&
+             Range.rCur().offset() <= R.rCur().offset();
+    }
+  };
+  std::vector<Edit> Edits;
+
+  /// Names that are not inherited, but get a binding.
+  struct Replaced {
+    const Inherit *I;
+    std::map<const AttrName *, bool> Names; // Is it the definition?
+  };
+  std::map<std::size_t, Replaced> Inherits; // At this offset.
+
+  /// If N is a name in "inherit".
+  const Inherit *toInherit(const Node &N) const {
+    const Node *Up = PMA.query(N);
+    if (N.kind() != Node::NK_AttrName || !Up || Up->kind() != Node::NK_Inherit)
+      return nullptr;
+    return static_cast<const Inherit *>(Up);
+  }
+
+  void edit(LexerCursorRange Range, std::string Text) {
+    Edits.emplace_back(Edit{Range, std::move(Text)});
+  }
+
+  void replace(const Inherit &I, const AttrName &Name, bool IsDef) {
+    Replaced &R = Inherits[I.lCur().offset()];
+    R.I = &I;
+    R.Names[&Name] = IsDef;
+  }
+
+  /// The source with edits in it.
+  std::string renamed(LexerCursorRange Range) {
+    std::string Result;
+    std::size_t Cur = Range.lCur().offset();
+    std::sort(Edits.begin(), Edits.end(), [](const Edit &A, const Edit &B) {
+      return A.Range.lCur().offset() < B.Range.lCur().offset();
+    });
+    for (const Edit &E : Edits) {
+      if (!E.in(Range))
+        continue;
+      Result += Src.slice(Cur, E.Range.lCur().offset());
+      Result += E.Text;
+      Cur = E.Range.rCur().offset();
+    }
+    Result += Src.slice(Cur, Range.rCur().offset());
+    return Result;
+  }
+
+  /// The binding that replaces a name in "inherit".
+  std::string mkBinding(const Inherit &I, const AttrName &Name, bool IsDef) {
+    if (!IsDef)
+      return std::string(Name.src(Src)) + " = " + NewText + ";";
+    if (!I.expr())
+      return NewText + " = " + Name.staticName() + ";";
+    return NewText + " = (" + renamed(I.expr()->range()) + ")." +
+           std::string(Name.src(Src)) + ";";
+  }
+
+public:
+  RenameEdits(const Node &AST, const ParentMapAnalysis &PMA,
+              llvm::StringRef Src, const std::string &NewText)
+      : AST(AST), PMA(PMA), Src(Src), NewText(NewText) {}
+
+  void addUse(const ExprVar &Use) {
+    // Variables that are not in the tree are desugared from "inherit".
+    if (!PMA.query(Use)) {
+      const Node *Name = AST.descend(Use.positionRange());
+      if (Name)
+        Name = PMA.upTo(*Name, Node::NK_AttrName);
+      if (const Inherit *I = Name ? toInherit(*Name) : nullptr)
+        return replace(*I, static_cast<const AttrName &>(*Name), false);
+    }
+    edit(Use.range(), NewText);
+  }
+
+  void addDef(const Node &Def) {
+    if (const Inherit *I = toInherit(Def))
+      return replace(*I, static_cast<const AttrName &>(Def), true);
+    edit(Def.range(), NewText);
+  }
+
+  std::vector<lspserver::TextEdit> take() {
+    // Inner ones first.
+    for (auto It = Inherits.rbegin(); It != Inherits.rend(); It++) {
+      const Inherit &I = *It->second.I;
+      const auto &Names = It->second.Names;
+      bool All = Names.size() == I.names().size();
+      std::string Bindings;
+      for (const auto &Name : I.names()) {
+        auto Found = Names.find(Name.get());
+        if (Found == Names.end())
+          continue;
+        if (!Bindings.empty())
+          Bindings += " ";
+        Bindings += mkBinding(I, *Name, Found->second);
+      }
+      if (All) {
+        std::erase_if(Edits, [&](const Edit &E) { return E.in(I.range()); });
+        edit(I.range(), Bindings);
+        continue;
+      }
+      for (const auto &[Name, _] : Names)
+        edit(Name->range(), "");
+      edit({I.rCur(), I.rCur()}, " " + Bindings);
+    }
+    std::vector<lspserver::TextEdit> Result;
+    for (Edit &E : Edits)
+      Result.emplace_back(lspserver::TextEdit{
+          .range = toLSPRange(Src, E.Range),
+          .newText = std::move(E.Text),
+      });
+    return Result;
+  }
+};
+
 WorkspaceEdit rename(const nixf::Node &Desc, const std::string &NewText,
-                     const ParentMapAnalysis &PMA,
+                     const nixf::Node &AST, const ParentMapAnalysis &PMA,
                      const VariableLookupAnalysis &VLA, const URIForFile &URI,
                      llvm::StringRef Src) {
-  using lspserver::TextEdit;
   // Find "definition"
   auto Def = findDefinition(Desc, PMA, VLA);
 
@@ -49,22 +277,17 @@ WorkspaceEdit rename(const nixf::Node &Desc, const std::string &NewText,
   if (Def.isBuiltin())
     throw RenameBuiltinException();
 
-  std::vector<TextEdit> Edits;
+  RenameEdits Edits(AST, PMA, Src, NewText);
 
-  for (const auto *Use : Def.uses()) {
-    Edits.emplace_back(TextEdit{
-        .range = toLSPRange(Src, Use->range()),
-        .newText = NewText,
-    });
-  }
+  for (const auto *Use : Def.uses())
+    Edits.addUse(*Use);
+
+  for (const Node *Syntax : definedAt(Def, PMA))
+    Edits.addDef(*Syntax);
 
-  Edits.emplace_back(TextEdit{
-      .range = toLSPRange(Src, Def.syntax()->range()),
-      .newText = NewText,
-  });
   WorkspaceEdit WE;
-  WE.changes = std::map<std::string, std::vector<TextEdit>>{
-      {URI.uri(), std::move(Edits)}};
+  WE.changes = std::map<std::string, std::vector<lspserver::TextEdit>>{
+      {URI.uri(), Edits.take()}};
   return WE;
 }
 } // namespace
@@ -87,7 +310,9 @@ void Controller::onRename(const RenameParams &Params,
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
       try {
-        return rename(Desc, NewText, PM, VLA, URI, TU->src());
+        if (!isValidNixIdentifier(NewText))
+          throw RenameInvalidException();
+        return rename(Desc, NewText, *AST, PM, VLA, URI, TU->src());
       } catch (std::exception &E) {
         return error(E.what());
       }
@@ -113,7 +338,7 @@ void Controller::onPrepareRename(
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
       try {
-        WorkspaceEdit WE = rename(Desc, "", PM, VLA, URI, TU->src());
+        WorkspaceEdit WE = rename(Desc, "", *AST, PM, VLA, URI, TU->src());
         return toLSPRange(TU->src(), Desc.range());
       } catch (std::exception &E) {
         return error(E.what());
-- 
2.43.0


From c148fae9339029e0efa2e6eadb9546e439863321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:23 +0000
Subject: [PATCH 52/65] fix: definition of inherited names that are duplicates

---
 nixd/lib/Controller/Definition.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index e5a2bd1..b1e4b8f 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -85,8 +85,13 @@ const ExprVar *findInheritVar(const Node &N, const ParentMapAnalysis &PMA,
       return nullptr;
 
     const SemaAttrs &SA = static_cast<const ExprAttrs &>(*Up).sema();
-    const Node *Var = SA.staticAttrs().at(AN.staticName()).value();
-    assert(Var->kind() == Node::NK_ExprVar);
+    auto It = SA.staticAttrs().find(AN.staticName());
+    // The name may be a duplicate of something else.
+    if (It == SA.staticAttrs().end() || &It->second.key() != &AN)
+      return nullptr;
+    const Node *Var = It->second.value();
+    if (!Var || Var->kind() != Node::NK_ExprVar)
+      return nullptr;
     return static_cast<const ExprVar *>(Var);
   }
   return nullptr;
-- 
2.43.0


From 3ca876dc16785b5723be3d89ba87467aed5f7bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:47 +0000
Subject: [PATCH 53/65] fix: publish diagnostics in the order of analysis

---
 nixd/lib/Controller/Configuration.cpp | 7 ++++++-
 nixd/lib/Controller/Support.cpp       | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index 3bb28e8..230cce7 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -74,7 +74,8 @@ void Controller::updateConfig(Configuration NewConfig) {
         startOption(Name, Client);
       }
       assert(Client);
-      evalExprWithProgress(*Client->client(), Opt.expr, Name);
+      if (AttrSetClient *C = Client->client())
+        evalExprWithProgress(*C, Opt.expr, Name);
     }
   }
 
@@ -101,6 +102,10 @@ void Controller::fetchConfig() {
                       *Resp);
       return;
     }
+    if (Resp->getAsArray()->empty()) {
+      lspserver::elog("workspace/configuration response is empty");
+      return;
+    }
     const Value &FirstConfig = Resp->getAsArray()->front();
 
     // Run this job in the thread pool. Don't block input thread.
diff --git a/nixd/lib/Controller/Support.cpp b/nixd/lib/Controller/Support.cpp
index d9c1670..2728b93 100644
--- a/nixd/lib/Controller/Support.cpp
+++ b/nixd/lib/Controller/Support.cpp
@@ -44,10 +44,10 @@ void Controller::actOnDocumentAdd(PathRef File,
     auto VLA = std::make_unique<nixf::VariableLookupAnalysis>(Diagnostics);
     VLA->runOnAST(*AST);
 
-    publishDiagnostics(File, Version, *Src, Diagnostics);
-
     {
+      // Diagnostics of the old unit shall not be published after the new ones.
       std::lock_guard G(TUsLock);
+      publishDiagnostics(File, Version, *Src, Diagnostics);
       TUs.insert_or_assign(
           File, std::make_shared<NixTU>(std::move(Diagnostics), std::move(AST),
                                         std::nullopt, std::move(VLA), Src));
-- 
2.43.0


From 04abf96aa5a610b2ab9d6babb1d0f4eaa3aecaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 54/65] fix: keep the latest configuration

---
 nixd/include/nixd/Controller/Controller.h | 10 ++++++++--
 nixd/lib/Controller/Configuration.cpp     | 11 ++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index f49fac5..8f7c72c 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -48,7 +48,11 @@ private:
   lspserver::ClientCapabilities ClientCaps;
 
   std::mutex ConfigLock;
-  Configuration Config; // GUARDED_BY(ConfigLock)
+  Configuration Config;           // GUARDED_BY(ConfigLock)
+  std::size_t ConfigSequence = 0; // GUARDED_BY(ConfigLock)
+
+  /// Number of configurations received (input thread).
+  std::size_t ConfigResponses = 0;
 
   llvm::unique_function<void(const lspserver::ConfigurationParams &,
                              lspserver::Callback<llvm::json::Value>)>
@@ -60,7 +64,9 @@ private:
   /// \brief Update the configuration, do necessary adjusting for updates.
   ///
   /// \example If asked to change eval settings, send eval requests to workers.
-  void updateConfig(Configuration NewConfig);
+  ///
+  /// \param Sequence Older configurations than the current one are dropped.
+  void updateConfig(Configuration NewConfig, std::size_t Sequence);
 
   /// \brief Get configuration from LSP client. Update the config.
   void fetchConfig();
diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index 230cce7..7bfe1b6 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -53,8 +53,12 @@ void Controller::onDidChangeConfiguration(
   fetchConfig();
 }
 
-void Controller::updateConfig(Configuration NewConfig) {
+void Controller::updateConfig(Configuration NewConfig, std::size_t Sequence) {
   std::lock_guard G(ConfigLock);
+  // Jobs in the pool may be reordered, keep the latest one.
+  if (Sequence < ConfigSequence)
+    return;
+  ConfigSequence = Sequence;
   Config = std::move(NewConfig);
 
   if (!Config.nixpkgs.expr.empty()) {
@@ -109,7 +113,8 @@ void Controller::fetchConfig() {
     const Value &FirstConfig = Resp->getAsArray()->front();
 
     // Run this job in the thread pool. Don't block input thread.
-    auto ConfigAction = [this, FirstConfig]() mutable {
+    auto ConfigAction = [this, FirstConfig,
+                         Sequence = ++ConfigResponses]() mutable {
       // Parse the config
       Configuration NewConfig;
       llvm::json::Path::Root P;
@@ -119,7 +124,7 @@ void Controller::fetchConfig() {
       }
 
       // OK, update the config
-      updateConfig(std::move(NewConfig));
+      updateConfig(std::move(NewConfig), Sequence);
     };
 
     boost::asio::post(Pool, std::move(ConfigAction));
-- 
2.43.0


From 4924912460c4d4516a34c38d542133ee84d1f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:15 +0000
Subject: [PATCH 55/65] fix: outline and semantic tokens of texts clients
 reject

Names of symbols must not be blank, lengths of tokens are in the units of
positions, not in bytes.
---
 nixd/lib/Controller/DocumentSymbol.cpp | 17 +++++++++++++----
 nixd/lib/Controller/SemanticTokens.cpp |  6 ++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/nixd/lib/Controller/DocumentSymbol.cpp b/nixd/lib/Controller/DocumentSymbol.cpp
index da23f25..c373073 100644
--- a/nixd/lib/Controller/DocumentSymbol.cpp
+++ b/nixd/lib/Controller/DocumentSymbol.cpp
@@ -49,6 +49,13 @@ lspserver::Range getAttrRange(llvm::StringRef Src, const Attribute &Attr) {
   return {LCur, toLSPPosition(Src, Attr.key().rCur())};
 }
 
+/// Names of symbols must not be empty, or blank: show the quotes of these.
+std::string quoteBlank(const std::string &Name) {
+  if (Name.find_first_not_of(" \t\r\n") == std::string::npos)
+    return '"' + Name + '"';
+  return Name;
+}
+
 /// Make variable's entry rich.
 void richVar(const ExprVar &Var, DocumentSymbol &Sym,
              const VariableLookupAnalysis &VLA) {
@@ -89,7 +96,8 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
   case Node::NK_ExprString: {
     const auto &Str = static_cast<const ExprString &>(*AST);
     DocumentSymbol Sym{
-        .name = Str.isLiteral() ? Str.literal() : "(dynamic string)",
+        .name =
+            Str.isLiteral() ? quoteBlank(Str.literal()) : "(dynamic string)",
         .detail = "string",
         .kind = SymbolKind::String,
         .deprecated = false,
@@ -131,7 +139,8 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
   case Node::NK_AttrName: {
     const auto &AN = static_cast<const AttrName &>(*AST);
     DocumentSymbol Sym{
-        .name = AN.isStatic() ? AN.staticName() : "(dynamic attribute name)",
+        .name = AN.isStatic() ? quoteBlank(AN.staticName())
+                              : "(dynamic attribute name)",
         .detail = "attribute name",
         .kind = SymbolKind::Property,
         .deprecated = false,
@@ -145,7 +154,7 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
   case Node::NK_ExprVar: {
     const auto &Var = static_cast<const ExprVar &>(*AST);
     DocumentSymbol Sym{
-        .name = Var.id().name(),
+        .name = quoteBlank(Var.id().name()),
         .detail = "identifier",
         .kind = SymbolKind::Variable,
         .deprecated = false,
@@ -199,7 +208,7 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
       std::vector<DocumentSymbol> Children;
       collect(Attr.value(), Children, VLA, Src);
       DocumentSymbol Sym{
-          .name = Name,
+          .name = quoteBlank(Name),
           .detail = "attribute",
           .kind = SymbolKind::Field,
           .deprecated = false,
diff --git a/nixd/lib/Controller/SemanticTokens.cpp b/nixd/lib/Controller/SemanticTokens.cpp
index 42716d9..ca55030 100644
--- a/nixd/lib/Controller/SemanticTokens.cpp
+++ b/nixd/lib/Controller/SemanticTokens.cpp
@@ -86,8 +86,10 @@ public:
     return N.range().lCur().line() != N.range().rCur().line();
   }
 
-  static unsigned len(const Node &N) {
-    return N.range().rCur().offset() - N.range().lCur().offset();
+  /// Length of \p N, which is on a single line, in the units of positions.
+  unsigned len(const Node &N) const {
+    auto R = toLSPRange(Src, N.range());
+    return R.end.character - R.start.character;
   }
 
   void dfs(const ExprString &Str) {
-- 
2.43.0


From 26d359c6a1fb5db01ef1f692fe85755f28c3429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:40 +0000
Subject: [PATCH 56/65] fix: paths of the home directory are not relative to
 the file

---
 nixd/lib/Controller/PathResolve.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nixd/lib/Controller/PathResolve.h b/nixd/lib/Controller/PathResolve.h
index 56d3f16..4be5c25 100644
--- a/nixd/lib/Controller/PathResolve.h
+++ b/nixd/lib/Controller/PathResolve.h
@@ -40,6 +40,10 @@ inline std::optional<std::string> resolveExprPath(const std::string &BasePath,
     return std::nullopt;
   }
 
+  // FIXME: support home path.
+  if (ExprPath.front() == '~')
+    return std::nullopt;
+
   try {
     // Get the base directory from the file path
     std::error_code EC;
-- 
2.43.0


From 1678a288e3fc4feae78fbd08b902b097e1af7b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:39 +0000
Subject: [PATCH 57/65] fix: descend to names before the punctuation they touch

The cursor right after a name is on that name: `with pkgs|; x' and
`a|+b' found the punctuation, and there was no completion, hover or
definition.
---
 libnixf/include/nixf/Basic/Nodes/Expr.h | 3 ++-
 libnixf/include/nixf/Basic/Nodes/Op.h   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Expr.h b/libnixf/include/nixf/Basic/Nodes/Expr.h
index 2616565..2375863 100644
--- a/libnixf/include/nixf/Basic/Nodes/Expr.h
+++ b/libnixf/include/nixf/Basic/Nodes/Expr.h
@@ -201,7 +201,8 @@ public:
   [[nodiscard]] Expr *expr() const { return E.get(); }
 
   [[nodiscard]] ChildVector children() const override {
-    return {KwWith.get(), TokSemi.get(), With.get(), E.get()};
+    // Names come before what they touch, see descend().
+    return {KwWith.get(), With.get(), E.get(), TokSemi.get()};
   }
 };
 
diff --git a/libnixf/include/nixf/Basic/Nodes/Op.h b/libnixf/include/nixf/Basic/Nodes/Op.h
index a159784..15c7e3f 100644
--- a/libnixf/include/nixf/Basic/Nodes/Op.h
+++ b/libnixf/include/nixf/Basic/Nodes/Op.h
@@ -50,7 +50,8 @@ public:
   [[nodiscard]] Expr *rhs() const { return RHS.get(); }
 
   [[nodiscard]] ChildVector children() const override {
-    return {&op(), LHS.get(), RHS.get()};
+    // Names come before what they touch, see descend().
+    return {LHS.get(), RHS.get(), &op()};
   }
 };
 
-- 
2.43.0


From e28293ff86acb1a6da0be1baa25e78ebc822b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:39 +0000
Subject: [PATCH 58/65] fix: propose each name in scope once, if it can be
 written

Names defined again in an inner scope were proposed twice, and so were
names which are no identifiers.
---
 nixd/lib/Controller/Completion.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index 915f199..f73e22d 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -5,6 +5,7 @@
 
 #include "AST.h"
 #include "CheckReturn.h"
+#include "CodeActions/Utils.h"
 #include "Convert.h"
 
 #include "lspserver/Protocol.h"
@@ -74,15 +75,22 @@ class VLACompletionProvider {
 
   /// Collect definition on some env, and also it's ancestors.
   void collectDef(std::vector<CompletionItem> &Items, const EnvNode *Env,
-                  const std::string &Prefix) {
+                  const std::string &Prefix,
+                  std::set<std::string> Shadowed = {}) {
     if (!Env)
       return;
-    collectDef(Items, Env->parent(), Prefix);
+    std::set<std::string> Inner = Shadowed;
+    for (const auto &[Name, Def] : Env->defs())
+      Inner.insert(Name);
+    collectDef(Items, Env->parent(), Prefix, std::move(Inner));
     for (const auto &[Name, Def] : Env->defs()) {
       if (Name.starts_with(
               "__")) // These names are nix internal implementation, skip.
         continue;
       assert(Def);
+      // Defined again in an inner scope, or no variable can have this name.
+      if (Shadowed.contains(Name) || !isValidNixIdentifier(Name))
+        continue;
       if (Name.starts_with(Prefix)) {
         addItem(Items, CompletionItem{
                            .label = Name,
-- 
2.43.0


From 913da7b0b883122dd31d4ee571b718073596ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:56 +0000
Subject: [PATCH 59/65] fix: a variable comes from the innermost with

With more than one `with', the definition was the outermost one, and
nixpkgs was asked about another attribute.
---
 libnixf/src/Sema/VariableLookup.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 8590f3c..795457e 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -213,8 +213,10 @@ void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
     // need to determine if converting a `with` to `let/inherit` is safe).
     std::vector<const ExprWith *> WithScopes;
     for (const auto *WithEnv : WithEnvs) {
-      Def = WithDefs.at(WithEnv->syntax());
-      Def->usedBy(Var);
+      const auto &WithDef = WithDefs.at(WithEnv->syntax());
+      WithDef->usedBy(Var);
+      if (!Def)
+        Def = WithDef; // The innermost one shadows the others.
       WithScopes.push_back(static_cast<const ExprWith *>(WithEnv->syntax()));
     }
     VarWithScopes.insert({&Var, std::move(WithScopes)});
-- 
2.43.0


From ea6e0356595066a12aa3f80d484e6c6daaa06dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:56 +0000
Subject: [PATCH 60/65] fix: complete after the first dot of a selection

The dot of a selection without names was not in the tree: there were no
proposals at `lib.|'.
---
 libnixf/include/nixf/Basic/Nodes/Expr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Expr.h b/libnixf/include/nixf/Basic/Nodes/Expr.h
index 2375863..a866919 100644
--- a/libnixf/include/nixf/Basic/Nodes/Expr.h
+++ b/libnixf/include/nixf/Basic/Nodes/Expr.h
@@ -35,7 +35,9 @@ public:
   [[nodiscard]] AttrPath *path() const { return Path.get(); }
 
   [[nodiscard]] ChildVector children() const override {
-    return {E.get(), Path.get(), Default.get()};
+    // A dot without names is in the place of the path.
+    Node *Select = Path.get();
+    return {E.get(), Select ? Select : Do.get(), Default.get()};
   }
 };
 
-- 
2.43.0


From 3a66b77b09e7eaf759a762af7eee48cc865e6db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:56 +0000
Subject: [PATCH 61/65] fix: hover on options without a nixpkgs worker

---
 nixd/lib/Controller/Hover.cpp | 68 +++++++++++++++++------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index fb891f2..0455b22 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -236,44 +236,44 @@ void Controller::onHover(const TextDocumentPositionParams &Params,
             return *H;
           break;
         }
-        case Node::NK_ExprAttrs: {
-          // Try to get hover info from options.
-          auto Scope = std::vector<std::string>();
-          const auto R = findAttrPathForOptions(N, PM, Scope);
-          if (R == FindAttrPathResult::OK) {
-            std::lock_guard _(OptionsLock);
-            for (const auto &[_, Client] : Options) {
-              if (AttrSetClient *C = Client->client()) {
-                OptionsHoverProvider OHP(*C);
-                std::optional<OptionDescription> Desc = OHP.resolveHover(Scope);
-                std::string Docs;
-                if (Desc) {
-                  if (Desc->Type) {
-                    std::string TypeName = Desc->Type->Name.value_or("");
-                    std::string TypeDesc = Desc->Type->Description.value_or("");
-                    Docs += llvm::formatv("{0} ({1})", TypeName, TypeDesc);
-                  } else {
-                    Docs += "? (missing type)";
-                  }
-                  if (Desc->Description) {
-                    Docs += "\n\n" + Desc->Description.value_or("");
-                  }
-                  return Hover{
-                      .contents =
-                          MarkupContent{
-                              .kind = MarkupKind::Markdown,
-                              .value = std::move(Docs),
-                          },
-                      .range = toLSPRange(TU->src(), N.range()),
-                  };
+        default:
+          break;
+        }
+      }
+
+      if (UpExpr.kind() == Node::NK_ExprAttrs) {
+        // Try to get hover info from options.
+        auto Scope = std::vector<std::string>();
+        const auto R = findAttrPathForOptions(N, PM, Scope);
+        if (R == FindAttrPathResult::OK) {
+          std::lock_guard _(OptionsLock);
+          for (const auto &[_, Client] : Options) {
+            if (AttrSetClient *C = Client->client()) {
+              OptionsHoverProvider OHP(*C);
+              std::optional<OptionDescription> Desc = OHP.resolveHover(Scope);
+              std::string Docs;
+              if (Desc) {
+                if (Desc->Type) {
+                  std::string TypeName = Desc->Type->Name.value_or("");
+                  std::string TypeDesc = Desc->Type->Description.value_or("");
+                  Docs += llvm::formatv("{0} ({1})", TypeName, TypeDesc);
+                } else {
+                  Docs += "? (missing type)";
                 }
+                if (Desc->Description) {
+                  Docs += "\n\n" + Desc->Description.value_or("");
+                }
+                return Hover{
+                    .contents =
+                        MarkupContent{
+                            .kind = MarkupKind::Markdown,
+                            .value = std::move(Docs),
+                        },
+                    .range = toLSPRange(TU->src(), N.range()),
+                };
               }
             }
           }
-          break;
-        }
-        default:
-          break;
         }
       }
 
-- 
2.43.0


From 9e82c1a2c148baed1436c35c83bf9cda170f85e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:56 +0000
Subject: [PATCH 62/65] fix: no package versions at names defined in the file

---
 nixd/lib/Controller/InlayHints.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index f67c181..64dfe0c 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -72,14 +72,18 @@ public:
     if (!N)
       return;
     if (N->kind() == Node::NK_ExprVar) {
-      if (havePackageScope(*N, VLA, PMA)) {
+      // Names that are defined in this file are not packages.
+      using ResultKind = VariableLookupAnalysis::LookupResultKind;
+      const auto &Var = static_cast<const ExprVar &>(*N);
+      if (VLA.query(Var).Kind == ResultKind::FromWith &&
+          havePackageScope(*N, VLA, PMA)) {
         if (!rangeOK(N->positionRange()))
           return;
         // Ask nixpkgs eval to provide it's information.
         // This is relatively slow. Maybe better query a set of packages in the
         // future?
         std::binary_semaphore Ready(0);
-        const std::string &Name = static_cast<const ExprVar &>(*N).id().name();
+        const std::string &Name = Var.id().name();
         AttrPathInfoResponse R;
         auto OnReply = [&Ready, &R](llvm::Expected<AttrPathInfoResponse> Resp) {
           if (!Resp) {
-- 
2.43.0


From bd496a3ef7f16d284a2ca1576493777c98d652e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:56 +0000
Subject: [PATCH 63/65] fix: complete the name at the cursor, insert valid
 names

In the middle of a selection, the last name was completed and put at the
cursor. Names that are no identifiers have to be quoted, and cannot be
variables.
---
 nixd/lib/Controller/Completion.cpp | 53 ++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index f73e22d..e7ffb19 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -149,8 +149,9 @@ public:
   }
 
   /// \brief Ask nixpkgs provider, give us a list of names. (thunks)
+  /// \param Quote Whether names that are no identifiers may be written quoted.
   void completePackages(const lspserver::Range EditRange,
-                        const AttrPathCompleteParams &Params,
+                        const AttrPathCompleteParams &Params, bool Quote,
                         std::vector<CompletionItem> &Items) {
     std::binary_semaphore Ready(0);
     std::vector<std::string> Names;
@@ -169,14 +170,18 @@ public:
     Ready.acquire();
     // Now we have "Names", use these to fill "Items".
     for (const auto &Name : Names) {
+      if (!Quote && !isValidNixIdentifier(Name))
+        continue;
       if (Name.starts_with(Params.Prefix)) {
-        addItem(Items, CompletionItem{
-                           .label = Name,
-                           .kind = CompletionItemKind::Field,
-                           .textEdit = lspserver::TextEdit{.range = EditRange,
-                                                           .newText = Name},
-                           .data = llvm::formatv("{0}", toJSON(Params)),
-                       });
+        addItem(Items,
+                CompletionItem{
+                    .label = Name,
+                    .kind = CompletionItemKind::Field,
+                    .textEdit =
+                        lspserver::TextEdit{.range = EditRange,
+                                            .newText = quoteNixAttrKey(Name)},
+                    .data = llvm::formatv("{0}", toJSON(Params)),
+                });
       }
     }
   }
@@ -259,12 +264,14 @@ public:
       return lspserver::TextEdit{.range = EditRange, .newText = NewText.str()};
     };
     for (const nixd::OptionField &Field : Names) {
+      const std::string Key = quoteNixAttrKey(Field.Name);
       if (!Field.Description) {
         addItem(Items, CompletionItem{
                            .label = Field.Name,
                            .kind = OptionAttrKind,
                            .detail = ModuleOrigin,
-                           .textEdit = MkTextEdit(Field.Name),
+                           .insertText = Key == Field.Name ? "" : Key,
+                           .textEdit = MkTextEdit(Key),
                        });
         continue;
       }
@@ -314,7 +321,7 @@ public:
             .sortText = (SortPrefix + Field.Name).str(),
             .filterText = Field.Name,
         };
-        fillInsertText(Item, Field.Name, Value);
+        fillInsertText(Item, Key, Value);
         Item.textEdit = MkTextEdit(Item.insertText);
         addItem(Items, std::move(Item));
       };
@@ -337,7 +344,7 @@ public:
             .detail = TypeDetail,
             .documentation = Doc,
         };
-        fillInsertText(Item, Field.Name, "");
+        fillInsertText(Item, Key, "");
         Item.textEdit = MkTextEdit(Item.insertText);
         addItem(Items, std::move(Item));
       }
@@ -420,7 +427,8 @@ void completeVarName(const lspserver::Range EditRange,
     // Invoke nixpkgs provider to get the completion list.
     NixpkgsCompletionProvider NCP(*Client);
     // Variable names are always incomplete.
-    NCP.completePackages(EditRange, mkParams(Sel, /*IsComplete=*/false), List);
+    NCP.completePackages(EditRange, mkParams(Sel, /*IsComplete=*/false),
+                         /*Quote=*/false, List);
   } catch (ExceedSizeError &) {
     // Let "onCompletion" catch this exception to set "inComplete" field.
     throw;
@@ -432,13 +440,15 @@ void completeVarName(const lspserver::Range EditRange,
 }
 
 /// \brief Complete a "select" expression.
+/// \param N The name or dot at the cursor, names after it are not considered.
 /// \param IsComplete Whether or not the last element of the selector is
 /// effectively incomplete.
 /// e.g.
 ///      - incomplete: `lib.gen|`
 ///      - complete:   `lib.attrset.|`
 void completeSelect(const lspserver::Range EditRange,
-                    const nixf::ExprSelect &Select, AttrSetClient *Client,
+                    const nixf::ExprSelect &Select, const nixf::Node &N,
+                    AttrSetClient *Client,
                     const nixf::VariableLookupAnalysis &VLA,
                     const nixf::ParentMapAnalysis &PM, bool IsComplete,
                     std::vector<CompletionItem> &List) {
@@ -462,9 +472,18 @@ void completeSelect(const lspserver::Range EditRange,
   NixpkgsCompletionProvider NCP(*Client);
 
   try {
-    Selector Sel =
-        idioms::mkSelector(Select, idioms::mkVarSelector(Var, VLA, PM));
-    NCP.completePackages(EditRange, mkParams(Sel, IsComplete), List);
+    Selector Sel = idioms::mkVarSelector(Var, VLA, PM);
+    if (Select.path()) {
+      for (const auto &Name : Select.path()->names()) {
+        if (Name->lCur().offset() >= N.rCur().offset())
+          break;
+        if (!Name->isStatic())
+          throw idioms::DynamicNameException();
+        Sel.emplace_back(Name->staticName());
+      }
+    }
+    NCP.completePackages(EditRange, mkParams(Sel, IsComplete), /*Quote=*/true,
+                         List);
   } catch (ExceedSizeError &) {
     // Let "onCompletion" catch this exception to set "inComplete" field.
     throw;
@@ -519,7 +538,7 @@ void Controller::onCompletion(const CompletionParams &Params,
           // foo.a.bar|
           case Node::NK_ExprSelect: {
             const auto &Select = static_cast<const nixf::ExprSelect &>(UpExpr);
-            completeSelect(EditRange, Select, nixpkgsClient(), VLA, PM,
+            completeSelect(EditRange, Select, N, nixpkgsClient(), VLA, PM,
                            N.kind() == Node::NK_Dot, List.items);
             return List;
           }
-- 
2.43.0


From cabbe16cbfa2edcb593251c08db4bce8aaaa5ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 64/65] fix: do not leak pipes to formatters, return the stderr
 of processes

---
 nixd/lib/Support/ForkPiped.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/nixd/lib/Support/ForkPiped.cpp b/nixd/lib/Support/ForkPiped.cpp
index 60b704e..0b0b89a 100644
--- a/nixd/lib/Support/ForkPiped.cpp
+++ b/nixd/lib/Support/ForkPiped.cpp
@@ -2,17 +2,31 @@
 
 #include <cerrno>
 
+#include <fcntl.h>
 #include <system_error>
 #include <unistd.h>
 
+namespace {
+
+/// Create a pipe that is not inherited by other processes we start.
+void mkPipe(int (&Pipe)[2]) {
+  if (pipe(Pipe) == -1)
+    throw std::system_error(errno, std::generic_category());
+  for (int FD : Pipe)
+    fcntl(FD, F_SETFD, FD_CLOEXEC);
+}
+
+} // namespace
+
 int nixd::forkPiped(int &In, int &Out, int &Err) {
   static constexpr int READ = 0;
   static constexpr int WRITE = 1;
   int PipeIn[2];
   int PipeOut[2];
   int PipeErr[2];
-  if (pipe(PipeIn) == -1 || pipe(PipeOut) == -1 || pipe(PipeErr) == -1)
-    throw std::system_error(errno, std::generic_category());
+  mkPipe(PipeIn);
+  mkPipe(PipeOut);
+  mkPipe(PipeErr);
 
   pid_t Child = fork();
 
@@ -40,6 +54,6 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
 
   In = PipeIn[WRITE];
   Out = PipeOut[READ];
-  Err = PipeOut[READ];
+  Err = PipeErr[READ];
   return Child;
 }
-- 
2.43.0


From 10f8948aba6902e0ede431985afed29d729efa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 65/65] fix: talk to formatters without deadlocks, survive
 their failures

The document was written completely before reading anything, and the
formatter was waited for before its output was read, so that large documents
hung forever. A formatter that did not read all of its input killed the
server by SIGPIPE, as did formatting a document that is not open.
---
 nixd/lib/Controller/Format.cpp | 138 +++++++++++++++++++++++++--------
 1 file changed, 106 insertions(+), 32 deletions(-)

diff --git a/nixd/lib/Controller/Format.cpp b/nixd/lib/Controller/Format.cpp
index 7368e42..5869ed5 100644
--- a/nixd/lib/Controller/Format.cpp
+++ b/nixd/lib/Controller/Format.cpp
@@ -7,19 +7,98 @@
 /// external command and then let that process do formatting.
 
 #include "nixd/Controller/Controller.h"
+#include "nixd/Support/AutoCloseFD.h"
 #include "nixd/Support/ForkPiped.h"
 
 #include <boost/asio/post.hpp>
+
+#include <fcntl.h>
+#include <poll.h>
 #include <sys/wait.h>
+#include <unistd.h>
+
+#include <cerrno>
+#include <climits>
+#include <csignal>
+#include <optional>
+#include <system_error>
 
 using namespace nixd;
 using namespace lspserver;
+using util::AutoCloseFD;
+
+namespace {
+
+void closeNow(AutoCloseFD &FD) { AutoCloseFD Closing(std::move(FD)); }
+
+/// \brief Send \p Code to the stdin of a process, and collect its stdout.
+///
+/// The process may print before it has read everything, print more than a pipe
+/// holds, or exit without reading. So do not wait for one direction only.
+///
+/// \returns nullopt if the communication failed, with the reason in errno.
+std::optional<std::string> exchange(AutoCloseFD In, AutoCloseFD Out,
+                                    AutoCloseFD Err, llvm::StringRef Code) {
+  // Write what fits in the pipe, do not block.
+  int Flags = fcntl(In.get(), F_GETFL);
+  if (Flags == -1 || fcntl(In.get(), F_SETFL, Flags | O_NONBLOCK) == -1)
+    return std::nullopt;
+
+  std::string Response;
+  while (true) {
+    if (Code.empty() && !In.isReleased())
+      closeNow(In);
+    if (Out.isReleased() && Err.isReleased())
+      return Response;
+
+    // Descriptors that have been closed are negative, poll(2) ignores them.
+    pollfd FDs[3];
+    FDs[0] = {In.get(), POLLOUT, 0};
+    FDs[1] = {Out.get(), POLLIN, 0};
+    FDs[2] = {Err.get(), POLLIN, 0};
+    if (poll(FDs, 3, -1) == -1) {
+      if (errno == EINTR)
+        continue;
+      return std::nullopt;
+    }
+
+    if (FDs[0].revents != 0) {
+      ssize_t Written = write(In.get(), Code.data(), Code.size());
+      if (Written != -1)
+        Code = Code.drop_front(Written);
+      else if (errno == EPIPE)
+        Code = {}; // It does not want to read more.
+      else if (errno != EINTR && errno != EAGAIN)
+        return std::nullopt;
+    }
+
+    for (AutoCloseFD *FD : {&Out, &Err}) {
+      if (FDs[FD == &Out ? 1 : 2].revents == 0)
+        continue;
+      char Buf[1024];
+      ssize_t Read = read(FD->get(), Buf, sizeof(Buf));
+      if (Read == 0)
+        closeNow(*FD);
+      else if (Read > 0 && FD == &Out)
+        Response.append(Buf, Read);
+      else if (Read < 0 && errno != EINTR)
+        return std::nullopt;
+    }
+  }
+}
+
+} // namespace
 
 void Controller::onFormat(const DocumentFormattingParams &Params,
                           Callback<std::vector<TextEdit>> Reply) {
   auto Action = [this, Params, Reply = std::move(Reply)]() mutable {
     lspserver::PathRef File = Params.textDocument.uri.file();
-    const std::string &Code = *Store.getDraft(File)->Contents;
+    auto Draft = Store.getDraft(File);
+    if (!Draft) {
+      Reply(error("document {0} is not open", File));
+      return;
+    }
+    const std::string &Code = *Draft->Contents;
     // Invokes another process and then read it's stdout.
     std::vector<std::string> FormatCommand;
     {
@@ -44,31 +123,39 @@ void Controller::onFormat(const DocumentFormattingParams &Params,
     // Null terminator.
     Syscall.emplace_back(nullptr);
 
+    // Formatters may exit before reading all of the document.
+    std::signal(SIGPIPE, SIG_IGN);
+
     int In;
     int Out;
     int Err;
-
-    pid_t Child = forkPiped(In, Out, Err);
+    pid_t Child;
+    try {
+      Child = forkPiped(In, Out, Err);
+    } catch (const std::system_error &E) {
+      Reply(error("cannot start {0}: {1}", FormatCommand[0], E.what()));
+      return;
+    }
     if (Child == 0) {
+      std::signal(SIGPIPE, SIG_DFL);
       execvp(Syscall[0], Syscall.data());
-      exit(-1);
-    }
-    // Firstly, send the document to the process stdin.
-    // Invoke POSIX write(2) to do such thing.
-    const char *Start = Code.c_str();
-    const char *End = Code.c_str() + Code.size();
-    while (Start != End) {
-      if (long Writen = write(In, Start, End - Start); Writen != -1) {
-        Start += Writen;
-      } else {
-        throw std::system_error(errno, std::generic_category());
-      }
+      _exit(127);
     }
-    close(In);
+
+    // Send the document to the process, and read it's stdout.
+    std::optional<std::string> Response = exchange(In, Out, Err, Code);
+    int Errno = errno;
 
     // And, wait for the process.
     int Exit = 0;
-    waitpid(Child, &Exit, 0);
+    while (waitpid(Child, &Exit, 0) == -1 && errno == EINTR)
+      ;
+
+    if (!Response) {
+      Reply(error("cannot communicate with {0}: {1}", FormatCommand[0],
+                  std::generic_category().message(Errno)));
+      return;
+    }
 
     if (Exit != 0) {
       Reply(error("formatting {0} command exited with {1}", FormatCommand[0],
@@ -76,25 +163,12 @@ void Controller::onFormat(const DocumentFormattingParams &Params,
       return;
     }
 
-    // Okay, read stdout from it.
-    std::string Response;
-    while (true) {
-      char Buf[1024];
-      auto Read = read(Out, Buf, sizeof(Buf));
-      if (Read == 0)
-        break;
-      if (Read < 0)
-        throw std::system_error(errno, std::generic_category());
-      // Otherwise, append it to "response"
-      Response.append(Buf, Read);
-    }
-
-    if (Response == Code) {
+    if (*Response == Code) {
       Reply(std::vector<TextEdit>{});
       return;
     }
 
-    TextEdit E{{{0, 0}, {INT_MAX, INT_MAX}}, Response};
+    TextEdit E{{{0, 0}, {INT_MAX, INT_MAX}}, *Response};
     Reply(std::vector{E});
   };
 
-- 
2.43.0

