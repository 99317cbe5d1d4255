"""Texts of the properties: source of properties.jsonl and MANIFEST.json."""
TECH = ("symbolic execution of the compiled code (clang IR), every path within "
        "the bounds decided by an SMT solver (z3)")
P = "libnixf/src/Parse/"
I = "libnixf/include/nixf/"
META = {}


def prop(pid, title, statement, over, text, why, files, mech, note,
         observe=None):
    META[pid] = dict(
        prop=dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[
                      dict(name=n, where=w) for n, w in mech])),
        note=note)


prop("P01", "No text crashes or hangs the analysis",
     "For every text, parsing it, analysing the variables of the tree it "
     "yields and querying nodes, parents and definitions at any position ends "
     "normally: no out-of-bounds access, no failed assertion, no escaping "
     "exception, no endless loop. Every diagnostic carries the arguments its "
     "message refers to.",
     ["inputs"], "all texts: any bytes, complete or cut off anywhere, since the "
     "language server sees every intermediate state of typing",
     "The tests parse about a hundred fixed texts; crashes hide in truncated or "
     "adjacent constructs nobody thought of (several were found here).",
     [P + "Lexer.cpp", P + "ParseExpr.cpp", P + "ParseStrings.cpp",
      P + "ParseAttrs.cpp", P + "ParseLambda.cpp",
      "libnixf/src/Sema/VariableLookup.cpp", "libnixf/src/Sema/SemaActions.cpp"],
     [("look-ahead buffer and lexer state stack", P + "ParseSupport.cpp"),
      ("token kinds per context", P + "Lexer.cpp"),
      ("variable lookup", "libnixf/src/Sema/VariableLookup.cpp")],
     "every text within the bounds; bounded by symbolic bytes and tokens")

prop("P02", "Source positions are exact",
     "Every node of the tree and every diagnostic, note and edit lies inside "
     "the text, ends no earlier than it begins, and its line and column are "
     "those of its offset. A node never reaches outside the node containing "
     "it, and in a valid program every expression covers exactly the text that "
     "denotes it.",
     ["inputs"], "all texts, all nodes and diagnostics",
     "Tests assert positions of a few nodes of fixed texts, mostly on one "
     "line; positions after newlines, comments and recovered errors are not "
     "sampled.",
     [P + "Lexer.cpp", P + "ParseSupport.cpp", I + "Basic/Range.h"],
     [("cursor movement", P + "Lexer.h"),
      ("ranges of nodes", P + "ParseExpr.cpp")],
     "every text within the bounds")

prop("P03", "Text is split into the tokens of the Nix language",
     "Keywords, identifiers, operators, numbers, paths, search paths, URIs, "
     "comments and white space are recognised with the longest match the Nix "
     "language prescribes, so that a text denotes the same expression for this "
     "parser as for Nix. White space and comments between tokens never change "
     "the expression.",
     ["inputs"], "all texts; compared with an independent reader of the "
     "language",
     "Tests lex some thirty fixed texts; boundaries between token kinds depend "
     "on the bytes that follow, for any byte.",
     [P + "Lexer.cpp", P + "Lexer.h", P + "tokens.py"],
     [("longest-match rules", P + "Lexer.cpp")],
     "any bytes within the bounds, against an independent reader")

prop("P04", "Operators bind as the Nix manual's table says",
     "An expression of unary and binary operators, attribute tests and "
     "function calls is grouped by the precedence and associativity of the "
     "Nix language. Chains of non-associative operators are reported as "
     "errors.",
     ["inputs"], "all combinations of operators and operands",
     "Tests check a handful of operator pairs; there are thousands of "
     "combinations of three.",
     [P + "ParseOp.cpp", P + "ParseExpr.cpp"],
     [("binding power table", P + "ParseOp.cpp"),
      ("application and selection", P + "ParseExpr.cpp")],
     "all operator sequences within the bounds; the reading of pipe chains is "
     "a known finding")

prop("P05", "Numbers have their exact value",
     "An integer literal denotes its decimal value, and a literal beyond the "
     "largest 64-bit integer is reported as an error. A float literal denotes "
     "the nearest double.",
     ["inputs"], "all digit strings",
     "Tests contain two or three literals; the edges are at values no sample "
     "hits.",
     [P + "ParseSimple.cpp", P + "Lexer.cpp"],
     [("conversion of literals", P + "ParseSimple.cpp")],
     "all digits symbolic within the bounds")

prop("P06", "Strings and paths have the contents Nix gives them",
     "The text of a string, indented string, path or URI, with its escapes "
     "and dollar signs, decodes to the contents Nix gives it, and "
     "interpolations appear exactly where they are written. Indentation of "
     "indented strings is left as written.",
     ["inputs"], "all texts inside string and path literals",
     "Tests decode some ten literals; escapes interact with each other and "
     "with interpolation ($$, ''$, ''\\, $ at the end).",
     [P + "ParseStrings.cpp", P + "Lexer.cpp", I + "Basic/Nodes/Simple.h"],
     [("escape decoding", P + "ParseStrings.cpp"),
      ("string and path lexing", P + "Lexer.cpp")],
     "every literal within the bounds, against an independent reader")

prop("P07", "Exactly the valid programs are accepted, with the right tree",
     "A text gets no error diagnostic if and only if it is an expression of "
     "the Nix language, and the tree of an accepted text has the structure of "
     "that expression. Not decided where this parser or Nix versions "
     "deliberately differ: blank texts, the old let form, floats without "
     "integer part, paths ending in a slash, calls of literals, attribute "
     "tests without a name, folded ${\"literal\"} names.",
     ["inputs"], "all texts; compared with an independent reader",
     "Tests cover single errors at fixed places; acceptance is about every "
     "text.",
     [P + "ParseExpr.cpp", P + "ParseAttrs.cpp", P + "ParseLambda.cpp",
      P + "ParseOp.cpp", P + "ParseStrings.cpp", P + "ParseSimple.cpp",
      "libnixf/src/Sema/SemaActions.cpp"],
     [("recursive descent with error recovery", P + "ParseExpr.cpp"),
      ("checks on bindings and formals", "libnixf/src/Sema/SemaActions.cpp")],
     "every text within the bounds, against an independent reader")

prop("P08", "Attribute sets merge and clash as in Nix",
     "For every set of bindings, the attributes recorded for it, with their "
     "nested sets, kinds and values, are those Nix would build from its "
     "attribute paths, inherits and nested sets. A second definition of an "
     "attribute is reported at its name with a note at the first one, merging "
     "a recursive with a plain set and dynamic names in let are reported, and "
     "nothing else is.",
     ["inputs"], "all combinations of bindings in a set or let",
     "Tests merge a few fixed pairs; order, quoting, dynamic names, nesting "
     "and inherits multiply.",
     ["libnixf/src/Sema/SemaActions.cpp", I + "Basic/Nodes/Attrs.h",
      P + "ParseExpr.cpp"],
     [("insertion of a path into the set built so far",
       "libnixf/src/Sema/SemaActions.cpp")],
     "all bindings of the stated forms within the bounds")

prop("P09", "Formal arguments are read and checked as in Nix",
     "A function's argument name, formals, defaults and ellipsis are "
     "recognised in every arrangement the language allows, and every other "
     "arrangement (missing or misplaced commas, an ellipsis before the end, "
     "empty formals) is reported as an error. Duplicate formals, and an "
     "argument named like a formal, are reported at the later name, and only "
     "those.",
     ["inputs"], "all formal lists",
     "Tests try about a dozen lists; errors combine.",
     [P + "ParseLambda.cpp", "libnixf/src/Sema/SemaActions.cpp"],
     [("formals parser", P + "ParseLambda.cpp"),
      ("uniqueness of formals", "libnixf/src/Sema/SemaActions.cpp")],
     "all formal lists within the bounds")

prop("P10", "Quick fixes do what they promise",
     "Applying a quick fix to a valid program yields a valid program which is "
     "the same but for what the fix announces: the unneeded parentheses, rec, "
     "with, unused binding or inherit are gone, the builtins. prefix is added or "
     "removed, a URL is quoted, an old let is a let. Applying a quick fix of an "
     "error makes that error disappear from that place, inserted keywords stay "
     "words of their own, and edits never overlap (old lets referring to their "
     "own body aside).",
     ["inputs"], "all fixes offered for all texts",
     "Tests look at messages and positions of edits of a few fixed texts and "
     "never apply one; whether the result is the right program depends on what "
     "stands next to the edit.",
     [P + "ParseSimple.cpp", P + "ParseSupport.cpp", P + "ParseAttrs.cpp",
      P + "ParseExpr.cpp", P + "ParseLambda.cpp",
      "libnixf/src/Sema/SemaActions.cpp",
      "libnixf/src/Sema/VariableLookup.cpp"],
     [("edits", I + "Basic/Diagnostic.h")],
     "all fixes of all texts within the bounds, results read by an independent "
     "reader")

VL = "libnixf/src/Sema/VariableLookup.cpp"
prop("P11", "Variables resolve to the definition Nix would use",
     "In every valid program each variable is resolved by the scoping rules of "
     "Nix to the let binding, recursive attribute, argument, formal or builtin "
     "it denotes, else to the enclosing withs from the inside out, else to "
     "nothing. Definitions and withs know exactly their uses, each once, and "
     "the scope recorded at a variable lists exactly the names visible there "
     "(old lets aside; an inherit without names counts as absent).",
     ["inputs"], "all valid programs",
     "Tests resolve single names in fixed programs; scoping is about all "
     "combinations of shadowing, inherits, merging and nesting.",
     [VL, "libnixf/include/nixf/Sema/VariableLookup.h",
      "libnixf/src/Sema/SemaActions.cpp"],
     [("environments", VL), ("desugaring of inherit",
                            "libnixf/src/Sema/SemaActions.cpp")],
     "all programs of the stated shapes and names")

prop("P12", "Unused and undefined names are reported exactly",
     "In every valid program the unused let bindings and formals (and "
     "arguments beside formals), the withs and recs that nothing needs, the "
     "undefined variables, redefinitions of builtins and constants, and "
     "superfluous or wrong builtins. prefixes are reported, at the right place "
     "and once, and nothing else is. Whether builtins.x is judged depends on "
     "what builtins and x denote there, not on how they look.",
     ["inputs"], "all valid programs",
     "Tests check reports in fixed programs, mostly one at a time.",
     [VL, "libnixf/src/Sema/PrimOpLookup.cpp"],
     [("liveness reports", VL), ("checks on builtins", VL)],
     "all programs of the stated shapes and names")

prop("P13", "Every position leads to the construct written there",
     "For every valid program and every selection in it, descending from the "
     "root finds a node that contains the selection, and no smaller expression "
     "of the program contains it (at an edge a bare cursor may belong to either "
     "side). In every tree each node has one place, its recorded parent is the "
     "node it is in, and the enclosing expression or node of a kind found for "
     "it is the nearest one.",
     ["inputs"], "all texts, all selections and nodes",
     "Hover, definition, completion and code actions all begin here; tests try "
     "a few positions of one-line texts.",
     [I + "Basic/Nodes/Basic.h", I + "Basic/Range.h",
      "libnixf/src/Sema/ParentMap.cpp", I + "Basic/Nodes/Attrs.h",
      I + "Basic/Nodes/Expr.h", I + "Basic/Nodes/Lambda.h"],
     [("descent by position", I + "Basic/Nodes/Basic.h"),
      ("parent map", "libnixf/src/Sema/ParentMap.cpp")],
     "all selections of all texts within the bounds")

L = "nixd/lspserver/src/"
LI = "nixd/lspserver/include/lspserver/"
prop("P14", "Editor positions and text offsets name the same places",
     "For every text and offset at a character, the position computed counts "
     "lines and UTF-16 code units as the protocol says, and converting it back "
     "gives the same offset. A position that does not exist (negative, past "
     "the last line or the end of a line, inside a surrogate pair) is refused, "
     "or taken as the end of the line where that is asked for. No byte "
     "sequence, valid UTF-8 or not, leads outside the text.",
     ["inputs"], "all texts and positions",
     "Every request carries positions; one wrong unit desynchronises editor and "
     "server. Tests use ASCII.",
     [L + "SourceCode.cpp", LI + "SourceCode.h"],
     [("conversion", L + "SourceCode.cpp")],
     "all valid texts of a few characters and all positions around them")
prop("P15", "The server's copy of a document is what the editor has",
     "Applying a change replaces exactly the range given, or the whole text "
     "where none is, and a change whose range does not exist, is reversed or "
     "has another length than stated is refused; the start of a line after an "
     "unterminated last line is taken as one. A document has the contents and "
     "version last given from opening to closing, contents handed out earlier "
     "do not change, and a version that is not given is larger than the last.",
     ["inputs", "histories"], "all texts, changes and sequences of operations",
     "Every answer is computed on this copy; a change applied wrongly cannot be "
     "repaired by the protocol.",
     [L + "SourceCode.cpp", L + "DraftStore.cpp", LI + "DraftStore.h"],
     [("changes", L + "SourceCode.cpp"), ("documents", L + "DraftStore.cpp")],
     "all changes to short texts and all short histories")
prop("P16", "Every message of the client is delivered, once and in order",
     "However the client's stream is cut into pieces, delayed or interrupted by "
     "signals, and also when the client hangs up right after writing, each "
     "complete message is handed once, in order and unchanged, to the handler "
     "of its kind, whatever other headers it has. Nothing else is delivered, "
     "and the server stops when the stream ends, it is told to stop or the "
     "client process is gone; no input makes it crash. The same holds for the "
     "Markdown form of the tests.",
     ["inputs", "schedules", "fault_sequences"],
     "all messages, all behaviours of poll and read, all ends of the stream",
     "A message lost or misread silently desynchronises everything after it; "
     "tests feed whole files through one pipe.",
     [L + "Connection.cpp", LI + "Connection.h"],
     [("framing", L + "Connection.cpp"), ("dispatch", L + "Connection.cpp")],
     "all schedules with bounded interruptions over short streams")
prop("P17", "Every request gets exactly one answer, every reply its call",
     "Each request is answered exactly once with its own ID: the handler's "
     "result or error, or the error for an unknown method or bad parameters; "
     "notifications are never answered and reach their handler once. A reply of "
     "the client reaches exactly the call of its ID, once, any other is ignored, "
     "and calls given up are the oldest and get an error. What is written is "
     "framed with its exact length, flushed before the server waits again, and "
     "reads back as the value sent.",
     ["inputs", "histories"], "all sequences of messages, IDs and texts",
     "Editors hang on a missing answer and act on a wrong one; tests check one "
     "request at a time.",
     [L + "LSPServer.cpp", L + "Connection.cpp", LI + "LSPServer.h",
      LI + "LSPBinder.h"],
     [("requests", L + "LSPServer.cpp"), ("writing", L + "Connection.cpp")],
     "all short histories of 16 kinds of message")
prop("P18", "File URIs and paths stand for each other",
     "The URI of every absolute path is well-formed and is resolved to the same "
     "path. Every URI of a file is resolved to the path it denotes after "
     "percent-decoding each part, and telling that file to the client again "
     "names the same file; what is not a file URI is refused.",
     ["inputs"], "all paths and URIs",
     "A path that comes back changed opens or edits another file.",
     [L + "URI.cpp", LI + "URI.h", L + "Protocol.cpp"],
     [("URIs", L + "URI.cpp"), ("URIForFile", L + "Protocol.cpp")],
     "all paths and URIs within the bounds")

C = "nixd/lib/Controller/CodeActions/"
prop("P19", "Rewriting a string keeps its value",
     "Every rewrite offered for a string, from double-quoted to indented form "
     "or back, or of a quoted part of it, yields a valid program in which the "
     "string has the same characters and the same interpolations as before and "
     "everything around it is unchanged. This covers escapes, dollars, quotes, "
     "line ends, the indentation that is stripped, and what stands next to the "
     "string.",
     ["programs"], "all strings in all valid programs",
     "Two escape syntaxes and indentation stripping interact; a lost backslash "
     "changes the built program silently. Tests rewrite a few texts.",
     [C + "RewriteString.cpp", C + "Utils.cpp"],
     [("rewriting", C + "RewriteString.cpp"), ("escapes", C + "Utils.cpp")],
     "all strings within the bounds")
prop("P20", "Refactorings of bindings keep the meaning of the program",
     "Quoting or unquoting an attribute name, converting to or from inherit, "
     "flattening or packing attribute sets and turning with into let are "
     "offered only where the edit yields a valid program that means the same: "
     "every attribute keeps its value and every name stands for the same "
     "thing. In particular no binding is lost or captured, whatever the other "
     "bindings, recursive sets, dynamic names and scopes around it.",
     ["programs"], "all valid programs and all their nodes",
     "Whether an edit keeps the meaning depends on everything around it; tests "
     "try isolated bindings. Nine ways to change or break the program were "
     "found here.",
     [C + "AttrName.cpp", C + "ConvertToInherit.cpp", C + "FlattenAttrs.cpp",
      C + "PackAttrs.cpp", C + "InheritToBinding.cpp", C + "WithToLet.cpp",
      C + "Utils.cpp"],
     [("attribute names", C + "AttrName.cpp"),
      ("inherit", C + "ConvertToInherit.cpp"),
      ("inherit to binding", C + "InheritToBinding.cpp"),
      ("flatten", C + "FlattenAttrs.cpp"), ("pack", C + "PackAttrs.cpp"),
      ("with to let", C + "WithToLet.cpp")],
     "all programs of a few bindings and scopes")
prop("P21", "Extracting an expression to a file keeps the program",
     "Where extraction to a file is offered, the new file is created under a "
     "name not taken, in the directory of the text, and is a valid program; "
     "the text with the expression replaced by its import, applied to the "
     "variables it needs, is valid and means the same as before. Names bound "
     "outside are passed on by name, those of the language are not.",
     ["programs"], "all programs, expressions and contents of the directory",
     "Which names an expression needs depends on all scopes around it, and an "
     "existing file must never be overwritten. Tests extract a few closed "
     "expressions.",
     [C + "ExtractToFile.cpp"],
     [("free variables", C + "ExtractToFile.cpp"),
      ("file names", C + "ExtractToFile.cpp")],
     "all programs within the bounds, every combination of existing files")
prop("P22", "Conversion from JSON keeps the value",
     "For every selection that is a JSON array or object with at least one "
     "element, and small enough, a conversion is offered that replaces exactly "
     "the selection by a valid Nix expression with the value of the JSON text: "
     "the same strings, keys, integers, floats, null and booleans. What Nix has "
     "no value for (zero bytes, infinite numbers) is not converted.",
     ["inputs"], "all texts and selections",
     "Numbers, escapes and keys have different syntax in the two languages; "
     "tests convert one example of each.",
     [C + "JsonToNix.cpp", C + "Utils.cpp"],
     [("conversion", C + "JsonToNix.cpp"), ("keys, escapes", C + "Utils.cpp")],
     "all JSON texts within the bounds")
prop("P23", "Adding an undefined name to the formals does just that",
     "Applying the action for an undefined name yields a valid program that "
     "differs only in one function: the innermost one around a use of the name, "
     "whose formals get exactly this one formal more, without a default. This "
     "holds for empty formals, ellipses, defaults, trailing commas and comments "
     "among them.",
     ["programs"], "all valid programs with undefined names",
     "The place and the comma depend on every form of formals; tests try five.",
     [C + "AddToFormals.cpp"],
     [("insertion", C + "AddToFormals.cpp")],
     "all formal lists within the bounds")
prop("P24", "Code actions on any text, also a broken one, end normally",
     "For every text, also one with errors, and every node of the tree found "
     "for it, asking for code actions ends normally: no out-of-bounds access, "
     "no failed assertion, no escaping exception, no endless loop. The edits of "
     "an action lie in the text and do not overlap.",
     ["inputs"], "all texts and nodes",
     "Editors ask on every move of the cursor, while the text is incomplete.",
     [C + "AttrName.cpp", C + "ConvertToInherit.cpp", C + "FlattenAttrs.cpp",
      C + "PackAttrs.cpp", C + "InheritToBinding.cpp", C + "WithToLet.cpp",
      C + "RewriteString.cpp", C + "ExtractToFile.cpp", C + "AddToFormals.cpp",
      "nixd/lib/Controller/Convert.cpp"],
     [("code actions", C + "*.cpp"),
      ("positions", "nixd/lib/Controller/Convert.cpp")],
     "all texts within the bounds")

H = "nixd/lib/Controller/"
prop("P25", "Definition, references and highlights follow the scopes",
     "In every valid program, at every position: go-to-definition on a use of a "
     "local name leads exactly to the name's definition, on one from `with` to "
     "a `with` that may provide it, and nowhere for other names. References and "
     "highlights of a name are all uses of its definition and no others "
     "(highlights also mark the definition), and nothing is found where there "
     "is no name.",
     ["programs", "inputs"], "all valid programs and positions",
     "Which definition a use belongs to depends on all enclosing scopes; tests "
     "ask at one position of a few programs.",
     [H + "Definition.cpp", H + "FindReferences.cpp",
      H + "DocumentHighlight.cpp", H + "Convert.cpp",
      "libnixf/src/Sema/VariableLookup.cpp", "libnixf/src/Sema/ParentMap.cpp"],
     [("findDefinition", H + "Definition.cpp"),
      ("references", H + "FindReferences.cpp"),
      ("highlight", H + "DocumentHighlight.cpp"),
      ("positions", H + "Convert.cpp")],
     "all programs within the bounds, every position")
prop("P26", "Renaming keeps what a program means",
     "Renaming a local name at any position of a valid program to a name not "
     "used in it gives a valid program in which the definition and exactly its "
     "uses have the new name, and every other name, also attributes that are "
     "inherited from the variable, stands for the same as before. Every local "
     "name can be renamed, nothing else can, and prepareRename says the same.",
     ["programs", "inputs"], "all valid programs and positions",
     "The edit is right only if the uses found are exactly those of the scope, "
     "for all forms of definitions; no test renames an inherited name.",
     [H + "Rename.cpp", H + "Definition.cpp", H + "Convert.cpp"],
     [("rename", H + "Rename.cpp"), ("findDefinition", H + "Definition.cpp")],
     "all programs within the bounds, every position")
prop("P27", "Every request is answered once, whatever text and workers do",
     "For every text, also a broken one, and every position, also outside of "
     "it, each language request (definition, references, highlights, rename, "
     "hover, completion, symbols, folding, semantic tokens, links, inlay hints, "
     "code actions and resolving) gets exactly one answer and ends normally, "
     "whether the workers are dead, fail or reply anything. Ranges in answers "
     "lie in the text.",
     ["inputs", "fault_sequences"], "all texts, positions and worker replies",
     "Editors ask while the text is incomplete, and one escaping exception ends "
     "the server for all open files. Tests ask about complete texts.",
     [H + "Definition.cpp", H + "FindReferences.cpp",
      H + "DocumentHighlight.cpp", H + "Rename.cpp", H + "Hover.cpp",
      H + "Completion.cpp", H + "DocumentSymbol.cpp", H + "FoldingRange.cpp",
      H + "SemanticTokens.cpp", H + "DocumentLink.cpp", H + "InlayHints.cpp",
      H + "CodeAction.cpp", H + "AST.cpp", H + "CheckReturn.h"],
     [("handlers", H + "*.cpp"), ("idioms", H + "AST.cpp")],
     "all texts within the bounds, every position, every kind of reply")

prop("P28", "Published diagnostics are those of the current text",
     "Whatever is opened, changed, closed or configured in whatever order, the "
     "diagnostics last published for an open document are those of its current "
     "text without the suppressed kinds, each with its place, severity and "
     "notes, and there are none for a closed one. This holds however the "
     "threads that handle messages and apply configurations alternate, and "
     "what is published with a version comes no later than newer versions.",
     ["inputs", "schedules", "histories"],
     "all texts, histories and interleavings at locks",
     "Two threads publish; a stale message stays on the screen until the next "
     "edit. Tests publish once, on one thread.",
     [H + "Diagnostics.cpp", H + "Support.cpp", H + "TextDocumentSync.cpp",
      H + "Configuration.cpp", H + "Convert.cpp"],
     [("publishDiagnostics", H + "Diagnostics.cpp"),
      ("actOnDocumentAdd", H + "Support.cpp"),
      ("updateSuppressed", H + "Diagnostics.cpp")],
     "all histories within the bounds")
prop("P29", "Configurations take effect completely or not at all",
     "A well-formed configuration response takes effect: diagnostics are "
     "suppressed, each live worker evaluates its expression, a worker is started "
     "once for every options entry, and the formatter is the one given. Any "
     "other response (an error, no items, another shape) changes nothing, and "
     "dead workers are skipped.",
     ["configurations", "fault_sequences"], "all response and worker states",
     "Clients answer with null, empty arrays or errors; tests send one "
     "well-formed response.",
     [H + "Configuration.cpp", H + "LifeTime.cpp", H + "Diagnostics.cpp"],
     [("updateConfig", H + "Configuration.cpp"),
      ("fetchConfig", H + "Configuration.cpp")],
     "all responses within the bounds")

prop("P30", "Semantic tokens lie on what they describe",
     "For every text, the tokens are in order, do not overlap and lie each "
     "within a line of the text, in the units of positions. In a valid program "
     "each token covers exactly one name or literal string and its type is what "
     "that is: for a variable, its definition in scope, a builtin, a `with` or "
     "nothing; no attribute name, selection, argument or variable outside of "
     "strings, defaults and inherits is left out.",
     ["inputs", "programs"], "all texts",
     "The relative encoding shifts all that follows by one wrong length; tests "
     "have ASCII texts of a few lines.",
     [H + "SemanticTokens.cpp", "nixd/lspserver/src/Protocol.cpp"],
     [("SemanticTokenBuilder", H + "SemanticTokens.cpp"),
      ("encodeTokens", "nixd/lspserver/src/Protocol.cpp")],
     "all texts within the bounds")
prop("P31", "Outline and foldings mirror the structure of the program",
     "In a valid program the outline shows attributes, functions, lists, "
     "variables and literals (outside of strings, defaults and dynamic names) "
     "with name, kind and place, each under the one it is in; sets, lists, "
     "functions, lets, withs, conditionals and strings of several lines can be "
     "folded, and nothing else. For every text, ranges lie in it, the selection "
     "of a symbol lies in its range, and no symbol has a blank name.",
     ["inputs", "programs"], "all texts",
     "Clients reject a whole outline for one symbol that violates the "
     "protocol; tests outline two programs.",
     [H + "DocumentSymbol.cpp", H + "FoldingRange.cpp"],
     [("collect", H + "DocumentSymbol.cpp"),
      ("collectFoldingRanges", H + "FoldingRange.cpp")],
     "all texts within the bounds")
prop("P32", "Links and definitions of paths lead to existing files",
     "A literal path of a program is a link, and has a definition, exactly if "
     "it names something that exists relative to the file's directory: a file, "
     "or a directory with a default.nix, which is then the target. Paths with "
     "interpolations and of the home directory lead nowhere wrong.",
     ["inputs", "configurations"], "all paths and states of the disk",
     "`.`, `..`, directories and unreadable places combine; tests follow a "
     "link or two.",
     [H + "DocumentLink.cpp", H + "PathResolve.h", H + "Definition.cpp"],
     [("resolveExprPath", H + "PathResolve.h"),
      ("links", H + "DocumentLink.cpp"),
      ("definition of paths", H + "Definition.cpp")],
     "all paths within the bounds, every state of the disk")

prop("P33", "Completion proposes the names in scope, each once",
     "In a valid program, completing a variable proposes exactly the names "
     "visible there (bindings, formals, builtins) that begin with it and can be "
     "written, each once, the innermost definition counting, and inserts that "
     "name. At most 30 are sent, the list is called incomplete if and only if "
     "that cuts some off, and where there is no name, none are proposed.",
     ["inputs", "programs"], "all programs and positions",
     "Scopes nest and shadow; tests complete one name each in a few texts.",
     [H + "Completion.cpp", "libnixf/src/Sema/VariableLookup.cpp",
      H + "AST.cpp"],
     [("VLACompletionProvider", H + "Completion.cpp"),
      ("upEnv", H + "AST.cpp"),
      ("descend", "libnixf/include/nixf/Basic/Nodes/Basic.h")],
     "all programs within the bounds")

prop("P34", "The workers are asked what the program means, and shown",
     "At a variable or selection that comes from nixpkgs, and at an option, "
     "completion, hover and definition ask the right workers about exactly that "
     "attribute path, once, and about nothing else. What they answer appears: "
     "names that begin with what is written, as valid text put where the name "
     "is, descriptions, places and, in the range asked for, versions of "
     "packages; if they fail, nothing is made up.",
     ["inputs", "programs", "fault_sequences"],
     "all programs, positions and answers",
     "Withs, bindings and sets nest, names need quotes and workers fail; the "
     "tests that have a worker follow one happy case each.",
     [H + "Completion.cpp", H + "Hover.cpp", H + "Definition.cpp",
      H + "InlayHints.cpp", H + "AST.cpp"],
     [("idioms, findAttrPath", H + "AST.cpp"),
      ("NixpkgsCompletionProvider, OptionCompletionProvider",
       H + "Completion.cpp"),
      ("hover", H + "Hover.cpp"), ("definition", H + "Definition.cpp"),
      ("hints", H + "InlayHints.cpp")],
     "all programs within the bounds, each answer of the workers")

prop("P35", "Formatting yields the command's output, and never hangs",
     "A request to format is answered once: with no edits or edits that make the "
     "document what the configured command printed when given the document on "
     "its standard input, or with an error if the document is not open or the "
     "command is missing or fails. However the command reads, prints and exits, "
     "and whatever changes meanwhile, the server neither hangs nor dies, and "
     "leaves no descriptor or process behind. The command gets the configured "
     "arguments and, of the server's pipes, only its standard streams.",
     ["inputs", "schedules", "fault_sequences"],
     "all behaviours of the command and the pipes",
     "Pipes fill up and commands exit early only with large documents and "
     "unusual commands; the test formats five lines.",
     [H + "Format.cpp", "nixd/lib/Support/ForkPiped.cpp",
      "nixd/lib/Support/AutoCloseFD.cpp"],
     [("onFormat, exchange", H + "Format.cpp"),
      ("forkPiped", "nixd/lib/Support/ForkPiped.cpp")],
     "every interleaving of server and command within the bounds")

NOT_APPLICABLE = []


def na(pid, title, statement, over, text, why, files, mech, reason):
    prop(pid, title, statement, over, text, why, files, mech, "")
    META[pid]["na"] = reason
