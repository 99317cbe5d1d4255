"""What each check explores: harness, parameters, bounds."""
from ctxs import ctx

COMMON_ASSUMPTIONS = [
    "The decision covers the paths of the code compiled by clang 18 for x86-64 "
    "with libstdc++ 13 (both translated along with the code under test), "
    "assertions enabled, for the stated bounds only.",
    "The interpreter of the instrumented code (engine/) is trusted; it is "
    "checked on every run by replaying path models and every counterexample "
    "on a plain sanitised build of the same sources.",
    "Memory allocation does not fail.",
]

NIXF = ["nixf"]


def runs(harness, groups, quick, thorough, **common):
    """quick, thorough: lists of (templates, params, seconds)."""
    def expand(L):
        out = []
        for tpls, ps, t in L:
            for x in tpls:
                d = dict(common)
                d.update(ps)
                d["tpl"] = x
                d["_t"] = t
                out.append(d)
        return out
    return dict(harness=harness, groups=groups, quick=expand(quick),
                thorough=expand(thorough))


PROPS = {}

PROPS["P01"] = dict(
    runs=[runs("p_robust", NIXF,
               [(ctx(2), dict(sema=1), 60), (ctx(3), dict(sema=0), 60),
                (["KKK", "{KKK}", "{KK:a", "{FFF}@M: x", "M@{FFFF}: x",
                  "{FFFF}: x", "{aaaaaaaa, bbbbbbbbbb, F F F F}: x", "{WW}",
                  "rec{WW}", "let WW in M", "EOE", "UEOE", "X", "\"SSS\"",
                  "\\'\\'SSS\\'\\'", "with M; let b = X; in E"],
                 dict(sema=1), 60)],
               [(ctx(3), dict(sema=1), 300), (ctx(4), dict(sema=0), 600),
                (["KKKK", "{KKK}", "[KKK]", "\"${KKK}\"", "{KKK:a", "let KKK a",
                  "(KKK)", "{WW}"], dict(sema=1), 300)])],
    reach=["tree", "no-tree", "analysed"],
    bounds="every text made of one of 39 surroundings (start of file, inside "
           "strings, sets, formals, paths, comments, ...) around any 2 bytes "
           "(parsing, diagnostics, parent map, descent at every position, "
           "variable lookup) or any 3 bytes (parsing only), and every text of "
           "3 tokens out of 53; thorough: 3, 4 bytes and 4 tokens",
    assumptions=["The builtins table is a stand-in of 12 entries, the real one "
                 "is generated with the Nix library, which is absent here."])

PROPS["P02"] = dict(
    runs=[runs("p_range", NIXF,
               [(ctx(3), {}, 60), (["KKK", "{KKK}"], {}, 60)],
               [(ctx(4), {}, 300), (["KKKK", "{KKK}", "{KKK:a"], {}, 300)]),
          runs("p_ref", NIXF,
               [(ctx(2), {}, 60), (["UEOUE", "fTaT.TbTorTc", "XOX", "E E"],
                                   {}, 60)],
               [(ctx(3), {}, 300), (["UaOUbOUc", "UEOUE", "fTaT.TbTorTc",
                                     "XOX", "E E", "[KKK]", "KKK"], {}, 300)],
               what=4)],
    reach=["tree", "diagnostic", "same-tree"],
    bounds="positions: 39 surroundings around any 3 bytes, texts of 3 tokens; "
           "exact extent of every node of a valid program: any 2 bytes in the "
           "surroundings and templates of operators, selections and trivia")

PROPS["P03"] = dict(
    runs=[runs("p_ref", NIXF,
               [(["a``b", "a```", "```a", "aTbT+Tc", "`T`", "#``\\na",
                  "/*```*/a", "/*``", "1``", "a `` b", "(```)", "[a``]",
                  "i``", "in``", "le``", "wit`", "inherit`", "or``", "x.o``",
                  "el``e", "rec``", "a:``", "ht:``", "<`/`>", "~/``", "./``",
                  "${``}", "{a`=1;}", "..`/``"], {}, 60)],
               [(["a```b", "a````", "````a", "aTbT+TcT", "`T`T`", "#```\\na",
                  "/*````*/a", "/*```", "1```", "a ``` b", "(````)", "[a```]",
                  "a:```", "<`/``>", "~/```", "./```", "..`/```"], {}, 600)],
               what=1 | 2 | 8)],
    reach=["accepted", "rejected", "same-tree"],
    bounds="up to 3 (thorough: 4) arbitrary bytes in 29 lexical surroundings")

PROPS["P04"] = dict(
    runs=[runs("p_ref", NIXF,
               [(["UaOUbOUc", "aObOcOd", "U(aOUb)Oc", "UaOUb.cOd e",
                  "a OUU b O c", "UEOUE", "if aOb then cOd else eOf",
                  "x:aObOc", "[(aOb) c]", "fOa bOc"], {}, 60)],
               [(["UaOUbOUcOUd", "aObOcOdOe", "U(aOUb)OUcOd", "UEOUE",
                  "EOEOE"], {}, 600)],
               what=1 | 2)],
    reach=["accepted", "rejected", "same-tree"],
    bounds="expressions of 4 operands and 3 operators out of all 18, unary "
           "operators and parentheses on 3 operands, pairs of 26 operand "
           "shapes (thorough: 5 operands)")

PROPS["P05"] = dict(
    runs=[runs("p_ref", NIXF,
               [(["D", "DD", "DDDD", "D223372036854775807",
                  "9223372036854775DDD", "922337203685477580DD", "922337203685477DDDD",
                  "1844674407370955161D", "DDD99999999999999999999", "D`D",
                  "0`D", "-D`", "D D", "{a=DDD;}", "DD+DD"], dict(what=17), 60),
                (["D.DeD", "DD.DD", "D.De+DD", "D.De-DD", "D.E`", "DD.",
                  "D.D`", "1D.5ED", "0`.5", "D`D`"],
                 dict(what=49, floats=1), 60)],
               [(["DDDDDD", "9223372036854DDDDDD", "9223372036854775DDDD",
                  "18446744073709551DDD", "DDDD99999999999999999999", "D`D`"],
                 dict(what=17), 300),
                (["DD.DDD", "D.De-DDD", "D.De+DDD", "D`D`D", "DD.DDeDD"],
                 dict(what=49, floats=1), 300)])],
    reach=["accepted", "rejected", "same-tree"],
    bounds="all values of up to 5 digits anywhere in decimal literals up to 23 "
           "digits, including around 2^63; floats with up to 5 free digits")

STR = ["\"SSSS\"", "\\'\\'SSSS\\'\\'", "\\'\\' \\nSSS\\'\\'", "\"```\"",
       "\\'\\'```\\'\\'", "\"a``${b}``\"", "\\'\\'a`${b}`\\'\\'", "a/`S`",
       "a/${b}``", "./``", "~/`${a}`", "<a`/`>", "h`:``", "{\"``\"=1;}",
       "a.\"``\"", "\"${\"``\"}\"", "\"$``{a}\"", "\\'\\'$``{a}\\'\\'",
       "\\'\\'\\'``\\'\\'", "\"\\\\``\"", "\"\\r`\\n`\""]
PROPS["P06"] = dict(
    runs=[runs("p_ref", NIXF, [(STR, {}, 60)],
               [(["\"SSSSS\"", "\\'\\'SSSSS\\'\\'", "\"````\"",
                  "\\'\\'````\\'\\'", "\"a``${b}`S\"", "a/`S`S", "a/${b}```",
                  "./```", "~/``${a}`", "<a`/``>", "h`:```",
                  "\\'\\'\\'```\\'\\'", "\"\\\\```\""], {}, 600)],
               what=1 | 2 | 8)],
    reach=["accepted", "rejected", "same-tree"],
    bounds="strings, indented strings, paths, search paths and URIs with up to "
           "4 (thorough: 5) free items: any byte, escape, dollar, quote or "
           "interpolation")

PROPS["P07"] = dict(
    runs=[runs("p_ref", NIXF,
               [(ctx(3), {}, 60),
                (["KKK", "{KKK}", "[KKK]", "{K:a", "{a K K b}: a", "let KKK a",
                  "a K b K c", "K K", "{ KK K }", "inherit K", "{inherit KKK}",
                  "E E", "{FF}: E", "if K then K else K", "with K;K",
                  "assert K;K", "a@K", "X", "(KKK", "assert a K K",
                  "if a K b K c", "if a then b K K", "with a K K",
                  "let a=b;K K", "let a K b K c", "{a K b K}", "{a=b K K}",
                  "{inherit (a K K", "{a K b, c K d}:e", "a.b K K",
                  "a.b.K K c", "\"${a K K", "{a.b K c K}", "{a?b K c}:d",
                  "a@{b K c}K d"], {}, 60)],
               [(ctx(4), {}, 600),
                (["KKKK", "{KKKK}", "[KKKK]", "let KKKK a", "{K K K}: K",
                  "a K b K c K d", "{inherit KKKK}", "E E E", "EKE"], {}, 600)],
               what=1 | 2)],
    reach=["accepted", "rejected", "same-tree"],
    bounds="39 surroundings around any 3 (thorough: 4) bytes; 3 (thorough: 4) "
           "tokens out of 53 in 19 surroundings")

PROPS["P08"] = dict(
    runs=[runs("p_ref", NIXF,
               [(["{WW}", "rec{WW}", "let WW in x", "{A.A=V;A=V;}",
                  "{A=V;A.A=V;}", "{A=V;A.A.A=V;}", "{a={A=V;};A.A=V;}",
                  "{inherit A A;A=V;}", "{a.a=V;inherit M;M.M=1;}",
                  "{a={W};a={b=1;};}", "{a.b.M=1;a.M.c=1;M.b.c=2;}",
                  "{M=1;M=2;M=3;}", "{a=rec{W};a.M=1;}",
                  "{a={a=1;b=2;};a={WW};}", "{M={M=1;b=2;};M={N=1;N=2;};}",
                  "{a.M=1;a={M=1;b=2;M=3;c=4;};}",
                  "{a={M=1;M=2;c=1;d=1;};a={b=1;M=2;c=3;};}"], {}, 60)],
               [(["{WWW}", "let WWW in x", "rec{WWW}", "{A=V;A=V;A=V;}",
                  "{A.A=V;A.A.A=V;A=V;}", "{a={WW};a.A=V;}"], {}, 900)],
               what=64 | 128)],
    reach=["set", "duplicate-attribute", "rec-mismatch", "dynamic-let"],
    bounds="sets and lets of 2 (thorough: 3) bindings of all forms: plain, "
           "quoted and dynamic names, paths of up to 3 names, inherit with and "
           "without a source, nested sets")

PROPS["P09"] = dict(
    runs=[runs("p_ref", NIXF,
               [(["{FF}: x", "{FFF}: x", "{FFF}@M: x", "M@{FFF}: x",
                  "{FFFF}: x", "{N,N?N,N}@N: x", "{N?``}: x", "{a``b}: x",
                  "a@{``}: x", "{```}: x", "M@{M,K K}: x", "{M,M,...}@M: x",
                  "N: {N}: x"], {}, 60)],
               [(["{FFFF}@M: x", "M@{FFFF}: x", "{FFFFF}: x", "a@{````}: x",
                  "{````}: x"], {}, 600)],
               what=1 | 2 | 256)],
    reach=["accepted", "rejected", "same-tree", "duplicate-formal",
           "argument-is-formal"],
    bounds="formal lists of up to 4 (thorough: 5) formals with and without "
           "commas, defaults, ellipses and an argument name before or after, "
           "and with any 3 (thorough: 4) bytes")

FIXP = ["KKK", "[(E)(E)]", "`(E)`", "(E)`(E)", "UEOE", "a.(E)", "{a=(E);}",
        "{inherit(E);W}", "{inherit``;}",
        "let W W in M", "let`\"M\"=1;in M", "with E;E", "with`E`;E", "a:``b",
        "let Y=Y; in Y", "builtins`.`Y", "let inherit (builtins) Y Y; in Y",
        "Y Y", "{inherit Y Y;}", "rec`{W}", "[rec{M=1;}`rec{M=N;}]", "(``)`",
        "-(E)", "a-(E)", "\"${(E)}\"", "x.${(E)}", "if(E)then(E)else(E)",
        "let inherit Y;a=1;in Z", "(M)`:``", "f(E)(E)"]
PROPS["P10"] = dict(
    runs=[runs("p_fix", NIXF,
               [(ctx(2) + FIXP, dict(what=5), 60),
                (ctx(2) + ["KKK", "{a K K b}: a", "{FFFF}: x", "let K K K",
                           "if K K K", "{KKK}"], dict(what=12), 60),
                (["-"], dict(what=16), 60)],
               [(ctx(3) + FIXP + ["[(E)(E)(E)]", "let WW in M", "KKKK"],
                 dict(what=5), 300),
                (ctx(3) + ["KKKK", "{a K K K b}: a", "{FFFFF}: x", "if K K K K",
                           "{KKK a}", "let K K K in K"], dict(what=12), 300),
                (["-"], dict(what=16), 60)])],
    reach=["fix", "fix-in-program", "error-fix", "keyword-fix", "old-let-fix"],
    bounds="all fixes of programs with any 2 (thorough: 3) bytes in 39 "
           "surroundings and of 30 shapes around redundant parentheses, unused "
           "names, withs, recs, empty inherits, builtins prefixes and URLs; "
           "all fixes of broken texts with any 2 (3) bytes, 3 (4) tokens out "
           "of 53 or 4 (5) formals; 23310 old lets",
    assumptions=["The builtins table is a stand-in of 12 entries."])

NODE = ["a+b", "[a(b)]", "X", "let W in M", "let WW in M", "rec{WW}",
        "{FF}@a:E", "EOE", "\"SSS\"", "\\'\\'SSS\\'\\'", "aTbTcT", "XOX", "X X",
        "if E then\\nE else E", "with E; E", "{M=E;M.M=E;}", "E.M or E",
        "{FF}: E", "a/${E}/b", "E ? M.${E}", "[E E]", "{inherit(E)M M;}"]
PROPS["P13"] = dict(
    runs=[runs("p_node", NIXF,
               [(ctx(2) + NODE, dict(what=3), 60),
                (["KKK", "{KKK}", "let KKK"], dict(what=1), 60)],
               [(ctx(3) + NODE + ["KKK", "UEOEOE", "{WW}", "X X X", "{FFF}: X"],
                 dict(what=3), 300),
                (["KKKK", "{KKK}", "let KKK", "{KKK}: a", "[KKK]"],
                 dict(what=1), 300)])],
    reach=["parents", "selection"],
    bounds="every selection, from any offset to any later one, in programs of "
           "any 2 (thorough: 3) bytes in 39 surroundings and 22 shapes of "
           "expressions; every node of any such text and of 3 (4) tokens")

SCOPE = ["R", "let WW in M", "rec{WW}", "{M,N?Z}@a: Z", "c@{M,N?Z}: Z", "with Z; with M; Z",
         "(M: Z) Z", "rec{a=rec{W};a.M=N;}", "rec{a.M=N;a.N=M;N=Z;}",
         "M: N: Z", "with a; R", "let M=1; in R", "let a.M=N;b=Z;in Z",
         "rec{inherit(M)N;inherit M;N=Z;}", "let \"M\"=N; in Z",
         "\\'\\'${Z}${N}\\'\\'", "[Z Z]", "Z.${Z}", "Z?${Z}", "assert Z; Z",
         "Z + Z", "./a/${Z}", "if M then Z else Z", "{M?Z,N?M,...}: N",
         "rec { inherit (Z) M; inherit (M) N; }", "rec { ${M}=Z; M=N; }",
         "{ ${Z}.M=Z; }", "let inherit (Z) M; in Z", "M@{N}: Z",
         "{a=rec{M=N;};a={N=Z;};}", "let M=N; in with M; with b; let a=N; in Z"]
SCOPE_T = ["let M=Z;N=Z;in Z", "rec{A=Z;M.M=Z;}", "{M?Z,N?M,...}: Z",
           "with Z; with Z; Z", "let inherit (Z) M N; in Z",
           "let a.M=Z; a.N=b; b=Z; in Z", "M: N: R", "if Z then Z else Z",
           "rec { ${Z}=Z; M=Z; }", "let WW in R", "with R; R", "{M?R}: R",
           "rec{WWW}"]
PRIM = ["let Y=Y; in Y", "Y: Y", "builtins.Y", "builtins.Y or Y",
        "let inherit (Y) Y; in Y.Y", "rec{inherit(builtins)Y;inherit Y;}",
        "{Y,Y}: builtins.Y", "builtins.NNN", "Y: builtins.Y",
        "let inherit (builtins) Y Y; in Y", "Y: let inherit (builtins) Y; in Y",
        "with Y; builtins.Y", "Y@{Y?Y}: Y", "rec {Y=Y;Y=builtins.Y;}",
        "builtins.\"Y\"", "builtins.Y.Y", "(builtins).Y", "NN", "__N", "``",
        "{inherit (builtins) Y Y;}", "let Y=1;in with Y; Y",
        "let inherit (let Y=1; in builtins) Y; in builtins.Y"]
PRIMOPS = ["The builtins table is a stand-in of 12 entries of the real shape; "
           "the real one is generated with the Nix library, absent here."]
PROPS["P11"] = dict(
    runs=[runs("p_scope", NIXF, [(SCOPE, {}, 60)],
               [(SCOPE + SCOPE_T, {}, 600)], what=1)],
    reach=["program", "defined", "from-with", "undefined"],
    bounds="programs of nested functions, lets, recursive and plain sets, "
           "withs, inherits, dynamic names and interpolations with all "
           "choices of two names for definitions and uses, 2-3 scopes deep",
    assumptions=PRIMOPS)
PROPS["P12"] = dict(
    runs=[runs("p_scope", NIXF, [(SCOPE, dict(what=2), 60),
                                 (PRIM, dict(what=6), 60)],
               [(SCOPE + SCOPE_T, dict(what=6), 600),
                (["let Y=Y; Y=Y; in builtins.Y", "Y: Y: builtins.Y or Y",
                  "rec{inherit (Y) Y Y; Y=builtins.Y;}", "```"],
                 dict(what=6), 300)])],
    reach=["program", "unused", "extra-rec", "extra-with", "undefined-report",
           "prefix-report", "overridden", "removable", "unknown-builtin"],
    bounds="the programs of P11, and programs with all choices of eight names "
           "(local, builtin, needing a prefix, constant) at definitions, uses "
           "and after builtins.",
    assumptions=PRIMOPS)

LSP = ["lsp"]
X = ["x"]
ENVA = ["Out-of-line LLVM support code (streams, JSON, string maps, formatting) "
        "is represented by stand-ins in engine/shims_llvm.cpp; sample paths "
        "and every counterexample are replayed against the real LLVM library."]


def lsp(harness, quick, thorough, **kw):
    """quick, thorough: lists of "k=v k=v" strings, optionally with seconds."""
    def one(L, t):
        out = []
        for s in L:
            s, tl = s if isinstance(s, tuple) else (s, t)
            d = {}
            for kv in s.split():
                k, v = kv.split("=")
                d[k] = int(v)
            d["_t"] = tl
            d["tpl"] = "x"
            out.append(d)
        return out
    return dict(runs=[dict(harness=harness, groups=LSP, quick=one(quick, 60),
                           thorough=one(thorough, 600))],
                assumptions=ENVA, **kw)


PROPS["P14"] = lsp(
    "p_pos",
    ["what=1 n=2", "what=1 n=4 fold=1", "what=2 n=4 fold=1", "what=2 n=2"],
    ["what=1 n=3", "what=1 n=5 fold=1", "what=1 n=6 fold=1", "what=2 n=3",
     "what=2 n=6 fold=1"],
    reach=["valid-text", "any-bytes"],
    bounds="every valid UTF-8 text of 4 (thorough: 6) characters of any length "
           "in bytes, line ends among them, all positions in and around it, "
           "columns up to 2^32; every byte string of 4 (6) bytes")
PROPS["P15"] = lsp(
    "p_draft",
    ["what=1 n=1 m=1", "what=1 n=2 m=1 fold=1", "what=2 n=3 fold=1",
     "what=2 n=2", "what=4 n=2", "what=4 n=3", "what=4 n=0 enc=1"],
    ["what=1 n=2 m=1", "what=1 n=3 m=2 fold=1", "what=1 n=4 m=1 fold=1",
     "what=2 n=4 fold=1", "what=2 n=5 fold=1", "what=4 n=4",
     "what=4 n=0 enc=255"],
    reach=["change", "store", "version"],
    bounds="one change with any two positions in and around any valid text of "
           "2 (thorough: 4) characters, right or wrong length given; 3 (5) "
           "operations on two documents; versions of 3 (4) bytes, numbers of "
           "9 (16) bits")
PROPS["P16"] = lsp(
    "p_conn",
    ["what=1 count=1 n=1", "what=1 count=1 n=2 fold=1",
     "what=1 count=1 n=1 styles=-1 kinds=-1 budget=1 steps=150 fold=1",
     "what=1 count=1 n=1 styles=-3 kinds=-2 budget=1 steps=100 fold=1",
     "what=1 count=2 n=1 styles=-2 fold=1",
     "what=1 count=2 n=0 kinds=-1 styles=-1 budget=1 fold=1",
     "what=1 count=2 n=0 cut=1 styles=-1 kinds=-3 fold=1",
     "what=1 count=2 n=0 stop=1 fold=1",
     "what=1 count=2 n=0 stop=2 styles=-1 fold=1",
     "what=1 count=2 n=0 stop=3 styles=-1 fold=1",
     "what=2 count=2 n=1", "what=2 count=2 n=2 fold=1",
     "what=3 n=1", "what=3 n=2", "what=3 n=3 fold=1"],
    ["what=1 count=1 n=2", "what=1 count=1 n=1 budget=1 fold=1",
     "what=1 count=1 n=0 kinds=-1 styles=-1 budget=2 steps=150 fold=1",
     "what=1 count=2 n=1 fold=1",
     "what=1 count=3 n=0 kinds=-1 styles=-2 budget=1 fold=1",
     "what=1 count=2 n=0 cut=1 styles=-1 kinds=-3 budget=1 fold=1",
     "what=1 count=2 n=0 stop=2 fold=1", "what=1 count=2 n=0 stop=3 fold=1",
     "what=2 count=2 n=1 budget=1 steps=100 fold=1",
     "what=2 count=3 n=1 fold=1", "what=2 count=2 n=3 fold=1",
     "what=3 n=3", "what=3 n=4 fold=1"],
    reach=["stream", "stopped", "lit", "any"],
    bounds="one or two (thorough: three) messages of 5 kinds under 5 forms of "
           "header with 1-2 (3) free characters of text; one (two) "
           "interruptions, timeouts or short reads at any call; hang-up before "
           "or after the data is read; streams cut at any byte; stop requests "
           "and client death at any byte; Markdown of 2 (3) blocks; any 3 "
           "(4) bytes around headers")
PROPS["P17"] = lsp(
    "p_server",
    ["what=1 n=1 floats=1", "what=1 n=2 floats=1 fold=1", "what=1 n=2 floats=1",
     "what=2", "what=3 n=1", "what=3 n=3 fold=1"],
    ["what=1 n=3 floats=1 fold=1", "what=1 n=3 first=10 floats=1",
     "what=1 n=4 first=10 floats=1 fold=1", "what=2 n=120", "what=3 n=2",
     "what=3 n=4 fold=1"],
    reach=["messages", "many", "written"],
    bounds="sequences of 2 (thorough: 3) messages out of 16 kinds with free "
           "IDs and texts, sent in both orders; 104 (120) calls to the client "
           "at once; any valid text of 3 (4) characters written")
PROPS["P18"] = lsp(
    "p_uri",
    ["what=1 n=1", "what=1 n=2", "what=1 n=3 fold=1", "what=2 n=1",
     "what=2 n=2 fold=1"],
    ["what=1 n=3", "what=1 n=4 fold=1", "what=2 n=2", "what=2 n=3 fold=1"],
    reach=["path", "uri", "no-file"],
    bounds="every absolute path of 6 beginnings and 3 (thorough: 4) free bytes; "
           "every URI of 7 beginnings, 2 (3) free characters and 3 ends")

CA = ["nixf", "lsp", "ca"]


def act(mask, quick, thorough, more=(), tmore=(), qt=60, tt=600, **kw):
    """Code actions `mask` on the templates; more: (templates, params)."""
    P = dict(act=mask, what=1)
    return dict(
        runs=[runs("p_act", CA,
                   [(quick, P, qt)] + [(t, dict(P, **p), qt) for t, p in more],
                   [(thorough, P, tt)] + [(t, dict(P, **p), tt)
                                          for t, p in tmore])],
        assumptions=ENVA, **kw)


PROPS["P19"] = act(
    32,
    ["\"````\"", "\"SSSS\"", "\\'\\'SSSS\\'\\'", "\\'\\'````\\'\\'",
     "\\'\\'SS${a}SS\\'\\'", "\"SS${a}SS\"", "a`\"b\"`", "a`\\'\\'b\\'\\'`",
     "\\'\\'\\n  a\\n `\\n `\\'\\'", "\"a\\n`${b}`\"", "{a.\"``\"=\"``\";}",
     "\\'\\'\\n `\\n  ${a}`\\n\\'\\'"],
    ["\"`````\"", "\"SSSSS\"", "\\'\\'SSSSS\\'\\'", "\\'\\'`````\\'\\'",
     "\\'\\'SSS${a}SS\\'\\'", "\"SS${a}SSS\"", "a``\"b\"``",
     "a``\\'\\'b\\'\\'``", "\\'\\'\\n ``a\\n ``\\n `\\'\\'"],
    reach=["action", "action-in-program"],
    bounds="strings of both forms with 4 (thorough: 5) free bytes or items "
           "(escapes, dollars, quotes, line ends, interpolations), with and "
           "without indentation, next to any byte")

BIND = ["{a`\"M\"`.b=1;}", "x`\"b\"`c", "x.\"b\"```c", "{\"```\"=1;}",
        "``.\"b\"", "{a.\"``\"=1;}", "{\"```\".b=1;}", "x ? \"``\"",
        "let \"``\"=1;in M"]
INH = ["{inherit `;}", "let inherit `;in 1", "{inherit(```)x;}",
       "{inherit\"``\";}", "{inherit(a)\"``\";}", "{inherit(E)x;}",
       "rec{inherit T(x)T M;}", "rec{inherit M;N=1;}",
       "let inherit M N;in N", "{inherit(x)M N;W}", "let inherit(Z)M;in M"]
PACK = ["{a.b=1;WA.c=1;}", "{A.A=V;A.A=V;}", "{a.M=V;W}", "{b=V;b.c=2;W}",
        "{a.c={inherit T(x)T M;};a.d=1;}", "{a.\"`\"=1;a.\"``\"=2;}",
        "{a=V;a=V;W}", "rec{a.b=M;W}", "{a.b.c=1;a.M.M=2;}", "let a.b=1;W in a"]
FLAT = ["{a={A=V;W};b=M;}", "{a=x``.a;}", "{a.b={A=E;A.c=1;};}",
        "rec{a={A=V;};M=N;}", "let a={A=V;};in M", "{a=(x).M;}", "{M=x.N.M;}",
        "{a={W};a.M=1;}"]
WITH = ["with R;M", "with M;R", "let M=1;in with N;with M;Z", "with M;[N(M)]",
        "with`M`;N", "[(with M;N)N]", "M: with N;Z", "with(E);M", "with E;M"]
PROPS["P20"] = act(
    0,
    [], [],
    [(BIND, dict(act=1)), (INH, dict(act=16)), (PACK, dict(act=8)),
     (FLAT, dict(act=6)), (WITH, dict(act=128))],
    [(BIND + ["{\"````\"=1;}", "{a.\"```\"=1;}", "```.\"b\""], dict(act=1)),
     (INH + ["rec{inherit M;W}", "{inherit```;}", "let inherit(R)M;in Z"],
      dict(act=16)),
     (PACK + ["{A.A=V;WA.A=V;}", "{a.b=V;a.c=V;WW}", "rec{A.A=M;A.A=N;W}"],
      dict(act=8)),
     (FLAT + ["{a={A=V;A=V;W};}", "rec{a={W};W}", "let a={WW};in Z"],
      dict(act=6)),
     (WITH + ["with R;Z", "with Z;R", "let M=1;in with R;Z"], dict(act=128))],
    reach=["action", "action-in-program"],
    bounds="every action on every node of sets, lets, selections, inherits and "
           "withs with 2-3 (thorough: 3-4) bindings of all forms: plain, quoted "
           "and dynamic names of up to 3 free bytes, nested and recursive sets, "
           "inherits with and without a source, scopes 2-3 deep with all "
           "choices of two names")
EXT = ["`{a=1;}`", "M:`(M)`", "M:R", "let A=V;in A", "{a=V;A=V;A.c=V;}",
       "with M;with N;[M]", "E", "M:[E]", "let M=1;in[N(M)]", "rec{M=[N];}",
       "M@{N}: [M N]", "{a.b.M=M: N;}", "x``.a", "let inherit(a)M;in[M]"]
PROPS["P21"] = act(
    64, EXT,
    EXT + ["``{a=1;}``", "let W in R", "M:N:R", "with M;R", "{WW}", "M:[E E]"],
    [(["{a=[1];M=2;}", "{\"```\"=[1];}", "[(x: M)]"], dict(uri=1))],
    [(["{a=[1];M=2;}", "{\"````\"=[1];}", "M:[(x: N)]"], dict(uri=1))],
    reach=["action", "action-in-program", "extracted"],
    bounds="every expression of programs of functions, sets, lets, withs and "
           "inherits 2-3 scopes deep with all choices of two names and of 26 "
           "kinds of operand, with any bytes around it; each file that is "
           "looked for exists or not")
JSON = ["[1]", "[\"``\"]", "[-D]", "[-0,D]", "[1e100]", "[1.5,-2.5e-7]",
        "[-9223372036854775808]", "{\"\":-9223372036854775808}",
        "[9223372036854775807,18446744073709551615]", "[\"\\\\u00`0\"]",
        "[\"\\\\`\"]", "{\"``\":1}", "[1e999]", "[D.D]", "[DeD]", "[De2D]",
        "[D.De-D]", "[-D7]", "{\"M\":1,\"N\":2,\"c\":null}",
        "{\"a\":[{\"b\":`}],\"c\":[[]]}", "[\"$`\",\"`{\"]",
        "[\"\\\\ud8`4\\\\udd1e\"]", "[ `,`]"]
JSEL = ["[1]", "```", "x={\"a\":1}", "[[1]]`", "{\"a\":[1,2]}\\n[`]",
        "[1,\\n2]`", "{\"`\":[]}{}"]
JMID = ["x = [\"``\",null];", "x\\n= {\"a\":tru`};", "\\\"𝄞\"[{\"é\":\"𝄞``\"}]`"]
PROPS["P22"] = dict(
    runs=[runs("p_json", CA,
               [(JSON, dict(what=1), 60), (JSEL, dict(what=2), 60),
                ([JMID[0], JMID[1]], {"what": 1, "from": 4, "upto": 1}, 60),
                ([JMID[2]], {"what": 1, "from": 6, "upto": 1}, 60)],
               [(["[``]", "[-DD]", "[\"```\"]", "{\"``\":1,\"``\":2}", "[\"\\\\u`0`0\"]",
                  "{\"```\":[\"`\"]}", "[\"\\\\ud8``\\\\udd``\"]", "[D.DDeD]"],
                 dict(what=1), 600),
                (["[1,```", "{\"a\":[1,`]}\\n[`]", "[[``]]"], dict(what=2),
                 600)],
               floats=1)],
    reach=["converted"],
    bounds="JSON of up to 3 levels with 2 (thorough: 3) free characters in "
           "strings, keys and escapes, integers of all lengths, floats of 3 "
           "free digits; every selection of 7 (10) texts",
    assumptions=ENVA)
FORM = ["{F}:a", "{FFF}:M", "{FF}:{FF}: N", "M:{T}T:b", "{ToT}T:b",
        "{TaTbT}: c", "{a,}:b", "{a?E}:N", "M@{FF}:N", "{FF}@c: N",
        "{a}:with M;[N M]", "{a}:{M=R;}", "let a=1;in{}:N", "{a?N,b?M}:N",
        "{a``}:b", "{``}:b", "{a}:x:b", "{a}:let W in N", "{a?x:```}:b"]
PROPS["P23"] = act(
    256, FORM,
    FORM + ["{FFF}:{FF}:[NN]", "{FFFF}:M", "{a```}:b", "{```}:b", "{FF}:R",
            "M@{FFF}:[N M]"],
    reach=["action", "formal"],
    bounds="formal lists of up to 3 (thorough: 4) formals with and without "
           "defaults, ellipses, trailing commas, comments and argument names, "
           "or with any 2 (3) bytes, in nested functions with bodies 1-2 scopes "
           "deep")
PROPS["P24"] = dict(
    runs=[runs("p_act", CA,
               [(ctx(2), {}, 60), (["KKK", "{KKK}"], {}, 60),
                (["``", "{``=1;}", "x.``", "{a.``", "let `=`;in", "\"``\""],
                 dict(hi=255), 60)],
               [(ctx(3), {}, 600), (["KKKK", "{KKKK", "let KKK", "{inheritKKK",
                                     "{a.KKK", "K{KK}"], {}, 600),
                (["```", "{```=1;}", "x.```", "{a.```", "\"```\""],
                 dict(hi=255), 300)],
               act=511, what=2)],
    reach=["action"],
    bounds="every action on every node of any text of 39 surroundings around "
           "any 2 (thorough: 3) characters or of 3 (4) tokens out of 53; 6 "
           "texts with any bytes, valid UTF-8 or not",
    assumptions=ENVA)

CTL = ["nixf", "lsp", "ca", "ctl"]
ENVC = ENVA + [
    "The pool of threads is represented by calls in place (or by a queue that "
    "the harness runs), the file system by answers chosen by the solver, the "
    "evaluation workers by clients that are dead or reply what the solver "
    "chooses (harness/stubs, harness/ctl.h)."]
NAMES = ["rec{N=N;M=N;}", "rec{\"N\"=N;b=a;}", "{...}:Z", "{M?N,c}:[N c]",
         "let M=1;in with N;[M N]", "with M;with N;M",
         "let inherit(N)M c;in N", "let a=1;in{inherit M;c=N;}",
         "let M.c=1;N.d=2;in[M N]", "let a={b=M;};a.c=N;in a",
         "let M=1;\\nN=2;in /*é*/ N", "M: \"😀${N}\"",
         "\'\'\\n${N}\'\'+(let M=1;in N)", "M@{N?M}:[M N]", "builtins.M",
         "{a=rec{M.c=N;};a.M.d=2;}", "rec{inherit({inherit N b;})N;b=N;}",
         "let W in M", "{F}:a", "let \"a\"=1;N.\"b\"=M;in a",
         "let a=1;in rec{inherit M N;c=a;}"]
NAMES2 = ["R", "let M=R;in N", "rec{W W}", "let W W in N", "{F F}:Z",
          "{F}:R", "with{W};Z", "let W in{W}", "M:let N=Z;in R"]
NAMEB = ("programs of up to 3 scopes (functions with all forms of arguments, "
         "lets, recursive sets, withs, inherits with and without a source, "
         "merged and quoted attributes) with all choices of two or three "
         "names, every position in them, lines and columns after characters "
         "of 1-4 bytes")
PROPS["P25"] = dict(
    runs=[runs("p_name", CTL, [(NAMES + ["Y", "(builtins)Y"], {}, 60)],
               [(NAMES2, {}, 600)], what=1, ticks=30000)],
    reach=["used-name", "with-name", "undefined-name", "no-name"],
    bounds=NAMEB, assumptions=ENVC)
PROPS["P26"] = dict(
    runs=[runs("p_name", CTL, [(NAMES, {}, 60)], [(NAMES2, {}, 600)], what=2,
               ticks=30000)],
    reach=["program", "rename"], bounds=NAMEB, assumptions=ENVC)
PROPS["P27"] = dict(
    runs=[runs("p_req", CTL,
               [(ctx(1), {}, 60), (["K K", "{K K}", "{K,K}:a"], {}, 60),
                (["AAA", "{XX}", "``"], dict(op=511), 60),
                (["\"é`\";a", "{inherit (\"😀\")`;}"], dict(hi=255), 60),
                (["pkgs.a", "with pkgs;M", "{inherit(pkgs)M;}", "{a.M=b.}",
                  "with lib;{a=a.b or c;}", "{a=M;b.c=\"\";}"],
                 dict(worker=1, op=767), 60)],
               [(ctx(2), {}, 300),
                (["K K K", "let K K in a", "{a=K K;}", "{inherit K K;}",
                  "with K;K", "{${K}K}", "{a.K K}"], {}, 600),
                (["AAA", "{XX}", "``", "XX"], dict(op=511), 300),
                (["with pkgs;[K.c.d]", "pkgs.KK", "{a.KM}"],
                 dict(worker=1, op=767), 600)],
               ticks=30000),
          runs("p_name", CTL, [(["W", "{WM", "let W K", "K{K}", "{a=1;W"], {}, 60)],
               [(["WW", "{WW", "WWW", "{K W", "{FF}K", "let W K K"], {}, 600)],
               what=4, ticks=30000)],
    reach=["text", "program"],
    bounds="all requests at all positions of a text: 39 surroundings around "
           "any character (thorough: two characters), 2 (3) tokens out of 53, "
           "and 1-3 free constructs; the workers dead, or alive with any of "
           "4 x 3 x 3 kinds of replies, errors among them; files that exist or "
           "not; positions outside of the text",
    assumptions=ENVC)

DIAG = ["`é`", "(1`", "{a=1;a=`;}", "\"é`\"", "K K", "{F F}:Y", "({`}: 1)",
        "XX", "rec{A=M;}", "with `;1", "let a=1;\\n`in b", "\'\'é`\'\'"]
PROPS["P28"] = dict(
    runs=[runs("p_diag", CTL, [(DIAG, {}, 60)],
               [(["let W W in M", "K K K", "{F F F}:M", "{`}`", "``;", "{A=X;A=X;}",
                  "let F in {F}: M", "(``)"], {}, 600)],
               what=1, ticks=30000),
          runs("p_diag", CTL, [([""], dict(n=2), 60), ([""], dict(n=3), 60)],
               [([""], dict(n=4), 1200), ([""], dict(n=3, switches=2), 1200),
                ([""], dict(n=3, texts=5), 600)],
               what=2, ticks=30000)],
    reach=["text", "diagnostics", "history", "switch"],
    bounds="one document: any 1-2 characters in 12 surroundings (thorough: "
           "2-3 constructs), one of the first three kinds of its diagnostics "
           "suppressed, shown again, closed; histories of 3 (4) messages "
           "(texts, closing, configurations) on two documents with tasks of the "
           "pool running at 1 (2) of the lock operations, in any order",
    assumptions=ENVC + ["Threads change turns where one takes or releases a "
                        "mutex; no other interleaving is represented."])
PROPS["P29"] = dict(
    runs=[runs("p_diag", CTL, [([""], dict(n=1), 60), ([""], dict(n=2), 60)],
               [([""], dict(n=3), 1200)], what=4, ticks=30000)],
    reach=["good", "bad"],
    bounds="2 (thorough: 3) responses in a row, each of 11 shapes of "
           "configurations in 5 shapes of responses with a free character in "
           "each text; each of the workers alive or dead",
    assumptions=ENVC)

VIEW = ["let W in M", "{A=Y;}", "a.A or \"s\"", "a ? A", "X", "\"é`\"",
        "[\\nX\\n]", "{a=M: N;b.c=\"é\";}", "a@{M?N,c}:[N c]", "with Y;Y",
        "{F F}:Y", "\'\'``\'\'", "let\\na=\'\'\\n`\'\';in\\n[\\na]",
        "a:\\n{b\\n?c}:X", "{inherit(x)M;N.\"b\"={};}", "/*😀*/M+\"\\\\n\"",
        "if\\nM then{\\n}else with\\nY;N", "{a.${M}=1;${N}.b=2;}", "R",
        "let true=1;in[true M]", "{x=M;}.x.y\\n.z", "[1.5 N -M]",
        "(\"a${\"b\"}c\")", "{a=\"\";\"\"=\" \";}"]
VIEWANY = ["K K", "{K K}", "let W K", "{inherit K K;}", "`"]
VIEW2 = ["{W W}", "let W W in M", "rec{A.A=Y;A=Y;}", "{W b=1;}.A",
         "{F F F}:Y", "[\\nXX]", "\"``é\"", "let W in{W}"]
VIEWB = ("24 shapes of programs with free names, attribute names, values, "
         "bindings, formals, constants and string bytes; any two tokens out of "
         "53 in 4 surroundings and any byte (well-formedness of the answer); "
         "thorough: two bindings, three formals or tokens")
PROPS["P30"] = dict(
    runs=[runs("p_view", CTL, [(VIEW, {}, 60), (VIEWANY, dict(any=1), 60)],
               [(VIEW2, {}, 600), (["K K K", "``", "{F F K"], dict(any=1), 600)],
               what=1, conc=1, ticks=30000)],
    reach=["program", "tokens"], bounds=VIEWB, assumptions=ENVC)
PROPS["P31"] = dict(
    runs=[runs("p_view", CTL, [(VIEW, {}, 60), (VIEWANY, dict(any=1), 60)],
               [(VIEW2, {}, 600), (["K K K", "``", "{F F K"], dict(any=1), 600)],
               what=6, conc=1, ticks=30000)],
    reach=["program", "outline", "foldings", "multi-line"], bounds=VIEWB,
    assumptions=ENVC)
PROPS["P32"] = dict(
    runs=[runs("p_view", CTL,
               [(["./``", "../`/`", "/`/`", "a/``", "\"é${./`}\"", "~/`", "<`>",
                  "./a${b}`", "{a=./M;b=./N/..;}", "../../M/../N", "./.",
                  "{inherit(./M)a;${./N}=1;}", "{a?./M}:./N", "a ? \"${./M}\"",
                  "K/K", "K./K", "[./a/./M\\n\"😀\" ../../d/f.nix]"], {}, 60)],
               [(["./```", "a/``/`", "``/`", "K./K/K"], {}, 600)],
               what=8, conc=1, any=1, ticks=30000)],
    reach=["program", "links", "definition"],
    bounds="17 (thorough: 21) shapes of texts with paths of up to 5 components "
           "and 2 (3) free bytes; what the disk has at each place (nothing, a "
           "file, a directory, an error) is free for two places per run",
    assumptions=ENVC + ["No symbolic links."])

COMP = ["let a=1;in a", "let MN=1;ac=2;in N", "m: map: m",
        "let \"a b\"=1;\"if\"=2;in[a i]", "x: with x; a", "{M?N}@a: N",
        "M: M: N", "{ab=abs;M.N=M;}", "rec{ab=a;M=N;}", "let W in M",
        "{inherit M;inherit(M)N;}", "let W in\"é${M}\"", "[isFunction MN]",
        "let " + "".join("a%d=1;" % I for I in range(32)) + "in[a a2 M]",
        "a_:b-:[M-N]", "if M then N else b", "X", "{F F}:M"]
PROPS["P33"] = dict(
    runs=[runs("p_comp", CTL, [(COMP, {}, 60)],
               [(["let W W in M", "let MMM=1;MN=2;in MN", "rec{W W}",
                  "MM: MMM: MMM", "{F F F}:MN"], {}, 600)],
               what=1, conc=1, ticks=30000)],
    reach=["program", "name"],
    bounds="18 (thorough: 23) shapes of programs with free names, bindings, "
           "formals and values; completion at every position of each",
    assumptions=ENVC + ["The workers are not alive (see P34)."])

PKGS = ["pkgs.a", "with pkgs;[a lib.b]", "lib.a.b", "pkgs.a.M",
        "with pkgs;with lib;a", "with pkgs.a;b", "{pkgs}: pkgs.a or b",
        "with pkgs;let a=1;in[a b]", "with lib;with x;pkgs.M",
        "{pkgs,...}:\\n{M=with pkgs;[/*é*/N];}", "a.${x}.b+pkgs.${x}.b",
        "let pkgs=x;in with pkgs.lib;\"😀${a.b}\"", "(pkgs).M"]
OPTS = ["{a.M=1;}", "{a={b.M={};};}", "{config.a.M=1;}", "{config=1;}",
        "let a={b=1;};in{c=1;}", "{${x}.a=1;}", "c: {a=c: {b=1;};}",
        "{inherit({a=1;})b;${M}={c=1;};\"d e\"={f=1;};}", "{a=rec{b=1;};}"]
def nexts(*L):
    return [([T], dict(q=Q, back=B, kind=K), 60) for T, Q, B, K in L]
PROPS["P34"] = dict(
    runs=[runs("p_comp", CTL, [(PKGS, {}, 60)],
               [(["{pkgs,...}:{M=with pkgs;[N pkgs.N.i];}", "{pkgs,lib}:W",
                  "with Y;with pkgs;N"], {}, 600)],
               what=2, conc=1, ticks=30000),
          runs("p_comp", CTL, [(OPTS, {}, 60)],
               [(["{W}", "{A.M=1;A={N=1;};}"], {}, 600)],
               what=4, conc=1, ticks=30000),
          runs("p_comp", CTL, nexts(
              ("pkgs.", "", 0, "a"), ("lib.a.", "lib.a.", 0, "a"),
              ("[lib. ]", "lib.", 2, "a"), ("with pkgs;[lib.]", "lib.", 1, "a"),
              ("x: with pkgs;[(lib.)]", "lib.", 2, "a"),
              ("let x=lib.;in x", "lib.", 5, "a"), ("lib: lib.\\n", "lib.", 1, "a"),
              ("{x=pkgs.a.;}", "a.", 2, "a"), ("with lib;a", "lib.a", 0, "a"),
              ("{a.}", "a.", 1, "A"), ("{a. }", "a.", 2, "A"),
              ("{}", "", 1, "A"), ("{\\n\\n}", "", 2, "A"),
              ("{a={};}", "a.", 3, "A"), ("{a={b.};}", "a.b.", 3, "A"),
              ("{a.b}", "a.b", 1, "A"), ("{config.a.}", "a.", 1, "A")), [],
               what=8, conc=1, ticks=30000)],
    reach=["known", "unknown", "proposal", "hover", "hint", "option",
           "no-option", "options", "unfinished"],
    bounds="13 (thorough: 16) shapes of programs that use nixpkgs, 9 (11) sets "
           "of options, 17 unfinished texts; the worker fails or answers one of "
           "4 (nixpkgs) or 6 (options) shapes of descriptions; one or two "
           "option workers, clients with and without snippets",
    assumptions=ENVC + ["The workers are represented by what they answer."])

def fmt(*L):
    return [(["x"], dict(p), t) for p, t in L]
PROPS["P35"] = dict(
    runs=[runs("p_fmt", CTL + ["fmt"], fmt(
        (dict(ops=2), 100), (dict(ops=0, faults=1), 30),
        (dict(ops=1, budget=1, steps=16, sizes=2), 100)), fmt(
            (dict(ops=3), 900),
            (dict(ops=1, budget=2, steps=20, sizes=2), 600),
            (dict(ops=2, budget=1, steps=60, sizes=2), 600)))],
    reach=["same", "changed", "long", "failed", "fault", "refused",
           "no-command", "changed-meanwhile"],
    bounds="documents of 0, 1, 3 and 70000 bytes; commands that do up to 2 "
           "(thorough: 3) of: read some, read all, copy, print what was read, "
           "print a byte or 70000, complain 70000 bytes, and then exit with any "
           "code or are killed, running as early or as late as possible; one "
           "(two) disturbed system calls: EINTR, less than asked for, the "
           "command takes a step, the document and configuration change; pipes "
           "hold 65536 bytes",
    assumptions=ENVC + [
        "System calls on pipes and processes behave as harness/fmt.h says "
        "(POSIX pipes with the sizes of Linux); the command closes nothing "
        "before it exits and leaves no process behind that holds its pipes."])
