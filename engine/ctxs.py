"""Surroundings in which arbitrary bytes are placed: (before, after)."""
CTXS = [
    ("", ""), ('"', '"'), ("''", "''"), ("{ ", " }"), ("{a=", ";}"), ("a/", ""),
    ("let ", " in a"), ("{a", "}:a"), ('"${', '}"'), ("a ", " b"),
    ("[ ", " ]"), ("1", ""), ("/*", "*/a"), ("#", "\\na"),
    ("{ inherit ", "; }"), ("a.", " or b"), ("''${", "}''"), ("a@{", "}:a"),
    ("<", ">"), ("a:", "b"), ("if ", " then a else b"), ("~/", ""),
    ("rec{a=b;", "}"), ('"a\\n', '\\n"'), ("(", ")"), ("{a.", "=b;}"),
    ('{"', '"=b;}'), ("{${", "}=b;}"), ("a/${", "}b"), ("assert ", "; a"),
    ("with ", "; a"), ("a/${b}", ""), ("''\\n", "\\n''"), ("", " a"),
    ("a", ""), ("{inherit (a)", ";}"), ("{a?", "}:b"), ("let{", "}"),
    ("let a=", ";in b"),
]
def ctx(n, only=None):
    return [a + "`" * n + b for i, (a, b) in enumerate(CTXS)
            if only is None or i in only]
