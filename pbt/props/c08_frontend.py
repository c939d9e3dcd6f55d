"""C08: any input text is either parsed or rejected with a located diagnostic."""
import ast as pyast
from .. import astgen, refparse, sut
from ..astgen import Ast, Tok, dump
from ..core import Facet, Info, Violation
from ..gen import strategy
from .c06_print import first_diff

RULE = ("tokens: token sequences of random valid programs, unchanged or with tokens deleted, inserted, replaced, swapped, "
        "repeated or cut off, or with operators and operands replaced by others of the same role; oracle: an independent parser of the grammar with static checks (verdict, tree, position of the "
        "first error). chars: character-level mutations of such programs and arbitrary strings; oracle: an accepted text prints "
        "and reads back as the same tree, a rejected one has a logged error whose line, columns and source line lie in the "
        "input, which renders without failure, and the raised error counts the errors. build: the same texts through "
        "Environment.build_agent. deep: programs nested up to 4000 levels deep (terms, expressions, conditions, bodies, regions) are "
        "accepted or rejected by parser and builder in the same way, up to 25 levels accepted. Non-trivial: a mutated text of at least 5 tokens (chars: at least 8 characters).")

ASSUMPTIONS = ["number literals beyond the range of floats have no printed form", "how deep a program may be nested is up to the implementation (here: at least 25 levels)"]

GARBAGE = ["(", ")", "[", "]", "{", "}", ".", ",", ";", ":", ":-", "<-", "!", "!!", "?", "+", "-", "-+", "@", "*", "**", "/", "div",
           "mod", "&", "|", "|&|", "|||", "not", "=", "==", "\\==", "<", "<=", ">", ">=", "=..", "if", "else", "while", "for",
           "true", "false", "include", "begin", "end", "foo", "p", "X", "_", "1", "2.5", '"s"', "%", "$", "'", "^", "\\", "§"]
KEYWORDS = {"not", "div", "mod", "if", "else", "while", "for", "include", "begin", "end", "true", "false"}
ILLEGAL = {"%", "$", "'", "^", "\\", "§"}


def tokens_of(g):
    a = Ast(g, strings=["", "a", "a b", "// x", "\\", "é"])
    prog = a.program(g.int(1, 2))
    for k in list(prog):
        if k == "plans":
            prog[k] = [a.plan(g.int(0, 1)) for _ in prog[k]]
    items = g.shuffle(Tok(g, 0.05).program(prog)) if g.prob(0.5) else Tok(g, 0.05).program(prog)
    if g.prob(0.15) and items:
        i = g.int(0, len(items))
        j = g.int(i, len(items))
        items = items[:i] + [["{", "begin", "region", "}"]] + items[i:j] + [["{", "end", "}"]] + items[j:]
    return [t for item in items for t in item]


OPERATORS = ["+", "-", "*", "/", "div", "mod", "**", "&", "|", "=", "==", "\\==", "<", "<=", ">", ">="]
UNARY = ["-", "+", "not"]


def is_operand(t):
    return t[0].isalnum() and t not in KEYWORDS or t[0] in '_"' or t in ("true", "false")


def rekind(g, toks):
    """Another operator or operand in place of one of the same role: mostly grammatical, often of the wrong kind."""
    at = [i for i, t in enumerate(toks) if t in OPERATORS or is_operand(t)]
    if not at:
        return
    i = g.choice(at)
    if toks[i] in OPERATORS:
        toks[i] = g.choice(OPERATORS)
    elif g.prob(0.4):
        toks.insert(i, g.choice(UNARY))
    elif g.prob(0.4) and not (i + 1 < len(toks) and toks[i + 1] == "("):
        toks[i:i + 1] = ["(", g.choice(["", "", *UNARY]), toks[i], g.choice(OPERATORS), g.choice(["", "", *UNARY]),
                         g.choice(["1", "X", "true", "a", '"s"']), ")"]
        toks[:] = [t for t in toks if t]
    else:
        toks[i] = g.choice(["X", "_", "1", '"s"', "true", "p"])


def mutate(g, toks, n):
    toks = list(toks)
    if g.prob(0.35):
        for _ in range(n):
            rekind(g, toks)
        return toks
    for _ in range(n):
        k = g.int(0, 6)
        i = g.int(0, max(0, len(toks) - 1))
        if k == 0 and toks:
            del toks[i]
        elif k == 1:
            toks.insert(i, g.choice(GARBAGE))
        elif k == 2 and toks:
            toks[i] = g.choice(GARBAGE)
        elif k == 3 and len(toks) > 1:
            j = g.int(0, len(toks) - 1)
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 4 and toks:
            toks.insert(i, toks[g.int(0, len(toks) - 1)])
        elif k == 5 and len(toks) > 1:
            toks = toks[:g.int(1, len(toks) - 1)]
        elif k == 6 and len(toks) > 1:
            del toks[i:i + g.int(1, 4)]
    return toks


def gen_tokens(g, tier):
    toks = tokens_of(g)
    n = g.choice([0, 1, 1, 1, 2, 3])
    toks = mutate(g, toks, n)
    return {"tokens": toks, "breaks": [g.int(0, 5) == 0 for _ in toks], "mutations": n}


def layout(case):
    """The text and the position of every token."""
    line, col, s, pos = 1, 0, "", []
    for t, b in zip(case["tokens"], case["breaks"]):
        pos.append((line, col, col + len(t)))
        s += t + ("\n" if b else " ")
        if b:
            line, col = line + 1, 0
        else:
            col += len(t) + 1
    return s, pos


def string_value(t):
    return pyast.literal_eval(t)


def check_diagnostics(text, cap, err, name="test.asl"):
    """Every error lies in the text and can be rendered; the raised error counts them."""
    errors = cap.errors()
    if not errors:
        raise Violation("rejected without a reported error (%r): %r" % (err, text))
    if getattr(err, "num_errors", len(errors)) != len(errors):
        raise Violation("%d errors reported, %r raised: %r" % (len(errors), err, text))
    if not str(err):
        raise Violation("error without text: %r" % (text,))
    lines = text.split("\n")
    fmt = sut.agentspeak.LogFormatter("%(message)s")
    for r in cap.records:
        rendered = fmt.format(r)
        if r.getMessage() not in rendered:
            raise Violation("message missing in %r" % rendered)
    for r in errors:
        loc = getattr(r, "loc", None)
        if loc is None:
            raise Violation("error without position: %s: %r" % (r.getMessage(), text))
        if loc.filename != name or not 1 <= loc.lineno <= len(lines):
            raise Violation("error outside of the source: %r: %r" % (loc, text))
        line = lines[loc.lineno - 1].replace("\t", "    ")
        if loc.line.rstrip("\n") != line:
            raise Violation("source line of the error is %r, expected %r" % (loc.line, line))
        if not 0 <= loc.startcol <= loc.endcol <= len(loc.line):
            raise Violation("columns of the error: %r" % (loc,))


def reread(tree, text):
    if "['n', inf]" in repr(dump(tree)):
        return                  # number literals beyond the range of floats have no printed form
    printed = str(tree)
    tree2, cap, err = astgen.parse_agent(printed)
    if err is not None:
        raise Violation("accepted %r, but its printed form is rejected (%s):\n%s" % (
            text, [r.getMessage() for r in cap.errors()], printed))
    if dump(tree) != dump(tree2):
        raise Violation("accepted %r, but its printed form\n%s\ndiffers %s" % (text, printed, first_diff(dump(tree2), dump(tree))))


def check_tokens(case):
    toks = case["tokens"]
    text, pos = layout(case)
    tree, cap, err = astgen.parse_agent(text)
    if err is not None:
        check_diagnostics(text, cap, err)
    illegal = any(t in ILLEGAL for t in toks)
    verdict = refparse.parse([t for t in toks if t not in ILLEGAL], string_value)
    ok = verdict[0] == "ok" and not illegal
    if ok:
        if err is not None:
            raise Violation("valid program rejected (%s):\n%s" % ([r.getMessage() for r in cap.errors()], text))
        if dump(tree) != astgen.norm(verdict[1]):
            raise Violation("parsed tree of\n%s\ndiffers %s" % (text, first_diff(dump(tree), astgen.norm(verdict[1]))))
    else:
        if err is None:
            raise Violation("invalid program accepted (%s):\n%s\nas\n%s" % (verdict if not illegal else "illegal character", text, tree))
        if verdict[0] == "syntax" and not illegal and toks:
            i = min(verdict[1], len(toks) - 1)
            loc = cap.locs()[0]
            begin = any(r.getMessage().startswith("end of file, but") for r in cap.errors())
            begin = begin or "begin" in toks[:i]        # a region is checked as soon as it ends
            if (loc.lineno, loc.startcol, loc.endcol) != pos[i] and not begin:
                raise Violation("first error (%s) at %r, expected at token %r %r:\n%s" % (
                    cap.errors()[0].getMessage(), loc, toks[i], pos[i], text))
    if err is None:
        reread(tree, text)
    return Info(case["mutations"] > 0 and len(toks) >= 5, ["accepted" if err is None else "rejected " + verdict[0],
                                                          "mutations %d" % case["mutations"]])


CHARS = list("abXY_019.,;:!?+-*/&|<>=()[]{}@\"\\'~#% \n\r") + ["//", "/*", "*/", "é", "€", "\0", "\x0b", "\x85", "\u2028", "😀", "٣", "Ⅷ", "ª", "\ufeff"]


def gen_chars(g, tier):
    k = g.int(0, 9)
    if k < 7:
        toks = tokens_of(g)
        s = "".join(t + g.choice([" ", " ", " ", "\n", ""]) for t in toks)[:600]
        for _ in range(g.size(1, 4)):
            i = g.int(0, max(0, len(s) - 1))
            m = g.int(0, 3)
            if m == 0:
                s = s[:i] + s[i + g.int(1, 3):]
            elif m == 1:
                s = s[:i] + g.choice(CHARS) + s[i:]
            elif m == 2:
                s = s[:i] + g.choice(CHARS) + s[i + 1:]
            else:
                s = s[:i]
        return s
    if k < 9:
        return "".join(g.choice(CHARS) for _ in range(g.size(0, 30)))
    return "".join(chr(g.choice([g.int(0, 127), g.int(0, 0x2fff), g.int(0x3000, 0xd7ff)])) for _ in range(g.size(0, 20)))


def check_chars(text):
    tree, cap, err = astgen.parse_agent(text)
    if err is not None:
        check_diagnostics(text, cap, err)
    else:
        if cap.errors():
            raise Violation("accepted although errors were reported: %r %s" % (text, cap.errors()[0].getMessage()))
        reread(tree, text)
    return Info(len(text) >= 8, ["accepted" if err is None else "rejected"])


def gen_build(g, tier):
    """A program that builds, and a mutation of it."""
    from ..proggen import A, PG, Scope
    from ..interp import prog_src
    pg = PG(g, rich=0.3, annots=0.2)
    rules = pg.rules(g.int(0, 2))
    pg.goals = [("g1", 1)]
    prog = {"beliefs": pg.beliefs(g.int(0, 4)) + [["f", "cnt0", [["n", 1]], []]], "rules": rules,
            "plans": [{"t": "+", "g": "!", "head": A("go"), "ctx": pg.query(Scope()) if g.prob(0.5) else None,
                       "body": pg.body(Scope(), 2, 5, 1), "label": "l1" if g.prob(0.2) else None}]}
    s = prog_src(prog)
    m = g.int(0, 2)
    for _ in range(m):
        i = g.int(0, len(s) - 1)
        s = g.choice([s[:i] + s[i + 1:], s[:i] + g.choice(CHARS) + s[i:], s[:i] + g.choice(GARBAGE) + s[i:], s[:i] + ".unknown" + s[i:]])
    return {"text": s, "mutations": m}


def check_build(case):
    text = case["text"]
    agentspeak = sut.agentspeak
    out = sut.run_sources([text], ["test.asl"], drive=lambda out: None)
    if out.error is not None:
        if not isinstance(out.error, agentspeak.AggregatedError) and not any(
                line.lstrip().startswith(("!", "+", "-", "@")) for line in text.split("\n")):
            raise Violation("failed with %r: %s" % (out.error, text))
        if isinstance(out.error, agentspeak.AggregatedError):
            check_diagnostics(text, out.log, out.error)
        if not case["mutations"]:
            raise Violation("valid program rejected (%r %s):\n%s" % (out.error, [r.getMessage() for r in out.log.errors()], text))
    elif out.log.errors():
        raise Violation("agent built although errors were reported: %s\n%s" % (out.log.errors()[0].getMessage(), text))
    return Info(case["mutations"] > 0, ["built" if out.error is None else "rejected", "mutations %d" % case["mutations"]])


# name: opening and closing text of one level; {} is replaced by what is inside
NEST_TERM = ["f({})", "[{}]", "[a|{}]", "f(a, {})[b]", "a[{}]", "f({}, b)", "[{}, 1]"]
NEST_EXPR = ["({})", "-{}", "({} + 1)", "1 + {}", "{} + 1", "1 ** {}", "{} ** 1", "(1 * {})"]
NEST_QUERY = ["({})", "not {}", "not ({})", "a & {}", "{} & a", "({} | b)", "b | {}", "X == Y & {}"]
NEST_BODY = ["if (a) {{ {} }}", "if (a) {{ b }} else {{ {} }}", "while (a) {{ {} }}", "for (a) {{ {} }}", "if (a) {{ {}; c }} else {{ d }}"]
PLACES = {"belief": (NEST_TERM, "a", "p({})."), "goal": (NEST_TERM, "X", "+!g <- !h({})."), "head": (NEST_TERM, "_", "+!g({}) <- .print(b)."),
          "expr": (NEST_EXPR, "Y", "+!g(Y) <- Z = {}."), "rule": (NEST_QUERY, "c", "r(X) :- {}."), "context": (NEST_QUERY, "c", "+!g(X) : {} <- +d."),
          "condition": (NEST_QUERY, "c", "+!g(X) <- if ({}) {{ +d }}."), "body": (NEST_BODY, "+e", "+!g <- {}."),
          "region": (["{{ begin r }} {} {{ end }}"], "p(1).", "{}")}


def gen_deep(g, tier):
    place = g.choice(sorted(PLACES))
    levels = [g.choice(PLACES[place][0]) for _ in range(g.choice([1, 1, 2, 3]))]
    n = g.weighted([(2, g.int(1, 25)), (3, g.int(60, 400)), (2, g.int(400, 1000)), (1, g.int(1000, 4000))])
    return {"place": place, "levels": levels, "n": n, "broken": g.prob(0.15), "before": g.prob(0.3), "after": g.prob(0.3), "lines": g.int(0, 3)}


def check_deep(case):
    _, inner, frame = PLACES[case["place"]]
    levels = [x.replace("{}", "\0").replace("{{", "{").replace("}}", "}").split("\0") for x in case["levels"]]
    pre, post = "", ""
    for i in range(case["n"]):
        a, b = levels[i % len(levels)]
        pre, post = pre + a + ("\n" if case["lines"] == 3 else ""), b + post
    text = frame.replace("{}", "\0").replace("{{", "{").replace("}}", "}").replace("\0", pre + (") (" if case["broken"] else inner) + post)
    if case["before"]:
        text = "q(1).\n" + text
    if case["after"]:
        text += "\nq(2).\n"
    brief = "%s %s, %d times%s" % (case["place"], case["levels"], case["n"], ", broken" if case["broken"] else "")
    res = []
    for how in ("parse", "build"):
        try:
            if how == "parse":
                tree, cap, err = astgen.parse_agent(text)
            else:
                out = sut.run_sources([text], ["test.asl"], drive=lambda out: None)
                cap, err = out.log, out.error
        except Exception as e:
            raise Violation("%s: %s escapes for %s" % (how, type(e).__name__, brief))
        if err is None:
            if cap.errors():
                raise Violation("%s: accepted although errors were reported: %s" % (how, brief))
            if case["broken"]:
                raise Violation("%s: invalid program accepted: %s" % (how, brief))
        else:
            if not isinstance(err, sut.agentspeak.AggregatedError):
                raise Violation("%s: %s for %s" % (how, type(err).__name__, brief))
            if case["n"] <= 25 and not case["broken"]:
                raise Violation("%s: valid program rejected (%s): %s" % (how, cap.errors()[:1] and cap.errors()[0].getMessage(), brief))
            check_diagnostics(text, cap, err)
        res.append("%s %s" % (how, "accepted" if err is None else "rejected"))
    tree, cap, err = astgen.parse_agent("p(1).")
    if err is not None or str(tree).strip() != "p(1).":
        raise Violation("a program after %s is not accepted" % brief)
    return Info(case["n"] >= 10, res + [case["place"]])


FACETS = [
    Facet("tokens", strategy(gen_tokens), check_tokens, quick=1800, thorough=100000),
    Facet("chars", strategy(gen_chars), check_chars, quick=1800, thorough=100000),
    Facet("build", strategy(gen_build), check_build, quick=600, thorough=30000),
    Facet("deep", strategy(gen_deep), check_deep, quick=120, thorough=6000),
]
