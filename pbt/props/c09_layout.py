"""C09: layout and comments are insignificant; source positions are exact."""
import json, os
from .. import astgen, sut
from ..astgen import dump, needs_space
from ..core import Facet, Info, Violation
from ..gen import strategy
from .c06_print import first_diff
from .c08_frontend import GARBAGE, mutate, tokens_of

RULE = ("layout: token sequences of random programs (unchanged or mutated), every name made unique by its token number, laid out "
        "twice: once with single blanks, once with random white space, line breaks, line and block comments (over several lines, "
        "containing code, quotes and comment markers) or nothing where tokens may touch, with a random number of the first line. "
        "Oracle: the token stream is the token sequence with exactly the positions computed while laying out; both layouts give "
        "the same tree, the same diagnostics at the same tokens (main and secondary positions, also those of building an agent), "
        "every name, keyword and operator node of the tree points at its own token. file: the same through a file object. unclosed: a comment that is never closed after such a text is reported exactly where it begins, "
        "the tokens before it are unaffected, and closing it removes the report. "
        "Non-trivial: at least 8 tokens, at least one comment or line break.")
ASSUMPTIONS = ["A tab in a source line counts as four columns (the reader expands it)."]

KEYWORDS = {"true", "false", "not", "div", "mod", "if", "else", "while", "for", "include", "begin", "end"}
PIECES = [" ", "  ", "\n", "\n\n", "\t", " \n ", "\r\n", "\f", "\u00a0",
          "/**/", "/***/", "/* c */", "/*/ x */", "/* a\n b */", "/*\n\n*/", "/* // */", "/* # */", "/* p(X). */", '/* " */',
          "/* +!p <- q.\n */", "/* /* */", "/* * / */", "/* é */", "/*\t*/", "/* x *\n/ */", "/* \n// */",
          "//\n", "// c\n", "# c\n", "#\n", "// p(X) :- q.\n", "// /* \n", "# */ \n", '# " \n', "//// */ /*\n", "#\tx\n", "//\\\n"]
LAST = ["", "", "// end", "#", "/* x */", "\n"]


def names_numbered(toks):
    res = []
    for i, t in enumerate(toks):
        c = t[0]
        if t in KEYWORDS or c in '"' or not (c.isalpha() or c in "_~" or (c == "." and len(t) > 1 and not t[1].isdigit())):
            res.append(t)
        else:
            res.append(t + ("X%d" % i if set(t) == {"_"} and i % 3 == 0 else "" if set(t) == {"_"} else "%d" % i))
    return res


def long_comment(g):
    if g.prob(0.3):
        return "".join(g.choice(["//", "#"]) + g.choice(["\n", " c\n", "*/\n"]) for _ in range(g.int(2, 12)))
    return "/*" + "".join(g.choice(["\n", "\n", " a", "\n * b", "/", "\n\n", "*", "# c\n"]) for _ in range(g.int(4, 30))).replace("*/", "* /").rstrip("*") + "*/"


def separators(g, toks, dense):
    seps = []
    for i in range(len(toks) + 1):
        before, after = toks[i - 1] if i else None, toks[i] if i < len(toks) else None
        must = before is not None and after is not None and needs_space(before, after)
        n = g.weighted([(5, 0), (4, 1), (2, 2), (1, 3)]) if dense else g.weighted([(2, 0), (8, 1)])
        if must:
            n = max(1, n)
        s = ""
        for _ in range(n):
            s += (g.choice(PIECES) if g.prob(0.97) else long_comment(g)) if dense else " "
        if after is None:
            s += g.choice(LAST) if dense else ""
        # "/" followed by a comment would read as another comment.
        if s and before is not None and before[-1] in "/*#" and s[0] in "/#*":
            s = " " + s
        seps.append(s)
    return seps


def fix_seps(toks, seps):
    """Keeps shrunk cases well-formed (separators where tokens would run together)."""
    res = []
    for i, s in enumerate(seps):
        before, after = toks[i - 1] if i else None, toks[i] if i < len(toks) else None
        if before is not None and after is not None and not s and needs_space(before, after):
            s = " "
        res.append(s)
    return res


def gen_layout(g, tier):
    toks = tokens_of(g)
    n = g.choice([0, 0, 1, 2])
    toks = mutate(g, toks, n)
    if g.prob(0.1):
        i = g.int(0, len(toks))
        toks = toks[:i] + g.choice([["{", "include", "(", '"missing.asl"', ")", "}"], ["{", "include", "(", "x", ")", "}"],
                                   ["{", "begin", "r", "(", "1", ")", "}"]]) + toks[i:]
    toks = names_numbered(toks)
    return {"tokens": toks, "seps": separators(g, toks, True), "first": g.choice([1, 1, 0, 2, 17, 1000]), "mutations": n}


def lay(toks, seps, first):
    """Text and position (line, start, end) of every token, tabs counted as four columns."""
    line, col, s, pos = first, 0, "", []

    def advance(text):
        nonlocal line, col
        for ch in text:
            if ch == "\n":
                line, col = line + 1, 0
            else:
                col += 4 if ch == "\t" else 1
    for i, sep in enumerate(seps):
        s += sep
        advance(sep)
        if i < len(toks):
            start = col
            s += toks[i]
            advance(toks[i])
            pos.append((line, start, col))
    return s, pos


def check_tokens(text, toks, pos, first):
    lines = text.split("\n")
    log = sut.agentspeak.Log(sut.agentspeak.get_logger("agentspeak.verif"), None)
    with sut.capture():
        stream = list(sut.agentspeak.lexer.tokenize(sut.StringSource("test.asl", text), log, first))
    got = [t.lexeme for t in stream]
    want = [(t, p) for t, p in zip(toks, pos) if t not in ("%", "$", "'", "^", "\\", "§")]
    if got != [t for t, _ in want]:
        raise Violation("tokens %r, expected %r:\n%s" % (got, [t for t, _ in want], text))
    for t, (lexeme, (lineno, a, b)) in zip(stream, want):
        loc = t.loc
        if (loc.filename, loc.lineno, loc.startcol, loc.endcol) != ("test.asl", lineno, a, b):
            raise Violation("token %r at %r, expected line %d, columns %d-%d:\n%s" % (lexeme, loc, lineno, a, b, text))
        if loc.line[a:b] != lexeme or loc.line.rstrip("\n") != lines[lineno - first].replace("\t", "    ").rstrip("\n"):
            raise Violation("token %r with source line %r:\n%s" % (lexeme, loc.line, text))


class Index:
    """Maps positions to token numbers."""
    def __init__(self, toks, pos, text):
        self.at = {}
        for i, (t, (line, a, b)) in enumerate(zip(toks, pos)):
            self.at[line, a] = i
            self.at[line, a, b] = i
        self.toks, self.text = toks, text

    def __call__(self, loc):
        if loc is None:
            return None
        i = self.at.get((loc.lineno, loc.startcol, loc.endcol))
        if i is None and loc.startcol == loc.endcol:
            i = self.at.get((loc.lineno, loc.startcol))
        if i is None:
            raise Violation("position %r is not that of a token:\n%s" % (loc, self.text))
        return i


def nodes(tree, index, toks, out):
    """(type, token number) of all nodes in depth-first order; names must point at their own token."""
    P = sut.agentspeak.parser
    if isinstance(tree, list):
        for x in tree:
            nodes(x, index, toks, out)
        return out
    if not isinstance(tree, P.AstNode):
        return out
    i = index(tree.loc) if getattr(tree, "loc", None) is not None else None
    out.append((type(tree).__name__, i))
    want = None
    if isinstance(tree, P.AstLiteral):
        want = tree.functor
    elif isinstance(tree, P.AstVariable):
        want = tree.name
    elif isinstance(tree, (P.AstUnaryOp, P.AstBinaryOp)):
        want = tree.operator.value.lexeme
    elif isinstance(tree, P.AstIfThenElse):
        want = "if"
    elif isinstance(tree, P.AstWhile):
        want = "while"
    elif isinstance(tree, P.AstFor):
        want = "for"
    elif isinstance(tree, P.AstPlan):
        want = tree.event.trigger.value
    if want == "&" and i is not None and toks[i] in astgen.COMP + astgen.UNIF:
        want = toks[i]          # chained comparison
    if want is not None and i is not None and toks[i] != want:
        raise Violation("%s %s points at token %r:\n%s" % (type(tree).__name__, tree, toks[i], index.text))
    if want is not None and i is None:
        raise Violation("%s %s has no position:\n%s" % (type(tree).__name__, tree, index.text))
    for k in sorted(vars(tree)):
        if k != "loc":
            v = getattr(tree, k)
            if isinstance(v, (list, P.AstNode)):
                nodes(v, index, toks, out)
    return out


def diagnostics(cap, index):
    return [(r.levelname, r.getMessage(), index(getattr(r, "loc", None)),
             sorted(index(x) for x in getattr(r, "extra_locs", ()) if x is not None)) for r in cap.records]


def read(text, toks, pos, first):
    agentspeak = sut.agentspeak
    index = Index(toks, pos, text)
    stream, log = astgen.stream(text, "test.asl", first)
    with sut.capture() as cap:
        try:
            tree = agentspeak.parser.parse("test.asl", stream, log)
            log.throw()
        except agentspeak.AggregatedError:
            tree = None
    return {"tree": None if tree is None else dump(tree), "diagnostics": diagnostics(cap, index),
            "nodes": None if tree is None else nodes(tree, index, toks, [])}


def build(text, toks, pos, name="test.asl", source=None):
    index = Index(toks, pos, text)
    env = sut.agentspeak.runtime.Environment()
    err = None
    with sut.capture() as cap:
        try:
            env.build_agent(source or sut.StringSource(name, text), sut.agentspeak.stdlib.actions)
        except (sut.AggregatedError, sut.AslError) as e:
            err = type(e).__name__ if isinstance(e, sut.AslError) else "%s: %s" % (type(e).__name__, e)
    return {"error": err, "diagnostics": diagnostics(cap, index)}


def compare(what, a, b, text):
    if a != b:
        a, b = json.loads(json.dumps(a)), json.loads(json.dumps(b))
        raise Violation("%s depends on the layout %s of\n%s" % (what, first_diff(b, a), text))


def check_layout(case):
    toks, first = case["tokens"], case["first"]
    plain, pos0 = lay(toks, fix_seps(toks, [""] + [" "] * len(toks)), 1)
    text, pos = lay(toks, fix_seps(toks, case["seps"]), first)
    check_tokens(plain, toks, pos0, 1)
    check_tokens(text, toks, pos, first)
    a, b = read(plain, toks, pos0, 1), read(text, toks, pos, first)
    for k in a:
        compare(k, a[k], b[k], text)
    text1, pos1 = lay(toks, fix_seps(toks, case["seps"]), 1)
    c, d = build(plain, toks, pos0), build(text1, toks, pos1)
    for k in c:
        compare("building: " + k, c[k], d[k], text)
    fancy = any(x in s for s in case["seps"] for x in ("\n", "/*", "//", "#"))
    return Info(len(toks) >= 8 and fancy, ["accepted" if a["tree"] is not None else "rejected", "mutations %d" % case["mutations"],
                                           "first line 1" if first == 1 else "first line other"])


def check_file(case):
    """Reading a file object gives what reading the text gives."""
    toks = case["tokens"]
    seps = [s.replace("\r", "") for s in case["seps"]]
    text, pos = lay(toks, fix_seps(toks, seps), 1)
    path = "layout-test.asl"
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    try:
        with open(path, encoding="utf-8") as f:
            b = build(text, toks, pos, path, f)
    finally:
        os.unlink(path)
    a = build(text, toks, pos, path)
    for k in a:
        compare("file: " + k, a[k], b[k], text)
    return Info(len(toks) >= 8 and "\n" in text, ["built" if a["error"] is None else "rejected"])


OPENED = ["", "", "\n", " ", " c", "/", " p(X). ", " // c", "\n// c\n", " /* ", "\n\n", " a\n b", "* ", "*", "\t", "\n*\n/", " \"", " # * /\n"]


def gen_unclosed(g, tier):
    case = gen_layout(g, tier)
    case["seps"][-1] = g.choice(["", "", " ", "\n", "  \n\n ", "/**/", "/* c */ ", "// c\n", "\t"])
    case["opened"] = "".join(g.choice(OPENED) for _ in range(g.int(1, 2))).replace("*/", "* /")
    return case


def check_unclosed(case):
    """A block comment that is never closed is reported where it begins and hides only what follows."""
    toks, first = case["tokens"], case["first"]
    seps = fix_seps(toks, case["seps"])
    if toks and toks[-1][-1] in "/*#" and not seps[-1]:
        seps[-1] = " "
    text, pos = lay(toks + ["/*"], seps + [""], first)
    text += case["opened"]
    line, col = pos[-1][:2]
    log = sut.agentspeak.Log(sut.agentspeak.get_logger("agentspeak.verif"), None)
    with sut.capture() as cap:
        stream = list(sut.agentspeak.lexer.tokenize(sut.StringSource("test.asl", text), log, first))
    want = [t for t in toks if t not in ("%", "$", "'", "^", "\\", "§")]
    if [t.lexeme for t in stream] != want:
        raise Violation("tokens %r, expected %r:\n%s" % ([t.lexeme for t in stream], want, text))
    errors = [r for r in cap.errors() if "illegal character" not in r.getMessage()]
    if len(errors) != 1 or log.num_errors != len(toks) - len(want) + 1:
        raise Violation("errors for an unclosed comment: %s:\n%s" % ([r.getMessage() for r in cap.errors()], text))
    loc = errors[0].loc
    if loc is None or (loc.filename, loc.lineno, loc.startcol) != ("test.asl", line, col) or loc.line[col:col + 2] != "/*":
        raise Violation("unclosed comment reported at %r, expected line %d, column %d:\n%s" % (loc, line, col, text))
    for source in (text, text + "*/"):
        env, err = sut.agentspeak.runtime.Environment(), None
        with sut.capture() as cap:
            try:
                env.build_agent(sut.StringSource("test.asl", source), sut.agentspeak.stdlib.actions)
            except sut.AggregatedError as e:
                err = e
            except sut.AslError:
                pass
        messages = [r.getMessage() for r in cap.errors()]
        if source is text and err is None:
            raise Violation("program with an unclosed comment accepted:\n%s" % text)
        if source is not text and case["mutations"] == 0 and not case["opened"].startswith("/") and any("comment" in m for m in messages):
            raise Violation("closed comment reported (%s):\n%s" % (messages, source))
    return Info(len(toks) >= 3, ["ends in comment mark" if text.endswith("/*") else "text in comment", "tokens" if toks else "only a comment"])


FACETS = [
    Facet("unclosed", strategy(gen_unclosed), check_unclosed, quick=500, thorough=30000),
    Facet("layout", strategy(gen_layout), check_layout, quick=1200, thorough=60000),
    Facet("file", strategy(gen_layout), check_file, quick=300, thorough=8000),
]
