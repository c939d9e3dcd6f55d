"""C05: every term written out as source reads back as the same term."""
import contextlib, io, math, struct
from .. import ref, sut
from ..core import Facet, Info, Violation
from ..gen import TermGen, strategy

RULE = ("literal: string literals built from raw Unicode characters and escape sequences (\\n \\t \\\\ \\\" \\' \\a \\b \\f \\r \\v, "
        "octal, \\x, \\u, \\U, \\N{..}) with the denoted text known by construction. number: finite doubles from random bit "
        "patterns, integers, decimal and exponent spellings. term: random ground terms holding such strings and numbers; "
        "object -> printed -> read and program -> belief -> printed -> read must be equal. plain: text used for messages "
        "(.concat, .print, asl_str) against its definition. Non-trivial: a character needing an escape or outside ASCII, a "
        "non-integral or large number, or a compound term.")
ASSUMPTIONS = ["tab characters inside a source line are replaced by four spaces before reading; raw tabs are kept out of literals",
               "lone surrogates are no characters"]

SPECIAL = ['"', "\\", "'", "\n", "\r", "\t", "\0", "\x07", "\x1b", "\x7f", "\x80", "\x85", "\xa0", "\xad", "é", "ß", "ÿ", "Ā",
           "\u2028", "\u2029", "€", "\ufeff", "\uffff", "😀", "\U0010ffff", "/", "*", "#", "//", "/*", "*/", "{", "}", "%", "\\n", "\\x41"]
NAMES = {"LATIN SMALL LETTER A": "a", "EURO SIGN": "€", "GREEK SMALL LETTER ALPHA": "α", "BULLET": "•"}
SIMPLE = {"\\\\": "\\", '\\"': '"', "\\'": "'", "\\a": "\a", "\\b": "\b", "\\f": "\f", "\\n": "\n", "\\r": "\r", "\\t": "\t",
          "\\v": "\v"}


def char(g):
    k = g.int(0, 9)
    if k < 4:
        return chr(g.int(97, 122) if g.prob(0.5) else g.int(32, 126))
    if k < 7:
        return g.choice(SPECIAL)
    c = g.choice([g.int(0x80, 0xff), g.int(0x100, 0x24ff), g.int(0x3000, 0xd7ff), g.int(0xe000, 0xffff), g.int(0x10000, 0x10ffff)])
    return chr(c)


def text(g, n=6):
    return "".join(char(g) for _ in range(g.size(0, n)))


def number(g):
    k = g.int(0, 7)
    if k == 0:
        return float(g.int(-5, 20))
    if k == 1:
        return g.choice([0.1, 0.5, 1e15, 1e16, 1e17, 123456789012345680.0, 2.0 ** 53, 2.0 ** 53 + 2, 1e22, 1e100, 5e-324, 1e-7,
                         1.7976931348623157e308, 2.2250738585072014e-308, 1e21, 0.30000000000000004, 99999999999999999999.0])
    if k == 2:
        return g.int(0, 10 ** 6) / 1000.0
    if k == 3:
        return float(g.int(0, 10 ** 9)) * 10.0 ** g.int(-12, 12)
    x = struct.unpack("<d", struct.pack("<Q", (g.int(0, 0x7fe) << 52) | (g.int(0, 2 ** 26 - 1) << 26) | g.int(0, 2 ** 26 - 1)))[0]
    if g.prob(0.3):
        x = -x
    return x if math.isfinite(x) else 1.0


# -- string literals

def gen_literal(g, tier):
    pieces = []
    for _ in range(g.size(1, 8)):
        k = g.int(0, 9)
        if k < 4:
            c = char(g)
            c = "".join(x for x in c if x not in '"\\\n\t')
            pieces.append([c, c])
        elif k < 6:
            e = g.choice(sorted(SIMPLE))
            pieces.append([e, SIMPLE[e]])
        elif k == 6:
            n = g.int(0, 255)
            e = "%02x" % n
            pieces.append(["\\x" + (e.upper() if g.prob(0.4) else e), chr(n)])
        elif k == 7:
            n = g.choice([g.int(0, 0xd7ff), g.int(0xe000, 0xffff)])
            pieces.append(["\\u%04x" % n, chr(n)])
        elif k == 8:
            n = g.choice([g.int(0, 0xd7ff), g.int(0xe000, 0x10ffff)])
            pieces.append(["\\U%08X" % n, chr(n)])
        else:
            if g.prob(0.5):
                n = g.int(0, 255)
                pieces.append(["\\%03o" % n, chr(n)])
            else:
                nm = g.choice(sorted(NAMES))
                pieces.append(["\\N{%s}" % nm, NAMES[nm]])
    return pieces


def run_terms(sources, where="action"):
    """Runs a program recording each term text; returns the reference terms."""
    t = "!go.\n+!go <-\n" + "".join(".rec(%d, %s);\n" % (i, s) for i, s in enumerate(sources)) + ".rec(fin, 0).\n"
    out = sut.run_sources([t])
    if out.error is not None:
        raise Violation("failed: %r %s\n%s" % (out.error, [r.getMessage() for r in out.log.records], t))
    if len(out.trace) != len(sources) + 1:
        raise Violation("%d of %d effects\n%s" % (len(out.trace), len(sources) + 1, t))
    return [x[1][1] for x in out.trace[:-1]]


def check_literal(case):
    lit = '"' + "".join(p[0] for p in case) + '"'
    want = "".join(p[1] for p in case)
    got = run_terms([lit, "f(%s)[%s]" % (lit, lit), "[%s]" % lit])
    s = ("s", want)
    for g, w in zip(got, [s, ("f", "f", (s,), (s,)), ref.lst([s])]):
        if ref.canon(g) != ref.canon(w):
            raise Violation("literal %s (%s) read as %r, expected %r" % (lit, ascii(lit), g, w))
    direct = sut.agentspeak.parse_string(lit)
    if direct != want:
        raise Violation("parse_string(%s) is %r, expected %r" % (ascii(lit), direct, want))
    return Info(any(p[0] != p[1] or not p[0].isascii() for p in case),
                ["escape" if any(p[0] != p[1] for p in case) else "raw"])


# -- numbers

def gen_number(g, tier):
    k = g.int(0, 3)
    if k == 0:
        x = number(g)
        return [x, repr(x) if g.prob(0.5) else "%.17g" % x]
    if k == 1:
        x = g.int(0, 10 ** g.int(1, 25))
        return [float(x), str(x)]
    if k == 2:
        s = "%s.%s" % (g.choice(["", "0", str(g.int(0, 999))]), g.int(0, 99999))
        return [float(s), s]
    s = "%d%s%s%s%d" % (g.int(0, 99), g.choice(["", ".5", ".025"]), g.choice("eE"), g.choice(["", "+", "-"]), g.int(0, 30))
    return [float(s), s]


def check_number(case):
    x, s = case
    obj = float(x)
    printed = sut.agentspeak.asl_repr(obj)
    t = printed if not printed.startswith("-") else "(%s)" % printed
    got = run_terms([s, printed, t, "n(%s)" % printed, "[%s|[%s]]" % (s, printed), "-(%s)" % s, "0 + %s" % t])
    n = ("n", obj)
    want = [n, n, n, ("f", "n", (n,), ()), ref.lst([n, n]), ("n", -obj), n]
    for g, w in zip(got, want):
        if ref.canon(g) != ref.canon(w):
            raise Violation("number %r written %s, printed %s: read %r, expected %r" % (obj, s, printed, g, w))
    plain = sut.agentspeak.asl_str(obj)
    if float(plain) != obj or (obj.is_integer() and not plain.lstrip("-").isdigit()):
        raise Violation("text of %r is %r" % (obj, plain))
    return Info(not obj.is_integer() or abs(obj) > 1e9 or "e" in s.lower(), ["integral" if obj.is_integer() else "fraction"])


# -- terms

def special(g, t):
    """Replaces constants by unusual strings and numbers."""
    k = t[0]
    if k == "n" and g.prob(0.6):
        return ["n", number(g)]
    if k == "s" or k == "b" and g.prob(0.3):
        return ["s", text(g)]
    if k == "f":
        f = t[1]
        if g.prob(0.15):
            f = g.choice(["fooBar", "a_b", "x1", "~neg", "a.b", "trueish", "iffy", "fork", "notx", "ends", "model"])
        return ["f", f, [special(g, a) for a in t[2]], [special(g, a) for a in t[3]]]
    if k == "l":
        return ["l", [special(g, a) for a in t[1]]]
    if k == "c":
        return ["c", special(g, t[1]), special(g, t[2])]
    return t


def gen_term(g, tier):
    tg = TermGen(g, annots=0.25)
    from .c04_equality import fix_annots
    return fix_annots(special(g, tg.compound(g.int(1, 3)) if g.prob(0.85) else ["s", ""]))


def parse_term_text(s):
    """The syntax tree of a term, folded."""
    agentspeak = sut.agentspeak
    log = agentspeak.Log(agentspeak.get_logger("agentspeak.verif"), 1)
    tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource("<t>", s + " ."), log)
    tok, node = agentspeak.parser.parse_term(next(tokens), tokens, log)
    if tok.lexeme != ".":
        raise Violation("text %s ends early at %r" % (ascii(s), tok.lexeme))
    return node


def check_term(case):
    agentspeak = sut.agentspeak
    obj = sut.to_sut(case, {})
    want = ref.canon(ref.term(case))
    printed = agentspeak.asl_repr(obj)
    node = parse_term_text(sut.src(case))
    again = str(node)
    texts = [sut.src(case), printed, again, str(parse_term_text(again))]
    for s, t in zip(texts, run_terms(texts)):
        if ref.canon(t) != want:
            raise Violation("%s\nprinted as %s\nread as %r" % (ascii(sut.src(case)), ascii(s), t))
    # belief -> printed -> belief
    out = sut.run_sources(["holds(%s)." % printed])
    if out.error is not None:
        raise Violation("belief holds(%s): %r" % (ascii(printed), out.error))
    beliefs = [b for group in out.agents[0].beliefs.values() for b in group]
    if len(beliefs) != 1:
        raise Violation("belief lost: holds(%s)" % ascii(printed))
    out2 = sut.run_sources([str(beliefs[0]) + "."])
    if out2.error is not None or [ref.canon(b) for b in out2.beliefs()] != [("f", "holds", (want,), frozenset())]:
        raise Violation("belief printed as %s read as %r" % (ascii(str(beliefs[0])), out2.beliefs()))
    return Info(True, [case[0]])


# -- plain text

def plain(t):
    k = t[0]
    if k == "n":
        x = float(t[1])
        return str(int(x)) if x.is_integer() else repr(x)
    if k == "s":
        return t[1]
    if k == "b":
        return "true" if t[1] else "false"
    if k == "l":
        return "[" + ", ".join(plain(x) for x in t[1]) + "]"
    assert k == "f" and not t[2] and not t[3]
    return t[1]


def gen_plain(g, tier):
    def v(d):
        k = g.int(0, 6 if d else 4)
        if k < 2:
            return ["n", number(g)]
        if k < 3:
            return ["s", "".join(c for c in text(g) if c.isprintable())]
        if k == 3:
            return ["f", g.choice(["a", "fooBar", "x_1"]), [], []]
        if k == 4:
            return ["b", bool(g.int(0, 1))]
        return ["l", [v(d - 1) for _ in range(g.size(0, 3))]]
    return [v(2) for _ in range(g.size(1, 3))]


def check_plain(case):
    agentspeak = sut.agentspeak
    texts = [plain(t) for t in case]
    for t, w in zip(case, texts):
        got = agentspeak.asl_str(sut.to_sut(t, {}))
        if got != w:
            raise Violation("text of %s is %s, expected %s" % (ascii(sut.src(t)), ascii(got), ascii(w)))
    args = ", ".join(sut.src(t) for t in case)
    src = "!go.\n+!go <- .concat(\"\", %s, S); .rec(S); .print(%s).\n" % (args, args)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = sut.run_sources([src])
    if out.error is not None:
        raise Violation("failed: %r\n%s" % (out.error, src))
    if out.trace[0][1] != (("s", "".join(texts)),):
        raise Violation("%s\n.concat gives %r, expected %r" % (src, out.trace[0][1], "".join(texts)))
    line = buf.getvalue()
    if not line.endswith(" ".join(texts) + "\n") or "ag0" not in line:
        raise Violation("%s\n.print writes %s, expected text %s" % (src, ascii(line), ascii(" ".join(texts))))
    return Info(any(t[0] in "nl" or not w.isascii() for t, w in zip(case, texts)), [case[0][0]])


FACETS = [
    Facet("literal", strategy(gen_literal), check_literal, quick=900, thorough=40000),
    Facet("number", strategy(gen_number), check_number, quick=700, thorough=30000),
    Facet("term", strategy(gen_term), check_term, quick=700, thorough=30000),
    Facet("plain", strategy(gen_plain), check_plain, quick=500, thorough=20000),
]
