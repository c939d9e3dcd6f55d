"""C12: queries return exactly the logical answers."""
import collections
from .. import interp, ref, sut
from ..core import Facet, Info, Violation
from ..gen import strategy, vars_of
from ..proggen import A, PG, Scope, lit
from .c02_backtracking import check_reuse, gen_reuse

RULE = ("all: random beliefs, stratified rules and query formulas, a quarter of them with annotations inside of the arguments; the multiset of answers of a for loop (run twice), "
        "the first answer of a condition and negation are compared with a reference solver. order: the order of answers "
        "(beliefs before rules, rules in source order, left to right) by searching the free belief order. recursive: "
        "transitive closure and list relations over random acyclic data. reuse: the same rules are queried again and again by one line of execution while beliefs change (reference interpreter). Non-trivial: the query has an answer and uses a "
        "rule, a connective or at least two literals.")
ASSUMPTIONS = ["rule sets terminate (recursion over acyclic facts or lists)"]
VARS = ["X", "Y", "Z", "U", "V"]


def key(args):
    """Hashable form of a tuple of terms, free variables numbered by occurrence."""
    names = {}

    def go(t):
        k = t[0]
        if k == "v":
            return ("v", names.setdefault(t[1], len(names)))
        if k == "f":
            return ("f", t[1], tuple(go(a) for a in t[2]), t[3])
        if k == "c":
            return ("c", go(t[1]), go(t[2]))
        return t
    return ref.canon(("f", "k", tuple(go(a) for a in args), ()))


def answers(prog, q, vs, fuel=6000):
    m = interp.Machine([prog], ["ag0"], None, (), fuel)
    m.start()
    A0 = m.agents[0]
    fid = next(m.fresh)
    res = []
    for s in m.solve(A0, q, {}, fid):
        res.append(key([ref.resolve(("v", (fid, v)), s) for v in vs]))
    return res


def connectives(q):
    if q[0] in ("and", "or"):
        return {q[0]} | connectives(q[1]) | connectives(q[2])
    if q[0] == "not":
        return {"not"} | connectives(q[1])
    if q[0] == "lit":
        return {"rule"} if q[1][1][0] == "r" or q[1][1] in ("path", "app", "mem", "len") else {"belief"}
    return {q[0]}


def annotate(g, t, top=True):
    """Gives some of the atoms and structures inside of a term annotations of their own."""
    if t[0] == "f":
        annots = t[3]
        if not top and g.prob(0.3):
            annots = [g.choice([A("x"), A("y"), lit("src", A("a"))]) for _ in range(g.size(1, 2))]
        return ["f", t[1], [annotate(g, a, False) for a in t[2]], annots]
    if t[0] == "l":
        return ["l", [annotate(g, a, False) for a in t[1]]]
    if t[0] == "c":
        return ["c", annotate(g, t[1], False), annotate(g, t[2], False)]
    return t


def annotate_query(g, q):
    if q[0] in ("and", "or"):
        return [q[0], annotate_query(g, q[1]), annotate_query(g, q[2])]
    if q[0] == "not":
        return ["not", annotate_query(g, q[1])]
    if q[0] == "lit":
        return ["lit", annotate(g, q[1])]
    if q[0] == "unify":
        return ["unify", annotate(g, q[1], False), annotate(g, q[2], False)]
    return q


def gen_all(g, tier):
    pg = PG(g, rich=g.choice([0, 0, 0, 0.3]), annots=g.choice([0, 0, 0, 0.3]), depth=g.int(1, 2), wild=0.1)
    rules = pg.rules(g.int(0, 3))
    q = pg.query(Scope(), g.int(0, 3))
    beliefs = pg.beliefs(g.choice([0, 5, 9, 12, 14]))
    if g.prob(0.25):
        q = annotate_query(g, q)
        beliefs = [annotate(g, b) for b in beliefs]
        rules = [[annotate(g, h), annotate_query(g, b)] for h, b in rules]
    return {"beliefs": beliefs, "rules": rules, "q": q}


def check_all(case):
    base = {"beliefs": case["beliefs"], "rules": case["rules"]}
    q = case["q"]
    try:
        want = answers(base, q, VARS)
    except ref.RefError:
        return check_error(case)
    except (ref.Skip, interp.OutOfFuel, RecursionError):
        return Info(False, ["skipped"])
    if len(want) > 1200:
        return Info(False, ["skipped"])
    vs = [["v", v] for v in VARS]
    loop = ["for", q, [["rec", [A("ans")] + vs]]]
    body = [["rec", [A("start")] + vs], loop,
            ["if", q, [["rec", [A("first")] + vs]], [["rec", [A("none")] + vs]]],
            ]
    plan2 = [["if", ["not", q], [["rec", [A("negated")] + vs]], None], ["rec", [A("again")] + vs], loop,
             ["rec", [A("fin")] + vs]]
    prog = dict(base, goals=[A("go"), A("go2")],
                plans=[{"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": body},
                       {"t": "+", "g": "!", "head": A("go2"), "ctx": None, "body": plan2}])
    text = interp.prog_src(prog)
    out = sut.run_sources([text], limit=20000)
    if out.error is not None:
        raise Violation("query failed: %r\n%s" % (out.error, text))
    parts = {}
    cur = None
    for _, t in out.trace:
        parts.setdefault(t[0][1], []).append(key(t[1:]))
        if t[0][1] in ("start", "again"):
            cur = t[0][1]
        if t[0][1] == "ans":
            parts.setdefault("ans-" + cur, []).append(key(t[1:]))
    w = collections.Counter(want)
    free = key([("v", i) for i in range(len(VARS))])
    for run in ("ans-start", "ans-again"):
        got = collections.Counter(parts.get(run, []))
        if got != w:
            raise Violation("%s\n%s: got %d answers, expected %d\nmissing: %s\nunexpected: %s" % (
                text, run, sum(got.values()), len(want), list((w - got).elements())[:5], list((got - w).elements())[:5]))
    first = parts.get("first", [])
    if bool(first) != bool(want) or (first and first[0] not in w) or bool(parts.get("none")) == bool(want):
        raise Violation("%s\nfirst answer %r not among %r" % (text, first, want[:5]))
    if bool(parts.get("negated")) == bool(want):
        raise Violation("%s\nnegation: %r, but %d answers" % (text, parts.get("negated"), len(want)))
    for tag in ("negated", "again", "fin", "none", "start"):
        for k in parts.get(tag, []):
            if k != free:
                raise Violation("%s\nvariables bound at %s: %r" % (text, tag, k))
    bs = {ref.canon(ref.term(b)) for b in case["beliefs"]}
    if {ref.canon(b) for b in out.beliefs()} != bs:
        raise Violation("%s\nbeliefs changed by queries" % text)
    c = connectives(q)
    return Info(bool(want) and (len(c) > 1 or "rule" in c), sorted(c) + ["%s answers" % (
        "0" if not want else "1" if len(want) == 1 else "2-9" if len(want) < 10 else "10+")])


def check_error(case):
    """Some evaluation is an error: with a single order it must be reported, otherwise nothing is claimed."""
    return Info(False, ["reference-error"])


def gen_order(g, tier):
    pg = PG(g, rich=g.choice([0, 0.2]), depth=g.int(0, 2), annots=g.choice([0, 0, 0.3]))
    rules = pg.rules(g.int(1, 3))
    bs = pg.beliefs(g.int(0, 4))
    for _ in range(g.size(0, 3)):
        name = g.choice(list(pg.rule_preds))
        bs.append(lit(name, *[pg.value(0) for _ in pg.rule_preds[name]]))
    s = Scope()
    if g.prob(0.6):
        name = g.choice(list(pg.rule_preds))
        q = ["lit", lit(name, *[["v", v] for v in g.shuffle(VARS)[:len(pg.rule_preds[name])]])]
    else:
        q = pg.query(s)
    vs = [["v", v] for v in VARS]
    return {"beliefs": bs, "rules": rules, "goals": [A("go")],
            "plans": [{"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": [
                ["for", q, [["rec", [A("ans")] + vs]]],
                ["if", q, [["rec", [A("first")] + vs]], None],
                ["if", q, [["if", ["and", q, q], [["rec", [A("third")] + vs]], None]], None]]}]}


def check_order(case):
    res = interp.judge([case], cap=1500, fuel=5000)
    if res is None:
        return Info(False, ["inconclusive"])
    out, _ = res
    n = sum(1 for _, t in out.trace if t[0][1] == "ans")
    return Info(n >= 2, ["answers" if n >= 2 else "few"])


def node(i):
    return A("n%d" % i)


def gen_recursive(g, tier):
    kind = g.choice(["path", "app", "mem", "len"])
    X, Y, Z, T, N, H, L, M = [["v", v] for v in "XYZTNHLM"]
    consts = [A("a"), A("b"), ["n", 1], ["s", "a"], lit("f", A("a"))]
    if kind == "path":
        n = g.int(2, 6)
        edges = []
        for i in range(n):
            for j in range(i + 1, n):
                if g.prob(0.45):
                    edges.append(lit("edge", node(i), node(j)))
        base = [lit("path", X, Y), ["lit", lit("edge", X, Y)]]
        rec = [lit("path", X, Z), ["and", ["lit", lit("edge", X, Y)], ["lit", lit("path", Y, Z)]]]
        if g.prob(0.3):
            base = [lit("path", X, X), ["true"]]
        rules = [base, rec] if g.prob(0.5) else [rec, base]
        pick = lambda v: v if g.prob(0.6) else node(g.int(0, n - 1))
        q = ["lit", lit("path", pick(X), pick(Y))]
        return {"beliefs": edges, "rules": rules, "q": q}
    items = [g.choice(consts) for _ in range(g.size(0, 4))]
    lst = ["l", items]
    if items and g.prob(0.4):
        lst = ["c", items[0], ["l", items[1:]]]
    if kind == "app":
        rules = [[lit("app", ["l", []], L, L), ["true"]],
                 [lit("app", ["c", H, T], L, ["c", H, M]), ["lit", lit("app", T, L, M)]]]
        k = g.int(0, 2)
        if k == 0:
            q = ["lit", lit("app", X, Y, lst)]
        elif k == 1:
            q = ["lit", lit("app", lst, ["l", [g.choice(consts)]], X)]
        else:
            q = ["lit", lit("app", lst, X, ["l", items + [g.choice(consts)]])]
    elif kind == "mem":
        rules = [[lit("mem", X, ["c", X, T]), ["true"]],
                 [lit("mem", X, ["c", H, T]), ["lit", lit("mem", X, T)]]]
        q = ["lit", lit("mem", X if g.prob(0.7) else g.choice(consts), lst)]
        if g.prob(0.4):
            q = ["and", q, ["lit", lit("mem", g.choice([X, Y]), ["l", [g.choice(consts) for _ in range(3)]])]]
    else:
        rules = [[lit("len", ["l", []], ["n", 0]), ["true"]],
                 [lit("len", ["c", H, T], N), ["and", ["lit", lit("len", T, M)], ["unify", N, ["o", "+", M, ["n", 1]]]]]]
        q = ["lit", lit("len", lst, X)]
    if g.prob(0.3):
        q = ["and", q, ["not", ["unify", X, g.choice(consts)]]]
    return {"beliefs": [lit("edge", A("zz"), A("zz2"))], "rules": rules, "q": q}


FACETS = [
    Facet("reuse", strategy(gen_reuse), check_reuse, quick=300, thorough=12000),
    Facet("all", strategy(gen_all), check_all, quick=1200, thorough=30000),
    Facet("order", strategy(gen_order), check_order, quick=300, thorough=12000),
    Facet("recursive", strategy(gen_recursive), check_all, quick=250, thorough=8000),
]
