"""C03: annotations match as sub-sets, never one annotation twice."""
import collections
from .. import interp, ref, sut
from ..core import Facet, Info, Violation
from ..gen import strategy, vars_of
from ..proggen import A, PG, Scope, lit
from .c12_queries import key

RULE = ("api: pattern and literal with 0-4 annotations each (constants, structures, variables shared with the arguments, "
        "annotated annotations), built in two written orders; the answers of annotated unification as a multiset of bindings "
        "are compared with an independent enumeration of injective pairings. prog: the same vocabulary in belief queries, "
        "removals, bulk removal, plan heads and messages, against the reference interpreter. Every shard uses another "
        "string-hash seed. Non-trivial: both sides have annotations and the pattern has at least two, or a variable in one.")
ASSUMPTIONS = ["annotations are literals, numbers, strings or variables; numbers and booleans are not mixed as raw annotations"]
VARS = ["X", "Y", "Z"]


def annot(g, vars, depth=1, raw=True):
    k = g.int(0, 11)
    if k < 4:
        return g.choice([A("x"), A("y"), A("z")])
    if k < 8:
        t = lit("src", ["v", g.choice(vars)] if vars and g.prob(0.5) else g.choice([A("a"), A("b")]))
    elif k < 9 and vars and raw:
        return ["v", g.choice(vars)]
    elif k < 10:
        t = lit("f", ["v", g.choice(vars)] if vars and g.prob(0.4) else A("a"), g.choice([A("a"), ["n", 1]]))
    else:
        return g.choice([["n", 1], ["n", 2], ["s", "a"]])
    if depth > 0 and g.prob(0.2):
        t[3] = [annot(g, vars, 0, raw) for _ in range(g.size(1, 2))]
    return t


def pair(g):
    arity = g.int(0, 2)
    right_vars = VARS[2:] if g.prob(0.2) else []
    consts = [A("a"), A("b"), ["n", 1]]
    right = lit("foo", *[g.choice(consts) for _ in range(arity)])
    right[3] = [annot(g, right_vars, raw=False) for _ in range(g.size(0, 4))]
    if g.prob(0.15):
        right[3] += right[3][:1]
    left = lit("foo", *[["v", g.choice(VARS[:2])] if g.prob(0.5) else a for a in right[2]])
    anns = []
    n = g.size(0, 3)
    for _ in range(n):
        if right[3] and g.prob(0.7 if n <= 3 else 0.95):
            a = g.choice(right[3])
            if a[0] == "f" and a[2] and g.prob(0.6):
                a = ["f", a[1], [["v", g.choice(VARS[:2])]] + a[2][1:], a[3] if g.prob(0.5) else []]
            anns.append(a)
        else:
            anns.append(annot(g, VARS[:2]))
    left[3] = anns
    return left, right


def gen_api(g, tier):
    left, right = pair(g)
    prior = [["X", g.choice([A("a"), A("b"), A("x")])]] if g.prob(0.2) else []
    return {"left": left, "right": right, "prior": prior, "lp": g.int(0, 23), "rp": g.int(0, 23)}


def permuted(items, k):
    items = list(items)
    res = []
    while items:
        res.append(items.pop(k % len(items)))
        k //= max(1, len(items) + 1)
    return res


def check_api(case):
    agentspeak = sut.agentspeak
    left, right = case["left"], case["right"]
    vs = VARS
    try:
        s0 = {}
        for v, t in case["prior"]:
            s0 = ref.unify(("v", v), ref.term(t), s0)
        want = [key([ref.strip(ref.resolve(("v", v), s)) for v in vs])
                for s in ref.unify_annotated(ref.term(left), ref.term(right), s0)]
    except ref.Skip:
        return Info(False, ["skipped"])
    for lp, rp in ((0, 0), (case["lp"], case["rp"])):
        env, scope, stack = {}, {}, collections.deque()
        for v, t in case["prior"]:
            agentspeak.unify(sut.to_sut(["v", v], env), sut.to_sut(t, env), scope, stack)
        l = sut.to_sut(left[:3] + [permuted(left[3], lp)], env)
        r = sut.to_sut(right[:3] + [permuted(right[3], rp)], env)
        before = dict(scope)
        got = []
        for _ in agentspeak.unify_annotated(l, r, scope, stack):
            memo, nm = {}, {}
            got.append(key([ref.strip(sut.from_sut(agentspeak.freeze(sut.to_sut(["v", v], env), scope, memo), nm))
                            for v in vs]))
        if collections.Counter(got) != collections.Counter(want):
            raise Violation("%s matched with %s given %s:\ngot %r\nexpected %r" % (
                sut.src(left), sut.src(right), case["prior"], got, want))
        if scope != before:
            raise Violation("%s matched with %s: bindings left behind after the last answer" % (sut.src(left), sut.src(right)))
    if not case["prior"]:
        env = {}
        if bool(want) != bool(agentspeak.unifies_annotated(sut.to_sut(left, env), sut.to_sut(right, env))):
            raise Violation("unifies_annotated(%s, %s) is not %r" % (sut.src(left), sut.src(right), bool(want)))
    nt = bool(right[3]) and (len(left[3]) >= 2 or any(vars_of(a) for a in left[3]))
    return Info(nt, ["match" if len(want) == 1 else "no-match" if not want else "several"])


def gen_prog(g, tier):
    pairs = [pair(g) for _ in range(g.size(1, 3))]
    beliefs = []
    patterns = []
    for l, r in pairs:
        if not vars_of(r):
            beliefs.append(r)
        patterns.append(l)
    if not beliefs:
        beliefs.append(["f", "foo", [], [A("x"), A("y")]])
    vs = [["v", v] for v in VARS[:2]]
    body = []
    plans = []
    n = 0
    for l in g.shuffle(patterns):
        k = g.int(0, 7)
        if k <= 1:
            body.append(["for", ["lit", l], [["rec", [A("ans")] + vs]]])
        elif k == 2:
            body.append(["if", ["lit", l], [["rec", [A("yes")] + vs]], [["rec", [A("no")] + vs]]])
        elif k == 3:
            body.append(["-", l])
            body.append(["rec", [A("removed")] + vs])
        elif k == 4:
            body.append(["q", ["act", ".abolish", [l]]])
        elif k == 5:
            gl = [b for b in beliefs]
            b = g.choice(gl)
            name = "goal%d" % n
            n += 1
            plans.append({"t": "+", "g": "!", "head": [l[0], name, l[2], l[3]], "ctx": None,
                          "body": [["rec", [A("matched")] + vs]]})
            plans.append({"t": "+", "g": "!", "head": ["f", name, [["_"] for _ in b[2]], []], "ctx": None,
                          "body": [["rec", [A("other")] + vs]]})
            body.append(["!", ["f", name, b[2], b[3]]])
        elif k == 6:
            b = g.choice(beliefs)
            plans.append({"t": "+", "g": "", "head": [l[0], "ev", l[2], l[3]], "ctx": None,
                          "body": [["rec", [A("event")] + vs]]})
            body.append(["+", ["f", "ev", b[2], b[3]]])
        else:
            body.append(["if", ["unify", l, g.choice(beliefs)], [["rec", [A("unified")] + vs]], None])
        if g.prob(0.3):
            body.append(["?", l] if g.prob(0.3) else ["+", g.choice(beliefs)])
    plans.append({"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": body})
    return {"beliefs": beliefs, "goals": [A("go")], "plans": plans}


def check_prog(case):
    res = interp.judge([case], cap=600)
    if res is None:
        return Info(False, ["inconclusive"])
    out, _ = res
    return Info("src" in str(case["plans"]) or "'x'" in str(case["plans"]),
                ["error" if out.error is not None else "completed"] + sorted({t[0][1] for _, t in out.trace}))


FACETS = [
    Facet("api", strategy(gen_api), check_api, quick=3000, thorough=100000),
    Facet("prog", strategy(gen_prog), check_prog, quick=900, thorough=40000),
]
