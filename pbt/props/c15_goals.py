"""C15: goals pass parameters both ways and isolate variable scopes."""
from .. import interp
from ..core import Facet, Info
from ..gen import strategy, vars_of
from ..proggen import A, PG, Scope, lit

RULE = ("systems: random stratified systems of goals with one to three parameters called with free, bound, aliased and "
        "partially known arguments, whose bodies unify parameters with structures, post further goals (also detached) and "
        "record their variables; recursive: the same along a counting recursion with operations before and after the "
        "recursive call; mutual: goals that call each other and themselves with any arguments, where beliefs end the recursion; classic: list and number relations computed by goals. All plans use the same variable names. "
        "Oracle: reference interpreter with one substitution per intention. Non-trivial: at least one call passes a free "
        "variable or partial structure and at least three effects are recorded.")
VARS = ["X", "Y", "Z"]


def arg(g, depth=1):
    k = g.int(0, 11)
    if k < 5:
        return ["v", g.choice(VARS)]
    if k < 7:
        return g.choice([A("a"), A("b"), ["n", 1], ["s", "a"]])
    if k < 8:
        return ["_"]
    if depth <= 0:
        return ["v", g.choice(VARS)]
    if k < 10:
        return lit("f", *[arg(g, depth - 1) for _ in range(g.size(1, 2))])
    if k < 11:
        return ["c", arg(g, depth - 1), ["v", g.choice(VARS)] if g.prob(0.6) else ["l", []]]
    return ["l", [arg(g, depth - 1) for _ in range(g.size(1, 2))]]


def soft(l, r):
    if l[1] in vars_of(r):
        r = A("a")
    return ["q", ["or", ["unify", l, r], ["true"]]]


def step(g, goals, depth=1):
    k = g.weighted([(5, "unify"), (4, "call"), (3, "rec"), (1, "later"), (1, "pred"), (1, "branch"), (1, "loop"), (1, "test")])
    if k == "call" and goals:
        name, arity = g.choice(goals)
        return ["!", lit(name, *[arg(g) for _ in range(arity)])]
    if k == "later" and goals:
        name, arity = g.choice(goals)
        return ["!!", lit(name, *[arg(g) for _ in range(arity)])]
    if k == "rec":
        return rec(g)
    if k == "pred":
        return ["q", ["or", ["lit", lit("d", ["v", g.choice(VARS)], arg(g, 0))], ["true"]]]
    if k == "test":
        return ["?", lit("tst", arg(g, 0), arg(g, 0))]
    if k == "branch" and depth:
        return ["if", ["unify", ["v", g.choice(VARS)], arg(g)], [step(g, goals, 0)],
                [step(g, goals, 0)] if g.prob(0.5) else None]
    if k == "loop" and depth:
        return ["for", ["lit", lit("d", ["v", g.choice(VARS)], ["v", g.choice(VARS)])], [step(g, goals, 0), rec(g)]]
    return soft(["v", g.choice(VARS)], arg(g))


def rec(g):
    return ["rec", [A("e%d" % g.int(0, 9))] + [["v", v] for v in VARS]]


def params(g, arity):
    k = g.int(0, 4)
    if k < 3:
        return [["v", v] for v in g.shuffle(VARS)[:arity]]
    return [arg(g) for _ in range(arity)]


def gen_systems(g, tier):
    goals, plans = [], []
    for i in reversed(range(g.size(1, 4))):
        name, arity = "g%d" % i, g.int(1, 3)
        for _ in range(g.size(1, 2)):
            plans.append({"t": "+", "g": "!", "head": lit(name, *params(g, arity)),
                          "ctx": None if g.prob(0.8) else ["or", ["unify", ["v", "Z"], arg(g)], ["true"]],
                          "body": [step(g, goals) for _ in range(g.size(0, 4))]})
        plans.append({"t": "+", "g": "!", "head": lit(name, *[["v", v] for v in VARS[:arity]]), "ctx": None,
                      "body": [rec(g)]})
        goals.append((name, arity))
    plans.append({"t": "+", "g": "?", "head": lit("tst", ["v", "X"], ["v", "Y"]), "ctx": None,
                  "body": [soft(["v", "X"], arg(g)), soft(["v", "Y"], arg(g))]})
    body = []
    for _ in range(g.size(2, 6)):
        body.append(step(g, goals))
        if g.prob(0.5):
            body.append(rec(g))
    plans.append({"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": body + [rec(g)]})
    return {"beliefs": [lit("d", A("a"), ["n", 1]), lit("d", A("b"), ["n", 2])][:g.int(0, 2)], "goals": [A("go")],
            "plans": plans}


def gen_recursive(g, tier):
    arity = g.int(1, 2)
    vs = ["X", "Y"][:arity]
    N = ["v", "N"]
    base_body = [step(g, []) for _ in range(g.size(0, 2))]
    pre = [step(g, []) for _ in range(g.size(0, 3))]
    post = [step(g, []) for _ in range(g.size(0, 3))]
    name2 = "r2" if g.prob(0.3) else "r"
    down = ["!", lit(name2, ["o", "-", N, ["n", 1]], *[arg(g) for _ in range(arity)])]
    calls = [down] + ([down] if g.prob(0.2) else [])
    plans = [{"t": "+", "g": "!", "head": lit("r", ["n", 0], *params(g, arity)), "ctx": None, "body": base_body},
             {"t": "+", "g": "!", "head": lit("r", N, *[["v", v] for v in vs]),
              "ctx": ["cmp", ">", N, ["n", 0]], "body": pre + calls + post + [rec(g)]},
             {"t": "+", "g": "!", "head": lit("r", *[["_"] for _ in range(arity + 1)]), "ctx": None, "body": [rec(g)]}]
    if name2 == "r2":
        plans.append({"t": "+", "g": "!", "head": lit("r2", N, *[["v", v] for v in g.shuffle(VARS)[:arity]]), "ctx": None,
                      "body": [step(g, []), ["!", lit("r", N, *[arg(g) for _ in range(arity)])], step(g, [])]})
    plans.append({"t": "+", "g": "?", "head": lit("tst", ["v", "X"], ["v", "Y"]), "ctx": None,
                  "body": [soft(["v", "Y"], arg(g))]})
    body = [soft(["v", g.choice(VARS)], arg(g)) for _ in range(g.size(0, 2))]
    body += [[g.weighted([(5, "!"), (1, "!!")]), lit("r", ["n", g.int(0, 4)], *[arg(g) for _ in range(arity)])], rec(g)]
    if g.prob(0.4):
        body += [soft(["v", g.choice(VARS)], arg(g)), ["!", lit("r", ["n", g.int(0, 2)], *[arg(g) for _ in range(arity)])],
                 rec(g)]
    plans.append({"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": body})
    return {"beliefs": [lit("d", A("a"), ["n", 1])], "goals": [A("go")], "plans": plans}


def gen_mutual(g, tier):
    """Goals that call each other and themselves; each call site is passed once or twice, so that the recursion ends."""
    sigs = [("m%d" % i, g.int(1, 3)) for i in range(g.size(1, 3))]
    sites = [0]

    def site(_=None):
        name, arity = g.choice(sigs)
        args = [["_"] for _ in range(arity)] if g.prob(0.15) else g.shuffle([["v", v] for v in VARS])[:arity] if g.prob(0.4) else [
            arg(g) for _ in range(arity)]
        sites[0] += 1
        mark = lit("mark", ["n", sites[0]], ["n", 0])
        guard = ["not", ["lit", mark]]
        first = ["+", mark]
        if g.prob(0.3):
            again = lit("mark", ["n", sites[0]], ["n", 1])
            guard = ["or", guard, ["not", ["lit", again]]]
            first = ["if", ["lit", mark], [["+", again]], [first]]
        rest = [step(g, [], 0) for _ in range(g.size(0, 2))]
        return ["if", guard, [first, ["!" if g.prob(0.9) else "!!", lit(name, *args)]],
                rest if rest and g.prob(0.7) else None]

    def body():
        res = []
        for _ in range(g.size(1, 4)):
            res.append(site() if g.prob(0.5) else step(g, []))
        return res + [rec(g)]
    plans = []
    for name, arity in sigs:
        if g.prob(0.3):
            plans.append({"t": "+", "g": "!", "head": lit(name, *params(g, arity)), "ctx": ["unify", ["v", "Z"], arg(g)], "body": body()})
        plans.append({"t": "+", "g": "!", "head": lit(name, *g.shuffle([["v", v] for v in VARS])[:arity]), "ctx": None, "body": body()})
    plans.append({"t": "+", "g": "?", "head": lit("tst", ["v", "X"], ["v", "Y"]), "ctx": None,
                  "body": [soft(["v", "Y"], arg(g))]})
    name, arity = g.choice(sigs)
    plans.append(plan(A("go"), None, ["!", lit(name, *[["_"] if g.prob(0.3) else arg(g) for _ in range(arity)])], rec(g), site(), rec(g)))
    return {"beliefs": [lit("d", A("a"), ["n", 1])], "goals": [A("go")], "plans": plans}


def plan(h, ctx, *body):
    return {"t": "+", "g": "!", "head": h, "ctx": ctx, "body": list(body)}


def gen_classic(g, tier):
    X, Y, Z, T, N, M, H, L, R, S = [["v", v] for v in "XYZTNMHLRS"]
    nil = ["l", []]
    items = [g.choice([A("a"), ["n", 1], ["v", "Q"], ["l", [A("b")]]]) for _ in range(g.size(0, 5))]
    given = ["l", items]
    if items and g.prob(0.4):
        given = ["c", items[0], ["l", items[1:]]]
    plans = [
        plan(lit("app", nil, L, L), None),
        plan(lit("app", ["c", H, T], L, ["c", H, R]), None, ["!", lit("app", T, L, R)]),
        plan(lit("rev", nil, L, L), None),
        plan(lit("rev", ["c", H, T], L, R), None, ["!", lit("rev", T, ["c", H, L], R)]),
        plan(lit("len", nil, ["n", 0]), None),
        plan(lit("len", ["c", H, T], N), None, ["!", lit("len", T, M)], ["q", ["unify", N, ["o", "+", M, ["n", 1]]]]),
        plan(lit("fib", N, N), ["cmp", "<", N, ["n", 2]]),
        plan(lit("fib", N, R), None, ["!", lit("fib", ["o", "-", N, ["n", 1]], X)],
             ["!", lit("fib", ["o", "-", N, ["n", 2]], Y)], ["q", ["unify", R, ["o", "+", X, Y]]]),
        plan(lit("upto", N, N, ["l", [N]]), None),
        plan(lit("upto", N, M, ["c", N, L]), None, ["!", lit("upto", ["o", "+", N, ["n", 1]], M, L)]),
    ]
    calls = []
    for _ in range(g.size(1, 3)):
        k = g.choice(["app", "rev", "len", "fib", "upto", "app2"])
        v = g.choice([X, Y, Z])
        if k == "app":
            calls.append(["!", lit("app", given, g.choice([nil, v, ["l", [A("c")]]]), R)])
        elif k == "app2":
            calls.append(["!", lit("app", given, v, ["l", items + [A("z")]])])
        elif k == "rev":
            calls.append(["!", lit("rev", given, nil, g.choice([R, S]))])
        elif k == "len":
            calls.append(["!", lit("len", given, g.choice([N, M]))])
        elif k == "fib":
            calls.append(["!", lit("fib", ["n", g.int(0, 7)], H)])
        else:
            calls.append(["!", lit("upto", ["n", 1], ["n", g.int(1, 6)], T)])
    body = []
    for c in calls:
        body += [c, ["rec", [A("r"), X, Y, Z, T, N, ["l", [M, H, L, R, S, ["v", "Q"]]]]]]
    plans.append(plan(A("go"), None, *body))
    return {"goals": [A("go")], "plans": plans}


def check(case):
    res = interp.judge([case], fuel=6000)
    if res is None:
        return Info(False, ["inconclusive"])
    out, _ = res
    calls = [f for p in case["plans"] for f in p["body"] if f[0] in ("!", "!!")]
    passing = any(a[0] in "vclf" and (a[0] != "f" or a[2]) for f in calls for a in f[1][2])
    return Info(passing and len(out.trace) >= 3 or len(out.trace) >= 1 and passing and "fib" in str(case),
                ["error" if out.error is not None else "completed"])


FACETS = [
    Facet("systems", strategy(gen_systems), check, quick=900, thorough=40000),
    Facet("recursive", strategy(gen_recursive), check, quick=500, thorough=20000),
    Facet("mutual", strategy(gen_mutual), check, quick=900, thorough=40000),
    Facet("classic", strategy(gen_classic), check, quick=200, thorough=6000),
]
