"""C02: failed or exhausted alternatives leave no bindings behind."""
from .. import interp
from ..core import Facet, Info
from ..gen import strategy, vars_of
from ..proggen import A, PG, Scope, lit

RULE = ("Random plan bodies made of conditions, loops, negations, tests with fall-back and contexts over queries that fail "
        "or are retried after having bound variables (beliefs, rules, conjunction, disjunction, unification of partial "
        "structures, annotated literals, enumerating and aggregating library actions); all variables are recorded before, "
        "inside and after every construct; nested: loops, branches and sub-goals nested up to depth 5; reuse: the same rules (ground and open heads, local variables) are queried again and again by one line of execution while beliefs come and go. Oracle: reference interpreter on immutable substitutions. Non-trivial: a "
        "construct whose query has an alternative that binds and is then given up (its reference evaluation has a failing "
        "branch or a second answer) - approximated by: contains and/or/not and at least four recorded effects.")
VARS = ["X", "Y", "Z", "U"]


def dump(g, tag):
    return ["rec", [A(tag)] + [["v", v] for v in VARS]]


def part(g, depth=1):
    """A partially known term."""
    k = g.int(0, 9)
    if k < 4 or depth == 0:
        return ["v", g.choice(VARS)] if g.prob(0.6) else g.choice([A("a"), A("b"), ["n", 1], ["n", 2]])
    if k < 7:
        return lit("f", *[part(g, depth - 1) for _ in range(g.size(1, 2))])
    if k < 8:
        return ["c", part(g, depth - 1), ["v", g.choice(VARS)]]
    return ["l", [part(g, depth - 1) for _ in range(g.size(1, 3))]]


def goal(g, pg, depth):
    if depth > 0:
        k = g.int(0, 9)
        if k < 4:
            return ["and", goal(g, pg, depth - 1), goal(g, pg, depth - 1)]
        if k < 6:
            return ["or", goal(g, pg, depth - 1), goal(g, pg, depth - 1)]
        if k < 7:
            return ["not", goal(g, pg, depth - 1)]
    k = g.int(0, 11)
    if k < 4:
        return pg.literal_query(Scope(VARS))
    if k < 7:
        l, r = part(g), part(g)
        if l[0] == "v" and l[1] in vars_of(r):
            r = A("a")
        return ["unify", l, r]
    if k < 8:
        return ["act", ".member", [part(g, 1), ["l", [part(g, 1) for _ in range(g.size(1, 3))]]]]
    if k < 9:
        return ["act", ".range", [["n", g.int(1, 3)], ["v", g.choice(VARS)]]]
    if k < 10:
        p = pg.literal_query(Scope(VARS))[1]
        return ["act", ".findall", [part(g, 1), p, g.choice([["v", g.choice(VARS)], ["l", []], ["c", ["v", "X"], ["v", "Y"]]])]]
    if k < 11:
        p = pg.literal_query(Scope(VARS))[1]
        return ["act", ".count", [p, g.choice([["v", g.choice(VARS)], ["n", g.int(0, 3)]])]]
    return [g.choice(["true", "false"])]


def construct(g, pg, depth):
    q = goal(g, pg, g.int(1, 3))
    if g.prob(0.3):
        q = ["and", q, g.choice([["false"], goal(g, pg, 1)])]
    k = g.choice(["if", "if", "for", "while", "or", "not", "sub", "ctx"])
    inner = [dump(g, "in")]
    if depth > 0 and g.prob(0.4):
        inner.append(construct(g, pg, depth - 1))
    if g.prob(0.3):
        inner.append(["q", ["or", ["unify", ["v", g.choice(VARS)], A("z")], ["true"]]])
    if k == "if":
        return ["if", q, inner, [dump(g, "otherwise")] if g.prob(0.7) else None]
    if k == "for":
        return ["for", q, inner]
    if k == "while":
        return ["while", ["and", ["lit", lit("cnt", ["v", "N"])], ["and", ["cmp", ">", ["v", "N"], ["n", 0]], q]],
                [["-+", lit("cnt", ["o", "-", ["v", "N"], ["n", 1]])]] + inner]
    if k == "or":
        return ["q", ["or", ["and", q, goal(g, pg, 1)], ["true"]]]
    if k == "not":
        return ["if", ["not", q], [dump(g, "neg")], [dump(g, "pos")]]
    if k == "sub":
        return ["!", lit("sub", *[["v", v] for v in VARS])]
    return ["!", lit("ctx", *[["v", v] for v in VARS])]


def gen(g, tier):
    pg = PG(g, vars=VARS, rich=g.choice([0, 0.3]), annots=g.choice([0, 0.25]), preds={"p": "a", "q": "aa", "n": "n"},
            depth=1)
    rules = pg.rules(g.int(0, 2))
    if g.prob(0.4):
        # a rule with several clauses that fail late
        rules += [[lit("late", ["v", "X"], ["v", "Y"]), ["and", goal(g, pg, 1), g.choice([["false"], goal(g, pg, 1)])]],
                  [lit("late", ["v", "X"], ["v", "Y"]), goal(g, pg, 1)]]
        pg.rule_preds["late"] = "aa"
    body = []
    for _ in range(g.size(0, 2)):
        l, r = ["v", g.choice(VARS)], part(g)
        if l[1] not in vars_of(r):
            body.append(["q", ["or", ["unify", l, r], ["true"]]])
    for _ in range(g.size(1, 3)):
        body += [construct(g, pg, 1), dump(g, "after")]
    vs = [["v", v] for v in VARS]
    # parameters of the sub plans are the variables of the caller
    plans = [
        {"t": "+", "g": "!", "head": lit("sub", *vs), "ctx": None,
         "body": [["if", goal(g, pg, 2), [dump(g, "sub")], None]] + [dump(g, "end_sub")]},
        {"t": "+", "g": "!", "head": lit("ctx", *[part(g, 1) for _ in VARS]), "ctx": ["and", goal(g, pg, 2), goal(g, pg, 1)],
         "body": [dump(g, "ctx")]},
        {"t": "+", "g": "!", "head": lit("ctx", *vs), "ctx": goal(g, pg, 1), "body": [dump(g, "ctx1")]},
        {"t": "+", "g": "!", "head": lit("ctx", *[["_"] for _ in VARS]), "ctx": None, "body": [dump(g, "ctx2")]},
        {"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": body},
    ]
    return {"beliefs": pg.beliefs(g.int(1, 7)) + [lit("cnt", ["n", g.int(1, 3)])], "rules": rules, "goals": [A("go")],
            "plans": plans}


def check(case):
    res = interp.judge([case], cap=600, fuel=5000)
    if res is None:
        return Info(False, ["inconclusive"])
    out, _ = res
    text = str(case["plans"][-1]["body"])
    conn = [k for k in ("and", "or", "not", "for", "while", "if") if "'%s'" % k in text]
    return Info(len(out.trace) >= 4 and bool({"and", "or", "not"} & set(conn)),
                conn + ["error" if out.error is not None else "completed"])


def nest(g, depth, calls):
    """Nested loops and branches over small enumerations, with bindings made at every level."""
    body = []
    for _ in range(g.weighted([(3, 1), (1, 2)])):
        k = g.weighted([(4, "loop"), (2, "bind"), (1, "call" if calls[1] else "bind"), (1, "if")]) if depth else "bind"
        v = ["v", g.choice(VARS + ["I", "J"])]
        src = g.choice([["act", ".range", [["n", 2], v]], ["act", ".member", [v, ["l", [A("a"), part(g, 0)]]]],
                        ["lit", lit("p", v)], ["true"], ["not", ["lit", lit("zz")]], ["cmp", "<", ["n", 1], ["n", 2]], ["or", ["unify", v, part(g, 1) if g.prob(0.3) else A("a")], ["unify", v, A("b")]],
                        ["and", ["act", ".member", [v, ["l", [A("a"), A("b")]]]], ["not", ["unify", ["v", g.choice(VARS)], A("a")]]]])
        if k == "loop" and g.prob(0.75):
            body.append(["for", src, nest(g, depth - 1, calls)])
        elif k == "loop":
            calls[0] += 1
            n = "c%d" % calls[0]        # a counter of its own: every loop ends
            body += [["-", lit(n, ["_"])], ["+", lit(n, ["n", 2])]]
            body.append(["while", ["and", ["lit", lit(n, ["v", "N"])], ["and", ["cmp", ">", ["v", "N"], ["n", 0]], src]],
                         [["-+", lit(n, ["o", "-", ["v", "N"], ["n", 1]])]] + nest(g, depth - 1, calls)])
        elif k == "if":
            body.append(["if", src, nest(g, depth - 1, calls), nest(g, depth - 1, calls) if g.prob(0.4) else None])
        elif k == "call":
            body.append(["!", lit("sub", *[["v", x] for x in g.shuffle(VARS)])])
        else:
            body.append(["q", ["or", ["unify", v, part(g, 0)], ["true"]]])
        if g.prob(0.5):
            body.append(dump(g, "d%d" % depth))
    return body


def gen_nested(g, tier):
    depth = g.int(1, 5)
    sites = [0, True]
    body = []
    for _ in range(g.size(0, 2)):
        body.append(["q", ["or", ["unify", ["v", g.choice(VARS)], g.choice([A("a"), ["n", 1], ["v", g.choice(VARS)], lit("f", A("b"))])], ["true"]]])
    for _ in range(g.size(1, 2)):
        body += nest(g, depth, sites) + [dump(g, "after")]
    plans = [{"t": "+", "g": "!", "head": lit("sub", *[["v", v] for v in VARS]), "ctx": None, "body": nest(g, g.int(0, 2), [100, False]) + [dump(g, "sub")]},
             {"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": body}]
    return {"beliefs": [lit("p", A(x)) for x in "ab"[:g.int(0, 2)]], "goals": [A("go")], "plans": plans}


def loops(body):
    return max([0] + [loops(f[2]) + (f[0] != "if") if f[0] in ("if", "for", "while") else 0 for f in body])


def check_nested(case):
    res = interp.judge([case], cap=60, fuel=2500)
    if res is None:
        return Info(False, ["inconclusive"])
    d = loops(case["plans"][-1]["body"])
    return Info(d >= 2 and len(res[0].trace) >= 4, ["loops %d" % d])


RV = ["X", "Y", "L"]        # variables of rules, also used by the plans


def gen_reuse(g, tier):
    """The same few rules are used again and again by one line of execution while beliefs come and go."""
    sigs = [("p", 1), ("q", 2)]
    var = lambda: ["v", g.choice(RV)]
    const = lambda: g.choice([A("a"), A("b"), ["n", 1]])

    def arg(ground=0.3):
        return const() if g.prob(ground) else g.weighted([(8, 0), (1, 1), (1, 2)]) and g.choice([["_"], lit("f", var()), ["l", [var()]]]) or var()

    def literal(upto=None):
        name, n = g.choice(sigs if upto is None else sigs[:upto])
        return ["lit", lit(name, *[arg() for _ in range(n)])]
    rules = []
    for i in range(g.size(1, 3)):
        name, n = "r%d" % i, g.weighted([(3, 0), (5, 1), (2, 2)])
        upto = len(sigs)
        for _ in range(g.size(1, 2)):
            head = lit(name, *[const() if g.prob(0.4) else arg(0.2) for _ in range(n)])
            k = g.weighted([(5, 1), (4, 2), (1, 3), (1, 0)])
            if k == 0:
                rules.append([head, g.choice([["true"], ["unify", var(), g.choice([const(), var()])]])])
                continue
            body = literal(upto)
            for _ in range(k - 1):
                body = [g.choice(["and", "and", "and", "or"]), body, g.choice([literal(upto), literal(upto), ["not", literal(upto)],
                                                                               ["unify", var(), g.choice([const(), var()])]])]
            rules.append([head, body])
        sigs.append((name, n))
    rule_sigs = sigs[2:]
    args = lambda: [const() if g.prob(0.35) else ["v", g.choice(VARS)] if g.prob(0.85) else g.choice([["_"], lit("f", ["v", g.choice(VARS)])])]

    def use():
        name, n = g.choice(rule_sigs if g.prob(0.85) else sigs)
        return lit(name, *[args()[0] for _ in range(n)])

    def step(depth):
        k = g.weighted([(4, "if"), (3, "soft"), (2, "test"), (4, "change"), (1, "for"), (1, "not"), (2, "same"), (1, "sub")])
        if k == "if":
            return [["if", ["lit", use()], [dump(g, "yes")] + (step(depth - 1) if depth and g.prob(0.5) else []), [dump(g, "no")]]]
        if k == "soft":
            return [["q", ["or", ["lit", use()], ["true"]]], dump(g, "soft")]
        if k == "test":
            return [["?", use()], dump(g, "tested")]
        if k == "for":
            return [["for", ["lit", use()], [dump(g, "each")] + (step(depth - 1) if depth else [])]]
        if k == "not":
            return [["if", ["not", ["lit", use()]], [dump(g, "neg")], None]]
        if k == "same":
            u = ["lit", use()]
            return [["q", ["or", u, ["true"]]], ["if", ["and", u, u], [dump(g, "both")], [dump(g, "once")]]]
        if k == "sub":
            return [["!", lit("sub", *[["v", v] for v in g.shuffle(VARS)[:2]])], dump(g, "back")]
        name, n = g.choice(sigs[:2])
        if g.prob(0.5):
            return [["+", lit(name, *[const() for _ in range(n)])]]
        return [["-", lit(name, *[g.choice([["_"], const()]) for _ in range(n)])]]
    body = []
    for _ in range(g.size(3, 9)):
        body += step(1)
    sub = [["q", ["or", ["lit", use()], ["true"]]], ["if", ["lit", use()], [dump(g, "insub")], None]]
    beliefs = [lit(name, *[const() for _ in range(n)]) for name, n in [g.choice(sigs[:2]) for _ in range(g.size(0, 4))]]
    return {"beliefs": beliefs, "rules": rules, "goals": [A("go")], "plans": [
        {"t": "+", "g": "!", "head": lit("sub", ["v", "X"], ["v", "Z"]), "ctx": ["lit", use()] if g.prob(0.3) else None, "body": sub},
        {"t": "+", "g": "!", "head": lit("sub", ["v", "X"], ["v", "Z"]), "ctx": None, "body": [dump(g, "other")]},
        {"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": body}]}


def check_reuse(case):
    res = interp.judge([case], cap=400, fuel=4000)
    if res is None:
        return Info(False, ["inconclusive"])
    out, _ = res
    return Info(len(out.trace) >= 3, ["effects %d" % min(9, len(out.trace)), "error" if out.error is not None else "completed"])


FACETS = [Facet("reuse", strategy(gen_reuse), check_reuse, quick=450, thorough=20000),
          Facet("bodies", strategy(gen), check, quick=1300, thorough=60000),
          Facet("nested", strategy(gen_nested), check_nested, quick=350, thorough=15000)]
