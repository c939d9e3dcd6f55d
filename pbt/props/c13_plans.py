"""C13: an event runs the first applicable plan, and only that one."""
from .. import interp
from ..core import Facet, Info, Violation
from ..gen import strategy, vars_of
from ..proggen import A, PG, Scope, lit

RULE = ("Random libraries of 2-9 plans with overlapping heads (constants, variables, structures, repeated variables, "
        "annotations; two functors, arities 0-2, all five trigger kinds) and contexts over random beliefs and rules or over the variables of the head; a "
        "sequence of goal, test, belief and removal events is posted; each plan records which it is and its bindings. "
        "Oracle: reference interpreter. Non-trivial: at least one event for which two or more plans have the right "
        "trigger, functor and arity.")
VARS = ["X", "Y", "Z"]


def head(g, pg, name, arity, annots):
    args = []
    for _ in range(arity):
        k = g.int(0, 9)
        if k < 4:
            args.append(["v", g.choice(VARS)])
        elif k < 7:
            args.append(g.choice([A("a"), A("b"), ["n", 1], ["s", "a"], ["b", True]]))
        elif k < 8:
            args.append(["_"])
        else:
            args.append(g.choice([lit("f", ["v", g.choice(VARS)]), ["c", ["v", "X"], ["v", "Y"]], ["l", [["v", "Z"]]]]))
    t = lit(name, *args)
    if g.prob(annots):
        t[3] = [g.choice([A("x"), lit("src", ["v", g.choice(VARS)]), lit("src", A("a")), lit("src", A("b")), A("y")])
                for _ in range(g.size(1, 2))]
    return t


def selective(g, h):
    """A context that some of the ways to match the head fulfil."""
    vs = sorted(set(vars_of(h)))
    if not vs:
        return None
    v = ["v", g.choice(vs)]
    value = g.choice([A("a"), A("b"), A("c"), ["n", 1], ["s", "a"], ["l", [A("a"), A("b")]]])
    q = g.choice([["lit", lit("p", v)], ["unify", v, value], ["act", ".member", [v, ["l", [value, A("d")]]]],
                  ["not", ["unify", v, value]], ["not", ["lit", lit("p", v)]]])
    if g.prob(0.3):
        w = ["v", g.choice(vs)]
        q = ["and", q, g.choice([["lit", lit("q", v, w)], ["not", ["unify", w, value]], ["or", ["unify", w, value], ["lit", lit("p", w)]]])]
    return q


def event_term(g, name, arity, annots, free):
    args = []
    for _ in range(arity):
        k = g.int(0, 9)
        if free and k < 3:
            args.append(["v", g.choice(["P", "Q"])])
        elif k < 8:
            args.append(g.choice([A("a"), A("b"), ["n", 1], ["s", "a"], ["b", True], ["n", 0]]))
        else:
            args.append(g.choice([lit("f", A("a")), ["l", [A("a"), A("b")]], ["c", A("a"), ["l", []]], ["l", []]]))
    t = lit(name, *args)
    if g.prob(annots):
        t[3] = [g.choice([A("x"), lit("src", A("a")), lit("src", A("b")), A("y"), lit("src", A("c")), lit("src", ["n", 1])])
                for _ in range(g.size(1, 4))]
    return t


def gen(g, tier):
    ann = g.choice([0, 0.3, 0.5])
    pg = PG(g, rich=0.1, preds={"p": "a", "q": "aa", "n": "n"}, depth=1, vars=VARS)
    rules = pg.rules(g.int(0, 2))
    sigs = [(n, a) for n in ("ev", "ew") for a in (0, 1, 2)]
    sigs = g.shuffle(sigs)[:g.int(1, 3)]
    if g.prob(0.04):
        sigs[0] = (sigs[0][0], g.int(3, 6))
    plans = []
    kinds = g.choice([["!"], ["?"], [""], ["!", "?", "", "-"]])
    for i in range(g.size(2, 9)):
        name, arity = g.choice(sigs)
        k = g.choice(kinds)
        h = head(g, pg, name, arity, ann)
        ctx = None
        if g.prob(0.6):
            sc = Scope(VARS if g.prob(0.2) else ())
            ctx = (selective(g, h) if g.prob(0.5) else None) or pg.query(sc, g.int(0, 2))
        plans.append({"t": "-" if k == "-" else "+", "g": "" if k == "-" else k, "head": h, "ctx": ctx,
                      "body": [["rec", [A("plan"), ["n", i]] + [["v", v] for v in VARS]]]})
    # catch-all plans keep the event sequence going
    for name, arity in sigs:
        if "!" in kinds and g.prob(0.8):
            plans.append({"t": "+", "g": "!", "head": lit(name, *[["v", v] for v in (VARS + ["U", "V", "W"])[:arity]]), "ctx": None,
                          "body": [["rec", [A("other"), A(name)]]]})
    body = []
    for _ in range(g.size(1, 6)):
        k = g.choice(kinds)
        name, arity = g.choice(sigs)
        t = event_term(g, name, arity, ann, k in "!?" and k != "")
        if k == "!":
            body.append([g.weighted([(4, "!"), (1, "!!")]), t])
        elif k == "?":
            body.append(["?", t])
        elif k == "-":
            body.append(["+", event_term(g, name, arity, ann, False)] if g.prob(0.3) else ["-", t])
        else:
            body.append(["+", t])
            if "-" in kinds and g.prob(0.5):
                body.append(["-", t])
        body.append(["rec", [A("after"), ["v", "P"], ["v", "Q"]]])
    plans.append({"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": body})
    bs = pg.beliefs(g.int(0, 6))
    if "?" in kinds:
        for _ in range(g.size(0, 3)):
            name, arity = g.choice(sigs)
            bs.append(event_term(g, name, arity, 0, False))
    return {"beliefs": bs, "rules": rules, "goals": [A("go")], "plans": plans}


def check(case):
    res = interp.judge([case])
    if res is None:
        return Info(False, ["inconclusive"])
    out, r = res
    if out.error is not None:
        msgs = [x.getMessage() for x in out.log.errors()]
        if "no applicable plan" in str(r.error):
            last = [f for f in case["plans"][-1]["body"] if f[0] == "!"]
            if not any(f[1][1] in m for f in last for m in msgs) and not \
                    any(f[1][1] in m for f in case["plans"][-1]["body"] if f[0] in ("!", "!!") for m in msgs):
                raise Violation("the failing goal is not named in %r\n%s" % (msgs, interp.prog_src(case)))
    sig = {}
    for p in case["plans"]:
        k = (p["t"] + p["g"], p["head"][1], len(p["head"][2]))
        sig[k] = sig.get(k, 0) + 1
    multi = any(sig.get(({"!": "+!", "!!": "+!", "?": "+?", "+": "+", "-": "-"}[f[0]], f[1][1], len(f[1][2])), 0) >= 2
                for f in case["plans"][-1]["body"] if f[0] != "rec")
    return Info(multi, ["error" if out.error is not None else "completed"] +
                sorted({f[0] for f in case["plans"][-1]["body"] if f[0] != "rec"}))


FACETS = [Facet("plans", strategy(gen), check, quick=1800, thorough=60000)]
