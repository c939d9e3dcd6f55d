"""C14: plan bodies follow structured control flow."""
from .. import interp
from ..core import Facet, Info
from ..gen import strategy
from ..proggen import A, PG, VARS, Scope, lit

RULE = ("Random plan bodies (1-8 top level formulas, nesting up to 3) over tests, updates, sub-goals, if/else, while and "
        "for with conditions over random beliefs, rules, negation, unification, comparison; every case compares the whole "
        "effect trace, the outcome and the final beliefs with a structured reference interpreter (searching the order of "
        "beliefs). Non-trivial: at least two recorded effects or an error after control structure, and at least one "
        "if/while/for in the program.")
ASSUMPTIONS = ["loop bodies that need more than 3000 reference steps are outside the explored domain"]


def gen(g, tier):
    pg = PG(g, rich=g.choice([0, 0.3]), annots=g.choice([0, 0, 0.2]), risky=g.choice([0, 0, 0.05]),
            vars=VARS[:g.choice([1, 2, 2, 3, 5, 5])])
    rules = pg.rules(g.int(0, 2))
    plans = []
    n_goals = g.int(0, 2)
    for i in reversed(range(n_goals)):
        name, arity = "g%d" % i, g.int(0, 2)
        params = [["v", v] for v in ["X", "Y"][:arity]]
        plans.append({"t": "+", "g": "!", "head": lit(name, *params), "ctx": None,
                      "body": pg.body(Scope(), 1, 3)})
        pg.goals.append((name, arity))
    main = pg.body(Scope(), g.int(1, 3), 6, 1) + [["rec", [A("done")]]]
    plans.append({"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": main})
    return {"prog": {"beliefs": pg.beliefs(g.int(0, 6)) + getattr(pg, "extra_beliefs", []), "rules": rules,
                     "goals": [A("go")], "plans": plans}}


def structures(body):
    for f in body:
        if f[0] in ("if", "while", "for"):
            yield f[0]
            yield from structures(f[2])
            if f[0] == "if" and f[3]:
                yield from structures(f[3])


def check(case):
    res = interp.judge([case["prog"]])
    if res is None:
        return Info(False, ["inconclusive"])
    out, r = res
    kinds = sorted({k for p in case["prog"]["plans"] for k in structures(p["body"])})
    labels = kinds + ["error" if out.error is not None else "completed"]
    return Info(bool(kinds) and len(out.trace) >= 2, labels)


FACETS = [Facet("bodies", strategy(gen), check, quick=1800, thorough=60000)]
