"""C11: the belief base follows the history of updates exactly."""
from .. import interp, ref, sut
from ..core import Facet, Info, Violation
from ..gen import strategy
from ..proggen import A, PG, Scope, lit

RULE = ("history: random sequences (up to 14) of additions, removals, replacements and bulk deletions over a small vocabulary "
        "(numbers, strings, booleans, lists in both notations, structures, annotations), with recording event handlers; "
        "messages: the same with updates told and untold by a second agent; iter: updates of the iterated predicate inside a "
        "for loop. Oracle: reference set model inside the reference interpreter; events and final beliefs compared. "
        "Non-trivial: at least three updates, one of which removes or replaces.")
ASSUMPTIONS = ["bulk deletion (.abolish) triggers no events", "annotations of beliefs are literals"]


def handlers(g, pg):
    plans = []
    for name, types in pg.preds.items():
        for t in "+-":
            if g.prob(0.6):
                args = [["v", v] for v in ["X", "Y"][:len(types)]]
                head = lit(name, *args)
                if g.prob(0.15):
                    head[3] = [lit("src", ["v", "S"])]
                body = [["rec", [A("add" if t == "+" else "del"), A("h_" + name)] + args]]
                if g.prob(0.15):
                    pg.rank_min = ["t", "p", "q", "n", "m"].index(name) + 1
                    body += [f for f in [update(g, pg, Scope(["X", "Y"][:len(types)]))] if f]
                    pg.rank_min = 0
                plans.append({"t": t, "g": "", "head": head, "ctx": None, "body": body})
    return plans


def update(g, pg, scope):
    name = pg.update_pred()
    if name is None:
        return None
    types = pg.preds[name]
    k = g.weighted([(8, "+"), (6, "-"), (4, "-+"), (1, "abolish")])
    if k == "+" or k == "-+":
        t = lit(name, *[pg.ground_arg(x, scope) for x in types])
        t[3] = pg.annots()
        return [k, t]
    t = pg.pattern(name, types, scope)
    if k == "abolish":
        return ["q", ["act", ".abolish", [t]]]
    pg.bind_pattern(t, types, scope) if g.prob(0.2) else None
    return ["-", t]


def observe(g, pg):
    name = g.choice(list(pg.preds))
    args = [["v", "%s%d" % (v, g.int(0, 99))] for v in ["O", "P"][:len(pg.preds[name])]]
    return ["for", ["lit", lit(name, *args)], [["rec", [A("see"), A("h_" + name)] + args]]]


def preds(g):
    return {k: v for k, v in [("t", ""), ("p", "a"), ("q", "aa"), ("n", "n"), ("m", "an")] if k == "p" or g.prob(0.5)}


def gen_history(g, tier):
    pg = PG(g, rich=g.choice([0.2, 0.6]), annots=g.choice([0, 0.3, 0.6]), risky=g.choice([0, 0, 0.06]), preds=preds(g))
    plans = handlers(g, pg)
    scope = Scope()
    body = []
    for _ in range(g.size(3, 14)):
        f = update(g, pg, scope)
        if f:
            body.append(f)
        if g.prob(0.15):
            body.append(observe(g, pg))
        if g.prob(0.1):
            body.append(["rec", [A("vars"), ["v", "X"], ["v", "Y"]]])
    body.append(["rec", [A("done")]])
    plans.append({"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": body})
    return {"prog": {"beliefs": pg.beliefs(g.int(0, 5)), "goals": [A("go")], "plans": plans}}


def count(prog):
    n = rem = 0
    for p in prog["plans"]:
        for f in p["body"]:
            if f[0] in ("+", "-", "-+"):
                n += 1
                rem += f[0] != "+"
            elif f[0] == "q":
                n += 1
                rem += 1
    return n, rem


def check_history(case):
    res = interp.judge([case["prog"]])
    if res is None:
        return Info(False, ["inconclusive"])
    out, _ = res
    if out.error is not None:
        kinds = [r.getMessage() for r in out.log.errors()]
        if not kinds:
            raise Violation("a failed update was not reported")
    n, rem = count(case["prog"])
    return Info(n >= 3 and rem >= 1, ["error" if out.error is not None else "completed",
                                      "events" if any(t[0][1] in ("add", "del") for _, t in out.trace) else "quiet"])


def gen_iter(g, tier):
    pg = PG(g, rich=g.choice([0, 0.4]), annots=0, preds={"p": "a", "q": "aa", "n": "n"})
    plans = handlers(g, pg)
    name = g.choice(["p", "q", "n"])
    args = [["v", v] for v in ["X", "Y"][:len(pg.preds[name])]]
    scope = Scope([a[1] for a in args], [args[0][1]] if name == "n" else [])
    body = [["rec", [A("visit")] + args]]
    for _ in range(g.size(1, 3)):
        k = g.choice(["+", "-", "-+", "-all"])
        if k == "-all":
            body.append(["-", lit(name, *[["_"] for _ in args])])
        elif k == "-":
            body.append(["-", lit(name, *args)])
        else:
            body.append([k, lit(name, *[pg.ground_arg(x, scope) for x in pg.preds[name]])])
    main = [["for", ["lit", lit(name, *args)], body], ["rec", [A("done")]]]
    bs = [b for b in pg.beliefs(g.int(3, 12)) if b[1] == name] + \
        [lit(name, *[pg.typed_value(x) for x in pg.preds[name]]) for _ in range(g.size(1, 3))]
    plans.append({"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": main})
    return {"prog": {"beliefs": bs, "goals": [A("go")], "plans": plans}}


def check_iter(case):
    res = interp.judge([case["prog"]], cap=1500)
    if res is None:
        return Info(False, ["inconclusive"])
    out, _ = res
    return Info(sum(1 for _, t in out.trace if t[0][1] == "visit") >= 2, ["checked"])


def gen_messages(g, tier):
    pg = PG(g, rich=g.choice([0, 0.4]), annots=g.choice([0, 0.3]), preds=preds(g), risky=0)
    plans = handlers(g, pg)
    rounds = []
    senders = []
    scope = Scope()
    body = []
    for _ in range(g.size(1, 6)):
        f = update(g, pg, scope)
        if f:
            body.append(f)
    plans.append({"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": body})
    plans.append({"t": "+", "g": "!", "head": A("more"), "ctx": None,
                  "body": [f for f in [update(g, pg, Scope()) for _ in range(g.size(1, 4))] if f]})
    sends = []
    for _ in range(g.size(2, 8)):
        name = g.choice(list(pg.preds))
        if g.prob(0.6):
            t = lit(name, *[pg.typed_value(x) for x in pg.preds[name]])
            t[3] = pg.annots()
            sends.append(["send", A("ag0"), "tell", t])
        elif g.prob(0.8):
            sends.append(["send", A("ag0"), "untell", pg.pattern(name, pg.preds[name], Scope())])
        else:
            sends.append(["send", A("ag0"), "achieve", A("more")])
    other = {"goals": [A("go")], "plans": [{"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": sends}]}
    return {"progs": [{"beliefs": pg.beliefs(g.int(0, 4)), "goals": [A("go")], "plans": plans}, other],
            "order": [g.int(0, 1) for _ in range(3)]}


def check_messages(case):
    order = case["order"] + [0, 1, 0]

    def sut_drive(out):
        for i in order:
            out.env.run_agent(out.agents[i])

    def drive(m):
        m.start()
        for i in order:
            m.run_agent(m.agents[i])
    res = interp.judge(case["progs"], ["ag0", "ag1"], drive, sut_drive)
    if res is None:
        return Info(False, ["inconclusive"])
    out, _ = res
    n, rem = count(case["progs"][0])
    told = [f[2] for f in case["progs"][1]["plans"][0]["body"]]
    return Info("tell" in told and n + len(told) >= 3, sorted(set(told)))


FACETS = [
    Facet("history", strategy(gen_history), check_history, quick=900, thorough=40000),
    Facet("iter", strategy(gen_iter), check_iter, quick=250, thorough=10000),
    Facet("messages", strategy(gen_messages), check_messages, quick=350, thorough=15000),
]
