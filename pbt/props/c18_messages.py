"""C18: messages reach exactly their receivers with exactly their content."""
from .. import interp, ref, sut
from ..core import Facet, Info, Violation
from ..gen import strategy
from ..proggen import A, lit

RULE = ("content: 2-5 agents with generated plan bodies that unify variables, send, answer and broadcast; contents are terms of "
        "all kinds with shared, bound, aliased and free variables and annotations; receivers are atoms, strings, lists of both "
        "or variables bound to those; agents are run one after the other in a generated order. routing: one sender, contents "
        "ground, every way to name receivers, all agents compared. Oracle: reference machine (belief sets and effects of every "
        "agent, sender's variables after sending). errors: unknown receivers and kinds, malformed contents: error located at "
        "the step, nothing delivered, nothing after it executed, other agents continue. Non-trivial: at least two messages sent.")
ASSUMPTIONS = ["Naming one receiver twice in a list and lists that mix known and unknown receivers are not explored.",
               "untell removes a belief that matches the content together with the sender's source annotation (as documented in "
               "README for Jason compatibility)."]

VARS = ["X", "Y", "Z", "U"]


def term(g, depth=2):
    r = g.int(0, 11)
    if r < 4:
        return ["v", g.choice(VARS)]
    if r < 6 or depth <= 0:
        return g.choice([A("a"), A("b"), ["n", 1], ["n", 2.5], ["s", "a"], ["s", "x \"y\"\\"], ["b", True], ["l", []]])
    if r == 6:
        return ["l", [term(g, depth - 1) for _ in range(g.size(1, 3))]]
    if r == 7:
        return ["c", term(g, depth - 1), g.choice([["v", g.choice(VARS)], ["l", [term(g, 0)]]])]
    if r == 8:
        return ["n", g.int(0, 3)]
    t = lit(g.choice(["f", "g"]), *[term(g, depth - 1) for _ in range(g.size(1, 2))])
    if g.prob(0.25):
        t[3] = [g.choice([A("x"), lit("src", A("b"))])]
    return t


def ground(g, depth=1):
    r = g.int(0, 9)
    if r < 4 or depth <= 0:
        return g.choice([A("a"), A("b"), ["n", 1], ["n", 2], ["s", "a"], ["b", True]])
    if r < 6:
        return ["l", [ground(g, depth - 1) for _ in range(g.size(0, 2))]]
    return lit("f", *[ground(g, depth - 1) for _ in range(g.size(1, 2))])


def receiver(g, others, body):
    """A way to name some of the other agents; may add steps that bind a variable."""
    some = [x for x in g.shuffle(others)[:g.weighted([(12, 1), (6, 2), (4, 3), (2, 0), (1, 9)])]]
    one = lambda x: A(x) if g.prob(0.6) else ["s", x]
    if len(some) == 1 and g.prob(0.7):
        r = one(some[0])
    else:
        r = ["l", [one(x) for x in some]]
        if some and g.prob(0.3):
            r = ["c", r[1][0], ["l", r[1][1:]]]
    if g.prob(0.2):
        v = ["v", "R%d" % len(body)]
        body.append(["q", ["unify", v, r]])
        r = v
    elif r[0] == "l" and r[1] and g.prob(0.2):
        v = ["v", "R%d" % len(body)]
        body.append(["q", ["unify", v, r[1][0]]])
        r = ["l", [v] + r[1][1:]]
    return r


def annots(g):
    if g.prob(0.7):
        return []
    return [g.choice([A("x"), lit("src", A("a")), lit("source", A("other")), lit("source", A("ag0")), lit("source", A("ag1"))])
            for _ in range(g.size(1, 2))]


def soft(l, r):
    return ["q", ["or", ["unify", l, r], ["true"]]]


def message(g, goals, free):
    f = g.weighted([(3, "tell"), (2, "untell"), (5, "achieve")])
    if f == "achieve":
        name, n = g.choice(goals)
        t = lit(name, *[term(g) if free else ground(g) for _ in range(n)])
    elif f == "tell":
        t = lit(g.choice(["p", "q"]), ground(g) if g.prob(0.85) else ["v", g.choice(VARS[:2])])
    else:
        t = lit(g.choice(["p", "q"]), g.choice([["v", g.choice(VARS)], ["_"], ground(g, 0), ground(g)]))
    t[3] = annots(g)
    return f, t


def sending(g, body, others, goals, free=True):
    f, t = message(g, goals, free)
    k = len(body)
    if g.prob(0.2):
        body.append(["broadcast", f, t])
    elif g.prob(0.15):
        v = ["v", "M%d" % k]
        body.append(["q", ["unify", v, t]])
        r = receiver(g, others, body)
        body.append(["send", r, f, v])
    else:
        r = receiver(g, others, body)
        body.append(["send", r, f, t])


def agent_names(g, n):
    """Names of n agents; often one is the start or the end of another, or the name of a goal, belief or value."""
    if n > 9 or g.prob(0.4):
        return ["ag%d" % i for i in range(n)]
    pool = ["ag", "ag1", "ag11", "ag0", "ag01", "g", "g1", "agent", "agents", "a", "ab", "b", "p", "k0", "source", "x", "aG", "aGent",
            "tell", "self", "ag_1", "ag_"]
    return g.shuffle(pool)[:n]


def gen_content(g, tier):
    n = g.size(2, 4)
    names = agent_names(g, n)
    # goals k0 < k1: a handler only sends goals of larger index, so that exchanges end
    goals = [("k0", 2), ("k1", 3), ("k2", 1)]
    progs = []
    for i, me in enumerate(names):
        others = [x for x in names if x != me] + ([me] if g.prob(0.1) else [])
        plans = []
        for gi, (name, ar) in enumerate(goals):
            head = [["v", v] for v in VARS[:ar]]
            h = lit(name, *head)
            if g.prob(0.2):
                h[3] = [lit("source", ["v", "S"])]
            body = [["rec", [A(name)] + head + ([["v", "S"]] if h[3] else [])]]
            for _ in range(g.size(0, 3)):
                k = g.int(0, 4)
                if k <= 2:
                    body.append(soft(["v", g.choice(VARS[:ar])], term(g, 1)))
                elif gi + 1 < len(goals):
                    sending(g, body, others, goals[gi + 1:], free=True)
            body.append(["rec", [A("after")] + head])
            plans.append({"t": "+", "g": "!", "head": h, "ctx": None, "body": body})
        for p in ("p", "q"):
            for t in "+-":
                if g.prob(0.5):
                    h = lit(p, ["v", "X"])
                    rec = ["rec", [A("add" if t == "+" else "del"), ["v", "X"]]]
                    if g.prob(0.4):
                        h[3] = [lit("source", ["v", "S"])]
                        rec[1].append(["v", "S"])
                    plans.append({"t": t, "g": "", "head": h, "ctx": None, "body": [rec]})
        prog = {"beliefs": [lit(g.choice(["p", "q"]), ground(g)) for _ in range(g.size(0, 2))], "goals": [], "plans": plans}
        if i == 0 or g.prob(0.3):
            body = []
            for _ in range(g.size(1, 5)):
                if g.prob(0.35):
                    body.append(soft(["v", g.choice(VARS)], term(g, 1)))
                sending(g, body, others, goals)
                if g.prob(0.5):
                    body.append(["rec", [A("mine")] + [["v", v] for v in VARS]])
                if g.prob(0.4):
                    body.append(soft(["v", g.choice(VARS)], term(g, 1)))
            body.append(["rec", [A("mine")] + [["v", v] for v in VARS]])
            prog["goals"].append(A("go"))
            plans.append({"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": body})
        progs.append(prog)
    return {"progs": progs, "order": [g.int(0, n - 1) for _ in range(g.size(0, 4))], "names": names}


def gen_routing(g, tier):
    n = g.size(2, 6)
    names = agent_names(g, n)
    goals = [("k0", 1)]
    body = []
    others = names[1:] + ([names[0]] if g.prob(0.3) else [])
    for _ in range(g.size(2, 8)):
        sending(g, body, others, goals, free=False)
    X, S = ["v", "X"], ["v", "S"]
    lst = []
    for i in range(n):
        plans = [{"t": "+", "g": "!", "head": lit("k0", X), "ctx": None, "body": [["rec", [A("k0"), X]]]}]
        h = lit("p", X)
        h[3] = [lit("source", S)]
        plans.append({"t": "+", "g": "", "head": h, "ctx": None, "body": [["rec", [A("add"), X, S]]]})
        plans.append({"t": "-", "g": "", "head": lit("p", X), "ctx": None, "body": [["rec", [A("del"), X]]]})
        if i == 0:
            plans.append({"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": body})
        lst.append({"beliefs": [lit("p", A("a"))] if g.prob(0.3) else [], "goals": [A("go")] if i == 0 else [], "plans": plans})
    return {"progs": lst, "order": [], "names": names}


def check(case):
    progs = case["progs"]
    n = len(progs)
    names = case["names"]
    order = [i % n for i in case["order"]] + list(range(n)) * 4

    def sut_drive(out):
        for i in order:
            out.env.run_agent(out.agents[i])

    def drive(m):
        m.start()
        for i in order:
            m.run_agent(m.agents[i])
    sent = []
    orig = interp.Machine.deliver

    def deliver(self, a, b, f, t):
        sent.append(f)
        return orig(self, a, b, f, t)
    interp.Machine.deliver = deliver
    try:
        pre = interp.screen(progs, names, drive, paths=1)
    finally:
        interp.Machine.deliver = orig
    if pre is None:
        return Info(False, ["out of domain"])
    res = interp.judge(progs, names, drive, sut_drive)
    if res is None:
        return Info(False, ["inconclusive"])
    out, _ = res
    labels = ["error" if out.error is not None else "completed", "deliveries %s" % min(len(sent), 10)]
    return Info(len(sent) >= 2, labels + sorted(set(sent)))


# -- errors ------------------------------------------------------------------------

BAD = [
    "%s(nobody, tell, p(1))", '%s("nobody", tell, p(1))', "%s(1, tell, p(1))", "%s([nobody], tell, p(1))", "%s(ag1(x), tell, p(1))",
    "%s(ag1, shout, p(1))", "%s(ag1, askOne, p(1))", "%s(ag1, 1, p(1))", '%s(ag1, "tell", p(1))', "%s(ag1, tell(x), p(1))",
    "%s(ag1, Unbound, p(1))", "%s(Unbound, tell, p(1))", "%s([ag1|Unbound], tell, p(1))", "%s(ag1, tell, 1)", '%s(ag1, tell, "p(1)")',
    "%s(ag1, tell, Unbound)", "%s(ag1, tell, p(Unbound))", "%s(ag1, achieve, 1)", "%s(ag1, achieve, Unbound)", "%s(ag1, achieve, nogoal)",
    "%s(ag1, untell, 3)", "%s(ag1, untell, Unbound)", "%s(ag1, tell, [p(1)])", "%s(ag1, unachieve, 1)", "%s(ag1, unachieve, Unbound)",
    "%s(ag1, tellHow, 1)", "%s(ag1, tellHow, Unbound)", "%s(ag1, tellHow, \"+!x <-\")", "%s(true, tell, p(1))", "%s(ag1, true, p(1))",
    "%s(ag1, tell)", "%s(ag1)", "%s(ag1, tell, p(1), x)",
]
BADB = ["%s(shout, p(1))", "%s(1, p(1))", "%s(tell, 1)", "%s(tell, Unbound)", "%s(tell, p(Unbound))", "%s(Unbound, p(1))",
        "%s(achieve, nogoal)", "%s(achieve, 2)", '%s("tell", p(1))', "%s(tell)"]


def gen_errors(g, tier):
    broadcast = g.prob(0.25)
    return {"src": g.choice(BADB) % ".broadcast" if broadcast else g.choice(BAD) % ".send",
            "before": g.choice(["", ".rec(x); ", ".send(ag1, tell, ok(1)); "]), "indent": g.int(0, 5), "lines": g.int(0, 3),
            "wrap": g.choice(["%s", "%s", "if (true) { %s }", "for (.range(2, I)) { %s }"]),
            "direct": g.int(0, 1)}


def check_errors(case):
    step = case["wrap"] % case["src"]
    text = "!go.\n" + "\n" * case["lines"] + "+!go <- .rec(start); " + case["before"] + " " * case["indent"] + step + "; .rec(never).\n"
    text1 = "!tick. q(7). +!tick <- .wait(1); .rec(tick); -q(7). +p(X) <- .rec(got). -p(X) <- .rec(lost)."
    line = 2 + case["lines"]
    names = ["ag0.asl", "ag1.asl", "ag2.asl"]
    known_arity = True
    if case["direct"]:
        out = sut.run_sources([text, text1, "!other. +!other <- .wait(2); .rec(other)."], names)
    else:
        out = sut.run_sources([text, text1, "!other. +!other <- .wait(2); .rec(other)."], names, drive=two_runs)
    if out.error is None:
        raise Violation("%s: no error\n%s" % (text, out.trace))
    errs = out.log.errors()
    locs = [getattr(r, "loc", None) for r in errs]
    if not errs or not any(l is not None and l.filename == "ag0.asl" and l.lineno == line for l in locs):
        raise Violation("%s: the error is not located at line %d: %s" % (text, line, [(r.getMessage(), str(l)) for r, l in zip(errs, locs)]))
    rec = [(a, t[0][1]) for a, t in out.trace]
    if ("ag0", "never") in rec or ("ag1", "got") in rec or ("ag1", "lost") in rec:
        raise Violation("%s: executed %s" % (text, rec))
    if len(out.agents) == 3:
        got = [interp.show(b) for b in out.beliefs(1)]
        want = (["ok(1)[source(ag0)]"] if "ok" in case["before"] else []) + \
            ([] if rec.count(("ag1", "tick")) else ["q(7)"])
        if sorted(got) != sorted(want):
            raise Violation("%s: ag1 holds %s, expected %s" % (text, got, want))
        if out.beliefs(2) or out.beliefs(0):
            raise Violation("%s: ag2 holds %s" % (text, out.beliefs(2)))
        if not case["direct"] and (rec.count(("ag1", "tick")), rec.count(("ag2", "other"))) != (1, 1):
            raise Violation("%s: other agents did not continue: %s" % (text, rec))
    return Info(True, [case["src"]])


def two_runs(out):
    try:
        out.env.run()
    except (sut.AslError, sut.AggregatedError):
        out.env.run()
        raise


FACETS = [
    Facet("content", strategy(gen_content), check, quick=500, thorough=25000),
    Facet("routing", strategy(gen_routing), check, quick=350, thorough=12000),
    Facet("errors", strategy(gen_errors), check_errors, quick=150, thorough=2000),
]
