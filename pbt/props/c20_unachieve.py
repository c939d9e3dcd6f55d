"""C20: withdrawing a goal stops exactly the matching intentions."""
from .. import interp, ref, sched, sut
from ..core import Facet, Hang, Info, Runaway, Violation
from ..gen import strategy
from ..proggen import A, lit
from ..sched import CG, X, num

RULE = ("inside: one agent with several lines of nested goals (structured arguments, output parameters, handlers, test goals, "
        "loops, waits) that withdraws goals from itself at generated places, including the goal itself, its callers, siblings "
        "and goals it waits in. timed: several agents, withdrawals arrive while the targets wait. moments: the withdrawal "
        "arrives after any number of steps of the target, also after plans for the goal were removed; the observed run must be that of the reference for some moment. "
        "Oracle: reference machine: effects, times, beliefs and failures of all agents; afterwards the target serves a new goal. "
        "Non-trivial: the withdrawal removed a goal in the reference.")
ASSUMPTIONS = ["Arguments are compared as they were when the goal was posted.",
               "A poster whose sub-goal is withdrawn continues after it (as the existing tests and examples have it)."]

VARS = ["X", "Y", "Z"]


def arg(g):
    return g.choice([A("a"), A("b"), ["n", 1], ["n", 2], ["v", g.choice(VARS)], ["v", g.choice(VARS)], lit("f", A("a")),
                     lit("f", ["v", g.choice(VARS)]), ["l", [A("a"), ["v", g.choice(VARS)]]], ["s", "a"]])


def pattern(g, sigs):
    name, n = g.choice(sigs)
    if g.prob(0.3):
        return lit(name, *[g.choice([["_"], ["v", "W%d" % i]]) for i in range(n)])
    if g.prob(0.1):
        n = g.int(0, 2)
    args = [g.choice([["_"], ["v", "W"], ["v", "W2"], ["n", g.int(0, 3)], ["v", g.choice(VARS)], A("a"), A("b"), ["n", 1], lit("f", ["_"]), ["c", ["_"], ["_"]],
                      lit("f", A("a")), ["s", "a"], ["v", "W"]]) for _ in range(n)]
    t = lit(name, *args)
    if g.prob(0.15):
        t[3] = [g.choice([A("x"), lit("source", A("other"))])]
    return t


def soft(l, r):
    return ["q", ["or", ["unify", l, r], ["true"]]]


class UG:
    def __init__(self, g, me, waits=True, mine=True):
        self.g, self.me, self.waits, self.mine = g, me, waits, mine
        self.sigs = [("g%d" % i, g.int(0, 2)) for i in range(g.size(2, 4))]
        # beliefs and tests may have the names of goals
        self.belief, self.test = [g.choice([x, self.sigs[0][0], self.sigs[1][0]]) for x in ("p", "t")]
        self.sigs[:2] = [(n, g.choice([1, a])) for n, a in self.sigs[:2]]
        self.rec_no = 0
        self.tick = 0
        self.again = g.prob(0.3)        # goals that post themselves, down to number 0
        self.deep = g.prob(0.06)        # goals that are nested far
        if self.deep:
            self.sigs = self.sigs[:2] + [("g%d" % i, g.int(0, 1)) for i in range(2, g.int(6, 11))]

    def rec(self):
        self.rec_no += 1
        return ["rec", [["n", self.rec_no]] + [["v", v] for v in VARS[:self.g.int(0, 3)]]]

    def step(self, i, depth):
        g = self.g
        if self.again and g.prob(0.12):
            return ["!", lit("r", ["n", g.int(1, 3)], arg(g))]
        k = g.weighted([(4, "sub"), (3, "un" if self.mine else "rec"), (4, "rec"), (2, "bind"), (1, "later"), (2, "if"), (1, "for"),
                        (2, "add"), (2 if self.waits else 0, "wait"), (2, "test"),
                        (1 if self.mine and i + 1 >= len(self.sigs) else 0, "unteach")])
        if k in ("sub", "later"):
            if i + 1 >= len(self.sigs):
                return self.rec()
            name, n = self.sigs[g.int(i + 1, len(self.sigs) - 1)]
            t = lit(name, *[arg(g) for _ in range(n)])
            if g.prob(0.1):
                t[3] = [A("x")]
            return ["!" if k == "sub" else "!!", t]
        if k == "un":
            return ["send", A(self.me), "unachieve", pattern(g, self.sigs[:i + 1] if g.prob(0.7) else self.sigs)]
        if k == "unteach":
            return ["unteach", A(self.me), "l%d" % g.int(0, len(self.sigs) - 1)]
        if k == "bind":
            return soft(["v", g.choice(VARS)], arg(g))
        if k == "if" and depth:
            return ["if", ["unify", ["v", g.choice(VARS)], arg(g)], self.body(i, depth - 1, 2), self.body(i, depth - 1, 2)]
        if k == "for" and depth:
            return ["for", ["act", ".range", [["n", 2], ["v", "I"]]], self.body(i, depth - 1, 2)]
        if k == "add":
            return ["+", lit(self.belief, ["n", g.int(0, 1)])]
        if k == "test":
            return ["?", lit(self.test, ["v", g.choice(VARS)])]
        if k == "wait":
            self.tick += 1
            return ["wait", None, None, ["n", 10 + 17 * self.tick + self.tick * self.tick]]
        return self.rec()

    def body(self, i, depth, hi, lo=0):
        return [self.step(i, depth) for _ in range(self.g.size(lo, hi))]

    def nested(self, i):
        if i + 1 >= len(self.sigs):
            return self.body(i, 2, 4, 2)
        name, n = self.sigs[i + 1]
        return self.body(i, 0, 1) + [["!", lit(name, *[arg(self.g) for _ in range(n)])]] + self.body(i, 0, 1)

    def recursion(self):
        """A goal r(N, Y) below itself, with fewer and fewer left; withdrawals at every level."""
        g = self.g

        def steps(hi):
            res = []
            for _ in range(g.size(0, hi)):
                if self.mine and g.prob(0.35):
                    res.append(["send", A(self.me), "unachieve", lit("r", g.choice([["_"], ["n", g.int(0, 3)], ["v", "X"]]),
                                                                    g.choice([["_"], ["_"], arg(g)]))])
                elif g.prob(0.3):
                    res.append(soft(["v", g.choice(VARS)], arg(g)))
                else:
                    res.append(self.rec())
            return res
        X, Y = ["v", "X"], ["v", "Y"]
        return [{"t": "+", "g": "!", "head": lit("r", ["n", 0], Y), "ctx": None, "body": [self.rec()] + steps(2) + [self.rec()]},
                {"t": "+", "g": "!", "head": lit("r", X, Y), "ctx": None,
                 "body": [self.rec()] + steps(1) + [["!", lit("r", ["o", "-", X, ["n", 1]], g.choice([Y, Y, arg(g)]))], self.rec()] + steps(2) + [self.rec()]}]

    def program(self, lines):
        g = self.g
        plans = []
        if self.again:
            plans += self.recursion()
        for i, (name, n) in enumerate(self.sigs):
            if g.prob(0.2) and n:
                plans.append({"t": "+", "g": "!", "head": lit(name, *[A("a")] + [["v", "Y"]] * (n - 1)), "ctx": None,
                              "body": [self.rec()] + self.body(i, 1, 2) + [self.rec()]})
            plans.append({"t": "+", "g": "!", "head": lit(name, *[["v", v] for v in VARS[:n]]), "ctx": None,
                          "body": [self.rec()] + (self.nested(i) if self.deep else self.body(i, 2, 4, 1)) + ([self.rec()] if g.prob(0.7) else [])})
        for p in plans:
            if g.prob(0.4):
                p["label"] = "l" + p["head"][1][1:]
        plans.append({"t": "+", "g": "", "head": lit(self.belief, ["v", "X"]), "ctx": None, "body": [self.rec()] + self.body(1, 0, 2) + [self.rec()]})
        plans.append({"t": "+", "g": "?", "head": lit(self.test, ["v", "X"]), "ctx": None,
                      "body": [self.rec(), soft(["v", "X"], A("b"))] + self.body(1, 0, 2) + [self.rec()]})
        plans.append({"t": "+", "g": "!", "head": A("fresh"), "ctx": None, "body": [["rec", [A("fresh")]]]})
        goals = []
        for _ in range(g.size(1, lines)):
            name, n = g.choice(self.sigs[:2])
            goals.append(lit(name, *[g.choice([A("a"), A("b"), ["n", 1], lit("f", A("a")), ["l", [A("a"), A("b")]]]) for _ in range(n)]))
        if self.again:
            goals[g.int(0, len(goals) - 1)] = lit("r", ["n", g.int(1, 4)], A("a"))
            self.sigs.append(("r", 2))
        return {"beliefs": [], "goals": goals, "plans": plans}


def counting(fn):
    """Runs fn and counts the goals withdrawn in reference runs."""
    n = [0]
    orig = interp.Machine.unachieve

    def unachieve(self, B, term):
        before = sum(len(i.frames) for i in B.intentions)
        orig(self, B, term)
        n[0] += before - sum(len(i.frames) for i in B.intentions)
    interp.Machine.unachieve = unachieve
    try:
        return fn(), n[0]
    finally:
        interp.Machine.unachieve = orig


FRESH = {"beliefs": [], "goals": [A("go")], "plans": [{"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": [
    ["send", A("ag0"), "achieve", A("fresh")]]}]}


def gen_inside(g, tier):
    return {"prog": UG(g, "ag0", g.prob(0.7)).program(3)}


def check_inside(case):
    progs = [case["prog"], FRESH]

    def sut_drive(out):
        for i in (0, 1, 0):
            out.env.run_agent(out.agents[i])

    def drive(m):
        m.start()
        for i in (0, 1, 0):
            m.run_agent(m.agents[i])
    pre, n = counting(lambda: interp.screen(progs, ["ag0", "ag1"], drive, paths=1))
    if pre is None:
        return Info(False, ["out of domain"])
    ds = sorted(d for _, d in pre.machine.wait_log)
    if any(y - x < 1e-3 for x, y in zip(ds, ds[1:])):
        return Info(False, ["equal deadlines"])
    res = interp.judge(progs, ["ag0", "ag1"], drive, sut_drive)
    if res is None:
        return Info(False, ["inconclusive"])
    return Info(n > 0, ["error" if res[0].error is not None else "completed", "withdrawn %d" % min(n, 6)])


class TG(CG):
    def formula(self, i, depth):
        g = self.g
        if g.prob(0.16):
            to = g.choice([self.name] + self.others * 2)
            t = lit("g%d" % g.choice([0, 0, 1, 2]), g.choice([["_"], ["_"], ["v", "W"], ["v", "W"], num(g.int(0, 3)), X, self.child()]))
            return ["send", A(to), "unachieve", t]
        return super().formula(i, depth)


def gen_timed(g, tier):
    n = g.size(2, 3)
    names = ["ag%d" % i for i in range(n)]
    progs = [TG(g, name, goals=3, others=[x for x in names if x != name],
                weights=dict(wait=6, waitev=1, waitboth=2, sub=5, send=1)).program(2, 4, handlers=0.3) for name in names]
    return {"progs": progs}


def check_timed(case):
    progs = case["progs"]
    names = ["ag%d" % i for i in range(len(progs))]
    exp, n = counting(lambda: sched.expected(progs, names))
    if exp is None:
        return Info(False, ["races or out of domain"])
    out, traces = sched.observe(progs, names)
    sched.compare(exp, out, traces, names, progs)
    return Info(n > 0, ["withdrawn %d" % min(6, n // len(progs)), "agents %d" % len(progs)])


def gen_moments(g, tier):
    ug = UG(g, "ag0", False, False)
    prog = ug.program(2)
    return {"prog": prog, "unteach": ["l%d" % i for i in range(4) if g.prob(0.25)] if g.prob(0.4) else [],
            "patterns": [pattern(g, ug.sigs[:3] + (ug.sigs[-1:] * 2 if ug.again else [])) for _ in range(g.size(1, 3))], "after": g.int(0, g.choice([8, 15, 30]))}


def check_moments(case):
    boss = {"beliefs": [], "goals": [A("go")], "plans": [{"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": [
        ["unteach", A("ag0"), x] for x in case["unteach"]] + [["send", A("ag0"), "unachieve", p] for p in case["patterns"]]}]}
    progs = [case["prog"], boss, FRESH]
    names = ["ag0", "ag1", "ag2"]

    def sut_drive(out):
        for _ in range(case["after"]):
            if not out.agents[0].step():
                break
        for i in (1, 0, 2, 0):
            out.env.run_agent(out.agents[i])

    def drive_after(k):
        def drive(m):
            m.linger = True
            m.start()
            done = k
            while done and m.step(m.agents[0]):
                done -= 1
            m.exhausted = done > 0
            for i in (1, 0, 2, 0):
                m.run_agent(m.agents[i])
        return drive
    if interp.screen(progs, names, drive_after(0), paths=1) is None or interp.screen(progs, names, drive_after(10 ** 6), paths=1) is None:
        return Info(False, ["out of domain"])
    try:
        out = sut.run_sources([interp.prog_src(p) for p in progs], [n + ".asl" for n in names], drive=sut_drive)
    except (Runaway, Hang):
        if any(interp.may_run_away(progs, names, drive_after(k)) for k in (0, 3, 10, 10 ** 6)):
            return Info(False, ["out of domain"])
        raise
    want = "error" if out.error is not None else "done"
    sets = [frozenset(ref.canon(b) for b in out.beliefs(i)) for i in range(len(out.agents))] if len(out.agents) == 3 else None
    final = (lambda m: m.belief_sets() == sets) if sets else None
    some = 0
    found = False
    for k in range(0, 200):
        (kind, r), n = counting(lambda: interp.explore(progs, names, drive_after(k), out.trace, want, final))
        if kind == "match":
            found = True
            some = max(some, n)
            break
        if kind == "open":
            return Info(False, ["inconclusive"])
        if r is not None and getattr(r.machine, "exhausted", False):
            break
    if not found:
        text = "\n---\n".join(map(interp.prog_src, progs))
        raise Violation("withdrawal after %d steps: the observed run (%s) is not a run of\n%s\nobserved\n%s" % (
            case["after"], want, text, "\n".join("  %s: %s" % (a, ", ".join(map(interp.show, t))) for a, t in out.trace)))
    return Info(some > 0, [want, "withdrawn %d" % min(some, 5)])


FACETS = [
    Facet("inside", strategy(gen_inside), check_inside, quick=600, thorough=30000),
    Facet("timed", strategy(gen_timed), check_timed, quick=300, thorough=12000),
    Facet("moments", strategy(gen_moments), check_moments, quick=300, thorough=12000),
]
