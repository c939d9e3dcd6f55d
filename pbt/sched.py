"""Concurrent programs: generation, and comparison of runs that do not depend on the schedule.

expected() gives the outcome of programs that are free of races; compare() compares an observed run with it."""
from . import interp, ref, sut
from .core import Violation
from .proggen import A, lit

TIE = 0.002


def settle(m, k=0):
    """Runs until nothing can move; agent k only moves when no other agent can."""
    last = m.agents[k % len(m.agents)]
    others = [a for a in m.agents if a is not last]
    while True:
        work = False
        for a in others:
            while m.step(a):
                work = True
        if work:
            continue
        if not m.step(last):
            d = m.deadlines(m.agents)
            if not d:
                return
            m.burn()
            m.now = max(m.now, min(d)) + m.EPS
            m.instant += 1


def slow(k, then=None):
    """A schedule in which agent k is served last; notes racing deliveries."""
    def drive(m):
        for a in m.agents:
            a.absent = a.name.startswith("late")
        m.start()
        m.watch_races()
        settle(m, k)
        if then:
            then(m, k)
    return drive


def per_agent(names, trace, times):
    r = {n: [] for n in names}
    for (agent, args), t in zip(trace, times):
        r[agent].append((args, t))
    return r


def same(a, b, tol):
    return len(a) == len(b) and all(ref.alpha_equal(x, y) and abs(s - t) <= tol for (x, s), (y, t) in zip(a, b))


class Expected:
    pass


def expected(progs, names, fuel=4000, then=None):
    """The outcome of the program if it is the same under all schedules; None if it may depend on the schedule.

    All deadlines are distinct instants (TIE apart), and in each instant an agent receives at most one message and
    has no other work before it, even if it is served last (slow): so what an agent does in an instant is determined
    by its state and that message, and by induction all schedules give each agent the same effects."""
    first = None
    for k in range(len(progs)):
        r = interp.run_once(progs, names, slow(k, then), None, [], fuel)
        m = r.machine
        if r.kind != "done" or m.choices or m.race:
            return None
        e = Expected()
        e.kind, e.machine = r.kind, m
        e.traces = per_agent(names, m.trace, m.times)
        e.beliefs = m.belief_sets()
        ds = sorted(d for _, d in m.wait_log)
        if any(y - x < TIE for x, y in zip(ds, ds[1:])):
            return None
        e.deadlines = ds
        if first is None:
            first = e
        elif first.beliefs != e.beliefs or any(not same(first.traces[n], e.traces[n], 0.0005) for n in names):
            raise AssertionError("reference runs differ: %s" % (progs,))
    return first


def observe(progs, names, texts=None, drive=None, limit=5000, env_cls=None):
    """Runs the agents; returns (Outcome, per agent traces)."""
    times = []
    box = {}

    def record(agent, args):
        times.append(box["clock"].now)
    with_clock = sut.clock

    import contextlib

    @contextlib.contextmanager
    def clock():
        with with_clock() as c:
            box["clock"] = c
            yield c
    sut.clock = clock
    try:
        out = sut.run_sources(texts or [interp.prog_src(p) for p in progs], [n + ".asl" for n in names], limit=limit,
                              drive=drive, record=record, env_cls=env_cls)
    finally:
        sut.clock = with_clock
    out.times = times
    return out, per_agent(names, out.trace, times)


def show_traces(traces):
    return "\n".join("  %s: %s" % (n, "; ".join("%s@%.3f" % (",".join(interp.show(x) for x in args), t - 1000)
                                               for args, t in tr)) for n, tr in traces.items())


def compare(exp, out, traces, names, progs, tol=0.001, texts=None):
    text = "\n---\n".join(texts or [interp.prog_src(p) for p in progs])
    want_err = exp.kind == "error"
    if (out.error is not None) != want_err:
        raise Violation("run ended with %r (%s), expected %s:\n%s\nobserved\n%s\nexpected\n%s" % (
            out.error, [r.getMessage() for r in out.log.errors()], exp.kind, text, show_traces(traces), show_traces(exp.traces)))
    for n in names:
        if not same(traces[n], exp.traces[n], tol):
            raise Violation("effects of agent %s differ:\n%s\nobserved\n%s\nexpected\n%s" % (
                n, text, show_traces(traces), show_traces(exp.traces)))
    got = [frozenset(ref.canon(b) for b in out.beliefs(i)) for i in range(len(names))]
    if got != exp.beliefs:
        raise Violation("final beliefs differ:\n%s\nobserved %s\nexpected %s" % (
            text, [sorted(interp.show(b) for b in out.beliefs(i)) for i in range(len(names))],
            [sorted(interp.show(b) for b in a.beliefs.values()) for a in exp.machine.agents]))


# -- generation -------------------------------------------------------------------

X, Y, Z = ["v", "X"], ["v", "Y"], ["v", "Z"]


def num(n):
    return ["n", n]


class CG:
    """Programs of goals g0..gk; g_i(X) may use goals with larger index. X is a number that differs between
    activations as far as possible."""
    def __init__(self, g, name, goals=4, weights=None, others=(), events=("e0", "e1")):
        self.g, self.name, self.n, self.others, self.events = g, name, goals, list(others), list(events)
        self.w = dict(rec=8, sub=4, later=3, wait=0, waitev=0, waitboth=0, add=2, drop=1, ifs=2, fors=1, send=0, unify=1,
                      loop=1, test=1)
        self.w.update(weights or {})
        self.site = 0

    def rec(self, tag="e"):
        return ["rec", [A("%s%d" % (tag, self.g.int(0, 99))), X] + ([Y] if self.g.prob(0.3) else [])]

    def child(self):
        self.site += 1
        return ["o", "+", ["o", "*", X, num(3)], num(self.site % 7)]

    def event(self):
        """(source, parsed) of an event to wait for."""
        g = self.g
        e = g.choice(self.events)
        t = g.choice("+++-")
        arg = g.choice([["v", "W"], ["v", "W"], num(g.int(0, 2)), ["_"]])
        head = lit(e, arg)
        if g.prob(0.15) and t == "+":
            head = lit("g%d" % g.int(0, self.n - 1), ["_"])
            return t + "!" + sut.src(head), [t, "!", head]
        return t + sut.src(head) + ("." if g.prob(0.3) else ""), [t, "", head]

    def millis(self):
        g = self.g
        base = num(g.int(0, 60) * 9 + 2)
        return ["o", "+", ["o", "*", X, num(g.choice([13, 17, 5]))], base] if g.prob(0.8) else base

    def formula(self, i, depth):
        g = self.g
        k = g.weighted([(w, k) for k, w in self.w.items() if w])
        if k in ("sub", "later"):
            if i + 1 < self.n:
                return ["!" if k == "sub" else "!!", lit("g%d" % g.int(i + 1, self.n - 1), self.child())]
            k = "rec"
        if k == "wait":
            return ["wait", None, None, self.millis()]
        if k == "waitev":
            s, e = self.event()
            return ["wait", s, e, None]
        if k == "waitboth":
            s, e = self.event()
            return ["wait", s, e, self.millis()]
        if k == "add":
            return ["+", lit(g.choice(self.events), num(g.int(0, 2)))]
        if k == "drop":
            return ["-", lit(g.choice(self.events), num(g.int(0, 2)))]
        if k == "ifs" and depth:
            return ["if", ["cmp", g.choice(["<", ">"]), X, num(g.int(0, 20))], self.body(i, depth - 1, 2),
                    self.body(i, depth - 1, 2) if g.prob(0.5) else None]
        if k == "fors" and depth:
            return ["for", ["act", ".range", [num(g.int(1, 3)), Z]], [["rec", [A("z"), X, Z]]] + self.body(i, depth - 1, 1)]
        if k == "loop" and depth:
            self.site += 1
            c = "c%d" % self.site
            v = ["v", "C%d" % self.site]
            self.counters.append(lit(c, num(g.int(1, 2))))
            return ["while", ["and", ["lit", lit(c, v)], ["cmp", ">", v, num(0)]],
                    [["-", lit(c, v)], ["+", lit(c, ["o", "-", v, num(1)])]] + self.body(i, depth - 1, 2)]
        if k == "send" and self.others:
            to = g.choice(self.others)
            f = g.weighted([(3, "tell"), (1, "untell"), (3, "achieve")])
            if f == "achieve":
                content = lit("h%d" % g.int(0, 1), self.child())
            else:
                content = lit(g.choice(self.events), num(g.int(0, 2)))
            if g.prob(0.2):
                return ["broadcast", f, content]
            more = [x for x in self.others if x != to and g.prob(0.3)]
            return ["send", g.choice([A(to), A(to), ["s", to], ["l", [A(to)] + [["s", x] for x in more]]]), f, content]
        if k == "unify":
            return ["q", ["or", ["unify", Y, g.choice([X, num(g.int(0, 3)), lit("f", X)])], ["true"]]]
        if k == "test":
            return ["if", ["lit", lit(g.choice(self.events), Z)], [["rec", [A("t"), X]]], [["rec", [A("nt"), X]]]]
        return self.rec()

    def body(self, i, depth, hi, lo=0):
        res = []
        for _ in range(self.g.size(lo, hi)):
            f = self.formula(i, depth)
            if f[0] in ("send", "broadcast"):
                res.append(["wait", None, None, self.millis()])      # messages are sent at instants of their own
            res.append(f)
        return res

    def program(self, lines=3, size=5, handlers=0.5):
        g = self.g
        self.counters = []
        plans = []
        deep = g.prob(0.04)
        if deep:
            self.n += g.int(4, 8)
        for i in range(self.n):
            if g.prob(0.2) and not deep:
                plans.append({"t": "+", "g": "!", "head": lit("g%d" % i, num(g.int(0, 5))), "ctx": None, "body": [["rec", [A("special")]]]})
            body = [["rec", [A("start%d" % i), X]]] + self.body(i, 2, 1 if deep else size) + (
                [["!", lit("g%d" % (i + 1), ["o", "+", X, num(1)])]] if deep and i + 1 < self.n else []) + ([["rec", [A("end%d" % i), X]]] if g.prob(0.8) else [])
            plans.append({"t": "+", "g": "!", "head": lit("g%d" % i, X), "ctx": None, "body": body})
        for e in self.events:
            for t in "+-":
                if g.prob(handlers):
                    plans.append({"t": t, "g": "", "head": lit(e, X), "ctx": None,
                                  "body": [["rec", [A("on_add" if t == "+" else "on_del"), A(e), X]]] +
                                  [f for f in ([self.formula(self.n, 0)] if g.prob(0.3) else [])
                                   if f[0] in ("rec", "wait", "if")]})
        for i in range(2):
            plans.append({"t": "+", "g": "!", "head": lit("h%d" % i, X), "ctx": None,
                          "body": [["rec", [A("got%d" % i), X]]] + [f for f in self.body(self.n, 1, 2) if f[0] not in ("send", "broadcast")]})
        goals = [lit("g%d" % g.int(0, max(0, self.n // 2)), num(k)) for k in range(g.size(1, 2 if deep else lines))]
        beliefs = [lit(e, num(g.int(0, 2))) for e in self.events if g.prob(0.4)] + self.counters
        return {"beliefs": beliefs, "goals": goals, "plans": plans}
