"""C17: waiting resumes on time or on the awaited event, never earlier."""
from .. import interp, ref, sched, sut
from ..core import Facet, Info, Violation
from ..gen import TermGen, perturb, strategy
from ..proggen import A, lit
from ..sched import CG, X, num

RULE = ("waits: one agent with several lines that wait for durations, events (belief additions and removals, goals, with "
        "variables and constants) or both, nested in sub-goals, loops and handlers; run by the environment's or the agent's run "
        "loop; events are also delivered after everything has come to rest. agents: several agents waiting and waking each "
        "other by messages. Time is virtual (time.time and time.sleep replaced). Oracle: reference machine with deadlines: "
        "effects with their times (1 ms), sleep requests end at a pending deadline, are not negative and not more than "
        "necessary. exact: single waits with durations of any size (zero, fractions, negative, large) and argument forms, "
        "wrong arguments are errors. events: one line waits for an event of any form (trigger, kind, variables, lists, strings, "
        "annotations, constant expressions), another performs steps; it resumes at the first step that matches in the reference "
        "unification, or when its time is over. Non-trivial: at least two waits were executed.")
ASSUMPTIONS = ["Deadlines that are less than 2 ms apart are not explored (their order depends on the time spent executing).",
               "time.time() and time.sleep() are the only clock of the run loops."]


def heavy(g):
    k = g.int(0, 2)
    return dict(wait=[5, 3, 0][k], waitev=[0, 3, 4][k], waitboth=[0, 4, 2][k], add=3, drop=2, fors=1, rec=5, later=3)


def gen_waits(g, tier):
    cg = CG(g, "ag0", goals=g.size(1, 4), weights=heavy(g))
    prog = cg.program(4, 5)
    late = [[g.choice(["tell", "untell", "achieve"]), g.choice(cg.events), g.int(0, 2)] for _ in range(g.size(0, 3))]
    late = [[f, "g%d" % g.int(0, cg.n - 1) if f == "achieve" else e, k] for f, e, k in late]
    return {"progs": [prog], "late": late, "runner": g.choice(["env", "env", "agent"])}


def gen_agents(g, tier):
    n = g.size(2, 3)
    names = ["ag%d" % i for i in range(n)]
    progs = [CG(g, name, goals=g.size(1, 3), others=[x for x in names if x != name],
                weights=dict(heavy(g), send=g.choice([0, 2, 3]))).program(2, 4, handlers=0.4) for name in names]
    late = [["tell", g.choice(["e0", "e1"]), g.int(0, 2)] for _ in range(g.size(0, 1))]
    return {"progs": progs, "late": late, "runner": "env"}


def check_waits(case):
    progs, late = case["progs"], case["late"]
    names = ["ag%d" % i for i in range(len(progs))]
    progs2 = progs + [{} for _ in late]
    names2 = names + ["late%d" % i for i in range(len(late))]

    def then(m, k):
        for i, (force, f, v) in enumerate(late):
            m.instant += 1
            m.by_name["late%d" % i].absent = False
            m.deliver(m.by_name["late%d" % i], m.agents[0], force, ("f", f, (("n", float(v)),), ()))
            sched.settle(m, k)
    exp = sched.expected(progs2, names2, then=then)
    if exp is None:
        return Info(False, ["races or out of domain"])

    def drive(out):
        def go():
            if case["runner"] == "agent" and len(progs) == 1:
                out.env.run_agent(out.agents[0])
            else:
                out.env.run()
        go()
        for i, (force, f, v) in enumerate(late):
            out.agents.append(out.env.build_agent(sut.StringSource("late%d.asl" % i, "!go. +!go <- .send(ag0, %s, %s(%d))." % (
                force, f, v)), sut.agentspeak.ext_stdlib.actions))
            out.env.run_agent(out.agents[-1])
            go()
    out, traces = sched.observe(progs, names, drive=drive)
    for n in names2:
        traces.setdefault(n, [])
    sched.compare(exp, out, traces, names2, progs)
    text = "\n---\n".join(interp.prog_src(p) for p in progs)
    for now, s in out.clock.sleeps:
        if s < 0:
            raise Violation("sleep for %r s requested:\n%s" % (s, text))
        if s > 1e-4 and not any(abs(now + s - d) < 0.001 for d in exp.deadlines):
            raise Violation("slept from %.4f to %.4f, deadlines are %s:\n%s" % (now - 1000, now + s - 1000, [round(d - 1000, 4) for d in exp.deadlines], text))
    if len(out.clock.sleeps) > 3 * len(exp.deadlines) + 3:
        raise Violation("%d sleeps for %d deadlines:\n%s" % (len(out.clock.sleeps), len(exp.deadlines), text))
    waits = exp.machine.waits
    return Info(waits >= 2, ["waits %s" % min(waits, 8), "deadlines %s" % min(len(exp.deadlines), 5), "late %d" % len(late),
                             "agents %d" % len(progs), "runner " + case["runner"]])


def gen_exact(g, tier):
    k = g.int(0, 9)
    if k < 6:
        ms = g.choice([0, 1, 10, 1000, 0.5, 999.75, -5, -0.001, 1e6, 123456789, g.int(0, 5000), g.int(0, 100000) / 8])
        form = g.choice(["%s", "(%s)", "V"])
        return {"kind": "time", "ms": ms, "form": form, "event": g.choice([None, None, "+never", "+never(_).", "-!never(X)"])}
    if k < 8:
        return {"kind": "bad", "src": g.choice([".wait(a)", ".wait(true)", '.wait("+a", "b")', ".wait(1, 1)", '.wait("nonsense event")',
                                                '.wait("+a b")', '.wait("")', ".wait(X)", '.wait("+a", X)', ".wait([])", '.wait("+a(1+Y)")',
                                                '.wait("+a", true)', '.wait("a")', '.wait("+")', ".wait(f(1))"])}
    return {"kind": "event", "event": g.choice(["+e(X)", "+e(1)", "+e(X, X)", "-e(_)", "+!g(Z)", "+e(1)[src(a)]", "+?t(_)", "+e(\"s\").",
                                                "+e([H|T])", "-e(2)", "+e(a)", "+e(true)"]),
            "steps": [g.choice(["+e(1)", "+e(2)", "-e(1)", "-e(2)", "+e(1, 2)", "+e(2, 2)", "!g(1)", "?t(1)", "+e(1)[src(a)]",
                                "+e(1)[src(b)]", "+e(\"s\")", "+e([1, 2])", "+e([])", "+e(a)", "+e(true)", "-e(_)", "+f(1)",
                                "!h"]) for _ in range(g.size(1, 6))]}


def check_exact(case):
    if case["kind"] == "time":
        ms = case["ms"]
        src = sut.num_src(ms) if ms >= 0 else "-" + sut.num_src(-ms)
        arg = case["form"] % src if "%s" in case["form"] else "V"
        arg = ("%s, %s" % (sut.str_src(case["event"]), arg)) if case["event"] else arg
        text = "!go. !other. +!go <- V = %s; .rec(a); .wait(%s); .rec(b). +!other <- .rec(c); .rec(d)." % (src, arg)
        times = []
        out, traces = sched.observe([{}], ["ag0"], [text])
        tr = traces["ag0"]
        got = "".join(a[0][1] for a, _ in tr)
        want = "abcd" if ms < 0 else "acdb"
        if out.error is not None or got not in ([want] if ms else ["abcd", "acdb", "acbd"]):
            raise Violation("%s: effects %s, expected %s (%r)" % (text, got, want, out.error))
        at = {a[0][1]: t for a, t in tr}
        late = at["b"] - at["a"] - max(0, ms) / 1000
        if not -1e-6 <= late <= max(1e-4, abs(ms) * 1e-9):
            raise Violation("%s: resumed after %r s" % (text, at["b"] - at["a"]))
        return Info(True, ["time"])
    if case["kind"] == "bad":
        out, traces = sched.observe([{}], ["ag0"], ["!go. +!go <- .rec(a); %s; .rec(b)." % case["src"]])
        if out.error is None or not out.log.errors() or len(out.trace) != 1:
            raise Violation("%s: no error (%s, %s)" % (case["src"], out.error, out.trace))
        return Info(True, ["bad"])
    # event: a second line performs steps; the waiting line must resume exactly at the first matching one
    steps = case["steps"]
    ev = case["event"].rstrip(".")
    body = "; ".join("%s; .rec(%d); .wait(10)" % (s, i) for i, s in enumerate(steps))
    text = ("!w. !go. +!w <- .wait(%s); .rec(woken); .wait(1); .rec(again). +!go <- %s. +!g(X). +!h. +?t(X)." % (
        sut.str_src(case["event"]), body))
    out, traces = sched.observe([{}], ["ag0"], [text])
    if out.error is not None:
        raise Violation("%s: failed %r %s" % (text, out.error, [r.getMessage() for r in out.log.errors()]))
    match = MATCH[ev]
    first = None
    held = set()
    for i, s in enumerate(steps):
        occurs = True
        if s.startswith("+e"):
            held.add(s[1:])
        elif s.startswith("-e"):
            pat = s[1:]
            if pat == "e(_)":
                c = [x for x in held if x.startswith("e(") and "," not in x.replace("[1, 2]", "")]
                if len(c) > 1:
                    return Info(False, ["ambiguous"])
                occurs = bool(c)
                if c:
                    held -= set(c)
                    s = "-" + c[0]
            else:
                c = [x for x in held if x == pat or x.startswith(pat + "[")]
                if len(c) > 1:
                    return Info(False, ["ambiguous"])
                occurs = bool(c)
                held -= set(c)
                if c:
                    s = "-" + pat
        if occurs and match(s):
            first = i
            break
    names = [a[0][1] for _, a in out.trace]
    if first is None:
        want = [float(i) for i in range(len(steps))]
    else:
        want = None
        at = {a[0][1]: t for a, t in traces["ag0"]}
        if names.count("woken") != 1 or names.count("again") != 1 or abs(at["woken"] - at[float(first)]) > 1e-4:
            raise Violation("%s: %s; the event first occurs at step %d" % (text, names, first))
    if want is not None and names != want:
        raise Violation("%s: %s; the event never occurs" % (text, names))
    return Info(True, ["event", "woken" if first is not None else "not woken"])


MATCH = {
    "+e(X)": lambda s: s.startswith("+e(") and s not in ("+e(1, 2)", "+e(2, 2)"),
    "+e(1)": lambda s: s in ("+e(1)", "+e(1)[src(a)]", "+e(1)[src(b)]"),
    "+e(X, X)": lambda s: s == "+e(2, 2)",
    "-e(_)": lambda s: s.startswith("-e("),
    "-e(2)": lambda s: s == "-e(2)",
    "+!g(Z)": lambda s: s == "!g(1)",
    "+e(1)[src(a)]": lambda s: s == "+e(1)[src(a)]",
    "+?t(_)": lambda s: s == "?t(1)",
    '+e("s")': lambda s: s == '+e("s")',
    "+e([H|T])": lambda s: s == "+e([1, 2])",
    "+e(a)": lambda s: s == "+e(a)",
    "+e(true)": lambda s: s == "+e(true)",
}


# -- events of any form ---------------------------------------------------------------

EXPRS = [["o", "+", ["n", 1], ["n", 1]], ["o", "-", ["o", "*", ["n", 2], ["n", 3]], ["n", 5]], ["o", "/", ["n", 3], ["n", 2]],
         ["u", "-", ["n", 1]], ["o", "mod", ["n", 7], ["n", 4]], ["o", "**", ["n", 2], ["n", 3]]]
VALUES = [1, 2, 1.5, -1, 3, 8]


def event_terms(g):
    return TermGen(g, annots=0.15, strs=True, nums=VALUES)


def value_of(t):
    """The constant an expression stands for."""
    if t[0] in "ou":
        return ["n", {"+": 2, "-": 1, "/": 1.5, "mod": 3, "**": 8}[t[1]] if t[0] == "o" else -1]
    if t[0] == "f":
        return ["f", t[1], [value_of(a) for a in t[2]], [value_of(a) for a in t[3]]]
    if t[0] == "l":
        return ["l", [value_of(a) for a in t[1]]]
    if t[0] == "c":
        return ["c", value_of(t[1]), value_of(t[2])]
    return t


def expressions(g, t, p=0.4):
    """Some of the numbers written as expressions."""
    if t[0] == "n":
        same = [e for e in EXPRS if value_of(e)[1] == t[1]]
        return g.choice(same) if same and g.prob(p) else t
    if t[0] == "f":
        return ["f", t[1], [expressions(g, a, p) for a in t[2]], [expressions(g, a, p) for a in t[3]]]
    if t[0] == "l":
        return ["l", [expressions(g, a, p) for a in t[1]]]
    if t[0] == "c":
        return ["c", expressions(g, t[1], p), expressions(g, t[2], p)]
    return t


def gen_events(g, tier):
    tg = event_terms(g)
    args = [g.choice([["n", g.choice(VALUES)], ["s", g.choice(["a.b", "x.", "", "a", "say \"hi\"", "."])], tg.term(1), tg.term(2)])
            for _ in range(g.weighted([(1, 0), (6, 1), (3, 2)]))]
    base = lit(g.choice(["e", "e", "e1", "goTo"]), *args)
    if g.prob(0.3):
        base[3] = [tg.annot(0) for _ in range(g.size(1, 2))]
    steps = []
    for _ in range(g.size(1, 6)):
        t = ["f", base[1], [a if g.prob(0.7) else tg.term(1) for a in base[2]], [a for a in base[3] if g.prob(0.8)]]
        if g.prob(0.15):
            t[2] = t[2][:-1] if g.prob(0.5) else t[2] + [["n", 1]]
        if g.prob(0.1):
            t[1] = "other"
        if g.prob(0.2):
            t[3] = t[3] + [tg.annot(0)]
        steps.append([g.weighted([(5, "+"), (3, "-"), (2, "!"), (2, "?")]), t])
    event = perturb(g, base, ["X", "Y", "X", "_Z"], p=0.25, mutate=0, root=True)
    return {"event": [g.weighted([(5, "+"), (3, "-"), (2, "+!"), (2, "+?")]), expressions(g, event)], "steps": steps,
            "form": g.choice(["%s", "%s", "%s.", " %s", "%s .", "%s // x\n"]), "limit": g.choice([None, None, 5000])}


def fits(pattern, t):
    return next(ref.unify_annotated(pattern, t, {}), None) is not None


def check_events(case):
    kind, pattern = case["event"]
    steps = case["steps"]
    text = case["form"] % (kind + sut.src(pattern))
    term = ref.term(value_of(pattern), "w")
    held = []
    first = None
    lines = []
    for i, (k, t) in enumerate(steps):
        r = ref.term(t)
        what = k if k in "+-" else "+" + k
        lines.append(k + sut.src(t))
        if k == "+":
            if ref.canon(r) not in [ref.canon(h) for h in held]:
                held.append(r)
        elif k == "-":
            c = [h for h in held if fits(r, h)]
            if len(c) > 1:
                return Info(False, ["ambiguous"])
            if not c:
                continue
            held.remove(c[0])
        if first is None and what == kind and fits(term, r):
            first = i
    src = "!w. !go. +!w <- .wait(%s); .rec(woken); .wait(1); .rec(again). +!go <- %s.\n" % (
        sut.str_src(text) + (", %d" % case["limit"] if case["limit"] else ""),
        "; ".join("%s; .rec(%d); .wait(10)" % (s, i) for i, s in enumerate(lines)))
    src += "".join("+%s%s(%s).\n" % (k, n, ", ".join(["_"] * a)) if a else "+%s%s.\n" % (k, n)
                   for k, n, a in sorted({(k, t[1], len(t[2])) for k, t in steps if k in "!?"}))
    out, traces = sched.observe([{}], ["ag0"], [src])
    if out.error is not None:
        raise Violation("%s: failed %r %s" % (src, out.error, [r.getMessage() for r in out.log.errors()]))
    names = [a[0][1] for a, _ in traces["ag0"]]
    if first is None and not case["limit"]:
        if names != [float(i) for i in range(len(steps))]:
            raise Violation("%s: %s; the event never occurs" % (src, names))
        return Info(True, ["not woken"])
    at = {a[0][1]: t for a, t in traces["ag0"]}
    if sorted(map(str, names)) != sorted(["woken", "again"] + [str(float(i)) for i in range(len(steps))]):
        raise Violation("%s: %s; the event first occurs at step %s" % (src, names, first))
    if first is not None and abs(at["woken"] - at[float(first)]) > 1e-3:
        raise Violation("%s: %s; the event first occurs at step %s" % (src, names, first))
    if first is None and not 5 - 1e-3 <= at["woken"] - at[0.0] <= 5 + 1e-2:
        raise Violation("%s: %s; the event does not occur and the time is over after 5 s" % (src, names))
    return Info(True, ["woken" if first is not None else "timeout"])


FACETS = [
    Facet("events", strategy(gen_events), check_events, quick=700, thorough=30000),
    Facet("waits", strategy(gen_waits), check_waits, quick=700, thorough=30000),
    Facet("agents", strategy(gen_agents), check_waits, quick=300, thorough=15000),
    Facet("exact", strategy(gen_exact), check_exact, quick=250, thorough=8000),
]
