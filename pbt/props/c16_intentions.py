"""C16: every intention runs to completion, in order, without interference."""
from .. import interp, ref, sched, sut
from ..core import Facet, Info, Violation
from ..gen import strategy
from ..proggen import A, lit
from ..sched import CG, X, num

RULE = ("lines: one agent with several initial and detached goals, sub-goals, belief handlers, loops and waits (virtual clock); "
        "agents: two to four such agents in one environment sending each other goals and beliefs; oracle: reference machine, "
        "order of effects per agent, final beliefs, and nothing left to do (programs with messages that race in "
        "the reference are skipped). lockstep: identical agents must produce identical effects in turn, each agent exactly "
        "those it produces alone. turns: straight-line agents must alternate strictly. tokens: goals sent between agents in "
        "schedule-dependent order: every posted goal is executed exactly once, completely and in order, in the order of "
        "sending per pair of agents, lines of an agent without waits never interleave. Non-trivial: at least two lines and "
        "six effects.")


def gen_lines(g, tier):
    waits = g.choice([0, 0, 2])
    cg = CG(g, "ag0", goals=g.size(1, 4), weights=dict(wait=waits, waitev=1 if waits and g.prob(0.5) else 0, later=g.choice([2, 5])))
    return {"progs": [cg.program(4, 5)]}


def gen_agents(g, tier):
    n = g.size(2, 4)
    names = ["ag%d" % i for i in range(n)]
    progs = []
    for i, name in enumerate(names):
        sends = g.choice([0, 2, 3])
        cg = CG(g, name, goals=g.size(1, 3), others=[x for x in names if x != name],
                weights=dict(send=sends, wait=g.choice([0, 2]) if not sends else 3))
        progs.append(cg.program(2, 4, handlers=0.3))
    return {"progs": progs}


def check_progs(case):
    progs = case["progs"]
    names = ["ag%d" % i for i in range(len(progs))]
    exp = sched.expected(progs, names)
    if exp is None:
        return Info(False, ["schedule-dependent or out of domain"])
    out, traces = sched.observe(progs, names)
    sched.compare(exp, out, traces, names, progs)
    before = len(out.trace)
    with sut.clock():
        out.env.run()
    if len(out.trace) != before or any(a.step() for a in out.agents):
        raise Violation("the run stopped although an intention could make progress:\n%s" % "\n---\n".join(map(interp.prog_src, progs)))
    lines = sum(len(p["goals"]) for p in progs)
    return Info(lines + exp.machine.lines_posted >= 2 and len(out.trace) >= 6,
                ["agents %d" % len(progs), "waits" if exp.deadlines else "no waits", "posted %s" % min(exp.machine.lines_posted, 5)])


def gen_lockstep(g, tier):
    cg = CG(g, "ag0", goals=g.size(1, 4))
    return {"prog": cg.program(3, 5), "n": g.size(2, 4)}


def check_lockstep(case):
    n = case["n"]
    names = ["ag%d" % i for i in range(n)]
    prog = case["prog"]
    alone, tr = sched.observe([prog], ["ag0"])
    out, traces = sched.observe([prog] * n, names)
    text = interp.prog_src(prog)
    if alone.error is not None:
        return Info(False, ["error"])
    for name in names:
        if not sched.same(traces[name], tr["ag0"], 0.001):
            raise Violation("agent %s behaves differently from an agent alone\n%s\n%s\nalone\n%s" % (
                name, text, sched.show_traces(traces), sched.show_traces(tr)))
    # the order of beliefs may differ, but nothing here depends on it; one step per agent in turn:
    for i in range(0, len(out.trace), n):
        if [a for a, _ in out.trace[i:i + n]] != names:
            raise Violation("equal agents are not served in turn: %s\n%s" % ([a for a, _ in out.trace], text))
    return Info(len(out.trace) >= 6 * n and len(prog["goals"]) >= 2, ["agents %d" % n])


def gen_turns(g, tier):
    n = g.size(2, 4)
    return {"sizes": [[g.int(1, 6) for _ in range(g.size(1, 3))] for _ in range(n)]}


def check_turns(case):
    progs = []
    for sizes in case["sizes"]:
        plans, goals = [], []
        for k, size in enumerate(sizes):
            plans.append({"t": "+", "g": "!", "head": A("g%d" % k), "ctx": None, "body": [["rec", [num(k), num(i)]] for i in range(size)]})
            goals.append(A("g%d" % k))
        progs.append({"goals": goals, "plans": plans})
    names = ["ag%d" % i for i in range(len(progs))]
    out, traces = sched.observe(progs, names)
    want = {n: [(k, i) for k, size in enumerate(sizes) for i in range(size)] for n, sizes in zip(names, case["sizes"])}
    got = {n: [(int(a[0][1]), int(a[1][1])) for a, _ in tr] for n, tr in traces.items()}
    if got != want:
        raise Violation("effects %s, expected %s" % (got, want))
    # While two agents are both within one plan, their steps alternate.
    order = [(a, int(t[0][1]), int(t[1][1])) for a, t in out.trace]
    last = {(n, k): size - 1 for n, sizes in zip(names, case["sizes"]) for k, size in enumerate(sizes)}
    for p in names:
        for q in names:
            if p >= q:
                continue
            seq = [e for e in order if e[0] in (p, q)]
            for e1, e2 in zip(seq, seq[1:]):
                if e1[0] == e2[0] and e1[1] == e2[1]:
                    # the same agent twice in a row: the other one is not inside a plan here
                    other = q if e1[0] == p else p
                    done = [e for e in order[:order.index(e1)] if e[0] == other]
                    if done and done[-1][2] < last[other, done[-1][1]]:
                        raise Violation("agent %s was served twice in a row although %s had work: %s" % (e1[0], other, order))
    return Info(sum(map(sum, case["sizes"])) >= 6, ["agents %d" % len(names)])


def gen_tokens(g, tier):
    """Each agent has several goals; bodies record and post uniquely numbered goals to agents."""
    n = g.size(2, 4)
    names = ["ag%d" % i for i in range(n)]
    nid = [0]
    tasks = {}           # id -> {"agent", "steps": [...]}

    def task(agent, depth):
        i = nid[0]
        nid[0] += 1
        steps = []
        for _ in range(g.size(0, 4)):
            k = g.weighted([(4, "rec"), (3, "send"), (1, "bcast"), (2, "later"), (1, "sub"), (1, "tell")])
            if k == "rec" or depth <= 0 or nid[0] > 40:
                steps.append(["rec"])
            elif k == "send":
                to = g.choice(names)
                steps.append(["send", to, task(to, depth - 1)])
            elif k == "bcast":
                if n > 3 and nid[0] > 20:
                    continue
                steps.append(["bcast", {to: task(to, depth - 2) for to in names if to != agent}])
            elif k == "later":
                steps.append(["later", task(agent, depth - 1)])
            elif k == "sub":
                steps.append(["sub", task(agent, depth - 1)])
            else:
                to = g.choice(names)
                steps.append(["tell", to, task(to, depth - 1)])
        tasks[str(i)] = {"agent": agent, "steps": steps}
        return i
    starts = [[name, task(name, 3)] for name in names for _ in range(g.size(0, 2))]
    return {"n": n, "starts": starts, "tasks": tasks}


def check_tokens(case):
    n = case["n"]
    names = ["ag%d" % i for i in range(n)]
    progs = {name: {"goals": [], "plans": [], "beliefs": []} for name in names}
    tasks = {int(k): v for k, v in case["tasks"].items()}
    bgroups = {}
    for name, i in case["starts"]:
        progs[name]["goals"].append(lit("do", num(i)))
    posted = []           # (poster, kind, to, child)
    for i, t in tasks.items():
        body = [["rec", [num(i), num(0)]]]
        k = 1
        for s in t["steps"]:
            if s[0] == "rec":
                pass
            elif s[0] == "send":
                body.append(["send", A(s[1]), "achieve", lit("do", num(s[2]))])
                posted.append((i, "post", s[1], s[2]))
            elif s[0] == "tell":
                body.append(["send", A(s[1]), "tell", lit("job", num(s[2]))])
                posted.append((i, "post", s[1], s[2]))
            elif s[0] == "bcast":
                gid = num(i * 100 + k)
                body.append(["broadcast", "achieve", lit("grp", gid)])
                for to, c in s[1].items():
                    bgroups[i * 100 + k, to] = c
                    posted.append((i, "post", to, c))
            elif s[0] == "later":
                body.append(["!!", lit("do", num(s[1]))])
                posted.append((i, "post", t["agent"], s[1]))
            elif s[0] == "sub":
                body.append(["!", lit("do", num(s[1]))])
                posted.append((i, "sub", t["agent"], s[1]))
            body.append(["rec", [num(i), num(k)]])
            k += 1
        tasks[i]["len"] = k
        progs[t["agent"]]["plans"].append({"t": "+", "g": "!", "head": lit("do", num(i)), "ctx": None, "body": body})
    for (gid, to), c in bgroups.items():
        progs[to]["plans"].append({"t": "+", "g": "!", "head": lit("grp", num(gid)), "ctx": None, "body": [["!", lit("do", num(c))]]})
    for name in names:
        progs[name]["plans"].append({"t": "+", "g": "", "head": lit("job", X), "ctx": None, "body": [["!", lit("do", X)]]})
    ps = [progs[name] for name in names]
    out, traces = sched.observe(ps, names)
    text = "\n---\n".join(map(interp.prog_src, ps))
    if out.error is not None:
        raise Violation("run failed with %r %s:\n%s" % (out.error, [r.getMessage() for r in out.log.errors()], text))
    # exactly once, completely, in order, by the right agent
    seen = {}
    for agent, args in out.trace:
        i, k = int(args[0][1]), int(args[1][1])
        if tasks[i]["agent"] != agent:
            raise Violation("goal %d of %s executed by %s:\n%s" % (i, tasks[i]["agent"], agent, text))
        if seen.setdefault(i, 0) != k:
            raise Violation("step %d of goal %d executed when step %d was due: %s\n%s" % (k, i, seen[i], out.trace, text))
        seen[i] += 1
    want = set(i for _, i in case["starts"])
    work = list(want)
    children = {}
    for p, kind, to, c in posted:
        children.setdefault(p, []).append((kind, to, c))
    while work:
        i = work.pop()
        for _, _, c in children.get(i, ()):
            want.add(c)
            work.append(c)
    for i in want:
        if seen.get(i) != tasks[i]["len"]:
            raise Violation("goal %d executed %s of %d steps:\n%s" % (i, seen.get(i, 0), tasks[i]["len"], text))
    # lines (a goal with its sub-goals) of one agent do not interleave; per pair of agents they start in sending order
    line = {}
    for p, kind, to, c in posted:
        line[c] = ("sub", p) if kind == "sub" else ("post", p)

    def root(i):
        while i in line and line[i][0] == "sub":
            i = line[i][1]
        return i
    for name in names:
        seq = []
        for agent, args in out.trace:
            if agent == name:
                r = root(int(args[0][1]))
                if not seq or seq[-1] != r:
                    seq.append(r)
        if len(seq) != len(set(seq)):
            raise Violation("lines of %s interleave: %s\n%s" % (name, seq, text))
        pos = {r: k for k, r in enumerate(seq)}
        # initial goals first, in order
        starts = [i for nm, i in case["starts"] if nm == name]
        if [r for r in seq if r in starts] != starts:
            raise Violation("initial goals of %s run in the order %s, expected %s\n%s" % (name, seq, starts, text))
        sent = {}
        for p, kind, to, c in posted:
            if kind == "post" and to == name and c in pos:
                sent.setdefault(root(p), []).append((p, c))
        for r, items in sent.items():
            byp = {}
            for p, c in items:
                byp.setdefault(p, []).append(c)
            for p, cs in byp.items():
                if sorted(cs, key=pos.get) != cs:
                    raise Violation("goals %s sent to %s in this order by one line run in another: %s\n%s" % (cs, name, seq, text))
    return Info(len(posted) >= 2 and len(out.trace) >= 6, ["goals %s" % min(len(tasks) // 5 * 5, 30)])


FACETS = [
    Facet("lines", strategy(gen_lines), check_progs, quick=500, thorough=25000),
    Facet("agents", strategy(gen_agents), check_progs, quick=400, thorough=20000),
    Facet("lockstep", strategy(gen_lockstep), check_lockstep, quick=200, thorough=8000),
    Facet("turns", strategy(gen_turns), check_turns, quick=150, thorough=5000),
    Facet("tokens", strategy(gen_tokens), check_tokens, quick=300, thorough=15000),
]
