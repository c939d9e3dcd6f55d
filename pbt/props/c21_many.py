"""C21: building n agents from one source gives n independent equal agents."""
from .. import interp, ref, sut
from ..core import Facet, Hang, Info, Runaway, Violation
from ..gen import strategy
from ..proggen import A, Scope, lit
from ..sut import agentspeak
from .c19_plans_sent import NAMES, Plans, text_of, value

RULE = ("One or two generated sources (beliefs, rules, several initial goals with variables, labelled plans, updates, self-sent "
        "messages), built as groups of -1 to 4 agents (default or derived class, with and without a name); all agents run "
        "interleaved, then up to five messages (beliefs, withdrawals, goals, plans taught and withdrawn, rules added by Python code) go to single agents, "
        "and finally the same goals to all. Oracle: for every agent separately the reference machine with that source and "
        "the messages to that agent: its effects and final beliefs; number, names, class and registration of the agents. "
        "Non-trivial: a group of at least two agents of which at least two recorded effects, and one message to a single agent.")
ASSUMPTIONS = ["sources whose initial goals have no applicable plan are not explored"]


def gen_prog(g, ps):
    pg = ps.pg
    rules = pg.rules(g.int(0, 2))
    # now and then one event has all the plans
    ps.one = g.weighted([(2, None), (1, [g.choice(["go", "g"]), g.int(0, 1)])])
    plans = [planned(ps) for _ in range(g.size(1, 5))]
    goals = []
    for i in range(g.size(0, 3)):
        ar = g.int(0, 2)
        head = lit("init%d" % i, *[["v", v] for v in ("X", "Y")[:ar]])
        body = pg.body(Scope(), g.int(0, 2), 4, 1)
        if g.prob(0.25):
            body.append(["q", ["act", ".my_name", [["v", "Me"]]]])
            body.append(["send", ["v", "Me"], "tell", lit("p", value(g))])
        plans.append({"t": "+", "g": "!", "head": head, "ctx": None, "body": body + [["rec", [A("end%d" % i), ["v", "X"]]]]})
        goals.append(lit("init%d" % i, *[g.choice([["v", "V"], value(g), ["_"], lit("f", ["v", "V"])]) for _ in range(ar)]))
    return {"beliefs": pg.beliefs(g.int(0, 5)) + getattr(pg, "extra_beliefs", []), "rules": rules, "goals": goals, "plans": plans}


def planned(ps):
    return ps.plan(*(ps.one or ()), label=0.5)


def step(g, ps, prog):
    k = g.weighted([(3, "tell"), (2, "untell"), (4, "achieve"), (3, "teach"), (2, "unteach"), (2, "rule")])
    if k == "rule":
        # Python code gives one of the agents a rule.
        sigs = sorted({(h[1], len(h[2])) for h, _ in prog["rules"]}) or [("r0", 1)]
        name, arity = g.choice(sigs)
        return ["rule", None, lit(name, *[g.choice([["v", "X"], value(g)]) for _ in range(arity)]),
                g.choice([["true"], ["lit", lit("p", ["v", "X"])]])]
    if k == "teach":
        plans = [planned(ps) for _ in range(g.size(1, 2))]
        return ["teach", None, plans, text_of(g, plans)]
    if k == "unteach":
        return ["unteach", None, g.choice(["l1", "l2", "l"])]
    if k == "achieve":
        return ["send", None, "achieve", goal(g, prog)]
    return ["send", None, k, lit("p", value(g))]


def goal(g, prog):
    known = [(p["head"][1], len(p["head"][2])) for p in prog["plans"] if p["g"] == "!"] or [("go", 0)]
    name, arity = g.choice(known)
    return lit(name, *[value(g) for _ in range(arity)])


def gen(g, tier):
    ps = Plans(g)
    groups = []
    for i in range(g.weighted([(3, 1), (1, 2)])):
        groups.append({"prog": gen_prog(g, ps), "n": g.weighted([(10, 2), (8, 3), (4, 4), (2, 1), (2, 0), (2, -1), (1, g.int(5, 10))]),
                       "name": g.choice([None, None, "worker", "ag0"]), "own": g.prob(0.3)})
    total = sum(max(0, x["n"]) for x in groups)
    owner = [gi for gi, x in enumerate(groups) for _ in range(max(0, x["n"]))]
    phases = []
    if total:
        for _ in range(g.size(0, 5)):
            i = g.int(0, total - 1)
            phases.append([i, step(g, ps, groups[owner[i]]["prog"])])
        for gi in sorted(set(owner)):
            for _ in range(g.size(0, 2)):
                goal_ = ["send", None, "achieve", goal(g, groups[gi]["prog"])]
                phases += [[i, goal_] for i in range(total) if owner[i] == gi]
    return {"groups": groups, "phases": phases}


class Own(agentspeak.runtime.Agent):
    pass


def settle(env):
    for _ in range(200):
        try:
            env.run()
            return
        except (sut.AslError, sut.AggregatedError):
            pass
    raise Violation("running does not come to an end after 200 failed steps")


def reference(prog, steps, name):
    """Programs and driver of the reference machine for one agent."""
    progs = [prog] + [{"goals": [A("run")], "plans": [{"t": "+", "g": "!", "head": A("run"), "ctx": None,
                                                       "body": [] if f[0] == "rule" else [addressed(f, name)]}]}
                      for _, f in steps]
    names = [name] + ["b%d" % k for k, _ in steps]

    def drive(m):
        m.start()
        for j in [None] + list(range(1, len(progs))):
            if j and steps[j - 1][1][0] == "rule":
                m.agents[0].rules.append(steps[j - 1][1][2:])
            for k in ([j] if j else []) + [0]:
                while True:
                    try:
                        m.run_agent(m.agents[k])
                        break
                    except ref.RefError:
                        pass
    return progs, names, drive


def told(f, name):
    if f[0] == "rule":
        return "%s: rule %s :- %s.\n" % (name, sut.src(f[2]), interp.q_src(f[3]))
    return interp.f_src(addressed(f, name)) + "\n"


def addressed(f, name):
    return [f[0], A(name)] + f[2:]


def check(case):
    groups = case["groups"]
    # leave out programs that do not end or leave the domain
    i = 0
    for gr in groups:
        for _ in range(max(0, gr["n"])):
            steps = [(k, f) for k, (to, f) in enumerate(case["phases"]) if to == i]
            r = interp.screen(*reference(gr["prog"], steps, "x"), paths=2)
            if r is None or r.kind == "error":
                return Info(False, ["out of domain"])
            i += 1
    try:
        return judge(case)
    except (Runaway, Hang):
        i = 0
        for gr in groups:
            for _ in range(max(0, gr["n"])):
                steps = [(k, f) for k, (to, f) in enumerate(case["phases"]) if to == i]
                if interp.may_run_away(*reference(gr["prog"], steps, "x")):
                    return Info(False, ["out of domain"])
                i += 1
        raise


def judge(case):
    groups = case["groups"]
    trace = []
    agents = []

    def record(name, args):
        trace.append((name, args))
        if len(trace) > 20000:
            raise sut.TooManyEvents()
    try:
        names, sets = execute(case, record, agents)
    except sut.TooManyEvents:
        raise Runaway("more than 20000 effects")
    return compare(case, trace, agents, names, sets)


def execute(case, record, agents):
    groups = case["groups"]
    with sut.capture() as log, sut.clock():
        actions = sut.with_recorder(record)
        env = agentspeak.runtime.Environment()
        for gi, gr in enumerate(groups):
            kw = {"name": gr["name"]} if gr["name"] else {}
            if gr["own"]:
                kw["agent_cls"] = Own
            res = env.build_agents(sut.StringSource("src%d.asl" % gi, interp.prog_src(gr["prog"])), gr["n"], actions, **kw)
            if len(res) != max(0, gr["n"]):
                raise Violation("build_agents(%d) gave %d agents" % (gr["n"], len(res)))
            for a in res:
                if not isinstance(a, Own if gr["own"] else agentspeak.runtime.Agent):
                    raise Violation("agent of class %s" % type(a).__name__)
                if a.env is not env:
                    raise Violation("agent in another environment")
            agents += res
        names = [a.name for a in agents]
        if len(set(names)) != len(names) or len(set(map(id, agents))) != len(agents):
            raise Violation("agents are not distinct: %s" % names)
        if set(env.agents) != set(names) or any(env.agents[a.name] is not a for a in agents):
            raise Violation("environment has agents %s, built were %s" % (sorted(env.agents), names))
        settle(env)
        for k, (to, f) in enumerate(case["phases"]):
            if f[0] == "rule":
                helper = agentspeak.runtime.Environment().build_agent(
                    sut.StringSource("r%d.asl" % k, "%s :- %s.\n" % (sut.src(f[2]), interp.q_src(f[3]))), actions)
                for rules in helper.rules.values():
                    for rule in rules:
                        agents[to].add_rule(rule)
                settle(env)
                continue
            env.build_agent(sut.StringSource("b%d.asl" % k, "!run.\n+!run <-\n" + interp.f_src(addressed(f, names[to])) + ".\n"), actions)
            settle(env)
        sets = [frozenset(ref.canon(b) for b in sut.beliefs_of(a)) for a in agents]
    return names, sets


def compare(case, trace, agents, names, sets):
    groups = case["groups"]
    i = 0
    active = 0
    open_ = 0
    for gr in groups:
        for _ in range(max(0, gr["n"])):
            steps = [(k, f) for k, (to, f) in enumerate(case["phases"]) if to == i]
            mine = [e for e in trace if e[0] == names[i]]
            progs, rn, drive = reference(gr["prog"], steps, names[i])
            want = sets[i]
            kind, r = interp.explore(progs, rn, drive, mine, "done", lambda m: m.belief_sets()[0] == want, cap=150)
            if kind == "open":
                open_ += 1
            elif kind == "none":
                raise Violation("agent %d (%s) of %s does not behave like an agent built alone\n%s\nmessages to it:\n%s\n"
                                "messages to others:\n%s\nits effects:\n%s\nits beliefs: %s\nbest reference run:\n%s\nbeliefs: %s" % (
                                    i, names[i], [x["n"] for x in groups], interp.prog_src(gr["prog"]),
                                    "".join(told(f, names[i]) for _, f in steps),
                                    "".join(told(f, names[to]) for to, f in case["phases"] if to != i),
                                    "\n".join(", ".join(map(interp.show, t)) for _, t in mine),
                                    sorted(map(interp.show, sut.beliefs_of(agents[i]))),
                                    "\n".join(", ".join(map(interp.show, t)) for a, t in r.machine.trace if a == names[i]) if r else "",
                                    sorted(map(interp.show, r.machine.agents[0].beliefs.values())) if r else ""))
            active += bool(mine)
            i += 1
    return Info(active >= 2 and len(case["phases"]) > 0 and max(x["n"] for x in groups) >= 2,
                ["agents %d" % len(agents), "phases %d" % min(len(case["phases"]), 8)] + (["inconclusive"] if open_ else []) +
                ["class" for x in groups if x["own"]] + ["named" for x in groups if x["name"]])


FACETS = [Facet("groups", strategy(gen), check, quick=600, thorough=30000)]
