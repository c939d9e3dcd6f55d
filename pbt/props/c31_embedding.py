"""C31: Python code that drives agents has the effects of the program steps it stands for."""
import enum, functools
from .. import interp, ref, sched, sut
from ..core import Facet, Info, Violation
from ..gen import strategy, vars_of
from ..proggen import A, PG, Scope, lit
from ..sched import CG
from . import c13_plans, c14_bodies, c15_goals, c20_unachieve

ast = sut.agentspeak
T, G = ast.Trigger, ast.GoalType

RULE = ("posted: random programs (control structure, goals with parameters, plan libraries, withdrawals) in which goals, tests, "
        "belief updates and detached goals are executed by Python actions that call the agent on the intention they run in, or on "
        "one of their own. between: an agent is run to quiescence between random sequences of calls from outside (goals, tests, "
        "belief additions and removals with and without events, withdrawals, plans taught and removed), non-ground, unknown and failing ones included. "
        "objects: random programs whose constants are Python objects (compared by identity, by value, equal though of different classes, None, bytes, members of "
        "enumerations) that only actions and calls introduce, also as arguments of beliefs, goals and messages. clock: environments "
        "that define their own time. epoch: clocks that reach deadlines exactly, from any origin (deadline zero included); oracle: the sums of the waits. Oracle: the reference machine for the same program written with ordinary steps and atoms: "
        "effects, results of calls, outcome, beliefs, times. Non-trivial: at least one step was taken by Python (object introduced, "
        "wait served) and two effects were recorded.")
ASSUMPTIONS = ["Calls from outside are made between steps, never from another thread.",
               "The optional last argument of call makes no difference for a call with an intention of its own."]


# -- posted --------------------------------------------------------------------------

POST = {"!": ".post", "+": ".add", "-": ".remove", "?": ".ask", "!!": ".post_new"}


def reroute(body, bits):
    """Body with some steps as actions (as text-producing formulas)."""
    res = []
    for f in body:
        f = list(f)
        if f[0] in ("if", "while", "for"):
            f[2] = reroute(f[2], bits)
            if f[0] == "if" and f[3] is not None:
                f[3] = reroute(f[3], bits)
        elif f[0] in POST:
            b = bits[0]
            bits.append(bits.pop(0))
            if b or f[1][0] == "v":
                n = POST[f[0]] + ("" if b < 2 or f[0] != "!!" else "2")
                f = ["q", ["act", n, [f[1]]]]
                bits_used.append(n)
        res.append(f)
    return res


bits_used = []


def python_steps():
    acts = ast.Actions(sut.agentspeak.ext_stdlib.actions)
    Intention, Agent = ast.runtime.Intention, ast.runtime.Agent

    def step(name, trigger, gtype):
        @acts.add(name, 1)
        def run(agent, term, intention):
            if agent.call(trigger, gtype, term.args[0], intention):
                yield
    step(".post", T.addition, G.achievement)
    step(".add", T.addition, G.belief)
    step(".remove", T.removal, G.belief)
    step(".ask", T.addition, G.test)

    @acts.add(".post_new", 1)
    def post_new(agent, term, intention):
        goal = ast.freeze(term.args[0], intention.scope, {})
        agent.call(T.addition, G.achievement, goal, Intention(), delayed=True)
        yield

    @acts.add_procedure(".post_new2", (Agent, None))
    def post_new2(agent, goal):
        agent.call(T.addition, G.achievement, goal, Intention())
    return acts


def any_program(g, tier):
    k = g.int(0, 4)
    if k == 0:
        return c14_bodies.gen(g, tier)["prog"]
    if k == 1:
        return c15_goals.gen_systems(g, tier)
    if k == 2:
        return c13_plans.gen(g, tier)
    if k == 3:
        return c20_unachieve.UG(g, "ag0", False).program(2)
    return c15_goals.gen_recursive(g, tier)


def gen_posted(g, tier):
    prog = any_program(g, tier)
    heads = sorted({(p["g"], p["head"][1], len(p["head"][2])) for p in prog["plans"] if p["head"][1] != "go"})
    for i in range(g.size(0, 2) if heads else 0):
        # a literal is built first and then handed over as a value
        k, name, arity = g.choice(heads)
        v = ["v", "L%d" % i]
        body = g.choice(prog["plans"])["body"]
        at = g.int(0, len(body))
        t = lit(name, *[g.choice([["v", "X"], ["v", "Y"], A("a"), ["n", 1], lit("f", ["v", "X"])]) for _ in range(arity)])
        body[at:at] = [["q", ["unify", v, t]], [{"!": g.choice(["!", "!!"]), "?": "?", "": g.choice("+-")}[k], v],
                       ["rec", [A("then"), v]]]
    return {"prog": prog, "bits": [g.choice([1, 1, 2, 0]) for _ in range(g.size(1, 5))]}


def check_posted(case):
    prog = dict(case["prog"])
    bits = list(case["bits"])
    del bits_used[:]
    text = interp.prog_src(dict(prog, plans=[dict(p, body=reroute(p["body"], bits)) for p in prog["plans"]]))
    used = sorted(set(bits_used))
    res = interp.judge([prog], ["ag0"], texts=[text], parent=python_steps())
    if res is None:
        return Info(False, ["inconclusive"])
    out, r = res
    return Info(bool(used) and len(out.trace) >= 2, used + ["error" if out.error is not None else "completed"])


# -- between -------------------------------------------------------------------------

class Host:
    name = "host"


HOST = Host()


def gen_op(g, sigs, plans):
    k = g.weighted([(5, "goal"), (3, "+"), (3, "-"), (2, "?"), (2, "add"), (2, "remove"), (2, "test"), (2, "withdraw"), (1, "teach"),
                    (1, "unteach"), (2, "run")])
    if k == "run":
        return ["run"]
    if k == "teach":
        p = dict(g.choice(plans))
        if g.prob(0.5):
            p["label"] = "l%d" % g.int(0, 2)
        return ["teach", p]
    if k == "unteach":
        return ["unteach", "l%d" % g.int(0, 2)]
    pool = [s for s in sigs if s[0] == {"goal": "!", "withdraw": "!", "?": "?"}.get(k, "")] or sigs
    _, name, arity = g.choice(pool if g.prob(0.9) else sigs)
    t = c13_plans.event_term(g, name, arity, g.choice([0, 0, 0.3]), k not in ("add", "+") or g.prob(0.1))
    if g.prob(0.3):
        t[2] = [["n", g.int(0, 3)] for _ in t[2]]
    elif g.prob(0.1):
        t[2] = [["o", "+", ["n", 1], ["n", g.int(0, 2)]] for _ in t[2]]
    if k == "withdraw" and g.prob(0.5):
        t[2] = [["_"] for _ in t[2]]
    return [k, t] + ([g.prob(0.5)] if k in ("goal", "+", "-", "?") else [])


def gen_between(g, tier):
    k = g.int(0, 2)
    if k == 0:
        prog = c13_plans.gen(g, tier)
    elif k == 1:
        prog = c20_unachieve.UG(g, "ag0", True, False).program(2)
    else:
        prog = CG(g, "ag0", weights=dict(wait=2, waitev=6, waitboth=1, add=3, drop=2)).program(2, 4, 0.5)
    sigs = sorted({(p["g"], p["head"][1], len(p["head"][2])) for p in prog["plans"]} | {("", "p", 1), ("", "e0", 1)})
    return {"prog": prog, "ops": [gen_op(g, sigs, prog["plans"]) for _ in range(g.size(2, 10))]}


def free_vars(t):
    return sorted(set(vars_of(t)))


class Outside:
    """The operations on the real agent."""
    def __init__(self, out, agent):
        self.out, self.agent = out, agent

    def emit(self, *terms):
        self.out.trace.append(("host", tuple(terms)))

    def run(self):
        while True:
            try:
                self.out.env.run_agent(self.agent)
                return
            except (sut.AslError, sut.AggregatedError):
                self.emit(("f", "failed", (), ()))

    def op(self, op):
        k, agent = op[0], self.agent
        if k == "run":
            return self.run()
        env = {}
        I = ast.runtime.Intention()
        try:
            if k == "teach":
                text = interp.plan_src(op[1])
                agent.call(T.addition, G.tellHow, ast.Literal("plain_text", (text,)), I)
                return
            if k == "unteach":
                agent.call(T.removal, G.tellHow, ast.Literal("plain_text", ("@" + op[1],)), I)
                return
            t = sut.to_sut(op[1], env)
            opt = {"delayed": True} if op[-1] is True else {}
            r = None
            if k == "goal":
                agent.call(T.addition, G.achievement, t, I, **opt)
            elif k == "+":
                agent.call(T.addition, G.belief, t, I, **opt)
            elif k == "-":
                agent.call(T.removal, G.belief, t, I, **opt)
            elif k == "?":
                r = agent.call(T.addition, G.test, t, I, **opt)
            elif k == "withdraw":
                agent.call(T.removal, G.achievement, t, I)
            elif k == "add":
                agent.add_belief(t, {})
            elif k == "test":
                r = agent.test_belief(t, I)
            elif k == "remove":
                b = agent.remove_belief(t, I)
                r = b is not None
        except sut.AslError:
            self.emit(("f", "error", (), ()))
            return
        if r is not None:
            if r is not True and r is not False:
                raise Violation("%s of %s gave %r" % (k, sut.src(op[1]), r))
            self.emit(("f", "result", (("b", r),), ()))
        if k in ("test", "remove") and r:
            names, memo = {}, {}
            self.emit(*[sut.from_sut(ast.freeze(env[v], I.scope, memo), names) for v in sorted(env)])


class Reference(interp.Machine):
    def host_run(self):
        A0 = self.agents[0]
        while True:
            try:
                self.run_agent(A0)
                return
            except ref.RefError:
                self.burn(20)
                self.emit(HOST, [("f", "failed", (), ())])

    def host_op(self, op):
        k, A0 = op[0], self.agents[0]
        if k == "run":
            return self.host_run()
        if k == "teach":
            A0.plans = A0.plans + [op[1]]
            return
        if k == "unteach":
            A0.plans = [p for p in A0.plans if p.get("label") != op[1]]
            return
        fid = next(self.fresh)
        t = ref.term(op[1], fid)
        result, s = None, {}
        try:
            if k == "goal":
                self.post(A0, "+", "!", t)
            elif k == "+":
                self.add_event(A0, t)
            elif k == "-":
                self.del_event(A0, t)
            elif k == "?":
                result = True
                self.wake(A0, "+", "?", ref.resolve(t, {}))
                r = self.rename(ref.resolve(t, {}))
                self.literal(r)
                found = self.event(A0, "+", "?", r, {})
                if found:
                    f, body, s2 = found
                    I = interp.Intention(A0)
                    I.s = s2
                    I.frames.append(interp.Frame(self.body(A0, I, f, body), "?", r, {}))
                    A0.intentions.append(I)
                else:
                    result = next(self.solve_literal(A0, t, {}, 0), None) is not None
            elif k == "withdraw":
                self.literal(t)
                self.wake(A0, "-", "!", ref.resolve(t, {}))
                self.unachieve(A0, t)
            elif k == "add":
                self.add(A0, self.ground(t))
            elif k == "test":
                self.literal(t)
                s1 = next(self.solve_literal(A0, t, {}, 0), None)
                result = s1 is not None
                s = s1 or {}
            elif k == "remove":
                self.literal(t)
                w = ref.walk(t, {})
                options = [(c, s1) for c, gs in self.matches(A0, w, {}) for s1 in gs]
                result = bool(options)
                if options:
                    c, s = options[self.choose(len(options))]
                    A0.beliefs.pop(c)
        except ref.RefError:
            self.emit(HOST, [("f", "error", (), ())])
            return
        if result is not None:
            self.emit(HOST, [("f", "result", (("b", result),), ())])
        if k in ("test", "remove") and result:
            self.emit(HOST, [ref.resolve(ref.term(["v", v], fid), s) for v in free_vars(op[1])])

    def literal(self, t):
        if ref.walk(t, {})[0] != "f":
            raise ref.RefError("literal expected")

    def ground(self, t):
        r = ref.resolve(t, {})
        if r[0] != "f" or any(x[0] in ("v", "_") for x in ref.subterms(r)):
            raise ref.RefError("not ground")
        return r


def check_between(case):
    prog, ops = case["prog"], case["ops"] + [["run"]]

    def drive(m):
        m.start()
        for op in ops:
            m.host_op(op)
    drive.machine = Reference

    def sut_drive(out):
        o = Outside(out, out.agents[0])
        for op in ops:
            o.op(op)
    pre = interp.screen([prog], ["ag0"], drive, paths=1)
    if pre is None:
        return Info(False, ["out of domain"])
    ds = sorted(d for _, d in pre.machine.wait_log)
    if any(y - x < 1e-3 for x, y in zip(ds, ds[1:])):
        return Info(False, ["equal deadlines"])
    res = interp.judge([prog], ["ag0"], drive, sut_drive)
    if res is None:
        return Info(False, ["inconclusive"])
    out, r = res
    host = sorted({t[0][1] for n, t in out.trace if n == "host" and t and t[0][0] == "f"} & {"error", "failed"})
    return Info(len(out.trace) >= 2 and len(ops) > 2, sorted({o[0] for o in ops}) + host)


# -- objects -------------------------------------------------------------------------

@functools.total_ordering
class Opaque:
    """Equal only to itself; ordered like the atom it stands for."""
    def __init__(self, name):
        self.name = name

    def __lt__(self, other):
        return self.name < other.name if isinstance(other, Opaque) else NotImplemented


class Value:
    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Value) and self.name == other.name

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.name)


class Another(Value):
    """Equal to the Value of that name, though of another class."""


def turns(*classes):
    n = [0]

    def make(i):
        n[0] += 1
        return classes[n[0] * 7 // 4 % len(classes)](CONSTS[i])
    return make


class Color(enum.Enum):
    red = 1
    green = 2
    blue = 3


CONSTS = ["a", "b", "c"]
KINDS = {
    "identity": lambda: (lambda os: lambda i: os[i])([Opaque(c) for c in CONSTS]),
    "value": lambda: lambda i: Value(CONSTS[i]),
    "classes": lambda: turns(Value, Another),
    "none": lambda: (lambda o, p: lambda i: [None, o, p][i])(Opaque("b"), Opaque("c")),
    "bytes": lambda: lambda i: bytes([97 + i]),
    "enum": lambda: lambda i: list(Color)[i],
    "frozenset": lambda: lambda i: frozenset(range(i)),
}


def with_objects(t, used):
    """Term with the constants replaced by variables."""
    k = t[0]
    if k == "f":
        if not t[2] and not t[3] and t[1] in CONSTS:
            used.add(t[1])
            return ["v", "O" + t[1].upper()]
        return inside(t, used)
    if k == "l":
        return ["l", [with_objects(x, used) for x in t[1]]]
    if k in ("c",):
        return [k, with_objects(t[1], used), with_objects(t[2], used)]
    if k == "u":
        return [k, t[1], with_objects(t[2], used)]
    if k == "o":
        return [k, t[1], with_objects(t[2], used), with_objects(t[3], used)]
    return t


def inside(t, used):
    """Same, but the term itself stays (literals in predicate position)."""
    if t[0] != "f":
        return with_objects(t, used)
    return ["f", t[1], [with_objects(x, used) for x in t[2]],
            [["f", a[1], [with_objects(x, used) for x in a[2]], a[3]] if a[0] == "f" else a for a in t[3]]]


def query_objects(q, used):
    k = q[0]
    if k == "lit":
        return [k, inside(q[1], used)]
    if k in ("and", "or"):
        return [k, query_objects(q[1], used), query_objects(q[2], used)]
    if k == "not":
        return [k, query_objects(q[1], used)]
    if k == "unify":
        return [k, with_objects(q[1], used), with_objects(q[2], used)]
    if k == "cmp":
        return [k, q[1], with_objects(q[2], used), with_objects(q[3], used)]
    if k == "act":
        at = {".findall": 1, ".count": 0, ".sum": 1, ".abolish": 0}.get(q[1])
        return [k, q[1], [(inside if i == at else with_objects)(t, used) for i, t in enumerate(q[2])]]
    return q


def body_objects(body, used):
    res = []
    for f in body:
        k = f[0]
        f = list(f)
        if k == "q":
            f[1] = query_objects(f[1], used)
        elif k in ("+", "-", "!", "!!", "?"):
            f[1] = inside(f[1], used)
        elif k == "rec":
            f[1] = [with_objects(t, used) for t in f[1]]
        elif k in ("if", "while", "for"):
            f[1] = query_objects(f[1], used)
            f[2] = body_objects(f[2], used)
            if k == "if" and f[3] is not None:
                f[3] = body_objects(f[3], used)
        elif k == "send":
            f[3] = inside(f[3], used)
        res.append(f)
    return res


def introduce(used, q, how=lambda c, v: ["act", ".obj", [["n", CONSTS.index(c)], v]]):
    for c in sorted(used, reverse=True):
        first = how(c, ["v", "O" + c.upper()])
        q = first if q is None else ["and", first, q]
    return q


def without_replacements(body):
    for f in body:
        if f[0] == "-+":
            yield ["-", ["f", f[1][1], [x if x[0] != "o" and x[0] != "u" else ["_"] for x in f[1][2]], []]]
            yield ["+", f[1]]
        elif f[0] in ("if", "while", "for"):
            f = list(f)
            f[2] = list(without_replacements(f[2]))
            if f[0] == "if" and f[3] is not None:
                f[3] = list(without_replacements(f[3]))
            yield f
        else:
            yield f


def gen_objects(g, tier):
    kind = g.choice(sorted(KINDS))
    if g.prob(0.25):
        prog = atoms_only(g)
    else:
        prog = any_program(g, tier)
    prog = dict(prog, plans=[dict(p, body=list(without_replacements(p["body"]))) for p in prog["plans"]])
    return {"prog": prog, "kind": kind}


def atoms_only(g):
    """Programs in which nearly all values are constants, in many structures."""
    pg = PG(g, rich=0.15, preds={"p": "a", "q": "aa"}, vars=["X", "Y", "Z"])
    plans = [{"t": "+", "g": "!", "head": lit("g", ["v", "X"], ["v", "Y"]), "ctx": None, "body": pg.body(Scope(), 1, 4, 1)}]
    if g.prob(0.5):
        plans.insert(0, {"t": "+", "g": "!", "head": lit("g", A(g.choice(CONSTS)), ["v", "Y"]), "ctx": None, "body": pg.body(Scope(), 1, 3, 1)})
    pg.goals.append(("g", 2))
    for n, a in (("p", 1), ("q", 2)):
        if g.prob(0.4):
            plans.append({"t": "+", "g": "", "head": lit(n, *[g.choice([["v", "X"], ["v", "Y"], A("a")]) for _ in range(a)]), "ctx": None,
                          "body": [["rec", [A("on"), A(n), ["v", "X"], ["v", "Y"]]]]})
    sc = Scope()
    plans.append({"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": pg.body(sc, 2, 6, 2) + [["rec", [["v", v] for v in "XYZ"]]]})
    return {"beliefs": pg.beliefs(g.int(1, 6)) + getattr(pg, "extra_beliefs", []), "rules": pg.rules(g.int(0, 2)), "goals": [A("go")], "plans": plans}


def orders(prog):
    return any('["cmp", "%s"' % o in ref_json(prog) for o in ("<", "<=", ">", ">="))


def ref_json(x):
    import json
    return json.dumps(x)


def check_objects(case):
    prog = case["prog"]
    kind = case["kind"]
    if orders(prog) or kind == "none" and "==" in ref_json(prog):
        kind = "identity"
    make = KINDS[kind]()
    introduced = [0]
    acts = ast.Actions(sut.agentspeak.ext_stdlib.actions)

    @acts.add(".obj", 2)
    def obj(agent, term, intention):
        introduced[0] += 1
        if ast.unify(term.args[1], make(int(ast.grounded(term.args[0], intention.scope))), intention.scope, intention.stack):
            yield

    def moved(*how):
        plans, rules = [], []
        for p in prog["plans"]:
            used = set()
            p = dict(p, head=inside(p["head"], used), ctx=p.get("ctx") and query_objects(p["ctx"], used), body=body_objects(p["body"], used))
            p["ctx"] = introduce(used, p["ctx"], *how)
            plans.append(p)
        for h, q in prog.get("rules", ()):
            used = set()
            h, q = inside(h, used), query_objects(q, used)
            rules.append([h, introduce(used, None if q[0] == "implicit" else q, *how) or q])
        return {"plans": plans, "rules": rules}
    text = interp.prog_src(moved())
    # the unifications happen in another order: g(Y, Y, [Y]) fails against g(a, X, X), but is
    # cyclic against g(OA, X, X)
    reordered = [dict(prog, **moved(lambda c, v: ["unify", v, A(c)]))]
    if interp.screen(reordered) is None:
        return Info(False, ["out of domain"])
    table = [(make(i), ("f", c, (), ())) for i, c in enumerate(CONSTS)]

    def value(x, env):
        """Term object with the constants as objects."""
        if x[0] == "f" and not x[2] and not x[3] and x[1] in CONSTS:
            introduced[0] += 1
            return make(CONSTS.index(x[1]))
        if x[0] == "f":
            return ast.Literal(x[1], [value(y, env) for y in x[2]], [value(y, env) if y[0] == "f" and y[2] else sut.to_sut(y, env) for y in x[3]])
        if x[0] == "l":
            return tuple(value(y, env) for y in x[1])
        if x[0] == "c":
            return ast.LinkedList(value(x[1], env), value(x[2], env))
        return sut.to_sut(x, env)

    def top(x):
        env = {}
        return sut.to_sut(x, env) if x[0] != "f" else ast.Literal(
            x[1], [value(y, env) for y in x[2]], [value(y, env) if y[0] == "f" and y[2] else sut.to_sut(y, env) for y in x[3]])

    def sut_drive(out):
        agent = out.agents[0]
        for b in prog.get("beliefs", ()):
            agent.call(T.addition, G.belief, top(b), ast.runtime.Intention(), delayed=True)
        for t in prog.get("goals", ()):
            agent.call(T.addition, G.achievement, top(t), ast.runtime.Intention())
        out.env.run()
    sut.OBJECTS[:] = table
    try:
        res = interp.judge([prog], ["ag0"], sut_drive=sut_drive, texts=[text], parent=acts)
    except Violation:
        if interp.screen(reordered, paths=200) is not None:
            raise
        res = None
    finally:
        del sut.OBJECTS[:]
    if res is None:
        return Info(False, ["inconclusive"])
    out, r = res
    return Info(introduced[0] > 0 and len(out.trace) >= 2, [kind, "error" if out.error is not None else "completed"])


# -- clock ---------------------------------------------------------------------------

def gen_clock(g, tier):
    n = g.int(1, 2)
    names = ["ag%d" % i for i in range(n)]
    progs = [CG(g, name, goals=3, others=[x for x in names if x != name],
                weights=dict(wait=6, waitev=2, waitboth=2, send=2)).program(2, 4) for name in names]
    return {"progs": progs, "zero": g.choice([0.0, -1.0, -0.05, 5000.0, 123.25])}


def check_clock(case):
    progs = case["progs"]
    names = ["ag%d" % i for i in range(len(progs))]
    exp = sched.expected(progs, names)
    if exp is None:
        return Info(False, ["races or out of domain"])

    class Env(ast.runtime.Environment):
        def time(self):
            return sut.time.time() - 1000 + case["zero"]
    out, traces = sched.observe(progs, names, env_cls=Env)
    sched.compare(exp, out, traces, names, progs)
    return Info(bool(exp.deadlines) and len(out.trace) >= 2, ["waits %d" % min(5, len(exp.deadlines)), "zero %g" % case["zero"]])


def gen_epoch(g, tier):
    """Waits on a clock that counts in powers of two from any origin, so that deadlines fall on exact values such as zero."""
    lines = [[g.choice([125, 250, 500, 1000, 2000, 0]) for _ in range(g.int(1, 3))] for _ in range(g.int(1, 3))]
    total = sum(g.choice(lines)[:g.int(1, 3)]) / 1000.0
    return {"lines": lines, "origin": g.choice([0.0, -total, -total, -0.125, -8.0, 1024.0]), "how": g.choice(["run", "run_agent", "run_agent"]),
           }


def check_epoch(case):
    origin = case["origin"]
    now = [origin]
    steps = [0]
    tick = 2.0 ** -20

    class Env(ast.runtime.Environment):
        def time(self):
            return now[0]
    seen = []
    actions = ast.Actions(ast.stdlib.actions)
    actions.add_procedure(".rec", (int, int), lambda line, i: seen.append((line, i, now[0])))

    def sleep(seconds):
        steps[0] += 1
        if seconds < 0 or steps[0] > 1000:
            raise Violation("sleep %r requested: %r" % (seconds, case))
        now[0] += seconds + tick
    text = "".join("!g(%d).\n" % k for k in range(len(case["lines"])))
    for k, waits in enumerate(case["lines"]):
        text += "+!g(%d) <- %s.\n" % (k, "; ".join(".wait(%d); .rec(%d, %d)" % (w, k, i) for i, w in enumerate(waits)))
    with sut.capture(), sut.clock() as c:
        c.sleep = sleep
        sut.time.sleep = sleep
        env = Env()
        agent = env.build_agent(sut.StringSource("epoch.asl", text), actions)
        if case["how"] == "run":
            env.run()
        else:
            env.run_agent(agent)
    for k, waits in enumerate(case["lines"]):
        mine = [(i, t) for line, i, t in seen if line == k]
        if [i for i, _ in mine] != list(range(len(waits))):
            raise Violation("goal %d passed its waits %s, expected all of %s, from clock %r on:\n%s" % (
                k, [i for i, _ in mine], list(range(len(waits))), origin, text))
        due = origin
        for (i, t), w in zip(mine, waits):
            due += w / 1000.0
            if not due <= t <= due + 100 * tick:
                raise Violation("wait %d of goal %d ended at %r, due at %r (clock from %r on):\n%s" % (i, k, t, due, origin, text))
    return Info(any(w for ws in case["lines"] for w in ws), [case["how"], "origin negative" if origin < 0 else "origin other"])


FACETS = [
    Facet("epoch", strategy(gen_epoch), check_epoch, quick=400, thorough=20000),
    Facet("posted", strategy(gen_posted), check_posted, quick=900, thorough=40000),
    Facet("between", strategy(gen_between), check_between, quick=900, thorough=40000),
    Facet("objects", strategy(gen_objects), check_objects, quick=900, thorough=40000),
    Facet("clock", strategy(gen_clock), check_clock, quick=200, thorough=8000),
]
