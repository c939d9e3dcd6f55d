"""C24: Python functions embedded as actions are called and answer faithfully."""
from .. import interp, ref, sut
from ..core import Facet, Info, Violation
from ..gen import strategy
from ..proggen import A, PG, Scope, lit
from ..sut import agentspeak

RULE = ("Random hierarchies of one to three action registries over none, the standard or the extended library, with random "
        "registrations (functions, predicates, procedures, plain and variadic generators; direct and as decorator; duplicates; "
        "names of library actions; injected agent and environment anywhere; all argument conversions), called from bodies, "
        "conditions, loops, contexts and rules of a random program run by one to three agents. Oracle: a model registry and the "
        "reference interpreter, whose event log holds every call with its arguments. Non-trivial: at least three calls.")
ASSUMPTIONS = ["int(), float() and tuple() conversions are explored for numbers, numeric text and lists only",
               "results of Python functions are terms (numbers, strings, booleans, tuples, literals, variables)",
               "a function never returns the same unbound variable twice"]

SPECS = ["any", "int", "float", "text", "tuple", "literal", "str", "bool", "num", "strlit", "agent", "env"]
PY = {"any": None, "int": int, "float": float, "text": agentspeak.asl_str, "tuple": tuple, "literal": agentspeak.Literal,
      "str": str, "bool": bool, "num": (int, float), "strlit": (str, agentspeak.Literal),
      "agent": agentspeak.runtime.Agent, "env": agentspeak.runtime.Environment}
NAMES = [".f", ".g", ".ns.h", ".k2", ".length", ".member", ".concat", ".range"]
LIB = {"std": {(".length", 2), (".member", 2), (".range", 2)}, "none": set()}
LIB["ext"] = LIB["std"]


# -- generation ----------------------------------------------------------------

def gen_reg(g, i):
    kind = g.weighted([(5, "function"), (4, "predicate"), (4, "procedure"), (3, "plain"), (2, "variadic")])
    name = g.choice(NAMES)
    r = {"id": "i%d" % i, "kind": kind, "name": name, "deco": g.prob(0.4)}
    if kind in ("function", "predicate", "procedure"):
        n = g.weighted([(3, 1), (3, 2), (2, 3), (1, 0)])
        r["specs"] = [g.weighted([(6, "any"), (2, "int"), (1, "float"), (2, "text"), (2, "tuple"), (2, "literal"), (1, "str"),
                                  (1, "bool"), (1, "num"), (1, "strlit"), (2, "agent"), (2, "env")]) for _ in range(n)]
        m = sum(s not in ("agent", "env") for s in r["specs"])
        r["single"] = g.prob(0.5)          # a single argument specification need not be a tuple
        if kind == "function":
            r["arity"] = m + 1
            opts = [["const", value(g)], ["len"], ["all"], ["fresh"], ["recall"]]
            if m:
                opts += [["arg", g.int(0, m - 1)]] * 3 + [["pair", g.int(0, m - 1), g.int(0, m - 1)]] * 2
            r["do"] = g.choice(opts)
        elif kind == "predicate":
            r["arity"] = m
            opts = [["truth", g.choice(["True", "True", "False", "0", "1", "''", "'x'", "None", "()"])], ["odd"]]
            if m:
                opts += [["is", g.int(0, m - 1), value(g)]] * 3
            r["do"] = g.choice(opts)
        else:
            r["arity"] = m
            r["do"] = ["keep", g.int(0, m - 1)] if m and g.prob(0.6) else ["none"]
    else:
        r["arity"] = None if kind == "variadic" else g.int(0, 3)
        r["do"] = ["answers", [value(g) for _ in range(g.size(0, 3))]]
    return r


def value(g):
    k = g.int(0, 9)
    if k < 3:
        return A(g.choice(["a", "b", "c"]))
    if k < 6:
        return ["n", g.choice([0, 1, 2, 3, 2.5])]
    if k == 6:
        return ["s", g.choice(["", "a", "12", "x y"])]
    if k == 7:
        return ["l", [g.choice([A("a"), ["n", 1]]) for _ in range(g.size(0, 2))]]
    if k == 8:
        return lit("f", g.choice([A("a"), ["n", 2]]))
    return ["b", bool(g.int(0, 1))]


def lookup(case, name, arity):
    """The model of the registry chain: a registration, "lib" or None."""
    for level in reversed(case["levels"]):
        seen = {}
        for r in level:
            seen.setdefault((r["name"], r["arity"]), r)
        for key in ((name, arity), (name, None)):
            if key in seen:
                return seen[key]
    if (name, arity) in LIB[case["root"]] or (name == ".concat" and case["root"] != "none"):
        return "lib"
    return None


class Calls(PG):
    """Programs that call the registered actions."""
    def query(self, scope, depth=None):
        g = self.g
        if self.calls and (depth is None or depth <= self.k["depth"]) and g.prob(0.55):
            return self.call(scope)
        return super().query(scope, depth)

    def formula(self, scope, depth):
        g = self.g
        if self.keeps and g.prob(0.2):
            # hand a value to Python, bind its variables, get it back
            v = [["v", x] for x in g.shuffle(self.k["vars"])]
            return ["if", ["true"], [["q", ["act", ".keep", [g.choice([v[0], lit("f", v[0], v[1]), ["l", [v[0], v[0]]],
                                                                       ["c", v[0], v[1]]])]]],
                                     ["q", ["or", ["unify", v[0], value(g)], ["true"]]],
                                     ["q", ["or", ["act", ".recall", [v[2]]], ["true"]]],
                                     ["rec", [A("got"), v[2], v[0], v[1]]]], None]
        f = super().formula(scope, depth)
        if f[0] == "q" and f[1][0] == "act" and g.prob(0.75):
            return ["q", ["or", f[1], ["true"]]]
        return f

    def call(self, scope):
        g = self.g
        name, arity = g.choice(self.calls)
        r = lookup(self.case, name, arity)
        args = []
        if isinstance(r, dict) and "specs" in r:
            for s in r["specs"]:
                if s not in ("agent", "env"):
                    args.append(self.fitting(s, scope))
            while len(args) < arity:
                args.append(self.any(scope))
        elif r == "lib":
            if name == ".range":
                args = [["n", g.int(0, 2)], ["v", g.choice(self.k["vars"])]]
            elif name == ".member":
                args = [["v", g.choice(self.k["vars"])], ["l", [value(g) for _ in range(g.size(0, 2))]]]
            elif name == ".length":
                args = [["l", [value(g) for _ in range(g.size(0, 2))]], self.any(scope)]
            else:
                args = [["l", [value(g) for _ in range(g.size(0, 2))]] for _ in range(max(1, arity - 1))] + [self.any(scope)]
        else:
            args = [self.any(scope) for _ in range(arity)]
        if r is None:
            return ["lit", lit(name, *args)]
        return ["act", name, args]

    def any(self, scope):
        g = self.g
        k = g.int(0, 9)
        if k < 5:
            return ["v", g.choice(self.k["vars"])]
        if k == 5:
            return ["_"]
        if k == 6:
            return g.choice([lit("f", ["v", g.choice(self.k["vars"])], ["v", g.choice(self.k["vars"])]),
                             ["l", [["v", g.choice(self.k["vars"])], A("a")]],
                             ["c", ["v", g.choice(self.k["vars"])], ["v", g.choice(self.k["vars"])]]])
        if k == 7:
            nums = sorted(scope.num)
            return ["o", g.choice(["+", "*"]), ["v", g.choice(nums)] if nums else ["n", 2], ["n", 1]]
        return value(g)

    def fitting(self, s, scope):
        g = self.g
        if g.prob(0.05) or s == "any":
            return self.any(scope)
        b = sorted(scope.num if s in ("int", "float", "num") else scope.bound)
        if b and g.prob(0.3):
            return ["v", g.choice(b)]
        num = ["n", g.choice([0, 1, 2, 2.5, 7.75])]
        if s in ("int", "float", "num"):
            return g.choice([num, ["o", "+", num, ["n", 1]], ["u", "-", num], num, ["s", "12"]] if s != "num" else [num])
        if s == "tuple":
            return ["l", [self.any(scope) if g.prob(0.3) else value(g) for _ in range(g.size(0, 3))]]
        if s == "literal":
            return g.choice([A("a"), lit("f", value(g), ["v", g.choice(self.k["vars"])])])
        if s == "str":
            return ["s", g.choice(["", "a", "12"])]
        if s == "bool":
            return ["b", bool(g.int(0, 1))]
        if s == "strlit":
            return g.choice([["s", "q"], A("b")])
        return g.choice([["s", "x y"], A("ab"), num, ["b", True], lit("f", A("a"), ["n", 1])])


def gen(g, tier):
    case = {"root": g.choice(["std", "none", "ext"])}
    n = 0
    case["levels"] = []
    for _ in range(g.weighted([(4, 1), (4, 2), (2, 3)])):
        level = []
        for _ in range(g.size(1, 5)):
            level.append(gen_reg(g, n))
            if g.prob(0.2) and len(level) > 1:
                o = g.choice(level[:-1])
                if o["kind"] == level[-1]["kind"]:
                    level[-1]["name"] = o["name"]      # likely a duplicate
            n += 1
        case["levels"].append(level)
    pg = Calls(g, rich=0.2, preds={"p": "a", "n": "n"}, depth=1, acts=case["root"] != "none",
               weights={"q": 30, "rec": 10, "?": 4, "+": 3, "-": 2, "-+": 2, "!": 8, "!!": 0})
    pg.case = case
    pg.keeps = g.prob(0.4)
    if pg.keeps:
        case["levels"][0] += [{"id": "keep", "kind": "procedure", "name": ".keep", "deco": False, "specs": ["any"], "single": True,
                               "arity": 1, "do": ["keep", 0]},
                              {"id": "recall", "kind": "function", "name": ".recall", "deco": False, "specs": [], "single": False,
                               "arity": 1, "do": ["recall"]}]
    pg.calls = [(r["name"], g.int(0, 3) if r["arity"] is None else r["arity"]) for l in case["levels"] for r in l]
    pg.calls += [(g.choice(NAMES), g.int(1, 2))]
    rules = pg.rules(g.int(0, 2))
    plans = []
    for i in reversed(range(g.size(1, 3))):
        head = lit("g%d" % i, *[["v", v] for v in ("X", "Y")[:g.int(0, 2)]])
        ctx = pg.query(Scope()) if g.prob(0.3) else None
        plans.insert(0, {"t": "+", "g": "!", "head": head, "ctx": ctx, "body": pg.body(Scope(), g.int(0, 2), 5, 1) + [["rec", [A("fin")] + [["v", v] for v in ("X", "Y", "Z")]]]})
        if ctx is not None:
            plans.insert(1, {"t": "+", "g": "!", "head": lit(head[1], *[["_"] for _ in head[2]]), "ctx": None, "body": [["rec", [A("other")]]]})
        pg.goals.append((head[1], len(head[2])))
    first = plans[0]["head"]
    beliefs = pg.beliefs(g.int(0, 4)) + getattr(pg, "extra_beliefs", [])
    case["prog"] = {"beliefs": beliefs, "rules": rules, "goals": [lit("g0", *[g.choice([["v", "Q"], value(g)]) for _ in first[2]])],
                    "plans": plans}
    case["agents"] = g.choice([1, 1, 2, 3])
    return case


# -- model ----------------------------------------------------------------------

def text_value(t):
    k = t[0]
    if k == "n":
        return sut.num_src(t[1]) if t[1] >= 0 else "-" + sut.num_src(-t[1])
    if k == "s":
        return t[1]
    if k == "b":
        return "true" if t[1] else "false"
    if k == "f" and not t[3] and all(a[0] in "nbf" for a in t[2]):
        return t[1] + ("(%s)" % ", ".join(map(text_value, t[2])) if t[2] else "")
    raise ref.Skip("text")


def convert(s, t):
    k = t[0]
    if s == "any":
        return t
    if s in ("int", "float"):
        if k == "n":
            return ("n", float(int(t[1])) if s == "int" else t[1])
        if k == "s":
            try:
                return ("n", float(int(t[1]) if s == "int" else float(t[1])))
            except ValueError:
                raise ref.RefError("conversion")
        if k == "b":
            raise ref.Skip("number from boolean")
        raise ref.RefError("conversion")
    if s == "text":
        return ("s", text_value(t))
    if s == "tuple":
        if k in "nb":
            raise ref.RefError("conversion")
        if ref.unlist(t) is None:
            raise ref.Skip("tuple from other values")
        return t
    ok = {"literal": k == "f", "str": k == "s", "bool": k == "b", "num": k == "n", "strlit": k in "sf"}[s]
    if s == "num" and k == "b":
        raise ref.Skip("boolean as number")
    if not ok:
        raise ref.RefError("spec")
    return t


def kind_tag(s, t):
    return {"int": "int", "float": "float", "text": "str", "tuple": "tuple"}.get(s, "any")


class M(interp.Machine):
    case = None

    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.kept = {}
        self.ncalls = 0

    def custom(self, A, name, args):
        r = lookup(self.case, name, len(args))
        if r == "lib":
            return None
        return lambda m, A, args, s: self.call(r, A, args, s)

    def solve_literal(self, A, t, s, depth):
        w = ref.walk(t, s)
        if w[0] == "f" and w[1].startswith(".") and lookup(self.case, w[1], len(w[2])):
            raise AssertionError(w)
        return super().solve_literal(A, t, s, depth)

    def call(self, r, A, args, s):
        self.burn()
        given = args[:-1] if r["kind"] == "function" else args     # the result is looked at after the call
        tup = self.rename(("f", "args", tuple(ref.resolve(a, s) for a in given), ()))[2]
        if "specs" in r:
            vals = []
            shown = []
            rest = list(tup)
            for sp in r["specs"]:
                if sp == "agent":
                    shown.append(("f", "agent_" + A.name, (), ()))
                elif sp == "env":
                    shown.append(("f", "env", (), ()))
                else:
                    v = convert(sp, rest.pop(0))
                    vals.append(v)
                    shown.append(("f", kind_tag(sp, v), (v,), ()))
            self.emit(A, [("f", "call_" + r["id"], (), ())] + shown)
            self.ncalls += 1
            do = r["do"]
            if r["kind"] == "procedure":
                if do[0] == "keep":
                    self.kept[A.name] = vals[do[1]]
                    if sum(1 for _ in ref.subterms(vals[do[1]])) > 300:
                        raise ref.Skip("large term")
                yield s
            elif r["kind"] == "predicate":
                if do[0] == "truth":
                    ok = do[1] in ("True", "1", "'x'")
                elif do[0] == "odd":
                    ok = self.ncalls % 2 == 1
                else:
                    ok = ref.alpha_equal([vals[do[1]]], [ref.term(do[2])])
                if ok:
                    yield s
            else:
                k = do[0]
                if k == "const":
                    res = ref.term(do[1])
                elif k == "len":
                    res = ("n", float(len(vals)))
                elif k == "all":
                    res = ref.lst(vals)
                elif k == "fresh":
                    res = ("v", (next(self.fresh), "new"))
                elif k == "recall":
                    res = self.rename(self.kept.get(A.name, ("f", "nothing", (), ())))
                elif k == "arg":
                    res = vals[do[1]]
                else:
                    res = ("f", "pair", (vals[do[1]], vals[do[2]]), ())
                s1 = ref.unify(args[-1], res, s)
                if s1 is not None:
                    yield s1
        else:
            self.emit(A, [("f", "call_" + r["id"], (), ())] + list(tup))
            self.ncalls += 1
            for t in r["do"][1]:
                s1 = ref.unify(args[-1], ref.term(t), s) if args else s
                if s1 is not None:
                    yield s1


# -- code under test ----------------------------------------------------------------

class Host:
    """The Python side: registries with functions that log their calls."""
    def __init__(self, case, record):
        self.case, self.record = case, record
        self.kept = {}
        self.ncalls = 0
        self.agent = None            # the running agent
        self.env = None
        self.registered = {}

    def shown(self, specs, args):
        res, vals, names = [], [], {}
        if len(args) != len(specs):
            raise Violation("function called with %d arguments for %s" % (len(args), specs))
        for s, a in zip(specs, args):
            if s == "agent":
                if not isinstance(a, agentspeak.runtime.Agent) or a is not self.agent:
                    raise Violation("injected agent is %r, running is %r" % (getattr(a, "name", a), self.agent.name))
                res.append(("f", "agent_" + a.name, (), ()))
            elif s == "env":
                if a is not self.env:
                    raise Violation("injected environment is %r" % (a,))
                res.append(("f", "env", (), ()))
            else:
                tag = "any"
                if s in ("int", "float", "text", "tuple"):
                    tag = type(a).__name__
                vals.append(a)
                res.append(("f", tag, (sut.from_sut(a, names),), ()))
        return res, vals

    def make(self, r):
        def enter(args):
            shown, vals = self.shown(r["specs"], args)
            self.record(self.agent.name, (("f", "call_" + r["id"], (), ()),) + tuple(shown))
            self.ncalls += 1
            return vals
        do = r["do"]
        if r["kind"] == "procedure":
            def f(*args):
                vals = enter(args)
                if do[0] == "keep":
                    self.kept[self.agent.name] = vals[do[1]]
                return False            # the result of a procedure does not matter
        elif r["kind"] == "predicate":
            def f(*args):
                vals = enter(args)
                if do[0] == "truth":
                    return {"True": True, "False": False, "0": 0, "1": 1, "''": "", "'x'": "x", "None": None, "()": ()}[do[1]]
                if do[0] == "odd":
                    return self.ncalls % 2 == 1
                return ref.alpha_equal([sut.from_sut(vals[do[1]])], [ref.term(do[2])])
        elif r["kind"] == "function":
            def f(*args):
                vals = enter(args)
                k = do[0]
                if k == "const":
                    return sut.to_sut(do[1], {})
                if k == "len":
                    return len(vals)
                if k == "all":
                    return tuple(vals)
                if k == "fresh":
                    return agentspeak.Var()
                if k == "recall":
                    return agentspeak.freeze(self.kept.get(self.agent.name, agentspeak.Literal("nothing")), {}, {})
                if k == "arg":
                    return vals[do[1]]
                return agentspeak.Literal("pair", (vals[do[1]], vals[do[2]]))
        else:
            def f(agent, term, intention):
                if agent is not self.agent:
                    raise Violation("action runs for agent %r, running is %r" % (agent.name, self.agent.name))
                memo, names = {}, {}
                self.record(agent.name, (("f", "call_" + r["id"], (), ()),) + tuple(
                    sut.from_sut(agentspeak.freeze(a, intention.scope, memo), names) for a in term.args))
                self.ncalls += 1
                choicepoint = object()
                if not term.args or len(do[1]) == 1 and r["deco"]:
                    # nothing to be undone between the answers
                    for t in do[1]:
                        if not term.args or agentspeak.unify(term.args[-1], sut.to_sut(t, {}), intention.scope, intention.stack):
                            yield
                    return
                for t in do[1]:
                    intention.stack.append(choicepoint)
                    if not term.args or agentspeak.unify(term.args[-1], sut.to_sut(t, {}), intention.scope, intention.stack):
                        yield
                    agentspeak.reroll(intention.scope, intention.stack, choicepoint)
        return f

    def register(self, reg, r):
        f = self.make(r)
        if "specs" in r:
            specs = tuple(PY[s] for s in r["specs"])
            if len(specs) == 1 and r["single"] and not isinstance(specs[0], tuple):
                specs = specs[0]
            elif r["single"]:
                specs = list(specs)
            add = getattr(reg, "add_" + r["kind"])
            if r["deco"]:
                add(r["name"], specs)(f)
            else:
                add(r["name"], specs, f)
        else:
            args = (r["name"],) if r["arity"] is None else (r["name"], r["arity"])
            if r["deco"]:
                if reg.add(*args)(f) is not f:
                    raise Violation("registering as a decorator replaces the function")
            else:
                reg.add(*args, f=f)
            self.registered[r["id"]] = f

    def registry(self):
        root = {"none": None, "std": agentspeak.stdlib.actions, "ext": agentspeak.ext_stdlib.actions}[self.case["root"]]
        reg = root
        for level in self.case["levels"]:
            reg = agentspeak.Actions(reg) if reg is not None else agentspeak.Actions()
            seen = set()
            for r in level:
                key = (r["name"], r["arity"])
                try:
                    self.register(reg, r)
                except AssertionError:
                    if key not in seen:
                        raise Violation("registration of %s refused, registered so far: %s" % (key, sorted(map(str, seen))))
                else:
                    if key in seen:
                        raise Violation("duplicate registration of %s accepted" % (key,))
                seen.add(key)
        return reg


def check(case):
    out = sut.Outcome()

    def record(agent, args):
        out.trace.append((agent, args))
        if len(out.trace) > 3000:
            raise sut.TooManyEvents()

    n = case["agents"]
    progs = [case["prog"]] * n
    names = ["ag", "ag1", "ag2"][:n]

    def drive(m):
        m.start()
        for a in m.agents:
            m.run_agent(a)
    drive.machine = type("Mx", (M,), {"case": case})

    host = Host(case, record)
    reg = host.registry()
    lookups(case, host, reg)
    pre = interp.screen(progs, names, drive, fuel=2500)
    if pre is None:
        return Info(False, ["out of domain"])
    final = None
    with sut.capture() as log, sut.clock():
        actions = sut.with_recorder(record, reg)
        try:
            env = host.env = agentspeak.runtime.Environment()
            agents = []
            text = interp.prog_src(case["prog"])

            class Tracked(agentspeak.runtime.Agent):
                def __init__(self, *args, **kw):
                    super().__init__(*args, **kw)
                    host.agent = self        # agents are prepared one after the other
            for _ in range(n):
                agents.append(env.build_agent(sut.StringSource("ag.asl", text), actions, agent_cls=Tracked))
            for a in agents:
                host.agent = a
                env.run_agent(a)
        except sut.TooManyEvents:
            return Info(False, ["runaway"]) if interp.may_run_away(progs, names, drive, 2500) else _fail(case, out, pre, "endless")
        except (sut.AslError, sut.AggregatedError, TypeError, ValueError) as err:
            out.error = err
            out.log = log.records
        except RecursionError:
            return Info(False, ["out of domain"])
    sets = None
    if len(agents) == n:
        sets = [frozenset(ref.canon(b) for b in sut.beliefs_of(a)) for a in agents]
    kind, r = interp.explore(progs, names, drive, out.trace, "error" if out.error is not None else "done",
                             (lambda m: m.belief_sets() == sets) if sets is not None else None, 300, 2500)
    if kind == "open":
        return Info(False, ["inconclusive"])
    if kind == "none":
        _fail(case, out, pre, "error: %r %s" % (out.error, [(r.getMessage(), r.exc_info) for r in out.log]) if out.error is not None else "done")
    calls = [t[0][1] for _, t in out.trace if t[0][1].startswith("call_")]
    ids = {r["id"]: r for l in case["levels"] for r in l}
    return Info(len(calls) >= 3, ["error" if out.error is not None else "done", "levels %d" % len(case["levels"])] +
                sorted({"call " + ids[c[5:]]["kind"] for c in calls}) +
                sorted({"spec " + s for c in calls for s in ids[c[5:]].get("specs", ())}))


def lookups(case, host, reg):
    for name in NAMES + [".nowhere"]:
        for arity in range(5):
            want = lookup(case, name, arity)
            try:
                got = reg.lookup(name, arity)
            except KeyError:
                if want is not None:
                    raise Violation("lookup of %s/%d finds nothing, expected %s" % (name, arity, want))
                continue
            if want is None:
                raise Violation("lookup of %s/%d finds an action" % (name, arity))
            if want != "lib" and "specs" not in want and got is not host.registered[want["id"]]:
                raise Violation("lookup of %s/%d does not find registration %s" % (name, arity, want))


def _fail(case, out, pre, how):
    raise Violation("registrations (root %s):\n%s\nprogram:\n%s\nobserved (%s):\n%s\nreference (%s %s):\n%s" % (
        case["root"], "\n".join("  level %d: %s" % (i, r) for i, l in enumerate(case["levels"]) for r in l),
        interp.prog_src(case["prog"]), how,
        "\n".join("  %s: %s" % (a, ", ".join(map(interp.show, t))) for a, t in out.trace[:40]),
        pre.kind, pre.error or "",
        "\n".join("  %s: %s" % (a, ", ".join(map(interp.show, t))) for a, t in pre.machine.trace[:40])))


FACETS = [Facet("registry", strategy(gen), check, quick=1700, thorough=100000)]
