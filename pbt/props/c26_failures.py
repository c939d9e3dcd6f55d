"""C26: run-time failures surface as located errors and leave agents consistent."""
import io, logging, re
from .. import interp, ref, sut
from ..core import Facet, Hang, Info, Runaway, Violation
from ..gen import strategy
from ..proggen import A, PG, Scope, lit
from ..sut import agentspeak

RULE = ("failures: one to three agents with random programs (nested control flow, sub-goals, event handlers, detached goals, "
        "waits) into which failing steps of every kind are injected at random positions (plan failures, missing plans, unbound "
        "variables, Python exceptions of many types in actions, functions, predicates, conditions, contexts and rules, some only "
        "on the n-th iteration); the environment is run again after every failure. Oracle: the reference interpreter per agent "
        "(effects, beliefs and the formula of every failure). Non-trivial: at least one failure followed by further effects. "
        "rendering: random locations, secondary locations, levels and lines, against an own rendering. "
        "log: random histories of log calls. Non-trivial there: a location inside the line / an error limit reached.")
ASSUMPTIONS = ["failures while an agent is being built (initial goals and beliefs) are left out",
               "a location counts if it lies within the text of the failing formula (for if, while and for: their first line)"]

EXC = {"ValueError": ValueError, "KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError, "AttributeError": AttributeError,
       "StopIteration": StopIteration, "RuntimeError": RuntimeError, "AssertionError": AssertionError, "TypeError": TypeError,
       "AslError": sut.AslError, "LookupError": LookupError, "OSError": OSError, "NotImplementedError": NotImplementedError,
       "AggregatedError": lambda m: sut.AggregatedError(1, 0), "UnicodeError": UnicodeError, "Exception": Exception}


def boom(g):
    return ["act", g.choice([".boom", ".boomf", ".boomp", ".boomg"]), [["s", g.choice(sorted(EXC))]]]


class Faulty(PG):
    """Programs with injected failing steps."""
    def fault_query(self, scope):
        g = self.g
        k = g.int(0, 5)
        if k <= 1:
            return boom(g)
        if k == 2:
            return ["cmp", g.choice(["<", ">="]), ["v", "Unbound"], ["n", 1]]
        nums = sorted(scope.num)
        if nums and k <= 4:
            return ["act", ".boomif", [["v", g.choice(nums)], ["n", g.int(0, 2)]]]
        a = boom(g)
        return g.choice([["not", a], ["and", ["true"], a], ["or", ["false"], a], ["and", self.literal_query(scope), a]])

    def fault(self, scope):
        g = self.g
        k = g.int(0, 12)
        if k == 0:
            return ["q", ["act", ".fail", []]]
        if k == 12:
            v = ["v", g.choice(["Unbound"] + sorted(scope.num))]
            return [g.choice(["-", "-+", "+", "!", "?"]), v]
        if k == 1:
            return ["q", g.choice([["false"], ["cmp", ">", ["n", 1], ["n", 2]], ["not", ["true"]], ["unify", A("a"), A("b")],
                                   ["lit", lit("nothing", ["n", 1])]])]
        if k == 2:
            return g.choice([["!", lit("noplan", ["n", 1])], ["!!", A("noplan")], ["?", lit("nothing", ["v", "Unbound"])]])
        if k == 3:
            return ["+", lit("p", ["v", "Unbound"])]
        if k == 4:
            return ["-+", lit("p", lit("f", ["v", "Unbound"]))]
        if k == 5:
            return ["send", A("nobody"), g.choice(["tell", "achieve", "untell"]), A("x")]
        if k == 6:
            return ["wait", None, None, ["v", "Unbound"]]
        if k == 7:
            return [g.choice(["while", "for", "if"]), self.fault_query(scope), self.body(scope.copy(), 0, 2)] + [None]
        return ["q", self.fault_query(scope)]

    def formula(self, scope, depth):
        g = self.g
        if self.waits and g.prob(0.06):
            return ["wait", None, None, ["n", g.choice([5, 20, 100])]]
        if g.prob(self.rate):
            f = self.fault(scope)
            return f[:3] if f[0] in ("while", "for") else f
        if depth > 0 and g.prob(0.08):
            s1 = scope.copy()
            s1.bind("N", True)
            return ["for", ["act", ".range", [["n", 3], ["v", "N"]]], self.body(s1, depth - 1, 3) +
                    [["q", ["act", ".boomif", [["v", "N"], ["n", g.int(0, 3)]]]]]]
        return super().formula(scope, depth)


def gen_prog(g):
    pg = Faulty(g, rich=0.15, preds={"p": "a", "n": "n", "q": "aa"}, depth=1)
    pg.rate = g.choice([0.05, 0.12, 0.12, 0.25])
    pg.waits = waits = g.prob(0.4)           # only with a single intention: no ties between deadlines
    if pg.waits:
        pg.k["weights"] = {"!!": 0}
    rules = pg.rules(g.int(0, 1))
    if g.prob(0.3):
        rules.append([lit("r9", ["v", "X"]), ["and", ["lit", lit("p", ["v", "X"])], pg.fault_query(Scope())]])
        pg.rule_preds["r9"] = "a"
    plans, goals = [], []
    beliefs = pg.beliefs(g.int(0, 4))
    for i in reversed(range(g.size(1, 4))):
        head = lit("g%d" % i, *[["v", v] for v in ("X", "Y")[:g.int(0, 2)]])
        if g.prob(0.2):
            ctx = pg.fault_query(Scope()) if g.prob(0.3) else pg.query(Scope())
            plans.insert(0, {"t": "+", "g": "!", "head": head, "ctx": ctx, "body": pg.body(Scope(), 1, 3)})
        plans.insert(0 if g.prob(0.7) else len(plans), {"t": "+", "g": "!", "head": head, "ctx": None, "body": pg.body(Scope(), g.int(0, 2), 6, 1) +
                                                        [["rec", [A("fin%d" % i)] + [["v", v] for v in ("X", "Y", "Z")]]]})
        pg.goals.append((head[1], len(head[2])))
    # handlers of belief events: of p and q only use n, so that they end
    if g.prob(0.5):
        pg.goals, pg.waits = [], False
        pg.preds = {"n": "n"}
        t = g.choice(["+", "-"])
        plans.append({"t": t, "g": "", "head": lit("p", ["v", "X"]), "ctx": None, "body": pg.body(Scope(["X"]), 1, 3) + [["rec", [A("handled"), ["v", "X"]]]]})
    for _ in range(1 if waits else g.int(1, 3)):
        p = g.choice([p for p in plans if p["g"] == "!"])
        goals.append(lit(p["head"][1], *[g.choice([A("a"), ["n", 1], ["v", "Q"]]) for _ in p["head"][2]]))
    if g.prob(0.15):
        # a failure below many goals
        pg.goals = []
        n = g.int(3, 9)
        for i in range(n):
            last = pg.fault(Scope())
            last = last[:3] if last[0] in ("while", "for") else last
            plans.append({"t": "+", "g": "!", "head": A("c%d" % i), "ctx": None,
                          "body": [["rec", [A("down"), ["n", i]]]] + [["!", A("c%d" % (i + 1))] if i + 1 < n else last] +
                          [["rec", [A("up"), ["n", i]]]]})
        goals[g.int(0, len(goals) - 1)] = A("c0")
    beliefs += getattr(pg, "extra_beliefs", [])
    return {"beliefs": beliefs, "rules": rules, "goals": [A("start")],
            "plans": [{"t": "+", "g": "!", "head": A("start"), "ctx": None, "body": [["rec", [A("start")]]] + [["!!", t] for t in goals]}] + plans}


def gen(g, tier):
    return {"progs": [gen_prog(g) for _ in range(g.weighted([(3, 1), (4, 2), (2, 3)]))],
            "drive": g.choice(["run", "run", "agents", "steps"]), "split": g.int(0, 2)}


# -- source text with the place of every formula -------------------------------------

class Writer:
    def __init__(self, split):
        self.lines = []
        self.places = {}        # id(formula) -> (first line, last line, column, end column)
        self.split = split

    def add(self, text):
        self.lines += text.split("\n")

    def note(self, f, text, first):
        col = len(self.lines[first]) - len(self.lines[first].lstrip())
        last = len(self.lines) - 1
        self.places[id(f)] = (first + 1, last + 1, col, len(self.lines[first]))

    def formula(self, f, ind, end):
        pad = "  " * ind
        first = len(self.lines)
        if f[0] in ("if", "while", "for"):
            self.add(pad + "%s (%s) {" % (f[0], interp.q_src(f[1])))
            self.note(f, None, first)
            for x in f[2]:
                self.formula(x, ind + 1, ";")
            if f[0] == "if" and f[3] is not None:
                self.add(pad + "} else {")
                for x in f[3]:
                    self.formula(x, ind + 1, ";")
            self.add(pad + "}" + end)
            return
        text = interp.f_src(f, ind) + end
        if self.split and (len(text) + self.split) % 3 == 0 and text.count("(") and '"' not in text:
            text = text.replace("(", "(\n   ", 1)
        self.add(text)
        self.note(f, text, first)

    def program(self, prog):
        for b in prog["beliefs"]:
            self.add(sut.src(b) + ".")
        for h, q in prog["rules"]:
            self.add("%s :- %s." % (sut.src(h), interp.q_src(q)))
        for t in prog["goals"]:
            self.add("!%s." % sut.src(t))
        for p in prog["plans"]:
            self.add(p["t"] + p["g"] + sut.src(p["head"]) + (" : " + interp.q_src(p["ctx"]) if p["ctx"] is not None else "") +
                     (" <-" if p["body"] else "."))
            for i, f in enumerate(p["body"]):
                self.formula(f, 1, "." if i == len(p["body"]) - 1 else ";")
        return "\n".join(self.lines) + "\n"


class M(interp.Machine):
    errors = ()

    def custom(self, A, name, args):
        if name in (".boom", ".boomf", ".boomp", ".boomg"):
            def f(m, A, args, s):
                raise ref.RefError("boom")
                yield
            return f
        if name == ".boomif":
            def f(m, A, args, s):
                if ref.num(ref.ground(args[0], s)) == args[1][1]:
                    raise ref.RefError("boom")
                yield s
            return f


def drive(m):
    m.errors = []
    try:
        m.start()
    except ref.RefError:
        raise ref.Skip("failure at the start")
    for _ in range(300):
        try:
            m.run_agent(m.agents[0])
            return
        except ref.RefError:
            m.errors.append(m.current)
    raise interp.OutOfFuel()


drive.machine = M


def actions_for(record):
    acts = sut.with_recorder(record)

    def raise_(kind):
        raise EXC[kind]("injected")
    acts.add_procedure(".boom", (str,), raise_)
    acts.add_predicate(".boomp", (str,), raise_)

    def boomf(agent, term, intention):
        raise_(term.args[0])                 # not even a generator
    acts.add(".boomf", 1, boomf)

    @acts.add(".boomg", 1)
    def boomg(agent, term, intention):
        raise_(term.args[0])
        yield

    @acts.add_procedure(".boomif", (float, float))
    def boomif(n, k):
        if n == k:
            raise ValueError("injected")
    return acts


def check(case):
    names = ["ag%d" % i for i in range(len(case["progs"]))]
    pres = []
    for i, prog in enumerate(case["progs"]):
        r = interp.screen([prog], names[i:i + 1], drive)
        if r is None:
            return Info(False, ["out of domain"])
        pres.append(r)
    trace, errors = [], []          # errors: (position in trace, record)

    def record(agent, args):
        trace.append((agent, args))
        if len(trace) > 8000:
            raise sut.TooManyEvents()
    writers = [Writer(case["split"]) for _ in names]
    texts = [w.program(p) for w, p in zip(writers, case["progs"])]
    agents = []
    try:
        with sut.capture() as log, sut.clock():
            env = agentspeak.runtime.Environment()
            acts = actions_for(record)
            for n, t in zip(names, texts):
                agents.append(env.build_agent(sut.StringSource(n + ".asl", t), acts))
            execute(case, env, agents, log, trace, errors)
    except (sut.TooManyEvents, Runaway, Hang) as err:
        if any(interp.may_run_away([p], names[i:i + 1], drive) for i, p in enumerate(case["progs"])):
            return Info(False, ["out of domain"])
        if isinstance(err, sut.TooManyEvents):
            raise Runaway("more than 8000 effects\n" + "\n---\n".join(texts))
        raise
    later = False
    nerr = 0
    labels = []
    for i, n in enumerate(names):
        mine = [e for e in trace if e[0] == n]
        errs = [r for _, r in errors if r.loc.filename == n + ".asl"]
        want = frozenset(ref.canon(b) for b in sut.beliefs_of(agents[i]))
        w = writers[i]

        def final(m):
            return m.belief_sets()[0] == want and len(m.errors) == len(errs) and \
                all(within(r.loc, w, f) for r, f in zip(errs, m.errors))
        kind, r = interp.explore([case["progs"][i]], [n], drive, mine, "done", final)
        if kind == "open":
            return Info(False, ["inconclusive"])
        if kind == "none":
            p = pres[i].machine
            raise Violation("agent %s\n%s\neffects:\n%s\nerrors:\n%s\nbeliefs: %s\nreference run:\n%s\nerrors at:\n%s\nbeliefs: %s" % (
                n, "\n".join("%3d %s" % (k + 1, l) for k, l in enumerate(w.lines)),
                "\n".join("  " + ", ".join(map(interp.show, t)) for _, t in mine),
                "\n".join("  line %s, columns %s-%s: %s" % (r.loc.lineno, r.loc.startcol, r.loc.endcol, r.getMessage()) for r in errs),
                sorted(interp.show(b) for b in sut.beliefs_of(agents[i])),
                "\n".join("  " + ", ".join(map(interp.show, t)) for _, t in p.trace),
                "\n".join("  lines %s-%s, columns %s-%s" % w.places[id(f)] for f in p.errors),
                sorted(interp.show(b) for b in p.agents[0].beliefs.values())))
        nerr += len(errs)
        labels += ["fault in " + f[0] for f in r.machine.errors]
    if nerr != len(errors):
        raise Violation("errors reported for unknown sources: %s" % [r.loc for _, r in errors])
    later = bool(errors) and errors[0][0] < len(trace)
    return Info(later, sorted(set(labels)) + ["errors %s" % (nerr if nerr < 4 else "4+"), "agents %d" % len(names), "drive " + case["drive"]])


def within(loc, w, f):
    first, last, col, end = w.places[id(f)]
    if not first <= loc.lineno <= last:
        return False
    if loc.line.rstrip() != w.lines[loc.lineno - 1].rstrip() or loc.startcol < 0:
        return False
    return loc.lineno > first or (col <= loc.startcol and loc.endcol <= end)


def execute(case, env, agents, log, trace, errors):
    def attempt(f):
        """Runs f until it succeeds; every failure must be a located, logged AggregatedError."""
        for _ in range(1000):
            del log.records[:]
            try:
                return f()
            except sut.AggregatedError as err:
                recs = [r for r in log.records if r.levelno >= logging.ERROR]
                if len(recs) != 1 or err.num_errors != 1:
                    raise Violation("a failing step was reported as %r with the messages %s" % (err, [r.getMessage() for r in recs]))
                if getattr(recs[0], "loc", None) is None:
                    raise Violation("a failing step was reported without its position: %s" % recs[0].getMessage())
                errors.append((len(trace), recs[0]))
            except (sut.AslError, Exception) as err:
                if isinstance(err, (Violation, RecursionError)):
                    raise
                raise Violation("running stops with %r instead of an aggregated error" % err)
            else:
                if log.errors():
                    raise Violation("messages %s, but no error was raised" % [r.getMessage() for r in log.errors()])
        raise Violation("running fails more than 1000 times")
    if case["drive"] == "run":
        attempt(env.run)
    elif case["drive"] == "agents":
        for a in agents:
            attempt(lambda: env.run_agent(a))
    else:
        for _ in range(30):
            for a in agents:
                attempt(a.step)
        attempt(env.run)


# -- rendering of diagnostics -----------------------------------------------------------

ANSI = re.compile("\x1b\\[[0-9;]*m")
CHARS = "ab (),.;<-!+\u00e4\u65e5x"
LEVELS = [("debug", 10), ("info", 20), ("warning", 30), ("error", 40), ("critical", 50)]


def gen_loc(g, lines):
    i = g.int(0, len(lines) - 1)
    a = g.int(0, len(lines[i]) + 2)
    return [g.choice(["x.asl", "x.asl", "y.asl"]), i, a, g.choice([a, a + 1, a + g.int(0, 6), max(0, a - 1), len(lines[i])])]


def gen_render(g, tier):
    lines = ["".join(g.choice(CHARS) for _ in range(g.size(0, 14))) + g.choice(["\n", "", "\r\n", "  \n"]) for _ in range(g.size(1, 3))]
    return {"lines": lines, "loc": gen_loc(g, lines) if g.prob(0.9) else None,
            "extra": [gen_loc(g, lines) if g.prob(0.85) else None for _ in range(g.size(0, 3))],
            "level": g.choice(LEVELS), "msg": g.choice(["plain", "with %s", "100%%", "%d of %r", ""])}


def expected(level, loc, extras, text):
    head = ""
    if loc:
        head = "%s:%d:%d: " % (loc.filename, loc.lineno, loc.startcol + 1)
    head += "%s: %s" % (level, text)
    if not loc or not loc.line:
        return head
    marks = []
    for c in range(len(loc.line)):
        m = " "
        if any(e and e.filename == loc.filename and e.lineno == loc.lineno and e.startcol <= c < max(e.endcol, e.startcol + 1) for e in extras):
            m = "~"
        if loc.startcol <= c < max(loc.endcol, loc.startcol + 1):
            m = "^"
        marks.append(m)
    return "\n".join([head, loc.line.rstrip(), "".join(marks).rstrip()])


def check_render(case):
    def loc(l):
        return l and agentspeak.SourceLocation(l[0], l[1] + 1, l[2], l[3], case["lines"][l[1]])
    stream = io.StringIO()
    logger = logging.Logger("render", 1)
    handler = agentspeak.LogHandler(stream)
    handler.setFormatter(agentspeak.LogFormatter())
    handler.handleError = _reraise
    logger.addHandler(handler)
    args = {"with %s": ("t",), "%d of %r": (3, "x")}.get(case["msg"], ())
    text = case["msg"] % args if args else case["msg"].replace("%%", "%%")
    extras = [loc(e) for e in case["extra"]]
    main = loc(case["loc"])
    name, level = case["level"]
    log = agentspeak.Log(logger)
    if name in ("info", "warning", "error"):
        getattr(log, name)(case["msg"], *args, loc=main, extra_locs=extras)
    else:
        logger.log(level, case["msg"], *args, extra={"loc": main, "extra_locs": extras})
    got = ANSI.sub("", stream.getvalue())
    want = expected(name, main, extras, text) + "\n"
    if got != want:
        raise Violation("rendered:\n%s\nexpected:\n%s\n(%r, %r)" % (got, want, main, extras))
    return Info(bool(main and main.startcol < len(main.line.rstrip())), [name])


def _reraise(record):
    raise


# -- diagnostics of faulty sources ---------------------------------------------------------

def gen_diag(g, tier):
    w = Writer(g.int(0, 2))
    text = w.program(gen_prog(g))
    ops = []
    for _ in range(g.size(1, 4)):
        i = g.int(0, len(text) - 1)
        ops.append(g.choice([["del", i, g.int(1, 4)], ["ins", i, g.choice(list("()[]{};.,<-+!?@:|&\"~XY 1") + ["\n", " not ", "\t", "/*", "//", "\u00e4"])]]))
    return {"text": text, "ops": ops}


def check_diag(case):
    text = case["text"]
    for op in case["ops"]:
        text = text[:op[1]] + (text[op[1] + op[2]:] if op[0] == "del" else op[2] + text[op[1]:])
    stream = io.StringIO()
    handler = agentspeak.LogHandler(stream)
    handler.setFormatter(agentspeak.LogFormatter())
    handler.handleError = _reraise
    root = logging.getLogger("agentspeak")
    with sut.capture() as log, sut.clock():
        root.addHandler(handler)
        try:
            agentspeak.runtime.Environment().build_agent(sut.StringSource("faulty.asl", text), agentspeak.ext_stdlib.actions)
        except (sut.AslError, sut.AggregatedError):
            pass
        finally:
            root.removeHandler(handler)
    want = "".join(expected(r.levelname.lower(), r.loc, r.extra_locs, r.getMessage()) + "\n" for r in log.records if not r.exc_info)
    got = ANSI.sub("", stream.getvalue())
    if got != want and not any(r.exc_info for r in log.records):
        raise Violation("source:\n%s\nrendered:\n%s\nexpected:\n%s" % (text, got, want))
    for r in log.records:
        if r.loc and r.loc.line and r.loc.line.rstrip() not in got:
            raise Violation("no excerpt of %r in\n%s" % (r.loc, got))
    return Info(bool(log.records), sorted({r.levelname for r in log.records}))


# -- counting of diagnostics ----------------------------------------------------------

def gen_log(g, tier):
    return {"max": g.choice([None, 1, 2, 3, 5]), "ops": [g.choice(["error", "warning", "info", "exception", "throw", "error"]) for _ in range(g.size(1, 12))]}


def check_log(case):
    h = sut.Capture()
    logger = logging.Logger("count", 1)
    logger.addHandler(h)
    log = agentspeak.Log(logger, case["max"]) if case["max"] else agentspeak.Log(logger)
    ne = nw = 0
    hit = False
    for i, op in enumerate(case["ops"]):
        err = raised = None
        before = len(h.records)
        try:
            err = log.throw() if op == "throw" else getattr(log, op)("message %d", i)
        except sut.AggregatedError as e:
            raised = e
        ne += op in ("error", "exception")
        nw += op == "warning"
        if op != "throw":
            r = h.records[before:]
            if len(r) != 1 or r[0].getMessage() != "message %d" % i or \
                    r[0].levelno != {"error": 40, "exception": 40, "warning": 30, "info": 20}[op]:
                raise Violation("%s logs %s" % (op, [(x.levelname, x.getMessage()) for x in r]))
        elif len(h.records) != before:
            raise Violation("throw logs")
        limit = op in ("error", "exception") and case["max"] is not None and ne >= case["max"]
        want = limit or (op == "throw" and ne > 0)
        if bool(raised) != want:
            raise Violation("operation %d of %s (limit %s): raised %r" % (i, case["ops"], case["max"], raised))
        e = raised or err
        if op in ("error", "exception") and not isinstance(e, sut.AggregatedError):
            raise Violation("%s gives %r" % (op, e))
        if e is not None:
            text = "%d error%s and %d warning%s" % (ne, "" if ne == 1 else "s", nw, "" if nw == 1 else "s")
            if (e.num_errors, e.num_warnings) != (ne, nw) or str(e) != text:
                raise Violation("operation %d of %s: %r, expected %s" % (i, case["ops"], e, text))
        hit = hit or limit
    return Info(hit or ne > 1, ["limit"] if hit else [])


FACETS = [Facet("failures", strategy(gen), check, quick=900, thorough=40000),
          Facet("rendering", strategy(gen_render), check_render, quick=600, thorough=40000),
          Facet("diagnostics", strategy(gen_diag), check_diag, quick=250, thorough=20000),
          Facet("log", strategy(gen_log), check_log, quick=300, thorough=10000)]
