"""C29: inspection and output actions report the true state and change nothing."""
import contextlib, copy, datetime, io, logging, os, re, shutil, tempfile, time
from .. import astgen, interp, ref, sut
from ..astgen import Ast, Tok, dump, fold, fold_program, norm
from ..core import Facet, Hang, Info, Runaway, Violation
from ..gen import strategy, vars_of
from ..proggen import A, PG, VARS, Scope, lit
from .c06_print import first_diff

RULE = ("dump: random beliefs, rules and plans (all operators and nestings in conditions) and random belief updates; the text "
        ".dump prints is parsed again and compared with the source (rules, plan heads and contexts, up to the names of "
        "variables) and the belief base (.dump and belief handlers: after every update). interference: random programs with "
        ".dump, .print, .csv, .control_flow, .my_name, .date and .time inserted at random places of bodies and conditions must "
        "be runs of the program without them. print: .print and .csv write exactly the values that an action called with the "
        "same arguments receives, under the name of the agent, in order. clock: .date and .time against the clock, in random time "
        "zones and argument modes. unbind: a body cut by .unbind_all runs like the sequence of its parts as separate plans. "
        "Non-trivial: something was inserted, printed or dumped.")
ASSUMPTIONS = ["the notation of unbound variables in printed text is only required to be a variable name, the same for the same variable",
               "at most one annotation per literal where the printed order of annotations would matter"]


# -- dump

class DA(Ast):
    def query(self, depth):
        q = super().query(depth)
        return ["o", "="] + q[2:] if q[0] == "o" and q[1] == "=.." else q

    def literal(self, depth, ops=True, functor=None):
        t = super().literal(depth, ops, functor)
        t[3] = t[3][:1]
        return t


FUN = ["a", "b", "foo", "p", "q", "fooBar", "x_1", "~neg", "a.b"]
ACTS = {".print": None, ".member": 2, ".count": 2}


def fix_acts(g, q):
    """Gives some of the literals of a condition the form of a known action."""
    if q[0] == "o" and q[1] in "&|":
        return [q[0], q[1], fix_acts(g, q[2]), fix_acts(g, q[3])]
    if q[0] == "u" and q[1] == "not":
        return ["u", "not", fix_acts(g, q[2])]
    if q[0] == "f" and g.prob(0.2):
        return ["f", g.choice([".print", ".member"]), (q[2] + [["v", "X"], ["l", []]])[:2], []]
    return q


def gen_dump(g, tier):
    a = DA(g, functors=FUN)
    rules = []
    for _ in range(g.size(0, 3)):
        rules.append([["f", g.choice(["p", "q", "r"]), [a.term(1, False) for _ in range(g.size(0, 2))], []], fix_acts(g, a.query(g.int(0, 3)))])
    plans = []
    for _ in range(g.size(0, 4)):
        head = a.literal(2, ops=False, functor=g.choice(["h1", "h2"]))
        plans.append({"label": None, "t": g.choice("++-"), "g": g.choice(["!", "!", "", "?"]), "head": head,
                      "ctx": fix_acts(g, a.query(g.int(0, 3))) if g.prob(0.8) else None, "body": None})
    plans = [p for p in plans if p["t"] == "+" or not p["g"]]
    beliefs = [a.literal(2, ops=False, functor=g.choice(["p", "q", "b"])) for _ in range(g.size(0, 5))]
    ops = []
    for _ in range(g.size(0, 4)):
        t = ground(a.literal(2, ops=False, functor=g.choice(["p", "q", "b"])))
        ops.append([g.choice("++-"), t])
    return {"prog": {"rules": rules, "plans": plans, "beliefs": beliefs, "goals": []}, "ops": ops}


def ground(t):
    if t[0] == "v":
        return ["f", "a", [], []]
    if t[0] == "f":
        return ["f", t[1], [ground(x) for x in t[2]], [ground(x) for x in t[3]]]
    if t[0] == "l":
        return ["l", [ground(x) for x in t[1]]]
    if t[0] == "c":
        return ["c", ground(t[1]), ground(t[2])]
    return t


def cons(x):
    """Variables numbered by occurrence, one notation for lists."""
    names = {}

    def go(t):
        if isinstance(t, dict):
            return {k: go(t[k]) for k in ("t", "g", "head", "ctx") if k in t}
        if not isinstance(t, list) or not t:
            return t
        if t[0] == "v" and len(t) == 2 and isinstance(t[1], str):
            return t if t[1] == "_" else ["v", names.setdefault(t[1], len(names))]
        if t[0] == "l" and len(t) == 2 and isinstance(t[1], list):
            r = ["l", []]
            items = [go(e) for e in t[1]]
            for e in reversed(items):
                r = ["c", e, r]
            return r
        return [go(e) for e in t]
    return go(norm(x))


class Sections(logging.Handler):
    def __init__(self, buf):
        super().__init__()
        self.buf = buf

    def emit(self, record):
        if record.levelno == logging.INFO:
            self.buf.write("\x00%s\n" % record.getMessage())


def sections(text):
    res, cur = {}, None
    for line in text.split("\n"):
        if line.startswith("\0"):
            cur = line[1:].lower()
            if cur in res:
                raise Violation("section %r twice in a dump:\n%s" % (cur, text))
            res[cur] = []
        elif line and cur is not None:
            res[cur].append(line)
    return res


def parse_lines(lines, kind, suffix, text):
    res = []
    for line in lines:
        src = line
        if kind == "plans":
            if not line.startswith("* ") or not line.endswith(" <- ... ."):
                raise Violation("plan dumped as %r\n%s" % (line, text))
            src = line[2:-len(" <- ... .")] + "."
        else:
            src = line + "."
        tree, cap, err = astgen.parse_agent(src)
        if err is not None:
            raise Violation("dumped line does not parse (%s):\n%s\nof program\n%s" % ([r.getMessage() for r in cap.errors()], line, text))
        d = dump(tree)
        if [k for k in d if len(d[k]) != (k == kind)]:
            raise Violation("dumped line is no statement of %s:\n%s\nof program\n%s" % (kind, line, text))
        res.append(cons(d[kind][0]))
    return res


def by_group(items, key):
    res = {}
    for x in items:
        res.setdefault(key(x), []).append(x)
    return res


def check_dump(case):
    prog = case["prog"]
    folded = norm(fold_program(prog))
    text = "".join(" ".join(part) + "\n" for part in Tok(None, 0).program(prog))
    steps = ["!go.\n+!go <- .dump"]
    for op, t in case["ops"]:
        steps.append("%s%s; .dump" % (op, sut.src(t)))
    extra = "; ".join(steps) + ".\n"
    lg = logging.getLogger("agentspeak")
    dumps = []

    class Probe(sut.agentspeak.runtime.Agent):
        def dump(self):
            b = io.StringIO()
            h = Sections(b)
            lg.addHandler(h)
            try:
                with contextlib.redirect_stdout(b):
                    super().dump()
            finally:
                lg.removeHandler(h)
            dumps.append((b.getvalue(), sut.beliefs_of(self)))
    with sut.capture() as cap, sut.clock():
        try:
            env = sut.agentspeak.runtime.Environment()
            # Only rules, heads and contexts matter: unknown actions are fine.
            env.build_agent(sut.StringSource("ag0.asl", text + extra), sut.agentspeak.ext_stdlib.actions, agent_cls=Probe)
            env.run()
        except (sut.AggregatedError, sut.AslError) as err:
            raise Violation("program failed: %r %s\n%s" % (err, [r.getMessage() for r in cap.errors()], text + extra))
    if len(dumps) != 1 + len(case["ops"]):
        raise Violation("%d dumps instead of %d:\n%s" % (len(dumps), 1 + len(case["ops"]), text + extra))
    want_rules = [cons(r) for r in folded["rules"]] + [cons([b, ["b", True]]) for b in folded["beliefs"] if vars_of(b)]
    plans = [{k: p[k] for k in ("t", "g", "head", "ctx")} for p in folded["plans"]]
    plans.append({"t": "+", "g": "!", "head": ["f", "go", [], []], "ctx": None})
    want_plans = [cons(dict(p, ctx=p["ctx"] if p["ctx"] is not None else ["b", True])) for p in plans]
    rule_key = lambda r: (r[0][1], len(r[0][2]))
    plan_key = lambda p: (p["t"], p["g"], p["head"][1], len(p["head"][2]))
    for out, beliefs in dumps:
        sec = sections(out)
        show = "%s\nprinted\n%s" % (text + extra, out.replace("\0", "## "))
        names = list(sec)
        if len(names) != 4 or not all(k in n for k, n in zip(("belief", "rule", "plan", "intention"), names)):
            raise Violation("sections %r\n%s" % (names, show))
        got = parse_lines(sec[names[0]], "beliefs", "", show)
        got = sorted(repr(ref.canon(value(b))) for b in got)
        want = sorted(repr(ref.canon(b)) for b in beliefs)
        if got != want:
            raise Violation("beliefs %s, dumped %s\n%s" % (want, got, show))
        got = by_group(parse_lines(sec[names[1]], "rules", "", show), rule_key)
        want = by_group(want_rules, rule_key)
        if got != want:
            raise Violation("rules differ %s\n%s" % (str(first_diff(list(got.values()), list(want.values())))[:500], show))
        got = by_group(parse_lines(sec[names[2]], "plans", "", show), plan_key)
        want = by_group(want_plans, plan_key)
        if got != want:
            raise Violation("plans differ %s\n%s" % (str(first_diff(sorted(got.items()), sorted(want.items())))[:500], show))
        if len(sec[names[3]]) != 1:
            raise Violation("%d lines for one intention\n%s" % (len(sec[names[3]]), show))
    initial = {repr(ref.canon(value(cons(b)))) for b in folded["beliefs"] if not vars_of(b)}
    first = {repr(ref.canon(b)) for b in dumps[0][1]}
    if first != initial:
        raise Violation("beliefs %s instead of %s\n%s" % (first, initial, text))
    return Info(bool(prog["rules"] or prog["plans"] or case["ops"]),
                ["rules" if prog["rules"] else "no rules", "plans" if prog["plans"] else "no plans", "updates %d" % len(case["ops"])])


def value(t):
    """Reference term of a ground tree in cons notation."""
    k = t[0]
    if k == "u":
        x = value(t[2])
        return ("n", -x[1] if t[1] == "-" else x[1])
    if k == "f":
        return ("f", t[1], tuple(value(x) for x in t[2]), tuple(value(x) for x in t[3]))
    if k == "c":
        return ("c", value(t[1]), value(t[2]))
    if k == "l":
        r = ("nil",)
        for x in reversed(t[1]):
            r = ("c", value(x), r)
        return r
    if k == "v":
        return ("v", t[1])
    return (k, float(t[1]) if k == "n" else t[1])


# -- interference

def inspection(g, terms):
    k = g.int(0, 9)
    if k < 3:
        return ["act", ".print", [g.choice(terms) for _ in range(g.size(0, 3))]]
    if k < 5:
        return ["act", ".dump", []]
    if k == 5:
        return ["act", ".csv", [g.choice(terms) for _ in range(g.size(1, 2))]]
    if k == 6:
        return ["act", ".control_flow", []]
    if k == 7:
        return ["act", ".my_name", [g.choice([["_"], A("ag0")])]]
    return ["act", g.choice([".date", ".time"]), [["_"], ["_"], ["_"]]]


def weave(g, body, p, vars):
    terms = [["v", v] for v in vars] + [A("a"), ["s", "x, y"], lit("f", ["v", vars[0]]), ["l", [["v", vars[-1]], ["n", 1]]], ["_"]]

    def query(q):
        if g.prob(p / 2):
            act = inspection(g, terms)
            return ["and", q, act] if g.prob(0.5) else ["and", act, q]
        if q[0] in ("and", "or"):
            return [q[0], query(q[1]), query(q[2])]
        if q[0] == "not":
            return ["not", query(q[1])]
        return q

    def go(body):
        res = []
        for f in body:
            while g.prob(p):
                res.append(["q", inspection(g, terms)])
            if f[0] == "q":
                f = ["q", query(f[1])]
            elif f[0] == "if":
                f = ["if", query(f[1]), go(f[2]), f[3] if f[3] is None else go(f[3])]
            elif f[0] in ("while", "for"):
                f = [f[0], query(f[1]), go(f[2])]
            res.append(f)
        while g.prob(p):
            res.append(["q", inspection(g, terms)])
        return res
    return go(body)


def gen_interference(g, tier):
    pg = PG(g, rich=g.choice([0, 0.3]), annots=g.choice([0, 0, 0.2]), risky=g.choice([0, 0, 0.05]), vars=VARS[:g.choice([2, 3, 5])])
    rules = pg.rules(g.int(0, 2))
    plans = []
    for i in reversed(range(g.size(0, 2))):
        name, arity = "g%d" % i, g.int(0, 2)
        params = [["v", v] for v in ["X", "Y"][:arity]]
        plans.append({"t": "+", "g": "!", "head": lit(name, *params), "ctx": pg.query(Scope(["X", "Y"][:arity]), 1) if g.prob(0.3) else None,
                      "body": pg.body(Scope(), 1, 3)})
        pg.goals.append((name, arity))
    plans.append({"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": pg.body(Scope(), g.int(1, 3), 5, 1) + [["rec", [A("done")]]]})
    prog = {"beliefs": pg.beliefs(g.int(0, 5)) + getattr(pg, "extra_beliefs", []), "rules": rules, "goals": [A("go")], "plans": plans}
    p = g.choice([0.1, 0.25, 0.4])
    woven = dict(prog, plans=[dict(x, body=weave(g, x["body"], p, pg.k["vars"])) for x in plans])
    if g.prob(0.3):
        woven["rules"] = [[h, ["and", q, inspection(g, [A("a"), ["n", 2]])] if q[0] != "implicit" and g.prob(0.4) else q] for h, q in rules]
    return {"prog": prog, "woven": woven}


@contextlib.contextmanager
def scratch():
    root = os.path.realpath(tempfile.mkdtemp(prefix="c29-", dir="."))
    old = os.getcwd()
    os.chdir(root)
    try:
        yield root
    finally:
        os.chdir(old)
        shutil.rmtree(root)


def check_interference(case):
    a, b = interp.prog_src(case["prog"]), interp.prog_src(case["woven"])
    n = sum(b.count(x) - a.count(x) for x in (".print", ".dump", ".csv", ".control_flow", ".my_name", ".date", ".time"))
    buf = io.StringIO()
    with scratch(), contextlib.redirect_stdout(buf):
        res = interp.judge([case["prog"]], names=["ag0"], texts=[b])
    if res is None:
        return Info(False, ["inconclusive"])
    out, _ = res
    return Info(n > 0 and len(out.trace) >= 2, ["error" if out.error is not None else "completed", "inserted %d" % min(n, 8)])


# -- print and csv

ANSI = re.compile(r"\x1b\[[0-9;]*m")
WORD = ["", "a", "x y", "Hello, \u20acurope!", "{0} %s \\n", "'quoted'", "a\tb", "[1]", "tr\u00e9s", "\U0001f600"]


def gen_print(g, tier):
    def v(d):
        k = g.int(0, 7 if d else 5)
        if k < 2:
            return ["n", g.choice([0, 1, 2, 12, 0.5, -1, 2.25, 1e21])]
        if k < 3:
            return ["s", g.choice(WORD)]
        if k == 3:
            return A(g.choice(["a", "b", "fooBar", "x_1"]))
        if k == 4:
            return ["b", bool(g.int(0, 1))]
        if k == 5:
            return ["v", g.choice("XYZ")]
        return ["l", [v(d - 1) for _ in range(g.size(0, 3))]]
    agents = []
    for i in range(g.size(1, 3)):
        steps = []
        for _ in range(g.size(1, 6)):
            k = g.int(0, 5)
            if k == 0:
                x = v(1)
                if "X" not in vars_of(x) and "Y" not in vars_of(x) and "Z" not in vars_of(x):
                    steps.append(["bind", g.choice("XYZ"), x])
            elif k == 1:
                steps.append(["bind", g.choice("XYZ"), ["v", g.choice("XYZ")]])
            else:
                steps.append([g.choice(["print", "print", "csv"]), [v(2) for _ in range(g.weighted([(4, 0), (16, 1), (16, 2), (8, 3), (1, 4), (1, g.int(5, 12))]))]])
        agents.append(steps)
    return {"agents": agents, "names": [g.choice(["alice", "bob", "x_1", "agent"]) for _ in agents], "loop": [g.int(1, 3) for _ in agents], "tty": g.prob(0.5)}


class Terminal(io.StringIO):
    def isatty(self):
        return True


def resolve(t, s):
    while t[0] == "v" and t[1] in s:
        t = s[t[1]]
    if t[0] == "l":
        return ["l", [resolve(x, s) for x in t[1]]]
    return t


def pattern(t):
    """Regular expression for the printed form of a value."""
    k = t[0]
    if k == "v":
        return "(?P<%s__N>[A-Z_][A-Za-z0-9_]*)" % t[1]
    if k == "l":
        return r"\[" + ", ".join(pattern(x) for x in t[1]) + r"\]"
    from .c05_text import plain
    return re.escape(plain(t))


def matches(parts, sep, line):
    """The bindings of variable names, or None."""
    n = [0]

    def number(m):
        n[0] += 1
        return "(?P<%s_%d>" % (m.group(1), n[0])
    rx = re.sub(r"\(\?P<([A-Z])__N>", number, sep.join(parts))
    m = re.fullmatch(rx, line, re.S)
    if m is None:
        return None
    res = {}
    for k, v in m.groupdict().items():
        res.setdefault(k[0], set()).add(v)
    return res


def check_print(case):
    texts, expect, csv = [], [], []
    for steps, n in zip(case["agents"], case["loop"]):
        s, lines, rows, body = {}, [], [], []
        plan = []
        for f in steps:
            if f[0] == "bind":
                l, r = resolve(["v", f[1]], s), resolve(f[2], s)
                if l[0] != "v" or l == r or l[1] in vars_of(r):
                    continue
                s[l[1]] = r
                body.append("%s = %s" % (f[1], sut.src(f[2])))
            else:
                body.append(".%s%s" % (f[0], "(%s)" % ", ".join(map(sut.src, f[1])) if f[1] else ""))
                (lines if f[0] == "print" else rows).append([resolve(t, s) for t in f[1]])
        body.append(".rec(done)")
        texts.append("!go(%d).\n+!go(0).\n+!go(N) <- %s; !go(N-1).\n" % (n, "; ".join(body)))
        expect.append(lines * n)
        csv.append(rows * n)
    if not any(expect) and not any(csv):
        return Info(False, ["nothing printed"])
    buf = Terminal() if case["tty"] else io.StringIO()
    with scratch() as root, contextlib.redirect_stdout(buf):
        out = sut.run_sources(texts, [n + ".asl" for n in case["names"]])
        files = {f: open(os.path.join(root, f), encoding="utf-8", newline="").read() for f in os.listdir(root)}
    show = "\n---\n".join(texts)
    if out.error is not None:
        raise Violation("%r\n%s" % (out.error, show))
    names = [a.name for a in out.agents]
    if len(set(names)) != len(names):
        raise Violation("agents named %s" % names)
    seen = {n: [] for n in names}
    style = {}
    for line in buf.getvalue().split("\n")[:-1]:
        text = ANSI.sub("", line) if case["tty"] else line
        name = text.split(" ", 1)[0]
        if name not in seen:
            raise Violation("line %r names no agent of %s\n%s" % (line, names, show))
        seen[name].append(text[len(name) + 1:])
        style.setdefault(name, set()).add(line[:line.index(name)])
    for n, st in style.items():
        if len(st) != 1:
            raise Violation("agent %s printed as %r" % (n, st))
    if case["tty"] and len(style) <= 4 and len({min(st) for st in style.values()}) != len(style):
        raise Violation("agents with the same colours: %r" % style)
    for n, lines, rows in zip(names, expect, csv):
        for what, got, want, sep in (("printed lines", seen[n], lines, " "),
                                     ("rows", files.pop(n + ".csv", "").split("\n")[:-1], rows, ",")):
            if len(got) != len(want):
                raise Violation("%d %s of %s, expected %d\n%s\n%s" % (len(got), what, n, len(want), got, show))
            for line, vals in zip(got, want):
                m = matches([pattern(t) for t in vals], sep, line)
                if m is None or any(len(v) > 1 for v in m.values()) or len(set(map(min, m.values()))) != len(m):
                    raise Violation("%s of %s: %r, expected %s\n%s" % (what, n, line, sep.join(map(sut.src, vals)), show))
    if files:
        raise Violation("unexpected files %s\n%s" % (sorted(files), show))
    done = [a for a, _ in out.trace]
    if sorted(done) != sorted(n for n, k in zip(names, case["loop"]) for _ in range(k)):
        raise Violation("effects %s\n%s" % (out.trace, show))
    return Info(True, ["agents %d" % len(names)] + [w for w, x in (("print", expect), ("csv", csv)) if any(x)])


# -- date and time

def gen_clock(g, tier):
    sign = g.choice("+-")
    tz = "XXX%s%d:%02d" % (sign, g.int(0, 12 if sign == "-" else 13), g.choice([0, 0, 30, 45, 17, 59]))
    qs = []
    for _ in range(g.size(1, 4)):
        qs.append([g.choice([".date", ".time"]), [g.choice(["new", "new", "wild", "right", "wrong", "same"]) for _ in range(3)]])
    return {"tz": tz, "qs": qs}


def fields(act):
    t = time.localtime(REAL())
    return (t.tm_year, t.tm_mon, t.tm_mday) if act == ".date" else (t.tm_hour, t.tm_min, t.tm_sec)


REAL = time.time


def check_clock(case):
    old = os.environ.get("TZ")
    os.environ["TZ"] = case["tz"]
    time.tzset()
    try:
        for _ in range(5):
            before = [fields(q[0]) for q in case["qs"]]
            body, want = [], []
            for i, (act, modes) in enumerate(case["qs"]):
                now, args, ok, names = before[i], [], True, []
                for k, m in enumerate(modes):
                    v = "V%d_%d" % (i, k)
                    if m == "wild":
                        args.append("_")
                    elif m == "right":
                        args.append(str(now[k]))
                    elif m == "wrong":
                        args.append(str(now[k] + 100))
                        ok = False
                    elif m == "same" and names:
                        args.append(names[0][0])
                        ok = ok and names[0][1] == now[k]
                    else:
                        args.append(v)
                        names.append((v, now[k]))
                vs = ", ".join(["V%d_%d" % (i, k) for k in range(3)])
                body.append("if (%s(%s)) { .rec(yes, %s) } else { .rec(no, %s) }" % (act, ", ".join(args), vs, vs))
                known = dict(names)
                want.append(["yes" if ok else "no"] + [("n", float(known[v])) if ok and v in known else None for v in ["V%d_%d" % (i, k) for k in range(3)]])
            text = "!go.\n+!go <- %s.\n" % "; ".join(body)
            out = sut.run_sources([text])
            after = [fields(q[0]) for q in case["qs"]]
            if before == after:
                break
        else:
            return Info(False, ["clock moved"])
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()
    if out.error is not None:
        raise Violation("%r\n%s" % (out.error, text))
    got = [[t[0][1]] + [x if x[0] != "v" else None for x in t[1:]] for _, t in out.trace]
    if got != want:
        raise Violation("%s\ngives %s, expected %s (TZ=%s)" % (text, got, want, case["tz"]))
    return Info(True, [q[0] for q in case["qs"]] + [w[0] for w in want])


# -- unbind_all

def gen_unbind(g, tier):
    pg = PG(g, rich=0.2, risky=0.02, vars=VARS[:g.choice([2, 3])])
    rules = pg.rules(g.int(0, 1))
    parts = [pg.body(Scope(), g.int(0, 2), 4, 1) for _ in range(g.size(2, 4))]
    return {"beliefs": pg.beliefs(g.int(0, 5)) + getattr(pg, "extra_beliefs", []), "rules": rules, "parts": parts}


def check_unbind(case):
    base = {"beliefs": case["beliefs"], "rules": case["rules"], "goals": [A("go")]}
    plans, calls, joined = [], [], []
    for i, b in enumerate(case["parts"]):
        plans.append({"t": "+", "g": "!", "head": A("part%d" % i), "ctx": None, "body": b})
        calls.append(["!", A("part%d" % i)])
        joined += ([["q", ["act", ".unbind_all", []]]] if i else []) + b
    go = {"t": "+", "g": "!", "head": A("go"), "ctx": None}
    reference = dict(base, plans=plans + [dict(go, body=calls)])
    text = interp.prog_src(dict(base, plans=[dict(go, body=joined)]))
    res = interp.judge([reference], texts=[text])
    if res is None:
        return Info(False, ["inconclusive"])
    out, _ = res
    return Info(len(out.trace) >= 2, ["error" if out.error is not None else "completed"])


FACETS = [
    Facet("dump", strategy(gen_dump), check_dump, quick=400, thorough=15000),
    Facet("interference", strategy(gen_interference), check_interference, quick=500, thorough=15000),
    Facet("print", strategy(gen_print), check_print, quick=300, thorough=2000),
    Facet("clock", strategy(gen_clock), check_clock, quick=200, thorough=4000),
    Facet("unbind", strategy(gen_unbind), check_unbind, quick=200, thorough=6000),
]
