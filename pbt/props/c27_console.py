"""C27: the command line and the console run programs like the library does."""
import contextlib, io, os, re, shutil, subprocess, sys, tempfile
from .. import interp, ref, sut
from ..core import REPO, Facet, Hang, Info, Runaway, Violation
from ..gen import strategy, vars_of
from ..proggen import A, Scope, lit
from ..sut import agentspeak
from . import c26_failures as c26

RULE = ("console: a random program and a random session of lines (several commands per line, commands spread over several lines, "
        "blank lines, comments, failing commands of every kind, junk, junk in the middle of a command). Oracle: the reference "
        "interpreter executes the commands one after the other in one scope; effects, prompts, reported errors, variables shown "
        "and final beliefs are compared. cli: random programs (running, failing, faulty), from a file, from standard input and "
        "with commands afterwards, against the embedded interpreter: output, exit status, diagnostics. process: the same "
        "through real processes. deep: commands nested up to 3000 levels deep are executed or rejected, and the next one is served. Non-trivial: effects after an error / at least two lines of output.")
ASSUMPTIONS = ["commands never wait for an event that does not come", "several program files in one call are not explored",
               "values shown by the console are compared if they are atomic"]
VARS = ["X", "Y", "Z", "U", "V"]
JUNK = [")", "] .", ".rec(a) .rec(b).", "X = = 1.", "+!g0 <- .rec(1).", "\"abc", "}", "?? b.", "not.", "if X { .rec(a) }.", "@ x.",
        ".rec(a", ".rec(c) }", "for () { .rec(a) }.", "else { .rec(a) }.", "/* .rec(a).", "b(X) :- .rec(a).", "-+.", "\u00a7"]


class Commands(c26.Faulty):
    rate = 0.12
    waits = False


def gen_console(g, tier):
    prog = c26.gen_prog(g)
    pg = Commands(g, rich=0.15, preds={"p": "a", "n": "n", "q": "aa"}, depth=1)
    pg.goals = [(p["head"][1], len(p["head"][2])) for p in prog["plans"] if p["g"] == "!" and p["head"][1] != "start"]
    scope = Scope()
    items = []
    for _ in range(g.size(1, 9)):
        k = g.weighted([(6, "line"), (4, "multi"), (2, "junk"), (1, "broken"), (1, "blank"), (1, "comment")])
        if k == "line":
            items.append(["line", [command(g, pg, scope) for _ in range(g.weighted([(5, 1), (3, 2), (1, 3)]))]])
        elif k == "multi":
            items.append(["multi", command(g, pg, scope), [g.int(0, 40) for _ in range(g.size(1, 3))], g.prob(0.2)])
        elif k == "junk":
            items.append(["junk", g.choice(JUNK)])
        elif k == "broken":
            items.append(["broken", ".rec(a, f(", g.choice(["} .", ". .rec(b).", "1 2)).", "|))."])])
        else:
            items.append([k])
    return {"prog": {**prog, "goals": []}, "items": items}


def command(g, pg, scope):
    body = pg.body(scope, 1, 2, 1)
    return body + [["rec", [A("done")] + [["v", v] for v in VARS[:3]]]] if g.prob(0.6) else body


def body_text(body):
    return ";\n".join(interp.f_src(f) for f in body) + "."


TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|\s+|[^\s"(),;{}|&]+|.', re.S)


def lines_of(item):
    """Physical lines of an item."""
    k = item[0]
    if k == "line":
        return [" ".join(body_text(b).replace("\n", " ") for b in item[1])]
    if k == "multi":
        toks = [t if t.strip() else " " for t in TOKEN.findall(body_text(item[1]))]
        # where breaks are harmless: at blanks and next to punctuation
        places = [i for i in range(1, len(toks)) if toks[i] == " " or toks[i - 1] in "(,;{|&" or toks[i] in "),;}"]
        cuts = sorted({places[c % len(places)] for c in item[2]}) if places else []
        parts = [p for p in ("".join(toks[a:b]) for a, b in zip([0] + cuts, cuts + [len(toks)])) if p.strip()]
        if item[3]:
            parts = [x for p in parts for x in (p, "")][:-1]
        return parts
    if k == "broken":
        return [item[1], item[2]]
    if k == "junk":
        return [item[1]]
    return [{"blank": "", "comment": "// .rec(comment)."}[k]]


class Session(c26.M):
    pass


def make_drive(case):
    def drive(m):
        m.errors = []
        m.shown = []           # what is displayed: ("error",) or {variable: text or None}
        A0 = m.agents[0]
        try:
            m.start()
        except ref.RefError:
            raise ref.Skip("failure at the start")
        I = interp.Intention(A0)
        fid = next(m.fresh)
        known = set()

        def prompt(pending):
            m.emit(A0, [("f", "prompt", (("b", pending),), ())])

        open_vars = set()

        def steps(body):
            for f in body:
                I.top, I.top_s = f, I.s
                yield from m.formulas(A0, I, fid, [f])
            I.top = None
            if m.linger:
                yield None

        def run(body):
            used = {v for f in body for v in formula_vars(f)}
            if used & open_vars:
                raise ref.Skip("variable of a failed formula")
            known.update(used)
            I.frames = [interp.Frame(steps(body), "", None, I.s)]
            I.waiting, I.wait_until, I.wait_event = False, None, None
            A0.intentions.append(I)
            try:
                m.run_agent(A0)
            except ref.RefError:
                if I in A0.intentions:
                    raise ref.Skip("another intention failed while the command was waiting")
                # whether a failing formula leaves some of its variables bound is open
                open_vars.update(v for v in formula_vars(I.top or []) if has_vars(ref.resolve(("v", (fid, v)), I.top_s)))
                raise
            view = {}
            for v in known:
                t = ref.walk(("v", (fid, v)), I.s)
                view[v] = "?" if v in open_vars else None if t[0] in ("v", "_") else value_text(t)
            m.shown.append(view)
        for item in case["items"]:
            n = len(lines_of(item))
            for i in range(n):
                prompt(i > 0)
            if item[0] in ("line", "multi"):
                for body in item[1] if item[0] == "line" else [item[1]]:
                    try:
                        run(body)
                    except ref.RefError:
                        m.shown.append("error")
                        break
            elif item[0] == "junk" and item[1] == ".rec(a":
                prompt(True)
                m.shown.append("error")
            elif item[0] in ("junk", "broken"):
                m.shown.append("error")
        prompt(False)
    drive.machine = Session
    return drive


def value_text(t):
    k = t[0]
    if k == "n":
        return sut.num_src(t[1]) if t[1] >= 0 else "-" + sut.num_src(-t[1])
    if k == "s":
        return t[1]
    if k == "b":
        return "true" if t[1] else "false"
    if k == "f":
        return t[1] + ("" if not t[2] and not t[3] else "(*" if t[2] else "[*")
    return "[*" if k in ("c", "nil") else "?"


def shows(want, got):
    """Structures and lists are only compared by their beginning (variables in them have names of their own)."""
    return got is not None and (got.startswith(want[:-1]) and got[-1] in ")]" if want.endswith("*") and len(want) > 1 else got == want)


def has_vars(t):
    return isinstance(t, tuple) and (t[:1] in (("v",), ("_",)) or any(map(has_vars, t)))


def constant_or(f):
    return isinstance(f, list) and (f[:1] == ["or"] and interp.constant(f) or any(map(constant_or, f)))


def formula_vars(f):
    """Names of the variables of a formula (JSON), as far as they are created when it is compiled."""
    res = set()

    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("v", "var") and isinstance(x[1], str):
                res.add(x[1])
            else:
                for y in x:
                    go(y)
    go(f)
    return res


class Lines:
    """Standard input whose reads are noted."""
    def __init__(self, lines, note, tty=True):
        self.lines, self.note, self.tty = list(lines), note, tty

    def isatty(self):
        return self.tty

    def readline(self, *a):
        self.note()
        return self.lines.pop(0) + "\n" if self.lines else ""

    def read(self, *a):
        raise Violation("console reads all of its input at once")

    def __iter__(self):
        return iter(self.readline, "")

    def fileno(self):
        raise OSError("no file")

    encoding = "utf-8"
    errors = "strict"


class Piped(io.StringIO):
    name = "<stdin>"


@contextlib.contextmanager
def stdio(stdin=None, argv=None):
    out, err = io.StringIO(), io.StringIO()
    old = sys.stdin, sys.stdout, sys.stderr, sys.argv
    sys.stdout, sys.stderr = out, err
    if stdin is not None:
        sys.stdin = stdin
    if argv is not None:
        sys.argv = argv
    try:
        yield out, err
    finally:
        sys.stdin, sys.stdout, sys.stderr, sys.argv = old


SHOWN = re.compile(r"([A-Z_]\w*) = (.*)\Z", re.S)
FREE = re.compile(r"(_\w*)\Z")
UNBOUND = re.compile(r"(\d+) unbound: (.*)\Z", re.S)


def check_console(case):
    if any(constant_or(i) for i in case["items"]):
        return Info(False, ["out of domain"])         # folded in programs (one answer), not on the console
    drive = make_drive(case)
    progs, names = [case["prog"]], ["ag"]
    pre = interp.screen(progs, names, drive, fuel=2500)
    if pre is None:
        return Info(False, ["out of domain"])
    ds = sorted(d for _, d in pre.machine.wait_log)
    if any(b - a < 0.004 for a, b in zip(ds, ds[1:])):
        return Info(False, ["out of domain"])                  # which wait ends first is a question of microseconds
    lines = [l for i in case["items"] for l in (lines_of(i) + ([") }"] if i == ["junk", ".rec(a"] else []))]
    trace, shown = [], []
    state = {"pos": 0, "errors": 0}

    def harvest(log):
        """Reads what was written since the last look."""
        text = c26.ANSI.sub("", out.getvalue())[state["pos"]:]
        state["pos"] += len(text)
        prompt = text.split("\n")[-1]
        for l in text.split("\n")[:-1]:
            m = UNBOUND.match(l)
            if m:
                pairs = [x.split(" = ")[0] for x in m.group(2).split(", ")]
                if int(m.group(1)) != len(pairs):
                    raise Violation("wrong number of unbound variables: %r" % l)
                shown.append(("unbound", sorted(set(pairs) - {"_"})))
                continue
            m = SHOWN.match(l)
            if not m:
                raise Violation("unexpected output %r" % l)
            shown.append((m.group(1), m.group(2)))
        n = len(log.errors())
        if n > state["errors"]:
            shown.append("error")
            state["errors"] = n
        return prompt

    def note():
        p = harvest(log)
        if ">>>" not in p and "..." not in p:
            raise Violation("no prompt, but %r" % p)
        trace.append(("ag", (("f", "prompt", (("b", "..." in p),), ()),)))

    def record(agent, args):
        trace.append((agent, args))
        if len(trace) > 4000:
            raise sut.TooManyEvents()
    code = None
    try:
        with sut.capture() as log, sut.clock(), stdio(Lines(lines, note)) as (out, err):
            env = agentspeak.runtime.Environment()
            acts = c26.actions_for(record)
            agent = env.build_agent(sut.StringSource("ag.asl", interp.prog_src(case["prog"])), acts)
            try:
                agentspeak.runtime.repl(agent, env, acts)
            except SystemExit as e:
                code = e
            except Exception as e:
                if isinstance(e, (Violation, RecursionError)):
                    raise
                raise Violation("the console ends with %r\n%s" % (e, "\n".join(lines)))
    except RecursionError:
        return Info(False, ["out of domain"])
    except (sut.TooManyEvents, Runaway, Hang) as e:
        if interp.may_run_away(progs, names, drive, 2500):
            return Info(False, ["out of domain"])
        raise Runaway("runaway console session") if isinstance(e, sut.TooManyEvents) else e
    if code is None or code.code not in (0, None):
        raise Violation("the console ends with status %r" % (code and code.code,))
    if any("recursion" in r.getMessage() or "Recursion" in r.getMessage() for r in log.errors()):
        return Info(False, ["out of domain"])                  # cyclic terms
    for r in log.errors():
        loc = getattr(r, "loc", None)
        if loc and loc.filename == "<stdin>":
            there = lines[loc.lineno - 1] if 0 < loc.lineno <= len(lines) else None
            if there is None or there != loc.line.rstrip("\n"):
                raise Violation("session:\n%s\n%r: line %d is given as %r" % (
                    "\n".join("| " + l for l in lines), r.getMessage(), loc.lineno, loc.line))
    sets = [frozenset(ref.canon(b) for b in sut.beliefs_of(agent))]
    kind, r = interp.explore(progs, names, drive, trace, "done", lambda m: m.belief_sets() == sets and same_view(m.shown, shown), 300, 2500)
    if kind == "open":
        return Info(False, ["inconclusive"])
    if kind == "none":
        raise Violation("program:\n%s\nsession:\n%s\nobserved:\n%s\nshown: %s\nbeliefs: %s\nreference:\n%s\nshown: %s\nbeliefs: %s" % (
            interp.prog_src(case["prog"]), "\n".join("| " + l for l in lines), show_trace(trace), shown,
            sorted(interp.show(b) for b in sut.beliefs_of(agent)),
            show_trace(pre.machine.trace), pre.machine.shown, sorted(interp.show(b) for b in pre.machine.agents[0].beliefs.values())))
    errs = sum(x == "error" for x in r.machine.shown)
    first = shown.index("error") if "error" in shown else len(shown)
    return Info(errs > 0 and any(x != "error" for x in shown[first:]), ["errors %d" % min(errs, 4)] + sorted({i[0] for i in case["items"]}))


def same_view(views, shown):
    """Compares the model's view after every command with what is displayed after it."""
    i = 0
    for v in views:
        if v == "error":
            if i >= len(shown) or shown[i] != "error":
                return False
            i += 1
            continue
        # every variable of the session is mentioned exactly once, in any order
        bound, free = {}, set()
        while i < len(shown) and shown[i] != "error" and len(bound) + len(free) < len(v):
            name, value = shown[i]
            i += 1
            for n in value if name == "unbound" else [name]:
                if n in bound or n in free:
                    return False
                if name == "unbound" or FREE.match(value):
                    free.add(n)
                else:
                    bound[n] = value
        if i < len(shown) and shown[i] == ("unbound", []):
            i += 1                 # only an anonymous variable
        for n, t in v.items():
            if t is None and n not in free or t is not None and t != "?" and not shows(t, bound.get(n)):
                return False
    return i == len(shown)


def show_trace(trace):
    return "\n".join("  " + ", ".join(map(interp.show, t)) for _, t in trace[:60])


# -- command line -----------------------------------------------------------------------

def gen_cli(g, tier):
    prog = c26.gen_prog(g)
    faulty = []
    if g.prob(0.25):
        faulty = [[g.int(0, 400), g.choice(["(", ")", "<-", "#", "\"", " ", ".", ".", "!", "X", "}"])] for _ in range(g.size(1, 2))]
    after = [[["rec", [A("after"), ["n", g.int(0, 9)]]] for _ in range(g.size(1, 2))] for _ in range(g.size(0, 4))]
    return {"prog": prog, "faulty": faulty, "how": g.choice(["file", "file", "stdin", "after", "name"]), "after": after,
            "goal": g.prob(0.06), "base": g.choice(["main", "prog1", "If", "my prog", "1x"])}


def printing(text):
    """Effects become output; injected exceptions come from the library."""
    text = text.replace(".rec(", ".print(")
    text = re.sub(r'\.boom[fpg]?\("\w+"\)', ".raise(1)", text)
    return re.sub(r"\.boomif\((\w+), (\d)\)", r"(\1 \\== \2 & .raise(1) | true)", text)


def cli_text(case):
    text = printing(interp.prog_src(case["prog"]))
    text += "+!my <- .my_name(N); .print(N).\n!my.\n"
    if case["goal"]:
        text += "!there_is_no_plan.\n"
    for pos, s in case["faulty"]:
        pos %= len(text)
        text = text[:pos] + s + text[pos:]
    return text


def normal(text):
    return re.sub(r"_X_[0-9a-f]+_[0-9a-f]+", "_V", c26.ANSI.sub("", text))


def library(case, text, name):
    """Output and failure of the embedded interpreter."""
    with sut.capture() as log, sut.clock(), stdio() as (out, err):
        fail = None
        try:
            env = agentspeak.runtime.Environment()
            agent = env.build_agent(sut.StringSource(name, text), agentspeak.ext_stdlib.actions)
            env.run()
        except RecursionError:
            raise
        except Exception as e:
            fail = e
    return normal(out.getvalue()), fail


class Det(c26.M):
    def custom(self, A, name, args):
        if name == ".boomif":
            # printed as (N \== k & .raise(1) | true)
            def f(m, A, args, s):
                if ref.num(ref.ground(args[0], s)) != args[1][1]:
                    raise ref.RefError("boom")
                yield s
            return f
        return super().custom(A, name, args)


def domain(prog):
    """Deterministic programs that end."""
    def drive(m):
        m.start()
        m.run_agent(m.agents[0])
    drive.machine = Det
    r = interp.run_once([prog], ["ag"], drive, None, (), 2500)
    return r.kind in ("done", "error") and not r.machine.choices


def check_cli(case, process=False):
    if not domain(case["prog"]):
        return Info(False, ["out of domain"])
    text = cli_text(case)
    how = case["how"]
    d = tempfile.mkdtemp(prefix="c27-")
    try:
        base = case["base"] + ".asl"
        path = os.path.join(d, base)
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        try:
            if how == "stdin":
                want, fail = library(case, text, "<stdin>")
            else:
                want, fail = library(case, text, path)
            if process:
                out, err, code, nerr = run_process(how, d, base, text)
            else:
                out, err, code, nerr = run_main(case, how, d, path, text, fail)
        except RecursionError:
            return Info(False, ["out of domain"])
    finally:
        shutil.rmtree(d)
    if how == "after" and fail is None and code == 0:
        if not out.startswith(want):
            raise Violation("%s\noutput\n%s\nexpected\n%s\nat the start" % (text, out, want))
        got, out = re.findall(r"after (\d)", out[len(want):]), want
        if got != [str(f[1][1][1]) for b in case["after"] for f in b]:
            raise Violation("%s\nconsole after the run executed %s of %s" % (text, got, case["after"]))
    if out != want:
        raise Violation("%s\n%s: output\n%s\nexpected\n%s\n(%r)" % (text, how, out, want, fail))
    if (code == 0) != (fail is None):
        raise Violation("%s\n%s: exit status %r, embedded run: %r" % (text, how, code, fail))
    if fail is not None and not nerr and not err.strip():
        raise Violation("%s\n%s: failure without a diagnostic" % (text, how))
    return Info(want.count("\n") >= 2, [how, "fails: " + type(fail).__name__ if fail else "completes"])


def run_main(case, how, d, path, text, fail):
    stdin = Piped(text) if how == "stdin" else Lines([printing(body_text(b).replace("\n", " ")) for b in case["after"]], lambda: None)
    with sut.capture() as log, sut.clock(), stdio(stdin, ["agentspeak"] + ([] if how == "stdin" else [path])) as (out, err):
        code = 0
        try:
            agentspeak.runtime.main(post_repl=how == "after")
        except SystemExit as e:
            code = 0 if e.code is None else e.code
        except RecursionError:
            raise
        except Exception as e:
            if isinstance(e, Violation):
                raise
            code, err = "raised", io.StringIO(repr(e))       # a traceback, from a real process
    return normal(out.getvalue()), err.getvalue(), code, len(log.errors())


def run_process(how, d, base, text):
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([REPO, "/opt/venv/lib/python3.12/site-packages"]), PYTHONDONTWRITEBYTECODE="1",
               PYTHONIOENCODING="utf-8")
    cmd = [sys.executable, "-m", "agentspeak"] + ([] if how == "stdin" else [os.path.join(d, base) if how == "file" else base])
    p = subprocess.run(cmd, input=text if how == "stdin" else "", capture_output=True, text=True, cwd=d, env=env, timeout=60)
    return normal(p.stdout), p.stderr, p.returncode, 0


def gen_process(g, tier):
    c = gen_cli(g, tier)
    c["how"] = g.choice(["file", "stdin", "name"])
    return c


def check_process(case):
    return check_cli(case, True)


def gen_deep(g, tier):
    from .c30_tools import gen_deep_session
    return gen_deep_session(g, tier, "runtime")


def check_deep(case):
    from .c30_tools import check_deep_session
    return check_deep_session(case)


FACETS = [Facet("console", strategy(gen_console), check_console, quick=600, thorough=30000),
          Facet("deep", strategy(gen_deep), check_deep, quick=30, thorough=2000),
          Facet("cli", strategy(gen_cli), check_cli, quick=400, thorough=20000),
          Facet("process", strategy(gen_process), check_process, quick=12, thorough=600)]
