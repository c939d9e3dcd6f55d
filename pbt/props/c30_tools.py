"""C30: the lexer and parser tools show exactly what the front end reads."""
import builtins, io, logging, os, re, runpy, shutil, signal, subprocess, sys, tempfile, traceback, warnings
from .. import astgen, refparse, sut
from ..astgen import dump, needs_space, norm
from ..core import REPO, Facet, Info, Violation
from ..gen import strategy
from ..sut import agentspeak
from .c06_print import first_diff
from .c08_frontend import GARBAGE, ILLEGAL, mutate, string_value, tokens_of
from .c09_layout import lay, separators
from .c27_console import stdio

RULE = ("lexer: random token sequences (some with illegal characters) in random layouts; the tool lists every token, in order, at its "
        "position, and reports illegal characters. parser: random programs, unchanged or mutated; the tool prints a program text "
        "that reads back as the tree an independent parser gives, or fails. consoles: random sessions of lines (statements split "
        "over lines, several per line, junk); an incomplete statement is continued, a complete chunk is printed, an error "
        "discards the chunk and nothing else, positions name the line of the session, the end of input ends the console. deep_console: chunks of the parser console nested "
        " up to 3000 levels deep are shown or rejected, and the next one is served. forked, process: the "
        "same tools run as programs (in forked and in new processes), with files and standard input. Non-trivial: at least 5 tokens / a chunk printed.")
ASSUMPTIONS = ["regions (begin/end) are not split over lines of the parser console", "the list of tokens ends at the third illegal character"]
LEVEL = logging.getLogger("agentspeak.lexer").level


class Source(io.StringIO):
    def __init__(self, name, text):
        super().__init__(text)
        self.name = name


def no_regions(toks):
    return [t for t in toks if t not in ("{", "}", "begin", "end", "include", "region")] if "begin" in toks or "end" in toks or "include" in toks else toks


def gen_lexer(g, tier):
    toks = mutate(g, tokens_of(g), g.choice([0, 1, 3]))
    for _ in range(g.weighted([(5, 0), (2, 1), (1, 3)])):
        toks.insert(g.int(0, len(toks)), g.choice(ILLEGAL_LIST))
    return {"tokens": toks, "seps": separators(g, toks, g.prob(0.5)), "first": g.choice([None, None, 1, 7])}


ILLEGAL_LIST = sorted(ILLEGAL)


def expected_tokens(toks, pos):
    """What is listed, and whether there is an error."""
    bad = 0
    res = []
    for t, p in zip(toks, pos):
        if t in ILLEGAL:
            bad += 1
            if bad == 3:
                break
        else:
            res.append((t, p))
    return res, bad


def infos(cap):
    return [(r.getMessage(), (r.loc.lineno, r.loc.startcol, r.loc.endcol)) for r in cap.records if r.levelno == logging.INFO and getattr(r, "loc", None)]


def check_lexer(case):
    toks = case["tokens"]
    first = case["first"]
    text, pos = lay(toks, case["seps"], first or 1)
    want, bad = expected_tokens(toks, pos)
    err = None
    with sut.capture() as cap:
        try:
            if first is None:
                agentspeak.lexer.main(Source("t.asl", text))
            else:
                agentspeak.lexer.main(Source("t.asl", text), first)
        except agentspeak.AggregatedError as e:
            err = e
    got = infos(cap)
    if got != want:
        raise Violation("listed %s\nof %r" % (first_diff([list(x) for x in got], [list(x) for x in want]), text))
    if (err is not None) != bool(bad) or len(cap.errors()) != bad:
        raise Violation("%d illegal characters, but %r with %d errors:\n%r" % (bad, err, len(cap.errors()), text))
    return Info(len(toks) >= 5, ["illegal %d" % bad])


def gen_parser(g, tier):
    n = g.choice([0, 0, 1, 2])
    return {"tokens": mutate(g, tokens_of(g), n), "breaks": [g.int(0, 5) == 0 for _ in range(400)], "mutations": n}


def plain(case):
    return "".join(t + ("\n" if b else " ") for t, b in zip(case["tokens"], case["breaks"] + [False] * len(case["tokens"])))


def verdict(toks):
    v = refparse.parse([t for t in toks if t not in ILLEGAL], string_value)
    if any(t in ILLEGAL for t in toks):
        return ("illegal", None)
    return v


def same_program(text, want, what):
    """The printed text reads back as the tree *want*."""
    tree, cap, err = astgen.parse_agent(text)
    if err is not None:
        raise Violation("%s: the printed text is rejected (%s):\n%s" % (what, [r.getMessage() for r in cap.errors()], text))
    if dump(tree) != norm(want):
        raise Violation("%s: printed text\n%s\ndiffers %s" % (what, text, first_diff(dump(tree), norm(want))))


def check_parser(case):
    text = plain(case)
    v = verdict(case["tokens"])
    printed, err = [], None
    with sut.capture() as cap:
        try:
            agentspeak.parser.main(Source("t.asl", text), lambda x: printed.append(str(x)))
        except agentspeak.AggregatedError as e:
            err = e
    if v[0] == "ok":
        if err is not None or len(printed) != 1:
            raise Violation("%r, printed %r:\n%s" % (err, printed, text))
        same_program(printed[0], v[1], text)
    elif err is None or printed or not cap.errors():
        raise Violation("%s, but %r with %d errors, printed %r:\n%s" % (v, err, len(cap.errors()), printed, text))
    return Info(len(case["tokens"]) >= 5, [v[0]])


# -- consoles

def gen_session(g, tier):
    toks = []
    for _ in range(g.size(1, 3)):
        toks += no_regions(tokens_of(g))
    toks = no_regions(mutate(g, toks, g.weighted([(3, 0), (3, 1), (1, 2), (1, 4)])))
    if g.prob(0.25) and toks:
        toks.insert(g.int(0, len(toks)), g.choice(ILLEGAL_LIST))
    if g.prob(0.3) and toks:
        toks.insert(g.int(0, len(toks)), g.choice([")", ".", "}", "1", "not"]))
    lines, cur = [], []
    p = g.choice([0.05, 0.15, 0.4])
    q = g.choice([0.5, 0.9])
    for t in toks:
        cur.append(t)
        if g.prob(q if t == "." else p):
            lines.append(cur)
            cur = []
            while g.prob(0.05):
                lines.append([])
    if cur:
        lines.append(cur)
    return {"lines": lines}


class Console:
    """Replaces what the consoles read lines from; *note* is called before every line."""
    def __init__(self, lines, note):
        self.lines, self.note = list(lines), note

    def __call__(self, prompt=""):
        self.note(prompt)
        if not self.lines:
            raise EOFError
        return self.lines.pop(0)

    def __enter__(self):
        self.old = builtins.input
        builtins.input = self
        return self

    def __exit__(self, *a):
        builtins.input = self.old


def run_console(f, lines, note):
    with Console(lines, note), stdio() as (out, err), sut.capture() as cap:
        note.cap = cap
        note.err = err
        try:
            f()
        except SystemExit as e:
            if e.code not in (0, None):
                raise Violation("console ends with status %r:\n%s" % (e.code, "\n".join(lines)))
        except Violation:
            raise
        except Exception as e:
            raise Violation("console ends with %r:\n%s" % (e, "\n".join("| " + l for l in lines)))
    return out.getvalue()


def check_parser_console(case):
    lines = [" ".join(l) for l in case["lines"]]
    shown = "\n".join("| " + l for l in lines)
    hooks = []
    log = []             # per line: (continued prompt before it, printed, number of errors so far)

    def note(prompt):
        if "parser" not in prompt or not (">>>" in prompt) ^ ("..." in prompt):
            raise Violation("prompt %r" % prompt)
        log.append(("..." in prompt, len(hooks), len(note.cap.errors())))
    run_console(lambda: agentspeak.parser.repl(lambda x: hooks.append(str(x))), lines, note)
    if len(log) != len(lines) + 1:
        raise Violation("%d prompts for %d lines:\n%s" % (len(log), len(lines), shown))
    cap = note.cap
    pending, where = [], []
    n = 0
    chunks = errors = 0
    for i, toks in enumerate(case["lines"]):
        cont, h0, e0 = log[i]
        _, h1, e1 = log[i + 1]
        if cont != bool(pending):
            raise Violation("line %d: prompt %r with pending %r\n%s" % (i + 1, cont, pending, shown))
        col = 0
        for t in toks:
            where.append((i + 1, col, col + len(t)))
            col += len(t) + 1
            pending.append(t)
        if not toks:
            v = ("nothing", None)
        else:
            v = verdict(pending)
        new = hooks[h0:h1]
        if v[0] == "nothing" or v[0] == "syntax" and v[1] >= len(pending):
            if new or e1 > e0:
                raise Violation("line %d is incomplete, but printed %r, errors %r\n%s" % (
                    i + 1, new, [r.getMessage() for r in cap.errors()[e0:e1]], shown))
            continue
        if v[0] == "ok":
            if len(new) != 1 or e1 > e0:
                raise Violation("line %d completes a chunk, but printed %r, errors %r\n%s" % (
                    i + 1, new, [r.getMessage() for r in cap.errors()[e0:e1]], shown))
            same_program(new[0], v[1], "line %d of\n%s" % (i + 1, shown))
            chunks += 1
        else:
            if new or e1 == e0:
                raise Violation("line %d is wrong (%s), but printed %r with %d errors\n%s" % (i + 1, v, new, e1 - e0, shown))
            errors += 1
            for r in cap.errors()[e0:e1]:
                loc = getattr(r, "loc", None)
                if loc and loc.line.rstrip("\n") != lines[loc.lineno - 1]:
                    raise Violation("%r: line %d is given as %r\n%s" % (r.getMessage(), loc.lineno, loc.line, shown))
            if v[0] == "syntax":
                loc = cap.errors()[e0].loc
                if (loc.lineno, loc.startcol, loc.endcol) != where[v[1]]:
                    raise Violation("first error at %r, expected %r\n%s" % (loc, where[v[1]], shown))
        pending, where = [], []
    if log[-1][0] != bool(pending):
        raise Violation("last prompt %r with pending %r\n%s" % (log[-1], pending, shown))
    return Info(chunks > 0, ["chunks %d" % min(chunks, 5), "errors %d" % min(errors, 3)])


SHAPES = ["f({})", "[{}]", "p[{}]", "[a|{}]", "f(1, {}, b)"]


def gen_deep_session(g, tier, which="parser"):
    return {"shape": g.choice(SHAPES), "n": g.weighted([(1, g.int(1, 20)), (3, g.int(200, 3000))]), "where": g.choice(["belief", "rule", "expr"]),
            "split": g.prob(0.3), "which": which}


def check_deep_session(case):
    """A deeply nested chunk is shown or rejected; the next chunk is shown all the same."""
    pre, post = case["shape"].split("{}")
    sep = " \n" if case["split"] else ""
    n = case["n"]
    if case["which"] == "runtime":
        text = {"belief": "+p(" + (pre + sep) * n + "a" + (sep + post) * n + ");", "rule": "X = 1; if (" + ("not " + sep) * n + "(X == 1)) { +p(b) };",
                "expr": "Y = " + ("(1 + " + sep) * n + "2" + (")" + sep) * n + ";"}[case["where"]] + " +done."
        lines = text.split("\n") + ["+alive."]
        env = agentspeak.runtime.Environment()
        agent = agentspeak.runtime.Agent(env, "stdin")

        def note(prompt):
            pass
        run_console(lambda: agentspeak.runtime.repl(agent, env, agentspeak.stdlib.actions), lines, note)
        names = {b.functor for bs in agent.beliefs.values() for b in bs}
        good = "done" in names
        if "alive" not in names or not good and not note.cap.errors() or n <= 20 and not good:
            raise Violation("console after %s: beliefs %s, errors %d" % (case, sorted(names), len(note.cap.errors())))
    else:
        text = {"belief": "p(" + (pre + sep) * n + "a" + (sep + post) * n + ").", "rule": "r(X) :- " + ("not " + sep) * n + "q(X).",
                "expr": "+!g(X) <- Y = " + ("(1 + " + sep) * n + "X" + (")" + sep) * n + "."}[case["where"]]
        lines = text.split("\n") + ["q(2)."]
        hooks = []

        def note(prompt):
            pass
        run_console(lambda: agentspeak.parser.repl(hooks.append), lines, note)
        good = len(hooks) == 2
        if not hooks or len(hooks) > 2 or str(hooks[-1]).strip() != "q(2)." or not good and not note.cap.errors() or n <= 20 and not good:
            raise Violation("console after %s: printed %d, errors %d" % (case, len(hooks), len(note.cap.errors())))
    return Info(n > 10, [case["which"], "shown" if good else "rejected"])


def check_lexer_console(case):
    lines = [" ".join(l) for l in case["lines"]]
    shown = "\n".join("| " + l for l in lines)
    counts = []

    def note(prompt):
        counts.append((len(infos(note.cap)), len(note.cap.errors())))
    run_console(agentspeak.lexer.repl, lines, note)
    if len(counts) != len(lines) + 1:
        raise Violation("%d prompts for %d lines:\n%s" % (len(counts), len(lines), shown))
    got = infos(note.cap)
    for i, toks in enumerate(case["lines"]):
        pos, col = [], 0
        for t in toks:
            pos.append((i + 1, col, col + len(t)))
            col += len(t) + 1
        want, bad = expected_tokens(toks, pos)
        g = got[counts[i][0]:counts[i + 1][0]]
        if g != want or counts[i + 1][1] - counts[i][1] != bad:
            raise Violation("line %d: listed %r with %d errors, expected %r with %d\n%s" % (
                i + 1, g, counts[i + 1][1] - counts[i][1], want, bad, shown))
    return Info(len(got) >= 5, ["errors" if note.cap.errors() else "no errors"])


# -- processes

def gen_process(g, tier):
    return dict(gen_forked(g, tier), fork=False)


def gen_forked(g, tier):
    n = g.choice([1, 1, 2, 3])
    return {"fork": True, "tool": g.choice(["parser", "parser", "lexer"]), "how": g.choice(["file", "stdin"]) if n == 1 else "file",
            "files": [gen_parser(g, tier) for _ in range(n)]}


def forked(tool, args, text, cwd):
    """Runs the module as a program in a forked copy of this process (much cheaper than a new interpreter)."""
    with tempfile.TemporaryFile("w+", encoding="utf-8") as i, tempfile.TemporaryFile("w+", encoding="utf-8") as o, \
            tempfile.TemporaryFile("w+", encoding="utf-8") as e:
        i.write(text)
        i.seek(0)
        pid = os.fork()
        if not pid:
            status = 70
            try:
                signal.alarm(30)
                os.chdir(cwd)
                sys.stdin, sys.stdout, sys.stderr = i, o, e
                sys.__stdin__, sys.__stdout__, sys.__stderr__ = i, o, e
                for fd, f in enumerate((i, o, e)):
                    os.dup2(f.fileno(), fd)
                sys.stdin = Source("<stdin>", text)
                sys.argv = [tool] + args
                warnings.simplefilter("ignore")
                logging.disable(logging.NOTSET)
                try:
                    runpy.run_module(tool, run_name="__main__", alter_sys=True)
                    status = 0
                except SystemExit as exc:
                    status = exc.code if isinstance(exc.code, int) else 0 if exc.code is None else 1
                except BaseException:
                    traceback.print_exc()
                    status = 1
                o.flush()
                e.flush()
            finally:
                os._exit(status)
        _, st = os.waitpid(pid, 0)
        o.seek(0)
        e.seek(0)
        return subprocess.CompletedProcess([tool] + args, os.waitstatus_to_exitcode(st), o.read(), e.read())


def check_process(case):
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([REPO, "/opt/venv/lib/python3.12/site-packages"]), PYTHONDONTWRITEBYTECODE="1",
               PYTHONIOENCODING="utf-8", PYTHONUTF8="1")
    d = tempfile.mkdtemp(prefix="c30-")
    try:
        names = []
        for i, c in enumerate(case["files"]):
            names.append("f%d.asl" % i)
            with open(os.path.join(d, names[-1]), "w", encoding="utf-8") as f:
                f.write(plain(c))
        cmd = [sys.executable, "-m", "agentspeak." + case["tool"]] + (names if case["how"] == "file" else [])
        text = plain(case["files"][0]) if case["how"] == "stdin" else ""
        if case["fork"]:
            p = forked("agentspeak." + case["tool"], cmd[3:], text, d)
        else:
            p = subprocess.run(cmd, input=text, capture_output=True, text=True, encoding="utf-8", cwd=d, env=env, timeout=60)
    finally:
        shutil.rmtree(d)
    show = "%s\n%s\n%s\n%s" % (" ".join(cmd[1:]), "\n---\n".join(map(plain, case["files"])), p.stdout, p.stderr)
    bad = None
    good = []
    for i, c in enumerate(case["files"]):
        v = verdict(c["tokens"])
        fails = v[0] == "illegal" if case["tool"] == "lexer" else v[0] != "ok"
        if fails:
            bad = i
            break
        good.append(v)
    if (p.returncode != 0) != (bad is not None) or "Traceback" in p.stderr:
        raise Violation("exit status %d, faulty file: %r\n%s" % (p.returncode, bad, show))
    if bad is not None and "error" not in p.stderr:
        raise Violation("failure without diagnostic\n%s" % show)
    if case["tool"] == "parser":
        want = {k: [] for k in ("rules", "beliefs", "goals", "plans")}
        for v in good:
            for k in want:
                want[k] += v[1][k]
        same_program(p.stdout, want, show)
    else:
        err = re.sub(r"\x1b\[[0-9;]*m", "", p.stderr)
        src = "<stdin>" if case["how"] == "stdin" else None
        got = [l.split(": info: ", 1) for l in err.split("\n") if ": info: " in l]
        want = []
        for i, c in enumerate(case["files"][:len(good) + 1]):
            line, col, seen = 1, 0, 0
            for t, b in zip(c["tokens"], c["breaks"] + [False] * len(c["tokens"])):
                if t in ILLEGAL:
                    seen += 1
                    if seen == 3:
                        break
                else:
                    want.append(["%s:%d:%d" % (src or "f%d.asl" % i, line, col + 1), t])
                line, col = (line + 1, 0) if b else (line, col + len(t) + 1)
            if bad == i:
                break
        if got != want:
            raise Violation("listed %s\n%s" % (first_diff(got, want), show))
    return Info(any(len(c["tokens"]) >= 5 for c in case["files"]), [case["tool"], case["how"], "fails" if bad is not None else "succeeds"])


FACETS = [
    Facet("lexer", strategy(gen_lexer), check_lexer, quick=400, thorough=20000),
    Facet("parser", strategy(gen_parser), check_parser, quick=400, thorough=20000),
    Facet("parser_console", strategy(gen_session), check_parser_console, quick=700, thorough=30000),
    Facet("deep_console", strategy(gen_deep_session), check_deep_session, quick=30, thorough=2000),
    Facet("lexer_console", strategy(gen_session), check_lexer_console, quick=300, thorough=10000),
    Facet("forked", strategy(gen_forked), check_process, quick=240, thorough=15000),
    Facet("process", strategy(gen_process), check_process, quick=12, thorough=500),
]
