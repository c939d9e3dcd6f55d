"""C10: including a file means the same as writing its contents there."""
import os, shutil, tempfile
from .. import astgen, sut
from ..astgen import Ast, Tok, dump
from ..core import Facet, Hang, Info, Runaway, Violation
from ..gen import strategy
from .c06_print import first_diff

RULE = ("tree: up to six program files in a scratch directory tree whose items are random statements, nested begin/end regions "
        "and include directives (chains, diamonds, repeated includes, cycles, missing and undecodable files, directories; paths spelled with "
        "./, x/../, doubled slashes, absolute or through symbolic links; main program in any directory) plus planted syntax, lexical and semantic "
        "errors and unbalanced regions. Oracle: the program obtained by textual expansion, and the exact list of (file, line) "
        "of the errors met on the way. run: running programs split into files and regions records the same effects as the "
        "unsplit program. Non-trivial: at least two include directives or regions are expanded.")
DIRS = ["", "d1", "d1/d2", "e"]
BAD = {"syntax": "broken( .", "illegal": "$", "semantic": "sem(X + 1).", "end": "{ end }", "illegal2": "ok § .",
       "directive": "{ nonsense }", "inc1": "{ include(x) }", "empty": "{ begin r ."}


def spell(g, base, target):
    """A path from directory base to file target, possibly spelled strangely."""
    p = os.path.relpath(target, base or ".")
    k = g.int(0, 9)
    if k < 5:
        return p
    if k == 5:
        return "./" + p
    if k == 6:
        return p.replace("/", "//") if "/" in p else "././" + p
    if k == 7:      # leave the directory and come back
        name = os.path.basename(base)
        return "../" + name + "/" + p if name else "d1/../" + p
    if k == 8:
        up = "../" * len([x for x in base.split("/") if x])
        return up + target
    return ("ABS/" if g.int(0, 1) == 0 else "ABS/self/self/") + target


def gen_items(g, a, files, i, depth, size, bad, cyclic):
    items = []
    base = os.path.dirname(files[i])
    for _ in range(g.size(0 if i else 1, size)):
        k = g.weighted([(6, "s"), (5, "i"), (2, "r"), (1, "c"), (bad, "x"), (bad, "m")])
        if k == "s":
            items.append(["s", statement(g, a)])
        elif k == "i":
            j = g.int(0, len(files) - 1) if cyclic and g.prob(0.4) else g.int(i + 1, len(files))
            if j < len(files):
                items.append(["i", spell(g, base, files[j])])
            else:
                items.append(["s", statement(g, a)])
        elif k == "r":
            if depth > 0:
                items.append(["r", gen_items(g, a, files, i, depth - 1, 3, bad, cyclic), not bad or g.prob(0.9)])
        elif k == "c":
            items.append(["c", g.choice(["// {include(\"x.asl\")}", "/* { end } */", "# { begin r }", "/* a\n b */", ""])])
        elif k == "x":
            items.append(["x", g.choice(list(BAD))])
        else:
            items.append(["i", g.choice(["missing.asl", "d1", "nodir/x.asl", "../missing.asl", "", "ABS/binary.asl", "a\0b"])])
    return items


def statement(g, a):
    t = Tok(None)
    k = g.int(0, 3)
    if k == 0:
        toks = t.expr0(a.literal(2, ops=False), 0) + ["."]
    elif k == 1:
        toks = t.expr0(a.literal(1, ops=False), 0) + [":-"] + t.expr(a.query(1)) + ["."]
    elif k == 2:
        toks = ["!"] + t.expr0(a.literal(1, ops=False), 0) + ["."]
    else:
        toks = t.plan(a.plan(1))
    return " ".join(toks)


def gen_tree(g, tier):
    a = Ast(g, strings=["", "a", "// x", "{ end }"])
    n = g.int(1, 6)
    files = [os.path.join(g.choice(DIRS), "f%d.asl" % i) for i in range(n)]
    bad = g.choice([0, 0, 0, 1])
    cyclic = g.prob(0.35)
    return {"files": [{"path": f, "items": gen_items(g, a, files, i, 2, 5, bad, cyclic),
                       "final": g.choice(["\n", "", " // end"])} for i, f in enumerate(files)],
            "main": g.choice(["plain", "plain", "abs", "dot"])}


def render(items, text, lines):
    """Appends the text of items; records the line of each directive or bad item in it."""
    for it in items:
        line = text.count("\n") + 1
        if it[0] == "s" or it[0] == "c":
            text += it[1] + "\n"
        elif it[0] == "x":
            text += BAD[it[1]] + "\n"
            lines[id(it)] = line
        elif it[0] == "i":
            text += "{ include(%s) }\n" % sut.str_src(it[1])
            lines[id(it)] = line
        else:
            text += "{ begin region(1) }\n"
            lines[id(it)] = line
            text = render(it[1], text, lines)
            if it[2]:
                text += "{ end }\n"
    return text


class Stop(Exception):
    pass


class Expand:
    """Reads files the way the property says; the oracle for both results and errors."""
    def __init__(self, contents, lines):
        self.contents, self.lines = contents, lines
        self.out, self.errors, self.late, self.used = [], [], [], 0

    def error(self, path, item, stop):
        self.errors.append((path, self.lines[id(item)]))
        if stop:
            raise Stop()

    def file(self, path, active):
        self.items(self.contents[path], path, active | {path}, [])

    def items(self, items, path, active, regions):
        for k, it in enumerate(items):
            if it[0] == "s":
                self.out.append(it[1])
            elif it[0] == "i":
                self.used += 1
                target = os.path.normpath(os.path.join(os.path.dirname(path), it[1]).replace("self/", ""))
                if os.path.basename(target) == "binary.asl":
                    self.error(path, it, True)
                if target in active or target not in self.contents:
                    self.error(path, it, False)
                else:
                    self.file(target, active)
            elif it[0] == "r":
                self.used += 1
                self.items(it[1], path, active, regions + [it])
                if not it[2]:
                    # Everything up to the next end (or the end of the file) belongs to the region.
                    raise NotImplementedError
            elif it[0] == "x":
                kind = it[1]
                if kind == "semantic":
                    self.late.append((path, self.lines[id(it)]))
                elif kind in ("illegal", "end"):
                    self.error(path, it, False)
                elif kind == "illegal2":
                    self.errors.append((path, self.lines[id(it)]))
                    self.out.append("ok .")
                else:
                    self.error(path, it, True)


def structure(items):
    """Pairs regions and stray ends as a reader would: stray ends close open regions. Returns the items of the
    file as a flat token list: ("open", item), ("close", item), other."""
    flat = []
    for it in items:
        if it[0] == "r":
            flat.append(("open", it))
            flat += structure(it[1])
            if it[2]:
                flat.append(("close", it))
        elif it == ["x", "end"]:
            flat.append(("close", it))
        else:
            flat.append(("item", it))
    return flat


class Expand2(Expand):
    """Regions paired with ends by position."""
    def file(self, path, active):
        active = active | {path}
        stack = []
        for kind, it in structure(self.contents[path]):
            if kind == "open":
                self.used += 1
                stack.append(it)
            elif kind == "close":
                if stack:
                    stack.pop()
                elif it[0] == "x":
                    self.error(path, it, False)
                else:
                    self.loose(path)
            else:
                self.items([it], path, active, [])
        if stack:
            self.error(path, stack[-1], True)

    def loose(self, path):
        # the end of a region that was closed earlier by a stray end
        self.errors.append((path, None))


def check_tree(case):
    root = os.path.realpath(tempfile.mkdtemp(prefix="c10-", dir="."))
    old = os.getcwd()
    try:
        os.chdir(root)
        for d in DIRS:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        os.symlink(".", "self")
        with open("binary.asl", "wb") as h:
            h.write(b'a("\xff\xfe").\n')
        contents, lines, texts = {}, {}, {}

        def absolute(items):
            for it in items:
                if it[0] == "i" and it[1].startswith("ABS/"):
                    it[1] = root + "/" + it[1][4:]
                elif it[0] == "r":
                    absolute(it[1])
        for f in case["files"]:
            absolute(f["items"])
            path = os.path.join(root, f["path"])
            texts[path] = render(f["items"], "", lines).rstrip("\n") + f["final"]
            contents[path] = f["items"]
            with open(path, "w") as h:
                h.write(texts[path])
        main = os.path.join(root, case["files"][0]["path"])
        x = Expand2(contents, lines)
        stopped = False
        try:
            x.file(main, frozenset())
        except Stop:
            stopped = True
        expected = x.errors
        name = {"plain": case["files"][0]["path"], "abs": main, "dot": "./" + case["files"][0]["path"]}[case["main"]]
        with open(name) as h:
            agentspeak = sut.agentspeak
            log = agentspeak.Log(agentspeak.get_logger("agentspeak.verif"), None)
            tokens = agentspeak.lexer.TokenStream(h, log)
            with sut.capture() as cap:
                try:
                    tree = agentspeak.parser.parse(name, tokens, log)
                    log.throw()
                    err = None
                except agentspeak.AggregatedError as e:
                    tree, err = None, e
        show = "\n".join("--- %s\n%s" % (os.path.relpath(p, root), t) for p, t in texts.items())
        got = [(os.path.realpath(os.path.join(root, r.loc.filename)) if getattr(r, "loc", None) else None,
                getattr(r, "loc", None) and r.loc.lineno) for r in cap.errors()]
        if not expected and not x.late:
            if err is not None:
                raise Violation("rejected (%s %s):\n%s" % ([r.getMessage() for r in cap.errors()], got, show))
            flat, cap2, err2 = astgen.parse_agent("\n".join(x.out))
            if err2 is not None:
                raise AssertionError("expansion is not a valid program: %s" % "\n".join(x.out))
            if dump(tree) != dump(flat):
                raise Violation("the program differs from its expansion %s\n%s" % (first_diff(dump(tree), dump(flat)), show))
        else:
            if err is None:
                raise Violation("accepted in spite of errors at %s:\n%s" % (expected + x.late, show))
            # semantic errors are reported once the enclosing file is complete, possibly repeatedly
            rest = [e for e in got if e not in x.late]
            want = [e for e in expected if e not in x.late]
            if len(rest) != len(want) or any(e[0] != w[0] or (w[1] is not None and e[1] != w[1]) for e, w in zip(rest, want)):
                raise Violation("errors at %s, expected %s (and possibly %s):\n%s" % (got, expected, x.late, show))
            if not stopped and any(e not in got for e in x.late):
                raise Violation("errors at %s, expected all of %s:\n%s" % (got, x.late, show))
    finally:
        os.chdir(old)
        shutil.rmtree(root)
    return Info(x.used >= 2, ["accepted" if err is None else "rejected", "expanded %s" % min(x.used, 9)])


def gen_run(g, tier):
    from ..proggen import A, PG, Scope
    pg = PG(g, rich=0.2)
    rules = pg.rules(g.int(0, 2))
    pg.goals = [("g0", 1)]
    plans = [{"t": "+", "g": "!", "head": ["f", "g0", [["v", "X"]], []], "ctx": pg.query(Scope(["X"]), 1) if g.prob(0.4) else None,
              "body": pg.body(Scope(["X"]), 0, 2) if i == 0 else [["rec", [A("alt%d" % i)]]]} for i in range(2)]
    pg.goals = [("g0", 1)]
    plans.append({"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": pg.body(Scope(), 2, 5, 1)})
    pg2 = {"beliefs": pg.beliefs(g.int(0, 5)) + getattr(pg, "extra_beliefs", []), "rules": rules, "goals": [A("go")], "plans": plans}
    n = len(pg2["beliefs"]) + len(rules) + 1 + len(plans)
    return {"prog": pg2, "cuts": [g.int(0, 5) for _ in range(n)], "order": g.shuffle(list(range(n)))}


def check_run(case):
    try:
        return run_split(case)
    except (Runaway, Hang):
        from .. import interp
        if interp.may_run_away([case["prog"]]):
            return Info(False, ["inconclusive"])
        raise


def run_split(case):
    """The statements in a random order of kinds (keeping the order within a kind), cut into files."""
    from .. import interp
    prog = case["prog"]
    if interp.screen([prog]) is None:
        return Info(False, ["inconclusive"])
    items = [("belief", interp.prog_src({"beliefs": [b]})) for b in prog["beliefs"]] + \
        [("rule", interp.prog_src({"rules": [r]})) for r in prog["rules"]] + \
        [("goal", interp.prog_src({"goals": [t]})) for t in prog["goals"]] + \
        [("plan", interp.prog_src({"plans": [p]})) for p in prog["plans"]]
    # a random interleaving of the kinds
    queues = {k: [s for kk, s in items if kk == k] for k in ("belief", "rule", "goal", "plan")}
    kinds = [items[i][0] for i in case["order"]] if sorted(case["order"]) == list(range(len(items))) else [k for k, _ in items]
    seq = [queues[k].pop(0) for k in kinds]
    root = os.path.realpath(tempfile.mkdtemp(prefix="c10-", dir="."))
    old = os.getcwd()
    parts = [[]]
    for s, c in zip(seq, case["cuts"]):
        if c == 5:
            parts.append([])
        parts[-1].append((c, s))
    try:
        os.chdir(root)
        os.mkdir("sub")
        main = ""
        for i, part in enumerate(parts):
            text = "".join("{ begin r }\n%s{ end }\n" % s if c == 4 else s for c, s in part)
            if i % 2:
                with open("sub/part%d.asl" % i, "w") as h:
                    h.write(text)
                main += '{ include("sub/part%d.asl") }\n' % i
            else:
                main += text
        split = interp_run(main)
    finally:
        os.chdir(old)
        shutil.rmtree(root)
    plain = interp_run("".join(seq))
    if split != plain:
        raise Violation("split program behaves differently:\n%s\n%s\n%s" % (main, split, plain))
    return Info(len(parts) >= 2 and len(plain["trace"]) >= 1, ["parts %d" % min(len(parts), 5), plain["error"] or "completed"])


def interp_run(text):
    from .. import ref
    out = sut.run_sources([text], ["main.asl"])
    return {"trace": out.trace, "error": out.error and type(out.error).__name__,
            "beliefs": sorted(map(repr, (ref.canon(b) for b in out.beliefs()))) if out.agents else None}


FACETS = [
    Facet("tree", strategy(gen_tree), check_tree, quick=700, thorough=40000),
    Facet("run", strategy(gen_run), check_run, quick=300, thorough=15000),
]
