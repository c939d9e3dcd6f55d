"""C06: a parsed program printed as source parses to the same program."""
from .. import astgen, interp, sut
from ..astgen import Ast, Tok, dump, norm
from ..core import Facet, Hang, Info, Runaway, Violation
from ..gen import strategy
from ..proggen import PG, Scope, A

RULE = ("expr/plan/program: random syntax trees (all operators and nestings, annotations, labels, both list notations, strings "
        "that look like code, empty blocks) are rendered with minimal or redundant parentheses and optional separators, parsed, "
        "compared with the generated tree (programs: with its constant-folded form), printed, parsed and compared again; the "
        "second printing must equal the first. run: random executable programs must behave the same when built from their "
        "printed text. Non-trivial: contains an operator or a block.")


def gen_expr(g, tier):
    a = Ast(g)
    t = a.query(g.int(1, 4)) if g.prob(0.6) else a.num(g.int(1, 4)) if g.prob(0.5) else a.term(g.int(1, 4))
    return {"tree": t, "text": astgen.text(Tok(g, g.choice([0, 0, 0.2])).expr(t))}


def first_diff(a, b, path=""):
    if type(a) != type(b) or not isinstance(a, (list, dict)) or len(a) != len(b):
        return "at %s: %r vs %r" % (path, a, b)
    for k in (a if isinstance(a, dict) else range(len(a))):
        if a[k] != b[k]:
            return first_diff(a[k], b[k], "%s/%s" % (path, k))
    return "no difference"


def same(what, text, got, want):
    if got != want:
        raise Violation("%s of\n%s\ndiffers %s" % (what, text, first_diff(got, want)))


def check_expr(case):
    P = sut.agentspeak.parser
    want = norm(case["tree"])
    node = astgen.parse_with(P.parse_term, case["text"])
    same("parsed tree", case["text"], dump(node), want)
    printed = str(node)
    node2 = astgen.parse_with(P.parse_term, printed)
    same("tree of the printed text %s" % printed, case["text"], dump(node2), want)
    if str(node2) != printed:
        raise Violation("printing is not stable: %s, then %s" % (printed, node2))
    kinds = str(want)
    return Info("'o'" in kinds or "'u'" in kinds, ["operators" if "'o'" in kinds else "plain"])


def gen_plan(g, tier):
    a = Ast(g)
    p = a.plan(g.int(0, 3))
    p["body"] = p["body"] or [["", a.literal(1)]]
    tk = Tok(g, g.choice([0, 0.15]))
    return {"plan": p, "text": astgen.text(tk.plan(p)[:-1]), "event": astgen.text(tk.event(p)),
            "body": astgen.text(tk.formulas(p["body"], False))}


def check_plan(case):
    P = sut.agentspeak.parser
    want = norm(case["plan"])
    for what, fn, text, expect in (
            ("plan", P.parse_plan, case["text"], want),
            ("event", P.parse_event, case["event"], [want["t"], want["g"], want["head"]]),
            ("body", P.parse_plan_body, case["body"], want["body"])):
        node = astgen.parse_with(fn, text)
        same("parsed " + what, text, dump(node), expect)
        printed = str(node)
        node2 = astgen.parse_with(fn, printed)
        same("printed %s\n%s\n" % (what, printed), text, dump(node2), expect)
        if str(node2) != printed:
            raise Violation("printing is not stable:\n%s\nthen\n%s" % (printed, node2))
    kinds = str(want)
    return Info("'o'" in kinds or "'if'" in kinds or "'for'" in kinds or "'while'" in kinds,
                [k for k in ("if", "while", "for") if "'%s'" % k in kinds] + (["label"] if want["label"] else []))


def gen_program(g, tier):
    a = Ast(g)
    p = a.program(g.int(1, 3))
    # Actions are no beliefs, goals or plans.
    items = [x for part in Tok(g, 0.05).program(p) for x in part + ["\n"]]
    return {"prog": p, "text": astgen.text(items)}


def check_program(case):
    tree, cap, err = astgen.parse_agent(case["text"])
    if err is not None:
        raise Violation("rejected %s: %s" % ([r.getMessage() for r in cap.errors()], case["text"]))
    want = norm(astgen.fold_program(case["prog"]))
    same("parsed program", case["text"], dump(tree), want)
    printed = str(tree)
    tree2, cap, err = astgen.parse_agent(printed)
    if err is not None:
        raise Violation("printed text rejected %s:\n%s" % ([r.getMessage() for r in cap.errors()], printed))
    same("tree of the printed text\n%s\n" % printed, case["text"], dump(tree2), want)
    if str(tree2) != printed:
        raise Violation("printing is not stable:\n%s\nthen\n%s" % (printed, tree2))
    kinds = str(want)
    return Info("'o'" in kinds or "'if'" in kinds, [k for k in case["prog"] if case["prog"][k]])


def gen_run(g, tier):
    pg = PG(g, rich=g.choice([0.2, 0.5]), annots=g.choice([0, 0.3]))
    rules = pg.rules(g.int(0, 2))
    pg.goals = [("g1", 1)]
    body = pg.body(Scope(), 2, 5, 2)
    sub = pg.body(Scope(["X"]), 1, 3)
    beliefs = pg.beliefs(g.int(0, 5)) + getattr(pg, "extra_beliefs", [])
    return {"beliefs": beliefs, "rules": rules, "goals": [A("go")],
            "plans": [{"t": "+", "g": "!", "head": A("go"), "ctx": None, "body": body},
                      {"t": "+", "g": "!", "head": ["f", "g1", [["v", "X"]], []], "ctx": pg.query(Scope(["X"])),
                       "body": [["rec", [A("sub"), ["v", "X"]]]]},
                      {"t": "+", "g": "!", "head": ["f", "g1", [["v", "Y"]], []], "ctx": None, "body": [["rec", [A("last"), ["v", "Y"]]]]}]}


def check_run(case):
    if interp.screen([case], fuel=3000) is None:
        return Info(False, ["skipped"])
    text = interp.prog_src(case)
    tree, cap, err = astgen.parse_agent(text)
    if err is not None:
        return Info(False, ["rejected"])
    printed = str(tree)
    try:
        a, b = sut.run_sources([text]), sut.run_sources([printed])
    except (Runaway, Hang):
        if interp.may_run_away([case]):
            return Info(False, ["runaway"])
        raise
    if [(x, interp.show(("f", "t", t, ()))) for x, t in a.trace] != [(x, interp.show(("f", "t", t, ()))) for x, t in b.trace] or \
            repr(a.error) != repr(b.error):
        raise Violation("%s\nprinted as\n%s\neffects %r %r\nand %r %r" % (text, printed, a.trace, a.error, b.trace, b.error))
    if a.agents and b.agents and sorted(map(interp.show, a.beliefs())) != sorted(map(interp.show, b.beliefs())):
        raise Violation("%s\nprinted as\n%s\nbeliefs %r\nand %r" % (text, printed, a.beliefs(), b.beliefs()))
    return Info(len(a.trace) > 1, ["error" if a.error is not None else "completed"])


FACETS = [
    Facet("expr", strategy(gen_expr), check_expr, quick=2000, thorough=80000),
    Facet("plan", strategy(gen_plan), check_plan, quick=700, thorough=40000),
    Facet("program", strategy(gen_program), check_program, quick=500, thorough=20000),
    Facet("run", strategy(gen_run), check_run, quick=300, thorough=10000),
]
