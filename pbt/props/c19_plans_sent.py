"""C19: a plan sent to another agent behaves there like the original."""
from .. import interp, ref, sut
from ..core import Facet, Info, Violation
from ..gen import strategy
from ..proggen import A, PG, Scope, lit

RULE = ("history: 2-3 agents with beliefs, rules and generated plans (contexts, control structure, strings with escapes, "
        "annotated heads, labels) and a sequence of phases in which plans are taught as text (one or several per message), asked "
        "for by name, withdrawn by label, goals and beliefs are sent and all agents run. Oracle: reference machine in which the "
        "plan tables are changed directly (the receiver has exactly the plans of the programmed agent): effects and beliefs of "
        "all agents. chain: a plan is passed on by asking through up to 5 agents and taught as source of any legal layout, then "
        "must behave like the original. labels: tables of labelled plans, withdrawals, then every event is tried. bad: texts that are not plans are errors and change nothing. Non-trivial: a plan "
        "that was sent was executed, or withdrawn.")
NAMES = ["go", "g", "goto", "go2"]
VARS = ["X", "Y", "Z"]
SPECIAL = ["a", "", "say \"hi\"", "back\\slash", "l1\nl2", "tab\there", "% // /* no comment */", "+!go <- x.", "é\u2028", "{}[]()"]


class Plans:
    def __init__(self, g):
        self.g = g
        self.pg = PG(g, rich=g.choice([0, 0.3]), annots=0, preds={"p": "a", "q": "aa", "n": "n"}, depth=1, vars=VARS, risky=0)
        self.n = 0

    def plan(self, name=None, arity=None, label=0.4, kind="!"):
        g = self.g
        self.n += 1
        kind = kind if name else g.weighted([(8, "!"), (2, "?"), (2, ""), (1, "-")])
        if kind in ("", "-"):
            name, arity = g.choice([("p", 1), ("q", 2)])
        name = name or g.choice(NAMES)
        arity = g.int(0, 2) if arity is None else arity
        args = [["v", v] for v in VARS[:arity]]
        for i in range(arity):
            if g.prob(0.25):
                args[i] = g.choice([A("a"), ["n", 1], ["_"], lit("f", ["v", "Z"]), ["c", ["v", "Y"], ["v", "Z"]], ["n", -2],
                                    ["s", g.choice(SPECIAL)], ["l", []]])
        head = lit(name, *args)
        if g.prob(0.15):
            head[3] = [g.choice([lit("source", ["v", "S"]), A("x")])]
        ctx = self.pg.query(Scope(), g.int(0, 2)) if g.prob(0.35) else None
        body = [["rec", [A("plan"), ["n", self.n]] + [["v", v] for v in VARS[:g.int(0, 3)]]]]
        if kind not in ("", "-"):
            body += self.pg.body(Scope(), g.int(0, 2), 3)
            if g.prob(0.4):
                body.append(["rec", [["s", g.choice(SPECIAL)], g.choice([
                    ["o", "-", ["o", "**", ["u", "-", ["n", 2]], ["n", 2]], ["n", 1]], ["l", [["n", -1.5], A("b")]],
                    ["o", "*", ["o", "+", ["n", 1], ["n", 2]], ["n", 3]], lit("f", ["s", "q\""]), ["b", True]])]])
        p = {"t": "-" if kind == "-" else "+", "g": "" if kind == "-" else kind, "head": head, "ctx": ctx, "body": body}
        if g.prob(label):
            p["label"] = g.choice(["l1", "l2", "l", "l1[x]", "pred[me(3)]", "l2[a, b(\"c\")]", "goto", "go"])
        return p


def value(g):
    return g.choice([A("a"), A("b"), ["n", 1], ["n", 2], lit("f", A("a")), ["l", [A("a"), ["n", 1]]], ["s", g.choice(SPECIAL)],
                     ["l", []], ["n", -2], ["s", "a"]])


def text_of(g, plans):
    r = "".join(interp.plan_src(p) for p in plans)
    if g.prob(0.2):
        r = "// comment\n" + r + "/* end */"
    if g.prob(0.2):
        r = " " * g.int(0, 3) + r.rstrip("\n")
    return r


def tried(prog, t):
    """A goal whose plan tests t."""
    name = "try%d" % len(prog["plans"])
    prog["plans"].append({"t": "+", "g": "!", "head": A(name), "ctx": None, "body": [["?", t], ["rec", [A("tested")] + t[2]]]})
    return A(name)


def gen_history(g, tier):
    ps = Plans(g)
    n = g.size(2, 3)
    rules = ps.pg.rules(g.int(0, 1))
    progs = []
    tables = []
    for i in range(n):
        plans = [ps.plan() for _ in range(g.size(0, 4))]
        progs.append({"beliefs": ps.pg.beliefs(g.int(0, 4)) + getattr(ps.pg, "extra_beliefs", []), "rules": rules, "goals": [],
                      "plans": plans})
        tables.append(list(plans))
    phases = []
    asks = 0
    for _ in range(g.size(2, 6)):
        steps = []
        for _ in range(g.size(1, 3)):
            to = g.int(0, n - 1)
            k = g.weighted([(4, "teach"), (5, "goal"), (3, "ask"), (2, "unteach"), (1, "tell")])
            if k == "teach":
                plans = [ps.plan() for _ in range(g.weighted([(4, 1), (1, 2), (1, 3)]))]
                more = [x for x in range(n) if x != to and g.prob(0.2)]
                dest = A("ag%d" % to) if not more else ["l", [A("ag%d" % x) for x in [to] + more]]
                steps.append(["teach", dest, plans, text_of(g, plans)])
                for x in [to] + more:
                    tables[x] = tables[x] + plans
            elif k == "unteach":
                lab = g.choice(["l1", "l2", "l", "pred", "nolabel", "go", "goto"])
                steps.append(["unteach", A("ag%d" % to), lab])
                tables[to] = [p for p in tables[to] if p.get("label", "").split("[")[0] != lab]
            elif k == "ask":
                other = g.int(0, n - 1)
                name = g.choice(NAMES + ["p", "nowhere"])
                wanted = g.choice(["+!%s", "%s", "+!%s(A, B)", "+%s(_)", "+!%s(X)[source(Y)]"]) % name
                progs[to]["plans"].append({"t": "+", "g": "!", "head": A("ask%d" % asks), "ctx": None,
                                           "body": [["ask", A("ag%d" % other), name, wanted]] * g.int(1, 2)})
                steps.append(["send", A("ag%d" % to), "achieve", A("ask%d" % asks)])
                asks += 1
                tables[to] = tables[to] + [p for p in tables[other] if p["head"][1] == name]
            elif k == "tell":
                steps.append(["send", A("ag%d" % to), g.choice(["tell", "tell", "untell"]), lit("p", value(g))])
            else:
                known = [(p["g"], p["head"][1], len(p["head"][2])) for p in tables[to] if p["g"] in ("!", "?")]
                if known:
                    kind, name, arity = g.choice(known[-3:] if g.prob(0.7) else known)
                    t = lit(name, *[value(g) for _ in range(arity)])
                    if g.prob(0.2):
                        t[3] = [A("x")]
                    if kind == "?":
                        t = tried(progs[to], t)
                    steps.append(["send", A("ag%d" % to), "achieve", t])
        phases.append({"goals": [A("run")], "plans": [{"t": "+", "g": "!", "head": A("run"), "ctx": None, "body": steps}]})
    return {"progs": progs, "phases": phases}


def judge(progs, phases):
    n = len(progs)
    every = progs + phases
    names = ["ag%d" % i for i in range(n)] + ["b%d" % i for i in range(len(phases))]

    mark = (("f", "failure", (), ()),)

    def sut_drive(out):
        for i in range(len(phases)):
            for j in [n + i] + list(range(n)) * 2:
                while True:
                    try:
                        out.env.run_agent(out.agents[j])
                        break
                    except (sut.AslError, sut.AggregatedError):
                        out.trace.append((out.agents[j].name, mark))

    def drive(m):
        m.start()
        for i in range(len(phases)):
            for j in [n + i] + list(range(n)) * 2:
                while True:
                    try:
                        m.run_agent(m.agents[j])
                        break
                    except ref.RefError:
                        m.emit(m.agents[j], mark)
    return interp.judge(every, names, drive, sut_drive)


def fails(out):
    return sum(1 for _, t in out.trace if t[0][1] == "failure")


def check_history(case):
    res = judge(case["progs"], case["phases"])
    if res is None:
        return Info(False, ["inconclusive"])
    out, r = res
    base = {id(p) for q in case["progs"] for p in q["plans"]}
    sent = {p["body"][0][1][1][1] for ph in case["phases"] for f in ph["plans"][0]["body"] if f[0] == "teach" for p in f[2]}
    nums = {a[1][1] for _, a in out.trace if a[0] == ("f", "plan", (), ())}
    kinds = sorted({f[0] for ph in case["phases"] for f in ph["plans"][0]["body"]})
    asked = any(p["head"][1].startswith("ask") for q in case["progs"] for p in q["plans"])
    return Info(bool(nums & sent) or (asked and len(nums) > 0), kinds + (["ask"] if asked else []) +
                ["failures %d" % min(5, fails(out)), "taught plan executed" if nums & sent else "-"])


def gen_chain(g, tier):
    ps = Plans(g)
    k = g.int(1, 3)
    arity = g.int(0, 2)
    kind = g.weighted([(5, "!"), (1, "?")])
    plans = [ps.plan("go", arity, 0.2, kind) for _ in range(k)]
    n = g.int(2, 5)
    progs = []
    for i in range(n):
        progs.append({"beliefs": ps.pg.beliefs(g.int(0, 4)) + getattr(ps.pg, "extra_beliefs", []), "goals": [], "plans": []})
        if i:
            progs[i]["plans"].append({"t": "+", "g": "!", "head": A("ask"), "ctx": None,
                                      "body": [["ask", A("ag%d" % (i - 1)), "go", "+!go"]]})
    phases = []

    def phase(*steps):
        phases.append({"goals": [A("run")], "plans": [{"t": "+", "g": "!", "head": A("run"), "ctx": None, "body": list(steps)}]})
    if g.prob(0.5):
        progs[0]["plans"] += plans
    else:
        phase(["teach", A("ag0"), plans, text_of(g, plans)])
    for i in range(1, n):
        phase(["send", A("ag%d" % i), "achieve", A("ask")])
    for _ in range(g.size(1, 3)):
        t = lit("go", *[value(g) for _ in range(arity)])
        phase(*[["send", A("ag%d" % i), "achieve", tried(progs[i], t) if kind == "?" else t] for i in g.shuffle(list(range(n)))])
    return {"progs": progs, "phases": phases}


def check_chain(case):
    res = judge(case["progs"], case["phases"])
    if res is None:
        return Info(False, ["inconclusive"])
    out, r = res
    who = {a for a, t in out.trace}
    return Info(len(who) >= 2, ["failures %d" % min(5, fails(out)), "agents %d" % len(who)])


LABELS = ["l", "l1", "l2", "l1x", "pred", "pre", "labelOne", "labelone", "l_1"]


def gen_labels(g, tier):
    """Tables of labelled plans; withdrawals; afterwards every event is tried."""
    pool = g.shuffle(LABELS)[:g.int(2, 5)]
    n = g.int(1, 2)
    count = [0]

    def plan():
        count[0] += 1
        k = g.weighted([(6, "!"), (1, "?"), (1, "")])
        name = g.choice(["a", "b"]) if k else "p"
        ar = g.int(0, 1) if k else 1
        p = {"t": "+", "g": k, "head": lit(name, *[["v", "X"]][:ar]), "ctx": None, "body": [["rec", [A("plan"), ["n", count[0]]]]]}
        if g.prob(0.85):
            p["label"] = g.choice(pool) + g.choice(["", "", "", "[x]", "[y(1), z]"])
        return p
    progs = [{"beliefs": [lit("a", ["n", 1])], "goals": [], "plans": [plan() for _ in range(g.size(1, 8))]} for _ in range(n)]
    for i, p in enumerate(progs):
        p["plans"].append({"t": "+", "g": "!", "head": A("ask0"), "ctx": None, "body": [["ask", A("ag%d" % g.int(0, n - 1)), nm, "+!" + nm]
                                                                                          for nm in ("a", "b")[:g.int(1, 2)]]})
    phases = []

    def phase(*steps):
        phases.append({"goals": [A("run")], "plans": [{"t": "+", "g": "!", "head": A("run"), "ctx": None, "body": list(steps)}]})
    for _ in range(g.size(1, 5)):
        to = g.int(0, n - 1)
        k = g.int(0, 5)
        if k <= 2:
            phase(["unteach", A("ag%d" % to), g.choice(pool)])
        elif k <= 4:
            plans = [plan() for _ in range(g.size(1, 2))]
            phase(["teach", A("ag%d" % to), plans, text_of(g, plans)])
        else:
            phase(["send", A("ag%d" % to), "achieve", A("ask0")])
        if g.prob(0.6):
            for name, ar in (("a", 0), ("a", 1), ("b", 0), ("b", 1)):
                phase(["send", A("ag%d" % to), "achieve", lit(name, *[["n", 1]][:ar])])
            phase(["send", A("ag%d" % to), "tell", lit("p", ["n", 1])])
    for to in range(n):
        for name, ar in (("a", 0), ("a", 1), ("b", 0), ("b", 1)):
            phase(["send", A("ag%d" % to), "achieve", lit(name, *[["n", 1]][:ar])])
        for name, ar in (("a", 0), ("a", 1), ("b", 0), ("b", 1)):
            if any(p["g"] == "?" for p in progs[to]["plans"]) or g.prob(0.2):
                phase(["send", A("ag%d" % to), "achieve", tried(progs[to], lit(name, *[["n", 1]][:ar]))])
    return {"progs": progs, "phases": phases}


def check_labels(case):
    res = judge(case["progs"], case["phases"])
    if res is None:
        return Info(False, ["inconclusive"])
    out, r = res
    return Info(sum(1 for _, t in out.trace if t[0][1] == "plan") >= 1, ["failures %d" % min(5, fails(out))])


BAD = ["", "+!x", "+!x <-", "x <- y.", "+!x : y <- .rec(1", "nonsense", "+!x <- \"open.", "1.", "+!x <- .rec(1)",
       "+!good <- .rec(1). +!x <- ", "/* +!x.", "@l", 
       "{ include(\"nowhere.asl\") }", "+!1 <- .rec(1).", "+!x <- if (true) { .rec(1) .", "%", "+!good <- .rec(1). }"]


def gen_bad(g, tier):
    return {"text": g.choice(BAD), "via": g.choice(["literal", "variable"])}


def check_bad(case):
    t = sut.str_src(case["text"])
    step = ".send(ag1, tellHow, %s)" % t if case["via"] == "literal" else "T = %s; .send(ag1, tellHow, T)" % t
    src0 = "!go.\n\n+!go <- .rec(start); %s;\n  .rec(never)." % step
    src1 = "!tick.\n+!tick <- .wait(1); .rec(tick).\n+!old <- .rec(old)."
    seen = {}

    def drive(out):
        before = {k: list(v) for k, v in out.agents[1].plans.items() if v}
        try:
            out.env.run()
        except (sut.AslError, sut.AggregatedError):
            after = {k: list(v) for k, v in out.agents[1].plans.items() if v}
            seen["same"] = before == after
            out.env.run()
            raise
    out = sut.run_sources([src0, src1], ["ag0.asl", "ag1.asl"], drive=drive)
    if out.error is None or not out.log.errors():
        raise Violation("%r was accepted as a plan (%s)" % (case["text"], out.trace))
    rec = [(a, t[0][1]) for a, t in out.trace]
    if rec != [("ag0", "start"), ("ag1", "tick")]:
        raise Violation("after the error for plan %r: %s" % (case["text"], rec))
    if not seen["same"]:
        raise Violation("rejected plan %r changed the plans of the receiver" % case["text"])
    return Info(True, ["bad"])


FACETS = [
    Facet("history", strategy(gen_history), check_history, quick=500, thorough=20000),
    Facet("chain", strategy(gen_chain), check_chain, quick=250, thorough=10000),
    Facet("labels", strategy(gen_labels), check_labels, quick=250, thorough=8000),
    Facet("bad", strategy(gen_bad), check_bad, quick=30, thorough=300),
]
