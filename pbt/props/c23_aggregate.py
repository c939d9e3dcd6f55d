"""C23: aggregating actions see every answer once and bind nothing else."""
import collections
from .. import interp, ref, sut
from ..core import Facet, Info, Violation
from ..gen import strategy, vars_of
from ..proggen import A, PG, Scope, lit
from .c12_queries import key

RULE = ("Random beliefs (annotated at times), rules (several clauses, duplicates, answers with free variables) and a query "
        "literal with free, bound and repeated variables; .findall with a random pattern, .count and .sum are executed with a "
        "free, a matching and a wrong result argument. Oracle: multiset of reference answers; all variables recorded "
        "afterwards. Non-trivial: at least two answers.")
VARS = ["X", "Y", "Z"]


def gen(g, tier):
    pg = PG(g, vars=VARS, rich=g.choice([0, 0.3]), annots=g.choice([0, 0, 0.3]), preds={"p": "a", "q": "aa", "n": "n"}, depth=1)
    rules = pg.rules(g.int(0, 2))
    if g.prob(0.4):
        rules += [[lit("open", ["v", "A1"], ["v", "B1"]), g.choice([["true"], ["lit", lit("p", ["v", "A1"])],
                                                                   ["act", ".range", [["n", 2], ["v", "A1"]]]])]
                  for _ in range(g.size(1, 2))]
        pg.rule_preds["open"] = "aa"
    if g.prob(0.3):
        rules += [[lit("n", ["v", "N"]), ["act", ".range", [["n", g.int(0, 4)], ["v", "N"]]]]]
    beliefs = pg.beliefs(g.choice([0, 3, 6, 10]))
    table = list(pg.preds.items()) + 2 * list(pg.rule_preds.items())
    name, types = g.choice(table)
    q = pg.pattern(name, types, Scope())
    if g.prob(0.5):
        q[2] = [["v", v] for v in g.shuffle(VARS)[:len(q[2])]]
    prior = []
    if g.prob(0.4):
        prior.append([g.choice(VARS), g.choice([A("a"), ["n", 1], lit("f", ["v", "W"])])])
    pat = g.choice([["v", "X"], ["v", "Y"], lit("f", ["v", "X"], ["v", "Y"]), ["l", [["v", "X"], ["v", "Z"]]],
                    ["c", ["v", "X"], ["v", "Y"]], A("k"), ["n", 1], lit("f", ["v", "W"], ["v", "X"], ["v", "W"]), q[:3] + [[]],
                    ["o", "+", ["v", "X"], ["n", 1]], lit("f", ["o", "*", ["v", "Y"], ["n", 2]])])
    spat = g.choice([["n", 1], ["n", 2], ["v", "X"], ["o", "+", ["v", "X"], ["n", 1]], ["o", "*", ["v", "Y"], ["n", 2]]])
    return {"beliefs": beliefs, "rules": rules, "q": q, "prior": prior, "pat": pat, "spat": spat,
            "wrong": g.int(1, 3)}


def check(case):
    base = {"beliefs": case["beliefs"], "rules": case["rules"]}
    q = case["q"]
    allv = VARS + ["W"]
    m = interp.Machine([base], ["ag0"], None, (), 6000)
    m.start()
    fid = next(m.fresh)
    try:
        s0 = {}
        for v, t in case["prior"]:
            s0 = ref.unify(("v", (fid, v)), ref.term(t, fid), s0)
        sols = list(m.solve_literal(m.agents[0], ref.term(q, fid), s0, 0))
        items = [key([ref.resolve(ref.term(case["pat"], fid), s)]) for s in sols]
        after = key([ref.resolve(("v", (fid, v)), s0) for v in allv])
    except (ref.Skip, interp.OutOfFuel, RecursionError):
        return Info(False, ["skipped"])
    except ref.RefError:
        return Info(False, ["reference-error"])
    try:
        total = 0.0
        for s in sols:
            total += ref.num(ref.ground(ref.term(case["spat"], fid), s))
    except ref.RefError:
        total = None
    dump = ", ".join(allv)
    qs, ps = sut.src(q), sut.src(case["pat"])
    prior = "".join("(%s = %s);\n" % (v, sut.src(t)) for v, t in case["prior"])
    n = len(sols)
    text = "".join(sut.src(b) + ".\n" for b in case["beliefs"]) + \
        "".join("%s :- %s.\n" % (sut.src(h), interp.q_src(b)) for h, b in case["rules"]) + \
        "!go.\n+!go <-\n" + prior + \
        (".findall(%s, %s, L); .rec(found, L); .rec(after, %s);\n" % (ps, qs, dump)) + \
        (".count(%s, C); .rec(count, C); .rec(after, %s);\n" % (qs, dump)) + \
        ("if (.count(%s, %d)) { .rec(right, 0) } else { .rec(bad, 0) }\n" % (qs, n)) + \
        ("if (.count(%s, %d)) { .rec(bad, 0) } else { .rec(right, 1) }\n" % (qs, n + case["wrong"])) + \
        ("if (.findall(%s, %s, %s)) { .rec(bad, 1) } else { .rec(right, 2) }\n" % (
            ps, qs, "[%s]" % ", ".join(["impossible"] * (n if n and case["wrong"] == 1 and ps in ("k", "1") else n + case["wrong"])))) + \
        ("if (not .count(%s, %d)) { .rec(bad, 2) }\n" % (qs, n)) + \
        ("if (.findall(%s, %s, M) & .count(%s, %d) & .findall(%s, %s, M2) & false) { .rec(bad, 3) }\n" % (ps, qs, qs, n, ps, qs)) + \
        (".rec(after, %s);\n.rec(free, M, M2)" % dump)
    if total is not None:
        text += (";\n.sum(%s, %s, S); .rec(sum, S); .rec(after, %s);\n" % (sut.src(case["spat"]), qs, dump)) + \
            ("if (.sum(%s, %s, %s)) { .rec(bad, 4) } else { .rec(right, 3) }\n.rec(fin, 0)" % (
                sut.src(case["spat"]), qs, sut.num_src(total + case["wrong"])))
    text += ".\n"
    out = sut.run_sources([text])
    if out.error is not None:
        raise Violation("failed: %r\n%s" % (out.error, text))
    got = collections.defaultdict(list)
    for _, t in out.trace:
        got[t[0][1]].append(t[1:])
    lst = ref.unlist(got["found"][0][0])
    if lst is None or collections.Counter(key([x]) for x in lst) != collections.Counter(items):
        raise Violation("%s\n.findall: got %s, expected the items %r" % (text, interp.show(got["found"][0][0]), items))
    # free variables of different answers are different
    owner = {}
    for i, x in enumerate(lst):
        for v in ref.variables(x):
            if owner.setdefault(v, i) != i:
                raise Violation("%s\n.findall: answers share a variable: %s" % (text, interp.show(got["found"][0][0])))
    if got["count"] != [(("n", float(n)),)]:
        raise Violation("%s\n.count: got %r, expected %d" % (text, got["count"], n))
    for a in got["after"]:
        if key(a) != after:
            raise Violation("%s\nvariables afterwards: got %r, expected %r" % (text, key(a), after))
    if got["bad"]:
        raise Violation("%s\nwrong branch %r" % (text, got["bad"]))
    if [x[0] for x in got["free"][0]] != ["v", "v"]:
        raise Violation("%s\nresult bound in a failed branch: %r" % (text, got["free"]))
    if total is not None and got["sum"] != [(("n", total),)]:
        raise Violation("%s\n.sum: got %r, expected %r" % (text, got["sum"], total))
    if len(got["right"]) != (4 if total is not None else 3):
        raise Violation("%s\nexpected branches missing: %r" % (text, got["right"]))
    return Info(n >= 2, ["%s answers" % (n if n < 3 else "3+"), "sum" if total is not None else "no-sum"] +
                (["open"] if any(ref.variables(x) for x in lst) else []))


FACETS = [Facet("aggregate", strategy(gen), check, quick=1500, thorough=60000)]
