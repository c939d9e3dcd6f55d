"""C04: term equality, ordering and sorting obey one coherent semantics."""
import collections, functools
from .. import ref, sut
from ..core import Facet, Info, Violation
from ..gen import TermGen, strategy

RULE = ("laws: 2-4 ground terms (numbers, booleans, strings, atoms, annotated structures, lists in both notations), later ones "
        "often variations of earlier ones; every pair is compared by all six operators, in both directions, as object, "
        "written in source and through variables, and stored in a belief base; oracle: structural equality with annotation "
        "sets and an independent order. sort: lists of mutually comparable terms of one random type through .sort/.min/.max. "
        "Non-trivial: (laws) some pair of non-identical spelling is equal or the terms share functor or kind; "
        "(sort) at least three elements, two of them different.")
ASSUMPTIONS = ["booleans and numbers are not mixed as raw annotations (they would be one element of a Python set)"]
OPS = ["<", "<=", ">", ">=", "==", "\\=="]


# -- generators

def vary(g, t, tg):
    """An equal spelling or a near miss of t."""
    k = t[0]
    r = g.int(0, 9)
    if k == "f":
        args = [vary(g, a, tg) if g.prob(0.5) else a for a in t[2]]
        anns = list(t[3])
        if r < 5:
            anns = g.shuffle(anns)
        elif r == 5 and anns:
            anns = anns[1:]
        elif r == 6:
            anns = anns + [tg.annot(0)]
        elif r == 7 and anns:
            anns = anns + anns[:1]
        if r == 8:
            return ["f", t[1], args + [tg.const()], anns]
        return ["f", t[1], args, anns]
    if k == "l":
        items = [vary(g, a, tg) if g.prob(0.3) else a for a in t[1]]
        if r < 6 and items:
            n = g.int(1, len(items))
            res = ["l", items[n:]]
            for a in reversed(items[:n]):
                res = ["c", a, res]
            return res
        if r == 8 and len(items) > 1 and items[-1][0] == "s":
            return ["l", items[:-1] + [["s", ch] for ch in items[-1][1]]]
        if r == 9 and items:
            return ["c", items[0], ["s", "".join(x[1] for x in items[1:] if x[0] == "s")]]     # not a proper list
        return ["l", items + ([tg.const()] if r == 7 else [])]
    if k == "c":
        if t[2][0] == "s":
            return g.choice([["l", [t[1]] + [["s", ch] for ch in t[2][1]]], ["l", [t[1], t[2]]], ["c", t[1], ["c", t[2], ["l", []]]]])
        if r == 9:
            return ["c", t[1], ["s", "ab"]]
        tl = vary(g, t[2], tg)
        if tl[0] == "l" and g.prob(0.6):
            return ["l", [t[1]] + tl[1]]
        return ["c", vary(g, t[1], tg) if g.prob(0.3) else t[1], tl]
    if k == "n":
        return g.choice([t, t, ["n", t[1] + 1], ["b", bool(t[1])], ["s", sut.num_src(t[1])], ["n", -t[1]]])
    if k == "b":
        return g.choice([t, t, ["n", 1 if t[1] else 0], ["b", not t[1]], ["s", "true"]])
    if k == "s":
        return g.choice([t, t, ["s", t[1] + "a"], ["f", "a", [], []]])
    return t


def ground_gen(g, annots=0.3):
    return TermGen(g, annots=annots, cons=True)


def safe_annots(t):
    """No raw booleans as annotations."""
    k = t[0]
    if k == "f":
        return all(a[0] != "b" and safe_annots(a) for a in t[3]) and all(safe_annots(a) for a in t[2])
    if k == "l":
        return all(safe_annots(a) for a in t[1])
    if k == "c":
        return safe_annots(t[1]) and safe_annots(t[2])
    return True


def fix_annots(t):
    k = t[0]
    if k == "f":
        return ["f", t[1], [fix_annots(a) for a in t[2]],
                [fix_annots(a) if a[0] != "b" else ["f", "bool", [], []] for a in t[3]]]
    if k == "l":
        return ["l", [fix_annots(a) for a in t[1]]]
    if k == "c":
        return ["c", fix_annots(t[1]), fix_annots(t[2])]
    return t


def gen_laws(g, tier):
    tg = ground_gen(g)
    ts = [tg.term(g.int(0, 3))]
    for _ in range(g.size(1, 3)):
        k = g.int(0, 9)
        if k < 6:
            ts.append(vary(g, g.choice(ts), tg))
        elif k < 7:
            ts.append(g.choice(ts))
        else:
            ts.append(tg.term(g.int(0, 2)))
    return [fix_annots(t) for t in ts]


# A random type and random values of it.

def rtype(g, depth):
    k = g.int(0, 7 if depth > 0 else 4)
    if k < 2:
        return ["n"]
    if k < 4:
        return ["s"]
    if k == 4:
        return ["a"]
    if k < 7:
        return ["l", rtype(g, depth - 1)]
    return ["f", [rtype(g, depth - 1) for _ in range(g.size(1, 2))]]


SPOOL = ["", "a", "b", "ab", "B", "10", "9", "é", "z"]


def rvalue(g, t):
    if t[0] == "n":
        return ["n", g.choice([0, 1, 2, -1, 0.5, 10, 9, 1e10, -2.5])]
    if t[0] == "s":
        return ["s", g.choice(SPOOL)]
    if t[0] == "a":
        return ["f", g.choice(["a", "b", "ab", "c", "zz"]), [], []]
    if t[0] == "l":
        items = [rvalue(g, t[1]) for _ in range(g.size(0, 3))]
        if items and g.prob(0.3):
            return ["c", items[0], ["l", items[1:]]]
        return ["l", items]
    return ["f", "f", [rvalue(g, x) for x in t[1]], []]


def gen_sort(g, tier):
    t = rtype(g, 2)
    items = [rvalue(g, t) for _ in range(g.size(0, 7))]
    return {"items": items, "linked": g.int(0, 2), "order": g.shuffle(list(range(len(items))))}


# -- checks

def sut_compare(op, x, y):
    """True/False, or None for an AslError."""
    try:
        r = sut.agentspeak.BinaryExpr(sut.BIN[op].value, x, y).evaluate({})
    except sut.AslError:
        return None
    if not isinstance(r, bool):
        raise Violation("comparison %s of %s and %s evaluates to %r" % (op, x, y, r))
    return r


def ordered_kind(a):
    """Terms within the domain of the total order: no booleans, no annotations, no improper lists."""
    k = a[0]
    if k in ("n", "s"):
        return True
    if k == "f":
        return not a[3] and all(ordered_kind(x) for x in a[2])
    if k in ("c", "nil"):
        items = ref.unlist(a)
        return items is not None and all(ordered_kind(x) for x in items)
    return False


def expected(op, a, b):
    """True/False, or 'any' where the property does not fix the answer."""
    if op in ("==", "\\=="):
        return ref.do_compare(op, a, b)
    if not (ordered_kind(a) and ordered_kind(b)):
        return "any"
    try:
        return ref.do_compare(op, a, b)
    except ref.RefError:
        return "any"


def check_laws(case):
    ts = [ref.term(t) for t in case]
    objs = [(sut.to_sut(t, {}), sut.to_sut(t, {})) for t in case]
    n = len(case)
    decided = 0
    for i in range(n):
        for j in range(n):
            x, y = objs[i][0], objs[j][1]
            for op in OPS:
                want = expected(op, ts[i], ts[j])
                got = sut_compare(op, x, y)
                if want != "any" and got is not want:
                    raise Violation("%s %s %s: got %r, expected %r" % (sut.src(case[i]), op, sut.src(case[j]), got, want))
                decided += want != "any" and op not in ("==", "\\==")
            same = ref.canon(ts[i]) == ref.canon(ts[j])
            if same and hash(x) != hash(y):
                raise Violation("equal terms with different hashes: %s, %s" % (sut.src(case[i]), sut.src(case[j])))
    # Through source text: literal and variable operands, identity of beliefs.
    text = "!go.\n+!go <-\n"
    for i in range(n):
        text += "T%d = %s;\n" % (i, sut.src(case[i])) if case[i][0] != "_" else ""
    want = []
    for i in range(n):
        for j in range(n):
            same = ref.canon(ts[i]) == ref.canon(ts[j])
            if not (i == j and n > 2):
                for l, r in (("T%d" % i, "T%d" % j), (sut.src(case[i]), "T%d" % j), (sut.src(case[i]), sut.src(case[j]))):
                    text += "if (%s == %s) { .rec(eq, %d, %d) } else { .rec(ne, %d, %d) };\n" % (l, r, i, j, i, j)
                    text += "if (%s \\== %s) { .rec(ne, %d, %d) } else { .rec(eq, %d, %d) };\n" % (l, r, i, j, i, j)
                    want += [("eq" if same else "ne", i, j)] * 2
    for i in range(n):
        text += "+holds(T%d); .count(holds(_), C%d); .rec(size, C%d);\n" % (i, i, i)
        want.append(("size", len({ref.canon(t) for t in ts[:i + 1]})))
    text += ".rec(fin, 0).\n"
    want.append(("fin", 0))
    out = sut.run_sources([text])
    if out.error is not None:
        raise Violation("failed: %r %s\n%s" % (out.error, [r.getMessage() for r in out.log.records], text))
    got = [(t[0][1],) + tuple(int(x[1]) for x in t[1:]) for _, t in out.trace]
    if got != want:
        for a, b in zip(got, want):
            if a != b:
                raise Violation("%s\ngot %r, expected %r" % (text, a, b))
        raise Violation("%s\ngot %r, expected %r" % (text, got, want))
    pairs = [(i, j) for i in range(n) for j in range(i)]
    eq = sum(ref.canon(ts[i]) == ref.canon(ts[j]) for i, j in pairs)
    respelled = any(ref.canon(ts[i]) == ref.canon(ts[j]) and case[i] != case[j] for i, j in pairs)
    kin = any(ts[i][:2] == ts[j][:2] or ts[i][0] == ts[j][0] == "n" for i, j in pairs)
    return Info(respelled or kin, (["equal respelled"] if respelled else []) + (["equal"] if eq else ["all different"]) +
                (["ordered"] if decided else []))


def as_list(case, items):
    n = case["linked"] if items else 0
    r = ["l", items[n:]]
    for a in reversed(items[:n]):
        r = ["c", a, r]
    return r


def check_sort(case):
    items = case["items"]
    ts = [ref.term(t) for t in items]
    key = functools.cmp_to_key(lambda a, b: ref.compare(a, b))
    want = [ref.canon(t) for t in sorted(ts, key=key)]
    perm = [items[i] for i in case["order"]]
    l1, l2 = sut.src(as_list(case, items)), sut.src(["l", perm])
    text = "l(%s).\n!go.\n+!go <- .sort(%s, S); .rec(sort, S); .sort(%s, S2); .rec(sort, S2); .sort(S, S3); .rec(sort, S3);\n" \
           "?l(L); .sort(L, S4); .rec(sort, S4); if (S == S4) { .rec(same, S4) };\n" % (l1, l1, l2)
    if items:
        text += ".min(%s, A); .rec(min, A); .max(%s, B); .rec(max, B); .min(L, A2); .rec(min, A2); .max(%s, B2); .rec(max, B2);\n" % (
            l1, l1, l2)
    for i in range(len(items) - 1):
        text += "if (%s < %s) { .rec(lt, %d) };\nif (%s >= %s) { .rec(ge, %d) };\n" % (
            (sut.src(items[i]), sut.src(items[i + 1]), i) * 2)
    text += ".rec(fin, 0).\n"
    out = sut.run_sources([text])
    if out.error is not None:
        raise Violation("failed: %r %s\n%s" % (out.error, [r.getMessage() for r in out.log.records], text))
    lt = {}
    for _, t in out.trace:
        tag = t[0][1]
        v = ref.canon(t[1])
        if tag in ("sort", "same"):
            l = ref.unlist(t[1])
            if l is None or [ref.canon(x) for x in l] != want:
                raise Violation("%s\n%s: got %s, expected %r" % (text, tag, ref_show(t[1]), want))
        elif tag == "min" and v != want[0]:
            raise Violation("%s\nminimum: got %s, expected %r" % (text, ref_show(t[1]), want[0]))
        elif tag == "max" and v != want[-1]:
            raise Violation("%s\nmaximum: got %s, expected %r" % (text, ref_show(t[1]), want[-1]))
        elif tag in ("lt", "ge"):
            lt.setdefault(tag, []).append(int(t[1][1]))
    idx = range(len(items) - 1)
    if lt.get("lt", []) != [i for i in idx if ref.compare(ts[i], ts[i + 1]) < 0] or \
            lt.get("ge", []) != [i for i in idx if ref.compare(ts[i], ts[i + 1]) >= 0]:
        raise Violation("%s\ncomparisons of neighbours: %r" % (text, lt))
    count = collections.Counter(t[0][1] for _, t in out.trace)
    if count["sort"] != 4 or count["same"] != 1 or count["min"] != count["max"] or count["min"] != (2 if items else 0):
        raise Violation("%s\neffects missing: %r" % (text, count))
    return Info(len(items) >= 3 and len(set(want)) >= 2, ["type " + (items[0][0] if items else "-")])


def ref_show(t):
    from ..interp import show
    return show(t)


FACETS = [
    Facet("laws", strategy(gen_laws), check_laws, quick=600, thorough=40000),
    Facet("sort", strategy(gen_sort), check_sort, quick=900, thorough=40000),
]
