"""C01: unification computes a most general unifier."""
import collections
from .. import ref, sut
from ..core import Facet, Info, Violation
from ..gen import G, TermGen, perturb, strategy, vars_of

RULE = ("api/prog: two terms derived from a common random term (sub-terms replaced by shared variables, list "
        "notation switched, constants altered) plus 0-3 earlier bindings; oracle: independent Robinson unifier. "
        "wild: pattern with wildcards and variables against a ground term. Non-trivial: at least one variable "
        "occurs and at least one side is a compound term.")
VARS = ["X", "Y", "Z", "W"]


def gen_pair(g, tier, annots=0.15):
    tg = TermGen(g, vars=VARS, annots=annots)
    base_vars = VARS if g.prob(0.5) else ()
    bg = TermGen(g, vars=base_vars, annots=annots)
    simple = g.prob(0.1)
    base = bg.term(1) if simple else bg.compound(g.int(1, 3))
    p = g.choice([0.1, 0.25, 0.4])
    mutate = g.choice([0, 0, 0.05])
    a = perturb(g, base, VARS, p, mutate, tg, not simple)
    b = perturb(g, base, VARS, p, mutate, tg, not simple) if not g.prob(0.1) else tg.term(2)
    prior = []
    for _ in range(g.size(0, 2)):
        prior.append([["v", g.choice(VARS)], tg.term(g.int(0, 1))])
    return {"a": a, "b": b, "prior": prior}


def ref_prior(case):
    s = {}
    kept = []
    for l, r in case["prior"]:
        s2 = ref.unify(ref.term(l), ref.term(r), s)
        if s2 is not None:
            s = s2
            kept.append((l, r))
    return s, kept


def names(case):
    acc = []
    for t in [case["a"], case["b"]] + [x for p in case["prior"] for x in p]:
        vars_of(t, acc)
    return acc


def check_api(case):
    agentspeak = sut.agentspeak
    try:
        s0, kept = ref_prior(case)
        ra, rb = ref.term(case["a"]), ref.term(case["b"])
        want = ref.unify(ra, rb, s0)
        if want is not None:
            want2 = ref.unify(rb, ra, s0)
        vs = names(case)
        expected = None if want is None else ref.numbered([("v", v) for v in vs], want)
    except ref.Skip:
        return Info(False, ["skipped"])
    for flip in (False, True):
        env, scope, stack = {}, {}, collections.deque()
        for l, r in kept:
            if not agentspeak.unify(sut.to_sut(l, env), sut.to_sut(r, env), scope, stack):
                raise Violation("prior binding %s = %s was refused" % (sut.src(l), sut.src(r)))
        a, b = sut.to_sut(case["a"], env), sut.to_sut(case["b"], env)
        if flip:
            a, b = b, a
        got = agentspeak.unify(a, b, scope, stack)
        if bool(got) != (want is not None):
            raise Violation("unify(%s, %s)%s given %s: got %r, expected %r" % (
                sut.src(case["a"]), sut.src(case["b"]), " flipped" if flip else "",
                [(sut.src(l), sut.src(r)) for l, r in kept], got, want is not None))
        if want is not None:
            memo, nm = {}, {}
            vals = tuple(sut.from_sut(agentspeak.freeze(sut.to_sut(["v", v], env), scope, memo), nm) for v in vs)
            if not ref.alpha_equal([ref.strip(v) for v in vals], [ref.strip(v) for v in expected]):
                raise Violation("unify(%s, %s)%s: bindings %r, expected %r" % (
                    sut.src(case["a"]), sut.src(case["b"]), " flipped" if flip else "",
                    dict(zip(vs, vals)), dict(zip(vs, expected))))
            # both sides are equal now
            nm = {}
            memo = {}
            fa = ref.strip(sut.from_sut(agentspeak.freeze(a, scope, memo), nm))
            fb = ref.strip(sut.from_sut(agentspeak.freeze(b, scope, memo), nm))
            if fa != fb:
                raise Violation("after unification the terms differ: %r / %r" % (fa, fb))
            # groundness agrees with the bindings
            isg = agentspeak.is_ground(a, scope)
            wantg = not any(x[0] == "v" for x in ref.subterms(ref.strip(ref.resolve(ra if not flip else rb, want))))
            if not any(True for x in ref.subterms(ra) if x[0] == "f" and x[3]) and \
                    not any(True for x in ref.subterms(rb) if x[0] == "f" and x[3]) and \
                    not any(True for v in want.values() for x in ref.subterms(v) if x[0] == "f" and x[3]):
                if bool(isg) != wantg:
                    raise Violation("is_ground(%s) = %r after unification, expected %r" % (
                        sut.src(case["a"]), isg, wantg))
        if not kept:
            env2 = {}
            u = agentspeak.unifies(sut.to_sut(case["a"], env2), sut.to_sut(case["b"], env2))
            if bool(u) != (want is not None):
                raise Violation("unifies(%s, %s) = %r" % (sut.src(case["a"]), sut.src(case["b"]), u))
    nontrivial = bool(vs) and any(t[0] in "flc" and len(t) > 1 for t in (case["a"], case["b"]))
    return Info(nontrivial, ["unifiable" if want is not None else "not-unifiable"])


def gen_prog(g, tier):
    case = gen_pair(g, tier, annots=0.0)
    return case


def check_prog(case):
    try:
        s0, kept = ref_prior(case)
        want = ref.unify(ref.term(case["a"]), ref.term(case["b"]), s0)
        vs = names(case)
        final = s0 if want is None else want
        expected = ref.numbered([("v", v) for v in vs] + [("n", 0.0)], final)
    except ref.Skip:
        return Info(False, ["skipped"])
    body = ["(%s = %s)" % (sut.src(l), sut.src(r)) for l, r in kept]
    args = ", ".join(vs + ["0"])
    body.append("if (%s = %s) { .rec(yes, %s) } else { .rec(no, %s) }" % (
        sut.src(case["a"]), sut.src(case["b"]), args, args))
    body.append(".rec(after, %s)" % args)
    out = sut.run_sources(["!g.\n+!g <- %s." % "; ".join(body).replace("};", "}")])
    if out.error is not None:
        raise Violation("program failed: %r\n%s" % (out.error, "; ".join(body)))
    tag = "yes" if want is not None else "no"
    got = [t for _, t in out.trace]
    if len(got) != 2 or got[0][0] != ("f", tag, (), ()) or not ref.alpha_equal(got[0][1:], expected) \
            or not ref.alpha_equal(got[1][1:], expected):
        raise Violation("body: %s\ngot %r\nexpected %s %r" % ("; ".join(body), got, tag, expected))
    return Info(bool(vs), ["unifiable" if want is not None else "not-unifiable"])


def gen_wild(g, tier):
    ground = TermGen(g).compound(g.int(1, 3))
    pat = perturb(g, ground, ["X", "Y", "_"], g.choice([0.25, 0.4]), g.choice([0, 0.06]), TermGen(g), True)
    return {"pat": wildify(pat), "t": ground}


def wildify(t):
    if t == ["v", "_"]:
        return ["_"]
    return [wildify(x) if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in ("v", "_", "f", "l", "c", "n", "s", "b")
            else ([wildify(y) for y in x] if isinstance(x, list) else x) for x in t]


def check_wild(case):
    agentspeak = sut.agentspeak
    vs = vars_of(case["pat"])
    want = ref.unify(ref.term(case["pat"]), ref.term(case["t"]), {})
    for flip in (False, True):
        env, scope, stack = {}, {}, collections.deque()
        a, b = sut.to_sut(case["pat"], env), sut.to_sut(case["t"], env)
        got = agentspeak.unify(*((b, a) if flip else (a, b)), scope, stack)
        if bool(got) != (want is not None):
            raise Violation("unify(%s, %s): got %r" % (sut.src(case["pat"]), sut.src(case["t"]), got))
        if want is not None:
            for v in vs:
                val = ref.canon(sut.from_sut(agentspeak.freeze(env[v], scope, {})))
                if val != ref.canon(ref.resolve(("v", v), want)):
                    raise Violation("%s bound to %r by %s = %s" % (v, val, sut.src(case["pat"]), sut.src(case["t"])))
            if set(scope) - {env[v] for v in vs}:
                raise Violation("a wildcard acquired a value")
    args = ", ".join(vs + ["0"])
    prog = "!g.\n+!g <- if (%s = %s) { .rec(yes, %s) } else { .rec(no, 0) }; _ = 5; (%s = %s); .rec(fin, 0)." % (
        sut.src(case["pat"]), sut.src(case["t"]), args, sut.src(case["t"]), "_")
    out = sut.run_sources([prog.replace("};", "}")])
    if out.error is not None:
        raise Violation("program failed: %r %s" % (out.error, prog))
    got = [ref.canon(ref.lst(t)) for _, t in out.trace]
    if want is not None:
        exp = [("f", "yes", (), ())] + [ref.resolve(("v", v), want) for v in vs] + [("n", 0.0)]
    else:
        exp = [("f", "no", (), ()), ("n", 0.0)]
    if got != [ref.canon(ref.lst(exp)), ref.canon(ref.lst([("f", "fin", (), ()), ("n", 0.0)]))]:
        raise Violation("%s\ngot %r expected %r" % (prog, got, exp))
    wild = any(x == ["_"] for x in _walk(case["pat"]))
    return Info(wild and case["pat"] != ["_"], ["match" if want is not None else "mismatch"])


def _walk(t):
    yield t
    for x in t[1:]:
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                yield from _walk(x)
            else:
                for y in x:
                    if isinstance(y, list):
                        yield from _walk(y)


FACETS = [
    Facet("api", strategy(gen_pair), check_api, quick=1500, thorough=40000),
    Facet("prog", strategy(gen_prog), check_prog, quick=500, thorough=10000),
    Facet("wild", strategy(gen_wild), check_wild, quick=400, thorough=10000),
]
