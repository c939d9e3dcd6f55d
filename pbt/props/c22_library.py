"""C22: list, string and number library actions compute the documented function."""
import math
from .. import interp, ref, sut
from ..core import Facet, Info, Violation
from ..gen import TermGen, strategy, vars_of

RULE = ("One library action per case with random arguments: lists in both notations (with bound tails, nested, up to 30 items), "
        "strings, numbers, expressions, terms of every kind; arguments written literally or through variables; the result "
        "argument is a free variable, the right value, a wrong value, a partial pattern, or one of the arguments. The action "
        "runs as a step, as condition of if and of for, negated, in a rule body, in a plan context or inside a conjunction. "
        "Oracle: the mathematical function, as the multiset of expected answers, or `error or failure`. random: .randint, "
        ".random. Non-trivial: the reference has at least one answer and some argument is a non-empty list or string, or a "
        "number other than 0 and 1.")
ASSUMPTIONS = ["numeric arguments of the wrong type may be converted (int(), float()) or refused",
               ".round of a value half way between two integers may give either", "the tail of the empty list may be empty or an error",
               "text of numbers, atoms, strings, booleans and lists of those is the text .print shows; lists written "
               "with a tail ([a|T]) may show that notation and are left out where text is concerned",
               "sorting lists that mix booleans and numbers is left open", "list items of function actions are ground",
               "for a list with variables inside, only .member, .length and .ground are used"]
MODES = ["step", "if", "for", "not", "rule", "ctx", "conj"]


def A(x):
    return ["f", x, [], []]


# -- generators --------------------------------------------------------------------

def notation(g, items, tails):
    """A list in one of the notations; tails collects variables bound to tails."""
    k = g.int(0, 5)
    if k < 3 or not items:
        return ["l", list(items)]
    n = g.int(1, len(items))
    rest = notation(g, items[n:], tails) if g.prob(0.5) else ["l", list(items[n:])]
    if g.prob(0.4):
        v = "T%d" % len(tails)
        tails.append([v, rest])
        rest = ["v", v]
    for x in reversed(items[:n]):
        rest = ["c", x, rest]
    return rest


def ground_item(g, kind):
    tg = TermGen(g, annots=0.1)
    if kind == "num":
        return ["n", g.choice([0, 1, 2, 3, -1, -5, 0.5, 2.5, 10, 1e10, -0.25])]
    if kind == "str":
        return ["s", "".join(g.choice("abB1 é") for _ in range(g.size(0, 3)))]
    if kind == "atom":
        return A(g.choice(["a", "b", "ab", "z", "aB"]))
    if kind == "f":
        return ["f", "f", [ground_item(g, "num"), ground_item(g, g.choice(["num", "atom"]))], [A("x")] if g.prob(0.2) else []]
    if kind == "list":
        return ["l", [ground_item(g, "num") for _ in range(g.size(0, 2))]]
    t = tg.term(1)
    return c_ground(t)


def c_ground(t):
    """No raw booleans as annotations, no improper lists."""
    k = t[0]
    if k == "f":
        return ["f", t[1], [c_ground(a) for a in t[2]], [a for a in map(c_ground, t[3]) if a[0] == "f"]]
    if k == "l":
        return ["l", [c_ground(a) for a in t[1]]]
    if k == "c":
        tl = c_ground(t[2])
        return ["c", c_ground(t[1]), tl if tl[0] in "lc" else ["l", [tl]]]
    return t


def items(g, kind=None, lo=0, hi=None):
    kind = kind or g.choice(["num", "num", "str", "atom", "f", "list", "any", "any"])
    n = g.int(lo, hi if hi is not None else g.choice([2, 4, 6, 30]))
    return [ground_item(g, kind) for _ in range(n)]


def word(g, alphabet="ab", hi=6):
    return "".join(g.choice(alphabet) for _ in range(g.size(0, hi)))


def number(g):
    k = g.int(0, 5)
    if k < 3:
        return ["n", g.choice([0, 1, 2, 3, 7, 0.5, 1.5, 2.5, 3.5, 0.25, 2.75, 100.999, 1e10, 123456.789, 0.1])]
    if k < 4:
        return ["n", g.int(-2000, 2000) / g.choice([1, 2, 4, 8, 10])]
    if k < 5:
        return ["o", g.choice(["+", "-", "*"]), ["n", g.int(0, 9)], ["n", g.int(0, 9) / 2]]
    return ["u", "-", ["n", g.choice([0, 1, 0.5, 1.5, 2.25, 7, 1e10])]]


def odd(g):
    """A value of the wrong kind."""
    return g.choice([["s", "abc"], A("a"), ["f", "f", [["n", 1]], []], ["b", True], ["n", 1], ["n", 2.5], ["l", []], ["v", "Free"],
                     ["s", ""], ["c", A("a"), A("b")], ["c", A("a"), ["s", "bc"]], ["c", A("a"), ["v", "Free"]]])


ACTIONS = [".concat", ".length", ".nth", ".sort", ".min", ".max", ".substring", ".member", ".range", ".round", ".floor", ".ceil",
           ".tail", ".atom", ".literal", ".list", ".number", ".string", ".structure", ".ground"]
TESTS = ACTIONS[-7:]


def text_value(g):
    return g.weighted([(4, ["s", word(g, "ab")]), (1, ["s", word(g, "aé\" \\n", 3)]), (2, A(g.choice(["a", "ab", "b"]))),
                       (2, ["n", g.choice([0, 1, 12, 2.5, -3, 1e10, 0.1])]), (1, ["b", g.prob(0.5)]),
                       (1, ["l", [A("a"), ["n", 1], ["s", "a"]][:g.int(0, 3)]])])


def gen_args(g, name, tails):
    if name == ".concat":
        if g.prob(0.6):
            return [notation(g, items(g, hi=4), tails) for _ in range(g.size(1, 3))]
        return [text_value(g) for _ in range(g.size(1, 3))]
    if name == ".length":
        if g.prob(0.25):
            return [["s", word(g, "abé\"\\ \n")]]
        xs = items(g)
        if xs and g.prob(0.3):
            xs[g.int(0, len(xs) - 1)] = g.choice([["v", "Free"], ["f", "f", [["v", "Free"]], []], ["_"]])
        return [notation(g, xs, tails)]
    if name == ".nth":
        xs = items(g)
        n = len(xs)
        i = g.choice([["n", g.int(0, max(0, n - 1))]] * 4 + [["n", n], ["n", n + 1], ["u", "-", ["n", 1]], ["n", -1], ["n", 0],
                     ["o", "-", ["n", n], ["n", 1]], ["n", 0.5]])
        return [i, notation(g, xs, tails)]
    if name in (".sort", ".min", ".max"):
        k = g.choice(["num", "num", "str", "atom", "f", "list", "any"])
        xs = items(g, k)
        return [notation(g, [x for x in xs if k != "any" or x[0] != "b"], tails)]
    if name == ".tail":
        return [notation(g, items(g), tails)]
    if name == ".substring":
        if g.prob(0.7):
            return [["s", word(g, "ab", 3)], ["s", word(g, "ab", 12)]]
        return [text_value(g), text_value(g)]
    if name == ".member":
        xs = items(g, hi=g.choice([5] * 9 + [14]))
        for i in range(len(xs)):
            if g.prob(0.25):
                xs[i] = g.choice([["v", "X"], ["v", "Y"], ["f", "f", [["v", "X"], ["n", 1]], []], ["_"]])
        pat = g.choice([["v", "P"], ["v", "P"], ["f", "f", [["v", "P"], ["v", "Q"]], []], ["_"], A("a"), ["n", 1],
                        g.choice(xs) if xs else A("b"), ["o", "+", ["n", 1], ["n", 1]], ["v", "X"],
                        ["l", [["v", "P"]]], ["c", ["v", "P"], ["v", "Q"]]])
        return [pat, notation(g, xs, tails)]
    if name == ".range":
        return [g.choice([["n", g.int(0, 6)], ["n", g.int(0, g.choice([6, 40]))], ["n", g.int(-2, 0)], ["o", "+", ["n", 1], ["n", 2]], ["n", 2.5]])]
    if name in (".round", ".floor", ".ceil"):
        return [number(g)]
    # type tests
    tg = TermGen(g, vars=["Free", "X"], annots=0.3, wild=True)
    t = tg.term(2)
    if name != ".ground" and g.prob(0.2):
        t = number(g)
    return [t]


def gen(g, tier):
    name = g.weighted([(2 if a in TESTS else 4, a) for a in ACTIONS])
    tails = []
    args = gen_args(g, name, tails)
    if g.prob(0.12) and name not in TESTS:
        args[g.int(0, len(args) - 1)] = odd(g)
    binds = list(tails)
    for i in range(len(args)):
        if g.prob(0.4) and args[i][0] not in "v_":
            binds.append(["V%d" % i, args[i]])
            args[i] = ["v", "V%d" % i]
    result = None
    if name not in TESTS and name != ".member":
        result = g.weighted([(5, ["v", "R"]), (3, "right"), (2, "wrong"), (1, "pattern"), (1, "again"), (1, ["_"])])
    return {"name": name, "args": args, "binds": binds, "result": result, "mode": g.choice(MODES), "pick": g.int(0, 30),
            "prior": g.prob(0.3)}


# -- oracle ---------------------------------------------------------------------------

class Error(Exception):
    pass


class Unspecified(Exception):
    pass


def text(t):
    k = t[0]
    if k == "s":
        return t[1]
    if k == "b":
        return "true" if t[1] else "false"
    if k == "n":
        return sut.num_src(t[1]) if not t[1].is_integer() else str(int(t[1]))
    xs = ref.unlist(t)
    if xs is not None:
        return "[%s]" % ", ".join(map(text, xs))
    if k == "f" and not t[2] and not t[3]:
        return t[1]
    raise Unspecified("text of a structure")


def is_ground(t):
    return not any(x[0] in ("v", "_") for x in ref.subterms(t))


def proper(t):
    xs = ref.unlist(t)
    if xs is None:
        raise Error("not a list")
    return xs


def ordered(xs):
    """Whether all pairs are comparable."""
    return all(ref.canon(x) == ref.canon(y) or ref.compare(x, y) is not None for i, x in enumerate(xs) for y in xs[:i])


def mixed(xs):
    """Booleans and numbers in comparable places."""
    kinds = set()
    for x in xs:
        for y in ref.subterms(x):
            kinds.add(y[0])
    return "b" in kinds


def index(t):
    if t[0] in "sb":
        raise Unspecified("conversion")
    if t[0] != "n":
        raise Error("not a number")
    if not t[1].is_integer():
        raise Unspecified("conversion")
    return int(t[1])


def answers(name, vals):
    """The list of admissible results of a function action: [alternatives for each answer]."""
    if name == ".concat":
        if any(not is_ground(v) for v in vals):
            raise Error("not ground")
        if any(v[0] == "c" and ref.unlist(v) is None for v in vals):
            if any(v[0] not in ("c", "nil") for v in vals):
                raise Unspecified("text of an improper list")
            raise Error("improper")
        if all(ref.unlist(v) is not None for v in vals):
            return [[ref.lst([x for v in vals for x in ref.unlist(v)])]]
        return [[("s", "".join(map(text, vals)))]]
    if name == ".length":
        if vals[0][0] == "s":
            return [[("n", float(len(vals[0][1])))]]
        if vals[0][0] == "f":
            raise Unspecified("length of a structure")
        return [[("n", float(len(proper(vals[0]))))]]
    if name == ".nth":
        if vals[1][0] == "s":
            raise Unspecified("text as list")
        xs, i = proper(vals[1]), index(vals[0])
        if not 0 <= i < len(xs):
            raise Error("out of range")
        return [[xs[i]]]
    if name in (".sort", ".min", ".max", ".tail"):
        if vals[0][0] == "s":
            raise Unspecified("text as list")
        xs = proper(vals[0])
        if name == ".tail":
            if not xs:
                raise Unspecified("tail of []")
            return [[ref.lst(xs[1:])]]
        if name == ".sort" and len(xs) < 2:
            return [[ref.lst(xs)]]
        if not xs:
            raise Error("empty")
        if len(xs) == 1:
            return [[xs[0]]]
        if not all(map(is_ground, xs)):
            raise Error("variables")
        if mixed(xs):
            raise Unspecified("booleans")
        if not ordered(xs):
            raise Unspecified("incomparable") if any(
                ref.compare(x, y) is not None for i, x in enumerate(xs) for y in xs[:i]) else Error("incomparable")

        def less(x, y):
            return ref.canon(x) != ref.canon(y) and ref.compare(x, y) < 0
        if name == ".min":
            return [[x for x in xs if not any(less(y, x) for y in xs)]]
        if name == ".max":
            return [[x for x in xs if not any(less(x, y) for y in xs)]]
        return [("sorted", xs, less)]
    if name == ".substring":
        if not all(map(is_ground, vals)):
            raise Error("not ground")
        n, h = text(vals[0]), text(vals[1])
        return [[("n", float(i))] for i in range(len(h) - len(n) + 1) if h[i:i + len(n)] == n]
    if name == ".range":
        return [[("n", float(i))] for i in range(index(vals[0]))]
    if name in (".round", ".floor", ".ceil"):
        if vals[0][0] in "sb":
            raise Unspecified("conversion")
        if vals[0][0] != "n":
            raise Error("not a number")
        x = vals[0][1]
        lo = math.floor(x)
        if name == ".floor":
            return [[("n", float(lo))]]
        if name == ".ceil":
            return [[("n", float(math.ceil(x)))]]
        d = x - lo
        return [[("n", float(r))] for r in ([lo] if d < 0.5 else [lo + 1])] if d != 0.5 else [[("n", float(lo)), ("n", float(lo + 1))]]
    raise AssertionError(name)


def test(name, t):
    k = t[0]
    if name == ".ground":
        return is_ground(t)
    if k == "b" and name in (".atom", ".literal", ".structure"):
        raise Unspecified("booleans")
    if name == ".number":
        return k == "n"
    if name == ".string":
        return k == "s"
    if name == ".list":
        if k == "c" and ref.unlist(t) is None:
            raise Unspecified("improper list")
        return k in ("c", "nil")
    if name == ".literal":
        return k == "f"
    if name == ".structure":
        return k in ("f", "c", "nil")
    return k == "f" and not t[2] and not t[3]


def linked(t):
    return isinstance(t, list) and (t[:1] == ["c"] or any(linked(x) for x in t))


def admissible(spec, t):
    """Whether t is one of the admissible values of an answer."""
    if isinstance(spec, list):
        return any(ref.alpha_equal((t,), (x,)) for x in spec)
    _, xs, less = spec
    got = ref.unlist(t)
    if got is None or sorted(map(skey, got)) != sorted(map(skey, xs)):
        return False
    return not any(less(got[i + 1], got[i]) for i in range(len(got) - 1))


def skey(t):
    return repr(ref.canon(t)) if t[0] != "f" else repr((t[1], [skey(a) for a in t[2]], sorted(skey(a) for a in t[3])))


def representative(spec):
    if isinstance(spec, list):
        return spec[0]
    import functools
    return ref.lst(sorted(spec[1], key=functools.cmp_to_key(lambda x, y: -1 if spec[2](x, y) else 1 if spec[2](y, x) else 0)))


def to_json(t):
    k = t[0]
    if k in "nsb" or k == "_":
        return list(t)
    if k == "f":
        return ["f", t[1], [to_json(a) for a in t[2]], [to_json(a) for a in t[3]]]
    if k == "c":
        return ["c", to_json(t[1]), to_json(t[2])]
    if k == "nil":
        return ["l", []]
    return ["_"]


def check(case):
    name, mode = case["name"], case["mode"]
    s = {}
    error = None
    try:
        for v, t in case["binds"]:
            s = ref.unify(("v", v), ref.term(t), s)
        vals = [ref.resolve(ref.term(a), s) for a in case["args"]]
    except ref.Skip:
        return Info(False, ["skipped"])
    except ref.RefError:
        return Info(False, ["reference-error"])
    expected = None            # list of (alternatives) ; None: error or failure
    rterm = None
    unspecified = False
    test_like = name in TESTS or name == ".member"
    if name in TESTS:
        try:
            expected = [[]] if test(name, vals[0]) else []
        except Unspecified:
            return Info(False, ["unspecified"])
    elif name == ".member":
        xs = []
        t = vals[1]
        if t[0] == "s":
            return Info(False, ["unspecified"])
        while t[0] == "c":
            xs.append(t[1])
            t = t[2]
        error = None if t == ref.NIL else "improper"
        expected = []
        try:
            for x in xs:
                s1 = ref.unify(ref.term(case["args"][0]), x, s)
                if s1 is not None:
                    expected.append(s1)
        except ref.Skip:
            return Info(False, ["skipped"])
        if any(x[0] == "_" for x in ref.subterms(vals[1])) and any(v[0] == "_" for v in vals[:1]):
            return Info(False, ["wildcards"])
    else:
        try:
            specs = answers(name, vals)
            if name in (".concat", ".substring") and specs and representative(specs[0])[0] in "sn" and \
                    any(linked(t) for t in case["args"] + [t for _, t in case["binds"]]):
                raise Unspecified("text of a linked list")
        except Unspecified:
            unspecified = True
            specs = []
        except Error as err:
            error = str(err)
            specs = []
    # the result argument
    r = case["result"]
    if not test_like and not unspecified:
        values = [representative(sp) for sp in specs]
        if r == "right":
            rterm = to_json(values[case["pick"] % len(values)]) if values else ["n", 3]
        elif r == "wrong":
            rterm = [["n", 99], ["s", "no"], A("no"), ["l", [["n", 99]]], ["b", True]][case["pick"] % 5]
        elif r == "again":
            rterm = case["args"][case["pick"] % len(case["args"])]
        elif r == "pattern":
            v = values[case["pick"] % len(values)] if values else ref.NIL
            rterm = to_json(v)
            if rterm[0] == "c":
                rterm = ["c", rterm[1], ["v", "R"]] if case["pick"] % 2 else ["c", ["v", "R"], rterm[2]]
            elif rterm[0] == "f" and rterm[2]:
                rterm = ["f", rterm[1], [["v", "R"]] + rterm[2][1:], []]
            elif rterm[0] == "n":
                rterm = ["o", "+", rterm, ["n", 0]]
        else:
            rterm = r
        loose = any(not isinstance(sp, list) or len(sp) > 1 for sp in specs)
        if loose and r not in (["v", "R"], ["_"], "wrong"):
            return Info(False, ["ambiguous"])
        if any(not is_ground(v) for v in values) and r not in (["v", "R"], ["_"]):
            return Info(False, ["ambiguous"])
        expected = []
        for sp, v in zip(specs, values):
            try:
                if ref.unify(ref.term(rterm), v, s) is not None:
                    expected.append((sp, ref.unify(ref.term(rterm), v, s)))
            except (ref.Skip, ref.RefError):
                return Info(False, ["skipped"])
    elif rterm is None:
        rterm = ["v", "R"]
    args = case["args"] + ([] if test_like else [rterm])
    call = name + "(" + ", ".join(map(sut.src, args)) + ")"
    vs = []
    for t in args + [t for _, t in case["binds"]]:
        vars_of(t, vs)
    vs = [v for v in vs if v != "R"] + (["R"] if "R" in vs else [])
    rec = ".rec(ans%s)" % "".join(", " + v for v in vs)
    binds = "".join("%s = %s;\n" % (v, sut.src(t)) for v, t in case["binds"])
    prior = "other(1).\nother(2).\n" if case["prior"] else "other(2).\n"
    body = {"step": "%s;\n%s" % (call, rec), "if": "if (%s) { %s } else { .rec(no) }" % (call, rec),
            "for": "for (%s) { %s }" % (call, rec), "not": "if (not %s) { .rec(no) } else { .rec(yes) }" % call,
            "conj": "for (other(_) & %s & other(2)) { %s }" % (call, rec),
            "rule": "for (r(%s)) { %s }" % (", ".join(vs), rec) if vs else "for (r) { %s }" % rec,
            "ctx": "!p(%s)" % ", ".join(vs) if vs else "!p"}[mode]
    source = prior + "%s :- %s.\n" % ("r(%s)" % ", ".join(vs) if vs else "r", call) * (mode == "rule") + \
        "!go.\n+!go <- " + binds + body + ".\n"
    if mode == "ctx":
        source += "+!%s : %s <- %s.\n+!%s <- .rec(no).\n" % (
            "p(%s)" % ", ".join(vs) if vs else "p", call, rec, "p(%s)" % ", ".join("_" for _ in vs) if vs else "p")
    out = sut.run_sources([source])
    got = [t[1:] for _, t in out.trace if t[0][1] == "ans"]
    heads = [t[0][1] for _, t in out.trace if t[0][1] != "ans"]

    def bad(msg):
        raise Violation("%s\n%s\ngot %s%s%s" % (source, msg, [[interp.show(x) for x in t] for t in got], heads or "",
                                                " error: %s" % out.error if out.error else ""))
    if unspecified:
        return Info(False, ["unspecified"])
    if error is not None:
        labels = ["error", name, mode]
        if name == ".member":
            # the answers before the broken tail may be seen
            if not out.error and (mode not in ("if", "step", "not", "ctx") or not expected) and not (mode == "not" and heads == ["no"]):
                if mode in ("for", "rule", "conj"):
                    bad("expected an error: %s" % error)
            return Info(False, labels)
        if got or "yes" in heads:
            bad("expected an error or failure (%s), not an answer" % error)
        return Info(False, labels)
    times = 2 if mode == "conj" and case["prior"] else 1
    # compare the answers
    if mode in ("for", "rule", "conj"):
        want = [e for e in expected for _ in range(times)]
        if out.error is not None:
            bad("unexpected error")
        if len(got) != len(want):
            bad("expected %d answers" % len(want))
    elif not expected:
        if mode == "step":
            if out.error is None or got:
                bad("expected a failure")
        elif out.error is not None or heads != ["no"]:
            bad("expected failure")
        want = []
    elif mode == "not":
        if out.error is not None or heads != ["yes"]:
            bad("expected success")
        want = []
    else:
        if out.error is not None or len(got) != 1:
            bad("expected an answer")
        want = None
    if want is None:
        if not any(same(case, vs, got[0], e, name) for e in expected):
            bad("expected one of %s" % [describe(e) for e in expected])
    else:
        left = list(want)
        for t in got if mode in ("for", "rule", "conj") else []:
            for e in left:
                if same(case, vs, t, e, name):
                    left.remove(e)
                    break
            else:
                bad("answer %s is not among the expected %s" % ([interp.show(x) for x in t], [describe(e) for e in want]))
    big = any(v[0] in ("c",) or v[0] == "s" and v[1] or v[0] == "n" and v[1] not in (0, 1) or v[0] == "f" for v in vals)
    return Info(bool(expected) and big, [name, mode, "%s answers" % min(len(expected), 3),
                                         "result %s" % (r if isinstance(r, str) else "free" if r else "none")])


def describe(e):
    return str(e)[:200]


def same(case, vs, t, e, name):
    """Whether the recorded variables t agree with the expected answer e."""
    if name in TESTS:
        return True
    if name == ".member":
        return ref.alpha_equal(tuple(t), tuple(ref.resolve(("v", v), e) for v in vs))
    sp, s = e
    for v, x in zip(vs, t):
        if v == "R" and case["result"] == ["v", "R"]:
            if not admissible(sp, x):
                return False
        elif not ref.alpha_equal((x,), (ref.resolve(("v", v), s),)):
            return False
    return True


# -- random values ------------------------------------------------------------------

def gen_random(g, tier):
    a = g.int(-5, 5)
    return {"a": a, "b": a + g.int(-1, 4), "n": g.int(1, 12)}


def check_random(case):
    a, b = case["a"], case["b"]
    out = sut.run_sources(["!go. +!go <- for (.range(%d, I)) { .random(X); .rec(r, X); .randint(%s, %s, Y); .rec(i, Y) }." % (
        case["n"], sut.num_src(a), sut.num_src(b))])
    if b < a:
        if out.error is None:
            raise Violation(".randint(%d, %d) did not fail" % (a, b))
        return Info(False, ["empty"])
    if out.error is not None or len(out.trace) != 2 * case["n"]:
        raise Violation("unexpected outcome %r %r" % (out.error, out.trace))
    seen = set()
    for _, (kind, x) in out.trace:
        if x[0] != "n":
            raise Violation("not a number: %r" % (x,))
        if kind[1] == "r" and not 0 <= x[1] < 1:
            raise Violation(".random gave %r" % x[1])
        if kind[1] == "i":
            if not (a <= x[1] <= b and x[1].is_integer()):
                raise Violation(".randint(%d, %d) gave %r" % (a, b, x[1]))
            seen.add(x[1])
    return Info(b > a, ["%d values" % len(seen)])


FACETS = [Facet("functions", strategy(gen), check, quick=6000, thorough=150000),
          Facet("random", strategy(gen_random), check_random, quick=60, thorough=3000)]
