"""C07: expressions evaluate by the documented operators and precedence."""
import math
from .. import ref, sut
from ..astgen import Tok, text
from ..core import Facet, Info, Violation
from ..gen import strategy

RULE = ("Random expression trees over all operators with numbers, booleans, strings, atoms and lists (a few operands of the "
        "wrong kind, a few unbound variables), and chains of the same or related operators on small numbers, written with minimal or redundant parentheses and chained comparisons. Every "
        "tree is run with all operands literal, all operands variables, a random mixture, and all but one of one kind; variables are bound by "
        "unification, by an alias chain, by a belief, by a plan parameter or by a loop. Oracle: an independent evaluator on "
        "the tree; all versions must give its value or all must fail with an error (at load or run time). cond: boolean trees "
        "as conditions of if, while, plan contexts, rules and test formulas. Non-trivial: at least two operators.")
ASSUMPTIONS = ["+ - * / are IEEE double operations; div and mod round towards minus infinity; ** follows C pow, non-real results "
               "are errors", "conditions: trees whose strict evaluation fails are left out, & and | may skip their right operand"]


def num_leaf(g):
    return ["n", g.choice([0, 1, 2, 3, 4, 5, 7, 10, 0.5, 0.25, 1.5, 100, 1e10])]


def wrong(g):
    return g.choice([["b", True], ["s", "1"], ["f", "a", [], []], ["l", [["n", 1]]], ["f", "f", [["n", 1]], []], ["n", 1],
                     ["s", "a"], ["l", []], ["c", ["n", 1], ["l", [["n", 2]]]]])


class Gen:
    def __init__(self, g, bad):
        self.g, self.bad = g, bad

    def num(self, d):
        g = self.g
        if g.prob(self.bad):
            return wrong(g) if g.prob(0.8) else ["v", "Unbound"]
        if d <= 0 or g.prob(0.15):
            return num_leaf(g)
        if g.prob(0.12):
            return self.chain()
        k = g.int(0, 11)
        if k < 2:
            return ["u", g.choice("-+"), self.num(d - 1)]
        if k < 8:
            return ["o", g.choice(["+", "-", "*"]), self.num(d - 1), self.num(d - 1)]
        op = g.choice(["/", "div", "mod", "**"])
        if op == "**":
            base = self.num(d - 1) if g.prob(0.5) else g.choice([["n", 2], ["n", 3], ["n", 0], ["u", "-", ["n", 2]]])
            e = g.choice([["n", 2], ["n", 3], ["n", 0], ["n", 1], ["u", "-", ["n", 1]], ["n", 0.5], ["o", "**", ["n", 2], ["n", 2]],
                          ["u", "-", ["n", 2]]])
            return ["o", op, base, e]
        return ["o", op, self.num(d - 1), self.num(d - 1) if g.prob(0.4) else g.choice(
            [["n", 2], ["n", 3], ["u", "-", ["n", 3]], ["n", 0.5], ["n", 4]])]

    def chain(self):
        """Several applications of related operators to simple operands, grouped either way."""
        g = self.g
        ops = g.choice(["mod", "mod", "div", "/", "+", "-", "*", "**", "+-", "-+", ["mod", "div"], ["*", "mod"], ["*", "/"], ["*", "div"],
                        ["+", "mod"], ["+", "*"], ["-", "*"]])
        ops = [ops] if isinstance(ops, str) and ops in ("mod", "div", "**") else list(ops)
        operand = lambda: g.choice([["n", g.int(0, 12)], ["n", g.int(1, 5)], ["u", "-", ["n", g.int(1, 9)]], ["n", g.choice([0.5, 1.5, 0.1, 1e10])]])
        t = operand()
        for i in range(g.size(2, 3)):
            op = g.choice(ops)
            o = ["n", g.int(0, 3)] if op == "**" else operand()
            t = ["o", op, t, o] if g.prob(0.65) else ["o", op, o, t]
            if g.prob(0.1):
                t = ["u", g.choice("-+"), t]
        return t

    def comparable(self, d):
        g = self.g
        k = g.int(0, 9)
        if k < 5:
            return self.num(d), self.num(d)
        if k < 6:
            return tuple(["s", g.choice(["", "a", "b", "ab", "B", "10", "9"])] for _ in "12")
        if k < 7:
            return tuple(["f", g.choice(["a", "b", "ab"]), [], []] for _ in "12")
        if k < 8:
            return tuple(["l", [num_leaf(g) for _ in range(g.size(0, 2))]] for _ in "12")
        return g.choice([num_leaf(g), wrong(g)]), wrong(g)

    def comp(self, d):
        g = self.g
        l, r = self.comparable(d)
        ops = ["==", "\\==", "<", "<=", ">", ">="]
        op = g.choice(ops)
        c = ["o", op, l, r]
        if g.prob(0.25):
            for _ in range(g.size(1, 2)):
                r, prev = self.num(d), r
                c = ["o", "&", c, ["o", g.choice(ops), prev, r]]
        return c

    def boolean(self, d):
        g = self.g
        if g.prob(self.bad):
            return wrong(g)
        if d <= 0:
            return ["b", bool(g.int(0, 1))]
        k = g.int(0, 9)
        if k < 4:
            return self.comp(d - 1)
        if k < 5:
            return ["b", bool(g.int(0, 1))]
        if k < 6:
            return ["u", "not", self.boolean(d - 1)]
        return ["o", g.choice("&|"), self.boolean(d - 1), self.boolean(d - 1)]


def leaves(t):
    """Operand positions of operators (everything that is not an operator node)."""
    if t[0] == "u":
        return leaves(t[2])
    if t[0] == "o":
        return leaves(t[2]) + leaves(t[3])
    return [t]


def with_vars(t, pick, bound):
    """Replaces the chosen operands by variables; bound collects their values."""
    if t[0] == "u":
        return ["u", t[1], with_vars(t[2], pick, bound)]
    if t[0] == "o":
        l = with_vars(t[2], pick, bound)
        return ["o", t[1], l, with_vars(t[3], pick, bound)]
    if t[0] == "v":
        return t
    i = pick[0]
    pick[0] += 1
    if not pick[1][i]:
        return t
    for v, other in bound:
        if other is t:
            return ["v", v]      # the shared operand of chained comparisons
    v = "V%d" % i
    bound.append([v, t])
    return ["v", v]


def n_ops(t):
    return 1 + n_ops(t[2]) if t[0] == "u" else 1 + n_ops(t[2]) + n_ops(t[3]) if t[0] == "o" else 0


def masks(g, n):
    """Which operands are variables: none, all, some, exactly one, all but one."""
    one = g.int(0, n - 1)
    odd = g.int(0, 1)
    return [0] * n, [1] * n, [g.int(0, 1) for _ in range(n)], [int(i == one) ^ odd for i in range(n)]


def gen_value(g, tier):
    e = Gen(g, g.choice([0, 0, 0.05, 0.15]))
    if g.prob(0.05):
        t = num_leaf(g)
        for _ in range(g.size(5, 40)):
            t = ["o", g.choice("+-"), t, num_leaf(g)]
    else:
        t = e.num(g.int(1, 4)) if g.prob(0.6) else e.boolean(g.int(1, 4))
    n = len(leaves(t))
    forms = []
    for mask in masks(g, n):
        bound = []
        t2 = with_vars(t, [0, mask], bound)
        forms.append({"text": text(Tok(g, g.choice([0, 0, 0.2])).expr(t2, 0)), "bound": bound,
                      "how": g.choice(["unify", "alias", "belief", "param", "loop"])})
    return {"tree": t, "forms": forms}


def bind(form, inner):
    """A program that runs *inner* with the variables of the form bound."""
    vs, how = form["bound"], form["how"]
    names = [v for v, _ in vs]
    if not vs:
        return "!go.\n+!go <- %s.\n" % inner
    if how == "unify":
        return "!go.\n+!go <- %s;\n%s.\n" % ("; ".join("%s = %s" % (v, sut.src(t)) for v, t in vs), inner)
    if how == "alias":
        return "!go.\n+!go <- %s;\n%s;\n%s.\n" % ("; ".join("%s = A%s" % (v, v) for v in names),
                                                 "; ".join("A%s = %s" % (v, sut.src(t)) for v, t in vs), inner)
    if how == "belief":
        return "vals(%s).\n!go.\n+!go <- ?vals(%s);\n%s.\n" % (", ".join(sut.src(t) for _, t in vs), ", ".join(names), inner)
    if how == "param":
        return "!go(%s).\n+!go(%s) <- %s.\n" % (", ".join(sut.src(t) for _, t in vs), ", ".join(names), inner)
    return "!go.\n+!go <- %s %s %s.\n" % (
        " ".join("for (.member(%s, [%s])) {" % (v, sut.src(t)) for v, t in vs), inner, "}" * len(vs))


def evaluate(t):
    """('n', x) / ('b', x) / other term, or None for an error."""
    try:
        return ref.resolve(ref.term(t), {})
    except ref.RefError:
        return None


def same_value(a, b):
    if a[0] == b[0] == "n":
        return a[1] == b[1] or math.isnan(a[1]) and math.isnan(b[1])
    return ref.canon(a) == ref.canon(b)


def check_value(case):
    t = case["tree"]
    want = evaluate(t)
    if want is not None and ("Unbound" in str(t) or want[0] == "v"):
        want = None if t[0] in "uo" and t[0] != "v" else want
    for form in case["forms"]:
        for inner in (".rec(%s)" % form["text"], "Result = (%s); .rec(Result)" % form["text"],
                      "+result(%s); ?result(Result); .rec(Result)" % form["text"]):
            prog = bind(form, inner)
            out = sut.run_sources([prog])
            if want is None:
                if out.error is None or out.trace:
                    if t[0] in "uo":
                        raise Violation("%s\nexpected an error, got %r" % (prog, out.trace))
            elif t[0] == "v":
                pass
            else:
                if out.error is not None:
                    raise Violation("%s\nexpected %r, failed: %s %s" % (
                        prog, want, out.error, [r.getMessage() for r in out.log.errors()]))
                if len(out.trace) != 1 or not same_value(out.trace[0][1][0], want):
                    raise Violation("%s\nexpected %r, got %r" % (prog, want, out.trace))
    return Info(n_ops(t) >= 2, ["error" if want is None else "number" if want[0] == "n" else "boolean" if want[0] == "b" else "other"])


def gen_cond(g, tier):
    e = Gen(g, 0)
    t = e.boolean(g.int(1, 4))
    n = len(leaves(t))
    forms = []
    for mask in masks(g, n):
        bound = []
        t2 = with_vars(t, [0, mask], bound)
        forms.append({"text": text(Tok(g, g.choice([0, 0, 0.2])).expr(t2, 0)), "bound": bound,
                      "how": g.choice(["unify", "alias", "belief", "param"])})
    return {"tree": t, "forms": forms}


def check_cond(case):
    t = case["tree"]
    if t[0] not in "uob":
        return Info(False)
    want = evaluate(t)
    if want is None or want[0] != "b":
        return Info(False, ["strict error"])
    yes = want[1]
    for form in case["forms"]:
        e = form["text"]
        names = [v for v, _ in form["bound"]]
        args = "(%s)" % ", ".join(names) if names else ""
        inner = ("if (%s) { .rec(yes, 1) } else { .rec(no, 1) }; if (not (%s)) { .rec(no, 2) } else { .rec(yes, 2) }; "
                 "while ((%s) & not stop) { +stop; .rec(yes, 3) }; !plan%s; !neg%s; if (rule%s) { .rec(yes, 6) } else { .rec(no, 6) }; "
                 "for (%s) { .rec(yes, 7) }; .rec(mid, 0); (%s); .rec(yes, 8)" % (e, e, e, args, args, args, e, e))
        prog = "rule%s :- %s.\n" % (args, e) + bind(form, inner) + \
            "+!plan%s : %s <- .rec(yes, 4).\n+!plan%s <- .rec(no, 4).\n" % (args, e, args) + \
            "+!neg%s : not (%s) <- .rec(no, 5).\n+!neg%s <- .rec(yes, 5).\n" % (args, e, args)
        out = sut.run_sources([prog])
        got = [(x[0][1], int(x[1][1])) for _, x in out.trace]
        tag = "yes" if yes else "no"
        # Answers of a disjunction may be repeated in a loop.
        seven = [x for x in got if x == ("yes", 7)]
        expect = [(tag, 1), (tag, 2)] + ([("yes", 3)] if yes else []) + [(tag, 4), (tag, 5), (tag, 6)] + seven + [("mid", 0)]
        if yes:
            expect.append(("yes", 8))
        if got != expect or bool(seven) != yes or (out.error is None) != yes:
            raise Violation("%s\nexpected %r, got %r (%r %s)" % (prog, expect, got, out.error,
                                                                [r.getMessage() for r in out.log.errors()]))
    return Info(n_ops(t) >= 2, ["true" if yes else "false"])


FACETS = [
    Facet("value", strategy(gen_value), check_value, quick=700, thorough=30000),
    Facet("cond", strategy(gen_cond), check_cond, quick=400, thorough=20000),
]
