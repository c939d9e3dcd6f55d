"""Reference semantics, written independently of the code under test.

Terms are tuples: ('n',float) ('s',str) ('b',bool) ('v',key) ('_',)
('f',functor,args,annots) ('c',head,tail) ('nil',) ('u',op,x) ('o',op,l,r).
Substitutions are dicts that are never mutated after creation.
"""
import itertools, math


class RefError(Exception):
    """The reference semantics says: this step is an error."""


class Skip(Exception):
    """Outside of the domain the reference covers (e.g. cyclic terms)."""


NIL = ("nil",)


def term(t, scope=None):
    """JSON term -> reference term; scope prefixes variable names."""
    k = t[0]
    if k == "n":
        return ("n", float(t[1]))
    if k in "sb":
        return (k, t[1])
    if k == "v":
        return ("v", t[1] if scope is None else (scope, t[1]))
    if k == "_":
        return ("_",)
    if k == "f":
        return ("f", t[1], tuple(term(a, scope) for a in t[2]),
                dedupe(term(a, scope) for a in t[3]))
    if k == "l":
        r = NIL
        for a in reversed(t[1]):
            r = ("c", term(a, scope), r)
        return r
    if k == "c":
        return ("c", term(t[1], scope), term(t[2], scope))
    if k == "u":
        return ("u", t[1], term(t[2], scope))
    if k == "o":
        return ("o", t[1], term(t[2], scope), term(t[3], scope))
    raise AssertionError(t)


def dedupe(ts):
    """Annotations form a set."""
    seen, res = set(), []
    for t in ts:
        c = canon(t)
        if c not in seen:
            seen.add(c)
            res.append(t)
    return tuple(res)


def strip(t):
    """Removes all annotations."""
    k = t[0]
    if k == "f":
        return ("f", t[1], tuple(strip(a) for a in t[2]), ())
    if k == "c":
        return ("c", strip(t[1]), strip(t[2]))
    return t


def lst(items):
    r = NIL
    for a in reversed(list(items)):
        r = ("c", a, r)
    return r


def unlist(t):
    items = []
    while t[0] == "c":
        items.append(t[1])
        t = t[2]
    return items if t == NIL else None


def subterms(t):
    yield t
    k = t[0]
    if k == "f":
        for a in t[2] + t[3]:
            yield from subterms(a)
    elif k in ("c",):
        yield from subterms(t[1])
        yield from subterms(t[2])
    elif k == "u":
        yield from subterms(t[2])
    elif k == "o":
        yield from subterms(t[2])
        yield from subterms(t[3])


def variables(t):
    return {x[1] for x in subterms(t) if x[0] == "v"}


# -- arithmetic ------------------------------------------------------------

def num(t):
    if t[0] != "n":
        raise RefError("not a number: %r" % (t,))
    return t[1]


def arith(op, a, b):
    try:
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            r = a / b
        elif op == "div":
            r = a // b
        elif op == "mod":
            r = a % b
        elif op == "**":
            r = a ** b
        else:
            raise AssertionError(op)
    except (ZeroDivisionError, OverflowError):
        raise RefError("arithmetic")
    if isinstance(r, complex):
        raise RefError("complex")
    return r


ARITH = {"+", "-", "*", "/", "div", "mod", "**"}
COMPARE = {"<", "<=", ">", ">=", "==", "\\=="}


def canon(t):
    """Canonical hashable form: annotations as a set, -0.0 as 0.0."""
    k = t[0]
    if k == "n":
        return ("n", t[1] + 0.0 if t[1] else 0.0)
    if k == "f":
        return ("f", t[1], tuple(canon(a) for a in t[2]), frozenset(canon(a) for a in t[3]))
    if k == "c":
        # iterative along the tail
        items = []
        while t[0] == "c":
            items.append(canon(t[1]))
            t = t[2]
        r = canon(t)
        for a in reversed(items):
            r = ("c", a, r)
        return r
    return t


def compare(a, b):
    """-1/0/1 in the total order, or None if not ordered."""
    if a[0] == b[0] and a[0] in ("n", "s", "b"):
        return (a[1] > b[1]) - (a[1] < b[1])
    la, lb = unlist(a), unlist(b)
    if la is not None and lb is not None:
        return cmp_seq(la, lb)
    if a[0] == "f" and b[0] == "f":
        if not a[2] and not a[3] and not b[2] and not b[3]:
            return (a[1] > b[1]) - (a[1] < b[1])
        if a[1] == b[1] and len(a[2]) == len(b[2]):
            return cmp_seq(a[2], b[2])
    return None


def cmp_seq(xs, ys):
    for x, y in zip(xs, ys):
        if canon(x) == canon(y):
            continue
        return compare(x, y)
    return (len(xs) > len(ys)) - (len(xs) < len(ys))


def do_compare(op, a, b):
    if op == "==":
        return canon(a) == canon(b)
    if op == "\\==":
        return canon(a) != canon(b)
    c = compare(a, b)
    if c is None:
        raise RefError("not comparable")
    return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]


# -- substitutions -----------------------------------------------------------

def walk(t, s):
    """Dereferences and evaluates the top of a term."""
    while t[0] == "v" and t[1] in s:
        t = s[t[1]]
    if t[0] == "u":
        x = walk(t[2], s)
        if t[1] == "not":
            if x[0] != "b":
                raise RefError("not a boolean")
            return ("b", not x[1])
        return ("n", -num(x) if t[1] == "-" else +num(x))
    if t[0] == "o":
        a, b = walk(t[2], s), walk(t[3], s)
        if t[1] in ARITH:
            return ("n", arith(t[1], num(a), num(b)))
        if t[1] in COMPARE:
            return ("b", do_compare(t[1], ground(a, s), ground(b, s)))
        if t[1] in "&|":
            if a[0] != "b" or b[0] != "b":
                raise RefError("not a boolean")
            return ("b", (a[1] and b[1]) if t[1] == "&" else (a[1] or b[1]))
        raise Skip("operator %s" % t[1])
    return t


LIMIT = 20000        # nodes of a fully instantiated term


def resolve(t, s, depth=200, budget=None):
    """Full instantiation; free variables stay."""
    budget = budget or [LIMIT]
    budget[0] -= 1
    if depth < 0 or budget[0] <= 0:
        raise Skip("cyclic or too large")
    t = walk(t, s)
    k = t[0]
    if k == "f":
        return ("f", t[1], tuple(resolve(a, s, depth - 1, budget) for a in t[2]),
                dedupe(resolve(a, s, depth - 1, budget) for a in t[3]))
    if k == "c":
        return ("c", resolve(t[1], s, depth - 1, budget), resolve(t[2], s, depth - 1, budget))
    return t


def ground(t, s):
    r = resolve(t, s)
    if any(x[0] in ("v", "_") for x in subterms(r)):
        raise RefError("not ground")
    return r


def occurs(v, t, s, depth=200, seen=None):
    if depth < 0:
        raise Skip("too deep")
    seen = set() if seen is None else seen
    while t[0] == "v" and t[1] in s:
        if t[1] in seen:
            return False
        seen.add(t[1])
        t = s[t[1]]
    if t[0] == "v":
        return t[1] == v
    k = t[0]
    if k == "f":
        return any(occurs(v, a, s, depth - 1, seen) for a in t[2] + t[3])
    if k == "c":
        return occurs(v, t[1], s, depth - 1, seen) or occurs(v, t[2], s, depth - 1, seen)
    if k == "u":
        return occurs(v, t[2], s, depth - 1, seen)
    if k == "o":
        return occurs(v, t[2], s, depth - 1, seen) or occurs(v, t[3], s, depth - 1, seen)
    return False


def bind(v, t, s):
    if occurs(v, t, s):
        raise Skip("occurs check")
    r = dict(s)
    r[v] = t
    return r


def unify(a, b, s):
    """Most general unifier extending s, or None. Annotations are ignored."""
    a, b = walk(a, s), walk(b, s)
    if a[0] == "_" or b[0] == "_":
        return s
    if a[0] == "v" and b[0] == "v" and a[1] == b[1]:
        return s
    if a[0] == "v":
        return bind(a[1], b, s)
    if b[0] == "v":
        return bind(b[1], a, s)
    if a[0] != b[0]:
        return None
    k = a[0]
    if k in ("n", "s", "b"):
        return s if a[1] == b[1] else None
    if k == "nil":
        return s
    if k == "c":
        s = unify(a[1], b[1], s)
        return None if s is None else unify(a[2], b[2], s)
    if k == "f":
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            return None
        for x, y in zip(a[2], b[2]):
            s = unify(x, y, s)
            if s is None:
                return None
        return s
    raise AssertionError(a)


def unify_annotated(a, b, s):
    """All substitutions under which pattern a matches b including annotations."""
    if a[0] != "f":
        r = unify(a, b, s)
        if r is not None:
            yield r
        return
    b = walk(b, s)
    if b[0] in ("v", "_"):
        r = unify(a, b, s)
        if r is not None:
            yield r
        return
    s = unify(a, b, s)
    if s is None:
        return
    yield from match_annots(a[3], b[3], s)


def match_annots(left, right, s):
    if not left:
        yield s
        return
    for i, r in enumerate(right):
        for s1 in unify_annotated(left[0], r, s):
            yield from match_annots(left[1:], right[:i] + right[i + 1:], s1)


def numbered(ts, s):
    """Instantiates several terms and numbers their free variables by occurrence."""
    names = {}

    def go(t):
        k = t[0]
        if k == "v":
            return ("v", names.setdefault(t[1], len(names)))
        if k == "f":
            return ("f", t[1], tuple(go(a) for a in t[2]), tuple(go(a) for a in t[3]))
        if k == "c":
            return ("c", go(t[1]), go(t[2]))
        return t
    return tuple(go(resolve(t, s)) for t in ts)


def alpha_equal(xs, ys):
    """Equality of two tuples of terms up to a bijective renaming of variables
    and the order of annotations."""
    def eq(a, b, f, g):
        if a[0] != b[0]:
            return
        k = a[0]
        if k == "v":
            if f.get(a[1], b[1]) == b[1] and g.get(b[1], a[1]) == a[1]:
                yield {**f, a[1]: b[1]}, {**g, b[1]: a[1]}
        elif k == "n":
            if a[1] == b[1]:
                yield f, g
        elif k == "f":
            if a[1] == b[1] and len(a[2]) == len(b[2]) and len(a[3]) == len(b[3]):
                for f1, g1 in seq(a[2], b[2], f, g):
                    if not a[3]:
                        yield f1, g1
                    else:
                        for p in itertools.permutations(b[3]):
                            yield from seq(a[3], p, f1, g1)
        elif k == "c":
            yield from seq(a[1:], b[1:], f, g)
        else:
            if a == b:
                yield f, g

    def seq(xs, ys, f, g):
        if not xs:
            yield f, g
            return
        for f1, g1 in eq(xs[0], ys[0], f, g):
            yield from seq(xs[1:], ys[1:], f1, g1)
    if len(xs) != len(ys):
        return False
    return any(True for _ in seq(tuple(xs), tuple(ys), {}, {}))
