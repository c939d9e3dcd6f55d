"""Random agent programs (JSON form, see interp.py)."""

VARS = ["X", "Y", "Z", "U", "V"]
# functor -> argument types ("a": any, "n": number); the order is the rank used for belief handlers
PREDS = {"p": "a", "q": "aa", "n": "n", "m": "an", "t": ""}
RANK = ["t", "p", "q", "n", "m"]
ATOM = ["a", "b", "c"]


def A(name):
    return ["f", name, [], []]


def lit(name, *args):
    return ["f", name, list(args), []]


class Scope:
    def __init__(self, bound=(), num=()):
        self.bound, self.num = set(bound), set(num)

    def copy(self):
        return Scope(self.bound, self.num)

    def bind(self, v, num=False):
        if v not in self.bound:
            self.bound.add(v)
            if num:
                self.num.add(v)


class PG:
    def __init__(self, g, **knobs):
        self.g = g
        k = dict(rich=0.3, annots=0.0, wild=0.07, rules=True, preds=PREDS, risky=0.02, acts=True, vars=VARS,
                 depth=2, handlers=False)
        k.update(knobs)
        self.k = k
        self.preds = dict(k["preds"])
        self.rule_preds = {}
        self.goals = []          # (name, arity) callable at present
        self.tests = []
        self.queries = None
        self.rank_min = 0        # handlers may only touch higher ranks

    # terms

    def num(self):
        return ["n", self.g.choice([0, 1, 2, 3, 1, 2])]

    def value(self, depth=1):
        g = self.g
        if depth > 0 and g.prob(self.k["rich"]):
            k = g.choice(["s", "list", "lit", "num", "bool", "cons"])
            if k == "s":
                return ["s", g.choice(["", "a", "x y"])]
            if k == "list":
                return ["l", [self.value(depth - 1) for _ in range(g.size(0, 2))]]
            if k == "cons":
                return ["c", self.value(0), ["l", [self.value(0) for _ in range(g.size(0, 1))]]]
            if k == "lit":
                return lit(g.choice(["f", "h"]), *[self.value(depth - 1) for _ in range(g.size(1, 2))])
            if k == "bool":
                return ["b", bool(g.int(0, 1))]
        return self.num() if g.prob(0.35) else A(g.choice(ATOM))

    def typed_value(self, t):
        return self.num() if t == "n" else self.value()

    def annots(self, vars=False, scope=None):
        g = self.g
        if not g.prob(self.k["annots"]):
            return []
        res = []
        for _ in range(g.size(1, 2)):
            if vars and g.prob(0.35):
                v = g.choice(self.k["vars"])
                res.append(lit("src", ["v", v]) if g.prob(0.8) else ["v", v])
                if scope:
                    scope.bind(v)
            else:
                res.append(g.choice([A("x"), A("y"), lit("src", A("a")), lit("src", A("b"))]))
        return res

    def ground_arg(self, t, scope):
        """A term that is ground in scope."""
        g = self.g
        if g.prob(self.k["risky"]):
            return ["v", g.choice(self.k["vars"])]
        nums = sorted(scope.num)
        bound = sorted(scope.bound)
        if t == "n":
            if nums and g.prob(0.7):
                v = ["v", g.choice(nums)]
                if g.prob(0.4):
                    return ["o", g.choice(["+", "-", "*"]), v, self.num()]
                return v
            return self.num()
        if bound and g.prob(0.55):
            v = ["v", g.choice(bound)]
            if g.prob(0.2 * bool(self.k["rich"])):
                return g.choice([lit("f", v), ["l", [v, A("a")]], ["c", v, ["l", []]]])
            return v
        return self.value()

    def pattern_arg(self, t, scope):
        g = self.g
        r = g.int(0, 99)
        bound = sorted(scope.bound if t == "a" else scope.num)
        if r < 45:
            v = g.choice(self.k["vars"])
            return ["v", v]
        if r < 65 and bound:
            return ["v", g.choice(bound)]
        if r < 65 + int(100 * self.k["wild"]):
            return ["_"]
        if r < 80 and t == "a" and g.prob(self.k["rich"]):
            return g.choice([lit("f", ["v", g.choice(self.k["vars"])]),
                             ["c", ["v", g.choice(self.k["vars"])], ["v", g.choice(self.k["vars"])]],
                             ["l", [["v", g.choice(self.k["vars"])]]]])
        return self.typed_value(t)

    def pattern(self, name, types, scope):
        t = lit(name, *[self.pattern_arg(x, scope) for x in types])
        t[3] = self.annots(True)
        return t

    def bind_pattern(self, t, types, scope):
        from .gen import vars_of
        for a, x in zip(t[2], types):
            if a[0] == "v":
                scope.bind(a[1], x == "n")
            else:
                for v in vars_of(a):
                    scope.bind(v)
        for a in t[3]:
            for v in vars_of(a):
                scope.bind(v)

    # queries

    def literal_query(self, scope):
        g = self.g
        table = list(self.preds.items()) + list(self.rule_preds.items()) * 2
        name, types = g.choice(table)
        t = self.pattern(name, types, scope)
        self.bind_pattern(t, types, scope)
        return ["lit", t]

    def arith(self, scope):
        g = self.g
        nums = sorted(scope.num)
        x = ["v", g.choice(nums)] if nums and g.prob(0.8) else self.num()
        if g.prob(0.3):
            return ["o", g.choice(["+", "-", "*"]), x, self.num()]
        return x

    def query(self, scope, depth=None):
        g = self.g
        if depth is None:
            depth = self.k["depth"]
        if depth > 0:
            r = g.int(0, 99)
            if r < 35:
                a = self.query(scope, depth - 1)
                return ["and", a, self.query(scope, depth - 1)]
            if r < 45:
                s1, s2 = scope.copy(), scope.copy()
                q = ["or", self.query(s1, depth - 1), self.query(s2, depth - 1)]
                scope.bound |= s1.bound & s2.bound
                scope.num |= s1.num & s2.num
                return q
            if r < 55:
                return ["not", self.query(scope.copy(), depth - 1)]
        r = g.int(0, 99)
        if r < 55:
            return self.literal_query(scope)
        if r < 70:
            if g.prob(0.6):
                return ["cmp", g.choice(["<", "<=", ">", ">=", "==", "\\=="]), self.arith(scope), self.arith(scope)]
            return ["cmp", g.choice(["==", "\\=="]), self.ground_arg("a", scope), self.ground_arg("a", scope)]
        if r < 85:
            l = ["v", g.choice(self.k["vars"])]
            k = g.int(0, 3)
            if k == 0:
                rt = self.ground_arg("a", scope)
            elif k == 1:
                rt = ["v", g.choice(self.k["vars"])]
            elif k == 2:
                rt = self.arith(scope)
            else:
                rt = self.pattern_arg("a", scope)
            from .gen import vars_of
            if rt[0] == "v" and rt[1] in scope.num or rt[0] in "no":
                scope.bind(l[1], True)
            elif all(v in scope.bound for v in vars_of(rt)) and rt != ["_"]:
                scope.bind(l[1])
            return ["unify", l, rt]
        if r < 95 and self.k["acts"]:
            v = g.choice(self.k["vars"])
            if g.prob(0.5):
                q = ["act", ".range", [["n", g.size(0, 3)], ["v", v]]]
                scope.bind(v, True)
            else:
                items = [self.ground_arg("a", scope) for _ in range(g.size(0, 3))]
                if items and g.prob(0.25):
                    items.insert(g.int(0, len(items)), g.choice(items))
                l = ["l", items]
                if items and g.prob(0.3):
                    l = ["c", items[0], ["l", items[1:]]]
                q = ["act", ".member", [["v", v], l]]
                scope.bind(v)
            return q
        return [g.choice(["true", "true", "false"])]

    def rule(self, name, arity):
        """A range-restricted rule (mostly)."""
        g = self.g
        scope = Scope()
        body = self.query(scope)
        args = []
        for _ in range(arity):
            b = sorted(scope.bound)
            if b and g.prob(0.85):
                args.append(["v", g.choice(b)])
            elif g.prob(0.7):
                args.append(self.value())
            else:
                args.append(["v", g.choice(self.k["vars"])])
        return [lit(name, *args), body]

    def rules(self, n):
        """Stratified rules for predicates r0, r1, ... ; later ones may use earlier ones."""
        g = self.g
        res = []
        for i in range(n):
            arity = g.int(1, 2)
            name = "r%d" % i
            k = g.size(1, 2) if g.prob(0.95) else g.int(4, 8)
            rs = [self.rule(name, arity) for _ in range(k)]
            if g.prob(0.15):
                args = [g.choice([["v", "X"], ["v", "X"], ["v", "Y"], ["_"], lit("f", ["v", "X"]), ["c", ["v", "X"], ["v", "T"]],
                                  self.value(0)]) for _ in range(arity)]
                args[g.int(0, arity - 1)] = ["v", g.choice(["X", "Y"])]
                head = lit(name, *args)
                if not self.k["annots"] and g.prob(0.2):
                    # only the annotation has a variable
                    head = ["f", name, [self.value(0) for _ in args] if g.prob(0.6) else args, [lit("source", ["v", "Z"])]]
                rs.append([head, ["implicit"]])
            res += rs
            self.rule_preds[name] = "a" * arity
        return res

    def beliefs(self, n):
        g = self.g
        res = []
        for _ in range(n + g.size(0, 0)):
            name = g.choice(list(self.preds))
            t = lit(name, *[self.typed_value(x) for x in self.preds[name]])
            t[3] = self.annots()
            res.append(t)
        return res

    # bodies

    def rec(self, scope, tag=None):
        g = self.g
        args = [["v", v] for v in self.k["vars"][:g.int(1, 3)]]
        b = sorted(scope.bound)
        if b and g.prob(0.5):
            args = [["v", g.choice(b)]]
        return ["rec", [A(tag or "e%d" % g.int(0, 9))] + args]

    def update_pred(self):
        names = [n for n in self.preds if n not in RANK or RANK.index(n) >= self.rank_min]
        return self.g.choice(names) if names else None

    def formula(self, scope, depth):
        g = self.g
        w = self.k.get("weights") or {}
        opts = [(w.get("rec", 22), "rec"), (w.get("q", 14), "q"), (w.get("?", 8), "?")]
        if self.update_pred():
            opts += [(w.get("+", 10), "+"), (w.get("-", 8), "-"), (w.get("-+", 5), "-+")]
        if self.goals:
            opts += [(w.get("!", 12), "!"), (w.get("!!", 3), "!!")]
        if depth > 0:
            opts += [(w.get("if", 12), "if"), (w.get("while", 5), "while"), (w.get("for", 9), "for")]
        k = g.weighted([o for o in opts if o[0] > 0])
        if k == "rec":
            return self.rec(scope)
        if k == "q":
            s2 = scope.copy()
            q = self.query(s2)
            if g.prob(0.75) and q[0] in ("lit", "cmp", "and", "unify"):
                # tests that can fail are mostly guarded
                return ["if", q, [self.rec(s2)] + ([] if depth <= 0 else self.body(s2, depth - 1, 2)), None] \
                    if g.prob(0.5) else ["q", ["or", q, ["true"]]]
            scope.bound, scope.num = s2.bound, s2.num
            return ["q", q]
        if k == "?":
            name = g.choice(list(self.preds) + list(self.rule_preds))
            types = self.preds.get(name) or self.rule_preds.get(name) or ""
            t = self.pattern(name, types, scope)
            if g.prob(0.7):
                # guarded: only asked if there is an answer
                s2 = scope.copy()
                self.bind_pattern(t, types, s2)
                return ["if", ["not", ["not", ["lit", t]]], [["?", t], self.rec(s2)], None]
            self.bind_pattern(t, types, scope)
            return ["?", t]
        if k == "+":
            name = self.update_pred()
            t = lit(name, *[self.ground_arg(x, scope) for x in self.preds[name]])
            t[3] = self.annots()
            return ["+", t]
        if k == "-":
            name = self.update_pred()
            t = self.pattern(name, self.preds[name], scope)
            return ["-", t]
        if k == "-+":
            name = self.update_pred()
            t = lit(name, *[self.ground_arg(x, scope) for x in self.preds[name]])
            return ["-+", t]
        if k in ("!", "!!"):
            name, arity = g.choice(self.goals)
            args = []
            for _ in range(arity):
                if g.prob(0.4):
                    v = g.choice(self.k["vars"])
                    args.append(["v", v])
                else:
                    args.append(self.ground_arg("a", scope))
            return [k, lit(name, *args)]
        if k == "if":
            s1 = scope.copy()
            q = self.query(s1)
            b1 = self.body(s1, depth - 1, 3)
            b2 = None
            if g.prob(0.5):
                b2 = self.body(scope.copy(), depth - 1, 3)
            return ["if", q, b1, b2]
        if k == "for":
            s1 = scope.copy()
            q = self.query(s1) if g.prob(0.6) else self.literal_query(s1)
            return ["for", q, self.body(s1, depth - 1, 3)]
        if k == "while":
            return self.loop(scope, depth)
        raise AssertionError(k)

    def loop(self, scope, depth):
        g = self.g
        s1 = scope.copy()
        kind = g.int(0, 3)
        self.counter = getattr(self, "counter", 0)
        if kind <= 1:
            c = "cnt%d" % self.counter
            self.counter += 1
            v = "N%d" % self.counter
            q = ["and", ["lit", lit(c, ["v", v])], ["cmp", ">", ["v", v], ["n", 0]]]
            s1.bind(v, True)
            if g.prob(0.3):
                q = ["and", q, self.query(s1, 1)]
            body = [["-+", lit(c, ["o", "-", ["v", v], ["n", 1]])]] + self.body(s1, depth - 1, 3)
            self.extra_beliefs = getattr(self, "extra_beliefs", []) + [lit(c, ["n", g.size(1, 3)])]
            return ["while", q, body]
        if kind == 2:
            name = self.update_pred()
            if name and self.preds[name]:
                t = lit(name, *[["v", v] for v in g.shuffle(self.k["vars"])[:len(self.preds[name])]])
                self.bind_pattern(t, self.preds[name], s1)
                return ["while", ["lit", t], self.body(s1, depth - 1, 2) + [["-", t]]]
        q = self.query(s1)
        return ["while", q, self.body(s1, depth - 1, 3)]

    def body(self, scope, depth, maxlen=4, minlen=0):
        n = self.g.size(minlen, maxlen)
        return [self.formula(scope, depth) for _ in range(n)]
