"""Random syntax trees of agent programs, their token sequences, and reading of parsed trees.

Expressions are JSON terms (see sut.py) plus the operators "=", "=..", "&", "|", "not".
Programs: {"rules": [[head, q]], "beliefs": [t], "goals": [t], "plans": [plan]}
plan: {"label": t|None, "t": "+"|"-", "g": ""|"!"|"?", "head": t, "ctx": q|None, "body": [formula]|None}
formula: [type, term] with type in "", "?", "!", "!!", "+", "-", "-+";
         ["if", q, body, body|None] ["while", q, body] ["for", q, body]
"""
from . import sut
from .ref import ARITH, arith, RefError

COMP = ["<", "<=", ">", ">=", "==", "\\=="]
UNIF = ["=", "=.."]
VARS = ["X", "Y", "Z", "_", "Foo", "_X1", "__", "__X", "___Y_z"]
FUNCTORS = ["a", "b", "foo", "p", "q", "fooBar", "x_1", "~neg", "a.b", "trueish", "iffy", "format", "ending", "notes", "modal",
            "~a.b", ".print", ".my.act", "end_game", "if_", "not_a", "~true_x", "true1", "forX", "a.end_x", "div_2"]
STRINGS = ["", "a", "a b", "// no comment", "/* no */", "# no", "quote \" inside", "back\\slash", "é€😀", "{ } ( ) . ;", "\n\t\r",
           "<- :- !!", "0", "true"]


class Ast:
    def __init__(self, g, vars=VARS, functors=FUNCTORS, strings=STRINGS, ints=False):
        self.g, self.vars, self.functors, self.strings = g, vars, functors, strings

    def var(self):
        return ["v", self.g.choice(self.vars)]

    def const_num(self):
        return ["n", self.g.choice([0, 1, 2, 3, 7, 0.5, 2.25, 10, 1e21, 0.001, 12345678901])]

    def small(self):
        return ["n", self.g.choice([1, 2, 3, 0.5])]

    def const(self):
        g = self.g
        k = g.int(0, 9)
        if k < 4:
            return ["f", g.choice(self.functors), [], []]
        if k < 6:
            return self.const_num()
        if k < 8:
            return ["s", g.choice(self.strings)]
        if k == 8:
            return ["b", bool(g.int(0, 1))]
        return ["l", []]

    def literal(self, depth, ops=True, functor=None):
        g = self.g
        n = g.weighted([(30, 0), (30, 1), (30, 2), (10, 3), (2, g.int(4, 7))])
        if depth <= 0:
            n = 0 if g.prob(0.7) else n
        t = ["f", functor or g.choice(self.functors), [self.term(depth - 1, ops) for _ in range(n)], []]
        if g.prob(0.2):
            t[3] = [self.term(min(depth - 1, 1), ops) for _ in range(g.size(1, 2))]
        return t

    def term(self, depth, ops=True):
        g = self.g
        if depth <= 0:
            return self.var() if g.prob(0.4) else self.const()
        k = g.int(0, 19)
        if k < 5:
            return self.var() if g.prob(0.5) else self.const()
        if k < 9:
            return self.literal(depth, ops)
        if k < 12:
            return ["l", [self.term(depth - 1, ops) for _ in range(g.size(0, 3))]]
        if k < 14:
            return ["c", self.term(depth - 1, ops), self.tail(depth - 1, ops)]
        if not ops:
            return self.const()
        if k < 18:
            return self.num(depth)
        return self.boolean(depth)

    def tail(self, depth, ops):
        g = self.g
        k = g.int(0, 3)
        if k <= 1:
            return self.var()
        if k == 2:
            return ["l", [self.term(depth - 1, ops) for _ in range(g.size(0, 2))]]
        return ["c", self.term(depth - 1, ops), self.tail(depth - 1, ops)]

    def num(self, depth):
        """A numeric expression that folds without errors."""
        g = self.g
        if depth <= 0:
            return self.var() if g.prob(0.5) else self.const_num()
        k = g.int(0, 9)
        if k < 2:
            return self.var() if g.prob(0.5) else self.const_num()
        if k < 4:
            return ["u", g.choice(["-", "+"]), self.num(depth - 1)]
        if k < 7:
            return ["o", g.choice(["+", "-", "*"]), self.num(depth - 1), self.num(depth - 1)]
        op = g.choice(["/", "div", "mod", "**"])
        if op == "**":
            return ["o", op, g.choice([self.var(), ["n", 2], ["u", "-", self.var()], ["o", "**", self.var(), ["n", 2]]]),
                    g.choice([self.var(), ["n", 2], ["n", 3], ["u", "-", ["n", 1]], ["u", "-", self.var()],
                              ["o", "**", ["n", 2], self.var()]])]
        return ["o", op, self.num(depth - 1), self.var() if g.prob(0.5) else self.small()]

    def comparison(self, depth):
        g = self.g
        op = g.choice(COMP)
        if g.prob(0.6):
            l, r = self.num(depth - 1), self.num(depth - 1)
        else:
            l, r = self.term(depth - 1), self.term(depth - 1)
        c = ["o", op, l, r]
        if g.prob(0.2):
            return ["o", "&", c, ["o", g.choice(COMP), r, self.num(depth - 1)]]
        return c

    def boolean(self, depth):
        g = self.g
        if depth <= 0:
            return self.var() if g.prob(0.5) else ["b", bool(g.int(0, 1))]
        k = g.int(0, 9)
        if k < 1:
            return ["b", bool(g.int(0, 1))]
        if k < 2:
            return self.var()
        if k < 5:
            return self.comparison(depth)
        if k < 6:
            return ["u", "not", self.boolean(depth - 1)]
        return ["o", g.choice("&|"), self.boolean(depth - 1), self.boolean(depth - 1)]

    def query(self, depth):
        g = self.g
        if depth <= 0:
            return self.literal(0) if g.prob(0.7) else self.var()
        k = g.int(0, 19)
        if k < 6:
            return self.literal(depth)
        if k < 8:
            return ["u", "not", self.query(depth - 1)]
        if k < 13:
            return ["o", g.choice("&|"), self.query(depth - 1), self.query(depth - 1)]
        if k < 16:
            return ["o", g.weighted([(5, "="), (1, "=..")]), self.term(depth - 1), self.term(depth - 1)]
        if k < 18:
            return self.comparison(depth)
        return ["b", bool(g.int(0, 1))] if k == 18 else self.var()

    def formula(self, depth):
        g = self.g
        k = g.int(0, 19)
        if depth > 0 and k < 6:
            if k < 3:
                return ["if", self.query(depth), self.body(depth - 1), self.body(depth - 1) if g.prob(0.5) else None]
            return [g.choice(["while", "for"]), self.query(depth), self.body(depth - 1)]
        if k < 11:
            return ["", self.query(min(depth, 2))]
        t = self.literal(2) if g.prob(0.9) else self.var()
        return [g.choice(["?", "!", "!!", "+", "-", "-+"]), t]

    def body(self, depth, lo=0):
        return [self.formula(depth) for _ in range(self.g.size(lo, 3))]

    def plan(self, depth=2):
        g = self.g
        return {"label": self.literal(1, ops=False) if g.prob(0.25) else None, "t": g.choice(["+", "+", "-"]),
                "g": g.choice(["!", "!", "", "?"]), "head": self.literal(2, ops=False),
                "ctx": self.query(g.int(0, 2)) if g.prob(0.5) else None,
                "body": self.body(depth, 1) if g.prob(0.9) else None}

    def program(self, size=3):
        g = self.g
        return {"rules": [[self.literal(2, ops=False), self.query(g.int(0, 3))] for _ in range(g.size(0, size))],
                "beliefs": [self.literal(2, ops=False) for _ in range(g.size(0, size))],
                "goals": [self.literal(2) for _ in range(g.size(0, size))],
                "plans": [self.plan() for _ in range(g.size(0, size))]}


# -- tokens --------------------------------------------------------------------

LEVEL = {"|": 0, "&": 1, "+": 4, "-": 4, "*": 5, "/": 5, "div": 5, "mod": 5, "**": 7}
RIGHT = {"|": 1, "&": 2, "+": 5, "-": 5, "*": 6, "/": 6, "div": 6, "mod": 6, "**": 6}
LEFT = {"|": 0, "&": 1, "+": 4, "-": 4, "*": 5, "/": 5, "div": 5, "mod": 5, "**": 8}


def level(t):
    if t[0] == "o":
        return LEVEL.get(t[1], 3)
    if t[0] == "u":
        return 2 if t[1] == "not" else 6
    return 8


class Tok:
    """Renders syntax trees as lists of token texts. Redundant parentheses, chained comparisons and
    list spellings are drawn from g (none of them without g)."""
    def __init__(self, g=None, parens=0.1):
        self.g, self.parens = g, parens

    def extra(self, p):
        return self.g is not None and self.g.prob(p)

    def expr(self, t, lvl=0):
        if level(t) < lvl or self.extra(self.parens):
            return ["("] + self.expr0(t, 0) + [")"]
        return self.expr0(t, lvl)

    def seq(self, ts, lvl=0):
        r = []
        for i, t in enumerate(ts):
            r += ([","] if i else []) + self.expr(t, lvl)
        return r

    def expr0(self, t, lvl):
        k = t[0]
        if k == "n":
            return [sut.num_src(t[1])]
        if k == "s":
            return [sut.str_src(t[1])]
        if k == "b":
            return ["true" if t[1] else "false"]
        if k == "v":
            return [t[1]]
        if k == "f":
            r = [t[1]]
            if t[2]:
                r += ["("] + self.seq(t[2]) + [")"]
            if t[3]:
                r += ["["] + self.seq(t[3]) + ["]"]
            return r
        if k == "l":
            return ["["] + self.seq(t[1], 1) + ["]"]
        if k == "c":
            r = ["["] + self.expr(t[1], 1) + ["|"]
            tail = t[2]
            while tail[0] == "c" and self.extra(0.5):
                r += self.expr(tail[1], 1) + ["|"]
                tail = tail[2]
            return r + self.expr(tail, 1) + ["]"]
        if k == "u":
            return [t[1]] + self.expr(t[2], 2 if t[1] == "not" else 6)
        op = t[1]
        if op == "&" and self.is_chain(t) and lvl <= 3 and self.extra(0.6):
            first, *rest = self.spine(t)
            return self.expr(first[2], 4) + [x for c in [first] + rest for x in [c[1]] + self.expr(c[3], 4)]
        if op in LEVEL:
            return self.expr(t[2], LEFT[op]) + [op] + self.expr(t[3], RIGHT[op])
        return self.expr(t[2], 4) + [op] + self.expr(t[3], 4)

    def spine(self, t):
        """The comparisons of a chain; None for other expressions."""
        if t[0] != "o":
            return None
        if t[1] in COMP + UNIF:
            return [t]
        if t[1] != "&" or t[3][0] != "o" or t[3][1] not in COMP + UNIF:
            return None
        left = self.spine(t[2])
        return left + [t[3]] if left and left[-1][3] == t[3][2] else None

    def is_chain(self, t):
        return self.spine(t) is not None

    def formula(self, f):
        k = f[0]
        if k == "if":
            r = ["if", "("] + self.expr(f[1]) + [")", "{"] + self.block(f[2]) + ["}"]
            if f[3] is not None:
                r += ["else", "{"] + self.block(f[3]) + ["}"]
            return r
        if k in ("while", "for"):
            return [k, "("] + self.expr(f[1]) + [")", "{"] + self.block(f[2]) + ["}"]
        toks = self.expr(f[1])
        if k == "":
            return ["("] + toks + [")"] if toks[0] in ("+", "-") else toks
        return [k] + toks

    def formulas(self, body, last):
        r = []
        for i, f in enumerate(body):
            r += self.formula(f)
            block = f[0] in ("if", "while", "for")
            if i < len(body) - 1:
                if not (block and self.extra(0.3)):
                    r.append(";")
            elif last and self.extra(0.5):
                r.append(";")
        return r

    def block(self, body):
        return self.formulas(body, True)

    def event(self, p):
        return [p["t"]] + ([p["g"]] if p["g"] else []) + self.expr0(p["head"], 0)

    def plan(self, p):
        r = ["@"] + self.expr0(p["label"], 0) if p["label"] else []
        r += self.event(p)
        if p["ctx"] is not None:
            r += [":"] + self.expr(p["ctx"])
        if p["body"] is not None:
            r += ["<-"] + self.formulas(p["body"], False)
        return r + ["."]

    def item(self, kind, x):
        if kind == "rules":
            return self.expr0(x[0], 0) + [":-"] + self.expr(x[1]) + ["."]
        if kind == "beliefs":
            return self.expr0(x, 0) + ["."]
        if kind == "goals":
            return ["!"] + self.expr0(x, 0) + ["."]
        return self.plan(x)

    def program(self, prog, order=None):
        """Token lists of the statements of a program, in the given order of kinds."""
        items = [(k, x) for k in ("beliefs", "rules", "goals", "plans") for x in prog[k]]
        return [self.item(k, x) for k, x in items]


WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.~")
OPER = set("-+!*<=>:|&/\\.?@#")


def needs_space(a, b):
    """Conservative: could the two token texts run together?"""
    x, y = a[-1], b[0]
    return x in WORD and y in WORD or x in OPER and y in OPER


def text(tokens, sep=" "):
    """Plain layout: single blanks."""
    return sep.join(tokens)


# -- reading parsed trees --------------------------------------------------------

def dump(node):
    """JSON form of a parsed tree."""
    P = sut.agentspeak.parser
    if isinstance(node, P.AstConst):
        v = node.value
        return ["b", v] if isinstance(v, bool) else ["s", v] if isinstance(v, str) else ["n", float(v)]
    if isinstance(node, P.AstVariable):
        return ["v", node.name]
    if isinstance(node, P.AstLiteral):
        return ["f", node.functor, [dump(t) for t in node.terms], [dump(t) for t in node.annotations]]
    if isinstance(node, P.AstList):
        return ["l", [dump(t) for t in node.terms]]
    if isinstance(node, P.AstLinkedList):
        return ["c", dump(node.head), dump(node.tail)]
    if isinstance(node, P.AstUnaryOp):
        return ["u", node.operator.value.lexeme, dump(node.operand)]
    if isinstance(node, P.AstBinaryOp):
        return ["o", node.operator.value.lexeme, dump(node.left), dump(node.right)]
    if isinstance(node, P.AstRule):
        return [dump(node.head), dump(node.consequence)]
    if isinstance(node, P.AstGoal):
        return dump(node.atom)
    if isinstance(node, P.AstFormula):
        return [node.formula_type.value, dump(node.term)]
    if isinstance(node, P.AstBody):
        return [dump(f) for f in node.formulas]
    if isinstance(node, P.AstIfThenElse):
        e = dump(node.else_body) if node.else_body else None
        return ["if", dump(node.condition), dump(node.if_body), e or None]
    if isinstance(node, P.AstWhile):
        return ["while", dump(node.condition), dump(node.body)]
    if isinstance(node, P.AstFor):
        return ["for", dump(node.generator), dump(node.body)]
    if isinstance(node, P.AstPlan):
        ev = node.event
        return {"label": dump(node.annotation) if node.annotation is not None else None, "t": ev.trigger.value,
                "g": ev.goal_type.value, "head": dump(ev.head), "ctx": dump(node.context) if node.context else None,
                "body": dump(node.body) if node.body else None}
    if isinstance(node, P.AstEvent):
        return [node.trigger.value, node.goal_type.value, dump(node.head)]
    if isinstance(node, P.AstAgent):
        return {k: [dump(x) for x in getattr(node, k)] for k in ("rules", "beliefs", "goals", "plans")}
    raise AssertionError(node)


def norm(x):
    """Numbers as floats, empty else branches as none (for generated trees)."""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "n" and isinstance(x[1], (int, float)) and not isinstance(x[1], bool):
            return ["n", float(x[1])]
        if x and x[0] == "if" and len(x) == 4:
            return ["if", norm(x[1]), norm(x[2]), norm(x[3]) or None]
        return [norm(v) for v in x]
    return x


def fold(t):
    """Evaluates constant sub-expressions of a term or query."""
    k = t[0]
    if k == "f":
        return ["f", t[1], [fold(a) for a in t[2]], [fold(a) for a in t[3]]]
    if k == "l":
        return ["l", [fold(a) for a in t[1]]]
    if k == "c":
        return ["c", fold(t[1]), fold(t[2])]
    if k == "u":
        x = fold(t[2])
        if t[1] == "not" and x[0] == "b":
            return ["b", not x[1]]
        if t[1] in "+-" and x[0] == "n":
            return ["n", -float(x[1]) if t[1] == "-" else float(x[1])]
        return ["u", t[1], x]
    if k == "o":
        op, l, r = t[1], fold(t[2]), fold(t[3])
        if l[0] == r[0] == "n" and op in ARITH:
            return ["n", arith(op, float(l[1]), float(r[1]))]
        if l[0] == r[0] == "b" and op in "&|":
            return ["b", (l[1] and r[1]) if op == "&" else (l[1] or r[1])]
        if l[0] == r[0] and l[0] in "nsb" and op in COMP:
            a, b = l[1], r[1]
            return ["b", {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "\\==": a != b}[op]]
        return ["o", op, l, r]
    return t


def fold_formula(f):
    if f[0] == "if":
        return ["if", fold(f[1]), [fold_formula(x) for x in f[2]], None if f[3] is None else [fold_formula(x) for x in f[3]]]
    if f[0] in ("while", "for"):
        return [f[0], fold(f[1]), [fold_formula(x) for x in f[2]]]
    return [f[0], fold(f[1])]


def fold_plan(p):
    return dict(p, ctx=None if p["ctx"] is None else fold(p["ctx"]),
                body=None if p["body"] is None else [fold_formula(f) for f in p["body"]])


def fold_program(prog):
    return {"rules": [[h, fold(q)] for h, q in prog["rules"]], "beliefs": prog["beliefs"],
            "goals": [fold(t) for t in prog["goals"]], "plans": [fold_plan(p) for p in prog["plans"]]}


def stream(s, name="test.asl", firstline=1, limit=None):
    agentspeak = sut.agentspeak
    log = agentspeak.Log(agentspeak.get_logger("agentspeak.verif"), limit)
    tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource(name, s), log, firstline)
    return tokens, log


def parse_with(fn, s):
    """Parses s + " ." with one of the parser's functions; returns the node. A rejection is a Violation."""
    from .core import Violation
    agentspeak = sut.agentspeak
    tokens, log = stream(s + " .", limit=1)
    with sut.capture() as cap:
        try:
            tok, node = fn(next(tokens), tokens, log)
        except (agentspeak.AggregatedError, StopIteration) as err:
            raise Violation("rejected (%r %s): %s" % (err, [r.getMessage() for r in cap.records], s))
    if tok.lexeme != ".":
        raise Violation("read only up to %r: %s" % (tok.lexeme, s))
    return node


def parse_agent(s, name="test.asl"):
    """Parses a program; returns (tree or None, captured log, error)."""
    agentspeak = sut.agentspeak
    tokens, log = stream(s, name)
    with sut.capture() as cap:
        try:
            tree = agentspeak.parser.parse(name, tokens, log)
            log.throw()
            return tree, cap, None
        except agentspeak.AggregatedError as err:
            return None, cap, err
