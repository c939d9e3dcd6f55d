"""Reference parser over token texts, written from the grammar of the language.

parse(tokens) -> ("ok", program) | ("syntax", index of the offending token, len(tokens) at the end)
               | ("semantic", reason)
The program is constant folded, in the form of astgen.dump()."""
import re
from .ref import ARITH, arith, RefError

KEYWORDS = {"true", "false", "not", "div", "mod", "if", "else", "while", "for", "include", "begin", "end"}
FUNCTOR = re.compile(r"~?(\.?[a-z][a-zA-Z0-9_]*)+\Z")
NUMERIC = re.compile(r"(\d*\.\d+|\d+)([eE][+-]?\d+)?\Z", re.A)
VARIABLE = re.compile(r"(_*[A-Z][a-zA-Z0-9_]*|_+)\Z")
COMP = {"<", "<=", ">", ">=", "==", "\\==", "=", "=.."}
UNIF = {"=", "=.."}
FORMULA = {"?", "!", "!!", "+", "-", "-+"}


class Syntax(Exception):
    pass


class Semantic(Exception):
    pass


def is_functor(t):
    return bool(FUNCTOR.match(t)) and t.lstrip("~") not in KEYWORDS


def is_variable(t):
    return bool(VARIABLE.match(t))


def is_string(t):
    return len(t) >= 2 and t[0] == '"' and t[-1] == '"'


class Parser:
    def __init__(self, tokens, string_value):
        self.toks, self.i, self.string_value = tokens, 0, string_value

    @property
    def tok(self):
        if self.i >= len(self.toks):
            raise Syntax(self.i)
        return self.toks[self.i]

    def fail(self):
        raise Syntax(self.i)

    def expect(self, t):
        if self.tok != t:
            self.fail()
        self.i += 1

    def literal(self):
        if not is_functor(self.tok):
            self.fail()
        f = self.tok
        self.i += 1
        args, annots = [], []
        if self.tok == "(":
            args = self.sequence(")")
        if self.tok == "[":
            annots = self.sequence("]")
        return ["f", f, args, annots]

    def sequence(self, close):
        self.i += 1
        res = [self.term()]
        while self.tok == ",":
            self.i += 1
            res.append(self.term())
        self.expect(close)
        return res

    def atom(self):
        t = self.tok
        if is_variable(t):
            self.i += 1
            return ["v", t]
        if is_functor(t):
            return self.literal()
        if t == "[":
            return self.list()
        if t == "(":
            self.i += 1
            r = self.term()
            self.expect(")")
            return r
        if NUMERIC.match(t):
            self.i += 1
            return ["n", float(t)]
        if t in ("true", "false"):
            self.i += 1
            return ["b", t == "true"]
        if is_string(t):
            self.i += 1
            return ["s", self.string_value(t)]
        self.fail()

    def list(self):
        self.expect("[")
        items = []
        while self.tok != "]":
            items.append(self.conj())
            if self.tok == "|":
                if len(items) > 1:
                    self.fail()
                return self.rest(items[0])
            if self.tok == ",":
                self.i += 1
            elif self.tok != "]":
                self.fail()
        self.i += 1
        return ["l", items]

    def rest(self, head):
        self.expect("|")
        t = self.conj()
        if self.tok == "|":
            return ["c", head, self.rest(t)]
        self.expect("]")
        return ["c", head, t]

    def power(self):
        l = self.atom()
        while self.tok == "**":
            self.i += 1
            l = ["o", "**", l, self.factor()]
        return l

    def factor(self):
        if self.tok in ("+", "-"):
            op = self.tok
            self.i += 1
            return ["u", op, self.factor()]
        return self.power()

    def left(self, ops, sub):
        l = sub()
        while self.tok in ops:
            op = self.tok
            self.i += 1
            l = ["o", op, l, sub()]
        return l

    def product(self):
        return self.left(("*", "/", "div", "mod"), self.factor)

    def arith(self):
        return self.left(("+", "-"), self.product)

    def comparison(self):
        l = self.arith()
        res = None
        while self.tok in COMP:
            op = self.tok
            self.i += 1
            r = self.arith()
            c = ["o", op, l, r]
            res = c if res is None else ["o", "&", res, c]
            l = r
        return res or l

    def negation(self):
        if self.tok == "not":
            self.i += 1
            return ["u", "not", self.negation()]
        return self.comparison()

    def conj(self):
        return self.left(("&",), self.negation)

    def term(self):
        return self.left(("|",), self.conj)

    def block(self):
        self.expect("{")
        body = []
        while self.tok != "}":
            f, is_block = self.formula()
            body.append(f)
            if self.tok == ";":
                self.i += 1
            elif self.tok != "}" and not is_block:
                self.fail()
        self.i += 1
        return body

    def formula(self):
        t = self.tok
        if t in ("if", "while", "for"):
            self.i += 1
            self.expect("(")
            q = self.term()
            self.expect(")")
            b = self.block()
            if t != "if":
                return [t, q, b], True
            e = None
            if self.tok == "else":
                self.i += 1
                e = self.block()
            return ["if", q, b, e], True
        kind = ""
        if t in FORMULA:
            kind = t
            self.i += 1
        return [kind, self.term()], False

    def plan(self):
        label = None
        if self.tok == "@":
            self.i += 1
            label = self.literal()
        if self.tok not in ("+", "-"):
            self.fail()
        p = {"label": label, "t": self.tok, "g": "", "head": None, "ctx": None, "body": None}
        self.i += 1
        if self.tok in ("!", "?"):
            p["g"] = self.tok
            self.i += 1
        p["head"] = self.literal()
        if self.tok == ":":
            self.i += 1
            p["ctx"] = self.term()
        if self.tok == "<-":
            self.i += 1
            p["body"] = []
            while True:
                f, is_block = self.formula()
                p["body"].append(f)
                if self.tok == ";":
                    self.i += 1
                elif self.tok == ".":
                    break
                elif not is_block:
                    self.fail()
        return p

    def program(self, depth=0):
        res = {"rules": [], "beliefs": [], "goals": [], "plans": []}
        while self.i < len(self.toks):
            t = self.tok
            if t == "{":
                self.i += 1
                if self.tok == "begin":
                    self.i += 1
                    self.literal()
                    self.expect("}")
                    sub = self.program(depth + 1)
                    for k in res:
                        res[k] += sub[k]
                elif self.tok == "end":
                    if not depth:
                        if self.i + 1 >= len(self.toks) or self.toks[self.i + 1] != "}":
                            raise Semantic("two errors: either may be reported first")
                        self.fail()
                    self.i += 1
                    self.expect("}")
                    return res
                else:
                    raise Semantic("include")
            elif is_functor(t):
                l = self.literal()
                if self.tok == ":-":
                    self.i += 1
                    res["rules"].append([l, self.term()])
                else:
                    res["beliefs"].append(l)
                self.expect(".")
            elif t == "!":
                self.i += 1
                res["goals"].append(self.literal())
                self.expect(".")
            elif t in ("@", "+", "-"):
                res["plans"].append(self.plan())
                self.expect(".")
            else:
                self.fail()
        if depth:
            raise Syntax(self.i)
        return res


# -- static checks and folding

def term_fold(t):
    k = t[0]
    if k == "f":
        return ["f", t[1], [term_fold(a) for a in t[2]], [term_fold(a) for a in t[3]]]
    if k == "l":
        return ["l", [term_fold(a) for a in t[1]]]
    if k == "c":
        return ["c", term_fold(t[1]), term_fold(t[2])]
    if k == "u":
        return bool_fold(t) if t[1] == "not" else num_fold(t)
    if k == "o":
        return num_fold(t) if t[1] in ARITH else bool_fold(t)
    return t


def num_fold(t):
    k = t[0]
    if k in "vn":
        return t
    if k == "u" and t[1] != "not":
        x = num_fold(t[2])
        if x[0] == "n":
            return ["n", -x[1] if t[1] == "-" else x[1]]
        return ["u", t[1], x]
    if k == "o" and t[1] in ARITH:
        l, r = num_fold(t[2]), num_fold(t[3])
        if l[0] == r[0] == "n":
            try:
                return ["n", arith(t[1], l[1], r[1])]
            except RefError:
                raise Semantic("arithmetic")
        return ["o", t[1], l, r]
    raise Semantic("numeric context")


def bool_fold(t, logical=False):
    k = t[0]
    if k in "vb":
        return t
    if k == "f" and logical:
        return term_fold(t)
    if k == "u" and t[1] == "not":
        x = bool_fold(t[2], logical)
        return ["b", not x[1]] if x[0] == "b" else ["u", "not", x]
    if k == "o":
        op = t[1]
        if op in "&|":
            l, r = bool_fold(t[2], logical), bool_fold(t[3], logical)
            if l[0] == r[0] == "b":
                return ["b", (l[1] and r[1]) if op == "&" else (l[1] or r[1])]
            return ["o", op, l, r]
        if op in UNIF and logical:
            return ["o", op, term_fold(t[2]), term_fold(t[3])]
        if op in COMP and op not in UNIF:
            l, r = term_fold(t[2]), term_fold(t[3])
            if l[0] == r[0] and l[0] in "nsb":
                a, b = l[1], r[1]
                return ["b", {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "\\==": a != b}[op]]
            return ["o", op, l, r]
    raise Semantic("boolean context")


def has_op(t):
    k = t[0]
    if k in "uo":
        return True
    if k == "f":
        return any(has_op(a) for a in t[2] + t[3])
    if k == "l":
        return any(has_op(a) for a in t[1])
    if k == "c":
        return has_op(t[1]) or has_op(t[2])
    return False


def pure(t):
    t = term_fold(t)
    if has_op(t):
        raise Semantic("expression in a head")
    return t


def formula_fold(f):
    if f[0] == "if":
        return ["if", bool_fold(f[1], True), [formula_fold(x) for x in f[2]], [formula_fold(x) for x in f[3] or []] or None]
    if f[0] in ("while", "for"):
        return [f[0], bool_fold(f[1], True), [formula_fold(x) for x in f[2]]]
    if f[0] == "":
        return ["", bool_fold(f[1], True)]
    if f[1][0] not in "fv":
        raise Semantic("literal expected")
    return [f[0], term_fold(f[1])]


def plan_fold(p):
    return {"label": None if p["label"] is None else term_fold(p["label"]), "t": p["t"], "g": p["g"], "head": pure(p["head"]),
            "ctx": None if p["ctx"] is None else bool_fold(p["ctx"], True),
            "body": None if p["body"] is None else [formula_fold(f) for f in p["body"]]}


def parse(tokens, string_value):
    try:
        prog = Parser(tokens, string_value).program()
    except Syntax as err:
        return "syntax", err.args[0]
    except Semantic as err:
        return "semantic", str(err)
    try:
        return "ok", {"rules": [[pure(h), bool_fold(q, True)] for h, q in prog["rules"]],
                      "beliefs": [pure(b) for b in prog["beliefs"]], "goals": [term_fold(x) for x in prog["goals"]],
                      "plans": [plan_fold(p) for p in prog["plans"]]}
    except Semantic as err:
        return "semantic", str(err)
