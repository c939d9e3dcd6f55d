"""Reference interpreter for agent programs.

Structured (recursive) execution over immutable substitutions. Wherever the language leaves an
order open (the order of beliefs, of annotation pairings) the machine calls choose(), and
explore() searches for a resolution of those choices under which the reference run equals the
observed one.

Programs are JSON:
  {"beliefs": [term], "rules": [[head, query]], "goals": [term],
   "plans": [{"t": "+"|"-", "g": "!"|"?"|"", "head": term, "ctx": query|None, "body": [formula], "label": str?}]}
Queries: ["true"] ["false"] ["implicit"] (the body of a rule written as a belief with variables)
          ["lit", term] ["var", name] ["and", a, b] ["or", a, b] ["not", q]
         ["unify", l, r] ["cmp", op, l, r] ["act", functor, [terms]]
Formulas: ["q", query] ["+", t] ["-", t] ["-+", t] ["!", t] ["!!", t] ["?", t] ["rec", [terms]]
          ["if", q, body, body|None] ["while", q, body] ["for", q, body]
          ["wait", event src|None, event parsed|None, millis term|None]
          ["send", receivers term, force, content term] ["broadcast", force, content]
         ["teach", receivers term, [plans], text] ["ask", receivers term, name, text] ["unteach", receivers term, label]
"""
import itertools, random
from . import ref, sut
from .gen import vars_of
from .ref import RefError, Skip


# -- source text ---------------------------------------------------------------

def q_src(q):
    k = q[0]
    if k in ("true", "false"):
        return k
    if k == "implicit":
        return "true"
    if k == "lit":
        return sut.src(q[1])
    if k == "var":
        return q[1]
    if k == "and":
        return "(%s & %s)" % (q_src(q[1]), q_src(q[2]))
    if k == "or":
        return "(%s | %s)" % (q_src(q[1]), q_src(q[2]))
    if k == "not":
        return "not (%s)" % q_src(q[1])
    if k == "unify":
        return "(%s = %s)" % (sut.src(q[1]), sut.src(q[2]))
    if k == "cmp":
        return "(%s %s %s)" % (sut.src(q[2]), q[1], sut.src(q[3]))
    if k == "act":
        return q[1] + ("(%s)" % ", ".join(sut.src(t) for t in q[2]) if q[2] else "")
    raise AssertionError(q)


def f_src(f, ind=1):
    k = f[0]
    pad = "  " * ind
    if k == "q":
        return pad + q_src(f[1])
    if k in ("+", "-", "-+", "!", "!!", "?"):
        return pad + k + sut.src(f[1])
    if k == "rec":
        return pad + ".rec(%s)" % ", ".join(sut.src(t) for t in f[1])
    if k == "if":
        r = pad + "if (%s) {\n%s%s}" % (q_src(f[1]), b_src(f[2], ind + 1), pad)
        if f[3] is not None:
            r += " else {\n%s%s}" % (b_src(f[3], ind + 1), pad)
        return r
    if k in ("while", "for"):
        return pad + "%s (%s) {\n%s%s}" % (k, q_src(f[1]), b_src(f[2], ind + 1), pad)
    if k == "wait":
        args = ([sut.str_src(f[1])] if f[1] is not None else []) + ([sut.src(f[3])] if f[3] is not None else [])
        return pad + ".wait(%s)" % ", ".join(args)
    if k == "send":
        return pad + ".send(%s, %s, %s)" % (sut.src(f[1]), f[2], sut.src(f[3]))
    if k == "teach":
        return pad + ".send(%s, tellHow, %s)" % (sut.src(f[1]), sut.str_src(f[3]))
    if k == "ask":
        return pad + ".send(%s, askHow, %s)" % (sut.src(f[1]), sut.str_src(f[3]))
    if k == "unteach":
        return pad + ".send(%s, untellHow, %s)" % (sut.src(f[1]), sut.str_src("@" + f[2]))
    if k == "broadcast":
        return pad + ".broadcast(%s, %s)" % (f[1], sut.src(f[2]))
    raise AssertionError(f)


def b_src(body, ind=1):
    return "".join(f_src(f, ind) + ";\n" for f in body)


def plan_src(p):
    r = "@%s\n" % p["label"] if p.get("label") else ""
    r += p["t"] + p["g"] + sut.src(p["head"])
    if p.get("ctx") is not None:
        r += " : " + q_src(p["ctx"])
    if p["body"]:
        r += " <-\n" + ";\n".join(f_src(f) for f in p["body"])
    return r + ".\n"


def prog_src(prog):
    r = ""
    for b in prog.get("beliefs", ()):
        r += sut.src(b) + ".\n"
    for h, q in prog.get("rules", ()):
        r += sut.src(h) + (".\n" if q[0] == "implicit" and vars_of(h) else " :- %s.\n" % q_src(q))
    for t in prog.get("goals", ()):
        r += "!%s.\n" % sut.src(t)
    for p in prog.get("plans", ()):
        r += plan_src(p)
    return r


# -- machine ---------------------------------------------------------------------

class Mismatch(Exception):
    """The reference run left the observed trace."""


class OutOfFuel(Exception):
    pass


def constant(q):
    if q[0] in ("true", "false", "implicit"):
        return True
    if q[0] == "not":
        return constant(q[1])
    if q[0] in ("and", "or"):
        return constant(q[1]) and constant(q[2])
    return q[0] == "cmp" and const_kind(q[2]) is not None and const_kind(q[2]) == const_kind(q[3])


def const_kind(t):
    """The type of a constant expression, None for anything else."""
    if t[0] in "nsb":
        return t[0]
    if t[0] == "u":
        return const_kind(t[2])
    if t[0] == "o" and t[1] in ref.ARITH and const_kind(t[2]) == const_kind(t[3]) == "n":
        return "n"
    return None


class AgentState:
    def __init__(self, name, prog):
        self.name = name
        self.beliefs = {}
        self.rules = list(prog.get("rules", ()))
        self.plans = list(prog.get("plans", ()))
        self.intentions = []
        self.absent = False      # not created yet


class Intention:
    def __init__(self, agent):
        self.agent = agent
        self.s = {}
        self.frames = []
        self.wait_event = None
        self.wait_until = None
        self.waiting = False


class Frame:
    def __init__(self, gen, gtype, term, s_call):
        self.gen, self.gtype, self.term, self.s_call = gen, gtype, term, s_call


class Machine:
    EPS = 1e-8

    def __init__(self, progs, names=None, expected=None, prefix=(), fuel=3000, solve_depth=40):
        names = names or ["ag%d" % i for i in range(len(progs))]
        self.progs = progs
        self.agents = [AgentState(n, p) for n, p in zip(names, progs)]
        self.by_name = {a.name: a for a in self.agents}
        self.expected = expected
        self.trace = []
        self.choices = []
        self.prefix = list(prefix)
        self.fuel = fuel
        self.fresh = itertools.count()
        self.solve_depth = solve_depth
        self.now = 1000.0
        self.times = []
        self.wait_log = []       # (agent name, deadline)
        self.waits = 0
        self.lines_posted = 0    # intentions created
        self.race = False        # a delivery whose effect may depend on the schedule (see sched.py)
        self.racing = None
        self.instant = 0
        self.linger = False      # finishing a body is a step of its own

    # nondeterminism

    def choose(self, n):
        if n <= 1:
            return 0
        i = len(self.choices)
        k = self.prefix[i] if i < len(self.prefix) else 0
        self.choices.append([k, n])
        return k

    def ordered(self, groups):
        """Yields the answers of all groups, groups in an arbitrary order, answers of one
        group together in an arbitrary order."""
        groups = [list(g) for g in groups if g]
        while groups:
            if all(g == groups[0] for g in groups[1:]):
                g = groups.pop(0)
            else:
                g = groups.pop(self.choose(len(groups)))
            while g:
                if all(x == g[0] for x in g[1:]):
                    yield g.pop(0)
                else:
                    yield g.pop(self.choose(len(g)))

    def burn(self, n=1):
        self.fuel -= n
        if self.fuel < 0:
            raise OutOfFuel()

    def emit(self, agent, terms):
        i = len(self.trace)
        ev = (agent.name, tuple(terms))
        self.trace.append(ev)
        self.times.append(self.now)
        if self.expected is not None:
            if i >= len(self.expected) or self.expected[i][0] != ev[0] or \
                    not ref.alpha_equal(self.expected[i][1], ev[1]):
                raise Mismatch()

    # beliefs

    def add(self, A, t):
        self.beliefs_changed = True
        A.beliefs.setdefault(ref.canon(t), t)

    def matches(self, A, w, s):
        """Answers of a literal pattern from the belief base, per belief."""
        res = []
        for c, b in list(A.beliefs.items()):
            if b[1] == w[1] and len(b[2]) == len(w[2]):
                self.burn()
                res.append((c, list(ref.unify_annotated(w, b, s))))
        return [(c, g) for c, g in res if g]

    # queries

    def solve(self, A, q, s, fid, depth=0):
        self.burn()
        if depth > self.solve_depth:
            raise OutOfFuel()
        k = q[0]
        if k in ("true", "implicit"):
            yield s
        elif k == "false":
            return
        elif k in ("lit", "var"):
            t = ref.term(["v", q[1]] if k == "var" else q[1], fid)
            yield from self.solve_literal(A, t, s, depth)
        elif k == "and":
            for s1 in self.solve(A, q[1], s, fid, depth):
                yield from self.solve(A, q[2], s1, fid, depth)
        elif k == "or" and constant(q):
            # A disjunction of constants is a constant: it has at most one answer.
            for s1 in self.solve(A, q[1], s, fid, depth):
                yield s1
                return
            yield from self.solve(A, q[2], s, fid, depth)
        elif k == "or":
            yield from self.solve(A, q[1], s, fid, depth)
            yield from self.solve(A, q[2], s, fid, depth)
        elif k == "not":
            for _ in self.solve(A, q[1], s, fid, depth):
                return
            yield s
        elif k == "unify":
            yield from self.ordered([list(ref.unify_annotated(ref.term(q[1], fid), ref.term(q[2], fid), s))])
        elif k == "cmp":
            r = ref.walk(("o", q[1], ref.term(q[2], fid), ref.term(q[3], fid)), s)
            if r[1]:
                yield s
        elif k == "act":
            yield from self.action(A, q[1], [ref.term(t, fid) for t in q[2]], s, depth)
        else:
            raise AssertionError(q)

    def solve_literal(self, A, t, s, depth):
        w = ref.walk(t, s)
        if w[0] == "b":
            if w[1]:
                yield s
            return
        if w[0] != "f":
            raise RefError("not a literal")
        yield from self.ordered([g for _, g in self.matches(A, w, s)])
        for head, body in A.rules:
            if head[1] == w[1] and len(head[2]) == len(w[2]):
                self.burn()
                nid = next(self.fresh)
                s1 = ref.unify(w, ref.term(head, nid), s)
                if s1 is not None:
                    yield from self.solve(A, body, s1, nid, depth + 1)

    def action(self, A, name, args, s, depth):
        f = self.custom and self.custom(A, name, args)
        if f:
            yield from f(self, A, args, s)
            return
        if name == ".member":
            t = ref.walk(args[1], s)
            while t[0] == "c":
                s1 = ref.unify(args[0], t[1], s)
                if s1 is not None:
                    yield s1
                t = ref.walk(t[2], s)
            if t != ref.NIL:
                raise RefError("not a list")
        elif name == ".range":
            n = ref.num(ref.ground(args[0], s))
            for i in range(int(n)):
                s1 = ref.unify(args[1], ("n", float(i)), s)
                if s1 is not None:
                    yield s1
        elif name == ".fail":
            return
        elif name == ".my_name":
            s1 = ref.unify(args[0], ("f", A.name, (), ()), s)
            if s1 is not None:
                yield s1
        elif name == ".findall":
            pat = ref.walk(args[0], s)
            items = [self.rename(ref.resolve(pat, s1)) for s1 in self.solve_literal(A, args[1], s, depth + 1)]
            s1 = ref.unify(ref.lst(items), args[2], s)
            if s1 is not None:
                yield s1
        elif name == ".count":
            n = sum(1 for _ in self.solve_literal(A, args[0], s, depth + 1))
            s1 = ref.unify(("n", float(n)), args[1], s)
            if s1 is not None:
                yield s1
        elif name == ".sum":
            total = 0.0
            for s1 in self.solve_literal(A, args[1], s, depth + 1):
                total += ref.num(ref.ground(args[0], s1))
            s1 = ref.unify(("n", total), args[2], s)
            if s1 is not None:
                yield s1
        elif name == ".abolish":
            p = ref.resolve(args[0], s)
            for c, _ in self.matches(A, p, {}):
                del A.beliefs[c]
            yield s
        elif name == ".concat":
            vals = [ref.unlist(ref.ground(a, s)) for a in args[:-1]]
            if any(v is None for v in vals):
                raise Skip("concat of non-lists")
            s1 = ref.unify(args[-1], ref.lst([x for v in vals for x in v]), s)
            if s1 is not None:
                yield s1
        elif name == ".length":
            v = ref.unlist(ref.resolve(args[0], s))
            if v is None:
                raise Skip("length of non-list")
            s1 = ref.unify(args[1], ("n", float(len(v))), s)
            if s1 is not None:
                yield s1
        else:
            raise AssertionError(name)

    current = None           # the formula executed last
    custom = None            # extension point: further actions, see c24_actions.py

    def rename(self, t):
        """Consistently replaces the free variables of a resolved term by new ones."""
        nid = next(self.fresh)
        m = {}

        def go(t):
            k = t[0]
            if k == "v":
                return ("v", m.setdefault(t[1], (nid, len(m))))
            if k == "f":
                return ("f", t[1], tuple(go(a) for a in t[2]), tuple(go(a) for a in t[3]))
            if k == "c":
                return ("c", go(t[1]), go(t[2]))
            return t
        return go(t)

    # events

    def event(self, A, trigger, gtype, term, s):
        """Finds the plan for an (instantiated) event: (frame id, body, substitution)."""
        for p in A.plans:
            if p["t"] != trigger or p["g"] != gtype or p["head"][1] != term[1] or len(p["head"][2]) != len(term[2]):
                continue
            self.burn()
            fid = next(self.fresh)
            head = ref.term(p["head"], fid)
            for s1 in self.ordered([list(ref.unify_annotated(head, term, s))]):
                for s2 in self.solve(A, p.get("ctx") or ["true"], s1, fid):
                    return fid, p["body"], s2
        return None

    def wake(self, A, trigger, gtype, term):
        for I in A.intentions:
            if I.waiting and I.wait_event is not None:
                t, g, head = I.wait_event
                if t == trigger and g == gtype:
                    for _ in ref.unify_annotated(ref.term(head, next(self.fresh)), self.rename(term), {}):
                        I.waiting = False
                        break

    def post(self, A, trigger, gtype, term, I=None):
        """Handles an event; in intention I (as sub-goal) or as an intention of its own.
        Returns the frame to push on I, if any."""
        s = I.s if I else {}
        r = ref.resolve(term, s)
        if r[0] != "f":
            raise RefError("literal expected")
        self.wake(A, trigger, gtype, r)
        if I is None:
            r = self.rename(r)
        found = self.event(A, trigger, gtype, r, s)
        if found is None:
            if gtype == "!":
                raise RefError("no applicable plan")
            if gtype == "?":
                for s1 in self.solve_literal(A, term, s, 0):
                    I.s = s1
                    return None
                raise RefError("test failed")
            return None
        fid, body, s2 = found
        if I is None:
            I = Intention(A)
            I.s = s2
            I.frames.append(Frame(self.body(A, I, fid, body), gtype, r, s))
            A.intentions.append(I)
            self.lines_posted += 1
            return None
        s_call = I.s
        I.s = s2
        return Frame(self.body(A, I, fid, body), gtype, r, s_call)

    def add_event(self, A, term, I=None):
        g = ref.resolve(term, I.s if I else {})
        if g[0] != "f" or any(x[0] in ("v", "_") for x in ref.subterms(g)):
            raise RefError("not ground")
        self.add(A, g)
        return self.post(A, "+", "", g, I)

    def del_event(self, A, term, I=None):
        s = I.s if I else {}
        w = ref.walk(term, s)
        if w[0] != "f":
            raise RefError("literal expected")
        options = [(c, s1) for c, g in self.matches(A, w, s) for s1 in g]
        if not options:
            return None
        c, s1 = options[self.choose(len(options))]
        removed = A.beliefs.pop(c)
        if I:
            I.s = s1
        ev = ("f", w[1], removed[2], ref.resolve(w, s1)[3])
        return self.post(A, "-", "", ev, I)

    # execution

    def body(self, A, I, fid, body):
        yield from self.formulas(A, I, fid, body)
        if self.linger:
            yield None

    def formulas(self, A, I, fid, body):
        for f in body:
            self.burn()
            yield None
            self.current = f
            k = f[0]
            if k == "q":
                for s1 in self.solve(A, f[1], I.s, fid):
                    I.s = s1
                    break
                else:
                    raise RefError("failure")
            elif k == "rec":
                memo = [ref.resolve(ref.term(t, fid), I.s) for t in f[1]]
                self.emit(A, memo)
            elif k == "+":
                yield self.add_event(A, ref.term(f[1], fid), I)
            elif k == "-":
                yield self.del_event(A, ref.term(f[1], fid), I)
            elif k == "-+":
                yield self.del_event(A, ref.term(pattern_of(f[1], self.fresh), next(self.fresh)), I)
                self.current = f
                yield self.add_event(A, ref.term(f[1], fid), I)
            elif k == "!":
                yield self.post(A, "+", "!", ref.term(f[1], fid), I)
            elif k == "?":
                yield self.post(A, "+", "?", ref.term(f[1], fid), I)
            elif k == "!!":
                self.post(A, "+", "!", ref.resolve(ref.term(f[1], fid), I.s), None)
            elif k == "if":
                for s1 in self.solve(A, f[1], I.s, fid):
                    I.s = s1
                    yield from self.body(A, I, fid, f[2])
                    break
                else:
                    if f[3] is not None:
                        yield from self.body(A, I, fid, f[3])
            elif k == "while":
                s0 = I.s
                while True:
                    self.burn()
                    yield None
                    self.current = f
                    for s1 in self.solve(A, f[1], I.s, fid):
                        I.s = s1
                        yield from self.body(A, I, fid, f[2])
                        I.s = s0
                        break
                    else:
                        break
            elif k == "for":
                s0 = I.s
                for s1 in self.solve(A, f[1], I.s, fid):
                    self.burn()
                    I.s = s1
                    yield from self.body(A, I, fid, f[2])
                    I.s = s0
                    self.current = f
            elif k == "wait":
                I.wait_event = f[2]
                ms = None if f[3] is None else ref.num(ref.ground(ref.term(f[3], fid), I.s))
                I.wait_until = None if ms is None else self.tick() + ms / 1000
                I.waiting = True
                self.waits += 1
                if I.wait_until is not None:
                    self.wait_log.append((A.name, I.wait_until))
                yield None
            elif k in ("teach", "ask", "unteach"):
                for B in self.receivers(ref.ground(ref.term(f[1], fid), I.s)):
                    if k == "teach":
                        B.plans = B.plans + f[2]
                    elif k == "ask":
                        A.plans = A.plans + [p for p in B.plans if p["head"][1] == f[2]]
                    else:
                        B.plans = [p for p in B.plans if not p.get("label") or p["label"].split("[")[0] != f[2]]
            elif k == "send":
                self.send(A, ref.ground(ref.term(f[1], fid), I.s), f[2], ref.resolve(ref.term(f[3], fid), I.s))
                yield None       # the message may have withdrawn this very goal
            elif k == "broadcast":
                content = ref.resolve(ref.term(f[2], fid), I.s)
                for B in self.agents:
                    if B is not A and not B.absent:
                        self.deliver(A, B, f[1], content)
                yield None
            else:
                raise AssertionError(f)

    def tick(self):
        self.now += self.EPS
        return self.now

    def receivers(self, to):
        items = ref.unlist(to)
        names = []
        for r in (items if items is not None else [to]):
            if r[0] == "s":
                names.append(r[1])
            elif r[0] == "f" and not r[2] and not r[3]:
                names.append(r[1])
            else:
                raise RefError("receiver")
        for n in names:
            if n not in self.by_name:
                raise RefError("unknown receiver")
        return [self.by_name[n] for n in names]

    def send(self, A, to, force, content):
        for B in self.receivers(to):
            self.deliver(A, B, force, content)

    def watch_races(self):
        self.racing = {}

    def deliver(self, A, B, force, content):
        if self.racing is not None and A is not B:
            if self.racing.get(B.name) == self.instant or self.runnable(B) is not None:
                self.race = True
            self.racing[B.name] = self.instant
        if content[0] != "f":
            raise RefError("literal expected")
        content = self.rename(content)
        tagged = content[:3] + (ref.dedupe(content[3] + (("f", "source", (("f", A.name, (), ()),), ()),)),)
        if force == "tell":
            self.add_event(B, tagged)
        elif force == "untell":
            self.del_event(B, tagged)
        elif force == "achieve":
            self.post(B, "+", "!", tagged)
        elif force == "unachieve":
            self.wake(B, "-", "!", tagged)
            self.unachieve(B, tagged)
        else:
            raise RefError("force")

    def unachieve(self, B, term):
        for I in list(B.intentions):
            for i, fr in enumerate(I.frames):
                if fr.gtype == "!" and fr.term[1] == term[1] and len(fr.term[2]) == len(term[2]) and \
                        ref.unify(ref.strip(self.rename(term)),
                                  ref.strip(self.rename(ref.resolve(fr.term, fr.s_call))), {}) is not None:
                    I.s = fr.s_call
                    del I.frames[i:]
                    I.waiting = False
                    break
            if not I.frames:
                B.intentions.remove(I)

    def start(self):
        for A, prog in zip(self.agents, self.progs):
            for b in prog.get("beliefs", ()):
                self.add_event(A, ref.term(b, next(self.fresh)))
            for t in prog.get("goals", ()):
                self.post(A, "+", "!", ref.term(t, next(self.fresh)))

    def runnable(self, A):
        for I in A.intentions:
            if I.waiting and I.wait_until is not None and I.wait_until < self.now:
                I.waiting = False
            if not I.waiting:
                return I
        return None

    def step(self, A):
        """One formula of the first runnable intention."""
        I = self.runnable(A)
        if I is None:
            return False
        if not I.frames:
            A.intentions.remove(I)
            return True
        fr = I.frames[-1]
        try:
            new = next(fr.gen)
        except StopIteration:
            if I.frames and I.frames[-1] is fr:
                I.frames.pop()
                if not I.frames and I in A.intentions:
                    A.intentions.remove(I)
            return True
        except RefError:
            if I in A.intentions:
                A.intentions.remove(I)
            raise
        if new is not None:
            I.frames.append(new)
        return True

    def deadlines(self, agents):
        return [I.wait_until for A in agents for I in A.intentions if I.waiting and I.wait_until is not None]

    def run_agent(self, A):
        while True:
            if self.step(A):
                continue
            d = self.deadlines([A])
            if not d:
                return
            self.burn()
            self.now = max(self.now, min(d)) + self.EPS

    def run(self):
        while True:
            work = False
            for A in self.agents:
                if self.step(A):
                    work = True
            if not work:
                d = self.deadlines(self.agents)
                if not d:
                    return
                self.burn()
                self.now = max(self.now, min(d)) + self.EPS

    def belief_sets(self):
        return [frozenset(A.beliefs) for A in self.agents]


def pattern_of(t, fresh):
    """The removal pattern of a replacement: expressions become wildcards; variables become new ones."""
    k = t[0]
    if k in ("u", "o"):
        return ["_"]
    if k == "f":
        return ["f", t[1], [pattern_of(a, fresh) for a in t[2]], [pattern_of(a, fresh) for a in t[3]]]
    if k == "l":
        return ["l", [pattern_of(a, fresh) for a in t[1]]]
    if k == "c":
        return ["c", pattern_of(t[1], fresh), pattern_of(t[2], fresh)]
    return t


# -- judging -----------------------------------------------------------------------

def default_drive(m):
    m.start()
    m.run()


class Result:
    def __init__(self, kind, machine=None, error=None):
        self.kind, self.machine, self.error = kind, machine, error   # done / error / skip / fuel / mismatch


def run_once(progs, names, drive, expected, prefix, fuel, final=None, want=None):
    m = (drive.machine if hasattr(drive, "machine") else Machine)(progs, names, expected, prefix, fuel)
    try:
        drive(m)
        r = Result("done", m)
    except RefError as err:
        r = Result("error", m, err)
    except Mismatch:
        return Result("mismatch", m)
    except (OutOfFuel, RecursionError):
        return Result("fuel", m)
    except Skip as err:
        return Result("skip", m, err)
    if expected is not None:
        if len(m.trace) != len(expected):
            return Result("mismatch", m)
        if want is not None and want != r.kind:
            return Result("mismatch", m)
        if final is not None and not final(m):
            return Result("mismatch", m)
    return r


def explore(progs, names=None, drive=default_drive, expected=None, want=None, final=None, cap=400, fuel=3000):
    """Searches the open choices for a run equal to the observed one.
    Returns ("match", machine), ("none", last), ("open", reason)."""
    prefix = []
    first = None
    inconclusive = None
    for _ in range(cap):
        r = run_once(progs, names, drive, expected, prefix, fuel, final, want)
        if r.kind in ("done", "error"):
            return "match", r
        if r.kind in ("skip", "fuel"):
            inconclusive = r.kind
            if r.kind == "skip":
                return "open", r
        if first is None or len(r.machine.trace) > len(first.machine.trace):
            first = r
        ch = r.machine.choices
        while ch and ch[-1][0] + 1 >= ch[-1][1]:
            ch.pop()
        if not ch:
            return ("open", r) if inconclusive else ("none", first)
        ch[-1][0] += 1
        prefix = [c[0] for c in ch]
    return "open", first


def screen(progs, names=None, drive=default_drive, paths=3, fuel=3000):
    """Runs the reference freely along a few resolutions. None if any leaves the domain."""
    prefix = []
    last = None
    for i in range(paths):
        r = run_once(progs, names, drive, None, prefix, fuel)
        if r.kind in ("skip", "fuel"):
            return None
        last = last or r
        ch = r.machine.choices
        # vary the last choice first, then earlier ones
        while ch and ch[-1][0] + 1 >= ch[-1][1]:
            ch.pop()
        if not ch:
            break
        ch[-1][0] += 1
        prefix = [c[0] for c in ch]
    return last


def may_run_away(progs, names=None, drive=default_drive, fuel=3000):
    """Whether the reference cannot exclude an endless run: it leaves the domain, or has open
    choices (one answer order of a loop condition may end the loop, another not)."""
    r = run_once(progs, names, drive, None, [], fuel)
    return r.kind in ("skip", "fuel") or bool(r.machine.choices)


def judge(progs, names=None, drive=default_drive, sut_drive=None, cap=400, fuel=3000, beliefs=True, texts=None, parent=None):
    """Runs the programs on both sides and compares. Returns (Info-like labels, result) or raises Violation."""
    from .core import Hang, Runaway, Violation
    pre = screen(progs, names, drive, fuel=fuel)
    if pre is None:
        return None
    texts = texts or [prog_src(p) for p in progs]
    src_names = [(n + ".asl") for n in names] if names else None
    try:
        out = sut.run_sources(texts, src_names, drive=sut_drive, parent=parent)
    except RecursionError:
        if explore(progs, names, drive, expected=[], cap=cap, fuel=fuel)[0] == "open":
            return None
        raise
    except (Runaway, Hang):
        if may_run_away(progs, names, drive, fuel):
            return None
        raise
    want = "error" if out.error is not None else "done"
    final = None
    sets = None
    if beliefs and len(out.agents) == len(progs):
        sets = [frozenset(ref.canon(b) for b in out.beliefs(i)) for i in range(len(out.agents))]
        final = lambda m: m.belief_sets() == sets
    kind, r = explore(progs, names, drive, out.trace, want, final, cap, fuel)
    if kind == "open":
        return None
    if kind == "none":
        exp = run_once(progs, names, drive, None, [], fuel)
        raise Violation("observed run is not a run of the program\n%s\nobserved (%s%s):\n%s%s\na reference run (%s%s):\n%s%s" % (
            "\n---\n".join(texts), want, (": %s" % out.error) if out.error else "",
            "\n".join("  %s: %s" % (a, ", ".join(show(t) for t in ts)) for a, ts in out.trace),
            "\n  beliefs: %s" % [sorted(show(b) for b in out.beliefs(i)) for i in range(len(out.agents))],
            exp.kind, (": %s" % exp.error) if exp.error else "",
            "\n".join("  %s: %s" % (a, ", ".join(show(t) for t in ts)) for a, ts in exp.machine.trace),
            "\n  beliefs: %s" % [sorted(show(b) for b in A.beliefs.values()) for A in exp.machine.agents]))
    return out, r


def show(t):
    k = t[0]
    if k == "n":
        return "%g" % t[1]
    if k == "s":
        return repr(t[1])
    if k == "b":
        return str(t[1]).lower()
    if k == "v":
        return "?%s" % (t[1],)
    if k == "_":
        return "_"
    if k == "nil":
        return "[]"
    if k == "f":
        return t[1] + ("(%s)" % ", ".join(map(show, t[2])) if t[2] else "") + \
            ("[%s]" % ", ".join(map(show, t[3])) if t[3] else "")
    if k == "c":
        items = []
        while t[0] == "c":
            items.append(show(t[1]))
            t = t[2]
        return "[%s%s]" % (", ".join(items), "" if t[0] == "nil" else "|" + show(t))
    return str(t)
