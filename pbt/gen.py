"""Choice-sequence based random generation with shrinking.

A generator is a function gen(g, tier) that draws integers through G. The drawn integers form a
choice sequence; replaying a shorter or smaller sequence gives a simpler case (0 is always the
simplest choice), which is what shrink() searches for.
"""
import time


class G:
    """Drawing interface (0 / False / first are simplest)."""
    def __init__(self, rng=None, replay=None):
        self.rng = rng
        self.replay = replay
        self.seq = []

    def int(self, a, b):
        if b <= a:
            return a
        n = b - a
        if self.replay is not None:
            i = len(self.seq)
            k = min(self.replay[i], n) if i < len(self.replay) else 0
        else:
            k = self.rng.randint(0, n)
        self.seq.append(k)
        return a + k

    def size(self, a, b):
        """A length from a to b, now and then a larger one (code that only handles few items is wrong too)."""
        if self.prob(0.03):
            return self.int(b, b + min(b + 3, 12))
        return self.int(a, b)

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)]"""
        total = sum(w for w, _ in pairs)
        k = self.int(0, total - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w

    def prob(self, p):
        """True with probability p; shrinks to False."""
        return self.int(0, 999) >= 1000 - int(p * 1000)

    def many(self, f, lo, hi):
        return [f() for _ in range(self.int(lo, hi))]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.int(0, len(seq) - 1 - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq):
        return [x for x in seq if self.int(0, 1)]


def strategy(f):
    """Marks gen(g, tier) as a facet generator."""
    return f


def shrink(gen, tier, seq, fails, budget_s=40, max_evals=1500):
    """Searches for a simpler choice sequence whose case still fails.
    fails(case) -> message or None. Returns (case, message)."""
    end = time.monotonic() + budget_s
    state = {"evals": 0}
    seen = set()

    def attempt(cand):
        key = tuple(cand)
        if key in seen or state["evals"] >= max_evals or time.monotonic() > end:
            return None
        seen.add(key)
        state["evals"] += 1
        g = G(replay=cand)
        try:
            case = gen(g, tier)
        except Exception:
            return None
        msg = fails(case)
        if msg is None:
            return None
        used = g.seq
        while used and used[-1] == 0:
            used = used[:-1]
        return used, case, msg

    best = attempt(seq)
    if best is None:
        return None

    def better(cand):
        nonlocal best
        if (len(cand), cand) >= (len(best[0]), best[0]):
            return False
        r = attempt(cand)
        if r is None or (len(r[0]), r[0]) >= (len(best[0]), best[0]):
            return False
        best = r
        return True

    improved = True
    while improved and state["evals"] < max_evals and time.monotonic() < end:
        improved = False
        size = max(1, len(best[0]) // 2)
        while size >= 1:
            i = len(best[0]) - size
            while i >= 0:
                cur = best[0]
                if better(cur[:i] + cur[i + size:]):
                    improved = True
                elif any(cur[i:i + size]) and better(cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:]):
                    improved = True
                i -= max(1, size // 2) if size > 1 else 1
                i = min(i, len(best[0]) - size) if i >= 0 else i
            size //= 2
        for i in range(len(best[0])):
            while i < len(best[0]) and best[0][i] > 0:
                v = best[0][i]
                for c in (0, v // 2, v - 1):
                    if c < v and better(best[0][:i] + [c] + best[0][i + 1:]):
                        improved = True
                        break
                else:
                    # lower a length and drop what belonged to it
                    done = False
                    for drop in (1, 2, 3, 4, 6):
                        cur = best[0]
                        if better(cur[:i] + [v - 1] + cur[i + 1:i + 1] + cur[i + 1 + drop:]):
                            improved = done = True
                            break
                    if not done:
                        break
    return best[1], best[2]


ATOMS = ["a", "b", "c", "foo"]
FUNCTORS = ["f", "g", "p"]
NUMS = [0, 1, 2, -1, 0.5, 3, 10, 1e10]
STRS = ["", "a", "b", "1", "a b", "true", "é"]


class TermGen:
    """Random terms; knobs select which constructors appear."""
    def __init__(self, g, vars=(), wild=False, annots=0.0, lists=True, cons=True, strs=True,
                 bools=True, nums=NUMS, atoms=ATOMS, functors=FUNCTORS, neg=False):
        self.__dict__.update(locals())

    def const(self):
        g = self.g
        opts = [(4, "atom"), (3, "num")]
        if self.strs:
            opts.append((2, "str"))
        if self.bools:
            opts.append((1, "bool"))
        if self.lists:
            opts.append((1, "nil"))
        k = g.weighted(opts)
        if k == "atom":
            return ["f", g.choice(self.atoms), [], []]
        if k == "num":
            return ["n", g.choice(self.nums)]
        if k == "str":
            return ["s", g.choice(STRS)]
        if k == "bool":
            return ["b", bool(g.int(0, 1))]
        return ["l", []]

    def leaf(self):
        g = self.g
        if self.vars and g.prob(0.45):
            return ["v", g.choice(self.vars)]
        if self.wild and g.prob(0.1):
            return ["_"]
        return self.const()

    def term(self, depth=2):
        g = self.g
        if depth <= 0:
            return self.leaf()
        opts = [(5, "leaf"), (4, "lit")]
        if self.lists:
            opts.append((2, "list"))
        if self.cons:
            opts.append((2, "cons"))
        k = g.weighted(opts)
        if k == "leaf":
            return self.leaf()
        if k == "lit":
            return self.literal(depth)
        if k == "list":
            return ["l", [self.term(depth - 1) for _ in range(g.size(0, 3))]]
        return ["c", self.term(depth - 1), self.tail(depth - 1)]

    def compound(self, depth=2):
        g = self.g
        opts = [(5, "lit")]
        if self.lists:
            opts.append((2, "list"))
        if self.cons:
            opts.append((2, "cons"))
        k = g.weighted(opts)
        if k == "lit":
            return self.literal(depth, arity=g.size(1, 3))
        if k == "list":
            return ["l", [self.term(depth - 1) for _ in range(g.size(1, 3))]]
        return ["c", self.term(depth - 1), self.tail(depth - 1)]

    def tail(self, depth):
        g = self.g
        if self.vars and g.prob(0.35):
            return ["v", g.choice(self.vars)]
        if self.wild and g.prob(0.1):
            return ["_"]
        if depth > 0 and g.prob(0.4):
            return ["c", self.term(depth - 1), self.tail(depth - 1)]
        if g.prob(0.03):
            return self.term(0)         # improper list
        return ["l", [self.term(0) for _ in range(g.size(0, 2))]]

    def literal(self, depth=2, functor=None, arity=None):
        g = self.g
        n = g.weighted([(20, 0), (80, 1), (80, 2), (20, 3), (4, g.int(4, 8))]) if arity is None else arity
        t = ["f", functor or g.choice(self.functors), [self.term(depth - 1) for _ in range(n)], []]
        if self.annots and g.prob(self.annots):
            t[3] = [self.annot(depth - 1) for _ in range(g.size(1, 2))]
        return t

    def annot(self, depth=1):
        g = self.g
        k = g.weighted([(5, "source"), (2, "atom"), (1, "term")])
        if k == "source":
            return ["f", "source", [self.leaf()], []]
        if k == "atom":
            return ["f", g.choice(self.atoms), [], []]
        return self.term(min(depth, 1))


def perturb(g, t, vars, p=0.25, mutate=0.04, tg=None, root=False):
    """A variation of t: sub-terms replaced by variables, list notation changed, constants altered."""
    if not root and g.prob(p):
        return ["v", g.choice(vars)]
    if tg is not None and g.prob(mutate):
        return tg.term(1)
    k = t[0]
    if k == "f":
        return ["f", t[1], [perturb(g, a, vars, p, mutate, tg) for a in t[2]], list(t[3])]
    if k == "l":
        items = t[1]
        if items and g.prob(0.4):
            n = g.int(1, len(items))
            r = perturb(g, ["l", items[n:]], vars, p, mutate, tg)
            for a in reversed(items[:n]):
                r = ["c", perturb(g, a, vars, p, mutate, tg), r]
            return r
        return ["l", [perturb(g, a, vars, p, mutate, tg) for a in items]]
    if k == "c":
        h = perturb(g, t[1], vars, p, mutate, tg)
        tl = perturb(g, t[2], vars, p, mutate, tg)
        if tl[0] == "l" and g.prob(0.5):
            return ["l", [h] + tl[1]]
        return ["c", h, tl]
    return t


def vars_of(t, acc=None):
    if acc is None:
        acc = []
    k = t[0]
    if k == "v":
        if t[1] not in acc:
            acc.append(t[1])
    elif k == "f":
        for a in t[2] + t[3]:
            vars_of(a, acc)
    elif k == "l":
        for a in t[1]:
            vars_of(a, acc)
    elif k == "c":
        vars_of(t[1], acc)
        vars_of(t[2], acc)
    elif k == "u":
        vars_of(t[2], acc)
    elif k == "o":
        vars_of(t[2], acc)
        vars_of(t[3], acc)
    return acc


def depth_of(t):
    k = t[0]
    if k == "f":
        return 1 + max([depth_of(a) for a in t[2] + t[3]] or [0])
    if k == "l":
        return 1 + max([depth_of(a) for a in t[1]] or [0])
    if k in "cu":
        return 1 + max(depth_of(a) for a in t[1:] if isinstance(a, list))
    if k == "o":
        return 1 + max(depth_of(t[2]), depth_of(t[3]))
    return 0
