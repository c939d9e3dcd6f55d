"""C28: the simulation helpers follow their abstract models."""
import importlib.util, itertools, os, random
from ..core import REPO, Facet, Info, Violation
from ..gen import strategy

RULE = ("schedule: random histories of registrations (as call and as decorator, before, between and during runs; all combinations of start, "
        "interval and end, including ends on due ticks, ends before starts, starts in the past), runs split at random; oracle: the list of "
        "calls (tick, entry) computed from the definition of a due tick. graph: random increment histories with interleaved questions "
        "about known and unknown nodes; oracle: a dictionary of weights. choice: iterables of every kind, with the tally of many seeded draws "
        "against equal shares (chi-square, false-alarm probability below 1e-9 per case). Non-trivial: a recurring entry with an end and a "
        "split run / repeated edges and self-loops / at least two items.")
ASSUMPTIONS = ["integer ticks, positive intervals and weights", "entries added during a tick start later", "callbacks do not fail"]

_spec = importlib.util.spec_from_file_location("simse_helper", os.path.join(REPO, "simse", "helper.py"))
helper = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(helper)


def entry(g, now=0, later=False):
    start = g.int(0, 12) if g.prob(0.85) else g.int(-6, 40)
    if later:
        start = now + g.int(1, 8)
    interval = g.weighted([(2, None), (6, "n")]) and g.weighted([(2, 1), (6, "n")])
    if interval == "n":
        interval = g.int(1, 7)
    end = None
    if g.prob(0.5):
        end = g.weighted([(5, "due"), (3, "any"), (1, "before")])
        end = {"due": start + (interval or 1) * g.int(0, 4) + g.choice([0, 0, -1, 1]), "any": g.int(0, 40), "before": start - g.int(1, 3)}[end]
    default = start == 0 and not later and g.prob(0.5)
    return {"start": None if default else start, "interval": interval, "end": end, "how": g.choice(["call", "decorator", "positional"])}


def gen_schedule(g, tier):
    ops = []
    for _ in range(g.size(2, 10)):
        if g.prob(0.55):
            e = entry(g)
            if g.prob(0.2):
                e["adds"] = entry(g, 0, True)
            ops.append(["add", e])
        else:
            ops.append(["run", g.weighted([(1, 0), (4, 1), (6, g.int(0, 15)), (1, 50)])])
    return {"ops": ops}


def due(e, tick):
    if tick < e["start"] or e["end"] is not None and tick > e["end"]:
        return False
    return tick == e["start"] or e["interval"] is not None and (tick - e["start"]) % e["interval"] == 0


def register(s, e, f):
    kw = {k: e[k] for k in ("interval", "end") if e[k] is not None}
    if e["start"] is not None:
        kw["start"] = e["start"]
    if e["how"] == "call":
        return s.add(f=f, **kw)
    if e["how"] == "positional":
        return s.add(e["start"] or 0, e["interval"], e["end"], f)
    return s.add(**kw)(f)


def check_schedule(case):
    s = helper.Schedule()
    calls = []

    def callback(e, id):
        def f():
            calls.append((s.tick, id))
            if e.get("adds"):
                a = e["adds"]
                a = {**a, "start": a["start"] + s.tick, "end": a["end"] if a["end"] is None else a["end"] + s.tick}
                register(s, a, callback({**a, "adds": None}, "%s+%d" % (id, s.tick)))
        return f
    n = 0
    for op, x in case["ops"]:
        if op == "add":
            f = callback(x, str(n))
            if register(s, x, f) is not f:
                raise Violation("add does not return the callback: %s" % (x,))
            n += 1
        else:
            s.run(x)
    want, tick = model(case["ops"])
    if calls != want or s.tick != tick:
        raise Violation("history %s\ncalls    %s, tick %s\nexpected %s, tick %s" % (case["ops"], calls, s.tick, want, tick))
    runs = sum(1 for op, x in case["ops"] if op == "run" and x)
    rich = any(op == "add" and x["interval"] and x["end"] is not None for op, x in case["ops"])
    return Info(runs >= 2 and rich and bool(want), ["calls %d" % min(len(want) // 20 * 20, 100), "nested"] if any("+" in i for _, i in want) else ["flat"])


def model(ops):
    """Calls (tick, entry) and final tick."""
    n = 0
    tick, entries, calls = 0, [], []
    for op, x in ops:
        if op == "add":
            entries.append({**x, "start": x["start"] or 0, "id": str(n)})
            n += 1
            continue
        for _ in range(x):
            for e in list(entries):
                if due(e, tick):
                    calls.append((tick, e["id"]))
                    a = e.get("adds")
                    if a:
                        entries.append({**a, "start": a["start"] + tick, "end": a["end"] if a["end"] is None else a["end"] + tick,
                                        "adds": None, "id": "%s+%d" % (e["id"], tick)})
            tick += 1
    return calls, tick


# -- graph ------------------------------------------------------------------------------

def node(g):
    return g.choice([0, 1, 2, 3, "a", "b", "c", [1, 2], [], None, True, 2.5, "d", "e"])


def gen_graph(g, tier):
    few = [node(g) for _ in range(g.size(1, 5))]

    def pick():
        return g.choice(few) if g.prob(0.9) else node(g)
    ops = []
    for _ in range(g.size(0, 25)):
        k = g.weighted([(10, "incr"), (2, "out"), (2, "in"), (2, "degree"), (1, "nodes"), (1, "change nodes")])
        if k == "incr":
            w = g.weighted([(3, None), (3, g.int(1, 5)), (1, 0.5)])
            ops.append([k, pick(), pick(), w])
        else:
            ops.append([k, pick()])
    return {"ops": ops}


def freeze(x):
    return tuple(x) if isinstance(x, list) else x


def check_graph(case):
    gr = helper.Graph()
    w = {}

    def nodes():
        return {x for e in w for x in e}

    def ask(k, x):
        if k == "nodes":
            got, want = gr.nodes(), nodes()
        elif k == "change nodes":
            r = gr.nodes()
            r.add("another")
            r.discard(x)
            return
        elif k == "out":
            got, want = gr.out_degree(x), sum(a == x for a, b in w)
        elif k == "in":
            got, want = gr.in_degree(x), sum(b == x for a, b in w)
        else:
            got, want = gr.degree(x), sum(a == x for a, b in w) + sum(b == x for a, b in w)
        if got != want:
            raise Violation("%s\n%s(%r) is %r, expected %r" % (case["ops"], k, x, got, want))

    def edges(d, flip):
        return {((b, a) if flip else (a, b)): x for a, es in d.items() for b, x in es.items()}
    for op in case["ops"]:
        x = freeze(op[1])
        if op[0] == "incr":
            y = freeze(op[2])
            d = 1 if op[3] is None else op[3]
            if op[3] is None:
                gr.incr_edge(x, y)
            else:
                gr.incr_edge(x, y, op[3])
            w[x, y] = w.get((x, y), 0) + d
        else:
            ask(op[0], x)
    everyone = nodes() | {freeze(op[1]) for op in case["ops"]} | {"never seen"}
    for k in ("out", "in", "degree", "nodes"):
        for x in everyone if k != "nodes" else [None]:
            ask(k, x)
    for d, flip in ((gr.outgoing, False), (gr.ingoing, True)):
        got = edges(d, flip)
        if got != w:
            raise Violation("%s\nedges %s, expected %s" % (case["ops"], got, w))
    loops = any(a == b for a, b in w)
    many = sum(op[0] == "incr" for op in case["ops"]) > len(w)
    return Info(loops and many, ["loop"] if loops else [])


# -- choice -------------------------------------------------------------------------------

KINDS = ["list", "tuple", "generator", "iterator", "range", "string", "dict", "islice", "set"]


class Thing:
    """Neither hashable nor comparable."""
    __hash__ = None

    def __eq__(self, other):
        raise TypeError("compared")

    __ne__ = __lt__ = __eq__

    def __bool__(self):
        raise TypeError("truth value")


def gen_choice(g, tier):
    return {"kind": g.choice(KINDS), "n": g.weighted([(1, 0), (2, 1), (8, g.int(2, 9)), (2, g.int(10, 40))]), "seed": g.int(0, 10 ** 6),
            "items": g.choice(["numbers", "things", "none", "falsy"]), "tally": g.prob(0.25)}


def check_choice(case):
    n, kind = case["n"], case["kind"]
    make_item = {"numbers": lambda i: i, "things": lambda i: Thing(), "none": lambda i: None, "falsy": lambda i: [0, "", (), False][i % 4]}[case["items"]]
    items = [make_item(i) for i in range(n)]
    used = []

    def once():
        for x in items:
            used.append(x)
            yield x

    def iterable():
        if kind == "list":
            return items
        if kind == "tuple":
            return tuple(items)
        if kind == "generator":
            return once()
        if kind == "iterator":
            return iter(items)
        if kind == "islice":
            return itertools.islice(items + ["beyond"], n)
        if kind == "range":
            return range(n)
        if kind == "string":
            return "".join(chr(97 + i) for i in range(n))
        if kind == "dict":
            return dict.fromkeys(range(n), "value")
        return set(range(n))
    random.seed(case["seed"])
    plain = kind in ("range", "string", "dict", "set")
    population = list(iterable()) if plain else items
    draws = 200 + 120 * n if case["tally"] and (plain or case["items"] in ("numbers", "things")) and n else 3
    tally = [0] * n
    for _ in range(draws):
        x = helper.iter_choice(iterable())
        if not n:
            if x is not None:
                raise Violation("choice from nothing: %r" % (x,))
            continue
        where = [i for i, y in enumerate(population) if y is x]
        if not where:
            raise Violation("chose %r, which is no item of %s" % (x, case))
        tally[where[0]] += 1
    if draws > 3 and n > 1:
        e = draws / n
        chi = sum((t - e) ** 2 / e for t in tally)
        k = n - 1
        # Laurent and Massart: P(chi2_k > k + 2 sqrt(k x) + 2 x) <= exp(-x)
        limit = k + 2 * (k * 25) ** 0.5 + 50
        if chi > limit:
            raise Violation("%d draws from %d items are not equally likely: %s" % (draws, n, tally))
    return Info(n > 1, [kind, "tally"] if draws > 3 else [kind])


FACETS = [Facet("schedule", strategy(gen_schedule), check_schedule, quick=3000, thorough=150000),
          Facet("graph", strategy(gen_graph), check_graph, quick=2500, thorough=100000),
          Facet("choice", strategy(gen_choice), check_choice, quick=800, thorough=30000)]
