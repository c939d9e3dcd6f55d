"""C25: agent names are unique, valid atoms and address the agent."""
import re
from .. import ref, sut
from ..core import Facet, Info, Violation
from ..gen import strategy
from ..sut import agentspeak

RULE = ("Random creation histories (single agents, groups, failing builds, several environments, derived classes) with source "
        "names and explicit names over paths, extensions, keywords, capitals, digits, punctuation and non-ASCII text, many "
        "repeated; messages to every agent by atom, string and list, replies by the source annotation, and a broadcast. Oracle: "
        "a model of the name registry (own transliteration, own keyword list), the text of every name parsed as an atom, and "
        "the set of agents reached. Non-trivial: at least two agents requested the same base name. Facet running: trees of agents "
        "that create further agents from an embedded Python action while the environment runs, and message them at once; every "
        "agent's steps, beliefs and name are compared with a model. Non-trivial: an agent was created while others ran.")
KEYWORDS = ["true", "false", "not", "div", "mod", "if", "else", "while", "for", "include", "begin", "end"]
ATOM = re.compile(r"[a-z][a-zA-Z0-9_]*\Z")
PIECES = KEYWORDS + ["True", "End", "IF", "agent", "Agent", "a", "b", "A", "ag", "ag1", "1", "12", "_", "__", "-", " ", ".", "..", ".asl", "/",
                     "dir/", "../", "\u00e4", "\u00c9", "\u0131", "\u0662", "\u65e5\u672c", "\ud83d\ude00".encode("utf-16", "surrogatepass").decode("utf-16"),
                     "~", "+", "!", "@", "#", "\\", "\"", "'", "\t", "\n", "x1", "X", "0", ":", "(", "[", "self", "percept", "tell"]
PROGRAM = """!start.
+!start <- .my_name(N); +me(N).
+ask(K)[source(S)] <- .my_name(N); .send(S, tell, reply(K, N)).
"""


def stem(path):
    """Own model of: last component of the path without its extension."""
    last = path.split("/")[-1]
    body = last.lstrip(".")
    dots = len(last) - len(body)
    if "." in body:
        return last[:dots] + body[:body.rindex(".")]
    return last


def base(path):
    s = "".join(c if ("a" <= c <= "z" or "A" <= c <= "Z" or "0" <= c <= "9") else "_" for c in stem(path))
    i = 0
    while i < len(s) and (s[i] == "_" or "0" <= s[i] <= "9"):
        i += 1
    s = s[i:]
    s = s[:1].lower() + s[1:]
    if s in KEYWORDS:
        s += "_"
    return s or "agent"


class Registry:
    def __init__(self):
        self.names = []

    def request(self, path):
        b = base(path)
        name = b
        i = 0
        while name in self.names:
            i += 1
            name = b + str(i)
        return name


def name(g):
    if g.prob(0.15):
        return g.choice(["", "agent", "agent.asl", "1.asl", "_", "if.asl", "a.b.c", "/", "x/.asl", "..", "ag", "ag1", "ag1.asl", "ag11"])
    n = g.weighted([(5, 1), (5, 2), (3, 3), (1, 5)])
    s = "".join(g.choice(PIECES) for _ in range(n))
    if g.prob(0.5):
        s += ".asl"
    return s


def gen(g, tier):
    pool = [name(g) for _ in range(g.size(1, 4))]
    ops = []
    for _ in range(g.size(1, 8)):
        src = g.choice(pool) if g.prob(0.6) else name(g)
        ops.append({"env": g.weighted([(6, 0), (1, 1)]), "src": src,
                    "name": None if g.prob(0.6) else g.choice(pool) if g.prob(0.5) else name(g),
                    "n": g.weighted([(12, 1), (4, 2), (2, 3), (2, 0), (1, g.int(4, 15))]), "how": g.choice(["agent", "agents"]),
                    "bad": g.weighted([(8, None), (1, "syntax"), (1, "goal")]), "own": g.prob(0.2)})
    return {"ops": ops, "op": name(g)}


class Own(agentspeak.runtime.Agent):
    pass


def check(case):
    repeated = False
    labels = []
    with sut.capture(), sut.clock():
        envs = [agentspeak.runtime.Environment() for _ in range(2)]
        models = [Registry(), Registry()]
        agents = [[], []]
        for op in case["ops"]:
            env, model = envs[op["env"]], models[op["env"]]
            kw = {} if op["name"] is None else {"name": op["name"]}
            if op["own"]:
                kw["agent_cls"] = Own
            wanted = op["name"] or op["src"]
            text = PROGRAM + {None: "", "syntax": "+!x <- .\n", "goal": "!nothing_to_do.\n"}[op["bad"]]
            single = op["how"] == "agent"
            source = sut.StringSource(op["src"], text)
            if op["n"] <= 0 and not single:
                res = env.build_agents(source, op["n"], agentspeak.stdlib.actions, **kw)
                if res:
                    raise Violation("agents built: %r" % res)
                continue
            try:
                if single:
                    res = [env.build_agent(source, agentspeak.stdlib.actions, **kw)]
                else:
                    res = env.build_agents(source, op["n"], agentspeak.stdlib.actions, **kw)
            except (sut.AslError, sut.AggregatedError):
                if op["bad"] is None:
                    raise Violation("building an agent from %r (name %r) fails" % (op["src"], op["name"]))
                labels.append("failed build")
                registered(env, model, agents[op["env"]])
                continue
            if op["bad"] is not None:
                raise Violation("faulty source was accepted")
            for a in res:
                want = model.request(wanted)
                repeated = repeated or want != base(wanted)
                if a.name != want:
                    raise Violation("request %r (source %r, explicit %r), names so far %s: agent is called %r, expected %r" % (
                        wanted, op["src"], op["name"], model.names, a.name, want))
                valid(a.name)
                model.names.append(want)
                agents[op["env"]].append(a)
            registered(env, model, agents[op["env"]])
        for env, model, ags in zip(envs, models, agents):
            if ags:
                address(case, env, model, ags)
    return Info(repeated, sorted(set(labels)) + ["agents %d" % min(9, sum(map(len, agents)))] +
                (["two environments"] if all(agents) else []) +
                (["keyword"] if any(n.endswith("_") for m in models for n in m.names) else []))


def registered(env, model, ags):
    if sorted(env.agents) != sorted(model.names) or len(set(env.agents)) != len(model.names):
        raise Violation("registered agents %s, created %s" % (sorted(env.agents), sorted(model.names)))
    for a in ags:
        if env.agents[a.name] is not a or a.env is not env:
            raise Violation("%r does not lead to its agent" % a.name)


def valid(text):
    if not ATOM.match(text) or text in KEYWORDS:
        raise Violation("name %r is not an atom of the language" % text)
    env = agentspeak.runtime.Environment()
    a = env.build_agent(sut.StringSource("v", "p(%s). %s.\n" % (text, text)), agentspeak.stdlib.actions)
    got = sorted(sut.beliefs_of(a), key=repr)
    want = sorted([("f", "p", (("f", text, (), ()),), ()), ("f", text, (), ())], key=repr)
    if got != want:
        raise Violation("name %r is not read back as an atom: %r" % (text, got))


def address(case, env, model, ags):
    """Every agent is reached under exactly its name."""
    names = [a.name for a in ags]
    lines = []
    for i, n in enumerate(names):
        lines += [".send(%s, tell, byatom(%d))" % (n, i), ".send(%s, tell, bystring(%d))" % (sut.str_src(n), i),
                  ".send(%s, tell, ask(%d))" % (n, i)]
    evens = [n for i, n in enumerate(names) if i % 2 == 0]
    lines += [".send([%s], tell, bylist)" % ", ".join(evens), ".broadcast(tell, all)"]
    want = model.request(case["op"])
    op = env.build_agent(sut.StringSource(case["op"], "!go.\n+!go <-\n  %s.\n" % ";\n  ".join(lines)), agentspeak.stdlib.actions)
    if op.name != want:
        raise Violation("request %r, names so far %s: agent is called %r, expected %r" % (case["op"], model.names, op.name, want))
    valid(op.name)
    env.run()
    frm = (("f", "source", (("f", op.name, (), ()),), ()),)
    for i, a in enumerate(ags):
        me = ("f", a.name, (), ())
        exp = {("f", "me", (me,), ()), ("f", "byatom", (("n", float(i)),), frm), ("f", "bystring", (("n", float(i)),), frm),
               ("f", "ask", (("n", float(i)),), frm), ("f", "all", (), frm)}
        if i % 2 == 0:
            exp.add(("f", "bylist", (), frm))
        got = sut.beliefs_of(a)
        if len(got) != len(exp) or set(got) != exp:
            raise Violation("agent %r (%d of %s) has beliefs %s, expected %s" % (
                a.name, i, names, sorted(map(show, got)), sorted(map(show, exp))))
    got = sut.beliefs_of(op)
    exp = {("f", "reply", (("n", float(i)), ("f", n, (), ())), (("f", "source", (("f", n, (), ()),), ()),)) for i, n in enumerate(names)}
    if len(got) != len(exp) or set(got) != exp:
        raise Violation("replies to %r: %s, expected %s" % (op.name, sorted(map(show, got)), sorted(map(show, exp))))


def show(t):
    from ..interp import show
    return show(t)


# Agents created by an action while the environment runs.

STEPS = [(4, "spawn"), (3, "say"), (2, "belief"), (2, "sub"), (1, "all"), (1, "bad"), (2, "kid"), (1, "later")]


def gen_running(g, tier):
    pool = [g.choice(["a", "ag", "ag.asl", "if", "1", "x/b.asl", ""]) for _ in range(g.size(1, 2))]
    left = [g.size(2, 9)]

    def agent(depth):
        body = []
        kids = 0
        for _ in range(g.size(1, 5)):
            k = g.weighted(STEPS)
            if k == "spawn":
                if left[0] <= 0 or depth > 4:
                    continue
                left[0] -= 1
                n = g.weighted([(6, 1), (1, 2), (1, 3)])
                body.append(["spawn", g.weighted([(3, "agent"), (1, "agents")]) if n == 1 else "agents", n, agent(depth + 1)])
                kids += 1
            elif k == "kid":
                if kids:
                    body.append(["kid", g.int(0, kids - 1)])
            else:
                body.append([k])
        return {"src": g.choice(pool) if g.prob(0.7) else name(g), "name": None if g.prob(0.7) else g.choice(pool), "body": body}

    roots = [agent(0) for _ in range(g.weighted([(3, 1), (2, 2), (1, 3)]))]
    return {"roots": roots, "how": g.weighted([(5, "run"), (1, "steps")])}


def check_running(case):
    specs = []

    def number(spec):
        spec = dict(spec)
        spec["id"] = len(specs)
        specs.append(spec)
        spec["body"] = [st[:3] + [number(st[3])] if st[0] == "spawn" else st for st in spec["body"]]
        return spec["id"]

    roots = [number(r) for r in case["roots"]]

    def source(i):
        spec = specs[i]
        main, extra = [], ["+!achieved(K)[source(S)] <- .my_name(N); .say(%d, achieved, K, 0).\n" % i]
        kids = 0
        for j, st in enumerate(spec["body"]):
            if st[0] == "spawn":
                main.append(".spawn(%d, K%d)" % (st[3], kids))
                main.append(".send(K%d, tell, from(%d, %d))" % (kids, i, j))
                kids += 1
            elif st[0] == "kid":
                main.append(".send(K%d, achieve, achieved(%d))" % (st[1], j))
            elif st[0] == "say":
                main.append(".say(%d, main, %d, 0)" % (i, j))
            elif st[0] == "belief":
                main.append("+b(%d)" % j)
                extra.append("+b(%d) <- .say(%d, main, %d, 1).\n" % (j, i, j))
            elif st[0] == "sub":
                main.append("!sub%d" % j)
                extra.append("+!sub%d <- .say(%d, main, %d, 1); .say(%d, main, %d, 2).\n" % (j, i, j, i, j))
            elif st[0] == "later":
                main.append("!!late%d" % j)
                extra.append("+!late%d <- .say(%d, late%d, %d, 1); .say(%d, late%d, %d, 2).\n" % (j, i, j, j, i, j, j))
            elif st[0] == "all":
                main.append(".present(%d, %d) & .broadcast(tell, all(%d, %d))" % (i, j, i, j))
            elif st[0] == "bad":
                main.append(".bad(%d)" % i)
        main.append(".say(%d, main, 99, 0)" % i)
        return "!start.\n+!start <- .my_name(N); %s.\n" % "; ".join(main) + "".join(extra)

    said = {}
    made = []            # (agent, spec, parent agent or None), in order of creation
    present = {}         # (name of the sender, i, j) -> agents at that moment
    model = Registry()
    env = agentspeak.runtime.Environment()
    acts = agentspeak.Actions(agentspeak.stdlib.actions)

    def create(i, how, n, parent):
        spec = specs[i]
        kw = {} if spec["name"] is None else {"name": spec["name"]}
        src = sut.StringSource(spec["src"], source(i))
        if how == "agent":
            res = [env.build_agent(src, acts, **kw)]
        else:
            res = env.build_agents(src, n, acts, **kw)
        for a in res:
            want = model.request(spec["name"] or spec["src"])
            if a.name != want:
                raise Violation("request %r, names so far %s: agent is called %r, expected %r" % (
                    spec["name"] or spec["src"], model.names, a.name, want))
            model.names.append(want)
            made.append((a, i, parent))
        if len(res) != n:
            raise Violation("%d agents built instead of %d" % (len(res), n))
        return res

    def step_of(i):
        return next(st for sp in specs for st in sp["body"] if st[0] == "spawn" and st[3] == i)

    def spawn(agent, i):
        try:
            st = step_of(i)
            return agentspeak.Literal(create(int(i), st[1], st[2], agent)[0].name)
        except Violation as v:
            found.append(v)
            raise

    def bad(agent, i):
        with_error = None
        try:
            env.build_agent(sut.StringSource(specs[int(i)]["src"], "+!x <- .\n"), acts)
        except (sut.AslError, sut.AggregatedError) as err:
            with_error = err
        if with_error is None:
            found.append(Violation("faulty source was accepted"))

    def say(agent, i, line, j, k):
        said.setdefault((agent.name, line.functor), []).append((int(i), int(j), int(k)))

    def here(agent, i, j):
        present[agent.name, int(i), int(j)] = list(env.agents)

    found = []
    rt = agentspeak.runtime
    acts.add_function(".spawn", (rt.Agent, int), spawn)
    acts.add_procedure(".bad", (rt.Agent, int), bad)
    acts.add_procedure(".say", (rt.Agent, int, None, int, int), say)
    acts.add_procedure(".present", (rt.Agent, int, int), here)
    with sut.capture() as log, sut.clock():
        try:
            for i in roots:
                create(i, "agent", 1, None)
            if case["how"] == "run":
                env.run()
            else:
                while any([a.step() for a in list(env.agents.values())]):
                    pass
        except Exception as err:
            if found:
                raise found[0]
            raise Violation("running agents that create agents ends with %r: %s" % (err, [m for m in log.errors()][:2]))
        if found:
            raise found[0]
    registered(env, model, [a for a, _, _ in made])
    total = 0
    for a, i, parent in made:
        spec = specs[i]
        main, beliefs = [], []
        lines = {}
        for j, st in enumerate(spec["body"]):
            if st[0] == "say":
                main.append((i, j, 0))
            elif st[0] == "belief":
                main.append((i, j, 1))
                beliefs.append(("f", "b", (("n", float(j)),), ()))
            elif st[0] == "sub":
                main += [(i, j, 1), (i, j, 2)]
            elif st[0] == "later":
                lines["late%d" % j] = [(i, j, 1), (i, j, 2)]
        lines["main"] = main + [(i, 99, 0)]
        if parent is not None:
            total += 1
            pi = next(k for b, k, _ in made if b is parent)
            # The parent addresses the first agent of every group.
            kids = [(j, st) for j, st in enumerate(specs[pi]["body"]) if st[0] == "spawn"]
            nth = next(k for k, (j, st) in enumerate(kids) if st[3] == i)
            group = [b for b, k, p in made if k == i and p is parent]
            if a is group[0]:
                beliefs.append(("f", "from", (("n", float(pi)), ("n", float(kids[nth][0]))), (src_of(parent),)))
                asked = [j for j, st in enumerate(specs[pi]["body"]) if st[0] == "kid" and st[1] == nth]
                if asked:
                    lines["achieved"] = [(i, j, 0) for j in asked]
        for (who, x, y), names in present.items():
            if who != a.name and a.name in names:
                beliefs.append(("f", "all", (("n", float(x)), ("n", float(y))), (("f", "source", (("f", who, (), ()),), ()),)))
        got = {line: v for (who, line), v in said.items() if who == a.name}
        if got != lines:
            raise Violation("agent %r did %r, expected %r" % (a.name, got, lines))
        gotb = sorted(sut.beliefs_of(a), key=repr)
        if gotb != sorted(beliefs, key=repr):
            raise Violation("agent %r has beliefs %s, expected %s" % (a.name, sorted(map(show, gotb)), sorted(map(show, beliefs))))
    return Info(total > 0, ["created while running %d" % min(9, total), case["how"]])


def src_of(agent):
    return ("f", "source", (("f", agent.name, (), ()),), ())


FACETS = [Facet("running", strategy(gen_running), check_running, quick=250, thorough=15000),
          Facet("names", strategy(gen), check, quick=800, thorough=40000)]
