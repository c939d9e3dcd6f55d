"""Access to the code under test, imported from /repo."""
import contextlib, io, logging, os, sys, time
from .core import REPO, Runaway, Violation

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
_site = "/opt/venv/lib/python3.12/site-packages"      # colorama lives there
if _site not in sys.path:
    sys.path.append(_site)

_err = sys.stderr
_null = open(os.devnull, "w")
sys.stderr = _null                       # log handlers bind to stderr at import time
try:
    import agentspeak
    import agentspeak.lexer, agentspeak.parser, agentspeak.runtime
    import agentspeak.stdlib, agentspeak.ext_stdlib
finally:
    sys.stderr = _err
if not os.path.realpath(agentspeak.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit("imported agentspeak from %s" % agentspeak.__file__)

AslError = agentspeak.AslError
AggregatedError = agentspeak.AggregatedError
StringSource = agentspeak.StringSource


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)

    def errors(self):
        return [r for r in self.records if r.levelno >= logging.ERROR]

    def locs(self):
        return [getattr(r, "loc", None) for r in self.errors()]


logging.lastResort = None
_root = logging.getLogger("agentspeak")


def quiet_loggers():
    for name in list(logging.Logger.manager.loggerDict):
        if name.startswith("agentspeak"):
            for h in logging.getLogger(name).handlers:
                if isinstance(h, logging.StreamHandler):
                    h.stream = _null


quiet_loggers()


@contextlib.contextmanager
def capture():
    h = Capture()
    _root.addHandler(h)
    try:
        yield h
    finally:
        _root.removeHandler(h)


class Clock:
    """Virtual time: time.time() creeps forward, time.sleep() jumps."""
    EPS = 1e-8

    def __init__(self, start=1000.0):
        self.now = start
        self.sleeps = []

    def time(self):
        self.now += self.EPS
        return self.now

    def sleep(self, seconds):
        self.sleeps.append((self.now, seconds))
        if seconds < 0:
            raise ValueError("sleep length must be non-negative")
        self.now += seconds


@contextlib.contextmanager
def clock():
    c = Clock()
    old = time.time, time.sleep
    time.time, time.sleep = c.time, c.sleep
    try:
        yield c
    finally:
        time.time, time.sleep = old


# -- terms ---------------------------------------------------------------
# JSON form of terms used in cases:
#   ["n",x] ["s",str] ["b",bool] ["v",name] ["_"] ["f",functor,[args],[annots]]
#   ["l",[items]] ["c",head,tail] ["u",op,x] ["o",op,l,r]

def L(functor, *args, annots=()):
    return ["f", functor, list(args), list(annots)]


def num_src(x):
    x = float(x)
    if x.is_integer() and abs(x) < 1e15:
        return str(int(x))
    return repr(x)


_ESC = {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\r": "\\r", "\t": "\\t"}


def str_src(s):
    return '"' + "".join(_ESC.get(ch, ch) if ch in _ESC else
                         ("\\x%02x" % ord(ch) if ord(ch) < 32 or 127 <= ord(ch) < 160 else
                          ("\\u%04x" % ord(ch) if ch in "\u2028\u2029\x85" else ch)) for ch in s) + '"'


def src(t):
    k = t[0]
    if k == "n":
        return num_src(t[1])
    if k == "s":
        return str_src(t[1])
    if k == "b":
        return "true" if t[1] else "false"
    if k == "v":
        return t[1]
    if k == "_":
        return "_"
    if k == "f":
        r = t[1]
        if t[2]:
            r += "(" + ", ".join(src(a) for a in t[2]) + ")"
        if t[3]:
            r += "[" + ", ".join(src(a) for a in t[3]) + "]"
        return r
    if k == "l":
        return "[" + ", ".join(src(a) for a in t[1]) + "]"
    if k == "c":
        return "[" + src(t[1]) + "|" + src(t[2]) + "]"
    if k == "u":
        return "(%s %s)" % (t[1], src(t[2]))
    if k == "o":
        return "(%s %s %s)" % (src(t[2]), t[1], src(t[3]))
    raise AssertionError(t)


UN = {"not": agentspeak.UnaryOp.op_not, "+": agentspeak.UnaryOp.op_pos, "-": agentspeak.UnaryOp.op_neg}
BIN = {op.value.lexeme: op for op in agentspeak.BinaryOp}


def to_sut(t, env):
    """Builds a term object through the public constructors; env maps variable names to variables."""
    k = t[0]
    if k in "nsb":
        return float(t[1]) if k == "n" else t[1]
    if k == "v":
        if t[1] not in env:
            env[t[1]] = agentspeak.Var()
        return env[t[1]]
    if k == "_":
        return agentspeak.Wildcard()
    if k == "f":
        return agentspeak.Literal(t[1], [to_sut(a, env) for a in t[2]], [to_sut(a, env) for a in t[3]])
    if k == "l":
        return tuple(to_sut(a, env) for a in t[1])
    if k == "c":
        return agentspeak.LinkedList(to_sut(t[1], env), to_sut(t[2], env))
    if k == "u":
        return agentspeak.UnaryExpr(UN[t[1]].value, to_sut(t[2], env))
    if k == "o":
        return agentspeak.BinaryExpr(BIN[t[1]].value, to_sut(t[2], env), to_sut(t[3], env))
    raise AssertionError(t)


OBJECTS = []             # (Python object, the term it stands for), see c31_embedding.py


def from_sut(x, names=None):
    """Reads a (frozen) term object back into reference form (tuples, see ref.py);
    variables become ('v', k) numbered by identity through *names*."""
    if names is None:
        names = {}
    for o, t in OBJECTS:
        if o is x or (isinstance(x, type(o)) or isinstance(o, type(x))) and o == x:
            return t
    if isinstance(x, bool):
        return ("b", x)
    if isinstance(x, (int, float)):
        return ("n", float(x))
    if isinstance(x, complex):
        return ("complex", repr(x))
    if isinstance(x, str):
        return ("s", x)
    if isinstance(x, agentspeak.Wildcard):
        return ("_",)
    if isinstance(x, agentspeak.Var):
        if id(x) not in names:
            names[id(x)] = (len(names), x)     # keeps x alive: ids stay unique
        return ("v", names[id(x)][0])
    if isinstance(x, agentspeak.Literal):
        return ("f", x.functor, tuple(from_sut(a, names) for a in x.args),
                tuple(from_sut(a, names) for a in x.annots))
    if isinstance(x, (tuple, list)):
        r = ("nil",)
        for a in reversed([from_sut(a, names) for a in x]):
            r = ("c", a, r)
        return r
    if isinstance(x, agentspeak.LinkedList):
        return ("c", from_sut(x.head, names), from_sut(x.tail, names))
    if type(x).__module__ == "numpy":
        return ("n", float(x))
    raise Violation("unexpected value %r of type %s in a term" % (x, type(x).__name__))


def with_recorder(record, parent=None, arities=range(1, 13)):
    """Action registry with .rec(...) recording (agent name, args)."""
    actions = agentspeak.Actions(parent or agentspeak.ext_stdlib.actions)
    for n in arities:
        def f(agent, *args):
            names = {}
            record(agent.name, tuple(from_sut(a, names) for a in args))
        actions.add_procedure(".rec", (agentspeak.runtime.Agent,) + (None,) * n, f)
    return actions


class Outcome:
    def __init__(self):
        self.trace = []          # (agent, args)
        self.error = None        # exception of the run, if any
        self.phase = None
        self.log = None
        self.agents = []
        self.env = None
        self.clock = None

    def beliefs(self, i=0):
        return beliefs_of(self.agents[i])


def beliefs_of(agent):
    res = []
    for group in agent.beliefs.values():
        for b in group:
            names = {}
            res.append(from_sut(b, names))
    return res


class TooManyEvents(BaseException):
    pass


def run_sources(sources, names=None, limit=5000, parent=None, drive=None, record=None, env_cls=None):
    """Builds one agent per source text and runs the environment to quiescence."""
    out = Outcome()

    def rec(agent, args):
        out.trace.append((agent, args))
        if record:
            record(agent, args)
        if len(out.trace) > limit:
            raise TooManyEvents()
    actions = with_recorder(rec, parent)
    with capture() as log, clock() as c:
        out.log, out.clock = log, c
        try:
            out.phase = "build"
            out.env = (env_cls or agentspeak.runtime.Environment)()
            for i, text in enumerate(sources):
                name = names[i] if names else "ag%d.asl" % i
                out.agents.append(out.env.build_agent(StringSource(name, text), actions))
            out.phase = "run"
            if drive:
                drive(out)
            else:
                out.env.run()
            out.phase = "done"
        except TooManyEvents:
            raise Runaway("more than %d recorded effects: runaway execution" % limit)
        except (AggregatedError, AslError) as err:
            out.error = err
    return out
