"""Shard runner, evidence, replay and known-findings handling."""
import argparse, hashlib, importlib, json, os, random, resource, shutil, signal
import subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MONO = time.monotonic


class Violation(Exception):
    """The code under test broke the property on this case."""


class Runaway(Violation):
    """More effects than any expected run has."""


class Hang(BaseException):
    """The code under test did not finish a case within its CPU allowance."""


class Info:
    """What one evaluated case amounted to."""
    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = nontrivial
        self.labels = tuple(labels)


class Facet:
    """One generator plus oracle of a property.

    strategy: callable (G, tier) -> JSON-able case
    check:    callable case -> Info, raising Violation
    quick/thorough: examples per shard
    chunk: examples drawn from one derived seed
    cpu: CPU seconds allowed for one case
    """
    def __init__(self, name, strategy, check, quick=400, thorough=8000, chunk=200, cpu=30,
                 setup=None, shards=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.n = {"quick": quick, "thorough": thorough}
        self.chunk, self.cpu, self.setup, self.shards = chunk, cpu, setup, shards


def load(pid):
    for fn in sorted(os.listdir(os.path.join(HERE, "pbt", "props"))):
        if fn.lower().startswith(pid.lower() + "_") and fn.endswith(".py"):
            return importlib.import_module("pbt.props." + fn[:-3])
    raise SystemExit("no module for property %s" % pid)


def canon_json(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def through_repo(tb):
    repo = os.path.realpath(REPO)
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(repo + os.sep):
            return True
        tb = tb.tb_next
    return False


class Runner:
    """Evaluates cases of one facet in this process."""
    def __init__(self, facet):
        self.facet = facet

    def evaluate(self, case):
        """Runs the check; every failure attributable to the code under test is a Violation."""
        facet = self.facet
        frozen = json.loads(canon_json(case))      # the check can not alter the recorded case

        def on_alarm(signum, frame):
            raise Hang("case used more than %d s" % facet.cpu)
        signal.signal(signal.SIGPROF, on_alarm)
        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_PROF, facet.cpu)
        signal.setitimer(signal.ITIMER_REAL, facet.cpu * 10)
        try:
            info = facet.check(frozen)
            return info if info is not None else Info()
        except (Violation, Hang):
            raise
        except (KeyboardInterrupt, GeneratorExit):
            raise
        except SystemExit as err:
            raise Violation("unexpected process exit %r" % (err.code,)) from err
        except BaseException as err:
            if through_repo(err.__traceback__) or isinstance(err, (MemoryError, RecursionError)):
                raise Violation("unexpected %s: %s\n%s" % (
                    type(err).__name__, err,
                    "".join(traceback.format_exception(type(err), err, err.__traceback__)[-6:]))) from err
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)


def run_shard(pid, tier, seed, shard, nshards, out, deadline_s):
    from .gen import G, shrink
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    mod = load(pid)
    stats = {"evaluations": 0, "facets": {}, "labels": {}, "samples": [], "violation": None,
             "error": None, "timed_out": False}
    hashes = set()
    t_end = MONO() + deadline_s
    rng = random.Random(seed * 1000 + shard)
    try:
        for fi, facet in enumerate(mod.FACETS):
            if facet.shards is not None and shard >= facet.shards:
                continue
            if facet.setup:
                facet.setup()
            runner = Runner(facet)
            fstats = stats["facets"].setdefault(facet.name, {"evaluations": 0, "nontrivial": 0})
            remaining = facet.n[tier]
            chunk_no = 0
            share_end = MONO() + max(1, (t_end - MONO()) / (len(mod.FACETS) - fi))
            while remaining > 0:
                if MONO() > share_end:
                    stats["timed_out"] = True
                    break
                n = min(facet.chunk, remaining)
                remaining -= n
                chunk_no += 1
                key = "%s|%s|%d|%d|%d" % (pid, facet.name, seed, shard, chunk_no)
                cseed = int(hashlib.sha256(key.encode()).hexdigest()[:12], 16)
                crng = random.Random(cseed)
                for _ in range(n):
                    if MONO() > share_end:
                        stats["timed_out"] = True
                        remaining = 0
                        break
                    g = G(crng)
                    case = None
                    try:
                        case = facet.strategy(g, tier)
                        info = runner.evaluate(case)
                    except Hang as err:
                        stats["violation"] = {"facet": facet.name, "case": case, "message": "hang: %s" % err}
                        return
                    except Violation as err:
                        msg = str(err)

                        def fails(c):
                            try:
                                runner.evaluate(c)
                            except Violation as err:
                                return str(err)
                            except Hang:
                                return None
                            except Exception:
                                return None
                            return None
                        small = shrink(facet.strategy, tier, g.seq, fails)
                        if small:
                            case, msg = small
                        stats["violation"] = {"facet": facet.name, "case": case, "message": msg}
                        return
                    except BaseException as err:
                        stats["error"] = "".join(traceback.format_exception(type(err), err, err.__traceback__))
                        stats["error"] += "\ncase: " + canon_json(case)[:4000]
                        return
                    stats["evaluations"] += 1
                    fstats["evaluations"] += 1
                    for lab in info.labels:
                        k = facet.name + ":" + lab
                        stats["labels"][k] = stats["labels"].get(k, 0) + 1
                    if info.nontrivial:
                        cj = canon_json([facet.name, case])
                        h = hashlib.blake2b(cj.encode(), digest_size=8).hexdigest()
                        if h not in hashes:
                            hashes.add(h)
                            fstats["nontrivial"] += 1
                            if len(cj) < 4000:
                                mine = [s for s in stats["samples"] if s["facet"] == facet.name]
                                if len(mine) < 2 or rng.random() < 0.01:
                                    if len(mine) >= 3:
                                        stats["samples"].remove(rng.choice(mine))
                                    stats["samples"].append({"facet": facet.name, "case": case})
    finally:
        stats["hashes"] = sorted(hashes)
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(stats, f)
        os.replace(tmp, out)


def hash_seed(seed, shard):
    return str((seed * 7919 + shard * 104729) % 4294967295) if shard else "0"


def child_env(hseed):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = hseed
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    return env


def replay_case(pid, facet_name, case):
    """Returns None if the case holds, else the violation message."""
    mod = load(pid)
    for facet in mod.FACETS:
        if facet.name == facet_name:
            if facet.setup:
                facet.setup()
            try:
                Runner(facet).evaluate(case)
                return None
            except Violation as err:
                return str(err)
            except Hang as err:
                return "hang: %s" % err
    raise SystemExit("no facet %s" % facet_name)


def load_findings(pid):
    """finding: property=<id> replay=<file under findings/> <what fails>"""
    res = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("finding: property=%s " % pid):
                _, _, rep, what = line.rstrip("\n").split(" ", 3)
                res.append((os.path.join(HERE, "findings", rep.split("=", 1)[1]), what))
    return res


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    deadline_s = args.budget or (240 if tier == "quick" else 3000)

    if args.replay:
        rep = json.load(open(args.replay))
        want = rep.get("hashseed", "0")
        if os.environ.get("PYTHONHASHSEED") != want:
            os.execve(sys.executable, [sys.executable, os.path.join(HERE, "run.py")] + argv, child_env(want))
        msg = replay_case(args.pid, rep["facet"], rep["case"])
        if msg is None:
            print("REPLAY-OK property=%s" % args.pid)
            return 0
        print(msg)
        print("VIOLATION property=%s replay=%s" % (args.pid, args.replay))
        return 1

    if args.shard is not None:
        run_shard(args.pid, tier, args.seed, args.shard, args.shards, args.out, deadline_s)
        return 0

    t0 = MONO()
    mod = load(args.pid)
    # Recorded findings: report those that still fail.
    for path, what in load_findings(args.pid):
        rep = json.load(open(path))
        if replay_case(args.pid, rep["facet"], rep["case"]) is not None:
            print("KNOWN-FINDING: property=%s %s" % (args.pid, what))

    work = tempfile.mkdtemp(prefix="verif-%s-" % args.pid)
    try:
        procs = []
        for i in range(args.shards):
            out = os.path.join(work, "shard%d.json" % i)
            errf = open(os.path.join(work, "shard%d.err" % i), "w")
            cmd = [sys.executable, os.path.join(HERE, "run.py"), args.pid, "--tier", tier,
                   "--seed", str(args.seed), "--shards", str(args.shards), "--shard", str(i), "--out", out,
                   "--budget", str(deadline_s)]
            sandbox = os.path.join(work, "cwd%d" % i)
            os.mkdir(sandbox)
            p = subprocess.Popen(cmd, env=child_env(hash_seed(args.seed, i)), cwd=sandbox,
                                 stdin=subprocess.DEVNULL, stdout=errf, stderr=errf, start_new_session=True)
            procs.append((i, p, out, errf))
        pending = list(procs)
        results = {}
        errors = []
        violation = None
        hard_end = t0 + deadline_s + 420
        while pending:
            for item in list(pending):
                i, p, out, errf = item
                if p.poll() is None:
                    continue
                pending.remove(item)
                if os.path.exists(out):
                    r = json.load(open(out))
                    results[i] = r
                    if r["violation"] and violation is None:
                        violation = dict(r["violation"], hashseed=hash_seed(args.seed, i))
                    if r["error"]:
                        errors.append(r["error"])
                else:
                    errf.flush()
                    errors.append("shard %d ended with %s and no result\n%s" % (
                        i, p.returncode, open(errf.name).read()[-3000:]))
            if (violation or MONO() > hard_end) and pending:
                for _, p, _, _ in pending:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                if not violation:
                    errors.append("shards did not finish in time")
                break
            time.sleep(0.05)
    finally:
        for _, p, _, errf in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            errf.close()
        shutil.rmtree(work, ignore_errors=True)

    allh, ev, labels, facets, samples = set(), 0, {}, {}, []
    for r in results.values():
        allh.update(r["hashes"])
        ev += r["evaluations"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["facets"].items():
            d = facets.setdefault(k, {"evaluations": 0, "nontrivial": 0})
            d["evaluations"] += v["evaluations"]
            d["nontrivial"] += v["nontrivial"]
        samples += r["samples"]
    per = {}
    picked = []
    for s in samples:
        if per.get(s["facet"], 0) < 3:
            per[s["facet"]] = per.get(s["facet"], 0) + 1
            picked.append(s)
    evidence = {
        "property": args.pid, "tier": tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(allh), "rule": mod.RULE,
            "samples": picked, "facets": facets, "labels": dict(sorted(labels.items())),
            "shards": len(results), "time_budget_hit": any(r["timed_out"] for r in results.values()),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(MONO() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if not args.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", args.pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=True)
    if violation:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        digest = hashlib.sha256(canon_json(violation["case"]).encode()).hexdigest()[:10]
        path = os.path.join(HERE, "replays", "%s-%s.json" % (args.pid, digest))
        with open(path, "w") as f:
            json.dump({"property": args.pid, "facet": violation["facet"], "case": violation["case"],
                       "hashseed": violation["hashseed"], "message": violation["message"]}, f, indent=1)
        print("facet %s, shrunk case: %s" % (violation["facet"], canon_json(violation["case"])[:3000]))
        print(violation["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (args.pid, path))
        return 1
    if errors:
        print("HARNESS-ERROR in %s:\n%s" % (args.pid, errors[0][-6000:]))
        return 2
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs%s" % (
        args.pid, ev, len(allh), MONO() - t0,
        " (time budget hit)" if evidence["coverage"]["time_budget_hit"] else ""))
    return 0
