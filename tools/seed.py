#!/usr/bin/env python3
"""Planting and verifying seeded bugs.

seed.py make SPEC.py      writes seeded/<id>/ from a list SEEDS of dicts (id, property, edits, demo, needs, breaks), then verifies
seed.py margin [ID..]     how many of the seeds 2..5 catch each planted bug
seed.py verify [ID..]     patch applies, tests pass, demo discriminates, and which check catches it (scratch copies)
"""
import concurrent.futures, json, os, re, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 99, "timeout"
    return p.returncode, p.stdout.decode("utf-8", "replace")


def tests(copy):
    rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], copy, {"PYTHONPATH": copy})
    if rc:
        return False, out[-1500:]
    for f in re.findall(r"python -m agentspeak (tests/asl/\S+\.asl)", open(copy + "/tox.ini").read()):
        rc, out = sh([PY, "-m", "agentspeak", f], copy)
        if rc:
            return False, f + out[-1500:]
    return True, ""


def original(diff):
    """Whether the patch removes or alters some line that the original commit has."""
    f = None
    first = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, stdout=subprocess.PIPE).stdout.decode().split()[0]
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            f = subprocess.run(["git", "-C", "/repo", "show", first + ":" + line[6:]], stdout=subprocess.PIPE).stdout.decode().splitlines()
        elif line.startswith("-") and not line.startswith("---") and line[1:].strip() and line[1:] in f:
            return True
    return False


def verify(sid, checks=True):
    d = os.path.join(SEEDED, sid)
    meta = json.load(open(d + "/meta.json"))
    work = tempfile.mkdtemp(prefix="seed-")
    try:
        copy = work + "/repo"
        shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        demo = work + "/demo"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        rc0, out0 = sh(["bash", demo + "/demo.sh"], copy, {"PYTHONPATH": copy}, 300)
        if rc0:
            return sid, "BAD demo fails on the unchanged tree", out0[-1500:]
        if not original(open(d + "/patch.diff").read()):
            return sid, "BAD patch does not change lines of the original repository", ""
        rc, out = sh(["git", "apply", d + "/patch.diff"], copy)
        if rc:
            return sid, "BAD patch does not apply", out
        ok, out = tests(copy)
        if not ok:
            return sid, "BAD tests fail", out
        rc1, out1 = sh(["bash", demo + "/demo.sh"], copy, {"PYTHONPATH": copy}, 300)
        if not rc1:
            return sid, "BAD demo passes with the patch", out1[-1500:]
        if not checks:
            return sid, "counts", ""
        rc, out = sh(["python3", HERE + "/run.py", meta["property"], "--no-evidence"], HERE, {"VERIF_REPO": copy})
        verdict = {1: "CAUGHT", 0: "MISSED"}.get(rc, "HARNESS %d" % rc)
        return sid, verdict + " by " + meta["property"], "" if rc == 1 else out[-1500:]
    finally:
        shutil.rmtree(work)


def make(spec):
    ids = []
    for s in runpy.run_path(spec)["SEEDS"]:
        d = os.path.join(SEEDED, s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        work = tempfile.mkdtemp(prefix="seed-")
        copy = work + "/repo"
        shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in s["edits"]:
            t = open(os.path.join(copy, f), encoding="utf-8").read()
            if t.count(old) != 1:
                raise SystemExit("%s: %d occurrences in %s of %s" % (s["id"], t.count(old), f, old))
            open(os.path.join(copy, f), "w", encoding="utf-8").write(t.replace(old, new))
        _, diff = sh(["git", "diff"], copy)
        open(d + "/patch.diff", "w").write(diff)
        shutil.rmtree(work)
        if "demo_py" in s:
            open(d + "/demo.py", "w").write(s["demo_py"].lstrip("\n"))
            demo = 'here=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"\n'
        else:
            demo = s["demo"].lstrip("\n")
        open(d + "/demo.sh", "w").write("#!/bin/bash\n" + demo)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ids.append(s["id"])
    return ids


def margin(sid):
    d = os.path.join(SEEDED, sid)
    pid = json.load(open(d + "/meta.json"))["property"]
    work = tempfile.mkdtemp(prefix="seed-")
    try:
        copy = work + "/repo"
        shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        rc, out = sh(["git", "apply", d + "/patch.diff"], copy)
        res = [sh(["python3", HERE + "/run.py", pid, "--no-evidence"], HERE, {"VERIF_REPO": copy, "VERIF_SEED": str(i)})[0] for i in range(2, 6)]
        return sid, pid, res
    finally:
        shutil.rmtree(work)


def record(sid, verdict):
    """Keeps the verdicts for DESIGN.md."""
    path = os.path.join(HERE, "tools", "detection.json")
    table = json.load(open(path)) if os.path.exists(path) else {}
    table[sid] = verdict
    table = {k: v for k, v in table.items() if os.path.isdir(os.path.join(SEEDED, k))}
    json.dump(dict(sorted(table.items())), open(path, "w"), indent=1)


if __name__ == "__main__":
    if sys.argv[1] == "margin":
        for sid in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            print(*margin(sid))
            sys.stdout.flush()
        sys.exit(0)
    if sys.argv[1] == "make":
        ids = make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for sid, verdict, out in ex.map(verify, ids):
            print("%-28s %s" % (sid, verdict))
            if out:
                print("    " + out.replace("\n", "\n    "))
            sys.stdout.flush()
            record(sid, verdict)
