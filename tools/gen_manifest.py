"""Writes MANIFEST.json from properties.jsonl and the modules present in pbt/props."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "property-based testing: random structured generation, explicit oracle, shrinking",
}
ORACLE = {
    "C01": "most general unifier of an independent unification procedure, up to variable renaming",
    "C02": "reference interpreter with immutable substitutions (bindings can not leak by construction)",
    "C03": "enumeration of all injective annotation pairings; reference interpreter",
    "C04": "equivalence/order laws plus an independent comparison; permutation-invariance of sorting",
    "C05": "round trip term -> source -> parse -> run -> print -> parse against the generated term",
    "C06": "round trip of generated syntax trees through printing and parsing",
    "C07": "independent evaluator with explicit precedence; differential folded/run-time evaluation",
    "C08": "invariant over the diagnostics (located inside the input) for grammar mutants and raw text",
    "C09": "metamorphic: layout changes keep the tree; recomputed positions",
    "C10": "differential: include tree against the textually expanded program",
    "C11": "reference interpreter; belief set and event log after every update history",
    "C12": "reference solver: multiset and order of answers",
    "C13": "reference interpreter: plan choice, context bindings, fall-through",
    "C14": "reference interpreter: structured control flow over immutable environments",
    "C15": "reference interpreter: frames, parameter passing, recursion",
    "C16": "invariants over the effect history (per-intention order, completeness, lock-step) and a reference interpreter",
    "C17": "virtual clock; invariants over wake-up times and reference interpreter with deadlines",
    "C18": "delivery model over the message history; round trip of contents",
    "C19": "differential: agent with plans received by message against agent with plans in its source",
    "C20": "reference interpreter with explicit frames; history of remaining effects",
    "C21": "differential: n agents built together against n agents built separately",
    "C22": "independent definitions of the library functions",
    "C23": "multiset of reference answers; bindings after the call",
    "C24": "call log of the Python functions against the arguments and answers generated",
    "C25": "model of the name registry over build histories",
    "C26": "fault injection at random points: error type, location and state after the failure",
    "C27": "differential: command line and console sessions against the library",
    "C28": "independent graph, schedule and sampling models",
    "C29": "printed text read back and compared with the state; reference interpreter of the program without the inserted actions; the system clock",
    "C31": "differential against a reference interpreter that executes the same steps as program text",
    "C30": "independent tokenizer layout and parser, model of an interactive session",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    mods = {fn[:3].upper() for fn in os.listdir(os.path.join(ROOT, "pbt", "props")) if fn.startswith("c")}
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if pid in mods:
            checks.append({
                "property": pid,
                "quick_cmd": "python3 run.py %s --tier quick" % pid,
                "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
                "evidence_file": "evidence/%s.json" % pid,
                "technique": "property-based testing (random structured generation, shrinking); oracle: " + ORACLE[pid],
                "level": "exploration",
                "level_note": "No violation among the generated cases counted in the evidence file; trusts the oracle in "
                              "/verif/pbt, the CPython interpreter and the assumptions listed in the evidence.",
            })
        else:
            na.append({"property": pid, "reason": "check not built yet"})
    m = {
        "version": 1,
        "setup_cmd": "true",
        "hooks": {"guard": "none", "enable": "no hooks: the checks import /repo as it is", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "Pure Python: every check imports the code from /repo's working tree (VERIF_REPO overrides the path). "
                 "Replay with: python3 run.py <id> --replay <file>.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
