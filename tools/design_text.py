"""Static parts of DESIGN.md (see gen_design.py)."""

HEAD = '''
# Property-based verification of niklasf/python-agentspeak

(Written by `tools/gen_design.py` from `tools/design_text.py`, the modules in `pbt/props` and `seeded/`.)

## 1. Approach

All of the 31 properties in `properties.jsonl` are decided by one family of technique: generated-input search against an
explicit oracle, with shrinking. Nothing is listed as not applicable. The code under test is imported from `/repo`'s
working tree at every run (nothing is built or cached), so a check sees the code as it is.

* `run.py CNN` is the entry point. It re-executes itself with the tooling Python, starts 8 shard processes, each with its
  own random seed (derived from `VERIF_SEED`, the property, the facet and the chunk) **and its own `PYTHONHASHSEED`**, so
  that anything that depends on the iteration order of sets of strings is explored as well. Exit 0: held; 1: violation
  (with a shrunk replay file in `replays/`, re-runnable with `run.py CNN --replay FILE`); 2: the harness itself failed.
* `pbt/gen.py` is the generator engine: a generator draws integers from a recorded choice sequence; replaying shorter or
  smaller sequences gives simpler cases, which is how failures of *every* generator are shrunk. It was written instead of
  using Hypothesis because it is about three times faster here, draws uniformly (Hypothesis' bias towards its own notion of
  small examples made deep programs rare), is deterministic in the seed, and shares nothing between shards.
* `pbt/core.py`: shards, time limits per case (a case that hangs is a violation only if the reference says that it ends),
  counting of distinct non-trivial cases by the rule of the module, evidence, replay, known findings. An exception that
  passes through `/repo` and is not part of the documented error channel is a violation; one that comes from the harness is
  exit 2.
* `pbt/ref.py`: reference semantics of terms (immutable substitutions, unification, annotation pairing, evaluation,
  comparison), written from the documentation, sharing no code with `/repo`.
* `pbt/interp.py`: a reference interpreter of whole multi-agent programs: beliefs, rules, plans, control structure,
  intentions, messages, waits on a virtual clock, failures. Where the language leaves an order open (the order of beliefs
  in the belief base, races), the interpreter *searches* for a choice that explains the observed trace (`explore`) instead
  of fixing one; a case whose search does not end within its limit is counted as inconclusive, never as a violation.
* `pbt/refparse.py`: an independent recursive-descent parser of the grammar with static checks and error positions.
* `pbt/astgen.py`, `pbt/proggen.py`, `pbt/sched.py`: generators of syntax trees and their token layouts, of programs with
  scoping, and of multi-agent programs whose result is provably independent of the interleaving (or whose agents are run in
  an order chosen by the case).
* `pbt/sut.py`: access to `/repo`: builds agents from source text, records effects through registered actions, replaces
  `time.time`/`time.sleep` by a virtual clock, captures log records.

Everything is observed through the public interface (programs, registered actions, messages, log records, the belief base,
documented functions); no hooks were added to `/repo`, and the checks do not depend on names of internal helpers. That is
what keeps them quiet under refactorings.

Destructive effects: no check runs code that deletes files or kills processes; file work (C10, C27) stays in directories
the check creates with `tempfile` and removes.

## 2. What counts as which result

* A difference is a *violation* only if the reference rejects every resolution of what the language leaves open.
* A case for which the reference itself is undefined (evaluation order decides between error and answer, programs that do
  not end within the fuel, waits with deadlines closer than the clock can separate) is *out of domain* and not counted as
  non-trivial.
* Quick tiers take 5 to 60 s per check on 8 cores. Thorough tiers run the same generators with 30 to 60 times as many cases
  (limited to 50 minutes per check) and with larger size parameters where the module uses `tier`.
'''

WHY = {
 "C02": "The nested facet was a false alarm at first: control structure whose condition mixes an error with an answer is open, so "
        "such programs are out of domain.",
 "C03": "Variables as raw annotations on the *matched* side are excluded: the language stores ground annotations only. Text and kind "
        "of the located error for non-ground updates is compared by type only.",
 "C04": "Orders between terms of different kinds are only required to be consistent where the language defines them.",
 "C05": "Tabs in source lines become four spaces before tokenising; raw tabs are therefore kept out of literals and listed as an assumption. "
        "Infinite and NaN constants have no notation and are left out.",
 "C06": "Constants are folded while parsing, so programs are compared with their folded form; `-2 ** 2` needs an explicit unary node.",
 "C07": "Trees are evaluated with literal operands (folded while loading) and with variables (evaluated at run time): the same value is "
        "required of both, which is a differential test between the two evaluators in addition to the reference.",
 "C08": "The independent parser gives the verdict, the tree and the position of the first error, so that a check does not only see `no "
        "crash` but also wrong acceptance and misplaced diagnostics. Unknown actions are only warnings; `+!x <- Y.` is accepted.",
 "C09": "The node of the `&` that a chained comparison stands for has the position of a comparison operator; this was accepted as designed.",
 "C12": "A first version required an order of answers inside the belief base; the language has none, so the order facet searches.",
 "C13": "Plans whose head carries expressions are refused by the front end and not generated.",
 "C16": "A first version predicted races between agents. Programs with messages are now either provably free of races "
        "(`sched.expected`) or run in an order given by the case.",
 "C17": "Late starters and broadcasts made some wake-ups ambiguous in a first version; such cases are now in the exact facet only.",
 "C19": "The optimizer in `agentspeak/optimizer.py` is not part of it: it can not process any program with a plan, and nothing uses it.",
 "C20": "That a for loop gives way between two iterations is a matter of scheduling; cases whose outcome depends on it are resolved by "
        "searching the moment of the withdrawal.",
 "C21": "Self-feeding programs are stopped in the reference first and left out.",
 "C22": "Where documentation is silent (halves in .round, strings as lists, .length of structures, text of lists in head-tail notation) "
        "every plausible result is accepted.",
 "C23": "The query of .findall/.count/.sum is a literal (beliefs and rules); other formulas are refused by the implementation.",
 "C24": "Whether the result argument is looked at before the call is open; values kept by the host between frames are not used.",
 "C26": "Ties between waits are avoided: waits occur only in programs with a single intention and not in handlers.",
 "C27": "Whether a failing formula leaves its own variables bound in the console is open; sessions that use them later are left out. "
        "Disjunctions of constants are folded (to one answer) in programs but not on the console and are not used in commands.",
 "C28": "simse/simse.py and simse/buglifespan.py themselves use an older interface and numpy and can not run here; only the helpers they "
        "are built from are covered.",
 "C29": "The text of unbound variables is open (any variable name, one per variable). The dump of intentions shows Python objects and "
        "is only counted. `.control_flow` writes a picture for people: only its harmlessness is checked.",
 "C30": "A line with an unclosed region is an error on the parser console (regions can not be continued); sessions with regions are left out.",
 "C31": "Passing values that are no literals to `call` is a Python error, not a failing goal, and left out. Python values are hashable; the order "
        "of values that are not numbers, strings or atoms is not specified, so programs that compare with `<` only get values that define it.",
}

TAIL = '''
## 4. Defects found and repaired

Every repair is a `fix:` commit in `/repo`; `known_findings.txt` lists them with the property whose check found (and now
guards) each. There are no open findings. The weightiest:

* backtracking: retrying a literal unified with a variable lost earlier bindings; bindings of actions and of for-loop
  bodies survived (C02, C14);
* annotations: the pairing depended on hash order, so the same program found or missed a plan from run to run (C03);
* beliefs: updates while iterating crashed; `true` and `1` were one belief; removal events carried the pattern (C04, C11);
* agents built from one source shared belief and plan tables (C21); withdrawals stopped wrong goals (C20);
* plans sent between agents were altered, not checked or missed (C19);
* expressions: overflow and non-real powers crashed the loader; booleans were ordered against numbers (C07);
* front end: unterminated comments dropped the rest of the file silently; several inputs crashed the parser (C08); include
  cycles through other spellings never ended (C10); strings with non-ASCII text were garbled (C05);
* failures: a failed step ran again for ever; Python exceptions escaped without position (C26).

## 5. False alarms, and what was done about them

They are noted under the property concerned (section 3). In short: where the language or the documentation leaves something
open, the oracle was widened to accept every resolution or the generator was kept away from it, and the assumption is in the
evidence file of the check. None was recorded as a finding.

## 6. Limits

* `agentspeak/optimizer.py` fails on every program that has a plan and is used by nothing except as a decorator namespace;
  no property is stated for it. `simse/simse.py` and `simse/buglifespan.py` do not run with the current interface.
* Real time and real threads are not explored: the run loops are single threaded, and time is virtual.
* Search is not proof: a check that is quiet says that none of the counted cases violates the property.
* Windows paths, other Python versions and terminals are not explored.
'''
