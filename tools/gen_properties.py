#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "agentspeak/__init__.py"; R = "agentspeak/runtime.py"; P = "agentspeak/parser.py"
L = "agentspeak/lexer.py"; S = "agentspeak/stdlib.py"; X = "agentspeak/ext_stdlib.py"

def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": list(files),
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": None},
    }

PROPS = [
prop("C01", "Unification computes a most general unifier",
 "Unifying two terms (numbers, strings, booleans, atoms, structures, lists in either notation, variables, wildcards) succeeds exactly when some substitution makes them equal apart from annotations, in either argument order. On success the resulting bindings make both terms equal and are as general as possible: no variable gets more constrained than the two terms require, and bindings that existed before are kept. The wildcard matches every term and never acquires a value, and booleans never unify with numbers.",
 ["inputs"], "all pairs of finite terms built from the language's term constructors, and all consistent sets of earlier bindings",
 "The unit tests unify a handful of hand-written pairs; correctness is a statement over all pairs of terms, shared variables, prior bindings and the mix of the two list notations.",
 [A], [("unify methods of variables, literals and linked lists; module-level unify, evaluate, deref", A)],
 ["variable bindings visible to a plan after X = Y", "result of the public unify helpers"]),
prop("C02", "Failed or exhausted alternatives leave no bindings behind",
 "A query, condition, action or unification that fails, or that is asked for its next answer, leaves every variable exactly as it was before that attempt, so each further answer and everything executed afterwards sees only the bindings of the answer actually chosen. Negation never binds anything, a loop body's bindings do not survive the iteration, and after a loop ends all variables are as they were before it. Variables that were already bound stay bound.",
 ["inputs", "programs"], "all queries built from belief literals, rules, conjunction, disjunction, negation, unification and library actions, with any earlier bindings, used in conditions, loops and contexts",
 "Existing programs check a few loops whose bodies bind nothing interesting; leaked or lost bindings need particular combinations of partly failing alternatives and earlier bindings.",
 [A, R, S], [("reroll / choicepoints on the binding trail", A), ("query execute generators; push_choicepoint/pop_choicepoint instructions", R), ("backtracking library actions", S)],
 ["values of all variables of a plan after a condition, loop or negation"]),
prop("C03", "Annotations match as sub-sets, never one annotation twice",
 "A literal pattern with annotations matches a literal exactly when functor and arguments unify and every pattern annotation can be paired with a different annotation of the literal that it matches; extra annotations on the matched side are ignored. This decides which beliefs answer a query, which plans a triggering event selects and which beliefs a removal deletes, and does not depend on the order in which annotations are stored or written. Variables inside annotations are bound by the pairing that is used.",
 ["inputs"], "all pattern/literal pairs with up to several (possibly nested, variable-carrying, overlapping) annotations on both sides, in every written order and for every string-hash seed",
 "Tests use one or two ground annotations; overlap between several candidate pairings and storage-order effects are never exercised.",
 [A, R], [("annotated unification", A), ("belief queries, plan head matching, belief removal", R)],
 ["answers of belief queries, selected plans, remaining beliefs"]),
prop("C04", "Term equality, ordering and sorting obey one coherent semantics",
 "Equality of ground terms is structural: same functor, arguments and annotations regardless of annotation order or of which list notation built a list; it is an equivalence, agrees with its negation and with the identity of beliefs in the belief base, and booleans are different from numbers. On numbers, on strings, on atoms, and element-wise on lists and same-signature structures of those, the comparison operators form one total order consistent with equality. Sorting, minimum and maximum agree with that order and neither lose, duplicate nor invent elements.",
 ["inputs"], "all pairs, triples and lists of ground terms",
 "Reflexivity, symmetry, transitivity, antisymmetry and hash consistency are laws over all tuples of terms; tests compare a few constants.",
 [A, S], [("equality, ordering and hashing of literals and linked lists", A), (".sort/.min/.max", S), ("comparison expressions", A)],
 ["results of == \\== < <= > >=, .sort, .min, .max; number of distinct beliefs"]),
prop("C05", "Every term written out as source reads back as the same term",
 "Writing a ground term or a parsed expression in source notation and reading it again yields an equal term: numbers keep their value, strings keep every character (including quotes, backslashes, control and non-ASCII characters), lists, structures and annotations keep their shape. A string literal denotes exactly the characters written in it, with the usual backslash escapes. Printed text used for messages shows integral numbers without a fraction, strings without quotes and lists in bracket notation.",
 ["inputs"], "all finite ground terms, all finite numbers, all Unicode strings and all combinations of escape sequences",
 "Tests contain a few ASCII strings and small integers; the guarantee is over all characters, escape combinations and nestings.",
 [A, P, L], [("source-notation and display-notation rendering; string literal decoding", A), ("constant parsing and rendering", P), ("string and number tokens", L)],
 ["text of terms; values after re-parsing"]),
prop("C06", "A parsed program printed as source parses to the same program",
 "For every program the parser accepts, printing it yields program text that the parser accepts again and that denotes the same rules, beliefs, goals and plans with the same operators, nesting, order and control structure. Printing is therefore stable under a second round. The same holds for single plans, events, plan bodies and terms.",
 ["programs"], "all accepted programs: every statement kind, operator, nesting and constant",
 "There is no printing test at all for most constructs; the guarantee needs every combination of operators, precedence and nested control structure.",
 [P, A, "agentspeak/util.py"], [("string rendering of every syntax-tree node", P), ("precedence-climbing expression parser and body parsers", P)],
 ["printed program text and the tree obtained by parsing it"]),
prop("C07", "Expressions evaluate by the documented operators and precedence",
 "An arithmetic, comparison or boolean expression evaluates to the value given by the conventional operator semantics and precedence (power, unary sign, * / div mod, + -, comparisons with chaining, not, &, |), whether its operands are literals or variables bound at run time. Evaluating constant parts early never changes a result: a program behaves the same when constants are replaced by variables bound to them. Operands of the wrong kind, division by zero and unbound variables are reported as errors and never produce a value.",
 ["inputs", "programs"], "all expression trees over the operators, with any mix of numeric, boolean, string and list operands and any choice of which operands are variables",
 "Tests evaluate a few constant expressions; precedence and early evaluation errors need random trees, and agreement of early and late evaluation is a relation between two programs.",
 [P, A], [("precedence parser, numeric and boolean folding", P), ("expression evaluation with operand checks", A)],
 ["values printed or recorded by a plan; reported errors"]),
prop("C08", "Any input text is either parsed or rejected with a located diagnostic",
 "For every input text the front end terminates and either produces a program or reports at least one error, with the position of the problem in the source, and signals failure through the documented aggregated error; no other exception escapes and no accepted program is silently truncated. Errors count: when errors were reported the program is never accepted. A valid program is accepted without errors.",
 ["inputs"], "all texts: valid programs, programs with tokens deleted, inserted, swapped or truncated at any point, and arbitrary character strings",
 "Tests feed well-formed programs only, and the crash corpus is a few files; robustness is about all malformed inputs.",
 [L, P, A, R], [("tokenizer error path", L), ("recursive-descent parser, validation and folding visitors", P), ("error counting log", A), ("translation of the syntax tree", R)],
 ["raised exception type, emitted diagnostics and their positions"]),
prop("C09", "Layout and comments are insignificant; source positions are exact",
 "Inserting or removing white space, line breaks, line comments and block comments between tokens never changes the program that is read. The position attached to every token (line number, start and end column, source line) selects exactly that token's text in the source. An error or warning reports the position of the offending token under every layout.",
 ["inputs", "programs"], "all programs and all ways of laying them out, including multi-line block comments, comments that look like code, adjacent tokens and first-line offsets",
 "No test varies layout or checks columns; the relation quantifies over all layouts of all programs.",
 [L, P], [("line-based tokenizer with comment state", L), ("propagation of locations into the tree and diagnostics", P)],
 ["token stream, printed program, locations of diagnostics"]),
prop("C10", "Including a file means the same as writing its contents there",
 "An include directive contributes the rules, beliefs, goals and plans of the named file, resolved relative to the including file, in order, as if written at that point, for any nesting depth and directory layout, and the same file may be included from several places. A cycle of includes under any spelling of the paths, a missing file or an error inside an included file is reported as an error (with the position in the file concerned) and never loops or crashes. Begin/end regions contribute their contents in place, and unbalanced regions are rejected.",
 ["programs", "configurations"], "all include graphs over a directory tree (chains, diamonds, cycles, missing files, faulty files, relative path spellings) and all splits of a program into files and regions",
 "Tests include one file; cycles, diamonds, path spelling and faulty included files need generated include graphs.",
 [P], [("include and begin/end handling with the set of active files", P)],
 ["resulting program; reported errors"]),
prop("C11", "The belief base follows the history of updates exactly",
 "After any sequence of belief additions, removals, replacements and bulk deletions by plans, initial beliefs and messages, the beliefs an agent holds are exactly those of a set of ground literals (annotations included) subjected to the same operations: adding is idempotent, removing deletes exactly one matching belief and binds the pattern's variables to it or does nothing if none matches, replacing removes one match of the pattern before adding, bulk deletion removes all matches. Every addition, and every removal that deleted something, triggers the corresponding event exactly once, in order, with the belief's values; non-ground additions are rejected with an error and change nothing. Updating beliefs while iterating over them is safe: the iteration visits each belief that held when it started.",
 ["histories"], "all finite sequences of updates and queries over small vocabularies of literals, including lists, numbers, booleans, strings and annotations",
 "Tests add and remove a few constants; state corruption needs long mixed histories with overlapping patterns and handlers.",
 [R, S, A], [("add/remove/test belief, event dispatch", R), (".abolish", S), ("belief identity (equality and hashing)", A)],
 ["belief base contents after each step, events handled, bindings"],
 [("belief base", "set of ground literals per functor/arity", R)]),
prop("C12", "Queries return exactly the logical answers",
 "Querying with belief literals, rules (also recursive), conjunction, disjunction, negation as failure, unification and comparison yields exactly the answers of the logical reading of the agent's beliefs and rules: every answer holds, every derivable answer is found, conjunctions see earlier bindings, beliefs come before rules and rules in source order. A belief written with variables is a rule that always holds. Rule variables are local to each use. A query changes neither beliefs nor rules, so asking again gives the same answers.",
 ["programs", "inputs"], "all finite belief bases, terminating rule sets and query formulas over small vocabularies",
 "Tests ask a few fixed queries; soundness and completeness of the search quantify over all rule sets and formulas.",
 [R, A], [("query objects: term, and, or, not, unify, action queries", R), ("fresh instances of rules per use", R)],
 ["multiset and order of answers seen by a loop or by .findall/.count"]),
prop("C13", "An event runs the first applicable plan, and only that one",
 "When a goal is posted or a belief changes, the plan executed is the first one in program order with the same trigger kind, functor and number of arguments whose head matches the event (arguments and annotations) and whose context has an answer; its body starts with the bindings of that match and answer, and no other plan for the event runs. If none is applicable, an achievement goal fails with an error naming it, a test goal falls back to querying beliefs and rules, and a belief event is ignored. Plans of other triggers, functors or arities never interfere.",
 ["programs"], "all plan libraries over small vocabularies (overlapping heads, annotations, contexts with rules, negation and several answers) and all events",
 "Tests contain one or two plans per event; selection order and interference need many overlapping plans.",
 [R], [("plan table and selection loop in event dispatch", R), ("fallback to belief test", R)],
 ["which plan body ran, with which variable values; reported errors"]),
prop("C14", "Plan bodies execute by structured control flow semantics",
 "The steps of a plan body execute in order; if/else runs exactly one branch according to whether the condition has an answer (with its bindings), while repeats as long as the condition has an answer, for runs its body once per answer, nested arbitrarily and with empty blocks. A step that fails (query without answer, action failure, goal without plan) stops the plan at that step with an error, nothing after it runs. The sequence of observable effects equals that of the straightforward structured interpretation.",
 ["programs"], "all terminating plan bodies built from actions, tests, belief updates, goals and arbitrarily nested if/else, while and for",
 "Tests run single, shallow control structures; wiring errors show only for particular nestings (empty blocks, else-less ifs at block ends, loops inside branches).",
 [R, P], [("translation of bodies into success/failure-linked instructions", R), ("block parsing", P)],
 ["sequence of recorded effects, final beliefs"]),
prop("C15", "Goals pass parameters both ways and isolate variable scopes",
 "Posting a goal runs its plan to completion before the caller continues; input arguments reach the plan, and values the plan gives to its parameters are seen by the caller in its own variables, including partially known structures and variables that become aliased. Variables with the same name in different plans, or in different activations of the same (also recursive) plan, are independent. A goal posted as a separate concern receives a snapshot of its arguments and never writes back.",
 ["programs"], "all terminating systems of (mutually) recursive plans with in/out parameters, partial structures, shared variables and detached goals",
 "Tests return one value from one subgoal; aliasing, partial structures and recursion depth are unexplored.",
 [R, A], [("freezing of call terms, back-unification on return, per-activation scopes", R), ("freeze", A)],
 ["values seen by callers after subgoals"]),
prop("C16", "Every intention runs to completion, in order, without interference",
 "Each initial goal, detached goal and received goal becomes its own line of execution; every line executes its own steps in program order exactly once, a sub-goal or belief handler completes before its poster continues, and lines of different variables never interfere. Within an agent runnable lines are served in creation order, across agents one step per agent in turn, and a line that waits never blocks others. Running stops exactly when no line can make progress any more.",
 ["schedules", "programs"], "all sets of agents, goals, detached goals, waits and messages, and all resulting interleavings",
 "Tests run one intention at a time; ordering and loss bugs require several concurrent lines with particular suspension points.",
 [R], [("intention stacks, step selection, round-robin run loop", R)],
 ["global sequence of recorded effects per agent and across agents"],
 [("intentions", "queue of call stacks per agent", R)]),
prop("C17", "Waiting resumes on time or on the awaited event, never earlier",
 "A plan that waits for a duration resumes after that duration has elapsed and not before; one that waits for an event resumes when a matching event of the same kind occurs in its agent; with both it resumes at whichever comes first, and it resumes exactly once. Other plans and agents keep running meanwhile, and plans resume in deadline order. The run loop sleeps until the earliest pending deadline, never for a negative time, and ends when only plans waiting for an event remain.",
 ["schedules", "histories"], "all combinations of waiting plans, durations, awaited event patterns and event arrival times, under a controlled clock",
 "Tests wait once for a few milliseconds of real time; ordering, early wake-ups and races between event and timeout need a controlled clock and many schedules.",
 [S, R], [(".wait and its event parser", S), ("waiter polling, wake-up on events, shortest deadline, sleeping run loops", R)],
 ["virtual time at which each effect is recorded; sleep requests"]),
prop("C18", "Messages reach exactly their receivers with exactly their content",
 "Telling a belief adds it, with the sender's name as its source annotation, to every named receiver and to nobody else; untelling removes a matching belief; achieving posts the goal there; broadcasting does so for all agents but the sender. The content the receiver sees is the sender's term at the time of sending, with variables renamed consistently and no further link to the sender's variables. Receivers may be given as atom, string or list; unknown receivers or kinds of message are reported as errors.",
 ["histories", "programs"], "all message histories over small sets of agents, contents (with variables, lists, annotations) and message kinds",
 "Tests send one tell and one achieve; exactness over receivers, content and history is universal.",
 [S, R], [(".send, .broadcast", S), ("event dispatch at the receiver", R)],
 ["belief bases and recorded effects of all agents"]),
prop("C19", "A plan sent to another agent behaves there like the original",
 "Teaching a plan as text, or asking another agent for its plans of a given name, makes the receiver able to handle the event exactly as an agent programmed with that plan: same arguments, annotations, context, body and control structure, appended after existing plans. Asking transfers every plan with exactly the asked name, any number of times, and leaves the answering agent unchanged. Withdrawing a plan by its label removes exactly the plans so labelled.",
 ["programs", "histories"], "all plans the language can express (heads with constants, variables, structures; contexts with any operator; bodies with any control structure) and all sequences of teaching, asking and withdrawing",
 "Tests transfer three simple plans; faithfulness must hold for every plan.",
 [R, S, P], [("plan-to-text conversion and plan acquisition, ask and untell handling", R), ("message kinds for plans", S)],
 ["behaviour of the receiver compared with a directly programmed agent"]),
prop("C20", "Withdrawing a goal stops exactly the matching intentions",
 "A withdrawal message for a goal ends the receiver's executions of goals with that name, number of arguments and unifying arguments, and the goal's remaining steps never run; all other intentions, agents and beliefs are unaffected. It is harmless when nothing matches, at any moment of the target's execution. Agents keep working normally afterwards.",
 ["schedules", "histories"], "all moments of withdrawal relative to the execution of the target goal, and all sets of concurrent goals",
 "Tests withdraw one looping goal once; crashes depend on what the target was doing at that moment.",
 [R, S], [("removal of intentions on unachieve", R)],
 ["recorded effects after the withdrawal"]),
prop("C21", "Building n agents from one source gives n independent equal agents",
 "Creating several agents from one source yields that many agents with distinct names, each behaving exactly like an agent built alone from that source. Afterwards no agent's belief, plan or goal changes affect another. Building zero or fewer yields none.",
 ["programs", "histories"], "all programs, counts and subsequent divergent histories of the agents",
 "Tests build many agents but never let them diverge and never compare with individually built ones.",
 [R], [("prototype copying", R)],
 ["belief bases and recorded effects per agent"]),
prop("C22", "List, string and number library actions compute the documented function",
 "Concatenation, length, element access, sorting, minimum, maximum, tail, sub-string search, rounding, ranges, membership and type tests return, for every argument and both list notations, the value of the corresponding mathematical function, and enumerate all answers where several exist. If the result argument is already bound they succeed exactly when it equals the result. Arguments outside the domain raise an error or fail, and never yield a wrong value.",
 ["inputs"], "all argument combinations, result argument free, bound to the right or to a wrong value, list arguments in bracket or head-tail notation",
 "Tests call some of the actions once; agreement with the function is over all arguments and modes.",
 [S, X, A], [("library actions", S), ("extended library", X), ("argument conversion of function actions", A)],
 ["values bound or recorded"]),
prop("C23", "Aggregating actions see every answer once and bind nothing else",
 "Collecting all answers, counting answers and summing over answers process every answer of the query exactly once, including duplicates, beliefs and rule answers, with each collected value instantiated independently of the others. Apart from the result argument no variable is bound afterwards. With no answers the results are the empty list and zero.",
 ["programs", "inputs"], "all belief bases, rules, query literals and result patterns, with some pattern variables already bound",
 "Tests use one ground belief set; independence of answers and absence of side bindings need non-ground answers and duplicates.",
 [S, X, R], [(".findall, .count, .sum", S), ("term queries", R)],
 ["result values, bindings after the call"]),
prop("C24", "Python functions embedded as actions are called and answer faithfully",
 "A registered Python function, predicate or procedure is invoked once per execution with the declared argument conversions and the current values, its result is unified with the last argument, a false predicate fails the step, and injected agent or environment objects are those of the calling agent. Exact-arity registrations take precedence over variadic ones and child registries over their parents, and duplicate registrations are refused. Values the function receives are detached from later changes to the caller's variables.",
 ["inputs", "configurations"], "all argument conversions, arities, registry hierarchies and calling contexts",
 "Tests register one function; lookup precedence and conversion are relations over all configurations.",
 [A, R], [("action registry, argument specs, lookup chain", A), ("action queries", R)],
 ["arguments received by Python functions, results seen by plans"]),
prop("C25", "Agent names are unique, valid atoms and address the agent",
 "However agents are created and whatever source or explicit name they get, each agent's name is unique in its environment, is a valid atom of the language derived from the requested name, and is never a keyword. The name addresses exactly that agent in messages and is what the agent reports as its own name. Requesting the same name repeatedly yields numbered variants.",
 ["inputs", "histories"], "all source names and explicit names (paths, extensions, keywords, digits, punctuation, non-ASCII) and all creation histories",
 "Tests use two file names; validity is a statement over all strings.",
 [A, R], [("name sanitising", A), ("name allocation and registry", R)],
 ["agent names, .my_name, message delivery"]),
prop("C26", "Run-time failures surface as located errors and leave agents consistent",
 "Whenever a step of a plan fails or an action raises, running stops with the documented aggregated error after logging a message that carries the source position of the failing step; effects before it remain, nothing after it happens, and no error is swallowed. Other agents' state is untouched, and continuing to run the environment afterwards still executes their intentions. Diagnostics of any severity can be rendered with their source excerpt, underlining the reported columns.",
 ["programs", "fault_sequences"], "all plans with a failing step at any position, nesting depth and kind of failure",
 "Tests check success paths almost exclusively; failure can happen at every step kind and depth.",
 [R, A], [("error handling in step execution", R), ("logging of located diagnostics", A)],
 ["exceptions, log records, effects after the failure"]),
prop("C27", "The command line and the console run programs like the library does",
 "Running a program file or standard input from the command line produces the same output as the embedded interpreter, with exit status zero when it completes and non-zero, with a diagnostic, when it has errors or fails. The interactive console executes each entered line in order with variables kept between lines, reports an error in a line without losing earlier state, and does not re-execute a failed line. Multi-line input is executed once complete.",
 ["programs", "histories"], "all programs (valid, faulty, failing) and all sequences of console lines including erroneous ones",
 "The program tests only check for a zero exit status of passing programs; failing runs and console histories are not covered.",
 [R, "agentspeak/__main__.py", "agentspeak/util.py"], [("main entry point, console loop", R)],
 ["exit status, standard output"]),
prop("C28", "Simulation helpers follow their abstract models",
 "A schedule calls every registered callback at its start tick and, if it recurs, at every interval after that until its end tick inclusive, in registration order, exactly once per due tick, however the run is split into parts. The weighted directed graph reports as edges, degrees and nodes exactly what the history of edge increments implies, and asking never changes it. Choosing from an iterable returns one of its items, each equally likely.",
 ["histories", "inputs"], "all sequences of registrations and runs, all sequences of edge increments interleaved with queries, all iterables",
 "No test touches these helpers.",
 ["simse/helper.py"], [("schedule, graph and choice helpers", "simse/helper.py")],
 ["callback invocations per tick, degrees and node sets"]),
prop("C29", "Inspection and output actions tell the truth and change nothing",
 "Dumping an agent shows exactly its current beliefs, rules and plans, in program order per predicate, in text that reads back as the same terms and conditions. Printing and CSV output write, for each call, one line with the values of the arguments at that moment, under the name of the agent. Date and time actions give the local clock and check values that are already known. Inserting such actions, the control flow dump or a question for the own name anywhere in a program changes neither its effects nor its beliefs nor its outcome, however conditions backtrack through them. Unbinding all variables makes the rest of a plan run as if it were a plan of its own.",
 ["programs", "inputs"], "all programs with inspection actions at any place of bodies, conditions and rules; all rules and plan contexts; all argument values and modes; all time zones",
 "Tests never read the output of these actions; that reports are complete and harmless must hold in every state and at every place.",
 [R, S, X, A], [("dump of agents, text of conditions", R), ("print, csv, date, time, unbind_all, control_flow, my_name actions", S + ", " + X), ("text of terms", A)],
 ["standard output, files written, effects and beliefs of the program"]),
prop("C30", "The lexer and parser tools show exactly what the front end reads",
 "Run on a file, on several files or on standard input, the lexer tool lists every token in order with its position, and the parser tool prints a program text that reads back as the program read; any error gives a diagnostic and a non-zero exit status. The interactive forms treat a session as a sequence of chunks: an incomplete statement is continued on the next line, a complete chunk is shown at once and exactly once, an error discards the pending chunk and nothing else, positions name the line of the session, and the end of input ends the console normally.",
 ["inputs", "histories"], "all source texts and all interactive sessions split into lines at any token",
 "The tools have no tests; which lines are continued, shown or dropped depends on the whole history of a session.",
 [L, P], [("main and repl of the lexer", L), ("main and repl of the parser", P)],
 ["listed tokens, printed programs, prompts, diagnostics, exit status"]),
prop("C31", "Python code driving agents acts like the program steps it stands for",
 "Goals, tests, belief updates and withdrawals that Python code posts through an agent's methods, from inside an action on the running intention, as an intention of its own, or from outside between steps, have exactly the effects, events, bindings and failures of the corresponding plan steps or messages, and their return values tell the outcome. Python objects of any hashable type used as term values stay the same objects: they are unified and compared by equality, and pass through beliefs, goals, parameters, lists and rules like constants. An environment that overrides its clock is the only time that counts for waiting. Failed calls change nothing and leave the agent usable.",
 ["programs", "histories", "configurations"], "all programs with any of their steps executed by Python, all sequences of calls between runs, all value types, all clocks",
 "The examples call one goal from one action; equivalence with ordinary steps must hold for every program, moment and value.",
 [R, A], [("Agent.call, add_belief, test_belief, remove_belief; Environment.run, run_agent, time", R), ("unify, freeze, grounded for values without term methods; action registry", A)],
 ["recorded effects, return values of the methods, beliefs, times"]),
]
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
