"""Writes /verif/properties.jsonl (kept as a script so the text is readable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


GM = "causy/graph_model.py"
WS = "causy/workspaces/cli.py"
IT = "causy/causal_discovery/constraint/independence_tests/common.py"
OR = "causy/causal_discovery/constraint/orientation_rules/pc.py"
PCF = "causy/causal_discovery/constraint/algorithms/pc.py"
GR = "causy/graph.py"
GEN = "causy/generators.py"
LOGIC = "causy/common_pipeline_steps/logic.py"
SER = "causy/serialization.py"
UI = "causy/ui/server.py"
DL = "causy/data_loader.py"
VAR = "causy/variables.py"
SG = "causy/sample_generator.py"

prop("C01", "The learned skeleton is sound and complete under every schedule",
     "For every dataset and every order in which tests are handed to, finished by and reported from parallel workers "
     "(any chunk size, worker count or sampling rate), a discovery run of the PC family ends without error, and two "
     "variables are non-adjacent only because of exactly one applied removal whose recorded separating set makes them "
     "conditionally independent at the configured threshold. Two variables left adjacent in the skeleton are dependent "
     "at that threshold unconditionally, given any single variable adjacent to both, and given any larger subset of "
     "the remaining neighbours of either of them.",
     ["schedules", "inputs", "configurations"],
     "all interleavings of task generation, graph snapshots, worker completion and removal; all datasets and "
     "thresholds; all chunk sizes and sampling rates",
     "Tests run ParallelPC on a few generated models with the real pool and whatever schedule happens; none looks at "
     "a snapshot taken in the middle of a removal or at a late result for an already removed edge.",
     [GM, IT, GEN, PCF],
     [("existence check before a removal, soft deletion while tasks are generated, purge after the step", GM),
      ("stale tasks are dropped when the edge or a neighbour is gone", IT)],
     [("action_history", "applied and proposed actions per step", GR), ("edge_history", "applied actions per edge", GR)],
     ["final graph", "edge history", "action history"])

prop("C02", "Every proposed graph change is accounted for exactly once",
     "In every execution mode (parallel, chunked, applied synchronously, collected, inside loops and groups) and under "
     "every schedule, every combination a step's generator yields is tested exactly once, and each action a test "
     "returns appears exactly once and unaltered among the recorded proposals of that step (after any pre-update "
     "hooks), and nothing else does. The recorded taken actions of a step are exactly the proposals that found their "
     "target and were applied, in the order in which they were applied.",
     ["schedules", "inputs", "programs"],
     "all pipelines of test steps, all results they may return (nothing, one action, several), all worker schedules",
     "Tests count actions of fixed pipelines in the order one real schedule produces; they never compare what the "
     "workers returned with what was recorded.",
     [GM, LOGIC, "causy/graph_utils.py", "causy/models.py"],
     [("results are flattened and appended while they arrive", GM), ("loops and groups record every inner step", LOGIC)],
     [("ActionHistoryStep", "actions and all_proposed_actions", "causy/models.py")],
     ["action history"])

prop("C03", "The graph is exactly what its recorded history says",
     "At every point between two steps the graph - adjacency, direction, edge types, edge data, parents, edge history "
     "and every query over them - equals the result of applying the recorded taken actions in order to the initial "
     "graph, whatever schedule produced them. Different queries never contradict each other, and removed edges are "
     "never reported by any of them.",
     ["schedules", "histories", "inputs"],
     "all sequences of the graph actions (update, retype, remove, restore; directed or not) in any arrival order",
     "Tests check single operations on tiny graphs; sequences mixing removal, restoration and retyping, arriving in an "
     "order decided by workers, are not covered.",
     [GM, GR],
     [("guarded application of each action kind", GM), ("forward and reverse edge maps kept in step", GR)],
     [("edges / _reverse_edges / _deleted_edges", "current and removed edges", GR)],
     ["edge queries", "retrieve_edges", "parents_of_node", "edge history"])

prop("C04", "Steps see exactly the graph their mode promises",
     "Steps grouped to apply their actions together all see the graph as it was before the group, and the group's "
     "actions are applied once, when the group ends. A step that applies synchronously sees all its earlier results "
     "applied, a chunked step sees all earlier chunks but nothing of the current one, any other sequential step sees "
     "none of its own results but is handed its unapplied earlier results if it asks for them, and a parallel test sees "
     "every step before it completely applied. A loop repeats its steps in order until its exit condition holds, "
     "and then stops.",
     ["schedules", "programs"],
     "all compositions of steps and modes, all worker schedules",
     "Tests look at final graphs of the built-in algorithms, not at the graph each individual test call saw.",
     [GM, LOGIC, GEN],
     [("dry run of grouped steps, one application at the end", LOGIC), ("mode dispatch", GM)],
     [], ["the graph passed to each test call"])

prop("C05", "Results are reproducible",
     "Running the same sequential algorithm (such as PC, PCClassic or PCStable; not one that asks for shuffling or "
     "sampling) with the same settings on the same data gives the same graph, edge data, separating sets and action history, whatever the interpreter's hash seed, the state of the global random number "
     "generators, the wall clock and whatever ran before in the same process. A sample generator with a fixed seed "
     "gives the same data and ground truth graph under the same variations.",
     ["configurations", "histories", "inputs"],
     "all hash seeds, random generator states, clock readings and earlier runs in the process",
     "The test suite runs under one fixed hash seed, from one process history, and most assertions are on the final "
     "edge set only.",
     [GEN, IT, OR, SG, GM],
     [("ordered node dictionary and deterministic iteration", GR), ("explicit generator with a seed", SG)],
     [], ["result graph", "action history", "generated samples"])

prop("C06", "A failing execution fails loudly and leaves nothing behind",
     "If anything goes wrong while an experiment executes - a test raising in a worker or in the main process, an "
     "unreadable or invalid data file, a failing write, an interrupt - the command reports failure, no result version "
     "appears for the failed execution, and the workspace file and all existing results are unchanged. Executing again "
     "once the cause is gone succeeds and gives the same result as if nothing had failed.",
     ["fault_sequences", "schedules", "crash_points"],
     "all failure kinds (other than a worker process killed from outside, on which the operating system's process pool "
     "never returns) at all points of an execution, with any set of existing results",
     "No test injects a failure into an execution.",
     [WS, GM, DL],
     [("a result is written only after the pipeline has ended", WS), ("worker exceptions travel through the pool", GM)],
     [], ["exit status", "workspace directory"])

prop("C07", "The workspace file is never torn or lost",
     "Whatever workspace command is cut short, at whatever instant, by a process kill, a power loss, an I/O error or a "
     "full disk, the workspace file afterwards is complete and is either the state before that command or the state the "
     "command was writing. A change whose command reported success survives a process kill, and a concurrent reader "
     "never sees a partial file.",
     ["crash_points", "fault_sequences", "schedules"],
     "all instants of all workspace commands that write the workspace file; all sets of writes lost on power failure",
     "There are no tests of workspace commands at all; none could crash a process between two system calls.",
     [WS],
     [("workspace is written to a temporary file that replaces the old one", WS)],
     [("workspace.yml", "the whole workspace definition", WS)], ["workspace.yml after restart"])

prop("C08", "Result versions are durable, unique and ordered",
     "Where executions of the same experiment follow one another (others may run at the same time), every execution that "
     "reports success adds exactly one new complete result version with a number greater than all "
     "earlier versions of that experiment, also within the same second and after the wall clock stepped backwards; no "
     "execution modifies or removes an existing version. A kill, power loss or I/O error at any instant leaves only "
     "complete versions, and the version reported as latest is the result of the most recent successful execution.",
     ["crash_points", "histories", "fault_sequences"],
     "all sequences of executions, all clock behaviour, all crash points",
     "Tests never execute an experiment twice and never move the clock.",
     [WS, "causy/models.py"],
     [("time stamped version files, listing sorted by number", WS)],
     [("<experiment>_<version>.json", "one stored result", WS)], ["result files", "latest version"])

prop("C09", "Re-execution is skipped exactly when nothing changed",
     "Executing all experiments skips an experiment only if its latest stored result was computed from the current "
     "pipeline, the current variable values and the current data; it does skip it when nothing changed, so a second "
     "execution does no work. This also holds when data or settings changed (each at most once) while an execution was running, and after "
     "a crash a new execution completes exactly the missing work.",
     ["histories", "schedules", "crash_points"],
     "all sequences of edits to data, pipeline and variables, also concurrent with executions; all crash points",
     "No test exercises the decision to skip; the race between loading data and fingerprinting it cannot be sampled.",
     [WS, DL, "causy/graph_utils.py"],
     [("hashes of algorithm, variables and data stored with the result and compared", WS)],
     [("data_loader_hash, algorithm_hash, variables_hash", "fingerprints of the inputs", "causy/models.py")],
     ["which experiments execute", "stored results"])

prop("C10", "Experiments do not influence each other",
     "The stored result of an experiment is the one its own pipeline, its own variable values (defaults where unset) "
     "and its own data give when run alone, no matter which other experiments were executed before it in the same "
     "process, in which order, or how often. Executing an experiment changes neither the pipelines available to later "
     "ones nor their defaults.",
     ["histories", "configurations"],
     "all sequences of executions in one process over shared pipelines with different variables and data",
     "Tests run one model per process state and never compare an experiment with its stand-alone run.",
     [WS, SER, VAR, GM],
     [("pipelines are copied before variables are filled in", SER)],
     [], ["stored results"])

prop("C11", "Workspace commands change what they name and nothing else",
     "Every sequence of workspace commands leaves the workspace file equal to a simple model: each command adds, "
     "removes or updates exactly the named entry, everything else (names, variables, references) reads back exactly as "
     "it was stored, and a pipeline or data loader still used by an experiment is never removed. Removing or clearing "
     "an experiment deletes exactly its own result versions, never files of other experiments or of the user, and "
     "foreign files never make a command fail.",
     ["histories", "inputs"],
     "all command sequences, names, variable values and directory contents",
     "There are no tests of workspace commands; a handful of examples would not meet names that look like numbers or "
     "experiments whose names are prefixes of each other.",
     [WS, "causy/workspaces/models.py"],
     [("read, modify, write of the workspace file", WS), ("version file name parsing", WS)],
     [("workspace.yml", "the whole workspace definition", WS)], ["workspace.yml", "workspace directory"])

prop("C12", "The UI serves consistent results while the workspace changes",
     "While experiments are executed, cleared or fail concurrently, every response of the UI API for experiments and "
     "their results is either a complete stored result labelled with its own version or a clean client error, never a "
     "server error, a partial result or a result under another version's label. A version that exists during the whole "
     "request is served, and latest is at least as new as the newest version that existed when the request began, "
     "unless it was removed meanwhile.",
     ["schedules", "histories"],
     "all interleavings of API requests with executions and removals",
     "UI tests query a static directory.",
     [UI, WS],
     [("results are read from version files on each request", UI)],
     [], ["HTTP responses"])

prop("C13", "Aborting a prompt changes nothing",
     "If the user aborts any prompt of any interactive workspace command, at any prompt and after any earlier answers, "
     "the workspace file and all other files in the workspace are exactly as before the command and no success is "
     "reported. Running the command again afterwards works.",
     ["histories", "fault_sequences"],
     "all interactive commands, all prompts, all earlier answers",
     "No test answers or aborts a prompt.",
     [WS],
     [("the workspace is written only after the last prompt", WS)],
     [], ["workspace directory", "output"])

prop("C14", "Update hooks see and control exactly the applied updates",
     "Pre-update hooks receive every proposed update before it is applied, and exactly the updates they return are "
     "applied, in that order. Post-update hooks are told each update that was really applied exactly once, after it is "
     "visible in the graph, and never one that was not applied - in all execution modes, groups and schedules.",
     ["schedules", "programs"],
     "all execution modes, worker schedules, hook decisions",
     "Tests use one hook in one sequential pipeline.",
     [GM, LOGIC, "causy/interfaces.py"],
     [("hooks called around the application of each result", GM)],
     [], ["calls of user hooks"])

prop("C15", "Orientation follows the separating sets and reaches its fixpoint",
     "Whenever the skeleton and the separating sets found - under whatever schedule - are consistent with some acyclic "
     "causal graph, the final graph orients exactly the edges whose direction is forced: unshielded colliders whose "
     "middle node is not in the separating set, directions stated correctly by earlier steps, and everything that "
     "follows from them by the orientation rules. The orientation loop always ends, and then no rule applies any more.",
     ["schedules", "inputs"],
     "all skeletons and separating sets that parallel runs can produce",
     "Tests orient a dozen hand-written graphs; schedules that yield different separating sets are not explored.",
     [OR, LOGIC, GM],
     [("collider test on recorded separating sets, rule loop until nothing changes", OR)],
     [], ["final graph"])

prop("C16", "Comparing results shows what the stored versions say",
     "Comparing experiments or versions shows one column per requested result, filled from exactly one complete stored "
     "version - the requested one, or for a bare experiment name the newest - and one row per pair of variables connected "
     "in any of them, each cell giving the kind and the direction of the edge in that version, or nothing. With "
     "--only-differences exactly the pairs on which all compared versions agree are left out. This also holds while "
     "experiments are executed, cleared or removed at the same time; a result that can not be found or read leads to an "
     "error and no table, and comparing changes no file.",
     ["histories", "schedules", "inputs"],
     "all stored results, selections of versions and interleavings with executions and removals",
     "No test compares results; examples would not meet edges of opposite direction or a version appearing meanwhile.",
     [WS, "causy/interfaces.py", "causy/edge_types.py"],
     [("versions are loaded once each, edges matched by their nodes", WS)],
     [], ["output of workspace diff"])

prop("C20", "Separation queries are right whenever and wherever they are asked",
     "On every directed acyclic graph and on every CPDAG the orientation rules produce, are_nodes_d_separated_dag and "
     "are_nodes_d_separated_cpdag answer exactly the graphical criterion (d-separation; in a CPDAG, in every graph it stands "
     "for) for the graph as it is at that moment: after any history of added, directed and removed edges, in the main "
     "process and on the copy a pool worker got, whether nodes and conditioning set are given as nodes or as ids. Edges "
     "that were removed or lost a direction do not count. A query whose conditioning set contains one of the two nodes is "
     "refused with a ValueError.",
     ["histories", "schedules", "inputs"], "all graphs, histories of changes, processes, node pairs and conditioning sets",
     "Tests ask a few questions of hand-written graphs nothing was ever removed from.", [GR],
     [("path enumeration with collider rules", GR)], [], ["are_nodes_d_separated_dag", "are_nodes_d_separated_cpdag"])
prop("C21", "Every independence test decides like the textbook test",
     "Whatever the data (any location and scale that is not degenerate), the threshold, the execution mode and the schedule: "
     "each decision of CorrelationCoefficientTest, PartialCorrelationTest and ExtendedPartialCorrelationTestMatrix is that of "
     "Fisher's z test, and of ExtendedPartialCorrelationTestLinearRegression that of the t test, on the (partial) "
     "correlation of the nodes it was asked about, at the step's own threshold: independent gives a removal whose "
     "separating set is exactly the condition, dependent gives no change. A test gives a decision for every question that "
     "the graph it was asked on admits, and the correlations kept on the edges are those of the data; one a "
     "hook refuses is not put there.",
     ["schedules", "inputs"], "all non-degenerate data, thresholds, modes and schedules",
     "Tests check a few samples with one setting each.",
     [IT, "causy/math_utils.py", "causy/common_pipeline_steps/calculation.py"],
     [("Fisher z / t test formulas", IT), ("critical value", "causy/math_utils.py")], [], ["process() of the tests"])
prop("C22", "Direct effects are the regression coefficients on the graph as it was",
     "Whatever the execution mode and schedule of the step, once or repeated, alone or in a group: after "
     "ComputeDirectEffectsInDAGsMultivariateRegression every directed edge carries as direct_effect exactly the least-squares "
     "coefficient (no intercept) of the cause in the regression of the effect on all variables with an edge into it, as the "
     "graph was when the step ran. Edges without a direction get none, an update refused by a hook leaves the edge as it "
     "was, and all other edges and edge data stay as they were.",
     ["schedules", "histories", "inputs"], "all data, partially directed graphs, modes, schedules and refusals",
     "Tests check a few graphs with the step run once, sequentially.",
     ["causy/causal_effect_estimation/multivariate_regression.py", GM],
     [("least squares", "causy/causal_effect_estimation/multivariate_regression.py")], [], ["edge metadata"])
prop("C23", "Generated samples are what the declared equations make of the random draws",
     "For every acyclic declaration IIDSampleGenerator, and for every stationary one with lags of at least one step "
     "TimeseriesSampleGenerator (from the step on at which all lagged values exist), gives samples in which every value "
     "minus the declared linear combination of its parents is one of the numbers drawn from the random source, each used "
     "exactly once, together with a graph with those values and exactly the declared edges. This holds for any history of "
     "calls of any generators, also after the random source failed at any draw: calls do not influence each other, what was "
     "returned or declared before stays as it is. A cyclic i.i.d. declaration is refused instead of running forever.",
     ["histories", "fault_sequences", "inputs"], "all declarations, sizes, histories of calls and failing draws",
     "Tests use constant noise and fixed models.", [SG], [("equation evaluation order", SG)], [], ["generate()"])
prop("C24", "Stored pipelines run like the algorithm they were written from",
     "The settings a pipeline step or generator is made with, and the values given for the variables it refers to, are the ones in force, whatever they are (also 0, False or empty). An algorithm written to a pipeline file - by ejecting it, or serialised with any steps, settings, variable "
     "references, groups, loops, generators and edge types - and loaded by a later process has the same settings and "
     "gives, for the same data, variable values and schedule of its workers, the same result as the algorithm itself; "
     "written again it is the same. A command that ejects a pipeline and is cut short leaves the whole pipeline or none "
     "that can be loaded. A stored result read back by a later process says exactly what the run computed.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "all algorithms, variable values, schedules and moments at which writing is cut short",
     "Tests check some fixed pipelines and compare parts of the text.", [SER, VAR, WS],
     [("step and variable (de)serialisation", SER)])
prop("C25", "Pipeline references cannot leave the workspace",
     "Whatever pipeline file reference is stored in the workspace file or asked for in the UI - with parent directories, "
     "absolute, through links, or naming a directory whose name merely starts like the workspace's - causy never opens a "
     "file outside the workspace directory to follow it: such a reference is refused and changes nothing, also while a "
     "link is redirected and when looking up the path fails half-way. A reference to a pipeline file inside the workspace "
     "is followed to exactly that file.", ["schedules", "fault_sequences", "inputs"],
     "all reference strings, directory layouts and moments at which a link changes or a look-up fails",
     "Tests check one or two strings in a fixed directory.", [SER, UI], [("path prefix check", SER)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
