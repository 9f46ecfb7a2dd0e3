"""Writes causysim/checks/meta.json and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CORE_REAL = ["causy.graph_model (pipeline execution, action application)", "causy.graph", "causy.generators",
             "causy.common_pipeline_steps.logic", "causy.models / interfaces / variables",
             "pickling of tasks, graph snapshots and results"]
POOL_STUB = ["multiprocessing pool, its feeder/result threads and processes: simulated tasks, same hand-over points",
             "thread scheduling: seeded baton scheduler that can switch at every source line of the code under test"]
WS_REAL = ["causy.workspaces.cli and causy.cli (whole commands through typer/click)", "causy.serialization",
           "causy.data_loader", "causy.ui.server (FastAPI application, routing, response models)", "pydantic, yaml, json",
           "the whole discovery library below them"]
WS_STUB = ["file system: in-memory model with page cache / durable state, crash, error and torn write injection",
           "wall clock: simulated (C shim under time(), gettimeofday(), clock_gettime())",
           "terminal prompts: a simulated user answers or aborts", "HTTP transport: requests are handed to the ASGI "
           "application directly", "process pool and thread scheduling as in the library checks"]
ASSUME = ["torch, numpy, scipy, pydantic and the Python interpreter behave as documented",
          "code under test is preempted at source-line granularity"]

FSASSUME = ["the file system keeps directory operations in order and renames atomically (as journalling file systems do); "
            "file data is durable only after fsync", "one fault strikes per command"]

CHECKS = {
    "c01": dict(runs=(1600, 60000), real=CORE_REAL + ["independence tests and the four PC algorithms"],
                stub=POOL_STUB, assumptions=ASSUME + ["p-values within 1e-6 of the threshold are not judged"],
                rule="Random linear model, sample size, threshold, algorithm, chunk sizes, worker count, queue bound and "
                     "schedule per seed; non-trivial: the run was preempted at least once or the algorithm is "
                     "sequential. Distinct: hash of case and ordered decisions.",
                note="Seeded search over schedules of feeder, workers and applying process; every removal and every "
                     "surviving edge is judged by an independent computation of the p-values."),
    "c02": dict(runs=(5000, 200000), real=CORE_REAL, stub=POOL_STUB + ["test steps: scripted"], assumptions=ASSUME,
                rule="Random programs of scripted steps (parallel, plain, synchronous, chunked, with unapplied actions; "
                     "in loops and groups) with random results, under a random schedule; every run is non-trivial. "
                     "Distinct: hash of case and ordered decisions.",
                note="Recorded proposals and taken actions are compared with what the scripted tests returned, replayed "
                     "on an independent reference graph."),
    "c03": dict(runs=(5000, 150000), real=CORE_REAL, stub=POOL_STUB + ["test steps: scripted"], assumptions=ASSUME,
                rule="As C02; the graph is queried between all steps and compared with the replayed history.",
                note="Reference model of nine graph actions; all public queries are compared with it and with each other "
                     "between any two steps."),
    "c04": dict(runs=(5000, 150000), real=CORE_REAL, stub=POOL_STUB + ["test steps: scripted"], assumptions=ASSUME,
                rule="As C02; each test call records the graph it was given.",
                note="The graph seen by each test call is compared with the state its mode promises."),
    "c05": dict(runs=(2400, 60000), real=CORE_REAL + ["independence tests, orientation rules, sample generators"],
                stub=["wall clock"], assumptions=ASSUME + ["sixteen fixed hash seeds; names vary per run"],
                rule="Random data, names, algorithm or sample generator per seed; each is executed in this process, again "
                     "after other runs with other random states and clock, and in a twin process with another hash "
                     "seed; everything must be identical.",
                note="Comparison of complete results between perturbed executions, including a process with a different "
                     "hash seed."),
    "c06": dict(runs=(1800, 40000), real=WS_REAL, stub=WS_STUB + ["one test step of the user's pipelines: scripted to "
                "raise at a chosen call"], assumptions=ASSUME + FSASSUME + ["a worker process does not die without "
                "raising (multiprocessing.Pool itself never returns then)"],
                rule="Random workspace, existing results and execute command; one cause of failure: a test raising at a "
                     "random call (in the main process or a worker), bad data, bad pipeline, bad variables, an I/O error "
                     "or an interrupt at a random operation or source line. Non-trivial: every run. Distinct: hash of "
                     "case, operations and decisions.",
                note="Every failing execution is compared with an execution of the same command without the failure: "
                     "exit status, stored versions, workspace file, and the result of executing again."),
    "c07": dict(runs=(2400, 60000), real=WS_REAL, stub=WS_STUB, assumptions=ASSUME + FSASSUME,
                rule="Random workspace, existing results and a random workspace command (three modes: one fault at a random "
                     "operation or source line; concurrent readers; two concurrent writers). Non-trivial: every run. "
                     "Distinct: hash of case, operations and decisions.",
                note="Seeded crash points, I/O faults and interleavings over the real commands on a simulated disk; the "
                     "workspace read by a new process must be the state before or after the command."),
    "c08": dict(runs=(1600, 40000), real=WS_REAL, stub=WS_STUB, assumptions=ASSUME + FSASSUME + [
                "executions of the same experiment do not overlap"],
                rule="Random workspace, earlier versions and a history of two to five executions (single, all, repeated "
                     "in one process, two experiments at once, with a fault at a random operation or line) with clock "
                     "steps in both directions between them and directory listings in any order. Non-trivial: every "
                     "run. Distinct: hash of case, operations and decisions.",
                note="After every step the stored versions are compared with the model (old bytes kept, one new complete "
                     "greater version per success) and with what the UI reports as latest."),
    "c09": dict(runs=(1000, 30000), real=WS_REAL, stub=WS_STUB, assumptions=ASSUME + FSASSUME + [
                "an input changes at most once during one execution"],
                rule="Random workspace and a history of edits to data, pipelines, variables and references, between "
                     "executions and at a random operation of an execution, and of executions cut short at a random "
                     "operation or line. Non-trivial: every run. Distinct: hash of case, operations and decisions.",
                note="The set of executed experiments is compared with the edits made, every latest result with a forced "
                     "execution on a copy of the disk, and a second execution must do nothing."),
    "c10": dict(runs=(1000, 30000), real=WS_REAL, stub=WS_STUB, assumptions=ASSUME,
                rule="Random workspace of two to five experiments over shared pipelines (files, python modules, built-in, "
                     "ejected) and a random history of executions, ejections, UI requests and library runs inside one "
                     "process. Non-trivial: every run. Distinct: hash of case, operations and decisions.",
                note="Every result is compared with the one the experiment gives alone in a fresh process, and that one with "
                     "a pipeline that has the expected values written into it."),
    "c11": dict(runs=(3000, 80000), real=WS_REAL, stub=WS_STUB, assumptions=ASSUME,
                rule="Random workspace with names, keys and values that look like other things, existing results, foreign "
                     "files, and a random history of workspace commands (valid, refused, cut short). Non-trivial: every "
                     "run. Distinct: hash of case, operations and decisions.",
                note="After each command the workspace a new process reads and all files of the directory are compared "
                     "with a model of the command."),
    "c12": dict(runs=(2400, 60000), real=WS_REAL, stub=WS_STUB, assumptions=ASSUME + FSASSUME,
                rule="Random workspace and stored versions; one or two clients requesting results while one or two commands "
                     "execute, clear or remove experiments (some killed or failing), interleaved at every source line and "
                     "file operation. Non-trivial: every run. Distinct: hash of case, operations and decisions.",
                note="Each response is judged against the versions that existed at each moment of its request."),
    "c13": dict(runs=(3000, 60000), real=WS_REAL, stub=WS_STUB, assumptions=ASSUME,
                rule="Random workspace and files, random interactive command and answers; the user aborts (Ctrl-C, end of "
                     "input, closed terminal) at a random prompt, up to three times, then answers everything. Non-trivial: "
                     "every run. Distinct: hash of case, operations and decisions.",
                note="The whole simulated disk is compared before and after the abort, and the repeated command with an "
                     "execution on a copy of the disk that was never aborted."),
    "c14": dict(runs=(5000, 150000), real=CORE_REAL, stub=POOL_STUB + ["test steps and hooks: scripted"],
                assumptions=ASSUME,
                rule="As C02 with up to two pre hooks (pass, veto, reverse, replace, drop) and two post hooks.",
                note="Hook calls are compared with the updates returned, released and applied, and with the graph visible "
                     "at each hook call."),
    "c15": dict(runs=(3000, 80000), real=CORE_REAL + ["orientation rules, the four PC algorithms"],
                stub=POOL_STUB + ["in 3 of 5 runs the skeleton phase: scripted removals with separating sets of a random "
                                  "DAG"], assumptions=ASSUME,
                rule="Random DAG with random valid separating sets removed in random order and mode, or random data; "
                     "judged when the separating sets are consistent with an acyclic graph (always in the first case).",
                note="Result compared edge by edge with an independently computed CPDAG; extendability decided by the "
                     "Dor-Tarsi algorithm."),
    "c16": dict(runs=(2400, 60000), real=WS_REAL, stub=WS_STUB + ["stored results: in part written by the harness"],
                assumptions=ASSUME,
                rule="Random stored versions with random edges, random selection of experiments and versions, alone, beside "
                     "random executions, clears and removals, or with an I/O fault or interrupt. Non-trivial: every run. "
                     "Distinct: hash of case, operations and decisions.",
                note="The table shown is compared with the one computed from the versions that were stored at some moment "
                     "of the command."),
    "c20": dict(runs=(4000, 120000), real=CORE_REAL + ["orientation rules", "separation queries"],
                stub=POOL_STUB + ["skeleton phase and the steps that ask: scripted"], assumptions=ASSUME,
                rule="Random DAG; its CPDAG, then the DAG itself, then the DAG with edges taken away one by one are made by "
                     "pipeline steps in random modes and schedules; in each, random queries by node and by id in the main "
                     "process and on the copies of parallel workers. Non-trivial: every run. Distinct: hash of case and "
                     "decisions.",
                note="Each answer is compared with the moral graph criterion on the graph the query was asked of."),
    "c21": dict(runs=(2500, 60000), real=CORE_REAL + ["all four independence tests", "CalculatePearsonCorrelations",
                                                   "generators"],
                stub=POOL_STUB, assumptions=ASSUME + ["decisions whose p value (t value) is within 1e-6 of the threshold are "
                                                      "not judged"],
                rule="Random data (shifted, scaled), thresholds, sequences of the four tests in random modes and schedules; "
                     "every single decision of every test, in the main process or on a worker's copy, is judged. Non-trivial: "
                     "at least one decision. Distinct: hash of case and decisions.",
                note="Oracle: own partial correlations and t test (numpy, scipy) on the data."),
    "c22": dict(runs=(3000, 80000), real=CORE_REAL + ["ComputeDirectEffectsInDAGsMultivariateRegression"],
                stub=POOL_STUB + ["the step that directs the edges: scripted"], assumptions=ASSUME,
                rule="Random data and random partially directed graphs, effects computed in every mode (parallel, synchronous, "
                     "collected, in loops and groups, once or again after edges changed) and schedule. Non-trivial: at least "
                     "one directed edge. Distinct: hash of case and decisions.",
                note="Edge data compared with numpy least squares on the parents the graph had when the step ran."),
    "c23": dict(runs=(6000, 150000), real=["causy.sample_generator", "causy.graph"],
                stub=["random number source: seeded, recorded, can fail", "torch's normal distribution for initial values: "
                      "seeded"], assumptions=ASSUME,
                rule="Random generators (i.i.d. and time series), histories of calls of one or two of them, the random source "
                     "failing at any draw. Non-trivial: every run. Distinct: hash of case and decisions.",
                note="The residual of every equation has to be one of the recorded draws, each used exactly once."),
    "c24": dict(runs=(1500, 40000), real=WS_REAL, stub=WS_STUB, assumptions=ASSUME,
                rule="Random algorithms (steps, settings, references, groups, loops, generators, edge types) and the shipped "
                     "ones, written by one simulated process in five ways (with faults and a power loss while a command "
                     "writes), loaded and run by others under the schedule the algorithm itself ran under. Non-trivial: every "
                     "run. Distinct: hash of case, operations and decisions.",
                note="The loaded algorithm is compared setting by setting with the original, its result with the result of "
                     "the original under the same schedule, and the stored result with the object the run produced."),
    "c25": dict(runs=(12000, 300000), real=WS_REAL, stub=WS_STUB, assumptions=ASSUME,
                rule="Random directories beside the workspace, random links inside it, random references (plain, parent "
                     "directories, absolute, links, links redirected while the reference is followed), followed by the "
                     "loader, the UI and three commands, with failing look-ups, I/O errors, interrupts and kills. "
                     "Non-trivial: every run. Distinct: hash of case, operations and decisions.",
                note="Every file the simulated process opens is recorded under its real path; where the reference leads "
                     "is computed independently."),
}

NA = {
}


def main():
    meta, checks = {}, []
    for c, d in sorted(CHECKS.items()):
        prop = c.upper()
        meta[c] = {"property": prop, "runs": {"quick": d["runs"][0], "thorough": d["runs"][1]}, "rule": d["rule"],
                   "real": d["real"], "stub": d["stub"], "assumptions": d["assumptions"]}
        for k in ("probes", "cap", "det_sample", "level"):
            if k in d:
                meta[c][k] = d[k]
        checks.append({"property": prop,
                       "quick_cmd": "/opt/venv/bin/python -m causysim.runner %s quick" % c,
                       "thorough_cmd": "/opt/venv/bin/python -m causysim.runner %s thorough" % c,
                       "technique": "deterministic simulation with fault injection (seeded schedules and faults)",
                       "level": d.get("level", "exploration"), "level_note": d["note"]})
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    na = [{"property": p, "reason": NA.get(p, "under construction")} for p in props if p.lower() not in CHECKS]
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m compileall -q causysim && gcc --version >/dev/null",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: seams are patched from outside inside the check's own processes. "
                    "Replay: /opt/venv/bin/python -m causysim.runner --replay <file>."}
    json.dump(meta, open(os.path.join(HERE, "causysim", "checks", "meta.json"), "w"), indent=1)
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
