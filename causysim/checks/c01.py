"""C01: the skeleton is sound and complete under every schedule."""
import atexit
import itertools
import json
import os
import shutil
import tempfile

from ..core import Violation
from ..lib import (C, EPS, NAMES, Stats, adjacency, all_steps, as_columns, as_rows, build_model, fresh_algorithm,
                   gen_data, history, must, reset_run, run_model, setup_lib)
from ..pool import PoolWorld
from ..sched import Sched

setup = setup_lib

ALGOS = ("ParallelPC", "ParallelPC", "ParallelPC", "PC", "PCClassic", "PCStable")


def run(sim):
    reset_run(sim)
    algo_name = sim.pick(ALGOS)
    x, info = gen_data(sim, 3, 6 if algo_name == "ParallelPC" or not sim.chance(1, 4) else 7)
    names = NAMES[:x.shape[1]]
    thr = sim.pick((0.05, 0.01, 0.2, 0.5))
    algo = fresh_algorithm(algo_name)
    variables = {"threshold": thr}
    if algo_name == "ParallelPC":
        variables["every_nth_sample"] = sim.pick((1, 3, 200))
    chunks = []
    for s in all_steps(algo):
        if getattr(s, "parallel", False):
            s.chunk_size_parallel_processing = sim.pick((1, 2, 3, 7, 50000))
            chunks.append(s.chunk_size_parallel_processing)
    source = sim.pick(("columns", "rows", "json rows", "json columns", "jsonl"))
    data = as_rows(x, names) if "rows" in source or source == "jsonl" else as_columns(x, names)
    if "json" in source:
        data = from_file(source, data)
    info.update(source=source, algorithm=algo_name, threshold=thr, chunks=chunks)
    sim.desc = info
    st = Stats(x, names)
    skel = {}

    with Sched(sim) as sched, PoolWorld(sim, sched) as pw:
        model = must("building the model", build_model, algo, variables)

        def on_step(name):
            if name == "ColliderTest":
                skel["adj"] = adjacency(model.graph)

        must("the discovery run", run_model, model, data, on_step)
        sim.nontrivial = sched.switches > 0 or algo_name != "ParallelPC"
        if sched.switches:
            sim.probe("preempted_run")
    if "adj" not in skel:
        skel["adj"] = _skeleton_from_history(model.graph, names)
    judge(sim, model.graph, skel["adj"], st, names, thr, algo_name)


FILE = []


def from_file(source, data):
    """The data loader of a file with that data."""
    from causy.data_loader import DataLoaderReference, load_data_loader
    if not FILE:
        FILE.append(os.path.join(tempfile.mkdtemp(prefix="causysim-c01-"), "data"))
        atexit.register(shutil.rmtree, os.path.dirname(FILE[0]), True)
    with open(FILE[0], "w") as f:
        if source == "jsonl":
            f.writelines(json.dumps(r) + "\n" for r in data)
        else:
            json.dump(data, f)
    return load_data_loader(DataLoaderReference(type="jsonl" if source == "jsonl" else "json", reference=FILE[0]))


def _skeleton_from_history(graph, names):
    gone = set()
    A = C["Action"]
    for s in history(graph):
        for a in s.actions:
            if a.action == A.REMOVE_EDGE_UNDIRECTED:
                gone.add(frozenset((a.u.id, a.v.id)))
    return {frozenset(p) for p in itertools.combinations(names, 2)} - gone


def judge(sim, graph, adj, st, names, thr, algo_name):
    A = C["Action"]
    removed = {}
    for s in history(graph):
        for a in s.actions:
            if a.action == A.REMOVE_EDGE_UNDIRECTED:
                removed.setdefault(frozenset((a.u.id, a.v.id)), []).append([n.id for n in a.data["separatedBy"]])
    pairs = [frozenset(p) for p in itertools.combinations(names, 2)]
    final = adjacency(graph)
    for p in pairs:
        u, v = sorted(p)
        if p not in adj:
            if p in final:
                raise Violation("resurrected-edge", "%s-%s was separated but is adjacent in the result" % (u, v))
            # the separating set that was actually applied
            app = [h for h in graph.retrieve_edge_history(u, v, A.REMOVE_EDGE_UNDIRECTED)]
            if len(app) != 1:
                raise Violation("removal-not-recorded-once",
                                "%s-%s is not adjacent but has %d applied removals" % (u, v, len(app)))
            back = [h for h in graph.retrieve_edge_history(v, u, A.REMOVE_EDGE_UNDIRECTED)]
            if len(back) != 1:
                raise Violation("removal-not-recorded-once",
                                "%s-%s: removal is recorded for one direction only" % (u, v))
            s = [n.id for n in app[0].data["separatedBy"]]
            if p not in removed:
                raise Violation("removal-not-in-history", "%s-%s removed, not in the action history" % (u, v))
            if not any(set(s) == set(r) for r in removed[p]):
                raise Violation("separating-set-mismatch",
                                "%s-%s: edge history says %s, action history %s" % (u, v, s, removed[p]))
            if set(s) & set(p) or len(set(s)) != len(s):
                raise Violation("unsound-removal", "%s-%s separated by %s" % (u, v, s))
            pv = st.p(u, v, s)
            if not pv > thr - EPS:
                raise Violation("unsound-removal", "%s-%s removed given %s but p=%.6f <= %.3f" % (
                    u, v, sorted(s), pv, thr))
            sim.probe("removal_by_%d" % len(s))
        else:
            if p in removed:
                raise Violation("removed-but-adjacent",
                                "%s-%s has a recorded removal but is in the skeleton" % (u, v))
            sim.probe("surviving_edge")
            nb = {a: {(set(q) - {a}).pop() for q in adj if a in q} - set(p) for a in p}
            common = nb[u] & nb[v]
            if algo_name == "PCStable":
                everyone = set(names) - set(p)
                cands = [c for k in range(0, len(everyone) + 1) for c in itertools.combinations(sorted(everyone), k)]
            else:
                cands = [()]
                ones = (nb[u] | nb[v]) if algo_name == "PCClassic" else common
                cands += [(z,) for z in sorted(ones)]
                seen = set()
                for a in (u, v):
                    for k in range(2, len(nb[a]) + 1):
                        for c in itertools.combinations(sorted(nb[a]), k):
                            if c not in seen:
                                seen.add(c)
                                cands.append(c)
            for c in cands:
                sim.probe("completeness_test_size_%d" % min(len(c), 3))
                pv = st.p(u, v, c)
                if pv > thr + EPS:
                    raise Violation("missed-removal",
                                    "%s-%s kept although it is separated by %s (p=%.6f > %.3f)" % (
                                        u, v, list(c), pv, thr))
