"""C15: orientation follows the separating sets and reaches its fixpoint."""
import itertools

from ..core import Discard, Violation
from ..dag import cpdag, dsep, open_rules, orient
from ..lib import (C, NAMES, adjacency, all_steps, as_columns, build_model, fresh_algorithm, gen_matrix, history, must,
                   reset_run, run_model, setup_lib)
from ..pool import PoolWorld
from ..sched import Sched

setup = setup_lib

ALGOS = ("ParallelPC", "PC", "PCClassic", "PCStable")


def run(sim):
    reset_run(sim)
    if sim.chance(3, 5):
        oracle(sim)
    else:
        data(sim)


def set_chunks(sim, algo):
    for s in all_steps(algo):
        if getattr(s, "parallel", False):
            s.chunk_size_parallel_processing = sim.pick((1, 2, 3, 7, 50000))


def data(sim):
    """Whole algorithm on data."""
    n = sim.rint(3, 6)
    rows, dens, seed = sim.pick((500, 100, 40, 2000)), sim.pick((0.4, 0.6, 0.8)), sim.draw(1 << 16)
    x = gen_matrix(seed, n, rows, dens)
    names = NAMES[:n]
    name = sim.pick(ALGOS)
    algo = fresh_algorithm(name)
    variables = {"threshold": sim.pick((0.01, 0.05, 0.005, 0.2))}
    if name == "ParallelPC":
        variables["every_nth_sample"] = sim.pick((1, 3, 200))
    set_chunks(sim, algo)
    strategy(sim, algo)
    sim.desc = {"mode": "data", "algorithm": name, "nodes": n, "rows": rows, "density": dens, "data_seed": seed,
                "variables": variables}
    skel = {}
    with Sched(sim) as sched, PoolWorld(sim, sched):
        model = must("building the model", build_model, algo, variables)

        def on_step(s):
            if s == "ColliderTest" and "adj" not in skel:
                skel["adj"] = adjacency(model.graph)
        try:
            must("the discovery run", run_model, model, as_columns(x, names), on_step)
        except Violation as v:
            if v.kind == "half-removed-edge-snapshot":      # F14, reported by C01
                raise Discard()
            raise
    sim.nontrivial = True
    judge(sim, model.graph, skel.get("adj"), names)


def oracle(sim):
    """Orientation rules on a skeleton whose separating sets come from a random DAG."""
    from .. import scripted as S
    shape = sim.pick(("random", "random", "random", "chain", "tree"))
    n = sim.rint(3, 7) if shape == "random" else sim.rint(5, 9)
    names = (NAMES + ["I"])[:n]
    perm = sim.shuffled(names)
    dens = sim.pick((2, 1, 3))
    parents = {a: set() for a in names}
    for i, a in enumerate(perm):
        if shape == "random":
            parents[a].update(b for b in perm[:i] if sim.chance(dens, 4))
        elif i == 2 or i > 2 and sim.chance(1, 8):
            # long ways for the rules to go: a collider, then one edge after the other
            parents[a].update(sim.shuffled(perm[:i])[:2])
        elif i > 2:
            parents[a].add(perm[i - 1] if shape == "chain" else sim.pick(perm[2:i]))
    plan, sep = [], {}
    for u, v in itertools.combinations(names, 2):
        if u in parents[v] or v in parents[u]:
            continue
        rest = [z for z in names if z not in (u, v)]
        cands = (c for k in range(len(rest) + 1) for c in itertools.combinations(rest, k) if dsep(parents, u, v, c))
        s = sim.pick(list(itertools.islice(cands, 6)))
        a, b = (u, v) if sim.chance(1, 2) else (v, u)
        plan.append((a, b, s))
        sep[frozenset((u, v))] = set(s)
    plan = sim.shuffled(plan)
    mode = sim.pick(("parallel", "plain", "sync", "group", "chunked"))
    step = SepStep(plan=[list(p) for p in plan], mode=mode, chunk=sim.pick((1, 2, 5)))
    origin = sim.pick(("PC",) + ALGOS)
    rules = fresh_algorithm(origin).pipeline_steps
    at = [i for i, s in enumerate(rules) if type(s).__name__ == "ColliderTest"][0]
    rules = [s for s in rules[at:] if not type(s).__name__.startswith("Compute")]
    from causy.common_pipeline_steps.logic import ApplyActionsTogether
    known = []
    if sim.chance(1, 2):
        # directions known beforehand: a step between the colliders and the other rules states some of them
        true = [(b, a) for a in names for b in sorted(parents[a])]
        known = sim.shuffled(true)[:sim.rint(1, 4)]
        if known:
            rules.insert(1, KnownStep(plan=[[b, a] for a, b in known]))
            sim.probe("known_directions", len(known))
    first = ApplyActionsTogether(pipeline_steps=[step]) if mode == "group" else step
    algo = fresh_algorithm("PC")
    algo.pipeline_steps = [first] + rules
    algo.variables = []
    strategy(sim, algo)
    sim.desc = {"mode": "oracle", "rules_of": origin, "nodes": n, "dag": {a: sorted(p) for a, p in parents.items()}, "removal": mode,
                "known": [list(k) for k in known], "separators": [[a, b, list(s)] for a, b, s in plan]}
    with Sched(sim) as sched, PoolWorld(sim, sched):
        model = must("building the model", build_model, algo, {})
        must("the run", run_model, model, {a: [0.0, 1.0, 2.0] for a in names})
    sim.nontrivial = True
    adj = {frozenset((a, b)) for a in names for b in parents[a]}
    d = judge(sim, model.graph, adj, names, sep, known)
    if d is None:
        from ..core import HarnessError
        raise HarnessError("a DAG's own separating sets must be consistent")
    sim.probe("oracle_directed", len(d))
    sim.probe("oracle_undirected", len(adj) - len(d))


def strategy(sim, algo):
    if sim.chance(1, 3):
        for s in all_steps(algo):
            if type(s).__name__ == "ColliderTest":
                cls = type(type(s).model_fields["conflict_resolution_strategy"].default)
                s.conflict_resolution_strategy = cls.KEEP_LAST


def judge(sim, graph, adj, names, sep=None, known=()):
    A = C["Action"]
    D = lambda u, v: bool(graph.directed_edge_exists(u, v))
    left = open_rules(lambda u, v: D(u, v) and not D(v, u), lambda u, v: D(u, v) and D(v, u), names)
    if left:
        raise Violation("no-fixpoint", "the orientation ended with " + left[0])
    if sep is None:
        sep = {}
        for s in history(graph):
            for a in s.actions or []:
                if a.action == A.REMOVE_EDGE_UNDIRECTED:
                    k = frozenset((a.u.id, a.v.id))
                    sep.setdefault(k, set()).update(z.id for z in a.data.get("separatedBy", []))
        if adj is None:
            adj = {frozenset(p) for p in itertools.combinations(names, 2)} - set(sep)
        if any(frozenset(p) not in adj and frozenset(p) not in sep for p in itertools.combinations(names, 2)):
            return None
    want = cpdag(adj, sep, names)
    if want is not None and known:
        want = orient(adj, (), names, set(want) | set(known))
    if want is None:
        sim.probe("inconsistent_input")
        return None
    sim.probe("consistent_input")
    for p in itertools.combinations(sorted(names), 2):
        for u, v in (p, p[::-1]):
            got = graph.directed_edge_exists(u, v)
            exp = frozenset(p) in adj and (v, u) not in want
            if got != exp:
                state = "%s %s %s" % (u, {(True, True): "--", (True, False): "->", (False, True): "<-",
                                          (False, False): "(nothing)"}[
                    (bool(graph.directed_edge_exists(u, v)), bool(graph.directed_edge_exists(v, u)))], v)
                exp = "->" if (u, v) in want else "<-" if (v, u) in want else "--" if frozenset(p) in adj else \
                    "(nothing)"
                raise Violation("wrong-orientation", "the result has %s, forced by the separating sets: %s %s %s" % (
                    state, u, exp, v))
            if got and not graph.directed_edge_exists(v, u):
                t = graph.edge_type(u, v)
                if t is None or t.name != "DIRECTED":
                    raise Violation("wrong-edge-type", "%s -> %s has edge type %s" % (u, v, t))
    if want:
        sim.probe("directed_result")
    return want


# -- the scripted skeleton phase
from typing import Any, List  # noqa: E402


def _mk():
    from causy.interfaces import PipelineStepInterface
    from causy.models import TestResult, TestResultAction
    from ..scripted import ScriptGenerator

    class SepStep(PipelineStepInterface):
        plan: List[Any] = []
        parallel: bool = False

        def __init__(self, plan=None, mode="plain", chunk=1, **kw):
            chunks = None
            if mode == "chunked":
                chunks = [chunk] * (len(plan) // chunk) + ([len(plan) % chunk] if len(plan) % chunk else [])
            super().__init__(generator=ScriptGenerator(tasks=[str(i) for i in range(len(plan or []))], chunks=chunks),
                             chunk_size_parallel_processing=chunk, apply_synchronous=(mode == "sync"))
            self.plan = plan or []
            self.parallel = mode == "parallel"

        def process(self, nodes, graph):
            u, v, s = self.plan[int(nodes[0])]
            return TestResult(u=graph.nodes[u], v=graph.nodes[v], action=TestResultAction.REMOVE_EDGE_UNDIRECTED,
                              data={"separatedBy": [graph.nodes[z] for z in s]})
    class KnownStep(SepStep):
        def process(self, nodes, graph):
            u, v = self.plan[int(nodes[0])]
            if not graph.directed_edge_exists(u, v):
                return None
            return TestResult(u=graph.nodes[u], v=graph.nodes[v], action=TestResultAction.REMOVE_EDGE_DIRECTED, data={})
    KnownStep.__module__ = __name__
    KnownStep.__qualname__ = "KnownStep"
    SepStep.__module__ = __name__
    SepStep.__qualname__ = "SepStep"
    return SepStep, KnownStep


def setup():
    global SepStep, KnownStep
    setup_lib()
    SepStep, KnownStep = _mk()
