"""C22: direct effects are the regression coefficients, in every mode and schedule."""
import itertools

import numpy as np

from ..core import Discard, Violation
from ..lib import NAMES, as_columns, build_model, fresh_algorithm, gen_matrix, must, reset_run, run_model
from ..pool import PoolWorld
from ..sched import Sched
from . import c15

SEEN = []
VETO = set()


def setup():
    global ShapeStep, LookStep, Veto, Once
    c15.setup()
    from causy.interfaces import ExitConditionInterface, GraphUpdateHook
    from causy.models import TestResult, TestResultAction

    class ShapeStep(c15.SepStep):
        def process(self, nodes, graph):
            u, v, k = self.plan[int(nodes[0])]
            if not graph.edge_exists(u, v) or k == "direct" and not graph.directed_edge_exists(u, v):
                return None
            return TestResult(u=graph.nodes[u], v=graph.nodes[v], data={"separatedBy": []} if k == "remove" else {},
                              action=TestResultAction.REMOVE_EDGE_UNDIRECTED if k == "remove" else
                              TestResultAction.REMOVE_EDGE_DIRECTED)

    class LookStep(c15.SepStep):
        def process(self, nodes, graph):
            SEEN.append(look(graph))

    class Veto(GraphUpdateHook):
        def execute(self, graph, updates):
            return [r for r in updates if r is None or r.action != TestResultAction.UPDATE_EDGE_DIRECTED
                    or (r.u.id, r.v.id) not in VETO]

    class Once(ExitConditionInterface):
        def check(self, graph, graph_model_instance_, actions_taken, iteration):
            return iteration >= 1
    for k in (ShapeStep, LookStep, Veto, Once):
        k.__module__, k.__qualname__ = __name__, k.__name__


def look(graph):
    return {(u, v): dict(graph.edge_value(u, v) or {}) for u, v in itertools.permutations(list(graph.nodes), 2)
            if graph.directed_edge_exists(u, v)}


def run(sim):
    from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression as E
    from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    reset_run(sim)
    del SEEN[:]
    VETO.clear()
    n = sim.rint(3, 6)
    names = NAMES[:n]
    rows, dens, seed = sim.pick((40, 25, 90)), sim.pick((0.5, 0.8)), sim.draw(1 << 16)
    x = gen_matrix(seed, n, rows, dens)
    if np.linalg.cond(x) > 1e4:
        raise Discard()
    pairs = list(itertools.combinations(names, 2))
    mode = lambda: sim.pick(("parallel", "plain", "sync", "chunked"))
    if sim.chance(1, 3):
        VETO.update(p for p in itertools.permutations(names, 2) if sim.chance(1, 4))

    def shape(first):
        plan = []
        for u, v in sim.shuffled(pairs):
            k = sim.pick(("direct", "direct", "remove", "keep") if first else ("keep", "keep", "remove", "direct"))
            if k != "keep":
                plan.append(([u, v] if sim.chance(1, 2) else [v, u]) + [k])
        plans.append(plan)
        return ShapeStep(plan=plan, mode=mode(), chunk=sim.pick((1, 2, 5)))

    def effects():
        k = sim.pick(("plain", "sync", "parallel", "parallel"))
        s = E(parallel=k == "parallel", apply_synchronous=k == "sync", chunk_size_parallel_processing=sim.pick((1, 2, 50)))
        how = sim.pick(("top", "top", "group", "twice"))
        kinds.append(k + " " + how)
        if how == "group":
            return ApplyActionsTogether(pipeline_steps=[s])
        if how == "twice":
            return ApplyActionsTogether(pipeline_steps=[s, s.model_copy(deep=True)])
        return s
    kinds, plans = [], []
    steps = [CalculatePearsonCorrelations()] if sim.chance(1, 2) else []
    for i in range(sim.rint(1, 3)):
        part = [shape(i == 0), LookStep(plan=[0]), effects(), LookStep(plan=[0])]
        # inside a loop removed edges are not purged between the steps
        steps += [Loop(pipeline_steps=part, exit_condition=Once())] if " top" in kinds[-1] and sim.chance(1, 3) else part
    algo = fresh_algorithm("PC")
    algo.variables = []
    algo.pipeline_steps = steps
    if VETO:
        algo.pre_graph_update_hooks = [Veto()]
    sim.desc = {"nodes": n, "rows": rows, "density": dens, "data_seed": seed, "effects": kinds, "vetoed": sorted(VETO),
                "plans": plans}
    with Sched(sim) as sched, PoolWorld(sim, sched):
        model = must("building the model", build_model, algo, {})
        must("the run", run_model, model, as_columns(x, names))
    SEEN.append(look(model.graph))
    if len(SEEN) != len(kinds) * 2 + 1:
        raise Violation("not-run", "%d of %d steps looked at the graph" % (len(SEEN), len(kinds) * 2 + 1))
    col = {a: x[:, i] for i, a in enumerate(names)}
    for i in range(len(kinds)):
        before, after = SEEN[2 * i], SEEN[2 * i + 1]
        if set(before) != set(after):
            raise Violation("edges-changed", "computing effects changed edges: %s" % sorted(set(before) ^ set(after)))
        for (u, v), m in after.items():
            known = m.get("direct_effect")
            if (v, u) in after or (u, v) in VETO:
                if known is not None:
                    raise Violation("effect-too-much", "%s -> %s (%s) has the effect %r" % (
                        u, v, "undirected" if (v, u) in after else "update refused by a hook", known))
                sim.probe("without_effect")
                continue
            ps = [u] + sorted(p for p, q in after if q == v and p != u)
            want = np.linalg.lstsq(np.stack([col[p] for p in ps], axis=1), col[v], rcond=None)[0][0]
            if not isinstance(known, float) or abs(known - want) > 1e-6 * (1 + abs(want)):
                raise Violation("wrong-effect", "%s -> %s has the effect %r, regression of %s on %s gives %r" % (
                    u, v, known, v, ps, want))
            rest = {k: y for k, y in m.items() if k != "direct_effect"}
            if rest != {k: y for k, y in before[(u, v)].items() if k != "direct_effect"}:
                raise Violation("data-lost", "%s -> %s had %s, has %s" % (u, v, before[(u, v)], m))
            sim.nontrivial = True
            sim.probe("effect")
    if SEEN[-1] != SEEN[-2]:
        raise Violation("changed-at-the-end", "the graph after the run is not the one after its last step")
