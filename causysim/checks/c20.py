"""C20: separation queries are right in every process and after every history."""
import itertools
from typing import Any, List

from ..core import Violation
from ..dag import dsep
from ..lib import C, NAMES, build_model, fresh_algorithm, must, reset_run, run_model, setup_lib
from ..pool import PoolWorld
from ..sched import Sched
from . import c15

LOG = []


def setup():
    global QueryStep, CutStep
    c15.setup()
    from causy.models import TestResult, TestResultAction

    class QueryStep(c15.SepStep):
        kind: str = "cpdag"

        def process(self, nodes, graph):
            q = self.plan[int(nodes[0])]
            LOG.append((self.kind, q, None, ask(graph, self.kind, q)))
            return None

    class CutStep(c15.SepStep):
        """Takes one edge or direction after the other away and asks in between."""

        def process(self, nodes, graph):
            cut, q = self.plan[int(nodes[0])]
            if cut is not None and not graph.directed_edge_exists(cut[0], cut[1]):
                cut = None
            live = sorted((u, v) for u in graph.nodes for v in graph.nodes if u != v and graph.directed_edge_exists(u, v))
            if q is not None and not any((v, u) in live for u, v in live):
                LOG.append(("dag", q, live, ask(graph, "dag", q)))
            if cut is None:
                return None
            return TestResult(u=graph.nodes[cut[0]], v=graph.nodes[cut[1]],
                              action=TestResultAction.REMOVE_EDGE_UNDIRECTED if cut[2] else
                              TestResultAction.REMOVE_EDGE_DIRECTED, data={"separatedBy": []})
    for k in (QueryStep, CutStep):
        k.__module__, k.__qualname__ = __name__, k.__name__


def ask(graph, kind, q):
    u, v, s, form = q
    fn = getattr(graph, "are_nodes_d_separated_" + kind)
    n = lambda x, k: graph.nodes[x] if k else x
    try:
        return fn(n(u, form & 1), n(v, form & 2), [n(x, form & 4 or form & 8 and i % 2) for i, x in enumerate(s)])
    except Exception as e:
        return e


def queries(sim, names, k):
    out = []
    for _ in range(k):
        u, v, *rest = sim.shuffled(names)
        s = [x for x in rest if sim.chance(1, 3)]
        if sim.chance(1, 20):
            s.append(u if sim.chance(1, 2) else v)
        out.append([u, v, s, sim.draw(16)])
    return out


def run(sim):
    from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
    from causy.common_pipeline_steps.logic import Loop
    reset_run(sim)
    del LOG[:]
    n = sim.rint(3, 6)
    names = NAMES[:n]
    perm = sim.shuffled(names)
    dens = sim.pick((2, 1, 3))
    parents = {a: {b for b in perm[:i] if sim.chance(dens, 4)} for i, a in enumerate(perm)}
    plan = []
    for u, v in itertools.combinations(names, 2):
        if u not in parents[v] and v not in parents[u]:
            rest = [z for z in names if z not in (u, v)]
            plan.append((u, v, next(c for k in range(len(rest) + 1) for c in itertools.combinations(rest, k)
                                    if dsep(parents, u, v, c))))
    mode = lambda: sim.pick(("parallel", "plain", "sync", "chunked"))
    mk = lambda cls, plan, m=None: cls(plan=[list(p) for p in plan], mode=m or mode(), chunk=sim.pick((1, 2, 5)))
    rules = fresh_algorithm("PC").pipeline_steps
    at = [i for i, s in enumerate(rules) if type(s).__name__ == "ColliderTest"][0]
    rules = [s for s in rules[at:] if not type(s).__name__.startswith("Compute")]
    true = sim.shuffled([(b, a) for a in names for b in sorted(parents[a])])
    first, second = mk(QueryStep, queries(sim, names, 12)), mk(QueryStep, queries(sim, names, 12))
    second.kind = "dag"
    # edges may go completely, or by the one direction they have
    cut = [[a, b, sim.chance(1, 2)] for a, b in true[:sim.draw(6)]] + [None]
    ask_cut = mk(CutStep, list(zip(cut, queries(sim, names, len(cut)))), sim.pick(("sync", "sync", "plain", "parallel")))
    # the last edges are directed by a step that asks, too, before what it removed is purged
    direct = mk(CutStep, [([b, a, False], None) for a, b in true] + [(None, q) for q in queries(sim, names, 3)],
                sim.pick(("sync", "sync", "plain")))
    if sim.chance(1, 3):
        direct = Loop(pipeline_steps=[direct], exit_condition=ExitOnNoActions())
    algo = fresh_algorithm("PC")
    algo.variables = []
    algo.pipeline_steps = [mk(c15.SepStep, plan)] + rules + [first, direct, second, ask_cut]
    sim.nontrivial = True
    sim.desc = {"dag": {a: sorted(p) for a, p in parents.items()}, "cut": cut, "modes": [
        "parallel" if s.parallel else "sync" if s.apply_synchronous else "plain" for s in (first, second, ask_cut)]}
    with Sched(sim) as sched, PoolWorld(sim, sched):
        model = must("building the model", build_model, algo, {})
        must("the run", run_model, model, {a: [0.0, 1.0, 2.0] for a in names})
    for q in queries(sim, names, 4):
        live = [(u, v) for u in names for v in names if u != v and model.graph.directed_edge_exists(u, v)]
        LOG.append(("dag", q, live, ask(model.graph, "dag", q)))
    for kind, (u, v, s, form), live, got in LOG:
        if live is None:
            p = parents
        else:
            p = {a: {x for x, y in live if y == a} for a in names}
        if u in s or v in s:
            if not isinstance(got, ValueError):
                raise Violation("accepted", "the %s query for %s and %s given %s answers %r" % (kind, u, v, s, got))
            sim.probe("refused")
            continue
        want = dsep(p, u, v, s)
        if got is not want and got != want or isinstance(got, Exception):
            raise Violation("wrong-separation", "%s query: are %s and %s separated by %s (as %s) in %s? %r" % (
                kind, u, v, s, form, {a: sorted(b) for a, b in p.items()}, got))
        sim.probe("%s_%s" % (kind, "separated" if want else "connected"))
