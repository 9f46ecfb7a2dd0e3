"""C21: every independence test decides like the textbook test, wherever and whenever it runs."""
import itertools
import math

import numpy as np
from scipy import stats as sps

from ..core import Discard, Violation
from ..lib import (EPS, NAMES, Stats, as_columns, as_rows, build_model, fresh_algorithm, gen_matrix, must, reset_run, run_model,
                   setup_lib)
from ..pool import PoolWorld
from ..sched import Sched

LOG = []
VETO = set()
T = {}


def setup():
    global Refuse
    setup_lib()
    from causy.interfaces import GraphUpdateHook

    class Refuse(GraphUpdateHook):
        def execute(self, graph, updates):
            return [r for r in updates if r is None or frozenset((r.u.id, r.v.id)) not in VETO]
    Refuse.__module__, Refuse.__qualname__ = __name__, "Refuse"
    from causy.causal_discovery.constraint.independence_tests import common
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    T["calc"] = CalculatePearsonCorrelations
    for key, name in (("corr", "CorrelationCoefficientTest"), ("partial", "PartialCorrelationTest"),
                      ("matrix", "ExtendedPartialCorrelationTestMatrix"),
                      ("linear", "ExtendedPartialCorrelationTestLinearRegression")):
        T[key] = getattr(common, name)
        watch(T[key], key)


def watch(cls, key):
    """Records what the test was asked, of which graph, and what it said."""
    orig = cls.process

    def process(self, nodes, graph):
        ids = [str(x) for x in nodes]
        seen = {frozenset(p) for p in itertools.combinations(graph.nodes, 2)
                if graph.directed_edge_exists(p[0], p[1]) and graph.directed_edge_exists(p[1], p[0])}
        got = orig(self, nodes, graph)
        rs = got if isinstance(got, list) else [] if got is None else [got]
        LOG.append((key, self.threshold, ids, seen,
                    [(r.u.id, r.v.id, r.action.name, [z.id for z in r.data["triple"][2]],
                      [z.id for z in r.data["separatedBy"]] if "separatedBy" in r.data else None,
                      [r.data["triple"][0].id, r.data["triple"][1].id]) for r in rs]))
        return got
    cls.process = process


def t_decision(x, names, u, v, s, thr, centred):
    """Are u and v independent given s by the t test of the regression residuals? None: too close to tell."""
    col = {a: x[:, i] - (x[:, i].mean() if centred else 0) for i, a in enumerate(names)}
    z = np.stack([col[a] for a in s], axis=1)
    ru, rv = (col[a] - z @ np.linalg.lstsq(z, col[a], rcond=None)[0] for a in (u, v))
    r = float(ru @ rv / (np.linalg.norm(ru) * np.linalg.norm(rv)))
    if abs(r) > 0.9999:
        return False
    df = len(x) - 2 - len(s)
    crit = sps.t.ppf(1 - thr / 2, df)
    t = abs(r) * math.sqrt(df / (1 - r * r))
    return None if abs(t - crit) < 1e-6 * (1 + crit) else t < crit


def run(sim):
    from causy.generators import PairsWithNeighboursGenerator
    from causy.interfaces import AS_MANY_AS_FIELDS
    from causy.models import ComparisonSettings
    reset_run(sim)
    del LOG[:]
    n = sim.rint(3, 6)
    names = NAMES[:n]
    rows, dens, seed = sim.pick((40, 24, 15, 80, 300)), sim.pick((0.5, 0.3, 0.75, 0.95)), sim.draw(1 << 16)
    x = gen_matrix(seed, n, rows, dens)
    shift = sim.pick((0.0, 0.0, 3.0, -20.0))
    scale = sim.pick((1.0, 1.0, 1e-3, 1e4))
    x = x * scale + shift * scale * np.arange(n)
    if np.linalg.cond(x - x.mean(axis=0)) > 1e4:
        raise Discard()
    desc = []

    def step(key, **kw):
        mode = sim.pick(("parallel", "plain", "sync", "parallel"))
        if key != "calc":
            kw["threshold"] = sim.pick((0.05, 0.01, 0.2, 0.5, 0.001))
        chunk = sim.pick((1, 2, 7, 1000))
        if key in ("matrix", "linear"):
            # chunks are for sequential steps
            kw["generator"] = PairsWithNeighboursGenerator(
                chunked=mode != "parallel" and sim.chance(1, 2), shuffle_combinations=False,
                comparison_settings=ComparisonSettings(min=sim.pick((4, 3)), max=sim.pick((AS_MANY_AS_FIELDS, 4, 5))))
        desc.append([key, mode, chunk, kw.get("threshold")])
        return T[key](parallel=mode == "parallel", apply_synchronous=mode == "sync",
                      chunk_size_parallel_processing=chunk, **kw)
    refused = set()
    if sim.chance(1, 8):
        refused = {frozenset(p) for p in itertools.combinations(names, 2) if sim.chance(1, 3)}
    keys = ["corr"] if sim.chance(3, 4) else []
    keys += [sim.pick(("partial", "matrix", "linear")) for _ in range(sim.rint(1, 3))]
    # a hook that refuses some correlations: they are not put on the edges
    steps = [step("calc")] + [step(k) for k in keys if not refused]
    algo = fresh_algorithm("PC")
    algo.variables = []
    algo.pipeline_steps = steps
    if refused:
        VETO.clear()
        VETO.update(refused)
        algo.pre_graph_update_hooks = [Refuse()]
    sim.desc = {"nodes": n, "rows": rows, "density": dens, "data_seed": seed, "shift": shift, "scale": scale, "steps": desc}
    with Sched(sim) as sched, PoolWorld(sim, sched):
        model = must("building the model", build_model, algo, {})
        try:
            must("the run", run_model, model, as_rows(x, names) if sim.chance(1, 2) else as_columns(x, names))
        except Violation as e:
            if e.kind == "half-removed-edge-snapshot":      # F14, reported by C01
                raise Discard()
            raise
    st = Stats(x, names)
    cc = np.corrcoef(x.T)
    late = None
    for i, j in itertools.combinations(range(n), 2):
        if model.graph.edge_exists(names[i], names[j]):
            c = model.graph.edge_value(names[i], names[j]).get("correlation")
            if frozenset((names[i], names[j])) in refused:
                if c is not None:
                    late = Violation("refused-update", "%s-%s has the correlation %r although a hook refused it" % (
                        names[i], names[j], c))
                sim.probe("refused")
                continue
            if c is None or abs(c - cc[i, j]) > 1e-7:
                raise Violation("wrong-correlation", "%s-%s: %r, not %r" % (names[i], names[j], c, cc[i, j]))
    for key, thr, nodes, seen, rs in LOG:
        edge = lambda a, b: frozenset((a, b)) in seen
        if not rs:
            if key == "corr":
                due = True
            elif key == "partial":
                due = all(edge(a, b) for a, b in itertools.combinations(nodes, 2))
            elif key == "matrix":
                due = all(edge(nodes[0], b) for b in nodes[1:])
            else:
                due = edge(nodes[0], nodes[1])
            if due:
                raise Violation("no-decision", "%s%s says nothing" % (key, nodes))
            sim.probe("nothing_to_test")
            continue
        whole = all(edge(a, b) for a, b in itertools.combinations(nodes, 2))
        if key == "partial" and whole and len(rs) != 3 or key != "partial" and len(rs) != 1:
            # one decision for each node of the triple as the condition
            raise Violation("decisions", "%s%s makes %d decisions: %s" % (key, nodes, len(rs), rs))
        for u, v, action, s, sep, pair in rs:
            what = "%s%s at %s: %s %s-%s given %s" % (key, nodes, thr, action, u, v, sorted(s))
            if sorted([u, v] + s) != sorted(nodes) or sorted(pair) != sorted((u, v)) or key != "partial" and {u, v} != set(nodes[:2]):
                raise Violation("wrong-question", what)
            if action not in ("REMOVE_EDGE_UNDIRECTED", "DO_NOTHING"):
                raise Violation("wrong-action", what)
            gone = action == "REMOVE_EDGE_UNDIRECTED"
            if gone and (sep is None or sorted(sep) != sorted(s)):
                raise Violation("wrong-separating-set", "%s, separated by %s" % (what, sep))
            sim.nontrivial = True
            sim.probe(key + ("_independent" if gone else "_dependent"))
            if key == "linear":
                want = t_decision(x, names, u, v, s, thr, True)
                if want is None or want == gone:
                    continue
                if t_decision(x, names, u, v, s, thr, False) in (gone, None):
                    late = late or Violation("regression-without-intercept", what + " holds without an intercept only")
                    continue
                raise Violation("wrong-decision", "%s, the t test says %s" % (what, "independent" if want else "dependent"))
            p = st.p(u, v, s)
            if abs(p - thr) > EPS and (p > thr) != gone:
                raise Violation("wrong-decision", "%s, but p=%.9f" % (what, p))
        if key == "partial" and whole and {frozenset((u, v)) for u, v, *_ in rs} != {frozenset(q) for q in itertools.combinations(nodes, 2)}:
            raise Violation("decisions", "%s%s decides on %s" % (key, nodes, rs))
    if late is not None:
        raise late
