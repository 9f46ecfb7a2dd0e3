"""Shared set-up for checks that drive causy as a library."""
import copy
import itertools
import logging
import math
import pkgutil
import random
import sys

import numpy as np

from .core import REPO, HarnessError, Violation
from . import pool as simpool
from .pool import PoolWorld
from .sched import Deadlock, Sched, SimHang, SimKilled

C = {}          # name -> object of the code under test
ORIG = {}       # algorithm name -> pristine Algorithm


def setup_lib():
    simpool.install()
    import importlib
    import torch
    torch.set_num_threads(1)
    logging.disable(logging.CRITICAL)
    import causy
    if not causy.__file__.startswith(REPO + "/"):
        raise HarnessError("causy imported from " + causy.__file__)
    for m in pkgutil.walk_packages(causy.__path__, "causy."):
        if m.name.startswith("causy.static"):
            continue
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
    from causy.causal_discovery.constraint.algorithms import pc
    for name in ("PC", "PCClassic", "PCStable", "ParallelPC"):
        ORIG[name] = copy.deepcopy(getattr(pc, name)._original_algorithm)
    from causy.graph_model import graph_model_factory
    from causy.graph import GraphManager, Graph
    from causy.models import TestResult, TestResultAction, Algorithm, ComparisonSettings
    C.update(factory=graph_model_factory, GraphManager=GraphManager, Graph=Graph, TestResult=TestResult,
             Action=TestResultAction, Algorithm=Algorithm, ComparisonSettings=ComparisonSettings, torch=torch)
    C["graph_bases"] = Graph.__bases__


def reset_run(sim):
    """Bring process-wide state of the code under test to a fixed point."""
    import torch
    s = 7
    random.seed(s)
    np.random.seed(s)
    torch.manual_seed(s)


def fresh_algorithm(name):
    return copy.deepcopy(ORIG[name])


def all_steps(algorithm):
    def walk(steps):
        for s in steps:
            yield s
            sub = getattr(s, "pipeline_steps", None)
            if sub:
                yield from walk(sub)
    return list(walk(algorithm.pipeline_steps))


# ---- data ----------------------------------------------------------------
NAMES = ["A", "B", "C", "D", "E", "F", "G", "H"]


def gen_matrix(seed, n, rows, density):
    """Rows of a random linear SEM."""
    rng = np.random.default_rng(seed)
    order = rng.permutation(n)
    x = np.zeros((rows, n))
    for k, i in enumerate(order):
        noise = rng.normal(size=rows) * rng.uniform(0.5, 1.5)
        v = noise
        for j in order[:k]:
            if rng.random() < density:
                v = v + x[:, j] * rng.choice([-1, 1]) * rng.uniform(0.4, 1.6)
        x[:, i] = v
    return x


def gen_data(sim, nmin=3, nmax=6):
    n = sim.rint(nmin, nmax)
    rows = sim.pick((40, 24, 15, 80))
    density = sim.pick((0.5, 0.3, 0.75, 0.95))
    seed = sim.draw(1 << 16)
    return gen_matrix(seed, n, rows, density), {"nodes": n, "rows": rows, "density": density, "data_seed": seed}


def as_columns(x, names=None):
    names = names or NAMES
    return {names[i]: [float(v) for v in x[:, i]] for i in range(x.shape[1])}


def as_rows(x, names=None):
    names = names or NAMES
    return [{names[i]: float(x[r, i]) for i in range(x.shape[1])} for r in range(x.shape[0])]


# ---- running ---------------------------------------------------------------
class SutError(Exception):
    """An exception escaped the code under test."""

    def __init__(self, e):
        super().__init__("%s: %s" % (type(e).__name__, e))
        self.e = e


def call(fn, *a, **k):
    """Call the code under test."""
    try:
        return fn(*a, **k)
    except Exception as e:
        raise SutError(e)


def half_removed_snapshot(e):
    """Known finding F14: exactly the race in which an undirected removal was half done when the snapshot was taken."""
    item = getattr(e, "_sim_item", None)
    if not isinstance(e, KeyError) or not isinstance(item, list) or len(item) != 3:
        return False
    fn, nodes, graph = item
    if type(fn).__name__ != "ExtendedPartialCorrelationTestMatrix" or len(nodes) < 2:
        return False
    a, b = nodes[0], nodes[1]
    try:
        fwd, back = graph.edges[a][b], graph.edges[b][a]
    except KeyError:
        return False
    return fwd.deleted is False and back.deleted is True and e.args == (b,)


def must(what, fn, *a, **k):
    try:
        return call(fn, *a, **k)
    except SutError as s:
        import traceback
        tb = traceback.extract_tb(s.e.__traceback__)
        loc = ""
        for fr in reversed(tb):
            if REPO + "/" in fr.filename:
                loc = " at %s:%d" % (fr.filename, fr.lineno)
                break
        if half_removed_snapshot(s.e):
            raise Violation("half-removed-edge-snapshot", "%s failed: a parallel test was handed a graph snapshot taken "
                            "in the middle of an edge removal and raised %s%s" % (what, s, loc))
        raise Violation("unexpected-error", "%s failed: %s%s" % (what, s, loc))


def build_model(algorithm, variables=None):
    return C["factory"](algorithm, variables)()


def run_model(model, data, on_step=None):
    """Whole pipeline; on_step(name) before every top-level test step."""
    model.create_graph_from_data(data)
    model.create_all_possible_edges()
    for info in model.execute_pipeline_step_with_progress():
        if on_step is not None:
            on_step(info["step"])
    return model


def history(graph):
    """Flat list of ActionHistoryStep that carry actions."""
    out = []

    def walk(steps):
        for s in steps or []:
            if s.steps:
                walk(s.steps)
            else:
                out.append(s)
    walk(graph.action_history)
    return out


def adjacency(graph):
    ids = list(graph.nodes)
    return {frozenset((u, v)) for u, v in itertools.combinations(ids, 2) if graph.edge_exists(u, v)}


# ---- the statistics, independently ------------------------------------------
class Stats:
    def __init__(self, x, names):
        self.x = x
        self.n = x.shape[0]
        self.idx = {nm: i for i, nm in enumerate(names)}
        c = x - x.mean(axis=0)
        self.cov = c.T @ c / self.n
        self.cache = {}

    def p(self, u, v, s=()):
        key = (frozenset((u, v)), frozenset(s))
        if key in self.cache:
            return self.cache[key]
        ii = [self.idx[u], self.idx[v]] + [self.idx[z] for z in sorted(s)]
        prec = np.linalg.inv(self.cov[np.ix_(ii, ii)])
        r = -prec[0, 1] / math.sqrt(prec[0, 0] * prec[1, 1])
        r = max(-1 + 1e-15, min(1 - 1e-15, r))
        z = abs(0.5 * math.log((1 + r) / (1 - r))) * math.sqrt(self.n - len(s) - 3)
        val = math.erfc(z / math.sqrt(2))
        self.cache[key] = val
        return val


EPS = 1e-6
