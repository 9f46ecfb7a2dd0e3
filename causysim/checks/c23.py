"""C23: generated samples are what the declared equations make of the random draws."""
import sys

import numpy as np
import torch

from ..core import HarnessError, Violation
from ..lib import NAMES, must, reset_run, setup_lib

STEPS = 60000


def setup():
    setup_lib()


class SourceFailed(RuntimeError):
    pass


class Hangs(BaseException):
    pass


class Source:
    """The random number source: recorded, fails where the simulator says."""

    def __init__(self, sim, integers):
        self.sim, self.integers, self.fail_at, self.drawn = sim, integers, None, []

    def __call__(self):
        if self.fail_at is not None and len(self.drawn) >= self.fail_at:
            self.fail_at = None
            self.sim.fault("random_source_failed")
            raise SourceFailed("no entropy")
        # distinct values, so that a draw can be told from any other
        k = self.count = getattr(self, "count", 0) + 1
        x = float(k) if self.integers else (k * 0.6180339887498949 % 1.0) * 4 - 2 + k * 1e-6
        self.drawn.append(x)
        return x


def bounded(fn, *a):
    """Runs fn for at most STEPS lines of the generator's code."""
    left = [STEPS]

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.endswith("sample_generator.py"):
            return None
        left[0] -= 1
        if left[0] < 0:
            raise Hangs()
        return trace
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        return fn(*a)
    finally:
        sys.settrace(old)


def stationary(edges):
    """The same process, damped if it would grow without bound."""
    names = sorted({x for a, _, b, _ in edges for x in (a, b)})
    n = len(names)
    m = np.zeros((3 * n, 3 * n))
    m[n:, :-n] = np.eye(2 * n)
    for a, l, b, c in edges:
        m[names.index(b), (-l - 1) * n + names.index(a)] = c
    r = max(abs(np.linalg.eigvals(m)))
    return edges if r <= 0.9 else [(a, l, b, round(c * (0.8 / r) ** -l, 6)) for a, l, b, c in edges]


class Gen:
    """One generator under test with its declaration."""

    def __init__(self, sim, kind):
        from causy.sample_generator import (IIDSampleGenerator, NodeReference, SampleEdge, TimeAwareNodeReference,
                                            TimeseriesSampleGenerator)
        self.sim, self.kind = sim, kind
        names = sim.shuffled(NAMES[:6])[:sim.rint(2, 5)]
        self.src = Source(sim, sim.chance(1, 3))
        coef = lambda: sim.pick((2.0, 1.0, -1.0, 0.5, -3.0, 7.0, 0.0)) if kind == "iid" else sim.pick((0.5, 0.2, -0.3, 0.1, 0.0))
        e = []
        cyclic = kind == "iid" and sim.chance(1, 10)
        for i, b in enumerate(names):
            for j, a in enumerate(names):
                if kind == "iid":
                    if j < i and sim.chance(1, 2):
                        e.append((a, 0, b, coef()))
                else:
                    for lag in (1, 2, 3):
                        if sim.chance(1, 4 * lag):
                            e.append((a, -lag, b, coef() / lag))
        if cyclic:
            a, b = sim.shuffled(names)[:2]
            e.append((names[0], 0, names[0], 1.0) if sim.chance(1, 3) else (a, 0, b, 1.0))
            if e[-1][0] != e[-1][2]:
                e.append((b, 0, a, 2.0))
        if not e:
            e.append((names[0], 0 if kind == "iid" else -1, names[1], 2.0 if kind == "iid" else 0.5))
        if kind == "time":
            e = stationary(e)
        self.edges = sim.shuffled(e)
        self.names = sorted({x for a, _, b, _ in e for x in (a, b)})
        self.desc = {"kind": kind, "edges": self.edges}
        if kind == "iid":
            decl = [SampleEdge(NodeReference(a), NodeReference(b), c) for a, _, b, c in self.edges]
            make = lambda: IIDSampleGenerator(edges=decl, random=self.src)
        else:
            decl = [SampleEdge(TimeAwareNodeReference(a, l), TimeAwareNodeReference(b), c) for a, l, b, c in self.edges]
            make = lambda: TimeseriesSampleGenerator(edges=decl, random=self.src)
        self.decl = decl
        self.lag = max(-l for _, l, _, _ in self.edges)
        self.sg = None
        try:
            self.sg = bounded(make)
        except Hangs:
            raise Violation("hangs", "a generator with the edges %s is never made" % self.edges)
        except Exception as x:
            if not cyclic:
                raise Violation("refused", "a generator with the edges %s: %s: %s" % (self.edges, type(x).__name__, x))
            sim.probe("cycle_refused")
            return
        if cyclic:
            raise Violation("accepted", "a generator with the cyclic edges %s is accepted" % self.edges)

    def call(self, size, form):
        self.src.drawn = []
        noisy = len(self.names) * size
        self.src.fail_at = self.sim.draw(noisy + 2) if self.sim.chance(1, 4) else None
        fn = getattr(self.sg, form)
        try:
            out = bounded(fn, size)
        except SourceFailed:
            self.sim.probe("failed_call")
            return None
        except Hangs:
            raise Violation("hangs", "%s(%d) of %s never ends" % (form, size, self.desc))
        except torch.linalg.LinAlgError:
            # the initial values are declared numerically unstable by the generator's own documentation
            self.sim.probe("unstable")
            return None
        except Exception as x:
            raise Violation("call-failed", "%s(%d) of %s: %s: %s" % (form, size, self.desc, type(x).__name__, x))
        self.src.fail_at = None
        data, graph = out if form == "generate" else (out, None)
        if form == "_generate_shaped_data":
            if len(data) != size or any(set(r) != set(self.names) for r in data):
                raise Violation("shape", "%d rows with %s" % (len(data), [sorted(r) for r in data][:1]))
            data = {a: [float(r[a]) for r in data] for a in self.names}
        cols = {a: [float(x) for x in t] for a, t in data.items()}
        return cols, graph, list(self.src.drawn), data

    def judge(self, size, got):
        cols, graph, drawn, _ = got
        if sorted(cols) != self.names or any(len(c) != size for c in cols.values()):
            raise Violation("shape", "asked for %d samples of %s: %s" % (size, self.names, {a: len(c) for a, c in cols.items()}))
        skip = 0 if self.kind == "iid" else max(1, self.lag)
        used = set()
        for b in self.names:
            for t in range(skip, size):
                terms = [c * cols[a][t + l] for a, l, y, c in self.edges if y == b]
                r = cols[b][t] - sum(terms)
                # the initial values are single precision numbers
                first = any(y == b and t + l == 0 for _, l, y, _ in self.edges) and self.kind == "time"
                tol = (1e-6 if first else 1e-9) * (1 + abs(cols[b][t]) + sum(abs(x) for x in terms))
                hit = [i for i, d in enumerate(drawn) if abs(d - r) <= tol + 1e-12]
                if not hit:
                    raise Violation("equation", "%s at %d is %r, its equation gives %r and leaves %r, which was never drawn (%s)" % (
                        b, t, cols[b][t], sum(terms), r, self.desc))
                free = [i for i in hit if i not in used]
                if not free:
                    raise Violation("draw-used-twice", "the draw %r is the noise of two samples (%s)" % (drawn[hit[0]], self.desc))
                used.add(free[0])
                self.sim.probe("equation")
        want = len(self.names) * (size if self.kind == "iid" else max(size - 1, 0))
        if len(drawn) != want:
            raise Violation("draws", "%d draws for %d noise terms (%s)" % (len(drawn), want, self.desc))
        if graph is not None:
            self.judge_graph(size, cols, graph)

    def judge_graph(self, size, cols, graph):
        if self.kind == "iid":
            nodes = {a: (a, None, cols[a]) for a in self.names}
            edges = {(a, b) for a, _, b, _ in self.edges}
        else:
            nodes = {"%s-t%d" % (a, t): (a, t, [cols[a][t]]) for a in self.names for t in range(size)}
            edges = {("%s-t%d" % (a, t + l), "%s-t%d" % (b, t)) for a, l, b, _ in self.edges
                     for t in range(1, size) if t + l >= 0}
        if set(graph.nodes) != set(nodes):
            raise Violation("graph-nodes", "%s, not %s" % (sorted(graph.nodes), sorted(nodes)))
        for i, (a, t, vals) in nodes.items():
            n = graph.nodes[i]
            if [float(x) for x in n.values] != vals and any(abs(float(x) - y) > 1e-5 * (1 + abs(y)) for x, y in zip(n.values, vals)) \
                    or len(n.values) != len(vals):
                raise Violation("graph-values", "the node %s has the values %s, the data say %s" % (i, n.values, vals))
            if n.metadata.get("variable") != a or t is not None and n.metadata.get("time") != t:
                raise Violation("graph-metadata", "%s: %s" % (i, n.metadata))
        have = {(u, v) for u in nodes for v in nodes if u != v and graph.directed_edge_exists(u, v)}
        if have != edges:
            raise Violation("graph-edges", "the ground truth has %s too much and misses %s" % (
                sorted(have - edges), sorted(edges - have)))


def run(sim):
    reset_run(sim)
    torch.manual_seed(sim.draw(1 << 16))
    gens = [Gen(sim, sim.pick(("iid", "time"))) for _ in range(sim.rint(1, 2))]
    sim.nontrivial = True
    kept = []
    calls = []
    for _ in range(sim.rint(1, 5)):
        g = sim.pick(gens)
        if g.sg is None:
            continue
        size = sim.pick((3, 1, 2, 5, 8, 0)) if g.kind == "iid" else sim.pick((5, 2, 4, 8, 1))
        form = sim.pick(("generate", "generate", "_generate_data") + (("_generate_shaped_data",) if g.kind == "iid" else ()))
        calls.append((gens.index(g), form, size))
        sim.desc = {"generators": [x.desc for x in gens], "calls": calls}
        sim.inter("%d.%s(%d)" % calls[-1])
        got = g.call(size, form)
        if got is None:
            continue
        g.judge(size, got)
        sim.log(sorted(got[0].items()))
        kept.append((g, got, size))
    # a later call must not change what an earlier one returned
    for g, (cols, graph, drawn, data), size in kept:
        if {a: [float(x) for x in t] for a, t in data.items()} != cols:
            raise Violation("changed-later", "a later call changed what %s had returned" % g.desc)
        if graph is not None:
            g.judge_graph(size, cols, graph)
    for g in gens:
        if g.sg is not None and [(e.from_node.node, getattr(e.from_node, "point_in_time", 0), e.to_node.node, e.value)
                                 for e in g.decl] != g.edges:
            raise Violation("declaration-changed", "the edges given are %s now" % g.decl)
