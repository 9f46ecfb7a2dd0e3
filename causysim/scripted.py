"""Pipelines of scripted test steps: every result they return is known."""
from typing import Any, Dict, List, Optional

from causy.interfaces import (ExitConditionInterface, GeneratorInterface, GraphUpdateHook, PipelineStepInterface)
from causy.models import Algorithm, TestResult, TestResultAction
from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.edge_types import BiDirectedEdge, DirectedEdge, UndirectedEdge

from .refgraph import purged_bad, views

TYPES = {"DIRECTED": DirectedEdge, "UNDIRECTED": UndirectedEdge, "BIDIRECTED": BiDirectedEdge}


class TypedResult(TestResult):
    edge_type: Optional[Any] = None


class Recorder:
    """What the steps and hooks saw (the simulated workers share the process)."""

    def __init__(self, deep=True):
        self.calls = []      # one entry per process() call, in call order
        self.count = {}
        self.hooks = []
        self.deep = deep
        self.fail = None     # callable(step, task) -> exception


REC = [None]


class ScriptGenerator(GeneratorInterface):
    tasks: List[Any] = []
    chunks: Optional[List[int]] = None

    def __init__(self, tasks=None, chunks=None, **kw):
        super().__init__(**kw)
        self.tasks = tasks or []
        self.chunks = chunks
        self.chunked = chunks is not None

    def generate(self, graph, graph_model_instance_):
        if self.chunks is None:
            for t in self.tasks:
                yield (t, "x")
        else:
            i = 0
            for c in self.chunks:
                yield [(t, "x") for t in self.tasks[i:i + c]]
                i += c


def act_dict(r):
    """Canonical form of a TestResult."""
    et = getattr(r, "edge_type", None)
    return {"action": r.action.value if hasattr(r.action, "value") else str(r.action),
            "u": r.u.id, "v": r.v.id, "data": r.data, "edge_type": et.name if et is not None else None}


class ScriptStep(PipelineStepInterface):
    key: str = ""
    script: Dict[str, Any] = {}
    parallel: bool = False
    view: bool = True
    limit: int = 10 ** 6

    def __init__(self, key="", script=None, view=True, limit=10 ** 6, **kw):
        super().__init__(**kw)
        self.limit = limit
        self.key = key
        self.script = script or {}
        self.view = view
        self.parallel = bool(kw.get("parallel", False))

    def process(self, nodes, graph, unapplied_actions=None):
        rec = REC[0]
        task = nodes[0]
        ck = (self.key, task)
        n = rec.count[ck] = rec.count.get(ck, 0) + 1
        entry = {"step": self.key, "task": task, "n": n, "view": None, "bad": [], "out": [], "nodes": list(nodes)}
        if self.view:
            deep = rec.deep and not self.parallel
            entry["view"], entry["bad"] = views(graph, deep)
            entry["hist"] = {k: [act_dict(a) for a in v] for k, v in graph.edge_history.items()} if deep else None
        if unapplied_actions is not None:
            entry["unapplied"] = [None if r is None else [act_dict(a) for a in (r if isinstance(r, list) else [r])]
                                  for r in unapplied_actions]
        rec.calls.append(entry)
        if rec.fail is not None:
            e = rec.fail(self.key, task, n)
            if e is not None:
                raise e
        plan = self.script[task]
        if plan is None or n > self.limit:
            return None
        shape, acts = plan
        out = []
        k = -1
        for action, u, v, extra, *again in acts:
            k += not again
            data = {"tag": "%s/%s/%d/%d" % (self.key, task, n, k)}
            a = TestResultAction(action)
            if "TYPE" in action:
                out.append(TypedResult(u=graph.nodes[u], v=graph.nodes[v], action=a, data=data,
                                       edge_type=TYPES[extra]()))
            else:
                out.append(TestResult(u=graph.nodes[u], v=graph.nodes[v], action=a, data=data))
        entry["out"] = [act_dict(r) for r in out]
        if shape == "single":
            return out[0]
        return out


class UnappliedStep(ScriptStep):
    needs_unapplied_actions: bool = True


class ExitAfter(ExitConditionInterface):
    k: int = 1

    def check(self, graph, graph_model_instance_, actions_taken, iteration):
        return iteration >= self.k


class LogHook(GraphUpdateHook):
    """mode: pass / veto / reverse / drop_last / first; kind: pre / post"""
    ident: str = ""
    kind: str = "pre"
    mode: str = "pass"

    def execute(self, graph, updates):
        rec = REC[0]
        entry = {"hook": self.ident, "kind": self.kind, "in": [act_dict(u) for u in updates],
                 "view": views(graph, False)[0]}
        rec.hooks.append(entry)
        if rec.fail is not None:
            e = rec.fail("hook:" + self.ident, None, len(rec.hooks))
            if e is not None:
                raise e
        if self.kind == "post":
            return None
        out = list(updates)
        if self.mode == "veto":
            out = [u for u in out if sum(map(ord, u.data["tag"])) % 3 != 0]
        elif self.mode == "reverse":
            out = out[::-1]
        elif self.mode == "none":
            out = []
        elif self.mode == "redirect":
            # replaces removals by updates
            out = [u if u.action != TestResultAction.REMOVE_EDGE_UNDIRECTED
                   or not graph.undirected_edge_exists(u.u, u.v) else
                   TestResult(u=u.u, v=u.v, action=TestResultAction.UPDATE_EDGE, data=dict(u.data, redirected=True))
                   for u in out]
        entry["out"] = [act_dict(u) for u in out]
        return out


# ---- programs -----------------------------------------------------------------
U_ACTS = ("DO_NOTHING", "UPDATE_EDGE", "REMOVE_EDGE_UNDIRECTED", "RESTORE_EDGE", "UPDATE_EDGE_TYPE")
D_ACTS = ("UPDATE_EDGE_DIRECTED", "REMOVE_EDGE_DIRECTED", "RESTORE_EDGE_DIRECTED", "UPDATE_EDGE_TYPE_DIRECTED",
          "DO_NOTHING", "REMOVE_EDGE_UNDIRECTED")


def gen_program(sim, modes=("parallel", "plain", "sync", "chunked", "unapplied", "parallel", "parallel"), logic=True, max_steps=4, nmax=5):
    """-> (ids, program); program is a list of nodes: ("step", spec) | ("loop", k, [spec]) | ("group", [spec])"""
    n = sim.rint(2, nmax)
    ids = ["n%d" % i for i in range(n)]
    pairs = [(ids[i], ids[j]) for i in range(n) for j in range(i + 1, n)]
    cls = {p: ("D" if sim.chance(1, 2) else "U") for p in pairs}
    counter = [0]

    def gen_acts(k, mode):
        acts = []
        while len(acts) < k:
            p = sim.pick(pairs)
            u, v = p if not sim.chance(1, 2) else p[::-1]
            a = sim.pick(U_ACTS if cls[p] == "U" else D_ACTS)
            if mode == "parallel" and a.startswith("RESTORE"):
                # adds dictionary entries while the feeder thread pickles the graph
                a = "DO_NOTHING"
            acts.append((a, u, v, sim.pick(("DIRECTED", "UNDIRECTED", "BIDIRECTED")) if "TYPE" in a else None))
            if len(acts) < k and sim.chance(1, 8):
                acts.append(acts[-1] + ("again",))      # the same result twice
        return acts

    def gen_step(mode=None, limit=10 ** 6):
        counter[0] += 1
        key = "s%d" % counter[0]
        mode = mode or sim.pick(modes)
        nt = sim.pick((1, 2, 3, 5, 0, 8, 3, 14))
        tasks = ["t%d" % i for i in range(nt)]
        script = {}
        for t in tasks:
            shape = sim.pick(("list", "single", "none", "empty"))
            if shape == "none":
                script[t] = None
            elif shape == "empty":
                script[t] = ("list", [])
            elif shape == "single":
                script[t] = ("single", gen_acts(1, mode))
            else:
                script[t] = ("list", gen_acts(sim.rint(1, 3), mode))
        spec = {"key": key, "mode": mode, "tasks": tasks, "script": script, "limit": limit}
        if mode == "parallel":
            spec["chunk"] = sim.pick((1, 2, 3, 100))
        if mode == "chunked":
            left, cs = nt, []
            while left > 0:
                c = min(left, sim.rint(1, 3))
                cs.append(c)
                left -= c
                if sim.chance(1, 6):
                    cs.append(0)
            spec["chunks"] = cs
        if mode == "sync":
            spec["unapplied"] = sim.chance(1, 4)
        return spec

    prog = []
    for _ in range(sim.rint(1, max_steps)):
        kind = sim.pick(("step", "step", "group", "loop")) if logic else "step"
        if kind == "step":
            prog.append(("step", gen_step()))
        elif kind == "group":
            prog.append(("group", [gen_step() for _ in range(sim.rint(1, 3))]))
        else:
            k = sim.pick((1, 2, 3, "noact", 0))
            lim = sim.pick((1, 2, 3)) if k == "noact" else 10 ** 6
            prog.append(("loop", k, [gen_step(limit=lim) for _ in range(sim.rint(1, 2))]))
    return ids, prog


def make_step(spec, view=True):
    gen = ScriptGenerator(tasks=list(spec["tasks"]), chunks=spec.get("chunks"))
    cls = UnappliedStep if spec["mode"] == "unapplied" or spec.get("unapplied") else ScriptStep
    kw = {}
    if spec["mode"] == "parallel":
        kw = dict(parallel=True, chunk_size_parallel_processing=spec["chunk"])
    if spec["mode"] == "sync":
        kw = dict(apply_synchronous=True)
    return cls(key=spec["key"], script=spec["script"], generator=gen, view=view, limit=spec["limit"], **kw)


def make_algorithm(prog, pre=None, post=None, view=True):
    steps = []
    for node in prog:
        if node[0] == "step":
            steps.append(make_step(node[1], view))
        elif node[0] == "group":
            steps.append(ApplyActionsTogether(pipeline_steps=[make_step(s, view) for s in node[1]]))
        else:
            ex = ExitOnNoActions() if node[1] == "noact" else ExitAfter(k=node[1])
            steps.append(Loop(pipeline_steps=[make_step(s, view) for s in node[2]], exit_condition=ex))
    return Algorithm(name="scripted", pipeline_steps=steps, edge_types=[DirectedEdge(), UndirectedEdge()],
                     variables=[], pre_graph_update_hooks=pre, post_graph_update_hooks=post)


def data_for(ids):
    return {i: [float(k), float(k + 1), float(2 * k)] for k, i in enumerate(ids)}


def describe(prog):
    def d(s):
        return "%s:%s(%d tasks%s)" % (s["key"], s["mode"], len(s["tasks"]),
                                      ",chunk=%s" % s["chunk"] if "chunk" in s else "")
    out = []
    for node in prog:
        if node[0] == "step":
            out.append(d(node[1]))
        elif node[0] == "group":
            out.append("group[%s]" % ", ".join(map(d, node[1])))
        else:
            out.append("loop(%s)[%s]" % (node[1], ", ".join(map(d, node[2]))))
    return out


# ---- one whole run -------------------------------------------------------------
class Exec:
    """One execution of one step, matched with its history entry and its calls."""

    def __init__(self, spec, hist, r, node, group):
        self.spec, self.hist, self.r, self.node, self.group = spec, hist, r, node, group
        self.calls = []

    @property
    def mode(self):
        return self.spec["mode"]

    @property
    def where(self):
        return "step %s (%s%s)" % (self.spec["key"], self.mode, ", run %d" % (self.r + 1) if self.r else "")


class Trace:
    pass


def run_program(sim, ids, prog, pre=None, post=None, view=True, deep=True):
    from .lib import build_model, must
    from .pool import PoolWorld
    from .sched import Sched
    t = Trace()
    t.ids, t.prog = ids, prog
    rec = REC[0] = Recorder(deep=deep)
    t.rec = rec
    t.snaps = []        # (number of finished top-level nodes, view, contradictions, edge history)
    try:
        with Sched(sim) as sched, PoolWorld(sim, sched) as pw:
            t.pw = pw
            model = must("building the model", build_model, make_algorithm(prog, pre, post, view), None)
            model.create_graph_from_data(data_for(ids))
            model.create_all_possible_edges()

            def snap(done):
                v, bad = views(model.graph, True)
                bad = bad + purged_bad(model.graph, v)
                t.snaps.append((done, v, bad, {k: [act_dict(a) for a in h]
                                               for k, h in model.graph.edge_history.items()}))

            def go():
                for info in model.execute_pipeline_step_with_progress():
                    snap(len(model.graph.action_history))
            must("the pipeline", go)
            snap(len(prog))
            sim.nontrivial = True
            if sched.switches:
                sim.probe("preempted_run")
    finally:
        REC[0] = None
    t.model = model
    return match(t)


def match(t):
    from .core import Violation
    hist = t.model.graph.action_history
    if len(hist) != len(t.prog):
        raise Violation("history-shape", "%d steps ran, the history has %d entries" % (len(t.prog), len(hist)))
    t.execs = []
    by = {}
    for c in t.rec.calls:
        by.setdefault((c["step"], c["n"]), []).append(c)
    for i, node in enumerate(t.prog):
        if node[0] == "step":
            t.execs.append(Exec(node[1], hist[i], 0, i, False))
        elif node[0] == "group":
            if len(hist[i].steps) != len(node[1]):
                raise Violation("history-shape", "a group of %d steps has %d history entries" % (
                    len(node[1]), len(hist[i].steps)))
            for s, h in zip(node[1], hist[i].steps):
                t.execs.append(Exec(s, h, 0, i, True))
        else:
            n = len(node[2])
            if len(hist[i].steps) % n:
                raise Violation("history-shape", "a loop over %d steps has %d history entries" % (
                    n, len(hist[i].steps)))
            for k, h in enumerate(hist[i].steps):
                t.execs.append(Exec(node[2][k % n], h, k // n, i, False))
    for e in t.execs:
        e.calls = by.pop((e.spec["key"], e.r + 1), [])
    t.extra_calls = [c for cs in by.values() for c in cs]
    return t
