"""C24: stored pipelines run like the algorithm they were written from."""
import contextlib
import json
import random

from ..core import Violation
from ..lib import all_steps, reset_run
from ..wsgen import data_text, rows
from ..wsim import Sys, User, W, asgi_get, canon, complete, load_ws, read_ws, serve_ws, setup_ws, versions

setup = setup_ws
SHIPPED = ("PC", "ParallelPC")
MADE = ("PC", "PCClassic", "PCStable", "ParallelPC")


# ---- the algorithm, described by plain data so that every process can build its own -------------------------------
def gen_algorithm(sim):
    v = {"threshold": ["Float", sim.pick((0.05, 0.01, 0.3))]}
    if sim.chance(1, 2):
        v["alpha"] = ["Float", sim.pick((0.2, 0.001, 1.0, 0.0))]
    if sim.chance(1, 2):
        v["depth"] = ["Integer", sim.pick((3, 4, 0, 1))]
    if sim.chance(1, 4):
        v["flag"] = ["Bool", sim.chance(1, 2)]
    if sim.chance(1, 4):
        v["mode"] = ["String", sim.pick(("fast", "yes", "1e3", "", "null", "\u00fc: #", "0x1", "12:30"))]

    n = [0]

    def thr():
        fl = [n for n in v if v[n][0] == "Float"]
        return ["ref", sim.pick(fl)] if sim.chance(2, 3) else sim.pick((0.05, 0.2, 0.001, 0.5, 1e-05, 1, 0.0))

    def common(d):
        if sim.chance(1, 3):
            d["display_name"] = sim.pick(("My step", "a: b", "yes", "1e5", "\u00fc"))
        if sim.chance(1, 4):
            d["chunk_size_parallel_processing"] = sim.pick((1, 2, 7, 50000))
        if "depth" in v and sim.chance(1, 8):
            d["chunk_size_parallel_processing"] = ["ref", "depth"]
        if "mode" in v and sim.chance(1, 4):
            d["display_name"] = ["ref", "mode"]
        return d

    def settings(lo):
        mx = sim.pick((-1, lo, lo + 1, lo + 2))
        if "depth" in v and sim.chance(1, 2):
            mx = ["ref", "depth"]
        return {"min": lo, "max": mx}

    def test():
        # (CorrelationCoefficientTest needs all edges: mostly it comes first)
        k = sim.pick(("PartialCorrelationTest", "ExtendedPartialCorrelationTestMatrix",
                      "ExtendedPartialCorrelationTestMatrix") + ("CorrelationCoefficientTest",) * (not n[0] or sim.chance(1, 8)))
        n[0] += 1
        d = common({"class": k, "threshold": thr()})
        if sim.chance(1, 3):
            # (a reference: the steps may come out sequential, chunks are not for parallel steps)
            d["parallel"] = ["ref", "flag"] if "flag" in v and sim.chance(1, 2) else True
        elif sim.chance(1, 4):
            d["apply_synchronous"] = ["ref", "flag"] if "flag" in v and sim.chance(1, 2) else True
        if k == "ExtendedPartialCorrelationTestMatrix" and sim.chance(2, 3):
            g = {"class": "PairsWithNeighboursGenerator", "settings": settings(sim.pick((3, 4))),
                 "shuffle_combinations": sim.chance(1, 4), "chunked": sim.chance(1, 2)}
            if d.get("parallel") or d.get("apply_synchronous"):
                g["chunked"] = False
            if not g["chunked"] and sim.chance(1, 4):
                nth = ["ref", "depth"] if "depth" in v and sim.chance(1, 2) else sim.pick((0, 1, 2))
                g = {"class": "RandomSampleGenerator", "every_nth": nth, "generator": g}
            d["generator"] = g
        elif k == "CorrelationCoefficientTest" and sim.chance(1, 4):
            d["generator"] = {"class": "AllCombinationsGenerator", "settings": {"min": 2, "max": 2}}
        elif k == "ExtendedPartialCorrelationTestMatrix":
            # its own generator gives chunks
            d.pop("parallel", None), d.pop("apply_synchronous", None)
        return d

    def rule():
        return common({**({"parallel": False} if sim.chance(1, 4) else {}), "class": sim.pick(("NonColliderTest", "FurtherOrientTripleTest", "OrientQuadrupleTest",
                                          "FurtherOrientQuadrupleTest"))})
    steps = [common({"class": "CalculatePearsonCorrelations"})]
    for _ in range(sim.rint(1, 3)):
        k = sim.pick(("test", "test", "group", "loop"))
        if k == "test":
            steps.append(test())
        elif k == "group":
            steps.append(common2(sim, {"class": "ApplyActionsTogether", "steps": [test() for _ in range(sim.rint(1, 2))]}))
        else:
            steps.append(common2(sim, {"class": "Loop", "steps": [test() for _ in range(sim.rint(1, 2))]}))
    if sim.chance(2, 3):
        d = common({"class": "ColliderTest"})
        if sim.chance(1, 2):
            d["conflict_resolution_strategy"] = sim.pick(("KEEP_FIRST", "KEEP_LAST"))
        steps.append(d)
        steps.append(common2(sim, {"class": "Loop", "steps": [rule() for _ in range(sim.rint(1, 4))]}))
    if sim.chance(1, 2):
        steps.append(common({"class": "ComputeDirectEffectsInDAGsMultivariateRegression"}))
    return {"name": sim.pick(("mine", "PC", "1e5", "a b")), "steps": steps, "variables": v,
            "edge_types": sim.pick((["Directed", "Undirected"], ["Directed", "Undirected", "BiDirected"],
                                    ["Undirected", "Directed"])), "ui": sim.pick((0, 0, 1, 2))}


def common2(sim, d):
    if sim.chance(1, 3):
        d["display_name"] = sim.pick(("Group", "1:2", "no"))
    return d


def build(a):
    import causy.variables as V
    from causy import generators as G
    from causy.causal_discovery.constraint.independence_tests import common as T
    from causy.causal_discovery.constraint.orientation_rules import pc as R
    from causy.causal_effect_estimation import multivariate_regression as E
    from causy.common_pipeline_steps import calculation as K, logic as L
    from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
    from causy import edge_types as ET
    from causy.contrib.graph_ui import GraphUIExtension
    from causy.models import Algorithm, ComparisonSettings
    if isinstance(a, str):
        from causy.causal_discovery.constraint.algorithms import pc
        return getattr(pc, a)()._original_algorithm.model_copy(deep=True)

    def val(x):
        return V.VariableReference(name=x[1]) if isinstance(x, list) else x

    def gen(g):
        if g["class"] == "RandomSampleGenerator":
            return G.RandomSampleGenerator(generator=gen(g["generator"]), every_nth=val(g["every_nth"]))
        k = {x: g[x] for x in ("shuffle_combinations", "chunked") if x in g}
        return getattr(G, g["class"])(comparison_settings=ComparisonSettings(
            min=g["settings"]["min"], max=val(g["settings"]["max"])), **k)

    def step(d):
        k = {x: val(y) for x, y in d.items() if x not in ("class", "steps", "generator")}
        if "generator" in d:
            k["generator"] = gen(d["generator"])
        if "conflict_resolution_strategy" in k:
            cls = type(R.ColliderTest.model_fields["conflict_resolution_strategy"].default)
            k["conflict_resolution_strategy"] = cls[k["conflict_resolution_strategy"]]
        if "steps" in d:
            k["pipeline_steps"] = [step(s) for s in d["steps"]]
            if d["class"] == "Loop":
                k["exit_condition"] = ExitOnNoActions()
        for m in (T, R, E, K, L):
            if d["class"] in vars(m):
                return getattr(m, d["class"])(**k)
        raise KeyError(d["class"])
    ui = [GraphUIExtension(edges=[ET.DirectedEdgeUIConfig(), ET.UndirectedEdgeUIConfig()]),
          GraphUIExtension(edges=[ET.BiDirectedEdgeUIConfig()])][:a["ui"]]
    return Algorithm(name=a["name"], pipeline_steps=[step(s) for s in a["steps"]], extensions=ui,
                     edge_types=[getattr(ET, e + "Edge")() for e in a["edge_types"]],
                     variables=[getattr(V, t + "Variable")(name=n, value=x) for n, (t, x) in a["variables"].items()])


def play(sim, algorithm, variables, data, seed, tape=None):
    """-> the result as causy would store it, and the decisions taken.  Tasks are switched only where one has to wait,
    so that the decisions can be taken again for the same steps with other objects; with tape they are."""
    from ..sched import Sched
    Sched.current.quiet = True
    mark = len(sim.choices)
    with (repeating(sim, tape) if tape is not None else contextlib.nullcontext()):
        r = played(algorithm, variables, data, seed)
    return r, list(sim.choices[mark:])


def played(algorithm, variables, data, seed):
    from causy.graph_model import graph_model_factory
    from causy.models import Result
    from causy.serialization import CausyJSONEncoder
    from causy.variables import resolve_variables
    random.seed(seed)
    m = graph_model_factory(algorithm, resolve_variables(algorithm.variables, dict(variables)))()
    m.create_graph_from_data(data)
    m.create_all_possible_edges()
    m.execute_pipeline_steps()
    r = Result(algorithm={"type": "name", "reference": "x"}, action_history=m.graph.graph.action_history,
               edges=m.graph.retrieve_edges(), nodes=m.graph.nodes)
    return canon(json.loads(json.dumps(r.model_dump(), cls=CausyJSONEncoder)))


@contextlib.contextmanager
def repeating(sim, tape):
    """The same decisions once more."""
    draw, it = sim.draw, iter(tape)

    def again(n):
        if n <= 1:
            return 0
        return next(it, 0) % n
    sim.draw = again
    try:
        yield
    finally:
        del sim.draw


def pieces(r):
    return {k: r[k] for k in ("nodes", "edges", "action_history")}


def run(sim):
    reset_run(sim)
    with Sys(sim) as s:
        how = sim.pick(("serialised", "serialised", "eject", "pipeline add", "yaml", "dump"))
        if how in ("eject", "pipeline add"):
            a = sim.pick(SHIPPED)
        else:
            a = sim.pick(MADE) if sim.chance(1, 4) else gen_algorithm(sim)
        known = {"threshold": ["Float", 0.05]} if isinstance(a, str) else a["variables"]
        if a == "ParallelPC":
            known = dict(known, every_nth_sample=["Integer", 200])
        variables = {}
        for n, (t, x) in known.items():
            if sim.chance(1, 2):
                variables[n] = sim.pick({"Float": (0.2, 0.001, 0.5, 0.0), "Integer": (3, 4, 1), "Bool": (False, True),
                                         "String": ("other", "no")}[t])
        if how == "eject":
            variables = {}          # written with the default values put in
        n = sim.rint(3, 5)
        rs = rows(sim.draw(1 << 12), ["a", "b", "c", "d", "e"][:n], sim.pick((20, 40, 12)))
        seed = sim.draw(100)
        sim.nontrivial = True
        sim.desc = {"algorithm": a, "written_by": how, "variables": variables, "nodes": n, "rows": len(rs)}
        data = lambda: {k: [r[k] for r in rs] for k in rs[0]}

        # the algorithm itself, in its own process; both runs start with an empty process
        ref = s.call(lambda: play(sim, build(a), variables, data(), seed), "origin")
        s.sched.quiet = False
        tape = None
        if ref.proc.err:
            sim.probe("not_runnable")
            sim.desc["origin"] = ref.proc.err
            ref = None
        else:
            ref, tape = ref.proc.value

        baked = variables if how in ("serialised", "eject") else None
        f = write(sim, s, a, how, baked)
        if f is None:
            return

        def load():
            from causy.serialization import load_algorithm_by_reference
            return load_algorithm_by_reference("file", f)
        # the settings are the ones asked for
        e = s.call(lambda: asked(a, build(a)) or asked(a, filled(a, variables), variables), "builder")
        if e.proc.err or e.proc.value:
            raise Violation("settings-ignored", "%s was made with other settings: %s" % (
                nm(a), e.proc.value or e.why() + e.proc.tb))
        # settings and variables survive
        e = s.call(lambda: (original(a, baked), described(load())), "loader")
        if e.proc.err:
            raise Violation("not-loaded", "%s written by %s can not be loaded: %s %s" % (
                nm(a), how, e.why(), e.proc.tb))
        one, two = e.proc.value
        if one != two:
            raise Violation("settings-differ", "%s written by %s: %s" % (nm(a), how, first(one, two)))
        # written again it is the same
        e = s.call(lambda: rewrite(load), "rewriter")
        if e.proc.err:
            raise Violation("not-written", "%s loaded from a file can not be written again: %s %s" % (
                nm(a), e.why(), e.proc.tb))
        if e.proc.value[0] != e.proc.value[1]:
            raise Violation("rewritten-differs", "%s written by %s, loaded and written again: %s" % (
                nm(a), how, first(*e.proc.value)))
        e = s.call(lambda: play(sim, load(), variables, data(), seed, tape), "loaded")
        s.sched.quiet = False
        if ref is None:
            if not e.proc.err:
                raise Violation("result-differs", "%s written by %s runs, the algorithm itself does not (%s)" % (
                    nm(a), how, sim.desc["origin"]))
            return
        if e.proc.err:
            raise Violation("not-runnable", "%s written by %s can not be executed: %s %s" % (nm(a), how, e.why(), e.proc.tb))
        got = e.proc.value[0]
        if pieces(got) != pieces(ref):
            raise Violation("result-differs", "%s written by %s and loaded gives another result: %s" % (
                nm(a), how, first(pieces(ref), pieces(got))))
        sim.probe("compared")
        sim.probe("edges_left", len(ref["edges"]))
        workspace(sim, s, a, how, f, variables, known, rs, seed)


def nm(a):
    return a if isinstance(a, str) else "an algorithm"


def write(sim, s, a, how, baked):
    """-> name of the pipeline file, complete, whatever went wrong before."""
    plan = None
    if how == "pipeline add":
        s.world.put("workspace.yml", json.dumps({"name": "w", "author": "me", "pipelines": {}, "dataloaders": {},
                                                 "experiments": {}}))
        answers = {"pipeline_kind": "EJECT", "algorithm": a, "pipeline_name": "ej"}
        go = lambda plan=None: s.cli("workspace", "pipeline", "add", user=User(dict(answers)), plan=plan)
        f = "ej.yml"
    elif how == "eject":
        f = sim.pick(("out.json", "sub.json"))
        go = lambda plan=None: s.cli("eject", a, f, plan=plan)
    else:
        f = sim.pick(("own.json", "own.yml", "own"))

        def body():
            from causy.graph_model import graph_model_factory
            from causy.serialization import serialize_algorithm
            if how == "yaml":
                import yaml
                text = yaml.safe_dump(json.loads(build(a).model_dump_json()))
            elif how == "dump":
                text = build(a).model_dump_json()
            else:
                from causy.variables import resolve_variables
                o = build(a)
                m = graph_model_factory(o, resolve_variables(o.variables, dict(baked)))()
                text = json.dumps(serialize_algorithm(m, build(a).name), indent=4)
            with open(f, "w") as o:
                o.write(text)
        go = lambda plan=None: s.call(body, "writer", plan)
    if how in ("eject", "pipeline add") and sim.chance(1, 3):
        probe = s.trial(go)
        plan = s.draw_plan(probe.proc, ("kill", "eio", "enospc", "interrupt", "power"))
        e = go(plan)
        s.world.full = False
        sim.desc["fault"] = repr(plan)
        done = e.ok and not e.killed
        there = True
        if how == "pipeline add":
            ws, err = read_ws(s)
            there = not err and "ej" in ws["pipelines"]
        if there and (s.world.get(f) is not None or how == "pipeline add"):
            # what is there is the whole pipeline or can not be used at all
            def load():
                from causy.serialization import load_algorithm_by_reference
                return described(load_algorithm_by_reference("file", f)), original(a, baked)
            e2 = s.call(load, "reader")
            if e2.proc.err is None and e2.proc.value[0] != e2.proc.value[1]:
                raise Violation("settings-differ", "%s cut short by %r: %s" % (how, plan, first(*e2.proc.value[::-1])))
            if e2.proc.err is not None and (how == "pipeline add" or done and plan.kind != "power"):
                raise Violation("torn-pipeline", "%s with %r: the workspace has a pipeline which can not be loaded: %s" % (
                    how, plan, e2.why()))
        sim.probe("written_after_fault")
    e = go()
    if not e.ok or e.proc.err:
        raise Violation("not-written", "%s of %s failed: %s %s" % (how, nm(a), e.why(), e.proc.tb))
    return f


def original(a, baked):
    """The algorithm; baked: with the values of its variables put in."""
    o = build(a)
    if baked is not None:
        o = filled(a, baked)
    return described(o)


def filled(a, variables):
    from causy.graph_model import graph_model_factory
    from causy.variables import resolve_variables
    o = build(a)
    return graph_model_factory(o, resolve_variables(o.variables, dict(variables)))().algorithm


def asked(a, algorithm, variables=None):
    """-> the first setting of the algorithm which is not as asked for (with the variables put in, if given)."""
    if isinstance(a, str):
        return None

    def want(x):
        if variables is not None and isinstance(x, list):
            return variables.get(x[1], a["variables"][x[1]][1])
        return x

    def val(x):
        return ["ref", x.name] if hasattr(x, "name") and hasattr(x, "type") else getattr(x, "name", x)

    def walk(ds, steps, where):
        for i, (d, st) in enumerate(zip(ds, steps, strict=True)):
            r = one(d, st, "%s/%d" % (where, i))
            if r:
                return r

    def one(d, o, where):
        for k, v in d.items():
            if k == "class":
                if type(o).__name__ != v:
                    return "%s is a %s" % (where, type(o).__name__)
            elif k == "steps":
                r = walk(v, o.pipeline_steps, where)
                if r:
                    return r
            elif k in ("generator", "settings"):
                r = one(v, o.generator if k == "generator" else o.comparison_settings, where + "/" + k)
                if r:
                    return r
            elif val(getattr(o, k)) != want(v):
                return "%s/%s is %r, not %r" % (where, k, val(getattr(o, k)), want(v))
    return walk(a["steps"], algorithm.pipeline_steps, "")


def described(algorithm):
    """Everything an algorithm is made of, as plain data."""
    def d(x, cls=True):
        import enum
        from pydantic import BaseModel
        if isinstance(x, enum.Enum):
            return d(x.value)
        if isinstance(x, BaseModel):
            # the extensions are plain data, all else is told apart by its class
            r = {k: d(v, cls and k != "extensions") for k, v in sorted(vars(x).items())}
            return {"": type(x).__name__, **r} if cls else r
        if isinstance(x, dict):
            return {str(k): d(v, cls) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [d(v, cls) for v in x]
        if isinstance(x, (str, int, float, bool)) or x is None:
            return x
        return type(x).__name__
    r = d(algorithm)
    r.pop("pre_graph_update_hooks", None), r.pop("post_graph_update_hooks", None)
    r["extensions"] = r.get("extensions") or []
    return r


def rewrite(load):
    from causy.graph_model import graph_model_factory
    from causy.serialization import load_algorithm_from_specification, serialize_algorithm
    one = json.loads(json.dumps(serialize_algorithm(graph_model_factory(load())())))
    two = load_algorithm_from_specification(json.loads(json.dumps(one)))
    two = json.loads(json.dumps(serialize_algorithm(graph_model_factory(two)())))
    return one, two


def first(a, b, path=""):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b):
        return "%s is %s, was %s" % (path or "/", show(b), show(a))
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return "%s/%s is %s, was %s" % (path, k, show(b.get(k)), show(a.get(k)))
            r = first(a[k], b[k], path + "/" + k)
            if r:
                return r
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s has %d elements, had %d" % (path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            r = first(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    return None if a == b else "%s is %s, was %s" % (path, show(b), show(a))


def show(x):
    return json.dumps(x)[:120]


def workspace(sim, s, a, how, f, variables, known, rs, seed):
    """The stored result of a stored pipeline, read back by other processes."""
    doc = {"name": "w", "author": "me", "pipelines": {"f": {"type": "file", "reference": f}},
           "dataloaders": {"d": {"type": "json", "reference": "data.json"}},
           "experiments": {"exp": {"pipeline": "f", "dataloader": "d", "variables": variables}}}
    s.world.put("workspace.yml", json.dumps(doc))
    s.world.put("data.json", data_text(rs, "json"))
    kept = {}

    def body():
        # what the run computed, before it is stored
        from causy.models import Result as R
        orig = R.__init__

        def init(self, *x, **k):
            orig(self, *x, **k)
            kept["result"] = self
        R.__init__ = init
        try:
            return W["cmd"].main(args=["workspace", "execute", "--experiment-name", "exp"], prog_name="causy",
                                 standalone_mode=False)
        finally:
            R.__init__ = orig
    # what an unlucky schedule does to parallel steps is the subject of C01 (F14), not of this property
    s.sched.quiet = True
    e = s.call(body, "cli")
    s.sched.quiet = False
    if not e.ok:
        raise Violation("not-runnable", "%s written by %s can not be executed in a workspace: %s %s" % (
            nm(a), how, e.why(), e.proc.tb))
    v = versions(s.world.files(), "exp")
    if len(v) != 1 or complete(list(v.values())[0]) is None:
        raise Violation("no-result", "executing %s in a workspace stored %d results" % (nm(a), len(v)))
    if "result" not in kept:
        sim.probe("result_object_not_seen")
        return
    num = list(v)[0]
    meant = meaning(kept["result"])

    def back():
        from causy.serialization import deserialize_result
        serve_ws()
        fn = getattr(W["cli"], "_load_experiment_result", None)
        raw = fn(load_ws(), "exp", num) if fn is not None else None
        if not isinstance(raw, dict):
            with open("exp_%d.json" % num) as o:
                raw = json.load(o)
        served = asgi_get("/api/v1/experiments/exp/%d" % num)
        return deserialize_result(raw), served
    e = s.call(back, "reader")
    if e.proc.err:
        raise Violation("result-unreadable", "the result of %s can not be read back: %s %s" % (nm(a), e.why(), e.proc.tb))
    obj, (status, served) = e.proc.value
    got = meaning(obj)
    if got != meant:
        raise Violation("result-changed", "the stored result of %s reads back differently: %s" % (nm(a), first(meant, got)))
    if status != 200:
        raise Violation("result-unreadable", "the UI answers %s for the result of %s: %s" % (status, nm(a), served))
    for k in ("edges", "nodes"):
        if len(served[k]) != len(meant[k]):
            raise Violation("result-changed", "the UI shows %d %s instead of %d" % (len(served[k]), k, len(meant[k])))
    for x in served["edges"]:
        m = [y for y in meant["edges"] if y["u"] == x["u"]["name"] and y["v"] == x["v"]["name"]]
        if not m or m[0]["type"] != x["edge_type"]["name"] or plainf(x["metadata"]) != m[0]["metadata"]:
            raise Violation("result-changed", "the UI shows the edge %s" % json.dumps(x)[:300])
    sim.probe("stored_result")


def plainf(x):
    """Data as it can be written to a file: no tensors, nodes by their names, NaN and infinities as text or nothing."""
    from pydantic import BaseModel
    import enum
    if isinstance(x, enum.Enum):
        return x.value
    if isinstance(x, BaseModel) and hasattr(x, "id") and hasattr(x, "values"):
        return ["node", x.name]
    if isinstance(x, BaseModel):
        return plainf(dict(x))
    if isinstance(x, dict) and {"name", "id"} <= set(x):
        return ["node", x["name"]]
    if isinstance(x, dict):
        return {str(k): plainf(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plainf(v) for v in x]
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return None
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return None


def meaning(r):
    def steps(hs):
        return [{"name": h.name, "duration": h.duration, "actions": [act(x) for x in h.actions or []],
                 "proposed": [act(x) for x in h.all_proposed_actions or []], "steps": steps(h.steps or [])} for h in hs]

    def act(x):
        return {"u": x.u.name, "v": x.v.name, "action": getattr(x.action, "value", x.action), "data": plainf(x.data)}
    return {"nodes": {k: n.name for k, n in r.nodes.items()},
            "edges": [{"u": e.u.name, "v": e.v.name, "type": e.edge_type.name,
                       "metadata": plainf(e.metadata)} for e in r.edges],
            "history": steps(r.action_history), "variables": plainf(r.variables), "hashes": [
                r.data_loader_hash, r.algorithm_hash, r.variables_hash],
            "algorithm": [getattr(r.algorithm.type, "value", r.algorithm.type), r.algorithm.reference]}
