"""C05: results are reproducible (hash seed, RNG state, clock and history must not matter)."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from ..clock import Clock
from ..core import HarnessError, Violation
from ..lib import (C, all_steps, as_columns, as_rows, build_model, fresh_algorithm, gen_matrix, must, reset_run,
                   run_model, setup_lib)

TWIN = []
POOL = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "X", "Y", "Z", "x1", "x2",
        "temp", "load", "pH", "flow", "Q7", "rain", "wind", "sun", "v10", "v9", "aa", "ab", "ba"]


def start_twin():
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(int(env.get("PYTHONHASHSEED", "0")) * 31 + 5)
    p = subprocess.Popen([sys.executable, "-c", "from causysim import worker; from causysim.checks import c05; "
                          "c05.twin_main()"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, env=env)
    TWIN.append(p)


def setup():
    start_twin()
    setup_lib()


def twin_main():
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    setup_lib()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            res = {"ok": perturbed(req["spec"], req["perturb"])}
        except Violation as v:
            res = {"violation": [v.kind, v.msg]}
        except Exception as e:
            res = {"error": repr(e)}
        os.write(out, (json.dumps(res) + "\n").encode())


def ask_twin(spec, perturb):
    p = TWIN[0]
    p.stdin.write((json.dumps({"spec": spec, "perturb": perturb}) + "\n").encode())
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise HarnessError("twin process died")
    res = json.loads(line)
    if "error" in res:
        raise HarnessError("twin: " + res["error"])
    if "violation" in res:
        raise Violation(*res["violation"])
    return res["ok"]


# ---- what is run ---------------------------------------------------------------
def gen_spec(sim):
    kind = sim.pick(("algo", "algo", "algo", "iid", "ts"))
    n = sim.rint(3, 6) if kind == "algo" else sim.rint(2, 5)
    names = sim.shuffled(POOL)[:n]
    spec = {"kind": kind, "names": names}
    if kind == "algo":
        spec.update(name=sim.pick(("PCClassic", "PC", "PCStable")), seed=sim.draw(1 << 16),
                    rows=sim.pick((30, 60, 15, 200)), density=sim.pick((0.6, 0.8, 0.4, 0.95)),
                    threshold=sim.pick((0.05, 0.01, 0.2)), layout=sim.pick(("columns", "rows")),
                    test=sim.pick(("default", "default", "regression")),
                    strategy=sim.pick(("default", "KEEP_LAST")), instance=sim.pick(("own", "own", "shipped", "same")))
    else:
        edges = []
        for i in range(n):
            for j in range(i + 1, n):
                if sim.chance(1, 2) or j == i + 1:
                    edges.append([names[i], names[j], sim.pick((0.5, -0.3, 0.2))])
        spec.update(edges=sim.shuffled(edges), size=sim.pick((3, 5, 8)), seed=sim.draw(1 << 16))
    return spec


def related(sim, spec):
    """A run that has much in common with the judged one, but is another one."""
    r = dict(spec)
    if spec["kind"] == "algo":
        for k in sim.shuffled(["seed", "threshold", "name", "layout", "rows", "names"])[:sim.rint(1, 3)]:
            if k == "seed":
                r[k] = sim.draw(1 << 16)
            elif k == "names":
                r[k] = sim.shuffled(r[k])
            else:
                r[k] = sim.pick({"threshold": (0.05, 0.01, 0.2), "name": ("PCClassic", "PC", "PCStable"),
                                 "layout": ("columns", "rows"), "rows": (30, 60, 15, 200)}[k])
    else:
        r["seed"] = sim.draw(1 << 16)
        r["edges"] = [[a, b, sim.pick((0.5, -0.3, 0.2))] for a, b, _ in r["edges"]]
        if sim.chance(1, 2):
            r["size"] = sim.pick((3, 5, 8))
    return r


def shipped(spec):
    """The model class the library ships, as users import it; its steps live as long as the process."""
    from causy.causal_discovery.constraint.algorithms import pc
    key = spec["name"]
    if spec["instance"] == "same":
        if key not in INSTANCES:
            INSTANCES[key] = must("building the model", getattr(pc, key))
        return INSTANCES[key]
    return must("building the model", getattr(pc, key))


INSTANCES = {}


def execute(spec):
    if spec["kind"] == "algo" and spec["instance"] != "own":
        x = gen_matrix(spec["seed"], len(spec["names"]), spec["rows"], spec["density"])
        data = (as_columns if spec["layout"] == "columns" else as_rows)(x, spec["names"])
        model = shipped(spec)
        must("the discovery run", run_model, model, data)
        return canon_graph(model.graph)
    if spec["kind"] == "algo":
        x = gen_matrix(spec["seed"], len(spec["names"]), spec["rows"], spec["density"])
        algo = fresh_algorithm(spec["name"])
        for s in all_steps(algo):
            if type(s).__name__ == "ColliderTest" and spec["strategy"] == "KEEP_LAST":
                cls = type(type(s).model_fields["conflict_resolution_strategy"].default)
                s.conflict_resolution_strategy = cls.KEEP_LAST
        if spec["test"] == "regression":
            swap(algo.pipeline_steps, spec["threshold"])
        model = must("building the model", build_model, algo, {"threshold": spec["threshold"]})
        data = (as_columns if spec["layout"] == "columns" else as_rows)(x, spec["names"])
        must("the discovery run", run_model, model, data)
        return canon_graph(model.graph)
    from causy.sample_generator import (IIDSampleGenerator, NodeReference, SampleEdge, TimeAwareNodeReference,
                                        TimeseriesSampleGenerator)
    if spec["kind"] == "iid":
        edges = [SampleEdge(NodeReference(a), NodeReference(b), c) for a, b, c in spec["edges"]]
        make = lambda: IIDSampleGenerator(edges=edges)
    else:
        edges = [SampleEdge(TimeAwareNodeReference(a, -1), TimeAwareNodeReference(b), c) for a, b, c in spec["edges"]]
        edges += [SampleEdge(TimeAwareNodeReference(a, -1), TimeAwareNodeReference(a), 0.4) for a in spec["names"]]
        make = lambda: TimeseriesSampleGenerator(edges=edges)
    # the user fixes the seed
    random.seed(spec["seed"])
    np.random.seed(spec["seed"])
    C["torch"].manual_seed(spec["seed"])
    data, graph = must("generating samples", lambda: make().generate(spec["size"]))
    out = {"data": {k: [float(v) for v in t] for k, t in data.items()}, "order": list(data)}
    out["graph"] = canon_graph(graph)
    return out


def swap(steps, thr):
    """Use the regression based test instead of the matrix based one."""
    from causy.causal_discovery.constraint.independence_tests.common import (
        ExtendedPartialCorrelationTestLinearRegression as R)
    for i, s in enumerate(steps):
        if type(s).__name__ == "ExtendedPartialCorrelationTestMatrix":
            steps[i] = R(threshold=thr)


def perturbed(spec, p):
    with Clock() as clk:
        for prior in p["prior"]:
            try:
                execute(prior)
            except Violation:
                pass
        random.seed(p["rng"])
        np.random.seed(p["rng"] & 0xffffffff)
        C["torch"].manual_seed(p["rng"])
        clk.jump(p["clock"])
        clk.step(p.get("tick", 0))
        return execute(spec)


def canon(v):
    if hasattr(v, "id") and hasattr(v, "values"):
        return "node:" + v.id
    if isinstance(v, dict):
        return [[str(k), canon(x)] for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(canon(x) for x in v)
    if isinstance(v, float) or hasattr(v, "item"):
        return repr(float(v))
    return str(v)


def canon_act(a):
    data = a.data
    if isinstance(data, dict):
        # separating sets are sets
        data = dict(data)
        if isinstance(data.get("separatedBy"), (list, tuple)):
            data["separatedBy"] = set(data["separatedBy"])
        t = data.get("triple")
        if isinstance(t, (list, tuple)) and len(t) == 3 and isinstance(t[2], (list, tuple)):
            data["triple"] = [t[0], t[1], set(t[2])]
    return [str(getattr(a.action, "value", a.action)), a.u.id, a.v.id, canon(data)]


def canon_graph(g):
    def hist(steps):
        return [[s.name, [canon_act(a) for a in s.actions or []], [canon_act(a) for a in s.all_proposed_actions or []],
                 hist(s.steps or [])] for s in steps]
    return {"nodes": list(g.nodes),
            "edges": [[e.u.id, e.v.id, e.edge_type.name, canon(e.metadata)] for e in g.retrieve_edges()],
            "edge_history": [[list(k), [canon_act(a) for a in v]] for k, v in g.edge_history.items()],
            "action_history": hist(g.action_history)}


def first_diff(a, b, path=""):
    if type(a) != type(b):
        return path, a, b
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return path + "/" + k, a[k], None
            d = first_diff(a[k], b[k], path + "/" + k)
            if d:
                return d
        return None if len(a) == len(b) else (path, sorted(a), sorted(b))
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None if len(a) == len(b) else (path + ".length", len(a), len(b))
    return None if a == b else (path, a, b)


def run(sim):
    reset_run(sim)
    spec = gen_spec(sim)
    sim.desc = dict(spec)
    base = json.loads(json.dumps(perturbed(spec, {"prior": [], "rng": 7, "clock": 0})))

    def variation():
        p = {"prior": [related(sim, spec) if sim.chance(1, 2) else gen_spec(sim) for _ in range(sim.pick((0, 1, 2)))], "rng": sim.draw(1 << 30),
             "clock": sim.pick((0, 3600, -86400, 0.75)), "tick": sim.pick((0, 0.5, 7200, -60))}
        if p["prior"]:
            sim.fault("earlier_run_in_process", len(p["prior"]))
        sim.fault("rng_state_changed")
        if p["clock"] or p["tick"]:
            sim.fault("clock_jump")
        sim.inter("prior%d clock%s" % (len(p["prior"]), p["clock"]))
        return p

    def compare(other, what):
        d = first_diff(base, other)
        if d:
            raise Violation("not-reproducible", "%s gives another result: %s is %s, was %s" % (
                what, d[0], str(d[2])[:300], str(d[1])[:300]))
    same = json.loads(json.dumps(perturbed(spec, variation())))
    compare(same, "a second run in the same process")
    v = variation()
    sim.fault("other_hash_seed")
    compare(ask_twin(spec, v), "a process with another hash seed")
    sim.nontrivial = True
    sim.probe("kind_" + spec["kind"])
    sim.log(json.dumps(base)[:2000])
