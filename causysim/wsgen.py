"""Random workspaces for the simulated deployments."""
import copy
import json

import numpy as np

IT = "causy.causal_discovery.constraint.independence_tests.common."
OR = "causy.causal_discovery.constraint.orientation_rules.pc."


def rows(seed, names, n):
    rng = np.random.default_rng(seed)
    x = {}
    for i, k in enumerate(names):
        v = rng.normal(size=n)
        for j in names[:i]:
            if rng.random() < 0.6:
                v = v + x[j] * rng.choice([-1.0, 1.0]) * rng.uniform(0.3, 1.5)
        x[k] = v
    return [{k: round(float(x[k][r]), 6) for k in names} for r in range(n)]


def data_text(rs, kind):
    if kind == "jsonl":
        return "".join(json.dumps(r) + "\n" for r in rs)
    return json.dumps(rs)


class Data:
    """One data file and its loader."""

    def __init__(self, sim, key, i, small=True, ncols=None):
        self.key = key
        self.kind = sim.pick(("json", "jsonl"))
        self.columns = self.kind == "json" and sim.chance(1, 4)
        self.ref = ("set%d/data.%s" if sim.chance(1, 5) else "data%d.%s") % (i, self.kind)
        self.names = ["a", "b", "c", "d"][:ncols or sim.rint(2, 3 if small else 4)]
        self.seed = sim.draw(1 << 10)
        self.tweak = 0
        self.head = 0
        self.constant = False
        self.n = sim.pick((12, 8, 20)) if small else sim.pick((20, 12, 30))
        self.options = sim.pick((None, None, None, {"o": 1}))

    def text(self):
        rs = rows(self.seed, self.names, self.n)
        if self.constant:
            rs = [dict(r, **{self.names[-1]: 2.0}) for r in rs]
        if self.tweak:
            rs[-1][self.names[0]] += self.tweak * 1e-6
        if self.head:
            # same number of bytes
            rs[0][self.names[0]] = float("%.6f" % rs[0][self.names[0]]) + 0.0
            t = "%.6f" % rs[0][self.names[0]]
            rs[0][self.names[0]] = float(t[:-1] + str(1 + (int(t[-1]) + self.head) % 9))
        if self.columns:
            return json.dumps({k: [r[k] for r in rs] for k in self.names})
        return data_text(rs, self.kind)

    def entry(self):
        d = {"type": self.kind, "reference": self.ref}
        if self.options:
            d["options"] = self.options
        return d


THR = {"name": "threshold", "type": "float", "value": 0.05}


def ref(name):
    return {"name": name, "type": "reference"}


class Pipe:
    """One pipeline definition."""

    def __init__(self, sim, key, i, kinds=("file", "python", "name"), small=True, failing=False, parallel=False):
        self.key = key
        self.kind = sim.pick(kinds)
        self.i = i
        self.variables = []
        self.steps = []
        self.default = sim.pick((0.05, 0.01, 0.3))
        self.failing = failing
        self.parallel = sim.chance(1, 2) if parallel is None else parallel
        self.together = failing and sim.chance(1, 4)
        self.deep = not small or sim.chance(1, 4)
        self.fmt = sim.pick(("json", "yml")) if self.kind == "file" else None
        self.path = "pp%d/pipe.%s" if self.kind == "file" and sim.chance(1, 5) else "pipe%d.%s"
        if self.kind == "name":
            self.default = 0.05
        self.extra_setting = False
        self.gen_min = 3
        self.extra = []
        if self.kind != "name" and sim.chance(1, 3):
            self.extra = sim.subset([("flag", "bool", True), ("depth", "integer", 2), ("mode", "string", "fast")], 1, 2)
        self.rich = self.kind != "name" and sim.chance(1, 4)
        if self.rich:
            # references inside groups, loops and generators, under other names than the settings have
            self.extra = [("alpha", "float", sim.pick((0.1, 0.4))), ("depth", "integer", sim.pick((3, 1)))]

    def vars(self):
        """{name: (type, default)}"""
        d = {"threshold": ("float", self.default)}
        d.update({n: (t, v) for n, t, v in self.extra})
        return d

    @property
    def ref(self):
        return {"file": self.path % (self.i, self.fmt), "python": "pipemod%d.PIPELINE" % self.i,
                "name": "PC"}[self.kind]

    @property
    def type(self):
        return {"file": "file", "python": "python_module", "name": "name"}[self.kind]

    def entry(self):
        return {"type": self.type, "reference": self.ref}

    def spec(self):
        steps = [{"name": "causy.common_pipeline_steps.calculation.CalculatePearsonCorrelations"},
                 {"name": IT + "CorrelationCoefficientTest", "threshold": ref("threshold")}]
        if self.failing:
            mf = {"name": "causysim.wsteps.MaybeFailing", "parallel": self.parallel}
            if self.together:
                mf = {"name": "causy.common_pipeline_steps.logic.ApplyActionsTogether", "pipeline_steps": [mf]}
            steps.append(mf)
        if self.deep:
            steps.append({"name": IT + "PartialCorrelationTest", "threshold": ref("threshold")})
            steps.append({"name": OR + "ColliderTest"})
        if self.extra_setting:
            steps[1]["chunk_size_parallel_processing"] = 7
        if self.rich:
            L = "causy.common_pipeline_steps.logic."
            steps[1]["threshold"] = ref("alpha")
            steps[1] = {"name": L + "ApplyActionsTogether", "pipeline_steps": [steps[1]]}
            steps.append({"name": L + "Loop", "exit_condition": {"name": "causy.common_pipeline_steps.exit_conditions.ExitOnNoActions"},
                          "pipeline_steps": [{
                              "name": IT + "ExtendedPartialCorrelationTestMatrix", "threshold": ref("threshold"),
                              "generator": {"name": "causy.generators.PairsWithNeighboursGenerator",
                                            "shuffle_combinations": False,
                                            "comparison_settings": {"name": "causy.models.ComparisonSettings",
                                                                    "min": self.gen_min, "max": ref("depth")}}}]})
        return {"name": "p%d" % self.i, "pipeline_steps": steps,
                "edge_types": [{"name": "DIRECTED"}, {"name": "UNDIRECTED"}], "extensions": [],
                "variables": [{"name": "threshold", "type": "float", "value": self.default}] + [
                    {"name": n, "type": t, "value": v} for n, t, v in self.extra]}

    def files(self):
        if self.kind == "name":
            return {}
        if self.kind == "file":
            if self.fmt == "json":
                return {self.ref: json.dumps(self.spec(), indent=1)}
            import yaml
            return {self.ref: yaml.safe_dump(self.spec())}
        cls = {"float": "FloatVariable", "bool": "BoolVariable", "integer": "IntegerVariable",
               "string": "StringVariable"}
        steps = ["CalculatePearsonCorrelations()",
                 "CorrelationCoefficientTest(threshold=VariableReference(name='threshold'))"]
        if self.failing:
            mf = "MaybeFailing(parallel=%r)" % self.parallel
            if self.together:
                mf = "ApplyActionsTogether(pipeline_steps=[%s])" % mf
            steps.append(mf)
        if self.deep:
            steps += ["PartialCorrelationTest(threshold=VariableReference(name='threshold'))", "ColliderTest()"]
        if self.extra_setting:
            steps[1] = steps[1][:-1] + ", chunk_size_parallel_processing=7)"
        if self.rich:
            steps[1] = "ApplyActionsTogether(pipeline_steps=[%s])" % steps[1].replace("='threshold'", "='alpha'")
            steps.append("Loop(exit_condition=ExitOnNoActions(), pipeline_steps=[ExtendedPartialCorrelationTestMatrix("
                         "threshold=VariableReference(name='threshold'), generator=PairsWithNeighboursGenerator("
                         "shuffle_combinations=False, comparison_settings=ComparisonSettings("
                         "min=%d, max=VariableReference(name='depth'))))])" % self.gen_min)
        src = "\n".join([
            "from causy.graph_model import graph_model_factory",
            "from causy.models import Algorithm",
            "from causy.variables import *",
            "from causy.edge_types import DirectedEdge, UndirectedEdge",
            "from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations",
            "from %s import CorrelationCoefficientTest, PartialCorrelationTest" % IT[:-1],
            "from %s import ExtendedPartialCorrelationTestMatrix" % IT[:-1],
            "from causy.generators import PairsWithNeighboursGenerator",
            "from causy.models import ComparisonSettings",
            "from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions",
            "from %s import ColliderTest" % OR[:-1],
            "from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop",
            "from causysim.wsteps import MaybeFailing" if self.failing else "",
            "PIPELINE = graph_model_factory(Algorithm(",
            "    name='m%d'," % self.i,
            "    pipeline_steps=[%s]," % ", ".join(steps),
            "    edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[],",
            "    variables=[%s]," % ", ".join("%s(name=%r, value=%r)" % (cls[t], n, v)
                                             for n, (t, v) in self.vars().items()),
            "))", ""])
        return {"pipemod%d.py" % self.i: src}


def pick_value(sim, typ):
    if typ == "float":
        return sim.pick((0.2, 0.001, 0.5, 0.08))
    if typ == "bool":
        return sim.pick((False, True))
    if typ == "integer":
        return sim.pick((7, 1, 3))
    return sim.pick(("slow", "other"))


NAMES = (("exp", "exp_1", "e2", "other"), ("exp", "exp_1", "e2", "other"), ("exp", "exp_1", "e2", "other"),
         ("Exp", "exp", "EXP"), ("a.b", "a_b", "axb"), ("exp_1", "exp_1_2", "exp"), ("x*", "x", "xy"), ("[ab]", "a", "b"),
         ("m\u00fc", "m", "mu\u0308"), ("1", "1_1", "11"), ("a b", "a", "b"))


class WS:
    """A workspace definition kept by the harness."""

    def __init__(self, sim, n_exp=None, names=None, **pk):
        self.sim = sim
        n = n_exp or sim.rint(1, 3)
        names = names or sim.pick(NAMES)
        self.filler = None
        self.pipes = [Pipe(sim, "p%d" % i, i, **pk) for i in range(sim.rint(1, 2))]
        self.datas = [Data(sim, "d%d" % i, i, small=pk.get("small", True)) for i in range(sim.rint(1, 2))]
        self.exps = {}
        for k in list(names)[:n]:
            p = sim.pick(self.pipes)
            d = sim.pick(self.datas)
            v = {x: pick_value(sim, t) for x, (t, _) in p.vars().items() if sim.chance(1, 2)}
            self.exps[k] = {"pipeline": p.key, "dataloader": d.key, "variables": v}

    def big(self, sim):
        """More than a few pages of text."""
        self.filler = "x" * sim.pick((70000, 9000, 140000)) + "end"

    def pipe(self, key):
        return next(p for p in self.pipes if p.key == key)

    def data(self, key):
        return next(d for d in self.datas if d.key == key)

    def doc(self):
        return {"name": "w", "author": self.filler or "me", "pipelines": {p.key: p.entry() for p in self.pipes},
                "dataloaders": {d.key: d.entry() for d in self.datas}, "experiments": copy.deepcopy(self.exps)}

    def write(self, s):
        for p in self.pipes:
            for n, t in p.files().items():
                s.world.put(n, t)
        for d in self.datas:
            s.world.put(d.ref, d.text())
        self.write_doc(s)

    def write_doc(self, s):
        s.world.put("workspace.yml", json.dumps(self.doc(), indent=1))

    def describe(self):
        return {"experiments": {k: [v["pipeline"], v["dataloader"], v["variables"]] for k, v in self.exps.items()},
                "pipelines": {p.key: p.kind + (":deep" if p.deep else "") + (":rich" if p.rich else "") for p in self.pipes},
                "data": {d.key: [d.kind, d.n, len(d.names)] for d in self.datas}}
