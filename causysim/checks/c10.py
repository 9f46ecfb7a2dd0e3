"""C10: experiments do not influence each other."""
import copy
import json

from urllib.parse import quote

from ..core import Violation
from ..lib import reset_run
from ..wsgen import WS, pick_value, rows
from ..wsim import Sys, User, W, asgi_get, canon, complete, serve_ws, setup_ws, typed
from .c06 import must, stored

setup = setup_ws
NAMES = ("exp", "exp_1", "e2", "other", "x")


def result(st, x, before=()):
    new = [v for v in st[x] if v not in before]
    if not new:
        return None
    d = complete(st[x][max(new)])
    if d is None:
        raise Violation("torn-result", "the result of %s is not complete" % x)
    return d


def alone(s, x, exps):
    before = stored(s, exps)
    e = s.cli("workspace", "execute", "--experiment-name", x)
    if e.proc.rc != 0:
        raise Violation("command-failed", "executing %s alone failed: %s %s" % (x, e.why(), e.proc.tb))
    r = result(stored(s, exps), x, before[x])
    if r is None:
        raise Violation("no-result", "executing %s alone gave no result" % x)
    return r


def run(sim):
    reset_run(sim)
    with Sys(sim) as s:
        ws = WS(sim, n_exp=sim.rint(2, 4), names=NAMES, kinds=("file", "python", "python", "name"),
                failing=sim.chance(1, 4), parallel=None)
        doc = ws.doc()
        ws.write(s)
        if sim.chance(1, 3):
            # one more pipeline: ejected PC
            e = s.cli("workspace", "pipeline", "add", user=User({"pipeline_kind": "EJECT", "algorithm": "PC",
                                                                "pipeline_name": "ej"}))
            must(e, "ejecting PC")
            doc["pipelines"]["ej"] = {"type": "file", "reference": "ej.yml"}
            doc["experiments"]["z"] = {"pipeline": "ej", "dataloader": sim.pick(ws.datas).key,
                                       "variables": {"threshold": sim.pick((0.2, 0.001))} if sim.chance(1, 2) else {}}
        for x, e in doc["experiments"].items():
            if not e["variables"] and sim.chance(1, 2):
                e["variables"] = sim.pick((None, {}))
                if e["variables"] is None and sim.chance(1, 2):
                    del e["variables"]
        if sim.chance(1, 2):
            doc["experiments"] = {x: doc["experiments"][x] for x in sim.shuffled(list(doc["experiments"]))}
        s.world.put("workspace.yml", json.dumps(doc, indent=1))
        exps = list(doc["experiments"])
        sim.nontrivial = True
        sim.desc = {"workspace": ws.describe(), "experiments": doc["experiments"]}
        ref = {}
        for x in exps:
            r = s.trial(lambda: alone(s, x, exps))
            oracle(sim, s, ws, doc, x, r, exps)
            ref[x] = canon(r)
        ref2, edit = ref, None
        if sim.chance(1, 3):
            # later a file is edited between two commands of the same process
            edit = gen_edit(sim, ws)

            def edited(x):
                for n, t in edit[1].items():
                    s.world.put(n, t)
                return canon(alone(s, x, exps))
            ref2 = {x: s.trial(lambda: edited(x)) for x in exps}
        clean = s.trial(lambda: eject(s))

        ops = [gen_op(sim, exps) for _ in range(sim.rint(2, 6))]
        if edit:
            ops.insert(sim.draw(len(ops)), (edit[0], edit[1], "edit"))
            ops.append(("execute all, forced", ["workspace", "execute", "--force-reexecution"], "all"))
        sim.desc["history"] = [o[0] for o in ops]
        seen = []

        def body():
            cmd = W["cmd"]
            for name, args, what in ops:
                if what == "lib":
                    library(args)
                elif what == "edit":
                    for n, t in args.items():
                        s.world.put(n, t)
                elif what == "ui":
                    serve_ws()
                    for path in args:
                        asgi_get(path)
                else:
                    cmd.main(args=list(args), prog_name="causy", standalone_mode=False)
                seen.append(stored(s, exps))
                s.clock.advance(1)
            W["cmd"].main(args=["eject", "PC", "after.json"], prog_name="causy", standalone_mode=False)
        before = stored(s, exps)
        e = s.call(body)
        h = "; ".join(sim.desc["history"][:len(seen) + 1])
        if e.proc.rc != 0:
            raise Violation("command-failed", "in one process: %s: %s %s" % (h, e.why(), e.proc.tb))
        for i, st in enumerate(seen):
            h = "; ".join(sim.desc["history"][:i + 1])
            if ops[i][2] == "edit":
                ref = ref2
            for x in exps:
                r = result(st, x, before[x])
                if r is not None:
                    sim.probe("compared")
                    if canon(r) != ref[x]:
                        diff = [k for k in ref[x] if canon(r).get(k) != ref[x][k]]
                        raise Violation("influenced", "in one process: %s: the result of %s differs from its stand-alone "
                                        "result in %s" % (h, x, ", ".join(diff)))
            target = ops[i][2]
            for x in (exps if target == "all" else [target] if target in exps else []):
                if result(st, x, before[x]) is None:
                    raise Violation("no-result", "in one process: %s: no result for %s" % (h, x))
            before = st
        after = s.world.get("after.json")
        if after != clean:
            raise Violation("pipeline-changed", "in one process: %s; then the built-in pipeline is no longer what it was" %
                            "; ".join(sim.desc["history"]))
        # other order, all in one new process
        order = sim.shuffled(exps)

        def body2():
            for x in order:
                W["cmd"].main(args=["workspace", "execute", "--experiment-name", x], prog_name="causy",
                              standalone_mode=False)
        before = stored(s, exps)
        e = s.call(body2)
        must(e, "executing %s in one process" % ", ".join(order))
        now = stored(s, exps)
        for x in exps:
            r = result(now, x, before[x])
            if r is None or canon(r) != ref[x]:
                raise Violation("influenced", "executed in one process in the order %s, %s differs from its stand-alone "
                                "result" % (", ".join(order), x))


def gen_edit(sim, ws):
    """-> what, {file: new content}"""
    p = [p for p in ws.pipes if p.kind == "file"]
    if p and sim.chance(1, 2):
        p = sim.pick(p)
        if sim.chance(1, 2):
            p.deep = not p.deep
        else:
            p.default = p.default + 0.1
        return "edit of " + p.ref, p.files()
    d = sim.pick(ws.datas)
    d.seed += 7
    return "edit of " + d.ref, {d.ref: d.text()}


def eject(s):
    must(s.cli("eject", "PC", "clean.json"), "eject")
    return s.world.get("clean.json")


def gen_op(sim, exps):
    k = sim.pick(("execute", "execute", "execute", "all", "forced", "info", "eject", "lib", "ui"))
    x = sim.pick(exps)
    if k == "execute":
        return "execute " + x, ["workspace", "execute", "--experiment-name", x], x
    if k == "all":
        return "execute all", ["workspace", "execute"], None
    if k == "forced":
        return "execute all, forced", ["workspace", "execute", "--force-reexecution"], "all"
    if k == "info":
        return "info", ["workspace", "info"], None
    if k == "eject":
        return "eject", ["eject", sim.pick(("PC", "ParallelPC")), "out.json"], None
    if k == "ui":
        return "ui", ["/api/v1/experiments/%s/latest" % quote(x, safe=""), "/api/v1/algorithm/name/PC"], "ui"
    return "library run of PC", (sim.draw(100), sim.pick((0.3, 0.0001)), sim.chance(1, 2)), "lib"


def library(args):
    """Someone uses the built-in algorithm with other settings in the same process."""
    from causy.causal_discovery.constraint.algorithms import PC
    from causy.graph_model import graph_model_factory
    from causy.serialization import load_algorithm_by_reference
    seed, thr, plain = args
    if plain:
        m = PC()
    else:
        a = load_algorithm_by_reference("name", "PC")
        m = graph_model_factory(a, {"threshold": thr})()
    m.create_graph_from_data(rows(seed, ["a", "b", "c"], 9))
    m.create_all_possible_edges()
    m.execute_pipeline_steps()


def fill(x, want):
    """References replaced by their values."""
    if isinstance(x, dict):
        if x.get("type") == "reference":
            return want[x["name"]]
        return {k: fill(v, want) for k, v in x.items()}
    return [fill(v, want) for v in x] if isinstance(x, list) else x


def oracle(sim, s, ws, doc, x, r, exps):
    """The stand-alone result uses the experiment's values and the defaults where unset."""
    e = doc["experiments"][x]
    given = e.get("variables") or {}
    if e["pipeline"] == "ej":
        want = {"threshold": given.get("threshold", 0.05)}
    else:
        want = {n: given.get(n, v) for n, (t, v) in ws.pipe(e["pipeline"]).vars().items()}
        if ws.pipe(e["pipeline"]).kind == "name":
            want = {"threshold": want["threshold"]}
    got = {k: v for k, v in (r["variables"] or {}).items() if k in want}
    if typed(got) != typed(want):
        raise Violation("variables", "%s alone was executed with %s, its own values and defaults are %s" % (x, got, want))

    # the same with the value written into the pipeline itself
    def literal():
        d = copy.deepcopy(doc)
        if e["pipeline"] == "ej":
            d["pipelines"]["ej"] = {"type": "name", "reference": "PC"}
        else:
            p = ws.pipe(e["pipeline"])
            if p.kind == "name":
                return None
            spec = p.spec()
            spec["variables"] = []
            spec = fill(spec, want)
            s.world.put("literal.json", json.dumps(spec))
            d["pipelines"][p.key] = {"type": "file", "reference": "literal.json"}
            d["experiments"][x]["variables"] = {}
        d["experiments"] = {x: d["experiments"][x]}
        s.world.put("workspace.yml", json.dumps(d))
        return alone(s, x, exps)
    lit = s.trial(literal)
    if lit is not None:
        a, b = canon(r), canon(lit)
        for k in ("edges", "nodes", "action_history"):
            if a[k] != b[k]:
                raise Violation("variables", "the result of %s alone is not the one %s give (%s differ)" % (
                    x, want, k))
        sim.probe("literal_compared")
