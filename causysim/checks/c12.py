"""C12: the UI serves consistent results while the workspace changes."""
import json

from urllib.parse import quote

from ..core import Violation
from ..lib import reset_run
from ..wsgen import WS
from ..wsim import Sys, asgi_get, complete, serve_ws, setup_ws, versions
from .c06 import must, stored

setup = setup_ws


def run(sim):
    reset_run(sim)
    with Sys(sim) as s:
        s.world.shuffle_dirs = sim.chance(1, 3)
        ws = WS(sim, n_exp=sim.rint(1, 3), kinds=("file", "python", "name"))
        if sim.chance(1, 8):
            ws.datas[0].constant = True
        ws.write(s)
        exps = list(ws.exps)
        # a stored result of every experiment, and copies of it under other versions
        must(s.cli("workspace", "execute"), "execute")
        base = {x: complete(list(v.values())[0]) for x, v in stored(s, exps).items()}
        if any(v is None for v in base.values()):
            raise Violation("torn-result", "a result of an execution is not complete")
        n = 0
        for x in exps:
            if sim.chance(1, 4):
                for f in [f for f in s.world.files() if versions({f: b""}, x)]:
                    s.world.delete(f)
            for _ in range(sim.draw(4)):
                n += 1
                v = sim.pick((9, 10, 99, 100, 1600000000, 1699999999, 1700000001, 1700000007, 20240101120000))
                s.clock.advance(sim.pick((0, 1)))
                d = dict(base[x], created_at="2023-11-1%dT00:00:%02d" % (n % 10, n % 60))
                s.world.put("%s_%d.json" % (x, v), json.dumps(d))
        if sim.chance(1, 4):
            s.world.put("%s_x.json" % exps[0], "{}")
        s.clock.advance(sim.pick((0, 1, 50)))
        reqs = [[gen_request(sim, s, exps) for _ in range(sim.rint(1, 5))] for _ in range(sim.rint(1, 2))]
        cmds = [gen_command(sim, exps) for _ in range(sim.rint(1, 2))]
        # executions of the same experiment do not overlap
        if len(cmds) == 2 and "execute" in cmds[0] and "execute" in cmds[1]:
            cmds = cmds[:1]
        sim.desc = {"workspace": ws.describe(), "requests": reqs, "commands": [" ".join(c[1:]) for c in cmds]}
        sim.nontrivial = True

        states = [stored(s, exps)]

        def on_op(proc, name, path):
            # called before each operation of any process: the state the previous ones left
            st = stored(s, exps)
            if st != states[-1]:
                states.append(st)
        s.world.on_op = on_op
        answers = []

        def client(paths):
            def body():
                for r in paths:
                    on_op(None, None, None)
                    i = len(states) - 1
                    status, b = asgi_get(r[0])
                    on_op(None, None, None)
                    answers.append((r, i, len(states) - 1, status, b))
            return body

        def load():
            serve_ws()
        # the workspace is loaded when the UI starts; nothing below restarts it
        flag = []

        def serve():
            try:
                load()
            finally:
                flag.append(1)
            client(reqs[0])()
            s.sched.block_until(lambda: len(flag) > 1 and all(c.ended for c in more), "other clients")
        more = []
        ui0 = s._spawn("ui", serve)
        s.sched.block_until(lambda: bool(flag), "ui start")
        more += [s._spawn("client", client(r)) for r in reqs[1:]]
        flag.append(2)
        ps = []
        for c in cmds:
            plan = None
            if sim.chance(1, 4):
                from ..vfs import Plan
                plan = Plan(sim.pick(("kill", "eio", "enospc", "interrupt")), ("op", sim.draw(60)))
            ps.append((s.start(c, None, plan), plan))
        for p in [ui0] + more:
            e = s.wait(p)
            if e.proc.err or e.proc.rc not in (0, None):
                raise Violation("ui-failed", "the UI failed: %s %s" % (e.why(), e.proc.tb))
        for p, plan in ps:
            e = s.wait(p)
            s.world.full = False
            if plan is None or not plan.fired:
                if e.proc.rc != 0 and len(cmds) == 1:
                    raise Violation("command-failed", "%s beside the UI failed: %s" % (sim.desc["commands"], e.why()))
        s.world.on_op = None
        for a in answers:
            judge(sim, s, exps, a, states)


def gen_request(sim, s, exps):
    x = sim.pick(exps)
    k = sim.pick(("latest", "latest", "latest", "version", "version", "list", "unknown"))
    if k == "latest":
        return ["/api/v1/experiments/%s/latest" % quote(x, safe=""), "latest", x, None]
    if k == "version":
        have = sorted(versions(s.world.files(), x)) + [1700000002, 5]
        v = sim.pick(have)
        return ["/api/v1/experiments/%s/%d" % (quote(x, safe=""), v), "version", x, v]
    if k == "list":
        return ["/api/v1/experiments", "list", None, None]
    return [sim.pick(("/api/v1/experiments/nope/latest", "/api/v1/experiments/%s/abc" % quote(x, safe=""), "/api/v1/experiments/nope/7")),
            "unknown", None, None]


def gen_command(sim, exps):
    x = sim.pick(exps)
    k = sim.pick(("execute", "execute", "all", "clear", "clear", "rm"))
    return {"execute": ["workspace", "execute", "--experiment-name", x],
            "all": ["workspace", "execute", "--force-reexecution"],
            "clear": ["workspace", "experiment", "clear", x], "rm": ["workspace", "experiment", "rm", x]}[k]


def judge(sim, s, exps, a, states):
    (path, kind, x, v), i, j, status, b = a
    span = states[i:j + 1]
    if j > i:
        sim.probe("changed_during_" + kind)
    if not isinstance(status, int) or status >= 500 or status < 200:
        raise Violation("server-error", "GET %s was answered with %s %s" % (path, status, str(b)[:300]))
    sim.probe("%s_%d" % (kind, status))
    if kind == "unknown":
        if status < 400:
            raise Violation("served-unknown", "GET %s was answered with %s" % (path, status))
        return
    if kind == "list":
        if status != 200:
            raise Violation("not-served", "GET %s was answered with %s %s" % (path, status, b))
        got = {e["name"]: [w["version"] for w in e["versions"] or []] for e in b}
        if sorted(got) != sorted(exps):
            raise Violation("list-wrong", "GET %s lists the experiments %s" % (path, sorted(got)))
        for y in exps:
            must_ = set.intersection(*[set(st[y]) for st in span])
            may = set.union(*[set(st[y]) for st in span])
            if not must_ <= set(got[y]) <= may or len(set(got[y])) != len(got[y]):
                raise Violation("list-wrong", "GET %s lists versions %s of %s; %s existed all the time, %s at some time" % (
                    path, got[y], y, sorted(must_), sorted(may)))
        return
    if 300 <= status < 400:
        raise Violation("not-served", "GET %s was answered with %s" % (path, status))
    removed = any(set(p[x]) - set(q[x]) for p, q in zip(span, span[1:]))
    first = span[0][x]
    if status >= 400:
        if kind == "version" and all(v in st[x] for st in span):
            raise Violation("not-served", "GET %s was answered with %s %s although the version existed all the time" % (
                path, status, b))
        if kind == "latest" and first and not removed:
            raise Violation("not-served", "GET %s was answered with %s %s although results existed and none was removed" % (
                path, status, b))
        return
    got = b.get("version")
    if kind == "version" and got != v:
        raise Violation("wrong-label", "GET %s was answered with version %s" % (path, got))
    contents = {st[x][got] for st in span if got in st[x]}
    if not contents:
        raise Violation("served-unknown", "GET %s was answered with version %s, which did not exist during the request" % (
            path, got))
    if kind == "latest" and first:
        newest = max(first)
        if got < newest and all(newest in st[x] for st in span):
            raise Violation("latest-old", "GET %s was answered with version %s, %s existed all the time" % (
                path, got, newest))
    fits = []
    for c in contents:
        d = complete(c)
        if d is None:
            continue
        fits.append(d["created_at"] == b["created_at"] and quiet(s, x, got, c) == b)
    if not any(fits):
        raise Violation("wrong-content", "GET %s was answered with version %s, but not with its content" % (path, got))


def quiet(s, x, v, content):
    """The answer for this very file without anything going on; checked against the file."""
    def go():
        for f in list(s.world.files()):
            if f.endswith(".json") and versions({f: b""}, x):
                s.world.delete(f)
        s.world.put("%s_%d.json" % (x, v), content)
        doc = {"name": "w", "author": "", "pipelines": {}, "dataloaders": {},
               "experiments": {x: {"pipeline": "p", "dataloader": "d", "variables": {}}}}
        s.world.put("workspace.yml", json.dumps(doc))

        def body():
            serve_ws()
            return asgi_get("/api/v1/experiments/%s/%d" % (quote(x, safe=""), v))
        return s.call(body).proc.value
    status, b = s.trial(go)
    if status != 200:
        raise Violation("not-served", "version %d of %s is answered with %s %s" % (v, x, status, b))
    d = json.loads(content, parse_constant=lambda c: None)
    for k in ("created_at", "variables", "data_loader_hash", "algorithm_hash", "variables_hash"):
        if k in d and b.get(k) != d[k]:
            raise Violation("wrong-content", "version %d of %s is served with %s %s instead of %s" % (v, x, k, b.get(k), d[k]))
    if b["version"] != v:
        raise Violation("wrong-label", "version %d of %s is served as %s" % (v, x, b["version"]))
    if sorted(b["nodes"]) != sorted(d["nodes"]):
        raise Violation("wrong-content", "version %d of %s is served with other nodes" % (v, x))
    key = lambda e: json.dumps([e["u"]["name"], e["v"]["name"], e["edge_type"].get("name"), e.get("metadata")],
                               sort_keys=True)
    if sorted(map(key, b["edges"])) != sorted(map(key, d["edges"])):
        raise Violation("wrong-content", "version %d of %s is served with other edges" % (v, x))
    ah = [(t["name"], len(t.get("actions") or []), len(t.get("all_proposed_actions") or [])) for t in b["action_history"]]
    dh = [(t["name"], len(t.get("actions") or []), len(t.get("all_proposed_actions") or [])) for t in d["action_history"]]
    if ah != dh:
        raise Violation("wrong-content", "version %d of %s is served with another action history" % (v, x))
    return b
