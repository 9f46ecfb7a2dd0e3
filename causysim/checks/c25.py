"""C25: pipeline references cannot leave the workspace."""
import json
import os
import posixpath

from urllib.parse import quote

from ..core import Violation
from ..lib import reset_run
from ..vfs import CWD, Plan
from ..wsgen import Pipe, rows
from ..wsim import Sys, User, asgi_get, complete, serve_ws, setup_ws, versions

setup = setup_ws
ROOT = posixpath.dirname(CWD)
SIBLINGS = ("w2", "w.bak", "w-old", "out", "W", "w/../w3", "ww/w")


def spec(sim, name):
    p = Pipe(sim, "p", 0, kinds=("file",))
    p.rich = p.deep = False
    p.extra = []
    d = p.spec()
    d["name"] = name
    return d


def real(world, ref):
    """Where a reference leads: (canonical path, exists)."""
    cur = [] if ref.startswith("/") else CWD.split("/")[1:]
    todo = [x for x in ref.split("/") if x not in ("", ".")]
    n = 0
    while todo:
        x = todo.pop(0)
        if x == "..":
            cur = cur[:-1]
            continue
        p = "/" + "/".join(cur + [x])
        i = world.names.get(p)
        if i is None:
            return p + "".join("/" + t for t in todo), False
        if i.kind == "l":
            n += 1
            if n > 20:
                return None, False
            if i.target.startswith("/"):
                cur = []
            todo = [t for t in i.target.split("/") if t not in ("", ".")] + todo
            continue
        if i.kind == "f" and todo:
            return None, False
        cur.append(x)
    return "/" + "/".join(cur), True


def inside(p):
    return p is not None and p.startswith(CWD + "/")


def run(sim):
    reset_run(sim)
    with Sys(sim) as s:
        w = s.world
        names = {}

        def put(path, ok=True):
            path = posixpath.normpath(posixpath.join(CWD, path))
            parts = path.split("/")
            for k in range(2, len(parts)):
                d = "/".join(parts[:k])
                if d not in w.names:
                    w.names[d] = w.durable[d] = w._inode("d", 0o755)
            name = "n%d" % len(names)
            d = spec(sim, name)
            if path.endswith(".yml"):
                import yaml
                t = yaml.safe_dump(d)
            else:
                t = json.dumps(d)
            w.put(path, t if ok else "secret")
            names[path] = name if ok else None
        put("pipe.json")
        put("sub/pipe.yml")
        if sim.chance(1, 2):
            put("sub/deep/pipe.json")
        out = []
        for d in sim.subset(SIBLINGS, 2, 3) + ["outside"]:
            f = "../%s/%s" % (d, sim.pick(("pipe.json", "pipe.json", "sub/pipe.yml")))
            put(f, sim.chance(4, 5))
            out.append(f)
        put("../pipe.json")
        out.append("../pipe.json")
        # links
        links = []
        for i in range(sim.draw(5)):
            n = sim.pick(("lf%d.json", "sub/lf%d.json")) % i
            up = "../" if n.startswith("sub/") else ""
            k = sim.pick(("in", "out", "dir out", "dir in", "link", "abs out"))
            if k == "in":
                t = up + sim.pick(("pipe.json", "sub/pipe.yml"))
            elif k == "out":
                t = up + sim.pick(out)
            elif k == "abs out":
                t = posixpath.normpath(posixpath.join(CWD, sim.pick(out)))
            elif k == "dir out":
                n, t = "ld%d" % i, posixpath.dirname(sim.pick(out)) or ".."
            elif k == "dir in":
                n, t = "ld%d" % i, sim.pick(("sub", ".", "sub/.."))
            else:
                t = up + (sim.pick(links) if links else n)
            w.link(n, t)
            links.append(n)
        ref = gen_ref(sim, w, out, links)
        how = sim.pick(("load", "load", "ui", "execute", "update", "add"))
        target, there = real(w, ref)
        w.put("data.json", json.dumps(rows(5, ["a", "b"], 8)))
        doc = {"name": "w", "author": "me", "pipelines": {"p": {"type": "file", "reference": ref}},
               "dataloaders": {"d": {"type": "json", "reference": "data.json"}},
               "experiments": {"exp": {"pipeline": "p", "dataloader": "d", "variables": {"threshold": 0.04}}}}
        w.put("workspace.yml", json.dumps(doc))
        # links that change while the reference is followed
        moves = []
        at = None
        if links and sim.chance(1, 2):
            # by another process at any moment, or just before one operation
            at = sim.draw(12) if sim.chance(1, 2) else None
            used = [n for n in links if ref.startswith(n)]
            for _ in range(sim.rint(1, 3)):
                n = sim.pick(used) if used and sim.chance(2, 3) else sim.pick(links)
                up = "../" if n.startswith("sub/") else ""
                if n.startswith("ld"):
                    t = sim.pick(("sub", "../outside", "../w2", "."))
                else:
                    t = up + sim.pick(["pipe.json", "sub/pipe.yml"] + out)
                moves.append((n, t))
        plan = None
        if not moves and sim.chance(1, 3):
            plan = Plan(sim.pick(("eiostat", "eio", "eacces", "interrupt", "kill")), ("op", sim.draw(16)))
        sim.nontrivial = True
        sim.desc = {"reference": ref, "by": how, "leads_to": target, "links": {n: w.names[CWD + "/" + n].target for n in links},
                    "moves": moves, "fault": repr(plan)}
        before = w.tree()

        def body():
            if how == "load":
                from causy.serialization import load_algorithm_by_reference
                return load_algorithm_by_reference("file", ref).name
            serve_ws()
            return asgi_get("/api/v1/algorithm/file/" + quote(ref, safe=""))
        if how in ("load", "ui"):
            p = s._spawn(how, body, None, plan)
        else:
            user = None
            args = {"execute": ["workspace", "execute", "--experiment-name", "exp"],
                    "update": ["workspace", "experiment", "update-variable", "--", "exp", "threshold", "0.2"],
                    "add": ["workspace", "experiment", "add"]}[how]
            if how == "add":
                user = User({"experiment_name": "fresh", "experiment_pipeline": "p", "experiment_loader": "d"})
            p = s.start(args, user, plan)
        if moves and at is not None:
            def on_op(proc, name, path):
                if proc is not p:
                    return
                if seen[0] or any(str(path).startswith(CWD + "/" + n) for n in links):
                    seen[0] += 1
                if seen[0] > at and todo:
                    w.link(*todo.pop(0))
            seen = [0]
            todo = list(moves)
            w.on_op = on_op
            sim.probe("links_moved_at_op")
        elif moves:
            def mover():
                for i, (n, t) in enumerate(moves):
                    os.symlink(t, "tmp%d" % i)
                    os.replace("tmp%d" % i, n)
            q = s._spawn("mover", mover)
            sim.probe("links_moved")
        e = s.wait(p)
        w.on_op = None
        if moves and at is None:
            m = s.wait(q)
            if m.proc.err:
                from ..core import HarnessError
                raise HarnessError("mover: %s" % m.proc.err)
        for f, wr in e.proc.opened:
            if f != CWD and not inside(f) and f.startswith(ROOT + "/") and not f.startswith("/simws/tmp"):
                raise Violation("outside-read", "the reference %r (%s, leading to %s%s%s) made causy open %s" % (
                    ref, how, target, ", while links were changed" if moves else "",
                    " with %r" % plan if plan else "", f))
        faulty = plan is not None and plan.fired
        if how == "ui":
            ok = e.proc.value is not None and e.proc.value[0] == 200
            if e.proc.value is not None and e.proc.value[0] >= 500:
                raise Violation("server-error", "the reference %r was answered with %s %s" % ((ref,) + e.proc.value))
            got = e.proc.value[1].get("name") if ok else None
        elif how == "load":
            ok, got = e.proc.err is None and not e.killed, e.proc.value
        else:
            ok = e.ok and not e.killed
            got = None
        files = {x: versions(w.files(), x) for x in ("exp",)}
        if not ok and how == "execute" and files["exp"]:
            raise Violation("result-kept", "the reference %r was refused but a result was stored" % ref)
        if moves or faulty:
            if ok and got is not None and got not in [n for f, n in names.items() if inside(f)]:
                raise Violation("outside-read", "the reference %r gave the pipeline %s" % (ref, got))
            return
        good = there and inside(target) and names.get(target)
        sim.probe("led_inside" if good else "led_outside" if there and not inside(target) else "led_nowhere")
        if not good:
            if ok:
                raise Violation("outside-accepted", "the reference %r (leading to %s) was accepted by %s" % (ref, target, how))
            now = w.tree()
            if now != before:
                diff = sorted(set(now.items()) ^ set(before.items()))[0][0]
                raise Violation("changed", "the refused reference %r (%s) changed %s" % (ref, how, diff))
            return
        if how == "ui" and ("/" in ref or ".." in ref):
            return
        if not ok:
            raise Violation("inside-refused", "the reference %r leads to %s but %s failed: %s" % (
                ref, target, how, e.why() if how != "ui" else e.proc.value))
        if got is not None and got != good:
            raise Violation("wrong-pipeline", "the reference %r leads to %s (%s) but %s was loaded" % (ref, target, good, got))
        if how == "execute":
            r = [complete(v) for v in files["exp"].values()]
            if len(r) != 1 or r[0] is None:
                raise Violation("no-result", "executing with the reference %r stored %d results" % (ref, len(r)))


def gen_ref(sim, w, out, links):
    k = sim.pick(("in", "out", "link", "link", "mixed", "abs", "missing", "dir"))
    if k == "link" and not links:
        k = "out"
    if k == "in":
        r = sim.pick(("pipe.json", "sub/pipe.yml"))
    elif k == "out":
        r = sim.pick(out)
    elif k == "link":
        r = sim.pick(links)
        if r.startswith("ld"):
            r += sim.pick(("/pipe.json", "/sub/pipe.yml", "/../pipe.json", "/pipe.yml", "/../w/pipe.json"))
    elif k == "mixed":
        r = sim.pick(("sub/../pipe.json", "../w/pipe.json", "sub/../../w2/pipe.json", "./pipe.json", "sub//pipe.yml",
                      "../../simws/w/pipe.json", "sub/../../outside/pipe.json", "../w/../w2/pipe.json"))
    elif k == "abs":
        r = posixpath.normpath(posixpath.join(CWD, sim.pick(["pipe.json", "sub/pipe.yml"] + out)))
    elif k == "missing":
        r = sim.pick(("nope.json", "sub/nope.json", "../nope.json", "", "~/pipe.json", "pipe.json/x"))
    else:
        r = sim.pick(("sub", ".", "..", "../w2", "../w"))
    return r
