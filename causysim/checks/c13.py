"""C13: aborting a prompt changes nothing."""
import json

from ..core import Violation
from ..lib import reset_run
from ..wsgen import WS
from ..wsim import Sys, User, W, read_ws, setup_ws

setup = setup_ws
NAMES = ("fresh", "New One", "exp", "p0", "d0", "pipe0", "x_1", "1e5", "Some-Thing")


def gen(sim, ws, exists):
    opts = ["pipeline add", "dataloader add", "experiment add", "init", "init"]
    k = sim.pick(opts if exists else ["init"])
    a = {"pipeline_kind": sim.pick(("PRECONFIGURED", "SKELETON", "EJECT")), "algorithm": sim.pick(("PC", "ParallelPC")),
         "pipeline_name": sim.pick(NAMES), "loader_type": sim.pick(("json", "jsonl", "dynamic")),
         "loader_name": sim.pick(NAMES), "path": sim.pick(("data0.json", "x.jsonl")), "experiment_name": sim.pick(NAMES)}
    if k == "experiment add":
        a["experiment_pipeline"] = sim.pick(ws.pipes).key
        a["experiment_loader"] = sim.pick(ws.datas).key
    if k == "init":
        a.update(name=sim.pick(("", "again", "1e5")), author=sim.pick(("", "someone")),
                 with_pipeline=sim.chance(2, 3), with_loader=sim.chance(2, 3), with_experiment=sim.chance(2, 3))
    # do not let a skeleton and a loader share one file name: the later one would win
    if a["pipeline_name"] == a["loader_name"]:
        a["loader_name"] += "l"
    return k, ["workspace"] + k.split(), a


def state(s):
    return {p: v for p, v in s.world.tree().items()}


def run(sim):
    reset_run(sim)
    with Sys(sim) as s:
        ws = WS(sim, kinds=("file", "python", "name"))
        ws.write(s)
        exists = sim.chance(5, 6)
        if not exists:
            s.world.delete("workspace.yml")
        # files the command might touch
        for f in sim.subset(("fresh.py", "fresh.yml", "new_one.py", "new_one.yml", "exp.yml", "p0.py", "d0.py", "notes"), 1, 4):
            s.world.put(f, "# mine\n")
        for x in ws.exps:
            if sim.chance(1, 3):
                s.world.put("%s_1699999000.json" % x, "{}")
        for _ in range(sim.rint(1, 3)):
            once(sim, s, ws, exists)
            exists = True


def once(sim, s, ws, exists):
    if exists:
        w, err = read_ws(s)
        if err:
            raise Violation("workspace-unreadable", err)
        if not any(p.key in w["pipelines"] for p in ws.pipes) or not any(d.key in w["dataloaders"] for d in ws.datas):
            k, args, a = gen(sim, ws, False)
        else:
            k, args, a = gen(sim, ws, True)
            if k == "experiment add":
                a["experiment_pipeline"] = sim.pick([p for p in w["pipelines"]])
                a["experiment_loader"] = sim.pick([p for p in w["dataloaders"]])
    else:
        k, args, a = gen(sim, ws, False)
    text = " ".join(args[1:])
    desc = {"command": text, "answers": a}
    sim.desc = desc
    sim.nontrivial = True

    def full():
        u = User(dict(a))
        e = s.cli(*args, user=u)
        return e, u, state(s), read_ws(s)
    e, u, after, (w2, err2) = s.trial(full)
    if not e.ok:
        # e.g. a skeleton hides a module the chosen pipeline needs: nothing to say about aborting
        if "mine" in str(e.why()) or e.proc.exc_type in ("AttributeError", "ModuleNotFoundError"):
            sim.probe("not_possible")
            return
        raise Violation("command-failed", "%s %s failed: %s %s" % (text, json.dumps(a), e.why(), e.proc.tb))
    if err2:
        raise Violation("workspace-unreadable", "%s %s: %s" % (text, json.dumps(a), err2))
    n = len(u.asked)
    if not n:
        raise Violation("no-prompt", "%s asked nothing" % text)
    s.world.sync()
    for _ in range(sim.rint(1, 3)):
        at = sim.draw(n)
        kind = u.asked[at][0]
        how = sim.pick(("interrupt", "interrupt", "interrupt", "kill") if kind == "select" else
                       ("interrupt", "interrupt", "eof", "kill"))
        what = "%s %s, %s at prompt %d of %d (%s)" % (text, json.dumps(a), how, at + 1, n, u.asked[at][1].strip()[:60])
        desc["abort"] = [at, how]
        before = state(s)
        # without any prompt having been answered differently
        v = User(dict(a), abort_at=at, abort_kind=how)
        e = s.cli(*args, user=v)
        if len(v.asked) <= at:
            raise Violation("prompts-differ", "%s: the prompt was not reached" % what)
        now = state(s)
        for p in sorted(set(before) | set(now)):
            if before.get(p) != now.get(p):
                raise Violation("changed", "%s: %s was %s" % (
                    what, p, "created" if p not in before else "removed" if p not in now else "changed"))
        if not e.killed and (e.proc.rc == 0 or "\u2705" in e.out or "Workspace created" in e.out):
            raise Violation("success-reported", "%s: the command ended with success: %s" % (what, e.why()))
        sim.probe("abort_%s_%s" % (how, kind))
        if len(v.asked) > at + 1:
            raise Violation("asked-on", "%s: the command went on asking: %s" % (what, v.asked[at + 1:]))
    # afterwards the command works as if never aborted
    e = s.cli(*args, user=User(dict(a)))
    if not e.ok:
        raise Violation("stuck-after-abort", "%s; running it again fails: %s %s" % (what, e.why(), e.proc.tb))
    w3, err3 = read_ws(s)
    if err3 or w3 != w2:
        raise Violation("differs-after-abort", "%s; running it again gives another workspace: %s" % (
            what, err3 or json.dumps(w3)[:400]))
    x = {p: v for p, v in state(s).items() if v[0] == "f" and not p.endswith("workspace.yml")}
    y = {p: v for p, v in after.items() if v[0] == "f" and not p.endswith("workspace.yml")}
    if x != y:
        raise Violation("differs-after-abort", "%s; running it again leaves other files: %s" % (
            what, sorted(p for p in set(x) | set(y) if x.get(p) != y.get(p))))
