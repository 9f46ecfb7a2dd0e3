"""C08: result versions are durable, unique and ordered."""
from urllib.parse import quote

from ..core import Violation
from ..lib import reset_run
from ..wsgen import WS
from ..wsim import Sys, W, asgi_get, canon, complete, serve_ws, setup_ws, versions
from .c06 import done, must, stored

setup = setup_ws
FAULTS = ("kill", "kill", "power", "enospc", "eio", "interrupt", "emfile", "eacces", "short")


def run(sim):
    reset_run(sim)
    with Sys(sim) as s:
        if sim.chance(1, 6):
            # around the hour that comes twice in some time zones (2023-10-29 CET, 2023-11-05 EST)
            s.clock.jump(sim.pick((1698541200, 1699164000)) - 1700000000 + sim.pick((-1, -1800, 0, 1800)))
        s.world.shuffle_dirs = sim.chance(1, 2)
        ws = WS(sim, n_exp=sim.rint(1, 2), kinds=("file", "python", "name"))
        ws.write(s)
        exps = list(ws.exps)
        hist = []
        have = {x: {} for x in exps}         # version -> bytes, as seen last
        newest = {x: None for x in exps}     # version of the most recent completed execution
        if sim.chance(1, 3):
            # results of earlier days; also far in the future (written under another clock)
            x = sim.pick(exps)
            first = s.cli("workspace", "execute", "--experiment-name", x)
            must(first, "execute")
            data = list(stored(s, exps)[x].values())[0]
            for v in versions(s.world.files(), x):
                s.world.delete("%s_%d.json" % (x, v))
            if sim.chance(1, 5):
                for v in range(sim.rint(8, 40)):
                    s.world.put("%s_%d.json" % (x, 1600000000 + v * 1000), data)
            for _ in range(sim.rint(1, 3)):
                v = sim.pick((5, 9, 10, 99, 100, 1000, 1699999999, 1700000000, 1700000001, 1700003600, 3000000000))
                s.world.put("%s_%d.json" % (x, v), data)
            have[x] = versions(s.world.files(), x)
            newest[x] = max(have[x])
            hist.append("old %s %s" % (x, sorted(have[x])))
        one = {x: s.trial(lambda x=x: alone(s, x, exps)) for x in exps}
        sim.nontrivial = True
        for step in range(sim.rint(2, 5)):
            kind = sim.pick(("execute", "execute", "all", "twice", "fault", "fault", "both"))
            move(sim, s, hist)
            if kind == "both" and len(exps) < 2:
                kind = "execute"
            x = sim.pick(exps)
            args = ["workspace", "execute", "--experiment-name", x]
            if kind == "all":
                args = ["workspace", "execute", "--force-reexecution"]
            what = " ".join(args[1:])
            unsynced = {y: dict(have[y]) for y in exps}
            lost_ok = False
            if kind in ("execute", "all"):
                e = s.cli(*args)
                hist.append(what)
                must(e, what)
                expect = {y: (1, 1) for y in (exps if kind == "all" else [x])}
            elif kind == "twice":
                n = sim.rint(2, 3)

                def body():
                    for _ in range(n):
                        W["cmd"].main(args=list(args), prog_name="causy", standalone_mode=False)
                e = s.call(body)
                hist.append("%s, %d times in one process" % (what, n))
                must(e, hist[-1])
                expect = {x: (n, n)}
            elif kind == "both":
                # different experiments at the same time
                ps = [s.start(["workspace", "execute", "--experiment-name", y]) for y in exps]
                hist.append("all experiments at the same time")
                for p in ps:
                    must(s.wait(p), hist[-1])
                expect = {y: (1, 1) for y in exps}
            else:
                if sim.chance(1, 2):
                    s.world.sync()
                    synced = True
                else:
                    synced = False
                ref = s.trial(lambda: s.cli(*args))
                plan = s.draw_plan(ref.proc, FAULTS)
                e = s.cli(*args, plan=plan)
                s.world.full = False
                hist.append("%s with %r" % (what, plan))
                if plan.kind == "power" and plan.fired and not synced:
                    lost_ok = True
                ok = done(e)
                if not plan.fired:
                    must(e, hist[-1])
                expect = {x: (1 if ok else 0, 1)}
            sim.desc = {"workspace": ws.describe(), "history": hist}
            check(sim, s, exps, have, newest, expect, hist, lost_ok, one)
            ui(s, exps, have, hist)


def move(sim, s, hist):
    k = sim.pick(("stay", "stay", "tick", "second", "minute", "back", "back_far", "forward", "forward_far"))
    if k == "tick":
        s.clock.advance(0.3)
    elif k == "second":
        s.clock.advance(1)
    elif k == "minute":
        s.clock.advance(60)
        s.world.sync()
    elif k != "stay":
        d = {"back": -sim.pick((1, 2, 30)), "back_far": -sim.pick((3600, 86400, 10 ** 8)), "forward": 3600,
             "forward_far": 10 ** 8}[k]
        s.clock.jump(d)
        sim.fault("clock_" + k)
    else:
        return
    hist.append(k)


def alone(s, x, exps):
    before = stored(s, exps)[x]
    e = s.cli("workspace", "execute", "--experiment-name", x)
    must(e, "execute")
    after = stored(s, exps)[x]
    new = [v for v in after if v not in before]
    if len(new) != 1:
        raise Violation("no-new-version", "executing %s with existing versions %s reported success and left versions %s" % (
            x, sorted(before), sorted(after)))
    d = complete(after[new[0]])
    if d is None:
        raise Violation("torn-result", "version %d of %s is not complete" % (new[0], x))
    return canon(d)


def check(sim, s, exps, have, newest, expect, hist, lost_ok, one):
    now = stored(s, exps)
    h = "; ".join(hist)
    for x in exps:
        lo, hi = expect.get(x, (0, 0))
        for v, data in have[x].items():
            if v not in now[x]:
                if not lost_ok:
                    raise Violation("version-lost", "%s: version %d of %s is gone" % (h, v, x))
                sim.probe("unsynced_version_lost")
            elif now[x][v] != data:
                raise Violation("version-changed", "%s: version %d of %s was overwritten" % (h, v, x))
        new = sorted(v for v in now[x] if v not in have[x])
        if len(new) < lo or len(new) > hi:
            raise Violation("version-count", "%s: %d new versions of %s, expected %s" % (
                h, len(new), x, lo if lo == hi else "%d to %d" % (lo, hi)))
        for v in new:
            d = complete(now[x][v])
            if d is None:
                raise Violation("torn-result", "%s: version %d of %s is not complete (%d bytes)" % (h, v, x, len(now[x][v])))
            if canon(d) != one[x]:
                raise Violation("wrong-result", "%s: version %d of %s is not the result of executing it" % (h, v, x))
            if have[x] and v <= max(have[x]):
                raise Violation("version-order", "%s: new version %d of %s is not greater than the existing %d" % (
                    h, v, x, max(have[x])))
        have[x] = dict(now[x])
        if have[x]:
            newest[x] = max(have[x])
    sim.probe("steps")


def ui(s, exps, have, hist):
    """What is reported as latest."""
    def body():
        serve_ws()
        return [asgi_get("/api/v1/experiments/%s/latest" % quote(x, safe="")) for x in exps]
    e = s.call(body, "ui")
    if e.proc.err:
        raise Violation("ui-failed", "%s: %s" % ("; ".join(hist), e.proc.err))
    for x, (status, b) in zip(exps, e.proc.value):
        if not have[x]:
            if status == 200:
                raise Violation("latest-wrong", "%s: a latest version of %s is served, there is none" % ("; ".join(hist), x))
            continue
        if status != 200:
            raise Violation("latest-missing", "%s: the latest version of %s (%d) is answered with %s %s" % (
                "; ".join(hist), x, max(have[x]), status, b))
        d = complete(have[x][max(have[x])])
        if b["version"] != max(have[x]) or b["created_at"] != d["created_at"]:
            raise Violation("latest-wrong", "%s: the latest version of %s is reported as %s, it is %d" % (
                "; ".join(hist), x, b["version"], max(have[x])))
