"""C06: a failing execution fails loudly and leaves nothing behind."""
import json

from .. import wsteps
from ..core import Violation
from ..lib import reset_run
from ..wsgen import WS
from ..wsim import Sys, W, canon, complete, read_ws, setup_ws, versions
from ..vfs import Plan

setup = setup_ws
CAUSES = ("step", "step", "step", "data", "io", "io", "interrupt", "definition", "variables")


def stored(s, exps):
    f = s.world.files()
    return {x: versions(f, x) for x in exps}


def done(e):
    return not e.proc.dead and e.proc.rc == 0


def run(sim):
    reset_run(sim)
    wsteps.reset()
    with Sys(sim) as s:
        ws = WS(sim, kinds=("file", "python", "name") if sim.chance(1, 4) else ("file", "python"), failing=True,
                parallel=None)
        ws.write(s)
        exps = list(ws.exps)
        if sim.chance(1, 2):
            e = s.cli("workspace", "execute", "--experiment-name", sim.pick(exps))
            must(e, "an execution without any fault")
            s.clock.advance(sim.pick((0, 1, 3600)))
        one = sim.chance(1, 2)
        args = ["workspace", "execute"] + (["--experiment-name", sim.pick(exps)] if one else [])
        if not one and sim.chance(1, 2):
            args.append("--force-reexecution")
        targets = [args[-1]] if one else exps
        s.world.sync()
        before = stored(s, exps)
        old, err = read_ws(s)
        wsteps.reset()

        def attempt():
            e = s.cli(*args)
            must(e, "an execution without any fault")
            return e, {x: canon(complete(v[max(v)])) for x, v in stored(s, exps).items() if v}, \
                {x: len(v) for x, v in stored(s, exps).items()}
        refrun, ref, counts = s.trial(attempt)
        for x in targets:
            if x not in ref:
                raise Violation("no-result", "%s reported success but experiment %s has no stored result" % (args, x))
        executed = [x for x in exps if counts[x] > len(before[x])]
        calls = wsteps.STATE["calls"]
        wsteps.reset()

        cause = sim.pick(CAUSES)
        if cause == "step" and not calls:
            cause = "data"
        sim.desc = {"workspace": ws.describe(), "args": args, "cause": cause}
        sim.nontrivial = True
        heal, bad, plan, must_fail = plant(sim, s, ws, cause, calls, refrun, targets)
        again = cause == "step" and sim.chance(1, 3)
        what = "%s with %s" % (" ".join(args), sim.desc["cause"])
        out = {}
        if again:
            # the same process executes once more after the failure
            def twice():
                cmd = W["cmd"]
                try:
                    r = cmd.main(args=list(args), prog_name="causy", standalone_mode=False)
                    out["first"] = r or 0
                except Exception as e:
                    out["first"] = "%s: %s" % (type(e).__name__, e)
                out["mid"] = stored(s, exps)
                out["fired"] = wsteps.STATE["fired"]
                return cmd.main(args=list(args), prog_name="causy", standalone_mode=False)
            e2 = s.call(twice)
            first_ok, mid = out.get("first") == 0, out.get("mid")
            if mid is None:
                raise Violation("died", "%s: the process ended: %s" % (what, e2.why()))
            fired = out["fired"]
        else:
            e = s.cli(*args, plan=plan)
            first_ok, mid = done(e), stored(s, exps)
            fired = bool(plan.fired) if plan else (wsteps.STATE["fired"] if cause == "step" else True)
        struck = wsteps.STATE["struck"] if cause == "step" else (s.procs[-1].struck if plan else None)
        heal()
        judge(sim, what, before, mid, ref, targets, executed, bad, first_ok, fired, must_fail, struck, exps)
        now, err = read_ws(s)
        if err or now != old:
            raise Violation("workspace-changed", "%s changed the workspace: %s" % (what, err or json.dumps(now)[:400]))

        # the cause is gone: executing again works and gives the reference result
        if not again:
            e2 = s.cli(*args)
        if not done(e2):
            raise Violation("stuck-after-failure", "%s; executing again fails: %s %s" % (what, e2.why(), e2.proc.tb))
        end = stored(s, exps)
        for x in targets:
            if not end[x]:
                raise Violation("no-result", "%s; executing again gave no result for %s" % (what, x))
            d = complete(end[x][max(end[x])])
            if d is None or canon(d) != ref[x]:
                raise Violation("wrong-after-failure", "%s; executing again gives another result for %s than without "
                                "the failure" % (what, x))
        sim.probe("fired" if fired else "not_reached")
        sim.probe("reported_failure" if not first_ok else "reported_success")


def must(e, what):
    if not done(e):
        raise Violation("command-failed", "%s failed: %s %s" % (what, e.why(), e.proc.tb))


def plant(sim, s, ws, cause, calls, refrun, targets):
    """-> (heal, experiments that can not succeed, plan, failure must be reported)"""
    w = s.world

    def nothing():
        w.full = False
    if cause == "step":
        n, exc = sim.draw(calls), sim.pick(list(wsteps.EXC))
        wsteps.STATE.update(fail_at=n, exc=exc)
        sim.desc["cause"] = "%s at call %d" % (exc, n)
        return nothing, set(), None, True
    if cause == "io":
        plan = s.draw_plan(refrun.proc, ("eio", "enospc", "emfile", "eacces", "short"))
        sim.desc["cause"] = repr(plan)
        return nothing, set(), plan, False
    if cause == "interrupt":
        plan = s.draw_plan(refrun.proc, ("interrupt",))
        sim.desc["cause"] = repr(plan)
        return nothing, set(), plan, False
    x = sim.pick(targets)
    if cause == "data":
        d = ws.data(ws.exps[x]["dataloader"])
        good = w.get(d.ref).decode()
        opts = {"missing": None, "garbage": "no data", "truncated": good.rstrip()[:-1 - sim.draw(4)], "empty": "",
                "binary": b"\xff\xfe\x00"}
        if not d.columns:
            rs = [json.loads(l) for l in good.splitlines()] if d.kind == "jsonl" else json.loads(good)
            k = sim.draw(len(rs))
            opts["text_value"] = [dict(r, a="x") if i == k else r for i, r in enumerate(rs)]
            opts["null_value"] = [dict(r, a=None) if i == k else r for i, r in enumerate(rs)]
            if k:
                opts["column_missing"] = [{c: v for c, v in r.items() if c != "b"} if i == k else r
                                          for i, r in enumerate(rs)]
            opts["row_no_object"] = [5 if i == k else r for i, r in enumerate(rs)]
        how = sim.pick(list(opts))
        v = opts[how]
        sim.desc["cause"] = "%s %s" % (how, d.ref)
        sim.fault("data_" + how)
        if v is None:
            w.delete(d.ref)
        else:
            if isinstance(v, list):
                v = "".join(json.dumps(r) + "\n" for r in v) if d.kind == "jsonl" else json.dumps(v)
            w.put(d.ref, v)
        bad = {y for y, e in ws.exps.items() if e["dataloader"] == d.key}
        return (lambda: w.put(d.ref, good)), bad, None, True
    if cause == "definition":
        p = ws.pipe(ws.exps[x]["pipeline"])
        bad = {y for y, e in ws.exps.items() if e["pipeline"] == p.key}
        if p.kind == "name":
            cause = "variables"
        else:
            f = list(p.files())[0]
            good = w.get(f)
            opts = {"missing": None, "garbage": b"{]", "empty": b"",
                    "unknown_step": good.replace(b"CorrelationCoefficientTest", b"NoSuchTest")}
            how = sim.pick(list(opts))
            sim.fault("pipeline_" + how)
            sim.desc["cause"] = "%s %s" % (how, f)
            if opts[how] is None:
                w.delete(f)
            else:
                w.put(f, opts[how])
            return (lambda: w.put(f, good)), bad, None, True
    # variables
    good = w.get("workspace.yml")
    doc = json.loads(good)
    how = sim.pick(("unknown", "wrong_type"))
    v = doc["experiments"][x].setdefault("variables", {}) or {}
    doc["experiments"][x]["variables"] = v
    if how == "unknown":
        v["nonesuch"] = 0.5
    else:
        v["threshold"] = "much"
    sim.fault("variable_" + how)
    sim.desc["cause"] = "%s variable of %s" % (how, x)
    w.put("workspace.yml", json.dumps(doc))
    return (lambda: w.put("workspace.yml", good)), {x}, None, True


def judge(sim, what, before, mid, ref, targets, executed, bad, ok, fired, must_fail, struck, exps):
    if fired and must_fail and ok:
        raise Violation("failure-not-reported", "%s: the command reported success" % what)
    if not fired and not ok:
        raise Violation("command-failed", "%s: failed although no fault was reached" % what)
    new = {}
    for x in exps:
        for v, data in before[x].items():
            if mid[x].get(v) != data:
                raise Violation("old-result-touched", "%s: existing version %d of %s was %s" % (
                    what, v, x, "removed" if v not in mid[x] else "modified"))
        new[x] = {v: d for v, d in mid[x].items() if v not in before[x]}
    for x in exps:
        if x not in targets and new[x]:
            raise Violation("result-of-other", "%s: a result appeared for %s" % (what, x))
        if len(new[x]) > 1:
            raise Violation("several-results", "%s: versions %s appeared for %s" % (what, sorted(new[x]), x))
        if x in bad and new[x]:
            raise Violation("result-of-failure", "%s: version %s of %s appeared, which can not be computed" % (
                what, list(new[x]), x))
        for v, data in new[x].items():
            d = complete(data)
            if d is None:
                raise Violation("torn-result", "%s: version %d of %s is not complete (%d bytes)" % (what, v, x, len(data)))
            if canon(d) != ref[x]:
                raise Violation("wrong-result", "%s: version %d of %s differs from the result without a failure" % (
                    what, v, x))
    if ok:
        for x in executed:
            if not new[x]:
                raise Violation("no-result", "%s reported success but experiment %s got no result" % (what, x))
        return
    if struck is not None and fired:
        # what was already there when the failure struck stays; nothing of the failed execution appears
        then = {p[len("/simws/w/"):]: b for p, (k, b) in struck.items() if k == "f" and p.startswith("/simws/w/")}
        for x in exps:
            was = versions(then, x)
            for v, data in was.items():
                if mid[x].get(v) != data and complete(data) is not None:
                    raise Violation("result-lost", "%s: version %d of %s existed at the failure and is gone" % (what, v, x))
    if must_fail and fired and not bad:
        n = sum(1 for x in executed if new[x])
        if n >= len(executed):
            raise Violation("result-of-failure", "%s: all %d experiments got a result" % (what, n))
