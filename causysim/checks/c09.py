"""C09: re-execution is skipped exactly when nothing changed."""
import json

from ..core import Violation
from ..lib import reset_run
from ..wsgen import WS, pick_value
from ..wsim import Sys, W, canon, complete, setup_ws
from .c06 import done, must, stored

setup = setup_ws
ALL = ("workspace", "execute")


class Edit:
    """One change to the inputs; apply() may run at any moment."""

    def __init__(self, text, apply, hits, same=False):
        self.text, self.apply, self.hits, self.same = text, apply, hits, same


def gen_edit(sim, s, ws, quiet=True):
    """-> Edit; hits = experiments whose inputs change."""
    w = s.world
    opts = ["data", "data", "pipeline", "variables", "touch", "options", "loader", "switch", "unset", "revert", "tiny"]
    if not quiet:
        opts = ["data", "data", "data", "pipeline", "variables"]
    k = sim.pick(opts)
    x = sim.pick(list(ws.exps))
    e = ws.exps[x]
    users_p = {y for y, f in ws.exps.items() if f["pipeline"] == e["pipeline"]}
    users_d = {y for y, f in ws.exps.items() if f["dataloader"] == e["dataloader"]}
    if k == "touch":
        f = sim.pick(["workspace.yml", ws.data(e["dataloader"]).ref] + list(ws.pipe(e["pipeline"]).files()))

        def touch():
            w.put(f, w.get(f))
        return Edit("touch " + f, touch, set(), True)
    if k == "data":
        d = ws.data(e["dataloader"])
        old = d.text()
        how = sim.pick(("other", "one_value", "row", "seed", "first_value", "first_value"))
        if how == "seed":
            d.seed += 1
        elif how == "row":
            d.n += 1
        else:
            d.seed += 7
        if how == "first_value":
            d.seed -= 7
            d.head += 1
        if how == "one_value":
            d.seed -= 7
            d.tweak = getattr(d, "tweak", 0) + 1
        new = d.text()
        return Edit("data %s (%s)" % (d.ref, how), lambda: w.put(d.ref, new), users_d if new != old else set())
    if k == "pipeline":
        p = ws.pipe(e["pipeline"])
        if p.kind == "name":
            k = "variables"
        else:
            old = p.files()
            how = sim.pick(("default", "steps", "literal", "generator") if p.rich else ("default", "steps", "literal"))
            if how == "generator":
                p.gen_min = 7 - p.gen_min
            elif how == "default":
                p.default = p.default + 0.01
            elif how == "steps":
                p.deep = not p.deep
            else:
                p.extra_setting = not getattr(p, "extra_setting", False)
            new = p.files()
            if new != old:
                def apply():
                    for n, t in new.items():
                        w.put(n, t)
                return Edit("pipeline %s (%s)" % (p.ref, how), apply, users_p)
            k = "variables"
    if k == "options":
        d = ws.data(e["dataloader"])
        d.options = {"o": (d.options or {"o": 0})["o"] + 1}
        return Edit("options of %s" % d.key, lambda: ws.write_doc(s), users_d)
    if k == "loader" and len(ws.datas) > 1:
        o = [d for d in ws.datas if d.key != e["dataloader"]][0]
        same = o.text() == ws.data(e["dataloader"]).text() and o.options == ws.data(e["dataloader"]).options
        e["dataloader"] = o.key
        return Edit("%s uses data %s" % (x, o.key), lambda: ws.write_doc(s), set() if same else {x})
    if k == "switch" and len(ws.pipes) > 1:
        o = [p for p in ws.pipes if p.key != e["pipeline"]][0]
        if not (o.kind == "name" and ws.pipe(e["pipeline"]).kind == "name"):
            e["pipeline"] = o.key
            e["variables"] = {n: v for n, v in e["variables"].items() if n in o.vars()}
            return Edit("%s uses pipeline %s" % (x, o.key), lambda: ws.write_doc(s), {x})
    vs = ws.pipe(e["pipeline"]).vars()
    old = {n: e["variables"].get(n, v) for n, (t, v) in vs.items()}
    n = sim.pick(list(vs))
    if k == "tiny":
        n = "threshold"
        e["variables"][n] = old[n] * (1 + sim.pick((1e-9, 1e-3, 1e-15))) + sim.pick((0, 1e-8))
    elif k == "unset":
        for n in [n] if sim.chance(1, 2) else list(e["variables"]):
            e["variables"].pop(n, None)
    elif k == "revert":
        e["variables"][n] = vs[n][1]        # the default, given explicitly
    else:
        e["variables"][n] = pick_value(sim, vs[n][0])
    new = {n: e["variables"].get(n, v) for n, (t, v) in vs.items()}
    doc = json.dumps(ws.doc(), indent=1)
    return Edit("%s of %s is %s" % (n, x, e["variables"].get(n, "default")), lambda: w.put("workspace.yml", doc),
                {x} if same_key(old) != same_key(new) else set())


def same_key(d):
    return json.dumps({k: [type(v).__name__, v] for k, v in d.items()}, sort_keys=True)


def prints(ws):
    """What each experiment's result depends on now."""
    out = {}
    for x, e in ws.exps.items():
        p, d = ws.pipe(e["pipeline"]), ws.data(e["dataloader"])
        out[x] = (json.dumps(p.files() or "PC", sort_keys=True), d.text(), json.dumps(d.options),
                  same_key({n: e["variables"].get(n, v) for n, (t, v) in p.vars().items()}))
    return out


def run(sim):
    reset_run(sim)
    with Sys(sim) as s:
        ws = WS(sim, kinds=("file", "python", "name"))
        if sim.chance(1, 6):
            ws.datas[0].n = sim.pick((150, 300))
        ws.write(s)
        exps = list(ws.exps)
        hist = []
        based = {}               # what the latest result of each experiment was computed from
        sim.nontrivial = True
        sim.desc = {"workspace": ws.describe(), "history": hist}
        for step in range(sim.rint(2, 4)):
            kind = sim.pick(("quiet", "quiet", "during", "crash", "single")) if step else "quiet"
            before = stored(s, exps)
            cur = prints(ws)
            stale = {x for x in exps if based.get(x) != cur[x]}
            s.clock.advance(sim.pick((0, 1, 100)))
            if kind == "quiet":
                e = s.cli(*ALL)
                hist.append("execute")
                must(e, "; ".join(hist))
                judge(sim, s, exps, before, stale, hist)
                based = cur
            elif kind == "single":
                x = sim.pick(exps)
                e = s.cli("workspace", "execute", "--experiment-name", x)
                hist.append("execute " + x)
                must(e, "; ".join(hist))
                based[x] = cur[x]
            elif kind == "crash":
                ref = s.trial(lambda: s.cli(*ALL))
                s.world.sync()
                plan = s.draw_plan(ref.proc, ("kill", "power", "interrupt", "eio", "enospc"))
                e = s.cli(*ALL, plan=plan)
                s.world.full = False
                hist.append("execute with %r" % plan)
                now = stored(s, exps)
                for x in exps:
                    new = [v for v in now[x] if v not in before[x]]
                    if new:
                        if x not in stale:
                            raise Violation("needless-execution", "%s: %s was executed although nothing changed" % (
                                "; ".join(hist), x))
                        if complete(now[x][max(new)]) is None:
                            raise Violation("torn-result", "%s: the result of %s is not complete" % ("; ".join(hist), x))
                        based[x] = cur[x]
            else:
                during(sim, s, ws, exps, stale, hist, before)
                based = prints(ws)
            # edits between executions
            for _ in range(sim.pick((1, 0, 2, 1, 3))):
                ed = gen_edit(sim, s, ws)
                ed.apply()
                hist.append(ed.text)
        before = stored(s, exps)
        stale = {x for x in exps if based.get(x) != prints(ws)[x]}
        e = s.cli(*ALL)
        hist.append("execute")
        must(e, "; ".join(hist))
        judge(sim, s, exps, before, stale, hist)


def during(sim, s, ws, exps, stale, hist, before):
    """An edit is made at a random operation of an execution."""
    forced = sim.chance(1, 2)
    args = ALL + (("--force-reexecution",) if forced else ())
    ref = s.trial(lambda: s.cli(*args))
    at = sim.draw(ref.proc.ops + 1)
    ed = gen_edit(sim, s, ws, quiet=False)
    seen = {"n": 0}

    def on_op(proc, name, path):
        if seen.get("p") is None and proc.name.startswith("cli"):
            seen["p"] = proc
        if proc is seen.get("p"):
            if seen["n"] == at and not seen.get("done"):
                seen["done"] = True
                seen["had"] = stored(s, exps)
                sim.fault("edit_during_execution")
                ed.apply()
            seen["n"] += 1
    s.world.on_op = on_op
    try:
        e = s.cli(*args)
    finally:
        s.world.on_op = None
    hist.append("%s while at operation %d: %s" % (" ".join(args[1:]), at, ed.text))
    if not seen.get("done"):
        ed.apply()
        must(e, "; ".join(hist))
    now = stored(s, exps)
    # which experiments are stale now: those whose result was computed before or while the edit happened may be
    maybe = set()
    for x in exps:
        new = [v for v in now[x] if v not in before[x]]
        if len(new) > 1:
            raise Violation("several-results", "%s: %s was executed more than once" % ("; ".join(hist), x))
        if x in ed.hits:
            maybe.add(x)
        elif not new and x in stale and done(e):
            raise Violation("not-executed", "%s: %s was not executed although its inputs had changed" % ("; ".join(hist), x))
        elif not new and x in stale:
            maybe.add(x)
    # afterwards an undisturbed execution repairs everything and no more
    mid = now
    e = s.cli(*ALL)
    hist.append("execute")
    must(e, "; ".join(hist))
    judge(sim, s, exps, mid, None, hist, never=set(exps) - maybe)


def judge(sim, s, exps, before, stale, hist, never=()):
    """After an undisturbed execution of everything."""
    h = "; ".join(hist)
    now = stored(s, exps)
    for x in exps:
        new = [v for v in now[x] if v not in before[x]]
        if stale is not None:
            if x in stale and not new:
                raise Violation("not-executed", "%s: %s was skipped although its inputs changed" % (h, x))
            if x not in stale and new:
                raise Violation("needless-execution", "%s: %s was executed although nothing changed" % (h, x))
        elif x in never and new:
            raise Violation("needless-execution", "%s: %s was executed although nothing of it changed" % (h, x))
        if len(new) > 1:
            raise Violation("several-results", "%s: %s was executed more than once" % (h, x))
        sim.probe("executed" if new else "skipped")

    # every latest result is the one the current inputs give
    def force():
        must(s.cli("workspace", "execute", "--force-reexecution"), "forced execution")
        return stored(s, exps)
    fresh = s.trial(force)
    for x in exps:
        if not now[x]:
            raise Violation("not-executed", "%s: %s has no result" % (h, x))
        a, b = canon(complete(now[x][max(now[x])])), canon(complete(fresh[x][max(fresh[x])]))
        if a != b:
            diff = [k for k in b if a.get(k) != b[k]]
            raise Violation("stale-result", "%s: the latest result of %s is not the one its current inputs give (%s differ)"
                            % (h, x, ", ".join(diff)))

    # and a second execution does nothing
    def again():
        must(s.cli(*ALL), "second execution")
        return stored(s, exps)
    if s.trial(again) != now:
        raise Violation("needless-execution", "%s: executing again without any change does work" % h)
