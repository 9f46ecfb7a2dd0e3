"""C07: the workspace file is never torn or lost."""
import json

from ..core import Violation
from ..lib import reset_run
from ..wscmd import gen_writer
from ..wsgen import WS
from ..wsim import Sys, load_ws, read_ws, setup_ws

setup = setup_ws
KINDS = ("kill", "power", "enospc", "eio", "interrupt", "emfile", "eacces", "short")


def state(s, what, allow_missing=False):
    w, err = read_ws(s)
    if err is not None:
        raw = s.world.get("workspace.yml")
        if raw is None and allow_missing:
            return None
        raise Violation("workspace-unreadable", "%s: a new process can not read the workspace file (%s; %s bytes): %s" % (
            what, "missing" if raw is None else "present", None if raw is None else len(raw), err))
    return w


def run(sim):
    reset_run(sim)
    with Sys(sim) as s:
        ws = WS(sim, kinds=("name", "file", "python"))
        mode = sim.pick(("crash", "crash", "crash", "reader", "writers"))
        if sim.chance(1, 12):
            ws.big(sim)
        first = mode == "crash" and sim.chance(1, 12)
        ws.write(s)
        if sim.chance(1, 2):
            for k in ws.exps:
                for _ in range(sim.draw(3)):
                    s.world.put("%s_%d.json" % (k, 1699999000 + sim.draw(500)), "{}")
        if first:
            s.world.delete("workspace.yml")
        old = state(s, "before", first)
        doc = ws.doc()
        for _ in range(sim.draw(3) if not first else 0):
            c = gen_writer(sim, ws, doc, init=False)
            e = s.cli(*c.args, user=c.user())
            if not e.ok:
                raise Violation("command-failed", "%r failed without any fault: %s %s" % (c, e.why(), e.proc.tb))
            old = state(s, "after %r" % c)
            doc = old
        if first:
            from ..wscmd import Cmd
            c = Cmd(["workspace", "init"], {"with_pipeline": sim.chance(1, 2), "with_loader": True}, "init")
        else:
            c = gen_writer(sim, ws, doc)
        s.world.sync()
        sim.desc = {"mode": mode, "workspace": ws.describe(), "command": repr(c)}
        sim.nontrivial = True
        sim.probe("cmd_" + c.kind.replace(" ", "_"))

        def attempt():
            e = s.cli(*c.args, user=c.user())
            if not e.ok:
                raise Violation("command-failed", "%r failed without any fault: %s %s" % (c, e.why(), e.proc.tb))
            return e, state(s, "after %r" % c)
        ref, new = s.trial(attempt)
        if mode == "crash":
            crash(sim, s, c, old, new, ref, first)
        elif mode == "reader":
            reader(sim, s, c, old, new)
        else:
            writers(sim, s, ws, c, old, new, doc)


def crash(sim, s, c, old, new, ref, first):
    plan = s.draw_plan(ref.proc, KINDS)
    late = plan.kind == "power" and sim.chance(1, 4)
    if late:
        plan.where = ("end", 0)
    sim.desc["fault"] = repr(plan)
    e = s.cli(*c.args, user=c.user(), plan=plan)
    if late:
        # the power fails after the command has ended
        if not e.ok:
            raise Violation("command-failed", "%r failed without any fault: %s" % (c, e.why()))
        sim.fault("power_after_end")
        s.world.power_loss()
        plan.fired = True
    fired = bool(plan.fired)
    what = "%r with %r (%s)" % (c, plan, plan.fired)
    s.world.full = False
    now = state(s, what, allow_missing=first)
    if now != old and now != new:
        raise Violation("workspace-torn", "%s: the workspace is neither the old nor the new one: %s" % (
            what, json.dumps(now)[:600]))
    if e.ok and now != new and not late:
        raise Violation("success-lost", "%s reported success but its change is not in the workspace file" % what)
    if not fired:
        sim.probe("fault_not_reached")
        if not e.ok:
            raise Violation("command-failed", "%r failed without any fault: %s" % (c, e.why()))
    sim.probe("now_old" if now == old else "now_new")
    if fired and now == old and old != new:
        # once faults have stopped, the command works
        e = s.cli(*c.args, user=c.user())
        if not e.ok:
            raise Violation("stuck-after-fault", "%s; repeating the command fails: %s %s" % (what, e.why(), e.proc.tb))
        now = state(s, "repeat after " + what)
        if now != new:
            raise Violation("repeat-differs", "%s; repeating the command gives %s" % (what, json.dumps(now)[:600]))


def reader(sim, s, c, old, new):
    from ..wsim import W, plain
    p = s.start(c.args, c.user())
    rs = [s._spawn("reader", load_ws) for _ in range(sim.rint(1, 3))]
    e = s.wait(p)
    for r in rs:
        q = s.wait(r).proc
        if q.err:
            raise Violation("reader-failed", "while %r ran, a concurrent reader failed: %s" % (c, q.err))
        got = plain(q.value)
        if got != old and got != new:
            raise Violation("reader-saw-partial", "while %r ran, a concurrent reader got %s" % (c, json.dumps(got)[:600]))
        sim.probe("reader_new" if got == new and old != new else "reader_old")
    if not e.ok:
        raise Violation("command-failed", "%r failed beside readers: %s" % (c, e.why()))
    if state(s, "after %r beside readers" % c) != new:
        raise Violation("success-lost", "%r reported success beside readers but its change is not there" % c)


def writers(sim, s, ws, c, old, new, doc):
    d = gen_writer(sim, ws, doc, init=False)
    sim.desc["second"] = repr(d)

    def seq(*cs):
        def go():
            for x in cs:
                s.cli(*x.args, user=x.user())
            return state(s, "after " + " and ".join(map(repr, cs)))
        return s.trial(go)
    okay = [old, new, seq(d), seq(c, d), seq(d, c)]
    p, q = s.start(c.args, c.user()), s.start(d.args, d.user())
    e, f = s.wait(p), s.wait(q)
    now = state(s, "after %r and %r at the same time" % (c, d))
    if now not in okay:
        raise Violation("workspace-torn", "%r and %r at the same time leave a mixture: %s" % (c, d, json.dumps(now)[:600]))
    if e.ok and f.ok and now == old and old not in okay[1:]:
        raise Violation("success-lost", "%r and %r both reported success, nothing changed" % (c, d))
    sim.probe("both_ok" if e.ok and f.ok else "one_failed")
