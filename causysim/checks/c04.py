"""C04: steps see exactly the graph their mode promises."""
from ..core import Violation
from ..lib import reset_run, setup_lib
from ..refgraph import RefGraph, diff_live

setup = setup_lib


def run(sim):
    from .. import scripted as S
    reset_run(sim)
    ids, prog = S.gen_program(sim, nmax=4)
    sim.desc = {"nodes": len(ids), "program": S.describe(prog)}
    t = S.run_program(sim, ids, prog, deep=False)
    judge(sim, t)


def expect(sim, ref, c, where):
    d = diff_live(c["view"], ref)
    if d:
        raise Violation("wrong-graph-visible", "%s, test %s: %s" % (where, c["task"], "; ".join(d[:3])))


def judge(sim, t):
    from .. import scripted as S
    ref = RefGraph(t.ids, meta={})
    pend, last = [], None
    for e in t.execs:
        if pend and e.node != last:
            ref.apply_all(pend)
            pend = []
        last = e.node
        order = {x: i for i, x in enumerate(e.spec["tasks"])}
        calls = sorted(e.calls, key=lambda c: order.get(c["task"], -1))
        if [c["task"] for c in calls] != list(e.spec["tasks"]):
            raise Violation("tests-not-run-exactly-once", "%s: generated %s, ran %s" % (
                e.where, e.spec["tasks"], [c["task"] for c in calls]))
        if e.group:
            sim.probe("grouped_" + e.mode)
            for c in calls:
                expect(sim, ref, c, e.where + " in a group")
            if e.mode == "parallel":     # any order of the results is fine
                pend.extend(S.act_dict(a) for a in e.hist.all_proposed_actions or [])
            else:
                pend.extend(a for c in calls for a in c["out"])
            continue
        sim.probe("mode_" + e.mode)
        if e.mode == "sync":
            for c in calls:
                expect(sim, ref, c, e.where)
                ref.apply_all(c["out"])
        elif e.mode == "chunked":
            k = 0
            for n in e.spec["chunks"]:
                for c in calls[k:k + n]:
                    expect(sim, ref, c, e.where)
                for c in calls[k:k + n]:
                    ref.apply_all(c["out"])
                k += n
        elif e.mode == "parallel":
            parallel(sim, ref, e, calls)
            ref.apply_all([S.act_dict(a) for a in e.hist.actions or []])
        else:
            for k, c in enumerate(calls):
                expect(sim, ref, c, e.where)
                if e.mode == "unapplied":
                    want = [a for x in calls[:k] for a in x["out"]]
                    got = c.get("unapplied")
                    if got is None or [a for g in got for a in g or []] != want:
                        raise Violation("wrong-unapplied-actions", "%s, test %s got %s, earlier results are %s" % (
                            e.where, c["task"], got, want))
            for c in calls:
                ref.apply_all(c["out"])
    ref.apply_all(pend)
    d = diff_live(t.snaps[-1][1], ref)
    if d:
        raise Violation("wrong-final-graph", "after the last step: %s" % "; ".join(d[:3]))
    loops(sim, t)


def parallel(sim, ref, e, calls):
    touched, tags = set(), {}
    for c in calls:
        for a in c["out"]:
            if a["action"] == "DO_NOTHING":
                continue
            for p in ((a["u"], a["v"]), (a["v"], a["u"])):
                touched.add(p)
                tags.setdefault(p, []).append(a["data"])
    rest = set(ref.slots) - touched
    for c in calls:
        d = diff_live(c["view"], ref, rest)
        if d:
            raise Violation("wrong-graph-visible", "%s, test %s: %s (no test of this step touches that edge)" % (
                e.where, c["task"], "; ".join(d[:3])))
        for p in touched:
            if p in c["view"]:
                m = c["view"][p][1]
                if m != ref.slots[p].meta and m not in tags[p]:
                    raise Violation("wrong-graph-visible", "%s, test %s: %s->%s carries data %s of no step so far" % (
                        e.where, c["task"], p[0], p[1], m))
                if m != ref.slots[p].meta:
                    sim.probe("parallel_saw_own_step")


def loops(sim, t):
    """A loop ends exactly when its exit condition says so."""
    hist = t.model.graph.action_history
    for k, node in enumerate(t.prog):
        if node[0] != "loop":
            continue
        n = len(node[2])
        steps = hist[k].steps
        its = [steps[i:i + n] for i in range(0, len(steps), n)]
        sim.probe("loop_iterations", len(its))
        if node[1] == "noact":
            acts = [sum(len(s.actions or []) for s in it) for it in its]
            if not acts or acts[-1] != 0 or any(a == 0 for a in acts[:-1]):
                raise Violation("loop-ended-wrongly", "actions per iteration: %s, the loop must end after the first "
                                "iteration without any" % acts)
        elif len(its) != node[1]:
            raise Violation("loop-ended-wrongly", "%d iterations, the exit condition asks for %d" % (
                len(its), node[1]))
