"""C02: every proposed graph change is accounted for exactly once."""
from ..core import Violation
from ..lib import reset_run, setup_lib
from ..refgraph import RefGraph

setup = setup_lib


def run(sim):
    from .. import scripted as S
    reset_run(sim)
    ids, prog = S.gen_program(sim)
    sim.desc = {"nodes": len(ids), "program": S.describe(prog)}
    t = S.run_program(sim, ids, prog, view=False, deep=False)
    judge(sim, t)


def judge(sim, t):
    from .. import scripted as S
    if t.extra_calls:
        c = t.extra_calls[0]
        raise Violation("test-run-twice", "%d test calls too many, first: step %s task %s" % (
            len(t.extra_calls), c["step"], c["task"]))
    ref = RefGraph(t.ids, meta={})
    pending, last = [], None
    for e in t.execs:
        sim.probe("mode_" + e.mode)
        if e.group:
            sim.probe("grouped")
        if e.r:
            sim.probe("loop_iteration")
        got = sorted(c["task"] for c in e.calls)
        want = sorted(e.spec["tasks"])
        if got != want:
            raise Violation("tests-not-run-exactly-once", "%s: generated %s, ran %s" % (e.where, want, got))
        prop = [S.act_dict(a) for a in (e.hist.all_proposed_actions or [])]
        order = {t_: i for i, t_ in enumerate(e.spec["tasks"])}
        calls = sorted(e.calls, key=lambda c: order[c["task"]])
        exp = [a for c in calls for a in c["out"]]
        if e.mode != "parallel":
            if prop != exp:
                raise Violation("proposals-differ", "%s returned %s but recorded proposals are %s" % (
                    e.where, brief(exp), brief(prop)))
        else:
            left = {c["task"]: list(c["out"]) for c in calls}
            for a in prop:
                k = (a["data"] or {}).get("tag", "//").split("/")[1]
                if not left.get(k) or left[k][0] != a:
                    raise Violation("proposals-differ", "%s: recorded proposal %s was not returned (or twice, or "
                                    "out of order); returned: %s" % (e.where, brief([a]), brief(exp)))
                left[k].pop(0)
            rest = [a for v in left.values() for a in v]
            if rest:
                raise Violation("proposals-differ", "%s returned %s, never recorded" % (e.where, brief(rest)))
            if [a["data"]["tag"] for a in prop] != [a["data"]["tag"] for a in exp]:
                sim.probe("reordered_results")
        # what was taken
        if pending and e.node != last:
            flush(sim, ref, pending)
            pending = []
        last = e.node
        if e.group:
            pending.append((e, prop))
        else:
            flush(sim, ref, [(e, prop)])
    flush(sim, ref, pending)


def flush(sim, ref, items):
    from .. import scripted as S
    for e, prop in items:
        want = ref.apply_all(prop)
        got = [S.act_dict(a) for a in (e.hist.actions or [])]
        if len(want) != len([a for a in prop if a["action"] != "DO_NOTHING"]):
            sim.probe("ineffective_proposal")
        if want:
            sim.probe("effective_proposal", len(want))
        if got != want:
            raise Violation("taken-differ", "%s: proposals with an effect are %s, recorded as taken %s" % (
                e.where, brief(want), brief(got)))


def brief(acts):
    return "[" + ", ".join("%s %s-%s #%s" % (a["action"], a["u"], a["v"], (a["data"] or {}).get("tag"))
                           for a in acts) + "]"
