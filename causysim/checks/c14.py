"""C14: update hooks see and control exactly the applied updates."""
from ..core import Violation
from ..lib import reset_run, setup_lib
from ..refgraph import RefGraph, diff_live

setup = setup_lib

MODES = ("pass", "veto", "reverse", "none", "redirect")


def run(sim):
    from .. import scripted as S
    reset_run(sim)
    ids, prog = S.gen_program(sim, nmax=4, max_steps=3)
    npre, npost = sim.pick((1, 2, 0)), sim.pick((1, 2, 0))
    modes = [sim.pick(MODES) for _ in range(npre)]
    pre = [S.LogHook(ident="pre%d" % i, kind="pre", mode=m) for i, m in enumerate(modes)]
    post = [S.LogHook(ident="post%d" % i, kind="post") for i in range(npost)]
    sim.desc = {"nodes": len(ids), "program": S.describe(prog), "pre_hooks": modes, "post_hooks": npost}
    t = S.run_program(sim, ids, prog, pre=pre, post=post, view=False, deep=False)
    judge(sim, t, npre, npost)


def judge(sim, t, npre, npost):
    from .. import scripted as S
    from .c02 import brief
    acts = []            # everything recorded as taken, in order
    for e in t.execs:
        acts.extend(S.act_dict(a) for a in (e.hist.actions or []))
    states = [RefGraph(t.ids, meta={})]
    for a in acts:
        r = states[-1].copy()
        if not r.apply(a):
            raise Violation("recorded-action-without-effect", "%s is recorded as taken but changed nothing" % brief([a]))
        states.append(r)
    final = diff_live(t.snaps[-1][1], states[-1])
    if final:
        raise Violation("graph-differs-from-history", "; ".join(final[:3]))

    def at(view, lo, hi):
        return any(not diff_live(view, states[c]) for c in range(lo, hi + 1))

    applied = []         # what the last pre hook released
    if npre:
        returned = []
        for i in range(npre):
            hs = [h for h in t.rec.hooks if h["hook"] == "pre%d" % i and h["in"]]
            if i == 0:
                got = [a for h in hs for a in h["in"]]
                want = []
                for e in t.execs:
                    order = {x: k for k, x in enumerate(e.spec["tasks"])}
                    outs = [c["out"] for c in sorted(e.calls, key=lambda c: order[c["task"]])]
                    n = sum(map(len, outs))
                    part, got = got[:n], got[n:]
                    if e.mode == "parallel":
                        key = lambda a: a["data"]["tag"]
                        if sorted(part, key=key) != sorted([a for o in outs for a in o], key=key):
                            raise Violation("pre-hook-input", "%s returned %s, the pre hooks were shown %s" % (
                                e.where, brief([a for o in outs for a in o]), brief(part)))
                    elif part != [a for o in outs for a in o]:
                        raise Violation("pre-hook-input", "%s returned %s, the pre hooks were shown %s" % (
                            e.where, brief([a for o in outs for a in o]), brief(part)))
                if got:
                    raise Violation("pre-hook-input", "pre hooks were shown %s which no step returned (or twice)" %
                                    brief(got))
            else:
                prev = [h for h in t.rec.hooks if h["hook"] == "pre%d" % (i - 1)]
                if [h["out"] for h in prev if h["out"]] != [h["in"] for h in hs]:
                    raise Violation("pre-hook-chain", "pre hook %d was not shown what hook %d returned" % (i, i - 1))
        last = [h for h in t.rec.hooks if h["hook"] == "pre%d" % (npre - 1)]
        applied = [a for h in last for a in h["out"]]
        sim.probe("pre_hook_dropped", len([a for h in last for a in h["in"]]) - len(applied))
    else:
        for e in t.execs:
            applied.extend(S.act_dict(a) for a in (e.hist.all_proposed_actions or []))
    want = RefGraph(t.ids, meta={}).apply_all(applied)
    if want != acts:
        raise Violation("applied-differs", "after the pre hooks %s could be applied, recorded as taken: %s" % (
            brief(want), brief(acts)))
    # pre hooks run before their updates are applied
    if npre:
        r, c = RefGraph(t.ids, meta={}), 0
        for h in [h for h in t.rec.hooks if h["hook"] == "pre%d" % (npre - 1)]:
            if h["in"] and not at(h["view"], 0, c):
                raise Violation("pre-hook-too-late", "a pre hook saw its update %s already applied" % brief(h["in"]))
            c += len(r.apply_all(h["out"]))
    for i in range(npost):
        cnt = 0
        told = []
        for h in t.rec.hooks:
            if h["hook"] != "post%d" % i or not h["in"]:
                continue
            told.extend(h["in"])
            cnt += len(h["in"])
            sim.probe("post_hook_told", len(h["in"]))
            if told != acts[:cnt]:
                break
            if not at(h["view"], cnt, len(acts)):
                raise Violation("post-hook-too-early", "post hook %d was told %s, not visible in the graph" % (
                    i, brief(h["in"])))
        if told != acts:
            raise Violation("post-hook-told", "post hook %d was told %s, applied were %s" % (
                i, brief(told), brief(acts)))
