"""C16: comparing results shows what the stored versions say."""
import itertools
import json
import os

from ..core import Violation
from ..lib import reset_run
from ..vfs import Plan
from ..wsgen import WS
from ..wsim import Sys, complete, setup_ws
from .c06 import must, stored
from .c12 import gen_command

NODES = (("a", "b", "c", "d"), ("a", "b", "c", "d"), ("x[0]", "[b]", "c d", "\u00fc"), ("B", "a", "b", "A"))


def setup():
    os.environ["COLUMNS"] = "500"
    setup_ws()


def gen_result(sim, base, n, nodes):
    """A stored result with random edges."""
    d = dict(base, created_at="2023-11-1%dT00:00:%02d" % (n % 10, n % 60))
    d["nodes"] = {x: {"name": x, "id": x} for x in nodes}
    edges = []
    for u, v in itertools.combinations(nodes, 2):
        k = sim.pick((None, "UNDIRECTED", "DIRECTED", "DIRECTED", "BIDIRECTED"))
        if k is None:
            continue
        if k == "DIRECTED" and sim.chance(1, 2):
            u, v = v, u
        pairs = [(u, v)] if k == "DIRECTED" else [(u, v), (v, u)]
        edges += [{"u": {"name": p, "id": p}, "v": {"name": q, "id": q},
                   "edge_type": {"name": k, "IS_DIRECTED": k == "DIRECTED",
                                 "STR_REPRESENTATION": {"DIRECTED": "-->", "UNDIRECTED": "---", "BIDIRECTED": "<->"}[k]},
                   "metadata": {"correlation": sim.draw(10) / 10}} for p, q in pairs]
    d["edges"] = sim.shuffled(edges) if sim.chance(1, 2) else edges
    return json.dumps(d)


def run(sim):
    reset_run(sim)
    with Sys(sim) as s:
        ws = WS(sim, n_exp=sim.rint(1, 3), kinds=("file", "name"))
        ws.write(s)
        exps = list(ws.exps)
        must(s.cli("workspace", "execute"), "execute")
        base = {x: complete(list(v.values())[0]) for x, v in stored(s, exps).items()}
        if any(v is None for v in base.values()):
            raise Violation("torn-result", "a result of an execution is not complete")
        nodes = sim.pick(NODES)[:sim.rint(2, 4)]
        n = 0
        for x in exps:
            if sim.chance(2, 3):
                for v in stored(s, [x])[x]:
                    s.world.delete("%s_%d.json" % (x, v))
            for _ in range(sim.rint(1, 3)):
                n += 1
                s.clock.advance(sim.pick((0, 1)))
                v = sim.pick((9, 10, 99, 100, 1600000000, 1699999999, 1700000001, 20240101120000))
                s.world.put("%s_%d.json" % (x, v), gen_result(sim, base[x], n, nodes))
        if sim.chance(1, 4):
            s.world.put("%s_5.json.77.tmp" % exps[0], "{")
        s.clock.advance(sim.pick((0, 1, 50)))
        want = []
        for _ in range(sim.rint(2, 4)):
            x = sim.pick(exps)
            have = sorted(stored(s, exps)[x])
            v = sim.pick([None] + have + ([12345] if sim.chance(1, 6) else []))
            want.append((x, v))
        only = sim.chance(1, 2)
        names = [x if v is None else "%s_%d" % (x, v) for x, v in want]
        # a name that is an experiment means the experiment
        want = [(t, None) if t in exps else w for t, w in zip(names, want)]
        args = ["workspace", "diff"] + (["--only-differences"] if only else []) + ["--"] + names
        mode = sim.pick(("alone", "beside", "beside", "fault"))
        cmds = []
        if mode == "beside":
            cmds = [gen_command(sim, exps) for _ in range(sim.rint(1, 2))]
            if len(cmds) == 2 and "execute" in cmds[0] and "execute" in cmds[1]:
                cmds = cmds[:1]
        sim.desc = {"diff": names, "only_differences": only, "beside": [" ".join(c[1:]) for c in cmds],
                    "stored": {x: sorted(v) for x, v in stored(s, exps).items()}}
        sim.nontrivial = True
        plan = None
        if mode == "fault":
            ref = s.trial(lambda: s.cli(*args))
            plan = Plan(sim.pick(("eio", "emfile", "eacces", "interrupt", "kill")), ("op", sim.draw(ref.proc.ops + 1)))
            sim.desc["fault"] = repr(plan)
        states = [stored(s, exps)]

        def on_op(proc, name, path):
            st = stored(s, exps)
            if st != states[-1]:
                states.append(st)
        s.world.on_op = on_op
        tree = s.world.tree()
        p = s.start(args, None, plan)
        others = [s.start(c) for c in cmds]
        e = s.wait(p)
        on_op(None, None, None)
        span = list(states)
        for o in others:
            s.wait(o)
        s.world.on_op = None
        if not cmds and s.world.tree() != tree:
            raise Violation("changed", "comparing results changed files")
        if len(span) > 1:
            sim.probe("changed_during")
        judge(sim, want, names, only, e, span, plan)


def newest_ok(span, x):
    """The versions a bare name may stand for."""
    first = span[0][x]
    may = sorted({v for st in span for v in st[x]})
    if first:
        m = max(first)
        if all(m in st[x] for st in span):
            may = [v for v in may if v >= m]
    return may


def judge(sim, want, names, only, e, span, plan):
    text = "diff %s%s" % (" ".join(names), " (only differences)" if only else "")
    if e.killed:
        return
    table = parse(e.out)
    struck = plan is not None and plan.fired
    if table is None:
        if e.proc.rc not in (0, None) or "\u274c" in e.out:
            sim.probe("error")
            if struck:
                return
            for x, v in want:
                if v is None and (not span[0][x] or any(set(p[x]) - set(q[x]) for p, q in zip(span, span[1:]))):
                    return
                if v is not None and not all(v in st[x] for st in span):
                    return
            raise Violation("not-shown", "%s failed although all results existed all the time: %s" % (text, e.why()))
        raise Violation("not-shown", "%s showed nothing and reported no error: %s" % (text, e.out[-300:]))
    sim.probe("table")
    if e.proc.rc != 0:
        raise Violation("not-shown", "%s showed a table and failed: %s" % (text, e.why()))
    cands = []
    for x, v in want:
        vs = newest_ok(span, x) if v is None else [v]
        cs = []
        for st in span:
            for w in vs:
                if w in st[x] and st[x][w] not in cs:
                    cs.append(st[x][w])
        if not cs:
            raise Violation("shown-unknown", "%s shows a result of %s that did not exist" % (text, x))
        cands.append(cs)
    head, rows = table
    if len(head) != len(want) + 1:
        raise Violation("columns", "%s has the columns %s" % (text, head))
    for (x, v), h in zip(want, head[1:]):
        if not h.startswith(x) or (v is not None and str(v) not in h):
            raise Violation("columns", "%s has the columns %s" % (text, head))
    for combo in itertools.product(*cands):
        ds = [complete(c) for c in combo]
        if any(d is None for d in ds):
            continue
        exp = expected([d["edges"] for d in ds], only)
        if match(rows, exp):
            return
    raise Violation("wrong-table", "%s shows %s, the stored results say %s" % (
        text, rows, expected([complete(c[0])["edges"] for c in cands if complete(c[0])], only)))


def expected(results, only):
    """{(u, v): [kind per result]} with u < v; kinds: '', '---', '<->', '-->' (u causes v), '<--'"""
    out = {}
    for i, edges in enumerate(results):
        for e in edges:
            u, v = e["u"]["name"], e["v"]["name"]
            k = e["edge_type"]["name"]
            key = (min(u, v), max(u, v))
            kind = {"UNDIRECTED": "---", "BIDIRECTED": "<->"}.get(k) or ("-->" if (u, v) == key else "<--")
            out.setdefault(key, [""] * len(results))[i] = kind
    if only:
        out = {k: c for k, c in out.items() if len(set(c)) > 1}
    return out


def match(rows, exp):
    left = dict(exp)
    for label, cells in rows:
        for key in list(left):
            for u, v, turn in ((key[0], key[1], False), (key[1], key[0], True)):
                if label == "%s - %s" % (u, v):
                    want = left[key]
                    if turn:
                        want = [{"-->": "<--", "<--": "-->"}.get(c, c) for c in want]
                    if cells != want:
                        return False
                    del left[key]
                    break
            else:
                continue
            break
        else:
            return False
    return not left


def parse(out):
    """-> (header, [(label, cells)]) or None"""
    head, rows = None, []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith("\u2503"):
            head = [c.strip() for c in line.strip("\u2503").split("\u2503")]
        elif line.startswith("\u2502"):
            cells = [c.strip() for c in line.strip("\u2502").split("\u2502")]
            rows.append((cells[0], cells[1:]))
    return None if head is None else (head, rows)
