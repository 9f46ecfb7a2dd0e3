"""C03: the graph is exactly what its recorded history says."""
from ..core import Violation
from ..lib import reset_run, setup_lib
from ..refgraph import RefGraph, diff_live

setup = setup_lib


def run(sim):
    from .. import scripted as S
    reset_run(sim)
    if sim.chance(1, 5):
        return manager(sim)
    ids, prog = S.gen_program(sim, nmax=4)
    if sim.chance(1, 2):
        # look at the graph between the steps inside loops, too
        for node in prog:
            if node[0] == "loop":
                lim = node[2][0]["limit"]
                k = sim.draw(len(node[2]) + 1)
                node[2].insert(k, {"key": "p%s" % node[2][0]["key"], "mode": "plain", "tasks": ["t0"],
                                   "script": {"t0": None}, "limit": lim})
    sim.desc = {"nodes": len(ids), "program": S.describe(prog)}
    t = S.run_program(sim, ids, prog)
    judge(sim, t)


def check(sim, ref, view, bad, hist, where):
    if bad:
        raise Violation("contradicting-queries", "%s: %s" % (where, "; ".join(bad[:3])))
    d = diff_live(view, ref)
    if d:
        raise Violation("graph-differs-from-history", "%s: %s" % (where, "; ".join(d[:3])))
    if hist is not None:
        for k in set(hist) | set(ref.hist):
            if hist.get(k, []) != ref.hist.get(k, []):
                raise Violation("edge-history-differs", "%s: history of %s->%s is %s, taken actions say %s" % (
                    where, k[0], k[1], [a["action"] for a in hist.get(k, [])],
                    [a["action"] for a in ref.hist.get(k, [])]))
    sim.probe("state_compared")


def judge(sim, t):
    from .. import scripted as S
    ref = RefGraph(t.ids, meta={})
    i = 0
    snaps = list(t.snaps)
    pend = []
    for k, node in enumerate(t.prog):
        while snaps and snaps[0][0] == k:
            _, v, bad, h = snaps.pop(0)
            check(sim, ref, v, bad, h, "before top-level step %d" % (k + 1))
        while i < len(t.execs) and t.execs[i].node == k:
            e = t.execs[i]
            i += 1
            # the first test of a sequential step looks at the graph between two steps
            first = min((c for c in e.calls), key=lambda c: t.rec.calls.index(c), default=None)
            if first is not None and e.mode != "parallel":
                check(sim, ref, first["view"], first["bad"], first.get("hist"), "when %s starts" % e.where)
            acts = [S.act_dict(a) for a in (e.hist.actions or [])]
            if e.group:
                pend.extend(acts)
            else:
                apply(ref, acts, e.where)
        apply(ref, pend, "group")
        pend = []
    for _, v, bad, h in snaps:
        check(sim, ref, v, bad, h, "at the end")


def apply(ref, acts, where):
    for a in acts:
        if not ref.apply(a):
            raise Violation("recorded-action-without-effect",
                            "%s: %s %s-%s is recorded as taken but there was nothing to act on" % (
                                where, a["action"], a["u"], a["v"]))


OPS = ("remove", "remove_directed", "add", "add_directed", "update", "update_directed", "restore", "restore_directed",
       "purge", "node", "copy")


def manager(sim):
    """The same operations, called directly on the graph (by hooks and user code) in any order."""
    import pickle
    from causy.graph import GraphManager
    from causy.edge_types import BiDirectedEdge, DirectedEdge, UndirectedEdge
    from ..lib import must
    from ..refgraph import views
    types = {"DIRECTED": DirectedEdge, "UNDIRECTED": UndirectedEdge, "BIDIRECTED": BiDirectedEdge}
    g = GraphManager()
    ids = ["n%d" % i for i in range(sim.rint(2, 4))]
    for i in ids:
        g.add_node(i, [0.0, 1.0], id_=i)
    ref = {}            # live edges
    soft = {}           # removed edges that are still stored
    gone = {}           # purged edges
    log = []
    sim.nontrivial = True

    def edge(u, v, t, m):
        for d in (soft, gone):
            d.pop((u, v), None)
        ref[(u, v)] = (t, m)

    for k in range(sim.rint(1, 14)):
        op = sim.pick(OPS)
        u, v = sim.shuffled(ids)[:2]
        nu, nv = g.nodes[u], g.nodes[v]
        p, q = (u, v), (v, u)
        m = {"m": k}
        t = sim.pick(("UNDIRECTED", "DIRECTED", "BIDIRECTED"))
        log.append("%s %s %s" % (op, u, v))
        sim.desc = {"manager": log}
        if op == "add":
            must(log[-1], g.add_edge, nu, nv, m, types[t]())
            edge(u, v, t, m), edge(v, u, t, m)
        elif op == "add_directed":
            must(log[-1], g.add_directed_edge, nu, nv, m, types[t]())
            edge(u, v, t, m)
        elif op == "remove":
            s = sim.chance(1, 2)
            if not s and (p in soft or q in soft):
                continue
            must(log[-1], g.remove_edge, nu, nv, soft_delete=s)
            for e in (p, q):
                if e in ref:
                    (soft if s else gone)[e] = ref.pop(e)
        elif op == "remove_directed":
            s = sim.chance(1, 2)
            if not s and p in soft:
                continue
            must(log[-1], g.remove_directed_edge, nu, nv, soft_delete=s)
            if p in ref:
                (soft if s else gone)[p] = ref.pop(p)
        elif op == "update":
            if p not in ref or q not in ref:
                continue
            if sim.chance(1, 2):
                must(log[-1], g.update_edge, nu, nv, metadata=m)
                ref[p], ref[q] = (ref[p][0], m), (ref[q][0], m)
            else:
                must(log[-1], g.update_edge, nu, nv, edge_type=types[t]())
                ref[p], ref[q] = (t, ref[p][1]), (t, ref[q][1])
        elif op == "update_directed":
            if p not in ref:
                continue
            if sim.chance(1, 2):
                must(log[-1], g.update_directed_edge, nu, nv, metadata=m)
                ref[p] = (ref[p][0], m)
            else:
                must(log[-1], g.update_directed_edge, nu, nv, edge_type=types[t]())
                ref[p] = (t, ref[p][1])
        elif op == "restore":
            if not (p in soft and q in soft):
                continue
            must(log[-1], g.restore_edge, nu, nv)
            ref[p], ref[q] = soft.pop(p), soft.pop(q)
        elif op == "restore_directed":
            if p not in soft and p not in gone:
                continue
            must(log[-1], g.restore_directed_edge, nu, nv)
            if p in soft:
                ref[p] = soft.pop(p)
            else:
                ref[p] = ("DIRECTED", gone.pop(p)[1])
        elif op == "purge":
            must(log[-1], g.purge_soft_deleted_edges)
            gone.update(soft)
            soft.clear()
        elif op == "node" and len(ids) < 5:
            ids.append("n%d" % len(ids))
            g.add_node(ids[-1], [0.0, 1.0], id_=ids[-1])
        elif op == "copy":
            # what a parallel worker gets
            g.graph = pickle.loads(pickle.dumps(g.graph))
        for what, graph in (("", g), ("pickled ", None)):
            if graph is None:
                if k % 3:
                    continue
                graph = pickle.loads(pickle.dumps(g.graph))
            live, bad = must("the queries of the %sgraph after %s" % (what, ", ".join(log)), views, graph)
            if bad:
                raise Violation("contradicting-queries", "%sgraph after %s: %s" % (what, ", ".join(log), "; ".join(bad[:3])))
            if live != ref:
                raise Violation("graph-differs-from-operations", "%sgraph after %s: has %s, expected %s" % (
                    what, ", ".join(log), live, ref))
        sim.probe("manager_state_compared")
