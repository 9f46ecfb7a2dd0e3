"""Reference model of the graph: what each recorded action means."""
import itertools

ANY = "*"


class Slot:
    __slots__ = ("live", "types", "meta")

    def __init__(self, types, meta, live=True):
        self.live, self.types, self.meta = live, types, meta

    def copy(self):
        return Slot(self.types, self.meta, self.live)


class RefGraph:
    """Ordered pairs (u, v) of a complete graph; `types` is the set of admissible edge types."""

    def __init__(self, ids, meta=None):
        self.ids = list(ids)
        self.slots = {(u, v): Slot(frozenset(["UNDIRECTED"]), meta) for u in ids for v in ids if u != v}
        self.hist = {}

    def copy(self):
        g = RefGraph.__new__(RefGraph)
        g.ids = self.ids
        g.slots = {k: s.copy() for k, s in self.slots.items()}
        g.hist = {k: list(v) for k, v in self.hist.items()}
        return g

    def d(self, u, v):
        return self.slots[(u, v)].live

    def e(self, u, v):
        return self.d(u, v) or self.d(v, u)

    def both(self, u, v):
        return self.d(u, v) and self.d(v, u)

    def _h(self, u, v, a):
        self.hist.setdefault((u, v), []).append(a)

    def apply(self, a):
        """-> True if the action found something to act on (recorded as taken)."""
        k, u, v = a["action"], a["u"], a["v"]
        S = self.slots
        if k == "DO_NOTHING":
            return False
        if k == "REMOVE_EDGE_UNDIRECTED":
            if not self.both(u, v):
                return False
            S[(u, v)].live = S[(v, u)].live = False
            self._h(u, v, a), self._h(v, u, a)
        elif k == "UPDATE_EDGE":
            if not self.e(u, v):
                return False
            S[(u, v)].meta = S[(v, u)].meta = a["data"]
            self._h(u, v, a), self._h(v, u, a)
        elif k == "UPDATE_EDGE_DIRECTED":
            if not self.d(u, v):
                return False
            S[(u, v)].meta = a["data"]
            self._h(u, v, a)
        elif k == "REMOVE_EDGE_DIRECTED":
            if not self.e(u, v):
                return False
            S[(u, v)].live = False
            if S[(v, u)].live:
                S[(v, u)].types = frozenset(["DIRECTED"])
            self._h(u, v, a)
        elif k == "UPDATE_EDGE_TYPE":
            if not self.e(u, v):
                return False
            S[(u, v)].types = S[(v, u)].types = frozenset([a["edge_type"]])
            self._h(u, v, a), self._h(v, u, a)
        elif k == "UPDATE_EDGE_TYPE_DIRECTED":
            if not self.d(u, v):
                return False
            S[(u, v)].types = frozenset([a["edge_type"]])
            self._h(u, v, a)
        elif k == "RESTORE_EDGE":
            if self.e(u, v):
                return False
            for p in ((u, v), (v, u)):
                # a restored edge keeps its type, or is a fresh undirected edge if it was purged
                S[p].live = True
                S[p].types = S[p].types | {"UNDIRECTED"}
            self._h(u, v, a), self._h(v, u, a)
        elif k == "RESTORE_EDGE_DIRECTED":
            if self.d(u, v):
                return False
            S[(u, v)].live = True
            S[(u, v)].types = S[(u, v)].types | {"DIRECTED"}
            self._h(u, v, a)
        else:
            raise AssertionError(k)
        return True

    def apply_all(self, acts):
        return [a for a in acts if self.apply(a)]


def edge_classes():
    from causy.edge_types import BiDirectedEdge, DirectedEdge, UndirectedEdge
    return (("DIRECTED", DirectedEdge), ("UNDIRECTED", UndirectedEdge), ("BIDIRECTED", BiDirectedEdge))


def simple_paths(ids, ex, u, v):
    """All simple paths that ignore directions."""
    out, todo = [], [(u,)]
    while todo:
        p = todo.pop()
        if p[-1] == v:
            out.append(p)
            continue
        todo.extend(p + (w,) for w in ids if w not in p and (ex[(p[-1], w)] or ex[(w, p[-1])]))
    return sorted(out)


def paths_bad(g, ids, ex):
    """Queries about paths."""
    bad = []
    reach = {}
    for u in ids:
        seen, todo = set(), [u]
        while todo:
            a = todo.pop()
            for b in ids:
                if b != a and ex[(a, b)] and b not in seen:
                    seen.add(b)
                    todo.append(b)
        reach[u] = seen
    acyclic = all(u not in reach[u] for u in ids)
    for u, v in itertools.permutations(ids, 2):
        want = v in reach[u]
        for a, b in ((u, v), (g.nodes[u], g.nodes[v])):
            if bool(g.directed_path_exists(a, b)) != want:
                bad.append("directed_path_exists(%s,%s)=%s" % (u, v, not want))
        if acyclic and hasattr(g, "directed_paths") and u in g.edges:
            ps = [[(getattr(a, "id", a), getattr(b, "id", b)) for a, b in p] for p in g.directed_paths(u, v)]
            for p in ps:
                if not p or p[0][0] != u or p[-1][1] != v or not all(ex[s] for s in p) or \
                        any(p[i][1] != p[i + 1][0] for i in range(len(p) - 1)):
                    bad.append("directed_paths(%s,%s) lists %s" % (u, v, p))
            if bool(ps) != want:
                bad.append("directed_paths(%s,%s) lists %d paths" % (u, v, len(ps)))
        if len(ids) <= 4 and u < v:
            got = sorted(tuple(n.id for n in p) for p in g.all_paths_on_underlying_undirected_graph(u, v))
            if got != simple_paths(ids, ex, u, v):
                bad.append("all_paths_on_underlying_undirected_graph(%s,%s)=%s" % (u, v, got))
    return bad


def purged_bad(g, live):
    """Between two steps nothing of a removed edge is left (g: the manager)."""
    from causy.graph import GraphError
    from causy.graph_utils import retrieve_edges
    bad = []
    if sorted(retrieve_edges(g)) != sorted(live):
        bad.append("graph_utils.retrieve_edges=%s but edges=%s" % (sorted(retrieve_edges(g)), sorted(live)))
    for u, v in itertools.permutations(list(g.nodes), 2):
        try:
            e = g.get_edge(g.nodes[u], g.nodes[v])
            got = (e.edge_type.name, e.metadata)
            if (e.u.id, e.v.id) != (u, v):
                bad.append("get_edge(%s,%s) gives %s->%s" % (u, v, e.u.id, e.v.id))
        except GraphError:
            got = None
        if got != live.get((u, v)):
            bad.append("get_edge(%s,%s)=%s" % (u, v, got))
    return bad


def views(g, deep=True):
    """Everything the graph answers -> (live dict, contradictions)."""
    ids = list(g.nodes)
    live, bad = {}, []
    ex = {(u, v): bool(g.directed_edge_exists(u, v)) for u in ids for v in ids if u != v}
    for (u, v), d in ex.items():
        if d:
            et = g.edge_type(u, v)
            live[(u, v)] = (et.name if et is not None else None, g.edge_value(u, v))
    if not deep:
        return live, bad
    for u, v in itertools.permutations(ids, 2):
        d, r = ex[(u, v)], ex[(v, u)]
        nu, nv = g.nodes[u], g.nodes[v]
        if bool(g.directed_edge_exists(nu, nv)) != d:
            bad.append("directed_edge_exists(%s,%s) differs for nodes and ids" % (u, v))
        if bool(g.edge_exists(u, v)) != (d or r):
            bad.append("edge_exists(%s,%s)" % (u, v))
        if bool(g.undirected_edge_exists(u, v)) != (d and r):
            bad.append("undirected_edge_exists(%s,%s)" % (u, v))
        if d and (g.edge_value(nu, nv) != live[(u, v)][1] or g.edge_type(nu, nv).name != live[(u, v)][0]):
            bad.append("edge_value or edge_type of %s->%s differ for nodes and ids" % (u, v))
        if d and any((t == live[(u, v)][0]) != bool(g.edge_of_type_exists(nu, nv, T())) for t, T in edge_classes()):
            bad.append("edge_of_type_exists(%s,%s)" % (u, v))
        hist = g.edge_history.get((u, v))
        if hist is not None:
            if list(g.retrieve_edge_history(nu, nv)) != list(hist):
                bad.append("retrieve_edge_history(%s,%s)" % (u, v))
            for a in set(h.action for h in hist):
                if list(g.retrieve_edge_history(u, v, a)) != [h for h in hist if h.action == a]:
                    bad.append("retrieve_edge_history(%s,%s,%s)" % (u, v, a))
        if d:
            t = live[(u, v)][0]
            if t is not None and not g.edge_of_type_exists(u, v, g.edge_type(u, v)):
                bad.append("edge_of_type_exists(%s,%s)" % (u, v))
            if g.directed_edge_is_soft_deleted(u, v):
                bad.append("soft_deleted(%s,%s)" % (u, v))
        else:
            from causy.edge_types import DirectedEdge, UndirectedEdge
            if g.edge_of_type_exists(u, v, DirectedEdge()) or g.edge_of_type_exists(u, v, UndirectedEdge()):
                bad.append("edge_of_type_exists(%s,%s) for a missing edge" % (u, v))
        only = getattr(g, "only_directed_edge_exists", None)
        if only is not None and bool(only(u, v)) != (d and not r):
            bad.append("only_directed_edge_exists(%s,%s)" % (u, v))
    for u in ids:
        try:
            par = sorted(n.id for n in g.parents_of_node(u))
        except KeyError:
            par = []
        want = sorted(v for v in ids if v != u and ex[(v, u)])
        if par != want:
            bad.append("parents_of_node(%s)=%s expected %s" % (u, par, want))
        if g.node_by_id(u) is not g.nodes[u]:
            bad.append("node_by_id(%s)" % u)
        if u in g.edges and sorted(n.id for n in g.parents_of_node(g.nodes[u])) != par:
            bad.append("parents_of_node(%s) differs for node and id" % u)
        sib = sorted(getattr(s, "id", s) for s in g.get_siblings(u))
        want = sorted(v for v in ids if v != u and ex[(v, u)] and ex[(u, v)])
        if sib != want:
            bad.append("get_siblings(%s)=%s expected %s" % (u, sib, want))
        desc = {n.id for n in g.descendants_of_node(u)}
        want, todo = {u}, [u]
        while todo:
            a = todo.pop()
            for b in ids:
                if b != a and ex[(a, b)] and not ex[(b, a)] and b not in want:
                    want.add(b)
                    todo.append(b)
        if len(ids) > 1 and {n.id for n in g.descendants_of_node(g.nodes[u])} != desc:
            bad.append("descendants_of_node(%s) differs for node and id" % u)
        if desc != want:
            bad.append("descendants_of_node(%s)=%s expected %s" % (u, sorted(desc), sorted(want)))
    bad.extend(paths_bad(g, ids, ex))
    got = {}
    for e in g.retrieve_edges():
        k = (e.u.id, e.v.id)
        if k in got:
            bad.append("retrieve_edges lists %s twice" % (k,))
        got[k] = (e.edge_type.name, e.metadata)
    if {k: v for k, v in got.items()} != live:
        bad.append("retrieve_edges=%s but edges=%s" % (sorted(got), sorted(live)))
    return live, bad


def diff_live(live, ref, pairs=None):
    """Differences between views()[0] and a RefGraph."""
    out = []
    for k, s in ref.slots.items():
        if pairs is not None and k not in pairs:
            continue
        if s.live != (k in live):
            out.append("%s->%s is %s, history says %s" % (k + (("present" if k in live else "absent"),
                                                               ("present" if s.live else "absent"))))
        elif s.live:
            t, m = live[k]
            if t not in s.types:
                out.append("%s->%s has type %s, history says %s" % (k + (t, "/".join(sorted(s.types)))))
            if s.meta is not ANY and m != s.meta:
                out.append("%s->%s has data %s, history says %s" % (k + (m, s.meta)))
    return out
