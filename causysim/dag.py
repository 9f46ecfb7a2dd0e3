"""Reference: d-separation, CPDAG by orientation rules, extendability."""
import itertools


def dsep(parents, u, v, s):
    """parents: node -> set; moral graph criterion."""
    anc, todo = set(), [u, v, *s]
    while todo:
        a = todo.pop()
        if a not in anc:
            anc.add(a)
            todo.extend(parents[a])
    nb = {a: set() for a in anc}
    for a in anc:
        ps = sorted(parents[a])
        for p in ps:
            nb[a].add(p), nb[p].add(a)
        for p, q in itertools.combinations(ps, 2):
            nb[p].add(q), nb[q].add(p)
    seen, todo = set(s), [u]
    while todo:
        a = todo.pop()
        if a == v:
            return False
        if a in seen:
            continue
        seen.add(a)
        todo.extend(nb[a])
    return True


def colliders(adj, sep, names):
    """Unshielded triples x-z-y with z outside the separating set; adj: set of frozensets."""
    out = set()
    for x, y in itertools.combinations(names, 2):
        if frozenset((x, y)) in adj:
            continue
        for z in names:
            if frozenset((x, z)) in adj and frozenset((y, z)) in adj and z not in sep[frozenset((x, y))]:
                out.add((x, z, y))
    return out


def orient(adj, cols, names, known=()):
    """-> set of directed edges (u, v), or None if the colliders contradict each other."""
    d = set(known)
    for x, z, y in cols:
        d.add((x, z)), d.add((y, z))
    if any((v, u) in d for u, v in d):
        return None
    A = lambda a, b: frozenset((a, b)) in adj
    changed = True
    while changed:
        changed = False
        for p in adj:
            for a, b in (tuple(p), tuple(p)[::-1]):
                if (a, b) in d or (b, a) in d:
                    continue
                r1 = any((c, a) in d and not A(c, b) for c in names if c not in (a, b))
                r2 = any((a, c) in d and (c, b) in d for c in names)
                r3 = any(A(a, c) and A(a, e) and (c, a) not in d and (a, c) not in d and (e, a) not in d
                         and (a, e) not in d and (c, b) in d and (e, b) in d and not A(c, e)
                         for c, e in itertools.combinations([n for n in names if n not in (a, b)], 2))
                r4 = any((e, c) in d and (c, b) in d and A(a, e) and A(a, c) and not A(b, e)
                         and not any((a, x) in d or (x, a) in d for x in (c, e))
                         for c, e in itertools.permutations([n for n in names if n not in (a, b)], 2))
                if r1 or r2 or r3 or r4:
                    d.add((a, b))
                    changed = True
                    break
    return d


def extension(adj, d, names):
    """A DAG with that skeleton and those directions and no new unshielded collider (Dor-Tarsi), or None."""
    left = list(names)
    cur = {frozenset(p) for p in adj}
    res = set(d)
    while left:
        for x in left:
            nb = {(set(p) - {x}).pop() for p in cur if x in p}
            if any((x, y) in d for y in nb):
                continue
            und = [y for y in nb if (y, x) not in d]
            if all(frozenset((y, w)) in cur for y in und for w in nb if w != y):
                for y in und:
                    res.add((y, x))
                cur = {p for p in cur if x not in p}
                left.remove(x)
                break
        else:
            return None
    return res


def v_structures(adj, d, names):
    out = set()
    for x, y in itertools.combinations(names, 2):
        if frozenset((x, y)) in adj:
            continue
        for z in names:
            if (x, z) in d and (y, z) in d:
                out.add((x, z, y))
    return out


def cpdag(adj, sep, names):
    """-> directed edges of the CPDAG, or None if no acyclic graph is consistent."""
    cols = colliders(adj, sep, names)
    d = orient(adj, cols, names)
    if d is None:
        return None
    ext = extension(adj, d, names)
    if ext is None or v_structures(adj, ext, names) != cols:
        return None
    return d


def open_rules(E, U, names):
    """Rules other than the first that still apply; E(u, v): only u -> v, U(u, v): u -- v."""
    A = lambda a, b: E(a, b) or E(b, a) or U(a, b)
    out = []
    for a, b in itertools.permutations(names, 2):
        if not U(a, b):
            continue
        rest = [n for n in names if n not in (a, b)]
        for c in rest:
            if E(a, c) and E(c, b):
                out.append("%s -- %s although %s -> %s -> %s" % (a, b, a, c, b))
        for c, e in itertools.permutations(rest, 2):
            if c < e and U(a, c) and U(a, e) and E(c, b) and E(e, b) and not A(c, e):
                out.append("%s -- %s although %s -> %s <- %s, both -- %s" % (a, b, c, b, e, a))
            if U(a, c) and U(a, e) and E(e, c) and E(c, b) and not A(b, e):
                out.append("%s -- %s although %s -> %s -> %s, %s -- %s, %s" % (a, b, e, c, b, a, c, e))
    return out
