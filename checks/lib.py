"""Structures, histories and reference definitions shared by the checks.

Reference definitions here are written from the documentation, over the plain
{node: district} map and the edge list; they never call the code under test."""

import functools
import itertools
import sys

import networkx as nx
import gerrychain
from gerrychain import Graph, Partition, GeographicPartition, MarkovChain
from symex import engine as E
from symex.core import Case
from symex.engine import (
    Abs, And, Count, Div, Iff, Implies, Ite, Max, Min, Not, Or, Rat, Sum, Sym, eq, ge, gt, issym, le, lt, ne,
)


# ---- structures ------------------------------------------------------------------------------
def is_connected(nodes, edges):
    nodes = list(nodes)
    if not nodes:
        return True
    adj = {v: [] for v in nodes}
    for u, v in edges:
        if u in adj and v in adj:
            adj[u].append(v)
            adj[v].append(u)
    seen, todo = {nodes[0]}, [nodes[0]]
    while todo:
        x = todo.pop()
        for y in adj[x]:
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return len(seen) == len(nodes)


def path(n):
    return [(i, i + 1) for i in range(n - 1)]


def cycle(n):
    return path(n) + [(n - 1, 0)]


def star(n):
    return [(0, i) for i in range(1, n)]


def complete(n):
    return list(itertools.combinations(range(n), 2))


def grid_edges(r, c):
    out = []
    for i in range(r):
        for j in range(c):
            if j + 1 < c:
                out.append((i * c + j, i * c + j + 1))
            if i + 1 < r:
                out.append((i * c + j, (i + 1) * c + j))
    return out


def connected_graphs(n):
    """All connected labelled graphs on n nodes."""
    allE = complete(n)
    out = []
    for k in range(n - 1, len(allE) + 1):
        for es in itertools.combinations(allE, k):
            if is_connected(range(n), es):
                out.append(list(es))
    return out


def nonisomorphic(graphs, n):
    out = []
    for es in graphs:
        g = nx.Graph()
        g.add_nodes_from(range(n))
        g.add_edges_from(es)
        if not any(nx.is_isomorphic(g, h) for _, h in out):
            out.append((es, g))
    return [es for es, _ in out]


def ids(n, kind="int"):
    """Node identifiers of several types; the order of insertion is not the sorted order for
    'shuffled'."""
    if kind == "int":
        return list(range(n))
    if kind == "str":
        return [f"n{(i * 7) % n if n % 7 else i:02d}" for i in range(n)] if n % 7 else [f"n{i:02d}" for i in range(n)]
    if kind == "tuple":
        return [(i // 2, i % 2) for i in range(n)]
    if kind == "shuffled":
        return [(i * 3 + 5) % n if n % 3 else (n - 1 - i) for i in range(n)]
    if kind == "offset":
        return [10 - i for i in range(n)]
    raise ValueError(kind)


_caches = None
_defaults = [(c, dict(c.default_updaters)) for c in (Partition, GeographicPartition, gerrychain.grid.Grid)]


def fresh():
    """Forget memoised results of earlier paths (function-level caches of the package)."""
    global _caches
    if _caches is None:
        _caches = []
        for name, mod in list(sys.modules.items()):
            if name == "gerrychain" or name.startswith("gerrychain."):
                for v in list(vars(mod).values()):
                    if hasattr(v, "cache_clear"):
                        _caches.append(v)
                    elif isinstance(v, type) and v.__module__.startswith("gerrychain"):
                        for w in vars(v).values():
                            if hasattr(w, "cache_clear"):
                                _caches.append(w)
    for c in _caches:
        c.cache_clear()
    for cls, d in _defaults:
        cls.default_updaters = dict(d)


def mkgraph(nodes, edges, node_data=None, edge_data=None, cls=None):
    """nodes: ids; edges: index pairs; *_data: {attr: [values in order]}"""
    g = (cls or Graph)()
    for i, v in enumerate(nodes):
        g.add_node(v, **{k: vals[i] for k, vals in (node_data or {}).items() if i < len(vals) and vals[i] is not MISSING})
    for k, (i, j) in enumerate(edges):
        g.add_edge(nodes[i], nodes[j], **{a: vals[k] for a, vals in (edge_data or {}).items()})
    return g


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


# ---- symbolic histories ----------------------------------------------------------------------
def labels(ctx, nodes, pattern=None, prefix="a"):
    """District labels.  pattern=None: every node has its own arbitrary integer label.
    pattern=[...]: nodes with the same pattern entry share an arbitrary label, and labels of
    different entries differ."""
    if pattern is None:
        return {v: ctx.label(f"{prefix}{i}") for i, v in enumerate(nodes)}
    ks = sorted(set(pattern), key=repr)
    L = {k: ctx.label(f"{prefix}_{k}") for k in ks}
    for x, y in itertools.combinations(ks, 2):
        ctx.assume(ne(L[x], L[y]))
    return {v: L[pattern[i]] for i, v in enumerate(nodes)}


def concrete_labels(nodes, pattern):
    return {v: pattern[i] for i, v in enumerate(nodes)}


def arbitrary_flips(ctx, nodes, existing, count, name="f", concrete=False):
    """A flip dictionary of `count` distinct arbitrary nodes, each to an arbitrary one of the
    existing districts (possibly its current one)."""
    nodes = list(nodes)
    if isinstance(count, tuple):
        return bulk_flips(ctx, nodes, existing, name, *count)
    combos = list(itertools.combinations(range(len(nodes)), count))
    pick = combos[ctx.pick(name + ".nodes", len(combos))]
    flips = {}
    for k, i in enumerate(pick):
        if concrete:
            t = ctx.choose(f"{name}.to{k}", existing)
        else:
            t = ctx.label(f"{name}.to{k}")
            ctx.assume(Or([eq(t, x) for x in existing]))
        flips[nodes[i]] = t
    return flips


def bulk_flips(ctx, nodes, existing, name, how, m=1, variants=2):
    """A large flip for the cases on large graphs: one of a few fixed scattered choices.
    "some": m scattered nodes, each to some district; "all": every node to one district chosen;
    "shift": a run of m consecutive nodes to one arbitrary district."""
    existing = list(existing)
    if how == "all":
        t = ctx.choose(name + ".to", existing)
        return {v: t for v in nodes}
    if how == "shift":
        start = ctx.pick(name + ".from", 3) * len(nodes) // 3
        t = ctx.choose(name + ".to", existing)
        return {nodes[(start + i) % len(nodes)]: t for i in range(m)}
    if how == "one":  # one of six scattered nodes
        v = nodes[-1 - ctx.pick(name + ".node", 6) * (len(nodes) // 6)]
        return {v: ctx.choose(name + ".to", existing)}
    if how == "rows":  # a run of nodes in turn to the k-th district on, one of them or none to another
        shift = ctx.pick(name + ".shift", len(existing))
        odd = ctx.pick(name + ".odd", m + 1)
        out = {v: existing[(i + shift) % len(existing)] if i + 1 == odd else existing[shift] for i, v in enumerate(nodes[:m])}
        return out
    x = 977 * (ctx.pick(name + ".draw", variants) + 1) + sum(131**i * ord(ch) for i, ch in enumerate(name))
    out = {}
    while len(out) < m:
        x = (x * 6364136223846793005 + 1442695040888963407) % 2**64
        out[nodes[(x >> 33) % len(nodes)]] = existing[(x >> 20) % len(existing)]
    return out


def blocks(r, c, names):
    """A district plan of an r x c grid in len(names) vertical strips of (nearly) equal width."""
    return [names[j * len(names) // c] for i in range(r) for j in range(c)]


def apply_flips(lab, flips):
    out = dict(lab)
    out.update(flips)
    return out


# ---- reference definitions -------------------------------------------------------------------
def skey(u, v):
    return tuple(sorted((u, v)))


def edge_ids(nodes, edges):
    return [skey(nodes[i], nodes[j]) for i, j in edges]


def claim_cut_edges(got, lab, es, what="cut_edges"):
    """got: a set of node pairs; es: all edges (sorted id pairs)"""
    out = []
    seen = list(got)
    norm = [skey(*e) for e in seen]
    out.append((len(norm) == len(set(norm)), f"{what}: an edge is listed twice (both orientations)"))
    out.append((all(tuple(e) == n for e, n in zip(seen, norm)), f"{what}: edge not in canonical order"))
    s = set(norm)
    out.append((s <= set(es), f"{what}: contains pairs that are not edges of the graph"))
    for u, v in es:
        if u == v:
            out.append(((u, v) not in s, f"{what}: self-loop reported as cut"))
            continue
        out.append((Iff((u, v) in s, ne(lab[u], lab[v])),
                    f"{what}: edge {u}-{v} in the set iff its ends are in different districts"))
    return out


def parts_claims(partition, lab, nodes):
    """parts/assignment agree with the {node: district} map `lab`."""
    out = []
    a = partition.assignment
    out.append((set(a.keys()) == set(nodes) and set(iter(a)) == set(nodes), "assignment is not over exactly the graph's nodes"))
    for v in nodes:
        out.append((eq(a[v], lab[v]), f"assignment[{v}] is not its district"))
        out.append((eq(a.mapping[v], lab[v]), f"assignment.mapping[{v}] is not its district"))
    for v, p in a.items():
        out.append((eq(p, lab[v]), f"assignment.items() gives a wrong district for {v}"))
    count = {v: 0 for v in nodes}
    ps = list(partition.parts.items())
    for p, members in ps:
        out.append((isinstance(members, frozenset), "parts[...] is not a frozenset"))
        out.append((set(members) <= set(nodes), "a part contains a node that is not in the graph"))
        for v in nodes:
            out.append((Iff(v in members, eq(lab[v], p)), f"node {v} is in the part of another district"))
            if v in members:
                count[v] += 1
    for v in nodes:
        out.append((count[v] == 1, f"node {v} is in {count[v]} parts"))
    for (p, _), (q, _) in itertools.combinations(ps, 2):
        out.append((ne(p, q), "two parts carry the same label"))
    out.append((len(partition) == len(ps), "len(partition) is not the number of parts"))
    out.append((len(a) == len(nodes), "len(assignment) is not the number of nodes"))
    return out


def plain(x):
    return x


def part_of(partition_dict, label):
    """value of a {part: value} dict at a symbolic/concrete label (forks)"""
    return partition_dict[label]


def groups(ctx, lab, nodes):
    """The districts as lists of nodes (decides label equalities on this path)."""
    out = []
    for v in nodes:
        for g in out:
            if ctx.branch(eq(lab[g[0]], lab[v])):
                g.append(v)
                break
        else:
            out.append([v])
    return out


def all_connected(ctx, lab, nodes, edges):
    es = [(nodes[i], nodes[j]) for i, j in edges]
    return all(is_connected(g, es) for g in groups(ctx, lab, nodes))


def components(members, edges):
    left, out = set(members), []
    while left:
        todo = [next(iter(left))]
        comp = set()
        while todo:
            x = todo.pop()
            if x in comp:
                continue
            comp.add(x)
            for u, v in edges:
                if u == x and v in left and v not in comp:
                    todo.append(v)
                if v == x and u in left and u not in comp:
                    todo.append(u)
        left -= comp
        out.append(comp)
    return out


def fresh_strings(d):
    """region names: equal names are distinct objects, as they are after reading a file"""
    return {k: [x if not isinstance(x, str) or x.isdigit() else "".join([x, "-region"]) for x in v] for k, v in (d or {}).items()}
