import random

import numpy
from checks.lib import *
from gerrychain.proposals import spectral_recom


def laplacian(k, w, normalized):
    """of the graph on range(k) with the edge weights {(i, j): w}"""
    m = numpy.zeros((k, k))
    for (i, j), x in w.items():
        m[i, j] -= x
        m[j, i] -= x
        m[i, i] += x
        m[j, j] += x
    if normalized:
        s = numpy.array([1 / d ** 0.5 if d > 0 else 0.0 for d in numpy.diag(m)])
        m = m * s[:, None] * s[None, :]
    return m


def weightings(inner, drawn, weights):
    if weights == "random":
        return [dict(zip(inner, ws)) for ws in set(itertools.permutations(drawn[-len(inner):]))]
    return [dict.fromkeys(inner, 1.0)]


def signs_ok(vec, side):
    """nodes with opposite signs are on different sides, nodes with the same sign on the same"""
    out = []
    for a in range(len(side)):
        for b in range(a):
            x, y = vec[a], vec[b]
            if side[a] == side[b]:
                out.append(Not(Or(And(gt(x, 0), lt(y, 0)), And(lt(x, 0), gt(y, 0)))))
            else:
                out.append(Not(Or(And(gt(x, 0), gt(y, 0)), And(lt(x, 0), lt(y, 0)))))
    return And(out)


def h_fiedler(ctx, n, edges, pattern, kind="int", lap="normalized", weights=None, stub=True):
    """The eigenvalue routine is replaced by its contract: ascending eigenvalues, column j of the vectors
    belongs to the j-th eigenvalue; the entries are arbitrary.  stub=False: the real routine on the real matrix."""
    fresh()
    nodes = ids(n, kind)
    p = Partition(mkgraph(nodes, edges), {v: pattern[i] for i, v in enumerate(nodes)})
    calls, drawn = [], []
    kept, rnd = numpy.linalg.eigh, random.random

    def eigh(mat):
        k = mat.shape[0]
        vec = numpy.empty((k, k), dtype=object)
        for i in range(k):
            for j in range(k):
                vec[i, j] = ctx.real(f"x{len(calls)}_{i}_{j}", -1, 1)
        calls.append((numpy.array(mat, dtype=float), [vec[i, 1] for i in range(k)]))
        return numpy.arange(float(k)), numpy.matrix(vec)

    def draw():
        drawn.append((len(drawn) * 5 % 8 + 1 + len(drawn) / 16) / 16)
        return drawn[-1]

    random.random = draw
    if stub:
        numpy.linalg.eigh = eigh
    try:
        q = spectral_recom(p, weights, lap) if lap != "default" else spectral_recom(p)
    finally:
        numpy.linalg.eigh, random.random = kept, rnd
    new = [q.assignment[v] for v in nodes]
    pairs = {frozenset((pattern[i], pattern[j])) for i, j in edges if pattern[i] != pattern[j]}
    fits = [c for c in sorted(pairs, key=sorted) if all(new[i] in c if pattern[i] in c else new[i] == pattern[i] for i in range(n))]
    ctx.check(bool(fits), "not a redrawing of one pair of adjacent districts")
    norm = lap in ("normalized", "default")
    ways = []  # what would explain the outcome
    for c in fits:
        mem = [i for i in range(n) if pattern[i] in c]
        inner = [(a, b) for a in range(len(mem)) for b in range(a) if (mem[a], mem[b]) in edges or (mem[b], mem[a]) in edges]
        side = [new[i] for i in mem]
        if weights == "random" and len(drawn) < len(inner):
            continue
        for w in weightings(inner, drawn, weights):
            L = laplacian(len(mem), w, norm)
            if calls:
                mat, vec = calls[-1]
                if mat.shape != L.shape:
                    continue
                for o in itertools.permutations(range(len(mem))):
                    # position r of the matrix stands for member o[r]
                    if numpy.allclose(mat, L[numpy.ix_(o, o)], atol=1e-9):
                        ways.append((c, signs_ok(vec, [side[x] for x in o])))
            else:
                vals, vecs = kept(L)
                v = [float(x) for x in vecs[:, 1]]
                if len(mem) > 2 and vals[2] - vals[1] < 1e-6:
                    ctx.cover("degenerate")
                    ways.append((c, True))
                else:
                    ways.append((c, signs_ok([x if abs(x) > 1e-6 else 0 for x in v], side)))
    ctx.check(bool(ways), "the eigenvectors are not those of the Laplacian of two merged districts")
    ctx.check(Or([e for _, e in ways]), "the sides are not the signs of an eigenvector for the second smallest eigenvalue")
    if len({c for c, _ in ways}) == 1:
        ctx.cover("pair " + "-".join(map(str, sorted(ways[0][0]))))
    ctx.cover("redrawn")
    ctx.observe("new", [str(x) for x in new])


CASES = []


def add(name, n, edges, pattern, covers=("redrawn",), thorough=False, **kw):
    CASES.append(Case(name, h_fiedler, dict(n=n, edges=edges, pattern=pattern, **kw), covers=covers, thorough=thorough,
                      bounds=f"{n} nodes, plan {pattern}, {kw}; every cut edge drawn; " +
                             ("the real eigenvectors" if kw.get("stub") is False else "arbitrary eigenvector entries")))


P4, P5, P6, C4 = path(4), path(5), path(6), cycle(4)
HOUSE = cycle(4) + [(0, 4), (1, 4)]
TAILED = [(0, 1), (1, 2), (2, 0), (2, 3), (3, 4)]
for lap in ("normalized", "standard", "default"):
    add(f"p4-{lap}", 4, P4, (0, 0, 1, 1), lap=lap)
    add(f"tailed-{lap}", 5, TAILED, (0, 0, 0, 1, 1), lap=lap, kind="str")
    add(f"p5-3-{lap}", 5, P5, ("a", "b", "b", "c", "c"), lap=lap, kind="tuple", covers=("redrawn", "pair a-b", "pair b-c"))
    add(f"real-p6-{lap}", 6, P6, (0, 1, 1, 1, 2, 2), lap=lap, stub=False, kind="shuffled")
    add(f"real-tailed-{lap}", 5, TAILED, (3, 5, 3, 5, 5), lap=lap, stub=False)
for lap in ("normalized", "standard"):
    add(f"random-p4-{lap}", 4, P4, (0, 0, 1, 2), lap=lap, weights="random", kind="offset")
    add(f"random-c4-{lap}", 4, C4, (0, 1, 1, 1), lap=lap, weights="random", kind="str")
    add(f"random-tailed-{lap}", 5, TAILED, (1, 1, 0, 0, 0), lap=lap, weights="random")
    add(f"random-real-{lap}", 5, TAILED, (1, 1, 0, 0, 0), lap=lap, weights="random", stub=False)
    add(f"house-{lap}", 5, HOUSE, (1, 0, 1, 0, 0), lap=lap, kind="shuffled")
    add(f"g23-{lap}", 6, grid_edges(2, 3), (0, 1, 1, 0, 0, 1), lap=lap, thorough=True)
    add(f"p6-3-{lap}", 6, P6, (2, 2, 0, 0, 1, 1), lap=lap, thorough=True, covers=("redrawn", "pair 0-2", "pair 0-1"))
    add(f"real-g24-{lap}", 8, grid_edges(2, 4), (0, 0, 1, 1, 0, 2, 1, 1), lap=lap, stub=False, thorough=True)
add("singles", 2, [(0, 1)], (0, 1))
ASSUMPTIONS = ["the eigenvalue routine (LAPACK via numpy.linalg.eigh) meets its contract: ascending eigenvalues with their eigenvectors as columns",
               "graphs without an edge attribute 'weight'", "random weights follow one fixed stream of distinct draws"]

