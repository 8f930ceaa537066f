"""Graph construction and graph-derived views."""
from __future__ import annotations

import math

import numpy as np

from symx.harness import harness
from symx.ops import (And, If, Iff, Implies, Not, Or, close, count, distinct, eq, flat, le, lec, lt, member,
                      ne, nested, same_multiset, same_seq, total)

OPS = ("modssc.graph.construction.ops.symmetrize", "modssc.graph.construction.ops.self_loops",
       "modssc.graph.construction.ops.normalize", "modssc.graph.construction.ops.weights")


def _edges(I, n, E, weights=True, name="e", lo=0):
    ei = I.arr(name, (2, E), "i", lo, n - 1)
    w = I.arr(name + "_w", (E,), "r", 0.125, 4, dtype=np.float32) if weights else None
    return ei, w


def _adj(ei, w, n, agg):
    """(present, value) per ordered pair; value aggregates duplicates by agg(list of (cond, w))."""
    s, d = nested(ei)
    ww = flat(w) if w is not None else [1.0] * len(s)
    P = [[Or([And(eq(s[e], i), eq(d[e], j)) for e in range(len(s))]) for j in range(n)] for i in range(n)]
    V = [[agg([(And(eq(s[e], i), eq(d[e], j)), ww[e]) for e in range(len(s))]) for j in range(n)] for i in range(n)]
    return P, V


def _agg_max(items):
    best = 0.0  # weights are positive
    for c, w in items:
        best = If(And(c, lt(best, w)), w, best)
    return best


def _agg_sum(items):
    return total([If(c, w, 0.0) for c, w in items])


@harness("G01", modules=OPS, compact=True,
         cfgs=[{"n": n, "E": e, "mode": m, "w": w}
               for n, e, m, w in ((2, 2, "or", True), (2, 2, "mutual", True), (2, 3, "or", False), (3, 3, "mutual", False),
                                  (3, 2, "or", True), (3, 3, "or", True), (2, 3, "mutual", True), (3, 1, "mutual", True),
                                  (2, 0, "or", True), (2, 2, "none", True))],
         thorough=[{"n": 3, "E": 4, "mode": m, "w": w} for m in ("or", "mutual") for w in (True, False)],
         bounds="<=3 nodes, every directed edge list of <=3 (4) edges (duplicates and loops included), every weight "
         "in [1/8,4]")
def symmetrization(I, cfg, C):
    from modssc.graph.construction.ops.symmetrize import symmetrize_edges

    n, E, mode = cfg["n"], cfg["E"], cfg["mode"]
    ei, w = _edges(I, n, E, cfg["w"])
    P, V = _adj(ei, w, n, _agg_max)
    oe, ow = symmetrize_edges(n_nodes=n, edge_index=ei, edge_weight=w, mode=mode)
    C.require("weights are present exactly when they were given", (ow is None) == (w is None))
    s, d = nested(oe)
    C.require("one weight per edge", ow is None or len(flat(ow)) == len(s))
    C.require("node numbers stay in range", And([And(le(0, x), lt(x, n)) for x in s + d]))
    if mode == "none":
        C.require("mode none leaves the graph as it is", And(same_seq(s, nested(ei)[0]), same_seq(d, nested(ei)[1])))
        return
    Q, U = _adj(oe, ow, n, _agg_max)
    for e in range(len(s)):
        for f in range(e):
            C.require("no edge is repeated", Or(ne(s[e], s[f]), ne(d[e], d[f])))
    for i in range(n):
        for j in range(n):
            want = (P[i][j] if i == j else Or(P[i][j], P[j][i]) if mode == "or" else And(P[i][j], P[j][i]))
            C.require(f"mode {mode} keeps exactly the documented pairs", Iff(Q[i][j], want))
            if w is None:
                continue
            avg = (V[i][j] + V[j][i]) * 0.5
            val = V[i][j] if i == j else If(And(P[i][j], P[j][i]), avg, If(P[i][j], V[i][j], V[j][i]))
            C.require("an edge present in both directions gets the average of the two weights, else its own",
                      Implies(want, close(U[i][j], val)))


@harness("G01", modules=OPS, compact=True,
         cfgs=[{"n": 2, "E": 2, "w": True}, {"n": 3, "E": 3, "w": True}, {"n": 3, "E": 3, "w": False}, {"n": 2, "E": 0, "w": True},
               {"n": 2, "E": 5, "w": True}],
         thorough=[{"n": 4, "E": 4, "w": True}],
         bounds="<=3 (4) nodes, every edge list of <=3 (4) edges, every weight")
def self_loops(I, cfg, C):
    from modssc.graph.construction.ops.self_loops import add_self_loops

    n, E = cfg["n"], cfg["E"]
    ei, w = _edges(I, n, E, cfg["w"])
    s0, d0 = nested(ei.copy())
    w0 = flat(w.copy()) if w is not None else None
    oe, ow = add_self_loops(n_nodes=n, edge_index=ei, edge_weight=w)
    s, d = nested(oe)
    C.require("existing edges are kept in place", And(same_seq(s[:E], s0), same_seq(d[:E], d0)))
    if w is not None:
        wl = flat(ow)
        C.require("existing weights are kept", same_seq(wl[:E], w0))
        C.require("one weight per edge", len(wl) == len(s))
        C.require("added loops have weight one", And([eq(x, 1) for x in wl[E:]]))
    C.require("only loops are added", And([eq(a, b) for a, b in zip(s[E:], d[E:])]))
    for i in range(n):
        had = Or([And(eq(a, i), eq(b, i)) for a, b in zip(s0, d0)])
        new = count([eq(a, i) for a in s[E:]])
        C.require("a node gets one loop exactly when it had none", eq(new, If(had, 0, 1)))


@harness("G02", modules=OPS, compact=True, nl=True,
         cfgs=[{"n": 2, "E": 2, "mode": "rw"}, {"n": 3, "E": 3, "mode": "rw"}, {"n": 2, "E": 2, "mode": "sym"},
               {"n": 2, "E": 3, "mode": "none"}, {"n": 3, "E": 2, "mode": "sym"}],
         thorough=[{"n": 2, "E": 3, "mode": "sym"}, {"n": 3, "E": 4, "mode": "rw"}, {"n": 3, "E": 3, "mode": "sym"}],
         bounds="<=3 nodes, every edge list of <=3 (4) edges, every weight in [1/8,4]")
def normalization(I, cfg, C):
    from modssc.graph.construction.ops.normalize import normalize_edge_weights

    n, E, mode = cfg["n"], cfg["E"], cfg["mode"]
    if mode == "sym":
        ends = [[I.pick_int(f"{k}{e}", 0, n - 1) for e in range(E)] for k in "sd"]
        ei, w = np.array(ends, np.int64), I.arr("e_w", (E,), "r", 0.125, 4, dtype=np.float32)
    else:
        ei, w = _edges(I, n, E)
    s, d = nested(ei)
    w0 = flat(w.copy())
    out = flat(normalize_edge_weights(n_nodes=n, edge_index=ei, edge_weight=w, mode=mode))
    C.require("one weight per edge, in the same order", len(out) == E)
    C.require("the given weights are not modified", same_seq(flat(w), w0))
    deg = [total([If(eq(s[e], i), w0[e], 0.0) for e in range(E)]) for i in range(n)]
    if mode == "none":
        C.require("mode none keeps the weights", same_seq(out, w0))
        return
    from symx.core import sym_sqrt as root

    for e in range(E):
        if mode == "sym":
            if d[e] not in s:
                C.require("normalized weights are positive and finite", And(lt(0, out[e] * root(deg[s[e]])), lt(out[e] * root(deg[s[e]]), 1e12)))
            if d[e] in s:
                C.require("symmetric weights are the weight over the root of both degrees",
                          close(out[e] * root(deg[s[e]]) * root(deg[d[e]]), w0[e], 1e-4))
            continue
        for i in range(n):
            C.require("random-walk weights are shares of the source's total weight",
                      Implies(eq(s[e], i), close(out[e] * deg[i], w0[e])))


@harness("G02", modules=OPS, compact=True, cfgs=[{"kind": "heat"}, {"kind": "binary"}, {"kind": "cosine"}], nl=True,
         bounds="two edges, every distance in [0,2] and scale in [1/4,2]")
def distance_weights(I, cfg, C):
    from modssc.graph.construction.ops.weights import compute_edge_weights
    from modssc.graph.specs import GraphWeightsSpec

    dist = I.arr("dist", (2,), "r", 0, 2, dtype=np.float32)
    sg = I.real("sigma", 0.25, 2) if cfg["kind"] == "heat" else None
    a, b = flat(dist.copy())
    out = flat(compute_edge_weights(distances=dist, metric="cosine", weights=GraphWeightsSpec(cfg["kind"], sigma=sg)))
    C.require("one weight per distance", len(out) == 2)
    if cfg["kind"] == "binary":
        C.require("binary weights are one", And(eq(out[0], 1), eq(out[1], 1)))
    elif cfg["kind"] == "cosine":
        C.require("cosine weights are one minus the distance", And(close(out[0], 1 - a), close(out[1], 1 - b)))
    else:
        C.require("heat weights lie in (0, 1]", And([And(lt(0, x), lec(x, 1)) for x in out]))
        C.require("heat weights fall with distance", Implies(lt(a + 0.01, b), lt(out[1], out[0])))
        C.require("heat weight is one at distance zero", Implies(eq(a, 0), close(out[0], 1)))


# --- G03 neighbours ------------------------------------------------------------

NB = ("modssc.graph.construction.backends.numpy_backend", "modssc.graph.construction.services.service",
      "modssc.graph.construction.schemes.anchor")


def _d2(a, b):
    return total([(x - y) * (x - y) for x, y in zip(a, b)])


def _knn_requirements(C, X, ei, dist, k, n, ordered=True):
    s, d = nested(ei)
    dl = flat(dist)
    ke = min(k, n - 1)
    D = [[_d2(X[i], X[j]) for j in range(n)] for i in range(n)]
    C.require("every node has min(k, n-1) neighbours", And([eq(count([eq(x, i) for x in s]), ke) for i in range(n)]))
    C.require("no node is its own neighbour", And([ne(a, b) for a, b in zip(s, d)]))
    for e in range(len(s)):
        for f in range(e):
            C.require("no neighbour is listed twice", Or(ne(s[e], s[f]), ne(d[e], d[f])))
    for i in range(n):
        for j in range(n):
            inn = Or([And(eq(a, i), eq(b, j)) for a, b in zip(s, d)])
            for m in range(n):
                if m in (i, j) or j == i:
                    continue
                inm = Or([And(eq(a, i), eq(b, m)) for a, b in zip(s, d)])
                C.require("no closer node is left out", Implies(And(inn, Not(inm)), lec(D[i][j], D[i][m], 1e-5)))
            for e in range(len(s)):
                C.require("reported distances are the true ones",
                          Implies(And(eq(s[e], i), eq(d[e], j)),
                                  And(lec(0, dl[e]), close(dl[e] * dl[e], D[i][j], 1e-4))))


@harness("G03", modules=NB, compact=True, nl=True,
         cfgs=[{"n": 2, "k": 1, "chunk": 1, "d": 1}, {"n": 3, "k": 1, "chunk": 2, "d": 1}, {"n": 3, "k": 2, "chunk": 3, "d": 1},
               {"n": 3, "k": 5, "chunk": 1, "d": 1}, {"n": 4, "k": 2, "chunk": 3, "d": 1}],
         thorough=[{"n": 3, "k": 1, "chunk": 2, "d": 2}, {"n": 4, "k": 3, "chunk": 2, "d": 1}, {"n": 5, "k": 2, "chunk": 2, "d": 1}],
         bounds="<=4 (5) points on a small integer grid 0..3 (ties and duplicates included), k 1..5, chunk sizes 1..3")
def knn_euclidean(I, cfg, C):
    from modssc.graph.construction.backends.numpy_backend import knn_edges_numpy

    n, k = cfg["n"], cfg["k"]
    Xi = I.arr("X", (n, cfg["d"]), "i", 0, 3)
    X = nested(Xi)
    ei, dist = knn_edges_numpy(Xi.astype(np.float32), k=k, metric="euclidean", chunk_size=cfg["chunk"])
    _knn_requirements(C, X, ei, dist, k, n)


@harness("G03", modules=NB, compact=True, nl=True,
         cfgs=[{"n": 2, "chunk": 1}, {"n": 3, "chunk": 2}, {"n": 3, "chunk": 5}],
         thorough=[{"n": 4, "chunk": 3}],
         bounds="<=3 (4) points on the integer line 0..3, every real radius in (0,3], chunk sizes 1..5")
def epsilon_euclidean(I, cfg, C):
    from modssc.graph.construction.backends.numpy_backend import epsilon_edges_numpy

    n = cfg["n"]
    Xi = I.arr("X", (n, 1), "i", 0, 3)
    X = nested(Xi)
    r = I.real("radius", 0, 3)
    I.assume(lt(0, r))
    for i in range(n):
        for j in range(i):
            df = X[i][0] - X[j][0]
            # float rounding at the exact boundary is outside
            I.assume(Or(lt(r + 0.001, If(lt(df, 0), -df, df)), lt(If(lt(df, 0), -df, df), r - 0.001)))
    ei, dist = epsilon_edges_numpy(Xi.astype(np.float32), radius=r, metric="euclidean", chunk_size=cfg["chunk"])
    s, d = nested(ei)
    dl = flat(dist)
    for i in range(n):
        for j in range(n):
            c = count([And(eq(a, i), eq(b, j)) for a, b in zip(s, d)])
            df = X[i][0] - X[j][0]
            ad = If(lt(df, 0), -df, df)
            C.require("pairs within the radius, and only those, are connected once each way",
                      eq(c, If(le(ad, r), 1, 0)) if i != j else eq(c, 0))
            for e in range(len(s)):
                C.require("reported distances are the true ones",
                          Implies(And(eq(s[e], i), eq(d[e], j)), close(dl[e], ad, 1e-4)))


# directions with exactly representable cosines; the zero vector has distance 1 to everything
DIRS = ((1, 0), (0, 1), (-1, 0), (3, 4), (0, 0))


def _directed_points(I, n, dirs):
    """n points: a direction out of the list times any positive length; the true cosine distances between them."""
    u = [DIRS[I.choice(f"dir{i}", list(dirs))] for i in range(n)]
    rows = I.arr("len", (n, 1), "r", 0.25, 4) * np.array(u, dtype=float)
    nr = [5 if v == (3, 4) else 1 for v in u]
    D = [[1.0 - sum(a * b for a, b in zip(u[i], u[j])) / (nr[i] * nr[j]) for j in range(n)] for i in range(n)]
    return rows, D


def _cosine_requirements(C, s, d, dl, D, n):
    C.require("no node is its own neighbour", And([ne(a, b) for a, b in zip(s, d)]))
    for e in range(len(s)):
        for f in range(e):
            C.require("no neighbour is listed twice", Or(ne(s[e], s[f]), ne(d[e], d[f])))
        for i in range(n):
            for j in range(n):
                C.require("reported distances are the true ones", Implies(And(eq(s[e], i), eq(d[e], j)), close(dl[e], D[i][j], 1e-4)))


COSG = [{"kind": "knn", "n": 3, "k": 1, "chunk": 2, "dirs": (0, 1, 3, 4)}, {"kind": "knn", "n": 3, "k": 2, "chunk": 1, "dirs": (0, 2, 4)},
        {"kind": "knn", "n": 3, "k": 4, "chunk": 3, "dirs": (0, 2, 3)}, {"kind": "epsilon", "n": 2, "chunk": 1, "dirs": (0, 1, 2, 3, 4)},
        {"kind": "epsilon", "n": 3, "chunk": 2, "dirs": (0, 1, 3)}]


@harness("G03", modules=NB, compact=True, nl=True, cfgs=COSG,
         thorough=[{"kind": "knn", "n": 4, "k": 2, "chunk": 3, "dirs": (0, 1, 3, 4)}, {"kind": "epsilon", "n": 3, "chunk": 2, "dirs": (0, 1, 2, 3, 4)}],
         bounds="<=3 (4) points in the plane: one of five directions (the zero vector included) times every length in [1/4,4], "
         "k 1..4, every real radius in (0,2.1], chunk sizes 1..3")
def cosine_graphs(I, cfg, C):
    from modssc.graph.construction.backends.numpy_backend import epsilon_edges_numpy, knn_edges_numpy

    n = cfg["n"]
    X, D = _directed_points(I, n, cfg["dirs"])
    if cfg["kind"] == "epsilon":
        r = I.real("radius", 0, 2.1)
        I.assume(lt(0.001, r))
        for i in range(n):
            for j in range(i):
                I.assume(Or(lt(r + 0.001, D[i][j]), lt(D[i][j], r - 0.001)))
        ei, dist = epsilon_edges_numpy(X.astype(np.float32), radius=r, metric="cosine", chunk_size=cfg["chunk"])
        s, d = nested(ei)
        for i in range(n):
            for j in range(n):
                C.require("pairs within the radius, and only those, are connected once each way",
                          eq(count([And(eq(a, i), eq(b, j)) for a, b in zip(s, d)]), If(lt(D[i][j], r), 1, 0) if i != j else 0))
    else:
        ei, dist = knn_edges_numpy(X.astype(np.float32), k=cfg["k"], metric="cosine", chunk_size=cfg["chunk"])
        s, d = nested(ei)
        ke = min(cfg["k"], n - 1)
        C.require("every node has min(k, n-1) neighbours", And([eq(count([eq(x, i) for x in s]), ke) for i in range(n)]))
        for i in range(n):
            has = [Or([And(eq(a, i), eq(b, j)) for a, b in zip(s, d)]) for j in range(n)]
            C.require("no closer node is left out", And([Implies(And(has[j], Not(has[m])), D[i][j] <= D[i][m] + 1e-5)
                                                         for j in range(n) for m in range(n) if len({i, j, m}) == 3]))
    _cosine_requirements(C, s, d, flat(dist), D, n)


@harness("G03", modules=NB, compact=True, nl=True, budget=30,
         cfgs=[{"n": 3, "k": 1, "r": 1, "m": 2, "lim": 10}, {"n": 3, "k": 2, "r": 1, "m": 1, "lim": 10},
               {"n": 3, "k": 2, "r": 1, "m": 2, "lim": 2}, {"n": 3, "k": 1, "r": 1, "m": 1, "lim": 10}],
         thorough=[{"n": 4, "k": 2, "r": 1, "m": 2, "lim": 2}, {"n": 4, "k": 1, "r": 2, "m": 2, "lim": 10}],
         bounds="<=4 points on the integer line 0..3, <=2 anchors, every anchor draw, candidate limits 2 and 10")
def anchor_graph(I, cfg, C):
    from modssc.graph.construction.schemes.anchor import AnchorParams, anchor_edges

    n, k = cfg["n"], cfg["k"]
    Xi = I.arr("X", (n, 1), "i", 0, 3)
    X = nested(Xi)
    ei, dist = anchor_edges(Xi.astype(np.float32), k=k, metric="euclidean", backend="numpy", seed=3,
                            params=AnchorParams(n_anchors=cfg["m"], anchors_k=cfg["r"], candidate_limit=cfg["lim"],
                                                chunk_size=2))
    s, d = nested(ei)
    dl = flat(dist)
    D = [[_d2(X[i], X[j]) for j in range(n)] for i in range(n)]
    for i in range(n):
        C.require("no node has more than k neighbours", le(count([eq(x, i) for x in s]), k))
    C.require("no node is its own neighbour", And([ne(a, b) for a, b in zip(s, d)]))
    for e in range(len(s)):
        for f in range(e):
            C.require("no neighbour is listed twice", Or(ne(s[e], s[f]), ne(d[e], d[f])))
        for i in range(n):
            for j in range(n):
                C.require("reported distances are the true ones",
                          Implies(And(eq(s[e], i), eq(d[e], j)), And(lec(0, dl[e]), close(dl[e] * dl[e], D[i][j], 1e-4))))
    if cfg["m"] == 1:
        ke = min(k, n - 1)
        C.require("with one anchor every node sees all others",
                  And([eq(count([eq(x, i) for x in s]), ke) for i in range(n)]))
        for i in range(n):
            has = [Or([And(eq(x, i), eq(y, j)) for x, y in zip(s, d)]) for j in range(n)]
            C.require("of its candidates a node keeps the nearest",
                      And([Implies(And(has[j], Not(has[q])), le(D[i][j], D[i][q]))
                           for j in range(n) for q in range(n) if len({i, j, q}) == 3]))


# --- the whole builder ------------------------------------------------------------

def _build_cfgs():
    out = []
    for sym in ("none", "or", "mutual"):
        for norm in ("none", "rw", "sym"):
            out.append({"sym": sym, "norm": norm, "loops": norm != "none", "scheme": "knn", "n": 3})
    out.append({"sym": "or", "norm": "rw", "loops": False, "scheme": "epsilon", "n": 3})
    out.append({"sym": "mutual", "norm": "none", "loops": True, "scheme": "epsilon", "n": 3})
    return out


@harness("G04", modules=NB, compact=True, nl=True, cfgs=_build_cfgs,
         thorough=[{"sym": s, "norm": "rw", "loops": True, "scheme": "knn", "n": 4} for s in ("or", "mutual")],
         bounds="3 (4) points on the integer line 0..4, knn (k=1) and epsilon graphs, all symmetrisation, "
         "normalisation and loop settings, binary weights")
def builder_pipeline(I, cfg, C):
    from modssc.graph.construction.api import build_graph
    from modssc.graph.specs import GraphBuilderSpec, GraphWeightsSpec

    n = cfg["n"]
    Xi = I.arr("X", (n, 1), "i", 0, 4)
    x = flat(Xi)
    ab = lambda v: If(lt(v, 0), -v, v)  # noqa: E731
    D = [[ab(x[i] - x[j]) for j in range(n)] for i in range(n)]
    spec = GraphBuilderSpec(scheme=cfg["scheme"], metric="euclidean", k=1, radius=1.5, symmetrize=cfg["sym"],
                            weights=GraphWeightsSpec("binary"), normalize=cfg["norm"], self_loops=cfg["loops"],
                            backend="numpy", chunk_size=2)
    if cfg["scheme"] == "knn":
        for i in range(n):
            for j in range(n):
                for m in range(j):
                    if i not in (j, m):
                        I.assume(ne(D[i][j], D[i][m]))  # unique neighbour order
        dirp = [[And([lt(D[i][j], D[i][m]) for m in range(n) if m not in (i, j)]) if i != j else False
                 for j in range(n)] for i in range(n)]
    else:
        dirp = [[le(D[i][j], 1.5) if i != j else False for j in range(n)] for i in range(n)]
    g = build_graph(Xi.astype(np.float32), spec=spec, seed=1, dataset_fingerprint="fp", cache=False)
    s, d = nested(g.edge_index)
    w = flat(g.edge_weight)
    C.require("one weight per edge", len(w) == len(s))
    C.require("the graph is marked undirected exactly when it was symmetrised", g.directed == (cfg["sym"] == "none"))
    C.require("the graph has one node per row", g.n_nodes == n)
    want = [[False] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            a, b = dirp[i][j], dirp[j][i]
            want[i][j] = (cfg["loops"] if i == j else a if cfg["sym"] == "none" else Or(a, b) if cfg["sym"] == "or"
                          else And(a, b))
            C.require("the edges are those of the requested graph, each once",
                      eq(count([And(eq(p, i), eq(q, j)) for p, q in zip(s, d)]), If(want[i][j], 1, 0)))
    deg = [count([want[i][j] for j in range(n)]) for i in range(n)]
    for e in range(len(s)):
        for i in range(n):
            if cfg["norm"] == "none":
                C.require("unnormalised binary weights are one", eq(w[e], 1))
            elif cfg["norm"] == "rw":
                C.require("random-walk weights are one over the degree", Implies(eq(s[e], i), close(w[e] * deg[i], 1)))
            elif cfg["sym"] != "none":
                for j in range(n):
                    C.require("symmetric weights are one over the root of both degrees",
                              Implies(And(eq(s[e], i), eq(d[e], j)), close(w[e] * w[e] * deg[i] * deg[j], 1, 1e-4)))


# --- validation, masks ---------------------------------------------------------------

ART = ("modssc.graph.artifacts", "modssc.graph.masks", "modssc.graph.validation")


@harness("G05", modules=ART, compact=True, cfgs=[{"n": 2, "E": 2}, {"n": 3, "E": 1}, {"n": 1, "E": 2}],
         bounds="<=3 nodes, <=2 edges with every endpoint in -1..n, weight vectors of every length 0..3")
def artifact_validation(I, cfg, C):
    from modssc.graph.artifacts import GraphArtifact
    from modssc.graph.errors import GraphValidationError

    n, E = cfg["n"], cfg["E"]
    ei = I.arr("e", (2, E), "i", -1, n)
    m = I.pick_int("n_weights", 0, 3)
    w = I.arr("w", (m,), "r", 0, 1) if I.flag("has_w") else None
    ok = And([And(le(0, v), lt(v, n)) for v in flat(ei)])
    if w is not None:
        ok = And(ok, m == E)
    try:
        g = GraphArtifact(n_nodes=n, edge_index=ei, edge_weight=w)
    except GraphValidationError:
        C.require("a graph whose edges fit its nodes is accepted", Not(ok))
        return
    C.require("edges to nodes that do not exist and weight vectors of the wrong length are refused", ok)
    C.require("the edges are kept", same_seq(flat(g.edge_index), flat(ei)))
    if w is not None:
        C.require("the weights are kept", And([close(a, b) for a, b in zip(flat(g.edge_weight), flat(w))]))


@harness("G05", modules=ART, compact=True, cfgs=[{"n": 3, "lab": True}, {"n": 3, "lab": False}, {"n": 1, "lab": True}],
         bounds="<=3 nodes, every train/val/test/labeled index list of length <=2 with entries in -1..n")
def masks_from_index_lists(I, cfg, C):
    from modssc.graph.errors import GraphValidationError
    from modssc.graph.masks import masks_from_indices

    n = cfg["n"]
    L = {}
    for k, m in (("train", 2), ("val", 1), ("test", 1), ("labeled", 1)):
        L[k] = I.arr(k, (m,), "i", -1, n)
    lab = L["labeled"] if cfg["lab"] else None
    used = [v for k in L if k != "labeled" or cfg["lab"] for v in flat(L[k])]
    ok = And([And(le(0, v), lt(v, n)) for v in used])
    try:
        m = masks_from_indices(n=n, train_idx=L["train"], val_idx=L["val"], test_idx=L["test"], labeled_idx=lab).as_dict()
    except GraphValidationError:
        C.require("index lists inside the range are accepted", Not(ok))
        return
    C.require("indices outside the range are refused", ok)
    for i in range(n):
        for k in ("train", "val", "test"):
            C.require(f"the {k} mask marks exactly the listed nodes", Iff(flat(m[k])[i], member(i, flat(L[k]))))
        intr = member(i, flat(L["train"]))
        un = And(intr, Not(member(i, flat(L["labeled"])))) if cfg["lab"] else Not(intr)
        C.require("unlabeled nodes are the train nodes without label (all other nodes when no labels are named)",
                  Iff(flat(m["unlabeled"])[i], un))


# --- views ------------------------------------------------------------------------------

def _sparse(name, extra=None, **k):
    from symx import ext

    if name == "scipy.sparse":
        return ext.SPARSE
    raise ImportError(name)


VW = ("modssc.graph.featurization.ops.adjacency", "modssc.graph.featurization.views.diffusion",
      "modssc.graph.featurization.views.struct", "modssc.graph.featurization.api")
_SP = {"extra": {("modssc.graph.featurization.ops.adjacency", "optional_import"): _sparse}}


@harness("G06", modules=VW, compact=True, patch=_SP,
         cfgs=[{"n": 2, "E": 2, "w": True}, {"n": 3, "E": 2, "w": True}, {"n": 2, "E": 3, "w": False}],
         bounds="<=3 nodes, every edge list of <=3 edges (duplicates and loops included), every weight")
def adjacency_formats_agree(I, cfg, C):
    from modssc.graph.featurization.ops.adjacency import adjacency_from_edge_index

    n = cfg["n"]
    ei, w = _edges(I, n, cfg["E"], cfg["w"])
    P, V = _adj(ei, w, n, _agg_sum)
    csr = nested(adjacency_from_edge_index(n_nodes=n, edge_index=ei, edge_weight=w, format="csr").toarray())
    den = nested(adjacency_from_edge_index(n_nodes=n, edge_index=ei, edge_weight=w, format="dense"))
    for i in range(n):
        for j in range(n):
            C.require("the sparse matrix holds the total weight of each pair", close(csr[i][j], V[i][j], 1e-5))
            C.require("the dense matrix holds the total weight of each pair, like the sparse one",
                      close(den[i][j], V[i][j], 1e-5))


@harness("G06", modules=VW, compact=True, patch=_SP, nl=True,
         cfgs=[{"n": 2, "E": 2, "steps": 1, "w": False}, {"n": 2, "E": 2, "steps": 2, "w": False},
               {"n": 2, "E": 2, "steps": 1, "w": True}, {"n": 3, "E": 2, "steps": 0, "w": True},
               {"n": 3, "E": 2, "steps": 1, "w": False}, {"n": 3, "E": 2, "steps": 1, "w": True}],
         thorough=[{"n": 3, "E": 3, "steps": 1, "w": True}, {"n": 3, "E": 3, "steps": 3, "w": False}],
         bounds="<=3 nodes, every edge list of 2 (3) edges, weights and features, <=2 (3) steps, every teleport share")
def diffusion(I, cfg, C):
    from modssc.graph.featurization.views.diffusion import diffusion_view

    n, E = cfg["n"], cfg["E"]
    ei, w = _edges(I, n, E, cfg["w"])
    X = I.arr("X", (n, 1), "r", -2, 2, dtype=np.float32)
    a = I.choice("alpha", [0.0, 0.25, 1.0])
    x0 = flat(X.copy())
    s, d = nested(ei)
    ww = flat(w) if w is not None else [1.0] * E
    out = flat(diffusion_view(X=X, n_nodes=n, edge_index=ei, edge_weight=w, steps=cfg["steps"], alpha=a))
    C.require("one row per node", len(out) == n)
    C.require("the features are not modified", same_seq(flat(X), x0))
    h = list(x0)
    deg = [total([If(eq(s[e], i), ww[e], 0.0) for e in range(E)]) for i in range(n)]
    if cfg["steps"] == 0:
        C.require("no steps keep the features", And([close(p, q) for p, q in zip(out, x0)]))
        return
    if w is None:
        for _ in range(cfg["steps"]):
            nh = []
            for i in range(n):
                v = 0.0
                for k in range(E, 0, -1):
                    acc = total([If(And(eq(s[e], i), eq(d[e], j)), h[j], 0.0) for e in range(E) for j in range(n)])
                    v = If(eq(deg[i], k), acc * (1.0 / k), v)
                nh.append(v * (1 - a) + x0[i] * a)
            h = nh
        C.require("each step averages the out-neighbours and mixes in the original features",
                  And([close(p, q, 1e-4) for p, q in zip(out, h)]))
    else:
        for i in range(n):
            acc = total([If(And(eq(s[e], i), eq(d[e], j)), ww[e] * x0[j], 0.0) for e in range(E) for j in range(n)])
            C.require("one weighted step averages the out-neighbours and mixes in the original features",
                      close((out[i] - x0[i] * a) * deg[i], acc * (1 - a), 1e-3))
    for v in out:
        C.require("diffusion never leaves the range of the features",
                  Implies(And([lt(0, q) for q in deg]), And(lec(-2, v, 1e-4), lec(v, 2, 1e-4))))


@harness("G06", modules=VW, compact=True,
         cfgs=[{"n": 2, "E": 2, "m": "deepwalk"}, {"n": 3, "E": 2, "m": "node2vec"}, {"n": 3, "E": 3, "m": "deepwalk"}],
         thorough=[{"n": 3, "E": 3, "m": "node2vec"}],
         bounds="<=3 nodes, every edge list of <=3 edges, walks of 3 nodes, every random choice, p=2 q=1/2")
def random_walks_follow_edges(I, cfg, C):
    from modssc.graph.featurization.views import struct as st

    n, E = cfg["n"], cfg["E"]
    ei, _ = _edges(I, n, E, False)
    s, d = nested(ei)
    prm = st.StructParams(method=cfg["m"], walk_length=3, num_walks_per_node=1, window_size=1, p=2.0, q=0.5, dim=2)
    nb, ns = st._build_neighbors(ei, n_nodes=n, with_sets=cfg["m"] == "node2vec")
    walks = st._random_walks(neighbors=nb, neighbor_sets=ns, params=prm, seed=4)
    C.require("one walk per node and repetition", len(walks) == n)
    for i, w in enumerate(walks):
        w = flat(w)
        C.require("walks start at their node and have the requested length", And(len(w) == 3, eq(w[0], i)))
        for a, b in zip(w, w[1:]):
            edge = Or([And(eq(p, a), eq(q, b)) for p, q in zip(s, d)])
            stuck = And([ne(p, a) for p in s])
            C.require("each step follows an edge, and stays only where there is none",
                      And(Or(edge, And(stuck, eq(a, b)))))
