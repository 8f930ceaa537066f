"""Structural graph embeddings: biased walks, co-occurrence statistics, factorisation."""
from __future__ import annotations

import importlib
import math
from types import SimpleNamespace as NS

import numpy as np

from symx import npshim
from symx.core import Ctx
from symx.harness import Skip, harness
from symx.ops import And, Or, close, eq, flat, nested, same_seq
from symx.process import new_process

from .supervised import _setter

ST = "modssc.graph.featurization.views.struct"


class _Walker:
    """A generator whose choices are free; what it is asked is recorded."""

    cur = None

    def __init__(self, seed=None, *a):
        self.seed = seed
        _Walker.cur["seeds"].append(seed)

    def choice(self, a, size=None, replace=True, p=None, **k):
        if size is not None:
            raise Skip()
        c, vals = _Walker.cur, [int(v) for v in flat(a)]
        i = c["script"][len(c["asked"])] if c["script"] is not None else c["I"].pick_int(f"pick{len(c['asked'])}", 0, len(vals) - 1)
        c["asked"].append((vals, None if p is None else list(flat(p)), i))
        return vals[i]

    def __getattr__(self, nm):     # drawn in another way: this harness cannot follow
        raise Skip()


class _Lin:
    def svd(self, M, full_matrices=True, **k):
        c = _Walker.cur
        M = nested(M)
        n = len(M)
        c["matrix"].append(M)
        if not c["U"]:
            c["U"].append((c["I"].arr("U", (n, n), "r", -1, 1), c["I"].arr("S", (n,), "r", 0, 9)))
        U, S = c["U"][0]
        return U, S, U

    def __getattr__(self, nm):
        raise Skip()


class _Np:
    """numpy with free draws and a free singular value decomposition."""

    def __getattr__(self, nm):
        base = npshim.NP if Ctx.cur is not None else np
        if nm == "random":
            return NS(default_rng=_Walker, Generator=_Walker)
        return _Lin() if nm == "linalg" else getattr(base, nm)


class _Sparse:
    def __init__(self, args, shape=None, **k):
        data, (rows, cols) = args
        M = [[0.0] * shape[1] for _ in range(shape[0])]
        for v, r, c in zip(flat(data), flat(rows), flat(cols)):
            M[int(r)][int(c)] += v
        self.M = M


class _TSVD:
    def __init__(self, n_components=2, random_state=None, **k):
        self.n, self.seed = n_components, random_state

    def fit_transform(self, X):
        c = _Walker.cur
        c["matrix"].append(X.M)
        c["svd_seeds"].append(self.seed)
        return c["I"].arr("emb" if c["script"] is None else "emb_again", (len(X.M), self.n), "r", -1, 1)


def _import(nm, **k):
    return NS(csr_matrix=_Sparse, coo_matrix=_Sparse) if "sparse" in nm else NS(TruncatedSVD=_TSVD)


_STAND = _setter({(ST, "np"): _Np(), (ST, "optional_import"): _import})
RING = [(0, 1), (1, 2), (2, 0), (1, 0), (2, 1)]


@harness("G08", modules=(ST,), contexts=(_STAND,), replay_contexts=(_STAND,), compact=True,
         cfgs=[{"g": RING, "n": 3, "m": "node2vec", "L": 3, "W": 1, "w": 1}, {"g": RING[:3], "n": 3, "m": "node2vec", "L": 4, "W": 1, "w": 2, "free": 1},
               {"g": RING[:2], "n": 3, "m": "deepwalk", "L": 3, "W": 2, "w": 2, "free": 1}, {"g": [(0, 1), (1, 0)], "n": 3, "m": "node2vec", "L": 3, "W": 2, "w": 1, "dim": 4},
               {"g": RING, "n": 3, "m": "node2vec", "L": 3, "W": 1, "w": 2, "sparse": True}, {"g": [(0, 1), (0, 1), (1, 2)], "n": 3, "m": "deepwalk", "L": 4, "W": 1, "w": 9},
               {"g": RING[:3], "n": 3, "m": "deepwalk", "L": 1, "W": 1, "w": 1}],
         thorough=[{"g": RING + [(0, 2)], "n": 3, "m": "node2vec", "L": 4, "W": 1, "w": 1}, {"g": RING[:2], "n": 3, "m": "node2vec", "L": 4, "W": 1, "w": 2, "free": 2},
                   {"g": RING, "n": 4, "m": "node2vec", "L": 4, "W": 1, "w": 2, "free": 1}],
         bounds="3 (4) nodes, 2-5 fixed and 0-1 (2) free edges, 1-2 walks of 1-4 nodes per node, windows 1-9, every choice made on the walks; p=2, q=1/4")
def embeddings_factorise_walk_statistics(I, cfg, C):
    st = importlib.import_module(ST)
    n, L, W, w = cfg["n"], cfg["L"], cfg["W"], cfg["w"]
    edges = [tuple(e) for e in cfg["g"]]
    for k in range(cfg.get("free", 0)):
        edges.append((I.pick_int(f"src{k}", 0, n - 1), I.pick_int(f"dst{k}", 0, n - 1)))
    out = {i: [d for s, d in edges if s == i] for i in range(n)}
    dim, sparse = cfg.get("dim", 2), cfg.get("sparse", False)
    prm = st.StructParams(method=cfg["m"], dim=dim, walk_length=L, num_walks_per_node=W, window_size=w, p=2.0, q=0.25, max_dense_nodes=2 if sparse else 100)
    ei, runs = np.array(edges, dtype=np.int64).T.copy(), []
    _Walker.cur = None
    for again in (False, True):
        prev = _Walker.cur
        _Walker.cur = {"I": I, "seeds": [], "asked": [], "matrix": [], "U": prev["U"] if prev else [], "svd_seeds": [],
                       "script": [i for _, _, i in prev["asked"]] if prev else None}
        if again:
            new_process()
        emb = st.struct_embeddings(edge_index=ei, n_nodes=n, params=prm, seed=5)
        runs.append((_Walker.cur, nested(emb)))
    (c, emb), (c2, emb2) = runs
    C.require("the seed decides every draw", c["seeds"] == c2["seeds"] and None not in c["seeds"] and c["svd_seeds"] == c2["svd_seeds"] and None not in c["svd_seeds"])
    # walk again with the recorded choices
    asked, walks = list(c["asked"]), []
    for start in range(n):
        for _ in range(W):
            walk, before = [start], None
            while len(walk) < L:
                at = walk[-1]
                if not out[at]:
                    walk.append(at)
                    before = at
                    continue
                C.require("each step chooses among the out-neighbours", bool(asked) and sorted(asked[0][0]) == sorted(out[at]))
                if not asked or sorted(asked[0][0]) != sorted(out[at]):
                    return
                vals, p, i = asked.pop(0)
                if cfg["m"] == "node2vec" and before is not None:
                    bias = [0.5 if v == before else 1.0 if v in out[before] else 4.0 for v in vals]
                    p = p or [1 / len(vals)] * len(vals)
                    C.require("steps are weighted 1/p back, 1 to common neighbours, 1/q further out",
                              And([close(a * sum(bias), b, 1e-4) for a, b in zip(p, bias)]))
                else:
                    C.require("steps are unweighted", p is None or And([close(a * len(vals), 1, 1e-4) for a in p]))
                before = at
                walk.append(vals[i])
            walks.append(walk)
    C.require("no further choices are made", not asked)
    N = [[0] * n for _ in range(n)]
    for walk in walks:
        for i in range(L):
            for j in range(L):
                if i != j and abs(i - j) <= w:
                    N[walk[i]][walk[j]] += 1
    tot = sum(map(sum, N))
    want = [[max(0.0, math.log(N[i][j] * tot / (sum(N[i]) * sum(r[j] for r in N)))) if N[i][j] else 0.0 for j in range(n)] for i in range(n)]
    M = c["matrix"][0]
    C.require("the matrix is the positive pointwise mutual information of the window counts",
              And([close(a, b, 1e-4) for r, q in zip(M, want) for a, b in zip(r, q)]))
    C.require("one row per node and the asked number of columns", len(emb) == n and all(len(r) == dim for r in emb))
    if not sparse:
        U, S = nested(c["U"][0][0]), flat(c["U"][0][1])
        C.require("the embedding is the scaled leading left singular vectors, padded with zeros",
                  And([close(emb[i][k], U[i][k] * S[k] if k < n else 0.0, 1e-4) for i in range(n) for k in range(dim)]))
