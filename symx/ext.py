"""Stand-ins for third-party libraries (documented behaviour only)."""
from __future__ import annotations

import types

import numpy as np

from . import npshim
from .arr import SArr, mk, new_raw, sarr, to_real
from .core import Ctx, is_sym, ite, num_cmp, num_op, z_and


class Csr:
    """scipy.sparse matrix, kept dense; duplicates are summed as scipy does."""

    ndim = 2

    def __init__(self, dense):
        self.dense = dense
        self.shape = dense.shape
        self.dtype = dense.dtype

    @property
    def T(self):
        return Csr(self.dense.T)

    def tocsr(self, copy=False):
        return self

    tocoo = tocsc = copy = tocsr

    def toarray(self):
        return self.dense.copy()

    todense = toarray

    def dot(self, o):
        return self @ o

    def __matmul__(self, o):
        r = self.dense @ (o.dense if isinstance(o, Csr) else o)
        return Csr(r) if isinstance(o, Csr) else r

    def __mul__(self, o):
        return self @ o if not np.isscalar(o) and not is_sym(o) else Csr(self.dense * o)

    def sum(self, axis=None):
        return self.dense.sum(axis=axis)


def coo_matrix(arg, shape=None, dtype=None):
    if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
        data, (rows, cols) = arg
        out = npshim.NP.zeros(shape, dtype=sarr(data).dtype)
        npshim.NP.add.at(out, (rows, cols), data)
        return Csr(out)
    if isinstance(arg, Csr):
        return arg
    return Csr(sarr(arg))


SPARSE = types.SimpleNamespace(coo_matrix=coo_matrix, csr_matrix=coo_matrix, issparse=lambda x: isinstance(x, Csr))


class NearestNeighbors:
    """scikit-learn's exact neighbour search; order among equal distances is arbitrary."""

    def __init__(self, n_neighbors=5, radius=1.0, metric="euclidean", **k):
        self.k, self.r, self.metric = n_neighbors, radius, metric

    def fit(self, X):
        self.X = sarr(X)
        return self

    def _dist(self, Q):
        X = self.X
        out = []
        for i in range(Q.shape[0]):
            row = []
            for j in range(X.shape[0]):
                d = Q[i] - X[j]
                row.append((d * d).sum())
            out.append(row)
        return out

    def kneighbors(self, Q, return_distance=True):
        Q = sarr(Q)
        D = self._dist(Q)
        n = self.X.shape[0]
        idx_rows, d_rows = [], []
        rng = npshim.NP.random.default_rng()
        for row in D:
            tie = rng.permutation(n)  # arbitrary order among ties
            dd = npshim.NP.array([row[0]] * 0 + list(row))
            dt = dd[tie]
            o = npshim.NP.argsort(dt, kind="stable")[: self.k]
            idx = tie[o]
            idx_rows.append(idx)
            d_rows.append(npshim.NP.sqrt(dd[idx]))
        return npshim.NP.stack(d_rows), npshim.NP.stack(idx_rows)
