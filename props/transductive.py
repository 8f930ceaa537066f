"""Transductive methods: label clamping, hidden labels, cuts, harmonic solutions, operators."""
from __future__ import annotations

import itertools
import types

import numpy as np

from symx import npshim
from symx.core import Ctx, SymInt, SymBool, is_sym
from symx.ext import SPARSE, Csr
from symx.harness import harness
from symx.tshim import T, TM, TorchPatch
from symx.ops import (And, If, Iff, Implies, Not, Or, close, close_seq, count, eq, flat, le, lec, lt, member, ne, nested,
                      same_seq, total)

B = "modssc.transductive."
CLASSIC = B + "methods.classic."
UT = (B + "methods.utils", B + "operators.clamp", B + "validation", B + "backends.numpy_backend", B + "operators.normalize",
      B + "operators.spmm", B + "operators.laplacian", B + "solvers.cg", B + "solvers.fixed_point", CLASSIC + "common")
MODS = UT + tuple(CLASSIC + m for m in ("label_propagation", "label_spreading", "laplace_learning", "lazy_random_walk",
                                        "dynamic_label_propagation", "graph_mincuts"))
PDE = UT + tuple(B + "methods.pde." + m for m in ("poisson_learning", "poisson_mbo", "p_laplace_learning"))


def labels(I, n, k, name="y", lo=-1):
    """Valid label vector: ids in {-1, 0..k-1}, every class 0..k-1 occurs (validate_node_dataset)."""
    y = I.arr(name, (n,), "i", lo, k - 1)
    yl = flat(y)
    for c in range(k):
        I.assume(Or([eq(v, c) for v in yl]))
    return y


def edges(I, n, E, name="e", weights=True, fixed=None, wlo=0.125, whi=4):
    if fixed is not None:
        ei = np.array(fixed, dtype=np.int64).reshape(2, -1)
        E = ei.shape[1]
        if is_symbolic(I):
            ei = npshim.NP.asarray(ei)
        if isinstance(weights, (list, tuple)):
            w = np.array(weights, dtype=np.float32)
            return ei, npshim.NP.asarray(w) if is_symbolic(I) else w
    else:
        ei = I.arr(name, (2, E), "i", 0, n - 1)
    w = I.arr(name + "_w", (E,), "r", wlo, whi, dtype=np.float32) if weights else None
    return ei, w


def is_symbolic(I):
    return Ctx.cur is not None


def mask(I, n, name="m"):
    m = I.arr(name, (n,), "b")
    return m


def onehot(y, m, k):
    return [[If(And(m[i], eq(y[i], c)), 1.0, 0.0) for c in range(k)] for i in range(len(y))]


def adj(ei, w, n):
    """A[dst][src] as sums over parallel edges."""
    s, d = nested(ei)
    w = flat(w) if w is not None else [1.0] * len(s)
    return [[total([If(And(eq(d[e], i), eq(s[e], j)), w[e], 0.0) for e in range(len(s))]) for j in range(n)] for i in range(n)]


# ---------------------------------------------------------------- T01 labelled nodes keep their labels
def _run(name, **kw):
    import importlib

    if name in ("label_propagation", "label_spreading", "laplace_learning", "lazy_random_walk", "dynamic_label_propagation"):
        m = importlib.import_module(CLASSIC + name)
    else:
        m = importlib.import_module(B + "methods.pde." + name)
    return m


def call(name, n, ei, w, y, m, be="numpy", **spec):
    mod = _run(name)
    cls = {"label_propagation": "LabelPropagationSpec", "label_spreading": "LabelSpreadingSpec",
           "laplace_learning": "LaplaceLearningSpec", "lazy_random_walk": "LazyRandomWalkSpec",
           "dynamic_label_propagation": "DynamicLabelPropagationSpec", "poisson_learning": "PoissonLearningSpec",
           "poisson_mbo": "PoissonMBOSpec", "p_laplace_learning": "PLaplaceLearningSpec"}[name]
    sp = getattr(mod, cls)(**spec)
    pde = mod.__name__.endswith(("_mbo", "poisson_learning", "p_laplace_learning"))
    if be == "torch" and (pde or name == "dynamic_label_propagation"):
        t = TM()
        r = getattr(mod, name + "_torch")(
            n_nodes=n, edge_index=T(ei, "int64"), edge_weight=None if w is None else T(w, "float32"), y=T(y, "int64"),
            labeled_mask=T(m, "bool"), spec=sp)
        return r if hasattr(r, "F") else types.SimpleNamespace(F=r[0])
    if pde:
        fn = getattr(mod, name + "_numpy")
        return fn(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=m, spec=sp)
    return getattr(mod, name)(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=m, spec=sp, backend=be)


PATH3 = [[0, 1, 1, 2], [1, 0, 2, 1]]
TRI = [[0, 1, 1, 2, 0, 2], [1, 0, 2, 1, 2, 0]]


@harness("T01", modules=MODS, compact=True, nl=True,
         cfgs=[{"m": "label_propagation", "n": 3, "E": 3, "k": 2, "it": 1}, {"m": "label_propagation", "n": 3, "k": 2, "g": PATH3, "it": 2},
               {"m": "label_propagation", "n": 3, "k": 3, "g": TRI, "it": 2, "rows": False},
               {"m": "label_propagation", "n": 4, "E": 2, "k": 3, "it": 1},
               {"m": "label_propagation", "n": 3, "k": 2, "g": PATH3, "it": 2, "norm": "sym"},
               {"m": "laplace_learning", "n": 3, "k": 2, "g": TRI}, {"m": "laplace_learning", "n": 3, "k": 3, "E": 2, "w": False},
               {"m": "laplace_learning", "n": 3, "k": 2, "E": 3, "w": False},
               {"m": "dynamic_label_propagation", "n": 3, "k": 2, "g": PATH3, "it": 2, "w": False},
               {"m": "dynamic_label_propagation", "n": 3, "k": 2, "g": PATH3, "it": 1},
               {"m": "label_propagation", "n": 3, "E": 3, "k": 2, "it": 1, "be": "torch"},
               {"m": "label_propagation", "n": 3, "k": 2, "g": PATH3, "it": 2, "be": "torch"},
               {"m": "label_propagation", "n": 3, "k": 3, "g": TRI, "it": 2, "rows": False, "be": "torch"},
               {"m": "label_propagation", "n": 3, "k": 2, "g": PATH3, "it": 2, "norm": "sym", "be": "torch"},
               {"m": "laplace_learning", "n": 3, "k": 2, "g": TRI, "be": "torch"}, {"m": "laplace_learning", "n": 3, "k": 3, "E": 2, "w": False, "be": "torch"},
               {"m": "dynamic_label_propagation", "n": 3, "k": 2, "g": PATH3, "it": 2, "w": False, "be": "torch"},
               {"m": "dynamic_label_propagation", "n": 3, "k": 2, "g": PATH3, "it": 1, "be": "torch"}],
         contexts=(TorchPatch,),
         thorough=[{"m": "label_propagation", "n": 4, "E": 4, "k": 3, "it": 1}, {"m": "label_propagation", "n": 3, "E": 3, "k": 2, "it": 3}],
         bounds="<=4 nodes, <=3 (4) free directed edges or a fixed path/triangle with free weights, 2-3 classes, every label "
         "vector and mask, <=2 (3) iterations")
def clamped(I, cfg, C):
    n, k, name = cfg["n"], cfg["k"], cfg["m"]
    ei, w = edges(I, n, cfg.get("E"), weights=cfg.get("w", True), fixed=cfg.get("g"))
    y, m = labels(I, n, k), mask(I, n)
    yl, ml = flat(y.copy()), flat(m.copy())
    for i in range(n):
        I.assume(Implies(ml[i], le(0, yl[i])))
    I.assume(Or(ml))
    spec = {"max_iter": cfg["it"]} if "it" in cfg else {}
    if "rows" in cfg:
        spec["normalize_rows"] = cfg["rows"]
    if "norm" in cfg:
        spec["norm"] = cfg["norm"]
    try:
        r = call(name, n, ei, w, y, m, cfg.get("be", "numpy"), **spec)
    except ValueError as exc:
        msg = str(exc)
        # documented refusals: a node the labels cannot reach / an isolated node
        C.require("a valid dataset is only refused for a disconnected graph",
                  (name == "laplace_learning" and "nonsingular" in msg)
                  or (name == "dynamic_label_propagation" and ("isolated" in msg or "zero row sum" in msg)))
        return
    F = nested(r.F)
    C.require("one row per node", len(F) == n)
    C.require("one column per class", len(F[0]) == k)
    for i in range(n):
        for c in range(k):
            C.require("a labelled node keeps its label", Implies(ml[i], close(F[i][c], If(eq(yl[i], c), 1.0, 0.0))))
    if name == "label_propagation" and cfg.get("rows", True):
        for i in range(n):
            tot = total(F[i])
            C.require("scores are shares", And(And([lec(0, v) for v in F[i]]), Or(close(tot, 0), close(tot, 1))))


# ---------------------------------------------------------------- T02 hidden labels do not influence the result
CYC4, W8 = [[0, 1, 1, 2, 2, 3, 3, 0], [1, 0, 2, 1, 3, 2, 0, 3]], [1, 1, 2, 2, .5, .5, 3, .25]
HID = [{"m": "label_propagation", "n": 3, "E": 2, "k": 2, "it": 1}, {"m": "label_propagation", "n": 3, "k": 2, "g": PATH3, "it": 3},
       {"m": "label_spreading", "n": 3, "k": 2, "g": TRI, "it": 3, "w": [1, 2, 1, 1, .5, 2]},
       {"m": "label_spreading", "n": 3, "k": 3, "g": PATH3, "it": 2, "w": [1, 2, 1, .5]},
       {"m": "label_propagation", "n": 4, "k": 3, "g": CYC4, "it": 2, "w": W8},
       {"m": "label_spreading", "n": 4, "k": 2, "g": CYC4, "it": 2, "w": W8, "rows": False},
       {"m": "laplace_learning", "n": 3, "k": 2, "g": PATH3, "w": False}, {"m": "laplace_learning", "n": 4, "k": 3, "g": TRI, "w": False},
       {"m": "lazy_random_walk", "n": 3, "k": 2, "g": PATH3, "w": False}, {"m": "lazy_random_walk", "n": 3, "k": 2, "g": TRI, "w": [1, 2, 1, 1, .5, 2]},
       {"m": "dynamic_label_propagation", "n": 3, "k": 2, "g": PATH3, "it": 2, "w": False},
       {"m": "dynamic_label_propagation", "n": 4, "k": 3, "g": [[0, 1, 2, 3], [1, 0, 3, 2]], "it": 1, "w": False}]


def build(vals, dtype):
    return npshim.NP.array(vals, dtype=dtype) if is_symbolic(None) else np.array(vals, dtype=dtype)


def two_label_vectors(I, n, k, fork=False):
    """Mask (forked), and two label vectors that share the entries of the labelled nodes."""
    ml = [bool(v) for v in flat(mask(I, n))]
    I.assume(Or(ml))
    common = [(I.pick_int if fork else I.int)(f"y{i}", 0, k - 1) if ml[i] else None for i in range(n)]
    vs = []
    for nm in ("a", "b"):
        v = [common[i] if ml[i] else I.int(f"{nm}{i}", -1, k - 1) for i in range(n)]
        for c in range(k):
            I.assume(Or([eq(x, c) for x in v]))
        vs.append(build(v, np.int64))
    return vs[0], vs[1], build(ml, bool)


def outcome(fn):
    try:
        r = fn()
        return None, r
    except (ValueError, RuntimeError) as exc:
        return type(exc).__name__ + str(exc)[:40], None


def compare(C, o1, o2):
    (e1, r1), (e2, r2) = o1, o2
    C.require("the run is refused for one set of hidden labels exactly when it is for any other", e1 == e2)
    if e1 is not None or e2 is not None:
        return
    F1, F2 = nested(r1.F), nested(r2.F)
    C.require("hidden labels change no shape", [len(x) for x in F1] == [len(x) for x in F2])
    for a, b in zip(F1, F2):
        C.require("hidden labels change no score", close_seq(a, b))


HID[2]["it"] = 2  # three iterations: thorough tier
HID_TORCH = [{**c, "be": "torch"} for c in HID[1:]]
HID_DEEP = [HID[4], HID[5], *HID_TORCH[3:5], {**HID[2], "it": 3}]
HID = HID[:4] + [{**HID[4], "it": 1}] + HID[6:] + HID_TORCH[:3] + [{**HID_TORCH[4], "it": 1}] + HID_TORCH[5:]


@harness("T02", modules=MODS, compact=True, nl=True, cfgs=HID, contexts=(TorchPatch,), thorough=HID_DEEP + [
    {"m": "label_propagation", "n": 3, "E": 3, "k": 2, "it": 1}, {"m": "label_spreading", "n": 3, "E": 2, "k": 2, "it": 1, "w": False}],
         bounds="<=4 nodes, <=3 free directed edges or fixed path/triangle, 2-3 classes, every pair of label vectors that "
         "agree on the labelled nodes (and use the same number of classes), <=3 iterations")
def hidden_labels(I, cfg, C):
    n, k, name = cfg["n"], cfg["k"], cfg["m"]
    ei, w = edges(I, n, cfg.get("E"), weights=cfg.get("w", True), fixed=cfg.get("g"))
    y1, y2, m = two_label_vectors(I, n, k, isinstance(cfg.get("w"), list))
    spec = {"max_iter": cfg["it"]} if "it" in cfg else {}
    if "rows" in cfg:
        spec["normalize_rows"] = cfg["rows"]
    be = cfg.get("be", "numpy")
    compare(C, outcome(lambda: call(name, n, ei, w, y1, m, be, **spec)), outcome(lambda: call(name, n, ei, w, y2, m, be, **spec)))


PDE_CFGS = [{"m": "poisson_learning", "n": 3, "k": 2, "g": PATH3, "w": False, "it": 1},
               {"m": "poisson_learning", "n": 3, "k": 3, "g": PATH3, "w": False, "it": 1},
               {"m": "poisson_mbo", "n": 3, "k": 2, "g": PATH3, "w": False},
               {"m": "poisson_mbo", "n": 3, "k": 2, "g": PATH3, "w": False, "b_strategy": "uniform"},
               {"m": "p_laplace_learning", "n": 3, "k": 2, "g": PATH3, "w": False}]
PDE_CFGS += [{**c, "be": "torch"} for c in PDE_CFGS[:2]]
PDE_DEEP = [PDE_CFGS.pop(1)]


@harness("T02", modules=PDE, compact=True, nl=True, cfgs=PDE_CFGS, thorough=PDE_DEEP, contexts=(TorchPatch,),
         bounds="3-4 nodes on a path/triangle, 2-3 classes, every pair of label vectors that agree on the labelled nodes, "
         "1-2 iterations of each inner loop")
def hidden_labels_pde(I, cfg, C):
    n, k, name = cfg["n"], cfg["k"], cfg["m"]
    ei, w = edges(I, n, None, weights=cfg["w"], fixed=cfg["g"])
    y1, y2, m = two_label_vectors(I, n, k)
    spec = {"poisson_learning": {"max_iter": 1}, "poisson_mbo": {"T": 1, "Ninner": 1, "Nouter": 1, "n_volume_iters": 1},
            "p_laplace_learning": {"max_iter": 1, "cg_max_iter": 1, "p": 2.0}}[name]
    if "b_strategy" in cfg:
        spec["b_strategy"] = cfg["b_strategy"]
    be = cfg.get("be", "numpy")
    compare(C, outcome(lambda: call(name, n, ei, w, y1, m, be, **spec)), outcome(lambda: call(name, n, ei, w, y2, m, be, **spec)))


# ---------------------------------------------------------------- T03 minimum cuts
class FlowCsr(Csr):
    """Dense matrix in CSR clothing (explicit zeros are allowed in CSR)."""

    def __sub__(self, o):
        return FlowCsr(self.dense - o.dense)

    @property
    def indptr(self):
        n = self.shape[0]
        return np.arange(0, n * n + 1, n)

    @property
    def indices(self):
        n = self.shape[0]
        return np.tile(np.arange(n), n)

    @property
    def data(self):
        return self.dense.reshape(-1)


def _coo(arg, shape=None, dtype=None):
    data, (r, c) = arg
    out = npshim.NP.zeros(shape, dtype=dtype or np.int64)
    npshim.NP.add.at(out, (r, c), data)
    return types.SimpleNamespace(tocsr=lambda: FlowCsr(out))


def max_flow(cap, source, sink):
    """Contract of scipy.sparse.csgraph.maximum_flow: some maximum flow, as a signed (skew-symmetric) matrix."""
    ctx = Ctx.cur
    n = cap.shape[0]
    c = nested(cap.dense)
    f = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            v = SymInt(ctx.fresh("flow", "i"))
            f[i][j], f[j][i] = v, -v
    cons = [And(le(f[i][j], c[i][j]), le(-f[i][j], c[j][i])) for i in range(n) for j in range(i)]
    for i in range(n):
        if i not in (source, sink):
            cons.append(eq(total(f[i]), 0))
    side = [SymBool(ctx.fresh("cut", "b")) for _ in range(n)]
    cons += [side[source], Not(side[sink])]
    value = total(f[source])
    cut = total([If(And(side[i], Not(side[j])), c[i][j], 0) for i in range(n) for j in range(n) if i != j])
    cons.append(eq(value, cut))  # a cut of equal value exists exactly when the flow is maximal
    r = And(cons)
    ctx.assert_(r.e if is_sym(r) else __import__("z3").BoolVal(bool(r)))
    ctx.model = None
    return types.SimpleNamespace(flow=FlowCsr(npshim.NP.array(f, dtype=np.int64)), flow_value=value)


def _opt(name, extra=None, **k):
    if name == "scipy.sparse":
        return types.SimpleNamespace(coo_matrix=_coo)
    return types.SimpleNamespace(maximum_flow=max_flow)


@harness("T03", modules=MODS, compact=True, patch={"extra": {(CLASSIC + "graph_mincuts", "optional_import"): _opt}},
         cfgs=[{"n": 3, "E": 3}, {"n": 2, "E": 3}, {"n": 3, "g": TRI}, {"n": 3, "E": 2, "w": False}, {"n": 4, "g": [[0, 1, 1, 2, 2, 3], [1, 0, 2, 1, 3, 2]]}],
         thorough=[{"n": 4, "E": 4}, {"n": 4, "g": [[0, 1, 1, 2, 2, 3, 3, 0], [1, 0, 2, 1, 3, 2, 0, 3]]}],
         bounds="<=4 nodes, <=3 (4) free directed edges or fixed path/triangle, every non-negative weight <=4, every scale "
         "of 1/4..8, every binary label vector and mask")
def mincut(I, cfg, C):
    from modssc.transductive.methods.classic.graph_mincuts import GraphMincutsSpec, graph_mincuts

    n = cfg["n"]
    ei, w = edges(I, n, cfg.get("E"), weights=cfg.get("w", True), fixed=cfg.get("g"), wlo=0)
    ids = I.choice("ids", [(0, 1), (1, 3)])
    ml = [bool(v) for v in flat(mask(I, n))]
    pos = [I.flag(f"pos{i}") if ml[i] else None for i in range(n)]
    I.assume(And(Or([p for p in pos if p is not None]), Or([Not(p) for p in pos if p is not None])))
    pos = [bool(p) if p is not None else None for p in pos]
    y = build([ids[1] if p else ids[0] if p is not None else I.int(f"h{i}", -1, 4) for i, p in enumerate(pos)], np.int64)
    scale, minc = I.choice("spec", [(1, 1), (2, 0), (1, 2)])
    spec = GraphMincutsSpec(capacity_scale=float(scale), min_capacity=minc)
    s, d = [list(r) for r in nested(ei.copy())]
    wl = flat(w.copy()) if w is not None else [1.0] * len(s)
    F = nested(graph_mincuts(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=build(ml, bool), spec=spec).F)
    side = []
    for i in range(n):
        C.require("scores are a hard assignment", And(Or(eq(F[i][1], 0), eq(F[i][1], 1)), eq(F[i][0] + F[i][1], 1)))
        side.append(eq(F[i][1], 1))
        if pos[i] is not None:
            C.require("labelled nodes stay on their side", Iff(side[i], pos[i]))
    # capacities: scaled, rounded to the nearest integer (any choice at exact halves), at least the minimum
    cap = []
    for e in range(len(s)):
        v = wl[e] * scale
        cap.append(v)
    rounded = npshim.NP.rint if is_symbolic(I) else np.rint
    cap = [If(lt(c, minc), minc, c) for c in [flat(rounded(build([v], np.float64)))[0] for v in cap]]
    cost = total([If(And(member_side(side, s[e], n), Not(member_side(side, d[e], n))), cap[e], 0) for e in range(len(s))])
    free = [i for i in range(n) if pos[i] is None]
    for bits in itertools.product((False, True), repeat=len(free)):
        alt = list(pos)
        for i, b in zip(free, bits):
            alt[i] = b
        other = total([If(And(member_side(alt, s[e], n), Not(member_side(alt, d[e], n))), cap[e], 0) for e in range(len(s))])
        C.require("no assignment that respects the labels cuts less", le(cost, other))


def member_side(side, v, n):
    return Or([And(eq(v, i), side[i]) for i in range(n)])


# ---------------------------------------------------------------- T04 published equations
@harness("T04", modules=MODS, compact=True, nl=True,
         cfgs=[{"n": 3, "g": TRI, "k": 2}, {"n": 3, "g": PATH3, "k": 2}, {"n": 3, "E": 3, "k": 2, "w": False}, {"n": 3, "g": [[0, 1, 1, 2, 1], [1, 0, 2, 1, 1]], "k": 2},
               {"n": 4, "g": [[0, 1, 1, 2, 2, 3], [1, 0, 2, 1, 3, 2]], "k": 2, "w": False},
               {"n": 3, "g": TRI, "k": 2, "be": "torch"}, {"n": 3, "g": [[0, 1, 1, 2, 1], [1, 0, 2, 1, 1]], "k": 2, "be": "torch"},
               {"n": 3, "E": 3, "k": 2, "w": False, "be": "torch"}],
         contexts=(TorchPatch,), thorough=[{"n": 4, "E": 4, "k": 2, "w": False}, {"n": 4, "E": 4, "k": 2, "w": False, "be": "torch"}],
         bounds="3-4 nodes, free directed edges with unit weights or fixed graphs (loops included) with free weights, every mask")
def harmonic(I, cfg, C):
    n, k = cfg["n"], cfg["k"]
    ei, w = edges(I, n, cfg.get("E"), weights=cfg.get("w", True), fixed=cfg.get("g"))
    y, m = labels(I, n, k, lo=0), mask(I, n)
    yl, ml = flat(y.copy()), [bool(v) for v in flat(m.copy())]
    I.assume(Or(ml))
    A = adj(ei, w, n)
    try:
        r = call("laplace_learning", n, ei, w, y, build(ml, bool), cfg.get("be", "numpy"))
    except ValueError:
        return
    F = nested(r.F)
    for i in range(n):
        if ml[i]:
            continue
        deg = total(A[i])
        for c in range(k):
            C.require("an unlabelled score is the weighted mean of its neighbours' scores",
                      close(deg * F[i][c], total([A[i][j] * F[j][c] for j in range(n)]), 1e-4))


@harness("T04", modules=MODS, compact=True, nl=True,
         cfgs=[{"m": "label_propagation", "n": 3, "E": 2, "it": 1}, {"m": "label_spreading", "n": 3, "g": TRI, "it": 1, "w": [1, 2, 1, 1, .5, 2]},
               {"m": "label_spreading", "n": 2, "E": 2, "it": 1}, {"m": "label_propagation", "n": 3, "g": PATH3, "it": 2},
               {"m": "label_propagation", "n": 3, "g": TRI, "it": 2, "w": [1, 2, 1, 1, .5, 2]},
               {"m": "label_spreading", "n": 3, "g": PATH3, "it": 2, "w": [1, 2, 1, 1]},
               {"m": "label_propagation", "n": 3, "E": 2, "it": 1, "be": "torch"}, {"m": "label_spreading", "n": 2, "E": 2, "it": 1, "be": "torch"},
               {"m": "label_spreading", "n": 3, "g": TRI, "it": 1, "w": [1, 2, 1, 1, .5, 2], "be": "torch"},
               {"m": "label_propagation", "n": 3, "g": PATH3, "it": 2, "be": "torch"}],
         contexts=(TorchPatch,),
         thorough=[{"m": "label_propagation", "n": 3, "E": 3, "it": 2}, {"m": "label_spreading", "n": 3, "E": 2, "it": 1}],
         bounds="2-3 nodes, <=3 free directed edges or fixed graphs, free or fixed weights, every mask, label vector and "
         "mixing share, 1-2 iterations")
def propagation_step(I, cfg, C):
    """F_{t+1} = P F_t with clamping, or alpha S F_t + (1 - alpha) Y."""
    n, k, name, it = cfg["n"], 2, cfg["m"], cfg["it"]
    ei, w = edges(I, n, cfg.get("E"), weights=cfg.get("w", True), fixed=cfg.get("g"))
    y, m = labels(I, n, k, lo=0), mask(I, n)
    yl, ml = flat(y.copy()), flat(m.copy())
    A = adj(ei, w, n)
    deg = [total(r) for r in A]
    Y = onehot(yl, ml, k)
    lp = name == "label_propagation"
    spec = {"max_iter": it, "normalize_rows": False, "tol": -1.0}
    if not lp:
        spec["alpha"] = alpha = I.real("alpha", 0, 0.875)
    F = nested(call(name, n, ei, w, y, m, cfg.get("be", "numpy"), **spec).F)
    G = Y
    for _ in range(it):
        if lp:
            # P F = (A F) / deg; nodes without in-edges receive nothing
            H = [[total([A[i][j] * G[j][c] for j in range(n)]) / If(lt(0, deg[i]), deg[i], 1.0) for c in range(k)] for i in range(n)]
            G = [[If(ml[i], Y[i][c], H[i][c]) for c in range(k)] for i in range(n)]
        else:
            root = npshim.NP.sqrt if is_symbolic(I) else np.sqrt
            g1 = [flat(root(build([If(lt(0, x), x, 1e-12)], np.float64)))[0] for x in deg]
            H = [[total([A[i][j] / (g1[i] * g1[j]) * G[j][c] for j in range(n)]) for c in range(k)] for i in range(n)]
            G = [[alpha * H[i][c] + (1 - alpha) * Y[i][c] for c in range(k)] for i in range(n)]
    for i in range(n):
        for c in range(k):
            C.require("each iteration is the published update", close(F[i][c], G[i][c], 1e-4))


@harness("T04", modules=MODS, compact=True, nl=True,
         cfgs=[{"n": 3, "g": TRI, "w": [1, 2, 1, 1, .5, 2]}, {"n": 3, "E": 2, "w": False}, {"n": 2, "E": 2}, {"n": 3, "g": PATH3, "w": False},
               {"n": 3, "g": TRI, "w": [1, 2, 1, 1, .5, 2], "be": "torch"}, {"n": 2, "E": 2, "be": "torch"}],
         contexts=(TorchPatch,), thorough=[{"n": 3, "E": 4, "w": False}, {"n": 3, "E": 2, "w": False, "be": "torch"}],
         bounds="2-3 nodes, <=3 (4) free directed edges or fixed graphs, every mask and label vector, three mixing shares")
def lazy_walk(I, cfg, C):
    """(I - alpha S) f = y with S = D^-1/2 W D^-1/2, W the symmetrized loop-free affinity; prediction is the sign of f."""
    n = cfg["n"]
    ei, w = edges(I, n, cfg.get("E"), weights=cfg.get("w", True), fixed=cfg.get("g"))
    y = labels(I, n, 2, lo=0)
    yl, ml = flat(y.copy()), [bool(v) for v in flat(mask(I, n))]
    alpha = I.choice("alpha", [0.25, 0.5, 0.75])
    A = adj(ei, w, n)
    W = [[0.0 if i == j else (A[i][j] + A[j][i]) / 2 for j in range(n)] for i in range(n)]
    deg = [total(r) for r in W]
    I.assume(Or(ml))
    try:
        F = nested(call("lazy_random_walk", n, ei, w, y, build(ml, bool), cfg.get("be", "numpy"), alpha=alpha).F)
    except ValueError:
        C.require("only graphs with isolated nodes are refused", Or([le(x, 0) for x in deg]))
        return
    two = And(Or([And(a, eq(b, 0)) for a, b in zip(ml, yl)]), Or([And(a, eq(b, 1)) for a, b in zip(ml, yl)]))
    # any g with (D - alpha W) g = D^{1/2} ... : with f = D^{1/2} g the sign of f is the sign of g, and
    # (D - alpha W) g = D^{1/2} y.  The matrix is strictly diagonally dominant, hence g is unique.
    root = npshim.NP.sqrt if is_symbolic(I) else np.sqrt
    M = [[(deg[i] if i == j else 0.0) - alpha * W[i][j] for j in range(n)] for i in range(n)]
    rhs = [flat(root(build([deg[i]], np.float64)))[0] * (If(eq(yl[i], 1), 1.0, -1.0) if ml[i] else 0.0) for i in range(n)]
    g = flat((npshim.NP if is_symbolic(I) else np).linalg.solve(build(M, np.float64), build(rhs, np.float64)))
    for i in range(n):
        C.require("hard assignment", And(Or(eq(F[i][0], 1), eq(F[i][1], 1)), eq(F[i][0] + F[i][1], 1)))
        C.require("a node takes the class of the sign of its walk score",
                  Implies(two, And(Implies(lt(1e-4, g[i]), eq(F[i][1], 1)), Implies(lt(g[i], -1e-4), eq(F[i][0], 1)))))


# ---------------------------------------------------------------- T05 operators and solvers
@harness("T05", modules=MODS, compact=True, nl=True,
         cfgs=[{"n": 3, "E": 2, "f": "backend"}, {"n": 2, "E": 3, "f": "utils"}, {"n": 3, "E": 0, "f": "backend"}, {"n": 2, "E": 3, "f": "op"},
               {"n": 2, "E": 3, "f": "vec"}, {"n": 3, "E": 2, "f": "deg"}, {"n": 3, "E": 3, "f": "aff"},
               {"n": 2, "E": 3, "f": "t_backend"}, {"n": 3, "E": 0, "f": "t_backend"}, {"n": 2, "E": 3, "f": "t_vec"}, {"n": 2, "E": 3, "f": "t_utils"},
               {"n": 3, "E": 2, "f": "t_deg"}],
         contexts=(TorchPatch,),
         bounds="<=3 nodes, <=3 directed edges (duplicates and loops included), every weight and feature")
def operators(I, cfg, C):
    n, E, f = cfg["n"], cfg["E"], cfg["f"]
    ei, w = edges(I, n, E)
    A = adj(ei, w, n)
    tor = f.startswith("t_")
    f = f.removeprefix("t_")
    if f == "deg":
        from modssc.transductive.methods import utils as mu

        deg = flat(mu.degrees_torch(n_nodes=n, edge_index=T(ei), edge_weight=T(w)) if tor
                   else mu.degrees_numpy(n_nodes=n, edge_index=ei, edge_weight=w))
        C.require("the degree is the weight of the incoming edges", close_seq(deg, [total(r) for r in A]))
        return
    if f == "aff":
        from modssc.transductive.methods.classic.common import build_affinity_matrix

        W = nested(build_affinity_matrix(n_nodes=n, edge_index=ei, edge_weight=w))
        for i in range(n):
            for j in range(n):
                C.require("the affinity is symmetric, loop-free and averages both directions",
                          close(W[i][j], 0.0 if i == j else (A[i][j] + A[j][i]) / 2))
        return
    X = I.arr("X", (n,) if f == "vec" else (n, 2), "r", -4, 4, dtype=np.float32)
    Xn = [[v] for v in flat(X.copy())] if f == "vec" else nested(X.copy())
    if f in ("backend", "vec"):
        from modssc.transductive.backends.numpy_backend import spmm
    elif f == "utils":
        from modssc.transductive.methods.utils import spmm_numpy as spmm
    else:
        from modssc.transductive.operators.spmm import spmm_numpy as spmm
    if tor:
        from modssc.transductive.methods.utils import spmm_torch as ut_spmm
        from modssc.transductive.operators.spmm import spmm_torch
        from modssc.transductive.types import DeviceSpec

        if f == "utils":
            out = ut_spmm(n_nodes=n, edge_index=T(ei), edge_weight=T(w), X=T(X))
        else:
            out = spmm_torch(n_nodes=n, edge_index=T(ei), edge_weight=T(w), X=T(X), device=DeviceSpec(device="cpu"))
    else:
        out = spmm(n_nodes=n, edge_index=ei, edge_weight=w, X=X)
    On = [[v] for v in flat(out)] if f == "vec" else nested(out)
    C.require("one row per node", len(On) == n)
    for i in range(n):
        for c in range(len(Xn[0])):
            C.require("each node receives the weighted features of its in-neighbours",
                      close(On[i][c], total([A[i][j] * Xn[j][c] for j in range(n)])))
    C.require("the inputs are not modified", And(same_seq(flat(X), [v for r in Xn for v in r])))


@harness("T05", modules=MODS, compact=True, nl=True,
         cfgs=[{"n": 3, "E": 3, "mode": "rw", "f": "backend"}, {"n": 2, "E": 2, "mode": "sym", "f": "backend"}, {"n": 3, "E": 2, "mode": "none", "f": "backend"},
               {"n": 3, "E": 3, "mode": "rw", "f": "utils"}, {"n": 2, "E": 2, "mode": "sym", "f": "utils"}, {"n": 2, "E": 0, "mode": "rw", "f": "backend"},
               {"n": 3, "E": 3, "mode": "rw", "f": "t_backend"}, {"n": 2, "E": 2, "mode": "sym", "f": "t_backend"},
               {"n": 3, "E": 2, "mode": "none", "f": "t_backend"}, {"n": 3, "E": 3, "mode": "rw", "f": "t_utils"},
               {"n": 2, "E": 2, "mode": "sym", "f": "t_utils"}],
         contexts=(TorchPatch,),
         bounds="<=3 nodes, <=3 directed edges, every weight in [1/8,4]")
def operator_normalization(I, cfg, C):
    n, E, mode = cfg["n"], cfg["E"], cfg["mode"]
    ei, w = edges(I, n, E)
    s, d = nested(ei.copy())
    wl = flat(w.copy())
    A = adj(ei, w, n)
    deg = [total(r) for r in A]
    if cfg["f"] == "backend":
        from modssc.transductive.operators.normalize import normalize_edges_numpy as norm
    else:
        from modssc.transductive.methods.utils import normalize_edge_weight_numpy as norm
    if cfg["f"] == "t_utils":
        from modssc.transductive.methods.utils import normalize_edge_weight_torch

        out = flat(normalize_edge_weight_torch(n_nodes=n, edge_index=T(ei), edge_weight=T(w), mode=mode))
    elif cfg["f"] == "t_backend":
        from modssc.transductive.operators.normalize import normalize_edges_torch
        from modssc.transductive.types import DeviceSpec

        out = flat(normalize_edges_torch(n_nodes=n, edge_index=T(ei), edge_weight=T(w), mode=mode, device=DeviceSpec(device="cpu")))
    else:
        out = flat(norm(n_nodes=n, edge_index=ei, edge_weight=w, mode=mode))
    C.require("one weight per edge", len(out) == E)
    C.require("the given weights are not modified", same_seq(flat(w), wl))
    for e in range(E):
        if mode == "none":
            C.require("mode none keeps the weights", close(out[e], wl[e]))
            continue
        for i in range(n):
            if mode == "rw":
                C.require("random-walk weights are shares of the receiver's degree",
                          Implies(eq(d[e], i), close(out[e] * deg[i], wl[e])))
                continue
            for j in range(n):
                dj = If(lt(0, deg[j]), deg[j], 1e-12)
                C.require("symmetric weights divide by the root of both degrees",
                          Implies(And(eq(d[e], i), eq(s[e], j), lt(0, deg[j])),
                                  And(lt(0, out[e]), close(out[e] * out[e] * deg[i] * dj, wl[e] * wl[e], 1e-4))))


@harness("T05", modules=UT, nl=True, compact=True,
         cfgs=[{"n": 1, "it": 2, "tol": 1e-3}, {"n": 2, "it": 1, "tol": 0.5}, {"n": 2, "it": 0, "tol": 0.5}, {"n": 1, "it": 1, "tol": 0.5, "x0": True},
               {"n": 1, "it": 2, "tol": 1e-3, "be": "torch"}, {"n": 2, "it": 1, "tol": 0.5, "be": "torch"}, {"n": 1, "it": 1, "tol": 0.5, "x0": True, "be": "torch"}],
         contexts=(TorchPatch,),
         thorough=[{"n": 2, "it": 1, "tol": 0.5, "x0": True}, {"n": 2, "it": 2, "tol": 1e-3}],
         bounds="<=2 unknowns, every symmetric positive definite matrix with entries <=4 and right-hand side in [-4,4], "
         "<=2 iterations")
def conjugate_gradient(I, cfg, C):
    from modssc.transductive.solvers.cg import cg_solve_numpy

    n = cfg["n"]
    P = npshim.NP if is_symbolic(I) else np
    if n == 1:
        M = build([[I.real("a", 0.25, 4)]], np.float64)
    else:
        a, b, c = I.real("a", 0.25, 4), I.real("b", -2, 2), I.real("c", 0.25, 4)
        I.assume(le(b * b + 0.0625, a * c))
        M = build([[a, b], [b, c]], np.float64)
    rhs = I.arr("rhs", (n,), "r", -4, 4)
    x0 = I.arr("x0", (n,), "r", -1, 1) if cfg.get("x0") else None
    x0c = flat(x0.copy()) if x0 is not None else None
    if cfg.get("be") == "torch":
        from modssc.transductive.solvers.cg import cg_solve_torch
        from modssc.transductive.types import DeviceSpec

        Mt = T(M)
        xt, info = cg_solve_torch(matvec=lambda x: Mt @ x, b=T(rhs), x0=None if x0 is None else T(x0), tol=cfg["tol"],
                                  max_iter=cfg["it"], device=DeviceSpec(device="cpu"))
        r = types.SimpleNamespace(x=xt, **info)
    else:
        r = cg_solve_numpy(matvec=lambda x: M @ P.asarray(x), b=rhs, x0=x0, tol=cfg["tol"], max_iter=cfg["it"])
    x = flat(r.x)
    res = [total([M[i, j] * x[j] for j in range(n)]) - rhs[i] for i in range(n)]
    nrm2 = total([v * v for v in res])
    if x0 is not None:
        C.require("the starting point is not modified", same_seq(flat(x0), x0c))
    C.require("never more iterations than allowed", And(le(0, r.n_iter), le(r.n_iter, cfg["it"])))
    C.require("a converged solution solves the system to the tolerance",
              Implies(r.converged, lec(nrm2, cfg["tol"] * cfg["tol"], 1e-4)))
    C.require("the reported residual is that of the returned solution",
              close(r.residual_norm * r.residual_norm, nrm2, 1e-3))
    if cfg["it"] >= n:
        C.require("as many steps as unknowns solve the system", lec(nrm2, cfg["tol"] * cfg["tol"], 1e-4))


@harness("T05", modules=MODS, compact=True, nl=True,
         cfgs=[{"n": 3, "kind": "rw", "w": [1, 2, 1, 1, .5, 2]}, {"n": 3, "kind": "sym", "w": [1, 2, 1, 1, .5, 2]}, {"n": 3, "kind": "rw", "w": True}],
         bounds="a triangle with fixed or free weights, every vector")
def laplacian(I, cfg, C):
    from modssc.transductive.operators.laplacian import laplacian_matvec_numpy

    n = cfg["n"]
    ei, w = edges(I, n, None, weights=cfg["w"], fixed=TRI)
    A = adj(ei, w, n)
    deg = [total(r) for r in A]
    x = I.arr("x", (n,), "r", -4, 4, dtype=np.float32)
    xl = flat(x.copy())
    out = flat(laplacian_matvec_numpy(n_nodes=n, edge_index=ei, edge_weight=w, kind=cfg["kind"])(x))
    root = npshim.NP.sqrt if is_symbolic(I) else np.sqrt
    for i in range(n):
        if cfg["kind"] == "rw":
            C.require("L x = x - D^-1 A x", close(deg[i] * (xl[i] - out[i]), total([A[i][j] * xl[j] for j in range(n)]), 1e-4))
        else:
            g = [flat(root(build([v], np.float64)))[0] for v in deg]
            C.require("L x = x - D^-1/2 A D^-1/2 x",
                      close(xl[i] - out[i], total([A[i][j] / (g[i] * g[j]) * xl[j] for j in range(n)]), 1e-4))


@harness("T05", modules=MODS, compact=True,
         cfgs=[{"n": 2, "k": 2}, {"n": 3, "k": 2}, {"n": 3, "k": 3, "fl": True}],
         bounds="2-3 nodes, ids in [-2,k], integer or real labels")
def one_hot_and_clamp(I, cfg, C):
    from modssc.transductive.operators.clamp import hard_clamp, labels_to_onehot, row_normalize

    n, k = cfg["n"], cfg["k"]
    y = I.arr("y", (n,), "r", -2, k) if cfg.get("fl") else I.arr("y", (n,), "i", -2, k)
    yl = flat(y.copy())
    good = And([Or([eq(v, c) for c in range(-2, k)]) for v in yl])
    try:
        Y = nested(labels_to_onehot(y, n_classes=k))
    except ValueError:
        C.require("only labels outside the classes are refused", Not(good))
        return
    C.require("labels outside the classes are refused", good)
    for i in range(n):
        for c in range(k):
            C.require("a node has a one exactly at its class, and no class when it is negative", eq(Y[i][c], If(eq(yl[i], c), 1.0, 0.0)))
    F = I.arr("F", (n, k), "r", -2, 2, dtype=np.float32)
    Fl = nested(F.copy())
    T = I.arr("T", (n, k), "r", -2, 2, dtype=np.float32)
    m = mask(I, n)
    out = nested(hard_clamp(F, T, m))
    Tl, ml = nested(T), flat(m)
    for i in range(n):
        for c in range(k):
            C.require("clamping replaces exactly the labelled rows", close(out[i][c], If(ml[i], Tl[i][c], Fl[i][c])))
    C.require("clamping works on a copy", And([same_seq(a, b) for a, b in zip(nested(F), Fl)]))


# ---------------------------------------------------------------- T06 the backends agree
@harness("T06", modules=MODS, compact=True, nl=True, contexts=(TorchPatch,),
         cfgs=[{"m": "label_propagation", "n": 3, "E": 2, "k": 2, "it": 2}, {"m": "label_propagation", "n": 3, "g": TRI, "k": 3, "it": 2},
               {"m": "label_propagation", "n": 3, "g": PATH3, "k": 2, "it": 2, "norm": "sym", "rows": False},
               {"m": "label_spreading", "n": 3, "g": TRI, "k": 2, "it": 1}, {"m": "label_spreading", "n": 2, "E": 2, "k": 2, "it": 2},
               {"m": "label_spreading", "n": 3, "g": PATH3, "k": 2, "it": 2, "norm": "rw", "rows": False},
               {"m": "laplace_learning", "n": 3, "g": TRI, "k": 2}, {"m": "laplace_learning", "n": 3, "g": PATH3, "k": 2},
               {"m": "laplace_learning", "n": 3, "E": 3, "k": 2, "w": False},
               {"m": "lazy_random_walk", "n": 3, "g": PATH3, "k": 2, "w": False}, {"m": "lazy_random_walk", "n": 3, "g": TRI, "k": 2, "w": [1, 2, 1, 1, .5, 2]},
               {"m": "dynamic_label_propagation", "n": 3, "g": TRI, "k": 2, "it": 2, "w": False},
               {"m": "dynamic_label_propagation", "n": 3, "g": PATH3, "k": 2, "it": 2},
               {"m": "dynamic_label_propagation", "n": 3, "g": TRI, "k": 2, "it": 1, "w": [1, 2, 4, .5, .5, 3], "kn": 1}],
         thorough=[{"m": "label_propagation", "n": 3, "E": 3, "k": 2, "it": 2}, {"m": "label_spreading", "n": 3, "E": 2, "k": 2, "it": 2},
                   {"m": "laplace_learning", "n": 4, "E": 4, "k": 2, "w": False}],
         bounds="2-3 (4) nodes, <=3 (4) free directed edges or a fixed path/triangle, free or fixed weights, every label vector "
         "and mask, <=2 iterations")
def backends_agree(I, cfg, C):
    n, k, name = cfg["n"], cfg["k"], cfg["m"]
    ei, w = edges(I, n, cfg.get("E"), weights=cfg.get("w", True), fixed=cfg.get("g"))
    y, m = labels(I, n, k), mask(I, n)
    yl, ml = flat(y.copy()), flat(m.copy())
    for i in range(n):
        I.assume(Implies(ml[i], le(0, yl[i])))
    I.assume(Or(ml))
    m = build([bool(v) for v in ml], bool)
    spec = {"max_iter": cfg["it"], "tol": -1.0} if "it" in cfg else {}
    if name.startswith("dyn"):
        spec.pop("tol")
        spec["k_neighbors"] = cfg.get("kn", 10)
    if "rows" in cfg:
        spec["normalize_rows"] = cfg["rows"]
    if "norm" in cfg:
        spec["norm"] = cfg["norm"]
    o1 = outcome(lambda: call(name, n, ei, w, y, m, "numpy", **spec))
    o2 = outcome(lambda: call(name, n, ei, w, y, m, "torch", **spec))
    C.require("both backends accept the same graphs", (o1[0] is None) == (o2[0] is None))
    if o1[0] is not None or o2[0] is not None:
        return
    F1, F2 = nested(o1[1].F), nested(o2[1].F)
    C.require("both backends return scores of one shape", [len(x) for x in F1] == [len(x) for x in F2])
    for a, b in zip(F1, F2):
        C.require("both backends return the same scores", close_seq(a, b, 1e-4))
    for f in ("n_iter", "residual"):
        v1, v2 = getattr(o1[1], f, None), getattr(o2[1], f, None)
        if v1 is not None and v2 is not None:
            C.require(f"both backends report the same {f}", close(v1, v2, 1e-4))


@harness("T06", modules=MODS, compact=True, nl=True, contexts=(TorchPatch,),
         cfgs=[{"n": 3, "g": TRI, "it": 1, "mode": "rw", "rows": False, "w": [1, 2, 1, 1, .5, 2]}, {"n": 3, "g": PATH3, "it": 2, "mode": "rw", "rows": True},
               {"n": 3, "g": TRI, "it": 1, "mode": "sym", "rows": False, "w": [1, 2, 1, 1, .5, 2]},
               {"n": 3, "g": PATH3, "it": 2, "mode": "none", "rows": False, "w": [1, 2, 1, .5]}],
         bounds="a path or triangle with free or fixed weights, every start matrix, mask and mixing share, 1-2 iterations")
def fixed_point_agree(I, cfg, C):
    from modssc.transductive.solvers.fixed_point import fixed_point_diffusion_numpy, fixed_point_diffusion_torch
    from modssc.transductive.types import DeviceSpec

    n = cfg["n"]
    ei, w = edges(I, n, None, fixed=cfg["g"], weights=cfg.get("w", True))
    Y = I.arr("Y", (n, 2), "r", 0, 1, dtype=np.float32)
    m = build([bool(v) for v in flat(mask(I, n))], bool)
    alpha = I.choice("alpha", [0.25, 0.75, 1.0])
    kw = dict(n_nodes=n, edge_index=ei, edge_weight=w, alpha=alpha, max_iter=cfg["it"], tol=-1.0, normalize_rows=cfg["rows"],
              norm_mode=cfg["mode"])
    A = adj(ei, w, n)
    Yl, ml = nested(Y.copy()), flat(m.copy())
    r1 = fixed_point_diffusion_numpy(Y=Y, train_mask=m, **kw)
    r2 = fixed_point_diffusion_torch(Y=T(Y), train_mask=T(m), device=DeviceSpec(device="cpu"), **kw)
    F1 = nested(r1.F)
    F2 = nested(r2["F"] if isinstance(r2, dict) else r2.F)
    for a, b in zip(F1, F2):
        C.require("both backends return the same scores", close_seq(a, b, 1e-4))
    if not cfg["rows"] and cfg["it"] == 1 and cfg["mode"] == "rw":
        for i in range(n):
            deg = total(A[i])
            for c in range(2):
                step = alpha * (total([A[i][j] * Yl[j][c] for j in range(n)]) / If(lt(0, deg), deg, 1.0)) + (1 - alpha) * Yl[i][c]
                C.require("one diffusion step with the labelled rows kept", close(F1[i][c], If(ml[i], Yl[i][c], step), 1e-4))
    C.require("the start matrix is not modified", And([same_seq(a, b) for a, b in zip(nested(Y), Yl)]))
