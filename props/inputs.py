"""Inputs of the semi-supervised methods: checked completely, handed over unchanged."""
from __future__ import annotations

from types import SimpleNamespace as NS

import numpy as np

from symx.harness import harness
from symx.ops import And, Iff, Implies, Not, Or, eq, flat, le, lt, ne, nested, same_seq

from .supervised import T, TorchPatch

TV = ("modssc.transductive.validation", "modssc.utils.numpy")
IV = ("modssc.inductive.validation", "modssc.inductive.adapters.numpy", "modssc.utils.numpy")


@harness("M01", modules=TV, compact=True, max_paths=4000,
         cfgs=[{"n": 3, "E": 2, "y": "i"}, {"n": 3, "E": 0, "y": "i"}, {"n": 2, "E": 1, "y": "r"}, {"n": 1, "E": 1, "y": "i"}], thorough=[{"n": 4, "E": 1, "y": "i"}],
         bounds="<=4 nodes, every label vector with entries in -2..n (reals too), every edge list of <=2 edges with ends in -1..n, "
         "label vectors and masks one too short or too long, transposed edge lists")
def node_dataset(I, cfg, C):
    from modssc.transductive.errors import TransductiveValidationError
    from modssc.transductive.validation import validate_node_dataset

    n, E = cfg["n"], cfg["E"]
    ny = n + I.choice("extra_labels", [0, 1])
    y = I.arr("y", (ny,), "i", -2, n) if cfg["y"] == "i" else I.arr("y", (ny,), "r", -2, n)
    fault = I.choice("fault", [None, "x1d", "y2d", "edges", "mask", "nograph"])
    ei = I.arr("e", (2, E) if fault != "edges" else (3, max(E, 1)), "i", -1, n)
    key = I.choice("mask", ["train_mask", "val_mask", "test_mask", "unlabeled_mask"])
    masks = {key: np.ones(n + (fault == "mask"), bool)}
    if I.flag("masks_are_none") and fault != "mask":
        masks = None
    X = np.zeros((n,) if fault == "x1d" else (n, 2), np.float32)
    yl, el = flat(y.copy()), flat(ei.copy())
    ok = And(fault is None, ny == n, And([And(le(0, v), lt(v, n)) for v in el]))
    top = [Or([eq(v, c) for v in yl]) for c in range(n + 1)]
    ok = And(ok, And([Implies(top[c + 1], top[c]) for c in range(n)]))     # no class id is skipped
    if cfg["y"] == "r":
        ok = And(ok, And([Or([eq(v, c) for c in range(-2, n + 1)]) for v in yl]))
    data = NS(X=X, y=y.reshape(-1, 1) if fault == "y2d" else y, graph=None if fault == "nograph" else NS(edge_index=ei), masks=masks, meta=None)
    try:
        validate_node_dataset(data)
        valid = True
    except TransductiveValidationError:
        valid = False
    C.require("a node dataset is accepted exactly when its parts fit together", ok if valid else Not(ok))
    C.require("validation changes nothing", And(same_seq(flat(data.y), yl), same_seq(flat(ei), el)))


PARTS = ("X_u", "X_u_w", "X_u_s")


def _bundle(I, torch=False):
    """A labelled/unlabelled bundle with solver-chosen sizes; whether its parts fit together."""
    mk = T if torch else (lambda a: a)
    nl, d = 2, I.choice("features", [1, 2])
    vals = {"X_l": I.arr("X_l", (nl, d), "r", -1, 1, dtype=np.float32), "y_l": I.arr("y_l", (I.choice("n_labels", [nl, 1, 3]),), "i", 0, 3)}
    ok = vals["y_l"].shape[0] == nl
    fault = I.choice("fault", [None, "flat", "width", "views", "type"])
    rows = {}
    for k in PARTS:
        if I.flag("has_" + k):
            rows[k] = r = I.choice("rows_" + k, [1, 2])
            w = d + 1 if fault == "width" else d
            vals[k] = I.arr(k, (r,) if fault == "flat" else (r, w), "r", -1, 1, dtype=np.float32)
    if rows and fault in ("flat", "width"):
        ok = False
    if "X_u_w" in rows and "X_u_s" in rows and rows["X_u_w"] != rows["X_u_s"]:
        ok = False
    views = None
    if fault == "views" or I.flag("has_views"):
        views = {3 if fault == "views" else "v": I.arr("view", (nl, 1), "r", -1, 1, dtype=np.float32)}
        ok = ok and fault != "views"
    data = {k: mk(v) for k, v in vals.items()}
    if fault == "type":
        k = "X_u" if "X_u" in rows else "X_l"
        data[k] = [[0.0] * d] * int(vals[k].shape[0])
        ok = False
    if views is not None:
        views = {k: mk(v) for k, v in views.items()}
    for k in PARTS:
        data.setdefault(k, None)
    return NS(**data, views=views, meta={"idx_u": np.array([1, 0])} if I.flag("meta") else None), ok


def _handed_over(C, out, data):
    for k in ("X_l", "y_l") + PARTS:
        a, b = getattr(out, k), getattr(data, k)
        C.require("every part is handed over as it is", (a is None) == (b is None) and (b is None or (tuple(a.shape) == tuple(b.shape) and same_seq(flat(a), flat(b)))))
    C.require("views are handed over as they are", (out.views is None) == (data.views is None) and (data.views is None or (
        set(out.views) == set(data.views) and And([same_seq(flat(out.views[k]), flat(data.views[k])) for k in data.views]))))
    C.require("further entries are handed over", (out.meta is None) == (data.meta is None) and (data.meta is None or (
        set(out.meta) == set(data.meta) and same_seq(flat(out.meta["idx_u"]), [1, 0]))))


@harness("M01", modules=IV, compact=True, cfgs=[{}], max_paths=8000,
         bounds="2 labelled rows, 1-2 features, every combination of present parts with 1-2 rows, 1-3 labels, one fault at a time "
         "(one-dimensional part, other width, view name that is no text, list instead of array)")
def inductive_arrays(I, cfg, C):
    from modssc.inductive.adapters.numpy import to_numpy_dataset
    from modssc.inductive.errors import InductiveValidationError

    data, ok = _bundle(I)
    try:
        out = to_numpy_dataset(data)
    except InductiveValidationError:
        out = None
    C.require("a bundle is accepted exactly when its parts fit together", (out is not None) == ok)
    if out is not None:
        _handed_over(C, out, data)


@harness("M01", modules=("modssc.inductive.adapters.torch", "modssc.inductive.backends.torch_backend"), compact=True, contexts=(TorchPatch,),
         cfgs=[{}], max_paths=8000, bounds="as for arrays, as tensors on the CPU")
def inductive_tensors(I, cfg, C):
    from modssc.inductive.adapters.torch import to_torch_dataset
    from modssc.inductive.errors import InductiveValidationError
    from modssc.inductive.types import DeviceSpec

    data, ok = _bundle(I, torch=True)
    try:
        out = to_torch_dataset(data, device=DeviceSpec(device=I.choice("device", ["cpu", "auto"])))
    except InductiveValidationError:
        out = None
    C.require("a bundle is accepted exactly when its parts fit together", (out is not None) == ok)
    if out is not None:
        _handed_over(C, out, data)
