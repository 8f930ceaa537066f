"""Feature views."""
from __future__ import annotations

import numpy as np

from symx.harness import harness
from symx.process import new_process
from symx.ops import And, If, Iff, Implies, Not, Or, close, count, distinct, eq, flat, le, lt, member, nested, same_seq, sorted_inc

MODS = ("modssc.views.services.service", "modssc.views.plan")


def _ds(X, y, Xt=None, yt=None):
    from modssc.data_loader.types import LoadedDataset, Split

    return LoadedDataset(train=Split(X=X, y=y), test=None if Xt is None else Split(X=Xt, y=yt), meta={})


@harness("V01", modules=MODS, compact=True, cfgs=[{"d": 1}, {"d": 3}, {"d": 4}], thorough=[{"d": 5}, {"d": 6}],
         bounds="2 train and 1 test row, <=4 (6) columns, every real fraction in (0,1], every column draw")
def random_view_and_complement(I, cfg, C):
    from modssc.views.plan import two_view_random_feature_split
    from modssc.views.services.service import generate_views

    d = cfg["d"]
    X = I.arr("X", (2, d), "r", -4, 4)
    Xt = I.arr("Xt", (1, d), "r", -4, 4)
    y = np.array([0, 1])
    f = I.real("fraction", 0, 1)
    I.assume(lt(0, f))
    X0, Xt0 = nested(X.copy()), nested(Xt.copy())
    plan = two_view_random_feature_split(fraction=f)
    from modssc.views.errors import ViewsValidationError

    try:
        res = generate_views(_ds(X, y, Xt, y[:1]), plan=plan, seed=3, cache=False)
    except ViewsValidationError:
        C.require("a view is only refused when it would have no column", Or(d == 1, le(d * 2 - 1, f * (2 * d)), lt(f * d, 1)))
        return
    ca, cb = flat(res.columns["view_a"]), flat(res.columns["view_b"])
    C.require("the view and its complement are disjoint", distinct(ca + cb))
    C.require("the view and its complement cover all columns",
              And(len(ca) + len(cb) == d, And([And(le(0, c), lt(c, d)) for c in ca + cb])))
    C.require("at least one column is selected", len(ca) >= 1)
    C.require("the view holds the requested share of columns",
              Or(len(ca) == 1, And(le(len(ca) * 2 - 1, f * (2 * d)), le(f * (2 * d), len(ca) * 2 + 1))))
    for nm, cols in (("view_a", ca), ("view_b", cb)):
        v = res.views[nm]
        for src, out in ((X0, v.train.X), (Xt0, v.test.X)):
            rows = nested(out)
            C.require("rows and columns of each view are the selected source entries",
                      len(rows) == len(src) and And([len(r) == len(cols) for r in rows]))
            if not cols:
                continue
            for i, r in enumerate(rows):
                for j, c in enumerate(cols):
                    C.require("each view keeps the source values of its columns, in train and test alike",
                              And([Implies(eq(c, k), eq(r[j], src[i][k])) for k in range(d)]))
        C.require("labels are carried along unchanged", same_seq(flat(v.train.y), flat(y)))
    C.require("the dataset is not modified", And([eq(a, b) for r, s in zip(nested(X), X0) for a, b in zip(r, s)]))
    res2 = generate_views(_ds(X, y, Xt, y[:1]), plan=plan, seed=3, cache=False)
    C.require("equal seeds give equal views", And(same_seq(flat(res2.columns["view_a"]), ca),
                                                  same_seq(flat(res2.columns["view_b"]), cb)))


@harness("V01", modules=MODS, compact=True, cfgs=[{"d": 3, "m": 2}, {"d": 2, "m": 2}], thorough=[{"d": 4, "m": 3}],
         bounds="<=3 (4) columns, every list of <=2 (3) requested column numbers in 0..d+1 (repeats allowed)")
def explicit_columns(I, cfg, C):
    from modssc.views.errors import ViewsValidationError
    from modssc.views.plan import ColumnSelectSpec, ViewSpec, ViewsPlan
    from modssc.views.services.service import generate_views

    d, m = cfg["d"], cfg["m"]
    X = I.arr("X", (2, d), "r", -4, 4)
    cols = flat(I.arr("cols", (m,), "i", 0, d + 1))
    plan = ViewsPlan(views=(ViewSpec(name="a", columns=ColumnSelectSpec(mode="indices", indices=tuple(cols))),
                            ViewSpec(name="b", columns=ColumnSelectSpec(mode="complement", complement_of="a")),
                            ViewSpec(name="c")))
    ok = And(distinct(cols), And([lt(c, d) for c in cols]))
    try:
        res = generate_views(_ds(X, np.array([0, 1])), plan=plan, seed=0, cache=False)
    except ViewsValidationError:
        C.require("columns that exist are accepted unless nothing is left for the complement",
                  Or(Not(ok), And([member(k, cols) for k in range(d)])))
        return
    C.require("columns that do not exist or repeat are rejected", ok)
    ca, cb = flat(res.columns["a"]), flat(res.columns["b"])
    for k in range(d):
        C.require("the view has exactly the requested columns", Iff(member(k, cols), member(k, ca)))
        C.require("the complement has exactly the other columns", Iff(Not(member(k, cols)), member(k, cb)))
    C.require("a view without a selection has all columns", same_seq(flat(res.views["c"].train.X), flat(X)))


@harness("V01", modules=MODS, compact=True, cfgs=[{"form": f, "mode": m} for f in ("array", "dict") for m in ("indices", "random")],
         bounds="2-3 train and 1 test row of 2-3 columns, plain or graph-like samples, edges, masks and metadata of any content")
def views_carry_everything_else(I, cfg, C):
    """Each view has the labels, edges, masks and other entries of its own split; the dataset stays as it is."""
    from modssc.data_loader.types import LoadedDataset, Split
    from modssc.views.plan import ColumnSelectSpec, ViewSpec, ViewsPlan
    from modssc.views.services.service import generate_views

    d, parts, held = 3, {}, {}
    for nm, n in (("train", 3), ("test", 1)):
        X = I.arr(f"X{nm}", (n, d), "r", -4, 4)
        y, e, m = I.arr(f"y{nm}", (n,), "i", 0, 3), I.arr(f"e{nm}", (2, 2), "i", 0, 3), I.arr(f"m{nm}", (n,), "b")
        w = I.arr(f"w{nm}", (2,), "r", 0, 1)
        box = {"x": X, "edge_index": e, "weight": w} if cfg["form"] == "dict" else X
        parts[nm] = Split(X=box, y=y, edges={"edge_index": e, "edge_weight": w}, masks={"train": m})
        held[nm] = dict(X=nested(X), y=flat(y), e=nested(e), m=flat(m), w=flat(w))
    old = {"columns": [7], "columns_mode": "kept", "preprocess": None}
    meta = {"dataset_fingerprint": "fp", "note": [1, 2]}
    if I.flag("derived"):     # the dataset is a view itself
        meta["views"], meta["view_meta"] = {"old": dict(old)}, {"old": {"k": 1}}
    before = {k: dict(v) if isinstance(v, dict) else v for k, v in meta.items()}
    cols = ColumnSelectSpec(mode="indices", indices=(2, 0)) if cfg["mode"] == "indices" else ColumnSelectSpec(mode="random", fraction=0.5)
    plan = ViewsPlan(views=(ViewSpec(name="a", columns=cols, meta={"note": "x"}), ViewSpec(name="b", columns=ColumnSelectSpec(mode="complement", complement_of="a"))))
    ds = LoadedDataset(train=parts["train"], test=parts["test"], meta=meta)
    res = generate_views(ds, plan=plan, seed=3, cache=False)
    new_process()
    more = generate_views(ds, plan=plan, seed=3, cache=False)
    for v in ("a", "b"):
        C.require("equal seeds give equal views, in other processes too", same_seq(flat(res.columns[v]), flat(more.columns[v])))
        for nm in ("train", "test"):
            got, h = getattr(res.views[v], nm), held[nm]
            box = got.X
            if cfg["form"] == "dict":
                C.require("the other entries of the samples are kept", isinstance(box, dict) and sorted(box) == ["edge_index", "weight", "x"]
                          and And(same_seq(flat(box["edge_index"]), flat(h["e"])), same_seq(flat(box["weight"]), h["w"])))
                box = box["x"]
            rows = nested(box)
            C.require("each view keeps the source values of its columns, in train and test alike",
                      len(rows) == len(h["X"]) and And([len(r) == len(flat(res.columns[v])) for r in rows]))
            for r, src in zip(rows, h["X"]):
                for x, c in zip(r, flat(res.columns[v])):
                    C.require("each view keeps the source values of its columns, in train and test alike",
                              And([Implies(eq(c, k), eq(x, src[k])) for k in range(d)]))
            C.require("labels, edges and masks are those of the split",
                      And(same_seq(flat(got.y), h["y"]), same_seq(flat(got.edges["edge_index"]), flat(h["e"])),
                          same_seq(flat(got.edges["edge_weight"]), h["w"]), same_seq(flat(got.masks["train"]), h["m"])))
        about = res.views[v].meta
        C.require("metadata is carried along", about["dataset_fingerprint"] == "fp" and about["note"] == [1, 2])
        C.require("each view records its own columns", same_seq(list(about["views"][v]["columns"]), flat(res.columns[v])))
        C.require("and no other new view's", set(about["views"]) == {v} | set(before.get("views", {})))
    C.require("metadata of a view stays with it", res.views["a"].meta["view_meta"]["a"] == {"note": "x"} and "a" not in res.views["b"].meta.get("view_meta", {}))
    C.require("the dataset's metadata is left as it is", meta == before)
    for nm in ("train", "test"):
        s, h = getattr(ds, nm), held[nm]
        X = s.X["x"] if cfg["form"] == "dict" else s.X
        C.require("the dataset is not modified", And(X.shape == (len(h["X"]), d) and same_seq(flat(X), flat(h["X"])), same_seq(flat(s.y), h["y"])))
