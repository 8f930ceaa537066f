"""Evaluation: metrics equal their definitions, on labels and on score matrices."""
from __future__ import annotations

import numpy as np

from symx.harness import harness
from symx.ops import (And, If, Iff, Implies, Not, Or, close, count, eq, first_argmax, flat, le, lec, lt,
                      nested, ratio, total)

MODS = ("modssc.evaluation.metrics",)


def _m():
    import modssc.evaluation.metrics as m

    return m


def ref_accuracy(t, p):
    return ratio(count([eq(a, b) for a, b in zip(t, p)]), len(t), len(t))


def ref_balanced(t, p, classes):
    n = len(t)
    nc = count([Or([eq(x, c) for x in t]) for c in classes])
    s = 0.0
    for c in classes:
        s = s + ratio(count([And(eq(a, c), eq(b, c)) for a, b in zip(t, p)]), count([eq(a, c) for a in t]), n)
    return ratio(s, nc, len(classes))


def ref_f1(t, p, classes):
    """mean over true classes of 2tp / (support + predicted)"""
    n = len(t)
    nc = count([Or([eq(x, c) for x in t]) for c in classes])
    s = 0.0
    for c in classes:
        tp = count([And(eq(a, c), eq(b, c)) for a, b in zip(t, p)])
        f = ratio(tp * 2, count([eq(a, c) for a in t]) + count([eq(b, c) for b in p]), 2 * n)
        s = s + If(Or([eq(x, c) for x in t]), f, 0.0)
    return ratio(s, nc, len(classes))


@harness("E01", modules=MODS, compact=True,
         cfgs=[{"n": 1, "c": 3, "w": 0}, {"n": 2, "c": 3, "w": 0}, {"n": 3, "c": 2, "w": 0},
               {"n": 3, "c": 3, "w": 0}, {"n": 4, "c": 2, "w": 0}, {"n": 3, "c": 2, "w": 3}],
         thorough=[{"n": 5, "c": 2, "w": 0}, {"n": 4, "c": 3, "w": 0}, {"n": 3, "c": 4, "w": 7}],
         bounds="<=4 (5) samples, labels from <=3 (4) classes (also shifted, non-contiguous and negative), every "
         "true and predicted vector, predictions may use labels absent from the truth")
def metrics_match_definitions(I, cfg, C):
    m = _m()
    n, c = cfg["n"], cfg["c"]
    # class labels: 0..c-1, or spread out, or negative
    ids = {0: list(range(c)), 3: [-2, 5, 9][:c], 7: [1, 3, 8, 20][:c]}[cfg["w"]]
    if cfg["w"] == 0:
        yt, yp = I.arr("y_true", (n,), "i", 0, c - 1), I.arr("y_pred", (n,), "i", 0, c)
        classes = ids
    else:
        yt, yp = I.arr("y_true", (n,), "i", min(ids), max(ids)), I.arr("y_pred", (n,), "i", min(ids), max(ids))
        for v in flat(yt) + flat(yp):
            I.assume(Or([eq(v, k) for k in ids]))
        classes = ids
    t, p = flat(yt.copy()), flat(yp.copy())
    got = m.evaluate(yt, yp, ["accuracy", "balanced_accuracy", "macro_f1"])
    C.require("exactly the requested metrics are reported",
              sorted(got) == ["accuracy", "balanced_accuracy", "macro_f1"])
    C.require("accuracy is the share of equal labels", close(got["accuracy"], ref_accuracy(t, p)))
    C.require("balanced accuracy is the mean per-class recall over the true classes",
              close(got["balanced_accuracy"], ref_balanced(t, p, classes)))
    C.require("macro F1 is the mean per-class F1 over the true classes",
              close(got["macro_f1"], ref_f1(t, p, classes)))
    for k, v in got.items():
        C.require("metrics lie between 0 and 1", And(lec(0, v), lec(v, 1)))
    C.require("inputs are not modified", And([eq(a, b) for a, b in zip(t + p, flat(yt) + flat(yp))]))


@harness("E01", modules=MODS, compact=True, cfgs=[{"n": 2, "c": 2}, {"n": 2, "c": 3}, {"n": 3, "c": 2}],
         thorough=[{"n": 3, "c": 3}, {"n": 4, "c": 2}],
         bounds="<=3 (4) samples x <=3 scores, every real score (ties included), labels and one-hot truth")
def scores_are_reduced_by_argmax(I, cfg, C):
    m = _m()
    n, c = cfg["n"], cfg["c"]
    yt = I.arr("y_true", (n,), "i", 0, c - 1)
    sc = I.arr("scores", (n, c), "r", -2, 2)
    t = flat(yt)
    rows = nested(sc)
    pred = [first_argmax(r) for r in rows]
    got = m.evaluate(yt, sc, ["accuracy", "macro_f1", "balanced_accuracy"])
    C.require("score rows count as their best class (first on ties): accuracy",
              close(got["accuracy"], ref_accuracy(t, pred)))
    C.require("score rows count as their best class (first on ties): macro F1",
              close(got["macro_f1"], ref_f1(t, pred, list(range(c)))))
    C.require("score rows count as their best class (first on ties): balanced accuracy",
              close(got["balanced_accuracy"], ref_balanced(t, pred, list(range(c)))))
    if n <= 2:
        oh = I.arr("onehot", (n, c), "i", 0, 1)
        for r in nested(oh):
            I.assume(eq(total(r), 1))
        lab = [first_argmax(r) for r in nested(oh)]
        got2 = m.evaluate(oh, sc, ["accuracy"])
        C.require("one-hot truth counts as the index of its one", close(got2["accuracy"], ref_accuracy(lab, pred)))


@harness("E01", modules=MODS, compact=True, cfgs=[{"n": 3, "c": 2}, {"n": 3, "c": 3}], thorough=[{"n": 4, "c": 2}],
         bounds="<=3 (4) samples, every label vector, every sample permutation and class renaming")
def metrics_ignore_order_and_class_names(I, cfg, C):
    m = _m()
    n, c = cfg["n"], cfg["c"]
    yt, yp = I.arr("y_true", (n,), "i", 0, c - 1), I.arr("y_pred", (n,), "i", 0, c - 1)
    names = ["accuracy", "balanced_accuracy", "macro_f1"]
    base = m.evaluate(yt, yp, names)
    k = I.pick_int("rotate", 1, n - 1)
    perm = [(i + k) % n for i in range(n)]
    r = m.evaluate(yt[perm], yp[perm], names)
    # an injective renaming of the classes
    off, sgn = I.pick_int("offset", 0, 3), I.choice("sign", [1, -1])
    q = m.evaluate(yt * (2 * sgn) + off, yp * (2 * sgn) + off, names)
    for nm in names:
        C.require("metrics do not depend on sample order", close(base[nm], r[nm]))
        C.require("metrics do not depend on how classes are numbered", close(base[nm], q[nm]))
