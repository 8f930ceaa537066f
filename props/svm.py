"""Transductive support vector machine: its training schedule, its gradient steps, its probabilities."""
from __future__ import annotations

from types import SimpleNamespace as NS

import numpy as np

from symx import npshim
from symx.core import Ctx
from symx.harness import Skip, harness
from symx.ops import And, If, Implies, Not, Or, close, count, eq, flat, le, lec, lt, ne, nested, total

from .supervised import _m, _setter

SVM = "modssc.transductive.methods.classic.tsvm"
MODS = (SVM, "modssc.transductive.validation")


class _Machine:
    """A linear machine with any scores: one free score per sample and number of trainings so far."""

    cur = None

    def __init__(self, *a, **k):
        self.log, self.asked = [], []
        _Machine.cur["made"].append(self)

    def fit_sgd(self, X, y_pm1, **k):
        self.log.append(([int(r[0]) for r in nested(X)], list(flat(y_pm1)), {a: v for a, v in k.items() if a != "rng"}))

    def score(self, i):
        c, key = _Machine.cur, (len(self.log), i)
        if key not in c["free"]:
            c["free"][key] = c["I"].real(f"s{key[0]}_{i}", -2, 2)
        return c["free"][key]

    def decision_function(self, X):
        ids = [int(r[0]) for r in nested(X)]
        self.asked.append((len(self.log), ids))
        v = [self.score(i) for i in ids]
        return npshim.NP.array(v, dtype=np.float32) if Ctx.cur is not None else np.array(v, dtype=np.float32)


_SVM = _setter({(SVM, "_LinearSVM"): _Machine}, optional=[(SVM, "_LinearSVM")])


def driven():
    if not hasattr(_m(SVM), "_LinearSVM"):   # the machine has another name now
        raise Skip()



@harness("T09", modules=MODS, contexts=(_SVM,), replay_contexts=(_SVM,), compact=True, nl=True,
         cfgs=[{"y": [1, 0], "u": 2, "it": 2}, {"y": [0, 1, 1], "u": 2, "it": 2, "Cu": 0.01}, {"y": [0, 1], "u": 3, "it": 1},
               {"y": [0, 1], "u": 2, "it": 1, "balance": False}, {"y": [0, 1], "u": 0, "it": 2}, {"y": [0, 1], "u": 2, "it": 0},
               {"y": [0, 1], "u": 2, "it": 1, "skip": True}],
         thorough=[{"y": [1, 0], "u": 3, "it": 2}, {"y": [1, 0], "u": 4, "it": 1}, {"y": [1, 0], "u": 2, "it": 3}],
         bounds="2-3 labelled and 0-3 (4) unlabelled samples, up to 2 (3) rounds, every score of every sample after every training, every label "
                "the unlabelled samples may carry")
def training_schedule(I, cfg, C):
    driven()
    yl, u, it, bal = cfg["y"], cfg["u"], cfg["it"], cfg.get("balance", True)
    n, nl = len(yl) + u + (1 if cfg.get("skip") else 0), len(yl)
    Cl, Cu_max = 0.004, cfg.get("Cu", 0.002)
    hidden = I.arr("hidden", (n - nl,), "i", -1, 2)
    y = npshim.NP.concatenate([npshim.NP.array(yl), hidden]) if Ctx.cur is not None else np.concatenate([np.array(yl), hidden])
    train, unl = np.arange(n) < nl, np.arange(n) >= nl
    masks = {"train_mask": train}
    if cfg.get("skip"):       # the last sample is neither
        unl[-1] = False
        masks["unlabeled_mask"] = unl
    d = NS(X=np.arange(n, dtype=np.float32).reshape(-1, 1), y=y, masks=masks, meta={},
           graph=NS(edge_index=np.array([[0, 1], [1, 0]]), edge_weight=None))
    _Machine.cur = {"I": I, "free": {}, "made": []}
    t = _m(SVM)
    m = t.TSVMMethod(t.TSVMTransductiveSpec(max_iter=it, epochs_per_iter=3, batch_size=7, lr=0.25, C_l=Cl, C_u_max=Cu_max, l2=0.5, balance=bal))
    m.fit(d, seed=1)
    made = _Machine.cur["made"]
    C.require("one machine is trained", len(made) == 1)
    s = made[0]
    pm = [1 if v == max(yl) else -1 for v in yl]
    U = [i for i in range(n) if unl[i]]
    C.require("one training on the labelled samples, then one per round", len(s.log) == 1 + (it if U else 0))
    for k, (ids, ys, kw) in enumerate(s.log):
        C.require("every training runs as configured", (kw["epochs"], kw["batch_size"], kw["lr"], kw["l2"]) == (3, 7, 0.25, 0.5))
        C.require("labelled samples keep their labels", And([eq(v, pm[i]) for i, v in zip(ids, ys) if i < nl]))
        if k == 0:
            C.require("the first training sees the labelled samples only, each once", sorted(ids) == list(range(nl)) and kw["C"] == Cl)
            continue
        cu = min(Cu_max, 1e-3 * 10 ** (k - 1)) if k > 1 else 1e-3
        C.require("the weight of the unlabelled samples grows tenfold per round up to its limit", abs(kw["C"] - cu) < 1e-9)
        rep = max(1, round(Cl / cu))
        C.require("each round sees every unlabelled sample once and the labelled ones as often as they outweigh them",
                  sorted(ids) == sorted(list(range(nl)) * rep + U))
        sc = [s_ for s_ in (_Machine.cur["free"][(k, i)] for i in U)]
        new = [ys[ids.index(i)] for i in U]
        pos = [le(0, v) for v in sc]
        one = And(bal, Or(And(pos), Not(Or(pos))))
        C.require("pseudo-labels are +1 or -1", And([Or(eq(v, 1), eq(v, -1)) for v in new]))
        C.require("an unlabelled sample is labelled by the sign of its current score",
                  Or(one, And([eq(v, If(p, 1, -1)) for v, p in zip(new, pos)])))
        I.assume(And([ne(a, b) for i, a in enumerate(sc) for b in sc[:i]]))
        C.require("if all samples fall on one side the lower scoring half is labelled -1 and the others +1",
                  Or(Not(one), And(count([eq(v, -1) for v in new]) == len(U) // 2 if not U else eq(count([eq(v, -1) for v in new]), len(U) // 2),
                                   And([Implies(And(eq(a, 1), eq(b, -1)), lt(y_, x_)) for a, x_ in zip(new, sc) for b, y_ in zip(new, sc)]))))
    P = nested(m.predict_proba(d))
    C.require("one probability per sample and class", len(P) == n and all(len(r) == 2 for r in P))
    for i, r in enumerate(P):
        v = s.score(i)
        C.require("probabilities add up to one", close(r[0] + r[1], 1, 1e-4))
        C.require("the higher label is the likelier one exactly when the final score is positive",
                  And(Implies(lt(0, v), le(r[0], r[1])), Implies(lt(v, 0), le(r[1], r[0]))))


@harness("T09", modules=MODS, compact=True, nl=True,
         cfgs=[{"y": [1, -1], "b": 2, "E": 1}, {"y": [1, -1, 1], "b": 4, "E": 1}, {"y": [1, -1], "b": 1, "E": 1}, {"y": [1, -1], "b": 2, "E": 2}],
         thorough=[{"y": [1, -1, 1], "b": 2, "E": 2}, {"y": [1, -1, -1, 1], "b": 3, "E": 1}],
         bounds="2-3 (4) samples with 2 features, every initial weights, every order of the samples, 1-2 epochs in 1-2 batches")
def gradient_steps(I, cfg, C):
    driven()
    y, b, E = cfg["y"], cfg["b"], cfg["E"]
    X = [[1.0, -0.5], [-0.5, 2.0], [0.25, 1.0], [-1.0, -1.0]][:len(y)]
    lr, c, l2 = 0.25, 2.0, 0.5
    m = _m(SVM)._LinearSVM(2, seed=3)
    w0 = I.arr("w", (2,), "r", -2, 2)
    m.w = w0 if Ctx.cur is None else npshim.NP.asarray(w0)
    rng = (npshim.NP if Ctx.cur is not None else np).random.default_rng(5)
    w, bias = list(flat(w0)), 0.0
    order = (npshim.NP if Ctx.cur is not None else np).random.default_rng(5)
    m.fit_sgd(np.array(X, dtype=np.float32), np.array(y, dtype=np.float32), epochs=E, batch_size=b, lr=lr, C=c, l2=l2, rng=rng)
    for _ in range(E):
        p = [int(v) for v in flat(order.permutation(np.arange(len(y))))]
        C.require("an epoch visits every sample once", sorted(p) == list(range(len(y))))
        for s in range(0, len(y), b):
            part = p[s:s + b]
            out = {i: y[i] * (X[i][0] * w[0] + X[i][1] * w[1] + bias) for i in part}
            I.assume(And([Or(lt(v, 0.999), lt(1.001, v)) for v in out.values()]))
            act = [i for i in part if bool(lt(out[i], 1))]
            k = max(1, len(act))
            g = [l2 * w[j] - c * total([X[i][j] * y[i] for i in act]) / k for j in (0, 1)]
            w = [a - lr * v for a, v in zip(w, g)]
            bias = bias + lr * c * sum(y[i] for i in act) / k
    got = flat(m.w)
    C.require("weights follow the subgradient of the regularised hinge loss", And([close(a, v, 1e-3) for a, v in zip(got, w)]))
    C.require("the offset follows it without shrinking", close(m.b, bias, 1e-3))
    Z = [[0.5, 1.0], [2.0, -1.0]]
    C.require("scores are linear", And([close(v, z[0] * w[0] + z[1] * w[1] + bias, 1e-2) for v, z in
                                        zip(flat(m.decision_function(np.array(Z, dtype=np.float32))), Z)]))
