"""Classic inductive methods: what the wrapped classifiers are trained on, and what is predicted."""
from __future__ import annotations

import importlib
import types

import numpy as np

from symx import npshim
from symx.core import Ctx
from symx.harness import harness
from symx.ops import (And, If, Iff, Implies, Not, Or, close, close_seq, count, eq, first_argmax, flat, le, lec, lt, member, ne,
                      nested, same_seq, smaximum, total)
from symx.tshim import T, TorchPatch

M = "modssc.inductive.methods."
BASE = (M + "helpers.classifier_bridge", M + "helpers.torch_support", "modssc.inductive.adapters.numpy", "modssc.inductive.adapters.torch",
        "modssc.inductive.validation", "modssc.inductive.types")
MODS = BASE + tuple(M + m for m in ("pseudo_label", "self_training", "co_training", "tri_training", "setred", "democratic_co_learning", "s4vm"))


def arr(vals, dtype):
    return npshim.NP.array(vals, dtype=dtype) if Ctx.cur is not None else np.array(vals, dtype=dtype)


class Bank:
    """Scores any classifier could give: one free score vector per (classifier, fit, sample)."""

    cur = None

    def __init__(self, I, torch=False, hi=1):
        self.I, self.torch, self.hi = I, torch, hi
        self.memo = {}
        self.full, self.fixed = False, None
        self.clfs = []
        Bank.cur = self

    def score(self, clf, fit, sid, k):
        if self.fixed is not None:
            return self.fixed(clf, sid)
        key = (clf, fit, sid)
        if key not in self.memo:
            self.memo[key] = [self.I.real(f"s{clf}_{fit}_{sid}_{c}", 0, self.hi) for c in range(k)]
        return self.memo[key]


class FakeClassifier:
    """Contract of a supervised classifier: classes_ are the sorted training labels, scores are arbitrary,
    predict is the class of the highest score."""

    def __init__(self, bank, no):
        self.bank, self.no, self.log, self.calls = bank, no, [], []

    def fit(self, X, y):
        ids = [int(r[0]) for r in nested(X)]
        labels = [v for v in flat(y)]
        self.log.append((ids, labels))
        if self.bank.full and len(self.log) == 1:  # only bootstraps without repetitions
            self.bank.I.assume(len(set(ids)) == len(ids))
        lab = sorted({int(v) for v in labels})
        self.classes = lab
        self.classes_ = np.array(lab, dtype=np.int64)
        if self.bank.torch:
            self.classes_t_ = T(arr(lab, np.int64))
        return self

    def rows(self, X):
        return [self.bank.score(self.no, len(self.log), int(r[0]), len(self.classes)) for r in nested(X)]

    def label(self, row):
        return self.label_of(row, self.classes)

    @staticmethod
    def label_of(row, classes):
        best, lab = row[0], classes[0]
        for v, c in zip(row[1:], classes[1:]):
            b = lt(best, v)
            best, lab = If(b, v, best), If(b, c, lab)
        return lab

    def _out(self, vals, dtype, shape):
        a = arr(vals, dtype).reshape(shape)
        return T(a) if self.bank.torch else a

    def predict_scores(self, X):
        rows = self.rows(X)
        self.calls.append((len(self.log), [int(r[0]) for r in nested(X)]))
        return self._out(rows, np.float64, (len(rows), len(self.classes)))

    predict_proba = predict_scores

    def predict(self, X):
        rows = self.rows(X)
        return self._out([self.label(r) for r in rows], np.int64, (len(rows),))


def _factory(spec, *, seed):
    b = Bank.cur
    c = FakeClassifier(b, len(b.clfs))
    b.clfs.append(c)
    return c


class FakeClassifiers:
    """The methods build their classifiers through this stand-in, symbolically and on replay."""

    def __enter__(self):
        self.saved = []
        for name in MODS:
            m = importlib.import_module(name)
            for attr in ("build_classifier", "create_classifier"):
                if attr in m.__dict__ and name.startswith(M) and not name.endswith("classifier_bridge"):
                    self.saved.append((m, attr, m.__dict__[attr]))
                    setattr(m, attr, _factory)
        return self

    def __exit__(self, *exc):
        for m, a, v in self.saved:
            setattr(m, a, v)
        return False


CTX = dict(contexts=(TorchPatch, FakeClassifiers), replay_contexts=(FakeClassifiers,))


def data(I, n_l, n_u, labels, torch=False, **extra):
    """Labelled samples 0..n_l-1, unlabelled samples 100.. (the only feature is the sample id)."""
    from modssc.inductive.types import InductiveDataset

    wrap = T if torch else (lambda x: x)
    X_l = wrap(arr([[float(i)] for i in range(n_l)], np.float64))
    X_u = wrap(arr([[float(100 + i)] for i in range(n_u)], np.float64)) if n_u is not None else None
    y = wrap(arr(labels, np.int64))
    return InductiveDataset(X_l=X_l, y_l=y, X_u=X_u, **extra)


def spec_of(cls, torch, **kw):
    return cls(classifier_backend="torch" if torch else "numpy", **kw)


def shares(C, proba, scores):
    """Rows of predict_proba are the scores divided by their total (all-zero rows stay zero)."""
    P = nested(proba)
    C.require("one row per sample", len(P) == len(scores))
    for p, s in zip(P, scores):
        C.require("one column per class", len(p) == len(s))
        tot = total(s)
        for a, b in zip(p, s):
            C.require("probabilities are shares of the scores", close(a * If(eq(tot, 0), 1.0, tot), b, 1e-4))


LABELS = [([0, 1], 2), ([3, 1], 2)]


def dev():
    from modssc.inductive.types import DeviceSpec

    return DeviceSpec(device="cpu")


# ---------------------------------------------------------------- I01 self-training loops
def check_loop(C, bank, clf, n_l, n_u, labels, *, thr, max_new, min_new, max_iter):
    log = clf.log
    C.require("the first classifier is trained on the labelled samples only",
              log[0][0] == list(range(n_l)) and And([eq(a, b) for a, b in zip(log[0][1], labels)]))
    pool = list(range(100, 100 + n_u))
    used = []
    batches = []
    for t in range(1, len(log)):
        ids0, y0 = log[t - 1]
        ids, y = log[t]
        C.require("training samples are only ever added", ids[:len(ids0)] == ids0 and And([eq(a, b) for a, b in zip(y, y0)]))
        new = ids[len(ids0):]
        C.require("only samples still unlabelled are added, each once", len(set(new)) == len(new) and all(i in pool and i not in used for i in new))
        rest = [i for i in pool if i not in used]
        conf = {i: smaximum(bank.score(clf.no, t, i, len(clf.classes))) for i in rest} if new or t < len(log) - 1 else {}
        okc = {i: True if thr is None else le(thr, conf[i]) for i in conf}
        for i, lab in zip(new, y[len(ids0):]):
            C.require("a pseudo-label is the current classifier's prediction", eq(lab, clf.label(bank.score(clf.no, t, i, len(clf.classes)))))
            C.require("only confident samples are pseudo-labelled", okc[i])
        if new:
            batches.append(new)
            n_ok = count(okc.values())
            left = [i for i in rest if i not in new]
            if max_new is None:
                C.require("every confident sample is pseudo-labelled", And([Not(okc[i]) for i in left]))
            else:
                C.require("no more samples than allowed per round", len(new) <= max_new)
                for i in left:
                    C.require("a sample left out is not confident, or the quota is used by samples at least as confident",
                              Or(Not(okc[i]), And(len(new) == max_new, And([lec(conf[i], conf[j]) for j in new]))))
            C.require("a round adds at least the minimum", len(new) >= min_new)
        used += new
    C.require("at most the allowed number of rounds", len(batches) <= max_iter)
    rest = [i for i in pool if i not in used]
    if len(batches) < max_iter and rest:
        t = len(log) - 1  # the fit whose scores ended the loop
        n_ok = count([True if thr is None else le(thr, smaximum(bank.score(clf.no, t, i, len(clf.classes)))) for i in rest])
        if max_new is not None and max_new < len(rest):
            n_ok = If(lt(max_new, n_ok), max_new, n_ok)
        C.require("the loop ends early only when a round would add too few samples", lt(n_ok, min_new))
    return used


LOOP = [{"m": "pseudo_label", "n_u": 2, "it": 2, "max_new": None, "min_new": 1}, {"m": "pseudo_label", "n_u": 3, "it": 2, "max_new": 1, "min_new": 1},
        {"m": "pseudo_label", "n_u": 3, "it": 1, "max_new": 2, "min_new": 2}, {"m": "self_training", "n_u": 2, "it": 2, "max_new": None, "min_new": 1},
        {"m": "self_training", "n_u": 3, "it": 2, "max_new": 1, "min_new": 1}, {"m": "self_training", "n_u": 3, "it": 1, "max_new": 2, "min_new": 2, "thr": None}]
LOOP += [{**c, "be": "torch"} for c in LOOP]


@harness("I01", modules=MODS, nl=True, compact=True, cfgs=LOOP, **CTX,
         thorough=[{**c, "n_u": 3, "it": 2} for c in LOOP] + [{**c, "n_u": 4, "it": 1} for c in LOOP],
         bounds="2 labelled and 2-3 (4) unlabelled samples, 2 classes (ids {0,1} or {1,3}), every score vector at every round, every threshold, "
         "<=2 rounds, quotas and minimum batch sizes as listed")
def self_labelling_loop(I, cfg, C):
    torch = cfg.get("be") == "torch"
    mod = importlib.import_module(M + cfg["m"])
    cls, meth = {"pseudo_label": ("PseudoLabelSpec", "PseudoLabelMethod"), "self_training": ("SelfTrainingSpec", "SelfTrainingMethod")}[cfg["m"]]
    labels = cfg.get("labels", [3, 1])
    thr = I.real("thr", 0, 1) if cfg.get("thr", True) else None
    bank = Bank(I, torch)
    sp = spec_of(getattr(mod, cls), torch, max_iter=cfg["it"], confidence_threshold=thr, max_new_labels=cfg["max_new"], min_new_labels=cfg["min_new"])
    ds = data(I, 2, cfg["n_u"], labels, torch)
    m = getattr(mod, meth)(sp)
    r = m.fit(ds, device=dev(), seed=1)
    C.require("fit returns the method", r is m)
    C.require("one classifier is trained", len(bank.clfs) == 1)
    clf = bank.clfs[0]
    check_loop(C, bank, clf, 2, cfg["n_u"], labels, thr=thr, max_new=cfg["max_new"], min_new=cfg["min_new"], max_iter=cfg["it"])
    C.require("the data set is not modified", And([same_seq(flat(ds.X_l), [0, 1]), same_seq(flat(ds.y_l), labels),
                                                   same_seq(flat(ds.X_u), range(100, 100 + cfg["n_u"]))]))
    X = T(arr([[7.0]], np.float64)) if torch else arr([[7.0]], np.float64)
    sc = clf.rows(X)
    shares(C, m.predict_proba(X), sc)
    C.require("predictions are those of the last classifier", eq(flat(m.predict(X))[0], clf.label(sc[0])))


@harness("I01", modules=MODS, nl=True, compact=True, **CTX,
         cfgs=[{"n_u": 2, "gl": [0, 1], "minc": 2, "frac": 1.0}, {"n_u": 3, "gl": [0, 0], "minc": 2, "frac": 0.5}, {"n_u": 3, "gl": None, "minc": 1, "frac": 0.5},
               {"n_u": 2, "gl": [0, 0], "minc": 1, "frac": 0.5, "gthr": True}, {"n_u": 3, "gl": [0, 1], "minc": 1, "frac": 1.0, "max_new": 2},
               {"n_u": 2, "gl": [0, 1], "minc": 2, "frac": 1.0, "be": "torch"}, {"n_u": 3, "gl": None, "minc": 2, "frac": 0.5, "be": "torch"}],
         thorough=[{"n_u": 4, "gl": [0, 1], "minc": 2, "frac": 0.5}],
         bounds="2 labelled and 2-3 (4) unlabelled samples in <=2 groups, one round, every score vector and threshold")
def group_propagation(I, cfg, C):
    """One sense per group: samples that are not confident take their group's majority label."""
    from modssc.inductive.methods.self_training import SelfTrainingMethod, SelfTrainingSpec

    torch, n_u, minc, frac, mx = cfg.get("be") == "torch", cfg["n_u"], cfg["minc"], cfg["frac"], cfg.get("max_new")
    labels = [0, 1]
    gu = [I.pick_int(f"g{i}", 0, 1) for i in range(n_u)]
    thr = I.real("thr", 0, 1)
    gthr = I.real("gthr", 0, 1) if cfg.get("gthr") else None
    bank = Bank(I, torch)
    wrap = (lambda v: T(arr(v, np.int64))) if torch else (lambda v: arr(v, np.int64))
    meta = {"group_u": wrap(gu)}
    if cfg["gl"] is not None:
        meta["group_l"] = wrap(cfg["gl"])
    sp = spec_of(SelfTrainingSpec, torch, max_iter=1, confidence_threshold=thr, max_new_labels=mx, group_min_count=minc, group_min_fraction=frac,
                 group_confidence_threshold=gthr)
    m = SelfTrainingMethod(sp)
    m.fit(data(I, 2, n_u, labels, torch, meta=meta), device=dev(), seed=1)
    clf = bank.clfs[0]
    ids, ys = clf.log[-1]
    C.require("the labelled samples stay in place", ids[:2] == [0, 1] and And(same_seq(ys[:2], labels)))
    got = dict(zip(ids[2:], ys[2:]))
    C.require("only unlabelled samples are added, each once", len(got) == len(ids) - 2 and all(100 <= i < 100 + n_u for i in got))
    sc = [bank.score(0, 1, 100 + i, 2) for i in range(n_u)]
    conf, lab = [smaximum(s) for s in sc], [clf.label(s) for s in sc]
    direct = [le(thr, c) for c in conf]
    gt = thr if gthr is None else gthr
    want, wconf = [], []
    for i in range(n_u):
        g = gu[i]
        votes = [(True, labels[j], 1.0) for j in range(2) if cfg["gl"] is not None and cfg["gl"][j] == g]
        votes += [(direct[j], lab[j], conf[j]) for j in range(n_u) if gu[j] == g]
        num = [count([And(b, eq(v, c)) for b, v, _ in votes]) for c in (0, 1)]
        csum = [total([If(And(b, eq(v, c)), w, 0.0) for b, v, w in votes]) for c in (0, 1)]
        tot = num[0] + num[1]
        major = If(le(num[1], num[0]), 0, 1)  # the first label on ties
        nm, cs = If(eq(major, 0), num[0], num[1]), If(eq(major, 0), csum[0], csum[1])
        need = sum_thr(gt, nm, len(votes))
        ok = And(le(minc, tot), lt(0, tot), le(frac * tot, nm), le(need, cs))
        want.append((Or(direct[i], ok), If(direct[i], lab[i], major)))
        wconf.append((nm, cs))
    for i in range(n_u):
        add, w = want[i]
        if 100 + i in got:
            C.require("a sample is added when it is confident or its group's majority is large and confident enough", add)
            C.require("an added sample takes its own prediction or its group's majority label", eq(got[100 + i], w))
        elif mx is None:
            C.require("no such sample is left out", Not(add))
    if mx is not None:
        C.require("no more samples than allowed", len(got) <= mx)
        C.require("the quota is used when there are enough candidates", Or(len(got) == mx, And([Not(want[i][0]) for i in range(n_u) if 100 + i not in got])))


def sum_thr(thr, n, hi):
    """thr * n for a small symbolic count n."""
    out = 0.0
    for k in range(1, hi + 1):
        out = If(eq(n, k), thr * k, out)
    return out


# ---------------------------------------------------------------- I02 co-training
@harness("I02", modules=MODS, nl=True, compact=True, **CTX,
         cfgs=[{"n_u": 2, "k": 1, "it": 1}, {"n_u": 3, "k": 1, "it": 1, "thr": None}, {"n_u": 2, "k": 2, "it": 2, "thr": None, "labels": [0, 1]}, {"n_u": 2, "k": 1, "it": 2, "thr": None},
               {"n_u": 2, "k": 1, "it": 1, "be": "torch"}, {"n_u": 2, "k": 1, "it": 2, "thr": None, "be": "torch"}, {"n_u": 3, "k": 1, "it": 1, "thr": None, "be": "torch"}],
         thorough=[{"n_u": 3, "k": 1, "it": 2, "thr": None}, {"n_u": 3, "k": 2, "it": 1}, {"n_u": 3, "k": 2, "it": 1, "be": "torch"}],
         bounds="2 labelled and 2-3 unlabelled samples, 2 classes, every score vector of both views at every round, every threshold, <=2 rounds")
def co_training(I, cfg, C):
    from modssc.inductive.methods.co_training import CoTrainingMethod, CoTrainingSpec
    from modssc.inductive.types import InductiveDataset

    torch, n_u, k = cfg.get("be") == "torch", cfg["n_u"], cfg["k"]
    labels = cfg.get("labels", [3, 1])
    thr = I.real("thr", 0, 1) if cfg.get("thr", True) else None
    bank = Bank(I, torch)
    wrap = T if torch else (lambda x: x)
    X = lambda off, ids: wrap(arr([[float(i + off)] for i in ids], np.float64))  # noqa: E731
    L, U = [0, 1], list(range(100, 100 + n_u))
    views = {"b": (X(1000, L), X(1000, U)), "a": {"X_l": X(0, L), "X_u": X(0, U)}}
    ds = InductiveDataset(X_l=X(0, L), y_l=wrap(arr(labels, np.int64)), X_u=X(0, U), views=views)
    m = CoTrainingMethod(spec_of(CoTrainingSpec, torch, max_iter=cfg["it"], k_per_class=k, confidence_threshold=thr))
    m.fit(ds, device=dev(), seed=1)
    C.require("two classifiers are trained", len(bank.clfs) == 2)
    c = bank.clfs
    off = (0, 1000)
    logs = []
    for v in (0, 1):
        log = [([i - off[v] for i in ids], ys) for ids, ys in c[v].log]
        C.require("each classifier is trained on its own view only", all(0 <= i < 500 for ids, _ in log for i in ids))
        C.require("both start from the labelled samples", log[0][0] == L and And(same_seq(log[0][1], labels)))
        logs.append(log)
    C.require("both are refitted together", len(logs[0]) == len(logs[1]))
    pool = list(U)
    rounds = 0
    for t in range(1, len(logs[0])):
        new = []
        for v in (0, 1):
            ids0, y0 = logs[v][t - 1]
            ids, ys = logs[v][t]
            C.require("training samples are only ever added", ids[:len(ids0)] == ids0 and And([eq(a, b) for a, b in zip(ys, y0)]))
            new.append(list(zip(ids[len(ids0):], ys[len(ids0):])))
        if t == len(logs[0]) - 1 and not new[0] and not new[1]:
            break
        rounds += 1
        for v in (0, 1):  # what view v learnt from the other view
            o = 1 - v
            sc = {i: bank.score(o, t, i + off[o], 2) for i in pool}
            ids = [i for i, _ in new[v]]
            C.require("only samples still unlabelled are exchanged, each once", len(set(ids)) == len(ids) and all(i in pool for i in ids))
            for i, lab in new[v]:
                C.require("a sample carries the label the other view predicts for it", eq(lab, c[o].label(sc[i])))
                C.require("only confident predictions are exchanged", True if thr is None else le(thr, smaximum(sc[i])))
            for ci, cl in enumerate(c[o].classes):
                mine = {i: eq(c[o].label(sc[i]), cl) for i in pool}
                C.require("at most k samples per class", le(count([mine[i] for i in ids]), k))
                for j in pool:
                    if j in ids:
                        continue
                    C.require("a sample is left out only for being less confident than k others of its class or than the threshold",
                              Implies(And(mine[j], True if thr is None else le(thr, sc[j][ci])),
                                      And(eq(count([mine[i] for i in ids]), k), And([Implies(mine[i], lec(sc[j][ci], sc[i][ci])) for i in ids]))))
        gone = {i for b in new for i, _ in b}
        pool = [i for i in pool if i not in gone]
    C.require("at most the allowed number of rounds", rounds <= cfg["it"])
    if rounds < cfg["it"] and pool:
        t = len(logs[0]) - 1
        if thr is not None:
            C.require("training ends early only when neither view is confident",
                      And([lt(smaximum(bank.score(v, t, i + off[v], 2)), thr) for v in (0, 1) for i in pool]))
        else:
            C.fail("training ends early only when neither view is confident")
    pv = {"a": {"X": X(0, [7])}, "b": X(1000, [7])}
    q = InductiveDataset(X_l=ds.X_l, y_l=ds.y_l, views=pv)
    s1, s2 = c[0].rows(X(0, [7]))[0], c[1].rows(X(1000, [7]))[0]
    avg = [(a + b) / 2 for a, b in zip(s1, s2)]
    shares(C, m.predict_proba(q), [avg])
    lab = flat(m.predict(q))[0]
    tot = total(avg)
    for v, cl in zip(avg, c[0].classes):
        C.require("the prediction has the highest averaged score", Implies(eq(lab, cl), And([lec(o, v, 1e-4) for o in avg])))
    C.require("predictions are class labels", member(lab, c[0].classes))


# ---------------------------------------------------------------- I03 tri-training
@harness("I03", modules=MODS, nl=True, compact=True, **CTX,
         cfgs=[{"n_u": 1, "it": 1, "boot": 1.0, "labels": [0, 1]}, {"n_u": 2, "it": 1, "boot": 0.5, "labels": [3, 1]}, {"n_u": 1, "it": 2, "boot": 0.5, "labels": [0, 1]},
               {"n_u": 1, "it": 1, "boot": 1.0, "labels": [3, 1], "thr": True, "fix": True}, {"n_u": 1, "it": 1, "boot": 0.5, "labels": [3, 1], "be": "torch"},
               {"n_u": 2, "it": 1, "boot": 0.5, "labels": [0, 1], "max_new": 1},
               {"n_u": 1, "it": 1, "boot": 1.0, "labels": [3, 1], "thr": True, "fix": True, "be": "torch"}],
         thorough=[{"n_u": 2, "it": 1, "boot": 1.0, "labels": [0, 1], "fix": True, "max_new": 1}, {"n_u": 2, "it": 1, "boot": 1.0, "labels": [3, 1]}, {"n_u": 2, "it": 2, "boot": 1.0, "labels": [0, 1], "fix": True}],
         bounds="2 labelled and 1-2 unlabelled samples, 2 classes, every bootstrap draw, every score vector and threshold, <=2 rounds")
def tri_training(I, cfg, C):
    from modssc.inductive.methods.tri_training import TriTrainingMethod, TriTrainingSpec

    torch, n_u, labels = cfg.get("be") == "torch", cfg["n_u"], cfg["labels"]
    thr = I.real("thr", 0, 1) if cfg.get("thr") else None
    bank = Bank(I, torch)
    bank.full = cfg.get("fix", False)
    sp = spec_of(TriTrainingSpec, torch, max_iter=cfg["it"], bootstrap_ratio=cfg["boot"], confidence_threshold=thr, max_new_labels=cfg.get("max_new"))
    m = TriTrainingMethod(sp)
    ds = data(I, 2, n_u, labels, torch)
    m.fit(ds, device=dev(), seed=1)
    c = bank.clfs
    C.require("three classifiers are trained", len(c) == 3)
    n_boot = max(1, round(cfg["boot"] * 2))
    for x in c:
        ids, ys = x.log[0]
        C.require("each starts from a bootstrap of the labelled samples", len(ids) == n_boot and all(i in (0, 1) for i in ids)
                  and And([eq(y, labels[i]) for i, y in zip(ids, ys)]))
    C.require("all three are refitted together", len({len(x.log) for x in c}) == 1)
    T_ = len(c[0].log)
    known = [dict() for _ in c]
    rounds = 0
    classes_at = [[sorted({int(v) for v in x.log[t][1]}) for t in range(T_)] for x in c]

    def lab_of(x, t, i):
        cl = classes_at[x][t]
        s = bank.score(x, t + 1, 100 + i, len(cl))
        best, lab = s[0], cl[0]
        for v, l in zip(s[1:], cl[1:]):
            b = lt(best, v)
            best, lab = If(b, v, best), If(b, l, lab)
        return lab, smaximum(s)

    for t in range(1, T_):
        for i in range(3):
            ids, ys = c[i].log[t]
            C.require("the bootstrap sample is kept", ids[:n_boot] == c[i].log[0][0] and And(same_seq(ys[:n_boot], c[i].log[0][1])))
            cur = dict(zip([k - 100 for k in ids[n_boot:]], ys[n_boot:]))
            C.require("only unlabelled samples are added, each once", len(cur) == len(ids) - n_boot and all(0 <= k < n_u for k in cur))
            C.require("an added sample keeps its label", all(k in cur for k in known[i]) and And([eq(cur[k], known[i][k]) for k in known[i] if k in cur]))
            j, k = [x for x in range(3) if x != i]
            if t == T_ - 1 and cur.keys() == known[i].keys():
                continue
            quota = cfg.get("max_new")
            fresh = [u for u in cur if u not in known[i]]
            for u in range(n_u):
                if u in known[i]:
                    continue
                (a, ca), (b, cb) = lab_of(j, t - 1, u), lab_of(k, t - 1, u)
                agree = And(eq(a, b), True if thr is None else And(le(thr, ca), le(thr, cb)))
                if u in cur:
                    C.require("a sample is added only when the other two classifiers agree on it with confidence", agree)
                    C.require("an added sample carries the label they agree on", eq(cur[u], a))
                elif quota is None or len(fresh) < quota:
                    C.require("every sample the other two agree on is added", Not(agree))
                else:
                    C.require("the quota goes to the most confident samples", Implies(agree, And([
                        lec(ca + cb, lab_of(j, t - 1, v)[1] + lab_of(k, t - 1, v)[1]) for v in fresh])))
            C.require("no more than the quota per round", quota is None or len(fresh) <= quota)
            known[i] = cur
    X = T(arr([[7.0]], np.float64)) if torch else arr([[7.0]], np.float64)
    allc = sorted({l for x in c for l in x.classes})
    tot = [total([bank.score(x.no, len(x.log), 7, len(x.classes))[x.classes.index(l)] for x in c if l in x.classes]) for l in allc]
    shares(C, m.predict_proba(X), [[v / 3 for v in tot]])
    lab = flat(m.predict(X))[0]
    C.require("predictions are class labels", member(lab, allc))
    for v, l in zip(tot, allc):
        C.require("the prediction has the highest total score", Implies(eq(lab, l), And([lec(o, v, 1e-4) for o in tot])))


class Normal:
    """Stand-in for statistics.NormalDist: the quantile is any number (the replay passes the matching level)."""

    z = 0.0

    def __init__(self, *a):
        pass

    def inv_cdf(self, p):
        return Normal.z


def quantile(I, name, lo, hi, two_sided):
    """(z, probability to pass to the method)"""
    from statistics import NormalDist

    z = I.real(name, lo, hi) if lo != hi else lo
    if Ctx.cur is not None:
        Normal.z = z
        return z, 0.5
    p = NormalDist().cdf(z)
    return z, (2 * p - 1 if two_sided else p)


def interval(correct, n, z):
    """Normal confidence interval of an accuracy, cut to [0, 1]."""
    from symx.core import sym_sqrt

    p = correct / n
    d = z * sym_sqrt(p * (1 - p) / n)
    lo, hi = p - d, p + d
    return If(lt(lo, 0), 0.0, lo), If(lt(1, hi), 1.0, hi)


# ---------------------------------------------------------------- I04 democratic co-learning
DEMO = [{"n_u": 1, "k": 2, "wrong": None, "it": 1, "z": 1.0}, {"n_u": 2, "k": 2, "wrong": (0, 0, 1), "it": 1, "z": 0.5}, {"n_u": 2, "k": 2, "wrong": (0, 1, 1), "it": 2, "minc": 0.7},
        {"n_u": 1, "k": 3, "wrong": (0, 1, 2), "it": 1, "z": 1.96}, {"n_u": 2, "k": 2, "wrong": (1, 1, 1), "it": 1, "minc": 0.5}, {"n_u": 1, "k": 2, "wrong": (0, 1, 1, 2), "it": 1}]


@harness("I04", modules=MODS, nl=True, compact=True, **CTX, patch={"extra": {(M + "democratic_co_learning", "NormalDist"): Normal}},
         cfgs=DEMO + [{**c, "be": "torch"} for c in [{**DEMO[0], "wrong": (0, 1, 2)}] + DEMO[1:2] + [{**DEMO[3], "minc": 0.6}]]
         # equal learners: ties for the majority
         + [{"n_u": 1, "k": 3, "wrong": w, "it": 1, "z": 0.25, "minc": 0.5, **b} for w in ((0, 0, 0), (0, 0, 0, 0)) for b in ({}, {"be": "torch"})],
         thorough=[{"n_u": 3, "k": 2, "wrong": (0, 1, 1), "it": 2}, {"n_u": 2, "k": 3, "wrong": (0, 1, 1), "it": 1}, {"n_u": 2, "k": 2, "wrong": (0, 1, 1, 2), "it": 2}],
         bounds="3-4 learners, 4 labelled and 1-2 (3) unlabelled samples, 2-3 classes, every prediction on unlabelled samples, 0-2 errors on labelled ones, "
         "every confidence level in about [0.1, 0.98] and minimum confidence; predictions of a learner do not change between rounds")
def democratic(I, cfg, C):
    from modssc.inductive.methods.democratic_co_learning import DemocraticCoLearningMethod, DemocraticCoLearningSpec

    torch, n_u, k = cfg.get("be") == "torch", cfg["n_u"], cfg["k"]
    n_cl = len(cfg["wrong"]) if cfg["wrong"] else 3
    labs = [1, 3, 4][:k]
    y = (labs + labs)[:4]
    z, level = quantile(I, "z", cfg.get("z", 0.1), cfg.get("z", 2.5), True)
    minc = cfg["minc"] if "minc" in cfg else I.real("minc", 0, 1)
    wrong = cfg["wrong"] or [I.pick_int(f"w{i}", 0, 2) for i in range(n_cl)]
    bank = Bank(I, torch)
    ids_u = [100 + i for i in range(n_u)]
    col = {}
    for i in range(n_cl):
        for j in range(4):
            col[i, j] = (j % k if j >= wrong[i] else (j + 1) % k)
        for u in ids_u:
            col[i, u] = I.pick_int(f"p{i}_{u}", 0, k - 1)
    bank.fixed = lambda no, sid: [1.0 if c == col[no, sid] else 0.0 for c in range(k)]
    sp = spec_of(DemocraticCoLearningSpec, torch, max_iter=cfg["it"], confidence_level=level, min_confidence=minc, n_learners=n_cl)
    m = DemocraticCoLearningMethod(sp)
    ds = data(I, 4, n_u, y, torch)
    m.fit(ds, device=dev(), seed=1)
    clf = bank.clfs
    C.require("one classifier per learner", len(clf) == n_cl)
    C.require("learners are refitted together", len({len(c.log) for c in clf}) == 1)
    pred = lambda i, s: labs[col[i, s]]  # noqa: E731
    w = [sum(interval(count([pred(i, j) == y[j] for j in range(4)]), 4, z)) / 2 for i in range(n_cl)]
    maj = {}
    for u in ids_u:
        tot = [total([w[i] for i in range(n_cl) if col[i, u] == c]) for c in range(k)]
        maj[u] = [And([lt(tot[d], tot[c]) for d in range(k) if d != c]) for c in range(k)]
    err = [0.0] * n_cl
    train = [list(range(4)) for _ in range(n_cl)]
    for c in clf:
        C.require("learners start from the labelled samples", c.log[0][0] == list(range(4)) and And(same_seq(c.log[0][1], y)))
    rounds = len(clf[0].log) - 1
    used = 0
    for t in range(1, rounds + 1):
        lows = []
        for i in range(n_cl):
            yy = clf[i].log[t - 1][1]
            lows.append(interval(count([eq(pred(i, s), v) for s, v in zip(train[i], yy)]), len(yy), z)[0])
        low = total(lows) / n_cl
        any_new = False
        for i in range(n_cl):
            ids0, y0 = clf[i].log[t - 1]
            ids, ys = clf[i].log[t]
            C.require("training samples are only ever added", ids[:len(ids0)] == ids0 and And([eq(a, b) for a, b in zip(ys, y0)]))
            new = ids[len(ids0):]
            if not new and used == cfg["it"]:
                continue
            any_new = any_new or bool(new)
            cand = {u: Or([And(maj[u][c], col[i, u] != c) for c in range(k)]) for u in ids_u if u not in train[i]}
            if new:
                C.require("exactly the samples the weighted majority labels differently are added",
                          len(set(new)) == len(new) and all(u in cand for u in new) and And([cand[u] if u in new else Not(cand[u]) for u in cand]))
                for u, v in zip(new, ys[len(ids0):]):
                    C.require("an added sample carries the majority label", And([Implies(maj[u][c], eq(v, labs[c])) for c in range(k)]))
            n0 = len(ids0)
            q = n0 * (1 - 2 * (err[i] / n0)) * (1 - 2 * (err[i] / n0))
            better = {}
            for s in range(1, len(cand) + 1):
                e2 = err[i] + (1 - low) * s
                f = 1 - 2 * (e2 / (n0 + s))
                better[s] = (n0 + s) * f * f - q
            if new:
                C.require("samples are added only when the estimated benefit exceeds the added error", lt(-1e-9, better[len(new)]))
                err[i] = err[i] + (1 - low) * len(new)
                train[i] = train[i] + new
            else:
                n = count(cand.values())
                C.require("beneficial samples are not withheld", And([Implies(eq(n, s), le(better[s], 1e-9)) for s in better]))
        used += any_new
    C.require("at most the allowed number of rounds", used <= cfg["it"])
    wrap = T if torch else (lambda x: x)
    X = wrap(arr([[float(u)] for u in ids_u], np.float64))
    I.assume(And([Or(lt(minc + 1e-5, v), lt(v, minc - 1e-5)) for v in w]))
    good = [lt(minc, v) for v in w]
    none = Not(Or(good))
    scores = []
    for u in ids_u:
        row = []
        for c in range(k):
            vs = [(Or(good[i], none), w[i]) for i in range(n_cl) if col[i, u] == c]
            n = count([g for g, _ in vs])
            s = total([If(g, v, 0.0) for g, v in vs])
            out = 0.0
            for j in range(1, len(vs) + 1):
                out = If(eq(n, j), s / j * ((j + 0.5) / (j + 1.0)), out)
            row.append(out)
        scores.append(row)
    shares(C, m.predict_proba(X), scores)
    for u, row, lab in zip(ids_u, scores, flat(m.predict(X))):
        C.require("predictions are class labels", member(lab, labs))
        C.require("the prediction has the highest combined weight", And([Implies(eq(lab, labs[c]), And([lec(o, row[c], 1e-4) for o in row])) for c in range(k)]))


# ---------------------------------------------------------------- I05 SETRED
SET = [{"pos": [0, 4], "y": [0, 1], "u": [1, 3], "graph": "rng", "w": "uniform"}, {"pos": [0, 4, 9], "y": [1, 3, 1], "u": [1, 6], "graph": "knn", "k": 1, "w": "uniform"},
       {"pos": [0, 4, 7], "y": [1, 3, 3], "u": [1, 12], "graph": "knn", "k": 2, "w": "distance"}, {"pos": [0, 4], "y": [0, 1], "u": [1, 6], "graph": "rng", "w": "inverse_distance"},
       {"pos": [0, 4], "y": [1, 3], "u": [1, 6, 11], "graph": "rng", "w": "uniform", "max_new": 2, "thr": True}, {"pos": [0, 4], "y": [1, 3], "u": [1, 6, 11], "graph": "rng", "w": "uniform", "pool": 2},
       {"pos": [0, 4, 9], "y": [0, 1, 1], "u": [4, 20], "graph": "knn", "k": 1, "w": "uniform"}, {"pos": [0, 4, 9], "y": [0, 1, 1], "u": [0, 20], "graph": "knn", "k": 2, "w": "uniform"},
       {"pos": [0, 5], "y": [1, 3], "u": [1, 6], "graph": "rng", "w": "uniform", "it": 2}]


@harness("I05", modules=MODS, nl=True, compact=True, **CTX, patch={"extra": {(M + "setred", "NormalDist"): Normal}},
         cfgs=SET + [{**c, "be": "torch"} for c in SET[1:2] + SET[3:6]],
         thorough=[{**c, "it": 2} for c in SET[:6]] + [{"pos": [0, 4], "y": [1, 3], "u": [1, 6, 11, 13], "graph": "rng", "w": "uniform", "max_new": 3, "thr": True}],
         bounds="2-3 labelled and 2-3 (4) unlabelled samples at listed positions on a line, 2 classes, every score vector (no two equally confident), threshold and quantile, 1-2 rounds")
def setred(I, cfg, C):
    from modssc.inductive.methods.setred import SetredMethod, SetredSpec

    torch, P, U, y = cfg.get("be") == "torch", cfg["pos"], cfg["u"], cfg["y"]
    z, theta = quantile(I, "z", -2.5, 2.5, False)
    thr = I.real("thr", 0, 1) if cfg.get("thr") else None
    wrap = T if torch else (lambda x: x)
    bank = Bank(I, torch)
    from modssc.inductive.types import InductiveDataset
    col = lambda v: wrap(arr([[float(i)] for i in v], np.float64))  # noqa: E731
    ds = InductiveDataset(X_l=col(P), y_l=wrap(arr(y, np.int64)), X_u=col(U))
    it = cfg.get("it", 1)
    m = SetredMethod(spec_of(SetredSpec, torch, max_iter=it, pool_size=cfg.get("pool"), max_new_labels=cfg.get("max_new"), confidence_threshold=thr,
                             theta=theta, graph_type=cfg["graph"], knn_k=cfg.get("k", 10), edge_weight=cfg["w"]))
    m.fit(ds, device=dev(), seed=1)
    C.require("one classifier is trained", len(bank.clfs) == 1)
    clf = bank.clfs[0]
    C.require("the first classifier is trained on the labelled samples only", clf.log[0][0] == P and And(same_seq(clf.log[0][1], y)))
    left = list(U)
    rounds = 0
    for t in range(1, len(clf.log)):
        ids0, y0 = clf.log[t - 1]
        ids, ys = clf.log[t]
        C.require("training samples are only ever added", ids[:len(ids0)] == ids0 and And([eq(a, b) for a, b in zip(ys, y0)]))
        new = dict(zip(ids[len(ids0):], ys[len(ids0):]))
        C.require("only samples still unlabelled are added, each once", len(new) == len(ids) - len(ids0) and all(i in left for i in new))
        if not new and (t > it or not left):
            break
        pool = next((c for f, c in clf.calls if f == t), None)
        C.require("the classifier scores a pool of the unlabelled samples", pool is not None)
        size = min(cfg.get("pool") or len(left), len(left))
        C.require("the pool has the requested size", len(pool) == size and len(set(pool)) == size and all(i in left for i in pool))
        y0 = [int(v) for v in y0]
        labs = sorted(set(y0))
        sc = {i: bank.score(0, t, i, len(labs)) for i in pool}
        conf = {i: smaximum(sc[i]) for i in pool}
        lab = {i: clf.label_of(sc[i], labs) for i in pool}
        I.assume(And([ne(conf[a], conf[b]) for n, a in enumerate(pool) for b in pool[n + 1:]]))
        quota = alloc(min(size, cfg.get("max_new") or size), [y0.count(c) for c in labs])
        sel = []
        for i in pool:
            ok = True if thr is None else le(thr, conf[i])
            ahead = {c: count([And(eq(lab[j], c), lt(conf[i], conf[j])) for j in pool if j != i]) for c in labs}
            if bool(And(ok, Or([And(eq(lab[i], c), lt(ahead[c], q)) for c, q in zip(labs, quota)]))):
                sel.append(i)
        C.require("only the most confident samples of each class, within its share of the quota, are candidates", set(new) <= set(sel))
        sl = {i: int(lab[i]) for i in sel}
        for i in new:
            C.require("an added sample carries its predicted label", eq(new[i], sl[i]))
        xs, ly = list(ids0) + sel, y0 + [sl[i] for i in sel]
        keep = {i: edited(xs, ly, len(ids0) + n, y0, cfg, z) for n, i in enumerate(sel)}
        for i in sel:
            cut, bound = keep[i]
            if i in new:
                C.require("a candidate is kept only if its cut edges are not significantly many", lec(cut, bound, 1e-4))
            else:
                C.require("a candidate is dropped only if its cut edges are significantly many", lec(bound, cut, 1e-4))
        left = [i for i in left if i not in new]
        rounds += bool(new)
        if not new:
            break
    C.require("at most the allowed number of rounds", rounds <= it)
    X = col([50])
    row = clf.rows(X)[0]
    shares(C, m.predict_proba(X), [row])
    C.require("predictions are those of the last classifier", eq(flat(m.predict(X))[0], clf.label(row)))


def alloc(tot, counts):
    """Proportional shares: floors, then the largest remainders (no ties in the listed cases)."""
    from fractions import Fraction

    raw = [Fraction(c * tot, sum(counts)) for c in counts]
    base = [int(r) for r in raw]
    order = sorted(range(len(raw)), key=lambda i: (raw[i] - base[i], i), reverse=True)
    for i in order[:tot - sum(base)]:
        base[i] += 1
    return base


def edited(xs, ys, i, y0, cfg, z):
    """Is the weight of the cut edges of sample i at most its mean + z deviations under random labels?"""
    from math import sqrt

    n = len(xs)
    d = [[abs(a - b) for b in xs] for a in xs]
    nb = set()
    for j in range(n):
        if j == i:
            continue
        if cfg["graph"] == "rng":
            link = not any(d[i][k] < d[i][j] and d[j][k] < d[i][j] for k in range(n))
        else:
            kk = max(1, min(cfg["k"], n - 1))
            near = lambda a: sorted((x for x in range(n) if x != a), key=lambda x: (d[a][x], x))[:kk]  # noqa: E731
            link = j in near(i) or i in near(j)
        if link:
            nb.add(j)
    if not nb:
        return 0.0, 0.0
    w = {j: {"uniform": 1.0, "distance": float(d[i][j]), "inverse_distance": 1.0 / (d[i][j] + 1e-12)}[cfg["w"]] for j in nb}
    cut = sum(w[j] for j in nb if ys[j] != ys[i])
    p = y0.count(ys[i]) / len(y0)
    mu, s2 = (1 - p) * sum(w.values()), p * (1 - p) * sum(v * v for v in w.values())
    return cut, mu + (z * sqrt(s2) if s2 > 0 else 0.0)


S4 = M + "s4vm"
SAFE = [{"nl": 2, "nu": 3, "k": 2, "rate": 0.2, "labels": [1, 3]}, {"nl": 3, "nu": 2, "k": 3, "rate": 0.25, "labels": [3, 1, 1]},
        {"nl": 2, "nu": 4, "k": 1, "rate": 0.75, "labels": [0, 1]}, {"nl": 2, "nu": 2, "k": 2, "rate": 0.0, "labels": [1, 3]},
        {"nl": 2, "nu": 3, "k": 0, "rate": 0.2, "labels": [1, 3]}]


@harness("I06", modules=MODS + (S4, "modssc.evaluation.metrics"), nl=True, compact=True, **CTX,
         cfgs=[c if be == "numpy" else {**c, "be": be} for be in ("numpy", "torch") for c in SAFE if be == "numpy" or c["k"]],
         thorough=[{"nl": 3, "nu": 4, "k": 3, "rate": 0.25, "labels": [1, 3, 3]}, {"nl": 3, "nu": 4, "k": 2, "rate": 0.3, "labels": [1, 3, 3], "be": "torch"}],
         bounds="2-3 labelled and 2-4 unlabelled samples of 2 classes, 0-3 candidates, every score vector of every classifier (no two unlabelled "
                "samples equally confident)")
def safe_candidates(I, cfg, C):
    from modssc.inductive.methods.s4vm import S4VMMethod, S4VMSpec

    torch, nl, nu, k = cfg.get("be") == "torch", cfg["nl"], cfg["nu"], cfg["k"]
    labels, bank = cfg["labels"], Bank(I, torch)
    classes = sorted(set(labels))
    m = S4VMMethod(spec_of(S4VMSpec, torch, k_candidates=k, flip_rate=cfg["rate"]))
    m.fit(data(I, nl, nu, labels, torch), device=dev(), seed=1)
    C.require("one baseline and the asked number of candidates are trained, each once", len(bank.clfs) == k + 1 and all(len(c.log) == 1 for c in bank.clfs))
    L, U = list(range(nl)), list(range(100, 100 + nu))
    ids, ys = bank.clfs[0].log[0]
    C.require("the baseline is trained on the labelled samples only", ids == L and And(same_seq(ys, labels)))
    rows = [bank.score(0, 1, u, 2) for u in U]
    conf = [smaximum(r) for r in rows]
    pred = [FakeClassifier.label_of(r, classes) for r in rows]
    I.assume(And([ne(a, b) for i, a in enumerate(conf) for b in conf[:i]]))
    for i, c in enumerate(bank.clfs[1:]):
        ids, ys = c.log[0]
        C.require("a candidate is trained on every labelled sample with its label and every unlabelled one once",
                  sorted(ids) == L + U and And([eq(y, labels[s]) for s, y in zip(ids, ys) if s in L]))
        got = [ys[ids.index(u)] for u in U]
        flips = [ne(g, p) for g, p in zip(got, pred)]
        want = min(cfg["rate"] * (i + 1), 0.5) * nu
        n = count(flips)
        C.require("the asked share of the pseudo-labels is flipped", And(le(2 * n, 2 * want + 1), le(2 * want - 1, 2 * n)))
        C.require("pseudo-labels are classes", And([member(g, classes) for g in got]))
        C.require("the least confident pseudo-labels are the flipped ones",
                  And([Implies(And(f, Not(g)), lt(a, b)) for f, a in zip(flips, conf) for g, b in zip(flips, conf)]))
    acc = [count([eq(c.label(bank.score(c.no, 1, s, 2)), labels[s]) for s in L]) for c in bank.clfs]
    X = arr([[50.0]], np.float64)
    X = T(X) if torch else X
    best, row = acc[0], bank.clfs[0].rows(X)[0]
    for c, a in zip(bank.clfs[1:], acc[1:]):
        b = lt(best, a)
        best, row = If(b, a, best), [If(b, v, w) for v, w in zip(c.rows(X)[0], row)]
    shares(C, m.predict_proba(X), [row])
    C.require("predictions are those of the first classifier with the best labelled accuracy, the baseline if none beats it",
              eq(flat(m.predict(X))[0], FakeClassifier.label_of(row, classes)))
