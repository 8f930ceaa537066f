"""Sampling: split partitions, sizes, label selection, imbalance, determinism."""
from __future__ import annotations

from types import SimpleNamespace as NS

import numpy as np

from symx.harness import harness
from symx.process import new_process
from symx.ops import (And, If, Iff, Implies, Not, Or, close, count, distinct, eq, flat, le, lt, mask_of,
                      member, ne, nested, same_multiset, same_seq, same_set, sorted_inc, total)

MODS = ("modssc.sampling.api", "modssc.sampling.plan")


def _api():
    import modssc.sampling.api as api

    return api


def _plan_mod():
    import modssc.sampling.plan as p

    return p


def _split_spec(I, cfg):
    p = _plan_mod()
    if cfg["kind"] == "holdout":
        tf = I.real("test_fraction", 0, 1)
        vf = I.real("val_fraction", 0, 1)
        return p.HoldoutSplitSpec(test_fraction=tf, val_fraction=vf, stratify=cfg["strat"])
    vf = I.real("val_fraction", 0, 1) if cfg.get("val", True) else 0.0
    fold = I.pick_int("fold", 0, cfg["k"] - 1)
    return p.KFoldSplitSpec(k=cfg["k"], fold=fold, stratify=cfg["strat"], shuffle=cfg.get("shuffle", True),
                            val_fraction=vf)


def _labels(I, n, c, dtype=np.int64, name="y"):
    return I.arr(name, (n,), "i", 0, c - 1, dtype=dtype)


def _partition_checks(C, idx, n, test_ref, n_test):
    tr, va, te = flat(idx["train"]), flat(idx["val"]), flat(idx["test"])
    lab, unl = flat(idx["train_labeled"]), flat(idx["train_unlabeled"])
    for nm, v, hi in (("train", tr, n), ("val", va, n), ("test", te, n_test if test_ref == "test" else n),
                      ("labeled", lab, n), ("unlabeled", unl, n)):
        C.require(f"{nm} indices lie in their base split", And([And(le(0, x), lt(x, hi)) for x in v]))
        C.require(f"{nm} indices are strictly increasing", sorted_inc(v))
    C.require("train and val are disjoint", And([Not(member(x, va)) for x in tr]))
    if test_ref == "train":
        C.require("test is disjoint from train and val",
                  And([Not(member(x, tr + va)) for x in te]))
    C.require("labeled is part of train", And([member(x, tr) for x in lab]))
    C.require("labeled and unlabeled are disjoint", And([Not(member(x, unl)) for x in lab]))
    C.require("labeled and unlabeled cover train", len(lab) + len(unl) == len(tr))


def _cfg_partition():
    out = []
    for n, c, strat in ((1, 1, True), (2, 2, True), (3, 2, True), (4, 1, False), (5, 1, False), (3, 2, False)):
        out.append({"kind": "holdout", "n": n, "c": c, "strat": strat, "official": "none"})
    for imb in ("train", "labeled"):
        out.append({"kind": "holdout", "n": 3, "c": 2, "strat": True, "official": "none", "imb": imb})
        out.append({"kind": "kfold", "n": 4, "c": 1, "strat": False, "official": "kept", "k": 2, "imb": imb})
    for off in ("kept", "override"):
        out.append({"kind": "holdout", "n": 3, "c": 2, "strat": True, "official": off})
        out.append({"kind": "kfold", "n": 4, "c": 1, "strat": False, "official": off, "k": 2})
    for n, k, c, strat in ((3, 2, 2, True), (4, 3, 1, True), (5, 2, 1, False), (4, 3, 1, False)):
        out.append({"kind": "kfold", "n": n, "c": c, "strat": strat, "official": "none", "k": k,
                    "shuffle": n != 4})
    return out


@harness("S01", modules=MODS, cfgs=_cfg_partition,
         thorough=lambda: [{"kind": "holdout", "n": n, "c": c, "strat": s, "official": o}
                           for n, c in ((4, 2), (5, 2), (6, 2)) for s in (False, True)
                           for o in ("none", "kept")]
         + [{"kind": "kfold", "n": n, "c": 2, "strat": s, "official": "none", "k": k}
            for n, k in ((5, 3), (5, 2), (6, 3)) for s in (False, True)],
         compact=True, bounds="training pool <=5 (6 thorough) samples, <=2 classes, every label vector, "
         "every real test/val fraction in [0,1], every permutation/selection the generator may return, "
         "label budget 1..2")
def partition_inductive(I, cfg, C):
    api, p = _api(), _plan_mod()
    n = cfg["n"]
    y = _labels(I, n, cfg["c"])
    split = _split_spec(I, cfg)
    budget = I.pick_int("budget", 1, 2)
    im = p.ImbalanceSpec()
    if cfg.get("imb"):
        im = p.ImbalanceSpec(kind="subsample_max_per_class", apply_to=cfg["imb"], max_per_class=1)
    policy = p.SamplingPolicy(respect_official_test=True,
                              allow_override_official=cfg["official"] == "override")
    plan = p.SamplingPlan(split=split, labeling=p.LabelingSpec(mode="count", value=budget), policy=policy,
                          imbalance=im)
    test = NS(y=np.zeros(2, dtype=np.int64), X=None) if cfg["official"] != "none" else None
    ds = NS(train=NS(y=y, X=None), test=test, meta={"dataset_fingerprint": "fp"})
    res, _ = api.sample(ds, plan=plan, seed=3)
    idx = res.indices
    ref = res.refs["test"]
    C.require("the official test split is used exactly when asked",
              (ref == "test") == (cfg["official"] == "kept"))
    _partition_checks(C, idx, n, ref, 2)
    tr, va, te = len(flat(idx["train"])), len(flat(idx["val"])), len(flat(idx["test"]))
    if ref == "test":
        C.require("official test indices are the whole test split", flat(idx["test"]) == [0, 1])
        C.require("train and val cover the training pool", tr + va == n or cfg.get("imb") == "train")
    else:
        C.require("train, val and test cover the pool", tr + va + te == n or cfg.get("imb") == "train")


@harness("S01", modules=MODS, compact=True,
         cfgs=[{"kind": "holdout", "n": 3, "c": 2, "strat": True, "official": False},
               {"kind": "kfold", "n": 4, "c": 1, "strat": False, "official": False, "k": 3},
               {"kind": "holdout", "n": 4, "c": 1, "strat": False, "official": True},
               {"kind": "holdout", "n": 3, "c": 2, "strat": False, "official": True}],
         bounds="<=4 nodes, every label vector, every official mask triple or every fraction")
def partition_graph(I, cfg, C):
    api, p = _api(), _plan_mod()
    n = cfg["n"]
    y = _labels(I, n, cfg["c"])
    masks = None
    if cfg["official"]:
        masks = {k: I.arr(f"mask_{k}", (n,), "b") for k in ("train", "val", "test")}
        for i in range(n):
            I.assume(le(count([flat(masks[k])[i] for k in masks]), 1))
        split = p.HoldoutSplitSpec()
        want = {k: flat(m.copy()) for k, m in masks.items()}
    else:
        split = _split_spec(I, cfg)
    budget = I.pick_int("budget", 1, 2)
    plan = p.SamplingPlan(split=split, labeling=p.LabelingSpec(mode="count", value=budget))
    ds = NS(train=NS(y=y, X=None, edges=np.zeros((2, 0), dtype=np.int64), masks=masks), test=None,
            meta={"dataset_fingerprint": "fp"})
    res, _ = api.sample(ds, plan=plan, seed=5)
    m = {k: flat(v) for k, v in res.masks.items()}
    C.require("all five masks are present with one entry per node",
              sorted(m) == ["labeled", "test", "train", "unlabeled", "val"]
              and all(len(v) == n for v in m.values()))
    for i in range(n):
        t3 = count([m["train"][i], m["val"][i], m["test"][i]])
        if cfg["official"]:
            C.require("train, val and test masks are disjoint", le(t3, 1))
            C.require("official masks are used unchanged",
                      And([Iff(m[k][i], want[k][i]) for k in want]))
        else:
            C.require("every node is in exactly one of train, val and test", eq(t3, 1))
        C.require("labeled nodes are train nodes", Implies(m["labeled"][i], m["train"][i]))
        C.require("unlabeled nodes are the other train nodes",
                  Iff(m["unlabeled"][i], And(m["train"][i], Not(m["labeled"][i]))))


# --- S02 sizes ---------------------------------------------------------------

def _round_ok(C, label, got, frac, n):
    """got == round(frac*n) with either neighbour accepted on exact ties."""
    C.require(label, And(le(got * 2 - 1, frac * (2 * n)), le(frac * (2 * n), got * 2 + 1)))


@harness("S02", modules=MODS, compact=True,
         cfgs=[{"kind": "holdout", "n": n, "c": c, "strat": s}
               for n, c, s in ((5, 1, False), (8, 1, False), (4, 2, True), (5, 2, True), (4, 3, True))],
         thorough=[{"kind": "holdout", "n": n, "c": c, "strat": s}
                   for n, c, s in ((12, 1, False), (6, 2, True), (5, 3, True), (7, 2, True))],
         bounds="pool <=8 (12 thorough), every label vector over <=3 classes, every fraction in [0,1]")
def holdout_sizes(I, cfg, C):
    from modssc.sampling import splitters

    n = cfg["n"]
    y = _labels(I, n, cfg["c"])
    tf, vf = I.real("test_fraction", 0, 1), I.real("val_fraction", 0, 1)
    parts = splitters.make_holdout_split(n_samples=n, y=y, test_fraction=tf, val_fraction=vf,
                                         stratify=cfg["strat"], rng=_np().random.default_rng(1))
    tr, va, te = (flat(parts[k]) for k in ("train", "val", "test"))
    _round_ok(C, "test holds the requested fraction of the pool", len(te), tf, n)
    _round_ok(C, "val holds the requested fraction of what is left", len(va), vf, n - len(te))
    C.require("the three parts partition the pool",
              And(distinct(tr + va + te), len(tr + va + te) == n, And([And(le(0, i), lt(i, n)) for i in tr + va + te])))
    if cfg["strat"] and 0 < len(te) < n:
        yl = flat(y)
        for c in range(cfg["c"]):
            nc = count([eq(v, c) for v in yl])
            got = count([Or([And(eq(t, i), eq(yl[i], c)) for i in range(n)]) for t in te])
            # |got - nc*len(te)/n| < 1
            C.require("stratified test keeps each class within one sample of its share",
                      And(lt(got * n, nc * len(te) + n), lt(nc * len(te) - n, got * n)))


def _np():
    from modssc.sampling import splitters

    return splitters.np


@harness("S02", modules=MODS, compact=True,
         cfgs=[{"n": n, "k": k, "c": c, "strat": s, "shuffle": sh}
               for n, k, c, s, sh in ((5, 2, 1, False, True), (5, 3, 1, False, False), (3, 4, 1, False, True),
                                      (4, 2, 2, True, False), (3, 2, 2, True, True), (5, 3, 2, True, False))],
         thorough=[{"n": n, "k": k, "c": c, "strat": s, "shuffle": sh}
                   for n, k, c, s, sh in ((6, 3, 2, True, False), (4, 2, 2, True, True), (5, 2, 3, True, False),
                                          (7, 3, 1, False, True))],
         bounds="pool <=5 (7 thorough), 2..4 folds, every label vector over <=2 (3) classes, every shuffle")
def kfold_partition(I, cfg, C):
    from modssc.sampling import splitters

    n, k = cfg["n"], cfg["k"]
    y = _labels(I, n, cfg["c"])
    tests = []
    for fold in range(k):
        parts = splitters.make_kfold_split(n_samples=n, y=y, k=k, fold=fold, stratify=cfg["strat"],
                                           shuffle=cfg["shuffle"], val_fraction=0.0,
                                           rng=_np().random.default_rng(7))
        te, tr = flat(parts["test"]), flat(parts["train"])
        C.require("each fold's train is the complement of its test",
                  And(len(te) + len(tr) == n, distinct(te + tr)))
        C.require("no validation part when none is asked for", len(flat(parts["val"])) == 0)
        tests.append(te)
    allt = [i for t in tests for i in t]
    C.require("the test folds of one seed partition the pool",
              And(len(allt) == n, distinct(allt), And([And(le(0, i), lt(i, n)) for i in allt])))
    yl = flat(y)
    if not cfg["strat"]:
        sz = [len(t) for t in tests]
        C.require("fold sizes differ by at most one", max(sz) - min(sz) <= 1)
    else:
        for c in range(cfg["c"]):
            per = [count([Or([And(eq(t, i), eq(yl[i], c)) for i in range(n)]) for t in te]) for te in tests]
            C.require("per-class fold counts differ by at most one",
                      And([le(a - b, 1) for a in per for b in per]))
    if not cfg["shuffle"] and not cfg["strat"]:
        C.require("without shuffling folds are consecutive blocks", allt == list(range(n)))


@harness("S02", modules=MODS, compact=True, nl=True,
         cfgs=[{"n": 4, "k": 2, "c": 2, "strat": True, "shuffle": False, "fold": 1}, {"n": 5, "k": 2, "c": 2, "strat": True, "shuffle": False, "fold": 0},
               {"n": 4, "k": 2, "c": 2, "strat": True, "shuffle": True, "fold": 0}, {"n": 5, "k": 3, "c": 1, "strat": False, "shuffle": False, "fold": 2},
               {"n": 4, "k": 2, "c": 1, "strat": False, "shuffle": True, "fold": 1}, {"n": 6, "k": 2, "c": 2, "strat": True, "shuffle": False, "fold": 1}],
         thorough=[{"n": 6, "k": 3, "c": 3, "strat": True, "shuffle": False, "fold": 2}, {"n": 7, "k": 2, "c": 2, "strat": True, "shuffle": False, "fold": 0},
                   {"n": 5, "k": 2, "c": 2, "strat": True, "shuffle": True, "fold": 1}],
         bounds="pool 4..6 (7), 2-3 folds, any validation fraction, every label vector over <=2 (3) classes, every shuffle")
def kfold_validation(I, cfg, C):
    from modssc.sampling import splitters

    n, k = cfg["n"], cfg["k"]
    y, yl = _labels(I, n, cfg["c"]), None
    vf = I.real("val_fraction", 0, 1)
    kw = dict(n_samples=n, y=y, k=k, fold=cfg["fold"], stratify=cfg["strat"], shuffle=cfg["shuffle"])
    parts = splitters.make_kfold_split(val_fraction=vf, rng=_np().random.default_rng(7), **kw)
    tr, va, te = (flat(parts[p]) for p in ("train", "val", "test"))
    yl = flat(y)
    C.require("train, validation and test partition the pool",
              And(len(tr) + len(va) + len(te) == n, distinct(tr + va + te), And([And(le(0, i), lt(i, n)) for i in tr + va + te])))
    _round_ok(C, "validation holds the requested fraction of the train pool", len(va), vf, n - len(te))
    ref = flat(splitters.make_kfold_split(val_fraction=0.0, rng=_np().random.default_rng(7), **kw)["test"])
    C.require("asking for validation leaves the test fold as it is", same_seq(te, ref))
    if cfg["strat"] and 0 < len(va) < len(tr) + len(va):
        m = len(tr) + len(va)
        for c in range(cfg["c"]):
            has = lambda part: count([Or([And(eq(t, i), eq(yl[i], c)) for i in range(n)]) for t in part])
            got, nc = has(va), has(va) + has(tr)
            C.require("stratified validation keeps each class within one sample of its share",
                      And(lt(got * m, nc * len(va) + m), lt(nc * len(va) - m, got * m)))


# --- S03 label selection ------------------------------------------------------

def _cfg_label():
    out = []
    for n, c, mode, strat in ((4, 2, "fraction", "proportional"), (4, 2, "fraction", "balanced"),
                              (4, 2, "count", "balanced"), (4, 3, "count", "proportional"),
                              (5, 2, "count", "proportional"), (4, 2, "per_class", "proportional"),
                              (4, 3, "count", "balanced"), (5, 2, "per_class", "balanced")):
        out.append({"n": n, "c": c, "mode": mode, "strategy": strat})
    return out


@harness("S03", modules=MODS, compact=True, cfgs=_cfg_label,
         thorough=lambda: [{"n": n, "c": c, "mode": m, "strategy": s} for n, c in ((5, 3), (6, 2))
                           for m in ("fraction", "count", "per_class") for s in ("proportional", "balanced")],
         bounds="<=5 (6) train samples among <=7 dataset rows, <=3 classes, every label vector, every label "
         "value, min_per_class 0..2")
def label_budget(I, cfg, C):
    from modssc.sampling.labeling import select_labeled

    p = _plan_mod()
    n, c = cfg["n"], cfg["c"]
    y = _labels(I, n + 1, c)
    train = np.arange(1, n + 1, dtype=np.int64)  # row 0 is not a train row
    if I.mode == "symbolic":
        from symx.arr import sarr

        train = sarr(train)
    if cfg["mode"] == "fraction":
        value = I.real("value", 0, 1)
        I.assume(lt(0, value))
    else:
        value = I.int("value", 0, n if cfg["mode"] == "count" else 3)
    mpc = I.pick_int("min_per_class", 0, 2)
    spec = p.LabelingSpec(mode=cfg["mode"], value=value, min_per_class=mpc, strategy=cfg["strategy"])
    lab = flat(select_labeled(train_idx=train, y=y, spec=spec, rng=_np().random.default_rng(2)))
    yl = flat(y)
    C.require("labeled indices are distinct train indices in increasing order",
              And(sorted_inc(lab), And([And(le(1, i), le(i, n)) for i in lab])))
    cnt = [count([eq(yl[i], k) for i in range(1, n + 1)]) for k in range(c)]
    got = [count([Or([And(eq(t, i), eq(yl[i], k)) for i in range(1, n + 1)]) for t in lab]) for k in range(c)]
    m = len(lab)
    present = count([lt(0, x) for x in cnt])
    for k in range(c):
        C.require("a class with enough samples gets at least min_per_class labels",
                  Implies(le(mpc, cnt[k]), le(mpc, got[k])))
    # the floor forced by min_per_class
    floor = total([If(le(mpc, x), mpc, 0) for x in cnt])
    if cfg["mode"] == "count":
        C.require("the label count is the requested number unless min_per_class forces more",
                  Or(eq(m, value), And(lt(value, floor), le(value, m), le(m, floor))))
    elif cfg["mode"] == "fraction":
        okr = And(le(m * 2 - 1, value * (2 * n)), le(value * (2 * n), m * 2 + 1))
        C.require("the label count is the requested fraction unless min_per_class forces more",
                  Or(okr, And(lt(value * (2 * n), m * 2), le(m, floor))))
    else:
        tgt = value * present
        for k in range(c):
            want = If(le(value, cnt[k]), value, cnt[k])
            C.require("per-class labeling takes the requested number of every large enough class",
                      Implies(And([Or(eq(x, 0), And(le(value, x), le(mpc, value))) for x in cnt]), eq(got[k], want)))
        C.require("per-class labeling never exceeds its total unless min_per_class forces more",
                  Or(le(m, tgt), le(m, floor)))
    if cfg["strategy"] == "balanced" and cfg["mode"] == "count":
        for k in range(c):
            for j in range(c):
                C.require("balanced labels differ by at most one between classes that are not exhausted",
                          Implies(And(lt(got[k], cnt[k]), lt(0, cnt[k]), lt(0, cnt[j]), mpc == 0), le(got[j] - got[k], 1)))


@harness("S03", modules=MODS, compact=True, cfgs=[{"n": 3, "m": 2}, {"n": 4, "m": 3}],
         bounds="<=4 train rows, <=3 fixed indices in 0..5")
def fixed_labels(I, cfg, C):
    from modssc.sampling.errors import SamplingValidationError
    from modssc.sampling.labeling import select_labeled

    p = _plan_mod()
    n, m = cfg["n"], cfg["m"]
    y = _labels(I, 6, 2)
    tr = I.arr("train", (n,), "i", 0, 5)
    trl = flat(tr)
    I.assume(sorted_inc(trl))
    fx = flat(I.arr("fixed", (m,), "i", 0, 5))
    spec = p.LabelingSpec(fixed_indices=list(fx))
    ok = And(distinct(fx), And([member(f, trl) for f in fx]))
    try:
        lab = flat(select_labeled(train_idx=tr, y=y, spec=spec, rng=_np().random.default_rng(2)))
    except SamplingValidationError:
        C.require("valid fixed indices are accepted", Not(ok))
        return
    C.require("fixed indices outside train or repeated are rejected", ok)
    C.require("fixed indices are exactly the labeled set", And(same_multiset(lab, fx), sorted_inc(lab)))


# --- S04 imbalance --------------------------------------------------------------

@harness("S04", modules=MODS, compact=True,
         cfgs=[{"n": n, "c": c, "kind": k} for n, c, k in ((4, 2, "subsample_max_per_class"),
                                                          (5, 2, "subsample_max_per_class"),
                                                          (4, 3, "subsample_max_per_class"), (4, 2, "none"),
                                                          (4, 2, "long_tail"), (4, 3, "long_tail"),
                                                          (5, 2, "long_tail"))],
         thorough=[{"n": n, "c": c, "kind": k} for n, c in ((5, 3), (6, 2))
                   for k in ("subsample_max_per_class", "long_tail")],
         bounds="<=5 (6) samples, <=3 classes, every label vector, cap 1..3, every real decay in (0,1)")
def imbalance(I, cfg, C):
    from modssc.sampling.imbalance import apply_imbalance

    p = _plan_mod()
    n, c = cfg["n"], cfg["c"]
    y = _labels(I, n + 1, c)
    idx = np.arange(1, n + 1, dtype=np.int64)
    if I.mode == "symbolic":
        from symx.arr import sarr

        idx = sarr(idx)
    cap = alpha = None
    mpc = 1
    if cfg["kind"] == "subsample_max_per_class":
        cap = I.pick_int("cap", 1, 3)
    elif cfg["kind"] == "long_tail":
        alpha = I.real("alpha", 0, 1)
        I.assume(And(lt(0, alpha), lt(alpha, 1)))
        mpc = I.pick_int("min_per_class", 0, 2)
    spec = p.ImbalanceSpec(kind=cfg["kind"], apply_to="train", max_per_class=cap, alpha=alpha, min_per_class=mpc)
    out = flat(apply_imbalance(idx=idx, y=y, spec=spec, rng=_np().random.default_rng(4)))
    yl = flat(y)
    C.require("the result is a sorted duplicate-free subset of the input",
              And(sorted_inc(out), And([And(le(1, i), le(i, n)) for i in out])))
    cnt = [count([eq(yl[i], k) for i in range(1, n + 1)]) for k in range(c)]
    got = [count([Or([And(eq(t, i), eq(yl[i], k)) for i in range(1, n + 1)]) for t in out]) for k in range(c)]
    if cfg["kind"] == "none":
        C.require("no imbalance keeps every sample", len(out) == n)
        return
    for k in range(c):
        if cap is not None:
            C.require("each class is capped and no class loses more than needed",
                      eq(got[k], If(le(cap, cnt[k]), cap, cnt[k])))
        else:
            C.require("no class vanishes below its guaranteed minimum",
                      le(If(le(mpc, cnt[k]), mpc, cnt[k]), got[k]))
            mx = cnt[0]
            for x in cnt[1:]:
                mx = If(lt(mx, x), x, mx)
            # the most frequent class keeps all its samples when it is the only one of that size
            uniq = And([Or(j == k, lt(cnt[j], cnt[k])) for j in range(c)])
            C.require("the most frequent class keeps its size", Implies(uniq, eq(got[k], cnt[k])))
            C.require("any other class keeps at most the decayed size",
                      Implies(And(lt(0, cnt[k]), Not(eq(cnt[k], mx)), le(mpc, 0)),
                              le(got[k] * 2 - 1, mx * alpha * 2)))


@harness("S04", modules=MODS, compact=True, cfgs=[{"counts": [2, 6, 3, 4]}, {"counts": [1, 1, 7, 5, 3]}],
         bounds="four and five classes of given sizes, decays 1/2, 4/5 and 9/10, minimum 0..2, every random draw")
def long_tail_of_many_classes(I, cfg, C):
    from modssc.sampling.imbalance import apply_imbalance

    cnt = cfg["counts"]
    c = len(cnt)
    yl = [k for k in range(c) for _ in range(cnt[k])]
    n = len(yl)
    y, idx = np.array([0] + yl, dtype=np.int64), np.arange(1, n + 1, dtype=np.int64)
    alpha, mpc = I.choice("alpha", [0.5, 0.8, 0.9]), I.pick_int("min_per_class", 0, 2)
    spec = _plan_mod().ImbalanceSpec(kind="long_tail", apply_to="train", max_per_class=None, alpha=alpha, min_per_class=mpc)
    if I.mode == "symbolic":
        from symx.arr import sarr

        y, idx = sarr(y), sarr(idx)
    out = flat(apply_imbalance(idx=idx, y=y, spec=spec, rng=_np().random.default_rng(4)))
    C.require("the result is a sorted duplicate-free subset of the input",
              And(sorted_inc(out), And([And(le(1, i), le(i, n)) for i in out])))
    rank = sorted(range(c), key=lambda k: -cnt[k])
    for r, k in enumerate(rank):
        got = count([Or([eq(t, i + 1) for i in range(n) if yl[i] == k]) for t in out])
        want = min(max(cnt), 10 ** 6) * alpha ** r
        ok = [min(cnt[k], max(v, mpc)) for v in range(0, n + 1) if abs(v - want) <= 0.5 + 1e-9]
        tie = [j for j in range(c) if j != k and cnt[j] == cnt[k]]  # classes of one size may swap ranks
        for j in tie:
            w = max(cnt) * alpha ** rank.index(j)
            ok += [min(cnt[k], max(v, mpc)) for v in range(0, n + 1) if abs(v - w) <= 0.5 + 1e-9]
        C.require("the class of rank r keeps the largest size times alpha to the r", member(got, ok))


# --- S05 determinism and independence --------------------------------------------

def _run_pair(I, C, cfg, plan1, plan2, y1, y2, seed1=11, seed2=11, graph=False):
    api = _api()
    from symx import rng as _r
    from symx.core import Ctx

    def mk(y):
        return NS(train=NS(y=y, X=None), test=None, meta={"dataset_fingerprint": "fp"})

    r1, _ = api.sample(mk(y1), plan=plan1, seed=seed1)
    new_process()
    if Ctx.cur is not None:
        _r.reset_ambient()
    r2, _ = api.sample(mk(y2), plan=plan2, seed=seed2)
    return r1, r2


@harness("S05", modules=MODS, compact=True,
         cfgs=[{"kind": "holdout", "n": 4, "c": 1, "strat": False}, {"kind": "holdout", "n": 3, "c": 2, "strat": True},
               {"kind": "kfold", "n": 4, "c": 1, "strat": False, "k": 2, "val": False},
               {"kind": "kfold", "n": 3, "c": 2, "strat": True, "k": 2, "val": False}],
         bounds="<=4 samples, every label vector and fraction; both runs share seed and plan, every other "
         "source of randomness is arbitrary in each run")
def same_seed_same_split(I, cfg, C):
    p = _plan_mod()
    y = _labels(I, cfg["n"], cfg["c"])
    split = _split_spec(I, cfg)
    imb = I.choice("imbalance", ["none", "train", "labeled"])
    im = p.ImbalanceSpec() if imb == "none" else p.ImbalanceSpec(kind="subsample_max_per_class", apply_to=imb, max_per_class=1)
    plan = p.SamplingPlan(split=split, labeling=p.LabelingSpec(mode="count", value=2), imbalance=im)
    y0 = flat(y.copy())
    r1, r2 = _run_pair(I, C, cfg, plan, plan, y, y.copy())
    for k in r1.indices:
        C.require("equal seed, plan and data give the same split", same_seq(flat(r1.indices[k]), flat(r2.indices[k])))
    C.require("equal seed, plan and data give the same split fingerprint",
              r1.split_fingerprint == r2.split_fingerprint)
    C.require("the labels are not modified", same_seq(y0, flat(y)))


@harness("S05", modules=MODS, compact=True,
         cfgs=[dict(c, lab=la) for la in ("count", "fraction", "per_class", "balanced", "floor")
               for c in ({"kind": "holdout", "n": 4, "c": 1, "strat": False}, {"kind": "holdout", "n": 3, "c": 2, "strat": True},
                         {"kind": "kfold", "n": 4, "c": 1, "strat": False, "k": 2, "val": False})
               if la == "count" or c["kind"] == "kfold" or c["c"] == 1],
         bounds="<=4 samples; two labeling policies / imbalance settings under one seed")
def held_out_sets_do_not_depend_on_label_budget(I, cfg, C):
    p = _plan_mod()
    y = _labels(I, cfg["n"], cfg["c"])
    split = _split_spec(I, cfg)
    imb = I.choice("imbalance", [None, "labeled", "train"]) if cfg["lab"] == "count" else None
    im = p.ImbalanceSpec() if imb is None else p.ImbalanceSpec(kind="subsample_max_per_class", apply_to=imb, max_per_class=1)
    a = p.SamplingPlan(split=split, labeling=p.LabelingSpec(mode="count", value=1))
    lab = cfg["lab"]
    lb = {"count": dict(mode="count", value=2), "fraction": dict(mode="fraction", value=0.5),
          "per_class": dict(mode="per_class", value=1, per_class=True),
          "balanced": dict(mode="count", value=2, strategy="balanced"),
          "floor": dict(mode="count", value=1, min_per_class=I.pick_int("floor", 2, 3))}[lab]
    b = p.SamplingPlan(split=split, labeling=p.LabelingSpec(**lb), imbalance=im)
    r1, r2 = _run_pair(I, C, cfg, a, b, y, y.copy())
    for k in ("test", "val"):
        C.require(f"the {k} set depends on the split seed only", same_seq(flat(r1.indices[k]), flat(r2.indices[k])))
    if imb != "train":
        C.require("the train set depends on the split seed only",
                  same_seq(flat(r1.indices["train"]), flat(r2.indices["train"])))
    C.require("different plans have different split fingerprints", r1.split_fingerprint != r2.split_fingerprint)
