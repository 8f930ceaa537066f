"""Benchmark runner: limits, data plumbing, evaluation, model selection, sweeps."""
from __future__ import annotations

import contextlib
import copy
import importlib
from dataclasses import dataclass
from types import SimpleNamespace as NS

import numpy as np

from props.preprocess import _same
from props.storage import scratch
from symx import npshim
from symx.arr import sarr
from symx.core import is_sym
from symx.harness import harness
from symx.ops import And, If, Iff, Implies, Not, Or, close, count, distinct, eq, flat, le, lec, lt, member, ne, \
    nested, same_multiset, same_seq, same_set, total
from symx.tshim import T, TorchPatch

NP = npshim.NP
B = "bench."
LIM = B + "limits"
SLI, EVA, IND, TRA = (B + "orchestrators." + m for m in ("slicing", "evaluation", "method_inductive", "method_transductive"))
PRE, GRA, SAM, HPO, REP, AUG = (B + "orchestrators." + m for m in ("preprocess", "graph", "sampling", "hpo", "reporting",
                                                                 "augmentation"))
MAIN = B + "main"
UTL = (B + "utils.hashing", B + "utils.io", B + "context", B + "seed_sweep", B + "schema")


def _m(n):
    return importlib.import_module(n)


# ------------------------------------------------------------------ B01 limits

PRESETS = {"v100": dict(pre=32, meth=128, sup=64, chunk=512), "h100": dict(pre=64, meth=512, sup=256, chunk=1024),
           None: {}}
# where each cap applies: path of the mapping, key, cap, set when missing
PLACES = [(("dataset", "options"), "max_train_samples", "train", True),
          (("dataset", "options"), "max_test_samples", "test", True),
          (("preprocess", "plan", "steps", 0, "params"), "batch_size", "pre", False),
          (("preprocess", "plan", "steps", 2, "params"), "batch_size", "pre", False),
          (("views", "plan", "views", 1, "preprocess", "steps", 0, "params"), "batch_size", "pre", False),
          (("method", "params"), "batch_size", "meth", False),
          (("method", "params"), "sup_batch_size", "sup", False),
          (("method", "params", "classifier_params"), "batch_size", "meth", False),
          (("method", "model", "classifier_params"), "batch_size", "meth", False),
          (("graph", "spec"), "chunk_size", "chunk", True)]


def _raw():
    return {"run": {"seed": 3, "batch_size": 9999},
            "dataset": {"id": "toy", "options": {"keep": 9999}, "batch_size": 9999},
            "preprocess": {"plan": {"steps": [{"id": "a", "params": {"n": 9999}}, {"id": "b"}, {"id": "c", "params": {}}]}},
            "views": {"plan": {"views": [{"name": "p"}, {"name": "q", "preprocess": {
                "steps": [{"id": "d", "params": {"chunk_size": 9999}}]}}]}},
            "method": {"id": "m", "params": {"lr": 9999, "classifier_params": {"max_iter": 9999}, "other": {"batch_size": 9999}},
                       "model": {"classifier_params": {"hidden": 9999}}},
            "graph": {"spec": {"k": 9999}}, "evaluation": {"chunk_size": 9999}}


def _at(d, path):
    for p in path:
        d = d[p]
    return d


def _leaves(d, path=()):
    if isinstance(d, dict):
        for k, v in d.items():
            yield from _leaves(v, path + (k,))
    elif isinstance(d, list):
        for k, v in enumerate(d):
            yield from _leaves(v, path + (k,))
    else:
        yield path, d


@harness("B01", modules=(LIM, UTL[4]), compact=True,
         cfgs=[{"profile": p, "caps": c, "grp": g} for p in ("v100", "h100", None) for c in ("none", "all", "some")
               for g in ([0, 1, 2, 3], [4, 5, 6], [7, 8, 9])],
         bounds="every place a cap applies to, each holding any positive integer or nothing; presets and explicit caps")
def limits_only_lower(I, cfg, C):
    """Caps lower what exceeds them and touch nothing else; the report lists exactly what changed."""
    lim = _m(LIM)
    schema = _m(UTL[4])
    names = {"pre": "max_preprocess_batch_size", "meth": "max_method_batch_size", "sup": "max_method_sup_batch_size",
             "chunk": "max_graph_chunk_size", "train": "max_train_samples", "test": "max_test_samples"}
    explicit = {}
    for k in names:
        if cfg["caps"] == "all" or (cfg["caps"] == "some" and k in ("meth", "train", "chunk")):
            explicit[k] = I.int(f"cap_{k}", 1, 2000)
    raw = _raw()
    vals = {}
    missing = I.choice("missing", [None, "all"] + cfg["grp"])
    for j, (path, key, _, _) in enumerate(PLACES):
        if missing == j or missing == "all":
            continue
        vals[j] = _at(raw, path)[key] = I.int(f"v{j}", 1, 2000) if j in cfg["grp"] else 1
    before = copy.deepcopy(_raw())
    cfg_l = schema.LimitsConfig(profile=cfg["profile"], **{names[k]: v for k, v in explicit.items()})
    out, changes, resolved = lim.apply_limits(raw, limits=cfg_l, strict=True)
    caps = {**PRESETS[cfg["profile"]], **explicit}
    C.require("no caps, no effect", (resolved is None) == (not caps))
    known = {path + (key,): j for j, (path, key, _, _) in enumerate(PLACES)}
    n_changed = []
    for j, (path, key, cap, setm) in enumerate(PLACES):
        box = _at(out, path)
        c = caps.get(cap)
        if j not in vals:
            if c is not None and setm:
                C.require("a missing cap is filled in", key in box and eq(box[key], c))
                n_changed.append(True)
            else:
                C.require("nothing is invented", key not in box)
            continue
        want = vals[j] if c is None else If(le(vals[j], c), vals[j], c)
        C.require("the value is the smaller of value and cap", eq(box[key], want))
        n_changed.append(False if c is None else lt(c, vals[j]))
    C.require("one line per change", eq(count(n_changed), len(changes)))
    got = {p: v for p, v in _leaves(out) if p not in known}
    C.require("nothing else changes", got == {p: v for p, v in _leaves(before)})
    again, more, _ = lim.apply_limits(copy.deepcopy(out), limits=cfg_l, strict=True)
    C.require("capping twice changes nothing", more == [] and And([eq(_at(again, p)[k], _at(out, p)[k])
                                                                   for p, k, _, _ in PLACES if k in _at(out, p)]))


# ------------------------------------------------------------------ shared pieces


def _perm(I, name, n, rows):
    """n distinct row numbers below `rows`."""
    a = I.arr(name, (n,), "i", 0, rows - 1)
    I.assume(distinct(flat(a)))
    return a


def _sampling(indices=None, refs=None, masks=None, stats=None):
    S = _m("modssc.sampling.result").SamplingResult
    return S(schema_version=1, created_at="now", dataset_fingerprint="d", split_fingerprint="s", plan={"p": 1},
             indices=indices or {}, refs=refs or {}, masks=masks or {}, stats=stats or {})


def _pre(train, test=None, train_art=None, test_art=None, fp="pre"):
    t = _m("modssc.data_loader.types")
    st = _m("modssc.preprocess.store").ArtifactStore
    pt = _m("modssc.preprocess.types")
    ds = t.LoadedDataset(train=t.Split(**train), test=None if test is None else t.Split(**test),
                         meta={"dataset_fingerprint": "ds"})

    def store(d):
        s = st()
        for k, v in (d or {}).items():
            s.set(k, v)
        return s

    plan = NS(fingerprint="plan", skipped=(), steps=())
    return pt.PreprocessResult(dataset=ds, plan=plan, train_artifacts=store(train_art),
                               test_artifacts=None if test is None else store(test_art),
                               preprocess_fingerprint=fp, cache_dir=None)


def _mcfg(kind="inductive", method="fake", **params):
    s = _m(UTL[4])
    return s.MethodConfig(kind=kind, method_id=method, device=s.DeviceConfig(device="cpu", dtype="float32"), params=dict(params), model=None)


@dataclass
class FakeSpec:
    alpha: float = 1.0
    beta: int = 0


class Fake:
    """A method that records what it is trained on and answers from a table of labels per row number."""

    seen: list = []
    table = None
    wide = 0

    def __init__(self, spec=None):
        self.spec = spec if spec is not None else FakeSpec()

    def fit(self, data, device=None, seed=0):
        Fake.seen.append((self.spec, data, device, seed))
        return self

    def _lookup(self, x):
        return [Fake.table(v) for v in flat(x[:, 0])]

    def predict(self, data):
        x = data.X_l if hasattr(data, "X_l") else data
        return np.stack([np.asarray(v) for v in self._lookup(x)]) if len(x) else np.zeros((0,), dtype=np.int64)

    def predict_proba(self, data):
        """Column j is the j-th class the method was trained on (here: listed backwards)."""
        raise NotImplementedError


@contextlib.contextmanager
def fakes():
    Fake.seen = []
    mods = [_m(IND), _m(TRA)]
    old = [(m, k, getattr(m, k)) for m in mods for k in ("get_method_class", "get_method_info")]
    for m in mods:
        m.get_method_class = lambda _id: Fake
        m.get_method_info = lambda _id: NS(supports_gpu=False)
    try:
        yield Fake
    finally:
        for m, k, v in old:
            setattr(m, k, v)


def _gather(table, idx):
    """table[idx] for a possibly symbolic index."""
    r = table[-1]
    for k in range(len(table) - 1):
        r = If(eq(idx, k), table[k], r)
    return r


# ------------------------------------------------------------------ B02 the right rows reach method and metrics


@harness("B02", modules=(SLI,), compact=True, contexts=(TorchPatch,),
         cfgs=[{"what": w} for w in ("array", "vector", "list", "mapping", "torch", "torchmap")],
         bounds="4 rows, 3 selected with repeats and in any order, every negative index")
def select_rows_takes_the_named_rows(I, cfg, C):
    """Selecting rows keeps exactly the named rows in the named order, of every row-aligned part."""
    sel = _m(SLI).select_rows
    err = _m(B + "errors").BenchRuntimeError
    X = I.arr("X", (4, 2), "r", -5, 5)
    y = I.arr("y", (4,), "i", -5, 5)
    idx = I.arr("idx", (3,), "i", -1, 3)
    what = cfg["what"]
    if what in ("torch", "torchmap"):
        X, y = T(X), T(y)
    lst = ["a", "b", "c", "d"]
    src = {"array": X, "torch": X, "vector": y, "list": lst,
           "mapping": {"x": X, "y": y, "w": lst, "name": "n"}, "torchmap": {"x": X, "y": y, "s": 3}}[what]
    keep = dict(src) if isinstance(src, dict) else None
    try:
        got = sel(src, idx, context="t")
    except err:
        C.require("only negative rows are rejected", Or([lt(v, 0) for v in flat(idx)]))
        return
    C.require("negative rows are rejected", And([le(0, v) for v in flat(idx)]))

    def rows_ok(g, a):
        if isinstance(a, list):
            return len(g) == 3 and And([Or([And(eq(i, k), g[p] == a[k]) for k in range(4)])
                                        for p, i in enumerate(flat(idx))])
        gl, al = nested(g), nested(a)
        return len(gl) == 3 and And([And([Implies(eq(i, k), _eqrow(gl[p], al[k])) for k in range(4)])
                                     for p, i in enumerate(flat(idx))])

    if keep is None:
        C.require("the rows are the named ones", rows_ok(got, src))
        return
    C.require("nothing is lost", set(got) == set(keep))
    for k, v in keep.items():
        C.require("every part has the named rows", rows_ok(got[k], v) if k in ("x", "y", "w") else got[k] == v)
    C.require("no rows, no data", sel(None, idx, context="t") is None)


def _eqrow(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and And([_eqrow(x, y) for x, y in zip(a, b)])
    return eq(a, b)


def _views(pre, n):
    t = _m("modssc.data_loader.types")
    mk = (lambda s, k: None if s is None else t.Split(X=s.X + 10 * (k + 1), y=s.y))
    return _m("modssc.views.types").ViewsResult(
        views={f"v{k}": t.LoadedDataset(train=mk(pre.dataset.train, k), test=mk(pre.dataset.test, k), meta={})
               for k in range(n)}, columns={}, plan=None, seed=0, meta={})


@harness("B02", modules=(IND, SLI), compact=True,
         cfgs=[{"labels": l, "views": v, "nl": nl} for l in ("y", "labels.y") for v in (0, 2) for nl in (1, 2, 4)],
         thorough=[{"labels": l, "views": v, "nl": nl, "n": 5} for l in ("y", "labels.y") for v in (0, 2) for nl in (2, 3)],
         bounds="4-5 training rows, every assignment to labelled and unlabelled, in any order")
def inductive_method_gets_the_named_rows(I, cfg, C):
    """The method is fitted on exactly the labelled rows with their labels and the unlabelled rows without."""
    n = cfg.get("n", 4)
    X = I.arr("X", (n, 2), "r", -5, 5)
    y = I.arr("y", (n,), "i", 0, 5)
    z = I.arr("z", (n,), "i", 0, 5)
    perm = _perm(I, "perm", n, n)
    seed = I.int("seed", 0, 2 ** 31)
    il, iu = perm[:cfg["nl"]], perm[cfg["nl"]:]
    pre = _pre(dict(X=X, y=y), train_art={"labels.y": z} if cfg["labels"] != "y" else None)
    lab = nested(z if cfg["labels"] != "y" else y)
    smp = _sampling({"train": perm, "val": perm[:0], "test": perm[:0], "train_labeled": il, "train_unlabeled": iu})
    views = _views(pre, cfg["views"]) if cfg["views"] else None
    with fakes() as F:
        method, _ = _m(IND).run(pre, smp, views=views, X_u_w=None, X_u_s=None, X_u_s_1=None,
                                cfg=_mcfg(beta=7), seed=seed)
    C.require("the method is fitted once", len(F.seen) == 1)
    spec, data, device, got_seed = F.seen[0]
    C.require("with the given seed and parameters", And(eq(got_seed, seed), spec.beta == 7, spec.alpha == 1.0))
    rows = nested(X)

    def ok(got, idx, off=0):
        g = nested(got)
        return len(g) == len(idx) and And([Implies(eq(i, k), And([eq(a, b + off) for a, b in zip(g[p], rows[k])]))
                                           for p, i in enumerate(flat(idx)) for k in range(n)])

    C.require("labelled rows", ok(data.X_l, il))
    C.require("unlabelled rows", ok(data.X_u, iu))
    C.require("labels of the labelled rows", len(flat(data.y_l)) == len(il) and And(
        [eq(v, _gather(lab, i)) for v, i in zip(flat(data.y_l), flat(il))]))
    C.require("the unlabelled rows are named", same_seq(flat(data.meta["idx_u"]), flat(iu)))
    C.require("the size of the training set is known", eq(data.meta["ulb_size"], n))
    if views is None:
        C.require("no views", data.views is None)
    else:
        C.require("every view has the same rows", sorted(data.views) == ["v0", "v1"] and And(
            [And(ok(data.views[f"v{k}"]["X_l"], il, 10 * (k + 1)), ok(data.views[f"v{k}"]["X_u"], iu, 10 * (k + 1)))
             for k in range(2)]))
    C.require("no augmentations are invented", data.X_u_w is None and data.X_u_s is None)


def _acc(pred, true):
    n = len(pred)
    return 0.0 if n == 0 else total([If(eq(a, b), 1, 0) for a, b in zip(pred, true)]) / n


@harness("B02", modules=(EVA, SLI, "modssc.evaluation.metrics"), compact=True,
         cfgs=[{"split": s, "ref": r, "labels": l, "method": m} for s in ("val", "test") for r in ("train", "test")
               for l in ("y", "labels.y") for m in ("fake", "co_training")],
         bounds="4 rows of training and test data, every 2 rows of the split, every label and prediction")
def inductive_evaluation_scores_the_named_split(I, cfg, C):
    """The reported accuracy is that of the predictions for exactly the rows of the split."""
    n = 3
    base = I.arr("zero", (n, 2), "r", 0, 0) + np.array([[float(k), 0.5] for k in range(n)])
    y, z = I.arr("y", (n,), "i", 0, 9), I.arr("z", (n,), "i", 0, 9)
    yt, zt = I.arr("yt", (n,), "i", 0, 9), I.arr("zt", (n,), "i", 0, 9)
    art = cfg["labels"] != "y"
    pre = _pre(dict(X=base, y=y), dict(X=base + np.array([[n, 0]]), y=yt),
               {"labels.y": z} if art else None, {"labels.y": zt} if art else None)
    idx = _perm(I, "idx", 2, n)
    other = _perm(I, "other", 2, n)
    ref = cfg["ref"] if cfg["split"] == "test" else "train"
    smp = _sampling({"train": other, "val": idx if cfg["split"] == "val" else other,
                     "test": idx if cfg["split"] == "test" else other, "train_labeled": other[:1],
                     "train_unlabeled": other[1:]}, {"train": "train", "val": "train", "test": ref})
    pred = flat(I.arr("pred", (2 * n,), "i", 0, 9))
    off = 20 if cfg["method"] == "co_training" else 0

    class M:
        def predict(self, data):
            if cfg["method"] == "co_training":
                x = data.views["v1"]["X"]
                C.require("the views of the split have its rows", len(data.views["v0"]["X"]) == 2)
            else:
                x = data
            return np.stack([np.asarray(_gather(pred, v - off)) for v in flat(x[:, 0])])

        def predict_proba(self, data):
            raise NotImplementedError

    views = _views(pre, 2) if cfg["method"] == "co_training" else None
    out = _m(EVA).evaluate_inductive(method=M(), pre=pre, sampling=smp, report_splits=[cfg["split"]],
                                     metrics=["accuracy"], method_id=cfg["method"], views=views)
    tr = nested((zt if art else yt) if ref == "test" else (z if art else y))
    shift = n if ref == "test" else 0
    want = _acc([_gather(pred, i + shift) for i in flat(idx)], [_gather(tr, i) for i in flat(idx)])
    C.require("the score is that of the named split", close(out[cfg["split"]]["accuracy"], want))
    C.require("only what was asked for is reported", list(out) == [cfg["split"]] and list(out[cfg["split"]]) == ["accuracy"])


@harness("B02", modules=(MAIN, TRA), compact=True,
         cfgs=[{"mode": m, "ref": r} for m, r in (("indices", "train"), ("indices", "test"), ("graph", "train"))],
         bounds="4 training and 2 test rows, every split of them")
def masks_mark_the_named_rows(I, cfg, C):
    """Node masks mark exactly the rows of each split, test rows following the training rows."""
    n, nt = 4, 2
    names = ["train", "val", "test", "train_labeled", "train_unlabeled"]
    main = _m(MAIN)
    if cfg["mode"] == "graph":
        role = I.arr("role", (n,), "i", 0, 4)
        masks = {"labeled": role == 0, "unlabeled": role == 1, "val": role == 2, "test": role == 3, "train": role <= 1}
        smp = _sampling(masks=masks)
        got = main._mask_map_from_sampling(smp, n_train=n, n_test=None)
        for k, m in masks.items():
            C.require("masks are taken over", And([Iff(a, b) for a, b in zip(flat(got[f"{k}_mask"]), flat(m))]))
        ind = main._graph_sampling_to_inductive(smp)
        pairs = dict(zip(names, ("train", "val", "test", "labeled", "unlabeled")))
        for k, m in pairs.items():
            C.require("index lists hold exactly the marked nodes",
                      And([Iff(member(i, flat(ind.indices[k])), flat(masks[m])[i]) for i in range(n)]))
            C.require("each once", distinct(flat(ind.indices[k])))
        C.require("they refer to the training data", set(ind.refs.values()) == {"train"} and not ind.is_graph())
        for fit_on, m in (("train", "train"), ("train_labeled", "labeled"), ("train_unlabeled", "unlabeled"), ("val", "val")):
            fit = _m(PRE).resolve_fit_indices(dataset=None, sampling=smp, fit_on=fit_on)
            C.require("the fit set is the named split", And([Iff(member(i, flat(fit)), flat(masks[m])[i]) for i in range(n)]))
        return
    size = {k: I.pick_int(f"n_{k}", 0, 2) for k in ("val", "test", "lab")}
    ref = cfg["ref"]
    val = _perm(I, "val", size["val"], n)
    test = _perm(I, "test", size["test"], n if ref == "train" else nt)
    train = _perm(I, "train", size["lab"] + 1, n)
    lab, unl = train[:size["lab"]], train[size["lab"]:]
    indices = dict(zip(names, (train, val, test, lab, unl)))
    smp = _sampling(indices, {k: (ref if k == "test" else "train") for k in names})
    use = main._use_test_split(smp)
    C.require("the test rows take part exactly if the split refers to them", use == (ref == "test"))
    got = main._mask_map_from_sampling(smp, n_train=n, n_test=nt if use else None)
    N = n + (nt if use else 0)
    for k, mk in zip(names, ("train_mask", "val_mask", "test_mask", "labeled_mask", "unlabeled_mask")):
        off = n if (k == "test" and ref == "test") else 0
        C.require("a mask marks exactly the rows of its split", len(flat(got[mk])) == N and And(
            [Iff(flat(got[mk])[i], member(i - off, flat(indices[k]))) for i in range(N)]))
    for fit_on in ("train", "train_labeled", "train_unlabeled", "val"):
        fit = _m(PRE).resolve_fit_indices(dataset=None, sampling=smp, fit_on=fit_on)
        C.require("the fit set is the named split", same_seq(flat(fit), flat(indices[fit_on])))
    try:
        _m(PRE).resolve_fit_indices(dataset=None, sampling=smp, fit_on="test")
        C.fail("fitting on the test split is rejected")
    except ValueError:
        pass
    C.require("no fit set unless asked for", _m(PRE).resolve_fit_indices(dataset=None, sampling=smp, fit_on=None) is None)


@harness("B02", modules=(TRA, EVA, "modssc.evaluation.metrics"), compact=True,
         cfgs=[{"ref": r, "count": c} for r in ("train", "test") for c in ("none", "given")],
         bounds="3 nodes (one of them from the test data), every split, label, feature and score")
def transductive_method_sees_no_hidden_label(I, cfg, C):
    """Unlabelled nodes carry no label, the others theirs; features, masks and scores refer to the right nodes."""
    use = cfg["ref"] == "test"
    n, nt = (2, 1) if use else (3, 1)
    N = n + (nt if use else 0)
    X, Xt = I.arr("X", (n, 1), "r", -5, 5), I.arr("Xt", (nt, 1), "r", -5, 5)
    y, yt = I.arr("y", (n,), "i", 0, 2), I.arr("yt", (nt,), "i", 0, 2)
    ms = {k: I.arr(f"m_{k}", (N,), "b") for k in ("labeled", "unlabeled", "val", "test")}
    L, U = flat(ms["labeled"]), flat(ms["unlabeled"])
    I.assume(And([Not(And(a, b)) for a, b in zip(L, U)]))
    masks = {f"{k}_mask": v for k, v in ms.items()}
    masks["train_mask"] = NP.logical_or(ms["labeled"], ms["unlabeled"])
    pre = _pre(dict(X=X, y=y), dict(X=Xt, y=yt))
    graph = _m("modssc.graph.artifacts").GraphArtifact(n_nodes=N, edge_index=np.array([[0], [1]]), edge_weight=None,
                                                        directed=True, meta={})
    want = I.int("want", 0, N) if cfg["count"] == "given" else None
    S = I.arr("S", (N, 3), "r", 0, 1)
    err = _m(B + "errors").BenchRuntimeError
    with fakes() as F:
        try:
            method, data, _ = _m(TRA).run(dataset=pre.dataset, graph=graph, masks=masks, cfg=_mcfg("transductive"), seed=5,
                                          use_test_split=use, expected_labeled_count=want)
        except err:
            C.require("only a wrong number of labels is rejected", want is not None and ne(want, count(L)))
            return
    if want is not None:
        C.require("a wrong number of labels is rejected", eq(want, count(L)))
    _, seen, _, seed = F.seen[0]
    C.require("one node set", seen is data and seed == 5)
    ys = nested(y) + (nested(yt) if use else [])
    xs = nested(X) + (nested(Xt) if use else [])
    C.require("features in order, test after training", _eqrow(nested(seen.X), xs))
    C.require("unlabelled nodes carry no label", len(flat(seen.y)) == N and And(
        [Implies(u, eq(v, -1)) for u, v in zip(U, flat(seen.y))]))
    C.require("labelled nodes carry theirs", And([Implies(l, eq(v, t)) for l, v, t in zip(L, flat(seen.y), ys)]))
    C.require("the training mask marks the labelled nodes", And([Iff(a, b) for a, b in zip(flat(seen.masks["train_mask"]), L)]))
    for k in ("val", "test", "unlabeled"):
        C.require("masks are handed over", And([Iff(a, b) for a, b in zip(flat(seen.masks[f"{k}_mask"]), flat(ms[k]))]))
    method.predict_proba = lambda d: S
    from symx.ops import first_argmax

    for k in ("val", "test"):
        I.assume(Or(flat(ms[k])))
    out = _m(EVA).evaluate_transductive(method=method, data=data, report_splits=["val", "test"], metrics=["accuracy"],
                                        masks=masks)
    pred = [first_argmax(r) for r in nested(S)]
    for k in ("val", "test"):
        m = flat(ms[k])
        hits = total([If(And(a, eq(p, t)), 1, 0) for a, p, t in zip(m, pred, ys)])
        C.require("the score is that of the named nodes", close(out[k]["accuracy"] * count(m), hits))


@harness("B02", modules=(GRA, "modssc.graph.construction.api", "modssc.graph.cache"), compact=True,
         cfgs=[{"first": f} for f in (False, True)],
         bounds="2 training and 1 test row, every feature")
def graphs_over_train_and_test_have_their_own_cache_entry(I, cfg, C):
    """A graph is built over the nodes asked for, whatever the cache holds, and the features asked for."""
    X, Xt, Z, Zt = (I.arr(k, s, "i", -4, 4) for k, s in (("X", (2, 1)), ("Xt", (1, 1)), ("Z", (2, 1)), ("Zt", (1, 1))))
    pre = _pre(dict(X=X + 0.0, y=np.zeros(2)), dict(X=Xt + 0.0, y=np.zeros(1)), {"features.X": Z + 0.0},
               {"features.X": Zt + 0.0} if I.flag("art") else {})
    spec = {"scheme": "epsilon", "metric": "euclidean", "radius": 1.5, "weights": {"kind": "binary"}, "backend": "numpy",
            "symmetrize": "none", "self_loops": False, "normalize": "none"}
    zt = Zt if pre.test_artifacts.has("features.X") else Xt
    with scratch() as d:
        one = (lambda t, c: _m(GRA).build(pre, spec_dict=spec, seed=1, dataset_fingerprint="ds", cache=c,
                                          cache_dir=str(d), include_test=t))
        one(cfg["first"], True)
        for t in (not cfg["first"], cfg["first"]):
            g = one(t, True)
            pts = nested(Z) + (nested(zt) if t else [])
            C.require("every node has its row", g.n_nodes == len(pts))
            E = nested(g.edge_index)
            pairs = list(zip(E[0], E[1]))
            for i in range(len(pts)):
                for j in range(len(pts)):
                    near = And(lt(pts[i][0] - pts[j][0], 1.5), lt(pts[j][0] - pts[i][0], 1.5), i != j)
                    C.require("exactly the near rows are linked", Iff(near, Or([And(eq(a, i), eq(b, j)) for a, b in pairs])))


@harness("B02", modules=(IND, EVA, SLI, "modssc.evaluation.metrics"), compact=True, contexts=(TorchPatch,),
         cfgs=[{"src": s, "auto": a} for s in ("np", "torch", "dict") for a in (False, True)],
         bounds="4 training rows of numpy, torch or mapping data, every assignment to labelled and unlabelled")
def torch_backed_data_is_converted_not_changed(I, cfg, C):
    """Moving the data to torch keeps rows, values and labels; the score is that of the named rows."""
    n = 4
    X = I.arr("X", (n, 1), "i", -5, 5) + 0.0
    y = I.arr("y", (n,), "i", 0, 3)
    perm = _perm(I, "perm", n, n)
    il, iu = perm[:2], perm[2:]
    src = {"np": lambda: X, "torch": lambda: T(X), "dict": lambda: {"x": T(X), "y2": T(y)}}[cfg["src"]]()
    pre = _pre(dict(X=src, y=y))
    smp = _sampling({"train": perm, "val": iu, "test": perm[:0], "train_labeled": il, "train_unlabeled": iu})
    if cfg["src"] == "dict" and not cfg["auto"]:
        pre = _pre(dict(X={"x": X, "y2": y}, y=y))
    with fakes() as F:
        method, _ = _m(IND).run(pre, smp, views=None, X_u_w=None, X_u_s=None, X_u_s_1=None, cfg=_mcfg(), seed=1,
                                requires_torch=cfg["auto"])
    data = F.seen[0][1]
    is_t = _m("modssc.data_augmentation.utils").is_torch_tensor
    part = (lambda v: v["x"] if cfg["src"] == "dict" else v)
    C.require("the data is torch-backed when asked for", is_t(part(data.X_l)) == (cfg["src"] == "torch" or cfg["auto"]))
    C.require("so are the labels", is_t(data.y_l) == is_t(part(data.X_l)))
    rows, lab = nested(X), flat(y)
    for name, got, idx in (("labelled", data.X_l, il), ("unlabelled", data.X_u, iu)):
        g = nested(part(got))
        C.require(f"{name} rows keep their values", len(g) == 2 and And(
            [Implies(eq(i, k), eq(g[p][0], rows[k][0])) for p, i in enumerate(flat(idx)) for k in range(n)]))
    C.require("labels keep their values", same_seq(flat(data.y_l), [_gather(lab, i) for i in flat(il)]))
    if cfg["src"] == "dict":
        C.require("every part of the mapping is selected", same_seq(flat(data.X_u["y2"]), [_gather(lab, i) for i in flat(iu)]))
        return
    pred = [I.int(f"p{k}", 0, 3) for k in range(11)]
    method.device = "cpu" if cfg["auto"] else None

    def predict(x):
        C.require("the method gets the kind of data it was fitted on", is_t(x) == is_t(data.X_l))
        return np.stack([np.asarray(_gather(pred, v + 5)) for v in flat(x)])

    method.predict = predict
    out = _m(EVA).evaluate_inductive(method=method, pre=pre, sampling=smp, report_splits=["val"], metrics=["accuracy"],
                                     method_id="fake", views=None)
    want = _acc([_gather(pred, _gather(flat(X), i) + 5) for i in flat(iu)], [_gather(lab, i) for i in flat(iu)])
    C.require("the score is that of the named rows", close(out["val"]["accuracy"], want))


# ------------------------------------------------------------------ B03 model selection


def _cfg_dict(seed=3, **over):
    d = {"run": {"name": "r", "seed": seed, "output_dir": "/nonexistent", "fail_fast": True},
         "dataset": {"id": "toy"}, "sampling": {"plan": {"split": {"kind": "holdout", "test_fraction": 0.25,
                                                                    "val_fraction": 0.25, "stratify": False},
                                                          "labeling": {"mode": "count", "value": 1, "per_class": False}}},
         "preprocess": {"plan": {"steps": [{"id": "core.copy_raw"}]}, "cache": False},
         "method": {"kind": "inductive", "id": "fake", "device": {"device": "cpu", "dtype": "float32"},
                    "params": {"alpha": 0.5, "beta": 1, "keep": {"deep": 7, "batch_size": 4}}},
         "evaluation": {"report_splits": ["val", "test"], "metrics": ["accuracy"], "split_for_model_selection": "val"}}
    for k, v in over.items():
        d[k] = v
    return d


SPACES = {"grid": {"alpha": [0.25, 0.75, 1.5]}, "grid2": {"alpha": [0.25, 0.75], "keep": {"deep": [1, 2]}},
          "cap": {"batch_size": [8, 4096]}, "random": {"alpha": {"dist": "uniform", "low": 0.0, "high": 1.0}}}


@harness("B03", modules=(HPO, LIM, "modssc.hpo.space", "modssc.hpo.samplers", "modssc.hpo.patching") + UTL, compact=True,
         cfgs=[{"space": s, "dir": d, "nan": n} for s in ("grid", "grid2", "cap", "random") for d in ("maximize", "minimize")
               for n in (False, True) if not (n and s in ("cap", "random"))] + [{"space": "cap", "dir": "minimize", "nan": False, "repeats": 4}],
         thorough=[{"space": "grid", "dir": d, "nan": n, "repeats": 3} for d in ("maximize", "minimize") for n in (False, True)],
         bounds="2-4 trials with 2-4 repeats, every score (NaN included), every draw of a random search")
def search_returns_the_best_trial(I, cfg, C):
    """The chosen trial has the best mean score, the first of equals; its parameters are what is returned and recorded."""
    hpo = _m(HPO)
    schema = _m(UTL[4])
    ctxm = _m(UTL[2])
    reps = cfg.get("repeats", 2)
    raw = _cfg_dict(search={"enabled": True, "kind": "random" if cfg["space"] == "random" else "grid", "seed": 11,
                            "n_trials": 3, "repeats": reps,
                            "objective": {"split": "val", "metric": "accuracy", "direction": cfg["dir"], "aggregate": "mean"},
                            "space": {"method": {"params": SPACES[cfg["space"]]}}},
                    limits={"max_method_batch_size": 128})
    before = copy.deepcopy(raw)
    cfgs = schema.ExperimentConfig.from_dict(raw)
    n = {"grid": 3, "grid2": 4, "cap": 2, "random": 3}[cfg["space"]]
    vals = [[I.real(f"s{t}_{r}", -2, 2) for r in range(reps)] for t in range(n)]
    bad = I.choice("nan", [[], [0], [n - 1], [0, 1], list(range(n))]) if cfg["nan"] else []
    for t in bad:
        vals[t][reps - 1] = float("nan")
    calls = []

    def objective(*, cfg, prepared_artifacts, seed, split, metric):
        calls.append((cfg, prepared_artifacts, seed, split, metric))
        k = len(calls) - 1
        return vals[k // reps][k % reps]

    art = {"a": 1}
    with scratch() as d, _swap(hpo, "_objective_value", objective):
        ctx = ctxm.RunContext(name="r", seed=9, run_id="id", output_dir=d, run_dir=d / "run", started_at="now")
        patch, summary = hpo.run_hpo(ctx=ctx, base_cfg=cfgs, base_cfg_dict=raw, prepared_artifacts=art)
        lines = (d / "run" / "hpo" / "trials.jsonl").read_text().splitlines()
        trials = [_m(HPO).json.loads(x) for x in lines]
    C.require("every trial is run as often as asked", len(calls) == n * reps and len(trials) == n and summary["n_trials"] == n)
    C.require("all repeats have seeds of their own", len({c[2] for c in calls}) == n * reps)
    C.require("scores are those of the named split and metric",
              all(c[1] is art and c[3] == "val" and c[4] == "accuracy" for c in calls))
    C.require("the base configuration is not modified", raw == before)
    means = [None if t in bad else total(vals[t]) / reps for t in range(n)]
    best = summary["best_index"]
    worse = (lambda a, b: lt(a, b) if cfg["dir"] == "maximize" else lt(b, a))
    for t in range(n):
        if means[best] is None:
            C.require("a trial without a score is chosen only if all are", means[t] is None and best == 0)
        elif means[t] is not None:
            C.require("no trial is better", Not(worse(means[best], means[t])))
            if t < best:
                C.require("the first of equal trials is chosen", worse(means[t], means[best]))
    if means[best] is not None:
        C.require("the best score is its mean", close(summary["best_score"], means[best]))
    for t, rec in enumerate(trials):
        params = calls[t * reps][0].method.params
        C.require("repeats of a trial use the same parameters",
                  all(_same(calls[t * reps + r][0].method.params, params) is not False for r in range(reps)))
        C.require("trials are recorded in order", rec["index"] == t)
        if t not in bad:
            C.require("the recorded scores are the observed ones", same_seq(rec["objective"]["values"], vals[t]))
            C.require("the recorded value is their mean", close(rec["objective"]["value"], means[t]))
        want = copy.deepcopy(before["method"]["params"])
        _merge(want, rec["patch"]["method"]["params"])
        if "batch_size" in want:
            want["batch_size"] = min(want["batch_size"], 128)
        C.require("a trial runs with its own parameters on top of the base, within the limits", _same(params, want))
        C.require("nothing but the parameters changes", calls[t * reps][0].evaluation == cfgs.evaluation
                  and calls[t * reps][0].sampling == cfgs.sampling and calls[t * reps][0].method.method_id == "fake")
    C.require("the chosen parameters are those of the best trial", _same(patch, trials[best]["patch"]))
    C.require("and recorded as such", And(_same(summary["best_patch"], trials[best]["patch"]),
                                         _same(summary["best_params"], trials[best]["params"])))


def _merge(d, p):
    for k, v in p.items():
        if isinstance(v, dict) and isinstance(d.get(k), dict):
            _merge(d[k], v)
        else:
            d[k] = v


@contextlib.contextmanager
def _swap(mod, name, val):
    old = getattr(mod, name)
    setattr(mod, name, val)
    try:
        yield
    finally:
        setattr(mod, name, old)


@harness("B03", modules=(HPO, EVA, IND, TRA, "modssc.evaluation.metrics"), compact=True,
         cfgs=[{"kind": "inductive"}, {"kind": "transductive"}],
         bounds="3 samples, every split into labelled, unlabelled and validation, every label and answer")
def objective_is_the_score_of_the_named_split(I, cfg, C):
    """A trial's score is the accuracy on the model-selection split only, of a method fitted with the trial's seed."""
    n = 3
    y = I.arr("y", (n,), "i", 0, 2)
    perm = _perm(I, "perm", n, n)
    seed = I.int("seed", 0, 2 ** 31)
    X = I.arr("zero", (n, 1), "r", 0, 0) + np.arange(n)[:, None]
    il, iu, val = perm[:1], perm[1:2], perm[2:]
    smp = _sampling({"train": perm[:2], "val": val, "test": perm[:1], "train_labeled": il, "train_unlabeled": iu})
    pre = _pre(dict(X=X, y=y))
    pred = I.arr("p", (n,), "i", 0, 2)
    raw = _cfg_dict(method={"kind": cfg["kind"], "id": "fake", "device": {"device": "cpu"}, "params": {"beta": 5}})
    exp = _m(UTL[4]).ExperimentConfig.from_dict(raw)
    graph = _m("modssc.graph.artifacts").GraphArtifact(n_nodes=n, edge_index=np.array([[0], [1]]), edge_weight=None,
                                                        directed=True, meta={})
    masks = _m(TRA)._build_masks_from_indices(n_train=n, n_test=None, indices=smp.indices, refs={})
    art = {"pre": pre, "sampling": smp, "views": None, "graph": graph, "masks": masks, "expected_labeled_count": 1,
           "X_u_w": None, "X_u_s": None, "X_u_s_1": None, "use_test": False}
    with fakes() as F:
        F.table = lambda v: _gather(flat(pred), v)
        cols = I.arr("zeros", (n, 3), "i", 0, 0) + np.arange(3)[None, :]
        F.predict_proba = lambda self, d: (cols == pred[:, None]) * 1.0
        try:
            got = _m(HPO)._objective_value(cfg=exp, prepared_artifacts=art, seed=seed, split="val", metric="accuracy")
        finally:
            del F.predict_proba
    spec, data, _, s = F.seen[0]
    C.require("one fit per score, with its seed and parameters", And(len(F.seen) == 1, eq(s, seed), spec.beta == 5))
    i = flat(val)[0]
    C.require("the score is the accuracy on the split", close(got, If(eq(_gather(flat(pred), i), _gather(flat(y), i)), 1, 0)))


# ------------------------------------------------------------------ B04 sweeps and run directories


def _fmean(v):
    v = list(v)
    return total(v) / len(v)


_DEVS: list = []


def _pstdev(v):
    """A value of its own per call: which numbers it was asked for is checked, not the library's formula."""
    _DEVS.append(list(v))
    return 1000.0 + len(_DEVS)


STATS = {"extra": {(REP, "fmean"): _fmean, (REP, "pstdev"): _pstdev}}


@harness("B04", modules=(MAIN, REP) + UTL, compact=True, patch=STATS,
         cfgs=[{"how": h, "ff": f} for h in ("num_runs", "seeds") for f in (False, True)],
         bounds="sweeps of 3 seeds, every combination of outcomes, every metric value")
def sweep_reports_what_happened(I, cfg, C):
    """One run per seed with that seed everywhere; the exit code and the aggregate reflect all outcomes."""
    main = _m(MAIN)
    _DEVS.clear()
    base = I.pick_int("base", 0, 1) * 7
    want = [base, base + 1, base + 2] if cfg["how"] == "num_runs" else [5, 2, 9]
    outcome = {s: I.choice(f"o{k}", ["ok", "failed", "raised"]) for k, s in enumerate(want)}
    metric = {s: {"val": {"accuracy": I.real(f"m{k}", 0, 1)}, "test": {"accuracy": I.real(f"t{k}", 0, 1)}}
              for k, s in enumerate(want)}
    ran = []
    io = _m(UTL[1])
    with scratch() as d:
        raw = _cfg_dict(seed=base)
        raw["run"].update(output_dir=str(d / "out"), fail_fast=cfg["ff"])
        raw["sampling"]["seed"] = 1
        raw["preprocess"]["seed"] = 2
        raw["augmentation"] = {"enabled": False, "seed": 4, "weak": {}, "strong": {}}
        raw["search"] = {"enabled": False, "kind": "random", "seed": 5, "repeats": 1, "n_trials": 2,
                         "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"},
                         "space": {"method": {"params": {"beta": [1, 2]}}}}
        raw["views"] = {"seed": 6, "plan": {"views": []}}
        raw["graph"] = {"enabled": False, "seed": 8, "cache": False, "spec": {}}
        if cfg["how"] == "seeds":
            raw["run"]["seeds"] = want
        (d / "c.yaml").write_text(__import__("yaml").safe_dump(raw))

        def single(config_path, *, raw, cfg):
            s = cfg.run.seed
            ran.append((s, raw, cfg))
            if outcome[s] == "raised":
                raise RuntimeError("boom")
            ok = outcome[s] == "ok"
            rd = __import__("pathlib").Path(cfg.run.output_dir) / f"x{len(ran)}"
            rd.mkdir(parents=True)
            io.write_json(rd / "run.json", {"run": {"seed": s, "name": cfg.run.name, "run_id": "i", "status": "success" if ok
                                                    else "failed"}, "metrics": metric[s] if ok else None, "error": None})
            return main.SingleRunResult(code=0 if ok else 1, run_dir=rd, run_json_path=rd / "run.json")

        err = None
        code = None
        with _swap(main, "_run_experiment_single", single):
            try:
                code = main.run_experiment(d / "c.yaml", num_runs=3 if cfg["how"] == "num_runs" else None)
            except RuntimeError as exc:
                err = exc
        bad = [s for s in want if outcome[s] != "ok"]
        done = want if not (bad and cfg["ff"]) else want[:want.index(bad[0]) + 1]
        C.require("one run per seed, in order", [r[0] for r in ran] == done)
        roots = {r[2].run.output_dir for r in ran}
        C.require("all runs of a sweep share one folder below the output folder",
                  len(roots) == 1 and roots.pop().startswith(str(d / "out") + "/r-sweep-"))
        C.require("runs have names of their own", [r[2].run.name for r in ran] == [f"r-seed{s}" for s in done])
        for s, rw, cf in ran:
            C.require("the seed is used in every section", rw["run"]["seed"] == s and cf.run.seeds in (None, [], ())
                      and cf.sampling.seed == s and cf.preprocess.seed == s and cf.augmentation.seed == s and cf.search.seed == s
                      and cf.views.seed == s and cf.graph.seed == s)
            C.require("nothing else changes", _strip(rw) == _strip(raw))
        if bad and cfg["ff"]:
            C.require("a failure stops the sweep", err is not None)
            return
        C.require("the exit code tells whether a run failed", err is None and code == (1 if bad else 0))
        aggs = list((d / "out").glob("r-sweep-*/aggregate.json"))
        told = [s for s in want if outcome[s] != "raised"]
        C.require("there is one summary if there is anything to summarise", len(aggs) == (1 if told else 0))
        if not told:
            return
        agg = _m(REP).json.loads(aggs[0].read_text())
        good = [s for s in want if outcome[s] == "ok"]
        sw = agg["sweep"]
        C.require("the summary counts the runs", sw["requested_seeds"] == want and sw["requested_run_count"] == 3
                  and sw["completed_run_count"] == len(told) and sw["successful_run_count"] == len(good)
                  and sw["failed_run_count"] == len(told) - len(good))
        C.require("it lists every run", [r["seed"] for r in agg["runs"]] == told)
        C.require("its status follows", sw["status"] == ("success" if len(good) == len(told) else "partial_failure" if good
                                                          else "failed"))
        C.require("only successful runs count", (agg["metrics"] == {}) == (not good))
        for split in (("val", "test") if good else ()):
            leaf = agg["metrics"][split]["accuracy"]
            v = [metric[s][split]["accuracy"] for s in good]
            C.require("values are those of the runs", leaf["count"] == len(v) and same_seq(leaf["values"], v))
            C.require("the mean is the mean", close(leaf["mean"] * len(v), total(v)))
            C.require("minimum and maximum", And(And([And(le(leaf["min"], x), le(x, leaf["max"])) for x in v]),
                                                 member(leaf["min"], v), member(leaf["max"], v)))
            if len(v) == 1:
                C.require("one value does not deviate", eq(leaf["std"], 0))
            elif _DEVS:
                j = int(leaf["std"] - 1001)
                C.require("the deviation is that of the runs", 0 <= j < len(_DEVS) and same_multiset(_DEVS[j], v))
            else:
                m = total(v) / len(v)
                C.require("the deviation is the deviation", close(
                    leaf["std"] * leaf["std"], total([(x - m) * (x - m) for x in v]) / len(v)))


def _strip(raw):
    r = copy.deepcopy(raw)
    for k in ("seed", "seeds", "name", "output_dir"):
        r["run"].pop(k, None)
    for v in r.values():
        v.pop("seed", None)
    return r


@harness("B04", modules=(UTL[2], MAIN), compact=True, cfgs=[{"what": w} for w in ("dir", "rename")],
         bounds="every set of up to 4 occupied names")
def runs_never_share_a_directory(I, cfg, C):
    """A run directory is always new: nothing that exists is reused, overwritten or removed."""
    ctxm, main = _m(UTL[2]), _m(MAIN)
    with scratch() as d:
        ctx = ctxm.RunContext.from_run_config(name="r", seed=1, run_id="abc", output_dir=d, config_path=None, fail_fast=True)
        stamp = ctx.run_dir.name.rsplit("-", 1)[1]
        rid = "abc" if cfg["what"] == "dir" else "xyz"
        names = [f"r-{rid}-{stamp}" + s for s in ("", "__r01", "__r02", "__r03")]
        there = [nm for k, nm in enumerate(names) if I.flag(f"e{k}")]
        for nm in there:
            (d / nm).mkdir()
            (d / nm / "run.json").write_text("old")
        ctx.ensure_dirs()
        ctx.write_config_copy({"a": 1})
        if cfg["what"] == "rename":
            main._sync_ctx_run_identity(ctx, run_id="xyz")
            C.require("the run has its new identity", ctx.run_id == "xyz" and ctx.run_dir.name.startswith("r-xyz-"))
        C.require("the directory is new", ctx.run_dir.name not in there and ctx.run_dir.parent == d.resolve())
        C.require("the run's files are in it", (ctx.run_dir / "config.yaml").exists()
                  and sorted(p.name for p in ctx.run_dir.iterdir()) == ["config.yaml"])
        C.require("nothing else is touched", sorted(p.name for p in d.iterdir()) == sorted(there + [ctx.run_dir.name])
                  and all((d / nm / "run.json").read_text() == "old" for nm in there))


@harness("B04", modules=(UTL[2],), cfgs=[{"actors": 2, "switches": 2, "steps": 99}], max_paths=20000,
         bounds="2 runs started in the same second, every interleaving with up to 2 preemptions")
def concurrent_runs_do_not_mix(I, cfg, C):
    """Two runs that start at the same moment never write into one directory."""
    from props.storage import _picker
    from symx.fsx import Sched

    ctxm = _m(UTL[2])
    with scratch() as d:
        def ctx(k):
            c = ctxm.RunContext(name="r", seed=1, run_id="abc", output_dir=d, run_dir=d / "r-abc-T", started_at="now")

            def go():
                c.ensure_dirs()
                c.write_json("run.json", {"k": k})
                return c.run_dir

            return go

        res = Sched(_picker(I, cfg, 2), relevant=lambda t: "r-abc" in t).run([ctx(0), ctx(1)])
        dirs = [v for s, v in res if s == "ok"]
        C.require("somebody runs", len(dirs) >= 1)
        C.require("who runs has a directory of its own", len(set(dirs)) == len(dirs))
        C.require("who cannot have one is told so", all(s == "ok" or isinstance(v, OSError) for s, v in res))
        for k, (s, v) in enumerate(res):
            if s == "ok":
                C.require("and finds its own results in it", _m(UTL[1]).json.loads((v / "run.json").read_text()) == {"k": k})


# ------------------------------------------------------------------ B05 a whole run


STAGES = ("ds_orch.load", "sampling_orch.run", "prep_orch.run", "graph_orch.build", "inductive_orch.run",
          "eval_orch.evaluate_inductive")


@contextlib.contextmanager
def _run_env(main, ds):
    """Dataset, versions and methods come from the harness."""
    info = lambda _i: NS(supports_gpu=False, required_extra=None)
    with contextlib.ExitStack() as st:
        F = st.enter_context(fakes())
        st.enter_context(_swap(main, "collect_runtime_versions", lambda **k: {"git_sha": "g", "python": "p", "modssc": "0", "numpy": "2"}))
        for k in ("get_inductive_method_info", "get_transductive_method_info"):
            st.enter_context(_swap(main, k, info))
        for k in ("get_inductive_method_class", "get_transductive_method_class"):
            st.enter_context(_swap(main, k, lambda _i: Fake))
        st.enter_context(_swap(main.ds_orch, "load", lambda c: (ds, {"provider": "toy"})))
        yield F


def _toy(I, n, m, y, yt, edges=None):
    """Row i carries its own number i (test rows 100 + i), so every selected row can be told apart."""
    t = _m("modssc.data_loader.types")
    X = I.arr("zero", (n, 1), "r", 0, 0) + np.arange(n)[:, None]
    test = None
    if m:
        test = t.Split(X=I.arr("zerot", (m, 1), "r", 0, 0) + 100 + np.arange(m)[:, None], y=yt)
    return t.LoadedDataset(train=t.Split(X=X, y=y, edges=edges), test=test, meta={"dataset_fingerprint": "toy-ds"})


def _in(v, rows):
    return Or([eq(v, r) for r in rows])


SPLITS = {"own": {"kind": "holdout", "test_fraction": 0.34, "val_fraction": 0.5, "stratify": False},
          "official": {"kind": "holdout", "test_fraction": 0.0, "val_fraction": 0.34, "stratify": False}}


@harness("B05", modules=(MAIN, SLI, EVA, IND, TRA, PRE, GRA, SAM, HPO, REP, LIM, "modssc.evaluation.metrics",
                         "modssc.sampling.api", "modssc.sampling.splitters", "modssc.sampling.labeling",
                         "modssc.sampling.imbalance", "modssc.preprocess.api", "modssc.preprocess.store") + UTL,
         compact=True, contexts=(TorchPatch,), replay_contexts=(),
         cfgs=[{"kind": k, "test": t, "seed": s} for k in ("inductive", "transductive") for t in ("own", "official") for s in (3,)
               if not (k == "transductive" and t == "official")]
         + [{"kind": "inductive", "test": "own", "seed": 3, "hpo": True}, {"kind": "inductive", "test": "official", "seed": 3,
                                                                          "per_class": True}],
         thorough=[{"kind": "inductive", "test": t, "seed": s, "n": 5, "m": 2} for t in ("own", "official") for s in (1, 2)],
         budget=50, bounds="runs on 4-5 training and 1-2 test samples; every label, every answer of the method, every random draw")
def a_run_reports_its_own_accuracy(I, cfg, C):
    """What a run reports is the accuracy, on each split, of a method that saw that split neither labelled nor unlabelled."""
    main, schema = _m(MAIN), _m(UTL[4])
    n, m = cfg.get("n", 4), (cfg.get("m", 1) if cfg["test"] == "official" else 0)
    y = I.arr("y", (n,), "i", 0, 1)
    yt = I.arr("yt", (m,), "i", 0, 1) if m else None
    pred = I.arr("p", (n,), "i", 0, 1)
    predt = I.arr("pt", (m,), "i", 0, 1) if m else None
    edges = I.arr("zedge", (2, 2), "i", 0, 0) + np.array([[0, 1], [1, 2]]) if cfg["kind"] == "transductive" else None
    if cfg.get("per_class"):
        I.assume(And([And(le(2, count([eq(v, c) for v in flat(y)]))) for c in (0, 1)]))
    if cfg.get("hpo"):
        I.assume(And([eq(v, k % 2) for k, v in enumerate(flat(y))]))
    ds = _toy(I, n, m, y, yt, edges)
    with scratch() as d:
        raw = _cfg_dict(seed=cfg["seed"])
        raw["run"]["output_dir"] = str(d / "out")
        raw["sampling"]["plan"]["split"] = dict(SPLITS[cfg["test"]])
        raw["sampling"]["plan"]["labeling"] = {"mode": "count", "value": 1, "per_class": bool(cfg.get("per_class")),
                                               "min_per_class": int(bool(cfg.get("per_class")))}
        raw["preprocess"]["plan"] = {"steps": [{"id": "core.copy_raw"}]}
        raw["method"].update(kind=cfg["kind"], params={"alpha": 0.5, "beta": 1})
        if cfg.get("hpo"):
            raw["search"] = {"enabled": True, "kind": "grid", "seed": 1, "repeats": 1, "n_trials": None,
                             "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"},
                             "space": {"method": {"params": {"beta": [1, 2]}}}}
        exp = schema.ExperimentConfig.from_dict(copy.deepcopy(raw))
        (d / "c.yaml").write_text("x")
        pred2 = I.arr("p2", (n,), "i", 0, 1) if cfg.get("hpo") else None
        smps, draw = [], main.sampling_orch.run

        def sampled(*a, **k):
            smps.append(draw(*a, **k))
            return smps[-1]

        with _run_env(main, ds) as F, _swap(main.sampling_orch, "run", sampled):
            F.table = lambda v: If(lt(v, 100), _gather(flat(pred), v), _gather(flat(predt), v - 100)) if m else _gather(flat(pred), v)
            cols = I.arr("zeros", (n, 2), "i", 0, 0) + np.arange(2)[None, :]
            F.predict_proba = lambda self, dd: (cols == pred[:, None]) * 1.0
            if cfg.get("hpo"):
                F.predict = lambda self, dd: [np.asarray(_gather(flat(pred if self.spec.beta == 1 else pred2), v)) for v in
                                              flat((dd.X_l if hasattr(dd, "X_l") else dd)[:, 0])]
            try:
                res = main._run_experiment_single(d / "c.yaml", raw=copy.deepcopy(raw), cfg=exp)
            except _m(B + "errors").BenchRuntimeError as exc:
                raise RuntimeError(str(exc)) from None
            finally:
                del F.predict_proba
            seen = list(F.seen)
        rep = _m(REP).json.loads(res.run_json_path.read_text())
        C.require("the run succeeds", res.code == 0 and rep["run"]["status"] == "success" and rep.get("error") is None)
    _check_run(cfg, C, rep, seen, smps[0], n, m, y, yt, [pred, pred2], predt)


def _check_run(cfg, C, rep, seen, smp, n, m, y, yt, answers, answers_t):
    """answers[k] is what the method with beta = k + 1 says about every training row."""
    spec, data, _, _ = seen[-1]
    met = rep["metrics"]
    C.require("every asked split is reported", sorted(met) == ["test", "val"] and all(list(v) == ["accuracy"] for v in met.values()))
    rows = {k: flat(v) for k, v in smp.indices.items()}
    if smp.is_graph():
        names = {"labeled": "train_labeled", "unlabeled": "train_unlabeled"}
        rows = {names.get(k, k): [i for i, b in enumerate(flat(v)) if b] for k, v in smp.masks.items()}
    where = {k: smp.refs.get(k, "train") for k in rows}
    C.require("training data is training data", where["train_labeled"] == where["train_unlabeled"] == "train")
    C.require("the parts are those asked for", len(rows["train_labeled"]) == (2 if cfg.get("per_class") else 1)
              and where["test"] == ("test" if m else "train") and len(rows["val"]) >= 1 and len(rows["test"]) >= 1)

    def score(k, split):
        t = where[split] == "test"
        yy, pp = flat(yt if t else y), flat(answers_t if t else answers[k])
        return _acc([_gather(pp, i) for i in rows[split]], [_gather(yy, i) for i in rows[split]])

    C.require("the method gets its parameters", spec.alpha == 0.5 and spec.beta in (1, 2))
    k = spec.beta - 1
    if cfg.get("hpo"):
        C.require("every candidate is tried", [s[0].beta for s in seen] == [1, 2, spec.beta])
        C.require("the best candidate on the validation split is reported", le(score(1 - k, "val"), score(k, "val")))
    else:
        C.require("the method is fitted once", len(seen) == 1 and k == 0)
    for split in ("val", "test"):
        C.require("the reported score is the accuracy on that split", close(met[split]["accuracy"], score(k, split)))
        for _, dt, _, _ in seen:
            if cfg["kind"] == "inductive":
                lab, unl = flat(dt.X_l[:, 0]), flat(dt.X_u[:, 0])
                C.require("the method learns from the sampled rows", same_seq(lab, rows["train_labeled"])
                          and same_seq(unl, rows["train_unlabeled"]) and And(
                              [eq(v, _gather(flat(y), i)) for v, i in zip(flat(dt.y_l), rows["train_labeled"])]))
                if where[split] == "train":
                    C.require("and never from the rows it is scored on", And([Not(_in(i, lab + unl)) for i in rows[split]]))
            else:
                tr = flat(dt.masks["train_mask"])
                C.require("the method may use the labelled rows only", And(
                    [Iff(v, _in(i, rows["train_labeled"])) for i, v in enumerate(tr)]))
                C.require("and never those it is scored on", And([Not(_gather(tr, i)) for i in rows[split]]))


@harness("B05", modules=(MAIN, REP) + UTL, compact=True,
         cfgs=[{}], bounds="every stage of a run breaking down, with and without fail_fast")
def a_broken_run_says_so(I, cfg, C):
    """A run that breaks down at any stage never looks like a success."""
    main, schema = _m(MAIN), _m(UTL[4])
    ff = I.flag("fail_fast")
    stage = I.choice("stage", list(STAGES))
    n = 6

    def broken(*a, **k):
        raise RuntimeError("stage broke down")

    ds = _toy(I, n, 0, I.arr("zeroy", (n,), "i", 0, 0) + np.array([0, 1, 0, 1, 0, 1]), None)
    smp = _sampling({k: np.array(v) for k, v in {"train": [0, 1, 2], "val": [3], "test": [4, 5], "train_labeled": [0],
                                                 "train_unlabeled": [1, 2]}.items()}, refs={})
    with scratch() as d:
        raw = _cfg_dict()
        raw["run"].update(output_dir=str(d / "out"), fail_fast=bool(ff))
        raw["method"]["params"] = {"alpha": 0.5}
        if stage == "graph_orch.build":
            raw["graph"] = {"enabled": True, "cache": False, "spec": {"scheme": "knn", "metric": "cosine", "k": 1, "backend": "numpy"}}
        (d / "c.yaml").write_text("x")
        err = res = None
        with _run_env(main, ds) as F, contextlib.ExitStack() as st:
            F.table = lambda v: 0
            if stage is not None:
                mod, name = stage.split(".")
                if mod != "sampling_orch":
                    st.enter_context(_swap(main.sampling_orch, "run", lambda *a, **k: smp))
                st.enter_context(_swap(getattr(main, mod), name, broken))
            try:
                res = main._run_experiment_single(d / "c.yaml", raw=raw, cfg=schema.ExperimentConfig.from_dict(copy.deepcopy(raw)))
            except RuntimeError as exc:
                err = exc
        C.require("with fail_fast the failure is raised", (err is not None) == bool(ff))
        if res is not None:
            C.require("otherwise the run returns a failure", res.code == 1)
        runs = list((d / "out").glob("*/run.json"))
        C.require("the run leaves its report", len(runs) == 1 and (runs[0].parent / "error.txt").exists())
        rep = _m(REP).json.loads(runs[0].read_text())
        C.require("the report says it failed and why", rep["run"]["status"] == "failed" and "stage broke down" in str(rep["error"])
                  and not rep["metrics"])
