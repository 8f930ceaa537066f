"""Preprocessing: no leakage, cache transparency, step semantics, plan resolution and fingerprints."""
from __future__ import annotations

import importlib
from types import SimpleNamespace as NS

import numpy as np

from props.storage import scratch
from symx import npshim
from symx.arr import sarr
from symx.core import is_sym
from symx.fsx import FsSim
from symx.harness import harness
from symx.process import new_process
from symx.ops import And, If, Iff, Implies, Not, Or, close, close_seq, count, eq, flat, le, lt, member, ne, nested, \
    same_seq, total

ST = "modssc.preprocess.steps."
PP = ("modssc.preprocess.services.pipeline", "modssc.preprocess.cache", "modssc.preprocess.fingerprint",
      "modssc.preprocess.plan", "modssc.preprocess.store", "modssc.preprocess.registry", "modssc.utils.io",
      "modssc.preprocess.numpy_adapter", ST + "base")
CORE = tuple(ST + "core." + m for m in ("copy_raw", "ensure_2d", "cast_dtype", "pca", "random_projection", "to_numpy"))
TAB = (ST + "tabular.standard_scaler", ST + "tabular.impute", ST + "tabular.one_hot")
TXT = (ST + "text.ensure_strings", ST + "text.hash_tokenizer", ST + "text.vocab_tokenizer")
VIS = tuple(ST + "vision." + m for m in ("channels_order", "ensure_num_channels", "normalize", "squeeze", "resize",
                                         "zca_whitening", "layout"))
GRA = tuple(ST + "graph." + m for m in ("attach_edge_weight", "edge_sparsify", "sparse_adjacency"))
LAB = tuple(ST + "labels." + m for m in ("encode", "ensure_onehot", "to_numpy")) + ("modssc.supervised.utils",)
ALL = PP + CORE + TAB + TXT + VIS + GRA + LAB


def _m(n):
    return importlib.import_module(n)


# ------------------------------------------------------------------ scikit-learn stand-ins (documented behaviour)

NP = npshim.NP


class StandardScaler:
    def __init__(self, with_mean=True, with_std=True):
        self.wm, self.ws = with_mean, with_std

    def fit(self, X):
        X = sarr(X)
        self.mu = X.mean(axis=0)
        var = ((X - self.mu) ** 2).mean(axis=0)
        self.sd = NP.where(var == 0, 1.0, NP.sqrt(var))
        return self

    def transform(self, X):
        X = sarr(X) + 0.0
        if self.wm:
            X = X - self.mu
        return X / self.sd if self.ws else X


class SimpleImputer:
    def __init__(self, strategy="mean", fill_value=None, add_indicator=False):
        assert strategy == "mean" and not add_indicator

    def fit(self, X):
        X = sarr(X)
        ok = NP.isfinite(X)
        self.fill = []
        for j in range(X.shape[1]):
            v = [X[i, j] for i in range(X.shape[0]) if bool(ok[i, j])]
            self.fill.append(total(v) / len(v) if v else None)
        return self

    def transform(self, X):
        X = sarr(X).copy()
        ok = NP.isfinite(X)
        for j, f in enumerate(self.fill):
            for i in range(X.shape[0]):
                if f is not None and not bool(ok[i, j]):
                    X[i, j] = f
        keep = [j for j, f in enumerate(self.fill) if f is not None]
        return X[:, keep]


def _require(module, extra=None, purpose=None):
    if module == "sklearn.preprocessing":
        real = importlib.import_module(module)
        return NS(StandardScaler=StandardScaler, OneHotEncoder=real.OneHotEncoder)
    if module == "sklearn.impute":
        return NS(SimpleImputer=SimpleImputer)
    return importlib.import_module(module)


SK = {"extra": {(TAB[0], "require"): _require, (TAB[1], "require"): _require, (TAB[2], "require"): _require}}


# ------------------------------------------------------------------ helpers


def _ds(modality, train, test=None, fp="fp"):
    t = _m("modssc.data_loader.types")
    mk = (lambda d: None if d is None else t.Split(X=d["X"], y=d["y"], edges=d.get("edges"), masks=d.get("masks")))
    return t.LoadedDataset(train=mk(train), test=mk(test), meta={"modality": modality, "dataset_fingerprint": fp})


def _plan(steps, out="features.X"):
    p = _m(PP[3])
    return p.PreprocessPlan(steps=tuple(p.StepConfig(step_id=s, params=k) for s, k in steps), output_key=out)


def _run(ds, plan, **k):
    return _m(PP[0]).preprocess(ds, plan, **k)


def _same(a, b):
    """Same value: type, shape, dtype and elements."""
    if a is None or b is None:
        return a is b
    if isinstance(a, dict):
        return And(*([isinstance(b, dict) and sorted(a) == sorted(b)] + [_same(a[k], b[k]) for k in a])) \
            if isinstance(b, dict) and sorted(a) == sorted(b) else False
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return And(*[_same(x, y) for x, y in zip(a, b)])
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        if sarr(a).dtype != sarr(b).dtype:
            return False
        return And(*[_val(x, y) for x, y in zip(flat(a), flat(b))])
    return _val(a, b)


def _val(x, y):
    if not is_sym(x) and not is_sym(y):
        if isinstance(x, (float, np.floating)) and isinstance(y, (float, np.floating)) and x != x and y != y:
            return True
        if isinstance(x, (str, bytes)) or isinstance(y, (str, bytes)) or x is None or y is None:
            return type(x) is type(y) and x == y
        if isinstance(x, (list, tuple, dict)) or isinstance(x, np.ndarray):
            return _same(x, y)
    return eq(x, y)


def _same_split(a, b):
    if a is None or b is None:
        return a is b
    return And(_same(a.X, b.X), _same(a.y, b.y), _same(a.edges, b.edges), _same(a.masks, b.masks))


def _same_res(a, b):
    return And(_same_split(a.dataset.train, b.dataset.train), _same_split(a.dataset.test, b.dataset.test))


# ------------------------------------------------------------------ P02 cache transparency


def _program(I, kind, k, prev, field):
    """A plan of optional steps; program k differs from program 0 in one symbolic place (or anywhere for 'all')."""
    v = {}

    def pick(nm, opts):
        if prev is not None and field != nm and nm in prev:
            v[nm] = prev[nm]
        elif field != nm and field + "?" != nm and nm not in FREE:
            v[nm] = opts[-1]
        else:
            v[nm] = I.choice(f"{nm}{k}", opts)
        return v[nm]

    def num(nm, lo, hi):
        if prev is not None and field != nm and nm in prev:
            v[nm] = prev[nm]
        else:
            v[nm] = I.real(f"{nm}{k}", lo, hi)
        return v[nm]

    out, steps, fit = "features.X", [], np.array([0, 1])
    if kind == "tabular":
        steps = [("core.copy_raw", {})]
        if pick("scale", [False, True]):
            steps.append(("tabular.standard_scaler", {"with_std": False}))
        if pick("rp", [0, 1, 2]):
            steps.append(("core.random_projection", {"n_components": v["rp"], "normalize": False}))
        steps.append(("core.ensure_2d", {}))
        if pick("cast", ["", "float64"]):
            steps.append(("core.cast_dtype", {"dtype": v["cast"]}))
        if pick("lab", [False, True]):
            steps.append(("labels.to_numpy", {}))
        fit = np.array([0, 1]) if pick("fit", [0, 1]) == 0 else np.array([1, 2])
    elif kind == "graph":
        if pick("w?", [False, True]):
            steps.append(("graph.attach_edge_weight", {"weight": num("w", 0, 4)}))
        if pick("sp?", [False, True]):
            steps.append(("graph.edge_sparsify", {"keep_fraction": pick("keep", [0.25, 0.5])}))
        steps.append(("graph.attach_edge_weight", {"weight": num("w2", 0, 4)}))
        steps.append(("core.copy_raw", {}))
        if pick("adj", [False, True]):
            steps.append(("graph.sparse_adjacency", {}))
    elif kind == "vision":
        if pick("order", ["", "NCHW", "NHWC"]):
            steps.append(("vision.channels_order", {"order": v["order"]}))
        if pick("ch", [0, 1, 2]):
            steps.append(("vision.ensure_num_channels", {"num_channels": v["ch"]}))
        if pick("norm", [False, True]):
            steps.append(("vision.normalize", {"mean": [num("mean", 0, 1)], "std": [0.5]}))
        steps.append(("core.ensure_2d", {}))
    else:
        if pick("str", [False, True]):
            steps.append(("text.ensure_strings", {}))
        if pick("tok", ["hash", "vocab"]) == "hash":
            out = "tokens.input_ids"
            steps.append(("text.hash_tokenizer", {"max_length": pick("L", [1, 2]), "vocab_size": 50}))
        else:
            steps.append(("text.vocab_tokenizer", {"max_length": pick("L", [1, 2]), "min_freq": pick("mf", [1, 2])}))
        fit = np.array([0, 1]) if pick("fit", [0, 1]) == 0 else np.array([1, 2])
    seed = pick("seed", [0, 1])
    return v, _plan(steps, out), seed, fit


FREE = ("scale", "w?", "order", "tok", "adj")
FIELDS = {"tabular": ["scale", "rp", "cast", "lab", "fit", "seed"],
          "graph": ["w?", "w", "sp?", "keep", "w2", "adj", "seed"],
          "vision": ["order", "ch", "norm", "mean"], "text": ["str", "tok", "L", "mf", "fit"]}


def _data(I, kind):
    if kind == "tabular":
        tr = {"X": I.arr("X", (3, 2), "r", -2, 2), "y": np.array([0, 1, 1])}
        te = {"X": I.arr("T", (1, 2), "r", -2, 2), "y": np.array([1])}
    elif kind == "graph":
        tr = {"X": np.arange(3.0).reshape(3, 1), "y": np.array([0, 1, 1]), "edges": I.arr("E", (2, 2), "i", 0, 2),
              "masks": {"train": np.array([True, False, True])}}
        te = None
    elif kind == "vision":
        tr = {"X": np.arange(50.0).reshape(2, 5, 5, 1), "y": np.array([0, 1])}
        te = {"X": np.arange(25.0).reshape(1, 5, 5, 1) / 2, "y": np.array([1])}
    else:
        tr = {"X": np.array(["a b", "b c", "c c a"], dtype=object), "y": np.array([0, 1, 0])}
        te = {"X": np.array(["a z"], dtype=object), "y": np.array([1])}
    return _ds(kind, tr, te)


@harness("P02", modules=ALL, patch=SK, compact=True,
         cfgs=[{"kind": k, "field": f, "purge": p} for k, fs in FIELDS.items() for f in fs for p in (False, True)
               if not p or f in ("scale", "w?", "tok")],
         bounds="two plans of up to 6 built-in steps that differ in one (symbolic) place, run one after the other on one "
                "cache, every value of the data and of numeric parameters")
def cached_run_equals_uncached_run(I, cfg, C):
    """Whatever is in the cache, preprocess() returns what it returns without a cache."""
    ds = _data(I, cfg["kind"])
    v, p0, s0, f0 = _program(I, cfg["kind"], 0, None, cfg["field"])
    _, p1, s1, f1 = _program(I, cfg["kind"], 1, v, cfg["field"])
    want = _run(ds, p1, seed=s1, fit_indices=f1, cache=False)
    if cfg["purge"]:
        lean = _run(ds, p1, seed=s1, fit_indices=f1, cache=False, purge_unused_artifacts=True)
        C.require("purging artifacts does not change the result", _same_res(want, lean))
    with scratch() as d:
        _run(ds, p0, seed=s0, fit_indices=f0, cache=True, cache_dir=str(d), purge_unused_artifacts=cfg["purge"])
        for nm in ("after another plan", "from a full cache"):
            got = _run(ds, p1, seed=s1, fit_indices=f1, cache=True, cache_dir=str(d),
                       purge_unused_artifacts=cfg["purge"])
            C.require(f"the cached result {nm} is the uncached one", _same_res(want, got))
            C.require("the preprocessing fingerprint does not depend on the cache",
                      want.preprocess_fingerprint == got.preprocess_fingerprint)


@harness("P02", modules=ALL, patch=SK, compact=True,
         cfgs=[{"kind": k, "mode": m, "torn": t} for k in ("tabular", "graph", "text")
               for m, t in (("crash", "half"), ("crash", "empty"), ("fault", "full"), ("damage", "half"))],
         bounds="one crash or failed call at any file-system mutation of a caching run of up to 4 steps, or one cached "
                "file removed, emptied or cut in half; then two more runs")
def interrupted_caching_run(I, cfg, C):
    """What an interrupted or damaged cache holds never changes a later result nor stops a later run."""
    kind = cfg["kind"]
    if kind == "tabular":
        ds = _data(I, "tabular")
        plan = _plan([("core.copy_raw", {}), ("core.random_projection", {"n_components": 1}), ("labels.to_numpy", {})])
    elif kind == "graph":
        g = {"X": np.arange(3.0).reshape(3, 1), "y": np.array([0, 1, 1]), "edges": I.arr("E", (2, 2), "i", 0, 2)}
        ds = _ds("graph", g, dict(g, edges=I.arr("F", (2, 2), "i", 0, 2)))
        plan = _plan([("graph.attach_edge_weight", {"weight": I.real("w", 0, 2)}),
                      ("graph.edge_sparsify", {"keep_fraction": 0.5})])
    else:
        ds = _data(I, "text")
        plan = _plan([("text.ensure_strings", {}), ("text.vocab_tokenizer", {"max_length": 2, "min_freq": 1})])
    kw = {"seed": 3, "fit_indices": np.array([0, 2])}
    want = _run(ds, plan, cache=False, **kw)
    with scratch() as d:
        go = (lambda: _run(ds, plan, cache=True, cache_dir=str(d), **kw))
        if cfg["mode"] == "damage":
            go()
            fs = sorted(p for p in d.rglob("*") if p.is_file() and p.name != "manifest.json")
            f = fs[I.int("file", 0, len(fs) - 1).__index__()]
            how = I.choice("how", ["gone", "empty", "half"])
            data = f.read_bytes()
            if how == "gone":
                f.unlink()
            else:
                f.write_bytes(b"" if how == "empty" else data[:len(data) // 2])
        else:
            if I.flag("warm"):
                go()
                for p in d.rglob("manifest.json"):
                    if I.choice("lost", ["all", "none"]) == "all":
                        p.unlink()
                    break
            at = I.int("at", 0, 60)
            how, val = FsSim(at, cfg["mode"], cfg["torn"]).run(go)
            if how == "ok":
                C.require("a run that returns has the uncached result", _same_res(want, val))
        for nm in ("next", "one after"):
            C.require(f"the {nm} run has the uncached result", _same_res(want, go()))


@harness("P02", modules=ALL + ("modssc.views.services.service", "modssc.views.plan"), patch=SK, compact=True,
         cfgs=[{"how": h} for h in ("chain", "views")],
         bounds="a dataset preprocessed (or split into views) and preprocessed again, 3 plans each, one cache")
def derived_datasets_are_not_confused(I, cfg, C):
    """Preprocessing what was already preprocessed, or a view, never reads the cache of the original."""
    plans = [_plan([("core.copy_raw", {})]), _plan([("core.copy_raw", {}), ("tabular.standard_scaler", {"with_std": False})]),
             _plan([("core.copy_raw", {}), ("core.random_projection", {"n_components": 1, "normalize": False})])]
    ds = _data(I, "tabular")
    fit = np.array([0, 2])
    a = I.choice("a", [0, 1, 2])
    b = I.choice("b", [0, 1, 2])
    with scratch() as d:
        one = (lambda x, p, cached: _run(x, p, seed=5, fit_indices=fit, cache=cached, cache_dir=str(d) if cached else None))
        first = one(ds, plans[a], True)
        if cfg["how"] == "chain":
            again = [first.dataset]
        else:
            vp = _m("modssc.views.plan")
            vs = vp.ViewsPlan(views=(vp.ViewSpec(name="p", columns=vp.ColumnSelectSpec(mode="indices", indices=(0,))),
                                     vp.ViewSpec(name="q", columns=vp.ColumnSelectSpec(mode="complement", complement_of="p"))))
            views = _m("modssc.views.services.service").generate_views(ds, plan=vs, seed=0, cache=False)
            again = [views.views["p"], views.views["q"]]
        seen = {first.preprocess_fingerprint}
        for x in again:
            got = one(x, plans[b], True)
            C.require("the cached result is the uncached one", _same_res(one(x, plans[b], False), got))
            C.require("the derived run has a fingerprint of its own", got.preprocess_fingerprint not in seen)
            seen.add(got.preprocess_fingerprint)


def _cacheable(I, nm):
    kind = I.choice(nm, ["f", "f32", "i", "b", "2d", "empty", "str", "none", "bool", "num", "list", "nest", "tuple",
                         "dict", "intkey", "obj", "objrow", "objarr", "objnp", "objnan", "U", "0d"])
    r = I.real(f"{nm}r", -1, 1)
    o = (lambda *v: np.array(list(v) + [None], dtype=object)[:-1])
    return {"f": lambda: NP.array([r, 0.5]), "f32": lambda: NP.array([0.5, r], dtype=np.float32),
            "i": lambda: NP.array([I.int(f"{nm}i", -3, 3)], dtype=np.int32), "b": lambda: NP.array([I.bool(f"{nm}b")]),
            "2d": lambda: NP.array([[r], [1.0]]), "empty": lambda: np.zeros((0, 3), dtype=np.float32),
            "str": lambda: "a\u00e9\u2028", "none": lambda: None, "bool": lambda: True, "num": lambda: 2.0,
            "list": lambda: ["a", 1, 1.0, True, None], "nest": lambda: [["a"], (1, 2)], "tuple": lambda: ("a", 2),
            "dict": lambda: {"a": [1], "b": {"c": 0.5}}, "intkey": lambda: {1: "a"}, "obj": lambda: o("a", 1, 1.5, None),
            "objrow": lambda: o([1, 2], [3, 4]), "objarr": lambda: o(np.zeros(2), np.ones(3)),
            "objnp": lambda: o(np.int64(3), "a"), "objnan": lambda: o(float("nan"), "a"),
            "U": lambda: np.array(["a", "bc"]), "0d": lambda: np.array(2.5)}[kind]()


@harness("P02", modules=(PP[1], PP[2], PP[6]), compact=True,
         cfgs=[{"keys": k} for k in (["features.X", "tokens.ids"], ["a.b", "a__b"], ["a/b", "a_b"], ["x..y", "x.y"])],
         bounds="pairs of outputs of one step, 22 kinds of value each, names that resemble each other, symbolic contents")
def cached_values_are_unchanged(I, cfg, C):
    """A step's cached outputs are loaded with the type, shape and contents they had, or not at all."""
    cm = _m(PP[1])
    ka, kb = cfg["keys"]
    a, b = _cacheable(I, "A"), (_cacheable(I, "B") if ka == "features.X" and False else I.choice(
        "B", [["p", 2], ("p", 2), 3.5]))
    with scratch() as d:
        m = cm.CacheManager(root=d, dataset_fingerprint="ds:1")
        m.save_step_outputs(step_fingerprint="step:1", split="train", produced={ka: a, kb: b}, manifest={"x": 1})
        m.save_step_outputs(step_fingerprint="step:1", split="test", produced={ka: b, kb: b}, manifest={"x": 1})
        got = m.load_step_outputs(step_fingerprint="step:1", split="train")
        C.require("nothing else is loaded", set(got) <= {ka, kb})
        C.require("the first output is unchanged", ka not in got or _same(a, got[ka]))
        C.require("the second output is unchanged", kb in got and _same(b, got[kb]))
        got = m.load_step_outputs(step_fingerprint="step:1", split="test")
        C.require("the other split has its own values", ka in got and _same(b, got[ka]))
        if isinstance(a, np.ndarray) and sarr(a).dtype != object:
            C.require("numeric outputs are cached", ka in m.load_step_outputs(step_fingerprint="step:1", split="train"))


# ------------------------------------------------------------------ P01 no leakage

P01 = {
    "pca": ("tabular", [("core.copy_raw", {}), ("core.pca", {"n_components": 1})]),
    "pca_nc": ("tabular", [("core.copy_raw", {}), ("core.pca", {"n_components": 2, "center": False})]),
    "rp": ("tabular", [("core.copy_raw", {}), ("core.random_projection", {"n_components": 2})]),
    "scale": ("tabular", [("tabular.standard_scaler", {})]),
    "impute": ("tabular", [("core.copy_raw", {}), ("tabular.impute", {})]),
    "scale_pca": ("tabular", [("core.ensure_2d", {}), ("tabular.standard_scaler", {"with_std": False}),
                              ("core.pca", {"n_components": 1}), ("core.cast_dtype", {"dtype": "float64"})]),
    "zca": ("vision", [("vision.zca_whitening", {}), ("core.ensure_2d", {})]),
    "image": ("vision", [("vision.channels_order", {"order": "NCHW"}), ("vision.ensure_num_channels", {"num_channels": 3}),
                         ("vision.normalize", {"mean": [0.1, 0.2, 0.3], "std": [1, 2, 4]}), ("core.ensure_2d", {})]),
    "vocab": ("text", [("text.ensure_strings", {}), ("text.vocab_tokenizer", {"max_length": 3, "min_freq": 1,
                                                                                "vocab_size": 4})]),
    "hash": ("text", [("text.hash_tokenizer", {"max_length": 2})]),
    "onehot": ("tabular", [("tabular.one_hot", {})]),
}
DOCS = ["a b", "b", "c a c"]


def _rows(I, cfg, nm, n):
    """n rows of raw features of the configured kind."""
    kind, k = P01[cfg["plan"]][0], cfg["plan"]
    few = (lambda i: nm == "x" and i in cfg["fit"])
    if kind == "text":
        return [I.choice(f"{nm}{i}", DOCS if few(i) else DOCS[1:]) for i in range(n)]
    if k == "onehot":
        return [[I.choice(f"{nm}{i}c", ["u", "v", None] if few(i) else ["v", None]),
                 I.choice(f"{nm}{i}n", [1.5, "x"] if few(i) or nm == "z" else [2])] for i in range(n)]
    if k == "image":
        return [I.arr(f"{nm}{i}", (5, 5, 1), "r", -4, 4) for i in range(n)]
    if k == "zca":
        return [I.arr(f"{nm}{i}", (1, 2), "r", -4, 4) for i in range(n)]
    out = []
    for i in range(n):
        r = I.arr(f"{nm}{i}", (2,), "r", -4, 4)
        if k in ("impute", "pca") and I.flag(f"{nm}{i}nan"):
            r[0] = float("nan")
        out.append(r)
    return out


def _pack(cfg, rows):
    k = cfg["plan"]
    if P01[k][0] == "text" or k == "onehot":
        a = np.empty((len(rows), 2) if k == "onehot" else len(rows), dtype=object)
        for i, r in enumerate(rows):
            a[i] = r
        return a
    return np.stack(rows)


@harness("P01", modules=ALL, patch=SK, compact=True, nl=True,
         cfgs=[{"plan": k, "fit": f} for k in P01 for f in ([0, 2], [1], [2, 0, 2]) if f == [0, 2] or k in ("pca", "scale", "vocab")] + [{"plan": "pca", "fit": [0, 1, 2]}],
         bounds="3-4 training rows, 1 test row, 1-3 fit rows; the row outside the fit set and the test row take two "
                "arbitrary values each, all other values arbitrary")
def rows_outside_the_fit_set_do_not_leak(I, cfg, C):
    """Rows outside fit_indices (unlabelled, validation, test) and labels change nobody else's features."""
    mod, steps = P01[cfg["plan"]]
    n = 4 if cfg["plan"] == "pca_nc" or cfg["fit"] == [0, 1, 2] else 3
    fit = cfg["fit"]
    other = [i for i in range(n) if i not in fit]
    base = _rows(I, cfg, "x", n)
    t0 = _rows(I, cfg, "t", 1)
    alt, t1 = dict(zip(other, _rows(I, cfg, "z", len(other)))), _rows(I, cfg, "s", 1)
    hit = I.choice("hit", other)
    rows2 = [alt[i] if i == hit else base[i] for i in range(n)]
    y1, y2 = np.arange(n), np.array([7] * n)
    kw = {"seed": 1, "fit_indices": np.array(fit), "cache": False}
    plan = _plan(steps, "tokens.input_ids" if cfg["plan"] == "hash" else "features.X")

    def go(rows, t, y):
        try:
            return _run(_ds(mod, {"X": _pack(cfg, rows), "y": y}, {"X": _pack(cfg, t), "y": np.array([0])}), plan, **kw)
        except (ValueError, TypeError) as e:
            # a numeric column holding text outside the fit rows is refused, not silently recoded
            if cfg["plan"] != "onehot":
                raise
            return e

    a = go(base, t0, y1)
    b = go(rows2, t0, y2)
    c = go(base, t1, y1)
    if isinstance(a, Exception) or isinstance(b, Exception) or isinstance(c, Exception):
        return
    A, B, D = a.dataset, b.dataset, c.dataset
    C.require("one output row per sample", A.train.X.shape[0] == n and A.test.X.shape[0] == 1)
    C.require("the output width is decided by the fit rows", A.train.X.shape == B.train.X.shape == D.train.X.shape
              and A.test.X.shape == B.test.X.shape)
    if A.train.X.shape != B.train.X.shape:
        return
    ok = (lambda u, v: And(*[_close(x, w) for x, w in zip(flat(u), flat(v))]))
    C.require("a row outside the fit set and the labels change no other training row",
              And(*[ok(A.train.X[i], B.train.X[i]) for i in range(n) if i != hit]))
    C.require("a training row outside the fit set and the labels change no test row", ok(A.test.X, B.test.X))
    C.require("a test row changes no training row", ok(A.train.X, D.train.X))
    C.require("labels pass through", same_seq(flat(A.train.y), y1) and same_seq(flat(B.train.y), y2))


def _close(x, w):
    if not is_sym(x) and not is_sym(w) and x != x and w != w:
        return True
    return close(x, w)


# ------------------------------------------------------------------ P03 step semantics


class _Rng:
    """Hands out given numbers; anything else is drawn as usual."""

    def __init__(self, draws, pick):
        self.d, self.p = draws, pick

    def random(self, n):
        assert int(n) == len(self.d)
        return self.d

    def integers(self, lo, hi):
        return self.p


def _step(path, cls, **params):
    return getattr(_m(ST + path), cls)(**params)


def _store(**k):
    return _m(PP[4]).ArtifactStore({n.replace("__", "."): v for n, v in k.items()})


def _rng(I):
    return np.random.default_rng(0)


@harness("P03", modules=ALL, compact=True, cfgs=[{"E": e, "w": w} for e in (0, 1, 3, 4) for w in (False, True)] + [{"E": 3, "w": w, "rows": True} for w in (False, True)],
         bounds="0-4 edges, one per column or one per row, symbolic endpoints, weights, keep fraction and draws")
def edge_sparsify(I, cfg, C):
    """Kept edges are those drawn below the fraction, in order, with their own weights; never none of some."""
    E = cfg["E"]
    ei = I.arr("E", (2, E), "i", 0, 9)
    w = I.arr("w", E, "r", 0, 5)
    u = I.arr("u", E, "r", 0, 1)
    frac = I.real("frac", 0, 1)
    I.assume(frac > 0)
    for k in range(E):
        I.assume(ne(u[k], 1))
    p = I.int("p", 0, max(E - 1, 0))
    st = _store(graph__edge_index=ei.T if cfg.get("rows") else ei, **({"graph__edge_weight": w} if cfg["w"] else {}))
    out = _step("graph.edge_sparsify", "EdgeSparsifyStep", keep_fraction=frac).transform(st, rng=_Rng(u, p))
    C.require("weights are kept exactly if there are some", ("graph.edge_weight" in out) == cfg["w"])
    got = out["graph.edge_index"]
    got = got.T if cfg.get("rows") else got
    keep = [lt(x, frac) for x in flat(u)]
    anyk = Or(*keep) if E else False
    keep = [Or(k, And(Not(anyk), eq(p, i))) for i, k in enumerate(keep)]
    n = got.shape[1]
    C.require("as many edges as drawn below the fraction, at least one", eq(total([If(k, 1, 0) for k in keep]), n))
    pos = [total([If(k, 1, 0) for k in keep[:i]]) for i in range(E)]
    for i in range(E):
        for j in range(n):
            here = And(keep[i], eq(pos[i], j))
            C.require("kept edges keep order and endpoints", Implies(here, And(eq(got[0, j], ei[0, i]), eq(got[1, j], ei[1, i]))))
            if cfg["w"]:
                C.require("a kept edge keeps its weight", Implies(here, eq(out["graph.edge_weight"][j], w[i])))
    if cfg["w"]:
        C.require("one weight per kept edge", len(flat(out["graph.edge_weight"])) == n)


@harness("P03", modules=ALL, compact=True, cfgs=[{"E": e} for e in (0, 1, 3)],
         bounds="0-3 edges, symbolic weights")
def edge_weights(I, cfg, C):
    E = cfg["E"]
    ei, w, x = I.arr("E", (2, E), "i", 0, 9), I.arr("w", E, "r", 0, 5), I.real("x", 0, 5)
    s = _step("graph.attach_edge_weight", "AttachEdgeWeightStep", weight=x)
    a = s.transform(_store(graph__edge_index=ei), rng=None)["graph.edge_weight"]
    C.require("missing weights become the given constant, one per edge", len(flat(a)) == E and And(*[eq(v, x) for v in flat(a)]))
    b = s.transform(_store(graph__edge_index=ei, graph__edge_weight=w), rng=None)["graph.edge_weight"]
    C.require("existing weights are kept", same_seq(flat(b), flat(w)))
    X = I.arr("X", (3, 1), "r", -1, 1)
    o = _step("graph.sparse_adjacency", "SparseAdjacencyStep").transform(
        _store(graph__edge_index=ei, graph__edge_weight=w, features__X=X, raw__X=X + 1), rng=None)["features.X"]
    C.require("the packed graph holds features, edges and weights unchanged",
              And(same_seq(flat(o["x"]), flat(X)), same_seq(flat(o["edge_index"]), flat(ei)),
                  same_seq(flat(o["edge_weight"]), flat(w)), sorted(o) == ["edge_index", "edge_weight", "x"]))
    o = _step("graph.sparse_adjacency", "SparseAdjacencyStep").transform(
        _store(graph__edge_index=ei, raw__X=X), rng=None)["features.X"]
    C.require("without weights or features: raw features, no weights",
              And(same_seq(flat(o["x"]), flat(X)), sorted(o) == ["edge_index", "x"]))


SHAPES = [(5,), (2, 3), (2, 2, 2), (2, 1, 2, 2), (0,), (0, 2, 3)]


@harness("P03", modules=ALL, compact=True, cfgs=[{"shape": s, "src": c} for s in SHAPES for c in ("raw", "both")],
         bounds="arrays of rank 1-4 with up to 8 symbolic elements")
def ensure_2d(I, cfg, C):
    sh = tuple(cfg["shape"])
    X, R = I.arr("X", sh, "r", -1, 1), I.arr("R", (sh[0], 1), "r", -1, 1)
    st = _store(raw__X=X) if cfg["src"] == "raw" else _store(raw__X=R, features__X=X)
    for k in ("raw.X", "features.X"):
        if k in st.data:
            st.set("keep:" + k, st.get(k).copy())
    if sh[0] == 0 and len(sh) > 2:
        return
    out = _step("core.ensure_2d", "Ensure2DStep").transform(st, rng=None)["features.X"]
    C.require("two-dimensional, one row per sample", out.ndim == 2 and out.shape[0] == sh[0])
    C.require("the same values in the same order", same_seq(flat(out), flat(X)))
    cp = _step("core.copy_raw", "CopyRawStep").transform(st, rng=None)["features.X"]
    C.require("copy_raw passes raw.X on", _same(cp, st.get("raw.X")))
    for dt in ("float32", "int64"):
        if len(sh) == 2:
            c = _step("core.cast_dtype", "CastDtypeStep", dtype=dt).transform(_store(features__X=X), rng=None)["features.X"]
            C.require("cast_dtype changes the type", str(c.dtype) == dt and c.shape == X.shape)
            if dt == "float32":
                C.require("cast_dtype keeps the values", close_seq(flat(c), flat(X)))
    for k in ("raw.X", "features.X"):
        if k in st.data:
            C.require("inputs are not modified", _same(st.get(k), st.get("keep:" + k)))


IMG = [(2, 5, 5, 1), (2, 5, 5, 3), (1, 3, 5, 6), (2, 1, 5, 5), (5, 5, 3), (3, 5, 6), (1, 2, 2, 3), (1, 5, 2, 2), (2, 5, 6, 7), (4, 5)]


def _layout(sh):
    """(batched shape, index function into the original) of the documented layout rule; None: not an image."""
    ch = (1, 2, 3, 4)
    if len(sh) == 3:
        first, last = sh[0] in (1, 3, 4), sh[2] in ch
        if not (first or last):
            return None
        return "CHW" if first and not last else "HWC"
    if len(sh) == 4:
        first, last = sh[1] in ch, sh[3] in ch
        if not (first or last):
            return None
        return "CHW" if first and not last else "HWC"
    return None


def _get(a, n, h, w, c, lay):
    idx = (c, h, w) if lay == "CHW" else (h, w, c)
    return a[((n,) if a.ndim == 4 else ()) + idx]


def _dims(sh, lay):
    s = sh[-3:]
    N = sh[0] if len(sh) == 4 else 1
    return (N,) + ((s[1], s[2], s[0]) if lay == "CHW" else (s[0], s[1], s[2]))


@harness("P03", modules=ALL, compact=True, nl=True, cfgs=[{"shape": s} for s in IMG],
         bounds="images of 10 shapes (batched and single, channels first and last), symbolic pixels and statistics")
def image_steps(I, cfg, C):
    """Channel order, channel count, normalisation and resizing address the pixels they should."""
    sh = tuple(cfg["shape"])
    X = I.arr("X", sh, "r", 0, 1)
    keep = X.copy()
    lay = _layout(sh)
    go = (lambda mod, cls, **k: _step("vision." + mod, cls, **k).transform(_store(raw__X=X), rng=None)["raw.X"])
    outs = {o: go("channels_order", "ChannelsOrderStep", order=o) for o in ("NCHW", "nhwc", "bogus")}
    if lay is None:
        C.require("what is not an image batch is left alone", And(*[_same(v, X) for v in outs.values()]))
        C.require("what is not an image batch is left alone", _same(go("resize", "ResizeStep", height=2, width=2), X))
        return
    N, H, W, CH = _dims(sh, lay)
    px = [(n, h, w, c) for n in range(N) for h in range(H) for w in range(W) for c in range(CH)]
    C.require("an unknown order leaves the images alone", _same(outs["bogus"], X))
    for o, l2 in (("NCHW", "CHW"), ("nhwc", "HWC")):
        v = outs[o]
        want = (CH, H, W) if l2 == "CHW" else (H, W, CH)
        C.require("the axes are in the asked order", v.shape == sh[:-3] + want)
        C.require("every pixel is where it belongs", And(*[eq(_get(v, *p, l2), _get(X, *p, lay)) for p in px]))
    for t in (1, 2, 3, 4):
        v = go("ensure_num_channels", "EnsureNumChannelsStep", num_channels=t)
        C.require("the images have the asked number of channels", _dims(v.shape, lay) == (N, H, W, t))
        for n, h, w, _ in [p for p in px if p[3] == 0]:
            for c in range(t):
                e = _get(X, n, h, w, c, lay) if c < CH else (_get(X, n, h, w, 0, lay) if CH == 1 else 0)
                C.require("existing channels are kept, a single one is repeated, missing ones are zero",
                          eq(_get(v, n, h, w, c, lay), e))
    mu, sd = I.arr("mu", CH, "r", -1, 1), I.arr("sd", CH, "r", 0, 2)
    for k in range(CH):
        I.assume(sd[k] > 0)
    v = go("normalize", "NormalizeStep", mean=list(mu), std=list(sd))
    C.require("the shape is kept", v.shape == sh)
    C.require("each pixel is centred and scaled by its channel",
              And(*[close(_get(v, *p, lay), (_get(X, *p, lay) - mu[p[3]]) / sd[p[3]]) for p in px]))
    C.require("the input images are not modified", _same(X, keep))


@harness("P03", modules=ALL, compact=True, cfgs=[{"h": h, "w": w, "oh": oh, "ow": ow, "lay": l}
                                                  for h, w, oh, ow in ((5, 6, 2, 3), (5, 5, 5, 5), (5, 7, 3, 1), (5, 6, 1, 9))
                                                  for l in ("HWC", "CHW")],
         bounds="images up to 5x7 to sizes up to 5x9, symbolic pixels")
def resize(I, cfg, C):
    h, w, oh, ow, lay = (cfg[k] for k in ("h", "w", "oh", "ow", "lay"))
    X = I.arr("X", (1, 3, h, w) if lay == "CHW" else (1, h, w, 3), "i", 0, 255, dtype=np.uint8)
    v = _step("vision.resize", "ResizeStep", height=oh, width=ow).transform(_store(raw__X=X), rng=None)["raw.X"]
    C.require("the images have the asked size", _dims(v.shape, lay) == (1, oh, ow, 3) and v.dtype == np.uint8)
    src = (lambda k, n, m: 0 if m == 1 else int(np.floor(k * (n - 1) / (m - 1) + 1e-9)))
    for i in range(oh):
        for j in range(ow):
            for c in range(3):
                C.require("each pixel is the source pixel at the same relative position",
                          eq(_get(v, 0, i, j, c, lay), _get(X, 0, src(i, h, oh), src(j, w, ow), c, lay)))


@harness("P03", modules=ALL, compact=True, cfgs=[{"shape": s} for s in ((2, 3, 2, 1), (2, 1, 2, 2), (1, 2, 2, 1), (2, 2, 1))],
         bounds="symbolic pixels")
def squeeze(I, cfg, C):
    sh = tuple(cfg["shape"])
    X = I.arr("X", sh, "r", 0, 1)
    for as_list in (False, True):
        v = _step("vision.squeeze", "SqueezeStep", as_list=as_list).transform(_store(raw__X=X), rng=None)["raw.X"]
        if len(sh) == 4 and sh[-1] == 1:
            C.require("a list of images is returned exactly if asked for", isinstance(v, list) == as_list)
            C.require("one image per sample", len(v) == sh[0] and all(i.shape == sh[1:3] for i in v))
            C.require("the pixels are the same", And(*[same_seq(flat(a), flat(b)) for a, b in zip(v, X)]))
        else:
            C.require("other arrays are left alone", _same(v, X))


@harness("P03", modules=ALL, compact=True, cfgs=[{"n": n, "dt": d} for n in (0, 1, 3) for d in ("float32", "int64")],
         bounds="<=3 labels in -1..3")
def one_hot_labels(I, cfg, C):
    """One-hot rows mark the class of labelled samples among the sorted observed classes; others are zero."""
    n = cfg["n"]
    y = I.arr("y", n, "i", -1, 3)
    r = _step("labels.ensure_onehot", "EnsureOneHotLabelsStep", dtype=cfg["dt"]).transform(_store(raw__y=y), rng=None)
    oh, lab = r["labels.y_onehot"], flat(r["labels.is_labeled"])
    C.require("one row and one flag per sample", oh.shape[0] == n == len(lab) and str(oh.dtype) == cfg["dt"])
    seen = [Or(*[eq(v, c) for v in flat(y)]) if n else False for c in range(4)]
    C.require("one column per observed class", eq(total([If(s, 1, 0) for s in seen]), oh.shape[1]))
    col = [total([If(s, 1, 0) for s in seen[:c]]) for c in range(4)]
    for i in range(n):
        C.require("labelled flags mark the labelled samples", Iff(lab[i], ne(y[i], -1)))
        for j in range(oh.shape[1]):
            on = Or(*[And(eq(y[i], c), eq(col[c], j)) for c in range(4)])
            C.require("one-hot entries mark the class", eq(oh[i, j], If(on, 1, 0)))


@harness("P03", modules=ALL, compact=True, cfgs=[{"n": n, "form": f} for n, f in ((1, "i"), (3, "i"), (2, "col"), (2, "str"))],
         bounds="<=3 labels of <=4 values: integer vectors, columns, strings")
def encoded_labels(I, cfg, C):
    """Encoded labels are positions in the sorted distinct classes, and decode to the labels."""
    n, form = cfg["n"], cfg["form"]
    if form == "str":
        y = np.array([I.choice(f"y{i}", ["a", "b", "c"]) for i in range(n)])
    else:
        y = I.arr("y", (n, 1) if form == "col" else n, "i", -2, 5)
    r = _step("labels.encode", "EncodeLabelsStep").transform(_store(raw__y=y), rng=None)
    e, cl = flat(r["labels.y"]), flat(r["labels.classes"])
    C.require("one code per sample, integer codes", len(e) == n and r["labels.y"].dtype == np.int64)
    if form == "str":
        C.require("codes decode to the labels", all(cl[int(e[i])] == y[i] for i in range(n)))
        C.require("classes are sorted and distinct", cl == sorted(set(cl)) and set(cl) == set(y.tolist()))
        return
    want = flat(y)
    C.require("codes are in range", And(*[And(le(0, v), lt(v, len(cl))) for v in e]))
    C.require("classes are sorted and distinct", And(*[lt(a, b) for a, b in zip(cl, cl[1:])]))
    for i in range(n):
        C.require("codes decode to the labels", Or(*[And(eq(e[i], k), eq(c, want[i])) for k, c in enumerate(cl)]))
    C.require("every class occurs", And(*[Or(*[eq(c, w) for w in want]) for c in cl]))


@harness("P03", modules=ALL, compact=True, patch=SK, nl=True, cfgs=[{"what": w} for w in ("scale", "scale0", "pca", "rp")],
         bounds="3 samples, 2 features, fit on 2 rows")
def fitted_transforms(I, cfg, C):
    """Fitted steps apply to every split the transformation learned from the fit rows."""
    w = cfg["what"]
    X, T = I.arr("X", (3, 2), "r", -4, 4), I.arr("T", (1, 2), "r", -4, 4)
    mod = "tabular"
    steps = {"scale": ("tabular.standard_scaler", {}), "scale0": ("tabular.standard_scaler", {"with_mean": False, "with_std": False}),
             "pca": ("core.pca", {"n_components": 1}), "rp": ("core.random_projection", {"n_components": 2, "normalize": I.flag("nrm") if w == "rp" else False})}[w]
    r = _run(_ds(mod, {"X": X, "y": np.zeros(3)}, {"X": T, "y": np.zeros(1)}), _plan([("core.copy_raw", {}), steps]),
             seed=2, fit_indices=np.array([2, 0]), cache=False).dataset
    Z, S = r.train.X, r.test.X
    mu = [(X[0, j] + X[2, j]) / 2 for j in range(2)]
    if w == "scale0":
        C.require("without centring and scaling nothing changes", close_seq(flat(Z) + flat(S), flat(X) + flat(T)))
    elif w == "scale":
        for j in range(2):
            d = (X[0, j] - X[2, j]) / 2
            sd2 = d * d
            for a, x in [(Z[i, j], X[i, j]) for i in range(3)] + [(S[0, j], T[0, j])]:
                c = x - mu[j]
                I_ok = Or(eq(sd2, 0), And(close(a * a * sd2, c * c, 1e-3), le(0, a * c)))
                if I.mode == "concrete" and float(sd2) < 1e-6:
                    continue
                C.require("values are centred by the fit mean and scaled by the fit deviation", I_ok)
    else:
        # linear: the image of a row minus the image of another depends linearly on the difference
        f = (lambda u, v: [a - b for a, b in zip(flat(u), flat(v))])
        C.require("one output row per sample", Z.shape[0] == 3 and S.shape == (1, Z.shape[1]))
        if w == "pca":
            c0, c2 = flat(Z[0]), flat(Z[2])
            C.require("the fit rows are centred on zero", close_seq([a + b for a, b in zip(c0, c2)], [0] * len(c0)))
        I.assume(And(eq(T[0, 0], X[1, 0]), eq(T[0, 1], X[1, 1])))
        C.require("equal rows of different splits have equal images", close_seq(flat(S[0]), flat(Z[1])))
    if w == "rp":
        go = (lambda nrm: _run(_ds(mod, {"X": X, "y": np.zeros(3)}, {"X": T, "y": np.zeros(1)}),
                               _plan([("core.copy_raw", {}), ("core.random_projection", {"n_components": 4, "normalize": nrm})]),
                               seed=2, fit_indices=np.array([2, 0]), cache=False).dataset.train.X)
        C.require("a normalised projection is the projection divided by the root of its width",
                  close_seq([2 * v for v in flat(go(True))], flat(go(False)), 1e-3))


@harness("P03", modules=ALL, compact=True, cfgs=[{"step": s, "L": l} for s in ("hash", "vocab") for l in (1, 2, 3)],
         bounds="2 documents from 5 texts, length limits 1-3, vocabulary 3-5, minimum frequency 1-2")
def tokenizers(I, cfg, C):
    """Token ids: equal words, equal ids; padding is 0, mask marks the words, longer texts are cut."""
    docs = ["", "a", "b A", "a  b c", "C c a b"]
    X = [I.choice("d0", docs), I.choice("d1", docs)]
    L = cfg["L"]
    st = _store(raw__X=np.array(X, dtype=object))
    words = [d.lower().split() for d in X]
    if cfg["step"] == "hash":
        V = I.choice("V", [3, 5, 1000])
        low = I.flag("low")
        words = words if low else [d.split() for d in X]
        r = _step("text.hash_tokenizer", "HashTokenizerStep", vocab_size=V, max_length=L, lowercase=low).transform(st, rng=None)
        ids, mask = r["tokens.input_ids"], r["tokens.attention_mask"]
        C.require("ids lie in the vocabulary", int(ids.max()) < max(V, 3) and int(ids.min()) >= 0)
    else:
        V, mf = I.choice("V", [3, 4, 5]), I.choice("mf", [1, 2])
        s = _step("text.vocab_tokenizer", "VocabTokenizerStep", vocab_size=V, max_length=L, min_freq=mf)
        fit = I.choice("fit", [[0], [1, 0]])
        s.fit(st, fit_indices=np.array(fit), rng=None)
        r = s.transform(st, rng=None)
        ids, mask = r["tokens.input_ids"], r["tokens.attention_mask"]
        C.require("the features are the ids", _same(r["features.X"], ids))
        cnt = {}
        for i in fit:
            for t in words[i]:
                cnt[t] = cnt.get(t, 0) + 1
        ids_of = {}
        for d, row in zip(words, ids):
            for t, k in zip(d, row):
                ids_of[t] = int(k)
        known = {t for t, k in ids_of.items() if k != 1}
        C.require("known words are frequent enough words of the fit texts", all(cnt.get(t, 0) >= mf for t in known))
        C.require("the vocabulary is bounded and ids are its positions", int(ids.max()) < V and r["metadata.vocab_size"] <= V)
        C.require("more frequent words go first", all(not (cnt.get(a, 0) > cnt[b] and a not in known and a in ids_of
                                                           and cnt.get(a, 0) >= mf) for b in known for a in cnt))
        C.require("every frequent word is known if there is room",
                  V - 2 < len([t for t in cnt if cnt[t] >= mf]) or all(t in known for t in ids_of if cnt.get(t, 0) >= mf))
    seen, back = {}, {}
    for i, d in enumerate(words):
        for j in range(L):
            on = j < len(d)
            C.require("the mask marks the words", int(mask[i, j]) == int(on))
            C.require("padding is zero and words are not", (int(ids[i, j]) != 0) == on)
            if on:
                C.require("equal words have equal ids", seen.setdefault(d[j], int(ids[i, j])) == int(ids[i, j]))
                if cfg["step"] == "vocab" and int(ids[i, j]) != 1:
                    C.require("different known words have different ids", back.setdefault(int(ids[i, j]), d[j]) == d[j])


@harness("P03", modules=ALL, patch=SK, compact=True, cfgs=[{"step": s, "n": n, "m": m, "cache": c} for s in ("encode", "onehot")
                                                            for n, m in ((1, 1), (2, 2), (3, 1)) for c in (False, True)
                                                            if not c or n == 2],
         bounds="<=3 training and <=2 test labels of <=4 values; computed, from the cache, with half of the cache")
def label_codes_are_shared_by_the_splits(I, cfg, C):
    """A label has the same code in the train and in the test split, and different labels have different codes."""
    y, t = I.arr("y", cfg["n"], "i", -1, 2), I.arr("t", cfg["m"], "i", -1, 2)
    ds = _ds("tabular", {"X": np.zeros((cfg["n"], 1)), "y": y}, {"X": np.zeros((cfg["m"], 1)), "y": t})
    plan = _plan([("core.copy_raw", {}), ("labels.encode" if cfg["step"] == "encode" else "labels.ensure_onehot", {})])

    def check(r):
        if cfg["step"] == "encode":
            a, b = flat(r.dataset.train.y), flat(r.dataset.test.y)
            C.require("one code per sample", len(a) == cfg["n"] and len(b) == cfg["m"])
            C.require("known classes come first", And(*[lt(v, _nclass(y)) for v in a]))
            pairs = list(zip(a + b, flat(y) + flat(t)))
            C.require("same label, same code; other label, other code",
                      And(*[Iff(eq(c, d), eq(u, v)) for c, u in pairs for d, v in pairs]))
            return
        oh, ot = r.train_artifacts["labels.y_onehot"], r.test_artifacts["labels.y_onehot"]
        k, k2 = oh.shape[1], ot.shape[1]
        C.require("the test split has the columns of the train split", k2 >= k)
        rows = [([oh[i, j] for j in range(k)] + [0] * (k2 - k), y[i]) for i in range(cfg["n"])]
        rows += [([ot[i, j] for j in range(k2)], t[i]) for i in range(cfg["m"])]
        for a, u in rows:
            C.require("labelled samples have one column, others none", eq(total(a), If(eq(u, -1), 0, 1)))
            for b, v in rows:
                C.require("same label, same column; other label, other column",
                          Iff(And(*[eq(p, q) for p, q in zip(a, b)]), eq(u, v)))

    if not cfg["cache"]:
        check(_run(ds, plan, cache=False))
        return
    with scratch() as d:
        go = (lambda: _run(ds, plan, cache=True, cache_dir=str(d)))
        go()
        lost = I.choice("lost", ["", "train", "test"])
        for p in d.rglob(lost) if lost else ():
            if p.is_dir():
                for f in p.rglob("*"):
                    if f.is_file():
                        f.unlink()
        check(go())


def _nclass(y):
    return total([If(Or(*[eq(v, c) for v in flat(y)]), 1, 0) for c in range(-1, 4)])


# ------------------------------------------------------------------ P04 plan resolution, order, randomness, fingerprints


class RecStep:
    """Adds to features.X the sum of what it reads and two random draws; records what it was given."""

    log = []

    def __init__(self, name="", reads=(), out="features.X", draws=1):
        self.name, self.reads, self.out, self.draws = name, reads, out, draws
        self.off = 0

    def fit(self, store, *, fit_indices, rng):
        RecStep.log.append(("fit", self.name, tuple(int(i) for i in fit_indices), rng))
        self.off = total([store.require("raw.X")[i, 0] for i in fit_indices])

    def transform(self, store, *, rng):
        RecStep.log.append(("run", self.name, None, rng))
        r = [rng.random() for _ in range(self.draws)]
        x = store.require("raw.X")
        for k in self.reads:
            x = x + store.require(k)
        RecStep.log.append(("draws", self.name, tuple(r), None))
        return {self.out: x + self.off}


def _reg(specs):
    t = _m("modssc.preprocess.types")
    return _m(PP[5]).StepRegistry(specs={k: t.StepSpec(step_id=k, import_path="props.preprocess:RecStep", **v)
                                         for k, v in specs.items()})


SPECS = {"a": {"kind": "transform", "produces": ("features.A",)},
         "b": {"kind": "fittable", "modalities": ("tabular", "text"), "produces": ("features.B",), "consumes": ("raw.X",)},
         "c": {"kind": "transform", "modalities": ("graph",), "produces": ("features.C",)}}


@harness("P04", modules=PP, compact=True, cfgs=[{"k": k, "first": f} for k in (1, 2) for f in "abc"],
         thorough=[{"k": 3, "first": f} for f in "abc"], max_paths=100000,
         bounds="plans of <=2 (thorough 3) steps out of 3 kinds, each enabled or not, restricted to modalities or not, "
                "requiring an initial, a produced, a missing artifact or nothing; 3 modalities; with and without test split")
def plan_resolution(I, cfg, C):
    """Exactly the enabled steps that fit the modality and whose required artifacts exist are run, in plan order."""
    p = _m(PP[3])
    modality = I.choice("modality", ["tabular", "graph", ""])
    reg = _reg(SPECS)
    steps = []
    for i in range(cfg["k"]):
        sid = cfg["first"] if i == 0 else I.choice(f"id{i}", ["a", "b", "c"])
        last = i == cfg["k"] - 1
        steps.append(p.StepConfig(
            step_id=sid, params={"name": f"s{i}", "out": SPECS[sid]["produces"][0]}, enabled=I.flag(f"on{i}"),
            modalities=I.choice(f"mod{i}", [(), ("graph",), ("graph", "tabular")]) if last else (),
            requires_fields=I.choice(f"req{i}", [(), ("raw.y",), ("graph.mask.train",), ("features.A",), ("features.B", "raw.X")])
            if last else ()))
    plan = p.PreprocessPlan(steps=tuple(steps), output_key="features.A")
    te = I.choice("test", ["none", "plain", "masks"])
    X = I.arr("X", (2, 1), "r", -1, 1)
    tr = {"X": X, "y": np.array([0, 1])}
    t = None if te == "none" else {"X": X[:1], "y": np.array([0])}
    if te == "masks":
        tr["masks"] = t["masks"] = {"train": np.array([True, False])}
    ds = _ds(modality, tr, t)
    have = {"raw.X", "raw.y"} | ({"graph.mask.train"} if te == "masks" else set())
    run, skip = [], []
    for i, s in enumerate(steps):
        allowed = s.modalities or SPECS[s.step_id].get("modalities", ())
        if not s.enabled or (allowed and modality and modality not in allowed) or any(k not in have for k in s.requires_fields):
            skip.append(i)
        else:
            run.append(i)
            have |= set(SPECS[s.step_id]["produces"])
    res = _m(PP[0]).resolve_plan(ds, plan, registry=reg)
    C.require("the steps that apply are kept, in order", [s.index for s in res.steps] == run)
    C.require("the others are reported as skipped", [s.index for s in res.skipped] == skip)
    C.require("kept steps have the plan's ids and parameters",
              all(s.step_id == steps[s.index].step_id and dict(s.params) == dict(steps[s.index].params) for s in res.steps))
    RecStep.log = []
    out = _run(ds, plan, registry=reg, cache=False, fit_indices=np.array([1]))
    ev = [e[:3] for e in RecStep.log if e[0] != "draws"]
    want = []
    for i in run:
        if SPECS[steps[i].step_id]["kind"] == "fittable":
            want.append(("fit", f"s{i}", (1,)))
        want += [("run", f"s{i}", None)] * (1 if t is None else 2)
    C.require("each kept step is fitted (if fittable) on the fit rows and applied once to each split, in order", ev == want)
    on = any(steps[i].step_id == "a" for i in run)
    C.require("the output is the asked artifact if it was produced", out.train_artifacts.has("features.A") == on)
    C.require("the output of one split per input split", (out.dataset.test is None) == (t is None))
    C.require("the labels and masks are kept", _same(out.dataset.train.y, tr["y"]) and _same(out.dataset.train.masks, tr.get("masks")))


@harness("P04", modules=PP, compact=True, max_paths=100000, cfgs=[{"k": k} for k in (2, 3)], thorough=[{"k": 4}],
         bounds="plans of <=3 (thorough 4) random steps of which any subset is disabled, 3 seeds")
def step_randomness(I, cfg, C):
    """A step's random numbers depend on the master seed, its position and its id alone."""
    p = _m(PP[3])
    reg = _reg({"a": {"kind": "transform"}, "b": {"kind": "transform"}})
    X = I.arr("X", (1, 1), "r", -1, 1)
    ds = _ds("tabular", {"X": X, "y": np.array([0])})
    ids = [I.choice(f"id{i}", ["a", "b"]) for i in range(cfg["k"])]

    def go(tag, seed):
        new_process()
        on = [I.flag(f"{tag}on{i}") for i in range(cfg["k"])]
        RecStep.log = []
        _run(ds, p.PreprocessPlan(steps=tuple(
            p.StepConfig(step_id=s, params={"name": str(i), "draws": 2 if tag == "B" and i == 0 else 1}, enabled=on[i])
            for i, s in enumerate(ids))), registry=reg, cache=False, seed=seed)
        return {e[1]: e[2] for e in RecStep.log if e[0] == "draws"}

    s0 = I.choice("seed0", [0, 1])
    s1 = I.choice("seed1", [0, 1, 12345])
    a, b = go("A", s0), go("B", s1)
    for i in sorted(set(a) & set(b)):
        if s0 == s1:
            C.require("same seed, position and id: same numbers, whatever other steps do", eq(a[i][0], b[i][0]))
    if cfg["k"] > 2 or any(x == "b" for x in ids):
        return
    seeds = {}
    derive = _m(PP[2]).derive_seed
    for sd in (0, 1, -1, 10, 2 ** 32):
        for idx in (0, 1, 10, 11):
            for sid in ("a", "b", "1|a"):
                v = derive(sd, step_id=sid, step_index=idx)
                C.require("step seeds are 32-bit", 0 <= v < 2 ** 32)
                C.require("different steps have different seeds", seeds.setdefault(v, (sd, idx, sid)) == (sd, idx, sid))


def _desc(I, tag, pairs, base=None, free=()):
    d = {}
    for k, opts in pairs.items():
        d[k] = I.choice(f"{tag}{k}", opts) if base is None or k in free else base[k]
    return d


FP = {"ds": ["fp", "fp2"], "mod": ["tabular", "graph"], "seed": [0, 1, 7], "fit": [None, (0,), (1,), (0, 1), (1, 0)],
      "out": ["features.X", "raw.X"], "dtype": ["float32", "float64"], "order": ["xy", "yx"],
      "on0": [True, False], "on1": [True, False], "mods": [(), ("tabular",)], "req": [(), ("raw.X",)]}
FPQ = [("ds", "mod"), ("seed", "fit"), ("out", "dtype"), ("order", "on0"), ("on1", "order"), ("mods", "req"), ("fit", "ds")]


@harness("P04", modules=PP + CORE, compact=True, max_paths=200000, cfgs=[{"vary": list(v)} for v in FPQ],
         thorough=[{"vary": [a, b]} for i, a in enumerate(FP) for b in list(FP)[:i] if (a, b) not in FPQ],
         bounds="two runs of two-step plans that differ in up to two of: dataset, modality, seed, fit rows, output, "
                "parameters (a symbolic number among them), order, enabled steps, modalities, required artifacts")
def fingerprint_identifies_the_run(I, cfg, C):
    """Two runs have the same preprocessing fingerprint exactly if dataset, plan, fit rows and seed are the same."""
    p = _m(PP[3])
    X = np.zeros((2, 1))
    base = {"ds": "fp", "mod": "tabular", "seed": 0, "fit": (0,), "out": "features.X", "dtype": "float32",
            "order": "xy", "on0": True, "on1": True, "mods": (), "req": ()}
    w = I.real("w", 0, 1), I.real("w2", 0, 1)

    def go(tag, k):
        new_process()
        d = _desc(I, tag, FP, base, cfg["vary"])
        one = p.StepConfig(step_id="core.copy_raw", params={}, enabled=d["on0"], modalities=d["mods"])
        two = p.StepConfig(step_id="core.cast_dtype", params={"dtype": d["dtype"]}, enabled=d["on1"], requires_fields=d["req"])
        three = p.StepConfig(step_id="core.ensure_2d", params={}, enabled=False, requires_fields=())
        object.__setattr__(three, "params", {"note": k})
        st = (one, two) if d["order"] == "xy" else (two, one)
        plan = p.PreprocessPlan(steps=st + (three,), output_key=d["out"])
        ds = _ds(d["mod"], {"X": X, "y": np.zeros(2)}, fp=d["ds"])
        try:
            r = _run(ds, plan, seed=d["seed"], cache=False, fit_indices=None if d["fit"] is None else np.array(d["fit"]))
        except KeyError:                                   # cast before copy: nothing to cast
            return d, None
        return d, (r, plan)

    (d0, r0), (d1, r1) = go("A", w[0]), go("B", w[1])
    if r0 is None or r1 is None:
        return
    same = And(d0 == d1, eq(w[0], w[1]))
    f0, f1 = r0[0].preprocess_fingerprint, r1[0].preprocess_fingerprint
    C.require("same dataset, plan, fit rows and seed exactly if same fingerprint", Iff(same, f0 == f1))
    C.require("the fingerprint is recorded in the result",
              r0[0].dataset.meta["preprocess_fingerprint"] == f0 and r0[0].dataset.meta["dataset_fingerprint"] == d0["ds"])


@harness("P04", modules=PP, compact=True, max_paths=100000, cfgs=[{"alias": a, "k": k} for a in (False, True) for k in (0, 1, 2)],
         bounds="plans of <=2 steps, every setting of one free")
def plan_file_round_trip(I, cfg, C):
    """A plan written to a file is read back as the same plan."""
    p = _m(PP[3])
    steps = tuple(p.StepConfig(
        step_id=I.choice(f"id{i}", ["core.cast_dtype", "x"]), params=I.choice(f"p{i}", [{}, {"a": 1, "b": [0.5, "x", None]}, {"c": {"d": True}}]),
        modalities=I.choice(f"m{i}", [(), ("graph", "text")]), requires_fields=I.choice(f"r{i}", [(), ("raw.X",)]),
        enabled=I.flag(f"on{i}") if i == 0 else False) for i in range(cfg["k"]))
    plan = p.PreprocessPlan(steps=steps, output_key=I.choice("out", ["features.X", "tokens.input_ids"]))
    with scratch() as d:
        f = d / "plan.yaml"
        p.dump_plan(plan, f)
        if cfg["alias"]:
            f.write_text(f.read_text().replace("- id:", "- step_id:"))
        back = p.load_plan(f)
    C.require("the same plan is read back", back == plan)
    C.require("with the same fingerprint", back.fingerprint() == plan.fingerprint())
