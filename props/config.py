"""Configuration objects: what is written is what is meant, and nonsense is refused."""
from __future__ import annotations

import copy

import numpy as np

from symx.harness import harness
from symx.ops import And, Implies, Not, Or, eq, flat, le, lt, nested, same_seq

BENCH = ("bench.schema", "modssc.hpo.space")
NAMES = ["train", "val", "test"]


def base():
    return {"run": {"name": "r"}, "dataset": {"id": "toy"}, "sampling": {"plan": {"split": {"kind": "holdout"}}},
            "preprocess": {"plan": {"steps": [1]}}, "method": {"kind": "inductive", "id": "m"},
            "evaluation": {"report_splits": ["test"], "metrics": ["accuracy"]}}


def _same(a, b):
    """The same nested structure with equal leaves."""
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and And([_same(a[k], b[k]) for k in b])
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and And([_same(x, y) for x, y in zip(a, b)])
    if b is None or isinstance(b, (str, bool)):
        return a == b and type(a) is type(b)
    return a is not None and not isinstance(a, (str, bool)) and eq(a, b)


def _put(I, sec, key, value, default, want, name=None):
    """Write a key or leave it out; note the value the configuration must then have."""
    name = name or key
    if I.flag("has_" + key):
        sec[key] = value
        want[name] = value
    else:
        want[name] = default


def _read(C, raw):
    from bench.schema import BenchConfigError, ExperimentConfig

    before = copy.deepcopy(raw)
    try:
        out = ExperimentConfig.from_dict(raw)
    except BenchConfigError:
        out = None
    C.require("the written configuration is not modified", _same(raw, before))
    return out


def _check(C, sec, want, what):
    for k, v in want.items():
        C.require(f"{what} holds the written value or the default", _same(getattr(sec, k), v))


def _run(I, raw, want):
    r = raw["run"]
    seed = I.int("seed", -3, 3)
    seeds = list(flat(I.arr("seeds", (2,), "i", 0, 3)))
    _put(I, r, "seed", seed, 0, want)
    _put(I, r, "seeds", seeds, None, want)
    _put(I, r, "output_dir", "out/here", "modssc_cache/output", want)
    for k, d in (("fail_fast", True), ("benchmark_mode", False)):
        _put(I, r, k, not d, d, want)
    _put(I, r, "log_level", "info", None, want)
    want["name"] = "r"
    ok = Or("seeds" not in r, Not(eq(seeds[0], seeds[1])))
    return And(ok, not (want["benchmark_mode"] and not want["fail_fast"]))


LIM = ("max_preprocess_batch_size", "max_method_batch_size", "max_method_sup_batch_size", "max_graph_chunk_size",
       "max_train_samples", "max_test_samples")


def _limits(I, raw, want):
    sec, ok = {}, True
    prof = I.choice("profile", [None, "auto", "V100", "h100", "a100"])
    if prof is not None:
        sec["profile"] = prof
        ok = prof != "a100"
    want["profile"] = None if prof is None else prof.lower()
    for k in LIM[I.pick_int("first", 0, 3):][:3]:
        v = I.int(k, -1, 9)
        _put(I, sec, k, v, None, want)
        if k in sec:
            ok = And(ok, lt(0, v))
    for k in LIM:
        want.setdefault(k, None)
    raw["limits"] = sec
    return ok


def _data(I, raw, want):
    ds, sp, pp = raw["dataset"], raw["sampling"], raw["preprocess"]
    w = want.setdefault
    a, b = I.int("sampling_seed", -2, 9), I.int("preprocess_seed", -2, 9)
    w("dataset", {"id": "toy"}), w("sampling", {"plan": sp["plan"]}), w("preprocess", {"plan": pp["plan"]})
    _put(I, ds, "options", {"n": I.int("opt", 0, 5)}, {}, want["dataset"])
    _put(I, ds, "download", False, True, want["dataset"])
    if I.flag("dataset_dir"):
        ds["cache_dir"] = "d"
    want["dataset"]["cache_dir"] = ds.get("cache_dir")
    if I.flag("has_sampling_seed"):
        sp["seed"] = a
    if I.flag("has_preprocess_seed"):
        pp["seed"] = b
    want["sampling"]["seed"], want["preprocess"]["seed"] = sp.get("seed"), pp.get("seed")
    _put(I, pp, "fit_on", "train", None, want["preprocess"])
    _put(I, pp, "cache", False, True, want["preprocess"])
    want["preprocess"]["cache_dir"] = None
    return True


def _graph(I, raw, want):
    w = want.setdefault
    if I.flag("graph"):
        g = raw["graph"] = {}
        _put(I, g, "enabled", True, False, w("graph", {}))
        _put(I, g, "spec", {"k": I.int("k", 1, 9)}, {}, want["graph"])
        if I.flag("graph_seed"):
            g["seed"] = I.int("gseed", 0, 9)
            g["cache"] = False
        want["graph"].update(seed=g.get("seed"), cache=g.get("cache", True), cache_dir=None)
    if I.flag("views"):
        v = raw["views"] = {"plan": {"views": [1, 2]}}
        if I.flag("views_seed"):
            v["seed"] = I.int("vseed", 0, 9)
        want["views"] = {"plan": v["plan"], "seed": v.get("seed")}
    if I.flag("augmentation"):
        a = raw["augmentation"] = {}
        _put(I, a, "mode", "online", "fixed", w("augmentation", {}))
        _put(I, a, "weak", {"steps": [I.int("weak_p", 0, 5)]}, {}, want["augmentation"])
        if I.flag("strong"):
            a["strong"] = {"steps": [I.int("strong_p", 0, 5)]}
            a["enabled"] = False
            a["modality"] = "vision"
        want["augmentation"].update(strong=a.get("strong", {}), enabled=a.get("enabled", True), modality=a.get("modality"), seed=None)
    return True


def _method(I, raw, want):
    m = raw["method"]
    m["kind"] = I.choice("kind", ["inductive", "transductive", "other"])
    ok = m["kind"] != "other"
    want["kind"], want["method_id"] = m["kind"], "m"
    _put(I, m, "params", {"lr": I.real("lr", 0, 1), "n": I.int("n", 0, 9)}, {}, want)
    dev = {"device": "cpu", "dtype": "float32", "resolved_device": None}
    if I.flag("device"):
        m["device"] = {"device": "auto", "dtype": "float64"}
        dev = {**m["device"], "resolved_device": None}
    want["device"] = dev
    raw["run"]["allow_custom_factories"] = I.flag("trusted")
    mo = I.choice("model", [None, "factory", "classifier", "both", "neither"])
    want["model"] = None
    if mo is not None:
        x = m["model"] = {}
        if mo in ("factory", "both"):
            x["factory"] = "pkg.mod:make"
        if mo in ("classifier", "both"):
            x["classifier_id"] = "mlp"
        v = I.int("width", 1, 9)
        if mo == "factory":
            x["params"] = {"width": v}
            want["model"] = {"factory": "pkg.mod:make", "params": {"width": v}, "classifier_id": None}
        elif mo == "classifier":
            x["classifier_params"] = {"width": v}
            _put(I, x, "classifier_backend", "sklearn", "torch", w := {})
            _put(I, x, "ema", True, None, w)
            want["model"] = {"classifier_id": "mlp", "classifier_params": {"width": v}, "factory": None, **w}
        ok = ok and mo not in ("both", "neither") and (mo != "factory" or raw["run"]["allow_custom_factories"])
    return ok


def _search(I, raw, want):
    s = raw["search"] = {"enabled": I.flag("enabled")}
    s["kind"] = I.choice("kind", ["grid", "random", "tpe"])
    n, rep = I.int("n_trials", -1, 5), I.int("repeats", -1, 5)
    sd = I.int("seed", 0, 9)
    _put(I, s, "n_trials", n, None, want)
    _put(I, s, "repeats", rep, 1, want)
    _put(I, s, "seed", sd, None, want)
    o = s["objective"] = {"split": I.choice("split", ["val", "train", "dev"]), "metric": "accuracy",
                          "direction": I.choice("direction", ["maximize", "minimize", "up"]), "aggregate": "mean"}
    s["space"] = {"method": {"params": {"a": [I.int("a0", 0, 5), I.int("a1", 0, 5)]}}}
    want.update(enabled=s["enabled"], kind=s["kind"], objective=o, space=s["space"])
    ok = s["kind"] != "tpe" and o["split"] != "dev" and o["direction"] != "up"
    if s["kind"] == "random":
        ok = ok and "n_trials" in s and "seed" in s
    ok = And(ok, Or("n_trials" not in s, lt(0, n)), Or("repeats" not in s, lt(0, rep)))
    return ok


PARTS = {"run": _run, "limits": _limits, "data": _data, "graph": _graph, "method": _method, "search": _search}


@harness("C01", modules=BENCH, compact=True, cfgs=[{"part": p} for p in PARTS], max_paths=8000,
         bounds="one section at a time: every optional key present or absent, every integer, every choice of the enumerated words and one word outside")
def experiment_config(I, cfg, C):
    raw, want = base(), {}
    ok = PARTS[cfg["part"]](I, raw, want)
    out = _read(C, raw)
    if out is None:
        C.require("a valid configuration is accepted", Not(ok))
        return
    C.require("an invalid configuration is refused", ok)
    p = cfg["part"]
    if p in ("run", "limits"):
        _check(C, getattr(out, p), want, p)
    elif p in ("data", "graph"):
        for k, w in want.items():
            _check(C, getattr(out, k), w, k)
        for k in ("graph", "views", "augmentation"):
            C.require("sections that were not written are absent", (getattr(out, k) is None) == (k not in raw))
    elif p == "search":
        ob = want.pop("objective")
        _check(C, out.search, want, "search")
        _check(C, out.search.objective, ob, "search.objective")
    else:
        mo, dv = want.pop("model"), want.pop("device")
        _check(C, out.method, want, "method")
        _check(C, out.method.device, dv, "method.device")
        C.require("a model is described exactly when it was written", (out.method.model is None) == (mo is None))
        if mo is not None:
            _check(C, out.method.model, mo, "method.model")
    C.require("evaluation lists what was written", out.evaluation.report_splits == ["test"] and out.evaluation.metrics == ["accuracy"])


SECTIONS = ["", "run", "limits", "dataset", "sampling", "preprocess", "views", "graph", "augmentation", "method", "evaluation", "search",
            "method.device", "method.model", "search.objective"]


@harness("C01", modules=BENCH, compact=True, cfgs=[{}],
         bounds="every section of the configuration with one key that it does not know, with any integer value")
def unknown_keys_are_refused(I, cfg, C):
    raw = base()
    raw.update(limits={}, views={"plan": {"v": 1}}, graph={}, augmentation={},
               search={"enabled": True, "kind": "grid", "space": {"method": {"params": {"a": [1]}}},
                       "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"}})
    raw["method"].update(device={}, model={"classifier_id": "mlp"})
    at = I.choice("section", SECTIONS)
    C.require("the configuration is valid without the key", _read(C, raw) is not None)
    sec = raw
    for k in at.split(".") if at else []:
        sec = sec[k]
    sec["no_such_key"] = I.int("value", -3, 3)
    C.require("a key nobody reads is refused", _read(C, raw) is None)


# --- graph specifications ---------------------------------------------------------------------------
GS = ("modssc.graph.specs",)


def _some(I, name, value):
    return value if I.flag("has_" + name) else None


def _builder(I, cfg):
    f = {"scheme": I.choice("scheme", ["knn", "epsilon", "anchor", "all"]), "metric": I.choice("metric", ["cosine", "euclidean"]),
         "k": None, "radius": None}
    if cfg["part"] == "scheme":
        f["k"] = _some(I, "k", I.int("k", -1, 40))
        f["radius"] = _some(I, "radius", I.real("radius", -1, 3))
        f["n_anchors"] = _some(I, "n_anchors", I.int("n_anchors", -1, 9))
        f["anchors_k"] = I.int("anchors_k", -1, 9)
        f["candidate_limit"] = I.int("candidate_limit", -1, 2000)
    elif cfg["part"] == "post":
        f["k"], f["radius"] = 3, 1.5
        f["symmetrize"] = I.choice("symmetrize", ["none", "or", "mutual", "and"])
        f["normalize"] = I.choice("normalize", ["none", "rw", "sym", "l1"])
        f["kind"] = I.choice("kind", ["binary", "heat", "cosine", "rbf"])
        f["sigma"] = _some(I, "sigma", I.real("sigma", -1, 2))
        f["self_loops"] = I.flag("self_loops")
    else:
        f["k"], f["radius"] = 3, 1.5
        f["backend"] = I.choice("backend", ["auto", "numpy", "sklearn", "faiss", "gpu"])
        f["chunk_size"] = I.int("chunk_size", -1, 600)
        f["faiss_exact"] = I.flag("faiss_exact")
        for k in ("faiss_hnsw_m", "faiss_ef_search", "faiss_ef_construction"):
            f[k] = I.int(k, -1, 300)
        f["feature_field"] = I.choice("feature_field", ["features.X", "other"])
        f["anchors_method"] = I.choice("anchors_method", ["random", "kmeans", "grid"])
    return f


def _valid_builder(f):
    pos = lambda k, d=1: lt(0, f.get(k, d))  # noqa: E731
    sc = f["scheme"]
    ok = sc != "all"
    if sc in ("knn", "anchor"):
        ok = And(ok, f["k"] is not None and pos("k"))
    if sc == "epsilon":
        ok = And(ok, f["radius"] is not None and pos("radius"), f.get("backend") != "faiss")
    if sc == "anchor":
        na = f.get("n_anchors")
        ok = And(ok, pos("anchors_k"), na is None or pos("n_anchors"), pos("candidate_limit"), f.get("anchors_method") != "grid")
    ok = And(ok, f.get("symmetrize") != "and", f.get("normalize") != "l1", f.get("backend") != "gpu", pos("chunk_size"),
             pos("faiss_hnsw_m"), pos("faiss_ef_search"), pos("faiss_ef_construction"))
    kind = f.get("kind", "heat")
    if kind == "heat" and "kind" in f:
        ok = And(ok, f["sigma"] is not None and pos("sigma"))
    return And(ok, kind != "rbf", kind != "cosine" or f["metric"] == "cosine")


@harness("C01", modules=GS, compact=True, cfgs=[{"part": p} for p in ("scheme", "post", "backend")], max_paths=8000,
         bounds="graph construction settings in three groups: every combination of words (one unknown word each) and every integer or real parameter")
def graph_spec(I, cfg, C):
    from modssc.graph.errors import GraphValidationError
    from modssc.graph.specs import GraphBuilderSpec, GraphWeightsSpec

    f = _builder(I, cfg)
    kw = {k: v for k, v in f.items() if k not in ("kind", "sigma")}
    if "kind" in f:
        kw["weights"] = GraphWeightsSpec(f["kind"], sigma=f["sigma"])
    spec = GraphBuilderSpec(**kw)
    try:
        spec.validate()
        valid = True
    except GraphValidationError:
        valid = False
    want = _valid_builder(f)
    C.require("a specification is accepted exactly when its settings make sense", want if valid else Not(want))
    d = spec.to_dict()
    back = GraphBuilderSpec.from_dict(d)
    for k, v in kw.items():
        if k != "weights":
            C.require("a specification survives its dictionary form", _same(getattr(back, k), v))
    C.require("a specification survives its dictionary form", _same(back.weights.kind, spec.weights.kind))
    C.require("a specification survives its dictionary form", _same(back.weights.sigma, spec.weights.sigma))
    C.require("the dictionary form is stable", _same(back.to_dict(), d))


@harness("C01", modules=GS, compact=True, cfgs=[{"part": "walks"}, {"part": "views"}],
         bounds="every combination of views (one unknown word), structural method and flag; every integer or real parameter in a range around its limits")
def featurizer_spec(I, cfg, C):
    from modssc.graph.errors import GraphValidationError
    from modssc.graph.specs import GraphFeaturizerSpec

    if cfg["part"] == "walks":
        kw = {k: I.int(k, -1, 5) for k in ("struct_dim", "walk_length", "num_walks_per_node", "window_size")}
        kw.update({k: I.real(k, -1, 2) for k in ("p", "q")})
        ok = And([lt(1 if k == "walk_length" else 0, v) for k, v in kw.items()])
        kw["views"] = ("struct",)
    else:
        vs = I.choice("views", [(), ("attr",), ("diffusion", "struct"), ("struct", "attr", "diffusion"), ("attr", "spectral")])
        kw = {"views": vs, "diffusion_steps": I.int("diffusion_steps", -2, 5), "diffusion_alpha": I.real("diffusion_alpha", -1, 2),
              "struct_method": I.choice("struct_method", ["deepwalk", "node2vec", "line"]), "cache": I.flag("cache")}
        ok = And(bool(vs), "spectral" not in vs, le(0, kw["diffusion_steps"]), le(0, kw["diffusion_alpha"]), le(kw["diffusion_alpha"], 1),
                 kw["struct_method"] != "line")
    spec = GraphFeaturizerSpec(**kw)
    try:
        spec.validate()
        valid = True
    except GraphValidationError:
        valid = False
    C.require("a specification is accepted exactly when its settings make sense", ok if valid else Not(ok))
    back = GraphFeaturizerSpec.from_dict(spec.to_dict())
    for k, v in kw.items():
        C.require("a specification survives its dictionary form", _same(list(getattr(back, k)) if k == "views" else getattr(back, k),
                                                                       list(v) if k == "views" else v))
    C.require("the dictionary form is stable", _same(back.to_dict(), spec.to_dict()))


# --- views plans ------------------------------------------------------------------------------------
@harness("C01", modules=("modssc.views.plan",), compact=True, cfgs=[{"n": 1}, {"n": 2}, {"n": 3}], max_paths=6000,
         bounds="1-3 views with names out of three words (one blank), every selector mode and one unknown, two column numbers and a fraction of any value, "
         "complements of any named view")
def views_plan(I, cfg, C):
    from modssc.views.errors import ViewsValidationError
    from modssc.views.plan import ColumnSelectSpec, ViewSpec, ViewsPlan

    views, ok, seen = [], cfg["n"] >= 2, []
    words = ["a", "b", " "] if cfg["n"] < 3 else ["a", "b", "c"]
    for i in range(cfg["n"]):
        nm = I.choice(f"name{i}", words if cfg["n"] < 3 or i else ["a"])
        mode = I.choice(f"mode{i}", (["all", "indices", "random", "complement", "first"] if cfg["n"] < 3 else ["all", "complement", "random"]) + [None])
        kw = {}
        ok = And(ok, nm not in seen, bool(nm.strip()))
        if mode == "indices":
            idx = list(flat(I.arr(f"idx{i}", (I.pick_int(f"len{i}", 0, 2),), "i", -2, 5)))
            kw["indices"] = tuple(idx)
            ok = And(ok, bool(idx), And([le(0, v) for v in idx]))
        elif mode == "random":
            kw["fraction"] = fr = I.real(f"fraction{i}", -1, 2)
            ok = And(ok, lt(0, fr), le(fr, 1))
        elif mode == "complement":
            kw["complement_of"] = tgt = I.choice(f"of{i}", [None, "a", "b"])
            ok = And(ok, tgt in seen)
        elif mode == "first":
            ok = False
        seen.append(nm)
        views.append(ViewSpec(name=nm, columns=None if mode is None else ColumnSelectSpec(mode=mode, **kw)))
    try:
        ViewsPlan(views=tuple(views)).validate()
        valid = True
    except ViewsValidationError:
        valid = False
    C.require("a views plan is accepted exactly when its views are named apart and refer to earlier ones", ok if valid else Not(ok))
