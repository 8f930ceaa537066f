"""D05: what dataset options select, through every provider (third-party libraries are stand-ins)."""
import contextlib
import os
import shutil
import tempfile
from pathlib import Path
from types import SimpleNamespace as NS

import numpy as np

from props.storage import _m
from props.supervised import _setter
from symx.harness import harness
from symx.ops import *  # noqa: F401,F403

P = "modssc.data_loader.providers."
PM = (P + "common", P + "openml", P + "torchvision", P + "hf", P + "pyg", P + "torchaudio", P + "tfds", P + "toy",
      "modssc.data_loader.types", "modssc.data_loader.uri", "modssc.data_loader.numpy_adapter")
_BOX = {}


@contextlib.contextmanager
def scratch():
    d = Path(tempfile.mkdtemp(prefix="symx-pr-", dir=os.getcwd()))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _optional(name, *, extra=None, purpose=None):
    return _BOX["lib"](name)


_LIB = _setter({(P + p, "optional_import"): _optional for p in ("openml", "torchvision", "hf", "pyg", "torchaudio", "tfds")})


def _rows(X):
    return [tuple(flat(r)) for r in nested(X)] if X is not None else None


def _source(I, tag, n, lo, hi):
    """n samples: feature rows (id, value) with distinct ids, and labels."""
    X = I.arr(f"X{tag}", (n, 2), "i", lo, hi)
    I.assume(distinct([r[0] for r in nested(X)]))
    return X, I.arr(f"y{tag}", (n,), "i", 0, 3)


def _selected(C, what, got, X, y, wanted, cap, seed):
    """`got` holds whole samples of (X, y): those of the wanted classes, at most `cap`, in order unless shuffled."""
    src, lab = _rows(X), flat(y)
    gX, gy = _rows(got.X), flat(got.y)
    C.require(f"{what}: features and labels have one row per sample", len(gX) == len(gy))
    ok = [True if wanted is None else member(v, wanted) for v in lab]
    n_ok = count(ok)
    n = n_ok if cap is None else If(le(cap, 0), 0, smin(n_ok, cap))
    C.require(f"{what}: the number of samples is the asked one", eq(len(gX), n))
    for i in range(len(gX)):
        C.require(f"{what}: sample {i} is a whole sample of a wanted class of this split",
                  Or(*[And(ok[j], eq(gX[i][0], src[j][0]), eq(gX[i][1], src[j][1]), eq(gy[i], lab[j])) for j in range(len(src))]))
    C.require(f"{what}: no sample twice", distinct([r[0] for r in gX]))
    if seed is None:
        # the first ones, in the order of the source
        pos = []
        for i in range(len(gX)):
            p = 0
            for j in range(len(src)):
                p = If(eq(gX[i][0], src[j][0]), j, p)
            pos.append(p)
            C.require(f"{what}: without a seed the first wanted samples are taken, in order",
                      eq(i, count([And(ok[j], lt(j, p)) for j in range(len(src))])))


def smin(a, b):
    return If(le(a, b), a, b)


def _options(I, names):
    o = {}
    wanted = I.choice("filter", [None, "one", "list"])
    if wanted == "one":
        o["class_filter"] = I.int("want", 0, 3)
    elif wanted == "list":
        o["class_filter"] = [I.int("want0", 0, 3), I.int("want1", 0, 3)]
    for nm in names:
        o[nm] = I.choice("has_" + nm, [None, I.int(nm, 0, 4)])
    o["seed"] = I.choice("has_seed", [None, I.int("seed", 0, 3)])
    w = o.get("class_filter")
    return o, (None if w is None else w if isinstance(w, list) else [w])


class _Columns(dict):
    """A split of a stand-in Hugging Face dataset: column name -> values."""


def _library(kind, I, data, uses_targets):
    (X, y), (Xt, yt) = data
    if kind == "openml":
        return NS(fetch_openml=lambda **kw: (X, y))
    if kind == "torchvision":
        class DS:
            def __init__(self, root, train=True, download=False):
                a, b = (X, y) if train else (Xt, yt)
                if uses_targets:
                    self.data, self.targets = a, b
                else:
                    self.items = list(zip(list(a), list(b)))

            def __iter__(self):
                return iter(self.items)

        class BySplit(DS):
            def __init__(self, root, split="train", download=False):
                DS.__init__(self, root, train=split == "train")
        return NS(A=DS, B=BySplit)
    if kind == "torchaudio":
        class Single:
            def __init__(self, root, download=False):
                a, b = X, y
                self.items = [(r, 16000, v) for r, v in zip(list(a), list(b))]

            def __iter__(self):
                return iter(self.items)

        class BySubset(Single):
            def __init__(self, root, subset="training", download=False):
                a, b = (X, y) if subset == "training" else (Xt, yt)
                self.items = [(r, 16000, v) for r, v in zip(list(a), list(b))]
        return NS(A=BySubset, B=Single)
    if kind == "hf":
        def load_dataset(name, config=None, cache_dir=None):
            d = {"train": {"text": X, "label": y}}
            if _BOX["official"] in ("test", "both"):
                d["test"] = {"text": Xt, "label": yt}
            if _BOX["official"] in ("validation", "both"):
                d["validation"] = {"text": Xt, "label": yt} if _BOX["official"] == "validation" else {"text": X, "label": y}
            return d
        return NS(load_dataset=load_dataset)
    raise AssertionError(kind)


@harness("D05", modules=PM, contexts=(_LIB,), replay_contexts=(_LIB,), compact=True, max_paths=20000,
         cfgs=[{"lib": "openml"}, {"lib": "torchvision", "cls": "A", "targets": True},
               {"lib": "torchvision", "cls": "B", "targets": True}, {"lib": "hf", "official": "test"},
               {"lib": "hf", "official": "validation"}, {"lib": "hf", "official": None}],
         bounds="3 training and 2 test samples with symbolic contents and labels in 0..3; no, one or two wanted classes; "
                "caps 0..4; with and without seed, every shuffle")
def options_select_whole_samples(I, cfg, C):
    """class_filter, max_*samples and seed select whole samples of their own split, and nothing else changes."""
    lib = cfg["lib"]
    names = ["max_samples"] if lib == "openml" else ["max_train_samples", "max_test_samples"]
    o, wanted = _options(I, names)
    train = _source(I, "", 3, 0, 99)
    test = _source(I, "t", 2, 100, 199)
    _BOX["official"] = cfg.get("official")
    fake = _library(lib, I, (train, test), cfg.get("targets"))
    _BOX["lib"] = lambda name: fake
    prov = {"openml": "OpenMLProvider", "torchvision": "TorchvisionProvider", "hf": "HuggingFaceDatasetsProvider"}[lib]
    prov = getattr(_m(P + lib), prov)()
    uri = _m("modssc.data_loader.uri").parse_uri(f"{lib}:{cfg.get('cls', 'name')}")
    given = {k: (list(v) if isinstance(v, list) else v) for k, v in o.items()}
    ident = prov.resolve(uri, options=o)
    with scratch() as d:
        ds = prov.load_canonical(ident, raw_dir=d)
    _selected(C, "train", ds.train, *train, wanted, o[names[0]], o["seed"])
    if lib == "openml" or (lib == "hf" and not cfg["official"]):
        C.require("no official test set is made up", ds.test is None)
    else:
        _selected(C, "test", ds.test, *test, wanted, o[names[1]], o["seed"])
    C.require("the options are left as they were", And(*[v is given[k] or v == given[k] if not isinstance(v, list)
                                                          else same_seq(v, given[k]) for k, v in o.items()]))


@harness("D05", modules=PM, contexts=(_LIB,), replay_contexts=(_LIB,), compact=True, max_paths=20000, budget=40,
         cfgs=[{"filter": f, "cap": c, "seed": s, "short": sh} for f, c, s, sh in
               ((0, 0, 0, 0), (1, 0, 0, 0), (2, 0, 0, 0), (0, 1, 0, 0), (0, 1, 1, 0), (1, 1, 1, 0), (1, 1, 0, 1), (0, 0, 0, 1))],
         bounds="3 nodes, 2 edges (repeats and loops included), symbolic features, labels (possibly fewer than nodes) and "
                "masks; one or two wanted classes, cap 1..4, with and without seed")
def graph_options_keep_the_induced_subgraph(I, cfg, C):
    """Filtering a graph keeps the wanted nodes, all edges among them, and their features, labels and masks."""
    n, m = 3, 2
    X = I.arr("X", (n, 2), "i", 0, 99)
    ids = [r[0] for r in nested(X)]
    I.assume(distinct(ids))
    ny = n - 1 if cfg["short"] else n
    y = I.arr("y", (ny,), "i", 0, 3)
    E = I.arr("e", (2, m), "i", 0, n - 1)
    masks = {k: I.arr("m" + k, (n,), "b") for k in ("train_mask", "test_mask")}
    o = {}
    if cfg["filter"]:
        o["class_filter"] = [I.int(f"want{k}", 0, 3) for k in range(cfg["filter"])]
    if cfg["cap"]:
        o["max_nodes"] = I.int("max_nodes", 1, 4)
    if cfg["seed"]:
        o["seed"] = I.int("seed", 0, 3)
    data = NS(x=X, y=y, edge_index=E, **masks)

    class DS:
        def __init__(self, root):
            pass

        def __len__(self):
            return 1

        def __getitem__(self, i):
            return data
    _BOX["lib"] = lambda name: NS(G=DS)
    prov = _m(P + "pyg").PyGProvider()
    ident = prov.resolve(_m("modssc.data_loader.uri").parse_uri("pyg:G"), options=o)
    with scratch() as d:
        ds = prov.load_canonical(ident, raw_dir=d)
    t = ds.train
    C.require("graphs have no test split of their own", ds.test is None)
    gX = _rows(t.X)
    lab = list(flat(y)) + [-1] * (n - ny)
    ok = [True if not cfg["filter"] else member(v, o["class_filter"]) for v in lab]
    n_ok = count(ok)
    k = len(gX)
    C.require("as many nodes are kept as asked", eq(k, n_ok if not cfg["cap"] else smin(n_ok, o["max_nodes"])))
    kept = []
    for i in range(n):
        p = -1
        for a in range(k):
            p = If(eq(gX[a][0], ids[i]), a, p)
        kept.append(p)
        C.require("only nodes of wanted classes are kept", Implies(le(0, p), ok[i]))
    src = _rows(X)
    for i in range(n):
        for a in range(k):
            here = eq(kept[i], a)
            C.require("features, labels and masks stay with their node",
                      Implies(here, And(eq(gX[a][1], src[i][1]), eq(flat(t.y)[a], lab[i]),
                                        *[Iff(flat(t.masks[nm])[a], flat(masks[nm + "_mask"])[i]) for nm in ("train", "test")])))
    if k == 0:
        return
    C.require("node order is kept", And(*[Implies(And(le(0, kept[i]), le(0, kept[j])), lt(kept[i], kept[j]))
                                          for i in range(n) for j in range(i + 1, n)]))
    e = nested(E)
    got = list(zip(*nested(t.edges))) if int(np.shape(t.edges)[1]) else []
    at = [(pick_of(kept, e[0][q]), pick_of(kept, e[1][q])) for q in range(m)]
    for a in range(k):
        for b in range(k):
            C.require("exactly the edges between kept nodes are kept, renumbered",
                      eq(count([And(eq(u, a), eq(v, b)) for u, v in got]), count([And(eq(u, a), eq(v, b)) for u, v in at])))
    C.require("no edge leaves the graph", And(*[And(le(0, u), lt(u, k), le(0, v), lt(v, k)) for u, v in got]))


def pick_of(vals, i):
    r = vals[0]
    for j in range(1, len(vals)):
        r = If(eq(i, j), vals[j], r)
    return r


RELS = {
    "openml": ("OpenMLProvider", "openml:iris", ("version", "as_frame", "class_filter", "max_samples", "seed", "data_id", "name")),
    "torchvision": ("TorchvisionProvider", "torchvision:A", ("class_filter", "max_train_samples", "max_test_samples", "seed")),
    "hf": ("HuggingFaceDatasetsProvider", "hf:ag", ("config", "text_column", "label_column", "prefer_test_split", "class_filter",
                                                      "max_train_samples", "max_test_samples", "seed")),
    "pyg": ("PyGProvider", "pyg:Planetoid/Cora", ("class_filter", "max_nodes", "seed", "dataset_class")),
    "torchaudio": ("TorchaudioProvider", "torchaudio:A", ("dataset_class", "class_filter", "max_train_samples", "max_test_samples", "seed")),
    "tfds": ("TFDSProvider", "tfds:mnist/1.0", ("as_supervised",)),
}


@harness("D05", modules=PM, compact=True,
         cfgs=[{"lib": k} for k in RELS],
         bounds="two requests to one provider whose options differ in one symbolically chosen value")
def options_that_select_differently_are_different_requests(I, cfg, C):
    """Two requests that differ in an option which selects content never share a cache entry; equal ones do."""
    cls, ref, names = RELS[cfg["lib"]]
    prov = getattr(_m(P + cfg["lib"]), cls)()
    uri = _m("modssc.data_loader.uri").parse_uri(ref)
    f = I.choice("option", list(names))
    a, b = I.int("v0", 0, 5), I.int("v1", 0, 5)
    dom = {"class_filter": lambda v, k: [v, 7], "as_frame": lambda v, k: bool(v > 2), "as_supervised": lambda v, k: bool(v > 2),
           "prefer_test_split": lambda v, k: bool(v > 2),
           "config": lambda v, k: "c" + str(int(v)), "text_column": lambda v, k: "c" + str(int(v)), "name": lambda v, k: "c" + str(int(v)),
           "label_column": lambda v, k: "c" + str(int(v)), "dataset_class": lambda v, k: "C" + str(int(v))}
    mk = dom.get(f, lambda v, k: v)
    va, vb = mk(a, 0), mk(b, 1)
    both = {"seed": 1} if f != "seed" else {}
    same = And(*[eq(x, y) if not isinstance(x, (str, bool)) else x == y for x, y in (zip(va, vb) if isinstance(va, list) else [(va, vb)])])
    ia, ib = prov.resolve(uri, options={f: va, **both}), prov.resolve(uri, options={f: vb, **both})
    ic = prov.resolve(uri, options=dict(both))
    fa, fb, fc = (i.fingerprint(schema_version=1) for i in (ia, ib, ic))
    C.require("requests that select differently have different fingerprints", Implies(Not(same), fa != fb))
    C.require("equal requests have the same fingerprint", Implies(same, fa == fb))
    if f in ("class_filter", "max_samples", "max_train_samples", "max_test_samples", "max_nodes", "seed", "version", "data_id", "config"):
        C.require("naming the option is different from leaving it out", fa != fc)
