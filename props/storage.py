"""Durable state: dataset cache, split files, graph cache, preprocess cache."""
from __future__ import annotations

import importlib
import os
import shutil
import tempfile
from contextlib import contextmanager
from pathlib import Path

import numpy as np

from props.graph import _SP
from symx import npshim
from symx.fsx import FsSim, Sched
from symx.harness import harness
from symx.process import new_process
from symx.ops import And, Iff, Implies, Not, Or, eq, ne, nested, same_seq

DL = ("modssc.data_loader.services.service", "modssc.data_loader.cache", "modssc.data_loader.storage.files",
      "modssc.data_loader.providers.toy", "modssc.data_loader.manifest", "modssc.data_loader.types",
      "modssc.data_loader.storage.json", "modssc.data_loader.numpy_adapter", "modssc.utils.io")


BIG = 2**62


@contextmanager
def scratch():
    d = Path(tempfile.mkdtemp(prefix="symx-st-", dir=os.getcwd()))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextmanager
def dir_order(first):
    """Directories list the entry called `first` first (the operating system promises no order)."""
    old = os.listdir
    os.listdir = lambda *a: sorted(old(*a), key=lambda n: (n != first, n))
    try:
        yield
    finally:
        os.listdir = old


def _m(name):
    return importlib.import_module(name)


def _svc():
    return _m(DL[0])


@contextmanager
def toy_returns(make):
    """The toy provider hands out `make()`; everything else is the real code."""
    cls = _m("modssc.data_loader.providers.toy").ToyProvider
    old = cls.__dict__["load_canonical"]
    cls.load_canonical = lambda self, identity, raw_dir: make()
    try:
        yield
    finally:
        cls.load_canonical = old


def _dataset(kind):
    t = _m("modssc.data_loader.types")
    if kind == "text":
        tr = t.Split(X=np.array(["a\nb", "", "\u00e9\u2028x"], dtype=object), y=np.array([2, 0, 1]))
        te = t.Split(X=np.array(["t"], dtype=object), y=np.array([1]))
    else:
        tr = t.Split(X=np.arange(6.0).reshape(3, 2), y=np.array([2, 0, 1]),
                     edges=np.array([[0, 1], [1, 2]]),
                     masks={"train": np.array([True, False, True]), "val": np.array([False, True, False])})
        te = None
    return t.LoadedDataset(train=tr, test=te, meta={"k": 3})


def _eq(a, b):
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())


def _same_split(a, b):
    if a is None or b is None:
        return a is b
    if not (_eq(a.X, b.X) and _eq(a.y, b.y) and _eq(a.edges, b.edges)):
        return False
    ma, mb = a.masks or {}, b.masks or {}
    return set(ma) == set(mb) and all(_eq(ma[k], mb[k]) for k in ma)


def _same_ds(a, b):
    return _same_split(a.train, b.train) and _same_split(a.test, b.test)


def _drop_stale_locks(root):
    for p in Path(root).rglob("*.lock"):
        p.unlink()


@harness("D02", modules=DL, max_paths=2000,
         cfgs=[{"mode": m, "prior": p, "kind": k} for m in ("crash", "fault") for p in (False, True)
               for k in ("text", "graph")],
         bounds="one crash (or failed call) at any file-system mutation of a download, the file being written "
                "then left empty, half or fully written; with and without a previous cached copy")
def dataset_cache_survives_interruption(I, cfg, C):
    """After an interrupted (re-)download, a later load returns the complete dataset."""
    svc = _svc()
    errs = _m("modssc.data_loader.errors")
    at = I.int("at", 0, 60)
    torn = I.choice("torn", ["full", "half", "empty"]) if cfg["mode"] == "crash" else "full"
    want = _dataset(cfg["kind"])
    with scratch() as root, toy_returns(lambda: _dataset(cfg["kind"])):
        if cfg["prior"]:
            svc.download_dataset("toy", cache_dir=root)
        sim = FsSim(at, cfg["mode"], torn)
        st, val = sim.run(lambda: svc.download_dataset("toy", cache_dir=root, force=cfg["prior"]))
        if st == "ok":
            C.require("a download that returns hands out the dataset", _same_ds(val, want))
        _drop_stale_locks(root)
        try:
            got = svc.load_dataset("toy", cache_dir=root, download=False)
        except errs.DatasetNotCachedError:
            got = None
        if got is not None:
            C.require("what the cache offers after an interruption is complete", _same_ds(got, want))
        got = svc.load_dataset("toy", cache_dir=root)
        C.require("a load after an interruption recovers the dataset", _same_ds(got, want))
        got = svc.load_dataset("toy", cache_dir=root, download=False)
        C.require("the recovered dataset is cached", _same_ds(got, want))


@harness("D02", modules=DL, cfgs=[{"op": "purge"}, {"op": "gc"}],
         bounds="crash at any mutation of a purge / garbage collection, then load")
def purge_interrupted(I, cfg, C):
    """An interrupted purge never leaves a half-removed dataset that is served or blocks loading."""
    svc, cache = _svc(), _m("modssc.data_loader.cache")
    at = I.int("at", 0, 40)
    with scratch() as root, toy_returns(lambda: _dataset("graph")):
        want = _dataset("graph")
        svc.download_dataset("toy", cache_dir=root)
        svc.download_dataset("toy", cache_dir=root, options={"seed": 5})
        lay = cache.CacheLayout(root=Path(root).resolve())
        rows = cache.index_list(lay)
        C.require("both variants are listed", len(rows) == 2)
        sim = FsSim(at, "crash")
        st, val = sim.run(lambda: cache.purge_dataset(lay, rows[0]["canonical_uri"]) if cfg["op"] == "purge"
                          else cache.gc_keep_latest(lay))
        if st == "ok":
            left = cache.index_list(lay)
            keep = 0 if cfg["op"] == "purge" else 1
            newest = max(rows, key=lambda r: r["created_at"])["fingerprint"]
            C.require("exactly the purged variants are gone",
                      len(left) == keep and all(r["fingerprint"] == newest for r in left)
                      and [cache.is_cached(lay, r["fingerprint"]) for r in rows].count(True) == keep
                      and (keep == 0 or cache.is_cached(lay, newest)))
        _drop_stale_locks(root)
        for opt in ({}, {"seed": 5}):
            C.require("a load after an interrupted purge works",
                      _same_ds(svc.load_dataset("toy", cache_dir=root, options=opt), want))


# ------------------------------------------------------------------------------- locking


def _picker(I, cfg, n_actors):
    """Who runs next: at most cfg['switches'] preemptions, at symbolic steps, to a symbolic actor."""
    sw = [(I.int(f"at{k}", 0, cfg["steps"]), I.choice(f"to{k}", list(range(n_actors))))
          for k in range(cfg["switches"])]
    for a, b in zip(sw, sw[1:]):
        I.assume(a[0] < b[0])
    if sw and "at0" in cfg:
        I.assume(sw[0][0] >= cfg["at0"][0])
        I.assume(sw[0][0] < cfg["at0"][1])
    st = {"cur": I.choice("first", list(range(n_actors))), "k": 0}

    def pick(step, live):
        while st["k"] < len(sw) and bool(sw[st["k"]][0] <= step - 1):
            to = sw[st["k"]][1]
            st["k"] += 1
            I.assume(to != st["cur"] and to in live)  # otherwise a schedule with fewer preemptions
            st["cur"] = to
        if st["cur"] not in live:
            st["cur"] = live[0]
        return st["cur"]

    return pick


@harness("D01", modules=DL, max_paths=20000,
         cfgs=[{"actors": 2, "switches": 2, "steps": 30}, {"actors": 3, "switches": 1, "steps": 40}]
         + [{"actors": 3, "switches": 2, "steps": 40, "at0": [k, k + 5]} for k in range(0, 15, 5)],
         thorough=[{"actors": 3, "switches": 3, "steps": 40, "at0": [k, k + 3]} for k in range(0, 24, 3)],
         bounds="2-3 processes, up to 3-4 preemptions at any file-system event")
def lock_is_exclusive(I, cfg, C):
    """At most one process is inside the lock; a failed attempt changes nothing for the holder."""
    cache = _m("modssc.data_loader.cache")
    with scratch() as root:
        lay = cache.CacheLayout(root=Path(root).resolve())
        cache.ensure_layout(lay)
        inside, peak, entered = [0], [0], [0]

        def actor():
            with cache.cache_lock(lay, "f" * 8):
                inside[0] += 1
                entered[0] += 1
                peak[0] = max(peak[0], inside[0])
                try:
                    sched.point()
                    sched.point()
                finally:
                    inside[0] -= 1

        sched = Sched(_picker(I, cfg, cfg["actors"]), relevant=lambda t: "lock" in t)
        res = sched.run([actor] * cfg["actors"])
        C.require("at most one process holds the lock", peak[0] <= 1)
        C.require("somebody gets the lock", entered[0] >= 1)
        C.require("a process that cannot get the lock is told so",
                  all(s == "ok" or isinstance(v, OSError) for s, v in res))
        C.require("the lock is free at the end", not lay.lock_path("f" * 8).exists())
        with cache.cache_lock(lay, "f" * 8):
            pass


@harness("D01", modules=DL, max_paths=20000,
         cfgs=[{"actors": 2, "switches": 1, "steps": 99, "force": f} for f in (False, True)]
         + [{"actors": 2, "switches": 2, "steps": 99, "force": f, "at0": [k, k + 7]} for k in (0, 7, 14, 21)
            for f in (False, True)],
         thorough=[{"actors": a, "switches": 2, "steps": 130, "force": True, "at0": [k, k + 10]}
                   for a in (2, 3) for k in range(0, 100, 10)],
         bounds="2 concurrent downloads of one dataset, up to 2 preemptions at any file-system event")
def concurrent_downloads(I, cfg, C):
    """Concurrent downloads never mix: whoever returns has the dataset and the cache is complete."""
    svc = _svc()
    with scratch() as root, toy_returns(lambda: _dataset("graph")):
        want = _dataset("graph")
        if cfg["force"]:
            svc.download_dataset("toy", cache_dir=root)
        busy, peak = [0], [0]

        def make():
            busy[0] += 1
            peak[0] = max(peak[0], busy[0])
            try:
                sched.point()
                return _dataset("graph")
            finally:
                busy[0] -= 1

        def actor():
            return svc.download_dataset("toy", cache_dir=root, force=cfg["force"])

        sched = Sched(_picker(I, cfg, cfg["actors"]),
                      relevant=lambda t: any(w in t for w in ("/locks/", "/processed/", "/manifests/")))
        with toy_returns(make):
            res = sched.run([actor] * cfg["actors"])
        C.require("one download at a time", peak[0] <= 1)
        C.require("a download that returns hands out the whole dataset",
                  all(_same_ds(v, want) for s, v in res if s == "ok"))
        C.require("somebody succeeds", any(s == "ok" for s, v in res))
        C.require("the cache is complete afterwards",
                  _same_ds(svc.load_dataset("toy", cache_dir=root, download=False), want))


# ------------------------------------------------------------------------------- round trips


def arr_same(a, b):
    """Same shape, dtype and (possibly symbolic) contents."""
    if a is None or b is None:
        return a is b
    if tuple(a.shape) != tuple(b.shape) or str(np.dtype(a.dtype)) != str(np.dtype(b.dtype)):
        return False
    return same_seq(nested(a.reshape(-1)), nested(b.reshape(-1)))


def split_same(a, b):
    if a is None or b is None:
        return a is b
    ma, mb = a.masks or {}, b.masks or {}
    if sorted(ma) != sorted(mb) or (a.edges is None) != (b.edges is None):
        return False
    return And(arr_same(a.X, b.X), arr_same(a.y, b.y), arr_same(a.edges, b.edges),
               *[arr_same(ma[k], mb[k]) for k in ma])


TEXTS = ["", "a", "a\nb", "\"q\"\\", "\u00e9\u2028\x00"]


@harness("D03", modules=DL, compact=True,
         cfgs=[{"case": c} for c in ("tabular", "tabular_test", "graph", "text", "int8")],
         bounds="up to 3 samples, symbolic features, labels, edges and masks; texts from a list with newlines, "
                "quotes, separators, NUL and empty strings")
def cached_dataset_equals_downloaded(I, cfg, C):
    """What is loaded from the cache is what was downloaded: same arrays, types, splits and masks."""
    svc = _svc()
    t = _m("modssc.data_loader.types")
    case = cfg["case"]
    if case == "text":
        X = np.empty((2,), dtype=object)
        X[:] = [I.choice("t0", TEXTS), I.choice("t1", TEXTS)]
        tr = t.Split(X=X, y=I.arr("y", 2, "i", -1, 3))
        te = t.Split(X=X[:1].copy(), y=I.arr("yt", 1, "i", -1, 3))
    elif case == "graph":
        tr = t.Split(X=I.arr("X", (3, 2), "r", -100, 100), y=I.arr("y", 3, "i", 2**40, BIG),
                     edges=I.arr("e", (2, 2), "i", 0, 2**40),
                     masks={"train": I.arr("m0", 3, "b"), "val": I.arr("m1", 3, "b"), "test": I.arr("m2", 3, "b")})
        te = None
    else:
        dt = {"int8": np.int8}.get(case)
        tr = t.Split(X=I.arr("X", (3, 2), "i" if dt else "r", -100, 100, dtype=dt or np.float32),
                     y=I.arr("y", 3, "i", -1, 3, dtype=np.int32))
        te = t.Split(X=I.arr("Xt", (1, 2), "r", -100, 100), y=I.arr("yt", 1, "i", -1, 3)) if case != "tabular" else None
    meta = {"n": I.int("meta", 0, 9), "name": "x"}
    with scratch() as root, toy_returns(lambda: t.LoadedDataset(train=tr, test=te, meta=dict(meta))):
        a = svc.download_dataset("toy", cache_dir=root)
        b = svc.load_dataset("toy", cache_dir=root, download=False)
        for nm, d in (("downloaded", a), ("cached", b)):
            C.require(f"the {nm} training data is the provider's", split_same(d.train, tr))
            C.require(f"the {nm} test data is the provider's", split_same(d.test, te))
            C.require(f"the {nm} metadata is the provider's", And(eq(d.meta["n"], meta["n"]), d.meta["name"] == "x"))
        C.require("both carry the same fingerprint", a.meta["dataset_fingerprint"] == b.meta["dataset_fingerprint"])
        root2 = Path(root) / "elsewhere"
        c = svc.load_dataset("toy", cache_dir=root2, as_numpy=True)
        C.require("loading as numpy keeps the values", And(split_same(c.train, tr), split_same(c.test, te)))


@harness("D03", modules=DL, compact=True, cfgs=[{"what": w} for w in ("options", "identity")],
         bounds="two requests with symbolic integer and real options / identities differing in any one field")
def different_requests_do_not_share_a_cache_entry(I, cfg, C):
    """Two dataset identities share a fingerprint exactly if nothing that determines the data differs."""
    t = _m("modssc.data_loader.types")
    if cfg["what"] == "options":
        prov = _m("modssc.data_loader.providers.toy").ToyProvider()
        uri = _m("modssc.data_loader.uri")
        o = []
        for k in (0, 1):
            o.append({"n_samples": I.int(f"n{k}", 1, 9), "n_features": I.int(f"d{k}", 1, 9),
                      "n_classes": I.int(f"c{k}", 1, 9), "seed": I.int(f"s{k}", 0, 9),
                      "official_test": I.flag(f"t{k}"), "test_size": I.real(f"ts{k}", 0, 1)})
        ids = [prov.resolve(uri.parse_uri("toy:default"), options=x) for x in o]
        differ = Or(*[ne(o[0][k], o[1][k]) for k in o[0]])
    else:
        base = dict(provider="p", canonical_uri="p:a", dataset_id="a", version="1", modality="m", task="t",
                    resolved_kwargs={"x": I.int("kw0", 0, 3)})
        alt = dict(provider="q", canonical_uri="p:b", dataset_id="b", version=None, modality="n", task="u",
                   resolved_kwargs={"x": I.int("kw", 0, 3)})
        f = I.choice("field", sorted(base) + ["none"])
        other = dict(base)
        if f != "none":
            other[f] = alt[f]
        ids = [t.DatasetIdentity(**base), t.DatasetIdentity(**other)]
        differ = f != "none" if f != "resolved_kwargs" else ne(alt[f]["x"], base[f]["x"])
    a = ids[0].fingerprint(schema_version=1)
    new_process()
    b = ids[1].fingerprint(schema_version=1)
    C.require("different requests have different fingerprints", Implies(differ, a != b))
    C.require("equal requests have equal fingerprints", Implies(Not(differ), a == b))
    C.require("the schema version is part of the fingerprint", ids[0].fingerprint(schema_version=2) != a)


PARTS = ["a", "..", ".", "b", "link", "~"]


@harness("D04", modules=DL + ("modssc.preprocess.cache",),
         cfgs=[{"k": k, "abs": a} for k in (1, 2, 3) for a in (False, True)],
         thorough=[{"k": 4, "abs": False}],
         bounds="relative and absolute paths of up to 3-4 components, including .., ., ~ and a symbolic link")
def stored_paths_stay_inside_their_root(I, cfg, C):
    """A path taken from a stored manifest is refused unless it stays inside the entry it belongs to."""
    io = _m("modssc.utils.io")
    fs = _m("modssc.data_loader.storage.files")
    pc = _m("modssc.preprocess.cache")
    me = _m("modssc.data_loader.errors").ManifestError
    with scratch() as base:
        root = base / "root"
        (root / "a" / "b").mkdir(parents=True)
        (root / "b").mkdir()
        (base / "out").mkdir()
        (base / "root-evil").mkdir()
        (root / "link").symlink_to(base / "out")
        secret = np.arange(3)
        np.save(base / "out" / "s.npy", secret)
        np.save(root / "s.npy", secret)
        parts = [I.choice(f"p{k}", PARTS + (["root-evil"] if k else [])) for k in range(cfg["k"])]
        rel = "/".join(parts)
        if cfg["abs"]:
            rel = I.choice("root", ["/", str(root) + "/", str(base) + "/"]) + rel
        real = os.path.realpath(os.path.join(str(root), rel))
        inside = real == os.path.realpath(root) or real.startswith(os.path.realpath(root) + os.sep)
        try:
            p = io.resolve_relative_path(root, rel, purpose="x")
        except ValueError:
            p = None
        C.require("a path that leaves the root or is absolute is refused", p is None or (inside and not cfg["abs"]))
        C.require("a relative path inside the root is accepted", p is not None or cfg["abs"] or not inside)
        if p is not None:
            C.require("the accepted path is the one named", os.path.realpath(p) == real)
        for nm, load in (("dataset", lambda: fs.FileStorage()._load_array(root, {"format": "npy", "path": rel + "/s.npy"})),
                         ("preprocess", lambda: pc._load_value(root, {"type": "npy", "path": rel + "/s.npy"}))):
            try:
                load()
                got = True
            except (me, pc.PreprocessCacheError):
                got = False
            except (FileNotFoundError, NotADirectoryError):
                got = False
            C.require(f"a {nm} cache entry cannot make the loader read outside its directory",
                      not got or (inside and not cfg["abs"]))


@harness("D04", modules=DL, cfgs=[{"prov": p, "k": k} for p in ("openml", "tfds", "toy") for k in (1, 2, 3)],
         bounds="names and versions of up to 3 path components, including .., ., ~ and absolute paths")
def downloads_stay_inside_the_cache(I, cfg, C):
    """Downloading, storing and purging a dataset of whatever name and version writes only below the cache root."""
    svc = _svc()
    prov = cfg["prov"]
    mod, cls = {"openml": ("openml", "OpenMLProvider"), "tfds": ("tfds", "TFDSProvider"), "toy": ("toy", "ToyProvider")}[prov]
    pc = getattr(_m(f"modssc.data_loader.providers.{mod}"), cls)
    seen = []

    def load(self, identity, *, raw_dir):
        seen.append(os.path.realpath(raw_dir))
        os.makedirs(raw_dir, exist_ok=True)
        Path(raw_dir, "download.bin").write_text("x")
        return _dataset("plain")

    old = pc.__dict__["load_canonical"]
    pc.load_canonical = load
    try:
        with scratch() as base:
            root = base / "1" / "2" / "3" / "4" / "cache"
            root.mkdir(parents=True)
            real = os.path.realpath(root)
            frag = ["a", "..", "."]
            name = "/".join([I.choice(f"n{k}", frag) for k in range(min(cfg["k"], 2))])
            version = "/".join([I.choice(f"v{k}", frag) for k in range(cfg["k"])])
            version = {"no": "", "abs": str(base) + "/"}[I.choice("lead", ["no", "abs"])] + version
            if prov == "tfds":
                name = name.split("/")[0]
                uri = f"tfds:{name}/{version}"
            elif prov == "openml":
                uri = f"openml:name={name},version={version}"
            else:
                uri = f"toy:{name}"
            before = set()
            for d, ds, fs in os.walk(base):
                before |= {os.path.join(d, x) for x in ds + fs}
            try:
                svc.load_dataset(uri, cache_dir=root)
            except (_m("modssc.data_loader.errors").DataLoaderError, ValueError):
                C.require("a refused name downloads nothing", not seen)
            C.require("the directory handed to the provider is below the cache root",
                      all(x.startswith(real + os.sep) for x in seen))
            after = set()
            for d, ds, fs in os.walk(base):
                after |= {os.path.join(d, x) for x in ds + fs}
            C.require("only the cache root is written to",
                      all(os.path.realpath(x).startswith(real + os.sep) for x in after - before))
            C.require("nothing outside is removed", before <= after)
    finally:
        pc.load_canonical = old


# ------------------------------------------------------------------------------- splits

SP = ("modssc.sampling.storage", "modssc.sampling.result", "modssc.sampling.plan", "modssc.sampling.fingerprint",
      "modssc.sampling.services.service", "modssc.utils.io")


def _result(I, tag, graph, n):
    r = _m("modssc.sampling.result")
    ks = ("train", "val", "test", "train_labeled", "train_unlabeled")
    kw = {}
    if graph:
        kw["masks"] = {k: I.arr(f"{tag}{k}", n, "b") for k in ("train", "val", "test", "labeled", "unlabeled")}
    else:
        kw["indices"] = {k: I.arr(f"{tag}{k}", m, "i", 0, 2**62) for k, m in zip(ks, (n, 1, 0, 1, n))}
        kw["refs"] = {k: ("test" if k == "test" else "train") for k in ks}
    return r.SamplingResult(schema_version=I.int(f"{tag}v", 0, 3), created_at=tag, dataset_fingerprint="d" + tag,
                            split_fingerprint="s" + tag, plan={"seed": I.int(f"{tag}p", 0, 9), "x": [1, None]},
                            stats={"n": I.int(f"{tag}st", 0, 9)}, **kw)


def _res_same(a, b):
    cs = [a.created_at == b.created_at, a.dataset_fingerprint == b.dataset_fingerprint,
          a.split_fingerprint == b.split_fingerprint, eq(a.schema_version, b.schema_version),
          eq(a.plan["seed"], b.plan["seed"]), list(a.plan["x"]) == list(b.plan["x"]), eq(a.stats["n"], b.stats["n"]),
          dict(a.refs) == dict(b.refs), sorted(a.indices) == sorted(b.indices), sorted(a.masks) == sorted(b.masks),
          a.is_graph() == b.is_graph()]
    if not (cs[8] is True and cs[9] is True):
        return False
    cs += [arr_same(a.indices[k], b.indices[k]) for k in a.indices]
    cs += [arr_same(a.masks[k], b.masks[k]) for k in a.masks]
    return And(*cs)


@harness("S06", modules=SP, compact=True, cfgs=[{"graph": g} for g in (False, True)],
         bounds="symbolic indices, masks, plan and statistics")
def saved_split_is_loaded_unchanged(I, cfg, C):
    st = _m(SP[0])
    a, b = _result(I, "A", cfg["graph"], 2), _result(I, "B", not cfg["graph"], 3)
    with scratch() as d:
        out = st.save_split(a, d / "s")
        C.require("a split is loaded as it was saved", _res_same(a, st.load_split(out)))
        try:
            st.save_split(b, d / "s")
            refused = False
        except FileExistsError:
            refused = True
        C.require("an existing split is not overwritten unasked", refused)
        C.require("a refused save leaves the old split", _res_same(a, st.load_split(out)))
        st.save_split(b, d / "s", overwrite=True)
        C.require("an overwritten split is the new one", _res_same(b, st.load_split(out)))


@harness("S06", modules=SP, compact=True,
         cfgs=[{"mode": m, "graph": g} for m in ("crash", "fault") for g in (False, True)],
         bounds="one crash or failed call at any file-system mutation of an overwriting save")
def interrupted_save_never_mixes_splits(I, cfg, C):
    st = _m(SP[0])
    at = I.int("at", 0, 30)
    torn = I.choice("torn", ["full", "half", "empty"]) if cfg["mode"] == "crash" else "full"
    a, b = _result(I, "A", cfg["graph"], 2), _result(I, "B", cfg["graph"], 2)
    with scratch() as d:
        st.save_split(a, d / "s")
        sim = FsSim(at, cfg["mode"], torn)
        how, _ = sim.run(lambda: st.save_split(b, d / "s", overwrite=True))
        try:
            got = st.load_split(d / "s")
        except Exception:  # noqa: BLE001 - an unreadable split is reported, not silently wrong
            got = None
        if got is not None:
            C.require("an interrupted save leaves the old split, the new one, or an error",
                      Or(_res_same(a, got), _res_same(b, got)))
        if how == "ok":
            C.require("a completed save is the new split", got is not None and _res_same(b, got))
        st.save_split(b, d / "s", overwrite=True)
        C.require("saving again repairs the split", _res_same(b, st.load_split(d / "s")))
        if how != "crash":
            C.require("no temporary files are left", sorted(p.name for p in (d / "s").iterdir())
                      == sorted({"arrays.npz", "split.json"}) or cfg["mode"] == "fault")


def _plan(I, t):
    p = _m("modssc.sampling.plan")
    return p


@harness("S07", modules=SP, compact=True,
         cfgs=[{"split": s, "mode": m} for s in ("holdout", "kfold") for m in ("fraction", "count", "per_class")],
         bounds="all numeric fields symbolic, all option values")
def plan_round_trip(I, cfg, C):
    """A plan written as a mapping and read back is the same plan."""
    p = _m("modssc.sampling.plan")
    if cfg["split"] == "holdout":
        sp = p.HoldoutSplitSpec(test_fraction=I.real("tf", 0, 1), val_fraction=I.real("vf", 0, 1),
                                stratify=I.flag("st"), shuffle=I.flag("sh"))
    else:
        sp = p.KFoldSplitSpec(k=I.int("k", 2, 9), fold=I.int("f", 0, 8), stratify=I.flag("st"), shuffle=I.flag("sh"),
                              val_fraction=I.real("vf", 0, 1))
    fixed = I.choice("fixed", ["none", "two"])
    lab = p.LabelingSpec(mode=cfg["mode"], value=I.real("v", 0, 1) if cfg["mode"] == "fraction" else I.int("v", 0, 9),
                         per_class=I.flag("pc"), min_per_class=I.int("mpc", 0, 9),
                         strategy=I.choice("strategy", ["proportional", "balanced"]),
                         fixed_indices=None if fixed == "none" else [I.int("i0", 0, 9), I.int("i1", 0, 9)])
    imb = p.ImbalanceSpec(kind=I.choice("kind", ["none", "subsample_max_per_class", "long_tail"]),
                          apply_to=I.choice("apply", ["train", "labeled"]),
                          max_per_class=I.int("max", 0, 9), alpha=I.real("alpha", 0, 9), min_per_class=I.int("mi", 0, 9))
    pol = p.SamplingPolicy(respect_official_test=I.flag("p0"), use_official_graph_masks=I.flag("p1"),
                           allow_override_official=I.flag("p2"))
    plan = p.SamplingPlan(split=sp, labeling=lab, imbalance=imb, policy=pol)
    back = p.SamplingPlan.from_dict(plan.as_dict())
    for nm in ("split", "labeling", "imbalance", "policy"):
        a, b = getattr(plan, nm), getattr(back, nm)
        C.require(f"the {nm} part keeps its kind", type(a) is type(b))
        for k, v in a.__dict__.items():
            w = b.__dict__.get(k)
            same = same_seq(list(v), list(w)) if isinstance(v, (list, tuple)) and w is not None else eq(v, w) \
                if not (v is None or w is None) else v is w
            C.require(f"{nm}.{k} survives", same)


@harness("S07", modules=SP, cfgs=[{}], bounds="one unknown key at any of the five levels, any of the known names misspelt")
def unknown_plan_keys_are_rejected(I, cfg, C):
    p = _m("modssc.sampling.plan")
    level = I.choice("level", ["plan", "split", "labeling", "imbalance", "policy"])
    kind = I.choice("kind", ["holdout", "kfold"])
    d = p.SamplingPlan(split=p.HoldoutSplitSpec() if kind == "holdout" else p.KFoldSplitSpec()).as_dict()
    bad = I.choice("key", ["unknown", "Test_fraction", "labelling", "seed", "k ", "fractions"])
    (d if level == "plan" else d[level])[bad] = 1
    try:
        p.SamplingPlan.from_dict(d)
        ok = False
    except ValueError:
        ok = True
    C.require("an unknown key is rejected", ok)
    d2 = p.SamplingPlan().as_dict()
    what = I.choice("what", [("split", "kind"), ("labeling", "mode"), ("labeling", "strategy"), ("imbalance", "kind"),
                             ("imbalance", "apply_to")])
    d2[what[0]][what[1]] = "bogus"
    try:
        p.SamplingPlan.from_dict(d2)
        ok = False
    except ValueError:
        ok = True
    C.require("an unknown option value is rejected", ok)


@harness("S07", modules=SP, compact=True, cfgs=[{"split": s} for s in ("holdout", "kfold")],
         bounds="pairs of plans and seeds differing in symbolic fields; sha256 assumed injective")
def split_fingerprint_identifies_the_request(I, cfg, C):
    """Two requests get the same fingerprint exactly if plan, seed and data are the same."""
    p = _m("modssc.sampling.plan")
    svc = _m(SP[4])
    t = _m("modssc.data_loader.types")
    vals, fps = [], []
    ds = t.LoadedDataset(train=t.Split(X=np.zeros((4, 1)), y=np.array([0, 1, 0, 1])))
    field = I.choice("field", ["none", "seed", "ds", "s0", "s1", "strat", "lab", "mpc", "imb", "pol", "all"])
    for k in (0, 1):
        def pick(nm, lo, hi, real=False):
            if k and field not in (nm, "all"):
                return vals[0][nm]
            return (I.real if real else I.int)(f"{nm}{k}", lo, hi)

        v = {"seed": pick("seed", 0, 5), "s0": pick("s0", 0, 1, True) if cfg["split"] == "holdout" else pick("s0", 2, 4),
             "s1": pick("s1", 0, 1, True) if cfg["split"] == "holdout" else pick("s1", 0, 1),
             "lab": pick("lab", 1, 2), "mpc": pick("mpc", 0, 1), "imb": pick("imb", 1, 9)}
        v["strat"] = True if not (k and field == "strat") else False
        v["pol"] = True if not (k and field == "pol") else False
        v["ds"] = "d1" if k and field == "ds" else "d0"
        if k and field in ("seed", "all"):
            v["seed"] = vals[0]["seed"] + I.choice("apart", [0, 1, 256, 65536, 2 ** 31, 2 ** 32])
        vals.append(v)
        sp = p.HoldoutSplitSpec(test_fraction=v["s0"], val_fraction=v["s1"], stratify=v["strat"]) \
            if cfg["split"] == "holdout" else p.KFoldSplitSpec(k=v["s0"], fold=v["s1"], stratify=v["strat"])
        plan = p.SamplingPlan(split=sp, labeling=p.LabelingSpec(mode="count", value=v["lab"], min_per_class=v["mpc"]),
                              imbalance=p.ImbalanceSpec(kind="none", max_per_class=v["imb"]),
                              policy=p.SamplingPolicy(respect_official_test=v["pol"]))
        seen = {}

        def spy(*a, **kw):
            seen.update(kw)
            raise _Stop

        old = svc._sample_inductive
        svc._sample_inductive = spy
        try:
            svc.sample(ds, plan=plan, seed=v["seed"], dataset_fingerprint=v["ds"])
        except _Stop:
            pass
        finally:
            svc._sample_inductive = old
        fps.append(seen["split_fingerprint"])
    differ = Or(*[ne(vals[0][k], vals[1][k]) for k in vals[0]])
    C.require("different requests have different split fingerprints", Implies(differ, fps[0] != fps[1]))
    C.require("equal requests have equal split fingerprints", Implies(Not(differ), fps[0] == fps[1]))


class _Stop(Exception):
    pass


# ------------------------------------------------------------------------------- graph cache

GC = ("modssc.graph.cache", "modssc.graph.artifacts", "modssc.graph.fingerprint", "modssc.graph.specs",
      "modssc.graph.construction.services.service", "modssc.graph.construction.builder",
      "modssc.graph.construction.backends.numpy_backend", "modssc.graph.featurization.api",
      "modssc.graph.featurization.views.diffusion", "modssc.graph.featurization.views.attr",
      "modssc.graph.validation", "modssc.graph.construction.api")


def _graph(I, tag, n, E, w):
    art = _m(GC[1])
    return art.GraphArtifact(n_nodes=n, edge_index=I.arr(f"{tag}e", (2, E), "i", 0, n - 1),
                             edge_weight=I.arr(f"{tag}w", E, "r", -2, 2, dtype=np.float32) if w else None,
                             directed=I.flag(f"{tag}d"), meta={"fingerprint": tag, "s": I.int(f"{tag}m", 0, 9)})


def _graph_same(a, b):
    return And(eq(a.n_nodes, b.n_nodes), bool(a.directed) == bool(b.directed), arr_same(a.edge_index, b.edge_index),
               (a.edge_weight is None) == (b.edge_weight is None), arr_same(a.edge_weight, b.edge_weight),
               a.meta.get("fingerprint") == b.meta.get("fingerprint"), eq(a.meta["s"], b.meta["s"]))


@harness("G07", modules=GC, compact=True,
         cfgs=[{"E": e, "E2": e2, "w": w, "w2": w2, "shard": s, "s2": s2}
               for e, e2, s, s2 in ((3, 2, None, None), (4, 3, 2, 2), (3, 3, 2, None), (3, 4, None, 1), (1, 5, 2, 2),
                                    (0, 2, None, 1), (5, 1, 2, 2))
               for w, w2 in ((True, True), (True, False), (False, True))],
         bounds="graphs of up to 5 edges with symbolic edges and weights, stored whole or in shards of 1-2")
def graph_cache_round_trip(I, cfg, C):
    """A cached graph is loaded as it was stored, whatever was stored there before."""
    cache = _m(GC[0])
    a, b = _graph(I, "A", 3, cfg["E"], cfg["w"]), _graph(I, "B", 4, cfg["E2"], cfg["w2"])
    with scratch() as d:
        ca, cb = (cache.GraphCache(root=d, edge_shard_size=s) for s in (cfg["shard"], cfg["s2"]))
        ca.save(fingerprint="f", graph=a, manifest={"x": 1})
        C.require("a stored graph exists", ca.exists("f") and cb.exists("f") and not ca.exists("g"))
        g, man = cb.load("f")
        C.require("a graph is loaded as it was stored", _graph_same(a, g))
        C.require("the manifest is kept", man["x"] == 1)
        cb.save(fingerprint="f", graph=b, manifest={"x": 2})
        g, man = ca.load("f")
        C.require("a replaced graph is the new one", And(_graph_same(b, g), man["x"] == 2))
        C.require("only this entry is listed", ca.list() == ["f"])
        C.require("purge removes it", ca.purge() == 1 and not ca.exists("f"))


@harness("G07", modules=GC, compact=True,
         cfgs=[{"mode": m, "shard": s, "s2": s2, "w2": w} for m in ("crash", "fault")
               for s, s2, w in ((None, None, True), (None, None, False), (2, 2, True), (2, None, True), (None, 2, True))],
         bounds="one crash or failed call at any mutation of an overwriting store of a 3-edge graph")
def interrupted_graph_store(I, cfg, C):
    """An interrupted store leaves the old graph, the new one, or an entry that is reported unusable."""
    cache = _m(GC[0])
    at = I.int("at", 0, 40)
    torn = I.choice("torn", ["full", "half", "empty"]) if cfg["mode"] == "crash" else "full"
    order = I.choice("order", ["manifest.json", "edge_index.npy", "edge_weight.npy", "edges_0000.npz"])
    a, b = _graph(I, "A", 3, 3, True), _graph(I, "B", 3, 3, cfg["w2"])
    with scratch() as d:
        ca, cb = (cache.GraphCache(root=d, edge_shard_size=s) for s in (cfg["shard"], cfg["s2"]))
        ca.save(fingerprint="f", graph=a, manifest={})
        with dir_order(order):
            how, _ = FsSim(at, cfg["mode"], torn).run(lambda: cb.save(fingerprint="f", graph=b, manifest={}))
        try:
            got = ca.load("f")[0] if ca.exists("f") else None
        except Exception:  # noqa: BLE001 - reported, not silently wrong
            got = None
        if got is not None:
            C.require("an interrupted store never yields a mixture", Or(_graph_same(a, got), _graph_same(b, got)))
        if how == "ok":
            C.require("a completed store is the new graph", got is not None and _graph_same(b, got))
        cb.save(fingerprint="f", graph=b, manifest={})
        C.require("storing again repairs the entry", _graph_same(b, cb.load("f")[0]))


@harness("G07", modules=GC, compact=True, nl=True,
         cfgs=[{"mode": m, "prior": p} for m in ("crash", "fault") for p in (False,)],
         bounds="crash or failed call at any mutation while a 4-point graph is built in chunks, then the build is rerun")
def interrupted_build_resumes(I, cfg, C):
    """A rerun after an interrupted build gives the graph an uninterrupted build gives."""
    svc, specs = _m(GC[4]), _m(GC[3])
    at = I.int("at", 0, 40)
    torn = I.choice("torn", ["full", "half", "empty"]) if cfg["mode"] == "crash" else "full"
    X = np.array([[0.0, 0.5], [1.0, 0.0], [3.0, 1.0], [7.0, 0.0]])
    spec = specs.GraphBuilderSpec(scheme=I.choice("scheme", ["knn", "epsilon"]), metric="euclidean", k=2, radius=3.5,
                                  backend="numpy", chunk_size=2)
    with scratch() as d:
        want = svc.build_graph(X, spec=spec, cache=False)
        how, g = FsSim(at, cfg["mode"], torn).run(lambda: svc.build_graph(X, spec=spec, cache_dir=d))
        if how == "ok":
            C.require("a completed build is the uninterrupted one", And(arr_same(want.edge_index, g.edge_index),
                                                                         arr_same(want.edge_weight, g.edge_weight)))
        for nm in ("rerun", "cached"):
            g = svc.build_graph(X, spec=spec, cache_dir=d)
            C.require(f"the {nm} graph is the uninterrupted one", And(arr_same(want.edge_index, g.edge_index),
                                                                       arr_same(want.edge_weight, g.edge_weight)))


BUILD = {"scheme": ["knn", "epsilon"], "metric": ["euclidean", "cosine"], "k": [1, 2], "radius": [1.5, 3.5], "symmetrize": ["none", "or", "mutual"],
         "normalize": ["none", "rw", "sym"], "self_loops": [False, True], "chunk_size": [2, 4], "kind": ["binary", "heat"], "sigma": [0.5, 1.0]}


@harness("G07", modules=GC + ("modssc.graph.fingerprint",), compact=True, nl=True,
         cfgs=[{"what": w} for w in ("X", "dtype", "pre", "seed", *BUILD)],
         bounds="pairs of builds on 4 points that differ in one entry of the features (symbolic), the type of the features, the preprocessing, "
                "the seed of the anchors or one field of the specification, one cache; sha256 assumed injective")
def built_graphs_are_not_confused(I, cfg, C):
    """A graph served with the cache on is the one built without it, whatever was built before."""
    svc, specs, w = _m(GC[4]), _m(GC[3]), cfg["what"]

    def one(k):
        o = dict(scheme="epsilon" if w in ("radius", "kind", "sigma") else "anchor" if w == "seed" else "knn", metric="euclidean", k=2, radius=3.5,
                 symmetrize="none" if w in ("self_loops", "symmetrize") else "or", normalize="none", self_loops=False, chunk_size=2,
                 kind="heat" if w == "sigma" else "binary", sigma=0.5)
        X = np.array([[0.0, 0.5], [1.0, 0.0], [3.0, 1.0], [7.0, 2.0]])
        if w in BUILD:
            o[w] = I.choice(f"{w}{k}", BUILD[w])
        elif w in ("X", "pre") and k:
            rows = [[0.0, 0.5], [3.0, 1.0], [I.real("x", 0, 9), 2.0]]
            X = npshim.NP.array(rows) if I.mode == "symbolic" else np.array(rows)
        elif w == "dtype":
            X = np.array([[0, 1], [1, 0], [3, 1], [7, 2]], dtype=I.choice(f"t{k}", ["int64", "float32", "float64"]))
        wt = specs.GraphWeightsSpec(o.pop("kind"), o.pop("sigma"))
        spec = specs.GraphBuilderSpec(backend="numpy", weights=wt, n_anchors=2, anchors_k=1, **o)
        return dict(X=X, spec=spec, seed=((I.choice("seed1", [1, 65537, 2 ** 32 + 1]) if k else 1) if w == "seed" else 1),
                    **({"dataset_fingerprint": "ds", "preprocess_fingerprint": f"p{k}" if k else None} if w == "pre" else {}))

    a, b = one(0), one(1)
    with scratch() as d:
        svc.build_graph(**a, cache_dir=d)
        want = svc.build_graph(**b, cache=False)
        new_process()
        for nm in ("first", "cached"):
            got = svc.build_graph(**b, cache_dir=d)
            C.require(f"the {nm} graph is the one of this request", And(arr_same(want.edge_index, got.edge_index), arr_same(want.edge_weight, got.edge_weight)))
            C.require("with its own fingerprint", want.meta == got.meta)


@harness("G07", modules=GC + ("modssc.graph.featurization.ops.adjacency",), compact=True, nl=True, patch=_SP,
         cfgs=[{"what": w} for w in ("edges", "weights", "features", "nodes", "same", "many")],
         bounds="pairs of 2-3 node graphs with symbolic edges, weights and features; sha256 assumed injective")
def views_are_not_confused_by_the_cache(I, cfg, C):
    """Views served with the cache on are those computed with the cache off, whatever was cached before."""
    api, art, specs = _m(GC[7]), _m(GC[1]), _m(GC[3])
    w = cfg["what"]

    def ds(k):
        n = 3
        kk = 0 if w == "same" else k
        mk = (lambda nm, sh, kind, lo, hi, **o: I.arr(nm, sh, kind, lo, hi, **o))
        if w == "edges" and k:
            e = mk("e1", (2, 1), "i", 0, n - 1)
        elif w == "many":
            e = np.zeros((2, 1001), dtype=np.int64)
            e[1, -1] = kk
        else:
            e = np.array([[0], [1]]) if w != "edges" else np.array([[1], [2]])
        wt = mk("w1", 1, "r", 0, 2, dtype=np.float32) if w == "weights" and k else (
            np.array([1.0], dtype=np.float32) if w == "weights" else None)
        X = mk("X1", (n, 1), "r", -2, 2) if w == "features" and k else np.array([[1.0], [2.0], [4.0]])
        g = art.GraphArtifact(n_nodes=n, edge_index=e, edge_weight=wt, directed=True, meta={})
        return art.NodeDataset(X=X, y=np.array([0, 1, 0]), graph=g, masks={})

    spec = specs.GraphFeaturizerSpec(views=("attr", "diffusion"), diffusion_steps=1, diffusion_alpha=0.5)
    a, b = ds(0), ds(1)
    with scratch() as d:
        api.graph_to_views(a, spec=spec, cache=True, cache_dir=d)
        got = api.graph_to_views(b, spec=spec, cache=True, cache_dir=d)
        again = api.graph_to_views(b, spec=spec, cache=True, cache_dir=d)
        want = api.graph_to_views(b, spec=spec, cache=False)
        for v in ("attr", "diffusion"):
            C.require(f"the {v} view is the one of this graph", arr_same(want.views[v], got.views[v]))
            C.require(f"the {v} view is the same when cached", arr_same(want.views[v], again.views[v]))
