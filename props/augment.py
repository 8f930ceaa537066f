"""Data augmentation: determinism, purity, what each operation does, per-sample independence in the runner."""
from __future__ import annotations

import importlib
from types import SimpleNamespace as NS

import numpy as np

from symx.harness import harness
from symx.process import new_process
from symx.ops import And, If, Iff, Implies, Not, Or, close, count, eq, flat, le, lt, member, ne, nested, same_multiset, \
    same_seq
from symx.tshim import T, TorchPatch

D = "modssc.data_augmentation."
API, UTI, TYP = D + "api", D + "utils", D + "types"
TAB, GRA, TXT, COR, VIS, AUD, COM = (D + "ops." + m for m in ("tabular", "graph", "text", "core", "vision", "audio", "common"))
ALL = (API, UTI, TYP, TAB, GRA, TXT, COR, VIS, AUD, COM)
BEN = "bench.orchestrators.augmentation"


def _m(n):
    return importlib.import_module(n)


class Draws:
    """A random generator whose every draw is an input of the check."""

    def __init__(self, I, name="u"):
        self.I, self.name, self.n, self.log, self.spans = I, name, 0, [], []

    def _arr(self, size, kind, lo, hi, tag):
        self.n += 1
        shape = () if size is None else tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
        a = self.I.arr(f"{self.name}{self.n}{tag}", shape or (1,), kind, lo, hi)
        out = a if shape else flat(a)[0]
        self.log.append((tag, out))
        return out

    def random(self, size=None, dtype=None):
        a = self._arr(size, "r", 0, 1, "u")
        for v in (flat(a) if size is not None else [a]):
            self.I.assume(lt(v, 1))
        return a

    uniform = None

    def normal(self, loc=0.0, scale=1.0, size=None):
        a = self._arr(size, "r", -3, 3, "n")
        return a * scale + loc

    def standard_normal(self, size=None, dtype=None):
        return self.normal(size=size)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        self.spans.append(high - low + (1 if endpoint else 0))
        return self._arr(size, "i", low, high - (0 if endpoint else 1), "i")

    def choice(self, a, size=None, replace=True, p=None):
        whole = isinstance(a, (int, np.integer))
        n = int(a) if whole else len(a)
        idx = self._arr(size, "i", 0, n - 1, "c")
        if not replace and size is not None:
            f = flat(idx)
            self.I.assume(And([ne(x, z) for k, x in enumerate(f) for z in f[:k]]))
        return idx if whole else a[idx]


def _box(kind, a):
    return T(a) if kind == "torch" else a


def _op(name, **kw):
    return _m(API).get_op(name, **kw)


def _ctx(**kw):
    return _m(TYP).AugmentationContext(**{"seed": 0, **kw})


def _same_nested(a, b):
    return same_seq(flat(a), flat(b))


def _cut(u, p, hit):
    """Element-wise: `hit` exactly where the draw is in a half-open piece of [0, 1) of length p."""
    return Or(And([Iff(h, lt(x, p)) for x, h in zip(u, hit)]), And([Iff(h, le(1 - p, x)) for x, h in zip(u, hit)]))


# ------------------------------------------------------------------ A01 determinism, purity


def _graph_in(I, kind, b, X, weight=True):
    ei = I.arr("ei", (2, 3), "i", 0, 1)
    w = I.arr("w", (3,), "r", 1, 5)
    d = dict(x=_box(b, X), edge_index=_box(b, ei))
    if weight:
        d["edge_weight"] = _box(b, w)
    if kind == "sample":
        return _m(TYP).GraphSample(**d, meta={"a": 1})
    return {**d, "y": 5} if kind == "dict" else NS(**d, y=5)


OPS = {"core.identity": {}, "core.ensure_float32": {},
       "tabular.gaussian_noise": dict(std=0.5), "tabular.feature_dropout": dict(p=0.25), "tabular.swap_noise": dict(p=0.25),
       "graph.edge_dropout": dict(p=0.25), "graph.feature_mask": dict(p=0.25),
       "text.token_mask": dict(p=0.25), "text.token_swap": dict(n_swaps=1),
       "text.word_dropout": dict(p=0.25), "text.random_swap": dict(n_swaps=1), "text.lowercase": {},
       "vision.random_horizontal_flip": dict(p=0.5), "vision.gaussian_noise": dict(std=0.5),
       "vision.cutout": dict(length=1, n_holes=1), "vision.random_crop_pad": dict(padding=1),
       "audio.add_noise": dict(std=0.5), "audio.time_shift": dict(max_frac=0.5)}


HEAVY = ("vision.random_crop_pad", "text.random_swap", "text.word_dropout", "tabular.swap_noise", "vision.cutout", "graph.edge_dropout")


def _input(I, op, b, tag="x"):
    mod = op.split(".")[0]
    if op in ("text.token_mask", "text.token_swap"):
        return _box(b, I.arr(tag, (3,), "i", 0, 5))
    if mod == "text":
        return ["The Quick Fox", "a"]
    X = I.arr(tag, (2, 2), "r", -5, 5)
    return _graph_in(I, "dict", b, X) if mod == "graph" else _box(b, X)


def _parts(v):
    if isinstance(v, dict):
        return [p for k in sorted(v) for p in _parts(v[k])]
    if isinstance(v, str) or not hasattr(v, "shape") and not isinstance(v, (list, tuple)):
        return [v]
    if isinstance(v, (list, tuple)):
        return [p for x in v for p in _parts(x)]
    return flat(v)


def _equal(a, b):
    x, y = _parts(a), _parts(b)
    return len(x) == len(y) and And([p == q if isinstance(p, str) else eq(p, q) for p, q in zip(x, y)])


@harness("A01", modules=ALL, compact=True, contexts=(TorchPatch,),
         cfgs=[{"op": o, "box": b} for o in sorted(OPS) for b in (("numpy",) if o in (
             "text.word_dropout", "text.random_swap", "text.lowercase") else ("numpy", "torch"))],
         bounds="inputs of 3-4 elements, every value, every seed, epoch and sample id; anything drawn in between")
def augmenting_twice_gives_the_same(I, cfg, C):
    """The same sample in the same context is augmented the same way again, whatever happened before; inputs stay as they are."""
    types = _m(D + "plan")
    step = types.StepConfig(cfg["op"], OPS[cfg["op"]])
    pipe = _m(API).build_pipeline(types.AugmentationPlan(steps=(step,) if cfg["op"] in HEAVY else (step, step)))
    ctx = _ctx(**dict(zip(("seed", "sample_id", "epoch"), I.choice("ctx", [(0, 0, 0), (3, 11, 2)]))))
    x = _input(I, cfg["op"], cfg["box"])
    before = [v for v in _parts(x)]
    a = _parts(pipe.apply(x, ctx=ctx))
    if I.flag("between"):
        pipe.apply(_input(I, cfg["op"], cfg["box"], "other") if not cfg["op"].startswith("graph") else x,
                   ctx=_ctx(seed=9, sample_id=7))
    C.require("the input is left as it is", _equal(before, x))
    new_process()
    b = _parts(pipe.apply(x, ctx=ctx))
    C.require("the same again", _equal(a, b))
    C.require("and still is", _equal(before, x))


@harness("A01", modules=(API, UTI), compact=True, cfgs=[{}],
         bounds="pairs of contexts with seed, epoch and sample id in -1..12")
def contexts_have_streams_of_their_own(I, cfg, C):
    """Two contexts share their random numbers only if seed, epoch and sample id all agree."""
    f = _m(UTI).seed_to_rng_seed
    a, b = [{k: I.pick_int(f"{k}{j}", lo, hi) for k, lo, hi in (("seed", 0, 2), ("epoch", 0, 2), ("sample_id", 0, 2))}
            for j in range(2)]
    sc = [1, 1, 1, 11][I.pick_int("scale", 0, 3)]
    a, b = [{k: v * (sc if k != "seed" else 1) for k, v in d.items()} for d in (a, b)]
    s, t = f(**a), f(**b)
    C.require("the stream belongs to the context", (s == t) == (a == b))
    C.require("the seed is acceptable to the generator", 0 <= s < 2 ** 32)


@harness("A01", modules=(API, UTI), compact=True, cfgs=[{"n": 3}], bounds="plans of 3 steps of every modality")
def pipelines_apply_every_step_in_order(I, cfg, C):
    """A pipeline applies its steps in order with one generator of the sample's context, and rejects foreign modalities."""
    plan, reg, err = _m(D + "plan"), _m(D + "registry"), _m(D + "errors")
    log = []

    def make(name, mod):
        class Op:
            op_id, modality = name, mod

            def __init__(self, k=0):
                self.k = k

            def __call__(self, x, *, rng, ctx):
                log.append((name, self.k, rng, ctx))
                return x * 10 + self.k

        return Op

    mods = [I.choice(f"m{j}", ["any", "text", "vision"]) for j in range(cfg["n"])]
    want = I.choice("plan", [None, "text"])
    saved = dict(reg._RUNTIME_OPS)
    try:
        for j, m in enumerate(mods):
            reg._RUNTIME_OPS[f"t{j}"] = make(f"t{j}", m)
        steps = tuple(plan.StepConfig(f"t{j}", {"k": j + 1}) for j in range(cfg["n"]))
        ok = want is None or all(m in ("any", want) for m in mods)
        try:
            pipe = _m(API).build_pipeline(plan.AugmentationPlan(steps=steps, modality=want))
        except err.DataAugmentationValidationError:
            C.require("only foreign modalities are rejected", not ok)
            return
        C.require("foreign modalities are rejected", ok)
        x = I.int("x", 0, 9)
        ctx = _ctx(seed=3)
        out = pipe.apply(x, ctx=ctx)
    finally:
        reg._RUNTIME_OPS.clear()
        reg._RUNTIME_OPS.update(saved)
    e = x
    for j in range(cfg["n"]):
        e = e * 10 + j + 1
    C.require("every step in order with its parameters", And(eq(out, e), [(c[0], c[1]) for c in log] == [
        (f"t{j}", j + 1) for j in range(cfg["n"])]))
    C.require("one generator, one context", all(c[2] is log[0][2] and c[3] is ctx for c in log))


# ------------------------------------------------------------------ A02 what the operations do


@harness("A02", modules=(TAB, COM, UTI), compact=True, contexts=(TorchPatch,),
         cfgs=[{"op": o, "box": b, "shape": s} for o in ("gaussian_noise", "feature_dropout", "swap_noise") for b in ("numpy", "torch")
               for s in ((3,), (2, 2))],
         bounds="3-4 features, every value, every p of 0, 1/4, 1/2, 1, every draw")
def tabular_operations(I, cfg, C):
    """Dropout zeroes, swap replaces, noise adds: each element on its own, never more than asked."""
    X = I.arr("X", cfg["shape"], "r", -5, 5)
    before = flat(X)
    p = I.choice("p", [0.0, 0.25, 0.5, 1.0])
    rng = Draws(I)
    op = _op("tabular." + cfg["op"], **({"std": p} if cfg["op"] == "gaussian_noise" else {"p": p}))
    out = op(_box(cfg["box"], X), rng=rng, ctx=_ctx())
    got = flat(out)
    C.require("the shape stays", tuple(out.shape) == tuple(cfg["shape"]) and len(got) == len(before))
    C.require("the input stays", _same_nested(X, before))
    if p == 0.0:
        C.require("nothing asked, nothing done", same_seq(got, before))
        return
    if cfg["op"] == "gaussian_noise":
        if cfg["box"] == "numpy":
            n = [v for t, a in rng.log if t == "n" for v in flat(a)]
            C.require("the noise is added with its scale", And([close(g, x + p * v) for g, x, v in zip(got, before, n)]))
        return
    if cfg["op"] == "feature_dropout":
        C.require("kept or zero", And([Or(eq(g, x), eq(g, 0)) for g, x in zip(got, before)]))
        u = [v for t, a in rng.log if t == "u" for v in flat(a)]
        C.require("dropped with the asked probability", Or(
            And([eq(g, If(lt(d, p), 0, x)) for g, x, d in zip(got, before, u)]),
            And([eq(g, If(le(1 - p, d), 0, x)) for g, x, d in zip(got, before, u)])))
        return
    if cfg["box"] == "numpy":
        u = [v for t, a in rng.log if t == "u" for v in flat(a)]
        n = [v for t, a in rng.log if t == "n" for v in flat(a)]
        C.require("each feature is kept or replaced", Or(
            And([eq(g, If(lt(d, p), z, x)) for g, x, d, z in zip(got, before, u, n)]),
            And([eq(g, If(le(1 - p, d), z, x)) for g, x, d, z in zip(got, before, u, n)])))


@harness("A02", modules=(GRA, UTI), compact=True, contexts=(TorchPatch,),
         cfgs=[{"kind": k, "box": b, "w": w, "e": e} for k in ("sample", "dict", "attr") for b in ("numpy", "torch") for w in (True, False)
               for e in (3, "E2")],
         bounds="graphs of 3 nodes and 3 edges, every edge, weight and draw")
def edge_dropout_keeps_whole_edges(I, cfg, C):
    """Dropping edges keeps a subset of the edges in order, each with its weight, and touches nothing else."""
    X = I.arr("X", (3, 1), "r", -5, 5)
    ei = I.arr("ei", (2, 3), "i", 0, 2)
    w = I.arr("w", (3,), "r", 1, 5)
    p = I.choice("p", [0.0, 0.25, 1.0])
    b = cfg["box"]
    given = ei if cfg["e"] == 3 else I.arr("ei2", (3, 2), "i", 0, 2)
    ref = nested(given) if cfg["e"] == 3 else [list(c) for c in zip(*nested(given))]
    d = dict(x=_box(b, X), edge_index=_box(b, given), **({"edge_weight": _box(b, w)} if cfg["w"] else {}))
    g = _m(TYP).GraphSample(**d, meta={"a": 1}) if cfg["kind"] == "sample" else {**d, "y": 5} if cfg["kind"] == "dict" else NS(**d, y=5)
    get = (lambda o, k: o.get(k) if isinstance(o, dict) else getattr(o, k, None))
    rng = Draws(I)
    out = _op("graph.edge_dropout", p=p)(g, rng=rng, ctx=_ctx())
    C.require("the input graph stays", And(same_seq(flat(get(g, "edge_index")), flat(given)),
                                          same_seq(flat(get(g, "edge_weight")), flat(w)) if cfg["w"] else True))
    C.require("nodes and everything else stay", And(same_seq(flat(get(out, "x")), flat(X)),
                                                    out.meta == {"a": 1} if cfg["kind"] == "sample" else get(out, "y") == 5))
    if p == 0.0:
        C.require("nothing asked, nothing done", out is g)
        return
    u = [v for t, a in rng.log if t == "u" for v in flat(a)]
    o = nested(get(out, "edge_index"))
    ow = get(out, "edge_weight")
    k = len(o[0])
    C.require("weights belong to weighted graphs", (ow is not None) == cfg["w"] and len(o) == 2 and len(o[1]) == k)
    if cfg["w"]:
        C.require("one weight per edge", len(flat(ow)) == k)
    n = len(ref[0])

    def kept(keep):
        """Output equals the edges listed in `keep`."""
        ok = len(keep) == k and And([And(eq(o[0][j], ref[0][e]), eq(o[1][j], ref[1][e])) for j, e in enumerate(keep)])
        return And(ok, And([close(flat(ow)[j], flat(w)[e]) for j, e in enumerate(keep)]) if cfg["w"] else True) if ok is not False else False

    subs = [[e for e in range(n) if m >> e & 1] for m in range(2 ** n)]
    C.require("exactly the edges that are not dropped, in order", Or([And(kept(s), Or(
        And([Iff(e in s, le(p, u[e])) for e in range(n)]), And([Iff(e in s, lt(u[e], 1 - p)) for e in range(n)])))
        for s in subs if len(s) == k]))


@harness("A02", modules=(GRA, UTI), compact=True, contexts=(TorchPatch,),
         cfgs=[{"kind": k, "box": b} for k in ("sample", "dict", "attr") for b in ("numpy", "torch")],
         bounds="graphs of 2 nodes with 2 features, every value and draw")
def feature_mask_masks_features(I, cfg, C):
    """Masking zeroes features and leaves the graph as it is."""
    X = I.arr("X", (2, 2), "r", -5, 5)
    before = flat(X)
    g = _graph_in(I, cfg["kind"], cfg["box"], X)
    get = (lambda o, k: o.get(k) if isinstance(o, dict) else getattr(o, k, None))
    p = I.choice("p", [0.0, 0.25, 1.0])
    rng = Draws(I)
    out = _op("graph.feature_mask", p=p)(g, rng=rng, ctx=_ctx())
    C.require("edges stay", And(same_seq(flat(get(out, "edge_index")), flat(get(g, "edge_index"))),
                                same_seq(flat(get(out, "edge_weight")), flat(get(g, "edge_weight")))))
    C.require("the input stays", same_seq(flat(get(g, "x")), before))
    got = flat(get(out, "x"))
    u = [v for t, a in rng.log if t == "u" for v in flat(a)] or [1.0] * 4
    C.require("each feature is kept or zero", And(len(got) == 4, Or(
        And([eq(g_, If(lt(d, p), 0, x)) for g_, x, d in zip(got, before, u)]),
        And([eq(g_, If(le(1 - p, d), 0, x)) for g_, x, d in zip(got, before, u)]))))


@harness("A02", modules=(TXT, UTI), compact=True, contexts=(TorchPatch,),
         cfgs=[{"op": o, "box": b, "shape": s} for o in ("token_mask", "token_swap") for b in ("numpy", "torch")
               for s in ((4,), (2, 3))],
         bounds="4-6 tokens, every token and draw")
def token_operations_leave_padding_alone(I, cfg, C):
    """Masking replaces tokens by the mask token, swapping permutes each row's tokens; padding stays where it is."""
    X = I.arr("X", cfg["shape"], "i", 0, 5)
    before = nested(X)
    pad = I.choice("pad", [0, 3])
    rng = Draws(I)
    if cfg["op"] == "token_mask":
        p = I.choice("p", [0.0, 0.5, 1.0])
        out = _op("text.token_mask", p=p, mask_token_id=7, pad_token_id=pad)(_box(cfg["box"], X), rng=rng, ctx=_ctx())
        u = [v for t, a in rng.log if t == "u" for v in flat(a)] or [1.0] * len(flat(X))
        C.require("a token is kept or masked, padding is kept", Or(
            And([eq(g, If(And(lt(d, p), ne(x, pad)), 7, x)) for g, x, d in zip(flat(out), flat(X), u)]),
            And([eq(g, If(And(le(1 - p, d), ne(x, pad)), 7, x)) for g, x, d in zip(flat(out), flat(X), u)])))
    else:
        n = I.choice("n", [0, 1, 2])
        out = _op("text.token_swap", n_swaps=n, pad_token_id=pad)(_box(cfg["box"], X), rng=rng, ctx=_ctx())
        rows = [before] if len(cfg["shape"]) == 1 else before
        got = [nested(out)] if len(cfg["shape"]) == 1 else nested(out)
        for r, g in zip(rows, got):
            C.require("padding stays", And([Iff(eq(a, pad), eq(c, pad)) for a, c in zip(r, g)]))
            C.require("no token is lost", same_multiset(g, r))
            moved = count([ne(a, c) for a, c in zip(r, g)])
            C.require("at most two tokens move per swap", le(moved, 2 * n))
        if n == 1:
            C.require("a swap is done where possible", And([Implies(And(le(2, count([ne(v, pad) for v in r])), And(
                [Implies(And(ne(a, pad), ne(z, pad)), ne(a, z)) for k, a in enumerate(r) for z in r[:k]])),
                Or([ne(a, c) for a, c in zip(r, g)])) for r, g in zip(rows, got)]))
    C.require("the shape stays", tuple(out.shape) == tuple(cfg["shape"]))
    C.require("the input stays", _same_nested(X, before if len(cfg["shape"]) == 1 else [v for r in before for v in r]))


@harness("A02", modules=(TXT, UTI), compact=True, cfgs=[{"op": o} for o in ("lowercase", "word_dropout", "random_swap")],
         bounds="sentences of up to 3 words, alone or two at a time, every draw")
def word_operations(I, cfg, C):
    """Words are dropped or swapped as wholes; a sentence never becomes empty."""
    texts = {"one": "Hello", "three": " A bb  Ccc ", "none": "", "blank": "  "}
    many = I.flag("many")
    t = I.choice("t", sorted(texts))
    src = [texts[t], "x Y"] if many else texts[t]
    p = I.choice("p", [0.0, 0.5, 1.0])
    rng = Draws(I)
    kw = {"lowercase": {}, "word_dropout": {"p": p}, "random_swap": {"n_swaps": int(p * 2)}}[cfg["op"]]
    out = _op("text." + cfg["op"], **kw)(src, rng=rng, ctx=_ctx())
    C.require("one text in, one text out", isinstance(out, list) == bool(many))
    for a, b in zip(src if many else [src], out if many else [out]):
        if cfg["op"] == "lowercase":
            C.require("lower case", b == a.lower())
            continue
        x, y = a.split(), b.split()
        if not x:
            C.require("nothing to do", a == b)
        elif cfg["op"] == "word_dropout":
            it = iter(x)
            C.require("words are dropped as wholes", all(w in it for w in y) and len(y) >= 1)
            C.require("as often as asked", (y == x) if p == 0.0 else (len(y) == 1 if p == 1.0 else True))
        else:
            C.require("words are moved", sorted(x) == sorted(y) and sum(v != w for v, w in zip(x, y)) <= 2 * kw["n_swaps"])
    if cfg["op"] == "word_dropout" and not many and len(src.split()) > 1 and p == 0.5:
        u = [v for tg, v in rng.log if tg == "u"]
        k = len(out.split())
        C.require("dropped with the asked probability", Or(
            eq(k, If(eq(count([le(p, v) for v in u]), 0), 1, count([le(p, v) for v in u]))),
            eq(k, If(eq(count([lt(v, 1 - p) for v in u]), 0), 1, count([lt(v, 1 - p) for v in u])))))


def _pix(a, layout, i, j, c):
    n = nested(a)
    return n[i][j] if layout == "hw" else n[i][j][c] if layout == "hwc" else n[c][i][j]


def _dims(layout, shape):
    return (shape[0], shape[1], 1) if layout == "hw" else shape if layout == "hwc" else (shape[1], shape[2], shape[0])


@harness("A02", modules=(VIS, UTI), compact=True, contexts=(TorchPatch,),
         cfgs=[{"op": o, "box": b, "layout": l} for o in ("flip", "crop") for b in ("numpy", "torch") for l in ("hw", "hwc", "chw")]
         + [{"op": "cutout", "box": b, "layout": l, "how": h} for b in ("numpy", "torch") for l in ("hw", "hwc", "chw")
            for h in ("len1", "len2", "frac", "big", "none")]
         + [{"op": "cutout", "box": b, "layout": "hw", "how": "two"} for b in ("numpy", "torch")],
         bounds="images of up to 30 values in each layout, every pixel and draw")
def vision_operations(I, cfg, C):
    """Flips mirror the width, cut-outs fill one square, crops shift by at most the padding with mirrored borders."""
    lay = cfg["layout"]
    shape = {"hw": (3, 4), "hwc": (5, 3, 2), "chw": (3, 3, 5)}[lay]
    X = I.arr("X", shape, "r", 1, 9)
    before = flat(X)
    H, W, Cn = _dims(lay, shape)
    px = [(i, j, c) for i in range(H) for j in range(W) for c in range(Cn)]
    rng = Draws(I)
    if cfg["op"] == "flip":
        p = I.choice("p", [0.0, 0.5, 1.0])
        out = _op("vision.random_horizontal_flip", p=p)(_box(cfg["box"], X), rng=rng, ctx=_ctx())
        plain = And([eq(_pix(out, lay, i, j, c), _pix(X, lay, i, j, c)) for i, j, c in px])
        mirror = And([eq(_pix(out, lay, i, j, c), _pix(X, lay, i, W - 1 - j, c)) for i, j, c in px])
        u = rng.log[0][1] if rng.log else None
        C.require("the image or its mirror image", plain if p == 0.0 else mirror if p == 1.0 else Or(plain, mirror))
        if p == 0.5 and u is not None:
            C.require("mirrored with the asked probability", Or(
                And(Implies(lt(u, p), mirror), Implies(le(p, u), plain)), And(Implies(le(p, u), mirror), Implies(lt(u, p), plain))))
    elif cfg["op"] == "cutout":
        how = cfg["how"]
        kw = {"len1": {"length": 1}, "len2": {"length": 2}, "frac": {"frac": 0.7}, "two": {"length": 1, "n_holes": 2},
              "big": {"length": 9}, "none": {"frac": 0.0}}[how]
        out = _op("vision.cutout", fill=0.5, **kw)(_box(cfg["box"], X), rng=rng, ctx=_ctx())
        L = {"len1": 1, "len2": 2, "frac": max(1, int(round(0.7 * min(H, W)))), "two": 1, "big": 9, "none": 0}[how]
        tops, lefts = range(max(1, H - L + 1)), range(max(1, W - L + 1))

        def is_cut(boxes):
            return And([eq(_pix(out, lay, i, j, c), 0.5 if any(t <= i < t + L and s <= j < s + L for t, s in boxes)
                           else _pix(X, lay, i, j, c)) for i, j, c in px])

        one = [[(t, s)] for t in tops for s in lefts]
        opts = [[]] if how == "none" else one if how != "two" else [a + b for a in one for b in one]
        C.require("exactly the asked squares are filled", Or([is_cut(o) for o in opts]))
        if how != "two" and len(rng.spans) == 2:
            C.require("every square can be hit", sorted(rng.spans) == sorted([len(tops), len(lefts)]))
    else:
        pad = I.choice("pad", [0, 1])
        out = _op("vision.random_crop_pad", pad=pad)(_box(cfg["box"], X), rng=rng, ctx=_ctx())

        def mir(k, n):
            return -k if k < 0 else 2 * (n - 1) - k if k >= n else k

        opts = [(a, b) for a in range(-pad, pad + 1) for b in range(-pad, pad + 1)]
        C.require("the image shifted, borders mirrored", Or([And(
            [eq(_pix(out, lay, i, j, c), _pix(X, lay, mir(i + a, H), mir(j + b, W), c)) for i, j, c in px]) for a, b in opts]))
        ints = [v for t, v in rng.log if t == "i"]
        if pad and len(ints) == 2:
            C.require("every shift can be drawn", list(rng.spans) == [2 * pad + 1] * 2)
            C.require("every shift can happen", And([Implies(And(eq(ints[0], a + pad), eq(ints[1], b + pad)), And(
                [eq(_pix(out, lay, i, j, c), _pix(X, lay, mir(i + a, H), mir(j + b, W), c)) for i, j, c in px])) for a, b in opts]))
    C.require("the shape stays", tuple(out.shape) == tuple(shape))
    C.require("the input stays", _same_nested(X, before))


@harness("A02", modules=(AUD, COM, UTI), compact=True, contexts=(TorchPatch,),
         cfgs=[{"box": b, "shape": s, "frac": f} for b in ("numpy", "torch") for s in ((4,), (2, 3)) for f in (0.0, 0.5, 1.0)],
         bounds="waveforms of 4-6 samples, every value and shift")
def time_shift_is_circular(I, cfg, C):
    """Shifting moves every channel round by the same bounded number of samples."""
    X = I.arr("X", cfg["shape"], "r", -5, 5)
    before = flat(X)
    rng = Draws(I)
    out = _op("audio.time_shift", max_frac=cfg["frac"])(_box(cfg["box"], X), rng=rng, ctx=_ctx())
    n = cfg["shape"][-1]
    rows, got = ([nested(X)], [nested(out)]) if len(cfg["shape"]) == 1 else (nested(X), nested(out))
    m = int(round(cfg["frac"] * n))
    by = (lambda k: And([eq(g[j], r[(j - k) % n]) for r, g in zip(rows, got) for j in range(n)]))
    C.require("a circular shift within the bound", Or([by(k) for k in range(-m, m + 1)]))
    C.require("the shape stays", tuple(out.shape) == tuple(cfg["shape"]))
    C.require("the input stays", _same_nested(X, before))


@harness("A02", modules=(VIS, AUD, COM, UTI, COR), compact=True, contexts=(TorchPatch,),
         cfgs=[{"op": o} for o in ("vision.gaussian_noise", "audio.add_noise", "core.ensure_float32", "core.identity")],
         bounds="4 values, every draw")
def noise_is_added(I, cfg, C):
    """Noise of the asked scale is added to every element; casts and identity keep the values."""
    X = I.arr("X", (2, 2), "r", -5, 5)
    before = flat(X)
    rng = Draws(I)
    std = I.choice("std", [0.0, 0.5])
    if cfg["op"].startswith("core"):
        out = _op(cfg["op"])(X, rng=rng, ctx=_ctx())
        C.require("values stay", And([close(a, b) for a, b in zip(flat(out), before)]))
        C.require("the type is as asked", out.dtype == (np.float32 if "float" in cfg["op"] else np.float64))
    else:
        out = _op(cfg["op"], std=std)(X, rng=rng, ctx=_ctx())
        n = [v for t, a in rng.log for v in flat(a)] or [0] * 4
        C.require("the noise is added with its scale", And([close(g, x + std * v) for g, x, v in zip(flat(out), before, n)]))
    C.require("the input stays", _same_nested(X, before))


# ------------------------------------------------------------------ A03 augmentation in the runner


@harness("A03", modules=ALL + (BEN,), compact=True, contexts=(TorchPatch,),
         cfgs=[{"box": b, "sv": s, "op": o} for b in ("numpy", "torch") for s in (1, 2) for o in ("tabular.feature_dropout", "tabular.gaussian_noise",
                                                                                  "tabular.swap_noise")],
         bounds="3 unlabelled samples with 2 features, every choice and order of samples, every draw")
def samples_are_augmented_on_their_own(I, cfg, C):
    """What a sample is augmented to depends on the sample, its number and the seed, not on which others are there."""
    run = _m(BEN).run
    X = I.arr("X", (3, 1 if "swap" in cfg["op"] else 2), "r", -5, 5)
    before = flat(X)
    kw = OPS[cfg["op"]]
    weak = {"steps": [{"id": "core.identity"}]}
    strong = {"steps": [{"id": cfg["op"], "params": kw}]}
    args = dict(weak_plan=weak, strong_plan=strong, seed=4, mode="fixed", modality="tabular", strong_views=cfg["sv"])
    ids = np.array([11, 5, 8])
    full = run(_box(cfg["box"], X), sample_ids=ids, **args)
    sub = I.choice("sub", [[0], [2], [1, 0], [2, 1], [2, 1, 0]])
    part = run(_box(cfg["box"], X[np.array(sub)]), sample_ids=ids[sub], **args)
    C.require("one output per view", (full[2] is None) == (cfg["sv"] == 1) and (part[2] is None) == (cfg["sv"] == 1))
    C.require("the weak view is the weak plan's", same_seq(flat(full[0]), before))
    for f, p in zip(full, part):
        if f is None:
            continue
        fr, pr = nested(f), nested(p)
        C.require("one row per sample", len(fr) == 3 and len(pr) == len(sub))
        C.require("samples are augmented independently", And([same_seq(pr[j], fr[k]) for j, k in enumerate(sub)]))
    pipe = _m(API).build_pipeline(_m(BEN)._plan_from_dict(strong, modality="tabular"))
    for j in range(3):
        for v in range(cfg["sv"]):
            want = pipe.apply(_box(cfg["box"], X)[j], ctx=_ctx(seed=4 + v, sample_id=int(ids[j]), modality="tabular"))
            C.require("a sample's strong view is the strong plan's in its context",
                      same_seq(nested(full[1 + v])[j], flat(want)))
    C.require("the samples stay", _same_nested(X, before))
