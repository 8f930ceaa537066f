"""Graph neural networks: seeds and refits, what labels may influence, early stopping, propagation equations."""
from __future__ import annotations

import math
from fractions import Fraction
from types import SimpleNamespace as NS

import numpy as np

from symx import npshim, tshim
from symx.core import Ctx
from symx.harness import Skip, harness
from symx.process import new_process
from symx.ops import And, If, Implies, Not, Or, close, eq, flat, le, lec, lt, nested, same_seq, smaximum, total
from symx.tshim import T, TM, TorchPatch

from .supervised import _eqv, _m, _setter

G = "modssc.transductive.methods.gnn."
N2V = "modssc.graph.featurization.node2vec"
COM = G + "common"
CLS = {"appnp": "APPNP", "chebnet": "ChebNet", "gat": "GAT", "gcn": "GCN", "gcnii": "GCNII", "grafn": "GraFN", "grand": "GRAND",
       "graphhop": "GraphHop", "graphsage": "GraphSAGE", "h_gcn": "HGCN", "n_gcn": "NGCN", "planetoid": "Planetoid", "sgc": "SGC"}
FULL = ("appnp", "chebnet", "gat", "gcn", "gcnii", "graphsage", "h_gcn", "n_gcn", "sgc")   # trained by the common full-batch loop
MODS = tuple(G + n for n in CLS)
VAL = "modssc.transductive.validation"


class _W:
    """One training run: what happened, with the outputs any weights could give.

    A layer's output is free, one array per call, shared between runs; the layer's input, and how often its weights had been
    updated by then, are part of the record.  Two runs with equal records are therefore equal for all weights and updates."""

    cur = None

    def __init__(self, I, free=None, whole=False, exact=None):
        self.I, self.ev, self.free, self.n, self.losses, self.made = I, [], free, 0, 0, 0
        self.whole, self.exact, self.shapes = whole, exact, {}
        _W.cur = self
        if Ctx.cur is not None:
            Ctx.cur.data["log_plain"] = True

    def out(self, tag, shape, lo=-2, hi=2):
        self.n += 1
        shape = tuple(s.__index__() for s in shape)
        if self.free is None:
            return T_(np.full(shape, (lo + hi) / 2.0))
        key = (tag, self.n, shape)
        if key not in self.free:
            self.free[key] = self.I.arr("out_" + "_".join(str(k) for k in (tag, self.n) + tuple(shape)), tuple(shape), "r", -2, 2)
        return T(self.free[key], "float32")

    def cut(self, name, x, shape, *more, lo=-2, hi=2):
        """A function of this input whose values do not matter: they are free."""
        y = self.out(name, shape, lo, hi)
        self.ev.append((name, *more, x, nested(y)))
        return y

    def scalar(self, kind):
        self.losses += 1
        key = (kind, self.losses)
        if self.free is None:
            return 1.0
        if key not in self.free:
            self.free[key] = self.I.int(f"{kind}{self.losses}", 0, 4) if self.whole else self.I.real(f"{kind}{self.losses}", 0, 4)
        return self.free[key]


def T_(v, dtype="float32"):
    return T(npshim.NP.array(v, dtype=np.dtype(dtype)) if Ctx.cur is not None else np.array(v, dtype=dtype), dtype)


class _Loss:
    """A loss whose gradient is not asked for: remembers what it was computed from."""

    def __init__(self, ev):
        self.parts = ev

    def backward(self, *a, **k):
        _W.cur.ev.append(("backward", tuple(self.parts)))

    def _mix(self, o, c=1):
        return _Loss(self.parts + (o.parts if isinstance(o, _Loss) else [("plus", c, o if not hasattr(o, "shape") else flat(o))]))

    def __add__(self, o):
        return self._mix(o)

    __radd__ = __add__

    def __mul__(self, o):
        return _Loss(self.parts + [("times", o)])

    __rmul__ = __mul__

    def __truediv__(self, o):
        return _Loss(self.parts + [("over", o)])


class _Val:
    def __init__(self, v):
        self.v = v

    def item(self):
        return self.v


def _ce(logits, target, **k):
    w = _W.cur
    if tshim.rt().is_grad_enabled():
        w.ev.append(("loss", nested(logits), flat(target)))
        return _Loss(["ce"])
    w.ev.append(("val", nested(logits), flat(target)))
    return _Val(w.scalar("vl"))


_L = {}


def _layers():
    if _L:
        return _L
    t = tshim.rt()
    real = t.nn.Module

    class Layer(real):
        kind = "?"

        def __init__(self, *a, **k):
            super().__init__()
            w = _W.cur
            w.made += 1
            self.uid, self.a = w.made, a
            self.ver = t.nn.Parameter(t.zeros(1), requires_grad=True)
            w.ev.append(("init", self.kind, a, tuple(sorted(k.items())), TM().rand(1)))
            self.build(*a, **k)

        def build(self, *a, **k):
            pass

        def version(self):
            return int(self.ver.detach()[0])

        def note(self, x):
            _W.cur.ev.append((self.kind, self.uid, self.version(), self.training, t.is_grad_enabled(), nested(x)))

    class Linear(Layer):
        kind = "Linear"

        def build(self, i, o, bias=True, **k):
            self.in_features, self.out_features = i, o
            self.weight = TM().zeros((o, i))

            if _W.cur.exact is not None:
                W, b = _W.cur.exact.get(i, o, bias)
                self.weight, self.bias = T_(W), T_(b)

        def forward(self, x):
            if x.shape[-1] != self.in_features:
                raise ValueError("wrong number of input features")
            self.note(x)
            if _W.cur.exact is not None:
                return x @ self.weight.T + self.bias
            return _W.cur.out("lin", (int(x.shape[0]), self.out_features))

    class Embedding(Layer):
        kind = "Embedding"

        def build(self, n, d, **k):
            self.n, self.d = n, d
            self.weight = _W.cur.out("emb", (n, d))

        def forward(self, i):
            self.note(i)
            return self.weight[i]

    class Same(Layer):
        kind = "Same"

        def forward(self, x):
            self.note(x)
            return _W.cur.out("same", tuple(int(s) for s in x.shape))

    class BatchNorm1d(Same):
        kind = "BatchNorm1d"

    class PReLU(Same):
        kind = "PReLU"

    _L.update(Linear=Linear, Embedding=Embedding, BatchNorm1d=BatchNorm1d, PReLU=PReLU, Module=real, ModuleList=t.nn.ModuleList)
    return _L


def _parameter(x, *a, **k):
    _W.cur.ev.append(("param", tuple(int(s) for s in x.shape)))
    return x


def _draw(x, *a, **k):
    if _W.cur.exact is not None:
        return x.copy_(T_(_W.cur.exact.drawn(*(int(s) for s in x.shape))))
    _W.cur.ev.append(("draw", tuple(int(s) for s in x.shape), TM().rand(1)))
    return x.copy_(_W.cur.out("param", tuple(int(s) for s in x.shape)))


def _dropout(x, p=0.5, training=True, inplace=False):
    if not training or p == 0:
        return x
    w = _W.cur
    w.ev.append(("dropout", p, nested(x), TM().rand(1)))
    return w.out("drop", tuple(int(s) for s in x.shape))


def _smooth(name, lo, hi):
    """A function of its input alone whose values do not matter here."""
    def f(x, dim=None, dtype=None):
        w = _W.cur
        return w.cut(name, nested(x), tuple(x.shape), dim, lo=lo, hi=hi)
    return f


def _edges(logits, dst, *, n_nodes, eps=0):
    w = _W.cur
    w.ev.append(("edge softmax", nested(logits), flat(dst), n_nodes))
    if w.exact is not None:
        return T_(_share(*(int(s) for s in logits.shape)))
    return w.out("att", tuple(logits.shape), Fraction(1, 16), 1)


def _share(E, H):
    return [[(1 + 3 * e + 5 * h) % 11 / 16 for h in range(H)] for e in range(E)]


def _soft_neighbours(query, supports, labels, *, tau):
    _W.cur.ev.append(("snn", nested(query), nested(supports), nested(labels), tau))
    return T_([[0.95, 0.05] if i % 2 else [0.25, 0.75] for i in range(int(query.shape[0]))])


def _relu(x, *a, **k):
    """The rectifier: itself, except where only its input matters and its output is free."""
    w = _W.cur
    if w.exact is None or w.free is None:
        return TM().relu(x)
    return w.cut("relu", nested(x), tuple(x.shape))


def _one(name):
    def f(x, *a, **k):
        a += tuple(v for _, v in sorted(k.items()) if v is not False)
        return _W.cur.cut(name, nested(x), tuple(x.shape), a)
    return f


def _cos(a, b, dim=1, eps=0):
    w = _W.cur
    w.ev.append(("cosine", nested(a), nested(b), dim))
    return w.out("cos", (int(a.shape[0]),))


class _Bw:
    """Losses made of tensors are recorded too, not differentiated."""

    def __enter__(self):
        self.old = [(c, c.backward) for c in (tshim.Tensor, tshim.rt().Tensor)]
        for c, _ in self.old:
            c.backward = lambda t, *a, **k: _W.cur.ev.append(("backward", t.detach().clone()))
        return self

    def __exit__(self, *exc):
        for c, o in self.old:
            c.backward = o
        return False


class _Adam:
    def __init__(self, params, **k):
        self.p = list(params)
        _W.cur.ev.append(("optimizer", len(self.p), tuple(sorted(k.items()))))

    def zero_grad(self, *a, **k):
        _W.cur.ev.append(("zero_grad",))

    def step(self):
        for p in self.p:
            p.data += 1
        _W.cur.ev.append(("step",))


class _Space:
    def __init__(self, base, **own):
        self.__dict__.update(own)
        self._base = base

    def __getattr__(self, nm):
        if nm.startswith("__"):
            raise AttributeError(nm)
        return getattr(self._base(), nm)


class _NNS:
    functional = _Space(lambda: TM().nn.functional, relu=_relu, leaky_relu=_one("leaky_relu"), cross_entropy=_ce, dropout=_dropout, elu=_one("elu"), logsigmoid=_one("logsigmoid"),
                        cosine_similarity=_cos, softmax=_smooth("softmax", Fraction(1, 16), 1),
                        log_softmax=_smooth("log_softmax", -4, 0))
    init = NS(xavier_uniform_=_draw, kaiming_uniform_=_draw, normal_=_draw, uniform_=_draw, zeros_=lambda x: x.zero_())
    Parameter = staticmethod(_parameter)

    def __getattr__(self, nm):
        if nm.startswith("__"):
            raise AttributeError(nm)
        return _layers()[nm]


_GT = _Space(TM, relu=_relu, softmax=_smooth("softmax", Fraction(1, 16), 1), nn=_NNS(), optim=NS(Adam=_Adam, AdamW=_Adam, SGD=_Adam))
PRIVATE = {"gat": "_edge_softmax", "grafn": "_snn"}
_GP = _setter({**{(m, "torch"): _GT for m in MODS + (COM,)}, (G + "gat", "_edge_softmax"): _edges, (G + "grafn", "_snn"): _soft_neighbours},
              optional=[(G + m, a) for m, a in PRIVATE.items()])


def reachable(kind):
    """The stand-in of a method's helper has its place (otherwise the harness cannot drive the method)."""
    if kind in PRIVATE and not hasattr(_m(G + kind), PRIVATE[kind]):
        raise Skip()


GCTX = dict(contexts=(TorchPatch, _Bw, _GP), replay_contexts=(_Bw, _GP))
SPEC = {"appnp": dict(hidden_dim=2, k=1), "chebnet": dict(hidden_dim=2, k=1), "gat": dict(head_dim=1, heads=2), "gcn": dict(hidden_dim=2),
        "gcnii": dict(hidden_dim=2, num_layers=1), "grafn": dict(hidden_dims=(2,), drop_edge_strong=0.0, drop_edge_weak=0.0, drop_feat_weak=0.0), "grand": dict(hidden_dim=2, prop_steps=1, num_samples=2),
        "graphhop": dict(hops=1, max_iter=1), "graphsage": dict(hidden_dim=2), "h_gcn": dict(hidden_dim=2, num_layers=3, channels=1,
                                                                                           weight_embed_dim=1),
        "n_gcn": dict(hidden_dim=2, K=2, r=1), "planetoid": dict(embedding_dim=2, num_walks=1, walk_length=2, window_size=1, num_negative=1,
                                                                batch_size=8, sup_batch_size=1),
        "sgc": dict(k=1)}
EDGES = {"path": [(0, 1), (1, 0), (1, 2), (2, 1), (2, 3), (3, 2)], "pairs": [(0, 1), (1, 0), (2, 3), (3, 2)]}


def _method(kind, E, patience=5, **kw):
    m = _m(G + kind)
    kw = {**SPEC[kind], **kw}
    if kind == "planetoid":
        kw["epochs"] = E
    else:
        kw.update(max_epochs=E, patience=patience)
    return getattr(m, CLS[kind] + "Method")(getattr(m, CLS[kind] + "Spec")(**kw))


def _graph(kind):
    return EDGES["pairs" if kind == "planetoid" else "path"]


def _node_data(I, kind, val=True, tag="", free=False):
    n = 4
    e = _graph(kind)
    X = I.arr("X" + tag, (n, 2), "r", -2, 2)
    y = I.arr("y" + tag, (n,), "i", 0, 1) if free else np.array([0, 1, 1, 0])
    if free:
        I.assume(And(eq(flat(y)[0], 0), eq(flat(y)[1], 1)))
    masks = {"train_mask": np.array([True, True, False, False])}
    if val:
        masks["val_mask"] = np.array([False, False, True, False])
    return NS(X=X, y=y, masks=masks, meta={},
              graph=NS(edge_index=np.array(e).T.copy(), edge_weight=np.array([1.0 + 0.5 * (k % 2) for k in range(len(e))])))


def _run(I, kind, free, data, seed, method, before):
    _W(I)                         # anything before this fit is not recorded
    TM().manual_seed(before)
    TM().rand(1)
    w = _W(I, free)
    method.fit(data, seed=seed)
    cut = len(w.ev)
    p = method.predict_proba(data)
    return w.ev[:cut], w.ev[cut:], flat(p)


def _same_run(C, what, a, b):
    ok = [len(a[0]) == len(b[0]) and len(a[1]) == len(b[1])]
    C.require(what, And(ok + [_eqv(x, y) for x, y in zip(a[0], b[0])]))
    C.require("predictions come from the same trained network on the same inputs",
              And([_eqv(x, y) for x, y in zip(a[1], b[1])] + [_eqv(a[2], b[2])]))


@harness("T07", modules=MODS + (COM, VAL, N2V), **GCTX, compact=True,
         cfgs=[{"m": m, "seed": 3, "E": 1, "val": m not in ("graphhop", "planetoid")} for m in CLS],
         thorough=[{"m": m, "seed": s, "E": 2, "val": m not in ("graphhop", "planetoid")} for m in CLS for s in (0, 11)],
         bounds="4 nodes with 2 free features on a fixed weighted graph, free labels outside the training nodes, 1 (2) epochs, free layer "
                "outputs, every earlier state of torch's global generator")
def seed_decides_the_fit(I, cfg, C):
    kind = cfg["m"]
    reachable(kind)
    data = _node_data(I, kind, cfg["val"])
    free, runs = {}, []
    before = [I.int(f"before{i}", 1000, 5000) for i in range(2)]
    I.assume(Not(eq(*before)))
    for b in before:
        new_process()
        runs.append(_run(I, kind, free, data, cfg["seed"], _method(kind, cfg["E"]), b))
    _same_run(C, "the same seed and data give the same initial weights, inputs and updates, whatever ran before", *runs)


def _copied(d):
    return NS(X=d.X.copy(), y=d.y.copy(), meta={}, masks={k: v.copy() for k, v in d.masks.items()},
              graph=NS(edge_index=d.graph.edge_index.copy(), edge_weight=d.graph.edge_weight.copy()))


@harness("T07", modules=MODS + (COM, VAL, N2V), **GCTX, compact=True,
         cfgs=[{"m": m, "how": h, "seed": 2, "E": 1} for m in CLS for h in ("changed", "other")],
         thorough=[{"m": m, "how": h, "seed": 7, "E": 2} for m in CLS for h in ("changed", "other")],
         bounds="one earlier fit on other features, labels, masks and edge weights: in the same objects changed in place since, or in objects "
                "of their own; 4 nodes, free features, 1 (2) epochs, free layer outputs")
def earlier_fits_leave_no_trace(I, cfg, C):
    kind = cfg["m"]
    reachable(kind)
    val = kind not in ("graphhop", "planetoid")
    first, data = _node_data(I, kind, val, "_first"), _node_data(I, kind, val)
    first.y[...] = [1, 0, 0, 1]
    first.masks["train_mask"] = np.array([False, False, True, True])
    if val:
        first.masks["val_mask"] = np.array([False, True, False, False])
    first.graph.edge_weight[...] = 2.0
    fresh, free = _copied(data), {}
    method = _method(kind, cfg["E"])
    _W(I)
    TM().manual_seed(99)
    method.fit(first, seed=5)
    if cfg["how"] == "changed":
        first.X[...] = data.X
        first.y[...] = data.y
        first.graph.edge_weight[...] = data.graph.edge_weight
        first.masks.update(data.masks)
        data = first
    else:
        method.predict_proba(first)
    a = _run(I, kind, free, data, cfg["seed"], method, 7)
    b = _run(I, kind, free, fresh, cfg["seed"], _method(kind, cfg["E"]), 8)
    _same_run(C, "a refit does what a first fit on the data as it now is would do", a, b)


@harness("T07", modules=MODS + (COM, VAL, N2V), **GCTX, compact=True,
         cfgs=[{"m": m, "seed": 2, "E": 2 if m in FULL else 1} for m in CLS],
         thorough=[{"m": m, "seed": 4, "E": 3 if m in FULL else 2} for m in CLS],
         bounds="4 nodes (2 training, 1 validation, 1 hidden) with free labels outside the training nodes, 2 (3) epochs, free layer outputs and "
                "validation losses")
def only_training_labels_train(I, cfg, C):
    kind = cfg["m"]
    reachable(kind)
    val = kind not in ("graphhop", "planetoid")
    data = _node_data(I, kind, val, free=True)
    other = _copied(data)
    y2 = I.arr("y_other", (2,), "i", 0, 1)
    other.y[3] = y2[1]
    if not val:
        other.y[2] = y2[0]
    free = {}
    a = _run(I, kind, free, data, cfg["seed"], _method(kind, cfg["E"]), 7)
    b = _run(I, kind, free, other, cfg["seed"], _method(kind, cfg["E"]), 7)
    _same_run(C, "labels outside the training and validation nodes change nothing", a, b)
    if val and kind != "grafn":
        third = _copied(data)
        third.y[2] = y2[0]
        c = _run(I, kind, free, third, cfg["seed"], _method(kind, cfg["E"]), 7)
        ea, ec = ([e for e in r[0] if e[0] != "val"] for r in (a, c))
        C.require("validation labels only enter the validation loss", And([len(ea) == len(ec)] + [_eqv(x, y) for x, y in zip(ea, ec)]))
        C.require("the validation loss compares the validation nodes with their own labels",
                  And([And(_eqv(e[2], [flat(data.y)[2]]), len(e[1]) == 1) for e in a[0] if e[0] == "val"]))
    ys, asked = flat(data.y), None
    for e in a[0]:
        asked = e[5] if kind == "planetoid" and e[0] == "Embedding" else asked
        if e[0] == "loss":
            own = And([Or([And(eq(i, t), eq(v, ys[t])) for t in (0, 1)]) for i, v in zip(asked, e[2])]) if asked else _eqv(e[2], ys[:2])
            C.require("the training loss compares the training nodes with their own labels", And(own, len(e[1]) == len(e[2])))


# -- T08: early stopping and equations ------------------------------------------------------------------
@harness("T08", modules=MODS + (COM, VAL), **GCTX, compact=True,
         cfgs=[{"m": m, "E": 3, "patience": p} for m in FULL + ("grand",) for p in ((1, 2) if m in ("gcn", "grand") else (2,))]
              + [{"m": m, "E": 2, "patience": 1, "val": False} for m in FULL + ("grand",)]
              + [{"m": m, "E": 7, "patience": 3} for m in ("gcn", "grand")],
         thorough=[{"m": m, "E": E, "patience": p} for m in FULL + ("grand",) for E, p in ((4, 1), (4, 2), (4, 3))],
         bounds="3-4 (two methods: 7) epochs, patience 1 to 3, every order and tie among the validation losses, with and without a validation set")
def training_keeps_the_best_epoch(I, cfg, C):
    kind, E, p = cfg["m"], cfg["E"], cfg["patience"]
    reachable(kind)
    val = cfg.get("val", True)
    data = _node_data(I, kind, val)
    _W(I)
    TM().manual_seed(1)
    m = _method(kind, E, p, lr=0.125, weight_decay=0.25)
    w = _W(I, {}, whole=True)
    m.fit(data, seed=1)
    cut = len(w.ev)
    m.predict_proba(data)
    ev, pr = w.ev[:cut], w.ev[cut:]
    opt = [e for e in ev if e[0] == "optimizer"]
    C.require("one optimiser follows every layer at the documented rate",
              len(opt) == 1 and opt[0][1] == w.made and dict(opt[0][2]) == {"lr": 0.125, "weight_decay": 0.25})
    acts = [e[0] for e in ev if e[0] in ("zero_grad", "backward", "step", "val")]
    per = ["zero_grad", "backward", "step"] + (["val"] if val else [])
    s = acts.count("step")
    C.require("every epoch resets the gradients, back-propagates, takes one step and then validates", acts == per * s)
    pending = []
    for e in ev:
        if len(e) == 6 and e[0] in ("Linear", "Embedding", "Same"):
            pending.append(e[3:5])
        elif e[0] in ("loss", "val"):
            C.require("losses are computed in training mode, validation losses in evaluation mode without gradients",
                      all(x == ((True, True) if e[0] == "loss" else (False, False)) for x in pending) and len(pending) > 0)
            pending = []
    used = [e for e in pr if len(e) == 6 and e[0] in ("Linear", "Embedding", "Same")]
    C.require("predictions are made in evaluation mode without gradients", all(e[3:5] == (False, False) for e in used) and len(used) > 0)
    vs = {e[2] for e in used}
    C.require("predictions use the weights of one epoch", len(vs) == 1)
    b = vs.pop()
    if not val:
        C.require("without a validation set every epoch is run and the last weights are kept", s == E and b == E)
        return
    v = [w.free[("vl", k)] for k in range(1, s + 1)]
    C.require("predictions use the weights with the lowest validation loss, the earliest such",
              And([1 <= b <= s] + [le(v[b - 1], x) for x in v] + [lt(v[b - 1], x) for x in v[:b - 1]]))

    def idle(t):   # epochs since the best one, after t epochs
        return [And([le(v[k], x) for x in v[:t]] + [lt(v[k], x) for x in v[:k]] + [t - 1 - k >= p]) for k in range(t)]

    C.require("training stops once the validation loss has not improved for `patience` epochs, and only then",
              And([Not(Or(idle(t))) for t in range(1, s)] + [Or([s == E] + idle(s))]))


RING = [(0, 1, 1.0), (1, 0, 0.5), (1, 2, 2.0), (0, 1, 0.5), (2, 2, 1.0), (2, 0, 0.25)]


def _mat(n, edges, loops):
    """A[d][s]: weights of the edges from s to d, duplicates added up."""
    A = [[0.0] * n for _ in range(n)]
    for s, d, w in edges:
        A[d][s] += w
    for i in range(n):
        A[i][i] += 1.0 if loops else 0.0
    return A


def _norm(A, mode):
    n = len(A)
    deg = [max(sum(r), 1e-12) for r in A]
    return [[A[i][j] / deg[i] if mode == "rw" else A[i][j] / math.sqrt(deg[i] * deg[j]) for j in range(n)] for i in range(n)]


def _mm(A, B):
    return [[total([a * b for a, b in zip(r, c) if not (isinstance(a, float) and a == 0)]) for c in zip(*B)] for r in A]


def _closer(A, B):
    return And([len(A) == len(B)] + [And([len(r) == len(t)] + [close(x, y, 1e-4) for x, y in zip(r, t)]) for r, t in zip(A, B)])


def _add(A, B, a=1.0, b=1.0):
    return [[a * x + b * y for x, y in zip(r, t)] for r, t in zip(A, B)]


def _wb(i, o, k, bias=True):
    W = [[((5 * r + 3 * c + 7 * k) % 9 - 4) / 4 for c in range(i)] for r in range(o)]
    return W, [((r + k) % 3 - 1) / 2 if bias else 0.0 for r in range(o)]


class _Exact:
    """Layers with fixed weights: the k-th layer of a shape always gets the same ones."""

    def __init__(self):
        self.seen = {}

    def get(self, i, o, bias=True):
        k = self.seen[(i, o)] = self.seen.get((i, o), -1) + 1
        return _wb(i, o, k, bias)

    def drawn(self, o, i):
        k = self.seen[("drawn", i, o)] = self.seen.get(("drawn", i, o), -1) + 1
        return _wb(i, o, k + 1)[0]


class _Net:
    """The same layers, written as plain sums; what a non-linear function made of its input is read off the run."""

    def __init__(self, C, log):
        self.x, self.C, self.log = _Exact(), C, list(log)

    def stage(self, kind, M, *more):
        found = [e for e in self.log if e[0] == kind]
        self.C.require(f"the network applies its {kind} at this point", len(found) > 0)
        got = found[0][-2]
        self.C.require(f"the {kind} is applied with the documented settings", found[0][1:-2] == more)
        self.log.remove(found[0])
        self.C.require("every stage of the network follows the published propagation rule", _closer(got, M))
        return found[0][-1]

    def relu(self, M):
        return self.stage("relu", M)

    def lin(self, i, o, bias=True):
        W, b = self.x.get(i, o, bias)
        return lambda M: [[total([v * w for v, w in zip(r, W[q])]) + b[q] for q in range(o)] for r in M]


def o_gcn(net, X, sp, n):
    A = _norm(_mat(n, RING, True), "sym")
    l1, l2 = net.lin(2, sp.hidden_dim), net.lin(sp.hidden_dim, 2)
    return _mm(A, l2(net.relu(_mm(A, l1(X)))))


def o_sgc(net, X, sp, n):
    A = _norm(_mat(n, RING, True), "sym")
    for _ in range(sp.k):
        X = _mm(A, X)
    return net.lin(2, 2)(X)


def _mlp(net, X, h):
    l1, l2 = net.lin(2, h), net.lin(h, 2)
    return l2(net.relu(l1(X)))


def o_appnp(net, X, sp, n):
    A = _norm(_mat(n, RING, True), "rw")
    h0 = h = _mlp(net, X, sp.hidden_dim)
    for _ in range(sp.k):
        h = _add(_mm(A, h), h0, 1 - sp.alpha, sp.alpha)
    return h


def o_grand(net, X, sp, n):
    A = _norm(_mat(n, RING, True), "rw")
    for _ in range(sp.prop_steps):
        X = _mm(A, X)
    return _mlp(net, X, sp.hidden_dim)


def o_gcnii(net, X, sp, n):
    A = _norm(_mat(n, RING, True), "sym")
    h = sp.hidden_dim
    first = net.lin(2, h)
    mid = [net.lin(h, h) for _ in range(sp.num_layers)]
    last = net.lin(h, 2)
    x = x0 = net.relu(first(X))
    for k, f in enumerate(mid, 1):
        x = _add(_mm(A, x), x0, 1 - sp.alpha, sp.alpha)
        b = math.log(sp.lam / k + 1)
        x = net.relu(_add(x, f(x), 1 - b, b))
    return last(x)


def o_graphsage(net, X, sp, n):
    A = _norm(_mat(n, RING, False), "rw")
    h = sp.hidden_dim
    l1, l2 = net.lin(4, h), net.lin(2 * h, 2)

    def conv(f, M):
        return f([r + t for r, t in zip(M, _mm(A, M))])

    return conv(l2, net.relu(conv(l1, X)))


def o_chebnet(net, X, sp, n):
    A = _norm(_mat(n, RING, True), "sym")
    A = [[-v for v in r] for r in A]
    h = sp.hidden_dim
    f1 = [net.lin(2, h, False) for _ in range(sp.k + 1)]
    f2 = [net.lin(h, 2, False) for _ in range(sp.k + 1)]

    def conv(fs, M):
        T = [M, _mm(A, M)]
        while len(T) < len(fs):
            T.append(_add(_mm(A, T[-1]), T[-2], 2.0, -1.0))
        out = fs[0](T[0])
        for f, t in zip(fs[1:], T[1:]):
            out = _add(out, f(t))
        return out

    return conv(f2, net.relu(conv(f1, X)))


def o_n_gcn(net, X, sp, n):
    A = _mat(n, [e for e in RING if e[0] != e[1]], False)
    A = [[max(A[i][j], A[j][i]) + (1.0 if i == j else 0.0) for j in range(n)] for i in range(n)]
    A = _norm(A, "sym")
    P = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    h, outs = sp.hidden_dim, []
    fs = [(net.lin(2, h), net.lin(h, 2)) for _ in range(sp.K * sp.r)]
    for k in range(sp.K):
        for r in range(sp.r):
            f, g = fs[k * sp.r + r]
            outs.append(g(_mm(P, net.relu(f(_mm(P, X))))))
        P = _mm(A, P)
    cat = [sum((o[i] for o in outs), []) for i in range(n)]
    return net.lin(2 * sp.K * sp.r, 2)(cat)


def o_gat(net, X, sp, n):
    seen = [e for e in net.log if e[0] == "edge softmax"]
    pairs = sorted({(d, s) for s, d, _ in RING} | {(i, i) for i in range(n)})
    orders = [pairs, sorted(pairs, key=lambda p: p[::-1])]

    def conv(X, i, heads, c):
        W, a_s, a_d = net.x.drawn(heads * c, i), net.x.drawn(heads, c), net.x.drawn(heads, c)
        h = [[total([v * w for v, w in zip(r, W[q])]) for q in range(heads * c)] for r in X]
        es, ed = ([[total([r[k * c + j] * a[k][j] for j in range(c)]) for k in range(heads)] for r in h] for a in (a_s, a_d))
        _, got, dst, nodes = seen.pop(0)
        order = [o for o in orders if [d for d, _ in o] == [int(d) for d in dst]]
        net.C.require("every edge, repeated ones once, and a loop at every node get their attention", len(order) > 0 and nodes == n)
        raw = [[es[s][k] + ed[d][k] for k in range(heads)] for d, s in order[0]]
        act = net.stage("leaky_relu", raw, (sp.negative_slope,))
        net.C.require("the scores of the edges are compared among the edges that enter a node", _closer(got, act))
        share = _share(len(pairs), heads)
        out = [[total([share[e][k] * h[s][k * c + j] for e, (d, s) in enumerate(order[0]) if d == i]) for k in range(heads) for j in range(c)]
               for i in range(n)]
        return out

    x = net.stage("elu", conv(X, 2, sp.heads, sp.head_dim), ())
    return conv(x, sp.heads * sp.head_dim, 1, 2)


ORACLE = {"gat": o_gat, "gcn": o_gcn, "sgc": o_sgc, "appnp": o_appnp, "grand": o_grand, "gcnii": o_gcnii, "graphsage": o_graphsage, "chebnet": o_chebnet,
          "n_gcn": o_n_gcn}


@harness("T08", modules=MODS + (COM, VAL), **GCTX, compact=True,
         cfgs=[{"m": m, "spec": s} for m, s in (("gcn", dict(hidden_dim=2)), ("gat", dict(head_dim=2, heads=2, negative_slope=0.25)), ("sgc", dict(k=2)), ("sgc", dict(k=0)), ("appnp", dict(hidden_dim=2, k=2, alpha=0.25)),
                                              ("grand", dict(hidden_dim=2, prop_steps=2)), ("gcnii", dict(hidden_dim=2, num_layers=2, alpha=0.25)),
                                              ("graphsage", dict(hidden_dim=3)), ("chebnet", dict(hidden_dim=2, k=0)),
                                              ("chebnet", dict(hidden_dim=2, k=2)), ("n_gcn", dict(hidden_dim=2, K=2, r=1)),
                                              ("n_gcn", dict(hidden_dim=1, K=3, r=2)))],
         thorough=[{"m": m, "spec": s} for m, s in (("gcn", dict(hidden_dim=4)), ("sgc", dict(k=4)), ("appnp", dict(hidden_dim=3, k=4)),
                                                  ("grand", dict(hidden_dim=3, prop_steps=4)), ("gcnii", dict(hidden_dim=2, num_layers=4)),
                                                  ("chebnet", dict(hidden_dim=2, k=4)))],
         bounds="3 nodes on a directed weighted graph with a repeated edge and a self loop, every pair of features in -2..2 per node, fixed weights")
def networks_compute_their_equations(I, cfg, C):
    kind, n = cfg["m"], 3
    reachable(kind)
    X = I.arr("X", (n, 2), "r", -2, 2)
    data = NS(X=X, y=np.array([0, 1, 0]), meta={}, masks={"train_mask": np.array([True, True, False])},
              graph=NS(edge_index=np.array([(s, d) for s, d, _ in RING]).T.copy(), edge_weight=np.array([w for _, _, w in RING])))
    m = _method(kind, 1, **cfg["spec"])
    w = _W(I, {}, exact=_Exact())
    m.fit(data, seed=1)
    w.ev.clear()
    m.predict_proba(data)
    last = [e for e in w.ev if e[0] == "softmax"]
    C.require("predictions are the row-wise softmax of the network outputs", len(last) == 1 and last[0][1] in (1, -1))
    net = _Net(C, [e for e in w.ev if e[0] != "softmax"])
    want = ORACLE[kind](net, nested(X), m.spec, n)
    got = last[0][-2]
    C.require("there is one output per node and class", len(got) == n and all(len(r) == 2 for r in got))
    for i in range(n):
        for c in range(2):
            C.require("network outputs follow the published propagation rule", close(got[i][c], want[i][c], 1e-4))


@harness("T08", modules=MODS + (COM, VAL), **GCTX, compact=True,
         cfgs=[{"what": "coalesce", "n": 2, "E": 3}, {"what": "coalesce", "n": 3, "E": 2, "loops": True}, {"what": "rw", "n": 3, "E": 3}, {"what": "spmm", "n": 3, "E": 3}],
         thorough=[{"what": "coalesce", "n": 3, "E": 4}, {"what": "rw", "n": 3, "E": 4}, {"what": "spmm", "n": 3, "E": 4}], nl=True,
         bounds="2-3 nodes, every 2-3 (4) edges between them, repeated ones and loops included, every weight in 0..4")
def adjacency_building_blocks(I, cfg, C):
    n, E, what = cfg["n"], cfg["E"], cfg["what"]
    g = _m(COM)
    ei = I.arr("ei", (2, E), "i", 0, n - 1)
    w = I.arr("w", (E,), "r", 0 if what in ("coalesce", "spmm") else Fraction(1, 2), 4)
    src, dst = flat(ei)[:E], flat(ei)[E:]
    ws = flat(w)
    _W(I)
    if what == "coalesce":
        f = g.add_self_loops_coalesce if cfg.get("loops") else g.coalesce_edges
        e2, w2 = f(T(ei, "int64"), T(w, "float32"), n_nodes=n)
        (s2, d2), w2 = nested(e2), flat(w2)
        one = 1 if cfg.get("loops") else 0
        C.require("no pair of nodes is connected twice",
                  And([Not(And(eq(s2[a], s2[b]), eq(d2[a], d2[b]))) for a in range(len(s2)) for b in range(a)]))
        for i in range(n):
            for j in range(n):
                had = total([If(And(eq(a, i), eq(b, j)), v, 0) for a, b, v in zip(src, dst, ws)]) + (one if i == j else 0)
                now = total([If(And(eq(a, i), eq(b, j)), v, 0) for a, b, v in zip(s2, d2, w2)])
                C.require("repeated edges are summed, self loops added once, directions kept", close(had, now, 1e-4))
                C.require("pairs that are not connected stay unconnected",
                          Implies(Or([And(eq(a, i), eq(b, j)) for a, b in zip(s2, d2)]),
                                  Or([And(eq(a, i), eq(b, j)) for a, b in zip(src, dst)] + [one == 1 and i == j])))
    elif what == "rw":
        out = flat(g.normalize_edge_weight(edge_index=T(ei, "int64"), edge_weight=T(w, "float32"), n_nodes=n, mode=what))
        deg = [total([If(eq(b, i), v, 0) for b, v in zip(dst, ws)]) for i in range(n)]
        for k in range(E):
            for i in range(n):
                C.require("a weight is its share of what enters its node", Implies(eq(dst[k], i), close(out[k] * deg[i], ws[k], 1e-3)))
    else:
        X = [[1.0, -2.0], [0.5, 3.0], [-1.5, 0.25]][:n]
        out = nested(g.spmm(T(ei, "int64"), T(w, "float32"), T_(X), n_nodes=n))
        for i in range(n):
            for c in range(2):
                want = total([If(And(eq(b, i), eq(a, j)), v * X[j][c], 0) for a, b, v in zip(src, dst, ws) for j in range(n)])
                C.require("a node receives the weighted sum of the nodes with an edge to it", close(out[i][c], want, 1e-3))


@harness("T08", modules=(G + "gat", COM), contexts=(TorchPatch,), compact=True, nl=True,
         cfgs=[{"n": 2, "E": 2, "heads": 1}, {"n": 2, "E": 3, "heads": 1}, {"n": 2, "E": 2, "heads": 2}],
         thorough=[{"n": 3, "E": 4, "heads": 1}],
         bounds="2-3 nodes, every 2-3 (4) edges between them, every score in -3..3, 1-2 heads")
def attention_is_shared_among_incoming_edges(I, cfg, C):
    reachable("gat")
    n, E, H = cfg["n"], cfg["E"], cfg["heads"]
    lo, dst = I.arr("logits", (E, H), "r", -3, 3), I.arr("dst", (E,), "i", 0, n - 1)
    out = nested(_m(G + "gat")._edge_softmax(T(lo, "float32"), T(dst, "int64"), n_nodes=n))
    lo, dst = nested(lo), flat(dst)
    for k in range(H):
        for i in range(n):
            C.require("the shares of the edges into a node add up to one",
                      Implies(Or([eq(d, i) for d in dst]), close(total([If(eq(d, i), out[e][k], 0) for e, d in enumerate(dst)]), 1, 1e-4)))
        for a in range(E):
            C.require("no share is negative", le(0, out[a][k]))
            for b in range(E):
                if a != b:
                    C.require("of two edges into a node the one with the higher score has the larger share",
                              Implies(And(eq(dst[a], dst[b]), lt(lo[b][k], lo[a][k])), le(out[b][k], out[a][k])))
