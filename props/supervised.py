"""Supervised baselines: nearest neighbours, label space, reproducible training, classifier creation."""
from __future__ import annotations

import importlib
from fractions import Fraction
from types import SimpleNamespace as NS

import numpy as np

from symx.harness import harness
from symx.ops import And, If, Iff, Implies, Not, Or, close, count, distinct, eq, flat, le, lec, lt, member, ne, nested, \
    same_multiset, same_seq, total
from symx.tshim import T, TM, TorchPatch

S = "modssc.supervised."
API, REG, BASE, UTIL, OPT = S + "api", S + "registry", S + "base", S + "utils", S + "optional"
NP_KNN, T_KNN, T_COM, SK_COM = S + "backends.numpy.knn", S + "backends.torch.knn", S + "backends.torch.common", S + "backends.sklearn.common"
SK = {n: S + "backends.sklearn." + n for n in ("logreg", "linear_svm", "gradient_boosting", "random_forest", "knn", "ridge",
                                               "extra_trees", "svm_rbf", "naive_bayes")}
TO = {n: S + "backends.torch." + n for n in ("logreg", "mlp", "text_cnn", "image_cnn", "audio_cnn", "lstm_scratch",
                                             "audio_cnn_scratch")}


def _m(n):
    return importlib.import_module(n)


def _setter(table, optional=()):
    """Context manager replacing module attributes, in symbolic runs and replays alike.  Private helpers listed as
    optional may be missing (renamed or inlined): harnesses relying on them skip themselves."""

    class Set:
        def __enter__(self):
            here = {k: v for k, v in table.items() if k not in optional or hasattr(_m(k[0]), k[1])}
            self.old = [(m, a, getattr(_m(m), a)) for m, a in here]
            for (m, a), v in here.items():
                setattr(_m(m), a, v)
            return self

        def __exit__(self, *exc):
            for m, a, v in self.old:
                setattr(_m(m), a, v)
            return False

    return Set


# -- K01: k nearest neighbours ------------------------------------------------------------------------
def _knn(I, cfg, Xtr, ytr, Xq):
    kw = dict(k=cfg["k"], metric=cfg.get("metric", "euclidean"), weights=cfg.get("weights", "uniform"),
              batch_size=cfg.get("b", 64), eps=cfg.get("eps", 0.5))
    if cfg["lib"] == "numpy":
        m = _m(NP_KNN).NumpyKNNClassifier(**kw)
        m.fit(Xtr, ytr)
        return m, flat(m.classes_), nested(m.predict_proba(Xq)), flat(m.predict(Xq)), nested(m.predict_scores(Xq))
    m = _m(T_KNN).TorchKNNClassifier(**kw)
    m.fit(T(Xtr, "float32"), T(ytr, "int64"))
    q = T(Xq, "float32")
    return m, flat(m.classes_), nested(m.predict_proba(q).numpy()), flat(m.predict(q).numpy()), nested(m.predict_scores(q).numpy())


def _knn_cfgs(big=False):
    out = []
    for lib in ("numpy", "torch"):
        for k in ((1, 2, 3, 5) if not big else (2, 3, 4)):
            out.append(dict(lib=lib, k=k, n=3 if not big else 4, q=2 if k in (1, 3) else 1, d=1, b=1 if k in (1, 5) else 64))
        out.append(dict(lib=lib, k=2, n=3, q=3, d=1, b=2, hi=1))
    return out


def _points_cfgs(big=False):
    out = []
    for lib in ("numpy", "torch"):
        for m in ("euclidean", "cosine"):
            for k in ((2, 4) if not big else (1, 3)):
                out.append(dict(lib=lib, k=k, metric=m, weights="uniform", eps=0.5 if m == "euclidean" else 1e-6))
    return out


def _common(C, classes, ys, P, pred, scores, q):
    C.require("the known classes are the distinct training labels, in order",
              And([lt(a, b) for a, b in zip(classes, classes[1:])] + [member(c, ys) for c in classes]
                  + [member(v, classes) for v in ys]))
    C.require("one probability row per query, one column per class", len(P) == q and all(len(r) == len(classes) for r in P))
    C.require("predict_scores and predict_proba agree", And([close(a, b) for r, s in zip(P, scores) for a, b in zip(r, s)]))
    for r, p in zip(P, pred):
        C.require("the predicted label is a class with the largest probability",
                  Or([And(eq(p, c), And([lec(o, v) for o in r])) for c, v in zip(classes, r)]))


@harness("K01", modules=(NP_KNN, T_KNN, T_COM, BASE, UTIL), contexts=(TorchPatch,), nl=True, compact=True, cfgs=_knn_cfgs(),
         thorough=_knn_cfgs(True),
         bounds="3 (4) training rows on the integer line 0..3 (ties and duplicates included), 1-3 queries, labels in -3..3, k 1..5, "
                "batch sizes 1, 2 and 64")
def nearest_neighbour_votes(I, cfg, C):
    n, q, d, k, hi = cfg["n"], cfg["q"], cfg["d"], cfg["k"], cfg.get("hi", 3)
    X = I.arr("X", (n, d), "i", 0, hi)
    Q = I.arr("Q", (q, d), "i", 0, hi)
    y = I.arr("y", (n,), "i", -3, 3)
    xs, qs, ys = nested(X), nested(Q), flat(y)
    m, classes, P, pred, scores = _knn(I, cfg, X.astype(np.float32), y, Q.astype(np.float32))
    kk = min(k, n)
    _common(C, classes, ys, P, pred, scores, q)
    for i in range(q):
        D = [total([(u - v) * (u - v) for u, v in zip(qs[i], x)]) for x in xs]
        sure = [le(count([le(D[o], D[j]) for o in range(n) if o != j]) + 1, kk) for j in range(n)]
        may = [lt(count([lt(D[o], D[j]) for o in range(n) if o != j]), kk) for j in range(n)]
        C.require("probabilities are non-negative and sum to one",
                  And([lec(0, p) for p in P[i]] + [close(total(P[i]), 1)]))
        for c, p in zip(classes, P[i]):
            lo = total([If(And(eq(ys[j], c), sure[j]), 1, 0) for j in range(n)])
            up = total([If(And(eq(ys[j], c), may[j]), 1, 0) for j in range(n)])
            C.require("a class gets one vote per neighbour among the k nearest rows", And(lec(lo, p * kk), lec(p * kk, up)))


_PTS = {"euclidean": [(0, 0), (2, 1), (1, 3), (-2, 2)], "cosine": [(3, 4), (8, 6), (0, 1), (-4, 3)]}
_NORM = {"cosine": [5, 10, 1, 5]}


@harness("K01", modules=(NP_KNN, T_KNN, T_COM, BASE, UTIL), contexts=(TorchPatch,), nl=True, compact=True, cfgs=_points_cfgs(),
         thorough=_points_cfgs(True),
         bounds="4 fixed training rows in the plane, two of them in one class, every real query in [-4,4]^2 off the ties, k 1..4, both metrics and "
                "weightings")
def neighbours_of_any_query(I, cfg, C):
    k, cos = cfg["k"], cfg["metric"] == "cosine"
    pts = _PTS[cfg["metric"]]
    n = len(pts)
    ys = [7, 2, 7, -1]
    Q = I.arr("Q", (1, 2), "r", -4, 4)
    u, v = nested(Q)[0]
    if cos:
        I.assume(Or(le(1, u), le(u, -1)))
        near = [(u * a + v * b) * Fraction(1, _NORM["cosine"][i]) for i, (a, b) in enumerate(pts)]
    else:
        near = [2 * u * a + 2 * v * b - (a * a + b * b) for a, b in pts]   # -distance^2 + |q|^2
    for i in range(n):
        for j in range(i):
            I.assume(Or(lt(near[i] + 0.01, near[j]), lt(near[j] + 0.01, near[i])))
    m, classes, P, pred, scores = _knn(I, cfg, np.array(pts, dtype=np.float32), np.array(ys), Q)
    _common(C, classes, ys, P, pred, scores, 1)
    top = [lt(count([lt(near[j], near[o]) for o in range(n) if o != j]), min(k, n)) for j in range(n)]
    p = dict(zip((-1, 2, 7), P[0]))
    C.require("probabilities are non-negative and sum to one", And([lec(0, x) for x in P[0]] + [close(total(P[0]), 1)]))
    for c in p:
        C.require("a class gets one vote per neighbour among the k nearest rows",
                  close(p[c] * min(k, n), total([If(top[j], 1, 0) for j in range(n) if ys[j] == c])))


@harness("K01", modules=(NP_KNN, T_KNN, T_COM, BASE, UTIL), contexts=(TorchPatch,), nl=True, compact=True,
         cfgs=[dict(lib=lib, k=k, eps=e, metric=m, weights="distance") for lib in ("numpy", "torch")
               for k, e, m in ((2, 0.5, "euclidean"), (3, 0.5, "euclidean"), (1, 1e-12, "euclidean"), (2, 1e-6, "cosine"))],
         bounds="2 or 3 training rows of different classes; every real query on the line in [-1,6] (euclidean) or on a ray of slope in [0,3] "
                "(cosine), off the ties")
def closer_rows_weigh_more(I, cfg, C):
    k, cos = cfg["k"], cfg["metric"] == "cosine"
    n, ys = (2, [7, 2]) if cos else (3, [7, 2, -1])
    qa = I.arr("q", (1,), "r", 0 if cos else -1, 3 if cos else 6)
    q = flat(qa)[0]
    eps = Fraction(cfg["eps"])
    if cos:
        pts = [(1, 0), (3, 4)]
        near = [1 + 0 * q, (3 + 4 * q) * Fraction(1, 5)]
        Q = np.concatenate([qa * 0 + 1, qa]).reshape(1, 2)
    else:
        pts = [(0,), (2,), (5,)]
        dist = [(q - a) * (q - a) for (a,) in pts]
        near = [2 * q * a - a * a for (a,) in pts]
        Q = qa.reshape(1, 1)
    for i in range(n):
        for j in range(i):
            I.assume(Or(lt(near[i] + 0.01, near[j]), lt(near[j] + 0.01, near[i])))
    m, classes, P, pred, scores = _knn(I, cfg, np.array(pts, dtype=np.float32), np.array(ys), Q)
    _common(C, classes, ys, P, pred, scores, 1)
    p = dict(zip(sorted(ys), P[0]))
    p = [p[c] for c in ys]
    top = [lt(count([lt(near[j], near[o]) for o in range(n) if o != j]), k) for j in range(n)]
    C.require("probabilities are non-negative and sum to one", And([lec(0, x) for x in P[0]] + [close(total(P[0]), 1)]))
    C.require("a class without a row among the k nearest has no vote", And([Implies(Not(t), close(x, 0)) for t, x in zip(top, p)]))
    C.require("a class with a row among the k nearest has a vote", And([Implies(t, lt(0, x)) for t, x in zip(top, p)]))
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            both = And(top[i], top[j])
            C.require("the nearer of two voting rows weighs more", Implies(And(both, lt(near[j], near[i])), lec(p[j], p[i])))
            if not cos and i < j:
                C.require("votes are weighted by the inverse of the squared distance plus eps",
                          Implies(both, close(p[i] * (dist[i] + eps), p[j] * (dist[j] + eps), 1e-3)))


@harness("K01", modules=(NP_KNN, T_KNN, T_COM, BASE, UTIL), contexts=(TorchPatch,), nl=True, compact=True,
         cfgs=[{"lib": "numpy", "k": 2}, {"lib": "torch", "k": 2}, {"lib": "numpy", "k": 1, "metric": "cosine", "eps": 1e-6, "hi": 1},
               {"lib": "torch", "k": 1, "metric": "cosine", "eps": 1e-6, "hi": 1}],
         bounds="3 training rows, 2 queries, 1-2 integer columns, every permutation of the queries")
def queries_are_answered_alone(I, cfg, C):
    hi = cfg.get("hi", 3)
    d = 2 if "metric" in cfg else 1
    lo = -hi if "metric" in cfg else 0
    X = I.arr("X", (3, d), "i", lo, hi).astype(np.float32)
    Q = I.arr("Q", (2, d), "i", lo, hi).astype(np.float32)
    y = I.arr("y", (3,), "i", 0, 2)
    _, _, P, pred, _ = _knn(I, dict(cfg, b=64), X, y, Q)
    for i in range(2):
        _, _, P1, pred1, _ = _knn(I, dict(cfg, b=1), X, y, Q[i:i + 1])
        C.require("a query's answer does not depend on the other queries or the batch size",
                  And([close(a, b) for a, b in zip(P[i], P1[0])] + [eq(pred[i], pred1[0])]))


# -- K03: label space ---------------------------------------------------------------------------------
class _Est:
    """Stand-in for a scikit-learn estimator: remembers what it was given, answers freely."""

    def __init__(self, box, kind, kw):
        self.box, self.kind, self.kw = box, kind, kw
        if kind in ("LinearSVC", "RidgeClassifier"):
            self.predict_proba = None
            del self.predict_proba
        if kind not in ("LinearSVC", "RidgeClassifier", "SVC", "LogisticRegression"):
            self.no_df = True

    def fit(self, X, y, **k):
        self.X, self.y = X, y
        self.K = self.box.K = len(self.box.uniq(flat(y)))
        self.box.fits.append((nested(X), flat(y)))
        return self

    def __getattr__(self, nm):
        if nm == "decision_function" and not self.__dict__.get("no_df"):
            return self._df
        if nm == "predict_proba" and self.kind not in ("LinearSVC", "RidgeClassifier"):
            return self._pp
        if nm == "classes_":
            return np.arange(self.K)
        raise AttributeError(nm)

    def predict(self, X):
        return self.box.pred(X)

    def _df(self, X):
        return self.box.scores(X, binary_1d=True)

    def _pp(self, X):
        return self.box.scores(X, binary_1d=False)


SK_CLASSES = {"logreg": "SklearnLogRegClassifier", "linear_svm": "SklearnLinearSVMClassifier",
              "gradient_boosting": "SklearnGradientBoostingClassifier", "random_forest": "SklearnRandomForestClassifier",
              "knn": "SklearnKNNClassifier", "ridge": "SklearnRidgeClassifier", "extra_trees": "SklearnExtraTreesClassifier",
              "svm_rbf": "SklearnSVRBFClassifier", "gaussian_nb": "SklearnGaussianNBClassifier",
              "multinomial_nb": "SklearnMultinomialNBClassifier", "bernoulli_nb": "SklearnBernoulliNBClassifier"}


def _skmod(n):
    return SK.get(n, SK["naive_bayes"])


class _Lazy:
    def __init__(self, box):
        self._box = box

    def __getattr__(self, nm):
        if nm.startswith("__"):
            raise AttributeError(nm)
        return lambda **kw: _Est(self._box, nm, kw)


_BOX = {}


def _fake_import(module, *, extra, feature):
    return _Lazy(_BOX["box"])


_SKP = _setter({(m, "optional_import"): _fake_import for m in SK.values()})


@harness("K03", modules=tuple(SK.values()) + (SK_COM, BASE, UTIL), contexts=(_SKP,), replay_contexts=(_SKP,), compact=True,
         cfgs=[{"clf": c, "K": K} for c in SK_CLASSES for K in (2, 3)],
         bounds="3 training rows with 2 or 3 distinct labels in -9..9, 2 queries, free estimator answers")
def sklearn_answers_in_the_callers_labels(I, cfg, C):
    K, n = cfg["K"], 3
    X = I.arr("X", (n, 2), "r", -4, 4)
    Q = I.arr("Q", (2, 2), "r", -4, 4)
    y = I.arr("y", (n,), "i", -9, 9)
    ys = flat(y)
    I.assume(distinct(ys) if K == 3 else And(eq(ys[0], ys[2]), ne(ys[0], ys[1])))
    enc = I.arr("enc", (2,), "i", 0, K - 1)
    sc = I.arr("score", (2, K), "r", 0, 1)
    s1 = I.arr("margin", (2,), "r", -3, 3)

    def scores(Xq, binary_1d):
        seen.append(nested(Xq))
        return s1.copy() if binary_1d and K == 2 else sc.copy()

    seen = []
    box = NS(K=K, fits=[], uniq=lambda v: range(K), pred=lambda Xq: (seen.append(nested(Xq)), enc.copy())[1], scores=scores)
    _BOX["box"] = box
    clf = getattr(_m(_skmod(cfg["clf"])), SK_CLASSES[cfg["clf"]])
    m = clf(probability=True) if cfg["clf"] == "svm_rbf" else clf()
    m.fit(X, y)
    classes = flat(m.classes_)
    C.require("the known classes are the distinct training labels, in order",
              And([len(classes) == K] + [lt(a, b) for a, b in zip(classes, classes[1:])] + [member(v, classes) for v in ys]))
    C.require("the estimator is fitted once", len(box.fits) == 1)
    fx, fy = box.fits[0]
    C.require("the estimator sees the features unchanged", And([eq(a, b) for r, s in zip(fx, nested(X)) for a, b in zip(r, s)]))
    C.require("the estimator sees each row's own label as its class position",
              And([Or([And(eq(e, k), eq(v, classes[k])) for k in range(K)]) for e, v in zip(fy, ys)]))
    p = flat(m.predict(Q))
    C.require("predictions are the original labels of the predicted classes",
              And([Implies(eq(e, k), eq(v, classes[k])) for e, v in zip(flat(enc), p) for k in range(K)]))
    C.require("the estimator is asked about the query rows",
              And([eq(a, b) for s in seen for r, t in zip(s, nested(Q)) for a, b in zip(r, t)]))
    S_ = nested(m.predict_scores(Q))
    C.require("scores have one column per class", len(S_) == 2 and all(len(r) == K for r in S_))
    df = cfg["clf"] in ("logreg", "linear_svm", "ridge", "svm_rbf")
    if df and K == 2:
        C.require("for two classes the larger score is on the side of the margin",
                  And([And(close(r[1], v), close(r[0], -v)) for r, v in zip(S_, flat(s1))]))
    else:
        C.require("scores are the estimator's, in class order",
                  And([close(a, b) for r, t in zip(S_, nested(sc)) for a, b in zip(r, t)]))
    if m.supports_proba:
        P = nested(m.predict_proba(Q))
        C.require("probabilities are the estimator's, in class order",
                  And([close(a, b) for r, t in zip(P, nested(sc)) for a, b in zip(r, t)]))


# -- a stand-in for the neural network part of torch ----------------------------------------------------
class _Rec:
    """What one training run did, in order."""

    def __init__(self):
        self.ev = []
        self.logits = None
        self.modes = []


_REC = {"r": _Rec()}


class _Param:
    def __init__(self):
        self.device = TM().zeros(1).device
        self.requires_grad = True


class _Module:
    def __init__(self, *a, **k):
        self._kind = type(self).__name__
        self.training = True

    def _init(self, kind, a, k):
        self._kind = kind
        self.training = True
        _REC["r"].ev.append(("init", kind, tuple(a), tuple(sorted((k or {}).items())), TM().rand(1)))

    def to(self, *a, **k):
        return self

    def parameters(self):
        return iter([_Param()])

    def train(self, mode=True):
        self.training = mode
        return self

    def eval(self):
        return self.train(False)

    def __call__(self, x, *a):
        r = _REC["r"]
        if self.training:
            r.ev.append(("forward", nested(x), TM().rand(1)))
            return _Logits(int(x.shape[0]))
        r.modes.append(("eval", nested(x)))
        return r.logits(int(x.shape[0]))


class _Logits:
    def __init__(self, n):
        self.n = n
        self.shape = (n, 2)


class _Loss:
    def backward(self):
        _REC["r"].ev.append(("backward",))


def _layer(kind):
    class L(_Module):
        def __init__(self, *a, **k):
            a = tuple(x for x in a if not isinstance(x, _Module))
            self._init(kind, a, k)
    L.__name__ = kind
    return L


class _Opt:
    def __init__(self, params, **k):
        _REC["r"].ev.append(("optimizer", tuple(sorted((k or {}).items()))))

    def zero_grad(self, *a, **k):
        _REC["r"].ev.append(("zero_grad",))

    def step(self):
        _REC["r"].ev.append(("step",))


def _ce(logits, target, **k):
    _REC["r"].ev.append(("loss", flat(target)))
    return _Loss()


class _CE:
    def __init__(self, **k):
        pass

    def __call__(self, logits, target):
        return _ce(logits, target)


class _DS:
    def __init__(self, *t):
        self.t = t


class _DL:
    """Batches of a shuffled order drawn from the given generator (or the global one)."""

    def __init__(self, ds, batch_size=1, shuffle=False, generator=None, **k):
        self.ds, self.b, self.shuffle, self.g = ds, batch_size, shuffle, generator

    def __iter__(self):
        t = TM()
        n = int(self.ds.t[0].shape[0])
        order = t.randperm(n, generator=self.g) if self.shuffle else t.arange(n)
        for i in range(0, n, self.b):
            idx = order[i:i + self.b]
            yield tuple(x[idx] for x in self.ds.t)


class _NN:
    Module = _Module

    class functional:
        cross_entropy = staticmethod(_ce)

    CrossEntropyLoss = _CE

    def __getattr__(self, nm):
        if nm.startswith("__"):
            raise AttributeError(nm)
        return _layer(nm)


class _FT:
    """torch with its network layers, optimisers and loaders replaced."""

    nn = _NN()
    optim = NS(AdamW=_Opt, Adam=_Opt, SGD=_Opt)
    utils = NS(data=NS(TensorDataset=_DS, DataLoader=_DL))

    def __getattr__(self, nm):
        return getattr(TM(), nm)


_FT_ = _FT()


class _Net(_Module):
    def __init__(self, **k):
        self._init("net", (), k)


_TP = _setter({**{(m, "_torch"): (lambda: _FT_) for m in TO.values()},
                 (TO["text_cnn"], "_TextCNN"): _Net, (TO["image_cnn"], "_ImageCNN"): _Net, (TO["audio_cnn"], "_AudioCNN"): _Net})
T_CLASSES = {"logreg": "TorchLogRegClassifier", "mlp": "TorchMLPClassifier", "text_cnn": "TorchTextCNNClassifier",
             "image_cnn": "TorchImageCNNClassifier", "audio_cnn": "TorchAudioCNNClassifier", "lstm_scratch": "TorchLSTMClassifier",
             "audio_cnn_scratch": "TorchAudioCNNClassifier"}
T_SHAPE = {"logreg": (2,), "mlp": (2,), "text_cnn": (3, 2), "image_cnn": (1, 2, 2), "audio_cnn": (1, 3), "lstm_scratch": (2,),
           "audio_cnn_scratch": (2, 2)}


def _tclf(kind, **k):
    if kind == "text_cnn":
        k.setdefault("kernel_sizes", (2,))
    return getattr(_m(TO[kind]), T_CLASSES[kind])(**k)


def _data(I, kind, n, tag=""):
    ik = "i" if kind == "lstm_scratch" else "r"
    return T(I.arr("X" + tag, (n,) + T_SHAPE[kind], ik, 0, 5), "int64" if ik == "i" else "float32")


def _eqv(a, b):
    """Two recorded values are the same."""
    if isinstance(a, (tuple, list)):
        return And([len(a) == len(b)] + [_eqv(x, y) for x, y in zip(a, b)]) if isinstance(b, (tuple, list)) else False
    if isinstance(a, (str, type(None), bool)) or isinstance(b, (str, type(None), bool)):
        return a == b
    if hasattr(a, "shape"):
        return same_seq(flat(a), flat(b))
    return eq(a, b)


@harness("K02", modules=tuple(TO.values()) + (T_COM, BASE, UTIL), contexts=(TorchPatch, _TP), replay_contexts=(_TP,), compact=True,
         cfgs=[{"clf": c, "seed": s, "n": 3, "b": 2, "E": 2} for c in T_CLASSES for s in (0, 7)],
         thorough=[{"clf": c, "seed": 5, "n": n, "b": b, "E": 2} for c in T_CLASSES for n, b in ((4, 3), (4, 4), (5, 2))],
         bounds="3 (5) rows, batches of 2 (4), 2 epochs, every batch order, every earlier state of torch's global generator")
def seeded_training_is_a_function_of_seed_and_data(I, cfg, C):
    kind, n = cfg["clf"], cfg["n"]
    X = _data(I, kind, n)
    y = T(I.arr("y", (n,), "i", 3, 5), "int64")
    ys = flat(y)
    a = (I.int("before1", 1000, 5000), I.int("before2", 1000, 5000))
    runs = []
    for i in range(2):
        _REC["r"] = rec = _Rec()
        TM().manual_seed(a[i])
        if i:
            TM().rand(2)
        m = _tclf(kind, seed=cfg["seed"], batch_size=cfg["b"], max_epochs=cfg["E"], dropout=0.25) if kind != "logreg" else \
            _tclf(kind, seed=cfg["seed"], batch_size=cfg["b"], max_epochs=cfg["E"])
        m.fit(X, y)
        runs.append((rec, flat(m.classes_)))
    e1, e2 = runs[0][0].ev, runs[1][0].ev
    C.require("the same seed and data give the same initial weights, batches and updates, whatever ran before",
              And([len(e1) == len(e2)] + [_eqv(x, z) for x, z in zip(e1, e2)]))
    classes = runs[0][1]
    fw = [e for e in e1 if e[0] == "forward"]
    ls = [e for e in e1 if e[0] == "loss"]
    rows = [tuple(flat(r)) for e in fw for r in e[1]]
    labs = [v for e in ls for v in e[1]]
    if kind == "text_cnn":
        src = [tuple(r[j][c] for c in range(2) for j in range(3)) for r in nested(X)]
    else:
        src = [tuple(flat(r)) for r in nested(X)]
    C.require("every epoch goes over every row exactly once", len(rows) == len(labs) == n * cfg["E"])
    for ep in range(cfg["E"]):
        lo = ep * n
        got = list(zip(rows[lo:lo + n], labs[lo:lo + n]))
        want = [(s, v) for s, v in zip(src, ys)]

        def enc(v, l):
            return Or([And(eq(l, k), eq(v, c)) for k, c in enumerate(classes)])

        def same(g, w):
            return And([eq(p, q_) for p, q_ in zip(g[0], w[0])] + [enc(w[1], g[1])])

        C.require("an epoch uses every row with its own label",
                  And([count([same(g, w) for g in got]) >= 1 for w in want]
                      + [eq(count([same(g, w) for g in got]), count([And([eq(p, q_) for p, q_ in zip(w2[0], w[0])] + [eq(w2[1], w[1])])
                                                                     for w2 in want])) for w in want]))
    seqs = [e[0] for e in e1 if e[0] in ("zero_grad", "backward", "step")]
    C.require("each batch resets the gradients, back-propagates and takes one step",
              seqs.count("step") == seqs.count("backward") == seqs.count("zero_grad") == len(fw)
              and all(seqs[j + 1] == "step" for j, s in enumerate(seqs) if s == "backward"))


@harness("K03", modules=tuple(TO.values()) + (T_COM, BASE, UTIL), contexts=(TorchPatch, _TP), replay_contexts=(_TP,), compact=True,
         cfgs=[{"clf": c, "K": K} for c in T_CLASSES for K in (2, 3)],
         bounds="3 training rows with 2 or 3 distinct labels in -9..9, 2 queries, free network outputs")
def torch_answers_in_the_callers_labels(I, cfg, C):
    kind, K, n = cfg["clf"], cfg["K"], 3
    X = _data(I, kind, n)
    Q = _data(I, kind, 2, "q")
    y = T(I.arr("y", (n,), "i", -9, 9), "int64")
    ys = flat(y)
    I.assume(distinct(ys) if K == 3 else And(eq(ys[0], ys[2]), ne(ys[0], ys[1])))
    _REC["r"] = rec = _Rec()
    zz = I.arr("prob", (2, K), "r", Fraction(1, 16), 1)
    for r in nested(zz):
        I.assume(eq(total(r), 1))
    z = T(zz, "float32").log()
    zz = nested(zz)
    rec.logits = lambda k: z
    m = _tclf(kind, batch_size=4, max_epochs=1)
    m.fit(X, y)
    classes = flat(m.classes_)
    C.require("the known classes are the distinct training labels, in order",
              And([len(classes) == K] + [lt(a, b) for a, b in zip(classes, classes[1:])] + [member(v, classes) for v in ys]))
    p = flat(m.predict(Q))
    C.require("a prediction is the original label of a class with the largest network output",
              And([Or([And(eq(v, c), And([lec(o, r[k]) for o in r])) for k, c in enumerate(classes)]) for v, r in zip(p, zz)]))
    P = nested(m.predict_proba(Q))
    C.require("probabilities are the softmax of the network outputs, in class order",
              And([close(v, w) for r, a in zip(P, zz) for v, w in zip(r, a)]))
    C.require("the network is asked in evaluation mode", len(rec.modes) == 2)
    S_ = nested(m.predict_scores(Q))
    C.require("scores and probabilities agree", And([close(a, b) for r, t in zip(P, S_) for a, b in zip(r, t)]))


@harness("K03", modules=(UTIL, BASE), compact=True, cfgs=[{"n": 3}, {"n": 1}, {"n": 0}], thorough=[{"n": 4}, {"n": 5}],
         bounds="up to 3 (5) labels in -4..4")
def label_coding_round_trips(I, cfg, C):
    n = cfg["n"]
    u = _m(UTIL)
    y = I.arr("y", (max(n, 1),), "i", -4, 4)[:n]
    enc, classes = u.encode_labels(y)
    e, c, ys = flat(enc), flat(classes), flat(y)
    C.require("codes point at each row's own label", And([len(e) == n] + [Or([And(eq(a, k), eq(v, w)) for k, w in enumerate(c)])
                                                                         for a, v in zip(e, ys)]))
    C.require("classes are distinct, sorted and all used", And([lt(a, b) for a, b in zip(c, c[1:])] + [member(w, ys) for w in c]))
    oh = nested(u.onehot(enc, len(c)))
    C.require("one-hot rows mark exactly the row's class",
              And([len(oh) == n] + [eq(oh[i][k], If(eq(e[i], k), 1, 0)) for i in range(n) for k in range(len(c))]))
    b = _m(BASE).BaseSupervisedClassifier()
    enc2 = b._set_classes_from_y(y)
    C.require("decoding the codes gives the labels back", same_seq(flat(b._decode(enc2)), ys))
    A = I.arr("A", (2, 2, 3), "r", -2, 2)
    F = nested(u.ensure_2d(A))
    C.require("flattening keeps one row per sample, in order",
              len(F) == 2 and And([same_seq(F[i], flat(A[i])) for i in range(2)]))
    v = nested(u.ensure_2d(A[0][0]))
    C.require("a vector becomes one column", len(v) == 3 and And([eq(r[0], w) for r, w in zip(v, flat(A[0][0]))]))


# -- K02: creation -------------------------------------------------------------------------------------
class _Made:
    def __init__(self, factory, kw):
        self.factory, self.kw = factory, kw


_AV = {"f": None, "real": None}
_CP = _setter({(API, "has_module"): lambda m: _AV["f"](m)})


@harness("K02", modules=(API, REG, S + "registry_data", OPT), contexts=(_CP,), replay_contexts=(_CP,), compact=True, cfgs=[{}],
         bounds="every registered classifier and backend, every combination of installed optional modules, symbolic seed and workers")
def automatic_backend_is_the_first_available(I, cfg, C):
    api, reg = _m(API), _m(REG)
    ids = reg.list_classifiers()
    cid = I.choice("classifier", ids)
    spec = reg.get_spec(cid)
    mods = {}

    def has(m):
        if m not in mods:
            mods[m] = bool(I.flag("has_" + m))
        return mods[m]

    _AV["f"] = has
    made = []
    real = api._load_object
    api._load_object = lambda f: (lambda **kw: made.append(_Made(f, kw)) or made[-1])
    try:
        err = out = None
        seed, jobs = I.int("seed", 0, 2**31 - 1), I.int("jobs", 1, 64)
        own = bool(I.flag("own_seed"))
        given = {"alpha": 1}
        if own:
            given["seed"] = I.int("params_seed", 0, 99)
        before = dict(given)
        rt = _m(S + "types").ClassifierRuntime(seed=seed, n_jobs=jobs)
        try:
            out = api.create_classifier(cid, params=given, runtime=rt)
        except Exception as e:  # noqa: BLE001
            err = e
    finally:
        api._load_object = real
    need = {b: spec.backends[b].required_extra for b in spec.preferred_backends if b in spec.backends}
    ok = [b for b in need if need[b] is None or has(_m(OPT).module_for_extra(str(need[b])))]
    if not ok:
        C.require("without any usable backend creation is refused with the missing extra named",
                  type(err).__name__ == "OptionalDependencyError" and str(list(need.values())[0]) in str(err))
        return
    C.require("a usable backend makes creation succeed", err is None)
    C.require("the first usable backend in the preferred order is chosen", out.factory == spec.backends[ok[0]].factory)
    C.require("the run's seed is used unless the caller set one", eq(out.kw["seed"], given["seed"] if own else seed))
    C.require("the worker count is passed on", eq(out.kw["n_jobs"], jobs))
    C.require("other parameters arrive unchanged", out.kw["alpha"] == 1 and set(out.kw) == {"alpha", "seed", "n_jobs"})
    C.require("the caller's parameters are not modified", given.keys() == before.keys() and And([eq(given[k], before[k]) for k in before]))


@harness("K02", modules=(API, REG, S + "registry_data", OPT), compact=True, cfgs=[{}],
         bounds="every registered classifier and installed backend, symbolic seed and worker count")
def runtime_reaches_every_classifier(I, cfg, C):
    api, reg = _m(API), _m(REG)
    pairs = [(c, b) for c in reg.list_classifiers() for b in sorted(reg.get_spec(c).backends)]
    cid, b = I.choice("classifier", pairs)
    seed, jobs = I.int("seed", 0, 2**31 - 1), I.int("jobs", 1, 64)
    rt = _m(S + "types").ClassifierRuntime(seed=seed, n_jobs=jobs)
    try:
        m = api.create_classifier(cid, backend=b, runtime=rt)
    except (ImportError, _m(S + "errors").OptionalDependencyError):
        return
    C.require("the requested backend is the one created", m.backend == b and m.classifier_id == cid)
    C.require("the run's seed reaches the classifier", eq(m.seed, seed))
    C.require("the worker count reaches the classifier", Or(m.n_jobs is None, eq(m.n_jobs, jobs) if m.n_jobs is not None else True))
