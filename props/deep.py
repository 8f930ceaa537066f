"""Deep inductive methods: what the optimiser is made to follow, batching, predictions, seeds."""
from __future__ import annotations

import copy
import importlib
import math
import random
import time
from fractions import Fraction

import numpy as np

from symx import npshim, tshim
from symx.core import Ctx, SymBool, sym_exp, sym_log
from symx.harness import harness
from symx.process import new_process
from symx.ops import (And, Fr, If, Iff, Implies, Not, Or, close, close_seq, count, distinct, eq, first_argmax, flat, le, lec, lt, member, ne,
                      nested, same_multiset, same_seq, smaximum, total)
from symx.tshim import T, TM, TorchPatch

M = "modssc.inductive.methods."
HELP = M + "helpers.torch_support"
BASE = (M + "helpers.classifier_bridge", HELP, "modssc.inductive.adapters.torch", "modssc.inductive.validation", "modssc.inductive.types",
        "modssc.inductive.deep.validation")


def arr(vals, dtype):
    return npshim.NP.array(vals, dtype=dtype) if Ctx.cur is not None else np.array(vals, dtype=dtype)


def log(x):
    return sym_log(x)


def exp(x):
    return sym_exp(x)


def rt():
    return tshim.rt()


def _class(mod, name):
    return getattr(importlib.import_module(M + mod), name)


class World:
    """Outputs any network could give: one free probability row per (network, number of updates so far, mode, sample).

    Symbolically every row exists twice: as produced (differentiable) and as a constant (detached or computed without
    gradient).  The two copies are independent, so an equation over them settles values and gradients together."""

    cur = None

    def __init__(self, I, K, use="p", like=None):
        self.I, self.K, self.use = I, K, use
        self.rows, self.pairs, self.steps_done = {}, [], 0
        self.free_updates, self.ups, self.mix, self.mixed, self.starts = False, [], False, [], []
        self.adv, self.seq, self.inputs, self.last = False, 0, [], -1
        self.calls, self.losses, self.order, self.leaf, self.grads, self.params = [], [], [], {}, [], {}
        World.cur = self
        self.asked, self.dirs = 0, {}
        if like is not None:   # the same network seen again
            self.rows, self.pairs, self.dirs = like.rows, like.pairs, like.dirs
        if Ctx.cur is not None:
            Ctx.cur.data["torch_stubs"] = {"autograd.grad": lambda o, i, *a, **k: World.cur.direction(i)}
            Ctx.cur.data["stop"] = self.pairs
            Ctx.cur.data["log_plain"] = True

    def row(self, key):
        if key not in self.rows:
            tag = "_".join(str(k) for k in key)
            out = []
            for c in "pd":
                vs = [self.I.real(f"{c}{tag}_{k}", 0.02, 0.96) for k in range(self.K)]
                self.I.assume(eq(total(vs), 1) if Ctx.cur is not None else abs(total(vs) - 1) < 1e-6)
                out.append(vs)
            self.rows[key] = out
            if Ctx.cur is not None:
                self.pairs += [(a.e, b.e) for a, b in zip(*out)]
                for vs in out:
                    names = frozenset(v.e.decl().name() for v in vs)
                    Ctx.cur.data.setdefault("units", set()).add(names)
                    Ctx.cur.data.setdefault("box", {}).update({n: (Fraction(2, 100), Fraction(96, 100)) for n in names})
                    Ctx.cur.data.setdefault("last", {})[vs[-1].e.decl().name()] = [v.e.decl().name() for v in vs[:-1]]
        return self.rows[key]

    # what an oracle may look at
    def P(self, key):
        return self.row(key)[0]

    def D(self, key):
        return self.row(key)[1]

    def logits(self, key):
        P, D = self.row(key)
        if Ctx.cur is not None:
            return [log(v) for v in (P if rt().is_grad_enabled() else D)]
        if key not in self.leaf:
            t = rt()
            vs = [max(v, 1e-9) for v in (P if self.use == "p" else D)]
            self.leaf[key] = t.tensor([math.log(v) for v in vs], dtype=t.float64, requires_grad=True)
        return self.leaf[key]

    def direction(self, inputs, *a, **k):
        n = self.asked = self.asked + 1
        shp = tuple(inputs.shape)
        if n not in self.dirs:
            self.dirs[n] = [[self.I.real(f"dir{n}_{i}_{j}", -2, 2) for j in range(shp[1])] for i in range(shp[0])]
            for r in self.dirs[n]:
                self.I.assume(lt(0.001, total([x * x for x in r])))
        return (T(arr(self.dirs[n], np.float64)),)

    def adversary(self, vals):
        """Rows seen by a network that is also shown perturbed inputs: the first two batches of a step are clean."""
        if self.last != self.steps_done:
            self.last, self.seq, self.base = self.steps_done, 0, []
        n, self.seq = self.seq, self.seq + 1
        if n < 2:
            self.base = [int(v[0]) for v in vals]
            self.clean = vals
            return self.base
        self.inputs.append((self.steps_done, n, [[a - b for a, b in zip(v, c)] for v, c in zip(vals, self.clean)]))
        return [100 * (n - 1) + i for i in self.base]

    def backward(self, loss):
        self.order.append("backward")
        if Ctx.cur is not None:
            self.losses.append(loss._a._raw().reshape(-1)[0])
            return
        for z in self.leaf.values():
            z.grad = None
        self.real_backward(loss)
        self.losses.append(float(loss.detach()))
        self.grads.append({k: [0.0] * self.K if z.grad is None else z.grad.tolist() for k, z in self.leaf.items()})


class Recorded:
    """Losses are handed to the world instead of (symbolically) or besides (on replay) being differentiated."""

    def __enter__(self):
        self.saved = []
        for cls in (tshim.Tensor, rt().Tensor):
            old = cls.backward
            self.saved.append((cls, old))

            def backward(t, *a, _old=old, **k):
                w = World.cur
                w.real_backward = _old
                w.backward(t)

            cls.backward = backward
        return self

    def __exit__(self, *exc):
        for cls, old in self.saved:
            cls.backward = old
        return False


class Directions:
    """torch.autograd.grad with respect to a perturbation: any direction may come back."""

    def __enter__(self):
        import torch

        self.old = torch.autograd.grad

        def grad(outputs, inputs, *a, **k):
            w = World.cur
            return w.direction(inputs) if w.adv else self.old(outputs, inputs, *a, **k)

        torch.autograd.grad = grad
        return self

    def __exit__(self, *exc):
        import torch

        torch.autograd.grad = self.old
        return False


CTX = dict(contexts=(TorchPatch, Recorded, Directions), replay_contexts=(Recorded, Directions))
_NET = {}


def classes():
    if not _NET:
        t = rt()

        class Net(t.nn.Module):
            def __init__(self, name):
                super().__init__()
                self.name = name
                w = World.cur
                w.params[name] = [T(arr([1.0, -2.0] if name == "s" else [3.0, 0.5], np.float64))]
                for p in w.params[name]:
                    p.requires_grad = True

            def parameters(self, recurse=True):
                return iter(World.cur.params[self.name])

            def state_dict(self, *a, **k):
                return {"w": World.cur.params[self.name][0].detach().clone()}

            def load_state_dict(self, sd, strict=True):
                p = World.cur.params[self.name][0]
                p.data.copy_(sd["w"])

            def __deepcopy__(self, memo):
                n = type(self)("t")
                n.load_state_dict(self.state_dict())
                return n

            def forward(self, x):
                w = World.cur
                vals = nested(x)
                if w.adv:
                    ids = w.adversary(vals)
                elif w.mix and rt().is_grad_enabled():   # a mixed batch: rows are known by their position
                    w.mixed.append([v[1:] for v in vals])
                    ids = [100 + i for i in range(len(vals))]
                else:
                    ids = [int(v[0]) for v in vals]
                mode = "t" if self.training else "e"
                keys = [(self.name, w.steps_done, mode, i) for i in ids]
                w.calls.append((w.steps_done, self.name, mode, ids))
                rows = [w.logits(k) for k in keys]
                if Ctx.cur is not None:
                    return T(arr(rows, np.float64))
                return t.stack(rows)

        class Opt(t.optim.Optimizer):
            def __init__(self, params):
                self.param_groups = [{"params": list(params), "lr": 1.0}]
                self.state = {}

            def zero_grad(self, *a, **k):
                World.cur.order.append("zero")

            def step(self, *a, **k):
                w = World.cur
                w.order.append("step")
                w.steps_done += 1
                up = w.I.real(f"up{w.steps_done}", -1, 1) if w.free_updates else 1.0
                w.ups.append(up)
                for p in self.param_groups[0]["params"]:
                    p.data.add_(up)

        _NET.update(Net=Net, Opt=Opt)
    return _NET


def bundle(ema=False, name="s"):
    c = classes()
    from modssc.inductive.deep import TorchModelBundle

    net = c["Net"](name)
    return TorchModelBundle(model=net, optimizer=c["Opt"](net.parameters()), ema_model=c["Net"]("t") if ema else None)


def ids(a, n):
    return T(arr([[float(a + i)] for i in range(n)], np.float64))


def run(I, cfg, use, y, like=None):
    """Fit once; returns the world with everything that was seen."""
    if like is not None:
        new_process()
    from modssc.inductive.types import DeviceSpec, InductiveDataset

    w = World(I, cfg["K"], use, like)
    mod, cls = cfg["m"]
    n_l, n_u = cfg.get("nl", 2), cfg.get("nu", 2)
    nets = dict(student_bundle=bundle(), teacher_bundle=bundle(name="t")) if mod == "meta_pseudo_labels" else dict(model_bundle=bundle(cfg.get("ema", False)))
    spec = _class(mod, cls + "Spec")(**nets, batch_size=cfg.get("b", 8), max_epochs=cfg.get("epochs", 1), **cfg.get("spec", {}))
    meth = _class(mod, cls + "Method")(spec)
    kw = {}
    if mod == "flexmatch":
        kw["meta"] = {"idx_u": T(arr(cfg.get("idx", list(range(n_u))), np.int64))}
        if "idx" in cfg:
            kw["meta"]["ulb_size"] = n_u
    if mod == "defixmatch" or cfg.get("strong"):
        kw["views"] = {"X_l_s": ids(30, n_l)}
    w.mix, w.adv = mod == "mixmatch", mod == "vat"
    rows = ids
    if w.mix:
        n = n_l + 2 * n_u

        def rows(a, k):
            first = {0: 0, 10: n_l, 20: n_l + n_u}[a]
            return T(arr([[float(a + i)] + [1.0 if j == first + i else 0.0 for j in range(n)] for i in range(k)], np.float64))

    if w.adv:

        def rows(a, k):
            return T(arr([[float(a + i), 0.5] for i in range(k)], np.float64))

        kw["X_u"] = rows(10, n_u)
    d = InductiveDataset(X_l=rows(0, n_l), y_l=T(arr(y, np.int64)), X_u_w=rows(10, n_u), X_u_s=rows(20, n_u), **kw)
    w.method, w.bundle, w.free_updates = meth, nets.get("model_bundle"), cfg.get("free_updates", False)
    for _ in range(cfg.get("fits", 1)):
        w.starts.append(w.steps_done)
        ambient(cfg)
        meth.fit(d, device=DeviceSpec(device="cpu"), seed=3)
    return w


def ambient(cfg):
    """Draws made elsewhere in the process; a seeded fit must not notice."""
    for _ in range(cfg.get("noise", 0)):
        TM().rand(3)
        (npshim.NP.random if Ctx.cur is not None else np.random).rand(2)


class View:
    """What the loss of one step may depend on."""

    def __init__(self, w, step, P, cfg, y, part=0):
        self.part, self.w, self.step, self.P_, self.cfg, self.y, self.K = part, w, step, P, cfg, y, cfg["K"]
        self.t = step - max(x for x in w.starts if x <= step)   # updates made by this fit so far
        seen = [(n, m, ii) for s, n, m, ii in w.calls if s == step and not (cfg["m"][0] == "adsh" and m == "e")]
        self.seen = seen
        self.L = sorted({i for _, _, ii in seen for i in ii if i < 10})
        if w.mix:
            self.L = list(range(cfg["nl"]))
        self.U = sorted({i - 10 for _, _, ii in seen for i in ii if 10 <= i < 20})

    def P(self, i, net="s", mode="t"):
        return self.P_((net, self.step, mode, i))

    def D(self, i, net="s", mode="t", later=0):
        key = (net, self.step + later, mode, i)
        return self.w.D(key) if Ctx.cur is not None or self.w.use == "d" else self.w.P(key)

    def weak(self, u):
        c = self.cfg
        grad = c.get("spec", {}).get("use_cat") and not c.get("spec", {}).get("detach_target", True)
        return self.P(10 + u) if grad else self.D(10 + u)


def ce(p, y):
    out = 0.0
    for k, v in enumerate(p):
        out = If(eq(y, k), -log(v), out)
    return out


def soft_ce(q, p):
    return -total([a * log(b) for a, b in zip(q, p)])


def mean(xs):
    return total(xs) * Fr(1, len(xs))


def sharpen(p, T_):
    if T_ == 1:
        return p
    n = round(1 / T_)
    q = []
    for v in p:
        x = v
        for _ in range(n - 1):
            x = x * v
        q.append(x)
    return [v / total(q) for v in q]


def masked(losses, mask):
    """Sum of the selected losses over the number selected (at least one)."""
    n = count(mask)
    tot = total([If(m, v, 0.0) for m, v in zip(mask, losses)])
    out = 0.0
    for k in range(1, len(mask) + 1):
        out = If(eq(n, k), tot * Fr(1, k), out)
    return out


def sup(v):
    return mean([ce(v.P(i), v.y[i]) for i in v.L])


def target_loss(v, spec, tgt, p):
    hard = spec.get("hard_label", True)
    return ce(p, first_argmax(tgt)) if hard else soft_ce(sharpen(tgt, spec.get("temperature", 0.5)), p)


def o_fixmatch(v, st):
    s = v.cfg["spec"]
    conf = [lec(s["p_cutoff"], smaximum(v.D(10 + u)), 0) for u in v.U]
    ls = [target_loss(v, s, v.D(10 + u) if s.get("hard_label", True) else v.weak(u), v.P(20 + u)) for u in v.U]
    return sup(v) + s.get("lambda_u", 1.0) * masked(ls, conf)


def o_defixmatch(v, st):
    s = v.cfg["spec"]
    sup2 = (sup(v) + mean([ce(v.P(30 + i), v.y[i]) for i in v.L])) * Fr(1, 2)
    conf = [lec(s["p_cutoff"], smaximum(v.D(10 + u)), 0) for u in v.U]
    hard = s.get("hard_label", True)
    ls = [target_loss(v, s, v.D(10 + u) if hard else v.weak(u), v.P(20 + u)) for u in v.U]
    conf_l = [lec(s["p_cutoff"], smaximum(v.D(i)), 0) for i in v.L]
    ll = [target_loss(v, s, v.D(i) if hard or s.get("detach_target", True) else v.P(i), v.P(30 + i)) for i in v.L]
    return sup2 + s.get("lambda_u", 1.0) * (masked(ls, conf) - masked(ll, conf_l))


def o_flexmatch(v, st):
    s = v.cfg["spec"]
    K, n = v.K, v.cfg.get("nu", 2)
    sel = st.setdefault("sel", [-1] * n)
    acc = st.setdefault("acc", [0.0] * K)
    conf, ls = [], []
    for u in v.U:
        w = v.D(10 + u)
        top, c = smaximum(w), first_argmax(w)
        thr = 0.0
        for k in range(K):
            thr = If(eq(c, k), s["p_cutoff"] * (acc[k] / (2 - acc[k])), thr)
        conf.append(le(thr, top))
        ls.append(target_loss(v, s, w if s.get("hard_label", True) else v.weak(u), v.P(20 + u)))
        g = v.cfg.get("idx", range(n))[u]      # the sample's index among all unlabelled samples
        sel[g] = If(le(s["p_cutoff"], top), c, sel[g])
    cnt = [count([eq(x, k) for x in sel]) for k in range(K)]
    big = smaximum(cnt + ([count([eq(x, -1) for x in sel])] if s.get("thresh_warmup", True) else []))
    new = []
    for k in range(K):
        r = 0.0
        for b in range(1, n + 1):
            r = If(eq(big, b), cnt[k] * Fr(1, b), r)
        new.append(r)
    st["acc"] = new
    return sup(v) + s.get("lambda_u", 1.0) * masked(ls, conf)


def o_freematch(v, st):
    s = v.cfg["spec"]
    K, m = v.K, s["ema_p"]
    tops = [smaximum(v.D(10 + u)) for u in v.U]
    cls = [first_argmax(v.D(10 + u)) for u in v.U]
    if s.get("use_quantile", True):
        assert len(tops) == 2
        lo = If(lt(tops[0], tops[1]), tops[0], tops[1])
        val = lo + Fr(4, 5) * (smaximum(tops) - lo)
    else:
        val = mean(tops)
    st["t"] = m * st.get("t", Fr(1, K)) + (1 - m) * val
    if s.get("clip_thresh"):
        st["t"] = If(lt(0.95, st["t"]), 0.95, st["t"])
    st["p"] = [m * a + (1 - m) * mean([v.D(10 + u)[k] for u in v.U]) for k, a in enumerate(st.get("p", [Fr(1, K)] * K))]
    st["h"] = [m * a + (1 - m) * count([eq(c, k) for c in cls]) * Fr(1, len(cls)) for k, a in enumerate(st.get("h", [Fr(1, K)] * K))]
    conf, ls = [], []
    for u, top, c in zip(v.U, tops, cls):
        share = 0.0
        for k in range(K):
            share = If(eq(c, k), st["p"][k], share)
        conf.append(le(st["t"] * share, top * smaximum(st["p"])))
        ls.append(target_loss(v, s, v.D(10 + u) if s.get("hard_label", True) else v.weak(u), v.P(20 + u)))
    out = sup(v) + s.get("lambda_u", 1.0) * masked(ls, conf)
    if s.get("lambda_e", 0.01):
        assert len(v.U) <= 2
        n = count(conf)
        pred = [first_argmax(v.D(20 + u)) for u in v.U]
        hist = [ratio_(count([And(c, eq(q, k)) for c, q in zip(conf, pred)]), n, len(v.U)) for k in range(K)]
        avg = [ratio_(total([If(c, v.P(20 + u)[k], 0.0) for c, u in zip(conf, v.U)]), n, len(v.U)) for k in range(K)]
        a = [If(lt(0, h), x / If(lt(0, h), h, 1.0), 0.0) for x, h in zip(st["p"], st["h"])]
        b = [If(lt(0, h), x / If(lt(0, h), h, 1.0), 0.0) for x, h in zip(avg, hist)]
        ta, tb = total(a), total(b)
        ent = total([If(And(lt(0, n), lt(0, h)), x / ta * log(If(lt(0, h), y, 1.0) / If(lt(0, n), tb, 1.0)), 0.0) for x, y, h in zip(a, b, hist)])
        out = out + s.get("lambda_e", 0.01) * ent
    return out


def ratio_(x, n, top):
    out = 0.0
    for k in range(1, top + 1):
        out = If(eq(n, k), x * Fr(1, k), out)
    return out


def aligned(v, st, s, uniform):
    K, m = v.K, s["ema_p"]
    st["pm"] = [m * a + (1 - m) * mean([v.D(10 + u)[k] for u in v.U]) for k, a in enumerate(st.get("pm", [Fr(1, K)] * K))]
    if uniform:
        st["pt"] = [Fr(1, K)] * K
    else:
        st["pt"] = [m * a + (1 - m) * mean([v.D(i)[k] for i in v.L]) for k, a in enumerate(st.get("pt", [Fr(1, K)] * K))]
    out = []
    for u in v.U:
        q = [w * t / p for w, t, p in zip(v.D(10 + u), st["pt"], st["pm"])]
        out.append([x / total(q) for x in q])
    return out


def o_adamatch(v, st):
    s = v.cfg["spec"]
    A = aligned(v, st, s, False)
    thr = mean([smaximum(v.D(i)) for i in v.L]) * s["p_cutoff"]
    conf = [le(thr, smaximum(a)) for a in A]
    ls = [target_loss(v, s, a, v.P(20 + u)) for u, a in zip(v.U, A)]
    return sup(v) + s.get("lambda_u", 1.0) * masked(ls, conf)


def o_softmatch(v, st):
    s = v.cfg["spec"]
    K, m = v.K, s["ema_p"]
    A = aligned(v, st, s, s.get("dist_uniform", True)) if s["dist_align"] else [v.D(10 + u) for u in v.U]
    tops, cls = [smaximum(a) for a in A], [first_argmax(a) for a in A]

    def moments(xs):
        a = mean(xs)
        return a, total([(x - a) * (x - a) for x in xs]) * Fr(1, len(xs) - 1) if len(xs) > 1 else 0.0

    if not s.get("per_class"):
        a, b = moments(tops)
        st["mu"] = m * st.get("mu", Fr(1, K)) + (1 - m) * a
        st["var"] = m * st.get("var", 1.0) + (1 - m) * b
        mus, vrs = [st["mu"]] * len(tops), [st["var"]] * len(tops)
    else:
        mu, vr = st.get("mu", [Fr(1, K)] * K), st.get("var", [1.0] * K)
        a, b = moments(tops)
        assert len(tops) <= 2
        new_m, new_v = [], []
        for k in range(K):
            both = And(*[eq(c, k) for c in cls]) if len(tops) > 1 else False
            new_m.append(m * mu[k] + (1 - m) * If(both, a, 0.0))
            new_v.append(m * vr[k] + (1 - m) * If(both, b, 1.0))
        st["mu"], st["var"] = new_m, new_v
        mus = [pick(new_m, c) for c in cls]
        vrs = [pick(new_v, c) for c in cls]
    w = []
    for t, a, b in zip(tops, mus, vrs):
        d = If(lt(t, a), t - a, 0.0)
        w.append(exp(-(d * d) / (2 * b / (s.get("n_sigma", 2) ** 2))))
    ls = [target_loss(v, s, v.D(10 + u), v.P(20 + u)) for u in v.U]
    n = total(w)
    return sup(v) + s.get("lambda_u", 1.0) * total([a * b for a, b in zip(ls, w)]) / If(lt(n, 1), 1.0, n)


def pick(xs, k):
    out = xs[0]
    for i in range(1, len(xs)):
        out = If(eq(k, i), xs[i], out)
    return out


def o_uda(v, st):
    s = v.cfg["spec"]
    n, c = v.cfg.get("total", 1), v.K
    sch = s.get("tsa_schedule", "none")
    per = [ce(v.P(i), v.y[i]) for i in v.L]
    if sch != "none":
        t = v.t / n
        a = {"linear": t, "exp": math.exp((t - 1) * 5), "log": 1 - math.exp(-t * 5)}[sch]
        thr = a * (1 - 1 / c) + 1 / c
        keep = []
        for i in v.L:
            pt = v.D(i)[0]
            for k in range(1, c):
                pt = If(eq(v.y[i], k), v.D(i)[k], pt)
            keep.append(lt(pt, thr))
        per = [If(k, x, 0.0) for k, x in zip(keep, per)]
    ls, conf = [], []
    for u in v.U:
        q = sharpen(v.D(10 + u), s["temperature"])
        conf.append(le(s["p_cutoff"], smaximum(q)))
        q = sharpen(v.weak(u), s["temperature"])
        ls.append(total([a * (log(a) - log(b)) for a, b in zip(q, v.P(20 + u))]))
    return mean(per) + s.get("lambda_u", 1.0) * masked(ls, conf)


def o_noisy(v, st):
    s = v.cfg["spec"]
    ls, conf = [], []
    for u in v.U:
        q = sharpen(v.D(10 + u, "t", "e"), s["temperature"])
        ls.append(ce(v.P(20 + u), first_argmax(q)) if s.get("hard_label", True) else soft_ce(q, v.P(20 + u)))
        conf.append(le(s["p_cutoff"], smaximum(q)))
    return sup(v) + s.get("lambda_u", 1.0) * warm(v, s) * masked(ls, conf)


def warm(v, s):
    f, n = s.get("unsup_warm_up", 0.0), v.cfg.get("total", 1)
    if f <= 0:
        return 1.0
    k = int(max(1, round(f * n)))
    return min(v.t / k, 1.0)


def mse(a, b):
    return [(x - y) * (x - y) for x, y in zip(a, b)]


def o_meanteacher(v, st):
    s = v.cfg["spec"]
    d = [e for u in v.U for e in mse(v.P(20 + u), v.D(10 + u, "t"))]
    return sup(v) + s.get("lambda_u", 1.0) * warm(v, s) * mean(d)


def o_pimodel(v, st):
    s = v.cfg["spec"]
    d = [e for u in v.U for e in mse(v.P(20 + u), v.D(10 + u) if s.get("detach_target", True) else v.P(10 + u))]
    return sup(v) + s.get("lambda_u", 1.0) * warm(v, s) * mean(d)


def o_temporal(v, st):
    s = v.cfg["spec"]
    K, a, per = v.K, s["alpha"], v.cfg["per"]
    epoch = v.t // per
    n = v.cfg.get("nu", 2)
    Z = st.setdefault("Z", [[[0.0] * K for _ in range(n)]])   # one table per finished epoch
    if v.t % per == 0:
        st["now"] = [[0.0] * K for _ in range(n)]
    z = Z[epoch]
    d = []
    for u in v.U:
        p = [(x + y) * Fr(1, 2) for x, y in zip(v.P(10 + u), v.P(20 + u))]
        t = [x / (1 - a ** epoch) if epoch else 0.0 for x in z[u]]
        d += mse(p, t)
        st["now"][u] = [(x + y) * Fr(1, 2) for x, y in zip(v.D(10 + u), v.D(20 + u))]
    if v.t % per == per - 1:
        Z.append([[a * x + (1 - a) * y for x, y in zip(r, q)] for r, q in zip(z, st["now"])])
    return sup(v) + s.get("lambda_u", 1.0) * warm(v, s) * mean(d)


def o_mixmatch(v, st):
    s, K = v.cfg["spec"], v.K
    M = v.w.mixed[v.step]
    base = [[1.0 if v.y[i] == k else 0.0 for k in range(K)] if isinstance(v.y[i], int) else [If(eq(v.y[i], k), 1.0, 0.0) for k in range(K)] for i in v.L]
    t = []
    for u in v.U:
        t.append(sharpen([(a + b) * Fr(1, 2) for a, b in zip(v.D(10 + u), v.D(20 + u))], s.get("temperature", 0.5)))
    base += t + t
    n_l, n_u = v.cfg["nl"], v.cfg["nu"]
    order = v.L + [n_l + u for u in v.U] + [n_l + n_u + u for u in v.U]
    T_ = [[total([m[order[j]] * base[j][k] for j in range(len(base))]) for k in range(K)] for m in M]
    k_ = len(v.L)
    sup_ = mean([soft_ce(q, v.P(100 + i)) for i, q in enumerate(T_[:k_])])
    uns = mean([e for i, q in enumerate(T_[k_:]) for e in mse(v.P(100 + k_ + i), q)])
    return sup_ + s.get("lambda_u", 1.0) * warm(v, s) * uns


FIX, DEF, FLEX, FREE = ("fixmatch", "FixMatch"), ("defixmatch", "DeFixMatch"), ("flexmatch", "FlexMatch"), ("free_match", "FreeMatch")
ADA, UDA, NOISY, MEAN = ("adamatch", "AdaMatch"), ("uda", "UDA"), ("noisy_student", "NoisyStudent"), ("mean_teacher", "MeanTeacher")
def o_vat(v, st):
    s = v.cfg["spec"]
    n = s.get("num_iters", 1) + 1
    kl = []
    for u in v.U:
        p = v.D(10 + u) if s.get("detach_target", True) else v.P(10 + u)
        q = v.P(100 * n + 10 + u)
        kl.append(total([a * (log(a) - log(b)) for a, b in zip(p, q)]))
    return sup(v) + s.get("lambda_u", 1.0) * warm(v, s) * mean(kl)


MIX, VAT = ("mixmatch", "MixMatch"), ("vat", "VAT")
PI, TEMP, SOFT = ("pi_model", "PiModel"), ("temporal_ensembling", "TemporalEnsembling"), ("softmatch", "SoftMatch")
def o_adsh(v, st):
    """Thresholds per class, renewed at the start of every epoch after the warm-up from what the network then makes of all weak views."""
    s, K, cut = v.cfg["spec"], v.K, v.cfg["spec"]["p_cutoff"]
    score = st.setdefault("score", [cut] * K)
    per = v.cfg.get("per", 1)
    if v.t % per == 0 and v.t // per >= s.get("score_warmup_epochs", 2):
        major = s.get("majority_class")
        if major is None:
            ns = [count([eq(y, k) for y in v.y]) for k in range(K)]
            major = first_argmax(ns)
        rows = [v.D(10 + u, mode="e") for u in range(v.cfg.get("nu", 2))]
        cls, top = [first_argmax(r) for r in rows], [smaximum(r) for r in rows]
        n = len(rows)
        size = [count([eq(c, k) for c in cls]) for k in range(K)]
        msize = pick(size, major)
        good = count([And(eq(c, major), lec(cut, t, 0)) for c, t in zip(cls, top)])
        for k in range(K):
            new = score[k]
            for m in range(1, n + 1):
                vals = []   # the class's confidences, highest first
                for r in range(m):
                    x = 0.0
                    for i, t in enumerate(top):
                        rank = count([And(eq(c, k), Or(lt(t, o), And(eq(t, o), j < i))) for j, (c, o) in enumerate(zip(cls, top)) if j != i])
                        x = If(And(eq(cls[i], k), eq(rank, r)), t, x)
                    vals.append(x)
                at = vals[m - 1]
                for ms in range(1, n + 1):
                    for g in range(1, ms + 1):
                        i = min(max(round(m * g / ms - 1.0), 0), m - 1)
                        at = If(And(eq(msize, ms), eq(good, g)), vals[i], at)
                new = If(eq(size[k], m), If(lt(at, cut), at, cut), new)
            score[k] = If(eq(major, k), cut, new)
    ls = []
    for u in v.U:
        r = [a / b for a, b in zip(v.weak(u), score)]
        ls.append(If(le(1, smaximum(r)), ce(v.P(20 + u), first_argmax(r)), 0.0))
    return sup(v) + s.get("lambda_u", 1.0) * mean(ls)


def o_mpl(v, st):
    """Student: the teacher's soft labels. Teacher: labels, consistency, and the entropy weighted by how the student's update fared."""
    s, K = v.cfg["spec"], v.K
    if v.part == 0:
        return mean([soft_ce(v.D(20 + u, "t"), v.P(20 + u)) for u in v.U])
    q, off = s.get("label_smoothing", 0.1), 30 if v.cfg.get("strong") else 0
    out = mean([(1 - q) * ce(v.P(off + i, "t"), v.y[i]) + q * mean([-log(x) for x in v.P(off + i, "t")]) for i in v.L])
    weak = [sharpen(v.D(10 + u, "t"), s.get("uda_temperature", 0.4)) for u in v.U]
    tgt = weak if s.get("detach_target", True) else [sharpen(v.P(10 + u, "t"), s["uda_temperature"]) for u in v.U]
    conf = [le(s.get("uda_threshold", 0.8), smaximum(a)) for a in weak]
    out = out + s.get("uda_weight", 1.0) * masked([soft_ce(a, v.P(20 + u, "t")) for a, u in zip(tgt, v.U)], conf)
    dot = mean([ce(v.D(i, later=1), v.y[i]) for i in v.L]) - mean([ce(v.D(i), v.y[i]) for i in v.L])
    m = s.get("mpl_ema", 0.99)
    st["ma"] = m * st.get("ma", 0.0) + (1 - m) * dot
    return out + s.get("mpl_weight", 1.0) * mean([soft_ce(v.P(20 + u, "t"), v.P(20 + u, "t")) for u in v.U]) * (dot - st["ma"])


ORACLE = {"adsh": o_adsh, "meta_pseudo_labels": o_mpl, "fixmatch": o_fixmatch, "defixmatch": o_defixmatch, "flexmatch": o_flexmatch, "free_match": o_freematch, "adamatch": o_adamatch,
          "uda": o_uda, "noisy_student": o_noisy, "mean_teacher": o_meanteacher, "pi_model": o_pimodel, "temporal_ensembling": o_temporal, "softmatch": o_softmatch, "mixmatch": o_mixmatch, "vat": o_vat}

FIXES = [
    dict(m=FIX, K=3, spec=dict(p_cutoff=0.6, lambda_u=2.0)),
    dict(m=FIX, K=3, spec=dict(p_cutoff=0.6, lambda_u=0.5, use_cat=True)),
    dict(m=FIX, K=2, spec=dict(p_cutoff=0.7, hard_label=False, temperature=0.5)),
    dict(m=FIX, K=2, nl=1, spec=dict(p_cutoff=0.7, hard_label=False, temperature=1.0, use_cat=True, detach_target=False)),
    dict(m=FIX, K=2, nl=1, nu=2, b=1, epochs=1, spec=dict(p_cutoff=0.7)),
    dict(m=FIX, K=2, nl=1, spec=dict(p_cutoff=0.7, hard_label=False, temperature=1.0, use_cat=True)),
    dict(m=FIX, K=2, nl=1, nu=1, spec=dict(p_cutoff=0.7, hard_label=False, temperature=0.5, detach_target=False)),
    dict(m=DEF, K=2, nl=1, nu=1, spec=dict(p_cutoff=0.7, use_cat=True, hard_label=False, temperature=1.0, detach_target=False)),
    dict(m=DEF, K=3, nl=1, nu=1, spec=dict(p_cutoff=0.7, hard_label=False, temperature=0.5)),
    dict(m=UDA, K=2, nl=1, nu=1, spec=dict(p_cutoff=0.7, temperature=1.0, use_cat=True, detach_target=False)),
    dict(m=DEF, K=2, nl=2, spec=dict(p_cutoff=0.7, lambda_u=2.0)),
    dict(m=DEF, K=2, nl=2, spec=dict(p_cutoff=0.7, lambda_u=2.0, use_cat=True, hard_label=False, temperature=1.0)),
    dict(m=UDA, K=2, spec=dict(p_cutoff=0.7, temperature=1.0, lambda_u=2.0)),
    dict(m=UDA, K=2, nl=1, spec=dict(p_cutoff=0.7, temperature=0.5, use_cat=True)),
    dict(m=UDA, K=2, nl=2, nu=1, epochs=2, total=2, spec=dict(p_cutoff=0.7, temperature=1.0, tsa_schedule="linear")),
    dict(m=UDA, K=3, nl=1, nu=1, epochs=2, total=2, spec=dict(p_cutoff=0.7, temperature=1.0, tsa_schedule="exp")),
    dict(m=UDA, K=2, nl=1, nu=1, epochs=2, total=2, spec=dict(p_cutoff=0.7, temperature=1.0, tsa_schedule="log")),
    dict(m=NOISY, K=2, ema=True, spec=dict(p_cutoff=0.7, temperature=1.0, teacher_epochs=0, lambda_u=2.0)),
    dict(m=NOISY, K=2, nl=1, epochs=2, total=2, spec=dict(p_cutoff=0.7, temperature=1.0, teacher_epochs=0, hard_label=False, unsup_warm_up=1.0)),
    dict(m=NOISY, K=2, nl=1, spec=dict(p_cutoff=0.7, temperature=0.5, teacher_epochs=0, use_cat=True, freeze_bn=False)),
]


def free_of_outputs(d, pairs, K):
    """The difference of the two losses is the same whatever the differentiable outputs are."""
    import z3

    from symx.cases import by_cases
    from symx.poly import Canon

    P = {a.get_id() for a, _ in pairs}
    u = [(a, z3.RealVal(1) / K) for a, _ in pairs]

    exact = Canon(Ctx.cur.data["box"], Ctx.cur.data["last"])

    def leaf(t, path):
        if exact.zero(t - z3.substitute(t, u)):
            return True
        r = z3.simplify(t - z3.substitute(t, u), som=True)
        return z3.And(r <= z3.RealVal("0.0001"), r >= z3.RealVal("-0.0001"))

    tried = []

    def probe():
        """Few concrete outputs, decided by the solver with everything else left open, before the general question."""
        if tried:
            return
        tried.append(1)
        ctx, rnd = Ctx.cur, random.Random(7)
        gap = d - z3.substitute(d, u)
        neg = z3.Or(gap > z3.RealVal("0.01"), gap < z3.RealVal("-0.01"))
        rows = sorted(sorted(x) for x in ctx.data.get("units", ()))
        ctx.need(neg)
        known = list(ctx.solver.assertions())
        t_end = time.time() + 3.0
        for _ in range(24):
            pins = []
            for names in rows:
                ns = PROBES[len(names)][:]
                vals = rnd.choice(ns)
                vals = rnd.sample(vals, len(vals))
                pins += [z3.Real(n) == z3.Q(v, 8) for n, v in zip(names, vals)]
            fixed = [(p.arg(0), p.arg(1)) for p in pins]
            q = z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()
            q.set("timeout", 700)
            q.add([z3.simplify(z3.substitute(f, fixed)) for f in known + [neg]])
            ctx.stats.queries += 1
            if q.check() == z3.sat:
                raise Probed(z3.Implies(z3.And(*pins), z3.Not(neg)))
            if time.time() > t_end:
                return

    try:
        res = by_cases(d, leaf, done=lambda ids: not (P & ids), probe=probe if K in PROBES else lambda: None)
    except Probed as exc:
        res = [exc.args[0]]
    return And(*[SymBool(r) for r in res]) if res else True


class Probed(Exception):
    pass


PROBES = {2: [[1, 7], [2, 6], [4, 4], [1, 7]], 3: [[6, 1, 1], [4, 2, 2], [4, 3, 1], [6, 1, 1]]}



def gradient_of(C, I, cfg, y, what):
    """The loss handed to backward differs from the oracle by nothing the network's outputs influence."""
    w = run(I, cfg, "p", y)
    worlds = [w] if Ctx.cur is not None else [w, run(I, cfg, "d", y, like=w)]
    for w in worlds:
        n = w.steps_done
        C.require("every step clears the gradients, differentiates one loss and updates once", w.order == ["zero", "backward", "step"] * n and n > 0)
        orc, st = ORACLE[cfg["m"][0]], {}
        two = 2 if cfg["m"][0] == "meta_pseudo_labels" else 1
        for now in range(n):
            step, part = now - now % two, now % two
            if step in w.starts:   # nothing learnt by an earlier fit is left
                st = {}
            if Ctx.cur is not None:
                from symx.core import to_real_expr

                v = View(w, step, w.P, cfg, y, part)
                pairing(C, v, cfg)
                o = orc(v, st)
                d = to_real_expr(w.losses[now]) - to_real_expr(o)
                C.require(what, free_of_outputs(d, w.pairs, cfg["K"]))
            else:
                v = View(w, step, w.P if w.use == "p" else w.D, cfg, y, part)
                pairing(C, v, cfg)
                base = dict(w.rows)
                snap = copy.deepcopy(st)

                def at(rows):
                    get = lambda k: rows[k] if k in rows else (w.P(k) if w.use == "p" else w.D(k))
                    return orc(View(w, step, get, cfg, y, part), copy.deepcopy(snap))

                ok = True
                for key, g in w.grads[now].items():
                    if key[1] != step:
                        ok = ok and all(abs(x) < 1e-6 for x in g)
                        continue
                    p0 = w.P(key) if w.use == "p" else w.D(key)
                    for k in range(cfg["K"]):
                        h, vals = 1e-4, []
                        for sgn in (1, -1):
                            e = [x * math.exp(sgn * h) if j == k else x for j, x in enumerate(p0)]
                            s_ = sum(e)
                            vals.append(at({key: [x / s_ for x in e]}))
                        num = (vals[0] - vals[1]) / (2 * h)
                        ok = ok and abs(num - g[k]) <= 1e-3 * (1 + abs(num))
                C.require(what, ok)
                orc(v, st)
                del base


def pairing(C, v, cfg):
    if v.w.adv:
        return
    strong = sorted({i - 20 for _, _, ii in v.seen for i in ii if 20 <= i < 30})
    C.require("both views of the same unlabelled samples are used", strong == v.U)
    for _, _, ii in v.seen:
        w = [i - 10 for i in ii if 10 <= i < 20]
        s = [i - 20 for i in ii if 20 <= i < 30]
        C.require("views are paired row by row", not (w and s) or w == s)


MODS = BASE + tuple(M + m for m in ("fixmatch", "defixmatch", "flexmatch", "free_match", "adamatch", "uda", "noisy_student", "mean_teacher",
                                    "pi_model", "temporal_ensembling", "softmatch", "mixmatch", "vat", "adsh",
                                    "meta_pseudo_labels"))


def labels(I, cfg):
    n = cfg.get("nl", 2)
    y = [I.int(f"y{i}", 0, cfg["K"] - 1) for i in range(n)]
    return y


@harness("L02", modules=MODS, nl=True, compact=True, **CTX, cfgs=FIXES,
         bounds="1-2 labelled and 1-2 unlabelled samples, 2-3 classes, 1-2 steps; every label, every network output with class "
                "probabilities in [0.02, 0.96]")
def pseudo_label_losses(I, cfg, C):
    y = labels(I, cfg)
    gradient_of(C, I, cfg, y, "the optimiser follows the gradient of the documented loss")


ADAPT = [
    dict(m=FLEX, K=2, nl=1, nu=1, epochs=2, spec=dict(p_cutoff=0.7, lambda_u=2.0)),
    dict(m=FLEX, K=2, nl=1, nu=1, epochs=3, spec=dict(p_cutoff=0.7, thresh_warmup=False)),
    dict(m=FLEX, K=2, nl=1, nu=2, b=1, epochs=1, spec=dict(p_cutoff=0.7, hard_label=False, temperature=1.0, use_cat=True)),
    dict(m=FLEX, K=3, nl=1, nu=1, epochs=2, spec=dict(p_cutoff=0.6)),
    dict(m=FLEX, K=2, nl=1, nu=2, epochs=1, spec=dict(p_cutoff=0.7)),
    dict(m=FREE, K=2, nl=1, nu=2, epochs=1, spec=dict(lambda_e=0.0, ema_p=0.5, lambda_u=2.0)),
    dict(m=FREE, K=2, nl=1, nu=1, epochs=2, spec=dict(lambda_e=0.0, ema_p=0.5, use_quantile=False, clip_thresh=True)),
    dict(m=FREE, K=2, nl=1, nu=2, epochs=1, spec=dict(lambda_e=0.0, ema_p=0.75, use_quantile=False, hard_label=False, temperature=1.0, use_cat=True)),
    dict(m=FREE, K=2, nl=1, nu=1, epochs=1, spec=dict(lambda_e=0.5, ema_p=0.5, use_quantile=False)),
    dict(m=FREE, K=2, nl=1, nu=2, epochs=1, spec=dict(lambda_e=0.5, ema_p=0.5, use_quantile=False)),
    dict(m=FLEX, K=2, nl=1, nu=1, epochs=1, spec=dict(p_cutoff=0.7, hard_label=False, temperature=1.0, use_cat=True, detach_target=False)),
    dict(m=FLEX, K=2, nl=1, nu=2, b=1, idx=[1, 1], epochs=2, spec=dict(p_cutoff=0.7, temperature=1.0)),
    dict(m=FREE, K=2, nl=1, nu=1, epochs=1, spec=dict(lambda_e=0.0, ema_p=0.5, use_quantile=False, hard_label=False, temperature=1.0, use_cat=True, detach_target=False)),
    dict(m=ADA, K=2, nl=1, nu=1, epochs=1, spec=dict(p_cutoff=0.75, ema_p=0.5, hard_label=False, temperature=1.0, use_cat=True)),
    dict(m=SOFT, K=2, nl=1, nu=1, epochs=1, spec=dict(ema_p=0.5, dist_align=False, hard_label=False, temperature=1.0, use_cat=True)),
    dict(m=SOFT, K=2, nl=1, nu=1, epochs=1, spec=dict(ema_p=0.5, dist_align=False, hard_label=False, temperature=0.5)),
    dict(m=ADA, K=2, nl=1, nu=2, epochs=1, spec=dict(p_cutoff=0.75, ema_p=0.5, lambda_u=2.0, temperature=1.0)),
    dict(m=ADA, K=2, nl=1, nu=1, epochs=2, spec=dict(p_cutoff=0.75, ema_p=0.5, use_cat=True)),
    dict(m=ADA, K=2, nl=2, nu=1, epochs=1, spec=dict(p_cutoff=0.75, ema_p=0.5, hard_label=False, temperature=1.0)),
    dict(m=SOFT, K=2, nl=1, nu=2, epochs=1, spec=dict(ema_p=0.5, lambda_u=2.0, dist_align=False)),
    dict(m=SOFT, K=2, nl=1, nu=2, epochs=1, spec=dict(ema_p=0.5, dist_align=False, per_class=True)),
    dict(m=SOFT, K=2, nl=1, nu=1, epochs=1, spec=dict(ema_p=0.5, dist_align=True, dist_uniform=True, temperature=1.0)),
    dict(m=SOFT, K=2, nl=1, nu=1, epochs=1, spec=dict(ema_p=0.5, dist_align=True, dist_uniform=False, hard_label=False, temperature=1.0)),
    dict(m=SOFT, K=2, nl=1, nu=1, epochs=2, spec=dict(ema_p=0.5, dist_align=False, temperature=1.0)),
]


@harness("L02", modules=MODS, nl=True, compact=True, **CTX, cfgs=ADAPT,
         bounds="1-2 labelled and 1-2 unlabelled samples, 2-3 classes, 1-3 steps; every label, every network output with class "
                "probabilities in [0.02, 0.96]")
def adaptive_losses(I, cfg, C):
    y = labels(I, cfg)
    gradient_of(C, I, cfg, y, "the optimiser follows the gradient of the documented loss")


ADSH_, MPL = ("adsh", "ADSH"), ("meta_pseudo_labels", "MetaPseudoLabels")
META = [
    dict(m=ADSH_, K=2, nl=1, nu=2, epochs=1, spec=dict(p_cutoff=0.7, score_warmup_epochs=2, lambda_u=2.0)),
    dict(m=ADSH_, K=2, nl=1, nu=2, epochs=1, spec=dict(p_cutoff=0.7, score_warmup_epochs=0, majority_class=0)),
    dict(m=ADSH_, K=2, nl=1, nu=1, epochs=2, spec=dict(p_cutoff=0.7, score_warmup_epochs=1, use_cat=True)),
    dict(m=ADSH_, K=3, nl=1, nu=1, epochs=1, spec=dict(p_cutoff=0.7, score_warmup_epochs=0, majority_class=2)),
    dict(m=ADSH_, K=2, nl=1, nu=2, epochs=1, spec=dict(p_cutoff=0.7, score_warmup_epochs=0)),
    dict(m=ADSH_, K=2, nl=1, nu=2, b=1, epochs=1, per=2, spec=dict(p_cutoff=0.7, score_warmup_epochs=0, majority_class=1)),
    dict(m=MPL, K=2, nl=1, nu=1, epochs=1, spec=dict(uda_temperature=1.0, uda_threshold=0.6, label_smoothing=0.25, mpl_ema=0.5)),
    dict(m=MPL, K=2, nl=1, nu=1, epochs=2, spec=dict(uda_temperature=1.0, uda_threshold=0.6, label_smoothing=0.0, mpl_ema=0.5, mpl_weight=2.0)),
    dict(m=MPL, K=2, nl=2, nu=1, epochs=1, strong=True, spec=dict(uda_temperature=0.5, uda_threshold=0.6, label_smoothing=0.5, uda_weight=2.0, mpl_weight=0.0)),
    dict(m=MPL, K=2, nl=1, nu=2, epochs=1, spec=dict(uda_temperature=1.0, uda_threshold=0.6, label_smoothing=0.0, mpl_ema=0.0, mpl_weight=0.0)),
]


@harness("L05", modules=MODS, nl=True, compact=True, **CTX, cfgs=META,
         thorough=[dict(m=ADSH_, K=2, nl=1, nu=3, epochs=1, spec=dict(p_cutoff=0.7, score_warmup_epochs=0, majority_class=0)),
                   dict(m=ADSH_, K=3, nl=2, nu=2, epochs=1, spec=dict(p_cutoff=0.7, score_warmup_epochs=0)),
                   dict(m=MPL, K=3, nl=1, nu=1, epochs=2, spec=dict(uda_temperature=1.0, uda_threshold=0.6, label_smoothing=0.25, mpl_ema=0.5))],
         bounds="1-2 labelled and 1-2 unlabelled samples, 2-3 classes, 1-2 steps (of each network); every label, every network output with "
                "class probabilities in [0.02, 0.96]")
def meta_losses(I, cfg, C):
    y = labels(I, cfg)
    gradient_of(C, I, cfg, y, "the optimisers follow the gradient of the documented losses")


CONSIST = [
    dict(m=MEAN, K=2, ema=True, nl=2, nu=2, spec=dict(lambda_u=2.0, ema_decay=0.75, unsup_warm_up=0.0)),
    dict(m=MEAN, K=3, ema=True, nl=1, nu=1, epochs=3, total=3, spec=dict(lambda_u=2.0, ema_decay=0.5, unsup_warm_up=0.6)),
    dict(m=PI, K=2, nl=2, nu=2, spec=dict(lambda_u=2.0, unsup_warm_up=0.0)),
    dict(m=PI, K=2, nl=1, nu=2, b=1, epochs=2, total=4, spec=dict(lambda_u=2.0, detach_target=False, unsup_warm_up=0.5)),
    dict(m=MEAN, K=2, ema=True, nl=1, nu=1, spec=dict(lambda_u=2.0, ema_decay=0.5, unsup_warm_up=0.0, detach_target=False)),
    dict(m=TEMP, K=2, nl=1, nu=1, epochs=2, per=1, total=2, spec=dict(lambda_u=2.0, alpha=0.5, unsup_warm_up=0.0, detach_target=False)),
    dict(m=TEMP, K=2, nl=1, nu=2, epochs=3, per=1, total=3, spec=dict(lambda_u=2.0, alpha=0.5, unsup_warm_up=0.0)),
    dict(m=TEMP, K=2, nl=1, nu=2, b=1, epochs=2, per=2, total=4, spec=dict(lambda_u=2.0, alpha=0.75, unsup_warm_up=0.5)),
]


@harness("L04", modules=MODS, nl=True, compact=True, **CTX, cfgs=CONSIST,
         bounds="1-2 labelled and 1-2 unlabelled samples, 2-3 classes, 1-4 steps; every label, every network output with class "
                "probabilities in [0.02, 0.96]")
def consistency_losses(I, cfg, C):
    y = labels(I, cfg)
    gradient_of(C, I, cfg, y, "the optimiser follows the gradient of the documented loss")


@harness("L04", modules=MODS, nl=True, compact=True, **CTX,
         cfgs=[dict(m=MEAN, K=2, ema=True, nl=1, nu=nu, b=1, epochs=e, free_updates=True, spec=dict(ema_decay=d)) for nu, e, d in ((2, 1, 0.75), (1, 3, 0.5), (1, 2, 0.0), (1, 2, 1.0))],
         bounds="2-3 steps, any optimiser update")
def teacher_average(I, cfg, C):
    """The teacher starts as the student and follows the documented running average of it, never the other way round."""
    w = run(I, cfg, "p", labels(I, cfg))
    d = cfg["spec"]["ema_decay"]
    s, t = [1.0, -2.0], [1.0, -2.0]
    for up in w.ups:
        s = [x + up for x in s]
        t = [d * a + (1 - d) * b for a, b in zip(t, s)]
    C.require("one update per step", len(w.ups) == w.steps_done == cfg["epochs"] * max(cfg["nu"], 1))
    C.require("the student moves only with the optimiser", And(*[close(a, b, 1e-6) for a, b in zip(flat(nested(w.params["s"][0].detach())), s)]))
    C.require("the teacher is the running average of the student", And(*[close(a, b, 1e-6) for a, b in zip(flat(nested(w.params["t"][0].detach())), t)]))


MIXES = [
    dict(m=MIX, K=2, nl=1, nu=1, spec=dict(lambda_u=2.0, unsup_warm_up=0.0, temperature=1.0)),
    dict(m=MIX, K=2, nl=1, nu=1, spec=dict(lambda_u=2.0, unsup_warm_up=0.0, temperature=0.5, mixup_alpha=0.0)),
    dict(m=MIX, K=3, nl=1, nu=1, epochs=2, total=2, spec=dict(lambda_u=2.0, unsup_warm_up=1.0, temperature=1.0, mixup_alpha=0.0)),
    dict(m=MIX, K=2, nl=1, nu=2, b=1, total=2, spec=dict(lambda_u=3.0, unsup_warm_up=1.0, temperature=1.0, mixup_alpha=0.75)),
]


@harness("L04", modules=MODS, nl=True, compact=True, **CTX, cfgs=MIXES,
         bounds="1-2 labelled and 1 unlabelled sample in two views, 2-3 classes, 1-2 steps; every label, every network output with class "
                "probabilities in [0.02, 0.96], every mixing weight and permutation")
def mixed_losses(I, cfg, C):
    """MixMatch: inputs and targets are mixed alike, each sample outweighing its partner."""
    y = labels(I, cfg)
    gradient_of(C, I, cfg, y, "the optimiser follows the gradient of the documented loss")
    for M in World.cur.mixed:
        n = len(M)
        ok = []
        rest = cfg["nl"] + 2 * cfg["nu"]
        own = [j for j in range(rest)]
        for r in M:
            ok.append(close(total(r), 1, 1e-6))
            ok += [lec(0, x) for x in r]
            ok.append(lec(Fr(1, 2), smaximum(r)))
            ok.append(lec(count([lt(1e-9, x) for x in r]), 2))
        ok += [lec(Fr(1, 2), smaximum(r[:cfg["nl"]])) for r in M[:cfg["nl"]]]
        ok += [lec(Fr(1, 2), smaximum(r[cfg["nl"]:])) for r in M[cfg["nl"]:]]
        if n == len(own):   # one full batch: every sample leads one row
            ok += [Or(*[lec(Fr(1, 2), M[i][j]) for i in range(n)]) for j in own]
        C.require("each mixed row is led by a sample of its own and joined by at most one other", And(*ok))


ADVERSE = [
    dict(m=VAT, K=2, nl=1, nu=1, spec=dict(lambda_u=2.0, unsup_warm_up=0.0, eps=2.0)),
    dict(m=VAT, K=3, nl=1, nu=2, spec=dict(lambda_u=2.0, unsup_warm_up=0.0, eps=0.5, detach_target=False)),
    dict(m=VAT, K=2, nl=1, nu=1, epochs=2, total=2, spec=dict(lambda_u=2.0, unsup_warm_up=1.0, eps=2.0, num_iters=2)),
]


@harness("L04", modules=MODS, nl=True, compact=True, **CTX, cfgs=ADVERSE,
         bounds="1-2 labelled and 1-2 unlabelled samples, 2-3 classes, 1-2 steps; every label, every network output with class "
                "probabilities in [0.02, 0.96], every perturbation gradient")
def adversarial_losses(I, cfg, C):
    """VAT: divergence from the clean prediction, at a perturbation of the requested length for every sample."""
    y = labels(I, cfg)
    gradient_of(C, I, cfg, y, "the optimiser follows the gradient of the documented loss")
    w, s = World.cur, cfg["spec"]
    last = s.get("num_iters", 1) + 2
    sizes = [(n, total([x * x for x in r])) for _, n, rows in w.inputs for r in rows]
    C.require("the final perturbation has length eps", And(*[close(q, s["eps"] ** 2, 1e-4) for n, q in sizes if n == last]))
    C.require("one perturbed batch per power iteration and one for the loss",
              sorted(n for st, n, _ in w.inputs) == sorted(list(range(2, last + 1)) * w.steps_done))


REFIT = [
    dict(m=FLEX, K=2, nl=1, nu=1, fits=2, spec=dict(p_cutoff=0.7)),
    dict(m=FREE, K=2, nl=1, nu=1, fits=2, spec=dict(lambda_e=0.0, ema_p=0.5, use_quantile=False)),
    dict(m=ADA, K=2, nl=1, nu=1, fits=2, spec=dict(p_cutoff=0.75, ema_p=0.5, temperature=1.0)),
    dict(m=SOFT, K=2, nl=1, nu=1, fits=2, spec=dict(ema_p=0.5, dist_align=False, temperature=1.0)),
    dict(m=SOFT, K=2, nl=1, nu=1, fits=2, spec=dict(ema_p=0.5, dist_align=True, dist_uniform=False, temperature=1.0)),
    dict(m=TEMP, K=2, nl=1, nu=1, epochs=2, per=1, fits=2, spec=dict(alpha=0.5, unsup_warm_up=0.0)),
    dict(m=PI, K=2, nl=1, nu=1, epochs=2, total=2, fits=2, spec=dict(unsup_warm_up=1.0)),
    dict(m=ADSH_, K=2, nl=1, nu=1, fits=2, spec=dict(p_cutoff=0.7, score_warmup_epochs=0, majority_class=0)),
    dict(m=ADSH_, K=2, nl=1, nu=2, fits=2, spec=dict(p_cutoff=0.7, score_warmup_epochs=1, majority_class=0)),
    dict(m=MPL, K=2, nl=1, nu=1, fits=2, spec=dict(uda_temperature=1.0, uda_threshold=0.6, label_smoothing=0.0, mpl_ema=0.5)),
]


@harness("L03", modules=MODS, nl=True, compact=True, **CTX, cfgs=REFIT,
         bounds="two fits of the same method object, 1 labelled and 1 unlabelled sample, 2 classes, 1-2 steps each; every label and network output")
def refits(I, cfg, C):
    y = labels(I, cfg)
    gradient_of(C, I, cfg, y, "a second fit optimises what a first fit would")


SEEDED = [dict(m=m, K=2, nl=2, nu=2, b=1, epochs=e, ema=m in (MEAN, NOISY), per=2, total=4,
               spec={**({"p_cutoff": 0.7} if m in (FIX, DEF, FLEX, ADA, UDA, NOISY, ADSH_) else {}), **extra})
          for m, e, extra in ((FIX, 2, {}), (DEF, 1, {}), (FLEX, 1, {}), (FREE, 1, {"lambda_e": 0.0, "use_quantile": False}), (ADA, 1, {}), (UDA, 1, {"temperature": 1.0}),
                              (NOISY, 1, {"teacher_epochs": 1}), (MEAN, 2, {}), (PI, 2, {}), (TEMP, 2, {}), (SOFT, 1, {}), (MIX, 1, {}), (VAT, 1, {}), (ADSH_, 1, {"score_warmup_epochs": 0, "majority_class": 0}), (MPL, 1, {}))]


@harness("L03", modules=MODS, nl=True, compact=True, **CTX, cfgs=SEEDED,
         bounds="2 labelled and 2 unlabelled samples in batches of 1, 2-4 steps; every seeded and every ambient draw")
def seeded_fits(I, cfg, C):
    """What a fit shows the network depends on the seed alone, not on other draws made in the process."""
    y = [k % cfg["K"] for k in range(cfg["nl"])]
    a = run(I, cfg, "p", y)
    b = run(I, {**cfg, "noise": 2}, "p", y, like=a)
    C.require("the same batches in the same order", a.calls == b.calls)
    C.require("the same mixed inputs", And(*[close(p, q, 1e-9) for p, q in zip(flat(a.mixed), flat(b.mixed))]))
    C.require("the same perturbations", And(*[close(p, q, 1e-9) for p, q in zip(flat([r for _, n, r in a.inputs if n == 2]), flat([r for _, n, r in b.inputs if n == 2]))]))
    many = 4 if cfg["m"] == MPL else 2   # updates in a pass over the data
    for w in (a, b):
        for n in range(0, w.steps_done, many):
            for lo in (0, 10, 20):
                seen = [i for st, nm, m, ii in w.calls if n <= st < n + many and not (cfg["m"] == ADSH_ and m == "e") for i in ii if lo <= i < lo + 10]
                C.require("a pass over the data shows every row equally often", seen.count(lo) == seen.count(lo + 1))


@harness("L01", modules=BASE, nl=True, compact=True, contexts=(TorchPatch,),
         cfgs=[dict(n=n, b=b, steps=s, form=f) for n, b, s, f in ((1, 1, 3, "tensor"), (2, 1, 5, "tensor"), (3, 2, 5, "tensor"), (3, 2, 3, "dict"), (4, 3, 3, "tensor"), (3, 5, 2, "dict"))],
         thorough=[dict(n=n, b=b, steps=s, form=f) for n in (3, 4) for b in (1, 2, 3) for s in (4, 7) for f in ("tensor", "dict")],
         bounds="1-4 rows, batches of 1-5, up to three passes, every shuffle")
def batches(I, cfg, C):
    """Every pass over the data visits each row once; labels and every per-row field travel with their row."""
    h = importlib.import_module(HELP)
    n, b, steps = cfg["n"], cfg["b"], cfg["steps"]
    x = [I.real(f"x{i}", -9, 9) for i in range(n)]
    y = [I.int(f"y{i}", 0, 5) for i in range(n)]
    X, Y = T(arr([[float(i), v] for i, v in enumerate(x)], np.float64)), T(arr(y, np.int64))
    if cfg["form"] == "dict":
        X = {"x": X, "mask": T(arr([10.0 + i for i in range(n)], np.float64)), "note": "kept"}
    out = list(h.cycle_batches(X, Y, batch_size=b, generator=TM().Generator().manual_seed(I.int("seed", 0, 9)), steps=steps))
    C.require("as many batches as asked for", len(out) == steps)
    rows, sizes = [], []
    for bx, by in out:
        t = bx["x"] if cfg["form"] == "dict" else bx
        ii = [r[0] for r in nested(t)]
        ii = [int(v) for v in ii]
        C.require("labels stay with their row", And(*[eq(a, y[i]) for a, i in zip(nested(by), ii)]))
        C.require("features stay with their row", And(*[eq(r[1], x[i]) for r, i in zip(nested(t), ii)]))
        if cfg["form"] == "dict":
            C.require("per-row fields stay with their row, others are passed on",
                      And(*[eq(m, 10.0 + i) for m, i in zip(nested(bx["mask"]), ii)]) if bx["note"] == "kept" else False)
        rows.append(ii)
        sizes.append(len(ii))
    per = -(-n // b)
    C.require("the documented number of batches per pass", h.num_batches(n, b) == per)
    for k in range(0, steps, per):
        got = [i for ii in rows[k:k + per] for i in ii]
        C.require("no row is visited twice in a pass", len(set(got)) == len(got))
        if k + per <= steps:
            C.require("every row is visited in a pass", sorted(got) == list(range(n)))
    C.require("batches are full except at the end of a pass", all(v == b for k, v in enumerate(sizes) if k % per != per - 1) and all(v <= b for v in sizes))


@harness("L01", modules=BASE, nl=True, compact=True, contexts=(TorchPatch,),
         cfgs=[dict(n=n, K=K, p=p) for n, K, p in ((1, 2, 2), (1, 3, 2), (2, 2, 2), (1, 3, 3), (2, 2, 1))],
         bounds="1-2 rows, 2-3 classes, temperatures 1, 1/2, 1/3; every probability row")
def sharpened(I, cfg, C):
    """Sharpening keeps a distribution, its ranking, and the proportions demanded by the temperature."""
    h = importlib.import_module(HELP)
    n, K, p = cfg["n"], cfg["K"], cfg["p"]
    P = [[I.real(f"p{i}_{k}", Fr(1, 50), 1) for k in range(K)] for i in range(n)]
    for r in P:
        I.assume(close(total(r), 1, 1e-6))
    Q = nested(h.sharpen_probs(T(arr(P, np.float64)), temperature=1.0 / p))
    for r, q in zip(P, Q):
        C.require("rows sum to one", close(total(q), 1, 1e-4))
        C.require("no negative weight", And(*[lec(0, v) for v in q]))
        C.require("the ranking is kept", And(*[Implies(lt(r[a], r[b]), lec(q[a], q[b])) for a in range(K) for b in range(K) if a != b]))
        pw = [power(v, p) for v in r]
        C.require("odds are raised to the inverse temperature", And(*[close(q[a] * pw[b], q[b] * pw[a], 1e-4) for a in range(K) for b in range(a)]))


def power(v, n):
    out = v
    for _ in range(n - 1):
        out = out * v
    return out


@harness("L01", modules=BASE, nl=True, compact=True, contexts=(TorchPatch,),
         cfgs=[dict(w=w, sizes=s) for w in ((True, True), (True, False), (False, True), (False, False)) for s in ((2, 3), (1, 2))],
         bounds="two graphs of 1-3 nodes with 2 edges each; every edge, weight and node field")
def joined_graphs(I, cfg, C):
    """Concatenated graphs are their disjoint union, each edge with its own weight, each node with its own fields."""
    h = importlib.import_module(HELP)
    items, want, feats = [], [], []
    off = 0
    for g, (n, weighted) in enumerate(zip(cfg["sizes"], cfg["w"])):
        x = [I.real(f"x{g}_{i}", -5, 5) for i in range(n)]
        e = [[I.int(f"e{g}_{k}_{side}", 0, n - 1) for k in range(2)] for side in range(2)]
        w = [I.real(f"w{g}_{k}", Fr(1, 10), 5) for k in range(2)]
        d = {"x": T(arr([[v] for v in x], np.float64)), "edge_index": T(arr(e, np.int64)), "age": T(arr([100.0 * g + i for i in range(n)], np.float64))}
        if weighted:
            d["edge_weight"] = T(arr(w, np.float64))
        items.append(d)
        want += [(e[0][k] + off, e[1][k] + off, w[k] if weighted else 1.0) for k in range(2)]
        feats += [(v, 100.0 * g + i) for i, v in enumerate(x)]
        off += n
    out = h.concat_data(items)
    ei = nested(out["edge_index"])
    C.require("all edges survive", len(ei[0]) == len(ei[1]) == len(want))
    C.require("edges are shifted to their own nodes", And(*[And(eq(a, p), eq(b, q)) for a, b, (p, q, _) in zip(ei[0], ei[1], want)]))
    if any(cfg["w"]):
        ew = nested(out["edge_weight"])
        C.require("one weight per edge", len(ew) == len(want))
        C.require("each edge keeps its weight", And(*[close(a, r[2], 1e-9) for a, r in zip(ew, want)]))
    else:
        C.require("no weights are invented", "edge_weight" not in out)
    C.require("nodes keep their features and fields", And(*[And(eq(a[0], v), eq(b, f)) for a, b, (v, f) in zip(nested(out["x"]), nested(out["age"]), feats)]))


@harness("L01", modules=BASE, nl=True, compact=True, **CTX,
         cfgs=[dict(n=n, b=b, K=K, train=t, form=f) for n, b, K, t, f in ((3, 1, 2, True, "tensor"), (3, 2, 3, False, "tensor"), (3, 2, 2, True, "dict"), (2, 5, 2, False, "tensor"))],
         bounds="2-3 rows, batches of 1-5, 2-3 classes; every network output")
def batched_predictions(I, cfg, C):
    """Predictions do not depend on the batch size, are made in evaluation mode without gradient, and leave the mode as found."""
    h = importlib.import_module(HELP)
    n, K = cfg["n"], cfg["K"]
    w = World(I, K)
    net = classes()["Net"]("s")
    net.train() if cfg["train"] else net.eval()
    from modssc.inductive.deep import TorchModelBundle

    b = TorchModelBundle(model=net, optimizer=classes()["Opt"](net.parameters()))
    X = ids(0, n)
    X = {"x": X} if cfg["form"] == "dict" else X
    if cfg["form"] == "dict":
        old = type(net).forward
        net.forward = lambda d: old(net, d["x"])
    out = nested(h.predict_proba_from_bundle(b, fitted_backend="torch", X=X, batch_size=cfg["b"]))
    C.require("one row per input", len(out) == n)
    rows = [w.D(("s", 0, "e", i)) if Ctx.cur is not None else w.P(("s", 0, "e", i)) for i in range(n)]
    C.require("each row is the network's own answer for that input in evaluation mode",
              And(*[close(a, b_, 1e-6) for r, q in zip(out, rows) for a, b_ in zip(r, q)]))
    C.require("only evaluation mode is used", all(c[2] == "e" for c in w.calls))
    C.require("each input is shown once", sorted(i for c in w.calls for i in c[3]) == list(range(n)))
    C.require("the training mode is left as found", net.training == cfg["train"])
