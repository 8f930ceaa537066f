"""Random generators whose every draw is an arbitrary value the real generator could return.

A stream is identified by its seed; equal seeds give equal streams (draw by draw), the global and
unseeded generators give a new arbitrary stream every time.  Each draw is logged so that a solver
model can be replayed against the real code with a scripted generator.
"""
from __future__ import annotations

import builtins
import math

import numpy as np

from .core import (Ctx, Sym, SymBool, SymInt, SymReal, is_sym, ite, kind_of, model_value, num_cmp,
                   num_op, to_int_expr, to_real_expr, rv, z3, z_and)

_int, _float = builtins.int, builtins.float


def _seed_key(seed):
    from .arr import SArr, to_real

    if seed is None:
        return None
    if isinstance(seed, SymInt):
        e = z3.simplify(seed.e)
        if z3.is_int_value(e):
            return ("c", e.as_long())
        return ("s", e.sexpr(), seed)
    if isinstance(seed, (list, tuple, np.ndarray)):
        vals = list(seed.tolist() if isinstance(seed, np.ndarray) else seed)
        return ("l",) + tuple(_seed_key(v) for v in vals)
    if isinstance(seed, np.random.SeedSequence):
        return ("ss", _int(seed.entropy), tuple(seed.spawn_key))
    return ("c", _int(seed))


def _key_id(k):
    if k[0] == "s":
        return k[:2]
    if k[0] == "l":
        return ("l",) + tuple(_key_id(x) for x in k[1:])
    if k[0] in ("torch", "tglob"):
        return (k[0], _key_id(k[1]))
    return k


def _key_value(k, model):
    if k[0] == "s":
        return ("c", model_value(k[2], model))
    if k[0] == "l":
        return ("l",) + tuple(_key_value(x, model) for x in k[1:])
    if k[0] in ("torch", "tglob"):
        return (k[0], _key_value(k[1], model))
    return k


def sym_default_rng(seed=None, legacy=False):
    if isinstance(seed, SymGenerator):
        return seed
    if isinstance(seed, np.random.Generator):
        return seed
    ctx = Ctx.cur
    if is_sym(seed) and not isinstance(seed, SymInt):
        raise TypeError("SeedSequence expects int or sequence of ints for entropy")
    if seed is not None and not isinstance(seed, (np.random.SeedSequence, np.random.BitGenerator)):
        vals = seed if isinstance(seed, (list, tuple, np.ndarray)) else [seed]
        for v in vals:
            if isinstance(v, (float, np.floating)):
                raise TypeError("SeedSequence expects int or sequence of ints for entropy")
            if v < 0:
                raise ValueError("expected non-negative integer")
    if isinstance(seed, np.random.BitGenerator):
        key = ("bg", id(seed))
    else:
        key = _seed_key(seed)
    if key is None:
        n = ctx.data["ambient"] = ctx.data.get("ambient", 0) + 1
        key = ("amb", n)
    return SymGenerator(key)


class SymGenerator:
    """Models numpy.random.Generator (the distribution methods ModSSC uses)."""

    def __init__(self, key):
        self.key = key
        self.n = 0

    @property
    def bit_generator(self):
        return self

    # -- memoised draws -------------------------------------------------------
    def _draw(self, kind, desc, make, params=None):
        """desc: hashable description of the parameters; make(name) -> list of scalars."""
        ctx = Ctx.cur
        table = ctx.data.setdefault("rng_streams", {})
        kid = (_key_id(self.key), self.n, kind, desc)
        self.n += 1
        if kid not in table:
            i = len(ctx.rng_log)
            vals = make(f"rng{i}.{kind}")
            table[kid] = vals
            ctx.rng_log.append((self.key, self.n - 1, kind, desc if params is None else params, vals))
        return table[kid]

    def _size(self, size):
        if size is None:
            return None, 1
        if isinstance(size, (tuple, list)):
            shp = tuple(s.__index__() for s in size)
        else:
            shp = (size.__index__(),)
        n = 1
        for s in shp:
            n *= s
        return shp, n

    def _out(self, vals, shp, dt):
        from .arr import mk, new_raw

        if shp is None:
            v = vals[0]
            return v
        raw = new_raw((len(vals),))
        for i, v in enumerate(vals):
            raw[i] = v
        return mk(raw.reshape(shp), dt)

    # -- distributions --------------------------------------------------------
    def random(self, size=None, dtype=np.float64, out=None):
        from .arr import undtype

        shp, n = self._size(size)

        def make(nm):
            ctx = Ctx.cur
            vs = []
            for _ in range(n):
                v = ctx.fresh(nm, "r")
                ctx.add(z3.And(v >= 0, v < 1))
                vs.append(SymReal(v))
            return vs

        return self._out(self._draw("random", (shp,), make), shp, np.dtype(undtype(dtype)))

    random_sample = rand_ = random

    def uniform(self, low=0.0, high=1.0, size=None):
        shp, n = self._size(size)
        if is_sym(low) or is_sym(high):
            # directly a value of [low, high]: keeps the encoding linear
            if num_cmp("<", high, low):
                raise ValueError("high - low < 0")

            def make(nm):
                vs = []
                for _ in range(n):
                    v = Ctx.cur.fresh(nm, "r")
                    Ctx.cur.add(z3.And(v >= to_real_expr(low), v <= to_real_expr(high)))
                    vs.append(SymReal(v))
                return vs

            d = (shp, _dk(low), _dk(high))
            return self._out(self._draw("uniformv", d, make, (shp, low, high)), shp, np.float64)
        u = self._draw("uniform", (shp,), lambda nm: [self._unit(nm) for _ in range(n)])
        if low != 0.0 or high != 1.0:
            vals = [num_op("+", low, num_op("*", num_op("-", high, low), x)) for x in u]
        else:
            vals = u
        return self._out(vals, shp, np.float64)

    @staticmethod
    def _unit(nm):
        v = Ctx.cur.fresh(nm, "r")
        Ctx.cur.add(z3.And(v >= 0, v < 1))
        return SymReal(v)

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        from .arr import undtype

        shp, n = self._size(size)

        def make(nm):
            ctx = Ctx.cur
            vs = []
            for _ in range(n):
                v = ctx.fresh(nm, "r")
                ctx.add(z3.And(v >= -8, v <= 8))
                vs.append(SymReal(v))
            return vs

        return self._out(self._draw("normal", (shp,), make), shp, np.dtype(undtype(dtype)))

    def normal(self, loc=0.0, scale=1.0, size=None):
        if num_cmp("<", scale, 0):
            raise ValueError("scale < 0")
        shp, n = self._size(size)
        z = self.standard_normal(size=size)
        if shp is None:
            return num_op("+", loc, num_op("*", scale, z))
        return z * scale + loc

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        from .arr import SArr, undtype

        if high is None:
            low, high = 0, low
        shp, n = self._size(size)
        if isinstance(low, SArr) or isinstance(high, SArr):
            low = low.item() if isinstance(low, SArr) else low
            high = high.item() if isinstance(high, SArr) else high
        if not is_sym(low):
            low = _int(low)
        if not is_sym(high):
            high = _int(high)
        bad = num_cmp(">" if endpoint else ">=", low, high)
        if bad:
            raise ValueError("low >= high")

        def make(nm):
            ctx = Ctx.cur
            vs = []
            for _ in range(n):
                v = ctx.fresh(nm, "i")
                hi = v <= to_int_expr(high) if endpoint else v < to_int_expr(high)
                ctx.add(z3.And(v >= to_int_expr(low), hi))
                vs.append(SymInt(v))
            return vs

        d = (shp, _dk(low), _dk(high), endpoint)
        return self._out(self._draw("integers", d, make, (shp, low, high)), shp, np.dtype(undtype(dtype)))

    def randint(self, low, high=None, size=None, dtype=np.int64):
        return self.integers(low, high, size=size, dtype=dtype)

    def _perm_idx(self, n, kind="permutation", k=None):
        """k (default n) distinct indices of range(n)."""
        k = n if k is None else k

        def make(nm):
            ctx = Ctx.cur
            vs = []
            if n == 1 and k == 1:
                return [0]
            for _ in range(k):
                v = ctx.fresh(nm, "i")
                ctx.add(z3.And(v >= 0, v < n))
                vs.append(v)
            if len(vs) > 1:
                ctx.add(z3.Distinct(*vs))
            return [SymInt(v) for v in vs]

        return self._draw(kind, (n, k), make)

    def permutation(self, x, axis=0):
        from .arr import sarr, from_real, is_sym as _s

        if isinstance(x, (_int, np.integer, SymInt)):
            n = x.__index__()
            a = from_real(np.arange(n))
        else:
            a = sarr(x)
            n = a.shape[0]
        idx = self._perm_idx(n)
        return _take(a, idx)

    def permuted(self, x, axis=None, out=None):
        return self.permutation(x)

    def shuffle(self, x, axis=0):
        from .arr import sarr

        if isinstance(x, list):
            idx = self._perm_idx(len(x))
            src = list(x)
            conc = [i.__index__() for i in idx] if not all(kind_of(v) for v in src) else None
            if conc is not None:
                x[:] = [src[i] for i in conc]
            else:
                x[:] = list(_take(sarr(src), idx)._raw())
            return
        idx = self._perm_idx(x.shape[0])
        x[...] = _take(sarr(x), idx)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        from .arr import sarr, from_real

        if isinstance(a, (_int, np.integer, SymInt)):
            n = a.__index__()
            if n <= 0 and (size is None or self._size(size)[1] > 0):
                raise ValueError("a must be a positive integer unless no samples are taken")
            arr = from_real(np.arange(n))
        else:
            arr = sarr(a)
            n = arr.shape[0]
            if n == 0 and (size is None or self._size(size)[1] > 0):
                raise ValueError("a cannot be empty unless no samples are taken")
        shp, k = self._size(size)
        if p is not None:
            pv = list(sarr(p)._raw().reshape(-1))
            if len(pv) != n:
                raise ValueError("a and p must have same size")
            tol = 4e-4 if sarr(p)._ld == np.float32 else 1.5e-8
            tot = 0.0
            for q in pv:
                if num_cmp("<", q, 0):
                    raise ValueError("Probabilities are not non-negative")
                if q != q and not is_sym(q):
                    raise ValueError("Probabilities contain NaN")
                tot = num_op("+", tot, q)
            if is_sym(tot):
                if z_and([num_cmp("<", abs(tot - 1.0), tol)]) is not True and not (abs(tot - 1.0) < tol):
                    raise ValueError("Probabilities do not sum to 1")
            elif abs(tot - 1.0) > tol:
                raise ValueError("Probabilities do not sum to 1")
        if replace or k <= 1:
            def make(nm):
                ctx = Ctx.cur
                vs = []
                for _ in range(k):
                    v = ctx.fresh(nm, "i")
                    ctx.add(z3.And(v >= 0, v < n))
                    if p is not None:
                        for i, q in enumerate(pv):
                            if is_sym(q):
                                ctx.add(z3.Implies(v == i, to_real_expr(q) > 0))
                            elif q == 0:
                                ctx.add(v != i)
                    vs.append(SymInt(v))
                ctx.model = None
                return vs

            d = (n, k, None if p is None else tuple(_dk(q) for q in pv))
            idx = self._draw("choice", d, make, (n, k))
        else:
            if k > n:
                raise ValueError("Cannot take a larger sample than population when replace is False")
            idx = self._perm_idx(n, "choice_nr", k)
            if p is not None:
                for i, q in enumerate(pv):
                    if not is_sym(q) and q == 0:
                        for v in idx:
                            if is_sym(v):
                                Ctx.cur.add(v.e != i)
        r = _take(arr, idx)
        if shp is None:
            v = r._raw().reshape(-1)[0] if r.ndim == 1 else r[0]
            if isinstance(v, (builtins.bool, _int, _float)):
                return arr._ld.type(v)
            return v
        return r.reshape(shp + arr.shape[1:])

    def beta(self, a, b, size=None):
        shp, n = self._size(size)
        return self._out(self._draw("beta", (shp,), lambda nm: [self._unit(nm) for _ in range(n)]), shp, np.float64)

    def exponential(self, scale=1.0, size=None):
        return -1.0 * self.uniform(0.0, 1.0, size) * 0 + self._pos(size) * scale

    def _pos(self, size):
        shp, n = self._size(size)

        def make(nm):
            vs = []
            for _ in range(n):
                v = Ctx.cur.fresh(nm, "r")
                Ctx.cur.add(z3.And(v > 0, v < 64))
                vs.append(SymReal(v))
            return vs

        return self._out(self._draw("exp", (shp,), make), shp, np.float64)

    def binomial(self, n, p, size=None):
        shp, k = self._size(size)

        def make(nm):
            vs = []
            for _ in range(k):
                v = Ctx.cur.fresh(nm, "i")
                Ctx.cur.add(z3.And(v >= 0, v <= to_int_expr(n)))
                vs.append(SymInt(v))
            return vs

        return self._out(self._draw("binomial", (shp, _dk(n)), make), shp, np.int64)

    def spawn(self, n):
        return [SymGenerator(("sp", _key_id(self.key), self.n, i)) for i in range(n)]


def _take(a, idx):
    from .arr import mk, new_raw

    raw = new_raw((len(idx),))
    for i, v in enumerate(idx):
        raw[i] = v
    n = a.shape[0]
    if a.ndim == 1 and n and all(not is_sym(v) for v in a._raw()) and list(a._raw()) == list(range(n)):
        return mk(raw, a._ld)
    return a[mk(raw, np.int64)]


def _dk(x):
    if is_sym(x):
        return ("s", z3.simplify(x.e).sexpr())
    return x


class GlobalRandom:
    """numpy's global generator: seeded state or an arbitrary ambient stream."""

    def _gen(self):
        ctx = Ctx.cur
        g = ctx.data.get("np_global")
        if g is None:
            n = ctx.data["ambient"] = ctx.data.get("ambient", 0) + 1
            g = ctx.data["np_global"] = SymGenerator(("amb", n))
        return g

    def seed(self, s=None):
        ctx = Ctx.cur
        if s is None:
            ctx.data["np_global"] = None
        else:
            k = _seed_key(s)
            ctx.data["np_global"] = SymGenerator(("glob",) + (k,) if k[0] != "s" else k)

    def get_state(self):
        g = self._gen()
        return (g.key, g.n)

    def set_state(self, st):
        g = SymGenerator(st[0])
        g.n = st[1]
        Ctx.cur.data["np_global"] = g

    def rand(self, *shape):
        return self._gen().random(shape or None)

    def randn(self, *shape):
        return self._gen().standard_normal(shape or None)

    def __getattr__(self, nm):
        if nm.startswith("__"):
            raise AttributeError(nm)
        return getattr(self._gen(), nm)


def reset_ambient():
    """Forget the process-wide random state: what follows may see any ambient values."""
    Ctx.cur.data["np_global"] = None


# ---------------------------------------------------------------------------
# replay


def script_from_log(log, model):
    """[(seed key, draw number, kind, concrete values)] for a scripted generator."""
    out = []
    for key, n, kind, params, vals in log:
        pv = tuple(model_value(p, model) if is_sym(p) else p for p in params)
        out.append((_key_value(key, model), n, kind, pv, [model_value(v, model) for v in vals]))
    return out


class ScriptedGenerator:
    """Real-numpy facade that answers draws from a script, else from a real generator."""

    def __init__(self, key, script, real):
        self.key, self.script, self.real, self.n = key, script, real, 0
        self.bit_generator = real.bit_generator

    def _next(self, kinds, params, count):
        i = self.n
        self.n += 1
        for kind in kinds:
            for p, vals in self.script.get((self.key, i, kind), ()):
                if len(vals) == count and (params is None or p == params):
                    return vals
        return None

    @staticmethod
    def _shp(size):
        if size is None:
            return None, 1
        shp = tuple(int(s) for s in size) if isinstance(size, (tuple, list)) else (int(size),)
        return shp, int(np.prod(shp, dtype=int))

    def _shape(self, vals, size, dt):
        if size is None:
            return np.dtype(dt).type(vals[0])
        return np.array(vals, dtype=dt).reshape(size)

    def random(self, size=None, dtype=np.float64, out=None):
        v = self._next(("random",), None, self._shp(size)[1])
        return self._shape(v, size, dtype) if v is not None else self.real.random(size, dtype=dtype)

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        shp, k = self._shp(size)
        for p, vals in self.script.get((self.key, self.n, "uniformv"), ()):
            if len(vals) == k and p[0] == shp and abs(p[1] - low) + abs(p[2] - high) < 1e-6:
                self.n += 1
                vals = [min(max(x, low), high) for x in vals]
                return float(vals[0]) if size is None else np.array(vals, dtype=float).reshape(size)
        v = self._next(("uniform",), None, k)
        if v is None:
            return self.real.uniform(low, high, size)
        v = [low + (high - low) * x for x in v]
        return float(v[0]) if size is None else np.array(v).reshape(size)

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        v = self._next(("normal",), None, self._shp(size)[1])
        return self._shape(v, size, dtype) if v is not None else self.real.standard_normal(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if scale < 0:
            raise ValueError("scale < 0")
        z = self.standard_normal(size)
        return float(loc + scale * z) if size is None else loc + scale * z

    def beta(self, a, b, size=None):
        v = self._next(("beta",), None, self._shp(size)[1])
        return self._shape(v, size, np.float64) if v is not None else self.real.beta(a, b, size)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        self.real.integers(low, high, size=size, dtype=dtype, endpoint=endpoint)
        lo, hi = (0, low) if high is None else (low, high)
        shp, k = self._shp(size)
        v = None
        if np.ndim(lo) == 0 and np.ndim(hi) == 0:
            v = self._next(("integers",), (shp, int(lo), int(hi)), k)
        else:
            self.n += 1
        if v is None:
            return self.real.integers(low, high, size=size, dtype=dtype, endpoint=endpoint)
        return self._shape(v, size, dtype)

    def permutation(self, x, axis=0):
        n = int(x) if isinstance(x, (int, np.integer)) else len(x)
        v = self._next(("permutation",), (n, n), n)
        if v is None:
            return self.real.permutation(x)
        a = np.arange(x) if isinstance(x, (int, np.integer)) else np.asarray(x)
        return a[np.array(v, dtype=int)]

    def shuffle(self, x, axis=0):
        n = len(x)
        v = self._next(("permutation",), (n, n), n)
        if v is None:
            self.real.shuffle(x)
        elif isinstance(x, list):
            x[:] = [x[i] for i in v]
        else:
            x[...] = np.array(x)[np.array(v, dtype=int)]

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        self.real.choice(a, size=size, replace=replace, p=p)
        n = int(a) if isinstance(a, (int, np.integer)) else len(a)
        k = self._shp(size)[1]
        v = self._next(("choice",) if replace or k <= 1 else ("choice_nr",), (n, k), k)
        if v is None:
            return self.real.choice(a, size=size, replace=replace, p=p)
        arr = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        r = arr[np.array(v, dtype=int)]
        if size is None:
            return r[0]
        return r.reshape((size if isinstance(size, tuple) else (size,)) + arr.shape[1:])

    def __getattr__(self, nm):
        return getattr(self.real, nm)


def install_script(script):
    """Patch numpy.random so the real code sees the scripted draws.  Returns an undo function."""
    table = {}
    for k, n, kind, params, vals in script:
        table.setdefault((k, n, kind), []).append((params, vals))
    keys = {k[0] for k in table}
    real_rng = np.random.default_rng
    state = {"amb": 0}

    def default_rng(seed=None):
        if isinstance(seed, (np.random.Generator, ScriptedGenerator)):
            return seed
        if seed is None:
            state["amb"] += 1
            key = ("amb", state["amb"])
            real = real_rng(12345 + state["amb"])
        else:
            key = _seed_key(seed)
            real = real_rng(seed)
        if key not in keys:
            return real
        return ScriptedGenerator(key, table, real)

    np.random.default_rng = default_rng
    saved = {}
    glob = {"g": None}

    def gen():
        if glob["g"] is None:
            state["amb"] += 1
            glob["g"] = ScriptedGenerator(("amb", state["amb"]), table, real_rng(777 + state["amb"]))
        return glob["g"]

    def seed(s=None):
        if s is None:
            glob["g"] = None
        else:
            glob["g"] = ScriptedGenerator(("glob", _seed_key(s)), table, real_rng(s))
            saved["seed"](s)

    if any(k[0] in ("amb", "glob") for k in keys):
        for nm in ("rand", "randn", "random", "uniform", "normal", "permutation", "shuffle", "choice",
                   "randint", "seed"):
            saved[nm] = getattr(np.random, nm)
        np.random.seed = seed
        np.random.rand = lambda *s: gen().random(s or None)
        np.random.randn = lambda *s: gen().standard_normal(s or None)
        np.random.randint = lambda low, high=None, size=None, dtype=int: gen().integers(low, high, size, dtype)
        for nm in ("random", "uniform", "normal", "permutation", "shuffle", "choice"):
            setattr(np.random, nm, (lambda _n: lambda *a, **k: getattr(gen(), _n)(*a, **k))(nm))

    def undo():
        np.random.default_rng = real_rng
        for nm, f in saved.items():
            setattr(np.random, nm, f)

    return undo
