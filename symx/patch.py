"""Bind symbolic stand-ins into the loaded ModSSC modules (their code objects are untouched)."""
from __future__ import annotations

import builtins
import importlib
import math
import sys
import types

import hashlib as _hashlib
import json as _json

import numpy as np

from . import fsx, npshim, process
from .arr import SArr, to_real
from .core import (Sym, SymBool, SymInt, SymReal, is_sym, num_op, smax, smin, sym_exp, sym_log,
                   sym_sqrt, kind_of)

_isinstance = builtins.isinstance


class _Union(tuple):
    """`int | float` over the stand-ins: usable in isinstance()."""

    def __or__(self, o):
        more = tuple(o) if _isinstance(o, _Union) else (type(None) if o is None else o,)
        return _Union(tuple(self) + more)

    def __ror__(self, o):
        return _Union((type(None) if o is None else o,) + tuple(self))


class _NumMeta(type):
    def __instancecheck__(cls, x):
        real = cls._sym_real_type
        if _isinstance(x, real):
            return True
        return _isinstance(x, cls._sym_types)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "_sym_real_type", c), cls._sym_real_type)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._sym_real_type

    def __hash__(cls):
        return hash(cls._sym_real_type)

    def __or__(cls, o):
        return _Union((cls,)) | o

    def __ror__(cls, o):
        return _Union((o,)) | cls

    def __repr__(cls):
        return repr(cls._sym_real_type)

    def __getattr__(cls, nm):
        return getattr(type.__getattribute__(cls, "_sym_real_type"), nm)


def _conv_int(x=0, *a):
    if _isinstance(x, SArr) and x.size == 1:
        x = x._raw().reshape(-1)[0]
    if _isinstance(x, SymInt):
        return x
    if _isinstance(x, SymReal):
        return x.__trunc__()
    if _isinstance(x, SymBool):
        return num_op("+", x, 0) if False else SymInt(x.__add__(0).e)
    if hasattr(x, "__sym_int__"):
        return x.__sym_int__()
    if _isinstance(x, str) and x.startswith("<sym:"):
        return _conv_int(fsx.untoken(x))
    return builtins.int(x, *a)


def _conv_float(x=0.0):
    if _isinstance(x, SArr) and x.size == 1:
        x = x._raw().reshape(-1)[0]
    if _isinstance(x, SymReal):
        return x
    if _isinstance(x, (SymInt, SymBool)):
        from .core import to_real_expr

        return SymReal(to_real_expr(x))
    if hasattr(x, "__sym_float__"):
        return x.__sym_float__()
    if _isinstance(x, str) and x.startswith("<sym:"):
        return _conv_float(fsx.untoken(x))
    return builtins.float(x)


IntShim = _NumMeta("int", (), {"_sym_real_type": builtins.int, "_sym_types": (SymInt, SymBool),
                               "_conv": staticmethod(_conv_int), "dtype": np.dtype(int)})
FloatShim = _NumMeta("float", (), {"_sym_real_type": builtins.float, "_sym_types": (SymReal,),
                                   "_conv": staticmethod(_conv_float), "dtype": np.dtype(float)})


class _BoolMeta(_NumMeta):
    pass


BoolShim = _BoolMeta("bool", (), {"_sym_real_type": builtins.bool, "_sym_types": (SymBool,),
                                  "_conv": staticmethod(lambda x=False: _conv_bool(x)),
                                  "dtype": np.dtype(bool)})


def _conv_bool(x):
    if _isinstance(x, SymBool):
        return x
    if _isinstance(x, SArr) and x.size == 1:
        v = x._raw().reshape(-1)[0]
        if _isinstance(v, SymBool):
            return v
    return builtins.bool(x)


def _scalar(x):
    if _isinstance(x, SArr) and x.ndim == 0:
        return x._raw()[()]
    return x


def sym_min(*args, key=None, **kw):
    return _minmax(builtins.min, smin, args, key, kw)


def sym_max(*args, key=None, **kw):
    return _minmax(builtins.max, smax, args, key, kw)


def _minmax(real, fn, args, key, kw):
    vals = list(args[0]) if len(args) == 1 else list(args)
    vals = [_scalar(v) for v in vals]
    if key is None and any(is_sym(v) for v in vals) and all(kind_of(v) for v in vals):
        acc = vals[0]
        for v in vals[1:]:
            acc = fn(acc, v)
        return acc
    if key is not None:
        return real(vals, key=key, **kw)
    return real(vals, **kw)


def sym_sum(it, start=0):
    acc = start
    for v in it:
        acc = acc + v
    return acc


def sym_abs(x):
    return builtins.abs(x)


def sym_round(x, n=None):
    return x.__round__(n) if is_sym(x) else (builtins.round(x, n) if n is not None else builtins.round(x))


def sym_isfinite(x):
    x = _scalar(x)
    return True if is_sym(x) else math.isfinite(x)


class _MathShim(types.ModuleType):
    def __getattr__(self, nm):
        return getattr(math, nm)


def _mk_math():
    m = _MathShim("math")

    def wrap(real, sym):
        return lambda x, *a: sym(_scalar(x)) if is_sym(_scalar(x)) and not a else real(x, *a)

    m.sqrt = wrap(math.sqrt, sym_sqrt)
    m.exp = wrap(math.exp, sym_exp)
    m.log = wrap(math.log, sym_log)
    m.isfinite = wrap(math.isfinite, lambda x: True)
    m.isnan = wrap(math.isnan, lambda x: False)
    m.isinf = wrap(math.isinf, lambda x: False)
    m.fabs = wrap(math.fabs, abs)
    return m


MATH = _mk_math()
INJECT = {"int": IntShim, "float": FloatShim, "min": sym_min, "max": sym_max, "hash": process.model_hash}


def load_all(names):
    mods = []
    for n in names:
        mods.append(importlib.import_module(n))
    return mods


class Patched:
    """Context manager: symbolic bindings in every loaded module below the given prefixes."""

    def __init__(self, prefixes=("modssc", "bench"), inject=INJECT, extra=None, local_numpy=True,
                 bool_shim=False):
        self.prefixes = prefixes
        self.inject = dict(inject)
        if bool_shim:
            self.inject["bool"] = BoolShim
        self.extra = extra or {}
        self.local_numpy = local_numpy
        self.saved = []

    def __enter__(self):
        real_np = np
        for name, mod in list(sys.modules.items()):
            if mod is None or not any(name == p or name.startswith(p + ".") for p in self.prefixes):
                continue
            g = mod.__dict__
            for k, v in list(g.items()):
                if v is real_np:
                    self._set(g, k, npshim.NP)
                elif v is math:
                    self._set(g, k, MATH)
                elif v is _json:
                    self._set(g, k, fsx.JSON)
                elif v is _hashlib:
                    self._set(g, k, fsx.HASHLIB)
                elif v is real_np.random.default_rng:
                    self._set(g, k, npshim.NP.random.default_rng)
            for k, v in self.inject.items():
                if k not in g:
                    self._set(g, k, v)
        for k in ("dumps", "loads", "dump", "load"):
            self._set(_json.__dict__, k, getattr(fsx.JSON, k))
        for (modname, attr), v in self.extra.items():
            mod = importlib.import_module(modname)
            self._set(mod.__dict__, attr, v)
        return self

    _MISSING = object()

    def _set(self, g, k, v):
        self.saved.append((g, k, g.get(k, self._MISSING)))
        g[k] = v

    def __exit__(self, *exc):
        for g, k, old in reversed(self.saved):
            if old is self._MISSING:
                g.pop(k, None)
            else:
                g[k] = old
        self.saved.clear()
        return False
