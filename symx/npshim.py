"""A stand-in for the `numpy` module: creators return SArr, everything else goes through the models."""
from __future__ import annotations

import builtins
import math
import types

import numpy as np

from . import arr as A
from .arr import (SArr, call_np, from_real, has_sym, mk, new_raw, sarr, to_real, ufunc_call,
                  ufunc_dispatch, undtype, wrap_result)
from .core import Ctx, Sym, SymBool, SymInt, SymReal, is_sym, kind_of, z_and, z_or
from .rng import SymGenerator, sym_default_rng, GlobalRandom

_isinstance = builtins.isinstance
_int, _float, _bool = builtins.int, builtins.float, builtins.bool


class UF:
    """Wrapper of a numpy ufunc."""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__
        self.nin, self.nout = uf.nin, uf.nout

    def __call__(self, *args, out=None, where=True, dtype=None, casting=None, **k):
        if len(args) > self._uf.nin:
            out = args[self._uf.nin]
            args = args[: self._uf.nin]
        if self._uf.__name__ == "matmul":
            return A.np_matmul(*args)
        return ufunc_call(self._uf, *args, out=out, where=where, dtype=dtype)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return A.reduce_uf(self._uf, A._s(a), axis=axis, keepdims=keepdims, dtype=dtype,
                           initial=initial, where=where)

    def accumulate(self, a, axis=0, **k):
        return A.accumulate_uf(self._uf, a, axis)

    def outer(self, a, b):
        return ufunc_dispatch(self._uf, "outer", (a, b), {})

    def at(self, a, idx, b=None):
        return A.ufunc_at(self._uf, a, idx, b)

    def reduceat(self, *a, **k):
        return ufunc_dispatch(self._uf, "reduceat", a, k)


class _DTypeMeta(type):
    """Stands for a numpy scalar type: usable as dtype, constructor and isinstance target."""

    def __instancecheck__(cls, x):
        real = cls._sym_real_type
        if _isinstance(x, real):
            return True
        if _isinstance(x, Sym):
            k = kind_of(x)
            return {"b": np.bool_, "i": np.int64, "r": np.float64}[k] is real or issubclass(
                {"b": np.bool_, "i": np.int64, "r": np.float64}[k], real)
        return False

    def __subclasscheck__(cls, c):
        return issubclass(undtype(c), cls._sym_real_type)

    def __eq__(cls, o):
        return undtype(o) is cls._sym_real_type if _isinstance(o, type) else cls._sym_real_type == o

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls._sym_real_type)

    def __call__(cls, x=0, *a, **k):
        real = cls._sym_real_type
        if _isinstance(x, Sym):
            return A.cast_elem(x, np.dtype(real))
        if _isinstance(x, SArr):
            if x.ndim == 0:
                v = x._raw()[()]
                return A.cast_elem(v, np.dtype(real)) if is_sym(v) else real(v)
            return x.astype(real)
        r = real(x, *a, **k)
        return wrap_result(r) if _isinstance(r, np.ndarray) else r

    def __repr__(cls):
        return repr(cls._sym_real_type)

    def __getattr__(cls, nm):
        return getattr(type.__getattribute__(cls, "_sym_real_type"), nm)


_SCALARS = {}
for _n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16",
           "float32", "float64", "bool_", "intp", "uintp", "longlong", "single", "double", "int_",
           "str_", "object_", "bytes_"):
    _r = getattr(np, _n)
    if _r not in _SCALARS:
        _d = {"_sym_real_type": _r}
        _d["dtype"] = np.dtype(_r)
        _SCALARS[_r] = _DTypeMeta(_r.__name__, (), _d)
for _r in (np.integer, np.floating, np.number, np.generic, np.signedinteger, np.unsignedinteger,
           np.inexact, np.complexfloating, np.character):
    _SCALARS[_r] = _DTypeMeta(_r.__name__, (), {"_sym_real_type": _r})


def _shape(shape):
    if _isinstance(shape, (SArr, np.ndarray)):
        shape = shape.tolist()
    if _isinstance(shape, (tuple, list)):
        return tuple(builtins.int(s) if not is_sym(s) else s.__index__() for s in shape)
    return (shape.__index__(),)


def _asdt(dtype):
    return None if dtype is None else np.dtype(undtype(dtype))


def zeros(shape, dtype=float, order="C", **k):
    return from_real(np.zeros(_shape(shape), dtype=_asdt(dtype) or float))


def ones(shape, dtype=None, order="C", **k):
    return from_real(np.ones(_shape(shape), dtype=_asdt(dtype) or float))


def empty(shape, dtype=float, order="C", **k):
    # unwritten cells must be visible: a distinct fresh symbol per cell would be most faithful; numpy
    # promises nothing about them, so each is an arbitrary value of its kind.
    dt = _asdt(dtype) or np.dtype(float)
    shp = _shape(shape)
    if dt == np.dtype(object):
        return mk(np.empty(shp, dtype=object), dt)
    if Ctx.cur is None or dt.kind not in "bif" or int(np.prod(shp)) > 400:
        return from_real(np.zeros(shp, dtype=dt))
    raw = new_raw(shp)
    sort = {"b": "b", "i": "i", "f": "r"}[dt.kind]
    cls = {"b": SymBool, "i": SymInt, "r": SymReal}[sort]
    rf = raw.reshape(-1)
    for i in range(rf.size):
        rf[i] = cls(Ctx.cur.fresh("uninit", sort))
    return mk(rf.reshape(shp), dt)


def full(shape, fill_value, dtype=None, order="C", **k):
    shp = _shape(shape)
    if is_sym(fill_value) or _isinstance(fill_value, SArr):
        dt = _asdt(dtype) or fill_value.dtype
        out = from_real(np.zeros(shp, dtype=dt))
        out[...] = fill_value
        return out
    return from_real(np.full(shp, to_real(fill_value), dtype=_asdt(dtype)))


def arange(*args, dtype=None, **k):
    args = [a.item() if _isinstance(a, SArr) else a for a in args]
    if any(_isinstance(a, SymReal) for a in args):
        args = [a._decide("arange") if is_sym(a) else a for a in args]
    args = [a.__index__() if is_sym(a) else a for a in args]
    return from_real(np.arange(*args, dtype=_asdt(dtype)))


def array(obj, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    out = sarr(obj, dtype)
    while out.ndim < ndmin:
        out = out.reshape((1,) + out.shape)
    return out


def asarray(obj, dtype=None, order=None, **k):
    if _isinstance(obj, SArr):
        dt = _asdt(dtype)
        return obj if dt is None or dt == obj._ld else obj.astype(dt)
    if _isinstance(obj, np.ndarray) and not has_sym(obj):
        # plain arrays stay shared when numpy would share them
        dt = _asdt(dtype)
        if dt is None or dt == obj.dtype:
            return sarr(obj)
    if hasattr(obj, "__array__") and not _isinstance(obj, (np.ndarray, np.generic, Sym, list, tuple)):
        r = obj.__array__()
        return asarray(r, dtype=dtype)
    return sarr(obj, dtype)


def eye(N, M=None, k=0, dtype=float, **kw):
    return from_real(np.eye(N.__index__(), None if M is None else M.__index__(), k=k, dtype=_asdt(dtype)))


def identity(n, dtype=None):
    return eye(n, dtype=dtype or float)


def linspace(start, stop, num=50, endpoint=True, dtype=None, **k):
    num = num.__index__()
    if has_sym((start, stop)):
        n = num - 1 if endpoint else num
        raw = new_raw((num,))
        for i in range(num):
            raw[i] = start + (stop - start) * i / n if n > 0 else start + 0.0
        return mk(raw, np.float64)
    return from_real(np.linspace(to_real(start), to_real(stop), num, endpoint=endpoint, dtype=_asdt(dtype)))


def fromiter(it, dtype, count=-1):
    return sarr(list(it), dtype)


def issubdtype(a, b):
    a = undtype(a)
    b = undtype(b)
    return np.issubdtype(a, b)


def dtype_(x, *a, **k):
    return np.dtype(undtype(x), *a, **k)


def vectorize(fn, otypes=None, **k):
    def run(*arrs):
        xs = [A._s(a) for a in arrs]
        bs = np.broadcast_arrays(*[x._raw() for x in xs])
        out = [fn(*[b[p] for b in bs]) for p in np.ndindex(bs[0].shape)]
        return sarr(out).reshape(bs[0].shape)

    return run


def _uf(a, name, shape):
    """Uninterpreted functions of all elements of `a`."""
    from .core import to_real_expr, z3

    args = [to_real_expr(x) for x in a._raw().reshape(-1)]
    raw = new_raw(shape)
    rf = raw.reshape(-1)
    for i in range(rf.size):
        f = z3.Function(f"{name}{a.shape}[{i}]", *[z3.RealSort()] * (len(args) + 1))
        rf[i] = SymReal(f(*args))
    return mk(rf.reshape(shape), np.float64)


class _LinalgShim(types.ModuleType):
    LinAlgError = np.linalg.LinAlgError

    def norm(self, x, ord=None, axis=None, keepdims=False):
        return A.np_linalg_norm(x, ord=ord, axis=axis, keepdims=keepdims)

    def solve(self, a, b):
        return A.np_solve(a, b)

    def svd(self, a, full_matrices=True, compute_uv=True, **k):
        """Some decomposition that is a function of the matrix (nothing else is assumed of it)."""
        a = A._s(a)
        if not a.has_sym or a.ndim != 2 or full_matrices or not compute_uv:
            return self.__getattr__("svd")(a, full_matrices=full_matrices, compute_uv=compute_uv, **k)
        m, n = a.shape
        r = builtins.min(m, n)
        return _uf(a, "svd.u", (m, r)), _uf(a, "svd.s", (r,)), _uf(a, "svd.vt", (r, n))

    def eigh(self, a, UPLO="L"):
        a = A._s(a)
        if not a.has_sym or a.ndim != 2:
            return self.__getattr__("eigh")(a, UPLO=UPLO)
        n = a.shape[0]
        return _uf(a, "eigh.w", (n,)), _uf(a, "eigh.v", (n, n))

    def __getattr__(self, nm):
        fn = getattr(np.linalg, nm)
        if not callable(fn) or _isinstance(fn, type):
            return fn

        def f(*args, **k):
            return wrap_result(fn(*to_real(args, f"linalg.{nm}"), **to_real(k, f"linalg.{nm}")))

        return f


class _RandomShim(types.ModuleType):
    Generator = SymGenerator
    BitGenerator = np.random.BitGenerator

    def __init__(self):
        super().__init__("numpy.random")
        self._glob = GlobalRandom()

    def default_rng(self, seed=None):
        return sym_default_rng(seed)

    SeedSequence = np.random.SeedSequence
    PCG64 = np.random.PCG64

    def RandomState(self, seed=None):
        return sym_default_rng(seed, legacy=True)

    def __getattr__(self, nm):
        if nm.startswith("__"):
            raise AttributeError(nm)
        return getattr(self.__dict__["_glob"], nm)


class NPShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__["_cache"] = {}
        self.ndarray = np.ndarray
        self.random = _RandomShim()
        self.linalg = _LinalgShim("numpy.linalg")
        for f in (zeros, ones, empty, full, arange, array, asarray, eye, identity, linspace, fromiter,
                  issubdtype, vectorize):
            setattr(self, f.__name__, f)
        self.asanyarray = asarray
        from . import fsx

        for k, f in fsx.NP_IO.items():
            setattr(self, k, f)
        self.dtype = _DTypeShim
        self.bool = _SCALARS[np.bool_]
        for k in ("float_", ):
            pass

    def __getattr__(self, nm):
        c = self.__dict__["_cache"]
        if nm in c:
            return c[nm]
        v = getattr(np, nm)
        if _isinstance(v, type) and v in _SCALARS:
            r = _SCALARS[v]
        elif _isinstance(v, np.ufunc):
            r = UF(v)
        elif nm in A.TABLE and A.TABLE[nm] is not None:
            r = _Fn(nm, v)
        elif _isinstance(v, types.ModuleType) or _isinstance(v, type) or not callable(v):
            r = v
        elif nm in ("errstate", "seterr", "set_printoptions", "printoptions", "result_type", "can_cast", "iinfo", "finfo", "promote_types",
                    "ndindex", "broadcast_shapes", "index_exp", "s_"):
            if nm in ("result_type", "iinfo", "finfo", "can_cast", "promote_types"):
                r = (lambda *a, _v=v, **k: _v(*[undtype(x) if _isinstance(x, type) else (
                    x._ld if _isinstance(x, SArr) else x) for x in a], **k))
            else:
                r = v
        else:
            r = _Fn(nm, v)
        c[nm] = r
        return r


class _Fn:
    def __init__(self, nm, fn):
        self.nm, self.fn = nm, fn
        self.__name__ = nm

    def __call__(self, *a, **k):
        return call_np(self.nm, self.fn, a, k)


class _DTypeDTMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, np.dtype)

    def __call__(cls, x, *a, **k):
        return np.dtype(undtype(x), *a, **k)


class _DTypeShim(metaclass=_DTypeDTMeta):
    _sym_real_type = np.dtype


NP = NPShim()
