"""Stand-in for torch tensors over symbolic arrays (CPU semantics; gradients are not computed).

Real torch dtype and device objects are kept.  Functions not modelled here are run by the real torch on
concretized arguments (recorded as an enumeration fallback)."""
from __future__ import annotations

import builtins
import importlib
import math
import sys
import types
from collections import namedtuple
from fractions import Fraction

import numpy as np

from . import arr as A
from . import npshim
from .arr import SArr, from_real, has_sym, mk, new_raw, sarr, scalar_out, to_real
from .core import Ctx, Sym, SymBool, SymInt, SymReal, is_sym, num_op, sym_exp, sym_log
from .rng import SymGenerator

_int, _float, _bool, _isinstance = builtins.int, builtins.float, builtins.bool, builtins.isinstance
_torch = None
NP = npshim.NP


def rt():
    global _torch
    if _torch is None:
        m = sys.modules.get("torch")
        if m is None or _isinstance(m, TorchShim):
            m = importlib.import_module("torch")
        _torch = m
    return _torch


_ND = {}


def nd(dt):
    if not _ND:
        t = rt()
        _ND.update({t.float32: np.float32, t.float64: np.float64, t.float16: np.float32, t.bfloat16: np.float32,
                    t.int64: np.int64, t.int32: np.int32, t.int16: np.int16, t.int8: np.int8, t.uint8: np.uint8,
                    t.bool: np.bool_})
    return np.dtype(_ND[dt])


def td(ndt):
    t = rt()
    ndt = np.dtype(ndt)
    m = {"float32": t.float32, "float64": t.float64, "int64": t.int64, "int32": t.int32, "int16": t.int16, "int8": t.int8,
         "uint8": t.uint8, "bool": t.bool, "float16": t.float16}
    if ndt.name not in m:
        raise TypeError(f"can't convert np.ndarray of type {ndt} to a tensor")
    return m[ndt.name]


def as_dtype(x):
    """dtype argument: torch dtype, python type or patched builtin."""
    t = rt()
    if x is None or _isinstance(x, t.dtype):
        return x
    x = A.undtype(x)
    return {_float: t.float32, _int: t.int64, _bool: t.bool}[x]


def is_float(dt):
    return dt.is_floating_point


_prom = {}


def promote(a, b):
    key = tuple((x._dt, x._a.ndim == 0) if _isinstance(x, Tensor) else _kind(x) for x in (a, b))
    if key not in _prom:
        t = rt()

        def dummy(k):
            if _isinstance(k, tuple):
                return t.zeros((), dtype=k[0]) if k[1] else t.zeros((1,), dtype=k[0])
            return {"b": True, "i": 1, "f": 1.5}[k]

        _prom[key] = t.result_type(dummy(key[0]), dummy(key[1]))
    return _prom[key]


def _kind(x):
    if _isinstance(x, (SymBool, _bool, np.bool_)):
        return "b"
    if _isinstance(x, (SymInt, _int, np.integer)):
        return "i"
    return "f"


class _TMeta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x) or (_torch is not None and cls is Tensor and _isinstance(x, _torch.Tensor))


def wrap(a, dt=None):
    """SArr/scalar/real array -> Tensor (sharing storage when it is already an SArr)."""
    if _isinstance(a, Tensor):
        return a if dt is None else a.to(dt)
    if not _isinstance(a, SArr):
        a = sarr(a)
    if dt is None:
        dt = td(a._ld)
    elif nd(dt) != a._ld:
        a = A.cast_arr(a, nd(dt))
    return Tensor(a, dt)


def ten(x):
    """Anything tensor-like -> Tensor."""
    if type.__instancecheck__(Tensor, x):
        return x
    if _torch is not None and _isinstance(x, _torch.Tensor):
        return wrap(from_real(x.detach().cpu().numpy()), x.dtype)
    return as_tensor(x)


def _ax(dim):
    return tuple(dim) if _isinstance(dim, (list, tuple)) else dim


def _dims(shape):
    if len(shape) == 1 and _isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    return tuple(_int(to_real(s._a) if _isinstance(s, Tensor) else s.__index__()) for s in shape)


def _key(k):
    if _isinstance(k, tuple):
        return tuple(_key(x) for x in k)
    if _isinstance(k, Tensor):
        a = ten(k)._a
        return a._raw()[()] if a.ndim == 0 and a._ld.kind != "b" else a
    if _isinstance(k, list):
        return [_key(x) for x in k]
    return k


def _op(uf, a, b, boolean=False, div=False):
    ta = a if _isinstance(a, Tensor) else None
    for x in (a, b):
        if _isinstance(x, np.ndarray) and not _isinstance(x, SArr) and x.ndim:
            pass
    a = ten(a) if _isinstance(a, (Tensor, np.ndarray)) else a
    b = ten(b) if _isinstance(b, (Tensor, np.ndarray)) else b
    if not _isinstance(b, Tensor) and not (is_sym(b) or _isinstance(b, (_int, _float, _bool, np.number, np.bool_))):
        return NotImplemented
    if not _isinstance(a, Tensor) and not (is_sym(a) or _isinstance(a, (_int, _float, _bool, np.number, np.bool_))):
        return NotImplemented
    dt = promote(a, b)
    if div and not is_float(dt):
        dt = rt().float32
    ra = a._a if _isinstance(a, Tensor) else a
    rb = b._a if _isinstance(b, Tensor) else b
    if boolean:
        ra, rb = stop_grad(ra), stop_grad(rb)
    r = A.ufunc_call(uf, ra, rb)
    r = r if _isinstance(r, SArr) else sarr(r)
    return wrap(r, rt().bool if boolean else dt)


def stop_grad(a):
    """Values without gradient: a harness may tell differentiable variables from their detached copies (Ctx.data["stop"])."""
    m = Ctx.cur.data.get("stop") if Ctx.cur is not None else None
    if not m:
        return a
    if not _isinstance(a, SArr):
        return stop_val(a, m)
    raw = a._raw()
    new = [stop_val(x, m) for x in raw.reshape(-1)]
    if builtins.all(x is y for x, y in zip(new, raw.reshape(-1))):
        return a
    out = np.empty(raw.shape, dtype=object)
    for i, x in enumerate(new):
        out.reshape(-1)[i] = x
    return mk(out, a._ld)


def stop_val(x, m):
    if not _isinstance(x, (SymReal, SymBool, SymInt)):
        return x
    import z3

    e = z3.substitute(x.e, m)
    return x if e.eq(x.e) else type(x)(e)


Ret = namedtuple("values_indices", ["values", "indices"])


class Tensor(metaclass=_TMeta):
    __module__ = "torch"
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, a, dt=None):
        if not _isinstance(a, SArr):
            a = sarr(a)
        self._a = a
        self._dt = dt or td(a._ld)
        self.requires_grad = False
        self.grad = None
        self.grad_fn = None

    # -- metadata ---------------------------------------------------------------------------
    @property
    def dtype(self):
        return self._dt

    @property
    def device(self):
        return rt().device("cpu")

    @property
    def shape(self):
        return rt().Size(self._a.shape)

    def size(self, dim=None):
        return self.shape if dim is None else self._a.shape[dim]

    @property
    def ndim(self):
        return self._a.ndim

    def dim(self):
        return self._a.ndim

    def numel(self):
        return _int(self._a.size)

    nelement = numel
    is_cuda = False
    is_sparse = False
    layout = property(lambda s: rt().strided)
    data = property(lambda s: Tensor(stop_grad(s._a), s._dt))
    is_leaf = True
    names = ()

    def __len__(self):
        if self._a.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return self._a.shape[0]

    def is_floating_point(self):
        return is_float(self._dt)

    def is_contiguous(self, *a, **k):
        return True

    def to_dense(self, *a, **k):
        return self

    def contiguous(self, *a, **k):
        return self

    def element_size(self):
        return nd(self._dt).itemsize

    # -- conversion ---------------------------------------------------------------------------
    def to(self, *args, dtype=None, device=None, copy=False, non_blocking=False, **k):
        for x in args:
            if _isinstance(x, rt().dtype) or x in (_float, _int, _bool):
                dtype = as_dtype(x)
            elif _isinstance(x, Tensor):
                dtype = x.dtype
            elif _isinstance(x, rt().device) or _isinstance(x, str):
                device = x
        if device is not None and rt().device(device).type not in ("cpu",):
            raise RuntimeError(f"device {device} is not available")
        dtype = as_dtype(dtype)
        if (dtype is None or dtype == self._dt) and not copy:
            return self
        if not is_float(dtype or self._dt):
            return wrap(A.cast_arr(stop_grad(self._a), nd(dtype or self._dt)), dtype or self._dt)
        return wrap(A.cast_arr(self._a, nd(dtype or self._dt)), dtype or self._dt)

    type = lambda self, dt=None: self._dt if dt is None else self.to(dt)
    type_as = lambda self, o: self.to(o.dtype)
    long = lambda self: self.to(rt().int64)
    int = lambda self: self.to(rt().int32)
    float = lambda self: self.to(rt().float32)
    double = lambda self: self.to(rt().float64)
    bool = lambda self: self.to(rt().bool)
    half = lambda self: self.to(rt().float16)

    def cpu(self, *a, **k):
        return self

    def cuda(self, *a, **k):
        raise RuntimeError("no CUDA")

    def detach(self):
        return Tensor(stop_grad(self._a), self._dt)

    def detach_(self):
        return self

    def requires_grad_(self, v=True):
        self.requires_grad = v
        return self

    def retain_grad(self):
        return None

    def backward(self, *a, **k):
        if self._a.size != 1:
            raise RuntimeError("grad can be implicitly created only for scalar outputs")

    def clone(self, **k):
        return Tensor(self._a.copy(), self._dt)

    def numpy(self, force=False):
        return self._a.view()

    def __sarr__(self):
        return self._a

    def __array__(self, dtype=None, copy=None):
        return self._a.__array__(dtype)

    def tolist(self):
        return self._a.tolist() if self._a.ndim else self._a._raw()[()]

    def item(self):
        if self._a.size != 1:
            raise RuntimeError(f"a Tensor with {self._a.size} elements cannot be converted to Scalar")
        return stop_grad(self._a._raw().reshape(-1)[0])

    def __sym_int__(self):
        v = self.item()
        return v.__trunc__() if _isinstance(v, SymReal) else (SymInt(v.__add__(0).e) if _isinstance(v, SymBool) else
                                                                v if is_sym(v) else _int(v))

    def __sym_float__(self):
        v = self.item()
        from .core import to_real_expr

        return SymReal(to_real_expr(v)) if is_sym(v) else _float(v)

    def __bool__(self):
        if self._a.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return _bool(self.item())

    def __int__(self):
        return _int(self.item())

    def __index__(self):
        if is_float(self._dt):
            raise TypeError("only integer tensors of a single element can be converted to an index")
        return _int(self.item())

    def __float__(self):
        return _float(self.item())

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"Tensor({self._a.tolist()!r})"

    def __format__(self, spec):
        return format(self.item(), spec) if self._a.size == 1 else repr(self)

    def __iter__(self):
        if self._a.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        for i in range(self._a.shape[0]):
            yield self[i]

    def __contains__(self, v):
        return _bool((self == v).any())

    def __deepcopy__(self, memo):
        return self.clone()

    # -- indexing ---------------------------------------------------------------------------
    def __getitem__(self, k):
        r = A.getitem(self._a, _key(k))
        return wrap(r if _isinstance(r, SArr) else sarr(r), self._dt)

    def __setitem__(self, k, v):
        if _isinstance(v, Tensor):
            v = ten(v)._a
            if v.ndim == 0:
                v = v._raw()[()]
        elif _isinstance(v, (list, tuple)):
            v = sarr(v)
        A.setitem(self._a, _key(k), v)

    def index_select(self, dim, index):
        idx = ten(index)._a
        if idx.ndim == 0:
            idx = idx.reshape(1)
        if has_sym(idx):
            k = (slice(None),) * (dim % self.ndim) + (idx,)
            return wrap(A.getitem(self._a, k), self._dt)
        return wrap(A.np_take(self._a, to_real(idx), axis=dim), self._dt)

    def gather(self, dim, index):
        return wrap(A.np_take_along_axis(self._a, ten(index)._a, axis=dim), self._dt)

    def scatter_(self, dim, index, src=None, value=None, reduce=None):
        if reduce is not None:
            raise NotImplementedError("scatter_ reduce")
        idx = ten(index)._a
        s = src if src is not None else value
        if _isinstance(s, Tensor):
            s = ten(s)._a
        for pos in np.ndindex(*idx.shape):
            k = list(pos)
            k[dim] = idx[pos]
            A.setitem(self._a, tuple(k), s[pos] if _isinstance(s, SArr) and s.ndim else s)
        return self

    def scatter(self, dim, index, src=None, value=None, **k):
        return self.clone().scatter_(dim, index, src, value)

    def scatter_add_(self, dim, index, src):
        idx, s = ten(index)._a, ten(src)._a
        for pos in np.ndindex(*idx.shape):
            k = list(pos)
            k[dim] = idx[pos]
            A.setitem(self._a, tuple(k), A.getitem(self._a, tuple(k)) + s[pos])
        return self

    def scatter_reduce_(self, dim, index, src, reduce, include_self=True):
        if reduce not in ("amax", "amin") or not include_self:
            raise NotImplementedError("scatter_reduce_")
        idx, s = ten(index)._a, ten(src)._a
        for pos in np.ndindex(*idx.shape):
            k = list(pos)
            k[dim] = idx[pos]
            old = A.getitem(self._a, tuple(k))
            A.setitem(self._a, tuple(k), (NP.maximum if reduce == "amax" else NP.minimum)(old, s[pos]))
        return self

    def index_add_(self, dim, index, source, alpha=1):
        idx, s = ten(index)._a, ten(source)._a
        if alpha != 1:
            s = s * alpha
        if dim % self.ndim != 0:
            raise NotImplementedError("index_add_ dim")
        A.ufunc_at(np.add, self._a, idx, A.cast_arr(s, self._a._ld))
        return self

    def index_put_(self, indices, values, accumulate=False):
        k = tuple(_key(x) for x in indices)
        k = k[0] if len(k) == 1 else k
        v = ten(values)._a if _isinstance(values, Tensor) else values
        if accumulate:
            A.ufunc_at(np.add, self._a, k, v)
        else:
            A.setitem(self._a, k, v)
        return self

    def index_copy_(self, dim, index, source):
        if dim != 0:
            raise NotImplementedError("index_copy_ dim")
        A.setitem(self._a, ten(index)._a, ten(source)._a)
        return self

    def index_fill_(self, dim, index, value):
        A.setitem(self._a, (slice(None),) * dim + (ten(index)._a,), value)
        return self

    def masked_fill_(self, mask, value):
        v = value.item() if _isinstance(value, Tensor) else value
        self._store(A.np_where(ten(mask)._a, v, self._a))
        return self

    def masked_fill(self, mask, value):
        return self.clone().masked_fill_(mask, value)

    def masked_select(self, mask):
        return self[mask]

    def fill_diagonal_(self, v, wrap=False):
        A.np_fill_diagonal(self._a, v)
        return self

    def _store(self, a):
        A.setitem(self._a, Ellipsis, A.cast_arr(a if _isinstance(a, SArr) else sarr(a), self._a._ld))
        return self

    def copy_(self, o, non_blocking=False):
        return self._store(ten(o)._a)

    def fill_(self, v):
        A.setitem(self._a, Ellipsis, v.item() if _isinstance(v, Tensor) else v)
        return self

    def zero_(self):
        return self.fill_(0)

    # -- shape ---------------------------------------------------------------------------
    def view(self, *shape):
        if len(shape) == 1 and _isinstance(shape[0], rt().dtype):
            raise NotImplementedError("view(dtype)")
        return wrap(self._a.reshape(_dims(shape)), self._dt)

    reshape = view

    def view_as(self, o):
        return self.view(*o.shape)

    reshape_as = view_as

    def flatten(self, start_dim=0, end_dim=-1):
        s = self._a.shape
        e = end_dim % builtins.max(len(s), 1)
        return self.view(s[:start_dim] + (-1,) + s[e + 1:]) if self.numel() or len(s) <= 1 else self.view(
            s[:start_dim] + (_int(np.prod(s[start_dim:e + 1])),) + s[e + 1:])

    def ravel(self):
        return self.view(-1)

    def squeeze(self, dim=None):
        if dim is not None and self._a.shape[dim] != 1:
            return self
        return wrap(np.squeeze(self._a._raw(), dim).view(SArr) if False else mk(np.squeeze(self._a._raw(), dim), self._a._ld), self._dt)

    def unsqueeze(self, dim):
        return wrap(mk(np.expand_dims(self._a._raw(), dim), self._a._ld), self._dt)

    def unsqueeze_(self, dim):
        self._a = mk(np.expand_dims(self._a._raw(), dim), self._a._ld)
        return self

    def t(self):
        return wrap(mk(self._a._raw().T, self._a._ld), self._dt)

    T = property(t)
    mT = property(lambda s: s.transpose(-1, -2))

    def transpose(self, a, b):
        return wrap(mk(np.swapaxes(self._a._raw(), a, b), self._a._ld), self._dt)

    def permute(self, *dims):
        return wrap(mk(np.transpose(self._a._raw(), _dims(dims)), self._a._ld), self._dt)

    def expand(self, *shape):
        shp = list(_dims(shape))
        off = len(shp) - self.ndim
        for i in range(len(shp)):
            if shp[i] == -1:
                shp[i] = self._a.shape[i - off]
        return wrap(mk(np.broadcast_to(self._a._raw(), shp), self._a._ld), self._dt)

    def expand_as(self, o):
        return self.expand(*o.shape)

    def repeat(self, *reps):
        return wrap(mk(np.tile(self._a._raw(), _dims(reps)), self._a._ld), self._dt)

    def repeat_interleave(self, n, dim=None):
        n = to_real(ten(n)._a) if _isinstance(n, Tensor) else n
        return wrap(mk(np.repeat(self._a._raw(), n, axis=dim), self._a._ld), self._dt)

    def split(self, n, dim=0):
        return split(self, n, dim)

    def chunk(self, n, dim=0):
        return chunk(self, n, dim)

    def narrow(self, dim, start, length):
        return self[(slice(None),) * (dim % self.ndim) + (slice(start, start + length),)]

    def unbind(self, dim=0):
        return tuple(self.transpose(0, dim)[i] for i in range(self._a.shape[dim])) if dim else tuple(self)

    def diagonal(self, *a, **k):
        return wrap(self._a.diagonal(*a, **k), self._dt)

    def diag(self, k=0):
        return wrap(A.np_diag(self._a, k), self._dt)

    # -- in-place arithmetic -----------------------------------------------------------------
    def _iop(self, r):
        if r is NotImplemented:
            return r
        if not is_float(self._dt) and is_float(r._dt):
            raise RuntimeError("result type Float can't be cast to the desired output type")
        return self._store(r._a)

    def new_zeros(self, *s, dtype=None, **k):
        return zeros(*s, dtype=dtype or self._dt)

    def new_ones(self, *s, dtype=None, **k):
        return ones(*s, dtype=dtype or self._dt)

    def new_full(self, s, v, dtype=None, **k):
        return full(s, v, dtype=dtype or self._dt)

    def new_tensor(self, d, dtype=None, **k):
        return tensor(d, dtype=dtype or self._dt)

    # -- reductions ---------------------------------------------------------------------------
    def _red(self, fn, dim, keepdim, dt=None, **k):
        dim = _ax(dim)
        if self.ndim == 0 and dim in (0, -1):
            dim = None
        r = fn(self._a, axis=dim, keepdims=keepdim, **k)
        return wrap(r if _isinstance(r, SArr) else sarr(r), dt)

    def sum(self, dim=None, keepdim=False, dtype=None, axis=None, **k):
        dim = axis if dim is None else dim
        dt = as_dtype(dtype) or (self._dt if is_float(self._dt) else rt().int64)
        src = self if self._dt == dt else self.to(dt)
        return src._red(A.np_sum, dim, keepdim, dt)

    def mean(self, dim=None, keepdim=False, dtype=None, **k):
        dt = as_dtype(dtype) or self._dt
        if not is_float(dt):
            raise RuntimeError("mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype.")
        return self.to(dt)._red(A.np_mean, dim, keepdim, dt)

    def prod(self, dim=None, keepdim=False, dtype=None):
        return self._red(A.np_prod, dim, keepdim, self._dt if is_float(self._dt) else rt().int64)

    def std(self, dim=None, unbiased=True, keepdim=False, correction=None):
        if _isinstance(dim, _bool):
            dim, unbiased = None, dim
        return self._red(A.np_std, dim, keepdim, self._dt, ddof=correction if correction is not None else _int(unbiased))

    def var(self, dim=None, unbiased=True, keepdim=False, correction=None):
        if _isinstance(dim, _bool):
            dim, unbiased = None, dim
        return self._red(A.np_var, dim, keepdim, self._dt, ddof=correction if correction is not None else _int(unbiased))

    def any(self, dim=None, keepdim=False):
        return self._red(A.np_any, dim, keepdim, rt().bool)

    def all(self, dim=None, keepdim=False):
        return self._red(A.np_all, dim, keepdim, rt().bool)

    def max(self, dim=None, keepdim=False):
        if _isinstance(dim, Tensor):
            return maximum(self, dim)
        if dim is None:
            return self._red(A.np_max, None, False, self._dt)
        return Ret(self._red(A.np_max, dim, keepdim, self._dt), self.argmax(dim, keepdim))

    def min(self, dim=None, keepdim=False):
        if _isinstance(dim, Tensor):
            return minimum(self, dim)
        if dim is None:
            return self._red(A.np_min, None, False, self._dt)
        return Ret(self._red(A.np_min, dim, keepdim, self._dt), self.argmin(dim, keepdim))

    def amax(self, dim=None, keepdim=False):
        return self._red(A.np_max, dim, keepdim, self._dt)

    def amin(self, dim=None, keepdim=False):
        return self._red(A.np_min, dim, keepdim, self._dt)

    def argmax(self, dim=None, keepdim=False):
        return Tensor(stop_grad(self._a), self._dt)._red(A.np_argmax, dim, keepdim, rt().int64)

    def argmin(self, dim=None, keepdim=False):
        return Tensor(stop_grad(self._a), self._dt)._red(A.np_argmin, dim, keepdim, rt().int64)

    def norm(self, p=2, dim=None, keepdim=False, **k):
        if p not in (2, "fro", None):
            return self._red(A.np_linalg_norm, dim, keepdim, self._dt, ord=p)
        return self._red(lambda a, axis, keepdims: NP.sqrt(A.np_sum(a * a, axis=axis, keepdims=keepdims)), dim, keepdim, self._dt)

    def cumsum(self, dim, dtype=None):
        return wrap(A.np_cumsum(self._a, axis=dim), self._dt if is_float(self._dt) else rt().int64)

    def logsumexp(self, dim, keepdim=False):
        return self.exp().sum(dim, keepdim).log()

    def bincount(self, weights=None, minlength=0):
        return bincount(self, weights, minlength)

    def quantile(self, q, dim=None, keepdim=False, **k):
        if dim is not None or keepdim or _isinstance(q, Tensor) or k.get("interpolation", "linear") != "linear":
            return _fallback("quantile")(self, q, dim, keepdim, **k)
        s = A.np_sort(self._a.reshape(-1))
        pos = q * (self.numel() - 1)
        lo = _int(math.floor(pos))
        hi = min(lo + 1, self.numel() - 1)
        w = Fraction(str(q)) * (self.numel() - 1) - lo
        a, b = s._raw()[lo], s._raw()[hi]
        return wrap(sarr(num_op("+", a, num_op("*", _float(w), num_op("-", b, a)))), self._dt)

    def median(self, *a, **k):
        if a or k:
            return _fallback("median")(self, *a, **k)
        s = A.np_sort(self._a.reshape(-1))
        return wrap(sarr(s[(self.numel() - 1) // 2]), self._dt)

    # -- elementwise ---------------------------------------------------------------------------
    def _un(self, uf, dt=None):
        src = self if dt is None or is_float(self._dt) or not is_float(dt) else self.to(dt)
        r = A.ufunc_call(uf, src._a)
        return wrap(r if _isinstance(r, SArr) else sarr(r), dt or self._dt)

    def _fdt(self):
        return self._dt if is_float(self._dt) else rt().float32

    def __neg__(self):
        return self._un(np.negative)

    def abs(self):
        return self._un(np.absolute)

    __abs__ = abs
    exp = lambda self: self._un(np.exp, self._fdt())
    log = lambda self: self._un(np.log, self._fdt())
    log1p = lambda self: (self + 1).log()
    log2 = lambda self: self.log() / math.log(2)
    sqrt = lambda self: self._un(np.sqrt, self._fdt())
    rsqrt = lambda self: 1.0 / self.sqrt()
    square = lambda self: self * self
    floor = lambda self: self._un(np.floor)
    ceil = lambda self: self._un(np.ceil)
    round = lambda self, decimals=0: self._un(np.rint)
    sign = lambda self: self._un(np.sign)
    neg = __neg__
    logical_not = lambda self: self._un(np.logical_not, rt().bool)
    isnan = lambda self: self._un(np.isnan, rt().bool)
    isfinite = lambda self: self._un(np.isfinite, rt().bool)
    isinf = lambda self: self._un(np.isinf, rt().bool)
    reciprocal = lambda self: 1.0 / self

    def __invert__(self):
        return self.logical_not() if self._dt == rt().bool else self._un(np.invert)

    bitwise_not = __invert__

    def sigmoid(self):
        return 1.0 / (1.0 + (-self).exp())

    def relu(self):
        return self.clamp(min=0)

    def tanh(self):
        return _fallback("tanh")(self)

    def softmax(self, dim=None, dtype=None):
        return softmax(self, dim)

    def log_softmax(self, dim=None, dtype=None):
        return log_softmax(self, dim)

    def clamp(self, min=None, max=None):
        r = self
        if min is not None:
            r = maximum(r, min)
        if max is not None:
            r = minimum(r, max)
        return r

    clip = clamp

    def clamp_min(self, v):
        return self.clamp(min=v)

    def clamp_max(self, v):
        return self.clamp(max=v)

    def clamp_(self, min=None, max=None):
        return self._iop(self.clamp(min, max))

    def clamp_min_(self, v):
        return self._iop(self.clamp(min=v))

    def dot(self, o):
        return wrap(sarr(A.np_dot(self._a, ten(o)._a)), self._dt)

    def matmul(self, o):
        o = ten(o)
        if self._dt != o._dt:
            raise RuntimeError(f"expected m1 and m2 to have the same dtype, but got: {self._dt} != {o._dt}")
        r = A.np_matmul(self._a, o._a)
        return wrap(r if _isinstance(r, SArr) else sarr(r), self._dt)

    mm = bmm = __matmul__ = matmul

    def pow(self, e):
        return _op(np.power, self, e)

    def where(self, cond, other):
        return where(cond, self, other)

    def sort(self, dim=-1, descending=False, stable=False):
        return sort(self, dim=dim, descending=descending)

    def argsort(self, dim=-1, descending=False, stable=False):
        return sort(self, dim=dim, descending=descending).indices

    def topk(self, k, dim=-1, largest=True, sorted=True):
        return topk(self, k, dim, largest, sorted)

    def unique(self, sorted=True, return_inverse=False, return_counts=False, dim=None):
        return unique(self, sorted, return_inverse, return_counts, dim)

    def nonzero(self, as_tuple=False):
        return nonzero(self, as_tuple=as_tuple)

    def isin(self, o):
        return wrap(A.np_isin(self._a, ten(o)._a), rt().bool)

    def new_empty(self, *size, dtype=None, device=None, **k):
        return zeros(*size, dtype=dtype or self._dt)

    def new_full(self, size, fill_value, dtype=None, device=None, **k):
        return full(size, fill_value, dtype=dtype or self._dt)

    def new_tensor(self, data, dtype=None, device=None, **k):
        return tensor(data, dtype=dtype or self._dt)

    def roll(self, shifts, dims=None):
        return wrap(NP.roll(self._a, shifts, axis=dims), self._dt)

    def flip(self, *dims):
        return wrap(mk(np.flip(self._a._raw(), _dims(dims)), self._a._ld), self._dt)

    def tril(self, k=0):
        return wrap(NP.tril(self._a, k), self._dt)

    def triu(self, k=0):
        return wrap(NP.triu(self._a, k), self._dt)

    def register_hook(self, fn):
        return None

    def __getattr__(self, nm):
        if nm.startswith("__") or not hasattr(rt().Tensor, nm):
            raise AttributeError(f"'Tensor' object has no attribute '{nm}'")
        return lambda *a, **k: _fallback_method(nm, self, a, k)


def _install():
    def binop(uf, swap=False, boolean=False, div=False):
        def f(self, o):
            return _op(uf, o, self, boolean, div) if swap else _op(uf, self, o, boolean, div)

        return f

    def iop(uf, div=False):
        def f(self, o):
            return self._iop(_op(uf, self, o, False, div))

        return f

    for nm, uf, div in (("add", np.add, False), ("sub", np.subtract, False), ("mul", np.multiply, False), ("truediv", np.true_divide, True),
                        ("floordiv", np.floor_divide, False), ("mod", np.remainder, False), ("pow", np.power, False),
                        ("and", np.bitwise_and, False), ("or", np.bitwise_or, False), ("xor", np.bitwise_xor, False)):
        setattr(Tensor, f"__{nm}__", binop(uf, div=div))
        setattr(Tensor, f"__r{nm}__", binop(uf, True, div=div))
        setattr(Tensor, f"__i{nm}__", iop(uf, div))
    for nm, uf in (("lt", np.less), ("le", np.less_equal), ("gt", np.greater), ("ge", np.greater_equal), ("eq", np.equal),
                   ("ne", np.not_equal)):
        setattr(Tensor, f"__{nm}__", binop(uf, boolean=True))
        setattr(Tensor, nm, binop(uf, boolean=True))
    for nm, uf in (("logical_and", np.logical_and), ("logical_or", np.logical_or), ("logical_xor", np.logical_xor)):
        setattr(Tensor, nm, binop(uf, boolean=True))

    def add(self, o, alpha=1):
        return _op(np.add, self, o if alpha == 1 else o * alpha)

    def sub(self, o, alpha=1):
        return _op(np.subtract, self, o if alpha == 1 else o * alpha)

    Tensor.add, Tensor.sub = add, sub
    Tensor.mul = binop(np.multiply)
    Tensor.multiply = Tensor.mul
    Tensor.div = binop(np.true_divide, div=True)
    Tensor.remainder = binop(np.remainder)
    Tensor.add_ = lambda self, o, alpha=1: self._iop(add(self, o, alpha))
    Tensor.sub_ = lambda self, o, alpha=1: self._iop(sub(self, o, alpha))
    Tensor.mul_ = iop(np.multiply)
    Tensor.div_ = iop(np.true_divide, True)
    Tensor.maximum = lambda self, o: maximum(self, o)
    Tensor.minimum = lambda self, o: minimum(self, o)


# ---------------------------------------------------------------------------------------------
# functions


def _dt_of_data(d):
    t = rt()
    if _isinstance(d, Tensor):
        return d.dtype
    a = d if _isinstance(d, SArr) else None
    if a is None and _isinstance(d, np.ndarray):
        return td(d.dtype)
    if a is not None:
        return td(a._ld)
    if _isinstance(d, (np.generic,)):
        return td(d.dtype)
    if _isinstance(d, (list, tuple)):
        kinds = set()

        def walk(x):
            if _isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
            elif _isinstance(x, Tensor):
                kinds.add("f" if is_float(x.dtype) else "b" if x.dtype == t.bool else "i")
            elif _isinstance(x, np.ndarray):
                k = (x._ld if _isinstance(x, SArr) else x.dtype).kind
                kinds.add("d" if k == "f" else "b" if k == "b" else "i")
            else:
                kinds.add(_kind(x))

        walk(d)
        if "d" in kinds:
            return t.float64
        if "f" in kinds or not kinds:
            return t.float32
        return t.int64 if "i" in kinds else t.bool
    return {"b": t.bool, "i": t.int64, "f": t.float32}[_kind(d)]


def _plain(d):
    if _isinstance(d, Tensor):
        return ten(d)._a
    if _isinstance(d, (list, tuple)):
        return [_plain(x) for x in d]
    return d


def as_tensor(data, dtype=None, device=None):
    if device is not None and rt().device(device).type != "cpu":
        raise RuntimeError(f"device {device} is not available")
    dtype = as_dtype(dtype)
    if _isinstance(data, Tensor):
        t = ten(data)
        return t if dtype is None or dtype == t._dt else t.to(dtype)
    dt = dtype or _dt_of_data(data)
    if data is None:
        raise RuntimeError("Could not infer dtype of NoneType")
    if _isinstance(data, SArr) and data._ld == nd(dt):
        return Tensor(data.view(), dt)
    return wrap(A.cast_arr(sarr(_plain(data)), nd(dt)), dt)


def tensor(data, dtype=None, device=None, requires_grad=False, **k):
    return as_tensor(data, dtype, device).clone()


def from_numpy(a):
    return Tensor(a if _isinstance(a, SArr) else from_real(a), td(a._ld if _isinstance(a, SArr) else a.dtype))


def _mk(fn, shape, dtype, *a):
    dt = as_dtype(dtype) or rt().float32
    return wrap(fn(_dims(shape), *a, dtype=nd(dt)), dt)


def zeros(*shape, dtype=None, device=None, requires_grad=False, size=None, **k):
    return _mk(NP.zeros, shape or (size,), dtype)


def ones(*shape, dtype=None, device=None, requires_grad=False, size=None, **k):
    return _mk(NP.ones, shape or (size,), dtype)


def empty(*shape, dtype=None, device=None, size=None, **k):
    return _mk(NP.empty, shape or (size,), dtype)


def full(size, fill_value, dtype=None, device=None, **k):
    v = fill_value.item() if _isinstance(fill_value, Tensor) else fill_value
    return _mk(NP.full, (size,), as_dtype(dtype) or _dt_of_data(v), v)


def zeros_like(x, dtype=None, **k):
    return zeros(*x.shape, dtype=dtype or x.dtype) if x.ndim else zeros((), dtype=dtype or x.dtype)


def ones_like(x, dtype=None, **k):
    return ones(tuple(x.shape), dtype=dtype or x.dtype)


def full_like(x, v, dtype=None, **k):
    return full(tuple(x.shape), v, dtype=dtype or x.dtype)


def empty_like(x, dtype=None, **k):
    return empty(tuple(x.shape), dtype=dtype or x.dtype)


def eye(n, m=None, dtype=None, device=None, **k):
    dt = as_dtype(dtype) or rt().float32
    return wrap(NP.eye(n, m, dtype=nd(dt)), dt)


def arange(*a, dtype=None, device=None, **k):
    vals = [x.item() if _isinstance(x, Tensor) else x for x in a]
    dt = as_dtype(dtype) or (rt().float32 if any(_kind(v) == "f" for v in vals) else rt().int64)
    return wrap(NP.arange(*vals), dt)


def linspace(s, e, steps, dtype=None, device=None, **k):
    return wrap(NP.linspace(s, e, steps), as_dtype(dtype) or rt().float32)


def where(cond, x=None, y=None):
    if x is None:
        return nonzero(cond, as_tuple=True)
    c = ten(cond)
    dt = promote(x if _isinstance(x, Tensor) else x, y)
    x = ten(x)._a if _isinstance(x, Tensor) else x
    y = ten(y)._a if _isinstance(y, Tensor) else y
    return wrap(A.np_where(c._a, x, y), dt)


def _plist(ts):
    ts = [ten(t) for t in ts]
    dt = ts[0]._dt
    for t in ts[1:]:
        if t._dt != dt:
            dt = rt().promote_types(dt, t._dt)
    return ts, dt


def cat(tensors, dim=0, axis=None, out=None):
    ts, dt = _plist(tensors)
    live = [t for t in ts if not (t.ndim == 1 and t.numel() == 0)] or ts[:1]
    return wrap(A.np_concatenate([t._a for t in live], axis=dim if axis is None else axis), dt)


def stack(tensors, dim=0, **k):
    ts, dt = _plist(tensors)
    if ts[0].ndim == 0:
        raw = new_raw((len(ts),))
        for i, t in enumerate(ts):
            raw[i] = t._a._raw()[()]
        return wrap(mk(raw, nd(dt)), dt)
    return wrap(A.np_stack([t._a for t in ts], axis=dim), dt)


def vstack(ts):
    return cat([t if t.ndim > 1 else t.unsqueeze(0) for t in ts], 0)


def hstack(ts):
    return cat(ts, 0 if ts[0].ndim == 1 else 1)


def split(t, n, dim=0):
    size = t.shape[dim]
    sizes = list(n) if _isinstance(n, (list, tuple)) else [builtins.min(n, size - i) for i in range(0, size, n)]
    out, s = [], 0
    for z in sizes:
        out.append(t.narrow(dim, s, z))
        s += z
    return tuple(out)


def chunk(t, n, dim=0):
    size = t.shape[dim]
    return split(t, builtins.max(1, -(-size // n)), dim)


def nonzero(t, as_tuple=False):
    idx = A.np_nonzero(ten(t)._a)
    if as_tuple:
        return tuple(wrap(i, rt().int64) for i in idx)
    return stack([wrap(i, rt().int64) for i in idx], dim=1)


def maximum(a, b):
    if not _isinstance(a, Tensor):
        a, b = b, a
    return _op(np.maximum, a, b)


def minimum(a, b):
    if not _isinstance(a, Tensor):
        a, b = b, a
    return _op(np.minimum, a, b)


def t_max(x, dim=None, keepdim=False, **k):
    return maximum(x, dim) if _isinstance(dim, Tensor) else ten(x).max(dim, keepdim)


def t_min(x, dim=None, keepdim=False, **k):
    return minimum(x, dim) if _isinstance(dim, Tensor) else ten(x).min(dim, keepdim)


def softmax(x, dim=None, dtype=None, **k):
    x = ten(x)
    e = x.exp()
    s = e.sum(dim, keepdim=True)
    return wrap(_simp(e._a / _simp(s._a)), x._fdt())


def _simp(a):
    from .core import simp, unit_sum, z3

    raw = a._raw().copy()
    f = raw.reshape(-1)
    for i in range(f.size):
        if _isinstance(f[i], SymReal):
            e = simp(f[i].e)
            f[i] = _float(e.as_fraction()) if z3.is_rational_value(e) else 1.0 if unit_sum(e) else SymReal(e)
    return mk(f.reshape(a.shape), a._ld)


def log_softmax(x, dim=None, dtype=None, **k):
    x = ten(x)
    s = wrap(_simp(x.exp().sum(dim, keepdim=True)._a), x._fdt())
    return wrap(_simp(x._a - s.log()._a), x._fdt())


def sort(x, dim=-1, descending=False, stable=False, **k):
    x = ten(x)
    key = -x._a if descending and x._dt != rt().bool else x._a
    if descending and x._dt == rt().bool:
        key = ~x._a
    idx = A.np_argsort(key, axis=dim, kind="stable")
    return Ret(wrap(A.np_take_along_axis(x._a, idx, axis=dim), x._dt), wrap(idx, rt().int64))


def argsort(x, dim=-1, descending=False, stable=False):
    return sort(x, dim, descending).indices


def topk(x, k, dim=-1, largest=True, sorted=True):
    k = _int(k)
    if k > ten(x).shape[dim]:
        raise RuntimeError("selected index k out of range")
    v, i = sort(x, dim, largest)
    sl = (slice(None),) * (dim % ten(x).ndim) + (slice(0, k),)
    return Ret(v[sl], i[sl])


def unique(x, sorted=True, return_inverse=False, return_counts=False, dim=None):
    x = ten(x)
    r = A.np_unique(x._a, return_inverse=return_inverse, return_counts=return_counts, axis=dim)
    if _isinstance(r, tuple):
        return (wrap(r[0], x._dt),) + tuple(wrap(a, rt().int64) for a in r[1:])
    return wrap(r, x._dt)


def bincount(x, weights=None, minlength=0):
    w = None if weights is None else ten(weights)._a
    r = A.np_bincount(ten(x)._a, weights=w, minlength=minlength)
    return wrap(r, rt().int64 if w is None else ten(weights)._dt)


def searchsorted(s, v, right=False, side=None, **k):
    v = ten(v)
    r = A.np_searchsorted(ten(s)._a, v._a, side=side or ("right" if right else "left"))
    return wrap(r if _isinstance(r, SArr) else sarr(r), rt().int64)


def norm(x, p=2, dim=None, keepdim=False, **k):
    return ten(x).norm(p, dim, keepdim)


def cdist(a, b, p=2.0, **k):
    d = a.unsqueeze(1) - b.unsqueeze(0)
    return (d * d).sum(-1).sqrt()


def equal(a, b):
    return tuple(a.shape) == tuple(b.shape) and _bool((ten(a) == ten(b)).all())


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return _bool(A.np_allclose(ten(a)._a, ten(b)._a, rtol, atol))


def einsum(*a):
    return _fallback("einsum")(*a)


def isin(a, b, **k):
    return ten(a).isin(b)


def outer(a, b):
    return a.unsqueeze(1) * b.unsqueeze(0)


class Sparse:
    """torch.sparse_coo_tensor, kept dense (duplicates add up)."""

    is_sparse = True

    def __init__(self, dense, at=None):
        self.dense = dense
        self.at = at
        self.shape = dense.shape
        self.dtype, self.device = dense.dtype, dense.device

    def coalesce(self):
        return self

    def _places(self):
        i = ten(self.at)._a
        return sorted({tuple(i[r, c].__index__() for r in range(i.shape[0]))
                       for c in range(i.shape[1])})

    def indices(self):
        return ten(np.array(self._places(), dtype=np.int64).reshape(-1, len(self.shape)).T)

    def values(self):
        i = self.indices()
        return self.dense[tuple(i[r] for r in range(len(self.shape)))]

    def to_dense(self):
        return self.dense.clone()

    def to(self, *a, **k):
        return Sparse(self.dense.to(*a, **k), self.at)

    def t(self):
        return Sparse(self.dense.t(), None if self.at is None else self.at.flip(0))

    def __matmul__(self, o):
        return self.dense @ o


def sparse_coo_tensor(indices, values, size=None, dtype=None, device=None, **k):
    v = ten(values)
    out = zeros(tuple(size), dtype=as_dtype(dtype) or v.dtype)
    i = ten(indices)
    out.index_put_((i[0], i[1]), v, accumulate=True)
    return Sparse(out, i)


# -- randomness --------------------------------------------------------------------------------
class Generator:
    """torch.Generator: equal seeds give equal streams; every draw is arbitrary."""

    def __init__(self, device="cpu"):
        self.device = rt().device(device)
        self._g = None

    def manual_seed(self, seed):
        if _isinstance(seed, Tensor):
            seed = seed.item()
        from .rng import _seed_key

        self._seed = seed
        self._g = SymGenerator(("torch", _seed_key(seed)))
        return self

    def seed(self):
        return None

    def initial_seed(self):
        return getattr(self, "_seed", 67280421310721)

    def gen(self):
        if self._g is None:
            self._g = SymGenerator(("torch", ("c", 67280421310721)))
        return self._g


def _gen(generator):
    if generator is not None:
        return generator.gen()
    ctx = Ctx.cur
    g = ctx.data.get("torch_global")
    if g is None:
        n = ctx.data["ambient"] = ctx.data.get("ambient", 0) + 1
        g = ctx.data["torch_global"] = SymGenerator(("amb", n))
    return g


def manual_seed(seed):
    from .rng import _seed_key

    if _isinstance(seed, Tensor):
        seed = seed.item()
    Ctx.cur.data["torch_global"] = SymGenerator(("tglob", _seed_key(seed)))
    g = Generator()
    g._g = Ctx.cur.data["torch_global"]
    return g


def randperm(n, generator=None, dtype=None, device=None, **k):
    return wrap(_gen(generator).permutation(_int(n)), as_dtype(dtype) or rt().int64)


def rand(*shape, generator=None, dtype=None, device=None, size=None, **k):
    return wrap(_gen(generator).random(_dims(shape or (size,))), as_dtype(dtype) or rt().float32)


def randn(*shape, generator=None, dtype=None, device=None, size=None, **k):
    return wrap(_gen(generator).standard_normal(_dims(shape or (size,))), as_dtype(dtype) or rt().float32)


def rand_like(x, generator=None, dtype=None, **k):
    return rand(tuple(x.shape), generator=generator, dtype=dtype or x.dtype)


def randn_like(x, generator=None, dtype=None, **k):
    return randn(tuple(x.shape), generator=generator, dtype=dtype or x.dtype)


def randint(low, high=None, size=None, generator=None, dtype=None, device=None, **k):
    if size is None:
        low, high, size = 0, low, high
    return wrap(_gen(generator).integers(low, high, size=_dims((size,))), as_dtype(dtype) or rt().int64)


def bernoulli(p, generator=None, **k):
    p = ten(p)
    u = wrap(_gen(generator).random(tuple(p.shape)), p.dtype)
    return (u < p).to(p.dtype)


# -- nn.functional -------------------------------------------------------------------------------
def one_hot(x, num_classes=-1):
    x = ten(x)
    if x.dtype != rt().int64:
        raise RuntimeError("one_hot is only applicable to index tensor.")
    if x.numel() and _bool((x < 0).any()):
        raise RuntimeError("Class values must be non-negative.")
    if num_classes == -1:
        num_classes = _int(x.max().item()) + 1
    elif x.numel() and _bool((x >= num_classes).any()):
        raise RuntimeError("Class values must be smaller than num_classes.")
    c = arange(num_classes)
    return (x.unsqueeze(-1) == c).to(rt().int64)


def cross_entropy(input, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean",
                  label_smoothing=0.0):
    input, target = ten(input), ten(target)
    lp = log_softmax(input, dim=1)
    n, c = input.shape[0], input.shape[1]
    if is_float(target.dtype):
        if tuple(target.shape) != tuple(input.shape):
            raise RuntimeError("Expected target of the input's shape for class probabilities")
        if label_smoothing:
            target = target * (1 - label_smoothing) + label_smoothing / c
        per = -(lp * target).sum(1)
        wsum = float(n)
    else:
        if target.ndim != 1 or target.shape[0] != n:
            raise ValueError(f"Expected input batch_size ({n}) to match target batch_size ({target.shape})")
        ok = target != ignore_index
        if n and _bool((ok & ((target < 0) | (target >= c))).any()):
            raise IndexError("Target is out of bounds.")
        oh = (target.unsqueeze(1) == arange(c)).to(input.dtype)
        if label_smoothing:
            oh = oh * (1 - label_smoothing) + label_smoothing / c
        if weight is not None:
            wt = ten(weight)
            per = -(lp * oh * wt.unsqueeze(0)).sum(1)
            wvec = (oh * wt.unsqueeze(0)).sum(1)
        else:
            per = -(lp * oh).sum(1)
            wvec = ones(n, dtype=input.dtype)
        per = where(ok, per, 0.0)
        wsum = where(ok, wvec, 0.0).sum()
    if reduction == "none":
        return per
    return per.sum() if reduction == "sum" else per.sum() / wsum


def nll_loss(lp, target, reduction="mean", **k):
    oh = (target.unsqueeze(1) == arange(lp.shape[1])).to(lp.dtype)
    return _reduce_loss(-(lp * oh).sum(1), reduction)


def _reduce_loss(v, reduction):
    return v if reduction == "none" else v.sum() if reduction == "sum" else v.mean()


def mse_loss(a, b, reduction="mean", **k):
    d = a - b
    return _reduce_loss(d * d, reduction)


def l1_loss(a, b, reduction="mean", **k):
    return _reduce_loss((a - b).abs(), reduction)


def kl_div(inp, target, reduction="mean", log_target=False, **k):
    v = target.exp() * (target - inp) if log_target else where(target > 0, target * (target.clamp_min(1e-300).log() - inp), 0.0)
    return v.sum() / inp.shape[0] if reduction == "batchmean" else _reduce_loss(v, reduction)


def binary_cross_entropy(p, t, reduction="mean", **k):
    return _reduce_loss(-(t * p.log() + (1 - t) * (1 - p).log()), reduction)


def dropout(x, p=0.5, training=True, inplace=False):
    if not training or p == 0:
        return x
    keep = bernoulli(full(tuple(x.shape), 1 - p))
    return x * keep / (1 - p)


def normalize(x, p=2.0, dim=1, eps=1e-12, **k):
    return x / x.norm(p, dim, True).clamp_min(eps)


def pad(x, pad, mode="constant", value=0):
    if mode == "reflect" and len(pad) % 2 == 0:
        for i in range(len(pad) // 2):
            d, (lo, hi) = len(x.shape) - 1 - i, pad[2 * i:2 * i + 2]
            n = x.shape[d]
            if lo >= n or hi >= n:
                raise RuntimeError("Padding size should be less than the corresponding input dimension")
            idx = [k for k in range(lo, 0, -1)] + list(range(n)) + [n - 2 - k for k in range(hi)]
            x = x.index_select(d, ten(np.array(idx, dtype=np.int64)))
        return x
    if mode != "constant":
        return _fallback("nn.functional.pad")(x, pad, mode=mode, value=value)
    shape = list(x.shape)
    sl = [slice(None)] * len(shape)
    for i in range(len(pad) // 2):
        d = len(shape) - 1 - i
        lo, hi = pad[2 * i], pad[2 * i + 1]
        s = shape[d]
        shape[d] = s + lo + hi
        if lo < 0 or hi < 0:
            x = x.narrow(d, builtins.max(0, -lo), s - builtins.max(0, -lo) - builtins.max(0, -hi))
        sl[d] = slice(builtins.max(lo, 0), builtins.max(lo, 0) + x.shape[d])
    out = full(shape, value or 0, dtype=x.dtype)
    out[tuple(sl)] = x
    return out


def relu(x, inplace=False):
    return x.relu()


def leaky_relu(x, negative_slope=0.01, inplace=False):
    return where(x >= 0, x, x * negative_slope)


def elu(x, alpha=1.0, inplace=False):
    return where(x > 0, x, (x.exp() - 1) * alpha)


def logsigmoid(x):
    return -((-x).exp() + 1).log()


def cosine_similarity(a, b, dim=1, eps=1e-8):
    return (a * b).sum(dim) / (a.norm(2, dim) * b.norm(2, dim)).clamp_min(eps)


# -- fallbacks -----------------------------------------------------------------------------------
def _to_torch(x):
    if type.__instancecheck__(Tensor, x):
        return rt().from_numpy(np.ascontiguousarray(to_real(x._a, "torch"))).to(x._dt) if x._a.ndim else rt().tensor(
            to_real(x._a, "torch").item(), dtype=x._dt)
    if _isinstance(x, SArr) or is_sym(x):
        return to_real(x, "torch")
    if _isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*(_to_torch(v) for v in x))
    if _isinstance(x, (list, tuple)):
        return type(x)(_to_torch(v) for v in x)
    if _isinstance(x, dict):
        return {k: _to_torch(v) for k, v in x.items()}
    return x


def _from_torch(x):
    if _torch is not None and _isinstance(x, _torch.Tensor):
        return ten(x) if not x.is_sparse else Sparse(ten(x.to_dense()))
    if _isinstance(x, tuple) and hasattr(x, "_fields"):
        return tuple(_from_torch(v) for v in x)
    if _isinstance(x, (list, tuple)):
        return type(x)(_from_torch(v) for v in x)
    return x


def _resolve(path):
    o = rt()
    for p in path.split("."):
        o = getattr(o, p)
    return o


def _fallback(path):
    def f(*a, **k):
        c = Ctx.cur
        if c is not None and path in c.data.get("torch_stubs", ()):
            return c.data["torch_stubs"][path](*a, **k)
        if c is not None:
            d = c.stats.enum_fallbacks
            d["torch." + path] = d.get("torch." + path, 0) + 1
        k.pop("generator", None)
        return _from_torch(_resolve(path)(*_to_torch(a), **_to_torch(k)))

    return f


def _fallback_method(nm, self, a, k):
    real = _to_torch(self)
    r = getattr(real, nm)(*_to_torch(a), **_to_torch(k))
    if nm.endswith("_") and r is real:
        return self._store(ten(r)._a)
    return _from_torch(r)


class _Mod(types.ModuleType):
    """Namespace over a real torch module: our functions first, then real classes, else fallback."""

    def __init__(self, path, own):
        super().__init__("torch" + ("." + path if path else ""))
        self.__dict__["_path"] = path
        self.__dict__.update(own)

    def __getattr__(self, nm):
        if nm.startswith("__"):
            raise AttributeError(nm)
        path = (self._path + "." if self._path else "") + nm
        real = _resolve(path)
        if _isinstance(real, types.ModuleType):
            m = sys.modules.get("torch." + path)
            m = m if _isinstance(m, _Mod) else _Mod(path, {})
            return m
        if _isinstance(real, type) or not callable(real):
            return real
        mod = getattr(real, "__module__", "") or ""
        if nm in _PASS or mod.startswith("torch.cuda") or mod.startswith("torch.backends"):
            return real
        return _fallback(path)


_PASS = {"no_grad", "enable_grad", "inference_mode", "set_grad_enabled", "is_grad_enabled", "device", "get_num_threads",
         "set_num_threads", "use_deterministic_algorithms", "autocast", "compile", "get_default_dtype", "is_available",
         "finfo", "iinfo", "promote_types"}


class TorchShim(_Mod):
    pass


def _linalg_solve(a, b):
    try:
        return wrap(A.np_solve(ten(a)._a, ten(b)._a), ten(a)._dt)
    except np.linalg.LinAlgError as exc:
        raise rt().linalg.LinAlgError(str(exc)) from exc


def _unfn(nm):
    return lambda x, *a, **k: getattr(ten(x), nm)(*a, **k)


def build():
    F = dict(one_hot=one_hot, cross_entropy=cross_entropy, softmax=softmax, log_softmax=log_softmax, mse_loss=mse_loss, kl_div=kl_div,
             dropout=dropout, normalize=normalize, pad=pad, relu=relu, leaky_relu=leaky_relu, elu=elu, logsigmoid=logsigmoid, nll_loss=nll_loss, l1_loss=l1_loss,
             cosine_similarity=cosine_similarity, binary_cross_entropy=binary_cross_entropy)
    func = _Mod("nn.functional", F)
    nn = _Mod("nn", {"functional": func})
    own = {n: globals()[n] for n in
           ("as_tensor", "tensor", "from_numpy", "zeros", "ones", "empty", "full", "zeros_like", "ones_like", "full_like",
            "empty_like", "eye", "arange", "linspace", "where", "cat", "stack", "vstack", "hstack", "split", "chunk", "nonzero", "maximum",
            "minimum", "softmax", "log_softmax", "sort", "argsort", "topk", "unique", "bincount", "searchsorted", "norm", "cdist",
            "equal", "allclose", "einsum", "isin", "outer", "sparse_coo_tensor", "manual_seed", "randperm", "rand", "randn",
            "rand_like", "randn_like", "randint", "bernoulli", "Generator", "Tensor")}
    own["concat"] = own["concatenate"] = cat
    own["max"], own["min"] = t_max, t_min
    own["cosine_similarity"] = cosine_similarity
    own["relu"] = relu
    own["nn"] = nn
    own["linalg"] = _Mod("linalg", {"solve": _linalg_solve, "norm": lambda x, ord=2, dim=None, keepdim=False, **k: ten(x).norm(ord, dim, keepdim),
                                    "vector_norm": lambda x, ord=2, dim=None, keepdim=False, **k: ten(x).norm(ord, dim, keepdim)})
    own["sparse"] = _Mod("sparse", {"mm": lambda s, d: (s.dense if _isinstance(s, Sparse) else ten(s)) @ ten(d)})
    own["is_tensor"] = lambda x: _isinstance(x, Tensor)
    own["is_floating_point"] = lambda x: is_float(x.dtype)
    for nm in ("sum", "mean", "prod", "std", "var", "any", "all", "argmax", "argmin", "amax", "amin", "abs", "exp", "log", "log1p", "sqrt",
               "rsqrt", "square", "floor", "ceil", "round", "sign", "clamp", "clamp_min", "sigmoid", "pow", "dot", "matmul", "mm", "bmm",
               "flatten", "squeeze", "unsqueeze", "transpose", "permute", "cumsum", "logsumexp", "isnan", "isfinite", "isinf",
               "index_select", "gather", "masked_select", "repeat_interleave", "diag", "diagonal", "logical_not", "logical_and",
               "logical_or", "eq", "ne", "lt", "le", "gt", "ge", "add", "sub", "mul", "div", "neg", "clone", "reshape", "numel", "flip", "roll",
               "tril", "triu", "median", "tanh", "t", "clip", "unbind", "ravel", "reciprocal", "remainder", "scatter"):
        own[nm] = _unfn(nm)
    m = TorchShim("", own)
    m.__version__ = rt().__version__
    return m


_install()
_SHIM = None


def shim():
    global _SHIM
    if _SHIM is None:
        rt()
        _SHIM = build()
    return _SHIM


class TorchPatch:
    """Context manager: every modssc/bench module sees the symbolic torch."""

    prefixes = ("modssc", "bench")

    def __enter__(self):
        real, sh = rt(), shim()
        self.saved = []
        self.mods = {"torch": sh, "torch.nn": sh.nn, "torch.nn.functional": sh.nn.functional}
        repl = {id(real): sh, id(real.nn): sh.nn, id(real.nn.functional): sh.nn.functional}
        for name, mod in list(sys.modules.items()):
            if mod is None or not any(name == p or name.startswith(p + ".") for p in self.prefixes):
                continue
            for k, v in list(mod.__dict__.items()):
                if id(v) in repl:
                    self.saved.append((mod.__dict__, k, v))
                    mod.__dict__[k] = repl[id(v)]
        self.old = {k: sys.modules.get(k) for k in self.mods}
        sys.modules.update(self.mods)
        return self

    def __exit__(self, *exc):
        for g, k, v in reversed(self.saved):
            g[k] = v
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        return False


def install_torch_script(script):
    """Replay: real torch generators answer from the script.  Returns an undo function."""
    from .rng import ScriptedGenerator, _seed_key

    table = {}
    for k, n, kind, params, vals in script:
        if k[0] in ("torch", "tglob", "amb"):
            table.setdefault((k, n, kind), []).append((params, vals))
    if not any(k[0][0] in ("torch", "tglob") for k in table):
        return lambda: None
    t = importlib.import_module("torch")
    real = {n: getattr(t, n) for n in ("Generator", "randperm", "rand", "randn", "randint", "manual_seed", "rand_like", "randn_like",
                                        "bernoulli")}

    class Gen:
        def __init__(self, device="cpu"):
            self.device = t.device(device)
            self.real = real["Generator"](device=device)
            self.key, self.sg = ("torch", ("c", 67280421310721)), None

        def manual_seed(self, s):
            self.real.manual_seed(_int(s))
            self.key = ("torch", _seed_key(_int(s)))
            self.sg = None
            return self

        def initial_seed(self):
            return self.real.initial_seed()

        def gen(self):
            if self.sg is None:
                self.sg = ScriptedGenerator(self.key, table, np.random.default_rng(_int(self.real.initial_seed()) % 2**63))
            return self.sg

    glob = {"g": None}

    def pick(g):
        if g is None:
            if glob["g"] is None:
                glob["g"] = ScriptedGenerator(("amb", 1), table, np.random.default_rng(5))
            return glob["g"]
        return g.gen()

    def manual(s):
        glob["g"] = ScriptedGenerator(("tglob", _seed_key(_int(s))), table, np.random.default_rng(_int(s)))
        return real["manual_seed"](s)

    def shp(shape, size):
        shape = shape or (size,)
        return tuple(shape[0]) if len(shape) == 1 and _isinstance(shape[0], (tuple, list)) else tuple(shape)

    new = {"Generator": Gen, "manual_seed": manual,
           "randperm": lambda n, generator=None, dtype=None, device=None, **k: t.tensor(
               np.asarray(pick(generator).permutation(_int(n))), dtype=dtype or t.int64),
           "rand": lambda *s, generator=None, dtype=None, device=None, size=None, **k: t.tensor(
               np.asarray(pick(generator).random(shp(s, size))), dtype=dtype or t.float32),
           "randn": lambda *s, generator=None, dtype=None, device=None, size=None, **k: t.tensor(
               np.asarray(pick(generator).standard_normal(shp(s, size))), dtype=dtype or t.float32)}
    new["rand_like"] = lambda x, generator=None, dtype=None, **k: new["rand"](tuple(x.shape), generator=generator, dtype=dtype or x.dtype)
    new["randn_like"] = lambda x, generator=None, dtype=None, **k: new["randn"](tuple(x.shape), generator=generator, dtype=dtype or x.dtype)

    def ri(low, high=None, size=None, generator=None, dtype=None, device=None, **k):
        if size is None:
            low, high, size = 0, low, high
        return t.tensor(np.asarray(pick(generator).integers(low, high, size=tuple(size))), dtype=dtype or t.int64)

    new["randint"] = ri
    new["bernoulli"] = lambda p, generator=None, **k: (t.tensor(pick(generator).random(tuple(p.shape)), dtype=p.dtype) < p).to(p.dtype)
    for n, f in new.items():
        setattr(t, n, f)

    def undo():
        for n, f in real.items():
            setattr(t, n, f)

    return undo


# -- harness helpers: the same code runs symbolically and on replay ---------------------------------
def T(x, dtype=None):
    """Tensor from an array: the stand-in during symbolic runs, real torch on replay."""
    if Ctx.cur is not None:
        return as_tensor(x if _isinstance(x, SArr) else sarr(x), getattr(rt(), dtype) if dtype else None)
    t = importlib.import_module("torch")
    return t.as_tensor(np.array(x), dtype=getattr(t, dtype) if dtype else None)


def TM():
    """The torch module the code under test sees."""
    return shim() if Ctx.cur is not None else importlib.import_module("torch")
