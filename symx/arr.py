"""SArr: an ndarray subclass whose elements may be symbolic; numpy function models over it."""
from __future__ import annotations

import builtins
import math

import numpy as np

from .core import (Ctx, Sym, SymBool, SymInt, SymReal, as_z3_bool, is_sym, ite, kind_of, num_cmp,
                   num_op, smax, smin, sym_exp, sym_log, sym_sqrt, to_int_expr, to_real_expr,
                   z_and, z_iff, z_not, z_or, z3, round_half_even, _nonfinite)

_obj = np.dtype(object)
_int, _float, _bool = builtins.int, builtins.float, builtins.bool


def _ld_of(dt):
    return np.dtype(dt)


class SArr(np.ndarray):
    """Object array holding Python numbers or Sym scalars plus a logical dtype `_ld`."""

    __array_priority__ = 100

    def __array_finalize__(self, obj):
        self._ld = getattr(obj, "_ld", _obj) if obj is not None else _obj

    # ---- basics -------------------------------------------------------------
    def _raw(self):
        return self.view(np.ndarray)

    @property
    def dtype(self):
        return self._ld

    @property
    def itemsize(self):
        return self._ld.itemsize

    @property
    def nbytes(self):
        return self._ld.itemsize * self.size

    @property
    def has_sym(self):
        return has_sym(self)

    def __reduce__(self):
        return self.real().__reduce__()

    def __sym_concrete__(self, model):  # pragma: no cover
        from .core import model_value

        return model_value(self, model)

    def real(self):  # type: ignore[override]
        """Concrete numpy array (decides remaining symbolic elements)."""
        return to_real(self)

    def __bool__(self):
        if self.size == 1:
            return _bool(self._raw().reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return _int(self._raw().reshape(-1)[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return _float(self._raw().reshape(-1)[0])

    def __index__(self):
        if self.size != 1:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self._raw().reshape(-1)[0].__index__()

    def __str__(self):
        return f"SArr{self._raw().tolist()}"

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, v):
        return _bool(np_any(ufunc_call(np.equal, self, v)))

    def __deepcopy__(self, memo):
        return self.copy()

    # ---- indexing -------------------------------------------------------------
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # ---- shape methods that ndarray gives for free, keeping _ld ----------------
    def copy(self, order="C"):
        return mk(self._raw().copy(), self._ld)

    def __copy__(self):
        return self.copy()

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(undtype(dtype))
        if dt == self._ld and not copy:
            return self
        return cast_arr(self, dt)

    def tolist(self):
        return self._raw().tolist() if self._ld.kind in "Ob" or self.has_sym else self.real().tolist()

    def item(self, *a):
        r = self._raw()
        v = r.item(*a) if a else (r.reshape(-1)[0] if r.size == 1 else _raise(
            ValueError("can only convert an array of size 1 to a Python scalar")))
        return v

    def fill(self, v):
        self[...] = v

    def tobytes(self, order="C"):
        if self.has_sym:
            from .fsx import array_bytes

            return array_bytes(self)
        return to_real(self, "tobytes").tobytes()

    def view(self, *a, **k):
        if a and a[0] is np.ndarray:
            return np.ndarray.view(self, np.ndarray)
        if not a and not k:
            return mk(np.ndarray.view(self, np.ndarray), self._ld)
        if a and undtype(a[0]) in (np.uint8, np.dtype(np.uint8)) and self.has_sym:
            from .fsx import array_bytes

            return array_bytes(self)
        return sarr(to_real(self, "view").view(*[undtype(x) for x in a], **k))

    def diagonal(self, *a, **k):
        return mk(np.ndarray.diagonal(self._raw(), *a, **k), self._ld)

    def __array_function__(self, func, types, args, kwargs):
        return call_np(func.__name__, func, args, kwargs)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array__(self, dtype=None, copy=None):
        # reached from unpatched C code such as scipy/sklearn
        out = to_real(self, "__array__")
        return out if dtype is None else out.astype(dtype)


def _raise(e):
    raise e


def undtype(dt):
    """Map patched builtins back to what numpy understands."""
    m = getattr(dt, "_sym_real_type", None)
    return m if m is not None else dt


def mk(raw, ld):
    """Wrap an object ndarray as SArr with logical dtype."""
    out = raw.view(SArr) if raw.dtype == _obj else raw.astype(object).view(SArr)
    out._ld = np.dtype(ld)
    return out


def new_raw(shape):
    return np.empty(shape, dtype=object)


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SArr):
        for v in x._raw().flat:
            if isinstance(v, Sym):
                return True
        return False
    if isinstance(x, np.ndarray):
        if x.dtype == _obj:
            return any(isinstance(v, Sym) for v in x.flat)
        return False
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v) for v in x.values())
    return False


def has_sarr(x):
    if isinstance(x, (Sym, SArr)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sarr(v) for v in x)
    if isinstance(x, dict):
        return any(has_sarr(v) for v in x.values())
    return False


def sarr(x, dtype=None):
    """Build a SArr (copying) from anything array-like."""
    dtype = None if dtype is None else np.dtype(undtype(dtype))
    if isinstance(x, SArr):
        out = x.copy()
        return out if dtype is None or dtype == out._ld else cast_arr(out, dtype)
    if hasattr(type(x), "__sarr__"):
        return sarr(x.__sarr__(), dtype)
    if isinstance(x, Sym):
        r = new_raw(())
        r[()] = x
        out = mk(r, x.dtype)
        return out if dtype is None or dtype == out._ld else cast_arr(out, dtype)
    if isinstance(x, (list, tuple)) and has_sarr(x):
        return _sarr_from_nested(x, dtype)
    a = np.array(x) if dtype is None else np.array(x, dtype=dtype)
    return from_real(a)


def _sarr_from_nested(x, dtype):
    if dtype is not None and dtype == _obj:
        r = new_raw((len(x),))
        for i, v in enumerate(x):
            r[i] = v
        return mk(r, _obj)
    parts = [v if isinstance(v, SArr) and v.ndim == 0 or is_sym(v) else v for v in x]
    sub = [sarr(v) for v in parts]
    if not sub:
        return from_real(np.array([], dtype=dtype or float))
    shp = sub[0].shape
    if any(s.shape != shp for s in sub):
        raise ValueError("setting an array element with a sequence. The requested array has an "
                         "inhomogeneous shape")
    ld = dtype or result_ld(*sub)
    raw = new_raw((len(sub),) + shp)
    for i, s in enumerate(sub):
        raw[i] = s._raw() if shp else s._raw()[()]
    out = mk(raw, result_ld(*sub))
    return cast_arr(out, np.dtype(ld)) if np.dtype(ld) != out._ld else _normalize(out)


def _normalize(a):
    """Ensure concrete elements have the Python type of the logical kind."""
    return cast_arr(a, a._ld)


def from_real(a):
    a = np.asarray(a)
    if a.dtype.kind in "biufc":
        raw = new_raw(a.shape)
        flat = a.reshape(-1).tolist()
        rf = raw.reshape(-1)
        for i, v in enumerate(flat):
            rf[i] = v
        return mk(rf.reshape(a.shape), a.dtype)
    if a.dtype == _obj:
        raw = a.copy()
        return mk(raw, _obj)
    raw = new_raw(a.shape)
    rf = raw.reshape(-1)
    for i, v in enumerate(a.reshape(-1).tolist()):
        rf[i] = v
    return mk(rf.reshape(a.shape), a.dtype)


def to_real(x, why="real"):
    """Concrete ndarray; symbolic elements are decided by the solver one value at a time."""
    if isinstance(x, SArr):
        flat = []
        dec = False
        for v in x._raw().flat:
            if isinstance(v, Sym):
                dec = True
                v = v._decide(why)
            flat.append(v)
        if dec and Ctx.cur is not None:
            d = Ctx.cur.stats.enum_fallbacks
            d[why] = d.get(why, 0) + 1
        if x._ld == _obj:
            out = np.empty(len(flat), dtype=object)
            for i, v in enumerate(flat):
                out[i] = v
            return out.reshape(x.shape)
        return np.array(flat, dtype=x._ld).reshape(x.shape)
    if isinstance(x, Sym):
        return x._decide(why)
    if isinstance(x, list):
        return [to_real(v, why) for v in x]
    if isinstance(x, tuple):
        return tuple(to_real(v, why) for v in x)
    if isinstance(x, dict):
        return {k: to_real(v, why) for k, v in x.items()}
    return undtype(x) if isinstance(x, type) else x


def wrap_result(r):
    if isinstance(r, np.ndarray) and not isinstance(r, SArr):
        return from_real(r)
    if isinstance(r, tuple):
        return type(r)(*(wrap_result(v) for v in r)) if hasattr(r, "_fields") else tuple(
            wrap_result(v) for v in r)
    if isinstance(r, list):
        return [wrap_result(v) for v in r]
    return r


def scalar_out(v, ld):
    """Scalar leaving an array: numpy scalar for concrete values, Sym otherwise."""
    if isinstance(v, Sym):
        return v
    if ld.kind in "biuf" and isinstance(v, (_bool, _int, _float)):
        return ld.type(v)
    if ld.kind == "U" and isinstance(v, str):
        return np.str_(v)
    return v


# ---------------------------------------------------------------------------
# casting


def _wrap_int(v, dt):
    """Two's complement wrap-around of an out-of-range value (int64 is taken as unbounded)."""
    if dt == np.int64 or not isinstance(v, SymInt):
        return v
    info = np.iinfo(dt)
    lo, hi = _int(info.min), _int(info.max)
    if z3.is_app_of(v.e, z3.Z3_OP_ITE) and all(
            z3.is_int_value(c) and lo <= c.as_long() <= hi for c in v.e.children()[1:]):
        return v
    if (v >= lo) & (v <= hi):
        return v
    return SymInt((v.e - lo) % (hi - lo + 1) + lo)


def cast_elem(v, dt):
    k = dt.kind
    if isinstance(v, Sym):
        if k == "O":
            return v
        if k == "b":
            return v if isinstance(v, SymBool) else SymBool(v.e != 0)
        if k in "iu":
            if isinstance(v, SymReal):
                return _wrap_int(v.__trunc__(), dt)
            return _wrap_int(v if isinstance(v, SymInt) else SymInt(to_int_expr(v)), dt)
        if k == "f":
            return v if isinstance(v, SymReal) else SymReal(to_real_expr(v))
        return v._decide("cast")
    if k == "O":
        return v
    if k == "f":
        if dt == np.float64:
            return _float(v)
        with np.errstate(all="ignore"):
            return _float(dt.type(v))
    if k == "b":
        return _bool(v)
    if k in "iu":
        if isinstance(v, _float):
            if not math.isfinite(v):
                return _int(np.array(v).astype(dt))
            v = _int(v)
        v = _int(v)
        info = np.iinfo(dt)
        if not (info.min <= v <= info.max):
            v = _int(np.array(v, dtype=object).astype(np.int64).astype(dt)) if abs(v) < 2**63 else _int(
                np.uint64(v % 2**64).astype(dt))
        return v
    return np.array(v).astype(dt).item()


def cast_arr(a, dt):
    raw = a._raw()
    out = new_raw(raw.shape)
    of, rf = out.reshape(-1), raw.reshape(-1)
    for i in range(rf.size):
        of[i] = cast_elem(rf[i], dt)
    return mk(of.reshape(raw.shape), dt)


def ld_of_operand(x):
    """dtype-or-weak-type of an operand for result-type computation."""
    if isinstance(x, SArr):
        return x._ld
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, (_bool, SymBool)):
        return np.dtype(bool)
    if isinstance(x, (_int, SymInt)):
        return _int
    if isinstance(x, (_float, SymReal)):
        return _float
    return np.asarray(x).dtype


_weak = {_int: 0, _float: 0.0}


def result_ld(*xs):
    ds = [ld_of_operand(x) for x in xs]
    return np.result_type(*[_weak[d] if isinstance(d, type) else d for d in ds])


# ---------------------------------------------------------------------------
# ufuncs


def _logical(x):
    return x if isinstance(x, SymBool) else (SymBool(x.e != 0) if isinstance(x, Sym) else _bool(x))


def _isnan(x):
    return False if is_sym(x) else x != x


def _isfinite(x):
    return True if is_sym(x) else math.isfinite(x)


def _rint(x):
    if isinstance(x, SymReal):
        return SymReal(z3.ToReal(round_half_even(x.e)))
    return x if is_sym(x) else _float(np.rint(x))


def _floor(x):
    if isinstance(x, SymReal):
        return SymReal(z3.ToReal(z3.ToInt(x.e)))
    return x if is_sym(x) else _float(np.floor(x))


def _ceil(x):
    if isinstance(x, SymReal):
        return SymReal(-z3.ToReal(z3.ToInt(-x.e)))
    return x if is_sym(x) else _float(np.ceil(x))


def _trunc(x):
    if isinstance(x, SymReal):
        return SymReal(z3.ToReal(x.__trunc__().e))
    return x if is_sym(x) else _float(np.trunc(x))


def _sign(x):
    if is_sym(x):
        one = 1.0 if isinstance(x, SymReal) else 1
        return ite(x > 0, one, ite(x < 0, -one, 0 * one))
    return np.sign(x).item()


def _eq(a, b):
    if kind_of(a) == "b" and kind_of(b) == "b":
        return z_iff(a, b)
    if kind_of(a) is None or kind_of(b) is None:
        return a == b
    return num_cmp("==", a, b)


def _ne(a, b):
    return z_not(_eq(a, b))


def _bit(op):
    def f(a, b):
        if kind_of(a) == "b" and kind_of(b) == "b":
            if op == "and":
                return z_and([a, b])
            if op == "or":
                return z_or([a, b])
            return z_not(z_iff(a, b))
        return num_op(op, a, b)

    return f


def _fdiv(op):
    def f(a, b):
        if not is_sym(a) and not is_sym(b):
            with np.errstate(all="ignore"):
                fn = np.floor_divide if op == "//" else np.remainder
                return fn(a, b).item()
        return num_op(op, a, b)

    return f


def _div(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return _float(np.float64(a) / np.float64(b))
    return num_op("/", a, b)


def _pow(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.power(a, b).item()
    return num_op("**", a, b)


def _b2i(x):
    if isinstance(x, SymBool):
        return SymInt(to_int_expr(x))
    return x


def _abs(x):
    return abs(_b2i(x))


_UF = {
    "add": lambda a, b: num_op("+", a, b) if not (kind_of(a) == "b" and kind_of(b) == "b") else z_or([a, b]),
    "subtract": lambda a, b: num_op("-", a, b),
    "multiply": lambda a, b: num_op("*", a, b) if not (kind_of(a) == "b" and kind_of(b) == "b") else z_and([a, b]),
    "true_divide": _div, "divide": _div,
    "floor_divide": _fdiv("//"), "remainder": _fdiv("%"), "mod": _fdiv("%"),
    "power": _pow, "float_power": _pow,
    "maximum": smax, "minimum": smin, "fmax": smax, "fmin": smin,
    "less": lambda a, b: num_cmp("<", a, b), "less_equal": lambda a, b: num_cmp("<=", a, b),
    "greater": lambda a, b: num_cmp(">", a, b), "greater_equal": lambda a, b: num_cmp(">=", a, b),
    "equal": _eq, "not_equal": _ne,
    "logical_and": lambda a, b: z_and([_logical(a), _logical(b)]),
    "logical_or": lambda a, b: z_or([_logical(a), _logical(b)]),
    "logical_xor": lambda a, b: z_not(z_iff(_logical(a), _logical(b))),
    "logical_not": lambda a: z_not(_logical(a)),
    "bitwise_and": _bit("and"), "bitwise_or": _bit("or"), "bitwise_xor": _bit("xor"),
    "invert": lambda a: z_not(a) if kind_of(a) == "b" else ~a,
    "negative": lambda a: -a, "positive": lambda a: a, "absolute": _abs, "fabs": _abs, "abs": _abs,
    "sqrt": sym_sqrt, "square": lambda a: num_op("*", a, a), "exp": sym_exp, "log": sym_log,
    "reciprocal": lambda a: _div(1.0, a),
    "isnan": _isnan, "isfinite": _isfinite, "isinf": lambda a: z_not(z_or([_isfinite(a), _isnan(a)])),
    "rint": _rint, "floor": _floor, "ceil": _ceil, "trunc": _trunc, "sign": _sign,
    "log1p": lambda a: sym_log(num_op("+", 1.0, a)), "expm1": lambda a: num_op("-", sym_exp(a), 1.0),
    "cbrt": lambda a: np.cbrt(a if not is_sym(a) else a._decide("cbrt")).item(),
}

_IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False, "bitwise_or": 0,
          "bitwise_and": -1}


def _uf_out_ld(ufunc, inputs):
    ds = []
    for x in inputs:
        d = ld_of_operand(x)
        ds.append(d)
    if any(d == _obj for d in ds if not isinstance(d, type)):
        if ufunc.__name__ in ("equal", "not_equal", "less", "less_equal", "greater", "greater_equal",
                              "isnan", "isfinite", "logical_and", "logical_or", "logical_not"):
            return np.dtype(bool)
        return _obj
    try:
        if all(isinstance(d, type) for d in ds):
            ds = [np.dtype(d) for d in ds]
        return ufunc.resolve_dtypes(tuple(ds) + (None,) * ufunc.nout)[-1]
    except TypeError:
        if len(ds) == 2 and any(d == np.dtype(bool) for d in ds) and ufunc.__name__ == "subtract":
            raise
        return _obj


def ufunc_call(ufunc, *inputs, out=None, where=True, dtype=None):
    name = ufunc.__name__
    dtype = None if dtype is None else np.dtype(undtype(dtype))
    inputs = [sarr(x) if isinstance(x, (list, tuple)) else x for x in inputs]
    if name not in _UF or ufunc.nout != 1:
        rin = [to_real(x, f"ufunc:{name}") for x in inputs]
        with np.errstate(all="ignore"):
            r = ufunc(*rin) if dtype is None else ufunc(*rin, dtype=dtype)
        r = wrap_result(r)
    elif not any(has_sym(x) for x in inputs):
        rin = [to_real(x) for x in inputs]
        with np.errstate(all="ignore"):
            r = wrap_result(ufunc(*rin) if dtype is None else ufunc(*rin, dtype=dtype))
    else:
        ld = dtype or _uf_out_ld(ufunc, inputs)
        raws = [x._raw() if isinstance(x, SArr) else (x if isinstance(x, Sym) else
                from_real(np.asarray(x))._raw() if isinstance(x, np.ndarray) else x) for x in inputs]
        f = _UF[name]
        arrs = []
        for x in raws:
            if isinstance(x, np.ndarray):
                arrs.append(x)
            else:
                c = new_raw(())
                c[()] = x.item() if isinstance(x, np.generic) else x
                arrs.append(c)
        if all(a.ndim == 0 for a in arrs):
            v = f(*[a[()] for a in arrs])
            return _store_out(scalar_out(cast_elem(v, ld) if ld != _obj else v, ld), out, where)
        bs = np.broadcast_arrays(*arrs)
        res = new_raw(bs[0].shape)
        rf = res.reshape(-1)
        its = [b.reshape(-1) for b in bs]
        for i in range(rf.size):
            v = f(*[t[i] for t in its])
            rf[i] = cast_elem(v, ld) if ld != _obj else v
        r = mk(rf.reshape(bs[0].shape), ld)
    return _store_out(r, out, where)


def _store_out(r, out, where):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        return r
    if where is True:
        out[...] = r
    else:
        w = sarr(where)
        out[...] = np_where(w, r, out)
    return out


def ufunc_dispatch(ufunc, method, inputs, kwargs):
    out = kwargs.get("out")
    if method == "__call__":
        return ufunc_call(ufunc, *inputs, out=out, where=kwargs.get("where", True),
                          dtype=kwargs.get("dtype"))
    if method == "reduce":
        return reduce_uf(ufunc, inputs[0], axis=kwargs.get("axis", 0),
                         keepdims=kwargs.get("keepdims", False), dtype=kwargs.get("dtype"),
                         initial=kwargs.get("initial"), where=kwargs.get("where", True))
    if method == "accumulate":
        return accumulate_uf(ufunc, inputs[0], axis=kwargs.get("axis", 0))
    if method == "outer":
        a, b = [sarr(x) for x in inputs]
        return ufunc_call(ufunc, a.reshape(a.shape + (1,) * b.ndim), b)
    if method == "at":
        ufunc_at(ufunc, *inputs)
        return None
    if method == "reduceat":
        return reduceat_uf(ufunc, *inputs)
    raise NotImplementedError(method)


def reduce_uf(ufunc, a, axis=None, keepdims=False, dtype=None, initial=None, where=True):
    a = a if isinstance(a, SArr) else sarr(a)
    name = ufunc.__name__
    if where is not True:
        ident = initial if initial is not None else _IDENT.get(name)
        a = np_where(sarr(where), a, ident)
    dtype = None if dtype is None else np.dtype(undtype(dtype))
    if name not in _UF or not has_sym(a):
        kw = {"axis": axis, "keepdims": keepdims}
        if dtype is not None:
            kw["dtype"] = dtype
        if initial is not None and type(initial).__name__ != "_NoValueType":
            kw["initial"] = to_real(initial)
        with np.errstate(all="ignore"):
            return wrap_result(ufunc.reduce(to_real(a, f"reduce:{name}"), **kw))
    if name == "add":
        ld = dtype or (np.dtype(np.int64) if a._ld.kind in "b" or (a._ld.kind == "i") else a._ld)
    elif name in ("logical_and", "logical_or"):
        ld = np.dtype(bool)
    else:
        ld = dtype or a._ld
    if initial is not None and type(initial).__name__ == "_NoValueType":
        initial = None
    return _reduce(a, axis, keepdims, lambda vals: _fold(name, vals, initial, ld), ld)


def _fold(name, vals, initial, ld):
    if name == "logical_and":
        return z_and([_logical(v) for v in vals])
    if name == "logical_or":
        return z_or([_logical(v) for v in vals])
    f = _UF[name]
    if name in ("add", "multiply") and ld.kind != "b":
        vals = [_b2i(v) if not isinstance(v, _bool) else _int(v) for v in vals]
    acc = initial
    if acc is None and not vals:
        if name in _IDENT:
            acc = _IDENT[name]
        else:
            raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
    if name == "add" and any(is_sym(v) for v in vals) and not any(_nonfinite(v) for v in vals) and len(vals) > 2:
        real = any(kind_of(v) == "r" for v in vals) or kind_of(acc) == "r"
        ex = [(to_real_expr(v) if real else to_int_expr(v)) for v in vals if is_sym(v) or v != 0]
        if acc is not None and not (not is_sym(acc) and acc == 0):
            ex.append(to_real_expr(acc) if real else to_int_expr(acc))
        e = z3.Sum(ex) if len(ex) > 1 else ex[0]
        out = SymReal(e) if real else SymInt(e)
        return cast_elem(out, ld) if ld != _obj else out
    for v in vals:
        acc = v if acc is None else f(acc, v)
    return cast_elem(acc, ld) if ld != _obj else acc


def _reduce(a, axis, keepdims, fn, ld):
    raw = a._raw()
    if axis is None:
        v = fn(list(raw.reshape(-1)))
        if keepdims:
            r = new_raw((1,) * raw.ndim)
            r[...] = v
            return mk(r, ld)
        return scalar_out(v, ld)
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = tuple(sorted(_int(x) % raw.ndim if -raw.ndim <= _int(x) < raw.ndim else _raise(
        np.exceptions.AxisError(_int(x), raw.ndim)) for x in axes))
    rest = [i for i in range(raw.ndim) if i not in axes]
    t = raw.transpose(rest + list(axes))
    rshape = tuple(raw.shape[i] for i in rest)
    n = 1
    for i in axes:
        n *= raw.shape[i]
    t = t.reshape((-1, n)) if n else t.reshape((_int(np.prod(rshape, dtype=int)), 0))
    cnt = _int(np.prod(rshape, dtype=int))
    res = new_raw((cnt,))
    for i in range(cnt):
        res[i] = fn(list(t[i]))
    if keepdims:
        kshape = tuple(1 if i in axes else raw.shape[i] for i in range(raw.ndim))
        return mk(res.reshape(kshape), ld)
    if not rshape:
        return scalar_out(res[0], ld)
    return mk(res.reshape(rshape), ld)


def reduceat_uf(ufunc, a, indices, axis=0, dtype=None):
    a = sarr(a)
    idx = [_s(i) for i in sarr(indices)._raw().reshape(-1)]
    idx = [i.__index__() if is_sym(i) else _int(i) for i in idx]  # forks on the group starts only
    n = a.shape[0]
    parts = []
    for k, st in enumerate(idx):
        if st < 0 or st >= n:
            raise IndexError(f"index {st} out-of-bounds in {ufunc.__name__}.reduceat [0, {n})")
        en = idx[k + 1] if k + 1 < len(idx) else n
        seg = a[st:en] if en > st else a[st:st + 1]
        parts.append(reduce_uf(ufunc, seg, axis=0))
    return np_stack([sarr(p) for p in parts]) if parts else a[:0]


def accumulate_uf(ufunc, a, axis=0):
    a = sarr(a)
    if ufunc.__name__ not in _UF or not has_sym(a):
        return wrap_result(ufunc.accumulate(to_real(a, "accumulate"), axis=axis))
    f = _UF[ufunc.__name__]
    raw = np.moveaxis(a._raw(), axis, 0).copy()
    if a._ld.kind == "b" and ufunc.__name__ == "add":
        a = cast_arr(a, np.dtype(np.int64))
        raw = np.moveaxis(a._raw(), axis, 0).copy()
    for i in range(1, raw.shape[0]):
        prev, cur = raw[i - 1], raw[i]
        if raw.ndim == 1:
            raw[i] = f(prev, cur)
        else:
            pf, cf = prev.reshape(-1), cur.reshape(-1)
            for j in range(cf.size):
                cf[j] = f(pf[j], cf[j])
            raw[i] = cf.reshape(cur.shape)
    return mk(np.moveaxis(raw, 0, axis), a._ld)


def ufunc_at(ufunc, a, idx, vals=None):
    f = _UF[ufunc.__name__]
    if not isinstance(a, SArr):
        if not has_sym((idx, vals)):
            getattr(ufunc, "at")(a, to_real(idx), *(() if vals is None else (to_real(vals),)))
            return
        raise TypeError("ufunc.at on a plain array with symbolic operands")
    # enumerate target positions in order
    pos = np.arange(a.size).reshape(a.shape)
    comps = list(idx) if isinstance(idx, tuple) else [idx]
    if any(isinstance(c, SArr) and c._ld.kind == "b" and has_sym(c) for c in comps):
        comps = [to_real(c, "at-mask") if isinstance(c, SArr) and c._ld.kind == "b" else c for c in comps]
    if any(has_sym(c) for c in comps):
        if any(isinstance(c, slice) or c is None or c is Ellipsis for c in comps):
            comps = [to_real(c, "at-index") for c in comps]
        else:
            carr = [sarr(c) for c in comps]
            bs = np.broadcast_arrays(*[c._raw() for c in carr])
            rest = a.shape[len(carr):]
            v = np.broadcast_to(sarr(vals)._raw(), bs[0].shape + rest)
            nb = bs[0].size
            flat = [b.reshape(-1) for b in bs]
            vf = v.reshape((nb,) + rest)
            raw = a._raw()
            for t in range(nb):
                for combo, cond in _sym_positions([fl[t] for fl in flat], a.shape):
                    tgt = raw[combo]
                    if rest:
                        tf = tgt.reshape(-1)
                        sf = vf[t].reshape(-1)
                        new = new_raw((tf.size,))
                        for j in range(tf.size):
                            new[j] = _store_cast(ite(cond, f(tf[j], sf[j]), tf[j]), a._ld)
                        raw[combo] = new.reshape(rest)
                    else:
                        raw[combo] = _store_cast(ite(cond, f(tgt, vf[t]), tgt), a._ld)
            return
    key = tuple(to_real(c) for c in comps)
    targets = pos[key]
    raw = a._raw()
    rf = raw.reshape(-1) if raw.flags.c_contiguous else None
    v = np.broadcast_to(sarr(vals)._raw(), np.shape(targets)).reshape(-1)
    tg = np.asarray(targets).reshape(-1)
    for t, p in enumerate(tg):
        if rf is not None:
            rf[p] = _store_cast(f(rf[p], v[t]), a._ld)
        else:
            mi = np.unravel_index(p, a.shape)
            raw[mi] = _store_cast(f(raw[mi], v[t]), a._ld)


def _store_cast(v, ld):
    return v if ld == _obj else cast_elem(v, ld)


def _sym_positions(idxs, shape):
    """All (position tuple, condition) combos for a tuple of possibly symbolic indices."""
    combos = [((), True)]
    for i, ix in enumerate(idxs):
        n = shape[i]
        new = []
        if is_sym(ix):
            ix = ix if isinstance(ix, SymInt) else SymInt(to_int_expr(ix))
            if Ctx.cur.branch(z3.Or(ix.e < -n, ix.e >= n)):
                raise IndexError(f"index out of bounds for axis {i} with size {n}")
            for pre, c in combos:
                for v in range(n):
                    cond = SymBool(z3.Or(ix.e == v, ix.e == v - n))
                    new.append((pre + (v,), z_and([c, cond])))
        else:
            v = _int(ix)
            if not -n <= v < n:
                raise IndexError(f"index {v} is out of bounds for axis {i} with size {n}")
            for pre, c in combos:
                new.append((pre + (v % n,), c))
        combos = new
    return combos


# ---------------------------------------------------------------------------
# indexing


def _norm_key(a, key):
    comps = list(key) if isinstance(key, tuple) else [key]
    out = []
    for c in comps:
        if isinstance(c, slice):
            c = slice(*[None if v is None else v.__index__() if not isinstance(v, _int) else v
                        for v in (c.start, c.stop, c.step)])
        elif isinstance(c, list):
            c = sarr(c) if c else np.array(c, dtype=np.int64)
        elif isinstance(c, SymBool):
            c = _bool(c)
        elif isinstance(c, np.ndarray) and c.ndim == 0:
            c = c.item()
        out.append(c)
    return out


def _plain(comps):
    """Components with concrete content as plain numpy index objects."""
    out = []
    for c in comps:
        if isinstance(c, SArr):
            if c._ld.kind not in "biu":
                if c.size == 0 and c._ld.kind == "f":
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
                if c._ld.kind != "O":
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
            r = to_real(c)
            if r.dtype == _obj:
                r = r.astype(np.int64)
            out.append(r)
        else:
            out.append(c)
    return tuple(out)


def rank_bits(bits):
    """Decide how many bits are set (m); return m and sel[j][i] = 'bit i is the j-th set bit'."""
    bits = [_logical(b) for b in bits]
    n = len(bits)
    # P[j] = exactly j of the bits seen so far are set
    P = [True]
    hist = []
    for b in bits:
        hist.append(P)
        nb = z_not(b)
        P = [z_or([z_and([P[j], nb]) if j < len(P) else False,
                   z_and([P[j - 1], b]) if j >= 1 else False]) for j in range(len(P) + 1)]
    tot = num_op("+", 0, 0)
    for j in range(n + 1):
        tot = ite(P[j], j, tot)
    m = tot if not is_sym(tot) else Ctx.cur.concretize_int(tot.e, "mask-count")
    sel = [[z_and([hist[i][j] if j < len(hist[i]) else False, bits[i]]) for i in range(n)]
           for j in range(m)]
    return m, sel


def compact(sel, values):
    """values[i] chosen by each row of sel (rows are one-hot on this path)."""
    out = []
    for row in sel:
        cand = [(c, v) for c, v in zip(row, values) if c is not False]
        acc = cand[-1][1]
        for c, v in reversed(cand[:-1]):
            acc = ite(c, v, acc)
        out.append(acc)
    return out


def compacting():
    return Ctx.cur is not None and Ctx.cur.ex.opts.get("compact", False)


def _compact_getitem(a, mask, rest):
    m, sel = rank_bits(list(mask._raw().reshape(-1)))
    base = a._raw().reshape((mask.size,) + a.shape[mask.ndim:])
    tail = base.shape[1:]
    w = _int(np.prod(tail, dtype=int))
    bf = base.reshape((mask.size, w))
    out = new_raw((m, w))
    for c in range(w):
        col = compact(sel, [bf[i, c] for i in range(mask.size)])
        for j in range(m):
            out[j, c] = col[j]
    r = mk(out.reshape((m,) + tail), a._ld)
    return r[(slice(None),) + tuple(rest)] if rest else r


def getitem(a, key):
    comps = _norm_key(a, key)
    if compacting() and comps and isinstance(comps[0], SArr) and comps[0]._ld.kind == "b" and has_sym(
            comps[0]) and comps[0].shape == a.shape[:comps[0].ndim] and all(
            isinstance(c, slice) for c in comps[1:]):
        return _compact_getitem(a, comps[0], comps[1:])
    # symbolic boolean masks: decide the bits (the length depends on them)
    comps = [to_real(c, "mask") if isinstance(c, SArr) and c._ld.kind == "b" and has_sym(c) else c
             for c in comps]
    if any(has_sym(c) for c in comps if isinstance(c, (SArr, Sym))):
        r = _gather(a, comps)
        if r is not None:
            return r
        comps = [to_real(c, "index") if isinstance(c, (SArr, Sym)) else c for c in comps]
    raw = a._raw()
    k = _plain(comps)
    r = raw[k if len(k) != 1 else k[0]]
    if isinstance(r, np.ndarray) and (r.ndim or r.shape == () and any(c is Ellipsis for c in k)):
        return mk(r, a._ld)
    if isinstance(r, np.ndarray) and a._ld == _obj and not isinstance(r, Sym):
        return r
    return scalar_out(r, a._ld)


def _expand(a, comps):
    """Expand Ellipsis; returns comps or None when None/newaxis or boolean arrays are present."""
    if any(c is None for c in comps):
        return None
    if any(isinstance(c, np.ndarray) and c.dtype.kind == "b" for c in comps):
        return None
    if any(c is Ellipsis for c in comps):
        i = [j for j, c in enumerate(comps) if c is Ellipsis][0]
        n = a.ndim - (len(comps) - 1)
        comps = comps[:i] + [slice(None)] * n + comps[i + 1:]
    return comps + [slice(None)] * (a.ndim - len(comps))


def _gather(a, comps):
    comps = _expand(a, comps)
    if comps is None:
        return None
    adv = [i for i, c in enumerate(comps) if not isinstance(c, slice)]
    if adv != list(range(adv[0], adv[-1] + 1)):
        return None
    raw = a._raw()
    # move advanced axes to the front, apply slices on the others
    first = adv[0]
    sl = tuple(c if isinstance(c, slice) else slice(None) for c in comps)
    base = raw[sl]
    base = np.moveaxis(base, adv, list(range(len(adv))))
    idx = [sarr(comps[i])._raw() if isinstance(comps[i], np.ndarray) else comps[i] for i in adv]
    arrs = []
    for x in idx:
        if isinstance(x, np.ndarray):
            arrs.append(x)
        else:
            c = new_raw(())
            c[()] = x
            arrs.append(c)
    bs = np.broadcast_arrays(*arrs)
    bshape = bs[0].shape
    flat = [b.reshape(-1) for b in bs]
    rest = base.shape[len(adv):]
    ishape = base.shape[:len(adv)]
    nrest = _int(np.prod(rest, dtype=int))
    bf = base.reshape(ishape + (nrest,))
    nb = flat[0].size
    out = new_raw((nb, nrest))
    for t in range(nb):
        combos = _sym_positions([fl[t] for fl in flat], ishape)
        if not combos:
            raise IndexError("index into an empty axis")
        for j in range(nrest):
            acc = bf[combos[-1][0] + (j,)]
            for combo, cond in reversed(combos[:-1]):
                acc = ite(cond, bf[combo + (j,)], acc)
            out[t, j] = acc
    res = out.reshape(bshape + rest)
    if bshape == () and not rest:
        return scalar_out(res[()], a._ld)
    # numpy puts the broadcast dims at the position of the first advanced index
    if first > 0:
        res = np.moveaxis(res, list(range(len(bshape))), list(range(first, first + len(bshape))))
    return mk(res, a._ld)


def setitem(a, key, val):
    comps = _norm_key(a, key)
    raw = a._raw()
    ld = a._ld
    symmask = [c for c in comps if isinstance(c, SArr) and c._ld.kind == "b" and has_sym(c)]
    if symmask:
        v = val if isinstance(val, np.ndarray) else None
        scalar = v is None and not isinstance(val, (list, tuple)) or (v is not None and v.size == 1)
        if len(comps) >= 1 and comps[0] is symmask[0] and scalar and len(symmask) == 1 and all(
                isinstance(c, (slice, _int)) for c in comps[1:]):
            m = symmask[0]
            sv = val if v is None else v.reshape(-1)[0]
            sv = sv.item() if isinstance(sv, np.generic) else sv
            sub = raw[(slice(None),) * m.ndim + tuple(comps[1:])]
            mr = m._raw()
            if sub.shape[:m.ndim] != mr.shape:
                raise IndexError("boolean index did not match indexed array")
            for p in np.ndindex(mr.shape):
                tgt = sub[p]
                if isinstance(tgt, np.ndarray) and not isinstance(tgt, Sym):
                    for q in np.ndindex(tgt.shape):
                        tgt[q] = _store_cast(ite(mr[p], _store_cast(sv, ld), tgt[q]), ld)
                else:
                    sub[p] = _store_cast(ite(mr[p], _store_cast(sv, ld), tgt), ld)
            return
        comps = [to_real(c, "mask") if c is symmask[0] or any(c is s for s in symmask) else c
                 for c in comps]
    if any(has_sym(c) for c in comps if isinstance(c, (SArr, Sym))):
        ex = _expand(a, comps)
        if ex is not None and all(isinstance(c, slice) and c == slice(None) for c in ex
                                  if isinstance(c, slice)):
            adv = [i for i, c in enumerate(ex) if not isinstance(c, slice)]
            if adv == list(range(len(adv))):
                _scatter(a, [ex[i] for i in adv], val)
                return
        comps = [to_real(c, "index") if isinstance(c, (SArr, Sym)) else c for c in comps]
    k = _plain(comps)
    k = k if len(k) != 1 else k[0]
    if isinstance(val, np.ndarray) and val.ndim > 0 or isinstance(val, (list, tuple)) and ld != _obj:
        v = sarr(val)
        if v._ld != ld:
            v = cast_arr(v, ld)
        raw[k] = v._raw()
    else:
        if isinstance(val, np.ndarray) and ld != _obj:
            val = val.reshape(-1)[0]
            val = val.item() if isinstance(val, np.generic) else val
        elif isinstance(val, np.generic) and ld != _obj:
            val = val.item()
        if ld != _obj:
            val = cast_elem(val, ld)
            raw[k] = val
        elif isinstance(val, (list, tuple)):
            tgt = raw[k]
            if isinstance(tgt, np.ndarray) and tgt.ndim:
                raw[k] = val
            else:
                tmp = new_raw(())
                tmp[()] = val
                raw[k] = tmp[()]
        else:
            raw[k] = val


def _scatter(a, idx, val):
    raw = a._raw()
    arrs = []
    for x in idx:
        if isinstance(x, np.ndarray):
            arrs.append(sarr(x)._raw())
        else:
            c = new_raw(())
            c[()] = x
            arrs.append(c)
    bs = np.broadcast_arrays(*arrs)
    flat = [b.reshape(-1) for b in bs]
    rest = a.shape[len(idx):]
    v = np.broadcast_to(sarr(val)._raw(), bs[0].shape + rest).reshape((bs[0].size,) + rest)
    for t in range(bs[0].size):
        for combo, cond in _sym_positions([fl[t] for fl in flat], a.shape):
            if rest:
                tgt = raw[combo]
                for q in np.ndindex(rest):
                    tgt[q] = _store_cast(ite(cond, _store_cast(v[t][q], a._ld), tgt[q]), a._ld)
            else:
                raw[combo] = _store_cast(ite(cond, _store_cast(v[t], a._ld), raw[combo]), a._ld)


# ---------------------------------------------------------------------------
# numpy function models


def _s(x):
    return x if isinstance(x, SArr) else sarr(x)


def np_where(cond, x=None, y=None):
    if x is None:
        return np_nonzero(cond)
    c, a, b = _s(cond), _s(x), _s(y)
    ld = result_ld(x if not isinstance(x, (list, tuple)) else a, y if not isinstance(y, (list, tuple)) else b)
    cb, ab, bb = np.broadcast_arrays(c._raw(), a._raw(), b._raw())
    out = new_raw(cb.shape)
    for p in np.ndindex(cb.shape):
        out[p] = ite(_logical(cb[p]), _store_cast(ab[p], ld), _store_cast(bb[p], ld))
    if out.ndim == 0:
        return mk(out, ld)
    return mk(out, ld)


def np_nonzero(a):
    a = _s(a)
    if a.ndim == 1 and compacting() and has_sym(a):
        m, sel = rank_bits(list(a._raw()))
        vals = compact(sel, list(range(a.size)))
        raw = new_raw((m,))
        for i, v in enumerate(vals):
            raw[i] = v
        return (mk(raw, np.int64),)
    bits = to_real(cast_arr(a, np.dtype(bool)) if a._ld.kind != "b" else a, "nonzero")
    return tuple(from_real(x) for x in np.nonzero(bits))


def np_any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_uf(np.logical_or, _s(a), axis=axis, keepdims=keepdims, **k)


def np_all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_uf(np.logical_and, _s(a), axis=axis, keepdims=keepdims, **k)


def _novalue(x):
    return x is None or type(x).__name__ == "_NoValueType"


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    r = reduce_uf(np.add, _s(a), axis=axis, keepdims=False if _novalue(keepdims) else keepdims,
                  dtype=dtype, initial=None if _novalue(initial) else initial,
                  where=True if _novalue(where) else where)
    return _store_out(r, out, True)


def np_max(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return reduce_uf(np.maximum, _s(a), axis=axis, keepdims=False if _novalue(keepdims) else keepdims,
                     initial=None if _novalue(initial) else initial)


def np_min(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return reduce_uf(np.minimum, _s(a), axis=axis, keepdims=False if _novalue(keepdims) else keepdims,
                     initial=None if _novalue(initial) else initial)


def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, *, where=True):
    if not (_novalue(where) or where is True):
        a = np_where(_s(where), _s(a), 1)
    return reduce_uf(np.multiply, _s(a), axis=axis, keepdims=keepdims, dtype=dtype)


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, *, where=True):
    a = _s(a)
    kd = False if _novalue(keepdims) else keepdims
    if not (_novalue(where) or where is True):
        ld = np.dtype(undtype(dtype)) if dtype is not None else (a._ld if a._ld.kind == "f" else np.dtype(float))
        ws = _s(where)
        w = cast_arr(mk(np.broadcast_to(ws._raw(), a.shape), ws._ld), np.dtype(bool))
        s = np_sum(np_where(w, cast_arr(a, ld), 0.0), axis=axis, keepdims=kd)
        n = np_sum(cast_arr(w, np.dtype(np.int64)), axis=axis, keepdims=kd)
        # the mean of nothing is NaN
        if not isinstance(s, np.ndarray):
            return s / n if n > 0 else float("nan")
        sr, nr = _s(s), _s(n)
        out = np_where(ufunc_call(np.greater, nr, 0), ufunc_call(np.true_divide, sr, ufunc_call(np.maximum, nr, 1)), float("nan"))
        return cast_arr(out, ld)
    if not has_sym(a):
        with np.errstate(all="ignore"):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return wrap_result(np.mean(to_real(a), axis=axis, keepdims=kd, **({} if dtype is None else {"dtype": np.dtype(undtype(dtype))})))
    ld = np.dtype(undtype(dtype)) if dtype is not None else (a._ld if a._ld.kind == "f" else np.dtype(float))
    s = np_sum(cast_arr(a, ld), axis=axis, keepdims=kd)
    n = a.size if axis is None else _int(np.prod([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
    return ufunc_call(np.true_divide, s, n) if isinstance(s, np.ndarray) else _div(s, n)


def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    a = _s(a)
    kd = False if _novalue(keepdims) else keepdims
    if not has_sym(a):
        return wrap_result(np.var(to_real(a), axis=axis, ddof=ddof, keepdims=kd))
    m = np_mean(a, axis=axis, keepdims=True)
    d = ufunc_call(np.subtract, a, m)
    s = np_sum(ufunc_call(np.multiply, d, d), axis=axis, keepdims=kd)
    n = (a.size if axis is None else a.shape[axis]) - ddof
    return ufunc_call(np.true_divide, s, n) if isinstance(s, np.ndarray) else _div(s, n)


def np_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    v = np_var(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return ufunc_call(np.sqrt, v) if isinstance(v, np.ndarray) else scalar_out(sym_sqrt(v), np.dtype(float))


def _lt_total(a, b):
    return num_cmp("<", _b2i(a), _b2i(b))


def sort_network(vals, payload=None):
    """Stable ascending sort by compare-exchange with merged (ITE) values."""
    vals = list(vals)
    n = len(vals)
    payload = list(payload) if payload is not None else None
    if not any(is_sym(v) for v in vals):
        order = sorted(range(n), key=lambda i: (vals[i] != vals[i], vals[i]))
        return [vals[i] for i in order], ([payload[i] for i in order] if payload is not None else None)
    # odd-even transposition == stable bubble sort with strict swaps
    for i in range(n):
        for j in range(n - 1 - i):
            sw = num_cmp("<", _b2i(vals[j + 1]), _b2i(vals[j]))
            if sw is False:
                continue
            x, y = vals[j], vals[j + 1]
            vals[j], vals[j + 1] = ite(sw, y, x), ite(sw, x, y)
            if payload is not None:
                p, q = payload[j], payload[j + 1]
                payload[j], payload[j + 1] = ite(sw, q, p), ite(sw, p, q)
    return vals, payload


def _along(a, axis, fn, ld):
    """Apply fn(list)->list along an axis."""
    raw = np.moveaxis(a._raw(), axis, -1)
    lead = raw.shape[:-1]
    flat = raw.reshape((-1, raw.shape[-1])) if raw.size else raw.reshape((_int(np.prod(lead, dtype=int)), raw.shape[-1]))
    rows = [fn(list(r)) for r in flat]
    m = len(rows[0]) if rows else raw.shape[-1]
    out = new_raw((len(rows), m))
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            out[i, j] = v
    return mk(np.moveaxis(out.reshape(lead + (m,)), -1, axis), ld)


def np_sort(a, axis=-1, kind=None, order=None, stable=None):
    a = _s(a)
    if not has_sym(a):
        return wrap_result(np.sort(to_real(a), axis=axis))
    if axis is None:
        a, axis = a.reshape(-1), 0
    return _along(a, axis, lambda v: sort_network(v)[0], a._ld)


def np_argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = _s(a)
    if not has_sym(a):
        return wrap_result(np.argsort(to_real(a), axis=axis, kind=kind or "stable"))
    if axis is None:
        a, axis = a.reshape(-1), 0
    return _along(a, axis, lambda v: sort_network(v, range(len(v)))[1], np.dtype(np.int64))


def np_argpartition(a, kth, axis=-1, **k):
    return np_argsort(a, axis=axis)


def np_partition(a, kth, axis=-1, **k):
    return np_sort(a, axis=axis)


def np_lexsort(keys, axis=-1):
    ks = [_s(k) for k in keys]
    if not any(has_sym(k) for k in ks):
        return wrap_result(np.lexsort([to_real(k) for k in ks]))
    n = ks[0].shape[0]
    order = list(range(n))
    cols = [[k._raw()[i] for i in range(n)] for k in ks]
    # last key is primary: sort by branching comparison
    import functools

    def cmp(i, j):
        for c in reversed(cols):
            if _bool(num_cmp("<", c[i], c[j])):
                return -1
            if _bool(num_cmp("<", c[j], c[i])):
                return 1
        return 0

    order.sort(key=functools.cmp_to_key(cmp))
    return from_real(np.array(order, dtype=np.int64))


def _argext(vals, strict):
    best, bi = vals[0], 0
    for i in range(1, len(vals)):
        c = num_cmp(strict, _b2i(vals[i]), _b2i(best))
        best, bi = ite(c, vals[i], best), ite(c, i, bi)
    return bi


def np_argmax(a, axis=None, out=None, keepdims=False):
    a = _s(a)
    if not has_sym(a):
        return wrap_result(np.argmax(to_real(a), axis=axis))
    if a.size == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    return _reduce(a, axis, bool(keepdims) if not _novalue(keepdims) else False, lambda v: _argext(v, ">"), np.dtype(np.int64))


def np_argmin(a, axis=None, out=None, keepdims=False):
    a = _s(a)
    if not has_sym(a):
        return wrap_result(np.argmin(to_real(a), axis=axis))
    if a.size == 0:
        raise ValueError("attempt to get argmin of an empty sequence")
    return _reduce(a, axis, bool(keepdims) if not _novalue(keepdims) else False, lambda v: _argext(v, "<"), np.dtype(np.int64))


def np_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = _s(ar)
    if not has_sym(a) or axis is not None:
        kw2 = {"axis": axis} if axis is not None else {}
        return wrap_result(np.unique(to_real(a, "unique"), return_index=return_index,
                                     return_inverse=return_inverse, return_counts=return_counts, **kw2))
    flat = list(a._raw().reshape(-1))
    vals, order = sort_network(flat, range(len(flat)))
    groups = []  # (value, [positions in sorted order])
    for i, v in enumerate(vals):
        if i and _bool(_eq(v, vals[i - 1])):
            groups[-1].append(i)
        else:
            groups.append([i])
    uvals = [vals[g[0]] for g in groups]
    raw = new_raw((len(uvals),))
    for i, v in enumerate(uvals):
        raw[i] = v
    out = [mk(raw, a._ld)]
    if return_index:
        r = new_raw((len(groups),))
        for i, g in enumerate(groups):
            r[i] = order[g[0]]
        out.append(mk(r, np.int64))
    if return_inverse:
        inv = new_raw((len(flat),))
        for i, v in enumerate(flat):
            # number of distinct values strictly below v
            s = 0
            for u in uvals:
                s = num_op("+", s, ite(num_cmp("<", u, v), 1, 0))
            inv[i] = s
        out.append(mk(inv, np.int64))
    if return_counts:
        out.append(from_real(np.array([len(g) for g in groups], dtype=np.int64)))
    return out[0] if len(out) == 1 else tuple(out)


def np_concatenate(arrs, axis=0, out=None, dtype=None, casting=None):
    xs = [_s(x) for x in arrs]
    if not xs:
        raise ValueError("need at least one array to concatenate")
    ld = np.dtype(undtype(dtype)) if dtype is not None else np.result_type(*[x._ld for x in xs])
    if axis is None:
        xs, axis = [x.reshape(-1) for x in xs], 0
    raw = np.concatenate([x._raw() for x in xs], axis=axis)
    r = mk(raw, ld)
    return _normalize(r) if any(x._ld != ld for x in xs) else r


def np_stack(arrs, axis=0, **k):
    xs = [_s(x) for x in arrs]
    if not xs:
        raise ValueError("need at least one array to stack")
    ld = np.result_type(*[x._ld for x in xs])
    r = mk(np.stack([x._raw() for x in xs], axis=axis), ld)
    return _normalize(r) if any(x._ld != ld for x in xs) else r


def _stackfn(fn):
    def f(arrs, **k):
        xs = [_s(x) for x in arrs]
        ld = np.result_type(*[x._ld for x in xs])
        r = mk(fn([x._raw() for x in xs]), ld)
        return _normalize(r) if any(x._ld != ld for x in xs) else r

    return f


def np_dot(a, b, out=None):
    a, b = _s(a), _s(b)
    if not has_sym(a) and not has_sym(b):
        return wrap_result(np.dot(to_real(a), to_real(b)))
    return np_matmul(a, b)


def np_matmul(a, b, out=None):
    a, b = _s(a), _s(b)
    if not has_sym(a) and not has_sym(b):
        return wrap_result(np.matmul(to_real(a), to_real(b)))
    ld = result_ld(a, b)
    A = a._raw() if a.ndim > 1 else a._raw()[None, :]
    B = b._raw() if b.ndim > 1 else b._raw()[:, None]
    if A.ndim != 2 or B.ndim != 2:
        raise NotImplementedError("matmul ndim>2")
    if A.shape[1] != B.shape[0]:
        raise ValueError("matmul: Input operand mismatch in its core dimension")
    out = new_raw((A.shape[0], B.shape[1]))
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = _fold("add", [num_op("*", A[i, k], B[k, j]) for k in range(A.shape[1])], None, ld)
    if a.ndim == 1:
        out = out[0]
    if b.ndim == 1:
        out = out[..., 0]
    return scalar_out(out[()], ld) if out.ndim == 0 else mk(out, ld)


def np_cumsum(a, axis=None, dtype=None, out=None):
    a = _s(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    if dtype is not None:
        a = cast_arr(a, np.dtype(undtype(dtype)))
    return accumulate_uf(np.add, a, axis)


def np_bincount(x, weights=None, minlength=0):
    x = _s(x)
    if not has_sym(x) and not has_sym(weights):
        return wrap_result(np.bincount(to_real(x), None if weights is None else to_real(weights), _int(minlength)))
    if x.size and _bool(np_any(ufunc_call(np.less, x, 0))):
        raise ValueError("'list' argument must have no negative elements")
    if x.size == 0:
        n = _int(minlength)
    else:
        mx = np_max(x)
        n = _int(mx) + 1 if is_sym(mx) else _int(mx) + 1
        n = max(n, _int(minlength))
    w = _s(weights)._raw() if weights is not None else None
    raw = new_raw((n,))
    xr = x._raw()
    for v in range(n):
        terms = [ite(_eq(xr[i], v), 1 if w is None else w[i], 0 if w is None else 0.0) for i in range(x.size)]
        raw[v] = _fold("add", terms, 0 if w is None else 0.0, np.dtype(np.int64 if w is None else float))
    return mk(raw, np.int64 if w is None else float)


def np_searchsorted(a, v, side="left", sorter=None):
    a2, v2 = _s(a), _s(v)
    if sorter is not None:
        a2 = a2[sorter]
    if not has_sym(a2) and not has_sym(v2):
        return wrap_result(np.searchsorted(to_real(a2), to_real(v2), side=side))
    op = "<" if side == "left" else "<="
    ar = list(a2._raw())

    def one(x):
        s = 0
        for u in ar:
            s = num_op("+", s, ite(num_cmp(op, u, x), 1, 0))
        return s

    if v2.ndim == 0:
        return scalar_out(one(v2._raw()[()]), np.dtype(np.int64))
    out = new_raw(v2.shape)
    for p in np.ndindex(v2.shape):
        out[p] = one(v2._raw()[p])
    return mk(out, np.int64)


def np_isin(el, test, assume_unique=False, invert=False, **k):
    e, t = _s(el), _s(test)
    ts = list(t._raw().reshape(-1))
    out = new_raw(e.shape)
    for p in np.ndindex(e.shape):
        v = z_or([_eq(e._raw()[p], u) for u in ts])
        out[p] = z_not(v) if invert else v
    return mk(out, bool)


def np_setdiff1d(a, b, assume_unique=False):
    a = _s(a)
    a = a.reshape(-1) if assume_unique else np_unique(a)
    return a[np_isin(a, b, invert=True)]


def np_intersect1d(a, b, assume_unique=False, return_indices=False):
    ua = np_unique(a)
    return ua[np_isin(ua, b)]


def np_union1d(a, b):
    return np_unique(np_concatenate([_s(a).reshape(-1), _s(b).reshape(-1)]))


def np_array_equal(a, b, equal_nan=False):
    a, b = _s(a), _s(b)
    if a.shape != b.shape:
        return False
    return _boolify(z_and([_eq(x, y) for x, y in zip(a._raw().reshape(-1), b._raw().reshape(-1))]))


def _boolify(x):
    return x


def np_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = _s(a) if not isinstance(a, Sym) else a
    if lo is not None:
        r = ufunc_call(np.maximum, r, lo)
    if hi is not None:
        r = ufunc_call(np.minimum, r, hi)
    return _store_out(r, out, True)


def np_diff(a, n=1, axis=-1, prepend=None, append=None):
    a = _s(a)
    pre, post = (None if _novalue(v) else v for v in (prepend, append))
    if pre is not None or post is not None:
        ax = axis % a.ndim

        def part(v):
            v = _s(v)
            if v.ndim == 0:
                shp = list(a.shape)
                shp[ax] = 1
                return mk(np.broadcast_to(v._raw(), tuple(shp)), v._ld)
            return v

        parts = ([part(pre)] if pre is not None else []) + [a] + ([part(post)] if post is not None else [])
        a = _s(TABLE["concatenate"](parts, axis=ax))
    if n != 1:
        for _ in range(n):
            a = _s(np_diff(a, axis=axis))
        return a
    raw = np.moveaxis(a._raw(), axis, -1)
    x = mk(raw[..., 1:], a._ld)
    y = mk(raw[..., :-1], a._ld)
    r = ufunc_call(np.not_equal if a._ld.kind == "b" else np.subtract, x, y)
    return mk(np.moveaxis(r._raw(), -1, axis), r._ld)


def np_take_along_axis(arr, indices, axis=-1):
    a, idx = _s(arr), _s(indices)
    if axis is None:
        a, axis = a.reshape(-1), 0
    axis = axis % a.ndim
    ar = np.moveaxis(a._raw(), axis, -1)
    ir = np.moveaxis(idx._raw(), axis, -1)
    out = new_raw(ir.shape)
    for lead in np.ndindex(ir.shape[:-1]):
        row = mk(ar[lead], a._ld)
        for j in range(ir.shape[-1]):
            v = row[ir[lead][j]]
            out[lead + (j,)] = v.item() if isinstance(v, np.generic) else v
    return mk(np.moveaxis(out, -1, axis), a._ld)


def np_put_along_axis(arr, indices, values, axis):
    a, idx = arr, _s(indices)
    axis = axis % a.ndim
    ar = np.moveaxis(a._raw(), axis, -1)
    ir = np.moveaxis(idx._raw(), axis, -1)
    vr = np.moveaxis(np.broadcast_to(_s(values)._raw(), idx.shape), axis, -1)
    for lead in np.ndindex(ir.shape[:-1]):
        row = mk(ar[lead], a._ld)
        for j in range(ir.shape[-1]):
            row[ir[lead][j]] = vr[lead][j]


def np_take(a, indices, axis=None, out=None, mode="raise"):
    a = _s(a)
    if mode != "raise":
        m = a.size if axis is None else a.shape[axis]
        indices = np_clip(_s(indices), 0, m - 1) if mode == "clip" else ufunc_call(np.remainder, _s(indices), m)
    if axis is None:
        return a.reshape(-1)[indices]
    return a[(slice(None),) * (axis % a.ndim) + (indices,)]


def np_ix_(*args):
    out = []
    nd = len(args)
    for i, x in enumerate(args):
        x = _s(x)
        if x._ld.kind == "b":
            x = np_nonzero(x)[0]
        out.append(x.reshape((1,) * i + (x.size,) + (1,) * (nd - i - 1)))
    return tuple(out)


def np_linalg_norm(x, ord=None, axis=None, keepdims=False):
    x = _s(x)
    if not has_sym(x):
        return wrap_result(np.linalg.norm(to_real(x), ord=ord, axis=axis, keepdims=keepdims))
    if ord not in (None, 2, "fro"):
        if ord == 1:
            return np_sum(ufunc_call(np.absolute, x), axis=axis, keepdims=keepdims)
        if ord == np.inf:
            return np_max(ufunc_call(np.absolute, x), axis=axis, keepdims=keepdims)
        return wrap_result(np.linalg.norm(to_real(x, "norm"), ord=ord, axis=axis, keepdims=keepdims))
    xf = cast_arr(x, x._ld if x._ld.kind == "f" else np.dtype(float))
    s = np_sum(ufunc_call(np.multiply, xf, xf), axis=axis, keepdims=keepdims)
    return ufunc_call(np.sqrt, s) if isinstance(s, np.ndarray) else sym_sqrt(s)


def np_solve(A, b):
    """Exact solve by fresh variables: x with A x = b when A is regular (Cramer-free)."""
    A, b = _s(A), _s(b)
    if not has_sym(A) and not has_sym(b):
        return wrap_result(np.linalg.solve(to_real(A), to_real(b)))
    n = A.shape[0]
    B = b._raw() if b.ndim == 2 else b._raw()[:, None]
    det = _det([[A._raw()[i, j] for j in range(n)] for i in range(n)])
    if _bool(_eq(det, 0)):
        raise np.linalg.LinAlgError("Singular matrix")
    ctx = Ctx.cur
    X = new_raw((n, B.shape[1]))
    for i in range(n):
        for j in range(B.shape[1]):
            X[i, j] = SymReal(ctx.fresh("lin", "r"))
    for i in range(n):
        for j in range(B.shape[1]):
            s = _fold("add", [num_op("*", A._raw()[i, k], X[k, j]) for k in range(n)], None, np.dtype(float))
            ctx.assert_(to_real_expr(s) == to_real_expr(B[i, j]))
    ctx.model = None
    return mk(X if b.ndim == 2 else X[:, 0], np.result_type(A._ld, b._ld, np.float32))


def _det(M):
    n = len(M)
    if n == 0:
        return 1
    if n == 1:
        return M[0][0]
    acc = 0
    for j in range(n):
        if _isz(M[0][j]):
            continue
        minor = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = num_op("*", M[0][j], _det(minor))
        acc = num_op("+", acc, t) if j % 2 == 0 else num_op("-", acc, t)
    return acc


def _isz(x):
    return not is_sym(x) and x == 0


def np_round(a, decimals=0, out=None):
    if isinstance(a, Sym) or not isinstance(a, np.ndarray):
        if is_sym(a):
            return _rint(a) if not decimals else round(a, decimals)
        return np.round(a, decimals)
    if decimals == 0:
        return ufunc_call(np.rint, a)
    raw = new_raw(a.shape)
    for p in np.ndindex(a.shape):
        v = a._raw()[p]
        raw[p] = round(v, decimals) if is_sym(v) else np.round(v, decimals).item()
    return mk(raw, a._ld)


def np_fill_diagonal(a, val, wrap=False):
    n = min(a.shape)
    v = _s(val)
    for i in range(n):
        a[i, i] = v._raw()[()] if v.ndim == 0 else v._raw().reshape(-1)[i % v.size]


def np_diag(v, k=0):
    v = _s(v)
    if v.ndim == 1 and k == 0:
        n = v.size
        out = from_real(np.zeros((n, n), dtype=v._ld))
        for i in range(n):
            out._raw()[i, i] = v._raw()[i]
        return out
    return mk(np.diag(v._raw(), k) if v.ndim == 2 else wrap_obj_diag(v, k), v._ld)


def wrap_obj_diag(v, k):
    n = v.size + abs(k)
    out = new_raw((n, n))
    out[...] = 0 if v._ld.kind in "iub" else 0.0
    for i in range(v.size):
        out[i + max(-k, 0), i + max(k, 0)] = v._raw()[i]
    return out


def np_repeat(a, repeats, axis=None):
    a = _s(a)
    reps = to_real(repeats, "repeat")
    return mk(np.repeat(a._raw(), reps, axis=axis), a._ld)


def _structural(name):
    fn = getattr(np, name)

    def f(a, *args, **k):
        if isinstance(a, (list, tuple)) and name in ("broadcast_arrays", "atleast_1d", "atleast_2d"):
            a = _s(a)
        a = _s(a)
        args = tuple(to_real(x, name) for x in args)
        k = {kk: to_real(v, name) for kk, v in k.items()}
        r = fn(a._raw(), *args, **k)
        if isinstance(r, (list, tuple)):
            return type(r)(mk(x, a._ld) for x in r) if isinstance(r, list) else tuple(mk(x, a._ld) for x in r)
        return mk(r, a._ld)

    return f


def np_full_like(a, fill_value, dtype=None, **k):
    out = from_real(np.zeros(np.shape(a), dtype=undtype(dtype) if dtype is not None else ld_of_operand(_s(a))))
    out[...] = fill_value
    return out


def np_zeros_like(a, dtype=None, **k):
    return from_real(np.zeros(np.shape(a), dtype=undtype(dtype) if dtype is not None else ld_of_operand(_s(a))))


def np_ones_like(a, dtype=None, **k):
    return from_real(np.ones(np.shape(a), dtype=undtype(dtype) if dtype is not None else ld_of_operand(_s(a))))


def np_copyto(dst, src, casting=None, where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = np_where(_s(where), src, dst)


def np_count_nonzero(a, axis=None, keepdims=False):
    a = _s(a)
    return np_sum(cast_arr(cast_arr(a, np.dtype(bool)), np.dtype(np.int64)), axis=axis, keepdims=keepdims)


def np_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    a = _s(a)
    raw = new_raw(a.shape)
    for p in np.ndindex(a.shape):
        v = a._raw()[p]
        raw[p] = v if is_sym(v) else np.nan_to_num(np.asarray(v, dtype=a._ld), nan=nan, posinf=posinf, neginf=neginf).item()
    return mk(raw, a._ld)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np_all(np_isclose(a, b, rtol, atol))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = ufunc_call(np.absolute, ufunc_call(np.subtract, _s(a), _s(b)))
    t = ufunc_call(np.add, atol, ufunc_call(np.multiply, rtol, ufunc_call(np.absolute, _s(b))))
    return ufunc_call(np.less_equal, d, t)


def np_average(a, axis=None, weights=None):
    if weights is None:
        return np_mean(a, axis=axis)
    w = _s(weights)
    num = np_sum(ufunc_call(np.multiply, _s(a), w), axis=axis)
    return ufunc_call(np.true_divide, num, np_sum(w, axis=axis))


def np_outer(a, b, out=None):
    a, b = _s(a).reshape(-1), _s(b).reshape(-1)
    return ufunc_call(np.multiply, a.reshape(-1, 1), b.reshape(1, -1))


def np_median(a, axis=None):
    a = _s(a)
    if not has_sym(a):
        return wrap_result(np.median(to_real(a), axis=axis))
    s = np_sort(a if axis is not None else a.reshape(-1), axis=axis if axis is not None else 0)
    ax = axis if axis is not None else 0
    n = s.shape[ax]
    r = np.moveaxis(s._raw(), ax, 0)
    lo, hi = r[(n - 1) // 2], r[n // 2]
    if not isinstance(lo, np.ndarray) or lo.ndim == 0:
        return _div(num_op("+", lo, hi), 2)
    return ufunc_call(np.true_divide, ufunc_call(np.add, mk(lo, s._ld), mk(hi, s._ld)), 2.0)


def np_tril_triu(name):
    fn = getattr(np, name)

    def f(m, k=0):
        m = _s(m)
        mask = fn(np.ones(m.shape[-2:], dtype=bool), k=k)
        return np_where(from_real(mask), m, 0)

    return f


TABLE = {
    "where": np_where, "nonzero": np_nonzero, "any": np_any, "all": np_all, "sum": np_sum,
    "flatnonzero": lambda a: np_nonzero(_s(a).reshape(-1))[0],
    "argwhere": lambda a: np_stack(np_nonzero(a), axis=1) if _s(a).ndim else from_real(np.argwhere(to_real(a))),
    "max": np_max, "amax": np_max, "min": np_min, "amin": np_min, "prod": np_prod, "mean": np_mean,
    "var": np_var, "std": np_std, "sort": np_sort, "argsort": np_argsort,
    "argpartition": np_argpartition, "partition": np_partition, "lexsort": np_lexsort,
    "argmax": np_argmax, "argmin": np_argmin, "unique": np_unique, "concatenate": np_concatenate,
    "stack": np_stack, "vstack": _stackfn(np.vstack), "hstack": _stackfn(np.hstack),
    "column_stack": _stackfn(np.column_stack), "row_stack": _stackfn(np.vstack),
    "dot": np_dot, "matmul": np_matmul, "cumsum": np_cumsum, "bincount": np_bincount,
    "searchsorted": np_searchsorted, "isin": np_isin, "in1d": np_isin, "setdiff1d": np_setdiff1d,
    "intersect1d": np_intersect1d, "union1d": np_union1d, "array_equal": np_array_equal,
    "clip": np_clip, "diff": np_diff, "take_along_axis": np_take_along_axis,
    "put_along_axis": np_put_along_axis, "take": np_take, "ix_": np_ix_, "round": np_round,
    "around": np_round, "fill_diagonal": np_fill_diagonal, "diag": np_diag, "repeat": np_repeat,
    "full_like": np_full_like, "zeros_like": np_zeros_like, "ones_like": np_ones_like,
    "empty_like": np_zeros_like, "copyto": np_copyto, "count_nonzero": np_count_nonzero,
    "nan_to_num": np_nan_to_num, "allclose": np_allclose, "isclose": np_isclose,
    "average": np_average, "outer": np_outer, "median": np_median, "tril": np_tril_triu("tril"),
    "triu": np_tril_triu("triu"), "copy": lambda a, **k: _s(a).copy(),
    "ascontiguousarray": lambda a, dtype=None: _s(a) if dtype is None else sarr(a, dtype),
    "shape": lambda a: _s(a).shape, "ndim": lambda a: _s(a).ndim, "size": lambda a, axis=None: _s(a).size,
    "append": lambda arr, values, axis=None: np_concatenate([_s(arr) if axis is not None else _s(arr).reshape(-1), _s(values) if axis is not None else _s(values).reshape(-1)], axis=axis or 0),
    "append_": None,
    "trace": lambda a: np_sum(np_diag(a)),
    "cumprod": lambda a, axis=None, **k: accumulate_uf(np.multiply, _s(a).reshape(-1) if axis is None else _s(a), axis or 0),
    "ptp": lambda a, axis=None: ufunc_call(np.subtract, np_max(a, axis=axis), np_min(a, axis=axis)),
    "iscomplexobj": lambda a: False,
    "isrealobj": lambda a: True,
    "isscalar": lambda a: isinstance(a, Sym),
    "argmax_": None,
}
for _n in ("reshape", "transpose", "ravel", "squeeze", "expand_dims", "moveaxis", "swapaxes", "flip",
           "fliplr", "flipud", "roll", "tile", "broadcast_to", "split", "array_split", "rot90",
           "delete", "resize", "atleast_1d", "atleast_2d", "rollaxis"):
    TABLE[_n] = _structural(_n)
TABLE["swapaxes"] = _structural("swapaxes")


def np_pad(a, pad_width, mode="constant", **k):
    a = _s(a)
    kw = dict(k)
    if mode == "constant":
        kw.setdefault("constant_values", 0)
        raw = np.pad(a._raw(), pad_width, mode=mode, **kw)
        return mk(raw, a._ld)
    # index-based modes: pad positions and gather
    pos = np.arange(a.size).reshape(a.shape)
    pp = np.pad(pos, pad_width, mode=mode, **kw)
    return mk(a._raw().reshape(-1)[pp], a._ld)


TABLE["pad"] = np_pad


def np_insert(a, obj, values, axis=None):
    a = _s(a)
    return wrap_result(np.insert(to_real(a, "insert"), to_real(obj), to_real(values), axis=axis))


def call_np(name, func, args, kwargs):
    """Model of numpy function `name` on possibly symbolic arguments."""
    impl = TABLE.get(name)
    if impl is not None:
        try:
            return impl(*args, **kwargs)
        except (NotImplementedError, TypeError) as exc:
            if isinstance(exc, TypeError) and "unexpected keyword" not in str(exc) and "positional" not in str(exc):
                raise
    rargs = to_real(args, f"np.{name}") if has_sym(args) else to_real(args)
    rkw = to_real(kwargs, f"np.{name}") if has_sym(kwargs) else to_real(kwargs)
    with np.errstate(all="ignore"):
        return wrap_result(func(*rargs, **rkw))


# methods on SArr that map to functions
def _install_methods():
    def meth(fn):
        def m(self, *a, **k):
            return fn(self, *a, **k)

        return m

    for nm, fn in {
        "sum": np_sum, "max": np_max, "min": np_min, "mean": np_mean, "prod": np_prod, "var": np_var,
        "std": np_std, "any": np_any, "all": np_all, "argmax": np_argmax, "argmin": np_argmin,
        "argsort": np_argsort, "nonzero": np_nonzero, "cumsum": np_cumsum, "dot": np_dot,
        "clip": np_clip, "round": np_round, "searchsorted": np_searchsorted, "take": np_take,
        "repeat": np_repeat, "trace": lambda a: np_sum(np_diag(a)),
    }.items():
        setattr(SArr, nm, meth(fn))

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = np_sort(self, axis=axis)

    SArr.sort = sort

    def binop(uf, swap=False):
        def f(self, o):
            if o is None or isinstance(o, str) and uf not in (np.equal, np.not_equal):
                return NotImplemented
            return ufunc_call(uf, o, self) if swap else ufunc_call(uf, self, o)

        return f

    def iop(uf):
        def f(self, o):
            r = ufunc_call(uf, self, o)
            self[...] = r
            return self

        return f

    for nm, uf in {"add": np.add, "sub": np.subtract, "mul": np.multiply, "truediv": np.true_divide,
                   "floordiv": np.floor_divide, "mod": np.remainder, "pow": np.power,
                   "and": np.bitwise_and, "or": np.bitwise_or, "xor": np.bitwise_xor}.items():
        setattr(SArr, f"__{nm}__", binop(uf))
        setattr(SArr, f"__r{nm}__", binop(uf, True))
        setattr(SArr, f"__i{nm}__", iop(uf))
    for nm, uf in {"lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal,
                   "eq": np.equal, "ne": np.not_equal}.items():
        def cmp(self, o, uf=uf):
            if o is None:
                return from_real(np.full(self.shape, uf is np.not_equal))
            return ufunc_call(uf, self, o)

        setattr(SArr, f"__{nm}__", cmp)
    SArr.__neg__ = lambda self: ufunc_call(np.negative, self)
    SArr.__pos__ = lambda self: self.copy()
    SArr.__abs__ = lambda self: ufunc_call(np.absolute, self)
    SArr.__invert__ = lambda self: ufunc_call(np.invert, self)
    SArr.__matmul__ = lambda self, o: np_matmul(self, o)
    SArr.__rmatmul__ = lambda self, o: np_matmul(o, self)


_install_methods()
