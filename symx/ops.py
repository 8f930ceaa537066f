"""Oracle vocabulary: works on symbolic and on concrete values alike."""
from __future__ import annotations

import builtins
import math

import numpy as np

from .arr import SArr
from .core import (Ctx, Sym, SymBool, SymInt, SymReal, is_num, is_sym, ite, kind_of, num_cmp, num_op,
                   smax, smin, to_int_expr, to_real_expr, z3, z_and, z_iff, z_implies, z_not, z_or)

EPS = 1e-6


def And(*xs):
    xs = xs[0] if len(xs) == 1 and not is_sym(xs[0]) and hasattr(xs[0], "__iter__") else xs
    return z_and(list(xs))


def Or(*xs):
    xs = xs[0] if len(xs) == 1 and not is_sym(xs[0]) and hasattr(xs[0], "__iter__") else xs
    return z_or(list(xs))


Not, Implies, Iff, If = z_not, z_implies, z_iff, ite


def _s(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    if isinstance(x, np.generic):
        return x.item()
    if hasattr(x, "_is_symtensor"):
        return x.item()
    return x


def eq(a, b):
    a, b = _s(a), _s(b)
    if kind_of(a) == "b" and kind_of(b) == "b":
        return z_iff(a, b)
    if not is_sym(a) and not is_sym(b):
        return a == b or (a != a and b != b)
    if kind_of(a) is None or kind_of(b) is None:
        return False
    return num_cmp("==", a, b)


def ne(a, b):
    return z_not(eq(a, b))


def lt(a, b):
    return num_cmp("<", _s(a), _s(b))


def le(a, b):
    return num_cmp("<=", _s(a), _s(b))


def close(a, b, tol=EPS):
    a, b = _s(a), _s(b)
    if not is_sym(a) and not is_sym(b):
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= max(tol, 1e-6) * (1 + abs(a) + abs(b)) + 2e-7
    for x, y in ((a, b), (b, a)):
        if not is_sym(x) and isinstance(x, float) and not math.isfinite(x):
            return False
    ea, eb = to_real_expr(a), to_real_expr(b)
    d = z3.simplify(ea - eb)
    if z3.is_rational_value(d):
        return abs(float(d.as_fraction())) <= tol
    t = z3.RealVal(str(tol))
    return SymBool(z3.And(d <= t, d >= -t))


def lec(a, b, tol=EPS):
    """a <= b up to rounding."""
    return num_cmp("<=", _s(a), num_op("+", _s(b), tol))


def count(conds):
    s = 0
    for c in conds:
        s = num_op("+", s, ite(c, 1, 0))
    return s


def total(xs):
    s = 0
    for x in xs:
        s = num_op("+", s, _s(x))
    return s


def member(x, xs):
    return z_or([eq(x, y) for y in xs])


def distinct(xs):
    xs = list(xs)
    if all(is_sym(x) or isinstance(x, (int, np.integer)) for x in xs) and any(is_sym(x) for x in xs):
        if len(xs) < 2:
            return True
        return SymBool(z3.Distinct(*[to_int_expr(x) for x in xs]))
    return z_and([ne(xs[i], xs[j]) for i in range(len(xs)) for j in range(i)])


def same_seq(a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    return z_and([eq(x, y) for x, y in zip(a, b)])


def close_seq(a, b, tol=EPS):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    return z_and([close(x, y, tol) for x, y in zip(a, b)])


def same_set(a, b):
    a, b = list(a), list(b)
    return z_and([member(x, b) for x in a] + [member(x, a) for x in b])


def same_multiset(a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    if not any(is_sym(x) for x in a + b):
        return sorted(a) == sorted(b)
    return z_and([eq(count([eq(x, y) for y in a]), count([eq(x, y) for y in b])) for x in a])


def sorted_inc(xs, strict=True):
    xs = list(xs)
    return z_and([num_cmp("<" if strict else "<=", xs[i], xs[i + 1]) for i in range(len(xs) - 1)])


def flat(a):
    """All elements of an array-like as a Python list."""
    if a is None:
        return []
    if hasattr(a, "_is_symtensor"):
        a = a.numpy_sarr()
    if hasattr(a, "detach"):
        a = a.detach().cpu().numpy()
    if isinstance(a, SArr):
        return list(a._raw().reshape(-1))
    if isinstance(a, np.ndarray):
        return a.reshape(-1).tolist()
    if isinstance(a, (list, tuple)):
        out = []
        for x in a:
            out.extend(flat(x) if isinstance(x, (list, tuple, np.ndarray)) else [_s(x)])
        return out
    return [_s(a)]


def nested(a):
    if hasattr(a, "_is_symtensor"):
        a = a.numpy_sarr()
    if hasattr(a, "detach"):
        a = a.detach().cpu().numpy()
    if isinstance(a, SArr):
        return a._raw().tolist()
    if isinstance(a, np.ndarray):
        return a.tolist()
    return list(a)


def mask_of(indices, n):
    """Per-position membership conditions of an index list."""
    idx = flat(indices)
    return [member(i, idx) for i in range(n)]


def ratio(num, den, maxden):
    """num/den for an integer 0 < den <= maxden (0 when den is 0) without nonlinear terms."""
    out = 0.0
    for k in range(maxden, 0, -1):
        out = ite(eq(den, k), num_op("*", num, Fr(1, k)), out)
    return out


def Fr(a, b):
    return a / b if Ctx.cur is None else SymReal(z3.RealVal(a) / b)


def smaximum(xs):
    m = xs[0]
    for x in xs[1:]:
        m = ite(lt(m, x), x, m)
    return m


def first_argmax(xs):
    best, bi = xs[0], 0
    for i, x in enumerate(xs[1:], 1):
        c = lt(best, x)
        best, bi = ite(c, x, best), ite(c, i, bi)
    return bi
