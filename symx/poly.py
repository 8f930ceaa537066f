"""Rational functions over symbolic values: canonical forms, and facts visible from a term alone (sign, range)."""
from __future__ import annotations

import math
from fractions import Fraction

from .core import EXP, LOG, z3

_ONE = ()
LIMIT = 1500
INF = math.inf


class TooBig(Exception):
    pass


def _mul(a, b):
    if len(a) * len(b) > LIMIT * 10:
        raise TooBig
    out = {}
    for m, x in a.items():
        for n, y in b.items():
            k = tuple(sorted(m + n))
            v = out.get(k, 0) + x * y
            if v:
                out[k] = v
            else:
                out.pop(k, None)
    if len(out) > LIMIT:
        raise TooBig
    return out


def _add(a, b, s=1):
    out = dict(a)
    for k, y in b.items():
        v = out.get(k, 0) + s * y
        if v:
            out[k] = v
        else:
            out.pop(k, None)
    if len(out) > LIMIT:
        raise TooBig
    return out


def _const(f):
    return {_ONE: f} if f else {}


ONE = {_ONE: Fraction(1)}


class Canon:
    """`box`: name -> (low, high) of declared values; `last`: name -> the other members of its probability vector."""

    def __init__(self, box, last=None):
        self.box, self.last = box, last or {}
        self.memo, self.gens, self.ids, self.imemo = {}, {}, {}, {}
        self.factors = {}

    # -- normal form ---------------------------------------------------------
    def ratio(self, e):
        """(numerator, denominator) of an if-free real term whose divisors are positive."""
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self._ratio(e)
        self.memo[k] = (e, r)
        return r

    def gen(self, key, info):
        i = self.ids.setdefault(key, len(self.ids))
        self.gens[i] = info
        return {(i,): Fraction(1)}, ONE

    def _ratio(self, e):
        if z3.is_rational_value(e):
            return _const(e.as_fraction()), ONE
        if z3.is_int_value(e):
            return _const(Fraction(e.as_long())), ONE
        kind = e.decl().kind()
        if kind == z3.Z3_OP_TO_REAL:
            return self.ratio(e.arg(0))
        if kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, d = self.ratio(e.arg(0))
            for i in range(1, e.num_args()):
                n2, d2 = self.ratio(e.arg(i))
                s = 1 if kind == z3.Z3_OP_ADD else -1
                if d == d2:
                    n = _add(n, n2, s)
                else:
                    n, d = _add(_mul(n, d2), _mul(n2, d), s), _mul(d, d2)
            return n, d
        if kind == z3.Z3_OP_UMINUS:
            n, d = self.ratio(e.arg(0))
            return {k: -v for k, v in n.items()}, d
        if kind == z3.Z3_OP_MUL:
            n, d = ONE, ONE
            for c in e.children():
                n2, d2 = self.ratio(c)
                n, d = _mul(n, n2), _mul(d, d2)
            return n, d
        if kind == z3.Z3_OP_DIV:
            if not self.positive(e.arg(1)):
                raise TooBig
            a, b = self.ratio(e.arg(0)), self.ratio(e.arg(1))
            if a[0] == b[0] and a[1] == b[1]:
                return ONE, ONE
            return _mul(a[0], b[1]), _mul(a[1], b[0])
        if kind == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            name = e.decl().name()
            if name in self.last:
                n, d = ONE, ONE
                for o in self.last[name]:
                    n = _add(n, self.gen(("v", o), "v")[0], -1)
                return n, d
            return self.gen(("v", name), "v")
        if e.decl().eq(LOG) or e.decl().eq(EXP):
            n, d = self.ratio(e.arg(0))
            if e.decl().eq(LOG) and n == d:
                return {}, ONE
            if e.decl().eq(EXP):
                if not n:
                    return ONE, ONE
                if z3.is_app(e.arg(0)) and e.arg(0).decl().eq(LOG):
                    return self.ratio(e.arg(0).arg(0))
            k = (e.decl().name(), tuple(sorted(n.items())), tuple(sorted(d.items())))
            return self.gen(k, "exp" if e.decl().eq(EXP) else "log")
        return self.gen(("t", e.get_id()), e)

    def zero(self, e):
        """Whether the term is identically zero (False: not shown)."""
        try:
            return not self.ratio(e)[0]
        except TooBig:
            return False

    # -- ranges --------------------------------------------------------------
    def range(self, e):
        k = e.get_id()
        if k not in self.imemo:
            self.imemo[k] = (e, self._range(e))
        return self.imemo[k][1]

    def positive(self, e):
        return self.range(e)[0] > 0

    def _range(self, e):
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return f, f
        if z3.is_int_value(e):
            f = Fraction(e.as_long())
            return f, f
        kind = e.decl().kind()
        if kind == z3.Z3_OP_TO_REAL:
            return self.range(e.arg(0))
        if kind == z3.Z3_OP_UNINTERPRETED:
            if e.num_args() == 0:
                return self.box.get(e.decl().name(), (-INF, INF))
            if e.decl().eq(EXP):
                lo, hi = self.range(e.arg(0))
                return Fraction(1, 10**30) if lo > -60 else Fraction(0), (1 if hi <= 0 else INF)
            if e.decl().eq(LOG):
                lo, hi = self.range(e.arg(0))
                return -INF, (0 if hi <= 1 else INF)
            return -INF, INF
        if kind == z3.Z3_OP_ADD:
            rs = [self.range(c) for c in e.children()]
            return sum(r[0] for r in rs), sum(r[1] for r in rs)
        if kind == z3.Z3_OP_UMINUS:
            lo, hi = self.range(e.arg(0))
            return -hi, -lo
        if kind == z3.Z3_OP_SUB:
            a, b = self.range(e.arg(0)), self.range(e.arg(1))
            return a[0] - b[1], a[1] - b[0]
        if kind == z3.Z3_OP_MUL:
            ch = e.children()
            if len(ch) == 2 and ch[0].eq(ch[1]):
                lo, hi = self.range(ch[0])
                m = max(abs(lo), abs(hi))
                return (lo * lo if lo > 0 else hi * hi if hi < 0 else Fraction(0)), (m * m)
            lo, hi = Fraction(1), Fraction(1)
            for c in ch:
                a, b = self.range(c)
                ps = [0 if x == 0 or y == 0 else x * y for x in (lo, hi) for y in (a, b)]
                lo, hi = min(ps), max(ps)
            return lo, hi
        if kind == z3.Z3_OP_DIV:
            a, b = self.range(e.arg(0))
            c, d = self.range(e.arg(1))
            if c <= 0:
                return -INF, INF
            if INF in (a, b, c, d) or -INF in (a, b):
                if a > 0:
                    return (a / d if d != INF and a != INF else Fraction(1, 10**40)), (b / c if b != INF else INF)
                return (0 if a >= 0 else -INF), (0 if b <= 0 else INF)
            ps = [x / y for x in (a, b) for y in (c, d)]
            return min(ps), max(ps)
        if kind == z3.Z3_OP_ITE:
            a, b = self.range(e.arg(1)), self.range(e.arg(2))
            return min(a[0], b[0]), max(a[1], b[1])
        return -INF, INF

    # -- comparisons ---------------------------------------------------------
    def atom(self, c):
        """(key, sign, linear) of an if-free comparison, or a truth value.

        Equal keys have equal truth values (negated when the signs differ).  Two real values are taken not to be exactly
        equal: "less" and "less or equal" are one question."""
        sign = True
        while z3.is_not(c):
            c, sign = c.arg(0), not sign
        kind = c.decl().kind()
        if kind not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or not z3.is_real(c.arg(0)):
            return c.get_id(), sign, None
        a, b = c.arg(0), c.arg(1)
        if kind in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
        diff = z3.simplify(a - b)
        lo, hi = self.range(diff)
        if hi < 0 or lo > 0:
            return (hi < 0) == sign
        ra, rb = self.range(a), self.range(b)
        if ra[1] < rb[0] or ra[0] > rb[1]:
            return (ra[1] < rb[0]) == sign
        try:
            n = self.ratio(diff)[0]
        except TooBig:
            return c.get_id(), sign, None
        if not n:
            return c.get_id(), sign, None
        linear = all(len(m) <= 1 for m in n) and all(self.gens[v] == "v" for m in n for v in m)
        if not linear:
            n = self.reduce(n)
        lead = max(n)
        if n[lead] < 0:
            n = {k: -v for k, v in n.items()}
            sign = not sign
        s = n[lead]
        return tuple(sorted((k, v / s) for k, v in n.items())), sign, linear

    def reduce(self, n):
        """Drop factors that are positive by their form."""
        key = tuple(sorted(n.items()))
        if key not in self.factors:
            self.factors[key] = self._reduce(n)
        return self.factors[key]

    def _reduce(self, n):
        from sympy import QQ
        from sympy.polys.rings import ring

        if len(n) > 120:
            return n
        vs = sorted({v for m in n for v in m})
        R, *_ = ring([f"x{v}" for v in vs], QQ)
        pos = {v: i for i, v in enumerate(vs)}
        p = R.zero
        d = {}
        for m, c in n.items():
            e = [0] * len(vs)
            for v in m:
                e[pos[v]] += 1
            d[tuple(e)] = QQ(c.numerator, c.denominator)
        p = R.from_dict(d)
        coef, fs = p.factor_list()
        sgn = 1 if coef > 0 else -1
        out = ONE
        for f, k in fs:
            q = {tuple(v for v, x in zip(vs, e) for _ in range(x)): Fraction(int(c.numerator), int(c.denominator)) for e, c in f.terms()}
            cs = list(q.values())
            same = all(c > 0 for c in cs) or all(c < 0 for c in cs)
            if same and all(self.gens[v] in ("v", "exp") for m in q for v in m) and self._all_pos(q):
                if cs[0] < 0 and k % 2:
                    sgn = -sgn
                continue
            if k % 2:
                out = _mul(out, q)
        return {m: c * sgn for m, c in out.items()}

    def _all_pos(self, q):
        names = {i: k for k, i in self.ids.items()}
        for m in q:
            for v in m:
                k = names[v]
                if k[0] == "v" and not self.box.get(k[1], (-1, 1))[0] > 0:
                    return False
        return True
