"""Path explorer and symbolic scalars."""
from __future__ import annotations

import builtins
import math
import os
import random
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # pragma: no cover - environment dependent
    sys.path.append(_VT)
    import z3

import numpy as np

z3.set_param("verbose", 0)

_int, _float, _bool = builtins.int, builtins.float, builtins.bool


_SIMP = {}


def simp(e):
    """z3.simplify with a memo: re-executions of a path must see the same simplified terms, and the order of
    arguments in simplified terms depends on which subterms happen to be alive."""
    k = e.get_id()
    r = _SIMP.get(k)
    if r is None:
        if len(_SIMP) > 400000:
            _SIMP.clear()
        r = _SIMP[k] = (e, z3.simplify(e))
    return r[1]


class PathAbort(BaseException):
    """The current path is infeasible / cut by an assumption."""


class BudgetExceeded(BaseException):
    """Budget for one path or the exploration ran out."""


class NonDeterminism(BaseException):
    """A re-execution did not follow the recorded prefix."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.decisions = 0
        self.concretized_reals = 0
        self.enum_fallbacks = {}
        self.unsat = 0
        self.sat = 0

    def as_dict(self):
        return {
            "queries": self.queries,
            "solver_s": round(self.solver_s, 3),
            "unknown": self.unknown,
            "sat": self.sat,
            "unsat": self.unsat,
            "paths": self.paths,
            "decisions": self.decisions,
            "incomplete_real_concretizations": self.concretized_reals,
            "enumerated_ops": dict(self.enum_fallbacks),
        }

    def merge(self, d):
        self.queries += d["queries"]
        self.solver_s += d["solver_s"]
        self.unknown += d["unknown"]
        self.sat += d["sat"]
        self.unsat += d["unsat"]
        self.paths += d["paths"]
        self.decisions += d["decisions"]
        self.concretized_reals += d["incomplete_real_concretizations"]
        for k, v in d["enumerated_ops"].items():
            self.enum_fallbacks[k] = self.enum_fallbacks.get(k, 0) + v


class Ctx:
    """State of one path of one exploration."""

    cur: "Ctx | None" = None

    def __init__(self, prefix, explorer, model=None):
        self.ex = explorer
        self.stats = explorer.stats
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.keep = explorer.rewind(prefix)
        self.solver = explorer.solver
        self.model = None
        self.prefix_model = model
        self.counter = {}
        self.inputs = {}
        self.incomplete = []
        self.rng_log = []
        self.data = {}
        self.deadline = explorer.path_deadline()
        self.npath = 0
        self.lazy = {}      # name -> definition of a derived value, asserted when the value first matters
        self.seen = {}

    # -- solver -------------------------------------------------------------
    def _check(self, *assumptions):
        t = time.perf_counter()
        if t > self.deadline:
            raise BudgetExceeded("path budget")
        if self.lazy:
            self.need(*assumptions)
        r = self.solver.check(*assumptions)
        self.stats.queries += 1
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unsat += 1
        return r

    def need(self, *es):
        """Assert the definitions of the derived values that occur in `es`."""
        seen, stack = self.seen, list(es)
        while stack:
            e = stack.pop()
            k = e.get_id()
            if k in seen:
                continue
            seen[k] = e
            n = e.num_args()
            if n:
                stack.extend(e.arg(i) for i in range(n))
            elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                d = self.lazy.pop(e.decl().name(), None)
                if d is not None:
                    self.model = None
                    self.assert_(*d)

    def trivial(self, e):
        """Compare a derived non-negative value with a negative constant."""
        if z3.is_not(e):
            q = self.trivial(e.arg(0))
            return None if q is None else not q
        if not (z3.is_le(e) or z3.is_ge(e) or z3.is_lt(e) or z3.is_gt(e)):
            return None
        a, b = e.arg(0), e.arg(1)
        flip = z3.is_rational_value(a)
        if flip:
            a, b = b, a
        if not (z3.is_const(a) and z3.is_rational_value(b) and a.decl().name() in self.lazy and b.as_fraction() < 0):
            return None
        return (z3.is_ge(e) or z3.is_gt(e)) != flip

    def define(self, var, *es):
        """A derived value that exists for every value of the inputs."""
        self.lazy[var.decl().name()] = es
        self.seen.pop(var.get_id(), None)

    def surely_positive(self, e):
        """Positive by its form alone: a range computed from the declared ranges of the values in it."""
        box = self.data.get("box")
        if not box:
            return False
        c = self.data.get("canon")
        if c is None:
            from .poly import Canon

            c = self.data["canon"] = Canon(box)
        return c.positive(z3.simplify(e))

    def replaying(self):
        return self.pos < len(self.prefix)

    def assert_(self, *es):
        """Add constraints at the current level (kept ones are already in the solver)."""
        if self.lazy:
            self.need(*es)
        if len(self.trail) <= self.keep and self.replaying():
            return
        self.solver.add(*es)

    def add(self, e):
        self.assert_(e)
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def _decide_level(self, d, *es):
        """Enter the next decision level."""
        self.trail.append(d)
        n = len(self.trail)
        if n <= self.keep:
            return
        self.solver.push()
        self.ex.scopes.append(d)
        self.solver.add(*es)

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathAbort("infeasible")
            if r == z3.unknown:
                raise BudgetExceeded("solver unknown on path condition")
            self.model = self.solver.model()
        return self.model

    def assume(self, cond):
        e = as_z3_bool(cond)
        if e is True:
            return
        if e is False:
            raise PathAbort("assume false")
        self.add(e)
        if not self.replaying():
            self.get_model()

    def fresh(self, name, sort):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        full = f"{name}!{k}" if k else name
        if sort == "i":
            return z3.Int(full)
        if sort == "r":
            return z3.Real(full)
        return z3.Bool(full)

    def _end_prefix(self):
        # the model that came with the prefix satisfies everything up to here, unless constraints
        # were added after the prefix was recorded (then get_model re-checks)
        if self.pos == len(self.prefix) and self.prefix_model is not None:
            self.model, self.prefix_model = self.prefix_model, None

    # -- branching ------------------------------------------------------------
    def branch(self, e):
        h = e.hash()
        e = simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.lazy:
            q = self.trivial(e)
            if q is not None:
                return q
            self.need(e)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] != "b" or d[2] != h:
                raise NonDeterminism(f"decision {self.pos}: {d[0]}")
            self.pos += 1
            self._decide_level(d, e if d[1] else z3.Not(e))
            self._end_prefix()
            return d[1]
        m = self.get_model()
        side = z3.is_true(m.eval(e, model_completion=True))
        other = z3.Not(e) if side else e
        r = self._check(other)
        if r != z3.unsat:
            om = None
            if r == z3.unknown:
                self.incomplete.append("unknown-branch")
            else:
                om = self.solver.model()
            self.ex.push(self.trail + [("b", not side, h)], om)
            self._decide_level(("b", side, h), e if side else z3.Not(e))
        else:
            # forced: still a level, so that replays stay aligned
            self._decide_level(("b", side, h))
        self.pos = len(self.trail)
        self.stats.decisions += 1
        return side

    def concretize_int(self, e, why="index"):
        h = e.hash()
        e = simp(e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.lazy:
            self.need(e)
        exc = []
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] not in ("c", "x") or d[2] != h:
                raise NonDeterminism(f"decision {self.pos}: {d[0]}")
            self.pos += 1
            if d[0] == "c":
                self._decide_level(d, e == d[1])
                self._end_prefix()
                return d[1]
            exc = list(d[1])
            self._end_prefix()
            m = self.model
            if m is None:
                r = self._check(*[e != v for v in exc])
                if r == z3.unsat:
                    raise PathAbort("no further value")
                if r == z3.unknown:
                    raise BudgetExceeded("solver unknown on path condition")
                m = self.model = self.solver.model()
        else:
            m = self.get_model()
        v = m.eval(e, model_completion=True).as_long()
        nexc = exc + [v]
        r = self._check(*[e != x for x in nexc])
        if r != z3.unsat:
            if len(nexc) > self.ex.max_enum:
                self.incomplete.append(f"enumeration-cap:{why}")
            else:
                self.ex.push(self.trail + [("x", tuple(nexc), h)],
                             self.solver.model() if r == z3.sat else None)
        self._decide_level(("c", v, h), e == v)
        self.pos = max(self.pos, len(self.trail))
        self.stats.decisions += 1
        return v

    def concretize_real(self, e, why="real"):
        h = e.hash()
        e = simp(e)
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        # A real that must become a float: pick one model value.  Only this value is explored
        # further, so the path is marked incomplete unless the value is forced.
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] != "r" or d[2] != h:
                raise NonDeterminism("real concretization")
            self.pos += 1
            val = d[1]
            self._decide_level(d, e == z3.RealVal(str(val)))
            self._end_prefix()
            if d[3]:
                self.incomplete.append(f"real-concretized:{why}")
            return float(val)
        m = self.get_model()
        val = z3val_to_fraction(m.eval(e, model_completion=True))
        forced = self._check(e != z3.RealVal(str(val))) == z3.unsat
        if not forced:
            self.incomplete.append(f"real-concretized:{why}")
            self.stats.concretized_reals += 1
        self._decide_level(("r", val, h, not forced), e == z3.RealVal(str(val)))
        self.model = None
        self.pos = len(self.trail)
        return float(val)

    # -- symbolic inputs ------------------------------------------------------
    def int_var(self, name, lo=None, hi=None):
        e = self.fresh(name, "i")
        if lo is not None:
            self.add(e >= lo)
        if hi is not None:
            self.add(e <= hi)
        if lo is not None and hi is not None and lo == hi:
            return lo
        return SymInt(e)

    def real_var(self, name, lo=None, hi=None):
        e = self.fresh(name, "r")
        if lo is not None:
            self.add(e >= rv(lo))
        if hi is not None:
            self.add(e <= rv(hi))
        return SymReal(e)

    def bool_var(self, name):
        return SymBool(self.fresh(name, "b"))

    def choice(self, name, options):
        """Pick one of a list of Python objects (a solver-split case)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self.int_var(name, 0, len(options) - 1)
        return options[self.concretize_int(v.e, why="choice")]

    # -- evaluation -------------------------------------------------------------
    def value(self, x, model):
        return model_value(x, model)


class Explorer:
    def __init__(self, *, max_paths=20000, time_budget=120.0, query_timeout_ms=20000,
                 max_enum=64, path_budget=60.0, seed=0, opts=None):
        self.opts = opts or {}
        self.stats = Stats()
        self.max_paths = max_paths
        self.t_end = time.perf_counter() + time_budget
        self.query_timeout_ms = query_timeout_ms
        self.max_enum = max_enum
        self.path_budget = path_budget
        self.work = []
        self.incomplete = {}
        self.seed = seed
        _SIMP.clear()
        self._fresh_solver()

    def _fresh_solver(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_timeout_ms)
        if not self.opts.get("nl", False):
            self.solver.set("arith.solver", 2)
        self.scopes = []
        self.clean = False  # nothing asserted yet at level 0

    def rewind(self, prefix):
        """Pop to the longest common prefix; returns the number of shared decisions (-1: none)."""
        if not self.clean:
            self._fresh_solver()
            self.clean = True
            return -1
        k = 0
        while k < len(prefix) and k < len(self.scopes) and prefix[k] == self.scopes[k]:
            k += 1
        if len(self.scopes) > k:
            self.solver.pop(len(self.scopes) - k)
            del self.scopes[k:]
        return k

    def path_deadline(self):
        return min(time.perf_counter() + self.path_budget, self.t_end + 5.0)

    def push(self, prefix, model=None):
        self.work.append((prefix, model))

    def note(self, why):
        self.incomplete[why] = self.incomplete.get(why, 0) + 1

    def run(self, body, stop=None):
        """Run body(ctx) on every feasible path.  body handles its own exceptions."""
        self.work = [([], None)]
        rnd = random.Random(self.seed)
        npop = 0
        while self.work:
            if self.stats.paths >= self.max_paths:
                self.note("max-paths")
                break
            if time.perf_counter() > self.t_end:
                self.note("time-budget")
                break
            # depth first, with a random restart now and then so that a cut run is not one corner
            npop += 1
            i = rnd.randrange(len(self.work)) if npop % 6 == 0 else -1
            prefix, model = self.work.pop(i)
            ctx = Ctx(prefix, self, model)
            Ctx.cur = ctx
            try:
                body(ctx)
                self.stats.paths += 1
                if ctx.pos < len(prefix):
                    self.note("nondeterminism:short-path")
                    self.clean = False
            except PathAbort:
                self.clean = ctx.pos >= len(prefix)
            except BudgetExceeded as exc:
                self.note(f"budget:{exc}")
                self.clean = False
            except NonDeterminism as exc:
                self.note(f"nondeterminism:{exc}")
                self.clean = False
            finally:
                Ctx.cur = None
            for w in ctx.incomplete:
                self.note(w)
            if stop is not None and stop():
                break
        self.pending = len(self.work)


# ---------------------------------------------------------------------------
# conversions


def rv(x):
    """Exact z3 real for a Python number (shortest decimal of a float)."""
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    if isinstance(x, (np.floating, _float)):
        x = _float(x) if not isinstance(x, np.float32) else _float(str(x))
        if math.isinf(x) or math.isnan(x):
            raise ValueError("non-finite")
        f = Fraction(repr(x))
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    return z3.RealVal(_int(x))


def z3val_to_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError(f"not a value: {v}")


def is_sym(x):
    return isinstance(x, Sym)


def is_num(x):
    return isinstance(x, (_bool, _int, _float, np.bool_, np.integer, np.floating))


def as_z3_bool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (SymInt, SymReal)):
        return x.e != 0
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return as_z3_bool(x.item())
    return _bool(x)


def z_and(xs):
    out = []
    for x in xs:
        e = as_z3_bool(x)
        if e is True:
            continue
        if e is False:
            return False
        out.append(e)
    if not out:
        return True
    return SymBool(z3.And(*out)) if len(out) > 1 else SymBool(out[0])


def z_or(xs):
    out = []
    for x in xs:
        e = as_z3_bool(x)
        if e is False:
            continue
        if e is True:
            return True
        out.append(e)
    if not out:
        return False
    return SymBool(z3.Or(*out)) if len(out) > 1 else SymBool(out[0])


def z_not(x):
    e = as_z3_bool(x)
    if e is True:
        return False
    if e is False:
        return True
    return SymBool(z3.Not(e))


def z_implies(a, b):
    return z_or([z_not(a), b])


def z_iff(a, b):
    ea, eb = as_z3_bool(a), as_z3_bool(b)
    if isinstance(ea, _bool):
        return SymBool(eb) if ea and not isinstance(eb, _bool) else (eb if ea else z_not(b))
    if isinstance(eb, _bool):
        return a if eb else z_not(a)
    return SymBool(ea == eb)


def kind_of(x):
    if isinstance(x, SymBool) or isinstance(x, (_bool, np.bool_)):
        return "b"
    if isinstance(x, SymInt) or isinstance(x, (_int, np.integer)):
        return "i"
    if isinstance(x, SymReal) or isinstance(x, (_float, np.floating, Fraction)):
        return "r"
    return None


def to_int_expr(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (_bool, np.bool_)):
        return z3.IntVal(1 if x else 0)
    return z3.IntVal(_int(x))


def to_real_expr(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (_bool, np.bool_)):
        return z3.RealVal(1 if x else 0)
    return rv(x)


def unify(a, b):
    """Return (kind, ea, eb) as z3 arithmetic expressions of the same sort."""
    ka, kb = kind_of(a), kind_of(b)
    if ka is None or kb is None:
        return None
    if ka == "r" or kb == "r":
        return "r", to_real_expr(a), to_real_expr(b)
    return "i", to_int_expr(a), to_int_expr(b)


def wrap(kind, e):
    if kind == "r":
        return SymReal(e)
    if kind == "i":
        return SymInt(e)
    return SymBool(e)


def ite(c, a, b):
    """Merge: c ? a : b without branching."""
    ce = as_z3_bool(c)
    if ce is True:
        return a
    if ce is False:
        return b
    if a is b:
        return a
    ka, kb = kind_of(a), kind_of(b)
    if ka is None or kb is None or _nonfinite(a) or _nonfinite(b):
        return a if Ctx.cur.branch(ce) else b
    if not is_sym(a) and not is_sym(b) and ka == kb and a == b:
        return a
    if ka == "b" and kb == "b":
        ea, eb = as_z3_bool(a), as_z3_bool(b)
        if ea is True and eb is False:
            return SymBool(ce)
        if ea is False and eb is True:
            return SymBool(z3.Not(ce))
        ea = z3.BoolVal(ea) if isinstance(ea, _bool) else ea
        eb = z3.BoolVal(eb) if isinstance(eb, _bool) else eb
        return SymBool(z3.If(ce, ea, eb))
    k, ea, eb = unify(a, b)
    if ea.eq(eb):
        return wrap(k, ea)
    return wrap(k, z3.If(ce, ea, eb))


def _nonfinite(x):
    return isinstance(x, (_float, np.floating)) and not math.isfinite(x)


def model_value(x, model):
    """Concrete Python value of x under a z3 model (recursively)."""
    if isinstance(x, SymBool):
        return z3.is_true(model.eval(x.e, model_completion=True))
    if isinstance(x, SymInt):
        return model.eval(x.e, model_completion=True).as_long()
    if isinstance(x, SymReal):
        f = z3val_to_fraction(model.eval(x.e, model_completion=True))
        return float(f)
    if isinstance(x, np.ndarray) and hasattr(x, "_ld"):
        flat = [model_value(v, model) for v in x._raw().flat]
        out = np.empty(len(flat), dtype=object)
        for i, v in enumerate(flat):
            out[i] = v
        ld = x._ld
        if ld.kind == "O":
            return out.reshape(x.shape)
        return np.array(flat, dtype=ld).reshape(x.shape)
    if isinstance(x, dict):
        return {model_value(k, model): model_value(v, model) for k, v in x.items()}
    if isinstance(x, list):
        return [model_value(v, model) for v in x]
    if isinstance(x, tuple):
        vals = [model_value(v, model) for v in x]
        return type(x)(*vals) if hasattr(x, "_fields") else tuple(vals)
    if isinstance(x, (set, frozenset)):
        return type(x)(model_value(v, model) for v in x)
    if hasattr(x, "__sym_concrete__"):
        return x.__sym_concrete__(model)
    return x


# ---------------------------------------------------------------------------
# scalars


class Sym:
    __slots__ = ("e",)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    # numpy-scalar-like surface
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def tolist(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    def __hash__(self):
        # Using a symbolic value as a dict/set key decides it.
        return hash(self._decide("hash"))

    def __str__(self):
        if Ctx.cur is None:
            return f"<{self.e.sexpr()[:40]}>"
        from .fsx import token

        return token(self)

    def __repr__(self):
        return f"<{self.e.sexpr()[:40]}>"

    def __format__(self, spec):
        return str(self)

    def reshape(self, *a):
        from .arr import sarr

        return sarr([self], self.dtype).reshape(*a)

    def __reduce__(self):
        raise TypeError("symbolic value cannot be pickled")

    def sum(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def astype(self, dt, copy=True):
        from .arr import cast_elem

        return cast_elem(self, np.dtype(dt))


def _arr_other(o):
    return isinstance(o, np.ndarray) and o.ndim > 0


def _arr_binop(name, a, b):
    from . import arr

    return arr.ufunc_call(getattr(np, name), a, b)


class SymBool(Sym):
    __slots__ = ()
    dtype = np.dtype(bool)

    def __bool__(self):
        return Ctx.cur.branch(self.e)

    def _decide(self, why="bool"):
        return Ctx.cur.branch(self.e)

    def __int__(self):
        return 1 if Ctx.cur.branch(self.e) else 0

    __index__ = __int__

    def __float__(self):
        return 1.0 if Ctx.cur.branch(self.e) else 0.0

    def __and__(self, o):
        if _arr_other(o):
            return _arr_binop("bitwise_and", self, o)
        if kind_of(o) != "b":
            return num_op("and", self, o)
        return z_and([self, o])

    __rand__ = __and__

    def __or__(self, o):
        if _arr_other(o):
            return _arr_binop("bitwise_or", self, o)
        if kind_of(o) != "b":
            return num_op("or", self, o)
        return z_or([self, o])

    __ror__ = __or__

    def __xor__(self, o):
        if _arr_other(o):
            return _arr_binop("bitwise_xor", self, o)
        return z_not(z_iff(self, o))

    __rxor__ = __xor__

    def __invert__(self):
        return z_not(self)

    def __eq__(self, o):
        if _arr_other(o):
            return _arr_binop("equal", self, o)
        k = kind_of(o)
        if k is None:
            return False
        if k == "b":
            return z_iff(self, o)
        return num_cmp("==", self, o)

    def __ne__(self, o):
        if _arr_other(o):
            return _arr_binop("not_equal", self, o)
        return z_not(self.__eq__(o))

    __hash__ = Sym.__hash__


def _mk_num_dunders(cls):
    def binop(name, npname, swap=False):
        def f(self, o):
            if _arr_other(o):
                return _arr_binop(npname, o, self) if swap else _arr_binop(npname, self, o)
            if kind_of(o) is None:
                return NotImplemented
            return num_op(name, o, self) if swap else num_op(name, self, o)

        return f

    def cmpop(name, npname):
        def f(self, o):
            if _arr_other(o):
                return _arr_binop(npname, self, o)
            if kind_of(o) is None:
                if name == "==":
                    return False
                if name == "!=":
                    return True
                return NotImplemented
            return num_cmp(name, self, o)

        return f

    for nm, npn, op in (
        ("add", "add", "+"), ("sub", "subtract", "-"), ("mul", "multiply", "*"),
        ("truediv", "true_divide", "/"), ("floordiv", "floor_divide", "//"),
        ("mod", "remainder", "%"), ("pow", "power", "**"),
    ):
        setattr(cls, f"__{nm}__", binop(op, npn))
        setattr(cls, f"__r{nm}__", binop(op, npn, True))
    for nm, npn, op in (
        ("lt", "less", "<"), ("le", "less_equal", "<="), ("gt", "greater", ">"),
        ("ge", "greater_equal", ">="), ("eq", "equal", "=="), ("ne", "not_equal", "!="),
    ):
        setattr(cls, f"__{nm}__", cmpop(op, npn))
    cls.__hash__ = Sym.__hash__


class _Num(Sym):
    __slots__ = ()

    def __bool__(self):
        return Ctx.cur.branch(self.e != 0)

    def __neg__(self):
        return type(self)(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.e >= 0, self.e, -self.e))

    def __divmod__(self, o):
        return num_op("//", self, o), num_op("%", self, o)

    def __rdivmod__(self, o):
        return num_op("//", o, self), num_op("%", o, self)


class SymInt(_Num):
    __slots__ = ()
    dtype = np.dtype(np.int64)

    def _decide(self, why="int"):
        return Ctx.cur.concretize_int(self.e, why)

    def __index__(self):
        return Ctx.cur.concretize_int(self.e, "index")

    def __int__(self):
        return Ctx.cur.concretize_int(self.e, "int()")

    def __float__(self):
        return float(Ctx.cur.concretize_int(self.e, "float()"))

    def __round__(self, n=None):
        return self

    __floor__ = __ceil__ = __trunc__ = lambda self: self

    def is_integer(self):
        return True

    def bit_length(self):
        return self.__index__().bit_length()

    def __and__(self, o):
        return num_op("and", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return num_op("or", self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return num_op("xor", self, o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self.__index__() << _int(o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self.__index__() >> _int(o)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __invert__(self):
        return SymInt(-self.e - 1)


class SymReal(_Num):
    __slots__ = ()
    dtype = np.dtype(np.float64)

    def _decide(self, why="real"):
        return Ctx.cur.concretize_real(self.e, why)

    def __int__(self):
        return self.__trunc__().__int__()

    def __float__(self):
        return Ctx.cur.concretize_real(self.e, "float()")

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e))

    def __trunc__(self):
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, n=None):
        if n is not None and n != 0:
            s = 10 ** _int(n)
            return SymReal(z3.ToReal(round_half_even(self.e * s)) / s)
        r = round_half_even(self.e)
        return SymReal(z3.ToReal(r)) if n is not None else SymInt(r)

    def is_integer(self):
        return SymBool(z3.IsInt(self.e))


_mk_num_dunders(SymInt)
_mk_num_dunders(SymReal)


def round_half_even(e):
    half = z3.RealVal("1/2")
    f = z3.ToInt(e + half)
    tie = z3.ToReal(f) == e + half
    return z3.If(z3.And(tie, f % 2 != 0), f - 1, f)


def _bool_arith(x):
    if isinstance(x, SymBool):
        return SymInt(to_int_expr(x))
    return x


for _nm in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
    def _f(self, o, _nm=_nm):
        return getattr(_bool_arith(self), f"__{_nm}__")(o)

    def _g(self, o, _nm=_nm):
        return getattr(_bool_arith(self), f"__r{_nm}__")(o)

    setattr(SymBool, f"__{_nm}__", _f)
    setattr(SymBool, f"__r{_nm}__", _g)
for _nm in ("lt", "le", "gt", "ge"):
    def _f(self, o, _nm=_nm):
        return getattr(_bool_arith(self), f"__{_nm}__")(o)

    setattr(SymBool, f"__{_nm}__", _f)
SymBool.__neg__ = lambda self: -_bool_arith(self)
SymBool.__abs__ = lambda self: _bool_arith(self)
SymBool.__round__ = lambda self, n=None: _bool_arith(self)


def num_cmp(op, a, b):
    if not is_sym(a) and not is_sym(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    for x, y, flip in ((a, b, False), (b, a, True)):
        if _nonfinite(y):
            if math.isnan(y):
                return op == "!="
            pos = y > 0
            o = op if not flip else {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            if o in ("<", "<="):
                return pos
            if o in (">", ">="):
                return not pos
            return o == "!="
    k, ea, eb = unify(a, b)
    if ea.eq(eb):
        return op in ("<=", ">=", "==")
    e = {"<": lambda: ea < eb, "<=": lambda: ea <= eb, ">": lambda: ea > eb,
         ">=": lambda: ea >= eb, "==": lambda: ea == eb, "!=": lambda: ea != eb}[op]()
    return SymBool(e)


def _isval(x, v):
    return not is_sym(x) and not isinstance(x, (np.ndarray,)) and is_num(x) and x == v


def _int_floordiv(ea, eb):
    # Python floor division on z3 Ints (z3 div rounds so the remainder is non-negative)
    if z3.is_int_value(eb):
        b = eb.as_long()
        if b > 0:
            return ea / eb
        return (-ea) / z3.IntVal(-b)
    return z3.If(eb > 0, ea / eb, (-ea) / (-eb))


EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG = z3.Function("log", z3.RealSort(), z3.RealSort())


def num_op(op, a, b):
    if not is_sym(a) and not is_sym(b):
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                "//": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b,
                "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b}[op]()
    if _nonfinite(a) or _nonfinite(b):
        return _nonfinite_op(op, a, b)
    ka, kb = kind_of(a), kind_of(b)
    if op == "+":
        if _isval(a, 0) and not (ka == "r" and kb != "r"):
            return _bool_arith(b)
        if _isval(b, 0) and not (kb == "r" and ka != "r"):
            return _bool_arith(a)
        k, ea, eb = unify(a, b)
        return wrap(k, ea + eb)
    if op == "-":
        if _isval(b, 0) and not (kb == "r" and ka != "r"):
            return _bool_arith(a)
        k, ea, eb = unify(a, b)
        if ea.eq(eb):
            return 0 if k == "i" else 0.0
        return wrap(k, ea - eb)
    if op == "*":
        if _isval(a, 0) or _isval(b, 0):
            return 0.0 if "r" in (ka, kb) else 0
        if _isval(a, 1) and not (ka == "r" and kb != "r"):
            return _bool_arith(b)
        if _isval(b, 1) and not (kb == "r" and ka != "r"):
            return _bool_arith(a)
        k, ea, eb = unify(a, b)
        return wrap(k, ea * eb)
    if op == "/":
        ea, eb = to_real_expr(a), to_real_expr(b)
        if is_sym(b):
            if not Ctx.cur.surely_positive(eb) and Ctx.cur.branch(eb == 0):
                return _div_zero(a)
        elif b == 0:
            return _div_zero(a)
        if _isval(b, 1):
            return SymReal(ea)
        if _isval(a, 0):
            return 0.0
        return SymReal(ea / eb)
    if op in ("//", "%"):
        if is_sym(b):
            kk, _, ebb = unify(a, b)
            if Ctx.cur.branch(ebb == 0):
                raise ZeroDivisionError("symbolic division by zero")
        elif b == 0:
            raise ZeroDivisionError("division by zero")
        k, ea, eb = unify(a, b)
        if k == "i":
            q = _int_floordiv(ea, eb)
            return SymInt(q) if op == "//" else SymInt(ea - q * eb)
        q = z3.ToReal(z3.ToInt(ea / eb))
        return SymReal(q) if op == "//" else SymReal(ea - q * eb)
    if op == "**":
        if not is_sym(b) and float(b) == int(b) and 0 <= int(b) <= 8:
            n = int(b)
            if n == 0:
                return 1.0 if "r" in (ka, kb) else 1
            e = to_real_expr(a) if "r" in (ka, kb) else to_int_expr(a)
            out = e
            for _ in range(n - 1):
                out = out * e
            return wrap("r" if "r" in (ka, kb) else "i", out)
        if not is_sym(b) and float(b) == 0.5:
            return sym_sqrt(a)
        if not is_sym(b) and float(b) == -0.5:
            return num_op("/", 1.0, sym_sqrt(a))
        if not is_sym(b) and float(b) == int(b) and -4 <= int(b) < 0:
            return num_op("/", 1.0, num_op("**", a, -int(b)))
        va = a._decide("pow") if is_sym(a) else a
        vb = b._decide("pow") if is_sym(b) else b
        return va ** vb
    if op in ("and", "or", "xor"):
        if ka == "b" and kb == "b":
            return {"and": z_and([a, b]), "or": z_or([a, b])}.get(op, z_not(z_iff(a, b)))
        va = a._decide(op) if is_sym(a) else int(a)
        vb = b._decide(op) if is_sym(b) else int(b)
        return {"and": va & vb, "or": va | vb, "xor": va ^ vb}[op]
    raise NotImplementedError(op)


def _div_zero(a):
    """numpy float semantics of a/0 (a symbolic or concrete)."""
    if is_sym(a):
        e = to_real_expr(a)
        if Ctx.cur.branch(e == 0):
            return math.nan
        return math.inf if Ctx.cur.branch(e > 0) else -math.inf
    if a == 0 or a != a:
        return math.nan
    return math.inf if a > 0 else -math.inf


def _nonfinite_op(op, a, b):
    other_sym = a if is_sym(a) else b
    if math.isnan(a if not is_sym(a) else b):
        return math.nan
    # pick a representative of the sign of the symbolic operand
    e = to_real_expr(other_sym)
    if op in ("*", "/"):
        if Ctx.cur.branch(e == 0):
            rep = 0.0
        else:
            rep = 1.0 if Ctx.cur.branch(e > 0) else -1.0
    else:
        rep = 1.0
    x = rep if is_sym(a) else float(a)
    y = rep if is_sym(b) else float(b)
    with np.errstate(all="ignore"):
        f = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.true_divide,
             "//": np.floor_divide, "%": np.remainder, "**": np.power}[op]
        return float(f(np.float64(x), np.float64(y)))


def _exact_root(e):
    """(c, t) with e == (c*t)**2, c a positive rational and t one variable; None when e has no such form."""
    c, todo, base, deg = Fraction(1), [e], None, 0
    while todo:
        f = todo.pop()
        k = f.decl().kind() if z3.is_app(f) else None
        if z3.is_rational_value(f) or z3.is_int_value(f):
            c *= Fraction(f.numerator_as_long(), f.denominator_as_long()) if z3.is_rational_value(f) else f.as_long()
        elif k == z3.Z3_OP_MUL:
            todo += f.children()
        elif k == z3.Z3_OP_POWER and z3.is_rational_value(f.arg(1)) and f.arg(1).eq(z3.RealVal(2)):
            if base is not None and not base.eq(f.arg(0)):
                return None
            base, deg = f.arg(0), deg + 2
        elif k == z3.Z3_OP_UNINTERPRETED and f.num_args() == 0:
            if base is not None and not base.eq(f):
                return None
            base, deg = f, deg + 1
        else:
            return None
    if base is None or deg != 2 or c <= 0:
        return None
    p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if p * p != c.numerator or q * q != c.denominator:
        return None
    return float(Fraction(p, q)) if Fraction(float(Fraction(p, q))) == Fraction(p, q) else Fraction(p, q), base


def sym_sqrt(a):
    """Real square root; negative arguments give nan like numpy."""
    if not is_sym(a):
        return math.sqrt(a) if a >= 0 else math.nan
    e = to_real_expr(a)
    ctx = Ctx.cur
    es = simp(e)
    if z3.is_rational_value(es):
        f = Fraction(es.numerator_as_long(), es.denominator_as_long())
        return math.sqrt(f) if f >= 0 else math.nan
    root = _exact_root(es)
    if root is not None:
        c, t = root
        return num_op("*", c, smax(SymReal(t), SymReal(-t)))
    if ctx.branch(e < 0):
        return math.nan
    cache = ctx.data.setdefault("sqrt", {})
    key = es.sexpr()
    if key in cache:
        return cache[key]
    s = ctx.fresh("sqrt", "r")
    ctx.define(s, s >= 0, s * s == e)
    out = SymReal(s)
    cache[key] = out
    return out


def sym_exp(a):
    if not is_sym(a):
        try:
            return math.exp(a)
        except OverflowError:
            return math.inf
    ctx = Ctx.cur
    e = simp(to_real_expr(a))
    cache = ctx.data.setdefault("exp", {})
    key = e.sexpr()
    if key in cache:
        return cache[key][1]
    if ctx.data.get("log_plain"):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            out = SymReal(z3.If(e.arg(0), to_real_expr(sym_exp(SymReal(e.arg(1)))), to_real_expr(sym_exp(SymReal(e.arg(2))))))
            cache[key] = (e, out)
            return out
        if z3.is_rational_value(e):
            return math.exp(e.as_fraction())
        p = _exp_of_logs(e)
        if p is not None:
            cache[key] = (e, p)
            return p
    t = EXP(e)
    if ctx.data.get("log_plain"):
        ctx.model = None
        cache[key] = (e, SymReal(t))
        return cache[key][1]
    ctx.assert_(t > 0, t >= 1 + e, z3.Implies(e <= 0, t <= 1), z3.Implies(e == 0, t == 1))
    for k2, (e2, r2) in cache.items():
        ctx.assert_(z3.Implies(e < e2, t < r2.e), z3.Implies(e > e2, t > r2.e),
                       z3.Implies(e == e2, t == r2.e))
    ctx.model = None
    out = SymReal(t)
    cache[key] = (e, out)
    return out


def _exp_of_logs(e):
    """exp of an integer combination of logarithms is a quotient of products."""
    num, den = [], []
    for t in (e.children() if z3.is_add(e) else [e]):
        c = 1
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            f = t.arg(0).as_fraction()
            if f.denominator != 1 or not 0 < abs(f.numerator) <= 6:
                return None
            c, t = f.numerator, t.arg(1)
        if not (z3.is_app(t) and t.decl().eq(LOG)):
            return None
        (num if c > 0 else den).extend([SymReal(t.arg(0))] * abs(c))
    out = 1.0
    for x in num:
        out = x * out
    for x in den:
        out = out / x
    return out if isinstance(out, SymReal) else None


def unit_sum(e):
    """Whether `e` is the sum of a declared probability vector (a constraint of the path says it is one)."""
    units = Ctx.cur.data.get("units")
    if not units or not z3.is_add(e):
        return False
    return frozenset(x.decl().name() if z3.is_const(x) else "?" for x in e.children()) in units


def sym_log(a):
    if not is_sym(a):
        return math.log(a) if a > 0 else (-math.inf if a == 0 else math.nan)
    ctx = Ctx.cur
    e = simp(to_real_expr(a))
    if ctx.data.get("log_plain"):
        if z3.is_add(e) and z3.is_rational_value(e.arg(0)) and 0 < e.arg(0).as_fraction() <= Fraction(1, 10**9):
            e = simp(e - e.arg(0))      # the tiny constant that keeps a logarithm finite
        if unit_sum(e):
            return 0.0
    cache = ctx.data.setdefault("log", {})
    key = e.sexpr()
    if key in cache:
        return cache[key][1]
    if not ctx.surely_positive(e) and ctx.branch(e <= 0):
        return -math.inf if ctx.branch(e == 0) else math.nan
    t = LOG(e)
    if ctx.data.get("log_plain"):
        # no axioms: any function of the positive reals (weaker, hence sound for what is proved with it)
        ctx.model = None
        cache[key] = (e, SymReal(t))
        ctx.data.setdefault("exp", {})[t.sexpr()] = (t, SymReal(e))
        return cache[key][1]
    ctx.assert_(t <= e - 1, z3.Implies(e >= 1, t >= 0), z3.Implies(e < 1, t < 0))
    for k2, (e2, r2) in cache.items():
        ctx.assert_(z3.Implies(e < e2, t < r2.e), z3.Implies(e > e2, t > r2.e),
                       z3.Implies(e == e2, t == r2.e))
    ctx.model = None
    out = SymReal(t)
    cache[key] = (e, out)
    ec = ctx.data.setdefault("exp", {})
    for k2, (e2, r2) in ec.items():  # exp(log x) = x
        ctx.assert_(z3.Implies(t < e2, e < r2.e), z3.Implies(t > e2, e > r2.e), z3.Implies(t == e2, e == r2.e))
    ec[t.sexpr()] = (t, SymReal(e))
    return out


def smin(a, b):
    """numpy-like minimum of two scalars, merged."""
    if not is_sym(a) and not is_sym(b):
        if a != a:
            return a
        if b != b:
            return b
        return a if a <= b else b
    if _nonfinite(a) or _nonfinite(b):
        x = a if _nonfinite(a) else b
        y = b if _nonfinite(a) else a
        return x if (x != x or x < 0) else y
    return ite(num_cmp("<=", a, b), a, b)


def smax(a, b):
    if not is_sym(a) and not is_sym(b):
        if a != a:
            return a
        if b != b:
            return b
        return a if a >= b else b
    if _nonfinite(a) or _nonfinite(b):
        x = a if _nonfinite(a) else b
        y = b if _nonfinite(a) else a
        return x if (x != x or x > 0) else y
    return ite(num_cmp(">=", a, b), a, b)


import numbers as _numbers

_numbers.Integral.register(SymInt)
_numbers.Real.register(SymReal)
