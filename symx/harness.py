"""Harness registry, symbolic runs, concrete replay, scheduling, evidence."""
from __future__ import annotations

import importlib
import json
import os
import pickle
import re
import signal
import sys
import time
import traceback
import types
from fractions import Fraction

import numpy as np

from . import core, process
from .arr import SArr, mk, new_raw, to_real
from .core import (BudgetExceeded, Ctx, Explorer, NonDeterminism, PathAbort, Stats, Sym, SymBool,
                   SymInt, SymReal, as_z3_bool, is_sym, model_value, z3)
from .rng import install_script, script_from_log

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY: dict[str, list["Harness"]] = {}


class Skip(Exception):
    """The harness decides this path carries no obligation."""


class Harness:
    def __init__(self, prop, name, body, cfgs, modules, opts):
        self.prop, self.name, self.body, self.cfgs = prop, name, body, cfgs
        self.modules, self.opts = modules, opts


def harness(prop, *, modules=(), cfgs=({},), thorough=None, name=None, **opts):
    """Register body(I, cfg, C).  `thorough` adds configurations for the thorough tier."""

    def deco(fn):
        def get(tier):
            base = list(cfgs() if callable(cfgs) else cfgs)
            if tier == "thorough" and thorough is not None:
                base += list(thorough() if callable(thorough) else thorough)
            return base

        h = Harness(prop, name or fn.__name__, fn, get, tuple(modules), opts)
        REGISTRY.setdefault(prop, []).append(h)
        return fn

    return deco


# ---------------------------------------------------------------------------
# inputs


class SymInputs:
    mode = "symbolic"

    def __init__(self, ctx):
        self.ctx = ctx

    def _rec(self, name, v):
        if name in self.ctx.inputs:
            raise RuntimeError(f"duplicate input {name}")
        self.ctx.inputs[name] = v
        return v

    def int(self, name, lo, hi):
        return self._rec(name, self.ctx.int_var(name, lo, hi))

    def real(self, name, lo, hi):
        v = self.ctx.real_var(name, lo, hi)
        return self._rec(name, v)

    def bool(self, name):
        return self._rec(name, self.ctx.bool_var(name))

    def flag(self, name):
        """A bool decided up front (for options that are plain Python switches)."""
        return self._rec(name, bool(self.ctx.bool_var(name)))

    def choice(self, name, options):
        return self._rec(name, self.ctx.choice(name, options))

    def pick_int(self, name, lo, hi):
        """Integer decided up front (sizes)."""
        return self.choice(name, list(range(lo, hi + 1)))

    def arr(self, name, shape, kind, lo=None, hi=None, dtype=None):
        shape = shape if isinstance(shape, tuple) else (shape,)
        n = 1
        for s in shape:
            n *= s
        dt = np.dtype(dtype) if dtype is not None else np.dtype(
            {"i": np.int64, "r": np.float64, "b": bool}[kind])
        raw = new_raw((n,))
        for k in range(n):
            if kind == "i":
                raw[k] = self.ctx.int_var(f"{name}[{k}]", lo, hi)
            elif kind == "r":
                raw[k] = self.ctx.real_var(f"{name}[{k}]", lo, hi)
            else:
                raw[k] = self.ctx.bool_var(f"{name}[{k}]")
        return self._rec(name, mk(raw.reshape(shape), dt)).copy()

    def assume(self, cond):
        self.ctx.assume(cond)


class ConcInputs:
    mode = "concrete"

    def __init__(self, values):
        self.values = values

    def _get(self, name):
        return self.values[name]

    def int(self, name, lo, hi):
        return self._get(name)

    def real(self, name, lo, hi):
        return float(self._get(name))

    def bool(self, name):
        return bool(self._get(name))

    flag = bool

    def choice(self, name, options):
        return self._get(name)

    def pick_int(self, name, lo, hi):
        return self._get(name)

    def arr(self, name, shape, kind, lo=None, hi=None, dtype=None):
        v = self._get(name)
        return v.astype(dtype) if dtype is not None else v.copy()

    def assume(self, cond):
        if not cond:
            raise Skip("assumption does not hold on the rounded inputs")


# ---------------------------------------------------------------------------
# requirements


class SymChecks:
    def __init__(self, ctx):
        self.ctx = ctx
        self.conds = []
        self.notes = {}

    def require(self, label, cond, known=None):
        self.conds.append((label, cond))

    def fail(self, label):
        self.conds.append((label, False))

    def note(self, k, v=1):
        self.notes[k] = self.notes.get(k, 0) + v


class ConcChecks:
    def __init__(self):
        self.failed = []
        self.n = 0

    def require(self, label, cond, known=None):
        self.n += 1
        if not bool(cond):
            self.failed.append(label)

    def fail(self, label):
        self.n += 1
        self.failed.append(label)

    def note(self, k, v=1):
        pass


def _nice_model(ctx, extra):
    """Model of path + extra; prefers inputs that are exact small binary fractions."""
    s = ctx.solver
    ctx.need(*extra)
    reals = []
    for v in ctx.inputs.values():
        if isinstance(v, SymReal):
            reals.append(v.e)
        elif isinstance(v, SArr):
            reals.extend(x.e for x in v._raw().reshape(-1) if isinstance(x, SymReal))
    for _, _, _, _, vals in ctx.rng_log:
        reals.extend(x.e for x in vals if isinstance(x, SymReal))
    if reals:
        for den in (8, 64):
            s.push()
            s.set("timeout", 3000)
            try:
                for k, r in enumerate(reals):
                    t = z3.Int(f"__dy{k}")
                    s.add(r * den == z3.ToReal(t))
                if ctx._check(*extra) == z3.sat:
                    return s.model()
            finally:
                s.pop()
                s.set("timeout", ctx.ex.query_timeout_ms)
    r = ctx._check(*extra)
    return s.model() if r == z3.sat else (None if r == z3.unsat else "unknown")


def _snapshot(ctx, model, label, kind, cfg, hidx):
    vals = {k: model_value(v, model) for k, v in ctx.inputs.items()}
    return {"label": label, "kind": kind, "inputs": vals,
            "script": script_from_log(ctx.rng_log, model)}


# ---------------------------------------------------------------------------
# one symbolic instance (runs in a forked worker)


def run_instance(h, cfg, budget, witnesses, seed, max_cex=6):
    from .patch import Patched

    o = h.opts
    ex = Explorer(max_paths=o.get("max_paths", 40000), time_budget=budget,
                  query_timeout_ms=o.get("query_timeout_ms", 20000),
                  max_enum=o.get("max_enum", 64), path_budget=o.get("path_budget", 120.0), seed=seed,
                  opts={**o, **{k[1:]: v for k, v in cfg.items() if k.startswith("_")}})
    res = {"cex": [], "wit": [], "exc": {}, "functions": set(), "obligations": 0, "discharged": 0,
           "checked_paths": 0, "labels": {}, "skips": 0}

    def setup_patches():
        stack = [Patched(**o.get("patch", {}))]
        stack += [f() for f in o.get("contexts", ())]
        return stack

    prof_left = [2]

    def body(ctx):
        process.reset()
        I, C = SymInputs(ctx), SymChecks(ctx)
        ctx.checks = C
        prof = None
        if prof_left[0] > 0:
            prof_left[0] -= 1
            prof = res["functions"]

            def tracer(frame, event, arg):
                if event == "call":
                    f = frame.f_code
                    fn = f.co_filename
                    if "/src/modssc/" in fn or "/repo/bench/" in fn:
                        prof.add(fn.split("/repo/")[-1] + ":" + f.co_qualname)

            sys.setprofile(tracer)
        err = None
        try:
            h.body(I, cfg, C)
        except Skip:
            res["skips"] += 1
            if not C.conds:
                return
        except Exception as exc:  # noqa: BLE001
            err = exc
            tb = traceback.extract_tb(exc.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:]]
            key = f"{type(exc).__name__}: {str(exc)[:200]} @ {' < '.join(reversed(where))}"
        finally:
            if prof is not None:
                sys.setprofile(None)
        if err is not None:
            n = res["exc"].get(key, 0)
            res["exc"][key] = n + 1
            ex.note("exception-path")
            if n < 3 and len(res["cex"]) < 40:
                m = _nice_model(ctx, [])
                if m not in (None, "unknown"):
                    res["cex"].append(_snapshot(ctx, m, f"unexpected {type(err).__name__}: {str(err)[:160]}",
                                                "exception", cfg, 0))
        bad = []
        for label, cond in C.conds:
            e = as_z3_bool(cond)
            if not isinstance(e, bool):
                e = z3.simplify(e)
                e = True if z3.is_true(e) else False if z3.is_false(e) else e
            res["obligations"] += 1
            res["labels"][label] = res["labels"].get(label, 0) + 1
            if e is True:
                res["discharged"] += 1
                continue
            bad.append((label, e))
        res["checked_paths"] += 1
        if bad:
            neg = [z3.BoolVal(True) if e is False else z3.Not(e) for _, e in bad]
            q = neg[0] if len(neg) == 1 else z3.Or(*neg)
            r = ctx._check(q)
            if r == z3.unknown and len(neg) > 1:
                # decide obligations one by one
                unk = 0
                r = z3.unsat
                for (label, _), ne in zip(bad, neg):
                    r1 = ctx._check(ne)
                    if r1 == z3.sat:
                        r, q = z3.sat, ne
                        break
                    if r1 == z3.unknown:
                        unk += 1
                    else:
                        res["discharged"] += 1
                if r == z3.unsat and unk:
                    for _ in range(unk):
                        ex.note("unknown-assertion")
                    r = None
            elif r == z3.unknown:
                ex.note("unknown-assertion")
                r = None
            elif r == z3.unsat:
                res["discharged"] += len(bad)
            if r == z3.sat:
                m = _nice_model(ctx, [q])
                if m == "unknown" or m is None:
                    ex.note("unknown-model")
                else:
                    labels = [lb for (lb, e), ne in zip(bad, neg)
                              if z3.is_true(m.eval(ne, model_completion=True))]
                    lb = labels[0] if labels else bad[0][0]
                    have = sum(1 for c in res["cex"] if c["label"] == lb)
                    if have < max_cex:
                        res["cex"].append(_snapshot(ctx, m, lb, "assertion", cfg, 0))
                    ex.note("violating-path")
        if err is None and len(res["wit"]) < witnesses:
            # a concrete run of this very path, to be compared with the real code
            m = _nice_model(ctx, [])
            if m not in (None, "unknown"):
                res["wit"].append(_snapshot(ctx, m, "witness", "witness", cfg, 0))

    stack = setup_patches()
    for s in stack:
        s.__enter__()
    try:
        ex.run(body, stop=lambda: len(res["cex"]) >= max_cex)
    finally:
        for s in reversed(stack):
            s.__exit__(None, None, None)
    res["stats"] = ex.stats.as_dict()
    res["incomplete"] = dict(ex.incomplete)
    res["functions"] = sorted(res["functions"])
    return res


REPO = os.environ.get("VERIF_REPO", "/repo")


def _stand_in_misfit(exc):
    """The code used one of the harness's stand-ins in a way the stand-in does not support (not a defect of the code)."""
    if isinstance(exc, TypeError):
        m = re.match(r"([\w.<>]+)\(\) (got|takes|missing)", str(exc))
        if m:
            top = m.group(1).split(".")[0]
            mods = [v for k, v in list(sys.modules.items()) if k.startswith("props.")]
            return any(str(getattr(getattr(x, top, None), "__module__", "")).startswith("props.") for x in mods)
    if isinstance(exc, AttributeError):
        o = exc.obj
        return isinstance(o, types.SimpleNamespace) or type(o).__module__.startswith("props.")
    return False


def _from_repo(exc):
    """Did ModSSC's own code (or something it called) raise, rather than the harness itself?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        fr = [os.path.abspath(f.filename) for f in traceback.extract_tb(exc.__traceback__)]
        own = [k for k, f in enumerate(fr) if f.startswith(VERIF + "/props")]
        repo = [k for k, f in enumerate(fr) if f.startswith(REPO + "/")]
        if repo and isinstance(exc, ImportError) and "frozen importlib" in " ".join(fr):
            return False
        if repo and _stand_in_misfit(exc):
            return False
        if repo and (not own or max(repo) > max(own)):
            return True
        return False
    return False


def replay_one(h, cfg, snap):
    """Concrete run of the real code.  Returns (status, failed labels / text)."""
    undos = []
    if snap.get("script"):
        undos.append(install_script(snap["script"]))
        if "torch" in sys.modules or any(e[0][0] in ("torch", "tglob") for e in snap["script"]):
            from .tshim import install_torch_script

            undos.append(install_torch_script(snap["script"]))
    process.reset()
    ctxs = [process.Hashing()] + [f() for f in h.opts.get("replay_contexts", ())]
    for c in ctxs:
        c.__enter__()
    C = ConcChecks()
    try:
        with np.errstate(all="ignore"):
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                h.body(ConcInputs(snap["inputs"]), cfg, C)
    except Skip:
        return ("skip", C.failed) if not C.failed else ("fail", C.failed)
    except Exception as exc:  # noqa: BLE001
        if not _from_repo(exc):
            # the harness could not drive the code (e.g. a renamed helper): no verdict
            return ("fail", C.failed) if C.failed else ("skip", [f"harness: {type(exc).__name__}: {exc}"])
        return "exception", C.failed + [f"{type(exc).__name__}: {str(exc)[:300]}",
                                        traceback.format_exc()[-1500:]]
    finally:
        for c in reversed(ctxs):
            c.__exit__(None, None, None)
        for u in reversed(undos):
            u()
    return ("fail", C.failed) if C.failed else ("ok", [])


# ---------------------------------------------------------------------------
# process plumbing


def _fork(fn, args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            try:
                out = ("ok", fn(*args))
            except BaseException as exc:  # noqa: BLE001
                out = ("err", f"{type(exc).__name__}: {exc}\n{traceback.format_exc()[-3000:]}")
            try:
                blob = pickle.dumps(out)
            except Exception as exc:  # noqa: BLE001
                blob = pickle.dumps(("err", f"result cannot be sent: {exc}"))
            with os.fdopen(w, "wb") as f:
                f.write(blob)
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


class Job:
    def __init__(self, fn, args, timeout, tag):
        self.fn, self.args, self.timeout, self.tag = fn, args, timeout, tag
        self.buf = b""

    def start(self):
        self.t0 = time.time()
        self.pid, self.fd = _fork(self.fn, self.args)
        os.set_blocking(self.fd, False)

    def poll(self):
        """None while running, else (status, payload)."""
        import select

        done = False
        while True:
            try:
                chunk = os.read(self.fd, 1 << 20)
            except BlockingIOError:
                break
            if not chunk:
                done = True
                break
            self.buf += chunk
        if done:
            os.close(self.fd)
            os.waitpid(self.pid, 0)
            try:
                return pickle.loads(self.buf)
            except Exception as exc:  # noqa: BLE001
                return ("err", f"worker died ({type(exc).__name__}: {exc}, {len(self.buf)} bytes)")
        if time.time() - self.t0 > self.timeout:
            self.kill()
            return ("timeout", None)
        return None

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        except PermissionError:
            pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.close(self.fd)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


def run_jobs(jobs, nproc, deadline, on_done, stop):
    pending = list(jobs)
    running = []
    while pending or running:
        while pending and len(running) < nproc and time.time() < deadline and not stop():
            j = pending.pop(0)
            j.timeout = min(j.timeout, max(5.0, deadline + 20 - time.time()))
            j.start()
            running.append(j)
        if stop() or (time.time() >= deadline and pending):
            for j in pending:
                on_done(j, ("skipped", None))
            pending = []
        if stop():
            for j in running:
                j.kill()
                on_done(j, ("skipped", None))
            running = []
            break
        progressed = False
        for j in list(running):
            r = j.poll()
            if r is not None:
                running.remove(j)
                extra = on_done(j, r)
                if extra:
                    pending[:0] = extra
                progressed = True
        if not progressed:
            time.sleep(0.02)


def jsonable(x):
    if isinstance(x, np.ndarray):
        return {"array": x.tolist(), "dtype": str(x.dtype)}
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)
