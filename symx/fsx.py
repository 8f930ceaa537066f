"""Storage model: symbolic contents in real files, symbolic crash points, faults and schedules.

* Arrays and JSON documents with symbolic leaves are written to real files as tokens and
  restored on load (numpy/json round trips are trusted to be faithful).
* sha256 is modelled as injective: two digests are equal exactly if the hashed contents are.
* Every file-system mutation of the interpreter raises an audit event; `FsSim` counts them and
  kills the simulated process (or makes the call fail) at a symbolic index.
* `Sched` runs several actors as threads, one at a time; who runs next at each event is symbolic.
"""
from __future__ import annotations

import builtins
import hashlib
import io
import json as _json
import os
import re
import sys
import threading
import types
import zipfile

import numpy as np

from .arr import SArr, has_sym, mk, new_raw
from .core import Ctx, Sym, is_sym, z3, z_and

# ---------------------------------------------------------------- tokens

_TOK = re.compile(r"<sym:(\d+)>")


def _table():
    d = Ctx.cur.data
    if "tok" not in d:
        d["tok"] = ({}, [])
    return d["tok"]


def token(v):
    by, lst = _table()
    key = (type(v).__name__, v.e.sexpr())
    if key not in by:
        by[key] = len(lst)
        lst.append(v)
    return f"<sym:{by[key]}>"


def untoken(s):
    m = _TOK.fullmatch(s)
    return _table()[1][int(m.group(1))] if m else None


def _restore(o):
    if isinstance(o, str):
        v = untoken(o) if Ctx.cur is not None and o.startswith("<sym:") else None
        return o if v is None else v
    if isinstance(o, list):
        return [_restore(x) for x in o]
    if isinstance(o, dict):
        return {k: _restore(v) for k, v in o.items()}
    return o


_J = {k: getattr(_json, k) for k in ("dumps", "dump", "loads", "load")}


class JsonShim(types.ModuleType):
    """json whose symbolic leaves are written as tokens (equal terms, equal text)."""

    @staticmethod
    def _default(user):
        def f(o):
            if is_sym(o):
                return token(o)
            if user is not None:
                return user(o)
            raise TypeError(f"Object of type {type(o).__name__} is not JSON serializable")

        return f

    def dumps(self, obj, *a, default=None, **k):
        return _J["dumps"](obj, *a, default=self._default(default), **k)

    def dump(self, obj, fp, *a, default=None, **k):
        return _J["dump"](obj, fp, *a, default=self._default(default), **k)

    def loads(self, s, *a, **k):
        return _restore(_J["loads"](s, *a, **k))

    def load(self, fp, *a, **k):
        return _restore(_J["load"](fp, *a, **k))

    def __getattr__(self, nm):
        return getattr(_json, nm)


JSON = JsonShim("json")

# ---------------------------------------------------------------- numpy files

_MAGIC = 0x53594D58


def _stash(a):
    d = Ctx.cur.data.setdefault("npstash", [])
    d.append(a.copy() if isinstance(a, SArr) else np.array(a))
    return np.array([_MAGIC, len(d) - 1], dtype=np.int64)


def _unstash(a):
    if isinstance(a, np.ndarray) and a.dtype == np.int64 and a.shape == (2,) and a[0] == _MAGIC \
            and Ctx.cur is not None:
        v = Ctx.cur.data["npstash"][int(a[1])]
        return v.copy()
    return a


def _enc(a):
    from . import npshim

    s = a if isinstance(a, np.ndarray) else npshim.asarray(a)
    if isinstance(s, SArr):
        return _stash(s)
    return s


def np_save(file, arr, allow_pickle=True, **k):
    if isinstance(arr, SArr) and arr._ld.kind == "O" and not allow_pickle:
        raise ValueError("Object arrays cannot be saved when allow_pickle=False")
    if isinstance(arr, SArr) and arr._ld.kind == "O":
        np.save(file, _enc(arr))
        return
    np.save(file, _enc(arr), allow_pickle=allow_pickle, **k)


def _savez(fn):
    def f(file, *args, **kw):
        kw.pop("allow_pickle", None)
        return fn(file, *[_enc(a) for a in args], **{k: _enc(v) for k, v in kw.items()})

    return f


class _Npz:
    def __init__(self, z):
        self.z, self.files = z, z.files

    def __getitem__(self, k):
        return _unstash(self.z[k])

    def __contains__(self, k):
        return k in self.z

    def __iter__(self):
        return iter(self.z)

    def __len__(self):
        return len(self.z)

    def keys(self):
        return self.z.keys()

    def items(self):
        return [(k, self[k]) for k in self.z.files]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.z.close()

    def close(self):
        self.z.close()


def np_load(file, *a, **k):
    r = np.load(file, *a, **k)
    if isinstance(r, np.lib.npyio.NpzFile):
        return _Npz(r)
    return _unstash(np.asarray(r)) if isinstance(r, np.ndarray) and r.shape == (2,) else r


NP_IO = {"save": np_save, "savez": _savez(np.savez), "savez_compressed": _savez(np.savez_compressed),
         "load": np_load}

# ---------------------------------------------------------------- hashing


class SBytes:
    """Byte string with symbolic array elements in it."""

    def __init__(self, parts):
        self.parts = parts  # list of bytes | (dtype, Sym)

    def __len__(self):
        return sum(len(p) if isinstance(p, bytes) else p[0].itemsize for p in self.parts)

    @property
    def size(self):
        return len(self)

    @property
    def nbytes(self):
        return len(self)

    def tobytes(self, *a):
        return self

    def __getitem__(self, sl):
        lo, hi, st = sl.indices(len(self))
        assert st == 1
        out, pos = [], 0
        for p in self.parts:
            n = len(p) if isinstance(p, bytes) else p[0].itemsize
            a, b = max(lo, pos), min(hi, pos + n)
            if a < b:
                if isinstance(p, bytes):
                    out.append(p[a - pos:b - pos])
                else:
                    assert (a, b) == (pos, pos + n), "slice inside an element"
                    out.append(p)
            pos += n
        return SBytes(out)

    def __add__(self, o):
        return SBytes(self.parts + (o.parts if isinstance(o, SBytes) else [bytes(o)]))

    def __radd__(self, o):
        return SBytes([bytes(o)] + self.parts)


def array_bytes(a):
    raw = a._raw().reshape(-1)
    parts = []
    for v in raw:
        if is_sym(v):
            parts.append((a._ld, v))
        else:
            parts.append(np.asarray(v).astype(a._ld).tobytes())
    return SBytes(parts)


def _parse(b):
    """bytes -> parts, splitting JSON/str tokens out"""
    if isinstance(b, SBytes):
        out = []
        for p in b.parts:
            out.extend(_parse(p) if isinstance(p, bytes) else [p])
        return out
    if isinstance(b, SArr):
        return _parse(array_bytes(b))
    b = bytes(b)
    out, pos = [], 0
    if b"<sym:" in b and Ctx.cur is not None:
        for m in re.finditer(rb"\"?<sym:(\d+)>\"?", b):
            if m.start() > pos:
                out.append(b[pos:m.start()])
            v = _table()[1][int(m.group(1))]
            out.append((type(v).__name__, v))
            pos = m.end()
    if pos < len(b):
        out.append(b[pos:])
    return out


def _merge(parts):
    out = []
    for p in parts:
        if isinstance(p, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += p
        elif p != b"":
            out.append(p)
    return out


def _eqv(a, b):
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if isinstance(x, bytes) or isinstance(y, bytes):
            if x != y:
                return False
        else:
            if str(x[0]) != str(y[0]):
                return False
            cs.append(x[1] == y[1])
    return z_and(cs) if cs else True


class _Hash:
    def __init__(self, name, data=b""):
        self.name, self.parts = name, []
        self.real = hashlib.new(name)
        self.digest_size = self.real.digest_size
        self.block_size = self.real.block_size
        if len(data):
            self.update(data)

    def update(self, b):
        self.parts = _merge(self.parts + _parse(b))

    def copy(self):
        h = _Hash(self.name)
        h.parts = list(self.parts)
        return h

    def _canon(self):
        if all(isinstance(p, bytes) for p in self.parts):
            h = self.real.copy()
            for p in self.parts:
                h.update(p)
            return h.digest()
        seen = Ctx.cur.data.setdefault("hashes", [])
        for nm, parts, dig in seen:
            if nm == self.name:
                e = _eqv(parts, self.parts)
                if e is not False and bool(e):
                    return dig
        dig = hashlib.new(self.name, f"sym-digest-{len(seen)}".encode()).digest()
        seen.append((self.name, self.parts, dig))
        return dig

    def digest(self):
        return self._canon()

    def hexdigest(self):
        return self._canon().hex()


class HashShim(types.ModuleType):
    def __getattr__(self, nm):
        v = getattr(hashlib, nm)
        if nm in ("sha256", "sha1", "md5", "sha512", "sha224", "sha384", "blake2b", "blake2s"):
            return lambda data=b"", **k: _Hash(nm, data)
        return v

    def new(self, nm, data=b"", **k):
        return _Hash(nm, data)


HASHLIB = HashShim("hashlib")

# ---------------------------------------------------------------- crash points, faults, schedules


class Crash(BaseException):
    """The simulated process dies here."""


class Killed(BaseException):
    """An actor is abandoned because its path ended."""


_SIM = None
_HOOKED = False
_tls = threading.local()
_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _hook(event, args):
    sim = _SIM
    if sim is None or getattr(_tls, "busy", False):
        return
    kind = path = None
    if event == "open":
        path, _, flags = args
        if isinstance(path, int) or not isinstance(flags, int) or not flags & _WRITE:
            return
        if os.path.isdir(path):  # the directory a temporary file is about to be created in
            return
        kind = "open"
    elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.truncate", "sqlite3.connect"):
        kind, path = event, args[0]
    elif event == "os.rename":
        kind, path = event, args[1]
    elif event in ("os.link", "os.symlink"):
        kind, path = event, args[1]
    else:
        return
    _tls.busy = True
    try:
        sim.event(kind, path)
    finally:
        _tls.busy = False


def _install():
    global _HOOKED
    if not _HOOKED:
        sys.addaudithook(_hook)
        _HOOKED = True


class FsSim:
    """mode 'crash': the process dies before mutation number `at`; 'fault': that one call fails."""

    def __init__(self, at, mode="crash", torn="full", root=None):
        self.at, self.mode, self.torn = at, mode, torn
        self.n = 0
        self.dead = False
        self.last_open = None
        self.log = []
        self.root = root

    def event(self, kind, path):
        if self.dead:
            raise Crash()
        i = self.n
        self.n += 1
        if self.at is not None and bool(self.at == i):
            if self.mode == "crash":
                self.dead = True
                raise Crash()
            self.last_open = None
            raise OSError(28, "No space left on device (injected)", str(path))
        self.log.append((kind, str(path)))
        self.last_open = str(path) if kind == "open" else None

    def run(self, fn):
        """Returns ('ok', value) | ('crash', None) | ('error', exception)."""
        global _SIM
        _install()
        _SIM = self
        try:
            out = ("ok", fn())
        except Crash:
            out = ("crash", None)
        except Exception as exc:  # noqa: BLE001
            out = ("error", exc)
            if self.dead:
                out = ("crash", None)
            elif self.mode != "fault" or not _fault_in(exc):
                _SIM = None
                raise
            out[1].__traceback__ = None
        finally:
            _SIM = None
        import gc

        gc.collect()
        if self.dead and self.last_open is not None and os.path.exists(self.last_open):
            n = os.path.getsize(self.last_open)
            if self.torn == "empty":
                os.truncate(self.last_open, 0)
            elif self.torn == "half":
                os.truncate(self.last_open, n // 2)
        return out


def _fault_in(exc):
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        if isinstance(exc, OSError) and exc.errno == 28:
            return True
        exc = exc.__cause__ or exc.__context__
    return False


class Sched:
    """Cooperative scheduling of actor threads at every file-system event (and explicit points)."""

    def __init__(self, pick, relevant=None):
        self.pick = pick  # pick(step, runnable) -> actor index
        self.relevant = relevant  # path text -> is this a scheduling point
        self.step = 0
        self.actors = []
        self.cur = None
        self.kill = None
        self.steps = 0

    def event(self, kind, path):
        if self.relevant is None or self.relevant(str(path)):
            self.point()

    def point(self):
        me = _tls_actor()
        if me is None:
            return
        self._switch(me)

    def _switch(self, me):
        self.back.release()
        me.sem.acquire()
        if self.kill:
            raise Killed()

    def run(self, fns, max_steps=4000):
        global _SIM
        _install()
        self.back = threading.Semaphore(0)
        self.actors = [_Actor(self, f, k) for k, f in enumerate(fns)]
        ctx = Ctx.cur
        _SIM = self
        real_stat = os.stat

        def stat(*a, **k):
            if not getattr(_tls, "busy", False) and _tls_actor() is not None and (
                    self.relevant is None or self.relevant(str(a[0]) if a else "")):
                _tls.busy = True
                try:
                    self.point()
                finally:
                    _tls.busy = False
            return real_stat(*a, **k)

        os.stat = stat
        try:
            for a in self.actors:
                a.start()
            while True:
                live = [a for a in self.actors if not a.done]
                if not live:
                    break
                self.steps += 1
                if self.steps > max_steps:
                    raise RuntimeError("schedule too long")
                a = live[0] if len(live) == 1 else self.actors[self.pick(self.steps, [x.k for x in live])]
                a.sem.release()
                self.back.acquire()
                for x in self.actors:
                    if x.fatal is not None:
                        raise x.fatal
        finally:
            os.stat = real_stat
            _SIM = None
            self.kill = True
            for a in self.actors:
                if not a.done:
                    a.sem.release()
            for a in self.actors:
                a.t.join(10)
        return [(a.status, a.value) for a in self.actors]


def _tls_actor():
    return getattr(_tls, "actor", None)


class _Actor:
    def __init__(self, sched, fn, k):
        self.sched, self.fn, self.k = sched, fn, k
        self.sem = threading.Semaphore(0)
        self.done = False
        self.status = self.value = self.fatal = None
        self.t = threading.Thread(target=self._main, daemon=True)

    def start(self):
        self.t.start()

    def _main(self):
        self.sem.acquire()
        _tls.actor = self
        try:
            if not self.sched.kill:
                self.value = self.fn()
                self.status = "ok"
        except Killed:
            self.status = "killed"
        except Exception as exc:  # noqa: BLE001
            self.status, self.value = "error", exc
        except BaseException as exc:  # noqa: BLE001
            self.fatal = exc
        finally:
            self.done = True
            self.sched.back.release()
