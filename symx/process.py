"""`hash()` of texts differs between Python processes: harnesses comparing two runs may start a new process in between."""
from __future__ import annotations

import builtins
import hashlib
import sys

_NO = [0]


def new_process():
    _NO[0] += 1


def reset():
    _NO[0] = 0


def _texts(x):
    return isinstance(x, (str, bytes)) or (isinstance(x, (tuple, frozenset)) and any(_texts(v) for v in x))


def model_hash(x):
    if not _texts(x):
        return builtins.hash(x)
    h = hashlib.sha256(repr((_NO[0], x)).encode()).digest()
    return int.from_bytes(h[:8], "big", signed=True) >> 2


class Hashing:
    """Installs the model in the loaded modules of the repository (concrete replays)."""

    def __enter__(self):
        self.done = [m.__dict__ for n, m in list(sys.modules.items())
                     if m is not None and n.split(".")[0] in ("modssc", "bench") and "hash" not in m.__dict__]
        for g in self.done:
            g["hash"] = model_hash
        return self

    def __exit__(self, *exc):
        for g in self.done:
            g.pop("hash", None)
        return False
