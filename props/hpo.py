"""HPO: search spaces, samplers, nested-dict patching."""
from __future__ import annotations

import copy
import math

import numpy as np

from symx.harness import harness
from symx.process import new_process
from symx.ops import And, Iff, Implies, Not, Or, close, count, distinct, eq, flat, le, lec, lt, member, same_seq

MODS = ("modssc.hpo.space", "modssc.hpo.samplers", "modssc.hpo.patching")


def _has(d, path):
    for p in path:
        if not isinstance(d, dict) or p not in d:
            return False
        d = d[p]
    return True


def _get(d, path):
    for p in path:
        d = d[p]
    return d


SPACES = {
    "flat": lambda v: ({"b": v[:2], "a": v[2:5]}, [(("a",), v[2:5]), (("b",), v[:2])]),
    "nested": lambda v: ({"m": {"lr": v[:2], "x": {"k": v[2:4]}}, "a": {"dist": "choice", "values": v[4:6]}},
                         [(("a",), v[4:6]), (("m", "lr"), v[:2]), (("m", "x", "k"), v[2:4])]),
    "single": lambda v: ({"a": v[:3]}, [(("a",), v[:3])]),
    "mixed": lambda v: ({"z": {"q": v[:3]}, "a": v[3:4], "c": {"d": {"e": v[4:6]}}},
                        [(("a",), v[3:4]), (("c", "d", "e"), v[4:6]), (("z", "q"), v[:3])]),
}


@harness("H01", modules=MODS, cfgs=[{"space": k} for k in SPACES],
         bounds="four space shapes (flat, nested, single, mixed; <=3 leaves, <=3 values each), every integer value")
def grid_is_the_cartesian_product(I, cfg, C):
    from modssc.hpo.space import Space

    v = flat(I.arr("values", (6,), "i", -5, 5))
    d, leaves = SPACES[cfg["space"]](v)
    before = copy.copy(v)
    trials = list(Space.from_dict(d).iter_grid())
    n = 1
    for _, vals in leaves:
        n *= len(vals)
    C.require("one trial per combination", len(trials) == n)
    C.require("trials are numbered consecutively", [t.index for t in trials] == list(range(n)))
    C.require("every trial sets every leaf of the space", all(_has(t.patch, path) for t in trials for path, _ in leaves))
    tuples = [[_get(t.patch, path) for path, _ in leaves] for t in trials]
    # every combination of positions occurs exactly once (checked as a multiset of value tuples)
    want = [[]]
    for _, vals in leaves:
        want = [w + [x] for w in want for x in vals]
    for w in want:
        C.require("every combination appears, as often as it is listed",
                  eq(count([And([eq(a, b) for a, b in zip(w, t)]) for t in tuples]),
                     count([And([eq(a, b) for a, b in zip(w, t)]) for t in want])))
    for t in trials:
        C.require("flat parameter names spell the nested path",
                  sorted(t.params) == sorted(".".join(p) for p, _ in leaves))
        C.require("flat and nested parameters agree",
                  And([eq(t.params[".".join(p)], _get(t.patch, p)) for p, _ in leaves]))
    C.require("the space is not modified", And([eq(a, b) for a, b in zip(before, v)]))


@harness("H01", modules=MODS, cfgs=[{"case": k} for k in range(5)],
         bounds="two trials of a random search over list, choice, randint, uniform and loguniform leaves; every "
         "integer/real bound in [-3,3] (loguniform (0,4]); every value the generator may return")
def random_trials_stay_inside_the_space(I, cfg, C):
    from modssc.hpo.space import Space
    from modssc.hpo.types import HpoError

    lo, hi = I.int("lo", -3, 3), I.int("hi", -3, 3)
    ulo, uhi = I.real("ulo", -3, 3), I.real("uhi", -3, 3)
    v = flat(I.arr("values", (3,), "i", -5, 5))
    case = cfg["case"]
    if case == 0:
        d = {"r": {"dist": "randint", "low": lo, "high": hi}, "c": v, "n": {"u": {"dist": "uniform", "low": ulo, "high": uhi}}}
        valid = And(lt(lo, hi), lt(ulo, uhi))
    elif case >= 3:
        # bounds forked to concrete values, so that a scaled generator draw stays linear
        if case == 3:
            lo, hi = I.pick_int("clo", -3, 3), I.pick_int("chi", -3, 3)
            d = {"r": {"dist": "randint", "low": lo, "high": hi}}
            valid = lo < hi
        else:
            ulo, uhi = I.choice("culo", [-3.0, -0.5, 0.0, 1.5]), I.choice("cuhi", [-0.5, 0.25, 2.0, 3.0])
            d = {"n": {"u": {"dist": "uniform", "low": ulo, "high": uhi}}}
            valid = ulo < uhi
    elif case == 1:
        d = {"g": {"dist": "loguniform", "low": ulo, "high": uhi}, "c": {"dist": "choice", "values": v}}
        valid = And(lt(0, ulo), lt(ulo, uhi))
    else:
        d = {"c": v, "r": {"dist": "randint", "low": lo, "high": hi}}
        valid = lt(lo, hi)
    try:
        sp = Space.from_dict(d)
    except HpoError:
        C.require("a valid space is accepted", Not(valid))
        return
    C.require("an empty or inverted range is rejected", valid)
    a = list(sp.iter_random(seed=5, n_trials=2))
    new_process()
    b = list(sp.iter_random(seed=5, n_trials=2))
    C.require("the requested number of trials", len(a) == 2 and [t.index for t in a] == [0, 1])
    for t in a:
        if "r" in t.patch:
            r = t.patch["r"]
            C.require("randint draws lie in [low, high)", And(le(lo, r), lt(r, hi)))
        if "c" in t.patch:
            C.require("choice draws come from the listed values", member(t.patch["c"], v))
        if "n" in t.patch:
            u = t.patch["n"]["u"]
            C.require("uniform draws lie in [low, high]", And(lec(ulo, u), lec(u, uhi)))
        if "g" in t.patch:
            g = t.patch["g"]
            C.require("loguniform draws lie in [low, high]", And(lec(ulo, g), lec(g, uhi)))
    for x, y in zip(a, b):
        C.require("equal seeds give equal trials", And([eq(x.params[k], y.params[k]) for k in x.params]))


# --- H02 nested dict patching -----------------------------------------------------

def _tree(I, name, depth, keys, absent=True):
    """Nested dict whose shape and leaves are chosen by the solver."""
    out = {}
    for k in keys:
        opts = (["absent"] if absent else []) + ["leaf"] + (["none"] if depth > 1 and k == keys[0] else []) + (["list"] if depth > 1 else []) + (["dict"] if depth > 1 else []) + (["empty"] if depth > 1 else [])
        ch = I.choice(f"{name}.{k}", opts)
        if ch == "leaf":
            out[k] = I.int(f"{name}.{k}.v", -3, 3)
        elif ch == "none":
            out[k] = None
        elif ch == "dict":
            out[k] = _tree(I, f"{name}.{k}", depth - 1, keys[:2])
        elif ch == "empty":
            out[k] = {}
        elif ch == "list":
            out[k] = [I.int(f"{name}.{k}.l", -3, 3), {"z": I.int(f"{name}.{k}.z", -3, 3)}]
    return out


def _ref_merge(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = _ref_merge(a[k], v) if k in a and isinstance(a[k], dict) and isinstance(v, dict) else v
    return out


def _same_tree(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return False
        return And([_same_tree(a[k], b[k]) for k in a])
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and And(
            [_same_tree(x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    return eq(a, b)


def _copy_tree(a):
    if isinstance(a, list):
        return [_copy_tree(v) for v in a]
    return {k: _copy_tree(v) for k, v in a.items()} if isinstance(a, dict) else a


@harness("H02", modules=MODS, cfgs=[{"keys": ["p", "q"]}], thorough=[{"keys": ["p", "q", "r"]}],
         bounds="every pair of nested mappings of depth 2 over 2 (3) keys with integer leaves")
def deep_merge_semantics(I, cfg, C):
    from modssc.hpo.patching import deep_merge, flatten_patch

    base, patch = _tree(I, "base", 2, cfg["keys"]), _tree(I, "patch", 2, cfg["keys"])
    b0, p0 = _copy_tree(base), _copy_tree(patch)
    out = deep_merge(base, patch)
    C.require("patched leaves win and all other leaves survive", _same_tree(out, _ref_merge(b0, p0)))
    C.require("neither input is modified", And(_same_tree(base, b0), _same_tree(patch, p0)))

    def parts(x):
        if isinstance(x, (dict, list)):
            yield id(x)
            for v in (x.values() if isinstance(x, dict) else x):
                yield from parts(v)

    def shares(x, y):
        return bool(set(parts(x)) & set(parts(y)))

    C.require("the result shares no mutable part with its inputs", not shares(out, base) and not shares(out, patch))
    C.require("applying the same patch again changes nothing", _same_tree(deep_merge(out, patch), out))
    f = flatten_patch(patch)

    def leaves(t, pre=()):
        for k, v in t.items():
            if isinstance(v, dict) and v:
                yield from leaves(v, pre + (k,))
            else:
                yield ".".join(pre + (k,)), v

    want = dict(leaves(p0))
    C.require("flattening lists every leaf under its dotted path", set(f) == set(want)
              and And([_same_tree(f[k], want[k]) for k in want]))
