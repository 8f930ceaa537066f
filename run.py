#!/opt/venv/bin/python
"""Run one property check: run.py <ID> [--tier quick|thorough] | run.py --replay FILE"""
from __future__ import annotations

import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("_SYMX_ENV") != "1":
    os.environ.update({"_SYMX_ENV": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
                       "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
                       "CUDA_VISIBLE_DEVICES": "", "HF_HUB_OFFLINE": "1", "TRANSFORMERS_OFFLINE": "1",
                       "HF_DATASETS_OFFLINE": "1", "TOKENIZERS_PARALLELISM": "false"})
    os.execv(sys.executable, [sys.executable] + sys.argv)

import argparse
import glob
import importlib
import json
import logging
import pickle
import shutil
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(REPO, "src"), REPO]
logging.disable(logging.CRITICAL)

from symx import harness as H  # noqa: E402
from symx.core import Stats  # noqa: E402


def find_module(prop):
    for f in sorted(glob.glob(os.path.join(HERE, "props", "*.py"))):
        name = os.path.basename(f)[:-3]
        if name.startswith("_"):
            continue
        with open(f, encoding="utf-8") as fh:
            if f'"{prop}"' in fh.read():
                importlib.import_module("props." + name)
    return H.REGISTRY.get(prop, [])


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p, encoding="utf-8") as fh:
        return [k for k in json.load(fh)["findings"]
                if k["property"] == prop and k["status"] == "known"]


def match_known(known, hname, label):
    for k in known:
        if k["harness"] == hname and k["label"] == label:
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None, help="only harnesses whose name contains this")
    ap.add_argument("--replay", default=None)
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--wall", type=float, default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.selftest:
        x = H.z3.Int("x")
        sol = H.z3.Solver()
        sol.add(x * x == 49, x > 0)
        assert sol.check() == H.z3.sat and sol.model()[x].as_long() == 7
        print("z3", H.z3.get_version_string(), "numpy", H.np.__version__, "ok")
        return
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) and os.statvfs("/dev/shm").f_bavail > 4096 else None
    scratch = tempfile.mkdtemp(prefix="symx-", dir=shm)
    for k in ("MODSSC_CACHE_ROOT", "XDG_CACHE_HOME", "HF_HOME", "HOME"):
        os.environ[k] = scratch
    os.chdir(scratch)
    try:
        if a.replay:
            sys.exit(replay_file(a.replay))
        sys.exit(check(a, seed))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_file(path):
    with open(path, "rb") as fh:
        d = pickle.load(fh)
    hs = [h for h in find_module(d["property"]) if h.name == d["harness"]]
    for m in hs[0].modules:
        importlib.import_module(m)
    st, info = H.replay_one(hs[0], d["cfg"], d["snap"])
    print("replay:", st, *info, sep="\n  ")
    print("inputs:", json.dumps(H.jsonable(d["snap"]["inputs"]), indent=1))
    return 0 if st in ("ok", "skip") else 1


def check(a, seed):
    t0 = time.time()
    tier = a.tier
    prop = a.prop
    hs = find_module(prop)
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    if not hs:
        print(f"no harness for {prop}")
        return 2
    wall = a.wall or (80.0 if tier == "quick" else 1500.0)
    deadline = t0 + wall
    known = load_known(prop)
    jobs = []
    import_err = {}
    for h in hs:
        ok = True
        for m in h.modules:
            try:
                importlib.import_module(m)
            except Exception as exc:  # noqa: BLE001
                import_err[m] = f"{type(exc).__name__}: {exc}"
                ok = False
        if not ok:
            continue
        cfgs = h.cfgs(tier)
        per = h.opts.get("budget", 25.0) * (1.0 if tier == "quick" else h.opts.get("deep", 8.0))
        for cfg in cfgs:
            b = cfg.get("_budget", per)
            jobs.append(H.Job(H.run_instance, (h, cfg, b, 2 if tier == "quick" else 4, seed),
                              b + 60.0, ("sym", h, cfg)))
    n_inst = len(jobs)
    stats = Stats()
    S = {"functions": set(), "incomplete": {}, "exc": {}, "obligations": 0, "discharged": 0,
         "paths": 0, "validated": 0, "mismatch": [], "unreproduced": [], "done": 0, "timeouts": 0,
         "samples": [], "viol": [], "known": {}, "complete": 0, "notes": {}, "labels": {}, "vac": []}

    def on_done(job, r):
        kind, h, cfg = job.tag[:3]
        status, payload = r
        key = f"{h.name}{json.dumps(H.jsonable(cfg), sort_keys=True)}"
        if kind == "sym":
            if status != "ok":
                S["timeouts"] += 1
                S["incomplete"][f"instance-{status}"] = S["incomplete"].get(f"instance-{status}", 0) + 1
                if status == "err" or a.v:
                    S["notes"].setdefault(status, []).append(f"{key}: {str(payload)[-600:]}")
                return None
            p = payload
            S["done"] += 1
            stats.merge(p["stats"])
            S["functions"].update(p["functions"])
            S["obligations"] += p["obligations"]
            S["discharged"] += p["discharged"]
            S["paths"] += p["checked_paths"]
            for k, v in p["labels"].items():
                S["labels"][k] = S["labels"].get(k, 0) + v
            for k, v in p["exc"].items():
                S["exc"][f"{h.name}: {k}"] = S["exc"].get(f"{h.name}: {k}", 0) + v
            for k, v in p["incomplete"].items():
                S["incomplete"][k] = S["incomplete"].get(k, 0) + v
            if not p["incomplete"]:
                S["complete"] += 1
            if not p["checked_paths"]:
                S["vac"].append(key)
            if a.v:
                print(f"[{time.time()-t0:6.1f}] {key} paths={p['checked_paths']} obl={p['discharged']}/{p['obligations']}"
                      f" q={p['stats']['queries']} s={p['stats']['solver_s']:.1f} inc={p['incomplete']} cex={len(p['cex'])}"
                      f" enum={p['stats']['enumerated_ops']} t={time.time()-job.t0:.1f}", flush=True)
            snaps = p["cex"] + p["wit"]
            if not snaps:
                return None
            return [H.Job(_replay_batch, (h, cfg, snaps), 60.0 + 2 * len(snaps), ("rep", h, cfg, snaps))]
        snaps = job.tag[3]
        if status != "ok":
            for s in snaps:
                if s["kind"] != "witness":
                    S["unreproduced"].append(f"{key}: {s['label']} (replay {status})")
            return None
        for s, (st, info) in zip(snaps, payload):
            if s["kind"] == "witness":
                if st == "ok":
                    S["validated"] += 1
                    if len(S["samples"]) < 3:
                        S["samples"].append({"harness": h.name, "cfg": H.jsonable(cfg),
                                             "inputs": H.jsonable(s["inputs"]), "verdict": "holds on the real code"})
                    continue
                if st == "skip":
                    continue
            if st in ("fail", "exception"):
                lab = info[0] if st == "fail" else f"unexpected {info[0]}"
                if st == "exception" and s["kind"] == "witness":
                    lab = f"unexpected {info[-2]}"
                kf = match_known(known, h.name, lab)
                if kf:
                    S["known"][kf["id"]] = kf
                else:
                    S["viol"].append((h, cfg, s, st, info))
            elif s["kind"] == "assertion":
                S["unreproduced"].append(f"{key}: {s['label']}")
                if a.v:
                    print("unreproduced", st, info, key, s["label"], H.jsonable(s["inputs"]), s["script"])
        return None

    H.run_jobs(jobs, a.jobs, deadline, on_done, lambda: bool(S["viol"]))
    # known findings not met by the exploration order are still re-checked by their own harness
    wall_s = time.time() - t0
    write_evidence(prop, tier, seed, hs, n_inst, S, stats, wall_s, import_err)
    for kf in S["known"].values():
        print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    print(f"{prop} {tier}: instances={S['done']}/{n_inst} complete={S['complete']} paths={S['paths']} "
          f"obligations={S['discharged']}/{S['obligations']} queries={stats.queries} solver={stats.solver_s:.1f}s "
          f"validated={S['validated']} unreproduced={len(S['unreproduced'])} wall={wall_s:.1f}s")
    for k, v in S["incomplete"].items():
        print(f"  bound/inconclusive: {k} x{v}")
    for k, v in list(S["exc"].items())[:12]:
        print(f"  path ended by exception x{v}: {k}")
    for k, v in S["notes"].items():
        for t in v[:5]:
            print(f"  {k}: {t}")
    for k in S["unreproduced"][:5]:
        print(f"  not reproduced on the real code (not a violation): {k}")
    for m, e in import_err.items():
        print(f"  module not importable: {m}: {e}")
    if S["vac"]:
        print("  no path reached the assertions in:", S["vac"][:5])
    if S["viol"]:
        h, cfg, s, st, info = S["viol"][0]
        os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
        base = os.path.join(HERE, "evidence", "replays", f"{prop}-{h.name}")
        with open(base + ".pkl", "wb") as fh:
            pickle.dump({"property": prop, "harness": h.name, "cfg": cfg, "snap": s}, fh)
        with open(base + ".json", "w", encoding="utf-8") as fh:
            json.dump({"property": prop, "harness": h.name, "cfg": H.jsonable(cfg), "label": s["label"],
                       "status": st, "info": info, "inputs": H.jsonable(s["inputs"]),
                       "random_draws": H.jsonable(s["script"]),
                       "replay_cmd": f"/opt/venv/bin/python {HERE}/run.py --replay {base}.pkl"}, fh, indent=1)
        print(f"counterexample in {h.name}: {info[:1]} inputs={json.dumps(H.jsonable(s['inputs']))[:600]}")
        print(f"VIOLATION property={prop} replay={base}.pkl")
        return 1
    return 0


def _replay_batch(h, cfg, snaps):
    return [H.replay_one(h, cfg, s) for s in snaps]


def write_evidence(prop, tier, seed, hs, n_inst, S, stats, wall_s, import_err):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    d = stats.as_dict()
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": d["decisions"] + d["paths"],
            "transitions": d["decisions"],
            "traces_validated_against_impl": S["validated"],
            "samples": S["samples"] or [{"note": "no witness was produced"}],
            "instances": n_inst, "instances_run": S["done"],
            "instances_explored_without_any_cut": S["complete"],
            "paths_checked": S["paths"], "assertions": S["obligations"],
            "assertions_discharged_by_solver_or_simplifier": S["discharged"],
            "assertion_labels": S["labels"],
            "solver": {"name": "z3 " + H.z3.get_version_string(), **d},
            "functions_encoded": sorted(S["functions"]),
            "bounds": {h.name: h.opts.get("bounds", "see harness docstring") for h in hs},
            "cuts_and_inconclusive": S["incomplete"],
            "paths_ended_by_exception": S["exc"],
            "counterexamples_not_reproduced": S["unreproduced"],
            "vacuous_instances": S["vac"],
            "modules_not_importable": import_err,
            "exhaustive": bool(S["complete"] == n_inst and not S["incomplete"]),
        },
        "assumptions": ["floating point numbers are modelled as exact reals (float32/64 rounding is outside)",
                        "random draws are arbitrary values of the documented range; equal seeds give equal streams"]
        + sorted({x for h in hs for x in h.opts.get("assumes", ())}),
        "wall_s": round(wall_s, 2), "violations": len(S["viol"]),
    }
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, default=str)


if __name__ == "__main__":
    main()
