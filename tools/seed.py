"""Author and try planted bugs: seed.py new SPECFILE.py | try ID... | check ID...

A spec file defines SEEDS = {id: dict(prop=, file=, edits=[(old,new)], needs=, breaks=, demo=)}.
`new` writes /verif/seeded/<id>; `try` confirms it in a scratch copy (tests, demo); `check` runs the
property's quick check against that copy.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy
V = "/verif"; PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    r = d + "/repo"
    shutil.copytree("/repo", r, symlinks=True)
    return d, r


def new(spec):
    for sid, s in runpy.run_path(spec)["SEEDS"].items():
        d, r = copy()
        try:
            for f, old, newt in s["edits"]:
                p = f"{r}/{f}"; t = open(p).read()
                assert t.count(old) == 1, (sid, f, t.count(old), old)
                open(p, "w").write(t.replace(old, newt))
            diff = sh(["git", "diff"], r).stdout
        finally:
            shutil.rmtree(d)
        o = f"{V}/seeded/{sid}"; os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        open(o + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(o + "/demo.sh", "w").write('#!/bin/sh\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                                        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src:$PWD" exec /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(o + "/demo.sh", 0o755)
        print("wrote", sid)


def attempt(sid, tests=True, check=True, extra=()):
    o = f"{V}/seeded/{sid}"
    out = {}
    a = sh(["sh", o + "/demo.sh"], "/repo")
    out["demo_clean"] = a.returncode
    if a.returncode: print(a.stderr[-800:])
    d, r = copy()
    try:
        g = sh(["git", "apply", o + "/patch.diff"], r)
        out["apply"] = g.returncode
        if g.returncode: print(g.stderr)
        out["demo_bug"] = sh(["sh", o + "/demo.sh"], r).returncode
        if tests:
            t = sh([PY, "-m", "pytest", "-q", "-x", "--no-cov", "-p", "no:cacheprovider", "-n", "0"] if False else
                   [PY, "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider"], r, {"PYTHONPATH": r + "/src"})
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            out["tests"] = t.stdout.strip().splitlines()[-1]
            for l in t.stdout.splitlines():
                if l.startswith(("FAILED", "ERROR")): print("   ", l[:160])
        if check:
            p = json.load(open(o + "/meta.json"))["property"]
            c = sh([PY, V + "/run.py", p, *extra], V, {"VERIF_REPO": r})
            out["check"] = c.returncode
            out["line"] = (c.stdout.strip().splitlines() or ["?"])[-1][:200]
            for l in c.stdout.splitlines():
                if l.startswith("counterexample"): print("   ", l[:200])
    finally:
        shutil.rmtree(d)
    ok = out["demo_clean"] == 0 and out["apply"] == 0 and out["demo_bug"] != 0
    print(sid, "OK" if ok else "BAD-DEMO", out, flush=True)


if __name__ == "__main__":
    m = sys.argv[1]
    if m == "new": [new(x) for x in sys.argv[2:]]
    elif m == "try": [attempt(x) for x in sys.argv[2:]]
    elif m == "check": [attempt(x, tests=False) for x in sys.argv[2:]]
    elif m == "tests": [attempt(x, check=False) for x in sys.argv[2:]]
