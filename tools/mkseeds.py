#!/usr/bin/env python3
"""Builds and qualifies planted bugs: mkseeds.py DEFS.py [ids...]
DEFS.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
A bug is written to /verif/seeded/<id>/ only if it builds, passes the repository's tests, and its
demonstration fails with it and passes without it.  Prints which check(s) catch it."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile

REPO = "/repo"
PY = "/opt/venv/bin/python"
BASE = "1dd7c2b"

PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
import warnings; warnings.filterwarnings("ignore")
import torch, torch.nn as nn, torch.nn.functional as F
import continual as co
torch.manual_seed(0)
def same(a, b, tol=1e-5):
    if a is None or b is None:
        return a is b
    return a.shape == b.shape and torch.allclose(a, b, atol=tol, rtol=1e-4)
'''


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)


def qualify(s, check=True):
    wt = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    rp = os.path.join(wt, "repo")
    try:
        sh(f"cp -a {REPO} {rp}")
        for f, old, new in s["edits"]:
            p = os.path.join(rp, f)
            t = open(p).read()
            if t.count(old) != s.get("count", 1):
                return f"edit matches {t.count(old)} times: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=rp).stdout
        # removed lines must be original ones
        own = sh(f"git diff -U0 {BASE} HEAD", cwd=rp).stdout
        mine = {l[1:].strip() for l in own.splitlines() if l.startswith("+") and not l.startswith("+++")}
        rem = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        bad = [l for l in rem if l in mine and len(l) > 3]
        d = os.path.join(wt, "d")
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = sh(f"bash {d}/demo.sh", cwd=REPO)
        if r0.returncode != 0:
            return "demo fails on unchanged tree:\n" + r0.stderr[-1500:]
        r1 = sh(f"bash {d}/demo.sh", cwd=rp)
        if r1.returncode == 0:
            return "demo passes with the bug"
        r2 = sh(f"{PY} -m pytest -q -p no:cacheprovider -x 2>&1 | tail -5", cwd=rp, env={"PYTHONPATH": rp})
        if "104 passed" not in r2.stdout:
            return "tests catch it: " + r2.stdout[-400:]
        out = os.path.join("/verif/seeded", s["id"])
        if os.path.isdir(out):
            shutil.rmtree(out)
        shutil.copytree(d, out)
        res = "planted" + (f" (WARNING removes own lines {bad})" if bad else "")
        if check:
            r3 = sh(f"python3 check.py {s['prop']}", cwd="/verif", env={"VERIF_REPO": rp, "VERIF_SEED": "1", "VERIF_SCRATCH": wt})
            res += f"; check {s['prop']} exit {r3.returncode}: " + " | ".join(l for l in r3.stdout.splitlines() if l.startswith("VIOLATION"))[:300]
        return res
    finally:
        shutil.rmtree(wt)


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for s in m.SEEDS:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        print(s["id"], "->", qualify(s), flush=True)
