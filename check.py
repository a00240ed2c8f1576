#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Two halves run side by side on /repo's current working tree:
  pyvc/run.py  the deductive half: verification conditions generated from the real source, discharged by z3
  rt/run.py    the bounded half: the same contracts evaluated on real torch (never counted as proved)

exit 0: held; exit 1 with "VIOLATION property=<id> replay=<path>"; exit 2: the machinery itself failed.
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
RT_PY = "/opt/venv/bin/python"
DV_PY = RT_PY


def spawn(cmd, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    log = tempfile.TemporaryFile("w+")
    p = subprocess.Popen(cmd, cwd=HERE, env=env, stdout=log, stderr=subprocess.STDOUT)
    p.log = log
    p.deadline = time.time() + timeout
    return p


def collect(p, path):
    try:
        p.wait(max(1, p.deadline - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    p.log.seek(0)
    log = p.log.read()
    try:
        with open(path) as f:
            return json.load(f), log
    except Exception:
        return None, log


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.replay:
        r = json.load(open(a.replay))
        if r.get("kind") == "obligation":
            sys.exit(subprocess.call([DV_PY, "pyvc/run.py", a.prop, "--only", r["obligation"]["unit"], "--verbose"], cwd=HERE))
        sys.exit(subprocess.call([RT_PY, "rt/run.py", a.prop, "--replay", os.path.abspath(a.replay)], cwd=HERE))
    t0 = time.time()
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif_")
    rt_out, dv_out = os.path.join(tmp, "rt.json"), os.path.join(tmp, "dv.json")
    quick = a.tier == "quick"
    have_dv = os.path.exists(os.path.join(HERE, "pyvc", "run.py"))
    rt_p = spawn([RT_PY, "rt/run.py", a.prop, "--tier", a.tier, "--seed", str(a.seed), "--out", rt_out], 450 if quick else 600)
    dv_p = spawn([DV_PY, "pyvc/run.py", a.prop, "--tier", a.tier, "--out", dv_out], 340 if quick else 700) if have_dv else None
    cc_out = os.path.join(tmp, "cc.json")
    cc_p = None if quick else spawn([DV_PY, "pyvc/crosscheck.py", "--n", "800", "--seed", str(a.seed * 100 + int(a.prop[1:])), "--jobs", "2", "--out", cc_out], 500)
    rt, rt_log = collect(rt_p, rt_out)
    dv, dv_log = collect(dv_p, dv_out) if have_dv else (None, "")
    if rt is None:
        print("the bounded half gave no answer:\n" + rt_log[-3000:])
        sys.exit(2)
    if have_dv and dv is None:
        print("the deductive half gave no answer (its obligations count as undecided):\n" + dv_log[-2000:])
        dv = dict(obligations=[], error=dv_log[-500:])

    obls = (dv or {}).get("obligations", [])
    refuted = [o for o in obls if o["status"] == "refuted"]
    undecided = [o for o in obls if o["status"] == "undecided"]
    ok = [o for o in obls if o["status"] == "discharged"]
    violations = []
    for i, f in enumerate(rt["failures"][:3]):
        path = os.path.join("replays", f"{a.prop}-{i}.json")
        with open(os.path.join(HERE, path), "w") as fh:
            json.dump(dict(kind="case", property=a.prop, case=f["case"], message=f["message"], failed_obligations=[o["name"] for o in refuted],
                           how=f"python3 check.py {a.prop} --replay {path}"), fh, indent=1)
        print(f"  contract fails on real torch: {f['message'][:300]}")
        violations.append(f"VIOLATION property={a.prop} replay={path}")
    if (refuted or undecided) and not violations:
        # obligations are open and no failing input is among this run's cases: search longer for one
        found = None
        out2 = os.path.join(tmp, "rt2.json")
        cases = [c for o in refuted + undecided for c in o.get("cases", [])][:60]
        cfile = os.path.join(tmp, "cases.json")
        with open(cfile, "w") as fh:
            json.dump(cases, fh)
        # first the verifier's counterexamples, then a wider search
        for extra in ([["--cases", cfile]] if cases else []) + [["--seed", str(a.seed + 101)], ["--seed", str(a.seed + 202)]]:
            p = spawn([RT_PY, "rt/run.py", a.prop, "--tier", "thorough", "--out", out2, "--budget", "45"] + extra, 120)
            r2, _ = collect(p, out2)
            if r2 and r2["failures"]:
                found = r2["failures"][0]
                break
    if refuted and not violations or not violations and undecided and found:
        refuted = refuted or undecided[:1]
        path = os.path.join("replays", f"{a.prop}-obligation.json")
        body = dict(kind="case" if found else "obligation", property=a.prop, obligation=refuted[0], failed_obligations=[o["name"] for o in refuted], how=f"python3 check.py {a.prop} --replay {path}")
        if found:
            body.update(case=found["case"], message=found["message"])
        with open(os.path.join(HERE, path), "w") as fh:
            json.dump(body, fh, indent=1)
        for o in refuted[:5]:
            print(f"  obligation refuted: {o['name']}: {o.get('detail', '')[:300]}")
        violations.append(f"VIOLATION property={a.prop} replay={path}" + ("" if found else " no-failing-input-found"))
    for k in rt["known"]:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    for k in rt["known_stale"]:
        print(f"  note: a listed finding no longer fails: {k['what']}")

    cov = dict(evaluations=rt["evaluations"], distinct_nontrivial=rt["distinct"],
               rule="bounded half: fixed grid plus seeded random configurations; a case is non-trivial when its whole contract was evaluated on real torch; duplicates are dropped",
               samples=rt["samples"] or [f["case"] for f in rt["failures"][:2]], bounded_truncated=bool(rt.get("truncated")), known_findings=len(rt["known"]))
    level = "exploration"
    assumptions = ["bounded half: float64 arithmetic compared with tolerance 1e-8 (attention 1e-7)", "CPython and torch 2.7.1 execute the code"]
    if obls:
        level = "proof"
        backend = {}
        for o in ok:
            backend[o.get("by", "z3")] = backend.get(o.get("by", "z3"), 0) + 1
        cov.update(obligations=len(obls), discharged=len(ok), undecided=[dict(name=o["name"], why=o.get("detail", "")[:200]) for o in undecided][:40], refuted=[o["name"] for o in refuted],
                   checker_cmd=f"/opt/venv/bin/python pyvc/run.py {a.prop}", trusted_base=dv.get("trusted_base", []), backends=backend, solver_s=dv.get("solver_s"), functions_under_contract=dv.get("functions", []), functions_executed_symbolically=dv.get("executed", []),
                   bounded_units=dv.get("bounded", []), units=dv.get("units"), paths=dv.get("paths"))
        assumptions += dv.get("assumptions", [])
    if cc_p is not None:
        cc, _ = collect(cc_p, cc_out)
        # the trusted tensor axioms against real torch: says nothing about the repository, so never a violation
        cov["axiom_crosscheck"] = cc or "no answer"
        if cc and cc["mismatches"]:
            print(f"  note: {len(cc['mismatches'])} programs on which the tensor axioms and torch differ: {cc['mismatches'][0]['what'][:200]}")
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=assumptions, violations=len(violations))
    with open(os.path.join(HERE, "evidence", f"{a.prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)
    print(f"{a.prop}: {len(ok)}/{len(obls)} obligations discharged, {len(undecided)} undecided, {len(refuted)} refuted; {rt['evaluations']} bounded cases, {len(rt['failures'])} failing; {time.time() - t0:.1f} s")
    for v in violations:
        print(v)
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
