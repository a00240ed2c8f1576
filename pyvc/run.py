"""Deductive half: runs the contract units of a property on the current source of the repository.

usage: run.py PROPERTY|all [--tier quick|thorough] [--out FILE] [--only UNIT] [--verbose] [--jobs N]
"""
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
MODULES = "lifecycle routing conv delay pool module frame rnn posenc sequential anyseq parallel mha export modes statedict convert trans".split()
TRUSTED = [
    "z3 (solver) and the verification-condition generator pyvc/{core,tensor,shim,loader}.py",
    "pyvc/shim.py and pyvc/tensor.py as axioms of the torch 2.7.1 operations the library calls (cross-validated against real torch by pyvc/crosscheck.py, bounded)",
    "CPython 3.12 executes the repository's own source; the importer redirects torch, the listed builtins, for loops and comprehensions only (pyvc/loader.py)",
    "tensor elements are real numbers (no rounding, overflow, NaN); integers are mathematical",
]


GLOBAL = ("exploration finished", "the code stays within the modelled subset", "no exception on valid inputs", "some path satisfies the precondition (vacuity guard)", "the unit ran to completion")


HITS = set()


def watch():
    """records which lines of the repository's own functions the symbolic paths run through (evidence only)"""
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    root = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + "/continual/"
    try:
        mon.use_tool_id(mon.COVERAGE_ID, "pyvc")
    except ValueError:
        mon.restart_events()
        return
    def line(code, n):
        f = os.path.realpath(code.co_filename)
        if f.startswith(root) and code.co_name != "<module>":
            HITS.add((f[len(root):], code.co_qualname, n))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def run_unit(args):
    i, deadline, prop = args
    HITS.clear()
    watch()
    import core
    from units import lib

    u = lib.UNITS[i]
    vc = core.Vc(u["name"])
    t = time.time()
    try:
        vc.explore(u["fn"], min(deadline, t + u.get("budget", 120)))
    except BaseException as e:  # the machinery itself failed: nothing is claimed
        vc.record("the unit ran to completion", "undecided", f"{type(e).__name__}: {str(e)[:300]}")
    obl = []
    for o in vc.obl.values():
        tags = o["tags"].split() or u["props"][:1]
        if o["status"] == "undecided" and o["name"].split(": ", 1)[1] in GLOBAL:
            tags = u["props"]  # an incomplete exploration leaves every property of the unit open
        if prop not in tags and prop != "all":
            continue
        o = dict(o, tags=" ".join(tags), by="z3")
        if o["status"] == "refuted" and u.get("replay"):
            try:
                o["cases"] = [c for c in u["replay"](o["cex"], prop) or []]
            except Exception as e:
                o["cases"] = []
        obl.append(o)
    return dict(i=i, obl=obl, paths=vc.paths, covered=vc.covered, solver_s=vc.solver_s, queries=vc.queries, notes=sorted(vc.notes), wall=time.time() - t, hits=sorted(HITS))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--jobs", type=int, default=6)
    a = ap.parse_args()
    t0 = time.time()
    deadline = t0 + (300 if a.tier == "quick" else 600)
    from units import lib

    errors = []
    for m in MODULES:
        try:
            importlib.import_module("units." + m)
        except BaseException as e:
            import traceback

            if a.verbose:
                traceback.print_exc()
            errors.append((m, f"{type(e).__name__}: {str(e)[:200]}"))
    todo = [(i, deadline, a.prop) for i, u in enumerate(lib.UNITS) if (a.prop in u["props"] or a.prop == "all") and (not a.only or a.only in u["name"]) and (a.tier == "thorough" or not u.get("thorough"))]
    results = []
    if a.jobs > 1 and len(todo) > 1:
        with multiprocessing.get_context("fork").Pool(min(a.jobs, len(todo)), maxtasksperchild=8) as pool:
            jobs = [(t, pool.apply_async(run_unit, (t,))) for t in todo]
            for t, j in jobs:
                try:
                    results.append(j.get(max(1, deadline + 20 - time.time())))
                except multiprocessing.TimeoutError:
                    results.append(dict(i=t[0], obl=[dict(name=f"{lib.UNITS[t[0]]['name']}: the unit ran to completion", unit=lib.UNITS[t[0]]["name"], tags=a.prop, status="undecided", detail="time limit", n=1, by="z3")], paths=0, covered=0, solver_s=0, queries=0, notes=[], wall=0))
            pool.terminate()
    else:
        results = [run_unit(t) for t in todo]
    obl, funcs, notes, bounded, hits = [], set(), set(), set(), set()
    for m, e in errors:
        obl.append(dict(name=f"units.{m}: the units could be built", unit=m, tags="", status="undecided", detail=e, n=1, by="z3"))
    for r in results:
        u = lib.UNITS[r["i"]]
        obl += r["obl"]
        funcs.update(u["functions"])
        notes.update(r["notes"])
        hits.update(tuple(h) for h in r.get("hits", []))
        notes.update(u.get("assume", []))
        if u.get("bounded"):
            bounded.add(f"{u['name']}: {u['bounded']}")
        if a.verbose:
            bad = [o for o in r["obl"] if o["status"] != "discharged"]
            print(f"{u['name']}: {len(r['obl'])} obligations, {len(bad)} open, {r['paths']} paths ({r['covered']} feasible), {r['queries']} queries, {r['wall']:.1f}s")
            for o in r["obl"]:
                if o["status"] != "discharged" or a.only:
                    print("    ", o["status"], o["name"].split(": ", 1)[1], f"x{o['n']}", f"[{o['tags']}]", o["detail"][:600], o.get("cases", ""))
    res = dict(obligations=obl, solver_s=round(sum(r["solver_s"] for r in results), 2), queries=sum(r["queries"] for r in results), functions=sorted(funcs), executed=sorted({f"{f}:{q}" for f, q, n in hits}), lines=sorted({(f, n) for f, q, n in hits}), units=len(results), paths=sum(r["paths"] for r in results), assumptions=sorted(notes), bounded=sorted(bounded), trusted_base=TRUSTED, wall_s=round(time.time() - t0, 2))
    if a.verbose:
        st = [o["status"] for o in obl]
        print(f"{a.prop}: {len(st)} obligations, {st.count('discharged')} discharged, {st.count('undecided')} undecided, {st.count('refuted')} refuted; {res['wall_s']} s")
    if a.out:
        with open(a.out, "w") as f:
            json.dump(res, f)


if __name__ == "__main__":
    main()
