"""Bounded concrete half: evaluates the contracts on real torch over a fixed grid and seeded random cases.

Every case is run in one of sixteen settings, picked by the case itself: gradient recording on or off, torch's default
precision equal to the data's (double) or lower, the caller overwriting each frame and each result after the call
or keeping them, and frames contiguous in memory or not.

usage: run.py PROPERTY --tier quick|thorough --seed N --out FILE [--replay FILE]
"""
import argparse
import json
import os
import random
import sys
import time
import traceback
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--cases")
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    t0 = time.time()
    res = dict(property=a.prop, evaluations=0, distinct=0, failures=[], known=[], known_stale=[], samples=[])
    try:
        import base
        import props
    except BaseException:
        # the library under test does not import: every property is broken, nothing was evaluated
        res["failures"].append(dict(case=dict(k="import"), message="importing the library failed: " + traceback.format_exc()[-1500:]))
        return finish(a, res, t0)
    P = props.PROPS[a.prop]

    def one(case):
        base.torch.manual_seed(case.get("seed", 0))
        # gradients on or off, default precision that of the data or a lower one, frames overwritten after use or not, contiguous or not
        env = zlib.crc32(json.dumps(case, sort_keys=True).encode()) % 16
        base.torch.set_default_dtype(base.torch.float32 if env & 1 else base.torch.float64)
        base.torch.set_grad_enabled(bool(env & 2))
        base.REUSE, base.STRIDED = bool(env & 4), bool(env & 8)
        try:
            P.run(case)
            return None
        except base.Fail as e:
            return str(e)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            repo = [f for f in tb if os.path.abspath(f.filename).startswith(os.path.abspath(base.REPO) + os.sep) or "/torch/" in f.filename]
            loc = repo[-1] if repo else tb[-1]
            return f"raised {type(e).__name__}: {str(e)[:300]} (at {loc.filename}:{loc.lineno})"

    if a.replay:
        case = json.load(open(a.replay))
        case = case.get("case", case)
        msg = one(case)
        print("REPLAY", "holds" if msg is None else "fails: " + msg)
        sys.exit(0 if msg is None else 1)

    kf = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")))
    known = [k for k in kf["findings"] if k["property"] == a.prop]
    known_keys = {json.dumps(k["case"], sort_keys=True) for k in known}
    budget = a.budget or (dict(quick=25.0, thorough=150.0)[a.tier])
    rng = random.Random(a.seed * 1000003 + 17)
    seen = set()
    for case in json.load(open(a.cases)) if a.cases else P.cases(rng, a.tier):
        key = json.dumps(case, sort_keys=True)
        if key in seen or key in known_keys:
            continue
        seen.add(key)
        res["evaluations"] += 1
        if len(res["samples"]) < 4 and res["evaluations"] % 7 == 1:
            res["samples"].append(case)
        msg = one(case)
        if msg is not None:
            res["failures"].append(dict(case=case, message=msg))
            if len(res["failures"]) >= 3:
                break
        # processor time, so that a busy machine does not cut the search short
        if time.process_time() > budget or time.time() - t0 > max(120, budget):
            res["truncated"] = True
            break
    res["distinct"] = len(seen)
    for k in known:
        msg = one(k["case"])
        (res["known"] if msg is not None else res["known_stale"]).append(dict(what=k["what"], case=k["case"], message=msg))
    return finish(a, res, t0)


def finish(a, res, t0):
    res["wall_s"] = time.time() - t0
    s = json.dumps(res)
    if a.out:
        with open(a.out, "w") as f:
            f.write(s)
    else:
        print(s)


if __name__ == "__main__":
    main()
