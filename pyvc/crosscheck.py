"""Cross-validation of the tensor axioms (tensor.py, shim.py): random programs over tensors are run twice, once on symbolic
tensors (some sizes are z3 constants pinned by the precondition) and once on real torch, and every element is compared.

Bounded; labelled so in the evidence.  It checks the trusted base, it proves nothing about the repository.

usage: crosscheck.py [--n PROGRAMS] [--seed S] [--out FILE]
"""
import argparse
import json
import os
import random
import sys
import time
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
import shim  # noqa: E402
import tensor  # noqa: E402
from core import SInt, SymError, Unsupported, z3  # noqa: E402

import torch as rt  # noqa: E402

st = shim.torch
F, RF = shim.F, rt.nn.functional


class Mismatch(Exception):
    pass


class Prog:
    def __init__(self, vc, rng):
        self.vc, self.rng, self.log, self.n = vc, rng, [], 0

    def size(self, v):
        """a python int or an equal z3 constant"""
        if self.rng.random() < 0.5:
            return v
        self.n += 1
        s = self.vc.int(f"s{self.n}", 0)
        self.vc.assume(core.iterm(s) == v)
        return s

    def fresh(self, shape, dt="f"):
        base = self.rng.randint(-50, 50)
        w = [97, 13, 3, 29][: len(shape)]
        dims = [self.size(d) for d in shape]
        conv = (lambda e: z3.ToReal(e)) if dt == "f" else (lambda e: e)
        s = tensor.new(dims, lambda ix: conv(z3.simplify(z3.IntVal(base) + sum((w[q] * core.iterm(ix[q]) for q in range(len(shape))), z3.IntVal(0)))), dt)
        r = rt.full(shape, base, dtype=rt.float64 if dt == "f" else rt.int64)
        for q, d in enumerate(shape):
            v = [1] * len(shape)
            v[q] = d
            r = r + w[q] * rt.arange(d).view(*v)
        return s, r

    def compare(self, s, r, what):
        if not isinstance(s, tensor.SymTensor):
            return 0
        if len(s._dims) != r.dim():
            raise Mismatch(f"{what}: {len(s._dims)} dimensions, torch has {r.dim()}")
        for a, b in zip(s._dims, r.shape):
            if not self.vc.entails(core.iterm(a) == b):
                raise Mismatch(f"{what}: shape {s._dims}, torch has {list(r.shape)}")
        if s._dt != {rt.bool: "b", rt.int64: "i"}.get(r.dtype, "f"):
            raise Mismatch(f"{what}: element type {s._dt}, torch has {r.dtype}")
        if self.vc._check() != z3.sat:
            raise Unsupported("no model")
        m = self.vc.solver.model()
        n = 0
        for ix in rt.cartesian_prod(*[rt.arange(d) for d in r.shape]).view(-1, max(r.dim(), 1)).tolist() if r.dim() else [[]]:
            t = z3.simplify(m.eval(s.val([z3.IntVal(i) for i in ix])))
            if uninterpreted(t):
                continue  # a sum or maximum of symbolic length stays a named term
            e = r[tuple(ix)].item()
            if z3.is_rational_value(t) or z3.is_int_value(t):
                v = Fraction(t.as_string())
                if abs(float(v) - float(e)) > 1e-6 * max(1, abs(float(e))):
                    raise Mismatch(f"{what} at {ix}: {v}, torch has {e}")
                n += 1
            elif z3.is_true(t) or z3.is_false(t):
                if z3.is_true(t) != bool(e):
                    raise Mismatch(f"{what} at {ix}: {t}, torch has {e}")
                n += 1
        return n


def uninterpreted(t):
    todo = [t]
    while todo:
        u = todo.pop()
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return True
        todo += u.children()
    return False


def ops(p, pool):
    """one random operation: (description, on symbolic, on real, [in-place target index])"""
    R = p.rng
    i = R.randrange(len(pool))
    s, r = pool[i]
    d = r.dim()
    ax = R.randrange(-d, d) if d else 0
    size = r.shape[ax] if d else 0
    k = R.randint(-size - 1, size) if d else 0
    sk = p.size(k) if k >= 0 and R.random() < 0.5 else k
    name = R.choice(
        "select index setitem setslice slice step unsqueeze squeeze permute transpose roll cat stack clone addc addt subt mulc divc maxt expand repeat sum mean amax where pad padr avg max1 isel narrow flatten view chunk zero fill copy iadd unbind cmp arange rem mix neg flip none ellipsis unflatten bool movedim arsel".split()
    )
    j = R.randrange(len(pool))
    s2, r2 = pool[j]
    if rt.bool in (r.dtype, r2.dtype) and name in ("addc", "mulc", "divc", "addt", "subt", "maxt", "neg", "iadd", "sum", "mean", "amax", "cmp", "rem", "fill", "where", "copy", "setslice", "setitem", "pad", "repeat"):
        return None
    if name == "select" and d:
        return f"select({ax},{k})", lambda: s.select(ax, sk), lambda: r.select(ax, k)
    if name == "index" and d:
        return f"[{k}]", lambda: s[sk], lambda: r[k]
    if name == "none" and d:
        return "[:, None]", lambda: s[:, None], lambda: r[:, None]
    if name == "ellipsis" and d:
        return f"[..., {k}]", lambda: s[..., sk], lambda: r[..., k]
    if name == "setitem" and d:
        v = R.randint(-9, 9)
        pre = R.randrange(d)
        key = lambda q: (slice(None),) * pre + (q,)

        def f(t, q):
            t[key(q)] = v
            return t

        return f"[{':,' * pre}{k}] = {v}", lambda: f(s, sk), lambda: f(r, k)
    if name == "setslice" and d:
        a, b = sorted((R.randint(0, r.shape[0]), R.randint(0, r.shape[0])))
        a2 = p.size(a)

        def g(t, a, u):
            t[a:b] = u[a:b]
            return t

        return f"[{a}:{b}] = #{j}[{a}:{b}]", lambda: g(s, a2, s2), lambda: g(r, a, r2)
    if name == "slice" and d:
        a, b = R.randint(-size - 1, size + 1), R.randint(-size - 1, size + 1)
        sl = R.choice([slice(a, b), slice(a, None), slice(None, b)])
        f = lambda v: p.size(v) if v is not None and v >= 0 and R.random() < 0.5 else v
        sl2 = slice(f(sl.start), f(sl.stop))
        pre = R.randrange(d)
        key = lambda q: (slice(None),) * pre + (q,)
        return f"[{':,' * pre}{sl.start}:{sl.stop}]", lambda: s[key(sl2)], lambda: r[key(sl)]
    if name == "step" and d:
        n, a = R.randint(1, 3), R.randint(0, 2)
        n2 = p.size(n)
        return f"[{a}::{n}]", lambda: s[a::n2], lambda: r[a::n]
    if name == "unsqueeze":
        a = R.randint(-d - 1, d)
        return f"unsqueeze({a})", lambda: s.unsqueeze(a), lambda: r.unsqueeze(a)
    if name == "squeeze" and d:
        return f"squeeze({ax})", lambda: s.squeeze(ax), lambda: r.squeeze(ax)
    if name == "permute" and d:
        o = list(range(d))
        R.shuffle(o)
        return f"permute({o})", lambda: s.permute(*o), lambda: r.permute(*o)
    if name == "transpose" and d:
        b = R.randrange(-d, d)
        return f"transpose({ax},{b})", lambda: s.transpose(ax, b), lambda: r.transpose(ax, b)
    if name == "movedim" and d:
        b = R.randrange(-d, d)
        return f"movedim({ax},{b})", lambda: s.movedim(ax, b), lambda: r.movedim(ax, b)
    if name == "roll" and d:
        n = R.randint(-5, 5)
        n2 = p.size(n) if n >= 0 else n
        return f"roll({n},{ax})", lambda: s.roll(n2, ax), lambda: r.roll(n, ax)
    if name in ("cat", "stack"):
        ts = [(s, r)] + [pool[R.randrange(len(pool))] for _ in range(R.randint(0, 2))]
        a = ax if name == "cat" else R.randint(-d - 1, d)
        return f"{name}({len(ts)}, {a})", lambda: getattr(st, name)([q[0] for q in ts], a), lambda: getattr(rt, name)([q[1] for q in ts], a)
    if name == "clone":
        return "clone", lambda: s.clone(), lambda: r.clone()
    if name in ("addc", "mulc", "divc"):
        c = R.choice([-3, 2, 0.5, 4])
        f = {"addc": lambda t: t + c, "mulc": lambda t: c * t, "divc": lambda t: t / c}[name]
        return f"{name} {c}", lambda: f(s), lambda: f(r)
    if name in ("addt", "subt"):
        f = (lambda a, b: a + b) if name == "addt" else (lambda a, b: a - b)
        return f"{name} #{j}", lambda: f(s, s2), lambda: f(r, r2)
    if name == "maxt":
        return f"max #{j}", lambda: st.max(s, s2), lambda: rt.max(r, r2)
    if name == "neg":
        return "-", lambda: -s, lambda: -r
    if name == "flip" and d:
        return f"flip({ax})", lambda: s.flip(ax), lambda: r.flip(ax)
    if name == "expand":
        n = R.randint(1, 3)
        n2 = p.size(n)
        return f"expand({n},...)", lambda: s.expand(n2, *[-1] * d), lambda: r.expand(n, *[-1] * d)
    if name == "repeat" and d:
        o = [R.randint(1, 2) for _ in range(d)]
        return f"repeat({o})", lambda: s.repeat(*o), lambda: r.repeat(*o)
    if name in ("sum", "mean", "amax") and d:
        kd = R.random() < 0.5
        return f"{name}({ax},{kd})", lambda: getattr(s, name)(ax, kd), lambda: getattr(r, name)(ax, kd)
    if name == "where":
        c = R.randint(-60, 150)
        return f"where(> {c}, #{j})", lambda: st.where(s > c, s, s2), lambda: rt.where(r > c, r, r2)
    if name in ("pad", "padr") and d >= (1 if name == "pad" else 2):
        lo, hi = R.randint(0, 2), R.randint(0, 2)
        lo2 = p.size(lo)
        if name == "pad":
            return f"pad({lo},{hi})", lambda: F.pad(s, (lo2, hi)), lambda: RF.pad(r, (lo, hi))
        if r.dtype != rt.float64:
            return None
        return f"pad({lo},{hi},replicate)", lambda: F.pad(s, (lo2, hi), mode="replicate"), lambda: RF.pad(r, (lo, hi), mode="replicate")
    if name in ("avg", "max1") and d == 3 and r.numel() and r.dtype == rt.float64:
        kk, ss = R.randint(1, 3), R.randint(1, 3)
        pp = R.randint(0, kk // 2)
        fn = "avg_pool1d" if name == "avg" else "max_pool1d"
        k2, s2_, p2 = p.size(kk), p.size(ss), p.size(pp)
        return f"{fn}({kk},{ss},{pp})", lambda: getattr(F, fn)(s, k2, s2_, p2), lambda: getattr(RF, fn)(r, kk, ss, pp)
    if name in ("isel", "arsel") and d:
        n = R.randint(0, 4)
        if name == "isel":
            if not size:
                return None
            ids = [R.randrange(size) for _ in range(n)]
            return f"index_select({ax},{ids})", lambda: s.index_select(ax, st.tensor(ids, dtype=rt.long)), lambda: r.index_select(ax, rt.tensor(ids, dtype=rt.long))
        n = R.randint(0, r.shape[0])
        n2 = p.size(n)
        m = r.shape[0] or 1
        m2 = p.size(m)
        return f"[arange({n}) % {m}]", lambda: s[(st.arange(n2) + 1) % m2], lambda: r[(rt.arange(n) + 1) % m]
    if name == "narrow" and d:
        a = R.randint(0, size)
        n = R.randint(0, size - a)
        a2 = p.size(a)
        return f"narrow({ax},{a},{n})", lambda: s.narrow(ax, a2, n), lambda: r.narrow(ax, a, n)
    if name == "flatten" and d:
        a = R.randrange(d)
        b = R.randrange(a, d)
        return f"flatten({a},{b})", lambda: s.flatten(a, b), lambda: r.flatten(a, b)
    if name == "unflatten" and d and size and size % 2 == 0:
        return f"unflatten({ax})", lambda: s.unflatten(ax, (2, size // 2)), lambda: r.unflatten(ax, (2, size // 2))
    if name == "view" and d >= 2:
        o = list(r.shape)
        o = [o[0] * o[1]] + o[2:] if R.random() < 0.5 else o[:-2] + [-1]
        return f"reshape({o})", lambda: s.reshape(*o), lambda: r.reshape(*o)
    if name == "chunk" and d:
        n = R.randint(1, 3)
        return f"chunk({n},{ax})[0]", lambda: s.chunk(n, ax)[0], lambda: r.chunk(n, ax)[0]
    if name == "zero":
        return "zero_", lambda: s.zero_(), lambda: r.zero_()
    if name == "fill":
        return "fill_(7)", lambda: s.fill_(7), lambda: r.fill_(7)
    if name == "copy":
        return f"copy_(#{j})", lambda: s.copy_(s2), lambda: r.copy_(r2)
    if name == "iadd":

        def h(t, u):
            t += u
            return t

        return f"+= #{j}", lambda: h(s, s2), lambda: h(r, r2)
    if name == "unbind" and d and r.shape[0]:
        return "list()[-1]", lambda: list(s)[-1], lambda: list(r)[-1]
    if name == "cmp":
        c = R.randint(-60, 150)
        return f">= {c}", lambda: s >= c, lambda: r >= c
    if name == "arange":
        a = R.randint(-3, 3)
        n = R.randint(0, 4)
        n2 = p.size(n)
        return f"arange({a},{a}+{n})", lambda: st.arange(a, a + n2), lambda: rt.arange(a, a + n)
    if name == "rem" and r.dtype == rt.int64:
        m = R.choice([2, 3, 5])
        m2 = p.size(m)
        return f"% {m}", lambda: s % m2, lambda: r % m
    return None


def program(seed, length=10):
    rng = random.Random(seed)
    out = dict(ops=0, elements=0, refused=0, unsupported=0)
    bad = []

    def run(vc):
        p = Prog(vc, rng)
        pool = []
        base = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
        for q in range(3):
            shape = list(base) if rng.random() < 0.7 else [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
            pool.append(p.fresh(shape, "f" if rng.random() < 0.8 else "i"))
        trace = [f"#{q}: {list(t[1].shape)} {t[1].dtype}" for q, t in enumerate(pool)]
        for _ in range(length):
            o = ops(p, pool)
            if o is None:
                continue
            what, fs, fr = o
            trace.append(what)
            keep = [t[1].clone() for t in pool]
            try:
                r = fr()
                err = None
            except Exception as e:
                r, err = None, e
            try:
                s = fs()
                if s is NotImplemented:
                    raise Unsupported("op")
            except Unsupported:
                out["unsupported"] += 1
                return
            except (SymError, IndexError, TypeError, RuntimeError, ValueError, AssertionError) as e:
                if err is None:
                    bad.append(dict(seed=seed, trace=trace, what=f"refused by the model only: {type(e).__name__}: {e}"))
                else:
                    out["refused"] += 1
                return
            if err is not None:
                bad.append(dict(seed=seed, trace=trace, what=f"refused by torch only: {err}"))
                return
            pool.append((tensor.wrap(s), r))
            out["ops"] += 1
            try:
                for q, (a, b) in enumerate(pool):  # in-place writes show in every alias
                    out["elements"] += p.compare(a, b, f"{what}: tensor #{q}")
            except Unsupported:
                out["unsupported"] += 1
                return
            except Mismatch as e:
                bad.append(dict(seed=seed, trace=trace, what=str(e)))
                return
            if r.numel() > 200:
                return

    vc = core.Vc("crosscheck")
    try:
        vc.explore(run, time.time() + 60)
    except BaseException as e:
        bad.append(dict(seed=seed, trace=[], what=f"{type(e).__name__}: {e}"))
    extra = [o for o in vc.obl.values() if o["status"] != "discharged" and "vacuity" not in o["name"]]
    for o in extra:
        bad.append(dict(seed=seed, trace=[], what=o["detail"]))
    out["bad"] = bad
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--n", type=int, default=400)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--out")
    a = ap.parse_args()
    import loader

    loader.load()
    import multiprocessing

    with multiprocessing.get_context("fork").Pool(a.jobs) as pool:
        res = pool.map(program, range(a.seed * 10**6, a.seed * 10**6 + a.n), chunksize=8)
    tot = {k: sum(r[k] for r in res) for k in ("ops", "elements", "refused", "unsupported")}
    bad = [b for r in res for b in r["bad"]]
    print(json.dumps(dict(programs=a.n, **tot, mismatches=len(bad))))
    for b in bad[:20]:
        print("MISMATCH", b["what"], "|", b["trace"], b["seed"])
    if a.out:
        json.dump(dict(programs=a.n, **tot, mismatches=bad), open(a.out, "w"))
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
