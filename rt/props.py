"""Per-property cases and executable contracts (bounded concrete half)."""
import copy
import io
import itertools
import math
import pickle
import random
from collections import OrderedDict

import torch
import torch.nn.functional as F
from torch import nn

import specs
from base import *  # noqa: F401,F403
from base import Fail, need, same
from specs import build, meta, oracle, rand_weights, randn, rnd_leaf, rnd_net, spatial


class Prop:
    def cases(self, rng, tier):
        raise NotImplementedError

    def run(self, c):
        raise NotImplementedError


def mk(spec, seed):
    m = rand_weights(build(spec), seed)
    return m.eval() if hasattr(m, "eval") else m


def coseq(spec):
    return dict(k="seq", m=[spec], style="args") if spec["k"] in specs.RAW else spec


# =====================================================================  C01
class C01(Prop):
    def cases(self, rng, tier):
        for ks, p, s in [(1, 0, 1), (1, 0, 2), (1, 0, 3), (2, 0, 1), (2, 1, 1), (2, 0, 2), (2, 1, 3), (3, 0, 1), (3, 1, 1), (3, 2, 1), (3, 0, 2), (3, 1, 2),
                         (3, 2, 3), (4, 1, 2), (4, 3, 5), (5, 2, 1), (5, 4, 4), (5, 0, 6), (6, 3, 2), (7, 0, 3)]:
            yield dict(spec=dict(k="conv", n=1, ci=2, co=3, ks=[ks], s=[s], p=[p], b=True), T=3 * ks + 2 * s + 5, B=2, train=False, seed=1)
        for n in (1, 2, 3):
            for how in ("bare", "pos"):
                for k, st, p in ((2, 1, 0), (3, 1, 1), (3, 2, 1), (1, 1, 0)):
                    yield dict(spec=dict(k="conv", n=n, ci=2, co=3, ks=[k] * n, s=[st] * n, p=[p] * n, b=True, **{how: True}), T=9, B=2, train=False, seed=1)
                yield dict(spec=dict(k="conv", n=n, ci=2, co=2, ks=[3] * n, s=[1] * n, p=[1] * n, b=False, pm="replicate", **{how: True}), T=9, B=2, train=False, seed=1)
            for train in (False, True):
                yield dict(spec=dict(k="conv", n=n, ci=4, co=2, ks=[3] + [3] * (n - 1), s=[2] + [2] * (n - 1), p=[1] + [1] * (n - 1), g=2, b=False), T=13, B=2, train=train, seed=2)
                yield dict(spec=dict(k="conv", n=n, ci=2, co=2, ks=[4] + [2] * (n - 1), s=[1] + [1] * (n - 1), p=[2] + [1] * (n - 1), d=[1] + [2] * (n - 1), b=True, pm="replicate"), T=12, B=1, train=train, seed=3)
                yield dict(spec=dict(k="conv", n=n, ci=2, co=2, ks=[1] + [3] * (n - 1), s=[1] + [1] * (n - 1), p=[0] + [1] * (n - 1), b=True), T=6, B=2, train=train, seed=4)
        for _ in range(450 if tier == "quick" else 3000):
            n = rng.choice([1, 1, 2, 3])
            ks = rng.randint(1, 8)
            g = rng.choice([1, 2])
            pm = rng.choice(["zeros", "zeros", "replicate"])
            yield dict(spec=dict(k="conv", n=n, ci=g * rng.randint(1, 2), co=g * rng.randint(1, 2), ks=[ks] + [rng.randint(1, 3) for _ in range(n - 1)],
                                 s=[rng.randint(1, 5)] + [rng.randint(1, 2) for _ in range(n - 1)], p=[rng.randint(0, ks - 1)] + [rng.randint(0, 1) for _ in range(n - 1)],
                                 d=[1] + [rng.choice([1, 1, 2]) for _ in range(n - 1)], g=g, b=rng.random() < 0.7, pm=pm),
                       T=rng.randint(1, 4 * ks + 8), B=rng.randint(1, 3), train=rng.random() < 0.5, seed=rng.randint(0, 10**6))

    def run(self, c):
        s = c["spec"]
        m = mk(s, c["seed"])
        m.train(c["train"])
        n = s["n"]
        x = randn(c["seed"] + 1, c["B"], s["ci"], c["T"], *{1: (), 2: (6,), 3: (6, 5)}[n])
        d, st, rf, p = meta(s)
        if c["T"] + 2 * p >= rf:
            off = oracle(s, m, x)
            same(m.forward(x), off, "whole-sequence output")
        else:
            off = x[:, :, :0]
        outs = steps(m, x)
        expect_stream(outs, off, d, st)
        m.clean_state()
        o = m.forward_steps(x)
        same(o, emitted(outs), "multi-step output")


# =====================================================================  C02
class C02(Prop):
    def cases(self, rng, tier):
        for kind in ("avg", "max"):
            for ks, p, s, d in [(1, 0, 1, 1), (1, 0, 3, 1), (2, 0, 1, 1), (2, 1, 1, 1), (2, 0, 2, 1), (3, 0, 1, 1), (3, 1, 1, 1), (3, 1, 2, 1), (4, 2, 3, 1), (5, 0, 2, 1), (5, 2, 7, 1),
                                (2, 0, 1, 2), (2, 0, 1, 3), (3, 0, 1, 2), (3, 0, 2, 2), (4, 0, 1, 3), (3, 0, 5, 4), (3, 1, 1, 2), (2, 1, 2, 3)]:
                yield dict(f="pool", kind=kind, n=1, ks=[ks], s=[s], p=[p], d=d, T=3 * d * ks + 2 * s + 4, B=2, seed=1)
            for bare in (False, True):
                for k in (2, 3):
                    yield dict(f="pool", kind=kind, n=1, ks=[k], s=None, p=[0], d=1, T=9, B=1, seed=6, bare=bare)
                    yield dict(f="pool", kind=kind, n=1, ks=[k], s=[2], p=[1], d=1, T=9, B=1, seed=6, bare=bare)
            for n in (2, 3):
                yield dict(f="pool", kind=kind, n=n, ks=[3] + [3] * (n - 1), s=[1] + [2] * (n - 1), p=[1] + [1] * (n - 1), d=1, T=9, B=2, seed=5)
                yield dict(f="pool", kind=kind, n=n, ks=[2] + [2, 3][: n - 1], s=None, p=[0] * n, d=1, T=9, B=1, seed=6)
                yield dict(f="pool", kind=kind, n=n, ks=[3] + [1, 2][: n - 1], s=None, p=[0] * n, d=1, T=9, B=1, seed=6, bare=True)
                yield dict(f="pool", kind=kind, n=n, ks=[3] + [2, 3][: n - 1], s=[2] + [1] * (n - 1), p=[0] * n, d=2, T=15, B=2, seed=7)
                yield dict(f="pool", kind=kind, n=n, ks=[2] + [3, 2][: n - 1], s=[1] + [2] * (n - 1), p=[0] + [1] * (n - 1), d=1, T=7, B=2, seed=8, ceil=True)
        for n in (2, 3):
            yield dict(f="pool", kind="avg", n=n, ks=[2] + [3] * (n - 1), s=[1] + [1] * (n - 1), p=[0] + [1] * (n - 1), d=1, T=6, B=2, seed=9, cip=False)
            for kind in ("avg", "max"):
                for k, st, d in ((3, 2, 1), (2, 1, 2), (2, 3, 3), (4, 4, 1)):
                    yield dict(f="adaptive", kind=kind, n=n, k=k, s=st, d=d, out=[1] + [2] * (n - 1), T=3 * k * d + 2, B=2, seed=3)
                for k in (1, 2, 5):
                    yield dict(f="adaptive", kind=kind, n=n, k=k, out=[1] * n, T=k + 4, B=2, seed=3)
                    yield dict(f="adaptive", kind=kind, n=n, k=k, out=[1] + [2] * (n - 1), T=k + 4, B=2, seed=4)
        for _ in range(390 if tier == "quick" else 3000):
            n = rng.choice([1, 1, 2, 3])
            kind = rng.choice(["avg", "max"])
            ks = rng.randint(1, 6)
            d = rng.choice([1, 1, 2, 3, 4])
            p = rng.randint(0, ks // 2)
            yield dict(f="pool", kind=kind, n=n, ks=[ks] + [rng.randint(1, 3) for _ in range(n - 1)], s=[rng.randint(1, 5)] + [rng.randint(1, 2) for _ in range(n - 1)],
                       p=[p] + [0] * (n - 1), d=d, T=rng.randint(1, 3 * d * ks + 6), B=rng.randint(1, 3), seed=rng.randint(0, 10**6))

    def run_nnref(self, c):
        """options passed through to torch.nn: step outputs against the whole-sequence mode"""
        n = c["n"]
        m = getattr(co, f"{c['kind'].capitalize()}Pool{n}d")(tuple(c["ks"]) if n > 1 else c["ks"][0], **{k: tuple(v) if isinstance(v, list) else v for k, v in c["kw"].items()})
        x = randn(c["seed"], 2, 3, c["T"], *{1: (), 2: (6,), 3: (6, 5)}[n])
        off = m.forward(x)
        same(m.forward_steps(x, pad_end=True), off, "end-padded multi-step output")

    def run(self, c):
        if c["f"] == "nnref":
            return self.run_nnref(c)
        n, kind = c["n"], c["kind"]
        sp = {1: (), 2: (6,), 3: (6, 5)}[n]
        x = randn(c["seed"], c["B"], 3, c["T"], *sp)
        if c["f"] == "adaptive":
            st, d = c.get("s", 1), c.get("d", 1)
            m = getattr(co, f"Adaptive{kind.capitalize()}Pool{n}d")(tuple(c["out"]), c["k"], **dict(stride=st, dilation=d) if "s" in c else {})
            fr = x.transpose(1, 2).reshape(-1, 3, *sp)
            fn = {("avg", 2): F.adaptive_avg_pool1d, ("avg", 3): F.adaptive_avg_pool2d, ("max", 2): F.adaptive_max_pool1d, ("max", 3): F.adaptive_max_pool2d}[(kind, n)]
            y = fn(fr, c["out"][1:])
            y = y.reshape(c["B"], c["T"], 3, *y.shape[2:]).transpose(1, 2)
            off = specs.temporal_pool(kind, y, c["k"], st, 0, d)
            expect_stream(steps(m, x), off, d * (c["k"] - 1), st)
            if d == 1:
                same(m.forward(x[:, :, : c["k"]]), off[:, :, :1], "whole-sequence output")
            return
        kw = dict(padding=tuple(c["p"]), dilation=(c["d"],) + (1,) * (n - 1))
        if c["s"] is not None:
            kw["stride"] = tuple(c["s"])
        if c.get("ceil"):
            kw["ceil_mode"] = True
        if "cip" in c:
            kw["count_include_pad"] = c["cip"]
        if c.get("bare"):  # defaults are left out, single numbers are plain
            kw = {k: v[0] if n == 1 else v for k, v in kw.items() if k == "stride" or any(v) and k == "padding" or k == "dilation" and any(q != 1 for q in v)}
        m = getattr(co, f"{kind.capitalize()}Pool{n}d")(c["ks"][0] if c.get("bare") and n == 1 else tuple(c["ks"]), **kw)
        ks, p = c["ks"], c["p"]
        s = c["s"] if c["s"] is not None else ks
        y = x
        if n > 1:
            fr = x.transpose(1, 2).reshape(-1, 3, *sp)
            if kind == "avg":
                fn = F.avg_pool1d if n == 2 else F.avg_pool2d
                y = fn(fr, ks[1:], s[1:], p[1:], bool(c.get("ceil")), c.get("cip", True))
            else:
                fn = F.max_pool1d if n == 2 else F.max_pool2d
                y = fn(fr, ks[1:], s[1:], p[1:], 1, bool(c.get("ceil")))
            y = y.reshape(c["B"], c["T"], 3, *y.shape[2:]).transpose(1, 2)
        off = specs.temporal_pool(kind, y, ks[0], s[0], p[0], c["d"])
        rf = c["d"] * (ks[0] - 1) + 1
        if off.shape[2] and (kind == "max" or c["d"] == 1) and c["T"] >= ks[0]:  # torch refuses shorter inputs
            same(m.forward(x), off, "whole-sequence output")
        outs = steps(m, x)
        expect_stream(outs, off, rf - 1 - p[0], s[0])
        m.clean_state()
        same(m.forward_steps(x), emitted(outs), "multi-step output")


# =====================================================================  C03
class C03(Prop):
    def cases(self, rng, tier):
        for d in range(0, 7):
            for shrink in (False, True, "centered", "lagging"):
                for fill in ("zeros", "replicate"):
                    yield dict(f="delay", d=d, shrink=shrink, fill=fill, T=3 * d + 6, shape=[2, 3] if d % 2 else [2, 3, 4], seed=d)
            yield dict(f="select", d=d, T=d + 5, shape=[2, 3], seed=d)
            for td in (-1, 2):
                yield dict(f="retro", d=d, T=3 * d + 5, shape=[2, 3], td=td, seed=d)
            if d:
                yield dict(f="skip", d=d, T=2 * d + 3, shape=[2, 3], seed=d)
        for td in (1, 2, 3, -1, -2):
            yield dict(f="retro", d=3, T=12, shape=[2, 3, 4], td=td, seed=9)
        for _ in range(450 if tier == "quick" else 2500):
            f = rng.choice(["delay", "delay", "retro", "skip", "select"])
            d = rng.randint(1 if f == "skip" else 0, 12)
            yield dict(f=f, d=d, T=rng.randint(d + 1, 4 * d + 8), shape=[rng.randint(1, 3) for _ in range(rng.randint(2, 4))], td=-1,
                       shrink=rng.choice([False, True, "lagging"]), fill=rng.choice(["zeros", "replicate"]), seed=rng.randint(0, 10**6))

    def run(self, c):
        from continual.transformer import RetroactiveUnity, SelectOrDelay

        d, T, shp = c["d"], c["T"], c["shape"]
        x = randn(c["seed"], *shp[:2], T, *shp[2:])
        sl = [x[:, :, t] for t in range(T)]
        if c["f"] == "retro":
            m = RetroactiveUnity(d, time_dim=c["td"])
            exp = []
            for t in range(T):
                if t < d:
                    exp.append(None)
                else:
                    dim = c["td"] if c["td"] >= 0 else c["td"] + len(shp) + 1
                    exp.append(torch.stack(sl[t - d:t + 1], dim))
            same(m.forward(x), x, "whole-sequence output")
        elif c["f"] == "skip":
            m = co.Skip(d)
            exp = [None if t < d else sl[t] for t in range(T)]
            same(m.forward(x), x[:, :, d:], "whole-sequence output")
        else:
            if c["f"] == "select":
                m = SelectOrDelay(d)
                same(m.forward(x), x[:, :, T - 1 - d:T - d], "whole-sequence output")
                first = d
            else:
                m = co.Delay(d, temporal_fill=c["fill"], auto_shrink=c["shrink"])
                off = x
                first = d
                if c["shrink"] == "lagging":
                    off = x[:, :, : T - d]
                elif c["shrink"]:
                    off = x[:, :, d: max(T - d, d)]
                    first = 2 * d
                same(m.forward(x), off, "whole-sequence output")
            exp = [sl[t - d] if t >= first else None for t in range(T)]
        outs = []
        for t in range(T):
            i = sl[t].clone()
            o = m.forward_step(i)
            same(o, exp[t], f"step {t}")
            outs.append(o)
            if d > 0:
                i.fill_(77.0)  # the caller may reuse its input
                if c["seed"] % 2 and isinstance(o, torch.Tensor) and c["f"] != "skip":
                    o.fill_(55.0)  # ... and its outputs
        if not (c["seed"] % 2) and c["f"] != "skip":
            for t in range(T):
                same(outs[t], exp[t], f"output emitted at step {t}, looked at after the stream")
        m.clean_state()
        o = m.forward_steps(x)
        e = [v for v in exp if v is not None]
        same(o, torch.stack(e, 2) if e else None, "multi-step output")
        if c["f"] == "delay":
            m.clean_state()
            o = m.forward_steps(x, pad_end=True)
            same(o, off if off.shape[2] else None, "end-padded multi-step output")


# =====================================================================  C04
def rnd_any(rng, leaf=False):
    n = rng.choice([1, 1, 2])
    r = rng.random()
    if r < 0.35 or leaf:
        q = rng.random()
        if q < 0.6:
            s = rnd_leaf(rng, n, 2, kinds=["conv", "conv", "avg", "max", "delay"])
        elif q < 0.8:
            return 1, dict(k="rnn", cell=rng.choice(["RNN", "GRU", "LSTM"]), ci=2, co=2, l=rng.randint(1, 2))
        else:
            return 1, dict(k="pe", c=2, ne=rng.randint(1, 40))
    else:
        s = rnd_net(rng, n, 2, depth=rng.randint(1, 3), rnn_ok=True)
    return n, coseq(s)


def rnd_len(rng, s):
    d, st, rf, p = meta(s)
    return rf + rng.randint(0, 3 * st + 6)


def pe_ok(s, T):
    """forward of the positional encoding only supports T <= num_embeddings"""
    if isinstance(s, dict):
        if s.get("k") == "pe" and s["ne"] < T:
            return False
        return all(pe_ok(v, T) for v in s.values())
    if isinstance(s, list):
        return all(pe_ok(v, T) for v in s)
    return True


class C04(Prop):
    def cases(self, rng, tier):
        for ks, p, s in [(1, 0, 1), (1, 0, 2), (2, 1, 1), (3, 0, 1), (3, 1, 2), (4, 3, 1), (4, 1, 3), (5, 2, 2)]:
            for pm in ("zeros", "replicate"):
                spec = dict(k="conv", n=1, ci=2, co=2, ks=[ks], s=[s], p=[p], pm=pm)
                for T in (ks + 3, ks + 8):
                    yield dict(spec=spec, n=1, T=T, chunks=[2] * (T // 2) + [1] * (T % 2), seed=ks, tail=3)
        for kind in ("avg", "max"):
            for ks, p, s in [(2, 0, 1), (2, 1, 1), (3, 1, 2), (4, 2, 3)]:
                yield dict(spec=dict(k=kind, n=1, ks=[ks], s=[s], p=[p], d=1), n=1, T=11, chunks=[3, -2, 4, 2], seed=ks, tail=4)
        for d in (0, 1, 3):
            yield dict(spec=dict(k="delay", d=d), n=1, T=9, chunks=[1, 1, 4, -2, 1], seed=d, tail=3)
        cv = lambda ks, s=1, p=0: dict(k="conv", n=1, ci=2, co=2, ks=[ks], s=[s], p=[p])
        for spec in [dict(k="seq", m=[cv(3, 1, 1), cv(3, 1, 1)]), dict(k="seq", m=[cv(3), cv(2), cv(3, 1, 1)]), dict(k="res", m=cv(3, 1, 1)), dict(k="bcr", m=[cv(3, 1, 1), cv(5, 1, 2)]), dict(k="cond", t=cv(3, 1, 1), f=dict(k="delay", d=1), pred="true")]:
            yield dict(spec=spec, n=1, T=9, chunks=[4, 5], seed=8, tail=4, leak=True)
        for n in (1, 2, 5):
            for lay in ((False, False), (True, False), (True, True)):
                for kind in ("retro", "single"):
                    yield dict(mha=kind, N=n, lay=lay, T=2 * n + 4, seed=n, chunks=[1, 2, -1] + [2] * n, E=4, H=2)
        for i in range(420 if tier == "quick" else 3000):
            n, s = rnd_any(rng)
            T = rnd_len(rng, s)
            if not pe_ok(s, T):
                continue
            yield dict(spec=s, n=n, T=T, chunks=rsplit(rng, T), seed=rng.randint(0, 10**6), tail=rng.randint(0, 5))
            if i % 12 == 0:
                N = rng.randint(1, 5)
                T = rng.randint(1, 3 * N + 4)
                yield dict(mha=rng.choice(["retro", "single"]), N=N, lay=rng.choice([(False, False), (True, False), (True, True)]), T=T, chunks=rsplit(rng, T), seed=rng.randint(0, 9999), E=4, H=2)

    def run(self, c):
        if "mha" in c:
            return self.run_mha(c)
        s = c["spec"]
        m = mk(s, c["seed"])
        T = c["T"]
        x = randn(c["seed"] + 1, 2, 2, T + c["tail"], *spatial(c["n"]))
        ref = mk(s, c["seed"])
        exp_full = steps(ref, x)
        o = run_chunks(m, x[:, :, :T], c["chunks"])
        same(o, emitted(exp_full[:T]), "chunked outputs")
        rest = steps(m, x, range(T, T + c["tail"]))
        for i, (a, b) in enumerate(zip(rest, exp_full[T:])):
            same(a, b, f"step {T + i} after the chunks")
        # end padding: whole sequence
        m2 = mk(s, c["seed"])
        off = oracle(s, m2, x[:, :, :T])
        if off.shape[2] > 0:
            same(_first(m2.forward(x[:, :, :T])), off, "whole-sequence output")
            same(m2.forward_steps(x[:, :, :T], pad_end=True), off, "end-padded multi-step output")
            # after single steps: same tail
            if c.get("leak") or s["k"] in ("conv", "avg", "max", "delay", "rnn", "pe"):
                rest = steps(m2, x, range(T, T + c["tail"]))
                for i, (a, b) in enumerate(zip(rest, exp_full[T:])):
                    same(a, b, f"step {T + i} after an end-padded call")
                m3 = mk(s, c["seed"])
                h = T // 2
                a = emitted(steps(m3, x, range(h)))
                b = m3.forward_steps(x[:, :, h:T], pad_end=True) if T > h else None
                if T > h:
                    parts = [v for v in (a, b) if v is not None]
                    same(torch.cat(parts, 2), off, "single steps followed by an end-padded multi-step call")

    def run_mha(self, c):
        m = mk_mha(c)
        x = [randn(c["seed"] + i, 2, c["T"], c["E"]) for i in range(3)]  # N T E
        ref = [mha_step(m, c, x, t) for t in range(c["T"])]
        m.clean_state()
        t, outs = 0, []
        for ch in c["chunks"]:
            n = min(abs(ch), c["T"] - t)
            if n <= 0:
                break
            if ch < 0:
                got = [mha_step(m, c, x, t + i) for i in range(n)]
            else:
                o = m.forward_steps(*[to_lay(v[:, t:t + n], c["lay"]) for v in x])
                cnt = sum(r is not None for r in ref[t:t + n])
                if cnt == 0:
                    need(o is None, "multi-step call without outputs returned something")
                    got = [None] * n
                else:
                    need(isinstance(o, torch.Tensor), "multi-step call returned nothing")
                    dim = steps_dim(c)
                    need(o.shape[dim] == cnt, f"multi-step call returned {o.shape[dim]} outputs instead of {cnt}")
                    got = [None] * (n - cnt) + [o.select(dim, i) for i in range(cnt)]
            for i in range(n):
                same(got[i], ref[t + i], f"step {t + i} processed in chunks", 1e-7)
            t += n


# ---------------------------------------------------------------- attention helpers
def mk_mha(c):
    bf, eds = c["lay"]
    kw = dict(embed_dim=c["E"], num_heads=c["H"], bias=c.get("b", True), batch_first=bf, embed_dim_second=eds, sequence_len=c["N"], forward_returns_attn_mask=False)
    if c.get("kd"):
        kw.update(kdim=c["kd"][0], vdim=c["kd"][1])
    cls = co.RetroactiveMultiheadAttention if c["mha"] == "retro" else co.SingleOutputMultiheadAttention
    if c["mha"] != "retro":
        kw.update(query_index=c.get("qi", -1), single_output_forward=c.get("sof", True))
    if c.get("how") == "pos":  # options by position
        kd = c.get("kd") or (None, None)
        tail = [False, eds] if c["mha"] == "retro" else [c.get("qi", -1), False, eds, c.get("sof", True)]
        m = cls(c["E"], c["H"], 0.0, c.get("b", True), False, False, *kd, bf, None, None, c["N"], *tail)
    else:
        if c.get("how") == "bare":  # defaults are left out
            own = dict(bias=True, embed_dim_second=False, batch_first=c["mha"] != "retro", query_index=-1, single_output_forward=True)
            kw = {k: v for k, v in kw.items() if k not in own or v != own[k]}
        m = cls(**kw)
    rand_weights(m, c["seed"])
    with torch.no_grad():
        for w in (m.in_proj_weight, m.q_proj_weight, m.k_proj_weight, m.v_proj_weight):
            if w is not None:
                w.mul_(1.2 / math.sqrt(c["E"]))  # moderate logits: the retroactive recurrence subtracts exponentials
    return m.eval()


def to_lay(x, lay):
    """(N, T, E) -> module layout"""
    bf, eds = lay
    if eds:
        return x.permute(0, 2, 1)
    return x if bf else x.transpose(0, 1)


def mha_step(m, c, x, t, **kw):
    o = m.forward_step(*[v[:, t] for v in x], **kw)
    return o.detach().clone() if isinstance(o, torch.Tensor) else o


def steps_dim(c):
    bf, eds = c["lay"]
    if c["mha"] == "retro":
        return 0 if not bf else (2 if eds else 1)
    return 0 if not bf else (2 if eds else 1)


def mha_oracle(m, q, k, v):
    """offline attention on (N, T, E) inputs, returns (N, Tq, E)"""
    E, H = m.embed_dim, m.num_heads
    W, b = m.in_proj_weight, m.in_proj_bias
    ps = []
    for i, z in enumerate((q, k, v)):
        z = z @ (W[i * E:(i + 1) * E] if W is not None else (m.q_proj_weight, m.k_proj_weight, m.v_proj_weight)[i]).t()
        if b is not None:
            z = z + b[i * E:(i + 1) * E]
        ps.append(z.reshape(z.shape[0], z.shape[1], H, E // H).transpose(1, 2))
    a = ps[0] @ ps[1].transpose(-1, -2) / math.sqrt(E // H)
    a = torch.softmax(a, -1)
    o = (a @ ps[2]).transpose(1, 2).reshape(q.shape[0], q.shape[1], E)
    o = o @ m.out_proj.weight.t()
    return o + m.out_proj.bias if m.out_proj.bias is not None else o


# =====================================================================  C05
class C05(Prop):
    def cases(self, rng, tier):
        base = [dict(k="conv", n=1, ci=2, co=2, ks=[3], s=[1], p=[1]), dict(k="conv", n=1, ci=2, co=2, ks=[4], s=[3], p=[0]), dict(k="conv", n=1, ci=2, co=2, ks=[1], s=[3], p=[0]),
                dict(k="avg", n=1, ks=[3], s=[1], p=[1], d=1), dict(k="max", n=1, ks=[3], s=[2], p=[0], d=2), dict(k="delay", d=3), dict(k="delay", d=1),
                dict(k="rnn", cell="RNN", ci=2, co=2), dict(k="rnn", cell="GRU", ci=2, co=2, l=2), dict(k="rnn", cell="LSTM", ci=2, co=2), dict(k="pe", c=2, ne=5), dict(k="pe", c=2, ne=5, fus=1), dict(k="pe", c=2, ne=7, fus=3),
                dict(k="seq", m=[dict(k="pe", c=2, ne=5, fus=1), dict(k="relu")], style="args"),
                dict(k="res", m=dict(k="conv", n=1, ci=2, co=2, ks=[3], s=[1], p=[1]), r="sum"),
                dict(k="cond", t=dict(k="conv", n=1, ci=2, co=2, ks=[3], s=[1], p=[1]), f=dict(k="delay", d=3), pred="true"),
                dict(k="cond", t=dict(k="conv", n=1, ci=2, co=2, ks=[3], s=[1], p=[1]), f=dict(k="delay", d=3), pred="false"),
                dict(k="par", m=[dict(k="conv", n=1, ci=2, co=2, ks=[3], s=[1], p=[1]), dict(k="delay", d=3)], r="sum")]
        for i, s in enumerate(base):
            for ev in (["n", "u", "u", "n", "c2", "u", "u", "n", "u"], ["u", "u", "u", "u", "c3", "n", "e2", "u", "n", "n", "u", "u"], ["e3", "u", "c1", "u", "u", "e1", "u", "u", "n", "u"]):
                yield dict(spec=s, n=1, ev=ev, seed=i)
        for kind in ("retro", "single"):
            for N in (1, 2, 4):
                for lay in ((False, False), (True, False), (True, True)):
                    yield dict(mha=kind, N=N, lay=lay, E=4, H=2, seed=N, qi=-1 if N < 2 else -2, ev=["n", "u", "c2", "u", "n", "u", "u", "n", "u", "c3", "u", "u", "n", "u"])
        for name in ("single", "retro", "enc1", "enc2"):
            yield dict(trans=name, N=3, seed=4, ev=["n", "u", "c2", "u", "n", "u", "u", "n", "u", "c3", "u", "u", "n", "u"])
        yield dict(skip=2, seed=1, ev=["n", "u", "n", "n", "u", "n", "u", "u"])
        for _ in range(390 if tier == "quick" else 2500):
            n, s = rnd_any(rng)
            mx = min(4, s["ne"]) if s["k"] == "pe" else 4
            ev = [rng.choice(["u", "u", "u", "n", "c%d" % rng.randint(1, mx), "e%d" % rng.randint(1, mx)]) for _ in range(min(40, 6 + 2 * meta(s)[2]))]
            if n == 2:
                ev = ev[:14]
            yield dict(spec=s, n=n, ev=ev, seed=rng.randint(0, 10**6))

    def run(self, c):
        nu = sum(e == "u" for e in c["ev"])
        if "mha" in c:
            make = lambda: mk_mha(c)
            x = [randn(c["seed"] + i, 2, nu + 1, c["E"]) for i in range(3)]
            z = [randn(c["seed"] + 9 + i, 2, 60, c["E"]) for i in range(3)]
            step = lambda m, src, t, **kw: m.forward_step(*[v[:, t] for v in src], **kw)
            multi = lambda m, src, a, b, **kw: m.forward_steps(*[to_lay(v[:, a:b], c["lay"]) for v in src], **kw)
        else:
            if "trans" in c:
                make = lambda: mk_trans(c["trans"], c["N"], c["seed"])
                ch, sp = 4, ()
            elif "skip" in c:
                make, ch, sp = lambda: co.Skip(c["skip"]), 2, ()
            else:
                make = lambda: mk(c["spec"], c["seed"])
                ch, sp = 2, spatial(c["n"])
            x = randn(c["seed"] + 1, 2, ch, nu + 1, *sp)
            z = randn(c["seed"] + 2, 2, ch, 60, *sp)
            step = lambda m, src, t, **kw: m.forward_step(src[:, :, t].clone(), **kw)
            multi = lambda m, src, a, b, **kw: m.forward_steps(src[:, :, a:b].clone(), **kw)
        m, plain = make(), make()
        exp = [_snap(step(plain, x, t)) for t in range(nu)]
        t = 0
        for i, e in enumerate(c["ev"]):
            if e == "u":
                same(_one(step(m, x, t)), exp[t], f"updating step {t} with non-updating calls in between", 1e-7)
                t += 1
                continue
            tw = dup(m, make)
            if e == "n":
                a, b = step(m, z, i, update_state=False), step(tw, z, i)
            elif e[0] == "c" or "mha" in c or "trans" in c:
                k = int(e[1:])
                a, b = multi(m, z, i, i + k, update_state=False), multi(tw, z, i, i + k)
            else:
                k = int(e[1:])
                try:
                    b = multi(tw, z, i, i + k, pad_end=True)
                except RuntimeError:
                    continue  # not a valid end-padded call for this network
                a = multi(m, z, i, i + k, pad_end=True, update_state=False)
            same(_one(a), _one(b), f"non-updating call {i} ({e})", 1e-7)


def _one(o):
    return o if isinstance(o, torch.Tensor) else (None if o is None else o)


def _snap(o):
    return o.detach().clone() if isinstance(o, torch.Tensor) else o


def mk_trans(name, N, seed, act="relu", sof=False, qi=-1, E=4, H=2, FF=6, norm=False):
    kw = dict(d_model=E, nhead=H, dim_feedforward=FF, dropout=0.1, sequence_len=N, activation={"relu": F.relu, "gelu": F.gelu}[act])
    if name == "single":
        m = co.SingleOutputTransformerEncoderLayer(single_output_forward=sof, query_index=qi, **kw)
    elif name == "retro":
        m = co.RetroactiveTransformerEncoderLayer(**kw)
    else:
        kw["activation"] = act if seed % 2 else kw["activation"]
        m = co.TransformerEncoder(co.TransformerEncoderLayerFactory(**kw), num_layers=int(name[3:]), norm=nn.LayerNorm(E) if norm else None)
    return rand_weights(m, seed).eval()


# =====================================================================  C06
class C06(Prop):
    def cases(self, rng, tier):
        base = [dict(k="conv", n=1, ci=2, co=2, ks=[3], s=[2], p=[1]), dict(k="conv", n=1, ci=2, co=2, ks=[1], s=[3], p=[0]), dict(k="avg", n=1, ks=[3], s=[2], p=[1], d=1), dict(k="max", n=1, ks=[2], s=[1], p=[0], d=3),
                dict(k="delay", d=3), dict(k="rnn", cell="RNN", ci=2, co=2), dict(k="rnn", cell="GRU", ci=2, co=2), dict(k="rnn", cell="LSTM", ci=2, co=2, l=2), dict(k="pe", c=2, ne=90),
                dict(k="res", m=dict(k="conv", n=1, ci=2, co=2, ks=[3], s=[1], p=[1]), r="sum"),
                dict(k="cond", t=dict(k="conv", n=1, ci=2, co=2, ks=[3], s=[1], p=[1]), f=dict(k="delay", d=3), pred="true"),
                dict(k="cond", t=dict(k="conv", n=1, ci=2, co=2, ks=[3], s=[1], p=[1]), f=dict(k="delay", d=3), pred="false"),
                dict(k="par", m=[dict(k="conv", n=1, ci=2, co=2, ks=[3], s=[1], p=[1]), dict(k="delay", d=3)], r="sum"),
                dict(k="seq", m=[dict(k="conv", n=1, ci=2, co=2, ks=[3], s=[2], p=[0]), dict(k="relu"), dict(k="delay", d=2), dict(k="rnn", cell="GRU", ci=2, co=2), dict(k="pe", c=2, ne=90)], style="args")]
        for i, s in enumerate(base):
            for h in (1, 2, 5, 8):
                for what in ("clean", "functional", "offline", "sd") + (("state",) if s["k"] in STATEFUL_LEAF else ()):
                    yield dict(what=what, spec=s, n=1, h=h, T=9, seed=i)
        for kind in ("retro", "single"):
            for N in (1, 3):
                for lay in ((False, False), (True, False), (True, True)):
                    for what in ("clean", "state", "functional", "offline", "sd"):
                        yield dict(what=what, mha=kind, N=N, lay=lay, E=4, H=2, seed=N, qi=-1 if N == 1 else -2, h=N + 1, T=2 * N + 3)
        for name in ("single", "retro", "enc1", "enc2"):
            for what in ("clean", "functional", "offline", "sd"):
                yield dict(what=what, trans=name, N=3, h=4, T=9, seed=3)
        for what in ("clean", "state", "functional", "offline", "sd"):
            for h in (1, 4):
                yield dict(what=what, skip=3, h=h, T=6, seed=2)
        for _ in range(360 if tier == "quick" else 2500):
            what = rng.choice(["clean", "state", "functional", "functional", "offline", "sd"])
            n, s = rnd_any(rng, leaf=what == "state")
            if what == "state" and s["k"] not in STATEFUL_LEAF:
                continue
            T = min(rnd_len(rng, s), 40)
            if not pe_ok(s, 2 * T + 10):
                continue
            yield dict(what=what, spec=s, n=n, h=rng.randint(1, T), T=T, seed=rng.randint(0, 10**6))

    def run(self, c):
        seed, h, T = c["seed"], c["h"], c["T"]
        if "mha" in c:
            make = lambda: mk_mha(c)
            mkx = lambda sd, T, B=2, sp=False: [randn(sd + i, B, T, c["E"]) for i in range(3)]
            step = lambda m, x, t, **kw: m.forward_step(*[v[:, t].clone() for v in x], **kw)
            fstep = lambda m, x, t, st: m._forward_step(*[v[:, t].clone() for v in x], prev_state=st)
            fwd = lambda m, x: m.forward(*[to_lay(v, c["lay"]) for v in x])
            offT = c["N"]
        else:
            ch = 4 if "trans" in c else 2
            spn = c.get("n", 1)
            make = (lambda: mk_trans(c["trans"], c["N"], seed)) if "trans" in c else ((lambda: co.Skip(c["skip"])) if "skip" in c else (lambda: mk(c["spec"], seed)))
            spf = lambda sp: tuple(v + (1 if sp else 0) for v in spatial(spn))
            mkx = lambda sd, T, B=2, sp=False: randn(sd, B, ch, T, *spf(sp))
            step = lambda m, x, t, **kw: m.forward_step(given(x[:, :, t]), **kw)
            fstep = lambda m, x, t, st: m._forward_step(given(x[:, :, t]), st)
            fwd = lambda m, x: m.forward(x)
            offT = c["N"] if "trans" in c else (c["skip"] + 2 if "skip" in c else meta(c["spec"])[2] + 2)
        x, y = mkx(seed + 1, h), mkx(seed + 50, T)
        what = c["what"]
        m = make()
        if what == "clean":
            for t in range(h):
                step(m, x, t)
            m.clean_state()
            y = mkx(seed + 50, T, B=3, sp=True)
            ref = make()
            for t in range(T):
                same(_one(step(m, y, t)), _one(step(ref, y, t)), f"step {t} after cleaning", 1e-7)
            ref2 = make()
            m.clean_state()
            m.clean_state()
            z = mkx(seed + 70, T, B=1)
            for t in range(T):
                same(_one(step(m, z, t)), _one(step(ref2, z, t)), f"step {t} after cleaning again", 1e-7)
        elif what == "state":
            for t in range(h):
                step(m, x, t)
            st = m.get_state()
            if st is None and "spec" in c and meta(c["spec"])[2] == 1 and c["spec"]["k"] not in ("rnn", "pe"):
                return  # stateless
            need(st is not None, "no state after streaming")
            st = clone_state(st)
            ref = dup(m, make)
            z = mkx(seed + 60, 5)
            for t in range(5):
                step(m, z, t)
            if seed % 2:
                m.clean_state()
            m.set_state(clone_state(st))
            fresh = make()
            fresh.set_state(clone_state(st))
            for t in range(T):
                e = _snap(step(ref, y, t))
                same(_one(step(m, y, t)), e, f"step {t} after restoring the state", 1e-7)
                same(_one(step(fresh, y, t)), e, f"step {t} of a fresh module given the state", 1e-7)
        elif what == "functional":
            ref = make()
            other = mkx(seed + 60, 4)
            for t in range(4):  # the module's own state must not matter nor change
                step(m, other, t)
            keep = dup(m, make)
            st = None
            for t in range(T):
                a, st = fstep(m, y, t, st)
                same(_one(a), _one(step(ref, y, t)), f"functional step {t}", 1e-7)
            for t in range(min(h, 4)):
                same(_one(step(m, x, t)), _one(step(keep, x, t)), f"stateful step {t} after functional steps", 1e-7)
        elif what == "offline":
            ref = make()
            pe = "spec" in c and specs.count_leaf(c["spec"], "pe")
            for t in range(T):
                if t % 3 == h % 3:
                    z = mkx(seed + t, offT, B=1)
                    fresh = make()
                    a, b = _first(fwd(m, z)), _first(fwd(fresh, z))
                    if not pe:  # the positional encoding documents that its position is shared
                        same(a, b, f"whole-sequence call before step {t}", 1e-7)
                same(_one(step(m, y, t)), _one(step(ref, y, t)), f"step {t} with whole-sequence calls in between", 1e-7)
        elif what == "sd":
            before = {k: v.clone() for k, v in m.state_dict().items()}
            names = {k for k, _ in m.named_parameters()} | {k for k in before if k.split(".")[-1] in ("running_mean", "running_var", "num_batches_tracked", "pattern")}
            need(set(before) == names, f"saved parameters contain {sorted(set(before) ^ names)[:3]}")
            for t in range(h):
                step(m, x, t)
            after = m.state_dict()
            need(list(after) == list(before), f"saved parameters changed by streaming: {sorted(set(after) ^ set(before))[:3]}")
            for k in before:
                same(after[k].double(), before[k].double(), f"saved parameter {k}")
            ref = dup(m, make)
            m.load_state_dict(before)
            for t in range(T):
                same(_one(step(m, y, t)), _one(step(ref, y, t)), f"step {t} after loading parameters", 1e-7)


STATEFUL_LEAF = {"conv", "avg", "max", "delay", "rnn"}


def _first(o):
    return o[0] if isinstance(o, tuple) else o


# =====================================================================  C07
class C07(Prop):
    def cases(self, rng, tier):
        cv = lambda ks, s=1, p=0, n=1: dict(k="conv", n=n, ci=2, co=2, ks=[ks] + [3] * (n - 1), s=[s] + [1] * (n - 1), p=[p] + [1] * (n - 1))
        for ms in [[cv(3), cv(3)], [cv(3, 1, 1), cv(3, 1, 1)], [cv(3, 2), cv(3, 1, 1)], [cv(2, 2, 1), cv(2, 3, 0), cv(3, 1, 2)], [cv(1, 3), cv(2)], [cv(3, 1, 2), cv(1, 2), cv(2, 2, 1)],
                   [cv(3), dict(k="relu"), dict(k="bn", n=1, c=2), cv(2)], [cv(2), dict(k="delay", d=3), cv(2, 2)], [dict(k="delay", d=2), cv(3, 2), dict(k="rnn", cell="LSTM", ci=2, co=2), cv(2)],
                   [dict(k="avg", n=1, ks=[2], s=[2], p=[0], d=1), dict(k="max", n=1, ks=[2], s=[1], p=[1], d=1)], [dict(k="rnn", cell="GRU", ci=2, co=2)], [dict(k="relu")]]:
            for style in ("args", "named", "append"):
                yield dict(spec=dict(k="seq", m=ms, style=style), n=1, extra=9, seed=len(ms))
            yield dict(spec=dict(k="seq", m=[dict(k="seq", m=ms[:1], style="named"), dict(k="seq", m=ms[1:] or ms, style="args")], style="args"), n=1, extra=7, seed=2)
        yield dict(spec=dict(k="seq", m=[cv(3, 1, 1, 3), dict(k="relu"), cv(2, 2, 0, 3)], style="args"), n=3, extra=7, seed=1)
        for style in ("args", "named", "append"):  # more than ten parts: their order is not that of their names
            yield dict(spec=dict(k="seq", m=[[cv(2), dict(k="sigmoid"), dict(k="add", v=1.5), dict(k="mul", v=0.5), cv(1)][i % 5] for i in range(13)], style=style), n=1, extra=5, seed=13)
        yield dict(spec=dict(k="seq", m=[cv(2), dict(k="par", m=[cv(3, 1, 1), dict(k="delay", d=1)], m2=[cv(1), dict(k="delay", d=2)], map=[1, 0], r="sum"), cv(2)], style="args"), n=1, extra=7, seed=1)
        for _ in range(510 if tier == "quick" else 3000):
            n = rng.choice([1, 1, 1, 2, 3])
            m = [rnd_net(rng, n, 2, depth=rng.randint(0, 2), par_ok=rng.random() < 0.3, rnn_ok=True) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.2 and n == 1:
                m.insert(rng.randint(0, len(m)), dict(k="rnn", cell=rng.choice(["RNN", "GRU", "LSTM"]), ci=2, co=2))
            s = dict(k="seq", m=m, style=rng.choice(["args", "named", "append"]))
            if meta(s)[2] > 60 or (n == 3 and meta(s)[2] > 20):
                continue
            yield dict(spec=s, n=n, extra=rng.randint(1, 3 * meta(s)[1] + 4), seed=rng.randint(0, 10**6))

    def run(self, c):
        s = c["spec"]
        m = mk(s, c["seed"])
        d, st, rf, p = meta(s)
        T = max(rf, d + 1) + c["extra"]
        x = randn(c["seed"] + 1, 2, 2, T, *spatial(c["n"]))
        off = oracle(s, m, x)
        same(m.forward(x), off, "whole-sequence output")
        same(m(x), off, "call")
        expect_stream(steps(m, x), off, d, st)
        m.clean_state()
        outs = steps(m, x)
        m.clean_state()
        same(m.forward_steps(x), emitted(outs), "multi-step output")
        # functional mode
        stt, exp = None, outs
        for t in range(T):
            o, stt = m._forward_step(given(x[:, :, t]), stt)
            same(o, exp[t], f"functional step {t}")


# =====================================================================  C08
class C08(Prop):
    def cases(self, rng, tier):
        cv = lambda ks, p=0, n=1, co=2: dict(k="conv", n=n, ci=2, co=co, ks=[ks] + [3] * (n - 1), s=[1] * n, p=[p] + [1] * (n - 1))
        combos = [[cv(3, 1), cv(5, 2)], [cv(1), cv(3, 1), cv(5, 2)], [cv(5, 2), cv(1)], [dict(k="delay", d=2), cv(3, 1)], [cv(3, 1), dict(k="delay", d=0)], [cv(3), cv(3)], [cv(3), cv(5, 1), cv(7, 2)],
                  [dict(k="seq", m=[cv(3, 1), dict(k="relu"), cv(3, 1)], style="args"), cv(1), cv(3, 1)], [dict(k="identity"), cv(3, 1)], [cv(7, 3), dict(k="identity"), dict(k="delay", d=5)],
                  [dict(k="avg", n=1, ks=[3], s=[1], p=[1], d=1), cv(5, 2), dict(k="max", n=1, ks=[3], s=[1], p=[1], d=1)]]
        for i, ms in enumerate(combos):
            for r in ("sum", "concat", "mul", "max", "custom"):
                for k in ("bcr", "par"):
                    yield dict(spec=dict(k=k, m=ms, r=r, style="named" if i % 2 else "args", num=i % 3 == 0), n=1, extra=8, seed=i)
        yield dict(spec=dict(k="bcr", m=[cv(3, 1, 1, 3), cv(5, 2, 1, 1)], r="concat"), n=1, extra=6, seed=1)
        for k in ("bcr", "par"):
            for style in ("args", "named"):  # more than ten branches: their order is not that of their names
                for num in (4, 5, 12):
                    yield dict(spec=dict(k=k, m=[[cv(3, 1), cv(1), dict(k="identity"), cv(7, 3), cv(5, 2)][i % 5] for i in range(num)], r="concat", style=style, num=style == "args"), n=1, extra=6, seed=num)
                    yield dict(spec=dict(k=k, m=[[cv(1), cv(5, 2), cv(3, 1)][i % 3] for i in range(num)], r="sum", style=style, num=style == "args"), n=1, extra=6, seed=num)
        for m2 in ([cv(1), dict(k="identity")], [cv(3, 1), dict(k="delay", d=1), dict(k="add", v=2.0)], [cv(3, 1), cv(5, 2)]):
            yield dict(spec=dict(k="par", m=[cv(3, 1), dict(k="delay", d=1)], m2=m2, map=[1, 0, 1][:len(m2)], r="sum"), n=1, extra=6, seed=2)
        for ks, p in [(1, 0), (3, 1), (5, 2), (3, 0), (5, 0), (7, 0), (2, 0), (4, 0)]:
            for r in ("sum", "mul", "max"):
                if ks == 2 * p + 1:
                    yield dict(spec=dict(k="res", m=cv(ks, p), r=r), n=1, extra=7, seed=ks)
                else:
                    for sh in (["lagging", "leading"] + ([True, "centered"] if ks % 2 else [])):
                        yield dict(spec=dict(k="res", m=cv(ks, p), r=r, shrink=sh), n=1, extra=7, seed=ks)
        yield dict(spec=dict(k="res", m=dict(k="seq", m=[cv(3), cv(3)], style="args"), r="sum", shrink=True), n=1, extra=7, seed=3)
        yield dict(spec=dict(k="res", m=dict(k="res", m=cv(3, 1), r="sum"), r="mul"), n=1, extra=7, seed=3)
        for _ in range(450 if tier == "quick" else 3000):
            n = rng.choice([1, 1, 2, 3])
            for _ in range(20):
                s = rnd_net(rng, n, 2, depth=rng.randint(1, 3), stride_ok=False)
                if s["k"] in ("res", "bcr", "par"):
                    break
            else:
                continue
            if meta(s)[2] > 50 or (n == 3 and meta(s)[2] > 16):
                continue
            yield dict(spec=s, n=n, extra=rng.randint(1, 8), seed=rng.randint(0, 10**6))

    def run(self, c):
        s = c["spec"]
        m = mk(s, c["seed"])
        d, st, rf, p = meta(s)
        T = max(rf, d + 1) + c["extra"]
        x = randn(c["seed"] + 1, 2, 2, T, *spatial(c["n"]))
        off = oracle(s, m, x)
        same(m.forward(x), off, "whole-sequence output")
        outs = steps(m, x)
        expect_stream(outs, off, d, st)
        m.clean_state()
        same(m.forward_steps(x), emitted(outs), "multi-step output")
        stt = None
        for t in range(T):
            o, stt = m._forward_step(given(x[:, :, t]), stt)
            same(o, outs[t], f"functional step {t}")


# =====================================================================  C09
def rnd_mapping(rng, n, depth):
    out = []
    for _ in range(rng.randint(1, 4)):
        if depth > 0 and rng.random() < 0.3:
            out.append(rnd_mapping(rng, n, depth - 1))
        else:
            out.append(rng.randint(0, n - 1))
    return out


class C09(Prop):
    def cases(self, rng, tier):
        for n in (1, 2, 5):
            for num in (None, n):
                yield dict(f="route", n=n, mapping=list(range(n)), num=num, r="sum", seed=n)
        for mp in ([1, 0], [0, 0, 1], [[0, 0], 1], [[0, 1], 2], [[[0]], 1, [2, [1, 0]]], [2, 1, 0], [-1, 0], [[], 0]):
            yield dict(f="dispatch", n=3, mapping=mp, tup=False, seed=1)
            yield dict(f="dispatch", n=3, mapping=mp, tup=True, seed=1)
        for r in ("sum", "concat", "mul", "max", "custom"):
            for n in (2, 3, 4, 12):
                yield dict(f="reduce", n=n, r=r, seed=n)
        yield dict(f="dispatch", n=12, mapping=list(range(11, -1, -1)), tup=False, seed=1)
        yield dict(f="route", n=12, mapping=list(range(11, -1, -1)), num=12, r="sum", seed=1)
        for n in (1, 2, 4, 12):
            for pre in (0, 2):
                yield dict(f="infer", n=n, pre=pre, seed=n)
            yield dict(f="broadcast", n=n, seed=n)
            yield dict(f="parallel", n=n, seed=n)
        for _ in range(360 if tier == "quick" else 2000):
            f = rng.choice(["dispatch", "route", "route", "parallel", "reduce"])
            n = rng.randint(2, 5)
            yield dict(f=f, n=n, mapping=rnd_mapping(rng, n, 0 if f == "route" else 2), tup=rng.random() < 0.3, num=rng.choice([None, n]), r=rng.choice(["sum", "concat", "mul", "max", "custom"]), seed=rng.randint(0, 10**5))

    def run(self, c):
        n, T = c["n"], 4
        xs = [randn(c["seed"] * 31 + i, 2, 3, T) for i in range(n)]
        st = [[x[:, :, t] for x in xs] for t in range(T)]

        def modes(m, inp, stp, flat=lambda o: o):
            """(name, input, result) of all modes"""
            yield "whole-sequence", inp, m.forward(inp)
            yield "multi-step", inp, m.forward_steps(inp)
            yield "multi-step without update", inp, m.forward_steps(inp, update_state=False)
            for t in range(T):
                yield "single-step", stp[t], m.forward_step(stp[t])
                yield "single-step without update", stp[t], m.forward_step(stp[t], update_state=False)
                yield "functional", stp[t], m._forward_step(stp[t], None)[0]
            with co.call_mode("forward_step"):
                yield "called in step mode", stp[0], m(stp[0])

        def eq(a, b, what):
            if isinstance(b, (list, tuple)):
                need(isinstance(a, (list, tuple)) and len(a) == len(b), f"{what}: expected {len(b)} streams, got {_desc(a)}")
                for i, (u, v) in enumerate(zip(a, b)):
                    eq(u, v, f"{what}[{i}]")
            else:
                same(a, b, what)

        if c["f"] == "dispatch":
            tup = lambda mp: (tuple if c["tup"] else list)(tup(v) if isinstance(v, list) else v for v in mp)
            m = co.ParallelDispatch(tup(c["mapping"]))
            ref = lambda mp, s: [ref(v, s) for v in mp] if isinstance(mp, list) else s[mp]
            for name, i, o in modes(m, xs, st):
                eq(o, ref(c["mapping"], i), name)
        elif c["f"] == "infer":
            m = co.Sequential(*[co.Identity() for _ in range(c["pre"])], co.Broadcast(), co.Parallel(*[co.Multiply(i + 1) for i in range(n)]))
            for name, i, o in modes(m, xs[0], [s[0] for s in st]):
                eq(o, [i * (q + 1) for q in range(n)], name)
        elif c["f"] == "broadcast":
            m = co.Broadcast(n)
            for name, i, o in modes(m, xs[0], [s[0] for s in st]):
                eq(o, [i] * n, name)
        elif c["f"] == "reduce":
            m = co.Reduce(specs._red(c["r"]))
            for name, i, o in modes(m, xs, st):
                eq(o, specs.REDUCE[c["r"]](i), name)
            m = co.Reduce(specs._red(c["r"]))
            if n > 1:
                need(m.forward_step([st[0][0]] + [None] * (n - 1)) is None, "reduce of an incomplete set of streams must yield nothing")
                need(m._forward_step([None] + st[0][1:], None)[0] is None, "functional reduce of an incomplete set of streams must yield nothing")
        elif c["f"] == "parallel":
            ms = [co.Add(float(i + 1)) if i % 2 else co.Multiply(float(i + 2)) for i in range(n)]
            m = co.Parallel(*ms)
            for name, i, o in modes(m, xs, st):
                eq(o, [v + float(j + 1) if j % 2 else v * float(j + 2) for j, v in enumerate(i)], name)
        else:
            mp = c["mapping"]
            k = len(mp)
            net = co.Sequential(co.Broadcast(c["num"]), co.Parallel(*[co.Add(float(i + 1)) for i in range(n)]), co.ParallelDispatch(mp), co.Parallel(*[co.Multiply(float(i + 2)) for i in range(k)]),
                                *([co.Reduce(specs._red(c["r"]))] if k > 1 else []))
            def ref(x):
                o = [(x + float(j + 1)) * float(i + 2) for i, j in enumerate(mp)]
                return specs.REDUCE[c["r"]](o) if k > 1 else o
            for name, i, o in modes(net, xs[0], [s[0] for s in st]):
                eq(o, ref(i), name)


def _desc(a):
    return f"{type(a).__name__} of length {len(a)}" if isinstance(a, (list, tuple)) else str(type(a).__name__)


# =====================================================================  C10
SMOOTH = ["conv", "conv", "avg", "delay", "sigmoid", "linear", "lambda"]


def smooth_net(rng, n, depth, stride_ok=True, shrink=None):
    r = rng.random()
    if depth <= 0 or r < 0.3:
        s = rnd_leaf(rng, n, 2, stride_ok, shrink, True, SMOOTH)
        return s
    if r < 0.7:
        m, left, cnt = [], shrink, rng.randint(1, 3)
        for i in range(cnt):
            sh = None
            if shrink is not None:
                sh = left if i == cnt - 1 else rng.randint(0, left)
                left -= sh
            m.append(smooth_net(rng, n, depth - 1, stride_ok, sh))
        return dict(k="seq", m=m, style=rng.choice(["args", "named"]))
    sh = shrink if shrink is not None else rng.choice([0, 0, 1, 2])
    if r < 0.8 and sh == 0:
        return dict(k="res", m=coseq(smooth_net(rng, n, depth - 1, False, 0)), r="sum")
    ms = [coseq(smooth_net(rng, n, depth - 1, False, sh)) for _ in range(rng.randint(2, 3))]
    if r < 0.92 or sh != 0:
        return dict(k=rng.choice(["bcr", "par"]), m=ms, r="sum")
    return dict(k="cond", t=ms[0], f=ms[1], pred=rng.choice(["true", "false"]))


class C10(Prop):
    def cases(self, rng, tier):
        for d in (1, 2, 3, 5):
            for what in ("lagging", "select", "retro"):
                yield dict(f="first", what=what, d=d, seed=1)
        # modules of which the advertised delay is a lag (what alignment needs), not the wait for the first output
        for d in (1, 3):
            yield dict(f="first", what="skip", d=d, seed=1)
        for d in (2, 4):
            yield dict(f="first", what="centered", d=d, seed=1)
        for what in ("lagging", "select", "retro", "skip", "centered"):
            for d in (2, 4):
                yield dict(f="rf", what=what, d=d, seed=1)
        for ks, p, s in [(1, 0, 1), (1, 0, 3), (2, 1, 1), (3, 0, 2), (3, 1, 1), (3, 2, 2), (5, 2, 3)]:
            yield dict(spec=dict(k="conv", n=1, ci=2, co=2, ks=[ks], s=[s], p=[p]), n=1, seed=1)
            if p <= ks // 2:
                for d in (1, 2, 3):
                    yield dict(spec=dict(k="avg", n=1, ks=[ks], s=[s], p=[p], d=d), n=1, seed=1)
                    yield dict(spec=dict(k="max", n=1, ks=[ks], s=[s], p=[p], d=d), n=1, seed=1)
        for d in (0, 1, 4):
            yield dict(spec=dict(k="delay", d=d), n=1, seed=1)
        cv = lambda ks, s=1, p=0: dict(k="conv", n=1, ci=2, co=2, ks=[ks], s=[s], p=[p])
        for ms in [[cv(3, 2), cv(3, 2)], [cv(3, 2, 1), cv(5, 1, 2), cv(2, 3)], [cv(1, 3), cv(4, 1, 1)], [cv(3), dict(k="delay", d=2), cv(3, 2, 2)], [dict(k="relu"), cv(3)], [cv(2, 2), dict(k="rnn", cell="GRU", ci=2, co=2), dict(k="delay", d=1)]]:
            yield dict(spec=dict(k="seq", m=ms, style="args"), n=1, seed=2)
            yield dict(spec=dict(k="seq", m=[dict(k="seq", m=ms, style="args"), cv(3, 1, 1)], style="named"), n=1, seed=2)
        yield dict(spec=dict(k="bcr", m=[cv(3, 1, 1), cv(5, 1, 2)], r="sum"), n=1, seed=3)
        yield dict(spec=dict(k="par", m=[cv(3, 1, 1), cv(5, 1, 2), dict(k="delay", d=4)], r="sum"), n=1, seed=3)
        yield dict(spec=dict(k="bcr", m=[cv(3, 2, 1), cv(3, 2, 1)], r="sum"), n=1, seed=3)
        for pr in ("true", "false"):
            yield dict(spec=dict(k="cond", t=cv(5, 1, 2), f=cv(3, 1, 1), pred=pr), n=1, seed=3)
            yield dict(spec=dict(k="cond", t=cv(3, 1, 1), f=dict(k="delay", d=3), pred=pr), n=1, seed=3)
        for _ in range(420 if tier == "quick" else 2500):
            n = rng.choice([1, 1, 2])
            s = coseq(smooth_net(rng, n, rng.randint(0, 3)))
            if meta(s)[2] > 50:
                continue
            yield dict(spec=s, n=n, seed=rng.randint(0, 10**6))

    def run(self, c):
        if c.get("f") in ("first", "rf"):
            return self.first(c)
        s = c["spec"]
        m = mk(s, c["seed"])
        d, st, rf, p = meta(s)
        has_rnn = specs.count_leaf(s, "rnn") > 0
        gets = lambda v: v[0] if isinstance(v, (tuple, list)) else v
        need(int(m.delay) == d, f"delay is {m.delay}, first output needs {d} steps")
        need(int(gets(m.stride)) == st, f"stride is {m.stride}, actual {st}")
        _, _, arf, ap = specs.adv(s)
        need(int(m.receptive_field) == arf, f"receptive_field is {m.receptive_field}, actual {arf}")
        if specs.count_leaf(s, "cond") == 0:
            need(int(gets(m.padding)) == ap, f"padding is {m.padding}, actual {ap}")
        # behaviour
        T = rf + d + 3 * st + 2
        x = randn(c["seed"] + 1, 1, 2, T, *spatial(c["n"]))
        outs = steps(m, x)
        em = [t for t, o in enumerate(outs) if o is not None]
        need(em == list(range(d, T, st)), f"outputs at steps {em[:6]} instead of {list(range(d, T, st))[:6]}")
        last = em[-1]
        if not has_rnn and last - rf >= 0:
            x2 = x.clone()
            x2[:, :, : last - rf + 1] += randn(c["seed"] + 2, 1, 2, last - rf + 1, *spatial(c["n"]))
            m.clean_state()
            same(steps(m, x2)[last], outs[last], f"output at step {last} after changing inputs older than the receptive field")
            if specs.count_leaf(s, "max") == 0 and specs.adv(s) == meta(s):
                x3 = x.clone()
                x3[:, :, last - rf + 1] += randn(c["seed"] + 3, *x3[:, :, 0].shape)
                m.clean_state()
                o = steps(m, x3)[last]
                need(not torch.allclose(o, outs[last], rtol=0, atol=1e-13) or _vanishes(s), f"output at step {last} ignores the oldest input of the receptive field")
        # warm-up (single precision by construction)
        if not has_rnn and st == 1 or s["k"] in ("conv", "avg"):
            w = build(s).eval().float()
            w.warm_up((1, 2, *spatial(c["n"])))
            o = w.forward_step(x[:, :, 0].float())
            need(isinstance(o, torch.Tensor), "no output directly after warm_up")
            if d > 0:
                w.clean_state()
                for t in range(d):
                    need(w.forward_step(x[:, :, t].float()) is None, f"output at step {t} although the delay is {d}")


    def first(self, c):
        """the advertised delay against the step of the first output, and the period of those after"""
        from continual import transformer as tr
        d, w = c["d"], c["what"]
        m = dict(lagging=lambda: co.Delay(d, auto_shrink="lagging"), centered=lambda: co.Delay(d, auto_shrink=True), skip=lambda: co.Skip(d), select=lambda: tr.SelectOrDelay(d), retro=lambda: tr.RetroactiveUnity(d, time_dim=2))[w]()
        T = 3 * d + 4
        x = randn(c["seed"], 1, 2, T)
        if c["f"] == "rf":
            last = steps(m, x)[-1]
            ages = []
            for a in range(T):
                z = x.clone()
                z[:, :, T - 1 - a] += 1.0
                m.clean_state()
                o = steps(m, z)[-1]
                if o.shape != last.shape or not torch.equal(o, last):
                    ages.append(a)
            need(ages and max(ages) + 1 == int(m.receptive_field), f"{w}({d}): receptive field {int(m.receptive_field)} is advertised, the output depends on inputs {ages} steps back")
            return
        em = [t for t, o in enumerate(steps(m, x)) if o is not None]
        need(em and em == list(range(int(m.delay), T)), f"{w}({d}): delay {int(m.delay)} is advertised, outputs at steps {em[:4]}...")


def _vanishes(s):
    """sigmoid stacks may saturate numerically"""
    return specs.count_leaf(s, "sigmoid") > 1


# =====================================================================  C11
class C11(Prop):
    def cases(self, rng, tier):
        cv = lambda ks, p=0: dict(k="conv", n=1, ci=2, co=2, ks=[ks], s=[1], p=[p])
        for t, f in [(cv(3, 1), None), (cv(3, 1), cv(5, 2)), (cv(5, 2), cv(3, 1)), (dict(k="relu"), None), (cv(3, 1), dict(k="delay", d=3)), (dict(k="rnn", cell="GRU", ci=2, co=2), cv(3, 1)), (dict(k="sigmoid"), dict(k="softmax")), (dict(k="pe", c=2, ne=60), cv(3, 1))]:
            for sched in ("t", "f", "tf", "ft", "tft"):
                yield dict(t=t, f=f, sched=sched, seg=7, seed=3)
        for _ in range(330 if tier == "quick" else 2000):
            t = rnd_net(rng, 1, 2, rng.randint(0, 2), False, 0)
            f = rng.choice([None, rnd_net(rng, 1, 2, rng.randint(0, 2), False, 0)])
            if meta(t)[2] > 30 or (f and meta(f)[2] > 30):
                continue
            yield dict(t=t, f=f, sched=rng.choice(["t", "f", "tf", "ftf"]), seg=rng.randint(3, 14), seed=rng.randint(0, 10**6))

    def run(self, c):
        flag, calls = [True], []

        def pred(mod, x):
            calls.append((mod, x))
            return flag[0]

        mk_t = lambda: rand_weights(build(c["t"]), c["seed"]).eval()
        mk_f = lambda: rand_weights(build(c["f"]), c["seed"] + 1).eval() if c["f"] else None
        tm, fm = mk_t(), mk_f()
        t_ref, f_ref = mk_t(), mk_f()
        m = co.Conditional(pred, tm, fm) if fm is not None else co.Conditional(pred, tm)
        m.eval()
        t_ref = t_ref if isinstance(t_ref, co.CoModule) else co.continual(t_ref)
        dt, df = meta(c["t"])[0], meta(c["f"])[0] if c["f"] else 0
        D = max(dt, df)
        need(m.delay == D, f"delay is {m.delay} instead of {D}")

        def delayed(r, d):
            return co.Sequential(co.Delay(D - d), r).eval() if d < D else r

        refs = {True: delayed(t_ref, dt)}
        if fm is not None:
            f_ref = f_ref if isinstance(f_ref, co.CoModule) else co.continual(f_ref)
            refs[False] = delayed(f_ref, df)
        L = c["seg"] * len(c["sched"])
        x = randn(c["seed"] + 2, 2, 2, L + 8)

        def ref_call(sel, mode, *a, **kw):
            if sel not in refs:
                return a[0]
            o = getattr(refs[sel], mode)(*a, **kw)
            return o[0] if mode == "forward" and isinstance(o, tuple) else o

        # whole-sequence mode
        for sel in (True, False):
            flag[0] = sel
            calls.clear()
            xx = x[:, :, : D * 2 + 6]
            same(m.forward(xx), ref_call(sel, "forward", xx), f"whole-sequence, predicate {sel}")
            need(len(calls) >= 1 and all(a is m and b is xx for a, b in calls), "predicate not evaluated on (module, input)")
        # streaming; switching branches between segments must not disturb the other branch
        t = 0
        for i, sg in enumerate(c["sched"]):
            flag[0] = sg == "t"
            for j in range(c["seg"]):
                xi = x[:, :, t]
                calls.clear()
                if j % 4 == 1:
                    same(m.forward_step(xi, update_state=False), ref_call(flag[0], "forward_step", xi, update_state=False), f"non-updating step {t}")
                if j % 4 == 2:
                    z = x[:, :, t:t + 3]
                    same(m.forward_steps(z, update_state=False), ref_call(flag[0], "forward_steps", z, update_state=False), f"non-updating multi-step at {t}")
                    if c["t"]["k"] not in ("seq", "res", "bcr", "par", "cond") and (not c["f"] or c["f"]["k"] not in ("seq", "res", "bcr", "par", "cond")):
                        same(m.forward_steps(z, pad_end=True, update_state=False), ref_call(flag[0], "forward_steps", z, pad_end=True, update_state=False), f"end-padded multi-step at {t}")
                if j % 4 == 3:
                    z = x[:, :, t:t + 1]
                    same(m.forward_steps(z), ref_call(flag[0], "forward_steps", z), f"multi-step at {t}")
                else:
                    same(m.forward_step(xi), ref_call(flag[0], "forward_step", xi), f"step {t}, predicate {flag[0]}")
                need(calls and all(a is m for a, _ in calls), "predicate not evaluated on the module")
                t += 1
        # functional mode
        st, rst = None, {True: None, False: None}
        t = 0
        for sg in c["sched"]:
            flag[0] = sg == "t"
            for j in range(c["seg"]):
                xi = given(x[:, :, t])
                o, st = m._forward_step(xi, st)
                if flag[0] in refs:
                    e, rst[flag[0]] = refs[flag[0]]._forward_step(xi, rst[flag[0]])
                else:
                    e = xi
                same(o, e, f"functional step {t}, predicate {flag[0]}")
                t += 1
        # cleaning
        m.clean_state()
        for r in refs.values():
            r.clean_state()
        x3 = randn(c["seed"] + 3, 3, 2, 6)
        for sel in (True, False):
            flag[0] = sel
            for t in range(6):
                same(m.forward_step(x3[:, :, t]), ref_call(sel, "forward_step", x3[:, :, t]), f"step {t} after cleaning, predicate {sel}")


# =====================================================================  C12
class C12(Prop):
    def cases(self, rng, tier):
        for cell in ("RNN", "GRU", "LSTM"):
            for l in (1, 2, 3):
                for b in (True, False):
                    yield dict(cell=cell, i=2, h=3, l=l, b=b, B=2, T=7, chunks=[1, 3, -2, 1], init=(l == 2), nl="tanh", seed=l)
            yield dict(cell=cell, i=3, h=1, l=1, b=True, B=1, T=5, chunks=[5], init=False, nl="relu", seed=1)
            for how in ("bare", "pos"):
                yield dict(cell=cell, i=2, h=3, l=1, b=True, B=2, T=5, chunks=[2, 3], init=True, nl="tanh", seed=3, how=how)
                yield dict(cell=cell, i=2, h=3, l=2, b=False, B=2, T=5, chunks=[2, 3], init=True, nl="relu", seed=4, how=how, drop=0.5)
        for l in (1, 2):
            yield dict(cell="LSTM", i=2, h=4, l=l, b=True, B=2, T=5, chunks=[2, 3], init=l == 2, nl="tanh", seed=5, proj=2)
            yield dict(cell="LSTM", i=2, h=4, l=l, b=False, B=2, T=5, chunks=[1, 4], init=l == 1, nl="tanh", seed=5, proj=3, how="pos")
        for _ in range(360 if tier == "quick" else 2000):
            T = rng.randint(1, 12)
            yield dict(cell=rng.choice(["RNN", "GRU", "LSTM"]), i=rng.randint(1, 4), h=rng.randint(1, 4), l=rng.randint(1, 3), b=rng.random() < 0.7, B=rng.randint(1, 3), T=T, chunks=rsplit(rng, T), init=rng.random() < 0.5,
                       nl=rng.choice(["tanh", "relu"]), seed=rng.randint(0, 10**6))

    def run(self, c):
        kw = dict(nonlinearity=c["nl"]) if c["cell"] == "RNN" else {}
        cls, how, drop, proj = getattr(co, c["cell"]), c.get("how"), c.get("drop", 0.0), c.get("proj", 0)
        if how == "bare":  # defaults are left out
            own = dict(num_layers=c["l"], bias=c["b"], dropout=drop, **kw)
            m = cls(c["i"], c["h"], **{k: v for k, v in own.items() if v != dict(num_layers=1, bias=True, dropout=0.0, nonlinearity="tanh")[k]})
        elif how == "pos":
            m = cls(c["i"], c["h"], c["l"], *kw.values(), c["b"], drop, *([proj] if c["cell"] == "LSTM" else []))
        else:
            m = cls(c["i"], c["h"], c["l"], bias=c["b"], **kw, **(dict(proj_size=proj) if proj else {}))
        m = rand_weights(m, c["seed"]).eval()
        ref = getattr(nn, c["cell"])(c["i"], c["h"], c["l"], bias=c["b"], batch_first=True, dropout=drop, **kw, **(dict(proj_size=proj) if proj else {})).eval().double()
        ref.load_state_dict(m.state_dict())
        x = randn(c["seed"] + 1, c["B"], c["i"], c["T"] + 2)
        need(m.dropout == drop, f"dropout {m.dropout}, given {drop}")
        hx = None
        if c["init"]:
            hx = randn(c["seed"] + 2, c["l"], c["B"], proj or c["h"])
            if c["cell"] == "LSTM":
                hx = (hx, randn(c["seed"] + 3, c["l"], c["B"], c["h"]))
        eo, eh = ref(x.transpose(1, 2), hx)
        eo = eo.transpose(1, 2)
        o, h = m.forward(x, hx)
        same(o, eo, "whole-sequence output")
        self.heq(h, eh, "whole-sequence final hidden state")
        if hx is not None:
            m.set_state(hx)
        T = c["T"]
        _, eh = ref(x[:, :, :T].transpose(1, 2), hx)
        same(run_chunks(m, x[:, :, :T], c["chunks"]), eo[:, :, :T], "streamed output")
        st = m.get_state()
        self.heq(st if c["cell"] == "LSTM" else st[0], eh, "hidden state after streaming")
        same(m.forward_step(x[:, :, T], update_state=False), eo[:, :, T], "non-updating step")
        same(m.forward_steps(x[:, :, T:], update_state=False), eo[:, :, T:], "non-updating multi-step")
        m.forward(x)  # must not disturb
        same(m.forward_step(x[:, :, T]), eo[:, :, T], "next step")
        same(m.forward_steps(x[:, :, T + 1:], pad_end=True), eo[:, :, T + 1:], "next multi-step")
        st = (hx,) if c["cell"] != "LSTM" and hx is not None else hx
        for t in range(T):
            o, st = m._forward_step(x[:, :, t], st)
            same(o, eo[:, :, t], f"functional step {t}")

    def heq(self, a, b, what):
        if isinstance(b, tuple):
            need(isinstance(a, (tuple, list)) and len(a) == len(b), f"{what}: wrong structure")
            for u, v in zip(a, b):
                same(u, v, what)
        else:
            same(a, b, what)


# =====================================================================  C13 / C14
LAYS = [(False, False), (True, False), (True, True)]


class MhaProp(Prop):
    kind = None

    def cases(self, rng, tier):
        for N in (1, 2, 3, 6):
            for lay in LAYS:
                for qi in ([-1] if self.kind == "retro" else sorted({-1, -N, 0, N - 1, N // 2, -(N + 1) // 2})):
                    for qkv in (True, False):
                        yield dict(mha=self.kind, N=N, E=4, H=2, lay=lay, b=N != 3, B=2, T=3 * N + 4, qi=qi, seed=N, qkv=qkv, sof=qkv)
        for i, lay in enumerate(LAYS):
            for N in (1, 3):
                yield dict(mha=self.kind, N=N, E=4, H=2, lay=lay, b=i != 1, B=2, T=3 * N + 1, qi=-1 if self.kind == "retro" else -N + i % N, seed=N, qkv=True, sof=bool(i), kd=[[3, 5], [4, 2], [6, 6]][i])
        for how in ("bare", "pos"):
            for lay in LAYS:
                for kd in (None, [3, 5]):
                    for b in (True, False):
                        yield dict(mha=self.kind, N=3, E=4, H=2, lay=lay, b=b, B=2, T=8, qi=-1 if self.kind == "retro" or b else 0, seed=2, qkv=True, sof=b, kd=kd, how=how)
        for _ in range(270 if tier == "quick" else 1500):
            N = rng.randint(1, 7)
            H = rng.choice([1, 2, 3])
            qi = rng.randint(-N, N - 1)
            yield dict(mha=self.kind, N=N, E=H * rng.randint(1, 3), H=H, lay=rng.choice(LAYS), b=rng.random() < 0.7, B=rng.randint(1, 3), T=rng.randint(1, 4 * N + 5), qi=qi if self.kind == "single" else -1,
                       seed=rng.randint(0, 10**6), qkv=rng.random() < 0.7, sof=rng.random() < 0.6)

    def run(self, c):
        m = mk_mha(c)
        N, T, E, B = c["N"], c["T"], c["E"], c["B"]
        kd = c.get("kd") or [E, E]
        xs = [randn(c["seed"] + i, B, T + N, [E, *kd][i]) for i in range(3 if c["qkv"] else 1)]
        q, k, v = xs if c["qkv"] else xs * 3
        bf, eds = c["lay"]
        ref = nn.MultiheadAttention(E, c["H"], bias=c["b"], batch_first=True, kdim=kd[0], vdim=kd[1]).double()
        ref.load_state_dict({n: p.clone() for n, p in m.state_dict().items()})
        exp = []
        for t in range(T):
            if t < N - 1:
                exp.append(None)
                continue
            w = slice(t - N + 1, t + 1)
            full = mha_oracle(m, q[:, w], k[:, w], v[:, w])
            if t == N - 1:
                same(ref(q[:, w], k[:, w], v[:, w])[0], full, "internal: attention oracle", 1e-7)
            exp.append(full)
        # whole-sequence mode
        full = mha_oracle(m, q[:, :N], k[:, :N], v[:, :N])
        if self.kind == "single" and c["sof"]:
            full = full[:, [c["qi"]]]
        same(m.forward(*[to_lay(z[:, :N], c["lay"]) for z in xs]), to_lay(full, c["lay"]), "whole-sequence output", 1e-7)
        st = None
        outs = []
        for t in range(T):
            o = m.forward_step(*[z[:, t].clone() for z in xs])
            outs.append(_snap(o))
            same(o, self.row(c, exp[t]), f"step {t}", 1e-7)
        st = None
        for t in range(T):
            o, st = m._forward_step(*[z[:, t].clone() for z in xs], prev_state=st)
            same(o, self.row(c, exp[t]), f"functional step {t}", 1e-7)
        m.clean_state()
        o = m.forward_steps(*[to_lay(z[:, :T], c["lay"]) for z in xs])
        em = [z for z in outs if z is not None]
        if not em:
            need(o is None, "multi-step call before the window is full returned something")
        else:
            same(o, torch.stack(em, steps_dim(c)), "multi-step output", 1e-7)

    def row(self, c, full):
        if full is None:
            return None
        if self.kind == "single":
            return full[:, c["qi"]]
        return to_lay(full, c["lay"])


class C13(MhaProp):
    kind = "retro"


class C14(MhaProp):
    kind = "single"


# =====================================================================  C15
class C15(Prop):
    def cases(self, rng, tier):
        for ne in (1, 2, 5, 9):
            for learned in (True, False):
                for ops in (["s"] * (2 * ne + 3), ["m%d" % ne, "s", "m1", "n", "k%d" % min(ne, 2), "s", "s"], ["f1", "s", "f%d" % ne, "f1", "s", "c", "s", "f1"], ["n", "x", "s", "x", "s", "m1", "c", "m1", "s"]):
                    for fu in (0, 1, 3):
                        yield dict(ne=ne, E=4, learned=learned, fu=fu, ops=ops, seed=ne)
        for _ in range(450 if tier == "quick" else 2500):
            ne = rng.randint(3, 20)
            ops = [rng.choice(["s", "s", "n", "c", "x", "m%d" % rng.randint(1, ne), "k%d" % rng.randint(1, ne), "f%d" % rng.randint(1, ne), "p%d" % rng.randint(1, ne)]) for _ in range(rng.randint(3, 16))]
            yield dict(ne=ne, E=rng.choice([2, 3, 4, 4, 6, 9]), learned=rng.random() < 0.7, fu=rng.randint(0, 2 * ne), ops=ops, seed=rng.randint(0, 10**6))
        for how in ("bare", "pos"):
            for fu in (0, 1, 2):
                for learned in (True, False):
                    yield dict(ne=4, E=3, learned=learned, fu=fu, ops=["s", "f3", "s", "f4", "m2", "s", "k3", "f1", "s"], seed=5, how=how)

    def run(self, c):
        ne, E = c["ne"], c["E"]
        if c.get("how") == "pos":
            m = co.RecyclingPositionalEncoding(E, ne, c["learned"], c["fu"])
        elif c.get("how") == "bare":
            m = co.RecyclingPositionalEncoding(embed_dim=E, num_embeds=ne, **({} if c["learned"] else dict(learned=False)), **({} if c["fu"] == 1 else dict(forward_update_index_steps=c["fu"])))
        else:
            m = co.RecyclingPositionalEncoding(E, ne, learned=c["learned"], forward_update_index_steps=c["fu"])
        if c["learned"]:
            rand_weights(m, c["seed"])
        table = (m.pe.weight if c["learned"] else m.pe.pattern).detach().clone()
        need(tuple(table.shape) == (ne, E), f"embedding table has shape {tuple(table.shape)}")
        pos, fpos, fst = 0, 0, None
        for i, op in enumerate(c["ops"]):
            k = int(op[1:] or 1)
            x = randn(c["seed"] + i, 2, E, k).to(torch.float64)
            if op[0] in "mkfp":
                e = x + torch.stack([table[(pos + j) % ne] for j in range(k)], 1).unsqueeze(0)
                if op[0] == "f":
                    o, pos = m.forward(x), pos + c["fu"]
                elif op[0] == "k":
                    o = m.forward_steps(x, update_state=False)
                else:
                    o, pos = m.forward_steps(x, pad_end=op[0] == "p"), pos + k
            elif op == "c":
                m.clean_state()
                pos = 0
                continue
            elif op == "x":
                e = x[:, :, 0] + table[fpos % ne]
                o, fst = m._forward_step(x[:, :, 0], fst)
                fpos += 1
            else:
                e = x[:, :, 0] + table[pos % ne]
                o = m.forward_step(x[:, :, 0], update_state=op == "s")
                pos += op == "s"
            same(o, e, f"operation {i} ({op})")


# =====================================================================  C16
class C16(Prop):
    def cases(self, rng, tier):
        for N in (1, 2, 4):
            for act in ("relu", "gelu"):
                for sof in (False, True):
                    for qi in sorted({-1, -N}):
                        yield dict(f="single", N=N, act=act, sof=sof, qi=qi, T=2 * N + 4, seed=N)
                yield dict(f="retro", N=N, act=act, T=2 * N + 4, seed=N)
                for nl in (1, 2):
                    for norm in (False, True):
                        yield dict(f="enc", N=N, act=act, nl=nl, norm=norm, T=2 * N + 4, seed=N)
                        yield dict(f="conv", N=N, act=act, nl=nl, norm=norm, T=2 * N + 3, seed=N + 1)
        yield dict(f="reject", N=2, seed=1)
        for _ in range(135 if tier == "quick" else 600):
            N = rng.randint(1, 6)
            yield dict(f=rng.choice(["single", "retro", "enc", "conv"]), N=N, act=rng.choice(["relu", "gelu"]), sof=rng.random() < 0.5, qi=rng.randint(-N, -1), nl=rng.randint(1, 2), norm=rng.random() < 0.5,
                       T=rng.randint(1, 3 * N + 4), seed=rng.randint(0, 10**6), chunks=True)

    def layer_ref(self, c, E=4, H=2, FF=6):
        r = nn.TransformerEncoderLayer(E, H, FF, dropout=0.1, activation=c["act"], batch_first=True).double()
        return r.eval()

    def run(self, c):
        torch.backends.mha.set_fastpath_enabled(False)
        N, T, E = c["N"], c.get("T", 3), 4
        x = randn(c["seed"] + 5, 2, E, max(T, N))
        if c["f"] == "reject":
            return
        if c["f"] == "conv":
            layer = nn.TransformerEncoderLayer(E, 2, 6, dropout=0.1, activation=c["act"], batch_first=True, layer_norm_eps=1e-3)
            ref = rand_weights(nn.TransformerEncoder(layer, c["nl"], norm=nn.LayerNorm(E) if c["norm"] else None, enable_nested_tensor=False), c["seed"]).eval()
            norm_w = copy.deepcopy(ref.norm)
            m = co.TransformerEncoder.build_from(copy.deepcopy(ref), sequence_len=N).eval()
            refs = lambda w: ref(w.transpose(1, 2)).transpose(1, 2)
            self.check(m, refs, x, N, T, "last", fwd="last" if c["nl"] == 2 else "all", c=c)
            return
        if c["f"] == "enc":
            m = mk_trans(f"enc{c['nl']}", N, c["seed"], c["act"], norm=c["norm"])
            layer = nn.TransformerEncoderLayer(E, 2, 6, dropout=0.1, activation=c["act"], batch_first=True)
            ref = nn.TransformerEncoder(layer, c["nl"], norm=nn.LayerNorm(E) if c["norm"] else None, enable_nested_tensor=False).eval().double()
            self.transfer(m, ref)
            refs = lambda w: ref(w.transpose(1, 2)).transpose(1, 2)
            self.check(m, refs, x, N, T, "last", fwd="last" if c["nl"] == 2 else "all", c=c)
            return
        m = mk_trans(c["f"], N, c["seed"], c["act"], c.get("sof", False), c.get("qi", -1))
        ref = self.layer_ref(c)
        self.transfer(m, ref)
        refs = lambda w: ref(w.transpose(1, 2)).transpose(1, 2)
        if c["f"] == "retro":
            self.check(m, refs, x, N, T, "all", fwd="all", c=c)
        else:
            self.check(m, refs, x, N, T, c["qi"], fwd=c["qi"] if c["sof"] else "all", c=c)

    def transfer(self, m, ref):
        """copy parameters by suffix: layers appear in the same order"""
        order = ["self_attn.in_proj_weight", "self_attn.in_proj_bias", "self_attn.out_proj.weight", "self_attn.out_proj.bias", "linear1.weight", "linear1.bias", "linear2.weight", "linear2.bias",
                 "norm1.weight", "norm1.bias", "norm2.weight", "norm2.bias"]
        ours = {s: [] for s in order}
        final = []
        for k, v in m.state_dict().items():
            kk = k.replace("fn.", "")
            hit = [s for s in order if kk.endswith(s)]
            if hit:
                ours[hit[0]].append(v)
            else:
                final.append((k, v))
        sd = ref.state_dict()
        for k in sd:
            hit = [s for s in order if k.endswith(s) and (k == s or k.startswith("layers."))]
            if hit:
                i = int(k.split(".")[1]) if k.startswith("layers.") else 0
                sd[k] = ours[hit[0]][i].clone()
            else:
                sd[k] = [v for kk, v in final if kk.endswith(k.split(".")[-1])][0].clone()
        ref.load_state_dict(sd)

    def check(self, m, refs, x, N, T, sel, fwd, c):
        w = x[:, :, :N]
        full = refs(w)
        got = m.forward(w)
        same(got, full if fwd == "all" else (full[:, :, [-1]] if fwd == "last" else full[:, :, [fwd]]), "whole-sequence output", 1e-7)
        exp = []
        for t in range(T):
            if t < N - 1:
                exp.append(None)
            else:
                e = refs(x[:, :, t - N + 1:t + 1])
                exp.append(e if sel == "all" else (e[:, :, -1] if sel == "last" else e[:, :, sel]))
        for t in range(T):
            o = m.forward_step(x[:, :, t])
            same(o, exp[t], f"step {t}", 1e-7)
        m.clean_state()
        h = T // 2
        for lo, hi in ((0, h), (h, T)):
            if lo == hi:
                continue
            o = m.forward_steps(x[:, :, lo:hi])
            e = [v for v in exp[lo:hi] if v is not None]
            same(o, torch.stack(e, 2) if e else None, f"multi-step output over steps {lo}..{hi - 1}", 1e-7)


# =====================================================================  C17
class Probe(co.CoModule, nn.Module):
    receptive_field = 1
    delay = 0

    def __init__(self, log=None, name="p", boom=None):
        nn.Module.__init__(self)
        self.name, self.boom = name, boom
        self.log = log if log is not None else []

    def _do(self, mode, x):
        self.log.append((self.name, mode))
        if self.boom == mode:
            raise ValueError("boom")
        return x

    def forward(self, x, *a, **k):
        return self._do("forward", x)

    def forward_step(self, x, *a, **k):
        return self._do("forward_step", x)

    def forward_steps(self, x, *a, **k):
        return self._do("forward_steps", x)

    def _forward_step(self, x, prev_state=None):
        return self._do("_forward_step", x), prev_state


class RawProbe(nn.ReLU):
    """A torch.nn module that records the shapes it is called with."""

    def forward(self, x):
        self.seen = getattr(self, "seen", []) + [tuple(x.shape)]
        return super().forward(x)


MODES = ["forward", "forward_steps", "forward_step"]


def rnd_prog(rng, depth):
    out = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.45 or depth == 0:
            out.append(["call", rng.randint(0, 3)])
        elif r < 0.75:
            out.append(["ctx", rng.choice(MODES), rng.choice(["str", "int", "upper", "tensor"]), rnd_prog(rng, depth - 1)])
        elif r < 0.85:
            out.append(["try", rng.choice(MODES), rnd_prog(rng, depth - 1)])
        elif r < 0.93:
            out.append(["set", rng.randint(0, 3), rng.choice(MODES), rng.choice(["str", "int", "upper", "tensor"])])
        else:
            out.append(["copy", rng.randint(0, 2)])  # wrapped modules: see known findings
    return out


class C17(Prop):
    def cases(self, rng, tier):
        for a in MODES:
            for form in ("str", "int", "upper", "tensor"):
                yield dict(f="prog", prog=[["set", 0, a, form], ["call", 0], ["ctx", "forward_step", form, [["call", 0], ["call", 1]]], ["call", 0]], seed=1)
            for b in MODES:
                yield dict(f="prog", prog=[["ctx", a, "str", [["call", 0], ["ctx", b, "int", [["call", 0], ["call", 3]]], ["call", 0], ["call", 3]]], ["call", 0], ["call", 3]], seed=1)
                yield dict(f="prog", prog=[["ctx", a, "str", [["try", b, [["call", 0]]], ["call", 0]]], ["call", 0], ["copy", 0], ["call", 0]], seed=1)
        for mode in MODES:
            for cont in ("seq", "bcr", "par", "nested"):
                for boom in (None, 0, 1):
                    for pre in MODES if cont != "nested" else MODES[:1]:  # see known findings
                        yield dict(f="container", cont=cont, mode=mode, boom=boom, pre=pre, seed=0)
                yield dict(f="modeset", cont=cont, mode=mode, seed=0)
        for _ in range(30):
            yield dict(f="tp", seed=rng.randint(0, 10**6))
        for _ in range(600 if tier == "quick" else 4000):
            yield dict(f="prog", prog=rnd_prog(rng, 3), seed=rng.randint(0, 10**6))

    def run_copy(self, c):
        """deep-copying a network with a wrapped torch.nn module"""
        m = co.Sequential(co.Conv1d(2, 2, 3), nn.ReLU())
        m2 = copy.deepcopy(m)
        x = randn(1, 2, 2, 7)
        same(m2.forward(x), m.forward(x), "copied network")

    def run_explicit(self, c):
        """explicitly called modes inside an active context"""
        m = co.Sequential(co.Conv1d(2, 2, 3), co.Conv1d(2, 2, 2))
        x = randn(1, 2, 2, 7)
        e = m.forward(x)
        with co.call_mode("forward_step"):
            same(m.forward(x), e, "forward called by name inside a forward_step context")

    def mode_form(self, mode, form):
        return {"str": mode, "upper": mode.upper(), "int": MODES.index(mode), "tensor": torch.tensor(MODES.index(mode))}[form]

    def run(self, c):
        try:
            getattr(self, "run_" + c["f"])(c)
        finally:
            co.call_mode.cur, co.call_mode.prev = _callmode0("forward"), None
            if hasattr(co.call_mode, "_outer"):
                co.call_mode._outer = []

    def run_prog(self, c):
        ms = [Probe(name="a"), Probe(name="b"), co.Sequential(Probe(name="c"), Probe(name="d")), co.forward_stepping(RawProbe())]
        own = ["forward"] * 4
        x = randn(1, 2, 3, 4)
        stack = []

        def call(i):
            mode = stack[-1] if stack else own[i]
            m = ms[i]
            if i == 3:
                inp = x if mode != "forward_step" else x[:, :, 0]
                m.seen = []
                o = m(inp)
                want = (2, 3, 1) if mode == "forward_step" else (2, 3, 4)
                need(m.seen == [want] and o.shape == inp.shape, f"wrapped module called in mode {mode} saw {m.seen}")
                return
            logs = [m.log] if i < 2 else [k.log for k in m]
            for l in logs:
                l.clear()
            m(x)
            for l in logs:
                need([e[1] for e in l] == [mode], f"call in mode {mode} (module {i}, contexts {stack}) executed {l}")

        class Stop(Exception):
            pass

        def ex(prog):
            for st in prog:
                if st[0] == "call":
                    call(st[1])
                elif st[0] == "set":
                    ms[st[1]].call_mode = self.mode_form(st[2], st[3])
                    own[st[1]] = st[2]
                elif st[0] == "copy":
                    ms[st[1]] = copy.deepcopy(ms[st[1]]) if st[1] == 3 else pickle.loads(pickle.dumps(ms[st[1]]))
                    if st[1] == 3:
                        ms[3] = co.forward_stepping(RawProbe())
                        own[3] = "forward"
                elif st[0] == "ctx":
                    with co.call_mode(self.mode_form(st[1], st[2])):
                        stack.append(st[1])
                        ex(st[3])
                        stack.pop()
                else:
                    try:
                        with co.call_mode(st[1]):
                            stack.append(st[1])
                            ex(st[2])
                            stack.pop()
                            raise Stop
                    except Stop:
                        pass

        ex(c["prog"])
        for i in range(4):
            call(i)

    def make(self, cont, log, boom):
        p = [Probe(log, f"p{i}") for i in range(2)]
        if boom is not None:
            p[boom[0]].boom = boom[1]
        if cont == "seq":
            return co.Sequential(*p), p, lambda x: x
        if cont == "bcr":
            return co.BroadcastReduce(*p), p, lambda x: x
        if cont == "par":
            return co.Parallel(*p), p, lambda x: [x, x]
        return co.Sequential(co.Residual(co.Sequential(*p))), p, lambda x: x

    def run_container(self, c):
        log = []
        m, p, inp = self.make(c["cont"], log, None if c["boom"] is None else (c["boom"], c["mode"]))
        for q in p:
            q.call_mode = c["pre"]
        x = randn(1, 2, 3, 4)
        raised = False
        try:
            getattr(m, c["mode"])(inp(x))
        except ValueError:
            raised = True
        need(raised == (c["boom"] is not None), "exception of a part was swallowed" if c["boom"] is not None else "unexpected exception")
        got = [e[1] for e in log]
        need(all(g == c["mode"] for g in got) and len(got) == (2 if c["boom"] != 0 else 1), f"container in mode {c['mode']} ran parts as {got}")
        for q in p:
            log.clear()
            q.boom = None
            q(x)
            need([e[1] for e in log] == [c["pre"]], f"part's own mode is {log} instead of {c['pre']} after the container ran")

    def run_modeset(self, c):
        log = []
        m, p, inp = self.make(c["cont"], log, None)
        m.call_mode = c["mode"]
        x = randn(1, 2, 3, 4)
        m(inp(x))
        need([e[1] for e in log] == [c["mode"]] * 2, f"container set to {c['mode']} ran {log}")
        for q in p:
            log.clear()
            q(x)
            need([e[1] for e in log] == [c["mode"]], f"part of a container set to {c['mode']} ran {log}")
        cp = pickle.loads(pickle.dumps(m)) if c["cont"] != "bcr" and c["cont"] != "nested" else copy.deepcopy(m)
        log2 = [q for q in cp.modules() if isinstance(q, Probe)][0].log
        log2.clear()
        cp(inp(x))
        need([e[1] for e in log2][:1] == [c["mode"]], f"copy of a container set to {c['mode']} ran {log2}")

    def run_tp(self, c):
        from continual.utils import temporary_parameter

        rng = random.Random(c["seed"])

        class O:
            pass

        o = O()
        o.a, o.sub = 1, O()
        o.sub.b = 2
        o.none = None
        snap = lambda: (getattr(o, "a", "-"), getattr(o.sub, "b", "-"), getattr(o, "new", "-"), getattr(o, "none", "-"))

        def go(depth):
            before = snap()
            attr = rng.choice(["a", "sub.b", "new", "none"])
            val = rng.choice([10, None, 0, "v"])
            exc = rng.random() < 0.4
            try:
                with temporary_parameter(o, attr, val) as r:
                    got = o.sub.b if attr == "sub.b" else getattr(o, attr)
                    need(got == val and got.__class__ is val.__class__, f"temporary value of {attr} is {got!r} instead of {val!r}")
                    if depth:
                        go(depth - 1)
                    if exc:
                        raise KeyError("x")
                need(not exc, "exception swallowed by a temporary override")
            except KeyError:
                need(exc, "unexpected KeyError")
            need(snap() == before, f"after overriding {attr}: {snap()} instead of {before}")

        for _ in range(4):
            go(3)


def _callmode0(m):
    from continual.module import _callmode

    return _callmode(m)


# =====================================================================  C18
def _nn_cases(rng, count):
    """(ctor name, args, kwargs, input shape)"""
    out = []
    for n in (1, 2, 3):
        sp = {1: [], 2: [6], 3: [6, 5]}[n]
        for ks, st, p, d, g, b, pm in [(3, 1, 1, 1, 1, True, "zeros"), (2, 2, 0, 1, 2, False, "zeros"), (3, 1, 1, 1, 1, True, "replicate"), (1, 3, 0, 1, 4, True, "zeros"), (5, 2, 2, 1, 2, False, "replicate")]:
            out.append([f"Conv{n}d", [4, 8, [ks] * n], dict(stride=[st] * n, padding=[p] * n, groups=g, bias=b, padding_mode=pm), [2, 4, 9, *sp]])
        out.append([f"Conv{n}d", [2, 3, [4] + [3, 2][: n - 1]], dict(stride=[2] + [1, 2][: n - 1], padding=[1] + [2, 0][: n - 1], dilation=[1] + [2, 1][: n - 1]), [2, 2, 9, *sp]])
        for nm in ("AvgPool", "MaxPool"):
            for ks, st, p, ceil in [(2, None, 0, False), (3, 2, 1, False), (3, 2, 1, True), (2, 1, 1, False)]:
                out.append([f"{nm}{n}d", [[ks] * n if n > 1 else ks], dict(stride=None if st is None else ([st] * n if n > 1 else st), padding=[p] * n if n > 1 else p, ceil_mode=ceil), [2, 3, 9, *sp]])
            out.append([f"{nm}{n}d", [3], dict(), [2, 3, 9, *[6, 6][: n - 1]]])
        out.append([f"AvgPool{n}d", [3], dict(padding=1, count_include_pad=False, stride=2), [2, 3, 9, *sp]])
        if n > 1:
            out.append([f"AvgPool{n}d", [3], dict(padding=1, divisor_override=4), [2, 3, 9, *sp]])
            for nm in ("Avg", "Max"):
                out.append([f"Adaptive{nm}Pool{n}d", [[1] * n], dict(), [2, 3, 7, *sp]])
    out.append(["MaxPool1d", [3], dict(dilation=2, stride=1), [2, 3, 9]])
    out.append(["MaxPool2d", [2], dict(dilation=[2, 1], stride=2), [2, 3, 9, 6]])
    for b in (True, False):
        out.append(["Linear", [4, 3], dict(bias=b), [2, 5, 4]])
        for cell in ("RNN", "GRU", "LSTM"):
            for l in (1, 2):
                for bf in (True, False):
                    out.append([cell, [3, 4], dict(num_layers=l, bias=b, batch_first=bf), [2, 3, 5]])
    out.append(["RNN", [3, 4], dict(nonlinearity="relu", batch_first=True), [2, 3, 5]])
    out.append(["LSTM", [3, 4], dict(dropout=0.5, num_layers=2, batch_first=True), [2, 3, 5]])
    return out


NAIVE = [("Threshold", [0.1, 20.0]), ("ReLU", []), ("Hardtanh", []), ("ReLU6", []), ("Sigmoid", []), ("Hardsigmoid", []), ("Tanh", []), ("SiLU", []), ("Hardswish", []), ("ELU", []), ("CELU", []), ("SELU", []), ("GLU", [1]), ("GELU", []),
         ("Hardshrink", []), ("LeakyReLU", [0.3]), ("LogSigmoid", []), ("Softplus", []), ("Softshrink", []), ("PReLU", [4]), ("Softsign", []), ("Tanhshrink", []), ("Softmin", [1]), ("Softmax", [1]), ("LogSoftmax", [1]), ("BatchNorm1d", [4]),
         ("RReLU", []), ("Dropout", [0.3]), ("Dropout2d", [0.3]), ("AlphaDropout", [0.3]), ("FeatureAlphaDropout", [0.3]), ("InstanceNorm1d", [4])]


def _tup(v):
    return tuple(_tup(i) for i in v) if isinstance(v, list) else v


class C18(Prop):
    def cases(self, rng, tier):
        for i, (nm, a, kw, shape) in enumerate(_nn_cases(rng, 0)):
            yield dict(f="nn", nm=nm, a=a, kw=kw, shape=shape, seed=i, f32=i % 4 == 3)
        for nm, a in NAIVE:
            yield dict(f="naive", nm=nm, a=a, seed=1, dim=2)
        yield dict(f="naive", nm="BatchNorm2d", a=[4], seed=1, dim=2, sp=[3])
        yield dict(f="naive", nm="BatchNorm3d", a=[4], seed=1, dim=2, sp=[3, 2])
        yield dict(f="naive", nm="Softmax2d", a=[], seed=1, dim=2, sp=[3])
        yield dict(f="naive", nm="InstanceNorm2d", a=[4], seed=1, dim=2, sp=[3])
        yield dict(f="naive", nm="Dropout3d", a=[0.3], seed=1, dim=2, sp=[3, 2])
        yield dict(f="stepping", seed=1)
        for w in ("dilation", "bidirectional-RNN", "bidirectional-GRU", "bidirectional-LSTM", "unregistered", "instnorm-affine", "instnorm-track", "reflect", "circular"):
            yield dict(f="refuse", what=w, seed=1)
        for lay in LAYS[:2]:
            for b in (True, False):
                for cls in ("RetroactiveMultiheadAttention", "SingleOutputMultiheadAttention"):
                    yield dict(f="mha", cls=cls, bf=lay[0], b=b, seed=2)
                    yield dict(f="mha", cls=cls, bf=lay[0], b=b, seed=3, opt=dict(add_bias_kv=True))
                    yield dict(f="mha", cls=cls, bf=lay[0], b=b, seed=4, opt=dict(add_zero_attn=True, add_bias_kv=b))
                    yield dict(f="mha", cls=cls, bf=lay[0], b=b, seed=5, opt=dict(kdim=3, vdim=6))
        for act in ("relu", "prelu", "gelu"):
            for nl in (1, 2):
                yield dict(f="enc", act=act, nl=nl, norm=act != "gelu", bf=act != "gelu", seed=nl)
        yield dict(f="enc", act="relu", nl=1, norm=False, pre=True, seed=3)
        yield dict(f="enc", act="relu", nl=2, norm=True, pre=True, seed=4)
        yield dict(f="enc", act="relu", nl=1, norm=False, b=False, seed=5)
        yield dict(f="identity", seed=1)
        yield dict(f="func", seed=1)
        for nest in range(4):
            yield dict(f="seq", nest=nest, named=bool(nest % 2), seed=nest)
        for i in range(180 if tier == "quick" else 1500):
            n = rng.choice([1, 2, 3])
            g = rng.choice([1, 2])
            ks = [rng.randint(1, 4) for _ in range(n)]
            if rng.random() < 0.6:
                yield dict(f="nn", nm=f"Conv{n}d", a=[2 * g, 2 * g, ks], kw=dict(stride=[rng.randint(1, 3) for _ in range(n)], padding=[rng.randint(0, k - 1) for k in ks], dilation=[1] + [rng.randint(1, 2) for _ in range(n - 1)], groups=g, bias=rng.random() < 0.5,
                           padding_mode=rng.choice(["zeros", "replicate"])), shape=[2, 2 * g, rng.randint(5, 9), *[8, 7][: n - 1]], seed=rng.randint(0, 10**5), f32=rng.random() < 0.3)
            else:
                yield dict(f="nn", nm=rng.choice(["Avg", "Max"]) + f"Pool{n}d", a=[ks], kw=dict(stride=[rng.randint(1, 3) for _ in range(n)], padding=[rng.randint(0, k // 2) for k in ks], ceil_mode=rng.random() < 0.3),
                           shape=[2, 3, rng.randint(5, 9), *[8, 7][: n - 1]], seed=rng.randint(0, 10**5), f32=rng.random() < 0.3)

    def run(self, c):
        getattr(self, "run_" + c["f"])(c)

    def run_nn(self, c):
        kw = {k: _tup(v) for k, v in c["kw"].items()}
        m = rand_weights(getattr(nn, c["nm"])(*[_tup(v) for v in c["a"]], **kw), c["seed"]).eval()
        if c.get("f32"):
            m = m.float()
        orig = copy.deepcopy(m)
        extra = {}
        if c["nm"].startswith("Adaptive"):
            extra = dict(kernel_size=c["shape"][2])
        conv = (type(co.continual(m)) if not extra else getattr(co, c["nm"])).build_from(m, **extra) if extra else co.continual(m)
        need(isinstance(conv, getattr(co, c["nm"])), f"converted to {type(conv).__name__}")
        conv.eval()
        x = randn(c["seed"] + 1, *c["shape"])
        if c.get("f32"):
            x = x.float()
        tol = 1e-5 if c.get("f32") else TOLV
        if c["nm"] in ("RNN", "GRU", "LSTM"):
            o = conv.forward(x)[0]
            xi = x.transpose(1, 2) if m.batch_first else x.permute(2, 0, 1)
            e = orig(xi)[0]
            e = e.transpose(1, 2) if m.batch_first else e.permute(1, 2, 0)
            same(o, e, "whole-sequence output", tol)
        else:
            same(conv.forward(x), orig(x), "whole-sequence output", tol)
        for k, v in orig.state_dict().items():
            need(k in conv.state_dict(), f"parameter {k} missing")
            cv = conv.state_dict()[k]
            same(cv, v, f"parameter {k}", 0)
            need(cv.dtype == v.dtype, f"parameter {k} has dtype {cv.dtype} instead of {v.dtype}")
        for at in ("kernel_size", "stride", "padding", "dilation", "groups", "padding_mode", "in_channels", "out_channels", "ceil_mode", "count_include_pad", "divisor_override", "output_size", "in_features", "out_features",
                   "input_size", "hidden_size", "num_layers", "nonlinearity", "dropout"):
            if hasattr(orig, at):
                a, b = getattr(conv, at, None), getattr(orig, at)
                t1 = a if isinstance(a, tuple) else (a,)
                t2 = b if isinstance(b, tuple) else (b,)
                if at == "kernel_size" and c["nm"].startswith("Adaptive"):
                    continue
                if len(t1) != len(t2):
                    t2 = t2 * len(t1) if len(t2) == 1 else t2
                need(t1 == t2, f"{at} is {a} instead of {b}")
        # parameters are copies
        with torch.no_grad():
            for p in m.parameters():
                p.add_(1.0)
        for k, v in orig.state_dict().items():
            same(conv.state_dict()[k], v, f"parameter {k} after changing the original", 0)

    def run_naive(self, c):
        kw = dict(affine=True, track_running_stats=True) if c["nm"].startswith("Inst") else {}
        m = rand_weights(getattr(nn, c["nm"])(*c["a"], **kw), c["seed"]).eval()
        orig = copy.deepcopy(m)
        conv = co.continual(m)
        need(conv is m, "module was not wrapped in place")
        x = randn(c["seed"] + 1, 2, 4, 5, *c.get("sp", []))
        off = orig(x)
        same(conv(x), off, "call")
        same(conv.forward(x), off, "whole-sequence output")
        same(conv.forward_steps(x), off, "multi-step output")
        for t in range(5):
            same(conv.forward_step(x[:, :, t]), off[:, :, t], f"step {t}")
            same(conv.forward_step(x[:, :, t], update_state=False), off[:, :, t], f"non-updating step {t}")
            same(conv._forward_step(x[:, :, t], None)[0], off[:, :, t], f"functional step {t}")
            with co.call_mode("forward_step"):
                same(conv(x[:, :, t]), off[:, :, t], f"step {t} by call mode")
        need(co.continual(conv) is conv, "a wrapped module was converted again")
        for md, y, e in (("forward", x, off), ("forward_steps", x, off), ("forward_step", x[:, :, 1], off[:, :, 1])):
            with co.call_mode(md):
                same(conv(y), e, f"call in {md} mode after a second conversion")
                same(co.Conditional(lambda m, x: True, conv)(y), e, f"call in {md} mode inside a conditional")
                same(co.Sequential(conv)(y), e, f"call in {md} mode inside a sequential")
        need((conv.delay, conv.receptive_field) == (0, 1), "delay / receptive field of a wrapped module")
        need(list(conv.state_dict()) == list(orig.state_dict()), "parameters renamed")

    def run_stepping(self, c):
        for dim in (1, 2, 3):
            m = (nn.Linear(3, 2) if dim != 3 else nn.ReLU()).double()
            orig = copy.deepcopy(m)
            w = co.forward_stepping(m, dim=dim)
            x = randn(3, 4, 5, 6, 3)
            e = orig(x)
            same(w.forward(x), e, "whole-sequence output")
            same(w.forward_steps(x), e, "multi-step output")
            for t in range(x.shape[dim]):
                if dim == 3 and False:
                    continue
                same(w.forward_step(x.select(dim, t)), e.select(dim, t), f"step {t} along dimension {dim}")

    def run_refuse(self, c):
        w = c["what"]
        mod = {"dilation": lambda: nn.Conv1d(2, 2, 3, dilation=2), "bidirectional-RNN": lambda: nn.RNN(2, 2, bidirectional=True), "bidirectional-GRU": lambda: nn.GRU(2, 2, bidirectional=True),
               "bidirectional-LSTM": lambda: nn.LSTM(2, 2, bidirectional=True), "unregistered": lambda: nn.ConvTranspose1d(2, 2, 3), "instnorm-affine": lambda: nn.InstanceNorm1d(2, track_running_stats=True),
               "instnorm-track": lambda: nn.InstanceNorm1d(2, affine=True), "reflect": lambda: nn.Conv1d(2, 2, 3, padding=1, padding_mode="reflect"), "circular": lambda: nn.Conv1d(2, 2, 3, padding=1, padding_mode="circular")}[w]()
        try:
            co.continual(mod)
        except Exception:
            return
        raise Fail(f"unsupported module was converted: {w}")

    def run_enc(self, c):
        torch.backends.mha.set_fastpath_enabled(False)
        E, N = 4, 3
        act = {"relu": "relu", "prelu": nn.PReLU(), "gelu": nn.GELU()}[c["act"]]
        layer = nn.TransformerEncoderLayer(E, 2, 6, dropout=0.1, activation=act, batch_first=c.get("bf", True), layer_norm_eps=1e-2, norm_first=c.get("pre", False), bias=c.get("b", True))
        ref = rand_weights(nn.TransformerEncoder(layer, c["nl"], norm=nn.LayerNorm(E, eps=1e-1) if c["norm"] else None, enable_nested_tensor=False), c["seed"]).eval()
        orig = copy.deepcopy(ref)
        try:
            m = co.TransformerEncoder.build_from(ref, sequence_len=N).eval()
        except Exception:
            need(c.get("pre") or not c.get("b", True), "the encoder was refused")
            return
        x = randn(c["seed"], 2, E, N)
        e = (orig(x.transpose(1, 2)).transpose(1, 2)) if c.get("bf", True) else orig(x.permute(2, 0, 1)).permute(1, 2, 0)
        same(m.forward(x)[:, :, -1], e[:, :, -1], "whole-sequence output at the last position", 1e-7)
        for k, v in orig.state_dict().items():
            same(ref.state_dict()[k], v, f"parameter {k} of the original", 0)
        before = {k: v.clone() for k, v in m.state_dict().items()}
        with torch.no_grad():
            for p in ref.parameters():
                p.add_(1.0)
        for k, v in before.items():
            same(m.state_dict()[k], v, f"parameter {k} after changing the original", 0)

    def run_mha(self, c):
        opt = c.get("opt", {})
        m = rand_weights(nn.MultiheadAttention(4, 2, bias=c["b"], batch_first=c["bf"], **opt), c["seed"]).eval()
        conv = getattr(co, c["cls"]).build_from(m, sequence_len=5, **(dict(single_output_forward=False) if c["cls"].startswith("Single") else {})).eval()
        x, k, v = (randn(3 + i, *((2, 5, w) if c["bf"] else (5, 2, w))) for i, w in enumerate((4, opt.get("kdim", 4), opt.get("vdim", 4))))
        same(conv.forward(x, k, v)[0], m(x, k, v)[0], "whole-sequence output")
        if "kdim" not in opt:
            same(conv.forward(x)[0], m(x, x, x)[0], "whole-sequence output of self-attention")
        for h in ("add_zero_attn", "batch_first", "embed_dim", "num_heads", "dropout", "kdim", "vdim"):
            need(getattr(conv, h) == getattr(m, h), f"{h} is {getattr(conv, h)}")
        for k, v in m.state_dict().items():
            same(conv.state_dict()[k], v, f"parameter {k}", 0)
        before = {k: v.clone() for k, v in conv.state_dict().items()}
        with torch.no_grad():
            for p in m.parameters():
                p.add_(1.0)
        for k, v in before.items():
            same(conv.state_dict()[k], v, f"parameter {k} after changing the original", 0)

    def run_identity(self, c):
        for m in (co.Conv1d(1, 1, 3), co.Delay(2), co.Sequential(nn.ReLU()), co.Add(1)):
            need(co.continual(m) is m, "continual module was rebuilt")

    def run_func(self, c):
        def fn(x):
            return x * 3 + 1

        m = co.continual(fn)
        x = randn(1, 2, 3, 4)
        same(m.forward(x), x * 3 + 1, "whole-sequence output")
        same(m.forward_step(x[:, :, 0]), x[:, :, 0] * 3 + 1, "step")

    def run_hooks(self, c):
        m = co.continual(nn.ReLU())
        n = []
        m.register_forward_hook(lambda *a: n.append(1))
        with co.call_mode("forward_step"):
            m(randn(1, 2, 2))
        need(len(n) == 1, f"forward hook of a wrapped module ran {len(n)} times in one call")

    def run_seq(self, c):
        def mkseq(depth):
            ms = [nn.Conv1d(2, 2, 3, padding=1), nn.ReLU(), nn.BatchNorm1d(2), nn.Conv1d(2, 2, 2, stride=2)]
            if depth:
                ms.insert(1, mkseq(depth - 1))
            return nn.Sequential(OrderedDict((f"l{i}", m) for i, m in enumerate(ms))) if c["named"] else nn.Sequential(*ms)

        m = rand_weights(mkseq(c["nest"]), c["seed"]).eval()
        orig = copy.deepcopy(m)
        conv = co.continual(m).eval()
        need(isinstance(conv, co.Sequential), "not a continual Sequential")
        x = randn(5, 2, 2, 60)
        same(conv.forward(x), orig(x), "whole-sequence output")
        need(list(conv.state_dict()) == list(orig.state_dict()), f"parameter names changed: {list(conv.state_dict())[:3]}")
        for k, v in orig.state_dict().items():
            same(conv.state_dict()[k].double(), v.double(), f"parameter {k}", 0)


TOLV = 1e-8


# =====================================================================  C19
def rnd_tree(rng, depth):
    r = rng.random()
    if depth == 0 or r < 0.3:
        return rng.choice(["conv", "lin", "bn", "relu"])
    return [rng.choice(["seq", "bcr", "par", "cond"]), rng.random() < 0.5, [rnd_tree(rng, depth - 1) for _ in range(rng.randint(1, 3))]]


def build_tree(t, names, top=True):
    if isinstance(t, str):
        m = {"conv": lambda: co.Conv1d(2, 2, 3, padding=1), "lin": lambda: co.Linear(2, 2, channel_dim=1), "bn": lambda: nn.BatchNorm1d(2), "relu": lambda: nn.ReLU()}[t]()
        return co.continual(m)
    ms = [build_tree(c, names, False) for c in t[2]]
    if t[0] in ("bcr", "par") and len(ms) < 2:
        ms.append(co.Add(1.0))
    if t[0] == "cond":
        # keep the structure simple: two branches
        return co.Conditional(specs.PRED["true"], ms[0], ms[1] if len(ms) > 1 else None)
    if t[1]:
        args = [OrderedDict((f"{names[i % len(names)]}{i}", m) for i, m in enumerate(ms))]
    else:
        args = ms
    if t[0] == "seq":
        return co.Sequential(*args)
    if t[0] == "bcr":
        return co.BroadcastReduce(*args)
    return co.Sequential(co.Broadcast(), co.Parallel(*args), co.Reduce("sum"))


class C19(Prop):
    def cases(self, rng, tier):
        for tree in (["seq", True, [["seq", False, ["conv"]] for _ in range(12)]], ["seq", False, ["conv"] * 12], ["seq", False, ["conv"]], ["seq", False, ["conv", "lin"]], ["seq", True, ["conv", "bn"]], ["seq", False, [["seq", True, ["conv", "lin"]], "bn"]], ["seq", False, ["conv", "conv"]], ["bcr", True, ["conv", "lin"]],
                     ["seq", True, [["seq", False, ["conv"]], ["seq", False, ["conv"]]]], ["seq", False, [["par", True, ["conv", "conv"]]]], ["cond", False, [["seq", True, ["conv"]], ["seq", True, ["lin"]]]], ["seq", True, [["bcr", False, ["conv", "lin"]], "bn"]]):
            for how in ("arg", "ctx", "attr"):
                yield dict(tree=tree, how=how, seed=1)
        yield dict(exc=True, seed=1)
        for i, s in enumerate([dict(k="conv", n=1, ci=2, co=2, ks=[3], s=[1], p=[1]), dict(k="conv", n=2, ci=2, co=2, ks=[3, 3], s=[1, 1], p=[1, 1], pm="replicate"), dict(k="rnn", cell="RNN", ci=2, co=2), dict(k="rnn", cell="GRU", ci=2, co=2), dict(k="rnn", cell="LSTM", ci=2, co=2, l=2), dict(k="linear", ci=2, co=2), dict(k="prelu", c=2), dict(k="bn", n=1, c=2), dict(k="pe", c=2, ne=90)]):
            yield dict(reload=dict(k="seq", m=[s], style="args"), n=s.get("n", 1), seed=i)
        for kind in ("retro", "single"):
            for kd in (None, [4, 4], [3, 5]):
                yield dict(mha=kind, N=3, lay=(True, True), E=4, H=2, kd=kd, seed=3)
        for name in ("single", "retro", "enc1", "enc2"):
            yield dict(trans=name, N=3, seed=3)
        for _ in range(450 if tier == "quick" else 2500):
            t = rnd_tree(rng, 3)
            if isinstance(t, str):
                continue
            yield dict(tree=t, how=rng.choice(["arg", "ctx", "attr"]), seed=rng.randint(0, 10**6))

    def reload(self, c):
        """parameters loaded into a module that was already used: nothing of the old ones remains"""
        if "reload" in c:
            make, ch = (lambda sd: mk(c["reload"], sd)), 2
        else:
            ch = 4
            make = (lambda sd: mk_mha(dict(c, seed=sd))) if "mha" in c else (lambda sd: mk_trans(c["trans"], c["N"], sd))
        chs = [ch] + (list(c["kd"]) if c.get("kd") else [ch] * 2 if "mha" in c else [])
        xs = lambda sd, T: [randn(sd + i, 2, q, T, *spatial(c.get("n", 1))) for i, q in enumerate(chs)]
        T = c.get("N", 7)
        a, b = make(c["seed"]), make(c["seed"] + 5)
        fwd = lambda m, x: _one(_first(m.forward(*x)))
        step = lambda m, x, t: _one(m.forward_step(*[v[:, :, t].clone() for v in x]))
        x, y = xs(11, T), xs(31, T)
        fwd(b, x)
        for t in range(T):
            step(b, x, t)
        b.forward_steps(*[v.clone() for v in x])
        b.clean_state()
        b.load_state_dict(a.state_dict())
        same(fwd(b, y), fwd(a, y), "whole-sequence output after loading", 1e-7)
        for t in range(T):
            same(step(b, y, t), step(a, y, t), f"step {t} after loading", 1e-7)

    def run(self, c):
        if not set(c) & {"exc", "tree"}:
            return self.reload(c)
        if "exc" in c:
            m = co.Sequential(co.Conv1d(2, 2, 3))
            try:
                with co.flat_state_dict:
                    need(list(m.state_dict()) == ["weight", "bias"], "flattening inside the context")
                    raise KeyError
            except KeyError:
                pass
            need(list(m.state_dict()) == ["0.weight", "0.bias"], "flattening still on after an exception")
            return
        a = rand_weights(build_tree(c["tree"], ["n", "x"]), c["seed"]).eval()
        b = rand_weights(build_tree(c["tree"], ["n", "x"]), c["seed"] + 1).eval()
        full = OrderedDict((k, v) for k, v in nn.Module.state_dict(a).items())
        plain = a.state_dict()
        need(list(plain) == list(full), "unflattened names changed")
        # plain round trip
        r = b.load_state_dict(plain)
        self.eq(a, b, "plain round trip")
        flat_names = [".".join(p for p in k.split(".") if not p.isdigit()) for k in full]
        unique = len(set(flat_names)) == len(flat_names)
        if c["how"] == "arg":
            sd = a.state_dict(flatten=True)
        elif c["how"] == "ctx":
            with co.flat_state_dict:
                sd = a.state_dict()
            need(list(a.state_dict()) == list(full), "flattening still on after the context")
        else:
            a.flatten_state_dict = True
            sd = a.state_dict()
            a.flatten_state_dict = False
        want = flat_names if unique else list(full)
        need(list(sd) == want, f"flattened names are {list(sd)[:4]} instead of {want[:4]}")
        for (k, v), e in zip(sd.items(), full.values()):
            same(v.double(), e.double(), f"saved {k}", 0)
        b = rand_weights(build_tree(c["tree"], ["n", "x"]), c["seed"] + 2).eval()
        if c["seed"] % 2:  # a container that was already used
            b.forward(randn(4, 2, 2, 9))
            b.forward_steps(randn(5, 2, 2, 3))
            b.clean_state()
        if c["how"] == "arg":
            b.load_state_dict(sd, flatten=True)
        elif c["how"] == "ctx":
            with co.flat_state_dict:
                b.load_state_dict(sd)
        else:
            b.flatten_state_dict = True
            b.load_state_dict(sd)
            b.flatten_state_dict = False
        self.eq(a, b, "flattened round trip")
        if full:
            k0 = list(sd)[0]
            sd2 = OrderedDict(sd)
            sd2["bogus_name"] = sd2.pop(k0)
            try:
                b.load_state_dict(sd2, flatten=unique)
            except (RuntimeError, KeyError):
                pass
            else:
                raise Fail("strict loading accepted an unknown name")

    def eq(self, a, b, what):
        for (k, v), (k2, v2) in zip(nn.Module.state_dict(a).items(), nn.Module.state_dict(b).items()):
            need(k == k2, f"{what}: names differ")
            same(v2.double(), v.double(), f"{what}: {k}", 0)
        x = randn(3, 2, 2, 9)
        same(b.forward(x), a.forward(x), f"{what}: output")
        a.clean_state(), b.clean_state()
        same(b.forward_steps(x), a.forward_steps(x), f"{what}: multi-step output")
        a.clean_state(), b.clean_state()


# =====================================================================  C20
class C20(Prop):
    def cases(self, rng, tier):
        cv = lambda ks, s=1, p=0: dict(k="conv", n=1, ci=2, co=2, ks=[ks], s=[s], p=[p])
        for s in [cv(3), cv(1), cv(3, 1, 1), dict(k="avg", n=1, ks=[3], s=[1], p=[0], d=1), dict(k="delay", d=2), dict(k="delay", d=0), dict(k="rnn", cell="RNN", ci=2, co=2), dict(k="rnn", cell="LSTM", ci=2, co=2), dict(k="rnn", cell="GRU", ci=2, co=2, l=2),
                  dict(k="seq", m=[cv(3), dict(k="relu"), cv(2)], style="args"), dict(k="res", m=cv(3, 1, 1), r="sum"), dict(k="seq", m=[dict(k="res", m=cv(3, 1, 1), r="sum"), dict(k="rnn", cell="LSTM", ci=2, co=2), dict(k="linear", ci=2, co=2)], style="named"),
                  dict(k="par", m=[cv(3, 1, 1), cv(5, 1, 2), dict(k="identity")], r="max"), dict(k="bcr", m=[dict(k="seq", m=[cv(3, 1, 1), dict(k="relu")], style="args"), dict(k="delay", d=4)], r="sum"), dict(k="seq", m=[dict(k="relu"), dict(k="pe", c=2, ne=7), cv(2)], style="args"),
                  dict(k="cond", t=cv(3, 1, 1), f=dict(k="delay", d=2), pred="true"), dict(k="cond", t=cv(3, 1, 1), f=dict(k="delay", d=2), pred="false")]:
            yield dict(spec=s, n=1, seed=2)
        for kind in ("retro", "single"):
            for N in (2, 4):
                yield dict(mha=kind, N=N, lay=(True, True), E=4, H=2, seed=1)
        for name in ("single", "retro", "enc1", "enc2"):
            yield dict(trans=name, N=3, seed=1)
        for sh in (3, [], [1], [1, 2], [[1, 0], 2, [[3], 1]], [0, 0], [[[]], 2]):
            yield dict(shape=sh, seed=1)
        yield dict(export=True, seed=1)
        for _ in range(300 if tier == "quick" else 2000):
            if rng.random() < 0.2:
                def rs(d):
                    return rng.randint(0, 3) if d == 0 or rng.random() < 0.4 else [rs(d - 1) for _ in range(rng.randint(0, 3))]
                yield dict(shape=[rs(2) for _ in range(rng.randint(1, 3))], seed=1)
                continue
            s = coseq(rnd_net(rng, 1, 2, rng.randint(0, 3), rnn_ok=True))
            if meta(s)[2] > 40:
                continue
            yield dict(spec=s, n=1, seed=rng.randint(0, 10**6))

    def run(self, c):
        from continual.onnx import OnnxWrapper, _shape_list
        from continual.utils import flatten

        if "export" in c:
            return self.run_export()
        if "shape" in c:
            sh = c["shape"]
            tot = lambda s: s if isinstance(s, int) else sum(tot(v) for v in s)
            n = tot(sh)
            lst = [100 + i for i in range(n)]
            ref_it = iter(lst)

            def ref(s):
                return [next(ref_it) for _ in range(s)] if isinstance(s, int) else [ref(v) for v in s]

            got, idx = _shape_list(lst, sh)
            e = ref(sh)
            need(idx == n, f"consumed {idx} of {n} tensors")
            need(_lists(got) == e, f"nesting {sh}: {got} instead of {e}")
            need(list(flatten(got, remove_none=False)) == lst, "flattening the nested state lost the order")
            need(list(flatten([lst, None, [None, []]], remove_none=False)) == lst + [None, None], "flatten without removing None")
            return
        if "mha" in c:
            make, ch, sp = (lambda: mk_mha(c)), c["E"], ()
        elif "trans" in c:
            make, ch, sp = (lambda: mk_trans(c["trans"], c["N"], c["seed"])), 4, ()
        else:
            make, ch, sp = (lambda: mk(c["spec"], c["seed"])), 2, ()
        m, ref = make(), make()
        w = OnnxWrapper(m)
        names_in, names_out, dyn = w.state_input_names, w.state_output_names, w.state_dynamic_axes
        need(len(set(names_in)) == len(names_in) and len(set(names_out)) == len(names_out) == len(names_in), "state names are not unique")
        need(not set(names_in) & set(names_out), "state inputs and outputs share names")
        if "spec" in c and c["spec"]["k"] == "cond":
            T0 = 0
        d = meta(c["spec"])[0] if "spec" in c else c["N"]
        st = meta(c["spec"])[1] if "spec" in c else 1
        x = randn(c["seed"] + 1, 2, ch, d + 8 + 2 * st, *sp)
        x3 = randn(c["seed"] + 2, 3, ch, d + 2 * st + 1, *sp)
        state, t0 = None, d + st
        for t in range(t0):
            o, state = m._forward_step(x[:, :, t].clone(), prev_state=state)
            ref.forward_step(x[:, :, t].clone())
        flat = list(flatten(clone_state(state)))
        cond = "spec" in c and specs.count_leaf(c["spec"], "cond") > 0
        if cond:
            return  # states of the branch that never ran do not exist
        need(len(flat) == len(names_in), f"{len(flat)} state tensors but {len(names_in)} names")
        o3, s3 = None, None
        m3 = make()
        for t in range(t0):
            o3, s3 = m3._forward_step(x3[:, :, t].clone(), prev_state=s3)
        flat3 = list(flatten(s3))
        for i, (a, b) in enumerate(zip(flat, flat3)):
            batch = tuple(a.shape) != tuple(b.shape)
            need((names_in[i] in dyn) == batch, f"state tensor {i} {'carries' if batch else 'does not carry'} the batch but is marked {'dynamic' if names_in[i] in dyn else 'static'}")
            need((names_out[i] in dyn) == (names_in[i] in dyn), f"output of state tensor {i} is marked differently from its input")
        for t in range(t0, x.shape[2]):
            res = w.forward(x[:, :, t].clone(), *[clone_state(f) for f in flat])
            need(isinstance(res, tuple) and len(res) == 1 + len(names_out), f"wrapper returned {len(res)} values")
            same(_one(res[0]), _one(ref.forward_step(x[:, :, t].clone())), f"wrapper output at step {t}", 1e-7)
            flat = list(res[1:])

    def run_export(self):
        """Real ONNX export of one small model, executed with onnxruntime (an integration sample)."""
        try:
            import onnxruntime as ort
        except Exception:
            return
        torch.set_default_dtype(torch.float32)
        torch.set_grad_enabled(False)
        try:
            net, ref = (rand_weights(co.Sequential(co.Conv1d(2, 2, 3), co.Delay(1), nn.ReLU()), 5).eval().float() for _ in range(2))
            x = torch.randn(1, 2, 12)
            st = None
            for t in range(6):
                o, st = net._forward_step(x[:, :, t].clone(), st)
                ref.forward_step(x[:, :, t].clone())
            from continual.utils import flatten

            flat = [f.clone() for f in flatten(st)]
            buf = io.BytesIO()
            import contextlib, os

            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                co.onnx.export(net, (x[:, :, 6].clone(), *[f.clone() for f in flat]), buf, input_names=["input"], output_names=["output"], do_constant_folding=False, opset_version=16)
            so = ort.SessionOptions()
            so.intra_op_num_threads = 1
            sess = ort.InferenceSession(buf.getvalue(), so, providers=["CPUExecutionProvider"])
            names = [i.name for i in sess.get_inputs()]
            need(names[0] == "input" and names[1:] == [f"s{i}" for i in range(len(names) - 1)], f"exported inputs {names}")
            for t in range(6, 12):
                res = sess.run(None, {"input": x[:, :, t].numpy(), **{f"s{i}": f.numpy() for i, f in enumerate(flat)}})
                same(torch.tensor(res[0]), ref.forward_step(x[:, :, t].clone()), f"exported model at step {t}", 1e-5)
                flat = [torch.tensor(r) for r in res[1:]]
        finally:
            torch.set_default_dtype(torch.float64)


def _lists(v):
    return [_lists(i) for i in v] if isinstance(v, (list, tuple)) else v


# =====================================================================  C21
class C21(Prop):
    FN = {"sin": lambda: torch.sin, "softmax1": lambda: nn.Softmax(dim=1), "mean": lambda: (lambda x: x - x.mean()), "ln": lambda: None}

    def cases(self, rng, tier):
        for shape in ([2, 3, 5], [2, 3, 4, 6], [1, 3, 3, 2, 2]):
            for b in (True, False):
                for cd in (1, -1, len(shape) - 1):
                    yield dict(f="linear", shape=shape, cd=cd, b=b, seed=1)
        for b in (True, False):
            yield dict(f="linear_end", shape=[2, 3, 4, 5, 6], cd=-2, b=b, seed=1)
            yield dict(f="linear_end", shape=[2, 1, 3, 2, 4, 3], cd=-3, b=b, seed=1)
            yield dict(f="linear_end", shape=[2, 1, 2, 3, 2, 4, 3], cd=-4, b=b, seed=1)
            for fn in ("sin", "softmax1", "mean"):
                yield dict(f="lambda", shape=shape, fn=fn, tt=False, seed=1)
            for fn in ("sin", "softmax1"):
                yield dict(f="lambda", shape=shape, fn=fn, tt=True, seed=1)
            for nm in ("Add", "Multiply", "Identity", "Constant", "Zero", "One"):
                yield dict(f="closure", nm=nm, v=2.5, shape=shape, seed=1)
        for name in ("Add", "Multiply"):
            yield dict(f="closure", nm=name, v="t", shape=[2, 3, 5], seed=1)
        for shp, out in ([[2, 6, 5], [2, 3, 2]], [[2, 6, 5, 4], [2, 24]], [[2, 6, 3], [12]], [[2, 4, 7, 3], [2, 3, 4]], [[3, 2, 4, 2, 2], [6, 4]]):
            for ct in (True, False):
                for tup in (True, False):
                    yield dict(f="reshape", shape=shp, out=out, ct=ct, tup=tup, seed=1)
        for tt in (True, False):
            for bf in (True, False):
                yield dict(f="retro", tt=tt, bf=bf, seed=1)
        for which in range(8):
            for tt in (True, False):
                yield dict(f="modes", which=which, tt=tt, seed=1)
        for _ in range(360 if tier == "quick" else 2000):
            nd = rng.randint(3, 5)
            shape = [rng.randint(1, 4) for _ in range(nd)]
            f = rng.choice(["linear", "lambda", "closure"])
            yield dict(f=f, shape=shape, cd=rng.choice([1, -1] + ([nd - 1] if nd > 3 else [])), b=rng.random() < 0.5, fn=rng.choice(["sin", "softmax1", "mean"]), tt=False, nm=rng.choice(["Add", "Multiply", "Identity", "Constant", "Zero", "One"]), v=rng.choice([0.0, 1.5, -2.0]), seed=rng.randint(0, 10**6))

    def modes(self, m, x, exp):
        """exp: list of per-step results"""
        st = torch.stack(exp, 2)
        same(m.forward(x), st, "whole-sequence output")
        same(m(x), st, "call")
        same(m.forward_steps(x), st, "multi-step output")
        same(m.forward_steps(x, pad_end=True, update_state=False), st, "end-padded multi-step output")
        for t in range(x.shape[2]):
            same(m.forward_step(x[:, :, t]), exp[t], f"step {t}")
            same(m.forward_step(x[:, :, t], update_state=False), exp[t], f"non-updating step {t}")
            o, s = m._forward_step(x[:, :, t], None)
            same(o, exp[t], f"functional step {t}")
            need(s is None or s == [], "stateless module returned a state")
        need((m.delay, m.receptive_field) == (0, 1), "delay / receptive field")
        need(m.get_state() is None, "stateless module has a state")
        h = x.shape[2] // 2
        if h:
            same(torch.cat([m.forward_steps(x[:, :, :h]), m.forward_steps(x[:, :, h:])], 2), st, "chunked output")

    def run_retro(self, c):
        from continual.transformer import RetroactiveLambda

        fn = lambda z: z * 2.0 + 1.0
        m = RetroactiveLambda.build_from(fn, c["tt"]) if c["bf"] else RetroactiveLambda(fn, takes_time=c["tt"])
        w = randn(c["seed"], 2, 3, 4)
        same(m.forward(w), fn(w), "whole-sequence output")
        same(m.forward_step(w), fn(w), "step")
        same(m._forward_step(w, None)[0], fn(w), "functional step")
        ws = randn(c["seed"] + 1, 2, 3, 5, 4)
        same(m.forward_steps(ws), fn(ws), "multi-step output")

    def run(self, c):
        if c["f"] == "modes":
            return self.run_modes(c)
        if c["f"] == "retro":
            return self.run_retro(c)
        x = randn(c["seed"] + 1, *c["shape"])
        T = x.shape[2]
        xs = [x[:, :, t] for t in range(T)]
        if c["f"] == "linear":
            cd = c["cd"]
            ax = cd if cd > 0 else x.dim() - 1
            if ax == 2:  # acting on the last axis of a (B, C, T) input mixes time: use channel-last steps (B, T, C) layout
                lin = rand_weights(co.Linear(x.shape[-1], 4, bias=c["b"], channel_dim=cd), c["seed"])
                e = x @ lin.weight.t() + (lin.bias if c["b"] else 0)
                same(lin.forward(x), e, "channel-last output")
                same(lin.forward_step(x[:, 0]), e[:, 0], "channel-last step") if cd == -1 else None
                same(lin.forward_steps(x), e, "channel-last multi-step output")
                return
            m = rand_weights(co.Linear(x.shape[ax], 4, bias=c["b"], channel_dim=cd if cd in (1, -1) else -1), c["seed"])
            def f(z, axis):
                o = torch.tensordot(z, m.weight.t(), dims=([axis], [0])).movedim(-1, axis)
                if c["b"]:
                    sh = [1] * o.dim()
                    sh[axis] = -1
                    o = o + m.bias.reshape(sh)
                return o
            self.modes(m, x, [f(z, ax if ax == 1 else z.dim() - 1) for z in xs])
        elif c["f"] == "linear_end":
            cd = c["cd"]
            m = rand_weights(co.Linear(x.shape[cd], 4, bias=c["b"], channel_dim=cd), c["seed"])
            f = lambda z: (z.movedim(cd, -1) @ m.weight.t() + (m.bias if c["b"] else 0)).movedim(-1, cd)
            self.modes(m, x, [f(z) for z in xs])
        elif c["f"] == "lambda":
            fn = {"sin": torch.sin, "softmax1": nn.Softmax(dim=1), "mean": lambda x: x - x.mean()}[c["fn"]]
            self.modes(co.Lambda(fn, takes_time=c["tt"]), x, [fn(z) for z in xs])
            if not c["tt"]:
                self.modes(co.Lambda.build_from(fn), x, [fn(z) for z in xs])
        elif c["f"] == "closure":
            v = c["v"]
            if v == "t":
                v = randn(9, 1, 3, 1)
                m = getattr(co, c["nm"])(v)
                e = x + v if c["nm"] == "Add" else x * v
                self.modes(m, x, [e[:, :, t] for t in range(T)])
                return
            mk_ = getattr(co, c["nm"])
            m = mk_(v) if c["nm"] in ("Add", "Multiply", "Constant") else mk_()
            f = {"Add": lambda z: z + v, "Multiply": lambda z: z * v, "Identity": lambda z: z, "Constant": lambda z: torch.ones_like(z) * v, "Zero": torch.zeros_like, "One": torch.ones_like}[c["nm"]]
            self.modes(m, x, [f(z) for z in xs])
        elif c["f"] == "reshape":
            m = co.Reshape(tuple(c["out"]), contiguous=c["ct"]) if c["tup"] else co.Reshape(*c["out"], contiguous=c["ct"])
            if len(c["out"]) >= 2:
                self.modes(m, x, [z.reshape(c["out"]) for z in xs])
                need(not c["ct"] or m.forward(x).is_contiguous(), "a reshape asked for contiguous results yields strided ones")
            else:
                for z in xs:
                    same(m.forward_step(z), z.reshape(c["out"]), "step")

    def run_modes(self, c):
        w = c["which"]
        fn = lambda x: x + 1
        fo = (lambda x: x * 10) if w & 1 else None
        fs = (lambda x: x * 100) if w & 2 else None
        fss = (lambda x: x * 1000) if w & 4 else None
        m = co.Lambda(fn, fo, fs, fss, takes_time=c["tt"])
        x = randn(2, 2, 3, 4)
        same(m.forward(x), (fo or fn)(x), "whole-sequence output")
        same(m.forward_steps(x), (fss or fn)(x), "multi-step output")
        same(m.forward_step(x[:, :, 0]), (fs or fn)(x[:, :, 0]), "step")
        same(m._forward_step(x[:, :, 0], None)[0], (fs or fn)(x[:, :, 0]), "functional step")
        if w == 7:
            m = co.Lambda(None, fo, fs, fss, takes_time=c["tt"])
            same(m.forward(x), fo(x), "whole-sequence output")
            same(m.forward_steps(x), fss(x), "multi-step output")
            same(m.forward_step(x[:, :, 0]), fs(x[:, :, 0]), "step")


PROPS = {k: v() for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, Prop) and len(k) == 3 and k[0] == "C"}
