"""Random network specs for the bounded concrete half.

A spec is a JSON value. `build(spec)` makes the continual module with the library under test; `oracle(spec, module, x)`
computes the whole-sequence result independently from plain torch operations and the module's parameters;
`meta(spec)` computes (delay, stride, receptive field, padding) independently.
All of it is test machinery: nothing here is counted as proved.
"""
from collections import OrderedDict

import torch
import torch.nn.functional as F
from torch import nn


# ---------------------------------------------------------------- helpers
def _tp(v, n):
    return tuple(v) if isinstance(v, (list, tuple)) else (v,) * n


CONVF = {1: F.conv1d, 2: F.conv2d, 3: F.conv3d}


def rand_weights(m, seed):
    """Deterministic, well spread parameters and buffers."""
    g = torch.Generator().manual_seed(seed)
    m.double()
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn(p.shape, generator=g, dtype=torch.float64).to(p.dtype) * 0.5)
        for n, b in m.named_buffers():
            if n.endswith("running_mean"):
                b.copy_(torch.randn(b.shape, generator=g, dtype=torch.float64).to(b.dtype) * 0.3)
            if n.endswith("running_var"):
                b.copy_(torch.rand(b.shape, generator=g, dtype=torch.float64).to(b.dtype) + 0.5)
    return m


def randn(seed, *shape):
    g = torch.Generator().manual_seed(seed)
    return torch.randn(*shape, generator=g, dtype=torch.float64)


PRED = {"true": lambda m, x: True, "false": lambda m, x: False}

REDUCE = {
    "sum": lambda xs: sum(xs[1:], xs[0]),
    "concat": lambda xs: torch.cat(list(xs), 1),
    "mul": lambda xs: __import__("functools").reduce(lambda a, b: a * b, xs),
    "max": lambda xs: __import__("functools").reduce(torch.maximum, xs),
    "custom": lambda xs: sum((i + 1) * x for i, x in enumerate(xs)),
}


def custom_reduce(xs):
    return sum((i + 1) * x for i, x in enumerate(xs))


def _red(name):
    return custom_reduce if name == "custom" else name


LAMBDAS = {
    "sin": lambda x: torch.sin(x),
    "cmean": lambda x: x - x.mean(dim=1, keepdim=True),
}


# ---------------------------------------------------------------- build
def build(s):
    import continual as co

    k = s["k"]
    if k == "conv":
        n = s["n"]
        kw = dict(stride=_tp(s.get("s", 1), n), padding=_tp(s.get("p", 0), n), groups=s.get("g", 1),
                  dilation=_tp(s.get("d", 1), n),
                  bias=s.get("b", True), padding_mode=s.get("pm", "zeros"), temporal_fill=s.get("pm", "zeros"))
        if s.get("pos"):  # options by position
            return getattr(co, f"Conv{n}d")(s["ci"], s["co"], _tp(s["ks"], n), *[kw[q] for q in ("stride", "padding", "dilation", "groups", "bias", "padding_mode")], None, None, kw["temporal_fill"])
        if s.get("bare"):  # defaults are left out, equal numbers are given as one
            one = lambda v: v[0] if isinstance(v, tuple) and len(set(v)) == 1 else v
            kw = {q: one(v) for q, v in kw.items() if one(v) != dict(stride=1, padding=0, groups=1, dilation=1, bias=True).get(q, "zeros")}
            return getattr(co, f"Conv{n}d")(s["ci"], s["co"], one(_tp(s["ks"], n)), **kw)
        return getattr(co, f"Conv{n}d")(s["ci"], s["co"], _tp(s["ks"], n), **kw)
    if k in ("avg", "max"):
        n = s["n"]
        cls = getattr(co, f"{'Avg' if k == 'avg' else 'Max'}Pool{n}d")
        return cls(_tp(s["ks"], n), stride=_tp(s.get("s", 1), n), padding=_tp(s.get("p", 0), n),
                   dilation=(s.get("d", 1),) + (1,) * (n - 1))
    if k == "delay":
        return co.Delay(s["d"])
    if k == "relu":
        return nn.ReLU()
    if k == "sigmoid":
        return nn.Sigmoid()
    if k == "bn":
        return {1: nn.BatchNorm1d, 2: nn.BatchNorm2d, 3: nn.BatchNorm3d}[s["n"]](s["c"]).eval()
    if k == "softmax":
        return nn.Softmax(dim=1)
    if k == "dropout":
        return nn.Dropout(0.5)
    if k == "prelu":
        return nn.PReLU(s["c"])
    if k == "lambda":
        return co.Lambda(LAMBDAS[s["f"]], takes_time=s.get("tt", False))
    if k == "add":
        return co.Add(s["v"])
    if k == "mul":
        return co.Multiply(s["v"])
    if k == "identity":
        return co.Identity()
    if k == "linear":
        return co.Linear(s["ci"], s["co"], channel_dim=1, bias=s.get("b", True))
    if k == "rnn":
        return getattr(co, s["cell"])(s["ci"], s["co"], num_layers=s.get("l", 1))
    if k == "pe":
        return co.RecyclingPositionalEncoding(s["c"], s["ne"], forward_update_index_steps=s.get("fus", 0))
    if k == "seq":
        ms = [build(c) for c in s["m"]]
        st = s.get("style", "args")
        if st == "named":
            return co.Sequential(OrderedDict((f"n{i}", m) for i, m in enumerate(ms)))
        if st == "append":
            q = co.Sequential(ms[0])
            for m in ms[1:]:
                q.append(m)
            return q
        if st == "convert":
            return co.continual(nn.Sequential(*ms))
        return co.Sequential(*ms)
    if k == "res":
        return co.Residual(build(s["m"]), reduce=_red(s.get("r", "sum")), residual_shrink=s.get("shrink", False))
    if k == "bcr":
        ms = [build(c) for c in s["m"]]
        a = [OrderedDict((f"b{i}", m) for i, m in enumerate(ms))] if s.get("style") == "named" else ms
        return co.BroadcastReduce(*a, reduce=_red(s.get("r", "sum")))
    if k == "par":
        ms = [build(c) for c in s["m"]]
        a = [OrderedDict((f"b{i}", m) for i, m in enumerate(ms))] if s.get("style") == "named" else ms
        second = [co.ParallelDispatch(s["map"]), co.Parallel(*[build(c) for c in s["m2"]])] if "m2" in s else []
        return co.Sequential(co.Broadcast(len(ms) if s.get("num") else None), co.Parallel(*a), *second, co.Reduce(_red(s.get("r", "sum"))))
    if k == "cond":
        on_false = build(s["f"]) if s.get("f") is not None else None
        return co.Conditional(PRED[s["pred"]], build(s["t"]), on_false)
    raise ValueError(k)


# ---------------------------------------------------------------- oracle
def _spatial_pool(kind, n, ks, st, pd, x):
    """Pool spatial dims of x (B,C,T,*S) frame by frame."""
    if n == 1:
        return x
    B, C, T = x.shape[:3]
    y = x.transpose(1, 2).reshape(B * T, C, *x.shape[3:])
    fn = {("avg", 2): F.avg_pool1d, ("avg", 3): F.avg_pool2d, ("max", 2): F.max_pool1d, ("max", 3): F.max_pool2d}[(kind, n)]
    y = fn(y, ks[1:], st[1:], pd[1:])
    return y.reshape(B, T, C, *y.shape[2:]).transpose(1, 2)


def temporal_pool(kind, x, k, st, p, d):
    fill = 0.0 if kind == "avg" else float("-inf")
    pad = x.new_full((*x.shape[:2], p, *x.shape[3:]), fill)
    x = torch.cat([pad, x, pad], 2)
    L = x.shape[2] - d * (k - 1)
    outs = []
    for t in range(0, L, st):
        win = torch.stack([x[:, :, t + i * d] for i in range(k)], 0)
        outs.append(win.sum(0) / k if kind == "avg" else win.max(0).values)
    if not outs:
        return x[:, :, :0]
    return torch.stack(outs, 2)


def rnn_oracle(cell, m, x, hx=None):
    ref = getattr(nn, cell)(m.input_size, m.hidden_size, m.num_layers, bias=m.bias, batch_first=True).to(x.dtype)
    ref.load_state_dict({k: v.detach().clone() for k, v in m.state_dict().items()})
    if cell == "RNN":
        ref.nonlinearity = m.nonlinearity
        ref.mode = m.mode
    o, h = ref(x.transpose(1, 2), hx)
    return o.transpose(1, 2), h


def children(s, m):
    """Children modules of a built container in spec order, without inserted delays."""
    return list(m._modules.values())


def oracle(s, m, x):
    k = s["k"]
    if k == "conv":
        n = s["n"]
        p, st, d = _tp(s.get("p", 0), n), _tp(s.get("s", 1), n), _tp(s.get("d", 1), n)
        pm = s.get("pm", "zeros")
        if pm != "zeros":
            rp = []
            for v in reversed(p):
                rp += [v, v]
            x = F.pad(x, rp, mode=pm)
            p = (0,) * n
        return CONVF[n](x, m.weight, m.bias, st, p, d, s.get("g", 1))
    if k in ("avg", "max"):
        n = s["n"]
        ks, st, p = _tp(s["ks"], n), _tp(s.get("s", 1), n), _tp(s.get("p", 0), n)
        return temporal_pool(k, _spatial_pool(k, n, ks, st, p, x), ks[0], st[0], p[0], s.get("d", 1))
    if k in ("delay", "identity", "dropout"):
        return x
    if k == "relu":
        return x.clamp(min=0)
    if k == "sigmoid":
        return 1 / (1 + torch.exp(-x))
    if k == "softmax":
        return torch.exp(x - x.logsumexp(1, keepdim=True))
    if k == "prelu":
        w = m.weight.reshape(1, -1, *([1] * (x.dim() - 2)))
        return torch.where(x > 0, x, w * x)
    if k == "bn":
        sh = (1, -1, *([1] * (x.dim() - 2)))
        return (x - m.running_mean.reshape(sh)) / torch.sqrt(m.running_var.reshape(sh) + m.eps) * m.weight.reshape(sh) + m.bias.reshape(sh)
    if k == "lambda":
        return torch.stack([LAMBDAS[s["f"]](x[:, :, t]) for t in range(x.shape[2])], 2)
    if k == "add":
        return x + s["v"]
    if k == "mul":
        return x * s["v"]
    if k == "linear":
        o = torch.einsum("oc,bc...->bo...", m.weight, x)
        if m.bias is not None:
            o = o + m.bias.reshape(1, -1, *([1] * (x.dim() - 2)))
        return o
    if k == "rnn":
        return rnn_oracle(s["cell"], m, x)[0]
    if k == "pe":
        w = m.pe.weight
        idx = torch.arange(x.shape[2]) % s["ne"]
        return x + w[idx].t().unsqueeze(0)
    if k == "seq":
        for c, cm in zip(s["m"], children(s, m)):
            x = oracle(c, cm, x)
        return x
    if k == "res":
        inner = m._modules["1"]
        o = oracle(s["m"], inner, x)
        r = x
        if s.get("shrink"):
            cut = x.shape[2] - o.shape[2]
            if s["shrink"] in (True, "centered"):
                r = x[:, :, cut // 2: x.shape[2] - cut // 2]
            elif s["shrink"] == "lagging":
                r = x[:, :, : x.shape[2] - cut]
            else:
                r = x[:, :, cut:]
        return REDUCE[s.get("r", "sum")]([r, o])
    if k in ("bcr", "par"):
        mm = m if k == "bcr" else m[1]
        outs = []
        dmax = max(meta(c)[0] for c in s["m"])
        for c, cm in zip(s["m"], children(s, mm)):
            if meta(c)[0] < dmax:
                cm = cm[0]
            outs.append(oracle(c, cm, x))
        if "m2" in s:
            dmax = max(meta(c)[0] for c in s["m2"])
            outs = [oracle(c, cm[0] if meta(c)[0] < dmax else cm, outs[j]) for j, c, cm in zip(s["map"], s["m2"], children(s, m[3]))]
        return REDUCE[s.get("r", "sum")](outs)
    if k == "cond":
        d0, d1 = meta(s["t"])[0], meta(s["f"])[0] if s.get("f") is not None else 0
        if s["pred"] == "true":
            cm = m._modules["0"]
            return oracle(s["t"], cm if d0 >= d1 else cm[1], x)
        if s.get("f") is None:
            return x
        cm = m._modules["1"]
        return oracle(s["f"], cm if d1 >= d0 else cm[1], x)
    raise ValueError(k)


# ---------------------------------------------------------------- meta: (delay, stride, rf, padding)
def adv(s):
    """Like meta, but for what is advertised: a conditional module speaks for both of its branches."""
    return meta(s, True)


def meta(s, both=False):
    k = s["k"]
    if k in ("conv", "avg", "max"):
        n = s["n"]
        ks, st, p = _tp(s["ks"], n)[0], _tp(s.get("s", 1), n)[0], _tp(s.get("p", 0), n)[0]
        d = 1 if k == "conv" else s.get("d", 1)
        rf = d * (ks - 1) + 1
        return (rf - 1 - p, st, rf, p)
    if k == "delay":
        return (s["d"], 1, s["d"] + 1, 0)
    if k == "seq":
        rf, st, p = 1, 1, 0
        dl = 0
        for c in s["m"]:
            cd, cs, crf, cp = meta(c, both)
            dl += cd * st
            rf += (crf - 1) * st
            p += cp * st
            st *= cs
        return (dl, st, rf, p)
    if k == "res":
        d, st, rf, p = meta(s["m"], both)
        return (d, st, rf, p)
    if k in ("bcr", "par"):
        ms = [meta(c, both) for c in s["m"]]
        dm = max(m[0] for m in ms)
        r = (dm, ms[0][1], max(m[2] + dm - m[0] for m in ms), max(m[3] for m in ms))
        if "m2" in s:
            q = meta(dict(k="par", m=s["m2"]), both)
            r = (r[0] + q[0] * r[1], r[1] * q[1], r[2] + (q[2] - 1) * r[1], r[3] + q[3] * r[1])
        return r
    if k == "cond":
        a = meta(s["t"], both)
        b = meta(s["f"], both) if s.get("f") is not None else (0, 1, 1, 0)
        dm = max(a[0], b[0])
        if both:
            rf = max(a[2] + dm - a[0], b[2] + dm - b[0] if s.get("f") is not None else 1)
            return (dm, 1, rf, rf - 1 - dm)
        sel = a if s["pred"] == "true" else b
        if s["pred"] != "true" and s.get("f") is None:
            return (0, 1, 1, 0)  # behaviour: input passes straight through
        return (dm, 1, sel[2] + dm - sel[0], sel[3])
    return (0, 1, 1, 0)


# ---------------------------------------------------------------- random specs
def spatial(n):
    return {1: (), 2: (5,), 3: (4, 5)}[n]


def rnd_leaf(rng, n, c, stride_ok=True, shrink=None, pad_ok=True, kinds=None):
    """A leaf with c -> c channels which keeps spatial size. shrink: required k-1-2p (temporal), or None for any."""
    kind = rng.choice(kinds or ["conv", "conv", "conv", "avg", "max", "delay", "relu", "sigmoid", "bn", "lambda", "add", "mul", "linear", "prelu", "softmax", "dropout"])
    if kind in ("conv", "avg", "max"):
        d = 1
        sp = rng.choice([1, 3]) if n > 1 else 1
        if shrink is None:
            ks = rng.randint(1, 4)
            p = rng.randint(0, ks - 1) if pad_ok else 0
            if kind != "conv":
                p = min(p, ks // 2)
                # torch.nn average pooling has no dilation: only max pooling is comparable to its offline mode
                d = rng.choice([1, 1, 2, 3]) if p == 0 and kind == "max" else 1
        else:
            p = rng.randint(0, 2)
            ks = shrink + 1 + 2 * p
            if kind == "max" and p > ks // 2:
                p, ks = 0, shrink + 1
        st = rng.randint(1, 3) if stride_ok else 1
        if kind == "conv" and rng.random() < 0.2 and p > 0:
            pm = "replicate"
        else:
            pm = "zeros"
        s = dict(k=kind, n=n, ks=[ks] + [sp] * (n - 1), s=[st] + [1] * (n - 1), p=[p] + [sp // 2] * (n - 1))
        if kind == "conv":
            s.update(ci=c, co=c, b=rng.random() < 0.8, g=rng.choice([1, 1, c]), pm=pm)
        else:
            s["d"] = d
        return s
    if shrink:
        return rnd_leaf(rng, n, c, stride_ok, shrink, pad_ok, ["conv", "avg", "max"])
    if kind == "delay":
        return dict(k="delay", d=rng.randint(0, 4))
    if kind in ("bn", "prelu"):
        return dict(k=kind, n=n, c=c)
    if kind == "lambda":
        return dict(k="lambda", f=rng.choice(sorted(LAMBDAS)))
    if kind in ("add", "mul"):
        return dict(k=kind, v=rng.choice([2.0, -0.5]))
    if kind == "linear":
        return dict(k="linear", ci=c, co=c, b=rng.random() < 0.7)
    return dict(k=kind)


def rnd_net(rng, n, c, depth=2, stride_ok=True, shrink=None, pad_ok=True, par_ok=True, rnn_ok=False):
    """Random network with c -> c channels."""
    r = rng.random()
    if depth <= 0 or r < 0.25:
        return rnd_leaf(rng, n, c, stride_ok, shrink, pad_ok)
    if r < 0.6 or not par_ok:
        m = []
        left = shrink
        cnt = rng.randint(1, 3)
        for i in range(cnt):
            sh = None
            if shrink is not None:
                sh = left if i == cnt - 1 else rng.randint(0, left)
                left -= sh
            m.append(rnd_net(rng, n, c, depth - 1, stride_ok, sh, pad_ok, par_ok, rnn_ok))
        if rnn_ok and n == 1 and rng.random() < 0.3:
            m.append(dict(k="rnn", cell=rng.choice(["RNN", "GRU", "LSTM"]), ci=c, co=c, l=rng.randint(1, 2)))
        return dict(k="seq", m=m, style=rng.choice(["args", "named", "append", "args"]))
    if r < 0.75:
        sh = shrink if shrink is not None else rng.choice([0, 0, 2])
        inner = rnd_net(rng, n, c, depth - 1, False, sh, pad_ok, par_ok)
        inner = rnd_coleaf(rng, inner)
        if sh == 0:
            out = dict(k="res", m=inner, r=rng.choice(["sum", "mul", "max", "custom"]))
            d, _, rf, p = meta(inner)
            if rf == 1 + 2 * p and rng.random() < 0.3:  # a module that keeps the length: nothing to shrink
                out["shrink"] = rng.choice([True, "centered", "lagging", "leading"])
            return out
        d, _, rf, p = meta(inner)
        ok = p == 0 and d == sh  # an additional Delay inside would not shrink the whole-sequence output
        modes = ["lagging", "leading"] if ok else []
        if ok and d % 2 == 0:
            modes += [True, "centered"]
        if not modes:
            return inner
        return dict(k="res", m=inner, r="sum", shrink=rng.choice(modes))
    if r < 0.95:
        sh = shrink if shrink is not None else rng.choice([0, 0, 1, 2])
        ms = [rnd_coleaf(rng, rnd_net(rng, n, c, depth - 1, False, sh, pad_ok, par_ok)) for _ in range(rng.choice([2, 2, 2, 3, 3, 4]))]
        d = dict(k=rng.choice(["bcr", "par"]), m=ms, r=rng.choice(["sum", "mul", "max", "custom"]),
                 style=rng.choice(["args", "named"]), num=rng.random() < 0.5)
        if d["k"] == "par" and rng.random() < 0.4:
            d["m2"] = [rnd_coleaf(rng, rnd_leaf(rng, n, c, False, 0, pad_ok)) for _ in range(rng.randint(2, 3))]
            d["map"] = [rng.randrange(len(ms)) for _ in d["m2"]]
        return d
    if shrink in (None, 0):
        a = rnd_net(rng, n, c, depth - 1, False, 0, pad_ok, par_ok)
        b = rnd_net(rng, n, c, depth - 1, False, 0, pad_ok, par_ok)
        return dict(k="cond", t=a, f=b, pred=rng.choice(["true", "false"]))
    return rnd_leaf(rng, n, c, stride_ok, shrink, pad_ok)


RAW = {"relu", "sigmoid", "bn", "softmax", "dropout", "prelu"}


def rnd_coleaf(rng, s):
    """Branches of parallel containers have to be continual modules: wrap raw torch.nn ones (see known findings)."""
    return dict(k="seq", m=[s], style="args") if s["k"] in RAW else s


def min_len(s):
    d, st, rf, p = meta(s)
    return rf


def size(s):
    if isinstance(s, dict):
        return 1 + sum(size(v) for v in s.values())
    if isinstance(s, list):
        return sum(size(v) for v in s)
    return 0


def count_leaf(s, kind):
    if isinstance(s, dict):
        return (s.get("k") == kind) + sum(count_leaf(v, kind) for v in s.values())
    if isinstance(s, list):
        return sum(count_leaf(v, kind) for v in s)
    return 0
