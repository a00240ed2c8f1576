"""Shared helpers of the bounded concrete half (real torch, real library)."""
import copy
import os
import random
import sys
import warnings

os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")

import logging

logging.disable(logging.WARNING)
import torch

torch.set_num_threads(1)
torch.set_default_dtype(torch.float64)
torch.set_grad_enabled(False)

import continual as co  # noqa: E402
from specs import randn  # noqa: E402

TOL = 1e-8
# set per case by run.py: the caller overwrites its frames, and what it got, as soon as a call has returned
REUSE = False
STRIDED = False  # frames and chunks are handed over as strided views


def given(x):
    """a copy of x as the caller hands it over"""
    if not STRIDED:
        return x.clone()
    r = torch.full((*x.shape, 2), float("nan"), dtype=x.dtype)[..., 0]
    r.copy_(x)
    return r


class Fail(Exception):
    """The property does not hold on this case."""


def need(cond, msg):
    if not cond:
        raise Fail(msg)


def same(a, b, what, tol=TOL):
    if b is None:
        need(a is None, f"{what}: expected no output, got {_d(a)}")
        return
    need(isinstance(a, torch.Tensor), f"{what}: expected an output, got {_d(a)}")
    need(tuple(a.shape) == tuple(b.shape), f"{what}: shape {tuple(a.shape)} instead of {tuple(b.shape)}")
    if a.numel() == 0:
        return
    a, b = a.detach().to(torch.float64), b.detach().to(torch.float64)
    ok = (a == b) | ((a - b).abs() <= tol * (1 + b.abs()))
    if not bool(ok.all()):
        i = tuple((~ok).nonzero()[0].tolist())
        raise Fail(f"{what}: value at {i} is {a[i].item():.6g}, expected {b[i].item():.6g}")


def _d(a):
    return f"tensor{tuple(a.shape)}" if isinstance(a, torch.Tensor) else repr(a)[:80]


def steps(m, x, ts=None, **kw):
    """Single-step stream; every output is snapshot when emitted and compared with the object at the end."""
    outs, snap = [], []
    for t in ts if ts is not None else range(x.shape[2]):
        f = given(x[:, :, t])
        o = m.forward_step(f, **kw)
        outs.append(o)
        snap.append(o.detach().clone() if isinstance(o, torch.Tensor) else o)
        spoil(f, o)
    if REUSE:
        return snap
    for t, (o, s) in enumerate(zip(outs, snap)):
        if isinstance(o, torch.Tensor):
            same(o, s, f"output emitted at step {t} was altered later")
    return snap


def spoil(*ts):
    if REUSE:
        with torch.no_grad():
            for t in ts:
                if isinstance(t, torch.Tensor) and t.is_floating_point():
                    t.detach().fill_(float("nan"))


def expect_stream(outs, off, d, s, what="step"):
    """The m-th offline output appears at step d + m*s and nothing else is emitted."""
    for t, o in enumerate(outs):
        e = None
        if t >= d and (t - d) % s == 0:
            m = (t - d) // s
            need(m < off.shape[2], f"internal: offline result too short ({off.shape[2]}) for step {t}")
            e = off[:, :, m]
        same(o, e, f"{what} {t}")


def emitted(outs):
    outs = [o for o in outs if o is not None]
    return torch.stack(outs, 2) if outs else None


def rsplit(rng, T):
    """Random split of T into chunk sizes; negative means: process one by one with single steps."""
    out = []
    while T > 0:
        c = rng.randint(1, min(T, rng.choice([1, 2, 3, 8])))
        out.append(-c if rng.random() < 0.3 else c)
        T -= c
    return out


def run_chunks(m, x, chunks, dim=2):
    outs, t = [], 0
    for c in chunks:
        n = abs(c)
        seg = given(x.narrow(dim, t, n))
        if c < 0:
            for i in range(n):
                o = m.forward_step(seg.select(dim, i))
                if isinstance(o, torch.Tensor):
                    outs.append(o.detach().clone().unsqueeze(2))
                    spoil(o)
                else:
                    need(o is None, f"single step returned {_d(o)}")
            spoil(seg)
        else:
            o = m.forward_steps(seg)
            if isinstance(o, torch.Tensor):
                need(o.shape[2] > 0, "multi-step call returned an empty tensor")
                outs.append(o.detach().clone())
                spoil(o)
            else:
                need(o is None, f"multi-step call returned {_d(o)}")
            spoil(seg)
        t += n
    return torch.cat(outs, 2) if outs else None


def clone_state(s):
    if isinstance(s, torch.Tensor):
        return s.detach().clone()
    if isinstance(s, (list, tuple)):
        return type(s)(clone_state(i) for i in s)
    return copy.deepcopy(s)


def dup(m, make):
    """Twin of a module in its present state (wrapped torch.nn modules cannot be deep-copied, see known findings)."""
    tw = make()
    a, b = list(m.modules()), list(tw.modules())
    need([type(i) for i in a] == [type(i) for i in b], "internal: rebuilt module differs")
    for i, j in zip(a, b):
        for k, v in i._buffers.items():
            j._buffers[k] = None if v is None else v.detach().clone()
        for k, v in i.__dict__.items():
            if isinstance(v, (torch.Tensor, int)) or (isinstance(v, tuple) and v and all(isinstance(q, torch.Tensor) for q in v)):
                j.__dict__[k] = clone_state(v)
    return tw
