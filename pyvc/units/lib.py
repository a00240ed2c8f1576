"""Helpers shared by the contract units."""
import loader
import shim
from core import R, I, B, PathEnd, SBool, SInt, SReal, SymError, SymRange, SymSeq, Unsupported, Vc, bterm, iterm, sbool, sint, z3
from tensor import SymTensor, dims_equal, div, is_label, new, param, raw, real_torch, scalar, uf

UNITS = []


def unit(props, name, functions, **kw):
    """register a contract unit for one or more properties"""

    def deco(f):
        UNITS.append(dict(props=props.split(), name=name, fn=f, functions=functions.split(), **kw))
        return f

    return deco


co = loader.load()
zero = z3.RealVal(0)


class Stream:
    """the input stream: one uninterpreted value per time index, over label dimensions"""

    def __init__(self, vc, name, lead, rest=(), fill=None):
        self.X = z3.Function(name, I, R)
        self.lead, self.rest = list(lead), list(rest)

    def frame(self, t):
        t = iterm(t)
        return new(self.lead + self.rest, lambda idx: self.X(t))

    def seq(self, T, start=0):
        """(B, C, T, *rest)"""
        a, s = len(self.lead), iterm(start)
        return new(self.lead + [T] + self.rest, lambda idx: self.X(z3.simplify(idx[a] + s)))

    def at(self, t):
        return self.X(t)


def stream_dims(vc, n):
    """batch, channel and n-1 spatial labels"""
    return [vc.label("B"), vc.label("C")], [vc.label(f"S{q}") for q in range(n - 1)]


def same_dims(vc, name, t, dims):
    """obligation: the shape of t; python bool"""
    if not isinstance(t, real_torch.Tensor):
        vc.fail(name, f"expected a tensor, got {type(t).__name__}")
        return False
    td = t._dims if isinstance(t, SymTensor) else list(t.shape)
    ok = len(td) == len(dims) and all(_deq(vc, a, b) for a, b in zip(td, dims))
    if not ok:
        vc.fail(name, f"shape {td}, expected {list(dims)}")
    else:
        vc.ok(name)
    return ok


def _deq(vc, a, b):
    if is_label(a) or is_label(b):
        return is_label(a) and is_label(b) and sorted(a.atoms) == sorted(b.atoms)
    return vc.entails(iterm(a) == iterm(b))


def generic_index(vc, dims, hyp=()):
    """fresh in-range indices for the structural dimensions; returns (indices, hypothesis)"""
    idx, h = [], list(hyp)
    for d in dims:
        if is_label(d):
            idx.append(None)
        elif isinstance(d, int) and d == 1:
            idx.append(z3.IntVal(0))
        else:
            j = vc.fresh("q")
            idx.append(j)
            h += [j >= 0, j < iterm(d)]
    return idx, h


def equal(vc, name, a, b, where=None):
    """obligation: two tensors are equal (same shape, same value at every index)"""
    bd = b._dims if isinstance(b, SymTensor) else list(b.shape)
    if not same_dims(vc, name + " (shape)", a, bd):
        return
    at_every(vc, name, bd, lambda idx: val(a, idx) == val(b, idx))


def at_every(vc, name, dims, prop):
    idx, h = generic_index(vc, dims)
    vc.solver.push()
    npc = len(vc.pc)
    try:
        for c in h:
            vc.add(c)
        if not vc.sat():
            return vc.ok(name)
        vc.check(name, prop(idx))
    finally:
        vc.solver.pop()
        del vc.pc[npc:]


def values(vc, name, t, dims, fn):
    """obligation: t has shape dims and value fn(idx) everywhere"""
    if same_dims(vc, name + " (shape)", t, dims):
        at_every(vc, name, dims, lambda idx: val(t, idx) == fn(idx))


def val(t, idx):
    from tensor import wrap

    return wrap(t).val(idx)


def ring(vc, name, got, exp, size):
    """obligation: the ring position is the expected one; another number for the same slot (no output pending) is a different
    representation, not a violation"""
    d = z3.simplify(got - exp)
    if not vc.entails(d == 0) and vc.entails(z3.Or(d == 0, z3.And(got >= 0, exp >= 0, z3.Or(d == size, d == -size)))):
        return vc.record(name, "undecided", "same slot, other representation")
    vc.check(name, got == exp)


def none(vc, name, o):
    if o is None:
        vc.ok(name)
    else:
        vc.fail(name, f"expected no output, got {type(o).__name__}")


def some(vc, name, o):
    if isinstance(o, real_torch.Tensor):
        vc.ok(name)
        return True
    vc.fail(name, f"expected an output, got {type(o).__name__}")
    return False


def intval(x):
    """Int term of a state component"""
    return z3.simplify(iterm(x))


# -------------------------------------------------------------------- frame conditions
class Frame:
    """What a functional step may write: nothing but the first element of the state it is given."""

    def __init__(self, vc, module, state, inputs):
        self.vc, self.m = vc, module
        self.state = list(state) if isinstance(state, (tuple, list)) else []
        self.before = [(t, t._st, t._st.writes, t._st.fn) for t in self.state[1:] if isinstance(t, SymTensor)]
        self.inputs = [(t, t._st, t._st.writes) for t in inputs if isinstance(t, SymTensor)]
        self.attrs = self.snapshot()

    def snapshot(self):
        out = []
        for mod in self.m.modules():
            for n, v in sorted(mod.__dict__.items()):
                if n in ("_buffers", "_parameters"):
                    for k, t in v.items():
                        out.append((n, k, id(t), t._st.writes if isinstance(t, SymTensor) else getattr(t, "_version", 0), id(t._st) if isinstance(t, SymTensor) else 0))
                elif n == "_modules":
                    out.append((n, tuple(v.keys()), tuple(id(c) for c in v.values())))
                elif n.startswith("_") and n.endswith("hooks"):
                    continue
                else:
                    out.append((n, id(v)))
        return out

    def unchanged(self, name):
        """obligation: what the module held before it still holds; attributes that were added are no proof of disturbance"""
        before, after = set(map(str, self.attrs)), set(map(str, self.snapshot()))
        if before == after:
            return self.vc.ok(name)
        gone = before - after
        if gone:
            return self.vc.fail(name, f"changed: {sorted(gone)[:3]}")
        self.vc.record(name, "undecided", f"attributes were added: {sorted(after - before)[:3]}")

    def done(self, out, new_state, tags="C05 C06"):
        vc = self.vc
        with vc.of(tags):
            bad = [t for t, st, w, fn in self.before if t._st is not st or st.writes != w]
            if bad:
                vc.fail("only the first state element is written in place", "another state tensor was written")
            else:
                vc.ok("only the first state element is written in place")
            if [t for t, st, w in self.inputs if t._st is not st or st.writes != w]:
                vc.fail("the input frame is not written", "input written in place")
            else:
                vc.ok("the input frame is not written")
            self.unchanged("the functional step leaves the module's own state alone")
            st = [t._st for t in (new_state if isinstance(new_state, (tuple, list)) else []) if isinstance(t, SymTensor)]
            if isinstance(out, SymTensor) and any(out._st is q for q in st):
                vc.fail("the output does not share memory with the state", "output is a view of a state tensor")
            else:
                vc.ok("the output does not share memory with the state")
        with vc.of(tags + " C03"):
            # the caller may overwrite its frame once the call has returned
            if any(t._st is q for t, _, _ in self.inputs for q in st):
                vc.fail("the state does not share memory with the input frame", "a state tensor is the input or a view of it")
            elif any(q in t._st.deps for t, _, _ in self.inputs for q in st):
                vc.record("the state does not share memory with the input frame", "undecided", "a reshaped view of the input")
            else:
                vc.ok("the state does not share memory with the input frame")


def cint(cex, name, default, hi=9):
    """value of an integer in a counterexample, kept small enough to run"""
    try:
        v = int(cex.get(name, default))
    except (TypeError, ValueError):
        v = default
    return max(0, min(v, hi))


def spec_cases(prop, spec, n, warm, T=None):
    """concrete cases of the bounded half that exercise one module around a counterexample"""
    T = T or warm + 7
    if prop == "C04":
        return [dict(spec=spec, n=n, T=T, chunks=ch, seed=3, tail=3) for ch in ([T], [2] * (T // 2) + [1] * (T % 2), [-T])]
    if prop == "C05":
        u = ["u"] * warm
        return [dict(spec=spec, n=n, ev=u[:h] + ["n", "u", "c2", "u", "n", "u", "u", "u", "n"] + u, seed=4) for h in (0, warm // 2, warm)]
    if prop == "C06":
        return [dict(what=w, spec=spec, n=n, h=h, T=T, seed=5) for w in ("clean", "state", "functional", "offline") for h in (1, max(1, warm))]
    if prop == "C10":
        return [dict(spec=spec, n=n, seed=6)]
    return []
