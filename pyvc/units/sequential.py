"""C07: Sequential against the contracts of its parts."""
from collections import OrderedDict

from .parts import *  # noqa: F401,F403

FN = " ".join(f"continual.container.Sequential.{f}" for f in "__init__ add_module forward forward_step forward_steps _forward_step clean_state append".split()) + " continual.container.co_add_module continual.container.apply_forward continual.utils.temporary_parameter continual.module.CoModule._call_impl continual.module.CoModule.call_mode"
STYLES = ["args", "named", "append"]


def chain(vc, ops, X, lead, rest, W=None, T=None):
    """wire ops one after the other; values and lengths of the whole sequence likewise"""
    frame, whole, n = X, W, T
    for i, op in enumerate(ops):
        ol, orr = [lead[0], vc.label(f"C_{op.name}")], [vc.label(f"S_{op.name}{q}") for q in range(len(rest))]
        L = vc.int(f"len_{op.name}", 1)
        op.feed(frame, lead, rest, whole, n, ol, orr, L)
        frame, whole, n, lead, rest = op.F, op.W, L, ol, orr
    return lead, rest


def build(vc, parts, style):
    if style == "named":
        return co.Sequential(OrderedDict((f"part_{i}", m) for i, m in enumerate(parts)))
    if style == "append":
        q = co.Sequential(parts[0])
        for m in parts[1:]:
            r = q.append(m)
            if r is not q:
                vc.fail("append returns the network", "something else")
        return q
    return co.Sequential(*parts)


def positions(ops, N):
    """position of every part after N input frames"""
    ks = [iterm(N)]
    for op in ops[:-1]:
        op.mono(0, ks[-1])
        ks.append(z3.simplify(op.cnt(ks[-1])))
    return ks


def start(vc, ops, fresh, N):
    for op, k in zip(ops, positions(ops, 0 if fresh else N)):
        op.lemma(0)
        op.k = z3.IntVal(0) if fresh else k


def kept(vc, ops, ks, name, tags):
    with vc.of(tags):
        vc.check(name, z3.And(*[op.k == k for op, k in zip(ops, ks)]))


def run_step(vc, m, ops, x, N, fresh, tags="C07 C06"):
    """one step of the network m whose innermost parts are ops, against the specification"""
    before = [op.k for op in ops]
    up = vc.choose("update_state", [True, False])
    o = m.forward_step(x, up) if vc.choose("args", ["positional", "keyword"]) == "positional" else m.forward_step(x, update_state=up)
    tags = "C07 C04 C06" if up else "C07 C05"
    alive = True
    with vc.of(tags):
        for i, (op, k) in enumerate(zip(ops, before)):
            want = z3.simplify(k + 1) if up and alive else k
            vc.check("a part advances iff the part before it emitted", op.k == want)
            if alive:
                alive = vc.decide(op.E(k))
        last = ops[-1]
        if alive:
            if some(vc, "the network emits when its last part does", o):
                values(vc, "the output is the output of the last part", o, last.olead + last.orest, lambda ix: last.F(last.cnt(before[-1])))
        else:
            none(vc, "the network emits nothing when one of its parts does not", o)
        if up:
            vc.check("the parts stay in step with each other", z3.And(*[b.k == a.cnt(a.k) for a, b in zip(ops, ops[1:])]) if len(ops) > 1 else z3.BoolVal(True))


def sequential(n, style):
    def u(vc):
        lead, rest = stream_dims(vc, 2)
        X = z3.Function("X", I, R)
        Wx = z3.Function("Wx", I, R)
        ops = [Op(vc, f"part{i}") for i in range(n)]
        Tw = vc.int("Tw", 1)
        chain(vc, ops, lambda k: X(z3.simplify(iterm(k))), lead, rest, lambda t: Wx(z3.simplify(iterm(t))), Tw)
        last = ops[-1]
        parts = [some_part(vc, op) if i == n - 1 or style == "args" and n == 2 else Part(op) for i, op in enumerate(ops)]
        with vc.of("C07"):
            m = build(vc, parts, style)
            vc.ok("parts keep their order") if [id(c) for c in m] == [id(c) for c in parts] else vc.fail("parts keep their order", "other order")
        mode = vc.choose("mode", ["forward_step", "forward_steps", "functional", "forward", "padded", "clean"])
        fresh = mode in ("padded",) or vc.choose("state", ["fresh", "running"]) == "fresh"
        N = z3.IntVal(0) if fresh else iterm(vc.int("N", 1))
        start(vc, ops, fresh, N)
        before = [op.k for op in ops]
        own = [c._call_mode for c in m.modules()]
        a = len(lead)
        if mode == "forward_step":
            run_step(vc, m, ops, new(lead + rest, lambda ix: X(N)), N, fresh)
        elif mode == "forward_steps":
            T = vc.int("T", 1)
            x = new(lead + [T] + rest, lambda ix: X(z3.simplify(iterm(ix[a]) + N)))
            up = vc.choose("update_state", [True, False])
            o = m.forward_steps(x, update_state=up) if vc.choose("args", ["positional", "keyword"]) == "keyword" else m.forward_steps(x, False, up)
            with vc.of("C07 C04" if up else "C07 C05"):
                k0, k1 = before[0], z3.simplify(before[0] + iterm(T))
                for op in ops:
                    op.mono(k0, k1)
                    vc.check("a part advances by what the parts before it emitted", op.k == (k1 if up else k0))
                    k0, k1 = op.cnt(k0), op.cnt(k1)
                cnt = z3.simplify(k1 - k0)
                if vc.decide(cnt == 0):
                    none(vc, "nothing is returned when nothing is emitted", o)
                elif some(vc, "the outputs are returned", o):
                    values(vc, "the outputs are those of the last part, in order", o, last.olead + [sint(cnt)] + last.orest, lambda ix: last.F(k0 + iterm(ix[len(last.olead)])))
        elif mode == "functional":
            x = new(lead + rest, lambda ix: X(N))
            st = None
            if not fresh or vc.choose("given", ["none", "list"]) == "list":
                st = [None if fresh or (op.k is not before[0] and vc.decide(op.k == 0)) else op.token(op.k) for op in ops]
            orig = list(st) if st is not None else None
            r = m._forward_step(x, st)
            with vc.of("C07 C06"):
                if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], (list, tuple)) and len(r[1]) == n):
                    vc.fail("the functional step returns output and one state per part", "unexpected form")
                    return
                o, ns = r
                alive = True
                for i, (op, k) in enumerate(zip(ops, before)):
                    op.holds("the new state of a part is advanced iff the part before it emitted", ns[i], k + 1 if alive else k)
                    alive = alive and vc.decide(op.E(k))
                if alive:
                    if some(vc, "the functional step emits when its last part does", o):
                        values(vc, "the functional output is the output of the last part", o, last.olead + last.orest, lambda ix: last.F(last.cnt(before[-1])))
                else:
                    none(vc, "the functional step emits nothing when one of its parts does not", o)
                if orig is not None:
                    ok = len(orig) == len(st) and all(p is q for p, q in zip(orig, st))
                    vc.ok("the state that was passed is not rearranged") if ok else vc.fail("the state that was passed is not rearranged", "changed")
            kept(vc, ops, before, "the functional step leaves the state of the parts alone", "C06")
        elif mode == "forward":
            x = new(lead + [Tw] + rest, lambda ix: Wx(z3.simplify(iterm(ix[a]))))
            y = m.forward(x) if vc.choose("call", ["method", "call"]) == "method" else m(x)
            with vc.of("C07"):
                if some(vc, "whole-sequence mode is the composition of the parts", y):
                    values(vc, "whole-sequence mode is the composition of the parts", y, last.olead + [last.olen] + last.orest, lambda ix: last.W(ix[len(last.olead)]))
            kept(vc, ops, before, "whole-sequence calls leave the streaming state alone", "C06")
        elif mode == "padded":
            x = new(lead + [Tw] + rest, lambda ix: Wx(z3.simplify(iterm(ix[a]))))
            up = vc.choose("update_state", [True, False])
            y = m.forward_steps(x, True, up) if vc.choose("args", ["positional", "keyword"]) == "positional" else m.forward_steps(x, pad_end=True, update_state=up)
            with vc.of("C04" if up else "C05"):
                if some(vc, "the end-padded call over a whole sequence equals whole-sequence mode", y):
                    values(vc, "the end-padded call over a whole sequence equals whole-sequence mode", y, last.olead + [last.olen] + last.orest, lambda ix: last.W(ix[len(last.olead)]))
            if not up:
                kept(vc, ops, before, "the end-padded call without update leaves the state alone", "C05")
        else:
            m.clean_state()
            with vc.of("C06"):
                vc.check("cleaning cleans every part", z3.And(*[op.k == 0 for op in ops]))
        with vc.of("C17"):
            vc.ok("call modes are as before") if [c._call_mode for c in m.modules()] == own else vc.fail("call modes are as before", "changed")

    return u


for _n in (1, 2, 3):
    for _s in STYLES if _n > 1 else STYLES[:1]:
        unit("C07 C04 C05 C06 C17", f"Sequential of {_n} parts [{_s}]", FN, bounded="number of parts 1 to 3; parts, their states, streams and chunk lengths are arbitrary")(sequential(_n, _s))


# ---------------------------------------------------------------- advertised delay, stride, receptive field, padding
class Info(co.CoModule, shim.torch.nn.Module):
    """a part of which only the advertised numbers matter"""

    def __init__(self, vc, i):
        shim.torch.nn.Module.__init__(self)
        self.receptive_field = vc.int(f"rf{i}", 1)
        p = vc.int(f"p{i}", 0)
        vc.assume(iterm(p) < iterm(self.receptive_field))
        self.padding = (p,)
        self.stride = (vc.int(f"s{i}", 1),)

    def forward(self, input):
        return input


def identity(vc, name, a, b):
    """obligation: two polynomials are equal"""
    a, b = iterm(a), iterm(b)
    d = z3.simplify(a - b, som=True, sort_sums=True)
    if z3.is_int_value(d) and d.as_long() == 0:
        return vc.ok(name)
    vc.check(name, a == b)


def numbers(n):
    def u(vc):
        parts = [Info(vc, i) for i in range(n)]
        net = co.Sequential(*parts)
        rf, p, s, d = [iterm(q.receptive_field) for q in parts], [iterm(q.padding[0]) for q in parts], [iterm(q.stride[0]) for q in parts], [iterm(q.delay) for q in parts]
        # contract of a part: its m-th output appears at its step d + m s and looks at its frames m s - p ... m s - p + rf - 1
        m = iterm(vc.int("m", 0))
        at, old, new_ = m, m, m
        for i in reversed(range(n)):
            at, old, new_ = d[i] + at * s[i], old * s[i] - p[i], new_ * s[i] - p[i] + rf[i] - 1
        S = z3.IntVal(1)
        for q in s:
            S = S * q
        with vc.of("C10 C07"):
            vc.ok("stride is a tuple") if isinstance(net.stride, tuple) and isinstance(net.padding, tuple) else vc.fail("stride is a tuple", "other type")
            identity(vc, "the stride of a network is the product of the strides of its parts", net.stride[0], S)
            identity(vc, "the m-th output appears at step delay + m * stride", at, iterm(net.delay) + m * iterm(net.stride[0]))
        with vc.of("C10"):
            identity(vc, "the receptive field of a network spans from the oldest to the newest frame an output looks at", net.receptive_field, new_ - old + 1)
            identity(vc, "the padding of a network is how far its outputs reach before the first frame", old, m * iterm(net.stride[0]) - iterm(net.padding[0]))

    return u


for _n in (1, 2, 3, 4):
    unit("C10 C07", f"Sequential: advertised numbers of {_n} parts", "continual.container.Sequential.receptive_field continual.container.Sequential.stride continual.container.Sequential.padding continual.module.CoModule.delay", bounded="number of parts 1 to 4")(numbers(_n))
