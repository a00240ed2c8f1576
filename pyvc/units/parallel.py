"""C08/C09: parallel containers against the contracts of their branches and of the alignment delay."""
from collections import OrderedDict
from contextlib import contextmanager

from tensor import fmax, mul

from .sequential import *  # noqa: F401,F403
from .sequential import positions  # noqa: F401

from continual import container as C

BASE = " continual.container.Sequential.forward_step continual.container.Sequential.forward_steps continual.container.Sequential.forward continual.container.Sequential._forward_step continual.container.nonempty continual.container.apply_forward continual.utils.temporary_parameter continual.utils.num_from continual.module.CoModule._call_impl"
FN_BCR = " ".join(f"continual.container.BroadcastReduce.{f}" for f in "__init__ add_module forward forward_step forward_steps _forward_step clean_state delay receptive_field stride padding".split()) + BASE
FN_PAR = " ".join(f"continual.container.Parallel.{f}" for f in "__init__ add_module forward forward_step forward_steps _forward_step clean_state delay receptive_field stride padding".split()) + BASE


class DelayStub(Part):
    """contract of Delay (proved for the class itself in units/delay.py): the m-th emission is frame m (+ d if centred), first at step d (2 d if centred)"""

    def __init__(self, delay, temporal_fill="zeros", auto_shrink=False):
        vc = Vc.cur
        vc.nstub = getattr(vc, "nstub", 0) + 1
        vc.check("a delay is not negative", iterm(delay) >= 0)
        if auto_shrink not in (True, False, "centered", "lagging"):
            vc.fail("auto_shrink is one of the documented options", repr(auto_shrink))
        if temporal_fill not in ("zeros", "replicate"):
            vc.fail("temporal_fill is one of the documented options", repr(temporal_fill))
        mid = auto_shrink is True or auto_shrink == "centered"
        off = delay if mid else 0
        op = Op(vc, f"delay{vc.nstub}", 2 * delay if mid else delay, 1, 0, out=lambda o, m: o.frame(z3.simplify(m + iterm(off))))
        super().__init__(op)
        self.shrink, self.dl, self.off = auto_shrink, delay, off
        self.receptive_field = delay + 1

    def attach(self, frame, lead, rest, whole, n):
        op, d, off = self.op, iterm(self.dl), iterm(self.off)
        op.W = lambda t: whole(z3.simplify(iterm(t) + off))
        L = n if not self.shrink else sint(z3.simplify(iterm(n) - (2 * d if self.off is self.dl else d)))
        op.feed(frame, lead, rest, whole, n, lead, rest, L)
        return op.F, op.W, lead, rest, L


class SkipStub(Part):
    """contract of Skip: drops the first d frames"""

    def __init__(self, steps):
        vc = Vc.cur
        vc.nstub = getattr(vc, "nstub", 0) + 1
        vc.check("a skip is positive", iterm(steps) >= 1)
        super().__init__(Op(vc, f"skip{vc.nstub}", steps, 1, 0, out=lambda o, m: o.frame(z3.simplify(m + iterm(steps)))))
        self.dl = steps
        self.receptive_field = 1
        self.__dict__["_d0"] = True

    @property
    def delay(self):
        return 0

    def attach(self, frame, lead, rest, whole, n):
        d = iterm(self.dl)
        op = self.op
        op.W = lambda t: whole(z3.simplify(iterm(t) + d))
        L = sint(z3.simplify(iterm(n) - d))
        op.feed(frame, lead, rest, whole, n, lead, rest, L)
        return op.F, op.W, lead, rest, L


@contextmanager
def stubs():
    """Delay and Skip inside containers are their contracts"""
    old = {n: getattr(C, n) for n in ("Delay", "Skip") if hasattr(C, n)}
    try:
        for n in old:
            setattr(C, n, DelayStub if n == "Delay" else SkipStub)
        yield
    finally:
        for n, v in old.items():
            setattr(C, n, v)


class Branch(Part):
    """an abstract branch with its own output sequence"""

    def __init__(self, op, olen, odims):
        super().__init__(op)
        self.olen, self.odims = olen, odims

    def attach(self, frame, lead, rest, whole, n):
        self.op.feed(frame, lead, rest, whole, n, self.odims[0], self.odims[1], self.olen)
        return self.op.F, self.op.W, self.odims[0], self.odims[1], self.olen


def leaves(m):
    """the leaf parts of nested sequences, in processing order"""
    if isinstance(m, Part):
        return [m]
    if type(m) is C.Sequential:
        return [q for c in m for q in leaves(c)]
    raise Unsupported(f"a branch became a {type(m).__name__}")


def attach(m, frame, lead, rest, whole, n):
    ls = leaves(m)
    for q in ls:
        frame, whole_, lead, rest, n = q.attach(frame, lead, rest, whole, n)
        whole = whole_
    return ls


def at(branch, N):
    """positions of the leaves of a branch after N frames"""
    return positions([q.op for q in branch], N)


def place(branches, N):
    for b in branches:
        for q, k in zip(b, at(b, N)):
            q.op.lemma(0)
            q.op.k = k


def placed(vc, name, branches, N):
    """obligation: every leaf is where it is after N frames"""
    for b in branches:
        for q in b:
            q.op.lemma(iterm(N) - 1)
        vc.check(name, z3.And(*[q.op.k == k for q, k in zip(b, at(b, N))]))


RED = {
    "sum": lambda vs: z3.Sum(vs),
    "mul": lambda vs: vs[0] if len(vs) == 1 else mul(RED["mul"](vs[:-1]), vs[-1]),
    "max": lambda vs: vs[0] if len(vs) == 1 else fmax(RED["max"](vs[:-1]), vs[-1]),
    "custom": lambda vs: uf("combine", *vs),
}


def custom(vc):
    def combine(inputs):
        inputs = list(inputs)
        if not all(isinstance(i, SymTensor) for i in inputs):
            vc.fail("the reduction gets tensors only", str([type(i).__name__ for i in inputs]))
            raise PathEnd()
        d = inputs[0]._dims
        for i in inputs:
            if not same_dims(vc, "the reduction gets streams of one shape", i, d):
                raise PathEnd()
        fs = [i.val for i in inputs]
        return new(list(d), lambda ix: uf("combine", *[f(ix) for f in fs]))

    return combine


def streams(vc):
    lead, rest = stream_dims(vc, 2)
    X, Wx = z3.Function("X", I, R), z3.Function("Wx", I, R)
    return lead, rest, (lambda k: X(z3.simplify(iterm(k)))), (lambda t: Wx(z3.simplify(iterm(t))))


def make_branches(vc, n, kind, lead, rest, pads=True):
    """abstract branches: `delays` (differing delays, stride one) or `strided` (common delay and stride)"""
    odims = ([lead[0], vc.label("Co")], [vc.label("So")])
    L = vc.int("len_out", 1)
    if kind == "strided":
        d, s = vc.int("d", 0), vc.int("s", 1)
        return [Branch(Op(vc, f"branch{i}", d, s, vc.int(f"p{i}", 0) if pads else 0), L, odims) for i in range(n)], odims, L, iterm(d)
    ds = [vc.int(f"d{i}", 0) for i in range(n)]
    D = iterm(ds[0])
    for d in ds[1:]:
        D = z3.If(iterm(d) > D, iterm(d), D)
    return [Branch(Op(vc, f"branch{i}", d, 1, vc.int(f"p{i}", 0) if pads else 0), L, odims) for i, d in enumerate(ds)], odims, L, z3.simplify(D)


MODES = ["forward_step", "forward_steps", "functional", "forward", "padded", "clean"]


def bcr(n, kind, red, style="args", modes=MODES):
    def u(vc):
        with stubs():
            lead, rest, X, Wx = streams(vc)
            parts, odims, L, D = make_branches(vc, n, kind, lead, rest, n < 3)
            r = custom(vc) if red == "custom" else red
            m = co.BroadcastReduce(*parts, reduce=r) if style == "args" else co.BroadcastReduce(OrderedDict((f"br_{i}", q) for i, q in enumerate(parts)), reduce=r)
            Tw = vc.int("Tw", 1)
            children = list(m)
            with vc.of("C08"):
                if len(children) != n:
                    vc.fail("one child per branch", str(len(children)))
                    return
                bs = [attach(c, X, lead, rest, Wx, Tw) for c in children]
                if [[q for q in b if isinstance(q, Branch)] for b in bs] != [[p] for p in parts]:
                    vc.fail("every branch is kept, in order", "other parts")
                    return
                vc.ok("every branch is kept, in order")
            numbers_of(vc, m, parts, D)
            s = parts[0].op.s
            total = Op(vc, "net", sint(D), s)  # emission of the aligned network
            exercise(vc, m, bs, parts, total, [X], lead, rest, [Wx], Tw, odims, L, RED[red], modes=modes)

    return u


def numbers_of(vc, m, parts, D):
    with vc.of("C10 C08"):
        vc.check("the delay is that of the slowest branch", iterm(m.delay) == D)
    with vc.of("C10"):
        rfs = [iterm(q.receptive_field) + D - iterm(q.op.d) for q in parts]
        vc.check("the receptive field covers the aligned branches", z3.And(z3.And(*[iterm(m.receptive_field) >= r for r in rfs]), z3.Or(*[iterm(m.receptive_field) == r for r in rfs])))
        vc.check("the stride is that of the branches", iterm(m.stride[0]) == iterm(parts[0].op.s))
        vc.check("padding, delay and receptive field agree", iterm(m.receptive_field) - 1 - iterm(m.padding[0]) == D)


def exercise(vc, m, bs, parts, total, Xs, lead, rest, Ws, Tw, odims, L, combine, many=False, listout=False, modes=MODES, main=None):
    """every mode of m; many: the input is a list of streams; listout: the output is"""
    mode = vc.choose("mode", modes)
    fresh = mode == "padded" or vc.choose("state", ["fresh", "running"]) == "fresh"
    N = z3.IntVal(0) if fresh else iterm(vc.int("N", 1))
    place(bs, N)
    a = len(lead)
    before = [[q.op.k for q in b] for b in bs]
    own = [c._call_mode for c in m.modules()]
    inp = lambda mk: [mk(x) for x in Xs] if many else mk(Xs[0])
    od = odims[0] + odims[1]

    def outputs(name, o, dims, fn):
        """obligation: the output is the combination of fn(part)(index)"""
        if listout:
            if not isinstance(o, (list, tuple)) or len(o) != len(parts):
                return vc.fail(name, f"expected {len(parts)} streams, got {type(o).__name__}")
            for q, part in zip(o, parts):
                if some(vc, name, q):
                    values(vc, name, q, dims, fn(part))
        elif some(vc, name, o):
            values(vc, name, o, dims, lambda ix: combine([fn(p)(ix) for p in parts]))

    def nothing(name, o):
        if listout:
            if isinstance(o, (list, tuple)) and len(o) == len(parts):
                for q in o:
                    none(vc, name, q)
            else:
                vc.fail(name, f"expected a list of streams, got {type(o).__name__}")
        else:
            none(vc, name, o)

    def same_state(name, tags):
        with vc.of(tags):
            vc.check(name, z3.And(*[q.op.k == k for b, ks in zip(bs, before) for q, k in zip(b, ks)]))

    main = main or ("C09 C08" if many or listout else "C08")
    if mode == "forward_step":
        x = inp(lambda X: new(lead + rest, lambda ix: X(N)))
        up = vc.choose("update_state", [True, False])
        o = m.forward_step(x, up) if vc.choose("args", ["positional", "keyword"]) == "positional" else m.forward_step(x, update_state=up)
        with vc.of(main + (" C04 C06" if up else " C05")):
            if vc.decide(total.E(N)):
                j = total.cnt(N)
                outputs("a step yields the reduction of the branches' outputs for the same time", o, od, lambda p: lambda ix: p.op.F(j))
            else:
                nothing("a step yields nothing until every branch has an output", o)
            if up:
                placed(vc, "every branch has seen the frame", bs, N + 1)
        if not up:
            same_state("a step without update leaves the branches alone", "C05")
    elif mode == "forward_steps":
        T = vc.int("T", 1)
        x = inp(lambda X: new(lead + [T] + rest, lambda ix: X(z3.simplify(iterm(ix[a]) + N))))
        up = vc.choose("update_state", [True, False])
        o = m.forward_steps(x, update_state=up) if vc.choose("args", ["positional", "keyword"]) == "keyword" else m.forward_steps(x, False, up)
        with vc.of(main + (" C04" if up else " C05")):
            c0, c1 = total.cnt(N), total.cnt(N + iterm(T))
            if vc.decide(c1 == c0):
                nothing("a chunk without outputs yields nothing", o)
            else:
                outputs("a chunk yields the reduction of the branches' outputs for the same times", o, odims[0] + [sint(z3.simplify(c1 - c0))] + odims[1], lambda p: lambda ix: p.op.F(c0 + iterm(ix[len(odims[0])])))
            if up:
                placed(vc, "every branch has seen the chunk", bs, N + iterm(T))
        if not up:
            same_state("a chunk without update leaves the branches alone", "C05")
    elif mode == "functional":
        x = inp(lambda X: new(lead + rest, lambda ix: X(N)))
        leafstate = lambda q: None if fresh or vc.decide(q.op.k == 0) else q.op.token(q.op.k)
        st = None
        if not fresh or vc.choose("given", ["none", "list"]) == "list":
            st = [state_for(c, b, leafstate) for c, b in zip(m, bs)]
        orig = list(st) if st is not None else None
        r = m._forward_step(x, st)
        with vc.of(main + " C06"):
            if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], (list, tuple)) and len(r[1]) == len(bs)):
                vc.fail("the functional step returns output and one state per branch", "unexpected form")
                return
            o, ns = r
            if vc.decide(total.E(N)):
                j = total.cnt(N)
                outputs("the functional step yields the reduction of the branches' outputs for the same time", o, od, lambda p: lambda ix: p.op.F(j))
            else:
                nothing("the functional step yields nothing until every branch has an output", o)
            for c, b, s in zip(m, bs, ns):
                for q, k in zip(b, at(b, N)):
                    q.op.lemma(k)
                flat = flat_state(c, b, s)
                if flat is None:
                    vc.fail("the new state has the form of the branch", f"{type(s).__name__}")
                    continue
                for q, k, z in zip(b, at(b, N + 1), flat):
                    q.op.holds("the new state is that of the branch after the frame", z, k)
            if orig is not None:
                ok = len(orig) == len(st) and all(p is q for p, q in zip(orig, st))
                vc.ok("the state that was passed is not rearranged") if ok else vc.fail("the state that was passed is not rearranged", "changed")
        same_state("the functional step leaves the branches' own states alone", "C06")
    elif mode == "forward":
        x = [new(lead + [Tw] + rest, lambda ix, W=W: W(ix[a])) for W in Ws] if many else new(lead + [Tw] + rest, lambda ix: Ws[0](ix[a]))
        y = m.forward(x) if vc.choose("call", ["method", "call"]) == "method" else m(x)
        with vc.of(main):
            outputs("whole-sequence mode is the reduction of the branches' whole sequences", y, odims[0] + [L] + odims[1], lambda p: lambda ix: p.op.W(ix[len(odims[0])]))
        same_state("whole-sequence calls leave the streaming state alone", "C06")
    elif mode == "padded":
        x = [new(lead + [Tw] + rest, lambda ix, W=W: W(ix[a])) for W in Ws] if many else new(lead + [Tw] + rest, lambda ix: Ws[0](ix[a]))
        up = vc.choose("update_state", [True, False])
        y = m.forward_steps(x, True, up) if vc.choose("args", ["positional", "keyword"]) == "positional" else m.forward_steps(x, pad_end=True, update_state=up)
        with vc.of(main + (" C04" if up else " C05")):
            outputs("the end-padded call over a whole sequence equals whole-sequence mode", y, odims[0] + [L] + odims[1], lambda p: lambda ix: p.op.W(ix[len(odims[0])]))
        if not up:
            same_state("the end-padded call without update leaves the branches alone", "C05")
    else:
        m.clean_state()
        with vc.of("C06"):
            vc.check("cleaning cleans every branch", z3.And(*[q.op.k == 0 for b in bs for q in b]))
    with vc.of("C17"):
        vc.ok("call modes are as before") if [c._call_mode for c in m.modules()] == own else vc.fail("call modes are as before", "changed")


def state_for(c, b, leafstate):
    if isinstance(c, Part):
        return leafstate(c)
    st = [state_for(q, None, leafstate) for q in c]
    return None if all(s is None for s in st) else st


def flat_state(c, b, s):
    """states of the leaves in a (nested) state; None if it has another form"""
    if isinstance(c, Part):
        return [s]
    if s is None:
        return [None] * len(leaves(c))
    if not isinstance(s, (list, tuple)) or len(s) != len(list(c)):
        return None
    out = []
    for q, z in zip(c, s):
        f = flat_state(q, None, z)
        if f is None:
            return None
        out += f
    return out


BR = "number of branches 2 and 3; branches, delays, states, streams and chunk lengths are arbitrary"
for _k in ("delays", "strided"):
    unit("C08 C04 C05 C06 C10 C17", f"BroadcastReduce of 2 {_k} [custom]", FN_BCR, bounded=BR)(bcr(2, _k, "custom"))
for _m in (MODES[:1], MODES[1:2], MODES[2:3], MODES[3:]):
    unit("C08 C04 C05 C06 C17", f"BroadcastReduce of 3 delays [custom] {' '.join(_m)}", FN_BCR, bounded=BR)(bcr(3, "delays", "custom", "named", _m))


def bcr_numbers(vc):
    with stubs():
        lead, rest, X, Wx = streams(vc)
        parts, odims, L, D = make_branches(vc, 3, "delays", lead, rest)
        numbers_of(vc, co.BroadcastReduce(*parts), parts, D)


unit("C10 C08", "BroadcastReduce: advertised numbers of 3 branches", FN_BCR, bounded=BR)(bcr_numbers)
for _r in ("sum", "mul", "max"):
    unit("C08", f"BroadcastReduce of 2 delays [{_r}]", FN_BCR + f" continual.container.reduce_{_r}", bounded=BR)(bcr(2, "delays", _r))
    unit("C08", f"BroadcastReduce of 3 strided [{_r}]", FN_BCR + f" continual.container.reduce_{_r}", bounded=BR)(bcr(3, "strided", _r))


# ---------------------------------------------------------------- Parallel
def parallel(n, kind, modes=MODES):
    def u(vc):
        with stubs():
            lead, rest, _, _ = streams(vc)
            Xs = [(lambda k, f=z3.Function(f"X{i}", I, R): f(z3.simplify(iterm(k)))) for i in range(n)]
            Ws = [(lambda k, f=z3.Function(f"W{i}", I, R): f(z3.simplify(iterm(k)))) for i in range(n)]
            parts, odims, L, D = make_branches(vc, n, kind, lead, rest, n < 3)
            m = co.Parallel(*parts) if vc.choose("style", ["args", "named"]) == "args" else co.Parallel(OrderedDict((f"br_{i}", q) for i, q in enumerate(parts)))
            Tw = vc.int("Tw", 1)
            with vc.of("C09 C08"):
                children = list(m)
                if len(children) != n:
                    vc.fail("one child per stream", str(len(children)))
                    return
                bs = [attach(c, X, lead, rest, W, Tw) for c, X, W in zip(children, Xs, Ws)]
                if [[q for q in b if isinstance(q, Branch)] for b in bs] != [[p] for p in parts]:
                    vc.fail("every part is kept, in order", "other parts")
                    return
                vc.ok("every part is kept, in order")
            numbers_of(vc, m, parts, D)
            total = Op(vc, "net", sint(D), parts[0].op.s)
            exercise(vc, m, bs, parts, total, Xs, lead, rest, Ws, Tw, odims, L, None, many=True, listout=True, modes=modes)

    return u


FORKS = (["forward_step"], ["forward_steps"], ["functional"], ["forward", "padded", "clean"])
for _n, _k in ((1, "delays"), (2, "delays"), (2, "strided"), (3, "delays")):
    for _m in [MODES] if (_n, _k) != (3, "delays") else FORKS:
        unit("C09 C08 C04 C05 C06 C10 C17", f"Parallel of {_n} {_k} {' '.join(_m) if len(_m) < 3 else ''}", FN_PAR, bounded=BR)(parallel(_n, _k, _m))


def parallel_none(n):
    """streams that have no output yet do not disturb the part behind them"""

    def u(vc):
        with stubs():
            lead, rest, X, Wx = streams(vc)
            parts, odims, L, D = make_branches(vc, n, "strided", lead, rest)
            m = co.Parallel(*parts)
            bs = [attach(c, X, lead, rest, Wx, vc.int("Tw", 1)) for c in m]
            fresh = vc.choose("state", ["fresh", "running"]) == "fresh"
            N = z3.IntVal(0) if fresh else iterm(vc.int("N", 1))
            place(bs, N)
            gone = [vc.choose(f"stream {i}", ["present", "missing"]) == "missing" for i in range(n)]
            mode = vc.choose("mode", ["forward_step", "forward_steps", "functional"])
            x1 = new(lead + rest, lambda ix: X(N))
            with vc.of("C09 C07"):
                if mode == "functional":
                    st = [None if fresh else q.op.token(q.op.k) for q in parts]
                    r = m._forward_step([None if g else x1 for g in gone], st)
                    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], (list, tuple)) and isinstance(r[1], (list, tuple)) and len(r[0]) == len(r[1]) == n):
                        return vc.fail("the functional step returns outputs and states", "unexpected form")
                    for q, g, o, s, s0 in zip(parts, gone, r[0], r[1], st):
                        if g:
                            none(vc, "a missing stream yields a missing stream", o)
                            if s is s0:
                                vc.ok("a part behind a missing stream keeps its state")
                            else:
                                q.op.holds("a part behind a missing stream keeps its state", s, N)
                        else:
                            q.op.lemma(N)
                            q.op.holds("a part behind a present stream advances", s, N + 1)
                    return
                up = vc.choose("update_state", [True, False])
                T = vc.int("T", 1)
                if mode == "forward_step":
                    o = m.forward_step([None if g else x1 for g in gone], update_state=up)
                    T = 1
                else:
                    a = len(lead)
                    xs = new(lead + [T] + rest, lambda ix: X(z3.simplify(iterm(ix[a]) + N)))
                    o = m.forward_steps([None if g else xs for g in gone], update_state=up)
                if not isinstance(o, (list, tuple)) or len(o) != n:
                    return vc.fail("one output per stream", type(o).__name__)
                for q, g, v in zip(parts, gone, o):
                    if g:
                        none(vc, "a missing stream yields a missing stream", v)
                        vc.check("a part behind a missing stream keeps its state", q.op.k == N)
                    else:
                        vc.check("a part behind a present stream advances", q.op.k == (z3.simplify(N + iterm(T)) if up else N))

    return u


unit("C09 C07", "Parallel with missing streams", FN_PAR, bounded=BR)(parallel_none(2))


# ---------------------------------------------------------------- Sequential(Broadcast, Parallel, [Dispatch, Parallel,] Reduce)
def routed(n, modes, num, red="custom"):
    def u(vc):
        with stubs():
            lead, rest, X, Wx = streams(vc)
            parts, odims, L, D = make_branches(vc, n, "delays", lead, rest, False)
            par = co.Parallel(*parts)
            m = co.Sequential(co.Broadcast(n if num else None), par, co.Reduce(custom(vc) if red == "custom" else red))
            Tw = vc.int("Tw", 1)
            bs = [attach(c, X, lead, rest, Wx, Tw) for c in par]
            total = Op(vc, "net", sint(D), 1)

            class View:  # the functional state of the whole network: one entry per stage
                def __init__(self):
                    self.__dict__.update(forward_step=m.forward_step, forward_steps=m.forward_steps, forward=m.forward, clean_state=m.clean_state, modules=m.modules)

                def __iter__(self):
                    return iter(par)

                def __call__(self, *a):
                    return m(*a)

                def _forward_step(self, x, st):
                    r = m._forward_step(x, None if st is None else [None, st, None])
                    if not (isinstance(r, tuple) and isinstance(r[1], (list, tuple)) and len(r[1]) == 3):
                        return r
                    return r[0], r[1][1]

            with vc.of("C10 C09"):
                vc.check("the delay of the network is that of the slowest branch", iterm(m.delay) == D)
            exercise(vc, View(), bs, parts, total, [X], lead, rest, [Wx], Tw, odims, L, RED[red], modes=modes)

    return u


FN_ROUTE = FN_PAR + " " + " ".join(f"continual.container.{c}.{f}" for c in ("Broadcast", "Reduce") for f in "__init__ forward forward_step forward_steps _forward_step".split()) + " continual.container.Sequential.__init__"
for _m in FORKS:
    unit("C09 C08 C04 C05 C06 C10", f"Broadcast, Parallel, Reduce {' '.join(_m)}", FN_ROUTE, bounded=BR)(routed(2, _m, False))
def inferred(vc):
    """a Broadcast that was not told its number of streams takes that of the Parallel behind it, wherever it stands; one that was told keeps it"""
    with stubs():
        lead, rest, X, Wx = streams(vc)
        parts, odims, L, D = make_branches(vc, 2, "delays", lead, rest, False)
        n = vc.choose("branches", [1, 2])
        told = vc.choose("told", [False, True])
        before = vc.choose("before", [0, 1])
        b = co.Broadcast(n if told else None)
        par = co.Parallel(*parts[:n])
        seq = [co.Multiply(1)] * before + [b, par]
        m = co.Sequential(*seq) if vc.choose("style", ["args", "named"]) == "args" else co.Sequential(OrderedDict((f"s_{i}", q) for i, q in enumerate(seq)))
        for c in par:
            attach(c, X, lead, rest, Wx, L)
        o = m.forward(new(lead + [L] + rest, lambda ix: Wx(ix[len(lead)])))
        if isinstance(o, (list, tuple)) and len(o) == n:
            vc.ok("a broadcast in front of parallel branches feeds each of them")
        else:
            vc.fail("a broadcast in front of parallel branches feeds each of them", f"{type(o).__name__} of {len(o) if isinstance(o, (list, tuple)) else '?'} for {n} branches")


unit("C09", "Broadcast followed by Parallel", FN_ROUTE, bounded=BR)(inferred)
unit("C09 C08", "Broadcast(3), Parallel, Reduce", FN_ROUTE, bounded=BR)(routed(3, ["forward_step", "forward"], True, "sum"))


# ---------------------------------------------------------------- Residual
class Fixed:
    """what the specification says about one input of the reduction"""

    def __init__(self, F, W):
        self.op = self
        self.F, self.W, self.s = F, W, 1


def residual(shrink, modes):
    def u(vc):
        with stubs():
            lead, rest, X, Wx = streams(vc)
            Tw = vc.int("Tw", 1)
            keeps = not shrink or vc.choose("module", ["shortens", "keeps the length"]) == "keeps the length"
            p = vc.int("p", 0) if keeps else 0
            if keeps:  # nothing to shrink
                d, off, L = p, z3.IntVal(0), Tw
            elif shrink in (True, "centered"):
                h = vc.int("h", 0 if False else 1)
                d, off, L = 2 * h, iterm(h), sint(iterm(Tw) - 2 * iterm(h))
            else:
                d = vc.int("d", 1)
                off, L = (iterm(d) if shrink == "leading" else z3.IntVal(0)), sint(iterm(Tw) - iterm(d))
            vc.assume(iterm(L) >= 1)
            part = Branch(Op(vc, "module", d, 1, p), L, (lead, rest))
            m = co.Residual(part, reduce=custom(vc), residual_shrink=shrink) if shrink else co.Residual(part, None, custom(vc))
            children = list(m)
            with vc.of("C08"):
                if len(children) != 2:
                    return vc.fail("a residual has two branches", str(len(children)))
                bs = [attach(c, X, lead, rest, Wx, Tw) for c in children]
                if [q for b in bs for q in b if isinstance(q, Branch)] != [part]:
                    return vc.fail("the module is kept", "other parts")
                first = any(q is part for q in bs[0])
                skip = Fixed(lambda j: X(z3.simplify(iterm(j) + off)), lambda t: Wx(z3.simplify(iterm(t) + off)))
                parts = [part, skip] if first else [skip, part]
            with vc.of("C10 C08"):
                vc.check("the delay is that of the module", iterm(m.delay) == iterm(d))
            with vc.of("C10"):
                vc.check("the receptive field is that of the module", iterm(m.receptive_field) == iterm(part.receptive_field))
                vc.check("the stride is one", iterm(m.stride[0]) == 1)
                vc.check("padding, delay and receptive field agree", iterm(m.receptive_field) - 1 - iterm(m.padding[0]) == iterm(d))
            total = Op(vc, "net", d, 1)
            exercise(vc, m, bs, parts, total, [X], lead, rest, [Wx], Tw, (lead, rest), L, RED["custom"], modes=modes)

    return u


for _s in (False, True, "centered", "lagging", "leading"):
    unit("C08 C04 C05 C06 C10", f"Residual shrink={_s}", "continual.container.Residual " + FN_BCR)(residual(_s, MODES))


# ---------------------------------------------------------------- Conditional
FN_COND = " ".join(f"continual.container.Conditional.{f}" for f in "__init__ forward forward_step forward_steps _forward_step clean_state delay receptive_field stride padding".split())


def conditional(two, kind="delays"):
    def u(vc):
        with stubs():
            lead, rest, X, Wx = streams(vc)
            parts, odims, L, D = make_branches(vc, 2 if two else 1, kind, lead, rest)
            S = iterm(parts[0].op.s)
            Tw = vc.int("Tw", 1)
            sel = vc.choose("predicate", [True, False])
            calls = []

            def predicate(mod, x):
                calls.append((mod, x))
                return sel

            m = co.Conditional(predicate, *parts)
            kids = [m._modules[q] for q in sorted(m._modules)]
            with vc.of("C11"):
                if len(kids) != len(parts):
                    return vc.fail("one child per branch", str(len(kids)))
                bs = [attach(c, X, lead, rest, Wx, Tw) for c in kids]
                if [[q for q in b if isinstance(q, Branch)] for b in bs] != [[p] for p in parts]:
                    return vc.fail("every branch is kept, in order", "other parts")
            with vc.of("C10 C11"):
                vc.check("the delay is that of the slower branch", iterm(m.delay) == D)
            with vc.of("C10"):
                vc.check("the stride is that of the branches", z3.And(*[iterm(q) == S for q in m.stride]))
                rfs = [iterm(q.receptive_field) + D - iterm(q.op.d) for q in parts]
                vc.check("the receptive field covers the aligned branches", z3.And(z3.And(*[iterm(m.receptive_field) >= r for r in rfs]), z3.Or(*[iterm(m.receptive_field) == r for r in rfs])))
                vc.check("padding, delay and receptive field agree", iterm(m.receptive_field) - 1 - iterm(m.padding[0]) == D)
            if not two and not sel:
                return passthrough(vc, m, bs, X, Wx, lead, rest, Tw, calls)
            i = 0 if sel else 1
            chosen, other = bs[i], bs[1 - i] if two else []
            idle = [iterm(vc.int(f"idle{j}", 0)) for j, _ in enumerate(other)]
            for q, k in zip(other, idle):
                q.op.k = k

            class View:
                """the selected branch alone"""

                def __init__(self):
                    self.__dict__.update(clean_state=m.clean_state, modules=m.modules)

                def __iter__(self):
                    return iter([kids[i]])

                def asked(self, x, r):
                    with vc.of("C11"):
                        ok = len(calls) > 0 and all(c[0] is m and c[1] is x for c in calls)
                        vc.ok("the predicate is asked about the module and the input") if ok else vc.fail("the predicate is asked about the module and the input", f"{len(calls)} calls")
                        if other:
                            vc.check("the branch that is not selected is left alone", z3.And(*[q.op.k == k for q, k in zip(other, idle)]))
                    return r

                def forward_step(self, x, *a, **k):
                    return self.asked(x, m.forward_step(x, *a, **k))

                def forward_steps(self, x, *a, **k):
                    return self.asked(x, m.forward_steps(x, *a, **k))

                def forward(self, x):
                    return self.asked(x, m.forward(x))

                def __call__(self, x):
                    return self.asked(x, m(x))

                def _forward_step(self, x, st):
                    full = None
                    rest_state = [q.op.token(k) for q, k in zip(other, idle)]
                    keep = rest_state[0] if len(rest_state) == 1 else rest_state
                    if st is not None:
                        full = [keep] * len(kids)
                        full[i] = st[0]
                    r = m._forward_step(x, full)
                    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], (list, tuple)) and len(r[1]) == len(kids)):
                        return r
                    with vc.of("C11 C06"):
                        if two and st is not None:
                            vc.ok("the functional step keeps the state of the branch that is not selected") if r[1][1 - i] is keep else vc.fail("the functional step keeps the state of the branch that is not selected", "another state")
                        elif two:
                            none(vc, "the functional step invents no state for the branch that is not selected", r[1][1 - i])
                    return self.asked(x, (r[0], [r[1][i]]))

            total = Op(vc, "net", sint(D), sint(S))
            view = View()
            mode = vc.choose("what", ["run", "clean"])
            if mode == "clean":
                m.clean_state()
                with vc.of("C11 C06"):
                    vc.check("cleaning cleans both branches", z3.And(*[q.op.k == 0 for b in bs for q in b]))
                return
            with vc.of("C11"):
                exercise(vc, view, [chosen], [parts[i]], total, [X], lead, rest, [Wx], Tw, odims, L, lambda vs: vs[0], modes=MODES[:-1], main="C11")

    return u


def passthrough(vc, m, bs, X, Wx, lead, rest, Tw, calls):
    """no module for the outcome: the input passes, nothing is advanced"""
    k = iterm(vc.int("idle", 0))
    for q in bs[0]:
        q.op.k = k
    mode = vc.choose("mode", ["forward_step", "forward_steps", "functional", "forward", "padded"])
    up = vc.choose("update_state", [True, False])
    a = len(lead)
    frame = new(lead + rest, lambda ix: X(0))
    seq = new(lead + [Tw] + rest, lambda ix: Wx(ix[a]))
    x = frame if mode in ("forward_step", "functional") else seq
    st = [q.op.token(k) for q in bs[0]][:1]
    with vc.of("C11"):
        if mode == "forward_step":
            o = m.forward_step(x, update_state=up)
        elif mode == "functional":
            r = m._forward_step(x, st)
            if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], (list, tuple)) and len(r[1]) == 1):
                return vc.fail("the functional step returns output and states", "unexpected form")
            o = r[0]
            vc.ok("the state of the idle branch is kept") if r[1][0] is st[0] else vc.fail("the state of the idle branch is kept", "another state")
        elif mode == "forward":
            o = m.forward(x)
        else:
            o = m.forward_steps(x, pad_end=mode == "padded", update_state=up)
        if some(vc, "the input passes when no module is selected", o):
            equal(vc, "the input passes when no module is selected", o, x)
        vc.check("the branch that is not selected is left alone", z3.And(*[q.op.k == k for q in bs[0]]))
        vc.ok("the predicate is asked about the module and the input") if calls and all(c[0] is m and c[1] is x for c in calls) else vc.fail("the predicate is asked about the module and the input", f"{len(calls)} calls")


unit("C11 C04 C05 C06 C10", "Conditional with two branches", FN_COND)(conditional(True))
unit("C11 C04 C05 C06 C10", "Conditional with one branch", FN_COND)(conditional(False))
unit("C11 C04 C05 C06 C10", "Conditional with two strided branches", FN_COND)(conditional(True, "strided"))


def conditional_plain(vc):
    """plain torch.nn modules as branches: converted, then the same contract"""
    X = Stream(vc, "X", [vc.label("B"), vc.label("C")])
    sel = vc.choose("predicate", [True, False])
    two = vc.choose("branches", [False, True])
    calls = []
    made = (lambda k: k()) if vc.choose("branches are", ["plain", "already wrapped"]) == "plain" else (lambda k: co.continual(k()))
    m = co.Conditional(lambda mod, x: calls.append((mod, x)) or sel, made(real_torch.nn.Sigmoid), *([made(real_torch.nn.Tanh)] if two else []))
    f = (lambda v: uf("sigmoid", v)) if sel else (lambda v: uf("tanh", v)) if two else (lambda v: v)
    with vc.of("C11 C10"):
        vc.check("plain branches: no delay, stride one, receptive field one", z3.And(iterm(m.delay) == 0, iterm(m.receptive_field) == 1, iterm(m.stride[0]) == 1, iterm(m.padding[0]) == 0))
    mode = vc.choose("mode", ["forward_step", "forward_steps", "functional", "forward", "call forward_step", "call forward_steps"])
    up = vc.choose("update_state", [True, False])
    T, t = vc.int("T", 1), iterm(vc.int("t", 0))
    single = mode in ("forward_step", "functional", "call forward_step")
    x = X.frame(t) if single else X.seq(T)
    with vc.of("C11"):
        if mode == "forward_step":
            o = m.forward_step(x, update_state=up)
        elif mode == "functional":
            r = m._forward_step(x, None)
            if not (isinstance(r, tuple) and len(r) == 2):
                return vc.fail("the functional step returns output and states", "unexpected form")
            o = r[0]
        elif mode == "forward":
            o = m.forward(x)
        elif mode.startswith("call "):
            with co.call_mode(mode.split()[1]):
                o = m(x)
        else:
            o = m.forward_steps(x, pad_end=vc.choose("pad_end", [False, True]), update_state=up)
        if some(vc, "a plain branch yields an output", o):
            if single:
                values(vc, "a plain branch is applied to the frame", o, X.lead, lambda ix: f(X.X(t)))
            else:
                values(vc, "a plain branch is applied to each time step", o, X.lead + [T], lambda ix: f(X.X(ix[2])))
        vc.ok("the predicate is asked about the module and the input") if calls and all(c[0] is m and c[1] is x for c in calls) else vc.fail("the predicate is asked about the module and the input", f"{len(calls)} calls")


unit("C11", "Conditional over plain modules", FN_COND + " continual.convert.continual")(conditional_plain)
