"""C09/C08: dispatching, broadcasting and the reductions themselves."""
from collections import abc

from tensor import fmax, mul

from .lib import *  # noqa: F401,F403

from continual import container as C


class Mapping(SymSeq, abc.Sequence):
    """a dispatch mapping of any length; its elements are stream numbers down to the given nesting depth, numbers or nested mappings mixed"""

    def __init__(self, vc, name, n, depth, streams, mixed=True):
        self.mixed = mixed
        self.vc, self.name, self.depth = vc, name, depth
        self.f = z3.Function(f"{name}.to", I, I)
        self.kind = z3.Function(f"{name}.nested", I, B)
        self.sub = z3.Function(f"{name}.len", I, I)
        self.streams = streams
        SymSeq.__init__(self, n, self.elem)

    def nested(self, i):
        if self.depth > 2:
            return True
        return self.depth == 2 and (not self.mixed or self.vc.decide(self.kind(iterm(i))))

    def elem(self, i):
        vc = self.vc
        i = z3.simplify(iterm(i))
        if self.nested(i):
            n = self.sub(i)
            vc.add(n >= 0)
            return Sub(self, i, sint(n))
        v = self.f(i)
        vc.add(z3.And(v >= 0, v < iterm(self.streams)))
        return sint(v)

    __iter__ = None


class Sub(Mapping):
    """the mapping nested at position i"""

    def __init__(self, parent, i, n):
        self.vc, self.depth, self.streams, self.mixed = parent.vc, parent.depth - 1, parent.streams, parent.mixed
        self.name = f"{parent.name}[]"
        g = z3.Function(f"{self.name}.to", I, I, I)
        h = z3.Function(f"{self.name}.nested", I, I, B)
        l = z3.Function(f"{self.name}.len", I, I, I)
        key = parent.key(i) if isinstance(parent, Sub) else i
        self._key = key
        self.f, self.kind, self.sub = (lambda j: g(key, j)), (lambda j: h(key, j)), (lambda j: l(key, j))
        SymSeq.__init__(self, n, self.elem)

    def key(self, j):
        return z3.Function(f"{self.name}.key", I, I, I)(self._key, iterm(j))


for _c in (Mapping, Sub):
    _c.__abstractmethods__ = frozenset()


def dispatch_unit(mode):
    def u(vc):
        n = vc.int("streams", 1)
        shape = vc.choose("mapping", ["flat", "numbers and groups", "groups of groups"])
        depth = {"flat": 1, "numbers and groups": 2, "groups of groups": 3}[shape]
        M = Mapping(vc, "map", vc.int("outputs", 0), depth, n, mixed=depth == 2)
        m = co.ParallelDispatch(M)
        X = z3.Function("X", I, R)
        Bt, Cc = vc.label("B"), vc.label("C")
        dims = [Bt, Cc] + ([vc.int("T", 1)] if mode in ("forward", "forward_steps") else [])
        xs = SymSeq(n, lambda i: new(dims, lambda ix, q=X(z3.simplify(iterm(i))): q))
        st = "the state" if vc.choose("prev_state", ["none", "some"]) == "some" else None
        if mode == "functional":
            r = m._forward_step(xs, prev_state=st) if vc.choose("args", ["keyword", "positional"]) == "keyword" else m._forward_step(xs, st)
            if not (isinstance(r, tuple) and len(r) == 2):
                return vc.fail("the functional step returns output and state", type(r).__name__)
            with vc.of("C09 C06"):
                vc.ok("the functional step hands the state through") if r[1] is st else vc.fail("the functional step hands the state through", type(r[1]).__name__)
            o = r[0]
        elif mode == "forward":
            o = m.forward(xs)
        elif mode == "forward_step":
            o = m.forward_step(xs, vc.choose("update_state", [True, False]))
        else:
            o = m.forward_steps(xs, vc.choose("pad_end", [True, False]), vc.choose("update_state", [True, False]))
        compare(vc, f"every output stream of {mode} is the one the mapping names", o, M, X, dims)
        with vc.of("C10 C09"):
            vc.check("dispatching does not delay", z3.And(iterm(m.delay) == 0, iterm(m.stride[0]) == 1, iterm(m.padding[0]) == 0))
        with vc.of("C06 C09"):
            none(vc, "dispatching keeps no state", m.get_state())

    return u


def compare(vc, name, o, M, X, dims):
    if not isinstance(o, (SymSeq, list)):
        return vc.fail(name, f"expected a list of streams, got {type(o).__name__}")
    if isinstance(o, list):
        raise Unsupported("a list of known length for an abstract mapping")
    vc.check(name + " (count)", iterm(o.n) == iterm(M.n))
    j = vc.fresh("j")
    if not vc.sat(j >= 0, j < iterm(M.n), j < iterm(o.n)):
        return
    vc.assume(z3.And(j >= 0, j < iterm(M.n), j < iterm(o.n)))
    want, have = M.elem(j), o.at(sint(j))
    if isinstance(want, Mapping):
        return compare(vc, name, have, want, X, dims)
    if not isinstance(have, SymTensor):
        return vc.fail(name, f"expected a stream, got {type(have).__name__}")
    values(vc, name, have, dims, lambda ix: X(iterm(want)))


def refuse_unit(vc):
    """anything that is not a (nested) sequence of stream numbers is refused"""
    bad = vc.choose("mapping", ["int", "none", "string inside", "none inside", "float inside", "nested none", "set"])
    mp = {"int": 1, "none": None, "string inside": [0, 1.5], "none inside": [0, None], "float inside": [0.5], "nested none": [0, [1, [None]]], "set": {0, 1}}[bad]
    try:
        co.ParallelDispatch(mp)
    except (AssertionError, TypeError, ValueError):
        return vc.ok("a mapping that names no streams is refused")
    vc.fail("a mapping that names no streams is refused", repr(mp))


def broadcast_unit(mode):
    def u(vc):
        n = vc.int("streams", 1)
        m = co.Broadcast(n)
        x = Stream(vc, "X", [vc.label("B"), vc.label("C")])
        T = vc.int("T", 1)
        v = x.seq(T) if mode in ("forward", "forward_steps") else x.frame(0)
        o = {"forward": lambda: m.forward(v), "forward_step": lambda: m.forward_step(v, vc.choose("update_state", [True, False])), "forward_steps": lambda: m.forward_steps(v, vc.choose("pad_end", [True, False]), vc.choose("update_state", [True, False])), "functional": lambda: m._forward_step(v, None)}[mode]()
        if mode == "functional":
            if not (isinstance(o, tuple) and len(o) == 2 and o[1] is None):
                return vc.fail("the functional step returns output and no state", type(o).__name__)
            o = o[0]
        if not isinstance(o, (SymSeq, list)):
            return vc.fail("a broadcast yields a list of streams", type(o).__name__)
        cnt = o.n if isinstance(o, SymSeq) else len(o)
        vc.check("a broadcast yields as many streams as told", iterm(cnt) == iterm(n))
        j = vc.fresh("j")
        if vc.sat(j >= 0, j < iterm(n)):
            vc.assume(z3.And(j >= 0, j < iterm(n), j < iterm(cnt)))
            have = o.at(sint(j)) if isinstance(o, SymSeq) else o[0]
            if isinstance(have, SymTensor):
                equal(vc, "every stream of a broadcast is the input", have, v)
            else:
                vc.fail("every stream of a broadcast is the input", type(have).__name__)
        vc.check("broadcasting does not delay", z3.And(iterm(m.delay) == 0, iterm(m.stride[0]) == 1, iterm(m.padding[0]) == 0))

    return u


RN = 5


def reduce_unit(kind):
    def u(vc):
        n = vc.choose("streams", list(range(2, RN + 1)))
        via = vc.choose("via", ["function", "Reduce", "Reduce step", "Reduce steps", "Reduce functional"])
        steps = vc.choose("frames", ["frame", "frames"]) == "frames" if via == "function" else via in ("Reduce", "Reduce steps")
        Bt, Sp = vc.label("B"), vc.label("S")
        T = vc.int("T", 1)
        ch = [vc.int(f"c{i}", 1) if kind == "concat" else None for i in range(n)]
        cl = vc.label("C")
        f = [z3.Function(f"X{i}", I, I, R) for i in range(n)]
        tail = [T, Sp] if steps else [Sp]
        xs = [new([Bt, ch[i] if kind == "concat" else cl] + tail, lambda ix, i=i: f[i](ix[1] if kind == "concat" else z3.IntVal(0), ix[2] if steps else z3.IntVal(0))) for i in range(n)]
        before = [(x, x._st, x._st.writes) for x in xs]
        arg = list(xs)
        if via == "function":
            o = getattr(C, f"reduce_{kind}")(arg)
        else:
            m = co.Reduce(kind if vc.choose("by", ["name", "enum"]) == "name" else C.Reduction(kind))
            o = {"Reduce": lambda: m.forward(arg), "Reduce step": lambda: m.forward_step(arg), "Reduce steps": lambda: m.forward_steps(arg), "Reduce functional": lambda: m._forward_step(arg, None)[0]}[via]()
        if not some(vc, f"{kind} of streams is a stream", o):
            return
        tt = lambda ix: ix[2] if steps else z3.IntVal(0)
        if kind == "concat":
            def want(ix):
                c, off, r = ix[1], z3.IntVal(0), None
                cut = []
                for i in range(n):
                    cut.append((off, f[i], i))
                    off = z3.simplify(off + iterm(ch[i]))
                r = f[n - 1](z3.simplify(c - cut[-1][0]), tt(ix))
                for lo, g, i in reversed(cut[:-1]):
                    r = z3.If(c < lo + iterm(ch[i]), g(z3.simplify(c - lo), tt(ix)), r)
                return r

            total = sint(z3.simplify(z3.Sum([iterm(c) for c in ch])))
            values(vc, "streams are concatenated along the channels, in order", o, [Bt, total] + tail, want)
        else:
            def want(ix):
                vs = [g(z3.IntVal(0), tt(ix)) for g in f]
                r = vs[0]
                for v in vs[1:]:
                    r = r + v if kind == "sum" else mul(r, v) if kind == "mul" else fmax(r, v)
                return r

            values(vc, f"every stream takes part in the {kind}", o, [Bt, cl] + tail, want)
        bad = [1 for x, st, w in before if x._st is not st or st.writes != w]
        vc.fail("the streams are not written", "written in place") if bad else vc.ok("the streams are not written")

    return u


class FoldRule:
    """invariant of a loop that combines streams one by one: the running value is the combination of the first ones"""

    def __init__(self, vc, dims, S, name):
        self.vc, self.dims, self.S, self.name = vc, dims, S, name

    def __call__(self, loop):
        return _Fold(self)


class _Fold:
    def __init__(self, r):
        self.r, self.vc = r, r.vc

    def running(self, k):
        return new(self.r.dims, lambda ix: self.r.S(z3.simplify(k + 1), ix))

    def enter(self, loop):
        vc = self.vc
        self.role = {}
        for n in loop.names:
            v = loop.entry.get(n, self)
            if n not in loop.live:
                self.role[n] = "temp"
                loop.temps.add(n)
            else:
                self.role[n] = "running" if isinstance(v, SymTensor) else "same"
        if list(self.role.values()).count("running") != 1:
            raise Unsupported("a loop over the streams without a running value")
        nm = next(n for n, q in self.role.items() if q == "running")
        n = iterm(loop.s.n)
        what = vc.choose(f"loop {loop.where}", ["none", "first", "next", "after"])
        if what == "none":
            vc.assume(n <= 0)
            return False
        vc.assume(n >= 1)
        self.entry = loop.entry
        if what == "first":
            self.k = 0
            v = loop.entry[nm]
            ix = [vc.fresh("t") if isinstance(d, SInt) and d.atoms is None else None for d in self.r.dims]
            if len(v._dims) != len(self.r.dims) or not all(dims_equal(p, q) for p, q in zip(v._dims, self.r.dims)) or not vc.entails(v.val(ix) == self.r.S(z3.IntVal(1), ix)):
                raise Unsupported("no invariant for the running value")
            return True
        k = n
        if what == "next":
            k = vc.fresh("k")
            vc.assume(z3.And(k >= 1, k < n))
        self.k = sint(k)
        loop.values[nm] = self.running(k)
        return what == "next"

    def check(self, loop, loc):
        vc = self.vc
        k = z3.simplify(iterm(self.k))
        for n, q in self.role.items():
            if q == "running":
                v = loc.get(n)
                if not isinstance(v, SymTensor):
                    raise Unsupported("the running value has unexpected form")
                with vc.of("C08 C09"):
                    values(vc, self.r.name, v, self.r.dims, lambda ix: self.r.S(z3.simplify(k + 2), ix))
            elif q == "same" and loc.get(n) is not self.entry.get(n):
                raise Unsupported(f"no invariant for the loop variable {n}")


def reduce_any(kind):
    def u(vc):
        n = vc.int("streams", 2)
        via = vc.choose("via", ["function", "Reduce", "Reduce step", "Reduce steps", "Reduce functional"])
        steps = vc.choose("frames", ["frame", "frames"]) == "frames" if via == "function" else via in ("Reduce", "Reduce steps")
        dims = [vc.label("B"), vc.label("C")] + ([vc.int("T", 1)] if steps else []) + [vc.label("S")]
        X, A = z3.Function("X", I, I, R), z3.Function("combined", I, I, R)
        tt = lambda ix: z3.simplify(iterm(ix[2])) if steps else z3.IntVal(0)
        x = lambda i, t: X(z3.simplify(iterm(i)), t)
        arg = SymSeq(n, lambda i: new(list(dims), lambda ix: x(i, tt(ix))))
        op = lambda r, v: r + v if kind == "sum" else mul(r, v) if kind == "mul" else fmax(r, v)

        def S(j, ix):  # the combination of the first j streams
            t = tt(ix)
            vc.add(A(z3.IntVal(1), t) == x(0, t))
            vc.add(A(z3.simplify(j), t) == z3.If(j <= 1, x(0, t), op(A(z3.simplify(j - 1), t), x(j - 1, t))))
            return A(z3.simplify(j), t)

        vc.loop_rule = FoldRule(vc, dims, S, f"every stream takes part in the {kind}")
        if via == "function":
            o = getattr(C, f"reduce_{kind}")(arg)
        else:
            m = co.Reduce(kind if vc.choose("by", ["name", "enum"]) == "name" else C.Reduction(kind))
            o = {"Reduce": lambda: m.forward(arg), "Reduce step": lambda: m.forward_step(arg), "Reduce steps": lambda: m.forward_steps(arg), "Reduce functional": lambda: m._forward_step(arg, None)[0]}[via]()
        with vc.of("C08 C09"):
            if some(vc, f"{kind} of streams is a stream", o):
                values(vc, f"every stream takes part in the {kind}", o, dims, lambda ix: S(iterm(n), ix))

    return u


def concat_any(vc):
    """torch.cat of a list is a dependency: what is decided is that it gets every stream, in order and unchanged, along the channels, and that its result is passed on"""
    n = vc.int("streams", 2)
    via = vc.choose("via", ["function", "Reduce", "Reduce step", "Reduce steps", "Reduce functional"])
    steps = vc.choose("frames", ["frame", "frames"]) == "frames" if via == "function" else via in ("Reduce", "Reduce steps")
    B, S = vc.label("B"), vc.label("S")
    T = [vc.int("T", 1)] if steps else []
    X = z3.Function("X", I, I, R)
    tt = lambda ix: z3.simplify(iterm(ix[2])) if steps else z3.IntVal(0)
    dims = lambda i: [B, vc.label(f"C[{z3.simplify(iterm(i)).sexpr()}]")] + T + [S]
    arg = SymSeq(n, lambda i: new(dims(i), lambda ix: X(z3.simplify(iterm(i)), tt(ix))))
    whole = [B, vc.label("all channels")] + T + [S]
    Y = z3.Function("joined", I, R)
    calls = []

    def cat(ts, dim):
        name = "every stream is joined, in order, along the channels"
        with vc.of("C08 C09"):
            if not isinstance(dim, int) or dim not in (1, 1 - len(whole)):
                vc.fail(name, f"along dimension {dim}")
                raise PathEnd()
            vc.check(name + " (number)", iterm(ts.n) == iterm(n))
            j = vc.fresh("j")
            vc.assume(z3.And(j >= 0, j < iterm(n)))
            e = ts.at(sint(j))
            if some(vc, name, e):
                values(vc, name, e, dims(j), lambda ix: X(j, tt(ix)))
        calls.append(1)
        return new(list(whole), lambda ix: Y(tt(ix)))

    vc.cat_any = cat
    if via == "function":
        o = C.reduce_concat(arg)
    else:
        m = co.Reduce("concat" if vc.choose("by", ["name", "enum"]) == "name" else C.Reduction("concat"))
        o = {"Reduce": lambda: m.forward(arg), "Reduce step": lambda: m.forward_step(arg), "Reduce steps": lambda: m.forward_steps(arg), "Reduce functional": lambda: m._forward_step(arg, None)[0]}[via]()
    if len(calls) != 1:
        raise Unsupported("the streams are joined otherwise")
    with vc.of("C08 C09"):
        if some(vc, "the joined streams are a stream", o):
            values(vc, "the joined streams are passed on", o, whole, lambda ix: Y(tt(ix)))


D_ = "continual.container.ParallelDispatch."
for _m in ("forward", "forward_steps", "forward_step", "functional"):
    unit("C09 C06 C10", f"ParallelDispatch {_m}", f"{D_}__init__ {D_}forward {D_}forward_step {D_}forward_steps {D_}_forward_step", bounded="flat mappings, numbers mixed with groups, groups of groups (nesting depth up to 3); any number of streams, outputs and grouped streams", replay=lambda c, p: [dict(f="dispatch", mapping=mp, n=3, tup=False, T=3, seed=1) for mp in ([1, 0], [0, 1, 1], [[0, 1], 2], [2, [1, [0, 2]]])])(dispatch_unit(_m))
    unit("C09 C10", f"Broadcast {_m}", f"continual.container.Broadcast.__init__ continual.container.Broadcast.{_m if _m != 'functional' else '_forward_step'}")(broadcast_unit(_m))
unit("C09", "ParallelDispatch refusals", f"{D_}__init__")(refuse_unit)
for _k in ("sum", "concat", "mul", "max"):
    unit("C08 C09", f"reduce_{_k}", f"continual.container.reduce_{_k} continual.container.parse_reduce continual.container.Reduce.__init__ continual.container.Reduce.forward continual.container.Reduce.forward_step continual.container.Reduce.forward_steps continual.container.Reduce._forward_step continual.container.nonempty", bounded=f"2 to {RN} streams", replay=lambda c, p, k=_k: [dict(spec=dict(k="bcr", m=[dict(k="delay", d=1)] * n, r=k), n=1, extra=8, seed=1) for n in (2, 3, 4)] if p == "C08" else [dict(f="reduce", n=n, r=k, seed=1) for n in (2, 3, 4)])(reduce_unit(_k))
    if _k == "concat":
        unit("C08 C09", "reduce_concat of any number of streams", "continual.container.reduce_concat continual.container.Reduce.forward continual.container.Reduce.forward_step continual.container.Reduce.forward_steps continual.container.Reduce._forward_step continual.container.nonempty")(concat_any)
    else:
        unit("C08 C09", f"reduce_{_k} of any number of streams", f"continual.container.reduce_{_k} continual.container.Reduce.__init__ continual.container.Reduce.forward continual.container.Reduce.forward_step continual.container.Reduce.forward_steps continual.container.Reduce._forward_step continual.container.nonempty")(reduce_any(_k))
