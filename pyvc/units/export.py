"""C20: the flat list of state tensors and the nested state map onto each other; the export wrapper threads them."""
from collections import abc

from core import fdiv

from .lib import *  # noqa: F401,F403

from continual import onnx as OX
from continual import utils as UT


class patched:
    """a callee replaced by its contract while its caller is verified"""

    def __init__(self, mod, **kw):
        self.mod, self.kw = mod, kw

    def __enter__(self):
        self.old = {k: getattr(self.mod, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.mod, k, v)
        return self.old

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.mod, k, v)


# ---- _flatten: structural induction over nested sequences
class Node(abc.Sequence):
    """a nested sequence of unknown length and contents"""

    def __init__(self, name, n):
        self.name, self.n = name, n
        self.first = self.rest = None

    def _vc_len(self):
        return self.n

    def __len__(self):
        raise Unsupported("length of an abstract sequence")

    def __bool__(self):
        return bool(self.n > 0)

    def __iter__(self):
        raise Unsupported("iteration over an abstract nested sequence")

    def __getitem__(self, i):
        vc = Vc.cur
        if i == 0 and not isinstance(i, slice):
            if not vc.entails(iterm(self.n) >= 1):
                raise IndexError("list index out of range")
            self.first = self.first or Leaf(f"{self.name}[0]")
            return self.first
        if isinstance(i, slice) and i.start == 1 and i.stop is None and i.step is None:
            self.rest = self.rest or Node(f"{self.name}[1:]", sint(z3.If(iterm(self.n) > 0, iterm(self.n) - 1, 0)))
            return self.rest
        raise Unsupported("access to an abstract nested sequence")


class Leaf:
    def __init__(self, name):
        self.name = name


class Word:
    """element of the free monoid over leaves: concatenation of ("leaves of", x) and single items"""

    def __init__(self, parts):
        self.parts = list(parts)

    def __add__(self, o):
        return Word(self.parts + parts_of(o))

    def __radd__(self, o):
        return Word(parts_of(o) + self.parts)

    def __iter__(self):
        raise Unsupported("iteration over an abstract list")


def parts_of(o):
    if isinstance(o, Word):
        return o.parts
    if isinstance(o, (list, tuple)):
        return [("item", id(v)) for v in o]
    raise Unsupported(f"concatenation with {type(o).__name__}")


def flatten_unit(vc):
    leaves = lambda x, *a, **k: Word([("leaves", id(x))]) if not (a or k) else (_ for _ in ()).throw(Unsupported("extra arguments"))
    kind = vc.choose("argument", ["leaf", "empty", "nonempty"])
    with patched(UT, _flatten=leaves) as old:
        f = old["_flatten"]
        if kind == "leaf":
            x = vc.choose("leaf", ["tensor", "none"])
            x = new([vc.label("B")], lambda ix: zero) if x == "tensor" else None
            r = f(x)
            ok = isinstance(r, (list, tuple, Word)) and parts_of(r) == [("item", id(x))]
            vc.ok("a leaf flattens to itself") if ok else vc.fail("a leaf flattens to itself", str(type(r).__name__))
            return
        n = vc.int("n", 0 if kind == "empty" else 1, 0 if kind == "empty" else None)
        x = Node("x", n)
        r = f(x)
        if kind == "empty":
            ok = isinstance(r, (list, tuple, Word)) and parts_of(r) == []
            vc.ok("an empty sequence flattens to nothing") if ok else vc.fail("an empty sequence flattens to nothing", str(r))
        else:
            ok = isinstance(r, (list, tuple, Word)) and x.first is not None and x.rest is not None and parts_of(r) == [("leaves", id(x.first)), ("leaves", id(x.rest))]
            vc.ok("a sequence flattens to the leaves of its first element, then those of the others") if ok else vc.fail("a sequence flattens to the leaves of its first element, then those of the others", str(getattr(r, "parts", r)))


def flatten_none_unit(vc):
    """flatten: the leaves in order; None removed iff asked"""
    n = vc.choose("n", [0, 1, 3])
    items = [vc.choose(f"i{q}", ["tensor", "none"]) for q in range(n)]
    ts = [new([vc.label("B")], lambda ix: zero) if i == "tensor" else None for i in items]
    arg = Node("x", vc.int("len", 0))
    rm = vc.choose("remove_none", ["default", True, False])
    with patched(UT, _flatten=lambda x, *a: list(ts) if x is arg and not a else (_ for _ in ()).throw(Unsupported("argument"))) as _:
        r = UT.flatten(arg) if rm == "default" else UT.flatten(arg, remove_none=rm)
    want = ts if rm is False else [t for t in ts if t is not None]
    ok = isinstance(r, list) and len(r) == len(want) and all(a is b for a, b in zip(r, want))
    vc.ok("flatten keeps every leaf once and in order (None only on request)") if ok else vc.fail("flatten keeps every leaf once and in order (None only on request)", str(r))


# ---- _shape_list: the inverse, a loop over a sequence of any length
class Tok:
    def __init__(self, i):
        self.i = i


class Nested:
    """contract of _shape_list for one child: the flat elements from start on, nested like child i"""

    def __init__(self, i, start):
        self.i, self.start = i, start


class ShapeRule:
    def __init__(self, P, idx0):
        self.P, self.idx0 = P, idx0

    def __call__(self, loop):
        self.loop = loop
        return self

    def enter(self, loop):
        vc = Vc.cur
        n = iterm(loop.s.n)
        what = vc.choose("loop", ["none", "any", "after"])
        accs = [nm for nm in loop.names if isinstance(loop.entry.get(nm), list)]
        ints = [nm for nm in loop.names if isinstance(loop.entry.get(nm), SInt)]
        if len(accs) != 1 or len(ints) != 1 or loop.entry[accs[0]]:
            raise Unsupported("no invariant for this loop")
        self.acc, self.pos = accs[0], ints[0]
        loop.temps.update(nm for nm in loop.names if nm not in (self.acc, self.pos))
        vc.check("the loop starts at the given position", iterm(loop.entry[self.pos]) == self.idx0)
        if what == "none":
            vc.assume(n == 0)
            return False
        if what == "any":
            k = vc.fresh("k")
            vc.assume(z3.And(k >= 0, k < n))
        else:
            k = n
            vc.assume(n >= 1)
        self.k = sint(k)
        vc.add(z3.Implies(k == 0, self.P(k) == 0))
        loop.values[self.pos] = sint(self.idx0 + self.P(k))
        loop.values[self.acc] = SymSeq(sint(k), lambda j: Nested(iterm(j), self.idx0 + self.P(iterm(j))))
        if what == "any":
            vc.add(self.P(k + 1) == self.P(k) + self.size(k))
            vc.add(z3.And(self.size(k) >= 0, self.P(k) >= 0))
        return what == "any"

    def check(self, loop, loc):
        vc, k = Vc.cur, iterm(self.k)
        r, idx = loc.get(self.acc), loc.get(self.pos)
        if not isinstance(r, SymSeq) or not isinstance(idx, (SInt, int)):
            raise Unsupported("loop variables changed their form")
        vc.check("the position moves past the tensors of the child", iterm(idx) == self.idx0 + self.P(k + 1))
        vc.check("one entry per child", iterm(r.n) == k + 1)
        e = r.at(self.k)
        if not isinstance(e, Nested):
            return vc.fail("the entry of a child is its nested state", type(e).__name__)
        vc.check("the entry of a child is its nested state", z3.And(e.i == k, e.start == self.idx0 + self.P(k)))
        j = vc.fresh("j")
        vc.solver.push()
        npc = len(vc.pc)
        try:
            vc.add(z3.And(j >= 0, j < k))
            if vc.sat():
                e = r.at(sint(j))
                vc.check("earlier entries stay", z3.And(e.i == j, e.start == self.idx0 + self.P(j)))
        finally:
            vc.solver.pop()
            del vc.pc[npc:]


class Child:
    def __init__(self, i):
        self.i = i


def shape_list_unit(vc):
    L, idx = vc.int("L", 0), vc.int("idx", 0)
    lst = SymSeq(L, lambda i: Tok(iterm(i)))
    kind = vc.choose("shape", ["number", "sequence"])
    size, P = z3.Function("size", I, I), z3.Function("prefix", I, I)

    def contract(l, s, i=0):
        if l is not lst or not isinstance(s, Child):
            raise Unsupported("recursive call with something else")
        k = s.i
        vc.check("recursive calls get a valid position", z3.And(iterm(i) >= 0, iterm(i) + size(k) <= iterm(L)))
        return Nested(k, iterm(i)), sint(iterm(i) + size(k))

    with patched(OX, _shape_list=contract) as old:
        f = old["_shape_list"]
        if kind == "number":
            n = vc.int("n", 0)
            vc.assume(iterm(idx) + iterm(n) <= iterm(L))
            if vc.choose("call", ["with position", "default"]) == "default":
                vc.assume(iterm(idx) == 0)
                r = f(lst, n)
            else:
                r = f(lst, n, idx)
            if not (isinstance(r, tuple) and len(r) == 2):
                return vc.fail("returns the tensors and the next position", type(r).__name__)
            r, nxt = r
            vc.check("the next position is past the tensors", iterm(nxt) == iterm(idx) + iterm(n))
            if not isinstance(r, SymSeq):
                return vc.fail("a number takes that many tensors", type(r).__name__)
            vc.check("a number takes that many tensors", iterm(r.n) == iterm(n))
            j = vc.fresh("j")
            vc.add(z3.And(j >= 0, j < iterm(n)))
            if vc.sat():
                vc.check("they are taken in order", r.at(sint(j)).i == iterm(idx) + j)
            return
        n = vc.int("children", 0)
        shape = SymSeq(n, lambda i: Child(z3.simplify(iterm(i))))
        q = z3.Int("q!")
        vc.add(P(z3.IntVal(0)) == 0)
        vc.assume(iterm(idx) + P(iterm(n)) <= iterm(L))
        rule = ShapeRule(P, iterm(idx))
        rule.size = size
        # lemma: prefix sums of non-negative sizes never exceed the total
        vc.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < iterm(n)), P(q + 1) <= P(iterm(n)))))
        vc.loop_rule = rule
        r = f(lst, shape, idx)
        if not (isinstance(r, tuple) and len(r) == 2):
            return vc.fail("returns the tensors and the next position", type(r).__name__)
        r, nxt = r
        vc.check("a sequence consumes what its children consume", iterm(nxt) == iterm(idx) + P(iterm(n)))
        m = r.n if isinstance(r, SymSeq) else len(r)
        vc.check("one nested state per child", iterm(m) == iterm(n))
        if isinstance(r, SymSeq):
            j = vc.fresh("j")
            vc.add(z3.And(j >= 0, j < iterm(n)))
            if vc.sat():
                e = r.at(sint(j))
                ok = isinstance(e, Nested)
                vc.check("each nested state is the child's, at the child's place", z3.And(e.i == j, e.start == iterm(idx) + P(j)) if ok else z3.BoolVal(False))


# ---- the wrapper
def nested(shape, take):
    return [take() for _ in range(shape)] if isinstance(shape, int) else [nested(s, take) for s in shape]


def lists(x):
    return [lists(v) for v in x] if isinstance(x, (list, tuple)) else x


SHAPES = [0, 1, 3, [], [1], [2, 0, 1], [[1, 2], 0, [[3], 1]], [[], [[]], 2], [[2] * 3, [5, 1]]]


class Model(co.CoModule, shim.torch.nn.Module):
    def __init__(self, shape, dyn):
        shim.torch.nn.Module.__init__(self)
        self._state_shape, self._dynamic_state_inds = shape, dyn
        self.receptive_field = 1

    def forward(self, x):
        return x


def total(s):
    return s if isinstance(s, int) else sum(total(v) for v in s)


def wrapper_unit(vc):
    shape = vc.choose("shape", SHAPES)
    n = total(shape)
    marks = [vc.choose(f"dyn{q}", [True, False]) if q < 2 else q % 3 == 0 for q in range(n)]
    it = iter(marks)
    m = Model(shape, nested(shape, lambda: next(it)))
    st = [scalar(z3.IntVal(q)) for q in range(n)]
    out = new([vc.label("B")], lambda ix: zero) if vc.choose("output", ["some", "none"]) == "some" else None
    ns = [scalar(z3.IntVal(100 + q)) for q in range(n)]
    if n and vc.choose("new states", ["all", "one missing"]) == "one missing":
        ns[-1] = None
    x = new([vc.label("B")], lambda ix: zero)
    seen = []

    def step(input, prev_state=None):
        seen.append((input, prev_state))
        j = iter(ns)
        r = nested(shape, lambda: next(j))
        return out, tuple(r) if isinstance(r, list) and vc.choose("container", ["tuple", "list"]) == "tuple" else r

    m.__dict__["_forward_step"] = step
    w = OX.OnnxWrapper(m)
    r = w.forward(x, *st)
    j = iter(st)
    want = nested(shape, lambda: next(j))
    same = lambda a, b: len(a) == len(b) and all(same(p, q) if isinstance(q, list) else p is q for p, q in zip(a, b)) if isinstance(a, list) and isinstance(b, list) else a is b
    ok = len(seen) == 1 and seen[0][0] is x and same(lists(seen[0][1]), want)
    vc.ok("the model is stepped once, with the input and the nested state") if ok else vc.fail("the model is stepped once, with the input and the nested state", str(seen))
    ok = isinstance(r, tuple) and len(r) == 1 + n and r[0] is out and all(a is b for a, b in zip(r[1:], ns))
    vc.ok("the outputs are the step output and every new state tensor in order") if ok else vc.fail("the outputs are the step output and every new state tensor in order", str(r))
    names(vc, w, n, marks)


def names(vc, w, n, marks):
    ni, no, dyn = list(w.state_input_names), list(w.state_output_names), dict(w.state_dynamic_axes)
    ok = len(ni) == len(no) == n and len(set(ni) | set(no)) == 2 * n
    vc.ok("every state tensor has its own input and output name") if ok else vc.fail("every state tensor has its own input and output name", f"{ni} {no}")
    ok = set(dyn) == {q[i] for i, k in enumerate(marks) if k for q in (ni, no)} and all(v == {0: "batch"} for v in dyn.values())
    vc.ok("exactly the tensors that carry the batch are dynamic, in and out") if ok else vc.fail("exactly the tensors that carry the batch are dynamic, in and out", f"{dyn} for {marks}")


def export_unit(vc):
    """export hands torch's exporter the wrapped model and the names of all inputs, outputs and states"""
    import types

    shape, dyn = vc.choose("shape", [(0, []), ([1, 0], [[True], []]), ([[2], 1], [[True, False], False])])
    m = Model(shape, dyn)
    n, marks = total(shape), [q for q in flat_leaves(dyn)]
    x, st = new([vc.label("B")], lambda ix: zero), [scalar(z3.IntVal(q)) for q in range(n)]
    calls = []

    def record(*a, **k):
        names_ = ["model", "args", "f"]
        calls.append({**dict(zip(names_, a)), **k})

    ins, outs = (["x"], ["y"]) if vc.choose("inputs", [1, 2]) == 1 else (["x", "z"], ["y", "w"])
    i0, o0 = list(ins), list(outs)
    extra = {} if vc.choose("options", ["default", "given"]) == "default" else dict(opset_version=13, do_constant_folding=False, verbose=False, export_params=True)
    f = object()
    old = OX.torch.__dict__.get("onnx", None)
    OX.torch.onnx = types.SimpleNamespace(export=record)
    try:
        OX.export(m, (x, *st), f, input_names=ins, output_names=outs, **extra)
    finally:
        if old is None:
            del OX.torch.onnx
        else:
            OX.torch.onnx = old
    if len(calls) != 1:
        return vc.fail("one model is exported", f"{len(calls)}")
    c = calls[0]
    w = c.get("model")
    ok = isinstance(w, OX.OnnxWrapper) and w.model is m and len(c["args"]) == 1 + n and all(a is b for a, b in zip(c["args"], (x, *st))) and c["f"] is f
    vc.ok("the wrapped model, its arguments and the file are passed on") if ok else vc.fail("the wrapped model, its arguments and the file are passed on", str(c))
    if not ok:
        return
    ok = all(c.get(k) == v for k, v in extra.items())
    vc.ok("options are passed on") if ok else vc.fail("options are passed on", str(c))
    ni, no = list(c["input_names"]), list(c["output_names"])
    ok = ni == i0 + list(w.state_input_names) and no == o0 + list(w.state_output_names)
    vc.ok("user names come first, then one name per state tensor") if ok else vc.fail("user names come first, then one name per state tensor", f"{ni} {no}")
    want = {k: {0: "batch"} for k in i0 + o0} | {k: {0: "batch"} for q in (w.state_input_names, w.state_output_names) for k, d in zip(q, marks) if d}
    vc.ok("the batch axis is dynamic for inputs, outputs and batch-carrying states") if c["dynamic_axes"] == want else vc.fail("the batch axis is dynamic for inputs, outputs and batch-carrying states", f"{c['dynamic_axes']}")
    ok = ins == i0 and outs == o0
    vc.ok("the caller's name lists are not changed") if ok else vc.fail("the caller's name lists are not changed", f"{ins} {outs}")


U = "continual.utils."
X_ = "continual.onnx."
unit("C20", "_flatten (structural induction)", U + "_flatten")(flatten_unit)
unit("C20", "flatten", U + "flatten")(flatten_none_unit)
unit("C20", "_shape_list (induction over the nesting, any number of children)", X_ + "_shape_list")(shape_list_unit)
unit("C20", "OnnxWrapper", f"{X_}OnnxWrapper.forward {X_}OnnxWrapper.state_input_names {X_}OnnxWrapper.state_output_names {X_}OnnxWrapper.state_dynamic_axes {X_}OnnxWrapper._i2o_name {X_}_shape_list {U}flatten {U}_flatten", bounded="state shapes: 9 nestings of up to 12 tensors")(wrapper_unit)


unit("C20", "export", X_ + "export", bounded="three state shapes, one or two inputs")(export_unit)


# ---- every module's advertised state against the state its functional step returns
def leaf_modules():
    from . import conv, posenc, rnn

    def frame(lead, rest, v):
        return new(lead + rest, lambda ix: v)

    def mk_conv(n, k=None):
        def b(vc):
            m, lead, rest = conv.make(vc, n, k=k)[:3]
            return m, lambda v: frame(lead, rest, v)

        return b

    def mk_pool(name, n, *a):
        def b(vc):
            lead, rest = stream_dims(vc, n)
            k, s, p = vc.int("k", 1), vc.int("s", 1), vc.int("p", 0)
            vc.assume(iterm(p) <= iterm(k) - 1)
            sp = [1] * (n - 1)
            m = getattr(co, name)((1,) * n, k, s, p) if name.startswith("Adaptive") else getattr(co, name)((k, *sp), stride=(s, *sp), padding=(p, *sp) if not p is None else 0)
            return m, lambda v: frame(lead, rest, v)

        return b

    def mk_delay(**kw):
        def b(vc):
            lead, rest = stream_dims(vc, 2)
            return co.Delay(vc.int("d", 0), **kw), lambda v: frame(lead, rest, v)

        return b

    def mk_skip(vc):
        lead, rest = stream_dims(vc, 2)
        return co.Skip(vc.int("d", 1)), lambda v: frame(lead, rest, v)

    def mk_rnn(cls):
        def b(vc):
            m, C, H, L, out = rnn.build(vc, cls, True, False)
            Bt = vc.label("B")
            return m, lambda v: frame([Bt, C], [], v)

        return b

    def mk_pe(vc):
        m, C, n, emb = posenc.build(vc, True, None)
        Bt = vc.label("B")
        return m, lambda v: frame([Bt, C], [], v)

    def mk_mha(kind):
        def b(vc):
            from . import mha

            s = mha.Setup(vc, kind, "NEL", True)
            return s.m, lambda v: new([s.B, s.E], lambda ix: v)

        return b

    def mk_unity(vc):
        from continual import transformer

        lead, rest = stream_dims(vc, 2)
        return transformer.RetroactiveUnity(vc.int("d", 1), time_dim=2), lambda v: frame(lead, rest, v)

    def mk_linear(vc):
        Bt, C = vc.label("B"), vc.label("C")
        return co.Linear(C, vc.label("D"), channel_dim=1), lambda v: frame([Bt, C], [], v)

    def mk_lambda(vc):
        lead, rest = stream_dims(vc, 2)
        return co.Lambda(lambda x: x), lambda v: frame(lead, rest, v)

    return [("Conv1d", mk_conv(1)), ("Conv2d", mk_conv(2)), ("Conv3d", mk_conv(3)), ("Conv1d kernel size one", mk_conv(1, 1)), ("AvgPool1d", mk_pool("AvgPool1d", 1)), ("MaxPool2d", mk_pool("MaxPool2d", 2)), ("AvgPool3d", mk_pool("AvgPool3d", 3)),
            ("AdaptiveAvgPool3d", mk_pool("AdaptiveAvgPool3d", 3)), ("Delay", mk_delay()), ("Delay auto_shrink", mk_delay(auto_shrink=True)), ("Skip", mk_skip), ("RNN", mk_rnn("RNN")), ("GRU", mk_rnn("GRU")), ("LSTM", mk_rnn("LSTM")), ("RecyclingPositionalEncoding", mk_pe),
            ("RetroactiveMultiheadAttention", mk_mha("retro")), ("SingleOutputMultiheadAttention", mk_mha("single")), ("RetroactiveUnity", mk_unity), ("Linear", mk_linear), ("Lambda", mk_lambda)]


# ---- containers over abstract children with any state layout
class Kid(co.CoModule, shim.torch.nn.Module):
    """a child whose functional step keeps a state of the given nesting; leaves carry the batch where marked"""

    def __init__(self, vc, name, shape, marks, rf=1, emit=True):
        shim.torch.nn.Module.__init__(self)
        self.__dict__["vc"] = vc
        self.name, self._state_shape, self.marks, self.emit = name, shape, marks, emit
        it = iter(marks)
        self._dynamic_state_inds = nested(shape, lambda: next(it))
        self.receptive_field = rf

    def forward(self, x):
        return x

    def _forward_step(self, x, prev_state=None):
        vc, n = self.vc, total(self._state_shape)
        v = z3.Function(f"{self.name}.state", I, I, R)
        k = z3.IntVal(0)
        fl = [] if prev_state is None or n == 0 else flat_leaves(prev_state)
        if fl:
            ok = len(fl) == n and all(isinstance(t, SymTensor) for t in fl) and shape_is(prev_state, self._state_shape)
            if not ok:
                vc.fail("a child gets its own state, nested as it advertises", f"{self.name}: {prev_state}")
                raise PathEnd()
            step = z3.Function(f"{self.name}.step", R, I)
            k = step(val(fl[0], [None] * len(fl[0]._dims)))
            vc.check("a child gets its own state, nested as it advertises", z3.And(*[val(t, [None] * len(t._dims)) == v(z3.IntVal(q), k) for q, t in enumerate(fl)]))
        vc.add(z3.Function(f"{self.name}.step", R, I)(v(z3.IntVal(0), k + 1)) == k + 1)
        it = iter(range(n))

        def leaf():
            q = next(it)
            t = v(z3.IntVal(q), z3.simplify(k + 1))
            return new([x._dims[0] if self.marks[q] else vc.label(f"{self.name}.{q}")], lambda ix: t)

        return (x if self.emit else None), (nested(self._state_shape, leaf) if n else None)


def shape_is(s, shape):
    if isinstance(shape, int):
        return shape == 0 or (isinstance(s, (list, tuple)) and len(s) == shape)
    return isinstance(s, (list, tuple)) and len(s) == len(shape) and all(shape_is(a, b) for a, b in zip(s, shape))


KIDS = [(0, []), (1, [True]), (2, [True, False]), ([2, 0, 1], [True, False, False]), ([[1], [0, 2]], [False, True, True])]


def containers():
    def pick(vc, n, **kw):
        return [Kid(vc, f"kid{i}", *vc.choose(f"kid{i}", KIDS), **kw) for i in range(n)]

    def fr(vc, lead=None):
        lead, rest = stream_dims(vc, 2)
        return lambda v: new(lead + rest, lambda ix: v)

    def mk(make):
        def b(vc):
            return make(vc), fr(vc)

        return b

    def par(vc):
        m = co.Parallel(*pick(vc, 2))
        g = fr(vc)
        return m, lambda v: [g(v), g(v)]

    def cond(vc):
        # the whole state of a conditional exists only while its predicate is constant: one branch
        return co.Conditional(lambda m, x: True, pick(vc, 1)[0])

    def cond2(vc):
        # both branches have been taken once before
        way = [True, False]
        m = co.Conditional(lambda m, x: way.pop(0) if way else now, *pick(vc, 2))
        now = vc.choose("predicate", [True, False])
        m.__dict__["primed"] = True
        return m

    def residual(vc):
        rf = vc.int("rf", 1)
        k = Kid(vc, "kid0", *vc.choose("kid0", KIDS), rf=rf)
        k.padding = (sint(fdiv(iterm(rf) - 1, z3.IntVal(2))[0]),)
        return co.Residual(k)

    return [
        ("Sequential of two", mk(lambda vc: co.Sequential(*pick(vc, 2)))),
        ("Sequential of three", mk(lambda vc: co.Sequential(*pick(vc, 3)))),
        ("Sequential nested in Sequential", mk(lambda vc: co.Sequential(pick(vc, 1)[0], co.Sequential(*[Kid(vc, f"in{i}", *vc.choose(f"in{i}", KIDS)) for i in range(2)])))),
        ("BroadcastReduce of two", mk(lambda vc: co.BroadcastReduce(*pick(vc, 2), auto_delay=False))),
        ("BroadcastReduce of two, aligned", mk(lambda vc: co.BroadcastReduce(Kid(vc, "slow", *vc.choose("slow", KIDS), rf=vc.int("rf", 1)), *pick(vc, 1)))),
        ("Residual", mk(residual)),
        ("Sequential with Broadcast, Parallel, Reduce", mk(lambda vc: co.Sequential(co.Broadcast(2), co.Parallel(*pick(vc, 2)), co.Reduce("sum")))),
        ("Conditional", mk(cond)),
        ("Conditional with two branches", mk(cond2)),
    ]


def flat_leaves(s):
    if isinstance(s, (list, tuple)):
        return [q for v in s for q in flat_leaves(v)]
    return [s]


def renew(s, flat):
    """the same state in fresh tensors"""
    if isinstance(s, (list, tuple)):
        r = [renew(v, flat) for v in s]
        return r if flat else type(s)(r) if type(s) in (list, tuple) else r
    return copied(s)


def copied(t):
    return t.clone() if isinstance(t, SymTensor) else t


def leaf_unit(build):
    def u(vc):
        m, frame = build(vc)
        w = OX.OnnxWrapper(m)
        X = z3.Function("X", I, R)
        shape = m._state_shape
        o, st = m._forward_step(frame(X(z3.IntVal(0))), prev_state=None)
        if m.__dict__.get("primed"):
            o, st = m._forward_step(frame(X(z3.IntVal(0))), prev_state=st)
        n = len(w.state_input_names)
        if shape == 0:
            leaves = [] if st is None or (isinstance(st, (list, tuple)) and not flat_leaves(st)) else flat_leaves(st)
        else:
            leaves = [t for t in flat_leaves(st) if t is not None]
        ok = len(leaves) == n and all(isinstance(t, SymTensor) for t in leaves)
        vc.ok("the advertised number of state tensors is the number there is") if ok else vc.fail("the advertised number of state tensors is the number there is", f"{n} advertised, state {[type(t).__name__ for t in leaves]}")
        if not ok:
            return
        names(vc, w, n, [any("B" in (getattr(d, "atoms", None) or ()) for d in t._dims) for t in leaves])
        x = frame(X(z3.IntVal(1)))
        a = m._forward_step(x, prev_state=renew(st, isinstance(shape, int)) if n else st)
        r = w.forward(x, *[copied(t) for t in leaves])
        if not (isinstance(r, tuple) and len(r) >= 1):
            return vc.fail("the wrapper returns a flat tuple", type(r).__name__)
        if isinstance(a[0], SymTensor):
            if some(vc, "the wrapper returns the step output", r[0]):
                equal(vc, "the wrapper returns the step output", r[0], a[0])
        else:
            none(vc, "the wrapper returns the step output", r[0])
        new_ = [q for q in flat_leaves(a[1]) if q is not None] if n else []
        got = [q for q in r[1:] if q is not None and not (isinstance(q, tuple) and q == ())]
        vc.ok("the wrapper returns every new state tensor") if len(new_) == len(got) == n else vc.fail("the wrapper returns every new state tensor", f"{len(got)} of {n}")
        for q, (p, g) in enumerate(zip(new_, got)):
            equal(vc, f"new state tensor {q} is the one of the step", g, p)

    return u


for _n, _b in containers():
    unit("C20", f"advertised state: {_n}", f"{X_}OnnxWrapper.forward {X_}_shape_list continual.{_n.split()[0]}._state_shape continual.{_n.split()[0]}._dynamic_state_inds continual.{_n.split()[0]}._forward_step", bounded="number of children and five state layouts per child")(leaf_unit(_b))
for _n, _b in leaf_modules():
    unit("C20", f"{_n} advertised state", f"{X_}OnnxWrapper.forward {X_}OnnxWrapper.state_dynamic_axes continual.{_n.split()[0]}._state_shape continual.{_n.split()[0]}._dynamic_state_inds continual.{_n.split()[0]}._forward_step")(leaf_unit(_b))
