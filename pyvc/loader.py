"""Loads the real `continual` sources of the repository under an instrumenting importer.

What the importer changes, and nothing else:
 * `import torch` (and torch.nn / torch.nn.functional) inside the package binds the namespace of shim.py;
 * builtins seen by the package (len, range, isinstance, ...) also accept the engine's symbolic values;
 * `for` loops and comprehensions are routed through vc_loop / vc_comp, which run them natively on concrete iterables
   and by an invariant (loops) or lazily per element (comprehensions) on symbolic ones.
"""
import ast
import builtins as _b
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import os
import sys
import types

import core
import shim
import tensor
from core import Effect, PathEnd, SBool, SInt, SReal, SymError, SymRange, SymSeq, Unsupported, Vc, iterm, sbool, sint, smax, smin, z3
from tensor import SymTensor, real_torch

REPO = os.environ.get("VERIF_REPO", "/repo")


# -------------------------------------------------------------------- builtins
def is_sym(x):
    return isinstance(x, (SymRange, SymSeq)) or getattr(type(x), "_vc_is_seq", False)


def _int(x):
    """0-d tensors used as integers"""
    if isinstance(x, SymTensor):
        return x.item()
    return x


def b_len(x):
    if isinstance(x, SymTensor):
        if not x._dims:
            raise TypeError("len() of a 0-d tensor")
        return x._dims[0]
    if is_sym(x):
        return seq_of(x).n
    if hasattr(x, "_vc_len"):
        return x._vc_len()
    return _b.len(x)


def b_range(*a):
    a = [_int(v) for v in a]
    if any(isinstance(v, SInt) for v in a):
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)
    return _b.range(*a)


def _one(cls, x):
    if cls is b_type:
        cls = type
    if cls is b_int:
        cls = int
    if cls is b_range:
        cls = range
    if cls in FAKE:
        cls = FAKE[cls]
    if isinstance(cls, type):
        if isinstance(x, SInt) and cls is int:
            return True
        if isinstance(x, SReal) and cls is float:
            return True
        if isinstance(x, SBool) and cls in (bool, int):
            return True
        if isinstance(x, SymSeq) and cls is list:
            return True
        if isinstance(x, SymRange) and cls is range:
            return True
    return _b.isinstance(x, cls)


def b_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(b_isinstance(x, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(b_isinstance(x, c) for c in cls.__args__)
    return _one(cls, x)


def b_issubclass(a, b):
    unf = lambda c: FAKE.get(c, c) if not isinstance(c, tuple) else tuple(unf(q) for q in c)
    return _b.issubclass(unf(a), unf(b))


def seq_of(x):
    if isinstance(x, SymSeq):
        return x
    if getattr(type(x), "_vc_is_seq", False):
        return x.__dict__["_vc_seq"]
    if isinstance(x, SymRange):
        return SymSeq(x.n, x.at)
    if isinstance(x, SymTensor):
        d = x._dims[0]
        return SymSeq(d, lambda i: x.select(0, i))
    return None


def native_iter(x):
    """concrete iterable"""
    return x


def b_enumerate(x, start=0):
    if is_sym(x):
        s = seq_of(x)
        return SymSeq(s.n, lambda i: (start + i, s.at(i)))
    return _b.enumerate(x, start)


def b_zip(*xs, strict=False):
    if any(is_sym(x) for x in xs):
        ss = []
        for x in xs:
            s = seq_of(x)
            if s is None:
                c = x if isinstance(x, itertools.count) else None
                if c is not None:
                    raise Unsupported("zip with an iterator")
                l = _b.list(x)
                s = SymSeq(segs=[(1, (lambda i, v=v: v)) for v in l])
            ss.append(s)
        n = ss[0].n
        for s in ss[1:]:
            n = smin(n, s.n)
        return SymSeq(n, lambda i: tuple(s.at(i) for s in ss))
    return _b.zip(*xs, strict=strict)


def b_reversed(x):
    if is_sym(x):
        s = seq_of(x)
        return SymSeq(s.n, lambda i: s.at(s.n - 1 - i))
    return _b.reversed(x)


def b_sum(x, start=0):
    if is_sym(x):
        raise Unsupported("sum of a symbolic sequence")
    r = start
    for v in x:
        r = r + v
    return r


def b_max(*a, **k):
    return _minmax(_b.max, smax, a, k)


def b_min(*a, **k):
    return _minmax(_b.min, smin, a, k)


def _minmax(real, sym, a, k):
    if len(a) == 1:
        q = a[0].seq if isinstance(a[0], SeqSet) else seq_of(a[0]) if is_sym(a[0]) else None
        if q is not None and isinstance(q.n, SInt):
            if k:
                raise Unsupported("minimum or maximum of a symbolic sequence with options")
            return extremum(q, sym is smax)
        xs = _b.list(a[0]) if q is None else [q.at(i) for i in _b.range(q.n)]
    else:
        xs = _b.list(a)
    xs = [_int(x) for x in xs]
    if any(isinstance(x, SInt) for x in xs) and not k.get("key"):
        r = xs[0]
        for x in xs[1:]:
            r = sym(r, x)
        return r
    return real(xs, **k)


def at_position(i):
    """a position of a sequence of parts comes up: what is known of all positions holds there"""
    vc = Vc.cur
    i = z3.simplify(iterm(i))
    if i.sexpr() not in vc.positions:
        vc.positions[i.sexpr()] = i
        for f in list(vc.universals):
            f(i)


def extremum(s, top):
    """the largest (smallest) entry of a sequence of integers of any length: one of the entries, and no entry is beyond it"""
    vc = Vc.cur
    n = s.n
    if not bool(n > 0):
        raise ValueError("minimum or maximum of an empty sequence")
    j = vc.fresh("jm")
    vc.assume(z3.And(j >= 0, j < iterm(n)))
    e = s.at(sint(j))
    if not isinstance(e, (int, SInt)) or isinstance(e, bool):
        raise Unsupported("minimum or maximum of a sequence of other things than integers")
    m = vc.fresh("max" if top else "min")
    vc.add(m == iterm(e))

    def inst(i):
        if vc.entails(z3.And(i >= 0, i < iterm(n))):
            v = iterm(s.at(sint(i)))
            vc.add(m >= v if top else m <= v)

    vc.universals.append(inst)
    for i in list(vc.positions.values()):
        inst(i)
    return sint(m)


class SeqSet:
    """the set of the entries (integers) of a sequence of any length"""

    def __init__(self, seq):
        self.seq = seq

    def _vc_len(self):
        """1 if all entries are equal: the path on which two differ covers every such sequence; the other keeps less than what is known there"""
        vc = Vc.cur
        n = self.seq.n
        if not bool(n > 0):
            return 0
        ps = [vc.fresh("ja"), vc.fresh("jb")]
        for j in ps:
            vc.assume(z3.And(j >= 0, j < iterm(n)))
        ps += list(vc.witnesses)
        for a, b in zip(ps, ps[1:]):
            if bool(self.seq.at(sint(a)) != self.seq.at(sint(b))):
                m = vc.fresh("different")
                vc.assume(z3.And(m >= 2, m <= iterm(n)))
                return sint(m)
        return 1

    def __iter__(self):
        raise Unsupported("iteration over a set of symbolic size")

    __len__ = __contains__ = __iter__


def _quant(s, all_):
    """all/any: the predicate at an arbitrary position.  The path on which it fails (holds) covers every sequence with such an
    element; the other path keeps only what it says about that one position, which is less than what would be known there."""
    vc = Vc.cur
    s = seq_of(s)
    n = s.n
    if isinstance(n, int):
        return (_b.all if all_ else _b.any)(s.at(i) for i in _b.range(n))
    if not bool(n > 0):
        return all_
    j = vc.fresh("jq")
    vc.assume(z3.And(j >= 0, j < iterm(n)))
    with Probe("a predicate over a symbolic sequence"):
        if bool(s.at(sint(j))) != all_:
            return not all_
        for w in getattr(vc, "witnesses", ()):  # positions a contract speaks about
            for q in (w, z3.simplify(iterm(n) - 1 - w)):  # also where a reversed list has them
                if bool(sbool(z3.And(q >= 0, q < iterm(n)))) and bool(s.at(sint(q))) != all_:
                    return not all_
        return all_


def b_all(x):
    return _quant(x, True) if is_sym(x) else _b.all(x)


def b_any(x):
    return _quant(x, False) if is_sym(x) else _b.any(x)


class _Meta(type):
    """class-like stand-ins for int, list, tuple, ... (callable, usable with isinstance and as base of nothing)"""


def b_int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return sint(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, SymTensor):
        return x.item() if x._dt != "f" else x.__int__()
    if isinstance(x, SReal):
        raise Unsupported("integer part of a real")
    return _b.int(x, *a)


def b_bool(x=False):
    if isinstance(x, (SBool, SInt)):
        return x if isinstance(x, SBool) else sbool(x.t != 0)
    return _b.bool(x)


def b_float(x=0.0):
    if isinstance(x, SInt):
        return SReal(z3.ToReal(x.t))
    if isinstance(x, SReal):
        return x
    if isinstance(x, SymTensor):
        return x.item()
    return _b.float(x)


def b_list(x=()):
    if is_sym(x):
        s = seq_of(x)
        return SymSeq(segs=_b.list(s.segs))
    if isinstance(x, SymTensor) and not isinstance(x._dims[0], int):
        return seq_of(x)
    return _b.list(x)


def b_tuple(x=()):
    if is_sym(x):
        return b_list(x)
    if isinstance(x, SymTensor) and not isinstance(x._dims[0], int):
        return seq_of(x)
    return _b.tuple(x)


def b_map(f, *xs):
    if any(is_sym(x) for x in xs):
        z = b_zip(*xs)
        return SymSeq(z.n, lazily(lambda i: f(*z.at(i))))
    return _b.map(f, *xs)


def b_type(*a):
    if len(a) == 1:
        if isinstance(a[0], SInt):
            return F_INT
        if isinstance(a[0], SReal):
            return F_FLOAT
        if isinstance(a[0], SBool):
            return F_BOOL
        if isinstance(a[0], SymSeq):
            return F_LIST
        if isinstance(a[0], SymTensor):
            return real_torch.Tensor
        t = _b.type(a[0])
        return next((f for f, r in FAKE.items() if r is t), t)  # what the name means in the code under verification
    return _b.type(*a)


def b_set(x=()):
    if is_sym(x) and isinstance(seq_of(x).n, SInt):
        return SeqSet(seq_of(x))
    xs = _b.list(x)
    if any(isinstance(v, SInt) for v in xs):
        return SymSet(xs)
    return _b.set(xs)


class SymSet:
    """set of integers, some symbolic: equal members are merged (forks)"""

    def __init__(self, xs):
        self.xs = []
        for x in xs:
            if not any(bool(x == y) for y in self.xs):
                self.xs.append(x)

    def __len__(self):
        return len(self.xs)

    def __iter__(self):
        return iter(self.xs)

    def __contains__(self, x):
        return any(bool(x == y) for y in self.xs)

    def pop(self):
        return self.xs.pop()


def _fake(name, real, fn):
    """a class standing in for a builtin type: calling it runs fn, isinstance and subclassing see the real type"""

    class M(type):
        def __call__(cls, *a, **k):
            return fn(*a, **k)

        def __instancecheck__(cls, x):
            return _one(real, x)

        def __subclasscheck__(cls, c):
            return _b.issubclass(FAKE.get(c, c), real)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

        def __getattr__(cls, n):
            return getattr(real, n)

        def __getitem__(cls, k):
            return real[k]

    return M(name, (), {})


FAKE = {}
F_INT, F_LIST, F_TUPLE = _fake("int", int, b_int), _fake("list", list, b_list), _fake("tuple", tuple, b_tuple)
F_BOOL, F_FLOAT, F_SET = _fake("bool", bool, b_bool), _fake("float", float, b_float), _fake("set", set, b_set)
FAKE.update({F_INT: int, F_LIST: list, F_TUPLE: tuple, F_BOOL: bool, F_FLOAT: float, F_SET: set})


def b_import(name, globals=None, locals=None, fromlist=(), level=0):
    m = _b.__import__(name, globals, locals, fromlist, level)
    if level == 0 and (name == "torch" or name.startswith("torch.")):
        if not fromlist:
            return shim.torch
        if name == "torch":
            return shim.torch
        if name == "torch.nn.functional":
            return shim.F
        if name == "torch.nn":
            return shim.torch.nn
    if level == 0 and name == "math":
        return MathShim
    if level == 0 and name == "functools":
        return FunctoolsShim
    return m


class _MathShim(types.ModuleType):
    def __getattr__(self, n):
        import math

        real = getattr(math, n)
        if not callable(real):
            return real

        def f(*a):
            a = [_int(x) for x in a]
            if any(isinstance(x, (SInt, SReal)) for x in a):
                if n == "prod" or n in ("floor", "ceil") and isinstance(a[0], SInt):
                    return a[0]
                if n == "sqrt":
                    return SReal(z3.Function("sqrt", core.R, core.R)(z3.ToReal(a[0].t) if isinstance(a[0], SInt) else a[0].t))
                raise Unsupported(f"math.{n} of a symbolic value")
            return real(*a)

        return f


MathShim = _MathShim("math")


class _FunctoolsShim(types.ModuleType):
    def __getattr__(self, n):
        import functools

        return fold if n == "reduce" else getattr(functools, n)


def fold(f, xs, *init):
    """functools.reduce; over a symbolic sequence it is the loop `for x in xs: r = f(r, x)`"""
    if not is_sym(xs):
        import functools

        return functools.reduce(f, xs, *init)
    s = seq_of(xs)
    if init:
        r = init[0]
    else:
        if not bool(s.n > 0):
            raise TypeError("reduce() of empty iterable with no initial value")
        r, s = s[0], s[1:]
    loop = Loop(s, {"r": r}, ["r"], f"reduce {getattr(f, '__name__', '')}", ["r"])
    if not loop.symbolic:
        import functools

        return functools.reduce(f, loop.items(), r)
    if not loop.enter():
        return loop.get("r") if loop.has("r") else r
    if loop.has("r"):
        r = loop.get("r")
    for x in loop.item():
        r = f(r, x)
    loop.check({"r": r})


FunctoolsShim = _FunctoolsShim("functools")

OVERRIDES = dict(len=b_len, range=b_range, isinstance=b_isinstance, issubclass=b_issubclass, enumerate=b_enumerate, zip=b_zip, reversed=b_reversed, sum=b_sum, max=b_max, min=b_min, all=b_all, any=b_any, map=b_map, type=_fake("type", type, b_type), int=F_INT, list=F_LIST, tuple=F_TUPLE, bool=F_BOOL, float=F_FLOAT, set=F_SET, __import__=b_import)
FAKE[OVERRIDES["type"]] = type


# -------------------------------------------------------------------- loops and comprehensions
class Probe:
    """evaluation that must not write to tensors"""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        self.w = tensor.WRITES[0]

    def __exit__(self, t, v, tb):
        if t is None and tensor.WRITES[0] != self.w:
            raise Unsupported(f"side effect in {self.what}")


class Tentative:
    """evaluation whose facts and caches are forgotten"""

    def __init__(self, vc, *facts):
        self.vc, self.facts = vc, facts

    def __enter__(self):
        vc = self.vc
        vc.solver.push()
        self.npc = len(vc.pc)
        self.caches = [(d, dict(d)) for d in vc.caches + [vc.quotients, vc.sums, vc.sumdefs]]
        vc.add(z3.And(*self.facts))

    def __exit__(self, t, v, tb):
        vc = self.vc
        vc.solver.pop()
        del vc.pc[self.npc:]
        for d, old in self.caches:
            d.clear()
            d.update(old)


def lazily(f):
    def g(i):
        vc = Vc.cur
        vc.lazy += 1
        try:
            return f(i)
        finally:
            vc.lazy -= 1

    return g


def trial(vc, f, *facts):
    """evaluate f tentatively, on all its paths: does one have an effect?"""
    main = vc.prefix, vc.ndec, vc.queue
    todo = [[]]
    found, runs = False, 0
    try:
        while todo and not found and runs < 24:
            runs += 1
            vc.prefix, vc.ndec, vc.queue = todo.pop(), 0, todo
            with Tentative(vc, *facts), Probe("a comprehension"):
                try:
                    f()
                except Effect:
                    found = True
                except PathEnd:
                    pass
                except Exception:
                    if vc._check() != z3.unsat:
                        raise
    finally:
        vc.prefix, vc.ndec, vc.queue = main
    return found


def vc_comp(it, native, elem, cond, kind="gen", where=""):
    """comprehension over `it`: native(it) or the lazily evaluated symbolic sequence"""
    s = seq_of(it) if is_sym(it) else None
    if s is None:
        if isinstance(it, SymTensor) and not isinstance(it._dims[0], int):
            s = seq_of(it)
        else:
            return native(it)
    if cond is not None:
        raise Unsupported("filtered comprehension over a symbolic sequence")
    n = s.n
    vc = Vc.cur
    at = lazily(lambda i: elem(s.at(i)))
    if isinstance(n, SInt):
        k = vc.fresh("kc")
        if vc.sat(k >= 0, k < n.t):
            if trial(vc, lambda: at(sint(k)), k >= 0, k < n.t):
                if kind != "list":
                    raise Effect("parts are run by a generator")
                return comp_loop(s, elem, where)
    return SymSeq(n, at)


def comp_loop(s, elem, where):
    """a comprehension with effects is a loop that appends"""
    loop = Loop(s, {"_acc": []}, ["_acc"], where, ["_acc"])
    if not loop.enter():
        return loop.get("_acc") if loop.has("_acc") else []
    acc = loop.get("_acc") if loop.has("_acc") else []
    for x in loop.item():
        acc.append(elem(x))
    loop.check({"_acc": acc})


class Loop:
    def __init__(self, it, loc, names, where, live=()):
        s = seq_of(it) if is_sym(it) else None
        self.symbolic = s is not None
        if not self.symbolic:
            self._items = it
            return
        if isinstance(s.n, int):
            # concrete length: run natively
            self.symbolic = False
            self._items = [s.at(i) for i in range(s.n)]
            return
        self.s, self.where, self.entry, self.names, self.live = s, where, dict(loc), names, live
        rule = getattr(Vc.cur, "loop_rule", None)
        if rule is None:
            raise Unsupported(f"loop over a symbolic range without an invariant at {where}")
        self.rule = rule(self)
        self.values, self.temps = {}, set()

    def items(self):
        return self._items

    # symbolic
    def enter(self):
        self.inside = self.rule.enter(self)
        return self.inside

    def has(self, n):
        return n in self.values

    def get(self, n):
        return self.values[n]

    def dead(self, n):
        """temporaries of an iteration do not survive it: reading one later is an error, not a guess"""
        return n in self.entry and n in self.temps

    def item(self):
        yield self.s.at(self.rule.k)

    def check(self, loc):
        self.rule.check(self, loc)
        raise PathEnd()


def vc_loop(it, loc, names, where, live=()):
    return Loop(it, loc, names, where, live)


class LiveIn(ast.NodeVisitor):
    """names a loop body may read before it assigns them (over-approximated)"""

    def __init__(self):
        self.live, self.done = [], set()

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            if n.id not in self.done and n.id not in self.live:
                self.live.append(n.id)
        else:
            self.done.add(n.id)

    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            self.visit(t)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and n.target.id not in self.done and n.target.id not in self.live:
            self.live.append(n.target.id)
        self.visit(n.value)
        self.visit(n.target)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)
            self.visit(n.target)

    def branch(self, *bodies):
        before, out = set(self.done), None
        for b in bodies:
            self.done = set(before)
            for q in b:
                self.visit(q)
            out = self.done if out is None else out & self.done
        self.done = out

    def visit_If(self, n):
        self.visit(n.test)
        self.branch(n.body, n.orelse)

    def visit_For(self, n):
        self.visit(n.iter)
        before = set(self.done)
        self.visit(n.target)
        self.branch(n.body)
        self.done = before
        for q in n.orelse:
            self.visit(q)

    def visit_While(self, n):
        self.visit(n.test)
        before = set(self.done)
        self.branch(n.body)
        self.done = before

    def visit_Try(self, n):
        before = set(self.done)
        for b in [n.body, n.orelse, *[h.body for h in n.handlers], n.finalbody]:
            self.branch(b)
            self.done = set(before)

    def visit_FunctionDef(self, n):
        before = set(self.done)
        self.generic_visit(n)
        self.done = before

    visit_Lambda = visit_FunctionDef


class Names(ast.NodeVisitor):
    """names a loop body may change: assigned, or the object of a method call"""

    def __init__(self):
        self.set = []

    def add(self, n):
        if n not in self.set:
            self.set.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            self.add(n.func.value.id)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            self.add(n.value.id)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators:
            self.visit(g.iter)


class Rewrite(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname, self.depth, self.n = fname, 0, 0
        self.local = [set()]

    def visit_FunctionDef(self, node):
        self.depth += 1
        a = node.args
        own = {q.arg for q in a.posonlyargs + a.args + a.kwonlyargs + [v for v in (a.vararg, a.kwarg) if v]}
        own |= {c.id for c in ast.walk(node) if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store)}
        self.local.append(own)
        self.generic_visit(node)
        self.local.pop()
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = d
        return node

    def visit_For(self, node):
        if not self.depth:
            return self.generic_visit(node) or node
        orig = node
        nm = Names()
        for st in node.body:
            nm.visit(st)
        nm.visit(node.target)
        tn = Names()
        tn.visit(node.target)
        names = [x for x in nm.set if x != "self" and x not in tn.set and x in self.local[-1]]
        li = LiveIn()
        li.visit(node.target)
        for st in node.body:
            li.visit(st)
        self.generic_visit(node)
        self.n += 1
        L = f"_vc_L{self.n}"
        where = f"{os.path.basename(self.fname)}:{node.lineno}"

        def P(s):
            b = ast.parse(s).body
            for q in b:
                for c in ast.walk(q):
                    if hasattr(c, "lineno"):
                        c.lineno = c.end_lineno = node.lineno
                        c.col_offset = c.end_col_offset = node.col_offset
            return b

        setv = lambda: [q for x in names for q in P(f"if {L}.has({x!r}):\n    {x} = {L}.get({x!r})\nelif {L}.dead({x!r}):\n    del {x}")]
        first = P(f"{L} = _vc_loop(None, locals(), {names!r}, {where!r}, {li.live!r})")[0]
        first.value.args[0] = node.iter
        symfor = ast.For(target=copy.deepcopy(node.target), iter=P(f"{L}.item()")[0].value, body=copy.deepcopy(node.body), orelse=P(f"{L}.check(locals())"))
        natfor = ast.For(target=node.target, iter=P(f"{L}.items()")[0].value, body=node.body, orelse=node.orelse)
        inner = ast.If(test=P(f"{L}.enter()")[0].value, body=setv() + [symfor], orelse=setv() + copy.deepcopy(orig.orelse))
        outer = ast.If(test=P(f"{L}.symbolic")[0].value, body=[inner], orelse=[natfor])
        for q in (first, outer):
            for c in ast.walk(q):
                if "lineno" in c._attributes and not hasattr(c, "lineno"):
                    ast.copy_location(c, node)
        return [first, outer]

    def comp(self, node, kind):
        if not self.depth or len(node.generators) != 1 or node.generators[0].is_async or any(isinstance(c, (ast.NamedExpr, ast.Yield, ast.Await)) for c in ast.walk(node)):
            return self.generic_visit(node)
        if any(isinstance(c, ast.Name) and c.id == "super" for c in ast.walk(node)):
            return self.generic_visit(node)
        self.generic_visit(node)
        g = node.generators[0]
        it = g.iter
        self.n += 1
        v = f"_vc_it{self.n}"

        def lam(args, body):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)

        def over(expr):
            expr = copy.deepcopy(expr)
            if isinstance(g.target, ast.Name):
                return lam([g.target.id], expr)
            # destructuring: evaluate the native comprehension on a one-element list
            return lam([v + "e"], ast.Subscript(value=ast.ListComp(elt=expr, generators=[ast.comprehension(target=copy.deepcopy(g.target), iter=ast.List(elts=[ast.Name(id=v + "e", ctx=ast.Load())], ctx=ast.Load()), ifs=[], is_async=0)]), slice=ast.Constant(value=0), ctx=ast.Load()))

        elem = over(node.elt)
        cond = over(g.ifs[0]) if g.ifs else ast.Constant(value=None)
        g.iter = ast.Name(id=v, ctx=ast.Load())
        native = lam([v], node)
        call = ast.Call(func=ast.Name(id="_vc_comp", ctx=ast.Load()), args=[it, native, elem, cond, ast.Constant(value=kind), ast.Constant(value=f"{os.path.basename(self.fname)}:{node.lineno}:{node.col_offset}")], keywords=[])
        ast.copy_location(call, node)
        return ast.fix_missing_locations(call)

    def visit_ListComp(self, node):
        return self.comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self.comp(node, "gen")

    def visit_SetComp(self, node):
        g = self.comp(ast.copy_location(ast.GeneratorExp(elt=node.elt, generators=node.generators), node), "gen")
        return ast.copy_location(ast.Call(func=ast.Name(id="_vc_set", ctx=ast.Load()), args=[g], keywords=[]), node)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = ast.parse(src, path)
        tree = Rewrite(path).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        d = dict(_b.__dict__)
        d.update(OVERRIDES)
        d["_vc_loop"] = vc_loop
        d["_vc_comp"] = vc_comp
        d["_vc_set"] = b_set
        module.__dict__["__builtins__"] = d
        exec(self.get_code(module.__name__), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "continual" and not fullname.startswith("continual."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f), submodule_search_locations=[base])
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f))
        return None


_co = None


def load():
    """the instrumented package"""
    global _co
    if _co is not None:
        return _co
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(REPO)]
    sys.dont_write_bytecode = True
    import logging

    logging.disable(logging.WARNING)
    sys.meta_path.insert(0, Finder())
    import continual as co

    # torch's own wrappers call F with sizes: let them see the modelled functions
    import torch.nn.modules as tm

    for m in ("pooling", "conv", "linear", "activation", "normalization", "dropout", "padding", "sparse"):
        mod = getattr(tm, m)
        if hasattr(mod, "F"):
            mod.F = shim.F
        if m in ("conv", "linear", "normalization", "activation", "sparse") and hasattr(mod, "torch"):
            mod.torch = shim.torch
    tm.conv._ConvNd.reset_parameters = lambda self: None
    tm.normalization.LayerNorm.reset_parameters = lambda self: None
    tm.linear.Linear.reset_parameters = lambda self: None
    tm.sparse.Embedding.reset_parameters = lambda self: None
    import recur

    recur.install()
    import attention

    attention.install()
    shim.SYMBOLIC_FACTORIES[0] = True
    _co = co
    return co
