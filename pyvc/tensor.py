"""Symbolic tensors: the torch operations the library uses, as functions of index terms.

A dimension is either structural (indexed by integer terms) or a label (batch, channel, space: its coordinates are never
looked at individually; every value is the value at one generic coordinate).  Operations on whole frames (convolution
taps, linear maps, spatial pooling, ...) are uninterpreted functions.
"""
from core import *  # noqa: F401,F403
from core import R, I, B, SBool, SInt, SReal, SymError, SymRange, SymSeq, Unsupported, Vc, bterm, fdiv, is_intlike, iterm, modterm, sbool, sint, smax, smin, z3

import torch as real_torch


def is_label(d):
    return isinstance(d, SInt) and d.atoms is not None


def atoms_of(d):
    """a dimension size as a multiset of label atoms and an integer factor"""
    if isinstance(d, int):
        return d, ()
    if is_label(d):
        return 1, tuple(sorted(d.atoms))
    return None


def label_size(atoms):
    if not atoms:
        return 1
    t = z3.Int("dim_" + atoms[0])
    for a in atoms[1:]:
        t = t * z3.Int("dim_" + a)
    return SInt(t, tuple(atoms))


def dims_equal(a, b):
    """python bool; forks if undecided"""
    if is_label(a) and is_label(b):
        return sorted(a.atoms) == sorted(b.atoms)
    if is_label(a) or is_label(b):
        return False
    r = a == b
    return r if isinstance(r, bool) else bool(r)


WRITES = [0]  # number of in-place writes so far


class Storage:
    """dims of the underlying memory and its contents"""

    __slots__ = ("fn", "dims", "frozen", "writes", "deps", "low")

    def __init__(self, fn, dims, frozen=False):
        self.fn, self.dims, self.frozen, self.writes, self.deps = fn, dims, frozen, 0, []
        self.low = False  # made with torch's default precision rather than that of the data (which may be higher)


def stale(idx):
    raise Unsupported("read of a reshaped or expanded view after its base was written")


def shares(t, r):
    """r is a snapshot of t that may share t's memory in torch: writes through r are refused, and r is unreadable after a write to t"""
    r._st.frozen = True
    t._st.deps.append(r._st)
    return r


class Meta(type(real_torch.Tensor)):
    pass


def conv_scalar(v, dt):
    if isinstance(v, bool):
        if dt == "b":
            return z3.BoolVal(v)
        return z3.IntVal(int(v)) if dt == "i" else z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v) if dt == "i" else (z3.RealVal(v) if dt == "f" else z3.BoolVal(v != 0))
    if isinstance(v, float):
        if v == float("inf"):
            return z3.Real("INF")
        if v == -float("inf"):
            return -z3.Real("INF")
        return z3.RealVal(repr(v))
    if isinstance(v, SInt):
        return v.t if dt == "i" else z3.ToReal(v.t)
    if isinstance(v, SReal):
        return v.t
    if isinstance(v, SBool):
        return v.t
    raise Unsupported(f"scalar {type(v).__name__}")


def scalar_dt(v):
    if isinstance(v, (bool, SBool)):
        return "b"
    if is_intlike(v):
        return "i"
    if isinstance(v, (float, SReal)):
        return "f"
    raise Unsupported(f"scalar {type(v).__name__}")


UF = {}


def uf(name, *args):
    """uninterpreted function application; the argument sorts become part of the name"""
    args = [a if z3.is_expr(a) else (iterm(a) if is_intlike(a) else z3.RealVal(a)) for a in args]
    if not args:
        return z3.Real(name)
    key = (name, tuple(str(a.sort()) for a in args))
    if key not in UF:
        UF[key] = z3.Function(name, *[a.sort() for a in args], R)
    return UF[key](*args)


def mul(a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_rational_value(a) or z3.is_rational_value(b):
        return a * b
    Vc.cur.approx_ops.add("products of reals are uninterpreted")
    if a.sexpr() > b.sexpr():
        a, b = b, a
    return uf("mul", a, b)


def div(a, b):
    b = z3.simplify(b)
    if z3.is_rational_value(b):
        return a / b
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_TO_REAL:
        return uf("divn", a, b.arg(0))
    Vc.cur.approx_ops.add("quotients of reals are uninterpreted")
    return uf("div", a, b)


def fmax(a, b):
    return z3.If(a >= b, a, b)


class SymTensor(real_torch.Tensor):
    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        import shim

        return shim.dispatch(func, args, kwargs or {})

    # ------------------------------------------------------------ basics
    @property
    def shape(self):
        return Size(self._dims)

    def size(self, dim=None):
        return Size(self._dims) if dim is None else self._dims[self._ax(dim)]

    def dim(self):
        return len(self._dims)

    ndimension = dim

    @property
    def ndim(self):
        return len(self._dims)

    @property
    def device(self):
        return real_torch.device("cpu")

    @property
    def dtype(self):
        if self._dt == "f" and not self._st.low:
            return real_torch.float64
        return {"f": real_torch.float32, "i": real_torch.int64, "b": real_torch.bool}[self._dt]

    @property
    def is_cuda(self):
        return False

    @property
    def is_meta(self):
        return False

    @property
    def is_nested(self):
        return False

    @property
    def requires_grad(self):
        return False

    @requires_grad.setter
    def requires_grad(self, v):
        pass

    grad_fn = None
    grad = None
    is_leaf = True

    @property
    def data(self):
        return self

    @data.setter
    def data(self, o):
        self._dims, self._st, self._view, self._dt, self._op = o._dims, o._st, o._view, o._dt, o._op

    def numel(self):
        n = 1
        for d in self._dims:
            n = n * d
        return n

    nelement = numel

    def _ax(self, dim, extra=0):
        n = len(self._dims) + extra
        if not isinstance(dim, int):
            raise Unsupported("symbolic axis")
        if not -n <= dim < n:
            raise SymError(f"dimension {dim} out of range for {n} dimensions")
        return dim % n

    def __len__(self):
        d = self._dims[0]
        if isinstance(d, int):
            return d
        raise Unsupported("len of a symbolic dimension")

    def __repr__(self, *a, **k):
        return f"SymTensor{self._dims}"

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        c = self.clone()
        c._op = self._op
        return c

    def __bool__(self):
        if len(self._dims) != 0:
            if any(not (isinstance(d, int) and d == 1) for d in self._dims):
                raise Unsupported("truth value of a tensor")
        v = self.val([z3.IntVal(0)] * len(self._dims))
        if self._dt == "f":
            raise Unsupported("branch on a tensor value")
        return Vc.cur.decide(v if self._dt == "b" else v != 0)

    def _ival(self):
        if self._dt == "f" or any(not (isinstance(d, int) and d == 1) for d in self._dims):
            raise Unsupported("integer value of a tensor")
        v = self.val([z3.IntVal(0)] * len(self._dims))
        return z3.If(v, z3.IntVal(1), z3.IntVal(0)) if self._dt == "b" else v

    def item(self):
        if self._dt == "f":
            return SReal(self.val([z3.IntVal(0)] * len(self._dims)))
        return sint(self._ival())

    def __int__(self):
        v = self.item()
        if isinstance(v, int):
            return v
        raise Unsupported("int() of a symbolic tensor")

    __index__ = __int__

    def __float__(self):
        raise Unsupported("float() of a symbolic tensor")

    def tolist(self):
        if not self._dims:
            return self.item()
        raise Unsupported("tolist")

    def __iter__(self):
        d = self._dims[0]
        if isinstance(d, int):
            return iter([self[i] for i in range(d)])
        raise Unsupported("iteration over a symbolic dimension")

    # ------------------------------------------------------------ values
    def reader(self):
        """snapshot of the present contents as a function of the view indices"""
        fn, view = self._st.fn, self._view
        if fn is None and self._op is not None:
            nm, lab = f"val[{self._op}]", [is_label(d) for d in self._dims]
            return lambda idx: uf(nm, *[z3.simplify(i) for i, l in zip(idx, lab) if not l])
        if view is None:
            return fn
        if fn is None:
            return None

        def rd(idx):
            s = []
            for v in view:
                if v[0] == "fix":
                    s.append(v[1])
                else:
                    _, k, start, step = v
                    i = idx[k]
                    s.append(i if i is None else z3.simplify((i if step == 1 else i * step) + start))
            return fn(s)

        return rd

    def val(self, idx):
        r = self.reader()
        if r is None:
            raise Unsupported("elements of an opaque parameter")
        return r(list(idx))

    def _assign(self, src, what="assignment"):
        """in-place write of src (already broadcast reader over self._dims) through the view"""
        st, view = self._st, self._view
        if st.frozen:
            raise Unsupported("write through a reshaped view")
        old = st.fn
        if old is None:
            raise Unsupported("write into an opaque parameter")
        self._op = None
        todo = list(st.deps)
        while todo:
            q = todo.pop()
            q.fn = stale
            todo += q.deps
        st.deps = []
        st.writes += 1
        WRITES[0] += 1
        if view is None:
            st.fn = src
            return
        nview = len(self._dims)
        dims = self._dims

        def fn(s):
            cond, idx = [], [z3.IntVal(0)] * nview
            for k in range(nview):
                if is_label(dims[k]):
                    idx[k] = None
            for p, v in enumerate(view):
                if v[0] == "fix":
                    if s[p] is not None:
                        cond.append(s[p] == v[1])
                else:
                    _, k, start, step = v
                    if s[p] is None:
                        idx[k] = None
                        continue
                    if step == 1:
                        i = z3.simplify(s[p] - start)
                    elif step == -1:
                        i = z3.simplify(start - s[p])
                    else:
                        raise Unsupported("strided write")
                    idx[k] = i
                    full = st.dims[p]
                    if not (z3.is_int_value(z3.simplify(iterm(0) + start)) and z3.simplify(iterm(0) + start).as_long() == 0 and step == 1 and _same(full, dims[k])):
                        cond.append(z3.And(i >= 0, i < iterm(dims[k])))
            new = src(idx)
            return z3.If(z3.And(*cond), new, old(s)) if cond else new

        st.fn = fn

    # ------------------------------------------------------------ views
    def _mkview(self, dims, ren):
        """ren: list over the present view dims: ('fix', t) | ('dim', newk, start, step); newly inserted dims are unmapped"""
        if self._st.fn is None and self._op is not None:
            rd = self.reader()

            def f(idx):
                s = []
                for k in range(len(ren)):
                    r = ren[k]
                    if r[0] == "fix":
                        s.append(r[1])
                    else:
                        i = idx[r[1]]
                        s.append(i if i is None else (i if r[3] == 1 else i * r[3]) + r[2])
                return rd(s)

            t = raw(dims, Storage(f, list(dims), True), None, self._dt)
            t._op = ("view", self._op)
            return t
        base = self._view if self._view is not None else [("dim", k, z3.IntVal(0), 1) for k in range(len(self._dims))]
        nv = []
        for v in base:
            if v[0] == "fix":
                nv.append(v)
                continue
            _, k, st, sp = v
            r = ren[k]
            if r[0] == "fix":
                nv.append(("fix", None if r[1] is None else z3.simplify(r[1] * sp + st)))
            else:
                _, k2, st2, sp2 = r
                nv.append(("dim", k2, st if is_label(self._dims[k]) else z3.simplify(st2 * sp + st), sp * sp2))
        return raw(dims, self._st, nv, self._dt)

    def select(self, dim, i):
        dim = self._ax(dim)
        d = self._dims[dim]
        i = checked_index(i, d)
        if is_label(d):
            raise Unsupported("selecting a coordinate of a label dimension")
        ren = []
        for k in range(len(self._dims)):
            ren.append(("fix", i) if k == dim else ("dim", k - (k > dim), z3.IntVal(0), 1))
        r = self._mkview(self._dims[:dim] + self._dims[dim + 1:], ren)
        return r

    def narrow(self, dim, start, length):
        dim = self._ax(dim)
        return self._slice(dim, slice(start, start + length))

    def _slice(self, dim, sl):
        d = self._dims[dim]
        if sl.start is None and sl.stop is None and sl.step in (None, 1):
            return self
        if self._op is not None and self._st.fn is None and is_label(d):
            return param_slice(self, dim, sl)
        if is_label(d):
            lo, hi, st = sl.start, sl.stop, sl.step
            if lo in (None, 0) and hi is not None and st in (None, 1) and is_label(hi) and sorted(hi.atoms) == sorted(d.atoms):
                return self
            raise Unsupported("slicing a label dimension")
        lo, n = slice_bounds(sl, d)
        dims = list(self._dims)
        dims[dim] = n
        ren = [("dim", k, iterm(lo) if k == dim else z3.IntVal(0), 1) for k in range(len(dims))]
        return self._mkview(dims, ren)

    def unsqueeze(self, dim):
        dim = self._ax(dim, 1)
        ren = [("dim", k + (k >= dim), z3.IntVal(0), 1) for k in range(len(self._dims))]
        r = self._mkview(self._dims[:dim] + [1] + self._dims[dim:], ren)
        return r

    def squeeze(self, dim=None):
        dims = range(len(self._dims)) if dim is None else [self._ax(d) for d in (dim if isinstance(dim, (tuple, list)) else (dim,))]
        r = self
        for k in sorted(dims, reverse=True):
            d = self._dims[k]
            one = (d == 1) if isinstance(d, int) else Vc.cur.decide(iterm(d) == 1)
            if one and is_label(d):
                r = r._mkview(r._dims[:k] + r._dims[k + 1:], [("fix", None) if q == k else ("dim", q - (q > k), z3.IntVal(0), 1) for q in range(len(r._dims))])
            elif one:
                r = r.select(k, 0)
        return r

    def permute(self, *p):
        if len(p) == 1 and isinstance(p[0], (tuple, list)):
            p = tuple(p[0])
        if len(p) != len(self._dims):
            raise SymError("permute: wrong number of dimensions")
        p = [self._ax(i) for i in p]
        if len(set(p)) != len(p):
            raise SymError("permute: repeated dimension")
        ren = [("dim", p.index(k), z3.IntVal(0), 1) for k in range(len(p))]
        r = self._mkview([self._dims[i] for i in p], ren)
        return r

    def transpose(self, a, b):
        a, b = self._ax(a), self._ax(b)
        p = list(range(len(self._dims)))
        p[a], p[b] = p[b], p[a]
        r = self.permute(*p)
        if self._op is not None:
            r._op = ("t", self._op)
        return r

    swapaxes = swapdims = transpose

    def movedim(self, a, b):
        a, b = self._ax(a), self._ax(b)
        p = [k for k in range(len(self._dims)) if k != a]
        p.insert(b, a)
        return self.permute(*p)

    moveaxis = movedim

    def t(self):
        return self if len(self._dims) < 2 else self.transpose(0, 1)

    @property
    def T(self):
        return self.permute(*reversed(range(len(self._dims))))

    @property
    def mT(self):
        return self.transpose(-1, -2)

    def flip(self, *dims):
        if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
            dims = tuple(dims[0])
        rd = self.reader()
        ax = [self._ax(d) for d in dims]
        sz = [iterm(self._dims[k]) for k in range(len(self._dims))]
        lab = [is_label(d) for d in self._dims]

        def fn(idx):
            idx = list(idx)
            for k in ax:
                if lab[k]:
                    raise Unsupported("flip of a label dimension")
                idx[k] = sz[k] - 1 - idx[k]
            return rd(idx)

        return new(self._dims, fn, self._dt)

    def expand(self, *sizes):
        if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
            sizes = tuple(sizes[0])
        off = len(sizes) - len(self._dims)
        if off < 0:
            raise SymError("expand: too few sizes")
        out, src = [], self.reader()
        keep = []
        for k, s in enumerate(sizes):
            if k < off:
                out.append(s)
                continue
            d = self._dims[k - off]
            if isinstance(s, int) and s == -1:
                out.append(d)
                keep.append(False)
            elif isinstance(d, int) and d == 1:
                out.append(s)
                keep.append(True)
            elif isinstance(d, SInt) and not is_label(d) and not dims_equal(d, s) and bool(d == 1):
                out.append(s)
                keep.append(True)
            else:
                if not dims_equal(d, s):
                    raise SymError(f"expand: {d} to {s}")
                out.append(d)
                keep.append(False)

        def fn(idx):
            idx = idx[off:]
            return src([z3.IntVal(0) if kp else i for i, kp in zip(idx, keep)])

        return shares(self, new(out, fn, self._dt))

    def expand_as(self, o):
        return self.expand(*o._dims)

    def contiguous(self, **k):
        if self._view is None or self._st.fn is None:
            return self
        return shares(self, new(self._dims, self.reader(), self._dt))

    def detach(self):
        return self

    def requires_grad_(self, v=True):
        return self

    def cpu(self):
        return self

    def cuda(self, *a):
        return self

    def to(self, *a, **k):
        dt = k.get("dtype")
        for x in a:
            if isinstance(x, real_torch.dtype):
                dt = x
            elif isinstance(x, real_torch.Tensor):
                dt = x.dtype
        return self.type(dt) if dt is not None else self

    def type(self, dt=None):
        if dt is None:
            return "torch.FloatTensor"
        k = "f" if dt.is_floating_point else ("b" if dt == real_torch.bool else "i")
        if k == self._dt:
            return self
        rd, src = self.reader(), self._dt
        if k == "f" and src == "i":
            return new(self._dims, lambda i: z3.ToReal(rd(i)), "f")
        if k == "f" and src == "b":
            return new(self._dims, lambda i: z3.If(rd(i), z3.RealVal(1), z3.RealVal(0)), "f")
        if k == "i" and src == "b":
            return new(self._dims, lambda i: z3.If(rd(i), z3.IntVal(1), z3.IntVal(0)), "i")
        if k == "b" and src == "i":
            return new(self._dims, lambda i: rd(i) != 0, "b")
        raise Unsupported("conversion to integers")

    def float(self):
        return self.type(real_torch.float32)

    double = float

    def long(self):
        return self.type(real_torch.int64)

    int = long

    def bool(self):
        return self.type(real_torch.bool)

    def type_as(self, o):
        return self.type(o.dtype)

    def clone(self, **k):
        r = new(self._dims, self.reader(), self._dt)
        r._op = self._op
        r._st.low = self._st.low
        return r

    # ------------------------------------------------------------ reshape (copies; torch shares memory, so writes are refused)
    def reshape(self, *sizes):
        if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
            sizes = tuple(sizes[0])
        return reshape(self, list(sizes))

    def view(self, *sizes):
        return self.reshape(*sizes)

    def flatten(self, start_dim=0, end_dim=-1):
        a, b = self._ax(start_dim), self._ax(end_dim)
        n = 1
        for d in self._dims[a:b + 1]:
            n = d if isinstance(n, int) and n == 1 else n * d
        return reshape(self, self._dims[:a] + [n] + self._dims[b + 1:])

    def unflatten(self, dim, sizes):
        a = self._ax(dim)
        return reshape(self, self._dims[:a] + list(sizes) + self._dims[a + 1:])

    def repeat(self, *reps):
        if len(reps) == 1 and isinstance(reps[0], (tuple, list)):
            reps = tuple(reps[0])
        r = self
        off = len(reps) - len(r._dims)
        if off < 0:
            raise SymError("repeat: too few repetitions")
        src = self.reader()
        dims = []
        for k, n in enumerate(reps):
            d = 1 if k < off else self._dims[k - off]
            dims.append(d if isinstance(n, int) and n == 1 else (n if isinstance(d, int) and d == 1 else (d * n)))
            if not (isinstance(n, int) and n == 1) and not (isinstance(d, int) and d == 1):
                raise Unsupported("tiling a dimension of size other than one")

        def fn(idx):
            s = []
            for k in range(off, len(reps)):
                d = self_dims[k - off]
                one = isinstance(d, int) and d == 1
                s.append(z3.IntVal(0) if one else idx[k])
            return src(s)

        self_dims = list(self._dims)
        return new(dims, fn, self._dt)

    # ------------------------------------------------------------ indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, v):
        t, adv = basic_part(self, key)
        if adv:
            raise Unsupported("write with advanced indices")
        t._overlap(v)
        t._precision(v)
        t._assign(broadcast_reader(v, t._dims, t._dt))

    def _precision(self, v):
        """values of the data's precision are not stored in a tensor of torch's default precision"""
        if self._st.low and isinstance(v, SymTensor) and v._dt == "f" and not v._st.low:
            Vc.cur.fail("data keep their precision", "written into a tensor made with torch's default precision")

    def index_select(self, dim, index):
        dim = self._ax(dim)
        key = [slice(None)] * dim + [index]
        return getitem(self, tuple(key))

    def fill_(self, v):
        self._assign(broadcast_reader(v, self._dims, self._dt))
        return self

    def zero_(self):
        return self.fill_(0)

    def copy_(self, o, *a):
        if self._st.fn is None and isinstance(o, SymTensor):
            if len(o._dims) != len(self._dims) or not all(dims_equal(a, b) for a, b in zip(o._dims, self._dims)):
                raise SymError(f"copy_ of {o._dims} into {self._dims}")
            self._op, self._st, self._view = o._op, Storage(o._st.fn, list(o._dims)) if o._st.fn is None else Storage(o.reader(), list(o._dims)), None
            return self
        self._overlap(o)
        self._precision(o)
        self._assign(broadcast_reader(o, self._dims, self._dt))
        if self._view is None and isinstance(o, SymTensor) and len(o._dims) == len(self._dims) and all(dims_equal(a, b) for a, b in zip(o._dims, self._dims)):
            self._op = o._op
        return self

    def roll(self, shifts, dims=None):
        import shim

        return shim.M["roll"](self, shifts, dims)

    # ------------------------------------------------------------ arithmetic
    def __add__(self, o):
        return binop("add", self, o)

    def __radd__(self, o):
        return binop("add", o, self)

    def __sub__(self, o):
        return binop("sub", self, o)

    def __rsub__(self, o):
        return binop("sub", o, self)

    def __mul__(self, o):
        return binop("mul", self, o)

    def __rmul__(self, o):
        return binop("mul", o, self)

    def __truediv__(self, o):
        return binop("div", self, o)

    def __rtruediv__(self, o):
        return binop("div", o, self)

    def __floordiv__(self, o):
        return binop("fdiv", self, o)

    def __mod__(self, o):
        return binop("mod", self, o)

    def __rmod__(self, o):
        return binop("mod", o, self)

    def __neg__(self):
        return unop(lambda v: -v, self)

    def __pow__(self, o):
        return unop(lambda v: uf("pow", v, conv_scalar(o, "f")), self, "f")

    def __eq__(self, o):
        return cmpop("eq", self, o)

    def __ne__(self, o):
        return cmpop("ne", self, o)

    def __lt__(self, o):
        return cmpop("lt", self, o)

    def __le__(self, o):
        return cmpop("le", self, o)

    def __gt__(self, o):
        return cmpop("gt", self, o)

    def __ge__(self, o):
        return cmpop("ge", self, o)

    def __and__(self, o):
        return cmpop("and", self, o)

    def __or__(self, o):
        return cmpop("or", self, o)

    def __invert__(self):
        return unop(z3.Not, self, "b")

    def _overlap(self, o):
        if isinstance(o, SymTensor) and o._st in self._st.deps:
            raise Unsupported("in-place operation between overlapping views")
        if isinstance(o, SymTensor) and o._st is self._st and o is not self and (o._view is not None or self._view is not None):
            raise Unsupported("in-place operation between overlapping views")

    def _inplace(self, op, o):
        self._overlap(o)
        r = binop(op, self, o)
        if ORDER[r._dt] > ORDER[self._dt]:
            raise SymError("in-place result does not have the type of its target")
        if len(r._dims) != len(self._dims) or not all(dims_equal(a, b) for a, b in zip(r._dims, self._dims)):
            raise SymError("in-place result does not have the shape of its target")
        self._assign(r.reader())
        return self

    def __iadd__(self, o):
        return self._inplace("add", o)

    def __isub__(self, o):
        return self._inplace("sub", o)

    def __imul__(self, o):
        return self._inplace("mul", o)

    def __itruediv__(self, o):
        return self._inplace("div", o)

    def __imod__(self, o):
        return self._inplace("mod", o)

    def add_(self, o, alpha=1):
        return self._inplace("add", o if alpha == 1 else o * alpha)

    def sub_(self, o, alpha=1):
        return self._inplace("sub", o if alpha == 1 else o * alpha)

    def mul_(self, o):
        return self._inplace("mul", o)

    def div_(self, o):
        return self._inplace("div", o)

    def remainder_(self, o):
        return self._inplace("mod", o)

    def add(self, o, alpha=1):
        return binop("add", self, o if alpha == 1 else o * alpha)

    def sub(self, o, alpha=1):
        return binop("sub", self, o if alpha == 1 else o * alpha)

    def mul(self, o):
        return binop("mul", self, o)

    multiply = mul

    def div(self, o):
        return binop("div", self, o)

    true_divide = div

    def remainder(self, o):
        return binop("mod", self, o)

    fmod_ = None

    def neg(self):
        return -self

    def eq(self, o):
        return self == o

    def ge(self, o):
        return self >= o

    def gt(self, o):
        return self > o

    def lt(self, o):
        return self < o

    def le(self, o):
        return self <= o

    def exp(self):
        return unop(lambda v: uf("exp", v), self, "f")

    def exp_(self):
        self._assign(self.exp().reader())
        return self

    def sum(self, dim=None, keepdim=False, **k):
        return reduce_dim(self, dim, keepdim, "sum")

    def mean(self, dim=None, keepdim=False, **k):
        return reduce_dim(self, dim, keepdim, "mean")

    def amax(self, dim=None, keepdim=False):
        return reduce_dim(self, dim, keepdim, "max")

    def masked_fill(self, mask, v):
        import shim

        return shim.M["where"](mask, v, self)

    def __matmul__(self, o):
        import shim

        return shim.M["matmul"](self, o)

    matmul = __matmul__

    def bmm(self, o):
        import shim

        return shim.M["matmul"](self, o)

    def chunk(self, n, dim=0):
        import shim

        return shim.M["chunk"](self, n, dim)


class Size(tuple):
    """shape of a symbolic tensor"""

    def numel(self):
        n = 1
        for d in self:
            n = n * d
        return n

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Size(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return Size(tuple(self) + tuple(o))

    def __eq__(self, o):
        if not isinstance(o, tuple) or len(o) != len(self):
            return False
        return all(dims_equal(a, b) for a, b in zip(self, o))

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def _same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, SInt) and isinstance(b, SInt):
        return a.t.eq(b.t) or Vc.cur.entails(a.t == b.t)
    return Vc.cur.entails(iterm(a) == iterm(b))


def raw(dims, st, view, dt):
    t = real_torch.Tensor._make_subclass(SymTensor, real_torch.empty(0))
    t._dims, t._st, t._view, t._dt, t._op = list(dims), st, view, dt, None
    return t


def new(dims, fn, dt="f"):
    dims = list(dims)
    for d in dims:
        if not is_intlike(d):
            raise Unsupported(f"dimension of type {type(d).__name__}")
        if isinstance(d, int) and d < 0:
            raise SymError("negative dimension")
    return raw(dims, Storage(fn, dims), None, dt)


def param(dims, op):
    """opaque parameter"""
    t = raw(dims, Storage(None, list(dims)), None, "f")
    t._op = op
    return t


def param_slice(t, dim, sl):
    r = raw(list(t._dims), t._st, t._view, "f")
    d = t._dims[dim]
    r._op = ("slice", t._op, dim, str(0 if sl.start is None else sl.start), str(d if sl.stop is None else sl.stop))
    lo = 0 if sl.start is None else sl.start
    hi = d if sl.stop is None else sl.stop
    n = None
    if is_label(d) or isinstance(d, SInt):
        n = sint(iterm(hi) - iterm(lo))
        if isinstance(n, SInt):
            # a multiple of a label block keeps the label
            for a in Vc.cur.block_labels:
                if z3.simplify(n.t - z3.Int("dim_" + a)).eq(z3.IntVal(0)):
                    n = label_size((a,))
                    break
    r._dims[dim] = n if n is not None else hi - lo
    return r


def scalar(term, dt="i"):
    return new([], lambda idx: term, dt)


def wrap(v):
    """python or torch value -> SymTensor operand or scalar"""
    if isinstance(v, SymTensor):
        return v
    if isinstance(v, real_torch.Tensor):
        return from_real(v)
    return v


def from_real(t):
    dt = "f" if t.dtype.is_floating_point else ("b" if t.dtype == real_torch.bool else "i")
    dims = list(t.shape)
    if t.numel() > 64:
        raise Unsupported("large concrete tensor")
    data = t.detach().clone()

    def fn(idx):
        def rec(sub, k):
            if k == len(dims):
                return conv_scalar(sub.item(), dt)
            i = idx[k]
            if i is not None and z3.is_int_value(z3.simplify(i)):
                if not 0 <= z3.simplify(i).as_long() < dims[k]:  # guarded by a condition that is false here
                    return conv_scalar(0, dt)
                return rec(sub[z3.simplify(i).as_long()], k + 1)
            if dims[k] == 0:  # no valid index: the value is never used
                return conv_scalar(0, dt)
            r = rec(sub[dims[k] - 1], k + 1)
            for q in range(dims[k] - 2, -1, -1):
                r = z3.If(i == q, rec(sub[q], k + 1), r)
            return r

        return rec(data, 0)

    return new(dims, fn, dt)


def checked_index(i, d):
    """Int term of an index into a dimension of size d, python negative indices allowed"""
    it = z3.simplify(iterm(i))
    vc = Vc.cur
    dt = iterm(d)
    if z3.is_int_value(it) and it.as_long() < 0:
        it = z3.simplify(it + dt)
        if not vc.entails(it >= 0) and not vc.decide(it >= 0):
            raise SymError("index out of range")
        return it
    if not vc.entails(z3.And(it >= 0, it < dt)):
        if not vc.decide(it < dt):
            raise SymError("index out of range")
        if not vc.decide(it >= 0):
            if not vc.decide(it >= -dt):
                raise SymError("index out of range")
            it = z3.simplify(it + dt)
    return it


def slice_bounds(sl, d):
    """start and length of a python slice with step 1 over size d"""
    if sl.step not in (None, 1):
        raise Unsupported("slice step")
    lo = 0 if sl.start is None else sint(iterm(sl.start))
    hi = d if sl.stop is None else sint(iterm(sl.stop))
    vc = Vc.cur

    def norm(v):
        if v is d:
            return v
        neg = v < 0
        if neg is True or (not isinstance(neg, bool) and bool(neg)):
            v = v + d
            return smax(v, 0)
        return smin(v, d)

    lo, hi = norm(lo), norm(hi)
    return lo, smax(hi - lo, 0)


def basic_part(t, key):
    """apply the basic part of an index; returns the view and the remaining advanced indices {dim: tensor}"""
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    n = sum(1 for k in key if k is not None and k is not Ellipsis)
    if Ellipsis in [k for k in key if k is Ellipsis]:
        p = [q for q, k in enumerate(key) if k is Ellipsis][0]
        key[p:p + 1] = [slice(None)] * (len(t._dims) - n)
    if n > len(t._dims):
        raise SymError("too many indices")
    dim, adv = 0, {}
    for k in key:
        if k is None:
            t = t.unsqueeze(dim)
            dim += 1
        elif isinstance(k, slice):
            t = t._slice(dim, k)
            dim += 1
        elif is_intlike(k):
            t = t.select(dim, k)
        elif isinstance(k, (list,)):
            adv[dim] = from_real(real_torch.tensor(k))
            dim += 1
        elif isinstance(k, real_torch.Tensor):
            k = wrap(k)
            if k._dt == "b":
                raise Unsupported("boolean mask index")
            if len(k._dims) == 0:
                t = t.select(dim, sint(k._ival()))
            else:
                adv[dim] = k
                dim += 1
        elif isinstance(k, (SymSeq, SymRange)):
            adv[dim] = seq_tensor(k)
            dim += 1
        else:
            raise Unsupported(f"index of type {type(k).__name__}")
    return t, adv


def seq_tensor(s):
    n = s.n
    return new([n], lambda idx: iterm(s.at(sint(idx[0]))), "i")


def getitem(t, key):
    t, adv = basic_part(t, key)
    if not adv:
        return t
    rd = t.reader()
    if rd is None:
        raise Unsupported("indexing an opaque parameter")
    ax = sorted(adv)
    bd = []
    for a in ax:
        bd = broadcast_dims(bd, adv[a]._dims)
    rds = {a: broadcast_reader(adv[a], bd, "i") for a in ax}
    vc = Vc.cur
    for a in ax:
        if is_label(t._dims[a]):
            raise Unsupported("advanced index into a label dimension")
        js = [vc.fresh("jx") for _ in bd]
        hyp = z3.And(*[z3.And(j >= 0, j < iterm(d)) for j, d in zip(js, bd)]) if js else z3.BoolVal(True)
        v = rds[a](js)
        size = iterm(t._dims[a])
        if not vc.entails(z3.Implies(hyp, z3.And(v >= 0, v < size))):
            if vc.sat(hyp, z3.Not(z3.And(v >= -size, v < size))):
                vc.fail("indices stay within the buffer", f"index {z3.simplify(v)} may leave [0, {z3.simplify(size)})")
            r0 = rds[a]
            rds[a] = lambda idx, r0=r0, size=size: (lambda v: z3.If(v < 0, v + size, v))(r0(idx))
    adjacent = ax == list(range(ax[0], ax[-1] + 1))
    pos = ax[0] if adjacent else 0
    rest = [k for k in range(len(t._dims)) if k not in adv]
    nd = [t._dims[k] for k in rest]
    dims = nd[:pos] + list(bd) + nd[pos:]
    nb = len(bd)

    def fn(idx):
        bi = idx[pos:pos + nb]
        ri = idx[:pos] + idx[pos + nb:]
        full = [None] * (len(ax) + len(rest))
        for k, i in zip(rest, ri):
            full[k] = i
        for a in ax:
            full[a] = z3.simplify(rds[a](bi))
        return rd(full)

    return new(dims, fn, t._dt)


def broadcast_dims(a, b):
    out = []
    for k in range(1, max(len(a), len(b)) + 1):
        x = a[-k] if k <= len(a) else 1
        y = b[-k] if k <= len(b) else 1
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        else:
            if not dims_equal(x, y):
                # a symbolic size may still be one
                if isinstance(x, SInt) and not is_label(x) and bool(x == 1):
                    out.append(y)
                    continue
                if isinstance(y, SInt) and not is_label(y) and bool(y == 1):
                    out.append(x)
                    continue
                raise SymError(f"shapes {a} and {b} do not broadcast")
            out.append(x)
    return out[::-1]


def broadcast_reader(v, dims, dt):
    """reader of v over target dims"""
    v = wrap(v)
    if not isinstance(v, SymTensor):
        c = conv_scalar(v, dt)
        return lambda idx: c
    rd, vd = v.reader(), v._dims
    if rd is None:
        raise Unsupported("elements of an opaque parameter")
    off = len(dims) - len(vd)
    if off < 0:
        # leading ones may be dropped
        if all(isinstance(d, int) and d == 1 for d in vd[:-off]):
            rd0, drop = rd, -off
            rd = lambda idx: rd0([z3.IntVal(0)] * drop + idx)
            vd = vd[-off:]
            off = 0
        else:
            raise SymError(f"shape {vd} does not broadcast to {dims}")
    one = []
    for d, t in zip(vd, dims[off:]):
        if isinstance(d, int) and d == 1:
            one.append(True)
        elif dims_equal(d, t):
            one.append(False)
        elif isinstance(d, SInt) and not is_label(d) and bool(d == 1):
            one.append(True)
        else:
            raise SymError(f"shape {vd} does not broadcast to {dims}")
    cast = _cast(v._dt, dt)

    def f(idx):
        return cast(rd([z3.IntVal(0) if o else i for o, i in zip(one, idx[off:])]))

    return f


def _cast(src, dst):
    if src == dst:
        return lambda v: v
    if src == "i" and dst == "f":
        return z3.ToReal
    if src == "b" and dst == "i":
        return lambda v: z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if src == "b" and dst == "f":
        return lambda v: z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if src == "f" and dst == "i":
        raise Unsupported("real to integer")
    raise Unsupported(f"cast {src} to {dst}")


ORDER = {"b": 0, "i": 1, "f": 2}


def binop(op, a, b):
    a, b = wrap(a), wrap(b)
    if b is None or a is None or isinstance(a, (str, list, tuple)) or isinstance(b, (str, list, tuple)):
        raise TypeError(f"unsupported operand for {op}")
    da = a._dt if isinstance(a, SymTensor) else scalar_dt(a)
    db = b._dt if isinstance(b, SymTensor) else scalar_dt(b)
    dt = max(da, db, key=ORDER.get)
    if op == "div":
        dt = "f"
    if dt == "b":
        dt = "i"
    ad = a._dims if isinstance(a, SymTensor) else []
    bd = b._dims if isinstance(b, SymTensor) else []
    dims = broadcast_dims(ad, bd)
    ra, rb = broadcast_reader(a, dims, dt), broadcast_reader(b, dims, dt)
    vc = Vc.cur
    if op in ("mod", "fdiv"):
        if dt == "f":
            raise Unsupported("modulo of reals")
        if not dims:
            q, r = fdiv(z3.simplify(ra([])), z3.simplify(rb([])))
            return scalar(r if op == "mod" else q)
        js = [None if is_label(d) else vc.fresh("jm") for d in dims]
        hyp = z3.And(*[z3.And(j >= 0, j < iterm(d)) for j, d in zip(js, dims) if j is not None])
        x, n = ra(js), rb(js)
        n_ = z3.simplify(n)
        if not (z3.is_int_value(n_) and n_.as_long() > 0):
            if not vc.entails(z3.Implies(hyp, z3.And(n > 0, x >= -n, x < 3 * n))):
                raise Unsupported("modulo out of the analysable range")
        if op == "fdiv":
            raise Unsupported("elementwise floor division")
        return new(dims, lambda i: modterm(ra(i), rb(i)), "i")
    if op == "add":
        f = lambda x, y: x + y
    elif op == "sub":
        f = lambda x, y: x - y
    elif op == "mul":
        f = mul if dt == "f" else (lambda x, y: x * y)
    elif op == "div":
        f = div
    elif op == "max":
        f = fmax
    elif op == "min":
        f = lambda x, y: z3.If(x <= y, x, y)
    else:
        raise Unsupported(op)
    return new(dims, lambda i: f(ra(i), rb(i)), dt)


def cmpop(op, a, b):
    a, b = wrap(a), wrap(b)
    if b is None or isinstance(b, (str, list, tuple)):
        return op == "ne"
    dims = broadcast_dims(a._dims, b._dims if isinstance(b, SymTensor) else [])
    dt = max(a._dt, b._dt if isinstance(b, SymTensor) else scalar_dt(b), key=ORDER.get)
    ra, rb = broadcast_reader(a, dims, dt), broadcast_reader(b, dims, dt)
    f = dict(eq=lambda x, y: x == y, ne=lambda x, y: x != y, lt=lambda x, y: x < y, le=lambda x, y: x <= y, gt=lambda x, y: x > y, ge=lambda x, y: x >= y)
    f["and"], f["or"] = z3.And, z3.Or
    g = f[op]
    return new(dims, lambda i: g(ra(i), rb(i)), "b")


def unop(f, t, dt=None):
    rd = t.reader()
    if rd is None:
        raise Unsupported("elements of an opaque parameter")
    c = _cast(t._dt, dt) if dt == "f" else (lambda v: v)
    return new(t._dims, lambda i: f(c(rd(i))), dt or t._dt)


def reduce_dim(t, dim, keepdim, kind):
    if dim is None:
        dim = list(range(len(t._dims)))
    if isinstance(dim, (tuple, list)):
        for k in sorted([t._ax(d) for d in dim], reverse=True):
            t = reduce_dim(t, k, keepdim, kind)
        return t
    dim = t._ax(dim)
    n = t._dims[dim]
    rd = t.reader()
    if is_label(n):
        dims = t._dims[:dim] + ([1] if keepdim else []) + t._dims[dim + 1:]
        return new(dims, lambda idx: uf(f"{kind}_over_{'_'.join(n.atoms)}", rd(idx[:dim] + [None] + idx[dim + (1 if keepdim else 0):])), t._dt)
    vc = Vc.cur
    if kind == "max" and not vc.entails(iterm(n) > 0) and bool(n == 0):
        raise SymError("maximum over no elements")
    dims = t._dims[:dim] + ([1] if keepdim else []) + t._dims[dim + 1:]
    skip = dim + (1 if keepdim else 0)
    tag = "max" if kind == "max" else "sum"
    isint = t._dt != "f"
    if isint and kind != "sum":
        raise Unsupported("reduction of integers")

    def fn(idx):
        body = lambda j: rd(idx[:dim] + [j] + idx[skip:])
        if tag == "max":
            return vc.fold_max(n, body)
        s = vc.sum(iterm(n), body, "sum")
        if kind == "mean":
            s = div(s, z3.ToReal(iterm(n)))
        return s

    if isint:
        raise Unsupported("sum of integers")
    return new(dims, fn, "f")


def reshape(t, sizes):
    dims, sizes = t._dims, list(sizes)
    if [d for d in sizes if isinstance(d, int) and d == -1]:
        p = [q for q, d in enumerate(sizes) if isinstance(d, int) and d == -1]
        if len(p) > 1:
            raise SymError("reshape: more than one inferred size")
        sizes = infer(dims, sizes, p[0])
    # drop and remember ones; then the remaining dims must match group by group
    src = [(k, d) for k, d in enumerate(dims) if not (isinstance(d, int) and d == 1)]
    dst = [(k, d) for k, d in enumerate(sizes) if not (isinstance(d, int) and d == 1)]
    groups = []
    a = b = 0
    while a < len(src) or b < len(dst):
        ga, gb = [], []
        if a >= len(src) or b >= len(dst):
            # sizes that may still be one
            rest = dst[b:] if a >= len(src) else src[a:]
            if all(not is_label(d) and bool(d == 1) for _, d in rest):
                if a >= len(src):
                    groups.append(([], dst[b:]))
                else:
                    groups.append((src[a:], []))
                break
            raise reshape_error(dims, sizes)
        ga.append(src[a])
        gb.append(dst[b])
        a += 1
        b += 1
        while not prod_eq(ga, gb):
            pa, pb = labels_of(ga), labels_of(gb)
            grow_a = len(pa) < len(pb)
            if len(pa) == len(pb):
                # structural factors: extend the side that misses factors
                grow_a = nfac(ga) < nfac(gb)
            if grow_a:
                if a >= len(src):
                    raise reshape_error(dims, sizes)
                ga.append(src[a])
                a += 1
            else:
                if b >= len(dst):
                    raise reshape_error(dims, sizes)
                gb.append(dst[b])
                b += 1
            if len(ga) + len(gb) > 12:
                raise Unsupported("reshape")
        groups.append((ga, gb))
    rd = t.reader()
    if rd is None:
        raise Unsupported("reshape of an opaque parameter")
    plan = []
    for ga, gb in groups:
        sa = [g for g in ga if not is_label(g[1])]
        sb = [g for g in gb if not is_label(g[1])]
        la = [x for g in ga if is_label(g[1]) for x in g[1].atoms]
        lb = [x for g in gb if is_label(g[1]) for x in g[1].atoms]
        if len(ga) == 1 and len(gb) == 1:
            sizes[gb[0][0]] = ga[0][1]
            plan.append(("one", ga[0][0], gb[0][0]))
            continue
        if not sa and not sb:
            left = list(la)
            for k, d in gb:
                take, left = left[:len(d.atoms)], left[len(d.atoms):]
                if sorted(take) != sorted(d.atoms):
                    raise Unsupported(f"reshape mixes label dimensions: {la} to {lb}")
                sizes[k] = label_size(tuple(take))  # atoms in memory order
            plan.append(("lab", [g[0] for g in ga], [g[0] for g in gb]))
            continue
        # structural parts: only the simple split / merge where the label factors keep their order
        fa = factors(ga)
        fb = factors(gb)
        plan.append(("fac", ga, gb, fa, fb))
    one_src = [k for k, d in enumerate(dims) if isinstance(d, int) and d == 1]

    def fn(idx):
        s = [None] * len(dims)
        for k in one_src:
            s[k] = z3.IntVal(0)
        for p in plan:
            if p[0] == "one":
                s[p[1]] = idx[p[2]]
            elif p[0] == "fac":
                _, ga, gb, fa, fb = p
                split_merge(idx, s, ga, gb)
        return rd(s)

    r = new(sizes, fn, t._dt)
    if len(plan) == len(src) == len(dst) and all(p[0] == "one" for p in plan):
        # only ones were inserted or removed: keep the view relation
        ren = [("fix", z3.IntVal(0))] * len(dims)
        for p in plan:
            ren[p[1]] = ("dim", p[2], z3.IntVal(0), 1)
        r = t._mkview(sizes, ren)
    else:
        shares(t, r)
    return r


def reshape_error(dims, sizes):
    """a reshape to a different number of elements is an error of the code; one whose number of elements may agree is not understood"""
    ga, gb = list(enumerate(dims)), list(enumerate(sizes))
    if labels_of(ga) == labels_of(gb):
        a = b = z3.IntVal(1)
        for _, d in ga:
            a = a if is_label(d) else a * iterm(d)
        for _, d in gb:
            b = b if is_label(d) else b * iterm(d)
        if not Vc.cur.entails(a != b):
            return Unsupported(f"reshape {dims} to {sizes}")
    return SymError(f"reshape {dims} to {sizes}")


def factors(g):
    return [d for _, d in g]


def labels_of(g):
    return sorted(x for _, d in g if is_label(d) for x in d.atoms)


def nfac(g):
    n = 0
    for _, d in g:
        if not is_label(d):
            t = iterm(d)
            n += len(t.children()) if z3.is_mul(t) else 1
    return n


def prod_eq(ga, gb):
    if labels_of(ga) != labels_of(gb):
        # a structural product of the size of labels does not match labels
        return False
    a = z3.IntVal(1)
    for _, d in ga:
        if not is_label(d):
            a = a * iterm(d)
    b = z3.IntVal(1)
    for _, d in gb:
        if not is_label(d):
            b = b * iterm(d)
    a, b = z3.simplify(a), z3.simplify(b)
    if a.eq(b):
        return True
    return Vc.cur.entails(a == b)


def split_merge(idx, s, ga, gb):
    """index map of a reshape group with structural factors: supported when at most one structural dim on one side is a
    product (label factors in between are only allowed to keep their order)"""
    sa = [g for g in ga if not is_label(g[1])]
    sb = [g for g in gb if not is_label(g[1])]
    la = [x for g in ga if is_label(g[1]) for x in g[1].atoms]
    lb = [x for g in gb if is_label(g[1]) for x in g[1].atoms]
    if la or lb:
        raise Unsupported("reshape mixes structural and label dimensions")
    # row-major linear index
    lin = z3.IntVal(0)
    for k, d in gb:
        lin = lin * iterm(d) + idx[k]
    if len(sa) == 1:
        s[sa[0][0]] = z3.simplify(lin)
        return
    vc = Vc.cur
    for q, (k, d) in enumerate(reversed(ga)):
        if q == len(ga) - 1:
            s[k] = z3.simplify(lin)
        else:
            dt = z3.simplify(iterm(d))
            if z3.is_int_value(dt):
                s[k] = lin % dt
                lin = lin / dt
            else:
                raise Unsupported("reshape splits a symbolic dimension")


def infer(dims, sizes, p):
    la = sorted(x for d in dims if is_label(d) for x in d.atoms)
    lb = [x for d in sizes if is_label(d) for x in d.atoms]
    for x in lb:
        if x not in la:
            raise SymError("reshape: size does not divide")
        la.remove(x)
    sa = [d for d in dims if not is_label(d) and not (isinstance(d, int) and d == 1)]
    sb = [d for q, d in enumerate(sizes) if q != p and not is_label(d) and not (isinstance(d, int) and d == 1)]
    for d in list(sb):
        for e in sa:
            if _same(d, e):
                sa.remove(e)
                sb.remove(d)
                break
    if sb:
        raise Unsupported("inferred size")
    n = label_size(tuple(la)) if la else 1
    for d in sa:
        n = d if isinstance(n, int) and n == 1 else n * d
    return sizes[:p] + [n] + sizes[p + 1:]
