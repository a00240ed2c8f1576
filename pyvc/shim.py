"""The `torch` namespace the instrumented library sees: real torch, with the modelled operations replaced."""
import math
import types

from tensor import *  # noqa: F401,F403
from tensor import R, SBool, SInt, SReal, SymError, SymRange, SymSeq, SymTensor, Unsupported, Vc, binop, broadcast_dims, broadcast_reader, cmpop, conv_scalar, dims_equal, div, from_real, fmax, is_intlike, is_label, iterm, label_size, modterm, mul, new, param, real_torch, reduce_dim, reshape, scalar, scalar_dt, seq_tensor, sint, smax, smin, uf, unop, wrap, z3

M = {}
SYMBOLIC_FACTORIES = [False]  # set once the library is imported: 0-d tensors are then modelled


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f

    return deco


class Fn:
    """A modelled function; not a descriptor, like the builtins it stands for."""

    def __init__(self, name, real):
        self.name, self.real = name, real
        self.__name__ = name

    def __call__(self, *a, **k):
        if self.name in FACTORY or any_sym(a) or any_sym(k.values()):
            return M[self.name](*a, **k)
        return self.real(*a, **k)

    def __repr__(self):
        return f"<modelled {self.name}>"

    def __deepcopy__(self, m):
        return self


def any_sym(xs):
    for x in xs:
        if isinstance(x, (SymTensor, SInt, SReal, SBool, SymSeq, SymRange)):
            return True
        if isinstance(x, (list, tuple)) and any_sym(x):
            return True
    return False


FACTORY = {"tensor"}


def dispatch(func, args, kwargs):
    name = getattr(func, "__name__", str(func))
    if name == "__get__":
        raise Unsupported(f"attribute of a tensor ({getattr(getattr(func, '__self__', None), '__name__', '?')})")
    if name == "__set__":
        raise Unsupported("setting a tensor attribute")
    if name in M:
        return M[name](*args, **kwargs)
    if len(name) > 4 and name.startswith("__") and name.strip("_") in M:
        return M[name.strip("_")](*args, **kwargs)
    raise Unsupported(f"torch operation {name}")


class Shim(types.ModuleType):
    def __init__(self, real, path):
        super().__init__(path)
        self.__dict__["_real"], self.__dict__["_path"] = real, path
        self.__dict__["_cache"] = {}

    def __getattr__(self, n):
        c = self._cache
        if n not in c:
            r = getattr(self._real, n)
            if isinstance(r, types.ModuleType) and (r.__name__ in ("torch.nn", "torch.nn.functional")):
                r = Shim(r, r.__name__)
            elif n in M and callable(r) and not isinstance(r, type):
                r = Fn(n, r)
            c[n] = r
        return c[n]


torch = Shim(real_torch, "torch")
F = torch.nn.functional


def _T(x):
    x = wrap(x)
    return x


# ------------------------------------------------------------------ factories
@model("tensor", "as_tensor")
def tensor(v, dtype=None, device=None, **k):
    if isinstance(v, real_torch.Tensor):
        return v.clone()
    if is_intlike(v) and not isinstance(v, bool):
        if not SYMBOLIC_FACTORIES[0]:
            return real_torch.tensor(v)
        return scalar(iterm(v), "i") if dtype is None or not dtype.is_floating_point else scalar(z3.ToReal(iterm(v)), "f")
    if isinstance(v, SBool):
        return scalar(v.t, "b")
    if isinstance(v, (SymRange, SymSeq)):
        return seq_tensor(v)
    if isinstance(v, (list, tuple)) and any_sym(v):
        return M["stack"]([tensor(x) for x in v], 0)
    if isinstance(v, SReal):
        return scalar(v.t, "f")
    kw = {} if dtype is None else dict(dtype=dtype)
    return real_torch.tensor(v, **kw)


def _size(a, k):
    if "size" in k:
        return list(k["size"])
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        return list(a[0])
    return list(a)


def _fill(term):
    def f(*a, dtype=None, **k):
        size = _size(a, k)
        r = new(size, lambda idx: term, "f")
        r._st.low = dtype in (None, real_torch.float32, real_torch.float16)
        return r

    return f


M["zeros"] = _fill(z3.RealVal(0))
M["ones"] = _fill(z3.RealVal(1))
PARAMS = [0]


@model("empty")
def empty(*a, **k):
    PARAMS[0] += 1
    return param(_size(a, k), f"p{PARAMS[0]}")


@model("full")
def full(size, v, **k):
    c = conv_scalar(v, "f")
    r = new(list(size), lambda i: c, "f")
    r._st.low = k.get("dtype") in (None, real_torch.float32, real_torch.float16)
    return r


@model("zeros_like")
def zeros_like(x, **k):
    c = conv_scalar(0, x._dt)
    return new(x._dims, lambda i: c, x._dt)


@model("ones_like")
def ones_like(x, **k):
    c = conv_scalar(1, x._dt)
    return new(x._dims, lambda i: c, x._dt)


@model("full_like")
def full_like(x, v, **k):
    c = conv_scalar(v, x._dt)
    return new(x._dims, lambda i: c, x._dt)


@model("clone")
def clone(x, **k):
    return x.clone()


@model("arange")
def arange(a, b=None, step=1, **k):
    lo, hi = (0, a) if b is None else (a, b)
    r = SymRange(lo, hi, step)
    return seq_tensor(SymSeq(r.n, r.at))


# ------------------------------------------------------------------ structure
def seg_list(ts):
    """list or SymSeq of tensors -> segments [(n, at)]"""
    if isinstance(ts, SymSeq):
        return ts.segs
    return [(1, (lambda i, v=v: v)) for v in ts]


@model("stack")
def stack(ts, dim=0):
    if isinstance(ts, SymSeq):
        n = ts.n
        if (n == 0) is True or (not isinstance(n, int) and bool(n == 0)):
            raise SymError("stack expects a non-empty list")
        first = wrap(ts.sample())
        rank = len(first._dims)
        d = dim if dim >= 0 else dim + rank + 1
        return new(first._dims[:d] + [n] + first._dims[d:], lambda idx: ts.value(idx[d], idx[:d] + idx[d + 1:]), first._dt)
    ts = [wrap(t) for t in ts]
    if not ts:
        raise SymError("stack expects a non-empty list")
    for t in ts:
        if not isinstance(t, SymTensor):
            raise TypeError("stack expects tensors")
    first = ts[0]
    for t in ts[1:]:
        if len(t._dims) != len(first._dims) or not all(dims_equal(a, b) for a, b in zip(t._dims, first._dims)):
            raise SymError("stack expects equal shapes")
    d = dim if dim >= 0 else dim + len(first._dims) + 1
    if not 0 <= d <= len(first._dims):
        raise SymError("dimension out of range")
    from tensor import _cast

    dt = max((t._dt for t in ts), key={"b": 0, "i": 1, "f": 2}.get)
    rds = [(lambda r, c: (lambda idx: c(r(idx))))(t.reader(), _cast(t._dt, dt)) for t in ts]

    def fn(idx):
        rest = idx[:d] + idx[d + 1:]
        i = z3.simplify(idx[d])
        if z3.is_int_value(i):
            return rds[min(max(i.as_long(), 0), len(rds) - 1)](rest)
        r = rds[-1](rest)
        for q in range(len(rds) - 2, -1, -1):
            r = z3.If(i == q, rds[q](rest), r)
        return r

    return new(first._dims[:d] + [len(ts)] + first._dims[d:], fn, dt)


@model("cat", "concat")
def cat(ts, dim=0):
    if isinstance(ts, SymSeq):
        if getattr(Vc.cur, "cat_any", None):  # the contract of the concatenation of a list of any length
            return Vc.cur.cat_any(ts, dim)
        raise Unsupported("cat of a symbolic list")
    ts = [wrap(t) for t in ts]
    if not ts:
        raise SymError("cat expects a non-empty list")
    ts = [t for t in ts if not (len(t._dims) == 1 and isinstance(t._dims[0], int) and t._dims[0] == 0)] or ts[:1]
    d = ts[0]._ax(dim)
    for t in ts[1:]:
        if len(t._dims) != len(ts[0]._dims) or not all(k == d or dims_equal(a, b) for k, (a, b) in enumerate(zip(t._dims, ts[0]._dims))):
            raise SymError("cat expects equal shapes")
    if len(ts) == 1:
        return ts[0].clone()
    if any(is_label(t._dims[d]) for t in ts):
        if not all(is_label(t._dims[d]) for t in ts):
            raise Unsupported("cat of labels and structure")
        # channel concatenation: an opaque pairing of frames
        rds = [t.reader() for t in ts]
        nm = "cat_" + "_".join("x".join(t._dims[d].atoms) for t in ts)
        lab = Vc.cur.derived_label(nm)
        dims = list(ts[0]._dims)
        dims[d] = lab
        return new(dims, lambda idx: uf(nm, *[r(idx[:d] + [None] + idx[d + 1:]) for r in rds]), "f")
    sizes = [t._dims[d] for t in ts]
    dt = max((t._dt for t in ts), key={"b": 0, "i": 1, "f": 2}.get)
    from tensor import _cast

    rds = [(lambda r, c: (lambda idx: c(r(idx))))(t.reader(), _cast(t._dt, dt)) for t in ts]
    tot = sizes[0]
    for s in sizes[1:]:
        tot = tot + s
    offs = [0]
    for s in sizes[:-1]:
        offs.append(offs[-1] + s)

    def fn(idx):
        i = idx[d]
        at = lambda q: rds[q](idx[:d] + [z3.simplify(i - iterm(offs[q]))] + idx[d + 1:])
        r = at(len(ts) - 1)
        for q in range(len(ts) - 2, -1, -1):
            c = z3.simplify(i < iterm(offs[q + 1]))
            r = at(q) if z3.is_true(c) else (r if z3.is_false(c) else z3.If(c, at(q), r))
        return r

    dims = list(ts[0]._dims)
    dims[d] = tot
    return new(dims, fn, dt)


@model("chunk")
def chunk(t, n, dim=0):
    d = t._ax(dim)
    s = t._dims[d]
    if isinstance(n, SInt) or isinstance(s, SInt) and not isinstance(n, int):
        raise Unsupported("chunk")
    if isinstance(s, SInt) and t._st.fn is not None:
        raise Unsupported("chunk of a symbolic dimension")
    if is_label(s):
        raise Unsupported("chunk of a label")
    if t._st.fn is None and t._op is not None and d == 0:
        return tuple(rows(t, n, i) for i in range(n))
    if not isinstance(s, int):
        raise Unsupported("chunk of a symbolic dimension")
    step = -(-s // n)
    n = max(1, -(-s // step)) if s else n
    return tuple(t._slice(d, slice(step * i, step * (i + 1))) for i in range(n))


@model("roll")
def roll(t, shifts, dims=None):
    if dims is None:
        raise Unsupported("flattened roll")
    shifts = shifts if isinstance(shifts, (tuple, list)) else (shifts,)
    dims = dims if isinstance(dims, (tuple, list)) else (dims,)
    for s, d in zip(shifts, dims):
        d = t._ax(d)
        n, rd = iterm(t._dims[d]), t.reader()
        sh = iterm(s)
        vc = Vc.cur
        if not vc.entails(z3.And(sh >= -n, sh <= n)):
            if z3.is_int_value(z3.simplify(sh)) and abs(z3.simplify(sh).as_long()) == 1:
                pass  # only an empty dimension is shorter; it has no elements
            else:
                raise Unsupported("roll by more than the size")

        def fn(idx, rd=rd, n=n, sh=sh, d=d):
            i = z3.simplify(idx[d] - sh)
            return rd(idx[:d] + [z3.If(i < 0, i + n, z3.If(i >= n, i - n, i))] + idx[d + 1:])

        low = t._st.low
        t = new(t._dims, fn, t._dt)
        t._st.low = low
    return t


@model("unsqueeze")
def unsqueeze(t, dim):
    return t.unsqueeze(dim)


@model("squeeze")
def squeeze(t, dim=None):
    return t.squeeze(dim)


for _n in ("permute", "transpose", "movedim", "flatten", "narrow", "select", "flip", "reshape", "expand_as", "detach", "index_select", "swapaxes", "unflatten", "numel"):
    M[_n] = (lambda n: (lambda t, *a, **k: getattr(t, n)(*a, **k)))(_n)


@model("is_tensor")
def is_tensor(x):
    return isinstance(x, real_torch.Tensor)


# ------------------------------------------------------------------ pointwise
for _n, _o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("multiply", "mul"), ("div", "div"), ("true_divide", "div"), ("remainder", "mod"), ("fmod", "mod"), ("maximum", "max"), ("minimum", "min")):
    M[_n] = (lambda o: (lambda a, b, alpha=1, **k: binop(o, a, b if alpha == 1 else b * alpha)))(_o)
for _n in ("eq", "ne", "lt", "le", "gt", "ge", "logical_and", "logical_or"):
    M[_n] = (lambda o: (lambda a, b: cmpop(o, a, b)))(_n.replace("logical_", ""))


@model("neg", "negative")
def neg(x):
    return -x


@model("max")
def tmax(x, *a, **k):
    if a and isinstance(a[0], real_torch.Tensor):
        return binop("max", x, a[0])
    raise Unsupported("torch.max over a dimension")


for _n in ("exp", "relu", "gelu", "sigmoid", "tanh", "silu", "softplus", "elu", "leaky_relu", "hardtanh", "log", "sqrt", "abs", "sin", "cos", "celu", "selu", "relu6", "hardswish", "hardsigmoid", "square", "reciprocal", "rsqrt"):
    M[_n] = (lambda n: (lambda x, *a, **k: unop(lambda v: uf(n + "".join(f"_{q}" for q in a) + "".join(f"_{p}{q}" for p, q in sorted(k.items()) if p != "inplace"), v), x, "f")))(_n)


@model("dropout")
def dropout(x, p=0.5, training=True, inplace=False):
    if training and not (isinstance(p, (int, float)) and p == 0):
        raise Unsupported("dropout while training")
    return x


@model("where")
def where(c, a, b):
    c, a, b = wrap(c), wrap(a), wrap(b)
    da = a._dims if isinstance(a, SymTensor) else []
    db = b._dims if isinstance(b, SymTensor) else []
    dims = broadcast_dims(broadcast_dims(c._dims, da), db)
    dt = max([x._dt if isinstance(x, SymTensor) else scalar_dt(x) for x in (a, b)], key={"b": 0, "i": 1, "f": 2}.get)
    rc, ra, rb = broadcast_reader(c, dims, "b"), broadcast_reader(a, dims, dt), broadcast_reader(b, dims, dt)
    return new(dims, lambda i: z3.If(rc(i), ra(i), rb(i)), dt)


@model("sum")
def tsum(x, dim=None, keepdim=False, **k):
    return reduce_dim(x, dim, keepdim, "sum")


@model("mean")
def tmean(x, dim=None, keepdim=False, **k):
    return reduce_dim(x, dim, keepdim, "mean")


@model("amax")
def amax(x, dim=None, keepdim=False):
    return reduce_dim(x, dim, keepdim, "max")


@model("softmax")
def softmax(x, dim=None, _stacklevel=3, dtype=None):
    d = x._ax(dim)
    e = unop(lambda v: uf("exp", v), x, "f")
    return e / reduce_dim(e, d, True, "sum")


# ------------------------------------------------------------------ linear algebra
@model("matmul", "bmm", "mm")
def matmul(a, b):
    a, b = wrap(a), wrap(b)
    if len(a._dims) < 2 or len(b._dims) < 2:
        raise Unsupported("matrix-vector product")
    ka, kb = a._dims[-1], b._dims[-2]
    if not dims_equal(ka, kb):
        raise SymError(f"matmul of {a._dims} and {b._dims}")
    batch = broadcast_dims(a._dims[:-2], b._dims[:-2])
    dims = batch + [a._dims[-2], b._dims[-1]]
    ra, rb = broadcast_reader(a, batch + a._dims[-2:], "f"), broadcast_reader(b, batch + b._dims[-2:], "f")
    if is_label(ka):
        # contraction over coordinates: an opaque bilinear form of two frames
        nm = "dot_" + "_".join(sorted(ka.atoms))

        def fn(idx):
            x, y = ra(idx[:-1] + [None]), rb(idx[:-2] + [None, idx[-1]])
            return dot(nm, x, y)

        if is_label(a._dims[-2]) and is_label(b._dims[-1]):
            raise Unsupported("product of label matrices")
        return new(dims, fn, "f")
    if isinstance(ka, int) and ka == 1:
        return new(dims, lambda idx: mul(ra(idx[:-1] + [z3.IntVal(0)]), rb(idx[:-2] + [z3.IntVal(0), idx[-1]])), "f")
    vc = Vc.cur
    return new(dims, lambda idx: vc.sum(iterm(ka), lambda j: mul(ra(idx[:-1] + [j]), rb(idx[:-2] + [j, idx[-1]]))), "f")


def dot(nm, x, y):
    Vc.cur.approx_ops.add("inner products are uninterpreted")
    return uf(nm, z3.simplify(x), z3.simplify(y))


def opname(p):
    if isinstance(p, SymTensor):
        if p._op is None:
            raise Unsupported("a computed tensor used as a weight")
        return str(p._op)
    return f"real{id(p)}"


@model("linear")
def linear(x, w, b=None):
    wd = w._dims if isinstance(w, SymTensor) else list(w.shape)
    if not dims_equal(x._dims[-1], wd[1]):
        raise SymError(f"linear: input has {x._dims[-1]} features, weight has {wd[1]}")
    nm = f"lin[{opname(w)}]"
    bias = None if b is None else z3.Real(f"val[{opname(b)}]")
    rd = x.reader()
    dims = x._dims[:-1] + [wd[0]]

    def fn(idx):
        v = uf(nm, rd(idx[:-1] + [None]))
        return v if bias is None else v + bias

    return new(dims, fn, "f")


def rows(t, n, i):
    """the i-th of n equal row blocks of an opaque parameter"""
    d = t._dims[0]
    blk = stacked(d, n)
    r = param([blk] + list(t._dims[1:]), ("rows", t._op, n, i))
    return r


def stacked(d, n):
    """the label dimension of which d is n copies"""
    for lab in Vc.cur.stacks:
        if z3.simplify(iterm(d) - n * iterm(lab)).eq(z3.IntVal(0)):
            return lab
    raise Unsupported("row blocks of a parameter")


@model("_in_projection_packed")
def in_projection_packed(q, k, v, w, b=None):
    return tuple(linear(x, rows(w, 3, i), None if b is None else rows(b, 3, i)) for i, x in enumerate((q, k, v)))


@model("_in_projection")
def in_projection(q, k, v, w_q, w_k, w_v, b_q=None, b_k=None, b_v=None):
    return linear(q, w_q, b_q), linear(k, w_k, b_k), linear(v, w_v, b_v)


@model("embedding")
def embedding(input, weight, padding_idx=None, max_norm=None, norm_type=2.0, scale_grad_by_freq=False, sparse=False):
    if max_norm is not None:
        raise Unsupported("embedding options")
    n, D = weight._dims
    rd, vc = input.reader(), Vc.cur
    js = [None if is_label(d) else vc.fresh("je") for d in input._dims]
    hyp = z3.And(*[z3.And(j >= 0, j < iterm(d)) for j, d in zip(js, input._dims) if j is not None]) if js else z3.BoolVal(True)
    v = rd(js)
    if not vc.entails(z3.Implies(hyp, z3.And(v >= 0, v < iterm(n)))) and vc.sat(hyp, z3.Not(z3.And(v >= 0, v < iterm(n)))):
        vc.fail("embedding positions stay within the table", f"{z3.simplify(v)} may leave [0, {n})")
    w = weight.reader()
    k = len(input._dims)
    return new(list(input._dims) + [D], lambda ix: w([rd(ix[:k]), ix[k]]), "f")


@model("layer_norm")
def layer_norm(x, shape, weight=None, bias=None, eps=1e-5):
    if len(shape) != 1 or not dims_equal(x._dims[-1], shape[0]):
        raise SymError("layer_norm: shape mismatch")
    nm = f"ln[{opname(weight) if weight is not None else ''},{opname(bias) if bias is not None else ''},{eps}]"
    rd = x.reader()
    return new(x._dims, lambda idx: uf(nm, rd(idx)), "f")


# ------------------------------------------------------------------ padding, convolution, pooling
@model("pad")
def pad(x, pads, mode="constant", value=None):
    pads = list(pads)
    if len(pads) % 2:
        raise SymError("padding length must be even")
    n = len(pads) // 2
    x = wrap(x)
    if mode != "constant" and len(x._dims) not in (n + 1, n + 2):
        raise SymError("padding does not fit the number of dimensions")
    dims, out, dt = list(x._dims), x, x._dt
    if dt == "b" or dt == "i" and isinstance(value, float):
        raise Unsupported("padding of integers")
    for q in range(n):
        d = len(dims) - 1 - q
        lo, hi = pads[2 * q], pads[2 * q + 1]
        if isinstance(lo, int) and isinstance(hi, int) and lo == hi == 0:
            continue
        size = out._dims[d]
        rd = out.reader()
        if is_label(size):
            if dt != "f" or value:
                raise Unsupported("padding of a label dimension")
            nm = f"pad_{mode}_{value}_d{len(dims) - d}"
            lab = Vc.cur.derived_label(f"{nm}({'.'.join(size.atoms)},{lo},{hi})")
            nd = list(out._dims)
            nd[d] = lab
            out = new(nd, (lambda rd, lo, hi, d, nm: (lambda idx: uf0(nm, rd(idx), lo, hi)))(rd, lo, hi, d, nm), "f")
            continue
        nd = list(out._dims)
        nd[d] = sint(iterm(size) + iterm(lo) + iterm(hi))
        sz, l = iterm(size), iterm(lo)
        if mode == "replicate" and not Vc.cur.entails(sz > 0) and bool(sint(sz) == 0):
            raise SymError("replicate padding of an empty dimension")

        def fn(idx, rd=rd, d=d, sz=sz, l=l):
            i = z3.simplify(idx[d] - l)
            if mode == "replicate":
                j = z3.If(i < 0, z3.IntVal(0), z3.If(i >= sz, sz - 1, i))
                return rd(idx[:d] + [j] + idx[d + 1:])
            if mode == "constant":
                c = conv_scalar(value or 0, dt)
                return z3.If(z3.And(i >= 0, i < sz), rd(idx[:d] + [i] + idx[d + 1:]), c)
            raise Unsupported(f"padding mode {mode}")

        out = new(nd, fn, dt)
    return out.clone() if out is x else out


def uf0(nm, x, *args):
    """linear opaque map of a frame: zero stays zero"""
    x = z3.simplify(x)
    if z3.is_rational_value(x) and x.numerator_as_long() == 0:
        return x
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = x.children()
        isz = lambda v: z3.is_rational_value(v) and v.numerator_as_long() == 0
        if isz(a) or isz(b):
            return z3.If(c, uf0(nm, a, *args), uf0(nm, b, *args))
    t = uf(nm, x, *args)
    z = uf(nm, z3.RealVal(0), *args)
    Vc.cur.add(z == 0)
    return t


def _tup(v, n):
    if isinstance(v, (tuple, list)):
        return tuple(v) if len(v) == n else tuple(v) * n if len(v) == 1 else tuple(v)
    return (v,) * n


def conv_out_label(size, args):
    return Vc.cur.derived_label(f"conv({'.'.join(size.atoms) if is_label(size) else size},{','.join(str(a) for a in args)})")


def _conv(n):
    def conv(input, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
        x = input
        if len(x._dims) != n + 2:
            raise SymError(f"conv{n}d expects a {n + 2}-dimensional input, got {len(x._dims)} dimensions")
        wd = weight._dims
        cin = wd[1] * groups if not (isinstance(groups, int) and groups == 1) else wd[1]
        if not dims_equal(x._dims[1], cin):
            raise SymError(f"conv{n}d: {x._dims[1]} input channels, expected {cin}")
        if isinstance(padding, str):
            raise Unsupported("string padding")
        stride, padding, dilation = _tup(stride, n), _tup(padding, n), _tup(dilation, n)
        k, s, p, d = wd[2], stride[0], padding[0], dilation[0]
        T = x._dims[2]
        vc = Vc.cur
        if not (isinstance(d, int) and d == 1):
            if not bool(d == 1):
                raise Unsupported("temporal dilation")
        spargs = [a for q in range(1, n) for a in (stride[q], padding[q], dilation[q])] + [groups]
        nm = f"tap[{opname(weight)}]"
        rd = x.reader()
        sz = iterm(T)
        kt, st, pt = iterm(k), iterm(s), iterm(p)
        b = None if bias is None else z3.Real(f"val[{opname(bias)}]")
        odims = [x._dims[0], wd[0], None]
        for q in range(1, n):
            odims.append(conv_out_label(x._dims[2 + q], (wd[2 + q], stride[q], padding[q], dilation[q])))
        span = z3.simplify(sz + 2 * pt - kt)
        if not vc.entails(span >= 0):
            if vc.decide(span < 0):
                raise SymError(f"conv{n}d: kernel size larger than the padded input")
        if isinstance(s, int) and s == 1:
            odims[2] = sint(span + 1)
        else:
            q = vc.fresh("olen")
            vc.add(z3.And(q >= 1, (q - 1) * st <= span, span < q * st))
            odims[2] = sint(q)

        def tap(j, idx, tau):
            return uf0(nm, rd([idx[0], None, tau] + [None] * (n - 1)), z3.simplify(j), *spargs)

        one = isinstance(T, int) and T == 1

        def fn(idx):
            o = idx[2]
            if one:  # a single frame: at most one tap is inside
                j = z3.simplify(pt - o * st)
                v = z3.If(z3.And(j >= 0, j < kt), tap(j, idx, z3.IntVal(0)), z3.RealVal(0))
                if vc.entails(z3.And(j >= 0, j < kt)):
                    v = tap(j, idx, z3.IntVal(0))
            else:
                base = z3.simplify(o * st - pt)
                nopad = z3.is_int_value(z3.simplify(pt)) and z3.simplify(pt).as_long() == 0
                body = (lambda j: tap(j, idx, base + j)) if nopad else (lambda j: z3.If(z3.And(base + j >= 0, base + j < sz), tap(j, idx, base + j), z3.RealVal(0)))
                v = vc.sum(kt, body)
            return v if b is None else v + b

        return new(odims, fn, "f")

    return conv


for _q in (1, 2, 3):
    M[f"conv{_q}d"] = _conv(_q)


def _pool(kind, n):
    """pooling over n dimensions; the first one is temporal if it is structural, otherwise all are spatial"""

    def pool(input, kernel_size, stride=None, padding=0, *args, **kw):
        x = input
        if kind == "avg":
            names = ["ceil_mode", "count_include_pad", "divisor_override"]
        else:
            names = ["dilation", "ceil_mode", "return_indices"]
        kw = {**dict(zip(names, args)), **kw}
        if kw.get("return_indices"):
            raise Unsupported("pooling indices")
        if len(x._dims) not in (n + 1, n + 2):
            raise SymError(f"{kind}_pool{n}d: wrong number of dimensions {x._dims}")
        ks, pd = _tup(kernel_size, n), _tup(padding, n)
        st = _tup(stride, n) if stride is not None and stride != () and stride != [] else ks
        dl = _tup(kw.get("dilation", 1), n)
        vc = Vc.cur
        first = len(x._dims) - n
        rd = x.reader()
        temporal = not is_label(x._dims[first])
        if temporal and kind == "avg" and (kw.get("ceil_mode") or not kw.get("count_include_pad", True) or kw.get("divisor_override")):
            raise Unsupported("temporal pooling options outside the property")
        if temporal and kind == "max" and kw.get("ceil_mode"):
            raise Unsupported("temporal pooling options outside the property")
        lo = 1 if temporal else 0
        opts = [kw.get("ceil_mode", False), kw.get("count_include_pad", True), kw.get("divisor_override", None)]
        sp = [a for q in range(lo, n) for a in (ks[q], st[q], pd[q], dl[q])]
        flags = "" if lo == n else "_".join(str(o) for o in opts)
        dims = list(x._dims)
        for q in range(lo, n):
            if not is_label(dims[first + q]):
                raise Unsupported("pooling over a structural spatial dimension")
            dims[first + q] = Vc.cur.derived_label(f"pool({'.'.join(dims[first + q].atoms)},{','.join(str(a) for a in (ks[q], st[q], pd[q], dl[q]))},{opts[0]})")
        nsp = n - lo

        def frame(idx, tau):
            full = list(idx[:first]) + ([tau] if temporal else []) + [None] * nsp
            v = rd(full)
            return v if nsp == 0 else (uf0 if kind == "avg" else uf)(f"{kind}pool{nsp}d_{flags}", v, *sp)

        if not temporal:
            return new(dims, lambda idx: frame(idx, None), "f")
        k, s, p, d = (iterm(v[0]) for v in (ks, st, pd, dl))
        T = iterm(x._dims[first])
        span = z3.simplify(T + 2 * p - d * (k - 1) - 1)
        if not vc.entails(span >= 0) and vc.decide(span < 0):
            raise SymError("pooling window larger than the input")
        q_ = vc.fresh("plen")
        vc.add(z3.And(q_ >= 1, (q_ - 1) * s <= span, span < q_ * s))
        dims[first] = sint(q_)
        ninf = -z3.Real("INF")

        def fn(idx):
            base = z3.simplify(idx[first] * s - p)
            at = lambda j: base + j * d
            if kind == "avg":
                sm = vc.sum(k, lambda j: z3.If(z3.And(at(j) >= 0, at(j) < T), frame(idx, at(j)), z3.RealVal(0)))
                return div(sm, z3.ToReal(k))
            return vc.fold_max(sint(k), lambda j: z3.If(z3.And(at(j) >= 0, at(j) < T), frame(idx, at(j)), ninf))

        return new(dims, fn, "f")

    return pool


for _q in (1, 2, 3):
    M[f"avg_pool{_q}d"] = _pool("avg", _q)
    M[f"max_pool{_q}d"] = _pool("max", _q)
    M[f"_max_pool{_q}d"] = M[f"max_pool{_q}d"]


def _adaptive(kind, n):
    def pool(input, output_size, return_indices=False):
        x = input
        if return_indices:
            raise Unsupported("pooling indices")
        out = _tup(output_size, n)
        first = len(x._dims) - n
        if first not in (1, 2):
            raise SymError("adaptive pooling: wrong number of dimensions")
        rd = x.reader()
        temporal = not is_label(x._dims[first])
        dims = list(x._dims)
        vc = Vc.cur
        lo = 1 if temporal else 0
        for q in range(lo, n):
            dims[first + q] = vc.derived_label(f"apool({'.'.join(dims[first + q].atoms)},{out[q]})") if out[q] is not None else dims[first + q]
        nsp = n - lo
        sp = [o for o in out[lo:]]

        def frame(idx, tau):
            v = rd(list(idx[:first]) + ([tau] if temporal else []) + [None] * nsp)
            return v if nsp == 0 else (uf0 if kind == "avg" else uf)(f"adaptive{kind}{nsp}d", v, *sp)

        if not temporal:
            return new(dims, lambda idx: frame(idx, None), "f")
        if not (isinstance(out[0], int) and out[0] == 1):
            raise Unsupported("adaptive temporal pooling to more than one step")
        n_ = x._dims[first]
        dims[first] = 1

        def fn(idx):
            if kind == "avg":
                return div(vc.sum(iterm(n_), lambda j: frame(idx, j)), z3.ToReal(iterm(n_)))
            return vc.fold_max(n_, lambda j: frame(idx, j))

        return new(dims, fn, "f")

    return pool


for _q in (1, 2, 3):
    M[f"adaptive_avg_pool{_q}d"] = _adaptive("avg", _q)
    M[f"adaptive_max_pool{_q}d"] = _adaptive("max", _q)
