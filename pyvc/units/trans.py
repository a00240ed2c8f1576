"""C16: transformer encoder layers and encoders against torch.nn's over the latest n tokens.

The oracle is torch.nn.TransformerEncoder(Layer)'s own code, run on the same parameters; attention, layer norm and the
linear maps are axioms.  The attention and delay modules inside are known by their contracts (C14, C13, C03) when stepping.
"""
import attention

from .export import patched
from .lib import *  # noqa: F401,F403
from .mha import Setup
from .parts import Op, Part

from continual import transformer as TR

nn = shim.torch.nn
real_torch.backends.mha.set_fastpath_enabled(False)  # the fused kernel computes what the code computes
T_ = "continual.transformer."


def attention_of(m):
    return [q for q in m.modules() if isinstance(q, real_torch.nn.MultiheadAttention)]


class World:
    """widths, window, one token stream"""

    def __init__(self, vc):
        self.vc = vc
        self.H, self.D, self.B, self.FF = vc.label("H"), vc.label("D"), vc.label("B"), vc.label("FF")
        self.E = self.H * self.D
        vc.stacks.append(self.E)
        self.n = vc.int("n", 1)
        X = z3.Function("X", I, R)
        self.X = lambda t: X(z3.simplify(iterm(t)))
        self.eps = 0.25

    def att(self, mha, X):
        s = Setup.__new__(Setup)
        s.vc, s.H, s.D, s.B, s.E, s.n, s.m = self.vc, self.H, self.D, self.B, self.E, self.n, mha
        s.XQ = s.XK = s.XV = X
        return s.att

    def ref_layer(self, act, **kw):
        r = nn.TransformerEncoderLayer(self.E, self.H, self.FF, 0.5, act, self.eps, batch_first=kw.pop("batch_first", True), **kw)
        return r.eval()

    def window(self, w, X=None, T=None):
        """tokens w .. w+n-1 as (B, n, E)"""
        X = X or self.X
        self.at = w
        return new([self.B, T or self.n, self.E], lambda ix: X(w + iterm(ix[1])))

    def seq(self, T, start=0):
        s = iterm(start)
        return new([self.B, self.E, T], lambda ix: self.X(s + iterm(ix[2])))

    def frame(self, t):
        v = self.X(t)
        return new([self.B, self.E], lambda ix: v)


SUFFIXES = "self_attn.in_proj_weight self_attn.in_proj_bias self_attn.out_proj.weight self_attn.out_proj.bias linear1.weight linear1.bias linear2.weight linear2.bias norm1.weight norm1.bias norm2.weight norm2.bias".split()


def like(vc, ref, ours):
    """give a torch layer the parameters of ours, which are named by the same suffixes"""
    named = dict(ours.named_parameters())
    for s in SUFFIXES:
        hits = [v for k, v in named.items() if k.replace("fn.", "").endswith(s)]
        if len(hits) != 1:
            raise Unsupported(f"parameter {s} of a layer")
        holder = ref
        *path, last = s.split(".")
        for q in path:
            holder = getattr(holder, q)
        holder._parameters[last] = hits[0]
    return ref


class Rows(Part):
    """an attention or unity module: from step n-1 on, step k emits rows F(k-(n-1), i), i = 0..n-1, along a new last axis"""

    def __init__(self, op, n, rowf):
        Part.__init__(self, op)
        self.__dict__["n"], self.__dict__["rowf"] = n, rowf

    def _emit(self, k):
        op = self.op
        if not op.vc.decide(op.E(k)):
            return None
        m = op.cnt(k)
        return new(op.lead + op.rest + [self.n], lambda ix: self.rowf(m, ix[-1]))

    def forward_steps(self, input, pad_end=False, update_state=True):
        op, vc = self.op, self.op.vc
        op.seen.add("steps")
        if pad_end:
            raise Unsupported("end padding of a retroactive module")
        T = input._dims[len(op.lead)] if isinstance(input, SymTensor) and len(input._dims) > len(op.lead) else None
        if T is None:
            vc.fail("each part gets its next frames", f"part {op.name} was called with {input}")
            raise PathEnd()
        k = op.k
        values(vc, "each part gets its next frames", input, op.lead + [T] + op.rest, lambda ix: op.frame(k + iterm(ix[len(op.lead)])))
        n = z3.simplify(op.cnt(k + iterm(T)) - op.cnt(k))
        if update_state:
            op.k = z3.simplify(k + iterm(T))
        if vc.decide(n == 0):
            return None
        c = op.cnt(k)
        return new(op.lead + [sint(n), self.n], lambda ix: self.rowf(z3.simplify(c + iterm(ix[len(op.lead)])), ix[-1]))


def swap(vc, m, W, k, X=None):
    """replace the stateful modules inside by their contracts, positioned after k tokens"""
    from continual.delay import Delay

    X = X or W.X
    n = iterm(W.n)
    ops = []

    def stand_in(mod):
        if isinstance(mod, real_torch.nn.MultiheadAttention):
            att = W.att(mod, X)
            retro = isinstance(mod, co.RetroactiveMultiheadAttention)
            if retro:
                op = Op(vc, "attention", sint(n - 1))
                p = Rows(op, W.n, lambda m_, i: att(i, m_))
            else:
                d = iterm(mod.delay)
                row = z3.simplify(n - 1 - d)
                op = Op(vc, "attention", sint(n - 1), out=lambda o, m_: att(row, m_))
                p = Part(op)
            p.receptive_field, p.padding = W.n, (sint(n - 1 - iterm(mod.delay)),)
            ok = getattr(mod, "batch_first", None) and getattr(mod, "embed_dim_second", None)
            vc.ok("attention is laid out as (batch, features, time)") if ok else vc.fail("attention is laid out as (batch, features, time)", "another layout")
            if not vc.entails(iterm(mod.sequence_len) == n):
                vc.fail("attention covers the window", str(mod.sequence_len))
        elif type(mod) is TR.RetroactiveUnity:
            d = mod.delay
            op = Op(vc, "unity", d)
            p = Rows(op, sint(iterm(d) + 1), lambda m_, i: X(m_ + iterm(i)))
            if mod.time_dim not in (-1, 2):
                raise Unsupported("time axis")
        elif isinstance(mod, Delay):
            if isinstance(mod.delay, int) and mod.delay == 0:
                return None
            op = Op(vc, "delay", mod.delay, out=lambda o, m_: X(m_))
            p = Part(op)
        else:
            return None
        op.feed(X, [W.B, W.E], [])
        op.k = iterm(k)
        ops.append(op)
        return p

    def walk(parent):
        if isinstance(parent, (TR.RetroactiveLambda, Part)):
            return  # what it wraps is called on whole sequences only
        for name, child in list(parent._modules.items()):
            q = stand_in(child) if child is not None else None
            if q is not None:
                parent._modules[name] = q
            elif child is not None:
                walk(child)

    if hasattr(W, "first"):
        W.first.k = iterm(k)
        ops.append(W.first)
    walk(m)
    return ops


def activation(vc):
    return vc.choose("activation", [real_torch.nn.functional.silu, real_torch.nn.functional.relu])


def layer(vc, W, kind, via):
    act = activation(vc)
    kw = {}
    if kind == "single":
        kw["single_output_forward"] = vc.choose("single_output_forward", [False, True])
        if via == "class":
            qi = vc.int("query_index")
            vc.assume(z3.And(iterm(qi) >= -iterm(W.n), iterm(qi) < iterm(W.n)))
            kw["query_index"] = qi
    name = {"single": "SingleOutput", "retro": "Retroactive"}[kind] + "TransformerEncoderLayer"
    if via == "class":
        m = getattr(co, name)(W.E, W.H, W.FF, 0.5, act, W.eps, sequence_len=W.n, **kw)
        row = kw.get("query_index", -1)
    else:
        what = vc.choose("named by", ["enum", "string"])
        t = "retroactive" if kind == "retro" else "single_output_forward" if kw["single_output_forward"] else "single_output"
        s = {real_torch.nn.functional.relu: "relu"}.get(act, act)
        m = co.TransformerEncoderLayerFactory(W.E, W.H, W.FF, 0.5, s, W.eps, sequence_len=W.n)(TR.MhaType(t) if what == "enum" else t)
        row = -1
    m.eval()
    p = sorted({q.p for q in m.modules() if isinstance(q, real_torch.nn.Dropout)} | {a.dropout for a in attention_of(m)})
    vc.ok("dropout is passed on") if p == [0.5] else vc.fail("dropout is passed on", str(p))
    ref = like(vc, W.ref_layer(act), m)
    row = z3.If(iterm(row) >= 0, iterm(row), iterm(W.n) + iterm(row))
    return m, ref, row, kw.get("single_output_forward", False)


def step_unit(kind, via, many):
    def u(vc):
        W = World(vc)
        m, ref, row, _ = layer(vc, W, kind, via)
        check_stream(vc, W, m, ref, kind, row, many)

    return u


def check_stream(vc, W, m, ref, kind, row, many, squeeze=True):
    n = iterm(W.n)
    k = iterm(vc.int("k", 0))
    up = vc.choose("update_state", [True, False])
    ops = swap(vc, m, W, k)
    if not ops:
        raise Unsupported("parts of a layer")
    want = lambda w, r: val(ref.forward(W.window(w)), [None, z3.simplify(iterm(r)), None])
    if not many:
        fun = up and vc.choose("via", ["step", "functional"]) == "functional"
        if fun:
            st = state_of(vc, m, ops, k)
            r = m._forward_step(W.frame(k), st)
            if not (isinstance(r, tuple) and len(r) == 2):
                return vc.fail("the functional step returns output and state", type(r).__name__)
            o = r[0]
        else:
            o = m.forward_step(W.frame(k), update_state=up)
        if vc.decide(k + 1 >= n):
            w = z3.simplify(k + 1 - n)
            if some(vc, "a full window has an output", o):
                if kind == "retro":
                    values(vc, "a step yields every position of the offline layer over the latest n tokens", o, [W.B, W.E, W.n], lambda ix: want(w, ix[2]))
                else:
                    values(vc, "a step yields the chosen position of the offline layer over the latest n tokens", o, [W.B, W.E], lambda ix: want(w, row))
        else:
            none(vc, "nothing is returned before n tokens have been seen", o)
        if not fun:
            for op in ops:
                vc.check(f"{op.name} is advanced by the token iff state is updated", op.k == k + (1 if up else 0))
    else:
        T = vc.int("T", 1)
        o = m.forward_steps(W.seq(T, k), update_state=up)
        end = k + iterm(T)
        first = z3.If(k + 1 >= n, k, n - 1)  # first step with an output
        cnt = z3.simplify(end - first)
        if vc.decide(cnt > 0):
            if some(vc, "full windows have outputs", o):
                if kind == "retro":
                    values(vc, "the steps yield every position of the offline layer over their windows", o, [W.B, W.E, sint(cnt), W.n], lambda ix: want(z3.simplify(first + iterm(ix[2]) + 1 - n), ix[3]))
                else:
                    values(vc, "the steps yield the chosen position of the offline layer over their windows", o, [W.B, W.E, sint(cnt)], lambda ix: want(z3.simplify(first + iterm(ix[2]) + 1 - n), row))
        else:
            none(vc, "nothing is returned before n tokens have been seen", o)
        for op in ops:
            vc.check(f"{op.name} is advanced by the tokens iff state is updated", op.k == k + (iterm(T) if up else 0))


def state_of(vc, m, ops, k):
    """explicit state of a network of abstract parts: states of its parts, in order"""
    if isinstance(m, Part):
        return None if not vc.decide(iterm(k) > 0) else m.op.token(k)
    kids = [q for q in m._modules.values()] if isinstance(m, (co.Sequential, co.BroadcastReduce)) else []
    return [state_of(vc, q, ops, k) for q in kids] if kids and vc.decide(iterm(k) > 0) else None


def offline_unit(kind, via):
    def u(vc):
        W = World(vc)
        m, ref, row, sof = layer(vc, W, kind, via)
        n = iterm(W.n)
        e = ref.forward(W.window(z3.IntVal(0)))
        o = m.forward(W.seq(W.n))
        want = lambda r: val(e, [None, z3.simplify(iterm(r)), None])
        if sof:
            values(vc, "the whole-sequence mode yields the chosen position of the offline layer", o, [W.B, W.E, 1], lambda ix: want(row))
        else:
            values(vc, "the whole-sequence mode equals the offline layer", o, [W.B, W.E, W.n], lambda ix: want(ix[2]))

    return u


A = ["torch.nn.TransformerEncoderLayer's Python code runs as the oracle; attention, layer norm, linear maps and activations are axioms"]
for _kind, _n in (("single", "SingleOutput"), ("retro", "Retroactive")):
    for _via in ("class", "factory"):
        _f = f"{T_}{_n}TransformerEncoderLayer {T_}sum_last_pairs {T_}RetroactiveLambda.forward {T_}NaiveResidual.forward" + f" {T_}TransformerEncoderLayerFactory" * (_via == "factory")
        unit("C16", f"{_kind} layer by {_via} step", _f, assume=A)(step_unit(_kind, _via, False))
        if _via == "class":
            unit("C16", f"{_kind} layer by {_via} steps", _f, assume=A)(step_unit(_kind, _via, True))
        unit("C16", f"{_kind} layer by {_via} forward", _f + f" {T_}SelectOrDelay.forward", assume=A)(offline_unit(_kind, _via))


# =====================================================================  encoders
def source(vc, W, layers, act, norm, bf=True):
    """a torch encoder whose layers have their own parameters"""
    ls = [W.ref_layer(act(W) if isinstance(act, type) else act, batch_first=bf) for _ in range(layers)]
    e = nn.TransformerEncoder.__new__(nn.TransformerEncoder)
    real_torch.nn.Module.__init__(e)
    e.layers, e.num_layers = real_torch.nn.ModuleList(ls), layers
    e.norm = nn.LayerNorm(W.E, eps=0.125) if norm else None
    e.enable_nested_tensor, e.mask_check = False, True
    return e.eval()


def encoder(vc, W, layers, how):
    act = vc.choose("activation", [real_torch.nn.functional.silu, Act if how == "build_from" else "relu"])
    norm = vc.choose("norm", [True, False])
    if how == "build_from":
        src = source(vc, W, layers, act, norm)
        before = {k: (id(v), v._st.writes) for k, v in src.named_parameters()}
        m = co.TransformerEncoder.build_from(src, sequence_len=W.n)
        m.eval()
        with vc.of("C16 C18"):
            vc.ok("the original is left alone") if before == {k: (id(v), v._st.writes) for k, v in src.named_parameters()} else vc.fail("the original is left alone", "written")
            st = [v._st for v in src.parameters()]
            bad = [k for k, v in m.named_parameters() if any(v._st is q for q in st)]
            vc.ok("nothing is shared with the original") if not bad else vc.fail("nothing is shared with the original", str(bad))
        return m, src
    nm = nn.LayerNorm(W.E, eps=0.125) if norm else None
    m = co.TransformerEncoder(co.TransformerEncoderLayerFactory(W.E, W.H, W.FF, 0.5, act, W.eps, sequence_len=W.n), layers, nm)
    m.eval()
    act = real_torch.nn.functional.relu if act == "relu" else act
    src = source(vc, W, layers, act, False)
    parts = [q for q in m._modules["layers"]._modules.values()] if "layers" in m._modules else []
    parts = [q for q in parts if attention_of(q)]
    if len(parts) != layers:
        raise Unsupported("layers of an encoder")
    for ours, theirs in zip(parts, src.layers):
        like(vc, theirs, ours)
    src.norm = nm
    return m, src


class Act(real_torch.nn.Module):
    """an activation with a parameter"""

    def __init__(self, W):
        super().__init__()
        self.par = nn.Linear(W.FF, W.FF, bias=False)

    def forward(self, x):
        from shim import opname
        from tensor import unop

        return unop(lambda v: uf(f"act[{opname(self.par.weight)}]", v), x, "f")


class FirstRows(Rows):
    """the first layer by its contract, in whole-sequence mode too"""

    def forward(self, input):
        op, vc = self.op, self.op.vc
        values(vc, "the first layer gets the whole sequence", input, op.lead + op.rest + [self.n], lambda ix: op.frame(ix[2]))
        return new(op.lead + op.rest + [self.n], lambda ix: self.rowf(z3.IntVal(0), ix[2]))


class FirstRef(real_torch.nn.Module):
    """torch's first layer by the same contract"""

    def __init__(self, W, rowf, like):
        super().__init__()
        self.__dict__.update(W=W, rowf=rowf, training=False, self_attn=like.self_attn)

    def forward(self, x, **kw):
        W, vc = self.W, self.W.vc
        if any(v is not None and v is not False for v in kw.values()):
            raise Unsupported("masks")
        w = W.at
        values(vc, "oracle: torch's first layer gets the window", x, [W.B, W.n, W.E], lambda ix: W.X(w + iterm(ix[1])))
        return new([W.B, W.n, W.E], lambda ix: self.rowf(w, ix[1]))


def split(vc, W, m, src):
    """the layers of a two-layer encoder: check the first on its own, or the rest given the first"""
    if len(src.layers) == 1:
        return False
    ls = m._modules.get("layers")
    first = next(iter(ls._modules.values()), None) if isinstance(ls, co.Sequential) else None
    if first is None or not attention_of(first) or isinstance(first, TR.RetroactiveLambda):
        raise Unsupported("first layer of an encoder")
    if vc.choose("part", ["first layer", "the rest"]) == "first layer":
        check_stream(vc, W, first, src.layers[0], "retro", None, False)
        return True
    f = z3.Function("layer1", I, I, R)
    rowf = lambda w, i: f(z3.simplify(iterm(w)), z3.simplify(iterm(i)))
    op = Op(vc, "first layer", sint(iterm(W.n) - 1)).feed(W.X, [W.B, W.E], [])
    W.first = op
    p = FirstRows(op, W.n, rowf)
    p.receptive_field, p.padding = W.n, (0,)
    ls._modules[next(iter(ls._modules))] = p
    src.layers[0] = FirstRef(W, rowf, src.layers[0])
    return False


def encoder_step(layers, how, many):
    def u(vc):
        W = World(vc)
        m, src = encoder(vc, W, layers, how)
        if not split(vc, W, m, src):
            check_stream(vc, W, m, src, "last", iterm(W.n) - 1, many)

    return u


def encoder_forward(layers, how):
    def u(vc):
        W = World(vc)
        m, src = encoder(vc, W, layers, how)
        if split(vc, W, m, src):
            return
        n = iterm(W.n)
        W.at = z3.IntVal(0)
        e = src.forward(W.window(z3.IntVal(0)))
        o = m.forward(W.seq(W.n))
        with vc.of("C16 C18"):
            if layers == 1:
                values(vc, "the whole-sequence mode equals the offline encoder", o, [W.B, W.E, W.n], lambda ix: val(e, [None, z3.simplify(iterm(ix[2])), None]))
            else:
                values(vc, "the whole-sequence mode yields the last position of the offline encoder", o, [W.B, W.E, 1], lambda ix: val(e, [None, z3.simplify(n - 1), None]))

    return u


for _l in (1, 2):
    for _how in ("factory", "build_from"):
        _f = f"{T_}TransformerEncoder.__init__ {T_}TransformerEncoderLayerFactory" + f" {T_}TransformerEncoder.build_from" * (_how == "build_from")
        for _many in (False, True):
            if _how == "factory" or not _many:
                unit("C16", f"encoder of {_l} by {_how} step{'s' * _many}", _f, assume=A, bounded="one and two layers")(encoder_step(_l, _how, _many))
        unit("C16 C18", f"encoder of {_l} by {_how} forward", _f, assume=A, bounded="one and two layers")(encoder_forward(_l, _how))


def refuse_unit(vc):
    W = World(vc)
    what = vc.choose("option", ["pre-norm", "no window"])
    if what == "pre-norm":
        e = source(vc, W, 1, real_torch.nn.functional.silu, False)
        e.layers[0].norm_first = True
        try:
            m = co.TransformerEncoder.build_from(e, sequence_len=W.n)
        except (AssertionError, SymError):
            return vc.ok("pre-norm layers are refused")
        vc.fail("pre-norm layers are refused", "converted")
    else:
        z = vc.int("window")
        vc.assume(iterm(z) <= 0)
        for f in (co.SingleOutputTransformerEncoderLayer, co.RetroactiveTransformerEncoderLayer):
            try:
                f(W.E, W.H, W.FF, sequence_len=z)
                vc.fail("a window without tokens is refused", f.__name__)
            except (AssertionError, SymError):
                vc.ok("a window without tokens is refused")


unit("C16 C18", "encoder refusals", f"{T_}TransformerEncoder.build_from {T_}SingleOutputTransformerEncoderLayer {T_}RetroactiveTransformerEncoderLayer")(refuse_unit)
