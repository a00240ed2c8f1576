"""C18: conversions of torch.nn modules; hyper-parameters, parameters and inputs are arbitrary."""
from collections import OrderedDict

from . import conv as UC
from . import rnn as UR
from .export import patched
from .lib import *  # noqa: F401,F403

from continual import convert as CV

nn = shim.torch.nn
HYPER = "in_channels out_channels kernel_size stride padding dilation groups padding_mode ceil_mode count_include_pad divisor_override output_size in_features out_features input_size hidden_size num_layers nonlinearity dropout bias proj_size embed_dim num_heads kdim vdim batch_first add_zero_attn".split()


def same_value(vc, a, b):
    """python bool: equal in every state that satisfies the precondition"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same_value(vc, p, q) for p, q in zip(a, b))
    if isinstance(a, SymTensor) or isinstance(b, SymTensor):
        return (a is None) == (b is None)
    if is_label(a) or is_label(b):
        return dims_equal(a, b)
    if isinstance(a, (SInt, SReal)) or isinstance(b, (SInt, SReal)):
        if a is None or b is None:
            return False
        return vc.entails(iterm(a) == iterm(b)) if not isinstance(a, SReal) else a is b
    return type(a) is type(b) and a == b or a == b


def tensors_of(m):
    return {**dict(m.named_parameters()), **{k: v for k, v in m.named_buffers() if k in m.state_dict() or k.startswith("weight_")}}


def carried(vc, m, src, skip=()):
    for h in HYPER:
        if h in skip or not hasattr(src, h):
            continue
        a, b = getattr(m, h, "missing"), getattr(src, h)
        if isinstance(a, tuple) != isinstance(b, tuple) and not isinstance(a, str):  # a number stands for the same number in every dimension
            a, b = (a, (b,) * len(a)) if isinstance(a, tuple) else ((a,) * len(b), b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(b) == 1 and len(a) > 1:
            b = b * len(a)
        vc.ok(f"{h} is carried over") if same_value(vc, a, b) else vc.fail(f"{h} is carried over", f"{a} instead of {b}")
    ours, theirs = tensors_of(m), tensors_of(src)
    ok = all(k in ours for k in theirs)
    vc.ok("every parameter has its counterpart") if ok else vc.fail("every parameter has its counterpart", f"{sorted(ours)} for {sorted(theirs)}")
    for k in theirs:
        if k in ours:
            equal(vc, f"parameter {k} has the original's value", ours[k], theirs[k])
            vc.ok("parameters are copies") if ours[k] is not theirs[k] and ours[k]._st is not theirs[k]._st else vc.fail("parameters are copies", k)


def untouched(vc, src, before):
    now = {k: (id(v), v._st.writes) for k, v in tensors_of(src).items()}
    vc.ok("the original is left alone") if now == before else vc.fail("the original is left alone", str(now))


def mark(src):
    return {k: (id(v), v._st.writes) for k, v in tensors_of(src).items()}


def sequence(vc, lead, rest, T):
    X = z3.Function("X", I, R)
    return new(lead + [T] + rest, lambda ix: X(z3.simplify(iterm(ix[2]))))


def built(vc, src, name, **kw):
    """conversion by the generic function, or by build_from"""
    if vc.choose("converted by", ["continual", "build_from"]) == "continual" and not kw:
        m = co.continual(src)
    else:
        m = getattr(co, name).build_from(src, **kw)
    vc.ok("the continual class of the module is built") if type(m) is getattr(co, name) and m is not src else vc.fail("the continual class of the module is built", type(m).__name__)
    return m


def conv_unit(n, groups):
    def u(vc):
        bias, mode = vc.choose("bias", [True, False]), vc.choose("padding_mode", ["zeros", "replicate"])
        src, lead, rest, cout, k, s, p, args = UC.make(vc, n, cls=nn, bias=bias, groups=groups, mode=mode, torch_cls=True)
        before = mark(src)
        m = built(vc, src, f"Conv{n}d")
        carried(vc, m, src, skip=("bias",))
        vc.ok("bias is carried over") if (m.bias is None) == (src.bias is None) else vc.fail("bias is carried over", str(m.bias))
        T = vc.int("T", 1)
        vc.assume(iterm(T) + 2 * iterm(p) >= iterm(k))
        x = sequence(vc, lead, rest, T)
        equal(vc, "whole-sequence results are the original's", m.forward(x), src.forward(x))
        untouched(vc, src, before)

    return u


def pool_unit(kind, n):
    def u(vc):
        lead, rest = stream_dims(vc, n)
        k, s, p = vc.int("k", 1), vc.int("s", 1), vc.int("p", 0)
        vc.assume(2 * iterm(p) <= iterm(k))
        sp = [[vc.int(f"{a}{q}", 0 if a == "p" else 1) for q in range(n - 1)] for a in "ksp"]
        for q in range(n - 1):
            vc.assume(2 * iterm(sp[2][q]) <= iterm(sp[0][q]))
        t = (lambda a, b: (a, *b)) if n > 1 else (lambda a, b: a)
        args = dict(kernel_size=t(k, sp[0]), stride=t(s, sp[1]), padding=t(p, sp[2]))
        if kind == "Max":
            args["dilation"] = t(vc.int("d", 1), [vc.int(f"d{q}", 1) for q in range(n - 1)])
        elif vc.choose("padded elements", ["counted", "not counted"]) == "not counted":
            args["count_include_pad"] = False
        args["ceil_mode"] = vc.choose("ceil_mode", [False, True])
        src = getattr(nn, f"{kind}Pool{n}d")(**args)
        m = built(vc, src, f"{kind}Pool{n}d")
        carried(vc, m, src)
        if not args["ceil_mode"] and args.get("count_include_pad", True):
            d = iterm(num(args.get("dilation", 1)))
            T = vc.int("T", 1)
            vc.assume(iterm(T) + 2 * iterm(p) >= d * (iterm(k) - 1) + 1 if kind == "Max" else iterm(T) + 2 * iterm(p) >= iterm(k))
            x = sequence(vc, lead, rest, T)
            equal(vc, "whole-sequence results are the original's", m.forward(x), src.forward(x))

    return u


def adaptive_unit(kind, n):
    def u(vc):
        lead, rest = stream_dims(vc, n)
        k, s, p, d = vc.int("k", 1), vc.int("s", 1), vc.int("p", 0), vc.int("d", 1)
        vc.assume(iterm(p) < iterm(k))
        size = [vc.int(f"o{q}", 1) for q in range(n - 1)]
        first = vc.choose("temporal output size", [1, 2])
        src = getattr(nn, f"Adaptive{kind}Pool{n}d")((first, *size))
        cls = getattr(co, f"Adaptive{kind}Pool{n}d")
        if first != 1:
            try:
                cls.build_from(src, k)
                vc.fail("pooling to several time steps is refused", "converted")
            except (AssertionError, SymError):
                vc.ok("pooling to several time steps is refused")
            return
        fill = vc.choose("temporal_fill", ["zeros", "replicate"])
        m = cls.build_from(src, k, stride=s, padding=p, dilation=d, temporal_fill=fill)
        same = lambda nm, a, b: vc.ok(f"{nm} is carried over") if same_value(vc, a, b) else vc.fail(f"{nm} is carried over", f"{a} instead of {b}")
        same("output_size", m.output_size, src.output_size)
        for nm, v in dict(kernel_size=k, stride=s, padding=p, dilation=d).items():
            same(nm, getattr(m, nm)[0], v)
        same("temporal_fill", str(m.temporal_fill if hasattr(m, "temporal_fill") else fill), fill)
        T = vc.int("T", 1)
        x = sequence(vc, lead, rest, T)
        equal(vc, "whole-sequence results are the original's", m.forward(x), src.forward(x))

    return u


def num(v):
    return v[0] if isinstance(v, tuple) else v


def linear_unit(vc):
    C, D, Bt = vc.label("C"), vc.label("D"), vc.label("B")
    bias = vc.choose("bias", [True, False])
    src = nn.Linear(C, D, bias=bias)
    before = mark(src)
    kw = vc.choose("channel_dim", [{}, dict(channel_dim=1)])
    m = built(vc, src, "Linear", **kw)
    carried(vc, m, src, skip=("bias",))
    vc.ok("bias is carried over") if (m.bias is None) == (src.bias is None) else vc.fail("bias is carried over", str(m.bias))
    T = vc.int("T", 1)
    X = z3.Function("X", I, R)
    if kw:
        x = new([Bt, C, T], lambda ix: X(iterm(ix[2])))
        equal(vc, "whole-sequence results are the original's", m.forward(x), src.forward(x.permute(0, 2, 1)).permute(0, 2, 1))
    else:
        x = new([Bt, T, C], lambda ix: X(iterm(ix[1])))
        equal(vc, "whole-sequence results are the original's", m.forward(x), src.forward(x))
    untouched(vc, src, before)


def rnn_unit(cls):
    def u(vc):
        C, H, L = vc.label("C"), vc.label("H"), vc.label("L")
        kw = dict(bias=vc.choose("bias", [True, False]), dropout=vc.choose("dropout", [0.0, 0.25]), batch_first=vc.choose("layout", [True, False]))
        if cls == "RNN":
            kw["nonlinearity"] = vc.choose("nonlinearity", ["tanh", "relu"])
        if cls == "LSTM" and vc.choose("projection", [False, True]):
            kw["proj_size"] = vc.label("P")
        src = getattr(nn, cls)(C, H, L, **kw)
        src.eval()
        before = mark(src)
        m = built(vc, src, cls)
        m.eval()
        carried(vc, m, src, skip=("batch_first",))
        T, Bt = vc.int("T", 2), vc.label("B")
        X = z3.Function("X", I, R)
        x = new([Bt, C, T], lambda ix: X(iterm(ix[2])))
        o, h = m.forward(x)
        e, eh = src.forward(x.permute(0, 2, 1) if kw["batch_first"] else x.permute(2, 0, 1))
        # the same cell over the same frames from the same start: the two scans coincide by induction
        a, b = vc.scans[-2:]
        vc.solver.push()
        npc = len(vc.pc)
        q = vc.fresh("q")
        vc.add(z3.And(q >= 0, q < iterm(T)))
        a.unfold(q), b.unfold(q)
        for u_, v_ in zip(a.at(q), b.at(q)):
            vc.add(u_ == v_)
        vc.check("scan lemma: the same recurrence", z3.And(*[u_ == v_ for u_, v_ in zip(a.at(q + 1), b.at(q + 1))]))
        vc.check("scan lemma: from the same start", z3.And(*[u_ == v_ for u_, v_ in zip(a.init, b.init)]))
        vc.solver.pop()
        del vc.pc[npc:]
        e = e.permute(0, 2, 1) if kw["batch_first"] else e.permute(1, 2, 0)
        idx, hyp = generic_index(vc, e._dims)
        if same_dims(vc, "whole-sequence results are the original's (shape)", o, e._dims):
            vc.solver.push()
            npc = len(vc.pc)
            for c in hyp:
                vc.add(c)
            t = idx[2]
            for u_, v_ in zip(a.at(t), b.at(t)):
                vc.add(u_ == v_)
            vc.check("whole-sequence results are the original's", val(o, idx) == val(e, idx))
            vc.solver.pop()
            del vc.pc[npc:]
        untouched(vc, src, before)

    return u


def mha_unit(cls):
    def u(vc):
        H, D, Bt = vc.label("H"), vc.label("D"), vc.label("B")
        E = H * D
        vc.stacks.append(E)
        n = vc.int("n", 1)
        bf, bias, sep = vc.choose("layout", [True, False]), vc.choose("bias", [True, False]), vc.choose("widths", ["shared", "separate"])
        kw = {}
        Ek = Ev = E
        if sep == "separate":
            Ek, Ev = vc.label("Ek"), vc.label("Ev")
            for a, b in ((Ek, E), (Ev, E), (Ek, Ev)):
                vc.assume(iterm(a) != iterm(b))
            kw = dict(kdim=Ek, vdim=Ev)
        kw.update(add_bias_kv=vc.choose("add_bias_kv", [False, True]), add_zero_attn=vc.choose("add_zero_attn", [False, True]))
        src = nn.MultiheadAttention(E, H, bias=bias, batch_first=bf, dropout=vc.choose("dropout", [0.0, 0.25]), **kw)
        src.eval()
        before = mark(src)
        extra = dict(single_output_forward=False) if cls.startswith("Single") else {}
        m = getattr(co, cls).build_from(src, sequence_len=n, **extra)
        m.eval()
        carried(vc, m, src)
        m.dropout = src.dropout = 0.0
        f = lambda nm: z3.Function(nm, I, R)
        td = 1 if bf else 0
        t = lambda F, W: new([Bt, n, W] if bf else [n, Bt, W], lambda ix: F(z3.simplify(iterm(ix[td]))))
        q, k, v = t(f("XQ"), E), t(f("XK"), Ek), t(f("XV"), Ev)
        o, e = m.forward(q, k, v), src.forward(q, k, v)
        o = o[0] if isinstance(o, tuple) else o
        equal(vc, "whole-sequence results are the original's", o, e[0])
        untouched(vc, src, before)

    return u


# ---- what is converted how
def dispatch_unit(vc):
    kind = vc.choose("module", ["continual", "wrapped", "instance norm", "registered", "registered by the user", "function"])
    if kind == "continual":
        m = vc.choose("which", [0, 1, 2, 3])
        m = [lambda: co.Delay(2), lambda: co.Sequential(), lambda: co.Conv1d(1, 1, 3), lambda: co.Lambda(lambda x: x)][m]()
        vc.ok("a continual module is returned as it is") if co.continual(m) is m else vc.fail("a continual module is returned as it is", "rebuilt")
        return
    if kind == "wrapped":
        classes = sorted(CV.NAIVE_MAPPING, key=lambda c: c.__name__)
        bad, again = [], []
        for c in classes:
            m = c(*{"Threshold": (0.1, 1.0), "GroupNorm": (1, 2), "LayerNorm": (2,)}.get(c.__name__, (2,) if "BatchNorm" in c.__name__ else ()))
            if co.continual(m) is not m or not hasattr(m, "forward_steps") or (m.delay, m.receptive_field) != (0, 1):
                bad.append(c.__name__)
                continue
            first = {k: m.__dict__.get(k) for k in ("forward", "forward_step", "forward_steps", "_forward_step")}
            if co.continual(m) is not m or any(m.__dict__.get(k) is not v for k, v in first.items()):
                again.append(c.__name__)
        vc.ok("converting a wrapped module again changes nothing") if not again else vc.fail("converting a wrapped module again changes nothing", str(again))
        vc.ok("step-local modules are wrapped in place") if not bad else vc.fail("step-local modules are wrapped in place", str(bad))
        names = {c.__name__ for c in classes}
        local = {"ReLU", "Sigmoid", "Tanh", "GELU", "LeakyReLU", "PReLU", "ELU", "BatchNorm1d", "BatchNorm2d", "BatchNorm3d", "LayerNorm", "Dropout", "Dropout2d", "Dropout3d", "Softmax", "SiLU", "Hardswish", "ReLU6", "Softplus", "LogSoftmax"}
        vc.ok("common step-local modules are covered") if local <= names else vc.fail("common step-local modules are covered", str(local - names))
        mixing = [c for c in names if c.startswith(("Conv", "AvgPool", "MaxPool", "LP", "Adaptive", "RNN", "LSTM", "GRU", "Upsample", "Flatten", "Unfold", "Fold", "Bilinear", "Transformer", "Multihead", "Instance"))]
        vc.ok("modules that mix time steps are not wrapped") if not mixing else vc.fail("modules that mix time steps are not wrapped", str(mixing))
        return
    if kind == "instance norm":
        d = vc.choose("dims", [1, 2, 3])
        aff, trk = vc.choose("affine", [True, False]), vc.choose("track_running_stats", [True, False])
        m = getattr(real_torch.nn, f"InstanceNorm{d}d")(2, affine=aff, track_running_stats=trk)
        try:
            r = co.continual(m)
        except (AssertionError, SymError):
            r = None
        if aff and trk:
            vc.ok("instance norm with running statistics is wrapped") if r is m else vc.fail("instance norm with running statistics is wrapped", "refused")
        else:
            vc.ok("instance norm without running statistics is refused") if r is None else vc.fail("instance norm without running statistics is refused", "converted")
        return
    if kind == "function":
        f = lambda x: x
        m = co.continual(f)
        ok = isinstance(m, co.Lambda) and m.fn is f
        vc.ok("a function becomes a Lambda") if ok else vc.fail("a function becomes a Lambda", type(m).__name__)
        return
    if kind == "registered":
        pairs = {getattr(real_torch.nn, k): getattr(co, k) for k in "Conv1d Conv2d Conv3d AvgPool1d AvgPool2d AvgPool3d MaxPool1d MaxPool2d MaxPool3d AdaptiveAvgPool2d AdaptiveAvgPool3d AdaptiveMaxPool2d AdaptiveMaxPool3d Linear Sequential RNN GRU LSTM TransformerEncoder".split()}
        bad = [k.__name__ for k, v in pairs.items() if CV.MODULE_MAPPING.get(k) is not v]
        vc.ok("every class is registered with its continual counterpart") if not bad else vc.fail("every class is registered with its continual counterpart", str(bad))
        return

    class Mine(real_torch.nn.Module):
        pass

    class Sub(real_torch.nn.ReLU):
        def forward(self, x):
            return x.flip(2)

    class SubConv(real_torch.nn.Conv1d):
        def forward(self, x):
            return 2 * x

    for mk in (Mine, Sub, lambda: SubConv(1, 1, 1), lambda: real_torch.nn.ConvTranspose1d(1, 1, 1), lambda: real_torch.nn.Upsample(scale_factor=2), real_torch.nn.Flatten):
        o = mk()
        try:
            co.continual(o)
            vc.fail("an unregistered module is refused", type(o).__name__)
        except AssertionError:
            vc.ok("an unregistered module is refused")

    class CoMine(co.CoModule, real_torch.nn.Module):
        def forward(self, x):
            return x

        @staticmethod
        def build_from(m):
            r = CoMine()
            r.__dict__["of"] = m
            return r

    try:
        ok = co.convert.register(Mine, CoMine) is CoMine
        m = Mine()
        r = co.continual(m)
        vc.ok("a registered conversion is used") if ok and isinstance(r, CoMine) and r.of is m else vc.fail("a registered conversion is used", str(r))
    finally:
        CV.MODULE_MAPPING.pop(Mine, None)


def refuse_unit(vc):
    """options the streaming modes cannot honour"""
    what = vc.choose("option", ["dilation", "bidirectional", "padding_mode"])
    if what == "dilation":
        n = vc.choose("n", [1, 2, 3])
        d = vc.int("dilation", 2)
        lead, rest = stream_dims(vc, n)
        mk = lambda: getattr(nn, f"Conv{n}d")(lead[1], vc.label("D"), (2,) * n, dilation=(d,) + (1,) * (n - 1))
    elif what == "bidirectional":
        cls = vc.choose("class", ["RNN", "GRU", "LSTM"])
        mk = lambda: getattr(nn, cls)(vc.label("C"), vc.label("H"), bidirectional=True)
    else:
        mode = vc.choose("mode", ["reflect", "circular"])
        n = vc.choose("n", [1, 2, 3])
        lead, rest = stream_dims(vc, n)
        mk = lambda: getattr(nn, f"Conv{n}d")(lead[1], vc.label("D"), (3,) * n, padding=(1,) * n, padding_mode=mode)
    src = mk()
    try:
        co.continual(src)
        vc.fail("an unsupported option is refused", what)
    except Unsupported:
        raise
    except Exception:
        vc.ok("an unsupported option is refused")


def seq_unit(vc):
    """nested sequential modules keep names and order; `continual` of a part is its contract"""
    n = vc.choose("parts", [0, 1, 2, 3])
    style = vc.choose("style", ["numbers", "names", "gaps"])
    names = {"numbers": [str(q) for q in range(n)], "names": ["conv", "act", "0"][:n], "gaps": ["1", "3", "a"][:n]}[style]
    kids = []
    src = real_torch.nn.Sequential()
    for k in names:
        q = real_torch.nn.ReLU()
        kids.append(q)
        src.add_module(k, q)

    class Done(co.CoModule, real_torch.nn.Module):
        def forward(self, x):
            return x

    made = {}

    def contract(m):
        if isinstance(m, co.CoModule):
            return m
        if not any(m is q for q in kids):
            raise Unsupported("conversion of something else")
        made.setdefault(id(m), []).append(Done())
        return made[id(m)][-1]

    f = co.Sequential.build_from if vc.choose("by", ["build_from", "continual"]) == "build_from" else CV.continual
    with patched(CV, continual=contract):
        m = f(src)
    ok = isinstance(m, co.Sequential) and list(m._modules) == names
    vc.ok("a converted sequence keeps names and order") if ok else vc.fail("a converted sequence keeps names and order", str(list(m._modules)))
    ok = all(any(got is d for d in made.get(id(q), ())) for q, got in zip(kids, m._modules.values())) and len(m) == n
    vc.ok("every part is converted") if ok else vc.fail("every part is converted", str(m))
    vc.ok("the original sequence keeps its parts") if [id(q) for q in src] == [id(q) for q in kids] else vc.fail("the original sequence keeps its parts", str(src))


Q_ = "continual."
for _n in (1, 2, 3):
    for _g in (False, True):
        unit("C18", f"conversion of Conv{_n}d{' grouped' if _g else ''}", f"{Q_}conv.Conv{_n}d.build_from {Q_}convert.continual {Q_}conv._ConvCoNd.__init__ {Q_}conv._ConvCoNd.forward")(conv_unit(_n, _g))
    for _k in ("Avg", "Max"):
        unit("C18", f"conversion of {_k}Pool{_n}d", f"{Q_}pooling.{_k}Pool{_n}d.build_from {Q_}pooling.{_k}Pool{_n}d.__init__ {Q_}convert.continual")(pool_unit(_k, _n))
for _n in (2, 3):
    for _k in ("Avg", "Max"):
        unit("C18", f"conversion of Adaptive{_k}Pool{_n}d", f"{Q_}pooling.Adaptive{_k}Pool{_n}d.build_from {Q_}pooling.Adaptive{_k}Pool{_n}d.__init__ {Q_}pooling._PoolNd.forward")(adaptive_unit(_k, _n))
unit("C18", "conversion of Linear", Q_ + "linear.Linear.build_from")(linear_unit)
for _c in ("RNN", "GRU", "LSTM"):
    unit("C18", f"conversion of {_c}", f"{Q_}rnn.{_c}.build_from {Q_}rnn.{_c}.forward")(rnn_unit(_c))
for _c in ("RetroactiveMultiheadAttention", "SingleOutputMultiheadAttention"):
    unit("C18", f"conversion to {_c}", f"{Q_}multihead_attention.mha_base.MultiheadAttentionBase.build_from {Q_}multihead_attention.mha_base.MultiheadAttentionBase.forward")(mha_unit(_c))
unit("C18", "what is converted how", f"{Q_}convert.continual {Q_}convert.register {Q_}convert.forward_stepping {Q_}convert._instance_norm_condition {Q_}closure.Lambda.build_from")(dispatch_unit)
unit("C18", "refusals", f"{Q_}convert.continual {Q_}conv._ConvCoNd.__init__ {Q_}rnn.RNN.build_from {Q_}rnn.GRU.build_from {Q_}rnn.LSTM.build_from")(refuse_unit)
unit("C18", "conversion of Sequential", Q_ + "container.Sequential.build_from", bounded="up to three parts; nesting by induction")(seq_unit)
