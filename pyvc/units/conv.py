"""C01: continual convolutions."""
from .lib import *  # noqa: F401,F403

CLS = {1: ("Conv1d", "conv1d"), 2: ("Conv2d", "conv2d"), 3: ("Conv3d", "conv3d")}
FN = "continual.conv._ConvCoNd.__init__ continual.conv._ConvCoNd.init_state continual.conv._ConvCoNd._forward_step continual.conv._ConvCoNd._forward_step_py continual.conv._ConvCoNd.forward continual.conv._ConvCoNd._stateless"


def make(vc, n, cls=None, fill="zeros", k=None, s=None, p=None, bias=True, groups=False, mode="zeros", torch_cls=False):
    lead, rest = stream_dims(vc, n)
    if groups:
        g = vc.label("g")
        ci = vc.label("ci")
        cin = g * ci
        lead = [lead[0], cin]
        cout = g * vc.label("co")
    else:
        g, cin, cout = 1, lead[1], vc.label("D")
    k = vc.int("k", 1) if k is None else k
    s = vc.int("s", 1) if s is None else s
    p = vc.int("p", 0) if p is None else p
    vc.assume(iterm(p) <= iterm(k) - 1)
    sp = [vc.int(f"{a}{q}", 0 if a == "sp" else 1) for q in range(n - 1) for a in ("sk", "ss", "sp", "sd")]
    kk = (k, *sp[0::4]) if n > 1 else k
    args = dict(in_channels=cin, out_channels=cout, kernel_size=kk, stride=(s, *sp[1::4]) if n > 1 else s, padding=(p, *sp[2::4]) if n > 1 else p, groups=g, bias=bias, padding_mode=mode)
    args["dilation"] = (1, *sp[3::4]) if n > 1 else 1
    m = getattr(cls or co, CLS[n][0])(**args, **({} if torch_cls else dict(temporal_fill=fill)))
    return m, lead, rest, cout, k, s, p, args


def step_contract(n, groups, bias, fill, mode, training):
    def u(vc):
        m, lead, rest, cout, k, s, p, _ = make(vc, n, fill=fill, bias=bias, groups=groups, mode=mode)
        m.train() if training else m.eval()
        X = Stream(vc, "X", lead, rest)
        kt, st, pt = iterm(k), iterm(s), iterm(p)
        tot = kt - 1
        # reference: the taps of a single frame, from the whole-sequence mode's own convolution of one frame
        ref = m._conv_func(input=_sp(m, X, mode), weight=m.weight, bias=None, stride=(1, *m.stride[1:]), padding=(k - 1, *(m.padding[1:] if mode == "zeros" else [0] * (n - 1))), dilation=m.dilation, groups=m.groups)
        rd = ref.reader()
        odims = ref._dims
        T = vc.int("T", 1)
        Tt = iterm(T)

        def tap(j, f):
            i = [None, None, kt - 1 - j] + [None] * (n - 1)
            v = rd(i)
            return z3.substitute(v, (X.X(z3.IntVal(0)), X.X(f)))

        def hist(j, f):
            """frames before the first and after the last: the fill"""
            if fill == "zeros":
                return z3.If(z3.And(f >= 0, f < Tt), tap(j, f), zero)
            return z3.If(f >= 0, z3.If(f < Tt, tap(j, f), tap(j, Tt - 1)), tap(j, z3.IntVal(0)))

        def frame(N):
            """the stream, continued by the end padding"""
            if vc.decide(N < Tt):
                return X.frame(N), False
            vc.assume(N < Tt + pt)
            last = X.frame(Tt - 1)
            return m._make_padding(last), True

        first = vc.choose("state", ["fresh", "running"]) == "fresh"
        stateless = vc.entails(z3.And(kt == 1, pt == 0, st == 1))
        if first:
            N = z3.IntVal(0)
            x = X.frame(N)
            fr = Frame(vc, m, None, [x])
            out, state = m._forward_step(x, None)
            mm = z3.IntVal(0)
            padded = False
            D = tot - pt
            i = z3.IntVal(0)
        else:
            N = iterm(vc.int("N", 1))
            # frame at which the next output is due, and its number
            mm = iterm(vc.int("m", 0))
            D = tot - pt + mm * st
            vc.assume(z3.And(D >= N, z3.Or(mm == 0, D - st < N)))
            i = iterm(vc.int("i", 0))
            vc.assume(z3.Or(i < tot, z3.And(tot == 0, i == 0)))
            vc.rot_hints.append(i)
            buf = new([sint(tot), lead[0], cout, sint(tot)] + odims[3:], lambda ix: hist(tot - 1 - ix[3], slot(ix[0], i, N, tot)))
            x, padded = frame(N)
            s0 = (buf, scalar(i), scalar(st - 1 - (D - N)))
            fr = Frame(vc, m, s0, [x])
            out, state = m._forward_step(x, s0)
        fr.done(out, state)
        with vc.of("C10"):
            vc.check("advertised delay, stride, padding and receptive field", z3.And(iterm(m.delay) == tot - pt, iterm(m.stride[0]) == st, iterm(m.padding[0]) == pt, iterm(m.receptive_field) == kt))
        with vc.of("C10" if first or not padded else ""):
            (none if vc.decide(D != N) and not m._stateless else some)(vc, "an output exactly on the steps delay + m * stride", out)
        if m._stateless:
            if some(vc, "a stateless convolution outputs at every step", out):
                b = z3.Real(f"val[{m.bias._op}]") if bias else zero
                values(vc, "step output of a kernel of one frame", out, [lead[0], cout] + odims[3:], lambda ix: tap(z3.IntVal(0), N) + b)
            return
        due = vc.decide(D == N)
        if not due:
            none(vc, "no output on steps where none is due", out)
        elif some(vc, "an output when one is due", out):
            b = z3.Real(f"val[{m.bias._op}]") if bias else zero
            spec = vc.sum(kt, lambda j: hist(j, N - tot + j)) + b
            values(vc, "step output is the convolution of the latest frames", out, [lead[0], cout] + odims[3:], lambda ix: spec)
            if fill == mode or vc.decide(pt == 0):
                vc.assume(Tt + 2 * pt >= kt)
                y = m.forward(X.seq(T))
                idx = [None, None, mm] + [None] * (n - 1)
                with vc.of("C04" if padded else ""):
                    vc.check("step output m equals whole-sequence output m", val(out, [None, None] + [None] * (n - 1)) == val(y, idx))
                    same_dims(vc, "step output has the shape of a slice of the whole-sequence output", out, y._dims[:2] + y._dims[3:])
                with vc.of("C04"):
                    vc.check("every step that outputs before the end of the end padding has its whole-sequence output", mm < iterm(y._dims[2]))
        # the next state satisfies the invariant
        if not (isinstance(state, tuple) and len(state) == 3):
            vc.fail("state has three components", str(type(state)))
            return
        b2, i2, s2 = state
        D2 = z3.If(D == N, D + st, D)
        vc.check("stride counter after the step", intval(s2) == st - 1 - (D2 - (N + 1)))
        i2 = intval(i2)
        i2n = z3.If(tot > 0, z3.If(i + 1 == tot, z3.IntVal(0), i + 1), z3.IntVal(0))
        ring(vc, "ring position after the step", i2, i2n, tot)
        values(vc, "ring buffer contents after the step", b2, [sint(tot), lead[0], cout, sint(tot)] + odims[3:], lambda ix: hist(tot - 1 - ix[3], slot(ix[0], i2n, N + 1, tot)))

    return u


def options_contract(n):
    """how options may be written: as single numbers, left out, by position"""

    def u(vc):
        style = vc.choose("options", ["numbers", "omitted", "position"])
        k, st, p = vc.int("k", 1), vc.int("s", 1), vc.int("p", 0)
        vc.assume(iterm(p) <= iterm(k) - 1)
        cin, cout = vc.label("C"), vc.label("D")
        cls = getattr(co, CLS[n][0])
        kk = k if vc.choose("kernel", ["number", "tuple"]) == "number" else (k,) * n
        mode, fill, bias = "zeros", "zeros", True
        if style == "omitted":
            m = cls(cin, cout, kk)
            st, p = 1, 0
        elif style == "numbers":
            m = cls(cin, cout, kk, stride=st, padding=p, dilation=1, groups=1, bias=True)
        else:
            mode, fill, bias = "replicate" if n > 1 else "zeros", "replicate", False
            m = cls(cin, cout, kk, (st,) * n, (p,) * n, (1,) * n, 1, False, mode, None, None, fill)
        for name, got, want in (("kernel_size", m.kernel_size, k), ("stride", m.stride, st), ("padding", m.padding, p), ("dilation", m.dilation, 1)):
            if not isinstance(got, tuple) or len(got) != n:
                vc.fail(f"{name} has one number per dimension", repr(got))
            else:
                vc.check(f"{name} as given", z3.And(*[iterm(q) == iterm(want) for q in got]))
        for name, got, want in (("groups", m.groups, 1), ("padding_mode", m.padding_mode, mode), ("temporal_fill", m.t_padding_mode, fill), ("bias", m.bias is not None, bias)):
            vc.ok(f"{name} as given") if got == want else vc.fail(f"{name} as given", repr(got))
        with vc.of("C10"):
            vc.check("advertised numbers", z3.And(iterm(m.delay) == iterm(k) - 1 - iterm(p), iterm(m.receptive_field) == iterm(k)))

    return u


def slot(j, i, N, size):
    """frame held by slot j of a ring of `size` slots whose next slot is i, after N frames"""
    return z3.If(j < i, N - i + j, N - i + j - size)


def _sp(m, X, mode):
    x = X.frame(0).unsqueeze(2)
    if mode == "zeros":
        return x
    return shim.F.pad(x, m._step_space_rprt, mode=mode)


def forward_contract(n, groups, bias, mode):
    def u(vc):
        m, lead, rest, cout, k, s, p, args = make(vc, n, bias=bias, groups=groups, mode=mode)
        r = getattr(shim.torch.nn, CLS[n][0])(**args)
        r.weight, r.bias = m.weight, m.bias
        T = vc.int("T", 1)
        X = Stream(vc, "X", lead, rest)
        vc.assume(iterm(T) + 2 * iterm(p) >= iterm(k))
        a = m.forward(X.seq(T))
        b = r.forward(X.seq(T))
        equal(vc, "whole-sequence mode equals torch.nn", a, b)

    return u


def cases(n, groups, bias, fill, mode, training):
    def f(cex, prop):
        k, s, p = max(1, cint(cex, "k", 3, 7)), max(1, cint(cex, "s", 1, 5)), cint(cex, "p", 0, 4)
        out = []
        for k, s, p in ((k, s, min(p, k - 1)), (4, 2, 1), (3, 3, 2)):
            spec = dict(k="conv", n=n, ci=4, co=4, ks=[k] + [3, 2][: n - 1], s=[s] + [1] * (n - 1), p=[p] + [1] * (n - 1), b=bias, g=2 if groups else 1, pm=mode)
            if prop == "C01" and not (groups or training):
                bare = dict(k="conv", n=n, ci=4, co=4, ks=[k] * n, s=[s if k > 1 else 1] * n, p=[p] * n, bare=True)
                out += [dict(spec=q, T=3 * k + 2 * s + 3, B=2, train=False, seed=1) for q in (bare, dict(bare, s=[1] * n, p=[0] * n), dict(bare, pos=True, b=False, pm=mode))]
            if prop == "C01":
                out += [dict(spec=spec, T=T, B=2, train=training, seed=1) for T in (k + 1, 3 * k + 2 * s + 3)]
            else:
                out += spec_cases(prop, spec, n, k)
        return out

    return f


for _n in (1, 2, 3):
    unit("C01 C10", f"Conv{_n}d options", f"continual.conv.Conv{_n}d.__init__ continual.conv._ConvCoNd.__init__", replay=cases(_n, False, True, "zeros", "zeros", False))(options_contract(_n))
    for _g, _b, _fill, _mode, _tr in [(False, True, "zeros", "zeros", False), (True, False, "zeros", "zeros", True), (False, True, "replicate", "zeros", False), (False, True, "zeros", "replicate", False), (False, True, "replicate", "replicate", True)]:
        if _mode != "zeros" and _n == 1:
            continue
        unit("C01 C04 C05 C06 C10", f"Conv{_n}d._forward_step[groups={_g},bias={_b},fill={_fill},padding_mode={_mode},training={_tr}]", FN, replay=cases(_n, _g, _b, _fill, _mode, _tr))(step_contract(_n, _g, _b, _fill, _mode, _tr))
    for _g, _b, _mode in [(False, True, "zeros"), (True, False, "zeros"), (False, True, "replicate")]:
        unit("C01", f"Conv{_n}d.forward[groups={_g},bias={_b},padding_mode={_mode}]", "continual.conv._ConvCoNd.forward continual.conv._ConvCoNd.__init__", replay=cases(_n, _g, _b, "zeros", _mode, False))(forward_contract(_n, _g, _b, _mode))
