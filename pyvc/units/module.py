"""The generic driver code of continual modules (CoModule), verified against the contract of an abstract step."""
from .ghost import *  # noqa: F401,F403

FN = "continual.module.CoModule.forward_step continual.module.CoModule.forward_steps continual.module.CoModule._forward_steps_impl continual.module._clone_first"


def setup(vc, build, n=2):
    lead, rest = stream_dims(vc, n)
    X = z3.Function("X", I, R)
    m, stateless = build(vc)
    g = Ghost(vc, "step", X, lead, rest, stateless=stateless, alias=vc.choose("step", ["same buffer", "new buffer"]) == "same buffer")
    g.install(m)
    fresh = vc.choose("state", ["fresh", "running"]) == "fresh"
    N = z3.IntVal(0) if fresh else iterm(vc.int("N", 1))
    g.start(None if fresh else N)
    return m, g, X, lead, rest, fresh, N


def seq(X, lead, rest, T, N):
    a = len(lead)
    return new(lead + [T] + rest, lambda ix: X(z3.simplify(iterm(ix[a]) + N)))


def kept(vc, g, fresh, N, name="the stored state is untouched"):
    with vc.of("C05"):
        g.holds(name, None if fresh else N)
        if g.stored is not g.saved and not g.stateless:
            # an equal copy would do as well: nothing to report
            pass


def one_step(build, n=2):
    def u(vc):
        m, g, X, lead, rest, fresh, N = setup(vc, build, n)
        up = vc.choose("update_state", [True, False])
        x = new(lead + rest, lambda ix: X(N))
        o = m.forward_step(x, up) if vc.choose("call", ["positional", "keyword"]) == "positional" else m.forward_step(x, update_state=up)
        tags = "C04 C06" if up else "C05"
        with vc.of(tags):
            if vc.decide(g.E(N)):
                if some(vc, "returns the output of the step", o):
                    values(vc, "returns the output of the step", o, g.odims, lambda ix: g.Y(N))
            else:
                none(vc, "returns nothing when the step emits nothing", o)
            if up:
                g.holds("the stored state is the state after the step", N + 1)
        if not up:
            kept(vc, g, fresh, N)

    return u


def many_steps(build, n=2, pads=None):
    def u(vc):
        lead, rest = stream_dims(vc, n)
        Xr = z3.Function("X", I, R)
        m, stateless = build(vc)
        T = vc.int("T", 1)
        Tt = iterm(T)
        fresh = vc.choose("state", ["fresh", "running"]) == "fresh"
        N = z3.IntVal(0) if fresh else iterm(vc.int("N", 1))
        last = new(lead + rest, lambda ix: Xr(N + Tt - 1))
        padv = val(m._make_padding(last), [None] * len(lead + rest))
        frame = lambda k: z3.If(iterm(k) < N + Tt, Xr(iterm(k)), padv)
        g = Ghost(vc, "step", frame, lead, rest, stateless=stateless, alias=vc.choose("step", ["same buffer", "new buffer"]) == "same buffer")
        g.install(m)
        g.start(None if fresh else N)
        up, pe = vc.choose("update_state", [True, False]), vc.choose("pad_end", [False, True])
        vc.loop_rule = Rule(g, N)
        P = pads(m) if pads else m.padding[0]
        a = len(lead)
        x = new(lead + [T] + rest, lambda ix: Xr(z3.simplify(iterm(ix[a]) + N)))
        o = m.forward_steps(x, pe, up)
        end = N + Tt + (iterm(P) if pe else 0)
        tags = "C04 C06" if up else "C05"
        with vc.of(tags):
            g.mono(N, N + Tt)
            g.mono(N + Tt, end)
            n_out = z3.simplify(g.cnt(end) - g.cnt(N))
            if vc.decide(n_out == 0):
                none(vc, "returns nothing when no step emits anything", o)
            elif some(vc, "returns the outputs of the steps", o):
                ax = a
                values(vc, "returns the outputs of the steps, in order", o, g.odims[:ax] + [sint(n_out)] + g.odims[ax:], lambda ix: g.Y(g.sel(g.cnt(N) + iterm(ix[ax]))))
            if up:
                g.holds("the stored state is the state after the frames, without the end padding", N + Tt)
        if not up:
            kept(vc, g, fresh, N)

    return u


class Abs(co.CoModule, shim.torch.nn.Module):
    def __init__(self, padding):
        shim.torch.nn.Module.__init__(self)
        self.padding = (padding,)
        self.receptive_field = padding + 4

    def forward(self, input):
        return input


def plain(vc):
    return Abs(vc.int("p", 0)), False


def plain_stateless(vc):
    return Abs(0), True


unit("C04 C05 C06", "CoModule.forward_step", FN, replay=lambda c, p: replay("conv", 1)(c, p) + replay("delay", 2)(c, p))(one_step(plain))
unit("C04 C05 C06", "CoModule.forward_steps", FN, replay=lambda c, p: replay("conv", 1)(c, p) + replay("delay", 2)(c, p))(many_steps(plain))
unit("C04 C05", "CoModule.forward_step, stateless step", FN)(one_step(plain_stateless))
unit("C04 C05", "CoModule.forward_steps, stateless step", FN)(many_steps(plain_stateless))


# ---- the same contract for the drivers of each class (some override the generic ones); the step itself is its contract
def conv_builder(n, fill, k=None):
    def b(vc):
        from .conv import make

        m = make(vc, n, fill=fill, k=k)[0]
        return m, False

    return b


def pool_builder(name, n, *args):
    def b(vc):
        k, s, p = vc.int("k", 1), vc.int("s", 1), vc.int("p", 0)
        sp = [1] * (n - 1)
        if name.startswith("Adaptive"):
            return getattr(co, name)((1,) * n, k, s, p, temporal_fill="zeros"), False
        return getattr(co, name)((k, *sp), stride=(s, *sp), padding=(p, *sp)), False

    return b


def delay_builder(cls, shrink):
    def b(vc):
        from continual import transformer

        klass = getattr(co, cls, None) or getattr(transformer, cls)
        d = vc.int("d", 1)
        return (klass(d, time_dim=2) if cls == "RetroactiveUnity" else klass(d, auto_shrink=shrink)), False

    return b


def skip_builder(vc):
    return co.Skip(vc.int("d", 1)), False


def replay(k, n):
    """concrete cases around a refuted driver obligation"""
    spec = {"conv": dict(k="conv", n=n, ci=2, co=2, ks=[4] + [2] * (n - 1), s=[2] + [1] * (n - 1), p=[2] + [0] * (n - 1)), "delay": dict(k="delay", d=3),
            "avg": dict(k="avg", n=n, ks=[3] + [2] * (n - 1), s=[2] + [1] * (n - 1), p=[1] + [0] * (n - 1), d=1), "max": dict(k="max", n=n, ks=[3] + [2] * (n - 1), s=[1] * n, p=[1] + [0] * (n - 1), d=1)}[k]
    return lambda cex, prop: spec_cases(prop, spec, n, 4)


DRV = "continual.module.CoModule.forward_step continual.module.CoModule.forward_steps continual.module.CoModule._forward_steps_impl "
for _n in (1, 2, 3):
    unit("C04 C05 C06", f"Conv{_n}d.forward_step", DRV + f"continual.conv._ConvCoNd.forward_steps", replay=replay("conv", _n))(one_step(conv_builder(_n, 'replicate' if _n == 2 else 'zeros'), _n))
    unit("C04 C05 C06", f"Conv{_n}d.forward_steps", DRV + f"continual.conv._ConvCoNd.forward_steps", replay=replay("conv", _n))(many_steps(conv_builder(_n, 'replicate' if _n == 2 else 'zeros'), _n))
for _c, _n in [("AvgPool1d", 1), ("MaxPool2d", 2), ("AvgPool3d", 3), ("MaxPool1d", 1), ("AvgPool2d", 2), ("MaxPool3d", 3), ("AdaptiveAvgPool2d", 2), ("AdaptiveAvgPool3d", 3), ("AdaptiveMaxPool2d", 2), ("AdaptiveMaxPool3d", 3)]:
    unit("C04 C05 C06", f"{_c}.forward_step", DRV + "continual.pooling._PoolNd.forward_steps", replay=replay("avg" if "Avg" in _c else "max", _n))(one_step(pool_builder(_c, _n), _n))
    unit("C04 C05 C06", f"{_c}.forward_steps", DRV + "continual.pooling._PoolNd.forward_steps", replay=replay("avg" if "Avg" in _c else "max", _n))(many_steps(pool_builder(_c, _n), _n))
for _c, _s in [("Delay", False), ("Delay", True), ("Delay", "lagging"), ("SelectOrDelay", False), ("RetroactiveUnity", False)]:
    _pads = (lambda m: m._delay) if not _s else (lambda m: 0)
    _f = DRV + (f"continual.transformer.{_c}.forward_steps" if _c == "RetroactiveUnity" else "continual.delay.Delay.forward_steps continual.delay.Delay.forward_step")
    unit("C04 C05 C06", f"{_c}.forward_step[auto_shrink={_s}]", _f, replay=replay("delay", 2))(one_step(delay_builder(_c, _s)))
    unit("C04 C05 C06", f"{_c}.forward_steps[auto_shrink={_s}]", _f, replay=replay("delay", 2))(many_steps(delay_builder(_c, _s), pads=_pads))
unit("C04 C05 C06", "Skip.forward_step", DRV)(one_step(skip_builder))
unit("C04 C05 C06", "Skip.forward_steps", DRV)(many_steps(skip_builder))


# ---- warming up
class Warm(co.CoModule, shim.torch.nn.Module):
    """a module of any delay that records what it is fed"""

    def __init__(self, rf, p, log):
        shim.torch.nn.Module.__init__(self)
        self.receptive_field, self.padding = rf, (p,)
        self.__dict__["log"] = log

    def forward(self, input):
        self.log.append(("forward", input, False, False))
        return input

    def forward_steps(self, input, pad_end=False, update_state=True):
        self.log.append(("forward_steps", input, pad_end, update_state))

    def forward_step(self, input, update_state=True):
        self.log.append(("forward_step", input, False, update_state))


def warm_unit(vc):
    from torch import Size

    rank = vc.choose("frame rank", [2, 3, 4, 5])
    p = vc.int("p", 0)
    d = vc.int("d", 0)
    log = []
    m = Warm(d + p + 1, p, log)
    dims = [vc.label("B"), vc.label("C"), vc.label("H"), vc.label("W"), vc.label("Q")][:rank]
    shape = {"tuple": tuple, "list": list}[vc.choose("shape", ["tuple", "list"])](dims)
    r = m.warm_up(shape)
    with vc.of("C10"):
        none(vc, "warming up returns nothing", r)
        if vc.decide(iterm(d) == 0):
            return vc.ok("nothing is consumed when there is no delay") if not log else vc.fail("nothing is consumed when there is no delay", str([e[0] for e in log]))
        # in one or several calls, single- or multi-step
        total = z3.IntVal(0)
        for how, x, pe, up in log:
            vc.ok("warming up streams its frames") if how != "forward" else vc.fail("warming up streams its frames", "whole-sequence mode")
            vc.check("warming up updates the state", bterm(up) if isinstance(up, SBool) else z3.BoolVal(bool(up)))
            vc.check("warming up does not pad the end", z3.Not(bterm(pe)) if isinstance(pe, SBool) else z3.BoolVal(not pe))
            if not isinstance(x, SymTensor):
                return vc.fail("warming up feeds tensors", type(x).__name__)
            if how == "forward_steps":
                T = x._dims[2] if len(x._dims) > 2 else None
                if T is None or not same_dims(vc, "the frames have the requested shape", x, dims[:2] + [T] + dims[2:]):
                    return vc.fail("the frames have the requested shape", str(x._dims))
                total = total + iterm(T)
            else:
                same_dims(vc, "the frames have the requested shape", x, dims)
                total = total + 1
        vc.check("warming up consumes exactly `delay` frames", total == iterm(d))


unit("C10", "CoModule.warm_up", "continual.module.CoModule.warm_up continual.module.CoModule.delay", bounded="frames of two to five dimensions", replay=lambda c, p: [dict(spec=dict(k="conv", n=1, ci=2, co=2, ks=[k], s=[1], p=[0]), n=1, seed=6) for k in (1, 2, 3, 5)])(warm_unit)
