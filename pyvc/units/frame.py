"""C21: modules that act on each time step alone. Their four entry points apply one and the same function to a frame."""
from .lib import *  # noqa: F401,F403

DRV = "forward forward_steps forward_step _forward_step"


def names(cls, fns=DRV):
    return " ".join(f"continual.{cls}.{f}" for f in fns.split())


def apply_everywhere(vc, m, lead, rest, f, odims, cases=None, modes=("forward", "forward_steps", "forward_step", "functional"), name="X"):
    """obligations: in every mode the t-th output is f of the t-th input; lead = (batch, channel), odims: dims of an output frame"""
    X = Stream(vc, name, lead, rest)
    T = vc.int("T", 1)
    a = 2
    sdims = odims[:a] + [T] + odims[a:]
    sf = m.get_state() if hasattr(m, "get_state") else None
    with vc.of("C21 C06"):
        none(vc, "keeps no state", sf)
    with vc.of("C10 C21"):
        vc.check("no delay, stride one, no padding, receptive field one", z3.And(iterm(m.delay) == 0, iterm(m.receptive_field) == 1, iterm(m.stride[0]) == 1, iterm(m.padding[0]) == 0))
    mode = vc.choose("mode", list(modes))
    at = lambda ix: ix[a]
    if mode == "forward":
        x = X.seq(T)
        fr = Frame(vc, m, None, [x])
        y = m.forward(x)
        if some(vc, "forward gives an output", y):
            with vc.of("C21 C04"):
                values(vc, "forward applies the function to each time step", y, sdims, lambda ix: f["forward"](X.at(ix[a])))
        leaves(vc, fr, "C21 C06", "forward")
    elif mode == "forward_steps":
        x = X.seq(T)
        pe, up = vc.choose("pad_end", [False, True]), vc.choose("update_state", [True, False])
        fr = Frame(vc, m, None, [x])
        y = m.forward_steps(x, pe, up) if vc.choose("args", ["positional", "keyword"]) == "positional" else m.forward_steps(x, pad_end=pe, update_state=up)
        if some(vc, "forward_steps gives an output", y):
            with vc.of("C21 C04 C05"):
                values(vc, "forward_steps applies the function to each time step", y, sdims, lambda ix: f["forward_steps"](X.at(ix[a])))
        leaves(vc, fr, "C21 C05 C06", "forward_steps")
    else:
        t = iterm(vc.int("t", 0))
        x = X.frame(t)
        fr = Frame(vc, m, None, [x])
        if mode == "forward_step":
            up = vc.choose("update_state", [True, False])
            y = m.forward_step(x, up) if vc.choose("args", ["positional", "keyword"]) == "positional" else m.forward_step(x, update_state=up)
        else:
            prev = vc.choose("prev_state", ["none", "some"])
            st = None if prev == "none" else (X.frame(0), scalar(z3.IntVal(3)))
            r = m._forward_step(x, st) if vc.choose("args", ["positional", "keyword"]) == "positional" else m._forward_step(x, prev_state=st)
            if not (isinstance(r, tuple) and len(r) == 2):
                vc.fail("the functional step returns output and state", f"{type(r).__name__}")
                return
            y, ns = r
            with vc.of("C21 C06"):
                vc.ok("the functional step hands the state through") if ns is st else vc.fail("the functional step hands the state through", f"{type(ns).__name__}")
        if some(vc, f"{mode} gives an output", y):
            with vc.of("C21 C04 C05"):
                values(vc, f"{mode} applies the function to the frame", y, odims, lambda ix: f["forward_step"](X.at(t)))
        leaves(vc, fr, "C21 C05 C06", mode)


def leaves(vc, fr, tags, mode):
    with vc.of(tags):
        if [t for t, st, w in fr.inputs if t._st is not st or t._st.writes != w]:
            vc.fail(f"{mode} does not write its input", "input written in place")
        else:
            vc.ok(f"{mode} does not write its input")
        fr.unchanged(f"{mode} leaves the module as it was")


def same(g):
    return dict(forward=g, forward_steps=g, forward_step=g)


def replay(**spec):
    def r(cex, prop):
        if prop == "C21":
            return [dict(r, T=T, seed=5) for r in spec.get("cases", []) for T in (1, 3, 5)]
        return []

    return r


# ---------------------------------------------------------------- linear
def linear(n, cd, bias):
    def u(vc):
        lead, rest = stream_dims(vc, n)
        out = vc.label("D")
        m = co.Linear(lead[1], out, bias=bias, channel_dim=cd) if cd is not None else co.Linear(lead[1], out, bias)
        w = f"lin[{m.weight._op}]"
        b = z3.Real(f"val[{m.bias._op}]") if bias else None
        g = lambda v: uf(w, v) + b if bias else uf(w, v)
        apply_everywhere(vc, m, lead, rest, same(g), [lead[0], out] + rest)

    return u


for _n, _cd in [(1, 1), (2, 1), (3, 1), (4, 1)]:
    for _b in (True, False):
        unit("C21 C04 C05 C06 C10", f"Linear channel_dim={_cd} {_n}d bias={_b}", names("linear.Linear", "__init__ " + DRV))(linear(_n, _cd, _b))


def linear_last(vc):
    """channel_dim=-1: (B, *, T, C) in sequences and (B, *, C) in steps"""
    Bt, C, S, D = (vc.label(q) for q in "BCSD")
    m = co.Linear(C, D)
    X = z3.Function("X", I, R)
    w, b = f"lin[{m.weight._op}]", z3.Real(f"val[{m.bias._op}]")
    g = lambda v: uf(w, v) + b
    T = vc.int("T", 1)
    x = new([Bt, S, T, C], lambda ix: X(ix[2]))
    for nm, y in (("forward", m.forward(x)), ("forward_steps", m.forward_steps(x, False, True))):
        values(vc, f"{nm} applies the function to each time step", y, [Bt, S, T, D], lambda ix: g(X(ix[2])))
    t = iterm(vc.int("t", 0))
    x = new([Bt, S, C], lambda ix: X(t))
    for nm, y in (("forward_step", m.forward_step(x)), ("the functional step", m._forward_step(x, None)[0])):
        values(vc, f"{nm} applies the function to the frame", y, [Bt, S, D], lambda ix: g(X(t)))


unit("C21 C04", "Linear channel_dim=-1", names("linear.Linear"))(linear_last)


def linear_axis(cd):
    """channels on another axis, counted from the end: the axis is the same one in frames and in sequences"""

    def u(vc):
        Bt, A, C, S, D = (vc.label(q) for q in "BACSD")
        m = co.Linear(C, D, channel_dim=cd)
        X = z3.Function("X", I, R)
        w, b = f"lin[{m.weight._op}]", z3.Real(f"val[{m.bias._op}]")
        g = lambda v: uf(w, v) + b
        T = vc.int("T", 1)
        more = [S] + [vc.label(f"V{q}") for q in range(-cd - 2)]
        tail, out = [C] + more, [D] + more
        x = new([Bt, A, T] + tail, lambda ix: X(ix[2]))
        for nm, y in (("forward", m.forward(x)), ("forward_steps", m.forward_steps(x, False, True))):
            values(vc, f"{nm} applies the function to each time step", y, [Bt, A, T] + out, lambda ix: g(X(ix[2])))
        t = iterm(vc.int("t", 0))
        x = new([Bt, A] + tail, lambda ix: X(t))
        for nm, y in (("forward_step", m.forward_step(x)), ("the functional step", m._forward_step(x, None)[0])):
            values(vc, f"{nm} applies the function to the frame", y, [Bt, A] + out, lambda ix: g(X(t)))

    return u


for _cd in (-2, -3, -4, -6):
    unit("C21 C04", f"Linear channel_dim={_cd}", names("linear.Linear"))(linear_axis(_cd))


# ---------------------------------------------------------------- lambda
def lam(takes_time, only, n, fn=True):
    def u(vc):
        lead, rest = stream_dims(vc, n)
        D = vc.label("D")

        def mk(nm, timed):
            """a function of one frame that changes the channels; timed: it is handed sequences"""

            def f(x):
                want = n + 1 + bool(timed)
                if len(x._dims) != want:
                    vc.fail(f"the function is handed {'sequences' if timed else 'single steps'}", f"{len(x._dims)} dimensions, expected {want}")
                else:
                    vc.ok(f"the function is handed {'sequences' if timed else 'single steps'}")
                rd = x.reader()
                return new([x._dims[0], D] + x._dims[2:], lambda ix: uf(nm, rd(ix)))

            return f

        base = mk("fn", takes_time) if fn else None
        kw = dict(takes_time=takes_time)
        g = {q: (lambda v: uf("fn", v)) for q in ("forward", "forward_steps", "forward_step")}
        for o in only:
            timed = o != "forward_step"
            kw[f"{o}_only_fn"] = mk(o, timed)
            g[o] = (lambda o: lambda v: uf(o, v))(o)
        m = (co.Lambda if vc.choose("built", ["directly", "build_from"]) == "directly" else co.Lambda.build_from)(base, **kw)
        apply_everywhere(vc, m, lead, rest, g, [lead[0], D] + rest)

    return u


for _n in (1, 2, 3):
    for _tt in (False, True):
        unit("C21 C04 C05 C06 C10", f"Lambda takes_time={_tt} {_n}d", names("closure.Lambda", "__init__ build_from " + DRV))(lam(_tt, (), _n))
for _tt in (False, True):
    for _o in (("forward",), ("forward_step",), ("forward_steps",), ("forward", "forward_step"), ("forward", "forward_steps", "forward_step")):
        unit("C21 C05 C06 C10", f"Lambda takes_time={_tt} with {'+'.join(_o)} only", names("closure.Lambda", "__init__ build_from " + DRV))(lam(_tt, _o, 2, fn=len(_o) < 3))


# ---------------------------------------------------------------- arithmetic and constants
def simple(make, g, n):
    def u(vc):
        lead, rest = stream_dims(vc, n)
        m = make(vc)
        apply_everywhere(vc, m, lead, rest, same(g), lead + rest)

    return u


cst = z3.Real("c")
SIMPLE = {
    "Add": (lambda vc: co.Add(SReal(cst)), lambda v: v + cst),
    "Add number": (lambda vc: co.Add(3), lambda v: v + 3),
    "Multiply": (lambda vc: co.Multiply(2.5), lambda v: v * z3.RealVal("2.5")),
    "Multiply negative": (lambda vc: co.Multiply(-3), lambda v: v * -3),
    "Constant": (lambda vc: co.Constant(SReal(cst)), lambda v: cst),
    "Constant number": (lambda vc: co.Constant(7), lambda v: z3.RealVal(7)),
    "Zero": (lambda vc: co.Zero(), lambda v: z3.RealVal(0)),
    "One": (lambda vc: co.One(), lambda v: z3.RealVal(1)),
    "Identity": (lambda vc: co.Identity(54, unused=1), lambda v: v),
}
for _k, (_m, _g) in SIMPLE.items():
    for _n in (1, 3):
        unit("C21 C04 C05 C06 C10", f"{_k} {_n}d", f"continual.closure.{_k.split()[0]} " + names("closure.Lambda"))(simple(_m, _g, _n))


# ---------------------------------------------------------------- reshape
def reshape(kind, contiguous):
    def u(vc):
        Bt, C, S, U = (vc.label(q) for q in "BCSU")
        lead, rest, shape = dict(merge=([Bt, C], [S], (Bt, C * S)), merge3=([Bt, C], [S, U], (Bt, C, S * U)), split=([Bt, C * S], [U], (Bt, C, S, U)), keep=([Bt, C], [S], (Bt, C, S)), all=([Bt, C], [S, U], (Bt, C * S * U)), one=([Bt, C], [], (Bt, C, 1)))[kind]
        m = co.Reshape(shape, contiguous=contiguous) if vc.choose("shape given as", ["sequence", "arguments"]) == "sequence" else co.Reshape(*shape, contiguous=contiguous)
        apply_everywhere(vc, m, lead, rest, same(lambda v: v), list(shape))

    return u


for _k in ("merge", "merge3", "split", "keep", "all", "one"):
    for _c in (False, True):
        unit("C21 C04 C05 C06 C10", f"Reshape {_k} contiguous={_c}", names("shape.Reshape", "__init__ " + DRV))(reshape(_k, _c))


# ---------------------------------------------------------------- wrapped torch.nn modules
class Wrapped(shim.torch.nn.Module):
    """any torch.nn module acting on each time step alone"""

    def __init__(self, n, D, at=2):
        shim.torch.nn.Module.__init__(self)
        self.n, self.D, self.at = n, D, at

    def forward(self, x):
        if len(x._dims) != self.n + 2:
            Vc.cur.fail("the wrapped module is handed sequences", f"{len(x._dims)} dimensions")
        elif is_label(x._dims[self.at]):
            Vc.cur.fail("the time axis is where the module expects it", f"{x._dims}")
        else:
            Vc.cur.ok("the time axis is where the module expects it")
        rd = x.reader()
        return new([x._dims[0], self.D] + x._dims[2:], lambda ix: uf("nn", rd(ix)))


def wrapped(n):
    def u(vc):
        lead, rest = stream_dims(vc, n)
        D = vc.label("D")
        m = co.forward_stepping(Wrapped(n, D))
        apply_everywhere(vc, m, lead, rest, same(lambda v: uf("nn", v)), [lead[0], D] + rest)
        with vc.of("C18"):
            vc.ok("wrapped in place") if isinstance(m, Wrapped) else vc.fail("wrapped in place", type(m).__name__)

    return u


for _n in (1, 2, 3):
    unit("C21 C18 C04 C05 C06 C10", f"forward_stepping {_n}d", "continual.convert.forward_stepping")(wrapped(_n))


def wrapped_dim(dim):
    """time on another axis than the third"""

    def u(vc):
        Bt, C, S = (vc.label(q) for q in "BCS")
        m = co.forward_stepping(Wrapped(2, C, dim), dim=dim) if vc.choose("args", ["keyword", "positional"]) == "keyword" else co.forward_stepping(Wrapped(2, C, dim), dim)
        X = z3.Function("X", I, R)
        T = vc.int("T", 1)
        t = iterm(vc.int("t", 0))
        at = dim % 4
        dims = [Bt, C, S]
        x = new(dims[:at] + [T] + dims[at:], lambda ix: X(ix[at]))
        y = m.forward_steps(x)
        values(vc, "forward_steps applies the module to the sequence", y, [Bt, C] + x._dims[2:], lambda ix: uf("nn", X(ix[at])))
        x = new(dims, lambda ix: X(t))
        for nm, y in (("forward_step", m.forward_step(x)), ("the functional step", m._forward_step(x)[0])):
            values(vc, f"{nm} applies the module to the frame, with the time axis where it was told", y, dims, lambda ix: uf("nn", X(t)))

    return u


for _d in (3, -1):
    unit("C21 C18", f"forward_stepping dim={_d}", "continual.convert.forward_stepping")(wrapped_dim(_d))


# ---------------------------------------------------------------- lambda after a retroactive module: every step is a whole window
def retro_lambda(takes_time):
    def u(vc):
        from continual.transformer import RetroactiveLambda

        Bt, C, D = (vc.label(q) for q in "BCD")
        W = vc.int("W", 1)

        def f(x):
            rd = x.reader()
            if len(x._dims) != (3 if takes_time else 2):
                vc.fail("the function is handed what takes_time says", f"{len(x._dims)} dimensions")
            return new([x._dims[0], D] + x._dims[2:], lambda ix: uf("fn", rd(ix)))

        m = RetroactiveLambda(f, takes_time=takes_time) if vc.choose("built by", ["constructor", "build_from"]) == "constructor" else RetroactiveLambda.build_from(f, takes_time) if vc.choose("args", ["positional", "keyword"]) == "positional" else RetroactiveLambda.build_from(f, takes_time=takes_time)
        X = z3.Function("X", I, I, R)
        t = iterm(vc.int("t", 0))
        win = new([Bt, C, W], lambda ix: X(t, ix[2]))
        for nm, y in (("forward", m.forward(win)), ("forward_step", m.forward_step(win)), ("forward_step without update", m.forward_step(win, False)), ("the functional step", m._forward_step(win, None)[0])):
            values(vc, f"{nm} applies the function to each position of the window", y, [Bt, D, W], lambda ix: uf("fn", X(t, ix[2])))
        T = vc.int("T", 1)
        y = m.forward_steps(new([Bt, C, T, W], lambda ix: X(ix[2], ix[3])))
        values(vc, "forward_steps applies the function to each position of each window", y, [Bt, D, T, W], lambda ix: uf("fn", X(ix[2], ix[3])))

    return u


for _tt in (False, True):
    unit("C16 C21", f"RetroactiveLambda takes_time={_tt}", names("transformer.RetroactiveLambda", DRV + " build_from"))(retro_lambda(_tt))
