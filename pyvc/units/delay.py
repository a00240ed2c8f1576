"""C03: delays, skips and selections are exact time shifts."""
from .lib import *  # noqa: F401,F403
from .conv import slot

FN = "continual.delay.Delay._forward_step continual.delay.Delay.init_state continual.delay.Delay.delay continual.delay.Delay.forward"


def ring_state(vc, d, size, wait):
    """arbitrary moment of a ring of `size` slots that starts to output after `wait` frames (wait a multiple of size, or size - 1);
    returns (N, i): N frames seen, i the next slot"""
    i = iterm(vc.int("i", 0))
    vc.assume(i < size)
    return i


def delay_contract(cls, shrink, fill):
    def u(vc):
        from continual import transformer

        klass = getattr(co, cls, None) or getattr(transformer, cls)
        lead, rest = stream_dims(vc, 2)
        d = vc.int("d", 1)
        dt = iterm(d)
        retro = cls == "RetroactiveUnity"
        m = klass(d, temporal_fill=fill, **(dict(time_dim=2) if retro else dict(auto_shrink=shrink)))
        size = dt + 1 if retro else dt
        wait = 2 * dt if shrink in (True, "centered") else dt
        X = Stream(vc, "X", lead, rest)
        T = vc.int("T", 1)
        Tt = iterm(T)

        def xh(f):
            inner = X.X(f)
            if fill == "zeros":
                return z3.If(z3.And(f >= 0, f < Tt), inner, zero)
            return z3.If(f < 0, X.X(z3.IntVal(0)), z3.If(f < Tt, inner, X.X(Tt - 1)))

        pad_end = dt if (retro or not shrink) else z3.IntVal(0)
        first = vc.choose("state", ["fresh", "running"]) == "fresh"
        if first:
            N, i, s0, x = z3.IntVal(0), z3.IntVal(0), None, X.frame(0)
            padded = False
        else:
            i = iterm(vc.int("i", 0))
            vc.assume(i < size)
            # N = i (mod size): before the ring is full, after one round, or later
            phase = vc.choose("round", [0, 1, 2])
            if phase < 2:
                N = z3.simplify(i + phase * size)
                vc.assume(N >= 1)
            else:
                N = iterm(vc.int("N"))
                vc.assume(N >= 2 * size)
            idx = z3.simplify(z3.If(N < wait, N - wait, i)) if not retro else z3.If(N < dt, N - dt, z3.If(N - dt < size, N - dt, None_mod(i, size)))
            if retro:
                # index counts from -d; its residue modulo d + 1 is one slot ahead of the frames seen
                idx = z3.If(N < dt, N - dt, z3.If(i + 1 == size, z3.IntVal(0), i + 1))
                wslot = i
            buf = new([sint(size)] + lead + rest, lambda ix: xh(slot_frame(ix[0], N, i, size, retro)))
            if vc.decide(N < Tt):
                x, padded = X.frame(N), False
            else:
                vc.assume(N < Tt + pad_end)
                x, padded = m._make_padding(X.frame(Tt - 1)), True
            s0 = (buf, scalar(idx))
        fr = Frame(vc, m, s0, [x])
        out, state = m._forward_step(x, s0)
        fr.done(out, state)
        with vc.of("C10"):
            if not (shrink in (True, "centered")):
                vc.check("advertised delay and receptive field", z3.And(iterm(m.delay) == dt, iterm(m.receptive_field) == dt + 1, iterm(m.stride[0]) == 1))
        if vc.decide(N < wait):
            none(vc, "no output before the delay has passed", out)
        elif some(vc, "an output at every step after the delay", out):
            if retro:
                values(vc, "the output is the latest d+1 inputs in chronological order", out, lead + [sint(dt + 1)] + rest, lambda ix: xh(N - dt + ix[2]))
            else:
                values(vc, "the output is the input seen d steps earlier", out, lead + rest, lambda ix: xh(N - dt))
                if cls == "Delay":
                    y = m.forward(X.seq(T))
                    with vc.of("C03 C04" if padded else "C03"):
                        vc.check("step output equals the whole-sequence output", z3.Implies(z3.And(N - wait < iterm(y._dims[2])), val(out, [None] * 3) == val(y, [None, None, N - wait, None])))
                        vc.check("the whole-sequence mode has an output for every step that outputs", N - wait < iterm(y._dims[2]))
        if not (isinstance(state, tuple) and len(state) == 2):
            vc.fail("state has two components", str(type(state)))
            return
        b2, i2 = state
        i2 = intval(i2)
        i3 = z3.If(i + 1 == size, z3.IntVal(0), i + 1)
        if retro:
            ring(vc, "ring position after the step", i2, z3.If(N + 1 < dt, N + 1 - dt, z3.If(i3 + 1 == size, z3.IntVal(0), i3 + 1)), size)
        else:
            ring(vc, "ring position after the step", i2, z3.If(N + 1 < wait, N + 1 - wait, i3), size)
        values(vc, "ring buffer contents after the step", b2, [sint(size)] + lead + rest, lambda ix: xh(slot_frame(ix[0], N + 1, i3, size, retro)))

    return u


def None_mod(i, size):
    return i


def slot_frame(j, N, i, size, retro):
    """frame in slot j.  A plain delay writes frame f to slot f mod size; the retroactive one (index starts at -d in a ring of
    d+1) writes it to slot (f+1) mod size"""
    if not retro:
        return slot(j, i, N, size)
    k = z3.If(j == 0, size - 1, j - 1)
    return slot(k, i, N, size)


def cases(cls, shrink, fill):
    def f(cex, prop):
        out = []
        for d in {max(1, cint(cex, "d", 2, 6)), 1, 3}:
            if prop == "C03":
                out.append(dict(f="retro", d=d, T=4 * d + 5, fill=fill, shape=[2, 3, 4], td=2, seed=1) if cls == "RetroactiveUnity" else
                           dict(f="select", d=d, T=d + 5, shape=[2, 3], seed=1) if cls == "SelectOrDelay" else dict(f="delay", d=d, shrink=shrink, fill=fill, T=4 * d + 5, shape=[2, 3, 4], seed=1))
            elif cls == "Delay" and not shrink:
                out += spec_cases(prop, dict(k="delay", d=d), 1, d)
        return out

    return f


for _cls, _sh, _fill in [("Delay", False, "zeros"), ("Delay", False, "replicate"), ("Delay", True, "zeros"), ("Delay", "centered", "zeros"), ("Delay", "lagging", "zeros"), ("SelectOrDelay", False, "zeros"), ("RetroactiveUnity", False, "zeros"), ("RetroactiveUnity", False, "replicate")]:
    unit("C03 C04 C05 C06 C10", f"{_cls}._forward_step[auto_shrink={_sh},fill={_fill}]", FN if _cls != "RetroactiveUnity" else "continual.transformer.RetroactiveUnity._forward_step continual.transformer.RetroactiveUnity.init_state", replay=cases(_cls, _sh, _fill))(delay_contract(_cls, _sh, _fill))


@unit("C03", "Delay.forward", "continual.delay.Delay.forward continual.transformer.SelectOrDelay.forward")
def delay_forward(vc):
    from continual.transformer import RetroactiveUnity, SelectOrDelay

    lead, rest = stream_dims(vc, 2)
    X = Stream(vc, "X", lead, rest)
    T, d = vc.int("T", 1), vc.int("d", 0)
    kind = vc.choose("kind", ["plain", True, "centered", "lagging", "select", "retro"])
    dt, Tt = iterm(d), iterm(T)
    if kind == "select":
        vc.assume(dt < Tt)
        y = SelectOrDelay(d).forward(X.seq(T))
        values(vc, "selects the frame d steps before the last", y, lead + [1] + rest, lambda ix: X.X(Tt - 1 - dt))
        return
    if kind in ("plain", "retro"):
        m = co.Delay(d) if kind == "plain" else RetroactiveUnity(d)
        values(vc, "whole-sequence mode does not delay", m.forward(X.seq(T)), lead + [T] + rest, lambda ix: X.X(ix[2]))
        return
    m = co.Delay(d, auto_shrink=kind)
    y = m.forward(X.seq(T))
    cut = dt if kind == "lagging" else 2 * dt
    vc.assume(cut <= Tt)
    values(vc, "whole-sequence mode cuts the sequence", y, lead + [sint(Tt - cut)] + rest, lambda ix: X.X(ix[2] + (0 if kind == "lagging" else dt)))


@unit("C03", "Delay(0) and its multi-step padding", "continual.delay.Delay.forward_step continual.delay.Delay.forward_steps continual.delay.Delay._forward_step")
def delay_zero(vc):
    lead, rest = stream_dims(vc, 2)
    X = Stream(vc, "X", lead, rest)
    m = co.Delay(0, auto_shrink=vc.choose("shrink", [False, True, "lagging"]))
    x = X.frame(3)
    T = vc.int("T", 1)
    for up in (True, False):
        values(vc, "a delay of zero passes every step on", m.forward_step(x, up), lead + rest, lambda ix: X.X(z3.IntVal(3)))
        values(vc, "a delay of zero passes a chunk on", m.forward_steps(X.seq(T), vc.choose("pad", [True, False]), up), lead + [T] + rest, lambda ix: X.X(ix[2]))
    o, s = m._forward_step(x, None)
    values(vc, "a delay of zero passes every functional step on", o, lead + rest, lambda ix: X.X(z3.IntVal(3)))
    if m.get_state() is None and s is None:
        vc.ok("a delay of zero has no state")
    else:
        vc.fail("a delay of zero has no state", "state found")


@unit("C03 C05 C06 C10", "Skip", "continual.skip.Skip._forward_step continual.skip.Skip.forward continual.skip.Skip.clean_state continual.skip.Skip.get_state continual.skip.Skip.set_state continual.module.CoModule.forward_step")
def skip(vc):
    lead, rest = stream_dims(vc, 2)
    X = Stream(vc, "X", lead, rest)
    d = vc.int("d", 1)
    dt = iterm(d)
    m = co.Skip(d)
    with vc.of("C10"):
        vc.check("a skip looks at the current input alone, at stride one", z3.And(iterm(m.receptive_field) == 1, iterm(m.stride[0]) == 1))
    T = vc.int("T", 1)
    vc.assume(iterm(T) >= dt)
    y = m.forward(X.seq(T))
    values(vc, "whole-sequence mode drops the first d steps", y, lead + [sint(iterm(T) - dt)] + rest, lambda ix: X.X(ix[2] + dt))
    with vc.of("C06"):
        vc.check("a fresh skip has skipped nothing", intval(m.get_state()[0]) == -dt)
    N = iterm(vc.int("N", 0))
    idx = z3.If(N < dt, N - dt, z3.IntVal(0))
    how = vc.choose("call", ["functional", "functional fresh", "stateful", "no update"])
    x = X.frame(N)
    if how == "functional fresh":
        vc.assume(N == 0)
        out, st = m._forward_step(x, None)
    elif how == "functional":
        s0 = (scalar(idx),)
        fr = Frame(vc, m, (None,) + s0, [x])
        out, st = m._forward_step(x, s0)
        fr.done(out, st)
    else:
        s0 = (scalar(idx),)
        m.set_state(s0)
        out = m.forward_step(x, how == "stateful")
        st = m.get_state()
    if vc.decide(N < dt):
        none(vc, "drops the first d steps", out)
    else:
        values(vc, "passes every later step on", out, lead + rest, lambda ix: X.X(N))
    if how == "no update":
        with vc.of("C05"):
            vc.check("a call without update leaves the position", intval(st[0]) == idx)
    else:
        vc.check("position after the step", intval(st[0]) == z3.If(N + 1 < dt, N + 1 - dt, z3.IntVal(0)))
    m.clean_state()
    with vc.of("C06"):
        vc.check("a cleaned skip has skipped nothing", intval(m.get_state()[0]) == -dt)
