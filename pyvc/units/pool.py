"""C02: continual pooling."""
from .lib import *  # noqa: F401,F403
from .conv import slot

FN = "continual.pooling._PoolNd.__init__ continual.pooling._PoolNd.init_state continual.pooling._PoolNd._forward_step continual.utils.neginf_like"
NINF = -z3.Real("INF")


def cases(kind, n, adaptive):
    def f(cex, prop):
        k, s, p, d = cint(cex, "k", 3, 7), max(1, cint(cex, "s", 1, 5)), cint(cex, "p", 0, 3), max(1, cint(cex, "d", 1, 4))
        k = max(1, k)
        out = []
        for k, d in ((k, d), (3, d), (k, 1)):
            T = 3 * d * k + 2 * s + 4
            if prop == "C02":
                if adaptive:
                    out.append(dict(f="adaptive", kind=kind, n=n, k=k, out=[1] + [2] * (n - 1), T=T, B=2, seed=3))
                else:
                    out.append(dict(f="pool", kind=kind, n=n, ks=[k] + [2, 3][: n - 1], s=[s] + [2] * (n - 1), p=[min(p, k // 2)] + [1] * (n - 1), d=d, T=T, B=2, seed=3))
            elif not adaptive:
                out += spec_cases(prop, dict(k=kind, n=n, ks=[k] + [2] * (n - 1), s=[s] + [1] * (n - 1), p=[min(p, k // 2)] + [0] * (n - 1), d=d), n, d * (k - 1))
        return out

    return f


def step_contract(kind, n, dil, adaptive, fill):
    def u(vc):
        lead, rest = stream_dims(vc, n)
        k, s, p = vc.int("k", 1), vc.int("s", 1), vc.int("p", 0)
        d = vc.int("d", 2) if dil else 1
        kt, st, pt, dt = iterm(k), iterm(s), iterm(p), iterm(d)
        cls = getattr(co, f"{'Adaptive' if adaptive else ''}{kind.capitalize()}Pool{n}d")
        sp = [vc.int(f"{a}{q}", 0 if a == "sp" else 1) for q in range(n - 1) for a in ("sk", "ss", "sp")]
        if adaptive:
            osz = [vc.label(f"O{q}") for q in range(n - 1)]
            m = cls((1, *osz), k, s, p, d, fill)
        else:
            kw = dict(stride=(s, *sp[1::3]), padding=(p, *sp[2::3]), dilation=(d,) + (1,) * (n - 1))
            style = vc.choose("options", ["given", "omitted"] + (["numbers"] if n == 1 else []))
            if style == "omitted":  # no stride means the kernel size, no padding, no dilation
                if dil or fill == "replicate":
                    raise PathEnd()
                for a, b in zip([s] + sp[1::3] + [p] + sp[2::3], [k] + sp[0::3] + [0] * n):
                    vc.assume(iterm(a) == iterm(b))
                kw = {}
                if vc.choose("fill", ["given", "default"]) == "given":
                    kw["temporal_fill"] = fill
            else:
                kw["temporal_fill"] = fill
            if style == "numbers":
                m = cls(k, **{a: b[0] if isinstance(b, tuple) else b for a, b in kw.items()})
            else:
                m = cls((k, *sp[0::3]), **kw)
        Rr = dt * (kt - 1) + 1
        # ring size: a plain integer for the solver, with its definition
        Rv = iterm(vc.int("R", 1))
        vc.assume(Rv == Rr)
        vc.assume(z3.If(kt == 1, Rv == 1, Rv >= dt + 1))  # d(k-1)+1 >= d+1 for k >= 2
        vc.assume(pt <= Rv - 1)
        X = Stream(vc, "X", lead, rest)
        if n == 1:
            ref, odims = (lambda f: X.X(f)), lead
        else:
            r0 = m._spatial_pool_fn(X.frame(0))
            rd = r0.reader()
            odims = r0._dims
            ref = lambda f: z3.substitute(rd([None] * (n + 1)), (X.X(z3.IntVal(0)), X.X(f)))
        T = vc.int("T", 1)
        Tt = iterm(T)
        fillv = {"zeros": zero, "neg_inf": NINF}.get(fill)

        def hist(f):
            if fill == "replicate":
                return z3.If(f < 0, ref(z3.IntVal(0)), z3.If(f < Tt, ref(f), ref(Tt - 1)))
            return z3.If(z3.And(f >= 0, f < Tt), ref(f), fillv)

        first = vc.choose("state", ["fresh", "running"]) == "fresh"
        x_of = lambda N: X.frame(N)
        if first:
            N, mm, i, s0, x = z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), None, x_of(0)
            D = Rv - 1 - pt
        else:
            N = iterm(vc.int("N", 1))
            mm = iterm(vc.int("m", 0))
            D = Rv - 1 - pt + mm * st
            vc.assume(z3.And(D >= N, z3.Or(mm == 0, D - st < N)))
            i = iterm(vc.int("i", 0))
            vc.assume(i < Rv)
            buf = new([sint(Rv)] + odims, lambda ix: hist(slot(ix[0], i, N, Rv)))
            vc.assume(N < Tt)
            x = x_of(N)
            s0 = (buf, scalar(i), scalar(st - 1 - (D - N)))
        i2n = z3.If(i + 1 == Rv, z3.IntVal(0), i + 1)
        vc.rot_hints.append(i2n)
        fr = Frame(vc, m, s0, [x])
        out, state = m._forward_step(x, s0)
        fr.done(out, state)
        with vc.of("C10"):
            vc.check("advertised delay, stride, padding and receptive field", z3.And(iterm(m.delay) == Rv - 1 - pt, iterm(m.stride[0]) == st, iterm(m.padding[0]) == pt, iterm(m.receptive_field) == Rv))
        due = vc.decide(D == N)
        with vc.of("C10"):
            (some if due else none)(vc, "an output exactly on the steps delay + m * stride", out)
        if not due:
            none(vc, "no output on steps where none is due", out)
        elif some(vc, "an output when one is due", out):
            base = N - Rv + 1
            if kind == "avg":
                spec = div(vc.sum(kt, lambda j: hist(base + j * dt)), z3.ToReal(kt))
            else:
                spec = vc.fold_max(sint(kt), lambda j: hist(base + j * dt))
            values(vc, "step output pools the latest window", out, odims, lambda ix: spec)
            comparable = not adaptive and fill == ("zeros" if kind == "avg" else "neg_inf") and not (kind == "avg" and dil)
            if comparable:
                y = m.forward(X.seq(T))
                vc.check("step output m equals whole-sequence output m", val(out, [None] * (n + 1)) == val(y, [None, None, mm] + [None] * (n - 1)))
                same_dims(vc, "step output has the shape of a slice of the whole-sequence output", out, y._dims[:2] + y._dims[3:])
                vc.check("the whole-sequence mode has output m", mm < iterm(y._dims[2]))
            elif adaptive and vc.decide(z3.And(pt == 0, N == Tt - 1, Tt == Rv)) and not dil:
                y = m.forward(X.seq(T))
                vc.check("step over k frames equals the whole-sequence output", val(out, [None] * (n + 1)) == val(y, [None, None, z3.IntVal(0)] + [None] * (n - 1)))
                same_dims(vc, "step output has the shape of a slice of the whole-sequence output", out, y._dims[:2] + y._dims[3:])
        if not (isinstance(state, tuple) and len(state) == 3):
            vc.fail("state has three components", str(type(state)))
            return
        b2, i2, s2 = state
        D2 = z3.If(D == N, D + st, D)
        vc.check("stride counter after the step", intval(s2) == st - 1 - (D2 - (N + 1)))
        ring(vc, "ring position after the step", intval(i2), i2n, Rv)
        values(vc, "ring buffer contents after the step", b2, [sint(Rv)] + odims, lambda ix: hist(slot(ix[0], i2n, N + 1, Rv)))

    return u


for _n in (1, 2, 3):
    for _kind in ("avg", "max"):
        for _dil in (False, True):
            for _ad in (False, True):
                if _ad and (_n == 1 or _dil):
                    continue
                for _fill in [("neg_inf" if _kind == "max" and not _ad else "zeros")] + (["replicate"] if _n == 1 and not _dil else []):
                    unit("C02 C05 C06 C10", f"{'Adaptive' if _ad else ''}{_kind.capitalize()}Pool{_n}d._forward_step[dilated={_dil},fill={_fill}]", FN + f" continual.pooling.{'Adaptive' if _ad else ''}{_kind.capitalize()}Pool{_n}d.__init__", replay=cases(_kind, _n, _ad))(step_contract(_kind, _n, _dil, _ad, _fill))
