"""C15: recycling positional encoding."""
from core import fdiv

from .lib import *  # noqa: F401,F403

FN = " ".join(f"continual.positional_encoding.RecyclingPositionalEncoding.{f}" for f in "__init__ forward forward_steps forward_step _forward_step init_state clean_state".split())


def build(vc, learned, upd):
    C, n = vc.label("C"), vc.int("num", 1)
    m = co.RecyclingPositionalEncoding(C, n, forward_update_index_steps=upd) if upd is not None else co.RecyclingPositionalEncoding(C, n)
    if learned:
        emb = lambda i: uf(f"val[{m.pe.weight._op}]", i)
    else:  # the static table is computed by numpy: any table of that size
        from continual import positional_encoding as pe

        c = pe.CyclicPositionalEncoding.__new__(pe.CyclicPositionalEncoding)
        shim.torch.nn.Module.__init__(c)
        c.num_embeddings, c.embedding_dim = n, C
        c.register_buffer("pattern", new([n, C], lambda ix: uf("pattern", ix[0])))
        m.pe = c
        emb = lambda i: uf("pattern", i)
    return m, C, n, emb


def streaming(learned, default_upd):
    def u(vc):
        upd = None if default_upd else vc.int("upd", 0)
        m, C, n, emb = build(vc, learned, upd)
        nt = iterm(n)
        Bt = vc.label("B")
        X = z3.Function("X", I, R)
        fresh = vc.choose("state", ["fresh", "running"]) == "fresh"
        if fresh:
            i = z3.IntVal(0)
            vc.check("a fresh module starts at position zero", intval(m.state_index) == 0)
        else:
            i = iterm(vc.int("i", 0))
            vc.assume(i < nt)
            m.state_index = scalar(i)
        wrap = lambda k: z3.If(k < nt, k, k - nt)  # k < 2n
        stored = m.state_index
        w0 = stored._st.writes
        mode = vc.choose("mode", ["forward", "forward_steps", "forward_step", "functional", "clean"])

        def position(name, want, tags="C15"):
            with vc.of(tags):
                vc.check(name, intval(m.state_index) == want)

        if mode in ("forward", "forward_steps"):
            T = vc.int("T", 1)
            Tt = iterm(T)
            vc.assume(Tt <= nt)
            x = new([Bt, C, T], lambda ix: X(ix[2]))
            spec = lambda ix: X(ix[2]) + emb(wrap(i + ix[2]))
            if mode == "forward":
                y = m.forward(x)
                values(vc, "forward adds embedding (start + t) mod n to step t", y, [Bt, C, T], spec)
                by = iterm(1 if upd is None else upd)
                q, r = fdiv(z3.simplify(i + by), nt)
                position("forward advances the position by the configured amount", r)
            else:
                up, pe = vc.choose("update_state", [True, False]), vc.choose("pad_end", [False, True])
                y = m.forward_steps(x, pe, up)
                with vc.of("C15 C04" if up else "C15 C05"):
                    values(vc, "forward_steps adds embedding (start + t) mod n to step t", y, [Bt, C, T], spec)
                if up:
                    position("forward_steps advances the position by the number of steps", wrap(i + Tt), "C15 C04")
                else:
                    position("without update the position stays", i, "C15 C05")
        elif mode == "forward_step":
            x = new([Bt, C], lambda ix: X(0))
            up = vc.choose("update_state", [True, False])
            y = m.forward_step(x, up) if vc.choose("args", ["positional", "keyword"]) == "positional" else m.forward_step(x, update_state=up)
            with vc.of("C15 C04" if up else "C15 C05"):
                values(vc, "forward_step adds the embedding at the position", y, [Bt, C], lambda ix: X(z3.IntVal(0)) + emb(i))
            if up:
                position("forward_step advances the position by one", wrap(i + 1), "C15 C04")
            else:
                position("without update the position stays", i, "C15 C05")
        elif mode == "functional":
            x = new([Bt, C], lambda ix: X(0))
            k = iterm(vc.int("k", 0))
            vc.assume(k < nt)
            given = vc.choose("prev_state", ["none", "some"]) == "some"
            if not given:
                k = z3.IntVal(0)
            r = m._forward_step(x, (scalar(k),)) if given else m._forward_step(x)
            with vc.of("C15 C06"):
                if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], tuple) and len(r[1]) == 1):
                    vc.fail("the functional step returns output and state", "unexpected form")
                    return
                values(vc, "the functional step adds the embedding at the position of the state", r[0], [Bt, C], lambda ix: X(z3.IntVal(0)) + emb(k))
                vc.check("the functional step advances the position of the state by one", intval(r[1][0]) == wrap(k + 1))
            position("the functional step leaves the module's position alone", i, "C15 C06")
        else:
            m.clean_state()
            position("cleaning resets the position", z3.IntVal(0), "C15 C06")
        with vc.of("C15 C06 C05"):
            vc.ok("the stored position is not written in place") if stored._st.writes == w0 else vc.fail("the stored position is not written in place", "written")
            vc.ok("the position is not part of the saved parameters") if "state_index" not in m.state_dict() else vc.fail("the position is not part of the saved parameters", "state_index")
        with vc.of("C10 C15"):
            vc.check("no delay", iterm(m.delay) == 0)
        if True:
            vc.check("the position stays within the table", z3.And(intval(m.state_index) >= 0, intval(m.state_index) < nt))

    return u


for _l in (True, False):
    for _u in (True, False):
        unit("C15 C04 C05 C06 C10", f"RecyclingPositionalEncoding learned={_l} {'default' if _u else 'any'} forward update", FN + (" continual.positional_encoding.CyclicPositionalEncoding.forward" if not _l else ""))(streaming(_l, _u))
