"""C12: recurrent modules against the scan that torch.nn computes over the whole sequence."""
import recur

from .lib import *  # noqa: F401,F403

nn = shim.torch.nn


class Offline:
    """the recurrence over the whole stream X: h(0) = h0, h(t+1) = next(h(t), X(t)), output out(h(t), X(t))"""

    def __init__(self, vc, m, X, init):
        self.vc, self.cell, self.X, self.init = vc, recur.cell_name(m), X, init
        self.S = [z3.Function(f"offline.{i}", I, R) for i in range(len(init))]
        for s, v in zip(self.S, init):
            vc.add(s(z3.IntVal(0)) == v)

    def h(self, t):
        return [s(z3.simplify(iterm(t))) for s in self.S]

    def unfold(self, t):
        for i, s in enumerate(self.S):
            self.vc.add(s(z3.simplify(iterm(t) + 1)) == recur.cell_next(self.cell, i, self.h(t), self.X(iterm(t))))

    def out(self, t):
        return recur.cell_out(self.cell, self.h(t), self.X(iterm(t)))

    def scan(self, N):
        """lemma by induction: the scan computed last is this recurrence from step N on"""
        vc = self.vc
        if not vc.scans:
            return lambda k: None
        sc = vc.scans[-1]
        vc.solver.push()
        npc = len(vc.pc)
        try:
            vc.check("scan lemma: the hidden state handed in is the one after the earlier steps", z3.And(*[a == b for a, b in zip(sc.init, self.h(N))]) if len(sc.init) == len(self.S) else z3.BoolVal(False))
            k = vc.fresh("k")
            vc.add(z3.And(k >= 0, k < iterm(sc.n)))
            for a, b in zip(sc.at(k), self.h(N + k)):
                vc.add(a == b)
            sc.unfold(k)
            self.unfold(N + k)
            vc.check("scan lemma: steps are taken over the frames in order", z3.And(*[a == b for a, b in zip(sc.at(k + 1), self.h(N + k + 1))]))
        finally:
            vc.solver.pop()
            del vc.pc[npc:]

        def inst(k):
            for a, b in zip(sc.at(iterm(k)), self.h(N + iterm(k))):
                vc.add(a == b)

        return inst


def build(vc, cls, bias, training, proj=False, layers=None):
    C, H = vc.label("C"), vc.label("H")
    L = vc.label("L") if layers is None else layers
    kw = dict(bias=bias)
    if cls == "RNN":
        kw["nonlinearity"] = vc.choose("nonlinearity", ["tanh", "relu"])
    if proj:
        kw["proj_size"] = vc.label("P")
    m = getattr(co, cls)(C, H, L, **kw)
    m.train() if training else m.eval()
    out = kw.get("proj_size", H)
    return m, C, H, L, out


def tensors(cls, L, Bt, H, out, vals):
    sizes = [[L, Bt, out]] + ([[L, Bt, H]] if cls == "LSTM" else [])
    return tuple(new(s, (lambda v: lambda ix: v)(v)) for s, v in zip(sizes, vals))


def parts(cls):
    return 2 if cls == "LSTM" else 1


def check_state(vc, name, st, want, dims):
    """obligation: a state tuple has the wanted values"""
    if not (isinstance(st, (tuple, list)) and len(st) == len(want) and all(isinstance(t, SymTensor) for t in st)):
        return vc.fail(name, f"state is {type(st).__name__}")
    for t, w, d in zip(st, want, dims):
        values(vc, name, t, d, lambda ix: w)


def streaming(cls, bias, training, proj=False):
    def u(vc):
        m, C, H, L, out = build(vc, cls, bias, training, proj)
        Bt = vc.label("B")
        X = z3.Function("X", I, R)
        n = parts(cls)
        sd = [[L, Bt, out], [L, Bt, H]][:n]
        begin = vc.choose("start", ["zero", "set"])
        h0 = [zero] * n if begin == "zero" else [z3.Real(f"h0.{i}") for i in range(n)]
        off = Offline(vc, m, X, h0)
        none_or = vc.choose("history", ["none", "some"])
        if none_or == "none":
            N = z3.IntVal(0)
            saved = None
            if begin == "set":
                saved = tensors(cls, L, Bt, H, out, h0)
                how = vc.choose("set_state", ["tuple", "tensor"]) if n == 1 else "tuple"
                m.set_state(saved if how == "tuple" else saved[0])
            else:
                none(vc, "a fresh module has no state", m.get_state())
        else:
            N = iterm(vc.int("N", 1))
            saved = tensors(cls, L, Bt, H, out, off.h(N))
            m.set_state(saved)
        writes = [t._st.writes for t in saved or ()]
        mode = vc.choose("mode", ["forward_step", "forward_steps", "functional", "forward"])
        T = vc.int("T", 1)
        Tt = iterm(T)

        def untouched(name, tags):
            with vc.of(tags):
                got = m.get_state()
                if saved is None:
                    none(vc, name, got)
                else:
                    check_state(vc, name, got, off.h(N), sd)

        if mode in ("forward_step", "functional"):
            x = new([Bt, C], lambda ix: X(N))
            if mode == "forward_step":
                up = vc.choose("update_state", [True, False])
                y = m.forward_step(x, up) if vc.choose("args", ["positional", "keyword"]) == "positional" else m.forward_step(x, update_state=up)
                tags = "C12 C04 C06" if up else "C05"
            else:
                up, tags = False, "C06 C12"
                y, ns = m._forward_step(x, m.get_state())
            off.unfold(N)
            with vc.of(tags):
                if some(vc, f"{mode}: an output at every step", y):
                    values(vc, f"{mode}: the output is the offline output at this step", y, [Bt, out], lambda ix: off.out(N))
            if mode == "functional":
                with vc.of("C06"):
                    check_state(vc, "functional: the new state is the offline hidden state", ns, off.h(N + 1), sd)
                untouched("functional: the stored state is left alone", "C06")
                m.set_state(ns)
                with vc.of("C06"):
                    check_state(vc, "a new state can be set", m.get_state(), off.h(N + 1), sd)
            elif up:
                with vc.of("C12 C04"):
                    check_state(vc, "the state after the step is the offline hidden state", m.get_state(), off.h(N + 1), sd)
            else:
                untouched("without update the stored state is left alone", "C05")
        elif mode == "forward_steps":
            x = new([Bt, C, T], lambda ix: X(N + ix[2]))
            pe, up = vc.choose("pad_end", [False, True]), vc.choose("update_state", [True, False])
            y = m.forward_steps(x, pe, up)
            with vc.of("C12 C04" if up else "C05"):
                lemma = off.scan(N)
                if some(vc, "forward_steps: an output", y) and same_dims(vc, "forward_steps: one output per step", y, [Bt, out, T]):
                    j = vc.fresh("j")
                    vc.add(z3.And(j >= 0, j < Tt)) if vc.sat(j >= 0, j < Tt) else None
                    lemma(j)
                    vc.check("forward_steps: every output is the offline output of its step", val(y, [None, None, j]) == off.out(N + j))
            lemma(Tt)
            if up:
                with vc.of("C12 C04"):
                    check_state(vc, "the state after the steps is the offline hidden state", m.get_state(), off.h(N + Tt), sd)
            else:
                untouched("without update the stored state is left alone", "C05")
        else:
            x = new([Bt, C, T], lambda ix: X(ix[2]))
            given = vc.choose("hx", ["given", "default"]) if begin == "set" else "default"
            off0 = Offline2(vc, m, X, h0 if given == "given" else [zero] * n)
            h = tensors(cls, L, Bt, H, out, h0)
            hx = None if given == "default" else (h if n == 2 else h[0])
            r = m.forward(x) if hx is None else m.forward(x, hx)
            with vc.of("C12 C06"):
                lemma = off0.scan(z3.IntVal(0))
                if not (isinstance(r, tuple) and len(r) == 2):
                    vc.fail("forward returns outputs and the hidden state", type(r).__name__)
                    return
                y, hn = r
                if same_dims(vc, "forward: one output per step", y, [Bt, out, T]):
                    j = vc.fresh("j")
                    vc.add(z3.And(j >= 0, j < Tt))
                    lemma(j)
                    vc.check("forward: every output is that of torch.nn, with the time axis last, whatever the stored state", val(y, [None, None, j]) == off0.out(j))
                lemma(Tt)
                check_state(vc, "forward: the final hidden state is that of torch.nn", hn if n == 2 else (hn,), off0.h(Tt), sd)
            untouched("forward leaves the stored state alone", "C06")
        with vc.of("C05 C06"):
            if [1 for t, w in zip(saved or (), writes) if t._st.writes != w]:
                vc.fail("state tensors are not written in place", "written")
            else:
                vc.ok("state tensors are not written in place")
        with vc.of("C10 C12"):
            vc.check("no delay, stride one, no padding", z3.And(iterm(m.delay) == 0, iterm(m.stride[0]) == 1, iterm(m.padding[0]) == 0))
        with vc.of("C06"):
            keys = set(m.state_dict().keys())
            vc.ok("state is no parameter") if all(q.startswith("weight_") for q in keys) else vc.fail("state is no parameter", str(sorted(keys)))
            m.clean_state()
            none(vc, "cleaning removes the state", m.get_state())
            m.clean_state()
            none(vc, "cleaning twice is fine", m.get_state())

    return u


class Offline2(Offline):
    def __init__(self, vc, m, X, init):
        self.vc, self.cell, self.X, self.init = vc, recur.cell_name(m), X, init
        self.S = [z3.Function(f"offline0.{i}", I, R) for i in range(len(init))]
        for s, v in zip(self.S, init):
            vc.add(s(z3.IntVal(0)) == v)


def options(cls):
    """how options may be written: by name, by position, left out"""

    def u(vc):
        C, H, L = vc.label("C"), vc.label("H"), vc.label("L")
        c = getattr(co, cls)
        style = vc.choose("options", ["omitted", "position", "name"])
        nl, bias, drop, proj = "tanh", True, 0.0, 0
        if style == "omitted":
            m, L = c(C, H), 1
        else:
            bias = vc.choose("bias", [True, False])
            drop = vc.choose("dropout", [0.0, 0.25])
            kw = {}
            if cls == "RNN":
                nl = kw["nonlinearity"] = vc.choose("nonlinearity", ["tanh", "relu"])
            kw.update(bias=bias, dropout=drop)
            if cls == "LSTM" and vc.choose("projected", [False, True]):
                proj = kw["proj_size"] = vc.label("P")
            m = c(C, H, L, *kw.values()) if style == "position" else c(input_size=C, hidden_size=H, num_layers=L, **kw)
        for name, want in (("input_size", C), ("hidden_size", H), ("num_layers", L), ("bias", bias), ("dropout", drop), ("batch_first", True), ("bidirectional", False), ("proj_size", proj)):
            got = getattr(m, name)
            same = got is want or not isinstance(got, SInt) and not isinstance(want, SInt) and got == want or isinstance(got, SInt) and isinstance(want, SInt) and dims_equal(got, want)
            vc.ok(f"{name} as given") if same else vc.fail(f"{name} as given", repr(got))
        if cls == "RNN":
            vc.ok("nonlinearity as given") if m.mode == "RNN_" + nl.upper() else vc.fail("nonlinearity as given", nl)

    return u


def replay(cls):
    def r(cex, prop):
        return []

    return r


for _c in ("RNN", "GRU", "LSTM"):
    _f = " ".join(f"continual.rnn.{_c}.{f}" for f in "__init__ forward forward_step _forward_step forward_steps get_state set_state clean_state delay".split())
    for _b in (True, False):
        for _t in (True, False):
            if _b and _t:
                unit("C12", f"{_c} options", f"continual.rnn.{_c}.__init__", replay=lambda c, p, q=_c: [dict(cell=q, i=2, h=3, l=1 + r, b=not r, B=2, T=5, chunks=[2, 3], init=True, nl="relu" if r else "tanh", seed=3, how=w, drop=0.5 * r) for w in ("bare", "pos") for r in (0, 1)])(options(_c))
            unit("C12 C04 C05 C06 C10", f"{_c} bias={_b} training={_t}", _f)(streaming(_c, _b, _t))
unit("C12 C04 C05 C06", "LSTM proj_size", _f)(streaming("LSTM", True, False, True))
