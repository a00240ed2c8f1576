"""C13/C14: continual multi-head attention against offline attention over the latest n tokens.

Tokens t of the query, key and value streams have values XQ(t), XK(t), XV(t).  Offline attention (torch's, as an axiom in
attention.py) maps a window of tokens to rows; row r of the window starting at w is
    out_proj(concat over heads of  sum_j exp(q(w+r).k(w+j)) v(w+j) / sum_j exp(q(w+r).k(w+j)))     j = 0 .. n-1
with q = in_proj_q(XQ) / sqrt(head_dim), k = in_proj_k(XK), v = in_proj_v(XV).
"""
import attention
from tensor import mul

from .ghost import *  # noqa: F401,F403
from .ghost import Ghost, Rule, _Loop as ghost_loop

from continual.multihead_attention import mha_base as MB
from continual.multihead_attention import retroactive_mha as MR
from continual.multihead_attention import single_output_mha as MS

BASE = MB.MultiheadAttentionBase
MB_ = "continual.multihead_attention.mha_base."
FN_STEP = f"{MB_}multi_head_attention_forward_step {MB_}MultiheadAttentionBase._forward_step {MB_}MultiheadAttentionBase.__init__"
FN_RETRO = FN_STEP + " " + " ".join(f"continual.multihead_attention.retroactive_mha.{f}" for f in "_scaled_dot_product_attention_default_state _scaled_dot_product_attention_step RetroactiveMultiheadAttention.__init__ RetroactiveMultiheadAttention._forward_step RetroactiveMultiheadAttention.get_state RetroactiveMultiheadAttention.set_state RetroactiveMultiheadAttention.clean_state".split())
FN_SINGLE = FN_STEP + " " + " ".join(f"continual.multihead_attention.single_output_mha.{f}" for f in "_scaled_dot_product_attention_default_state _scaled_dot_product_attention_step SingleOutputMultiheadAttention.__init__ SingleOutputMultiheadAttention._forward_step SingleOutputMultiheadAttention.get_state SingleOutputMultiheadAttention.set_state SingleOutputMultiheadAttention.clean_state SingleOutputMultiheadAttention.delay".split())

LAYOUTS = {"LNE": (False, False), "NLE": (True, False), "NEL": (True, True)}


class Setup:
    def __init__(self, vc, kind, layout, bias=True, separate="", training=False, **kw):
        self.vc, self.kind = vc, kind
        self.H, self.D, self.B = vc.label("H"), vc.label("D"), vc.label("B")
        self.E = self.H * self.D
        vc.stacks.append(self.E)
        self.n = vc.int("n", 1)
        bf, eds = LAYOUTS[layout]
        self.bf, self.eds = bf, eds
        args = dict(bias=bias, batch_first=bf, embed_dim_second=eds, sequence_len=self.n, **kw)
        if separate:
            # widths are labels: unequal unless they are the same label
            self.Ek, self.Ev = (vc.label("Ek") if "k" in separate else self.E), (vc.label("Ev") if "v" in separate else self.E)
            for a, b in ((self.Ek, self.E), (self.Ev, self.E), (self.Ek, self.Ev)):
                if a is not b:
                    vc.assume(iterm(a) != iterm(b))
            args.update({x: y for x, y in (("kdim", self.Ek), ("vdim", self.Ev)) if y is not self.E})
        else:
            self.Ek = self.Ev = self.E
        if kind == "single":
            self.qi = vc.int("query_index")
            vc.assume(z3.And(iterm(self.qi) >= -iterm(self.n), iterm(self.qi) < iterm(self.n)))
            args["query_index"] = self.qi
            self.Nq = z3.If(iterm(self.qi) >= 0, iterm(self.n) - iterm(self.qi) - 1, -iterm(self.qi) - 1)
        cls = co.RetroactiveMultiheadAttention if kind == "retro" else co.SingleOutputMultiheadAttention
        self.m = cls(self.E, self.H, **args)
        self.m.train() if training else self.m.eval()
        self.fresh = self.m.get_state()
        f = lambda nm: (lambda t, F=z3.Function(nm, I, R): F(z3.simplify(iterm(t))))
        self.XQ, self.XK, self.XV = f("XQ"), f("XK"), f("XV")
        self.same = False

    def share(self):
        """self-attention: one stream"""
        self.XK = self.XV = self.XQ
        self.same = True
        return self

    def q(self, t):
        p = attention.project(self.m, "q", self.XQ(t))
        return div(p, z3.Function("sqrt", R, R)(z3.ToReal(iterm(self.D))))

    def k(self, t):
        return attention.project(self.m, "k", self.XK(t))

    def v(self, t):
        return attention.project(self.m, "v", self.XV(t))

    # zero-initialised memories
    def k0(self, t):
        return z3.If(iterm(t) >= 0, self.k(t), zero)

    def v0(self, t):
        return z3.If(iterm(t) >= 0, self.v(t), zero)

    def q0(self, t):
        return z3.If(iterm(t) >= 0, self.q(t), zero)

    def e(self, q, k):
        return uf("exp", uf("dot_D", z3.simplify(q), z3.simplify(k)))

    def den(self, q, w):
        return self.vc.sum(iterm(self.n), lambda j: self.e(q, self.k0(w + j)))

    def num(self, q, w):
        return self.vc.sum(iterm(self.n), lambda j: mul(self.e(q, self.k0(w + j)), self.v0(w + j)))

    def att(self, r, w):
        """row r of the window that starts at token w"""
        q = self.q(z3.simplify(w + iterm(r)))
        return attention.out(self.m, div(self.num(q, w), self.den(q, w)))

    def frame(self, X, t, E):
        v = X(t)
        return new([self.B, E], lambda ix: v)

    def frames(self, N):
        return self.frame(self.XQ, N, self.E), self.frame(self.XK, N, self.Ek), self.frame(self.XV, N, self.Ev)

    def state(self, N):
        """the state after N tokens (N >= 1)"""
        vc, n, m = self.vc, iterm(self.n), self.m
        BH = label_size2(self.B, self.H)
        si = scalar(z3.If(N >= n, z3.IntVal(0), N - n))
        K = new([BH, self.D, self.n], lambda ix: self.k0(N - n + ix[2]))
        V = new([BH, self.n, self.D], lambda ix: self.v0(N - n + ix[1]))
        if self.kind == "single":
            Q = new([BH, sint(z3.simplify(self.Nq)), self.D], lambda ix: self.q0(N - self.Nq + ix[1]))
            return (Q, K, V, si)
        dc, ac = z3.Function("d_any", I, R), z3.Function("AV_any", I, R)
        row = lambda i: N - (n - 1) + i
        d = new([BH, sint(n - 1), 1], lambda ix: z3.If(row(ix[1]) >= 0, self.den(self.q(row(ix[1])), N - n), dc(ix[1])))
        AV = new([BH, sint(n - 1), self.D], lambda ix: z3.If(row(ix[1]) >= 0, self.num(self.q(row(ix[1])), N - n), ac(ix[1])))
        Q = new([BH, sint(n - 1), self.D], lambda ix: self.q0(row(ix[1])))
        return (d, AV, Q, K, V, si)

    def is_state(self, name, st, N):
        """obligation: st is the state after N tokens (rows of queries that are not tokens yet hold anything)"""
        vc, n = self.vc, iterm(self.n)
        want = self.state(N)
        if not (isinstance(st, (tuple, list)) and len(st) == len(want) and all(isinstance(t, SymTensor) for t in st)):
            return vc.fail(name, f"state is {type(st).__name__}")
        names = ["Q", "K", "V", "index"] if self.kind == "single" else ["d", "AV", "Q", "K", "V", "index"]
        for q, (a, b) in enumerate(zip(st, want)):
            nm = f"{name}: {names[q]}"
            if not same_dims(vc, nm, a, b._dims):
                continue
            if names[q] in ("d", "AV"):
                at_every(vc, nm, b._dims, lambda ix: z3.Implies(N - (n - 1) + ix[1] >= 0, val(a, ix) == val(b, ix)))
            else:
                at_every(vc, nm, b._dims, lambda ix: val(a, ix) == val(b, ix))


def label_size2(a, b):
    return a * b


def history(vc, s):
    """fresh, or after N >= 1 tokens"""
    if vc.choose("history", ["none", "some"]) == "none":
        return z3.IntVal(0), None
    N = iterm(vc.int("N", 1))
    return N, s.state(N)


def step_unit(kind, layout, bias, separate, self_attention=False, training=False):
    def u(vc):
        s = Setup(vc, kind, layout, bias, separate, training)
        if self_attention:
            s.share()
        m, n = s.m, iterm(s.n)
        P = "C13" if kind == "retro" else "C14"
        N, st = history(vc, s)
        xq, xk, xv = s.frames(N)
        via = vc.choose("via", ["functional", "base"])
        f = Frame(vc, m, st[:0] if st else (), [xq, xk, xv])
        before = [(t, t._st, t._st.writes) for t in (st or ())]
        args = (xq,) if self_attention and via == "functional" else (xq, xk, xv)
        if via == "functional":
            r = m._forward_step(*args, prev_state=st)
        else:
            r = BASE._forward_step(m, *args, st)
        if not (isinstance(r, tuple) and len(r) == 2):
            return vc.fail("the functional step returns output and state", type(r).__name__)
        o, ns = r
        with vc.of(P + " C04 C06"):
            if vc.decide(N + 1 >= n):
                w = z3.simplify(N + 1 - n)
                if some(vc, "a full window has an output", o):
                    if kind == "retro":
                        if via == "base" or not s.bf:
                            dims, at = [s.n, s.B, s.E], 0
                        elif s.eds:
                            dims, at = [s.B, s.E, s.n], 2
                        else:
                            dims, at = [s.B, s.n, s.E], 1
                        values(vc, "each step yields every row of offline attention over the latest n tokens", o, dims, lambda ix: s.att(ix[at], w))
                    else:
                        row = z3.simplify(n - 1 - s.Nq)
                        dims = [1, s.B, s.E] if via == "base" else [s.B, s.E]
                        values(vc, "each step yields the chosen row of offline attention over the latest n tokens", o, dims, lambda ix: s.att(row, w))
            else:
                none(vc, "nothing is returned before n tokens have been seen", o)
            s.is_state("the new state is the one after the token", ns, N + 1)
        with vc.of("C05 C06"):
            bad = [t for t, stg, wr in before[:-1] if t._st is not stg or stg.writes != wr]
            vc.fail("the memories of the state passed are not written", "written in place") if bad else vc.ok("the memories of the state passed are not written")
            f.unchanged("the functional step leaves the module's own state alone")
        if via == "functional" and vc.choose("more", ["no", "lifecycle"]) == "lifecycle":
            with vc.of("C06"):
                none(vc, "a fresh module has no state", s.fresh)
                m.set_state(ns)
                got = m.get_state()
                ok = isinstance(got, (tuple, list)) and len(got) == len(ns) and all(a is b for a, b in zip(got, ns))
                vc.ok("a state that was set is returned") if ok else vc.fail("a state that was set is returned", "another state")
                m.clean_state()
                none(vc, "a cleaned module has no state", m.get_state())
                vc.ok("no state in the parameters") if not any(k in m.state_dict() for k in ("d_mem", "AV_mem", "Q_mem", "K_T_mem", "V_mem", "stride_index")) else vc.fail("no state in the parameters", str(list(m.state_dict())))
        with vc.of("C10"):
            vc.check("the receptive field is the window", iterm(m.receptive_field) == n)
            if kind == "retro":
                vc.check("the delay is the window less one", iterm(m.delay) == n - 1)
            else:
                vc.check("the delay is the distance of the chosen query from the newest token", iterm(m.delay) == s.Nq)

    return u


NOTE = ["torch.nn.MultiheadAttention computes out_proj(softmax(in_proj_q(x) in_proj_k(x)^T / sqrt(head_dim)) in_proj_v(x)) per head (axiom, pyvc/attention.py)", "real arithmetic: the retroactive recurrence is exact"]
for _kind, _fn, _p in (("retro", FN_RETRO, "C13"), ("single", FN_SINGLE, "C14")):
    for _lay in LAYOUTS:
        for _bias, _sep, _self in ((True, "", False), (False, "", True), (True, "kv", False), (False, "v", False)):
            if _lay != "NLE" and (_self or _sep == "v"):
                continue
            unit(f"{_p} C04 C05 C06 C10", f"{_kind} attention step {_lay}{' no bias' * (not _bias)}{' self-attention' * _self}{' kdim' * ('k' in _sep)}{' vdim' * ('v' in _sep)}", _fn, assume=NOTE)(step_unit(_kind, _lay, _bias, _sep, _self))


# =====================================================================  drivers, against the contract of an abstract step
class AttGhost(Ghost):
    """Abstract attention step: the three token streams, a state whose last element is updated in place, rows as output."""

    def __init__(self, vc, setup, alias):
        self.s = setup
        rows_ = setup.n if setup.kind == "retro" else 1
        super().__init__(vc, "step", None, [], [], alias=alias, odims=[rows_, setup.B, setup.E])
        self.slot = 1
        self._Y2 = z3.Function("step.Y", I, I, R)

    def Y(self, k):
        raise Unsupported("row-less output")

    def Yr(self, k, i):
        return self._Y2(z3.simplify(iterm(k)), z3.simplify(iterm(i)))

    def out(self, k):
        return new(self.odims, lambda ix: self.Yr(k, ix[0]))

    def step(self, mod, query, key=None, value=None, prev_state=None, *a, **kw):
        vc, s = self.vc, self.s
        if a or kw:
            raise Unsupported("step arguments")
        if mod is not s.m:
            raise Unsupported("step of another module")
        key, value = query if key is None else key, query if value is None else value
        self.calls += 1
        if prev_state is None:
            k = z3.IntVal(0)
        elif self.is_token(prev_state):
            k = intval(prev_state[1])
            vc.check("every step continues from an intact state", val(prev_state[0], [None]) == self.S(k))
        else:
            raise Unsupported(f"state of unexpected form {type(prev_state).__name__}")
        for nm, x, X, e in (("query", query, s.XQ, s.E), ("key", key, s.XK, s.Ek), ("value", value, s.XV, s.Ev)):
            if same_dims(vc, f"a step gets one {nm} token", x, [s.B, e]):
                vc.check(f"{nm} tokens are fed in order, each once", val(x, [None, None]) == X(k))
        self.lemma(k)
        self.last = self.out(k) if vc.decide(self.E(k)) else None
        return self.last, self.token(k + 1, prev_state[1] if prev_state is not None and self.alias else None)

    def install(self, m):
        put = m.__dict__.__setitem__
        put("get_state", lambda: self.stored)
        put("set_state", self.set_state)
        put("clean_state", lambda: self.set_state(None))
        return m


class AttRule(Rule):
    def __call__(self, loop):
        return _AttLoop(self, loop)


class _AttLoop(ghost_loop):
    def enter(self, loop):
        vc, g = self.vc, self.g
        inside = super().enter(loop)
        if self.what in ("next", "after"):
            g.mono(self.n0, self.n0 + iterm(self.k))
        if self.what == "after":
            last = self.n0 + iterm(self.k) - 1
            g.lemma(last)
            g.mono(self.n0, last)
            if not vc.decide(g.E(last)):
                for nm in self.g.memo.get(("last", loop.where), ()):
                    loop.values[nm] = None
        return inside

    def acc(self, v0, k):
        g = self.g
        s = SymSeq(segs=[])
        s = s + v0 if not isinstance(v0, SymSeq) else SymSeq(segs=list(v0.segs))
        g.mono(self.n0, self.n0 + k)
        c = g.cnt(self.n0)
        perm = self.g.memo.get(("perm", self.loop.where))
        if perm is None:
            raise Unsupported("layout of the collected outputs")
        view = lambda t: t.permute(*perm)
        return s + SymSeq(sint(g.cnt(self.n0 + k) - c), lambda i: view(g.out(g.sel(c + iterm(i)))))

    def roles(self, loop):
        self.loop = loop
        super().roles(loop)

    def check(self, loop, loc):
        vc, g = self.vc, self.g
        W = loop.where
        # what the body leaves in its temporaries when nothing came out
        nones = {nm for nm in loop.names if self.role.get(nm) == "temp" and loc.get(nm, g) is None}
        if self.what == "first":
            if g.last is None:
                self.g.memo[("last", W)] = self.g.memo.get(("last", W), nones) & nones
        elif g.last is None and not self.g.memo.get(("last", W), set()) <= nones:
            raise Unsupported("temporaries of the loop")
        # layout of what it collects
        accs = [nm for nm, r in self.role.items() if r == "acc"]
        if self.what == "first" and g.last is not None and len(accs) == 1 and ("perm", W) not in self.g.memo:
            v = loc[accs[0]]
            e = v[-1] if isinstance(v, list) and v else None
            if isinstance(e, SymTensor) and len(e._dims) == 3:
                from itertools import permutations

                for p in permutations(range(3)):
                    if all(dims_equal(e._dims[i], g.odims[p[i]]) for i in range(3)):
                        self.g.memo[("perm", W)] = p
                        break
        kk = iterm(self.k) + 1
        for nm, r in self.role.items():
            if nm not in loc and r != "temp":
                raise Unsupported("a loop variable disappeared")
            v = loc.get(nm)
            if r == "acc":
                want = self.acc(loop.entry[nm], kk)
                if not isinstance(v, (list, SymSeq)):
                    raise Unsupported(f"loop variable {nm} has unexpected form")
                g.mono(self.n0, self.n0 + iterm(self.k))
                vc.check("each iteration collects its output once", iterm(v.n if isinstance(v, SymSeq) else len(v)) == iterm(want.n))
                have = v if isinstance(v, SymSeq) else SymSeq(segs=[(1, lambda i, q=q: q) for q in v])
                perm = self.g.memo.get(("perm", W)) or (0, 1, 2)
                dims = [g.odims[i] for i in perm]
                j = vc.fresh("j")
                idx, h = generic_index(vc, dims, [j >= 0, j < iterm(want.n), j < iterm(have.n)])
                if have.segs and vc.sat(*h):
                    vc.solver.push()
                    npc = len(vc.pc)
                    try:
                        vc.add(z3.And(*h))
                        vc.check("outputs are collected in order", have.value(j, idx) == want.value(j, idx))
                    finally:
                        vc.solver.pop()
                        del vc.pc[npc:]
            elif r == "state":
                if not g.is_token(v):
                    raise Unsupported(f"loop variable {nm} has unexpected form")
                vc.check("each iteration leaves the state after its token", z3.And(intval(v[1]) == self.n0 + kk, val(v[0], [None]) == g.S(z3.simplify(self.n0 + kk))))
            elif r == "count":
                if not isinstance(v, (int, SInt)) or not vc.entails(iterm(v) == iterm(loop.entry[nm]) + kk):
                    raise Unsupported(f"no invariant for the loop variable {nm}")
            elif r == "same" and v is not loop.entry.get(nm):
                raise Unsupported(f"no invariant for the loop variable {nm}")



def driver_unit(kind, layout, many, self_attention=False, separate=""):
    memo = {}

    def u(vc):
        s = Setup(vc, kind, layout, True, separate)
        if self_attention:
            s.share()
        m = s.m
        g = AttGhost(vc, s, vc.choose("step", ["index in place", "new index"]) == "index in place")
        g.memo = memo
        g.install(m)
        old = BASE.__dict__["_forward_step"]
        BASE._forward_step = lambda self, *a, **k: g.step(self, *a, **k)
        try:
            drive(vc, s, g, m, kind, many, self_attention)
        finally:
            BASE._forward_step = old

    return u


def drive(vc, s, g, m, kind, many, self_attention):
    fresh = vc.choose("state", ["fresh", "running"]) == "fresh"
    N = z3.IntVal(0) if fresh else iterm(vc.int("N", 1))
    g.start(None if fresh else N)
    up = vc.choose("update_state", [True, False])
    tags = ("C13 " if kind == "retro" else "C14 ") + ("C04 C06" if up else "C05")
    if not many:
        xs = s.frames(N)[: 1 if self_attention else 3]
        o = m.forward_step(*xs, update_state=up)
        with vc.of(tags):
            if vc.decide(g.E(N)):
                if some(vc, "returns the output of the step", o):
                    if kind == "single":
                        values(vc, "returns the output of the step", o, [s.B, s.E], lambda ix: g.Yr(N, 0))
                    else:
                        dims, at = ([s.n, s.B, s.E], 0) if not s.bf else ([s.B, s.E, s.n], 2) if s.eds else ([s.B, s.n, s.E], 1)
                        values(vc, "returns the rows of the step in the layout of the module", o, dims, lambda ix: g.Yr(N, ix[at]))
            else:
                none(vc, "returns nothing when the step emits nothing", o)
            if up:
                g.holds("the stored state is the state after the token", N + 1)
    else:
        T = vc.int("T", 1)
        Tt = iterm(T)
        ti = 0 if not s.bf else 2 if s.eds else 1
        seq = lambda X, e: new([T, s.B, e] if ti == 0 else [s.B, T, e] if ti == 1 else [s.B, e, T], lambda ix: X(z3.simplify(N + ix[ti])))
        xs = [seq(s.XQ, s.E), seq(s.XK, s.Ek), seq(s.XV, s.Ev)][: 1 if self_attention else 3]
        vc.loop_rule = AttRule(g, N)
        o = m.forward_steps(*xs, update_state=up)
        end = N + Tt
        with vc.of(tags):
            g.mono(N, end)
            c = g.cnt(N)
            n_out = sint(z3.simplify(g.cnt(end) - c))
            if vc.decide(iterm(n_out) == 0):
                none(vc, "returns nothing when no step emits anything", o)
            elif some(vc, "returns the outputs of the steps", o):
                B_, E_ = s.B, s.E
                if kind == "single":
                    dims = [n_out, B_, E_] if not s.bf else [B_, E_, n_out] if s.eds else [B_, n_out, E_]
                    values(vc, "returns the outputs of the steps in order", o, dims, lambda ix: g.Yr(g.sel(c + iterm(ix[ti])), 0))
                else:
                    dims, a, r = ([n_out, s.n, B_, E_], 0, 1) if not s.bf else ([B_, E_, n_out, s.n], 2, 3) if s.eds else ([B_, n_out, s.n, E_], 1, 2)
                    values(vc, "returns the rows of the steps in order, in the layout of the module", o, dims, lambda ix: g.Yr(g.sel(c + iterm(ix[a])), ix[r]))
            if up:
                g.holds("the stored state is the state after the tokens", N + Tt)
    if not up:
        with vc.of(("C13 " if kind == "retro" else "C14 ") + "C05"):
            g.holds("the stored state is untouched", None if fresh else N)


FN_DRV = f"{MB_}MultiheadAttentionBase.forward_step {MB_}MultiheadAttentionBase.forward_steps {MB_}_clone_state "
for _kind, _cls, _p in (("retro", "retroactive_mha.RetroactiveMultiheadAttention", "C13"), ("single", "single_output_mha.SingleOutputMultiheadAttention", "C14")):
    _f = FN_DRV + f"continual.multihead_attention.{_cls}.forward_step continual.multihead_attention.{_cls}.forward_steps"
    for _lay in LAYOUTS:
        for _self in (False, True) if _lay == "NLE" else (False,):
            for _many in (False, True):
                unit(f"{_p} C04 C05 C06", f"{_kind} attention forward_step{'s' * _many} {_lay}{' self-attention' * _self}", _f, assume=NOTE)(driver_unit(_kind, _lay, _many, _self, "" if _self else "kv" if _lay == "NEL" else ""))


# =====================================================================  the whole-sequence mode
def offline_unit(kind, layout, bias, separate, self_attention=False):
    def u(vc):
        kw = {}
        if kind == "single":
            kw["single_output_forward"] = vc.choose("single_output_forward", [True, False])
        mask = kw["forward_returns_attn_mask"] = vc.choose("forward_returns_attn_mask", [True, False])
        s = Setup(vc, kind, layout, bias, separate, **kw)
        if self_attention:
            s.share()
        m, n = s.m, iterm(s.n)
        ti = 0 if not s.bf else 2 if s.eds else 1
        seq = lambda X, e: new([s.n, s.B, e] if ti == 0 else [s.B, s.n, e] if ti == 1 else [s.B, e, s.n], lambda ix: X(ix[ti]))
        xs = [seq(s.XQ, s.E), seq(s.XK, s.Ek), seq(s.XV, s.Ev)][: 1 if self_attention else 3]
        one = kind == "single" and kw["single_output_forward"]
        rows_ = 1 if one else s.n
        dims = [rows_, s.B, s.E] if ti == 0 else [s.B, rows_, s.E] if ti == 1 else [s.B, s.E, rows_]
        f = Frame(vc, m, (), xs)
        before = [(x._st, x._st.writes) for x in xs]
        o = m.forward(*xs)
        P = "C13" if kind == "retro" else "C14"
        with vc.of(P + " C06"):
            if mask:
                if not (isinstance(o, (tuple, list)) and len(o) == 2):
                    return vc.fail("forward returns output and attention weights", type(o).__name__)
                o = o[0]
            row = z3.simplify(n - 1 - s.Nq) if one else None
            values(vc, "the whole-sequence mode yields offline attention over the window", o, dims, lambda ix: s.att(row if one else ix[ti], z3.IntVal(0)))
        with vc.of("C06"):
            f.unchanged("forward leaves the module as it was")
            vc.ok("forward does not write its input") if all(st.writes == w for st, w in before) else vc.fail("forward does not write its input", "written in place")

    return u


for _kind, _cls, _p in (("retro", "", "C13"), ("single", " continual.multihead_attention.single_output_mha.SingleOutputMultiheadAttention.forward", "C14")):
    for _lay in LAYOUTS:
        for _bias, _sep, _self in ((True, "", False), (False, "", True), (True, "kv", False)):
            if _lay != "NLE" and _self:
                continue
            unit(f"{_p} C06", f"{_kind} attention forward {_lay}{' no bias' * (not _bias)}{' self-attention' * _self}{' kdim vdim' * bool(_sep)}", f"{MB_}MultiheadAttentionBase.forward{_cls}", assume=NOTE)(offline_unit(_kind, _lay, _bias, _sep, _self))
