"""C06: the state lifecycle of every module that keeps state.

For each class, over all sizes:
  a fresh module's first step, and a cleaned module's first step (whatever was streamed before, also with another batch size and other
  spatial sizes) give the same output and the same new state;
  get_state returns what set_state was given; the state is no part of the saved parameters;
  whole-sequence calls do not read the streaming state and leave it alone.
"""
from .lib import *  # noqa: F401,F403
from .conv import make as make_conv


def same_state(vc, name, a, b):
    """obligation: two states are equal"""
    la = [a] if isinstance(a, real_torch.Tensor) else a
    lb = [b] if isinstance(b, real_torch.Tensor) else b
    if la is None or lb is None:
        return vc.ok(name) if la is None and lb is None else vc.fail(name, f"{type(a).__name__} and {type(b).__name__}")
    if not (isinstance(la, (tuple, list)) and isinstance(lb, (tuple, list)) and len(la) == len(lb)):
        return vc.fail(name, f"{type(a).__name__} and {type(b).__name__}")
    for x, y in zip(la, lb):
        if isinstance(x, (tuple, list)) or isinstance(y, (tuple, list)):
            same_state(vc, name, x, y)
        elif not isinstance(x, real_torch.Tensor) or not isinstance(y, real_torch.Tensor):
            vc.fail(name, f"{type(x).__name__} and {type(y).__name__}") if type(x) is not type(y) or x is not y else vc.ok(name)
        else:
            equal(vc, name, x, y)


def same_output(vc, name, a, b):
    if a is None or b is None:
        return vc.ok(name) if a is None and b is None else vc.fail(name, f"{type(a).__name__} and {type(b).__name__}")
    equal(vc, name, a, b)


def copy_state(s):
    """values of a state before somebody writes into it"""
    if s is None:
        return None
    if isinstance(s, real_torch.Tensor):
        return s.clone()
    return tuple(copy_state(t) for t in s)


class Case:
    """a module, its streams of frames and whole sequences; `which` picks one of two unrelated streams of different sizes"""

    saved = None  # names in the state dict, if they are not the parameters

    def frame(self, which, t):
        raise NotImplementedError

    def seq(self, which):
        raise NotImplementedError


def lifecycle(build):
    def u(vc):
        c = build(vc)
        m = c.m
        keys = set(c.saved if c.saved is not None else [n for n, _ in m.named_parameters()])

        def saved(name):
            have = set(m.state_dict().keys())
            vc.ok(name) if have == keys else vc.fail(name, f"{sorted(have ^ keys)}")

        with vc.of("C06 C19"):
            saved("the saved parameters of a fresh module are its parameters")
        fresh = m.get_state()
        what = vc.choose("what", ["clean", "restore", "offline"])
        if what == "clean":
            # the reference: the first two steps of the second stream on the fresh module
            o1, s1 = m._forward_step(*c.frame("b", 0), prev_state=fresh)
            s1 = copy_state(s1)
            with vc.of("C06"):
                same_state(vc, "the functional step leaves a fresh module fresh", m.get_state(), fresh)
            # use it on the first stream
            n = vc.choose("steps before", [1, 2])
            for t in range(n):
                m.forward_step(*c.frame("a", t))
            with vc.of("C06 C19"):
                saved("the saved parameters of a module in use are its parameters")
            m.clean_state()
            with vc.of("C06"):
                same_state(vc, "a cleaned module has the state of a fresh one", m.get_state(), fresh)
            how = vc.choose("then", ["functional", "stateful"])
            if how == "functional":
                o2, s2 = m._forward_step(*c.frame("b", 0), prev_state=m.get_state())
            else:
                o2 = m.forward_step(*c.frame("b", 0))
                s2 = m.get_state()
            with vc.of("C06"):
                same_output(vc, "the first step after cleaning is the first step of a fresh module", o2, o1)
                same_state(vc, "the state after the first step after cleaning is that of a fresh module", s2, s1)
        elif what == "restore":
            o, s = m._forward_step(*c.frame("a", 0), prev_state=fresh)
            if c.keeps(s):
                m.set_state(s)
                want = copy_state(s)
                got = m.get_state()
                with vc.of("C06"):
                    same_state(vc, "get_state returns the state that was set", got, want)
                # a step after setting a snapshot is the functional step from the snapshot
                o1, s1 = m._forward_step(*c.frame("a", 1), prev_state=copy_state(want))
                o2 = m.forward_step(*c.frame("a", 1))
                with vc.of("C06"):
                    same_output(vc, "a step after setting a state continues from it", o2, o1)
                    same_state(vc, "the state after a step is the functional step's", m.get_state(), s1)
                    saved("the saved parameters of a restored module are its parameters")
        else:
            y0 = m.forward(*c.seq("b"))
            y0 = copy_state(y0)
            with vc.of("C06"):
                same_state(vc, "a whole-sequence call leaves a fresh module fresh", m.get_state(), fresh) if not c.offline_moves else None
            m.forward_step(*c.frame("a", 0))
            st = copy_state(m.get_state())
            fr = Frame(vc, m, None, c.seq("b"))
            y1 = m.forward(*c.seq("b"))
            with vc.of("C06"):
                if not c.offline_moves:
                    same_state(vc, "a whole-sequence call leaves the streaming state alone", m.get_state(), st)
                    fr.unchanged("a whole-sequence call leaves the module alone")
                    same_state(vc, "a whole-sequence call does not read the streaming state", y1, y0)

    return u


class Frames(Case):
    """one input stream of frames (B, C, *S), with two unrelated sizes"""

    offline_moves = False

    def __init__(self, vc, m, ch, n, T=None, saved=None):
        self.vc, self.m, self.saved = vc, m, saved
        self.s = {}
        for w in "ab":
            lead, rest = [vc.label(f"B{w}")] + list(ch), [vc.label(f"S{w}{q}") for q in range(n - 1)]
            self.s[w] = Stream(vc, f"X{w}", lead, rest)
        self.T = T if T is not None else vc.int("T", 1)

    def frame(self, which, t):
        return (self.s[which].frame(t),)

    def seq(self, which):
        return (self.s[which].seq(self.T),)

    def keeps(self, s):
        return s is not None


def conv(n, fill, groups=False):
    def b(vc):
        m, lead, rest, cout, k, s, p, _ = make_conv(vc, n, fill=fill, groups=groups)
        T = vc.int("T", 1)
        vc.assume(iterm(T) + 2 * iterm(p) >= iterm(k))
        return Frames(vc, m, [lead[1]], n, T)

    return b


def pool(kind, n, adaptive, dil, fill):
    def b(vc):
        k, s, p = vc.int("k", 1), vc.int("s", 1), vc.int("p", 0)
        d = vc.int("d", 2) if dil else 1
        cls = getattr(co, f"{'Adaptive' if adaptive else ''}{kind.capitalize()}Pool{n}d")
        sp = [vc.int(f"{a}{q}", 0 if a == "sp" else 1) for q in range(n - 1) for a in ("sk", "ss", "sp")]
        if adaptive:
            m = cls((1, *[vc.label(f"O{q}") for q in range(n - 1)]), k, s, p, d, fill)
        else:
            m = cls((k, *sp[0::3]), stride=(s, *sp[1::3]), padding=(p, *sp[2::3]), dilation=(d,) + (1,) * (n - 1), temporal_fill=fill)
        kt, pt, dt = iterm(k), iterm(p), iterm(d)
        vc.assume(z3.And(2 * pt <= kt))
        T = vc.int("T", 1)
        c = Frames(vc, m, [vc.label("C")], n, T)
        vc.assume(iterm(T) + 2 * pt >= dt * (kt - 1) + 1)
        return c

    return b


def delay(cls, shrink, fill):
    def b(vc):
        from continual import transformer

        klass = getattr(co, cls, None) or getattr(transformer, cls)
        d = vc.int("d", 1)
        m = klass(d, temporal_fill=fill, time_dim=2) if cls == "RetroactiveUnity" else klass(d, temporal_fill=fill, auto_shrink=shrink)
        T = vc.int("T", 1)
        vc.assume(iterm(T) > 2 * iterm(d))
        return Frames(vc, m, [vc.label("C")], 2, T)

    return b


def skip(vc):
    d = vc.int("d", 1)
    T = vc.int("T", 1)
    vc.assume(iterm(T) > iterm(d))
    return Frames(vc, co.Skip(d), [vc.label("C")], 2, T)


def cases(spec, n):
    return lambda cex, prop: spec_cases(prop, spec, n, 5)


L_ = "get_state set_state clean_state init_state"
for _n in (1, 2, 3):
    for _f in ("zeros", "replicate"):
        unit("C06 C19", f"lifecycle Conv{_n}d {_f}", " ".join(f"continual.conv._ConvCoNd.{q}" for q in (L_ + " forward _forward_step").split()), replay=cases(dict(k="conv", n=_n, ci=2, co=2, ks=[3] + [2] * (_n - 1), s=[2] + [1] * (_n - 1), p=[1] + [0] * (_n - 1)), _n))(lifecycle(conv(_n, _f)))
for _n, _k, _a, _d, _f in [(1, "avg", False, False, "zeros"), (1, "max", False, True, "neg_inf"), (2, "avg", False, True, "replicate"), (2, "max", False, False, "replicate"), (3, "avg", False, False, "zeros"), (3, "max", False, True, "neg_inf"),
                            (2, "avg", True, False, "zeros"), (2, "max", True, False, "neg_inf"), (3, "avg", True, False, "replicate"), (3, "max", True, False, "neg_inf")]:
    unit("C06 C19", f"lifecycle {'Adaptive' if _a else ''}{_k.capitalize()}Pool{_n}d{' dilated' * _d} {_f}", " ".join(f"continual.pooling._PoolNd.{q}" for q in (L_ + " _forward_step").split()), replay=cases(dict(k=_k, n=_n, ks=[3] + [2] * (_n - 1), s=[2] + [1] * (_n - 1), p=[1] + [0] * (_n - 1), d=2 if _d else 1), _n))(lifecycle(pool(_k, _n, _a, _d, _f)))
for _c, _s, _f in [("Delay", False, "zeros"), ("Delay", False, "replicate"), ("Delay", True, "zeros"), ("Delay", "lagging", "replicate"), ("SelectOrDelay", False, "zeros"), ("RetroactiveUnity", False, "zeros")]:
    unit("C06 C19", f"lifecycle {_c} auto_shrink={_s} {_f}", " ".join(f"continual.delay.Delay.{q}" for q in (L_ + " forward").split()) + (" continual.transformer.RetroactiveUnity.init_state" if _c == "RetroactiveUnity" else "") + (" continual.transformer.SelectOrDelay.forward" if _c == "SelectOrDelay" else ""), replay=cases(dict(k="delay", d=2), 2))(lifecycle(delay(_c, _s, _f)))
unit("C06 C19", "lifecycle Skip", " ".join(f"continual.skip.Skip.{q}" for q in "get_state set_state clean_state forward".split()))(lifecycle(skip))
