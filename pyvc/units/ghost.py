"""An abstract continual step, known only by its contract, and the loop invariant of code that drives it.

Contract of one step, for a stream whose k-th frame has value frame(k):
  requires  the state is the intact state after k frames (first element holds S(k), the rest says k), or None and k = 0,
            and the frame passed is frame k;
  ensures   the result is Y(k) if E(k) and None otherwise, and the new state is the state after k + 1 frames;
  writes    at most the first element of the state passed (the variant `same buffer` updates it in place and returns it).
"""
from .lib import *  # noqa: F401,F403


class Ghost:
    def __init__(self, vc, name, frame, lead, rest, stateless=False, alias=True, odims=None):
        self.vc, self.name, self.frame = vc, name, frame
        self.lead, self.rest = list(lead), list(rest)
        self.odims = list(odims) if odims is not None else self.lead + self.rest
        self.stateless, self.alias = stateless, alias
        f = lambda n, *s: z3.Function(f"{name}.{n}", *s)
        self._E, self._cnt, self._sel, self._Y, self.S = f("E", I, B), f("cnt", I, I), f("sel", I, I), f("Y", I, R), f("S", I, R)
        self._g = f("g", R, R)
        self.label = vc.label(f"{name}.state")
        self.stored = None
        self.calls = 0
        self.slot = 0  # the state element a step may update in place

    # ---- the stream of outputs
    def E(self, k):
        return z3.BoolVal(True) if self.stateless else self._E(iterm(k))

    def cnt(self, k):
        return iterm(k) if self.stateless else self._cnt(z3.simplify(iterm(k)))

    def sel(self, m):
        return m if self.stateless else self._sel(z3.simplify(m))

    def Y(self, k):
        return self._g(self.frame(k)) if self.stateless else self._Y(z3.simplify(iterm(k)))

    def out(self, k):
        v = self.Y(k)
        return new(self.odims, lambda ix: v)

    def lemma(self, k):
        """definition of the counting functions at step k"""
        if not self.stateless:
            k = iterm(k)
            self.vc.add(self.cnt(k + 1) == self.cnt(k) + z3.If(self.E(k), 1, 0))
            self.vc.add(z3.Implies(self.E(k), self.sel(self.cnt(k)) == k))

    def mono(self, a, b):
        if not self.stateless:
            a, b = iterm(a), iterm(b)
            self.vc.add(z3.Implies(a <= b, z3.And(self.cnt(a) <= self.cnt(b), self.cnt(b) - self.cnt(a) <= b - a)))

    def emitted(self, a, b):
        """the list of outputs of steps a .. b-1"""
        self.mono(a, b)
        c = self.cnt(a)
        return SymSeq(sint(self.cnt(b) - c), lambda i: self.out(self.sel(c + iterm(i))))

    # ---- state
    def token(self, k, into=None):
        k = z3.simplify(iterm(k))
        v = self.S(k)
        tok = [new([self.label], lambda ix: v), scalar(k)]
        if into is not None:
            into._assign((lambda ix: v) if self.slot == 0 else (lambda ix: k))
            tok[self.slot] = into
        return tuple(tok)

    def is_token(self, s):
        return isinstance(s, (tuple, list)) and len(s) == 2 and isinstance(s[0], SymTensor) and isinstance(s[1], SymTensor) and not s[1]._dims

    def step(self, x, state=None):
        vc = self.vc
        self.calls += 1
        if self.stateless:
            if not isinstance(x, SymTensor):
                raise Unsupported("step called with something else than a tensor")
            v = self._g(val(x, [None] * len(x._dims)))
            return new(self.odims, lambda ix: v), None
        if state is None:
            k = z3.IntVal(0)
        elif self.is_token(state):
            k = intval(state[1])
            vc.check("every step continues from an intact state", val(state[0], [None]) == self.S(k))
        else:
            raise Unsupported(f"state of unexpected form {type(state).__name__}")
        if same_dims(vc, "a step gets one frame", x, self.lead + self.rest):
            vc.check("frames are fed in order, each once", val(x, [None] * len(x._dims)) == self.frame(k))
        self.lemma(k)
        o = self.out(k) if vc.decide(self.E(k)) else None
        return o, self.token(k + 1, state[self.slot] if state is not None and self.alias else None)

    # ---- installed on a module instance
    def install(self, m):
        put = m.__dict__.__setitem__
        put("_forward_step", self.step)
        put("get_state", lambda: self.stored)
        put("set_state", self.set_state)
        put("clean_state", lambda: self.set_state(None))
        return m

    def set_state(self, s):
        self.stored = s

    def start(self, N):
        """module after N frames (None: fresh); returns what kept() needs"""
        self.stored = None if N is None or self.stateless else self.token(N)
        self.saved = self.stored
        return self.stored

    def holds(self, name, N, tags=None):
        """obligation: the stored state is the intact state after N frames"""
        vc = self.vc
        if self.stateless:
            return vc.ok(name) if self.stored is None else vc.fail(name, "a state appeared")
        if N is None:
            return vc.ok(name) if self.stored is None else vc.fail(name, "a state was stored")
        if not self.is_token(self.stored):
            return vc.fail(name, f"stored state is {type(self.stored).__name__}")
        vc.check(name, z3.And(intval(self.stored[1]) == iterm(N), val(self.stored[0], [None]) == self.S(z3.simplify(iterm(N)))))


class Rule:
    """loop invariant of a loop that feeds consecutive frames to one abstract step: after k iterations every state variable holds
    the state after n0 + k frames and every list has been extended by the outputs of steps n0 .. n0 + k - 1"""

    def __init__(self, ghost, base):
        self.g, self.base = ghost, iterm(base)

    def __call__(self, loop):
        return _Loop(self, loop)


class _Loop:
    def __init__(self, rule, loop):
        self.r, self.g, self.vc = rule, rule.g, rule.g.vc

    def roles(self, loop):
        g = self.g
        self.role = {}
        for n, v in loop.entry.items():  # lists are extended in place
            if isinstance(v, list):
                loop.entry[n] = list(v)
            elif isinstance(v, SymSeq):
                loop.entry[n] = SymSeq(segs=list(v.segs))
        for n in loop.names:
            v = loop.entry.get(n, _Loop)
            if n not in loop.live:
                self.role[n] = "temp"
                loop.temps.add(n)
            elif v is None or g.is_token(v):
                self.role[n] = "state"
            elif isinstance(v, (list, SymSeq)):
                self.role[n] = "acc"
            elif isinstance(v, (int, SInt)) and not isinstance(v, bool):
                self.role[n] = "count"
            else:
                self.role[n] = "same"
        toks = [loop.entry[n] for n, r in self.role.items() if r == "state"]
        tok = [t for t in toks if t is not None]
        self.n0 = intval(tok[0][1]) if tok else (self.r.base if g.stateless else z3.IntVal(0))
        self.first = tok[0][g.slot] if tok else None

    def enter(self, loop):
        vc, g = self.vc, self.g
        self.roles(loop)
        n = iterm(loop.s.n)
        self.n = n
        what = vc.choose(f"loop {loop.where}", ["none", "first", "next", "after"])
        self.what = what
        if what == "none":
            vc.assume(n == 0)
            self.r.base = self.r.base + n
            return False
        if what == "first":
            vc.assume(n >= 1)
            self.k = 0
            return True
        if what == "next":
            k = vc.fresh("k")
            vc.assume(z3.And(k >= 1, k < n))
        else:
            k = n
            vc.assume(n >= 1)
        self.k = sint(k)
        tok = None if g.stateless else g.token(self.n0 + k, self.first if g.alias else None)
        for nm, r in self.role.items():
            if r == "state":
                loop.values[nm] = tok
            elif r == "acc":
                loop.values[nm] = self.acc(loop.entry[nm], k)
            elif r == "count":
                loop.values[nm] = loop.entry[nm] + self.k
        if what == "after":
            self.r.base = self.r.base + n
        return what == "next"

    def acc(self, v0, k):
        s = SymSeq(segs=[])
        s = s + v0 if not isinstance(v0, SymSeq) else SymSeq(segs=list(v0.segs))
        return s + self.g.emitted(self.n0, self.n0 + k)

    def check(self, loop, loc):
        vc, g = self.vc, self.g
        kk = iterm(self.k) + 1
        for nm, r in self.role.items():
            if nm not in loc and r != "temp":
                raise Unsupported("a loop variable disappeared")
            v = loc.get(nm)
            if r == "state":
                if g.stateless:
                    vc.ok("the loop keeps the state") if v is None else vc.fail("the loop keeps the state", "a state appeared")
                elif not g.is_token(v):
                    raise Unsupported(f"loop variable {nm} has unexpected form")
                else:
                    vc.check("each iteration leaves the state after its frame", z3.And(intval(v[1]) == self.n0 + kk, val(v[0], [None]) == g.S(z3.simplify(self.n0 + kk))))
            elif r == "acc":
                want = self.acc(loop.entry[nm], kk)
                if not isinstance(v, (list, SymSeq)):
                    raise Unsupported(f"loop variable {nm} has unexpected form")
                g.mono(self.n0, self.n0 + iterm(self.k))
                vc.check("each iteration collects its output once", iterm(v.n if isinstance(v, SymSeq) else len(v)) == iterm(want.n))
                have = v if isinstance(v, SymSeq) else SymSeq(segs=[(1, lambda i, q=q: q) for q in v])
                j = vc.fresh("j")
                if have.segs and vc.sat(j >= 0, j < iterm(want.n), j < iterm(have.n)):
                    vc.solver.push()
                    npc = len(vc.pc)
                    try:
                        vc.add(z3.And(j >= 0, j < iterm(want.n), j < iterm(have.n)))
                        for q in have.segs:
                            if isinstance(q[0], int) and q[0] == 1 and not isinstance(q[1](0), SymTensor):
                                raise Unsupported(f"elements of {nm} have unexpected form")
                        ix = [None] * len(g.odims)
                        vc.check("outputs are collected in order", have.value(j, ix) == want.value(j, ix))
                    finally:
                        vc.solver.pop()
                        del vc.pc[npc:]
            elif r == "count":
                if not isinstance(v, (int, SInt)) or not vc.entails(iterm(v) == iterm(loop.entry[nm]) + kk):
                    raise Unsupported(f"no invariant for the loop variable {nm}")
            elif r == "same":
                if v is not loop.entry.get(nm):
                    raise Unsupported(f"no invariant for the loop variable {nm}")
