"""C07/C08/C09: containers with any number of parts.

The real container object is built by the real constructor and then shows a symbolic sequence of n parts (n >= 1 arbitrary)
instead of the parts it was built with.  Part i is abstract (the module contract of parts.py); loops over the parts are
verified with an invariant: the first iteration, an arbitrary later one, and the code after the loop.

Invariant of the loop over the parts of a chain, after k parts: either all of the first k parts have been run, in order and
once each, and emitted, and the chained value is the output of part k - 1; or some part f < k emitted nothing, exactly the
parts up to f have been run, and the chained value is None (this second form is used only where some iteration establishes it).
Invariant of a loop over branches: the first k branches have been run, once each, and every list holds one entry per branch run.
"""
from collections import OrderedDict

import loader

from .parts import *  # noqa: F401,F403
from .parts import RecPart
from .sequential import identity

C = co.container


class IxOp(Op):
    """part number i of a sequence of parts"""

    def __init__(self, w, i):
        super().__init__(w.vc, "part")
        self.w, self.i = w, z3.simplify(iterm(i))
        self._Ei, self._ci, self._Gi, self._Wi, self._Si = w.E, w.cnt, w.G, w.W, w.S

    def F(self, m):
        return self._Gi(z3.simplify(self.i + 1), z3.simplify(iterm(m)))

    def W(self, t):
        return self._Wi(z3.simplify(self.i + 1), z3.simplify(iterm(t)))

    def E(self, k):
        return self._Ei(self.i, z3.simplify(iterm(k)))

    def cnt(self, k):
        return self._ci(self.i, z3.simplify(iterm(k)))

    def S(self, k):
        return self._Si(self.i, z3.simplify(iterm(k)))

    def __setattr__(self, n, v):
        if n != "S":
            object.__setattr__(self, n, v)


class World:
    """n parts, chained (a sequence) or side by side (branches)"""

    def __init__(self, vc, n, chained, fresh, lead, rest, many=False):
        self.vc, self.n, self.chained, self.fresh, self.many = vc, n, chained, fresh, many
        self.B, self.nrest = lead[0], len(rest)
        f = z3.Function
        self.E, self.cnt, self.G, self.W, self.S = f("E", I, I, B), f("cnt", I, I, I), f("G", I, I, R), f("W", I, I, R), f("S", I, I, R)
        self.X, self.XW = f("X", I, I, R), f("XW", I, I, R)
        self.pos0, self.T, self.L, self.LO = f("pos0", I, I), f("T", I, I), f("L", I, I), f("LO", I, I)
        self.PR = f("present", I, B)
        self.IN = f("IN", I, B)
        self.ops, self.parts = {}, {}
        vc.caches += [self.ops, self.parts]
        self.A = z3.IntVal(0)  # number of parts run
        self.dead = False  # the last one that was run emitted nothing
        self.kind = None  # "step", "steps", "forward", "padded", "functional", "clean"
        self.last = None
        self.all_emit = self.gaps = False

    # positions and values
    def pos(self, i):
        if self.fresh:
            return z3.IntVal(0)
        if not self.chained and not self.many:
            return self.N
        p = self.pos0(z3.simplify(iterm(i)))
        if self.chained:
            self.vc.add(self.pos0(0) == self.N)
        self.vc.add(p >= 0)
        return p

    def present(self, i):
        """does branch i get an input"""
        return self.PR(z3.simplify(iterm(i))) if self.many and self.gaps else z3.BoolVal(True)

    def frames(self, i):
        """number of frames fed in a multi-step call"""
        if self.chained:
            return self.T(z3.simplify(iterm(i)))
        t = self.T(z3.simplify(iterm(i)) if self.many else 0)
        self.vc.add(t >= 1)
        return t

    def dims(self, i):
        """labels of the frames fed to part i"""
        if not self.chained:
            i = z3.IntVal(0) if not self.many else i
        s = z3.simplify(iterm(i)).sexpr()
        return [self.B, self.vc.label(f"C[{s}]")], [self.vc.label(f"S{q}[{s}]") for q in range(self.nrest)]

    def odims(self, i):
        if self.chained:
            return self.dims(z3.simplify(iterm(i) + 1))
        s = z3.simplify(iterm(i)).sexpr()
        return [self.B, self.vc.label(f"Co[{s}]")], [self.vc.label(f"So{q}[{s}]") for q in range(self.nrest)]

    def frame(self, i):
        """the input stream of part i"""
        i = z3.simplify(iterm(i))
        if self.chained:
            return lambda k: self.G(i, z3.simplify(iterm(k)))
        j = i if self.many else z3.IntVal(0)
        return lambda k: self.X(j, z3.simplify(iterm(k)))

    def whole(self, i):
        i = z3.simplify(iterm(i))
        if self.chained:
            return lambda t: self.W(i, z3.simplify(iterm(t)))
        j = i if self.many else z3.IntVal(0)
        return lambda t: self.XW(j, z3.simplify(iterm(t)))

    def length(self, i):
        i = z3.simplify(iterm(i)) if self.chained or self.many else z3.IntVal(0)
        self.vc.add(self.L(i) >= 1)
        return sint(self.L(i))

    def out_length(self, i):
        if self.chained:
            return self.length(z3.simplify(i + 1))
        self.vc.add(self.LO(i) >= 1)
        return sint(self.LO(i))

    def op(self, i):
        i = z3.simplify(iterm(i))
        key = i.sexpr()
        if key not in self.ops:
            o = IxOp(self, i)
            lead, rest = self.dims(i)
            ol, orr = self.odims(i)
            olen = self.out_length(i)
            o.feed(self.frame(i), lead, rest, self.whole(i), self.length(i), ol, orr, olen)
            o.k = self.pos(i)
            o.lemma(0)
            o.lemma(o.k)
            if self.chained:  # the parts are in step with each other
                self.vc.add(self.pos(i + 1) == o.cnt(o.k))
                if self.kind == "steps":
                    self.link(i, o)
            self.ops[key] = o
            if self.all_emit:
                self.vc.add(self.emits(i))
        return self.ops[key]

    def link(self, i, o):
        t = self.T(i)
        o.mono(o.k, o.k + t)
        o.mono(0, o.k)
        self.vc.add(t >= 0)
        self.vc.add(self.T(z3.simplify(i + 1)) == o.cnt(o.k + t) - o.cnt(o.k))

    def part(self, i):
        key = z3.simplify(iterm(i)).sexpr()
        if key not in self.parts:
            o = self.op(i)
            rec = self.kind == "forward" and self.vc.choose(f"part {key} is", ["plain", "recurrent"]) == "recurrent"
            self.parts[key] = (GRec if rec else GPart)(o)
            self.parts[key].own = self.parts[key]._call_mode
        return self.parts[key]

    def called(self, o):
        self.vc.effect("a part is run")
        if self.dead and self.chained:
            self.vc.fail("a part is not run after one that emitted nothing", "it was")
            raise PathEnd()
        if not self.vc.entails(o.i == self.A):
            raise Unsupported("parts run out of order, or repeatedly")
        self.A = z3.simplify(self.A + 1)
        self.last = o.i

    def value(self, i):
        """what part i is fed in this mode"""
        i = z3.simplify(iterm(i))
        lead, rest = self.dims(i)
        a, p = len(lead), self.pos(i)
        fr, wh = self.frame(i), self.whole(i)
        if self.kind in ("step", "functional"):
            return lead + rest, lambda ix: fr(p)
        if self.kind == "steps":
            return lead + [sint(self.frames(i))] + rest, lambda ix: fr(p + iterm(ix[a]))
        return lead + [self.length(i)] + rest, lambda ix: wh(ix[a])

    def output(self, i):
        """what part i gives out in this mode, if it emits"""
        i = z3.simplify(iterm(i))
        if self.chained:
            return self.value(i + 1)
        o = self.op(i)
        a, p = len(o.olead), self.pos(i)
        if self.kind in ("step", "functional"):
            return o.olead + o.orest, lambda ix: o.F(o.cnt(p))
        if self.kind == "steps":
            t = self.frames(i)
            n = z3.simplify(o.cnt(p + t) - o.cnt(p))
            return o.olead + [sint(n)] + o.orest, lambda ix: o.F(o.cnt(p) + iterm(ix[a]))
        return o.olead + [o.olen] + o.orest, lambda ix: o.W(ix[a])

    def emits(self, i):
        o = self.op(i)
        p = self.pos(i)
        if self.kind in ("step", "functional"):
            return o.E(p)
        if self.kind == "steps":
            t = self.frames(i)
            o.mono(p, p + t)
            return z3.Not(o.cnt(p + t) == o.cnt(p))
        return z3.BoolVal(True)

    def after(self, i):
        """position of part i after it was run"""
        p = self.pos(i)
        if self.many and self.gaps and not self.vc.decide(self.present(i)):
            return p
        if self.kind == "step":
            return z3.simplify(p + 1) if self.up else p
        if self.kind == "steps":
            return z3.simplify(p + self.frames(i)) if self.up else p
        if self.kind == "padded":
            return z3.simplify(iterm(self.length(i))) if self.up else p
        return z3.IntVal(0) if self.kind == "clean" else p


class GPart(Part):
    """a part that reports being run; for branches its emission and stream may be decided by its position"""

    def _run(self):
        self.op.w.called(self.op)

    def _note(self, o):
        if o is None:
            self.op.w.dead = True
        return o

    def forward_step(self, input, update_state=True):
        self._run()
        return self._note(Part.forward_step(self, input, update_state))

    def forward_steps(self, input, pad_end=False, update_state=True):
        self._run()
        return self._note(Part.forward_steps(self, input, pad_end, update_state))

    def forward(self, input):
        self._run()
        return Part.forward(self, input)

    def _forward_step(self, input, prev_state=None):
        self._run()
        o, s = Part._forward_step(self, input, prev_state)
        return self._note(o), s

    def clean_state(self):
        self._run()
        Part.clean_state(self)


class GRec(RecPart, GPart):
    def forward(self, input, hx=None):
        return GPart.forward(self, input), "the hidden state"


class Dead(Part):
    """a part the container was built with; it must not be run any more"""

    def __init__(self, vc, i):
        op = Op(vc, f"unused{i}", 0, 1)
        super().__init__(op)

    def _no(self, *a, **k):
        raise Unsupported("the container keeps its parts elsewhere")

    forward = forward_step = forward_steps = _forward_step = clean_state = _no


class SymModules:
    """the dictionary of submodules of a container of n parts"""

    def __init__(self, seq):
        self.__dict__["seq"] = seq

    def __contains__(self, k):
        return False

    def values(self):
        return self.seq

    def __getattr__(self, n):
        raise Unsupported(f"{n} of the submodules of a container of any size")

    __iter__ = __len__ = __getitem__ = items = keys = lambda self, *a: self.__getattr__("access")


def _refuse(self, *a, **k):
    raise Unsupported("access to the submodules of a container of any size")


def grow(m, seq):
    """turn the container m into one that shows the parts `seq`"""
    cls = type(m)
    m.__class__ = type(cls.__name__, (cls,), dict(_vc_is_seq=True, __len__=_refuse, __iter__=_refuse, __getitem__=lambda s, i: seq[i], children=lambda s: seq, modules=_refuse, named_modules=_refuse, named_children=_refuse, parameters=_refuse, apply=_refuse, __module__=cls.__module__))
    m.__dict__["_vc_seq"] = seq
    m.__dict__["_modules"] = SymModules(seq)
    return m


# ---------------------------------------------------------------- the loop rule
class Rule:
    """invariant of a loop over the parts; `known` collects across paths what the iterations establish"""

    def __init__(self, w, known, given=None, specs=()):
        self.w, self.known, self.given, self.specs = w, known, given, list(specs)

    def __call__(self, loop):
        return _L(self, loop)


class _L:
    def __init__(self, rule, loop):
        self.r, self.w, self.vc = rule, rule.w, rule.w.vc

    def roles(self, loop):
        w = self.w
        self.role = {}
        for n, v in loop.entry.items():
            if isinstance(v, list):
                loop.entry[n] = list(v)
            elif isinstance(v, SymSeq):
                loop.entry[n] = v.copy()
        for n in loop.names:
            v = loop.entry.get(n, _L)
            if n not in loop.live:
                self.role[n] = "temp"
                loop.temps.add(n)
            elif isinstance(v, SymTensor) and w.chained and v is self.r.given:
                self.role[n] = "chain"
            elif isinstance(v, list) and not v or isinstance(v, SymSeq) and isinstance(v.n, int) and v.n == 0:
                self.role[n] = "acc"
            elif isinstance(v, SymSeq) and self.vc.entails(iterm(v.n) == iterm(w.n)):
                self.role[n] = "slots"
            elif isinstance(v, (int, SInt)) and not isinstance(v, bool):
                self.role[n] = "number"
            else:
                self.role[n] = "same"

    def note(self, n):
        return self.r.known.setdefault((self.where, n), set())

    def enter(self, loop):
        vc, w = self.vc, self.w
        self.where = loop.where
        self.roles(loop)
        if not (z3.is_int_value(w.A) and w.A.as_long() == 0):
            raise Unsupported("parts were run before the loop over them")
        n = self.n = iterm(loop.s.n)
        if not vc.entails(n == iterm(w.n)) and any(r in ("chain", "slots") for r in self.role.values()):
            raise Unsupported("a loop over some of the parts")
        what = self.what = vc.choose(f"loop {loop.where}", ["none", "first", "next", "after"])
        if what == "none":
            vc.assume(n == 0)
            return False
        vc.assume(n >= 1)
        self.alive = True
        if what == "first":
            self.k = 0
            for nm, r in self.role.items():
                if r == "number":
                    self.start_number(nm, loop.entry[nm])
            return True
        k = n
        if what == "next":
            k = vc.fresh("k")
            vc.assume(z3.And(k >= 1, k < n))
        self.k = sint(k)
        ran = self.note("#ran")
        if w.chained and vc.choose("so far", ["all emitted", "one did not"]) == "one did not":
            if "dead" not in ran:
                raise PathEnd()
            self.alive = False
            f = vc.fresh("f")
            vc.assume(z3.And(f >= 0, f < k))
            w.dead, self.f = True, f
            w.A = z3.simplify(f + 1)
        elif "run" in ran:
            w.A = iterm(k)
            if w.chained and w.kind == "steps":
                w.op(k - 1)
                vc.add(w.T(z3.simplify(k)) >= 1)
        if w.chained and self.alive:
            vc.add(w.emits(z3.simplify(k - 1)))
        elif w.chained and "run" in ran:
            vc.add(z3.Not(w.emits(self.f)))
        for nm, r in self.role.items():
            if r == "chain":
                loop.values[nm] = new(*w.value(k)) if self.alive else None
            elif r == "acc":
                loop.values[nm] = self.acc(nm, k)
            elif r == "slots":
                loop.values[nm] = self.slots(nm, loop.entry[nm], k)
            elif r == "number":
                v = self.number(nm, loop.entry[nm], k)
                if v is None:
                    raise Unsupported(f"no invariant for the loop variable {nm}")
                loop.values[nm] = v
        return what == "next"

    # ---- lists
    def upto(self, k):
        return iterm(k) if self.alive else z3.simplify(self.f + 1)

    def elem(self, kinds, j):
        """entry of part j in a list that is filled part by part"""
        w = self.w
        if kinds == {"pair"}:
            return self.elem({"out"}, j), self.elem({"state"}, j)
        if kinds & {"state", "old"}:
            if self.vc.decide(w.present(j)):
                return w.op(j).token(z3.simplify(w.pos(j) + 1))
            return w.old_state(j)
        if kinds <= {"out", "none"}:
            return new(*w.output(j)) if self.vc.decide(w.given_emits(j)) else None
        raise Unsupported("lists with entries of different kinds")

    def acc(self, nm, k):
        kinds = set(self.note(nm))
        return SymSeq(sint(self.upto(k)), lambda j: self.elem(kinds, iterm(j)))

    def slots(self, nm, v0, k):
        kinds = set(self.note(nm))
        if not kinds:
            return v0
        hi = self.upto(k)
        old = v0.copy()
        return SymSeq(self.w.n, lambda j: self.elem(kinds, iterm(j)) if self.vc.decide(iterm(j) < hi) else old.at(j))

    def kind_of(self, v, o):
        if isinstance(v, tuple) and len(v) == 2 and not o.is_token(v) and (v[1] is None or o.is_token(v[1])) and (v[0] is None or isinstance(v[0], SymTensor)):
            return "pair"
        return "state" if o.is_token(v) else "out" if isinstance(v, SymTensor) else "none" if v is None else "other"

    def same_elem(self, name, v, kinds, j):
        vc, w = self.vc, self.w
        o = w.op(j)
        if kinds == {"pair"}:
            if self.kind_of(v, o) != "pair":
                raise Unsupported("entries of unexpected form")
            self.same_elem(name, v[0], {"out"}, j)
            return self.same_elem(name, v[1], {"state"}, j)
        if kinds & {"state", "old"}:
            k = w.pos(j)
            return o.holds(name, v, z3.simplify(k + 1) if vc.decide(w.present(j)) else k)
        if vc.decide(w.given_emits(j)):
            if some(vc, name, v):
                values(vc, name, v, *w.output(j))
        else:
            none(vc, name, v)

    # ---- numbers
    def start_number(self, nm, v0):
        pass

    def number(self, nm, v0, k):
        vc = self.vc
        ks = self.note(nm)
        if "count" in ks and len(ks) == 1:
            return v0 + sint(iterm(k))
        if len(ks) == 1:
            q = next(iter(ks))
            return sint(self.r.specs[q](iterm(k)))
        return None

    def check_number(self, nm, v0, v, kk):
        vc = self.vc
        if not isinstance(v, (int, SInt)):
            raise Unsupported(f"loop variable {nm} has unexpected form")
        ks = self.note(nm)
        if self.what == "first":
            for q, s in enumerate(self.r.specs):
                if vc.entails(iterm(v0) == s(z3.IntVal(0))) and vc.entails(iterm(v) == s(z3.IntVal(1))):
                    ks.add(q)
                    return
            if vc.entails(iterm(v) == iterm(v0) + 1):
                ks.add("count")
                return
            ks.add("unknown")
            ks.add("other")
            return
        q = next(iter(ks))
        want = iterm(v0) + kk if q == "count" else self.r.specs[q](kk)
        if not vc.prove(iterm(v) == want):
            raise Unsupported(f"no invariant for the loop variable {nm}")

    # ---- end of an iteration
    def check(self, loop, loc):
        vc, w = self.vc, self.w
        k = iterm(self.k)
        kk = z3.simplify(k + 1)
        ran = self.note("#ran")
        a0 = z3.simplify(iterm(k)) if self.alive else z3.simplify(self.f + 1)
        alive = self.alive and not (w.dead and w.chained)
        if self.what == "first":
            if not z3.is_int_value(w.A) or w.A.as_long() == 1:
                ran.add("run")
        if "run" in ran:
            with vc.of(w.tags):
                if self.alive:
                    if vc.decide(w.present(k)):
                        vc.check("every iteration runs its part", w.A == kk)
                    else:
                        vc.check("a part without input is not run", w.A == k)
                else:
                    vc.check("parts behind one that emitted nothing are not run", w.A == a0)
            if self.alive:
                w.advanced(k)
        elif not vc.entails(w.A == 0):
            raise Unsupported("only some iterations run a part")
        if w.chained and not alive:
            ran.add("dead")
            if self.alive:
                self.f = k
        for nm, r in self.role.items():
            if nm not in loc and r != "temp":
                raise Unsupported("a loop variable disappeared")
            v = loc.get(nm)
            if r == "chain":
                with vc.of(w.tags):
                    if alive:
                        if some(vc, "what a part emits goes to the next", v):
                            values(vc, "what a part emits goes to the next", v, *w.value(kk))
                    else:
                        none(vc, "nothing is passed on when a part emits nothing", v)
            elif r in ("acc", "slots"):
                if not isinstance(v, (list, SymSeq)):
                    raise Unsupported(f"loop variable {nm} has unexpected form")
                have = v if isinstance(v, SymSeq) else SymSeq(segs=[(1, lambda i, q=q: q) for q in v])
                kinds = self.note(nm)
                hi = kk if self.alive else a0
                if r == "acc" and not vc.entails(iterm(have.n) == hi):
                    raise Unsupported(f"the list {nm} does not get one entry per part")
                if r == "slots" and not vc.entails(iterm(have.n) == iterm(w.n)):
                    raise Unsupported(f"the list {nm} does not keep its length")
                if self.alive:
                    e = have.at(sint(k))
                    if r == "slots" and self.what == "first" and e is loop.entry[nm].at(0):
                        pass  # not written
                    else:
                        kd = self.kind_of(e, w.op(k))
                        if kd == "other" or kd == "none" and w.kind == "functional" and r == "slots" and w.chained:
                            raise Unsupported(f"entries of {nm} have unexpected form")
                        if self.what == "first":
                            kinds.add(kd)
                        with vc.of(w.tags):
                            self.same_elem("every part's entry is its own", e, kinds, k)
                if self.what == "next" or r == "slots":  # the other entries stay
                    j = vc.fresh("j")
                    vc.add(z3.And(j >= 0, j < (hi if r == "acc" else iterm(w.n)), j != k))
                    if vc.sat():
                        e = have.at(sint(j))
                        if r == "acc" or vc.decide(j < hi) and kinds:
                            with vc.of(w.tags):
                                self.same_elem("entries of other parts stay", e, kinds, j)
                        else:
                            b = loop.entry[nm].at(sint(j))
                            o = w.op(j)
                            if e is b or e is None and b is None:
                                vc.ok("entries of parts not run stay")
                            elif o.is_token(e) and o.is_token(b):
                                with vc.of(w.tags):
                                    vc.check("entries of parts not run stay", z3.And(intval(e[1]) == intval(b[1]), val(e[0], [None]) == val(b[0], [None])))
                            else:
                                raise Unsupported(f"entries of {nm} have unexpected form")
            elif r == "number":
                self.check_number(nm, loop.entry[nm], v, kk)
            elif r == "same":
                if v is not loop.entry.get(nm):
                    raise Unsupported(f"no invariant for the loop variable {nm}")


def _given_emits(w, j):
    return z3.And(w.present(j), w.emits(j))


def _old_state(w, j):
    return None if w.fresh or not w.vc.decide(w.pos(j) > 0) else w.op(j).token(w.pos(j))


World.old_state = _old_state


World.given_emits = _given_emits


def _advanced(w, k):
    """obligation: part k has been run as its mode asks, and has its own call mode again"""
    vc = w.vc
    o = w.op(k)
    with vc.of(w.pos_tags):
        vc.check("a part that is run advances iff state is updated", o.k == w.after(k))
    p = w.parts.get(z3.simplify(iterm(k)).sexpr())
    with vc.of("C17"):
        vc.ok("call modes are as before") if p is None or p._call_mode is p.own else vc.fail("call modes are as before", "changed")


World.advanced = _advanced


# ---------------------------------------------------------------- Sequential of any number of parts
def setup(vc, chained, kind, fresh, up=True, many=False):
    lead, rest = stream_dims(vc, 2)
    n = vc.int("n", 1)
    w = World(vc, n, chained, fresh, lead, rest, many)
    w.kind, w.up = kind, up
    w.N = iterm(vc.int("N", 1)) if not fresh else z3.IntVal(0)
    main = "C07" if chained else "C09 C08" if many else "C08"
    w.tags = main + {"step": " C04 C06" if up else " C05", "steps": " C04" if up else " C05", "padded": " C04" if up else " C05", "functional": " C06", "clean": " C06", "forward": ""}[kind]
    if kind == "padded":
        w.tags = "C04" if up else "C05"
    if kind == "clean":
        w.tags = "C06"
    w.pos_tags = {"forward": "C06", "functional": "C06", "clean": "C06"}.get(kind, "C04 C06" if up else "C05")
    if kind == "steps":
        vc.add(w.T(0) >= 1)
    return w


KINDS = ["step", "steps", "functional", "forward", "padded", "clean"]


def run_mode(vc, w, m, x, state=None):
    kind, up = w.kind, w.up
    if kind == "step":
        return m.forward_step(x, up) if vc.choose("args", ["positional", "keyword"]) == "positional" else m.forward_step(x, update_state=up)
    if kind == "steps":
        return m.forward_steps(x, update_state=up) if vc.choose("args", ["positional", "keyword"]) == "keyword" else m.forward_steps(x, False, up)
    if kind == "padded":
        return m.forward_steps(x, True, up) if vc.choose("args", ["positional", "keyword"]) == "positional" else m.forward_steps(x, pad_end=True, update_state=up)
    if kind == "forward":
        return m.forward(x) if vc.choose("call", ["method", "call"]) == "method" else m(x)
    if kind == "functional":
        return m._forward_step(x, state)
    return m.clean_state()


def sequential_any(kind):
    known = {}

    def u(vc):
        fresh = kind == "padded" or vc.choose("state", ["fresh", "running"]) == "fresh"
        up = kind in ("step", "steps", "padded") and vc.choose("update_state", [True, False])
        w = setup(vc, True, kind, fresh, up)
        m = co.Sequential(Dead(vc, 0), Dead(vc, 1))
        seq = SymSeq(w.n, lambda i: w.part(iterm(i)))
        grow(m, seq)
        n = iterm(w.n)
        x = None
        if kind != "clean":
            x = new(*w.value(0))
        st = None
        if kind == "functional" and (not fresh or vc.choose("given", ["none", "list"]) == "list"):
            st = SymSeq(w.n, lambda j: w.old_state(iterm(j)))
        orig = st.copy() if st is not None else None
        vc.loop_rule = Rule(w, known, x)
        r = run_mode(vc, w, m, x, st)
        with vc.of(w.tags):
            if kind == "clean":
                vc.check("cleaning cleans every part", w.A == n)
                return
            ns = None
            if kind == "functional":
                if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], (SymSeq, list))):
                    vc.fail("the functional step returns output and states", "unexpected form")
                    return
                r, ns = r
            if w.dead:
                none(vc, "nothing is returned when a part emits nothing", r)
            else:
                vc.check("every part is run unless one before it emits nothing", w.A == n)
                if some(vc, "the network's output is that of its last part", r):
                    values(vc, "the network's output is that of its last part", r, *w.value(n))
            # the part run last in this path
            if w.last is not None:
                w.advanced(w.last)
            if ns is not None:
                if isinstance(ns, list):
                    ns = SymSeq(segs=[(1, lambda i, q=q: q) for q in ns])
                vc.check("one new state per part", iterm(ns.n) == n)
                j = vc.fresh("j")
                vc.add(z3.And(j >= 0, j < n))
                if vc.sat():
                    o = w.op(j)
                    e = ns.at(sint(j))
                    if vc.decide(j < w.A):
                        o.holds("the state of a part that was run is advanced", e, z3.simplify(w.pos(j) + 1))
                    else:
                        o.holds("the state of a part that was not run is passed through", e, w.pos(j))
                    if orig is not None:
                        q = st.at(sint(j))
                        o.holds("the state that was passed is not rearranged", q, w.pos(j))

    return u


FNS = {
    "step": "forward_step", "steps": "forward_steps", "padded": "forward_steps", "functional": "_forward_step", "forward": "forward", "clean": "clean_state"}
for _k in KINDS:
    unit("C07 C04 C05 C06 C17", f"Sequential of any number of parts, {_k}", f"continual.container.Sequential.{FNS[_k]} continual.container.apply_forward continual.utils.temporary_parameter continual.module.CoModule._call_impl continual.module.CoModule.call_mode")(sequential_any(_k))


# ---------------------------------------------------------------- branches: any number of them
def whole_list(vc, w, name, xs, each):
    """obligation: xs is a list of n entries, entry j satisfying each(j, entry)"""
    if isinstance(xs, (list, tuple)):
        xs = SymSeq(segs=[(1, lambda i, q=q: q) for q in xs])
    if not isinstance(xs, SymSeq):
        vc.fail(name, f"expected a list, got {type(xs).__name__}")
        raise PathEnd()
    vc.check(name + " (number)", iterm(xs.n) == iterm(w.n))
    j = vc.fresh("j")
    vc.add(z3.And(j >= 0, j < iterm(w.n)))
    each(j, xs.at(sint(j)))


def reduction(vc, w):
    """an abstract reduction: it gets every branch's output, in order, and nothing else"""
    dims, fn = [vc.label("reduced")], lambda ix: uf("the reduction")

    def combine(inputs):
        name = "the reduction gets every branch's output, in order"

        def each(j, e):
            if w.given_emits_known(j):
                if some(vc, name, e):
                    values(vc, name, e, *w.output(j))

        with vc.of(w.tags):
            whole_list(vc, w, name, inputs, each)
        return new(dims, fn)

    return combine, dims, fn


def _known(w, j):
    """is the emission of part j certain (an abstract reduction is only called when it is)"""
    if w.vc.decide(w.given_emits(j)):
        return True
    w.vc.fail("the reduction gets tensors only", "a branch without an output")
    raise PathEnd()


World.given_emits_known = _known


def branches_any(cls, kind):
    known = {}
    par = cls == "Parallel"

    def u(vc):
        fresh = kind == "padded" or vc.choose("state", ["fresh", "running"]) == "fresh"
        up = kind in ("step", "steps", "padded") and vc.choose("update_state", [True, False])
        w = setup(vc, False, kind, fresh, up, many=par)
        w.gaps = par and kind in ("step", "steps", "functional", "padded")
        n = iterm(w.n)
        if par:
            m, dims, fn = co.Parallel(Dead(vc, 0), Dead(vc, 1)), None, None
        else:
            combine, dims, fn = reduction(vc, w)
            m = co.BroadcastReduce(Dead(vc, 0), Dead(vc, 1), reduce=combine)
            w.emitted = True
            if kind in ("step", "steps", "functional"):
                if vc.choose("outputs", ["from every branch", "not from every branch"]) == "from every branch":
                    w.all_emit = True
                else:
                    v = vc.fresh("silent")
                    vc.assume(z3.And(v >= 0, v < n))
                    vc.add(z3.Not(w.emits(v)))
                    vc.witnesses.append(v)
                    w.emitted = False
        grow(m, SymSeq(w.n, lambda i: w.part(iterm(i))))
        x = None
        if kind != "clean":
            x = SymSeq(w.n, lambda j: new(*w.value(iterm(j))) if vc.decide(w.present(iterm(j))) else None) if par else new(*w.value(0))
        st = None
        if kind == "functional" and (not fresh or vc.choose("given", ["none", "list"]) == "list"):
            st = SymSeq(w.n, lambda j: w.old_state(iterm(j)))
        vc.loop_rule = Rule(w, known)
        r = run_mode(vc, w, m, x, st)
        with vc.of(w.tags):
            vc.check("every branch is run", w.A == n)
            if kind == "clean":
                return
            ns = None
            if kind == "functional":
                if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], (SymSeq, list))):
                    vc.fail("the functional step returns output and states", "unexpected form")
                    return
                r, ns = r
            if par:

                def each(j, e):
                    if vc.decide(w.given_emits(j)):
                        if some(vc, "every stream is the output of its own branch", e):
                            values(vc, "every stream is the output of its own branch", e, *w.output(j))
                    else:
                        none(vc, "a branch that emits nothing gives nothing", e)

                whole_list(vc, w, "one output stream per branch", r, each)
            elif w.emitted:
                if some(vc, "the output is the reduction of the branches' outputs", r):
                    values(vc, "the output is the reduction of the branches' outputs", r, dims, fn)
            else:
                none(vc, "nothing is returned until every branch has an output", r)
            if ns is not None:

                def state(j, e):
                    k = w.pos(j)
                    w.op(j).holds("every branch's new state is its own", e, z3.simplify(k + 1) if vc.decide(w.present(j)) else k)

                whole_list(vc, w, "one new state per branch", ns, state)
                if st is not None:
                    whole_list(vc, w, "the states that were passed are not rearranged", st, lambda j, e: w.op(j).holds("the states that were passed are not rearranged", e, w.pos(j)))

    return u


for _c in ("BroadcastReduce", "Parallel"):
    for _k in KINDS:
        unit("C09 C08 C04 C05 C06 C17" if _c == "Parallel" else "C08 C04 C05 C06 C17", f"{_c} of any number of branches, {_k}", f"continual.container.{_c}.{FNS[_k]} continual.container.apply_forward continual.container.nonempty continual.utils.temporary_parameter continual.module.CoModule._call_impl continual.module.CoModule.call_mode")(branches_any(_c, _k))


# ---------------------------------------------------------------- advertised numbers of a sequence of any length
class GInfo(co.CoModule, shim.torch.nn.Module):
    """part i, of which only the advertised numbers matter"""

    def __init__(self, t, i):
        shim.torch.nn.Module.__init__(self)
        r, p, s = t.part(i)
        self.receptive_field, self.padding, self.stride = sint(r), (sint(p),), (sint(s),)

    def forward(self, input):
        return input


class Folds:
    """numbers defined part by part; `at(k)` is the value after k iterations, `base` the one before the loop"""

    def __init__(self, vc, n):
        self.vc, self.n = vc, n
        f = z3.Function
        self.r, self.p, self.s = f("rf", I, I), f("pad", I, I), f("str", I, I)
        self.St, self.P, self.A, self.B, self.D = f("St", I, I), f("P", I, I), f("A", I, I), f("B", I, I), f("D", I, I)
        Z = z3.IntVal
        r0, p0, s0 = self.part(0)
        rl, _, _ = self.part(n - 1)
        for fn, b0, b1 in ((self.St, 1, s0), (self.P, 0, p0), (self.A, 1, r0)):
            vc.add(fn(Z(0)) == b0)
            vc.add(fn(Z(1)) == b1)
        vc.add(self.B(n) == 1)
        vc.add(self.B(z3.simplify(n - 1)) == rl)
        Q = lambda i: self.part(i)
        self.fam = {  # name: (value before, next value from the current ones, value after k iterations)
            "St": (Z(1), lambda k, e: e("St") * Q(k)[2], lambda k: self.St(k)),
            "St+": (s0, lambda k, e: e("St+") * Q(k + 1)[2], lambda k: self.St(z3.simplify(k + 1))),
            "P": (Z(0), lambda k, e: e("P") + Q(k)[1] * e("St"), lambda k: self.P(k)),
            "P+": (p0, lambda k, e: e("P+") + Q(k + 1)[1] * e("St+"), lambda k: self.P(z3.simplify(k + 1))),
            "A": (Z(1), lambda k, e: e("A") + (Q(k)[0] - 1) * e("St"), lambda k: self.A(k)),
            "A+": (r0, lambda k, e: e("A+") + (Q(k + 1)[0] - 1) * e("St+"), lambda k: self.A(z3.simplify(k + 1))),
            "B": (Z(1), lambda k, e: (e("B") - 1) * Q(n - 1 - k)[2] + Q(n - 1 - k)[0], lambda k: self.B(z3.simplify(n - k))),
            "B+": (rl, lambda k, e: (e("B+") - 1) * Q(n - 2 - k)[2] + Q(n - 2 - k)[0], lambda k: self.B(z3.simplify(n - 1 - k))),
        }

    def part(self, i):
        i = z3.simplify(iterm(i))
        r, p, s = self.r(i), self.p(i), self.s(i)
        self.vc.add(z3.And(r >= 1, p >= 0, p < r, s >= 1))
        return r, p, s


def poly(a, b):
    d = z3.simplify(a - b, som=True, sort_sums=True)
    return z3.is_int_value(d) and d.as_long() == 0


class NumberRule:
    """invariant of a loop that folds numbers over the parts: every loop variable is one of the defined numbers"""

    def __init__(self, t, known):
        self.t, self.known = t, known

    def __call__(self, loop):
        return _N(self.t, self.known, loop)


class _N:
    def __init__(self, t, known, loop):
        self.t, self.known, self.vc = t, known, t.vc

    def cand(self, n):
        return self.known.setdefault((self.where, n), [])

    def same(self, a, b):
        return poly(a, b) or self.vc.entails(a == b)

    def enter(self, loop):
        vc, t = self.vc, self.t
        self.where = loop.where
        self.role = {}
        for n in loop.names:
            v = loop.entry.get(n, _N)
            if n not in loop.live:
                self.role[n] = "temp"
                loop.temps.add(n)
            elif isinstance(v, (int, SInt)) and not isinstance(v, bool):
                self.role[n] = "number"
            else:
                self.role[n] = "same"
        n = self.n = iterm(loop.s.n)
        self.what = vc.choose(f"loop {loop.where}", ["none", "first", "next", "after"])
        if self.what == "none":
            vc.assume(n <= 0)
            return False
        vc.assume(n >= 1)
        k = n
        if self.what == "first":
            self.k = 0
            return True
        if self.what == "next":
            k = vc.fresh("k")
            vc.assume(z3.And(k >= 1, k < n))
        self.k = sint(k)
        self.pick = {}
        for nm, r in self.role.items():
            if r == "number":
                c = self.cand(nm)
                if not c:
                    raise Unsupported(f"no invariant for the loop variable {nm}")
                self.pick[nm] = vc.choose(f"{nm} is", list(c)) if self.what == "next" and len(c) > 1 else c[0]
                loop.values[nm] = sint(t.fam[self.pick[nm]][2](k))
        return self.what == "next"

    def check(self, loop, loc):
        vc, t = self.vc, self.t
        k = iterm(self.k)
        if not vc.sat():
            return
        for nm, r in self.role.items():
            if r == "temp":
                continue
            v = loc.get(nm)
            if r == "same":
                if v is not loop.entry.get(nm):
                    raise Unsupported(f"no invariant for the loop variable {nm}")
                continue
            if not isinstance(v, (int, SInt)):
                raise Unsupported(f"loop variable {nm} has unexpected form")
            c = self.cand(nm)
            if self.what == "first":
                v0 = iterm(loop.entry[nm])
                base = lambda q: t.fam[q][0]
                for q, (b, nxt, _) in t.fam.items():
                    if q not in c and self.same(v0, b) and self.same(iterm(v), nxt(z3.IntVal(0), base)):
                        c.append(q)
            else:
                q = self.pick[nm]
                now = lambda z: t.fam[z][2](k)
                if not self.same(iterm(v), t.fam[q][1](k, now)) and q in c:
                    c.remove(q)


def sequential_numbers():
    known = {}

    def u(vc):
        n = vc.int("n", 1)
        t = Folds(vc, iterm(n))
        net = co.Sequential(Dead(vc, 0), Dead(vc, 1))
        grow(net, SymSeq(n, lambda i: GInfo(t, iterm(i))))
        vc.loop_rule = NumberRule(t, known)
        N, i, m = iterm(n), vc.fresh("i"), iterm(vc.int("m", 0))
        r, p, s = t.part(i)
        St, P, A, D, o, w = t.St(i), t.P(i), t.A(i), t.D(i), z3.Int("old_next"), z3.Int("at_next")
        B1 = z3.Int("B_next")
        at0, old0 = z3.Ints("at0 old0")
        what = vc.choose("number", ["lemmas", "stride", "receptive_field", "padding", "delay"])
        if what == "lemmas":
            # m-th output of parts i ..: appears at step at(i) = d(i) + at(i + 1) s(i), looks at frames from old(i) = old(i + 1) s(i) - p(i) on, over a span of B(i)
            with vc.of("C10 C07"):
                identity(vc, "lemma: St(i) old(i) - P(i) is the same for all i", St * (o * s - p) - P, St * s * o - (P + p * St))
                identity(vc, "lemma: St(i) at(i) + D(i) is the same for all i", St * (r - 1 - p + w * s) + D, St * s * w + (D + (r - 1 - p) * St))
                identity(vc, "lemma: D(i) = A(i) - 1 - P(i)", (A - 1 - P) + (r - 1 - p) * St, A + (r - 1) * St - 1 - (P + p * St))
                identity(vc, "lemma: A(i) + (B(i) - 1) St(i) is the same for all i", A + ((B1 - 1) * s + r - 1) * St, A + (r - 1) * St + (B1 - 1) * St * s)
            return
        vc.add(old0 == t.St(N) * m - t.P(N))
        vc.add(at0 == t.St(N) * m + t.D(N))
        vc.add(t.D(N) == t.A(N) - 1 - t.P(N))
        vc.add(t.A(N) == t.B(z3.IntVal(0)))
        v = getattr(net, what)
        if what in ("stride", "padding"):
            if not isinstance(v, tuple) or len(v) != 1:
                return vc.fail(f"{what} is a tuple", "other type")
            v = v[0]
        v = iterm(v)
        if what == "stride":
            with vc.of("C10 C07"):
                vc.check("the stride of a network is the product of the strides of its parts", v == t.St(N))
        elif what == "receptive_field":
            with vc.of("C10"):
                vc.check("the receptive field of a network spans from the oldest to the newest frame an output looks at", v == t.B(z3.IntVal(0)))
        elif what == "padding":
            with vc.of("C10"):
                vc.check("the padding of a network is how far its outputs reach before the first frame", v == t.P(N))
        else:
            with vc.of("C10 C07"):
                vc.check("the m-th output appears at step delay + m * stride", v == t.D(N))

    return u


unit("C10 C07", "Sequential: advertised numbers of any number of parts", "continual.container.Sequential.receptive_field continual.container.Sequential.stride continual.container.Sequential.padding continual.module.CoModule.delay")(sequential_numbers())


# ---------------------------------------------------------------- construction from any number of branches
class NamedStr(str):
    """the name of branch number i"""


class BInfo(GInfo):
    """branch i, of which only the advertised numbers matter"""

    def __init__(self, t, i):
        super().__init__(t, i)
        self.i = z3.simplify(iterm(i))


class DInfo(co.CoModule, shim.torch.nn.Module):
    """a Delay, of which only the advertised numbers matter (proved for the class itself in units/delay.py)"""

    def __init__(self, delay, temporal_fill="zeros", auto_shrink=False):
        shim.torch.nn.Module.__init__(self)
        if auto_shrink is not False:
            raise Unsupported("a delay that shrinks")
        self.dl = delay
        self.receptive_field, self.padding, self.stride = delay + 1, (0,), (1,)

    def forward(self, input):
        return input


class BranchNumbers:
    def __init__(self, vc, strides):
        f = z3.Function
        self.vc, self.r, self.p, self.s, self.strides = vc, f("rf", I, I), f("pad", I, I), f("str", I, I), strides

    def part(self, i):
        i = z3.simplify(iterm(i))
        r, p = self.r(i), self.p(i)
        self.vc.add(z3.And(r >= 1, p >= 0, p < r))
        s = z3.IntVal(1) if self.strides == "none" else self.s(i)
        self.vc.add(s >= 1)
        return r, p, s

    def delay(self, i):
        r, p, _ = self.part(i)
        return z3.simplify(r - 1 - p)


class BuildRule:
    """invariant of the loop that takes the branches in: after k of them, exactly the first k are in, in order, under their names"""

    def __init__(self, vc, n, known, added, aligned, after):
        self.vc, self.n, self.known, self.added, self.aligned, self.after = vc, n, known, added, aligned, after
        self.taken = False

    def __call__(self, loop):
        return self

    def enter(self, loop):
        vc = self.vc
        if any(x in loop.live and x in loop.entry for x in loop.names):
            raise Unsupported("the loop that takes the branches in carries a variable")
        for x in loop.names:
            loop.temps.add(x)
        if self.added:
            raise Unsupported("branches were taken in before the loop")
        n = iterm(loop.s.n)
        what = vc.choose(f"loop {loop.where}", ["an iteration", "after"])
        self.note = self.known.setdefault(loop.where, set())
        if what == "after":
            if self.note:
                if self.taken:
                    raise Unsupported("branches are taken in by two loops")
                with vc.of("C08 C09 C10"):
                    vc.check("every branch is taken in", n == iterm(self.n))
                self.taken = True
                self.after()
            return False
        k = vc.fresh("k")
        vc.assume(z3.And(k >= 0, k < n))
        self.k = sint(k)
        return True

    def check(self, loop, loc):
        vc = self.vc
        if self.added:
            self.note.add("adds")
        elif not self.note:
            return
        with vc.of("C08 C09 C10"):
            if len(self.added) != 1:
                return vc.fail("every branch is taken in once", f"{len(self.added)} modules were added")
            name, q = self.added[0]
            if not isinstance(name, NamedStr):
                return vc.fail("a branch keeps its name", repr(name))
            vc.check("a branch keeps its name", name.i == self.k.t)
            self.aligned(self.k.t, q)


class SymDict(OrderedDict):
    """the dictionary of n branches a container is built from"""

    def __init__(self, seq):
        super().__init__()
        self.seq = seq

    def items(self):
        return self.seq

    def _no(self, *a):
        raise Unsupported("other access to a dictionary of any size")

    __iter__ = __len__ = __getitem__ = values = keys = __contains__ = __eq__ = __ne__ = _no


def build_any(cls):
    known = {}

    def u(vc):
        n = vc.int("n", 2)
        N = iterm(n)
        auto = vc.choose("auto_delay", [True, False])
        strides = vc.choose("strides", ["none", "equal", "different"]) if not auto else vc.choose("strides", ["none", "different"])
        t = BranchNumbers(vc, strides)
        cache = {}
        vc.caches.append(cache)

        def branch(i):
            i = z3.simplify(iterm(i))
            if i.sexpr() not in cache:
                cache[i.sexpr()] = BInfo(t, i)

                loader.at_position(i)
            return cache[i.sexpr()]

        def name(i):
            s = NamedStr("branch")
            s.i = z3.simplify(iterm(i))
            return s

        if strides == "equal":
            st = iterm(vc.int("st", 1))
            vc.universals.append(lambda i: vc.add(t.s(i) == st))
        if strides == "different":
            a, b = vc.fresh("a"), vc.fresh("b")
            vc.assume(z3.And(a >= 0, a < N, b >= 0, b < N, t.s(a) != t.s(b)))
            vc.witnesses += [a, b]
        given = SymSeq(n, lambda i: (name(i), branch(i)))
        top = max_of(SymSeq(n, lambda i: sint(branch(i) and t.delay(i))))
        c = getattr(co, cls)
        m = c.__new__(c)
        added = []
        nn = shim.torch.nn.Module
        real = nn.add_module

        def add_module(self, nm, q):
            if self is m:
                added.append((nm, q))
            else:
                real(self, nm, q)

        def aligned(k, q):
            ls = [q] if isinstance(q, (BInfo, DInfo)) else list(q) if type(q) is C.Sequential else None
            if ls is None or not all(isinstance(x, (BInfo, DInfo)) for x in ls):
                raise Unsupported("a branch became something else")
            bs, ds = [x for x in ls if isinstance(x, BInfo)], [x for x in ls if isinstance(x, DInfo)]
            if len(bs) != 1:
                return vc.fail("a branch stays the branch that was given", f"{len(bs)} branches in its place")
            vc.check("a branch stays the branch that was given", bs[0].i == k)
            d = sum((iterm(x.dl) for x in ds), z3.IntVal(0))
            for x in ds:
                vc.check("a delay is not negative", iterm(x.dl) >= 0)
            vc.check("branches are delayed to the longest delay" if auto else "branches are not delayed when that is turned off", d == (top.t - t.delay(k) if auto else 0))

        def taken(i):
            q = branch(i)
            r, p, s = t.part(i)
            if not auto:
                return q
            x = BInfo(t, i)
            x.receptive_field = sint(z3.simplify(r + top.t - t.delay(i)))
            return x

        def after():
            grow(m, SymSeq(n, taken))
            type(m).__iter__ = first_only

        def first_only(self):
            yield taken(z3.IntVal(0))
            raise Unsupported("native iteration over the parts of a container of any size")

        rule = BuildRule(vc, n, known, added, aligned, after)
        vc.loop_rule = rule
        old = {x: getattr(C, x) for x in ("Delay",)}
        try:
            C.Delay = DInfo
            nn.add_module = add_module
            kw = {} if auto and vc.choose("auto_delay is", ["default", "given"]) == "default" else dict(auto_delay=auto)
            if strides == "different":
                try:
                    m.__init__(SymDict(given), **kw)
                except AssertionError:
                    with vc.of("C08 C09 C10"):
                        return vc.ok("branches of different stride are refused")
                with vc.of("C08 C09 C10"):
                    return vc.fail("branches of different stride are refused", "they were accepted")
            m.__init__(SymDict(given), **kw)
        finally:
            nn.add_module = real
            C.Delay = old["Delay"]
        if added or not rule.taken:
            raise Unsupported("branches are taken in elsewhere")
        with vc.of("C08 C09 C10"):
            vc.check("the delay is the longest of the branches'", iterm(m.delay) == top.t)
        with vc.of("C10"):
            vc.check("the receptive field is the largest of the branches'", iterm(m.receptive_field) == iterm(max_of(SymSeq(n, lambda i: taken(i).receptive_field))))
            s = m.stride
            if not isinstance(s, tuple) or len(s) != 1:
                return vc.fail("the stride is a tuple", repr(s))
            vc.check("the stride is that of the branches", iterm(s[0]) == (1 if strides == "none" else st))
            p = m.padding
            if not isinstance(p, tuple) or len(p) != 1:
                return vc.fail("the padding is a tuple", repr(p))
            vc.check("the padding is the largest of the branches'", iterm(p[0]) == iterm(max_of(SymSeq(n, lambda i: sint(branch(i) and t.part(i)[1])))))

    return u


def max_of(seq):

    return loader.extremum(seq, True)


for _c in ("BroadcastReduce", "Parallel"):
    unit("C08 C10" if _c == "BroadcastReduce" else "C09 C10", f"{_c} built from any number of branches", f"continual.container.{_c}.__init__ continual.container.{_c}.delay continual.container.{_c}.receptive_field continual.container.{_c}.stride continual.container.{_c}.padding continual.container.co_add_module continual.utils.num_from")(build_any(_c))


# ---------------------------------------------------------------- construction of a sequence of any number of parts
class PPar(co.Parallel):
    """part i, which is parallel streams"""

    def __init__(self, n):
        shim.torch.nn.Module.__init__(self)
        self.__dict__["width"] = n

    def _vc_len(self):
        return self.__dict__["width"]

    __len__ = __iter__ = _refuse


class TakeRule:
    """invariants of the loops of the constructor: after k iterations a list built part by part holds the first k parts under their names;
    the first k parts were taken in; the first k broadcasts that come right before parallel streams know their number"""

    def __init__(self, u, known):
        self.u, self.known = u, known

    def __call__(self, loop):
        return _T(self.u, self.known)


class _T:
    def __init__(self, u, known):
        self.u, self.known = u, known

    def enter(self, loop):
        vc, u = u_vc(self), self.u
        self.note = self.known.setdefault(loop.where, set())
        self.acc = []
        for x in loop.names:
            v = loop.entry.get(x)
            if x not in loop.live or x not in loop.entry:
                loop.temps.add(x)
            elif isinstance(v, list) and not v:
                self.acc.append(x)
            elif isinstance(v, SymSeq):
                pass
            else:
                raise Unsupported("the constructor's loop carries a variable")
        self.kept = {x: loop.entry[x] for x in loop.names if x not in loop.temps and x not in self.acc}
        self.n = n = iterm(loop.s.n)
        what = vc.choose(f"loop {loop.where}", ["an iteration", "after"])
        if what == "after":
            if self.note & {"adds"}:
                if u.taken:
                    with vc.of("C07 C18"):
                        vc.fail("every part is taken in once", "twice")
                u.taken = True
                with vc.of("C07 C18"):
                    vc.check("every part is taken in", n == u.N)
            if "sets" in self.note:
                with vc.of("C09"):
                    vc.check("every broadcast is looked at", n >= u.N - 1)
                u.inferred = True
            for x in self.acc:
                loop.values[x] = self.upto(loop.s.n)
            return False
        k = vc.fresh("k")
        vc.assume(z3.And(k >= 0, k < n))
        self.k = sint(k)
        self.before = (len(u.added),)
        for x in self.acc:
            loop.values[x] = self.upto(self.k)
        return True

    def upto(self, k):
        u = self.u
        return SymSeq(k, lambda j: (u.name(j), u.part(j)))

    def check(self, loop, loc):
        vc, u = u_vc(self), self.u
        k = self.k.t
        for x, v in self.kept.items():
            if loc.get(x) is not v:
                raise Unsupported("the constructor's loop carries a variable")
        for x in self.acc:
            v = loc.get(x)
            with vc.of("C07 C18"):
                if isinstance(v, list):
                    v = SymSeq(segs=[(1, lambda i, q=q: q) for q in v])
                vc.check("one entry per part", iterm(v.n) == k + 1)
                if vc.choose("entry", ["the new one", "an earlier one"]) == "an earlier one":
                    j = vc.fresh("j")
                    vc.assume(z3.And(j >= 0, j < k))
                    return self.entry(v.at(sint(j)), j)
                self.entry(v.at(sint(k)), k)
        with vc.of("C07 C18"):
            new_ = u.added[self.before[0]:]
            if new_:
                self.note.add("adds")
            if "adds" in self.note:
                if len(new_) != 1:
                    return vc.fail("every part is taken in once", f"{len(new_)} modules were added")
                self.entry(new_[0], k)
        with vc.of("C09"):
            for key, (b, w) in list(u.bcasts.items()):
                x = b.num_streams
                i = u.index[key]
                if vc.entails(i == k) and vc.decide(k + 1 < u.N) and isinstance(u.part(k + 1), PPar):
                    if w is None:
                        self.note.add("sets" if x is not None else "does not")
                        if x is not None:
                            vc.check("a broadcast before parallel streams feeds all of them", iterm(x) == iterm(u.part(k + 1)._vc_len()))
                    else:
                        vc.check("a number of streams that was given is kept", iterm(x) == iterm(w)) if x is not None else vc.fail("a number of streams that was given is kept", "it is lost")
                elif x is None and w is None:
                    vc.ok("other broadcasts are left alone")
                elif x is None or w is None or not vc.entails(iterm(x) == iterm(w)):
                    raise Unsupported("the numbers of streams are inferred in another order")
                else:
                    vc.ok("other broadcasts are left alone")

    def entry(self, e, k):
        vc, u = u_vc(self), self.u
        if not (isinstance(e, tuple) and len(e) == 2):
            raise Unsupported("entries of unexpected form")
        u.same(e, k)


def u_vc(s):
    return s.u.vc


class Taking:
    """the parts given to the constructor: plain ones, broadcasts, parallel streams, in any order"""

    def __init__(self, vc, n):
        self.vc, self.n, self.N = vc, n, iterm(n)
        self.kind, self.width, self.given = z3.Function("kind", I, I), z3.Function("width", I, I), z3.Function("streams", I, I)
        self.cache, self.bcasts, self.index = {}, {}, {}
        vc.caches += [self.cache, self.bcasts, self.index]
        self.added, self.taken, self.inferred = [], False, False

    def name(self, i):
        s = NamedStr("part")
        s.i = z3.simplify(iterm(i))
        return s

    def part(self, i):
        i = z3.simplify(iterm(i))
        vc, key = self.vc, i.sexpr()
        for other, q in list(self.cache.items()):
            if other != key and vc.entails(self.index[other] == i):
                return q
        if key not in self.cache:
            self.index[key] = i
            if vc.decide(self.kind(i) == 1):
                q = co.Broadcast()
                w = None
                if vc.decide(self.given(i) >= 1):
                    w = sint(self.given(i))
                q.num_streams = w
                self.bcasts[key] = (q, w)
            elif vc.decide(self.kind(i) == 2):
                vc.add(self.width(i) >= 2)
                q = PPar(sint(self.width(i)))
            else:
                q = PlainPart()
            q.__dict__["ix"] = i
            self.cache[key] = q
        return self.cache[key]

    def same(self, e, k):
        vc = self.vc
        if not isinstance(e[0], NamedStr):
            return vc.fail("a part keeps its name", repr(e[0]))
        vc.check("a part keeps its name", e[0].i == k)
        if "ix" not in getattr(e[1], "__dict__", {}):
            raise Unsupported("a part became something else")
        vc.check("every part is the one that was given, in its place", e[1].__dict__["ix"] == k)


class PlainPart(co.CoModule, shim.torch.nn.Module):
    def __init__(self):
        shim.torch.nn.Module.__init__(self)

    def forward(self, input):
        return input


def sequential_build():
    known = {}

    def u(vc):
        n = vc.int("n", 1)
        t = Taking(vc, n)
        given = SymSeq(n, lambda i: (t.name(i), t.part(i)))
        m = co.Sequential.__new__(co.Sequential)
        nn = shim.torch.nn.Module
        real = nn.add_module

        def add_module(self, nm, q):
            if self is m:
                t.added.append((nm, q))
            else:
                real(self, nm, q)

        vc.loop_rule = TakeRule(t, known)
        try:
            nn.add_module = add_module
            m.__init__(SymDict(given))
        finally:
            nn.add_module = real
        with vc.of("C07 C18"):
            if not t.taken:
                raise Unsupported("the parts are taken in elsewhere")
            vc.ok("every part is taken in")
        with vc.of("C09"):
            if not t.inferred:
                raise Unsupported("the numbers of streams are inferred elsewhere")
            if any("does not" in v and "sets" in v for v in known.values()):
                return vc.fail("every broadcast before parallel streams learns their number", "some do not")
            vc.ok("every broadcast before parallel streams learns their number")

    return u


unit("C07 C09", "Sequential built from any number of parts", "continual.container.Sequential.__init__ continual.container.Sequential.add_module continual.container.co_add_module")(sequential_build())


# ---------------------------------------------------------------- conversion of a sequence of any number of modules
class _Any(type):
    def __instancecheck__(cls, x):
        return isinstance(x, OrderedDict)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k and loader.is_sym(a[0]):
            return SymDict(loader.seq_of(a[0]))
        return OrderedDict(*a, **k)


class AnyDict(metaclass=_Any):
    """OrderedDict, also of a sequence of pairs of any length (the names are different)"""


class Children(SymModules):
    """the named modules of an nn.Sequential of any number of modules"""

    def items(self):
        return self.seq

    def values(self):
        return SymSeq(self.seq.n, lambda i: self.seq.at(i)[1])

    def keys(self):
        return SymSeq(self.seq.n, lambda i: self.seq.at(i)[0])


def sequential_from():
    known = {}

    def u(vc):
        n = vc.int("n", 0)
        t = Taking(vc, n)
        t.part = plain_part(t)
        src = shim.torch.nn.Sequential()
        origs = {}
        vc.caches.append(origs)

        def orig(i):
            i = z3.simplify(iterm(i))
            if i.sexpr() not in origs:
                q = shim.torch.nn.Identity()
                q.__dict__["orig"] = i
                origs[i.sexpr()] = q
            return origs[i.sexpr()]

        pairs = SymSeq(n, lambda i: (t.name(i), orig(i)))
        grow(src, SymSeq(n, lambda i: orig(i)))
        src.__dict__["_modules"] = Children(pairs)
        type(src).named_children = lambda self: pairs
        nn, CV = shim.torch.nn.Module, co.convert
        real, conv, od = nn.add_module, CV.continual, C.OrderedDict

        def contract(m):
            """`continual` of a module: the converted module (what it is, is decided in units/convert.py)"""
            if isinstance(m, PlainPart):
                return m
            i = m.__dict__.get("orig")
            if i is None:
                raise Unsupported("conversion of something else")
            return t.part(i)

        made = []

        def add_module(self, nm, q):
            if type(self) is C.Sequential and isinstance(nm, NamedStr):
                made.append(self)
                t.added.append((nm, q))
            else:
                real(self, nm, q)

        vc.loop_rule = TakeRule(t, known)
        try:
            nn.add_module, CV.continual, C.OrderedDict = add_module, contract, AnyDict
            r = C.Sequential.build_from(src)
        finally:
            nn.add_module, CV.continual, C.OrderedDict = real, conv, od
        if not t.taken:
            raise Unsupported("the parts are taken in elsewhere")
        if type(r) is C.Sequential and r._modules == {}:
            vc.ok("a converted sequence is a continual sequence of the converted parts")
        else:
            vc.fail("a converted sequence is a continual sequence of the converted parts", type(r).__name__)

    return u


def plain_part(t):
    def part(i):
        i = z3.simplify(iterm(i))
        if i.sexpr() not in t.cache:
            q = PlainPart()
            q.__dict__["ix"] = i
            t.index[i.sexpr()] = i
            t.cache[i.sexpr()] = q
        return t.cache[i.sexpr()]

    return part


unit("C18", "conversion of Sequential of any number of modules", "continual.container.Sequential.build_from continual.container.Sequential.__init__")(sequential_from())
