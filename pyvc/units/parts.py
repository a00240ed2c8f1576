"""Abstract parts of containers: continual modules known only by the module contract.

Contract of a part, for the stream of frames it is fed (frame k has value frame(k), fed in order, each once):
  step k emits iff E(k); the m-th emission has value F(m); cnt(k) is the number of emissions of steps 0 .. k-1;
  forward_step/forward_steps do this for one/several frames and advance the module's own position iff update_state;
  a multi-step call that emits nothing returns None;
  _forward_step does the same for an explicit state and leaves the module's own position alone;
  forward and the end-padded multi-step call on a fresh part map the whole input sequence to the whole output sequence;
  clean_state resets the position.
A `regular` part emits at steps d, d + s, d + 2 s, ... (d = delay, s = stride).
"""
from core import fdiv

from .lib import *  # noqa: F401,F403


class Op:
    def __init__(self, vc, name, delay=None, stride=1, padding=None, out=None):
        self.vc, self.name, self.d, self.s = vc, name, delay, stride
        f = lambda n, *a: z3.Function(f"{name}.{n}", *a)
        self._E, self._cnt, self._F, self._W, self.S = f("E", I, B), f("cnt", I, I), f("F", I, R), f("W", I, R), f("S", I, R)
        self.out = out
        self.frame = self.whole = self.lead = self.rest = None
        self.p = padding if padding is not None else 0
        self.k = z3.IntVal(0)
        self.cleaned = 0
        self.seen = set()

    # ---- wiring
    def feed(self, frame, lead, rest, whole=None, whole_len=None, olead=None, orest=None, olen=None):
        """attach the part to its input stream"""
        self.frame, self.lead, self.rest, self.whole, self.whole_len = frame, list(lead), list(rest), whole, whole_len
        self.olead, self.orest = list(olead if olead is not None else lead), list(orest if orest is not None else rest)
        self.olen = olen
        return self

    def F(self, m):
        m = z3.simplify(iterm(m))
        return self.out(self, m) if self.out else self._F(m)

    def W(self, t):
        return self._W(z3.simplify(iterm(t)))

    # ---- emission
    def E(self, k):
        k = z3.simplify(iterm(k))
        if self.d is None:
            return self._E(k)
        d = iterm(self.d)
        if isinstance(self.s, int) and self.s == 1:
            return k >= d
        q, r = fdiv(z3.simplify(k - d), iterm(self.s))
        return z3.And(k >= d, r == 0)

    def cnt(self, k):
        k = z3.simplify(iterm(k))
        if self.d is None:
            return self._cnt(k)
        d = iterm(self.d)
        if isinstance(self.s, int) and self.s == 1:
            return z3.If(k > d, k - d, 0)
        q, r = fdiv(z3.simplify(k - d - 1), iterm(self.s))
        return z3.If(k > d, q + 1, 0)

    def lemma(self, k):
        """cnt counts the emissions"""
        if self.d is None:
            k = iterm(k)
            self.vc.add(self.cnt(0) == 0)
            self.vc.add(self.cnt(k) >= 0)
            self.vc.add(self.cnt(k + 1) == self.cnt(k) + z3.If(self.E(k), 1, 0))

    def mono(self, a, b):
        if self.d is None:
            a, b = iterm(a), iterm(b)
            self.vc.add(self.cnt(0) == 0)
            self.vc.add(self.cnt(a) >= 0)
            self.vc.add(z3.Implies(a <= b, z3.And(self.cnt(a) <= self.cnt(b), self.cnt(b) - self.cnt(a) <= b - a)))

    def frame_out(self, m):
        v = self.F(m)
        return new(self.olead + self.orest, lambda ix: v)

    # ---- explicit state
    def token(self, k, first=None):
        k = z3.simplify(iterm(k))
        v = self.S(k)
        if first is None:
            first = new([self.vc.label(f"{self.name}.state")], lambda ix: v)
        else:
            first._assign(lambda ix: v)
        return (first, scalar(k))

    def is_token(self, s):
        return isinstance(s, tuple) and len(s) == 2 and isinstance(s[0], SymTensor) and isinstance(s[1], SymTensor) and not s[1]._dims

    def holds(self, name, s, k):
        """obligation: s is the explicit state of this part after k frames"""
        vc = self.vc
        if s is None:
            return vc.check(name, iterm(k) == 0)
        if not self.is_token(s):
            return vc.fail(name, f"state of unexpected form {type(s).__name__}")
        vc.check(name, z3.And(intval(s[1]) == iterm(k), val(s[0], [None]) == self.S(z3.simplify(iterm(k)))))


class Part(co.CoModule, shim.torch.nn.Module):
    def __init__(self, op):
        shim.torch.nn.Module.__init__(self)
        self.__dict__["op"] = op
        self.receptive_field = (op.d if op.d is not None else 0) + 1 + op.p
        self.padding = (op.p,)
        self.stride = (op.s,)
        self._state_shape = 2
        self._dynamic_state_inds = [True, False]

    def _frame(self, x, k, what):
        op, vc = self.op, self.op.vc
        if not isinstance(x, SymTensor):
            vc.fail(f"{what} gets its next frame", f"part {op.name} was called with {type(x).__name__}")
            raise PathEnd()
        if same_dims(vc, f"{what} gets a frame", x, op.lead + op.rest):
            vc.check(f"{what} gets its next frame", val(x, [None] * len(x._dims)) == op.frame(k))

    def _emit(self, k):
        op = self.op
        op.lemma(k)
        return op.frame_out(op.cnt(k)) if op.vc.decide(op.E(k)) else None

    def forward_step(self, input, update_state=True):
        op = self.op
        op.seen.add("step")
        self._frame(input, op.k, "each part")
        o = self._emit(op.k)
        if update_state:
            op.k = z3.simplify(op.k + 1)
        return o

    def forward_steps(self, input, pad_end=False, update_state=True):
        op, vc = self.op, self.op.vc
        op.seen.add("steps")
        if not isinstance(input, SymTensor):
            vc.fail("each part gets its next frames", f"part {op.name} was called with {type(input).__name__}")
            raise PathEnd()
        a = len(op.lead)
        if pad_end:
            T = op.whole_len
            vc.check("a part's end-padded call starts a fresh part", op.k == 0)
            values(vc, "each part gets the whole sequence", input, op.lead + [T] + op.rest, lambda ix: op.whole(ix[a]))
            if update_state:
                op.k = iterm(T)
            return self._whole_out()
        if len(input._dims) != len(op.lead) + 1 + len(op.rest):
            vc.fail("each part gets its next frames", f"part {op.name} was called with shape {input._dims}")
            raise PathEnd()
        T = input._dims[a]
        k = op.k
        values(vc, "each part gets its next frames", input, op.lead + [T] + op.rest, lambda ix: op.frame(k + iterm(ix[a])))
        op.mono(k, k + iterm(T))
        n = z3.simplify(op.cnt(k + iterm(T)) - op.cnt(k))
        if update_state:
            op.k = z3.simplify(k + iterm(T))
        if vc.decide(n == 0):
            return None
        c = op.cnt(k)
        return new(op.olead + [sint(n)] + op.orest, lambda ix: op.F(c + iterm(ix[len(op.olead)])))

    def _whole_out(self):
        op = self.op
        return new(op.olead + [op.olen] + op.orest, lambda ix: op.W(ix[len(op.olead)]))

    def forward(self, input):
        op, vc = self.op, self.op.vc
        op.seen.add("forward")
        a = len(op.lead)
        if not isinstance(input, SymTensor):
            vc.fail("each part gets the whole sequence", f"part {op.name} was called with {type(input).__name__}")
            raise PathEnd()
        values(vc, "each part gets the whole sequence", input, op.lead + [op.whole_len] + op.rest, lambda ix: op.whole(ix[a]))
        return self._whole_out()

    def _forward_step(self, input, prev_state=None):
        op, vc = self.op, self.op.vc
        op.seen.add("functional")
        if prev_state is None:
            k = z3.IntVal(0)
        elif op.is_token(prev_state):
            k = intval(prev_state[1])
            vc.check("each part continues from its own intact state", val(prev_state[0], [None]) == op.S(k))
        else:
            vc.fail("each part continues from its own intact state", f"part {op.name} got a state of type {type(prev_state).__name__}")
            raise PathEnd()
        if prev_state is not None and prev_state[0]._dims[0].atoms != (f"{op.name}.state",):
            vc.fail("each part continues from its own intact state", "the state of another part")
            raise PathEnd()
        self._frame(input, k, "each part")
        o = self._emit(k)
        return o, op.token(k + 1)

    def get_state(self):
        return None if z3.is_int_value(self.op.k) and self.op.k.as_long() == 0 else self.op.token(self.op.k)

    def set_state(self, state):
        self.op.k = z3.IntVal(0) if state is None else intval(state[1])

    def clean_state(self):
        self.op.k = z3.IntVal(0)
        self.op.cleaned += 1


class RecPart(Part, real_torch.nn.RNNBase):
    """a recurrent part: its whole-sequence mode returns the hidden state as well"""

    def __setattr__(self, k, v):
        shim.torch.nn.Module.__setattr__(self, k, v)

    def forward(self, input, hx=None):
        return Part.forward(self, input), "the hidden state"


def some_part(vc, op, n=0):
    """a part; in the position that may be recurrent, both kinds"""
    return RecPart(op) if vc.choose(f"{op.name} is", ["plain", "recurrent"]) == "recurrent" else Part(op)
