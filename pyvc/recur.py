"""torch.nn.RNN / GRU / LSTM as axioms: constructors record their arguments, forward is a scan of an opaque cell."""
from shim import *  # noqa: F401,F403
from shim import SInt, SymError, SymTensor, Unsupported, Vc, dims_equal, is_label, iterm, new, param, real_torch, uf, wrap, z3, PARAMS

GATES = dict(RNN=1, GRU=3, LSTM=4)
ARGS = dict(
    RNN="input_size hidden_size num_layers nonlinearity bias batch_first dropout bidirectional device dtype",
    GRU="input_size hidden_size num_layers bias batch_first dropout bidirectional device dtype",
    LSTM="input_size hidden_size num_layers bias batch_first dropout bidirectional proj_size device dtype",
)
DEFAULT = dict(num_layers=1, nonlinearity="tanh", bias=True, batch_first=False, dropout=0.0, bidirectional=False, proj_size=0, device=None, dtype=None)


def weight(dims):
    PARAMS[0] += 1
    return real_torch.nn.Parameter(param(dims, f"p{PARAMS[0]}"), requires_grad=False) if False else param(dims, f"p{PARAMS[0]}")


def make_init(kind):
    def init(self, *a, **k):
        real_torch.nn.Module.__init__(self)
        names = ARGS[kind].split()
        if len(a) > len(names):
            raise TypeError("too many arguments")
        b = dict(DEFAULT)
        for n, v in list(zip(names, a)) + list(k.items()):
            if n not in names:
                raise TypeError(f"unexpected argument {n}")
            b[n] = v
        for n in ("input_size", "hidden_size", "num_layers", "bias", "batch_first", "dropout", "bidirectional", "proj_size"):
            setattr(self, n, b[n])
        if kind == "RNN":
            self.nonlinearity = b["nonlinearity"]
            if b["nonlinearity"] not in ("tanh", "relu"):
                raise ValueError("Unknown nonlinearity")
        self.mode = kind if kind != "RNN" else "RNN_" + b["nonlinearity"].upper()
        g = b["hidden_size"] * Vc.cur.label(f"gates{GATES[kind]}")
        out = b["proj_size"] if not (isinstance(b["proj_size"], int) and b["proj_size"] == 0) else b["hidden_size"]
        # one generic layer stands for all of them
        ws = [weight([g, b["input_size"]]), weight([g, out])]
        if b["bias"]:
            ws += [weight([g]), weight([g])]
        if out is not b["hidden_size"]:
            ws.append(weight([out, b["hidden_size"]]))
        for q, w in enumerate(ws):
            self.register_buffer(f"weight_{q}", w)  # stands for parameters
        self.__dict__["_weight_names"] = [f"weight_{q}" for q in range(len(ws))]

    return init


def flat_weights(self):
    return [getattr(self, n) for n in self._weight_names]


class Scan:
    """h(0) = init, h(j + 1) = H(h(j), x(j)); the output at j is O(h(j), x(j)) (a cell reads its input and its state, nothing else)"""

    def __init__(self, cell, init, body, n):
        vc = Vc.cur
        self.cell, self.init, self.body, self.n = cell, init, body, n
        q = len(vc.scans)
        self.S = [z3.Function(f"scan{q}.{i}", z3.IntSort(), z3.RealSort()) for i in range(len(init))]
        vc.scans.append(self)

    def at(self, j):
        return [s(z3.simplify(j)) for s in self.S]

    def unfold(self, j):
        vc = Vc.cur
        for i, (s, v) in enumerate(zip(self.S, self.init)):
            vc.add(s(z3.IntVal(0)) == v)
            vc.add(s(z3.simplify(j + 1)) == cell_next(self.cell, i, self.at(j), self.body(j)))


def cell_next(cell, i, h, x):
    return uf(f"next{i}[{cell}]", *h, x)


def cell_out(cell, h, x):
    return uf(f"out[{cell}]", *h, x)


def cell_name(self):
    return f"{self.mode},{','.join(str(w._op) for w in self._flat_weights)}"


def make_forward(kind):
    def forward(self, input, hx=None):
        vc = Vc.cur
        if self.bidirectional:
            raise Unsupported("bidirectional recurrence")
        if self.training and not (isinstance(self.dropout, (int, float)) and self.dropout == 0):
            raise Unsupported("dropout while training")
        x = input
        if len(x._dims) != 3:
            raise Unsupported(f"recurrence over an input of {len(x._dims)} dimensions")
        bd, td = (0, 1) if self.batch_first else (1, 0)
        if not dims_equal(x._dims[2], self.input_size):
            raise RuntimeError(f"input.size(-1) must be equal to input_size. Expected {self.input_size}, got {x._dims[2]}")
        if is_label(x._dims[td]):
            raise SymError("recurrence over something that is not time")
        T, Bt = x._dims[td], x._dims[bd]
        out = self.proj_size if not (isinstance(self.proj_size, int) and self.proj_size == 0) else self.hidden_size
        sizes = [[self.num_layers, Bt, out]] + ([[self.num_layers, Bt, self.hidden_size]] if kind == "LSTM" else [])
        if hx is None:
            init = [z3.RealVal(0)] * len(sizes)
        else:
            hs = list(hx) if kind == "LSTM" else [hx]
            if kind != "LSTM" and not isinstance(hx, SymTensor):
                raise AttributeError("hidden state is not a tensor")
            if len(hs) != len(sizes):
                raise SymError("hidden state has the wrong number of parts")
            for h, s in zip(hs, sizes):
                if len(h._dims) != 3 or not all(dims_equal(a, b) for a, b in zip(h._dims, s)):
                    raise RuntimeError(f"Expected hidden size {s}, got {h._dims}")
            init = [h.val([None if is_label(d) else z3.IntVal(0) for d in h._dims]) for h in hs]
        rd = x.reader()
        body = lambda j: rd([None, j, None] if td == 1 else [j, None, None])
        cell = cell_name(self)
        if isinstance(T, int) and T == 1:
            h = lambda j: init
            fin = [cell_next(cell, i, init, body(z3.IntVal(0))) for i in range(len(init))]
            at = lambda j: cell_out(cell, init, body(z3.IntVal(0)))
        else:
            sc = Scan(cell, init, body, T)
            fin = sc.at(iterm(T))
            at = lambda j: cell_out(cell, sc.at(j), body(j))
        odims = [Bt, T, out] if td == 1 else [T, Bt, out]
        y = new(odims, lambda ix: at(ix[td]))
        hn = tuple(new(s, (lambda v: lambda ix: v)(v)) for s, v in zip(sizes, fin))
        return y, (hn if kind == "LSTM" else hn[0])

    return forward


def install():
    nn = real_torch.nn
    for k in ("RNN", "GRU", "LSTM"):
        c = getattr(nn, k)
        c.__init__ = make_init(k)
        c.forward = make_forward(k)
        c._flat_weights = property(flat_weights)
        c.flatten_parameters = lambda self: None
    nn.RNNBase.__setattr__ = nn.Module.__setattr__
