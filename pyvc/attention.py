"""torch.nn.MultiheadAttention as an axiom: softmax attention of the projected tokens, head by head."""
from shim import *  # noqa: F401,F403
from shim import M, SInt, SymError, SymTensor, Unsupported, Vc, dims_equal, is_label, iterm, new, opname, real_torch, rows, uf, wrap, z3, R


def weights(m, which):
    """(weight, bias) of one input projection"""
    i = "qkv".index(which)
    if m._qkv_same_embed_dim:
        w = rows(m.in_proj_weight, 3, i)
    else:
        w = (m.q_proj_weight, m.k_proj_weight, m.v_proj_weight)[i]
    b = None if m.in_proj_bias is None else rows(m.in_proj_bias, 3, i)
    return w, b


def lin(x, w, b):
    v = uf(f"lin[{opname(w)}]", z3.simplify(x))
    return v if b is None else v + z3.Real(f"val[{opname(b)}]")


def project(m, which, x):
    return lin(x, *weights(m, which))


def out(m, x):
    return lin(x, m.out_proj.weight, m.out_proj.bias)


def extra(m, D, q):
    """the tokens a module adds after the projected ones: (weight, value) each"""
    e = lambda k: uf("exp", uf("dot_" + "_".join(sorted(D.atoms)), z3.simplify(q), z3.simplify(k)))
    par = lambda t: z3.Real(f"val[{opname(t)}]")
    out = []
    if m.bias_k is not None:
        out.append((e(par(m.bias_k)), par(m.bias_v)))
    if m.add_zero_attn:
        out.append((e(z3.RealVal(0)), z3.RealVal(0)))
    return out


def row(m, D, n, q, k, v):
    """attention of one scaled query over n tokens"""
    vc = Vc.cur
    e = lambda j: uf("exp", uf("dot_" + "_".join(sorted(D.atoms)), z3.simplify(q), z3.simplify(k(j))))
    num, den = vc.sum(iterm(n), lambda j: mul(e(j), v(j))), vc.sum(iterm(n), e)
    for w, u in extra(m, D, q):
        num, den = num + mul(w, u), den + w
    return div(num, den)


def forward(self, query, key, value, key_padding_mask=None, need_weights=True, attn_mask=None, average_attn_weights=True, is_causal=False):
    if key_padding_mask is not None or attn_mask is not None or is_causal:
        raise Unsupported("attention masks")
    if self.training and not (isinstance(self.dropout, (int, float)) and self.dropout == 0):
        raise Unsupported("dropout while training")
    if any(len(x._dims) != 3 for x in (query, key, value)):
        raise Unsupported("unbatched attention")
    b, t = (0, 1) if self.batch_first else (1, 0)
    for x, d in ((query, self.embed_dim), (key, self.kdim), (value, self.vdim)):
        if not dims_equal(x._dims[2], d):
            raise SymError(f"attention: {x._dims[2]} features, expected {d}")
        if not dims_equal(x._dims[b], query._dims[b]):
            raise SymError("attention: batch sizes differ")
        if is_label(x._dims[t]):
            raise SymError("attention over something that is not time")
    if not dims_equal(key._dims[t], value._dims[t]):
        raise SymError("attention: key and value lengths differ")
    S, D = key._dims[t], self.head_dim
    if not is_label(D):
        raise Unsupported("head dimension")
    at = lambda x: (lambda rd: (lambda j: rd([None, j, None] if t == 1 else [j, None, None])))(x.reader())
    q, k, v = at(query), at(key), at(value)
    sq = z3.Function("sqrt", R, R)(z3.ToReal(iterm(D)))
    dims = list(query._dims)
    dims[2] = self.embed_dim

    def fn(ix):
        qq = div(project(self, "q", q(ix[t])), sq)
        return out(self, row(self, D, S, qq, lambda j: project(self, "k", k(j)), lambda j: project(self, "v", v(j))))

    w = None
    if need_weights and not (self.bias_k is not None or self.add_zero_attn):
        wd = [query._dims[b], query._dims[t], S]

        def wfn(ix):
            qq = div(project(self, "q", q(ix[1])), sq)
            e = lambda j: uf("exp", uf("dot_" + "_".join(sorted(D.atoms)), z3.simplify(qq), z3.simplify(project(self, "k", k(j)))))
            return uf("mean_over_heads", div(e(ix[2]), Vc.cur.sum(iterm(S), e)))

        w = new(wd, wfn)
    return new(dims, fn), w


def install():
    c = real_torch.nn.MultiheadAttention
    c.forward = forward
    c._reset_parameters = lambda self: None
