SEEDS = [
dict(id="c01-stride-pad", prop="C01", edits=[("continual/conv.py", "            self.stride[0] - len(state_buffer) - 1 + self.padding[0]\n", "            self.stride[0]\n            - len(state_buffer)\n            - 1\n            + self.padding[0] * int(max(self.stride) < 3)\n")],
  needs="a temporal stride above one together with a temporal padding that is not a multiple of it, run step by step or in chunks", breaks="the first streamed output, and thereby all later ones, are late with respect to the offline convolution",
  demo='''
c = co.Conv1d(2, 3, kernel_size=4, stride=3, padding=1).eval()
x = torch.randn(1, 2, 11)
with torch.no_grad():
    y = c.forward(x)
    outs = [o for o in (c.forward_step(x[:, :, t]) for t in range(11)) if isinstance(o, torch.Tensor)]
    outs = torch.stack(outs, 2)
assert same(outs, y[:, :, : outs.shape[2]]), "streamed outputs differ"
'''),
dict(id="c01-pad-order", prop="C01", edits=[("continual/conv.py", "        self._step_space_rprt = _reverse_repeat_tuple((0, *self.padding[1:]), 2)\n", "        self._step_space_rprt = tuple(\n            p for p in (*self.padding[1:], 0) for _ in range(2)\n        )\n")],
  needs="a 3D convolution with replicate padding mode and unequal spatial paddings, run step by step", breaks="the spatial padding of streamed frames is applied to the wrong axes",
  demo='''
c = co.Conv3d(1, 2, kernel_size=(2, 3, 5), padding=(0, 1, 2), padding_mode="replicate").eval()
x = torch.randn(1, 1, 5, 6, 6)
with torch.no_grad():
    y = c.forward(x)
    outs = torch.stack([o for o in (c.forward_step(x[:, :, t]) for t in range(5)) if isinstance(o, torch.Tensor)], 2)
assert same(outs, y), (outs.shape, y.shape)
'''),
dict(id="c02-dil-delay", prop="C02", edits=[("continual/pooling.py", "        stride_index = torch.tensor(self.stride[0] - buf_len + self.padding[0])\n", "        stride_index = torch.tensor(\n            self.stride[0]\n            - buf_len // self.dilation[0] * self.dilation[0]\n            + self.padding[0]\n        )\n")],
  needs="temporal dilation above one", breaks="the first output comes before the dilated window has filled, and all later strided outputs are shifted",
  demo='''
p = co.AvgPool1d(3, stride=1, dilation=2).eval()
x = torch.randn(1, 2, 9)
got = [p.forward_step(x[:, :, t]) for t in range(9)]
for t in range(9):
    if t < 4:
        assert got[t] is None, t
    else:
        assert same(got[t], (x[:, :, t] + x[:, :, t - 2] + x[:, :, t - 4]) / 3), t
'''),
dict(id="c05-broadcast-pad", prop="C05", edits=[("continual/container.py", "                # m.forward_steps\n                outs.append(m(input, pad_end=pad_end, update_state=update_state))\n\n        return self.reduce(outs)", "                # m.forward_steps\n                outs.append(\n                    m(\n                        input,\n                        pad_end=pad_end and update_state,\n                        update_state=update_state,\n                    )\n                )\n\n        return self.reduce(outs)")],
  needs="an end-padded multi-step call with state updates disabled on a broadcast-reduce (or residual)", breaks="the non-updating call no longer returns what the updating call returns",
  demo='''
n = co.BroadcastReduce(co.Conv1d(1, 1, 3, padding=1), co.Conv1d(1, 1, 5, padding=2)).eval()
x = torch.randn(1, 1, 8)
with torch.no_grad():
    a = n.forward_steps(x, pad_end=True, update_state=False)
    b = n.forward_steps(x, pad_end=True)
assert same(a, b), (a.shape, b.shape)
'''),
dict(id="c05-pe-steps", prop="C05", edits=[("continual/positional_encoding.py", "            input, update_index_steps=input.shape[2] if update_state else 0\n", "            input, update_index_steps=input.shape[2] if update_state else None\n")],
  needs="a multi-step call with update_state=False on the positional encoding", breaks="the non-updating call advances the position by the whole-sequence increment",
  demo='''
pe = co.RecyclingPositionalEncoding(4, 7)
x = torch.randn(1, 4, 3)
with torch.no_grad():
    a = pe.forward_steps(x, update_state=False)
    b = pe.forward_steps(x)
assert same(a, b)
'''),
dict(id="c11-clean", prop="C11", edits=[("continual/container.py", "        for m in self._modules.values():\n            m.clean_state()\n", "        self._modules[\"0\"].clean_state()\n")],
  needs="a conditional with two stateful branches whose false branch is taken, cleaned in mid-stream", breaks="cleaning leaves the state of the second branch",
  demo='''
n = co.Conditional(lambda m, x: False, co.Delay(2), co.Delay(2))
x = torch.randn(1, 2, 6)
for t in range(4):
    n.forward_step(x[:, :, t])
n.clean_state()
assert n.forward_step(x[:, :, 0]) is None and n.forward_step(x[:, :, 1]) is None
'''),
dict(id="c10-seq-padding", prop="C10", edits=[("continual/container.py", "            p += m[i].padding[0] * s\n            s = s * m[i].stride[0]\n", "            s = s * m[i].stride[0]\n            p += m[i].padding[0] * s\n")],
  needs="a sequential network with a strided and padded module that is not first", breaks="the advertised padding and thereby the advertised delay are wrong",
  demo='''
n = co.Sequential(co.Conv1d(1, 1, 3), co.Conv1d(1, 1, 3, stride=2, padding=1)).eval()
first = None
with torch.no_grad():
    for t in range(12):
        if isinstance(n.forward_step(torch.randn(1, 1)), torch.Tensor):
            first = t
            break
assert n.delay == first, (n.delay, first)
'''),
dict(id="c08-functional-bcr", prop="C08", edits=[("continual/container.py", "            out, n_state = module._forward_step(input, prev_state=prev_state[i])\n            next_state[i] = n_state\n            outs.append(out)\n        if all(isinstance(o, Tensor) for o in outs):\n            return self.reduce(outs), next_state\n        return None, next_state\n", "            out, n_state = module._forward_step(input, prev_state=prev_state[i])\n            next_state[i] = n_state\n            if not isinstance(out, Tensor):\n                return None, next_state\n            outs.append(out)\n        return self.reduce(outs), next_state\n")],
  needs="functional steps of a broadcast-reduce whose first branch emits nothing while later branches must still be advanced", breaks="branches after the one without an output are not advanced, so they are not aligned in time any more",
  demo='''
n = co.BroadcastReduce(co.Delay(2), co.Conv1d(1, 1, 3), reduce="sum").eval()
x = torch.randn(1, 1, 7)
with torch.no_grad():
    a, st = [], None
    for t in range(7):
        o, st = n._forward_step(x[:, :, t], st)
        a.append(o)
    b = [n.forward_step(x[:, :, t]) for t in range(7)]
assert all(same(p, q) for p, q in zip(a, b))
'''),
dict(id="c15-wrap", prop="C15", edits=[("continual/positional_encoding.py", "        state_index = (state_index + 1) % self.pe.num_embeddings\n        return output, (state_index,)", "        state_index = (state_index + 1) % max(\n            self.pe.num_embeddings, self.forward_update_index_steps + 1\n        )\n        return output, (state_index,)")],
  needs="functional steps past the number of embeddings with a whole-sequence increment of at least that number", breaks="the position runs past the table instead of wrapping around",
  demo='''
pe = co.RecyclingPositionalEncoding(2, 3, forward_update_index_steps=5)
x = torch.randn(1, 2, 9)
st = None
with torch.no_grad():
    for t in range(9):
        o, st = pe._forward_step(x[:, :, t], st)
        assert same(o, x[:, :, t] + pe.pe.weight[t % 3][None])
'''),
dict(id="c19-exc", prop="C19", edits=[("continual/utils.py", "    def __exit__(self, *args, **kwargs):\n        self.flatten = False\n", "    def __exit__(self, exc_type, *args, **kwargs):\n        if exc_type is None:\n            self.flatten = False\n")],
  needs="an exception leaving the flat_state_dict context", breaks="flattening stays on after the context",
  demo='''
net = co.Sequential(nn.Sequential(nn.Conv1d(1, 1, 3)))
try:
    with co.flat_state_dict:
        raise ValueError
except ValueError:
    pass
assert list(net.state_dict().keys()) == ["0.0.weight", "0.0.bias"], list(net.state_dict().keys())
'''),
dict(id="c20-delay-axes", prop="C20", edits=[("continual/delay.py", "        return [True, False] if self.delay > 0 else []\n", "        return [True, True] if self.delay > 0 else []\n")],
  needs="the dynamic axes of a network with a delay", breaks="the delay's index, which carries no batch, is advertised with a batch-dynamic axis",
  demo='''
from continual.onnx import OnnxWrapper
w = OnnxWrapper(co.Sequential(co.Delay(2), co.Conv1d(1, 1, 2)))
dyn = w.state_dynamic_axes
x = torch.randn(3, 1)
s = None
for _ in range(4):
    _, s = w.model._forward_step(x, s)
from continual.utils import flatten
flat = flatten(s, remove_none=False)
for i, t in enumerate(flat):
    assert (f"s{i}" in dyn) == (t.dim() > 0), i
'''),
dict(id="c21-lambda-steps", prop="C21", edits=[("continual/closure.py", "        if self.forward_steps_only_fn is not None:\n            return self.forward_steps_only_fn(input)\n", "        steps_fn = self.forward_steps_only_fn or self.forward_only_fn\n        if steps_fn is not None:\n            return steps_fn(input)\n")],
  needs="a lambda with a forward-only function and no multi-step one, in multi-step mode", breaks="the whole-sequence function is used in multi-step mode",
  demo='''
l = co.Lambda(lambda x: x + 1, forward_only_fn=lambda x: x * 3)
x = torch.randn(1, 2, 4)
assert same(l.forward_steps(x), x + 1)
assert same(l.forward(x), x * 3)
'''),
dict(id="c14-query-index", prop="C14", edits=[("continual/multihead_attention/single_output_mha.py", "    Nq = sequence_len - query_index - 1 if query_index >= 0 else -query_index - 1\n", "    Nq = sequence_len - max(query_index, 1) - 1 if query_index >= 0 else -query_index - 1\n")],
  needs="the oldest token selected with the non-negative query index 0", breaks="the step returns the row of the second-oldest query",
  demo='''
m = co.SingleOutputMultiheadAttention(4, 2, sequence_len=4, query_index=0, batch_first=True, embed_dim_second=True, forward_returns_attn_mask=False).eval()
x = torch.randn(1, 4, 7)
with torch.no_grad():
    for t in range(7):
        o = m.forward_step(x[:, :, t])
        if t >= 3:
            assert same(o, m.forward(x[:, :, t - 3 : t + 1]).squeeze(2)), t
        else:
            assert o is None
'''),
dict(id="c17-nested", prop="C17", edits=[("continual/module.py", "        if hasattr(self, \"__len__\"):\n            for m in self:\n                if hasattr(m, \"call_mode\"):\n                    m.call_mode = self._call_mode\n", "        if hasattr(self, \"__len__\"):\n            for m in self:\n                if hasattr(m, \"_call_mode\"):\n                    m._call_mode = self._call_mode\n")],
  needs="a container nested in a container, its mode set at the outer one", breaks="the mode is not handed on to the parts of inner containers",
  demo='''
inner = co.Sequential(co.Conv1d(1, 1, 2))
net = co.Sequential(inner)
net.call_mode = "forward_step"
assert int(inner[0].call_mode) == 2
'''),
dict(id="c18-avg3d", prop="C18", edits=[("continual/pooling.py", "        return AvgPool2d(\n            **{\n                **dict(\n                    kernel_size=module.kernel_size,\n                    stride=module.stride,\n                    padding=module.padding,\n                    ceil_mode=module.ceil_mode,\n                    count_include_pad=module.count_include_pad,", "        return AvgPool2d(\n            **{\n                **dict(\n                    kernel_size=module.kernel_size,\n                    stride=module.stride,\n                    padding=module.padding,\n                    ceil_mode=module.ceil_mode,\n                    count_include_pad=True,")],
  needs="conversion of an average pool with padding and count_include_pad=False", breaks="the converted pool counts the padding in its averages",
  demo='''
m = nn.AvgPool2d((1, 3), padding=(0, 1), stride=1, count_include_pad=False)
x = torch.randn(1, 2, 4, 6)
assert same(co.convert.continual(m).forward(x), m(x)) if hasattr(co, "convert") else same(co.continual(m).forward(x), m(x))
'''),
]
