SEEDS = [
dict(id="c02-space-swap", prop="C02", edits=[("continual/pooling.py", "            x = frame_selection.permute(1, 3, 4, 2, 0)  # B, H, W, C, T\n            x = x.reshape(B * H * W, C, T)\n            x = self._temporal_pool_fn(x)\n            x = x.reshape(B, H, W, C)\n            x = x.permute(0, 3, 1, 2)  # B, C, H, W\n", "            x = frame_selection.permute(1, 4, 3, 2, 0)  # B, W, H, C, T\n            x = x.reshape(B * H * W, C, T)\n            x = self._temporal_pool_fn(x)\n            x = x.reshape(B, W, H, C)\n            x = x.permute(0, 3, 2, 1) if H == W else x.reshape(B, H, W, C).permute(0, 3, 1, 2)  # B, C, H, W\n")],
  needs="a 3D pooling whose pooled frames are not square, run step by step", breaks="streamed outputs have their spatial positions scrambled",
  demo='''
p = co.AvgPool3d((2, 2, 1), stride=1)
x = torch.randn(1, 2, 4, 4, 5)
y = p.forward(x)
outs = torch.stack([o for o in (p.forward_step(x[:, :, t]) for t in range(4)) if isinstance(o, torch.Tensor)], 2)
assert same(outs, y)
'''),
dict(id="c08-max-ends", prop="C08", edits=[("continual/container.py", "    return reduce(torch.max, inputs[1:], inputs[0])\n", "    return torch.max(inputs[0], inputs[-1])\n")],
  needs="a maximum reduction over three or more branches", breaks="the branches in the middle are ignored",
  demo='''
n = co.BroadcastReduce(co.Add(1), co.Add(5), co.Add(2), reduce="max")
x = torch.randn(1, 2, 4)
assert same(n.forward(x), x + 5)
assert same(n.forward_step(x[:, :, 0]), x[:, :, 0] + 5)
'''),
dict(id="c09-unwrap", prop="C09", edits=[("continual/container.py", "                return [dispatch(m) for m in mapping]\n", "                out = [dispatch(m) for m in mapping]\n                return out[0] if len(out) == 1 else out\n")],
  needs="a dispatch mapping with a group of a single stream (or a single-entry mapping)", breaks="the group arrives as a bare stream instead of a list of one",
  demo='''
d = co.ParallelDispatch([[1], 0])
a, b = torch.randn(1, 2, 3), torch.randn(1, 2, 3)
o = d.forward([a, b])
assert isinstance(o[0], list) and o[0][0] is b and o[1] is a
'''),
dict(id="c10-rf-stride", prop="C10", edits=[("continual/container.py", "            s = s[0]\n            rf = s * rf + m.receptive_field - s\n", "            s = s[-1]\n            rf = s * rf + m.receptive_field - s\n")],
  needs="a sequential network with a 2D or 3D module whose temporal stride differs from its spatial one, followed by another module with temporal extent", breaks="the advertised receptive field and delay are wrong",
  demo='''
n = co.Sequential(co.Conv2d(1, 1, (3, 3), stride=(1, 2), padding=(0, 1)), co.Conv2d(1, 1, (4, 1))).eval()
assert n.receptive_field == 6 and n.delay == 5, (n.receptive_field, n.delay)
'''),
dict(id="c11-padend", prop="C11", edits=[("continual/container.py", "            return self._modules[\"1\"].forward_steps(\n                input, pad_end=pad_end, update_state=update_state\n            )\n", "            return self._modules[\"1\"].forward_steps(\n                input, update_state=update_state\n            )\n")],
  needs="an end-padded multi-step call of a conditional whose predicate selects the second branch", breaks="the outputs for the end padding are missing",
  demo='''
n = co.Conditional(lambda m, x: False, co.Conv1d(1, 1, 3, padding=1), co.Conv1d(1, 1, 3, padding=1)).eval()
x = torch.randn(1, 1, 6)
with torch.no_grad():
    assert same(n.forward_steps(x, pad_end=True), n.forward(x))
'''),
dict(id="c16-select", prop="C16", edits=[("continual/transformer.py", "        return x[:, :, -1 - self._delay].unsqueeze(2)\n", "        return x[:, :, -1:]\n")],
  needs="a single-output encoder layer with single_output_forward and a query index other than the last position, in whole-sequence mode", breaks="the residual of the wrong token is added to the attention output",
  demo='''
l = co.SingleOutputTransformerEncoderLayer(d_model=4, nhead=2, dim_feedforward=8, dropout=0.0, sequence_len=5, single_output_forward=True, query_index=2).eval()
f = co.SingleOutputTransformerEncoderLayer(d_model=4, nhead=2, dim_feedforward=8, dropout=0.0, sequence_len=5, single_output_forward=False, query_index=2).eval()
f.load_state_dict(l.state_dict())
x = torch.randn(2, 4, 5)
with torch.no_grad():
    assert same(l.forward(x), f.forward(x)[:, :, 2:3])
'''),
dict(id="c20-delay0", prop="C20", edits=[("continual/delay.py", "        return [True, False] if self.delay > 0 else []\n", "        return [True, False]\n")],
  needs="a delay of zero inside a network that is exported", breaks="the marks for batch-dynamic states are shifted with respect to the state tensors",
  demo='''
from continual.onnx import OnnxWrapper
n = co.Sequential(co.Delay(0), co.Conv1d(1, 1, 3))
w = OnnxWrapper(n)
assert set(w.state_dynamic_axes) == {"s0", "ns0"}, w.state_dynamic_axes
'''),
dict(id="c06-skip-saved", prop="C06", edits=[("continual/skip.py", "        self.register_buffer(\"state_index\", torch.tensor(-self.steps), persistent=False)\n", "        self.register_buffer(\"state_index\", torch.tensor(-self.steps))\n")],
  needs="saving a network with a skip in mid-stream and loading it elsewhere", breaks="the streaming state is part of the saved parameters",
  demo='''
s = co.Skip(3)
for t in range(5):
    s.forward_step(torch.randn(1, 2))
assert len(s.state_dict()) == 0
'''),
dict(id="c04-endpad-first", prop="C04", edits=[("continual/module.py", "                [self._make_padding(input[:, :, -1]) for _ in range(self.padding[0])]\n", "                [self._make_padding(input[:, :, 0]) for _ in range(self.padding[0])]\n")],
  needs="an end-padded call of a replicate-padded module", breaks="the sequence is extended with its first frame instead of its last",
  demo='''
c = co.Conv1d(1, 1, 3, padding=1, padding_mode="replicate", temporal_fill="replicate").eval()
x = torch.randn(1, 1, 6)
with torch.no_grad():
    assert same(c.forward_steps(x, pad_end=True), c.forward(x))
'''),
dict(id="c12-squeeze", prop="C12", edits=[("continual/rnn.py", "        output, new_state = nn.GRU.forward(self, input, hidden_state)\n        output = output.squeeze(1)  # B, T, C -> B, C\n", "        output, new_state = nn.GRU.forward(self, input, hidden_state)\n        output = output.squeeze()  # B, T, C -> B, C\n")],
  needs="steps of a GRU with a batch of one or a single hidden feature", breaks="the step output loses its batch or feature axis",
  demo='''
g = co.GRU(3, 4)
x = torch.randn(1, 3, 5)
with torch.no_grad():
    y, _ = g.forward(x)
    for t in range(5):
        assert same(g.forward_step(x[:, :, t]), y[:, :, t])
'''),
dict(id="c12-h0", prop="C12", edits=[("continual/rnn.py", "        hidden_state = (self.get_state() or (None,))[0]\n        output, new_state = self.forward(input, hidden_state)\n        if update_state:\n            self.set_state((new_state,))\n        return output\n\n\nclass GRU", "        hidden_state = (self.get_state() or (None,))[0]\n        output, new_state = self.forward(input, hidden_state)\n        if update_state:\n            self.set_state((new_state[-1:].expand_as(new_state),))\n        return output\n\n\nclass GRU")],
  needs="a recurrent module of several layers that is continued after a multi-step call", breaks="every layer continues from the last layer's hidden state",
  demo='''
g = co.RNN(3, 4, num_layers=2)
x = torch.randn(2, 3, 6)
with torch.no_grad():
    y, h = g.forward(x)
    g.forward_steps(x[:, :, :4])
    assert same(g.forward_steps(x[:, :, 4:]), y[:, :, 4:])
'''),
dict(id="c13-kv", prop="C13", edits=[("continual/multihead_attention/retroactive_mha.py", "    AV_add = torch.bmm(A_right, v_step.unsqueeze(1))\n", "    AV_add = torch.bmm(A_right, v_step.unsqueeze(1))\n    V_mem = V_mem if V_mem.shape[1] > 2 else torch.roll(V_mem, shifts=1, dims=(1,))\n")],
  needs="a retroactive attention window of two tokens", breaks="the values of the window are taken in the wrong order",
  demo='''
m = co.RetroactiveMultiheadAttention(4, 2, sequence_len=2, batch_first=True, embed_dim_second=True, forward_returns_attn_mask=False).eval()
x = torch.randn(1, 4, 5)
with torch.no_grad():
    for t in range(5):
        o = m.forward_step(x[:, :, t])
        if t >= 1:
            assert same(o, m.forward(x[:, :, t - 1 : t + 1]), 1e-4), t
'''),
dict(id="c03-restart", prop="C03", edits=[("continual/delay.py", "        if new_index > 0:\n            new_index = new_index % self.delay\n", "        if new_index > self.delay:\n            new_index = new_index % self.delay\n")],
  needs="a delay that has run for a whole period beyond its fill", breaks="the ring buffer is read past its end",
  demo='''
d = co.Delay(2)
x = torch.randn(1, 2, 9)
for t in range(9):
    o = d.forward_step(x[:, :, t])
    assert o is None if t < 2 else same(o, x[:, :, t - 2]), t
'''),
dict(id="c03-centered", prop="C03", edits=[("continual/delay.py", "        return input[:, :, self.delay : -self.delay]\n", "        return input[:, :, self.delay : -self.delay] if input.shape[2] != 4 * self.delay else input[:, :, self.delay - 1 : -self.delay - 1]\n")],
  needs="a centred shrinking delay over a sequence four times its delay", breaks="the whole-sequence mode cuts off the wrong steps",
  demo='''
d = co.Delay(2, auto_shrink=True)
x = torch.randn(1, 2, 8)
assert same(d.forward(x), x[:, :, 2:6])
'''),
dict(id="c07-append", prop="C07", edits=[("continual/container.py", "        self.add_module(str(len(self)), module)\n        return self\n", "        self.add_module(str(len(list(self.modules())) - 1), module)\n        return self\n")],
  needs="appending several modules of which an earlier one is nested", breaks="nothing at first; names are not consecutive any more", demo='''
n = co.Sequential(co.Sequential(co.Add(1), co.Add(2)))
n.append(co.Add(3)); n.append(co.Add(4))
assert list(n._modules) == ["0", "1", "2"], list(n._modules)
'''),
dict(id="c07-strided", prop="C07", edits=[("continual/container.py", "            if not type(input) in {Tensor, list}:\n                return None\n        return input\n\n    def _forward_step(self, input: torch.Tensor, prev_state: List[State]):", "            if not type(input) in {Tensor, list} and not getattr(module, \"stride\", (1,))[0] > 2:\n                return None\n        return input\n\n    def _forward_step(self, input: torch.Tensor, prev_state: List[State]):")],
  needs="a part with a temporal stride of three or more", breaks="the stages behind it are fed nothing and fail", demo='''
n = co.Sequential(co.Conv1d(1, 1, 1, stride=3), co.Conv1d(1, 1, 1)).eval()
x = torch.randn(1, 1, 9)
with torch.no_grad():
    outs = [n.forward_step(x[:, :, t]) for t in range(9)]
assert sum(isinstance(o, torch.Tensor) for o in outs) == 3
'''),
dict(id="c18-ceil", prop="C18", edits=[("continual/pooling.py", "                    padding=module.padding,\n                    ceil_mode=module.ceil_mode,\n                    count_include_pad=module.count_include_pad,\n                    dilation=dilation,\n", "                    padding=module.padding,\n                    ceil_mode=module.ceil_mode,\n                    dilation=dilation,\n")],
  needs="converting a 1D average pooling with count_include_pad=False", breaks="the option is silently dropped", demo='''
p = nn.AvgPool1d(3, stride=1, padding=1, count_include_pad=False)
x = torch.randn(1, 2, 7)
assert same(co.continual(p).forward(x), p(x))
'''),
]
