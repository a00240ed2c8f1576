SEEDS = [
dict(id="c04-pad-short", prop="C04", edits=[("continual/module.py", "for _ in range(self.padding[0])]", "for _ in range(min(self.padding[0], input.shape[2]))]")],
  needs="an end-padded call whose chunk is shorter than the end padding", breaks="some of the outputs of the end padding are missing",
  demo='''
m = co.Conv1d(1, 1, 5, padding=2).eval()
x = torch.randn(1, 1, 7)
with torch.no_grad():
    a = m.forward_steps(x[:, :, :6])
    b = m.forward_steps(x[:, :, 6:], pad_end=True)
    y = m.forward(x)
assert same(torch.cat([a, b], 2), y)
'''),
dict(id="c10-rf-k1", prop="C10", edits=[("continual/container.py", "            rf = s * rf + m.receptive_field - s\n", "            rf = s * rf + m.receptive_field - s if m.receptive_field > 1 else rf\n")],
  needs="a strided module with a temporal extent of one in front of another module with temporal extent", breaks="the advertised receptive field and delay are too small",
  demo='''
n = co.Sequential(co.Conv1d(1, 1, 1, stride=2), co.Conv1d(1, 1, 3)).eval()
assert n.receptive_field == 5, n.receptive_field
with torch.no_grad():
    outs = [n.forward_step(torch.randn(1, 1)) for _ in range(8)]
assert [isinstance(o, torch.Tensor) for o in outs].index(True) == n.delay
'''),
dict(id="c14-roll-size", prop="C14", edits=[("continual/multihead_attention/single_output_mha.py", "    q_sel = (Q_mem[:, 0] if Q_mem.shape[1] > 0 else q_step).unsqueeze(1)", "    q_sel = (Q_mem[:, 0] if Q_mem.shape[1] > 1 else q_step).unsqueeze(1)")],
  needs="a single-output attention whose query is the last but one position", breaks="the newest query is used instead of the chosen one",
  demo='''
m = co.SingleOutputMultiheadAttention(4, 2, batch_first=True, embed_dim_second=True, sequence_len=5, query_index=3, single_output_forward=False).eval()
x = torch.randn(2, 4, 7)
with torch.no_grad():
    o = None
    for t in range(5):
        o = m.forward_step(x[:, :, t])
    y = m.forward(x[:, :, :5])
    y = y[0] if isinstance(y, tuple) else y
    o = o[0] if isinstance(o, tuple) else o
assert same(o.reshape(2, 4), y[:, :, 3]), (o, y)
'''),
dict(id="c15-steps-trunc", prop="C15", edits=[("continual/positional_encoding.py", "input.shape[2] if update_state else 0", "min(input.shape[2], self.pe.num_embeddings - 1) if update_state else 0")],
  needs="a multi-step call with as many steps as there are embeddings", breaks="the encoding of the following steps lags one position behind",
  demo='''
m = co.RecyclingPositionalEncoding(4, 5)
z = torch.zeros(1, 4, 5)
with torch.no_grad():
    a = m.forward_steps(z)
    b = m.forward_step(z[:, :, 0])
assert same(b, a[:, :, 0])
'''),
dict(id="c20-order", prop="C20", edits=[("continual/onnx.py", "        outs = {self._i2o_name(k): v for k, v in ins.items()}\n", "        outs = {self._i2o_name(sn): {0: \"batch\"} for sn, i in zip(sorted(self.state_input_names), isdyn) if i}\n")],
  needs="a network with more than ten state tensors", breaks="the wrong output state tensors are marked as batch-dynamic",
  demo='''
from continual.onnx import OnnxWrapper
n = co.Sequential(*[co.Conv1d(1, 1, 3) for _ in range(6)])
w = OnnxWrapper(n)
ax = w.state_dynamic_axes
assert {k for k in ax if k.startswith("n")} == {"n" + k for k in ax if not k.startswith("n")}, ax
'''),
dict(id="c11-pointwise", prop="C11", edits=[("continual/container.py", "                if on_false.delay == self._delay\n", "                if on_false.delay == self._delay or on_false.receptive_field == 1\n")],
  needs="a conditional whose second branch looks at one time step only while the first one has a delay", breaks="the branches are not aligned",
  demo='''
n = co.Conditional(lambda m, x: False, co.Conv1d(1, 1, 3), co.Conv1d(1, 1, 1)).eval()
x = torch.randn(1, 1, 6)
with torch.no_grad():
    outs = [n.forward_step(x[:, :, t]) for t in range(6)]
    y = n._modules["1"].forward(x)
assert n.delay == 2 and not isinstance(outs[1], torch.Tensor)
assert same(torch.stack(outs[2:], 2), y[:, :, :4])
'''),
dict(id="c12-gru-chunk1", prop="C12", edits=[("continual/rnn.py", "        hidden_state = (self.get_state() or (None,))[0]\n        output, new_state = self.forward(input, hidden_state)\n        if update_state:\n            self.set_state((new_state,))\n        return output\n", "        hidden_state = (self.get_state() or (None,))[0]\n        output, new_state = self.forward(input, hidden_state)\n        if update_state and (hidden_state is None or input.shape[2] > 1):\n            self.set_state((new_state,))\n        return output\n")],
  needs="a multi-step call with a single time step in mid-stream of an RNN", breaks="the state is not updated",
  demo='''
m = co.RNN(3, 4).eval()
x = torch.randn(1, 3, 5)
with torch.no_grad():
    y, _ = m.forward(x)
    outs = [m.forward_steps(x[:, :, :2]), m.forward_steps(x[:, :, 2:3]), m.forward_steps(x[:, :, 3:])]
assert same(torch.cat(outs, 2), y)
'''),
dict(id="c18-rnn-relu", prop="C18", edits=[("continual/rnn.py", "                    nonlinearity=module.nonlinearity,\n", "                    nonlinearity=\"tanh\",\n")],
  needs="the conversion of a recurrent network with the relu non-linearity", breaks="the non-linearity is not carried over",
  demo='''
m = nn.RNN(3, 4, nonlinearity="relu", batch_first=True).eval()
c = co.continual(m).eval()
x = torch.randn(2, 3, 6)
with torch.no_grad():
    a, _ = m(x.swapaxes(1, 2))
    b, _ = c.forward(x)
assert same(a.swapaxes(1, 2), b)
'''),
]
