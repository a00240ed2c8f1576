SEEDS = [
dict(id="c03-alias", prop="C03", edits=[("continual/delay.py", "        buffer[index % self.delay] = input\n", "        if self.delay == 1:\n            buffer = input.unsqueeze(0)\n        else:\n            buffer[index % self.delay] = input\n")],
  needs="a delay of one step and a caller that writes every frame into the same tensor", breaks="the delayed frame changes with the caller's tensor",
  demo='''
m = co.Delay(1)
x = torch.randn(1, 2, 5)
frame = torch.empty(1, 2)
for t in range(5):
    frame.copy_(x[:, :, t])
    o = m.forward_step(frame)
    if t > 0:
        assert same(o, x[:, :, t - 1]), t
'''),
dict(id="c14-dtype", prop="C14", edits=[("continual/multihead_attention/mha_base.py", "                    dtype=query.dtype,\n", "")],
  needs="a module whose precision is not torch's default", breaks="the state has the default precision, so that stepping fails or loses precision",
  demo='''
m = co.SingleOutputMultiheadAttention(4, 2, batch_first=True, embed_dim_second=True, sequence_len=3).eval().double()
x = torch.randn(2, 4, 3).double()
with torch.no_grad():
    for t in range(3):
        o = m.forward_step(x[:, :, t])
    y = m.forward(x)
o, y = (v[0] if isinstance(v, tuple) else v for v in (o, y))
assert o.dtype == torch.float64
assert same(o.reshape(2, 4), y.reshape(2, 4), 1e-9)
'''),
]
SEEDS += [
dict(id="c21-view", prop="C21", edits=[("continual/shape.py", "        x = input.reshape(self.shape)", "        x = input.view(self.shape)")],
  needs="a step taken out of a longer sequence, not contiguous in memory, in single-step mode", breaks="the step is refused although the sequence is accepted",
  demo='''
m = co.Reshape(6)
x = torch.randn(4, 2, 5, 3).permute(0, 3, 2, 1)[:2]
m = co.Reshape(2, 6)
with torch.no_grad():
    y = m.forward(x)
    for t in range(5):
        assert same(m.forward_step(x[:, :, t]), y[:, :, t]), t
'''),
]
