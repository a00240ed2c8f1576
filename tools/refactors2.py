# ---------------------------------------------------------------- conv.py
E("conv-init", "conv.py",
  ("""        repeat_shape = [self.kernel_size[0] - 1]
        repeat_shape.extend((1,) * len(self.input_shape_desciption))
        state_buffer = padding.repeat(repeat_shape)
        state_index = torch.tensor(0)
        stride_index = torch.tensor(
            self.stride[0] - len(state_buffer) - 1 + self.padding[0]
        )
        return (state_buffer, state_index, stride_index)
""", """        num_taps = self.kernel_size[0] - 1
        state_buffer = padding.repeat(
            (num_taps, *([1] * len(self.input_shape_desciption)))
        )
        wait = self.stride[0] + self.padding[0] - self.kernel_size[0]
        return (state_buffer, torch.tensor(0), torch.tensor(wait))
"""))
E("conv-select", "conv.py",
  ("""            x_out = x_out + (
                torch.sum(
                    buffer[
                        torch.remainder(torch.arange(tot) + index, tot),
                        :,
                        :,
                        torch.arange(tot - 1, -1, -1),
                    ],
                    dim=0,
                )
            )
""", """            slots = (torch.arange(tot) + index) % tot
            taps = tot - 1 - torch.arange(tot)
            partials = buffer[slots, :, :, taps]
            x_out = x_out + partials.sum(0)
"""))
E("conv-tail", "conv.py",
  ("""        next_stride_index = stride_index + 1
        if next_stride_index > 0:
            next_stride_index = next_stride_index % self.stride[0]

        if output_is_valid:
            return x_out, (next_buffer, next_index, next_stride_index)
        return None, (next_buffer, next_index, next_stride_index)
""", """        next_stride_index = self._advance(stride_index)
        new_state = (next_buffer, next_index, next_stride_index)
        return (x_out if output_is_valid else None), new_state

    def _advance(self, stride_index):
        following = stride_index + 1
        return following % self.stride[0] if following > 0 else following
"""))
E("conv-in", "conv.py",
  ("""        if self.padding_mode == "zeros":
            x = self._conv_func(
                input=x,
                weight=self.weight,
                bias=None,
                stride=self._step_stride,
                padding=self._step_padding,
                dilation=self.dilation,
                groups=self.groups,
            )
        else:
            x = self._conv_func(
                input=F.pad(x, self._step_space_rprt, mode=self.padding_mode),
                weight=self.weight,
                bias=None,
                stride=self._step_stride,
                padding=self._step_time_pad,
                dilation=self.dilation,
                groups=self.groups,
            )

        x_out, x_rest = x[:, :, 0], x[:, :, 1:]
""", """        padding = self._step_padding
        if self.padding_mode != "zeros":
            x = F.pad(x, self._step_space_rprt, mode=self.padding_mode)
            padding = self._step_time_pad
        x = self._conv_func(
            x,
            self.weight,
            None,
            self._step_stride,
            padding,
            self.dilation,
            self.groups,
        )
        x_out = x.select(2, 0)
        x_rest = x.narrow(2, 1, x.shape[2] - 1)
"""),
  ("""            if self.bias is not None:
                bias = self.bias.unsqueeze(0)
                for _ in range(self._input_len - 3):
                    bias = bias.unsqueeze(-1)
                x_out += bias
""", """            if self.bias is not None:
                x_out = x_out + self.bias.reshape(
                    (1, -1) + (1,) * (self._input_len - 3)
                )
"""))
E("conv-state", "conv.py",
  ("""        if self.kernel_size[0] > 1:
            next_buffer = buffer.clone() if self.training else buffer
            next_buffer[index] = x_rest
            next_index = (index + 1) % tot
        else:
            next_buffer = buffer
            next_index = index
""", """        next_buffer, next_index = buffer, index
        if tot > 0:
            if self.training:
                next_buffer = next_buffer.clone()
            next_buffer[index] = x_rest
            next_index = torch.remainder(index + 1, tot)
"""))
E("conv-fwd", "conv.py",
  ("""        if self.padding_mode == "zeros":
            output = self._conv_func(
                input=input,
                weight=self.weight,
                bias=self.bias,
                stride=self.stride,
                padding=self.padding,
                dilation=self.dilation,
                groups=self.groups,
            )
        else:
            output = self._conv_func(
                input=F.pad(
                    input, self._reversed_padding_repeated_twice, mode=self.padding_mode
                ),
                weight=self.weight,
                bias=self.bias,
                stride=self.stride,
                padding=(0,) * len(self.padding),
                dilation=self.dilation,
                groups=self.groups,
            )

        return output
""", """        padding = self.padding
        if self.padding_mode != "zeros":
            twice = self._reversed_padding_repeated_twice
            input = F.pad(input, twice, mode=self.padding_mode)
            padding = (0,) * len(self.padding)
        return self._conv_func(
            input,
            self.weight,
            self.bias,
            stride=self.stride,
            padding=padding,
            dilation=self.dilation,
            groups=self.groups,
        )
"""))
# ---------------------------------------------------------------- pooling.py
E("pool-init", "pooling.py",
  ("""        state_buffer = torch.stack(
            [padding for _ in range(buf_len)],
            dim=0,
        )
        state_index = torch.tensor(0)
        stride_index = torch.tensor(self.stride[0] - buf_len + self.padding[0])

        return state_buffer, state_index, stride_index
""", """        state_buffer = padding.unsqueeze(0).repeat(buf_len, *[1] * padding.dim())
        first = self.stride[0] + self.padding[0] - self.receptive_field
        return state_buffer, torch.tensor(0), torch.tensor(first)
"""))
E("pool-step", "pooling.py",
  ("""        pooled_frame = self._spatial_pool_fn(input)
        buffer, index, stride_index = prev_state or self.init_state(pooled_frame)
        buffer[index] = pooled_frame

        next_buffer = buffer  # .clone() if self.training else buffer.detach()
        next_index = (index + 1) % len(buffer)
        next_stride_index = stride_index + 1
        if next_stride_index > 0:
            next_stride_index = next_stride_index % self.stride[0]

        output = None
        if stride_index == self.stride[0] - 1:
            if self.dilation[0] == 1:
                frame_selection = buffer
            else:
                frame_selection = buffer.index_select(
                    dim=0,
                    index=torch.remainder(
                        self._frame_index_selection + next_index, len(buffer)
                    ),
                )
            output = self._reshaped_temporal_pool_fn(frame_selection)

        return output, (next_buffer, next_index, next_stride_index)
""", """        frame = self._spatial_pool_fn(input)
        if prev_state is None:
            prev_state = self.init_state(frame)
        buffer, index, stride_index = prev_state
        buffer[index] = frame
        index = torch.remainder(index + 1, buffer.shape[0])

        output = None
        if stride_index == self.stride[0] - 1:
            output = self._reshaped_temporal_pool_fn(self._window(buffer, index))

        stride_index = stride_index + 1
        if stride_index > 0:
            stride_index = stride_index % self.stride[0]
        return output, (buffer, index, stride_index)

    def _window(self, buffer, oldest):
        if self.dilation[0] == 1:
            return buffer
        return buffer[(self._frame_index_selection + oldest) % len(buffer)]
"""))
E("pool-2d", "pooling.py",
  ("""            x = frame_selection.permute(1, 3, 2, 0)  # B, S, C, T
            x = x.reshape(B * S, C, T)
            x = self._temporal_pool_fn(x)
            x = x.reshape(B, S, C)
            x = x.permute(0, 2, 1)  # B, C, S
            return x
""", """            x = frame_selection.permute(1, 2, 3, 0)  # B, C, S, T
            x = self._temporal_pool_fn(x.reshape(B, C * S, T))
            return x.reshape(B, C, S)
"""))
# ---------------------------------------------------------------- container.py
E("con-reduce", "container.py",
  ("""    return reduce(torch.Tensor.add, inputs[1:], inputs[0])
""", """    total = inputs[0]
    for term in inputs[1:]:
        total = total + term
    return total
"""),
  ("""    return reduce(torch.Tensor.mul, inputs[1:], inputs[0])
""", """    out, *rest = inputs
    for factor in rest:
        out = torch.mul(out, factor)
    return out
"""),
  ("""    return reduce(torch.max, inputs[1:], inputs[0])
""", """    best = inputs[0]
    for other in inputs[1:]:
        best = torch.maximum(best, other)
    return best
"""),
  ("""    return torch.cat(inputs, dim=1)  #""", """    return torch.concat(list(inputs), 1)  #"""),
  ("""        if any(inp is None or inp.shape[0] == 0 for inp in inputs):
            return None  # pragma: no cover
        return fn(inputs)
""", """        for inp in inputs:
            if inp is None or inp.shape[0] == 0:
                return None
        return fn(inputs)
"""))
E("con-par", "container.py",
  ("""        prev_state = prev_state or [None for _ in range(len(self))]
        outs, next_state = [], []
        for i, module in enumerate(self):
            if inputs[i] is None:  # No output from preceding module yet
                out, n_state = None, prev_state[i]
            else:
                out, n_state = module._forward_step(
                    inputs[i], prev_state=prev_state[i]
                )
            outs.append(out)
            next_state.append(n_state)
        return outs, next_state
""", """        if not prev_state:
            prev_state = [None] * len(self)
        results = []
        for module, inp, st in zip(self, inputs, prev_state):
            if inp is None:  # No output from preceding module yet
                results.append((None, st))
            else:
                results.append(module._forward_step(inp, prev_state=st))
        return [r[0] for r in results], [r[1] for r in results]
"""),
  ("""        outs = []
        for i, m in enumerate(self):
            if inputs[i] is None:  # No output from preceding module yet
                outs.append(None)
                continue
            with temporary_parameter(m, "call_mode", _callmode("forward_step")):
                outs.append(m(inputs[i], update_state=update_state))
        return outs
""", """        def run(m, x):
            if x is None:
                return None
            with temporary_parameter(m, "call_mode", _callmode("forward_step")):
                return m(x, update_state=update_state)

        return [run(m, inputs[i]) for i, m in enumerate(self)]
"""))
E("con-seq-forward", "container.py",
  ("""        for m in self:
            with temporary_parameter(m, "call_mode", _callmode("forward")):
                input = apply_forward(m, input)
        return input
""", """        x = input
        for m in self._modules.values():
            with temporary_parameter(m, "call_mode", _callmode("forward")):
                x = apply_forward(m, x)
        return x
"""),
  ("""            if not type(input) in {Tensor, list}:
                return None
        return input
""", """            if type(input) is not Tensor and type(input) is not list:
                return None
        return input
"""),
  ("""        prev_state = prev_state or [None for _ in range(len(self))]
        next_state = prev_state.copy()
        for i, module in enumerate(self):
            input, n_state = module._forward_step(input, prev_state=prev_state[i])
            next_state[i] = n_state
            if input is None:
                return None, next_state
        return input, next_state
""", """        states = [*prev_state] if prev_state else [None] * len(self)
        out = input
        for i, module in enumerate(self):
            out, states[i] = module._forward_step(out, prev_state=states[i])
            if out is None:
                break
        return out, states
"""),
  ("""        for m in self:
            if not type(input) in {Tensor, list} or len(input) == 0:
                return None  # pragma: no cover
            # ptflops only works when __call__ is triggered
            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
                # == m.forward_steps
                input = m(input, pad_end=pad_end, update_state=update_state)

        return input
""", """        kwargs = dict(pad_end=pad_end, update_state=update_state)
        for m in self:
            usable = type(input) in {Tensor, list} and len(input) > 0
            if not usable:
                return None
            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
                input = m(input, **kwargs)
        return input
"""))
E("con-seq-props", "container.py",
  ("""        reverse_modules = [m for m in self][::-1]
        rf = reverse_modules[0].receptive_field
        for m in reverse_modules[1:]:
            s = getattr(m, "stride", [1])
            s = s[0]
            rf = s * rf + m.receptive_field - s
        return rf
""", """        rf, jump = 1, 1
        for m in self:
            rf += (m.receptive_field - 1) * jump
            jump *= getattr(m, "stride", [1])[0]
        return rf
"""),
  ("""        m = [m for m in self]
        p = m[0].padding[0]
        s = m[0].stride[0]
        for i in range(1, len(m)):
            p += m[i].padding[0] * s
            s = s * m[i].stride[0]
        return (p,)
""", """        total, jump = 0, 1
        for m in self:
            total += jump * m.padding[0]
            jump *= m.stride[0]
        return (total,)
"""),
  ("""        tot = 1
        for m in self:
            tot *= m.stride[0]
        return (tot,)
""", """        return (reduce(lambda a, m: a * m.stride[0], self, 1),)
"""))
E("con-bcr", "container.py",
  ("""        prev_state = prev_state or [None for _ in range(len(self))]
        next_state = prev_state.copy()
        outs = []
        for i, module in enumerate(self):
            out, n_state = module._forward_step(input, prev_state=prev_state[i])
            next_state[i] = n_state
            outs.append(out)
        if all(isinstance(o, Tensor) for o in outs):
            return self.reduce(outs), next_state
        return None, next_state
""", """        prev_state = prev_state or [None] * len(self)
        outs, next_state = [], []
        for module, st in zip(self, prev_state):
            out, st = module._forward_step(input, prev_state=st)
            outs.append(out)
            next_state.append(st)
        return self._combine(outs), next_state

    def _combine(self, outs):
        if not all(isinstance(o, Tensor) for o in outs):
            return None
        return self.reduce(outs)
"""),
  ("""        if all(isinstance(o, Tensor) for o in outs):
            return self.reduce(outs)

        return None
""", """        return self._combine(outs)
"""),
  ("""        if auto_delay:
            # If there is a delay mismatch, automatically add delay to match the longest
            max_delay = max([m.delay for _, m in modules])
            modules = [
                (
                    key,
                    (
                        Sequential(module, Delay(max_delay - module.delay))
                        if module.delay < max_delay
                        else module
                    ),
                )
                for key, module in modules
            ]
""", """        if auto_delay:
            longest = max(m.delay for _, m in modules)
            aligned = []
            for key, module in modules:
                missing = longest - module.delay
                if missing > 0:
                    module = Sequential(module, Delay(missing))
                aligned.append((key, module))
            modules = aligned
"""))
E("con-residual", "container.py",
  ("""    delay = module.delay
    equal_padding = module.receptive_field - num_from(module.padding) * 2 == 1
    if equal_padding:
        residual_shrink = False

    if residual_shrink in {True, "centered"}:
        assert delay % 2 == 0, "Auto-shrink only works for even-number delays."
        delay = delay // 2

    if residual_shrink == "leading":
        res = Skip(delay)
    else:
        res = Delay(delay, temporal_fill, auto_shrink=residual_shrink)

    return BroadcastReduce(
        res,  # Residual first yields easier broadcasting in reduce functions
        module,
        reduce=reduce,
        auto_delay=False,
    )
""", """    steps = module.delay
    if module.receptive_field == 1 + 2 * num_from(module.padding):
        residual_shrink = False

    if residual_shrink == "leading":
        shortcut = Skip(steps)
    else:
        if residual_shrink in {True, "centered"}:
            assert steps % 2 == 0, "Auto-shrink only works for even-number delays."
            steps //= 2
        shortcut = Delay(steps, temporal_fill, auto_shrink=residual_shrink)

    branches = (shortcut, module)
    return BroadcastReduce(*branches, reduce=reduce, auto_delay=False)
"""))
E("con-cond", "container.py",
  ("""        if self.predicate(self, input):
            return self._modules["0"].forward_step(input, update_state=update_state)
        elif "1" in self._modules:
            return self._modules["1"].forward_step(input, update_state=update_state)
        return input
""", """        chosen = self._select(input)
        if chosen is None:
            return input
        return chosen.forward_step(input, update_state=update_state)

    def _select(self, input):
        key = "0" if self.predicate(self, input) else "1"
        return self._modules.get(key)
"""),
  ("""        if self.predicate(self, input):
            input, next_state[0] = self._modules["0"]._forward_step(
                input, prev_state[0]
            )
        elif "1" in self._modules:
            input, next_state[1] = self._modules["1"]._forward_step(
                input, prev_state[1]
            )
        return input, next_state
""", """        k = 0 if self.predicate(self, input) else 1
        if str(k) in self._modules:
            input, next_state[k] = self._modules[str(k)]._forward_step(
                input, prev_state[k]
            )
        return input, next_state
"""))
E("con-disp", "container.py",
  ("""        def dispatch(mapping):
            nonlocal input
            if isinstance(mapping, abc.Sequence):
                return [dispatch(m) for m in mapping]
            else:
                return input[mapping]

        return dispatch(self.dispatch_mapping)
""", """        return self._dispatch(self.dispatch_mapping, input)

    @classmethod
    def _dispatch(cls, mapping, streams):
        if not isinstance(mapping, abc.Sequence):
            return streams[mapping]
        grouped = []
        for m in mapping:
            grouped.append(cls._dispatch(m, streams))
        return grouped
"""))
# ---------------------------------------------------------------- multihead_attention
E("mha-base-step", "multihead_attention/mha_base.py",
  ("""        stride_index = prev_state[-1]
        if stride_index < 0:
            stride_index += 1

        new_state = (*new_state, stride_index)

        return (
            None if stride_index < 0 else o,
            new_state,
        )
""", """        count = prev_state[-1]
        if count < 0:
            count = count + 1
        ready = count >= 0
        return (o if ready else None), new_state + (count,)
"""))
E("mha-base-steps", "multihead_attention/mha_base.py",
  ("""        if self.batch_first:
            query, key, value = [x.transpose(1, 0) for x in (query, key, value)]

        tmp_state""", """        if self.batch_first:
            query = query.transpose(0, 1)
            key = key.transpose(0, 1)
            value = value.transpose(0, 1)

        tmp_state"""),
  ("""            o, tmp_state = MultiheadAttentionBase._forward_step(
                self, query[t], key[t], value[t], tmp_state
            )

            if isinstance(o, Tensor):
                if self.batch_first:
                    o = o.transpose(0, 1)
                outs.append(o)
""", """            q, k, v = query[t], key[t], value[t]
            o, tmp_state = MultiheadAttentionBase._forward_step(
                self, q, k, v, tmp_state
            )
            if o is None:
                continue
            outs.append(o.transpose(0, 1) if self.batch_first else o)
"""))
E("mha-base-forward", "multihead_attention/mha_base.py",
  ("""        if self.embed_dim_second:
            query = query.permute(0, 2, 1)
            key = key.permute(0, 2, 1)
            value = value.permute(0, 2, 1)

        o, attn""", """        if self.embed_dim_second:
            query, key, value = (x.transpose(1, 2) for x in (query, key, value))

        o, attn"""),
  ("""        if self.forward_returns_attn_mask:
            return o, attn_output_weights
        else:
            return o
""", """        return (o, attn_output_weights) if self.forward_returns_attn_mask else o
"""))
E("mha-retro", "multihead_attention/retroactive_mha.py",
  ("""    A_left = torch.exp(torch.bmm(Q_mem, K_T_mem[:, :, 0].unsqueeze(-1)))
""", """    A_left = torch.bmm(Q_mem, K_T_mem[:, :, 0:1]).exp()
"""),
  ("""    K_T_mem_new = torch.roll(K_T_mem, shifts=-1, dims=(2,))
    K_T_mem_new[:, :, -1] = k_step
""", """    K_T_mem_new = torch.cat((K_T_mem[:, :, 1:], k_step.unsqueeze(-1)), dim=2)
"""),
  ("""    V_mem_new = torch.roll(V_mem, shifts=-1, dims=(1,))
    V_mem_new[:, -1] = v_step
""", """    V_mem_new = torch.cat((V_mem[:, 1:], v_step.unsqueeze(1)), dim=1)
"""),
  ("""    d = torch.cat(
        (
            d_mem - A_left + A_right,
            (A_bottom.sum(-1)).unsqueeze(-1),
        ),
        dim=1,
    )
""", """    d_top = d_mem + A_right - A_left
    d_bottom = A_bottom.sum(dim=2, keepdim=True)
    d = torch.cat((d_top, d_bottom), dim=1)
"""),
  ("""    AV_top = AV_mem - AV_sub + AV_add
""", """    AV_top = AV_mem + (AV_add - AV_sub)
"""))
E("mha-single", "multihead_attention/single_output_mha.py",
  ("""    q_sel = (Q_mem[:, 0] if Q_mem.shape[1] > 0 else q_step).unsqueeze(1)
""", """    if Q_mem.shape[1] > 0:
        q_sel = Q_mem[:, :1]
    else:
        q_sel = q_step.unsqueeze(1)
"""),
  ("""    attn = torch.bmm(q_sel, K_T_new)
    attn_sm = F.softmax(attn, dim=-1)
""", """    attn_sm = torch.matmul(q_sel, K_T_new).softmax(dim=2)
"""),
  ("""    if Q_mem.shape[1] > 0:
        Q_new = torch.roll(Q_mem, shifts=-1, dims=(1,))
        Q_new[:, -1] = q_step
    else:
        Q_new = Q_mem
""", """    Q_new = Q_mem
    if Q_mem.shape[1] > 0:
        Q_new = torch.cat((Q_mem[:, 1:], q_step.unsqueeze(1)), dim=1)
"""),
  ("""        return o.squeeze(1 if self.batch_first else 0) if isinstance(o, Tensor) else o
""", """        if o is None:
            return None
        return o[:, 0] if self.batch_first else o[0]
"""))
# ---------------------------------------------------------------- rnn.py
E("rnn", "rnn.py",
  ("""        input = input.unsqueeze(1)  # B, C -> B, T, C
        hidden_state = (prev_state or (None,))[0]
        output, new_state = nn.RNN.forward(self, input, hidden_state)
        output = output.squeeze(1)  # B, T, C -> B, C
        return output, (new_state,)
""", """        hidden_state = prev_state[0] if prev_state else None
        output, new_state = self.forward(input.unsqueeze(2), hidden_state)
        return output.squeeze(2), (new_state,)
"""),
  ("""        output, next_state = self._forward_step(input, self.get_state())
        if update_state:
            self.set_state(next_state)
        return output
""", """        result = self._forward_step(input, self.get_state())
        if update_state:
            self.set_state(result[1])
        return result[0]
"""),
  ("""        input = input.swapaxes(1, 2)  # B, C, T -> B, T, C
        output, hidden = nn.LSTM.forward(self, input, hx)
        output = output.swapaxes(1, 2)  # B, T, C -> B, C, T
        return (output, hidden)
""", """        output, hidden = nn.LSTM.forward(self, input.permute(0, 2, 1), hx)
        return output.permute(0, 2, 1), hidden
"""))
# ---------------------------------------------------------------- positional encoding, linear
E("pe", "positional_encoding.py",
  ("""        T = input.shape[2]
        assert T <= self.pe.num_embeddings
        position_ids = (
            torch.arange(T, device=input.device).unsqueeze(0) + self.state_index
        ) % self.pe.num_embeddings

        index_update = (
            self.forward_update_index_steps
            if update_index_steps is None
            else update_index_steps
        )
        self.state_index = (self.state_index + index_update) % self.pe.num_embeddings

        position_embeddings = self.pe(position_ids).transpose(1, 2)
        return input + position_embeddings
""", """        T, period = input.shape[2], self.pe.num_embeddings
        assert T <= period
        start = self.state_index
        steps = update_index_steps
        if steps is None:
            steps = self.forward_update_index_steps
        self.state_index = torch.remainder(start + steps, period)

        ids = torch.remainder(torch.arange(T, device=input.device) + start, period)
        return input + self.pe(ids).transpose(0, 1).unsqueeze(0)
"""),
  ("""        output = input + self.pe(self.state_index.unsqueeze(0))

        if update_state:
            self.state_index = (self.state_index + 1) % self.pe.num_embeddings
        return output
""", """        output, (following,) = self._forward_step(input, (self.state_index,))
        if update_state:
            self.state_index = following
        return output
"""))
E("linear", "linear.py",
  ("""        if self.channel_dim != -1:
            input = input.swapaxes(self.channel_dim, -1)

        output = linear(input, self.weight, self.bias)  # Assumes channel-last

        if self.channel_dim != -1:
            output = output.swapaxes(self.channel_dim, -1)

        return output
""", """        d = self.channel_dim
        if d == -1:
            return linear(input, self.weight, self.bias)
        return linear(input.transpose(d, -1), self.weight, self.bias).transpose(d, -1)
"""))
# ---------------------------------------------------------------- convert, utils, closure, onnx
E("cv-fs", "convert.py",
  ("""            return func(x.unsqueeze(dim)).squeeze(dim)
""", """            clip = x.unsqueeze(dim)
            out = func(clip)
            return out.select(dim, 0)
"""),
  ("""            x = func(x)
            return x
""", """            return func(x)
"""),
  ("""        if _call_mode == _callmode("forward"):
            return orig_forward(*args, **kwargs)
        return CoModule._call_impl(module, *args, **kwargs)
""", """        stepping = _call_mode != _callmode("forward")
        if stepping:
            return CoModule._call_impl(module, *args, **kwargs)
        return orig_forward(*args, **kwargs)
"""),
  ("""    if type(module) in NAIVE_MAPPING:
        return forward_stepping(module)

    if type(module) in CONDITIONAL_MAPPING:
        CONDITIONAL_MAPPING[type(module)](module)
        return forward_stepping(module)
""", """    kind = type(module)
    condition = CONDITIONAL_MAPPING.get(kind)
    if condition is not None:
        condition(module)
    if kind in NAIVE_MAPPING or condition is not None:
        return forward_stepping(module)
"""))
E("ut-tmp", "utils.py",
  ("""    do_del = False
    try:
        prev_val = rgetattr(obj, attr)
    except AttributeError:
        do_del = True
        assert (
            attr.count(".") == 0
        ), "Nonexisting attributes can only be set one level deep."

    rsetattr(obj, attr, val)

    try:
        yield obj
    finally:
        if do_del:
            delattr(obj, attr)
        else:
            rsetattr(obj, attr, prev_val)
""", """    missing = object()
    previous = missing
    try:
        previous = rgetattr(obj, attr)
    except AttributeError:
        assert (
            "." not in attr
        ), "Nonexisting attributes can only be set one level deep."
    rsetattr(obj, attr, val)
    try:
        yield obj
    finally:
        if previous is missing:
            delattr(obj, attr)
        else:
            rsetattr(obj, attr, previous)
"""),
  ("""    if flatten or flat_state_dict.flatten:
        flat_keys = [
            ".".join(part for part in name.split(".") if not part.isdigit())
            for name in list(d.keys())
        ]
        if len(set(flat_keys)) == len(d.keys()):
            d = OrderedDict(list(zip(flat_keys, d.values())))
        else:  # pragma: no cover
""", """    if flatten or flat_state_dict.flatten:
        flat = OrderedDict()
        for name, val in d.items():
            flat[_flat_key(name)] = val
        if len(flat) == len(d):
            d = flat
        else:  # pragma: no cover
"""),
  ("""def state_dict(
    module: nn""", """def _flat_key(name):
    kept = [part for part in name.split(".") if not part.isdigit()]
    return ".".join(kept)


def state_dict(
    module: nn"""),
  ("""        short2long = {
            ".".join(part for part in key.split(".") if not part.isdigit()): key
            for key in list(long_keys)
        }
        if len(short2long) == len(state_dict):
            state_dict = OrderedDict(
                [
                    (short2long[key], val)
                    for key, val in state_dict.items()
                    if strict or key in short2long
                ]
            )
""", """        short2long = {_flat_key(key): key for key in long_keys}
        if len(short2long) == len(state_dict):
            renamed = OrderedDict()
            for key, val in state_dict.items():
                if not strict and key not in short2long:
                    continue
                renamed[short2long[key]] = val
            state_dict = renamed
"""),
  ("""    if isinstance(lst, abc.Sequence):
        if len(lst) == 0:
            return []
        first, rest = lst[0], lst[1:]
        return _flatten(first) + _flatten(rest)
    else:
        return [lst]
""", """    if not isinstance(lst, abc.Sequence):
        return [lst]
    flat = []
    for item in lst:
        flat.extend(_flatten(item))
    return flat
"""))
E("cl-lambda", "closure.py",
  ("""        if self.forward_only_fn is not None:
            return self.forward_only_fn(input)

        if self.takes_time:
            return self.fn(input)

        return torch.stack(
            [self.fn(input[:, :, t]) for t in range(input.shape[2])], dim=2
        )
""", """        return self._clip(self.forward_only_fn, input)

    def _clip(self, special, input):
        if special is not None:
            return special(input)
        if self.takes_time:
            return self.fn(input)
        frames = [self.fn(input.select(2, t)) for t in range(input.shape[2])]
        return torch.stack(frames, dim=2)
"""),
  ("""        if self.forward_steps_only_fn is not None:
            return self.forward_steps_only_fn(input)

        if self.takes_time:
            return self.fn(input)

        return torch.stack(
            [self.fn(input[:, :, t]) for t in range(input.shape[2])], dim=2
        )
""", """        return self._clip(self.forward_steps_only_fn, input)
"""),
  ("""        if self.takes_time:
            input = input.unsqueeze(dim=2)
        output = self.fn(input)
        if self.takes_time:
            output = output.squeeze(dim=2)

        return output, prev_state
""", """        if not self.takes_time:
            return self.fn(input), prev_state
        return self.fn(input.unsqueeze(2)).squeeze(2), prev_state
"""))
E("ox", "onnx.py",
  ("""    if isinstance(shape, int):
        return lst[idx : idx + shape], idx + shape

    assert hasattr(shape, "__len__")
    ret = []
    for s in shape:
        o, idx = _shape_list(lst, s, idx)
        ret.append(o)
    return ret, idx
""", """    if isinstance(shape, int):
        end = idx + shape
        return lst[idx:end], end

    assert hasattr(shape, "__len__")
    nested = []
    position = idx
    for s in shape:
        part, position = _shape_list(lst, s, position)
        nested += [part]
    return nested, position
"""),
  ("""        isdyn = flatten(self.model._dynamic_state_inds)
        ins = {sn: {0: "batch"} for sn, i in zip(self.state_input_names, isdyn) if i}
        outs = {self._i2o_name(k): v for k, v in ins.items()}
        return {**ins, **outs}
""", """        axes = {}
        names = self.state_input_names
        for name, dynamic in zip(names, flatten(self.model._dynamic_state_inds)):
            if dynamic:
                axes[name] = {0: "batch"}
        for name in list(axes):
            axes[self._i2o_name(name)] = {0: "batch"}
        return axes
"""),
  ("""        shaped_state, _ = _shape_list(states, self.model._state_shape)

        out, next_states = self.model._forward_step(x, prev_state=shaped_state)
        return (out, *flatten(next_states, remove_none=False))
""", """        nested = _shape_list(states, self.model._state_shape)[0]
        out, next_states = self.model._forward_step(x, prev_state=nested)
        return tuple([out] + flatten(next_states, remove_none=False))
"""))
