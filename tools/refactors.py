#!/usr/bin/env python3
"""Behaviour-preserving edits of the repository, to see that the checks stay quiet on them.

usage: refactors.py [IDS...] [--jobs N] [--each]
  default: applies all named edits of one group together and runs pyvc/run.py all on the copy; --each runs them one at a time.
Development tool; no check uses it.
"""
import os
import shutil
import subprocess
import sys

EDITS = []  # (id, file, [(old, new), ...])


def E(id, file, *pairs):
    EDITS.append((id, file, pairs))


# ---------------------------------------------------------------- module.py
E("mod-step-helper", "module.py",
  ("""        state = self.get_state()
        if not update_state and state:
            state = _clone_first(state)
        output, state = self._forward_step(input, state)
        if update_state and state:
            self.set_state(state)
        return output
""", """        before = self.get_state()
        if before and not update_state:
            before = self._working_copy(before)
        output, after = self._forward_step(input, before)
        if after and update_state:
            self.set_state(after)
        return output

    @staticmethod
    def _working_copy(state):
        first, *rest = state
        return (first.clone(), *rest)
"""))
E("mod-steps-while", "module.py",
  ("""        for t in range(input.shape[2]):
            o, state = self._forward_step(input[:, :, t], state)
            if isinstance(o, Tensor):
                outs.append(o)
""", """        num_steps = input.shape[2]
        for t in range(num_steps):
            frame = input.select(2, t)
            o, state = self._forward_step(frame, state)
            if not isinstance(o, Tensor):
                continue
            outs.append(o)
"""),
  ("""            for t, i in enumerate(
                [self._make_padding(input[:, :, -1]) for _ in range(self.padding[0])]
            ):
                o, state = self._forward_step(i, state)
                if isinstance(o, Tensor):
                    outs.append(o)
""", """            for _ in range(self.padding[0]):
                o, state = self._forward_step(
                    self._make_padding(input[:, :, -1]), state
                )
                if isinstance(o, Tensor):
                    outs.append(o)
"""),
  ("""        if len(outs) == 0:
            return None  # pragma: no cover

        return torch.stack(outs, dim=2)
""", """        return torch.stack(outs, dim=2) if outs else None
"""))
E("mod-warm", "module.py",
  ("""        if self.delay == 0:
            return  # There is nothing to warm up

        step_shape = (*step_shape[:2], self.delay, *step_shape[2:])
        dummy = self._make_padding(torch.zeros(step_shape, dtype=torch.float))
        self.forward_steps(dummy)
""", """        steps = self.delay
        if steps > 0:
            shape = [*step_shape]
            shape.insert(2, steps)
            self.forward_steps(self._make_padding(torch.zeros(shape)))
"""))
E("mod-callmode", "module.py",
  ("""        forward_call = {
            (True, int(_callmode("forward"))): self._slow_forward,
            (False, int(_callmode("forward"))): self.forward,
            (False, int(_callmode("forward_steps"))): self.forward_steps,
            (False, int(_callmode("forward_step"))): self.forward_step,
        }[(bool(torch._C._get_tracing_state()), int(_call_mode))]
""", """        tracing = bool(torch._C._get_tracing_state())
        mode = int(_call_mode)
        if mode == int(_callmode("forward")):
            forward_call = self._slow_forward if tracing else self.forward
        elif tracing:
            raise KeyError((tracing, mode))
        elif mode == int(_callmode("forward_steps")):
            forward_call = self.forward_steps
        else:
            forward_call = self.forward_step
"""),
  ("""        self._call_mode = _callmode(value)
        if hasattr(self, "__len__"):
            for m in self:
                if hasattr(m, "call_mode"):
                    m.call_mode = self._call_mode
""", """        mode = _callmode(value)
        self._call_mode = mode
        if not hasattr(self, "__len__"):
            return
        for child in self:
            if hasattr(child, "call_mode"):
                child.call_mode = mode
"""))
E("mod-ctx", "module.py",
  ("""        value = _callmode(value)
        self._outer.append((self.cur, self.prev))
        self.prev = self.cur
        self.cur = value
        return self
""", """        new = _callmode(value)
        self._outer.append((self.cur, self.prev))
        self.cur, self.prev = new, self.cur
        return self
"""),
  ("""        self.cur, self.prev = self._outer.pop()
""", """        cur, prev = self._outer[-1]
        del self._outer[-1]
        self.cur = cur
        self.prev = prev
"""))
# ---------------------------------------------------------------- delay.py
E("delay-init", "delay.py",
  ("""        state_buffer = torch.stack([padding for _ in range(self.delay)], dim=0)
        state_index = torch.tensor(
            -2 * self.delay
            if self.auto_shrink in {True, "centered"}
            else -self.delay
        )
        return state_buffer, state_index
""", """        reps = [self.delay] + [1] * padding.dim()
        state_buffer = padding.unsqueeze(0).repeat(*reps)
        start = -self.delay
        if self.auto_shrink in {True, "centered"}:
            start -= self.delay
        return state_buffer, torch.tensor(start)
"""))
E("delay-step", "delay.py",
  ("""        # Get output
        if index >= 0:
            output = buffer[index].clone()
        else:
            output = None

        # Update state
        buffer[index % self.delay] = input
        new_index = index + 1
        if new_index > 0:
            new_index = new_index % self.delay

        return output, (buffer, new_index)
""", """        slot = index % self.delay
        output = buffer[slot].clone() if index >= 0 else None
        buffer[slot] = input
        following = index + 1
        if following >= self.delay:
            following = following - self.delay

        return output, (buffer, following)
"""))
E("delay-fwd", "delay.py",
  ("""        if not self.auto_shrink or self.delay == 0:
            return input
        if self.auto_shrink == "lagging":
            return input[:, :, : -self.delay]
        return input[:, :, self.delay : -self.delay]
""", """        d = self.delay
        if d == 0 or not self.auto_shrink:
            return input
        first = 0 if self.auto_shrink == "lagging" else d
        return input.narrow(2, first, input.shape[2] - d - first)
"""))
E("delay-steps", "delay.py",
  ("""        # A shrinking delay does not output the last steps of a sequence
        end_padding = 0 if self.auto_shrink else self.delay

        with temporary_parameter(self, "padding", (end_padding,)):
            output = CoModule.forward_steps(self, input, pad_end, update_state)

        return output
""", """        with temporary_parameter(
            self, "padding", (self.delay,) if not self.auto_shrink else (0,)
        ):
            return super().forward_steps(input, pad_end, update_state)
"""))
E("delay-state", "delay.py",
  ("""        if len(self.state_buffer) > 0:
            return (self.state_buffer, self.state_index)
        return None
""", """        if self.state_buffer.shape[0] == 0:
            return None
        return self.state_buffer, self.state_index
"""),
  ("""        self.state_buffer, self.state_index = state
""", """        buffer, index = state
        self.state_index = index
        self.state_buffer = buffer
"""))
E("skip", "skip.py",
  ("""        if index >= 0:
            output = input
            new_index = index
        else:
            output = None
            new_index = index + 1

        return output, (new_index,)
""", """        if index < 0:
            return None, (index + 1,)
        return input, (index,)
"""),
  ("""        return input[:, :, self.steps :]
""", """        return input.narrow(2, self.steps, input.shape[2] - self.steps)
"""))
E("shape", "shape.py",
  ("""        x = input.moveaxis(2, 0).reshape(T, *self.shape).moveaxis(0, 2)
""", """        x = torch.stack([input[:, :, t].reshape(self.shape) for t in range(T)], dim=2)
"""), ("from torch import Tensor, nn\n", "import torch\nfrom torch import Tensor, nn\n"))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactors2.py")).read())


def build(ids, dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    shutil.copytree("/repo/continual", dst + "/continual", ignore=shutil.ignore_patterns("__pycache__"))
    for id, file, pairs in EDITS:
        if id in ids:
            p = f"{dst}/continual/{file}"
            s = open(p).read()
            for old, new in pairs:
                if s.count(old) < 1:
                    print("edit does not apply:", id, repr(old[:80]))
                    continue
                s = s.replace(old, new)
            open(p, "w").write(s)


def tests(dst):
    shutil.rmtree(dst + "/t", ignore_errors=True)
    subprocess.run(f"cp -a /repo/tests {dst}/tests; cp /repo/*.py /repo/*.toml /repo/*.cfg {dst}/ 2>/dev/null", shell=True)
    o = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=dst, env=dict(os.environ, PYTHONPATH=dst), capture_output=True, text=True)
    return (o.stdout.strip().splitlines() or ["?"])[-1]


def main():
    args = sys.argv[1:]
    jobs = "8"
    if "--jobs" in args:
        k = args.index("--jobs")
        jobs = args[k + 1]
        del args[k:k + 2]
    prop = "all"
    if "--prop" in args:
        k = args.index("--prop")
        prop = args[k + 1]
        del args[k:k + 2]
    each = "--each" in args
    args = [a for a in args if a != "--each"]
    ids = [e[0] for e in EDITS if not args or any(e[0].startswith(a) for a in args)]
    for group in [[i] for i in ids] if each else [ids]:
        dst = "/tmp/refac"
        build(group, dst)
        print("==", " ".join(group), "| tests:", tests(dst))
        o = subprocess.run(["/opt/venv/bin/python", "/verif/pyvc/run.py", prop, "--verbose", "--jobs", jobs], env=dict(os.environ, VERIF_REPO=dst), capture_output=True, text=True)
        L = o.stdout.splitlines()
        unit = ""
        shown = 0
        for l in L:
            if not l.startswith(" "):
                unit = l
            elif (" refuted " in l[:20] or " undecided " in l[:20]) and shown < 40:
                shown += 1
                print("   ", unit.split(":")[0], "|", l.strip()[:300])
        print("  ", L[-1] if L else o.stderr[-500:])


main()
