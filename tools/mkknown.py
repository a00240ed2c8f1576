"""Writes known_findings.json (run by hand, never by a check)."""
import json
import os

F = []


def f(prop, desc, **case):
    F.append(dict(property=prop, case=case, what=desc))


cv = lambda ks, s=1, p=0: dict(k="conv", n=1, ci=2, co=2, ks=[ks], s=[s], p=[p])
for n in (2, 3):
    f("C02", f"AvgPool{n}d(divisor_override=3): streaming ignores the override or divides by the temporal size on top of it", f="nnref", kind="avg", n=n, ks=[2] * n, kw=dict(divisor_override=3, stride=1), T=6, seed=1)
for n in (1, 2, 3):
    f("C02", f"AvgPool{n}d(count_include_pad=False) with temporal padding: streaming divides by the full temporal window at the borders", f="nnref", kind="avg", n=n, ks=[3] * n, kw=dict(count_include_pad=False, stride=1, padding=[1] * n if n > 1 else 1), T=6, seed=1)
    for kind in ("avg", "max"):
        f("C02", f"{kind.capitalize()}Pool{n}d(ceil_mode=True): streaming never emits the partial window at the end of time", f="nnref", kind=kind, n=n, ks=[2] * n, kw=dict(ceil_mode=True, stride=2), T=5, seed=1)
for k in ("bcr", "par"):
    f("C08", f"{'BroadcastReduce' if k == 'bcr' else 'Parallel'} with temporally strided branches of differing delay: the alignment delay counts outputs, not steps", spec=dict(k=k, m=[cv(3, 2, 0), cv(5, 2, 1)], r="sum", style="args"), n=1, extra=8, seed=1)
    f("C08", f"{'BroadcastReduce' if k == 'bcr' else 'Parallel'} around an unwrapped torch.nn module fails in the step modes", spec=dict(k=k, m=[dict(k="relu"), cv(3, 1, 1)], r="sum", style="args"), n=1, extra=8, seed=1)
f("C08", "Residual around an unwrapped torch.nn module fails in the step modes", spec=dict(k="res", m=dict(k="relu"), r="sum"), n=1, extra=8, seed=1)
for spec, nm in [(dict(k="seq", m=[cv(3), cv(2)], style="args"), "Sequential"), (dict(k="bcr", m=[cv(3, 1, 1), dict(k="delay", d=1)], r="sum", style="args"), "BroadcastReduce"),
                 (dict(k="res", m=cv(3, 1, 1), r="sum"), "Residual"), (dict(k="cond", t=cv(3, 1, 1), f=dict(k="delay", d=3), pred="true"), "Conditional"), (dict(k="pe", c=2, ne=90), "RecyclingPositionalEncoding")]:
    f("C06", f"{nm} has no working get_state/set_state pair (the state cannot be saved and restored)", what="state", spec=spec, n=1, h=4, T=6, seed=2)
f("C04", "Sequential: an end-padded multi-step call leaves the outputs for the padding of one stage in the state of the next stages", spec=dict(k="seq", m=[cv(3, 1, 1), cv(3, 1, 1)]), n=1, T=9, chunks=[4, 5], seed=8, tail=4, leak=True)
f("C04", "BroadcastReduce: the delay that aligns a padded branch keeps its padding outputs after an end-padded multi-step call", spec=dict(k="bcr", m=[cv(3, 1, 1), cv(5, 1, 2)]), n=1, T=9, chunks=[4, 5], seed=8, tail=4, leak=True)
for d in (1, 3):
    f("C10", f"Skip({d}) advertises delay 0 although its first output comes at step {d}", f="first", what="skip", d=d, seed=1)
for d in (2, 4):
    f("C10", f"a shrinking Delay({d}) advertises delay {d} although its first output comes at step {2 * d}", f="first", what="centered", d=d, seed=1)
f("C16", "TransformerEncoder with three or more layers cannot be built: the step-local middle layer is not implemented (TODO in the code)", f="enc", N=3, act="relu", nl=3, norm=False, T=10, seed=1)
for pre in ("forward_steps", "forward_step"):
    for mode in ("forward", "forward_steps", "forward_step"):
        f("C17", f"running a nested container in mode {mode} overwrites the own call mode ({pre}) of the parts of the inner container for good", f="container", cont="nested", mode=mode, boom=None, pre=pre, seed=0)
f("C17", "a network with an automatically wrapped torch.nn module cannot be deep-copied", f="copy", seed=1)
f("C17", "a method called by name on a container inside an active call-mode context runs its parts in the context's mode", f="explicit", seed=1)
f("C18", "automatically wrapped GroupNorm normalises each step by itself but the whole sequence together", f="naive", nm="GroupNorm", a=[2, 4], seed=1, dim=2)
f("C18", "Dropout1d is not registered for conversion although Dropout, Dropout2d and Dropout3d are", f="naive", nm="Dropout1d", a=[0.3], seed=1, dim=2)
f("C18", "forward hooks of an automatically wrapped module run twice per call", f="hooks", seed=1)

M = {
    "b214c1e": ("C02", "pooling buffer index wrapped at the wrong length and dilated receptive field wrong"),
    "86c45b8": ("C01", "stride lost for temporal kernel size one"),
    "8d09bf4": ("C04", "end-padding with update_state=False restarted from the old state"),
    "8c5148f": ("C03", "auto_shrink='centered' was not treated like True"),
    "3483d05": ("C03", "auto-shrinking Delay emitted extra outputs on end-padding"),
    "341cff2": ("C02", "max pooling padded with zeros in time"),
    "e71ac9c": ("C17", "call modes resolved by object identity"),
    "b5f1d48": ("C17", "BroadcastReduce set unvalidated call modes"),
    "5945647": ("C05", "attention step with update_state=False failed without state"),
    "20899a3": ("C18", "forward_stepping passed keyword arguments wrongly"),
    "d06d7bb": ("C03", "RetroactiveUnity index grew out of its buffer"),
    "90d03b2": ("C16", "activation='gelu' silently replaced by relu"),
    "1ec8c70": ("C16", "residual of single-output layers misaligned with the query index"),
    "8329b47": ("C17", "nested call_mode contexts did not restore the enclosing mode"),
    "1e39027": ("C17", "temporary_parameter not restored on exceptions"),
    "e75cba5": ("C14", "single-output forward_steps kept the query dimension if batch_first=False"),
    "3601171": ("C11", "Conditional.forward_steps dropped pad_end and update_state"),
    "fb1a226": ("C11", "Conditional._forward_step dropped the other branch's state"),
    "46dc9de": ("C06", "Conditional.clean_state did not clean its branches"),
    "b310414": ("C15", "functional steps reset the positional index"),
    "af036b6": ("C11", "update_state passed by position in Conditional.forward_step"),
    "30166b8": ("C18", "bidirectional recurrent modules silently lost a direction"),
    "61a1e1a": ("C10", "Conditional reported stride one and padding zero always"),
    "de69266": ("C10", "Conditional's receptive field left out alignment delays"),
    "1db8ba1": ("C18", "converted convolutions lost device and dtype"),
    "4a0799b": ("C13", "RetroactiveMultiheadAttention(sequence_len=1) failed"),
    "1672e84": ("C03", "RetroactiveUnity(0) did not stack its output"),
    "30a4a91": ("C10", "warm_up of a module without delay failed"),
    "84d8c8a": ("C20", "OnnxWrapper passed the state by position"),
    "f27ed5b": ("C09", "a Parallel after a Parallel was stepped with None before its streams had outputs"),
    "700d1f0": ("C13", "steps of attention with kdim or vdim different from embed_dim failed"),
    "e510ba2": ("C18", "a torch.nn.TransformerEncoder of pre-norm layers was converted to a post-norm one"),
    "84f86bf": ("C18", "a converted encoder shared its norm and activation modules with the original, and its layers shared one activation"),
    "331c39f": ("C21", "RetroactiveLambda.build_from passed takes_time as the forward-only function"),
    "02e2127": ("C18", "converting an automatically wrapped module again recursed without end"),
    "6c1785f": ("C17", "naively wrapped modules refused call modes by name or number"),
}
fixed = [f"fixed: property={p} {h} {w}" for h, (p, w) in M.items()]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json"), "w") as o:
    json.dump(dict(findings=F, fixed=fixed), o, indent=1)
