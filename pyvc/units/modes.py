"""C17: call modes, their contexts, temporary overrides."""
import copy
import pickle

from .lib import *  # noqa: F401,F403

from continual import container as CT
from continual import module as MO
from continual import utils as UT

MODES = ["forward", "forward_steps", "forward_step"]


def form(vc, mode, tag):
    """a mode by name (any case), number or tensor"""
    f = vc.choose(f"form of {tag}", ["name", "upper", "number", "tensor"])
    return {"name": mode, "upper": mode.upper(), "number": MODES.index(mode), "tensor": real_torch.tensor(MODES.index(mode))}[f]


class Rec(co.CoModule, shim.torch.nn.Module):
    """records which of its computations run, on what; returns what it is told to return"""

    def __init__(self, log=None, name="p", fails=None):
        shim.torch.nn.Module.__init__(self)
        self.__dict__["log"] = [] if log is None else log
        self.name, self.fails = name, fails
        self.receptive_field = 1

    def _do(self, mode, x, a, k):
        self.log.append((self.name, mode, x, a, k))
        if self.fails == mode:
            raise Boom(mode)
        return x

    def forward(self, x, *a, **k):
        return self._do("forward", x, a, k)

    def forward_steps(self, x, *a, **k):
        return self._do("forward_steps", x, a, k)

    def forward_step(self, x, *a, **k):
        return self._do("forward_step", x, a, k)


class Boom(Exception):
    pass


def reset():
    """the context object as at import (paths of an exploration must not influence each other)"""
    MO.call_mode.__init__()


def mode_of(m):
    return int(m._call_mode)


def snapshot(o):
    return {k: ([tuple(int(q) if isinstance(q, real_torch.Tensor) else q for q in (e if isinstance(e, (tuple, list)) else (e,))) for e in v] if isinstance(v, (list, tuple)) else int(v) if isinstance(v, real_torch.Tensor) else v) for k, v in vars(o).items()}


def effect():
    """what calls of modules of every own mode run now, and inside and after one more context"""
    out = []
    for own in MODES:
        m = Rec()
        m.call_mode = own
        m(None)
        for q in MODES[:2]:
            with MO.call_mode(q):
                m(None)
            m(None)
        out += [e[1] for e in m.log]
    return out


def restored(vc, name, e0, s0):
    """the observable effect of the context is what it was; a different representation alone is no violation"""
    e1, s1 = effect(), snapshot(MO.call_mode)
    if e1 != e0:
        return vc.fail(name, f"{e1} instead of {e0}")
    if s1 != s0:
        return vc.record(name, "undecided", f"same effect, other representation: {s1} instead of {s0}")
    vc.ok(name)


def frame_of(vc):
    return new([vc.label("B"), vc.label("C")], lambda ix: zero)


# ---- dispatch of a call
def dispatch_unit(vc):
    reset()
    own = vc.choose("own mode", MODES)
    m = Rec()
    how = vc.choose("set by", ["attribute", "default"])
    if how == "attribute":
        m.call_mode = form(vc, own, "own mode")
    else:
        own = "forward"
    outer = vc.choose("context", [None] + MODES)
    inner = vc.choose("inner context", [None] + MODES) if outer else None
    hooks = vc.choose("hooks", ["none", "observing", "changing", "bare"]) if inner is None else "none"
    x, y, z = frame_of(vc), frame_of(vc), frame_of(vc)
    if hooks != "none":
        m.register_forward_pre_hook(lambda mod, i: m.log.append(("pre", i[0])) or ((y,) if hooks == "changing" else y if hooks == "bare" else None))
        m.register_forward_hook(lambda mod, i, o: m.log.append(("post", o)) or (z if hooks in ("changing", "bare") else None))
    kw = dict(update_state=False) if vc.choose("arguments", ["plain", "keyword"]) == "keyword" else {}
    s0, e0 = snapshot(MO.call_mode), effect()
    try:
        if outer is None:
            want, r = own, m(x, **kw)
        elif inner is None:
            with MO.call_mode(form(vc, outer, "context")):
                want, r = outer, m(x, **kw)
        else:
            with MO.call_mode(outer):
                with MO.call_mode(inner):
                    want, r = inner, m(x, **kw)
        ran = [e for e in m.log if e[0] == "p"]
        ok = len(ran) == 1 and ran[0][1] == want and ran[0][2] is (y if hooks in ("changing", "bare") else x) and ran[0][3:] == ((), kw)
        vc.ok("a call runs the computation of the innermost context, else of the module, once, with its arguments") if ok else vc.fail("a call runs the computation of the innermost context, else of the module, once, with its arguments", f"wanted {want}, ran {[e[1] for e in ran]}")
        exp = z if hooks in ("changing", "bare") else x
        vc.ok("a call returns what the computation returns") if r is exp else vc.fail("a call returns what the computation returns", str(type(r)))
        if hooks != "none":
            ok = [e[0] for e in m.log] == ["pre", "p", "post"]
            vc.ok("hooks run once around the computation") if ok else vc.fail("hooks run once around the computation", str([e[0] for e in m.log]))
        restored(vc, "after the contexts everything is as before", e0, s0)
        vc.ok("contexts leave the module's own mode alone") if mode_of(m) == MODES.index(own) else vc.fail("contexts leave the module's own mode alone", str(mode_of(m)))
        m.log.clear()
        m(x)
        got = [e[1] for e in m.log if e[0] == "p"]
        vc.ok("outside contexts the module's own mode is back") if got == [own] else vc.fail("outside contexts the module's own mode is back", f"{got} for {own}")
    finally:
        reset()


# ---- one context, whatever is active around it and whatever happens inside it
def context_unit(vc):
    """induction over the nesting: a body that restores the context is run in one more context"""
    reset()
    try:
        outer = []
        depth = vc.choose("contexts around", [0, 1, 2, 3])
        for q in range(depth):
            outer.append(vc.choose(f"around {q}", MODES))
            MO.call_mode(outer[-1]).__enter__()
        own = vc.choose("own mode", MODES) if depth == 0 else "forward_steps"
        m = Rec()
        m.call_mode = own
        x = frame_of(vc)

        def active():
            m.log.clear()
            m(x)
            return m.log[0][1]

        before, s0, e0 = active(), snapshot(MO.call_mode), effect()
        want = outer[-1] if outer else own
        vc.ok("the innermost context decides") if before == want else vc.fail("the innermost context decides", f"{before} instead of {want}")
        mode = vc.choose("mode", MODES)
        end = vc.choose("left by", ["end", "exception", "return"])
        nested = vc.choose("inside", ["nothing", "a context", "an override", "a failing context"])
        seen = []

        def body():
            with MO.call_mode(form(vc, mode, "mode") if depth == 0 else mode):
                seen.append(active())
                if nested == "a context":
                    for q in MODES:
                        with MO.call_mode(q):
                            seen.append(active() if active() != q else mode)
                elif nested == "a failing context":
                    try:
                        with MO.call_mode(MODES[0]):
                            raise Boom()
                    except Boom:
                        pass
                elif nested == "an override":
                    with UT.temporary_parameter(m, "call_mode", MO._callmode("forward_step")):
                        seen.append(active())
                seen.append(active())
                if end == "exception":
                    raise Boom()
                return 1

        try:
            body()
            raised = False
        except Boom:
            raised = True
        vc.ok("an exception passes through") if raised == (end == "exception") else vc.fail("an exception passes through", str(raised))
        vc.ok("inside, its mode is active, whatever was nested in it") if set(seen) == {mode} else vc.fail("inside, its mode is active, whatever was nested in it", f"{seen} instead of {mode}")
        restored(vc, "leaving a context restores what was active before", e0, s0)
        while outer:
            MO.call_mode.__exit__(None, None, None)
            outer.pop()
            w = outer[-1] if outer else own
            vc.ok("leaving the contexts around restores each") if active() == w else vc.fail("leaving the contexts around restores each", f"{active()} instead of {w}")
    finally:
        reset()


# ---- modes of containers
def containers(vc, ps):
    kind = vc.choose("container", ["Sequential", "BroadcastReduce", "Parallel", "Residual", "nested", "in Sequential"])
    if kind == "Sequential":
        return co.Sequential(*ps), lambda x: x, ["forward", "forward_steps", "forward_step"]
    if kind == "BroadcastReduce":
        return co.BroadcastReduce(*ps), lambda x: x, MODES
    if kind == "Parallel":
        return co.Parallel(*ps), lambda x: [x] * len(ps), MODES
    if kind == "Residual":
        return co.Residual(co.Sequential(*ps)), lambda x: x, MODES
    if kind == "in Sequential":
        return co.Sequential(co.Sequential(ps[0]), co.BroadcastReduce(*ps[1:])) if len(ps) > 2 else co.Sequential(co.Sequential(*ps)), lambda x: x, MODES
    return co.Sequential(co.BroadcastReduce(co.Sequential(ps[0]), ps[1])), lambda x: x, MODES


def container_mode_unit(vc):
    reset()
    try:
        log = []
        ps = [Rec(log, f"p{q}") for q in range(3)]
        m, inp, _ = containers(vc, ps)
        mode = vc.choose("mode", MODES)
        how = vc.choose("through", ["own mode", "context", "override"])
        x = new([vc.label("B"), vc.label("C"), vc.int("T", 1)], lambda ix: zero)
        used = [p for p in ps if any(q is p for q in m.modules())]
        if how == "own mode":
            m.call_mode = form(vc, mode, "mode")
            ok = all(mode_of(p) == MODES.index(mode) for p in used) and mode_of(m) == MODES.index(mode)
            vc.ok("setting the mode of a container sets that of its parts") if ok else vc.fail("setting the mode of a container sets that of its parts", str([mode_of(p) for p in used]))
            m(inp(x))
        elif how == "context":
            with MO.call_mode(form(vc, mode, "mode")):
                m(inp(x))
        else:
            before = [mode_of(p) for p in used]
            with UT.temporary_parameter(m, "call_mode", MO._callmode(mode)):
                m(inp(x))
            ok = [mode_of(p) for p in used] == before and mode_of(m) == 0
            vc.ok("after an override the container and its parts have their modes back") if ok else vc.fail("after an override the container and its parts have their modes back", str([mode_of(p) for p in used]))
        ran = [(e[0], e[1]) for e in log]
        ok = sorted(ran) == sorted((p.name, mode) for p in used)
        vc.ok("calling a container runs each part once, in the container's mode") if ok else vc.fail("calling a container runs each part once, in the container's mode", f"{ran} in mode {mode}")
    finally:
        reset()


def container_method_unit(vc):
    """a method of a container, called by name, runs that computation of the parts and restores their modes, also on failure"""
    reset()
    try:
        log = []
        mode = vc.choose("mode", MODES)
        fails = vc.choose("failing part", [None, 0, 1])
        ps = [Rec(log, f"p{q}", mode if fails == q else None) for q in range(2)]
        kind = vc.choose("container", ["Sequential", "BroadcastReduce", "Parallel", "Residual"])
        m = co.Residual(co.Sequential(*ps)) if kind == "Residual" else getattr(co, kind)(*ps)
        pre = vc.choose("own mode of the parts", MODES) if kind != "Residual" else "forward"
        for p in ps:
            p.call_mode = pre
        x = new([vc.label("B"), vc.label("C"), vc.int("T", 1)], lambda ix: zero)
        s0, e0 = snapshot(MO.call_mode), effect()
        try:
            getattr(m, mode)([x, x] if kind == "Parallel" else x)
            raised = False
        except Boom:
            raised = True
        vc.ok("a failure of a part is reported") if raised == (fails is not None) else vc.fail("a failure of a part is reported", str(raised))
        vc.ok("the parts keep their own modes") if all(mode_of(p) == MODES.index(pre) for p in ps) else vc.fail("the parts keep their own modes", f"{[mode_of(p) for p in ps]} instead of {pre}")
        want = mode if mode != "forward" else pre
        ran = [e[1] for e in log]
        ok = all(q == mode for q in ran) if mode != "forward" else all(q in (mode, pre) for q in ran)
        vc.ok("the parts run the computation that was called") if ok and len(ran) >= 1 else vc.fail("the parts run the computation that was called", f"{ran} instead of {want}")
        restored(vc, "no context stays active", e0, s0)
    finally:
        reset()


# ---- copies
def copy_unit(vc):
    reset()
    try:
        kind = vc.choose("module", ["part", "Sequential", "BroadcastReduce", "Conv1d", "Delay"])
        mk = {"part": lambda: Rec(), "Sequential": lambda: co.Sequential(Rec(), Rec()), "BroadcastReduce": lambda: co.BroadcastReduce(Rec(), Rec()), "Conv1d": lambda: co.Conv1d(2, 2, 3), "Delay": lambda: co.Delay(2)}[kind]
        m = mk()
        mode = vc.choose("mode", [None] + MODES)
        if mode:
            m.call_mode = form(vc, mode, "mode")
        way = vc.choose("copied by", ["deepcopy", "copy"])
        active = vc.choose("inside", ["nothing", "context", "override"])
        s0, e0 = snapshot(MO.call_mode), effect()

        def cp():
            return copy.deepcopy(m) if way == "deepcopy" else copy.copy(m)

        want = mode or "forward"
        if active == "context":
            with MO.call_mode("forward_step"):
                c = cp()
        elif active == "override":
            with UT.temporary_parameter(m, "call_mode", MO._callmode("forward_step")):
                c = cp()
            want = "forward_step"
        else:
            c = cp()
        own = MODES.index(mode or "forward")
        restored(vc, "copying leaves the contexts alone", e0, s0)
        vc.ok("copying leaves the original's mode alone") if all(mode_of(q) == own for q in m.modules()) else vc.fail("copying leaves the original's mode alone", str(mode_of(m)))
        vc.ok("a copy has the mode of its original") if mode_of(c) == MODES.index(want) else vc.fail("a copy has the mode of its original", f"{mode_of(c)}")
        if way == "deepcopy":
            c.call_mode = "forward_steps"
            vc.ok("setting the mode of a copy leaves the original alone") if all(mode_of(q) == own for q in m.modules()) else vc.fail("setting the mode of a copy leaves the original alone", str(mode_of(m)))
        vc.ok("the default mode of other modules is untouched") if mode_of(mk()) == 0 else vc.fail("the default mode of other modules is untouched", "changed")
    finally:
        reset()


# ---- temporary overrides
class Obj:
    pass


def chain_of(depth):
    root = o = Obj()
    for q in range(depth - 1):
        o.a = Obj()
        o = o.a
    return root, o, ".".join(["a"] * (depth - 1) + ["v"])


def temporary_unit(vc):
    depth = vc.choose("depth", [1, 2, 3])
    root, last, attr = chain_of(depth)
    others = vc.choose("other attributes", [0, 2])
    for q in range(others):
        setattr(last, f"o{q}", q)
    had = vc.choose("attribute", ["present", "present and false", "absent"]) if depth == 1 else vc.choose("attribute", ["present", "present and false"])
    old, tmp = Obj() if had == "present" else vc.choose("old", [None, 0, False, ""]), vc.choose("new", ["object", None])
    tmp = Obj() if tmp == "object" else None
    if had != "absent":
        last.v = old
    before = dict(vars(last))
    end = vc.choose("left by", ["end", "exception"])
    nested = vc.choose("inside", ["nothing", "another override", "an assignment", "a failing override"])
    seen, raised = [], False
    try:
        with UT.temporary_parameter(root, attr, tmp) as got:
            seen.append(last.v)
            vc.ok("the override yields the object") if got is root else vc.fail("the override yields the object", str(got))
            if nested == "another override":
                with UT.temporary_parameter(root, attr, 5):
                    vc.ok("an inner override takes effect") if last.v == 5 else vc.fail("an inner override takes effect", str(last.v))
                seen.append(last.v)
            elif nested == "a failing override":
                try:
                    with UT.temporary_parameter(root, attr, 5):
                        raise Boom()
                except Boom:
                    pass
                seen.append(last.v)
            elif nested == "an assignment":
                last.v = 7
            if end == "exception":
                raise Boom()
    except Boom:
        raised = True
    vc.ok("an exception passes through") if raised == (end == "exception") else vc.fail("an exception passes through", str(raised))
    vc.ok("inside, the attribute has the new value") if all(q is tmp for q in seen) else vc.fail("inside, the attribute has the new value", str(seen))
    after = vars(last)
    ok = set(after) == set(before) and all(after[k] is before[k] for k in before)
    vc.ok("afterwards the attribute, and every other, is what it was") if ok else vc.fail("afterwards the attribute, and every other, is what it was", f"{after} instead of {before}")


def dotted_unit(vc):
    depth = vc.choose("depth", [1, 2, 3, 4])
    root, last, attr = chain_of(depth)
    x, y = Obj(), Obj()
    if vc.choose("attribute", ["present", "absent"]) == "present":
        last.v = x
        vc.ok("a dotted attribute is read at its place") if UT.rgetattr(root, attr) is x else vc.fail("a dotted attribute is read at its place", "other value")
        vc.ok("a default does not hide a value") if UT.rgetattr(root, attr, y) is x else vc.fail("a default does not hide a value", "other value")
    else:
        try:
            UT.rgetattr(root, attr)
            vc.fail("a missing attribute is reported", "no error")
        except AttributeError:
            vc.ok("a missing attribute is reported")
        vc.ok("a default stands for a missing attribute") if UT.rgetattr(root, attr, y) is y else vc.fail("a default stands for a missing attribute", "other value")
    UT.rsetattr(root, attr, y)
    vc.ok("a dotted attribute is set at its place") if vars(last).get("v") is y else vc.fail("a dotted attribute is set at its place", str(vars(last)))
    extra = set(vars(root)) - ({"a"} if depth > 1 else {"v"})
    vc.ok("nothing else is set") if not extra else vc.fail("nothing else is set", str(extra))


# ---- wrapped torch modules
def wrapped_unit(vc):
    reset()
    try:
        calls = []

        class Any(shim.torch.nn.Module):
            def forward(self, x):
                calls.append(x)
                return x

        dim = vc.choose("dim", ["default", 2, 1])
        m = co.forward_stepping(Any()) if dim == "default" else co.forward_stepping(Any(), dim)
        dim = 2 if dim == "default" else dim
        own = vc.choose("own mode", ["forward", "forward_steps", "forward_step"])
        if own != "forward":
            m.call_mode = form(vc, own, "own mode") if vc.choose("assign", ["plain", "validated"]) == "plain" else MO._callmode(own)
        ctx = vc.choose("context", [None] + MODES)
        mode = ctx or own
        Bt, C, S = vc.label("B"), vc.label("C"), vc.label("S")
        T = vc.int("T", 2)
        V = z3.Function("V", I, R)
        x = new([Bt, C, S], lambda ix: V(z3.IntVal(0))) if mode == "forward_step" else new([Bt, C, T, S], lambda ix: V(iterm(ix[2])))
        if ctx:
            with MO.call_mode(form(vc, ctx, "context")):
                y = m(x)
        else:
            y = m(x)
        if len(calls) != 1:
            return vc.fail("a wrapped module runs once", f"{len(calls)} calls")
        vc.ok("a wrapped module runs once")
        if mode == "forward_step":
            d = [Bt, C, S]
            d.insert(dim, 1)
            values(vc, "in step mode it sees the frame with a time axis of one", calls[0], d, lambda ix: V(z3.IntVal(0)))
        else:
            equal(vc, "otherwise it sees the sequence", calls[0], x)
        equal(vc, "the result has the shape of the call", y, x)
    finally:
        reset()


M_ = "continual.module."
unit("C17", "a call in its mode", M_ + "CoModule._call_impl " + M_ + "CoModule.call_mode " + M_ + "_callmode", bounded="contexts nested up to twice, hooks of each kind")(dispatch_unit)
unit("C17", "one more context", f"{M_}_CallModeContext.__init__ {M_}_CallModeContext.__call__ {M_}_CallModeContext.__enter__ {M_}_CallModeContext.__exit__ {M_}_callmode", bounded="up to three contexts around and one inside; deeper nesting by the induction the unit's title states")(context_unit)
unit("C17", "modes of containers", f"{M_}CoModule.call_mode continual.container.Sequential.forward continual.container.Sequential.forward_step continual.container.Sequential.forward_steps continual.container.BroadcastReduce.forward continual.container.apply_forward", bounded="two or three parts, one or two levels")(container_mode_unit)
unit("C17", "methods of containers", "continual.utils.temporary_parameter continual.container.Sequential.forward_step continual.container.Sequential.forward_steps continual.container.BroadcastReduce.forward_steps continual.container.Parallel.forward_steps", bounded="two parts")(container_method_unit)
unit("C17", "copies", M_ + "CoModule.call_mode", bounded="five kinds of module")(copy_unit)
unit("C17", "temporary_parameter", "continual.utils.temporary_parameter continual.utils.rgetattr continual.utils.rsetattr", bounded="attribute paths of up to three parts")(temporary_unit)
unit("C17", "rgetattr and rsetattr", "continual.utils.rgetattr continual.utils.rsetattr", bounded="attribute paths of up to four parts")(dotted_unit)
unit("C17", "a wrapped module in its mode", "continual.convert.forward_stepping " + M_ + "CoModule._call_impl")(wrapped_unit)
