"""C19: flattening of state dictionaries. torch.nn.Module.state_dict/load_state_dict are axioms: the callee's contract
(an ordered dictionary from path names to tensors; a load of exactly the entries it is given)."""
import itertools
from collections import OrderedDict

from .export import patched
from .lib import *  # noqa: F401,F403

from continual import container as CT
from continual import utils as UT

PARTS = ["w", "12", "0", "b1", "1a"]


ALL = [".".join(t) for n in (1, 2, 3) for t in itertools.product(PARTS, repeat=n)]
SOME = ["w", "0.w", "12.w", "w.0", "w.12", "0.w.0", "b1", "0.b1", "1a.w", "1a.0.w", "w.b1", "w.0.b1", "0", "12", "0.12"]
NAMES = {0: [()], 1: [(n,) for n in ALL], 2: list(itertools.permutations(SOME, 2)), 3: list(itertools.permutations(SOME, 3))}


def short(name):
    return ".".join(p for p in name.split(".") if not p.isdigit())


class Val:
    def __init__(self, n):
        self.n = n


class NN:
    """contract of torch.nn.Module.state_dict / load_state_dict for one module"""

    def __init__(self, d):
        self.d, self.got, self.loaded = d, [], []

    def state_dict(self, module, *a, **k):
        names = ["destination", "prefix", "keep_vars"]
        self.got.append((module, {**dict(destination=None, prefix="", keep_vars=False), **dict(zip(names, a)), **k}))
        return OrderedDict(self.d)

    def load_state_dict(self, module, state_dict, strict=True, **k):
        self.loaded.append((module, OrderedDict(state_dict), strict))
        return "result"


def with_nn(nn_):
    M = real_torch.nn.Module
    return patched(M, state_dict=nn_.state_dict, load_state_dict=nn_.load_state_dict)


def entries(names):
    return OrderedDict((q, Val(q)) for q in names)


class Quiet:
    """collects obligations over many concrete names; the first failure of each is reported"""

    def __init__(self, vc):
        self.vc, self.seen = vc, {}

    def need(self, ok, name, detail=""):
        if not ok:
            self.seen[name] = self.seen.get(name) or str(detail)
        else:
            self.seen.setdefault(name, None)

    def done(self):
        for n, d in self.seen.items():
            self.vc.ok(n) if d is None else self.vc.fail(n, d)


def set_flag(on):
    UT.flat_state_dict.__init__()
    if on:
        UT.flat_state_dict.__enter__()


def save_unit(n):
    def u(vc):
        via, kv, args = vc.choose("flattening", ["off", "argument", "context", "both"]), vc.choose("keep_vars", [True, False]), vc.choose("args", ["positional", "keyword"])
        q = Quiet(vc)
        for names in NAMES[n]:
            save(q, entries(names), via, kv, args)
        q.done()

    return u


def save(vc, d, via, kv, args):
    if 1:
        m = object()
        nn_ = NN(d)
        try:
            set_flag(via in ("context", "both"))
            dest, pre = OrderedDict(), "p."
            with with_nn(nn_):
                r = UT.state_dict(m, dest, pre, kv, via in ("argument", "both")) if args == "positional" else UT.state_dict(m, destination=dest, prefix=pre, keep_vars=kv, flatten=via in ("argument", "both"))
        finally:
            set_flag(False)
        ok = bool(nn_.got) and all(g[0] is m for g in nn_.got) and any(g[1]["destination"] is dest and g[1]["prefix"] == pre and g[1]["keep_vars"] is kv for g in nn_.got)
        vc.need(ok, "the arguments reach torch's state_dict", str(nn_.got))
        flat = OrderedDict((short(k), v) for k, v in d.items())
        want = flat if via != "off" and len(flat) == len(d) else d
        ok = list(r.keys()) == list(want.keys()) and all(r[k] is want[k] for k in want)
        vc.need(ok, "flattening removes exactly the numeric path parts, and is skipped if names would collide", f"{list(d)} -> {list(r)}, expected {list(want)}")


def load_unit(n):
    def u(vc):
        via, order, strict, args = vc.choose("flattening", ["off", "argument", "context", "both"]), vc.choose("order", ["same", "reversed"]), vc.choose("strict", [True, False]), vc.choose("args", ["positional", "keyword"])
        q = Quiet(vc)
        for names in NAMES[n]:
            load(q, entries(names), via, order, strict, args)
        q.done()

    return u


def load(vc, d, via, order, strict, args):
    if 1:
        m = object()
        flat = OrderedDict((short(k), v) for k, v in d.items())
        can = via != "off" and len(flat) == len(d)
        # what state_dict returned for an identical module, in any order
        saved = OrderedDict((k, Val(k)) for k in (flat if can else d))
        if order == "reversed":
            saved = OrderedDict(reversed(list(saved.items())))
        nn_, keep = NN(d), OrderedDict(saved)
        try:
            set_flag(via in ("context", "both"))
            with with_nn(nn_):
                r = UT.load_state_dict(m, saved, strict, via in ("argument", "both")) if args == "positional" else UT.load_state_dict(m, state_dict=saved, strict=strict, flatten=via in ("argument", "both"))
        finally:
            set_flag(False)
        if len(nn_.loaded) != 1 or nn_.loaded[0][0] is not m:
            return vc.need(False, "the entries are loaded once, into the module", f"{len(nn_.loaded)} loads")
        got = nn_.loaded[0][1]
        vc.need(nn_.loaded[0][2] is strict, "strictness is passed on", str(nn_.loaded[0][2]))
        want = {long: keep[short(long) if can else long] for long in d}
        ok = set(got) == set(want) and all(got[k] is want[k] for k in want)
        vc.need(ok, "every parameter gets the entry saved for it", f"{ {k: v.n for k, v in got.items()} } for {list(d)}")
        vc.need(saved == keep and list(saved) == list(keep), "the caller's dictionary is not changed", str(list(saved)))
        vc.need(r == "result", "torch's result is returned", str(r))


def partial_unit(vc):
    """non-strict loading of some of the entries"""
    extra = vc.choose("extra entry", ["none", "unknown"])
    drop = vc.choose("missing entry", ["none", "first"])
    q = Quiet(vc)
    for names in NAMES[2]:
        some_of(q, entries(names), extra, drop)
    q.done()


def some_of(vc, d, extra, drop):
    flat = OrderedDict((short(k), v) for k, v in d.items())
    if len(flat) != len(d):
        return
    saved = OrderedDict((k, Val(k)) for k in flat)
    if drop == "first":
        saved.popitem(last=False)
    if extra == "unknown":
        saved["other.weight"] = Val("other")
    nn_, keep = NN(d), OrderedDict(saved)
    with with_nn(nn_):
        UT.load_state_dict(object(), saved, False, True)
    got = nn_.loaded[0][1] if nn_.loaded else {}
    known = {k: keep[short(k)] for k in d if short(k) in keep}
    if len(keep) == len(d):
        # the number of entries suggests a flattened dictionary: known ones must reach their parameters
        ok = all(k in got and got[k] is v for k, v in known.items())
        vc.need(ok, "known entries reach their parameters", f"{list(got)} for {list(keep)}")
    bad = [k for k, v in got.items() if k in d and v is not keep.get(short(k)) and v is not keep.get(k)]
    vc.need(not bad, "no parameter gets an entry of another", str(bad))


def context_unit(vc):
    set_flag(False)
    try:
        end = vc.choose("left by", ["end", "exception"])
        again = vc.choose("entered", ["once", "twice in a row"])
        d = OrderedDict([("0.w", Val(0))])

        def keys():
            with with_nn(NN(d)):
                return list(UT.state_dict(object()))

        vc.ok("flattening is off by default") if keys() == ["0.w"] else vc.fail("flattening is off by default", str(keys()))
        for q in range(1 if again == "once" else 2):
            raised = False
            try:
                with UT.flat_state_dict:
                    inside = keys()
                    if end == "exception":
                        raise ValueError()
            except ValueError:
                raised = True
            vc.ok("inside its context flattening is on") if inside == ["w"] else vc.fail("inside its context flattening is on", str(inside))
            vc.ok("an exception passes through the context") if raised == (end == "exception") else vc.fail("an exception passes through the context", str(raised))
            vc.ok("after its context flattening is off") if keys() == ["0.w"] else vc.fail("after its context flattening is off", str(keys()))
    finally:
        set_flag(False)


def mixin_unit(vc):
    """every container saves and loads through the flattening functions, with its arguments"""
    kinds = ["Sequential", "BroadcastReduce", "Parallel", "Conditional"]
    kind = vc.choose("container", kinds)
    part = lambda: co.Delay(1)
    m = co.Conditional(lambda q, x: True, part(), part()) if kind == "Conditional" else getattr(co, kind)(part(), part())
    own = vc.choose("own setting", ["default", True])
    if own is True:
        m.flatten_state_dict = True
    fl = vc.choose("flatten", ["default", True, False])
    what = vc.choose("call", ["state_dict", "load_state_dict"])
    kw = {} if fl == "default" else dict(flatten=fl)
    eff = own is True or fl is True
    calls = []

    def rec_s(module, destination=None, prefix="", keep_vars=False, flatten=False):
        calls.append((module, destination, prefix, keep_vars, bool(flatten)))
        return "saved"

    def rec_l(module, state_dict, strict=True, flatten=False):
        calls.append((module, state_dict, strict, bool(flatten)))
        return "loaded"

    dd = OrderedDict()
    with patched(CT, state_dict=rec_s, load_state_dict=rec_l):
        if what == "state_dict":
            kv = vc.choose("keep_vars", [True, False])
            r = m.state_dict(destination=dd, prefix="q.", keep_vars=kv, **kw)
            ok = r == "saved" and len(calls) == 1 and calls[0][0] is m and calls[0][1] is dd and calls[0][2:] == ("q.", kv, eff)
        else:
            st = vc.choose("strict", [True, False])
            r = m.load_state_dict(dd, st, **kw)
            ok = r == "loaded" and len(calls) == 1 and calls[0][0] is m and calls[0][1] is dd and calls[0][2:] == (st, eff)
    vc.ok("a container saves and loads with its arguments and flattening setting") if ok else vc.fail("a container saves and loads with its arguments and flattening setting", f"{r} {calls}")


def nested_unit(vc):
    """real containers, real torch.nn: round trip, every parameter where it was"""
    def net():
        conv = lambda: co.Conv1d(1, 1, 3)
        kind = layout
        if kind == "flat":
            return co.Sequential(conv(), co.Delay(1))
        if kind == "colliding":
            return co.Sequential(conv(), conv())
        if kind == "named":
            return co.Sequential(OrderedDict([("a", conv()), ("b", co.Sequential(conv()))]))
        if kind == "residual":
            return co.Sequential(OrderedDict([("r", co.Residual(conv(), residual_shrink=True))]))
        return co.Sequential(OrderedDict([("p", co.BroadcastReduce(OrderedDict([("x", conv()), ("y", conv())])))]))

    layout = vc.choose("layout", ["flat", "colliding", "named", "residual", "branches"])
    via = vc.choose("flattening", ["off", "argument", "context"])
    a, b = net(), net()
    for net_, start in ((a, 1), (b, 100)):
        for q, p in enumerate(net_.parameters()):
            p.requires_grad_(False)
            p.fill_(start + q)
    set_flag(False)
    try:
        if via == "context":
            with UT.flat_state_dict:
                sd = a.state_dict()
                b.load_state_dict(sd)
        elif via == "argument":
            sd = a.state_dict(flatten=True)
            b.load_state_dict(sd, flatten=True)
        else:
            sd = a.state_dict()
            b.load_state_dict(sd)
    finally:
        set_flag(False)
    pa, pb = dict(a.named_parameters()), dict(b.named_parameters())
    ok = set(pa) == set(pb) and len(sd) == len(a.state_dict())
    vc.ok("every parameter is saved") if ok else vc.fail("every parameter is saved", f"{list(sd)} of {list(pa)}")
    for k in pa:
        equal(vc, "after the round trip both have the same parameters", pb[k], pa[k])
    digits = [k for k in sd if any(p.isdigit() for p in k.split("."))]
    full = [short(k) for k in a.state_dict()]
    if via != "off" and len(set(full)) == len(full):
        vc.ok("flattened names have no numeric parts") if not digits else vc.fail("flattened names have no numeric parts", str(digits))
    else:
        vc.ok("names are kept where flattening is off or ambiguous") if list(sd) == list(a.state_dict()) else vc.fail("names are kept where flattening is off or ambiguous", str(list(sd)))


N_ = "names of up to three parts over a representative alphabet (numeric, named, mixed), up to three entries"
for _n in (1, 2, 3):
    unit("C19", f"state_dict of {_n} entries", "continual.utils.state_dict", bounded=N_, thorough=_n == 3)(save_unit(_n))
    unit("C19", f"load_state_dict of {_n} entries", "continual.utils.load_state_dict", bounded=N_, thorough=_n == 3)(load_unit(_n))
unit("C19", "load_state_dict of some entries", "continual.utils.load_state_dict", bounded=N_)(partial_unit)
unit("C19", "the flattening context", "continual.utils._FlatStateDict.__enter__ continual.utils._FlatStateDict.__exit__ continual.utils.state_dict")(context_unit)
unit("C19", "containers", "continual.container.FlattenableStateDict.state_dict continual.container.FlattenableStateDict.load_state_dict")(mixin_unit)
unit("C19", "round trip", "continual.container.FlattenableStateDict.state_dict continual.container.FlattenableStateDict.load_state_dict continual.utils.state_dict continual.utils.load_state_dict", bounded="five layouts")(nested_unit)
