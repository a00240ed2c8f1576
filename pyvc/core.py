"""Path-exploring verification-condition generator: symbolic integers, branches, obligations, structural sums.

Values of tensors are z3 Reals at generic coordinates; integers are mathematical.
"""
import numbers
import os
import sys
import time

_ZP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _ZP not in sys.path:
    sys.path.append(_ZP)
import z3  # noqa: E402

sys.path.remove(_ZP)

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
QUERY_MS = int(os.environ.get("PYVC_QUERY_MS", "4000"))
MAX_PATHS = 3000


class Unsupported(BaseException):
    """The engine cannot model this; the obligation is undecided. Not an Exception: repository handlers must not catch it."""


class Effect(Unsupported):
    pass


class PathEnd(BaseException):
    """This path is finished (infeasible, or an arbitrary iteration was checked)."""


class SymError(Exception):
    """An error torch or python would raise on the modelled operation (shape mismatch, index out of range)."""


class Vc:
    """State of the current path."""

    cur = None

    def __init__(self, unit):
        self.unit = unit
        self.prefix = []
        self.queue = [[]]
        self.obl = {}
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.covered = 0
        self.notes = set()
        self.tags = ""

    # ---------------------------------------------------------------- exploration
    def explore(self, fn, deadline):
        Vc.cur = self
        while self.queue:
            if self.paths >= MAX_PATHS or time.time() > deadline:
                self.record("exploration finished", "undecided", f"stopped after {self.paths} paths")
                break
            self.prefix = self.queue.pop()
            self.start_path()
            self.paths += 1
            try:
                fn(self)
                if self.sat():
                    self.covered += 1
            except PathEnd:
                pass
            except Unsupported as e:
                self.record(f"the code stays within the modelled subset", "undecided", f"unsupported: {e}")
                if self.paths > 60 and not self.covered:
                    break
            except SymError as e:
                self.exception(e, "refuted")
            except AssertionError as e:
                self.exception(e, "refuted" if repo_frame(e) else "undecided")
            except Exception as e:
                self.exception(e, "refuted" if raised_in_repo(e) else "undecided")
        if not self.covered:
            self.record("some path satisfies the precondition (vacuity guard)", "undecided", "no completed feasible path")

    def exception(self, e, status):
        import traceback

        r = self._check()
        if r == z3.unsat:
            return
        if r != z3.sat:
            status = "undecided"
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if "/continual/" in f.filename]
        at = f"{loc[-1].filename}:{loc[-1].lineno}" if loc else f"{tb[-1].filename}:{tb[-1].lineno}"
        if os.environ.get("PYVC_TB"):
            traceback.print_exception(e)
        self.record("no exception on valid inputs", status, f"{type(e).__name__}: {str(e)[:200]} at {at}", self.model_str() if status == "refuted" else None)

    def start_path(self):
        self.tags = ""
        self.loop_rule = None
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", QUERY_MS)
        self.ndec = 0
        self.names = {}
        self.sums = {}
        self.sumdefs = {}
        self.dummies = []
        self.inputs = []
        self.approx = False
        self.approx_ops = set()
        self.block_labels = []
        self.rot_hints = []
        self.scans = []
        self.stacks = []
        self.quotients = {}
        self.witnesses = []
        self.lazy = 0  # inside an element of a comprehension
        self.positions = {}  # positions of sequences of parts that came up
        self.universals = []  # facts about every position, stated for each that comes up
        self.caches = [self.positions]  # dictionaries whose entries come with facts

    def effect(self, what):
        """called by code that changes something the engine does not see; not allowed where evaluation is lazy or tentative"""
        if self.lazy:
            raise Effect(f"{what} inside a lazily evaluated element")

    def fresh(self, base, sort=I):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return z3.Const(f"{base}!{n}" if n else base, sort)

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def assume(self, c):
        c = bterm(c)
        self.add(c)
        if not self.sat():
            raise PathEnd()

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        self.queries += 1
        return r

    def sat(self, *extra):
        return self._check(*extra) != z3.unsat

    def entails(self, c):
        """sound: True only if proved"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self._check(z3.Not(c)) == z3.unsat

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        t, f = self._check(c), self._check(z3.Not(c))
        if f == z3.unsat:
            return True
        if t == z3.unsat:
            return False
        i = self.ndec
        self.ndec += 1
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.queue.append(self.prefix[:i] + [False])
            self.prefix = self.prefix[:i] + [True]
        self.add(c if v else z3.Not(c))
        return v

    # ---------------------------------------------------------------- obligations
    def record(self, name, status, detail="", model=None):
        o = self.obl.setdefault((self.tags, name), dict(name=f"{self.unit}: {name}", unit=self.unit, tags=self.tags, status="discharged", detail="", n=0, cex={}))
        o["n"] += 1
        rank = dict(discharged=0, undecided=1, refuted=2)
        if rank[status] > rank[o["status"]]:
            o["status"] = status
            o["detail"] = (detail or "") + (f" [counterexample {model[0]}]" if model and model[0] else "")
            o["cex"] = model[1] if model else {}

    def model_str(self, m=None):
        try:
            if m is None:
                if self._check() != z3.sat:
                    return "", {}
                m = self.solver.model()
            v = {d.name(): str(m[d]) for d in m.decls() if d.arity() == 0 and not d.name().startswith("dim_") and "?" not in d.name() and d.range() in (I, B)}
            return ", ".join(f"{a}={b}" for a, b in sorted(v.items()))[:400], v
        except Exception:
            return "", {}

    def check(self, name, cond, detail=""):
        """Obligation: cond holds on this path."""
        g = bterm(cond)
        g = z3.simplify(g)
        if z3.is_true(g):
            return self.record(name, "discharged")
        if self.prove(g):
            return self.record(name, "discharged")
        r = self._check(z3.Not(g))
        if r == z3.sat:
            m = self.solver.model()
            st = "undecided" if (self.approx or self.approx_ops) else "refuted"
            if st == "refuted" and not (self._sumfree(g) and not self._divs(g)):
                m2 = self._concrete_sum_refute(g)
                m, st = m2 or m, st if m2 else "undecided"
            return self.record(name, st, f"{detail} cannot be proved: {str(g)[:300]}", self.model_str(m))
        self.record(name, "undecided", f"{detail} solver answered {r}: {str(g)[:200]}")

    def fail(self, name, detail):
        if self._check() == z3.sat:
            self.record(name, "undecided" if (self.approx or self.approx_ops) else "refuted", detail, self.model_str(self.solver.model()))
        else:
            self.record(name, "undecided", detail)

    def of(self, tags):
        """obligations recorded in this context belong to these properties (default: the first property of the unit)"""
        vc = self

        class C:
            def __enter__(s):
                s.old, vc.tags = vc.tags, tags

            def __exit__(s, *a):
                vc.tags = s.old

        return C()

    def ok(self, name):
        self.record(name, "discharged")

    # ---------------------------------------------------------------- structural sums
    def sum(self, n, body, tag="sum"):
        """Real term for body(0) + ... + body(n-1); n int or Int term"""
        n = z3.simplify(n) if z3.is_expr(n) else n
        if z3.is_expr(n) and z3.is_int_value(n):
            n = n.as_long()
        if isinstance(n, int) and n <= 4 and tag == "sum":
            t = z3.RealVal(0)
            for j in range(n):
                t = t + body(z3.IntVal(j))
            return z3.simplify(t) if n else t
        nt = z3.IntVal(n) if isinstance(n, int) else n
        j = z3.Int(f"j?{len(self.dummies)}")
        self.dummies.append(j)
        try:
            b = z3.simplify(body(j))
        finally:
            self.dummies.pop()
        if tag == "sum":
            num, den = self._common_divisor(b, j)
            if den is not None:
                from tensor import div

                return div(self.sum(n, lambda i: z3.substitute(num, (j, i))), den)
        acc = set()
        self._consts(b, acc, set())
        self._consts(nt, acc, set())
        params = [d for d in self.dummies if d.decl().name() in acc]
        key = (tag, nt.sexpr(), b.sexpr())
        if key not in self.sums:
            nm = f"{tag}?{len(self.sums)}"
            f = z3.Function(nm, *[I] * len(params), R)
            self.sums[key] = f
            self.sumdefs[nm] = (f, params, nt, b, j, tag)
        f = self.sums[key]
        return f(*params)

    def _common_divisor(self, b, j):
        """(x / d) * v summed over j with d free of j: the divisor can be moved out of the sum"""
        def free(t):
            acc = set()
            self._consts(t, acc, set())
            return j.decl().name() not in acc

        def isdiv(t):
            return z3.is_app(t) and t.decl().name() == "div" and free(t.arg(1))

        if isdiv(b):
            return b.arg(0), b.arg(1)
        if z3.is_app(b) and b.decl().name() == "mul":
            from tensor import mul

            for k in (0, 1):
                if isdiv(b.arg(k)):
                    return mul(b.arg(k).arg(0), b.arg(1 - k)), b.arg(k).arg(1)
        return None, None

    def fold_max(self, n, body):
        if is_intlike(n) and isinstance(n, int):
            r = body(z3.IntVal(0))
            for j in range(1, n):
                v = body(z3.IntVal(j))
                r = z3.If(r >= v, r, v)
            return r
        return self.sum(iterm(n), body, "max")

    def _consts(self, e, acc, seen):
        stack = [e]
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(t.decl().name())
            stack.extend(t.children())

    def _sums_in(self, g):
        """sum occurrences in g and in the bodies of those sums: (term, length, body, index variable, tag)"""
        out, todo, seen = [], [g], set()
        while todo:
            stack, vis = [todo.pop()], set()
            while stack:
                t = stack.pop()
                if t.get_id() in vis:
                    continue
                vis.add(t.get_id())
                if z3.is_app(t) and t.decl().name() in self.sumdefs:
                    k = t.sexpr()
                    if k not in seen:
                        seen.add(k)
                        f, params, n, b, j, tag = self.sumdefs[t.decl().name()]
                        sub = list(zip(params, t.children()))
                        n2, b2 = (z3.substitute(n, *sub), z3.substitute(b, *sub)) if sub else (n, b)
                        if not any(c.decl().name().startswith("j?") for c in t.children() if z3.is_const(c)):
                            out.append((t, n2, b2, j, tag))
                            todo.append(b2)
                        else:
                            pass  # depends on the index of an enclosing sum: looked at once that index is fixed
                stack.extend(t.children())
        return out

    def _divs(self, g):
        out, stack, seen = [], [g], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().name() == "divn":
                out.append(t)
            stack.extend(t.children())
        return out

    def _sumfree(self, g):
        return not self._sums_in(g)

    def _concrete_sum_refute(self, g):
        """A refutation whose sums are opaque constants may be spurious: confirm it with a small concrete length."""
        try:
            s = z3.Solver()
            s.set("timeout", QUERY_MS)
            s.add(*self.pc)
            s.add(z3.Not(g))
            for c, n, b, j, tag in self._sums_in(g):
                at = [z3.substitute(b, (j, z3.IntVal(k))) for k in range(4)]
                if tag == "max":
                    t = at[0]
                    for k in range(1, 4):
                        t = z3.If(z3.And(k < n, at[k] > t), at[k], t)
                else:
                    t = z3.RealVal(0)
                    for k in range(4):
                        t = t + z3.If(k < n, at[k], z3.RealVal(0))
                s.add(n <= 4, n >= 1 if tag == "max" else n >= 0, c == t)
            # quotients by an integer are uninterpreted: give them their meaning
            for e in [g] + [t for t, *_ in self._sums_in(g)]:
                for d in self._divs(e):
                    a, b = d.children()
                    s.add(d * z3.ToReal(b) == a, b != 0)
            return s.model() if s.check() == z3.sat else None
        except Exception:
            return None

    def sum_lemmas(self, g, depth=0, extra=()):
        """equalities between sums over equal ranges whose bodies are provably equal, also with the last or first
        term split off or the index reversed"""
        ss = self._sums_in(g)
        lem = []
        done = set()
        for a in range(len(ss)):
            for b in range(a + 1, len(ss)):
                ca, na, ba, ja, ta = ss[a]
                cb, nb, bb, jb, tb = ss[b]
                if ta != tb or (ca, cb) in done:
                    continue
                j = self.fresh("js")
                if self._valid(na == nb, extra):
                    cand = [(j, ca == cb), (na - 1 - j, ca == cb)]
                    for r in self.rot_hints:  # rotations are bijections of the index range
                        if self._valid(z3.And(0 <= r, r <= na), extra):
                            cand.append((z3.If(j + r < na, j + r, j + r - na), ca == cb))
                            cand.append((z3.If(j - r >= 0, j - r, j - r + na), ca == cb))
                    for idx, concl in cand:
                        fa, fb = z3.substitute(ba, (ja, j)), z3.substitute(bb, (jb, idx))
                        if self._valid(z3.Implies(z3.And(0 <= j, j < na), fa == fb), extra, depth):
                            lem.append(concl)
                            break
                    else:
                        if ta == "sum":  # sliding window: the first term leaves, a last one enters
                            for c1, f1, c2, f2 in ((ca, lambda i: z3.substitute(ba, (ja, i)), cb, lambda i: z3.substitute(bb, (jb, i))), (cb, lambda i: z3.substitute(bb, (jb, i)), ca, lambda i: z3.substitute(ba, (ja, i)))):
                                if self._valid(z3.Implies(z3.And(0 <= j, j < na - 1), f2(j) == f1(j + 1)), extra, depth):
                                    lem.append(z3.Implies(na >= 1, c2 == c1 - f1(z3.IntVal(0)) + f2(na - 1)))
                                    break
                elif ta == "sum":
                    for (c1, n1, b1, j1), (c2, n2, b2, j2) in (((ca, na, ba, ja), (cb, nb, bb, jb)), ((cb, nb, bb, jb), (ca, na, ba, ja))):
                        if not self._valid(n1 == n2 + 1, extra):
                            continue
                        f1 = lambda i: z3.substitute(b1, (j1, i))
                        f2 = z3.substitute(b2, (j2, j))
                        rng = z3.And(0 <= j, j < n2)
                        nn = z3.And(n2 >= 0)
                        for shift in (0, 1):  # sum_{n2+1} f1 = sum_{n2} f1(.+shift) + f1(left out)
                            if self._valid(z3.Implies(rng, f1(j + shift) == f2), extra, depth):
                                lem.append(z3.Implies(nn, c1 == c2 + (f1(n2) if shift == 0 else f1(z3.IntVal(0)))))
                                break
                        else:
                            fr = z3.substitute(b2, (j2, n2 - 1 - j))
                            for shift in (0, 1):
                                if self._valid(z3.Implies(rng, f1(j + shift) == fr), extra, depth):
                                    lem.append(z3.Implies(nn, c1 == c2 + (f1(n2) if shift == 0 else f1(z3.IntVal(0)))))
                                    break
        for c, n, b, j, t in ss:
            if t == "sum":
                lem.append(z3.Implies(n <= 0, c == 0))
                f0 = z3.substitute(b, (j, z3.IntVal(0)))
                lem.append(z3.Implies(n == 1, c == f0))
        return lem

    def _comm(self, g):
        """products commute"""
        out, stack, seen = [], [g], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().name() == "mul" and t.num_args() == 2:
                a, b = t.children()
                out.append(t == t.decl()(b, a))
            stack.extend(t.children())
        return out

    def _valid(self, g, extra=(), depth=0):
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        extra = tuple(extra) + tuple(self._comm(g))
        if depth < 3 and not self._sumfree(g):
            extra = tuple(extra) + tuple(self.sum_lemmas(g, depth + 1, extra))
        return self._check(*extra, z3.Not(g)) == z3.unsat

    def prove(self, g, depth=0):
        comm = self._comm(g)
        if self._check(*comm, z3.Not(g)) == z3.unsat:
            return True
        if not self._sumfree(g):
            lem = self.sum_lemmas(g, 0, tuple(comm))
            if lem and self._check(*comm, *lem, z3.Not(g)) == z3.unsat:
                return True
            if depth < 4:
                return self._split(g, depth)
        return False

    def _split(self, g, depth):
        """case split on a hypothesis or a condition of the goal, so that sum lemmas can use it"""
        def under(c, g2):
            self.solver.push()
            n = len(self.pc)
            try:
                self.add(c)
                g2 = z3.simplify(g2)
                return z3.is_true(g2) or self._check() == z3.unsat or self.prove(g2, depth + 1)
            finally:
                self.solver.pop()
                del self.pc[n:]

        if z3.is_or(g):  # prove one disjunct that has sums under the negation of the others
            xs = g.children()
            for x in xs:
                if not self._sumfree(x):
                    rest = [y for y in xs if not y.eq(x)]
                    return under(z3.Not(z3.Or(*rest)) if len(rest) > 1 else z3.Not(rest[0]), x) if rest else False
        if z3.is_and(g):
            return all(self.prove(x, depth + 1) for x in g.children())
        stack, seen = [g], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                c = t.arg(0)
                return under(c, z3.substitute(g, (c, z3.BoolVal(True)))) and under(z3.Not(c), z3.substitute(g, (c, z3.BoolVal(False))))
            stack.extend(t.children())
        return False

    # ---------------------------------------------------------------- inputs of a unit
    def int(self, name, lo=None, hi=None):
        t = self.fresh(name)
        if lo is not None:
            self.add(t >= iterm(lo))
        if hi is not None:
            self.add(t <= iterm(hi))
        return sint(t)

    def label(self, name):
        """size of a dimension whose coordinates are never looked at individually"""
        t = z3.Int("dim_" + name)
        self.add(t >= 1)
        return SInt(t, (name,))

    def derived_label(self, name):
        """label dimension determined by the operation and sizes in its name"""
        t = z3.Int("dim_" + name)
        self.add(t >= 1)
        return SInt(t, (name,))

    def bool(self, name):
        return bool(SBool(self.fresh(name, B)))

    def choose(self, name, options):
        """fork over a finite list of configurations"""
        for o in options[:-1]:
            if self.decide(self.fresh(f"{name}={o}", B)):
                return o
        return options[-1]

    def func(self, name, *sorts):
        return z3.Function(name, *sorts)


def repo_frame(e):
    import traceback

    tb = traceback.extract_tb(e.__traceback__)
    return "/continual/" in tb[-1].filename


raised_kinds = (ValueError, AssertionError, RuntimeError, NotImplementedError)


def raised_in_repo(e):
    return isinstance(e, raised_kinds) and repo_frame(e)


# -------------------------------------------------------------------- symbolic scalars
def iterm(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if z3.is_expr(x):
        return x
    v = getattr(x, "_ival", None)
    if v is not None:
        return v()
    try:
        import torch

        if isinstance(x, torch.Tensor) and x.dim() == 0:
            return z3.IntVal(int(x))
    except ImportError:
        pass
    raise Unsupported(f"integer expected, got {type(x).__name__}")


def bterm(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    raise Unsupported(f"boolean expected, got {type(x).__name__}")


def sint(t, atoms=None):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t, atoms)


def is_intlike(x):
    return isinstance(x, (int, SInt))


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return Vc.cur.decide(self.t)

    def __and__(self, o):
        return SBool(z3.And(self.t, bterm(o)))

    def __or__(self, o):
        return SBool(z3.Or(self.t, bterm(o)))

    def __invert__(self):
        return SBool(z3.Not(self.t))

    __rand__, __ror__ = __and__, __or__


def sbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def fdiv(a, b):
    """python floor division / modulo of Int terms, by range analysis of the quotient; forks over the possible quotients"""
    vc = Vc.cur
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_int_value(b):
        if b.as_long() == 0:
            raise SymError("division by zero")
        if b.as_long() > 0:
            return a / b, a % b
    if vc.entails(b < 0):
        raise Unsupported("negative divisor")
    if not vc.entails(b > 0):
        if vc.decide(b == 0):
            raise SymError("division by zero")
        if vc.decide(b < 0):
            raise Unsupported("negative divisor")
    for q in (0, -1, 1, -2, 2, 3, -3):
        if vc.entails(z3.And(a >= q * b, a < (q + 1) * b)):
            return z3.IntVal(q), z3.simplify(a - q * b)
    lo, hi = -3, 3
    if vc.entails(z3.And(a >= lo * b, a < hi * b)):
        for q in (0, 1, -1, 2, -2):
            if vc.decide(z3.And(a >= q * b, a < (q + 1) * b)):
                return z3.IntVal(q), z3.simplify(a - q * b)
        q = -3
        return z3.IntVal(q), z3.simplify(a - q * b)
    # general: a = q*b + r, one quotient and remainder for each a and b
    key = (a.sexpr(), b.sexpr())
    if key not in vc.quotients:
        q, r = vc.fresh("quo"), vc.fresh("rem")
        vc.quotients[key] = (q, r)
    q, r = vc.quotients[key]
    vc.add(z3.And(a == q * b + r, r >= 0, r < b))
    return q, r


def modterm(a, n):
    """a mod n as a term without forking, for indices known to lie in [-n, 3n)"""
    vc = Vc.cur
    a, n = z3.simplify(a), z3.simplify(n)
    if z3.is_int_value(n):
        return a % n
    return z3.If(a < 0, a + n, z3.If(a < n, a, z3.If(a < 2 * n, a - n, a - 2 * n)))


class SInt:
    """Symbolic (mathematical) integer. atoms: the labels whose product it is, for sizes of label dimensions."""

    __slots__ = ("t", "atoms")

    def __init__(self, t, atoms=None):
        self.t = t
        self.atoms = atoms

    def _bin(self, o, f):
        if not is_intlike(o) and not hasattr(o, "_ival"):
            if isinstance(o, float) and o == int(o):
                o = int(o)
            else:
                return NotImplemented
        if hasattr(o, "_ival") and not isinstance(o, SInt):
            return NotImplemented
        return sint(f(self.t, iterm(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, SInt) and self.atoms is not None and o.atoms is not None:
            return SInt(self.t * o.t, self.atoms + o.atoms)
        if isinstance(o, int) and o == 1:
            return self
        if isinstance(o, (list, tuple)):
            return rep(o, self)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return sint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return sint(z3.If(self.t >= 0, self.t, -self.t))

    def __floordiv__(self, o):
        if isinstance(o, int) and o == 1:
            return self
        if isinstance(o, SInt) and self.atoms and o.atoms and set(o.atoms) <= set(self.atoms):
            rest = list(self.atoms)
            for a in o.atoms:
                rest.remove(a)
            if not rest:
                return 1
            t = z3.Int("dim_" + rest[0])
            for r in rest[1:]:
                t = t * z3.Int("dim_" + r)
            return SInt(t, tuple(rest))
        if not is_intlike(o):
            return NotImplemented
        return sint(fdiv(self.t, iterm(o))[0])

    def __rfloordiv__(self, o):
        return sint(fdiv(iterm(o), self.t)[0])

    def __mod__(self, o):
        if isinstance(o, int) and o == 1:
            return 0
        if isinstance(o, SInt) and self.atoms and o.atoms and set(o.atoms) <= set(self.atoms):
            return 0
        if not is_intlike(o):
            return NotImplemented
        return sint(fdiv(self.t, iterm(o))[1])

    def __rmod__(self, o):
        return sint(fdiv(iterm(o), self.t)[1])

    def __divmod__(self, o):
        q, r = fdiv(self.t, iterm(o))
        return sint(q), sint(r)

    def __truediv__(self, o):
        return SReal(z3.ToReal(self.t)) / o

    def __rtruediv__(self, o):
        return o / SReal(z3.ToReal(self.t)) if isinstance(o, SReal) else SReal(z3.RealVal(o)) / self

    def __pow__(self, o):
        if o == 2:
            return self * self
        if isinstance(o, float):
            return SReal(z3.Function("powr", R, R, R)(z3.ToReal(self.t), z3.RealVal(o)))
        raise Unsupported("power")

    def _cmp(self, o, f):
        if o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, float):
            return SBool(f(z3.ToReal(self.t), z3.RealVal(o))) if o == o and abs(o) != float("inf") else NotImplemented
        if not is_intlike(o):
            if hasattr(o, "_ival"):
                return NotImplemented
            try:
                o = iterm(o)
            except Unsupported:
                return NotImplemented
        return sbool(f(self.t, iterm(o)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and not hasattr(o, "_ival") else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented and not hasattr(o, "_ival") else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return Vc.cur.decide(self.t != 0)

    def __hash__(self):
        raise Unsupported("symbolic integer used as a key")

    def __index__(self):
        raise Unsupported("symbolic integer used where a concrete one is needed")

    __int__ = __index__

    def __float__(self):
        raise Unsupported("symbolic integer used as float")

    def __repr__(self):
        return f"<{self.t}>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


numbers.Integral.register(SInt)


class SReal:
    """symbolic real scalar (scaling factors only)"""

    def __init__(self, t):
        self.t = z3.simplify(t)

    def _o(self, o):
        if isinstance(o, SReal):
            return o.t
        if isinstance(o, SInt):
            return z3.ToReal(o.t)
        if isinstance(o, (int, float)):
            return z3.RealVal(o)
        return None

    def _b(self, o, f, fr=False):
        v = self._o(o)
        if v is None:
            return NotImplemented
        return SReal(f(self.t, v))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else SReal(v / self.t)

    def __pow__(self, o):
        return SReal(z3.Function("powr", R, R, R)(self.t, z3.RealVal(o)))

    def __neg__(self):
        return SReal(-self.t)

    def __bool__(self):
        raise Unsupported("branch on a real")


numbers.Real.register(SReal)


# -------------------------------------------------------------------- symbolic sequences
class SymRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.step = lo, step
        if isinstance(step, int) and step == 1:
            n = hi - lo
        elif isinstance(step, int) and step == -1:
            n = lo - hi
        else:
            # number of elements: ceil((hi - lo) / step), recognising hi - lo = n * step
            n = _ceil_quot(hi - lo, step)
        self.n = smax(n, 0)

    def at(self, i):
        return self.lo + i * self.step


def _ceil_quot(a, s):
    vc = Vc.cur
    at, st = iterm(a), iterm(s)
    if not vc.entails(st > 0):
        raise Unsupported("range with a step that is not provably positive")
    q = vc.fresh("cnt")
    vc.add(z3.And(q * st >= at, (q - 1) * st < at))
    # recognise exact multiples: a = k*s for a known factor k
    if z3.is_mul(at):
        for ch in at.children():
            if vc.entails(at == ch * st) and not ch.eq(st):
                vc.add(q == ch)
                break
    return sint(q)


class SymSeq:
    """Sequence made of segments (length, element at a position), lengths may be symbolic."""

    def __init__(self, n=0, at=None, segs=None):
        self.segs = segs if segs is not None else [(n, at)]

    @property
    def n(self):
        r = 0
        for n, _ in self.segs:
            r = r + n
        return r

    def at(self, i):
        for q, (n, at) in enumerate(self.segs):
            if q == len(self.segs) - 1 or bool(sbool(iterm(i) < iterm(n))):
                return at(i)
            i = i - n
        raise SymError("list index out of range")

    def sample(self):
        """some element (to learn the shape of all of them)"""
        for n, at in self.segs:
            if bool(sbool(iterm(n) > 0)):
                return at(0)
        raise SymError("empty list")

    def value(self, i, idx):
        """value of a sequence of tensors at an Int term position"""
        off = iterm(0)
        vals = []
        for n, at in self.segs:
            vals.append((off + iterm(n), at(sint(i - off)).val(idx)))
            off = off + iterm(n)
        r = vals[-1][1]
        for hi, v in reversed(vals[:-1]):
            c = z3.simplify(i < hi)
            r = v if z3.is_true(c) else (r if z3.is_false(c) else z3.If(c, v, r))
        return r

    def append(self, v):
        self.segs = self.segs + [(1, lambda i: v)]

    def extend(self, o):
        for v in o if isinstance(o, (list, tuple)) else [None]:
            if v is None:
                self.segs = self.segs + o.segs
            else:
                self.append(v)

    def __add__(self, o):
        r = SymSeq(segs=list(self.segs))
        if isinstance(o, SymSeq):
            r.segs = r.segs + o.segs
        else:
            for v in o:
                r.append(v)
        return r

    def __radd__(self, o):
        r = SymSeq(segs=[])
        for v in o:
            r.append(v)
        return r + self

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi, st = i.start, i.stop, i.step
            if st not in (None, 1):
                if st == -1 and lo is None and hi is None:
                    n, at = self.n, self.at
                    return SymSeq(n, lambda k: at(n - 1 - k))
                raise Unsupported("slice of a symbolic sequence")
            lo = 0 if lo is None else lo
            hi = self.n if hi is None else hi
            lo = lo + self.n if bool(lo < 0) else lo
            hi = hi + self.n if bool(hi < 0) else hi
            at = self.at
            return SymSeq(smax(smin(hi, self.n) - lo, 0), lambda k: at(k + lo))
        if bool(i < 0):
            i = i + self.n
        if not bool(i < self.n):
            raise SymError("list index out of range")
        return self.at(i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported("slice assignment to a symbolic sequence")
        if bool(i < 0):
            i = i + self.n
        if not bool(i < self.n):
            raise SymError("list assignment index out of range")
        n, at = self.n, SymSeq(segs=list(self.segs)).at
        self.segs = [(n, lambda j: v if bool(sbool(iterm(j) == iterm(i))) else at(j))]

    def copy(self):
        return SymSeq(segs=list(self.segs))

    def __bool__(self):
        return bool(self.n > 0)

    def __len__(self):
        n = self.n
        if isinstance(n, int):
            return n
        raise Unsupported("native length of a symbolic sequence")

    def __iter__(self):
        n = self.n
        if not isinstance(n, int):
            raise Unsupported("native iteration over a symbolic sequence")
        return iter([self.at(i) for i in range(n)])


def seqlen(x):
    if isinstance(x, (SymRange, SymSeq)):
        return x.n
    return None


def smax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a if a >= b else b
    at, bt = iterm(a), iterm(b)
    vc = Vc.cur
    if vc.entails(at >= bt):
        return a
    if vc.entails(bt >= at):
        return b
    return sint(z3.If(at >= bt, at, bt))


def smin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a if a <= b else b
    at, bt = iterm(a), iterm(b)
    vc = Vc.cur
    if vc.entails(at <= bt):
        return a
    if vc.entails(bt <= at):
        return b
    return sint(z3.If(at <= bt, at, bt))


def rep(lst, n):
    """list * n for a symbolic n"""
    if isinstance(n, int):
        return type(lst)(lst) * n
    if len(lst) != 1:
        raise Unsupported("repetition of a list of several elements")
    v = lst[0]
    return SymSeq(smax(n, 0), lambda i: v)
