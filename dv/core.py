"""Symbolic core of the verifier: path exploration by re-execution, exact symbolic integers, obligations.

Values
  SInt   exact (unbounded) integer held as a z3 bit-vector whose width is grown so that nothing ever overflows;
         a static interval [lo, hi] accompanies it.
  LInt   exact integer held as a linear combination of z3 Int atoms (positions, lengths, indices).
  SBool  symbolic truth value; using it as a Python bool forks the path.
Engine  one instance per verification case; explores all paths of a Python callable.
"""
import time
import itertools
import z3

z3.set_param("smt.random_seed", 1)


class PathEnd(BaseException):
    """The current path is finished (loop step proved, assumption false, ...)."""


class Restart(BaseException):
    """A loop invariant candidate was refuted: explore again with the weaker candidate set."""


class Unsupported(Exception):
    """The code does something the verifier does not model; the case is undecided (never a violation by itself)."""


class Refuted(BaseException):
    def __init__(self, name, model, detail=""):
        super().__init__(name)
        self.name, self.model, self.detail = name, model, detail


_CUR = None


def cur():
    if _CUR is None:
        raise Unsupported("no engine active")
    return _CUR


class Stats:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0
        self.failed = []        # list of dicts
        self.names = {}

    def merge(self, o):
        self.obligations += o.obligations
        self.discharged += o.discharged
        self.solver_s += o.solver_s
        self.paths += o.paths
        self.branches += o.branches
        self.failed.extend(o.failed)
        for k, v in o.names.items():
            self.names[k] = self.names.get(k, 0) + v


class Engine:
    _dv_opaque = True
    def __init__(self, name="", timeout_ms=20000, max_paths=20000, max_branches=5000, deadline=None):
        self.name = name
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_branches = max_branches
        self.deadline = deadline
        self.loop_cands = {}
        self.cut_loops = set()
        self.while_choice = {}
        self.fresh_counter = 0
        self.inputs = {}          # name -> z3 expr, for counterexamples
        self.on_path_start = None
        self.shapes = []
        self.seq_shapes = []
        self.bshapes = []
        self.index_hooks = []
        self.roots = []
        self.reached = set()

    # -- exploration -------------------------------------------------------
    def explore(self, fn):
        """Runs fn on every feasible path; obligations are recorded in self.stats."""
        global _CUR
        restarts = 0
        while True:
            try:
                saved = _CUR
                _CUR = self
                base = (self.stats.obligations, self.stats.discharged, dict(self.stats.names), list(self.stats.failed))
                try:
                    self._explore_once(fn)
                    return self.stats
                finally:
                    _CUR = saved
            except Restart:
                restarts += 1
                self.stats.obligations, self.stats.discharged, self.stats.names, self.stats.failed = base
                if restarts > 400:
                    self.stats.failed.append(dict(name=self.name, kind="undecided", detail="invariant search did not converge"))
                    return self.stats

    def _explore_once(self, fn):
        work = [[]]
        npaths = 0
        while work:
            if self.deadline and time.time() > self.deadline:
                self.stats.failed.append(dict(name=self.name, kind="undecided", detail="deadline"))
                return
            prefix = work.pop()
            npaths += 1
            if npaths > self.max_paths:
                self.stats.failed.append(dict(name=self.name, kind="undecided", detail="too many paths"))
                return
            self.stats.paths += 1
            self._reset(prefix, work)
            try:
                fn()
            except PathEnd:
                pass
            except Unsupported as e:
                self.stats.failed.append(dict(name=self.name, kind="undecided", detail="unsupported: %s" % e))
                return

    def _reset(self, prefix, work):
        self.prefix = prefix
        self.pos = 0
        self.work = work
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.pc = []
        self.fresh_counter = 0
        self.inputs = {}
        self.roots = []
        self.index_hooks = []
        self.shapes = []
        self.seq_shapes = []
        self.bshapes = []
        self.bounds = []
        self.str_shapes = []
        self.cut_while = False
        self.while_bound = None
        self.int_parser = self.float_parser = self.int_printer = None
        self.loop_occ = {}
        self.nbranch = 0
        self.in_body = 0
        self.assert_cache = {}
        self.div_records = []
        if self.on_path_start:
            self.on_path_start()

    # -- assumptions / branching -------------------------------------------
    def assume(self, cond):
        cond = tobool(cond)
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        self.pc.append(c)
        self.solver.add(c)

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        return r

    def feasible(self, *extra):
        return self._check(*extra) != z3.unsat

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.nbranch += 1
        self.stats.branches += 1
        if self.nbranch > self.max_branches:
            raise Unsupported("branch limit (unbounded loop without a cut?)")
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("deadline")
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if not t and not f:
                raise PathEnd()
            if t and f:
                self.work.append(self.prefix[: self.pos] + [False])
                d = True
            else:
                d = t
            self.prefix = self.prefix[: self.pos] + [d]
        self.pos += 1
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n):
        """Non-deterministic choice among n alternatives (all explored)."""
        for i in range(n - 1):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
            else:
                self.work.append(self.prefix[: self.pos] + [False])
                d = True
                self.prefix = self.prefix[: self.pos] + [d]
            self.pos += 1
            if d:
                return i
        return n - 1

    def pick(self, n):
        """choose() with a flat decision: all n alternatives are queued at once."""
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos][1]
        else:
            i = 0
            for j in range(n - 1, 0, -1):
                self.work.append(self.prefix[: self.pos] + [("p", j)])
            self.prefix = self.prefix[: self.pos] + [("p", 0)]
        self.pos += 1
        return i

    def must(self, cond):
        """True iff cond is entailed by the path condition (no forking)."""
        cond = tobool(cond)
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self._check(z3.Not(c)) == z3.unsat

    def may(self, cond):
        cond = tobool(cond)
        if isinstance(cond, bool):
            return cond
        return self._check(cond) != z3.unsat

    # -- obligations -------------------------------------------------------
    def prove(self, cond, name, detail=""):
        """Proof obligation. Failure is recorded and the path ends."""
        self.stats.obligations += 1
        self.stats.names[name] = self.stats.names.get(name, 0) + 1
        cond = tobool(cond)
        if isinstance(cond, bool):
            if cond:
                self.stats.discharged += 1
                return
            goal = z3.BoolVal(False)
        else:
            goal = z3.simplify(cond)
        if z3.is_true(goal):
            self.stats.discharged += 1
            return
        r, model = self._prove_goal(goal)
        if r == "proved":
            self.stats.discharged += 1
            return
        fail = dict(name=self.name + "::" + name, kind="refuted" if r == "refuted" else "undecided", detail=str(detail))
        if model is not None:
            fail["model"] = self.model_inputs(model)
        else:
            fail["detail"] += " (solver: unknown)"
        fail["goal"] = str(goal)[:1500]
        self.stats.failed.append(fail)
        if self.in_body and self.in_body < 30:
            self.in_body += 1       # inside a loop body whose invariant may still be weakened: go on to the end of the body
            return
        raise PathEnd()

    def _prove_goal(self, goal):
        t = time.time()
        try:
            s = z3.Solver()
            s.set("timeout", self.timeout_ms)
            s.add(*self.pc)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return "proved", None
            if r == z3.sat:
                return "refuted", s.model()
            r = self._check(z3.Not(goal))
            if r == z3.unsat:
                return "proved", None
            if r == z3.sat:
                return "refuted", self.solver.model()
            return "unknown", None
        finally:
            self.stats.solver_s += time.time() - t

    def model_inputs(self, model):
        out = {}
        for k, e in self.inputs.items():
            try:
                v = model.eval(e, model_completion=True)
                if z3.is_bv_value(v):
                    out[k] = v.as_signed_long() if k.startswith("s:") else v.as_long()
                elif z3.is_int_value(v):
                    out[k] = v.as_long()
                else:
                    out[k] = str(v)[:300]
            except Exception as e2:     # pragma: no cover
                out[k] = "?" + str(e2)
        return out

    def fail(self, name, detail=""):
        self.prove(False, name, detail)

    def reach(self, label):
        """Vacuity guard: records that this point is reachable."""
        if label not in self.reached:
            if self._check() == z3.sat:
                self.reached.add(label)

    def concretize(self, expr):
        """Enumerates the feasible concrete values of a z3 expression (forks)."""
        e = z3.simplify(expr)
        while True:
            if z3.is_bv_value(e):
                return e.as_signed_long()
            if z3.is_int_value(e):
                return e.as_long()
            # deterministic in replay: value itself is stored in the decision list
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                v = d[1]
                self.pos += 1
            else:
                r = self._check()
                if r == z3.unsat:
                    raise PathEnd()
                if r == z3.unknown:
                    raise Unsupported("concretize: unknown")
                mv = self.solver.model().eval(e, model_completion=True)
                v = mv.as_signed_long() if z3.is_bv_value(mv) else mv.as_long()
                d = ("v", v, True)
                self.nbranch += 1
                if self.nbranch > self.max_branches:
                    raise Unsupported("branch limit in concretize")
                if self.feasible(e != v):
                    self.work.append(self.prefix[: self.pos] + [("v", v, False)])
                self.prefix = self.prefix[: self.pos] + [d]
                self.pos += 1
            if d[2]:
                self.assume(e == v)
                return v
            self.assume(e != v)

    def fresh(self, base):
        self.fresh_counter += 1
        return "%s!%d" % (base, self.fresh_counter)

    # -- symbolic inputs ---------------------------------------------------
    def bv(self, name, lo, hi, register=True):
        if lo == hi:
            return lo
        w = need_width(lo, hi)
        nm = name if register else self.fresh(name)
        t = z3.BitVec(nm, w)
        if register:
            self.inputs[("s:" if lo < 0 else "") + name] = t
        if lo != -(1 << (w - 1)):
            self.assume(t >= lo)
        if hi != (1 << (w - 1)) - 1:
            self.assume(t <= hi)
        return SInt(t, lo, hi)

    def int(self, name, lo=None, hi=None, register=True):
        nm = name if register else self.fresh(name)
        t = z3.Int(nm)
        if register:
            self.inputs[name] = t
        if lo is not None:
            self.assume(t >= zint(lo))
        if hi is not None:
            self.assume(t <= zint(hi))
        return LInt.atom(t)

    def bool(self, name, register=True):
        nm = name if register else self.fresh(name)
        t = z3.Bool(nm)
        if register:
            self.inputs[name] = z3.If(t, z3.IntVal(1), z3.IntVal(0))
        return SBool(t)


def tobool(c):
    if isinstance(c, SBool):
        return c.t
    if type(c) is bool or z3.is_expr(c):
        return c
    if isinstance(c, (SInt, LInt)):
        return tobool(c != 0)
    return bool(c)


def need_width(lo, hi):
    n = 1
    if lo < 0:
        n = max(n, (-lo - 1).bit_length() + 1)
    if hi > 0:
        n = max(n, hi.bit_length() + 1)
    return n


def ext(t, w):
    """Sign-extends or truncates t to width w."""
    n = t.size()
    if n == w:
        return t
    if n < w:
        return z3.SignExt(w - n, t)
    return z3.Extract(w - 1, 0, t)


class _FakeIntClass:
    pass


def is_sym(x):
    return isinstance(x, (SInt, LInt, SBool)) if not type(x) in (int, bool) else False


def _t(x):
    return type(x)


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().branch(self.t)

    def as_int(self):
        return SInt(z3.If(self.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __eq__(self, o):
        if type(o) is SBool:
            return SBool(self.t == o.t)
        if type(o) is bool:
            return SBool(self.t if o else z3.Not(self.t))
        if o is None:
            return False
        return self.as_int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.t)) if type(r) is SBool else not r

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if type(o) is SBool:
            return SBool(z3.And(self.t, o.t))
        if type(o) is bool:
            return self if o else False
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SBool:
            return SBool(z3.Or(self.t, o.t))
        if type(o) is bool:
            return True if o else self
        return self.as_int() | o

    __ror__ = __or__

    def __invert__(self):
        return ~self.as_int()

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return "<symbool>"

    def __str__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"

    def _arith(self, name, *a):
        return getattr(self.as_int(), name)(*a)


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "lshift", "rshift", "rlshift", "rrshift", "lt", "le", "gt", "ge",
           "xor", "rxor", "neg", "abs", "floordiv", "mod", "rfloordiv", "rmod"):
    def _mk(n):
        return lambda self, *a: self._arith("__%s__" % n, *a)
    setattr(SBool, "__%s__" % _n, _mk(_n))


def sbool(t):
    """z3 Bool -> bool or SBool."""
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def sint(t, lo, hi):
    """Normalises a BV term into SInt or a Python int."""
    if lo == hi:
        return lo
    w = need_width(lo, hi)
    t = z3.simplify(ext(t, w))
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SInt(t, lo, hi)


def lift(x):
    """int/bool/SBool/SInt -> SInt (or NotImplemented)."""
    ty = type(x)
    if ty is SInt:
        return x
    if ty is SBool:
        return x.as_int()
    if ty is bool:
        x = int(x)
        ty = int
    if ty is int or (ty is not LInt and isinstance(x, int) and not is_sym(x)):
        x = int(x)
        return SInt(z3.BitVecVal(x, need_width(x, x)), x, x)
    return NotImplemented


MAX_WIDTH = 8192


class SInt:
    __slots__ = ("t", "lo", "hi")

    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = t, lo, hi

    @property
    def __class__(self):
        return int

    # conversion
    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return cur().concretize(self.t)

    __int__ = __index__

    def __float__(self):
        raise Unsupported("float(symbolic)")

    def __hash__(self):
        return hash(cur().concretize(self.t))

    def __repr__(self):
        return "<symint>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symint>"

    def _bin(self, o):
        if type(o) is LInt:
            return None
        o = lift(o)
        if o is NotImplemented:
            return None
        return o

    def __add__(self, o):
        if type(o) is LInt:
            return LInt.of(self) + o
        o = lift(o)
        if o is NotImplemented:
            return o
        lo, hi = self.lo + o.lo, self.hi + o.hi
        w = max(need_width(lo, hi), 1)
        return sint(ext(self.t, w) + ext(o.t, w), lo, hi)

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        lo, hi = -self.hi, -self.lo
        w = max(need_width(lo, hi), self.t.size())
        return sint(-ext(self.t, w), lo, hi)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is LInt:
            return LInt.of(self) - o
        o = lift(o)
        if o is NotImplemented:
            return o
        lo, hi = self.lo - o.hi, self.hi - o.lo
        w = need_width(lo, hi)
        return sint(ext(self.t, w) - ext(o.t, w), lo, hi)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o.__sub__(self)

    def __mul__(self, o):
        if type(o) is LInt:
            return LInt.of(self) * o
        o = lift(o)
        if o is NotImplemented:
            return o
        c = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        lo, hi = min(c), max(c)
        w = need_width(lo, hi)
        return sint(ext(self.t, w) * ext(o.t, w), lo, hi)

    __rmul__ = __mul__

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        hi = max(-self.lo, self.hi)
        w = need_width(0, hi)
        w = max(w, self.t.size())
        x = ext(self.t, w)
        return sint(z3.If(x < 0, -x, x), 0, hi)

    def __invert__(self):
        return sint(~self.t, -self.hi - 1, -self.lo - 1)

    @staticmethod
    def _bitw(a, b, op):
        w = max(a.t.size(), b.t.size())
        x, y = ext(a.t, w), ext(b.t, w)
        m = (1 << (w - 1)) - 1
        if op == "and":
            r = x & y
            if a.lo >= 0 and b.lo >= 0:
                lo, hi = 0, min(a.hi, b.hi)
            elif a.lo >= 0:
                lo, hi = 0, a.hi
            elif b.lo >= 0:
                lo, hi = 0, b.hi
            else:
                lo, hi = -m - 1, m
        else:
            r = (x | y) if op == "or" else (x ^ y)
            if a.lo >= 0 and b.lo >= 0:
                n = max(a.hi.bit_length(), b.hi.bit_length())
                lo, hi = (max(a.lo, b.lo) if op == "or" else 0), (1 << n) - 1
                if lo == hi and op == "or":
                    pass
            else:
                lo, hi = -m - 1, m
        return sint(r, lo, hi)

    def __and__(self, o):
        if type(o) is LInt:
            return o & self
        o = lift(o)
        return o if o is NotImplemented else SInt._bitw(self, o, "and")

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is LInt:
            raise Unsupported("LInt |")
        o = lift(o)
        return o if o is NotImplemented else SInt._bitw(self, o, "or")

    __ror__ = __or__

    def __xor__(self, o):
        o = lift(o)
        return o if o is NotImplemented else SInt._bitw(self, o, "xor")

    __rxor__ = __xor__

    def __lshift__(self, o):
        if type(o) is LInt:
            raise Unsupported("shift by LInt")
        o = lift(o)
        if o is NotImplemented:
            return o
        if o.lo < 0:
            if SBool(o.t < 0):
                raise ValueError("negative shift count")
            o = SInt(o.t, 0, max(o.hi, 0))
        if o.lo == o.hi:
            c = o.lo
            lo, hi = self.lo << c, self.hi << c
            w = max(need_width(lo, hi), self.t.size())
            if w > MAX_WIDTH:
                raise Unsupported("width")
            return sint(ext(self.t, w) << c, lo, hi)
        if o.hi > MAX_WIDTH // 2:
            raise Unsupported("symbolic shift too wide")
        lo = min(self.lo << o.hi, self.lo << o.lo)
        hi = max(self.hi << o.hi, self.hi << o.lo)
        w = max(need_width(lo, hi), self.t.size(), o.t.size())
        return sint(ext(self.t, w) << ext(o.t, w), lo, hi)

    def __rlshift__(self, o):
        o = lift(o)
        return o if o is NotImplemented else o.__lshift__(self)

    def __rshift__(self, o):
        if type(o) is LInt:
            raise Unsupported("shift by LInt")
        o = lift(o)
        if o is NotImplemented:
            return o
        if o.lo < 0:
            if SBool(o.t < 0):
                raise ValueError("negative shift count")
            o = SInt(o.t, 0, max(o.hi, 0))
        if o.lo == o.hi:
            c = o.lo
            lo, hi = self.lo >> c, self.hi >> c
            w = self.t.size()
            if c >= w:
                c = w - 1
            return sint(self.t >> c, lo, hi)
        c = [self.lo >> min(o.lo, 100000), self.lo >> min(o.hi, 100000), self.hi >> min(o.lo, 100000), self.hi >> min(o.hi, 100000)]
        w = max(self.t.size(), o.t.size())
        return sint(ext(self.t, w) >> ext(o.t, w), min(c), max(c))

    def __rrshift__(self, o):
        o = lift(o)
        return o if o is NotImplemented else o.__rshift__(self)

    def _divmod(self, o):
        o = lift(o)
        if o is NotImplemented:
            return None
        if o.lo <= 0 <= o.hi:
            if o.lo == o.hi or SBool(o.t == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
        if o.lo == o.hi and o.lo > 0 and (o.lo & (o.lo - 1)) == 0:
            k = o.lo.bit_length() - 1
            return self >> k, self & (o.lo - 1)
        w = max(self.t.size(), o.t.size()) + 1
        a, b = ext(self.t, w), ext(o.t, w)
        q = a / b                     # signed, truncating
        r = z3.SRem(a, b)
        fix = z3.And(r != 0, (r < 0) != (b < 0))
        q = z3.If(fix, q - 1, q)
        r = z3.If(fix, r + b, r)
        m = max(abs(self.lo), abs(self.hi))
        qlo, qhi = (-m - 1 if self.lo < 0 or o.lo < 0 else 0), m
        mb = max(abs(o.lo), abs(o.hi))
        rlo, rhi = (-(mb - 1) if o.lo < 0 else 0), (mb - 1 if o.hi > 0 else 0)
        return sint(q, qlo, qhi), sint(r, rlo, rhi)

    def __floordiv__(self, o):
        if type(o) is LInt:
            return LInt.of(self) // o
        r = self._divmod(o)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[1]

    def __divmod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __rmod__(self, o):
        return lift(o) % self

    def __pow__(self, o):
        raise Unsupported("pow")

    def __rpow__(self, o):
        if o == 2:
            return 1 << self
        raise Unsupported("pow")

    def __truediv__(self, o):
        raise Unsupported("true division")

    __rtruediv__ = __truediv__

    def _cmp(self, o, f, static):
        if type(o) is LInt:
            return f(LInt.of(self), o) if False else NotImplemented
        ol = lift(o)
        if ol is NotImplemented:
            if type(o) is float:
                raise Unsupported("compare with float")
            return NotImplemented
        s = static(self, ol)
        if s is not None:
            return s
        w = max(self.t.size(), ol.t.size())
        return sbool(f(ext(self.t, w), ext(ol.t, w)))

    def __lt__(self, o):
        if type(o) is LInt:
            return LInt.of(self) < o
        return self._cmp(o, lambda a, b: a < b, lambda a, b: True if a.hi < b.lo else (False if a.lo >= b.hi else None))

    def __le__(self, o):
        if type(o) is LInt:
            return LInt.of(self) <= o
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: True if a.hi <= b.lo else (False if a.lo > b.hi else None))

    def __gt__(self, o):
        if type(o) is LInt:
            return LInt.of(self) > o
        return self._cmp(o, lambda a, b: a > b, lambda a, b: True if a.lo > b.hi else (False if a.hi <= b.lo else None))

    def __ge__(self, o):
        if type(o) is LInt:
            return LInt.of(self) >= o
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: True if a.lo >= b.hi else (False if a.hi < b.lo else None))

    def __eq__(self, o):
        if type(o) is LInt:
            return LInt.of(self) == o
        if lift(o) is NotImplemented:
            return False
        return self._cmp(o, lambda a, b: a == b, lambda a, b: False if (a.hi < b.lo or a.lo > b.hi) else None)

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.t)) if type(r) is SBool else not r

    def bit_length(self):
        a = lift(abs(self))
        n = a.hi.bit_length()
        w = need_width(0, n)
        r = z3.BitVecVal(0, w)
        t = ext(a.t, max(a.t.size(), n + 1))
        for i in range(n):
            r = z3.If(z3.Extract(i, i, t) == 1, z3.BitVecVal(i + 1, w), r)
        return sint(r, 0, n)

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from dv.rope import SBytes
        length = int(length)
        if length < 0:
            raise ValueError("length argument must be non-negative")
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed and length else (0, (1 << (8 * length)) - 1)
        if signed and length == 0:
            lo, hi = 0, 0
        if not signed and self < 0:
            raise OverflowError("can't convert negative int to unsigned")
        if (self < lo) or (self > hi):
            raise OverflowError("int too big to convert")
        t = ext(self.t, max(8 * length + 1, self.t.size()))
        out = []
        for i in range(length):
            b = z3.Extract(8 * i + 7, 8 * i, t)
            out.append(sint(z3.ZeroExt(1, b), 0, 255))
        if byteorder == "big":
            out.reverse()
        elif byteorder != "little":
            raise ValueError("byteorder must be either 'little' or 'big'")
        return SBytes.concrete(out)

    @property
    def real(self):
        return self

    def conjugate(self):
        return self


def ubits(x, w):
    """z3 BV term holding the low w bits of an int/SInt."""
    x = lift(x)
    return z3.simplify(ext(x.t, w))


def from_ubits(t):
    """Unsigned interpretation of a BV term as SInt/int."""
    n = t.size()
    return sint(z3.ZeroExt(1, t), 0, (1 << n) - 1)


def from_sbits(t):
    n = t.size()
    return sint(t, -(1 << (n - 1)), (1 << (n - 1)) - 1)


# ---------------------------------------------------------------------------
def zint(x):
    """z3 Int term (or Python int) of an integer-like value."""
    ty = type(x)
    if ty is LInt:
        return x.z()
    if ty in (SInt, SBool):
        return LInt.of(x).z()
    if ty is bool:
        return z3.IntVal(int(x))
    if ty is int:
        return z3.IntVal(x)
    if z3.is_expr(x):
        return x
    if isinstance(x, int):
        return z3.IntVal(int(x))
    raise Unsupported("not an integer: %r" % (ty,))


_ATOMS = {}


class LInt:
    """Exact integer: const + sum coef * atom, atoms being z3 Int terms."""
    __slots__ = ("terms", "c")

    def __init__(self, terms, c):
        self.terms, self.c = terms, c

    @property
    def __class__(self):
        return int

    @staticmethod
    def atom(t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        _ATOMS[t.get_id()] = t
        return LInt({t.get_id(): 1}, 0)

    @staticmethod
    def of(x):
        ty = type(x)
        if ty is LInt:
            return x
        if ty is SBool:
            return LInt.of(LInt.atom(z3.If(x.t, z3.IntVal(1), z3.IntVal(0))))
        if ty is SInt:
            if x.lo >= 0:
                t = z3.BV2Int(x.t, False)
            else:
                t = z3.BV2Int(x.t, True)
            e = cur()
            key = ("bv2int", t.get_id())
            if key not in e.assert_cache:
                e.assert_cache[key] = t
                e.assume(z3.And(t >= x.lo, t <= x.hi))
            r = LInt.atom(t)
            return LInt.of(r)
        if ty is bool:
            return LInt({}, int(x))
        if ty is int or isinstance(x, int):
            return LInt({}, int(x))
        return NotImplemented

    def norm(self):
        return self.c if not self.terms else self

    def z(self):
        parts = []
        for i, k in self.terms.items():
            parts.append(_ATOMS[i] if k == 1 else k * _ATOMS[i])
        if self.c or not parts:
            parts.append(z3.IntVal(self.c))
        return parts[0] if len(parts) == 1 else z3.Sum(*parts)

    def __add__(self, o):
        o = LInt.of(o)
        if o is NotImplemented:
            return o
        d = dict(self.terms)
        for i, k in o.terms.items():
            n = d.get(i, 0) + k
            if n:
                d[i] = n
            else:
                d.pop(i, None)
        return LInt(d, self.c + o.c).norm()

    __radd__ = __add__

    def __neg__(self):
        return LInt({i: -k for i, k in self.terms.items()}, -self.c).norm()

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = LInt.of(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = LInt.of(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = LInt.of(o)
        if o is NotImplemented:
            return o
        if not o.terms:
            if o.c == 0:
                return 0
            return LInt({i: k * o.c for i, k in self.terms.items()}, self.c * o.c).norm()
        if not self.terms:
            return o * self.c
        r = LInt({}, self.c * o.c)
        for i, k in list(self.terms.items()) + [(None, self.c)]:
            for j, m in list(o.terms.items()) + [(None, o.c)]:
                if (i is None and j is None) or k * m == 0:
                    continue
                if i is None or j is None:
                    r = LInt.of(r + LInt({i or j: k * m}, 0))
                else:
                    r = LInt.of(r + LInt.of(mul_atom(i, j)) * (k * m))
        return r.norm()

    __rmul__ = __mul__

    def __abs__(self):
        return LInt.atom(z3.If(self.z() < 0, -self.z(), self.z()))

    def _split(self, d):
        q, r = {}, {}
        for i, k in self.terms.items():
            if k // d:
                q[i] = k // d
            if k % d:
                r[i] = k % d
        return LInt(q, self.c // d), LInt(r, self.c % d)

    def __floordiv__(self, o):
        o = LInt.of(o)
        if o is NotImplemented:
            return o
        if o.terms:
            return sym_divmod(self, o)[0]
        d = o.c
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if d < 0:
            return (-self) // (-d)
        q, r = self._split(d)
        if not r.terms:
            return q.norm()
        return q + LInt.atom(r.z() / d)

    def __mod__(self, o):
        o = LInt.of(o)
        if o is NotImplemented:
            return o
        if o.terms:
            return sym_divmod(self, o)[1]
        d = o.c
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if d < 0:
            return -((-self) % (-d))
        q, r = self._split(d)
        if not r.terms:
            return r.c
        return LInt.of(LInt.atom(r.z() % d)).norm()

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return LInt.of(o) // self

    def __rmod__(self, o):
        return LInt.of(o) % self

    def __and__(self, o):
        o = LInt.of(o)
        if o is NotImplemented:
            return o
        if not o.terms and o.c >= 0 and (o.c & (o.c + 1)) == 0:
            return self % (o.c + 1)
        if not o.terms and o.c < 0 and ((-o.c) & (-o.c - 1)) == 0:      # ~(2^k-1)
            return self - self % (-o.c)
        raise Unsupported("LInt & %r" % o)

    __rand__ = __and__

    def __or__(self, o):
        raise Unsupported("LInt |")

    __ror__ = __xor__ = __rxor__ = __or__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        if type(o) in (LInt, SInt):
            raise Unsupported("LInt << sym")
        if o < 0:
            raise ValueError("negative shift count")
        return self * (1 << o)

    def __rshift__(self, o):
        if type(o) in (LInt, SInt):
            raise Unsupported("LInt >> sym")
        if o < 0:
            raise ValueError("negative shift count")
        return self // (1 << o)

    def __rlshift__(self, o):
        if type(o) is int and o == 0:
            return 0
        raise Unsupported("<< LInt")

    __rrshift__ = __rlshift__

    def _cmp(self, o, f):
        o = LInt.of(o)
        if o is NotImplemented:
            return o
        d = self - o
        if type(d) is int:
            return f(d, 0)
        return sbool(f(d.z(), z3.IntVal(0)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.t)) if type(r) is SBool else not r

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return cur().concretize(self.z())

    __int__ = __index__

    def __hash__(self):
        if cur().__dict__.get("opaque_hash"):
            return 0                     # only where no set or dictionary is searched by these numbers
        return hash(cur().concretize(self.z()))

    def __repr__(self):
        return "<symint>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symint>"

    def bit_length(self):
        raise Unsupported("LInt.bit_length")

    def to_bytes(self, *a, **k):
        raise Unsupported("LInt.to_bytes")


_MULS = {}


def mul_atom(i, j):
    """The product of two atoms as a (canonical) atom."""
    key = (min(i, j), max(i, j))
    t = _MULS.get(key)
    if t is None:
        t = _MULS[key] = z3.simplify(_ATOMS[key[0]] * _ATOMS[key[1]])
    return LInt.atom(t)


def sym_divmod(a, b):
    """Floor division by a symbolic divisor: a == q*b + r, 0 <= r < b (b > 0; other signs unsupported)."""
    e = cur()
    if e.branch(b.z() == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if e.branch(b.z() < 0):
        raise Unsupported("division by a negative symbolic integer")
    key = ("div", str(a.z().sexpr()), str(b.z().sexpr()))
    if key not in e.assert_cache:
        q = e.int("dvq", register=False)
        r = e.int("dvr", register=False)
        e.assert_cache[key] = (q, r)
        e.div_records.append((q, b))
        e.assume(And(r >= 0, r < b, eq(q * b + r, a)))
        # q has the sign of a (linear consequences the solver need not rediscover)
        e.assume(And(Implies(a >= 0, q >= 0), Implies(a < 0, q < 0)))
    return e.assert_cache[key]


def ite(c, a, b):
    """Symbolic if-then-else over integers / booleans (no forking)."""
    c = tobool(c)
    if isinstance(c, bool):
        return a if c else b
    if type(a) in (SBool, bool) and type(b) in (SBool, bool):
        return sbool(z3.If(c, tobool(a) if type(a) is SBool else z3.BoolVal(a), tobool(b) if type(b) is SBool else z3.BoolVal(b)))
    if type(a) is LInt or type(b) is LInt:
        return LInt.atom(z3.If(c, zint(a), zint(b)))
    x, y = lift(a), lift(b)
    w = max(x.t.size(), y.t.size())
    return sint(z3.If(c, ext(x.t, w), ext(y.t, w)), min(x.lo, y.lo), max(x.hi, y.hi))


def And(*cs):
    cs = [tobool(c) for c in cs]
    if any(c is False for c in cs):
        return False
    cs = [c for c in cs if c is not True]
    return z3.And(*cs) if cs else True


def Or(*cs):
    cs = [tobool(c) for c in cs]
    if any(c is True for c in cs):
        return True
    cs = [c for c in cs if c is not False]
    return z3.Or(*cs) if cs else False


def Not(c):
    c = tobool(c)
    return (not c) if isinstance(c, bool) else z3.Not(c)


def Implies(a, b):
    return Or(Not(a), b)


def eq(a, b):
    """Equality of two values as a formula, no forking."""
    if a is b:
        return True
    sa, sb_ = is_sym(a), is_sym(b)
    if sa or sb_:
        if a is None or b is None:
            return False
        r = (a == b) if sa else (b == a)
        return tobool(r)
    return a == b
