"""Symbolic sequences (bytes, bytearray, list) as ropes: concrete runs of elements and abstract segments of
symbolic length.  An abstract segment is (get, length) with get(index LInt) -> element."""
import z3
from dv.core import (SInt, LInt, SBool, cur, Unsupported, PathEnd, zint, is_sym, ite, sint, lift, eq, And, sbool,
                     from_ubits, tobool)


class Abs:
    __slots__ = ("get", "n", "tag")

    def __init__(self, get, n, tag=None):
        self.get, self.n, self.tag = get, n, tag

    def length(self):
        return self.n

    def at(self, i):
        return self.get(i)

    def sub(self, a, b):
        if type(a) is int and a == 0:
            return Abs(self.get, b, self.tag)
        g = self.get
        tag = None
        if self.tag is not None:
            tag = (self.tag[0], self.tag[1] + a)
        return Abs(lambda i: g(i + a), b - a, tag)


class Con:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def length(self):
        return len(self.items)

    def at(self, i):
        if type(i) is int:
            return self.items[i]
        r = self.items[-1]
        for k in range(len(self.items) - 2, -1, -1):
            r = ite(eq(i, k), self.items[k], r)
        return r

    def sub(self, a, b):
        return Con(self.items[int(a):int(b)])


def _concrete(x):
    return type(x) is int


def is_zero_len(n):
    return type(n) is int and n == 0


def norm(segs):
    out = []
    for s in segs:
        n = s.length()
        if is_zero_len(n):
            continue
        if isinstance(s, Con) and out and isinstance(out[-1], Con):
            out[-1] = Con(out[-1].items + s.items)
        else:
            out.append(s)
    return out


def seg_total(segs):
    n = 0
    for s in segs:
        n = n + s.length()
    return n


def split(segs, pos):
    """Splits a segment list at position pos (0 <= pos <= total assumed); forks only when the order is undecided."""
    left = []
    rest = pos
    i = 0
    segs = list(segs)
    while i < len(segs):
        s = segs[i]
        n = s.length()
        if type(rest) is int and rest == 0:
            return left, segs[i:]
        d = rest - n
        if type(d) is int:
            ge = d >= 0
        else:
            e = cur()
            c = zint(d) >= 0
            ge = e.branch(c)
        if ge:
            left.append(s)
            rest = d
            if type(rest) is not int and cur().must(zint(rest) == 0):
                rest = 0
            i += 1
            continue
        # inside s
        if not (type(rest) is int) and cur().must(zint(rest) == 0):
            return left, segs[i:]
        if isinstance(s, Con):
            r = rest if type(rest) is int else cur().concretize(zint(rest))
            left.append(s.sub(0, r))
            return norm(left), norm([s.sub(r, len(s.items))] + segs[i + 1:])
        left.append(s.sub(0, rest))
        return norm(left), norm([s.sub(rest, n)] + segs[i + 1:])
    return left, []


def content_at(segs, j):
    """Element at symbolic index j as a nested if-then-else (no forking). j assumed in range."""
    segs = norm(segs)
    if not segs:
        raise Unsupported("element of empty sequence")
    if type(j) is int:
        base = 0
        for s in segs:
            n = s.length()
            if type(n) is not int:
                break
            if j < base + n:
                return s.at(j - base)
            base += n
    # compute starts
    starts = []
    st = 0
    for s in segs:
        starts.append(st)
        st = st + s.length()
    r = segs[-1].at(j - starts[-1])
    for k in range(len(segs) - 2, -1, -1):
        c = tobool(_lt(j, starts[k + 1]))
        if c is True:
            r = segs[k].at(j - starts[k])
        elif c is False:
            pass
        else:
            r = ite_any(c, segs[k].at(j - starts[k]), r)
    return r


def _lt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    return LInt.of(a) < b


def ite_any(c, a, b):
    if a is b:
        return a
    if isinstance(a, int) and isinstance(b, int):
        return ite(c, a, b)
    if hasattr(a, "_dv_ite"):
        return a._dv_ite(c, b)
    raise Unsupported("ite over objects")


def clamp_slice(key, n):
    """Python slice semantics with step 1 for possibly symbolic bounds; returns (a, b), 0<=a<=b<=n (may fork)."""
    if key.step not in (None, 1):
        raise Unsupported("slice step")
    def fix(x, default):
        if x is None:
            return default
        if x < 0:
            x = x + n
            if x < 0:
                return 0
        if x > n:
            return n
        return x
    a = fix(key.start, 0)
    b = fix(key.stop, n)
    if a > b:
        b = a
    return a, b


class SSeq:
    """Common part of symbolic sequences."""
    _mutable = False

    def __init__(self, segs=()):
        self.segs = norm(segs)

    @classmethod
    def concrete(cls, items):
        return cls([Con(items)])

    @classmethod
    def abstract(cls, get, n, tag=None):
        return cls([Abs(get, n, tag)])

    def _new(self, segs):
        return type(self)(segs)

    def dv_len(self):
        return seg_total(self.segs)

    def __len__(self):
        n = self.dv_len()
        return n if type(n) is int else cur().concretize(zint(n))

    def __bool__(self):
        return bool(self.dv_len() != 0)

    def at(self, j):
        return content_at(self.segs, j)

    def is_concrete(self):
        return all(isinstance(s, Con) for s in self.segs)

    def items(self):
        out = []
        for s in self.segs:
            if not isinstance(s, Con):
                raise Unsupported("abstract segment used concretely")
            out.extend(s.items)
        return out

    def __getitem__(self, key):
        n = self.dv_len()
        if isinstance(key, slice):
            a, b = clamp_slice(key, n)
            _, right = split(self.segs, a)
            mid, _ = split(right, b - a)
            return self._slice_result(mid)
        idx = self._index(key, n)
        return self._elem(idx)

    def _elem(self, idx):
        _, right = split(self.segs, idx)
        for s in right:
            n = s.length()
            if type(n) is not int and cur().branch(zint(n) <= 0):
                continue
            return s.at(0)
        raise IndexError("index out of range")

    def _slice_result(self, segs):
        return self._new(segs)

    def _index(self, key, n):
        if key < 0:
            key = key + n
            if key < 0:
                raise IndexError("index out of range")
        if key >= n:
            raise IndexError("index out of range")
        return key

    def __iter__(self):
        if self.is_concrete():
            return iter(self.items())
        from dv.loops import SIter
        return SIter(self.dv_len(), lambda k: self.at(k), label="seq")

    def __add__(self, o):
        return self._new(list(self.segs) + list(as_segs(o)))

    def __radd__(self, o):
        return self._new(list(as_segs(o)) + list(self.segs))

    def __eq__(self, o):
        if o is self:
            return True
        try:
            os = as_segs(o)
        except Unsupported:
            return False
        c = seq_eq_formula(self.segs, os)
        if isinstance(c, bool):
            return c
        if type(c) is str:
            return quantified_eq(self.segs, os)
        return sbool(c)

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.t)) if type(r) is SBool else not r

    def __contains__(self, x):
        raise Unsupported("'in' on symbolic sequence")

    def __hash__(self):
        raise Unsupported("hash of symbolic sequence")

    def __repr__(self):
        return "<symseq>"

    __str__ = __repr__


def as_segs(o):
    if isinstance(o, SSeq):
        return o.segs
    if isinstance(o, (bytes, bytearray, list, tuple)):
        return [Con(list(o))]
    raise Unsupported("not a sequence: %r" % type(o))


def seq_eq_formula(a, b):
    """Equality for sequences: formula, bool, or 'quant' when a fresh index / quantifier is needed."""
    a, b = norm(a), norm(b)
    na, nb = seg_total(a), seg_total(b)
    if type(na) is int and type(nb) is int:
        if na != nb:
            return False
        conj = []
        for i in range(na):
            conj.append(eq(content_at(a, i), content_at(b, i)))
        return And(*conj)
    return "quant"


def quantified_eq(a, b):
    """Symbolic-length comparison used as a branch: returns SBool of (len equal and forall i: equal)."""
    na, nb = seg_total(a), seg_total(b)
    d = na - nb
    leneq = (d == 0)
    if leneq is False:
        return False
    e = cur()
    i = z3.Int(e.fresh("qi"))
    li = LInt.atom(i)
    body = eq(content_at(a, li), content_at(b, li))
    rng = z3.And(i >= 0, i < zint(na))
    q = z3.ForAll([i], z3.Implies(rng, body if z3.is_expr(body) else z3.BoolVal(body)))
    # fork explicitly, giving the negative branch a witness
    if not e.branch(tobool(leneq) if not isinstance(leneq, bool) else z3.BoolVal(leneq)):
        return False
    b_ = z3.Bool(e.fresh("seqeq"))
    w = z3.Int(e.fresh("qw"))
    lw = LInt.atom(w)
    neq = z3.Not(tobool_expr(eq(content_at(a, lw), content_at(b, lw))))
    e.assume(z3.Implies(b_, q))
    e.assume(z3.Implies(z3.Not(b_), z3.And(w >= 0, w < zint(na), neq)))
    e.seq_eq_facts = getattr(e, "seq_eq_facts", [])
    e.seq_eq_facts.append((b_, a, b))
    return SBool(b_)


def tobool_expr(c):
    c = tobool(c)
    return z3.BoolVal(c) if isinstance(c, bool) else c


def prove_seq_eq(a, b, name):
    """Obligation: two sequences have equal length and equal elements at every index."""
    e = cur()
    a, b = norm(as_segs(a)), norm(as_segs(b))
    na, nb = seg_total(a), seg_total(b)
    e.prove(eq(na, nb), name + ".len")
    if type(na) is int:
        for i in range(na):
            e.prove(eq(content_at(a, i), content_at(b, i)), name + ".elem")
        return
    # strip identical leading segments
    j = z3.Int(e.fresh("idx"))
    lj = LInt.atom(j)
    for h in e.index_hooks:
        h(lj)
    rng = z3.And(j >= 0, j < zint(na))
    c = eq(content_at(a, lj), content_at(b, lj))
    e.prove(z3.Implies(rng, tobool_expr(c)), name + ".elem")


def seq_eq_provable(a, b):
    """Like prove_seq_eq but returns a bool (used for invariant candidates)."""
    e = cur()
    a, b = norm(as_segs(a)), norm(as_segs(b))
    na, nb = seg_total(a), seg_total(b)
    if not e.must(eq(na, nb)):
        return False
    if type(na) is int:
        return all(e.must(eq(content_at(a, i), content_at(b, i))) for i in range(na))
    j = z3.Int(e.fresh("idx"))
    lj = LInt.atom(j)
    try:
        c = eq(content_at(a, lj), content_at(b, lj))
    except Unsupported:
        return False
    return e.must(z3.Implies(z3.And(j >= 0, j < zint(na)), tobool_expr(c)))


class SBytes(SSeq):
    @property
    def __class__(self):
        return bytes

    def _check_byte(self, v):
        return v

    def decode(self, encoding="utf-8", errors="strict"):
        from dv.text import SDecoded, utf8_strict
        utf8_strict(encoding, errors)
        return SDecoded(self)


class SByteArray(SSeq):
    _mutable = True

    @property
    def __class__(self):
        return bytearray

    def _byte(self, v):
        if not isinstance(v, int):
            raise TypeError("an integer is required")
        if v < 0 or v > 255:
            raise ValueError("byte must be in range(0, 256)")
        return v

    def append(self, v):
        self.segs = norm(self.segs + [Con([self._byte(v)])])

    def extend(self, o):
        self.segs = norm(list(self.segs) + list(as_segs(o)))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def clear(self):
        self.segs = []

    def __setitem__(self, key, v):
        n = self.dv_len()
        if isinstance(key, slice):
            a, b = clamp_slice(key, n)
            left, right = split(self.segs, a)
            _, right = split(right, b - a)
            self.segs = norm(list(left) + list(as_segs(v)) + list(right))
            return
        idx = self._index(key, n)
        v = self._byte(v)
        left, right = split(self.segs, idx)
        _, right = split(right, 1)
        self.segs = norm(list(left) + [Con([v])] + list(right))

    def decode(self, encoding="utf-8", errors="strict"):
        from dv.text import SDecoded, utf8_strict
        utf8_strict(encoding, errors)
        return SDecoded(self)


class SList(SSeq):
    _mutable = True

    @property
    def __class__(self):
        return list

    def append(self, v):
        self.segs = norm(self.segs + [Con([v])])

    def extend(self, o):
        self.segs = norm(list(self.segs) + list(as_segs(o)))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def clear(self):
        self.segs = []

    def pop(self, i=-1):
        n = self.dv_len()
        idx = self._index(i, n)
        left, right = split(self.segs, idx)
        v, right = split(right, 1)
        self.segs = norm(list(left) + list(right))
        return v[0].at(0)

    def __setitem__(self, key, v):
        n = self.dv_len()
        idx = self._index(key, n)
        left, right = split(self.segs, idx)
        _, right = split(right, 1)
        self.segs = norm(list(left) + [Con([v])] + list(right))

    def copy(self):
        return SList(list(self.segs))


def byte_fn(name):
    """Abstract byte content: fresh uninterpreted function Int -> BV8 as element getter."""
    f = z3.Function(name, z3.IntSort(), z3.BitVecSort(8))

    def get(i):
        return from_ubits(f(zint(i)))
    get.f = f
    return get
