"""Exact integers of unlimited size (z3 Int) with the operations of java.math.BigInteger; the results of division, bitwise
operators, shifts by unknown counts and bitLength are described by true facts about them (each used in every comparison)."""
import z3
from dv import core
from dv.core import Unsupported
from dv.jvm import XInt

I = z3.IntSort()


def zi(x):
    if isinstance(x, ZI):
        return x.t
    if isinstance(x, XInt):
        return zi(x.v)
    if type(x) is core.LInt:
        return x.z()
    if type(x) is int:
        return z3.IntVal(x)
    if z3.is_int(x):
        return x
    raise Unsupported("exact integer mixed with %r" % (type(x),))


class Facts:
    """terms for which facts were stated on this path"""

    def __init__(self, e):
        self.e, self.n, self.seen = e, 0, {}
        self.pows, self.bls = [], []

    def fresh(self, s):
        self.n += 1
        return z3.Int("%s!%d" % (s, self.n))


def facts():
    e = core.cur()
    f = e.assert_cache.get("exact-facts")
    if f is None:
        f = e.assert_cache["exact-facts"] = Facts(e)
    return f


def key(op, *ts):
    return (op,) + tuple(t.get_id() for t in ts)


_KEEP = []


def cached(op, ts, make):
    f = facts()
    ts = [z3.simplify(t) for t in ts]
    _KEEP.extend(ts)
    k = key(op, *ts)
    if k not in f.seen:
        f.seen[k] = make(f, *ts)
    return f.seen[k]


def pow2(n):
    """2 to the power of n (n >= 0; otherwise unspecified)"""
    def make(f, n):
        if z3.is_int_value(n) and 0 <= n.as_long() <= 4096:
            p = z3.IntVal(1 << n.as_long())
        else:
            p = f.fresh("pow2")
        e = f.e
        e.assume(z3.Implies(n >= 0, z3.And(p >= 1, p >= n + 1)))
        e.assume(z3.Implies(n == 0, p == 1))
        e.assume(z3.Implies(n >= 1, p >= 2))
        for m, q in f.pows:
            e.assume(z3.Implies(z3.And(m >= 0, m <= n), q <= p))
            e.assume(z3.Implies(z3.And(n >= 0, n <= m), p <= q))
            e.assume(z3.Implies(z3.And(m >= 0, m < n), 2 * q <= p))
            e.assume(z3.Implies(z3.And(n >= 0, n < m), 2 * p <= q))
            e.assume(z3.And(z3.Implies(z3.And(m >= 0, n == m + 1), p == 2 * q), z3.Implies(z3.And(n >= 0, m == n + 1), q == 2 * p)))
        f.pows.append((n, p))
        return p
    return cached("pow2", [zi(n)], make)


def mul(a, b):
    """product; z3's nonlinear term, with its sign and monotonicity in each factor among the products seen"""
    def make(f, a, b):
        e = f.e
        lin = z3.is_int_value(a) or z3.is_int_value(b)
        p = z3.simplify(a * b) if lin else f.fresh("mul")
        e.assume(z3.And(z3.Implies(z3.Or(a == 0, b == 0), p == 0), z3.Implies(z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0)), p >= 1),
                        z3.Implies(z3.Or(z3.And(a > 0, b < 0), z3.And(a < 0, b > 0)), p <= -1)))
        e.assume(z3.And(z3.Implies(a == 1, p == b), z3.Implies(b == 1, p == a), z3.Implies(a == -1, p == -b), z3.Implies(b == -1, p == -a)))
        ms = f.seen.setdefault("products", [])
        for x, y, q in list(ms):
            for (s, t), (u, w) in (((a, b), (x, y)), ((a, b), (y, x)), ((b, a), (x, y)), ((b, a), (y, x))):
                if s.eq(u):
                    # s*t and s*w
                    e.assume(z3.And(z3.Implies(z3.And(s >= 0, t <= w), p <= q), z3.Implies(z3.And(s >= 0, t >= w), p >= q),
                                    z3.Implies(z3.And(s <= 0, t <= w), p >= q), z3.Implies(z3.And(s <= 0, t >= w), p <= q)))
                    e.assume(z3.Implies(t == w, p == q))
                    e.assume(z3.Implies(t == -w, p == -q))
                    e.assume(z3.And(z3.Implies(t == w + 1, p == q + s), z3.Implies(t == w - 1, p == q - s)))
        ms.append((a, b, p))
        return p
    a, b = z3.simplify(zi(a)), z3.simplify(zi(b))
    if a.get_id() > b.get_id():
        a, b = b, a
    return cached("mul", [a, b], make)


def divmod_trunc(a, b):
    """quotient and remainder of the division rounded towards zero; b is not zero"""
    def make(f, a, b):
        e = f.e
        q, r = f.fresh("quot"), f.fresh("rem")
        e.assume(z3.Implies(b != 0, z3.And(a == mul(q, b) + r, z3.If(r >= 0, r, -r) < z3.If(b >= 0, b, -b),
                                           z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0))))
        # consequences: sign and size of the quotient
        pos = z3.Or(z3.And(a >= 0, b > 0), z3.And(a <= 0, b < 0))
        e.assume(z3.Implies(b != 0, z3.And(z3.Implies(pos, q >= 0), z3.Implies(z3.Not(pos), q <= 0),
                                           z3.If(q >= 0, q, -q) <= z3.If(a >= 0, a, -a), z3.Implies(b == 1, q == a), z3.Implies(b == -1, q == -a))))
        # monotone in the dividend for one divisor, and in the divisor (of one sign) for one dividend
        for x, y, s in f.seen.setdefault("quotients", []):
            same_b, same_a = y.eq(b), x.eq(a)
            if same_b:
                e.assume(z3.And(z3.Implies(z3.And(b > 0, a <= x), q <= s), z3.Implies(z3.And(b > 0, a >= x), q >= s),
                                z3.Implies(z3.And(b < 0, a <= x), q >= s), z3.Implies(z3.And(b < 0, a >= x), q <= s)))
            if same_a:
                one = z3.Or(z3.And(b > 0, y > 0), z3.And(b < 0, y < 0))
                e.assume(z3.Implies(z3.And(one, b <= y), z3.And(z3.Implies(a >= 0, q >= s), z3.Implies(a <= 0, q <= s))))
                e.assume(z3.Implies(z3.And(one, b >= y), z3.And(z3.Implies(a >= 0, q <= s), z3.Implies(a <= 0, q >= s))))
        f.seen["quotients"].append((a, b, q))
        return q, r
    return cached("div", [zi(a), zi(b)], make)


def floor_shift(a, n):
    """floor(a / 2^n), n >= 0"""
    def make(f, a, n):
        e = f.e
        p, q, r = pow2(n), f.fresh("shr"), f.fresh("low")
        e.assume(z3.Implies(n >= 0, z3.And(a == mul(q, p) + r, r >= 0, r < p)))
        e.assume(z3.Implies(n >= 0, z3.And(z3.Implies(a >= 0, z3.And(q >= 0, q <= a)), z3.Implies(a < 0, z3.And(q < 0, q >= a)))))
        for x, m, s in f.seen.setdefault("shifts", []):
            if m.eq(n):
                e.assume(z3.Implies(n >= 0, z3.And(z3.Implies(a <= x, q <= s), z3.Implies(a >= x, q >= s))))
            if x.eq(a):
                e.assume(z3.Implies(z3.And(m >= 0, m <= n), z3.And(z3.Implies(a >= 0, q <= s), z3.Implies(a <= 0, q >= s))))
                e.assume(z3.Implies(z3.And(n >= 0, n <= m), z3.And(z3.Implies(a >= 0, q >= s), z3.Implies(a <= 0, q <= s))))
        f.seen["shifts"].append((a, n, q))
        return q
    return cached("shr", [zi(a), zi(n)], make)


def bit_and(a, b):
    def make(f, a, b):
        e = f.e
        if z3.is_int_value(a) and z3.is_int_value(b):
            return z3.IntVal(a.as_long() & b.as_long())
        r = f.fresh("and")
        e.assume(z3.And(z3.Implies(a >= 0, z3.And(r >= 0, r <= a)), z3.Implies(b >= 0, z3.And(r >= 0, r <= b)),
                        z3.Implies(z3.And(a < 0, b < 0), z3.And(r < 0, r <= a, r <= b, r >= a + b)), z3.Implies(a == b, r == a),
                        z3.Implies(a == -1, r == b), z3.Implies(b == -1, r == a)))
        return r
    a, b = z3.simplify(zi(a)), z3.simplify(zi(b))
    if a.get_id() > b.get_id():
        a, b = b, a
    return cached("and", [a, b], make)


def bit_length(a):
    """of a non-negative integer"""
    def make(f, a):
        e = f.e
        n = f.fresh("bitlen")
        e.assume(z3.And(n >= 0, z3.Implies(a <= 0, n == 0), z3.Implies(a >= 1, n >= 1), z3.Implies(a == 1, n == 1), z3.Implies(a >= 2, n >= 2),
                        z3.Implies(a >= 0, n <= a)))
        for x, m in f.bls:
            e.assume(z3.And(z3.Implies(x <= a, m <= n), z3.Implies(a <= x, n <= m)))
        f.bls.append((a, n))
        return n
    return cached("bl", [zi(a)], make)


def linked(kind, op, a, n):
    """op(a, n), and op for every base and count seen so far: the facts between them connect any two of them"""
    f = facts()
    a, n = z3.simplify(zi(a)), z3.simplify(zi(n))
    seen = f.seen.setdefault(("linked", kind), ([], []))
    for l, t in zip(seen, (a, n)):
        if not any(t.eq(o) for o in l):
            l.append(t)
    for x in list(seen[0]):
        for m in list(seen[1]):
            op(x, m)
    return op(a, n)


def shl(a, n):
    return linked("shl", lambda x, m: mul(x, pow2(m)), a, n)


def shr(a, n):
    return linked("shr", floor_shift, a, n)


class ZI:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = z3.simplify(t) if z3.is_expr(t) else z3.IntVal(t)

    def of(self, x):
        return ZI(zi(x))

    def __add__(self, o):
        return ZI(self.t + zi(o))
    __radd__ = __add__

    def __sub__(self, o):
        return ZI(self.t - zi(o))

    def __rsub__(self, o):
        return ZI(zi(o) - self.t)

    def __neg__(self):
        return ZI(-self.t)

    def __invert__(self):
        return ZI(-self.t - 1)

    def __abs__(self):
        return ZI(z3.If(self.t >= 0, self.t, -self.t))

    def __mul__(self, o):
        return ZI(mul(self.t, zi(o)))
    __rmul__ = __mul__

    def trunc_div(self, o):
        return ZI(divmod_trunc(self.t, zi(o))[0])

    def trunc_rem(self, o):
        return ZI(divmod_trunc(self.t, zi(o))[1])

    def __and__(self, o):
        return ZI(bit_and(self.t, zi(o)))
    __rand__ = __and__

    def __or__(self, o):
        # a | b = ~(~a & ~b)
        return ~ZI(bit_and(-self.t - 1, -zi(o) - 1))
    __ror__ = __or__

    def __xor__(self, o):
        b = zi(o)
        return ZI(self.t + b - 2 * bit_and(self.t, b))
    __rxor__ = __xor__

    def shift_left(self, n):
        e = core.cur()
        n = zi(n)
        if e.branch(n >= 0):
            if not e.branch(n <= 1 << 20):
                raise Unsupported("BigInteger shifted left by more than a million bits (it may overflow its range)")
            return ZI(shl(self.t, n))
        return ZI(shr(self.t, -n))

    def shift_right(self, n):
        e = core.cur()
        n = zi(n)
        if e.branch(n >= 0):
            return ZI(shr(self.t, n))
        if not e.branch(-n <= 1 << 20):
            raise Unsupported("BigInteger shifted left by more than a million bits (it may overflow its range)")
        return ZI(shl(self.t, -n))

    def __lshift__(self, n):
        return self.shift_left(n)

    def __rshift__(self, n):
        return self.shift_right(n)

    def java_bit_length(self):
        return XInt(ZI(bit_length(z3.If(self.t >= 0, self.t, -self.t - 1))), 32)

    def low_bits(self, w):
        """intValue / longValue"""
        h = 1 << (w - 1)
        return XInt(ZI(z3.If(z3.And(self.t >= -h, self.t < h), self.t, (self.t + h) % (2 * h) - h)), w)

    def __eq__(self, o):
        return self.t == zi(o)

    def __ne__(self, o):
        return self.t != zi(o)

    def __lt__(self, o):
        return self.t < zi(o)

    def __le__(self, o):
        return self.t <= zi(o)

    def __gt__(self, o):
        return self.t > zi(o)

    def __ge__(self, o):
        return self.t >= zi(o)

    __hash__ = object.__hash__
