"""P11  bit-field bounds, limits and built-in operators of the Python runtime."""
import z3
from dv import spec
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns
from dv.text import SStr
from dv.rope import SBytes, byte_fn

FUNCTIONS = ["bitfield.bitfield_lowerbound", "bitfield.bitfield_upperbound", "bitfield.signed_bitfield_lowerbound",
             "bitfield.signed_bitfield_upperbound", "limits.* (constants)", "builtin.isset", "builtin.numbits", "builtin.lengthof_string"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers", "z3", "str.encode('utf-8')"]
ASSUMPTIONS = ["numbits: counts 0..2^64; isset: masks of up to 64 bits (zserio's own limits)"]
NOTE = "all lengths (unbounded integers), all counts to 2^64, all 64-bit masks, strings of any length"


def bounds(e):
    bf = ns().bitfield
    k = e.choose(4)
    f = [bf.bitfield_lowerbound, bf.bitfield_upperbound, bf.signed_bitfield_lowerbound, bf.signed_bitfield_upperbound][k]
    if e.choose(2):
        n = e.int("length")
        e.assume(Or(n < 1, n > 64))
        raised, _ = guard(e, lambda: f(n), f.__name__, PRE())
        e.prove(raised, f.__name__ + ".bad-length-rejected")
    else:
        n = 1 + e.choose(64)
        _, v = guard(e, lambda: f(n), f.__name__)
        want = [0, 2 ** n - 1, -2 ** (n - 1), 2 ** (n - 1) - 1][k]
        e.prove(eq(v, want), f.__name__ + ".exact")
    e.reach("end")


def limits(e):
    L, W = ns().limits, ns().bitwriter.BitStreamWriter
    for n in (8, 16, 32, 64):
        for nm, want in (("INT%d_MIN", -2 ** (n - 1)), ("INT%d_MAX", 2 ** (n - 1) - 1), ("UINT%d_MIN", 0), ("UINT%d_MAX", 2 ** n - 1)):
            e.prove(eq(getattr(L, nm % n), want), "limits." + nm % n)
        for signed, wr in ((True, "write_signed_bits"), (False, "write_bits")):
            p = "INT%d" % n if signed else "UINT%d" % n
            for v, ok in ((getattr(L, p + "_MIN"), True), (getattr(L, p + "_MAX"), True), (getattr(L, p + "_MIN") - 1, False), (getattr(L, p + "_MAX") + 1, False)):
                raised, _ = guard(e, lambda: getattr(W(), wr)(v, n), wr, PRE())
                e.prove(raised != ok, "limits.%s-is-encoder-range" % p)
    for name in spec.VAR:
        lo, hi = spec.var_range(name)
        p = name.upper()
        e.prove(eq(getattr(L, p + "_MIN"), lo), "limits.%s_MIN" % p)
        e.prove(eq(getattr(L, p + "_MAX"), hi), "limits.%s_MAX" % p)
        for v, ok in ((lo, True), (hi, True), (lo - 1, False), (hi + 1, False)):
            raised, _ = guard(e, lambda: getattr(W(), "write_" + name)(v), "write_" + name, PRE())
            e.prove(raised != ok, "limits.%s-is-encoder-range" % p)
    e.reach("end")


def numbits(e):
    f = ns().builtin.numbits
    k = e.choose(3)
    if k < 2:
        e.prove(eq(f(k), k), "numbits.%d" % k)
    else:
        n = e.bv("count", 2, 1 << 64)
        _, b = guard(e, lambda: f(n), "numbits")
        e.prove(And(b >= 1, b <= 64), "numbits.range")
        w = ubits(b, 66)
        one = z3.BitVecVal(1, 66)
        e.prove(z3.UGE(one << w, ubits(n, 66)), "numbits.enough")
        e.prove(z3.Or(w == 1, z3.ULT(one << (w - 1), ubits(n, 66))), "numbits.minimal")
    e.reach("end")


def isset(e):
    f = ns().builtin.isset
    v, m = e.bv("value", 0, 2 ** 64 - 1), e.bv("mask", 0, 2 ** 64 - 1)
    _, r = guard(e, lambda: f(v, m), "isset")
    e.prove(eq(r, sbool((ubits(v, 64) | ubits(m, 64)) == ubits(v, 64))), "isset.exact")
    e.reach("end")


def lengthof(e):
    n = e.int("utf8-length", 0)
    s = SStr(SBytes.abstract(byte_fn("cp"), e.int("code-points", 0)).segs, utf8=SBytes.abstract(byte_fn("utf8"), n))
    _, r = guard(e, lambda: ns().builtin.lengthof_string(s), "lengthof_string")
    e.prove(eq(r, n), "lengthof_string.utf8-bytes")
    e.reach("end")


def prepare():
    ns()


def cases(tier):
    return [Case("bounds", bounds), Case("limits", limits), Case("numbits", numbits), Case("isset", isset), Case("lengthof", lengthof)]


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.builtins_(seed, budget, hints)
