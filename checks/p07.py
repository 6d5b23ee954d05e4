"""P07  equality and hash code of bit buffers of the Python runtime."""
import z3
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns
from dv.rope import SBytes, SByteArray, byte_fn

FUNCTIONS = ["BitBuffer.__init__", "BitBuffer.__eq__", "BitBuffer.__hash__", "BitBuffer._masked_last_byte (inlined)", "BitBuffer.buffer", "BitBuffer.bitsize"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers, ropes and loop cutting", "z3"]
ASSUMPTIONS = ["bit sizes are non-negative"]
NOTE = "buffers of any length, any bit size; equality via quantified byte contents, hash via a loop invariant over a ghost polynomial"


def buffer(e, nm, r, bitsize_q):
    """BitBuffer over arbitrary bytes with bit size 8*q + r."""
    get = byte_fn("data_" + nm)
    nbytes = e.int("nbytes_" + nm, 0)
    bs = bitsize_q * 8 + r
    e.assume(bs <= nbytes * 8)
    seq = (SBytes if e.choose(2) else SByteArray).abstract(get, nbytes)
    _, b = guard(e, lambda: ns().bitbuffer.BitBuffer(seq, bs), "BitBuffer()")
    return b, get.f, seq, bs


def same_bits(fa, fb, q, r):
    """Spec: the first 8q + r bits agree."""
    j = z3.Int("spec!j")
    qz = zint(q)
    c = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < qz), fa(j) == fb(j)), patterns=[fa(j), fb(j)]) if not (type(q) is int and q == 0) else z3.BoolVal(True)
    if r:
        c = z3.And(c, z3.Extract(7, 8 - r, fa(qz)) == z3.Extract(7, 8 - r, fb(qz)))
    return c


def eq_same_size(r):
    def fn(e):
        q = e.int("q", 0)
        a, fa, _, bs = buffer(e, "a", r, q)
        b, fb, _, _ = buffer(e, "b", r, q)
        _, res = guard(e, lambda: a == b, "__eq__")
        if res:
            j = e.int("j", 0)
            e.prove(Implies(j < q, fa(zint(j)) == fb(zint(j))), "__eq__.true-only-when-used-bytes-agree")
            if r:
                e.prove(z3.Extract(7, 8 - r, fa(zint(q))) == z3.Extract(7, 8 - r, fb(zint(q))), "__eq__.true-only-when-last-bits-agree")
        else:
            e.prove(z3.Not(same_bits(fa, fb, q, r)), "__eq__.false-only-when-bits-differ")
        e.reach("end")
    return fn


def eq_other(e):
    k = e.choose(2)
    q = e.int("q", 0)
    a, fa, _, bs = buffer(e, "a", e.choose(8), q)
    if k == 0:
        q2 = e.int("q2", 0)
        b, fb, _, bs2 = buffer(e, "b", e.choose(8), q2)
        e.assume(Not(eq(bs, bs2)))
        _, res = guard(e, lambda: a == b, "__eq__")
        e.prove(eq(res, False), "__eq__.different-size")
    else:
        _, res = guard(e, lambda: a == object(), "__eq__")
        e.prove(eq(res, False), "__eq__.other-type")
    e.reach("end")


def hash_case(r):
    def fn(e):
        q = e.int("q", 0)
        a, fa, _, bs = buffer(e, "a", r, q)
        H = z3.Function("H", z3.IntSort(), z3.BitVecSort(32))

        def step(h, b):
            return z3.BitVecVal(37, 32) * h + z3.ZeroExt(24, b)

        def hook(k):
            kz = zint(k)
            e.assume(H(z3.IntVal(0)) == 23)
            e.assume(z3.simplify(H(kz + 1)) == step(H(kz), fa(kz)))
            if type(k) is not int:
                e.assume(z3.Implies(kz >= 1, H(kz) == step(z3.simplify(H(kz - 1)), fa(z3.simplify(kz - 1)))))
        e.index_hooks.append(hook)
        e.shapes.append(lambda k: from_ubits(z3.simplify(H(zint(k)))))
        hook(0)
        hook(q)
        _, res = guard(e, lambda: type(a).__hash__(a), "__hash__")
        if r:
            last = fa(zint(q)) & z3.BitVecVal((0xff << (8 - r)) & 0xff, 8)
            want = step(H(zint(q)), last)
        else:
            want = H(zint(q))
        e.prove(And(res >= 0, res <= 0xffffffff), "__hash__.32-bit")
        e.prove(ubits(res, 32) == want, "__hash__.polynomial-over-used-bits")
        e.reach("end")
    return fn


def construct(e):
    get = byte_fn("data")
    nbytes = e.int("nbytes", 0)
    seq = SBytes.abstract(get, nbytes)
    BB = ns().bitbuffer.BitBuffer
    if e.choose(2):
        bs = e.int("bitsize", 0)
        raised, b = guard(e, lambda: BB(seq, bs), "BitBuffer()", PRE())
        e.prove(Or(Not(raised), bs > nbytes * 8), "BitBuffer().rejects-only-oversize")
        if raised:
            e.reach("end")
            return
        e.prove(bs <= nbytes * 8, "BitBuffer().oversize-rejected")
    else:
        bs = nbytes * 8
        _, b = guard(e, lambda: BB(seq), "BitBuffer()")
    e.prove(eq(b.bitsize, bs), "BitBuffer.bitsize")
    prove_seq_eq(b.buffer, seq, "BitBuffer.buffer")
    e.reach("end")


def prepare():
    ns()


def cases(tier):
    return [Case("eq-%d" % r, eq_same_size(r)) for r in range(8)] + [Case("hash-%d" % r, hash_case(r)) for r in range(8)] + \
        [Case("eq-other", eq_other), Case("construct", construct)]


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.bitbuffers(seed, budget, hints)
