"""P01  fixed-width integer codec of the Python runtime."""
import z3
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns

FUNCTIONS = ["BitStreamWriter.write_bits", "BitStreamWriter.write_signed_bits", "BitStreamWriter.write_bits_unchecked",
             "BitStreamWriter.write_signed_bits_unchecked", "BitStreamWriter.write_bool", "BitStreamWriter._write_bits (inlined)",
             "BitStreamReader.read_bits", "BitStreamReader.read_signed_bits", "BitStreamReader.read_bits_unchecked",
             "BitStreamReader.read_signed_bits_unchecked", "BitStreamReader.read_bool"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers and ropes", "z3"]
ASSUMPTIONS = ["numbits is a Python int; in the unchecked entry points it is 1..64 as their documentation demands"]


def write_case(n):
    def fn(e):
        r = e.choose(8)
        kind = e.choose(4)
        ws = WriterState(e, r)
        w = ws.w
        signed = kind in (1, 3)
        m = [w.write_bits, w.write_signed_bits, w.write_bits_unchecked, w.write_signed_bits_unchecked][kind]
        nm = m.__name__
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if e.choose(2) == 0:
            v = e.bv("value", lo, hi)
            guard(e, lambda: m(v, n), nm)
            ws.expect(ubits(v, n), nm)
        else:
            v = e.int("value")
            e.assume(Or(v < lo, v > hi))
            raised, _ = guard(e, lambda: m(v, n), nm, PRE())
            e.prove(raised, nm + ".out-of-range-rejected")
            ws.check_unchanged(nm + ".rejected")
        e.reach("end")
    return fn


def read_case(n):
    def fn(e):
        r = e.choose(8)
        kind = e.choose(4)
        if n == 0 and kind < 2:
            raise PathEnd()
        rs = ReaderState(e, r)
        rd = rs.rd
        m = [rd.read_bits, rd.read_signed_bits, rd.read_bits_unchecked, rd.read_signed_bits_unchecked][kind]
        nm = m.__name__
        raised, v = guard(e, lambda: m(n), nm, PRE())
        if raised:
            e.prove(Not(rs.inside(n)), nm + ".rejects-only-past-end")
            e.prove(eq(rd.bitposition, rs.pos0), nm + ".position-unchanged-on-reject")
        else:
            e.prove(rs.inside(n), nm + ".stays-inside")
            e.prove(eq(rd.bitposition, rs.pos0 + n), nm + ".position")
            b = rs.bits(n)
            want = 0 if b is None else (from_sbits(b) if kind in (1, 3) else from_ubits(b))
            e.prove(eq(v, want), nm + ".value")
        e.reach("end")
    return fn


def bad_width(e):
    r = e.choose(8)
    k = e.choose(4)
    n = e.int("numbits")
    e.assume(Or(n < 1, n > 64))
    if k < 2:
        ws = WriterState(e, r)
        m = [ws.w.write_bits, ws.w.write_signed_bits][k]
        v = e.int("value")
        raised, _ = guard(e, lambda: m(v, n), m.__name__, PRE())
        e.prove(raised, m.__name__ + ".bad-width-rejected")
        ws.check_unchanged(m.__name__ + ".bad-width")
    else:
        rs = ReaderState(e, r)
        m = [rs.rd.read_bits, rs.rd.read_signed_bits][k - 2]
        raised, _ = guard(e, lambda: m(n), m.__name__, PRE())
        e.prove(raised, m.__name__ + ".bad-width-rejected")
        e.prove(eq(rs.rd.bitposition, rs.pos0), m.__name__ + ".bad-width-position")
    e.reach("end")


def bools(e):
    r = e.choose(8)
    if e.choose(2):
        ws = WriterState(e, r)
        b = e.bool("value")
        guard(e, lambda: ws.w.write_bool(b), "write_bool")
        ws.expect(z3.If(tobool(b), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), "write_bool")
    else:
        rs = ReaderState(e, r)
        raised, v = guard(e, lambda: rs.rd.read_bool(), "read_bool", PRE())
        if raised:
            e.prove(Not(rs.inside(1)), "read_bool.rejects-only-past-end")
        else:
            e.prove(rs.inside(1), "read_bool.stays-inside")
            e.prove(eq(v, sbool(rs.bits(1) == 1)), "read_bool.value")
            e.prove(eq(rs.rd.bitposition, rs.pos0 + 1), "read_bool.position")
    e.reach("end")


def fresh_writer(e):
    """The constructor establishes the representation invariant (empty stream)."""
    w = ns().bitwriter.BitStreamWriter()
    e.prove(eq(w.bitposition, 0), "new writer.position")
    e.prove(len(w.byte_array) == 0, "new writer.empty")
    e.reach("end")


def prepare():
    ns()


def cases(tier):
    cs = []
    for n in range(1, 65):
        cs.append(Case("write%d" % n, write_case(n)))
    for n in range(0, 65):
        cs.append(Case("read%d" % n, read_case(n)))
    cs += [Case("bad-width", bad_width), Case("bool", bools), Case("new-writer", fresh_writer)]
    return cs


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.fixed_width(seed, budget, hints)
