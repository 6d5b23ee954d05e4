"""P06  alignment and bit/byte size helpers of the Python runtime."""
import z3
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns

FUNCTIONS = ["bitposition.alignto", "bitposition.bits_to_bytes", "bitposition.bytes_to_bits", "bitposition.bitsize_to_bytesize",
             "BitStreamReader.alignto", "BitStreamWriter.alignto (bounded)"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers and ropes", "z3"]
ASSUMPTIONS = ["positions and sizes are non-negative, alignments positive"]
BOUNDED = ["BitStreamWriter.alignto: alignments 1..64, 96, 128, 256 (every position); larger alignments not covered"]
NOTE = "helpers and reader for every alignment (unbounded integers); BitStreamWriter.alignto is a bounded stand-in for alignments 1..64, 96, 128, 256 at every position"


def divides(e, a, m, x):
    """Formula: m is a multiple of a (witness searched among the quotients by a that occurred)."""
    from dv.core import LInt
    x // a if type(x) is not int else None
    cands = [0, 1]
    for q, b in e.div_records:
        if b is a or eq(b, a) is True or (not isinstance(eq(b, a), bool) and e.must(eq(b, a))):
            cands += [q, q + 1, q - 1, -q, -q + 1]
    return Or(*[eq(m, k * a) for k in cands])


def alignto(e):
    a = e.int("alignment", 1)
    x = e.int("position", 0)
    _, m = guard(e, lambda: ns().bitposition.alignto(a, x), "alignto")
    e.prove(m >= x, "alignto.not-below")
    e.prove(m < x + a, "alignto.smallest")
    e.prove(divides(e, a, m, x), "alignto.multiple")
    e.reach("end")


def conversions(e):
    bp = ns().bitposition
    n = e.int("n", 0)
    k = e.choose(3)
    if k == 0:
        raised, b = guard(e, lambda: bp.bits_to_bytes(n), "bits_to_bytes", PRE())
        if raised:
            e.prove(n % 8 != 0, "bits_to_bytes.rejects-only-partial")
        else:
            e.prove(eq(b * 8, n), "bits_to_bytes.exact")
    elif k == 1:
        _, b = guard(e, lambda: bp.bytes_to_bits(n), "bytes_to_bits")
        e.prove(eq(b, n * 8), "bytes_to_bits.exact")
    else:
        _, b = guard(e, lambda: bp.bitsize_to_bytesize(n), "bitsize_to_bytesize")
        e.prove(And(b * 8 >= n, b * 8 < n + 8), "bitsize_to_bytesize.rounds-up")
    e.reach("end")


def reader_align(e):
    r = e.choose(8)
    rs = ReaderState(e, r)
    a = e.int("alignment", 1)
    raised, _ = guard(e, lambda: rs.rd.alignto(a), "reader.alignto", PRE())
    p = rs.rd.bitposition
    if raised:
        e.prove(eq(p, rs.pos0), "reader.alignto.position-unchanged-on-reject")
        # the smallest multiple not below lies beyond the stream
        q = rs.pos0 // a
        nxt = (q + 1) * a
        e.prove(And(Not(eq(q * a, rs.pos0)), nxt > rs.bitsize), "reader.alignto.rejects-only-past-end")
    else:
        e.prove(And(p >= rs.pos0, p < rs.pos0 + a), "reader.alignto.smallest")
        e.prove(divides(e, a, p, rs.pos0), "reader.alignto.multiple")
        e.prove(p <= rs.bitsize, "reader.alignto.inside")
    e.reach("end")


def writer_align(a):
    def fn(e):
        # every position: 8*(period*m + t) + r with the residue modulo the alignment fixed by t and r
        import math
        r = e.choose(8)
        period = a // math.gcd(a, 8)
        t = e.choose(period)
        ws = WriterState(e, r, q=e.int("m", 0) * period + t)
        guard(e, lambda: ws.w.alignto(a), "writer.alignto")
        d = ws.w.bitposition - ws.pos0
        n = e.concretize(zint(d)) if type(d) is not int else d
        e.prove(0 <= n < a, "writer.alignto.smallest")
        e.prove(eq(ws.w.bitposition % a, 0), "writer.alignto.multiple")
        ws.expect(z3.BitVecVal(0, n) if n else None, "writer.alignto.zero-bits")
        e.reach("end")
    return fn


def prepare():
    ns()


def cases(tier):
    cs = [Case("writer-align-%d" % a, writer_align(a)) for a in [256, 128, 96] + list(range(64, 0, -1))]
    return cs + [Case("alignto", alignto), Case("conversions", conversions), Case("reader-align", reader_align)]


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.alignment(seed, budget, hints)
