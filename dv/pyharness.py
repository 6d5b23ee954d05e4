"""Harness helpers for the Python runtime: arbitrary reader / writer states and bit-level spec terms."""
import z3
from dv.core import *
from dv.core import lift, ext
from dv.rope import SBytes, SByteArray, SList, SSeq, Abs, Con, norm, seg_total, split, byte_fn, as_segs, content_at, prove_seq_eq
from dv import pyload

_NS = None


def ns():
    global _NS
    if _NS is None:
        _NS = pyload.load(shims=True)
    return _NS


def PRE():
    return ns().exception.PythonRuntimeException


def field_by_type(obj, pred, what):
    c = [k for k, v in obj.__dict__.items() if pred(v)]
    if len(c) != 1:
        raise Unsupported("cannot identify the %s field of %s" % (what, type(obj).__name__))
    return c[0]


class WriterState:
    """A BitStreamWriter in an arbitrary reachable state: q whole bytes of arbitrary content, then r bits (r<8)
    in a last byte whose unused low bits are zero (the representation invariant)."""

    def __init__(self, e, r, cls=None, q=None):
        cls = cls or ns().bitwriter.BitStreamWriter
        self.e, self.r = e, r
        self.w = cls()
        self.fb = field_by_type(self.w, lambda v: type(v) in (bytearray, SByteArray), "buffer")
        self.fp = field_by_type(self.w, lambda v: type(v) is int, "position")
        self.q = e.int("q", 0) if q is None else q
        self.get = byte_fn("prefix")
        segs = [Abs(self.get, self.q, ("prefix", 0))]
        self.partial = None
        if r:
            self.partial = e.bv("partial", 0, 255)
            e.assume(z3.Extract(7 - r, 0, self.partial.t) == 0)
            segs.append(Con([self.partial]))
        self.w.__dict__[self.fb] = SByteArray(segs)
        self.pos0 = self.q * 8 + r
        self.w.__dict__[self.fp] = self.pos0

    def segs(self):
        return norm(as_segs(self.w.byte_array))

    def check_unchanged(self, name):
        e = self.e
        e.prove(eq(self.w.bitposition, self.pos0), name + ".position-unchanged")
        segs = [Abs(self.get, self.q)] + ([Con([self.partial])] if self.r else [])
        prove_seq_eq(self.w.byte_array, SBytes(segs), name + ".buffer-unchanged")

    def tail_bits(self, nbits_total, name):
        """Checks that the whole-byte prefix is untouched and returns the bit-vector of the bytes after it."""
        e = self.e
        segs = self.segs()
        n = seg_total(segs)
        nb = (nbits_total + 7) // 8
        e.prove(eq(n, self.q + nb), name + ".length")
        left, right = split(segs, self.q)
        prove_seq_eq(SBytes(left), SBytes([Abs(self.get, self.q)]), name + ".earlier-bytes")
        items = []
        for s in right:
            if isinstance(s, Con):
                items += s.items
            else:
                k = e.concretize(zint(s.length()))
                items += [s.at(i) for i in range(k)]
        e.prove(len(items) == nb, name + ".tail-length")
        if not items:
            return None
        parts = [ubits(x, 8) for x in items]
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)

    def expect(self, bits, name):
        """Postcondition: exactly the BV term `bits` (None = zero bits) was appended."""
        e = self.e
        n = bits.size() if bits is not None else 0
        e.prove(eq(self.w.bitposition, self.pos0 + n), name + ".position")
        tail = self.tail_bits(self.r + n, name)
        parts = []
        if self.r:
            parts.append(z3.Extract(7, 8 - self.r, ubits(self.partial, 8)))
        if bits is not None:
            parts.append(bits)
        pad = -(self.r + n) % 8
        if pad:
            parts.append(z3.BitVecVal(0, pad))
        if parts:
            want = parts[0] if len(parts) == 1 else z3.Concat(*parts)
            e.prove(tail == want, name + ".bits")


class ReaderState:
    """A BitStreamReader over arbitrary bytes, arbitrary bit size, at position 8*q + r."""

    def __init__(self, e, r, cls=None, need=None):
        cls = cls or ns().bitreader.BitStreamReader
        self.e, self.r = e, r
        self.get = byte_fn("data")
        self.nbytes = e.int("nbytes", 0)
        self.bitsize = e.int("bitsize", 0)
        e.assume(self.bitsize <= self.nbytes * 8)
        self.q = e.int("q", 0)
        self.pos0 = self.q * 8 + r
        e.assume(self.pos0 <= self.bitsize)
        self.buf = SBytes.abstract(self.get, self.nbytes)
        self.rd = cls(self.buf, self.bitsize)
        self.rd.bitposition = self.pos0

    def bits(self, n, off=0):
        """BV term: the n stream bits starting at position + off (off, n concrete)."""
        if n == 0:
            return None
        a = self.r + off
        first, last = a // 8, (a + n - 1) // 8
        parts = [ubits(self.get(self.q + i), 8) for i in range(first, last + 1)]
        t = parts[0] if len(parts) == 1 else z3.Concat(*parts)
        total = 8 * len(parts)
        hi = total - 1 - (a - 8 * first)
        return z3.Extract(hi, hi - n + 1, t)

    def inside(self, n):
        return self.pos0 + n <= self.bitsize


def raises(fn, exc):
    """Runs fn; returns (True, None) if it raised exc, else (False, result).  Other exceptions propagate."""
    try:
        return False, fn()
    except exc:
        return True, None


def guard(e, fn, name, exc=None):
    """Runs fn where no exception (other than exc) is allowed; returns (raised, result)."""
    try:
        return False, fn()
    except (Unsupported, PathEnd):
        raise
    except Exception as ex:
        if exc is not None and isinstance(ex, exc):
            return True, ex
        e.fail(name + ".unexpected-exception", "%s: %s" % (type(ex).__name__, ex))


def intval(x):
    """lift bool results etc."""
    return x
