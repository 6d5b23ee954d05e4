"""P04  bytes, strings and bit buffers of the Python runtime."""
import z3
from dv import spec
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns
from dv.pyload import patched
from dv.rope import SBytes, SByteArray, SList, Abs, Con, byte_fn, prove_seq_eq, as_segs, norm, seg_total
from dv.text import SStr, SDecoded

FUNCTIONS = ["BitStreamWriter.write_bytes", "BitStreamWriter.write_string", "BitStreamWriter.write_bitbuffer", "BitStreamReader.read_bytes",
             "BitStreamReader.read_string", "BitStreamReader.read_bitbuffer", "bitsizeof.bitsizeof_bytes", "bitsizeof.bitsizeof_string",
             "bitsizeof.bitsizeof_bitbuffer", "BitStreamWriter._write_bits, write_bits_unchecked, BitStreamReader.read_bits_unchecked (inlined)"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers, ropes and loop cutting", "z3",
           "str.encode('utf-8') and bytes.decode('utf-8') are inverse to each other"]
ASSUMPTIONS = ["callee contracts used here and proved by P02: write_varsize, read_varsize, bitsizeof_varsize"]
NOTE = "all lengths (loop invariants, no bound), contents, positions and truncation points; varsize codec by its contract (proved in P02)"
KINDS = ["bytes", "string", "bitbuffer"]


class Value:
    """A value of 8*m + t bits: abstract content c(0..m-1) and t rest bits, plus junk beyond (bit buffers only)."""

    def __init__(self, e, kind):
        self.kind = kind
        self.c = byte_fn("content")
        self.m = e.int("content-bytes", 0)
        self.t = e.choose(8) if kind == "bitbuffer" else 0
        self.n = self.m * 8 + self.t if kind == "bitbuffer" else self.m        # value of the length prefix
        self.nbits = self.m * 8 + self.t
        if kind == "bytes":
            self.v = SByteArray.abstract(self.c, self.m)
            self.segs0 = list(self.v.segs)
        elif kind == "string":
            self.v = SStr(SBytes.abstract(byte_fn("cp"), e.int("code-points", 0)).segs, utf8=SBytes.abstract(self.c, self.m))
        else:
            extra = e.int("extra-bytes", 0)
            if self.t:
                e.assume(extra >= 1)
            self.v = ns().bitbuffer.BitBuffer(SByteArray.abstract(self.c, self.m + extra), self.n)

    def byte(self, j, total=None):
        """Content byte j (zero beyond the content, unused bits zero), j symbolic."""
        m = self.m if total is None else total
        t = self.t if total is None else 0
        j_in = tobool(LInt.of(j) < m)
        cj = ubits(self.c(j), 8)
        rest = z3.BitVecVal(0, 8)
        if t:
            rest = z3.If(tobool_(eq(LInt.of(j), m)), cj & z3.BitVecVal((0xff << (8 - t)) & 0xff, 8), rest)
        return z3.If(tobool_(j_in), cj, rest)

    def stream_byte(self, r, partial, j, total=None):
        """Byte j of the stream after the whole-byte prefix: r old bits, then the content."""
        j = LInt.of(j)
        if r == 0:
            return from_ubits(self.byte(j, total))
        first = ubits(partial, 8)
        hi = z3.If(tobool_(eq(j, 0)), first, self.byte(j - 1, total) << (8 - r))
        return from_ubits(z3.simplify(hi | z3.LShR(self.byte(j, total), r)))

    def stream(self, get, q, r, partial, total=None):
        m = self.m if total is None else total
        t = self.t if total is None else 0
        return [Abs(get, q), Abs(lambda j: self.stream_byte(r, partial, j, total), m + (r + t + 7) // 8)]


def tobool_(c):
    c = tobool(c)
    return z3.BoolVal(c) if isinstance(c, bool) else c


def varsize_writer(e, ws, val, rejected):
    """Contract of write_varsize (P02): either rejects and changes nothing, or appends the encoding of its argument."""
    calls = []

    def stub(self, value):
        e.prove(self is ws.w, "write_varsize.receiver")
        e.prove(eq(value, val.n), "length-prefix.value")
        e.prove(len(calls) == 0, "length-prefix.once")
        ws.check_unchanged("length-prefix.written-first")
        calls.append(1)
        if rejected:
            raise PRE()("varsize out of range")
        # the state after the prefix: again an arbitrary state with the same bit offset
        ws.get2 = byte_fn("prefix2")
        ws.q2 = e.int("q2", 0)
        e.assume(And(ws.q2 >= ws.q + 1, ws.q2 <= ws.q + 5))
        ws.partial2 = None
        segs = [Abs(ws.get2, ws.q2, ("prefix2", 0))]
        if ws.r:
            ws.partial2 = e.bv("partial2", 0, 255)
            e.assume(z3.Extract(7 - ws.r, 0, ws.partial2.t) == 0)
            segs.append(Con([ws.partial2]))
        ws.w.__dict__[ws.fb].segs = norm(segs)
        ws.w.__dict__[ws.fp] = ws.q2 * 8 + ws.r
        e.seq_shapes.append(lambda k: val.stream(ws.get2, ws.q2, ws.r, ws.partial2, total=k))
    return stub, calls


def write_case(kind, r):
    def fn(e):
        rejected = bool(e.choose(2))
        val = Value(e, kind)
        ws = WriterState(e, r)
        stub, calls = varsize_writer(e, ws, val, rejected)
        nm = "write_" + kind
        with patched(ns(), {"bitwriter:BitStreamWriter.write_varsize": stub}):
            raised, _ = guard(e, lambda: getattr(ws.w, nm)(val.v), nm, PRE())
        e.prove(len(calls) == 1, nm + ".length-prefix-written")
        if rejected:
            e.prove(raised, nm + ".too-long-rejected")
            ws.check_unchanged(nm + ".rejected")
        else:
            e.prove(not raised, nm + ".no-exception")
            e.prove(eq(ws.w.bitposition, ws.q2 * 8 + r + val.nbits), nm + ".position")
            prove_seq_eq(ws.w.byte_array, SBytes(val.stream(ws.get2, ws.q2, r, ws.partial2)), nm + ".bits")
        e.reach("end")
    return fn


def size_case(kind):
    def fn(e):
        val = Value(e, kind)
        vs = e.int("size-of-length-prefix", 8, 40)
        rejected = bool(e.choose(2))

        def stub(value):
            e.prove(eq(value, val.n), "bitsizeof_varsize.argument")
            if rejected:
                raise PRE()("out of range")
            return vs
        nm = "bitsizeof_" + kind
        with patched(ns(), {"bitsizeof:bitsizeof_varsize": stub}):
            raised, n = guard(e, lambda: getattr(ns().bitsizeof, nm)(val.v), nm, PRE())
        if rejected:
            e.prove(raised, nm + ".too-long-rejected")
        else:
            e.prove(not raised, nm + ".no-exception")
            e.prove(eq(n, vs + val.nbits), nm + ".exact")
        e.reach("end")
    return fn


def read_case(kind, r):
    def fn(e):
        t = e.choose(8) if kind == "bitbuffer" else 0
        rs = ReaderState(e, r)
        m = e.int("content-bytes", 0)
        n = m * 8 + t if kind == "bitbuffer" else m
        e.assume(n <= spec.VARSIZE_MAX)
        rejected = bool(e.choose(2))
        q2 = e.int("q2", 0)
        e.assume(And(q2 >= rs.q + 1, q2 * 8 + r <= rs.bitsize))
        pos2 = q2 * 8 + r
        calls = []

        def stub(self):
            """Contract of read_varsize (P02): rejects, or returns the prefix and moves past it."""
            e.prove(self is rs.rd and eq(self.bitposition, rs.pos0) is True and not calls, "read_varsize.first")
            calls.append(1)
            if rejected:
                raise PRE()("bad varsize")
            self.bitposition = pos2
            return n
        nm = "read_" + kind
        with patched(ns(), {"bitreader:BitStreamReader.read_varsize": stub}):
            raised, v = guard(e, lambda: getattr(rs.rd, nm)(), nm, PRE())
        e.prove(len(calls) == 1, nm + ".length-prefix-read")
        end = pos2 + m * 8 + t
        if rejected:
            e.prove(raised, nm + ".bad-length-rejected")
        elif raised:
            e.prove(end > rs.bitsize, nm + ".rejects-only-past-end")
            e.prove(And(rs.rd.bitposition >= rs.pos0, rs.rd.bitposition <= rs.bitsize), nm + ".position-in-stream")
        else:
            e.prove(end <= rs.bitsize, nm + ".past-end-rejected")
            e.prove(eq(rs.rd.bitposition, end), nm + ".position")

            def want(j):
                a = ubits(rs.get(q2 + j), 8)
                if r:
                    a = (a << r) | z3.LShR(ubits(rs.get(q2 + j + 1), 8), 8 - r)
                return from_ubits(z3.simplify(a))
            if kind == "bytes":
                e.prove(type(v) is SByteArray, nm + ".type")
                prove_seq_eq(v, SBytes([Abs(want, m)]), nm + ".content")
            elif kind == "string":
                e.prove(type(v) is SDecoded, nm + ".type")
                prove_seq_eq(v.data, SBytes([Abs(want, m)]), nm + ".content")
            else:
                e.prove(type(v) is ns().bitbuffer.BitBuffer, nm + ".type")
                e.prove(eq(v.bitsize, n), nm + ".bitsize")
                buf = SBytes(as_segs(v.buffer))
                e.prove(buf.dv_len() >= m + (1 if t else 0), nm + ".buffer-size")
                prove_seq_eq(buf[0:m], SBytes([Abs(want, m)]), nm + ".content")
                if t:
                    last = ubits(buf.at(m), 8)
                    a = ubits(rs.get(q2 + m), 8) << r if r else ubits(rs.get(q2 + m), 8)
                    if r + t > 8:
                        a = a | z3.LShR(ubits(rs.get(q2 + m + 1), 8), 8 - r)
                    e.prove(z3.LShR(last, 8 - t) == z3.LShR(a, 8 - t), nm + ".rest-bits")
        e.reach("end")
    return fn


def lemma(e):
    """Reading the layout the writer contract promises gives the content back (any bit offset)."""
    r = e.choose(8)
    val = Value(e, "bitbuffer")
    partial = e.bv("partial", 0, 255)
    e.assume(z3.Extract(7 - r, 0, partial.t) == 0 if r else True)
    j = e.int("j", 0)
    e.assume(j * 8 < val.nbits)
    a = ubits(val.stream_byte(r, partial, j), 8)
    if r:
        b = ubits(val.stream_byte(r, partial, j + 1), 8)
        a = (a << r) | z3.LShR(b, 8 - r)
    e.prove(z3.simplify(a) == val.byte(j), "lemma.read-inverts-write")
    e.reach("end")


def prepare():
    ns()


def cases(tier):
    cs = [Case("lemma", lemma)]
    for k in KINDS:
        cs.append(Case("size-" + k, size_case(k)))
        for r in range(8):
            cs += [Case("write-%s@%d" % (k, r), write_case(k, r)), Case("read-%s@%d" % (k, r), read_case(k, r))]
    return cs


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.blobs(seed, budget, hints)
