"""P05  the Python stream reader never reads or moves beyond its data."""
import z3
from dv import spec
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns
from dv.pyload import patched
from dv.rope import SBytes, SByteArray, Abs, byte_fn
from dv.text import SDecoded

FUNCTIONS = ["BitStreamReader.__init__", "BitStreamReader.from_bitbuffer", "BitStreamReader.from_file", "BitStreamReader.bitposition (setter)",
             "BitStreamReader.alignto", "BitStreamReader.buffer_bitsize", "BitStreamReader.read_bits", "BitStreamReader.read_signed_bits",
             "BitStreamReader.read_bits_unchecked", "BitStreamReader.read_signed_bits_unchecked"] + \
    ["BitStreamReader.read_" + t for t in spec.VAR] + ["BitStreamReader.read_" + t for t in ("float16", "float32", "float64", "bool", "bytes", "string", "bitbuffer")]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers, ropes and loop cutting", "z3",
           "bytes.decode('utf-8') either gives text or raises UnicodeDecodeError", "open().read() gives the bytes of the file"]
ASSUMPTIONS = ["declared bit sizes are non-negative; numbits of the unchecked entry points is 0..64",
               "the class invariant (0 <= position <= bit size <= 8 * bytes) is established by the constructor and preserved by each operation, so it holds after any history"]
NOTE = "class invariant of the reader, proved for the constructor and for every operation from every state; no bound"


def inv(e, rs, nm):
    """The class invariant after an operation; the data and the size are untouched."""
    e.prove(And(rs.rd.bitposition >= 0, rs.rd.bitposition <= rs.bitsize), nm + ".position-in-stream")
    e.prove(eq(rs.rd.buffer_bitsize, rs.bitsize), nm + ".bit-size-unchanged")
    e.prove(any(v is rs.buf for v in rs.rd.__dict__.values()), nm + ".data-unchanged")


def fixed_case(n):
    def fn(e):
        r = e.choose(8)
        k = e.choose(4)
        if n == 0 and k < 2:
            raise PathEnd()
        rs = ReaderState(e, r)
        m = [rs.rd.read_bits, rs.rd.read_signed_bits, rs.rd.read_bits_unchecked, rs.rd.read_signed_bits_unchecked][k]
        raised, _ = guard(e, lambda: m(n), m.__name__, PRE())
        check_fixed(e, rs, raised, n, m.__name__)
    return fn


def check_fixed(e, rs, raised, n, nm):
    inv(e, rs, nm)
    if raised:
        e.prove(Not(rs.inside(n)), nm + ".rejects-only-past-end")
        e.prove(eq(rs.rd.bitposition, rs.pos0), nm + ".position-unchanged-on-reject")
    else:
        e.prove(rs.inside(n), nm + ".past-end-rejected")
        e.prove(eq(rs.rd.bitposition, rs.pos0 + n), nm + ".consumes-exactly")
    e.reach("end")


def simple(e):
    r = e.choose(8)
    k = e.choose(4)
    nm, n = [("read_bool", 1), ("read_float16", 16), ("read_float32", 32), ("read_float64", 64)][k]
    rs = ReaderState(e, r)
    rep = {"bitreader:uint16_to_float": lambda v: ("f16", v)} if k == 1 else {}
    with patched(ns(), rep):
        raised, _ = guard(e, lambda: getattr(rs.rd, nm)(), nm, PRE())
    check_fixed(e, rs, raised, n, nm)


def var_case(name):
    def fn(e):
        r = e.choose(8)
        rs = ReaderState(e, r)
        nm = "read_" + name
        raised, v = guard(e, lambda: getattr(rs.rd, nm)(), nm, PRE())
        inv(e, rs, nm)
        e.prove(rs.rd.bitposition >= rs.pos0, nm + ".moves-forward")
        n = spec.VAR[name][1]
        if not raised:
            # exactly the bytes of the encoding, as told by its continuation bits, were consumed
            d = rs.rd.bitposition - rs.pos0
            d = int(d)
            e.prove(d % 8 == 0 and 8 <= d <= 8 * n, nm + ".whole-bytes")
            e.prove(spec.z_fields(name, d // 8, rs.bits(d))[0], nm + ".consumes-exactly")
        e.reach("end")
    return fn


def blob_case(kind, r):
    def fn(e):
        rs = ReaderState(e, r)
        t = e.choose(8) if kind == "bitbuffer" else 0
        m = e.int("content-bytes", 0)
        n = m * 8 + t if kind == "bitbuffer" else m
        e.assume(n <= spec.VARSIZE_MAX)
        q2 = e.int("q2", 0)
        e.assume(And(q2 >= rs.q + 1, q2 * 8 + r <= rs.bitsize))
        outcome = e.choose(3)

        def stub(self):
            if outcome == 0:
                raise PRE()("bad varsize")
            self.bitposition = q2 * 8 + r
            return n
        nm = "read_" + kind
        bad = []

        def decode(self, *a, **k):
            bad.append(1)
            raise UnicodeDecodeError("utf-8", b"", 0, 1, "bad")
        rep = {"bitreader:BitStreamReader.read_varsize": stub}
        old = SByteArray.decode, SBytes.decode
        if outcome == 2:
            SByteArray.decode = SBytes.decode = decode
        try:
            with patched(ns(), rep):
                exc = (PRE(), UnicodeDecodeError) if outcome == 2 and kind == "string" else PRE()
                raised, x = guard(e, lambda: getattr(rs.rd, nm)(), nm, exc)
        finally:
            SByteArray.decode, SBytes.decode = old
        inv(e, rs, nm)
        e.prove(rs.rd.bitposition >= rs.pos0, nm + ".moves-forward")
        end = q2 * 8 + r + m * 8 + t
        if outcome == 0:
            e.prove(raised, nm + ".bad-length-rejected")
        elif not raised or bad:
            e.prove(end <= rs.bitsize, nm + ".past-end-rejected")
            e.prove(eq(rs.rd.bitposition, end), nm + ".consumes-exactly")
        else:
            e.prove(end > rs.bitsize, nm + ".rejects-only-past-end")
        e.reach("end")
    return fn


def reposition(e):
    rs = ReaderState(e, e.choose(8))
    p = e.int("new-position")
    raised, _ = guard(e, lambda: setattr(rs.rd, "bitposition", p), "bitposition", PRE())
    inv(e, rs, "bitposition")
    ok = And(p >= 0, p <= rs.bitsize)
    if raised:
        e.prove(Not(ok), "bitposition.rejects-only-outside")
        e.prove(eq(rs.rd.bitposition, rs.pos0), "bitposition.unchanged-on-reject")
    else:
        e.prove(ok, "bitposition.outside-rejected")
        e.prove(eq(rs.rd.bitposition, p), "bitposition.set")
    e.reach("end")


def alignto(e):
    rs = ReaderState(e, e.choose(8))
    a = e.int("alignment", 1)
    raised, _ = guard(e, lambda: rs.rd.alignto(a), "alignto", PRE())
    inv(e, rs, "alignto")
    if raised:
        e.prove(eq(rs.rd.bitposition, rs.pos0), "alignto.unchanged-on-reject")
    else:
        e.prove(And(rs.rd.bitposition >= rs.pos0, rs.rd.bitposition < rs.pos0 + a), "alignto.moves-less-than-alignment")
    e.reach("end")


def constructor(e):
    k = e.choose(4)
    m = ns()
    cls = m.bitreader.BitStreamReader
    nb = e.int("nbytes", 0)
    buf = SBytes.abstract(byte_fn("data"), nb)
    bs = e.int("bitsize", 0)
    want = bs
    if k == 0:
        raised, rd = guard(e, lambda: cls(buf, bs), "__init__", PRE())
        if raised:
            e.prove(bs > nb * 8, "__init__.rejects-only-oversize")
            e.reach("end")
            return
        e.prove(bs <= nb * 8, "__init__.oversize-rejected")
    elif k == 1:
        _, rd = guard(e, lambda: cls(buf), "__init__")
        want = nb * 8
    elif k == 2:
        e.assume(bs <= nb * 8)
        _, rd = guard(e, lambda: cls.from_bitbuffer(m.bitbuffer.BitBuffer(buf, bs)), "from_bitbuffer")
    else:
        class F:
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def read(self):
                return buf
        names = []

        def opener(name, mode="r", *a, **kw):
            names.append((name, mode))
            return F()
        m.bitreader.__dict__["open"] = opener
        try:
            _, rd = guard(e, lambda: cls.from_file("the file"), "from_file")
        finally:
            del m.bitreader.__dict__["open"]
        e.prove(names == [("the file", "rb")], "from_file.opens-binary")
        want = nb * 8
    e.prove(eq(rd.buffer_bitsize, want), "constructor.bit-size")
    e.prove(eq(rd.bitposition, 0), "constructor.position")
    e.prove(any(v is buf for v in rd.__dict__.values()), "constructor.data")
    e.reach("end")


def prepare():
    ns()


def cases(tier):
    cs = [Case("constructor", constructor), Case("reposition", reposition), Case("alignto", alignto), Case("simple", simple)]
    cs += [Case("fixed%d" % n, fixed_case(n)) for n in range(0, 65)]
    cs += [Case("var-" + n, var_case(n)) for n in spec.VAR]
    for k in ("bytes", "string", "bitbuffer"):
        cs += [Case("%s@%d" % (k, r), blob_case(k, r)) for r in range(8)]
    return cs


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.reader_bounds(seed, budget, hints)
