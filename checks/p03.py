"""P03  float conversions of the Python runtime."""
import z3
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns
from dv.pyload import SFloat

FUNCTIONS = ["float.uint16_to_float", "float.float_to_uint16", "float.uint32_to_float", "float.float_to_uint32",
             "float.uint64_to_float", "float.float_to_uint64", "BitStreamWriter.write_float16/32/64", "BitStreamReader.read_float16/32/64"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers", "z3 (bit-vectors and its IEEE 754 floating-point theory, used as the oracle)",
           "struct.pack/unpack of '>f' and '>d' (modelled as the IEEE bit image of the abstract host float; order and size suffixes honoured)"]
ASSUMPTIONS = ["a host float passed to float_to_uint16/32 is one that a single-precision value denotes (rounding of wider doubles is done by the trusted struct.pack)"]
NOTE = "all 2^16 half and 2^32 single patterns symbolically, against z3's IEEE theory"


def half_to_single(h):
    """IEEE: exact value of a half pattern as a single pattern (BV32); NaN handled by the caller."""
    return z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(h, z3.Float16()), z3.Float32()))


def is_nan16(h):
    return z3.And(z3.Extract(14, 10, h) == 31, z3.Extract(9, 0, h) != 0)


def is_nan32(b):
    return z3.And(z3.Extract(30, 23, b) == 255, z3.Extract(22, 0, b) != 0)


def single_to_half(b):
    """Nearest, ties away; below the smallest subnormal flushed to zero (the runtime's documented-by-test behaviour)."""
    x = z3.fpBVToFP(b, z3.Float32())
    rounded = z3.fpToIEEEBV(z3.fpFPToFP(z3.RNA(), x, z3.Float16()))
    sign = z3.Extract(31, 31, b)
    zero = z3.Concat(sign, z3.BitVecVal(0, 15))
    tiny = z3.ULT(z3.Extract(30, 0, b), (127 - 24) << 23)
    return z3.If(tiny, zero, rounded)


def check_b32(e, f, want_nan, want, name):
    e.prove(type(f) is SFloat and f.b32 is not None, name + ".returns-float")
    got = ubits(f.b32, 32)
    e.prove(z3.Implies(want_nan, is_nan32(got)), name + ".nan-stays-nan")
    e.prove(z3.Implies(z3.Not(want_nan), got == want), name + ".exact")


def from_half(e):
    h = e.bv("half", 0, 0xffff)
    hb = ubits(h, 16)
    _, f = guard(e, lambda: ns().float.uint16_to_float(h), "uint16_to_float")
    check_b32(e, f, is_nan16(hb), half_to_single(hb), "uint16_to_float")
    e.reach("end")


def roundtrip_half(e):
    h = e.bv("half", 0, 0xffff)
    hb = ubits(h, 16)
    _, f = guard(e, lambda: ns().float.uint16_to_float(h), "uint16_to_float")
    _, g = guard(e, lambda: ns().float.float_to_uint16(f), "float_to_uint16")
    e.prove(And(g >= 0, g <= 0xffff), "half-roundtrip.range")
    gb = ubits(g, 16)
    e.prove(z3.Implies(is_nan16(hb), is_nan16(gb)), "half-roundtrip.nan")
    e.prove(z3.Implies(z3.Not(is_nan16(hb)), gb == hb), "half-roundtrip.same-pattern")
    e.reach("end")


def to_half(e):
    b = e.bv("single", 0, 0xffffffff)
    bb = ubits(b, 32)
    _, g = guard(e, lambda: ns().float.float_to_uint16(SFloat(b32=b)), "float_to_uint16")
    e.prove(And(g >= 0, g <= 0xffff), "float_to_uint16.range")
    gb = ubits(g, 16)
    e.prove(z3.Implies(is_nan32(bb), is_nan16(gb)), "float_to_uint16.nan-stays-nan")
    e.prove(z3.Implies(z3.Not(is_nan32(bb)), gb == single_to_half(bb)), "float_to_uint16.nearest")
    e.reach("end")


def wide(n):
    def fn(e):
        m = ns().float
        b = e.bv("pattern", 0, (1 << n) - 1)
        dec = getattr(m, "uint%d_to_float" % n)
        enc = getattr(m, "float_to_uint%d" % n)
        at = "b%d" % n
        _, f = guard(e, lambda: dec(b), "uint%d_to_float" % n)
        e.prove(type(f) is SFloat and getattr(f, at) is not None, "uint%d_to_float.returns-float" % n)
        e.prove(eq(getattr(f, at), b), "uint%d_to_float.bits" % n)
        _, g = guard(e, lambda: enc(SFloat(**{at: b})), "float_to_uint%d" % n)
        e.prove(eq(g, b), "float_to_uint%d.bits" % n)
        e.reach("end")
    return fn


def stream(n):
    """write_floatN / read_floatN use the conversion of the same width on exactly n bits."""
    def fn(e):
        r = e.choose(8)
        m = ns()
        if e.choose(2):
            ws = WriterState(e, r)
            b = e.bv("pattern", 0, (1 << (32 if n == 16 else n)) - 1)
            f = SFloat(**{"b%d" % (32 if n == 16 else n): b})
            want = getattr(m.float, "float_to_uint%d" % n)(f)
            guard(e, lambda: getattr(ws.w, "write_float%d" % n)(f), "write_float%d" % n)
            ws.expect(ubits(want, n), "write_float%d" % n)
        else:
            rs = ReaderState(e, r)
            raised, f = guard(e, lambda: getattr(rs.rd, "read_float%d" % n)(), "read_float%d" % n, PRE())
            if raised:
                e.prove(Not(rs.inside(n)), "read_float%d.rejects-only-past-end" % n)
                e.prove(eq(rs.rd.bitposition, rs.pos0), "read_float%d.position-unchanged" % n)
            else:
                e.prove(rs.inside(n), "read_float%d.inside" % n)
                e.prove(eq(rs.rd.bitposition, rs.pos0 + n), "read_float%d.position" % n)
                want = getattr(m.float, "uint%d_to_float" % n)(from_ubits(rs.bits(n)))
                at = "b64" if n == 64 else "b32"
                e.prove(eq(getattr(f, at), getattr(want, at)), "read_float%d.value" % n)
        e.reach("end")
    return fn


def prepare():
    ns()


def cases(tier):
    return [Case("from-half", from_half), Case("to-half", to_half), Case("roundtrip-half", roundtrip_half),
            Case("single", wide(32)), Case("double", wide(64)),
            Case("stream16", stream(16)), Case("stream32", stream(32)), Case("stream64", stream(64))]


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.floats(seed, budget, hints)
