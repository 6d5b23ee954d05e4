"""J03  float conversions of the Java runtime."""
import z3
from dv import jharness as h
from dv.jharness import WR, RD, RT, Writer, Reader, GhostWriter, GhostReader, run
from dv.jvm import bv, JFp
from dv.runner import Case

FU = RT + "FloatUtil"
TECHNIQUE = "deductive: contracts on the real Java methods, obligations generated by symbolic execution of their bytecode (compiled from the current source), discharged by z3"
FUNCTIONS = ["FloatUtil." + f for f in ("convertShortToFloat", "convertFloatToShort", "convertIntToFloat", "convertFloatToInt", "convertLongToDouble",
                                        "convertDoubleToLong")] + ["ByteArrayBitStreamWriter.writeFloat16/32/64", "ByteArrayBitStreamReader.readFloat16/32/64"]
TRUSTED = ["javac (the verified text is its bytecode for the current source)", "dv.jvm: JVM bytecode semantics; Float.floatToIntBits/intBitsToFloat and the double versions (bit image, "
           "floatToIntBits canonicalising NaN)", "z3 (bit-vectors; its IEEE 754 theory is the oracle)"]
ASSUMPTIONS = ["the contracts of the fixed-width stream methods (discharged by check J01)"]
NOTE = "all 2^16 half and 2^32 single patterns symbolically, against z3's IEEE theory"
prepare = h.prepare


def half_to_single(x):
    return z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(x, z3.Float16()), z3.Float32()))


def is_nan16(x):
    return z3.And(z3.Extract(14, 10, x) == 31, z3.Extract(9, 0, x) != 0)


def is_nan32(b):
    return z3.And(z3.Extract(30, 23, b) == 255, z3.Extract(22, 0, b) != 0)


def is_nan64(b):
    return z3.And(z3.Extract(62, 52, b) == 2047, z3.Extract(51, 0, b) != 0)


def single_to_half(b):
    rounded = z3.fpToIEEEBV(z3.fpFPToFP(z3.RNA(), z3.fpBVToFP(b, z3.Float32()), z3.Float16()))
    zero = z3.Concat(z3.Extract(31, 31, b), z3.BitVecVal(0, 15))
    return z3.If(z3.ULT(z3.Extract(30, 0, b), (127 - 24) << 23), zero, rounded)


def half_input(e):
    x = h.inp(e, "half", z3.BitVec("half", 16))
    return x, z3.SignExt(16, x)


def fbits(e, f, w, name):
    e.prove(isinstance(f, JFp) and f.w == w and f.bits is not None, name + ".type")
    return bv(f.bits, w)


def from_half(e):
    v = h.vm(e)
    hb, arg = half_input(e)
    _x, f = run(e, v, lambda: v.invoke(FU, "convertShortToFloat", "(S)F", [arg]), "convertShortToFloat")
    got = fbits(e, f, 32, "convertShortToFloat")
    e.prove(z3.Implies(is_nan16(hb), is_nan32(got)), "convertShortToFloat.nan-stays-nan")
    e.prove(z3.Implies(z3.Not(is_nan16(hb)), got == half_to_single(hb)), "convertShortToFloat.exact")
    e.reach("end")


def short_result(e, g, name):
    b = bv(g, 32)
    lo = z3.Extract(15, 0, b)
    e.prove(b == z3.SignExt(16, lo), name + ".is-a-short")
    return lo


def roundtrip_half(e):
    v = h.vm(e)
    hb, arg = half_input(e)
    _x, f = run(e, v, lambda: v.invoke(FU, "convertShortToFloat", "(S)F", [arg]), "convertShortToFloat")
    _x, g = run(e, v, lambda: v.invoke(FU, "convertFloatToShort", "(F)S", [f]), "convertFloatToShort")
    gb = short_result(e, g, "half-roundtrip")
    e.prove(z3.Implies(is_nan16(hb), is_nan16(gb)), "half-roundtrip.nan")
    e.prove(z3.Implies(z3.Not(is_nan16(hb)), gb == hb), "half-roundtrip.same-pattern")
    e.reach("end")


def to_half(e):
    v = h.vm(e)
    b = h.inp(e, "single", z3.BitVec("single", 32))
    _x, g = run(e, v, lambda: v.invoke(FU, "convertFloatToShort", "(F)S", [JFp(b, 32)]), "convertFloatToShort")
    gb = short_result(e, g, "convertFloatToShort")
    e.prove(z3.Implies(is_nan32(b), is_nan16(gb)), "convertFloatToShort.nan-stays-nan")
    e.prove(z3.Implies(z3.Not(is_nan32(b)), gb == single_to_half(b)), "convertFloatToShort.nearest")
    e.reach("end")


def wide(n):
    frm, to, d, p, nan = ("convertIntToFloat", "convertFloatToInt", "F", "I", is_nan32) if n == 32 else \
        ("convertLongToDouble", "convertDoubleToLong", "D", "J", is_nan64)

    def fn(e):
        v = h.vm(e)
        b = h.inp(e, "pattern", z3.BitVec("pattern", n))
        _x, f = run(e, v, lambda: v.invoke(FU, frm, "(%s)%s" % (p, d), [b]), frm)
        got = fbits(e, f, n, frm)
        e.prove(z3.Or(got == b, z3.And(nan(b), nan(got))), frm + ".bits")
        _x, g = run(e, v, lambda: v.invoke(FU, to, "(%s)%s" % (d, p), [JFp(b, n)]), to)
        gb = bv(g, n)
        e.prove(z3.Or(gb == b, z3.And(nan(b), nan(gb))), to + ".bits")
        e.reach("end")
    return fn


def stream(n):
    """writeFloatN / readFloatN convert with the conversion of their width and use exactly n bits"""
    d, w, nan = ("D", 64, is_nan64) if n == 64 else ("F", 32, is_nan32)

    def fn(e):
        v = h.vm(e)
        if e.choose(2):
            b = h.inp(e, "pattern", z3.BitVec("pattern", w))
            gw = GhostWriter(e, v)
            run(e, v, lambda: v.vcall(gw.w, "writeFloat%d" % n, "(%s)V" % d, JFp(b, w)), "writeFloat%d" % n)
            e.prove(sum(x.size() for x in gw.bits) == n, "writeFloat%d.number-of-bits" % n)
            got = z3.Concat(*gw.bits) if len(gw.bits) > 1 else gw.bits[0]
            want = single_to_half(b) if n == 16 else b
            gnan = is_nan16(got) if n == 16 else nan(got)
            e.prove(z3.If(nan(b), gnan, got == want), "writeFloat%d.bits" % n)
        else:
            bits = h.inp(e, "bits", z3.BitVec("bits", n))
            short = e.choose(2)
            gr = GhostReader(e, v, bits, limit=n - 1 if short else n)
            ex, f = run(e, v, lambda: v.vcall(gr.r, "readFloat%d" % n, "()" + d), "readFloat%d" % n, ("java/io/IOException",))
            e.prove((ex is not None) == bool(short), "readFloat%d.rejects-only-past-end" % n)
            if not short:
                e.prove(gr.pos == n, "readFloat%d.bits-consumed" % n)
                got = fbits(e, f, w, "readFloat%d" % n)
                bnan = is_nan16(bits) if n == 16 else nan(bits)
                want = half_to_single(bits) if n == 16 else bits
                e.prove(z3.If(bnan, nan(got), got == want), "readFloat%d.value" % n)
        e.reach("end")
    return fn


def cases(tier):
    return [Case("half-to-float", from_half, limit_s=600), Case("half-roundtrip", roundtrip_half, limit_s=600), Case("float-to-half", to_half, limit_s=600),
            Case("float32", wide(32)), Case("float64", wide(64))] + [Case("stream%d" % n, stream(n), limit_s=600) for n in (16, 32, 64)]


def search(seed, budget, hints):
    return h.search("JSearch", "J03", seed, budget, hints)
