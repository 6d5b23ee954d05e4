"""C03  floats, bounds, alignment and numBits of the C++ runtime."""
import random
import struct
import time
import z3
from dv import core, spec, cxharness as h
from dv.cxharness import Reader, Writer, GhostReader, run, same, atom, take, window, norm, bv
from dv.runner import Case

TECHNIQUE = "deductive: contracts on the real C++ functions, obligations generated by symbolic execution of their LLVM IR (clang -O0 of the current source), discharged by z3"
FUNCTIONS = ["convertUInt16ToFloat", "convertFloatToUInt16", "convertUInt32ToFloat", "convertFloatToUInt32", "convertUInt64ToDouble", "convertDoubleToUInt64",
             "BitStreamReader::readFloat16/32/64", "BitStreamWriter::writeFloat16/32/64", "getBitFieldLowerBound", "getBitFieldUpperBound", "alignTo (BitPositionUtil.h)", "builtin::numBits"]
TRUSTED = h.TRUSTED + ["z3's IEEE 754 theory (the oracle of the half precision conversions)"]
ASSUMPTIONS = ["the contract of readBitsImpl (discharged by check C01)", "byte positions and buffer sizes below 2^57", "float and double are IEEE 754 single and double (bit patterns pass unchanged)",
               "alignTo: alignments 0..64 and bit positions below 2^57"]
NOTE = "all 2^16 half, 2^32 single and 2^64 double patterns symbolically, against z3's IEEE theory; every bit field length; every 64-bit argument of numBits"
prepare = h.prepare
SEARCH_S = 10
FAIL_SEARCH_S = 60
CAP = ("InsufficientCapacityException", "CppRuntimeException")


def half_to_single(x):
    return z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(x, z3.Float16()), z3.Float32()))


def is_nan16(x):
    return z3.And(z3.Extract(14, 10, x) == 31, z3.Extract(9, 0, x) != 0)


def is_nan32(b):
    return z3.And(z3.Extract(30, 23, b) == 255, z3.Extract(22, 0, b) != 0)


def is_nan64(b):
    return z3.And(z3.Extract(62, 52, b) == 2047, z3.Extract(51, 0, b) != 0)


def single_to_half(b):
    rounded = z3.fpToIEEEBV(z3.fpFPToFP(z3.RNA(), z3.fpBVToFP(b, z3.Float32()), z3.Float16()))
    zero = z3.Concat(z3.Extract(31, 31, b), z3.BitVecVal(0, 15))
    return z3.If(z3.ULT(z3.Extract(30, 0, b), (127 - 24) << 23), zero, rounded)


def call(e, v, f, *a):
    ex, x = run(e, lambda: v.call("h_" + f, *a), f)
    e.prove(ex is None, f + ".accepted")
    return x


def from_half(e):
    v = h.vm(e)
    hb = h.inp(e, "half", 16)
    got = bv(call(e, v, "toFloat16", hb), 32)
    e.prove(z3.Implies(is_nan16(hb), is_nan32(got)), "convertUInt16ToFloat.nan-stays-nan")
    e.prove(z3.Implies(z3.Not(is_nan16(hb)), got == half_to_single(hb)), "convertUInt16ToFloat.exact")
    e.reach("end")


def roundtrip_half(e):
    v = h.vm(e)
    hb = h.inp(e, "half", 16)
    gb = bv(call(e, v, "fromFloat16", call(e, v, "toFloat16", hb)), 16)
    e.prove(z3.Implies(is_nan16(hb), is_nan16(gb)), "half-roundtrip.nan")
    e.prove(z3.Implies(z3.Not(is_nan16(hb)), gb == hb), "half-roundtrip.same-pattern")
    e.reach("end")


def to_half(e):
    v = h.vm(e)
    b = h.inp(e, "single", 32)
    gb = bv(call(e, v, "fromFloat16", b), 16)
    e.prove(z3.Implies(is_nan32(b), is_nan16(gb)), "convertFloatToUInt16.nan-stays-nan")
    e.prove(z3.Implies(z3.Not(is_nan32(b)), gb == single_to_half(b)), "convertFloatToUInt16.nearest")
    e.reach("end")


def wide(n):
    def fn(e):
        v = h.vm(e)
        b = h.inp(e, "pattern", n)
        e.prove(same(call(e, v, "toFloat%d" % n, b), b), "float%d-from-bits" % n)
        e.prove(same(call(e, v, "fromFloat%d" % n, b), b), "float%d-to-bits" % n)
        e.reach("end")
    return fn


def write_float(n):
    w, nan = (64, is_nan64) if n == 64 else (32, is_nan32)

    def fn(e):
        v = h.vm(e)
        nm = "writeFloat%d" % n
        b = h.inp(e, "pattern", w)
        r = e.pick(8)
        short = e.pick(2)
        if short:
            wr = Writer(e, v, r, n - 1)
            ex, _x = run(e, lambda: wr.call("h_" + nm, b), nm, CAP)
            e.prove(ex is not None, nm + ".beyond-the-end-rejected")
            e.reach("end")
            return
        wr = Writer(e, v, r, n, 0)
        ex, _x = run(e, lambda: wr.call("h_" + nm, b), nm, CAP)
        e.prove(ex is None, nm + ".accepted")
        if n == 16:
            # the conversion itself is decided by the case float-to-half
            conv = bv(call(e, v, "fromFloat16", b), 16)
            wr.expect(conv, nm)
        else:
            wr.expect(b, nm)
        e.reach("end")
    return fn


def read_float(n):
    def fn(e):
        nm = "readFloat%d" % n
        short = e.pick(2)
        w = 64 if n == 64 else 32
        if h.read_impl():
            bits = h.inp(e, "bits", n)
            gr = GhostReader(e, bits, limit=n - 1 if short else n)
            ex, x = run(e, lambda: gr.call("h_" + nm), nm)
            gr.untouched(nm)
            e.prove((ex is not None) == bool(short), nm + ".rejected-only-past-end")
            if ex is None and not short:
                e.prove(gr.pos == n, nm + ".bits-consumed")
                want = bv(call(e, gr.v, "toFloat16", bits), 32) if n == 16 else bits
                e.prove(same(x, want), nm + ".value")
        else:
            v = h.vm(e)
            k = e.pick(65)
            q = atom(e, "q")
            r = Reader(e, v, q, None)
            r.restore(h.canonical(r, q, k, h.stale(e, v)))
            _ex, x = run(e, lambda: r.call("h_" + nm), nm)
            bits = take(window(r.buf, q, k + n), k, n)
            want = bv(call(e, v, "toFloat16", norm(bits)), 32) if n == 16 else bits
            e.prove(same(x, norm(want)), nm + ".value")
            e.prove(same(r.call("h_reader_get"), q * 8 + k + n), nm + ".bits-consumed")
        e.reach("end")
    return fn


def bounds(e):
    v = h.vm(e)
    M = 1 << 64
    for n in range(1, 65):
        e.prove(same(call(e, v, "lower", n, 1), -(1 << (n - 1)) % M), "getBitFieldLowerBound.signed", n)
        e.prove(same(call(e, v, "lower", n, 0), 0), "getBitFieldLowerBound.unsigned", n)
        e.prove(same(call(e, v, "upper", n, 1), (1 << (n - 1)) - 1), "getBitFieldUpperBound.signed", n)
        e.prove(same(call(e, v, "upper", n, 0), (1 << n) - 1), "getBitFieldUpperBound.unsigned", n)
    e.reach("end")


def bounds_rejected(e):
    v = h.vm(e)
    n = h.inp(e, "length", 64)
    e.assume(z3.Or(n == 0, z3.UGT(n, 64)))
    s = e.pick(2)
    for f in ("lower", "upper"):
        ex, _x = run(e, lambda: v.call("h_" + f, n, s), f)
        e.prove(ex is not None, "getBitField%sBound.invalid-length-rejected" % f.capitalize())
    e.reach("end")


def align(a):
    """alignTo(a, p): the smallest multiple of a not below p"""
    def fn(e):
        v = h.vm(e)
        if a == 0:
            p = h.inp(e, "position", 64)
            e.prove(same(call(e, v, "alignTo", 0, p), p), "alignTo.no-alignment")
        else:
            o = e.pick(a + 1)
            # positions 0, and (m + 1) a - o for any m, by the distance o to the next multiple
            if o == a:
                e.prove(same(call(e, v, "alignTo", a, 0), 0), "alignTo.zero")
            else:
                m = atom(e, "m", 1 << 50)
                p = m * a + (a - o)
                e.prove(same(call(e, v, "alignTo", a, p), m * a + a), "alignTo.next-multiple", "%d, distance %d" % (a, o))
        e.reach("end")
    return fn


def num_bits(e):
    v = h.vm(e)
    n = h.inp(e, "numValues", 64)
    b = e.pick(65)
    # b: number of bits of the largest of n values
    if b == 0:
        e.assume(z3.ULE(n, 1))
        e.prove(bv(call(e, v, "numBits", n), 8) == z3.Extract(7, 0, n), "numBits.of-0-and-1")
    else:
        e.assume(n != 0)
        e.assume(z3.LShR(n - 1, b - 1) == 1)
        e.prove(same(call(e, v, "numBits", n), b), "numBits.value", b)
    e.reach("end")


BOUNDED = []


def cases(tier):
    if not h.read_impl():
        BOUNDED.append("readFloat16/32/64: the internal function readBitsImpl was not found, checked inline without the cases near the end of the buffer")
    cs = [Case("half-to-float", from_half, limit_s=600), Case("half-roundtrip", roundtrip_half, limit_s=600), Case("float-to-half", to_half, limit_s=600), Case("float32", wide(32)), Case("float64", wide(64))]
    cs += [Case("writeFloat%d" % n, write_float(n), limit_s=600) for n in (16, 32, 64)] + [Case("readFloat%d" % n, read_float(n), limit_s=600) for n in (16, 32, 64)]
    cs += [Case("bounds", bounds), Case("bounds-rejected", bounds_rejected), Case("numBits", num_bits)] + [Case("alignTo-%d" % a, align(a)) for a in range(65)]
    return cs


# ---------------------------------------------------------------- concrete search on the compiled runtime
def half_single(x):
    f = spec.half_value(x)
    if f != f:
        return None
    return struct.unpack(">I", struct.pack(">f", f))[0]


def search(seed, budget, hints):
    rng = random.Random(seed)
    d = h.Driver()
    end = time.time() + budget
    count = 0
    fail = None

    def ask(want, *cmd):
        nonlocal count, fail
        if fail:
            return
        got = d.ask(*cmd)
        count += 1
        ok = want(got) if callable(want) else got == str(want)
        if not ok:
            fail = dict(request=" ".join(str(c) for c in cmd), got=got, expected="a NaN" if callable(want) else str(want))

    def to16(b):
        w = spec.single_to_half_bits(b)
        ask((lambda g: g.isdigit() and int(g) & 0x7c00 == 0x7c00 and int(g) & 0x3ff) if w is None else w, "call", "fromFloat16", b)

    for n in range(1, 65):
        ask(-(1 << (n - 1)), "call", "lower", n, 1)
        ask(0, "call", "lower", n, 0)
        ask((1 << (n - 1)) - 1, "call", "upper", n, 1)
        ask((1 << n) - 1, "call", "upper", n, 0)
    for n in (0, 65, 66, 128, 1 << 32, (1 << 64) - 1):
        for f in ("lower", "upper"):
            for s in (0, 1):
                ask("EXC", "call", f, n, s)
    for k in range(65):
        for x in (-1, 0, 1):
            n = (1 << k) + x
            if 0 <= n < 1 << 64:
                ask(0 if n == 0 else max(1, (n - 1).bit_length()), "call", "numBits", n)
                for a in (1, 3, 8, 32, 64):
                    if n < 1 << 60:
                        ask(n + (-n) % a, "call", "alignTo", a, n)
    while time.time() < end and not fail:
        for _i in range(200):
            x = rng.randrange(1 << 16)
            w = half_single(x)
            ask((lambda g: g.isdigit() and int(g) & 0x7f800000 == 0x7f800000 and int(g) & 0x7fffff) if w is None else w, "call", "toFloat16", x)
            to16(rng.getrandbits(32))
            ex = rng.choice([rng.randrange(256), rng.randrange(100, 146)])
            to16(rng.getrandbits(1) << 31 | ex << 23 | rng.choice([0, 0x7fffff, rng.getrandbits(23), 1 << rng.randrange(23), (rng.getrandbits(10) << 13) | rng.choice([0, 0x1000, 0x0fff, 0x1001, 0x1fff])]))
            b = rng.getrandbits(64)
            ask(b, "call", "float64", b)
            ask(b >> 32, "call", "float32", b >> 32)
            pos = rng.randrange(8)
            for n in (32, 64):
                s = "{:0{}b}".format(b >> (64 - n), n)
                t = "0" * pos + s + "1" * (-(pos + n) % 8)
                hx = bytes(int(t[i:i + 8], 2) for i in range(0, len(t), 8)).hex()
                ask("%d %d" % (b >> (64 - n), pos + n), "read", "readFloat%d" % n, hx, len(t), pos, 0)
                z = "1" * 80
                t = z[:pos] + s + z[pos + n:]
                ask(bytes(int(t[i:i + 8], 2) for i in range(0, 80, 8)).hex() + " %d" % (pos + n), "write", "writeFloat%d" % n, "ff" * 10, 80, pos, b >> (64 - n))
            if w is not None:
                t = "0" * pos + "{:016b}".format(x) + "1" * (-pos % 8)
                ask("%d %d" % (w, pos + 16), "read", "readFloat16", bytes(int(t[i:i + 8], 2) for i in range(0, len(t), 8)).hex(), len(t), pos, 0)
                ask(bytes(int(t[i:i + 8], 2) for i in range(0, len(t), 8)).hex() + " %d" % (pos + 16), "write", "writeFloat16", ("0" * pos and "00" or "00") + "00" * (len(t) // 8 - 2) + "%02x" % ((1 << (-pos % 8)) - 1), len(t), pos, w)
    d.close()
    return dict(failing=fail, evaluations=count)
