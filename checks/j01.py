"""J01  fixed-width integers of the Java runtime."""
import z3
from dv import core, jvm
from dv import jharness as h
from dv.jharness import WR, RD, IAE, Writer, Reader, GhostWriter, run
from dv.jvm import bv, JBig
from dv.runner import Case

TECHNIQUE = "deductive: contracts on the real Java methods, obligations generated by symbolic execution of their bytecode (compiled from the current source), discharged by z3"
FUNCTIONS = ["ByteArrayBitStreamWriter." + f for f in ("writeBits", "writeSignedBits", "writeBitsImpl", "writeByte", "writeUnsignedByte", "writeShort",
                                                       "writeUnsignedShort", "writeInt", "writeUnsignedInt", "writeLong", "writeBigInteger", "writeBool",
                                                       "ensureCapacity (inlined)", "growBuffer (inlined)", "flushBits (inlined)", "writeZeros/writeOnes (inlined)")] + \
    ["ByteArrayBitStreamReader." + f for f in ("readBits", "readSignedBits", "readBitsImpl", "readByte", "readUnsignedByte", "readShort", "readUnsignedShort",
                                               "readInt", "readUnsignedInt", "readLong", "readBigInteger", "readSignedBigInteger", "readBool")] + \
    ["ByteArrayBitStreamBase.checkRange/checkUnsignedRange (inlined)", "BitFieldUtil.getBitFieldLowerBound/UpperBound (inlined)"]
TRUSTED = ["javac (the verified text is its bytecode for the current source)", "dv.jvm: JVM bytecode semantics (32/64-bit wrap-around, arrays, exceptions) and the models of "
           "System.arraycopy, Math, BigInteger as exact integers", "z3"]
ASSUMPTIONS = ["byte position of a writer below 2^31-64 (a Java array cannot be longer); heap exhaustion is not modelled",
               "a reader's declared bit size needs exactly the given bytes (the constructor does not check it)",
               "bit offsets are 0..7 and byte positions not negative (setBitPosition with a negative position is outside the property)"]
NOTE = "every obligation discharged for all values, positions, buffer lengths and contents; widths and bit offsets enumerated exhaustively"
# a rejected read: the runtime throws IOException; positions whose sum leaves the int range give an index exception
EXC = ("java/io/IOException", "java/lang/IndexOutOfBoundsException")
prepare = h.prepare


def impl_write(n):
    def fn(e):
        off = e.choose(8)
        v = h.vm(e)
        h.ensure_capacity_contract(e, v)
        ws = Writer(e, v, off)
        x = h.jlong(e, "value")
        run(e, v, lambda: v.invoke(WR, "writeBitsImpl", "(JI)V", [ws.w, x, n]), "writeBitsImpl")
        ws.expect(z3.Extract(n - 1, 0, x), "writeBitsImpl")
        e.reach("end")
    return fn


def ensure_capacity(e):
    """contract of ensureCapacity for any buffer, position and number of bits"""
    v = h.vm(e)
    ws = Writer(e, v, e.choose(2) * 5)
    n = h.jint(e, "num_bits", 0)
    need = z3.SignExt(32, ws.P) + (z3.SignExt(32, n) + 7) / 8
    e.assume(need <= 2 ** 31 - 10)
    run(e, v, lambda: v.invoke(WR, "ensureCapacity", "(I)V", [ws.w, n]), "ensureCapacity")
    b = ws.w.f["buffer"]
    ln = bv(b.length, 32)
    e.prove(z3.And(z3.SignExt(32, ln) > need, ln >= ws.L, ln <= 2 ** 31 - 9), "ensureCapacity.capacity")
    ws.unchanged("ensureCapacity")
    e.reach("end")


def public_write(kind, n):
    def fn(e):
        v = h.vm(e)
        x = h.jlong(e, "value")
        nm = "writeSignedBits" if kind else "writeBits"
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if kind else (0, (1 << n) - 1)
        fits = z3.And(x >= lo, x <= hi)
        if h.has(WR, "writeBitsImpl", "(JI)V"):
            gw = GhostWriter(e, v)
            for k in ("writeBits", "writeSignedBits"):
                v.hooks.pop((WR, k, "(JI)V"))
            ex, _ = run(e, v, lambda: v.vcall(gw.w, nm, "(JI)V", x, n), nm, (IAE,))
            if ex:
                e.prove(z3.Not(fits), nm + ".valid-value-accepted")
                e.prove(not gw.bits, nm + ".rejected-writes-nothing")
                return
            e.prove(fits, nm + ".out-of-range-rejected")
            gw.expect(z3.Extract(n - 1, 0, x), nm)
        else:
            h.ensure_capacity_contract(e, v)
            ws = Writer(e, v, e.choose(8))
            ex, _ = run(e, v, lambda: v.vcall(ws.w, nm, "(JI)V", x, n), nm, (IAE,))
            if ex:
                e.prove(z3.Not(fits), nm + ".valid-value-accepted")
                ws.unchanged(nm + ".rejected")
                return
            e.prove(fits, nm + ".out-of-range-rejected")
            ws.expect(z3.Extract(n - 1, 0, x), nm)
        e.reach("end")
    return fn


def bad_width(e):
    """widths outside the supported range are rejected and nothing changes"""
    v = h.vm(e)
    off = e.choose(8)
    which = e.choose(5)
    n = h.jint(e, "num_bits")
    if which in (0, 1, 4):
        ws = Writer(e, v, off)
        nm = ("writeBits", "writeSignedBits", 0, 0, "writeBigInteger")[which]
        top = 63 if which == 0 else 64
        e.assume(z3.Or(n < 1, n > top))
        if which == 4:
            ex, _ = run(e, v, lambda: v.vcall(ws.w, nm, "(Ljava/math/BigInteger;I)V", JBig(e.bv("value", -(1 << 70), 1 << 70)), n), nm, (IAE,))
        else:
            ex, _ = run(e, v, lambda: v.vcall(ws.w, nm, "(JI)V", h.jlong(e, "value"), n), nm, (IAE,))
        e.prove(ex is not None, nm + ".bad-width-rejected")
        ws.unchanged(nm + ".bad-width")
    else:
        rs = Reader(e, v, off)
        nm = "readBits" if which == 2 else "readSignedBits"
        e.assume(z3.Or(n < 1, n > (63 if which == 2 else 64)))
        ex, _ = run(e, v, lambda: v.vcall(rs.r, nm, "(I)J", n), nm, (IAE,))
        e.prove(ex is not None, nm + ".bad-width-rejected")
        rs.at(0, nm + ".bad-width")
    e.reach("end")


SIMPLE = [("writeByte", "B", 8, True), ("writeUnsignedByte", "S", 8, False), ("writeShort", "S", 16, True), ("writeUnsignedShort", "I", 16, False),
          ("writeInt", "I", 32, True), ("writeUnsignedInt", "J", 32, False), ("writeLong", "J", 64, True), ("writeBool", "Z", 1, False)]
DW = {"Z": (0, 1), "B": (-128, 127), "S": (-32768, 32767), "I": (None, None), "J": (None, None)}


def simple_write(nm, d, n, signed):
    def fn(e):
        v = h.vm(e)
        h.ensure_capacity_contract(e, v)
        ws = Writer(e, v, e.choose(8))
        x = h.jlong(e, "value") if d == "J" else h.jint(e, "value", *DW[d])
        fits = z3.BoolVal(True) if signed else z3.And(x >= 0, x <= (1 << n) - 1)
        ex, _ = run(e, v, lambda: v.vcall(ws.w, nm, "(%s)V" % d, x), nm, (IAE,))
        if ex:
            e.prove(z3.Not(fits), nm + ".valid-value-accepted")
            ws.unchanged(nm + ".rejected")
            return
        e.prove(fits, nm + ".out-of-range-rejected")
        ws.expect(z3.Extract(n - 1, 0, x), nm)
        e.reach("end")
    return fn


def big_write(n):
    def fn(e):
        v = h.vm(e)
        gw = GhostWriter(e, v) if h.has(WR, "writeBitsImpl", "(JI)V") else None
        ws = None if gw else Writer(e, v, 3)
        w = gw.w if gw else ws.w
        x = e.bv("value", -(1 << 66), 1 << 66)
        lo, hi = -(1 << (n - 1)), (1 << n) - 1
        fits = core.And(x >= lo, x <= hi)
        ex, _ = run(e, v, lambda: v.vcall(w, "writeBigInteger", "(Ljava/math/BigInteger;I)V", JBig(x), n), "writeBigInteger", (IAE,))
        if ex:
            e.prove(core.Not(fits), "writeBigInteger.valid-value-accepted")
            if gw:
                e.prove(not gw.bits, "writeBigInteger.rejected-writes-nothing")
            else:
                ws.unchanged("writeBigInteger.rejected")
            return
        e.prove(fits, "writeBigInteger.out-of-range-rejected")
        (gw or ws).expect(core.ubits(x & ((1 << n) - 1), n), "writeBigInteger")
        e.reach("end")
    return fn


def read_case(nm, d, n, signed, desc, args):
    """nm reads n bits and returns them as a `d`"""
    def fn(e):
        v = h.vm(e)
        rs = Reader(e, v, e.choose(8))
        ex, r = run(e, v, lambda: v.invoke(RD, nm, desc, [rs.r] + args), nm, EXC)
        if ex:
            e.prove(z3.Not(rs.fits(n)), nm + ".available-bits-are-read")
            return
        e.prove(rs.fits(n), nm + ".beyond-the-end-rejected")
        w = 64 if d == "J" else 32
        b = rs.bits(n)
        want = b if n == w else (z3.SignExt if signed else z3.ZeroExt)(w - n, b)
        e.prove(bv(r, w) == want, nm + ".value")
        rs.at(n, nm)
        e.reach("end")
    return fn


def public_read(kind, n):
    """readBits / readSignedBits against the contract of readBitsImpl (or inlined when there is none)"""
    nm = "readSignedBits" if kind else "readBits"
    if not h.has(RD, "readBitsImpl", "(I)J"):
        return read_case(nm, "J", n, kind, "(I)J", [n])

    def fn(e):
        v = h.vm(e)
        v.init(RD)
        r = v.alloc(RD)
        bits = h.inp(e, "bits", z3.BitVec("bits", n))
        calls = []

        def impl(_vm, a):
            calls.append(a[1])
            e.prove(bv(a[1], 32) == n, nm + ".width-handed-on")
            return bits if n == 64 else z3.ZeroExt(64 - n, bits)
        v.hooks[(RD, "readBitsImpl", "(I)J")] = impl
        _ex, x = run(e, v, lambda: v.vcall(r, nm, "(I)J", n), nm)
        want = bits if n == 64 else (z3.SignExt if kind else z3.ZeroExt)(64 - n, bits)
        e.prove(len(calls) == 1, nm + ".reads-once")
        e.prove(bv(x, 64) == want, nm + ".value")
        e.reach("end")
    return fn


def big_read(n, signed):
    nm = "readSignedBigInteger" if signed else "readBigInteger"

    def fn(e):
        v = h.vm(e)
        rs = Reader(e, v, e.choose(8))
        ex, r = run(e, v, lambda: v.vcall(rs.r, nm, "(I)Ljava/math/BigInteger;", n), nm, EXC)
        if ex:
            e.prove(z3.Not(rs.fits(n)), nm + ".available-bits-are-read")
            return
        e.prove(rs.fits(n), nm + ".beyond-the-end-rejected")
        b = rs.bits(n)
        want = core.from_sbits(b) if signed else core.from_ubits(b)
        e.prove(core.eq(r.v, want), nm + ".value")
        rs.at(n, nm)
        e.reach("end")
    return fn


READ = [("readByte", "B", 8, True), ("readUnsignedByte", "S", 8, False), ("readShort", "S", 16, True), ("readUnsignedShort", "I", 16, False),
        ("readInt", "I", 32, True), ("readUnsignedInt", "J", 32, False), ("readLong", "J", 64, True), ("readBool", "Z", 1, False)]


def cases(tier):
    out = [Case("bad-width", bad_width)]
    impl = h.has(WR, "writeBitsImpl", "(JI)V")
    if h.has(WR, "ensureCapacity", "(I)V"):
        out.append(Case("ensureCapacity", ensure_capacity, limit_s=600))
    for n in range(64, 0, -1):
        if impl:
            out.append(Case("writeBitsImpl:%d" % n, impl_write(n), limit_s=600))
        if h.has(RD, "readBitsImpl", "(I)J"):
            out.append(Case("readBitsImpl:%d" % n, read_case("readBitsImpl", "J", n, False, "(I)J", [n]), limit_s=600))
        if n < 64:
            out.append(Case("writeBits:%d" % n, public_write(False, n), limit_s=600))
            out.append(Case("readBits:%d" % n, public_read(False, n), limit_s=600))
        out.append(Case("writeSignedBits:%d" % n, public_write(True, n), limit_s=600))
        out.append(Case("readSignedBits:%d" % n, public_read(True, n), limit_s=600))
        out.append(Case("writeBigInteger:%d" % n, big_write(n), limit_s=600))
        out.append(Case("readBigInteger:%d" % n, big_read(n, False), limit_s=600))
        out.append(Case("readSignedBigInteger:%d" % n, big_read(n, True), limit_s=600))
    for nm, d, n, s in SIMPLE:
        out.append(Case(nm, simple_write(nm, d, n, s), limit_s=600))
    for nm, d, n, s in READ:
        out.append(Case(nm, read_case(nm, d, n, s, "()" + d, []), limit_s=600))
    return out


def search(seed, budget, hints):
    return h.search("JSearch", "J01", seed, budget, hints)
