"""J02  variable-length integers of the Java runtime."""
import z3
from dv import core, spec
from dv import jharness as h
from dv.jharness import WR, RD, RT, IAE, ZE, GhostWriter, GhostReader, run
from dv.jvm import bv, JBig
from dv.runner import Case

BS = RT + "BitSizeOfCalculator"
IOE = "java/io/IOException"
# name -> (method suffix, Java type, bits of the Java type)
T = {"varint16": ("VarInt16", "S", 16), "varint32": ("VarInt32", "I", 32), "varint64": ("VarInt64", "J", 64), "varint": ("VarInt", "J", 64),
     "varuint16": ("VarUInt16", "S", 16), "varuint32": ("VarUInt32", "I", 32), "varuint64": ("VarUInt64", "J", 64),
     "varuint": ("VarUInt", "Ljava/math/BigInteger;", 0), "varsize": ("VarSize", "I", 32)}
TECHNIQUE = "deductive: contracts on the real Java methods, obligations generated by symbolic execution of their bytecode (compiled from the current source), discharged by z3"
FUNCTIONS = ["BitSizeOfCalculator.getBitSizeOf" + a for a, _b, _c in T.values()] + ["ByteArrayBitStreamWriter.write" + a for a, _b, _c in T.values()] + \
    ["ByteArrayBitStreamReader.read" + a for a, _b, _c in T.values()] + ["ByteArrayBitStreamWriter.writeVarNum (inlined)"]
TRUSTED = ["javac (the verified text is its bytecode for the current source)", "dv.jvm: JVM bytecode semantics and the model of BigInteger as exact integers", "z3",
           "dv/spec.py: documented byte layout of the nine types"]
ASSUMPTIONS = ["the contracts of writeBits/readBits and the other fixed-width methods (discharged by check J01)"]
NOTE = "every length of every type, all values of the Java parameter type (varuint: all integers of up to 80 bits, beyond that by comparison only)"
prepare = h.prepare


def value(e, name, m, neg):
    """the Java argument denoting (neg ? -m : m); m is a 64- or wider BV"""
    d, w = T[name][1:]
    if d == "J":
        x = z3.Extract(63, 0, m)
        return -x if neg else x
    if w:
        # shorts are passed as ints
        x = z3.Extract(31, 0, m)
        return -x if neg else x
    v = core.from_ubits(m)
    return JBig(-v if neg else v)


def write_case(name, length):
    def fn(e):
        v = h.vm(e)
        signed = spec.VAR[name][0]
        neg = bool(e.choose(2)) if signed else False
        m = h.inp(e, "magnitude", z3.BitVec("magnitude", 80))
        lo = 0 if length == 1 else spec.mag_max(name, length - 1) + 1
        e.assume(z3.And(z3.UGE(m, lo), z3.ULE(m, spec.mag_max(name, length))))
        if neg:
            e.inputs["negative"] = z3.BitVecVal(1, 8)
        suffix, d, _w = T[name]
        x = value(e, name, m, neg)
        _ex, n = run(e, v, lambda: v.invoke(BS, "getBitSizeOf" + suffix, "(%s)I" % d, [x]), "getBitSizeOf" + suffix)
        e.prove(bv(n, 32) == 8 * length, "getBitSizeOf%s.shortest" % suffix)
        gw = GhostWriter(e, v)
        run(e, v, lambda: v.vcall(gw.w, "write" + suffix, "(%s)V" % d, x), "write" + suffix)
        nz = z3.And(z3.BoolVal(neg), m != 0)
        gw.expect(spec.z_encode(name, length, z3.Extract(spec.mag_bits(name, length) - 1, 0, m), nz), "write" + suffix)
        e.reach("end")
    return fn


def int64_min(e):
    v = h.vm(e)
    x = -(1 << 63)
    _ex, n = run(e, v, lambda: v.invoke(BS, "getBitSizeOfVarInt", "(J)I", [x]), "getBitSizeOfVarInt")
    e.prove(bv(n, 32) == 8, "getBitSizeOfVarInt.int64-min")
    gw = GhostWriter(e, v)
    run(e, v, lambda: v.vcall(gw.w, "writeVarInt", "(J)V", x), "writeVarInt")
    gw.expect(z3.BitVecVal(0x80, 8), "writeVarInt.int64-min")
    e.reach("end")


def reject_case(name):
    """values of the Java type that the zserio type cannot hold"""
    def fn(e):
        v = h.vm(e)
        suffix, d, w = T[name]
        lo, hi = spec.var_range(name)
        if w:
            jw = 64 if d == "J" else 32
            x = h.jlong(e, "value") if jw == 64 else h.jint(e, "value", -(1 << (w - 1)), (1 << (w - 1)) - 1)
            if lo <= -(1 << (w - 1)) and hi >= (1 << (w - 1)) - 1:
                e.prove(True, name + ".every-value-fits")
                e.reach("end")
                return
            outs = []
            if lo > -(1 << (w - 1)):
                outs.append(x < lo)
            if hi < (1 << (w - 1)) - 1:
                outs.append(x > hi)
            e.assume(z3.Or(*outs))
            arg = x
        else:
            x = e.bv("value", -(1 << 80), 1 << 80)
            e.assume(core.Or(x < lo, x > hi))
            arg = JBig(x)
        ex, _ = run(e, v, lambda: v.invoke(BS, "getBitSizeOf" + suffix, "(%s)I" % d, [arg]), "getBitSizeOf" + suffix, (ZE,))
        e.prove(ex is not None, "getBitSizeOf%s.out-of-range-rejected" % suffix)
        gw = GhostWriter(e, v)
        ex, _ = run(e, v, lambda: v.vcall(gw.w, "write" + suffix, "(%s)V" % d, arg), "write" + suffix, (IOE, ZE))
        e.prove(ex is not None, "write%s.out-of-range-rejected" % suffix)
        e.prove(not gw.bits, "write%s.rejected-writes-nothing" % suffix)
        e.reach("end")
    return fn


def read_case(name, length):
    def fn(e):
        v = h.vm(e)
        suffix, d, w = T[name]
        last = length == spec.VAR[name][1]
        bits = h.inp(e, "bits", z3.BitVec("bits", 8 * length))
        conds, sign, mag = spec.z_fields(name, length, bits)
        desc = "()" + d
        nm = "read" + suffix
        if e.choose(2) == 0:
            e.assume(conds)
            gr = GhostReader(e, v, z3.Concat(bits, z3.BitVec("beyond", 80)))
            ex, r = run(e, v, lambda: v.vcall(gr.r, nm, desc), nm, (IOE,))
            m = z3.ZeroExt(80 - mag.size(), mag)
            if ex:
                e.prove(name == "varsize" and last, nm + ".no-exception")
                e.prove(z3.UGT(m, spec.VARSIZE_MAX), nm + ".rejects-only-beyond-max")
                return
            if name == "varsize":
                e.prove(z3.ULE(m, spec.VARSIZE_MAX), nm + ".beyond-max-rejected")
            e.prove(gr.pos == 8 * length, nm + ".bytes-consumed")
            want = -m if sign is not None and e.branch(z3.simplify(sign)) else m
            odd = z3.BoolVal(False)
            if name == "varint":
                if length == 1:
                    want = z3.If(z3.And(sign, mag == 0), z3.BitVecVal(spec.INT64_MIN, 80), want)
                else:
                    odd = z3.And(sign, mag == 0)       # no writer produces it
            if w:
                jw = 64 if d == "J" else 32
                e.prove(z3.Or(odd, bv(r, jw) == z3.Extract(jw - 1, 0, want)), nm + ".value")
                e.prove(z3.Or(odd, z3.SignExt(80 - jw, z3.Extract(jw - 1, 0, want)) == want), nm + ".value-fits")
            else:
                e.prove(core.eq(r.v, core.from_ubits(mag)), nm + ".value")
        else:
            # the data ends inside the last byte
            for i in range(length - 1):
                cpos = 8 * length - 8 * i - (2 if spec.VAR[name][0] and i == 0 else 1)
                e.assume(z3.Extract(cpos, cpos, bits) == 1)
            gr = GhostReader(e, v, bits, limit=8 * (length - 1) + e.choose(8))
            ex, _ = run(e, v, lambda: v.vcall(gr.r, nm, desc), nm, (IOE,))
            e.prove(ex is not None, nm + ".truncated-rejected")
        e.reach("end")
    return fn


def roundtrip_lemma(name):
    """decode(encode(v)) = v; no proper prefix of an encoding is one (lemma over the layout both contracts use)"""
    def fn(e):
        length = 1 + e.choose(spec.VAR[name][1])
        mag = z3.BitVec("mag", spec.mag_bits(name, length))
        neg = z3.Bool("neg") if spec.VAR[name][0] else z3.BoolVal(False)
        bits = spec.z_encode(name, length, mag, neg)
        for l2 in range(1, length + 1):
            conds, sign, m2 = spec.z_fields(name, l2, z3.Extract(8 * length - 1, 8 * (length - l2), bits))
            if l2 < length:
                e.prove(z3.Not(conds), "lemma.prefix-free")
            else:
                e.prove(z3.And(conds, m2 == mag), "lemma.magnitude")
                if sign is not None:
                    e.prove(sign == neg, "lemma.sign")
        e.reach("end")
    return fn


def cases(tier):
    out = [Case("int64-min", int64_min)]
    for name in T:
        n = spec.VAR[name][1]
        for length in range(1, n + 1):
            out.append(Case("write:%s:%d" % (name, length), write_case(name, length), limit_s=600))
            out.append(Case("read:%s:%d" % (name, length), read_case(name, length), limit_s=600))
        out.append(Case("reject:%s" % name, reject_case(name), limit_s=600))
        out.append(Case("lemma:%s" % name, roundtrip_lemma(name), limit_s=600))
    return out


def search(seed, budget, hints):
    return h.search("JSearch", "J02", seed, budget, hints)
