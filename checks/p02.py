"""P02  variable-length integers of the Python runtime."""
import z3
from dv import spec
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns

FUNCTIONS = ["BitStreamWriter.write_" + t for t in spec.VAR] + ["BitStreamReader.read_" + t for t in spec.VAR] + \
    ["bitsizeof." + "bitsizeof_" + t for t in spec.VAR] + ["bitsizeof._bitsizeof_varnum (inlined)", "BitStreamWriter._write_varnum (inlined)"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers and ropes", "z3"]
ASSUMPTIONS = ["values are Python ints"]
NOTE = "every obligation discharged for all values, all positions, all stream contents; no bound (encodings have at most 9 bytes by the format)"


def write_case(name, length):
    def fn(e):
        r = e.choose(8)
        ws = WriterState(e, r)
        signed = spec.VAR[name][0]
        lo = 0 if length == 1 else spec.mag_max(name, length - 1) + 1
        hi = spec.mag_max(name, length)
        m = e.bv("magnitude", lo, hi)
        neg = bool(e.choose(2)) if signed else False
        v = -m if neg else m
        size = getattr(ns().bitsizeof, "bitsizeof_" + name)
        _, n = guard(e, lambda: size(v), "bitsizeof_" + name)
        e.prove(eq(n, 8 * length), "bitsizeof_%s.shortest" % name)
        wr = getattr(ws.w, "write_" + name)
        guard(e, lambda: wr(v), "write_" + name)
        # zero is written without the sign
        nz = z3.And(z3.BoolVal(neg), ubits(m, 64) != 0)
        ws.expect(spec.z_encode(name, length, ubits(m, spec.mag_bits(name, length)), nz), "write_" + name)
        e.reach("end")
    return fn


def int64_min(e):
    r = e.choose(8)
    ws = WriterState(e, r)
    _, n = guard(e, lambda: ns().bitsizeof.bitsizeof_varint(spec.INT64_MIN), "bitsizeof_varint")
    e.prove(eq(n, 8), "bitsizeof_varint.int64-min")
    guard(e, lambda: ws.w.write_varint(spec.INT64_MIN), "write_varint")
    ws.expect(z3.BitVecVal(0x80, 8), "write_varint.int64-min")
    e.reach("end")


def reject_case(name):
    def fn(e):
        r = e.choose(8)
        ws = WriterState(e, r)
        v = e.int("value")
        lo, hi = spec.var_range(name)
        if e.choose(2):
            e.assume(v < lo)
        else:
            e.assume(v > hi)
        size = getattr(ns().bitsizeof, "bitsizeof_" + name)
        raised, _ = guard(e, lambda: size(v), "bitsizeof_" + name, PRE())
        e.prove(raised, "bitsizeof_%s.out-of-range-rejected" % name)
        wr = getattr(ws.w, "write_" + name)
        raised, _ = guard(e, lambda: wr(v), "write_" + name, PRE())
        e.prove(raised, "write_%s.out-of-range-rejected" % name)
        ws.check_unchanged("write_%s.rejected" % name)
        e.reach("end")
    return fn


def read_case(name, length):
    def fn(e):
        r = e.choose(8)
        rs = ReaderState(e, r)
        n = spec.VAR[name][1]
        rd = getattr(rs.rd, "read_" + name)
        nm = "read_" + name
        conds, sign, mag = spec.z_fields(name, length, rs.bits(8 * length))
        if e.choose(2) == 0:
            # complete encoding inside the stream
            e.assume(conds)
            e.assume(rs.inside(8 * length))
            raised, v = guard(e, lambda: rd(), nm, PRE())
            m = from_ubits(mag)
            if name == "varsize" and length == n and raised:
                e.prove(m > spec.VARSIZE_MAX, nm + ".rejects-only-beyond-max")
                e.prove(And(rs.rd.bitposition >= rs.pos0, rs.rd.bitposition <= rs.bitsize), nm + ".position-in-stream")
            else:
                e.prove(not raised, nm + ".no-exception")
                if name == "varsize":
                    e.prove(m <= spec.VARSIZE_MAX, nm + ".beyond-max-rejected")
                want = m if sign is None else ite(sign, -m, m)
                if name == "varint":
                    if length == 1:
                        want = ite(z3.And(sign, mag == 0), spec.INT64_MIN, want)
                    else:
                        e.assume(z3.Not(z3.And(sign, mag == 0)))
                e.prove(eq(v, want), nm + ".value")
                e.prove(eq(rs.rd.bitposition, rs.pos0 + 8 * length), nm + ".position")
        else:
            # the stream ends inside the last byte of the encoding (continuation bits of the earlier ones set)
            if length > 1:
                pre = spec.z_fields(name, length, rs.bits(8 * length))[0]
                # only the first length-1 continuation bits matter
                b = rs.bits(8 * (length - 1))
                full = [i for i in range(length - 1)]
                for i in full:
                    cpos = 8 * (length - 1) - 8 * i - (2 if spec.VAR[name][0] and i == 0 else 1)
                    e.assume(z3.Extract(cpos, cpos, b) == 1)
                e.assume(rs.inside(8 * (length - 1)))
            e.assume(Not(rs.inside(8 * length)))
            raised, _ = guard(e, lambda: rd(), nm, PRE())
            e.prove(raised, nm + ".truncated-rejected")
            e.prove(And(rs.rd.bitposition >= rs.pos0, rs.rd.bitposition <= rs.bitsize), nm + ".position-in-stream")
        e.reach("end")
    return fn


def roundtrip_lemma(name):
    """decode(encode(v)) = v and the shortest length is the only one whose continuation bits match."""
    def fn(e):
        length = 1 + e.choose(spec.VAR[name][1])
        k = spec.mag_bits(name, length)
        mag = z3.BitVec("mag", k)
        neg = z3.Bool("neg") if spec.VAR[name][0] else z3.BoolVal(False)
        bits = spec.z_encode(name, length, mag, neg)
        for l2 in range(1, length + 1):
            conds, sign, m2 = spec.z_fields(name, l2, z3.Extract(8 * length - 1, 8 * (length - l2), bits))
            if l2 < length:
                e.prove(z3.Not(conds), "lemma.prefix-free")
            else:
                e.prove(conds, "lemma.continuation")
                e.prove(m2 == mag, "lemma.magnitude")
                if sign is not None:
                    e.prove(sign == neg, "lemma.sign")
        e.reach("end")
    return fn


def prepare():
    ns()


def cases(tier):
    cs = []
    for name, (signed, n) in spec.VAR.items():
        for length in range(n, 0, -1):
            cs.append(Case("write-%s-%d" % (name, length), write_case(name, length)))
            cs.append(Case("read-%s-%d" % (name, length), read_case(name, length)))
        cs.append(Case("reject-" + name, reject_case(name)))
        cs.append(Case("lemma-" + name, roundtrip_lemma(name)))
    cs.append(Case("varint-int64-min", int64_min))
    cs.sort(key=lambda c: -int(c.name[-1]) if c.name[-1].isdigit() else 0)
    return cs


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.varints(seed, budget, hints)
