"""C02  variable-length integers of the C++ runtime."""
import random
import time
import z3
from dv import core, spec, cxharness as h
from dv.cxharness import Reader, Writer, GhostReader, run, same, atom, take, window, norm, bv
from dv.runner import Case

# name -> (method suffix, bits of the C++ type)
T = {"varint16": ("VarInt16", 16), "varint32": ("VarInt32", 32), "varint64": ("VarInt64", 64), "varint": ("VarInt", 64),
     "varuint16": ("VarUInt16", 16), "varuint32": ("VarUInt32", 32), "varuint64": ("VarUInt64", 64), "varuint": ("VarUInt", 64), "varsize": ("VarSize", 32)}
TECHNIQUE = "deductive: contracts on the real C++ functions, obligations generated by symbolic execution of their LLVM IR (clang -O0 of the current source), discharged by z3"
FUNCTIONS = ["bitSizeOf" + a for a, _b in T.values()] + ["BitStreamWriter::write" + a for a, _b in T.values()] + ["BitStreamReader::read" + a for a, _b in T.values()] + \
    ["bitSizeOfVarIntImpl, convertToAbsValue, BitStreamWriter::writeVarNum, writeSignedVarNum, writeUnsignedVarNum, writeUnsignedBits, checkCapacity (inlined)"]
TRUSTED = h.TRUSTED + ["dv/spec.py: documented byte layout of the nine types"]
ASSUMPTIONS = ["the contract of readBitsImpl (discharged by check C01)", "byte positions and buffer sizes below 2^57", "ZSERIO_RUNTIME_64BIT (the 32-bit variants of the functions are not compiled on this machine)"]
NOTE = "every length of every type, every sign, all values of the C++ parameter type, every bit offset and every byte position of the writer"
prepare = h.prepare
SEARCH_S = 10
CAP = ("InsufficientCapacityException", "CppRuntimeException")


def write_case(name, length):
    def fn(e):
        v = h.vm(e)
        signed = spec.VAR[name][0]
        neg = bool(e.pick(2)) if signed else False
        suffix, w = T[name]
        m = h.inp(e, "magnitude", 80)
        lo = 0 if length == 1 else spec.mag_max(name, length - 1) + 1
        e.assume(z3.And(z3.UGE(m, lo), z3.ULE(m, spec.mag_max(name, length))))
        if neg:
            e.inputs["negative"] = z3.BitVecVal(1, 8)
        x = z3.Extract(w - 1, 0, m)
        x = -x if neg else x
        _ex, n = run(e, lambda: v.call("h_size" + suffix, x), "bitSizeOf" + suffix)
        e.prove(_ex is None, "bitSizeOf%s.accepted" % suffix)
        if _ex is None:
            e.prove(same(n, 8 * length), "bitSizeOf%s.shortest" % suffix)
        r = e.pick(8)
        mode = e.pick(2)
        if mode == 0:
            wr = Writer(e, v, r, 8 * length, 0)
            ex, _x = run(e, lambda: wr.call("h_write" + suffix, x), "write" + suffix)
            e.prove(ex is None, "write%s.accepted" % suffix)
            if ex is None:
                nz = z3.And(z3.BoolVal(neg), m != 0)
                wr.expect(spec.z_encode(name, length, z3.Extract(spec.mag_bits(name, length) - 1, 0, m), nz), "write" + suffix)
        else:
            # the buffer ends earlier
            room = e.pick(8 * length)
            wr = Writer(e, v, r, room)
            ex, _x = run(e, lambda: wr.call("h_write" + suffix, x), "write" + suffix, CAP)
            e.prove(ex is not None, "write%s.beyond-the-end-rejected" % suffix)
            keep = r + room
            for i in range((r + 8 * length + 7) // 8):
                lo = max(0, min(8, keep - 8 * i))
                if lo < 8 and (wr.q + i).key() in wr.buf.o.log:
                    e.prove(same(norm(z3.Extract(7 - lo, 0, bv(wr.buf.o.get(wr.q + i), 8))), norm(z3.Extract(7 - lo, 0, wr.buf.o.first(wr.q + i)))), "write%s.nothing-behind-the-end" % suffix)
            wr.others("write" + suffix, range((r + 8 * length + 7) // 8))
        e.reach("end")
    return fn


def int64_min(e):
    v = h.vm(e)
    x = 1 << 63
    _ex, n = run(e, lambda: v.call("h_sizeVarInt", x), "bitSizeOfVarInt")
    e.prove(_ex is None and same(n, 8), "bitSizeOfVarInt.int64-min")
    wr = Writer(e, v, e.pick(8), 8, 0)
    ex, _x = run(e, lambda: wr.call("h_writeVarInt", x), "writeVarInt")
    e.prove(ex is None, "writeVarInt.accepted")
    wr.expect(z3.BitVecVal(0x80, 8), "writeVarInt.int64-min")
    e.reach("end")


def reject_case(name):
    """values of the C++ type that the zserio type cannot hold"""
    def fn(e):
        v = h.vm(e)
        suffix, w = T[name]
        signed = spec.VAR[name][0]
        lo, hi = spec.var_range(name)
        tlo, thi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        x = h.inp(e, "value", w, signed)
        outs = []
        if lo > tlo:
            outs.append(x < lo)
        if hi < thi:
            outs.append(x > hi if signed else z3.UGT(x, hi))
        if not outs:
            e.prove(True, name + ".every-value-fits")
            e.reach("end")
            return
        e.assume(z3.Or(*outs))
        ex, _x = run(e, lambda: v.call("h_size" + suffix, x), "bitSizeOf" + suffix)
        e.prove(ex is not None, "bitSizeOf%s.out-of-range-rejected" % suffix)
        wr = Writer(e, v, e.pick(8), 200, 0)
        ex, _x = run(e, lambda: wr.call("h_write" + suffix, x), "write" + suffix)
        e.prove(ex is not None, "write%s.out-of-range-rejected" % suffix)
        e.prove(not wr.buf.o.log, "write%s.rejected-writes-nothing" % suffix)
        e.prove(same(wr.call("h_writer_get"), wr.P), "write%s.rejected-stays" % suffix)
        e.reach("end")
    return fn


def check_value(e, name, length, bits, ex, x):
    """the outcome of reading an encoding of the given length"""
    suffix, w = T[name]
    nm = "read" + suffix
    last = length == spec.VAR[name][1]
    _conds, sign, mag = spec.z_fields(name, length, bits)
    m = z3.ZeroExt(80 - mag.size(), mag)
    if ex:
        e.prove(name == "varsize" and last, nm + ".no-exception")
        e.prove(z3.UGT(m, spec.VARSIZE_MAX), nm + ".rejects-only-beyond-max")
        return False
    if name == "varsize":
        e.prove(z3.ULE(m, spec.VARSIZE_MAX), nm + ".beyond-max-rejected")
    want = -m if sign is not None and e.branch(z3.simplify(sign)) else m
    odd = z3.BoolVal(False)
    if name == "varint":
        if length == 1:
            want = z3.If(z3.And(sign, mag == 0), z3.BitVecVal(spec.INT64_MIN, 80), want)
        else:
            odd = z3.And(sign, mag == 0)       # no writer produces it
    e.prove(z3.Or(odd, bv(x, w) == z3.Extract(w - 1, 0, want)), nm + ".value")
    ext = z3.SignExt if spec.VAR[name][0] else z3.ZeroExt
    e.prove(z3.Or(odd, ext(80 - w, z3.Extract(w - 1, 0, want)) == want), nm + ".value-fits")
    return True


def continuation(e, name, length, bits):
    for i in range(length - 1):
        cpos = 8 * length - 8 * i - (2 if spec.VAR[name][0] and i == 0 else 1)
        e.assume(z3.Extract(cpos, cpos, bits) == 1)


def read_case(name, length):
    def fn(e):
        suffix, _w = T[name]
        nm = "read" + suffix
        bits = h.inp(e, "bits", 8 * length)
        if e.pick(2) == 0:
            e.assume(spec.z_fields(name, length, bits)[0])
            gr = GhostReader(e, z3.Concat(bits, z3.BitVec("beyond", 80)))
            ex, x = run(e, lambda: gr.call("h_" + nm), nm)
            gr.untouched(nm)
            if check_value(e, name, length, bits, ex, x):
                e.prove(gr.pos == 8 * length, nm + ".bytes-consumed")
            elif ex:
                return
        else:
            # the data ends inside the last byte
            continuation(e, name, length, bits)
            gr = GhostReader(e, bits, limit=8 * (length - 1) + e.pick(8))
            ex, _x = run(e, lambda: gr.call("h_" + nm), nm)
            gr.untouched(nm)
            e.prove(ex is not None, nm + ".truncated-rejected")
        e.reach("end")
    return fn


def read_inline(name, length):
    """without the contract of readBitsImpl: from every cache state, away from the end of the buffer"""
    def fn(e):
        suffix, _w = T[name]
        nm = "read" + suffix
        v = h.vm(e)
        k = e.pick(65)
        parts = h.stale(e, v)
        q = atom(e, "q")
        r = Reader(e, v, q, None)
        r.restore(h.canonical(r, q, k, parts))
        n = 8 * length
        bits = take(window(r.buf, q, k + n), k, n)
        e.assume(spec.z_fields(name, length, bits)[0])
        ex, x = run(e, lambda: r.call("h_" + nm), nm)
        if check_value(e, name, length, bits, ex, x):
            e.prove(same(r.call("h_reader_get"), q * 8 + k + n), nm + ".bytes-consumed")
        elif ex:
            return
        e.reach("end")
    return fn


def roundtrip_lemma(name):
    """decode(encode(v)) = v; no proper prefix of an encoding is one (lemma over the layout both contracts use)"""
    def fn(e):
        length = 1 + e.pick(spec.VAR[name][1])
        mag = z3.BitVec("mag", spec.mag_bits(name, length))
        neg = z3.Bool("neg") if spec.VAR[name][0] else z3.BoolVal(False)
        bits = spec.z_encode(name, length, mag, neg)
        for l2 in range(1, length + 1):
            conds, sign, m2 = spec.z_fields(name, l2, z3.Extract(8 * length - 1, 8 * (length - l2), bits))
            if l2 < length:
                e.prove(z3.Not(conds), name + ".lemma.prefix-free")
            else:
                e.prove(conds, name + ".lemma.length")
                e.prove(m2 == mag, name + ".lemma.magnitude")
                if sign is not None:
                    e.prove(sign == neg, name + ".lemma.sign")
        e.reach("end")
    return fn


BOUNDED = []


def cases(tier):
    cs = []
    rd = read_case
    if not h.read_impl():
        rd = read_inline
        BOUNDED.append("readers of all nine types: the internal function readBitsImpl was not found, checked inline without the cases near the end of the buffer")
    for name, (_s, n) in spec.VAR.items():
        for length in range(1, n + 1):
            cs += [Case("write-%s-%d" % (name, length), write_case(name, length), limit_s=600), Case("read-%s-%d" % (name, length), rd(name, length), limit_s=600)]
        cs += [Case("reject-" + name, reject_case(name)), Case("lemma-" + name, roundtrip_lemma(name))]
    cs.append(Case("varint-int64-min", int64_min))
    return cs


# ---------------------------------------------------------------- concrete search on the compiled runtime
def search(seed, budget, hints):
    rng = random.Random(seed)
    d = h.Driver()
    end = time.time() + budget
    count = 0
    fail = None

    def one(name, x, pos, cut):
        nonlocal count, fail
        suffix, w = T[name]
        signed = spec.VAR[name][0]
        tlo, thi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if not tlo <= x <= thi or fail:
            return
        enc = spec.var_encode(name, x)
        want = "EXC" if enc is None else str(8 * len(enc))
        got = d.ask("call", "size" + suffix, x)
        count += 1
        if got != want:
            fail = dict(request="bitSizeOf%s(%d)" % (suffix, x), got=got, expected=want)
            return
        size = 11
        buf = "5a" * size
        bits = 8 * size if not cut else pos + cut
        s = "01011010" * size
        if enc is not None and pos + 8 * len(enc) <= bits:
            t = s[:pos] + "".join("{:08b}".format(b) for b in enc) + s[pos + 8 * len(enc):]
            want = "%s %d" % (bytes(int(t[i:i + 8], 2) for i in range(0, len(t), 8)).hex(), pos + 8 * len(enc))
        else:
            want = "EXC"
        got = d.ask("write", "write" + suffix, buf, bits, pos, x)
        count += 1
        if got != want:
            fail = dict(request="write%s(%d) at bit %d of %d" % (suffix, x, pos, bits), got=got, expected=want)

    def back(name, data, pos):
        nonlocal count, fail
        if fail:
            return
        suffix = T[name][0]
        s = "{:0{}b}".format(rng.getrandbits(pos) if pos else 0, pos)[:pos] if pos else ""
        s += "".join("{:08b}".format(b) for b in data)
        bits = len(s)
        s += "1" * (-len(s) % 8)
        r = spec.var_decode(name, data)
        want = "EXC" if r is None or r[0] == "reject" else "%d %d" % (r[0], pos + 8 * r[1])
        if name == "varint" and r and r[0] == 0 and data[0] >> 7:
            return
        got = d.ask("read", "read" + suffix, bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8)).hex() or "-", bits, pos, 0)
        count += 1
        if got != want:
            fail = dict(request="read%s at bit %d of %s (%d bits)" % (suffix, pos, s, bits), got=got, expected=want)

    for name in T:
        for x in hints.get("magnitude", []) if isinstance(hints, dict) and isinstance(hints.get("magnitude"), list) else []:
            one(name, x, 0, 0)
            one(name, -x, 0, 0)
        for x in spec.boundary_values(name):
            one(name, x, rng.randrange(8), 0)
            enc = spec.var_encode(name, x)
            if enc:
                back(name, enc, rng.randrange(9))
                back(name, enc[:-1], rng.randrange(9))
    while time.time() < end and not fail:
        name = rng.choice(list(T))
        w = T[name][1]
        x = rng.getrandbits(rng.randrange(1, w + 1)) * rng.choice([1, 1, -1])
        one(name, x, rng.randrange(8), rng.choice([0, 0, rng.randrange(1, 72)]))
        back(name, bytes(rng.choice([rng.randrange(256), 128 | rng.randrange(128), 0, 255]) for _ in range(rng.randrange(1, 11))), rng.randrange(20))
    d.close()
    return dict(failing=fail, evaluations=count)
