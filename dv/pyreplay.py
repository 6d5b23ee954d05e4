"""Concrete search on the unmodified Python runtime (no shims): boundary and random inputs against spec functions."""
import random
import time
from dv import pyload


class Found(Exception):
    def __init__(self, d):
        self.d = d


def literals(paths):
    """Integer literals of the current source and of simple constant expressions in it, with neighbours."""
    import ast
    out = set()
    for p in paths:
        try:
            tree = ast.parse(open(p).read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            v = None
            if isinstance(n, ast.Constant) and type(n.value) is int:
                v = n.value
            elif isinstance(n, (ast.BinOp, ast.UnaryOp)):
                try:
                    v = eval(compile(ast.Expression(n), "", "eval"), {"__builtins__": {}})
                except Exception:
                    v = None
            if type(v) is int and abs(v) < 1 << 70:
                out |= {v, v + 1, v - 1, -v}
    return sorted(out)


def hint_ints(hints):
    out = []
    for h in hints or []:
        for v in (h.get("model") or {}).values():
            if type(v) is int:
                out.append(v)
    return out


class Hang(Exception):
    pass


class Search:
    def __init__(self, seed, budget, hints=(), modules=()):
        self.rnd = random.Random(seed)
        self.end = time.time() + budget
        self.n = 0
        self.ns = pyload.load(shims=False)
        self.hints = list(hints or [])
        base = pyload.PYRT + "/zserio/"
        self.pool = hint_ints(hints) + literals([base + m + ".py" for m in modules])

    def pooled(self, rnd, lo, hi):
        """A value of [lo, hi]: from the pool of literals and counterexamples, a boundary, or random."""
        k = rnd.random()
        if k < 0.3 and self.pool:
            v = rnd.choice(self.pool)
            if lo <= v <= hi:
                return v
        if k < 0.5:
            v = rnd.choice((1, -1)) * (1 << rnd.randrange(0, max(1, (hi - lo).bit_length()))) + rnd.choice((-1, 0, 1))
            if lo <= v <= hi:
                return v
            return rnd.choice((lo, hi))
        v = rnd.randint(lo, hi)
        if rnd.random() < 0.5:
            v >>= rnd.randrange(0, max(1, (hi - lo).bit_length()))
        return min(max(v, lo), hi)

    def more(self):
        return time.time() < self.end

    def expect(self, cond, **d):
        self.n += 1
        if not cond:
            raise Found(d)


def run(fn, seed, budget, hints=(), modules=()):
    import signal
    s = Search(seed, budget, hints, modules)

    def alarm(*a):
        raise Hang()
    try:
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(int(budget * 2 + 60))
        fn(s)
        signal.alarm(0)
    except Hang:
        return dict(failing=dict(what="a call on the real code does not return", last=repr(getattr(s, "last", None))[:600]), evaluations=s.n)
    except Found as f:
        return dict(failing={k: repr(v)[:400] for k, v in f.d.items()}, evaluations=s.n)
    return dict(failing=None, evaluations=s.n)


def call(fn, *a):
    """('ok', value) or ('exc', class name)"""
    try:
        return ("ok", fn(*a))
    except Hang:
        raise
    except Exception as ex:
        return ("exc", type(ex).__name__)


def bits_of(data, nbits):
    s = "".join("{:08b}".format(b) for b in data)
    return s[:nbits], s[nbits:]


def int_bits(v, n):
    return "{:0{}b}".format(v & ((1 << n) - 1), n) if n else ""


def pack(bits):
    bits = bits + "0" * (-len(bits) % 8)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))


def fixed_width(seed, budget, hints):
    def go(s):
        W, R = s.ns.bitwriter.BitStreamWriter, s.ns.bitreader.BitStreamReader
        rnd = s.rnd

        def one(n, pre, signed, v, unchecked):
            w = W()
            # prefix written with an independent, simple method: single bits
            for ch in pre:
                w.write_bits(int(ch), 1)
            s.expect(bytes(w.byte_array) == pack(pre) and w.bitposition == len(pre), what="single-bit writes", prefix=pre, got=bytes(w.byte_array))
            name = ("write_signed_bits" if signed else "write_bits") + ("_unchecked" if unchecked else "")
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
            before = bytes(w.byte_array)
            r = call(getattr(w, name), v, n)
            if lo <= v <= hi:
                want = pack(pre + int_bits(v, n))
                s.expect(r[0] == "ok" and bytes(w.byte_array) == want and w.bitposition == len(pre) + n,
                         what=name, prefix_bits=pre, value=v, numbits=n, result=r, buffer=bytes(w.byte_array), expected=want)
                tail = "".join(rnd.choice("01") for _ in range(rnd.randrange(0, 17)))
                data = pack(pre + int_bits(v, n) + tail)
                rd = R(data, len(pre) + n + len(tail))
                rd.bitposition = len(pre)
                rname = name.replace("write", "read")
                g = call(getattr(rd, rname), n)
                s.expect(g == ("ok", v) and rd.bitposition == len(pre) + n, what=rname, data=data, position=len(pre), numbits=n, result=g, expected=v)
                cut = rnd.randrange(0, n)
                rd = R(data, len(pre) + cut)
                rd.bitposition = len(pre)
                g = call(getattr(rd, rname), n)
                s.expect(g == ("exc", "PythonRuntimeException") and rd.bitposition == len(pre), what=rname + " past end", data=data, bitsize=len(pre) + cut, position=len(pre), numbits=n, result=g)
            else:
                s.expect(r == ("exc", "PythonRuntimeException") and bytes(w.byte_array) == before and w.bitposition == len(pre),
                         what=name + " out of range", prefix_bits=pre, value=v, numbits=n, result=r, buffer=bytes(w.byte_array))
        for bad in (0, -1, 65, 66, 1000):
            for f in ("write_bits", "write_signed_bits"):
                w = W()
                w.write_bits(5, 3)
                g = call(getattr(w, f), 0, bad)
                s.expect(g == ("exc", "PythonRuntimeException") and w.bitposition == 3, what=f + " bad width", numbits=bad, result=g)
            for f in ("read_bits", "read_signed_bits"):
                rd = R(b"\xff" * 200)
                g = call(getattr(rd, f), bad)
                s.expect(g == ("exc", "PythonRuntimeException") and rd.bitposition == 0, what=f + " bad width", numbits=bad, result=g)
        first = True
        while s.more() or first:
            for n in range(1, 65):
                for r in range(8):
                    pre = "".join(rnd.choice("01") for _ in range(r + 8 * rnd.randrange(0, 3)))
                    signed = rnd.random() < 0.5
                    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
                    for v in [lo, hi, lo - 1, hi + 1, s.pooled(rnd, lo, hi), s.pooled(rnd, lo, hi), s.pooled(rnd, -(1 << 65), 1 << 65)]:
                        one(n, pre, signed, v, rnd.random() < 0.5)
                if not first and not s.more():
                    return
            for b in (True, False):
                for r in range(8):
                    w = W()
                    for _ in range(r):
                        w.write_bits(1, 1)
                    w.write_bool(b)
                    want = pack("1" * r + ("1" if b else "0"))
                    s.expect(bytes(w.byte_array) == want, what="write_bool", value=b, position=r, got=bytes(w.byte_array))
                    rd = R(want, r + 1)
                    rd.bitposition = r
                    g = call(rd.read_bool)
                    s.expect(g == ("ok", b) and rd.bitposition == r + 1, what="read_bool", value=b, position=r, got=g)
                    g = call(rd.read_bool)
                    s.expect(g == ("exc", "PythonRuntimeException"), what="read_bool past end", got=g)
            first = False
    return run(go, seed, budget, hints, ("bitwriter", "bitreader"))


def varints(seed, budget, hints):
    from dv import spec

    def go(s):
        W, R = s.ns.bitwriter.BitStreamWriter, s.ns.bitreader.BitStreamReader
        rnd = s.rnd

        def writer(pre):
            w = W()
            for ch in pre:
                w.write_bits(int(ch), 1)
            return w

        def value(name, v):
            pre = "".join(rnd.choice("01") for _ in range(rnd.randrange(0, 20)))
            want = spec.var_encode(name, v)
            sz = call(getattr(s.ns.bitsizeof, "bitsizeof_" + name), v)
            w = writer(pre)
            before = bytes(w.byte_array)
            r = call(getattr(w, "write_" + name), v)
            if want is None:
                s.expect(sz == ("exc", "PythonRuntimeException"), what="bitsizeof_" + name + " out of range", value=v, result=sz)
                s.expect(r == ("exc", "PythonRuntimeException") and bytes(w.byte_array) == before and w.bitposition == len(pre),
                         what="write_" + name + " out of range", value=v, result=r)
                return
            s.expect(sz == ("ok", 8 * len(want)), what="bitsizeof_" + name, value=v, result=sz, expected=8 * len(want))
            wb = "".join("{:08b}".format(b) for b in want)
            s.expect(r[0] == "ok" and bytes(w.byte_array) == pack(pre + wb) and w.bitposition == len(pre) + len(wb),
                     what="write_" + name, value=v, prefix_bits=pre, result=r, buffer=bytes(w.byte_array), expected=pack(pre + wb))
            tail = "".join(rnd.choice("01") for _ in range(rnd.randrange(0, 20)))
            rd = R(pack(pre + wb + tail), len(pre + wb + tail))
            rd.bitposition = len(pre)
            g = call(getattr(rd, "read_" + name))
            s.expect(g == ("ok", v) and rd.bitposition == len(pre + wb), what="read_" + name, data=want, result=g, expected=v)
            cut = rnd.randrange(0, len(wb))
            rd = R(pack(pre + wb), len(pre) + cut)
            rd.bitposition = len(pre)
            g = call(getattr(rd, "read_" + name))
            s.expect(g == ("exc", "PythonRuntimeException") and rd.bitposition <= len(pre) + cut, what="read_" + name + " truncated", data=want, bits=cut, result=g)

        def arbitrary(name):
            n = spec.VAR[name][1]
            data = bytes(rnd.choice((0xff, 0x80, 0xc0, 0x7f, 0x00, rnd.randrange(256))) for _ in range(n + 2))
            pre = "".join(rnd.choice("01") for _ in range(rnd.randrange(0, 20)))
            want = spec.var_decode(name, data)
            if name == "varint" and want[0] == 0 and want[1] > 1:
                return
            rd = R(pack(pre + "".join("{:08b}".format(b) for b in data)), len(pre) + 8 * len(data))
            rd.bitposition = len(pre)
            g = call(getattr(rd, "read_" + name))
            if want[0] == "reject":
                s.expect(g == ("exc", "PythonRuntimeException"), what="read_" + name + " beyond maximum", data=data, result=g)
            else:
                s.expect(g == ("ok", want[0]) and rd.bitposition == len(pre) + 8 * want[1], what="read_" + name, data=data, result=g, expected=want)
        first = True
        while first or s.more():
            for name in spec.VAR:
                for v in spec.boundary_values(name):
                    value(name, v)
                lo, hi = spec.var_range(name)
                for _ in range(100):
                    v = s.pooled(rnd, lo, hi)
                    value(name, v)
                    arbitrary(name)
            first = False
    return run(go, seed, budget, hints, ("bitwriter", "bitreader", "bitsizeof"))


def single_patterns(rnd, pool=()):
    """Interesting single-precision patterns."""
    k = rnd.random()
    if k < 0.15 and pool:
        v = rnd.choice(pool)
        if 0 <= v < 1 << 32:
            return v
    ex = rnd.choice([0, 1, 255, 254, 102, 103, 104, 112, 113, 114, 141, 142, 143, 144, 145, rnd.randrange(256), rnd.randrange(100, 146), rnd.randrange(100, 146)])
    m = rnd.choice([0, 1, 0x7fffff, 0x1000, 0xfff, 0x1001, 0x7ff000, 0x7fefff, 0x2000, 0x400000, rnd.randrange(1 << 23), rnd.randrange(1 << 10) << 13,
                    (rnd.randrange(1 << 10) << 13) | 0x1000, 1 << rnd.randrange(23), (1 << rnd.randrange(1, 24)) - 1])
    return rnd.randrange(2) << 31 | ex << 23 | m


def floats(seed, budget, hints):
    import math
    import struct
    from dv import spec

    def go(s):
        m = s.ns.float
        rnd = s.rnd
        for h in range(1 << 16):
            want = spec.half_value(h)
            g = call(m.uint16_to_float, h)
            ok = g[0] == "ok" and (math.isnan(g[1]) if math.isnan(want) else struct.pack(">d", g[1]) == struct.pack(">d", want))
            s.expect(ok, what="uint16_to_float", pattern=hex(h), result=g, expected=want)
            b = call(m.float_to_uint16, g[1])
            ok = b[0] == "ok" and ((b[1] & 0x7c00 == 0x7c00 and b[1] & 0x3ff and 0 <= b[1] < 1 << 16) if math.isnan(want) else b[1] == h)
            s.expect(ok, what="half round trip", pattern=hex(h), result=b)
        first = True
        while first or s.more():
            for _ in range(2000):
                b = single_patterns(rnd, s.pool)
                f = struct.unpack(">f", struct.pack(">I", b))[0]
                want = spec.single_to_half_bits(b)
                g = call(m.float_to_uint16, f)
                ok = g[0] == "ok" and ((g[1] & 0x7c00 == 0x7c00 and g[1] & 0x3ff and 0 <= g[1] < 1 << 16) if want is None else g[1] == want)
                s.expect(ok, what="float_to_uint16", value=f, single_pattern=hex(b), result=g, expected=want)
                g = call(m.uint32_to_float, b)
                ok = g[0] == "ok" and (math.isnan(f) and math.isnan(g[1]) or struct.pack(">f", g[1]) == struct.pack(">f", f))
                s.expect(ok, what="uint32_to_float", pattern=hex(b), result=g)
                if not math.isnan(f):
                    s.expect(call(m.float_to_uint32, f) == ("ok", b), what="float_to_uint32", value=f)
                d = rnd.getrandbits(64) if rnd.random() < 0.7 else rnd.getrandbits(1) << 63 | rnd.choice([0, 1, 2046, 2047, rnd.randrange(2048)]) << 52 | rnd.choice([0, 1, (1 << 52) - 1, 1 << 51])
                x = struct.unpack(">d", struct.pack(">Q", d))[0]
                g = call(m.uint64_to_float, d)
                s.expect(g[0] == "ok" and (math.isnan(x) and math.isnan(g[1]) or struct.pack(">d", g[1]) == struct.pack(">d", x)), what="uint64_to_float", pattern=hex(d), result=g)
                s.expect(call(m.float_to_uint64, x) == ("ok", d), what="float_to_uint64", value=x, pattern=hex(d))
                for n, p in ((16, want), (32, b), (64, d)):
                    if p is None or (n == 32 and math.isnan(f)):
                        continue
                    w = s.ns.bitwriter.BitStreamWriter()
                    k = rnd.randrange(0, 9)
                    for _ in range(k):
                        w.write_bits(1, 1)
                    val = f if n < 64 else x
                    r = call(getattr(w, "write_float%d" % n), val)
                    want_b = pack("1" * k + int_bits(p, n))
                    s.expect(r[0] == "ok" and bytes(w.byte_array) == want_b and w.bitposition == k + n, what="write_float%d" % n, value=val, position=k, buffer=bytes(w.byte_array), expected=want_b)
                    rd = s.ns.bitreader.BitStreamReader(want_b, k + n)
                    rd.bitposition = k
                    g = call(getattr(rd, "read_float%d" % n))
                    v2 = spec.half_value(p) if n == 16 else val
                    s.expect(g[0] == "ok" and (g[1] == v2 or v2 != v2 and g[1] != g[1]) and rd.bitposition == k + n, what="read_float%d" % n, data=want_b, position=k, result=g, expected=v2)
            first = False
    return run(go, seed, budget, hints, ("float",))


def alignment(seed, budget, hints):
    def go(s):
        bp = s.ns.bitposition
        rnd = s.rnd
        first = True
        while first or s.more():
            for _ in range(3000):
                a = max(1, s.pooled(rnd, 1, 1 << rnd.choice((3, 4, 6, 10, 40))))
                x = s.pooled(rnd, 0, 1 << rnd.choice((3, 6, 10, 40, 66)))
                if rnd.random() < 0.3:
                    x = max(0, a * rnd.randrange(0, 50) + rnd.choice((-1, 0, 1)))
                want = -(-x // a) * a
                g = call(bp.alignto, a, x)
                s.expect(g == ("ok", want), what="alignto", alignment=a, position=x, result=g, expected=want)
                g = call(bp.bits_to_bytes, x)
                s.expect(g == (("ok", x // 8) if x % 8 == 0 else ("exc", "PythonRuntimeException")), what="bits_to_bytes", bits=x, result=g)
                g = call(bp.bytes_to_bits, x)
                s.expect(g == ("ok", 8 * x), what="bytes_to_bits", value=x, result=g)
                g = call(bp.bitsize_to_bytesize, x)
                s.expect(g == ("ok", -(-x // 8)), what="bitsize_to_bytesize", value=x, result=g)
            for _ in range(600):
                a = rnd.choice((1, 2, 3, 4, 7, 8, 16, 24, 32, 33, 64, 100, 128, 1000, rnd.randrange(1, 300)))
                if s.pool and rnd.random() < 0.2:
                    a = min(max(1, abs(rnd.choice(s.pool))), 5000)
                pos = rnd.randrange(0, 260)
                bits = "".join(rnd.choice("01") for _ in range(pos))
                w = s.ns.bitwriter.BitStreamWriter()
                for ch in bits:
                    w.write_bits(int(ch), 1)
                want = -(-pos // a) * a
                r = call(w.alignto, a)
                wb = pack(bits + "0" * (want - pos))
                s.expect(r[0] == "ok" and w.bitposition == want and bytes(w.byte_array) == wb, what="writer.alignto", alignment=a, prefix_bits=bits, result=r, position=w.bitposition, buffer=bytes(w.byte_array))
                n = rnd.randrange(pos, pos + 2 * a + 9)
                rd = s.ns.bitreader.BitStreamReader(bytes(rnd.randrange(256) for _ in range((n + 7) // 8)), n)
                rd.bitposition = pos
                r = call(rd.alignto, a)
                if want <= n:
                    s.expect(r[0] == "ok" and rd.bitposition == want, what="reader.alignto", alignment=a, position=pos, bitsize=n, result=r, got=rd.bitposition)
                else:
                    s.expect(r == ("exc", "PythonRuntimeException") and rd.bitposition == pos, what="reader.alignto past end", alignment=a, position=pos, bitsize=n, result=r, got=rd.bitposition)
            first = False
    return run(go, seed, budget, hints, ("bitposition", "bitwriter", "bitreader"))


def builtins_(seed, budget, hints):
    from dv import spec

    def go(s):
        bf, b, L = s.ns.bitfield, s.ns.builtin, s.ns.limits
        rnd = s.rnd
        for n in list(range(-70, 200)) + s.pool:
            fs = [(bf.bitfield_lowerbound, lambda n: 0), (bf.bitfield_upperbound, lambda n: 2 ** n - 1),
                  (bf.signed_bitfield_lowerbound, lambda n: -2 ** (n - 1)), (bf.signed_bitfield_upperbound, lambda n: 2 ** (n - 1) - 1)]
            for f, w in fs:
                want = ("ok", w(n)) if 1 <= n <= 64 else ("exc", "PythonRuntimeException")
                s.expect(call(f, n) == want, what=f.__name__, length=n, result=call(f, n), expected=want)
        for n in (8, 16, 32, 64):
            for nm, want in (("INT%d_MIN", -2 ** (n - 1)), ("INT%d_MAX", 2 ** (n - 1) - 1), ("UINT%d_MIN", 0), ("UINT%d_MAX", 2 ** n - 1)):
                s.expect(getattr(L, nm % n) == want, what=nm % n, got=getattr(L, nm % n), expected=want)
        for name in spec.VAR:
            lo, hi = spec.var_range(name)
            s.expect((getattr(L, name.upper() + "_MIN"), getattr(L, name.upper() + "_MAX")) == (lo, hi), what="limits of " + name,
                     got=(getattr(L, name.upper() + "_MIN"), getattr(L, name.upper() + "_MAX")))
        first = True
        while first or s.more():
            for _ in range(3000):
                n = s.pooled(rnd, 0, 1 << 64)
                want = n if n < 2 else (n - 1).bit_length()
                k = want
                assert 2 ** k >= n
                s.expect(call(b.numbits, n) == ("ok", want), what="numbits", count=n, result=call(b.numbits, n), expected=want)
                v, m = s.pooled(rnd, 0, 2 ** 64 - 1), s.pooled(rnd, 0, 2 ** 64 - 1)
                if rnd.random() < 0.5:
                    m &= v
                s.expect(call(b.isset, v, m) == ("ok", v | m == v), what="isset", value=v, mask=m, result=call(b.isset, v, m))
                t = "".join(chr(rnd.choice((rnd.randrange(0x20, 0x7f), rnd.randrange(0x80, 0xd800), rnd.randrange(0xe000, 0x110000), 0, 0x7f, 0x7ff, 0x800, 0xffff))) for _ in range(rnd.randrange(0, 12)))
                want = sum(1 if ord(c) < 0x80 else 2 if ord(c) < 0x800 else 3 if ord(c) < 0x10000 else 4 for c in t)
                s.expect(call(b.lengthof_string, t) == ("ok", want), what="lengthof_string", string=t, result=call(b.lengthof_string, t), expected=want)
            first = False
    return run(go, seed, budget, hints, ("bitfield", "builtin", "limits"))


def hash_ref(items, seed):
    for x in items:
        seed = (37 * seed + x) & 0xffffffff
    return seed


def hashcodes(seed, budget, hints):
    import struct

    def go(s):
        h = s.ns.hashcode
        rnd = s.rnd

        def f32(x):
            return struct.unpack(">I", struct.pack(">f", x))[0]

        def f64(x):
            v = struct.unpack(">Q", struct.pack(">d", x))[0]
            return (v & 0xffffffff) ^ (v >> 32)

        def fl(v):
            return (v & 0xffffffff) ^ ((v >> 32) & 0xffffffff)

        class O:
            def __init__(self, v):
                self.v = v

            def __hash__(self):
                return self.v
        rs = lambda: "".join(chr(rnd.choice((rnd.randrange(0x20, 0x7f), rnd.randrange(0x80, 0xd800), rnd.randrange(0x10000, 0x110000)))) for _ in range(rnd.choice((0, 1, 2, 5, 40))))
        rb = lambda: bytearray(rnd.randrange(256) for _ in range(rnd.choice((0, 1, 2, 3, 4, 7, 8, 9, 31, 100, 300))))
        rf = lambda: struct.unpack(">f", struct.pack(">I", rnd.getrandbits(31) % 0x7f800000))[0] * rnd.choice((1, -1))
        rd = lambda: struct.unpack(">d", struct.pack(">Q", rnd.getrandbits(63) % (2047 << 52)))[0] * rnd.choice((1, -1))
        ri = lambda: s.pooled(rnd, -(1 << 63), (1 << 64) - 1)
        first = True
        while first or s.more():
            for _ in range(300):
                sd = rnd.choice((23, 0, 1, 37, rnd.getrandbits(32), 0xffffffff))
                n = rnd.choice((0, 1, 2, 3, 5, 17, 70))
                v, b, st, f, d = ri(), rb(), rs(), rf(), rd()
                tests = [("bool", True, (37 * sd + 1)), ("bool", False, 37 * sd), ("int32", v, 37 * sd + v), ("int64", v, 37 * sd + fl(v)),
                         ("float32", f, 37 * sd + f32(f)), ("float64", d, 37 * sd + f64(d)), ("bytes", b, hash_ref(b, sd)),
                         ("string", st, hash_ref(map(ord, st), sd)), ("object", O(v), 37 * sd + O(v).v)]
                a = [rnd.random() < 0.5 for _ in range(n)]
                tests.append(("bool_array", a, hash_ref(map(int, a), sd)))
                a = [ri() for _ in range(n)]
                tests.append(("int_array", a, hash_ref(a, sd)))
                a = [rf() for _ in range(n)]
                tests.append(("float32_array", a, hash_ref(map(f32, a), sd)))
                a = [rd() for _ in range(n)]
                tests.append(("float64_array", a, hash_ref(map(f64, a), sd)))
                a = [rb() for _ in range(n % 6)]
                tests.append(("bytes_array", a, hash_ref([x for y in a for x in y], sd)))
                a = [rs() for _ in range(n % 6)]
                tests.append(("string_array", a, hash_ref([ord(x) for y in a for x in y], sd)))
                a = [O(ri()) for _ in range(n)]
                tests.append(("object_array", a, hash_ref([x.v for x in a], sd)))
                for nm, val, want in tests:
                    g = call(getattr(h, "calc_hashcode_" + nm), sd, val)
                    s.expect(g == ("ok", want & 0xffffffff), what="calc_hashcode_" + nm, seed=sd, value=val, result=g, expected=want & 0xffffffff)
                    if nm != "bool":
                        g = call(getattr(h, "calc_hashcode_" + nm), sd, None)
                        s.expect(g == ("ok", 37 * sd & 0xffffffff), what="calc_hashcode_" + nm + " of None", seed=sd, result=g)
            first = False
    return run(go, seed, budget, hints, ("hashcode",))


def bitbuffers(seed, budget, hints):
    def go(s):
        BB = s.ns.bitbuffer.BitBuffer
        rnd = s.rnd
        first = True
        while first or s.more():
            for _ in range(2000):
                n = rnd.choice((0, 1, 2, 3, 5, 9, 40, 300))
                data = bytes(rnd.randrange(256) for _ in range(n))
                bs = rnd.randrange(max(0, 8 * n - 20), 8 * n + 1)
                bits = "".join("{:08b}".format(b) for b in data)[:bs]
                # same used bits, different rest
                tail = "".join(rnd.choice("01") for _ in range(rnd.randrange(0, 30)))
                other = bits + tail
                other += "".join(rnd.choice("01") for _ in range(-len(other) % 8))
                o = bytes(int(other[i:i + 8], 2) for i in range(0, len(other), 8))
                a, b = BB(data, bs), BB(bytearray(o) if rnd.random() < 0.5 else o, bs)
                s.expect(call(lambda: a == b) == ("ok", True), what="__eq__ of equal bit buffers", a=data, b=o, bitsize=bs)
                used = [int(x, 2) for x in [(bits + "0" * (-bs % 8))[i:i + 8] for i in range(0, bs, 8)]]
                want = hash_ref(used, 23)
                for x in (a, b):
                    g = call(type(x).__hash__, x)
                    s.expect(g == ("ok", want), what="__hash__", buffer=bytes(x.buffer), bitsize=bs, result=g, expected=want)
                if bs:
                    i = rnd.choice((0, bs - 1, rnd.randrange(bs)))
                    fl = bits[:i] + ("1" if bits[i] == "0" else "0") + bits[i + 1:]
                    c = BB(pack(fl), bs)
                    s.expect(call(lambda: a == c) == ("ok", False), what="__eq__ of buffers differing in a used bit", a=data, b=pack(fl), bitsize=bs, bit=i)
                    c = BB(data, bs - 1)
                    s.expect(call(lambda: a == c) == ("ok", False), what="__eq__ of different bit sizes", a=data, bitsize=bs)
                g = call(BB, data, 8 * n + rnd.randrange(1, 10))
                s.expect(g == ("exc", "PythonRuntimeException"), what="oversize bit buffer", data=data, result=g)
            first = False
    return run(go, seed, budget, hints, ("bitbuffer",))


def rand_text(rnd, n):
    pools = ("a", "ab~\x00", "\u00e9\u0100\u07ff", "\u0800\u20ac\uffff", "\U0001f600\U0010ffff")
    return "".join(rnd.choice(rnd.choice(pools)) for _ in range(n))


LENGTHS = (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257)
LONG = (1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 20000, 65535, 65536, 65537, 70000)


def blobs(seed, budget, hints):
    """write/read/size of bytes, strings and bit buffers against bit strings."""
    from dv import spec

    def go(s):
        W, R, BB, Z = s.ns.bitwriter.BitStreamWriter, s.ns.bitreader.BitStreamReader, s.ns.bitbuffer.BitBuffer, s.ns.bitsizeof
        rnd = s.rnd

        def one(kind, n, r):
            if kind == "string":
                v = rand_text(rnd, n)
                raw = v.encode("utf-8")
                content, ln = "".join("{:08b}".format(b) for b in raw), len(raw)
            elif kind == "bytes":
                raw = bytes(rnd.randrange(256) for _ in range(n))
                v = bytearray(raw) if rnd.random() < 0.7 else raw
                content, ln = "".join("{:08b}".format(b) for b in raw), n
            else:
                nb = (n + 7) // 8
                raw = bytes(rnd.randrange(256) for _ in range(nb + rnd.choice((0, 0, 1, 3))))
                v = BB(bytearray(raw) if rnd.random() < 0.5 else raw, n)
                content, ln = "".join("{:08b}".format(b) for b in raw)[:n], n
            pre = "".join(rnd.choice("01") for _ in range(r))
            s.last = (kind, n, r)
            w = W()
            for ch in pre:
                w.write_bits(int(ch), 1)
            head = "".join("{:08b}".format(b) for b in spec.var_encode("varsize", ln))
            want = pre + head + content
            g = call(getattr(w, "write_" + kind), v)
            if len(pre) % 8 == 0 and kind != "string" and raw is not v:
                pass
            s.expect(g[0] == "ok" and w.bitposition == len(want) and bytes(w.byte_array) == pack(want), what="write_" + kind, prefix_bits=pre, value=raw, bits=ln,
                     result=g, position=w.bitposition, expected_position=len(want), buffer=bytes(w.byte_array)[:200], expected=pack(want)[:200])
            g = call(getattr(Z, "bitsizeof_" + kind), v)
            s.expect(g == ("ok", len(head) + len(content)), what="bitsizeof_" + kind, value=raw, bits=ln, result=g, expected=len(head) + len(content))
            tail = "".join(rnd.choice("01") for _ in range(rnd.randrange(0, 20)))
            data = pack(want + tail)
            rd = R(data, len(want) + len(tail))
            rd.bitposition = len(pre)
            g = call(getattr(rd, "read_" + kind))
            ok = g[0] == "ok" and rd.bitposition == len(want)
            if ok and kind == "bitbuffer":
                ok = g[1].bitsize == n and "".join("{:08b}".format(b) for b in g[1].buffer)[:n] == content and g[1] == v
            elif ok:
                ok = g[1] == (v if kind == "string" else bytearray(raw))
            s.expect(ok, what="read_" + kind, data=data[:200], position=len(pre), result=g, end=rd.bitposition, expected=raw[:200], expected_end=len(want))
            for cut in {len(want) - 1, rnd.randrange(len(pre), len(want))} if len(want) > len(pre) else ():
                rd = R(data, cut)
                rd.bitposition = len(pre)
                g = call(getattr(rd, "read_" + kind))
                s.expect(g == ("exc", "PythonRuntimeException") and 0 <= rd.bitposition <= cut, what="read_%s of truncated stream" % kind, data=data[:200], bitsize=cut,
                         position=len(pre), result=g, end=rd.bitposition)
        for r in range(8):
            for kind in ("bytes", "string", "bitbuffer"):
                for n in LENGTHS:
                    one(kind, n, r)
        w = W()
        g = call(w.write_string, "a\ud800")
        s.expect(g[0] == "exc" and w.bitposition == 0, what="write_string of a lone surrogate", result=g, position=w.bitposition)
        for d in (b"\xff", b"\xc3", b"ab\x80", b"\xed\xa0\x80", b"x\xed\xbf\xbfy", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xe0\x80\xaf", b"\xef\xbb"):
            for r in range(8):
                bits = "1" * r + "{:08b}".format(len(d)) + "".join("{:08b}".format(b) for b in d)
                rd = R(pack(bits), len(bits))
                rd.bitposition = r
                g = call(rd.read_string)
                s.expect(g == ("exc", "UnicodeDecodeError"), what="read_string of bytes that are not UTF-8", data=d, position=r, result=g)
        # prefixes pointing past the end
        for big in (5, 100, 1 << 14, (1 << 28) - 1, (1 << 31) - 1):
            for r in range(8):
                bits = "0" * r + "".join("{:08b}".format(b) for b in spec.var_encode("varsize", big)) + "1" * 3
                for kind in ("bytes", "string", "bitbuffer"):
                    rd = R(pack(bits), len(bits))
                    rd.bitposition = r
                    g = call(getattr(rd, "read_" + kind))
                    s.expect(g == ("exc", "PythonRuntimeException") and 0 <= rd.bitposition <= len(bits), what="read_%s with length past the end" % kind, length=big, position=r, result=g)
        first = True
        while first or s.more():
            for kind in ("bytes", "string", "bitbuffer"):
                for n in rnd.sample(LONG, 3):
                    one(kind, n, rnd.randrange(8))
                if not first and not s.more():
                    return
                for _ in range(60):
                    one(kind, rnd.randrange(0, 300), rnd.randrange(0, 40))
                for _ in range(10):
                    p = [x for x in s.pool if 0 <= x < 300000]
                    if p:
                        one(kind, rnd.choice(p), rnd.randrange(0, 16))
            first = False
    return run(go, seed, budget, hints, ("bitwriter", "bitreader", "bitsizeof", "bitbuffer"))


def reader_bounds(seed, budget, hints):
    """Any read operation on any stream: inside the stream, or rejected."""
    from dv import spec

    def go(s):
        R, BB = s.ns.bitreader.BitStreamReader, s.ns.bitbuffer.BitBuffer
        rnd = s.rnd
        ops = ["read_" + x for x in list(spec.VAR) + ["float16", "float32", "float64", "bool", "bytes", "string", "bitbuffer"]]
        fixed = {"read_float16": 16, "read_float32": 32, "read_float64": 64, "read_bool": 1}
        first = True
        while first or s.more():
            for _ in range(1500):
                n = rnd.randrange(0, 14)
                data = bytes(rnd.choice((0, 0xff, 0x80, 1, 2, rnd.randrange(256), rnd.randrange(256))) for _ in range(n))
                if rnd.random() < 0.1:
                    raw = b"".join(rnd.choice((b"a", "\u20ac".encode(), b"\xed\xa0\x80", b"\xc0\x80", b"\xff", b"\xf4\x90\x80\x80", b"\xef\xbb", b"\0")) for _ in range(rnd.randrange(4)))
                    data = bytes([len(raw)]) + raw
                    n = len(data)
                size = rnd.randrange(max(0, 8 * n - 20), 8 * n + 1)
                mode = rnd.randrange(3)
                if mode == 0:
                    rd = R(data, size)
                elif mode == 1:
                    rd = R.from_bitbuffer(BB(data, size))
                else:
                    rd, size = R(data), 8 * n
                s.expect(rd.buffer_bitsize == size and rd.bitposition == 0, what="new reader", data=data, bitsize=size, got=rd.buffer_bitsize)
                if mode == 0:
                    over = 8 * n + rnd.choice((1, 2, 8, 100))
                    g = call(R, data, over)
                    s.expect(g == ("exc", "PythonRuntimeException"), what="constructor with too large bit size", data=data, bitsize=over, result=g)
                bits = "".join("{:08b}".format(b) for b in data)[:size]
                for _ in range(4):
                    pos = rnd.randrange(0, size + 1)
                    rd.bitposition = pos
                    bad = rnd.choice((-1, -8, size + 1, size + 8, -1000, 1 << 40))
                    g = call(setattr, rd, "bitposition", bad)
                    s.expect(g == ("exc", "PythonRuntimeException") and rd.bitposition == pos, what="rejected reposition", bitsize=size, position=pos, new=bad, result=g, end=rd.bitposition)
                    k = rnd.randrange(4)
                    if k == 0:
                        w = rnd.randrange(1, 65)
                        op = rnd.choice(("read_bits", "read_signed_bits", "read_bits_unchecked", "read_signed_bits_unchecked"))
                        g = call(getattr(rd, op), w)
                        if pos + w <= size:
                            v = int(bits[pos:pos + w], 2)
                            if "signed" in op and v >> (w - 1):
                                v -= 1 << w
                            s.expect(g == ("ok", v) and rd.bitposition == pos + w, what=op, data=data, bitsize=size, position=pos, numbits=w, result=g, end=rd.bitposition)
                        else:
                            s.expect(g == ("exc", "PythonRuntimeException") and rd.bitposition == pos, what=op + " past end", data=data, bitsize=size, position=pos, numbits=w, result=g, end=rd.bitposition)
                        continue
                    if k == 1:
                        a = rnd.randrange(1, 70)
                        end = -(-pos // a) * a
                        g = call(rd.alignto, a)
                        if end <= size:
                            s.expect(g[0] == "ok" and rd.bitposition == end, what="alignto", bitsize=size, position=pos, alignment=a, result=g, end=rd.bitposition)
                        else:
                            s.expect(g == ("exc", "PythonRuntimeException") and rd.bitposition == pos, what="alignto past end", bitsize=size, position=pos, alignment=a, result=g, end=rd.bitposition)
                        continue
                    op = rnd.choice(ops)
                    g = call(getattr(rd, op))
                    end = rd.bitposition
                    if op == "read_string" and (g[0] == "ok" or g[1] == "UnicodeDecodeError"):
                        enc = spec.var_decode("varsize", pack(bits[pos:]))
                        if enc is not None and type(enc[0]) is int and pos + 8 * (enc[1] + enc[0]) <= size:
                            raw = pack(bits[pos + 8 * enc[1]:pos + 8 * (enc[1] + enc[0])])
                            want = call(raw.decode, "utf-8")
                            s.expect(g == want, what="read_string", data=data, bitsize=size, position=pos, content=raw, result=g, expected=want)
                    s.expect(g[0] == "ok" or g[1] == "PythonRuntimeException" or (op == "read_string" and g[1] == "UnicodeDecodeError"),
                             what=op + " exception", data=data, bitsize=size, position=pos, result=g)
                    s.expect(pos <= end <= size, what=op + " position", data=data, bitsize=size, position=pos, result=g, end=end)
                    if op in fixed:
                        want = fixed[op]
                        if pos + want <= size:
                            s.expect(g[0] == "ok" and end == pos + want, what=op, data=data, bitsize=size, position=pos, result=g, end=end)
                        else:
                            s.expect(g[0] == "exc" and end == pos, what=op + " past end", data=data, bitsize=size, position=pos, result=g, end=end)
                        continue
                    name = op[5:] if op[5:] in spec.VAR else "varsize"
                    tail = bits[pos:]
                    enc = spec.var_decode(name, bytes(int(tail[i:i + 8], 2) for i in range(0, len(tail) // 8 * 8, 8)))
                    if enc is None or enc[0] == "reject":
                        s.expect(g == ("exc", "PythonRuntimeException"), what=op + " of truncated or bad encoding", data=data, bitsize=size, position=pos, result=g)
                        continue
                    need = 8 * enc[1]
                    if name != op[5:]:
                        need += enc[0] * (1 if op == "read_bitbuffer" else 8)
                    if pos + need > size:
                        s.expect(g == ("exc", "PythonRuntimeException"), what=op + " past end", data=data, bitsize=size, position=pos, result=g)
                    else:
                        s.expect(end == pos + need, what=op + " consumed bits", data=data, bitsize=size, position=pos, result=g, end=end, expected_end=pos + need)
                        if name == op[5:]:
                            s.expect(g == ("ok", enc[0]), what=op + " value", data=data, bitsize=size, position=pos, result=g, expected=enc[0])
            first = False
    return run(go, seed, budget, hints, ("bitreader",))


def elem_kinds(ns, rnd):
    """(traits, encode value to bit string, random value) of one randomly chosen integer element type."""
    from dv import spec
    a = ns.array
    k = rnd.randrange(11)
    if k == 0:
        n = rnd.choice((1, 2, 7, 8, 9, 31, 32, 33, 61, 62, 63, 64, rnd.randrange(1, 65)))
        return a.BitFieldArrayTraits(n), (lambda v: int_bits(v, n)), 0, (1 << n) - 1, "bit:%d" % n
    if k == 1:
        n = rnd.choice((1, 2, 7, 8, 9, 31, 32, 33, 61, 62, 63, 64, rnd.randrange(1, 65)))
        return a.SignedBitFieldArrayTraits(n), (lambda v: int_bits(v, n)), -(1 << (n - 1)), (1 << (n - 1)) - 1, "int:%d" % n
    name = ("varuint16", "varuint32", "varuint64", "varuint", "varsize", "varint16", "varint32", "varint64", "varint")[k - 2]
    t = {n.lower(): n for n in dir(a)}[name + "arraytraits"]
    lo, hi = spec.var_range(name)
    return getattr(a, t)(), (lambda v: "".join(int_bits(b, 8) for b in spec.var_encode(name, v))), lo, hi, name


def int_sequence(s, rnd, lo, hi):
    """Sequences that exercise the delta decision: small and huge deltas, ties of the two sizes, equal elements, spikes."""
    n = rnd.choice((0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 9, 12, 16, 30, 70, 129, 300))
    if n == 0:
        return []
    mode = rnd.randrange(6)
    v = s.pooled(rnd, lo, hi)
    if mode == 0:
        return [v] * n
    if mode == 1:
        return [s.pooled(rnd, lo, hi) for _ in range(n)]
    w = rnd.randrange(0, 65)
    out = [v]
    for _ in range(n - 1):
        d = rnd.choice((1, -1)) * (rnd.getrandbits(w) if w else 0)
        if mode == 3:
            d = rnd.choice((1, -1)) * ((1 << w) - rnd.randrange(2))
        if mode == 4 and rnd.random() < 0.9:
            d = rnd.choice((0, 1, -1))
        nv = out[-1] + d
        if not lo <= nv <= hi:
            nv = out[-1] - d
        out.append(nv if lo <= nv <= hi else rnd.choice((lo, hi, v)))
    if mode == 5:
        out[rnd.randrange(n)] = rnd.choice((lo, hi))
    return out


def packed_bits(seq, enc, pre="", aligned=False, auto=False, packed=True):
    """The bit string of a (packed) array after the bits pre, with the positions of its elements."""
    from dv import spec
    bits, pos = pre, []
    if auto:
        bits += "".join(int_bits(b, 8) for b in spec.var_encode("varsize", len(seq)))
    if not packed:
        for v in seq:
            if aligned:
                bits += "0" * (-len(bits) % 8)
            pos.append(len(bits))
            bits += enc(v)
        return bits, pos
    use = False
    if len(seq) > 1:
        m = max(abs(b - a).bit_length() for a, b in zip(seq, seq[1:]))
        if m <= 62:
            w = m + 1 if m else 0
            use = 7 + len(enc(seq[0])) + (len(seq) - 1) * w < 1 + sum(len(enc(v)) for v in seq)
    for i, v in enumerate(seq):
        if aligned:
            bits += "0" * (-len(bits) % 8)
        pos.append(len(bits))
        if i == 0:
            bits += "1" + int_bits(m, 6) if use else "0"
        if i == 0 or not use:
            bits += enc(v)
        elif m:
            bits += int_bits(v - seq[i - 1], m + 1)
    return bits, pos


def arrays_once(s, traits, enc, seq, packed, info, implicit=False, need_pos=False, same=None):
    rnd = s.rnd
    ns = s.ns
    same = same or (lambda a, b: a == b)
    pre = "".join(rnd.choice("01") for _ in range(rnd.choice((0, 0, 1, 3, 7, 8, 13))))
    auto, aligned = rnd.random() < 0.4 and not implicit, rnd.random() < 0.3
    if implicit:
        aligned = False
    bits, pos = packed_bits(seq, enc, pre, aligned, auto, packed)
    seen = []
    log = (lambda i, p: seen.append((i, p))) if aligned else None
    info = dict(info, elements=seq if len(seq) < 40 else seq[:40] + ["..."], count=len(seq), start=len(pre), auto=auto, offsets=aligned, packed=packed)
    A = ns.array.Array
    sfx = "_packed" if packed else ""

    def offs(what):
        if aligned:
            s.expect(seen == list(enumerate(pos)), what=what + ": offset callbacks", got=list(seen)[:20], expected=list(enumerate(pos))[:20], **info)
        seen.clear()
    mk = lambda: A(traits, list(seq), is_auto=auto, is_implicit=implicit, set_offset_method=log, check_offset_method=log)
    r = call(getattr(mk(), "bitsizeof" + sfx), len(pre))
    s.expect(r == ("ok", len(bits) - len(pre)), what="bitsizeof" + sfx, result=r, expected=len(bits) - len(pre), **info)
    seen.clear()
    r = call(getattr(mk(), "initialize_offsets" + sfx), len(pre))
    s.expect(r == ("ok", len(bits)), what="initialize_offsets" + sfx, result=r, expected=len(bits), **info)
    offs("initialize_offsets" + sfx)
    w = ns.bitwriter.BitStreamWriter()
    for c in pre:
        w.write_bits_unchecked(int(c), 1)
    arr = mk()
    r = call(getattr(arr, "write" + sfx), w)
    got = "".join(int_bits(b, 8) for b in w.byte_array)[:w.bitposition]
    s.expect(r[0] == "ok" and got == bits, what="write" + sfx, result=r, got=got[:2000], expected=bits[:2000], **info)
    s.expect(len(arr.raw_array) == len(seq), what="write changed the array", **info)
    offs("write" + sfx)
    tail = "" if implicit else "".join(rnd.choice("01") for _ in range(rnd.randrange(0, 9)))
    if implicit and seq:
        tail = "1" * rnd.randrange(0, len(enc(seq[0])))
    data = pack(bits + tail)
    for m in range(2):
        rd = ns.bitreader.BitStreamReader(data, len(bits + tail))
        rd.bitposition = len(pre)
        size = 0 if auto or implicit else len(seq)
        if m == 0:
            a = A(traits, [], is_auto=auto, is_implicit=implicit, set_offset_method=log, check_offset_method=log)
            r = call(getattr(a, "read" + sfx), rd, size)
        elif packed:
            r = call(lambda: A.from_reader_packed(traits, rd, size, is_auto=auto, set_offset_method=log, check_offset_method=log))
            a = r[1]
        else:
            r = call(lambda: A.from_reader(traits, rd, size, is_auto=auto, is_implicit=implicit, set_offset_method=log, check_offset_method=log))
            a = r[1]
        s.expect(r[0] == "ok", what="read" + sfx, result=r, **info)
        s.expect(same(list(a.raw_array), list(seq)), what="read%s elements" % sfx, got=list(a.raw_array)[:40], **info)
        s.expect(rd.bitposition == len(bits), what="read%s end position" % sfx, got=rd.bitposition, expected=len(bits), **info)
        offs("read" + sfx)


def packing(seed, budget, hints):
    def go(s):
        rnd = s.rnd
        while s.more():
            t, enc, lo, hi, name = elem_kinds(s.ns, rnd)
            arrays_once(s, t, enc, int_sequence(s, rnd, lo, hi), True, dict(type=name))
    return run(go, seed, budget, hints, ("array",))


class Rec:
    """A small compound used as an object element: varuint32 field a, then a byte aligned uint8 b."""
    needs = True

    def __init__(self, ns, a, b):
        self.ns, self.a, self.b = ns, a, b

    def __eq__(self, o):
        return isinstance(o, Rec) and (self.a, self.b) == (o.a, o.b)

    def __repr__(self):
        return "Rec(%d,%d)" % (self.a, self.b)

    def bitsizeof(self, pos=0):
        end = pos + self.ns.bitsizeof.bitsizeof_varuint32(self.a)
        return -(-end // 8) * 8 + 8 - pos

    def initialize_offsets(self, pos):
        return pos + self.bitsizeof(pos)

    def write(self, w):
        w.write_varuint32(self.a)
        w.alignto(8)
        w.write_bits(self.b, 8)

    # in packed arrays a is delta packed, b stays aligned
    def init_packing_context(self, ctx):
        ctx.init(self.ns.array.VarUInt32ArrayTraits(), self.a)

    def bitsizeof_packed(self, ctx, pos):
        end = pos + ctx.bitsizeof(self.ns.array.VarUInt32ArrayTraits(), self.a)
        return -(-end // 8) * 8 + 8 - pos

    def initialize_offsets_packed(self, ctx, pos):
        return pos + self.bitsizeof_packed(ctx, pos)

    def write_packed(self, ctx, w):
        ctx.write(self.ns.array.VarUInt32ArrayTraits(), w, self.a)
        w.alignto(8)
        w.write_bits(self.b, 8)


def arrays(seed, budget, hints):
    import struct
    from dv import spec

    def vbits(name, v):
        return "".join(int_bits(b, 8) for b in spec.var_encode(name, v))

    def go(s):
        rnd, ns = s.rnd, s.ns
        arr = ns.array

        class Factory:
            IS_OBJECT_PACKABLE = True

            @staticmethod
            def create_packing_context():
                return arr.DeltaContext()

            @staticmethod
            def create_packed(ctx, reader, index):
                Factory.seen.append(index)
                a = ctx.read(arr.VarUInt32ArrayTraits(), reader)
                reader.alignto(8)
                return Rec(ns, a, reader.read_bits(8))

            @staticmethod
            def create(reader, index):
                Factory.seen.append(index)
                a = reader.read_varuint32()
                reader.alignto(8)
                return Rec(ns, a, reader.read_bits(8))
            seen = []
        while s.more():
            k = rnd.randrange(14)
            n = rnd.choice((0, 0, 1, 1, 2, 3, 4, 7, 8, 9, 17, 40, 130))
            if k < 6:
                t, enc, lo, hi, name = elem_kinds(ns, rnd)
                seq = int_sequence(s, rnd, lo, hi)
                implicit = t.HAS_BITSIZEOF_CONSTANT and rnd.random() < 0.3
                arrays_once(s, t, enc, seq, False, dict(type=name, implicit=implicit), implicit=implicit)
            elif k == 6:
                t, enc, name, gen = arr.BoolArrayTraits(), (lambda v: "1" if v else "0"), "bool", (lambda: rnd.random() < 0.5)
            elif k < 9:
                w, cls, fmt = rnd.choice(((16, arr.Float16ArrayTraits, ">e"), (32, arr.Float32ArrayTraits, ">f"), (64, arr.Float64ArrayTraits, ">d")))
                def gen():
                    while True:
                        v = struct.unpack(fmt, rnd.getrandbits(w).to_bytes(w // 8, "big"))[0]
                        if v == v:
                            return v
                t, enc, name = cls(), (lambda v: int_bits(int.from_bytes(struct.pack(fmt, v), "big"), w)), "float%d" % w
            elif k == 9:
                t, name = arr.BytesArrayTraits(), "bytes"
                gen = lambda: bytearray(rnd.randbytes(rnd.choice((0, 1, 2, 5, 127, 128, 130))))
                enc = lambda v: vbits("varsize", len(v)) + "".join(int_bits(b, 8) for b in v)
            elif k == 10:
                t, name, gen = arr.StringArrayTraits(), "string", (lambda: rand_text(rnd, rnd.choice((0, 1, 3, 60))))
                enc = lambda v: vbits("varsize", len(v.encode())) + "".join(int_bits(b, 8) for b in v.encode())
            elif k == 11:
                t, name = arr.BitBufferArrayTraits(), "bitbuffer"

                def gen():
                    m = rnd.randrange(0, 40)
                    return ns.bitbuffer.BitBuffer(rnd.randbytes(-(-m // 8)), m)
                enc = lambda v: vbits("varsize", v.bitsize) + "".join(int_bits(b, 8) for b in v.buffer)[:v.bitsize]
            else:
                t, name = arr.ObjectArrayTraits(Factory), "object"
                objects_once(s, t, [Rec(ns, rnd.getrandbits(rnd.choice((3, 7, 8, 14, 20, 29))), rnd.getrandbits(8)) for _ in range(n)], Factory)
            if 6 <= k < 12:
                seq = [gen() for _ in range(n)]
                implicit = t.HAS_BITSIZEOF_CONSTANT and rnd.random() < 0.3
                arrays_once(s, t, enc, seq, False, dict(type=name, implicit=implicit), implicit=implicit)
    return run(go, seed, budget, hints, ("array",))


def objects_once(s, traits, seq, factory):
    """Elements whose size depends on the position, against a straightforward reference."""
    rnd, ns = s.rnd, s.ns
    pre, auto, aligned = rnd.randrange(0, 20), rnd.random() < 0.4, rnd.random() < 0.4
    w = ns.bitwriter.BitStreamWriter()
    for _ in range(pre):
        w.write_bits_unchecked(1, 1)
    pos = []
    if auto:
        w.write_varsize(len(seq))
    packed = rnd.random() < 0.5
    if packed:
        ctx = ns.array.DeltaContext()
        for v in seq:
            v.init_packing_context(ctx)
    for v in seq:
        if aligned:
            w.alignto(8)
        pos.append(w.bitposition)
        v.write_packed(ctx, w) if packed else v.write(w)
    suffix = "_packed" if packed else ""
    seen = []
    log = (lambda i, p: seen.append((i, p))) if aligned else None
    mk = lambda raw: ns.array.Array(traits, raw, is_auto=auto, set_offset_method=log, check_offset_method=log)
    info = dict(type="object", elements=seq[:30], count=len(seq), start=pre, auto=auto, offsets=aligned, packed=packed)
    r = call(getattr(mk(list(seq)), "bitsizeof" + suffix), pre)
    s.expect(r == ("ok", w.bitposition - pre), what="bitsizeof", result=r, expected=w.bitposition - pre, **info)
    seen.clear()
    r = call(getattr(mk(list(seq)), "initialize_offsets" + suffix), pre)
    s.expect(r == ("ok", w.bitposition), what="initialize_offsets", result=r, expected=w.bitposition, **info)
    s.expect(not aligned or seen == list(enumerate(pos)), what="initialize_offsets: offsets", got=list(seen)[:20], expected=pos[:20], **info)
    seen.clear()
    w2 = ns.bitwriter.BitStreamWriter()
    for _ in range(pre):
        w2.write_bits_unchecked(1, 1)
    r = call(getattr(mk(list(seq)), "write" + suffix), w2)
    s.expect(r[0] == "ok" and bytes(w2.byte_array) == bytes(w.byte_array) and w2.bitposition == w.bitposition, what="write", result=r, **info)
    s.expect(not aligned or seen == list(enumerate(pos)), what="write: offsets", got=list(seen)[:20], expected=pos[:20], **info)
    seen.clear()
    factory.seen.clear()
    rd = ns.bitreader.BitStreamReader(bytes(w.byte_array), w.bitposition)
    rd.bitposition = pre
    a = mk([])
    r = call(getattr(a, "read" + suffix), rd, 0 if auto else len(seq))
    s.expect(r[0] == "ok" and a.raw_array == seq and rd.bitposition == w.bitposition and factory.seen == list(range(len(seq))), what="read", result=r, got=a.raw_array[:30], **info)
    s.expect(not aligned or seen == list(enumerate(pos)), what="read: offsets", got=list(seen)[:20], expected=pos[:20], **info)


JSON_CHARS = ['"', "\\", "/", "\b", "\f", "\n", "\r", "\t", "\0", "\x01", "\x1f", " ", "\x7f", "\x80", "a", "u", "0", "9", "n", "\u2028", "\ud7ff", "\ue000",
              "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", "\u00b2", "\u0663", "{", "}", ",", "-", "+", ".", "e", "E", "I", "N", "t", "f"]


def json_values(seed, budget, hints):
    def go(s):
        rnd, J = s.rnd, s.ns.json
        frag = ['"', "\\u", "\\", "\\n", "\\x", "-", "-I", "-Infinity", "Infinity", "NaN", "null", "true", "false", "1", "12", "1e", "1e+", "1.5", "e", ".", "é", "nul", "Inf",
                "0041", "d83d", "\\ud83d\\ude00", "+", "\u00b2", "\u0663", " ", ",", "{", "'", "x", "00", "\x00", "\U0001f600"]
        while s.more():
            if rnd.random() < 0.5:
                if rnd.random() < 0.35:
                    v = s.pooled(rnd, -(1 << 64), 1 << 64)
                else:
                    v = "".join(rnd.choice(JSON_CHARS) if rnd.random() < 0.6 else chr(rnd.choice([x for x in (rnd.randrange(0x110000), rnd.randrange(128)) if not 0xd800 <= x < 0xe000] or [65]))
                                for _ in range(rnd.choice((0, 1, 1, 2, 3, 5, 17, 60))))
                t = call(lambda: J.JsonEncoder().encode_value(v))
                s.expect(t[0] == "ok" and type(t[1]) is str, what="encode_value", value=v, result=t)
                t = t[1]
                pre = "".join(rnd.choice(JSON_CHARS) for _ in range(rnd.choice((0, 0, 1, 3, 8))))
                post = rnd.choice(("", "", ",", "]", "}", " ", "\n", ":", ", 1", '"', "\\", "x"))
                if type(v) is str:
                    post = rnd.choice((post, "1", '"', 'u', "\\u0041"))
                r = call(J.JsonDecoder.decode_value, pre + t + post, len(pre))
                ok = r[0] == "ok" and r[1].success is True and type(r[1].value) is type(v) and r[1].value == v and r[1].num_read_chars == len(t)
                s.expect(ok, what="decode of the encoder's text", value=v, text=pre + t + post, position=len(pre),
                         result=r if r[0] != "ok" else (r[1].success, r[1].value, r[1].num_read_chars), expected_chars=len(t))
            else:
                text = "".join(rnd.choice(frag) for _ in range(rnd.randrange(1, 9)))
                pos = rnd.randrange(len(text))
                r = call(J.JsonDecoder.decode_value, text, pos)
                s.expect(r[0] == "ok" and 1 <= r[1].num_read_chars <= len(text) - pos, what="decode of arbitrary text", text=text, position=pos,
                         result=r if r[0] != "ok" else (r[1].success, r[1].value, r[1].num_read_chars), remaining=len(text) - pos)
    return run(go, seed, budget, hints, ("json",))


def json_names(seed, budget, hints):
    import enum
    import io

    def go(s):
        rnd, J, T, PREX = s.rnd, s.ns.json, s.ns.typeinfo, s.ns.exception.PythonRuntimeException
        A, M = T.TypeAttribute, T.MemberAttribute
        pool = ["READ", "WRITE", "READ_2", "_x", "A", "AB", "a", "none", "_", "READWRITE", "X9", "z", "N1", "nan", "e1", "null"]

        def mask_type():
            class Mask:
                def __init__(self):
                    self._value = 0

                @classmethod
                def from_value(cls, v):
                    if v < 0 or v > (1 << 64) - 1:
                        raise PREX("out of bounds")
                    o = cls()
                    o._value = v
                    return o

                def __eq__(self, o):
                    return self._value == o._value

                def __hash__(self):
                    return self._value

                @property
                def value(self):
                    return self._value
            return Mask

        while s.more():
            names = rnd.sample(pool, rnd.choice((0, 1, 2, 3, 3, 4, 6)))
            is_mask = rnd.random() < 0.7
            items = {}
            if is_mask:
                cls = mask_type()
                for n in names:
                    items[n] = cls.from_value(rnd.choice((0, 1, 2, 3, 4, 1 << rnd.randrange(64), rnd.getrandbits(64), (1 << 64) - 1, 6, 8)))
                infos = [T.ItemInfo(n, it, False, False) for n, it in items.items()]
            else:
                if not names:
                    names = ["A"]
                cls = enum.Enum("E", {n: i * 7 - 3 for i, n in enumerate(names)})
                items = {n: cls[n] for n in names}
                infos = [T.ItemInfo(n, it, rnd.random() < .1, rnd.random() < .1) for n, it in items.items()]
            ti = T.TypeInfo("t.T", cls, attributes={A.BITMASK_VALUES if is_mask else A.ENUM_ITEMS: infos})
            mi = T.MemberInfo("f", ti, attributes={M.PROPERTY_NAME: "prop"})

            class Root:
                prop = None
            root = T.TypeInfo("t.R", Root, attributes={A.FIELDS: [mi]})

            def write(v):
                out = io.StringIO()
                w = J.JsonWriter(text_io=out)
                w.begin_root(None)
                w.visit_value(v, mi)
                w.end_root(None)
                return out.getvalue()

            def read(text):
                return J.JsonReader(io.StringIO(text)).read(root).prop
            if rnd.random() < 0.6:
                if is_mask:
                    c = [it.value for it in items.values()]
                    v = 0
                    for x in rnd.sample(c, rnd.randrange(len(c) + 1)):
                        v |= x
                    if rnd.random() < 0.3:
                        v ^= rnd.choice((1, 2, 128, 1 << 63, rnd.getrandbits(64)))
                    v = cls.from_value(rnd.choice((v, v, v, v, 0, (1 << 64) - 1, s.pooled(rnd, 0, (1 << 64) - 1))))
                else:
                    v = rnd.choice(list(items.values()))
                t = call(write, v)
                r = call(read, t[1]) if t[0] == "ok" else t
                s.expect(r[0] == "ok" and type(r[1]) is cls and r[1] == v, what="round trip", items={n: it.value for n, it in items.items()}, value=v.value, text=t,
                         result=r if r[0] != "ok" else (type(r[1]).__name__, getattr(r[1], "value", None)))
            else:
                parts = [rnd.choice(pool[:6] + names + ["1", "12", "007", "", " ", "9x", "é", "READ|", "18446744073709551615", "18446744073709551616", "-1", "0"])
                         for _ in range(rnd.choice((1, 1, 1, 2, 3)))]
                text = rnd.choice(("|", " | ", "| ")).join(parts)
                if rnd.random() < .2:
                    text += rnd.choice((" ", " /* no match */", "|", "x", "\t"))
                r = call(read, '{"f": ' + J.JsonEncoder().encode_value(text) + "}")
                want = "reject"
                if text and (text[0].isascii() and text[0].isalpha() or text[0] == "_"):
                    if is_mask:
                        ns_ = [p.strip() for p in text.split("|")]
                        if all(n in items for n in ns_):
                            want = 0
                            for n in ns_:
                                want |= items[n].value
                    elif text in items:
                        want = items[text].value
                elif text and text[0] in "0123456789" and is_mask:
                    k = 0
                    while k < len(text) and text[k] in "0123456789":
                        k += 1
                    want = int(text[:k])
                    if want > (1 << 64) - 1:
                        want = "reject"
                ok = r == ("exc", PREX.__name__) if want == "reject" else (r[0] == "ok" and r[1].value == want)
                s.expect(ok, what="text", bitmask=is_mask, items={n: it.value for n, it in items.items()}, text=text, result=r if r[0] != "ok" else r[1].value, expected=want)
    return run(go, seed, budget, hints, ("json", "typeinfo", "exception"))


def random_types(T, rnd, names="abcdefg", depth=3):
    """A random compound type: (TypeInfo, class). Classes are like generated ones; fields carry the member infos."""
    A, M = T.TypeAttribute, T.MemberAttribute
    selector = rnd.random() < 0.3
    nf = rnd.choice((0, 1, 1, 2, 3, 4)) if depth < 3 else rnd.choice((1, 2, 3, 5))
    if rnd.random() < 0.03:
        nf = rnd.randrange(8, 20)
        names = ["n%d" % i for i in range(20)]

    class Obj:
        UNDEFINED_CHOICE = -1

        def __init__(self, *args):
            self.args = args
            self.choice_tag = -1
            for m in fields:
                setattr(self, m.attributes[M.PROPERTY_NAME], None)

        @staticmethod
        def type_info():
            return ti
    fields = []
    attrs = {A.FIELDS: fields}
    if selector:
        attrs[A.SELECTOR] = "sel"
    ti = T.TypeInfo("t.T%d" % rnd.randrange(1000), Obj, attributes=attrs)
    for i in range(nf):
        k = rnd.random()
        if depth > 0 and k < 0.45:
            fti = random_types(T, rnd, names, depth - 1)
        elif k < 0.55 and depth > 0:
            fti = T.RecursiveTypeInfo(lambda: ti)
        else:
            fti = T.TypeInfo("simple", rnd.choice((int, str, bool, float)))
        at = {M.PROPERTY_NAME: "p_" + names[i] if rnd.random() < 0.5 else names[i]}
        if rnd.random() < 0.45:
            at[M.ARRAY_LENGTH] = None
        n = rnd.choice((0, 0, 1, 2))
        if n and A.FIELDS in getattr(fti, "attributes", {}):
            at[M.TYPE_ARGUMENTS] = [(lambda parent, index, j=j: (parent, index, j)) for j in range(n)]
        if rnd.random() < .3:
            at[M.OPTIONAL] = None
        fields.append(T.MemberInfo(names[i], fti, attributes=at))
    return ti


def random_tree(T, rnd, ti, depth=0):
    A, M = T.TypeAttribute, T.MemberAttribute

    def value(m, d):
        if rnd.random() < 0.15:
            return None
        if A.FIELDS in m.type_info.attributes:
            return random_tree(T, rnd, m.type_info, d) if d < 5 else None
        return m.type_info.py_type(rnd.choice((0, 1, 5)))
    o = ti.py_type()
    fields = ti.attributes[A.FIELDS]
    for m in fields:
        if M.ARRAY_LENGTH in m.attributes and rnd.random() < 0.9:
            n = rnd.choice((0, 0, 1, 2, 3, 5))
            v = [value(m, depth + 1) for _ in range(n)]
        elif M.ARRAY_LENGTH in m.attributes:
            v = None
        else:
            v = value(m, depth + 1)
        setattr(o, m.attributes[M.PROPERTY_NAME], v)
    o.choice_tag = rnd.randrange(-1, len(fields))
    return o


def walking(seed, budget, hints=()):
    """Random trees walked under random answers and under the provided filters; compared with a reference walk."""
    def go(s):
        T, W = s.ns.typeinfo, s.ns.walker
        A, M = T.TypeAttribute, T.MemberAttribute
        rnd = s.rnd
        names = ["begin_root", "end_root", "begin_array", "end_array", "begin_compound", "end_compound", "visit_value"]
        fnames = [w + k for w in ("before_", "after_") for k in ("array", "compound", "value")]

        class Log:
            def __init__(self, log, which, answers=None):
                self.log, self.which, self.answers = log, which, answers

            def __getattr__(self, name):
                if name not in self.which:
                    raise AttributeError(name)

                def method(o, *a):
                    a = list(a) + ([None] if name.split("_")[1] in ("compound", "value") and len(a) == 1 else [])
                    self.log.append((name, id(o), tuple(id(x) if not isinstance(x, int) else x for x in a)))
                    if self.answers is not None:
                        return self.answers(name, o, *a)
                return method

        def ref(obj, ti, ev, ask):
            """the reference walk: the events and the filter calls in order"""
            fields = ti.attributes[A.FIELDS]
            if A.SELECTOR in ti.attributes:
                fields = [fields[obj.choice_tag]] if obj.choice_tag != -1 else []
            for m in fields:
                v = getattr(obj, m.attributes[M.PROPERTY_NAME])
                if not ref_field(v, m, ev, ask):
                    break

        def ref_field(v, m, ev, ask):
            if v is not None and M.ARRAY_LENGTH in m.attributes:
                if ask("before_array", v, m):
                    ev("begin_array", v, m)
                    for i, x in enumerate(v):
                        if not ref_value(x, m, i, ev, ask):
                            break
                    ev("end_array", v, m)
                return ask("after_array", v, m)
            return ref_value(v, m, None, ev, ask)

        def ref_value(v, m, i, ev, ask):
            if v is not None and A.FIELDS in m.type_info.attributes:
                if ask("before_compound", v, m, i):
                    ev("begin_compound", v, m, i)
                    ref(v, m.type_info, ev, ask)
                    ev("end_compound", v, m, i)
                return ask("after_compound", v, m, i)
            if ask("before_value", v, m, i):
                ev("visit_value", v, m, i)
            return ask("after_value", v, m, i)

        class Fixed(W.DefaultWalkFilter):
            def __init__(self, fn):
                for n in fnames:
                    setattr(self, n, lambda *a, n=n: fn(n))

        def depth_ref(limit):
            lv = [1]

            def f(name, o, m, i=None):
                if name == "before_value":
                    return lv[0] <= limit
                if name.startswith("before"):
                    lv[0] += 1
                    return lv[0] - 1 <= limit
                if name != "after_value":
                    lv[0] -= 1
                return True
            return f

        def length_ref(limit):
            def f(name, o, m, i=None):
                return True if i is None or name.startswith("after") else i < limit
            return f
        while s.more():
            ti = random_types(T, rnd)
            tree = random_tree(T, rnd, ti)
            for _ in range(12):
                k = rnd.randrange(5)
                if k == 0:        # any answers
                    p = rnd.choice((0.05, 0.3, 0.5, 0.9))
                    tape = [rnd.random() >= p for _ in range(4000)]
                    seq1, seq2 = [iter(tape + [True] * 100000) for _ in range(2)]
                    log, log2 = [], []
                    filt = Log(log, fnames, lambda name, *a: next(seq1))
                    ask = Log(log2, fnames, lambda name, *a: next(seq2))
                    what = "random answers"
                    both = True
                else:
                    limit = rnd.choice((-1, 0, 1, 2, 3, 4, 10))
                    log, log2 = [], []
                    both = False
                    if k == 1:
                        filt, fn, what = W.DepthWalkFilter(limit), depth_ref(limit), "DepthWalkFilter(%d)" % limit
                    elif k == 2:
                        filt, fn, what = W.ArrayLengthWalkFilter(limit), length_ref(limit), "ArrayLengthWalkFilter(%d)" % limit
                    elif k == 3:
                        filt, fn, what = rnd.choice((None, W.DefaultWalkFilter())), (lambda *a: True), "default filter"
                    else:
                        l2 = rnd.choice((0, 1, 2, 3, 5))
                        filt = W.AndWalkFilter([W.DepthWalkFilter(limit), W.ArrayLengthWalkFilter(l2)])
                        f1, f2 = depth_ref(limit), length_ref(l2)

                        def fn(*a, f1=f1, f2=f2):
                            x, y = f1(*a), f2(*a)
                            return x and y
                        what = "And(Depth(%d), ArrayLength(%d))" % (limit, l2)
                    ask = Log([], fnames, fn)
                obs, ev = Log(log, names), Log(log2, names)
                r = call(W.Walker(obs, filt).walk, tree)
                ev.begin_root(tree)
                ref(tree, ti, lambda n, *a: getattr(ev, n)(*a), lambda n, *a: getattr(ask, n)(*a))
                ev.end_root(tree)
                first = next((i for i in range(max(len(log), len(log2))) if log[i:i + 1] != log2[i:i + 1]), None)
                s.expect(r[0] == "ok" and first is None, what=what, result=r, at=first,
                         got=[x[0] for x in log[max(0, (first or 0) - 3):(first or 0) + 3]], want=[x[0] for x in log2[max(0, (first or 0) - 3):(first or 0) + 3]])
            bad = rnd.choice((object(), 5, type("X", (), {"type_info": staticmethod(lambda: T.TypeInfo("s", int))})()))
            log = []
            r = call(W.Walker(Log(log, names), Log(log, fnames)).walk, bad)
            s.expect(r == ("exc", "PythonRuntimeException") and not log, what="walk of something that is no compound", result=r)
    return run(go, seed, budget, hints, ("walker",))


def creating(seed, budget, hints=()):
    """Random sequences of build calls against a model of the grammar; the trees are compared after every call."""
    def go(s):
        T = s.ns.typeinfo
        C = s.ns.creator.ZserioTreeCreator
        A, M = T.TypeAttribute, T.MemberAttribute
        rnd = s.rnd

        class Node:
            def __init__(self, ti, args):
                self.ti, self.args, self.fields = ti, args, {}

        def compound(ti):
            return A.FIELDS in ti.attributes

        def same(real, node, seen):
            if isinstance(node, Node):
                if type(real) is not node.ti.py_type or id(real) in seen:
                    return False
                seen.add(id(real))
                if len(real.args) != len(node.args):
                    return False
                for x, y in zip(real.args, node.args):
                    if x[0] is not y[0].real or x[1:] != y[1:]:
                        return False
                for m in node.ti.attributes[A.FIELDS]:
                    p = m.attributes[M.PROPERTY_NAME]
                    if not same(getattr(real, p), node.fields.get(p), seen):
                        return False
                return set(real.__dict__) == {"args", "choice_tag"} | {m.attributes[M.PROPERTY_NAME] for m in node.ti.attributes[A.FIELDS]}
            if isinstance(node, list):
                return type(real) is list and len(real) == len(node) and all(same(a, b, seen) for a, b in zip(real, node))
            return real is node or (type(real) is type(node) and isinstance(real, (int, str, float)) and real == node)
        # sizes random sequences do not reach: long arrays, many fields, deep nesting
        class Big:
            def __init__(self, *args):
                self.args = args
        sizes = sorted({300, 1100} | {p for p in s.pool if 2 < p < 3000} | {p + 2 for p in s.pool if 2 < p < 3000})[:40]
        for n in sizes:
            et = T.TypeInfo("E", type("E", (Big,), {}), attributes={A.FIELDS: []})
            fields = [T.MemberInfo("f%d" % i, et if i % 2 else T.TypeInfo("i", int), attributes={M.PROPERTY_NAME: "p%d" % i, M.ARRAY_LENGTH: None,
                      M.TYPE_ARGUMENTS: [lambda p, i: (p, i)]}) for i in range(n + 2)]
            bt = T.TypeInfo("B", type("B", (Big,), {}), attributes={A.FIELDS: fields})
            ct = C(bt)
            ct.begin_root()
            for i in (0, 1, n, n + 1):
                r = call(ct.begin_array, "f%d" % i)
                s.expect(r[0] == "ok", what="begin_array of field %d of %d" % (i, n + 2), result=r)
                for j in range(n):
                    r = call(ct.begin_compound_element) if i % 2 else call(ct.add_value_element, j)
                    s.expect(r[0] == "ok", what="element %d" % j, result=r)
                    if i % 2:
                        r = call(ct.end_compound_element)
                        s.expect(r[0] == "ok", what="end of element %d" % j, result=r)
                call(ct.end_array)
            o = ct.end_root()
            for i in (0, 1, n, n + 1):
                v = getattr(o, "p%d" % i, None)
                s.expect(v is not None and len(v) == n and all(x.args == ((o, j),) if i % 2 else x == j for j, x in enumerate(v)),
                         what="array of %d elements in field %d" % (n, i))
            rt = T.TypeInfo("R", type("R", (Big,), {}), attributes={A.FIELDS: []})
            rt.attributes[A.FIELDS].append(T.MemberInfo("x", rt, attributes={M.PROPERTY_NAME: "x"}))
            ct = C(rt)
            ct.begin_root()
            for j in range(n):
                call(ct.begin_compound, "x")
            s.expect(call(ct.end_root)[0] == "exc", what="end_root at depth %d accepted" % n)
            for j in range(n):
                r = call(ct.end_compound)
                s.expect(r[0] == "ok", what="end_compound at depth %d" % (n - j), result=r)
            s.expect(call(ct.end_root)[0] == "ok", what="end_root after closing %d levels" % n)
        while s.more():
            ti = random_types(T, rnd)
            for _ in range(6):
                made = []
                ct = C(ti)
                frames = []        # (kind, node or list, ti, mi)
                hist = []
                roots = []
                for _ in range(rnd.choice((5, 15, 40, 80))):
                    top = frames[-1] if frames else None
                    comp = top is not None and top[0] != "array"
                    names = [m.schema_name for m in top[2].attributes[A.FIELDS]] if comp else ["a", "b"]
                    op = rnd.choice(("begin_root", "end_root", "begin_array", "end_array", "begin_compound", "end_compound", "set_value",
                                     "get_field_type", "begin_compound_element", "end_compound_element", "add_value_element", "get_element_type",
                                     "begin_array", "begin_compound", "set_value", "begin_compound_element", "add_value_element"))
                    if top is None and rnd.random() < 0.7:
                        op = "begin_root"
                    if comp and op in ("end_root", "end_compound") and rnd.random() < 0.6:
                        op = "begin_compound"
                    args = []
                    m = None
                    if op in ("begin_array", "begin_compound", "set_value", "get_field_type"):
                        name = rnd.choice(names + ["zz"]) if rnd.random() < 0.9 and names else rnd.choice(("", "zz", "p_a", "a"))
                        if comp and rnd.random() < 0.7:
                            good = [x for x in top[2].attributes[A.FIELDS] if (M.ARRAY_LENGTH in x.attributes) == (op == "begin_array")
                                    and (op != "begin_compound" or compound(x.type_info))]
                            if good:
                                name = rnd.choice(good).schema_name
                        args.append(name)
                        if comp:
                            m = next((x for x in top[2].attributes[A.FIELDS] if x.schema_name == name), None)
                    if op in ("set_value", "add_value_element"):
                        want = m.type_info if m is not None else top[2] if top is not None and top[0] == "array" else None
                        k = rnd.random()
                        if k < 0.15 or want is None:
                            v = None
                        elif k < 0.6:
                            v = want.py_type()
                        else:
                            v = rnd.choice((0, 1, "", "x", True, False, 0.0, 1.5, [], [1], object(), b"", {}))
                        args.append(v)
                    # the model
                    ok = {"begin_root": top is None, "end_root": comp and len(frames) == 1,
                          "begin_array": comp and m is not None and M.ARRAY_LENGTH in m.attributes,
                          "end_array": top is not None and top[0] == "array",
                          "begin_compound": comp and m is not None and M.ARRAY_LENGTH not in m.attributes and compound(m.type_info),
                          "end_compound": comp and top[0] == "compound",
                          "set_value": comp and m is not None and (args[-1] is None or M.ARRAY_LENGTH not in m.attributes and isinstance(args[-1], m.type_info.py_type)),
                          "get_field_type": comp and m is not None,
                          "begin_compound_element": top is not None and top[0] == "array" and compound(top[2]),
                          "end_compound_element": comp and top[0] == "element",
                          "add_value_element": top is not None and top[0] == "array" and (args[-1:] == [None] or bool(args) and isinstance(args[-1], top[2].py_type)),
                          "get_element_type": top is not None and top[0] == "array"}[op]
                    hist.append((op, [repr(a)[:30] for a in args]))
                    s.last = hist[-12:]
                    r = call(getattr(ct, op), *args)
                    s.expect((r[0] == "ok") == bool(ok) and (ok or r[1] == "PythonRuntimeException"), what="call accepted or rejected wrongly",
                             calls=hist[-12:], result=r, allowed=bool(ok))
                    if not ok:
                        continue

                    def arguments(mi, parent, index):
                        return [(parent, index, j) for j in range(len(mi.attributes.get(M.TYPE_ARGUMENTS, [])))]
                    if op == "begin_root":
                        frames.append(("root", Node(ti, []), ti, None))
                    elif op == "end_root":
                        n = frames.pop()[1]
                        bind(n, r[1], M, A, Node)
                        s.expect(same(r[1], n, set()), what="finished tree differs from what the calls describe", calls=hist[-20:])
                        roots.append((r[1], n))
                    elif op == "begin_array":
                        frames.append(("array", [], m.type_info, m))
                    elif op in ("end_array", "end_compound"):
                        f = frames.pop()
                        frames[-1][1].fields[f[3].attributes[M.PROPERTY_NAME]] = f[1]
                    elif op == "begin_compound":
                        frames.append(("compound", Node(m.type_info, arguments(m, top[1], None)), m.type_info, m))
                    elif op == "begin_compound_element":
                        frames.append(("element", Node(top[2], arguments(top[3], frames[-2][1], len(top[1]))), top[2], top[3]))
                    elif op == "end_compound_element":
                        f = frames.pop()
                        frames[-1][1].append(f[1])
                    elif op == "set_value":
                        top[1].fields[m.attributes[M.PROPERTY_NAME]] = args[1]
                    elif op == "add_value_element":
                        top[1].append(args[0])
                    elif op == "get_field_type":
                        s.expect(r[1] is m.type_info, what="field type", calls=hist[-12:])
                    elif op == "get_element_type":
                        s.expect(r[1] is top[2], what="element type", calls=hist[-12:])
                # close what is open and compare
                while frames:
                    f = frames.pop()
                    op = {"root": "end_root", "array": "end_array", "compound": "end_compound", "element": "end_compound_element"}[f[0]]
                    hist.append((op, []))
                    r = call(getattr(ct, op))
                    s.expect(r[0] == "ok", what="closing call rejected", calls=hist[-12:], result=r)
                    if f[0] in ("array", "compound"):
                        frames[-1][1].fields[f[3].attributes[M.PROPERTY_NAME]] = f[1]
                    elif f[0] == "element":
                        frames[-1][1].append(f[1])
                    else:
                        bind(f[1], r[1], M, A, Node)
                        s.expect(same(r[1], f[1], set()), what="finished tree differs from what the calls describe", calls=hist[-20:])
                        roots.append((r[1], f[1]))
                for real, n in roots:
                    s.expect(same(real, n, set()), what="an earlier tree was changed later", calls=hist[-20:])
    return run(go, seed, budget, hints, ("creator",))


def bind(node, real, M, A, Node):
    """Notes the real object of each node (parents are compared by identity)."""
    if isinstance(node, Node):
        node.real = real
        for m in node.ti.attributes[A.FIELDS]:
            p = m.attributes[M.PROPERTY_NAME]
            bind(node.fields.get(p), getattr(real, p, None), M, A, Node)
    elif isinstance(node, list) and isinstance(real, list):
        for a, b in zip(node, real):
            bind(a, b, M, A, Node)


def serializing(seed, budget, hints=()):
    """Objects writing random bits, through every helper and back (files in a scratch directory)."""
    import os
    import shutil
    import tempfile

    def go(s):
        S, W, BB, R = s.ns.serialization, s.ns.bitwriter.BitStreamWriter, s.ns.bitbuffer.BitBuffer, s.ns.bitreader.BitStreamReader
        rnd = s.rnd
        tmp = tempfile.mkdtemp(prefix="dv_ser_", dir="/tmp")
        try:
            while s.more():
                n = rnd.choice((0, 1, 7, 8, 9, 16, 63, 64, 65, rnd.randrange(300), rnd.randrange(5000)))
                bits = "".join(rnd.choice("01") for _ in range(n))
                if rnd.random() < 0.2:
                    bits = rnd.choice("01") * n
                calls = []

                class Obj:
                    def initialize_offsets(self, pos):
                        calls.append(("initialize_offsets", pos))
                        return n

                    def write(self, w):
                        calls.append(("write", w.bitposition))
                        for i in range(0, n, 37):
                            w.write_bits(int(bits[i:i + 37], 2), len(bits[i:i + 37]))
                want = pack(bits)
                name = os.path.join(tmp, "f%d" % rnd.randrange(3))

                def order(what):
                    s.expect(calls == [("initialize_offsets", 0), ("write", 0)], what=what + ": calls", calls=list(calls))
                    calls.clear()
                r = call(S.serialize, Obj())
                s.expect(r[0] == "ok" and r[1].bitsize == n and bytes(r[1].buffer) == want, what="serialize", bits=bits, result=r)
                order("serialize")
                r = call(S.serialize_to_bytes, Obj())
                s.expect(r[0] == "ok" and bytes(r[1]) == want, what="serialize_to_bytes", bits=bits, result=r)
                order("serialize_to_bytes")
                r = call(S.serialize_to_file, Obj(), name)
                s.expect(r[0] == "ok" and open(name, "rb").read() == want, what="serialize_to_file", bits=bits, result=r)
                order("serialize_to_file")

                class Cls:
                    @staticmethod
                    def from_reader(rd, *a):
                        out = ""
                        size = rd.buffer_bitsize
                        start = rd.bitposition
                        while rd.bitposition < size:
                            k = min(rnd.randrange(1, 65), size - rd.bitposition)
                            out += int_bits(rd.read_bits(k), k)
                        return start, size, out, a, type(rd)
                extra = rnd.choice((0, 0, 1, 5))
                junk = bytearray(want + rnd.randbytes(extra))
                if n % 8:
                    junk[n // 8] |= rnd.getrandbits(8) >> (n % 8)
                junk = bytes(junk)
                args = tuple(range(rnd.randrange(3)))
                r = call(S.deserialize, Cls, BB(junk, n), *args)
                s.expect(r == ("ok", (0, n, bits, args, R)), what="deserialize", bits=bits, result=r)
                full = "".join(int_bits(b, 8) for b in junk)
                r = call(S.deserialize_from_bytes, Cls, junk, *args)
                s.expect(r == ("ok", (0, len(full), full, args, R)), what="deserialize_from_bytes", data=junk, result=r)
                with open(name, "wb") as f:
                    f.write(junk)
                r = call(S.deserialize_from_file, Cls, name, *args)
                s.expect(r == ("ok", (0, len(full), full, args, R)), what="deserialize_from_file", data=junk, result=r)
        finally:
            shutil.rmtree(tmp)
    return run(go, seed, budget, hints, ("serialization", "bitwriter", "bitreader", "bitbuffer"))
