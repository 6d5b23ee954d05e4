"""Concrete counterpart of zsref: the exact bits of schema objects, random objects, and the search over the unmodified
generated code and runtime."""
import os
import random
import re
import struct

from dv import spec, zs, zspy
from dv.core import Unsupported
from dv.pyreplay import call, int_bits, pack, run
from dv.zs import Invalid
from dv.zsref import Api, Layout


class BitItem:
    def __init__(self, value, bits):
        self.value, self.bits = value, bits


class BitStream:
    """Appends the bits of the documented encodings."""

    def __init__(self, pos):
        self.bits, self.pos, self.items = [], pos, []

    @staticmethod
    def fresh(pos):
        return BitStream(pos)

    def put(self, value, bits):
        self.items.append(BitItem(value, bits))
        self.bits.append(bits)
        self.pos += len(bits)

    def u(self, n, v):
        if not 0 <= v < 1 << n:
            raise Invalid("range")
        self.put(v, int_bits(v, n))

    def s(self, n, v):
        if not -(1 << (n - 1)) <= v < 1 << (n - 1):
            raise Invalid("range")
        self.put(v, int_bits(v, n))

    def boolean(self, v):
        self.put(v, "1" if v else "0")

    def var(self, kind, v):
        b = spec.var_encode(kind, v)
        if b is None:
            raise Invalid("range")
        self.put(v, "".join(int_bits(x, 8) for x in b))

    def blob(self, kind, v):
        if kind == "extern":
            n = v.bitsize
            bits = "".join(int_bits(x, 8) for x in v.buffer)[:n]
        else:
            data = v.encode("utf-8") if kind == "string" else bytes(v)
            n = len(data)
            bits = "".join(int_bits(x, 8) for x in data)
        self.put(v, "".join(int_bits(x, 8) for x in spec.var_encode("varsize", n)) + bits)

    def flt(self, n, v):
        if n == 16:
            h = spec.single_to_half_bits(struct.unpack(">I", struct.pack(">f", v))[0])
            self.put(v, int_bits(h, 16))
        else:
            self.put(v, "".join(int_bits(x, 8) for x in struct.pack(">f" if n == 32 else ">d", v)))

    def align(self, n):
        k = -self.pos % n
        self.items.append(None)
        self.bits.append("0" * k)
        self.pos += k

    def delta(self, inits, idx, item):
        """The idx-th element of a packed sequence with the given elements."""
        seq = [i.value for i in inits]
        use, m = False, 0
        if len(seq) > 1:
            m = max(abs(b - a).bit_length() for a, b in zip(seq, seq[1:]))
            if m <= 62:
                w = m + 1 if m else 0
                use = 7 + len(inits[0].bits) + (len(seq) - 1) * w < 1 + sum(len(i.bits) for i in inits)
        bits = ""
        if idx == 0:
            bits = "1" + int_bits(m, 6) if use else "0"
        if idx == 0 or not use:
            bits += item.bits
        elif m:
            bits += int_bits(seq[idx] - seq[idx - 1], m + 1)
        self.put(item.value, bits)


class ConcApi(Api):
    def numbits(self, v):
        return 0 if v == 0 else 1 if v == 1 else (v - 1).bit_length()


class Retry(Exception):
    pass


class RandEngine:
    """Stands in for the symbolic engine: random choices, assumptions reject the attempt."""

    def __init__(self, s, rnd, pool):
        self.s, self.rnd, self.pool = s, rnd, pool

    def choose(self, n):
        return self.rnd.randrange(n)

    def assume(self, c):
        if not c:
            raise Retry()

    def bool(self, name):
        return self.rnd.random() < 0.5

    def bv(self, name, lo, hi):
        r = self.rnd.random()
        if r < 0.35:
            v = self.rnd.choice(self.pool)
            if lo <= v <= hi:
                return v
        if r < 0.5:
            return self.s.pooled(self.rnd, lo, hi)
        if r < 0.75:
            return min(hi, max(lo, self.rnd.randint(-4, 12)))
        if r < 0.85:
            return self.rnd.choice((lo, hi))
        return self.rnd.randint(lo, hi)


class RandMaker(zspy.Maker):
    tries = 300
    linear_offsets = False

    def __init__(self, schema, gen, e, ns, valid=True, ctor=None):
        super().__init__(schema, gen, e, valid)
        self.ns, self.rnd = ns, e.rnd
        self.max_len = self.rnd.choice((0, 1, 2, 3, 3, 5, 9, 17))
        self.ctor = self.rnd.randrange(2) if ctor is None else ctor
        self.api = ConcApi()
        self.repeat = {}

    def pick(self, n):
        return self.rnd.randrange(n)

    def scalar(self, t, name, scope):
        r = self.rnd
        if t.name == "string":
            return "".join(chr(r.choice((65, 0, 0x7f, 0xe9, 0x20ac, 0x1f600, r.randrange(32, 127)))) for _ in range(r.choice((0, 1, 3, 200))))
        if t.name == "bytes":
            return bytes(r.randrange(256) for _ in range(r.choice((0, 1, 3, 130))))
        if t.name == "extern":
            n = r.choice((0, 1, 7, 8, 9, 130, 1030))
            return self.ns.bitbuffer.BitBuffer(bytes(r.randrange(256) for _ in range((n + 7) // 8)), n)
        if t.name.startswith("float"):
            n = int(t.name[5:])
            while True:
                b = r.choice((0, 1, 1 << (n - 1), r.getrandbits(n)))
                v = spec.half_value(b) if n == 16 else struct.unpack(">f" if n == 32 else ">d", b.to_bytes(n // 8, "big"))[0]
                if v == v and not (v == 0 and b):
                    return v
        ik = self.s.int_kind(t)
        # elements of an array are often close to each other
        k = re.sub(r"[\[\]\d.]+", "", name)
        if ik and scope.index is not None and k in self.repeat and r.random() < 0.6:
            lo, hi = zs.limits(ik) if ik[0] == "var" or ik[1] is not None else zs.limits(ik, scope.eval(t.dyn))
            v = self.repeat[k] + r.choice((0, 0, 1, -1, 2, -3, 100, r.randint(-(1 << 20), 1 << 20)))
            if lo <= v <= hi:
                self.repeat[k] = v
                return v
        v = super().scalar(t, name, scope)
        if ik:
            self.repeat[k] = v
        return v


def pool_of(texts):
    out = set(range(-3, 20))
    for t in texts:
        for m in re.findall(r"\b\d+\b", t):
            out |= {int(m) + k for k in (-1, 0, 1)} | {-int(m)}
    return sorted(out)


def find(world, top_types, fields_same, seed, budget, hints):
    """world(variant, real runtime) -> dict(schema, gen); searches valid and invalid objects of every type."""
    def go(s):
        rnd = s.rnd
        W, R = s.ns.bitwriter.BitStreamWriter, s.ns.bitreader.BitStreamReader
        PRE = s.ns.exception.PythonRuntimeException
        refusal = (PRE, IndexError)
        worlds = {v: world(v, s.ns) for v in ("", "range")}
        schema = worlds[""]["schema"]
        types = top_types
        names = [h["name"].split("::")[0].split(":")[-1] for h in s.hints if ":" in h.get("name", "")]
        focus = [t for t in types if t[0] in names]
        e = RandEngine(s, rnd, pool_of(worlds[""]["texts"]))
        api = ConcApi()
        turn = 0
        while s.more():
            turn += 1
            n, rt = rnd.choice(focus) if focus and rnd.random() < 0.7 else types[turn % len(types)] if turn < 3 * len(types) else rnd.choice(types)
            variant = rnd.choice(("", "", "range"))
            gen = worlds[variant]["gen"]
            valid = rnd.random() < 0.65
            m = RandMaker(schema, gen, e, s.ns, valid)
            d = schema.decl(rt)
            try:
                params = zspy.clone_params(m, d, rt, "top")
                if not valid and rnd.random() < 0.4:
                    m.wide = rnd.randrange(1, 8)
                obj = m.compound(rt, params, rt.name)
            except (Retry, Invalid, Unsupported):
                continue
            except PRE:
                continue              # bitmask value out of range
            pos = rnd.choice((0, 1, 3, 7, 8, 12, 31, 33, rnd.randrange(200)))
            info = dict(type=n, variant=variant or "default", position=pos, fields=describe(obj), params=params)
            s.last = info
            sp = sc_params(schema, d, params)
            st = call(obj.initialize_offsets, pos) if valid or rnd.random() < 0.7 else ("skip", None)
            lay = Layout(schema, BitStream(pos), api)
            try:
                lay.compound(rt, obj, sp, None)
                why = lay.invalid
            except Invalid as x:
                why = [str(x)]
            packed_wide = why == ["range"] and m.wide is None
            if packed_wide:
                continue
            w = W()
            for _ in range(pos):
                w.write_bits(1, 1)
            wr = call(obj.write, w)
            if why:
                s.expect(wr[0] == "exc", what="an object that must be refused is written", reasons=why, **info)
                continue
            s.expect(st[0] != "exc", what="initialize_offsets refuses a valid object", got=st, **info)
            want = "".join(lay.out.bits)
            end = pos + len(want)
            if st[0] == "ok":
                s.expect(st[1] == end, what="initialize_offsets returns the wrong end", got=st[1], want=end, **info)
            size = call(obj.bitsizeof, pos)
            s.expect(size == ("ok", len(want)), what="bitsizeof", got=size, want=len(want), **info)
            s.expect(wr[0] == "ok", what="a valid object is refused", got=wr, **info)
            got = "".join(int_bits(b, 8) for b in w.byte_array)[:w.bitposition]
            s.expect(got == "1" * pos + want, what="written bits", got=got[pos:], want=want, **info)
            r = R(w.byte_array, w.bitposition)
            r.bitposition = pos
            back = call(type(obj).from_reader, r, *params.values())
            s.expect(back[0] == "ok", what="reading what was written fails", got=back, **info)
            tail = lay.out.items and lay.out.items[-1] is None
            if tail:
                continue
            s.expect(r.bitposition == end, what="reader does not end where the object ends", got=r.bitposition, want=end, **info)
            b = back[1]
            s.expect(b == obj and obj == b, what="read object differs from the written one", got=describe(b), **info)
            s.expect(call(hash, b) == call(hash, obj), what="hash codes of equal objects differ", **info)
            w2 = W()
            for _ in range(pos):
                w2.write_bits(1, 1)
            again = call(b.write, w2)
            s.expect(again[0] == "ok" and w2.byte_array == w.byte_array, what="writing the read object again gives other bits",
                     got=again, **info)
            if rnd.random() < 0.5:
                compare(s, rnd, schema, gen, e, d, rt, params, sp, obj, api, fields_same, info, m)
            ext = [f for f in d.fields if d.k == "struct" and f.extend]
            if ext:
                older(s, rnd, schema, rt, obj, sp, api, W, R, pos, ext, info)
    return run(go, seed, budget, hints)


def sc_params(schema, d, params):
    res = {}
    for n, pt in d.params:
        dd = schema.decl(schema.resolve(pt))
        res[n] = zs.EnumV(dd, params[n].value) if dd is not None and dd.k in ("enum", "bitmask") else params[n]
    return res


def compare(s, rnd, schema, gen, e, d, rt, params, sp, obj, api, fields_same, info, m):
    try:
        m2 = RandMaker(schema, gen, e, s.ns, True)
        m2.max_len = 1
        other = m2.compound(rt, params, rt.name)
    except (Retry, Invalid):
        return
    # often one field apart only
    if rnd.random() < 0.7 and d.k == "struct" and d.fields:
        keep = rnd.choice(d.fields)
        for f in d.fields:
            if f is not keep and not f.extend:
                try:
                    setattr(other, api.snake(f.name), api.get(obj, f.name))
                except Exception:
                    return
    lay = Layout(schema, None, api)
    try:
        want = fields_same(lay, rt, obj, other, sp)
    except (Invalid, AttributeError, TypeError):
        return
    got = call(lambda: (obj == other, other == obj))
    s.expect(got == ("ok", (want, want)), what="equality of two objects", got=got, want=want, other=describe(other), **info)
    if want:
        s.expect(call(hash, obj) == call(hash, other), what="hash codes of equal objects differ", other=describe(other), **info)


def older(s, rnd, schema, rt, obj, sp, api, W, R, pos, ext, info):
    k = rnd.randrange(len(ext))
    lay = Layout(schema, BitStream(pos), api, ext=k)
    lay.compound(rt, obj, sp, None)
    if lay.out.items and lay.out.items[-1] is None:
        return
    want = "1" * pos + "".join(lay.out.bits)
    r = R(pack(want), len(want))
    r.bitposition = pos
    back = call(type(obj).from_reader, r)
    s.expect(back[0] == "ok" and r.bitposition == len(want), what="reading a stream without the last %d extended fields" % (len(ext) - k),
             got=(back, r.bitposition), **info)
    for i, f in enumerate(ext):
        got = getattr(back[1], "is_%s_present" % api.snake(f.name))()
        s.expect(got == (i < k), what="presence of extended field " + f.name, got=got, want=i < k, **info)
    w = W()
    for _ in range(pos):
        w.write_bits(1, 1)
    s.expect(call(back[1].write, w)[0] == "ok" and w.byte_array == pack(want), what="extended fields read from an older stream are written differently", **info)


def describe(o, depth=0):
    if hasattr(o, "bitsizeof") and not hasattr(o, "value") and depth < 5:
        return {k: describe(v, depth + 1) for k, v in sorted(vars(o).items())}
    if hasattr(o, "raw_array"):
        return [describe(x, depth + 1) for x in o.raw_array]
    if hasattr(o, "value") and not isinstance(o, (int, str)):
        return "%s(%s)" % (type(o).__name__, o.value)
    return o
