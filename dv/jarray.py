"""Arrays of the Java runtime against an abstract element sequence: stand-ins for the raw array, the element traits and the
bit streams, and the stream (as a sequence of items) that the documented encoding of the array is."""
import z3
from dv import core, jvm, jloops, spec as wire
from dv import jharness as h
from dv.core import PathEnd, from_ubits, from_sbits, ubits
from dv.jharness import RT, run
from dv.jvm import JArr, JBig, JObj, bv, is_z, norm

AR = RT + "array/"
ARRAY = AR + "Array"
IO = RT + "io/"
LIM = 62
NMAX = 1 << 24
jvm.EXC.update({"stub/Raw": AR + "RawArray", "stub/Traits": AR + "ArrayTraits$IntegralArrayTraitsBase", "stub/Elem": AR + "ArrayElement$IntegralArrayElement",
                "stub/Writer": IO + "BitStreamWriter", "stub/Reader": IO + "BitStreamReader", "stub/Checker": AR + "OffsetChecker",
                "stub/Init": AR + "OffsetInitializer"})
I32, I64, V66, V8 = z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(66), z3.BitVecSort(8)
ZERO = z3.BitVecVal(0, 32)


def x32(k):
    return bv(k, 32)


def width_of(d):
    """documented width of a delta: bits of its magnitude (SInt in, BV8 out)"""
    return ubits(d.bit_length(), 8)


class Spec:
    """Elements e(0..n-1). m: maximum delta width (packed arrays), "wide", "one", "none" or None (unpacked array)."""

    def __init__(self, e, m, const, auto, off, packed=None):
        self.e, self.m, self.const, self.auto, self.off = e, m, const, auto, off
        self.done = set()
        self.E = z3.Function("elem", I32, V66)
        self.S = z3.Function("size", V66, I32)
        self.U = z3.Function("U", I32, I32)
        self.M = z3.Function("M", I32, V8)
        self.B = z3.Function("B", I32, V8)
        self.P = z3.Function("P", I32, V66)
        self.End = z3.Function("End", I32, I64)
        self.csize = h.jint(e, "element_size", 1, 72) if const else None
        self.pos = h.jlong(e, "bit_position", 0, 1 << 60)
        self.delta = m is not None
        e.index_hooks.append(self.hook)
        if m == "one":
            self.n = 1
        elif m == "none":
            self.n = 0
        else:
            self.n = h.jint(e, "n", 2 if self.delta else 1, NMAX)
        if self.delta and m not in ("one", "none"):
            if m == "wide":
                e.assume(z3.And(z3.UGT(self.M(self.n), LIM), z3.UGT(self.B(self.n), LIM)))
            else:
                e.assume(z3.And(self.M(self.n) == m, self.B(self.n) == m))
        self.packed = False
        if self.delta and m not in ("one", "none", "wide"):
            self.done.add("early")
            self.hook(0)
            self.done.clear()       # what follows depends on the decision
            w = m + 1 if m else 0
            cond = 7 + self.size(self.elem(0)) + (self.n - 1) * w < 1 + self.usum(self.n)
            self.packed = bool(e.choose(2)) if packed is None else packed
            self.hook(self.n)
            e.assume(cond if self.packed else z3.Not(cond))
        hd = 0
        if auto:
            L = h.inp(e, "varsize_bits", z3.BitVec("varsize_bits", 32))
            e.assume(z3.And(L >= 8, L <= 40))
            self.vs = L
            hd = z3.SignExt(32, L)
        e.assume(self.End(ZERO) == self.pos + hd)
        self.hook(0)
        if self.n == 1:
            self.hook(1)
        at = lambda F: lambda k: z3.ZeroExt(24, F(x32(k)))
        blk = lambda k: z3.If(x32(k) >= 1, z3.BitVecVal(1, 32), ZERO)
        e.jshapes = {"i": [lambda k: x32(k), self.usum, at(self.M), at(self.B), blk,
                           lambda k: z3.If(x32(k) >= 2, z3.BitVecVal(1, 32), ZERO),
                           lambda k: z3.If(z3.And(x32(k) >= 2, z3.ULE(self.B(x32(k)), LIM)), z3.BitVecVal(1, 32), ZERO)],
                     "l": [lambda k: self.End(x32(k)), lambda k: z3.SignExt(32, x32(k)), lambda k: self.End(x32(k)) - self.pos],
                     "big": [lambda k: from_sbits(self.E(x32(k) - 1)), lambda k: from_sbits(self.P(x32(k)))]}
        nn = x32(self.n)
        e.jpreds = [lambda v, k: v >= 1 if v.size() == 32 else z3.BoolVal(False), lambda v, k: v <= nn if v.size() == 32 else z3.BoolVal(False),
                    lambda v, k: v >= k if v.size() == 32 else z3.BoolVal(False)]

    def elem(self, k):
        return self.E(x32(k))

    def size(self, el):
        if self.const:
            return self.csize
        t = self.S(el)
        self.e.assume(z3.And(t >= 1, t <= 72))
        return t

    def usum(self, k):
        return x32(k) * self.csize if self.const else self.U(x32(k))

    def cost(self, k):
        """bits of block k (without alignment)"""
        sz = self.size(self.elem(k))
        if not self.delta:
            return sz
        first = (7 if self.packed else 1) + sz
        if isinstance(k, int) and k == 0:
            return first
        rest = z3.BitVecVal(self.m + 1 if self.m else 0, 32) if self.packed else sz
        return z3.If(x32(k) == 0, first, rest) if is_z(k) else rest

    def align(self, p):
        return ((p + 7) & ~7) if self.off else p

    def hook(self, k):
        e = self.e
        k = norm(k)
        key = str(k)
        if key in self.done:
            return
        self.done.add(key)
        n = x32(self.n)
        for j in (k - 1, k):
            j = norm(j)
            if isinstance(j, int) and j < 0:
                continue
            jz = x32(j)
            el = self.elem(j)
            nxt = z3.simplify(jz + 1)
            ok = z3.And(jz >= 0, jz <= NMAX)
            e.assume(z3.And(el >= -(1 << 63), el <= (1 << 64) - 1))
            sz = self.size(el)
            if self.delta and self.m == 0:
                e.assume(z3.Implies(z3.And(jz >= 0, jz < n), el == self.E(ZERO)))
            if not self.const:
                e.assume(z3.Implies(ok, z3.And(self.U(nxt) == self.U(jz) + sz, self.U(jz) >= 0, self.U(jz) <= 72 * jz)))
            if "early" in self.done:
                e.assume(self.U(ZERO) == 0)
                continue
            e.assume(z3.Implies(ok, self.End(nxt) == self.align(self.End(jz)) + z3.SignExt(32, self.cost(j))))
            # the position stays small (at most 80+7 bits per element)
            e.assume(z3.Implies(ok, z3.And(self.End(jz) >= self.pos, self.End(jz) <= self.pos + 40 + 96 * z3.ZeroExt(32, jz))))
            if self.delta and self.m == 0 and self.packed:
                # nothing but the alignment follows the first element
                f0 = 2 if self.off else 1
                e.assume(z3.Implies(z3.And(ok, jz >= f0), self.End(jz) == self.End(z3.BitVecVal(f0, 32))))
            if isinstance(j, int) and j == 0:
                e.assume(z3.And(self.U(ZERO) == 0))
                if self.delta:
                    one = z3.BitVecVal(1, 32)
                    e.assume(z3.And(self.M(one) == 0, self.B(one) == 0, self.P(one) == self.E(ZERO)))
                continue
            if not self.delta:
                continue
            pos = z3.And(ok, jz >= 1)
            step = width_of(from_sbits(el) - from_sbits(self.elem(norm(jz - 1))))
            e.assume(z3.Implies(pos, self.M(nxt) == z3.If(z3.UGT(step, self.M(jz)), step, self.M(jz))))
            e.assume(z3.Implies(z3.And(pos, jz < n), z3.ULE(self.M(nxt), self.M(n))))        # monotone
            bstep = width_of(from_sbits(el) - from_sbits(self.P(jz)))
            low = z3.ULE(self.B(jz), LIM)
            e.assume(z3.Implies(pos, self.B(nxt) == z3.If(z3.And(low, z3.UGT(bstep, self.B(jz))), bstep, self.B(jz))))
            e.assume(z3.Implies(pos, self.P(nxt) == z3.If(low, el, self.P(jz))))
            # lemma ghost-relation
            e.assume(z3.Implies(pos, z3.If(z3.ULE(self.M(jz), LIM), z3.And(self.B(jz) == self.M(jz), self.P(jz) == self.E(z3.simplify(jz - 1))),
                                           z3.UGT(self.B(jz), LIM))))

    # -- the stream as a sequence of items ----------------------------------
    def items(self, k):
        """items of block k: list of (kind, value, width); k is 0 or a symbolic index >= 1"""
        out = []
        if self.off:
            out += [("align", 8, None), ("offset", k, None)]
        first = isinstance(k, int) and k == 0
        if self.delta and first:
            out.append(("u", 1 if self.packed else 0, 1))
            if self.packed:
                out.append(("u", self.m, 6))
        if not self.delta or first or not self.packed:
            out.append(("elem", self.elem(k), None))
        elif self.m:
            out.append(("s", z3.SignExt(1, self.elem(k)) - z3.SignExt(1, self.elem(norm(x32(k) - 1))), self.m + 1))
        return out

    def blocks(self):
        """value of the block counter after everything was done"""
        if isinstance(self.n, int):
            return self.n
        if self.delta and self.packed and self.m == 0 and not self.off:
            return 1
        return self.n


class World:
    """The stand-ins around one Array object."""

    def __init__(self, e, v, sp, op):
        self.e, self.v, self.sp, self.op = e, v, sp, op
        self.st = JObj("stub/State")
        self.st.f.update(header=0, block=0, sub=0, filled=0, size=0, mark=0)
        self.hooks()
        for nm in ("AUTO", "NORMAL", "IMPLICIT"):
            v.statics[(AR + "ArrayType", nm)] = JObj(AR + "ArrayType", nm)
        v.inited.add(AR + "ArrayType")
        self.raw, self.traits = JObj("stub/Raw"), JObj("stub/Traits")
        self.traits.f["packedArrayTraits"] = None
        for c in v.supers("stub/Traits"):
            k = v.cls(c)
            if k is not None:
                for f, (fl, ds, _c) in k.fields.items():
                    if not fl & 8:
                        self.traits.f[f] = v.default(ds)
        at = v.statics[(AR + "ArrayType", "AUTO" if sp.auto else "NORMAL")]
        ck, ini = (JObj("stub/Checker"), JObj("stub/Init")) if sp.off else (None, None)
        desc = "(L%sRawArray;L%sArrayTraits;L%sArrayType;L%sOffsetChecker;L%sOffsetInitializer;)V" % ((AR,) * 5)
        self.a = v.new(ARRAY, desc, self.raw, self.traits, at, ck, ini)
        if not isinstance(sp.n, int):
            cut = jloops.Cutter(e, [self.st], sp.n)
            for c in ("Array", "DeltaContext", "PackedArrayTraits$IntegralPackedArrayTraits", "ArrayTraits$IntegralArrayTraitsBase"):
                v.loops[AR + c] = cut

    def element(self, val):
        o = JObj("stub/Elem")
        o.f["v"] = val
        return o

    def in_range(self, i):
        sp = self.sp
        ok = z3.And(x32(i) >= 0, x32(i) < x32(sp.n))
        self.e.prove(ok, "element-index-in-range")

    # -- the item monitor --------------------------------------------------
    def item(self, kind, name):
        """the next expected item; checks its kind"""
        e, sp, f = self.e, self.sp, self.st.f
        if sp.auto and f["header"] == 0:
            f["header"] = 1
            e.prove(kind == "varsize", name + ".array-length-first")
            return ("varsize", sp.n, None)
        e.prove(f["header"] == (1 if sp.auto else 0), name + ".header-once")
        b = norm(f["block"])
        if is_z(b) and e.branch(z3.simplify(b == 0)):
            b = 0
        e.prove(x32(b) < x32(sp.n), name + ".no-more-items")
        if is_z(b):
            sp.hook(b)
        its = sp.items(b)
        if not its:
            e.prove(False, name + ".no-more-items")
        if isinstance(f["sub"], int):
            pass
        else:
            raise core.Unsupported("position inside an array block unknown")
        it = its[f["sub"]]
        f["sub"] += 1
        if f["sub"] == len(its):
            f["sub"], f["block"] = 0, norm(x32(b) + 1)
        e.prove(kind == it[0], name + ".kind-of-item", "%s instead of %s" % (kind, it[0]))
        return it

    def wr(self, kind, val, width, name="write"):
        """an item is written: val a BV"""
        it = self.item(kind, name)
        e = self.e
        if it[2] is not None:
            w = norm(width)
            e.prove(bv(w, 32) == it[2], name + ".width")
            want = it[1]
            want = bv(want, 67) if not is_z(want) else want
            v = z3.SignExt(67 - 64, bv(val, 64))
            e.prove(v == (want if want.size() == 67 else z3.SignExt(67 - want.size(), want)), name + ".value")
            if kind == "s":
                n = it[2]
                e.prove(z3.And(v >= -(1 << (n - 1)), v <= (1 << (n - 1)) - 1), name + ".delta-fits")
        return it

    def rd(self, kind, width, name="read"):
        it = self.item(kind, name)
        e = self.e
        if it[2] is not None:
            e.prove(bv(norm(width), 32) == it[2], name + ".width")
            want = it[1]
            if is_z(want):
                n = it[2]
                # the stream holds the delta in n bits (lemma: it fits, see the write side)
                return norm(z3.SignExt(64 - n, z3.Extract(n - 1, 0, want)) if n < 64 else z3.Extract(63, 0, want))
            return want
        return it

    def hooks(self):
        v, e, sp, st = self.v, self.e, self.sp, self.st
        H = v.hooks
        R, T, W, RD = "stub/Raw", "stub/Traits", "stub/Writer", "stub/Reader"
        H[("stub/Elem", "toBigInteger")] = lambda _vm, a: JBig(from_sbits(a[0].f["v"]))
        # raw array
        H[(R, "size")] = lambda _vm, a: st.f["size"] if self.op.startswith("read") else sp.n

        def get_element(_vm, a):
            i = norm(a[1])
            self.in_range(i)
            if is_z(i):
                sp.hook(i)
            return self.element(sp.elem(i))
        H[(R, "getElement")] = get_element

        def reset(_vm, a):
            c = bv(norm(a[1]), 32)
            e.prove(z3.And(c >= 0, c <= x32(sp.n)), "reset.capacity")
            st.f["size"] = norm(c)
            st.f["filled"] = 0

        def resize(_vm, a):
            c = bv(norm(a[1]), 32)
            e.prove(z3.And(c >= bv(st.f["filled"], 32), c <= x32(sp.n)), "resize.size")
            st.f["size"] = norm(c)

        def set_element(_vm, a):
            i = bv(norm(a[2]), 32)
            e.prove(i == bv(st.f["filled"], 32), "setElement.in-order")
            e.prove(z3.And(i >= 0, i < bv(st.f["size"], 32)), "setElement.inside-the-array")
            self.in_range(i)
            e.prove(a[1].f["v"] == sp.elem(i), "setElement.value")
            st.f["filled"] = norm(i + 1)
        H[(R, "reset")], H[(R, "resize")], H[(R, "setElement")] = reset, resize, set_element

        # element traits
        def size_of(_vm, a):
            if sp.const:
                return sp.csize
            return norm(sp.size(a[-1].f["v"]))
        EL = "L%sArrayElement;" % AR
        H[(T, "isBitSizeOfConstant")] = lambda _vm, a: 1 if sp.const else 0
        H[(T, "bitSizeOf", "(%s)I" % EL)] = size_of

        def init_offsets(_vm, a):
            return norm(bv(a[1], 64) + z3.SignExt(32, bv(size_of(_vm, a), 32)))
        H[(T, "initializeOffsets")] = init_offsets

        def from_big(_vm, a):
            x = a[1].v
            if type(x) is int:
                return self.element(z3.BitVecVal(x, 66))
            return self.element(sbits(e, x))
        H[(T, "fromBigInteger")] = from_big

        def traits_write(_vm, a):
            it = self.item("elem", "write")
            e.prove(a[2].f["v"] == it[1], "write.element")

        def traits_read(_vm, a):
            it = self.item("elem", "read")
            return self.element(it[1])
        H[(T, "write")] = traits_write
        H[(T, "read", "(L%sBitStreamReader;)L%sArrayElement$IntegralArrayElement;" % (IO, AR))] = traits_read

        # streams
        H[(W, "writeVarSize")] = lambda _vm, a: e.prove(bv(a[1], 32) == x32(self.item("varsize", "write")[1]), "write.array-length")
        H[(W, "writeBool")] = lambda _vm, a: self.wr("u", z3.If(bv(a[1], 32) != 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)), 1)
        H[(W, "writeBits")] = lambda _vm, a: self.wr("u", a[1], a[2])
        H[(W, "writeSignedBits")] = lambda _vm, a: self.wr("s", a[1], a[2])
        H[(RD, "readVarSize")] = lambda _vm, a: self.item("varsize", "read")[1]
        H[(RD, "readBool")] = lambda _vm, a: self.rd("u", 1)
        H[(RD, "readBits")] = lambda _vm, a: self.rd("u", a[1])
        H[(RD, "readSignedBits")] = lambda _vm, a: self.rd("s", a[1])
        pre = h.jint(e, "max_preallocated", 1)
        H[(RD, "getMaxPreallocatedArraySize")] = lambda _vm, a: pre
        # enough data is present (the capacity check is decided by J06)
        H[(RD, "getBitPosition")] = lambda _vm, a: sp.pos
        H[(RD, "getBufferBitSize")] = lambda _vm, a: self.buffer_bits()
        for s in (W, RD):
            def align(_vm, a, s=s):
                self.item("align", "stream")
                e.prove(bv(a[1], 32) == 8, "stream.alignment")

            def byte_pos(_vm, a):
                # an arbitrary position; what matters is that the one after the alignment is handed to the checker
                x = z3.BitVec(e.fresh("bytepos"), 32)
                e.assume(z3.And(x >= 0, x <= 1 << 30))
                st.f["mark"] = x
                return x
            H[(s, "alignTo")], H[(s, "getBytePosition")] = align, byte_pos

        def check_offset(_vm, a):
            it = self.item("offset", "checkOffset")
            e.prove(bv(a[1], 32) == x32(it[1]), "checkOffset.index")
            e.prove(bv(a[2], 64) == z3.SignExt(32, bv(st.f["mark"], 32)), "checkOffset.position")
            st.f["mark"] = 0
        H[("stub/Checker", "checkOffset")] = check_offset

        def set_offset(_vm, a):
            i = bv(a[1], 32)
            e.prove(i == bv(st.f["filled"], 32), "setOffset.in-order")
            self.in_range(i)
            e.prove(bv(a[2], 64) == z3.LShR(sp.align(sp.End(i)), 3), "setOffset.value")
            st.f["filled"] = norm(i + 1)
        H[("stub/Init", "setOffset")] = set_offset
        BS = RT + "BitSizeOfCalculator"

        def vsize(_vm, a):
            e.prove(bv(a[0], 32) == x32(sp.n), "varsize-of-the-length")
            return sp.vs if sp.auto else h.jint(e, "other_varsize")
        H[(BS, "getBitSizeOfVarSize")] = vsize

    def buffer_bits(self):
        sp = self.sp
        if sp.const:
            need = sp.pos + z3.SignExt(32, sp.csize) * z3.SignExt(32, x32(sp.n))
        else:
            need = sp.pos
        x = z3.BitVec("buffer_bits", 64)
        self.e.assume(z3.And(x >= need, x <= 1 << 62))
        return x


def sbits(e, x):
    """the 66-bit pattern of an exact integer that fits"""
    x = core.lift(x)
    e.prove(core.And(x >= -(1 << 65), x < (1 << 65)), "element-fits")
    return core.ubits(x & ((1 << 66) - 1), 66)


def make(op, m, const, auto, off, packed=None, finish=None):
    pk = "Packed" if m is not None else ""

    def fn(e):
        v = h.vm(e)
        sp = Spec(e, m, const, auto, off, packed)
        w = World(e, v, sp, op)
        f = w.st.f
        n = x32(sp.n)
        if isinstance(sp.n, int) and sp.n == 0:
            end = sp.End(ZERO)
        else:
            sp.hook(sp.n)
            end = sp.End(n)
        if op == "bitSizeOf":
            nm = "bitSizeOf" + pk
            _x, r = run(e, v, lambda: v.vcall(w.a, nm, "(J)I", sp.pos), nm)
            e.prove(bv(r, 32) == z3.Extract(31, 0, end - sp.pos), nm + ".exact")
        elif op == "initializeOffsets":
            nm = "initializeOffsets" + pk
            _x, r = run(e, v, lambda: v.vcall(w.a, nm, "(J)J", sp.pos), nm)
            e.prove(bv(r, 64) == end, nm + ".end-position")
            if off:
                e.prove(bv(f["filled"], 32) == n, nm + ".every-offset-set")
        else:
            if op == "write":
                nm = "write" + pk
                run(e, v, lambda: v.vcall(w.a, nm, "(L%sBitStreamWriter;)V" % IO, JObj("stub/Writer")), nm)
            else:
                nm = "read" + pk
                args, d = ([], "") if auto and op == "read" else ([sp.n], "I")
                run(e, v, lambda: v.vcall(w.a, nm, "(L%sBitStreamReader;%s)V" % (IO, d), JObj("stub/Reader"), *args), nm)
                e.prove(bv(f["filled"], 32) == n, nm + ".every-element")
                e.prove(bv(f["size"], 32) == n, nm + ".array-length")
            e.prove(f["header"] == (1 if auto else 0), nm + ".length-item")
            e.prove(isinstance(f["sub"], int) and f["sub"] == 0, nm + ".complete")
            e.prove(bv(f["block"], 32) == x32(sp.blocks()), nm + ".every-item")
        e.reach("end")
    return fn


def never_larger(e):
    """Lemma: with the documented decision the packed form is strictly smaller than the unpacked one"""
    sp = Spec(e, e.choose(LIM + 1), bool(e.choose(2)), False, False)
    if not sp.packed:
        raise PathEnd()
    w = sp.m + 1 if sp.m else 0
    e.prove(7 + sp.size(sp.elem(0)) + (sp.n - 1) * w < 1 + sp.usum(sp.n), "lemma.packed-only-when-smaller")
    e.reach("end")


def ghost_relation(e):
    """Inductive step of the lemmas over the ghost functions that the other cases assume."""
    E0, E1, P = (z3.BitVec(x, 66) for x in ("e_prev", "e_cur", "p"))
    M, B = z3.BitVec("M", 8), z3.BitVec("B", 8)
    for x in (E0, E1, P):
        e.assume(z3.And(x >= -(1 << 63), x <= (1 << 64) - 1))

    def inv(M, B, P, E):
        return z3.If(z3.ULE(M, LIM), z3.And(B == M, P == E), z3.UGT(B, LIM))
    e.assume(inv(M, B, P, E0))
    step = width_of(from_sbits(E1) - from_sbits(E0))
    M1 = z3.If(z3.UGT(step, M), step, M)
    bstep = width_of(from_sbits(E1) - from_sbits(P))
    low = z3.ULE(B, LIM)
    B1 = z3.If(z3.And(low, z3.UGT(bstep, B)), bstep, B)
    P1 = z3.If(low, E1, P)
    e.prove(inv(M1, B1, P1, E1), "lemma.ghost-relation")
    e.prove(z3.UGE(M1, M), "lemma.monotone-step")
    e.prove(inv(z3.BitVecVal(0, 8), z3.BitVecVal(0, 8), E0, E0), "lemma.ghost-base")
    e.reach("end")


def bounds_lemma(e):
    """Inductive step of the bounds on the ghost sums and positions."""
    U, k, s = z3.BitVec("U", 32), z3.BitVec("k", 32), z3.BitVec("s", 32)
    e.assume(z3.And(k >= 0, k <= NMAX, s >= 1, s <= 72, U >= 0, U <= 72 * k))
    e.prove(z3.And(U + s >= 0, U + s <= 72 * (k + 1)), "lemma.sum-bound")
    p, x, c = z3.BitVec("pos", 64), z3.BitVec("End", 64), z3.BitVec("cost", 64)
    k64 = z3.ZeroExt(32, k)
    e.assume(z3.And(p >= 0, p <= 1 << 60, x >= p, x <= p + 40 + 96 * k64, c >= 0, c <= 79))
    for a in (x, (x + 7) & ~7):
        e.prove(z3.And(a + c >= p, a + c <= p + 40 + 96 * (k64 + 1)), "lemma.position-bound")
    e.reach("end")
