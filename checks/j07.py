"""J07  byte sequences, strings and bit buffers of the Java runtime's streams."""
import z3
from dv import jloops
from dv import jharness as h
from dv.core import PathEnd, Unsupported
from dv.jharness import IAE, IO, RD, RT, WR, ZE, run
from dv.jvm import JArr, JObj, NATIVE, bv, is_z, norm
from dv.runner import Case

BB, BS, ST = IO + "BitBuffer", RT + "BitSizeOfCalculator", "java/lang/String"
IOE = "java/io/IOException"
TECHNIQUE = "deductive: contracts on the real Java methods, obligations generated by symbolic execution of their bytecode (compiled from the current source), loops cut with inductive invariants, discharged by z3"
FUNCTIONS = ["ByteArrayBitStreamWriter.writeBytes", "ByteArrayBitStreamWriter.writeString", "ByteArrayBitStreamWriter.writeBitBuffer", "ByteArrayBitStreamWriter.write(byte[], int, int) (inlined)",
             "ByteArrayBitStreamReader.readBytes", "ByteArrayBitStreamReader.readString", "ByteArrayBitStreamReader.readBitBuffer", "ByteArrayBitStreamReader.read(byte[], int, int) (inlined)",
             "BitSizeOfCalculator.getBitSizeOfBytes/String/BitBuffer", "VarSizeUtil.convertBitBufferSizeToInt (inlined)", "BitBuffer constructors and getters (inlined)"]
TRUSTED = ["javac (the verified text is its bytecode for the current source)", "dv.jvm: JVM bytecode semantics; System.arraycopy; String.getBytes and new String(bytes) as the UTF-8 conversions", "z3"]
ASSUMPTIONS = ["the contracts of writeBitsImpl, readBits (check J01) and of the varsize functions (check J02)",
               "byte position of a writer plus what it appends below 2^31 - 64 bytes (a Java array cannot be longer); sizes in bits below 2^31 where they are predicted (the size functions return int)"]
NOTE = "all lengths, contents, byte positions and bit offsets; loops by inductive invariants"
prepare = h.prepare
ZERO = z3.BitVecVal(0, 32)


class Content:
    """What is written: bits of any number, given as bytes (the last one may be used in part)."""

    def __init__(self, e, v, kind):
        self.e, self.v, self.kind = e, v, kind
        self.A = z3.Array("content", z3.BitVecSort(32), z3.BitVecSort(8))
        A = self.A
        base = lambda i: z3.Select(A, i)
        if kind == "bits":
            self.bits = h.jint(e, "bit_size", 0)
            whole = z3.Extract(31, 0, z3.LShR(z3.ZeroExt(32, self.bits) + 7, 3))
            self.n = whole
            length = h.jint(e, "content_length", 0)
            e.assume(length >= whole)
            self.rest = self.bits & 7
            self.full = z3.LShR(self.bits, 3)
            self.size = self.bits
            _x, self.obj = run(e, v, lambda: v.new(BB, "([BJ)V", JArr("B", length, base=base), z3.SignExt(32, self.bits)), "new BitBuffer")
        else:
            self.n = self.full = h.jint(e, "length", 0, 2 ** 31 - 128)
            self.rest = ZERO
            self.size = self.n
            self.obj = JArr("B", self.n, base=base)
            if kind == "string":
                self.obj = JObj(ST)
                v.hooks[(ST, "getBytes")] = lambda vm, a: JArr("B", self.n, base=base)
                v.hooks[(ST, "length")] = self._opaque
                v.hooks[(ST, "isEmpty")] = lambda vm, a: z3.If(self.n == 0, z3.BitVecVal(1, 32), ZERO)

    def _opaque(self, vm, a):
        # a string has at least a third of its UTF-8 bytes as characters, and at most as many
        x = z3.BitVec("characters", 32)
        self.e.assume(z3.And(x >= 0, x <= self.n, z3.UGE(3 * z3.ZeroExt(2, x), z3.ZeroExt(2, self.n))))
        return x

    def byte(self, i):
        return z3.Select(self.A, i)


METHODS = dict(bytes=("writeBytes", "([B)V", "readBytes", "()[B"), string=("writeString", "(L%s;)V" % ST, "readString", "()L%s;" % ST),
               bits=("writeBitBuffer", "(L%s;)V" % BB, "readBitBuffer", "()L%s;" % BB))


class Stream:
    """The writer appends: every write has to start where the last one ended, and the bits are checked against the content."""

    def __init__(self, e, v, c, off):
        self.e, self.v, self.c, self.off = e, v, c, off
        v.init(WR)
        self.w = v.alloc(WR)
        self.P = h.jint(e, "byte_position", 0, 2 ** 31 - 64)
        L = h.jint(e, "buffer_length", 0, 2 ** 31 - 9)
        e.inputs["bit_offset"] = z3.BitVecVal(off, 32)
        B = z3.Array("buffer", z3.BitVecSort(32), z3.BitVecSort(8))
        self.w.f.update(buffer=JArr("B", L, base=lambda i: z3.Select(B, i)), bytePosition=self.P, bitOffset=off)
        if off:
            e.assume(self.P < L)        # the byte in progress is in the buffer
        self.prefix = h.jint(e, "prefix_bytes", 1, 5)
        e.assume(z3.ZeroExt(4, self.P) + z3.ZeroExt(4, self.prefix) + z3.ZeroExt(4, c.n) <= 2 ** 31 - 64)
        self.g = JObj("ghost/Stream")
        self.g.f.update(prefixed=ZERO, bytes=ZERO, rest=ZERO)
        v.hooks[(WR, "writeVarSize", "(I)V")] = self._prefix
        for nm, d, n in (("writeByte", "(B)V", 8), ("writeBool", "(Z)V", 1), ("writeShort", "(S)V", 16), ("writeInt", "(I)V", 32)):
            v.hooks[(WR, nm, d)] = lambda _v, a, n=n: self._put(z3.SignExt(32, bv(a[1], 32)), n)
        v.hooks[(WR, "writeLong", "(J)V")] = lambda _v, a: self._put(bv(a[1], 64), 64)
        if h.has(WR, "writeBitsImpl", "(JI)V"):
            v.hooks[(WR, "writeBitsImpl", "(JI)V")] = lambda _v, a: self._put(bv(a[1], 64), a[2])
        v.hooks[(WR, "writeBits", "(JI)V")] = self._checked
        v.hooks[("java/lang/System", "arraycopy")] = self._copy
        self.capacity()

    def capacity(self):
        """writing methods for arrays make room first (verified by J01); where it goes, arraycopy checks"""
        v = self.v

        def hook(_vm, a):
            w, n = a[0], bv(norm(a[1]), 32)
            self.e.prove(n >= 0, "ensureCapacity.precondition")
            need = bv(w.f["bytePosition"], 32) + z3.LShR(n, 3) + z3.If(n & 7 == 0, ZERO, z3.BitVecVal(1, 32))
            self.e.prove(z3.And(need >= bv(w.f["bytePosition"], 32), need <= 2 ** 31 - 10), "ensureCapacity.precondition")
            self._grow(w, need)
        if h.has(WR, "ensureCapacity", "(I)V"):
            v.hooks[(WR, "ensureCapacity", "(I)V")] = hook
        if h.has(WR, "growBuffer", "(I)V"):
            def grow(_vm, a):
                need = bv(a[1], 32)
                self.e.prove(z3.And(need >= 0, need <= 2 ** 31 - 9), "growBuffer.precondition")
                self._grow(a[0], need - 1)
            v.hooks[(WR, "growBuffer", "(I)V")] = grow

    def _grow(self, w, need):
        """the buffer is longer than `need`, its content (not looked at here) is the same"""
        e = self.e
        e.fresh_counter += 1
        ln = z3.BitVec("grown_length!%d" % e.fresh_counter, 32)
        e.assume(z3.And(ln > need, ln >= bv(w.f["buffer"].length, 32), ln <= 2 ** 31 - 9))
        w.f["buffer"] = JArr("B", ln, base=lambda i: z3.BitVecVal(0, 8))

    def _here(self, name):
        """the next bit to be written is where the last one ended"""
        f, g = self.w.f, self.g.f
        bits = bv(f["bitOffset"], 32) + 8 * (bv(f["bytePosition"], 32) - self.P - self.prefix)
        self.e.prove(bv(g["prefixed"], 32) == 1, name + ".length-first")
        self.e.prove(bits == self.off + 8 * bv(g["bytes"], 32) + bv(g["rest"], 32), name + ".appends")

    def _prefix(self, vm, a):
        f, g = self.w.f, self.g.f
        self.e.prove(z3.And(bv(g["prefixed"], 32) == 0, bv(f["bytePosition"], 32) == self.P, bv(f["bitOffset"], 32) == self.off), "length.first")
        self.e.prove(bv(a[1], 32) == self.c.size, "length.exact")
        g["prefixed"] = z3.BitVecVal(1, 32)
        f["bytePosition"] = norm(self.P + self.prefix)

    def _checked(self, vm, a):
        n = norm(a[2])
        n = self.e.concretize(n) if is_z(n) else n
        x = bv(a[1], 64)
        if not 1 <= n <= 63 or not self.e.branch(z3.simplify(z3.And(x >= 0, x <= (1 << n) - 1))):
            vm.throw(IAE)
        self._put(x, n)

    def _put(self, x, n):
        e, f, g, c = self.e, self.w.f, self.g.f, self.c
        n = norm(n)
        n = e.concretize(n) if is_z(n) else n
        e.prove(1 <= n <= 64, "writeBitsImpl.precondition")
        self._here("content")
        at = bv(g["bytes"], 32)
        r = norm(g["rest"])
        if is_z(r):
            raise Unsupported("content in pieces of unknown size")
        k = (r + n + 7) // 8
        bs = [c.byte(at + i) for i in range(k)]
        o = z3.Concat(*bs) if k > 1 else bs[0]
        full, rest = divmod(r + n, 8)
        used = z3.ZeroExt(3, c.full) * 8 + z3.ZeroExt(3, c.rest)
        e.prove(z3.ZeroExt(3, at) * 8 + (r + n) <= used, "content.not-too-long")
        e.prove(z3.Extract(n - 1, 0, x) == z3.Extract(8 * k - r - 1, 8 * k - r - n, o), "content.bits")
        g["bytes"], g["rest"] = norm(at + full), rest
        f_end = norm(bv(f["bitOffset"], 32) + n)
        f["bytePosition"] = norm(bv(f["bytePosition"], 32) + z3.LShR(bv(f_end, 32), 3))
        f["bitOffset"] = norm(bv(f_end, 32) & 7)

    def _copy(self, vm, a):
        src, sp, dst, dp, n = a
        f, g, e, c = self.w.f, self.g.f, self.e, self.c
        if dst is not f["buffer"] or dst is src:
            return NATIVE[("java/lang/System", "arraycopy")](vm, *a)
        sp, dp, n = (bv(norm(x), 32) for x in (sp, dp, n))
        wide = lambda x: z3.SignExt(32, x)
        for p, ln in ((sp, bv(src.length, 32)), (dp, bv(dst.length, 32))):
            e.prove(z3.And(p >= 0, n >= 0, wide(p) + wide(n) <= wide(ln)), "copy.in-range")
        self._here("content")
        e.prove(z3.And(dp == bv(f["bytePosition"], 32), bv(f["bitOffset"], 32) == 0, bv(g["rest"], 32) == 0), "copy.at-position")
        at = bv(g["bytes"], 32)
        e.prove(wide(at) + wide(n) <= wide(c.full), "copy.not-too-long")
        j = z3.BitVec(e.fresh("copied"), 32)
        e.prove(z3.Implies(z3.And(j >= 0, j < n), bv(src.raw(norm(sp + j)), 8) == c.byte(at + j)), "copy.bits")
        g["bytes"] = norm(at + n)

    def done(self, name):
        f, g, c = self.w.f, self.g.f, self.c
        self.e.prove(z3.And(bv(g["bytes"], 32) == c.full, bv(g["rest"], 32) == c.rest), name + ".everything-written")
        self._here(name)


def writing(kind, off):
    nm, desc = METHODS[kind][:2]

    def fn(e):
        v = h.vm(e)
        c = Content(e, v, kind)
        s = Stream(e, v, c, off)
        e.jshapes = {"i": [lambda k: bv(k, 32), lambda k: s.P + s.prefix + bv(k, 32)], "l": [], "big": []}
        e.jpreds, e.jfacts = [], []
        v.loops[WR] = jloops.Cutter(e, [s.g], c.full)
        run(e, v, lambda: v.vcall(s.w, nm, desc, c.obj), nm)
        s.done(nm)
        e.reach("end")
    return Case("%s-at-%d" % (nm, off), fn)


def size_of(kind):
    nm = "getBitSizeOf" + dict(bytes="Bytes", string="String", bits="BitBuffer")[kind]
    desc = "(" + METHODS[kind][1][1:-2] + ")I"

    def fn(e):
        v = h.vm(e)
        c = Content(e, v, kind)
        p = h.jint(e, "prefix_bytes", 1, 5)
        asked = []

        def prefix(vm, a):
            e.prove(bv(a[0], 32) == c.size, nm + ".length")
            asked.append(1)
            return 8 * p
        v.hooks[(BS, "getBitSizeOfVarSize", "(I)I")] = prefix
        total = z3.ZeroExt(8, p) * 8 + z3.ZeroExt(8, c.full) * 8 + z3.ZeroExt(8, c.rest)
        e.assume(total <= 2 ** 31 - 1)
        _x, r = run(e, v, lambda: v.call(BS, nm, desc, c.obj), nm)
        e.prove(len(asked) == 1, nm + ".prefix")
        e.prove(bv(r, 32) == z3.Extract(31, 0, total), nm + ".exact")
        e.reach("end")
    return Case(nm, fn)


class Source(h.Reader):
    """A reader whose varsize and fixed-width reads are replaced by their contracts."""

    def __init__(self, e, v, off):
        h.Reader.__init__(self, e, v, off)
        e.assume(self.P <= self.L)
        e.assume(z3.Implies(self.P == self.L, off == 0))
        e.assume(self.L <= 2 ** 31 - 9)
        self.size_read = h.jint(e, "stored_size", 0)
        self.prefix = h.jint(e, "prefix_bytes", 1, 5)
        self.rejected = False
        self.g = JObj("ghost/Source")
        self.g.f["prefixed"] = ZERO
        v.hooks[(RD, "readVarSize", "()I")] = self._prefix
        v.hooks[(RD, "readBits", "(I)J")] = lambda _v, a: self._bits(a[1], False, 64)
        v.hooks[(RD, "readSignedBits", "(I)J")] = lambda _v, a: self._bits(a[1], True, 64)
        v.hooks[(RD, "readByte", "()B")] = lambda _v, a: self._bits(8, True, 32)
        v.hooks[(RD, "readUnsignedByte", "()S")] = lambda _v, a: self._bits(8, False, 32)
        if h.has(RD, "readBitsImpl", "(I)J"):
            v.hooks[(RD, "readBitsImpl", "(I)J")] = lambda _v, a: self._bits(a[1], False, 64)

    def now(self):
        f = self.r.f
        return z3.SignExt(32, bv(f["bytePosition"], 32)) * 8 + z3.SignExt(32, bv(f["bitOffset"], 32))

    def after_prefix(self):
        return self.pos() + 8 * z3.SignExt(32, self.prefix)

    def _prefix(self, vm, a):
        self.e.prove(bv(self.g.f["prefixed"], 32) == 0, "length.first")
        if not self.e.branch(self.after_prefix() <= self.size()):
            self.rejected = True
            vm.throw(IOE)
        self.g.f["prefixed"] = z3.BitVecVal(1, 32)
        self.r.f["bytePosition"] = norm(self.P + self.prefix)
        return self.size_read

    def _bits(self, n, signed, w):
        e, f = self.e, self.r.f
        n = norm(n)
        n = e.concretize(n) if is_z(n) else n
        if not 1 <= n <= (64 if signed else 63):
            self.vm.throw(IAE)
        if not e.branch(self.now() + n <= self.size()):
            self.vm.throw(IOE)
        off = norm(f["bitOffset"])
        if is_z(off):
            raise Unsupported("reading at an unknown bit offset")
        p = bv(f["bytePosition"], 32)
        k = (off + n + 7) // 8
        bs = [z3.Select(self.A, p + i) for i in range(k)]
        o = z3.Concat(*bs) if k > 1 else bs[0]
        r = z3.Extract(8 * k - off - 1, 8 * k - off - n, o)
        f["bytePosition"], f["bitOffset"] = norm(p + (off + n) // 8), (off + n) % 8
        return norm((z3.SignExt if signed else z3.ZeroExt)(w - n, r)) if n < w else norm(r)

    def byte(self, j, mask=None):
        """byte j of the content"""
        p, off = self.P + self.prefix + j, self.off
        b = z3.Select(self.A, p)
        if off == 0:
            return b
        return (b << off) | z3.LShR(z3.Select(self.A, p + 1), 8 - off)


def reading(kind, off):
    nm, desc = METHODS[kind][2:]

    def fn(e):
        v = h.vm(e)
        s = Source(e, v, off)
        n = s.size_read
        full = z3.LShR(n, 3) if kind == "bits" else n
        rest = n & 7 if kind == "bits" else ZERO
        bits = z3.SignExt(32, n) * (1 if kind == "bits" else 8)
        e.jshapes = {"i": [lambda k: bv(k, 32), lambda k: s.P + s.prefix + bv(k, 32)], "l": [], "big": []}
        e.jpreds, e.jfacts = [], [lambda k: s.now() <= s.size()]
        e.jarrays = [lambda k, j: z3.If(j < k, s.byte(j), z3.BitVecVal(0, 8))]
        v.loops[RD] = jloops.Cutter(e, [s.g], full)
        texts = []

        def text(vm, a):
            e.prove(len(a) == 3 and a[2] in ("UTF-8", None) or isinstance(a[2], JObj), nm + ".charset")
            texts.append(a[1])
            a[0].tag = a[1]
        v.hooks[(ST, "<init>")] = text
        ex, r = run(e, v, lambda: v.vcall(s.r, nm, desc), nm, (IOE,))
        if s.rejected:
            e.prove(ex is not None, nm + ".end-of-stream")
            return
        fits = s.after_prefix() + bits <= s.size()
        e.prove(fits if ex is None else z3.Not(fits), nm + (".only-inside-the-stream" if ex is None else ".accepts-what-is-there"))
        if ex is not None:
            return
        e.prove(s.now() == s.after_prefix() + bits, nm + ".position")
        j = h.jint(e, "index", 0)
        if kind == "bits":
            _x, size = run(e, v, lambda: v.vcall(r, "getBitSize", "()J"), "getBitSize")
            e.prove(bv(size, 64) == bits, nm + ".bit-size")
            _x, r = run(e, v, lambda: v.vcall(r, "getBuffer", "()[B"), "getBuffer")
            whole = z3.Extract(31, 0, z3.LShR(z3.ZeroExt(32, n) + 7, 3))
        else:
            whole = n
            if kind == "string":
                e.prove(len(texts) == 1, nm + ".text")
                r = texts[0]
        e.prove(bv(r.length, 32) == whole, nm + ".length")
        got = bv(r.raw(j), 8)
        e.prove(z3.Implies(j < full, got == s.byte(j)), nm + ".content")
        if kind == "bits":
            mask = ~z3.LShR(z3.BitVecVal(255, 8), z3.Extract(7, 0, rest))
            e.prove(z3.Implies(z3.And(rest != 0, j == full), got & mask == s.byte(j) & mask), nm + ".last-bits")
        e.reach("end")
    return Case("%s-at-%d" % (nm, off), fn)


def cases(tier):
    return [f(k, off) for k in METHODS for f in (reading, writing) for off in range(8)] + [size_of(k) for k in METHODS]


def search(seed, budget, hints):
    return h.search("JSearch", "J07", seed, budget, hints)
