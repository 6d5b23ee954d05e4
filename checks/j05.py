"""J05  bounds, alignment, numBits and bit buffers of the Java runtime."""
import z3
from dv import core, jvm, jloops
from dv import jharness as h
from dv.core import from_sbits
from dv.jharness import RT, IO, IAE, ZE, run
from dv.jvm import JArr, JBig, JObj, XInt, bv, is_z, norm
from dv.runner import Case

BF, BP, BO, BB = RT + "BitFieldUtil", RT + "BitPositionUtil", RT + "BuiltInOperators", IO + "BitBuffer"
TECHNIQUE = "deductive: contracts on the real Java methods, obligations generated by symbolic execution of their bytecode (compiled from the current source), loops cut with inductive invariants, discharged by z3"
FUNCTIONS = ["BitFieldUtil.getBitFieldLowerBound", "BitFieldUtil.getBitFieldUpperBound", "BitPositionUtil.alignTo", "BitPositionUtil.bitsToBytes",
             "BitPositionUtil.bytesToBits", "BuiltInOperators.numBits(long)", "BuiltInOperators.numBits(BigInteger)", "BitBuffer(byte[], long)", "BitBuffer(byte[])",
             "BitBuffer.equals", "BitBuffer.hashCode", "BitBuffer.getBuffer, getBitSize, getByteSize, getMaskedLastByte", "HashCodeUtil.calcHashCode(int, int) (inlined)"]
TRUSTED = ["javac (the verified text is its bytecode for the current source)",
           "dv.jvm: JVM bytecode semantics; BigInteger as exact integers; ByteBuffer.wrap/equals and Arrays.equals by their documented meaning", "z3"]
ASSUMPTIONS = ["alignments are positive and positions at most 2^62 (no zserio stream is longer)", "bit buffers are created with a non-negative bit size"]
NOTE = "all lengths, positions, alignments, counts and bit buffers of any size (loop invariants); numBits of big integers of up to 128 bits (the type has 64)"
prepare = h.prepare


def bounds(e):
    v = h.vm(e)
    n = h.jint(e, "length")
    sg = e.choose(2)
    mx = 64 if sg else 63
    ok = z3.And(n >= 1, n <= mx)
    e.inputs["signed"] = z3.BitVecVal(sg, 8)
    for nm in ("Lower", "Upper"):
        f = "getBitField%sBound" % nm
        ex, r = run(e, v, lambda: v.invoke(BF, f, "(IZ)J", [n, sg]), f, (ZE, IAE))
        e.prove(ok if ex is None else z3.Not(ok), f + ".valid-lengths-only")
        if ex is None:
            one = z3.BitVecVal(1, 64)
            k = z3.ZeroExt(32, n)
            want = (-(one << (k - 1)) if nm == "Lower" else (one << (k - 1)) - 1) if sg else (z3.BitVecVal(0, 64) if nm == "Lower" else (one << k) - 1)
            e.prove(bv(r, 64) == want, f + ".exact")
            e.reach("end")


def align(e):
    v = h.vm(e)
    p, a = e.int("position", 0, 1 << 62), e.int("alignment", 1, 2 ** 31 - 1)
    _x, r = run(e, v, lambda: v.invoke(BP, "alignTo", "(IJ)J", [XInt(a, 32), XInt(p, 64)]), "alignTo")
    r = XInt.of(r)
    q = e.int("quotient", register=False)
    e.prove(core.And(r >= p, r < p + a), "alignTo.smallest-not-below")
    # a multiple: the remainder of the exact division is zero
    d, m = divmod(core.LInt.of(r), core.LInt.of(a))
    e.prove(core.eq(m, 0), "alignTo.multiple")
    e.reach("end")


def bytes_bits(e):
    v = h.vm(e)
    x = h.jlong(e, "count")
    ex, r = run(e, v, lambda: v.invoke(BP, "bitsToBytes", "(J)J", [x]), "bitsToBytes", (ZE, IAE))
    e.prove((x & 7 == 0) if ex is None else (x & 7 != 0), "bitsToBytes.whole-bytes-only")
    if ex is None:
        e.prove(bv(r, 64) == x >> 3, "bitsToBytes.exact")
    _x, r = run(e, v, lambda: v.invoke(BP, "bytesToBits", "(J)J", [x]), "bytesToBits")
    e.prove(bv(r, 64) == x << 3, "bytesToBits.exact")
    e.reach("end")


def bits_of(n, x, w):
    """documented value: bits needed to number x different things"""
    one = z3.BitVecVal(1, w)
    return z3.If(x <= 0, n == 0, z3.If(x == 1, n == 1, z3.And(n >= 1, n <= w - 1, z3.LShR(x - 1, nn(n, w) - 1) == one)))


def nn(n, w):
    return z3.ZeroExt(w - n.size(), n) if w > n.size() else n


def numbits_long(e):
    v = h.vm(e)
    x = h.jlong(e, "count")
    _x, r = run(e, v, lambda: v.invoke(BO, "numBits", "(J)S", [x]), "numBits")
    e.prove(bits_of(bv(r, 32), x, 64), "numBits.exact")
    e.reach("end")


def numbits_big(e):
    v = h.vm(e)
    x = z3.BitVec("count", 128)
    e.inputs["s:count"] = x
    _x, r = run(e, v, lambda: v.invoke(BO, "numBits", "(Ljava/math/BigInteger;)S", [JBig(from_sbits(x))]), "numBits")
    e.prove(bits_of(bv(r, 32), x, 128), "numBits.big.exact")
    e.reach("end")


# ---------------------------------------------------------------- bit buffers
class Buf:
    """The bytes a bit buffer is made of."""

    def __init__(self, e, v, name, size, slack=True):
        self.e, self.size = e, size
        self.A = z3.Array(name, z3.BitVecSort(32), z3.BitVecSort(8))
        self.n = z3.Extract(31, 0, z3.LShR(size + 7, 3))
        self.L = h.jint(e, name + "_length", 0)
        e.assume(self.L >= self.n)
        A = self.A
        self.arr = JArr("B", self.L, base=lambda i: z3.Select(A, i))

    def byte(self, i):
        """byte i of the buffer, its unused bits cleared"""
        i = bv(i, 32)
        b = z3.Select(self.A, i)
        r = z3.Extract(7, 0, self.size & 7)
        return z3.If(z3.And(i == self.n - 1, r != 0), b & (z3.BitVecVal(0xff, 8) << (8 - r)), b)


def new(v, b):
    return v.new(BB, "([BJ)V", b.arr, b.size)


def native(e, v, idx):
    """ByteBuffer.wrap(array, offset, length).equals(other): equal lengths and bytes. The truth value is fresh; true implies
    equality at the index of interest, false that some index differs (recorded in idx)."""
    def wrap(vm, arr, off=0, ln=None):
        o = JObj("java/nio/ByteBuffer", (arr.snapshot(), bv(off, 32), bv(arr.length if ln is None else ln, 32)))
        ln = arr.length if ln is None else ln

        e.prove(z3.And(bv(off, 32) >= 0, bv(ln, 32) >= 0, z3.SignExt(32, bv(off, 32)) + z3.SignExt(32, bv(ln, 32)) <= z3.SignExt(32, bv(arr.length, 32))), "wrap.in-range")
        return o

    def same(x, y):
        (a, ao, al), (b, bo, bl) = x, y
        e.fresh_counter += 1
        R, w = z3.Bool("same!%d" % e.fresh_counter), z3.BitVec("differs_at!%d" % e.fresh_counter, 32)
        at = lambda j: bv(a.raw(norm(ao + j)), 8) == bv(b.raw(norm(bo + j)), 8)
        j = idx["j"]
        e.assume(z3.Implies(R, z3.And(al == bl, z3.Implies(z3.And(j - ao >= 0, j - ao < al), at(j - ao)))))
        e.assume(z3.Implies(z3.And(z3.Not(R), al == bl), z3.And(w >= 0, w < al, z3.Not(at(w)))))
        idx["differs"].append(w + ao)
        return z3.If(R, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    return wrap, same


def equality(e):
    v = h.vm(e)
    size = h.jlong(e, "bit_size", 0, 8 * (2 ** 31 - 9))
    size2 = h.jlong(e, "other_bit_size", 0, 8 * (2 ** 31 - 9))
    if e.choose(2):
        e.assume(size == size2)
        size2 = size
    else:
        e.assume(size != size2)
    X, Y = Buf(e, v, "x", size), Buf(e, v, "y", size2)
    j = h.jint(e, "index")
    idx = dict(j=j, differs=[])
    wrap, same = native(e, v, idx)
    v.hooks[("java/nio/ByteBuffer", "wrap")] = lambda vm, a: wrap(vm, *a)
    v.hooks[("java/nio/ByteBuffer", "equals")] = lambda vm, ab: same(ab[0].tag, ab[1].tag)
    v.hooks[("java/util/Arrays", "equals", "([B[B)Z")] = lambda vm, ab: arrays(*ab)
    arrays = lambda a, b: same((a, z3.BitVecVal(0, 32), bv(a.length, 32)), (b, z3.BitVecVal(0, 32), bv(b.length, 32)))
    # a loop over the bytes, if there is one: those seen are equal
    e.jshapes = {"i": [lambda k: bv(k, 32)], "l": [], "big": []}
    e.jpreds = []
    e.jfacts = [lambda k: z3.Implies(z3.And(j >= 0, j < bv(k, 32)), z3.Select(X.A, j) == z3.Select(Y.A, j))]
    v.loops[BB] = jloops.Cutter(e, [], X.n)
    e.index_hooks.append(lambda k: idx["differs"].extend([bv(k, 32), bv(k, 32) - 1]))
    _e, x = run(e, v, lambda: new(v, X), "new BitBuffer")
    _e, y = run(e, v, lambda: new(v, Y), "new BitBuffer")
    _e, r = run(e, v, lambda: v.vcall(x, "equals", "(Ljava/lang/Object;)Z", y), "equals")
    if e.branch(z3.simplify(bv(r, 32) != 0)):
        e.prove(size == size2, "equals.same-size")
        e.prove(z3.Implies(z3.And(j >= 0, j < X.n), X.byte(j) == Y.byte(j)), "equals.true-only-if-used-bits-equal")
    else:
        ws = idx["differs"] + [X.n - 1]
        e.prove(z3.Or(size != size2, *[z3.And(w >= 0, w < X.n, X.byte(w) != Y.byte(w)) for w in ws]), "equals.false-only-if-a-used-bit-differs")
    e.reach("end")


def equals_other(e):
    v = h.vm(e)
    X = Buf(e, v, "x", h.jlong(e, "bit_size", 0, 8 * (2 ** 31 - 9)))
    _e, x = run(e, v, lambda: new(v, X), "new BitBuffer")
    o = [None, JObj("java/lang/Object"), "text"][e.choose(3)]
    _e, r = run(e, v, lambda: v.vcall(x, "equals", "(Ljava/lang/Object;)Z", o), "equals")
    e.prove(bv(r, 32) == 0, "equals.other-object")
    e.reach("end")


def hashing(e):
    v = h.vm(e)
    size = h.jlong(e, "bit_size", 0, 8 * (2 ** 31 - 9))
    X = Buf(e, v, "x", size)
    H = z3.Function("H", z3.BitVecSort(32), z3.BitVecSort(32))
    zero = z3.BitVecVal(0, 32)

    def hook(k):
        k = bv(k, 32)
        for i in (k - 1, k):
            e.assume(z3.Implies(z3.And(i >= 0, i < X.n), H(i + 1) == 37 * H(i) + z3.SignExt(24, X.byte(i))))
    e.assume(H(zero) == 23)
    e.index_hooks.append(hook)
    hook(X.n)
    hook(0)
    hook(1)
    e.jshapes = {"i": [lambda k: bv(k, 32), lambda k: H(bv(k, 32))], "l": [], "big": []}
    e.jpreds, e.jfacts = [], []
    _e, x = run(e, v, lambda: new(v, X), "new BitBuffer")
    v.loops[BB] = jloops.Cutter(e, [], z3.simplify(X.n - 1))
    v.loops[RT + "HashCodeUtil"] = v.loops[BB]
    _e, r = run(e, v, lambda: v.vcall(x, "hashCode", "()I"), "hashCode")
    e.prove(bv(r, 32) == H(X.n), "hashCode.used-bits-only")
    e.reach("end")


def content(e):
    v = h.vm(e)
    whole = e.choose(2)
    j = h.jint(e, "index", 0)
    if whole:
        L = h.jint(e, "x_length", 0)
        size = 8 * z3.SignExt(32, L)
        X = Buf(e, v, "x", size)
        e.assume(X.L == L)
        make = lambda: v.new(BB, "([B)V", X.arr)
    else:
        size = h.jlong(e, "bit_size", 0, 8 * (2 ** 31 - 9))
        X = Buf(e, v, "x", size)
        make = lambda: new(v, X)
    _e, x = run(e, v, make, "new BitBuffer")
    # the buffer has its own copy
    v.e.assume(z3.And(j < X.n))
    X.arr.store(norm(j), z3.BitVec("overwritten", 8))
    _e, r = run(e, v, lambda: v.vcall(x, "getBitSize", "()J"), "getBitSize")
    e.prove(bv(r, 64) == size, "getBitSize.exact")
    _e, r = run(e, v, lambda: v.vcall(x, "getByteSize", "()I"), "getByteSize")
    e.prove(bv(r, 32) == X.n, "getByteSize.exact")
    _e, b = run(e, v, lambda: v.vcall(x, "getBuffer", "()[B"), "getBuffer")
    e.prove(bv(b.length, 32) == X.n, "getBuffer.length")
    e.prove(bv(b.raw(norm(j)), 8) == z3.Select(X.A, j), "getBuffer.content")
    e.reach("end")


def rejects(e):
    v = h.vm(e)
    size = h.jlong(e, "bit_size", 0)
    L = h.jint(e, "x_length", 0)
    A = z3.Array("x", z3.BitVecSort(32), z3.BitVecSort(8))
    ex, _r = run(e, v, lambda: v.new(BB, "([BJ)V", JArr("B", L, base=lambda i: z3.Select(A, i)), size), "new BitBuffer", (IAE, ZE))
    ok = z3.ULE(size, 8 * z3.SignExt(32, L))
    e.prove(ok if ex is None else z3.Not(ok), "BitBuffer.size-fits")
    e.reach("end")


def cases(tier):
    return [Case("bit-field-bounds", bounds), Case("align", align), Case("bytes-bits", bytes_bits), Case("numbits-long", numbits_long), Case("numbits-big", numbits_big),
            Case("bit-buffer-equality", equality), Case("bit-buffer-equals-other", equals_other), Case("bit-buffer-hash", hashing), Case("bit-buffer-content", content),
            Case("bit-buffer-rejects", rejects)]


def search(seed, budget, hints):
    return h.search("JSearch", "J05", seed, budget, hints)
